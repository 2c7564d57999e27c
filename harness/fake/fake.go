//go:build go1.22

// Package fake controls stand-in protoc processes: every invocation reports
// its arguments and blocks until the check decides what it does.
package fake

import (
	"bufio"
	"encoding/json"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/uber/prototool/internal/verifmc/core"
)

// Call is one invocation of protoc that is waiting for its fate.
type Call struct {
	Args []string
	Wd   string
	Pid  int

	conn   net.Conn
	closed chan struct{}
}

// Reply is what an invocation does.
type Reply struct {
	Stdout string
	Stderr string
	Exit   int
	Signal int
	Files  map[string][]byte
}

// Server receives the calls.
type Server struct {
	C chan *Call
	l net.Listener
	// Sequential is set once the implementation was seen not to run all
	// the invocations at once, we then do not wait for more of them.
	Sequential bool
}

// Start starts the server and makes prototool use the stand-in.
func Start(w *core.W) *Server {
	sock := filepath.Join(w.Scratch, "sock")
	l, err := net.Listen("unix", sock)
	core.Internal(err)
	_ = os.Setenv("VERIF_SOCK", sock)
	self, err := os.Executable()
	core.Internal(err)
	_ = os.Setenv("PROTOTOOL_PROTOC_BIN_PATH", filepath.Join(filepath.Dir(self), "fakeprotoc"))
	_ = os.Setenv("PROTOTOOL_PROTOC_WKT_PATH", core.ProtocWKT)
	s := &Server{C: make(chan *Call, 256), l: l}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				c := &Call{conn: conn, closed: make(chan struct{})}
				r := bufio.NewReader(conn)
				if err := json.NewDecoder(r).Decode(c); err != nil {
					_ = conn.Close()
					return
				}
				s.C <- c
				buf := make([]byte, 1)
				for {
					if _, err := conn.Read(buf); err != nil {
						break
					}
				}
				close(c.closed)
			}()
		}
	}()
	return s
}

// Bin is the path of the stand-in.
func Bin() string { return os.Getenv("PROTOTOOL_PROTOC_BIN_PATH") }

// Dir is the directory of the files of the call.
func (c *Call) Dir() string { return filepath.Dir(c.Args[len(c.Args)-1]) }

// Output is the value of -o.
func (c *Call) Output() string {
	for i, a := range c.Args {
		if a == "-o" && i+1 < len(c.Args) {
			return c.Args[i+1]
		}
		if strings.HasPrefix(a, "-o") && len(a) > 2 {
			return a[2:]
		}
		if strings.HasPrefix(a, "--descriptor_set_out=") {
			return strings.TrimPrefix(a, "--descriptor_set_out=")
		}
	}
	return ""
}

// Reply lets the process finish, and returns when it is gone.
func (c *Call) Reply(r Reply) {
	_ = json.NewEncoder(c.conn).Encode(r)
	c.Wait(10 * time.Second)
	_ = c.conn.Close()
}

// Wait waits until the process is gone, returns false if it still lives.
func (c *Call) Wait(d time.Duration) bool {
	end := time.Now().Add(d)
	select {
	case <-c.closed:
	case <-time.After(d):
		return false
	}
	// gone when it is reaped
	for syscall.Kill(c.Pid, 0) == nil {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(50 * time.Microsecond)
	}
	return true
}

// Kill ends the process if it still lives.
func (c *Call) Kill() {
	_ = syscall.Kill(c.Pid, syscall.SIGKILL)
	_ = c.conn.Close()
}

// Gather waits until n calls are waiting, or done is closed, or no more come.
func (s *Server) Gather(n int, done <-chan struct{}) []*Call {
	var calls []*Call
	for len(calls) < n {
		wait := 3 * time.Second
		if s.Sequential && len(calls) > 0 {
			wait = 5 * time.Millisecond
		}
		select {
		case c := <-s.C:
			calls = append(calls, c)
		case <-done:
			return calls
		case <-time.After(wait):
			if len(calls) > 0 {
				s.Sequential = true
				return calls
			}
		}
	}
	return calls
}
