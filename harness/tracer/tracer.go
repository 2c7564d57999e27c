//go:build go1.22 && linux && amd64

// Package tracer runs real processes and stops them before every system call
// that changes a file below a directory. The explorer decides at each of these
// points whether the process goes on, is killed, is told that the call failed,
// transfers less, or has to wait for another process.
package tracer

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Action is what happens at a point.
type Action int

const (
	// Go lets the process make the call.
	Go Action = iota
	// Kill kills it before the call.
	Kill
	// Fail makes the call fail with Call.Errno.
	Fail
	// Short halves the length of a write.
	Short
	// Pause stops the process until Resume.
	Pause
)

// Call is a system call that is about to be made.
type Call struct {
	Proc  int
	Index int // of this process
	Name  string
	Path  string
	Path2 string
	Size  int
	// Errno is for Fail.
	Errno syscall.Errno
}

func (c *Call) String() string {
	s := c.Name + " " + c.Path
	if c.Path2 != "" {
		s += " " + c.Path2
	}
	if c.Size >= 0 {
		s += " " + strconv.Itoa(c.Size)
	}
	return s
}

// Spec is a process.
type Spec struct {
	Path string
	Args []string
	Env  []string
	Dir  string
	Out  string // file for standard output and error
}

// Exit is how a process ended.
type Exit struct {
	Done   bool
	Code   int
	Killed bool
	Points []string
}

// Tracer runs processes.
type Tracer struct {
	Prefix string
	// Network says that connections are points too.
	Network bool
	// Point is called at each point.
	Point func(c *Call) Action
	// Result is called when the call that Point saw returned.
	Result func(c *Call, ret int64)
	// Exited is called when a process has ended.
	Exited func(proc int)
	// Timeout is for everything.
	Timeout time.Duration

	Exits   []Exit
	roots   map[int]int // pid to process
	pids    []int
	threads map[int]*thread
	paused  map[int][]int // process to tids
	live    int
}

type thread struct {
	proc    int // -1: not one of the processes, but started by one
	call    *Call
	errno   syscall.Errno
	fail    bool
	started bool
}

const (
	optSysGood  = 0x1
	optFork     = 0x2
	optVfork    = 0x4
	optClone    = 0x8
	optExec     = 0x10
	optExitKill = 0x100000
	wall        = 0x40000000
	wnothread   = 0x20000000
)

// Run starts all processes, the first runs at once, the others if start says so.
func (t *Tracer) Run(specs []Spec) error {
	done := make(chan error, 1)
	go func() {
		runtime.LockOSThread()
		// the thread ends with the goroutine
		done <- t.run(specs)
	}()
	return <-done
}

func (t *Tracer) run(specs []Spec) (err error) {
	t.roots = map[int]int{}
	t.threads = map[int]*thread{}
	t.paused = map[int][]int{}
	t.Exits = make([]Exit, len(specs))
	stop := make(chan struct{})
	finished := make(chan struct{})
	timedOut := false
	for i, s := range specs {
		out, err := os.OpenFile(s.Out, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
		if err != nil {
			return err
		}
		null, err := os.Open(os.DevNull)
		if err != nil {
			return err
		}
		pid, err := syscall.ForkExec(s.Path, append([]string{s.Path}, s.Args...), &syscall.ProcAttr{
			Dir: s.Dir, Env: s.Env, Files: []uintptr{null.Fd(), out.Fd(), out.Fd()},
			Sys: &syscall.SysProcAttr{Ptrace: true, Setpgid: true, Pdeathsig: syscall.SIGKILL},
		})
		_ = out.Close()
		_ = null.Close()
		if err != nil {
			t.killAll()
			return fmt.Errorf("start: %v", err)
		}
		t.roots[pid] = i
		t.pids = append(t.pids, pid)
		t.live++
		var ws syscall.WaitStatus
		if _, err := syscall.Wait4(pid, &ws, wall|wnothread, nil); err != nil {
			t.killAll()
			return fmt.Errorf("wait: %v", err)
		}
		if !ws.Stopped() {
			t.killAll()
			return fmt.Errorf("process did not stop: %v", ws)
		}
		if err := syscall.PtraceSetOptions(pid, optSysGood|optFork|optVfork|optClone|optExec|optExitKill); err != nil {
			t.killAll()
			return fmt.Errorf("options: %v", err)
		}
		t.threads[pid] = &thread{proc: i, started: true}
		if err := syscall.PtraceSyscall(pid, 0); err != nil {
			t.killAll()
			return fmt.Errorf("resume: %v", err)
		}
	}
	timeout := t.Timeout
	if timeout == 0 {
		timeout = 60 * time.Second
	}
	go func() {
		select {
		case <-stop:
		case <-time.After(timeout):
			timedOut = true
			t.killAll()
		}
		close(finished)
	}()
	defer func() {
		close(stop)
		<-finished
		if timedOut {
			err = fmt.Errorf("time limit: %v", t.Exits)
		}
	}()
	for {
		var ws syscall.WaitStatus
		tid, err := syscall.Wait4(-1, &ws, wall|wnothread, nil)
		if err == syscall.EINTR {
			continue
		}
		if err == syscall.ECHILD {
			return nil
		}
		if err != nil {
			return err
		}
		t.event(tid, ws)
	}
}

func (t *Tracer) killAll() {
	for _, pid := range t.pids {
		t.kill(pid)
	}
}

func (t *Tracer) kill(pid int) {
	_ = syscall.Kill(-pid, syscall.SIGKILL)
	_ = syscall.Kill(pid, syscall.SIGKILL)
}

// KillProc kills a process, which may be paused.
func (t *Tracer) KillProc(proc int) { t.kill(t.pids[proc]) }

// Resume continues a paused process.
func (t *Tracer) Resume(proc int) {
	tids := t.paused[proc]
	t.paused[proc] = nil
	for _, tid := range tids {
		_ = syscall.PtraceSyscall(tid, 0)
	}
}

// Paused says whether the process is paused.
func (t *Tracer) Paused(proc int) bool { return len(t.paused[proc]) > 0 }

func (t *Tracer) event(tid int, ws syscall.WaitStatus) {
	if ws.Exited() || ws.Signaled() {
		delete(t.threads, tid)
		if i, ok := t.roots[tid]; ok && !t.Exits[i].Done {
			e := &t.Exits[i]
			e.Done = true
			e.Code = ws.ExitStatus()
			e.Killed = ws.Signaled()
			t.live--
			// nothing that it started may stay
			_ = syscall.Kill(-tid, syscall.SIGKILL)
			if t.Exited != nil {
				t.Exited(i)
			}
		}
		return
	}
	if !ws.Stopped() {
		return
	}
	th := t.threads[tid]
	fresh := th == nil
	if fresh {
		th = &thread{proc: -1}
		if i, ok := t.roots[tgid(tid)]; ok {
			th.proc = i
		}
		t.threads[tid] = th
	}
	sig := ws.StopSignal()
	switch {
	case sig == syscall.SIGTRAP|0x80:
		if !t.syscallStop(tid, th) {
			return
		}
		sig = 0
	case sig == syscall.SIGTRAP && uint32(ws)>>16 != 0:
		if uint32(ws)>>16 == 4 { // exec: the process of the calling thread
			th.call = nil
		}
		sig = 0
	case sig == syscall.SIGSTOP && !th.started:
		sig = 0
	}
	th.started = true
	if th.proc < 0 {
		// runs on without stops at system calls
		_ = syscall.PtraceCont(tid, int(sig))
		return
	}
	_ = syscall.PtraceSyscall(tid, int(sig))
}

func tgid(tid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", tid))
	if err != nil {
		return 0
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "Tgid:") {
			n, _ := strconv.Atoi(strings.TrimSpace(l[5:]))
			return n
		}
	}
	return 0
}

type info struct {
	op   uint8
	pad  [3]uint8
	arch uint32
	ip   uint64
	sp   uint64
	data [8]uint64
	more [4]uint64
}

// syscallStop returns whether the thread goes on now.
func (t *Tracer) syscallStop(tid int, th *thread) bool {
	if th.proc < 0 {
		return true
	}
	var in info
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PTRACE, 0x420e, uintptr(tid), unsafe.Sizeof(in), uintptr(unsafe.Pointer(&in)), 0, 0); e != 0 {
		return true
	}
	if in.op == 2 { // exit
		c := th.call
		th.call = nil
		if c == nil {
			return true
		}
		ret := int64(in.data[0])
		if th.fail {
			th.fail = false
			var regs syscall.PtraceRegs
			if syscall.PtraceGetRegs(tid, &regs) == nil {
				ret = -int64(th.errno)
				regs.Rax = uint64(ret)
				_ = syscall.PtraceSetRegs(tid, &regs)
			}
		}
		if t.Result != nil {
			t.Result(c, ret)
		}
		return true
	}
	if in.op != 1 {
		return true
	}
	c := t.decode(tid, in.data[0], in.data[1:7])
	if c == nil {
		return true
	}
	e := &t.Exits[th.proc]
	c.Proc, c.Index = th.proc, len(e.Points)
	e.Points = append(e.Points, c.String())
	th.call = c
	switch t.Point(c) {
	case Kill:
		t.kill(t.pids[th.proc])
		return false
	case Fail:
		var regs syscall.PtraceRegs
		if syscall.PtraceGetRegs(tid, &regs) == nil {
			regs.Orig_rax = ^uint64(0)
			if syscall.PtraceSetRegs(tid, &regs) == nil {
				th.fail, th.errno = true, c.Errno
			}
		}
	case Short:
		var regs syscall.PtraceRegs
		if c.Size > 1 && syscall.PtraceGetRegs(tid, &regs) == nil {
			regs.Rdx /= 2
			_ = syscall.PtraceSetRegs(tid, &regs)
		}
	case Pause:
		t.paused[th.proc] = append(t.paused[th.proc], tid)
		return false
	}
	return true
}

func (t *Tracer) decode(tid int, nr uint64, a []uint64) *Call {
	c := &Call{Size: -1}
	str := func(addr uint64) string {
		buf := make([]byte, 512)
		n, _ := syscall.PtracePeekText(tid, uintptr(addr), buf)
		if i := bytes.IndexByte(buf[:n], 0); i >= 0 {
			return string(buf[:i])
		}
		return string(buf[:n])
	}
	link := func(name string) string {
		s, _ := os.Readlink(fmt.Sprintf("/proc/%d/%s", tid, name))
		return s
	}
	at := func(fd, addr uint64) string {
		p := str(addr)
		if filepath.IsAbs(p) {
			return filepath.Clean(p)
		}
		if int32(fd) == -100 {
			return filepath.Join(link("cwd"), p)
		}
		return filepath.Join(link(fmt.Sprintf("fd/%d", fd)), p)
	}
	const cwd = uint64(0xffffffffffffff9c)
	fd := func(n uint64) string { return link(fmt.Sprintf("fd/%d", n)) }
	const mutating = syscall.O_CREAT | syscall.O_WRONLY | syscall.O_RDWR | syscall.O_TRUNC
	switch nr {
	case syscall.SYS_OPEN:
		if a[1]&mutating == 0 {
			return nil
		}
		c.Name, c.Path = "open", at(cwd, a[0])
	case syscall.SYS_CREAT:
		c.Name, c.Path = "open", at(cwd, a[0])
	case syscall.SYS_OPENAT:
		if a[2]&mutating == 0 {
			return nil
		}
		c.Name, c.Path = "open", at(a[0], a[1])
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		c.Name, c.Path, c.Size = "write", fd(a[0]), int(a[2])
	case syscall.SYS_WRITEV, 296:
		c.Name, c.Path = "writev", fd(a[0])
	case syscall.SYS_FTRUNCATE, 285:
		c.Name, c.Path = "truncate", fd(a[0])
	case syscall.SYS_TRUNCATE:
		c.Name, c.Path = "truncate", at(cwd, a[0])
	case syscall.SYS_SENDFILE:
		c.Name, c.Path = "sendfile", fd(a[0])
	case 326: // copy_file_range
		c.Name, c.Path = "copy_file_range", fd(a[2])
	case syscall.SYS_SPLICE:
		c.Name, c.Path = "splice", fd(a[2])
	case syscall.SYS_MKDIR:
		c.Name, c.Path = "mkdir", at(cwd, a[0])
	case syscall.SYS_MKDIRAT:
		c.Name, c.Path = "mkdir", at(a[0], a[1])
	case syscall.SYS_RMDIR:
		c.Name, c.Path = "rmdir", at(cwd, a[0])
	case syscall.SYS_UNLINK:
		c.Name, c.Path = "unlink", at(cwd, a[0])
	case syscall.SYS_UNLINKAT:
		c.Name, c.Path = "unlink", at(a[0], a[1])
	case syscall.SYS_RENAME:
		c.Name, c.Path, c.Path2 = "rename", at(cwd, a[0]), at(cwd, a[1])
	case syscall.SYS_RENAMEAT, 316:
		c.Name, c.Path, c.Path2 = "rename", at(a[0], a[1]), at(a[2], a[3])
	case syscall.SYS_LINK:
		c.Name, c.Path, c.Path2 = "link", at(cwd, a[1]), at(cwd, a[0])
	case syscall.SYS_LINKAT:
		c.Name, c.Path, c.Path2 = "link", at(a[2], a[3]), at(a[0], a[1])
	case syscall.SYS_SYMLINK:
		c.Name, c.Path = "symlink", at(cwd, a[1])
	case syscall.SYS_SYMLINKAT:
		c.Name, c.Path = "symlink", at(a[1], a[2])
	case syscall.SYS_CHMOD:
		c.Name, c.Path = "chmod", at(cwd, a[0])
	case syscall.SYS_FCHMOD:
		c.Name, c.Path = "chmod", fd(a[0])
	case syscall.SYS_FCHMODAT, 452:
		c.Name, c.Path = "chmod", at(a[0], a[1])
	case syscall.SYS_CONNECT:
		if !t.Network {
			return nil
		}
		// the family is enough
		buf := make([]byte, 2)
		_, _ = syscall.PtracePeekText(tid, uintptr(a[1]), buf)
		if f := int(buf[0]); f != syscall.AF_INET && f != syscall.AF_INET6 {
			return nil
		}
		c.Name, c.Path = "connect", "/"
		return c
	case syscall.SYS_FLOCK:
		c.Name, c.Path = "flock", fd(a[0])
	case syscall.SYS_FCNTL:
		if a[1] != 6 && a[1] != 7 && a[1] != 37 && a[1] != 38 {
			return nil
		}
		c.Name, c.Path = "fcntl-lock", fd(a[0])
	default:
		return nil
	}
	in := func(p string) bool { return p == t.Prefix || strings.HasPrefix(p, t.Prefix+"/") }
	if !in(c.Path) && !(c.Path2 != "" && in(c.Path2)) {
		return nil
	}
	return c
}
