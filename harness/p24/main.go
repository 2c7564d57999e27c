//go:build go1.22

// P24: grpc sends what it is given and prints what it receives.
package main

import (
	"bytes"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/ptypes/any"
	"github.com/uber/prototool/internal/cmd"
	"github.com/uber/prototool/internal/verifmc/core"
	spb "google.golang.org/genproto/googleapis/rpc/status"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

func main() {
	core.Main(&core.Check{
		ID:    "P24",
		Level: "model_checking",
		Rule: "A case is a call of a method of one of the four kinds with a sequence of request messages against a server that follows a script (send headers, receive, receive until the end, send, set trailers, status, hang, cut the connection), with all requests given at once or in lockstep with the server; or a message, set of headers, combination of flags, address, method name or TLS setup. " +
			"Non-trivial: the server is reached, or a refused invocation.",
		QuickDeadline: 400 * time.Second,
		Assumptions:   []string{"protoc --encode and --decode as the reference of the binary format; the server is that of grpc-go with a codec that passes bytes"},
		Run:           run,
	})
}

type kase struct {
	Kind     string
	Method   string   `json:",omitempty"`
	Requests []string `json:",omitempty"`
	Script   string   `json:",omitempty"`
	Status   string   `json:",omitempty"`
	Lockstep bool     `json:",omitempty"`
	Details  bool     `json:",omitempty"`
	Args     []string `json:",omitempty"`
}

var (
	root string
	srv  *server
	addr string
)

func run(w *core.W) {
	core.UseSystemProtoc()
	root = filepath.Join(w.Scratch, "root")
	core.Write(root, map[string]string{
		"prototool.yaml":    "excludes: []\n",
		"api/v1/api.proto":  apiProto,
		"api/v1/two.proto":  twoProto,
		"dep/v1/dep.proto":  depProto,
		"old/v1/old.proto":  oldProto,
		"nopkg/alone.proto": "syntax = \"proto3\";\n\nmessage Alone {\n  string s = 1;\n}\n\nservice Lonely {\n  rpc Unary(Alone) returns (Alone);\n}\n",
	})
	l, err := net.Listen("unix", filepath.Join(w.Scratch, "grpc.sock"))
	core.Internal(err)
	addr = "unix://" + filepath.Join(w.Scratch, "grpc.sock")
	srv = startServer(l, nil)
	streams(w)
	messages(w)
	headers(w)
	flags(w)
	methods(w)
	failures(w)
	security(w)
}

var cache = map[string]string{}

func protoc(mode, typ string, in string) string {
	k := mode + typ + "\x00" + in
	if v, ok := cache[k]; ok {
		return v
	}
	c := exec.Command(core.ProtocBin, "-I", root, "-I", core.ProtocWKT, "--"+mode+"="+typ, filepath.Join(root, "api/v1/api.proto"), filepath.Join(root, "dep/v1/dep.proto"), filepath.Join(root, "old/v1/old.proto"))
	c.Stdin = strings.NewReader(in)
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Run(); err != nil {
		core.Internal(fmt.Errorf("%s %s %q: %v %s", mode, typ, in, err, errb.String()))
	}
	cache[k] = out.String()
	return out.String()
}

func encode(typ, text string) []byte     { return []byte(protoc("encode", typ, text)) }
func decode(typ string, b []byte) string { return protoc("decode", typ, string(b)) }

// output is a writer that others can wait for.
type output struct {
	mu    sync.Mutex
	cond  *sync.Cond
	data  bytes.Buffer
	fail  int // the number of the write that fails
	count int
}

func newOutput() *output {
	o := &output{}
	o.cond = sync.NewCond(&o.mu)
	return o
}

func (o *output) Write(p []byte) (int, error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.count++
	if o.count == o.fail {
		return 0, fmt.Errorf("no space left on device")
	}
	n, err := o.data.Write(p)
	o.cond.Broadcast()
	return n, err
}

// await waits until there are n lines for which keep is true.
func (o *output) await(n int, keep func(string) bool) bool {
	timer := time.AfterFunc(5*time.Second, func() { o.cond.Broadcast() })
	defer timer.Stop()
	end := time.Now().Add(5 * time.Second)
	o.mu.Lock()
	defer o.mu.Unlock()
	for {
		have := 0
		for _, l := range strings.Split(o.data.String(), "\n") {
			if l != "" && keep(l) {
				have++
			}
		}
		if have >= n {
			return true
		}
		if !time.Now().Before(end) {
			return false
		}
		o.cond.Wait()
	}
}

// call runs the command; it returns false if it does not end.
func call(t *core.T, sc *script, stdin io.Reader, out *output, args ...string) (core.Result, bool) {
	core.Internal(os.Chdir(root))
	sc.done = make(chan struct{})
	if sc.Status == nil {
		sc.Status = status.New(codes.OK, "")
	}
	srv.set(sc)
	var errb bytes.Buffer
	done := make(chan int, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- -1000
				fmt.Fprintln(&errb, "panic:", r)
			}
		}()
		done <- cmd.Do(append([]string{"grpc"}, args...), stdin, out, &errb)
	}()
	select {
	case code := <-done:
		// the server sees the end of the call later
		if !srv.idle() {
			t.Failf("server", "%v: the command ended but the call did not", args)
		}
		out.mu.Lock()
		defer out.mu.Unlock()
		if code == -1000 {
			t.Failf("panic", "%v: %s", args, errb.String())
		}
		return core.Result{Out: out.data.String(), Err: errb.String(), Code: code}, true
	case <-time.After(30 * time.Second):
		t.Failf("hang", "%v: the command does not end", args)
		return core.Result{}, false
	}
}

func object(line string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(line))
	d.UseNumber()
	var v interface{}
	err := d.Decode(&v)
	if err == nil && d.More() {
		err = fmt.Errorf("more than one value")
	}
	return v, err
}

// sameLines compares lines of JSON; empty responses need not be printed.
func sameLines(got string, want []string) bool {
	var lines []string
	for _, l := range strings.Split(got, "\n") {
		if l != "" && l != "{}" {
			lines = append(lines, l)
		}
	}
	if len(lines) != len(want) {
		return false
	}
	for i := range want {
		a, err := object(lines[i])
		b, _ := object(want[i])
		if err != nil || !reflect.DeepEqual(a, b) {
			return false
		}
	}
	return true
}

type ending struct {
	name   string
	status *status.Status
}

func endings() []ending {
	detail, err := proto.Marshal(&spb.Status{Code: 5, Message: "inner"})
	core.Internal(err)
	withDetails := status.FromProto(&spb.Status{Code: int32(codes.FailedPrecondition), Message: "detailed", Details: []*any.Any{
		{TypeUrl: "type.googleapis.com/dep.v1.D", Value: encode("dep.v1.D", `name:"detail"`)},
	}})
	_ = detail
	return []ending{
		{"ok", status.New(codes.OK, "")},
		{"not found", status.New(codes.NotFound, "nothing here: \"x\"")},
		{"details", withDetails},
		{"canceled", status.New(codes.Canceled, "")},
	}
}

type kind struct {
	name                   string
	clientMany, serverMany bool
}

var kinds = []kind{{"Unary", false, false}, {"ClientStream", true, false}, {"ServerStream", false, true}, {"BidiStream", true, true}}

// sequences returns all strings over the alphabet of at most n letters.
func sequences(alphabet string, n int) []string {
	out := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, a := range alphabet {
				next = append(next, s+string(a))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func (k kind) scripts(w *core.W) []string {
	var bodies []string
	switch {
	case !k.clientMany && !k.serverMany:
		bodies = []string{"", "r", "rs", "E", "Es"}
	case k.clientMany && !k.serverMany:
		for _, r := range []string{"", "r", "rr", "rrr", "E", "rE", "rrrr"} {
			bodies = append(bodies, r, r+"s")
		}
	case !k.clientMany:
		for n := 0; n <= w.Pick(3, 5); n++ {
			bodies = append(bodies, "r"+strings.Repeat("s", n), "E"+strings.Repeat("s", n), strings.Repeat("s", n))
		}
	default:
		for _, s := range sequences("rs", w.Pick(4, 6)) {
			bodies = append(bodies, s, s+"E", s+"Es")
		}
	}
	var out []string
	for i, b := range bodies {
		out = append(out, b, "h"+b+"t")
		if w.Thorough() || i%3 == 0 {
			out = append(out, b+"t", "h"+b, "t"+b)
		}
	}
	return out
}

func streams(w *core.W) {
	for _, k := range kinds {
		for _, sc := range k.scripts(w) {
			for _, e := range endings() {
				sends := strings.Count(sc, "s")
				if !k.serverMany && (e.name == "ok") != (sends == 1) {
					continue // against the protocol
				}
				if e.name == "canceled" && !w.Thorough() && len(sc) > 4 {
					continue
				}
				for n := 0; n <= w.Pick(3, 4); n++ {
					if !k.clientMany && n != 1 {
						continue
					}
					if !w.Thorough() && k.clientMany && k.serverMany && e.name != "ok" && n != 2 {
						continue
					}
					for _, lockstep := range []bool{false, true} {
						for _, details := range []bool{false, true} {
							if details && lockstep && !w.Thorough() {
								continue
							}
							k, sc, e, n, lockstep, details := k, sc, e, n, lockstep, details
							w.Case(kase{Kind: "stream", Method: k.name, Script: sc, Status: e.name, Requests: make([]string, n), Lockstep: lockstep, Details: details}, func(t *core.T) {
								stream(w, t, k, sc, e, n, lockstep, details)
							})
						}
					}
				}
			}
		}
	}
}

func stream(w *core.W, t *core.T, k kind, actions string, e ending, n int, lockstep, details bool) {
	var requests []string
	for i := 0; i < n; i++ {
		requests = append(requests, fmt.Sprintf(`{"s":"request %d","i":%d}`, i, i+1))
	}
	sc := &script{Actions: actions, Status: e.status, Headers: metadata.Pairs("x-head", "a", "x-head", "b", "x-other", "c"), Trailers: metadata.Pairs("x-trail", "z")}
	for i := 0; i < strings.Count(actions, "s"); i++ {
		sc.Responses = append(sc.Responses, encode("api.v1.M", fmt.Sprintf("s:\"response %d\" l:%d", i, i+1)))
	}
	args := []string{".", "--address", addr, "--method", "api.v1.API/" + k.name}
	if details {
		args = append(args, "--details")
	}
	out := newOutput()
	var stdin io.Reader = strings.NewReader("")
	if lockstep {
		r, wr := io.Pipe()
		stdin = r
		args = append(args, "--stdin")
		if !k.clientMany {
			// the client needs the end of the input to know that there is only one
			go func() {
				_, _ = wr.Write([]byte(requests[0] + "\n"))
				_ = wr.Close()
			}()
		} else {
			sc.feed = func(i int) {
				if i < n {
					_, _ = wr.Write([]byte(requests[i]))
				} else {
					_ = wr.Close()
				}
			}
		}
		if k.serverMany {
			sc.await = func(i int) bool {
				return out.await(i, func(l string) bool { return strings.Contains(l, "response ") })
			}
		}
		// the call may end before the input
		go func() {
			for sc.done == nil {
				time.Sleep(time.Millisecond)
			}
			<-sc.done
			_ = wr.Close()
		}()
	} else if n%2 == 0 {
		stdin = strings.NewReader(strings.Join(requests, "\n"))
		args = append(args, "--stdin")
	} else {
		args = append(args, "--data", strings.Join(requests, ""))
	}
	r, ok := call(t, sc, stdin, out, args...)
	if !ok {
		return
	}
	w.Count("transitions", int64(len(actions)+1))
	w.Count("schedules", 1)
	w.Count("traces_validated_against_impl", 1)
	w.Nontrivial(fmt.Sprint(k.name, actions, e.name, n, lockstep, details))
	w.State(fmt.Sprint(k.name, actions, e.name, n, r.Code))
	what := fmt.Sprintf("%s, %d requests, script %q, status %s", k.name, n, actions, e.name)
	sc.mu.Lock()
	defer sc.mu.Unlock()
	if sc.called != 1 || sc.method != "/api.v1.API/"+k.name {
		t.Failf("calls", "%s: %d calls, method %s: %+v", what, sc.called, sc.method, r)
		return
	}
	if sc.problem != "" {
		t.Failf("not-streamed", "%s: %s", what, sc.problem)
	}
	// what the server received
	want := 0
	eof := false
	for _, a := range actions {
		if a == 'r' {
			if want < n {
				want++
			} else {
				eof = true
			}
		} else if a == 'E' {
			want, eof = n, true
		}
	}
	if len(sc.received) != want || sc.eof != eof {
		t.Failf("requests", "%s: the server received %d messages (end %v), want %d (end %v)", what, len(sc.received), sc.eof, want, eof)
	}
	for i, b := range sc.received {
		if i < n && !bytes.Equal(b, encode("api.v1.M", fmt.Sprintf("s:\"request %d\" i:%d", i, i+1))) {
			t.Failf("requests", "%s: request %d arrived as %q", what, i, decode("api.v1.M", b))
		}
	}
	// what is printed
	var lines []string
	if details && strings.Contains(actions, "h") {
		lines = append(lines, `{"headers":{"content-type":["application/grpc"],"x-head":["a","b"],"x-other":["c"]}}`)
	} else if details && (strings.Contains(actions, "s")) {
		lines = append(lines, `{"headers":{"content-type":["application/grpc"]}}`)
	}
	for i := range sc.Responses {
		if !k.serverMany && e.name != "ok" {
			continue
		}
		l := fmt.Sprintf(`{"s":"response %d","l":"%d"}`, i, i+1)
		if details {
			l = `{"response":` + l + `}`
		}
		lines = append(lines, l)
	}
	if details {
		switch e.name {
		case "not found":
			lines = append(lines, `{"status":{"code":5,"message":"nothing here: \"x\""}}`)
		case "details":
			lines = append(lines, `{"status":{"code":9,"message":"detailed","details":[{"@type":"type.googleapis.com/dep.v1.D","name":"detail"}]}}`)
		case "canceled":
			lines = append(lines, `{"status":{"code":1}}`)
		}
		if strings.Contains(actions, "t") {
			lines = append(lines, `{"trailers":{"x-trail":["z"]}}`)
		}
	}
	got := r.Out
	if e.name != "ok" {
		if r.Code == 0 {
			t.Failf("success", "%s: exit code 0", what)
		}
		// the failure is printed last
		i := strings.LastIndex(got, "rpc error: ")
		if i < 0 || !strings.Contains(got[i:], e.status.Code().String()) || !strings.Contains(got[i:], e.status.Message()) {
			t.Failf("message", "%s: the status is not reported: %q %q", what, r.Out, r.Err)
		} else {
			got = got[:i]
		}
	} else if r.Code != 0 {
		t.Failf("failure", "%s: exit code %d: %q %q", what, r.Code, r.Out, r.Err)
	}
	match := sameLines(got, lines)
	if details && !strings.ContainsAny(actions, "hs") {
		// without headers, the content type comes with the trailers
		const ct = `"content-type":["application/grpc"]`
		match = match || sameLines(strings.Replace(got, `{"headers":{`+ct+"}}\n", "", 1), lines) || sameLines(strings.Replace(got, `{"trailers":{`+ct+"}}\n", "", 1), lines) || sameLines(strings.Replace(got, `{"trailers":{`+ct+",", `{"trailers":{`, 1), lines)
	}
	if !match {
		t.Failf("printed", "%s (details %v): printed\n%s\nwant\n%s", what, details, r.Out, strings.Join(lines, "\n"))
	}
}

func messages(w *core.W) {
	for _, p := range pairs {
		p := p
		w.Case(kase{Kind: "message", Method: p.method, Requests: []string{p.in}}, func(t *core.T) {
			b := encode(p.typ, p.text)
			sc := &script{Actions: "Es", Responses: [][]byte{b}}
			r, ok := call(t, sc, strings.NewReader(""), newOutput(), ".", "--address", addr, "--method", p.method, "--data", p.in)
			if !ok {
				return
			}
			w.Nontrivial(p.in)
			w.State("message " + p.in)
			w.Count("transitions", 2)
			w.Count("traces_validated_against_impl", 1)
			if len(sc.received) != 1 || decode(p.typ, sc.received[0]) != decode(p.typ, b) {
				t.Failf("message-in", "%s: %q arrived as %q: %+v", p.method, p.in, sc.received, r)
			}
			want := p.out
			if want == "" {
				want = p.in
			}
			if r.Code != 0 || !sameLines(r.Out, []string{want}) {
				t.Failf("message-out", "%s: %q is printed as %q, want %q (exit code %d)", p.method, p.text, r.Out, want, r.Code)
			}
		})
	}
	for _, k := range kinds {
		for _, m := range malformed {
			for pos := 0; pos <= 2; pos++ {
				k, m, pos := k, m, pos
				w.Case(kase{Kind: "malformed", Method: k.name, Requests: []string{m}}, func(t *core.T) {
					data := strings.Repeat(`{"s":"good"}`, pos) + m
					actions := "E"
					if !k.serverMany {
						actions = "Es"
					}
					sc := &script{Actions: actions, Responses: [][]byte{nil}}
					r, ok := call(t, sc, strings.NewReader(""), newOutput(), ".", "--address", addr, "--method", "api.v1.API/"+k.name, "--data", data)
					if !ok {
						return
					}
					w.Nontrivial(fmt.Sprint(k.name, data))
					if r.Code == 0 {
						t.Failf("malformed-accepted", "%s: %q is accepted, the server received %q", k.name, data, sc.received)
					}
					if !k.clientMany && sc.called != 0 {
						t.Failf("malformed-sent", "%s: %q: the method was called", k.name, data)
					}
					for _, b := range sc.received {
						if !bytes.Equal(b, encode("api.v1.M", `s:"good"`)) && !strings.HasPrefix(m, `{"s":"x"}`) {
							t.Failf("malformed-sent", "%s: %q: %q was sent", k.name, data, decode("api.v1.M", b))
						}
					}
				})
			}
		}
		if k.clientMany {
			continue
		}
		for n := 0; n <= 3; n++ {
			k, n := k, n
			if n == 1 {
				continue
			}
			w.Case(kase{Kind: "count", Method: k.name, Requests: make([]string, n)}, func(t *core.T) {
				sc := &script{Actions: "Es", Responses: [][]byte{encode("api.v1.M", "i:1")}}
				r, ok := call(t, sc, strings.NewReader(strings.Repeat(`{"s":"x"}`, n)), newOutput(), ".", "--address", addr, "--method", "api.v1.API/"+k.name, "--stdin")
				if !ok {
					return
				}
				w.Nontrivial(fmt.Sprint("count", k.name, n))
				if n == 0 {
					// an empty message
					if sc.called == 1 && (len(sc.received) != 1 || len(sc.received[0]) != 0) {
						t.Failf("requests", "%s without a request: %q was sent", k.name, sc.received)
					}
					if (r.Code == 0) != (sc.called == 1) {
						t.Failf("failure", "%s without a request: %+v, %d calls", k.name, r, sc.called)
					}
				} else if r.Code == 0 || sc.called != 0 {
					t.Failf("requests", "%s with %d requests: %+v, %d calls, %q was sent", k.name, n, r, sc.called, sc.received)
				}
			})
		}
	}
}

func headers(w *core.W) {
	type header struct {
		in   string
		name string
		want string
		bad  bool
	}
	all := []header{
		{"a:1", "a", "1", false},
		{"a:2", "a", "2", false},
		{"A:3", "a", "3", false},
		{"long-name: spaced value ", "long-name", "spaced value", false},
		{"url:http://x:80/?a=b", "url", "http://x:80/?a=b", false},
		{"empty:", "empty", "", false},
		{"data-bin:AAEC/w==", "data-bin", "\x00\x01\x02\xff", false},
		{"authorization:Bearer abc.def==", "authorization", "Bearer abc.def==", false},
		{"quoted:say hi", "quoted", "say hi", false},
		{"list:x,y", "list", "x,y", false},
		{"nocolon", "", "", true},
		{"", "", "", true},
	}
	var rec func(hs []header)
	rec = func(hs []header) {
		hs = append([]header(nil), hs...)
		var in []string
		for _, h := range hs {
			in = append(in, h.in)
		}
		for _, style := range []string{"-H", "--header"} {
			if style == "--header" && len(hs) != 1 {
				continue
			}
			style := style
			w.Case(kase{Kind: "headers", Args: in}, func(t *core.T) {
				args := []string{".", "--address", addr, "--method", "api.v1.API/Unary", "--data", "{}"}
				bad := false
				want := metadata.MD{}
				for _, h := range hs {
					args = append(args, style, h.in)
					bad = bad || h.bad
					want.Append(h.name, h.want)
				}
				sc := &script{Actions: "Es", Responses: [][]byte{encode("api.v1.M", "i:1")}}
				r, ok := call(t, sc, strings.NewReader(""), newOutput(), args...)
				if !ok {
					return
				}
				w.Nontrivial(fmt.Sprint("headers", in))
				w.Count("transitions", 1)
				if bad {
					if (r.Code == 0 || sc.called != 0) && !(in[0] == "" && len(in) == 1) {
						t.Failf("bad-header", "%q: accepted: %+v", in, r)
					}
					return
				}
				if r.Code != 0 || sc.called != 1 {
					t.Failf("header-refused", "%q: %+v", in, r)
					return
				}
				if got, want := userMetadata(sc.md), userMetadata(want); got != want {
					t.Failf("headers", "%q arrive as %s, want %s", in, got, want)
				}
			})
		}
		if len(hs) < w.Pick(2, 3) {
			for _, h := range all {
				rec(append(hs, h))
			}
		}
	}
	rec(nil)
}

func flags(w *core.W) {
	// every combination of the flags: which ones are refused, without contact
	names := []string{"address", "method", "data", "stdin", "tls", "insecure", "cacert", "cert", "key", "server-name"}
	values := map[string][]string{"method": {"--method", "api.v1.API/Unary"}, "data": {"--data", "{}"}, "stdin": {"--stdin"}, "tls": {"--tls"}, "insecure": {"--insecure"}, "cacert": {"--cacert", "none"}, "cert": {"--cert", "none"}, "key": {"--key", "none"}, "server-name": {"--server-name", "x"}}
	for mask := 0; mask < 1<<uint(len(names)); mask++ {
		on := map[string]bool{}
		args := []string{"."}
		for i, n := range names {
			if mask&(1<<uint(i)) != 0 {
				on[n] = true
				if n == "address" {
					args = append(args, "--address", addr)
				} else {
					args = append(args, values[n]...)
				}
			}
		}
		refused := !on["address"] || !on["method"] || on["data"] == on["stdin"]
		others := on["cacert"] || on["cert"] || on["key"] || on["server-name"]
		if on["tls"] {
			refused = refused || on["insecure"] && others || on["cert"] != on["key"]
		} else {
			refused = refused || on["insecure"] || others
		}
		if !refused && on["tls"] {
			continue // security
		}
		w.Case(kase{Kind: "flags", Args: args}, func(t *core.T) {
			sc := &script{Actions: "Es", Responses: [][]byte{encode("api.v1.M", "i:1")}}
			r, ok := call(t, sc, strings.NewReader("{}"), newOutput(), args...)
			if !ok {
				return
			}
			w.Nontrivial(fmt.Sprint(args))
			w.Count("transitions", 1)
			if refused && (r.Code != 255 || sc.called != 0 || len(strings.TrimSpace(r.Out+r.Err)) == 0) {
				t.Failf("not-refused", "%v: %+v, %d calls", args, r, sc.called)
			}
			if !refused && (r.Code != 0 || sc.called != 1) {
				t.Failf("refused", "%v: %+v, %d calls", args, r, sc.called)
			}
		})
	}
	base := []string{".", "--method", "api.v1.API/Unary", "--data", "{}"}
	type flagCase struct {
		args []string
		ok   bool
	}
	var cases []flagCase
	for _, f := range []string{"--call-timeout", "--connect-timeout", "--keepalive-time"} {
		for v, ok := range map[string]bool{"": true, "0s": true, "20s": true, "1m1.5s": true, "x": false, "5": false, "1 s": false, "s": false} {
			cases = append(cases, flagCase{append(append(base[:len(base):len(base)], "--address", addr), f, v), ok})
		}
	}
	path := strings.TrimPrefix(addr, "unix://")
	for _, a := range []string{"foo://" + path, "http://" + path, "unix:/" + path, "UNIX://" + path, "unix://" + path + ".none", "://" + path, "127.0.0.1:1", "tcp://127.0.0.1:1"} {
		cases = append(cases, flagCase{append(base[:len(base):len(base)], "--address", a, "--connect-timeout", "2s"), false})
	}
	cases = append(cases, flagCase{append(base[:len(base):len(base)], "--address", "unix://"+filepath.Dir(path)+"/../"+filepath.Base(filepath.Dir(path))+"/"+filepath.Base(path)), true})
	for i := range cases {
		c := cases[i]
		if i > 0 {
			// the order of a map must not decide the number of the case
			for j := i; j < len(cases); j++ {
				if fmt.Sprint(cases[j].args) < fmt.Sprint(cases[i].args) {
					cases[i], cases[j] = cases[j], cases[i]
				}
			}
			c = cases[i]
		}
		w.Case(kase{Kind: "values", Args: c.args}, func(t *core.T) {
			sc := &script{Actions: "Es", Responses: [][]byte{encode("api.v1.M", "i:1")}}
			r, ok := call(t, sc, strings.NewReader(""), newOutput(), c.args...)
			if !ok {
				return
			}
			w.Nontrivial(fmt.Sprint(c.args))
			w.Count("transitions", 1)
			if (r.Code == 0) != c.ok || sc.called > 0 != c.ok {
				t.Failf("values", "%v: %+v, %d calls", c.args, r, sc.called)
			}
		})
	}
}

func methods(w *core.W) {
	// which methods can be called with which argument
	all := map[string]string{ // method to the file that defines it
		"api.v1.API/Unary": "api/v1/api.proto", "api.v1.Other/Unary": "api/v1/two.proto", "api.v1.APIs/Unary": "api/v1/two.proto", "dep.v1.API/Unary": "dep/v1/dep.proto", "old.v1.Old/Unary": "old/v1/old.proto", "api.v1.API/ToDep": "api/v1/api.proto",
		"Lonely/Unary":    "nopkg/alone.proto",
		"api.v1.API/None": "", "api.v1.None/Unary": "", "api.API/Unary": "", "API/Unary": "", "api.v1.API": "", "api.v1.API.Unary": "", "api.v1.API/Unary/": "", "/api.v1.API/Unary": "", "api.v1.M/Unary": "", "api.v1.AP/Unary": "", "api.v1.API/unary": "", "api.v1.API/": "", "/": "", "none.v1.API/Unary": "", "v1.API/Unary": "", "api.v1.API /Unary": "",
	}
	var names []string
	for m := range all {
		names = append(names, m)
	}
	sortStrings(names)
	for _, arg := range []string{".", "", "api/v1/api.proto", "api/v1/two.proto", "dep/v1/dep.proto", "dep", "old", "nopkg", "api"} {
		for _, m := range names {
			arg, m := arg, m
			w.Case(kase{Kind: "method", Method: m, Args: []string{arg}}, func(t *core.T) {
				file := all[m]
				known := file != ""
				// with a file or directory, its methods; those of imported files may be known
				must := known && (arg == "." || arg == "" || strings.HasPrefix(file, arg))
				args := []string{"--address", addr, "--method", m}
				if arg != "" {
					args = append([]string{arg}, args...)
				}
				data, resp, want := `{"s":"x"}`, encode("api.v1.M", `s:"y"`), `{"s":"y"}`
				switch {
				case strings.HasPrefix(m, "dep"):
					data, resp, want = `{"name":"x"}`, encode("dep.v1.D", `name:"y"`), `{"name":"y"}`
				case strings.HasPrefix(m, "old"):
					data, resp, want = `{"name":"x"}`, encode("old.v1.P", `name:"y"`), `{"name":"y"}`
				case strings.HasSuffix(m, "ToDep"):
					resp, want = encode("dep.v1.D", `name:"y"`), `{"name":"y"}`
				}
				sc := &script{Actions: "Es", Responses: [][]byte{resp}}
				r, ok := call(t, sc, strings.NewReader(""), newOutput(), append(args, "--data", data)...)
				if !ok {
					return
				}
				w.Nontrivial(fmt.Sprint(arg, m))
				w.Count("transitions", 1)
				if sc.called > 0 && sc.method != "/"+m {
					t.Failf("wrong-method", "%v: %s was called", args, sc.method)
				}
				if !known && (r.Code == 0 || sc.called != 0) {
					t.Failf("unknown-method", "%v: %+v, %d calls", args, r, sc.called)
				}
				if must && (r.Code != 0 || sc.called != 1 || !sameLines(r.Out, []string{want})) {
					t.Failf("method", "%v: %+v, %d calls", args, r, sc.called)
				}
				if (r.Code == 0) != (sc.called == 1) {
					t.Failf("method", "%v: %+v, %d calls", args, r, sc.called)
				}
			})
		}
	}
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

// failures: hangs, cut connections, output that cannot be written, responses that are not what the descriptors say.
func failures(w *core.W) {
	for _, k := range kinds {
		var bodies []string
		if k.serverMany {
			bodies = []string{"", "r", "rs", "rss", "E", "Es", "Ess", "h", "hrs"}
		} else {
			bodies = []string{"", "r", "E", "h", "hE"}
		}
		for _, b := range bodies {
			for _, end := range []string{"x", "k"} {
				for _, details := range []bool{false, true} {
					k, b, end, details := k, b, end, details
					w.Case(kase{Kind: "broken", Method: k.name, Script: b + end, Details: details}, func(t *core.T) {
						sc := &script{Actions: b + end, Headers: metadata.Pairs("x-head", "a")}
						n := strings.Count(b, "s")
						for i := 0; i < n; i++ {
							sc.Responses = append(sc.Responses, encode("api.v1.M", fmt.Sprintf("i:%d", i+1)))
						}
						out := newOutput()
						sc.await = func(i int) bool {
							return out.await(i, func(l string) bool { return strings.Contains(l, `"i":`) })
						}
						args := []string{".", "--address", addr, "--method", "api.v1.API/" + k.name, "--data", `{"s":"x"}`}
						if end == "x" {
							args = append(args, "--call-timeout", "400ms")
						}
						if details {
							args = append(args, "--details")
						}
						start := time.Now()
						r, ok := call(t, sc, strings.NewReader(""), out, args...)
						if !ok {
							return
						}
						w.Nontrivial(fmt.Sprint("broken", k.name, b, end, details))
						w.State(fmt.Sprint("broken", k.name, b, end))
						w.Count("transitions", int64(len(b)+1))
						what := fmt.Sprintf("%s, script %q", k.name, b+end)
						if r.Code == 0 {
							t.Failf("success", "%s: exit code 0: %q", what, r.Out)
						}
						if sc.problem != "" {
							t.Failf("not-streamed", "%s: %s", what, sc.problem)
						}
						want := codes.DeadlineExceeded.String()
						if end == "k" {
							want = codes.Unavailable.String()
						}
						if !strings.Contains(r.Out+r.Err, want) {
							t.Failf("message", "%s: %s is not reported: %q %q", what, want, r.Out, r.Err)
						}
						for i := 1; i <= n; i++ {
							if strings.Count(r.Out, fmt.Sprintf(`{"i":%d}`, i)) != 1 {
								t.Failf("printed", "%s: response %d is not printed: %q", what, i, r.Out)
							}
						}
						if d := time.Since(start); end == "x" && (d < 300*time.Millisecond || d > 15*time.Second) {
							t.Failf("timeout", "%s: ended after %v, the timeout is 400ms", what, d)
						}
					})
				}
			}
		}
		// output
		for _, details := range []bool{false, true} {
			for f := 1; f <= 5; f++ {
				k, details, f := k, details, f
				w.Case(kase{Kind: "output", Method: k.name, Details: details, Args: []string{fmt.Sprint(f)}}, func(t *core.T) {
					sc := &script{Actions: "Est", Headers: metadata.Pairs("x-head", "a"), Trailers: metadata.Pairs("x-trail", "z"), Responses: [][]byte{encode("api.v1.M", "i:1"), encode("api.v1.M", "i:2")}}
					if k.serverMany {
						sc.Actions = "Esst"
					}
					out := newOutput()
					out.fail = f
					args := []string{".", "--address", addr, "--method", "api.v1.API/" + k.name, "--data", `{"s":"x"}`}
					if details {
						args = append(args, "--details")
					}
					r, ok := call(t, sc, strings.NewReader(""), out, args...)
					if !ok {
						return
					}
					w.Nontrivial(fmt.Sprint("output", k.name, details, f))
					w.Count("transitions", 1)
					if out.count >= f && r.Code == 0 {
						t.Failf("lost-output", "%s: the output number %d could not be written, exit code 0; printed: %q", k.name, f, r.Out)
					}
				})
			}
		}
		// responses
		for _, resp := range []string{"\xff\xff\xff", "\x0a\x05ab", "\x0a\x02\xff\xfe"} {
			k, resp := k, resp
			w.Case(kase{Kind: "response", Method: k.name, Args: []string{fmt.Sprintf("%x", resp)}}, func(t *core.T) {
				sc := &script{Actions: "Es", Responses: [][]byte{[]byte(resp)}}
				r, ok := call(t, sc, strings.NewReader(""), newOutput(), ".", "--address", addr, "--method", "api.v1.API/"+k.name, "--data", `{"s":"x"}`)
				if !ok {
					return
				}
				w.Nontrivial(fmt.Sprint("response", k.name, resp))
				if r.Code == 0 && resp[0] == 0xff {
					t.Failf("lost-response", "%s: a response that is not a message, %x, is not an error: %+v", k.name, resp, r)
				}
			})
		}
		for _, text := range []string{`a{type_url:"type.googleapis.com/no.such.Type" value:"\n\001n"}`, `a{type_url:"bad" value:"x"}`, `m{a{type_url:"type.googleapis.com/no.such.Type" value:"\n\001n"}}`, `t{seconds:999999999999999}`, `v{}`} {
			k, text := k, text
			w.Case(kase{Kind: "response", Method: k.name, Args: []string{text}}, func(t *core.T) {
				sc := &script{Actions: "Es", Responses: [][]byte{encode("api.v1.M", `i:1 `+text)}}
				r, ok := call(t, sc, strings.NewReader(""), newOutput(), ".", "--address", addr, "--method", "api.v1.API/"+k.name, "--data", `{"s":"x"}`)
				if !ok {
					return
				}
				w.Nontrivial(fmt.Sprint("response", k.name, text))
				if r.Code == 0 && !strings.Contains(r.Out, `"i":1`) {
					t.Failf("lost-response", "%s: a response that cannot be printed, %s, is lost without an error: %+v", k.name, text, r)
				}
			})
		}
	}
}

func security(w *core.W) {
	c := makeCerts(filepath.Join(w.Scratch, "certs"))
	type tlsServer struct {
		name string
		conf *tls.Config
		srv  *server
		addr string
	}
	servers := []*tlsServer{
		{name: "tls", conf: &tls.Config{Certificates: []tls.Certificate{c.srv}, NextProtos: []string{"h2"}}},
		{name: "mutual", conf: &tls.Config{Certificates: []tls.Certificate{c.srv}, ClientCAs: c.pool, ClientAuth: tls.RequireAndVerifyClientCert, NextProtos: []string{"h2"}}},
		{name: "plain"},
	}
	for _, s := range servers {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		core.Internal(err)
		s.addr = l.Addr().String()
		s.srv = startServer(l, s.conf)
	}
	file := func(n string) string { return filepath.Join(c.dir, n) }
	for _, s := range servers {
		for _, mode := range []string{"", "--tls", "--tls --insecure"} {
			for _, ca := range []string{"", "ca.crt", "other-ca.crt", "server.crt", "garbage.crt", "none.crt"} {
				for _, client := range []string{"", "client", "self", "mismatch", "none"} {
					for _, name := range []string{"", "server.example.com", "wrong.example.com"} {
						if mode != "--tls" && (ca != "" || client != "" || name != "") {
							continue
						}
						s, mode, ca, client, name := s, mode, ca, client, name
						args := strings.Fields(mode)
						if ca != "" {
							args = append(args, "--cacert", file(ca))
						}
						switch client {
						case "":
						case "mismatch":
							args = append(args, "--cert", file("client.crt"), "--key", file("self.key"))
						default:
							args = append(args, "--cert", file(client+".crt"), "--key", file(client+".key"))
						}
						if name != "" {
							args = append(args, "--server-name", name)
						}
						w.Case(kase{Kind: "tls", Method: s.name, Args: append([]string{mode, ca, client}, name)}, func(t *core.T) {
							good := false
							switch {
							case mode == "":
								good = s.name == "plain"
							case s.name == "plain":
							case mode == "--tls --insecure":
								good = s.name == "tls"
							default:
								good = (ca == "ca.crt" || ca == "server.crt") && (name == "" || name == "server.example.com") && (client == "client" || s.name == "tls" && (client == "" || client == "self"))
							}
							sc := &script{Actions: "Es", Responses: [][]byte{encode("api.v1.M", "i:1")}}
							old := srv
							srv = s.srv
							defer func() { srv = old }()
							all := append([]string{".", "--address", s.addr, "--method", "api.v1.API/Unary", "--data", "{}", "--connect-timeout", "1s", "--call-timeout", "5s"}, args...)
							r, ok := call(t, sc, strings.NewReader(""), newOutput(), all...)
							if !ok {
								return
							}
							w.Nontrivial(fmt.Sprint(s.name, args))
							w.Count("transitions", 1)
							if good && (r.Code != 0 || sc.called != 1) {
								t.Failf("tls-refused", "server %s, %v: %+v", s.name, args, r)
							}
							if !good && (r.Code == 0 || sc.called != 0) {
								t.Failf("tls-accepted", "server %s, %v: %+v", s.name, args, r)
							}
						})
					}
				}
			}
		}
	}
}
