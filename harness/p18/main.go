//go:build go1.22 && linux && amd64

// P18: a protoc in the cache is complete or not there, whatever crashes, fails or runs at the same time.
package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/uber/prototool/internal/cmd"
	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/tracer"
)

func main() {
	if os.Getenv("VERIF_CHILD") != "" {
		serve(os.Getenv("VERIF_CHILD"))
		os.Exit(cmd.Do(os.Args[1:], os.Stdin, os.Stdout, os.Stderr))
	}
	core.Main(&core.Check{
		ID:    "P18",
		Level: "model_checking",
		Rule: "A case is a state of the cache (none, another version, broken, left over from a crash, complete), a command that needs protoc, and what happens at one (or two) of its system calls that change the cache: the process is killed before it, after half of a write, the call fails, or another process runs from there until it blocks, ends, or reaches a given point, or the process is killed while the other waits. " +
			"Then a command is run to the end. The processes are real and are stopped with ptrace at every such call. Non-trivial: something happened at a point that was reached.",
		Assumptions: []string{"the process dies, not the machine: what the kernel was told stays", "protoc's installation is the zip file"},
		Run:         run,
		CaseTimeout: 5 * time.Minute,
	})
}

const version = "3.11.0"

// script is a protoc that says its version and otherwise is the one of the system.
func script(v string) string {
	return "#!/bin/sh\nif [ \"$1\" = --version ]; then\n  echo libprotoc " + v + "\nelse\n  exec /usr/bin/protoc \"$@\"\nfi\n"
}

var content = map[string]string{}

var zipData []byte

func makeZip() {
	for _, n := range []string{"any", "timestamp"} {
		b, err := os.ReadFile("/usr/include/google/protobuf/" + n + ".proto")
		core.Internal(err)
		content["include/google/protobuf/"+n+".proto"] = string(b)
	}
	content["bin/protoc"] = script(version)
	content["readme.txt"] = "read me\n"
	zipData = pack(content)
}

func pack(files map[string]string) []byte {
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	_, err := zw.Create("include/")
	core.Internal(err)
	for _, n := range names {
		h := &zip.FileHeader{Name: n, Method: zip.Deflate}
		h.SetMode(0644)
		if strings.HasPrefix(n, "bin/") {
			h.SetMode(0755)
		}
		f, err := zw.CreateHeader(h)
		core.Internal(err)
		_, err = f.Write([]byte(files[n]))
		core.Internal(err)
	}
	core.Internal(zw.Close())
	return buf.Bytes()
}

// serve answers all requests with the file.
func serve(file string) {
	http.DefaultTransport = transport(file)
}

type transport string

func (t transport) RoundTrip(req *http.Request) (*http.Response, error) {
	b, err := os.ReadFile(string(t))
	if err != nil {
		return nil, err
	}
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req, ContentLength: int64(len(b)), Body: io.NopCloser(bytes.NewReader(b))}, nil
}

type state struct {
	name string
	// change alters a complete installation at base
	change func(cache, base string)
}

var states = []state{
	{"nothing", func(cache, base string) { core.Internal(os.RemoveAll(cache)) }},
	{"other version", func(cache, base string) {
		core.Write(base, map[string]string{"bin/protoc": script("3.0.0"), "old.txt": "old", "include/google/protobuf/old.proto": "old"})
		core.Internal(os.Remove(base + "/include/google/protobuf/any.proto"))
	}},
	{"left over", func(cache, base string) {
		core.Internal(os.RemoveAll(base))
		core.Write(base+".tmp", map[string]string{"bin/protoc": "#!/bin/sh\n", "stale/file": "x"})
	}},
	{"not executable", func(cache, base string) {
		core.Internal(os.Chmod(base+"/bin/protoc", 0644))
		core.Internal(os.RemoveAll(base + "/include"))
	}},
	{"truncated", func(cache, base string) {
		core.Internal(os.WriteFile(base+"/bin/protoc", nil, 0755))
		core.Write(base, map[string]string{"extra/file": "x"})
	}},
	{"complete", func(cache, base string) {}},
}

type command struct {
	name string
	args []string
	url  bool
}

var commands = []command{
	{"cache update", []string{"cache", "update"}, false},
	{"compile", []string{"compile"}, true},
	{"compile --dry-run of url", []string{"compile", "--dry-run"}, true},
	{"compile of version", []string{"compile"}, false},
}

type kase struct {
	State   string
	Command string
	What    string
	Points  []int
	Errno   string `json:",omitempty"`
}

type env struct {
	root, cache, work, zip, base string
	children                     int
}

// prepare makes the state.
func prepare(w *core.W, s state, c command) *env {
	root := w.Fresh("t")
	e := &env{root: root, cache: root + "/cache", work: root + "/w", zip: root + "/protoc.zip"}
	core.Internal(os.WriteFile(e.zip, zipData, 0644))
	serve(e.zip)
	core.Write(e.work, map[string]string{"prototool.yaml": "protoc:\n  version: " + version + "\n", "a.proto": "syntax = \"proto3\";\npackage a;\nimport \"google/protobuf/timestamp.proto\";\nmessage A {\n  google.protobuf.Timestamp t = 1;\n}\n"})
	// where it is installed is found out, not assumed
	if r := core.CLI(e.work, e.args(commands[3], c.url)...); r.Code != 0 {
		core.Internal(fmt.Errorf("cannot install: %s%s", r.Out, r.Err))
	}
	for f := range core.Snapshot(e.cache) {
		if strings.HasSuffix(f, "/bin/protoc") {
			e.base = path.Join(e.cache, strings.TrimSuffix(f, "/bin/protoc"))
		}
	}
	if e.base == "" {
		core.Internal(fmt.Errorf("no installation: %v", core.Snapshot(e.cache)))
	}
	s.change(e.cache, e.base)
	return e
}

func (e *env) args(c command, url bool) []string {
	args := append([]string{}, c.args...)
	args = append(args, "--cache-path", e.cache)
	if url {
		args = append(args, "--protoc-url", "file://"+e.zip)
	}
	return args
}

func (e *env) spec(c command) tracer.Spec {
	self, err := os.Executable()
	core.Internal(err)
	e.children++
	return tracer.Spec{
		Path: self, Args: e.args(c, c.url), Dir: e.work, Out: fmt.Sprintf("%s/out%d", e.root, e.children),
		Env: []string{"VERIF_CHILD=" + e.zip, "HOME=" + e.root + "/home", "PATH=/usr/bin:/bin", "TMPDIR=" + os.TempDir(), "GOMAXPROCS=1", "GOGC=off"},
	}
}

func (e *env) output(n int) string {
	b, _ := os.ReadFile(fmt.Sprintf("%s/out%d", e.root, n))
	return strings.TrimSpace(string(b))
}

// complete says what is wrong with the installation.
func (e *env) complete() string {
	got := map[string]string{}
	for f, s := range core.Snapshot(e.base) {
		if !strings.HasSuffix(f, "/") {
			got[f] = s
		}
	}
	for f, s := range core.Snapshot(e.base) {
		_ = s
		if _, ok := content[f]; !ok && !strings.HasSuffix(f, "/") {
			return f + " should not be there"
		}
	}
	ref := core.Snapshot(e.root + "/ref")
	for f := range content {
		if got[f] != ref[f] {
			if _, ok := got[f]; !ok {
				return f + " is missing"
			}
			return f + " is different"
		}
	}
	return ""
}

// usable says whether what is there would be used.
func (e *env) usable() bool {
	out, err := exec.Command(e.base+"/bin/protoc", "--version").Output()
	return err == nil && strings.TrimSpace(string(out)) == "libprotoc "+version
}

// after checks what a crash or failure left and that the next command repairs it.
func (e *env) after(t *core.T, w *core.W, c command) {
	if e.usable() {
		if s := e.complete(); s != "" {
			t.Failf("incomplete", "the installation is taken for complete, but %s", s)
		}
	}
	e.finish(t, w, c)
}

// finish runs a command to the end.
func (e *env) finish(t *core.T, w *core.W, c command) {
	next := command{args: []string{"compile"}, url: c.url}
	r := core.CLI(e.work, e.args(next, c.url)...)
	w.Count("runs", 1)
	if r.Code != 0 || r.Out != "" {
		t.Failf("next", "the next command ends with exit code %d: %s%s", r.Code, r.Out, r.Err)
	}
	e.clean(t)
}

// clean checks the cache when nothing runs.
func (e *env) clean(t *core.T) {
	if s := e.complete(); s != "" {
		t.Failf("installed", "after a success %s", s)
	}
	for f := range core.Snapshot(e.cache) {
		p := path.Join(e.cache, f)
		if !strings.HasPrefix(p, e.base+"/") && !strings.HasPrefix(e.base, p) && !strings.HasSuffix(f, ".lock") {
			t.Failf("left", "%s stays in the cache", f)
		}
	}
}

// the reference tree is written like the installation so that snapshots (with modes) compare
func (e *env) reference() {
	core.Write(e.root+"/ref", content)
	core.Internal(os.Chmod(e.root+"/ref/bin/protoc", 0755))
}

func (e *env) run(w *core.W, specs []tracer.Spec, tr *tracer.Tracer) *tracer.Tracer {
	tr.Prefix = e.cache
	core.Internal(tr.Run(specs))
	w.Count("runs", int64(len(specs)))
	for _, x := range tr.Exits {
		w.Count("points", int64(len(x.Points)))
	}
	return tr
}

const maxPoints = 48

// upTo calls f for each point that a process can reach: f says whether it was reached. Points
// from the last case on are all explored by this one.
func upTo(w *core.W, k kase, f func(t *core.T, point int) bool) {
	for i := 0; i < maxPoints; i++ {
		i := i
		kk := k
		kk.Points = []int{i}
		w.Case(kk, func(t *core.T) {
			if !f(t, i) {
				w.Count("beyond the end", 1)
			} else if i == maxPoints-1 {
				for j := i + 1; f(t, j); j++ {
				}
			}
		})
	}
}

func run(w *core.W) {
	for _, v := range []string{"PROTOTOOL_PROTOC_BIN_PATH", "PROTOTOOL_PROTOC_WKT_PATH", "PROTOTOOL_CACHE_PATH", "XDG_CACHE_HOME"} {
		_ = os.Unsetenv(v)
	}
	makeZip()
	crashes(w)
	faults(w)
	races(w)
	bad(w)
}

func crashes(w *core.W) {
	for ci, c := range commands {
		if ci >= 2 && !w.Thorough() {
			break
		}
		for _, s := range states {
			if c.url && s.name == "other version" {
				// the version behind a URL is not known
				continue
			}
			for _, how := range []string{"kill", "kill in write"} {
				c, s, how := c, s, how
				once := func(e *env, point int) bool {
					hit := false
					written := -1
					e.run(w, []tracer.Spec{e.spec(c)}, &tracer.Tracer{Point: func(call *tracer.Call) tracer.Action {
						if how == "kill" && call.Index == point {
							hit = true
							return tracer.Kill
						}
						if how == "kill in write" {
							if call.Index == point && call.Name == "write" {
								hit = true
								written = call.Index
								return tracer.Short
							}
							if written >= 0 {
								return tracer.Kill
							}
						}
						return tracer.Go
					}})
					return hit
				}
				upTo(w, kase{State: s.name, Command: c.name, What: how}, func(t *core.T, point int) bool {
					e := prepare(w, s, c)
					e.reference()
					hit := once(e, point)
					if hit {
						w.Nontrivial(fmt.Sprint(s.name, c.name, how, point))
						w.State(fmt.Sprint(core.Snapshot(e.cache)))
					}
					e.after(t, w, c)
					return hit || how != "kill" && point < maxPoints-1
				})
				// the recovery is killed too
				if how != "kill" || !w.Thorough() && (ci > 0 || s.name != "nothing" && s.name != "other version") || s.name == "complete" {
					continue
				}
				upTo(w, kase{State: s.name, Command: c.name, What: "kill and kill the next"}, func(t *core.T, point int) bool {
					for second := 0; ; second++ {
						e := prepare(w, s, c)
						e.reference()
						if !once(e, point) {
							return false
						}
						hit := once(e, second)
						w.State(fmt.Sprint(core.Snapshot(e.cache)))
						if hit {
							w.Nontrivial(fmt.Sprint(s.name, c.name, how, point, second))
						}
						if w.Thorough() {
							once(e, second/2)
						}
						e.after(t, w, c)
						if !hit || t.Failed() {
							return true
						}
					}
				})
			}
		}
	}
}

func faults(w *core.W) {
	errnos := map[string]syscall.Errno{"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EACCES": syscall.EACCES, "EINTR": syscall.EINTR}
	for ci, c := range commands {
		if ci >= 1 && !w.Thorough() {
			break
		}
		for _, s := range states {
			if c.url && s.name == "other version" {
				continue
			}
			for _, name := range []string{"ENOSPC", "EIO", "EACCES", "all after ENOSPC", "EINTR"} {
				c, s, name := c, s, name
				if name == "EINTR" && !w.Thorough() {
					continue
				}
				upTo(w, kase{State: s.name, Command: c.name, What: "fail", Errno: name}, func(t *core.T, point int) bool {
					e := prepare(w, s, c)
					e.reference()
					hit := ""
					tr := e.run(w, []tracer.Spec{e.spec(c)}, &tracer.Tracer{Point: func(call *tracer.Call) tracer.Action {
						all := strings.HasPrefix(name, "all")
						if call.Index == point || all && call.Index > point && (call.Name == "open" || call.Name == "write" || call.Name == "mkdir") {
							hit = call.Name
							call.Errno = errnos[strings.TrimPrefix(name, "all after ")]
							return tracer.Fail
						}
						return tracer.Go
					}})
					if hit != "" {
						w.Nontrivial(fmt.Sprint(s.name, c.name, name, point))
					}
					if x := tr.Exits[0]; x.Code == 0 {
						if str := e.complete(); str != "" {
							t.Failf("success", "exit code 0 although a %s failed and %s", hit, str)
						}
					} else if e.output(e.children) == "" {
						t.Failf("silent", "exit code %d without a message", x.Code)
					} else if hit == "" {
						t.Failf("failed", "exit code %d: %s", x.Code, e.output(e.children))
					}
					e.after(t, w, c)
					return hit != ""
				})
			}
		}
	}
}

// races are two processes: the first stops at a point, the second runs until it has to wait, ends, or is at a point of its own,
// then the first runs on (or is killed), then both.
func races(w *core.W) {
	pairs := [][2]command{{commands[0], commands[3]}, {commands[2], commands[1]}}
	for pi, p := range pairs {
		if pi > 0 && !w.Thorough() {
			break
		}
		for _, s := range states {
			if s.name != "nothing" && s.name != "other version" && !w.Thorough() || pi > 0 && s.name == "other version" {
				continue
			}
			for _, kill := range []bool{false, true} {
				p, s, kill := p, s, kill
				what := "the other runs"
				if kill {
					what = "the other runs, then kill"
				}
				upTo(w, kase{State: s.name, Command: p[0].name + " and " + p[1].name, What: what}, func(t *core.T, point int) bool {
					reached := false
					for second := -1; ; second++ {
						e := prepare(w, s, p[0])
						e.reference()
						r := &race{e: e, point: point, second: second, kill: kill}
						r.run(t, w, p)
						reached = reached || r.first
						if r.first {
							w.Nontrivial(fmt.Sprint(s.name, p[0].name, p[1].name, kill, point, second))
							w.State(fmt.Sprint(r.tr.Exits[0].Points, r.tr.Exits[1].Points))
						}
						e.finish(t, w, p[1])
						// the second process did not get to the point
						if second >= 0 && !r.secondHit || t.Failed() || !r.first {
							return reached
						}
					}
				})
			}
		}
	}
}

type race struct {
	e             *env
	point, second int
	kill          bool

	tr        *tracer.Tracer
	turn      int // which process runs, 2: both
	first     bool
	secondHit bool
	waits     int
}

func (r *race) run(t *core.T, w *core.W, p [2]command) {
	e := r.e
	specs := []tracer.Spec{e.spec(p[0]), e.spec(p[1])}
	r.tr = &tracer.Tracer{Timeout: 2 * time.Minute}
	success := false
	check := func(when string) {
		if success {
			if s := e.complete(); s != "" {
				t.Failf("taken away", "%s, after a success, %s", when, s)
			}
		}
	}
	toFirst := func() {
		if r.kill {
			r.turn = 1
			r.tr.KillProc(0)
			return
		}
		if r.turn == 1 {
			r.turn = 0
		}
		r.tr.Resume(0)
	}
	r.tr.Point = func(c *tracer.Call) tracer.Action {
		check(fmt.Sprintf("before %v of process %d", c, c.Proc))
		if c.Proc == 0 {
			if !r.first && c.Index == r.point {
				r.first = true
				r.turn = 1
				r.tr.Resume(1)
				return tracer.Pause
			}
			if r.turn == 1 {
				return tracer.Pause
			}
			return tracer.Go
		}
		if r.turn == 0 {
			return tracer.Pause
		}
		if r.turn == 1 && r.first && !r.tr.Exits[0].Done && c.Index == r.second {
			r.secondHit = true
			toFirst()
			if r.kill {
				return tracer.Go
			}
			return tracer.Pause
		}
		return tracer.Go
	}
	r.tr.Result = func(c *tracer.Call, ret int64) {
		// it waits for the lock: the first has to go on
		if c.Proc == 1 && r.turn == 1 && (c.Name == "flock" || c.Name == "fcntl-lock") && ret < 0 {
			r.waits++
			toFirst()
			r.turn = 2
		}
		if c.Proc == 0 && r.tr.Paused(1) && (c.Name == "flock" || c.Name == "fcntl-lock") && ret < 0 {
			r.turn = 2
			r.tr.Resume(1)
		}
	}
	r.tr.Exited = func(proc int) {
		x := r.tr.Exits[proc]
		if !x.Killed && x.Code == 0 {
			success = true
			check(fmt.Sprintf("when process %d ended", proc))
		}
		if proc == 0 {
			r.turn = 1
			r.tr.Resume(1)
		} else {
			r.turn = 0
			if r.kill && !r.tr.Exits[0].Done && r.first {
				r.tr.KillProc(0)
			}
			r.tr.Resume(0)
		}
	}
	e.run(w, specs, r.tr)
	for i, x := range r.tr.Exits {
		if i == 0 && r.kill && r.first {
			continue
		}
		if x.Code != 0 || x.Killed {
			t.Failf("process", "process %d ended with %+v: %s", i, x, e.output(i+1))
		}
	}
	w.Count("waited for the lock", int64(r.waits))
}

// bad are downloads that are not what they should be: nothing is installed, and a good one is afterwards.
func bad(w *core.W) {
	with := func(f func(m map[string]string)) []byte {
		m := map[string]string{}
		for n, s := range content {
			m[n] = s
		}
		f(m)
		return pack(m)
	}
	datas := map[string][]byte{
		"empty":         {},
		"not a zip":     []byte("<html>404</html>"),
		"no protoc":     with(func(m map[string]string) { delete(m, "bin/protoc") }),
		"other version": with(func(m map[string]string) { m["bin/protoc"] = script("3.10.0") }),
		"failing":       with(func(m map[string]string) { m["bin/protoc"] = "#!/bin/sh\nexit 1\n" }),
		"longer":        with(func(m map[string]string) { m["bin/protoc"] = script(version + "1") }),
		"silent":        with(func(m map[string]string) { m["bin/protoc"] = "#!/bin/sh\n" }),
	}
	// cut anywhere, and every byte wrong
	step := w.Pick(16, 1)
	for i := 0; i < len(zipData); i += step {
		datas[fmt.Sprintf("cut %05d", i)] = zipData[:i]
		if i >= bytes.Index(zipData, []byte("PK\x01\x02")) {
			// names and modes in the directory of the zip file have no checksum
			continue
		}
		b := append([]byte(nil), zipData...)
		b[i] ^= 0x55
		datas[fmt.Sprintf("wrong %05d", i)] = b
	}
	var names []string
	for n := range datas {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, s := range states {
		for _, n := range names {
			if s.name != "nothing" && (strings.HasPrefix(n, "cut") || strings.HasPrefix(n, "wrong")) {
				continue
			}
			s, n := s, n
			w.Case(kase{State: s.name, Command: "cache update", What: "download " + n}, func(t *core.T) {
				c := commands[0]
				e := prepare(w, s, c)
				e.reference()
				core.Internal(os.WriteFile(e.zip, datas[n], 0644))
				was := e.complete() == ""
				r := core.CLI(e.work, e.args(c, false)...)
				w.Count("runs", 1)
				w.Nontrivial(s.name + n)
				if r.Code == 0 && e.complete() != "" {
					// what the check of the zip cannot see (a time, a comment) is not a difference
					t.Failf("accepted", "exit code 0, but %s", e.complete())
				}
				if r.Code != 0 && r.Out+r.Err == "" {
					t.Failf("silent", "exit code %d without a message", r.Code)
				}
				if was && e.complete() != "" {
					t.Failf("taken away", "a complete installation is damaged: %s", e.complete())
				}
				core.Internal(os.WriteFile(e.zip, zipData, 0644))
				e.after(t, w, c)
			})
		}
	}
}
