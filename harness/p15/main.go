//go:build go1.22

// P15: the verdict of a command is decided by every protoc invocation, in any order, and by signals.
package main

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/fake"
)

type outcome struct {
	name   string
	stderr string
	stdout string
	exit   int
	sig    int
	bad    bool // the output file is not a descriptor set
	// lines that are reported, % is the file
	lines []string
	// hard: fails without a parsed message
	hard bool
	// allowed: not a failure if unused imports are allowed
	allowed bool
}

var outcomes = []outcome{
	{name: "ok"},
	{name: "error", stderr: "@:5:3: \"X\" is not defined.\n", exit: 1, lines: []string{"%:5:3:\"X\" is not defined."}},
	{name: "silent exit 1", exit: 1, hard: true},
	{name: "killed", sig: 9, hard: true},
	{name: "warning exit 0", stderr: "@:3:1: warning: Import b.proto is unused.\n", lines: []string{"%:3:1:Import \"b.proto\" was not used."}, allowed: true},
	{name: "unknown line exit 0", stderr: "strange thing\n", lines: []string{"<input>:1:1:strange thing"}},
	{name: "import only exit 1", stderr: "@: Import \"b.proto\" was not found or had errors.\n", exit: 1, hard: true},
	{name: "stdout only", stdout: "@:5:3: noise on standard output\n"},
	{name: "two errors", stderr: "@:9:1: second.\n@:2:1: first.\n", exit: 1, lines: []string{"%:2:1:first.", "%:9:1:second."}},
	{name: "crash after output", stderr: "@:7:1: before the crash.\n", sig: 9, lines: []string{"%:7:1:before the crash."}},
	{name: "warning and error", stderr: "@:3:1: warning: Import b.proto is unused.\n@:5:3: broken.\n", exit: 1, lines: []string{"%:3:1:Import \"b.proto\" was not used.", "%:5:3:broken."}},
	{name: "terminated", sig: 15, hard: true},
	{name: "error without newline", stderr: "@:5:3: no newline.", exit: 1, lines: []string{"%:5:3:no newline."}},
	{name: "same error everywhere", stderr: "bad flag\n", exit: 1, lines: []string{"<input>:1:1:bad flag"}},
	{name: "allowed warning but exit 1", stderr: "@:3:1: warning: Import b.proto is unused.\n", exit: 1, lines: []string{"%:3:1:Import \"b.proto\" was not used."}},
}

var badDescriptor = outcome{name: "not a descriptor set", bad: true}

type kase struct {
	Command  string
	Allow    bool
	Outcomes []string
	Order    []int
	Signal   string
	Done     []int
}

const src = "syntax = \"proto3\";\npackage p%d.v1;\nmessage  M {\n}\n"

type command struct {
	name   string
	args   []string
	config string
	phases int
	perDir int
	desc   bool // output is a descriptor set
}

var commands = []command{
	{"compile", []string{"compile"}, "", 1, 1, false},
	{"format -w", []string{"format", "-w"}, "", 1, 1, false},
	{"lint", []string{"lint"}, "lint:\n  group: empty\n", 1, 1, false},
	{"generate", []string{"generate"}, "generate:\n  plugins:\n    - name: x\n      output: gen/x\n", 1, 1, false},
	{"all", []string{"all"}, "lint:\n  group: empty\n", 2, 1, false},
	{"descriptor-set", []string{"descriptor-set", "-o", "out.bin"}, "", 1, 1, true},
	{"inspect packages", []string{"x", "inspect", "packages"}, "", 1, 1, true},
	{"break check", []string{"break", "check", "--descriptor-set-path", "old.bin"}, "", 1, 1, true},
	{"generate two plugins", []string{"generate"}, "generate:\n  plugins:\n    - name: x\n      output: gen/x\n    - name: y\n      output: gen/y\n", 1, 2, false},
	{"lint failing", []string{"lint"}, "lint:\n  group: empty\n  rules:\n    add:\n      - MESSAGES_HAVE_COMMENTS\n", 1, 1, false},
}

func main() {
	core.Main(&core.Check{
		ID:    "P15",
		Level: "model_checking",
		Rule: "A case is a command over 1..3 directories, one outcome for each protoc invocation, and the order in which the invocations complete (all permutations), or a signal (SIGINT, SIGTERM) delivered when exactly a given set of the invocations has completed. " +
			"Every invocation is a stand-in process that blocks until the schedule lets it finish. Non-trivial: an invocation fails, or a signal is delivered.",
		Assumptions: []string{"protoc's contract: a message per line on standard error, exit code"},
		Run:         run,
	})
}

var srv *fake.Server

func run(w *core.W) {
	srv = fake.Start(w)
	// the signals are only meant for the command
	signal.Notify(make(chan os.Signal, 1), syscall.SIGINT, syscall.SIGTERM)
	for ci, c := range commands {
		c := c
		for n := 1; n <= 3; n++ {
			k := len(outcomes)
			if n == 2 && !w.Thorough() {
				k = 10
			}
			if n == 3 {
				k = w.Pick(4, 7)
				if ci >= 5 && !w.Thorough() {
					k = 3
				}
			}
			calls := n * c.perDir
			if calls > 4 {
				continue
			}
			alpha := append([]outcome(nil), outcomes[:k]...)
			if c.desc {
				alpha = append(alpha, badDescriptor)
			}
			dims := make([]int, calls)
			for i := range dims {
				dims[i] = len(alpha)
				if calls == 4 {
					dims[i] = 3
				}
			}
			for _, allow := range []bool{false, true} {
				if allow && (n > 1 && ci > 0 || n > 2) {
					continue
				}
				core.Product(dims, func(v []int) {
					os := make([]outcome, len(v))
					names := make([]string, len(v))
					for i := range v {
						os[i] = alpha[v[i]]
						names[i] = alpha[v[i]].name
					}
					core.Permutations(calls, func(p []int) {
						p = append([]int(nil), p...)
						if calls == 4 && !w.Thorough() && p[0] > p[1] {
							return
						}
						allow := allow
						w.Case(kase{c.name, allow, names, p, "", nil}, func(t *core.T) { schedule(w, t, c, allow, n, os, p) })
					})
				})
			}
		}
	}
	for _, c := range commands {
		c := c
		for n := 1; n <= w.Pick(3, 4); n++ {
			calls := n * c.perDir
			if calls > 4 {
				continue
			}
			for _, sig := range []syscall.Signal{syscall.SIGINT, syscall.SIGTERM} {
				for phase := 1; phase <= c.phases; phase++ {
					for mask := 0; mask < 1<<uint(calls)-1; mask++ {
						for _, failed := range []bool{false, true} {
							if failed && mask == 0 {
								continue
							}
							var done []int
							for i := 0; i < calls; i++ {
								if mask&(1<<uint(i)) != 0 {
									done = append(done, i)
								}
							}
							n, sig, phase, done, failed := n, sig, phase, done, failed
							w.Case(kase{c.name, false, []string{fmt.Sprint("done ones fail: ", failed, ", phase ", phase, ", directories ", n)}, nil, sig.String(), done}, func(t *core.T) { signalled(w, t, c, n, sig, phase, done, failed, false) })
						}
					}
				}
			}
		}
	}
	// more directories than invocations at once
	for _, c := range commands[:6] {
		for _, sig := range []syscall.Signal{0, syscall.SIGINT, syscall.SIGTERM} {
			for _, failing := range []int{-1, 0, runtime.NumCPU() - 1, runtime.NumCPU()} {
				if sig != 0 && failing >= 0 {
					continue
				}
				c, sig, failing := c, sig, failing
				w.Case(kase{c.name, false, []string{fmt.Sprint("more than cores, failing ", failing)}, nil, fmt.Sprint(int(sig)), nil}, func(t *core.T) { many(w, t, c, sig, failing) })
			}
		}
	}
}

// tree makes n directories d0..dn-1.
func tree(w *core.W, c command, allow bool, n int) string {
	dir := w.Fresh("tree")
	config := c.config
	if allow {
		config += "protoc:\n  allow_unused_imports: true\n"
	}
	files := map[string]string{"prototool.yaml": config + "excludes: []\n", "old.bin": ""}
	for i := 0; i < n; i++ {
		files[fmt.Sprintf("d%d/a.proto", i)] = fmt.Sprintf(src, i)
	}
	core.Write(dir, files)
	return dir
}

type running struct {
	done   chan struct{}
	result core.Result
	calls  map[string]*fake.Call
	all    []*fake.Call
}

func start(dir string, c command) *running {
	r := &running{done: make(chan struct{}), calls: map[string]*fake.Call{}}
	go func() {
		r.result = core.CLI(dir, c.args...)
		close(r.done)
	}()
	return r
}

// index is the number of an invocation: directory times plugins plus plugin.
func index(c command, call *fake.Call) string {
	d := filepath.Base(call.Dir())
	plugin := ""
	if c.perDir == 2 {
		for _, a := range call.Args {
			if strings.HasPrefix(a, "--y_out=") {
				plugin = "y"
			}
		}
	}
	return d + plugin
}

func key(c command, i int) string {
	if c.perDir == 2 {
		return fmt.Sprintf("d%d", i/2) + []string{"", "y"}[i%2]
	}
	return fmt.Sprintf("d%d", i)
}

// gather collects up to n invocations.
func (r *running) gather(c command, n int) int {
	got := srv.Gather(n, r.done)
	for _, call := range got {
		r.calls[index(c, call)] = call
		r.all = append(r.all, call)
	}
	return len(got)
}

func drain() {
	for {
		select {
		case c := <-srv.C:
			c.Kill()
		default:
			return
		}
	}
}

func descriptorSet(i int) []byte {
	data, err := proto.Marshal(&descriptor.FileDescriptorSet{File: []*descriptor.FileDescriptorProto{{
		Name: proto.String(fmt.Sprintf("d%d/a.proto", i)), Package: proto.String(fmt.Sprintf("p%d.v1", i)), Syntax: proto.String("proto3"),
		MessageType: []*descriptor.DescriptorProto{{Name: proto.String("M")}},
	}}})
	core.Internal(err)
	return data
}

func (o outcome) reply(i int, call *fake.Call) fake.Reply {
	// relative to the include directory, as protoc prints
	name := filepath.Base(call.Dir()) + "/" + filepath.Base(call.Args[len(call.Args)-1])
	rep := fake.Reply{Stdout: strings.Replace(o.stdout, "@", name, -1), Stderr: strings.Replace(o.stderr, "@", name, -1), Exit: o.exit, Signal: o.sig}
	if out := call.Output(); out != "" && out != "/dev/null" && o.exit == 0 && o.sig == 0 {
		if o.bad {
			rep.Files = map[string][]byte{out: []byte("\xff\xff not a descriptor set")}
		} else {
			rep.Files = map[string][]byte{out: descriptorSet(i)}
		}
	}
	return rep
}

func (r *running) finish(t *core.T) bool {
	for {
		select {
		case <-r.done:
			return true
		case call := <-srv.C:
			t.Failf("extra-invocation", "invocation that is not expected: %v", call.Args)
			call.Kill()
		case <-time.After(30 * time.Second):
			t.Failf("hang", "the command does not end")
			for _, c := range r.all {
				c.Kill()
			}
			<-r.done
			return false
		}
	}
}

// abandon lets everything fail.
func (r *running) abandon() {
	for _, c := range r.all {
		c.Kill()
	}
	for {
		select {
		case <-r.done:
			return
		case c := <-srv.C:
			c.Kill()
		}
	}
}

func schedule(w *core.W, t *core.T, c command, allow bool, n int, os []outcome, order []int) {
	drain()
	core.CleanTemp()
	dir := tree(w, c, allow, n)
	before := core.Snapshot(dir)
	r := start(dir, c)
	calls := n * c.perDir
	failing := false
	hard := false
	var want []string
	for i, o := range os {
		lines := append([]string(nil), o.lines...)
		isHard := o.hard || o.bad
		if allow {
			var left []string
			for _, l := range lines {
				if !strings.HasSuffix(l, "was not used.") {
					left = append(left, l)
				}
			}
			lines = left
			if len(lines) == 0 && o.exit != 0 {
				isHard = true
			}
		}
		d := i / c.perDir
		for _, l := range lines {
			want = append(want, strings.Replace(l, "%", fmt.Sprintf("d%d/a.proto", d), 1))
		}
		hard = hard || isHard
		failing = failing || isHard || len(lines) > 0
	}
	if failing {
		w.Nontrivial(fmt.Sprint(c.name, allow, os, order))
	}
	w.Count("schedules", 1)
	phases := c.phases
	if failing {
		phases = 1
	}
	for phase := 0; phase < phases; phase++ {
		got := r.gather(c, calls)
		for {
			progress := false
			for _, i := range order {
				call := r.calls[key(c, i)]
				if call == nil {
					continue
				}
				delete(r.calls, key(c, i))
				call.Reply(os[i].reply(i/c.perDir, call))
				w.Count("transitions", 1)
				progress = true
			}
			if got >= calls {
				break
			}
			select {
			case <-r.done:
			default:
				if more := r.gather(c, 1); more > 0 {
					got += more
					continue
				}
			}
			if !progress || got < calls {
				break
			}
		}
		if got < calls {
			r.finish(t)
			t.Failf("missing-invocation", "only %d of %d invocations were made (exit code %d, %q %q)", got, calls, r.result.Code, r.result.Out, r.result.Err)
			return
		}
	}
	if !r.finish(t) {
		return
	}
	w.State(fmt.Sprint(c.name, n, allow, order, os))
	w.Count("traces_validated_against_impl", 1)
	res := r.result
	after := core.Snapshot(dir)
	if left := core.TempEntries(); len(left) > 0 {
		t.Failf("leftover", "temporary files are left behind: %v", left)
	}
	if failing {
		if res.Code == 0 {
			t.Failf("success-despite-failure", "exit code 0 although an invocation failed: %q", res.Out)
		}
		if !hard {
			sort.Slice(want, func(i, j int) bool { return less(want[i], want[j]) })
			if res.Out != strings.Join(want, "\n")+"\n" {
				t.Failf("messages", "printed %q, want %q", res.Out, want)
			}
		} else if strings.TrimSpace(res.Out+res.Err) == "" {
			t.Failf("no-message", "fails without any message")
		}
		diff := core.DiffSnapshots(before, after)
		if c.name == "generate" || c.name == "generate two plugins" {
			diff = without(diff, "+gen/")
		}
		if len(diff) > 0 {
			t.Failf("acted-on-failure", "compile failed but files changed: %v", diff)
		}
		return
	}
	// all the invocations succeed
	changed := core.DiffSnapshots(before, after)
	switch c.name {
	case "lint failing":
		if res.Code == 0 || len(res.Lines()) != n {
			t.Failf("verdict", "lint should report %d messages without comments, exit code %d: %q", n, res.Code, res.Out)
		}
		return
	}
	if res.Code != 0 {
		t.Failf("failure-despite-success", "exit code %d although every invocation succeeded: %q %q", res.Code, res.Out, res.Err)
		return
	}
	switch c.name {
	case "format -w", "all":
		var all []string
		for i := 0; i < n; i++ {
			all = append(all, fmt.Sprintf("~d%d/a.proto", i))
		}
		if !core.Equal(changed, all) {
			t.Failf("files", "changed %v, want %v", changed, all)
		}
	case "descriptor-set":
		fds := &descriptor.FileDescriptorSet{}
		if err := proto.Unmarshal([]byte(after["out.bin"]), fds); err != nil {
			t.Failf("descriptor-set", "%v", err)
			return
		}
		var names []string
		for _, f := range fds.File {
			names = append(names, f.GetName())
		}
		var all []string
		for i := 0; i < n; i++ {
			all = append(all, fmt.Sprintf("d%d/a.proto", i))
		}
		if !core.Equal(core.Sorted(names), all) {
			t.Failf("descriptor-set", "contains %v, want %v", names, all)
		}
	case "inspect packages":
		var all []string
		for i := 0; i < n; i++ {
			all = append(all, fmt.Sprintf("p%d.v1", i))
		}
		if !core.Equal(res.Lines(), all) {
			t.Failf("packages", "printed %v, want %v", res.Lines(), all)
		}
	default:
		if d := without(changed, "+gen/"); len(d) > 0 {
			t.Failf("files", "changed %v", d)
		}
		if res.Out != "" {
			t.Failf("output", "printed %q", res.Out)
		}
	}
}

// less sorts by file, then line (all lines have one digit).
func less(a, b string) bool {
	fa, fb := a, b
	if strings.HasPrefix(a, "<input>") {
		fa = a[len("<input>"):]
	}
	if strings.HasPrefix(b, "<input>") {
		fb = b[len("<input>"):]
	}
	return fa < fb
}

func without(diff []string, prefix string) []string {
	var out []string
	for _, d := range diff {
		if !strings.HasPrefix(d, prefix) {
			out = append(out, d)
		}
	}
	return out
}

// signalled delivers the signal in the phase when exactly the done invocations have completed.
func signalled(w *core.W, t *core.T, c command, n int, sig syscall.Signal, phase int, done []int, failed, _ bool) {
	drain()
	core.CleanTemp()
	dir := tree(w, c, false, n)
	before := core.Snapshot(dir)
	r := start(dir, c)
	calls := n * c.perDir
	w.Nontrivial(fmt.Sprint(c.name, n, sig, phase, done, failed))
	w.Count("schedules", 1)
	for ph := 1; ph < phase; ph++ {
		if r.gather(c, calls) < calls {
			r.abandon()
			return // sequential implementation
		}
		for i := 0; i < calls; i++ {
			r.calls[key(c, i)].Reply(outcomes[0].reply(i/c.perDir, r.calls[key(c, i)]))
		}
		r.calls = map[string]*fake.Call{}
	}
	if r.gather(c, calls) < calls {
		r.abandon()
		return // sequential implementation
	}
	o := outcomes[0]
	if failed {
		o = outcomes[1]
	}
	for _, i := range done {
		if call := r.calls[key(c, i)]; call != nil {
			call.Reply(o.reply(i/c.perDir, call))
			delete(r.calls, key(c, i))
		}
	}
	core.Internal(syscall.Kill(syscall.Getpid(), sig))
	w.Count("transitions", int64(len(done)+1))
	end := time.After(10 * time.Second)
	for {
		select {
		case call := <-srv.C:
			// started after the signal, it is not affected
			call.Reply(outcomes[0].reply(0, call))
			r.all = append(r.all, call)
			continue
		case <-r.done:
		case <-end:
			t.Failf("signal-ignored", "%v does not end the command, the invocations still run", sig)
			for _, call := range r.calls {
				call.Kill()
			}
			<-r.done
			return
		}
		break
	}
	for k, call := range r.calls {
		if !call.Wait(5 * time.Second) {
			t.Failf("left-running", "protoc for %s still runs after the command ended because of %v", k, sig)
			call.Kill()
		}
	}
	w.State(fmt.Sprint(c.name, n, sig, phase, done, failed))
	w.Count("traces_validated_against_impl", 1)
	if r.result.Code == 0 {
		t.Failf("success-despite-signal", "exit code 0 although protoc was terminated by %v: %q", sig, r.result.Out)
	}
	if left := core.TempEntries(); len(left) > 0 {
		t.Failf("leftover", "temporary files are left behind: %v", left)
	}
	if phase == 1 {
		if diff := without(core.DiffSnapshots(before, core.Snapshot(dir)), "+gen/"); len(diff) > 0 {
			t.Failf("acted-on-failure", "terminated by %v but files changed: %v", sig, diff)
		}
	}
}

// many runs one more directory than there are invocations at once.
func many(w *core.W, t *core.T, c command, sig syscall.Signal, failing int) {
	drain()
	core.CleanTemp()
	n := runtime.NumCPU() + 1
	dir := tree(w, c, false, n)
	before := core.Snapshot(dir)
	r := start(dir, c)
	w.Nontrivial(fmt.Sprint(c.name, sig, failing))
	w.Count("schedules", 1)
	// no more than the first ones can be waiting
	var waiting []*fake.Call
	waiting = append(waiting, srv.Gather(n-1, r.done)...)
	total := 0
	reply := func(call *fake.Call) {
		var i int
		fmt.Sscanf(filepath.Base(call.Dir()), "d%d", &i)
		o := outcomes[0]
		if i == failing {
			o = outcomes[1]
		}
		call.Reply(o.reply(i, call))
	}
	if sig != 0 && len(waiting) > 0 {
		core.Internal(syscall.Kill(syscall.Getpid(), sig))
		for _, call := range waiting {
			if !call.Wait(5 * time.Second) {
				t.Failf("left-running", "protoc still runs after %v", sig)
				call.Kill()
			}
		}
	} else {
		for _, call := range waiting {
			total++
			reply(call)
		}
	}
	end := time.After(20 * time.Second)
	for loop := true; loop; {
		select {
		case call := <-srv.C:
			total++
			reply(call)
		case <-r.done:
			loop = false
		case <-end:
			t.Failf("hang", "the command does not end")
			return
		}
	}
	fails := sig != 0 || failing >= 0
	if (r.result.Code != 0) != fails {
		t.Failf("verdict", "exit code %d, %q %q", r.result.Code, r.result.Out, r.result.Err)
	}
	if sig == 0 {
		want := n
		if !fails {
			want = n * c.phases
		}
		if total != want {
			t.Failf("missing-invocation", "%d invocations, want %d", total, want)
		}
	}
	if fails {
		if diff := without(core.DiffSnapshots(before, core.Snapshot(dir)), "+gen/"); len(diff) > 0 {
			t.Failf("acted-on-failure", "files changed: %v", diff)
		}
	}
	if left := core.TempEntries(); len(left) > 0 {
		t.Failf("leftover", "temporary files are left behind: %v", left)
	}
}
