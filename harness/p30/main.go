//go:build go1.22

// P30: the concurrent parts of a command share nothing without synchronization.
package main

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/fake"
)

func main() {
	core.Main(&core.Check{
		ID:    "P30",
		Level: "model_checking",
		Race:  true,
		Rule: "A case is an execution of a command under a controlled schedule: the outcome of each protoc invocation and the order in which they end (all orders, and all at once), the set of invocations that ended when a signal is delivered, or the operation of the walk at which the timer of --walk-timeout fires. " +
			"The happens-before monitor (the race detector, which also instruments all dependencies) decides each execution for all interleavings that have the same synchronization; non-trivial: at least two goroutines of the command are active.",
		QuickDeadline: 300 * time.Second,
		Assumptions:   []string{"the race detector keeps the last accesses of each word; a race is reported if both accesses happen in an explored execution"},
		Run:           run,
	})
}

type kase struct {
	Kind     string
	Command  []string
	Outcomes []string
	Order    []int
}

type outcome struct {
	name   string
	stderr string
	exit   int
	sig    int
}

var outcomes = []outcome{
	{"ok", "", 0, 0},
	{"error", "@:5:3: \"X\" is not defined.\n@:2:3: \"Y\" is not defined.\n", 1, 0},
	{"silent exit 1", "", 1, 0},
	{"warning", "@:3:1: warning: Import b.proto is unused.\n", 0, 0},
	{"killed", "@:3:1: half", 0, 9},
}

type command struct {
	args   []string
	config string
	calls  int // invocations of each directory in the first phase
}

var commands = []command{
	{[]string{"compile"}, "", 1},
	{[]string{"lint"}, "lint:\n  group: empty\n", 1},
	{[]string{"generate"}, "generate:\n  plugins:\n    - name: x\n      output: gen/x\n    - name: y\n      output: gen/y\n", 2},
	{[]string{"descriptor-set", "-o", "out.bin"}, "", 1},
	{[]string{"all"}, "", 1},
	{[]string{"format", "-w"}, "", 1},
	{[]string{"x", "inspect", "packages"}, "", 1},
	{[]string{"break", "check", "--descriptor-set-path", "old.bin"}, "", 1},
}

var srv *fake.Server

// hook is called before each look at the file system.
var hook atomic.Pointer[func(name string)]

func run(w *core.W) {
	os.VerifHook = func(op, name string) error {
		if h := hook.Load(); h != nil {
			(*h)(name)
		}
		return nil
	}
	srv = fake.Start(w)
	signal.Notify(make(chan os.Signal, 1), syscall.SIGINT, syscall.SIGTERM)
	for _, c := range commands {
		for n := 2; n <= 3; n++ {
			calls := n * c.calls
			k := len(outcomes)
			if calls >= 3 {
				k = w.Pick(3, 4)
			}
			if calls >= 4 {
				k = 2
			}
			if calls > 4 {
				continue
			}
			dims := make([]int, calls)
			for i := range dims {
				dims[i] = k
			}
			core.Product(dims, func(v []int) {
				os := make([]outcome, len(v))
				var names []string
				for i := range v {
					os[i] = outcomes[v[i]]
					names = append(names, os[i].name)
				}
				c, n := c, n
				orders := [][]int{nil}
				core.Permutations(calls, func(p []int) {
					if calls < 4 || w.Thorough() || p[0] < p[1] && p[2] < p[3] {
						orders = append(orders, append([]int(nil), p...))
					}
				})
				for _, order := range orders {
					order := order
					w.Case(kase{"order", c.args, names, order}, func(t *core.T) { schedule(w, t, c, n, os, order) })
				}
			})
		}
		c := c
		for n := 1; n <= 3; n++ {
			n := n
			for _, sig := range []syscall.Signal{syscall.SIGINT, syscall.SIGTERM} {
				sig := sig
				for mask := 0; mask < 1<<uint(n*c.calls); mask++ {
					mask := mask
					for _, o := range []int{0, 1} {
						o := o
						if n*c.calls > 4 || o == 1 && mask == 0 {
							continue
						}
						w.Case(kase{"signal", c.args, []string{outcomes[o].name, sig.String()}, []int{n, mask}}, func(t *core.T) { signalled(w, t, c, n, sig, mask, outcomes[o]) })
					}
				}
			}
		}
		for _, o := range outcomes {
			o := o
			w.Case(kase{"many", c.args, []string{o.name}, nil}, func(t *core.T) {
				n := runtime.NumCPU() + 2
				os := make([]outcome, n*c.calls)
				for i := range os {
					os[i] = o
				}
				schedule(w, t, c, n, os, nil)
			})
		}
	}
	timers(w)
	core.UseSystemProtoc()
	for _, args := range [][]string{{"compile"}, {"lint"}, {"format", "-d"}, {"format", "-l"}, {"format", "-w"}, {"format", "--fix", "-d"}, {"all"}, {"all", "--fix"}, {"generate"}, {"descriptor-set"}, {"x", "inspect", "packages"}, {"lint", "--json"}, {"break", "descriptor-set", "-o", "x.bin"}} {
		for n := 1; n <= 6; n++ {
			args, n := args, n
			w.Case(kase{"real", args, nil, []int{n}}, func(t *core.T) {
				c := command{args, "generate:\n  plugins:\n    - name: java\n      output: gen\n    - name: cpp\n      output: gen\n", 1}
				dir := tree(w, c, n)
				r := core.CLI(dir, args...)
				w.Count("schedules", 1)
				w.State(fmt.Sprint(args, n, r.Code))
				if n > 1 {
					w.Nontrivial(fmt.Sprint(args, n))
				}
			})
		}
	}
}

func tree(w *core.W, c command, n int) string {
	dir := w.Fresh("tree")
	files := map[string]string{"prototool.yaml": c.config + "excludes: []\n", "old.bin": ""}
	for i := 0; i < n; i++ {
		files[fmt.Sprintf("d%02d/a.proto", i)] = fmt.Sprintf("syntax = \"proto3\";\npackage p%d.v1;\nmessage  M {\n}\n", i)
	}
	core.Write(dir, files)
	return dir
}

// id is the name of an invocation.
func id(call *fake.Call) string {
	d := filepath.Base(call.Dir())
	for _, a := range call.Args {
		if strings.HasPrefix(a, "--y_out=") {
			d += "y"
		}
	}
	return d
}

func key(c command, i int) string {
	if c.calls == 2 {
		return fmt.Sprintf("d%02d", i/2) + []string{"", "y"}[i%2]
	}
	return fmt.Sprintf("d%02d", i)
}

func drain() {
	for {
		select {
		case c := <-srv.C:
			c.Kill()
		default:
			return
		}
	}
}

func (o outcome) reply(call *fake.Call) fake.Reply {
	name := filepath.Base(call.Dir()) + "/a.proto"
	rep := fake.Reply{Stderr: strings.Replace(o.stderr, "@", name, -1), Exit: o.exit, Signal: o.sig}
	if out := call.Output(); out != "" && out != "/dev/null" && o.exit == 0 && o.sig == 0 {
		data, err := proto.Marshal(&descriptor.FileDescriptorSet{File: []*descriptor.FileDescriptorProto{{
			Name: proto.String(name), Package: proto.String("p" + filepath.Base(call.Dir())), Syntax: proto.String("proto3"),
			MessageType: []*descriptor.DescriptorProto{{Name: proto.String("M")}},
		}}})
		core.Internal(err)
		rep.Files = map[string][]byte{out: data}
	}
	return rep
}

var expected = map[string]string{}

// schedule lets the invocations end in the order, or all at once (nil).
func schedule(w *core.W, t *core.T, c command, n int, os []outcome, order []int) {
	drain()
	core.CleanTemp()
	dir := tree(w, c, n)
	done := make(chan struct{})
	var result core.Result
	go func() {
		result = core.CLI(dir, c.args...)
		close(done)
	}()
	w.Count("schedules", 1)
	w.Count("transitions", int64(len(os)))
	calls := map[string]*fake.Call{}
	pick := func(call *fake.Call) outcome {
		for i := range os {
			if key(c, i) == id(call) {
				return os[i]
			}
		}
		return outcomes[0]
	}
	if order != nil {
		for _, call := range srv.Gather(len(os), done) {
			calls[id(call)] = call
		}
		for _, i := range order {
			if call := calls[key(c, i)]; call != nil {
				call.Reply(pick(call).reply(call))
			}
		}
	}
	// the other ones, at once
	var wg sync.WaitGroup
	for loop := true; loop; {
		select {
		case call := <-srv.C:
			wg.Add(1)
			go func() {
				defer wg.Done()
				call.Reply(pick(call).reply(call))
			}()
		case <-done:
			loop = false
		case <-time.After(60 * time.Second):
			t.Failf("hang", "the command does not end")
			return
		}
	}
	wg.Wait()
	w.Nontrivial(fmt.Sprint(c.args, os, order))
	w.State(fmt.Sprint(c.args, os, result.Code))
	w.Count("traces_validated_against_impl", 1)
	k := fmt.Sprint(c.args, n, os)
	got := fmt.Sprint(result.Code, "\n", result.Out, result.Err)
	if old, ok := expected[k]; !ok {
		expected[k] = got
	} else if old != got {
		t.Failf("order", "%v with %v: the result depends on the order:\n%s\nand\n%s", c.args, os, old, got)
	}
}

func signalled(w *core.W, t *core.T, c command, n int, sig syscall.Signal, mask int, o outcome) {
	drain()
	core.CleanTemp()
	dir := tree(w, c, n)
	goroutines := runtime.NumGoroutine()
	done := make(chan struct{})
	go func() {
		_ = core.CLI(dir, c.args...)
		close(done)
	}()
	w.Count("schedules", 1)
	got := srv.Gather(n*c.calls, done)
	sort.Slice(got, func(i, j int) bool { return id(got[i]) < id(got[j]) })
	for i, call := range got {
		if mask&(1<<uint(i)) != 0 {
			call.Reply(o.reply(call))
			w.Count("transitions", 1)
		}
	}
	core.Internal(syscall.Kill(syscall.Getpid(), sig))
	w.Count("transitions", 1)
	for loop := true; loop; {
		select {
		case call := <-srv.C:
			got = append(got, call)
			go call.Reply(o.reply(call))
		case <-done:
			loop = false
		case <-time.After(20 * time.Second):
			for _, call := range got {
				call.Kill()
			}
			<-done
			loop = false
		}
	}
	for _, call := range got {
		call.Kill()
		call.Wait(5 * time.Second)
	}
	// what the command left running belongs to this case
	for i := 0; i < 200 && runtime.NumGoroutine() > goroutines; i++ {
		time.Sleep(time.Millisecond)
	}
	w.Nontrivial(fmt.Sprint(c.args, n, sig, mask, o.name))
	w.State(fmt.Sprint(c.args, n, sig, mask, o.name))
}

// timers lets the timer fire at every point of the walk.
func timers(w *core.W) {
	files := map[string]string{
		"prototool.yaml": "excludes:\n  - d\n", "a/1.proto": "", "a/2.proto": "", "a/b/3.proto": "", "a/b/x.txt": "", "c/": "", "d/4.proto": "", "e/f/g/5.proto": "", "h/prototool.yaml": "excludes:\n  - i\n", "h/i/": "", "h/j/": "", "k.proto": "",
	}
	for _, args := range [][]string{{"files"}, {"files", "a"}, {"files", "--config-data", `{"excludes":["a/b"]}`}} {
		args := args
		for i := 0; i < 240; i++ {
			T := time.Duration(i) * 500 * time.Millisecond
			w.Case(kase{"timer", append(args[:len(args):len(args)], "--walk-timeout", T.String()), nil, nil}, func(t *core.T) {
				root := w.Fresh("root")
				core.Write(root, files)
				ops := 0
				var took time.Duration
				var r core.Result
				synctest.VerifRun(func() {
					start := time.Now()
					h := func(name string) {
						if name == root || strings.HasPrefix(name, root+"/") {
							time.Sleep(time.Second)
						}
					}
					hook.Store(&h)
					r = core.CLI(root, append(args[:len(args):len(args)], "--walk-timeout", T.String())...)
					took = time.Since(start)
				})
				hook.Store(nil)
				ops = int(took / time.Second)
				w.Count("schedules", 1)
				w.Count("transitions", int64(ops))
				w.State(fmt.Sprint(args, T, r.Code, ops))
				if r.Code != 0 {
					w.Nontrivial(fmt.Sprint(args, T))
				}
			})
		}
	}
}
