//go:build go1.22

// P27: a failed or slow look at the file system never yields a partial answer.
package main

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/uber/prototool/internal/verifmc/core"
)

func main() {
	core.Main(&core.Check{
		ID:            "P27",
		Level:         "model_checking",
		Rule:          "timeouts: a tree, a command, and the point of the walk at which the timer fires; faults: a command, the operation on the file system that fails, and how; non-trivial: the timer fires during the walk or the fault is reached",
		QuickDeadline: 300 * time.Second,
		Assumptions: []string{
			"time is virtual (testing/synctest): it passes only in the operations on the file system, one second each, and in the calls of the function given to filepath.Walk; the order of the timer and these operations is all that the timeout depends on",
			"faults are injected at os.Stat, os.Lstat, os.OpenFile, (*os.File).Read and Readdir*: calls that bypass package os and the reads of protoc itself are not covered",
		},
		Run: run,
	})
}

type event struct {
	Op   string
	Path string
	At   int // seconds since the start of the command
}

// operation is the nth operation of this kind on this path.
type operation struct {
	Op, Path string
	Nth      int
}

type outcome struct {
	core.Result
	Events []event
	Took   time.Duration
	Hit    bool
}

// execute runs a command with virtual time.
// If fail is not nil, this operation fails with errno.
func execute(root, dir string, fail *operation, errno error, args ...string) outcome {
	var o outcome
	var lock sync.Mutex
	tmp := os.TempDir()
	count := map[operation]int{}
	synctest.VerifRun(func() {
		start := time.Now()
		over := false
		os.VerifHook = func(op, name string) error {
			if strings.HasPrefix(name, "|") {
				return nil // a pipe
			}
			if !filepath.IsAbs(name) {
				name = filepath.Join(dir, name)
			}
			if name != root && !strings.HasPrefix(name, root+"/") && !strings.HasPrefix(name, tmp+"/") {
				return nil
			}
			lock.Lock()
			if over {
				lock.Unlock()
				return nil
			}
			rel, _ := filepath.Rel(root, name)
			if strings.HasPrefix(name, tmp+"/") {
				rel = "TMP"
			}
			rel = random.ReplaceAllString(rel, "N")
			o.Events = append(o.Events, event{op, rel, int(time.Since(start) / time.Second)})
			hit := false
			if op != "call" && op != "return" {
				at := operation{Op: op, Path: rel}
				count[at]++
				at.Nth = count[at]
				hit = fail != nil && at == *fail
			}
			o.Hit = o.Hit || hit
			lock.Unlock()
			time.Sleep(time.Second)
			if hit {
				return errno
			}
			return nil
		}
		r := core.CLI(dir, args...)
		// the diffs have the times at which they were made
		r.Out = stamp.ReplaceAllString(r.Out, "TIME")
		lock.Lock()
		over = true
		o.Result = r
		o.Took = time.Since(start)
		lock.Unlock()
	})
	os.VerifHook = nil
	return o
}

// tree is a way to fill a directory.
type tree struct {
	Name  string
	Files map[string]string
}

const proto = "syntax = \"proto3\";\n\npackage %s;\n"

// shapes returns all trees of up to n entries below the root, of the given kinds, nested up to the depth.
func shapes(n int, depth int) [][]string {
	// a tree is written as its sequence of entries: "f" proto file, "o" other file, "d(" directory ")",
	// "c" a configuration that excludes the next proto file
	var out [][]string
	var rec func(left, depth, open int, s []string)
	rec = func(left, d, open int, s []string) {
		if open == 0 {
			out = append(out, append([]string(nil), s...))
		} else {
			rec(left, d+1, open-1, append(s[:len(s):len(s)], ")"))
		}
		if left == 0 {
			return
		}
		for _, k := range []string{"f", "o", "x"} {
			rec(left-1, d, open, append(s[:len(s):len(s)], k))
		}
		if d > 0 {
			rec(left-1, d-1, open+1, append(s[:len(s):len(s)], "("))
			rec(left-1, d-1, open+1, append(s[:len(s):len(s)], "["))
		}
	}
	rec(n, depth, 0, nil)
	return out
}

// makeShape makes the files of a shape: "[" is a directory that is excluded, "x" a file that is excluded.
func makeShape(s []string) map[string]string {
	files := map[string]string{}
	var excludes []string
	var stack []string
	n := 0
	for _, e := range s {
		n++
		path := func(name string) string {
			return strings.Join(append(stack[:len(stack):len(stack)], fmt.Sprintf("n%02d%s", n, name)), "/")
		}
		switch e {
		case "f":
			files[path(".proto")] = fmt.Sprintf(proto, fmt.Sprintf("p%d", n))
		case "x":
			files[path(".proto")] = "not a proto file"
			excludes = append(excludes, path(".proto"))
		case "o":
			files[path(".txt")] = ""
		case "(", "[":
			stack = append(stack, fmt.Sprintf("n%02d", n))
			files[strings.Join(stack, "/")+"/"] = ""
			if e == "[" {
				excludes = append(excludes, strings.Join(stack, "/"))
			}
		case ")":
			stack = stack[:len(stack)-1]
		}
	}
	config := "excludes: []\n"
	if len(excludes) > 0 {
		config = "excludes:\n"
		for _, e := range excludes {
			config += "  - " + e + "\n"
		}
	}
	files["prototool.yaml"] = config
	return files
}

type kase struct {
	Kind    string
	Tree    string
	Args    []string
	Timeout string `json:",omitempty"`
	Op      int
	Errno   string `json:",omitempty"`
}

// phase has the times of the walk.
type phase struct {
	first, last int // first and last look at a directory or its entries
	gap         int // the longest time between two of these
	end         int
}

func phaseOf(o outcome, dirs map[string]bool) phase {
	p := phase{first: -1, end: int(o.Took / time.Second)}
	for _, e := range o.Events {
		if e.Op == "readdir" || e.Op == "open" && dirs[e.Path] {
			if p.first < 0 {
				p.first = e.At
				p.last = e.At
			}
			if e.At-p.last > p.gap {
				p.gap = e.At - p.last
			}
			p.last = e.At
		}
	}
	return p
}

func dirsOf(root string) map[string]bool {
	out := map[string]bool{".": true}
	for name := range core.Snapshot(root) {
		if strings.HasSuffix(name, "/") {
			out[strings.TrimSuffix(name, "/")] = true
		}
	}
	return out
}

func run(w *core.W) {
	core.UseSystemProtoc()
	// what the runtime and the packages create once must not belong to a bubble
	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGUSR2)
	root := w.Fresh("root")
	core.Write(root, fullTree())
	for _, args := range [][]string{{"lint", "."}, {"all", "."}, {"generate", "."}, {"descriptor-set", "."}} {
		core.CLI(root, append(args, "--walk-timeout", "0")...)
	}
	timeouts(w)
	faults(w)
}

func timeouts(w *core.W) {
	type cmd struct {
		args []string
		sub  string
	}
	all := shapes(w.Pick(4, 5), 2)
	all = append(all, strings.Split("f ( f o ( ) ) f f o o ( f f f o [ f f ) ) ( ( ) ( f ) ) x f", " "))
	all = append(all, strings.Split("( ( f ) ) ( ( f ) ) ( ( f ) ) ( ( f ) ) ( ( ( ( ) ) ) )", " "))
	for _, s := range all {
		name := strings.Join(s, "")
		for _, c := range []cmd{
			{args: []string{"files", "."}},
			{args: []string{"files", ".", "--config-data", `{"excludes":["n02"]}`}},
		} {
			if c.args[len(c.args)-1] != "." && len(s) < 3 && !w.Thorough() {
				continue
			}
			timeoutCases(w, name, makeShape(s), c.args)
		}
	}
	// the other commands walk in the same way
	for _, c := range commands() {
		timeoutCases(w, "full", fullTree(), c)
	}
}

// timeoutCases is one case: all points of the timer for a command.
func timeoutCases(w *core.W, name string, files map[string]string, args []string) {
	k := kase{Kind: "timeout", Tree: name, Args: args}
	w.Case(k, func(t *core.T) {
		fresh := func() string {
			root := w.Fresh("root")
			core.Write(root, files)
			return root
		}
		root := fresh()
		before := core.Snapshot(root)
		base := execute(root, root, nil, nil, append(args[:len(args):len(args)], "--walk-timeout", "0")...)
		after := core.Snapshot(root)
		changes := len(core.DiffSnapshots(before, after)) > 0
		p := phaseOf(base, dirsOf(root))
		if p.first < 0 {
			t.Failf("no-walk", "%v: no directory was read: %+v", args, base)
			return
		}
		w.Count("commands", 1)
		check := func(label string, T time.Duration, args []string) (timedOut bool) {
			if changes {
				root = fresh()
			}
			o := execute(root, root, nil, nil, args...)
			w.Count("transitions", int64(len(o.Events)))
			w.Count("schedules", 1)
			now := core.Snapshot(root)
			same := o.Out == base.Out && o.Err == base.Err && o.Code == base.Code && len(core.DiffSnapshots(now, after)) == 0
			// the timer starts at the earliest at the start of the walk, at the latest at the first directory
			fire := time.Duration(p.first)*time.Second + T
			text := o.Out + o.Err
			if strings.Contains(text, "timed out after "+T.String()) && o.Code != 0 {
				timedOut = true
			} else if !same {
				t.Failf("partial", "%v with the timer at %s (walk %d to %d of %d): neither the answer without timeout nor the timeout:\n%s\nwithout:\n%s", args, label, p.first, p.last, p.end, show(o.Result), show(base.Result))
				return false
			}
			if timedOut {
				w.Nontrivial(fmt.Sprint(name, args, label))
				w.State(fmt.Sprint(name, args, len(o.Events)))
				if lines := strings.Split(strings.TrimSpace(text), "\n"); len(lines) != 1 {
					t.Failf("more-than-the-timeout", "%v with the timer at %s prints more than the timeout:\n%s", args, label, text)
				}
				if d := core.DiffSnapshots(now, before); len(d) > 0 {
					t.Failf("acts-after-timeout", "%v with the timer at %s fails because of the timeout but changed %v", args, label, d)
				}
				if T > time.Duration(p.end)*time.Second {
					t.Failf("too-early", "%v: timed out after %s although the whole command takes %ds", args, label, p.end)
				}
				if limit := fire + time.Duration(2*p.gap+12)*time.Second; o.Took > limit {
					t.Failf("goes-on", "%v: the timer fires at %v at the latest, the command ends at %v (no two looks at directories are further apart than %ds)", args, fire, o.Took, p.gap)
				}
			} else if T > 0 && fire < time.Duration(p.last-2)*time.Second {
				t.Failf("ignored", "%v: the timeout of %s passes at %v, but directories are read until %ds and the command does not time out", args, label, fire, p.last)
			}
			return timedOut
		}
		was := true
		for i := 0; i <= p.end-p.first+4; i++ {
			for _, half := range []time.Duration{0, 500 * time.Millisecond} {
				T := time.Duration(i)*time.Second + half
				if T == 0 {
					continue
				}
				timedOut := check(T.String(), T, append(args[:len(args):len(args)], "--walk-timeout", T.String()))
				if timedOut && !was {
					t.Failf("not-monotone", "%v: times out after %v but not after less", args, T)
				}
				was = timedOut
			}
		}
		for _, zero := range []string{"0s", "0h"} {
			check(zero, 0, append(args[:len(args):len(args)], "--walk-timeout", zero))
		}
		if check("default", 3*time.Second, args) == (p.end < 3) {
			t.Failf("default", "%v: the default of 3s is not applied", args)
		}
		check("10000h", 10000*time.Hour, append(args[:len(args):len(args)], "--walk-timeout", "10000h"))
	})
}

func show(r core.Result) string {
	return fmt.Sprintf("  code %d\n  stdout %q\n  stderr %q", r.Code, r.Out, r.Err)
}

func fullTree() map[string]string {
	return map[string]string{
		"prototool.yaml": `excludes:
  - skip
protoc:
  includes:
    - third
lint:
  group: uber2
  ignores:
    - id: COMMENTS_NO_C_STYLE
      files:
        - a/v1/two.proto
  file_header:
    path: header.txt
generate:
  go_options:
    import_path: example.com/x
  plugins:
    - name: java
      output: gen/java
`,
		"header.txt":         "A header.\n",
		"a/v1/one.proto":     "// A header.\n\nsyntax = \"proto3\";\n\npackage a.v1;\n\nimport \"a/v1/two.proto\";\n\nmessage One {\n  Two two = 1;\n}\n",
		"a/v1/two.proto":     "// A header.\n\nsyntax = \"proto3\";\n\npackage a.v1;\n\n/* c style */\nmessage Two {\n    int64 id = 1;\n}\n",
		"b/v1/three.proto":   "// A header.\n\nsyntax = \"proto3\";\n\npackage b.v1;\n\nimport \"a/v1/one.proto\";\nimport \"dep.proto\";\n\nmessage Three {\n  a.v1.One one = 1;\n  dep.Dep dep = 2;\n}\n",
		"skip/broken.proto":  "this is not proto\n",
		"third/dep.proto":    "syntax = \"proto3\";\n\npackage dep;\n\nmessage Dep {}\n",
		"b/notes.txt":        "x",
		"z/z/z/":             "",
		"third/skipped/z.md": "",
	}
}

func commands() [][]string {
	return [][]string{
		{"files", "."},
		{"files", "b"},
		{"files", "a/v1/two.proto"},
		{"compile", "."},
		{"compile", "b/v1/three.proto"},
		{"lint", "."},
		{"lint", "a/v1/two.proto"},
		{"lint", ".", "--json"},
		{"format", "."},
		{"format", ".", "-l"},
		{"format", ".", "-d"},
		{"format", ".", "-w"},
		{"format", ".", "-w", "--fix"},
		{"all", "."},
		{"generate", "."},
		{"descriptor-set", ".", "--include-imports"},
		{"x", "inspect", "packages", "."},
		{"x", "inspect", "package-deps", ".", "--name", "b.v1"},
		{"break", "descriptor-set", ".", "-o", "state.bin"},
	}
}

func faults(w *core.W) {
	cmds := commands()
	cmds = append(cmds,
		[]string{"break", "check", ".", "--descriptor-set-path", "saved.bin"},
		[]string{"create", "a/v1/new.proto"},
		[]string{"create", "a/v1/one.proto"},
		[]string{"config", "init"},
		[]string{"config", "init", "z"},
		[]string{"lint", ".", "--generate-ignores"},
		[]string{"grpc", ".", "--address", "0.0.0.0:1", "--method", "none.None/None", "--data", "{}"},
	)
	for _, args := range cmds {
		args := args
		// the operations are known only after the command ran: one case per residue of the number of the operation
		const parts = 8
		for part := 0; part < parts; part++ {
			part := part
			w.Case(kase{Kind: "fault", Tree: "full", Args: args, Op: part}, func(t *core.T) {
				fresh := func() string {
					root := w.Fresh("root")
					core.Write(root, fullTree())
					if args[0] == "break" && args[1] == "check" {
						saved(w, root)
					}
					return root
				}
				root := fresh()
				before := core.Snapshot(root)
				base := execute(root, root, nil, nil, args...)
				after := core.Snapshot(root)
				args := args
				if strings.Contains(base.Err+base.Out, "timed out") {
					args = append(args[:len(args):len(args)], "--walk-timeout", "0")
					root = fresh()
					base = execute(root, root, nil, nil, args...)
					after = core.Snapshot(root)
				}
				changes := len(core.DiffSnapshots(before, after)) > 0
				var ops []operation
				count := map[operation]int{}
				for _, e := range base.Events {
					if e.Op != "call" && e.Op != "return" {
						op := operation{Op: e.Op, Path: e.Path}
						count[op]++
						op.Nth = count[op]
						ops = append(ops, op)
					}
				}
				// the order may depend on the iteration over maps
				sort.Slice(ops, func(i, j int) bool {
					a, b := ops[i], ops[j]
					if a.Path != b.Path {
						return a.Path < b.Path
					}
					if a.Op != b.Op {
						return a.Op < b.Op
					}
					return a.Nth < b.Nth
				})
				for i, op := range ops {
					if i%parts != part {
						continue
					}
					for _, errno := range []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.ENOENT, syscall.ELOOP} {
						if errno == syscall.ENOENT && op.Op == "stat" || errno == syscall.ELOOP && op.Op != "stat" {
							continue // that is a different tree; that happens to paths only
						}
						if changes {
							root = fresh()
						}
						o := execute(root, root, &op, errno, args...)
						w.Count("faults", 1)
						w.Count("transitions", int64(len(o.Events)))
						now := core.Snapshot(root)
						what := fmt.Sprintf("%v, %s number %d of %s fails with %v", args, op.Op, op.Nth, op.Path, errno)
						if !o.Hit {
							// a command that stops at its first error does not always stop at the same one
							w.Count("not_reached", 1)
							continue
						}
						w.Nontrivial(what)
						w.State(fmt.Sprint(args, op.Op, op.Path, errno, o.Code, o.Out, o.Err))
						diff := core.DiffSnapshots(now, after)
						same := o.Out == base.Out && o.Err == base.Err && o.Code == base.Code && len(diff) == 0
						if same {
							w.Count("faults_without_effect", 1)
							continue
						}
						if o.Code == 0 {
							t.Failf("success", "%s: success, but not with the same result:\n%s\nwithout the fault:\n%s\nfiles %v", what, show(o.Result), show(base.Result), diff)
							continue
						}
						// lint and format -l also fail with findings: they are not allowed to be other findings
						if base.Code == 255 && o.Code == 255 && !mentions(o.Result, errno) {
							t.Failf("other-findings", "%s: neither the same result nor the error:\n%s\nwithout the fault:\n%s", what, show(o.Result), show(base.Result))
						}
						for name, content := range before {
							if now[name] != content && now[name] != after[name] {
								t.Failf("damage", "%s: %s is neither as before nor as without the fault: %q", what, name, now[name])
							}
						}
						if left := core.TempEntries(); len(left) > 0 {
							sort.Strings(left)
							t.Failf("left", "%s: left in the temporary directory: %v", what, left)
							core.CleanTemp()
						}
					}
				}
			})
		}
	}
}

// the names of temporary files
var random = regexp.MustCompile(`\d{6,}`)

var stamp = regexp.MustCompile(`\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d+ [+-]\d{4}`)

func mentions(r core.Result, errno syscall.Errno) bool {
	return strings.Contains(r.Out+r.Err, errno.Error())
}

var savedBin string

func saved(w *core.W, root string) {
	if savedBin == "" {
		r := core.CLI(root, "break", "descriptor-set", ".", "-o", "saved.bin", "--walk-timeout", "0")
		if r.Code != 0 {
			core.Internal(fmt.Errorf("%+v", r))
		}
		data, err := os.ReadFile(filepath.Join(root, "saved.bin"))
		core.Internal(err)
		savedBin = string(data)
	}
	core.Write(root, map[string]string{"saved.bin": savedBin})
}
