//go:build go1.22 && linux && amd64

// P26: files are not lost when a command is killed or a write fails, and no failed write is taken for a success.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/uber/prototool/internal/cmd"
	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/tracer"
)

func main() {
	if os.Getenv("VERIF_CHILD") != "" {
		os.Exit(cmd.Do(os.Args[1:], os.Stdin, os.Stdout, os.Stderr))
	}
	core.UseSystemProtoc()
	core.Main(&core.Check{
		ID:    "P26",
		Level: "fault_enumeration",
		Rule: "A case is a tree, a command, and what happens at one of its system calls that change a file (standard output is a file too): for each such call in turn, the process is killed before it, killed after half of a write, the call fails (no space, input/output error, not permitted; once or from then on), or it writes only half. " +
			"The process is real and is stopped with ptrace at every such call. Then the files are compared with those before and with those of an undisturbed run, and the command is repeated undisturbed. Non-trivial: something happened at a point that was reached.",
		Assumptions: []string{"the process dies, not the machine: what the kernel was told stays", "system calls of protoc, git and diff do not fail"},
		Run:         run,
		CaseTimeout: 5 * time.Minute,
	})
}

type tree struct {
	name  string
	files map[string]string
	// setup is a script that is run in the tree
	setup    string
	commands []command
}

type command struct {
	args string
	// makes are the files that the command makes or replaces, which may be incomplete if it fails
	makes []string
	// once is set if the command cannot be repeated, as it refuses to overwrite
	once bool
}

const (
	formatted = "syntax = \"proto3\";\n\npackage x;\n\nmessage A {\n  string a = 1;\n}\n"
	messy     = "syntax = \"proto3\";\n package y;\nmessage B { string b=1;\n   int64 c = 2; }\n"
	header    = "// old\n// header\n\nsyntax = \"proto3\";\npackage z.v1;\noption go_package=\"other\";\noption java_package = \"foo\";\nmessage C { }\n"
)

func trees() []tree {
	long := "syntax = \"proto3\";\npackage w;\nmessage D {\n"
	for i := 1; i < 400; i++ {
		long += fmt.Sprintf("string a%d=%d;\n", i, i)
	}
	long += "}\n"
	config := "create:\n  packages:\n    - directory: a\n      name: a.v1\nlint:\n  group: empty\ngenerate:\n  go_options:\n    import_path: example.com\n  plugins:\n    - name: python\n      output: gen/python\n    - name: php\n      output: gen/php\n"
	one := map[string]string{"prototool.yaml": config, "a/x.proto": formatted, "a/y.proto": strings.Replace(messy, "y;", "x;", 1), "b/v1/z.proto": header, "b/c/long.proto": long, "readme.txt": "text\n", "out.bin": "old", "d/": ""}
	failing := map[string]string{"prototool.yaml": "lint:\n  group: google\n", "a/x.proto": "syntax = \"proto3\";\npackage x;\nmessage a {}\nmessage b {}\n", "a/y.proto": "syntax = \"proto3\";\npackage y;\nmessage c {}\n"}
	broken := map[string]string{"a/x.proto": "syntax = \"proto3\";\npackage x;\nmessage a { Foo a = 1; }\n", "b/y.proto": "syntax = \"proto3\";\npackage y;\nmessage c { Bar a = 1; }\n"}
	breaking := map[string]string{"b/y.proto": "syntax = \"proto3\";\npackage y;\n", "prototool.yaml": "lint:\n  group: empty\n", "a/x.proto": "syntax = \"proto3\";\npackage x;\nmessage A {}\n"}
	return []tree{
		{name: "formatted and not", files: one, commands: []command{
			{args: "format -w"}, {args: "format --fix -w"}, {args: "format -w a/y.proto"}, {args: "format -w b"}, {args: "all", makes: []string{"gen/"}}, {args: "all --fix --disable-lint", makes: []string{"gen/"}},
			{args: "format"}, {args: "format -d"}, {args: "format -l"}, {args: "files"}, {args: "compile"}, {args: "compile --dry-run"}, {args: "lint"}, {args: "lint --list-linters"}, {args: "lint --generate-ignores"}, {args: "lint --list-all-lint-groups"}, {args: "lint --list-lint-group uber2"}, {args: "lint --diff-lint-groups google,uber2"},
			{args: "generate --dry-run"}, {args: "generate", makes: []string{"gen/"}},
			{args: "descriptor-set"}, {args: "descriptor-set --json --include-imports"}, {args: "descriptor-set -o out.bin", makes: []string{"out.bin"}}, {args: "descriptor-set --json -o new.json", makes: []string{"new.json"}}, {args: "break descriptor-set -o out.bin", makes: []string{"out.bin"}},
			{args: "x inspect packages"}, {args: "x inspect package-deps --name x"}, {args: "version"}, {args: "version --json"},
			{args: "create a/new.proto d/new.proto b/v1/new.proto", makes: []string{"a/new.proto", "d/new.proto", "b/v1/new.proto"}, once: true},
			{args: "config init d", makes: []string{"d/prototool.yaml"}, once: true}, {args: "config init --uncomment e/f", makes: []string{"e/"}, once: true},
		}},
		{name: "clean", files: map[string]string{"a/x.proto": formatted, "a/y.proto": strings.Replace(formatted, "A", "B", 1), "prototool.yaml": "lint:\n  group: empty\n"}, commands: []command{
			{args: "format"}, {args: "format a/x.proto"}, {args: "format -d"}, {args: "format --fix a"}, {args: "all"}, {args: "all a/y.proto"}, {args: "lint --json"}, {args: "compile a/x.proto"}, {args: "files a"}, {args: "descriptor-set --include-imports --include-source-info a/x.proto"}, {args: "descriptor-set --json"},
		}},
		{name: "failing", files: failing, commands: []command{{args: "lint"}, {args: "lint --json"}, {args: "lint --generate-ignores"}, {args: "all"}, {args: "format -l"}, {args: "all --fix"}}},
		{name: "broken", files: broken, commands: []command{{args: "compile"}, {args: "lint"}, {args: "format -w"}, {args: "all"}, {args: "descriptor-set -o out.bin"}, {args: "generate"}}},
		{name: "git", files: breaking, setup: "git init -q . && git checkout -q -b old && git add -A && git -c user.name=x -c user.email=x@x commit -q -m x && protoc -I . -o old.bin a/x.proto && sed -i s/A/B/ a/x.proto", commands: []command{{args: "break check --git-branch old"}, {args: "break check --json"}, {args: "break check -f old.bin"}, {args: "break check --git-branch old b"}}},
	}
}

type kase struct {
	Tree    string
	Command string
	What    string
}

// whats are the things that happen.
var whats = []string{"kill", "kill in write", "ENOSPC", "EIO", "EACCES", "ENOSPC from then on", "EIO from then on", "short", "EINTR"}

var errnos = map[string]syscall.Errno{"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO, "EACCES": syscall.EACCES, "EINTR": syscall.EINTR}

func run(w *core.W) {
	for _, tr := range trees() {
		for _, c := range tr.commands {
			for _, what := range whats {
				if !w.Thorough() && !c.writes() && what != "EIO" && what != "ENOSPC from then on" && what != "short" {
					continue
				}
				tr, c, what := tr, c, what
				w.Case(kase{tr.name, c.args, what}, func(t *core.T) { explore(w, t, tr, c, what) })
			}
		}
	}
	for _, args := range []string{"format -w", "format --fix -w", "all --disable-lint", "format -w FILE"} {
		for _, kind := range []string{"mode 0600", "mode 0755", "mode 0444", "link", "link to link", "link out of the tree", "two names"} {
			args, kind := args, kind
			w.Case(kase{"kinds of files", args, kind}, func(t *core.T) { kinds(w, t, args, kind) })
		}
	}
}

// state is everything that can be seen.
type state struct {
	files map[string]string
	modes map[string]os.FileMode
	temp  []string
	out   string
	code  int
	done  bool
}

type env struct {
	root string
}

func prepare(w *core.W, tr tree) *env {
	e := &env{root: w.Fresh("t")}
	core.Write(e.root+"/w", tr.files)
	core.Write(e.root, map[string]string{"tmp/": "", "home/": ""})
	if tr.setup != "" {
		// made once and copied
		ref := w.Scratch + "/ref-" + tr.name
		if _, err := os.Stat(ref); err != nil {
			core.Write(ref, tr.files)
			sh(ref, tr.setup)
		}
		sh(e.root, "rm -rf w && cp -a '"+ref+"' w")
	}
	return e
}

func sh(dir, script string) {
	c := exec.Command("/bin/sh", "-c", script)
	c.Dir = dir
	if out, err := c.CombinedOutput(); err != nil {
		core.Internal(fmt.Errorf("%s: %v: %s", script, err, out))
	}
}

// execute runs the command as a process under control.
func (e *env) execute(w *core.W, args string, point func(c *tracer.Call) tracer.Action) (*state, []string) {
	self, err := os.Executable()
	core.Internal(err)
	out := e.root + "/out"
	_ = os.Remove(out)
	tr := &tracer.Tracer{Prefix: e.root, Point: point}
	core.Internal(tr.Run([]tracer.Spec{{
		Path: self, Args: strings.Split(args, " "), Dir: e.root + "/w", Out: out,
		Env: []string{"VERIF_CHILD=1", "HOME=" + e.root + "/home", "PATH=/usr/bin:/bin", "TMPDIR=" + e.root + "/tmp", "GOMAXPROCS=1", "GOGC=off", "PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc", "PROTOTOOL_PROTOC_WKT_PATH=/usr/include"},
	}}))
	x := tr.Exits[0]
	w.Count("runs", 1)
	w.Count("points", int64(len(x.Points)))
	s := &state{files: core.Snapshot(e.root + "/w"), modes: map[string]os.FileMode{}, code: x.Code, done: !x.Killed}
	for f := range s.files {
		if strings.HasPrefix(f, ".git/") {
			delete(s.files, f)
		} else if info, err := os.Lstat(e.root + "/w/" + f); err == nil {
			s.modes[f] = info.Mode()
		}
	}
	for f := range core.Snapshot(e.root + "/tmp") {
		s.temp = append(s.temp, f)
	}
	sort.Strings(s.temp)
	b, _ := os.ReadFile(out)
	s.out = strings.Replace(string(b), e.root, "ROOT", -1)
	if strings.Contains(args, "-d") {
		s.out = times(s.out)
	}
	return s, x.Points
}

// times removes the times in headers of diffs.
func times(s string) string {
	lines := strings.SplitAfter(s, "\n")
	for i, l := range lines {
		if j := strings.Index(l, "\t"); j >= 0 && (strings.HasPrefix(l, "--- ") || strings.HasPrefix(l, "+++ ")) {
			lines[i] = l[:j] + "\n"
		}
	}
	return strings.Join(lines, "")
}

// writes says whether the command changes anything but temporary files.
func (c command) writes() bool {
	return len(c.makes) > 0 || strings.Contains(c.args, "-w") || strings.HasPrefix(c.args, "all") || strings.HasPrefix(c.args, "break check") || strings.Contains(c.args, " -d")
}

func (c command) mayMake(f string) bool {
	for _, m := range c.makes {
		if f == m || strings.HasSuffix(m, "/") && strings.HasPrefix(f, m) || strings.HasPrefix(m, f) && strings.HasSuffix(f, "/") {
			return true
		}
	}
	return false
}

func explore(w *core.W, t *core.T, tr tree, c command, what string) {
	e := prepare(w, tr)
	before := core.Snapshot(e.root + "/w")
	base, _ := e.execute(w, c.args, func(*tracer.Call) tracer.Action { return tracer.Go })
	if !base.done {
		core.Internal(fmt.Errorf("%s did not end", c.args))
	}
	if len(base.temp) != 0 {
		t.Failf("left", "%s leaves %v", c.args, base.temp)
	}
	again := base
	if !c.once {
		again, _ = e.execute(w, c.args, func(*tracer.Call) tracer.Action { return tracer.Go })
	}
	for point := 0; ; point++ {
		e := prepare(w, tr)
		var hit string
		var cleanup, printing bool
		written := false
		killed := false
		got, points := e.execute(w, c.args, func(call *tracer.Call) tracer.Action {
			from := strings.HasSuffix(what, " from then on")
			if call.Index != point && !(from && call.Index > point && (call.Name == "open" || call.Name == "write" || call.Name == "mkdir")) {
				if written && call.Index > point {
					written, killed = false, true
					return tracer.Kill
				}
				return tracer.Go
			}
			if call.Index == point {
				hit = strings.Replace(call.String(), e.root, "ROOT", -1)
				cleanup = call.Name == "unlink" || call.Name == "rmdir"
				printing = call.Path == e.root+"/out"
			}
			switch what {
			case "kill":
				killed = true
				return tracer.Kill
			case "kill in write":
				if call.Name != "write" || call.Size < 2 {
					hit = ""
					return tracer.Go
				}
				written = true
				return tracer.Short
			case "short":
				if call.Name != "write" || call.Size < 2 {
					hit = ""
					return tracer.Go
				}
				return tracer.Short
			}
			call.Errno = errnos[strings.TrimSuffix(what, " from then on")]
			return tracer.Fail
		})
		if hit == "" {
			if len(points) <= point {
				break
			}
			continue
		}
		w.Nontrivial(fmt.Sprint(tr.name, c.args, what, point))
		w.State(fmt.Sprint(tr.name, c.args, got.files, got.temp, got.code))
		at := fmt.Sprintf("%s, %s at %s", c.args, what, hit)
		// whatever happens
		for f, old := range before {
			if strings.HasPrefix(f, ".git/") || c.mayMake(f) {
				continue
			}
			now, ok := got.files[f]
			if !ok {
				t.Failf("lost", "%s: %s is gone", at, f)
			} else if now != old && now != base.files[f] {
				t.Failf("lost", "%s: %s has %d bytes, neither the old nor the new content", at, f, len(now))
			} else if got.modes[f] != base.modes[f] {
				t.Failf("mode", "%s: %s has the mode %v instead of %v", at, f, got.modes[f], base.modes[f])
			}
		}
		var extra []string
		for f := range got.files {
			if _, ok := before[f]; !ok && !c.mayMake(f) {
				extra = append(extra, f)
				if strings.HasSuffix(f, ".proto") || path.Base(f) == "prototool.yaml" || path.Base(f) == "prototool.json" {
					t.Failf("extra", "%s: %s was made, which the next command reads", at, f)
				}
			}
		}
		switch {
		case killed && !got.done:
			if len(extra) > 1 {
				t.Failf("extra", "%s: %v remain", at, extra)
			}
		case what == "short" || what == "EINTR":
			if d := differ(base, got); d != "" {
				t.Failf("retry", "%s: %s", at, d)
			}
		default:
			if (len(extra) > 0 || len(got.temp) > 0) && !cleanup {
				t.Failf("left", "%s: %v %v remain", at, extra, got.temp)
			}
			if got.code == 0 {
				if d := differ(base, got); d != "" && !cleanup {
					t.Failf("success", "%s: exit code 0, but %s", at, d)
				}
			} else if got.out == "" && !printing && !strings.HasSuffix(what, "from then on") {
				t.Failf("silent", "%s: exit code %d without a message", at, got.code)
			}
		}
		// and then the command is repeated
		if !c.once {
			next, _ := e.execute(w, c.args, func(*tracer.Call) tracer.Action { return tracer.Go })
			want := base
			if next.out != want.out || next.code != want.code {
				want = again
			}
			for _, f := range extra {
				if _, ok := want.files[f]; !ok {
					delete(next.files, f)
				}
			}
			if d := differ(want, next); d != "" {
				t.Failf("again", "%s, and then again: %s", at, d)
			}
		}
		if t.Failed() {
			return
		}
	}
}

// differ says what differs.
func differ(want, got *state) string {
	if got.code != want.code {
		return fmt.Sprintf("exit code %d instead of %d: %.300s", got.code, want.code, got.out)
	}
	if got.out != want.out {
		return fmt.Sprintf("output %.300q instead of %.300q", got.out, want.out)
	}
	if d := core.DiffSnapshots(want.files, got.files); len(d) != 0 {
		return fmt.Sprintf("files differ: %v", d)
	}
	return ""
}

// kinds formats files of various kinds in place.
func kinds(w *core.W, t *core.T, args, kind string) {
	root := w.Fresh("k")
	core.Write(root, map[string]string{"w/prototool.yaml": "lint:\n  group: empty\n", "w/d/x.proto": messy, "other/y.proto": messy})
	file := root + "/w/d/x.proto"
	target := file
	switch {
	case strings.HasPrefix(kind, "mode "):
		var m os.FileMode
		fmt.Sscanf(kind, "mode %o", &m)
		core.Internal(os.Chmod(file, m))
	case kind == "link":
		target = root + "/w/d/x.txt"
		core.Internal(os.Rename(file, target))
		core.Internal(os.Symlink("x.txt", file))
	case kind == "link to link":
		target = root + "/w/x.txt"
		core.Internal(os.Rename(file, target))
		core.Internal(os.Symlink("../x.txt", root+"/w/d/z.txt"))
		core.Internal(os.Symlink(root+"/w/d/z.txt", file))
	case kind == "link out of the tree":
		target = root + "/other/y.proto"
		core.Internal(os.Remove(file))
		core.Internal(os.Symlink("../../other/y.proto", file))
	case kind == "two names":
		core.Internal(os.Link(file, root+"/w/d/x.txt"))
	}
	before := links(root)
	r := core.CLI(root+"/w", strings.Split(strings.Replace(args, "FILE", "d/x.proto", 1), " ")...)
	if r.Code != 0 || r.Out != "" {
		t.Failf("kind", "%s of a file with %s: exit code %d: %s", args, kind, r.Code, r.Out)
		return
	}
	w.Nontrivial(args + kind)
	b, err := os.ReadFile(file)
	core.Internal(err)
	if !strings.Contains(string(b), "message B {\n  string b = 1;\n  int64 c = 2;\n}\n") {
		t.Failf("kind", "%s of a file with %s: it was not formatted: %s", args, kind, b)
	}
	b, err = os.ReadFile(target)
	core.Internal(err)
	if !strings.Contains(string(b), "message B {\n  string b = 1;\n  int64 c = 2;\n}\n") {
		t.Failf("kind", "%s of a file with %s: the file behind the link was not formatted: %s", args, kind, b)
	}
	if after := links(root); !core.Equal(before, after) {
		t.Failf("kind", "%s of a file with %s: %v became %v", args, kind, before, after)
	}
}

// links are the files, their modes and where they lead.
func links(root string) []string {
	var out []string
	for f := range core.Snapshot(root) {
		p := root + "/" + strings.TrimSuffix(f, "/")
		info, err := os.Lstat(p)
		core.Internal(err)
		s := f + " " + info.Mode().String()
		if l, err := os.Readlink(p); err == nil {
			s += " " + l
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}
