//go:build go1.22 && linux && amd64

// P22: a command changes nothing but what it is documented to change, and nothing at all if it is refused.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/uber/prototool/internal/cmd"
	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/tracer"
)

func main() {
	if os.Getenv("VERIF_CHILD") != "" {
		os.Exit(cmd.Do(os.Args[1:], os.Stdin, os.Stdout, os.Stderr))
	}
	core.UseSystemProtoc()
	core.Main(&core.Check{
		ID:    "P22",
		Level: "exploration",
		Rule: "A case is a tree, a working directory, a command with flags, and an argument, or an invocation that has to be refused (each command with each flag or argument that it cannot accept, alone and with all flags that would make it write). " +
			"The real process is stopped with ptrace at each of its system calls that changes a file anywhere or opens a connection; what it touches, and everything in the tree (with .git), home, cache and temporary directory before and after, is compared with what the command is documented to write. Non-trivial: each process.",
		Assumptions: []string{"what protoc, git and diff write is seen only in the tree, home, cache and temporary directory"},
		Run:         run,
		CaseTimeout: 2 * time.Minute,
	})
}

type tree struct {
	name  string
	files map[string]string
	setup string
}

const (
	formatted = "syntax = \"proto3\";\n\npackage x;\n\nmessage A {\n  string a = 1;\n}\n"
	messy     = "syntax = \"proto3\";\n package x;\nmessage B { string b=1;\n   int64 c = 2; }\n"
	old       = "// old\n// header\n\nsyntax = \"proto3\";\npackage z.v1;\noption go_package=\"other\";\noption java_package = \"foo\";\nmessage C { }\n"
	generate  = "generate:\n  go_options:\n    import_path: example.com\n  plugins:\n    - name: python\n      output: gen/python\n    - name: php\n      output: gen/php\n"
)

func trees() []tree {
	files := map[string]string{"a/x.proto": formatted, "a/y.proto": messy, "b/v1/z.proto": old, "a/formatted.proto": strings.Replace(formatted, "A", "F", 1), "b/readme.txt": "text\n", "c/": "", "skip/s.proto": messy, "notes.proto.txt": messy, "p.yaml": "x: y\n", "descriptors.bin": "old"}
	with := func(config string, more map[string]string) map[string]string {
		out := map[string]string{"w/prototool.yaml": config, "other/o.proto": strings.Replace(messy, "x;", "other;", 1), "other/prototool.yaml": "lint:\n  group: empty\n"}
		for n, s := range files {
			out["w/"+n] = s
		}
		for n, s := range more {
			out["w/"+n] = s
		}
		return out
	}
	git := "cd w && git init -q . && git checkout -q -b old && git add -A && git -c user.name=x -c user.email=x@x commit -q -m x && protoc -I . -o old.bin a/x.proto && echo 'message New {}' >> a/x.proto && git add a/x.proto && sed -i s/New/Newer/ a/x.proto"
	return []tree{
		{name: "writing", files: with("excludes: [skip]\ncreate:\n  packages:\n    - directory: a\n      name: a.v1\nlint:\n  group: empty\n"+generate, nil), setup: git},
		{name: "linting", files: with("excludes: [skip]\nlint:\n  group: uber2\n", nil), setup: git},
		{name: "broken", files: with("excludes: [skip]\nlint:\n  group: empty\n"+generate, map[string]string{"b/v1/bad.proto": "syntax = \"proto3\";\npackage z.v1;\nmessage D {Foo a = 1;}\n"}), setup: git},
		{name: "unparsable", files: with("excludes: [skip]\nlint:\n  group: empty\n"+generate, map[string]string{"b/v1/bad.proto": "syntax = \"proto3\";\npackage z.v1;\nmessage D {\n"}), setup: git},
		{name: "faulty configuration", files: with("excludes: [skip]\nfoo: bar\n"+generate, nil), setup: git},
		{name: "two configurations", files: with("lint:\n  group: empty\n"+generate, map[string]string{"b/prototool.yaml": "", "b/prototool.json": "{}"})},
	}
}

// command is a command and what it may change.
type command struct {
	args string
	// arg is set if it takes a file or directory, "dir" if only a directory
	arg string
	// format is set if it may overwrite .proto files that it was given
	format bool
	// makes are other paths, relative to the working directory, below which it may write; GEN is the output of plugins
	makes []string
}

var commands = []command{
	{args: "files", arg: "any"}, {args: "compile", arg: "any"}, {args: "compile --dry-run", arg: "any"}, {args: "compile --json", arg: "any"},
	{args: "lint", arg: "any"}, {args: "lint --json", arg: "any"}, {args: "lint --list-linters", arg: "any"}, {args: "lint --list-all-linters"}, {args: "lint --list-all-lint-groups"}, {args: "lint --list-lint-group google"}, {args: "lint --diff-lint-groups google,uber2"}, {args: "lint --generate-ignores", arg: "any"},
	{args: "format", arg: "any"}, {args: "format -l", arg: "any"}, {args: "format -d", arg: "any"}, {args: "format --fix", arg: "any"}, {args: "format --fix -l", arg: "any"}, {args: "format --fix -d", arg: "any"},
	{args: "format -w", arg: "any", format: true}, {args: "format --fix -w", arg: "any", format: true}, {args: "format -w --debug --json", arg: "any", format: true},
	{args: "all", arg: "any", format: true, makes: []string{"GEN"}}, {args: "all --fix", arg: "any", format: true, makes: []string{"GEN"}}, {args: "all --disable-format", arg: "any", makes: []string{"GEN"}}, {args: "all --disable-lint --fix", arg: "any", format: true, makes: []string{"GEN"}},
	{args: "generate", arg: "any", makes: []string{"GEN"}}, {args: "generate --dry-run", arg: "any"},
	{args: "descriptor-set", arg: "any"}, {args: "descriptor-set --json --include-imports", arg: "any"}, {args: "descriptor-set --include-source-info -o descriptors.bin", arg: "any", makes: []string{"descriptors.bin"}}, {args: "descriptor-set --json -o new.json", arg: "any", makes: []string{"new.json"}}, {args: "descriptor-set --tmp", arg: "any", makes: []string{"TMP"}},
	{args: "break check", arg: "dir"}, {args: "break check --git-branch old --json", arg: "dir"}, {args: "break check -f old.bin", arg: "dir"}, {args: "break check --git-branch none", arg: "dir"}, {args: "break descriptor-set -o descriptors.bin", arg: "dir", makes: []string{"descriptors.bin"}},
	{args: "x inspect packages", arg: "any"}, {args: "x inspect package-deps --name x", arg: "any"}, {args: "x inspect package-importers --name none", arg: "any"},
	{args: "version"}, {args: "version --json --debug"}, {args: "help"}, {args: "help format"}, {args: "format --help"}, {args: "config"}, {args: ""},
	{args: "create a/new.proto c/new.proto", makes: []string{"a/new.proto", "c/new.proto"}}, {args: "create --package foo new.proto", makes: []string{"new.proto"}},
	{args: "config init", makes: []string{"prototool.yaml"}}, {args: "config init c", makes: []string{"c"}}, {args: "config init --uncomment d/e", makes: []string{"d"}},
	{args: "cache update", arg: "any"}, {args: "cache delete", makes: []string{"CACHE"}},
}

// refused are flags and arguments that no command that takes them accepts.
var refused = []string{
	"--foo", "--foo=bar", "-z", "--debug=maybe",
	"--walk-timeout foo", "--walk-timeout 3", "--protoc-bin-path /usr/bin/protoc|--protoc-wkt-path", "--protoc-wkt-path /usr/include|--protoc-bin-path",
	"--protoc-bin-path /none --protoc-wkt-path /usr/include", "--protoc-bin-path /usr/bin/protoc --protoc-wkt-path /none", "--protoc-url file:///none.zip --protoc-bin-path /usr/bin/protoc --protoc-wkt-path /usr/include",
	"--config-data {", "--config-data foo:1", "--config-data {\"foo\":1}", "--config-data {\"lint\":{\"group\":1}}", "--config-data {\"lint\":{\"rules\":{\"add\":[\"SYNTAX_PROTO3\"],\"remove\":[\"SYNTAX_PROTO3\"]}}}",
	"--json=2x", "--dry-run=2x", "--fix=2x", "a b", "none", "none.proto", "b/readme.txt/x",
}

// contradictions are refused by one command.
var contradictions = []string{
	"format -w -d", "format -w -l", "format -d -l", "format -w -d -l", "format --fix -w -l", "format --overwrite --diff",
	"lint --list-linters --list-all-linters", "lint --list-linters --generate-ignores", "lint --list-all-lint-groups --list-lint-group google", "lint --diff-lint-groups google,uber2 --list-linters", "lint --diff-lint-groups google", "lint --diff-lint-groups google,none", "lint --diff-lint-groups none,google", "lint --diff-lint-groups google,uber1,uber2", "lint --list-lint-group none",
	"descriptor-set -o x --tmp", "descriptor-set --tmp -o x --json", "break descriptor-set", "break check --git-branch old -f old.bin", "break check -f none.bin", "break check -f p.yaml", "break check /", "break check ..", "break check ../other", "break check b/../..",
	"x inspect package-deps", "x inspect package-importers", "x inspect package-deps --name none.such",
	"create", "create a/x.proto", "create none/new.proto", "config init b c", "config init .", "version x", "cache delete x", "foo", "inspect packages", "config foo", "break foo", "x foo", "x inspect foo",
	"grpc", "grpc --address localhost:1", "grpc --address localhost:1 --method x.S/M", "grpc --method x.S/M --data {}", "grpc --address localhost:1 --data {}", "grpc --address localhost:1 --method x.S/M --data {} --stdin",
	"grpc --address localhost:1 --method x.S/M --data {} --cert x", "grpc --address localhost:1 --method x.S/M --data {} --insecure", "grpc --address localhost:1 --method x.S/M --data {} --cacert x", "grpc --address localhost:1 --method x.S/M --data {} --key x", "grpc --address localhost:1 --method x.S/M --data {} --server-name x",
	"grpc --address localhost:1 --method x.S/M --data {} --tls --cert x", "grpc --address localhost:1 --method x.S/M --data {} --tls --key x", "grpc --address localhost:1 --method x.S/M --data {} --tls --insecure --cacert x", "grpc --address localhost:1 --method x.S/M --data {} --tls --insecure --server-name x", "grpc --address localhost:1 --method x.S/M --data {} --tls --insecure --cert x --key y",
	"grpc --address localhost:1 --method x.S/M --data {} -H foo", "grpc --address localhost:1 --method x.S/M --data {} --call-timeout foo", "grpc --address localhost:1 --method x.S/M --data {} --connect-timeout foo", "grpc --address localhost:1 --method x.S/M --data {} --keepalive-time foo",
}

// bases are the forms of the commands that are combined with what is refused; they would write what they can.
var bases = []command{
	{args: "files"}, {args: "compile"}, {args: "lint"}, {args: "format"}, {args: "format -w"}, {args: "all --fix"}, {args: "generate"}, {args: "descriptor-set"}, {args: "descriptor-set -o descriptors.bin"}, {args: "break check -f old.bin"}, {args: "break check"}, {args: "break descriptor-set -o descriptors.bin"},
	{args: "x inspect packages"}, {args: "x inspect package-deps --name x"}, {args: "x inspect package-importers --name x"}, {args: "create a/new.proto"}, {args: "config init c"}, {args: "version"}, {args: "cache delete"}, {args: "grpc --address localhost:1 --connect-timeout 1s --method x.S/M --data {}"}, {args: "break"}, {args: "x inspect"}, {args: "config"}, {args: ""},
}

// takes says which flags a command has.
func takes(base, flag string) bool {
	word := strings.Fields(base + " .")
	in := func(list string) bool {
		for _, x := range strings.Split(list, ",") {
			if strings.HasPrefix(base+" ", x+" ") {
				return true
			}
		}
		return false
	}
	all := "files,compile,lint,format,all,generate,descriptor-set,break check,break descriptor-set,x inspect packages,x inspect package-deps,x inspect package-importers,grpc"
	switch {
	case strings.HasPrefix(flag, "--walk-timeout"), strings.HasPrefix(flag, "--protoc-"):
		return in(all)
	case strings.HasPrefix(flag, "--config-data"):
		return in(all + ",create")
	case flag == "--json=2x":
		return in("compile,lint,format,all,generate,descriptor-set,break check,version")
	case flag == "--dry-run=2x":
		return in("compile,generate")
	case flag == "--fix=2x":
		return in("format,all")
	case flag == "a b":
		return in(all + ",config init,cache delete,version")
	case strings.HasPrefix(flag, "none"), strings.HasPrefix(flag, "b/"):
		return in(all)
	}
	return len(word) > 0
}

type kase struct {
	Tree    string
	Dir     string
	Command string
	Arg     string
}

func run(w *core.W) {
	for _, tr := range trees() {
		for _, dir := range []string{"w", "w/a", "w/b/v1", "other", "."} {
			for _, c := range commands {
				args := []string{""}
				if c.arg != "" {
					args = []string{"", ".", "ROOT/w", "ROOT/w/b"}
					switch dir {
					case "w":
						args = append(args, "a", "b/v1", "c", "skip")
						if c.arg == "any" {
							args = append(args, "a/y.proto", "b/v1/z.proto", "skip/s.proto", "ROOT/w/a/y.proto", "../other/o.proto")
						}
					case "w/a":
						args = append(args, "../b", "..")
						if c.arg == "any" {
							args = append(args, "y.proto")
						}
					case "other":
						args = append(args, "../w/a")
					case ".":
						args = append(args, "w", "w/a/y.proto")
					}
				}
				for _, arg := range args {
					if !w.Thorough() && (dir == "w/b/v1" || dir == ".") && arg != "" {
						continue
					}
					tr, dir, c, arg := tr, dir, c, arg
					w.Case(kase{tr.name, dir, c.args, arg}, func(t *core.T) { footprint(w, t, tr, dir, c, arg) })
				}
			}
		}
	}
	tr := trees()[0]
	for _, b := range bases {
		for _, r := range refused {
			if !takes(b.args, r) {
				continue
			}
			b, r := b, r
			w.Case(kase{"refused", "w", b.args, r}, func(t *core.T) { refusal(w, t, tr, strings.TrimSpace(b.args+" "+r)) })
			// with what is accepted around it
			for _, more := range []string{"--debug", "--json", "--walk-timeout 10s", "--error-format id:message", "a"} {
				more := more
				if strings.Contains(r, "|") || more != "--debug" && !takes(b.args, map[string]string{"--json": "--json=2x", "a": "none"}[more]+strings.TrimSuffix(more, "--json")) || more == "a" && !strings.HasPrefix(r, "-") || strings.HasPrefix(more, "--error") && !takes(b.args, "--walk-timeout") {
					continue
				}
				// the last of two values counts
				if strings.HasPrefix(more, "--walk") && strings.HasPrefix(r, "--walk") {
					continue
				}
				if !w.Thorough() && more != "--debug" && more != "a" {
					continue
				}
				w.Case(kase{"refused", "w", b.args, r + " " + more}, func(t *core.T) { refusal(w, t, tr, strings.TrimSpace(b.args+" "+r+" "+more)) })
				w.Case(kase{"refused", "w", b.args, more + " " + r}, func(t *core.T) { refusal(w, t, tr, strings.TrimSpace(b.args+" "+more+" "+r)) })
			}
		}
	}
	for _, c := range contradictions {
		c := c
		w.Case(kase{"refused", "w", c, ""}, func(t *core.T) { refusal(w, t, tr, c) })
	}
}

type env struct {
	root   string
	before map[string]string
}

func prepare(w *core.W, tr tree) *env {
	e := &env{root: w.Fresh("t")}
	// made once and copied
	ref := w.Scratch + "/ref-" + tr.name
	if _, err := os.Stat(ref); err != nil {
		core.Write(ref, tr.files)
		core.Write(ref, map[string]string{"tmp/": "", "home/": "", "cache/keep": "x"})
		if tr.setup != "" {
			sh(ref, tr.setup)
		}
	}
	sh(w.Scratch, "rm -rf '"+e.root+"' && cp -a '"+ref+"' '"+e.root+"'")
	e.before = core.Snapshot(e.root)
	return e
}

func sh(dir, script string) {
	c := exec.Command("/bin/sh", "-c", script)
	c.Dir = dir
	if out, err := c.CombinedOutput(); err != nil {
		core.Internal(fmt.Errorf("%s: %v: %s", script, err, out))
	}
}

type outcome struct {
	code    int
	out     string
	touched []string // paths, with what was done
	changed []string // paths relative to the root
	after   map[string]string
}

func (e *env) execute(w *core.W, t *core.T, dir, args string, protoc bool) *outcome {
	self, err := os.Executable()
	core.Internal(err)
	out := filepath.Dir(e.root) + "/out"
	o := &outcome{}
	tr := &tracer.Tracer{Network: true, Point: func(c *tracer.Call) tracer.Action {
		for i, p := range []string{c.Path, c.Path2} {
			if p != "" && p != out && p != os.DevNull && strings.HasPrefix(p, "/") && !(i == 1 && c.Name == "link") {
				o.touched = append(o.touched, c.Name+" "+p)
			}
		}
		return tracer.Go
	}}
	env := []string{"VERIF_CHILD=1", "HOME=" + e.root + "/home", "PATH=/usr/bin:/bin", "TMPDIR=" + e.root + "/tmp", "PROTOTOOL_CACHE_PATH=" + e.root + "/cache", "GOGC=off"}
	if protoc {
		env = append(env, "PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc", "PROTOTOOL_PROTOC_WKT_PATH=/usr/include")
	}
	core.Internal(tr.Run([]tracer.Spec{{Path: self, Args: strings.Fields(strings.Replace(args, "ROOT", e.root, -1)), Dir: e.root + "/" + dir, Out: out, Env: env}}))
	w.Count("processes", 1)
	w.Count("calls", int64(len(tr.Exits[0].Points)))
	w.Nontrivial(fmt.Sprint(e.before, dir, args))
	o.code = tr.Exits[0].Code
	b, _ := os.ReadFile(out)
	o.out = string(b)
	o.after = core.Snapshot(e.root)
	for _, d := range core.DiffSnapshots(e.before, o.after) {
		o.changed = append(o.changed, d[1:])
	}
	return o
}

func footprint(w *core.W, t *core.T, tr tree, dir string, c command, arg string) {
	e := prepare(w, tr)
	o := e.execute(w, t, dir, strings.TrimSpace(c.args+" "+arg), true)
	may := func(rel string) bool {
		if c.format && strings.HasSuffix(rel, ".proto") {
			// those that it was given
			target := filepath.Join(dir, strings.Replace(arg, "ROOT/", strings.Repeat("../", strings.Count(dir, "/")+1), 1))
			if strings.HasPrefix(arg, "ROOT/") {
				target = strings.TrimPrefix(arg, "ROOT/")
			}
			if !strings.HasPrefix(rel, "w/skip/") && (target == "." || rel == target || strings.HasPrefix(rel, target+"/")) {
				// and that were not formatted
				return e.before[rel] != o.after[rel]
			}
		}
		for _, m := range c.makes {
			switch m {
			case "GEN":
				m = "w/gen"
			case "TMP":
				if strings.HasPrefix(rel, "tmp/") && o.code == 0 && o.out == e.root+"/"+rel+"\n" {
					return true
				}
				continue
			case "CACHE":
				m = "cache"
			default:
				m = filepath.Join(dir, m)
			}
			if rel == m || rel == m+"/" || strings.HasPrefix(rel, m+"/") {
				return true
			}
		}
		return false
	}
	what := fmt.Sprintf("%s %s in %s", c.args, arg, dir)
	for _, rel := range o.changed {
		if !may(rel) {
			t.Failf("changed", "%s (exit code %d) changes %s", what, o.code, rel)
		}
	}
	for _, s := range o.touched {
		i := strings.Index(s, " ")
		p := s[i+1:]
		if s[:i] == "connect" {
			t.Failf("network", "%s: %s", what, s)
			continue
		}
		rel := strings.TrimPrefix(p, e.root+"/")
		if rel == p {
			t.Failf("outside", "%s: %s", what, s)
			continue
		}
		_, before := e.before[rel]
		_, after := o.after[rel]
		if !before {
			_, before = e.before[rel+"/"]
			// making a directory that is there changes nothing
			if before && s[:i] == "mkdir" {
				continue
			}
		}
		if (before || after) && !may(rel) {
			t.Failf("touched", "%s: %s", what, strings.Replace(s, e.root, "ROOT", -1))
		}
	}
}

func refusal(w *core.W, t *core.T, tr tree, args string) {
	e := prepare(w, tr)
	// the part behind | must not be there from the environment
	protoc := true
	if i := strings.Index(args, "|"); i >= 0 {
		args, protoc = args[:i], false
	}
	o := e.execute(w, t, "w", args, protoc)
	if o.code == 0 {
		t.Failf("accepted", "%s: exit code 0: %.200s", args, o.out)
	}
	if strings.TrimSpace(o.out) == "" {
		t.Failf("silent", "%s: exit code %d without a message", args, o.code)
	}
	if len(o.changed) > 0 {
		t.Failf("changed", "%s changes %v", args, o.changed)
	}
	var paths []string
	for _, s := range o.touched {
		if p := strings.SplitN(s, " ", 2)[1]; strings.HasPrefix(p, e.root+"/tmp/") {
			// what is temporary is gone, as nothing has changed
			continue
		}
		paths = append(paths, strings.Replace(s, e.root, "ROOT", -1))
	}
	sort.Strings(paths)
	if len(paths) > 0 {
		t.Failf("touched", "%s: %v", args, paths)
	}
}
