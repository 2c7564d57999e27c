//go:build go1.22

// P25: the same input gives the same output, whatever the order of maps and directories.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path"
	"regexp"
	"runtime"
	"sort"
	"strings"
	_ "unsafe" // for the links to the table

	"github.com/uber/prototool/internal/verifmc/core"
	l "github.com/uber/prototool/internal/verifmc/lintref"
	"github.com/uber/prototool/internal/verifmc/linttree"
	"github.com/uber/prototool/internal/verifmc/schema"
)

// site is a place that iterates over a map, see overlay.py.
type site struct {
	PC     uintptr
	Count  uint64
	Max    uint64
	Offset uint64
	Only   uint64
}

//go:linkname mapsOn internal/runtime/maps.VerifOn
var mapsOn uint64

//go:linkname mapsSeed internal/runtime/maps.VerifSeed
var mapsSeed uint64

//go:linkname mapsAll internal/runtime/maps.VerifAll
var mapsAll uint64

//go:linkname mapsTable internal/runtime/maps.VerifTable
var mapsTable [4096]site

func main() {
	core.UseSystemProtoc()
	core.Main(&core.Check{
		ID:          "P25",
		Level:       "model_checking",
		Rule:        "A case is a tree, a configuration and a command. Each is executed with the start of all map iterations of the process under control (the Go runtime is built with a table instead of the random start): all iterations from slot 0, all from slot k, and for each place in the code that iterates over a map of two or more entries all the other starts, for all of its iterations and for each single one (thorough: also all pairs of places). Each case is also executed with the files made in all orders of directories and names, so that the order of unsorted directory reads varies. Output, errors, exit code and all files are compared. Non-trivial: each execution that had an order of its own.",
		Assumptions: []string{"maps of up to 8 entries are explored completely (Go iterates over them in the rotations of the order of insertion), larger ones with 12 starts and 3 hash seeds", "the order in which protoc processes finish is the subject of P15"},
		Run:         run,
	})
}

type tree struct {
	name  string
	files map[string]string
	git   string // what is committed before
	// few is set if only the commands that read the configuration matter
	few bool
	// work is the working directory
	work string
	// list is the commands, if not the usual ones
	list []string
}

func join(ms ...map[string]string) map[string]string {
	out := map[string]string{}
	for _, m := range ms {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}

const generate = "generate:\n  go_options:\n    import_path: example.com/x\n    extra_modifiers:\n      x/b.proto: example.com/b\n      x/a.proto: example.com/a\n      x/c.proto: example.com/c\n  plugins:\n    - name: java\n      output: gen/java\n    - name: python\n      output: gen/python\n    - name: cpp\n      output: gen/cpp\n"

// plugin stands for the path of an executable that generates nothing.
const plugin = "PLUGIN"

func trees() []tree {
	var out []tree
	good := schema.Base("proto3").Render()
	out = append(out, tree{name: "good", files: join(good, map[string]string{"a/b/": "", "m/": "", "prototool.yaml": "create:\n  packages:\n    - directory: a\n      name: x.a\n    - directory: a/b\n      name: x.b\n    - directory: foo\n      name: y\nlint:\n  group: empty\n" + generate})})
	// go plugins print modifiers
	out = append(out, tree{name: "go", files: join(good, map[string]string{"prototool.yaml": "protoc:\n  includes: [inc1, inc2, inc3]\nlint:\n  group: empty\n" + strings.Replace(generate, "    - name: java\n      output: gen/java\n", "    - name: go\n      type: go\n      flags: plugins=grpc\n      path: "+plugin+"\n      output: gen/go\n    - name: gogo\n      type: gogo\n      path: "+plugin+"\n      output: gen/gogo\n", 1), "inc1/": "", "inc2/": "", "inc3/": ""})})
	// everything breaks
	var old, now []string
	for i := 0; i < 3; i++ {
		old = append(old, fmt.Sprintf("message A%d {\n  string a = 1;\n  string b = 2;\n  string c = 3;\n  oneof o {\n    string d = 4;\n    string e = 5;\n  }\n  message N%d {\n    string x = 1;\n  }\n  enum F%d {\n    F%d_A = 0;\n    F%d_B = 1;\n  }\n}\n\nenum E%d {\n  E%d_A = 0;\n  E%d_B = 1;\n  E%d_C = 2;\n}\n\nservice S%d {\n  rpc A(A0) returns (A0);\n  rpc B(A0) returns (A0);\n  rpc C(stream A0) returns (A0);\n}\n", i, i, i, i, i, i, i, i, i, i))
		now = append(now, fmt.Sprintf("message A%d {\n  int32 a = 1;\n  repeated string bb = 2;\n  string d = 4;\n  string e = 5;\n}\n\nenum E%d {\n  E%d_A = 0;\n  E%d_X = 1;\n}\n\nservice S%d {\n  rpc B(stream A1) returns (A1);\n  rpc C(A1) returns (stream A0);\n}\n", i, i, i, i, i))
	}
	src := func(pkg string, parts []string) string {
		return "syntax = \"proto3\";\n\npackage " + pkg + ";\n\n" + strings.Join(parts, "\n")
	}
	from := map[string]string{"x/v1/a.proto": src("x.v1", old), "y/v1/a.proto": src("y.v1", old), "z/v1/a.proto": src("z.v1", old), "w/v1/a.proto": src("w.v1", old)}
	out = append(out, tree{name: "break", files: join(map[string]string{"x/v1/a.proto": src("x.v1", now), "y/v1/a.proto": src("y.v1", now), "prototool.yaml": "lint:\n  group: empty\n"}), git: rendered(from)})
	// uses of beta packages
	beta := map[string]string{"prototool.yaml": "lint:\n  group: empty\n"}
	for _, p := range []string{"a", "b", "c"} {
		beta[p+"/v1/x.proto"] = "syntax = \"proto3\";\n\npackage " + p + ".v1;\n\nimport \"q/v1beta1/x.proto\";\nimport \"r/v1beta1/x.proto\";\nimport \"s/v1alpha1/x.proto\";\n\nmessage M {\n  q.v1beta1.M a = 1;\n  r.v1beta1.M b = 2;\n  s.v1alpha1.M c = 3;\n}\n"
	}
	for _, p := range []string{"q/v1beta1", "r/v1beta1", "s/v1alpha1"} {
		beta[p+"/x.proto"] = "syntax = \"proto3\";\n\npackage " + strings.Replace(p, "/", ".", -1) + ";\n\nmessage M {\n  string a = 1;\n}\n"
	}
	out = append(out, tree{name: "beta", files: beta, git: rendered(beta)})
	// all lint rules
	lint := map[string]string{"prototool.yaml": "protoc:\n  includes: [inc]\n  allow_unused_imports: true\nexcludes: [inc]\nlint:\n  rules:\n    add: [" + strings.Join(ruleNames(), ", ") + "]\n  file_header:\n    content: Acme\n    is_commented: false\n"}
	for p, s := range linttree.Support {
		lint["inc/"+p] = s
	}
	for d, fs := range linttree.New() {
		for _, f := range fs {
			lint[path.Join(d, f.Base)+".proto"] = f.Render()
		}
	}
	out = append(out, tree{name: "lint", files: lint})
	ignored := join(lint)
	ignored["prototool.yaml"] += "  ignores:\n    - id: SYNTAX_PROTO3\n      files: [., a, b]\n    - id: PACKAGE_LOWER_SNAKE_CASE\n      files: [a/x.proto, b]\n    - id: ENUM_NAMES_CAMEL_CASE\n      files: [c, a]\n"
	ignored["prototool.yaml"] = strings.Replace(ignored["prototool.yaml"], "  file_header:\n    content: Acme\n    is_commented: false\n", "", 1)
	out = append(out, tree{name: "ignored", files: ignored})
	// options differ
	same := map[string]string{"prototool.yaml": ""}
	for _, d := range []string{"m", "n"} {
		for i, f := range []string{"a", "b", "c"} {
			same[d+"/"+f+".proto"] = fmt.Sprintf("syntax = \"proto3\";\npackage %s.p%d;\noption go_package = \"g%d\";\noption java_package = \"j%d\";\noption csharp_namespace = \"C%d\";\noption objc_class_prefix = \"O%d\";\noption php_namespace = \"P%d\";\noption java_multiple_files = true;\n", d, i, i, i, i, i, i)
		}
	}
	out = append(out, tree{name: "options", files: same})
	// nothing compiles
	broken := map[string]string{"prototool.yaml": "lint:\n  group: empty\n"}
	for i, d := range []string{"a", "b", "c/d", "c"} {
		for j, f := range []string{"x", "y", "z"} {
			broken[fmt.Sprintf("%s/%s.proto", d, f)] = fmt.Sprintf("syntax = \"proto3\";\n\npackage p%d;\n\nimport \"google/protobuf/any.proto\";\nimport \"none%d.proto\";\n\nmessage M%d {\n  Foo a = 1;\n  Bar b = 2;\n}\n", i, j, j)
		}
	}
	out = append(out, tree{name: "broken", files: broken})
	unused := map[string]string{"prototool.yaml": "lint:\n  group: empty\n"}
	for i, d := range []string{"a", "b", "c"} {
		for j, f := range []string{"x", "y", "z"} {
			unused[fmt.Sprintf("%s/%s.proto", d, f)] = fmt.Sprintf("syntax = \"proto3\";\npackage p%d;\nimport \"google/protobuf/any.proto\";\nimport \"google/protobuf/empty.proto\";\nmessage M%d { string b = 2; }\n", i, j)
		}
	}
	out = append(out, tree{name: "unused", files: unused})
	// not formatted, no configuration
	messy := map[string]string{}
	for i, d := range []string{"a", "b", "c"} {
		for j, f := range []string{"x", "y", "z"} {
			messy[fmt.Sprintf("%s/%s.proto", d, f)] = fmt.Sprintf("syntax = \"proto3\";\npackage p%d;\noption java_package=\"x\";\nimport \"google/protobuf/empty.proto\";\noption go_package=\"b\";\nimport \"google/protobuf/any.proto\";\noption (o%d%d) = {c: 1 a: 2 b: {z: 1 y: 2}};\nmessage M%d { google.protobuf.Any b=2; google.protobuf.Empty c = 3; }\nimport \"google/protobuf/descriptor.proto\";\nextend google.protobuf.FileOptions { O%d o%d%d = 50%d%d0; }\nmessage O%d { int32 a = 1; O%d b = 2; int32 c = 3; int32 y = 4; int32 z = 5; }\n", i, i, j, j, j, i, j, i, j, j, j)
		}
	}
	out = append(out, tree{name: "messy", files: messy})
	// configurations with several faults, and several configurations
	bad := map[string]string{
		"several":  "",
		"rules":    "lint:\n  rules:\n    add: [FOO, BAR, BAZ]\n    remove: [QUX, QUUX]\n",
		"both":     "lint:\n  rules:\n    add: [SYNTAX_PROTO3, ENUM_NAMES_CAMEL_CASE, MESSAGE_NAMES_CAMEL_CASE]\n    remove: [MESSAGE_NAMES_CAMEL_CASE, SYNTAX_PROTO3, ENUM_NAMES_CAMEL_CASE]\n",
		"group":    "lint:\n  group: foo\n  rules:\n    add: [FOO]\n",
		"ignores":  "lint:\n  ignores:\n    - id: FOO\n      files: [a, b]\n    - id: BAR\n      files: [a, b]\n    - id: SYNTAX_PROTO3\n      files: [../x, ../y]\n",
		"excludes": "excludes: [.., ., ../x]\n",
		"create":   "create:\n  packages:\n    - directory: a\n      name: x\n    - directory: a\n      name: y\n    - directory: b\n    - name: z\n    - directory: /c\n      name: z\n",
		"generate": "generate:\n  plugins:\n    - name: go\n      type: foo\n      output: x\n    - name: gogo\n      type: go\n    - output: x\n    - name: x\n      output: /x\n",
		"go":       "generate:\n  plugins:\n    - name: go\n      type: go\n      output: x\n    - name: gogo\n      type: gogo\n      output: y\n",
		"header":   "lint:\n  file_header:\n    path: none\n    content: x\n",
		"unknown":  "foo: 1\nbar: 2\nlint:\n  baz: 1\n  qux: 2\ncreate:\n  x: y\n",
		"types":    "lint: 1\ncreate: 2\ngenerate: 3\nexcludes: 4\n",
		"add all":  "lint:\n  rules:\n    no_default: true\n    add: [" + strings.Join(ruleNames(), ", ") + "]\n",
	}
	var names []string
	for n := range bad {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fs := join(good, map[string]string{"prototool.yaml": bad[n]})
		if n == "several" {
			fs["foo/prototool.yaml"], fs["bar/prototool.yaml"], fs["baz/v1beta1/prototool.yaml"] = "", "", ""
		}
		out = append(out, tree{name: "configuration: " + n, files: fs, few: n != "add all"})
	}
	// the configuration of the working directory is not that of the argument
	outside := map[string]string{"w/prototool.yaml": "lint:\n  group: empty\n"}
	for _, d := range []string{"a", "b", "b/c", "d"} {
		outside["t/"+d+"/x.proto"] = "syntax = \"proto3\";\n\npackage p;\n"
		outside["t/"+d+"/y.proto"] = "syntax = \"proto3\";\n\npackage p;\n"
	}
	out = append(out, tree{name: "outside", files: outside, work: "w", list: []string{"files ..", "files ../t", "lint ../t", "compile ../t", "format -l ../t", "format -w ../t", "generate ../t", "all ../t", "descriptor-set --json ../t", "x inspect packages ../t"}})
	return out
}

func ruleNames() []string {
	out := append([]string{}, l.IDs()...)
	sort.Strings(out)
	return out
}

// rendered is a shell script that writes the files.
func rendered(files map[string]string) string {
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	s := ""
	for _, n := range names {
		s += "mkdir -p '" + path.Dir(n) + "'\ncat > '" + n + "' <<'EOF'\n" + files[n] + "EOF\n"
	}
	return s
}

var commands = []string{
	"files", "compile", "compile --dry-run", "compile --json", "lint", "lint --json", "lint --list-linters", "lint --list-all-linters", "lint --list-all-lint-groups", "lint --list-lint-group uber2", "lint --list-lint-group google", "lint --diff-lint-groups google,uber2", "lint --diff-lint-groups uber1,empty", "lint --generate-ignores",
	"format", "format -l", "format -d", "format -w", "format --fix", "format --fix -d", "format --fix -w", "all", "all --fix", "all --disable-format", "all --disable-lint --disable-format",
	"generate", "generate --dry-run", "descriptor-set --json", "descriptor-set -o out.bin", "descriptor-set --json --include-imports", "descriptor-set -o out.bin --include-imports --include-source-info", "break descriptor-set -o out.bin",
	"x inspect packages", "x inspect package-deps --name foo.v1", "x inspect package-importers --name bar.v1", "x inspect package-deps --name a.v1", "x inspect package-importers --name q.v1beta1",
	"create a/new.proto a/b/new.proto foo/v1/new.proto m/new.proto", "config init new", "config init new --uncomment", "config init new --document", "help", "lint --help", "version --json",
}

// few are run with configurations that are refused.
var few = map[string]bool{"files": true, "compile": true, "lint": true, "lint --list-linters": true, "format -l": true, "generate": true, "generate --dry-run": true, "create a/new.proto a/b/new.proto foo/v1/new.proto m/new.proto": true, "x inspect packages": true, "all": true}

var breaks = []string{"break check -f old.bin", "break check -f old.bin --json", "break check --git-branch old", "break check -f same.bin", "lint", "x inspect packages", "break descriptor-set -o out.bin", "x inspect package-deps --name a.v1", "x inspect package-importers --name q.v1beta1"}

type kase struct {
	Tree    string
	Command string
	Part    string
}

func run(w *core.W) {
	mapsSeed = 1
	core.Internal(os.WriteFile(w.Scratch+"/plugin", []byte("#!/bin/sh\ncat > /dev/null\n"), 0755))
	for _, tr := range trees() {
		list := commands
		if tr.git != "" {
			list = breaks
		}
		if tr.list != nil {
			list = tr.list
		}
		for _, c := range list {
			if tr.few && !few[c] {
				continue
			}
			tr, c := tr, c
			w.Case(kase{tr.name, c, "maps"}, func(t *core.T) { maps(w, t, tr, c) })
			w.Case(kase{tr.name, c, "directories"}, func(t *core.T) { directories(w, t, tr, c) })
		}
	}
}

// outcome is all that can be seen of an execution.
type outcome struct {
	r     core.Result
	files map[string]string
}

func (a outcome) diff(b outcome) string {
	if a.r.Code != b.r.Code {
		return fmt.Sprintf("exit code %d instead of %d", b.r.Code, a.r.Code)
	}
	if a.r.Out != b.r.Out {
		return "output " + firstDiff(a.r.Out, b.r.Out)
	}
	if strip(a.r.Err) != strip(b.r.Err) {
		return "standard error " + firstDiff(strip(a.r.Err), strip(b.r.Err))
	}
	if d := core.DiffSnapshots(a.files, b.files); len(d) != 0 {
		n := strings.TrimLeft(d[0], "+-~")
		return fmt.Sprintf("files %v: %s", d, firstDiff(a.files[n], b.files[n]))
	}
	return ""
}

// strip removes the times of log lines.
func strip(s string) string {
	var out []string
	for _, x := range strings.Split(s, "\n") {
		if i := strings.Index(x, "\t"); i >= 0 {
			x = x[i:]
		}
		out = append(out, x)
	}
	return strings.Join(out, "\n")
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		p, q := "(none)", "(none)"
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d: %.300q instead of %.300q", i+1, q, p)
		}
	}
	return "(same)"
}

// place makes the tree; the files are made in the given order.
func place(w *core.W, tr tree, order []string) string {
	root := w.Fresh("t")
	if order == nil {
		for f := range tr.files {
			order = append(order, f)
		}
		sort.Strings(order)
	}
	for _, f := range order {
		core.Write(root, map[string]string{f: strings.Replace(tr.files[f], plugin, w.Scratch+"/plugin", -1)})
	}
	if tr.git != "" {
		// the repository and the saved states are made once and copied
		key := w.Scratch + "/git-" + tr.name
		if _, err := os.Stat(key); err != nil {
			core.Internal(os.MkdirAll(key, 0755))
			sh(key, tr.git+"git init -q . && git checkout -q -b old && git add -A && git -c user.name=x -c user.email=x@x commit -q -m x && protoc -I . -o old.bin $(git ls-files '*.proto')")
			dir := key + "-now"
			core.Write(dir, tr.files)
			sh(dir, "protoc -I . -o '"+key+"/same.bin' $(find . -name '*.proto' | sed 's,^./,,')")
		}
		sh(root, "cp -r '"+key+"/.git' '"+key+"/old.bin' '"+key+"/same.bin' .")
	}
	return root
}

func sh(dir, script string) {
	cmd := exec.Command("/bin/sh", "-c", script)
	cmd.Dir = dir
	if out, err := cmd.CombinedOutput(); err != nil {
		core.Internal(fmt.Errorf("%s: %v: %s", script, err, out))
	}
}

// fileTime is the time of a file in the header of a diff.
var fileTime = regexp.MustCompile(`(?m)^((?:---|\+\+\+) .*\t)\d{4}-\d\d-\d\d [0-9:.]+ [+-]\d{4}$`)

func execute(w *core.W, tr tree, command string, order []string) outcome {
	root := place(w, tr, order)
	core.CleanTemp()
	mapsOn = 1
	r := core.CLI(path.Join(root, tr.work), strings.Split(command, " ")...)
	mapsOn = 0
	w.Count("executions", 1)
	files := core.Snapshot(root)
	for f := range files {
		if strings.HasPrefix(f, ".git/") {
			delete(files, f)
		}
	}
	for _, e := range core.TempEntries() {
		files["temporary "+e] = ""
	}
	if strings.Contains(command, "-d") {
		r.Out = fileTime.ReplaceAllString(r.Out, "$1")
	}
	return outcome{r, files}
}

func reset() {
	mapsAll = 0
	for i := range mapsTable {
		s := &mapsTable[i]
		s.Count, s.Max, s.Offset, s.Only = 0, 0, 0, 0
	}
}

func (s *site) name() string {
	fn := runtime.FuncForPC(s.PC)
	file, line := fn.FileLine(s.PC - 1)
	return fmt.Sprintf("%s (%s:%d)", fn.Name(), path.Base(file), line)
}

func maps(w *core.W, t *core.T, tr tree, command string) {
	defer reset()
	reset()
	mapsSeed = 1
	base := execute(w, tr, command, nil)
	type found struct {
		i          int
		count, max uint64
	}
	var sites []found
	for i := range mapsTable {
		if s := &mapsTable[i]; s.PC != 0 && s.Count > 0 {
			sites = append(sites, found{i, s.Count, s.Max})
		}
	}
	w.Count("places", int64(len(sites)))
	check := func(format string, args ...interface{}) {
		got := execute(w, tr, command, nil)
		what := fmt.Sprintf(format, args...)
		if d := base.diff(got); d != "" {
			kind := "order"
			if what == "again" {
				kind = "repeated"
			}
			t.Failf(kind, "%s, %s: %s", command, what, d)
		}
		w.Nontrivial(tr.name + command + what)
	}
	for i := 0; i < 2; i++ {
		reset()
		check("again")
	}
	for k := uint64(1); k < 8; k++ {
		reset()
		mapsAll = k
		check("all iterations from %d", k)
	}
	for seed := uint64(2); seed <= 3; seed++ {
		reset()
		mapsSeed = seed
		check("hash seed %d", seed)
	}
	mapsSeed = 1
	starts := func(f found) []uint64 {
		var out []uint64
		for k := uint64(1); k < f.max && k < 8; k++ {
			out = append(out, k)
		}
		if f.max > 8 {
			out = append(out, 8, 11, 16, 32, 64)
		}
		return out
	}
	for _, f := range sites {
		for _, k := range starts(f) {
			reset()
			mapsTable[f.i].Offset = k
			check("%s from %d", mapsTable[f.i].name(), k)
		}
		most := uint64(4)
		if w.Thorough() {
			most = 64
		}
		for n := uint64(1); f.count > 1 && n <= f.count && n <= most; n++ {
			for _, k := range starts(f) {
				if k > 1 && !w.Thorough() {
					break
				}
				reset()
				mapsTable[f.i].Offset, mapsTable[f.i].Only = k, n
				check("%s, iteration %d from %d", mapsTable[f.i].name(), n, k)
			}
		}
	}
	if w.Thorough() {
		for i, f := range sites {
			for _, g := range sites[:i] {
				reset()
				mapsTable[f.i].Offset, mapsTable[g.i].Offset = 1, 1
				check("%s and %s", mapsTable[f.i].name(), mapsTable[g.i].name())
			}
		}
	}
}

// directories makes the files in all orders of directories and of names.
func directories(w *core.W, t *core.T, tr tree, command string) {
	reset()
	base := execute(w, tr, command, nil)
	byDir := map[string][]string{}
	var dirs []string
	for f := range tr.files {
		d := strings.SplitN(f, "/", 2)[0]
		if !strings.Contains(f, "/") {
			d = "."
		}
		if byDir[d] == nil {
			dirs = append(dirs, d)
		}
		byDir[d] = append(byDir[d], f)
	}
	sort.Strings(dirs)
	for _, d := range dirs {
		sort.Strings(byDir[d])
	}
	perms := func(n int) [][]int {
		var out [][]int
		if n > 4 { // rotations, forward and backward
			for i := 0; i < n; i++ {
				var a, b []int
				for j := 0; j < n; j++ {
					a, b = append(a, (i+j)%n), append(b, (i+n-j)%n)
				}
				out = append(out, a, b)
			}
			return out
		}
		core.Permutations(n, func(p []int) { out = append(out, append([]int{}, p...)) })
		return out
	}
	for _, dp := range perms(len(dirs)) {
		for k := 0; k < 6; k++ {
			if !w.Thorough() && k > 1 && dp[0] != 0 {
				continue
			}
			var order []string
			for _, d := range dp {
				fs := byDir[dirs[d]]
				ps := perms(len(fs))
				for _, i := range ps[(k*len(ps)/6)%len(ps)] {
					order = append(order, fs[i])
				}
			}
			got := execute(w, tr, command, order)
			if d := base.diff(got); d != "" {
				t.Failf("directories", "%s, files made in the order %v: %s", command, order, d)
			}
			w.Nontrivial(tr.name + command + strings.Join(order, " "))
		}
	}
}
