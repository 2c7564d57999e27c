//go:build go1.22

// P16: what protoc says is reported for the right file, at the right position.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/fake"
)

// shape is a line of output of protoc, @ is the name of the file.
type shape struct {
	line string
	// file is false if no file is reported
	file bool
	pos  [2]int
	msg  string // "" if the line is not reported
	// unused is set for unused imports
	unused bool
}

var shapes = []shape{
	{`@:5:3: "Foo" is not defined.`, true, [2]int{5, 3}, `"Foo" is not defined.`, false},
	{`@: Some message of an old version.`, true, [2]int{1, 1}, `Some message of an old version.`, false},
	{`@:3:1: warning: Import x/y.proto is unused.`, true, [2]int{3, 1}, `Import "x/y.proto" was not used.`, true},
	{`@:3:12: warning: Import x/y.proto but not used.`, true, [2]int{3, 12}, `Import "x/y.proto" was not used.`, true},
	{`@: warning: Import x/y.proto but not used.`, true, [2]int{1, 1}, `Import "x/y.proto" was not used.`, true},
	{`@:12:34: File recursively imports itself: d/a.proto -> d/b.proto -> d/a.proto`, true, [2]int{12, 34}, `File recursively imports itself d/a.proto -> d/b.proto -> d/a.proto.`, false},
	{`@: File recursively imports itself: d/a.proto -> d/a.proto`, true, [2]int{1, 1}, `File recursively imports itself d/a.proto -> d/a.proto.`, false},
	{`x/none: warning: directory does not exist.`, false, [2]int{1, 1}, `Directory "x/none" does not exist.`, false},
	{`x/none.proto: File not found.`, false, [2]int{1, 1}, `Import "x/none.proto" was not found.`, false},
	{`@: Import "x/none.proto" was not found or had errors.`, true, [2]int{}, ``, false},
	{`@:4:1: Import "x/none.proto" was not found or had errors.`, true, [2]int{4, 1}, `Import "x/none.proto" was not found or had errors.`, false},
	{`[libprotobuf WARNING google/protobuf/compiler/parser.cc:562] No syntax specified for the proto file: @. Please use 'syntax = "proto2";' or 'syntax = "proto3";' to specify a syntax version. (Defaulted to proto2 syntax.)`, true, [2]int{1, 1}, `No syntax specified. Please use 'syntax = "proto2";' or 'syntax = "proto3";' to specify a syntax version.`, false},
	{`@:6:10: The JSON camel-case name of field "a_b" conflicts with field "aB". This is not allowed in proto3.`, true, [2]int{6, 10}, `The JSON camel-case name of field "a_b" conflicts with field "aB". This is not allowed in proto3.`, false},
	{`@: The JSON camel-case name of field "a_b" conflicts with field "aB". This is not allowed in proto3.`, true, [2]int{1, 1}, `The JSON camel-case name of field "a_b" conflicts with field "aB". This is not allowed in proto3.`, false},
	{`@: "Foo" is not defined.`, true, [2]int{1, 1}, `"Foo" is not defined.`, false},
	{`@:9:4: "foo.Bar" seems to be defined in "x/bar.proto", which is not imported by "@".  To use it here, please add the necessary import.`, true, [2]int{9, 4}, `"foo.Bar" seems to be defined in "x/bar.proto", which is not imported by "@".  To use it here, please add the necessary import.`, false},
	{`@: "foo.Bar" seems to be defined in "x/bar.proto", which is not imported by "@". To use it here, please add the necessary import.`, true, [2]int{1, 1}, `"foo.Bar" seems to be defined in "x/bar.proto", which is not imported by "@". To use it here, please add the necessary import.`, false},
	{`@: Explicit default values are not allowed in proto3.`, true, [2]int{1, 1}, `Explicit default values are not allowed in proto3.`, false},
	{`@:8:20: Explicit default values are not allowed in proto3.`, true, [2]int{8, 20}, `Explicit default values are not allowed in proto3.`, false},
	{`@: Error while parsing option value for "foo": Message type "x.Y" has no field named "z".`, true, [2]int{1, 1}, `Error while parsing option value for "foo": Message type "x.Y" has no field named "z".`, false},
	{`@:8:20: Error while parsing option value for "foo": Message type "x.Y" has no field named "z".`, true, [2]int{8, 20}, `Error while parsing option value for "foo": Message type "x.Y" has no field named "z".`, false},
	{`protoc-gen-foo: program not found or is not executable`, false, [2]int{1, 1}, `protoc-gen-foo not found or is not executable.`, false},
	{`--foo_out: protoc-gen-foo: Plugin failed with status code 7.`, false, [2]int{1, 1}, `protoc-gen-foo failed with status code 7.`, false},
	{`--foo_out: d/a.proto: something: went wrong`, false, [2]int{1, 1}, `protoc-gen-foo: d/a.proto: something: went wrong`, false},
	{`panic: boom--foo_out: protoc-gen-foo: Plugin failed with status code 2.`, false, [2]int{1, 1}, `protoc-gen-foo failed with status code 2: panic: boom`, false},
	{`@: The first enum value must be zero in proto3.`, true, [2]int{1, 1}, `The first enum value must be zero in proto3.`, false},
	{`@:10:7: The first enum value must be zero in proto3.`, true, [2]int{10, 7}, `The first enum value must be zero in proto3.`, false},
	{`@:7:3: message: with: many: colons.`, true, [2]int{7, 3}, `message: with: many: colons.`, false},
	{`@:7:3: warning: something else.`, true, [2]int{7, 3}, `warning: something else.`, false},
	{`something nobody knows`, false, [2]int{1, 1}, `something nobody knows`, false},
	{`a:b:c:d`, false, [2]int{1, 1}, `a:b:c:d`, false},
	{`@:100:200: Expected ";".`, true, [2]int{100, 200}, `Expected ";".`, false},
	{`@:2:1: Expected ":" in http://host:80/.`, true, [2]int{2, 1}, `Expected ":" in http://host:80/.`, false},
	{`@: with a colon: and another: here`, true, [2]int{1, 1}, `with a colon: and another: here`, false},
	{`@:14:16: "x" is already defined in file "other.proto".`, true, [2]int{14, 16}, `"x" is already defined in file "other.proto".`, false},
}

type layout struct {
	name     string
	includes []string
	cwd      string // relative to the tree
	args     []string
	config   string // directory of the configuration file, - for none
}

// the tree: files in d, and files of the same names elsewhere
var names = []string{"a.proto", "aa.proto", "a.b.proto", "a-1.proto"}

var layouts = []layout{
	{"root", nil, "", nil, ""},
	{"argument", nil, "", []string{"d"}, ""},
	{"inside", nil, "d", nil, ""},
	{"parent argument", nil, "d/e", []string{".."}, ""},
	{"absolute argument", nil, "", []string{"ABS/d"}, ""},
	{"elsewhere", nil, "out", []string{"../d"}, ""},
	{"include of another directory", []string{"inc"}, "", nil, ""},
	{"include of the directory", []string{"d"}, "", nil, ""},
	{"both includes", []string{"inc", "d"}, "", []string{"d"}, ""},
	{"include dot", []string{"."}, "d", []string{"."}, ""},
	{"no configuration", nil, "", []string{"d"}, "-"},
	{"single file", nil, "", []string{"d/a.proto"}, ""},
	{"single file inside", nil, "d", []string{"./a.proto"}, ""},
	{"single file with include", []string{"inc"}, "out", []string{"../d/a.b.proto"}, ""},
}

type kase struct {
	Layout string
	Lines  []string
	Files  []string
	Allow  bool
}

func main() {
	core.Main(&core.Check{
		ID:    "P16",
		Level: "model_checking",
		Rule: "A case is a layout (include paths, working directory, argument), and the lines protoc prints: every single line shape for every possible name of every file, and all ordered pairs of shapes over two files; or a real erroneous file compiled with the real protoc, whose own output is read by the reference. " +
			"Non-trivial: a line is about a file.",
		Assumptions: []string{"protoc prints the name of a file relative to one of the include directories, or as given"},
		Run:         run,
	})
}

var srv *fake.Server

func run(w *core.W) {
	srv = fake.Start(w)
	fakeBin := fake.Bin()
	for li := range layouts {
		l := layouts[li]
		for si := range shapes {
			for _, n := range printed(l) {
				for _, allow := range []bool{false, true} {
					if allow && !shapes[si].unused {
						continue
					}
					n, si, allow := n, si, allow
					w.Case(kase{l.name, []string{shapes[si].line}, []string{n}, allow}, func(t *core.T) { lines(w, t, fakeBin, l, allow, []int{si}, []string{n}) })
				}
			}
		}
	}
	for li, l := range layouts {
		if !w.Thorough() && li != 0 && li != 5 && li != 8 && li != 11 {
			continue
		}
		l := l
		p := printed(l)
		for i := range shapes {
			for j := range shapes {
				for _, pair := range [][2]string{{p[0], p[1]}, {p[1], p[0]}, {p[0], p[0]}} {
					i, j, pair := i, j, pair
					w.Case(kase{l.name, []string{shapes[i].line, shapes[j].line}, pair[:], false}, func(t *core.T) { lines(w, t, fakeBin, l, false, []int{i, j}, pair[:]) })
				}
			}
		}
	}
	for _, l := range layouts {
		for fi := range faults {
			for _, name := range names {
				l, fi, name := l, fi, name
				if !w.Thorough() && name != "a.proto" && name != "aa.proto" {
					continue
				}
				w.Case(kase{l.name, []string{"real: " + faults[fi].name}, []string{name}, false}, func(t *core.T) { real(w, t, l, []int{fi}, []string{name}) })
			}
			for fj := range faults {
				if !w.Thorough() && (l.name != "root" && l.name != "both includes") {
					continue
				}
				l, fi, fj := l, fi, fj
				w.Case(kase{l.name, []string{"real: " + faults[fi].name, faults[fj].name}, names[:2], false}, func(t *core.T) { real(w, t, l, []int{fi, fj}, names[:2]) })
			}
		}
	}
}

// printed are the names that protoc may print.
func printed(l layout) []string {
	out := []string{"d/a.proto", "d/aa.proto", "d/a.b.proto", "d/a-1.proto", "ABS/d/a.proto",
		// files of other directories
		"inc/a.proto", "o/d/a.proto", "elsewhere/x.proto", "ba.proto"}
	if len(l.includes) > 0 {
		out = append(out, "a.proto", "aa.proto")
	}
	return out
}

func tree(w *core.W, l layout, allow bool) string {
	dir := w.Fresh("tree")
	files := map[string]string{"out/": "", "d/e/": "", "inc/": ""}
	if l.config == "" {
		c := "excludes: []\nprotoc:\n  allow_unused_imports: " + strconv.FormatBool(allow) + "\n"
		if len(l.includes) > 0 {
			c += "  includes: [" + strings.Join(l.includes, ", ") + "]\n"
		}
		files["prototool.yaml"] = c
	}
	for _, n := range names {
		files["d/"+n] = "syntax = \"proto3\";\npackage p" + strconv.Itoa(len(n)) + ";\n"
	}
	core.Write(dir, files)
	return dir
}

// includeDirs is the reference of the include directories of the files in d.
func includeDirs(l layout, dir string) []string {
	var out []string
	within := false
	for _, i := range core.Sorted(l.includes) {
		p := filepath.Join(dir, i)
		out = append(out, p)
		if p == dir || p == filepath.Join(dir, "d") {
			within = true
		}
	}
	out = append(out, core.ProtocWKT)
	if !within {
		if l.config == "-" {
			out = append(out, filepath.Join(dir, l.cwd))
		} else {
			out = append(out, dir)
		}
	}
	return out
}

func args(l layout, dir string) []string {
	var out []string
	for _, a := range l.args {
		out = append(out, strings.Replace(a, "ABS", dir, -1))
	}
	return out
}

// owner returns the path of the file with the given printed name, "" if it is not one that is compiled.
func owner(l layout, dir, name string) string {
	for _, n := range names {
		p := filepath.Join(dir, "d", n)
		if name == p {
			return p
		}
		for _, i := range includeDirs(l, dir) {
			if filepath.Join(i, name) == p {
				return p
			}
		}
	}
	return ""
}

// display is the reference of how a file is displayed.
func display(l layout, dir, path string) string {
	rel, err := filepath.Rel(filepath.Join(dir, l.cwd), path)
	core.Internal(err)
	return rel
}

type fail struct {
	file string
	l, c int
	msg  string
}

func format(l layout, dir string, fails []fail) []string {
	sort.SliceStable(fails, func(i, j int) bool {
		a, b := fails[i], fails[j]
		if a.file != b.file {
			return a.file < b.file
		}
		if a.l != b.l {
			return a.l < b.l
		}
		if a.c != b.c {
			return a.c < b.c
		}
		return a.msg < b.msg
	})
	var out []string
	for _, f := range fails {
		if len(l.args) == 1 && strings.HasSuffix(l.args[0], ".proto") {
			single := filepath.Join(dir, l.cwd, l.args[0])
			if f.file == "" || filepath.Join(dir, l.cwd, f.file) != single {
				continue
			}
		}
		name := f.file
		if name == "" {
			name = "<input>"
		}
		line, col := f.l, f.c
		if line == 0 {
			line = 1
		}
		if col == 0 {
			col = 1
		}
		out = append(out, fmt.Sprintf("%s:%d:%d:%s", name, line, col, f.msg))
	}
	return out
}

func toFail(l layout, dir string, s shape, name string) fail {
	f := fail{"", s.pos[0], s.pos[1], strings.Replace(s.msg, "@", name, -1)}
	if s.pos == [2]int{1, 1} {
		f.l, f.c = 0, 0
	}
	if s.file {
		f.file = name
		if o := owner(l, dir, name); o != "" {
			f.file = display(l, dir, o)
		}
	}
	return f
}

func lines(w *core.W, t *core.T, fakeBin string, l layout, allow bool, si []int, ns []string) {
	dir := tree(w, l, allow)
	_ = os.Setenv("PROTOTOOL_PROTOC_BIN_PATH", fakeBin)
	var stderr string
	var fails []fail
	for i, s := range si {
		name := strings.Replace(ns[i], "ABS", dir, -1)
		stderr += strings.Replace(shapes[s].line, "@", name, -1) + "\n"
		if shapes[s].msg == "" || allow && shapes[s].unused {
			continue
		}
		if shapes[s].file {
			w.Nontrivial(fmt.Sprint(l.name, si, ns))
		}
		fails = append(fails, toFail(l, dir, shapes[s], name))
	}
	done := make(chan core.Result, 1)
	go func() { done <- core.CLI(filepath.Join(dir, l.cwd), append([]string{"compile"}, args(l, dir)...)...) }()
	var res core.Result
	calls := 0
	for loop := true; loop; {
		select {
		case c := <-srv.C:
			calls++
			c.Reply(fake.Reply{Stderr: stderr, Exit: 1})
		case res = <-done:
			loop = false
		}
	}
	w.Count("transitions", int64(len(si)))
	w.Count("traces_validated_against_impl", 1)
	w.State(fmt.Sprint(l.name, si, ns, allow))
	if calls != 1 {
		t.Failf("calls", "protoc was called %d times: %q", calls, res.Out)
		return
	}
	if res.Code == 0 {
		t.Failf("exit", "exit code 0")
	}
	if len(fails) == 0 {
		return
	}
	want := format(l, dir, fails)
	got := res.Lines()
	if !core.Equal(got, want) {
		t.Failf("line", "protoc printed %q\ngot  %q\nwant %q", stderr, got, want)
	}
}

// faults are real errors, with their content.
type fault struct {
	name, body, other string
}

var faults = []fault{
	{"undefined", "message M {\n  Foo x = 1;\n}\n", ""},
	{"syntax error", "message M {\n  string x = 1\n}\n", ""},
	{"no closing", "message M {\n", ""},
	{"duplicate field number", "message M {\n  string x = 1;\n  string y = 1;\n}\n", ""},
	{"duplicate name", "message M {}\nmessage M {}\n", ""},
	{"json conflict", "message M {\n  string a_b = 1;\n  string aB = 2;\n}\n", ""},
	{"default in proto3", "message M {\n  string a = 1 [default = \"x\"];\n}\n", ""},
	{"enum not zero", "enum E {\n  A = 1;\n}\n", ""},
	{"missing import", "import \"none/none.proto\";\n", ""},
	{"unused import", "import \"google/protobuf/any.proto\";\n", ""},
	{"two unused imports", "import \"google/protobuf/any.proto\";\nimport \"google/protobuf/empty.proto\";\nmessage M {\n  google.protobuf.Empty e = 1;\n}\n", ""},
	{"recursive import", "import \"SELF\";\n", ""},
	{"not imported", "message M {\n  google.protobuf.Any a = 1;\n}\n", ""},
	{"option", "message M {\n  option (foo) = 1;\n}\n", ""},
	{"option value", "import \"google/protobuf/descriptor.proto\";\nmessage O {\n  string a = 1;\n}\nextend google.protobuf.MessageOptions {\n  O o = 50001;\n}\nmessage M {\n  option (o) = {b: 1};\n}\n", ""},
	{"groups", "message M {\n  repeated group G = 1 {}\n}\n", ""},
	{"import with error", "import \"inc/broken.proto\";\nmessage M {\n  inc.B b = 1;\n}\n", "syntax = \"proto3\";\npackage inc;\nmessage B {\n  Nope n = 1;\n}\n"},
	{"import of the same name with error", "import \"inc/a.proto\";\nmessage M {\n  inc.B b = 1;\n}\n", "syntax = \"proto3\";\npackage inc;\nmessage B {\n  Nope n = 1;\n}\n"},
	{"oneof repeated", "message M {\n  oneof o {\n    repeated string s = 1;\n  }\n}\n", ""},
	{"reserved", "message M {\n  reserved 1;\n  string s = 1;\n}\n", ""},
	{"service", "service S {\n  rpc A(X) returns (Y);\n}\n", ""},
	{"weird text", "message M { string s = \"a:b:c\"; }\n", ""},
	{"colon in a name", "message M {\n  string s = 1 [foo:bar:baz];\n}\n", ""},
	{"map key", "message M {\n  map<float, string> m = 1;\n}\n", ""},
	{"enum alias", "enum E {\n  A = 0;\n  B = 0;\n}\n", ""},
	{"enum scope", "enum E {\n  A = 0;\n}\nenum F {\n  A = 0;\n}\n", ""},
}

func real(w *core.W, t *core.T, l layout, fis []int, ns []string) {
	dir := tree(w, l, false)
	_ = os.Setenv("PROTOTOOL_PROTOC_BIN_PATH", core.ProtocBin)
	cwd := filepath.Join(dir, l.cwd)
	for i, fi := range fis {
		f := faults[fi]
		self := "d/" + ns[i]
		for _, inc := range includeDirs(l, dir) {
			if inc == filepath.Join(dir, "d") {
				self = ns[i]
			}
			if inc == dir {
				break
			}
		}
		body := "syntax = \"proto3\";\npackage p" + strconv.Itoa(len(ns[i])) + ";\n" + strings.Replace(f.body, "SELF", self, -1)
		core.Write(dir, map[string]string{"d/" + ns[i]: body})
		if f.other != "" {
			core.Write(dir, map[string]string{"inc/inc/broken.proto": f.other, "inc/inc/a.proto": f.other})
			if l.includes == nil || l.includes[0] != "inc" {
				core.Write(dir, map[string]string{"inc/broken.proto": f.other, "inc/a.proto": f.other})
			}
		}
	}
	w.Nontrivial(fmt.Sprint(l.name, fis, ns))
	// what protoc says for the same input
	var a []string
	for _, i := range includeDirs(l, dir) {
		a = append(a, "-I", i)
	}
	a = append(a, "-o", "/dev/null")
	for _, n := range core.Sorted(names) {
		a = append(a, filepath.Join(dir, "d", n))
	}
	c := exec.Command(core.ProtocBin, a...)
	c.Dir = cwd
	var stderr bytes.Buffer
	c.Stderr = &stderr
	err := c.Run()
	raw := strings.TrimSpace(stderr.String())
	dirArgs := args(l, dir)
	// only d is given to protoc, inc has its own invocation
	res := core.CLI(cwd, append([]string{"compile"}, dirArgs...)...)
	w.Count("transitions", 1)
	w.Count("traces_validated_against_impl", 1)
	w.State(fmt.Sprint(l.name, fis, ns))
	var fails []fail
	for _, line := range strings.Split(raw, "\n") {
		if line == "" {
			continue
		}
		if m := generic.FindStringSubmatch(line); m != nil {
			s := shape{file: true, msg: m[4]}
			s.pos[0], _ = strconv.Atoi(m[2])
			s.pos[1], _ = strconv.Atoi(m[3])
			s.msg = special(s.msg)
			fl := toFail(l, dir, s, m[1])
			fl.l, fl.c = s.pos[0], s.pos[1]
			fails = append(fails, fl)
			continue
		}
		if m := notFound.FindStringSubmatch(line); m != nil {
			fails = append(fails, fail{"", 0, 0, fmt.Sprintf("Import %q was not found.", m[1])})
			continue
		}
		if m := noPos.FindStringSubmatch(line); m != nil {
			fails = append(fails, toFail(l, dir, shape{file: true, pos: [2]int{1, 1}, msg: m[2]}, m[1]))
			continue
		}
		core.Internal(fmt.Errorf("protoc line %q", line))
	}
	want := format(l, dir, fails)
	got := res.Lines()
	// files outside of d that are compiled on their own
	var mine []string
	for _, g := range got {
		if strings.Contains(g, "inc/") && !contains(want, g) || strings.Contains(g, "Input is shadowed") {
			continue
		}
		mine = append(mine, g)
	}
	if len(l.args) == 0 {
		got = dedupe(mine)
		want = dedupe(want)
	}
	if !core.Equal(got, want) {
		t.Failf("real-line", "protoc printed %q (%v)\ngot  %q\nwant %q", raw, err, got, want)
	}
	if (raw != "" || err != nil) && res.Code == 0 {
		t.Failf("real-exit", "protoc fails (%v, %q), but prototool does not", err, raw)
	}
	if raw == "" && err == nil && res.Code != 0 && len(got) == len(res.Lines()) {
		t.Failf("real-exit", "protoc succeeds, prototool does not: %q", res.Out)
	}
}

func dedupe(a []string) []string {
	var out []string
	for i, s := range a {
		if i == 0 || a[i-1] != s {
			out = append(out, s)
		}
	}
	return out
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var (
	generic  = regexp.MustCompile(`^(.*?\.proto):(\d+):(\d+): (.*)$`)
	noPos    = regexp.MustCompile(`^(.*?\.proto): (.*)$`)
	notFound = regexp.MustCompile(`^(.*): File not found.$`)
	unused   = regexp.MustCompile(`^warning: Import (.*) is unused\.$`)
	recurse  = regexp.MustCompile(`^File recursively imports itself: (.*)$`)
)

func special(msg string) string {
	if m := unused.FindStringSubmatch(msg); m != nil {
		return fmt.Sprintf("Import %q was not used.", m[1])
	}
	if m := recurse.FindStringSubmatch(msg); m != nil {
		return fmt.Sprintf("File recursively imports itself %s.", m[1])
	}
	return msg
}
