//go:build go1.22

// P32: all is compile, format, generate and lint, each on what the one before left.
package main

import (
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
)

func main() {
	core.UseSystemProtoc()
	core.Main(&core.Check{
		ID:          "P32",
		Level:       "exploration",
		Rule:        "A case is a state of each of two directories (clean, not formatted, not as the style guide wants it, failing lint, failing to compile before or after formatting, not understood, combinations of them), the plugins and rules that are configured, the switches, an argument and a working directory. all is compared with the sequence of the commands that it stands for, run up to the first that fails. Non-trivial: what was printed and changed.",
		Assumptions: []string{"what the single commands do is the subject of their properties"},
		Run:         run,
	})
}

// states are contents of a file; @ is the name of the package, which is b.v1 for the first, and c.v1 for the other, and IMPORT an import and FIELD a field.
var states = []struct{ name, text string }{
	{"clean", "// A header.\n\nsyntax = \"proto3\";\n\npackage @.v1;\n\nIMPORTSoption csharp_namespace = \"U.V1\";\noption go_package = \"@v1\";\noption java_multiple_files = true;\noption java_outer_classname = \"FProto\";\noption java_package = \"com.@.v1\";\noption objc_class_prefix = \"TXX\";\noption php_namespace = \"U\\\\V1\";\n\n// A message.\nmessage M {\n  string one = 1;\nFIELD}\n"},
	{"not formatted", "// A header.\n\nsyntax = \"proto3\";\npackage @.v1;\nIMPORTSoption csharp_namespace = \"U.V1\";\noption java_multiple_files = true;\noption go_package = \"@v1\";\noption java_outer_classname = \"FProto\";\noption java_package = \"com.@.v1\";\noption objc_class_prefix = \"TXX\";\noption php_namespace = \"U\\\\V1\";\n\n// A message.\nmessage M {\n  string one = 1;\n\n\nFIELD}\n"},
	{"not fixed", "syntax = \"proto3\";\n\npackage @.v1;\n\nIMPORTSoption go_package = \"other\";\noption java_package = \"org.other.@\";\n\n// A message.\nmessage M {\n  string one = 1;\nFIELD}\n"},
	{"lint", "// A header.\n\nsyntax = \"proto3\";\n\npackage @.v1;\n\nIMPORTSmessage M {\n  string One = 1;\nFIELD}\n"},
	{"lint and not formatted", "// Other header.\n\nsyntax = \"proto3\"; package @.v1;\nIMPORTSmessage M {\n  string One = 1;\n FIELD}\n"},
	{"not compiling", "// A header.\n\nsyntax = \"proto3\"; package @.v1;\n\nIMPORTSmessage M { None n = 1;\nFIELD}\n"},
	{"warning", "// A header.\n\nsyntax = \"proto3\"; package @.v1;\nimport \"google/protobuf/any.proto\";\nIMPORTSmessage M { string one = 1;\nFIELD}\n"},
	{"not understood", "// A header.\n\nsyntax = \"proto3\"; package @.v1;\nimport \"google/protobuf/descriptor.proto\";\nIMPORTSmessage O { string s = 1; }\nextend google.protobuf.MessageOptions { O o@ = 50000; }\nmessage M {\n  option (o@) = { s < > };\n string one = 1;\nFIELD}\n"},
	{"proto2", "syntax = \"proto2\";\npackage @.v1;\nIMPORTSmessage M { required string one = 1;\nextensions 100 to 200;\n}\n"},
	{"none", ""},
}

var generates = []struct{ name, text string }{
	{"none", ""},
	{"layout", "generate:\n  plugins:\n    - name: descriptor_set\n      output: ../gen/set\n      file_suffix: bin\n      include_source_info: true\n      include_imports: true\n    - name: java\n      output: ../gen/java\n"},
	{"failing", "generate:\n  plugins:\n    - name: cpp\n      output: ../gen/cpp\n    - name: nosuchplugin\n      output: ../gen/none\n"},
	{"unwritable", "generate:\n  plugins:\n    - name: cpp\n      output: a/file\n"},
}

var lints = []struct{ name, text string }{
	{"uber2", "lint:\n  group: uber2\n  file_header:\n    path: header.txt\n"},
	{"names", "lint:\n  rules:\n    no_default: true\n    add:\n      - MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE\n"},
	{"none", "lint:\n  group: empty\n"},
}

type kase struct {
	First, Second  string
	Generate, Lint string
	Imports        bool
	Flags          []string
	Dir, Arg       string
}

func content(state, pkg string, imports bool) string {
	text := ""
	for _, s := range states {
		if s.name == state {
			text = s.text
		}
	}
	imp, field := "", ""
	if imports {
		imp, field = "import \"b/v1/f.proto\";\n", "  b.v1.M two = 2;\n"
		if state == "clean" || state == "not fixed" || state == "lint" {
			imp += "\n"
		}
	}
	return strings.NewReplacer("@", pkg, "IMPORTS", imp, "FIELD", field).Replace(text)
}

var switches = []string{"--fix", "--disable-format", "--disable-lint", "--json"}

func run(w *core.W) {
	for _, first := range states {
		for _, second := range states {
			for _, g := range generates {
				for _, l := range lints {
					for _, imports := range []bool{false, true} {
						if !w.Thorough() && (l.name == "names" && g.name != "layout" || imports && (l.name != "uber2" || g.name == "unwritable") || l.name == "none" && g.name != "layout") {
							continue
						}
						for mask := 0; mask < 1<<uint(len(switches)); mask++ {
							var flags []string
							for i, s := range switches {
								if mask>>uint(i)&1 == 1 {
									flags = append(flags, s)
								}
							}
							if !w.Thorough() && mask >= 8 && mask != 9 {
								continue
							}
							for _, at := range [][2]string{{".", ""}, {".", "b"}, {".", "c/v1/f.proto"}, {"c", "../b/v1"}, {"..", "w"}} {
								if at[0]+at[1] != "." && (mask > 1 || !w.Thorough() && (mask != 1 || g.name != "layout" || imports)) {
									continue
								}
								k := kase{first.name, second.name, g.name, l.name, imports, flags, at[0], at[1]}
								conf := "protoc:\n  allow_unused_imports: " + fmt.Sprint(l.name == "names") + "\n" + g.text + l.text
								w.Case(k, func(t *core.T) { decide(w, t, k, conf) })
							}
						}
					}
				}
			}
		}
	}
}

func prepare(w *core.W, k kase, conf string) string {
	root := w.Fresh("t")
	files := map[string]string{"w/prototool.yaml": conf, "w/header.txt": "A header.\n", "w/a/file": "a file\n"}
	if s := content(k.First, "b", false); s != "" {
		files["w/b/v1/f.proto"] = s
	}
	if s := content(k.Second, "c", k.Imports); s != "" {
		files["w/c/v1/f.proto"] = s
	} else {
		files["w/c/v1/"] = ""
	}
	core.Write(root, files)
	return root
}

// result is what can be seen of one or several commands.
type result struct {
	out  string
	code int
	tree map[string]string
}

func decide(w *core.W, t *core.T, k kase, conf string) {
	has := func(s string) bool {
		for _, f := range k.Flags {
			if f == s {
				return true
			}
		}
		return false
	}
	var arg []string
	if k.Arg != "" {
		arg = []string{k.Arg}
	}
	if has("--json") {
		arg = append(arg, "--json")
	}
	steps := [][]string{{"compile"}}
	if !has("--disable-format") {
		f := []string{"format", "-w"}
		if has("--fix") {
			f = append(f, "--fix")
		}
		steps = append(steps, f)
	}
	steps = append(steps, []string{"generate"})
	if !has("--disable-lint") {
		steps = append(steps, []string{"lint"})
	}
	root := prepare(w, k, conf)
	var want result
	at := 0
	for at = 0; at < len(steps); at++ {
		r := core.CLI(path.Join(root, "w", k.Dir), append(append([]string(nil), steps[at]...), arg...)...)
		w.Count("runs", 1)
		want.out += r.Out
		want.code = r.Code
		if r.Code != 0 {
			break
		}
	}
	want.tree = core.Snapshot(root)
	root = prepare(w, k, conf)
	before := core.Snapshot(root)
	args := append(append([]string{"all"}, k.Flags...), k.Arg)
	if k.Arg == "" {
		args = args[:len(args)-1]
	}
	r := core.CLI(path.Join(root, "w", k.Dir), args...)
	w.Count("runs", 1)
	got := result{r.Out, r.Code, core.Snapshot(root)}
	changed := core.DiffSnapshots(before, got.tree)
	w.Nontrivial(fmt.Sprint(got.out, got.code, changed, at))
	if got.out != want.out || got.code != want.code {
		t.Failf("printed", "%q: exit code %d and\n%s\ninstead of exit code %d of step %d and\n%s", args, got.code, got.out, want.code, at, want.out)
	}
	for _, d := range core.DiffSnapshots(want.tree, got.tree) {
		t.Failf("tree", "%q leaves %s:\n%s\ninstead of\n%s", args, d, clip(got.tree[d[1:]]), clip(want.tree[d[1:]]))
	}
	// if it succeeded, everything is as it should be, and stays so
	if got.code == 0 {
		again := []([]string){{"compile"}, {"all"}}
		if !has("--disable-format") {
			again = append(again, []string{"format", "-l"})
			if has("--fix") {
				again[1] = append(again[1], "--fix")
				again[2] = append(again[2], "--fix")
			}
		} else {
			again[1] = append(again[1], "--disable-format")
		}
		if !has("--disable-lint") {
			again = append(again, []string{"lint"})
		} else {
			again[1] = append(again[1], "--disable-lint")
		}
		for _, a := range again {
			r := core.CLI(path.Join(root, "w", k.Dir), append(a, arg...)...)
			w.Count("runs", 1)
			if r.Code != 0 || r.Out != "" {
				t.Failf("again", "%q after %q: exit code %d: %s", a, args, r.Code, r.Out)
			}
		}
		for _, d := range core.DiffSnapshots(got.tree, core.Snapshot(root)) {
			t.Failf("again", "all again after %q changes %s", args, d)
		}
	}
	_ = os.Chdir(w.Scratch)
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400]
	}
	return s
}
