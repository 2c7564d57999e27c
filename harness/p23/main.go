//go:build go1.22

// P23: failures are printed in the form asked for.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/uber/prototool/internal/verifmc/core"
)

func main() {
	core.UseSystemProtoc()
	core.Main(&core.Check{
		ID:          "P23",
		Level:       "exploration",
		Rule:        "A case is a kind of failures (of protoc, with every kind of text and with and without file and position; of lint; of format -l; of break check), a command that meets them, an argument and working directory, and a range of the formats: all sequences of up to three (thorough: four) of the five fields, spellings, formats that name something else, the default and JSON, each with and without --debug for the shortest. Non-trivial: the failures printed, and the format.",
		Assumptions: []string{"which failures there are is the subject of P09, P14, P16 and P28"},
		Run:         run,
	})
}

// record is a failure.
type record struct {
	Filename string `json:"filename"`
	Line     int    `json:"line"`
	Column   int    `json:"column"`
	LintID   string `json:"lint_id"`
	Message  string `json:"message"`
}

// kind is a way to fail.
type kind struct {
	name  string
	files map[string]string
	// says is what protoc says, if it is a stand-in
	says     string
	records  []record
	commands []string
}

const ok = "syntax = \"proto3\";\n\npackage foo;\n\nmessage A {\n  string s = 1;\n}\n"

func messages() []string {
	return []string{
		"simple.", "with: colons: 1:2: x", "\"quoted\" and \\ back \\n", "%s %d %% %!v(MISSING)", "<html> & \u00fcn\u00ef\u2028x",
		"tab\there", "double  blank", strings.Repeat("long ", 1000) + "x", "a,b;c|d", "{\"json\": [1]}", "\u00ff\x01\x7f", "'single' `back`", "$HOME ${x} $(y)", "d/a.proto:1:1:nested", "<input>:1:1:x", "-", "0", "null",
	}
}

func kinds() []kind {
	all := []string{"compile", "lint", "format", "format -l", "format -d", "format -w", "format --fix -l", "all", "all --disable-lint", "all --disable-format", "generate", "descriptor-set", "descriptor-set --tmp", "descriptor-set -o out.bin", "break descriptor-set -o out.bin", "break check -f old.bin", "x inspect packages", "x inspect package-deps --name foo", "x inspect package-importers --name foo", "grpc --address 127.0.0.1:1 --method foo.S/M --data {}"}
	real := kind{name: "real", commands: all, files: map[string]string{
		"d/a.proto": "syntax = \"proto3\";\n\npackage foo;\n\nmessage A {\n  Foo s = 1;\n  Bar t = 2;\n}\n",
		"d/b.proto": ok,
	}, records: []record{{"d/a.proto", 6, 3, "", "\"Foo\" is not defined."}, {"d/a.proto", 7, 3, "", "\"Bar\" is not defined."}}}
	said := kind{name: "said", commands: all, files: map[string]string{"d/a.proto": ok, "d/b.proto": ok}}
	var lines []string
	for i, m := range messages() {
		for _, f := range []string{"d/b.proto", "d/a.proto"} {
			lines = append(lines, fmt.Sprintf("%s:%d:%d: %s", f, 40-i, 1+i%3, m))
			said.records = append(said.records, record{f, 40 - i, 1 + i%3, "", m})
		}
		if strings.Contains(m, ":1:1:") {
			continue // this would be a file and a position
		}
		lines = append(lines, "nothing "+m)
		said.records = append(said.records, record{"", 0, 0, "", "nothing " + m})
	}
	said.says = strings.Join(lines, "\n") + "\n"
	// places are about files and positions that are missing
	places := kind{name: "places", commands: all, files: said.files}
	places.says = "d/b.proto:7:1: z\nd/b.proto:10:1: a\nd/b.proto:7:10: y\nd/b.proto:7:9: x\nsomething\nd/a.proto: of the whole file\nd/a.proto:1:1: at the start\nd/a.proto:1:1: also at the start\n"
	places.records = []record{{"d/b.proto", 7, 1, "", "z"}, {"d/b.proto", 10, 1, "", "a"}, {"d/b.proto", 7, 10, "", "y"}, {"d/b.proto", 7, 9, "", "x"}, {"", 0, 0, "", "something"}, {"d/a.proto", 0, 0, "", "of the whole file"}, {"d/a.proto", 1, 1, "", "at the start"}, {"d/a.proto", 1, 1, "", "also at the start"}}
	lint := kind{name: "lint", commands: []string{"lint", "all --disable-format"}, files: map[string]string{
		"prototool.yaml": "lint:\n  rules:\n    no_default: true\n    add:\n      - MESSAGE_NAMES_CAMEL_CASE\n      - MESSAGE_NAMES_CAPITALIZED\n      - MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE\n      - FILE_OPTIONS_REQUIRE_GO_PACKAGE\n",
		"d/a.proto":      "syntax = \"proto3\";\n\npackage foo;\n\nmessage aa_b {\n  string aB = 1;\n}\n",
		"d/b.proto":      "syntax = \"proto3\";\n\npackage foo;\n\noption go_package = \"x\";\n\nmessage B {\n  string aB = 1;\n}\n",
		"d/c.proto":      "syntax = \"proto3\";\n\npackage foo;\n\noption go_package = \"x\";\n\nmessage C {\n}\n",
	}, records: []record{
		{"d/a.proto", 0, 0, "FILE_OPTIONS_REQUIRE_GO_PACKAGE", `File option "go_package" is required.`},
		{"d/a.proto", 5, 1, "MESSAGE_NAMES_CAMEL_CASE", `Message name "aa_b" must be CamelCase.`},
		{"d/a.proto", 5, 1, "MESSAGE_NAMES_CAPITALIZED", `Message name "aa_b" must be capitalized.`},
		{"d/a.proto", 6, 3, "MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE", `Field name "aB" must be lower_snake_case.`},
		{"d/b.proto", 8, 3, "MESSAGE_FIELD_NAMES_LOWER_SNAKE_CASE", `Field name "aB" must be lower_snake_case.`},
	}}
	format := kind{name: "format", commands: []string{"format -l", "format --fix -l"}, files: map[string]string{
		"d/a.proto": "syntax = \"proto3\";\n\npackage foo;\nmessage A {\n}\n",
		"d/b.proto": "syntax = \"proto3\";\npackage foo;\n",
	}, records: []record{{"d/a.proto", 0, 0, "FORMAT_DIFF", "Format returned a diff."}, {"d/b.proto", 0, 0, "FORMAT_DIFF", "Format returned a diff."}}}
	brk := kind{name: "break", commands: []string{"break check -f old.bin"}, files: map[string]string{
		"d/a.proto": "syntax = \"proto3\";\n\npackage foo;\n\nmessage C {\n}\n",
	}, records: []record{{"", 0, 0, "ENUMS_NOT_DELETED", `Enum "foo.E" was deleted.`}, {"", 0, 0, "MESSAGES_NOT_DELETED", `Message "foo.A" was deleted.`}}}
	// protoc accepts this, the parser of prototool does not
	angle := "syntax = \"proto3\";\n\npackage foo;\n\nimport \"google/protobuf/descriptor.proto\";\n\nmessage @ {\n  @ s = 1;\n}\n\nextend google.protobuf.MessageOptions {\n  @ o@ = 50000;\n}\n\nmessage M@ {\n  option (o@) = { s < > };\n}\n"
	parse := kind{name: "parse", commands: []string{"lint", "format", "format -l", "format -d", "format -w", "format --fix -l", "all", "all --disable-format", "all --disable-lint", "lint --generate-ignores"}, files: map[string]string{
		"d/a.proto": ok,
		"d/b.proto": strings.Replace(angle, "@", "B", -1),
		"d/c.proto": strings.Replace(strings.Replace(ok, "A", "C", -1), "1;", "2;", 1),
	}}
	// what was committed does not compile
	git := kind{name: "git", commands: []string{"break check --git-branch old"}, files: map[string]string{"d/a.proto": ok, "d/b.proto": strings.Replace(ok, "A", "B", -1)}, records: []record{
		{"d/a.proto", 6, 3, "", "\"Foo\" is not defined."}, {"d/a.proto", 7, 3, "", "\"Bar\" is not defined."},
	}}
	return []kind{real, said, places, lint, format, brk, parse, git}
}

var fields = []string{"filename", "line", "column", "id", "message"}

// formats are all sequences of fields.
func formats(depth int) []string {
	var out []string
	level := []string{""}
	for i := 0; i < depth; i++ {
		var next []string
		for _, l := range level {
			for _, f := range fields {
				next = append(next, strings.TrimPrefix(l+":"+f, ":"))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

var invalid = []string{":", "filename:", ":filename", "filename::line", "filename,line", "file", "filename:lines", " filename", "filename: line", "filename:message:x", "lint_id", "col", "filename:line:column:id:message:", "%s", "1"}

// line is what a record looks like, "" if it has nothing of what is asked for.
func line(format string, r record) string {
	var parts []string
	for _, f := range strings.Split(strings.ToLower(format), ":") {
		switch f {
		case "filename":
			if r.Filename == "" {
				r.Filename = "<input>"
			}
			parts = append(parts, r.Filename)
		case "line":
			if r.Line == 0 {
				r.Line = 1
			}
			parts = append(parts, strconv.Itoa(r.Line))
		case "column":
			if r.Column == 0 {
				r.Column = 1
			}
			parts = append(parts, strconv.Itoa(r.Column))
		case "id":
			if r.LintID != "" {
				parts = append(parts, r.LintID)
			}
		case "message":
			if r.Message != "" {
				parts = append(parts, r.Message)
			}
		}
	}
	return strings.Join(parts, ":")
}

type kase struct {
	Kind    string
	Command string
	Arg     string
	Cwd     string
	Formats string
}

// hasJSON are the commands that have --json.
func hasJSON(command string) bool {
	for _, c := range []string{"x inspect", "grpc", "files"} {
		if strings.HasPrefix(command, c) {
			return false
		}
	}
	return true
}

// oldSet is the descriptor set of the state before.
func oldSet(w *core.W) []byte {
	dir := w.Scratch + "/old"
	core.Write(dir, map[string]string{"d/a.proto": "syntax = \"proto3\";\n\npackage foo;\n\nmessage A {\n}\n\nmessage C {\n}\n\nenum E {\n  E_INVALID = 0;\n}\n"})
	out, err := exec.Command("/usr/bin/protoc", "-I", dir, "-o", dir+"/old.bin", dir+"/d/a.proto").CombinedOutput()
	if err != nil {
		core.Internal(fmt.Errorf("%v: %s", err, out))
	}
	data, err := os.ReadFile(dir + "/old.bin")
	core.Internal(err)
	return data
}

func run(w *core.W) {
	old := oldSet(w)
	depth := 3
	if w.Thorough() {
		depth = 4
	}
	all := formats(depth)
	all = append(all, "", "filename:line:column:id:message", "message:id:column:line:filename", "FILENAME:Line:cOLUMN:ID:Message", "filename:filename:filename:filename:filename:filename", strings.Repeat("message:", 50)+"line")
	var chunks [][]string
	for len(all) > 0 {
		n := min(40, len(all))
		chunks = append(chunks, all[:n])
		all = all[n:]
	}
	for _, k := range kinds() {
		for _, command := range k.commands {
			for _, arg := range []string{"", "d", "d/a.proto", "."} {
				for _, cwd := range []string{".", "d", ".."} {
					for ci, chunk := range chunks {
						if !w.Thorough() && (cwd != "." && ci > 0 || ci%4 != 0 && arg != "d" && arg != "d/a.proto") {
							continue
						}
						k, command, arg, cwd, chunk := k, command, arg, cwd, chunk
						if (strings.HasPrefix(command, "format") || strings.HasPrefix(command, "all")) && k.name == "format" && strings.HasPrefix(arg, "d/") {
							// only the file is looked at
							var rs []record
							for _, r := range k.records {
								if r.Filename == "d/a.proto" {
									rs = append(rs, r)
								}
							}
							k.records = rs
						}
						w.Case(kase{k.name, command, arg, cwd, chunk[0] + " ..."}, func(t *core.T) { one(w, t, k, command, arg, cwd, chunk, ci == 0, old) })
					}
				}
			}
		}
	}
}

func one(w *core.W, t *core.T, k kind, command, arg, cwd string, chunk []string, first bool, old []byte) {
	root := w.Fresh("t") + "/w"
	files := map[string]string{"prototool.yaml": "lint:\n  group: empty\n"}
	for n, c := range k.files {
		files[n] = c
	}
	core.Write(root, files)
	if k.says != "" {
		core.Write(root, map[string]string{"../bin/says": k.says, "../bin/protoc": "#!/bin/sh\ncat '" + path.Dir(root) + "/bin/says' >&2\nexit 1\n"})
		core.Internal(os.Chmod(path.Dir(root)+"/bin/protoc", 0755))
		core.Internal(os.Setenv("PROTOTOOL_PROTOC_BIN_PATH", path.Dir(root)+"/bin/protoc"))
		defer core.UseSystemProtoc()
	}
	work := path.Join(root, cwd)
	if k.name == "git" {
		if cwd != "." || strings.HasSuffix(arg, ".proto") {
			return
		}
		good := files["d/a.proto"]
		core.Write(root, map[string]string{"d/a.proto": "syntax = \"proto3\";\n\npackage foo;\n\nmessage A {\n  Foo s = 1;\n  Bar t = 2;\n}\n"})
		out, err := exec.Command("/bin/sh", "-c", "cd '"+root+"' && git init -q . && git checkout -q -b old && git add -A && git -c user.name=x -c user.email=x@x commit -q -m x").CombinedOutput()
		if err != nil {
			core.Internal(fmt.Errorf("%v: %s", err, out))
		}
		core.Write(root, map[string]string{"d/a.proto": good})
	}
	core.Internal(os.WriteFile(path.Join(work, "old.bin"), old, 0644))
	target := ""
	if arg != "" {
		target = path.Join(root, arg)
	} else {
		target = work
		if cwd == ".." {
			return // the configuration would be another one
		}
	}
	rel := func(p string) string {
		r, err := filepathRel(work, p)
		core.Internal(err)
		return r
	}
	args := strings.Split(command, " ")
	if arg != "" {
		args = append(args, rel(target))
	}
	// what is printed: of the file, or of everything
	var want []record
	for _, r := range k.records {
		if r.Filename != "" {
			if strings.HasSuffix(arg, ".proto") && r.Filename != arg {
				continue
			}
			r.Filename = rel(path.Join(root, r.Filename))
		} else if strings.HasSuffix(arg, ".proto") && k.name != "break" {
			continue
		}
		want = append(want, r)
	}
	sort.SliceStable(want, func(i, j int) bool {
		a, b := want[i], want[j]
		switch {
		case a.Filename != b.Filename:
			return a.Filename < b.Filename
		case a.Line != b.Line:
			return a.Line < b.Line
		case a.Column != b.Column:
			return a.Column < b.Column
		case a.LintID != b.LintID:
			return a.LintID < b.LintID
		}
		return a.Message < b.Message
	})
	snap := core.Snapshot(root)
	delete(snap, "old.bin")
	check := func(r core.Result, what []string, format string) {
		w.Count("runs", 1)
		if r.Code == 0 {
			t.Failf("exit code", "%q: exit code 0: %.300s", what, r.Out)
		}
		if r.Err != "" && k.name == "real" && format != "debug" {
			t.Failf("stderr", "%q: standard error: %.300s", what, r.Err)
		}
	}
	if k.name == "parse" {
		if strings.HasSuffix(arg, ".proto") {
			return // whether others matter is the subject of P02
		}
		for _, a := range [][]string{args, append(append([]string{}, args...), "--json"), append(append([]string{}, args...), "--error-format", "id")} {
			r := core.CLI(work, a...)
			check(r, a, "debug")
			if !strings.Contains(r.Out, "b.proto:16:") || strings.Contains(r.Out, "c.proto") {
				t.Failf("parse", "%q does not say which file cannot be parsed: %s", a, r.Out)
			}
			w.Nontrivial(fmt.Sprint(k.name, a, cwd))
		}
		return
	}
	// text
	for _, format := range chunk {
		if strings.HasPrefix(command, "break check") && format != "" {
			continue // there is no such flag
		}
		a := append([]string{}, args...)
		if format != "" {
			a = append(a, "--error-format", format)
		}
		f := format
		if f == "" {
			f = "filename:line:column:message"
			if k.name == "break" {
				f = "message"
			}
		}
		r := core.CLI(work, a...)
		check(r, a, format)
		var lines []string
		for _, rec := range want {
			if l := line(f, rec); l != "" {
				lines = append(lines, l)
			}
		}
		var got []string
		for _, l := range strings.Split(r.Out, "\n") {
			if l != "" {
				got = append(got, l)
			}
		}
		same := len(got) == len(lines)
		for i := 0; same && i < len(got); i++ {
			same = got[i] == lines[i] || strings.TrimSuffix(got[i], ":") == lines[i] // a colon before nothing is left open
		}
		if !same {
			t.Failf("text", "%q printed\n%.1500s\ninstead of\n%.1500s", a, strings.Join(got, "\n"), strings.Join(lines, "\n"))
		}
		if len(r.Out) > 0 && !strings.HasSuffix(r.Out, "\n") {
			t.Failf("text", "%q: the last line does not end", a)
		}
		w.Nontrivial(fmt.Sprint(k.name, command, arg, cwd, format))
	}
	if !first {
		return
	}
	for _, format := range invalid {
		if strings.HasPrefix(command, "break check") {
			break // there is no such flag
		}
		a := append(append([]string{}, args...), "--error-format", format)
		r := core.CLI(work, a...)
		check(r, a, "debug")
		if strings.Count(strings.TrimSpace(r.Out), "\n") > 0 && k.name != "break" && !strings.Contains(command, "format -") {
			t.Failf("invalid", "%q printed %.300s", a, r.Out)
		}
		if r.Out == "" {
			t.Failf("invalid", "%q printed nothing", a)
		}
	}
	// JSON
	a := append(append([]string{}, args...), "--json")
	r := core.CLI(work, a...)
	check(r, a, "json")
	if hasJSON(command) {
		dec := json.NewDecoder(bytes.NewReader([]byte(r.Out)))
		dec.DisallowUnknownFields()
		n := 0
		for ; ; n++ {
			var rec record
			err := dec.Decode(&rec)
			if err == io.EOF {
				break
			}
			if err != nil {
				t.Failf("json", "%q: %v: %.300s", a, err, r.Out)
				break
			}
			if n < len(want) && rec != want[n] && utf8.ValidString(want[n].Message) {
				t.Failf("json", "%q: %+v instead of %+v", a, rec, want[n])
			}
		}
		if n != len(want) || strings.Count(r.Out, "\n") != n {
			t.Failf("json", "%q: %d records in %d lines instead of %d", a, n, strings.Count(r.Out, "\n"), len(want))
		}
		// JSON is JSON whatever the format
		if !strings.HasPrefix(command, "break check") {
			if r2 := core.CLI(work, append(a, "--error-format", "id:line")...); r2.Out != r.Out || r2.Code != r.Code {
				t.Failf("json", "%q with --error-format id:line: %d: %.300s", a, r2.Code, r2.Out)
			}
		}
	}
	// debug
	plain, debug := core.CLI(work, args...), core.CLI(work, append(append([]string{}, args...), "--debug")...)
	check(debug, args, "debug")
	if plain.Out != debug.Out || plain.Code != debug.Code {
		t.Failf("debug", "%q with --debug: %d %.300s\ninstead of: %d %.300s", args, debug.Code, debug.Out, plain.Code, plain.Out)
	}
	now := core.Snapshot(root)
	delete(now, "old.bin")
	if d := core.DiffSnapshots(snap, now); len(d) != 0 && k.name != "format" && cwd == "." {
		t.Failf("changed", "%q: %v", args, d)
	}
}

func filepathRel(base, target string) (string, error) {
	b, t := strings.Split(path.Clean(base), "/"), strings.Split(path.Clean(target), "/")
	for len(b) > 0 && len(t) > 0 && b[0] == t[0] {
		b, t = b[1:], t[1:]
	}
	out := strings.Repeat("../", len(b)) + strings.Join(t, "/")
	return path.Clean(out), nil
}
