//go:build go1.22

// P10: break check accepts every change that is not a documented breaking change.
package main

import (
	"path/filepath"
	"sort"

	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/schema"
)

func main() {
	core.Main(&core.Check{
		ID:    "P10",
		Level: "exploration",
		Rule: "A case is a sequence of at most two (thorough: three) compatible edits of the base schema (additions, moves of definitions between files and directories of one package, reordering, renaming and merging of files, options, comments, reserved ranges, aliases), " +
			"checked with the real break check against the saved state of the base, with and without beta packages; non-trivial: the rendered sources differ from the base.",
		Assumptions: []string{"protoc 3.21.12"},
		Run:         run,
	})
}

type kase struct {
	Syntax string
	Edits  []string
	Beta   bool
	Drop   string `json:",omitempty"`
}

func run(w *core.W) {
	core.UseSystemProtoc()
	drops(w)
	for _, syntax := range []string{"proto3", "proto2"} {
		base := schema.Base(syntax)
		state := filepath.Join(w.Scratch, "state-"+syntax+".bin")
		dir := w.Fresh("base")
		core.Write(dir, base.Render())
		core.Write(dir, map[string]string{"prototool.yaml": "{}\n"})
		if r := core.CLI(dir, "break", "descriptor-set", "-o", state); r.Code != 0 {
			w.Case(kase{Syntax: syntax}, func(t *core.T) { t.Failf("state", "break descriptor-set failed: %s", r.Out) })
			continue
		}
		var edits []schema.Edit
		for _, e := range schema.Edits(base, nil) {
			if e.Compat {
				edits = append(edits, e)
			}
		}
		check(w, base, state, false)
		for _, e := range edits {
			check(w, base, state, false, e)
			check(w, base, state, true, e)
		}
		if syntax == "proto2" && !w.Thorough() {
			continue
		}
		seen := map[string]bool{}
		depth(w, base, base, state, edits, nil, w.Pick(2, 3), seen)
	}
}

func depth(w *core.W, base, cur *schema.Schema, state string, edits []schema.Edit, prefix []schema.Edit, left int, seen map[string]bool) {
	if left == 0 {
		return
	}
	for _, e := range edits {
		s := cur.Clone()
		if !e.Apply(s) || !s.Valid() {
			continue
		}
		k := s.Key()
		if seen[k] {
			continue
		}
		seen[k] = true
		l := append(append([]schema.Edit{}, prefix...), e)
		if len(l) > 1 {
			check(w, base, state, true, l...)
		}
		depth(w, base, s, state, edits, l, left-1, seen)
	}
}

func check(w *core.W, base *schema.Schema, state string, beta bool, edits ...schema.Edit) {
	var names []string
	for _, e := range edits {
		names = append(names, e.Name)
	}
	w.Case(kase{Syntax: base.Syntax, Edits: names, Beta: beta}, func(t *core.T) {
		s := base.Clone()
		for _, e := range edits {
			if !e.Apply(s) {
				return
			}
		}
		if !s.Valid() {
			return
		}
		if want := schema.Diff(base, s, schema.Options{IncludeBeta: true}); len(want) > 0 {
			// two edits can undo the compatibility of each other, which is P09's subject
			return
		}
		if len(edits) > 0 {
			w.Nontrivial(s.Key())
		}
		dir := w.Fresh("to")
		core.Write(dir, s.Render())
		conf := "{}\n"
		if beta {
			conf = "break:\n  include_beta: true\n"
		}
		core.Write(dir, map[string]string{"prototool.yaml": conf})
		r := core.CLI(dir, "break", "check", "-f", state)
		w.Count("checked", 1)
		if r.Code != 0 || r.Out != "" {
			t.Failf("false-alarm", "exit code %d for a compatible change, output:\n%s", r.Code, r.Out)
		}
	})
}

// drops: the last use of an import of something outside of the checked directory disappears.
func drops(w *core.W) {
	type variant struct {
		name     string
		from, to map[string]string
	}
	head := "syntax = \"proto3\";\n\npackage foo.v1;\n\n"
	beta := "syntax = \"proto3\";\n\npackage foo.v1beta1;\n\n"
	anno := "syntax = \"proto3\";\n\npackage ann.v1;\n\nimport \"google/protobuf/descriptor.proto\";\n\nextend google.protobuf.MethodOptions { string ann = 50000; }\n"
	vs := []variant{
		{"well-known type used by a beta package only",
			map[string]string{"a.proto": head + "message M {}\n", "b.proto": beta + "import \"google/protobuf/timestamp.proto\";\nmessage Z { google.protobuf.Timestamp t = 1; }\n"},
			map[string]string{"a.proto": head + "message M {}\n", "b.proto": beta + "message Z {}\n"}},
		{"one of two well-known types used by a beta package only",
			map[string]string{"a.proto": head + "import \"google/protobuf/duration.proto\";\nmessage M { google.protobuf.Duration d = 1; }\n", "b.proto": beta + "import \"google/protobuf/timestamp.proto\";\nmessage Z { google.protobuf.Timestamp t = 1; }\n"},
			map[string]string{"a.proto": head + "import \"google/protobuf/duration.proto\";\nmessage M { google.protobuf.Duration d = 1; }\n", "b.proto": beta + "message Z {}\n"}},
		{"method option of an included directory",
			map[string]string{"a.proto": head + "import \"ann/v1/ann.proto\";\nmessage M {}\nservice S { rpc A(M) returns (M) { option (ann.v1.ann) = \"x\"; } }\n", "../inc/ann/v1/ann.proto": anno},
			map[string]string{"a.proto": head + "message M {}\nservice S { rpc A(M) returns (M); }\n", "../inc/ann/v1/ann.proto": anno}},
	}
	for _, v := range vs {
		v := v
		w.Case(kase{Drop: v.name}, func(t *core.T) {
			w.Nontrivial(v.name)
			var files []string
			for n := range v.from {
				files = append(files, n)
			}
			sort.Strings(files)
			root := w.Fresh("drop")
			dir := filepath.Join(root, "src")
			conf := map[string]string{"prototool.yaml": "protoc:\n  includes:\n    - ../inc\n", "../inc/": ""}
			core.Write(dir, v.from)
			core.Write(dir, conf)
			state := filepath.Join(root, "state.bin")
			if r := core.CLI(dir, "break", "descriptor-set", "-o", state); r.Code != 0 {
				t.Failf("state", "break descriptor-set failed: %s", r.Out)
				return
			}
			core.Write(dir, v.to)
			r := core.CLI(dir, "break", "check", "-f", state)
			if r.Code != 0 || r.Out != "" {
				t.Failf("dropped-import", "exit code %d, output:\n%s", r.Code, r.Out)
			}
		})
	}
}
