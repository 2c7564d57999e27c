//go:build go1.22

// P09: break check reports every documented breaking change and nothing else.
package main

import (
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/schema"
)

func main() {
	core.Main(&core.Check{
		ID:    "P09",
		Level: "exploration",
		Rule: "A case is a pair of schemas (the base in proto2 or proto3, and the result of one or two edits out of every edit of every element: delete, rename, retype, relabel, renumber, move, restream ...), compared with the real break check " +
			"against the saved state of the first; non-trivial: the two schemas differ and the reference expects at least one report.",
		Assumptions:   []string{"protoc 3.21.12", "dropping the last use of an import of something outside the checked directory is P10's subject"},
		Run:           run,
		QuickDeadline: 300e9,
	})
}

type kase struct {
	Syntax string
	Edits  []string
	Opts   schema.Options
}

func run(w *core.W) {
	core.UseSystemProtoc()
	shapes(w)
	for _, syntax := range []string{"proto3", "proto2"} {
		base := schema.Base(syntax)
		state := filepath.Join(w.Scratch, "state-"+syntax+".bin")
		dir := w.Fresh("base")
		core.Write(dir, base.Render())
		core.Write(dir, map[string]string{"prototool.yaml": "{}\n"})
		if r := core.CLI(dir, "break", "descriptor-set", "-o", state); r.Code != 0 {
			w.Case(kase{Syntax: syntax}, func(t *core.T) { t.Failf("state", "break descriptor-set failed: %s", r.Out) })
			continue
		}
		types := []string{"int32", "string", ".foo.v1.N", ".foo.v1.E", ".bar.v1.E"}
		if w.Thorough() {
			types = append(append([]string{}, schema.Scalars...), ".foo.v1.N", ".foo.v1.E", ".bar.v1.B", ".bar.v1.E", ".foo.v1.M.Inner", ".foo.v1.M.Inner.IE")
		}
		single := types
		if !w.Thorough() {
			single = append(append([]string{}, schema.Scalars...), ".foo.v1.N", ".foo.v1.E", ".bar.v1.B", ".bar.v1.E", ".foo.v1.M.Inner", ".foo.v1.M.Inner.IE")
		}
		ones := schema.Edits(base, single)
		two := schema.Edits(base, types)
		for _, o := range []schema.Options{{}, {IncludeBeta: true}, {AllowBetaDeps: true}} {
			for _, e := range ones {
				check(w, base, state, o, e)
			}
		}
		if syntax == "proto2" && !w.Thorough() {
			continue
		}
		seen := map[string]bool{}
		for i, e := range two {
			for j, f := range two {
				if i == j {
					continue
				}
				if e.Compat && f.Compat {
					continue
				}
				s := base.Clone()
				if !e.Apply(s) || !f.Apply(s) || !s.Valid() {
					continue
				}
				k := s.Key()
				if seen[k] {
					continue
				}
				seen[k] = true
				// quick: every pair of edits of one element or of an element and its parent
				if !w.Thorough() && !related(e.Name, f.Name) {
					continue
				}
				check(w, base, state, schema.Options{IncludeBeta: true}, e, f)
			}
		}
	}
}

// shapes: every presence or absence of each kind of element at each level, with
// everything below it, up to a number of present (or of absent) elements.
func shapes(w *core.W) {
	const n = 11
	for _, syntax := range []string{"proto3", "proto2"} {
		if syntax == "proto2" && !w.Thorough() {
			continue
		}
		for mask := 0; mask < 1<<n; mask++ {
			ones := 0
			for b := mask; b != 0; b &= b - 1 {
				ones++
			}
			if ones > w.Pick(3, n) && n-ones > w.Pick(1, n) {
				continue
			}
			base := schema.Shape(syntax, mask)
			if base == nil || !base.Valid() {
				continue
			}
			state := filepath.Join(w.Scratch, "state-shape.bin")
			saved := false
			for _, e := range schema.Edits(base, []string{"int32"}) {
				e := e
				if e.Compat || strings.HasPrefix(e.Name, "type ") {
					continue
				}
				s := base.Clone()
				if !e.Apply(s) || !s.Valid() {
					continue
				}
				w.Case(shape{syntax, mask, e.Name}, func(t *core.T) {
					if !saved {
						dir := w.Fresh("base")
						core.Write(dir, base.Render())
						core.Write(dir, map[string]string{"prototool.yaml": "{}\n"})
						if r := core.CLI(dir, "break", "descriptor-set", "-o", state); r.Code != 0 {
							t.Failf("state", "break descriptor-set failed: %s", r.Out)
							return
						}
						saved = true
					}
					one(w, t, base, state, schema.Options{}, e)
				})
			}
		}
	}
}

type shape struct {
	Syntax string
	Shape  int
	Edit   string
}

func related(a, b string) bool {
	x := a[strings.LastIndex(a, " ")+1:]
	y := b[strings.LastIndex(b, " ")+1:]
	return x == y || strings.HasPrefix(x, y+".") || strings.HasPrefix(y, x+".")
}

func check(w *core.W, base *schema.Schema, state string, o schema.Options, edits ...schema.Edit) {
	var names []string
	for _, e := range edits {
		names = append(names, e.Name)
	}
	w.Case(kase{base.Syntax, names, o}, func(t *core.T) { one(w, t, base, state, o, edits...) })
}

func one(w *core.W, t *core.T, base *schema.Schema, state string, o schema.Options, edits ...schema.Edit) {
	s := base.Clone()
	for _, e := range edits {
		if !e.Apply(s) {
			return
		}
	}
	if !s.Valid() {
		return
	}
	want := schema.Diff(base, s, o)
	if len(want) > 0 {
		w.Nontrivial(s.Key())
	}
	dir := w.Fresh("to")
	core.Write(dir, s.Render())
	conf := "break:\n"
	if o.IncludeBeta {
		conf += "  include_beta: true\n"
	}
	if o.AllowBetaDeps {
		conf += "  allow_beta_deps: true\n"
	}
	if conf == "break:\n" {
		conf = "{}\n"
	}
	core.Write(dir, map[string]string{"prototool.yaml": conf})
	r := core.CLI(dir, "break", "check", "-f", state)
	w.Count("checked", 1)
	if (r.Code != 0) != (len(want) > 0) {
		t.Failf("verdict", "exit code %d, expected failures %v, output:\n%s", r.Code, want, r.Out)
		return
	}
	if !schema.Match(want, r.Lines()) {
		t.Failf("report", "expected %q, output:\n%s", want, r.Out)
	}
}
