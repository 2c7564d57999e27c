//go:build go1.22

// P11: beta packages are exempt exactly as documented.
package main

import (
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/schema"
)

var names = []string{
	"a.v1", "a.v2", "a.v1beta1", "a.v2beta3", "a.v10beta20", "a.v0beta1", "a.v1beta0", "a.v1beta", "a.vbeta1",
	"a.v1alpha1", "a.v1beta1beta2", "a.v1Beta1", "a.beta1", "a.xv1beta1", "a.v1beta1.b", "a.v1beta1x", "a.b.v3beta1", "a", "a.v1xbeta1", "a.v99999999999999999999beta1",
}

type kase struct {
	A, B   string
	Edge   string
	Change string
	Opts   schema.Options
	Chain  bool
	Nest   string `json:",omitempty"`
}

func main() {
	core.Main(&core.Check{
		ID:    "P11",
		Level: "exploration",
		Rule: "A case is two packages with names out of an alphabet of stable, beta and almost-beta names, where the dependency of the first on the second exists before, after, both or never, with or without a third package in between, " +
			"a breaking change in neither, either or a deleted package, and all four settings of include_beta and allow_beta_deps, run with the real break check; non-trivial: a beta name, a change or a dependency is present.",
		Assumptions: []string{"protoc 3.21.12"},
		Run:         run,
	})
}

func build(a, b, nest string, dep, chain bool) *schema.Schema {
	file := func(n string) string { return strings.Replace(n, ".", "/", -1) + "/f.proto" }
	s := &schema.Schema{Syntax: "proto3"}
	bn := "z" + b
	switch nest {
	case "B below A":
		bn = a + "." + bn
	case "A below B":
		a = bn + "." + a
	case "B prefix of A":
		a = bn + "z" + a
	}
	cn := "c.v1"
	pb := &schema.Pkg{Name: bn, Msgs: []*schema.Msg{
		{Name: "B", File: file(bn), Fields: []*schema.Field{{Name: "b", Num: 1, Type: "string"}}},
		{Name: "BKeep", File: file(bn)}}}
	pa := &schema.Pkg{Name: a, Msgs: []*schema.Msg{
		{Name: "A", File: file(a), Fields: []*schema.Field{{Name: "a", Num: 1, Type: "string"}}},
		{Name: "AKeep", File: file(a)}}}
	keep := &schema.Pkg{Name: "keep.v1", Msgs: []*schema.Msg{{Name: "Keep", File: file("keep.v1")}}}
	s.Pkgs = []*schema.Pkg{pa, pb, keep}
	target := "." + bn + ".BKeep"
	if chain {
		pc := &schema.Pkg{Name: cn, Msgs: []*schema.Msg{{Name: "C", File: file(cn)}}}
		if dep {
			pc.Msgs[0].Fields = []*schema.Field{{Name: "c", Num: 1, Type: target}}
		}
		s.Pkgs = append(s.Pkgs, pc)
		pa.Msgs = append(pa.Msgs, &schema.Msg{Name: "Dep", File: strings.Replace(file(a), "f.proto", "g.proto", 1), Fields: []*schema.Field{{Name: "d", Num: 1, Type: ".c.v1.C"}}})
	} else {
		// the dependency is in a file of its own; adding or removing the message would be a change, so it is an extra import in a message that changes nothing
		m := &schema.Msg{Name: "Dep", File: strings.Replace(file(a), "f.proto", "g.proto", 1)}
		pa.Msgs = append(pa.Msgs, m)
		if dep {
			s.Extra = map[string][]string{m.File: {file(bn)}}
		}
	}
	return s
}

func run(w *core.W) {
	core.UseSystemProtoc()
	bools := []bool{false, true}
	cache := map[string]string{}
	for _, chain := range bools {
		for _, a := range names {
			for _, b := range names {
				if chain && !w.Thorough() && a != "a.v1" && b != "a.v1beta1" {
					continue
				}
				for _, edge := range []string{"never", "before", "after", "both"} {
					if chain && (edge == "before") {
						continue
					}
					for _, change := range []string{"none", "message of A", "message of B", "package A", "package B", "new package A", "new package B"} {
						for _, ib := range bools {
							for _, ab := range bools {
								k := kase{a, b, edge, change, schema.Options{IncludeBeta: ib, AllowBetaDeps: ab}, chain, ""}
								if change == "none" && (edge == "after" && !ib || edge != "never" && edge != "before" && w.Thorough()) {
									for _, nest := range []string{"B below A", "A below B", "B prefix of A"} {
										n := k
										n.Nest = nest
										w.Case(n, func(t *core.T) { check(w, t, n, cache) })
									}
								}
								if k.Opts.IncludeBeta && k.Opts.AllowBetaDeps && !w.Thorough() && edge != "both" {
									continue
								}
								w.Case(k, func(t *core.T) { check(w, t, k, cache) })
							}
						}
					}
				}
			}
		}
	}
}

func check(w *core.W, t *core.T, k kase, cache map[string]string) {
	from := build(k.A, k.B, k.Nest, k.Edge == "before" || k.Edge == "both", k.Chain)
	to := build(k.A, k.B, k.Nest, k.Edge == "after" || k.Edge == "both", k.Chain)
	switch k.Change {
	case "message of A":
		to.Pkgs[0].Msgs = to.Pkgs[0].Msgs[1:]
	case "message of B":
		to.Pkgs[1].Msgs = to.Pkgs[1].Msgs[1:]
	case "package A":
		to.Pkgs = to.Pkgs[1:]
		to.Extra = nil
	case "package B":
		to.Pkgs = append(to.Pkgs[:1:1], to.Pkgs[2:]...)
		to.Extra = nil
	case "new package A":
		from.Pkgs = from.Pkgs[1:]
		from.Extra = nil
	case "new package B":
		from.Pkgs = append(from.Pkgs[:1:1], from.Pkgs[2:]...)
		from.Extra = nil
	}
	if !from.Valid() || !to.Valid() {
		return
	}
	want := schema.Diff(from, to, k.Opts)
	if k.Change != "none" || k.Edge != "never" || schema.IsBeta(k.A) || schema.IsBeta(k.B) {
		w.Nontrivial(from.Key() + to.Key())
	}
	fk := from.Key()
	state, ok := cache[fk]
	if !ok {
		dir := w.Fresh("from")
		core.Write(dir, from.Render())
		core.Write(dir, map[string]string{"prototool.yaml": "protoc:\n  allow_unused_imports: true\n"})
		state = filepath.Join(w.Scratch, "state.bin")
		if len(cache) > 0 {
			for x := range cache {
				delete(cache, x)
			}
		}
		if r := core.CLI(dir, "break", "descriptor-set", "-o", state); r.Code != 0 {
			t.Failf("state", "break descriptor-set failed: %s", r.Out)
			return
		}
		cache[fk] = state
	}
	dir := w.Fresh("to")
	core.Write(dir, to.Render())
	conf := "protoc:\n  allow_unused_imports: true\nbreak:\n"
	if k.Opts.IncludeBeta {
		conf += "  include_beta: true\n"
	} else {
		conf += "  include_beta: false\n"
	}
	if k.Opts.AllowBetaDeps {
		conf += "  allow_beta_deps: true\n"
	}
	core.Write(dir, map[string]string{"prototool.yaml": conf})
	r := core.CLI(dir, "break", "check", "-f", state)
	if (r.Code != 0) != (len(want) > 0) {
		t.Failf("verdict", "exit code %d, expected failures %v, output:\n%s", r.Code, want, r.Out)
		return
	}
	if !schema.Match(want, r.Lines()) {
		t.Failf("report", "expected %q, output:\n%s", want, r.Out)
	}
}
