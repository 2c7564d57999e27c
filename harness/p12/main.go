//go:build go1.22

// P12: break check gives the same answer from git and from a saved state, and leaves nothing behind.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/schema"
)

type kase struct {
	Layout  string
	Edits   []string
	Source  string
	Working string
}

type layout struct {
	name   string
	prefix string // where the sources are, relative to the repository root
	config string // where the configuration file is
	arg    string
	extra  map[string]string
}

func main() {
	core.Main(&core.Check{
		ID:    "P12",
		Level: "exploration",
		Rule: "A case is a repository layout, an edit, the place the old state is taken from (default branch, a branch, a tag, a saved state, a branch that does not exist, ...) and the state of the working tree (edit committed, staged, unstaged), " +
			"run with the real git and the real break check, compared with the reference comparison; the repository and the temporary directory are compared before and after; non-trivial: the edit changes the sources.",
		Assumptions: []string{"protoc 3.21.12", "git as installed"},
		Run:         run,
	})
}

func git(dir string, args ...string) {
	c := exec.Command("git", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a@b", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a@b",
		"GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=/dev/null", "GIT_AUTHOR_DATE=2020-01-01T00:00:00Z", "GIT_COMMITTER_DATE=2020-01-01T00:00:00Z")
	if out, err := c.CombinedOutput(); err != nil {
		core.Internal(fmt.Errorf("git %v: %v %s", args, err, out))
	}
}

var layouts = []layout{
	{"root", "", "", "", nil},
	{"root dot", "", "", ".", nil},
	{"sub", "proto", "proto", "proto", nil},
	{"sub slash", "proto", "proto", "./proto/", nil},
	{"config above", "proto", "proto", "proto/foo/..", nil},
	{"neighbour", "proto", "proto", "proto", map[string]string{"protox/prototool.yaml": "{}\n", "protox/foo/v1/n.proto": "syntax = \"proto3\";\n\npackage n.v1;\n\nmessage BrokenNeighbour {}\n"}},
}

func run(w *core.W) {
	core.UseSystemProtoc()
	base := schema.Base("proto3")
	all := schema.Edits(base, []string{"int32", ".foo.v1.E"})
	pick := []string{"delete package bar.v1", "delete message foo.v1.M", "delete field foo.v1.M.s", "rename field foo.v1.M.Inner.t", "type int32 for field foo.v1.M.s",
		"label repeated for field foo.v1.M.s", "toggle client streaming of foo.v1.S.A", "delete service foo.v1.Empty", "delete value foo.v1.E.E_TWO",
		"rename file foo/v1/a.proto", "add things to package foo.v1", "comments", "move to file foo/v1/b.proto service foo.v1.Empty", "delete message foo.v1.Resp", "rename package baz.v1beta1 to baz.v1beta1x"}
	var edits []schema.Edit
	edits = append(edits, schema.Edit{Name: "nothing", Apply: func(*schema.Schema) bool { return true }})
	for _, e := range all {
		for _, p := range pick {
			if e.Name == p {
				edits = append(edits, e)
			}
		}
		if w.Thorough() {
			edits = append(edits, e)
		}
	}
	sources := []string{"default", "branch", "tag", "saved", "saved with source info"}
	workings := []string{"unstaged", "staged", "committed on a branch"}
	names(w, base, edits)
	for _, l := range layouts {
		for _, e := range edits {
			s := base.Clone()
			if !e.Apply(s) || !s.Valid() {
				continue
			}
			for _, src := range sources {
				for _, wk := range workings {
					l, e, src, wk := l, e, src, wk
					w.Case(kase{l.name, []string{e.Name}, src, wk}, func(t *core.T) { check(w, t, l, base, e, src, wk) })
				}
			}
		}
		l := l
		for _, now := range []bool{false, true} {
			for _, saved := range []bool{false, true} {
				now, saved := now, saved
				w.Case(kase{l.name, nil, fmt.Sprintf("configuration changed, include_beta now %v, saved state %v", now, saved), ""}, func(t *core.T) { config(w, t, l, base, now, saved) })
			}
		}
		for _, src := range []string{"missing branch", "not a repository", "absolute", "outside", "both", "missing file", "garbage file", "compile error before", "compile error now", "missing directory before"} {
			src := src
			w.Case(kase{l.name, nil, src, ""}, func(t *core.T) { failing(w, t, l, base, src) })
		}
	}
}

func place(prefix string, files map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range files {
		out[filepath.Join(prefix, k)] = v
	}
	return out
}

// setup makes a repository: v1 (tag, branch old) has the base, main has it too.
func setup(w *core.W, l layout, base *schema.Schema) string {
	root := w.Fresh("repo")
	core.Write(root, place(l.prefix, base.Render()))
	core.Write(root, l.extra)
	core.Write(root, map[string]string{filepath.Join(l.config, "prototool.yaml"): "break:\n  include_beta: true\n"})
	git(root, "init", "-q", "-b", "main")
	git(root, "add", "-A")
	git(root, "commit", "-q", "-m", "one")
	git(root, "branch", "old")
	git(root, "tag", "v1")
	return root
}

func args(l layout, more ...string) []string {
	a := []string{"break", "check"}
	if l.arg != "" {
		a = append(a, l.arg)
	}
	return append(a, more...)
}

func check(w *core.W, t *core.T, l layout, base *schema.Schema, e schema.Edit, src, wk string) {
	core.CleanTemp()
	root := setup(w, l, base)
	state := filepath.Join(w.Scratch, "state.bin")
	if strings.HasPrefix(src, "saved") {
		a := []string{"break", "descriptor-set", "-o", state}
		if src != "saved" {
			a = []string{"descriptor-set", "--include-imports", "--include-source-info", "-o", state}
		}
		if l.arg != "" {
			a = append(a, l.arg)
		}
		if r := core.CLI(root, a...); r.Code != 0 {
			t.Failf("state", "%s", r.Out)
			return
		}
	}
	s := base.Clone()
	e.Apply(s)
	if wk == "committed on a branch" {
		git(root, "checkout", "-q", "-b", "feature")
	}
	for n := range base.Render() {
		core.Internal(os.Remove(filepath.Join(root, l.prefix, n)))
	}
	core.Write(root, place(l.prefix, s.Render()))
	want := schema.Diff(base, s, schema.Options{IncludeBeta: true})
	switch wk {
	case "staged":
		git(root, "add", "-A")
	case "committed on a branch":
		git(root, "add", "-A")
		git(root, "commit", "-q", "--allow-empty", "-m", "two")
		if src == "default" {
			// the default branch is the one that is checked out, so there is no difference
			want = nil
		}
	}
	var flag []string
	switch src {
	case "branch":
		flag = []string{"--git-branch", "old"}
	case "tag":
		flag = []string{"--git-branch", "v1"}
	case "default":
	default:
		flag = []string{"-f", state}
	}
	w.Nontrivial(l.name + e.Name + src + wk)
	before := core.Snapshot(root)
	r := core.CLI(root, args(l, flag...)...)
	after := core.Snapshot(root)
	if (r.Code != 0) != (len(want) > 0) {
		t.Failf("verdict", "exit code %d, expected %v, output:\n%s", r.Code, want, r.Out)
	} else if !schema.Match(want, r.Lines()) {
		t.Failf("report", "expected %q, output:\n%s", want, r.Out)
	}
	residue(t, before, after)
}

func residue(t *core.T, before, after map[string]string) {
	if d := core.DiffSnapshots(before, after); len(d) > 0 {
		t.Failf("repository", "the repository was changed: %v", d)
	}
	if l := core.TempEntries(); len(l) > 0 {
		t.Failf("temp", "left in the temporary directory: %v", l)
	}
}

func failing(w *core.W, t *core.T, l layout, base *schema.Schema, src string) {
	core.CleanTemp()
	root := setup(w, l, base)
	w.Nontrivial(l.name + src)
	a := args(l)
	dir := root
	bad := filepath.Join(l.prefix, "foo/v1/a.proto")
	switch src {
	case "missing branch":
		a = args(l, "--git-branch", "nope")
	case "not a repository":
		core.Internal(os.RemoveAll(filepath.Join(root, ".git")))
	case "absolute":
		a = []string{"break", "check", filepath.Join(root, l.prefix)}
	case "outside":
		core.Write(root, map[string]string{"sub/x": ""})
		git(root, "init", "-q", "sub")
		dir = filepath.Join(root, "sub")
		a = []string{"break", "check", filepath.Join("..", l.prefix)}
	case "both":
		a = args(l, "--git-branch", "old", "-f", "x.bin")
	case "missing file":
		a = args(l, "-f", "x.bin")
	case "garbage file":
		core.Write(root, map[string]string{"x.bin": "\xff\xff\xff garbage"})
		a = args(l, "-f", "x.bin")
	case "compile error before":
		core.Write(root, map[string]string{bad: "syntax = \"proto3\";\npackage foo.v1;\nmessage {}\n"})
		git(root, "commit", "-q", "-am", "bad")
		core.Write(root, place(l.prefix, base.Render()))
	case "compile error now":
		core.Write(root, map[string]string{bad: "syntax = \"proto3\";\npackage foo.v1;\nmessage {}\n"})
	case "missing directory before":
		core.Write(root, place("fresh", base.Render()))
		core.Write(root, map[string]string{"fresh/prototool.yaml": "{}\n"})
		a = []string{"break", "check", "fresh"}
	}
	before := core.Snapshot(root)
	r := core.CLI(dir, a...)
	after := core.Snapshot(root)
	if r.Code == 0 {
		t.Failf("accepted", "%s was accepted, output %s", src, r.Out)
	}
	residue(t, before, after)
}

// config: the configuration of the working tree decides, not the one of the old state.
func config(w *core.W, t *core.T, l layout, base *schema.Schema, now, saved bool) {
	core.CleanTemp()
	root := setup(w, l, base)
	conf := filepath.Join(l.config, "prototool.yaml")
	w.Nontrivial(fmt.Sprint("config", l.name, now, saved))
	core.Write(root, map[string]string{conf: fmt.Sprintf("break:\n  include_beta: %v\n", !now)})
	git(root, "commit", "-q", "-am", "config", "--allow-empty")
	a := args(l)
	if saved {
		d := []string{"break", "descriptor-set", "-o", "../state.bin"}
		if l.arg != "" {
			d = append(d, l.arg)
		}
		if r := core.CLI(root, d...); r.Code != 0 {
			t.Failf("state", "%s", r.Out)
			return
		}
		a = args(l, "-f", "../state.bin")
	}
	s := base.Clone()
	s.Pkgs = s.Pkgs[:2]
	for n := range base.Render() {
		core.Internal(os.Remove(filepath.Join(root, l.prefix, n)))
	}
	core.Write(root, place(l.prefix, s.Render()))
	core.Write(root, map[string]string{conf: fmt.Sprintf("break:\n  include_beta: %v\n", now)})
	want := schema.Diff(base, s, schema.Options{IncludeBeta: now})
	before := core.Snapshot(root)
	r := core.CLI(root, a...)
	if (r.Code != 0) != (len(want) > 0) || !schema.Match(want, r.Lines()) {
		t.Failf("config", "exit code %d, expected %v, output:\n%s", r.Code, want, r.Out)
	}
	residue(t, before, core.Snapshot(root))
}

type ref struct {
	Name    string
	Kind    string // branch, tag, annotated tag
	At      int    // the commit it is at: 0 (base), 1, 2
	Head    string // the branch that is checked out, or "detached"
	HeadAt  int
	Default bool // no --git-branch
	Edit    string
}

// names: a history of three commits (the base, the base without a package, the
// base with an unrelated field renamed), a branch or tag with any name at any of
// them, any branch checked out at any of them, and the files of the working tree.
func names(w *core.W, base *schema.Schema, edits []schema.Edit) {
	byName := map[string]schema.Edit{}
	for _, e := range edits {
		byName[e.Name] = e
	}
	step := []schema.Edit{byName["nothing"], byName["delete service foo.v1.Empty"], byName["rename field foo.v1.M.Inner.t"]}
	alphabet := []string{"master", "main", "dev", "trunk", "develop", "default", "origin", "feature/x", "v1", "v1.0.0", "release-1", "1", "origin/dev", "head"}
	for _, name := range alphabet {
		for _, kind := range []string{"branch", "tag", "annotated tag"} {
			for at := 0; at < 3; at++ {
				for _, head := range []string{"master", "main", "work", "detached"} {
					if head == name && kind != "branch" {
						continue
					}
					for headAt := 0; headAt < 3; headAt++ {
						if head == name && at != headAt {
							continue
						}
						for _, def := range []bool{false, true} {
							// without --git-branch other names only have to be ignored
							if def && !w.Thorough() && name != "master" && name != "origin" {
								continue
							}
							if !w.Thorough() && !def && at == headAt && at != 0 {
								continue
							}
							r := ref{name, kind, at, head, headAt, def, ""}
							w.Case(r, func(t *core.T) { named(w, t, base, step, r) })
						}
					}
				}
			}
		}
	}
}

func named(w *core.W, t *core.T, base *schema.Schema, step []schema.Edit, r ref) {
	core.CleanTemp()
	root := w.Fresh("repo")
	states := make([]*schema.Schema, 3)
	git(root, "init", "-q", "-b", "tmp-start")
	put := func(s *schema.Schema) {
		core.Internal(os.RemoveAll(filepath.Join(root, "p")))
		core.Write(root, place("p", s.Render()))
		core.Write(root, map[string]string{"p/prototool.yaml": "break:\n  include_beta: true\n"})
	}
	for i := range states {
		states[i] = base.Clone()
		if step[i].Apply == nil || !step[i].Apply(states[i]) || !states[i].Valid() {
			core.Internal(fmt.Errorf("bad step %d", i))
		}
		put(states[i])
		git(root, "add", "-A")
		git(root, "commit", "-q", "--allow-empty", "-m", fmt.Sprint(i))
		git(root, "update-ref", fmt.Sprintf("refs/keep/%d", i), "HEAD")
	}
	keep := func(i int) string { return fmt.Sprintf("refs/keep/%d", i) }
	switch {
	case r.Head == "detached":
		git(root, "checkout", "-q", "--detach", keep(r.HeadAt))
	default:
		git(root, "checkout", "-q", "-b", r.Head, keep(r.HeadAt))
	}
	git(root, "branch", "-q", "-D", "tmp-start")
	switch r.Kind {
	case "branch":
		if r.Head != r.Name {
			git(root, "update-ref", "refs/heads/"+r.Name, keep(r.At))
		}
	case "tag":
		git(root, "update-ref", "refs/tags/"+r.Name, keep(r.At))
	default:
		git(root, "-c", "tag.gpgSign=false", "tag", "-a", "-m", "x", r.Name, keep(r.At))
	}
	old := states[r.At]
	args := []string{"break", "check", "p"}
	if r.Default {
		old = states[r.HeadAt]
	} else {
		args = append(args, "--git-branch", r.Name)
	}
	// the working tree has the files of the last commit but one, whatever is checked out
	now := states[1]
	if r.At == 1 && !r.Default || r.HeadAt == 1 && r.Default {
		now = states[2]
	}
	put(now)
	want := schema.Diff(old, now, schema.Options{IncludeBeta: true})
	w.Nontrivial(fmt.Sprint(r))
	before := core.Snapshot(root)
	res := core.CLI(root, args...)
	after := core.Snapshot(root)
	if (res.Code != 0) != (len(want) > 0) || !schema.Match(want, res.Lines()) {
		t.Failf("old state", "exit code %d, expected %v, output:\n%s", res.Code, want, res.Out)
	}
	residue(t, before, after)
}
