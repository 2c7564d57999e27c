//go:build go1.22

// P14: lint says the same of a file whichever way it is reached.
package main

import (
	"encoding/json"
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
	l "github.com/uber/prototool/internal/verifmc/lintref"
	"github.com/uber/prototool/internal/verifmc/linttree"
)

func main() {
	core.Main(&core.Check{
		ID:          "P14",
		Level:       "exploration",
		Rule:        "A case is a subset of the files of a tree that breaks all rules, a working directory, a target (the tree, a directory, a file), a spelling of it, and a command (lint as text, as JSON and repeated, all without formatting); non-trivial: distinct outputs.",
		Assumptions: []string{"the reference of the rules is right (P28)"},
		Run:         run,
	})
}

var tree = linttree.New()
var header = l.Config{Header: linttree.Header}

func config() string {
	return "protoc:\n  allow_unused_imports: true\n  includes:\n  - ../inc\nlint:\n  file_header:\n    content: Acme\n  group: empty\n  rules:\n    add:\n    - " + strings.Join(l.IDs(), "\n    - ") + "\n"
}

type failure struct {
	Filename string `json:"filename"`
	Line     int    `json:"line"`
	Column   int    `json:"column"`
	LintID   string `json:"lint_id"`
	Message  string `json:"message"`
}

func (f failure) text() string {
	line, col := f.Line, f.Column
	if line == 0 {
		line = 1
	}
	if col == 0 {
		col = 1
	}
	return fmt.Sprintf("%s:%d:%d:%s", f.Filename, line, col, f.Message)
}

func (f failure) less(g failure) bool {
	a := []interface{}{f.Filename, f.Line, f.Column, f.LintID, f.Message}
	b := []interface{}{g.Filename, g.Line, g.Column, g.LintID, g.Message}
	for i := range a {
		if a[i] == b[i] {
			continue
		}
		if x, ok := a[i].(int); ok {
			return x < b[i].(int)
		}
		return a[i].(string) < b[i].(string)
	}
	return false
}

// place is where the command is run and what on.
type place struct {
	Work   string // below the directory that holds the tree w
	Target string // below w, "" for all of it
	Arg    string // the argument
	None   bool   // no argument
}

func places(files []string) []place {
	targets := append([]string{""}, tree.Dirs()...)
	targets = append(targets, files...)
	var out []place
	for _, work := range []string{"w", "w/a", "w/a/sub", "w/ab", "", "other", "w/empty"} {
		for _, target := range targets {
			abs := path.Join("w", target)
			rel, err := filepath.Rel("/"+work, "/"+abs)
			core.Internal(err)
			single := strings.HasSuffix(target, ".proto")
			add := func(arg string) { out = append(out, place{Work: work, Target: target, Arg: arg}) }
			if rel == "." {
				out = append(out, place{Work: work, Target: target, None: true})
			}
			add(rel)
			add("./" + rel)
			add("$/" + abs)
			add("$/other/../" + abs)
			if work != "" {
				add("../" + path.Base(work) + "/" + rel)
			}
			add(path.Dir(rel) + "//" + path.Base(rel))
			if !single {
				add(rel + "/")
				add(rel + "/.")
				add("$/" + abs + "/")
				add(rel + "/../" + path.Base("/"+abs))
			} else {
				add(path.Dir(rel) + "/../" + path.Base(path.Dir(abs)) + "/" + path.Base(rel))
			}
		}
	}
	return out
}

// check runs all commands.
func check(t *core.T, w *core.W, root string, files map[string]bool, p place) {
	arg := strings.Replace(p.Arg, "$", root, 1)
	args := func(a ...string) []string {
		if p.None {
			return a
		}
		return append(a, arg)
	}
	part := linttree.Tree{}
	for d, fs := range tree {
		for _, f := range fs {
			if files[path.Join(d, f.Base+".proto")] {
				part[d] = append(part[d], f)
			}
		}
	}
	single := strings.HasSuffix(p.Target, ".proto")
	var want []string
	failed := false
	for _, s := range part.Want(header, func(string) bool { return true }, nil) {
		file := s[:strings.Index(s, ":")]
		in := file == p.Target || !single && (p.Target == "" || strings.HasPrefix(file, p.Target+"/"))
		if in {
			want = append(want, s)
		}
		if in || single && strings.HasPrefix(file, path.Dir(p.Target)+"/") {
			failed = true
		}
	}
	dir := path.Join(root, p.Work)
	parse := func(out string) []failure {
		var fs []failure
		for _, line := range strings.Split(out, "\n") {
			var f failure
			if line == "" {
				continue
			}
			if json.Unmarshal([]byte(line), &f) != nil || f.LintID == "" {
				t.Failf("output", "not a lint failure: %s", line)
				continue
			}
			fs = append(fs, f)
		}
		return fs
	}
	res := core.CLI(dir, args("lint", "--json")...)
	w.Count("runs", 4)
	w.Nontrivial(res.Out)
	fs := parse(res.Out)
	var got []string
	for _, f := range fs {
		abs := path.Join("/", p.Work, f.Filename)
		name := strings.TrimPrefix(abs, "/w/")
		rel, err := filepath.Rel("/"+p.Work, abs)
		core.Internal(err)
		if rel != f.Filename {
			t.Failf("name", "%s is not the path relative to the working directory, %s", f.Filename, rel)
		}
		got = append(got, fmt.Sprintf("%s:%d:%s", name, f.Line, f.LintID))
	}
	got = linttree.Clean(got)
	sort.Strings(want)
	if !core.Equal(got, want) {
		missed, wrong := diff(got, want)
		t.Failf("verdict", "missed %v, wrong %v, got %d instead of %d failures", missed, wrong, len(got), len(want))
	}
	if (res.Code != 0) != failed {
		t.Failf("exit", "exit code %d", res.Code)
	}
	for i := 1; i < len(fs); i++ {
		if fs[i].less(fs[i-1]) {
			t.Failf("order", "%v is printed after %v", fs[i], fs[i-1])
		}
	}
	again := core.CLI(dir, args("lint", "--json")...)
	if again != res {
		t.Failf("repeated", "the second time, the result is %+v instead of %+v", again, res)
	}
	text := core.CLI(dir, args("lint")...)
	var lines []string
	for _, f := range fs {
		lines = append(lines, f.text())
	}
	if text.Code != res.Code || !core.Equal(text.Lines(), lines) {
		t.Failf("text", "as text, exit code %d and %q instead of %q", text.Code, text.Out, lines)
	}
	before := core.Snapshot(root)
	all := core.CLI(dir, args("all", "--disable-format", "--json")...)
	if all != res {
		t.Failf("all", "all gives %+v instead of %+v", all, res)
	}
	if d := core.DiffSnapshots(before, core.Snapshot(root)); len(d) > 0 {
		t.Failf("all", "files changed: %v", d)
	}
}

func diff(got, want []string) (missed, wrong []string) {
	have, need := map[string]bool{}, map[string]bool{}
	for _, s := range got {
		have[s] = true
	}
	for _, s := range want {
		need[s] = true
		if !have[s] {
			missed = append(missed, s)
		}
	}
	for _, s := range got {
		if !need[s] {
			wrong = append(wrong, s)
		}
	}
	return missed, wrong
}

func run(w *core.W) {
	core.UseSystemProtoc()
	sources := tree.Sources()
	names := tree.Files()
	type subset struct {
		Files  []string
		Places []place
	}
	var subsets []subset
	subsets = append(subsets, subset{names, places(names)})
	core.Subsets(len(names), len(names), func(m int) {
		if m == 0 || m == 1<<uint(len(names))-1 {
			return
		}
		var fs []string
		for i, f := range names {
			if m&(1<<uint(i)) != 0 {
				fs = append(fs, f)
			}
		}
		ps := []place{{Work: "w", None: true}}
		if w.Thorough() {
			ps = nil
			for _, p := range places(fs) {
				ok := p.Target == ""
				for _, f := range fs {
					ok = ok || f == p.Target || strings.HasPrefix(f, p.Target+"/")
				}
				if ok {
					ps = append(ps, p)
				}
			}
		} else {
			for _, f := range fs {
				ps = append(ps, place{Work: "w", Target: f, Arg: f}, place{Work: "w/" + path.Dir(f), Target: path.Dir(f), None: true})
			}
		}
		subsets = append(subsets, subset{fs, ps})
	})
	for _, s := range subsets {
		s := s
		for _, p := range s.Places {
			p := p
			w.Case(map[string]interface{}{"files": len(s.Files), "names": fmt.Sprint(s.Files), "place": p}, func(t *core.T) {
				root := w.Fresh("t")
				fs := map[string]string{"w/prototool.yaml": config(), "other/": "", "w/empty/": ""}
				for p, c := range linttree.Support {
					fs["inc/"+p] = c
				}
				in := map[string]bool{}
				for _, d := range tree.Dirs() {
					fs["w/"+d+"/"] = ""
				}
				for _, f := range s.Files {
					in[f] = true
					fs["w/"+f] = sources[f]
				}
				core.Write(root, fs)
				check(t, w, root, in, p)
			})
		}
	}
}
