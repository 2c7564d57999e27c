//go:build go1.22

// P21: inspect prints the graph of the imports between packages.
package main

import (
	"fmt"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
)

func main() {
	core.Main(&core.Check{
		ID:          "P21",
		Level:       "exploration",
		Rule:        "A case is an acyclic import graph over four files, a partition of the files into packages, a layout of the files in directories, the kind of the imports and whether well-known types are imported; or a selection of files by argument and excludes. Every query about every package, and about packages that do not exist, is made. Non-trivial: distinct package graphs.",
		Assumptions: []string{"protoc's list of dependencies of a file"},
		Run:         run,
	})
}

// the names are such that one is a prefix of another and sorting by element differs from sorting by byte
var names = []string{"a.b", "a", "a_b.v1", "ab.v1beta1"}

var layouts = [][]string{
	{"a.proto", "b/b.proto", "b/c.proto", "c/d/e.proto"},
	{"z/z.proto", "y/y.proto", "y/x/x.proto", "w.proto"},
	{"a.proto", "b.proto", "c.proto", "d.proto"},
}

const wkt = "google.protobuf"

type kase struct {
	Graph     string
	Partition []int
	Layout    int
	Kind      string `json:",omitempty"`
	WKT       int    `json:",omitempty"`
	Target    string `json:",omitempty"`
	Exclude   string `json:",omitempty"`
	Cwd       string `json:",omitempty"`
}

// graph is what should be.
type graph struct {
	deps map[string]map[string]bool
}

func newGraph() *graph { return &graph{deps: map[string]map[string]bool{}} }

func (g *graph) pkg(p string) {
	if g.deps[p] == nil {
		g.deps[p] = map[string]bool{}
	}
}

func (g *graph) add(from, to string) {
	g.pkg(from)
	g.pkg(to)
	if from != to {
		g.deps[from][to] = true
	}
}

func (g *graph) packages() []string {
	var out []string
	for p := range g.deps {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func (g *graph) of(p string, importers bool) []string {
	var out []string
	for q := range g.deps {
		if importers && g.deps[q][p] || !importers && g.deps[p][q] {
			out = append(out, q)
		}
	}
	sort.Strings(out)
	return out
}

func query(t *core.T, w *core.W, dir string, want []string, args ...string) {
	res := core.CLI(dir, append([]string{"x", "inspect"}, args...)...)
	w.Count("queries", 1)
	if res.Code != 0 {
		t.Failf("failed", "%v: exit code %d: %s%s", args, res.Code, res.Out, res.Err)
		return
	}
	out := ""
	for _, p := range want {
		out += p + "\n"
	}
	if res.Out != out {
		t.Failf("answer", "%v: %q instead of %q", args, res.Out, out)
	}
}

func queries(t *core.T, w *core.W, dir string, g *graph, arg ...string) {
	w.Nontrivial(fmt.Sprint(g.deps))
	ps := g.packages()
	query(t, w, dir, ps, append([]string{"packages"}, arg...)...)
	for i, p := range ps {
		name := []string{"--name", p}
		if i%2 == 1 {
			name = []string{"--name=" + p}
		}
		query(t, w, dir, g.of(p, false), append(append([]string{"package-deps"}, arg...), name...)...)
		query(t, w, dir, g.of(p, true), append(append([]string{"package-importers"}, name...), arg...)...)
	}
}

// partitions calls f with all partitions of n elements.
func partitions(n int, f func(p []int)) {
	p := make([]int, n)
	var rec func(i, max int)
	rec = func(i, max int) {
		if i == n {
			f(append([]int(nil), p...))
			return
		}
		for v := 0; v <= max; v++ {
			p[i] = v
			m := max
			if v == max {
				m++
			}
			rec(i+1, m)
		}
	}
	rec(0, 0)
}

// edges are all acyclic graphs over four nodes, or only those whose edges go from lower to higher nodes.
func edges(all bool, f func(e [][2]int)) {
	var pairs [][2]int
	for i := 0; i < 4; i++ {
		for j := i + 1; j < 4; j++ {
			pairs = append(pairs, [2]int{i, j})
		}
	}
	d := 2
	if all {
		d = 3
	}
	core.Product([]int{d, d, d, d, d, d}, func(v []int) {
		var e [][2]int
		for i, p := range pairs {
			switch v[i] {
			case 1:
				e = append(e, p)
			case 2:
				e = append(e, [2]int{p[1], p[0]})
			}
		}
		reach := [4][4]bool{}
		for _, p := range e {
			reach[p[0]][p[1]] = true
		}
		for k := 0; k < 4; k++ {
			for i := 0; i < 4; i++ {
				for j := 0; j < 4; j++ {
					reach[i][j] = reach[i][j] || reach[i][k] && reach[k][j]
				}
			}
		}
		for i := 0; i < 4; i++ {
			if reach[i][i] {
				return
			}
		}
		f(e)
	})
}

func sources(k kase, e [][2]int) map[string]string {
	files := layouts[k.Layout]
	tree := map[string]string{"prototool.yaml": "protoc:\n  allow_unused_imports: true\n"}
	for i, f := range files {
		s := fmt.Sprintf("syntax = \"proto3\";\npackage %s;\n", names[k.Partition[i]])
		if k.WKT&(1<<i) != 0 {
			s += "import \"google/protobuf/timestamp.proto\";\nimport \"google/protobuf/any.proto\";\n"
		}
		for _, p := range e {
			if p[0] == i {
				s += fmt.Sprintf("import %s\"%s\";\n", k.Kind, files[p[1]])
			}
		}
		tree[f] = s + fmt.Sprintf("message M%d {\n}\n", i)
	}
	return tree
}

func run(w *core.W) {
	core.UseSystemProtoc()
	for layout := range layouts {
		for _, kind := range []string{"", "public "} {
			for _, wkt := range []int{0, 2, 9} {
				if wkt != 0 && kind != "" {
					continue
				}
				layout, kind, wkt := layout, kind, wkt
				// the directories make no difference to the graph: all graphs in one, thorough: in all
				all := layout == 2 && kind == "" && wkt == 0 || w.Thorough()
				edges(all, func(e [][2]int) {
					partitions(4, func(p []int) {
						k := kase{Graph: fmt.Sprint(e), Partition: p, Layout: layout, Kind: kind, WKT: wkt}
						key := fmt.Sprint(p)
						few := key == "[0 1 2 3]" || key == "[0 1 0 1]" || key == "[0 1 1 2]"
						if !w.Thorough() && ((kind != "" || wkt != 0) && (layout != 0 || !few) || all && !few) {
							return
						}
						w.Case(k, func(t *core.T) {
							dir := w.Fresh("t")
							core.Write(dir, sources(k, e))
							g := expect(k, e, func(int) bool { return true })
							queries(t, w, dir, g)
						})
					})
				})
			}
		}
	}
	selections(w)
	unknown(w)
}

// expect is the graph of the files that are selected and all that they import.
func expect(k kase, e [][2]int, selected func(i int) bool) *graph {
	g := newGraph()
	in := [4]bool{}
	var visit func(i int)
	visit = func(i int) {
		if in[i] {
			return
		}
		in[i] = true
		g.pkg(names[k.Partition[i]])
		if k.WKT&(1<<i) != 0 {
			g.add(names[k.Partition[i]], wkt)
		}
		for _, p := range e {
			if p[0] == i {
				g.add(names[k.Partition[i]], names[k.Partition[p[1]]])
				visit(p[1])
			}
		}
	}
	for i := 0; i < 4; i++ {
		if selected(i) {
			visit(i)
		}
	}
	return g
}

func selections(w *core.W) {
	identity := []int{0, 1, 2, 3}
	for layout := 0; layout < 2; layout++ {
		files := layouts[layout]
		var dirs []string
		seen := map[string]bool{}
		for _, f := range files {
			for d := path.Dir(f); !seen[d]; d = path.Dir(d) {
				seen[d] = true
				dirs = append(dirs, d)
			}
		}
		sort.Strings(dirs)
		for _, exclude := range append([]string{""}, files...) {
			for _, target := range dirs {
				for _, cwd := range dirs {
					if cwd != "." && cwd != target && !w.Thorough() {
						continue
					}
					for _, p := range [][]int{identity, {0, 1, 0, 1}} {
						layout, exclude, target, cwd, p := layout, exclude, target, cwd, p
						edges(false, func(e [][2]int) {
							if len(e) != 3 && len(e) != 4 && !w.Thorough() {
								return
							}
							k := kase{Graph: fmt.Sprint(e), Partition: p, Layout: layout, WKT: 4, Target: target, Exclude: exclude, Cwd: cwd}
							selected := func(i int) bool {
								return files[i] != exclude && (target == "." || strings.HasPrefix(files[i], target+"/"))
							}
							any := false
							for i := range files {
								any = any || selected(i)
							}
							if !any {
								return
							}
							w.Case(k, func(t *core.T) {
								dir := w.Fresh("t")
								tree := sources(k, e)
								if exclude != "" {
									tree["prototool.yaml"] = "excludes:\n- " + exclude + "\n" + tree["prototool.yaml"]
								}
								core.Write(dir, tree)
								arg, err := filepath.Rel("/"+cwd, "/"+target)
								core.Internal(err)
								g := expect(k, e, selected)
								queries(t, w, path.Join(dir, cwd), g, arg)
							})
						})
					}
				}
			}
		}
	}
}

// unknown packages, missing names and files that do not compile.
func unknown(w *core.W) {
	k := kase{Graph: "[[0 1] [1 2]]", Partition: []int{0, 1, 2, 3}, Layout: 0}
	for _, cmd := range []string{"package-deps", "package-importers"} {
		for _, name := range []string{"", "-", "a.c", ".a", "a.", "A", "b", "a_b", "v1", "google.protobuf", "a.b.c", "*", "a,a.b", " a"} {
			cmd, name := cmd, name
			w.Case([]string{cmd, name}, func(t *core.T) {
				dir := w.Fresh("t")
				core.Write(dir, sources(k, [][2]int{{0, 1}, {1, 2}}))
				args := []string{"x", "inspect", cmd, "--name", name}
				if name == "-" {
					args = args[:3]
				}
				res := core.CLI(dir, args...)
				w.Nontrivial(fmt.Sprint(args))
				w.Count("queries", 1)
				if res.Code == 0 {
					t.Failf("accepted", "%v: exit code 0: %q", args, res.Out)
				}
			})
		}
	}
	for _, bad := range []string{"message {\n", "import \"none.proto\";\n", "message M {\n  X x = 1;\n}\n"} {
		for _, cmd := range []string{"packages", "package-deps", "package-importers"} {
			bad, cmd := bad, cmd
			w.Case([]string{"broken", cmd, bad}, func(t *core.T) {
				dir := w.Fresh("t")
				core.Write(dir, map[string]string{
					"prototool.yaml": "",
					"a/a.proto":      "syntax = \"proto3\";\npackage a;\n",
					"b/b.proto":      "syntax = \"proto3\";\npackage b;\n" + bad,
				})
				args := []string{"x", "inspect", cmd}
				if cmd != "packages" {
					args = append(args, "--name", "a")
				}
				res := core.CLI(dir, args...)
				w.Nontrivial(fmt.Sprint(args, bad))
				w.Count("queries", 1)
				if res.Code == 0 || !strings.Contains(res.Out, "b/b.proto:") {
					t.Failf("accepted", "%v: exit code %d: %q", args, res.Code, res.Out)
				}
			})
		}
	}
}
