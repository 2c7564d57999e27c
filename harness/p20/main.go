//go:build go1.22

// P20: descriptor-set writes what one run of protoc over all files writes.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/golang/protobuf/jsonpb"
	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/uber/prototool/internal/verifmc/core"
)

func main() {
	core.Main(&core.Check{
		ID:          "P20",
		Level:       "exploration",
		Rule:        "A case is a tree (an import graph over four files, a feature of the language spread over files, or a selection of files by argument, working directory, excludes and includes), the flags --include-imports and --include-source-info, and an output mode (standard output, -o, --tmp, each with --json or not, break descriptor-set); or a tree with broken files. Non-trivial: distinct descriptor sets.",
		Assumptions: []string{"protoc's descriptor set of all the files in one run is the reference"},
		Run:         run,
	})
}

type kase struct {
	Part    string
	Tree    string
	Imports bool
	Source  bool
	Mode    string
	Dir     string `json:",omitempty"`
	Arg     string `json:",omitempty"`
	Exclude string `json:",omitempty"`
}

// mode is where the set goes.
type mode struct {
	name string
	args []string
	json bool
	file string // below the working directory
	tmp  bool
}

var modes = []mode{
	{name: "stdout"},
	{name: "-o", args: []string{"-o", "out.bin"}, file: "out.bin"},
	{name: "--output-path of another directory", args: []string{"--output-path=../o/../out2.bin"}, file: "../out2.bin"},
	{name: "--tmp", args: []string{"--tmp"}, tmp: true},
	{name: "json", args: []string{"--json"}, json: true},
	{name: "json -o", args: []string{"--json", "-o", "out.bin"}, json: true, file: "out.bin"},
	{name: "json --tmp", args: []string{"--json", "--tmp"}, json: true, tmp: true},
	{name: "break", file: "out.bin"},
}

func cliArgs(k kase, m mode) []string {
	var args []string
	if m.name == "break" {
		args = []string{"break", "descriptor-set", "-o", "out.bin"}
	} else {
		args = append([]string{"descriptor-set"}, m.args...)
		if k.Imports {
			args = append(args, "--include-imports")
		}
		if k.Source {
			args = append(args, "--include-source-info")
		}
	}
	if k.Arg != "" {
		args = append(args, k.Arg)
	}
	return args
}

// reference runs protoc once.
func reference(root string, includes []string, files []string, imports, source bool) *descriptor.FileDescriptorSet {
	out := root + ".ref"
	args := []string{"-o", out}
	for _, i := range includes {
		args = append(args, "-I", i)
	}
	args = append(args, "-I", "/usr/include")
	if imports {
		args = append(args, "--include_imports")
	}
	if source {
		args = append(args, "--include_source_info")
	}
	args = append(args, files...)
	if b, err := exec.Command("/usr/bin/protoc", args...).CombinedOutput(); err != nil {
		core.Internal(fmt.Errorf("protoc %v: %v: %s", args, err, b))
	}
	data, err := os.ReadFile(out)
	core.Internal(err)
	core.Internal(os.Remove(out))
	set := &descriptor.FileDescriptorSet{}
	core.Internal(proto.Unmarshal(data, set))
	return set
}

func byName(t *core.T, what string, set *descriptor.FileDescriptorSet) (map[string]*descriptor.FileDescriptorProto, []string) {
	m := map[string]*descriptor.FileDescriptorProto{}
	var names []string
	for _, f := range set.File {
		if m[f.GetName()] != nil {
			t.Failf("duplicate", "%s contains %s twice", what, f.GetName())
		}
		m[f.GetName()] = f
		names = append(names, f.GetName())
	}
	sort.Strings(names)
	return m, names
}

func compare(t *core.T, got, want *descriptor.FileDescriptorSet) {
	g, gn := byName(t, "the set", got)
	r, rn := byName(t, "the reference", want)
	if !core.Equal(gn, rn) {
		t.Failf("files", "the set contains %v instead of %v", gn, rn)
	}
	for n, f := range r {
		if g[n] == nil {
			continue
		}
		if !proto.Equal(g[n], f) || proto.Size(g[n]) != proto.Size(f) {
			t.Failf("content", "the descriptor of %s is %s instead of %s", n, proto.CompactTextString(g[n]), proto.CompactTextString(f))
		}
	}
}

// check runs one command in dir and compares.
func check(t *core.T, w *core.W, dir string, k kase, m mode, want *descriptor.FileDescriptorSet) {
	before := core.Snapshot(path.Dir(dir))
	target := ""
	if m.file != "" {
		target = path.Join(dir, m.file)
		// what is there is longer than what is written
		core.Internal(os.WriteFile(target, bytes.Repeat([]byte("x"), 200000), 0644))
	}
	args := cliArgs(k, m)
	res := core.CLI(dir, args...)
	w.Count("runs", 1)
	if res.Code != 0 {
		t.Failf("failed", "%v: exit code %d: %s%s", args, res.Code, res.Out, res.Err)
		return
	}
	data := []byte(res.Out)
	switch {
	case target != "":
		if len(data) != 0 {
			t.Failf("stdout", "%v prints %q", args, res.Out)
		}
		var err error
		data, err = os.ReadFile(target)
		core.Internal(err)
		core.Internal(os.Remove(target))
	case m.tmp:
		lines := res.Lines()
		if len(lines) != 1 || !filepath.IsAbs(lines[0]) {
			t.Failf("stdout", "%v prints %q", args, res.Out)
			return
		}
		var err error
		data, err = os.ReadFile(lines[0])
		if err != nil {
			t.Failf("tmp", "%v", err)
			return
		}
		core.Internal(os.Remove(lines[0]))
	}
	got := &descriptor.FileDescriptorSet{}
	if m.json {
		if err := jsonpb.Unmarshal(bytes.NewReader(data), got); err != nil {
			t.Failf("json", "%v: %v", args, err)
			return
		}
		s, err := (&jsonpb.Marshaler{}).MarshalToString(want)
		core.Internal(err)
		want = &descriptor.FileDescriptorSet{}
		core.Internal(jsonpb.UnmarshalString(s, want))
	} else if err := proto.Unmarshal(data, got); err != nil {
		t.Failf("binary", "%v: %v", args, err)
		return
	}
	w.Nontrivial(string(data))
	compare(t, got, want)
	if after := core.Snapshot(path.Dir(dir)); len(core.DiffSnapshots(before, after)) != 0 {
		t.Failf("footprint", "%v changed %v", args, core.DiffSnapshots(before, after))
	}
	if e := core.TempEntries(); len(e) != 0 {
		t.Failf("temp", "%v left %v", args, e)
		core.CleanTemp()
	}
	if m.name == "stdout" {
		if again := core.CLI(dir, args...); again != res {
			t.Failf("repeated", "%v: the second time, the output is different", args)
		}
		if k.Imports {
			core.Internal(os.WriteFile(dir+".set", data, 0644))
			names := []string{"-o", "/dev/null", "--descriptor_set_in", dir + ".set"}
			for _, f := range want.File {
				names = append(names, f.GetName())
			}
			if b, err := exec.Command("/usr/bin/protoc", names...).CombinedOutput(); err != nil {
				t.Failf("consumer", "protoc cannot read the set: %s", b)
			}
			core.Internal(os.Remove(dir + ".set"))
		}
	}
}

func protos(files map[string]string) []string {
	var out []string
	for f := range files {
		if strings.HasSuffix(f, ".proto") {
			out = append(out, f)
		}
	}
	sort.Strings(out)
	return out
}

const conf = "protoc:\n  allow_unused_imports: true\n"

func run(w *core.W) {
	core.UseSystemProtoc()
	graphs(w)
	features(w)
	selections(w)
	failures(w)
}

// graphs are all acyclic import graphs over four files in three directories.
func graphs(w *core.W) {
	files := []string{"b/m.proto", "b/a.proto", "b/c/z.proto", "a.proto"}
	if w.Thorough() {
		files = append(files, "c/b.proto")
	}
	n := len(files)
	for _, flavour := range []string{"", "public ", "weak "} {
		if flavour == "weak " && !w.Thorough() {
			continue
		}
		dags(n, func(edges [][]bool, name string) {
			for _, imports := range []bool{false, true} {
				for _, source := range []bool{false, true} {
					k := kase{Part: "graph", Tree: flavour + name, Imports: imports, Source: source, Mode: "stdout"}
					if n > 4 && source {
						continue
					}
					if flavour != "" && source {
						continue
					}
					w.Case(k, func(t *core.T) {
						tree := map[string]string{"prototool.yaml": conf}
						for i, f := range files {
							s := fmt.Sprintf("// File %d.\nsyntax = \"proto3\";\n\npackage p%d.v1;\n\n", i, i%3)
							fields := ""
							for j := range files {
								if edges[i][j] {
									s += fmt.Sprintf("import %s\"%s\";\n", flavour, files[j])
									fields += fmt.Sprintf("  .p%d.v1.M%d f%d = %d; // trailing\n", j%3, j, j, j+1)
								}
							}
							tree[f] = s + fmt.Sprintf("\n// Comment %d.\nmessage M%d {\n%s}\n", i, i, fields)
						}
						dir := w.Fresh("t") + "/w"
						core.Write(dir, tree)
						want := reference(dir, []string{dir}, abs(dir, protos(tree)), imports, source)
						check(t, w, dir, k, modes[0], want)
					})
				}
			}
		})
	}
}

func abs(dir string, names []string) []string {
	var out []string
	for _, n := range names {
		out = append(out, path.Join(dir, n))
	}
	return out
}

// dags calls f with all acyclic graphs over n nodes.
func dags(n int, f func(edges [][]bool, name string)) {
	type pair struct{ i, j int }
	var pairs []pair
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			pairs = append(pairs, pair{i, j})
		}
	}
	dims := make([]int, len(pairs))
	for i := range dims {
		dims[i] = 3
	}
	core.Product(dims, func(v []int) {
		edges := make([][]bool, n)
		for i := range edges {
			edges[i] = make([]bool, n)
		}
		name := ""
		for i, p := range pairs {
			switch v[i] {
			case 1:
				edges[p.i][p.j] = true
				name += fmt.Sprintf(" %d>%d", p.i, p.j)
			case 2:
				edges[p.j][p.i] = true
				name += fmt.Sprintf(" %d>%d", p.j, p.i)
			}
		}
		if acyclic(edges) {
			f(edges, name)
		}
	})
}

func acyclic(edges [][]bool) bool {
	n := len(edges)
	gone := make([]bool, n)
	for left := n; left > 0; {
		found := false
		for i := 0; i < n; i++ {
			if gone[i] {
				continue
			}
			free := true
			for j := 0; j < n; j++ {
				free = free && (gone[j] || !edges[i][j])
			}
			if free {
				gone[i], found = true, true
				left--
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// features are trees with what descriptors can contain.
func features(w *core.W) {
	for _, f := range featureTrees {
		f := f
		for _, imports := range []bool{false, true} {
			for _, source := range []bool{false, true} {
				for _, m := range modes {
					m := m
					if m.name == "break" && (!imports || source) {
						continue
					}
					for _, arg := range []string{"", ".", "$", "../w/"} {
						if arg != "" && arg != "$" && source {
							continue
						}
						k := kase{Part: "feature", Tree: f.name, Imports: imports, Source: source, Mode: m.name, Arg: arg}
						w.Case(k, func(t *core.T) {
							tree := map[string]string{"prototool.yaml": conf}
							for n, s := range f.files {
								tree[n] = s
							}
							root := w.Fresh("t")
							dir := root + "/w"
							core.Write(dir, tree)
							core.Internal(os.MkdirAll(root+"/o", 0755))
							want := reference(dir, []string{dir}, abs(dir, protos(tree)), imports, source)
							kk := k
							kk.Arg = strings.Replace(k.Arg, "$", dir, 1)
							check(t, w, dir, kk, m, want)
						})
					}
				}
			}
		}
	}
}

// selections are of the files of a tree by argument, working directory, excludes, and includes.
func selections(w *core.W) {
	file := func(pkg string, n int, imports ...string) string {
		s := fmt.Sprintf("syntax = \"proto3\";\npackage %s;\n", pkg)
		for _, i := range imports {
			s += fmt.Sprintf("import \"%s\";\n", i)
		}
		return s + fmt.Sprintf("message S%d {\n}\n", n)
	}
	tree := map[string]string{
		"top.proto":      file("top", 0, "a/a.proto"),
		"a/a.proto":      file("a", 1, "ab/c.proto", "inc.proto"),
		"a/b.proto":      file("a", 2, "a/x/d.proto", "google/protobuf/timestamp.proto"),
		"a/x/d.proto":    file("a.x", 3),
		"a/x/y/e.proto":  file("a.x.y", 4, "ab/c.proto", "deep/inc2.proto"),
		"ab/c.proto":     file("ab", 5),
		"ab/unrelated.x": "not a proto file",
	}
	outside := map[string]string{
		"inc.proto":       file("inc", 6, "deep/inc2.proto"),
		"deep/inc2.proto": file("inc.deep", 7),
	}
	dirs := []string{"", "a", "a/x", "a/x/y", "ab"}
	excludes := []string{"", "a/x", "a/a.proto", "ab", "a/x/y/e.proto", "a"}
	for _, cwd := range []string{"", "a", "a/x", "ab", ".."} {
		for _, target := range dirs {
			for _, exclude := range excludes {
				for _, imports := range []bool{false, true} {
					for _, absolute := range []bool{false, true} {
						k := kase{Part: "selection", Imports: imports, Mode: "stdout", Dir: cwd, Arg: target, Exclude: exclude}
						if absolute {
							k.Arg = "$/" + target
						}
						target := target
						w.Case(k, func(t *core.T) {
							root := w.Fresh("t")
							dir := root + "/w"
							core.Write(dir, tree)
							core.Write(root+"/inc", outside)
							c := "excludes: [" + exclude + "]\n" + conf + "  includes:\n  - ../inc\n"
							core.Write(dir, map[string]string{"prototool.yaml": c})
							var names []string
							for _, n := range protos(tree) {
								if target != "" && !strings.HasPrefix(n, target+"/") {
									continue
								}
								if exclude != "" && (n == exclude || strings.HasPrefix(n, exclude+"/")) {
									continue
								}
								names = append(names, n)
							}
							work := path.Join(dir, cwd)
							kk := k
							if absolute {
								kk.Arg = path.Join(dir, target)
							} else {
								var err error
								kk.Arg, err = filepath.Rel(work, path.Join(dir, target))
								core.Internal(err)
							}
							if len(names) == 0 {
								res := core.CLI(work, cliArgs(kk, modes[0])...)
								w.Count("runs", 1)
								w.Nontrivial("empty " + res.Out)
								if res.Code == 0 && res.Out != "" {
									t.Failf("empty", "%q is printed for no files", res.Out)
								}
								return
							}
							want := reference(dir, []string{root + "/inc", dir}, abs(dir, names), imports, false)
							check(t, w, work, kk, modes[0], want)
						})
					}
				}
			}
		}
	}
}

// failures write nothing.
func failures(w *core.W) {
	files := []string{"a.proto", "b/b.proto", "c/c.proto"}
	broken := []string{
		"",
		"syntax = \"proto3\";\npackage x;\nmessage {\n",
		"syntax = \"proto3\";\npackage x;\nmessage M {\n  Unknown u = 1;\n}\n",
		"syntax = \"proto3\";\npackage x;\nimport \"nothing.proto\";\n",
		"syntax = \"proto3\";\npackage x;\nimport \"google/protobuf/any.proto\";\n",
	}
	core.Product([]int{len(broken), len(broken), len(broken)}, func(v []int) {
		for _, m := range modes {
			m := m
			bad := v[0]+v[1]+v[2] > 0
			v := append([]int(nil), v...)
			if !bad {
				continue
			}
			for _, exists := range []bool{false, true} {
				if exists && m.file == "" {
					continue
				}
				exists := exists
				k := kase{Part: "failure", Tree: fmt.Sprint(v, exists), Imports: true, Mode: m.name}
				w.Case(k, func(t *core.T) {
					root := w.Fresh("t")
					dir := root + "/w"
					core.Write(dir, map[string]string{"prototool.yaml": ""})
					core.Internal(os.MkdirAll(root+"/o", 0755))
					for i, f := range files {
						s := broken[v[i]]
						if s == "" {
							s = fmt.Sprintf("syntax = \"proto3\";\npackage x%d;\nmessage M {\n}\n", i)
						}
						core.Write(dir, map[string]string{f: strings.Replace(s, "package x;", fmt.Sprintf("package x%d;", i), 1)})
					}
					if exists {
						core.Internal(os.WriteFile(path.Join(dir, m.file), []byte("previous"), 0644))
					}
					before := core.Snapshot(root)
					args := cliArgs(k, m)
					res := core.CLI(dir, args...)
					w.Count("runs", 1)
					w.Nontrivial(fmt.Sprint(v))
					if res.Code == 0 {
						t.Failf("accepted", "%v: exit code 0", args)
					}
					for i, f := range files {
						if has := strings.Contains(res.Out, f+":") || strings.Contains(res.Out, `"filename":"`+f+`"`); has != (v[i] > 0) {
							t.Failf("report", "%v: %s reported: %v", args, f, has)
						}
					}
					for _, l := range res.Lines() {
						if n := strings.Count(l, ":"); n < 3 && !m.json {
							t.Failf("output", "%v prints %q", args, l)
						}
					}
					if d := core.DiffSnapshots(before, core.Snapshot(root)); len(d) != 0 {
						t.Failf("written", "%v wrote %v", args, d)
					}
					if e := core.TempEntries(); len(e) != 0 {
						t.Failf("temp", "%v left %v", args, e)
						core.CleanTemp()
					}
				})
			}
		}
	})
	// what cannot be
	for _, args := range [][]string{
		{"descriptor-set", "-o", "out.bin", "--tmp"},
		{"descriptor-set", "--tmp", "--output-path=out.bin", "--json"},
		{"break", "descriptor-set"},
		{"break", "descriptor-set", "."},
		{"descriptor-set", "-o", "missing/out.bin"},
		{"descriptor-set", "-o", "b"},
		{"break", "descriptor-set", "-o", "missing/out.bin"},
		{"descriptor-set", ".", "."},
		{"descriptor-set", "nowhere"},
		{"descriptor-set", "-o", "out.bin", "nowhere"},
	} {
		args := args
		w.Case(kase{Part: "refused", Tree: strings.Join(args, " ")}, func(t *core.T) {
			dir := w.Fresh("t") + "/w"
			core.Write(dir, map[string]string{"prototool.yaml": "", "b/a.proto": "syntax = \"proto3\";\npackage a;\n"})
			before := core.Snapshot(dir)
			res := core.CLI(dir, args...)
			w.Nontrivial(res.Out)
			if res.Code == 0 {
				t.Failf("accepted", "%v: exit code 0", args)
			}
			if d := core.DiffSnapshots(before, core.Snapshot(dir)); len(d) != 0 {
				t.Failf("written", "%v wrote %v", args, d)
			}
			if e := core.TempEntries(); len(e) != 0 {
				t.Failf("temp", "%v left %v", args, e)
				core.CleanTemp()
			}
		})
	}
}
