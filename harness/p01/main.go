//go:build go1.22

// P01: the files a command works on are exactly those the configuration selects.
package main

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
)

// the tree always has these directories below the repository root r; names are
// chosen so that one is a string prefix of another.
var dirs = []string{"r", "r/a", "r/ab", "r/a/b", "r/a/ab"}

type conf struct {
	Excludes []string // nil: no config file
	JSON     bool
}

type tree struct {
	Files    []string
	Root     *conf // r
	Sub      *conf // r/a
	Deep     *conf // r/a/b
	DataExcl []string
	Data     bool
}

// reference model of the documented selection rules. All paths are slash paths
// relative to the scratch directory. ok is false if the command must fail.
func model(t *tree, work string, arg string) (files []string, ok bool) {
	confs := map[string]*conf{}
	if t.Root != nil {
		confs["r"] = t.Root
	}
	if t.Sub != nil {
		confs["r/a"] = t.Sub
	}
	if t.Deep != nil {
		confs["r/a/b"] = t.Deep
	}
	nearest := func(d string) string {
		for {
			if confs[d] != nil {
				return d
			}
			if d == "." {
				return ""
			}
			d = path.Dir(d)
		}
	}
	under := func(p, d string) bool {
		return p == d || (d == "." && p != ".." && !strings.HasPrefix(p, "../")) || strings.HasPrefix(p, d+"/")
	}
	start := arg
	if t.Data {
		start = work
	} else if n := nearest(arg); n != "" {
		start = n
	}
	// a config that excludes its own directory or something outside is an error,
	// as soon as the walk meets it
	var excl []string
	resolve := func(owner string, list []string) bool {
		for _, e := range list {
			p := path.Join(owner, e)
			if p == owner || !under(p, owner) {
				return false
			}
			excl = append(excl, p)
		}
		return true
	}
	isExcluded := func(p string) bool {
		for _, e := range excl {
			if e != start && under(p, e) {
				return true
			}
		}
		return false
	}
	if t.Data {
		if !resolve(work, t.DataExcl) {
			return nil, false
		}
	} else {
		// parents first, skipping excluded directories
		var ds []string
		for _, d := range append([]string{"."}, dirs...) {
			if under(d, start) {
				ds = append(ds, d)
			}
		}
		sort.Strings(ds)
		for _, d := range ds {
			if isExcluded(d) {
				continue
			}
			if c := confs[d]; c != nil {
				if !resolve(d, c.Excludes) {
					return nil, false
				}
			}
		}
	}
	owners := map[string]bool{}
	for _, f := range t.Files {
		if path.Ext(f) != ".proto" || !under(f, start) || isExcluded(f) {
			continue
		}
		owners[nearest(path.Dir(f))] = true
		if under(path.Dir(f), arg) {
			files = append(files, rel(work, f))
		}
	}
	if !t.Data && len(owners) > 1 {
		return nil, false
	}
	sort.Strings(files)
	return files, true
}

func rel(base, p string) string {
	b, q := []string{}, strings.Split(p, "/")
	if base != "." {
		b = strings.Split(base, "/")
	}
	i := 0
	for i < len(b) && i < len(q) && b[i] == q[i] {
		i++
	}
	var out []string
	for j := i; j < len(b); j++ {
		out = append(out, "..")
	}
	out = append(out, q[i:]...)
	return strings.Join(out, "/")
}

func (c *conf) write(files map[string]string, dir string) {
	if c == nil {
		return
	}
	if c.JSON {
		data, _ := json.Marshal(map[string]interface{}{"excludes": c.Excludes})
		files[dir+"/prototool.json"] = string(data)
		return
	}
	s := "excludes:\n"
	for _, e := range c.Excludes {
		s += "  - " + e + "\n"
	}
	if len(c.Excludes) == 0 {
		s = "lint:\n  group: empty\n"
	}
	files[dir+"/prototool.yaml"] = s
}

func main() {
	core.Main(&core.Check{
		ID:    "P01",
		Level: "exploration",
		Rule: "A case is a directory tree (which of 7 files exist, which of 3 directories hold a configuration file, which excludes each lists, or --config-data) " +
			"together with every working directory and every directory or file argument; non-trivial: at least one file is selected and at least one .proto file is not, or the selection must be refused.",
		Assumptions: []string{"no symbolic links", "at most three nested configuration files"},
		Run:         run,
	})
}

func run(w *core.W) {
	allFiles := []string{"r/x.proto", "r/a/x.proto", "r/a/y.proto", "r/ab/x.proto", "r/a/b/x.proto", "r/a/ab/x.proto", "r/a/x.protox"}
	rootExcl := []string{"a", "ab", "a/b", "a/x.proto", "a/y.pro", "./a/../ab", "b"}
	subExcl := []string{"b", "x.proto", "ab"}
	var rootConfs, subConfs, deepConfs []*conf
	rootConfs = append(rootConfs, nil)
	core.Subsets(len(rootExcl), w.Pick(2, 3), func(m int) {
		c := &conf{JSON: m%2 == 1}
		for i, e := range rootExcl {
			if m&(1<<uint(i)) != 0 {
				c.Excludes = append(c.Excludes, e)
			}
		}
		rootConfs = append(rootConfs, c)
	})
	// refused excludes
	rootConfs = append(rootConfs, &conf{Excludes: []string{"."}}, &conf{Excludes: []string{"../r2"}}, &conf{Excludes: []string{"../r"}}, &conf{Excludes: []string{"a", ".."}})
	subConfs = append(subConfs, nil)
	core.Subsets(len(subExcl), w.Pick(1, 3), func(m int) {
		c := &conf{JSON: m%2 == 0}
		for i, e := range subExcl {
			if m&(1<<uint(i)) != 0 {
				c.Excludes = append(c.Excludes, e)
			}
		}
		subConfs = append(subConfs, c)
	})
	subConfs = append(subConfs, &conf{Excludes: []string{"../ab"}})
	deepConfs = []*conf{nil, {}, {Excludes: []string{"x.proto"}}}
	fileMasks := []int{}
	for m := 0; m < 1<<7; m++ {
		if w.Thorough() || m&0x40 != 0 || m == 0x3f {
			// quick: the odd extension is always there, except in one tree
			if !w.Thorough() && m&0x04 == 0 && m&0x02 != 0 {
				continue // quick: x.proto and y.proto of r/a together
			}
			fileMasks = append(fileMasks, m)
		}
	}
	for _, rc := range rootConfs {
		for si, sc := range subConfs {
			for di, dc := range deepConfs {
				if !w.Thorough() && rc != nil && len(rc.Excludes) > 1 && (di > 0 || si > 1) {
					continue
				}
				for _, m := range fileMasks {
					t := &tree{Root: rc, Sub: sc, Deep: dc}
					for i, f := range allFiles {
						if m&(1<<uint(i)) != 0 {
							t.Files = append(t.Files, f)
						}
					}
					w.Case(t, func(ct *core.T) { check(ct, t) })
				}
			}
		}
	}
	special(w)
	// --config-data: acts as the only configuration file, in the working directory
	for _, base := range []*tree{{}, {Root: &conf{Excludes: []string{"a"}}}, {Root: &conf{}, Sub: &conf{Excludes: []string{"b"}}}} {
		for _, de := range [][]string{{}, {"a"}, {"ab"}, {"a/b"}, {"r/a"}, {"b"}, {"x.proto"}, {"a", "ab"}, {"."}, {"../ab"}, {"r"}} {
			for _, m := range fileMasks {
				t := &tree{Root: base.Root, Sub: base.Sub, Data: true, DataExcl: de}
				for i, f := range allFiles {
					if m&(1<<uint(i)) != 0 {
						t.Files = append(t.Files, f)
					}
				}
				w.Case(t, func(ct *core.T) { check(ct, t) })
			}
		}
	}
}

type named struct {
	Names   []string
	Config  int // depth of the directory that has the configuration, -1: none
	Exclude int // depth of what is excluded, relative to the configuration; 0: nothing
	Arg     int
}

// special: a chain of directories and files whose names are out of an alphabet of
// unusual names; no name may change what is selected.
func special(w *core.W) {
	alphabet := []string{"p", ".hidden", "_x", "vendor", "node_modules", "testdata", "third_party", "x.proto", "google", "a b", "é", "build", "...", "..a", "a..", "-d", "prototool.yaml.d", "tmp", "bazel-out", ".git"}
	for _, a := range alphabet {
		for _, b := range alphabet {
			for c, conf := range []int{-1, 0, 1, 2} {
				for arg := 0; arg < 3; arg++ {
					for ex := 0; ex < 4; ex++ {
						if conf == -1 && ex > 0 || conf+ex > 3 {
							continue
						}
						if !w.Thorough() && a != "p" && b != "p" && (c+arg+ex)%3 != 0 {
							continue
						}
						k := named{[]string{a, b}, conf, ex, arg}
						w.Case(k, func(t *core.T) { checkNames(t, k) })
					}
				}
			}
		}
	}
}

func checkNames(t *core.T, k named) {
	root := t.W.Fresh("n")
	d := []string{".", k.Names[0], k.Names[0] + "/" + k.Names[1]}
	file := []string{"top.proto", ".f.proto", "-.x.proto"}
	files := map[string]string{}
	for i := range d {
		for _, f := range file {
			files[path.Join(d[i], f)] = "syntax = \"proto3\";\n"
		}
		files[path.Join(d[i], "proto")] = ""
		files[path.Join(d[i], "x.PROTO")] = ""
	}
	excluded := ""
	switch {
	case k.Config < 0:
	case k.Exclude == 0:
		files[path.Join(d[k.Config], "prototool.yaml")] = "{}\n"
	default:
		if at := k.Config + k.Exclude; at < 3 {
			excluded = d[at]
		} else {
			excluded = path.Join(d[2], "top.proto")
		}
		list, _ := json.Marshal([]string{rel(d[k.Config], excluded)})
		files[path.Join(d[k.Config], "prototool.yaml")] = "excludes: " + string(list) + "\n"
	}
	core.Write(root, files)
	var want []string
	owners := map[bool]bool{}
	below := func(p, dir string) bool { return dir == "." || p == dir || strings.HasPrefix(p, dir+"/") }
	start := k.Arg
	if k.Config >= 0 && k.Config <= k.Arg {
		start = k.Config
	}
	for i := range d {
		for _, f := range file {
			p := path.Join(d[i], f)
			// an excluded directory does not apply to what is asked for below it without a configuration in between
			if excluded != "" && below(p, excluded) || !below(p, d[start]) {
				continue
			}
			owners[k.Config >= 0 && below(p, d[k.Config])] = true
			if below(p, d[k.Arg]) {
				want = append(want, p)
			}
		}
	}
	sort.Strings(want)
	arg := "./" + d[k.Arg]
	r := core.CLI(root, "files", arg)
	t.W.Nontrivial(fmt.Sprint(k))
	if len(owners) > 1 {
		if r.Code == 0 {
			t.Failf("accepted", "prototool files %s must be refused, printed %q", arg, r.Out)
		}
		return
	}
	if r.Code != 0 || !core.Equal(r.Lines(), want) {
		t.Failf("selection", "prototool files %s exits with %d and lists %q, the rules select %q", arg, r.Code, r.Lines(), want)
	}
}

// invalid returns true if some configuration file is to be refused.
func invalid(t *tree) bool {
	for _, c := range []*conf{t.Root, t.Sub, t.Deep} {
		if c != nil {
			for _, e := range c.Excludes {
				if strings.HasPrefix(e, ".") && !strings.HasPrefix(e, "./") {
					return true
				}
			}
		}
	}
	return false
}

// governed returns true if a configuration file applies to the directory.
func governed(t *tree, d string) bool {
	return t.Root != nil || (t.Sub != nil && (d == "r/a" || strings.HasPrefix(d, "r/a/"))) || (t.Deep != nil && d == "r/a/b")
}

func check(ct *core.T, t *tree) {
	w := ct.W
	dir := w.Fresh("t")
	files := map[string]string{}
	for _, d := range dirs {
		files[d+"/"] = ""
	}
	for _, f := range t.Files {
		files[f] = "syntax = \"proto3\";\n"
	}
	t.Root.write(files, "r")
	t.Sub.write(files, "r/a")
	t.Deep.write(files, "r/a/b")
	core.Write(dir, files)
	type query struct{ work, arg, spelled string }
	var queries []query
	for _, work := range []string{"r", "r/a", "."} {
		for _, arg := range []string{"r", "r/a", "r/ab", "r/a/b"} {
			if t.Data && !(arg == work || work == "." || strings.HasPrefix(arg, work+"/")) {
				continue // --config-data applies to the working directory
			}
			if !t.Data && !governed(t, arg) && !(arg == work || work == "." || strings.HasPrefix(arg, work+"/")) {
				continue // without any configuration file the argument has to be in the working directory
			}
			queries = append(queries, query{work, arg, rel(work, arg)})
		}
		if !t.Data && work == "r" {
			queries = append(queries, query{work, "r/a", dir + "/r/a"}, query{work, "r/a", "./ab/../a/"})
		}
	}
	for _, q := range queries {
		if q.spelled == "" {
			q.spelled = "."
		}
		args := []string{"files", q.spelled}
		if t.Data {
			data, _ := json.Marshal(map[string]interface{}{"excludes": t.DataExcl})
			args = append(args, "--config-data", string(data))
		}
		res := core.CLI(dir+"/"+q.work, args...)
		want, ok := model(t, q.work, q.arg)
		w.Count("queries", 1)
		if invalid(t) && (ok || len(t.Files) == 0) {
			// whether a configuration that is to be refused is even read when it
			// governs no selected file is not specified
			continue
		}
		if !ok {
			if res.Code == 0 {
				ct.Failf("accepted", "in %s: prototool %v must be refused, printed %q", q.work, args, res.Out)
			}
			w.Nontrivial(fmt.Sprintf("%v|%v|%+v", q, t.Files, res.Out))
			continue
		}
		got := res.Lines()
		if res.Code != 0 {
			ct.Failf("refused", "in %s: prototool %v must list %q but failed with %d: %s", q.work, args, want, res.Code, res.Out)
			continue
		}
		if !core.Equal(got, want) {
			ct.Failf("selection", "in %s: prototool %v lists %q, the rules select %q", q.work, args, got, want)
		}
		protos := 0
		for _, f := range t.Files {
			if path.Ext(f) == ".proto" {
				protos++
			}
		}
		if len(want) > 0 && len(want) < protos {
			w.Nontrivial(fmt.Sprintf("%v|%v|%v", q, t.Files, want))
		}
	}
}
