//go:build go1.22

// P08: create and config init write the documented files, and never over others.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/settings"
	"github.com/uber/prototool/internal/verifmc/core"
	l "github.com/uber/prototool/internal/verifmc/lintref"
	yaml "gopkg.in/yaml.v2"
)

func main() {
	core.Main(&core.Check{
		ID:          "P08",
		Level:       "exploration",
		Rule:        "A case is a configuration (its place, base packages, lint group, header, java prefix; as a file or as data), a file to create (directory, name, --package, spelling, working directory), or a list of targets in states that allow or forbid creation, or a config init; non-trivial: distinct contents or outcomes.",
		Assumptions: []string{"the reference of the lint rules is right (P28)"},
		Run:         run,
	})
}

type mapping struct{ Dir, Name string }

type config struct {
	Group    string
	Header   []string // content, path, commented
	Prefix   string
	Packages []mapping
}

func (c config) value() map[string]interface{} {
	lint := map[string]interface{}{}
	if c.Group != "" {
		lint["group"] = c.Group
	}
	if c.Prefix != "" {
		lint["java_package_prefix"] = c.Prefix
	}
	if len(c.Header) > 0 {
		h := map[string]interface{}{}
		switch c.Header[0] {
		case "path":
			h["path"] = "header.txt"
		default:
			h["content"] = c.Header[1]
		}
		if len(c.Header) > 2 {
			h["is_commented"] = true
		}
		lint["file_header"] = h
	}
	out := map[string]interface{}{"lint": lint, "excludes": []string{"other"}}
	if c.Packages != nil {
		var ps []interface{}
		for _, m := range c.Packages {
			ps = append(ps, map[string]interface{}{"directory": m.Dir, "name": m.Name})
		}
		out["create"] = map[string]interface{}{"packages": ps}
	}
	return out
}

func (c config) yaml() string {
	data, err := yaml.Marshal(c.value())
	core.Internal(err)
	return string(data)
}

func (c config) json() string {
	data, err := json.Marshal(c.value())
	core.Internal(err)
	return string(data)
}

// header is the text of the header.
func (c config) header() string {
	if len(c.Header) == 0 {
		return ""
	}
	lines := strings.Split(strings.TrimSpace(c.Header[1]), "\n")
	for i, s := range lines {
		s = strings.TrimSpace(s)
		if len(c.Header) <= 2 {
			if s == "" {
				s = "//"
			} else {
				s = "// " + s
			}
		}
		lines[i] = s
	}
	return strings.Join(lines, "\n")
}

// pkg is the package of a new file in dir, with the configuration in conf ("none": none), both below the root.
func (c config) pkg(conf, dir string) string {
	deflt := "uber.prototool.generated"
	if conf != "none" && strings.ToLower(c.Group) == "uber2" {
		deflt = "uber.prototool.generated.v1"
	}
	if conf == "none" {
		return deflt
	}
	conf, dir = path.Join("/", conf), path.Join("/", dir)
	rel := func(base string) (string, bool) {
		if base == dir {
			return "", true
		}
		base = strings.TrimSuffix(base, "/") + "/"
		if strings.HasPrefix(dir, base) {
			return strings.Replace(strings.TrimPrefix(dir, base), "/", ".", -1), true
		}
		return "", false
	}
	best, name, rest := "", "", ""
	for _, m := range c.Packages {
		base := path.Join(conf, m.Dir)
		if r, ok := rel(base); ok && len(base) > len(best) {
			best, name, rest = base, m.Name, r
		}
	}
	if best == "" {
		rest, _ = rel(conf)
		name = ""
	}
	switch {
	case name == "" && rest == "":
		return deflt
	case name == "":
		return rest
	case rest == "":
		return name
	}
	return name + "." + rest
}

// version tells whether the last component is a version, for the names used here.
func version(s string) bool { return s == "v1" || s == "v2" || s == "v1beta1" || s == "v12beta30" }

func upper(s string) string {
	if s == "" {
		return s
	}
	return strings.ToUpper(s[:1]) + s[1:]
}

type option struct{ name, value string }

// derived are the documented values of the options of a package and file.
func derived(pkg, base string) map[string]string {
	parts := strings.Split(pkg, ".")
	last := parts[len(parts)-1]
	versioned := len(parts) > 1 && version(last)
	out := map[string]string{"go_package 1": last + "pb", "go_package 2": last + "pb"}
	if versioned {
		out["go_package 2"] = parts[len(parts)-2] + last
	}
	var caps []string
	for i, p := range parts {
		p = upper(p)
		if i == len(parts)-1 && versioned {
			p = strings.Replace(p, "beta", "Beta", 1)
		}
		caps = append(caps, p)
	}
	out["csharp_namespace"] = strings.Join(caps, ".")
	out["php_namespace"] = strings.Join(caps, `\`)
	letters := ""
	for i, p := range parts {
		if i == len(parts)-1 && versioned {
			continue
		}
		letters += strings.ToUpper(p[:1])
	}
	for len(letters) < 3 {
		letters += "X"
	}
	if letters == "GPB" {
		letters = "GPX"
	}
	out["objc_class_prefix"] = letters
	outer := ""
	for _, p := range strings.Split(base, "_") {
		outer += upper(p)
	}
	out["java_outer_classname"] = outer + "Proto"
	return out
}

// options are the options of a new file.
func options(c config, pkg, base string) []option {
	d := derived(pkg, base)
	prefix := c.Prefix
	if prefix == "" {
		prefix = "com"
	}
	var out []option
	add := func(n, v string) { out = append(out, option{n, `"` + v + `"`}) }
	v2 := strings.ToLower(c.Group) == "uber2"
	if v2 {
		add("csharp_namespace", d["csharp_namespace"])
		add("go_package", d["go_package 2"])
	} else {
		add("go_package", d["go_package 1"])
	}
	out = append(out, option{"java_multiple_files", "true"})
	add("java_outer_classname", d["java_outer_classname"])
	add("java_package", prefix+"."+pkg)
	if v2 {
		add("objc_class_prefix", d["objc_class_prefix"])
		add("php_namespace", strings.Replace(d["php_namespace"], `\`, `\\`, -1))
	}
	return out
}

func content(c config, pkg, base string) string {
	s := ""
	if h := c.header(); h != "" {
		s = h + "\n\n"
	}
	s += "syntax = \"proto3\";\n\npackage " + pkg + ";\n\n"
	for _, o := range options(c, pkg, base) {
		s += "option " + o.name + " = " + o.value + ";\n"
	}
	return s
}

// one is a single file to create.
type one struct {
	Config config
	Conf   string // place of the configuration: none, data, or a directory below the root
	As     string // yaml or json
	Work   string // working directory
	Dir    string // directory of the file
	Base   string // name of the file without .proto
	Arg    string // rel, dot, abs, detour
	Pkg    string // --package
	Far    bool   // another configuration in the root
}

func (o one) run(w *core.W) {
	w.Case(o, func(t *core.T) {
		root := w.Fresh("t")
		fs := map[string]string{"r/ab/": "", "r/a/b/c/": "", "r/b/v1/": "", "out/d/": "", "r/" + o.Work + "/": "", "r/" + o.Dir + "/": ""}
		conf := o.Conf
		args := []string{"create"}
		switch o.Conf {
		case "none":
			o.Config = config{}
		case "data":
			conf = o.Work
			args = append(args, "--config-data", o.Config.json())
			// not used
			fs["r/prototool.yaml"] = config{Group: "google", Prefix: "no", Packages: []mapping{{".", "not.this"}}}.yaml()
		default:
			fs["r/"+path.Join(o.Conf, "prototool."+o.As)] = map[string]string{"yaml": o.Config.yaml(), "json": o.Config.json()}[o.As]
		}
		if o.Far {
			fs["prototool.yaml"] = config{Group: "uber2", Prefix: "no", Packages: []mapping{{".", "not.this"}}}.yaml()
		}
		if len(o.Config.Header) > 0 && o.Config.Header[0] == "path" {
			fs["r/"+path.Join(conf, "header.txt")] = o.Config.Header[1]
		}
		core.Write(root, fs)
		target := path.Join(o.Dir, o.Base+".proto")
		rel, err := filepath.Rel("/x/r/"+o.Work, "/x/r/"+target)
		core.Internal(err)
		switch o.Arg {
		case "dot":
			rel = "./" + rel
		case "abs":
			rel = root + "/r/" + target
		case "detour":
			rel = root + "/out/../r//" + o.Dir + "/./" + o.Base + ".proto"
		}
		args = append(args, rel)
		if o.Pkg != "" {
			args = append(args, "--package", o.Pkg)
		}
		before := core.Snapshot(root)
		res := core.CLI(path.Join(root, "r", o.Work), args...)
		after := core.Snapshot(root)
		if res.Code != 0 || res.Out != "" {
			t.Failf("failed", "exit code %d: %s", res.Code, res.Out)
			return
		}
		pkg := o.Pkg
		if pkg == "" {
			c := conf
			if c != "none" {
				c = path.Join("r", c)
			}
			pkg = o.Config.pkg(c, path.Join("r", o.Dir))
		}
		want := content(o.Config, pkg, o.Base)
		name := path.Join("r", target)
		got := after[name]
		w.Nontrivial(want)
		if strings.TrimSuffix(got, "\n") != strings.TrimSuffix(want, "\n") {
			t.Failf("content", "package %s expected, got\n%s\ninstead of\n%s", pkg, got, want)
		}
		delete(after, name)
		if d := core.DiffSnapshots(before, after); len(d) > 0 {
			t.Failf("others", "changed as well: %v", d)
		}
		// lint
		if o.Conf == "none" || o.Conf == "data" && !strings.HasPrefix(path.Join("/x", o.Dir)+"/", path.Join("/x", o.Work)+"/") {
			return
		}
		group := strings.ToLower(o.Config.Group)
		var rules []string
		switch group {
		case "":
			group = "uber1"
			rules = l.GroupRules(group)
		case "empty":
		default:
			rules = l.GroupRules(group)
		}
		in := map[string]bool{}
		for _, id := range rules {
			in[id] = true
		}
		f := &l.File{Base: o.Base, Nodes: []*l.Node{l.Syntax("proto3"), l.Package(pkg)}}
		if h := o.Config.header(); h != "" {
			f.Head = h + "\n\n"
		}
		for _, op := range options(o.Config, pkg, o.Base) {
			f.Nodes = append(f.Nodes, l.Option(op.name, op.value))
		}
		var rs []string
		for _, s := range l.Dir(l.Config{JavaPrefix: o.Config.Prefix, Header: o.Config.header()}, f) {
			id := s[strings.LastIndex(s, ":")+1:]
			if in[id] {
				rs = append(rs, id)
			}
		}
		largs := []string{"lint", "--json"}
		if o.Conf == "data" {
			largs = append(largs, "--config-data", o.Config.json())
		}
		lint := core.CLI(path.Join(root, "r", conf), largs...)
		var ids []string
		for _, line := range lint.Lines() {
			var x struct {
				LintID  string `json:"lint_id"`
				Message string
			}
			_ = json.Unmarshal([]byte(line), &x)
			ids = append(ids, x.LintID+x.Message[:0])
			if x.LintID == "" {
				t.Failf("lint", "the file does not compile: %s", line)
			}
		}
		if !core.Equal(core.Sorted(ids), core.Sorted(rs)) {
			t.Failf("lint", "lint: %v instead of %v", ids, rs)
		}
		// what names are chosen well passes
		parts := strings.Split(pkg, ".")
		good := o.Config.Prefix == "" && !strings.Contains(pkg, "_") && !strings.Contains(o.Config.header(), "/*") && o.Base == strings.ToLower(o.Base) && (group != "uber2" || len(parts) > 1 && version(parts[len(parts)-1]))
		if good && len(ids) > 0 {
			t.Failf("lint", "the new file does not pass lint: %v", ids)
		}
	})
}

func run(w *core.W) {
	core.UseSystemProtoc()
	l.Extra = derived
	entries := []mapping{{".", "foo.bar"}, {"a", "uber"}, {"a/b", "special.v1"}, {"./a/", "slash"}, {"b", "bee"}, {"b/v1", "gap.pub.bee.v1beta1"}, {"..", "up"}, {"a/../b", "back"}, {"ab", "ab_pkg"}, {"a/b/c/d", "deep"}}
	dirs := []string{"", "a", "a/b", "a/b/c", "ab", "b", "b/v1", "a/b/v1beta1", "v2", "../out", "../out/d"}
	places := []string{"none", "", "a", "a/b"}
	var maps [][]mapping
	maps = append(maps, nil, []mapping{})
	for i, a := range entries {
		maps = append(maps, []mapping{a})
		for j, b := range entries {
			if i == j || path.Clean(a.Dir) == path.Clean(b.Dir) {
				continue
			}
			maps = append(maps, []mapping{a, b})
			if !w.Thorough() {
				continue
			}
			for k, c := range entries {
				if k != i && k != j && path.Clean(c.Dir) != path.Clean(a.Dir) && path.Clean(c.Dir) != path.Clean(b.Dir) {
					maps = append(maps, []mapping{a, b, c})
				}
			}
		}
	}
	// the package
	for _, ms := range maps {
		for _, d := range dirs {
			for _, g := range []string{"", "uber2"} {
				for _, p := range places {
					if p == "none" && (ms != nil || g != "") {
						continue
					}
					c := config{Group: g, Packages: ms}
					governed := p == "none" || p == "" && !strings.HasPrefix(d, "..") || p != "" && strings.HasPrefix(d+"/", p+"/")
					if governed {
						one{Config: c, Conf: p, As: "yaml", Dir: d, Base: "trip", Arg: "rel"}.run(w)
						if p != "none" {
							one{Config: c, Conf: p, As: "json", Dir: d, Base: "trip", Arg: "abs", Far: true}.run(w)
						}
					}
					if p != "none" {
						one{Config: c, Conf: "data", Work: p, Dir: d, Base: "trip", Arg: "rel"}.run(w)
					}
				}
			}
		}
	}
	// the content
	headers := [][]string{nil, {"content", "Acme"}, {"content", "Acme\n\n  Inc.  \n"}, {"content", "// Acme\n//\n// Inc.", "commented"}, {"content", "/*\n * Acme\n */\n", "commented"}, {"path", "Acme & <Sons>\n\nreserved.\n"}, {"path", "// {{.Pkg}}\n", "commented"}}
	for _, g := range []string{"", "uber1", "uber2", "UBER2", "Uber1", "google", "empty"} {
		for _, h := range headers {
			for _, pre := range []string{"", "au.com", "org"} {
				for _, base := range []string{"trip", "foo_bar", "a1_b2", "FooBar", "x"} {
					for _, pkg := range []string{"", "v1", "p", "p.q", "p.q.v1", "p.q.r.v1beta1", "gap.p.b.v2", "g.p.b", "a_b.c_d.v12beta30", "g.p.b.d.v1"} {
						for _, conf := range []string{"", "a", "data"} {
							dir := "a/b"
							c := config{Group: g, Header: h, Prefix: pre}
							one{Config: c, Conf: conf, As: "yaml", Dir: dir, Base: base, Arg: "rel", Pkg: pkg}.run(w)
						}
					}
				}
			}
		}
	}
	// working directories and spellings
	for _, work := range []string{"", "a", "a/b", "ab", "../out", "a/b/c"} {
		for _, arg := range []string{"rel", "dot", "abs", "detour"} {
			for _, d := range dirs {
				for _, p := range []string{"none", "", "a", "a/b", "data"} {
					for _, as := range []string{"yaml", "json"} {
						if p != "none" && p != "data" && !strings.HasPrefix(path.Join("/x", d)+"/", path.Join("/x", p)+"/") {
							continue
						}
						one{Config: config{Group: "uber2", Header: []string{"path", "Acme"}, Packages: []mapping{{".", "foo.v1"}, {"a/b", "uber"}}}, Conf: p, As: as, Work: work, Dir: d, Base: "trip", Arg: arg, Far: p != "none"}.run(w)
					}
				}
			}
		}
	}
	overwrite(w)
	inits(w)
}

// states of a target, and whether it can be created.
var states = []struct {
	Name string
	OK   bool
}{
	{"new", true}, {"empty", true}, {"link-to-empty", true}, {"nested", true},
	{"full", false}, {"newline", false}, {"same-as-created", false}, {"directory", false}, {"no-parent", false}, {"parent-is-file", false}, {"link-to-full", false}, {"read-only-full", false}, {"bad-config", false},
}

func overwrite(w *core.W) {
	n := len(states)
	max := 2
	if w.Thorough() {
		max = 3
	}
	var rec func(idx []int)
	rec = func(idx []int) {
		if len(idx) > 0 {
			idx := append([]int(nil), idx...)
			overwriteCase(w, idx, false)
			if len(idx) == 2 {
				overwriteCase(w, idx, true)
			}
		}
		if len(idx) == max {
			return
		}
		for i := 0; i < n; i++ {
			rec(append(idx, i))
		}
	}
	rec(nil)
}

func overwriteCase(w *core.W, idx []int, same bool) {
	var names []string
	for _, i := range idx {
		names = append(names, states[i].Name)
	}
	w.Case(map[string]interface{}{"targets": names, "first again": same}, func(t *core.T) {
		root := w.Fresh("t")
		fs := map[string]string{"prototool.yaml": "create:\n  packages:\n  - directory: .\n    name: foo\n"}
		var args, creates []string
		ok := true
		for k, i := range idx {
			s := states[i]
			base := fmt.Sprintf("f%d", k)
			p := base + ".proto"
			switch s.Name {
			case "new":
			case "nested":
				p = base + "/" + p
				fs[base+"/"] = ""
			case "empty":
				fs[p] = ""
			case "full":
				fs[p] = "syntax = \"proto3\";\n"
			case "newline":
				fs[p] = "\n"
			case "same-as-created":
				fs[p] = strings.TrimSuffix(content(config{}, "foo", base), "\n")
			case "directory":
				fs[p+"/"] = ""
			case "no-parent":
				p = base + "/" + p
			case "parent-is-file":
				fs[base] = ""
				p = base + "/" + p
			case "link-to-empty":
				fs[base+".txt"] = ""
			case "link-to-full":
				fs[base+".txt"] = "x"
			case "read-only-full":
				fs[p] = "x"
			case "bad-config":
				fs[base+"/prototool.yaml"] = "nope: 1\n"
				p = base + "/" + p
			}
			ok = ok && s.OK
			args = append(args, p)
			creates = append(creates, p)
		}
		if same {
			args = append(args, args[0])
		}
		core.Write(root, fs)
		for k, i := range idx {
			base := fmt.Sprintf("%s/f%d", root, k)
			switch states[i].Name {
			case "link-to-empty", "link-to-full":
				core.Internal(os.Symlink(fmt.Sprintf("f%d.txt", k), base+".proto"))
			case "read-only-full":
				core.Internal(os.Chmod(base+".proto", 0444))
			}
		}
		before := core.Snapshot(root)
		res := core.CLI(root, append([]string{"create"}, args...)...)
		after := core.Snapshot(root)
		w.Nontrivial(fmt.Sprint(names, res.Code))
		if !ok {
			if res.Code == 0 || res.Out == "" {
				t.Failf("overwrite", "created: exit code %d, %q", res.Code, res.Out)
			}
			// files in front of one with an invalid configuration may have been created
			for k, i := range idx {
				if states[i].Name == "bad-config" && k > 0 {
					for _, p := range creates[:k] {
						if _, had := before[p]; !had {
							delete(after, p)
						} else if before[p] == "" {
							after[p] = ""
							after[strings.TrimSuffix(p, ".proto")+".txt"] = ""
							before[strings.TrimSuffix(p, ".proto")+".txt"] = ""
						}
					}
				}
			}
			if d := core.DiffSnapshots(before, after); len(d) > 0 {
				t.Failf("overwrite", "changed: %v", d)
			}
			return
		}
		if res.Code != 0 {
			t.Failf("failed", "exit code %d: %s", res.Code, res.Out)
		}
		for k, p := range creates {
			pkg, base := "foo", fmt.Sprintf("f%d", k)
			if strings.Contains(p, "/") {
				pkg += "." + base
			}
			want := strings.TrimSuffix(content(config{}, pkg, base), "\n")
			if strings.TrimSuffix(after[p], "\n") != want {
				t.Failf("content", "%s is %q", p, after[p])
			}
			delete(after, p)
			delete(before, p)
			if states[idx[k]].Name == "link-to-empty" {
				delete(after, base+".txt")
				delete(before, base+".txt")
			}
		}
		if d := core.DiffSnapshots(before, after); len(d) > 0 {
			t.Failf("others", "changed as well: %v", d)
		}
	})
}

// inits are the configuration files of config init.
func inits(w *core.W) {
	for _, flags := range [][]string{nil, {"--document"}, {"--uncomment"}, {"--document", "--uncomment"}} {
		for _, arg := range []string{"", ".", "d", "./d/", "new", "new/deep/er", "$/d", "../t/d", "file"} {
			for _, state := range []string{"none", "empty", "full", "other", "directory", "above", "proto"} {
				flags, arg, state := flags, arg, state
				w.Case(map[string]interface{}{"init": flags, "arg": arg, "state": state}, func(t *core.T) {
					root := w.Fresh("t")
					dir := path.Clean(strings.Replace(strings.Replace(arg, "$/", "", 1), "../t/", "", 1))
					fs := map[string]string{"d/": "", "file": "x"}
					p := path.Join(dir, "prototool.yaml")
					ok := arg != "file"
					if strings.HasPrefix(arg, "new") || !ok {
						if state != "none" && state != "above" {
							return
						}
					}
					switch state {
					case "empty":
						fs[p], ok = "", false
					case "full":
						fs[p], ok = "lint:\n  group: google\n", false
					case "directory":
						fs[p+"/"], ok = "", false
					case "other":
						fs[path.Join(dir, "prototool.yml")] = "x"
					case "proto":
						fs[path.Join(dir, "a.proto")] = "syntax = \"proto3\";\npackage a;\n"
					case "above":
						if dir == "." {
							return
						}
						fs["prototool.yaml"] = "lint:\n  group: google\n"
					}
					core.Write(root, fs)
					args := append([]string{"config", "init"}, flags...)
					if arg != "" {
						args = append(args, strings.Replace(arg, "$", root, 1))
					}
					before := core.Snapshot(root)
					res := core.CLI(root, args...)
					after := core.Snapshot(root)
					w.Nontrivial(fmt.Sprint(flags, ok, arg == "", state))
					if !ok {
						if res.Code == 0 || res.Out == "" {
							t.Failf("init", "exit code %d, %q", res.Code, res.Out)
						}
						if d := core.DiffSnapshots(before, after); len(d) > 0 {
							t.Failf("init", "changed: %v", d)
						}
						return
					}
					if res.Code != 0 || res.Out != "" {
						t.Failf("init", "exit code %d, %q", res.Code, res.Out)
						return
					}
					got := after[p]
					delete(after, p)
					if strings.HasPrefix(dir, "new") {
						for d := dir; d != "."; d = path.Dir(d) {
							delete(after, d+"/")
						}
					}
					if d := core.DiffSnapshots(before, after); len(d) > 0 {
						t.Failf("init", "changed as well: %v", d)
					}
					var e settings.ExternalConfig
					if err := yaml.UnmarshalStrict([]byte(got), &e); err != nil {
						t.Failf("init", "not a valid configuration: %v\n%s", err, got)
						return
					}
					if e.Lint.Group != "uber2" || e.Protoc.Version == "" {
						t.Failf("init", "not the recommended options: %s", got)
					}
					plain := settings.ExternalConfig{}
					plain.Lint.Group, plain.Protoc.Version = e.Lint.Group, e.Protoc.Version
					a, _ := yaml.Marshal(plain)
					b, _ := yaml.Marshal(e)
					uncommented := false
					for _, f := range flags {
						uncommented = uncommented || f == "--uncomment"
					}
					if uncommented == (string(a) == string(b)) {
						t.Failf("init", "options set: %s", b)
					}
					if uncommented || len(flags) > 0 {
						for _, key := range []string{"excludes:", "includes:", "allow_unused_imports:", "create:", "packages:", "ignores:", "rules:", "add:", "remove:", "file_header:", "is_commented:", "java_package_prefix:", "break:", "include_beta:", "allow_beta_deps:", "generate:", "go_options:", "import_path:", "extra_modifiers:", "plugins:", "type:", "flags:", "output:", "file_suffix:", "include_imports:", "include_source_info:"} {
							if !strings.Contains(got, key) {
								t.Failf("init", "%s is not documented", key)
							}
						}
					}
					if uncommented {
						return
					}
					// it governs its directory, with the group uber2
					core.Write(root, map[string]string{path.Join(dir, "x/v1/"): ""})
					if list := core.CLI(path.Join(root, dir), "lint", "--list-linters"); list.Code != 0 || len(list.Lines()) != len(l.GroupRules("uber2")) {
						t.Failf("init", "the rules are not those of uber2: %d %s", list.Code, list.Out)
					}
					if list := core.CLI(path.Join(root, dir), "files"); list.Code != 0 {
						if state == "proto" || !strings.Contains(list.Out, "no input files") {
							t.Failf("init", "the configuration does not work: %d %s", list.Code, list.Out)
						}
					}
				})
			}
		}
	}
}
