//go:build go1.22

// P03: a configuration means the same in every form, and what is not understood is refused.
package main

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
	yaml "gopkg.in/yaml.v2"
)

func main() {
	core.Main(&core.Check{
		ID:          "P03",
		Level:       "exploration",
		Rule:        "A case is a set of settings written in every form (YAML block, flow, with comments and anchors, JSON compact and indented, data on the command line), or a configuration broken in one place (unknown key, wrong type, invalid value, syntax, two files) in every form; it is observed by eleven commands on a tree sensitive to every setting; non-trivial: distinct observations.",
		Assumptions: []string{"the version of protoc is only compared between forms when it is downloaded, which this check does not do (P18)"},
		Run:         run,
	})
}

type obj = map[string]interface{}
type list = []interface{}

// setting is a value at a path of keys.
type setting struct {
	Path  string
	Value interface{}
	// Silent settings have no effect here.
	Silent bool
}

var settings = []setting{
	{"excludes", list{"sub"}, false},
	{"excludes", list{"./sub/x.proto", "br/beta"}, false},
	{"protoc.allow_unused_imports", true, false},
	{"protoc.includes", list{"../inc"}, false},
	{"protoc.version", "3.8.0", true},
	{"create.packages", list{obj{"directory": ".", "name": "base"}}, false},
	{"create.packages", list{obj{"directory": "a/b", "name": "deep.v1"}, obj{"directory": "sub", "name": "x"}}, false},
	{"lint.group", "google", false},
	{"lint.group", "uber2", false},
	{"lint.group", "empty", false},
	{"lint.ignores", list{obj{"id": "MESSAGE_NAMES_CAPITALIZED", "files": list{"a/trip.proto"}}}, false},
	{"lint.ignores", list{obj{"id": "syntax_proto3", "files": list{"a"}}, obj{"id": "MESSAGE_NAMES_CAPITALIZED", "files": list{"sub", "a/b", "a/trip.proto"}}}, false},
	{"lint.rules.no_default", true, false},
	{"lint.rules.add", list{"MESSAGE_FIELDS_NOT_FLOATS"}, false},
	{"lint.rules.remove", list{"MESSAGE_NAMES_CAPITALIZED", "syntax_proto3"}, false},
	{"lint.file_header.content", "Acme: \"Inc\" # 1\n\n'x'\n", false},
	{"lint.file_header.path", "header.txt", false},
	{"lint.file_header.is_commented", true, true}, // alone
	{"lint.java_package_prefix", "au.com", false},
	{"break.include_beta", true, false},
	{"break.allow_beta_deps", true, false},
	{"generate.go_options.import_path", "x.y/z", true}, // alone
	{"generate.go_options.extra_modifiers", obj{"k/v.proto": "k/v", "a/b.proto": "q"}, true},
	{"generate.plugins", list{obj{"name": "java", "output": "gen/java"}}, false},
	{"generate.plugins", list{obj{"name": "java", "output": "../gen/java", "file_suffix": "jar", "flags": "a=b,c", "path": "sh"}}, false},
	{"generate.plugins", list{obj{"name": "descriptor_set", "output": "gen", "file_suffix": "bin"}}, false},
	{"generate.plugins", list{obj{"name": "descriptor_set", "output": "gen", "file_suffix": "bin", "include_imports": true}}, false},
	{"generate.plugins", list{obj{"name": "descriptor_set", "output": "gen", "file_suffix": "bin", "include_source_info": true}, obj{"name": "cpp", "output": "."}}, false},
	{"generate", obj{"go_options": obj{"import_path": "x.y/z"}, "plugins": list{obj{"name": "go", "type": "go", "output": "gen"}}}, false},
	{"generate", obj{"go_options": obj{"import_path": "x.y/z", "extra_modifiers": obj{"k/v.proto": "k/v"}}, "plugins": list{obj{"name": "gogo", "type": "gogo", "output": "gen"}}}, false},
}

// set sets a value, or fails if the place is taken.
func set(o obj, p string, v interface{}) bool {
	parts := strings.Split(p, ".")
	for _, k := range parts[:len(parts)-1] {
		switch x := o[k].(type) {
		case nil:
			n := obj{}
			o[k] = n
			o = n
		case obj:
			o = x
		default:
			return false
		}
	}
	last := parts[len(parts)-1]
	if _, ok := o[last]; ok {
		return false
	}
	o[last] = v
	return true
}

func build(ss ...setting) (obj, bool) {
	o := obj{}
	for _, s := range ss {
		if !set(o, s.Path, clone(s.Value)) {
			return nil, false
		}
	}
	return o, true
}

func clone(v interface{}) interface{} {
	switch x := v.(type) {
	case obj:
		n := obj{}
		for k, e := range x {
			n[k] = clone(e)
		}
		return n
	case list:
		n := list{}
		for _, e := range x {
			n = append(n, clone(e))
		}
		return n
	}
	return v
}

// form is one way to write a configuration.
type form struct {
	Name  string
	File  string // "" for data on the command line
	Write func(v interface{}) string
}

func asJSON(v interface{}) string {
	data, err := json.Marshal(v)
	core.Internal(err)
	return string(data)
}

func indented(v interface{}) string {
	data, err := json.MarshalIndent(v, "\t", "   ")
	core.Internal(err)
	return "\n\t" + string(data) + "\n\n"
}

func asYAML(v interface{}) string {
	data, err := yaml.Marshal(v)
	core.Internal(err)
	return string(data)
}

// block writes YAML with comments, quotes, an anchor and keys in reverse order.
func block(v interface{}) string {
	var sb strings.Builder
	sb.WriteString("%YAML 1.1\n---\n# comment\n\n")
	anchored := false
	var write func(v interface{}, ind string)
	write = func(v interface{}, ind string) {
		switch x := v.(type) {
		case obj:
			var keys []string
			for k := range x {
				keys = append(keys, k)
			}
			sort.Sort(sort.Reverse(sort.StringSlice(keys)))
			for i, k := range keys {
				if i > 0 || ind == "" {
					sb.WriteString(ind)
				}
				sb.WriteString(`"` + k + `":`)
				switch e := x[k].(type) {
				case obj:
					if len(e) == 0 {
						sb.WriteString(" {}\n")
						continue
					}
					sb.WriteString(" # a map\n" + ind + "   ")
					write(e, ind+"   ")
				case list:
					if len(e) == 0 {
						sb.WriteString(" []\n")
						continue
					}
					sb.WriteString("\n")
					write(e, ind)
				default:
					sb.WriteString(" ")
					write(e, "")
				}
			}
		case list:
			for _, e := range x {
				sb.WriteString(ind + "-   ")
				write(e, ind+"    ")
			}
		case string:
			if !anchored {
				anchored = true
				sb.WriteString("&anchor ")
			}
			if strings.ContainsAny(x, "\n'") {
				sb.WriteString(asJSON(x) + "\n")
			} else {
				sb.WriteString("'" + x + "' # it\n")
			}
		case bool:
			sb.WriteString(map[bool]string{true: "yes", false: "off"}[x] + "\n")
		default:
			sb.WriteString(asJSON(x) + "\n")
		}
	}
	if o, ok := v.(obj); ok && len(o) == 0 {
		sb.WriteString("{}\n")
	} else {
		write(v, "")
	}
	return sb.String()
}

var forms = []form{
	{"yaml", "prototool.yaml", asYAML},
	{"json", "prototool.json", asJSON},
	{"data", "", asJSON},
	{"flow", "prototool.yaml", asJSON},
	{"block", "prototool.yaml", block},
	{"indented", "prototool.json", indented},
	{"indented data", "", indented},
}

var base = map[string]string{
	"inc/inc.proto":        "syntax = \"proto3\";\npackage inc;\nmessage Inc {}\n",
	"w/header.txt":         "From path\n",
	"w/a/trip.proto":       "syntax = \"proto2\";\npackage a;\nmessage trip { optional float f = 1; }\n",
	"w/a/b/deep.proto":     "syntax = \"proto3\";\npackage a.b.v1;\noption java_package = \"x\";\nmessage Deep {}\n",
	"w/sub/x.proto":        "syntax = \"proto3\";\npackage sub;\nmessage X {}\n",
	"w/sub/y.proto":        "syntax = \"proto3\";\npackage sub;\nmessage Y {}\n",
	"w/user/user.proto":    "syntax = \"proto3\";\npackage user;\nimport \"inc.proto\";\nmessage User { inc.Inc inc = 1; }\n",
	"w/unused/un.proto":    "syntax = \"proto3\";\npackage unused;\nimport \"google/protobuf/empty.proto\";\nmessage U {}\n",
	"w/br/beta/beta.proto": "syntax = \"proto3\";\npackage br.v1beta1;\nmessage Beta {}\n",
	"w/br/stable.proto":    "syntax = \"proto3\";\npackage br.v1;\nimport \"br/beta/beta.proto\";\nmessage Stable { br.v1beta1.Beta beta = 1; }\n",
}

// old is the state that break check compares with.
var old = func() map[string]string {
	return map[string]string{
		"w/br/beta/beta.proto": "syntax = \"proto3\";\npackage br.v1beta1;\nmessage Beta { string gone = 1; }\n",
		"w/br/stable.proto":    "syntax = \"proto3\";\npackage br.v1;\nmessage Stable {}\n",
	}
}()

var oldState string

func tree(w *core.W) string {
	root := w.Fresh("t")
	if oldState == "" {
		core.Write(root, old)
		res := core.CLI(root+"/w", "break", "descriptor-set", "br", "-o", root+"/old.bin")
		if res.Code != 0 {
			core.Internal(fmt.Errorf("cannot save the old state: %s", res.Out))
		}
		oldState = core.Snapshot(root)["old.bin"]
		root = w.Fresh("t")
	}
	core.Write(root, base)
	core.Write(root, map[string]string{"old.bin": oldState})
	return root
}

// commands are what a configuration is observed by.
var commands = [][]string{
	{"files"},
	{"lint", "a", "--json"},
	{"lint", "--list-linters"},
	{"compile", "user"},
	{"compile", "unused"},
	{"generate", "--dry-run"},
	{"format", "--fix", "-d", "a"},
	{"create", "a/b/new.proto", "sub/new.proto"},
	{"break", "check", "br", "--descriptor-set-path", "../old.bin"},
}

// readers are commands that need a configuration that is understood.
var readers = append([][]string{
	{"lint", "--generate-ignores", "a"},
	{"format", "-w", "a"},
	{"generate", "a"},
	{"all", "a"},
	{"compile", "a"},
	{"descriptor-set", "a"},
	{"inspect", "packages", "a"},
	{"break", "descriptor-set", "a", "-o", "../new.bin"},
	{"cache", "update", "a"},
}, commands...)

// observe runs all commands.
func observe(t *core.T, root string, data []string) []string {
	var out []string
	for _, c := range commands {
		before := core.Snapshot(root)
		args := append(append([]string(nil), c...), data...)
		res := core.CLI(root+"/w", args...)
		lines := res.Lines()
		var kept []string
		for _, s := range lines {
			if strings.HasPrefix(s, "--- ") || strings.HasPrefix(s, "+++ ") {
				s = s[:4] // dates
			}
			kept = append(kept, s)
		}
		if c[0] == "generate" {
			sort.Strings(kept)
		}
		after := core.Snapshot(root)
		s := fmt.Sprintf("%s: %d\n%s", strings.Join(c, " "), res.Code, strings.Join(kept, "\n"))
		for _, d := range core.DiffSnapshots(before, after) {
			s += "\n" + d + ": " + after[d[1:]]
		}
		out = append(out, s)
		if c[0] == "create" {
			root = restore(root, after)
		}
	}
	return out
}

func restore(root string, after map[string]string) string {
	for _, p := range []string{"w/a/b/new.proto", "w/sub/new.proto"} {
		if _, ok := after[p]; ok {
			core.Internal(remove(path.Join(root, p)))
		}
	}
	return root
}

// place writes the configuration, and returns the arguments that go with it.
func place(root string, f form, text string) []string {
	if f.File == "" {
		return []string{"--config-data", text}
	}
	core.Write(root, map[string]string{"w/" + f.File: text})
	return nil
}

func unplace(root string, f form) {
	if f.File != "" {
		core.Internal(remove(path.Join(root, "w", f.File)))
	}
}

func first(a, b []string) string {
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("%s\n--- instead of\n%s", a[i], b[i])
		}
	}
	return ""
}

// same compares all forms of a configuration.
func same(w *core.W, name interface{}, o obj, differs *obj) {
	w.Case(map[string]interface{}{"same": name, "config": o}, func(t *core.T) {
		root := tree(w)
		var want []string
		for i, f := range forms {
			data := place(root, f, f.Write(o))
			got := observe(t, root, data)
			w.Count("observations", int64(len(got)))
			unplace(root, f)
			if i == 0 {
				want = got
				w.Nontrivial(strings.Join(got, "\n"))
				continue
			}
			if d := first(got, want); d != "" {
				t.Failf("form", "as %s:\n%s\nconfiguration:\n%s", f.Name, d, f.Write(o))
			}
		}
		if differs != nil {
			data := place(root, forms[0], forms[0].Write(*differs))
			if d := first(observe(t, root, data), want); d == "" {
				t.Failf("effect", "the setting has no effect")
			}
		}
	})
}

// refused demands that all readers refuse the text.
func refused(w *core.W, name interface{}, f form, text string) {
	w.Case(map[string]interface{}{"refused": name, "form": f.Name, "text": text}, func(t *core.T) {
		root := tree(w)
		data := place(root, f, text)
		refusedHere(t, w, root, data)
	})
}

func refusedHere(t *core.T, w *core.W, root string, data []string) {
	before := core.Snapshot(root)
	for _, c := range readers {
		args := append(append([]string(nil), c...), data...)
		res := core.CLI(root+"/w", args...)
		w.Count("refusals", 1)
		if res.Code == 0 || len(res.Lines()) == 0 {
			t.Failf("refused", "%v: exit code %d, %q", c, res.Code, res.Out)
		}
		after := core.Snapshot(root)
		if d := core.DiffSnapshots(before, after); len(d) > 0 {
			t.Failf("refused", "%v changed %v", c, d)
			before = after
		}
		w.Nontrivial(res.Out)
	}
}

func run(w *core.W) {
	core.UseSystemProtoc()
	empty := obj{}
	same(w, "empty", obj{}, nil)
	for _, s := range settings {
		o, _ := build(s)
		if s.Silent {
			same(w, "one", o, nil)
		} else {
			same(w, "one", o, &empty)
		}
	}
	// settings that need another
	for _, p := range [][]setting{
		{{Path: "lint.file_header.path", Value: "header.txt"}, {Path: "lint.file_header.is_commented", Value: true}},
		{{Path: "lint.file_header.content", Value: "// x"}, {Path: "lint.file_header.is_commented", Value: true}},
		{{Path: "generate", Value: obj{"go_options": obj{"import_path": "x.y/z"}, "plugins": list{obj{"name": "go", "type": "go", "output": "gen"}}}}, {Path: "generate.go_options.extra_modifiers", Value: obj{"k/v.proto": "k/v"}}},
		{{Path: "generate.plugins", Value: list{obj{"name": "java", "output": "gen"}}}, {Path: "excludes", Value: list{"sub"}}},
		{{Path: "generate.plugins", Value: list{obj{"name": "java", "output": "gen"}}}, {Path: "protoc.includes", Value: list{"../inc"}}},
	} {
		before, _ := build(p[0])
		o, ok := build(p...)
		if ok {
			same(w, "needs", o, &before)
		}
	}
	// combinations
	n := len(settings)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			o, ok := build(settings[i], settings[j])
			if !ok {
				continue
			}
			same(w, "two", o, nil)
			if !w.Thorough() {
				continue
			}
			for k := j + 1; k < n; k++ {
				if o, ok := build(settings[i], settings[j], settings[k]); ok {
					same(w, "three", o, nil)
				}
			}
		}
	}
	// false, empty and absent are the same
	for _, s := range settings {
		var v interface{}
		switch s.Value.(type) {
		case bool:
			v = false
		case string:
			v = ""
		case list:
			v = list{}
		case obj:
			v = obj{}
		}
		s, o := s, obj{}
		set(o, s.Path, v)
		w.Case(map[string]interface{}{"zero": s.Path, "config": o}, func(t *core.T) {
			root := tree(w)
			want := observe(t, root, place(root, forms[0], forms[0].Write(obj{})))
			unplace(root, forms[0])
			for _, f := range forms {
				got := observe(t, root, place(root, f, f.Write(o)))
				unplace(root, f)
				if d := first(got, want); d != "" {
					t.Failf("zero", "as %s: %s", f.Name, d)
				}
			}
		})
	}
	// empty files
	for _, text := range []struct{ File, Text string }{{"prototool.yaml", ""}, {"prototool.json", ""}, {"prototool.yaml", "\n \n"}, {"prototool.yaml", "# nothing\n"}, {"prototool.yaml", "{}"}, {"prototool.yaml", "---\n"}, {"prototool.json", " {} "}, {"prototool.yaml", "lint:\nprotoc:\n"}, {"prototool.json", `{"lint":null,"excludes":null}`}} {
		text := text
		w.Case(map[string]string{"empty": text.File, "text": text.Text}, func(t *core.T) {
			root := tree(w)
			want := observe(t, root, place(root, forms[0], forms[0].Write(obj{})))
			unplace(root, forms[0])
			got := observe(t, root, place(root, form{File: text.File}, text.Text))
			if d := first(got, want); d != "" {
				t.Failf("zero", "%s", d)
			}
		})
	}
	broken(w)
	others(w)
}

// broken configurations are refused.
func broken(w *core.W) {
	full := obj{
		"excludes": list{"sub"},
		"protoc":   obj{"allow_unused_imports": true, "version": "3.8.0", "includes": list{"../inc"}},
		"create":   obj{"packages": list{obj{"directory": ".", "name": "base"}}},
		"lint": obj{
			"group":               "google",
			"ignores":             list{obj{"id": "SYNTAX_PROTO3", "files": list{"a"}}},
			"rules":               obj{"no_default": true, "add": list{"FILE_HEADER"}, "remove": list{"SYNTAX_PROTO3"}},
			"file_header":         obj{"content": "// x", "is_commented": true},
			"java_package_prefix": "au",
		},
		"break": obj{"include_beta": true, "allow_beta_deps": true},
		"generate": obj{
			"go_options": obj{"import_path": "x.y/z", "extra_modifiers": obj{"k.proto": "k"}},
			"plugins":    list{obj{"name": "java", "type": "", "flags": "", "output": "gen", "path": "", "file_suffix": "jar", "include_imports": false, "include_source_info": false}},
		},
	}
	same(w, "full", full, nil)
	// every place of the configuration
	type place struct {
		path []interface{} // keys and indexes
		v    interface{}
	}
	var places []place
	var walk func(v interface{}, p []interface{})
	walk = func(v interface{}, p []interface{}) {
		places = append(places, place{append([]interface{}(nil), p...), v})
		switch x := v.(type) {
		case obj:
			var keys []string
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				walk(x[k], append(p, k))
			}
		case list:
			for i, e := range x {
				walk(e, append(p, i))
			}
		}
	}
	walk(full, nil)
	// with returns a copy where the value at the place is f of it; alone leaves out all siblings.
	var with func(v interface{}, p []interface{}, alone bool, f func(v interface{}) interface{}) interface{}
	with = func(v interface{}, p []interface{}, alone bool, f func(v interface{}) interface{}) interface{} {
		if len(p) == 0 {
			return f(clone(v))
		}
		switch x := v.(type) {
		case obj:
			n := obj{}
			if !alone {
				n = clone(x).(obj)
			}
			k := p[0].(string)
			n[k] = with(x[k], p[1:], alone, f)
			return n
		case list:
			n := list{}
			for i, e := range x {
				if i == p[0].(int) {
					e = with(e, p[1:], alone, f)
				} else if alone {
					continue
				}
				n = append(n, e)
			}
			return n
		}
		panic("no such place")
	}
	some := forms
	if !w.Thorough() {
		some = []form{forms[0], forms[1], forms[2], forms[4]}
	}
	known := map[string]bool{}
	for _, p := range places {
		if o, ok := p.v.(obj); ok {
			for k := range o {
				known[k] = true
			}
		}
	}
	var all []string
	for k := range known {
		all = append(all, k)
	}
	sort.Strings(all)
	for _, p := range places {
		p := p
		where := fmt.Sprint(p.path)
		for _, f := range some {
			f := f
			switch x := p.v.(type) {
			case obj:
				if len(p.path) > 0 && p.path[len(p.path)-1] == "extra_modifiers" {
					break
				}
				// unknown keys: misspelt, of other places, and of earlier versions
				extra := []string{"nope", "", "x-y", "allow_unused", "no_default_excludes", "protoc_version", "exclude_ids", "gen"}
				for k := range x {
					extra = append(extra, k+"s", k[:len(k)-1], " "+k, strings.Replace(k, "_", "-", -1), strings.Replace(k, "_", "", -1))
				}
				extra = append(extra, all...)
				sort.Strings(extra)
				last := "-"
				for _, k := range extra {
					if _, ok := x[k]; ok || k == last {
						continue
					}
					if len(p.path) == 2 && p.path[1] == "file_header" && k == "path" || len(p.path) == 1 && p.path[0] == "lint" && k == "allow_suppression" {
						continue
					}
					last = k
					refused(w, "unknown key "+k+" at "+where, f, f.Write(with(full, p.path, false, func(v interface{}) interface{} {
						v.(obj)[k] = "x"
						return v
					})))
				}
				refused(w, "unknown key alone at "+where, f, f.Write(with(full, p.path, true, func(v interface{}) interface{} { return obj{"nope": true} })))
				for _, bad := range []interface{}{"x", true, list{"x"}} {
					refused(w, "wrong type at "+where, f, f.Write(with(full, p.path, true, func(v interface{}) interface{} { return bad })))
				}
			case list:
				for _, bad := range []interface{}{"x", true, obj{"x": "y"}} {
					refused(w, "wrong type at "+where, f, f.Write(with(full, p.path, true, func(v interface{}) interface{} { return bad })))
				}
			case string:
				for _, bad := range []interface{}{list{"x"}, obj{"x": "y"}, list{obj{}}} {
					refused(w, "wrong type at "+where, f, f.Write(with(full, p.path, true, func(v interface{}) interface{} { return bad })))
				}
			case bool:
				for _, bad := range []interface{}{list{true}, obj{"x": "y"}, "maybe"} {
					refused(w, "wrong type at "+where, f, f.Write(with(full, p.path, true, func(v interface{}) interface{} { return bad })))
				}
			}
		}
	}
	// invalid values, alone and beside all others
	plugin := func(kv ...interface{}) list {
		o := obj{"name": "java", "output": "gen"}
		for i := 0; i < len(kv); i += 2 {
			if kv[i+1] == nil {
				delete(o, kv[i].(string))
			} else {
				o[kv[i].(string)] = kv[i+1]
			}
		}
		return list{obj{"name": "cpp", "output": "gen"}, o}
	}
	for _, s := range []setting{
		{Path: "excludes", Value: list{"sub", "."}},
		{Path: "excludes", Value: list{"sub", "../w"}},
		{Path: "excludes", Value: list{"../inc"}},
		{Path: "excludes", Value: list{"../w2", "sub"}},
		{Path: "excludes", Value: list{"/"}},
		{Path: "create.packages", Value: list{obj{"directory": "", "name": "x"}}},
		{Path: "create.packages", Value: list{obj{"directory": "a", "name": "x"}, obj{"directory": "b"}}},
		{Path: "create.packages", Value: list{obj{"directory": "/a", "name": "x"}}},
		{Path: "lint.file_header", Value: obj{"path": "header.txt", "content": "x"}},
		{Path: "lint.file_header", Value: obj{"path": "none.txt"}},
		{Path: "lint.file_header", Value: obj{"path": "/etc/hostname"}},
		{Path: "lint.file_header", Value: obj{"path": "a"}},
		{Path: "lint.rules", Value: obj{"add": list{"FILE_HEADER"}, "remove": list{"file_header"}}},
		{Path: "generate.plugins", Value: plugin("output", nil)},
		{Path: "generate.plugins", Value: plugin("output", "")},
		{Path: "generate.plugins", Value: plugin("type", "gogogo")},
		{Path: "generate.plugins", Value: plugin("name", "protoc-gen-java")},
		{Path: "generate.plugins", Value: plugin("file_suffix", ".jar")},
		{Path: "generate.plugins", Value: plugin("include_imports", true)},
		{Path: "generate.plugins", Value: plugin("include_source_info", true)},
		{Path: "generate", Value: obj{"plugins": plugin("type", "go"), "go_options": obj{"extra_modifiers": obj{"a": "b"}}}},
		{Path: "generate", Value: obj{"plugins": plugin("type", "gogo")}},
		{Path: "lint.allow_suppression", Value: true},
	} {
		for _, f := range forms {
			o, _ := build(s)
			refused(w, "invalid "+s.Path, f, f.Write(o))
			for _, other := range settings {
				if o, ok := build(other, s); ok && strings.Split(other.Path, ".")[0] != strings.Split(s.Path, ".")[0] && (w.Thorough() || f.Name == "yaml") {
					refused(w, "invalid "+s.Path, f, f.Write(o))
				}
			}
		}
	}
	// syntax
	good := asJSON(full)
	for _, f := range forms {
		if f.Name != "json" && f.Name != "data" && f.Name != "flow" {
			continue
		}
		step := 7
		if w.Thorough() {
			step = 1
		}
		for i := 1; i < len(good); i += step {
			refused(w, "cut off", f, good[:i])
		}
		if f.Name != "flow" {
			for _, s := range []string{good + "}", good + good, good + " x", "{}" + good, good + ",", "[]", "\"x\"", "1", "[" + good + "]"} {
				refused(w, "not an object", f, s)
			}
		}
	}
	for _, s := range []string{"lint:\n\tgroup: google\n", "lint: [", "lint: {\n", "- lint\n", "x", "lint\n", "lint: &a *b\n", "lint:\n  group: google\n group: x\n", "lint:\n  group: google\nlint:\n  group: google\n", "lint:\n  group: google\n  group: uber2\n", "excludes: \"sub\n", "\x00"} {
		refused(w, "not YAML", forms[0], s)
	}
}

// others: two configuration files, and data beside files.
func others(w *core.W) {
	for _, y := range []string{"", "lint:\n  group: google\n", "nope: 1\n"} {
		for _, j := range []string{"", "{}", `{"lint":{"group":"google"}}`, "x"} {
			y, j := y, j
			w.Case(map[string]string{"two files": y, "json": j}, func(t *core.T) {
				root := tree(w)
				core.Write(root, map[string]string{"w/prototool.yaml": y, "w/prototool.json": j})
				refusedHere(t, w, root, nil)
			})
			for _, d := range []string{"w", "w/a", "w/sub", ""} {
				d := d
				w.Case(map[string]string{"data beside": y, "json": j, "in": d}, func(t *core.T) {
					// the files are not read
					data := []string{"--config-data", `{"lint":{"group":"uber2"},"excludes":["br/beta"]}`}
					root := tree(w)
					want := observe(t, root, data)
					core.Write(root, map[string]string{path.Join(d, "prototool.yaml"): y, path.Join(d, "prototool.json"): j})
					if diff := first(observe(t, root, data), want); diff != "" {
						t.Failf("data", "%s", diff)
					}
				})
			}
		}
	}
	for _, d := range []string{"w", "w/a", "w/sub", ""} {
		for _, text := range []string{"nope: 1\n", "lint:\n  group: google\nexcludes:\n- b\n"} {
			d, text := d, text
			w.Case(map[string]string{"data beside": text, "in": d}, func(t *core.T) {
				data := []string{"--config-data", `{"lint":{"group":"uber2"},"excludes":["br/beta"]}`}
				root := tree(w)
				want := observe(t, root, data)
				core.Write(root, map[string]string{path.Join(d, "prototool.yaml"): text})
				if diff := first(observe(t, root, data), want); diff != "" {
					t.Failf("data", "%s", diff)
				}
			})
		}
	}
}
