//go:build go1.22

// P28: every lint rule reports exactly the documented violations at their lines.
package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
	l "github.com/uber/prototool/internal/verifmc/lintref"
)

func main() {
	core.Main(&core.Check{
		ID:          "P28",
		Level:       "exploration",
		Rule:        "for every source of the families names x kinds, comments x kinds, enum values x nesting, service structures, imports, file options x packages x names, headers, and for every ordered pair of representative sources in one directory: the failures of all 96 rules of the real lint are compared with those of an independent reference of docs/lint.md, by file, line and rule",
		Assumptions: []string{"the reference of the rules is right", "protoc 3.21.12 accepts exactly valid files"},
		Run:         run,
	})
}

// dir is one directory of sources.
type dir struct {
	Label string
	Files []*l.File
}

type config struct{ Prefix, Header string }

// support files outside of what is linted.
var support = map[string]string{
	"third/types.proto":                             "syntax = \"proto3\";\npackage third;\nmessage GetRequest {}\nmessage GetResponse {}\nmessage Thing {}\n",
	"third/ext.proto":                               "syntax = \"proto2\";\npackage third;\nmessage Ext { extensions 100 to max; }\n",
	"google/api/annotations.proto":                  "syntax = \"proto3\";\npackage google.api;\nimport \"google/protobuf/descriptor.proto\";\nmessage HttpRule { string get = 1; string body = 2; }\nextend google.protobuf.MethodOptions { HttpRule http = 72295728; string httpx = 72295729; }\n",
	"x/google/protobuf/any.proto":                   "syntax = \"proto3\";\npackage xa;\n",
	"x/google/protobuf/compiler/plugin.proto":       "syntax = \"proto3\";\npackage xb;\n",
	"xgoogle/protobuf/any.proto":                    "syntax = \"proto3\";\npackage xc;\n",
	"x/google/protobuf/other.proto":                 "syntax = \"proto3\";\npackage xd;\n",
	"google/protobuf/unknown.proto":                 "syntax = \"proto3\";\npackage xe;\n",
	"gogo.proto":                                    "syntax = \"proto3\";\npackage xf;\n",
	"gogoproto/gogo.proto":                          "syntax = \"proto3\";\npackage xg;\n",
	"github.com/gogo/protobuf/gogoproto/gogo.proto": "syntax = \"proto3\";\npackage xh;\n",
	"notgogo.proto":                                 "syntax = \"proto3\";\npackage xi;\n",
	"gogoproto/gogo2.proto":                         "syntax = \"proto3\";\npackage xk;\n",
}

// yaml is the configuration with all rules.
func yaml(c config) string {
	var b strings.Builder
	b.WriteString("protoc:\n  allow_unused_imports: true\nlint:\n  group: empty\n")
	if c.Prefix != "" {
		fmt.Fprintf(&b, "  java_package_prefix: %s\n", c.Prefix)
	}
	if c.Header != "" {
		b.WriteString("  file_header:\n    is_commented: true\n    content: |\n")
		for _, s := range strings.Split(c.Header, "\n") {
			b.WriteString("      " + s + "\n")
		}
	}
	b.WriteString("  rules:\n    add:\n")
	for _, id := range l.IDs() {
		b.WriteString("    - " + id + "\n")
	}
	return b.String()
}

// unspecified are verdicts that the documentation does not settle.
func unspecified(f *l.File) map[string]bool {
	pkg := false
	for _, n := range f.Nodes {
		pkg = pkg || n.Kind == "package"
	}
	if !pkg {
		return map[string]bool{"PACKAGE_LOWER_CASE": true, "PACKAGE_LOWER_SNAKE_CASE": true}
	}
	return nil
}

type jsonFailure struct {
	Filename string `json:"filename"`
	Line     int    `json:"line"`
	Column   int    `json:"column"`
	LintID   string `json:"lint_id"`
	Message  string `json:"message"`
}

// runDirs lints a tree of directories d0, d1, ... in one run.
func runDirs(w *core.W, c config, dirs []dir) {
	labels := make([]string, len(dirs))
	files := map[string]string{}
	for i, d := range dirs {
		labels[i] = d.Label
		for _, f := range d.Files {
			files[fmt.Sprintf("d/%03d/%s.proto", i, f.Base)] = f.Render()
		}
	}
	if len(dirs) == 1 {
		for _, f := range dirs[0].Files {
			labels = append(labels, f.Base+".proto:\n"+f.Render())
		}
	}
	w.Case(map[string]interface{}{"config": c, "sources": labels}, func(t *core.T) {
		root := w.Fresh("lint")
		core.Write(root, support)
		files["prototool.yaml"] = yaml(c)
		core.Write(root, files)
		res := core.CLI(root, "lint", "--json", "d")
		got := make([][]string, len(dirs))
		total := 0
		for _, line := range res.Lines() {
			var f jsonFailure
			if json.Unmarshal([]byte(line), &f) != nil || f.LintID == "" {
				t.Failf("output", "not a lint failure: %s", line)
				return
			}
			var i int
			var base string
			rel := filepath.ToSlash(f.Filename)
			if p := strings.SplitN(rel, "/", 3); len(p) == 3 && p[0] == "d" && files[rel] != "" {
				i, _ = strconv.Atoi(p[1])
				base = p[2]
			} else {
				t.Failf("output", "unknown file: %s", line)
				return
			}
			got[i] = append(got[i], fmt.Sprintf("%s:%d:%s", base, f.Line, f.LintID))
			total++
			if f.Message == "" {
				t.Failf("output", "no message: %s", line)
			}
			src := strings.Split(files[rel], "\n")
			if f.Line > 0 && (f.Line > len(src) || f.Column < 1 || f.Column > len(src[f.Line-1])) {
				t.Failf("position", "outside of the file: %s", line)
			}
			w.Nontrivial(f.LintID)
		}
		w.Count("failures_reported", int64(total))
		w.Count("directories", int64(len(dirs)))
		anyWant := false
		for i, d := range dirs {
			want := l.Dir(l.Config{JavaPrefix: c.Prefix, Header: c.Header}, d.Files...)
			skip := map[string]bool{}
			for _, f := range d.Files {
				for id := range unspecified(f) {
					skip[f.Base+".proto:"+id] = true
				}
			}
			filter := func(in []string) []string {
				var out []string
				for _, s := range in {
					p := strings.Split(s, ":")
					if !skip[p[0]+":"+p[2]] {
						out = append(out, s)
					}
				}
				return out
			}
			g, x := filter(l.Normalize(got[i])), filter(want)
			anyWant = anyWant || len(want) > 0
			missed, extra := minus(x, g), minus(g, x)
			kind := func(what, m string) string {
				if k := known(d.Label, id(m)); k != "" {
					return k
				}
				return what + id(m)
			}
			for _, m := range missed {
				t.Failf(kind("missed:", m), "%s: %s is a violation that is not reported\n%s", d.Label, m, d.Files[0].Render())
			}
			for _, m := range extra {
				t.Failf(kind("false:", m), "%s: %s is reported but not a violation\n%s", d.Label, m, d.Files[0].Render())
			}
		}
		if (res.Code != 0) != anyWant {
			t.Failf("exit", "exit code %d, expected failures: %v", res.Code, anyWant)
		}
	})
}

// known gives sources with known defects kinds of their own.
func known(label, id string) string {
	has := func(parts ...string) bool {
		for _, p := range parts {
			if strings.Contains(label, p) {
				return true
			}
		}
		return false
	}
	comments := strings.HasPrefix(id, "COMMENTS_NO_")
	switch {
	case comments && has("behind the ", "behind body-rpc"):
		return "comment-at-brace"
	case !comments && has(" in group", "above group", "behind group", "ing of group"):
		return "in-group"
	case has("foo.v1.Get") && (strings.HasPrefix(id, "REQUEST_RESPONSE_") || strings.HasSuffix(id, "_EXCEPT_REQUEST_RESPONSE_TYPES")):
		return "qualified"
	}
	return ""
}

func id(s string) string { return s[strings.LastIndex(s, ":")+1:] }

// minus is the multiset difference.
func minus(a, b []string) []string {
	n := map[string]int{}
	for _, s := range b {
		n[s]++
	}
	var out []string
	for _, s := range a {
		if n[s] > 0 {
			n[s]--
		} else {
			out = append(out, s)
		}
	}
	return out
}

const batch = 24

// family runs single sources, each in its own directory.
func family(w *core.W, name string, c config, sources []dir) {
	w.Count("sources_"+name, int64(len(sources)))
	for i := 0; i < len(sources); i += batch {
		j := i + batch
		if j > len(sources) {
			j = len(sources)
		}
		runDirs(w, c, sources[i:j])
	}
}

func run(w *core.W) {
	core.UseSystemProtoc()
	family(w, "names", config{}, names())
	family(w, "types", config{}, types())
	family(w, "enums", config{}, enums())
	family(w, "comments", config{}, comments())
	family(w, "services", config{}, services(w.Thorough()))
	family(w, "misc", config{}, misc())
	for _, prefix := range []string{"", "org.acme"} {
		family(w, "options", config{Prefix: prefix}, fileOptions())
	}
	for _, h := range headers {
		family(w, "headers", config{Header: h}, headerFiles())
	}
	family(w, "dirs", config{}, sameInDir(w.Thorough()))
	family(w, "pairs", config{}, pairs(w.Thorough()))
}

func file(base string, nodes ...*l.Node) *l.File { return &l.File{Base: base, Nodes: nodes} }

func p3(pkg string, nodes ...*l.Node) []*l.Node {
	return append([]*l.Node{l.Syntax("proto3"), l.Package(pkg)}, nodes...)
}

func p2(pkg string, nodes ...*l.Node) []*l.Node {
	return append([]*l.Node{l.Syntax("proto2"), l.Package(pkg)}, nodes...)
}

var typeNames = []string{"Foo", "foo", "FooBar", "foo_bar", "Foo_Bar", "FOO", "FOOBar", "_Foo", "Foo_", "F", "Foo2", "V2Foo", "CommonFoo", "FooData", "Metadata", "Datum", "FooUUID", "Uuid", "COMMON", "uncommonData"}

var fieldNames = []string{"foo", "Foo", "foo_bar", "fooBar", "_foo", "foo_", "foo__bar", "FOO", "f2", "foo_2", "f", "F", "file_name", "my_file_name_x", "filename", "my_file_name", "file_path", "my_file_paths", "filepath", "fileName", "FILE_NAME", "descriptor", "Descriptor", "_descriptor", "descriptor_", "__descriptor__", "DESCRIPTOR", "my_descriptor", "descriptors", "common_x", "data", "metadata", "uuid", "foo_uuid", "uid", "Common"}

var valueNames = []string{"FOO", "foo", "Foo", "FOO_BAR", "_FOO", "FOO_", "FOO__1", "F", "FOO2", "foo_BAR", "COMMON", "FOO_DATA", "X_UUID"}

var serviceNames = []string{"FooAPI", "Foo", "fooAPI", "foo_API", "FooApi", "FooService", "API", "FOOAPI", "_FooAPI", "FooAPI_", "Foo2API", "CommonAPI", "DataAPI", "TripsAPI", "FilesUsersAPI", "FooTripsAPI", "TRIPSAPI"}

// place puts members in a message somewhere.
type place struct {
	name   string
	proto2 bool
	put    func(member *l.Node) []*l.Node
}

func fieldPlaces() []place {
	m := func(name string, kids ...*l.Node) *l.Node { return l.Message(name, kids...) }
	return []place{
		{"message", false, func(k *l.Node) []*l.Node { return []*l.Node{m("Foo", k)} }},
		{"second", false, func(k *l.Node) []*l.Node {
			return []*l.Node{m("Foo", l.Field("string", "ok", 30), k, l.Field("string", "fine", 31))}
		}},
		{"nested", false, func(k *l.Node) []*l.Node { return []*l.Node{m("Foo", m("Bar", k))} }},
		{"nested2", false, func(k *l.Node) []*l.Node { return []*l.Node{m("Foo", m("Bar", m("Baz", k)))} }},
		{"oneof", false, func(k *l.Node) []*l.Node { return []*l.Node{m("Foo", l.Oneof("ok", k))} }},
		{"nested-oneof", false, func(k *l.Node) []*l.Node { return []*l.Node{m("Foo", m("Bar", l.Oneof("ok", k)))} }},
		{"proto2", true, func(k *l.Node) []*l.Node { return []*l.Node{m("Foo", k)} }},
		{"extend", true, func(k *l.Node) []*l.Node {
			k.Num += 100
			return []*l.Node{l.Import("third/ext.proto", ""), l.Extend("third.Ext", k)}
		}},
		{"nested-extend", true, func(k *l.Node) []*l.Node {
			k.Num += 100
			return []*l.Node{l.Import("third/ext.proto", ""), m("Foo", l.Extend("third.Ext", k))}
		}},
		{"group", true, func(k *l.Node) []*l.Node { return []*l.Node{m("Foo", l.Group("Bar", 1, k))} }},
		{"after-service", false, func(k *l.Node) []*l.Node {
			return []*l.Node{l.Service("FooAPI", l.RPC("Get", "GetRequest", "GetResponse")), m("GetRequest", k), m("GetResponse")}
		}},
	}
}

func src(label, base string, proto2 bool, nodes ...*l.Node) dir {
	f := file(base, p3("foo.v1", nodes...)...)
	if proto2 {
		f = file(base, p2("foo.v1", nodes...)...)
		f.Proto2 = true
	}
	return dir{label, []*l.File{f}}
}

// names: every name on every kind of element in every place.
func names() []dir {
	var out []dir
	for _, p := range fieldPlaces() {
		for _, n := range fieldNames {
			out = append(out, src("field "+n+" in "+p.name, "foo", p.proto2, p.put(l.Field("string", n, 1))...))
			if p.name != "oneof" && p.name != "nested-oneof" && !strings.HasSuffix(p.name, "extend") {
				out = append(out, src("map "+n+" in "+p.name, "foo", p.proto2, p.put(l.Map("string, string", n, 1))...))
				out = append(out, src("oneof "+n+" in "+p.name, "foo", p.proto2, p.put(l.Oneof(n, l.Field("string", "x", 1)))...))
				out = append(out, src("repeated "+n+" in "+p.name, "foo", p.proto2, p.put(l.Field("string", n, 1).With(func(n *l.Node) { n.Mod = "repeated" }))...))
			}
		}
		if p.name == "oneof" || p.name == "nested-oneof" || strings.HasSuffix(p.name, "extend") {
			continue
		}
		for _, n := range typeNames {
			out = append(out, src("message "+n+" in "+p.name, "foo", p.proto2, p.put(l.Message(n, l.Field("string", "x", 1)))...))
			out = append(out, src("empty message "+n+" in "+p.name, "foo", p.proto2, p.put(l.Message(n))...))
			out = append(out, src("enum "+n+" in "+p.name, "foo", p.proto2, p.put(l.Enum(n, l.Value("X", 0)))...))
		}
		for _, n := range valueNames {
			out = append(out, src("value "+n+" in "+p.name, "foo", p.proto2, p.put(l.Enum("Kind", l.Value("KIND_INVALID", 0), l.Value(n, 1)))...))
		}
	}
	for _, n := range typeNames {
		if n[0] >= 'A' && n[0] <= 'Z' { // a group needs a capital letter
			for _, where := range []string{"message", "nested"} {
				g := l.Group(n, 1)
				nodes := []*l.Node{l.Message("Foo", g, l.Field("string", "ok", 2))}
				if where == "nested" {
					nodes = []*l.Node{l.Message("Foo", l.Field("string", "ok", 2), l.Message("Bar", l.Field("string", "ok", 2), g))}
				}
				out = append(out, src("name "+n+" of a group, "+where, "foo", true, nodes...))
			}
		}
		out = append(out, src("top message "+n, "foo", false, l.Message(n, l.Field("string", "x", 1))))
		out = append(out, src("top empty message "+n, "foo", false, l.Message(n)))
		out = append(out, src("top enum "+n, "foo", false, l.Enum(n, l.Value("X", 0))))
		out = append(out, src("rpc "+n, "foo_api", false, l.Service("FooAPI", l.RPC(n, n+"Request", n+"Response")), l.Message(n+"Request"), l.Message(n+"Response")))
		out = append(out, src("second rpc "+n, "foo_api", false, l.Service("FooAPI", l.RPC("Ok", "OkRequest", "OkResponse"), l.RPC(n, n+"Request", n+"Response")), l.Message("OkRequest"), l.Message("OkResponse"), l.Message(n+"Request"), l.Message(n+"Response")))
	}
	for _, n := range serviceNames {
		for _, base := range []string{"foo_api", "foo", "fooapi", "api", "foo2_api", "foo_service", "common_api", "data_api", "trips_api", "files_users_api", "foo_trips_api", "fooAPI", "tripsapi"} {
			out = append(out, src("service "+n+" in "+base, base, false, l.Service(n)))
			if base == "foo_api" {
				out = append(out, src("second service "+n, base, false, l.Service("OkAPI"), l.Service(n)))
			}
		}
	}
	for _, base := range []string{"foo", "Foo", "fooBar", "foo_bar", "foo-bar", "foo.bar", "_foo", "foo_", "foo2", "2foo", "FOO", "foo__bar", "f", "foo bar"} {
		out = append(out, src("file name "+base, base, false))
	}
	return out
}

// types: every field name that speaks of time with every type in every place.
func types() []dir {
	var out []dir
	imports := []*l.Node{l.Import("google/protobuf/duration.proto", ""), l.Import("google/protobuf/timestamp.proto", "")}
	for _, p := range fieldPlaces() {
		for _, typ := range []string{"string", "float", "double", "google.protobuf.Duration", ".google.protobuf.Duration", "google.protobuf.Timestamp", ".google.protobuf.Timestamp"} {
			for _, n := range []string{"foo", "duration", "foo_duration", "fooduration", "duration_foo", "_duration", "Duration", "time", "foo_time", "footime", "times", "runtime_ms", "Time", "time_duration", "duration_time"} {
				for _, label := range []string{"", "repeated"} {
					if label != "" && strings.HasSuffix(p.name, "oneof") {
						continue
					}
					nodes := append(l.CloneAll(imports), p.put(l.Field(typ, n, 1).With(func(f *l.Node) { f.Mod = label }))...)
					out = append(out, src(fmt.Sprintf("%s %s %s in %s", label, typ, n, p.name), "foo", p.proto2, nodes...))
				}
			}
			if !strings.HasSuffix(p.name, "oneof") && !strings.HasSuffix(p.name, "extend") && typ != "float" {
				for _, n := range []string{"foo", "duration", "footime"} {
					nodes := append(l.CloneAll(imports), p.put(l.Map("string, "+typ, n, 1))...)
					out = append(out, src(fmt.Sprintf("map of %s %s in %s", typ, n, p.name), "foo", p.proto2, nodes...))
				}
			}
		}
		// options of fields
		for _, opts := range [][]string{{"deprecated = true"}, {`json_name = "x"`}, {"deprecated = true", `json_name = "x"`}, {`json_name = "x"`, "deprecated = false"}} {
			if strings.HasSuffix(p.name, "extend") {
				continue // not allowed on extensions
			}
			out = append(out, src(fmt.Sprintf("options %v in %s", opts, p.name), "foo", p.proto2, p.put(l.Field("string", "foo", 1).With(func(f *l.Node) { f.Opts = opts }))...))
			if !strings.HasSuffix(p.name, "oneof") {
				out = append(out, src(fmt.Sprintf("map options %v in %s", opts, p.name), "foo", p.proto2, p.put(l.Map("string, string", "foo", 1).With(func(f *l.Node) { f.Opts = opts }))...))
			}
		}
		if strings.HasSuffix(p.name, "oneof") || strings.HasSuffix(p.name, "extend") {
			continue
		}
		for _, r := range []string{"10", "10 to 20", "10, 12 to 14", `"foo"`, `"foo", "bar"`} {
			nodes := p.put(l.Reserved(r))
			out = append(out, src("reserved "+r+" in "+p.name, "foo", p.proto2, nodes...))
			if strings.HasPrefix(r, "1") {
				out = append(out, src("two reserved "+r+" in "+p.name, "foo", p.proto2, l.Message("Zed", l.Reserved(r), l.Field("string", "x", 1), l.Reserved(`"zed"`))))
			}
			out = append(out, src("enum reserved "+r+" in "+p.name, "foo", p.proto2, p.put(l.Enum("Kind", l.Value("KIND_INVALID", 0), l.Reserved(strings.ToUpper(strings.Replace(r, " to ", " TO ", -1)))))...))
			fixRange(out[len(out)-1].Files[0].Nodes)
		}
	}
	return out
}

func fixRange(nodes []*l.Node) {
	for _, n := range nodes {
		n.Type = strings.Replace(n.Type, " TO ", " to ", -1)
		fixRange(n.Kids)
	}
}

// enums: every enum name, nesting, zero value and prefix.
func enums() []dir {
	var out []dir
	enumNames := map[string]string{"Foo": "FOO", "FooBar": "FOO_BAR", "FOOBar": "FOO_BAR", "FooV2": "FOO_V2", "HTTPServer": "HTTP_SERVER", "A": "A", "foo": "FOO", "Foo2Bar": "FOO2_BAR", "FooB": "FOO_B"}
	var sorted []string
	for n := range enumNames {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	nests := [][]string{{}, {"Outer"}, {"Outer", "InnerMost"}, {"HTTPOuter"}, {"Outer2", "B"}}
	for _, n := range sorted {
		own := enumNames[n]
		if got := strings.ToUpper(l.Snake(n)); got != own {
			panic("reference: " + n + " is " + got)
		}
		for _, nest := range nests {
			full := own
			for i := len(nest) - 1; i >= 0; i-- {
				full = map[string]string{"Outer": "OUTER", "InnerMost": "INNER_MOST", "HTTPOuter": "HTTP_OUTER", "Outer2": "OUTER2", "B": "B"}[nest[i]] + "_" + full
			}
			for _, zero := range []string{own + "_INVALID", full + "_INVALID", own + "_UNKNOWN", own + "INVALID", "INVALID", "X" + own + "_INVALID", own + "_INVALID_X", strings.ToLower(own) + "_invalid"} {
				for _, one := range []string{own + "_ONE", full + "_ONE", own + "ONE", own + "_", "ONE", "X_" + own + "_ONE", strings.ToLower(own) + "_ONE"} {
					for variant, kids := range [][]*l.Node{
						{l.Value(zero, 0), l.Value(one, 1)},
						{l.Value(zero, 0), l.Value(one, 1), l.Value(own+"_LAST", 2), l.Option("allow_alias", "true"), l.Value(own+"_ALIAS", 0)},
						{l.Value(one, 1), l.Value(zero, 0)},
					} {
						if variant > 0 && (nest == nil || len(nest) > 1) {
							continue
						}
						node := l.Enum(n, kids...)
						for i := len(nest) - 1; i >= 0; i-- {
							node = l.Message(nest[i], node, l.Field("string", "x", 1))
						}
						out = append(out, src(fmt.Sprintf("enum %s in %v: %s, %s variant %d", n, nest, zero, one, variant), "foo", variant == 2, node))
					}
				}
			}
		}
	}
	// alias option forms
	for _, lit := range []string{"true"} {
		for _, nest := range []bool{false, true} {
			kids := []*l.Node{l.Option("allow_alias", lit), l.Value("FOO_INVALID", 0), l.Value("FOO_ONE", 1)}
			if lit == "true" {
				kids = append(kids, l.Value("FOO_UN", 1))
			}
			node := l.Enum("Foo", kids...)
			if nest {
				node = l.Message("Outer", node)
			}
			out = append(out, src(fmt.Sprintf("allow_alias %s nested %v", lit, nest), "foo", false, node, l.Enum("Bar", l.Option("deprecated", "true"), l.Value("BAR_INVALID", 0))))
		}
	}
	return out
}

type commentForm struct {
	lines []string
	gap   bool
}

func commentForms(name string) map[string]commentForm {
	cap := strings.ToUpper(name[:1]) + name[1:]
	return map[string]commentForm{
		"none":            {},
		"named":           {[]string{"// " + name + " does it."}, false},
		"named-no-period": {[]string{"// " + name + " does it"}, false},
		"sentence":        {[]string{"// Does it."}, false},
		"lower":           {[]string{"// does it."}, false},
		"digit":           {[]string{"// 2 things."}, false},
		"symbol":          {[]string{"// (Does) it."}, false},
		"upper-accent":    {[]string{"// Élan vital."}, false},
		"lower-accent":    {[]string{"// élan vital."}, false},
		"lower-cyrillic":  {[]string{"// дом там."}, false},
		"upper-cyrillic":  {[]string{"// Дом там."}, false},
		"cjk":             {[]string{"// 日本 go."}, false},
		"name-longer":     {[]string{"// " + name + "ly does it."}, false},
		"name-capital":    {[]string{"// " + cap + " does it."}, false},
		"named-cstyle":    {[]string{"/* " + name + " does it. */"}, false},
		"cstyle":          {[]string{"/* does it */"}, false},
		"triple":          {[]string{"/// " + name + " does it."}, false},
		"gap":             {[]string{"// " + name + " does it."}, true},
		"gap-cstyle":      {[]string{"/* " + name + " does it. */"}, true},
		"two-lines":       {[]string{"// " + name + " does", "// it."}, false},
		"period-second":   {[]string{"// Does", "// it e.g. so"}, false},
		"lower-first":     {[]string{"// and", "// Does it."}, false},
		"empty-first":     {[]string{"//", "// " + name + " does it."}, false},
		"name-second":     {[]string{"// Does", "// " + name + " it."}, false},
		"suppress":        {[]string{"// @suppresswarnings naming", "// @suppresswarnings floats plurals keywords"}, false},
		"empty":           {[]string{"//"}, false},
	}
}

// commented are all kinds of elements that can have a comment above.
func commented() map[string]func() (nodes []*l.Node, target *l.Node, proto2 bool, base string) {
	type r = func() ([]*l.Node, *l.Node, bool, string)
	one := func(make func() (*l.Node, []*l.Node), proto2 bool, base string) r {
		return func() ([]*l.Node, *l.Node, bool, string) {
			t, nodes := make()
			return nodes, t, proto2, base
		}
	}
	x := func() *l.Node { return l.Field("string", "x", 1) }
	return map[string]r{
		"message":        one(func() (*l.Node, []*l.Node) { n := l.Message("Foo", x()); return n, []*l.Node{n} }, false, "foo"),
		"empty-message":  one(func() (*l.Node, []*l.Node) { n := l.Message("Foo"); return n, []*l.Node{n} }, false, "foo"),
		"nested-message": one(func() (*l.Node, []*l.Node) { n := l.Message("Bar", x()); return n, []*l.Node{l.Message("Foo", n, x())} }, false, "foo"),
		"request": one(func() (*l.Node, []*l.Node) {
			n := l.Message("GetRequest", x())
			return n, []*l.Node{l.Service("FooAPI", l.RPC("Get", "GetRequest", "GetResponse")), n, l.Message("GetResponse")}
		}, false, "foo_api"),
		"nested-request": one(func() (*l.Node, []*l.Node) {
			n := l.Message("GetRequest", x())
			return n, []*l.Node{l.Service("FooAPI", l.RPC("Get", "GetRequest", "GetResponse")), l.Message("GetRequest", x()), l.Message("GetResponse", n)}
		}, false, "foo_api"),
		"enum": one(func() (*l.Node, []*l.Node) { n := l.Enum("Foo", l.Value("FOO_INVALID", 0)); return n, []*l.Node{n} }, false, "foo"),
		"nested-enum": one(func() (*l.Node, []*l.Node) {
			n := l.Enum("Foo", l.Value("FOO_INVALID", 0))
			return n, []*l.Node{l.Message("Bar", n)}
		}, false, "foo"),
		"value": one(func() (*l.Node, []*l.Node) { n := l.Value("FOO_INVALID", 0); return n, []*l.Node{l.Enum("Foo", n)} }, false, "foo"),
		"second-value": one(func() (*l.Node, []*l.Node) {
			n := l.Value("FOO_ONE", 1)
			return n, []*l.Node{l.Message("Bar", l.Enum("Foo", l.Value("FOO_INVALID", 0), n))}
		}, false, "foo"),
		"field": one(func() (*l.Node, []*l.Node) { n := x(); return n, []*l.Node{l.Message("Foo", n)} }, false, "foo"),
		"second-field": one(func() (*l.Node, []*l.Node) {
			n := l.Field("string", "y", 2)
			return n, []*l.Node{l.Message("Foo", x(), n, l.Field("string", "z", 3))}
		}, false, "foo"),
		"nested-field": one(func() (*l.Node, []*l.Node) { n := x(); return n, []*l.Node{l.Message("Foo", l.Message("Bar", n))} }, false, "foo"),
		"oneof":        one(func() (*l.Node, []*l.Node) { n := l.Oneof("foo", x()); return n, []*l.Node{l.Message("Foo", n)} }, false, "foo"),
		"oneof-field":  one(func() (*l.Node, []*l.Node) { n := x(); return n, []*l.Node{l.Message("Foo", l.Oneof("foo", n))} }, false, "foo"),
		"map": one(func() (*l.Node, []*l.Node) {
			n := l.Map("string, string", "x", 1)
			return n, []*l.Node{l.Message("Foo", n)}
		}, false, "foo"),
		"service": one(func() (*l.Node, []*l.Node) { n := l.Service("FooAPI"); return n, []*l.Node{n} }, false, "foo_api"),
		"rpc": one(func() (*l.Node, []*l.Node) {
			n := l.RPC("Get", "GetRequest", "GetResponse")
			return n, []*l.Node{l.Service("FooAPI", n), l.Message("GetRequest"), l.Message("GetResponse")}
		}, false, "foo_api"),
		"second-rpc": one(func() (*l.Node, []*l.Node) {
			n := l.RPC("Put", "PutRequest", "PutResponse").With(func(n *l.Node) { n.Body = true })
			return n, []*l.Node{l.Service("FooAPI", l.RPC("Get", "GetRequest", "GetResponse"), n), l.Message("GetRequest"), l.Message("GetResponse"), l.Message("PutRequest"), l.Message("PutResponse")}
		}, false, "foo_api"),
		"body-rpc": one(func() (*l.Node, []*l.Node) {
			n := l.RPC("Put", "PutRequest", "PutResponse", l.Option("deprecated", "true"))
			return n, []*l.Node{l.Service("FooAPI", n), l.Message("PutRequest"), l.Message("PutResponse")}
		}, false, "foo_api"),
		"service-option": one(func() (*l.Node, []*l.Node) {
			n := l.Option("deprecated", "true")
			return n, []*l.Node{l.Service("FooAPI", n)}
		}, false, "foo_api"),
		"message-option": one(func() (*l.Node, []*l.Node) {
			n := l.Option("deprecated", "true")
			return n, []*l.Node{l.Message("Foo", n, x())}
		}, false, "foo"),
		"enum-option": one(func() (*l.Node, []*l.Node) {
			n := l.Option("deprecated", "true")
			return n, []*l.Node{l.Enum("Foo", n, l.Value("FOO_INVALID", 0))}
		}, false, "foo"),
		"file-option": one(func() (*l.Node, []*l.Node) { n := l.Option("cc_enable_arenas", "true"); return n, []*l.Node{n} }, false, "foo"),
		"import": one(func() (*l.Node, []*l.Node) {
			n := l.Import("google/protobuf/any.proto", "")
			return n, []*l.Node{n, l.Message("Foo", x())}
		}, false, "foo"),
		"reserved": one(func() (*l.Node, []*l.Node) { n := l.Reserved("5"); return n, []*l.Node{l.Message("Foo", n)} }, false, "foo"),
		"enum-reserved": one(func() (*l.Node, []*l.Node) {
			n := l.Reserved("5")
			return n, []*l.Node{l.Enum("Foo", l.Value("FOO_INVALID", 0), n)}
		}, false, "foo"),
		"extend": one(func() (*l.Node, []*l.Node) {
			n := l.Extend("third.Ext", l.Field("string", "x", 100))
			return n, []*l.Node{l.Import("third/ext.proto", ""), n}
		}, true, "foo"),
		"extend-field": one(func() (*l.Node, []*l.Node) {
			n := l.Field("string", "x", 100)
			return n, []*l.Node{l.Import("third/ext.proto", ""), l.Extend("third.Ext", n)}
		}, true, "foo"),
		"extensions":   one(func() (*l.Node, []*l.Node) { n := l.Extensions("100 to 200"); return n, []*l.Node{l.Message("Foo", n)} }, true, "foo"),
		"proto2-field": one(func() (*l.Node, []*l.Node) { n := x(); return n, []*l.Node{l.Message("Foo", n)} }, true, "foo"),
		"group":        one(func() (*l.Node, []*l.Node) { n := l.Group("Bar", 1, x()); return n, []*l.Node{l.Message("Foo", n)} }, true, "foo"),
		"group-field":  one(func() (*l.Node, []*l.Node) { n := x(); return n, []*l.Node{l.Message("Foo", l.Group("Bar", 1, n))} }, true, "foo"),
	}
}

// comments: every form of comment above and behind every kind of element, and standing alone between.
func comments() []dir {
	var out []dir
	kinds := commented()
	var sorted []string
	for k := range kinds {
		sorted = append(sorted, k)
	}
	sort.Strings(sorted)
	inlines := map[string]string{"slashes": "// inline text", "cstyle": "/* inline */", "empty": "//"}
	for _, k := range sorted {
		_, target, _, _ := kinds[k]()
		name := target.Name
		if name == "" {
			name = "something"
		}
		forms := commentForms(name)
		var fs []string
		for f := range forms {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			nodes, target, proto2, base := kinds[k]()
			target.Above, target.Gap = forms[f].lines, forms[f].gap
			out = append(out, src("comment "+f+" above "+k, base, proto2, nodes...))
			// everything else documented
			nodes, target, proto2, base = kinds[k]()
			document(nodes)
			target.Above, target.Gap = forms[f].lines, forms[f].gap
			out = append(out, src("comment "+f+" above "+k+" documented", base, proto2, nodes...))
		}
		behind := "behind " + k
		switch target.Kind {
		case "message", "extend", "enum", "service", "oneof", "group":
			behind = "behind the opening of " + k
			for _, in := range []string{"slashes", "cstyle", "empty"} {
				nodes, target, proto2, base := kinds[k]()
				if len(target.Kids) == 0 {
					continue
				}
				target.Closing = inlines[in]
				out = append(out, src("inline "+in+" behind the closing of "+k, base, proto2, nodes...))
			}
		}
		for _, in := range []string{"slashes", "cstyle", "empty"} {
			for _, above := range []string{"none", "named", "cstyle"} {
				nodes, target, proto2, base := kinds[k]()
				target.Inline = inlines[in]
				target.Above = forms[above].lines
				out = append(out, src("inline "+in+" "+behind+" below "+above, base, proto2, nodes...))
			}
		}
	}
	// header statements
	for _, which := range []int{0, 1} {
		for f, form := range commentForms("foo.v1") {
			d := src(fmt.Sprintf("comment %s above header %d", f, which), "foo", false, l.Message("Foo", l.Field("string", "x", 1)))
			d.Files[0].Nodes[which].Above, d.Files[0].Nodes[which].Gap = form.lines, form.gap
			out = append(out, d)
		}
		for f, in := range inlines {
			d := src(fmt.Sprintf("inline %s behind header %d", f, which), "foo", false, l.Message("Foo", l.Field("string", "x", 1)))
			d.Files[0].Nodes[which].Inline = in
			out = append(out, d)
		}
	}
	// a comment at the end of a body or file
	for f, form := range commentForms("foo") {
		if len(form.lines) == 0 {
			continue
		}
		for where, nodes := range map[string][]*l.Node{
			"file":    {l.Message("Foo", l.Field("string", "x", 1)), {Kind: "comment", Above: form.lines}},
			"message": {l.Message("Foo", l.Field("string", "x", 1), &l.Node{Kind: "comment", Above: form.lines})},
			"empty":   {l.Message("Foo", &l.Node{Kind: "comment", Above: form.lines})},
			"enum":    {l.Enum("Foo", l.Value("FOO_INVALID", 0), &l.Node{Kind: "comment", Above: form.lines})},
			"service": {l.Service("FooAPI", &l.Node{Kind: "comment", Above: form.lines})},
			"oneof":   {l.Message("Foo", l.Oneof("foo", l.Field("string", "x", 1), &l.Node{Kind: "comment", Above: form.lines}))},
			"nested":  {l.Message("Foo", l.Message("Bar", l.Enum("Baz", l.Value("BAZ_INVALID", 0), &l.Node{Kind: "comment", Above: form.lines})))},
		} {
			out = append(out, src("comment "+f+" at the end of "+where, "foo", false, l.CloneAll(nodes)...))
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Label < out[j].Label })
	return out
}

// document puts a good comment on everything.
func document(nodes []*l.Node) {
	for _, n := range nodes {
		switch n.Kind {
		case "message", "enum", "value", "field", "map", "service", "rpc", "oneof":
			n.Above = []string{"// " + n.Name + " is it."}
			if n.Name[0] >= 'a' {
				n.Above = []string{"// " + n.Name + " Is it."}
			}
		}
		document(n.Kids)
	}
}

// services: request and response structures.
func services(thorough bool) []dir {
	var out []dir
	ts := []string{"GetRequest", "GetResponse", "PutRequest", "PutResponse", "Other", "Outer.Inner", "google.protobuf.Empty", "third.GetRequest", ".foo.v1.GetRequest", "foo.v1.GetResponse", ".third.GetResponse"}
	msgs := func(empty bool, names ...string) []*l.Node {
		var out []*l.Node
		for _, n := range names {
			m := l.Message(n)
			if !empty {
				m.Kids = []*l.Node{l.Field("string", "x", 1)}
			}
			if n == "Outer" {
				m.Kids = append(m.Kids, l.Message("Inner"))
			}
			out = append(out, m)
		}
		return out
	}
	imports := func() []*l.Node {
		return []*l.Node{l.Import("google/protobuf/empty.proto", ""), l.Import("third/types.proto", "")}
	}
	orders := map[string]func(svc *l.Node) []*l.Node{
		"service-first": func(s *l.Node) []*l.Node {
			return append(append(imports(), s), msgs(true, "GetRequest", "GetResponse", "PutRequest", "PutResponse", "Other", "Outer")...)
		},
		"service-last": func(s *l.Node) []*l.Node {
			return append(append(imports(), msgs(false, "GetRequest", "GetResponse", "PutRequest", "PutResponse", "Other", "Outer")...), s)
		},
		"responses-first": func(s *l.Node) []*l.Node {
			return append(append(imports(), s), msgs(true, "PutResponse", "GetResponse", "Outer", "PutRequest", "GetRequest", "Other")...)
		},
		"service-between": func(s *l.Node) []*l.Node {
			return append(append(append(imports(), msgs(true, "GetRequest", "Other", "Outer")...), s), msgs(false, "GetResponse", "PutRequest", "PutResponse")...)
		},
		"enums": func(s *l.Node) []*l.Node {
			nodes := append(append(imports(), l.Enum("Foo", l.Value("FOO_INVALID", 0)), s), msgs(false, "GetRequest", "GetResponse", "PutRequest", "PutResponse", "Other", "Outer")...)
			nodes[4].Kids = append(nodes[4].Kids, l.Enum("Nested", l.Value("NESTED_INVALID", 0)))
			return append(nodes, l.Enum("Bar", l.Value("BAR_INVALID", 0)))
		},
	}
	second := map[string]*l.Node{
		"none":    nil,
		"put":     l.RPC("Put", "PutRequest", "PutResponse"),
		"same":    l.RPC("Put", "GetRequest", "GetResponse"),
		"foreign": l.RPC("Put", "google.protobuf.Empty", "google.protobuf.Empty"),
		"swapped": l.RPC("Put", "PutResponse", "PutRequest"),
		"other":   l.RPC("Put", "Other", "Outer.Inner"),
	}
	var ks, ss []string
	for k := range orders {
		ks = append(ks, k)
	}
	for k := range second {
		ss = append(ss, k)
	}
	sort.Strings(ks)
	sort.Strings(ss)
	for _, order := range ks {
		for _, sec := range ss {
			for _, req := range ts {
				for _, res := range ts {
					kids := []*l.Node{l.RPC("Get", req, res)}
					if second[sec] != nil {
						kids = append(kids, second[sec].Clone())
					}
					out = append(out, src(fmt.Sprintf("%s rpc Get(%s) returns (%s), second %s", order, req, res, sec), "foo_api", false, orders[order](l.Service("FooAPI", kids...))...))
				}
			}
		}
	}
	// two services, streams, options
	for _, a := range ts[:8] {
		for _, b := range ts[:8] {
			out = append(out, src(fmt.Sprintf("two services %s %s", a, b), "foo_api", false, append(append(imports(), l.Service("FooAPI", l.RPC("Get", "GetRequest", a)), l.Service("BarAPI", l.RPC("Put", b, "PutResponse"))), msgs(true, "GetRequest", "GetResponse", "PutRequest", "PutResponse", "Other", "Outer")...)...))
		}
	}
	for i := 0; i < 16; i++ {
		a := l.RPC("Get", "GetRequest", "GetResponse")
		a.ReqStream, a.ResStream = i&1 > 0, i&2 > 0
		b := l.RPC("Put", "PutRequest", "PutResponse")
		b.ReqStream, b.ResStream = i&4 > 0, i&8 > 0
		out = append(out, src(fmt.Sprintf("streams %d", i), "foo_api", false, append([]*l.Node{l.Service("FooAPI", a, b)}, msgs(true, "GetRequest", "GetResponse", "PutRequest", "PutResponse")...)...))
	}
	httpOpts := [][2]string{{"(google.api.http)", `{ get: "/x" }`}, {"(.google.api.http)", `{ get: "/x" }`}, {"(google.api.http).get", `"/x"`}, {"(.google.api.http).get", `"/x"`}, {"(google.api.httpx)", `"/x"`}, {"deprecated", "true"}, {"idempotency_level", "NO_SIDE_EFFECTS"}}
	for _, o := range httpOpts {
		for _, o2 := range append(httpOpts, [2]string{"", ""}) {
			if o == o2 || strings.Contains(o2[0], "api.http)") && strings.Contains(o[0], "api.http)") {
				continue
			}
			for pos := 0; pos < 2; pos++ {
				a, b := l.RPC("Get", "GetRequest", "GetResponse"), l.RPC("Put", "PutRequest", "PutResponse")
				target := []*l.Node{a, b}[pos]
				target.Kids = []*l.Node{l.Option(o[0], o[1])}
				if o2[0] != "" {
					target.Kids = append(target.Kids, l.Option(o2[0], o2[1]))
				}
				out = append(out, src(fmt.Sprintf("rpc options %v %v %d", o, o2, pos), "foo_api", false, append([]*l.Node{l.Import("google/api/annotations.proto", ""), l.Service("FooAPI", a, b)}, msgs(true, "GetRequest", "GetResponse", "PutRequest", "PutResponse")...)...))
			}
		}
	}
	// messages with the names of requests elsewhere
	for _, empty := range []bool{false, true} {
		for _, pos := range []int{0, 1, 2} {
			ext := l.Extend("GetRequest", l.Field("string", "ext", 100))
			req := l.Message("GetRequest", l.Extensions("100 to 200"))
			other := l.Message("Ext", l.Extensions("100 to 200"))
			if !empty {
				req.Kids = append(req.Kids, l.Field("string", "x", 1))
				other.Kids = append(other.Kids, l.Field("string", "x", 1))
			}
			svc := l.Service("FooAPI", l.RPC("Get", "GetRequest", "GetResponse"))
			nodes := []*l.Node{svc, req, l.Message("GetResponse")}
			ext2 := l.Extend("Ext", l.Field("string", "ext2", 101))
			nodes = append(nodes[:pos], append([]*l.Node{ext, ext2, other}, nodes[pos:]...)...)
			out = append(out, src(fmt.Sprintf("extends of messages, empty %v at %d", empty, pos), "foo_api", true, nodes...))
			nodes = append(l.CloneAll(nodes), l.Extend("Ext", l.Field("string", "ext3", 102)))
			out = append(out, src(fmt.Sprintf("extends around messages, empty %v at %d", empty, pos), "foo_api", true, nodes...))
			nodes = append(l.CloneAll(nodes), l.Message("Holder", l.Extend("Ext", l.Field("string", "ext4", 103))))
			out = append(out, src(fmt.Sprintf("nested extends, empty %v at %d", empty, pos), "foo_api", true, nodes...))
		}
		other := l.Message("Ext", l.Extensions("100 to 200"))
		if !empty {
			other.Kids = append(other.Kids, l.Field("string", "x", 1))
		}
		out = append(out, src(fmt.Sprintf("extend without service, empty %v", empty), "foo", true, other, l.Extend("Ext", l.Field("string", "ext2", 101))))
		out = append(out, src(fmt.Sprintf("extend before without service, empty %v", empty), "foo", true, l.Extend("Ext", l.Field("string", "ext2", 101)), other.Clone()))
	}
	// same simple names in different scopes
	for _, rt := range []string{"GetRequest", "A.GetRequest", "A.B.GetRequest", "B.GetRequest"} {
		for _, doc := range []bool{false, true} {
			a := l.Message("A", l.Message("GetRequest"), l.Message("B", l.Message("GetRequest")))
			b := l.Message("B", l.Message("GetRequest", l.Field("string", "x", 1)))
			top := l.Message("GetRequest")
			if doc {
				a.Kids[0].Doc("// GetRequest is. It")
				b.Kids[0].Doc("// GetRequest is. It")
			}
			out = append(out, src(fmt.Sprintf("scopes %s %v", rt, doc), "foo_api", false, l.Service("FooAPI", l.RPC("Get", rt, "GetResponse")), a, b, top, l.Message("GetResponse")))
		}
	}
	_ = thorough
	return out
}

// misc: imports, syntax, packages.
func misc() []dir {
	var out []dir
	paths := []string{"google/protobuf/any.proto", "google/protobuf/wrappers.proto", "x/google/protobuf/any.proto", "x/google/protobuf/compiler/plugin.proto", "xgoogle/protobuf/any.proto", "x/google/protobuf/other.proto", "google/protobuf/unknown.proto", "gogo.proto", "gogoproto/gogo.proto", "github.com/gogo/protobuf/gogoproto/gogo.proto", "notgogo.proto", "gogoproto/gogo2.proto", "third/types.proto"}
	for _, p := range paths {
		for _, mod := range []string{"", "public", "weak"} {
			out = append(out, src("import "+mod+" "+p, "foo", false, l.Import(p, mod)))
			for _, q := range paths {
				if p != q {
					out = append(out, src("import "+mod+" "+p+" and "+q, "foo", false, l.Import(p, mod), l.Import(q, "")))
				}
			}
		}
	}
	for _, syntax := range []string{"proto2", "proto3"} {
		for _, pkg := range []string{"", "foo", "Foo", "foo.bar", "foo.v1", "foo.v0", "foo.v1beta1", "foo.v1beta0", "foo.v1beta", "foo.v12", "foo.v1beta12", "foo.1v", "foo.V1", "v1", "foo.v", "foo.v01", "foo.beta1", "foo.v1alpha1", "foo.v1beta1x", "foo_bar.v1", "fooBar.v1", "foo.v1.bar", "foo.xv1", "internal", "foo.internal.v1", "public.v1", "foo.private", "protected.std.v1", "foo.internals.v1", "foo.std_x.v1", "foo.Internal.v1", "common.v1", "foo.data.v1", "foo.uuid_x", "foo2.bar3.v1"} {
			if pkg == "foo.v01" || pkg == "foo.1v" {
				continue
			}
			var nodes []*l.Node
			if syntax != "" {
				nodes = append(nodes, l.Syntax(syntax))
			}
			if pkg != "" {
				nodes = append(nodes, l.Package(pkg))
			}
			for _, msg := range []bool{false, true} {
				n := l.CloneAll(nodes)
				if msg {
					n = append(n, l.Message("Foo", l.Field("string", "x", 1)))
				}
				f := file("foo", n...)
				f.Proto2 = syntax != "proto3"
				out = append(out, dir{fmt.Sprintf("syntax %q package %q message %v", syntax, pkg, msg), []*l.File{f}})
			}
		}
	}
	return out
}

var optionNames = []string{"csharp_namespace", "go_package", "java_multiple_files", "java_outer_classname", "java_package", "objc_class_prefix", "php_namespace", "ruby_package"}

// fileOptions: values of the options by package and file name.
func fileOptions() []dir {
	var out []dir
	quote := func(s string) string { return `"` + strings.Replace(s, `\`, `\\`, -1) + `"` }
	for _, pkg := range l.Packages() {
		for _, base := range []string{"trip", "trip_api", "a", "trip_2", "foo_bar_baz", "tripAPI"} {
			if base != "trip" && pkg != "foo.bar.v1" {
				continue
			}
			want := l.Wanted(pkg, base, "org.acme")
			def := l.Wanted(pkg, base, "")
			values := map[string][]string{
				"csharp_namespace":     {quote(want["csharp_namespace"]), quote(strings.ToLower(want["csharp_namespace"])), quote(want["csharp_namespace"] + ".X"), quote("")},
				"go_package":           {quote(want["go_package 1"]), quote(want["go_package 2"]), quote("x/" + want["go_package 2"]), quote("x/y;" + want["go_package 2"]), quote(want["go_package 2"] + "x"), quote("")},
				"java_multiple_files":  {"true", "false"},
				"java_outer_classname": {quote(want["java_outer_classname"]), quote(strings.ToUpper(want["java_outer_classname"])), quote("Other")},
				"java_package":         {quote(want["java_package 2"]), quote(def["java_package 2"]), quote(pkg), quote("com" + pkg), quote(want["java_package 2"] + ".x")},
				"objc_class_prefix":    {quote(want["objc_class_prefix"]), quote(strings.ToLower(want["objc_class_prefix"])), quote("GPB"), quote("FB")},
				"php_namespace":        {quote(want["php_namespace"]), quote(strings.Replace(want["php_namespace"], `\`, ".", -1)), quote(`X\` + want["php_namespace"])},
				"ruby_package":         {quote("Foo")},
			}
			for _, o := range optionNames {
				for _, v := range values[o] {
					out = append(out, dir{fmt.Sprintf("%s %s = %s in package %s", base, o, v, pkg), []*l.File{file(base, p3(pkg, l.Option(o, v))...)}})
					if pkg == "foo.bar.v1" {
						// options within elements do not count
						out = append(out, dir{fmt.Sprintf("%s %s = %s before package %s", base, o, v, pkg), []*l.File{file(base, l.Syntax("proto3"), l.Option(o, v), l.Package(pkg), l.Message("Foo", l.Option("deprecated", "true"), l.Field("string", "x", 1)))}})
						out = append(out, dir{fmt.Sprintf("%s %s = %s without package", base, o, v), []*l.File{file(base, l.Syntax("proto3"), l.Option(o, v))}})
						out = append(out, dir{fmt.Sprintf("%s %s = %s last", base, o, v), []*l.File{file(base, p3(pkg, l.Message("Foo", l.Field("string", "x", 1)), l.Option(o, v))...)}})
					}
				}
			}
			// all right, one wrong, one missing
			full := func(skip, wrong string) *l.File {
				var nodes []*l.Node
				for _, o := range optionNames {
					if o == skip {
						continue
					}
					i := 0
					if o == wrong {
						for i = len(values[o]) - 1; values[o][i] == `""`; i-- {
						}
					}
					nodes = append(nodes, l.Option(o, values[o][i]))
				}
				return file(base, p3(pkg, nodes...)...)
			}
			out = append(out, dir{"all options in " + pkg, []*l.File{full("", "")}})
			for _, o := range optionNames {
				out = append(out, dir{"all options but " + o + " in " + pkg, []*l.File{full(o, "")}})
				out = append(out, dir{"wrong " + o + " in " + pkg, []*l.File{full("", o)}})
			}
		}
	}
	return out
}

var headers = []string{"", "// Acme", "//\n// Acme\n//", "/*\n* Acme\n*/"}

// headerFiles start in all ways.
func headerFiles() []dir {
	var out []dir
	for i, head := range []string{"", "// Acme\n", "// Acme\n\n", "//\n// Acme\n//\n", "//\n// Acme\n//\n\n", "/*\n * Acme\n */\n\n", "/*\n* Acme\n*/\n\n", "\n// Acme\n", " // Acme\n", "// Acme, Inc.\n", "// acme\n", "//  Acme\n", "// Other\n\n// Acme\n", "//\n// Acme\n\n", "/*\n * Acme\n*/\n"} {
		d := src(fmt.Sprintf("header %d %q", i, head), "foo", false, l.Message("Foo", l.Field("string", "x", 1)))
		d.Files[0].Head = head
		out = append(out, d)
	}
	return out
}

// sameInDir: two or three files with different options and packages.
func sameInDir(thorough bool) []dir {
	var out []dir
	opts := []struct {
		name string
		vals []string
	}{
		{"csharp_namespace", []string{"", `"Foo.V1"`, `"Foo.V2"`}},
		{"go_package", []string{"", `"foov1"`, `"foov2"`}},
		{"java_multiple_files", []string{"", "true", "false"}},
		{"java_package", []string{"", `"com.foo.v1"`, `"com.foo.v2"`}},
		{"objc_class_prefix", []string{"", `"FXX"`, `"FYY"`}},
		{"php_namespace", []string{"", `"Foo\\V1"`, `"Foo\\V2"`}},
		{"java_outer_classname", []string{"", `"AProto"`, `"TripProto"`}},
		{"ruby_package", []string{"", `"A"`, `"B"`}},
		{"package", []string{"", "foo.v1", "foo.v2"}},
	}
	mk := func(base string, o string, v string) *l.File {
		nodes := []*l.Node{l.Syntax("proto3")}
		if o == "package" {
			if v != "" {
				nodes = append(nodes, l.Package(map[string]string{"foo.v1": "foo.v1", "foo.v2": "foo.bar.v2"}[v]))
			}
		} else {
			nodes = append(nodes, l.Package("foo.v1"))
			if v != "" {
				nodes = append(nodes, l.Option(o, v))
			}
		}
		return file(base, nodes...)
	}
	for _, o := range opts {
		core.Product([]int{3, 3, 3}, func(v []int) {
			fs := []*l.File{mk("a", o.name, o.vals[v[0]]), mk("trip", o.name, o.vals[v[1]]), mk("trip_2", o.name, o.vals[v[2]])}
			label := fmt.Sprintf("same in dir %s %v", o.name, v)
			if o.name == "java_outer_classname" {
				label += " (no rule)"
			}
			out = append(out, dir{label, fs})
			out = append(out, dir{label + " first two", fs[:2]})
		})
	}
	// two options at once
	for i, o := range opts[:6] {
		for j, q := range opts[:6] {
			if i == j {
				continue
			}
			core.Product([]int{2, 2, 2, 2}, func(v []int) {
				a, b := mk("a", o.name, o.vals[1+v[0]]), mk("trip", o.name, o.vals[1+v[1]])
				a.Nodes = append(a.Nodes, l.Option(q.name, q.vals[1+v[2]]))
				b.Nodes = append(b.Nodes, l.Option(q.name, q.vals[1+v[3]]))
				out = append(out, dir{fmt.Sprintf("same in dir %s and %s %v", o.name, q.name, v), []*l.File{a, b}})
			})
		}
	}
	return out
}

// pairs: every ordered pair of representative sources in one directory, so
// that nothing of one file leaks into the verdict on the next.
func pairs(thorough bool) []dir {
	var reps []dir
	add := func(ds []dir, step int) {
		for i := 0; i < len(ds); i += step {
			reps = append(reps, ds[i])
		}
	}
	one := func(ds []dir, labels ...string) {
		for _, want := range labels {
			found := false
			for _, d := range ds {
				if d.Label == want {
					reps = append(reps, d)
					found = true
				}
			}
			if !found {
				panic("no source " + want)
			}
		}
	}
	if thorough {
		add(comments(), 60)
		add(services(false), 60)
		add(enums(), 150)
		add(names(), 120)
		add(fileOptions(), 30)
		add(misc(), 60)
	}
	s := services(false)
	one(s, "service-first rpc Get(GetRequest) returns (GetResponse), second none", "service-last rpc Get(Other) returns (Outer.Inner), second same", "responses-first rpc Get(GetResponse) returns (GetRequest), second other", "enums rpc Get(google.protobuf.Empty) returns (third.GetRequest), second foreign", "two services GetRequest Other", "streams 9", "rpc options [(google.api.http) { get: \"/x\" }] [deprecated true] 1", "extends of messages, empty true at 0", "scopes A.B.GetRequest true")
	one(comments(), "comment named above message", "comment cstyle above nested-enum", "inline slashes behind value below cstyle", "comment sentence above empty-message documented", "comment gap above rpc", "comment named-cstyle above proto2-field")
	one(enums(), "enum FooBar in [Outer InnerMost]: FOO_BAR_INVALID, FOO_BAR_ONE variant 0", "enum Foo in []: FOO_INVALID, FOO_ONE variant 1")
	one(names(), "empty message Foo in nested2", "field file_name in oneof", "value FOO_DATA in nested", "top empty message CommonFoo")
	one(fileOptions(), "all options in foo.bar.v1", "trip java_package = \"com.foo.bar.v1\" in package foo.bar.v1", "wrong go_package in a.b.c.v10")
	one(misc(), "syntax \"proto2\" package \"\" message true", "import public notgogo.proto", "syntax \"proto3\" package \"foo.internal.v1\" message true")
	var out []dir
	for i, a := range reps {
		for j, b := range reps {
			if i == j && strings.Contains(a.Label, `package ""`) {
				continue // the same symbols twice
			}
			fa, fb := a.Files[0].Clone(), b.Files[0].Clone()
			fa.Base, fb.Base = "a", "trip"
			// no symbol conflicts: same package only if different names
			repack(fa, "pa")
			repack(fb, "pb")
			out = append(out, dir{fmt.Sprintf("%d %d: %s | %s", i, j, a.Label, b.Label), []*l.File{fa, fb}})
		}
	}
	return out
}

// repack gives a file a package of its own, unless option values depend on it.
func repack(f *l.File, to string) {
	from := ""
	for _, n := range f.Nodes {
		if n.Kind == "option" && n.Name != "cc_enable_arenas" {
			return
		}
		if n.Kind == "package" {
			from = n.Name
		}
	}
	if from == "" {
		return
	}
	for _, n := range f.Nodes {
		if n.Kind == "package" {
			n.Name = to + "." + n.Name
		}
		for _, k := range n.Kids {
			if k.Kind == "rpc" {
				for _, p := range []*string{&k.Req, &k.Res} {
					*p = strings.Replace(*p, "foo.v1.", to+".foo.v1.", 1)
				}
			}
		}
	}
}
