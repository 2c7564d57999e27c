//go:build go1.22

// Package linttree is a tree of sources that break all lint rules, with the
// failures that any selection of rules and ignored files leaves of it.
package linttree

import (
	"path"
	"sort"
	"strings"

	l "github.com/uber/prototool/internal/verifmc/lintref"
)

// Support are importable files, relative to an include directory.
var Support = map[string]string{
	"third/types.proto":            "syntax = \"proto3\";\npackage third;\nmessage GetRequest {}\nmessage Thing {}\n",
	"third/ext.proto":              "syntax = \"proto2\";\npackage third;\nmessage Ext { extensions 100 to max; }\n",
	"google/api/annotations.proto": "syntax = \"proto3\";\npackage google.api;\nimport \"google/protobuf/descriptor.proto\";\nmessage HttpRule { string get = 1; }\nextend google.protobuf.MethodOptions { HttpRule http = 72295728; }\n",
	"x/google/protobuf/any.proto":  "syntax = \"proto3\";\npackage xa;\n",
	"gogoproto/gogo.proto":         "syntax = \"proto3\";\npackage xg;\n",
}

// Tree is the tree: directories with their files.
type Tree map[string][]*l.File

// Header is a file header that no file has.
const Header = "// Acme"

func file(base string, nodes ...*l.Node) *l.File { return &l.File{Base: base, Nodes: nodes} }

// New returns the tree.
func New() Tree {
	x := func() *l.Node { return l.Field("string", "x", 1) }
	trip := file("trip",
		l.Syntax("proto3").Doc("/* c-style */"),
		l.Package("foo.bar.v1"),
		l.Option("csharp_namespace", `"foo.bar"`),
		l.Option("go_package", `"x/y;z"`),
		l.Option("java_multiple_files", "false"),
		l.Option("java_outer_classname", `"Other"`),
		l.Option("java_package", `"foo"`),
		l.Option("objc_class_prefix", `"GPB"`),
		l.Option("php_namespace", `"X"`),
		l.Option("ruby_package", `"X"`),
		l.Import("gogoproto/gogo.proto", "public"),
		l.Import("x/google/protobuf/any.proto", "weak"),
		l.Import("google/protobuf/duration.proto", ""),
		l.Import("google/protobuf/timestamp.proto", ""),
		l.Message("common_Data",
			l.Field("string", "file_name", 1),
			l.Field("float", "file_path", 2),
			l.Field("string", "fooBar", 3),
			l.Field("string", "descriptor", 4),
			l.Field("string", "duration_ms", 5).With(func(n *l.Node) { n.Inline = "// inline" }),
			l.Field("string", "times", 6).With(func(n *l.Node) { n.Opts = []string{`json_name = "t"`} }),
			l.Field("google.protobuf.Duration", "took", 7),
			l.Field(".google.protobuf.Timestamp", "at", 8),
			l.Oneof("Which", l.Field("string", "uuid", 9)),
			l.Message("empty"),
			l.Enum("kind", l.Value("zero", 0), l.Value("one", 1)),
			l.Enum("Bad_Kind", l.Value("BAD_KIND_INVALID", 0)),
			l.Reserved("20"),
		),
		l.Enum("Alias", l.Option("allow_alias", "true"), l.Value("ALIAS_INVALID", 0), l.Value("ALIAS_NONE", 0)),
	)
	a := file("a", l.Syntax("proto3"), l.Package("foo.Public.v1"), l.Message("Fine", x()).Doc("// Fine is documented."))
	api := file("foo_api",
		l.Syntax("proto2"),
		l.Import("third/types.proto", ""),
		l.Import("google/api/annotations.proto", ""),
		l.Message("GetResponse", x()),
		l.Service("trips_service",
			l.RPC("get_it", "third.GetRequest", "GetResponse", l.Option("(google.api.http)", `{ get: "/x" }`)).With(func(n *l.Node) { n.ReqStream = true }),
			l.RPC("Get", "GetResponse", "GetResponse"),
		),
		l.Service("FilesAPI"),
		l.Message("Extra"),
	)
	api.Proto2 = true
	upper := file("tripAPI", l.Syntax("proto3"), l.Package("foo.v0"), l.Import("third/types.proto", ""), l.Message("Upper", l.Field("third.Thing", "thing", 1)))
	sub := file("a", l.Syntax("proto3"), l.Package("foo_bar.v1"), l.Option("go_package", `"v1pb"`), l.Enum("Sub", l.Value("SUB_INVALID", 0), l.Value("Bad", 1)).Doc("// Sub"))
	ab := file("a", l.Syntax("proto3"), l.Package("g.p.b.v1"), l.Message("lower", x(), l.Field("float", "Y", 2)))
	return Tree{
		"a":     {trip, a, api},
		"a/sub": {sub},
		"ab":    {ab, upper},
	}
}

// Dirs are the directories, sorted.
func (t Tree) Dirs() []string {
	var out []string
	for d := range t {
		out = append(out, d)
	}
	sort.Strings(out)
	return out
}

// Files are the paths of all files, sorted.
func (t Tree) Files() []string {
	var out []string
	for d, fs := range t {
		for _, f := range fs {
			out = append(out, path.Join(d, f.Base+".proto"))
		}
	}
	sort.Strings(out)
	return out
}

// Sources are the contents.
func (t Tree) Sources() map[string]string {
	out := map[string]string{}
	for d, fs := range t {
		for _, f := range fs {
			out[path.Join(d, f.Base+".proto")] = f.Render()
		}
	}
	return out
}

// unsettled are verdicts that the documentation does not settle: the case of a
// package that is not declared.
func unsettled(p, id string) bool {
	return p == "a/foo_api.proto" && (id == "PACKAGE_LOWER_CASE" || id == "PACKAGE_LOWER_SNAKE_CASE")
}

// Want returns the failures "path:line:ID" of the rules selected, with files ignored for rules.
func (t Tree) Want(cfg l.Config, selected func(id string) bool, ignored func(p, id string) bool) []string {
	var out []string
	for d, fs := range t {
		for _, id := range l.IDs() {
			if !selected(id) {
				continue
			}
			var kept []*l.File
			for _, f := range fs {
				if ignored == nil || !ignored(path.Join(d, f.Base+".proto"), id) {
					kept = append(kept, f)
				}
			}
			for _, s := range cached(d, cfg, kept) {
				if strings.HasSuffix(s, ":"+id) {
					out = append(out, path.Join(d, s))
				}
			}
		}
	}
	return Clean(out)
}

var cache = map[string][]string{}

// cached is the reference for these files.
func cached(d string, cfg l.Config, files []*l.File) []string {
	key := d + "|" + cfg.Header + "|" + cfg.JavaPrefix
	for _, f := range files {
		key += "|" + f.Base
	}
	if got, ok := cache[key]; ok {
		return got
	}
	got := l.Dir(cfg, files...)
	cache[key] = got
	return got
}

// Clean normalizes failures and leaves out what is not settled.
func Clean(in []string) []string {
	var out []string
	for _, s := range in {
		p := strings.Split(s, ":")
		if !unsettled(p[0], p[len(p)-1]) {
			out = append(out, s)
		}
	}
	return l.Normalize(out)
}
