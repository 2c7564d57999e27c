//go:build go1.22

// P07: format --fix sets the header and options of the style guide.
package main

import (
	"fmt"
	"io/ioutil"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/fmtgen"
)

func main() {
	core.Main(&core.Check{
		ID:          "P07",
		Level:       "exploration",
		Rule:        "for every lint group, file header setting and java_package_prefix, every package shape, file name, comment arrangement above syntax and subset of already present options: the real format --fix -w, then the file header, the options (against values written down from the style guide), everything else in the descriptor, the lint of the group and a second run are compared",
		Assumptions: []string{"protoc 3.21.12 decodes the options"},
		Run:         run,
	})
}

type config struct {
	Group  string
	Header int
	Prefix string
}

// headers: yaml and the expected comment.
var headers = []struct{ yaml, want string }{
	{"", ""},
	{"  file_header:\n    content: Acme, Inc.\n", "// Acme, Inc."},
	{"  file_header:\n    content: |\n      //\n      // Acme\n      //\n    is_commented: true\n", "//\n// Acme\n//"},
	{"  file_header:\n    content: |\n      Acme\n\n      All rights\n", "// Acme\n//\n// All rights"},
	{"  file_header:\n    path: etc/LICENSE.txt\n", "// Line one\n//\n// Line \"two\" {}"},
	{"  file_header:\n    path: etc/header.txt\n    is_commented: true\n", "/*\n* Commented\n*/"},
}

var packages = []string{"", "foo", "foo.bar", "foo.v1", "v1", "foo.bar.v1", "foo.bar.v2beta3", "a.b.c.d.v10", "g.p.b.v1", "foo_bar.baz.v1", "foo.v1.bar", "foo.v0", "foo.bar.v1beta"}

var filenames = map[string]string{"trip": "TripProto", "trip_api": "TripApiProto", "a": "AProto", "tripAPI": "", "trip-api": "", "trip.api": "", "TRIP": "", "trip2_v1": "", "_trip": ""}

// expected options according to the style guide.
func expected(c config, pkg, base string) map[string]string {
	v2 := strings.ToLower(c.Group) == "uber2"
	parts := strings.Split(pkg, ".")
	last := parts[len(parts)-1]
	versions := map[string]string{"foo.v1": "V1", "foo.bar.v1": "V1", "foo.bar.v2beta3": "V2Beta3", "a.b.c.d.v10": "V10", "g.p.b.v1": "V1", "foo_bar.baz.v1": "V1"}
	version := versions[pkg]
	out := map[string]string{"java_multiple_files": "true", "go_package": last + "pb"}
	if v2 && version != "" {
		out["go_package"] = parts[len(parts)-2] + last
	}
	prefix := "com"
	if c.Prefix != "" {
		prefix = c.Prefix
	}
	out["java_package"] = prefix + "." + pkg
	if o := filenames[base]; o != "" {
		out["java_outer_classname"] = o
	}
	if !v2 {
		return out
	}
	var caps []string
	abbr := ""
	for i, p := range parts {
		if version != "" && i == len(parts)-1 {
			caps = append(caps, version)
			continue
		}
		caps = append(caps, strings.ToUpper(p[:1])+p[1:])
		abbr += strings.ToUpper(p[:1])
	}
	switch {
	case len(abbr) == 1:
		abbr += "XX"
	case len(abbr) == 2:
		abbr += "X"
	case abbr == "GPB":
		abbr = "GPX"
	}
	out["csharp_namespace"] = strings.Join(caps, ".")
	out["php_namespace"] = strings.Join(caps, `\`)
	out["objc_class_prefix"] = abbr
	return out
}

func options(f *descriptor.FileDescriptorProto) map[string]string {
	o := f.GetOptions()
	m := map[string]string{}
	set := func(k string, p *string) {
		if p != nil {
			m[k] = *p
		}
	}
	if o == nil {
		return m
	}
	set("java_package", o.JavaPackage)
	set("java_outer_classname", o.JavaOuterClassname)
	set("go_package", o.GoPackage)
	set("csharp_namespace", o.CsharpNamespace)
	set("objc_class_prefix", o.ObjcClassPrefix)
	set("php_namespace", o.PhpNamespace)
	if o.JavaMultipleFiles != nil {
		m["java_multiple_files"] = fmt.Sprint(*o.JavaMultipleFiles)
	}
	return m
}

// rest is the file without the options above.
func rest(f *descriptor.FileDescriptorProto) string {
	f = proto.Clone(f).(*descriptor.FileDescriptorProto)
	sort.Strings(f.Dependency)
	if o := f.Options; o != nil {
		o.JavaPackage, o.JavaOuterClassname, o.GoPackage, o.CsharpNamespace, o.ObjcClassPrefix, o.PhpNamespace, o.JavaMultipleFiles = nil, nil, nil, nil, nil, nil, nil
		if proto.Size(o) == 0 {
			f.Options = nil
		}
	}
	data, err := proto.Marshal(f)
	core.Internal(err)
	return string(data)
}

var fixable = []string{"csharp_namespace", "go_package", "java_multiple_files", "java_outer_classname", "java_package", "objc_class_prefix", "php_namespace"}

// above are the comments above syntax.
var above = map[string]string{
	"none":         "",
	"attached":     "// own license\n",
	"detached":     "// own license\n\n",
	"both":         "// first\n\n/* second */\n",
	"two-detached": "// first\n\n// second\n\n",
	"header":       "HEADER\n\n",
	"header-tight": "HEADER\n",
	"blank-lines":  "\n\n\n// own license\n\n\n\n",
	"long":         "// Copyright\n//\n// of\n// somebody\n//   else\n//\n// for ever\n\n",
	"long-both":    "/*\n * Copyright\n * of\n * somebody\n * else\n */\n\n// a\n// b\n// c\n// d\n// e\n",
	"header-twice": "HEADER\n\nHEADER\n\n",
	"header-more":  "HEADER\n// and more\n\n",
}

type source struct {
	path, pkg, base, above string
	text                   string
}

func src(c config, dir, pkg, base, abv string, opts []string, unique int) source {
	text := strings.Replace(above[abv], "HEADER", headers[c.Header].want, -1)
	text += "syntax = \"proto3\"; // behind syntax\n\n"
	if pkg != "" {
		text += "package " + pkg + ";\n\n"
	}
	text += strings.Join(opts, "\n") + "\noption deprecated = true;\n// above custom\noption (opts.file_s) = \"x\";\noption ruby_package = \"Keep\";\n\nimport \"opts/opts.proto\";\n\n// message comment\n"
	text += fmt.Sprintf("message M%d { string a = 1; }\n", unique)
	return source{dir + "/" + base + ".proto", pkg, base, abv, text}
}

func run(w *core.W) {
	core.UseSystemProtoc()
	var names []string
	for n := range filenames {
		names = append(names, n)
	}
	sort.Strings(names)
	var aboves []string
	for a := range above {
		aboves = append(aboves, a)
	}
	sort.Strings(aboves)
	wrong := map[string]string{"csharp_namespace": `"Wrong"`, "go_package": `"wrong"`, "java_multiple_files": "false", "java_outer_classname": `"WrongProto"`, "java_package": `"wrong.pkg"`, "objc_class_prefix": `"WRO"`, "php_namespace": `"Wrong\\Php"`}
	for _, group := range []string{"", "uber1", "uber2", "UBER2", "google"} {
		for h := range headers {
			for _, prefix := range []string{"", "au.com"} {
				c := config{group, h, prefix}
				for _, pkg := range packages {
					pkg := pkg
					type kase struct {
						Config  config
						Part    string
						Package string
					}
					w.Case(kase{c, "above", pkg}, func(t *core.T) {
						var ss []source
						for i, a := range aboves {
							for _, n := range names {
								ss = append(ss, src(c, fmt.Sprintf("d%d", i), pkg, n, a, nil, len(ss)))
							}
						}
						check(t, c, ss)
					})
				}
			}
		}
		for _, h := range []int{0, 1} {
			for _, pkg := range []string{"", "foo", "foo.bar.v1"} {
				for _, style := range []string{"wrong", "commented", "right"} {
					c := config{group, h, ""}
					pkg, style := pkg, style
					type kase struct {
						Config         config
						Part           string
						Package, Style string
					}
					w.Case(kase{c, "options", pkg, style}, func(t *core.T) {
						var ss []source
						for mask := 0; mask < 1<<uint(len(fixable)); mask++ {
							var opts []string
							base := fmt.Sprintf("trip%d", mask)
							for i, o := range fixable {
								if mask&(1<<uint(i)) == 0 {
									continue
								}
								v := wrong[o]
								if style == "right" && pkg != "" {
									if e, ok := expected(config{"uber2", h, ""}, pkg, base)[o]; ok {
										v = `"` + strings.Replace(e, `\`, `\\`, -1) + `"`
										if o == "java_multiple_files" {
											v = e
										}
									}
								}
								l := "option " + o + " = " + v + ";"
								if style == "commented" {
									l = "\n// above " + o + "\n" + l + " // behind " + o
								}
								opts = append(opts, l)
							}
							ss = append(ss, src(c, "d", pkg, base, "detached", opts, mask))
						}
						check(t, c, ss)
					})
				}
			}
		}
	}
}

func protoc(t *core.T, root string, ss []source) (map[string]*descriptor.FileDescriptorProto, string) {
	args := []string{"-I" + root, "-I" + filepath.Join(root, "inc"), "-I" + core.ProtocWKT, "-o" + filepath.Join(root, "out.bin")}
	for _, s := range ss {
		args = append(args, s.path)
	}
	cmd := exec.Command(core.ProtocBin, args...)
	cmd.Dir = root
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, string(out)
	}
	data, err := ioutil.ReadFile(filepath.Join(root, "out.bin"))
	core.Internal(err)
	set := &descriptor.FileDescriptorSet{}
	core.Internal(proto.Unmarshal(data, set))
	m := map[string]*descriptor.FileDescriptorProto{}
	for _, f := range set.File {
		m[f.GetName()] = f
	}
	return m, ""
}

func check(t *core.T, c config, ss []source) {
	w := t.W
	root := w.Fresh("fix")
	yaml := "excludes:\n  - inc\nprotoc:\n  allow_unused_imports: true\n  includes:\n    - inc\nlint:\n"
	if c.Group != "" {
		yaml += "  group: " + c.Group + "\n"
	}
	yaml += headers[c.Header].yaml
	if c.Prefix != "" {
		yaml += "  java_package_prefix: " + c.Prefix + "\n"
	}
	if yaml[len(yaml)-6:] == "lint:\n" {
		yaml += "  group: uber1\n"
	}
	files := map[string]string{"prototool.yaml": yaml, "etc/LICENSE.txt": "\n\nLine one  \n\nLine \"two\" {}\n\n", "etc/header.txt": "/*\n * Commented\n */\n", "inc/opts/opts.proto": fmtgen.Opts}
	for _, s := range ss {
		files[s.path] = s.text
	}
	core.Write(root, files)
	before, errs := protoc(t, root, ss)
	if before == nil {
		core.Internal(fmt.Errorf("source is invalid: %s", errs))
	}
	if r := core.CLI(root, "format", "--fix", "-w"); r.Code != 0 {
		t.Failf("refused", "format --fix -w: %d %s%s", r.Code, r.Out, r.Err)
		return
	}
	after, errs := protoc(t, root, ss)
	if after == nil {
		t.Failf("broken", "protoc rejects the result: %s", errs)
		return
	}
	snap := core.Snapshot(root)
	for _, s := range ss {
		w.Nontrivial(fmt.Sprint(c, s.text, s.base))
		text := snap[s.path]
		bad := func(kind, format string, args ...interface{}) {
			t.Failf(kind, "%s of package %q, comments above syntax: %s\n%s\nsource:\n%s\nfixed:\n%s", s.path, s.pkg, s.above, fmt.Sprintf(format, args...), s.text, text)
		}
		want := options(before[s.path])
		if s.pkg != "" {
			for k, v := range expected(c, s.pkg, s.base) {
				want[k] = v
			}
			if _, ok := expected(c, s.pkg, s.base)["java_outer_classname"]; !ok {
				delete(want, "java_outer_classname")
			}
		}
		got := options(after[s.path])
		if _, ok := want["java_outer_classname"]; !ok && s.pkg != "" {
			if !strings.HasSuffix(got["java_outer_classname"], "Proto") {
				bad("outer", "java_outer_classname is %q", got["java_outer_classname"])
			}
			delete(got, "java_outer_classname")
		}
		if fmt.Sprint(want) != fmt.Sprint(got) {
			bad("options", "options are %v instead of %v", got, want)
		}
		if rest(before[s.path]) != rest(after[s.path]) {
			bad("meaning", "something else changed")
		}
		h := headers[c.Header].want
		if h != "" && !strings.HasPrefix(text, h+"\n\nsyntax = ") {
			bad("header", "the file does not start with the header directly followed by syntax")
		}
		if h == "" {
			for _, word := range []string{"own license", "first", "second"} {
				if strings.Count(s.text, word) != strings.Count(text, word) {
					bad("comment", "comment %q is lost", word)
				}
			}
		}
		for _, word := range []string{"// behind syntax", "// above custom", "// message comment"} {
			if strings.Count(s.text, word) != strings.Count(text, word) {
				bad("comment", "comment %q is lost", word)
			}
		}
		if strings.Contains(s.text, "// behind ruby") || strings.Contains(s.text, "// above go_package") {
			for _, o := range fixable {
				if n := strings.Count(s.text, " "+o+"\n"); n != strings.Count(text, " "+o+"\n") {
					bad("comment", "a comment of option %s is lost", o)
				}
			}
		}
	}
	if r := core.CLI(root, "lint", "--error-format", "filename:line:column:id:message"); r.Code != 0 {
		for _, l := range r.Lines() {
			f := strings.SplitN(l, ":", 5)
			if len(f) < 5 {
				t.Failf("lint", "unexpected lint output %s", r.Out)
				break
			}
			id := f[3]
			if id == "FILE_OPTIONS_EQUAL_JAVA_PACKAGE_COM_PREFIX" && c.Prefix != "" {
				// documented to be com in any case
				continue
			}
			if !strings.HasPrefix(id, "FILE_OPTIONS") && id != "FILE_HEADER" {
				continue
			}
			for _, s := range ss {
				if s.path == f[0] && s.pkg != "" {
					t.Failf("lint", "%s\n%s", l, snap[s.path])
				}
			}
		}
	}
	if r := core.CLI(root, "format", "--fix", "-l"); r.Code != 0 || r.Out != "" {
		t.Failf("unclean", "format --fix -l: %d %s", r.Code, r.Out)
	}
	if r := core.CLI(root, "format", "--fix", "-w"); r.Code != 0 {
		t.Failf("second", "second format --fix -w: %d %s", r.Code, r.Out)
	}
	for p, text := range core.Snapshot(root) {
		if text != snap[p] {
			t.Failf("unstable", "%s changes again from\n%s\nto\n%s", p, snap[p], text)
		}
	}
}
