//go:build go1.22

// P17: generate makes exactly the configured protoc invocations.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/fake"
)

type plugin struct {
	Name, Type, Flags, Output, Path, FileSuffix string
	Imports, Source                             bool
}

type config struct {
	Plugins    []plugin
	ImportPath string
	Modifiers  map[string]string
	Includes   []string
	Excludes   []string
}

type kase struct {
	Tree    string
	Cwd     string
	Arg     string
	Where   string
	Config  config
	Command string
}

var trees = map[string][]string{
	"flat":   {"a.proto", "b.proto"},
	"two":    {"foo/v1/a.proto", "foo/v1/b.proto", "bar/v1/c.proto"},
	"nested": {"r.proto", "foo/a.proto", "foo/v1/b.proto", "foox/v1/c.proto"},
	"exclud": {"foo/a.proto", "ex/b.proto", "bar/ex/c.proto"},
	"single": {"foo/v1/one.proto"},
}

type place struct {
	tree, cwd, arg string
}

var places = []place{
	{"flat", "", ""}, {"flat", "..", "r"}, {"two", "", ""}, {"two", "", "foo"}, {"two", "foo/v1", ""}, {"two", "bar", "../foo/v1"}, {"two", "out", "ABS/bar"},
	{"nested", "", ""}, {"nested", "", "foo"}, {"nested", "foo", "."}, {"nested", "foo/v1", "../.."}, {"nested", "", "foo/v1"}, {"nested", "foox", "../foo/../foox"},
	{"exclud", "", ""}, {"exclud", "", "bar"}, {"single", "", ""}, {"single", "", "foo/v1/one.proto"}, {"single", "foo", "v1/one.proto"},
}

var wktGo = map[string]string{
	"any": "github.com/golang/protobuf/ptypes/any", "api": "google.golang.org/genproto/protobuf/api", "compiler/plugin": "github.com/golang/protobuf/protoc-gen-go/plugin",
	"descriptor": "github.com/golang/protobuf/protoc-gen-go/descriptor", "duration": "github.com/golang/protobuf/ptypes/duration", "empty": "github.com/golang/protobuf/ptypes/empty",
	"field_mask": "google.golang.org/genproto/protobuf/field_mask", "source_context": "google.golang.org/genproto/protobuf/source_context", "struct": "github.com/golang/protobuf/ptypes/struct",
	"timestamp": "github.com/golang/protobuf/ptypes/timestamp", "type": "google.golang.org/genproto/protobuf/ptype", "wrappers": "github.com/golang/protobuf/ptypes/wrappers",
}

var wktGogo = map[string]string{
	"any": "github.com/gogo/protobuf/types", "api": "google.golang.org/genproto/protobuf/api", "compiler/plugin": "github.com/gogo/protobuf/protoc-gen-gogo/plugin",
	"descriptor": "github.com/gogo/protobuf/protoc-gen-gogo/descriptor", "duration": "github.com/gogo/protobuf/types", "empty": "github.com/gogo/protobuf/types",
	"field_mask": "github.com/gogo/protobuf/types", "source_context": "google.golang.org/genproto/protobuf/source_context", "struct": "github.com/gogo/protobuf/types",
	"timestamp": "github.com/gogo/protobuf/types", "type": "google.golang.org/genproto/protobuf/ptype", "wrappers": "github.com/gogo/protobuf/types",
}

func main() {
	core.Main(&core.Check{
		ID:    "P17",
		Level: "model_checking",
		Rule: "A case is a tree, working directory, argument, and a configuration (one or two plugins with every combination of type, flags, output, path, suffix, descriptor set options; import path, modifiers, include paths, excludes), for generate, generate --dry-run, compile and compile --dry-run. " +
			"The invocations that reach protoc are compared with a reference; a part is run with the real protoc and its built-in generators. Non-trivial: at least one plugin is run.",
		Assumptions: []string{"protoc's documented command line"},
		Run:         run,
	})
}

var srv *fake.Server
var fakeBin string

func run(w *core.W) {
	srv = fake.Start(w)
	fakeBin = fake.Bin()
	bin := filepath.Join(w.Scratch, "bin")
	core.Internal(os.MkdirAll(bin, 0755))
	for _, n := range []string{"onpath", "protoc-gen-abs"} {
		core.Internal(os.WriteFile(filepath.Join(bin, n), []byte("#!/bin/sh\n"), 0755))
	}
	core.Internal(os.WriteFile(filepath.Join(bin, "notexec"), []byte("#!/bin/sh\n"), 0644))
	_ = os.Setenv("PATH", bin+":"+os.Getenv("PATH"))

	types := []string{"", "go", "gogo", "GoGo"}
	flags := []string{"", "plugins=grpc"}
	outputs := []string{"gen", "gen/x/y", "../out", ".", "ABSOUT/z", "foo"}
	paths := []string{"", "ABSBIN/protoc-gen-abs", "onpath", "missing-plugin", "ABSBIN/notexec"}
	suffixes := []string{"", "jar"}
	imports := []string{"ex.com/r", "ex.com/r/", "ex"}
	commands := []string{"generate", "generate --dry-run", "compile", "compile --dry-run"}

	try := func(p place, where string, c config, command string) {
		w.Case(kase{p.tree, p.cwd, p.arg, where, c, command}, func(t *core.T) { check(w, t, p, where, c, command) })
	}
	// one plugin, all its options
	for _, p := range places {
		for _, ty := range types {
			for _, fl := range flags {
				for _, out := range outputs {
					for pi, path := range paths {
						for _, suf := range suffixes {
							if !w.Thorough() && pi > 1 && (suf != "" || fl != "" || out != "gen") {
								continue
							}
							for _, ip := range imports {
								if ty == "" && ip != "ex" || !w.Thorough() && ip == "ex.com/r/" && out != "gen" {
									continue
								}
								c := config{Plugins: []plugin{{Name: "x", Type: ty, Flags: fl, Output: out, Path: path, FileSuffix: suf}}, ImportPath: ip}
								if p.tree == "exclud" {
									c.Excludes = []string{"ex"}
								}
								for ci, command := range commands[:2] {
									if ci == 1 && !w.Thorough() && (fl != "" || pi == 1) {
										continue
									}
									try(p, "file", c, command)
								}
							}
						}
					}
				}
			}
		}
	}
	// descriptor sets
	for _, p := range places {
		for _, suf := range []string{"bin", "a.b"} {
			for m := 0; m < 4; m++ {
				for _, out := range outputs {
					c := config{Plugins: []plugin{{Name: "descriptor_set", Output: out, FileSuffix: suf, Imports: m&1 != 0, Source: m&2 != 0}}}
					for _, command := range commands {
						try(p, "file", c, command)
					}
				}
			}
		}
	}
	// modifiers, includes, excludes, two plugins, and configuration data
	mods := []map[string]string{nil, {"google/api/http.proto": "ex.com/http"}, {"foo/v1/a.proto": "ex.com/override", "google/protobuf/any.proto": "ex.com/any"}}
	includes := [][]string{nil, {"."}, {"foo"}, {"ex", "foo/v1"}, {"../out"}, {"ABSBIN"}, {"foox", "foo"}}
	pairs := [][]plugin{
		nil,
		{{Name: "x", Type: "go", Output: "gen"}},
		{{Name: "x", Type: "gogo", Output: "gen/a", Flags: "plugins=grpc"}, {Name: "y", Output: "gen/b"}},
		{{Name: "z", Type: "go", Output: "gen/a"}, {Name: "b", Type: "gogo", Output: "../out", FileSuffix: "jar"}},
		{{Name: "java", Output: "gen/java", FileSuffix: "jar"}, {Name: "descriptor_set", Output: "gen/d", FileSuffix: "bin", Imports: true}, {Name: "a", Flags: "q=1,r=2", Output: "gen"}},
		{{Name: "x", Type: "go", Output: "gen/a"}, {Name: "x", Type: "go", Flags: "k=v", Output: "gen/b"}},
	}
	for _, p := range places {
		for mi, mod := range mods {
			for ii, inc := range includes {
				for _, pl := range pairs {
					for ei, exc := range [][]string{nil, {"ex", "bar"}, {"foo/v1"}} {
						if !w.Thorough() && (mi > 0 && ii > 0 && ei > 0) {
							continue
						}
						for _, where := range []string{"file", "json", "data"} {
							if where == "data" && p.cwd == ".." || !w.Thorough() && where == "json" && ii > 0 {
								continue
							}
							for ci, command := range commands {
								if !w.Thorough() && ci > 0 && (mi > 0 || ei > 0) {
									continue
								}
								try(p, where, config{pl, "ex.com/r", mod, inc, exc}, command)
							}
						}
					}
				}
			}
		}
	}
	// configurations that are refused
	bad := map[string]config{
		"imports on another plugin":     {Plugins: []plugin{{Name: "x", Output: "gen", Imports: true}}},
		"source info on another plugin": {Plugins: []plugin{{Name: "x", Output: "gen", Source: true}}},
		"no output":                     {Plugins: []plugin{{Name: "x"}}},
		"no import path":                {Plugins: []plugin{{Name: "x", Type: "go", Output: "gen"}}},
		"no import path gogo":           {Plugins: []plugin{{Name: "x", Type: "gogo", Output: "gen"}}},
		"prefix":                        {Plugins: []plugin{{Name: "protoc-gen-x", Output: "gen"}}},
		"suffix with a dot":             {Plugins: []plugin{{Name: "x", Output: "gen", FileSuffix: ".jar"}}},
		"type":                          {Plugins: []plugin{{Name: "x", Type: "golang", Output: "gen"}}},
	}
	var names []string
	for n := range bad {
		names = append(names, n)
	}
	for _, n := range core.Sorted(names) {
		for _, p := range places {
			for _, command := range commands {
				for _, good := range []int{0, 1, 2} {
					n, p, command, good := n, p, command, good
					w.Case(kase{p.tree, p.cwd, p.arg, "refused: " + n + fmt.Sprint(good), bad[n], command}, func(t *core.T) { refused(w, t, p, bad[n], command, good) })
				}
			}
		}
	}
	for _, p := range places {
		for _, gens := range [][]string{{"cpp"}, {"python"}, {"descriptor_set"}, {"java"}, {"cpp", "descriptor_set"}} {
			for _, out := range outputs {
				p, gens, out := p, gens, out
				w.Case(kase{p.tree, p.cwd, p.arg, "real " + fmt.Sprint(gens), config{Plugins: []plugin{{Output: out}}}, "generate"}, func(t *core.T) { real(w, t, p, gens, out) })
			}
		}
	}
}

func (c config) external(dir, bin string) map[string]interface{} {
	sub := func(s string) string {
		s = strings.Replace(s, "ABSBIN", bin, -1)
		return strings.Replace(s, "ABSOUT", filepath.Join(filepath.Dir(dir), "absout"), -1)
	}
	var plugins []interface{}
	for _, p := range c.Plugins {
		m := map[string]interface{}{"name": p.Name}
		for k, v := range map[string]string{"type": p.Type, "flags": p.Flags, "output": sub(p.Output), "path": sub(p.Path), "file_suffix": p.FileSuffix} {
			if v != "" {
				m[k] = v
			}
		}
		if p.Imports {
			m["include_imports"] = true
		}
		if p.Source {
			m["include_source_info"] = true
		}
		plugins = append(plugins, m)
	}
	out := map[string]interface{}{}
	gen := map[string]interface{}{}
	if len(plugins) > 0 {
		gen["plugins"] = plugins
	}
	goOpts := map[string]interface{}{}
	if c.ImportPath != "" {
		goOpts["import_path"] = c.ImportPath
	}
	if len(c.Modifiers) > 0 {
		goOpts["extra_modifiers"] = c.Modifiers
	}
	if len(goOpts) > 0 {
		gen["go_options"] = goOpts
	}
	if len(gen) > 0 {
		out["generate"] = gen
	}
	if len(c.Includes) > 0 {
		var inc []string
		for _, i := range c.Includes {
			inc = append(inc, sub(i))
		}
		out["protoc"] = map[string]interface{}{"includes": inc}
	}
	if len(c.Excludes) > 0 {
		out["excludes"] = c.Excludes
	}
	return out
}

// write makes the tree, in r; returns the directory of the tree and of the outputs.
func write(w *core.W, p place, where string, c config) (string, []string) {
	top := w.Fresh("top")
	dir := filepath.Join(top, "r")
	files := map[string]string{"out/": ""}
	for i, f := range trees[p.tree] {
		files[f] = fmt.Sprintf("syntax = \"proto3\";\n\npackage p%d;\n\nmessage M%d {}\n", i, i)
	}
	data, err := json.MarshalIndent(c.external(dir, filepath.Join(w.Scratch, "bin")), "", "  ")
	core.Internal(err)
	var flags []string
	switch where {
	case "file": // JSON is YAML
		files["prototool.yaml"] = string(data)
	case "json":
		files["prototool.json"] = string(data)
	case "data":
		flags = []string{"--config-data", string(data)}
	}
	core.Write(dir, files)
	if p.cwd != "" {
		core.Internal(os.MkdirAll(filepath.Join(dir, p.cwd), 0755))
	}
	return dir, flags
}

func within(dir, path string) bool {
	return path == dir || dir == "/" || strings.HasPrefix(path, dir+"/")
}

func argsOf(p place, dir, command string, flags []string) []string {
	args := strings.Split(command, " ")
	args = append(args, flags...)
	if p.arg != "" {
		args = append(args, strings.Replace(p.arg, "ABS", dir, -1))
	}
	return args
}

type want struct {
	args []string
	out  string // directory that has to exist
}

// reference returns the commands that are expected.
func reference(w *core.W, p place, where, dir string, c config, command string) (cmds []want, fails bool) {
	cwd := filepath.Clean(filepath.Join(dir, p.cwd))
	confDir := dir
	if where == "data" {
		confDir = cwd
	}
	bin := filepath.Join(w.Scratch, "bin")
	abs := func(s string) string {
		s = strings.Replace(s, "ABSBIN", bin, -1)
		s = strings.Replace(s, "ABSOUT", filepath.Join(filepath.Dir(dir), "absout"), -1)
		if !filepath.IsAbs(s) {
			s = filepath.Join(confDir, s)
		}
		return filepath.Clean(s)
	}
	arg := cwd
	if p.arg != "" {
		arg = strings.Replace(p.arg, "ABS", dir, -1)
		if !filepath.IsAbs(arg) {
			arg = filepath.Join(cwd, arg)
		}
		if strings.HasSuffix(arg, ".proto") {
			arg = filepath.Dir(arg)
		}
	}
	byDir := map[string][]string{}
	for _, f := range trees[p.tree] {
		path := filepath.Join(dir, f)
		if !within(confDir, path) {
			continue
		}
		skip := false
		for _, e := range c.Excludes {
			if within(abs(e), path) {
				skip = true
			}
		}
		if !skip {
			byDir[filepath.Dir(path)] = append(byDir[filepath.Dir(path)], path)
		}
	}
	gen := strings.HasPrefix(command, "generate")
	for _, d := range sortedKeys(byDir) {
		if !within(arg, d) {
			continue
		}
		files := core.Sorted(byDir[d])
		var base []string
		covered := false
		incs := append([]string(nil), c.Includes...)
		for i := range incs {
			incs[i] = strings.Replace(incs[i], "ABSBIN", bin, -1)
		}
		for _, i := range core.Sorted(incs) {
			base = append(base, "-I", abs(i))
			if within(abs(i), d) || abs(i) == confDir {
				covered = true
			}
		}
		base = append(base, "-I", core.ProtocWKT)
		if !covered {
			base = append(base, "-I", confDir)
		}
		if !gen || len(c.Plugins) == 0 {
			cmds = append(cmds, want{args: append(append(append([]string(nil), base...), "-o", "/dev/null"), files...)})
			continue
		}
		for _, pl := range c.Plugins {
			a := append([]string(nil), base...)
			out := abs(pl.Output)
			mk := out
			if pl.FileSuffix != "" {
				rel, _ := filepath.Rel(confDir, d)
				name := filepath.Base(d)
				out = filepath.Join(out, rel, name+"."+pl.FileSuffix)
				mk = filepath.Dir(out)
			}
			flags := pl.Flags
			if pl.Type != "" {
				var parts []string
				if flags != "" {
					parts = append(parts, flags)
				}
				relOut := strings.Replace(pl.Output, "ABSOUT", filepath.Join(filepath.Dir(dir), "absout"), -1)
				if filepath.IsAbs(relOut) {
					relOut, _ = filepath.Rel(confDir, relOut)
				}
				var mods []string
				for od, ofs := range byDir {
					if od == d {
						continue
					}
					for _, f := range ofs {
						rel, _ := filepath.Rel(confDir, f)
						mods = append(mods, "M"+rel+"="+filepath.Join(c.ImportPath, relOut, filepath.Dir(rel)))
					}
				}
				parts = append(parts, core.Sorted(mods)...)
				m := wktGo
				if strings.EqualFold(pl.Type, "gogo") {
					m = wktGogo
				}
				mods = nil
				for k, v := range m {
					mods = append(mods, "Mgoogle/protobuf/"+k+".proto="+v)
				}
				parts = append(parts, core.Sorted(mods)...)
				mods = nil
				for k, v := range c.Modifiers {
					mods = append(mods, "M"+k+"="+v)
				}
				parts = append(parts, core.Sorted(mods)...)
				flags = strings.Join(parts, ",")
			}
			if flags != "" {
				out = flags + ":" + out
			}
			a = append(a, "--"+pl.Name+"_out="+out)
			switch pl.Path {
			case "":
			case "onpath":
				a = append(a, "--plugin=protoc-gen-"+pl.Name+"="+filepath.Join(bin, "onpath"))
			case "missing-plugin", "ABSBIN/notexec":
				return nil, true
			default:
				a = append(a, "--plugin=protoc-gen-"+pl.Name+"="+strings.Replace(pl.Path, "ABSBIN", bin, -1))
			}
			if pl.Imports {
				a = append(a, "--include_imports")
			}
			if pl.Source {
				a = append(a, "--include_source_info")
			}
			cmds = append(cmds, want{append(a, files...), mk})
		}
	}
	return cmds, false
}

func sortedKeys(m map[string][]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// norm makes commands comparable: the order of -I flags and files matters, the one of other flags does not.
func norm(args []string) string {
	var inc, flags, files []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "-I" && i+1 < len(args):
			inc = append(inc, args[i+1])
			i++
		case a == "-o" && i+1 < len(args):
			flags = append(flags, "-o "+args[i+1])
			i++
		case strings.HasPrefix(a, "-"):
			flags = append(flags, a)
		default:
			files = append(files, a)
		}
	}
	sort.Strings(flags)
	return fmt.Sprintf("includes %v\n   flags %v\n   files %v", inc, flags, files)
}

func check(w *core.W, t *core.T, p place, where string, c config, command string) {
	dir, flags := write(w, p, where, c)
	_ = os.Setenv("PROTOTOOL_PROTOC_BIN_PATH", fakeBin)
	cmds, fails := reference(w, p, where, dir, c, command)
	before := core.Snapshot(filepath.Dir(dir))
	done := make(chan core.Result, 1)
	args := argsOf(p, dir, command, flags)
	go func() { done <- core.CLI(filepath.Join(dir, p.cwd), args...) }()
	var res core.Result
	var got []string
	dirs := map[string]string{}
	for _, cm := range cmds {
		dirs[norm(cm.args)] = cm.out
	}
	for loop := true; loop; {
		select {
		case call := <-srv.C:
			n := norm(call.Args[1:])
			got = append(got, n)
			if out := dirs[n]; out != "" {
				if info, err := os.Stat(out); err != nil || !info.IsDir() {
					t.Failf("output-directory", "%s does not exist when protoc is called", out)
				}
			}
			call.Reply(fake.Reply{})
		case res = <-done:
			loop = false
		}
	}
	w.Count("transitions", int64(len(got)))
	w.Count("traces_validated_against_impl", 1)
	w.State(fmt.Sprint(p, where, c, command))
	if len(c.Plugins) > 0 && len(cmds) > 0 {
		w.Nontrivial(fmt.Sprint(p, where, c, command))
	}
	if fails {
		if res.Code == 0 || len(got) > 0 {
			t.Failf("missing-plugin", "the plugin cannot be found, but exit code %d and %d invocations", res.Code, len(got))
		}
		return
	}
	if res.Code != 0 {
		t.Failf("exit", "exit code %d: %q %q", res.Code, res.Out, res.Err)
		return
	}
	var wants []string
	for _, cm := range cmds {
		wants = append(wants, norm(cm.args))
	}
	dry := strings.HasSuffix(command, "--dry-run")
	if dry {
		if len(got) > 0 {
			t.Failf("dry-run", "--dry-run runs protoc: %v", got)
		}
		got = nil
		for _, l := range res.Lines() {
			f := strings.Split(l, " ")
			if f[0] != fakeBin {
				t.Failf("dry-run", "does not start with the path of protoc: %q", l)
			}
			got = append(got, norm(f[1:]))
		}
		if d := core.DiffSnapshots(before, core.Snapshot(filepath.Dir(dir))); len(d) > 0 {
			t.Failf("dry-run", "--dry-run changes files: %v", d)
		}
	} else if res.Out != "" {
		t.Failf("output", "prints %q", res.Out)
	}
	sort.Strings(got)
	sort.Strings(wants)
	if !core.Equal(got, wants) {
		t.Failf("invocations", "protoc is called as\n%s\nwant\n%s", strings.Join(got, "\n"), strings.Join(wants, "\n"))
	}
}

func refused(w *core.W, t *core.T, p place, c config, command string, good int) {
	ok := plugin{Name: "aaa", Output: "gen"}
	switch good {
	case 1:
		c.Plugins = append([]plugin{ok}, c.Plugins...)
	case 2:
		ok.Name = "zzz"
		c.Plugins = append(append([]plugin(nil), c.Plugins...), ok)
	}
	dir, flags := write(w, p, "file", c)
	_ = os.Setenv("PROTOTOOL_PROTOC_BIN_PATH", fakeBin)
	before := core.Snapshot(filepath.Dir(dir))
	done := make(chan core.Result, 1)
	go func() { done <- core.CLI(filepath.Join(dir, p.cwd), argsOf(p, dir, command, flags)...) }()
	var res core.Result
	calls := 0
	for loop := true; loop; {
		select {
		case call := <-srv.C:
			calls++
			call.Reply(fake.Reply{})
		case res = <-done:
			loop = false
		}
	}
	w.Nontrivial(fmt.Sprint(p, c, command, good))
	w.Count("traces_validated_against_impl", 1)
	w.State(fmt.Sprint(p, c, command, good))
	if res.Code == 0 || calls > 0 {
		t.Failf("refused", "invalid configuration accepted: exit code %d, %d invocations", res.Code, calls)
	}
	if d := core.DiffSnapshots(before, core.Snapshot(filepath.Dir(dir))); len(d) > 0 {
		t.Failf("refused", "invalid configuration, but files change: %v", d)
	}
}

// real runs the built-in generators of the real protoc.
func real(w *core.W, t *core.T, p place, gens []string, out string) {
	var c config
	for _, g := range gens {
		pl := plugin{Name: g, Output: out}
		if g == "descriptor_set" {
			pl.FileSuffix = "bin"
		}
		if g == "java" {
			pl.FileSuffix = "jar"
		}
		c.Plugins = append(c.Plugins, pl)
	}
	if p.tree == "exclud" {
		c.Excludes = []string{"ex"}
	}
	dir, flags := write(w, p, "file", c)
	_ = os.Setenv("PROTOTOOL_PROTOC_BIN_PATH", core.ProtocBin)
	top := filepath.Dir(dir)
	before := core.Snapshot(top)
	cmds, _ := reference(w, p, "file", dir, c, "generate")
	res := core.CLI(filepath.Join(dir, p.cwd), argsOf(p, dir, "generate", flags)...)
	w.Nontrivial(fmt.Sprint("real", p, gens, out))
	w.Count("traces_validated_against_impl", 1)
	w.State(fmt.Sprint("real", p, gens, out))
	if res.Code != 0 {
		t.Failf("real-exit", "exit code %d: %q %q", res.Code, res.Out, res.Err)
		return
	}
	wants := map[string]bool{}
	for _, cm := range cmds {
		var files []string
		for _, a := range cm.args {
			if strings.HasSuffix(a, ".proto") {
				files = append(files, a)
			}
		}
		for _, a := range cm.args {
			for _, g := range []string{"cpp", "python", "java", "descriptor_set"} {
				if !strings.HasPrefix(a, "--"+g+"_out=") {
					continue
				}
				o, _ := filepath.Rel(top, strings.TrimPrefix(a, "--"+g+"_out="))
				for _, f := range files {
					rel, _ := filepath.Rel(dir, f)
					switch g {
					case "cpp":
						wants["+"+filepath.Join(o, strings.TrimSuffix(rel, ".proto")+".pb.h")] = true
						wants["+"+filepath.Join(o, strings.TrimSuffix(rel, ".proto")+".pb.cc")] = true
					case "python":
						wants["+"+filepath.Join(o, strings.TrimSuffix(rel, ".proto")+"_pb2.py")] = true
					default:
						wants["+"+o] = true
					}
				}
			}
		}
	}
	var wantL, got []string
	for k := range wants {
		wantL = append(wantL, k)
	}
	for _, d := range core.DiffSnapshots(before, core.Snapshot(top)) {
		if !strings.HasSuffix(d, "/") {
			got = append(got, d)
		}
	}
	if !core.Equal(core.Sorted(got), core.Sorted(wantL)) {
		t.Failf("real-files", "created %v, want %v", got, wantL)
	}
	after := core.Snapshot(top)
	for k := range wants {
		if !strings.HasSuffix(k, ".bin") {
			continue
		}
		fds := &descriptor.FileDescriptorSet{}
		if err := proto.Unmarshal([]byte(after[k[1:]]), fds); err != nil || len(fds.File) == 0 {
			t.Failf("real-descriptor", "%s: %v, %d files", k, err, len(fds.File))
		}
	}
}
