//go:build go1.22

// P02: a command given a directory or file acts on that directory or file only.
package main

import (
	"path"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/uber/prototool/internal/verifmc/core"
)

var places = []string{"f.proto", "foo/f.proto", "foobar/f.proto", "foo/sub/f.proto", "foo/g.proto", "fo/f.proto"}

func pkg(p string) string {
	return "p." + strings.Replace(strings.TrimSuffix(p, ".proto"), "/", ".", -1)
}

// every file needs formatting and breaks one lint rule
func source(p string, unused bool) string {
	s := "syntax = \"proto3\";\npackage " + pkg(p) + ";\n"
	if unused {
		s += "import \"google/protobuf/timestamp.proto\";\n"
	}
	return s + "message  bad_name   {}\n"
}

var commands = [][]string{
	{"files"},
	{"format", "-w"},
	{"format", "-l"},
	{"format", "-d"},
	{"format", "-w", "-f"},
	{"lint"},
	{"lint", "--generate-ignores"},
	{"compile"},
	{"generate"},
	{"all"},
	{"all", "--disable-lint"},
	{"descriptor-set"},
	{"x", "inspect", "packages"},
	{"break", "descriptor-set", "-o", "out.bin"},
}

type kase struct {
	Files   []string
	Work    string
	Arg     string
	Command string
	Unused  bool
}

func main() {
	core.Main(&core.Check{
		ID:    "P02",
		Level: "exploration",
		Rule: "A case is a set of files spread over a directory, its subdirectory and siblings whose names share a prefix, a working directory, a directory or file argument and a command, executed with the real protoc; " +
			"non-trivial: some file is inside and some file outside the argument.",
		Assumptions: []string{"protoc 3.21.12", "exclusion and configuration lookup are P01's subject: one configuration file at the root here"},
		Run:         run,
	})
}

func run(w *core.W) {
	core.UseSystemProtoc()
	links(w)
	maxFiles := w.Pick(4, 6)
	core.Subsets(len(places), maxFiles, func(m int) {
		if m == 0 {
			return
		}
		var files []string
		for i, p := range places {
			if m&(1<<uint(i)) != 0 {
				files = append(files, p)
			}
		}
		if !w.Thorough() && len(files) < 3 {
			return
		}
		for _, work := range []string{".", "foo"} {
			args := []string{".", "foo", "fo", "foobar", "foo/sub"}
			for _, f := range files {
				args = append(args, f)
			}
			for _, arg := range args {
				for ci := range commands {
					cmdline := commands[ci]
					for _, unused := range []bool{false, true} {
						if unused && cmdline[0] != "compile" && !(cmdline[0] == "lint" && len(cmdline) == 1) {
							continue
						}
						k := kase{files, work, arg, strings.Join(cmdline, " "), unused}
						w.Case(k, func(t *core.T) { check(t, k, cmdline) })
					}
				}
			}
		}
	})
}

func within(p, d string) bool { return d == "." || p == d || strings.HasPrefix(p, d+"/") }

func check(t *core.T, k kase, cmdline []string) {
	w := t.W
	dir := w.Fresh("t")
	tree := map[string]string{
		"prototool.yaml": "lint:\n  group: empty\n  rules:\n    add:\n      - MESSAGE_NAMES_CAMEL_CASE\ngenerate:\n  plugins:\n    - name: cpp\n      output: gen\n",
		"foo/":           "", "fo/": "", "foobar/": "", "foo/sub/": "",
	}
	for _, p := range k.Files {
		tree[p] = source(p, k.Unused)
	}
	core.Write(dir, tree)
	before := core.Snapshot(dir)
	// spell the argument relative to the working directory
	spelled := k.Arg
	if k.Work == "foo" {
		switch {
		case k.Arg == "foo":
			spelled = "."
		case strings.HasPrefix(k.Arg, "foo/"):
			spelled = strings.TrimPrefix(k.Arg, "foo/")
		case k.Arg == ".":
			spelled = ".."
		default:
			spelled = "../" + k.Arg
		}
	}
	single := strings.HasSuffix(k.Arg, ".proto")
	scopeDir := k.Arg
	if single {
		scopeDir = path.Dir(k.Arg)
	}
	var inDir, inScope []string // files under the directory; files the command is about
	for _, p := range k.Files {
		if within(path.Dir(p), scopeDir) {
			inDir = append(inDir, p)
			if !single || p == k.Arg {
				inScope = append(inScope, p)
			}
		}
	}
	args := append([]string{cmdline[0]}, cmdline[1:]...)
	args = append(args, spelled)
	res := core.CLI(dir+"/"+k.Work, args...)
	after := core.Snapshot(dir)
	changed := map[string]bool{}
	generated := map[string]bool{}
	for _, d := range core.DiffSnapshots(before, after) {
		name := d[1:]
		switch {
		case d[0] == '~':
			changed[name] = true
		case strings.HasPrefix(name, "gen/") || name == "gen/":
			if strings.HasSuffix(name, ".pb.cc") {
				generated[strings.TrimSuffix(strings.TrimPrefix(name, "gen/"), ".pb.cc")+".proto"] = true
			}
		case path.Base(name) == "out.bin":
		default:
			t.Failf("stray", "prototool %v in %s: unexpected change %s", args, k.Work, d)
		}
	}
	if len(core.TempEntries()) > 0 {
		t.Failf("temp", "prototool %v left temporary files %v", args, core.TempEntries())
		core.CleanTemp()
	}
	exact := func(what string, got map[string]bool, want []string) {
		var g []string
		for p := range got {
			g = append(g, p)
		}
		sort.Strings(g)
		if !core.Equal(g, core.Sorted(want)) {
			t.Failf("scope-"+what, "prototool %v in %s with files %v: %s %v, must be %v (exit %d, output %q)", args, k.Work, k.Files, what, g, core.Sorted(want), res.Code, res.Out)
		}
	}
	// the files named by the output
	reported := map[string]bool{}
	for _, l := range res.Lines() {
		name, _, ok := strings.Cut(l, ":")
		if ok && strings.HasSuffix(name, ".proto") {
			reported[path.Clean(path.Join(k.Work, name))] = true
		}
	}
	writes := cmdline[0] == "all" || cmdline[0] == "format" && cmdline[1] == "-w"
	if writes {
		exact("modified", changed, inScope)
	} else {
		exact("modified", changed, nil)
	}
	if cmdline[0] == "generate" || cmdline[0] == "all" {
		exact("generated", generated, inDir)
	} else {
		exact("generated", generated, nil)
	}
	wantExit := func(bad bool) {
		if bad != (res.Code != 0) {
			t.Failf("exit", "prototool %v in %s with files %v: exit %d, output %q", args, k.Work, k.Files, res.Code, res.Out)
		}
	}
	switch cmdline[0] {
	case "files":
		got := map[string]bool{}
		for _, l := range res.Lines() {
			got[path.Clean(path.Join(k.Work, l))] = true
		}
		exact("listed", got, inDir)
		wantExit(false)
	case "format":
		switch cmdline[1] {
		case "-w":
			wantExit(false)
		case "-l":
			exact("reported", reported, inScope)
			wantExit(len(inScope) > 0)
		case "-d":
			got := map[string]bool{}
			for _, l := range res.Lines() {
				if strings.HasPrefix(l, "+++ ") {
					name := strings.Fields(l)[1]
					got[path.Clean(path.Join(k.Work, name))] = true
				}
			}
			exact("diffed", got, inScope)
			wantExit(len(inScope) > 0)
		}
	case "lint":
		if len(cmdline) > 1 {
			if single {
				break
			}
			got := map[string]bool{}
			for _, l := range res.Lines() {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "- ") && strings.HasSuffix(l, ".proto") {
					got[strings.TrimPrefix(l, "- ")] = true
				}
			}
			exact("ignored", got, inDir)
			break
		}
		exact("reported", reported, inScope)
		if !single {
			wantExit(len(inScope) > 0)
		}
	case "compile":
		if k.Unused {
			exact("reported", reported, inScope)
			if !single {
				wantExit(len(inScope) > 0)
			}
		} else {
			exact("reported", reported, nil)
			wantExit(false)
		}
	case "all":
		if len(cmdline) == 1 {
			exact("reported", reported, inScope)
			if !single {
				wantExit(len(inScope) > 0)
			}
		} else {
			wantExit(false)
		}
	case "generate":
		wantExit(false)
	case "descriptor-set", "break":
		data := []byte(res.Out)
		if cmdline[0] == "break" {
			data = []byte(after[path.Join(k.Work, "out.bin")])
		}
		set := &descriptor.FileDescriptorSet{}
		if err := proto.Unmarshal(data, set); err != nil {
			t.Failf("descriptor", "prototool %v: %v", args, err)
		}
		got := map[string]bool{}
		for _, f := range set.File {
			got[f.GetName()] = true
		}
		exact("described", got, inDir)
	case "x":
		got := map[string]bool{}
		for _, l := range res.Lines() {
			got[strings.Replace(strings.TrimPrefix(l, "p."), ".", "/", -1)+".proto"] = true
		}
		exact("inspected", got, inDir)
	}
	if len(inScope) > 0 && len(inScope) < len(k.Files) {
		w.Nontrivial(k.Work + "|" + strings.Join(args, " ") + "|" + strings.Join(k.Files, " "))
	}
}
