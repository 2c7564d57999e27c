//go:build go1.22

// P06: the modes of format agree, and only -w writes.
package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/fmtgen"
)

func main() {
	core.Main(&core.Check{
		ID:          "P06",
		Level:       "exploration",
		Rule:        "every assignment of file states (formatted, unformatted, no final newline, carriage returns, only --fix differs, refused by the formatter, refused by protoc) to the files of a tree of three directories, in every mode (stdout, -d, -l, -w, every combination of them, with and without --fix) for the tree, a directory and a single file",
		Assumptions: []string{"the formatted content of a file is what format prints for the file alone; patch(1) applies the printed diff"},
		Run:         run,
	})
}

// states of a file.
var states = map[string]func(pkg, name string) string{
	"clean": func(pkg, name string) string {
		return "syntax = \"proto3\";\n\npackage " + pkg + ";\n\n" + fix(pkg, name)
	},
	"messy": func(pkg, name string) string {
		return "syntax = \"proto3\"; package " + pkg + ";\n\n\n\nmessage " + strings.ToUpper(name) + " { string a=1; // trailing\n }\n\n\n"
	},
	"nonl": func(pkg, name string) string {
		return "syntax = \"proto3\";\n\npackage " + pkg + ";\n\n" + strings.TrimSpace(fix(pkg, name))
	},
	"crlf": func(pkg, name string) string {
		return strings.Replace("syntax = \"proto3\";\n\npackage "+pkg+";\n\n"+fix(pkg, name), "\n", "\r\n", -1)
	},
	"fixonly": func(pkg, name string) string {
		return "syntax = \"proto3\";\n\npackage " + pkg + ";\n\nmessage " + strings.ToUpper(name) + " {}\n"
	},
	"refused": func(pkg, name string) string {
		return "syntax = \"proto3\";\n\npackage " + pkg + ";\n\nimport \"opts/opts.proto\";\n\nmessage " + strings.ToUpper(name) + " { option (opts.message_m) = {[opts.ox]: 1}; }\n"
	},
	"broken": func(pkg, name string) string {
		return "syntax = \"proto3\";\n\npackage " + pkg + ";\n\nmessage " + strings.ToUpper(name) + " { nosuch a = 1; }\n"
	},
}

// fix is the formatted rest of a file with the options of --fix.
func fix(pkg, name string) string {
	return "option go_package = \"" + pkg + "pb\";\noption java_multiple_files = true;\noption java_outer_classname = \"" + strings.ToUpper(name) + "Proto\";\noption java_package = \"com." + pkg + "\";\n\nmessage " + strings.ToUpper(name) + " {\n  string a = 1;\n}\n"
}

func run(w *core.W) {
	core.UseSystemProtoc()
	files := []string{"a/a.proto", "a/b.proto", "a/sub/c.proto", "b/d.proto"}
	var names []string
	for n := range states {
		names = append(names, n)
	}
	sort.Strings(names)
	sizes := make([]int, len(files))
	for i := range sizes {
		sizes[i] = len(names)
	}
	core.Product(sizes, func(ix []int) {
		bad := 0
		var assign []string
		for _, i := range ix {
			assign = append(assign, names[i])
			if names[i] == "refused" || names[i] == "broken" {
				bad++
			}
		}
		if bad > w.Pick(1, 2) {
			return
		}
		if bad > 0 && !w.Thorough() {
			// the others are clean or messy
			for _, a := range assign {
				if a == "nonl" || a == "crlf" || a == "fixonly" {
					return
				}
			}
		}
		type kase struct {
			Part   string
			States []string
		}
		for _, fixFlag := range []bool{false, true} {
			fixFlag := fixFlag
			w.Case(kase{fmt.Sprintf("fix=%v", fixFlag), assign}, func(t *core.T) { modes(t, files, assign, fixFlag) })
		}
	})
}

func modes(t *core.T, files, assign []string, fixFlag bool) {
	w := t.W
	root := w.Fresh("modes")
	dir := filepath.Join(root, "w")
	content := map[string]string{"w/prototool.yaml": "protoc:\n  allow_unused_imports: true\n  includes:\n    - ../inc\n", "inc/opts/opts.proto": fmtgen.Opts}
	perm := map[string]os.FileMode{}
	src := map[string]string{}
	broken, refused := map[string]bool{}, map[string]bool{}
	for i, f := range files {
		pkg := strings.Replace(filepath.Dir(f), "/", "", -1)
		src[f] = states[assign[i]](pkg, strings.TrimSuffix(filepath.Base(f), ".proto"))
		content["w/"+f] = src[f]
		broken[f], refused[f] = assign[i] == "broken", assign[i] == "refused"
		perm[f] = []os.FileMode{0644, 0600, 0755, 0640}[i]
	}
	reset := func() {
		core.Write(root, content)
		for f, p := range perm {
			core.Internal(os.Chmod(filepath.Join(dir, f), p))
		}
	}
	reset()
	base := []string{"format"}
	if fixFlag {
		base = append(base, "--fix")
	}
	w.Nontrivial(fmt.Sprint(assign, fixFlag))
	// the formatted files
	good := map[string]string{}
	for _, f := range files {
		for _, g := range files {
			// files of the same directory are compiled together
			if broken[g] && filepath.Dir(g) == filepath.Dir(f) {
				broken[f] = true
			}
		}
	}
	for i, f := range files {
		if broken[f] || refused[f] {
			continue
		}
		// alone, so that files of other directories do not matter
		alone := w.Fresh("alone")
		core.Write(alone, map[string]string{f: src[f], "prototool.yaml": "lint:\n  group: uber1\n"})
		r := core.CLI(filepath.Dir(filepath.Join(alone, f)), append(append([]string{}, base...), filepath.Base(f))...)
		good[f] = r.Out
		differs := good[f] != src[f]
		if (r.Code != 0) != differs {
			t.Failf("alone", "format of %s (%s): exit code %d, differs %v", f, assign[i], r.Code, differs)
		}
		want := assign[i] == "messy" || assign[i] == "nonl" || assign[i] == "crlf" || (assign[i] == "fixonly" && fixFlag)
		if differs != want {
			t.Failf("differs", "file %s (%s): differs=%v\n%s\nformatted:\n%s", f, assign[i], differs, src[f], good[f])
		}
	}
	same := func(what string) {
		for _, f := range files {
			data, err := ioutil.ReadFile(filepath.Join(dir, f))
			core.Internal(err)
			if string(data) != src[f] {
				t.Failf("written", "%s changed %s", what, f)
				reset()
			}
		}
	}
	for _, arg := range []string{".", "a", "a/sub", "b", "a/a.proto", "b/d.proto"} {
		var sel []string // the selected files in order
		single := strings.HasSuffix(arg, ".proto")
		for _, f := range files {
			if arg == "." || f == arg || !single && strings.HasPrefix(f, arg+"/") {
				sel = append(sel, f)
			}
		}
		// a single file is compiled with its directory
		bad, comp := false, false
		for _, f := range files {
			if single && strings.HasPrefix(f, filepath.Dir(arg)+"/") {
				comp = comp || broken[f]
			}
		}
		for _, f := range sel {
			bad = bad || refused[f]
			comp = comp || broken[f]
		}
		cli := func(flags ...string) core.Result {
			return core.CLI(dir, append(append(append([]string{}, base...), flags...), arg)...)
		}
		// plain
		var all strings.Builder
		differ := false
		for _, f := range sel {
			all.WriteString(good[f])
			differ = differ || good[f] != src[f]
		}
		for _, c := range [][]string{{"-d", "-l"}, {"-d", "-w"}, {"-l", "-w"}, {"-d", "-l", "-w"}} {
			if r := cli(c...); r.Code == 0 {
				t.Failf("combined", "format %v %s succeeds", c, arg)
			}
			same(fmt.Sprint("format ", c, " ", arg))
		}
		r := cli()
		same("format " + arg)
		if bad || comp {
			for _, m := range []string{"", "-d", "-l"} {
				var flags []string
				if m != "" {
					flags = append(flags, m)
				}
				if r := cli(flags...); r.Code == 0 {
					t.Failf("bad-success", "format %s %s succeeds, a file is refused", m, arg)
				}
				same("format " + m + " " + arg)
			}
			if r := cli("-w"); r.Code == 0 {
				t.Failf("bad-success", "format -w %s succeeds, a file is refused", arg)
			}
			for _, f := range files {
				data, err := ioutil.ReadFile(filepath.Join(dir, f))
				core.Internal(err)
				selected := false
				for _, s := range sel {
					selected = selected || s == f
				}
				if string(data) == src[f] {
					continue
				}
				if comp || refused[f] || !selected || string(data) != good[f] {
					t.Failf("bad-write", "format -w %s changed %s although a file is refused:\n%s", arg, f, data)
				}
			}
			reset()
			continue
		}
		if (r.Code != 0) != differ || r.Out != all.String() {
			t.Failf("plain", "format %s: exit code %d, output\n%s\ninstead of\n%s", arg, r.Code, r.Out, all.String())
		}
		// -l
		r = cli("-l")
		same("format -l " + arg)
		var want []string
		for _, f := range sel {
			if good[f] != src[f] {
				want = append(want, f+":1:1:Format returned a diff.")
			}
		}
		if (r.Code != 0) != differ || !core.Equal(r.Lines(), want) {
			t.Failf("lint", "format -l %s: exit code %d, output %q instead of %q", arg, r.Code, r.Lines(), want)
		}
		// -d
		r = cli("-d")
		same("format -d " + arg)
		if (r.Code != 0) != differ || (r.Out != "") != differ {
			t.Failf("diff", "format -d %s: exit code %d, output\n%s", arg, r.Code, r.Out)
		}
		if differ {
			p := w.Fresh("patched")
			files := map[string]string{}
			for _, f := range sel {
				files[f] = src[f]
				if strings.Count(r.Out, "+++ "+f+"\t") != map[bool]int{true: 1}[good[f] != src[f]] {
					t.Failf("diff", "format -d %s: %s is there %d times:\n%s", arg, f, strings.Count(r.Out, "+++ "+f), r.Out)
				}
			}
			core.Write(p, files)
			c := exec.Command("patch", "-p0", "-s", "--binary", "--no-backup-if-mismatch")
			c.Dir = p
			c.Stdin = strings.NewReader(r.Out)
			out, err := c.CombinedOutput()
			if err != nil {
				t.Failf("diff", "format -d %s: the diff does not apply: %s\n%s", arg, out, r.Out)
			}
			for _, f := range sel {
				data, _ := ioutil.ReadFile(filepath.Join(p, f))
				if string(data) != good[f] {
					t.Failf("diff", "format -d %s: the diff makes %s\n%s\ninstead of\n%s", arg, f, data, good[f])
				}
			}
		}
		// -w
		r = cli("-w")
		if r.Code != 0 || r.Out != "" {
			t.Failf("write", "format -w %s: exit code %d, output %s", arg, r.Code, r.Out)
		}
		for _, f := range files {
			data, err := ioutil.ReadFile(filepath.Join(dir, f))
			core.Internal(err)
			want := src[f]
			for _, s := range sel {
				if s == f {
					want = good[f]
				}
			}
			if string(data) != want {
				t.Failf("write", "format -w %s made %s\n%s\ninstead of\n%s", arg, f, data, want)
			}
			info, err := os.Stat(filepath.Join(dir, f))
			core.Internal(err)
			if info.Mode().Perm() != perm[f] {
				t.Failf("mode", "format -w %s changed the permissions of %s to %v", arg, f, info.Mode())
			}
		}
		reset()
	}
	if l := core.TempEntries(); len(l) > 0 {
		t.Failf("temp", "left behind: %v", l)
		core.CleanTemp()
	}
}
