//go:build go1.22

package main

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
)

// linkKase is a tree of which some directories and files are symbolic links.
type linkKase struct {
	Config, Excludes string
	Links            []string
	How              string
	Work, Arg        string
	Command          string
}

// links: a directory or file is what it is if symbolic links lead to it.
func links(w *core.W) {
	linkable := []string{".", "foo", "foo/sub", "foo/a.proto", "foo/sub/b.proto"}
	targets := []string{".", "foo", "foo/sub", "foo/a.proto", "foo/sub/b.proto", "foobar", "foobar/c.proto"}
	configs := [][2]string{{"none", ""}, {".", ""}, {".", "foo/sub"}, {".", "foobar"}, {"foo", ""}, {"foo", "sub"}, {"foo/sub", ""}, {".", "foo/a.proto"}, {"data", ""}, {"data", "foo/sub"}}
	hows := []string{"absolute", "relative", "link to link"}
	core.Subsets(len(linkable), len(linkable), func(m int) {
		if m == 0 {
			return
		}
		var chosen []string
		for i, p := range linkable {
			if m&(1<<uint(i)) != 0 {
				chosen = append(chosen, p)
			}
		}
		for _, c := range configs {
			for _, how := range hows {
				for _, work := range []string{"..", ".", "foo", "foo/sub"} {
					for _, target := range targets {
						// the links have to be on the way, or files
						open := false
						for _, l := range chosen {
							if !strings.HasSuffix(l, ".proto") && !within(target, l) && within(l, dirOf(target)) {
								open = true
							}
							// the configuration is searched for from where it is
							if work == ".." && c[0] == "data" {
								open = true
							}
						}
						if open {
							continue
						}
						for _, cmdline := range append([][]string{{"lint", "--json"}}, commands...) {
							if !w.Thorough() && (how != "absolute" && cmdline[0] != "files" && cmdline[0] != "generate" || len(chosen) > 2 && cmdline[0] != "files" && cmdline[0] != "lint" || c[1] == "foobar" && cmdline[0] != "files" || cmdline[0] == "all" && how != "absolute") {
								continue
							}
							k := linkKase{c[0], c[1], chosen, how, work, target, strings.Join(cmdline, " ")}
							cmdline := cmdline
							w.Case(k, func(t *core.T) { linked(w, t, k, cmdline) })
						}
					}
				}
			}
		}
	})
}

func dirOf(p string) string {
	if strings.HasSuffix(p, ".proto") {
		return path.Dir(p)
	}
	return p
}

// follow is all files below the directory, through links.
func follow(dir string) map[string]string {
	out := map[string]string{}
	var rec func(rel string)
	rec = func(rel string) {
		entries, _ := os.ReadDir(path.Join(dir, rel))
		for _, e := range entries {
			r := path.Join(rel, e.Name())
			st, err := os.Stat(path.Join(dir, r))
			switch {
			case err != nil:
				out[r] = err.Error()
			case st.IsDir():
				out[r+"/"] = ""
				rec(r)
			default:
				data, _ := os.ReadFile(path.Join(dir, r))
				out[r] = string(data)
			}
		}
	}
	rec("")
	return out
}

func linked(w *core.W, t *core.T, k linkKase, cmdline []string) {
	conf := "lint:\n  group: empty\n  rules:\n    add:\n      - MESSAGE_NAMES_CAMEL_CASE\ngenerate:\n  plugins:\n    - name: cpp\n      output: gen\n"
	if k.Excludes != "" {
		conf += "excludes:\n  - " + k.Excludes + "\n"
	}
	tree := map[string]string{"gen/": "", "foo/gen/": "", "foo/sub/gen/": ""}
	for _, p := range []string{"foo/a.proto", "foo/sub/b.proto", "foobar/c.proto"} {
		tree[p] = source(p, false)
	}
	if k.Config != "none" && k.Config != "data" {
		tree[path.Join(k.Config, "prototool.yaml")] = conf
	}
	run := func(symbolic bool) (core.Result, map[string]string) {
		base := w.Fresh("t")
		else_ := w.Fresh("e")
		root := base + "/1/2/root"
		core.Write(root, tree)
		if symbolic {
			// final is where a directory is in the end
			final := func(rel string) string {
				for i := len(k.Links) - 1; i >= 0; i-- {
					if l := k.Links[i]; within(rel, l) {
						return path.Join(else_, fmt.Sprint("x/y/z/", i), path.Base(path.Join(root, l)), strings.TrimPrefix(strings.TrimPrefix(rel, l), "/"))
					}
				}
				return path.Join(root, rel)
			}
			parent := func(l string) string {
				if l == "." {
					return path.Dir(root)
				}
				return final(path.Dir(l))
			}
			// from the innermost to the outermost
			for i := len(k.Links) - 1; i >= 0; i-- {
				p := path.Join(root, k.Links[i])
				moved := path.Join(else_, fmt.Sprint("x/y/z/", i), path.Base(p))
				core.Internal(os.MkdirAll(path.Dir(moved), 0755))
				core.Internal(os.Rename(p, moved))
				to := moved
				switch k.How {
				case "relative":
					var err error
					to, err = filepath.Rel(parent(k.Links[i]), moved)
					core.Internal(err)
				case "link to link":
					core.Internal(os.Symlink(moved, path.Join(else_, fmt.Sprint("link", i))))
					to = path.Join(else_, fmt.Sprint("link", i))
				}
				core.Internal(os.Symlink(to, p))
			}
		}
		work := path.Join(root, k.Work)
		// the shell sets this to the path with the links
		core.Internal(os.Setenv("PWD", work))
		defer func() { _ = os.Unsetenv("PWD") }()
		args := append([]string(nil), cmdline...)
		if k.Config == "data" {
			args = append(args, "--config-data", `{"lint":{"group":"empty"},"excludes":["`+k.Excludes+`"]}`)
			if k.Excludes == "" {
				args[len(args)-1] = `{"lint":{"group":"empty"}}`
			}
		}
		target := path.Join(root, k.Arg)
		switch {
		case target == work:
			// what is done without an argument
		case k.Work == "..":
			args = append(args, path.Join("root", k.Arg))
		case k.Work == ".":
			args = append(args, k.Arg)
		case within(k.Arg, k.Work):
			args = append(args, strings.TrimPrefix(k.Arg, k.Work+"/"))
		default:
			args = append(args, target)
		}
		r := core.CLI(work, args...)
		w.Count("runs", 1)
		r.Out = stamp(r.Out)
		return r, follow(root)
	}
	wantR, wantT := run(false)
	gotR, gotT := run(true)
	w.Nontrivial(wantR.Out + fmt.Sprint(wantR.Code, k.Command))
	if wantR.Code != gotR.Code || wantR.Out != gotR.Out {
		t.Failf("links", "exit code %d instead of %d, output:\n%s\ninstead of\n%s", gotR.Code, wantR.Code, gotR.Out, wantR.Out)
	}
	for _, d := range core.DiffSnapshots(wantT, gotT) {
		t.Failf("links", "%s: %q instead of %q", d, gotT[d[1:]], wantT[d[1:]])
	}
	if n := core.TempEntries(); len(n) > 0 {
		t.Failf("temp", "left temporary files %v", n)
		core.CleanTemp()
	}
}

// stamp removes the times of diffs.
func stamp(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "--- ") || strings.HasPrefix(l, "+++ ") {
			lines[i] = strings.Join(strings.Fields(l)[:2], " ")
		}
	}
	return strings.Join(lines, "\n")
}
