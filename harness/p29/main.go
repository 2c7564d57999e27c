//go:build go1.22

// P29: formatting keeps comments.
package main

import (
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/fmtgen"
	"github.com/uber/prototool/internal/verifmc/fmtrun"
)

func main() {
	core.Main(&core.Check{
		ID:          "P29",
		Level:       "exploration",
		Rule:        "a comment of every style and text at every place between statements (alone, with others at the same place and at the next one) is formatted with the real command; it is there once afterwards, still above or behind the statement it was above or behind",
		Assumptions: []string{"comments between statements, and before options in brackets; comments within a statement are not part of the property"},
		Run:         run,
	})
}

func run(w *core.W) {
	core.UseSystemProtoc()
	fmtrun.Batches(w, "comments", fmtrun.Comments(), 60, once)
	fmtrun.Batches(w, "texts", fmtrun.CommentTexts(), 60, once)
	arounds := fmtrun.Arounds(w.Thorough())
	var items []fmtrun.Item
	checks := map[string][]fmtrun.Attached{}
	for _, a := range arounds {
		items = append(items, a.Item)
		checks[a.Label] = a.Checks
	}
	fmtrun.Batches(w, "around", items, 60, func(t *core.T, label string, o *fmtrun.Outcome) {
		if !ok(t, label, o) {
			return
		}
		for _, n := range []string{"t1t", "d1d", "a1a", "t2t", "d2d", "a2a"} {
			if c := strings.Count(o.After, n); c != strings.Count(o.Source, n) {
				t.Failf("lost", "source %s\ncomment %s is there %d times:\n%s", label, n, c, o.After)
			}
		}
		toks := fmtgen.Tokens(o.After)
		for _, c := range checks[label] {
			want := strings.Fields(c.Tokens)
			for i, tok := range toks {
				if !strings.Contains(tok, c.Text) {
					continue
				}
				var near []string
				for j := i + 1; c.Above && len(near) < len(want) && j < len(toks); j++ {
					near = append(near, toks[j])
				}
				for j := i - 1; !c.Above && len(near) < len(want) && j >= 0; j-- {
					near = append([]string{toks[j]}, near...)
				}
				if strings.Join(near, " ") != strings.Replace(c.Tokens, "p.v1", "p"+pkg(o.Source)+".v1", -1) {
					t.Failf("moved", "source %s\ncomment %s is next to %v instead of %s:\n%s", label, c.Text, near, c.Tokens, o.After)
				}
			}
			for _, l := range strings.Split(o.After, "\n") {
				if strings.Contains(l, c.Text) && c.Above != strings.HasPrefix(strings.TrimSpace(l), "//") {
					t.Failf("line", "source %s\ncomment %s moved to or from a line of its own:\n%s", label, c.Text, o.After)
				}
			}
		}
	})
}

func pkg(src string) string {
	i := strings.Index(src, "package p")
	return strings.Split(src[i+len("package p"):], ".")[0]
}

func ok(t *core.T, label string, o *fmtrun.Outcome) bool {
	switch {
	case o.FormatErr != "":
		t.Failf("refused", "source %s\n%s\nsource:\n%s", label, o.FormatErr, o.Source)
	case o.Broken+o.Diff != "":
		t.Failf("meaning", "source %s\n%s\nformatted:\n%s", label, o.Broken+o.Diff, o.After)
	case o.Second+o.SecondErr+o.LintErr != "":
		t.Failf("unstable", "source %s\n%s%s\nformatted:\n%s\nformatted twice:\n%s", label, o.SecondErr, o.LintErr, o.After, o.Second)
	default:
		return true
	}
	return false
}

// words are the words of all comments.
func words(src string) string {
	var out []string
	for _, tok := range fmtgen.Tokens(src) {
		if strings.HasPrefix(tok, "//") {
			out = append(out, strings.Fields(strings.TrimLeft(tok, "/"))...)
		} else if strings.HasPrefix(tok, "/*") {
			for _, l := range strings.Split(strings.TrimSuffix(tok[2:], "*/"), "\n") {
				out = append(out, strings.Fields(strings.TrimLeft(strings.TrimSpace(l), "*"))...)
			}
		}
	}
	var keep []string
	for _, w := range out {
		if w = strings.Trim(w, "*/"); w != "" {
			keep = append(keep, w)
		}
	}
	out = keep
	return strings.Join(out, " ")
}

func once(t *core.T, label string, o *fmtrun.Outcome) {
	if !ok(t, label, o) {
		return
	}
	if a, b := words(o.Source), words(o.After); a != b {
		t.Failf("text", "source %s\ncomments %q are %q:\n%s", label, a, b, o.After)
	}
}
