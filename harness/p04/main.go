//go:build go1.22

// P04: formatted files are stable.
package main

import (
	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/fmtrun"
)

func main() {
	core.Main(&core.Check{
		ID:          "P04",
		Level:       "exploration",
		Rule:        "each source of the alphabet (options of all kinds with all literals, all statements in all layouts, all pairs, all orders of the header, comments at all places) is formatted with the real command twice; the second run changes nothing, and format -l accepts what -w wrote",
		Assumptions: []string{"protoc 3.21.12 decides which sources are valid and what they mean; the order of imports is no part of the meaning", "sources out of the constructs of harness/fmtgen, at most two constructs beside the fixed ones per file, comments between statements only"},
		Run:         run,
	})
}

func run(w *core.W) {
	core.UseSystemProtoc()
	fmtrun.All(w, report)
	fmtrun.Batches(w, "texts", fmtrun.CommentTexts(), 60, report)
}

func report(t *core.T, label string, o *fmtrun.Outcome) {
	switch {
	case o.FormatErr != "" || o.Broken != "":
		// decided by P05
		t.W.Count("sources_refused_or_broken", 1)
	case o.SecondErr != "":
		t.Failf("second-refused", "source %s\n%s\nformatted:\n%s", label, o.SecondErr, o.After)
	case o.Second != "":
		t.Failf("unstable", "source %s\nformatted:\n%s\nformatted twice:\n%s", label, o.After, o.Second)
	case o.LintErr != "":
		t.Failf("unclean", "source %s\nformat -l says %s\nformatted:\n%s", label, o.LintErr, o.After)
	}
}
