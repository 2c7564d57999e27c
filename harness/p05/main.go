//go:build go1.22

// P05: formatting does not change the meaning of a file.
package main

import (
	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/fmtrun"
)

func main() {
	core.Main(&core.Check{
		ID:          "P05",
		Level:       "exploration",
		Rule:        "each source of the alphabet (options of all kinds with all literals, all statements in all layouts, all pairs, all orders of the header, comments at all places) is formatted with the real command and its descriptor compared with that of the source",
		Assumptions: []string{"protoc 3.21.12 decides which sources are valid and what they mean; the order of imports is no part of the meaning", "sources out of the constructs of harness/fmtgen, at most two constructs beside the fixed ones per file, comments between statements only"},
		Run:         run,
	})
}

func run(w *core.W) {
	core.UseSystemProtoc()
	fmtrun.All(w, report)
}

func report(t *core.T, label string, o *fmtrun.Outcome) {
	switch {
	case o.Touched:
		t.Failf("refused-but-changed", "%s\n%s\nsource:\n%s", label, o.FormatErr, o.Source)
	case o.FormatErr != "":
		t.Failf("refused", "source %s\n%s\nsource:\n%s", label, o.FormatErr, o.Source)
	case o.Broken != "":
		t.Failf("broken", "source %s\n%s\nformatted:\n%s", label, o.Broken, o.After)
	case o.Diff != "":
		t.Failf("meaning", "source %s\n%s\nformatted:\n%s", label, o.Diff, o.After)
	}
}
