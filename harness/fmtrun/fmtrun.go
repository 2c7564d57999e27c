//go:build go1.22

// Package fmtrun formats batches of sources with the real command and compares
// them with protoc.
package fmtrun

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/golang/protobuf/protoc-gen-go/descriptor"
	"github.com/uber/prototool/internal/verifmc/core"
	"github.com/uber/prototool/internal/verifmc/fmtgen"
)

// Outcome of formatting one source.
type Outcome struct {
	Source    string
	Valid     bool   // protoc accepts the source
	FormatErr string // output of a failing format
	Touched   bool   // a failing format changed the file
	After     string // the formatted source
	Broken    string // protoc's errors about the formatted source
	Diff      string // difference in meaning
	Second    string // the source formatted twice, if different
	SecondErr string // the output of formatting twice, if it failed
	LintErr   string // output of format -l on the formatted source
}

var fileRE = regexp.MustCompile(`(?m)^b(\d+)\.proto:`)

func name(i int) string { return fmt.Sprintf("b%d.proto", i) }

func withPackage(src string, i int) string {
	return strings.Replace(strings.Replace(src, "p.v1", fmt.Sprintf("p%d.v1", i), -1), "ZUNIQ", fmt.Sprintf("Z%d", i), -1)
}

// protoc compiles the files, dropping those that have errors, and returns the
// decoded descriptors and the errors.
func protoc(inc, dir string, idx []int) (map[int]*descriptor.FileDescriptorProto, map[int]string) {
	errs := map[int]string{}
	for len(idx) > 0 {
		out := filepath.Join(inc, "out.bin")
		args := []string{"-I" + dir, "-I" + inc, "-I" + core.ProtocWKT, "-o" + out}
		for _, i := range idx {
			args = append(args, name(i))
		}
		c := exec.Command(core.ProtocBin, args...)
		c.Dir = dir
		msg, err := c.CombinedOutput()
		if err == nil {
			data, rerr := ioutil.ReadFile(out)
			core.Internal(rerr)
			set := &descriptor.FileDescriptorSet{}
			core.Internal(proto.Unmarshal(data, set))
			res := map[int]*descriptor.FileDescriptorProto{}
			for _, f := range set.File {
				var i int
				if n, _ := fmt.Sscanf(f.GetName(), "b%d.proto", &i); n == 1 {
					res[i] = f
				}
			}
			return res, errs
		}
		bad := map[int]bool{}
		for _, m := range fileRE.FindAllStringSubmatch(string(msg), -1) {
			var i int
			_, _ = fmt.Sscan(m[1], &i)
			bad[i] = true
		}
		// warnings are about files too: only drop what protoc calls an error
		for _, l := range strings.Split(string(msg), "\n") {
			m := fileRE.FindStringSubmatch(l)
			if m == nil || strings.Contains(l, "warning:") {
				continue
			}
			var i int
			_, _ = fmt.Sscan(m[1], &i)
			errs[i] += l + "\n"
		}
		var left []int
		for _, i := range idx {
			if errs[i] == "" {
				left = append(left, i)
			}
		}
		if len(left) == len(idx) {
			core.Internal(fmt.Errorf("protoc: %v %s", err, msg))
		}
		idx = left
	}
	return nil, errs
}

// text is the canonical text of the descriptors, without the order of imports.
func text(inc string, files map[int]*descriptor.FileDescriptorProto) map[int]string {
	var idx []int
	for i := range files {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	set := &descriptor.FileDescriptorSet{}
	for _, i := range idx {
		f := proto.Clone(files[i]).(*descriptor.FileDescriptorProto)
		kind := map[string]string{}
		for _, p := range f.PublicDependency {
			kind[f.Dependency[p]] += " public"
		}
		for _, p := range f.WeakDependency {
			kind[f.Dependency[p]] += " weak"
		}
		for j, d := range f.Dependency {
			f.Dependency[j] = d + kind[d]
		}
		sort.Strings(f.Dependency)
		f.PublicDependency, f.WeakDependency, f.SourceCodeInfo = nil, nil, nil
		set.File = append(set.File, f)
	}
	data, err := proto.Marshal(set)
	core.Internal(err)
	c := exec.Command(core.ProtocBin, "-I"+inc, "-I"+core.ProtocWKT, "--decode=google.protobuf.FileDescriptorSet", "google/protobuf/descriptor.proto", "opts/opts.proto")
	c.Stdin = bytes.NewReader(data)
	var stderr bytes.Buffer
	c.Stderr = &stderr
	out, err := c.Output()
	if err != nil {
		core.Internal(fmt.Errorf("decode: %v %s", err, stderr.String()))
	}
	res := map[int]string{}
	// "rpc A(M) returns (M) {}" is "rpc A(M) returns (M);"
	out = bytes.Replace(out, []byte("\n      options {\n      }"), nil, -1)
	parts := strings.Split("\n"+string(out), "\nfile {\n")
	for n, p := range parts[1:] {
		res[idx[n]] = p
	}
	return res
}

// Eval formats all sources, in batches as far as possible.
func Eval(w *core.W, sources []string) []*Outcome {
	return eval(w, sources, 0)
}

func eval(w *core.W, sources []string, offset int) []*Outcome {
	core.CleanTemp()
	root := w.Fresh("fmt")
	inc, dir := filepath.Join(root, "inc"), filepath.Join(root, "w")
	core.Write(root, map[string]string{"inc/opts/opts.proto": fmtgen.Opts, "w/prototool.yaml": "protoc:\n  allow_unused_imports: true\n  includes:\n    - ../inc\n"})
	out := make([]*Outcome, len(sources))
	var idx []int
	for i, s := range sources {
		s = withPackage(s, i+offset)
		out[i] = &Outcome{Source: s}
		core.Write(dir, map[string]string{name(i + offset): s})
		idx = append(idx, i+offset)
	}
	before, bad := protoc(inc, dir, idx)
	for i := range bad {
		core.Internal(os.Remove(filepath.Join(dir, name(i))))
	}
	idx = nil
	for i, o := range out {
		if before[i+offset] != nil {
			o.Valid = true
			idx = append(idx, i+offset)
		}
	}
	if len(idx) == 0 {
		return out
	}
	read := func(i int) string {
		data, err := ioutil.ReadFile(filepath.Join(dir, name(i)))
		core.Internal(err)
		return string(data)
	}
	single := func() []*Outcome {
		if len(sources) == 1 {
			return out
		}
		// one file spoils the batch
		h := len(sources) / 2
		return append(eval(w, sources[:h], offset), eval(w, sources[h:], offset+h)...)
	}
	if r := core.CLI(dir, "format", "-w"); r.Code != 0 {
		out[idx[0]-offset].FormatErr = r.Out + r.Err
		out[idx[0]-offset].Touched = read(idx[0]) != out[idx[0]-offset].Source
		return single()
	}
	for _, i := range idx {
		out[i-offset].After = read(i)
	}
	after, broken := protoc(inc, dir, idx)
	for i, e := range broken {
		out[i-offset].Broken = e
	}
	ta := text(inc, after)
	keep := map[int]*descriptor.FileDescriptorProto{}
	for i := range after {
		keep[i] = before[i]
	}
	tb := text(inc, keep)
	for i := range after {
		out[i-offset].Diff = lineDiff(tb[i], ta[i])
	}
	for i := range broken {
		core.Internal(os.Remove(filepath.Join(dir, name(i))))
	}
	if len(after) == 0 {
		return out
	}
	if r := core.CLI(dir, "format", "-l"); r.Code != 0 || r.Out != "" {
		for _, l := range r.Lines() {
			m := fileRE.FindStringSubmatch(l)
			if m == nil {
				out[idx[0]-offset].LintErr += l
				return single()
			}
			var i int
			_, _ = fmt.Sscan(m[1], &i)
			out[i-offset].LintErr += l + "\n"
		}
	}
	if r := core.CLI(dir, "format", "-w"); r.Code != 0 {
		out[idx[0]-offset].SecondErr = r.Out + r.Err
		return single()
	}
	for i := range after {
		if s := read(i); s != out[i-offset].After {
			out[i-offset].Second = s
		}
	}
	return out
}

func lineDiff(a, b string) string {
	if a == b {
		return ""
	}
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
		x, y = x[1:], y[1:]
	}
	for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	s := ""
	for _, l := range x {
		s += "-" + strings.TrimSpace(l) + "\n"
	}
	for _, l := range y {
		s += "+" + strings.TrimSpace(l) + "\n"
	}
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// Item is a labelled source.
type Item struct {
	Label, Source string
}

// Batches evaluates the items in batches of n, each a case.
func Batches(w *core.W, part string, items []Item, n int, f func(t *core.T, label string, o *Outcome)) {
	for i := 0; i < len(items); i += n {
		j := i + n
		if j > len(items) {
			j = len(items)
		}
		batch := items[i:j]
		type kase struct {
			Part        string
			From, N     int
			First, Last string
		}
		k := kase{part, i, j - i, batch[0].Label, batch[len(batch)-1].Label}
		w.Case(k, func(t *core.T) {
			var src []string
			for _, b := range batch {
				src = append(src, b.Source)
			}
			for x, o := range Eval(w, src) {
				if !o.Valid {
					w.Count("sources_protoc_rejects", 1)
					continue
				}
				w.Count("sources_formatted", 1)
				if o.After != o.Source {
					w.Nontrivial(batch[x].Label)
				}
				f(t, batch[x].Label, o)
			}
		})
	}
}

// hangs: the parser never returns for these in an rpc (a listed finding).
var hangs = map[string]bool{`'a\'b'`: true, `'// no'`: true, `"a'" 'b"'`: true}

// Singles is every construct alone.
func Singles() []Item {
	var items []Item
	for _, syntax := range []string{"proto3", "proto2"} {
		for _, kind := range fmtgen.Kinds {
			for form := 0; form < 3; form++ {
				for _, l := range fmtgen.Literals() {
					if form > 0 && l.Name == "m" && len(l.Text) > 8 {
						continue
					}
					if kind == "Method" && hangs[l.Text] {
						continue
					}
					o := fmtgen.Option(kind, l, form)
					items = append(items, Item{syntax + " " + kind + " [" + o + "]", fmtgen.WithOptions(syntax, kind, o)})
				}
			}
			items = append(items, Item{syntax + " " + kind + " [" + fmtgen.Extension(kind) + "]", fmtgen.WithOptions(syntax, kind, fmtgen.Extension(kind))})
		}
		for nest := 0; nest < 4; nest++ {
			for _, a := range fmtgen.Atoms() {
				if a.Syntax != "" && a.Syntax != syntax {
					continue
				}
				if nest > 0 && a.Slot != "message" {
					continue
				}
				for _, l := range fmtgen.Layouts {
					items = append(items, Item{fmt.Sprintf("%s %s nest=%d %s [%s]", syntax, l, nest, a.Slot, a.Text), fmtgen.Layout(l, fmtgen.File(syntax, nest, a))})
				}
			}
		}
	}
	return items
}

// Comments is a comment of every style in every gap between statements, and
// before every option in brackets.
func Comments() []Item {
	var items []Item
	for _, syntax := range []string{"proto3", "proto2"} {
		src := fmtgen.Commented(syntax)
		for _, style := range fmtgen.Styles {
			for i, g := range fmtgen.Gaps(src) {
				if g.Kind == "inside" {
					continue
				}
				items = append(items, Item{fmt.Sprintf("%s %s %s gap %d: %s @ %s", syntax, style, g.Kind, i, g.Before, g.Next), src[:g.At] + fmt.Sprintf(fmtgen.CommentStyles[style], "zqz") + src[g.At:]})
			}
		}
	}
	return items
}

// CommentTexts is every text of a comment in a few positions.
func CommentTexts() []Item {
	var items []Item
	src := fmtgen.Commented("proto3")
	seen := map[string]bool{}
	for i, g := range fmtgen.Gaps(src) {
		t := strings.Split(g.Before+" ", " ")
		key := g.Kind + t[len(t)-2] + strings.Split(g.Next, " ")[0]
		if g.Kind == "inside" || g.Kind == "rpc" || seen[key] {
			continue
		}
		seen[key] = true
		for _, text := range fmtgen.CommentTexts {
			for _, c := range []string{"\n// %s zqz\n", "\n//%s zqz\n", " // %s zqz\n", "\n/* %s zqz */\n", " /* %s zqz */ ", "\n/*\n * %s zqz\n */\n", "\n/*\n%s zqz\n*/\n", "\n/*\n//%s zqz\n//\n  %[1]s zqz\n*/\n"} {
				if strings.Contains(text, "*/") && strings.Contains(c, "/*") {
					continue
				}
				items = append(items, Item{fmt.Sprintf("text gap %d: %s @ %s %q", i, g.Before, g.Next, fmt.Sprintf(c, text)), src[:g.At] + fmt.Sprintf(c, text) + src[g.At:]})
			}
		}
	}
	return items
}

// Around is a source with comments around one or two gaps between statements.
type Around struct {
	Item
	Checks []Attached
}

// Attached says that the comment with the text follows (or precedes) the tokens
// directly.
type Attached struct {
	Text   string
	Above  bool
	Tokens string
}

// place puts a trailing comment, a detached one and one above into the gap.
func place(src string, g fmtgen.Gap, mask, style, n int) (string, []Attached, bool) {
	comment := func(s string) string {
		if style == 1 {
			return "/* " + s + " */"
		}
		return "// " + s
	}
	rest := strings.TrimLeft(src[g.At:], " \n")
	first := strings.Split(g.Next, " ")
	prev := strings.Split(g.Before, " ")
	ins := ""
	var checks []Attached
	if mask&1 != 0 {
		if g.Before == "" || prev[len(prev)-1] != ";" {
			return "", nil, false
		}
		text := fmt.Sprintf("t%dt", n)
		ins += " " + comment(text)
		k := len(prev) - 3
		if k < 0 {
			k = 0
		}
		if len(prev) > 1 && prev[len(prev)-2] == "]" {
			// options in brackets are sorted
			k = len(prev) - 2
		}
		checks = append(checks, Attached{text, false, strings.Join(prev[k:], " ")})
	}
	if mask&2 != 0 {
		ins += "\n\n" + comment(fmt.Sprintf("d%dd", n)) + "\n"
	}
	if mask&4 != 0 {
		if first[0] == "}" || first[0] == "EOF" || len(first) < 2 {
			return "", nil, false
		}
		text := fmt.Sprintf("a%da", n)
		ins += "\n\n" + comment(text)
		checks = append(checks, Attached{text, true, strings.Join(first[:2], " ")})
	}
	return src[:g.At] + ins + "\n" + rest, checks, true
}

// Arounds are comments around every gap (and with pairs around every two gaps).
func Arounds(pairs bool) []Around {
	var out []Around
	for _, syntax := range []string{"proto3", "proto2"} {
		src := fmtgen.Commented(syntax)
		var gaps []fmtgen.Gap
		for _, g := range fmtgen.Gaps(src) {
			if g.Kind == "statement" {
				gaps = append(gaps, g)
			}
		}
		for i, g := range gaps {
			for mask := 1; mask < 8; mask++ {
				for style := 0; style < 2; style++ {
					s, c, ok := place(src, g, mask, style, 1)
					if !ok {
						continue
					}
					label := fmt.Sprintf("%s around %s @ %s mask=%d style=%d", syntax, g.Before, g.Next, mask, style)
					out = append(out, Around{Item{label, s}, c})
					for j := i + 1; j < len(gaps); j++ {
						if j > i+1 && (!pairs || style != 0 || mask != 5 && mask != 2) {
							continue
						}
						for mask2 := 1; mask2 < 8; mask2++ {
							if j > i+1 && mask2 != 5 && mask2 != 2 {
								continue
							}
							if j == i+1 && !pairs && mask != mask2 {
								continue
							}
							// the later gap first, the offsets stay
							s2, c2, ok := place(src, gaps[j], mask2, style, 2)
							if !ok {
								continue
							}
							s3, c3, _ := place(s2, g, mask, style, 1)
							out = append(out, Around{Item{fmt.Sprintf("%s and %s @ %s mask=%d", label, gaps[j].Before, gaps[j].Next, mask2), s3}, append(c3, c2...)})
						}
					}
				}
			}
		}
	}
	return out
}

// Headers are all orders of the statements at the top, with and without syntax
// and package.
func Headers() []Item {
	var items []Item
	st := []string{"package p.v1;", "import \"google/protobuf/empty.proto\";\nimport \"opts/opts.proto\";", "option java_package = \"x\";\noption deprecated = true;", "message ZUNIQ {}"}
	core.Permutations(len(st), func(perm []int) {
		for mask := 0; mask < 1<<uint(len(st)); mask++ {
			for _, syntax := range []string{"syntax = \"proto3\";\n", "syntax = 'proto2';\n"} {
				src := syntax
				var label []string
				seen := false
				for _, x := range perm {
					if mask&(1<<uint(x)) != 0 {
						src += st[x] + "\n"
						label = append(label, strings.Fields(st[x])[0])
						seen = true
					}
				}
				if !seen && syntax == "" {
					continue
				}
				items = append(items, Item{"header " + strings.TrimSpace(syntax) + strings.Join(label, ","), src})
			}
		}
	})
	uniq := map[string]bool{}
	var out []Item
	for _, i := range items {
		if !uniq[i.Label] {
			uniq[i.Label] = true
			out = append(out, i)
		}
	}
	return out
}

// limits are literals and constructs that are listed findings: they are only
// used alone.
var limits = map[string]bool{}

func init() {
	for _, l := range []string{`'say "hi"'`, `'it' "'s"`, `'a  b'`, `' a'`, `'// no'`, `'a\'b'`, `"a'" 'b"'`, "repeated string $a = 01$1;", "reserved -$1;", "reserved -$1, $1;", "reserved -$2 to -$1;", "reserved -$1 to $1;",
		"optional string $a = $1 [default = 'it\\'s', deprecated = true];", "optional group $A = $1 [deprecated = true] { optional string s = 1; }",
		"rpc stream(opts.Opt) returns (opts.Opt);", "rpc rpc(opts.Opt) returns (opts.Opt);", "rpc option(opts.Opt) returns (opts.Opt);"} {
		limits[l] = true
	}
}

// Pairs are all ordered pairs of constructs in the same place, and all pairs in
// different places.
func Pairs(nest int, layout string) []Item {
	var items []Item
	for _, syntax := range []string{"proto3", "proto2"} {
		var atoms []fmtgen.Atom
		for _, a := range fmtgen.Atoms() {
			if (a.Syntax == "" || a.Syntax == syntax) && !limits[a.Text] {
				atoms = append(atoms, a)
			}
		}
		for _, a := range atoms {
			for _, b := range atoms {
				if a.Slot != b.Slot && a.Slot == "message" || nest > 0 && (a.Slot != "message" || b.Slot != "message" || nest == 2 && syntax == "proto3") {
					continue
				}
				items = append(items, Item{fmt.Sprintf("%s pair nest=%d %s %s [%s] %s [%s]", syntax, nest, layout, a.Slot, a.Text, b.Slot, b.Text), fmtgen.Layout(layout, fmtgen.File(syntax, nest, a, b))})
			}
		}
	}
	return items
}

// OptionLists are all sequences of up to n options on every kind of element.
func OptionLists(n int) []Item {
	var items []Item
	for _, kind := range fmtgen.Kinds {
		p := "(opts." + fmtgen.Prefix(kind) + "_"
		alphabet := []string{p + "s) = \"x\"", p + "i) = -1", p + "rs) = \"a\"", p + "rs) = \"b\"", p + "rm) = {i: 1}", p + "rm) = {}", p + "m).s = \"x\"", p + "m).i = 1", p + "m).r = 1", p + "m).r = 2", "deprecated = true"}
		add := func(seq []string) {
			items = append(items, Item{"proto3 " + kind + " [" + strings.Join(seq, ", ") + "]", fmtgen.WithOptions("proto3", kind, seq...)})
		}
		var rec func(seq []string)
		rec = func(seq []string) {
			if len(seq) > 0 {
				add(append([]string{}, seq...))
			}
			if len(seq) == n {
				return
			}
			for _, a := range alphabet {
				rec(append(seq, a))
			}
		}
		rec(nil)
		// many values of repeated options, alternating
		for k := 4; k <= 40; k += 4 {
			var seq []string
			for i := 0; i < k; i++ {
				seq = append(seq, fmt.Sprintf("%sr) = %d", p, i))
				if i%3 == 0 {
					seq = append(seq, fmt.Sprintf("%srs) = \"%d\"", p, i))
				}
			}
			add(seq)
		}
	}
	return items
}

// All runs all parts that do not look at comments in detail.
func All(w *core.W, f func(t *core.T, label string, o *Outcome)) {
	Batches(w, "singles", Singles(), 60, f)
	Batches(w, "headers", Headers(), 60, f)
	Batches(w, "comments", Comments(), 60, f)
	Batches(w, "options", OptionLists(w.Pick(2, 3)), 60, f)
	Batches(w, "pairs", Pairs(0, "plain"), 60, f)
	if w.Thorough() {
		for nest := 1; nest < 4; nest++ {
			Batches(w, fmt.Sprintf("pairs-nested-%d", nest), Pairs(nest, "plain"), 60, f)
		}
		Batches(w, "pairs-joined", Pairs(0, "joined"), 60, f)
		Batches(w, "pairs-exploded", Pairs(0, "exploded"), 60, f)
	}
}
