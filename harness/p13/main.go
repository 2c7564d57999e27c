//go:build go1.22

// P13: the rules that run, and the files they are applied to, are those that
// the configuration selects.
package main

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/verifmc/core"
	l "github.com/uber/prototool/internal/verifmc/lintref"
	"github.com/uber/prototool/internal/verifmc/linttree"
	yaml "gopkg.in/yaml.v2"
)

func main() {
	core.Main(&core.Check{
		ID:          "P13",
		Level:       "exploration",
		Rule:        "A case is a lint configuration (group, no_default, rules added and removed, ignores, in every spelling) and a way to observe it (lint, --list-linters, --generate-ignores and the lint after applying its output, the listings of groups), on a tree whose files break all rules; non-trivial: distinct sets of failures.",
		Assumptions: []string{"the reference of the rules is right (P28)", "which configuration file governs is P01's subject"},
		Run:         run,
	})
}

var tree = linttree.New()

type ignore struct {
	ID    string   `yaml:"id"`
	Files []string `yaml:"files"`
}

type config struct {
	Group     string   `json:",omitempty"`
	NoDefault string   `json:",omitempty"` // "", true, false
	Add       []string `json:",omitempty"`
	Remove    []string `json:",omitempty"`
	Ignores   []ignore `json:",omitempty"`
}

// text is the configuration as YAML or JSON.
func (c config) text(asJSON bool) string {
	lint := map[string]interface{}{"file_header": map[string]interface{}{"content": "Acme"}}
	if c.Group != "" {
		lint["group"] = c.Group
	}
	rules := map[string]interface{}{}
	if c.NoDefault != "" {
		rules["no_default"] = c.NoDefault == "true"
	}
	if c.Add != nil {
		rules["add"] = c.Add
	}
	if c.Remove != nil {
		rules["remove"] = c.Remove
	}
	if len(rules) > 0 {
		lint["rules"] = rules
	}
	if c.Ignores != nil {
		var ignores []interface{}
		for _, i := range c.Ignores {
			ignores = append(ignores, map[string]interface{}{"id": i.ID, "files": i.Files})
		}
		lint["ignores"] = ignores
	}
	all := map[string]interface{}{
		"protoc": map[string]interface{}{"allow_unused_imports": true, "includes": []string{"../inc"}},
		"lint":   lint,
	}
	if asJSON {
		data, err := json.Marshal(all)
		core.Internal(err)
		return string(data)
	}
	data, err := yaml.Marshal(all)
	core.Internal(err)
	return string(data)
}

var all = func() map[string]bool {
	m := map[string]bool{}
	for _, id := range l.IDs() {
		m[id] = true
	}
	return m
}()

// selected is what the configuration selects, or false if it is invalid.
func (c config) selected() (map[string]bool, bool) {
	out := map[string]bool{}
	switch g := strings.ToLower(c.Group); g {
	case "google", "uber1", "uber2":
		for _, id := range l.GroupRules(g) {
			out[id] = true
		}
	case "empty":
	case "":
		if c.NoDefault != "true" {
			for _, id := range l.GroupRules("uber1") {
				out[id] = true
			}
		}
	default:
		return nil, false
	}
	for _, a := range c.Add {
		id := strings.ToUpper(a)
		if !all[id] {
			return nil, false
		}
		out[id] = true
	}
	for _, r := range c.Remove {
		id := strings.ToUpper(r)
		if !all[id] {
			return nil, false
		}
		for _, a := range c.Add {
			if strings.ToUpper(a) == id {
				return nil, false
			}
		}
		delete(out, id)
	}
	for _, i := range c.Ignores {
		if !all[strings.ToUpper(i.ID)] {
			return nil, false
		}
	}
	return out, true
}

// ignored tells what the configuration, in the given directory below the root, ignores.
func (c config) ignored(confDir string) func(p, id string) bool {
	return func(p, id string) bool {
		for _, i := range c.Ignores {
			if strings.ToUpper(i.ID) != id {
				continue
			}
			for _, f := range i.Files {
				f = path.Join("/w", confDir, f)
				if f == "/w/"+p || strings.HasPrefix("/w/"+p, f+"/") {
					return true
				}
			}
		}
		return false
	}
}

// files writes the tree, with a configuration at the root of it.
func files(w *core.W, conf string) string {
	root := w.Fresh("t")
	fs := map[string]string{}
	for p, s := range linttree.Support {
		fs["inc/"+p] = s
	}
	for p, s := range tree.Sources() {
		fs["w/"+p] = s
	}
	if conf != "" {
		fs["w/prototool.yaml"] = conf
	}
	core.Write(root, fs)
	return root + "/w"
}

type failure struct {
	Filename string `json:"filename"`
	Line     int    `json:"line"`
	LintID   string `json:"lint_id"`
	Message  string `json:"message"`
}

// parse reads the JSON failures.
func parse(t *core.T, res core.Result) []string {
	var out []string
	for _, line := range res.Lines() {
		var f failure
		if json.Unmarshal([]byte(line), &f) != nil || f.LintID == "" {
			t.Failf("output", "not a lint failure: %s", line)
			continue
		}
		out = append(out, fmt.Sprintf("%s:%d:%s", f.Filename, f.Line, f.LintID))
	}
	return out
}

func hasFailures(res core.Result) bool {
	for _, line := range res.Lines() {
		if strings.Contains(line, `"lint_id"`) {
			return true
		}
	}
	return false
}

// compare compares failures.
func compare(t *core.T, kind string, got, want []string) {
	got = linttree.Clean(got)
	if core.Equal(got, want) {
		return
	}
	have, need := map[string]bool{}, map[string]bool{}
	for _, s := range got {
		have[s] = true
	}
	var missed, extra []string
	for _, s := range want {
		need[s] = true
		if !have[s] {
			missed = append(missed, s)
		}
	}
	for _, s := range got {
		if !need[s] {
			extra = append(extra, s)
		}
	}
	t.Failf(kind, "missed %v, wrong %v, got %d instead of %d failures", missed, extra, len(got), len(want))
}

var header = l.Config{Header: linttree.Header}

// run one configuration in all ways.
func lintCase(w *core.W, c config, asJSON bool, more bool) {
	w.Case(map[string]interface{}{"config": c, "json": asJSON, "listing": more}, func(t *core.T) {
		sel, ok := c.selected()
		var dir string
		var conf []string
		if asJSON {
			dir = files(w, "")
			conf = []string{"--config-data", c.text(true)}
		} else {
			dir = files(w, c.text(false))
		}
		want := tree.Want(header, func(id string) bool { return sel[id] }, c.ignored(""))
		if !ok {
			want = nil
		}
		cli := func(args ...string) core.Result { return core.CLI(dir, append(args, conf...)...) }
		res := cli("lint", "--json")
		w.Count("lint_runs", 1)
		if !ok {
			if res.Code == 0 || hasFailures(res) || len(res.Lines()) == 0 {
				t.Failf("invalid", "an invalid configuration is not refused: exit code %d, %q", res.Code, res.Out)
			}
			for _, args := range [][]string{{"lint", "--list-linters"}, {"lint", "--generate-ignores"}} {
				// ignores are not used by the two
				if len(c.Ignores) == 0 {
					if res := cli(args...); res.Code == 0 {
						t.Failf("invalid", "an invalid configuration is not refused by %v: %q", args, res.Out)
					}
				}
			}
			return
		}
		compare(t, "lint", parse(t, res), want)
		w.Nontrivial(strings.Join(want, "\n"))
		if (res.Code != 0) != (len(want) > 0) {
			t.Failf("exit", "exit code %d with %d failures", res.Code, len(want))
		}
		if !more {
			return
		}
		// the list
		list := cli("lint", "--list-linters")
		var ids, wantIDs []string
		for _, line := range list.Lines() {
			f := strings.Fields(line)
			ids = append(ids, f[0])
			if len(f) < 3 {
				t.Failf("list", "no purpose: %s", line)
			}
		}
		for id := range sel {
			wantIDs = append(wantIDs, id)
		}
		sort.Strings(wantIDs)
		if list.Code != 0 || !core.Equal(ids, wantIDs) {
			t.Failf("list", "--list-linters: exit code %d, %v instead of %v", list.Code, ids, wantIDs)
		}
		// the ignores of everything
		gen := cli("lint", "--generate-ignores")
		w.Count("generated_ignores", 1)
		full := tree.Want(header, func(id string) bool { return sel[id] }, nil)
		wantIgnores := ignoresOf(full)
		got := readIgnores(t, gen.Out)
		if gen.Code != 0 || !core.Equal(clean(got), wantIgnores) {
			t.Failf("generate", "--generate-ignores: exit code %d, %s instead of %s", gen.Code, clean(got), wantIgnores)
			return
		}
		c2 := c
		c2.Ignores = got
		if asJSON {
			conf = []string{"--config-data", c2.text(true)}
		} else {
			core.Write(dir, map[string]string{"prototool.yaml": c2.text(false)})
		}
		if res := cli("lint", "--json"); res.Code != 0 || res.Out != "" {
			t.Failf("generate", "lint still fails with the ignores generated: %d %s", res.Code, res.Out)
		}
	})
}

func ignoresOf(failures []string) []string {
	m := map[string]bool{}
	for _, f := range failures {
		p := strings.Split(f, ":")
		m[p[2]+" "+p[0]] = true
	}
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func readIgnores(t *core.T, out string) []ignore {
	var e struct {
		Lint struct {
			Ignores []ignore `yaml:"ignores"`
		} `yaml:"lint"`
	}
	if err := yaml.UnmarshalStrict([]byte(out), &e); err != nil {
		t.Failf("generate", "not a configuration: %v\n%s", err, out)
	}
	return e.Lint.Ignores
}

// clean lists ignores, without what is not settled.
func clean(in []ignore) []string {
	var fs []string
	for _, i := range in {
		for _, f := range i.Files {
			fs = append(fs, f+":0:"+i.ID)
		}
	}
	return ignoresOf(linttree.Clean(fs))
}

func run(w *core.W) {
	core.UseSystemProtoc()
	// the tree breaks all rules
	w.Case("coverage of the tree", func(t *core.T) {
		hit := map[string]bool{}
		for _, f := range tree.Want(header, func(string) bool { return true }, nil) {
			hit[f[strings.LastIndex(f, ":")+1:]] = true
		}
		for _, id := range l.IDs() {
			if !hit[id] {
				t.Failf("harness", "no file breaks %s", id)
			}
		}
	})
	listings(w)
	groups := []string{"", "google", "uber1", "uber2", "empty", "UBER2", "Google", "nope"}
	defaults := []string{"", "true", "false"}
	// in uber1 and google, in uber2 only, in none
	adds := [][]string{nil, {}, {"MESSAGE_NAMES_CAMEL_CASE"}, {"names_no_data"}, {"MESSAGE_FIELDS_NOT_FLOATS", "ENUM_FIELD_PREFIXES_EXCEPT_MESSAGE"}, {"Enums_Have_Comments", "ENUMS_HAVE_COMMENTS"}, {"NO_SUCH_RULE"}, {"FILE_HEADER", "no_such_rule"}}
	removes := [][]string{nil, {}, {"SYNTAX_PROTO3"}, {"names_no_data", "MESSAGE_NAMES_CAPITALIZED"}, {"MESSAGE_NAMES_CAMEL_CASE", "message_names_camel_case"}, {"ENUMS_HAVE_COMMENTS"}, {"NO_SUCH_RULE"}}
	for gi, g := range groups {
		for di, d := range defaults {
			for ai, a := range adds {
				for ri, r := range removes {
					c := config{Group: g, NoDefault: d, Add: a, Remove: r}
					lintCase(w, c, false, w.Thorough() || (gi+di+ai+ri)%3 == 0)
					if w.Thorough() || (gi+di+ai+ri)%5 == 0 {
						lintCase(w, c, true, false)
					}
				}
			}
		}
	}
	// every rule alone, and every rule but one
	for _, id := range l.IDs() {
		lintCase(w, config{Group: "empty", Add: []string{id}}, false, true)
		lintCase(w, config{NoDefault: "true", Add: []string{strings.ToLower(id)}}, false, false)
		for _, g := range []string{"", "google", "uber2"} {
			lintCase(w, config{Group: g, Remove: []string{id}}, false, false)
			lintCase(w, config{Group: g, Add: []string{id}}, false, g == "")
		}
		var others []string
		for _, o := range l.IDs() {
			if o != id {
				others = append(others, o)
			}
		}
		lintCase(w, config{Group: "google", Add: others}, false, false)
		// every rule ignored for every file and directory
		paths := append(tree.Files(), "a", "a/sub", "ab", ".", "a/a", "a/none.proto")
		for _, p := range paths {
			lintCase(w, config{Group: "empty", Add: l.IDs(), Ignores: []ignore{{id, []string{p}}}}, false, false)
		}
	}
	ignores(w)
	places(w)
}

// ignores: spellings and combinations.
func ignores(w *core.W) {
	spelled := []string{"a/a.proto", "./a/a.proto", "a//a.proto", "a/sub/../a.proto", "a/", "a", "./a", "a/sub", "ab/a.proto", "ab", ".", "b/../ab/", "a/a", "a.proto", "sub/a.proto", "../w/a", "../a"}
	for _, p := range spelled {
		for _, id := range []string{"PACKAGE_LOWER_CASE", "file_header", "PACKAGES_SAME_IN_DIR", "Message_Names_Capitalized"} {
			lintCase(w, config{Group: "uber2", Ignores: []ignore{{id, []string{p}}}}, false, true)
			lintCase(w, config{Group: "uber2", Ignores: []ignore{{id, []string{p}}}}, true, false)
			for _, q := range spelled {
				if p == q {
					continue
				}
				lintCase(w, config{Group: "uber1", Ignores: []ignore{{id, []string{p, q}}}}, false, false)
				lintCase(w, config{Group: "uber1", Ignores: []ignore{{id, []string{p}}, {id, []string{q}}}}, false, false)
				lintCase(w, config{Group: "uber1", Ignores: []ignore{{id, []string{p}}, {"FILE_OPTIONS_REQUIRE_GO_PACKAGE", []string{q}}}}, false, false)
			}
		}
		// rules that are unknown or not selected
		lintCase(w, config{Ignores: []ignore{{"NO_SUCH_RULE", []string{p}}}}, false, false)
		lintCase(w, config{Group: "google", Ignores: []ignore{{"MESSAGE_FIELDS_NOT_FLOATS", []string{p}}}}, false, false)
		lintCase(w, config{Group: "google", Remove: []string{"FILE_HEADER"}, Ignores: []ignore{{"FILE_HEADER", []string{p}}}}, false, false)
	}
	// whole rules that look at a directory, with every subset of its files ignored
	for _, id := range l.IDs() {
		if !strings.HasSuffix(id, "_IN_DIR") {
			continue
		}
		in := []string{"a/trip.proto", "a/a.proto", "a/foo_api.proto"}
		core.Subsets(len(in), len(in), func(m int) {
			var fs []string
			for i, p := range in {
				if m&(1<<uint(i)) != 0 {
					fs = append(fs, p)
				}
			}
			lintCase(w, config{Group: "empty", Add: []string{id}, Ignores: []ignore{{id, fs}}}, false, false)
		})
	}
}

// places: the configuration file and the working directory elsewhere, and arguments.
func places(w *core.W) {
	type place struct{ conf, work, arg string }
	var ps []place
	for _, conf := range []string{"", "a", "a/sub", "ab"} {
		for _, work := range []string{"", "a", "a/sub", "ab"} {
			for _, arg := range []string{"", ".", "..", "../..", "a", "sub", "a/sub", "../ab", "../a", "../../ab", "a.proto", "a/a.proto", "../ab/a.proto", "sub/a.proto", "../a/foo_api.proto"} {
				ps = append(ps, place{conf, work, arg})
			}
		}
	}
	for _, p := range ps {
		target := path.Join(p.work, p.arg)
		single := strings.HasSuffix(target, ".proto")
		scope := target
		if single {
			scope = path.Dir(target)
		}
		_, isDir := tree[scope]
		if scope == "." {
			isDir, scope = true, ""
		}
		if !isDir || strings.HasPrefix(target, "..") {
			continue
		}
		if p.conf != "" && scope != p.conf && !strings.HasPrefix(scope, p.conf+"/") {
			continue // another or no configuration governs
		}
		if single {
			found := false
			for _, f := range tree.Files() {
				found = found || f == target
			}
			if !found {
				continue
			}
		}
		for _, ig := range [][]string{nil, {"a.proto"}, {"sub"}, {"."}, {"foo_api.proto", "a/foo_api.proto"}} {
			for _, g := range []string{"uber1", "uber2"} {
				p, ig, g := p, ig, g
				w.Case(map[string]interface{}{"place": fmt.Sprint(p), "ignores": ig, "group": g}, func(t *core.T) {
					c := config{Group: g}
					if ig != nil {
						for _, id := range []string{"FILE_HEADER", "MESSAGE_NAMES_CAMEL_CASE", "FILE_OPTIONS_GO_PACKAGE_SAME_IN_DIR", "FILE_OPTIONS_REQUIRE_JAVA_PACKAGE"} {
							c.Ignores = append(c.Ignores, ignore{id, ig})
						}
					}
					dir := files(w, "")
					up := strings.Repeat("../", strings.Count(p.conf+"/", "/"))
					if p.conf == "" {
						up = ""
					}
					write := func(c config) {
						core.Write(dir, map[string]string{path.Join(p.conf, "prototool.yaml"): strings.Replace(c.text(false), "../inc", up+"../inc", 1)})
					}
					write(c)
					sel, _ := c.selected()
					relevant := func(in []string) []string {
						var out []string
						for _, f := range in {
							file := strings.Split(f, ":")[0]
							if file == target || !single && (scope == "" || strings.HasPrefix(file, scope+"/")) {
								out = append(out, f)
							}
						}
						return out
					}
					args := []string{"lint", "--json"}
					if p.arg != "" {
						args = append(args, p.arg)
					}
					lint := func() (core.Result, []string) {
						res := core.CLI(path.Join(dir, p.work), args...)
						w.Count("lint_runs", 1)
						var got []string
						for _, s := range parse(t, res) {
							i := strings.Index(s, ":")
							got = append(got, path.Join(p.work, s[:i])+s[i:])
						}
						return res, got
					}
					_, got := lint()
					want := tree.Want(header, func(id string) bool { return sel[id] }, c.ignored(p.conf))
					compare(t, "place", got, relevant(want))
					w.Nontrivial(strings.Join(got, "\n"))
					// generated ignores, for what was linted
					gen := core.CLI(path.Join(dir, p.work), append([]string{"lint", "--generate-ignores"}, args[2:]...)...)
					ign := readIgnores(t, gen.Out)
					if !single {
						full := relevant(tree.Want(header, func(id string) bool { return sel[id] }, nil))
						var rel []ignore
						for _, i := range ign {
							for _, f := range i.Files {
								rel = append(rel, ignore{i.ID, []string{path.Join(p.conf, f)}})
							}
						}
						if gen.Code != 0 || !core.Equal(clean(rel), ignoresOf(full)) {
							t.Failf("generate", "--generate-ignores: exit code %d, %v instead of %v", gen.Code, clean(rel), ignoresOf(full))
						}
					}
					c.Ignores = ign
					write(c)
					if res, _ := lint(); res.Out != "" || !single && res.Code != 0 {
						t.Failf("generate", "lint still fails with the ignores generated: %d %s", res.Code, res.Out)
					}
				})
			}
		}
	}
}

// listings of rules and groups.
func listings(w *core.W) {
	first := func(res core.Result) []string {
		var out []string
		for _, line := range res.Lines() {
			out = append(out, strings.Fields(line)[0])
		}
		return out
	}
	rules := func(g string) []string {
		if strings.ToLower(g) == "empty" {
			return nil
		}
		return l.GroupRules(g)
	}
	valid := map[string]bool{"google": true, "uber1": true, "uber2": true, "empty": true}
	for _, conf := range []string{"", config{}.text(false), config{Group: "google"}.text(false), config{Group: "empty", Add: []string{"FILE_HEADER"}}.text(false)} {
		conf := conf
		at := func(name string, f func(t *core.T, dir string)) {
			w.Case(map[string]string{"listing": name, "config": conf}, func(t *core.T) { f(t, files(w, conf)) })
		}
		at("all", func(t *core.T, dir string) {
			if res := core.CLI(dir, "lint", "--list-all-linters"); res.Code != 0 || !core.Equal(first(res), l.IDs()) {
				t.Failf("list", "--list-all-linters: %d %v", res.Code, first(res))
			}
			if res := core.CLI(dir, "lint", "--list-all-lint-groups"); res.Code != 0 || !core.Equal(res.Lines(), []string{"empty", "google", "uber1", "uber2"}) {
				t.Failf("list", "--list-all-lint-groups: %d %v", res.Code, res.Lines())
			}
		})
		names := []string{"google", "uber1", "uber2", "empty", "Uber1", "GOOGLE", "nope", " google"}
		for _, g := range names {
			g := g
			at("group "+g, func(t *core.T, dir string) {
				res := core.CLI(dir, "lint", "--list-lint-group", g)
				if !valid[strings.ToLower(g)] {
					if res.Code == 0 {
						t.Failf("list", "an unknown group is listed: %s", res.Out)
					}
					return
				}
				if res.Code != 0 || !core.Equal(first(res), rules(g)) {
					t.Failf("list", "--list-lint-group %s: %d %v instead of %v", g, res.Code, first(res), rules(g))
				}
			})
			for _, h := range names {
				h := h
				at("diff "+g+","+h, func(t *core.T, dir string) {
					res := core.CLI(dir, "lint", "--diff-lint-groups", g+","+h)
					if !valid[strings.ToLower(g)] || !valid[strings.ToLower(h)] {
						if res.Code == 0 {
							t.Failf("list", "an unknown group is compared: %s", res.Out)
						}
						return
					}
					in := map[string]int{}
					for _, id := range rules(g) {
						in[id] |= 1
					}
					for _, id := range rules(h) {
						in[id] |= 2
					}
					var want []string
					for id, m := range in {
						if m == 1 {
							want = append(want, "< "+id)
						} else if m == 2 {
							want = append(want, "> "+id)
						}
					}
					if res.Code != 0 || !core.Equal(core.Sorted(res.Lines()), core.Sorted(want)) {
						t.Failf("list", "--diff-lint-groups %s,%s: %d %v instead of %v", g, h, res.Code, res.Lines(), want)
					}
				})
			}
		}
		for _, bad := range []string{"google", "google,uber1,uber2", "", ","} {
			bad := bad
			if bad == "" {
				continue
			}
			at("diff "+bad, func(t *core.T, dir string) {
				if res := core.CLI(dir, "lint", "--diff-lint-groups", bad); res.Code == 0 {
					t.Failf("list", "--diff-lint-groups %s succeeds: %s", bad, res.Out)
				}
			})
		}
		flags := [][]string{{"--list-all-linters"}, {"--list-linters"}, {"--list-all-lint-groups"}, {"--list-lint-group", "google"}, {"--diff-lint-groups", "google,uber1"}, {"--generate-ignores"}}
		for i, a := range flags {
			for j, b := range flags {
				if i < j {
					a, b := a, b
					at(fmt.Sprint(a, b), func(t *core.T, dir string) {
						if res := core.CLI(dir, append(append([]string{"lint"}, a...), b...)...); res.Code == 0 {
							t.Failf("list", "two listings at once: %s", res.Out)
						}
					})
				}
			}
		}
	}
}
