//go:build go1.22

// P31: options and environment variables mean the same for every command.
package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"path"
	"regexp"
	"runtime"
	"strings"

	"github.com/uber/prototool/internal/vars"
	"github.com/uber/prototool/internal/verifmc/core"
)

func main() {
	core.Main(&core.Check{
		ID:          "P31",
		Level:       "exploration",
		Rule:        "A case is a command and the sources of each common setting (flag, empty flag, environment variable, both, neither), each written in four ways and orders; or a command, a subset of up to two (thorough: three) of its own flags, and every way to write them, before and behind the argument. Non-trivial: what was requested, installed, run and printed.",
		Assumptions: []string{"the transport of Go's HTTP client is replaced by one that answers and records"},
		Run:         run,
	})
}

// web answers requests and records them.
type web struct{ requests []string }

const mirror = "http://mirror/protoc.zip"

var releases = map[string]string{
	"https://github.com/protocolbuffers/protobuf/releases/download/v3.8.0/protoc-3.8.0-linux-x86_64.zip": "3.8.0",
	"https://github.com/protocolbuffers/protobuf/releases/download/v3.9.1/protoc-3.9.1-linux-x86_64.zip": "3.9.1",
	mirror: "mirror",
}

func (f *web) RoundTrip(req *http.Request) (*http.Response, error) {
	u := req.URL.String()
	f.requests = append(f.requests, u)
	v, has := releases[u]
	if !has {
		return nil, errors.New("not found")
	}
	data := pack(v)
	return &http.Response{StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: req, ContentLength: int64(len(data)), Body: io.NopCloser(bytes.NewReader(data))}, nil
}

// says is a protoc that fails for one file and says which one it is.
func says(who string) string {
	return "#!/bin/sh\nif [ \"$1\" = --version ]; then\n  echo libprotoc " + who + "\nelse\n  echo 'a.proto:3:1: ran " + who + "' >&2\n  exit 1\nfi\n"
}

// logs is a protoc that works and writes down who it is.
func logs(who string) string {
	return "#!/bin/sh\nif [ \"$1\" = --version ]; then\n  echo libprotoc " + who + "\nelse\n  echo " + who + " >> \"$VERIF_LOG\"\n  exec /usr/bin/protoc \"$@\"\nfi\n"
}

// script is the kind of protoc that is in use.
var script = says

func pack(version string) []byte {
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	for _, e := range [][2]string{{"bin/protoc", script(version)}, {"include/google/protobuf/empty.proto", "syntax = \"proto3\";\npackage google.protobuf;\nmessage Empty {\n}\n"}} {
		h := &zip.FileHeader{Name: e[0], Method: zip.Deflate}
		h.SetMode(0755)
		f, err := zw.CreateHeader(h)
		core.Internal(err)
		_, err = f.Write([]byte(e[1]))
		core.Internal(err)
	}
	core.Internal(zw.Close())
	return buf.Bytes()
}

var variables = []string{"PROTOTOOL_CACHE_PATH", "XDG_CACHE_HOME", "HOME", "PROTOTOOL_PROTOC_BIN_PATH", "PROTOTOOL_PROTOC_WKT_PATH"}

func setenv(env map[string]string) {
	for _, v := range variables {
		if s, has := env[v]; has {
			core.Internal(os.Setenv(v, s))
		} else {
			core.Internal(os.Unsetenv(v))
		}
	}
}

func run(w *core.W) {
	settings(w)
	clones(w)
	spellings(w)
	version(w)
	listing(w)
}

// command is a command that runs protoc.
type command struct {
	args             string
	json, form, errs bool
}

var commands = []command{
	{"compile", true, true, true}, {"all", true, true, true}, {"lint", true, true, true}, {"format", true, true, true}, {"generate", true, true, true},
	{"descriptor-set", true, true, true}, {"break descriptor-set -o new.bin", true, true, true}, {"break check -f old.bin", true, false, true},
	{"x inspect packages", false, true, true}, {"x inspect package-deps --name a", false, true, true}, {"x inspect package-importers --name a", false, true, true},
	{"grpc --address 127.0.0.1:1 --method a.S/M --data {}", false, true, true}, {"cache update", false, false, false},
}

type settingKase struct {
	Command string
	Cache   string
	Data    bool
	URL     bool
	Bin     string
	Form    bool
	JSON    bool
	Rest    string
}

// setting is one flag.
type setting struct {
	name, value, other string
	flag               bool
}

// write writes the flags in the given way around the arguments.
func write(command string, flags []setting, arg string, way int) []string {
	args := strings.Split(command, " ")
	var words [][]string
	for _, f := range flags {
		var ws []string
		switch {
		case f.flag && way == 1:
			ws = []string{"--" + f.name + "=true"}
		case f.flag && way == 2:
			ws = []string{"--" + f.name + "=false", "--" + f.name}
		case f.flag:
			ws = []string{"--" + f.name}
		case way == 1:
			ws = []string{"--" + f.name + "=" + f.value}
		case way == 2:
			ws = []string{"--" + f.name, f.other, "--" + f.name, f.value}
		default:
			ws = []string{"--" + f.name, f.value}
		}
		words = append(words, ws)
	}
	var before, behind []string
	for i, ws := range words {
		switch {
		case way == 1:
			before = append(append([]string(nil), ws...), before...)
		case way == 3 && i%2 == 0:
			before = append(before, ws...)
		default:
			behind = append(behind, ws...)
		}
	}
	args = append(args, before...)
	if arg != "" {
		args = append(args, arg)
	}
	return append(args, behind...)
}

func settings(w *core.W) {
	sources := []string{"-", "flag", "env", "both", "empty flag"}
	bools := []bool{false, true}
	for _, c := range commands {
		for _, bin := range sources {
			for _, cache := range sources {
				for _, data := range bools {
					for _, url := range bools {
						for _, form := range bools {
							for _, asJSON := range bools {
								for _, rest := range []string{"", "debug", "walk", "debug walk"} {
									if form && !c.form || asJSON && !c.json || !c.errs && (url || bin == "flag" || bin == "both" || bin == "empty flag") {
										continue
									}
									if !w.Thorough() && (rest == "debug" || rest == "walk" || bin != "-" && cache != "-" && cache != "both" || bin != "-" && data && !url && cache != "-" || rest != "" && bin != "-" && cache != "-") {
										continue
									}
									k := settingKase{c.args, cache, data, url, bin, form, asJSON, rest}
									c := c
									w.Case(k, func(t *core.T) {
										for way := 0; way < 4; way++ {
											settle(w, t, c, k, way)
										}
									})
								}
							}
						}
					}
				}
			}
		}
	}
}

// clones: the settings are those of both states that break check compares.
func clones(w *core.W) {
	sources := []string{"-", "flag", "env", "both", "empty flag"}
	for _, args := range []string{"break check", "break check --git-branch older", "break check --git-branch older --json", "generate", "all --disable-format", "lint", "format", "descriptor-set --include-imports -o x.bin"} {
		for _, bin := range sources {
			for _, cache := range sources {
				for _, data := range []bool{false, true} {
					for _, url := range []bool{false, true} {
						if url && bin != "-" {
							continue
						}
						k := settingKase{Command: args, Cache: cache, Data: data, URL: url, Bin: bin, Rest: "works"}
						w.Case(k, func(t *core.T) {
							script = logs
							defer func() { script = says }()
							for way := 0; way < 4; way++ {
								settle(w, t, command{args: k.Command}, k, way)
							}
						})
					}
				}
			}
		}
	}
}

// has says whether the source is a flag, or the environment.
func has(source, what string) bool {
	switch what {
	case "flag":
		return source == "flag" || source == "both"
	case "env":
		return source == "env" || source == "both" || source == "empty flag"
	}
	return source == "empty flag"
}

func settle(w *core.W, t *core.T, c command, k settingKase, way int) {
	root := w.Fresh("t")
	core.Write(root, map[string]string{
		"w/prototool.yaml": "protoc:\n  version: 3.8.0\nlint:\n  group: empty\n", "w/a.proto": "syntax = \"proto3\";\n\npackage a;\n", "w/old.bin": "",
		"bin/flag": script("flag"), "bin/env": script("env"), "bin/other": script("other"), "log": "",
		"wkt/flag/google/protobuf/": "", "wkt/env/google/protobuf/": "", "wkt/other/google/protobuf/": "",
	})
	for _, n := range []string{"flag", "env", "other"} {
		core.Internal(os.Chmod(root+"/bin/"+n, 0755))
	}
	works := k.Rest == "works"
	if works {
		core.Internal(os.Setenv("VERIF_LOG", root+"/log"))
		core.Write(root, map[string]string{"w/b/b.proto": "syntax = \"proto3\";\n\npackage b;\n"})
		sh(root, "cd w && git init -q . && git checkout -q -b master && git add -A && git -c user.name=x -c user.email=x@x commit -q -m x && git branch older")
	}
	env := map[string]string{"HOME": root + "/home"}
	var flags []setting
	add := func(source, name, variable, value, other string) {
		switch {
		case has(source, "flag"):
			flags = append(flags, setting{name: name, value: root + value + "flag", other: root + other})
		case has(source, "empty"):
			flags = append(flags, setting{name: name, other: root + other})
		}
		if has(source, "env") {
			env[variable] = root + value + "env"
		}
	}
	add(k.Cache, "cache-path", "PROTOTOOL_CACHE_PATH", "/cache/", "/cache/other")
	add(k.Bin, "protoc-bin-path", "PROTOTOOL_PROTOC_BIN_PATH", "/bin/", "/bin/other")
	add(k.Bin, "protoc-wkt-path", "PROTOTOOL_PROTOC_WKT_PATH", "/wkt/", "/wkt/other")
	if k.Data {
		flags = append(flags, setting{name: "config-data", value: `{"protoc":{"version":"3.9.1"},"lint":{"group":"empty"}}`, other: "{"})
	}
	if k.URL {
		flags = append(flags, setting{name: "protoc-url", value: mirror, other: "http://other/protoc.zip"})
	}
	if k.Form {
		flags = append(flags, setting{name: "error-format", value: "message:line", other: "column"})
	}
	if k.JSON {
		flags = append(flags, setting{name: "json", flag: true})
	}
	if strings.Contains(k.Rest, "debug") {
		flags = append(flags, setting{name: "debug", flag: true})
	}
	if strings.Contains(k.Rest, "walk") {
		flags = append(flags, setting{name: "walk-timeout", value: "10m", other: "foo"})
	}
	setenv(env)
	args := write(c.args, flags, ".", way)
	f := &web{}
	http.DefaultTransport = f
	before := core.Snapshot(root)
	r := core.CLI(root+"/w", args...)
	after := core.Snapshot(root)
	w.Count("runs", 1)
	w.Nontrivial(fmt.Sprint(f.requests, r.Code, r.Out))
	which := func(source string) string {
		switch {
		case has(source, "flag"):
			return "flag"
		case has(source, "env"):
			return "env"
		}
		return ""
	}
	who, url := which(k.Bin), ""
	if who == "" {
		who, url = "3.8.0", "https://github.com/protocolbuffers/protobuf/releases/download/v3.8.0/protoc-3.8.0-linux-x86_64.zip"
		if k.Data {
			who, url = "3.9.1", strings.Replace(url, "3.8.0", "3.9.1", -1)
		}
		if k.URL {
			who, url = "mirror", mirror
		}
	}
	show := func(what string) {
		t.Failf(what, "%q: exit code %d, requests %q: %s%s", args, r.Code, f.requests, r.Out, r.Err)
	}
	changed := core.DiffSnapshots(before, after)
	if works {
		// every protoc that ran is the one that was asked for
		ran := map[string]int{}
		for _, l := range strings.Fields(after["log"]) {
			ran[l]++
		}
		n := 2
		if strings.HasPrefix(c.args, "break") {
			n = 4
		}
		if len(ran) != 1 || ran[who] < n || r.Code != 0 {
			t.Failf("ran", "%q: exit code %d, %v ran instead of %s: %s", args, r.Code, ran, who, r.Out)
		}
		if url == "" && len(f.requests) != 0 || url != "" && !core.Equal(f.requests, []string{url}) {
			show("requests")
		}
		cache := map[string]string{"": "home/.cache/prototool", "flag": "cache/flag", "env": "cache/env"}[which(k.Cache)]
		for _, d := range changed {
			if n := d[1:]; n != "log" && n != "w/x.bin" && (url == "" || d[0] != '+' || !strings.HasPrefix(n, cache+"/") && !strings.HasPrefix(cache+"/", n)) {
				t.Failf("changed", "%q changed %s", args, d)
			}
		}
		return
	}
	if k.Bin != "-" && (k.URL || !c.errs) {
		// both cannot be used
		if c.errs && (r.Code == 0 || strings.Contains(r.Out, "ran ")) || len(f.requests) != 0 || len(changed) != 0 {
			show("both")
		}
		return
	}
	if url == "" && len(f.requests) != 0 || url != "" && !core.Equal(f.requests, []string{url}) {
		show("requests")
	}
	cache := map[string]string{"": "home/.cache/prototool", "flag": "cache/flag", "env": "cache/env"}[which(k.Cache)]
	installed := false
	for _, d := range changed {
		if n := d[1:]; url == "" || d[0] != '+' || !strings.HasPrefix(n, cache+"/") && !strings.HasPrefix(cache+"/", n) {
			t.Failf("changed", "%q changed %s", args, d)
		} else if strings.HasSuffix(n, "/bin/protoc") {
			installed = true
		}
	}
	if installed != (url != "") {
		t.Failf("cache", "%q changed %v, not %s", args, changed, cache)
	}
	if (r.Err != "") != strings.Contains(k.Rest, "debug") {
		t.Failf("debug", "%q: stderr %q", args, r.Err)
	}
	if !c.errs {
		if r.Code != 0 || r.Out != "" {
			show("failed")
		}
		return
	}
	want := "a.proto:3:1:ran " + who + "\n"
	if k.Form {
		want = "ran " + who + ":3\n"
	}
	if k.JSON {
		var rec struct {
			Filename     string
			Line, Column int
			Message      string
		}
		if err := json.Unmarshal([]byte(r.Out), &rec); err == nil {
			want = r.Out
			if fmt.Sprintf("%s:%d:%d:%s", rec.Filename, rec.Line, rec.Column, rec.Message) != "a.proto:3:1:ran "+who {
				show("json")
			}
		} else {
			show("json")
			return
		}
	}
	if r.Code == 0 || r.Out != want {
		show("printed")
	}
}

// option is a flag of one command.
type option struct {
	long, short string
	// value and other are set if it has a value
	value, other string
	// with are the options with which it has an effect, "-" if it needs none
	with string
}

// owner is a command with its flags.
type owner struct {
	args    string
	options []option
	arg     string
	// all of the flags in a word
	words [][2]string
}

var owners = []owner{
	{args: "format", arg: "a", options: []option{{long: "diff", short: "d"}, {long: "lint", short: "l"}, {long: "overwrite", short: "w"}, {long: "fix", short: "f"}, {long: "json", with: "--lint"}, {long: "error-format", value: "id:message", other: "line", with: "--lint"}},
		words: [][2]string{{"-df", "--diff --fix"}, {"-fl", "--lint --fix"}, {"-wf", "--overwrite --fix"}, {"-wd", "--diff --overwrite"}, {"-lfw", "--lint --fix --overwrite"}}},
	{args: "all", arg: "a", options: []option{{long: "disable-format"}, {long: "disable-lint"}, {long: "fix", short: "f", with: "--disable-lint"}, {long: "json"}, {long: "error-format", value: "message", other: "line"}}},
	{args: "descriptor-set", arg: "a", options: []option{{long: "include-imports"}, {long: "include-source-info"}, {long: "json"}, {long: "tmp"}, {long: "output-path", short: "o", value: "new.bin", other: "other.bin"}}},
	{args: "break descriptor-set", arg: "a", options: []option{{long: "output-path", short: "o", value: "new.bin", other: "other.bin"}}},
	{args: "break check", arg: ".", options: []option{{long: "descriptor-set-path", short: "f", value: "old.bin", other: "none.bin"}, {long: "git-branch", value: "older", other: "none"}, {long: "json"}}},
	{args: "compile", arg: "a", options: []option{{long: "dry-run"}, {long: "json", with: "BAD"}, {long: "error-format", value: "line:column", other: "id", with: "BAD"}}},
	{args: "generate", arg: "a", options: []option{{long: "dry-run"}, {long: "json", with: "BAD"}, {long: "error-format", value: "line:column", other: "id", with: "BAD"}}},
	{args: "lint", arg: "a", options: []option{{long: "json"}, {long: "error-format", value: "id:line", other: "message"}, {long: "list-linters"}, {long: "list-all-linters"}, {long: "list-all-lint-groups"}, {long: "list-lint-group", value: "google", other: "uber1"}, {long: "diff-lint-groups", value: "google,uber2", other: "uber1,uber2"}, {long: "generate-ignores"}}},
	{args: "config init", arg: "c", options: []option{{long: "document"}, {long: "uncomment"}}},
	{args: "create", arg: "a/new.proto", options: []option{{long: "package", value: "foo.bar", other: "other"}}},
	{args: "x inspect packages", arg: ".", options: []option{{long: "error-format", value: "message", other: "line", with: "BAD"}}},
	{args: "x inspect package-deps", arg: ".", options: []option{{long: "name", value: "a", other: "b"}}},
	{args: "x inspect package-importers", arg: ".", options: []option{{long: "name", value: "b", other: "none"}}},
	{args: "files", arg: ".", options: []option{{long: "config-data", value: `{"excludes":["b"]}`, other: "{"}}},
	{args: "version", options: []option{{long: "json"}}},
}

const (
	sourceA = "syntax = \"proto3\";\npackage a;\nimport \"b/b.proto\";\nmessage aA { b.B b = 1; }\n"
	sourceB = "syntax = \"proto3\";\n\npackage b;\n\nmessage B {\n  string s = 1;\n}\n"
)

// outcome is everything that can be seen of a run.
type outcome struct {
	code int
	out  string
	diff string
}

var (
	temporary = regexp.MustCompile(`prototool[0-9A-Za-z]+`)
	stamps    = regexp.MustCompile(`(?m)^(---|\+\+\+|diff) .*$`)
)

// world makes the directory, if what is there is not what it should be.
func world(w *core.W, bad bool) string {
	name := "ref"
	if bad {
		name = "refbad"
	}
	ref := w.Scratch + "/" + name
	if _, err := os.Stat(ref); err != nil {
		files := map[string]string{
			"w/prototool.yaml": "lint:\n  group: uber2\ngenerate:\n  plugins:\n    - name: cpp\n      output: ../gen\n", "w/a/a.proto": sourceA, "w/b/b.proto": sourceB, "tmp/": "", "home/": "",
		}
		core.Write(ref, files)
		script := "cd w && git init -q . && git checkout -q -b older && git add -A && git -c user.name=x -c user.email=x@x commit -q -m x && git checkout -q -b master && sed -i 's/aA/aB/' a/a.proto && git -c user.name=x -c user.email=x@x commit -q -a -m y && sed -i 's/ s = / q = /' b/b.proto && protoc -I . --include_imports -o old.bin a/a.proto && sed -i 's/aB/aC/' a/a.proto"
		if bad {
			script += " && echo 'message aQ { None n = 1; }' >> a/a.proto"
		}
		sh(ref, script)
	}
	dir := w.Scratch + "/t"
	_ = os.Chdir(w.Scratch)
	sh(w.Scratch, "rm -rf '"+dir+"' && cp -a '"+ref+"' '"+dir+"'")
	return dir
}

func sh(dir, script string) {
	c := exec.Command("/bin/sh", "-c", script)
	c.Dir = dir
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent"}
	if out, err := c.CombinedOutput(); err != nil {
		core.Internal(fmt.Errorf("%s: %v: %s", script, err, out))
	}
}

func execute(w *core.W, bad bool, args []string) outcome {
	root := w.Scratch + "/t"
	// what the last case left is only kept if it is what it was
	if state.root != root || state.bad != bad || state.dirty {
		root = world(w, bad)
		state.root, state.bad, state.dirty, state.before = root, bad, false, core.Snapshot(root)
	}
	core.UseSystemProtoc()
	core.Internal(os.Setenv("HOME", root+"/home"))
	core.CleanTemp()
	r := core.CLI(root+"/w", args...)
	w.Count("runs", 1)
	o := outcome{code: r.Code, out: r.Out}
	for _, n := range core.TempEntries() {
		data, _ := os.ReadFile(path.Join(os.Getenv("TMPDIR"), n))
		o.diff += fmt.Sprintf("temporary file of %d bytes\n", len(data))
		o.out = strings.Replace(o.out, path.Join(os.Getenv("TMPDIR"), n), "TMP", -1)
	}
	core.CleanTemp()
	o.out = stamps.ReplaceAllString(temporary.ReplaceAllString(o.out, "TMP"), "$1")
	after := core.Snapshot(root)
	for _, d := range core.DiffSnapshots(state.before, after) {
		if strings.HasPrefix(d[1:], "w/.git/") {
			continue
		}
		o.diff += d + " " + after[d[1:]] + "\n"
		state.dirty = true
	}
	return o
}

var state struct {
	root       string
	bad, dirty bool
	before     map[string]string
}

// forms are all the ways to write the option, and to write that it is not set.
func (o option) forms() (set, unset [][]string) {
	l, s := "--"+o.long, "-"+o.short
	if o.value != "" {
		set = [][]string{{l, o.value}, {l + "=" + o.value}, {l, o.other, l + "=" + o.value}}
		unset = [][]string{{l + "="}, {l, ""}}
		if o.long == "error-format" {
			unset = [][]string{{l, "filename:line:column:message"}}
		}
		if o.short != "" {
			set = append(set, []string{s, o.value}, []string{s + o.value}, []string{s + "=" + o.value}, []string{l, o.other, s, o.value})
		}
		return set, unset
	}
	set = [][]string{{l}, {l + "=true"}, {l, l}, {l + "=false", l}, {l + "=1"}}
	unset = [][]string{{l + "=false"}, {l, l + "=false"}, {l + "=0"}}
	if o.short != "" {
		set = append(set, []string{s}, []string{s + "=true"}, []string{l + "=false", s})
		unset = append(unset, []string{s + "=false"})
	}
	return set, unset
}

type spellingKase struct {
	Command string
	Options []string
	Bad     bool
}

func spellings(w *core.W) {
	max := 2
	if w.Thorough() {
		max = 3
	}
	for _, o := range owners {
		for _, bad := range []bool{false, true} {
			o, bad := o, bad
			if bad && (o.args == "version" || o.args == "config init" || o.args == "create" || o.args == "files") {
				continue
			}
			core.Subsets(len(o.options), max, func(mask int) {
				k := spellingKase{Command: o.args, Bad: bad}
				var chosen []option
				for i, x := range o.options {
					if mask>>uint(i)&1 == 1 {
						chosen = append(chosen, x)
						k.Options = append(k.Options, x.long)
					}
				}
				w.Case(k, func(t *core.T) { spell(w, t, o, bad, chosen) })
			})
		}
		for _, words := range o.words {
			o, words := o, words
			w.Case(spellingKase{Command: o.args, Options: []string{words[0]}}, func(t *core.T) {
				want := execute(w, false, append(append(strings.Split(o.args, " "), strings.Split(words[1], " ")...), o.arg))
				for _, args := range [][]string{{words[0], o.arg}, {o.arg, words[0]}} {
					a := append(strings.Split(o.args, " "), args...)
					same(t, a, want, execute(w, false, a))
				}
				w.Nontrivial(fmt.Sprint(want))
			})
		}
	}
}

func same(t *core.T, args []string, want, got outcome) {
	if want != got {
		t.Failf("differs", "%q: exit code %d, changed %s and printed:\n%s\ninstead of exit code %d, %s\n%s", args, got.code, got.diff, got.out, want.code, want.diff, want.out)
	}
}

func spell(w *core.W, t *core.T, o owner, bad bool, chosen []option) {
	base := strings.Split(o.args, " ")
	arg := []string{o.arg}
	if o.arg == "" {
		arg = nil
	}
	join := func(parts ...[]string) []string {
		var all []string
		for _, p := range parts {
			all = append(all, p...)
		}
		return all
	}
	var plain []string
	n := 1
	for _, c := range chosen {
		set, _ := c.forms()
		plain = append(plain, set[0]...)
		if len(set) > n {
			n = len(set)
		}
	}
	want := execute(w, bad, join(base, plain, arg))
	w.Nontrivial(fmt.Sprint(want))
	// every way to write it
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			var words, reverse []string
			var split [2][]string
			for x, c := range chosen {
				set, _ := c.forms()
				f := set[[]int{i, j, i + j}[x]%len(set)]
				words = append(words, f...)
				reverse = append(append([]string(nil), f...), reverse...)
				split[x%2] = append(split[x%2], f...)
			}
			for _, args := range [][]string{join(base, words, arg), join(base, arg, words), join(base, arg, reverse), join(base, split[0], arg, split[1])} {
				same(t, args, want, execute(w, bad, args))
			}
			if len(chosen) < 2 {
				break
			}
		}
	}
	// together with the others, written as not set
	for _, x := range o.options {
		given := false
		for _, c := range chosen {
			given = given || c.long == x.long
		}
		if given {
			continue
		}
		_, unset := x.forms()
		for _, u := range unset {
			for _, args := range [][]string{join(base, plain, u, arg), join(base, u, arg, plain)} {
				same(t, args, want, execute(w, bad, args))
			}
		}
	}
	// --debug says more, but only to standard error
	same(t, join(base, plain, []string{"--debug"}, arg), want, execute(w, bad, join(base, plain, []string{"--debug"}, arg)))
	// one that is set has an effect
	if len(chosen) == 1 && (chosen[0].with == "BAD") == bad {
		var with []string
		if !bad && chosen[0].with != "" {
			with = []string{chosen[0].with}
		}
		a, b := join(base, with, arg), join(base, with, plain, arg)
		if execute(w, bad, a) == execute(w, bad, b) {
			t.Failf("effect", "%q does the same as %q", b, a)
		}
	}
}

type versionKase struct {
	Part string
	Args []string
}

// version is what the documented defaults are.
func version(w *core.W) {
	for _, args := range [][]string{{"version"}, {"version", "--json"}, {"version", "--debug"}, {"--debug", "version", "--json"}} {
		args := args
		w.Case(versionKase{"version", args}, func(t *core.T) {
			r := core.CLI(w.Fresh("v"), args...)
			w.Nontrivial(r.Out)
			got := map[string]string{}
			if strings.Contains(strings.Join(args, " "), "json") {
				if err := json.Unmarshal([]byte(r.Out), &got); err != nil {
					t.Failf("json", "%v: %s", err, r.Out)
				}
			} else {
				for _, l := range r.Lines() {
					i := strings.Index(l, ":")
					if i < 0 {
						t.Failf("text", "%q", l)
						continue
					}
					got[map[string]string{"Version": "version", "Default protoc version": "default_protoc_version", "Go version": "go_version"}[l[:i]]] = strings.TrimSpace(l[i+1:])
				}
				if got[""] != runtime.GOOS+"/"+runtime.GOARCH {
					t.Failf("text", "%s", r.Out)
				}
				delete(got, "")
				got["goos"], got["goarch"] = runtime.GOOS, runtime.GOARCH
			}
			for n, v := range map[string]string{"version": vars.Version, "default_protoc_version": vars.DefaultProtocVersion, "go_version": runtime.Version(), "goos": runtime.GOOS, "goarch": runtime.GOARCH} {
				if got[n] != v {
					t.Failf("version", "%s is %q instead of %q", n, got[n], v)
				}
			}
			if r.Code != 0 || len(got) != 5 {
				t.Failf("version", "exit code %d: %s", r.Code, r.Out)
			}
		})
	}
}

// listing: --config-data is the only configuration, whatever else there is, for commands that do not need protoc.
func listing(w *core.W) {
	for _, conf := range []string{"", "excludes: [a]\n", "foo: bar\n", "{"} {
		for _, args := range [][]string{{"files"}, {"create", "new.proto"}} {
			for _, form := range []int{0, 1} {
				conf, args, form := conf, args, form
				w.Case(versionKase{"config-data", append(args[:len(args):len(args)], conf, fmt.Sprint(form))}, func(t *core.T) {
					state.dirty = true
					root := w.Fresh("t")
					setenv(map[string]string{"HOME": root})
					core.Write(root, map[string]string{"prototool.yaml": conf, "a/a.proto": sourceB, "b/b.proto": sourceB})
					data := `{"excludes":["b"],"create":{"packages":[{"directory":".","name":"of.data"}]}}`
					a := append(args[:len(args):len(args)], "--config-data", data)
					if form == 1 {
						a = append([]string{args[0], "--config-data=" + data}, args[1:]...)
					}
					r := core.CLI(root, a...)
					w.Nontrivial(r.Out)
					switch args[0] {
					case "files":
						if r.Code != 0 || r.Out != "a/a.proto\n" {
							t.Failf("files", "%q: exit code %d: %s", a, r.Code, r.Out)
						}
					default:
						made, _ := os.ReadFile(root + "/new.proto")
						if r.Code != 0 || !strings.Contains(string(made), "\npackage of.data;\n") {
							t.Failf("create", "%q: exit code %d: %s%s", a, r.Code, r.Out, made)
						}
					}
				})
			}
		}
	}
}
