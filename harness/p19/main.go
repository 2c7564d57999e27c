//go:build go1.22

// P19: what is downloaded, where it is installed, and what is deleted.
package main

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/uber/prototool/internal/cmd"
	"github.com/uber/prototool/internal/verifmc/core"
)

func main() {
	if os.Getenv("VERIF_CHILD") != "" {
		f := &web{t: nil}
		if log := os.Getenv("VERIF_REQUESTS"); log != "" {
			f.answer = func(url string) *http.Response {
				l, err := os.OpenFile(log, os.O_APPEND|os.O_WRONLY, 0)
				core.Internal(err)
				_, err = l.WriteString("GET " + url + "\n")
				core.Internal(err)
				core.Internal(l.Close())
				return ok(packed(url))
			}
		}
		http.DefaultTransport = f
		os.Exit(cmd.Do(os.Args[1:], os.Stdin, os.Stdout, os.Stderr))
	}
	core.Main(&core.Check{
		ID:          "P19",
		Level:       "exploration",
		Rule:        "A case is a zip file with up to two (thorough: three) entries out of an alphabet of names that try to leave the directory, or an answer of the server, or a combination of flags, environment variables, working directory, version and command; cache delete is run with all combinations of environment and caches by a user without any rights. Non-trivial: something was downloaded, installed or deleted, or refused.",
		Assumptions: []string{"the transport of Go's HTTP client is replaced by one that answers and records"},
		Run:         run,
	})
}

// web answers requests and records them.
type web struct {
	t        *core.T
	requests []string
	answer   func(url string) *http.Response
}

func (f *web) RoundTrip(req *http.Request) (*http.Response, error) {
	f.requests = append(f.requests, req.Method+" "+req.URL.String())
	if f.answer == nil {
		return nil, errors.New("there is no network")
	}
	r := f.answer(req.URL.String())
	if r == nil {
		return nil, errors.New("connection refused")
	}
	r.Request, r.Proto, r.ProtoMajor, r.ProtoMinor = req, "HTTP/1.1", 1, 1
	if r.Header == nil {
		r.Header = http.Header{}
	}
	return r, nil
}

func ok(data []byte) *http.Response {
	return &http.Response{StatusCode: 200, ContentLength: int64(len(data)), Body: io.NopCloser(bytes.NewReader(data))}
}

func script(v string) string {
	return "#!/bin/sh\nif [ \"$1\" = --version ]; then\n  echo libprotoc " + v + "\nelse\n  exec /usr/bin/protoc \"$@\"\nfi\n"
}

type entry struct {
	name string
	link string // a symbolic link
	body string
}

const empty = "syntax = \"proto3\";\npackage google.protobuf;\nmessage Empty {\n}\n"

func pack(version string, entries ...entry) []byte {
	return packScript(script(version), entries...)
}

func packScript(body string, entries ...entry) []byte {
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	for _, e := range append([]entry{{name: "bin/protoc", body: body}, {name: "include/google/protobuf/empty.proto", body: empty}}, entries...) {
		h := &zip.FileHeader{Name: e.name, Method: zip.Deflate}
		mode := fs.FileMode(0644)
		if strings.HasPrefix(e.name, "bin/") {
			mode = 0755
		}
		if e.link != "" {
			mode = fs.ModeSymlink | 0777
			e.body = e.link
		}
		if strings.HasSuffix(e.name, "/") {
			mode = fs.ModeDir | 0755
			h.Method = zip.Store
		}
		h.SetMode(mode)
		f, err := zw.CreateHeader(h)
		core.Internal(err)
		if !mode.IsDir() {
			_, err = f.Write([]byte(e.body))
			core.Internal(err)
		}
	}
	core.Internal(zw.Close())
	return buf.Bytes()
}

func release(v, tag string) string {
	return "GET https://github.com/protocolbuffers/protobuf/releases/download/v" + tag + "/protoc-" + v + "-linux-x86_64.zip"
}

var variables = []string{"PROTOTOOL_CACHE_PATH", "XDG_CACHE_HOME", "HOME", "PROTOTOOL_PROTOC_BIN_PATH", "PROTOTOOL_PROTOC_WKT_PATH"}

func setenv(env map[string]string) {
	for _, v := range variables {
		if s, has := env[v]; has {
			core.Internal(os.Setenv(v, s))
		} else {
			core.Internal(os.Unsetenv(v))
		}
	}
}

func run(w *core.W) {
	zips(w)
	answers(w)
	places(w)
	system(w)
	deletes(w)
	histories(w)
}

// give makes nobody the owner of root, and lets them reach it.
func give(root string) {
	core.Internal(filepath.Walk(root, func(p string, _ os.FileInfo, err error) error {
		core.Internal(err)
		return os.Lchown(p, 65534, 65534)
	}))
	for d := root; strings.Contains(d, "verif-"); d = path.Dir(d) {
		st, err := os.Stat(d)
		core.Internal(err)
		core.Internal(os.Chmod(d, st.Mode().Perm()|0111))
	}
}

// installation is the directory that contains bin/protoc, "" if there is none.
func installation(root string) string {
	found := ""
	for f := range core.Snapshot(root) {
		if strings.HasSuffix("/"+f, "/bin/protoc") {
			found = path.Join(root, strings.TrimSuffix(f, "bin/protoc"))
		}
	}
	return found
}

type zipKase struct {
	Part    string
	Entries []string
	State   string
}

func zips(w *core.W) {
	alphabet := []entry{
		{name: "x"}, {name: "a/x"}, {name: "../x"}, {name: "../../x"}, {name: "../../../x"},
		{name: "a/../../x"}, {name: "a/../x"}, {name: "./a/./b"}, {name: "a//b"}, {name: "bin/../../../x"},
		{name: ".."}, {name: "a/.."}, {name: "../"}, {name: "a/"}, {name: "$/abs"}, {name: "a"}, {name: "..a/..b"}, {name: "../..a"},
		{name: "..\\..\\x"}, {name: "link", link: "../../../.."}, {name: "link/x"}, {name: "link/../x"}, {name: "l2", link: "$"}, {name: "l2/x"},
		{name: "../3.11.0/x"}, {name: "../3.11.0x/x"}, {name: "../3.11.0.tmpx/y"}, {name: "../3.11.0.lock"}, {name: "bin/protoc/x"}, {name: "bin"}, {name: ""}, {name: "../../../cache"},
		{name: "include/google/protobuf/any.proto"}, {name: "../../../w/a.proto"}, {name: "../../../w/prototool.yaml"},
	}
	for i := range alphabet {
		alphabet[i].body = fmt.Sprintf("content %d\n", i)
	}
	var lists [][]int
	for i := range alphabet {
		lists = append(lists, []int{i})
		for j := range alphabet {
			lists = append(lists, []int{i, j})
			if w.Thorough() {
				for k := range alphabet {
					lists = append(lists, []int{i, j, k})
				}
			}
		}
	}
	for _, state := range []string{"nothing", "old"} {
		for _, list := range lists {
			if state == "old" && len(list) > 1 && !w.Thorough() {
				continue
			}
			list, state := list, state
			k := zipKase{Part: "zip", State: state}
			for _, i := range list {
				k.Entries = append(k.Entries, alphabet[i].name)
			}
			w.Case(k, func(t *core.T) {
				root := w.Fresh("t") + "/1/2/3/4"
				work := root + "/w"
				core.Write(work, map[string]string{"prototool.yaml": "protoc:\n  version: 3.11.0\n", "a.proto": "syntax = \"proto3\";\npackage a;\n"})
				core.Write(root, map[string]string{"x/": "", "file": "file\n"})
				f := &web{t: t}
				http.DefaultTransport = f
				setenv(map[string]string{"HOME": root + "/home"})
				args := []string{"cache", "update", "--cache-path", root + "/c/cache"}
				if state == "old" {
					f.answer = func(string) *http.Response { return ok(pack("3.11.0", entry{name: "old/file", body: "x"})) }
					if r := core.CLI(work, args...); r.Code != 0 {
						core.Internal(fmt.Errorf("%s%s", r.Out, r.Err))
					}
					base := installation(root)
					core.Write(base, map[string]string{"bin/protoc": "#!/bin/sh\nexit 1\n"})
				}
				var entries []entry
				want := map[string]string{"bin/protoc": script("3.11.0"), "include/google/protobuf/empty.proto": empty}
				escapes, conflict := false, false
				for _, i := range list {
					e := alphabet[i]
					e.name = strings.Replace(e.name, "$", root, 1)
					e.link = strings.Replace(e.link, "$", root, 1)
					entries = append(entries, e)
					if strings.HasSuffix(e.name, "/") {
						// directories are not installed
						continue
					}
					clean := path.Join(".", e.name)
					if strings.HasPrefix(e.name, "/") {
						clean = strings.TrimPrefix(path.Clean(e.name), "/")
					}
					if clean == ".." || strings.HasPrefix(clean, "../") {
						escapes = true
					}
					if clean == "." {
						conflict = true
					}
					body := e.body
					if e.link != "" {
						body = e.link
					}
					want[clean] = body
				}
				for a := range want {
					for b := range want {
						conflict = conflict || strings.HasPrefix(b, a+"/")
					}
				}
				f.answer = func(string) *http.Response { return ok(pack("3.11.0", entries...)) }
				before := core.Snapshot(root)
				r := core.CLI(work, args...)
				w.Count("runs", 1)
				after := core.Snapshot(root)
				w.Nontrivial(fmt.Sprint(k))
				for _, d := range core.DiffSnapshots(before, after) {
					if !strings.Contains(d, "c/") || strings.Contains(d, " w/") {
						t.Failf("outside", "%v changed %s", k.Entries, d)
					}
				}
				for f := range after {
					if before[f] != after[f] && !strings.HasPrefix(f, "c/") {
						t.Failf("outside", "%v wrote %s", k.Entries, f)
					}
				}
				for f := range before {
					if _, has := after[f]; !has && !strings.HasPrefix(f, "c/") {
						t.Failf("outside", "%v deleted %s", k.Entries, f)
					}
				}
				base := installation(root)
				if escapes || conflict {
					if r.Code == 0 {
						t.Failf("accepted", "%v: exit code 0", k.Entries)
					}
					if base != "" && state != "old" {
						t.Failf("installed", "%v: something was installed", k.Entries)
					}
				}
				if r.Code == 0 {
					got := map[string]string{}
					for f, s := range core.Snapshot(base) {
						if !strings.HasSuffix(f, "/") {
							got[f] = s
						}
					}
					for _, d := range core.DiffSnapshots(want, got) {
						t.Failf("content", "%v: installed, but %s", k.Entries, d)
					}
				} else if !escapes && !conflict {
					t.Failf("refused", "%v: %s%s", k.Entries, r.Out, r.Err)
				}
				for f := range after {
					p := path.Join(root, f)
					if strings.HasPrefix(f, "c/") && base != "" && !strings.HasPrefix(p, base+"/") && !strings.HasPrefix(base, p) && !strings.HasSuffix(f, ".lock") {
						t.Failf("beside", "%v: %s beside the installation", k.Entries, f)
					}
					if strings.HasPrefix(f, "c/") && base == "" && !strings.HasSuffix(f, "/") && !strings.HasSuffix(f, ".lock") {
						t.Failf("beside", "%v: %s without an installation", k.Entries, f)
					}
				}
			})
		}
	}
}

type answerKase struct {
	Part    string
	Status  int
	Body    string
	URL     string
	Command string
	Then    string
}

type brokenReader struct{ r io.Reader }

func (b *brokenReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset by peer")
	}
	return n, err
}

func answers(w *core.W) {
	good := pack("3.11.0", entry{name: "include/google/protobuf/any.proto", body: "syntax = \"proto3\";\npackage google.protobuf;\nmessage Any {\n}\n"})
	bodies := map[string]func() (io.Reader, int64){
		"zip":       func() (io.Reader, int64) { return bytes.NewReader(good), int64(len(good)) },
		"html":      func() (io.Reader, int64) { return strings.NewReader("<html></html>"), -1 },
		"empty":     func() (io.Reader, int64) { return strings.NewReader(""), 0 },
		"broken":    func() (io.Reader, int64) { return &brokenReader{bytes.NewReader(good[:len(good)/2])}, -1 },
		"reset":     func() (io.Reader, int64) { return &brokenReader{bytes.NewReader(good)}, -1 },
		"half":      func() (io.Reader, int64) { return bytes.NewReader(good[:len(good)/2]), -1 },
		"wrong one": func() (io.Reader, int64) { b := pack("3.10.0"); return bytes.NewReader(b), -1 },
	}
	for _, status := range []int{0, 200, 201, 204, 206, 302, 307, 304, 400, 401, 403, 404, 429, 500, 502, 503} {
		for _, body := range []string{"zip", "html", "empty", "broken", "reset", "half", "wrong one"} {
			for _, url := range []string{"", "http://mirror/protoc.zip", "https://mirror/protoc.zip?a=b", "file://$/protoc.zip", "ftp://mirror/protoc.zip", "mirror/protoc.zip", "/protoc.zip"} {
				if !strings.HasPrefix(url, "http") && url != "" && status != 200 {
					continue
				}
				if (status == 302 || status == 307) && url != "" {
					continue
				}
				for _, command := range []string{"cache update", "compile", "format", "lint", "generate", "descriptor-set", "all", "x inspect packages", "break check"} {
					if command == "cache update" && url != "" {
						continue
					}
					if command != "cache update" && command != "compile" && status != 200 && status != 404 && status != 0 {
						continue
					}
					status, body, url, command := status, body, url, command
					k := answerKase{Part: "answer", Status: status, Body: body, URL: url, Command: command}
					w.Case(k, func(t *core.T) {
						root := w.Fresh("t")
						work := root + "/w"
						core.Write(work, map[string]string{"prototool.yaml": "lint:\n  group: empty\n", "a.proto": "syntax = \"proto3\";\n\npackage a;\n", "old.bin": ""})
						setenv(map[string]string{"HOME": root + "/home"})
						f := &web{t: t}
						http.DefaultTransport = f
						redirected := false
						f.answer = func(u string) *http.Response {
							if status == 0 {
								return nil
							}
							r, n := bodies[body]()
							resp := &http.Response{StatusCode: status, Status: fmt.Sprint(status, " ", http.StatusText(status)), ContentLength: n, Body: io.NopCloser(r), Header: http.Header{}}
							if status == 302 || status == 307 {
								if redirected {
									resp.StatusCode = 200
								} else {
									resp.Header.Set("Location", "https://elsewhere/x.zip")
									resp.Body = io.NopCloser(strings.NewReader(""))
								}
								redirected = true
							}
							return resp
						}
						u := strings.Replace(url, "$", root, 1)
						r, _ := bodies[body]()
						data, readErr := io.ReadAll(r)
						core.Internal(os.WriteFile(root+"/protoc.zip", data, 0644))
						args := append(strings.Split(command, " "), "--cache-path", root+"/cache")
						if url != "" {
							args = append(args, "--protoc-url", u)
						}
						switch command {
						case "break check":
							args = append(args, "-f", "old.bin")
						}
						before := core.Snapshot(work)
						res := core.CLI(work, args...)
						w.Count("runs", 1)
						w.Nontrivial(fmt.Sprint(status, body, url))
						good := (status == 200 || status == 302 || status == 307) && body == "zip"
						if url != "" && body == "wrong one" && status == 200 {
							good = true // the version behind a URL is not known
						}
						if strings.HasPrefix(url, "file") {
							good = status == 200 && readErr == nil && (body == "zip" || body == "wrong one") || body == "reset"
						} else if url != "" && !strings.HasPrefix(url, "http") {
							good = false
						}
						if good != (res.Code == 0) {
							t.Failf("verdict", "%v: exit code %d: %s%s", args, res.Code, res.Out, res.Err)
						}
						base := installation(root + "/cache")
						if good != (base != "") && body != "wrong one" {
							t.Failf("installed", "%v: installed in %q", args, base)
						}
						if !good && res.Out+res.Err == "" {
							t.Failf("silent", "%v: no message", args)
						}
						// the message says what could not be downloaded
						if strings.HasPrefix(url, "http") && status != 200 && !strings.Contains(res.Out+res.Err, u) {
							t.Failf("message", "%v: the message does not name the URL: %s%s", args, res.Out, res.Err)
						}
						if url == "" && status != 200 && status != 302 && status != 307 && !strings.Contains(res.Out+res.Err, strings.TrimPrefix(release("3.11.0", "3.11.0"), "GET ")) {
							t.Failf("message", "%v: the message does not name the URL: %s%s", args, res.Out, res.Err)
						}
						if d := core.DiffSnapshots(before, core.Snapshot(work)); len(d) != 0 {
							t.Failf("outside", "%v changed %v", args, d)
						}
						if !good && body != "wrong one" {
							for n := range core.Snapshot(root + "/cache") {
								if !strings.HasSuffix(n, "/") && !strings.HasSuffix(n, ".lock") {
									t.Failf("left", "%v left %s", args, n)
								}
							}
						}
						// once the server answers, everything is fine, and it is not asked again
						http.DefaultTransport = f
						f.answer = func(string) *http.Response { return ok(pack("3.11.0")) }
						core.Internal(os.WriteFile(root+"/protoc.zip", pack("3.11.0"), 0644))
						f.requests = nil
						if url == "" || strings.HasPrefix(url, "http") || strings.HasPrefix(url, "file") {
							res = core.CLI(work, args...)
							if res.Code != 0 {
								t.Failf("next", "%v: exit code %d: %s%s", args, res.Code, res.Out, res.Err)
							}
							if n := len(f.requests); good && n != 0 || !good && n != 1 && !strings.HasPrefix(url, "file") {
								t.Failf("requests", "%v: requests of the next command: %q", args, f.requests)
							}
							f.requests = nil
							_ = core.CLI(work, args...)
							if len(f.requests) != 0 {
								t.Failf("requests", "%v: requests although it is installed: %q", args, f.requests)
							}
						}
					})
				}
			}
		}
	}
}

type placeKase struct {
	Part    string
	Flag    string
	Env     string
	XDG     string
	Home    string
	Cwd     string
	Version string
	Command string
}

// places are where it is installed and what is requested.
func places(w *core.W) {
	type ver struct{ conf, flag, v, tag string }
	versions := map[string]ver{
		"default":     {"", "", "3.11.0", "3.11.0"},
		"configured":  {"protoc:\n  version: 3.8.0\n", "", "3.8.0", "3.8.0"},
		"candidate":   {"protoc:\n  version: 3.11.0-rc-1\n", "", "3.11.0-rc-1", "3.11.0-rc1"},
		"candidate 2": {"protoc:\n  version: 3.0.0-rc-12\n", "", "3.0.0-rc-12", "3.0.0-rc12"},
		"beta":        {"protoc:\n  version: 3.0.0-beta-2\n", "", "3.0.0-beta-2", "3.0.0-beta-2"},
		"data":        {"protoc:\n  version: 3.8.0\n", `{"protoc":{"version":"3.9.1"}}`, "3.9.1", "3.9.1"},
	}
	var vnames []string
	for n := range versions {
		vnames = append(vnames, n)
	}
	sort.Strings(vnames)
	for _, flag := range []string{"", "$/flag", "flag", "../flag/x/../y", "./"} {
		for _, env := range []string{"-", "", "$/env", "env/../e2"} {
			for _, xdg := range []string{"-", "", "$/xdg"} {
				for _, home := range []string{"-", "", "$/home"} {
					for _, cwd := range []string{"w", "w/d"} {
						for _, vn := range vnames {
							for _, command := range []string{"cache update", "compile"} {
								if !w.Thorough() && (vn != "default" && cwd != "w" || command == "compile" && cwd == "w" && vn != "default" && vn != "data") {
									continue
								}
								v := versions[vn]
								k := placeKase{"place", flag, env, xdg, home, cwd, vn, command}
								flag, env, xdg, home, cwd, command := flag, env, xdg, home, cwd, command
								w.Case(k, func(t *core.T) {
									root := w.Fresh("t")
									core.Write(root+"/w", map[string]string{"prototool.yaml": v.conf, "d/a.proto": "syntax = \"proto3\";\npackage a;\n"})
									sub := func(s string) string { return strings.Replace(s, "$", root, 1) }
									vars := map[string]string{}
									for n, s := range map[string]string{"PROTOTOOL_CACHE_PATH": env, "XDG_CACHE_HOME": xdg, "HOME": home} {
										if s != "-" {
											vars[n] = sub(s)
										}
									}
									setenv(vars)
									work := path.Join(root, cwd)
									want := ""
									abs := func(p string) string {
										if !path.IsAbs(p) {
											p = path.Join(work, p)
										}
										return path.Clean(p)
									}
									switch {
									case flag != "":
										want = abs(sub(flag))
									case vars["PROTOTOOL_CACHE_PATH"] != "":
										want = abs(vars["PROTOTOOL_CACHE_PATH"])
									case vars["XDG_CACHE_HOME"] != "":
										want = vars["XDG_CACHE_HOME"] + "/prototool"
									case vars["HOME"] != "":
										want = vars["HOME"] + "/.cache/prototool"
									}
									f := &web{t: t}
									http.DefaultTransport = f
									f.answer = func(string) *http.Response { return ok(pack(v.v)) }
									args := strings.Split(command, " ")
									if flag != "" {
										args = append(args, "--cache-path", sub(flag))
									}
									if v.flag != "" {
										args = append(args, "--config-data", v.flag)
									}
									before := core.Snapshot(root)
									r := core.CLI(work, args...)
									w.Count("runs", 1)
									w.Nontrivial(fmt.Sprint(k))
									after := core.Snapshot(root)
									if want == "" {
										if r.Code == 0 || len(core.DiffSnapshots(before, after)) != 0 || len(f.requests) != 0 {
											t.Failf("nowhere", "exit code %d, requests %v, changed %v", r.Code, f.requests, core.DiffSnapshots(before, after))
										}
										return
									}
									if r.Code != 0 {
										t.Failf("failed", "%v: exit code %d: %s%s", args, r.Code, r.Out, r.Err)
										return
									}
									if !core.Equal(f.requests, []string{release(v.v, v.tag)}) {
										t.Failf("url", "%v requested %q instead of %q", args, f.requests, release(v.v, v.tag))
									}
									base := installation(root)
									if !strings.HasPrefix(base, want+"/") {
										t.Failf("where", "%v: installed in %q, not below %q", args, base, want)
									}
									for n := range after {
										p := path.Join(root, n)
										if _, had := before[n]; !had && !strings.HasPrefix(p, want+"/") && !strings.HasPrefix(want, p) {
											t.Failf("where", "%v: %s is not below %s", args, p, want)
										}
									}
									// installed: nothing is asked or changed by any command
									f.requests = nil
									again := core.Snapshot(root)
									for _, c := range []string{"compile", "cache update"} {
										a := append(strings.Split(c, " "), args[len(strings.Split(command, " ")):]...)
										if r := core.CLI(work, a...); r.Code != 0 || len(f.requests) != 0 {
											t.Failf("again", "%v: exit code %d, requests %v: %s%s", a, r.Code, f.requests, r.Out, r.Err)
										}
									}
									if d := core.DiffSnapshots(again, core.Snapshot(root)); len(d) != 0 {
										t.Failf("again", "%v changed %v", args, d)
									}
								})
							}
						}
					}
				}
			}
		}
	}
}

type systemKase struct {
	Part             string
	BinFlag, WKTFlag string
	BinEnv, WKTEnv   string
	URL              bool
	Command          string
}

// system are protocs that are not managed.
func system(w *core.W) {
	// which one was run is seen by what it says
	bin := func(name string) string {
		return "#!/bin/sh\necho '" + name + ".proto:1:1: ran " + name + "' >&2\nexit 1\n"
	}
	for _, bf := range []string{"", "good1", "missing"} {
		for _, wf := range []string{"", "wkt1", "missing", "nowkt"} {
			for _, be := range []string{"", "good2", "missing"} {
				for _, we := range []string{"", "wkt2", "missing", "filewkt"} {
					for _, url := range []bool{false, true} {
						for _, command := range []string{"compile", "lint", "format", "generate", "descriptor-set", "all", "x inspect packages"} {
							if !w.Thorough() && command != "compile" && (bf == "missing" || we == "missing" || be == "missing" || url) {
								continue
							}
							bf, wf, be, we, url, command := bf, wf, be, we, url, command
							k := systemKase{"system", bf, wf, be, we, url, command}
							w.Case(k, func(t *core.T) {
								root := w.Fresh("t")
								core.Write(root, map[string]string{
									"w/prototool.yaml": "protoc:\n  version: 3.0.0\nlint:\n  group: empty\n", "w/a.proto": "syntax = \"proto3\";\n\npackage a;\n",
									"good1": bin("good1"), "good2": bin("good2"),
									"wkt1/google/protobuf/": "", "wkt2/google/protobuf/": "", "nowkt/": "", "filewkt/google/protobuf": "file",
								})
								core.Internal(os.Chmod(root+"/good1", 0755))
								core.Internal(os.Chmod(root+"/good2", 0755))
								vars := map[string]string{"HOME": root + "/home"}
								if be != "" {
									vars["PROTOTOOL_PROTOC_BIN_PATH"] = root + "/" + be
								}
								if we != "" {
									vars["PROTOTOOL_PROTOC_WKT_PATH"] = root + "/" + we
								}
								setenv(vars)
								args := strings.Split(command, " ")
								if bf != "" {
									args = append(args, "--protoc-bin-path", root+"/"+bf)
								}
								if wf != "" {
									args = append(args, "--protoc-wkt-path", root+"/"+wf)
								}
								if url {
									args = append(args, "--protoc-url", "http://mirror/protoc.zip")
								}
								f := &web{t: t}
								http.DefaultTransport = f
								f.answer = func(string) *http.Response { return ok(pack("3.0.0")) }
								before := core.Snapshot(root + "/w")
								r := core.CLI(root+"/w", args...)
								w.Count("runs", 1)
								w.Nontrivial(fmt.Sprint(k))
								b, wk := bf, wf
								if b == "" {
									b = be
								}
								if wk == "" {
									wk = we
								}
								usable := strings.HasPrefix(b, "good") && strings.HasPrefix(wk, "wkt") && !url
								switch {
								case b == "" && wk == "":
									if r.Code != 0 || len(f.requests) != 1 {
										t.Failf("download", "exit code %d, requests %v: %s%s", r.Code, f.requests, r.Out, r.Err)
									}
								case usable:
									if r.Code == 0 || !strings.Contains(r.Out, "ran "+b) || strings.Contains(r.Out, "ran good"+map[string]string{"good1": "2", "good2": "1"}[b]) {
										t.Failf("which", "%s was not run: %s%s", b, r.Out, r.Err)
									}
								default:
									if r.Code == 0 || strings.Contains(r.Out, "ran ") {
										t.Failf("accepted", "exit code %d: %s%s", r.Code, r.Out, r.Err)
									}
								}
								if !(b == "" && wk == "") {
									if len(f.requests) != 0 {
										t.Failf("requests", "requests %v", f.requests)
									}
									if _, err := os.Stat(root + "/home"); err == nil {
										t.Failf("cache", "a cache was made: %v", core.Snapshot(root+"/home"))
									}
								}
								if d := core.DiffSnapshots(before, core.Snapshot(root+"/w")); len(d) != 0 {
									t.Failf("outside", "%v changed %v", args, d)
								}
							})
						}
					}
				}
			}
		}
	}
}

type deleteKase struct {
	Part string
	Args []string
	Env  string
	XDG  string
	Home string
	Cwd  string
}

// deletes are run as a user who may delete nothing but the files of the case.
func deletes(w *core.W) {
	for _, args := range [][]string{{"cache", "delete"}, {"cache", "delete", "--cache-path", "$/flag"}, {"cache", "delete", "."}, {"cache", "update"}, {"compile"}} {
		for _, env := range []string{"-", "", "$/env", "$", "rel", "."} {
			for _, xdg := range []string{"-", "", "$/xdg", "$/empty", "$/xdg/"} {
				for _, home := range []string{"-", "", "$/home", "$/empty"} {
					for _, cwd := range []string{"w", "w/d", "xdg/prototool", "home"} {
						if !w.Thorough() && cwd != "w" && env != "-" && env != "." {
							continue
						}
						args, env, xdg, home, cwd := args, env, xdg, home, cwd
						w.Case(deleteKase{"delete", args, env, xdg, home, cwd}, func(t *core.T) {
							root := w.Fresh("t")
							cache := map[string]string{"Linux/x86_64/protobuf/3.11.0/bin/protoc": "#!/bin/sh\necho libprotoc 3.11.0\n", "Linux/x86_64/protobuf/3.11.0.lock": "", "Linux/x86_64/protobuf/3.5.0/readme": "x", "other/file": "y"}
							core.Write(root, map[string]string{"w/prototool.yaml": "", "w/d/a.proto": "syntax = \"proto3\";\npackage a;\n", "empty/": "", "xdg/other/x": "x", "xdg/prototool2/x": "x", "home/x": "x", "home/.cache/x": "x", "home/prototool/x": "x", "prototool/x": "x", "rel/x": "x"})
							for _, d := range []string{"xdg/prototool", "home/.cache/prototool", "env", "flag", "w/rel", "w", "w/protobuf"} {
								core.Write(path.Join(root, d), cache)
							}
							give(root)
							sub := func(s string) string { return strings.Replace(s, "$", root, 1) }
							self, err := os.Executable()
							core.Internal(err)
							vars := map[string]string{}
							cmd := exec.Command(self)
							cmd.Env = []string{"VERIF_CHILD=1", "PATH=/usr/bin:/bin", "TMPDIR=" + root + "/empty"}
							for n, s := range map[string]string{"PROTOTOOL_CACHE_PATH": env, "XDG_CACHE_HOME": xdg, "HOME": home} {
								if s != "-" {
									vars[n] = sub(s)
									cmd.Env = append(cmd.Env, n+"="+sub(s))
								}
							}
							for _, a := range args {
								cmd.Args = append(cmd.Args, sub(a))
							}
							cmd.Dir = path.Join(root, cwd)
							cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
							before := core.Snapshot(root)
							out, err := cmd.CombinedOutput()
							if _, exited := err.(*exec.ExitError); err != nil && !exited {
								core.Internal(err)
							}
							w.Count("runs", 1)
							w.Nontrivial(fmt.Sprint(args, env, xdg, home, cwd))
							after := core.Snapshot(root)
							gone := ""
							switch {
							case vars["XDG_CACHE_HOME"] != "":
								gone = path.Join(vars["XDG_CACHE_HOME"], "prototool")
							case vars["HOME"] != "":
								gone = vars["HOME"] + "/.cache/prototool"
							}
							deletes := len(args) == 2 && args[1] == "delete"
							if deletes && (err == nil) != (gone != "") || !deletes && args[1%len(args)] == "delete" && err == nil {
								t.Failf("exit", "%v: %v: %s", args, err, out)
							}
							for f := range before {
								p := path.Join(root, f)
								in := deletes && gone != "" && (p == gone || strings.HasPrefix(p, gone+"/"))
								if _, has := after[f]; has == in {
									if in {
										t.Failf("stays", "%s is not deleted", f)
									} else {
										t.Failf("deleted", "%v deleted %s", args, f)
									}
								}
							}
							if args[1%len(args)] == "delete" {
								for f := range after {
									if _, had := before[f]; !had || before[f] != after[f] {
										t.Failf("written", "%v wrote %s", args, f)
									}
								}
							}
						})
					}
				}
			}
		}
	}
}

// packed is a protoc that says where it is from.
func packed(url string) []byte {
	v := "9.9.9"
	if i := strings.Index(url, "/protoc-"); i >= 0 {
		v = strings.TrimSuffix(url[i+len("/protoc-"):], "-linux-x86_64.zip")
	}
	return packScript("#!/bin/sh\nif [ \"$1\" = --version ]; then\n  echo libprotoc " + v + "\nelse\n  echo 'a.proto:1:1: ran " + url + ".' >&2\n  exit 1\nfi\n")
}

type historyKase struct {
	Part  string
	Place string
	Steps []string
}

// histories are sequences of commands that need different protocs.
func histories(w *core.W) {
	type step struct {
		name string
		args []string
		url  string
	}
	steps := []step{
		{"default", []string{"compile"}, strings.TrimPrefix(release("3.11.0", "3.11.0"), "GET ")},
		{"3.8.0", []string{"compile", "--config-data", `{"protoc":{"version":"3.8.0"}}`}, strings.TrimPrefix(release("3.8.0", "3.8.0"), "GET ")},
		{"candidate", []string{"compile", "--config-data", `{"protoc":{"version":"3.8.0-rc-1"}}`}, strings.TrimPrefix(release("3.8.0-rc-1", "3.8.0-rc1"), "GET ")},
		{"url", []string{"compile", "--protoc-url", "http://mirror/protoc.zip"}, "http://mirror/protoc.zip"},
		{"url with version", []string{"compile", "--protoc-url", "http://mirror/protoc.zip", "--config-data", `{"protoc":{"version":"3.8.0"}}`}, "http://mirror/protoc.zip"},
		{"other url", []string{"compile", "--protoc-url", "http://mirror/protoc.zip?3.11.0"}, "http://mirror/protoc.zip?3.11.0"},
		{"release as url", []string{"compile", "--protoc-url", strings.TrimPrefix(release("3.8.0", "3.8.0"), "GET ")}, strings.TrimPrefix(release("3.8.0", "3.8.0"), "GET ")},
		{"update", []string{"cache", "update"}, strings.TrimPrefix(release("3.11.0", "3.11.0"), "GET ")},
		{"update 3.8.0", []string{"cache", "update", "--config-data", `{"protoc":{"version":"3.8.0"}}`}, strings.TrimPrefix(release("3.8.0", "3.8.0"), "GET ")},
		{"delete", []string{"cache", "delete"}, ""},
	}
	var lists [][]int
	depth := 3
	if w.Thorough() {
		depth = 5
	}
	var grow func(l []int)
	grow = func(l []int) {
		if len(l) == depth {
			lists = append(lists, l)
			return
		}
		for i := range steps {
			grow(append(append([]int{}, l...), i))
		}
	}
	grow(nil)
	for _, place := range []string{"home", "flag"} {
		for _, list := range lists {
			if place == "flag" && w.Thorough() && list[0] != 0 {
				continue
			}
			list, place := list, place
			k := historyKase{Part: "history", Place: place}
			for _, i := range list {
				k.Steps = append(k.Steps, steps[i].name)
			}
			w.Case(k, func(t *core.T) {
				root := w.Fresh("t")
				core.Write(root, map[string]string{"w/prototool.yaml": "", "w/a.proto": "syntax = \"proto3\";\npackage a;\n", "tmp/": "", "home/": "", "c/": "", "requests": ""})
				give(root)
				self, err := os.Executable()
				core.Internal(err)
				installed := map[string]bool{}
				for n, i := range list {
					s := steps[i]
					cmd := exec.Command(self)
					cmd.Env = []string{"VERIF_CHILD=1", "VERIF_REQUESTS=" + root + "/requests", "PATH=/usr/bin:/bin", "TMPDIR=" + root + "/tmp", "HOME=" + root + "/home"}
					cmd.Args = append(cmd.Args, s.args...)
					if place == "flag" && s.name != "delete" {
						cmd.Args = append(cmd.Args, "--cache-path", root+"/c")
					}
					cmd.Dir = root + "/w"
					cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
					core.Internal(os.Truncate(root+"/requests", 0))
					cache := core.Snapshot(root + "/home")
					other := core.Snapshot(root + "/c")
					if place == "flag" {
						cache, other = other, cache
					}
					out, err := cmd.CombinedOutput()
					if _, exited := err.(*exec.ExitError); err != nil && !exited {
						core.Internal(err)
					}
					w.Count("runs", 1)
					data, err2 := os.ReadFile(root + "/requests")
					core.Internal(err2)
					now := core.Snapshot(root + "/home")
					otherNow := core.Snapshot(root + "/c")
					if place == "flag" {
						now, otherNow = otherNow, now
					}
					if d := core.DiffSnapshots(other, otherNow); len(d) != 0 && s.name != "delete" {
						t.Failf("elsewhere", "step %d: changed %v", n, d)
					}
					if s.name == "delete" {
						if place == "home" {
							installed = map[string]bool{}
							delete(now, ".cache/")
							if len(now) != 0 {
								t.Failf("stays", "step %d: there is %v", n, now)
							}
						} else if d := core.DiffSnapshots(cache, now); len(d) != 0 {
							t.Failf("deleted", "step %d: %v", n, d)
						}
						if err != nil || len(data) != 0 {
							t.Failf("delete", "step %d: %v, requests %q: %s", n, err, data, out)
						}
						continue
					}
					key := s.url
					for i := range s.args {
						if s.args[i] == "--protoc-url" {
							key = "url " + s.url
						}
					}
					want := ""
					if !installed[key] {
						want = "GET " + s.url + "\n"
					}
					if string(data) != want {
						t.Failf("requests", "step %d: requests %q instead of %q", n, data, want)
					}
					if d := core.DiffSnapshots(cache, now); installed[key] && len(d) != 0 {
						t.Failf("changed", "step %d: changed %v", n, d)
					}
					for f, c := range cache {
						if got, has := now[f]; !has || got != c {
							t.Failf("damaged", "step %d: changed %s", n, f)
						}
					}
					installed[key] = true
					if s.args[0] == "compile" {
						if err == nil || string(out) != "a.proto:1:1:ran "+s.url+".\n" {
							t.Failf("which", "step %d: %v: %s", n, err, out)
						}
					} else if err != nil {
						t.Failf("update", "step %d: %v: %s", n, err, out)
					}
				}
				w.Nontrivial(fmt.Sprint(place, k.Steps))
			})
		}
	}
}
