//go:build go1.22

package core

import (
	"bytes"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/uber/prototool/internal/cmd"
)

// System protoc.
const (
	ProtocBin = "/usr/bin/protoc"
	ProtocWKT = "/usr/include"
)

// UseSystemProtoc points prototool at the system protoc.
func UseSystemProtoc() {
	_ = os.Setenv("PROTOTOOL_PROTOC_BIN_PATH", ProtocBin)
	_ = os.Setenv("PROTOTOOL_PROTOC_WKT_PATH", ProtocWKT)
}

// Result is the outcome of one command.
type Result struct {
	Out  string
	Err  string
	Code int
}

// CLI runs the command in-process in the given directory.
func CLI(dir string, args ...string) Result {
	return CLIStdin(dir, nil, args...)
}

// CLIStdin is CLI with stdin.
func CLIStdin(dir string, stdin []byte, args ...string) Result {
	if err := os.Chdir(dir); err != nil {
		Internal(err)
	}
	var out, errb bytes.Buffer
	code := cmd.Do(args, bytes.NewReader(stdin), &out, &errb)
	return Result{Out: out.String(), Err: errb.String(), Code: code}
}

// Lines returns the non-empty lines of the output.
func (r Result) Lines() []string {
	var out []string
	for _, l := range strings.Split(r.Out, "\n") {
		if l != "" {
			out = append(out, l)
		}
	}
	return out
}

// Fresh empties and returns the directory name under the scratch directory.
func (w *W) Fresh(name string) string {
	dir := filepath.Join(w.Scratch, name)
	_ = os.Chdir(w.Scratch)
	Internal(os.RemoveAll(dir))
	Internal(os.MkdirAll(dir, 0755))
	return dir
}

// Write writes the files (slash separated relative path to content); a path
// ending in / is a directory.
func Write(dir string, files map[string]string) {
	for name, content := range files {
		path := filepath.Join(dir, name)
		if strings.HasSuffix(name, "/") {
			Internal(os.MkdirAll(path, 0755))
			continue
		}
		Internal(os.MkdirAll(filepath.Dir(path), 0755))
		Internal(ioutil.WriteFile(path, []byte(content), 0644))
	}
}

// Snapshot returns every file below dir with content (directories end in /).
func Snapshot(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if rel == "." {
			return nil
		}
		if info.IsDir() {
			out[rel+"/"] = ""
			return nil
		}
		data, rerr := ioutil.ReadFile(p)
		if rerr != nil {
			out[rel] = "unreadable: " + rerr.Error()
			return nil
		}
		out[rel] = string(data)
		return nil
	})
	return out
}

// DiffSnapshots returns the paths that differ.
func DiffSnapshots(a, b map[string]string) []string {
	var out []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			out = append(out, "-"+k)
		} else if v != w {
			out = append(out, "~"+k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			out = append(out, "+"+k)
		}
	}
	sort.Strings(out)
	return out
}

// TempEntries lists what is in the worker's temporary directory.
func TempEntries() []string {
	entries, err := ioutil.ReadDir(os.Getenv("TMPDIR"))
	if err != nil {
		return []string{err.Error()}
	}
	var out []string
	for _, e := range entries {
		out = append(out, e.Name())
	}
	return out
}

// CleanTemp empties the worker's temporary directory.
func CleanTemp() {
	dir := os.Getenv("TMPDIR")
	if !strings.Contains(dir, "/verif-") {
		return
	}
	for _, e := range TempEntries() {
		_ = os.RemoveAll(filepath.Join(dir, e))
	}
}

// Subsets calls f with every subset of 0..n-1 having at most max elements, as a bit mask.
func Subsets(n, max int, f func(mask int)) {
	for m := 0; m < 1<<uint(n); m++ {
		c := 0
		for b := m; b != 0; b &= b - 1 {
			c++
		}
		if c <= max {
			f(m)
		}
	}
}

// Product calls f with every vector v, 0 <= v[i] < dims[i].
func Product(dims []int, f func(v []int)) {
	v := make([]int, len(dims))
	for {
		f(v)
		i := len(dims) - 1
		for ; i >= 0; i-- {
			v[i]++
			if v[i] < dims[i] {
				break
			}
			v[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Permutations calls f with every permutation of 0..n-1.
func Permutations(n int, f func(p []int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for j := 0; j < n; j++ {
			if !used[j] {
				used[j] = true
				p[i] = j
				rec(i + 1)
				used[j] = false
			}
		}
	}
	rec(0)
}

// Equal compares string slices.
func Equal(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Sorted returns a sorted copy.
func Sorted(a []string) []string {
	b := append([]string(nil), a...)
	sort.Strings(b)
	return b
}
