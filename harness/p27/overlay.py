"""overlay.py OUT: copies of the functions of the Go standard library that look at the file system,
with a hook that the check uses as a clock (every operation takes one second of virtual time).
Prints the replacements as JSON."""
import json, os, re, subprocess, sys
out = sys.argv[1]
root = subprocess.check_output(["go", "env", "GOROOT"]).decode().strip()
rep = {}
def read(path):
    return open(os.path.join(root, "src", path)).read()
def write(path, s):
    p = os.path.join(out, path.replace("/", "_"))
    open(p, "w").write(s)
    rep[os.path.join(root, "src", path)] = p
def patch(path, *edits):
    s = read(path)
    for pattern, new in edits:
        s, n = re.subn(pattern, new, s, flags=re.M)
        if n != 1:
            sys.exit("overlay: %s: %r matches %d times" % (path, pattern, n))
    write(path, s)
def hook(op, name, ret):
    return r"\g<0>\tif VerifHook != nil {\n\t\tif err := VerifHook(%s, %s); err != nil {\n\t\t\treturn %s\n\t\t}\n\t}\n" % (op, name, ret)
E = '&PathError{Op: %s, Path: name, Err: err}'
F = '&PathError{Op: %s, Path: f.name, Err: err}'
patch("os/stat.go",
      (r"^func Stat\(name string\).*\{\n", hook('"stat"', "name", "nil, " + E % '"stat"')),
      (r"^func Lstat\(name string\).*\{\n", hook('"lstat"', "name", "nil, " + E % '"lstat"')))
# the checks that f is not nil come first
NIL = r'\{\n\tif err := f.checkValid\("read"\); err != nil \{\n\t\treturn 0, err\n\t\}\n'
patch("os/file.go",
      (r"^func OpenFile\(name string.*\{\n", hook('"open"', "name", "nil, " + E % '"open"')),
      (r"^func \(f \*File\) Read\(b \[\]byte\).*" + NIL, hook('"read"', "f.name", "0, " + F % '"read"')))
NIL = r'\{\n\tif f == nil \{\n\t\treturn nil, ErrInvalid\n\t\}\n'
patch("os/dir.go",
      *[(r"^func \(f \*File\) %s\(n int\).*" % n + NIL, hook('"readdir"', "f.name", "nil, " + F % '"readdirent"')) for n in ("Readdir", "Readdirnames", "ReadDir")])
write("os/verif.go", '''package os

// VerifHook is called before every look at a path.
var VerifHook func(op, name string) error
''')
W = '\\g<0>\tif os.VerifHook != nil {\n\t\tinner := fn\n\t\tfn = func(p string, d %s, err error) error {\n\t\t\t_ = os.VerifHook("call", p)\n\t\t\tdefer func() { _ = os.VerifHook("return", p) }()\n\t\t\treturn inner(p, d, err)\n\t\t}\n\t}\n'
patch("path/filepath/path.go",
      (r"^func WalkDir\(root string, fn fs.WalkDirFunc\) error \{\n", W % "fs.DirEntry"),
      (r"^func Walk\(root string, fn WalkFunc\) error \{\n", W % "fs.FileInfo"))
write("testing/synctest/verif.go", '''package synctest

import "internal/synctest"

// VerifRun runs f with virtual time.
func VerifRun(f func()) { synctest.Run(f) }
''')
print(json.dumps(rep))
