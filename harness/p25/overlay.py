"""overlay.py OUT: copies of the files of the Go runtime that decide the order of map iterations,
with a table that the check controls (the random start of each iteration is replaced by the one asked for).
Prints the replacements as JSON."""
import json, os, subprocess, sys
out = sys.argv[1]
root = subprocess.check_output(["go", "env", "GOROOT"]).decode().strip()
rep = {}
def patch(path, *edits):
    s = open(os.path.join(root, "src", path)).read()
    for old, new, n in edits:
        if s.count(old) != n:
            sys.exit("overlay: %s: %r occurs %d times" % (path, old, s.count(old)))
        s = s.replace(old, new)
    p = os.path.join(out, path.replace("/", "_"))
    open(p, "w").write(s)
    rep[os.path.join(root, "src", path)] = p
CALL = "\tit.Init(t, m)\n\tit.Next()\n"
HOOK = "\tit.Init(t, m)\n\tif maps.VerifOn != 0 {\n\t\tit.VerifSet(sys.GetCallerPC())\n\t}\n\tit.Next()\n"
patch("runtime/map.go", (CALL, HOOK, 1))
patch("reflect/map.go", (CALL, HOOK, 1))
patch("internal/runtime/maps/map.go", ("m.seed = uintptr(rand())", "m.seed = uintptr(verifSeed())", 4))
p = os.path.join(out, "maps_verif.go")
open(p, "w").write('''package maps

import (
	"internal/runtime/atomic"
	_ "unsafe"
)

// VerifSite is a place that iterates over a map.
type VerifSite struct {
	PC     uintptr
	Count  uint64 // iterations over maps of two entries and more
	Max    uint64 // the number of entries of the largest map
	Offset uint64 // where to start
	Only   uint64 // the number of the iteration that starts there, 0 for all
}

// VerifOn is set if the table is used.
//
//go:linkname VerifOn
var VerifOn uint64

// VerifSeed is the seed of all hashes, if it is not 0.
//
//go:linkname VerifSeed
var VerifSeed uint64

// VerifAll is added to the start of all iterations.
//
//go:linkname VerifAll
var VerifAll uint64

// VerifTable has the places by hash of the program counter.
//
//go:linkname VerifTable
var VerifTable [4096]VerifSite

func verifSeed() uint64 {
	if VerifSeed != 0 {
		return VerifSeed
	}
	return rand()
}

// VerifSet sets the start of the iteration.
//
//go:nosplit
func (it *Iter) VerifSet(pc uintptr) {
	if it.m == nil || it.m.used < 2 {
		return
	}
	it.entryOffset, it.dirOffset = VerifAll, VerifAll
	h := (pc * 0x9e3779b97f4a7c15) >> 40
	for i := uintptr(0); i < 64; i++ {
		s := &VerifTable[(h+i)%4096]
		was := atomic.Loaduintptr(&s.PC)
		if was == 0 && atomic.Casuintptr(&s.PC, 0, pc) {
			was = pc
		} else if was == 0 {
			was = atomic.Loaduintptr(&s.PC)
		}
		if was != pc {
			continue
		}
		n := atomic.Xadd64(&s.Count, 1)
		if m := atomic.Load64(&s.Max); it.m.used > m {
			atomic.Store64(&s.Max, it.m.used)
		}
		if s.Only == 0 || s.Only == n {
			it.entryOffset += s.Offset
			it.dirOffset += s.Offset
		}
		return
	}
}
''')
rep[os.path.join(root, "src", "internal/runtime/maps/verif.go")] = p
print(json.dumps(rep))
