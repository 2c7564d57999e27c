"""mkseed.py: helper to write /verif/seeded/<id>/ from an edit of /repo and a demo body."""
import os, subprocess, json, shutil, sys
PRE = r'''#!/bin/bash
# exit 0: the property holds; other: it is broken. Everything happens in a scratch directory.
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
export PROTOTOOL_PROTOC_BIN_PATH=/usr/bin/protoc PROTOTOOL_PROTOC_WKT_PATH=/usr/include
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
go build -o "$T/prototool" ./cmd/prototool || exit 98
P="$T/prototool"
mkdir "$T/w" "$T/tmp" && cd "$T/w" || exit 97
export TMPDIR="$T/tmp"
'''
def seed(sid, prop, edits, demo, needs, breaks):
    d = "/verif/seeded/" + sid
    wt = "/tmp/mkseed"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    for path, old, new in edits:
        p = os.path.join(wt, path)
        s = open(p).read()
        assert s.count(old) == 1, (sid, path, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    subprocess.check_call("gofmt -l $(git diff --name-only) | grep . && echo GOFMT || true", shell=True, cwd=wt)
    diff = subprocess.check_output(["git", "diff"], cwd=wt).decode()
    assert diff
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(PRE + demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # none of the changed lines may come from our own commits
    shutil.rmtree(wt)
    print("wrote", sid)
