#!/bin/bash
# build.sh <property-id>: prints the path of the check's binary.
# The harness packages are laid over /repo/internal/verifmc with -overlay; /repo is only read.
set -u
ID=$1
V=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
low=$(echo "$ID" | tr 'A-Z' 'a-z')
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
out="$V/.build/$low"
mkdir -p "$out" || exit 3
python3 - "$V" "$REPO" "$out" "$low" <<'P' || exit 3
import json, os, shutil, subprocess, sys
v, repo, out, low = sys.argv[1:]
rep = {}
for root, dirs, files in os.walk(os.path.join(v, "harness")):
    for f in files:
        if f.endswith(".go"):
            p = os.path.join(root, f)
            rep[os.path.join(repo, "internal", "verifmc", os.path.relpath(p, os.path.join(v, "harness")))] = p
# a check may lay further files over the standard library
extra = os.path.join(v, "harness", low, "overlay.py")
if os.path.exists(extra):
    rep.update(json.loads(subprocess.check_output(["python3", extra, out])))
json.dump({"Replace": rep}, open(os.path.join(out, "overlay.json"), "w"))
shutil.copy(os.path.join(repo, "go.mod"), os.path.join(out, "go.mod"))
shutil.copy(os.path.join(repo, "go.sum"), os.path.join(out, "go.sum"))
P
cd "$REPO" || exit 3
go build -overlay "$out/overlay.json" -modfile "$out/go.mod" -o "$out/fakeprotoc" ./internal/verifmc/fakeprotoc >&2 || exit 3
flags=
[ -f "$V/harness/$low/flags" ] && flags=$(cat "$V/harness/$low/flags")
go build $flags -overlay "$out/overlay.json" -modfile "$out/go.mod" -o "$out/check" "./internal/verifmc/$low" >&2 || exit 3
echo "$out/check"
