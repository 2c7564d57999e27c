#!/bin/bash
# check.sh <property-id> [--tier quick|thorough] [--replay FILE]
# Builds the check of the property from /repo's working tree and runs it.
set -u
ID=${1:?usage: check.sh <property-id> [flags]}
shift
export VERIF_DIR
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
bin=$(bash "$VERIF_DIR/build.sh" "$ID") || { echo "build of check $ID failed" >&2; exit 3; }
exec "$bin" "$@"
