#!/bin/bash
# Warms the build cache; every check builds what it needs from /repo again.
cd "$(dirname "$0")" || exit 1
for d in harness/p[0-9]*; do
  id=$(basename "$d" | tr 'a-z' 'A-Z')
  bash build.sh "$id" >/dev/null || exit 1
done
exit 0
