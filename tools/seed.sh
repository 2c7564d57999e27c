#!/bin/bash
# seed.sh <seed-id>: confirms a planted bug in a scratch copy of /repo, and runs the check of its property against it.
set -u
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=/tmp/seed-$1
rm -rf "$D"; cp -a /repo "$D" || exit 1
demo() { rm -rf /tmp/seeddemo-$1; cp -r "$S" /tmp/seeddemo-$1; rm -f /tmp/seeddemo-$1/*.diff /tmp/seeddemo-$1/meta.json; (cd "$D" && timeout 300 bash /tmp/seeddemo-$1/demo.sh >/tmp/seed-demo.log 2>&1); r=$?; rm -rf /tmp/seeddemo-$1; return $r; }
demo $1; a=$?
[ $a = 0 ] || { echo "demo fails on the clean tree:"; tail -5 /tmp/seed-demo.log; }
(cd "$D" && git apply "$S/patch.diff") || { echo "patch does not apply"; exit 1; }
(cd "$D" && go build ./... ) || { echo "does not build"; exit 1; }
demo $1; b=$?
# tests in the copy
sed "s#/repo#$D#g" /opt/vp/test.sh > /tmp/seedtest-$1.sh
(cd "$D" && bash /tmp/seedtest-$1.sh /tmp/seed-$1.json >/dev/null 2>&1)
t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/seed-$1.json'))
p=set(o['passed']);print(len([x for x in b if x not in p]))")
echo "$1 property=$P demo clean=$a patched=$b stable tests failing=$t"
for c in ${2:-$P}; do
VERIF_REPO=$D bash /verif/check.sh $c > /tmp/seed-check.log 2>&1; r=$?
echo "   check $c exit $r: $(grep -c '^VIOLATION' /tmp/seed-check.log) kinds: $(grep 'kind=' /tmp/seed-check.log | sed 's/ *\(kind=[^ ]*\).*/\1/' | sort | uniq -c | tr '\n' ' ')"
done
rm -rf "$D" /tmp/seedtest-$1.sh /tmp/seed-$1.json
