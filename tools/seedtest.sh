#!/bin/bash
# seedtest.sh ID [nosuite]: in a scratch copy, does the planted bug build, pass the suite, and does its demo tell it apart?
. /opt/vp/env.sh
id=$1; s=${SEEDDIR:-/verif/seeded}/$id
W=$(mktemp -d /tmp/seedt.XXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/r"; cd "$W/r"
bash $s/demo.sh >/dev/null 2>&1; a=$?
git apply $s/patch.diff || { echo "$id APPLY FAILED"; exit 1; }
bash $s/demo.sh >/dev/null 2>$W/err; b=$?
t=skipped
if [ "$2" != nosuite ]; then
 cargo test --workspace --all-features --no-fail-fast --offline > $W/log 2>&1
 t=$(python3 - $W/log <<'P'
import json, re, sys
ok = set(re.findall(r'^test (\S+) .*ok$', open(sys.argv[1]).read(), re.M))
bad = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x.split()[-1] not in ok and x not in ok and x.split('::',1)[-1] not in ok]
print('stable not passing:', bad)
P
)
fi
echo "$id clean=$a bug=$b tests: $t"
