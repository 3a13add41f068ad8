#!/bin/bash
# seedcheck.sh ID [PROPERTY ...]: do the checks catch planted bug ID?  Works on scratch copies of /verif and /repo.
id=$1; shift
ROOT=$(cd "$(dirname "$0")/.." && pwd); s=${SEEDDIR:-$ROOT/seeded}/$id
[ $# -eq 0 ] && set -- $(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
W=$(mktemp -d /tmp/seedc.XXXX); trap 'rm -rf "$W"' EXIT
mkdir "$W/repo" "$W/verif"
(cd /repo && tar c --exclude=./target --exclude=./.git .) | tar x -C "$W/repo"
(cd "$ROOT" && tar c --exclude=./.git --exclude=./seeded --exclude=target --exclude=evidence .) | tar x -C "$W/verif"
(cd "$W/repo" && git init -q . && git apply $s/patch.diff) || { echo "$id APPLY FAILED"; exit 1; }
sed -i "s#path = \"/repo\"#path = \"$W/repo\"#" "$W/verif/harness/Cargo.toml"
for p in "$@"; do
  python3 "$W/verif/check.py" $p > "$W/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep 'does not allow' "$W/out" | cut -c1-200)"
  [ $rc = 2 ] && tail -5 "$W/out"
done
