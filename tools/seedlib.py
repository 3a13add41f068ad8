"""Writes /verif/seeded/<id>/ from an edit of /repo and a demonstration program; used by hand only."""
import os, subprocess, json, shutil, tempfile
DEMO = r'''#!/bin/bash
# cwd: a checkout of hmath. Exit 0 when the behaviour is right.
export PATH=/root/.cargo/bin:/usr/local/bin:$PATH RUSTUP_TOOLCHAIN=stable
HERE=$(cd "$(dirname "$0")" && pwd)
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
F="--edition 2021 -C opt-level=1 -C debug-assertions=on -C overflow-checks=on -A warnings"
rustc $F --crate-type rlib --crate-name hmath src/lib.rs -o "$D/libhmath.rlib" || exit 2
rustc $F "$HERE/demo.rs" --extern hmath="$D/libhmath.rlib" -o "$D/demo" || exit 2
timeout 120 "$D/demo"
'''
def seed(id, prop, edits, needs, breaks, demo):
    d = os.environ.get('SEEDDIR', '/verif/seeded') + '/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
        for f, old, new in edits:
            p = w + '/r/src/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        subprocess.call(['git', '-C', '/repo', 'worktree', 'remove', '--force', w + '/r'])
        shutil.rmtree(w)
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    body = demo if 'fn main' in demo else 'fn main() {\n' + demo.strip('\n') + '\n}\n'
    open(d + '/demo.rs', 'w').write('use hmath::*;\n\n' + body)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
