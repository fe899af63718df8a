#!/usr/bin/env python3
"""Makes and confirms planted bugs: seed.py SPEC.py [id ...]   (SPEC defines seed(id, property, needs, breaks, edits, demo))
edits = [(file, old, new)], demo = Rust main. Everything runs in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'seeded')
W = '/tmp/seedwt'
SEEDS = {}
def seed(id, property, needs, breaks, edits, demo, crate='trading-engine', deps=''): SEEDS[id] = (property, needs, breaks, edits, demo, crate, deps)
exec(open(sys.argv[1]).read())
DEMO = '''#!/bin/bash
# Runs demo.rs, beside this file, against the crate in the current directory; everything it writes goes to a scratch directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; S=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$S"' EXIT
mkdir -p "$S/src" "$S/run"; cp "$D/demo.rs" "$S/src/main.rs"; cp "$R/Cargo.lock" "$S/"
cat > "$S/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%CRATE% = { path = "$R/%CRATE%" }
%DEPS%[workspace]
EOF
cd "$S/run" && CARGO_TARGET_DIR="$S/target" cargo build --offline -q --manifest-path "$S/Cargo.toml" 2> "$S/log" || { cat "$S/log"; exit 3; }
timeout 120 "$S/target/debug/demo"
'''
def run(cmd, cwd=W, **k): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def sync():
    r = run(f'mkdir -p {W} && rsync -a --delete --exclude target /repo/ {W}/ 2>/dev/null || (cp -a /repo/. {W}/)', cwd='/')
    run('git checkout -q -- .')
BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ids = sys.argv[2:] or list(SEEDS)
sync()
for i in ids:
    p, needs, breaks, edits, demo, crate, deps = SEEDS[i]
    d = os.path.join(V, i); os.makedirs(d, exist_ok=True)
    run('git checkout -q -- .')
    open(d + '/demo.rs', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO.replace('%CRATE%', crate).replace('%DEPS%', deps)); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=p, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    a = run(f'bash {d}/demo.sh')
    for f, old, new in edits:
        s = open(f'{W}/{f}').read()
        if s.count(old) != 1: print(i, 'EDIT MATCHES', s.count(old), old[:60]); break
        open(f'{W}/{f}', 'w').write(s.replace(old, new))
    else:
        diff = run('git diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        b = run(f'bash {d}/demo.sh')
        t = run(f'. /opt/vp/env.sh; cd {W}; cargo test --workspace --no-run --offline')
        ok = t.returncode == 0
        if ok:
            run('sed "s#/repo#%s#g; s#/opt/vp/work#/tmp/seedwork#; s#^. /opt/vp/env.sh#. /opt/vp/env.sh; cd %s#" /opt/vp/test.sh > /tmp/seedtest.sh; bash /tmp/seedtest.sh /tmp/seedtest.json' % (W, W))
            got = set(json.load(open('/tmp/seedtest.json'))['passed'])
            ok = BASE <= got
            if not ok: print('   lost tests', sorted(BASE - got)[:5])
        good = a.returncode == 0 and b.returncode not in (0, 3) and ok
        print(i, 'OK' if good else 'BAD', 'demo clean', a.returncode, 'demo patched', b.returncode, 'tests', ok, flush=True)
        if not good: print(a.stdout[-800:] if a.returncode else '', b.stdout[-800:], t.stdout[-500:] if t.returncode else '')
    run('git checkout -q -- .')
