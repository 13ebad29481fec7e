#!/usr/bin/env python3
"""mkseed.py [ID...]: builds /verif/seeded/<id>/ from tools/seeds.py, confirming each in a scratch copy of /repo:
the change builds, the stable tests still pass, the demonstration fails with it and passes without it."""
import os, sys, json, subprocess, shutil, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from seeds import SEEDS
W = '/tmp/seedrepo'
def sh(c, **k): return subprocess.run(['bash', '-c', c], capture_output=True, text=True, **k)
def script(name):
    s = open(f'/opt/vp/{name}').read().replace('/opt/vp/logs', '/tmp/seedlogs').replace('cd /repo', f'cd {W}')
    p = f'/tmp/seed-{name}'; open(p, 'w').write(s); return p
def prep():
    if not os.path.exists(W): sh(f'cp -a /repo {W}')
    sh(f'cd {W} && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
DEMO = '''#!/bin/bash
# Exit 0: the property's demonstration passes; run with the repository as working directory.
set -u
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir "$D/src" && cp "$H/main.rs" "$D/src/main.rs" && cp "$H/Cargo.lock.in" "$D/Cargo.lock" || exit 2
cat > "$D/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
elinor = { path = "$R", features = ["serde"] }
ordered-float = "4.2.2"
serde_json = "1.0.128"
[workspace]
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$D/target" RUSTUP_TOOLCHAIN=stable
cd "$D" && cargo build --offline -q || exit 2
exec_out=$(timeout 120 ./target/debug/demo 2>&1); rc=$?
echo "$exec_out"
exit $rc
'''
CLIDEMO = '''#!/bin/bash
# Exit 0: the property's demonstration passes; run with the repository (built) as working directory.
set -u
R=$PWD
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
B=$R/target/debug
'''
def lock():
    """lock file of the demonstration crate, derived from the replay harness's"""
    s = open(os.path.join(V, 'replay/Cargo.lock')).read()
    return s.replace('name = "replay"', 'name = "demo"').replace(' "statrs",\n]\n\n[[package]]\nname = "simba"', ' "statrs",\n]\n\n[[package]]\nname = "simba"')
ids = sys.argv[1:] or list(SEEDS)
stable = json.load(open('/opt/vp/BASELINE.json'))
stable = set(stable if isinstance(stable, list) else stable.get('passed') or stable.get('stable'))
for i in ids:
    s = SEEDS[i]; d = os.path.join(V, 'seeded', i)
    prep()
    for f, a, b in s['edits']:
        p = os.path.join(W, f); t = open(p).read()
        if t.count(a) != 1: print(i, 'EDIT', f, t.count(a), repr(a[:60])); break
        open(p, 'w').write(t.replace(a, b))
    else:
        diff = sh(f'cd {W} && git diff').stdout
        r = sh(f'bash {script("build.sh")}')
        if r.returncode: print(i, 'BUILD FAILS', r.stderr[-1500:]); continue
        sh(f'bash {script("test.sh")} /tmp/seed-out.json')
        o = json.load(open('/tmp/seed-out.json')); ok = set(o['passed'])
        bad = sorted(stable - ok)
        if bad: print(i, 'TESTS FAIL', bad[:5]); continue
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if 'sh' in s: open(d + '/demo.sh', 'w').write(CLIDEMO + s['sh'])
        else:
            open(d + '/demo.sh', 'w').write(DEMO); open(d + '/main.rs', 'w').write(s['main'])
            shutil.copy(os.path.join(V, 'tools/demo.lock'), d + '/Cargo.lock.in')
        os.chmod(d + '/demo.sh', 0o755)
        r1 = sh(f'cd {W} && {d}/demo.sh')
        prep()
        if 'sh' in s: sh(f'bash {script("build.sh")}')
        r0 = sh(f'cd {W} && {d}/demo.sh')
        good = r0.returncode == 0 and r1.returncode not in (0, 2)
        print(i, 'ok' if good else f'DEMO unchanged={r0.returncode} patched={r1.returncode} {(r0.stdout + r0.stderr)[-800:]} {(r1.stdout + r1.stderr)[-800:]}')
        if not good: shutil.rmtree(d)
