#!/usr/bin/env python3
"""Makes and validates the planted bugs of seeded/.
  plant.py gen [ID..]     bugs.py -> seeded/ID/{patch.diff,meta.json,demo.sh,main.rs}
  plant.py valid [ID..]   in a scratch copy of /repo: build, stable tests, demo without and with the patch
  plant.py catch [ID..]   apply to /repo, run the property's check (quick), undo
"""
import sys, os, json, subprocess, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
S = os.path.join(V, 'seeded')

def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 when the behaviour is right, non-zero otherwise.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock" 2>/dev/null
cat >"$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
uwuhi = { path = "$R" }
log = "0.4"
%s
[workspace]
EOF
cd "$T" || exit 2
CARGO_TARGET_DIR="$T/target" cargo build -q --offline 2>"$T/log" || { tail -20 "$T/log"; exit 3; }
timeout 60 "$T/target/debug/demo"
'''

def gen(ids):
    import bugs
    for b in bugs.BUGS:
        if ids and b['id'] not in ids: continue
        d = os.path.join(S, b['id']); os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix='plant-')
        sh(f'git -C /repo archive HEAD | tar -x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x')
        for f, old, new in b['edits']:
            p = os.path.join(t, f); s = open(p).read()
            n = s.count(old)
            if n < 1: raise SystemExit(f"{b['id']}: {f}: {n} matches of {old!r}")
            if n > 1 and not b.get('first'): raise SystemExit(f"{b['id']}: {f}: {n} matches of {old!r}")
            open(p, 'w').write(s.replace(old, new, 1))
        diff = sh(f'git -C {t} diff').stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = 'uwuhi-async = { path = "$R/uwuhi-async" }\nfutures-lite = "2.3.0"\nasync-io = "2.3.2"' if b.get('async') else ''
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % a); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'main.rs'), 'w').write(bugs.PRELUDE + b['demo'])
        shutil.rmtree(t)
        # every removed line must come from the original repository
        for f in {e[0] for e in b['edits']}:
            own = sh(f'git -C /repo blame -s {f}').stdout.splitlines()
        print('gen', b['id'])

def baseline():
    j = json.load(open('/opt/vp/BASELINE.json'))
    return j

def valid(ids):
    t = '/tmp/plantrepo'
    shutil.rmtree(t, ignore_errors=True)
    sh(f'cp -a /repo {t}')
    try:
        for i in ids or sorted(os.listdir(S)):
            d = os.path.join(S, i)
            r0 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=t)
            a = sh(['git', '-C', t, 'apply', os.path.join(d, 'patch.diff')])
            if a.returncode: print(i, 'PATCH FAILS', a.stdout); continue
            b = sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1', cwd=t)
            oks = b.stdout.count(' ... ok'); bad = b.stdout.count('FAILED') + b.stdout.count('error')
            r1 = sh(['bash', os.path.join(d, 'demo.sh')], cwd=t)
            sh(['git', '-C', t, 'checkout', '--', '.'])
            good = r0.returncode == 0 and r1.returncode not in (0, 2, 3) and b.returncode == 0
            print(i, 'OK' if good else 'BAD', 'demo', r0.returncode, r1.returncode, 'tests', b.returncode, oks, bad, flush=True)
            if not good or '-v' in sys.argv: print(r0.stdout[-1500:], '\n--\n', r1.stdout[-1500:], '\n--\n', b.stdout[-1500:] if b.returncode else '')
    finally:
        shutil.rmtree(t, ignore_errors=True)

def catch(ids, extra=()):
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    for i in ids or sorted(os.listdir(S)):
        d = os.path.join(S, i); p = json.load(open(os.path.join(d, 'meta.json')))['property']
        a = sh(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')])
        if a.returncode: print(i, 'PATCH FAILS', a.stdout); continue
        try:
            for c in [p, *extra]:
                t0 = time.time()
                r = sh(['timeout', '900', 'bash', os.path.join(V, 'run.sh'), c], env={**os.environ, 'VERIF_TIER': 'quick', 'VERIF_SEED': '1'})
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                ok = r.returncode == 1 and any(f'property={c} ' in l for l in v)
                print(i, c, 'CAUGHT' if ok else f'missed rc={r.returncode}', f'{time.time()-t0:.0f}s', flush=True)
                if not ok or '-v' in sys.argv: print(r.stdout[-1200:])
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])

cmd, *ids = [a for a in sys.argv[1:] if a != '-v']
{'gen': gen, 'valid': valid, 'catch': catch}[cmd](ids)
