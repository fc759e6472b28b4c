#!/usr/bin/env python3
"""probe.py --quiet [ID..]: the same with the edits of refactors.py, where the checks have to stay quiet.
probe.py [-v] [ID|Cxx ..]: applies each probe of probes.py to a scratch copy of /repo, checks that the
stable tests pass, and runs the property's check (a scratch copy of /verif's working tree) against it."""
import sys, os, subprocess, time, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import probes, refactors
quiet = '--quiet' in sys.argv
T = '/tmp/probe'
R, W = f'{T}/repo', f'{T}/verif'
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
os.makedirs(W, exist_ok=True)
shutil.rmtree(R, ignore_errors=True)
sh(f'git -C /repo worktree prune; mkdir -p {R} && git -C /repo archive HEAD | tar -x -C {R} && cp /repo/Cargo.lock {R}/ 2>/dev/null; cd {R} && git init -q && git add -Af && git -c user.name=x -c user.email=x@x commit -qm x')
for d in ('core', 'mc', 'mca', 'stub-async-io'):
    shutil.rmtree(f'{W}/{d}', ignore_errors=True); shutil.copytree(f'{V}/{d}', f'{W}/{d}', ignore=shutil.ignore_patterns('target'))
for f in ('run.sh', 'known-findings.txt'): shutil.copy(f'{V}/{f}', W)
for f in ('run.sh', 'mc/Cargo.toml', 'mca/Cargo.toml', 'core/Cargo.toml'):
    p = f'{W}/{f}'; s = open(p).read(); open(p, 'w').write(s.replace('/repo', R))
def todo():
    for id, prop, edits in refactors.REF if quiet else probes.PROBES:
        if quiet:
            if ids and id not in ids: continue
        elif ids and id not in ids and prop not in ids: continue
        yield id, prop, edits
for id, prop, edits in todo():
    try:
        bad = ''
        for f, old, new in edits:
            p = os.path.join(R, f); s = open(p).read()
            if s.count(old) != 1: bad += f'{f}: {s.count(old)} matches; '
            open(p, 'w').write(s.replace(old, new, 1))
        if bad: print(id, 'BADEDIT', bad, flush=True); continue
        t = sh('cargo test --workspace --no-fail-fast --offline 2>&1', cwd=R, env={**os.environ, 'CARGO_TARGET_DIR': f'{T}/target'})
        if t.returncode:
            comp = 'error' in t.stdout and 'could not compile' in t.stdout
            print(id, 'NOCOMPILE' if comp else 'TESTSFAIL', flush=True)
            if comp: print('\n'.join(l for l in t.stdout.splitlines() if l.startswith('error'))[:600])
            if comp: continue
        t0 = time.time()
        if quiet:
            for pr in prop:
                t0 = time.time()
                r = sh(['timeout', '900', 'bash', f'{W}/run.sh', pr], env={**os.environ, 'VERIF_TIER': 'quick', 'VERIF_SEED': '1'})
                print(id, pr, 'quiet' if r.returncode == 0 else f'ALARM rc={r.returncode}', f'{time.time()-t0:.0f}s', flush=True)
                if r.returncode: print(r.stdout[-1200:], flush=True)
            continue
        r = sh(['timeout', '900', 'bash', f'{W}/run.sh', prop], env={**os.environ, 'VERIF_TIER': 'quick', 'VERIF_SEED': '1'})
        ok = r.returncode == 1 and any(l.startswith(f'VIOLATION property={prop} ') for l in r.stdout.splitlines())
        b = 'plain' if ok and '-plain.json' in r.stdout else ''
        print(id, prop, 'CAUGHT' if ok else f'MISSED rc={r.returncode}', b, f'{time.time()-t0:.0f}s', flush=True)
        if '-v' in sys.argv or (not ok and r.returncode != 0): print(r.stdout[-1500:])
    finally:
        sh(f'git -C {R} checkout -- .')
