#!/usr/bin/env python3
"""Confirms planted bugs: plant.py verify ID...   (scratch copy: build, tests, demo on both trees)
                          plant.py check ID...    (scratch copy used as /repo? no: applies to /repo, runs the check, undoes)"""
import json, os, subprocess, sys, shutil
SEED = '/verif/seeded'
W = '/tmp/plantrepo'

def sh(cmd, cwd=None, timeout=900, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, **kw)

def verify(ids):
    if not os.path.exists(W):
        subprocess.check_call(['cp', '-a', '/repo', W])
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD', W)
    for i in ids:
        d = f'{SEED}/{i}'
        sh('git checkout -q -- .', W)
        r = sh(f'git apply {d}/patch.diff', W)
        if r.returncode: print(i, 'DOES NOT APPLY', r.stderr); continue
        # originals
        removed = orig = 0
        files = sh('git diff --name-only', W).stdout.split()
        for f in files:
            cur = None
            for l in sh(f'git diff -U0 -- {f}', W).stdout.splitlines():
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(',')
                    s, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    if n:
                        b = sh(f'git blame -s -L{s},{s+n-1} HEAD -- {f}', W).stdout.splitlines()
                        removed += n
                        orig += sum('e25a2c9' in x[:10] for x in b)
        env = dict(os.environ, CARGO_TARGET_DIR=W + '/target')
        t = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 2>&1' % W, W)
        res = [l for l in t.stdout.splitlines() if l.startswith('test result')]
        npass = sum(int(l.split()[3]) for l in res)
        warn = [l for l in t.stdout.splitlines() if l.startswith('warning: unused')]
        bad = sh(f'sh {d}/demo.sh', W)
        sh('git checkout -q -- .', W)
        good = sh(f'sh {d}/demo.sh', W)
        ok = t.returncode == 0 and npass >= 17 and bad.returncode not in (0, 98, 99) and good.returncode == 0 and orig > 0
        print(i, 'OK' if ok else 'BAD', f'tests rc={t.returncode} pass={npass} bug-demo={bad.returncode} good-demo={good.returncode} orig={orig}/{removed}', warn[:1])
        if not ok:
            print((t.stdout[-1500:] if t.returncode else '') + '\nBUG:' + bad.stdout[-600:] + bad.stderr[-900:] + '\nGOOD:' + good.stdout[-600:] + good.stderr[-900:])
        else:
            print('    ', bad.stderr.strip()[-200:])

def check(ids, tier='quick'):
    for i in ids:
        d = f'{SEED}/{i}'
        m = json.load(open(f'{d}/meta.json'))
        r = sh(f'git apply {d}/patch.diff', '/repo')
        if r.returncode: print(i, 'DOES NOT APPLY'); continue
        try:
            import time; t0 = time.time()
            r = sh(f'VERIF_SEED=1 bash /verif/check.sh {m["property"]} {tier}', '/verif', timeout=1800)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(i, m['property'], 'CAUGHT' if r.returncode == 1 and v else f'MISSED rc={r.returncode}', f'{time.time()-t0:.0f}s', (v or r.stdout.splitlines()[-2:])[:1], flush=True)
        finally:
            sh('git checkout -q -- .', '/repo')

if __name__ == '__main__':
    a = sys.argv[2:] or sorted(os.listdir(SEED))
    {'verify': verify, 'check': check}[sys.argv[1]](a)
