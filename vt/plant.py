#!/usr/bin/env python3
"""Authoring tool for planted bugs (not used by any check).

  plant.py add BUGS.py      confirm each bug of BUGS.py in a scratch copy of /repo and store it under /verif/seeded
  plant.py scan [ID..]      apply each in the scratch copy and run the conformance part of its check there
  plant.py detect [ID..]    apply each stored bug to /repo in turn, run the check of its property, restore the tree
"""
import json, os, shutil, subprocess, sys, runpy, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = V + '/seeded'
W = '/tmp/plant'
DEMO = '''#!/bin/bash
# cwd: the source tree, already built by build.sh. exit 0: behaves as it should.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 99
trap 'rm -rf "$out"' EXIT
clang++-18 -std=c++17 -g -O1 %s -Icode/include "$here/demo.cc" code/src/*.cc -o "$out/demo" || exit 98
cd "$out" && timeout 120 ./demo
'''


def sh(*a, cwd=None, **k):
    return subprocess.run(a, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh():
    os.makedirs(W, exist_ok=True)
    # Only differing files are written, with a new time stamp, so that ninja notices.
    for r, ds, fs in os.walk('/repo'):
        ds[:] = [d for d in ds if d != '_build' and not (r != '/repo' and d == '.git')]
        t = W + r[5:]
        os.makedirs(t, exist_ok=True)
        for f in fs:
            if os.path.islink(f'{r}/{f}'): continue
            c = open(f'{r}/{f}', 'rb').read()
            if not os.path.exists(f'{t}/{f}') or open(f'{t}/{f}', 'rb').read() != c:
                open(f'{t}/{f}', 'wb').write(c)


def build():
    e = dict(os.environ, CC='clang-18', CXX='clang++-18')
    r = sh('bash', '-c', 'cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DLIBSWOC_TEST=ON && ninja -C _build', cwd=W, env=e)
    return r.returncode == 0, r.stdout[-1500:]


def tests():
    shutil.rmtree(W + '/_build/vp_tmp', ignore_errors=True)
    r = sh('python3', '/opt/vp/run_catch.py', '_build/unit_tests/test_libswoc', '_build/vp_tmp', '_build/vp_results.txt', cwd=W)
    return '119 of 119' in r.stdout, r.stdout[-600:]


def demo(d):
    tmp = '/tmp/plant_demo'
    shutil.rmtree(tmp, ignore_errors=True)
    shutil.copytree(d, tmp)
    r = sh('bash', tmp + '/demo.sh', cwd=W, timeout=300)
    return r.returncode, r.stdout[-1500:]


def add(path):
    bugs = runpy.run_path(path)['BUGS']
    for b in bugs:
        d = f'{SEED}/{b["id"]}'
        fresh()
        for f, old, new in b['edits']:
            s = open(f'{W}/{f}').read()
            if s.count(old) != 1:
                print(b['id'], 'edit matches', s.count(old), 'times', f); break
            open(f'{W}/{f}', 'w').write(s.replace(old, new))
        else:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            diff = sh('git', 'diff', cwd=W).stdout
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.cc', 'w').write(b['demo'].lstrip())
            open(d + '/demo.sh', 'w').write(b.get('demo_sh') or DEMO % b.get('flags', '-fsanitize=address'))
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
            ok, o = build()
            if not ok: print(b['id'], 'DOES NOT BUILD', o); shutil.rmtree(d); continue
            ok, o = tests()
            if not ok: print(b['id'], 'TESTS FAIL', o); shutil.rmtree(d); continue
            rc, o = demo(d)
            if rc == 0 or rc >= 98: print(b['id'], 'demo with patch rc', rc, o); shutil.rmtree(d); continue
            fresh()
            rc2, o2 = demo(d)
            if rc2: print(b['id'], 'demo on unchanged tree rc', rc2, o2); shutil.rmtree(d); continue
            print(b['id'], 'planted; patched demo rc', rc, o.strip().splitlines()[-1:] )


def detect(ids):
    ids = ids or sorted(os.listdir(SEED))
    assert not sh('git', '-C', '/repo', 'status', '--porcelain').stdout.strip()
    for i in ids:
        m = json.load(open(f'{SEED}/{i}/meta.json'))
        r = sh('git', '-C', '/repo', 'apply', f'{SEED}/{i}/patch.diff')
        if r.returncode: print(i, 'PATCH FAILS', r.stdout); continue
        try:
            t = time.time()
            r = sh('python3', V + '/vt/run.py', m['property'], '--tier', 'quick', cwd=V)
            hit = r.returncode == 1 and f'VIOLATION property={m["property"]}' in r.stdout
            print(i, m['property'], 'CAUGHT' if hit else f'MISSED rc={r.returncode}', f'{time.time()-t:.0f}s', flush=True)
            if not hit: print(r.stdout[-800:])
        finally:
            sh('git', '-C', '/repo', 'checkout', '--', '.')


def scan(ids):
    """As detect, in the scratch copy (conformance only)."""
    for i in ids or sorted(os.listdir(SEED)):
        m = json.load(open(f'{SEED}/{i}/meta.json'))
        fresh()
        r = sh('git', 'apply', f'{SEED}/{i}/patch.diff', cwd=W)
        if r.returncode: print(i, 'PATCH FAILS', r.stdout); continue
        t = time.time()
        r = sh('python3', V + '/vt/run.py', m['property'], '--tier', 'quick', '--conf-only', cwd=V, env=dict(os.environ, VT_REPO=W))
        hit = r.returncode == 1 and f'VIOLATION property={m["property"]}' in r.stdout
        print(i, m['property'], 'CAUGHT' if hit else f'MISSED rc={r.returncode}', f'{time.time()-t:.0f}s', flush=True)
        if not hit: print(r.stdout[-800:])
    fresh()


{'scan': lambda: scan(sys.argv[2:]), 'add': lambda: add(sys.argv[2]), 'detect': lambda: detect(sys.argv[2:])}[sys.argv[1]]()
