#!/usr/bin/env python3
"""Plants bugs from a spec file (python, BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)]) in a scratch
copy of /repo, validates build + stable tests + demo there and runs the property's quick check against the copy.
usage: plant.py [-j N] SPEC.py [ID ...]      plant.py [-j N] --check [ID ...] (re-run the check against kept bugs)"""
import sys, os, json, subprocess, importlib.util, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R0 = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
DEMO = '''#!/bin/bash
# compiles demo.cpp against the tree in the current directory and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); src=$PWD; d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
g++ -O1 -w -std=c++14 %s-I"$src" "$here/demo.cpp" -o "$d/demo" || exit 3
cd "$d" && timeout 120 ./demo
'''
def clone(w):
    d = tempfile.mkdtemp(prefix='plant-'); R = d + '/repo'
    sh(f'git clone -q {R0} {R}'); 
    for f in ('build.sh', 'test.sh'):
        t = open('/opt/vp/' + f).read().replace('/repo', R).replace('/opt/vp/build.sh', d + '/build.sh'); open(f'{d}/{f}', 'w').write(t)
    return d, R
def tests(d):
    r = sh(f'bash {d}/build.sh tests/all')
    if r.returncode: return 'BUILD FAILED ' + '\n'.join([l for l in r.stdout.splitlines() if 'error' in l][:3])
    sh(f'bash {d}/test.sh {d}/t.json'); b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open(d + '/t.json'))
    miss = set(map(str, b['stable'] if 'stable' in b else b['passed'])) - set(map(str, t['passed']))
    return 'tests ok' if not miss else f'TESTS FAIL {sorted(miss)[:4]}'
def check(prop, d, R):
    r = sh(f'python3 {V}/run.py {prop} quick', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_REPO=R, VERIF_BUILD=d + '/b'))
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return r.returncode, v, [l[:200] for l in (r.stdout + r.stderr).splitlines() if 'fail' in l.lower() or 'error' in l.lower()][:2]
def one_check(i):
    d, R = clone(i)
    try:
        p = f'{V}/seeded/{i}'; m = json.load(open(p + '/meta.json')); r = sh(f'git -C {R} apply {p}/patch.diff')
        if r.returncode: return f'{i}: patch does not apply'
        rc, v, det = check(m['property'], d, R); return f"{i:34s} {m['property']} {'CAUGHT' if rc == 1 and v else 'MISSED'} {det[:1]}"
    finally: shutil.rmtree(d)
def one(b):
    d, R = clone(b['id'])
    try:
        p = f"{V}/seeded/{b['id']}"; os.makedirs(p, exist_ok=True)
        open(p + '/demo.cpp', 'w').write(b['demo']); open(p + '/demo.sh', 'w').write(DEMO % (b.get('flags', '') and b['flags'] + ' '))
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(p + '/meta.json', 'w'), indent=1)
        good = sh(f'bash {p}/demo.sh', cwd=R); out = ''
        for f, old, new in b['edits']:
            t = open(f'{R}/{f}').read()
            if t.count(old) != 1: return f"{b['id']}: edit of {f} matches {t.count(old)} times"
            open(f'{R}/{f}', 'w').write(t.replace(old, new))
        open(p + '/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
        bad = sh(f'bash {p}/demo.sh', cwd=R); t = tests(d); rc, v, det = check(b['prop'], d, R)
        out = f"{b['id']:34s} {b['prop']} demo good={good.returncode} bad={bad.returncode} {t} check rc={rc} {'CAUGHT' if rc == 1 and v else 'MISSED'} {det[:1]}"
        if good.returncode or bad.returncode in (0, 3): out += '\n' + good.stdout[-300:] + good.stderr[-800:] + bad.stdout[-300:] + bad.stderr[-800:]
        if good.returncode or bad.returncode in (0, 3) or t != 'tests ok': out += '   (not kept)'; shutil.rmtree(p)
        return out
    finally: shutil.rmtree(d)
def main():
    a = sys.argv[1:]; j = 2
    if a[0] == '-j': j = int(a[1]); a = a[2:]
    with cf.ThreadPoolExecutor(j) as ex:
        if a[0] == '--check':
            ids = a[1:] or sorted(os.listdir(V + '/seeded')); fs = [ex.submit(one_check, i) for i in ids]
        else:
            sp = importlib.util.spec_from_file_location('spec', a[0]); mod = importlib.util.module_from_spec(sp); sp.loader.exec_module(mod)
            fs = [ex.submit(one, b) for b in mod.BUGS if not a[1:] or b['id'] in a[1:]]
        for f in cf.as_completed(fs): print(f.result(), flush=True)
main()
