#!/usr/bin/env python3
"""Line coverage of /repo/viennagrid by the checks' generated inputs (gcov).  usage: cov.py OUTDIR [CXX ...]
Writes OUTDIR/CXX.json {file: {line: count}} per check and prints lines instantiated but never executed over all."""
import sys, os, json, subprocess, glob, gzip, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); out = sys.argv[1]; os.makedirs(out, exist_ok=True)
ids = sys.argv[2:] or sorted(os.listdir(V + '/checks'))
for i in ids:
    b = '/tmp/covbuild'; shutil.rmtree(b, ignore_errors=True)
    env = dict(os.environ, VERIF_FLAGS='-O0 --coverage -fprofile-update=atomic -DVH_GCOV', VERIF_BUILD=b, VERIF_EVIDENCE='/tmp/covev')
    r = subprocess.run([sys.executable, V + '/run.py', i, 'quick', '--cases-mult', '0.25'], env=env, capture_output=True, text=True)
    print(i, r.returncode, r.stdout[-200:].strip(), flush=True)
    res = {}
    for g in glob.glob(b + '/' + i + '/*.gcda'):
        j = subprocess.run(['gcov', '-t', '--json-format', g], capture_output=True, cwd=b)
        for doc in j.stdout.decode(errors='replace').splitlines():
            if not doc.strip(): continue
            for f in json.loads(doc)['files']:
                k = f['file'].find('/viennagrid/')
                if not f['file'].startswith('/repo/') or k < 0: continue
                d = res.setdefault(f['file'][6:], {})
                for l in f['lines']: d[l['line_number']] = d.get(l['line_number'], 0) + l['count']
    json.dump(res, open(f'{out}/{i}.json', 'w')); shutil.rmtree(b, ignore_errors=True)
