#!/usr/bin/env python3
"""Says for each planted bug whether the lines it removes come from the original repository (blame against BASE)."""
import os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); BASE = '609d3a6'
for i in sorted(os.listdir(V + '/seeded')):
    f = None; n = 0; own = []; tot = 0; ctxown = 0
    for l in open(f'{V}/seeded/{i}/patch.diff'):
        if l.startswith('+++ b/'): f = l[6:].strip(); b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', f'{BASE}..HEAD', '--', f], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('---') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-'):
            tot += 1
            if not b[n-1].startswith('^'): own.append((f, n))
            n += 1
        elif not l.startswith('+'): n += 1
    print(f'{i:36s} removes {tot} lines, {len(own)} not original', own[:3])
