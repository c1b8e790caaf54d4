#!/usr/bin/env python3
"""Mutation analysis of the checks: instruments the library files a property is anchored in with many switchable small
faults (mutant schemata: one build, mutant chosen by the environment variable VMUT), runs the property's generated-input
search per mutant and lists those it does not notice.  Needs the line counts of tools/cov.py.
usage: mutate.py COVDIR OUTDIR CXX [FILE-REGEX] [--max N] [--mult X]"""
import sys, os, re, json, random, subprocess, shutil, tempfile, concurrent.futures as cf, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; MAX, MULT = 100000, 1.0
while '--max' in a: i = a.index('--max'); MAX = int(a[i + 1]); del a[i:i + 2]
while '--mult' in a: i = a.index('--mult'); MULT = float(a[i + 1]); del a[i:i + 2]
covd, outd, pid = a[:3]; rx = a[3] if len(a) > 3 else None; os.makedirs(outd, exist_ok=True)
prop = [json.loads(l) for l in open(V + '/properties.jsonl')]; prop = [p for p in prop if p['id'] == pid][0]
cov = {f: {int(l): c for l, c in d.items()} for f, d in json.load(open(f'{covd}/{pid}.json')).items()}
files = [f for f in cov if (re.search(rx, f) if rx else f in prop['anchors']['files'])]
def strip(t):
    def r(m):
        s = m.group(0)
        return s if s[0] in '"\'' else re.sub(r'[^\n]', ' ', s)
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', r, t, flags=re.S)
REL = {'<': ['<='], '>': ['>='], '<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&']}
def alts(x):
    out = []
    for m in re.finditer(r'(?<=\s)(<=|>=|==|!=|&&|\|\||<|>|\+|-|\*|/|%)(?=\s)', x):
        o = m.group(1); sub = REL.get(o) or {'+': ['-'], '-': ['+'], '*': ['/'], '/': ['*'], '%': ['*']}[o]
        for s in sub: out.append(x[:m.start()] + s + x[m.end():])
    for m in re.finditer(r'(==|!=)(?!\s)|(?<!\s)(==|!=)', x): out.append(x[:m.start()] + ('!=' if '==' in m.group(0) else '==') + x[m.end():])
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', x):
        n = int(m.group(1)); out.append(x[:m.start()] + str(n + 1) + x[m.end():])
        if n > 0: out.append(x[:m.start()] + str(n - 1) + x[m.end():])
    for m in re.finditer(r'(?<![\w.])(\d+\.\d*)(?![\w])', x): out.append(x[:m.start()] + str(float(m.group(1)) * 1.5 + 0.5) + x[m.end():])
    for m in re.finditer(r'\b(true|false)\b', x): out.append(x[:m.start()] + ('false' if m.group(1) == 'true' else 'true') + x[m.end():])
    for m in re.finditer(r'\b(min|max)\b(?=\s*\()', x): out.append(x[:m.start()] + ('max' if m.group(1) == 'min' else 'min') + x[m.end():])
    for m in re.finditer(r'(\+=|-=)', x): out.append(x[:m.start()] + ('-=' if m.group(1) == '+=' else '+=') + x[m.end():])
    for m in re.finditer(r'(?<![\w!])!(?=[\w(])', x): out.append(x[:m.start()] + x[m.end():])
    # swap of two arguments
    for m in re.finditer(r'\(\s*([\w\[\]\.]+)\s*,\s*([\w\[\]\.]+)\s*([,)])', x):
        if m.group(1) != m.group(2): out.append(x[:m.start()] + '(' + m.group(2) + ', ' + m.group(1) + m.group(3) + x[m.end():])
    seen = []
    for o in out:
        if o != x and o not in seen: seen.append(o)
    return seen
lmap = {}
muts = []   # (file, line, original, mutated)
def new(f, ln, o, m): muts.append((f, ln, ' '.join(o.split()), ' '.join(m.split()))); return len(muts)
def bal(t, i):   # index after the matching ')' for '(' at i
    d = 0
    while i < len(t):
        if t[i] == '(': d += 1
        elif t[i] == ')':
            d -= 1
            if d == 0: return i + 1
        i += 1
    return -1
def cond(f, ln, c, dead, loop=False):
    if 'operator' in c: return c
    e = '(' + c + ')'
    av = [('(' + x + ')', x) for x in alts(c)] + ([] if loop else [('true', 'true'), ('false', 'false')])
    for code, x in av:
        k = new(f, ln, c, x)
        if k in dead: continue
        e = f'(\n/*M{k}*/ vmut({k}) ? bool({code}) :\n bool({e}))'
    return e
def stmt(f, ln, s, dead):
    st = s.strip()
    if not st or re.match(r'^(typedef|using|friend|template|struct|class|enum|public|private|protected|throw|case|default|static_cast|goto|VIENNAGRID|assert|delete|extern|virtual|inline|namespace|operator)\b', st) or st.startswith(('#', ':', '~')): return s
    if '#' in st: return s
    m = re.match(r'^(return)\b(.*)$', st, re.S)
    if m:
        if not m.group(2).strip(): return s
        body = st + ';'
        for x in alts(m.group(2)):
            k = new(f, ln, st, 'return' + x)
            if k not in dead: body = f'\n/*M{k}*/ if (vmut({k})) return {x}; else\n {body}'
        return '{ ' + body + ' }'
    if st in ('break', 'continue'):
        k = new(f, ln, st, '(removed)'); return s if k in dead else f'if (!vmut({k})) {st}'
    decl = re.match(r'^(?:static\s+|const\s+|typename\s+|unsigned\s+|long\s+)*[A-Za-z_][\w:]*(?:\s*<.*?>)?(?:::\w+)*(?:\s+const)?[\s&*]+(?:const\s+)?([A-Za-z_]\w*)\s*(=|\(|\[|$)', st, re.S)
    if decl and not re.match(r'^(return|else|do)\b', st):
        if decl.group(2) == '=':
            p = decl.end(); e = st[p:]
            if e.strip().startswith('{') or ',' in re.sub(r'\(.*\)|<.*>', '', e, flags=re.S): return s
            r = '(' + e + ')'
            for x in alts(e):
                k = new(f, ln, st, st[:p] + x)
                if k not in dead: r = f'(\n/*M{k}*/ vmut({k}) ? ({x}) :\n {r})'
            return st[:p] + ' ' + r
        return s
    if not re.search(r'[=(]|\+\+|--', st): return s
    body = st + ';'
    for x in alts(st):
        k = new(f, ln, st, x)
        if k not in dead: body = f'\n/*M{k}*/ if (vmut({k})) {{ {x}; }} else\n {{ {body} }}'
    k = new(f, ln, st, '(removed)')
    if k not in dead: body = f'\n/*M{k}*/ if (!vmut({k})) {{\n {body} }}'
    return '{ ' + body + ' }'
def chunk(f, ln, t, term, dead):
    """t: chunk text without terminator (joined); returns mutated text"""
    pre = ''; t0 = t
    while True:
        m = re.match(r'^\s*(else\b|case\s+[\w:]+\s*:(?!:)|default\s*:)', t)
        if m: pre += m.group(0); t = t[m.end():]; continue
        m = re.match(r'^\s*(if|while)\s*\(', t)
        if m:
            e = bal(t, m.end() - 1)
            if e < 0: return t0 + term
            pre += f' {m.group(1)} (' + cond(f, ln, t[m.end():e - 1], dead, m.group(1) == 'while') + ')'; t = t[e:]; continue
        m = re.match(r'^\s*for\s*\(', t)
        if m:
            e = bal(t, m.end() - 1)
            if e < 0: return t0 + term
            p = t[m.end():e - 1].split(';')
            if len(p) != 3: return t0 + term
            i = p[0]
            q = re.match(r'^(.*?=)(.*)$', i, re.S)
            if q and ',' not in i and alts(q.group(2)):
                r = '(' + q.group(2) + ')'
                for x in alts(q.group(2)):
                    k = new(f, ln, t[:e], i.strip() + ' -> ' + q.group(1) + x)
                    if k not in dead: r = f'(\n/*M{k}*/ vmut({k}) ? ({x}) :\n {r})'
                i = q.group(1) + ' ' + r
            pre += ' for (' + i + ';' + (cond(f, ln, p[1], dead, True) if p[1].strip() else '') + ';' + p[2] + ')'; t = t[e:]; continue
        break
    if term == ';': return pre + ' ' + stmt(f, ln, t, dead).rstrip() + ('' if False else ';' if not stmt_wrapped(t, f, ln) else '')
    return pre + t + term
def stmt_wrapped(t, f, ln): return False
def instrument(f, src, dead):
    t = strip(src); c = cov[f]; out = []; i = 0; st = 0; d = 0; line = 1; sl = None; n = len(t)
    infun = 0
    res = []
    pos = 0; start = 0; depth = 0
    lines_at = [0]
    for k, ch in enumerate(t):
        if ch == '\n': lines_at.append(k + 1)
    import bisect
    lno = lambda p: bisect.bisect_right(lines_at, p)
    k = 0
    while k < n:
        ch = t[k]
        if ch == '#' and t[:k].rstrip(' \t').endswith('\n'):   # preprocessor line
            e = t.find('\n', k)
            while t[e - 1] == '\\': e = t.find('\n', e + 1)
            res.append(t[start:e]); start = e; k = e; continue
        if ch in '"\'':
            k += 1
            while t[k] != ch or t[k - 1] == '\\': k += 1
        elif ch == '(': depth += 1
        elif ch == ')': depth -= 1
        elif ch in ';{}' and depth == 0:
            s = t[start:k]; lead = len(s) - len(s.lstrip())
            l0, l1 = lno(start + lead), lno(k)
            ex = any(c.get(l, 0) > 0 for l in range(l0, l1 + 1))
            head = s.lstrip()
            if ex and ch in ';{' and head and not head.startswith(':') and (ch == ';' or re.match(r'^(if|else|for|while)\b', head)) and not re.match(r'^(template|struct|class|typedef)', head):
                body = re.sub(r'\s*\n\s*', ' ', s[lead:])
                r = chunk(f, l0, body, ch, dead)
                if ch == ';' and r.endswith('} ;'): r = r[:-2]
                if ch == ';' and r.endswith('};'): r = r[:-1]
                res.append(s[:lead] + r + '\n' * s[lead:].count('\n'))
            else: res.append(s + ch)
            start = k + 1
        k += 1
    res.append(t[start:]); return ''.join(res)
def build(dead, selected):
    w = tempfile.mkdtemp(prefix='mut-'); 
    shutil.copytree('/repo/viennagrid', w + '/repo/viennagrid'); muts.clear()
    lmap.clear()
    for f in files:
        t = instrument(f, open('/repo/' + f).read(), dead); open(f'{w}/repo/{f}', 'w').write(t)
        for i, l in enumerate(t.split('\n'), 1):
            for m in re.finditer(r'/\*M(\d+)\*/', l): lmap.setdefault((f, i), set()).add(int(m.group(1)))
    open(w + '/vmut.hpp', 'w').write('#pragma once\n#include <cstdlib>\ninline int vmut_cur() { static int v = std::getenv("VMUT") ? std::atoi(std::getenv("VMUT")) : 0; return v; }\ninline bool vmut(int k) { return vmut_cur() == k; }\n')
    cd = f'{V}/checks/{pid}'; srcs = [f'{cd}/{x}' for x in sorted(os.listdir(cd)) if x.endswith('.cpp')] + [V + '/lib/vh_main.cpp']
    fl = ['-std=c++14', '-w', '-fmax-errors=0', f'-I{w}/repo', f'-I{V}/lib', '-include', w + '/vmut.hpp', '-D_GLIBCXX_ASSERTIONS', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer']
    def comp(s):
        o = f'{w}/{os.path.basename(s)}.o'; r = subprocess.run(['g++'] + fl + ['-c', s, '-o', o], capture_output=True, text=True, errors='replace'); return r.returncode, o, r.stderr
    with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(comp, srcs))
    bad = set()
    for rc, o, err in rs:
        if rc:
            for m in re.finditer(re.escape(w) + r'/repo/([\w/\.]+):(\d+):\d+:', err): bad.add((m.group(1), int(m.group(2))))
            if not bad: print(err[:3000])
    if any(r[0] for r in rs): return w, None, bad, rs
    r = subprocess.run(['g++', '-fsanitize=address'] + [x[1] for x in rs] + ['-o', w + '/h'], capture_output=True, text=True)
    if r.returncode: print(r.stderr[:2000]); return w, None, set(), rs
    return w, w + '/h', bad, rs
def main():
    dead = set(); t0 = time.time()
    for it in range(14):
        w, exe, bad, rs = build(dead, None)
        print(f'{pid}: {len(muts)} mutants in {len(files)} files, {len(dead)} dropped, build {time.time() - t0:.0f}s', 'ok' if exe else f'retry ({len(bad)} bad lines)', flush=True)
        if exe: break
        el = set(); al = set()
        for rc, o, err in rs:
            for m in re.finditer(re.escape(w) + r'/repo/([\w/\.]+):(\d+):\d+:( error)?', err):
                al.add((m.group(1), int(m.group(2))))
                if m.group(3): el.add((m.group(1), int(m.group(2))))
        nd = set().union(*[lmap.get(x, set()) for x in el]) or set().union(*[lmap.get(x, set()) for x in al])
        if not nd: nd = set().union(*[v for (f, l), v in lmap.items() if any((f, l + d) in el for d in range(-3, 4))])
        if not nd - dead:
            for rc, o, err in rs:
                if rc: print('\n'.join(l for l in err.splitlines() if 'error' in l)[:2000]); break
            shutil.rmtree(w); return
        dead |= nd; shutil.rmtree(w)
    if not exe: return
    cfg = json.load(open(f'{V}/checks/{pid}/check.json')); cases = int(cfg['cases']['quick'] * MULT)
    env0 = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1500:hard_rss_limit_mb=3500:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:symbolize=0')
    ids = [k for k in range(1, len(muts) + 1) if k not in dead]
    if len(ids) > MAX: random.seed(1); ids = sorted(random.sample(ids, MAX))
    def run(k):
        d = f'{w}/r{k}'; os.makedirs(d)
        try:
            for sh in range(8):
                try: r = subprocess.run([exe, '--run', '--seed=1', f'--cases={cases}', f'--shard={sh}', '--nshards=8', f'--out={d}/o', f'--scratch={d}'], env=dict(env0, VMUT=str(k)), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=d, timeout=240)
                except subprocess.TimeoutExpired: return k, 'timeout'
                if r.returncode: return k, 'killed'
            return k, 'SURVIVED'
        finally: shutil.rmtree(d, ignore_errors=True)
    if run(0)[1] != 'SURVIVED': print('harness fails without mutant'); return
    with cf.ThreadPoolExecutor(8) as ex: res = dict(ex.map(run, ids))
    out = open(f'{outd}/{pid}.txt', 'w'); cnt = {}
    for k in ids:
        cnt[res[k]] = cnt.get(res[k], 0) + 1
        if res[k] != 'killed': m = muts[k - 1]; out.write(f'{res[k]} #{k} {m[0]}:{m[1]}\n    - {m[2][:200]}\n    + {m[3][:200]}\n')
    out.write(f'{cnt}\n'); print(pid, cnt, f'{time.time() - t0:.0f}s', flush=True); shutil.rmtree(w)
main()
