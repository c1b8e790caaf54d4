#!/usr/bin/env python3
"""Driver: builds one property's harness from /repo's working tree, runs the generated-input search,
confirms and shrinks failures, writes evidence.   usage: run.py <ID> [quick|thorough] [--seed N] [--cases-mult X] [--keep]
Exit 0: held.  Exit 1: VIOLATION line printed.  Exit 2: error of the check itself."""
import sys, os, json, subprocess, hashlib, time, tempfile, shutil, struct, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode()); h.update(open(p, "rb").read()); continue
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                q = os.path.join(d, f)
                h.update(q.encode()); h.update(open(q, "rb").read())
    return h.hexdigest()

def build(pid, cfg, log):
    bdir = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build")), pid)
    os.makedirs(bdir, exist_ok=True)
    cdir = os.path.join(VERIF, "checks", pid)
    srcs = [os.path.join(cdir, f) for f in sorted(os.listdir(cdir)) if f.endswith(".cpp")] + [os.path.join(VERIF, "lib", "vh_main.cpp")]
    flags = ["-std=c++14", "-w", "-I" + REPO, "-I" + os.path.join(VERIF, "lib"), "-D_GLIBCXX_ASSERTIONS"] + (os.environ["VERIF_FLAGS"].split() if "VERIF_FLAGS" in os.environ else cfg.get("flags", ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]))
    cxx = cfg.get("cxx", "g++")
    common = tree_hash([os.path.join(REPO, "viennagrid"), os.path.join(VERIF, "lib")]) + " ".join(flags) + cxx
    exe = os.path.join(bdir, "harness")
    objs, jobs = [], []
    hdrs = [os.path.join(cdir, f) for f in sorted(os.listdir(cdir)) if f.endswith(".hpp")]
    for s in srcs:
        key = hashlib.sha256((common + tree_hash([s] + hdrs)).encode()).hexdigest()[:24]
        o = os.path.join(bdir, os.path.basename(s)[:-4] + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o): jobs.append((s, o))
    stem = lambda o: os.path.basename(o)
    keep = set(stem(o) for o in objs)
    for f in os.listdir(bdir):
        if f.endswith(".o") and f not in keep: os.unlink(os.path.join(bdir, f))
    def comp(j):
        s, o = j
        r = subprocess.run([cxx] + flags + ["-c", s, "-o", o + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0: os.rename(o + ".tmp", o)
        return r.returncode, s, r.stdout.decode(errors="replace")
    with cf.ThreadPoolExecutor(8) as ex:
        for rc, s, out in ex.map(comp, sorted(jobs, key=lambda j: -os.path.getsize(j[0]))):
            if rc != 0:
                print("BUILD FAILED", s); print("\n".join([l for l in out.splitlines() if "error" in l][:20]) or out[-3000:]); return None
    if jobs or not os.path.exists(exe):
        r = subprocess.run([cxx] + flags + objs + ["-o", exe] + cfg.get("libs", []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0: print("LINK FAILED", r.stdout.decode(errors="replace")[-3000:]); return None
    return exe

def main():
    argv = sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1")); mult = 1.0; only = None
    i = 1
    while i < len(argv):
        if argv[i] in ("quick", "thorough"): tier = argv[i]
        elif argv[i] == "--seed": i += 1; seed = int(argv[i])
        elif argv[i] == "--cases-mult": i += 1; mult = float(argv[i])
        elif argv[i] == "--only": i += 1; only = argv[i]
        i += 1
    t0 = time.time()
    cfg = json.load(open(os.path.join(VERIF, "checks", pid, "check.json")))
    exe = build(pid, cfg, None)
    if not exe: return 2
    tb = time.time() - t0
    cases = int(cfg["cases"][tier] * mult)
    nsh = 8
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=1500:hard_rss_limit_mb=3500:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:handle_segv=1:symbolize=0"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=0"
    try:
        procs = []
        for k in range(nsh):
            sd = os.path.join(work, "s%d" % k); os.mkdir(sd)
            cmd = [exe, "--run", "--seed=%d" % seed, "--cases=%d" % cases, "--shard=%d" % k, "--nshards=%d" % nsh, "--out=" + os.path.join(work, "o%d" % k), "--scratch=" + sd]
            if only: cmd.append("--only=" + only)
            procs.append(subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "e%d" % k), "wb"), cwd=work))
        rcs = [p.wait() for p in procs]
        evals, subs, labels, samples, hashes, fails = 0, {}, {}, [], set(), []
        for k in range(nsh):
            o = os.path.join(work, "o%d" % k)
            rp = open(o + ".report", errors="replace").read().splitlines() if os.path.exists(o + ".report") else []
            done = bool(rp) and rp[-1] == "DONE"
            for l in rp:
                f = l.split("\t")
                if f[0] == "SUB":
                    a = subs.setdefault(f[1], [0, 0]); a[0] += int(f[2]); a[1] += int(f[3]); evals += int(f[2])
                elif f[0] == "LABEL": labels[f[1]] = labels.get(f[1], 0) + int(f[2])
                elif f[0] == "SAMPLE" : samples.append({"sub": f[1], "case": f[2]})
            if os.path.exists(o + ".hashes"):
                b = open(o + ".hashes", "rb").read()
                for j in range(len(b) // 8): hashes.add(b[8 * j:8 * j + 8])
            if rcs[k] != 0 or not done:
                st = open(o + ".status", "rb").read() if os.path.exists(o + ".status") else b""
                if len(st) >= 24:
                    inc, si, idx = struct.unpack("QQQ", st[:24])
                    msg = open(o + ".fail", errors="replace").read().strip() if os.path.exists(o + ".fail") else "process ended with status %d: %s" % (rcs[k], open(os.path.join(work, "e%d" % k), errors="replace").read()[:1500])
                    fails.append((si, idx, msg, inc))
                else: fails.append((0, 0, "harness did not start (status %d)" % rcs[k], 0))
        violation = None
        for si, idx, msg, inc in sorted(fails):
            if not inc: print("CHECK ERROR: shard failed outside a case:", msg[:800]); return 2
            rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
            rfile = os.path.join(rdir, "%s-s%d-%d-%d.replay" % (pid, seed, si, idx))
            sd = os.path.join(work, "shr"); os.makedirs(sd, exist_ok=True)
            subprocess.run([exe, "--shrink", "--subindex=%d" % si, "--seed=%d" % seed, "--case=%d" % idx, "--out=" + rfile, "--scratch=" + sd], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work)
            ok, out = 0, ""
            for _ in range(3):
                r = subprocess.run([exe, "--replay=" + rfile, "--scratch=" + sd], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=work)
                if r.returncode not in (0, 2): ok += 1; out = r.stderr.decode(errors="replace")
            if ok == 3:
                with open(rfile, "a") as f: f.write("# original message: %s\n# rerun: %s --replay=%s --scratch=<dir>\n" % (msg[:400].replace("\n", " "), exe, rfile))
                print(out[:1500]); violation = rfile; break
            print("not reproducible (%d/3), ignored: %s" % (ok, msg[:500]))
            return_err = True
        if fails and not violation: print("CHECK ERROR: failures could not be reproduced"); return 2
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": cfg["rule"],
                           "samples": samples[:40], "per_subcheck": {k: {"evaluations": v[0], "nontrivial": v[1]} for k, v in sorted(subs.items())},
                           "labels": labels, "build_s": round(tb, 1)},
              "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
        evd = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence")); os.makedirs(evd, exist_ok=True)
        json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
        if violation:
            print("VIOLATION property=%s replay=%s" % (pid, violation)); return 1
        low = [k for k, v in subs.items() if v[0] > 50 and v[1] < 0.05 * v[0]]
        print("%s %s seed=%d: held on %d cases (%d distinct non-trivial), build %.1fs, total %.1fs%s" % (pid, tier, seed, evals, len(hashes), tb, time.time() - t0, "; low non-trivial: %s" % low if low else ""))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

sys.exit(main())
