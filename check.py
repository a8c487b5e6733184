#!/usr/bin/env python3
"""Decides one property: builds the code under test from /repo's working tree, runs
the property's workloads under instrumentation and judges what the monitors saw.

  check.py P01                     quick or thorough by VERIF_TIER (default quick)
  check.py P01 --tier thorough
  check.py --replay FILE           re-run the case recorded in a replay file
  check.py --setup                 build everything the quick checks need
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vbuild, props
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:abort_on_error=0:detect_stack_use_after_return=0:symbolize=1:handle_abort=1:max_malloc_fill_size=1073741824",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99:symbolize=1",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:second_deadlock_stack=1",
    "MALLOC_PERTURB_": "0", "LC_ALL": "C", "TZ": "UTC",
})
NWORK = int(os.environ.get("VERIF_JOBS", "8"))

def load_known():
    """known: property=P.. mode=.. case=.. key=.. | text      (a finding on the pinned tree)
       fixed: property=P.. commit | text                      (suppresses nothing)"""
    out = []
    try:
        for l in open(KNOWN):
            l = l.strip()
            m = re.match(r"known: property=(\S+) mode=(\S+) case=(\S+) key=(\S+) \| (.*)$", l)
            if m:
                out.append(dict(prop=m[1], mode=m[2], case=m[3], key=m[4], text=m[5]))
    except OSError:
        pass
    return out

FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)")
def crash_key(lines, z):
    kind = None
    if lines and lines[0].startswith("memcheck: "):
        t = re.sub(r"[^A-Za-z]+", "-", re.sub(r"^memcheck: ==\d+== ", "", lines[0])).strip("-")
        for l in lines:
            m = re.search(r"(?:at|by) 0x[0-9A-F]+: (\S+) \(([a-z_]+\.[ch]):\d+\)", l)
            if m and m[2].startswith(("db", "yajl", "json", "wgdb")): return "memcheck:%s:%s" % (t, m[1])
        return "memcheck:%s:?" % t
    for l in lines:
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", l)
        if m: kind = "asan:" + m[1]; break
        m = re.search(r"WARNING: ThreadSanitizer: ([a-z -]+)", l)
        if m: kind = "tsan:" + m[1].strip().replace(" ", "-"); break
        m = re.search(r"WARNING: MemorySanitizer: (\S+)", l)
        if m: kind = "msan:" + m[1]; break
        m = re.search(r"runtime error: (.*)$", l)
        if m:
            t = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m[1]); t = re.sub(r"[^A-Za-z]+", "-", t)[:50].strip("-")
            kind = "ubsan:" + t; break
    if kind is None:
        kind = "crash:" + z.replace(" ", "")
    fn = "?"
    for l in lines:
        m = FRAME.search(l)
        if m and "/.build/lib-" in m[2]:
            fn = m[1]; break
    return kind + ":" + fn

class Agg:
    def __init__(self):
        self.lock = threading.Lock(); self.ctr = {}; self.dist = set(); self.samples = []; self.viol = []; self.errors = []
        self.cases = 0; self.inconclusive = []; self.hangs = []; self.bymode = {}

def run_cmd(cmd, agg, run, stop):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, text=True, errors="replace")
    case = None; rep = []; z = None; vs = []; tr = []; done = False
    err = []
    t = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True); t.start()
    def flush():
        nonlocal rep, z, vs, tr
        with agg.lock:
            if z is not None:
                vs.append((crash_key(rep, z), " / ".join(rep[:14])))
            for k, d in vs:
                agg.viol.append(dict(run=run, case=case, key=k, detail=d, trace=list(tr), report=list(rep)))
        rep = []; z = None; vs = []; tr = []
    for l in p.stdout:
        l = l.rstrip("\n")
        if not l: continue
        k, _, v = l.partition(" ")
        if k == "B": case = int(v); rep = []; z = None; vs = []; tr = []
        elif k == "C":
            n, c = v.rsplit(" ", 1); c = int(c)
            with agg.lock:
                if n.startswith("max:"): agg.ctr[n] = max(agg.ctr.get(n, 0), c)
                else: agg.ctr[n] = agg.ctr.get(n, 0) + c
        elif k == "D":
            with agg.lock: agg.dist.update(run["mode"] + x for x in v.split())
        elif k == "S":
            with agg.lock:
                if len(agg.samples) < 400: agg.samples.append((run["mode"], case, v))
        elif k == "V":
            a, _, b = v.partition(" "); vs.append((a, b))
        elif k == "T": tr.append(v)
        elif k == "R": rep.append(v)
        elif k == "Z": z = v
        elif k == "H":
            with agg.lock: agg.hangs.append((run, case, v))
        elif k == "E":
            with agg.lock: agg.errors.append("%s case %s: %s" % (run["mode"], case, v))
        elif k == "F":
            flush()
            with agg.lock: agg.cases += 1; agg.bymode[run["mode"]] = agg.bymode.get(run["mode"], 0) + 1
        elif k == "Q": done = True
    p.wait(); t.join(5)
    if not done or p.returncode != 0:
        with agg.lock: agg.errors.append("harness %s ended with %s: %s" % (run["mode"], p.returncode, (err[0] if err else "")[-1500:]))

def base_cmd(b, run, seed, scratch, tier):
    cmd = [b, "--mode", run["mode"], "--seed", str(seed), "--tier", tier, "--scratch", scratch]
    for k, v in run.get("opts", {}).items(): cmd.append("--%s=%s" % (k, v))
    if tier == "thorough":
        for k, v in run.get("topts", {}).items(): cmd.append("--%s=%s" % (k, v))
    if run["san"] == "vg":
        # the reports of a case are in a file named after its process, where the harness looks for them
        os.makedirs(scratch, exist_ok=True)
        cmd = ["valgrind", "-q", "--trace-children=yes", "--error-exitcode=99", "--leak-check=no", "--num-callers=14", "--error-limit=no", "--suppressions=" + os.path.join(HERE, "lib", "memcheck.supp"),
               "--log-file=" + os.path.join(scratch, "vg.%p")] + cmd
    return cmd

def build_run(run):
    if run.get("kind") == "script":
        return None
    return vbuild.build_harness(run["src"], run["cfg"], run["san"], [run["src"] + ".cpp"], **run.get("build", {}))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay"); ap.add_argument("--setup", action="store_true"); ap.add_argument("--only"); ap.add_argument("--cases", type=int)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"): a.tier = "quick"
    if a.replay: return replay(a.replay)
    if a.setup: return setup()
    t0 = time.time()
    P = props.PROPS[a.prop]
    agg = Agg()
    runs = [r for r in P["runs"] if r.get("tier", a.tier) == a.tier or r.get("tier") is None]
    if a.only: runs = [r for r in runs if r["mode"] == a.only]
    try:
        bins = {}
        for r in runs:
            r["bin"] = build_run(r)
    except vbuild.BuildError as e:
        print("BUILD FAILED: %s" % e); return 2
    scratch = tempfile.mkdtemp(prefix="verif.%s." % a.prop, dir="/dev/shm" if P.get("shm", True) and os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)
    os.chmod(scratch, 0o755)
    try:
        jobs = []; serial = []
        for ri, r in enumerate(runs):
            n = a.cases or r["cases"][0 if a.tier == "quick" else 1]
            off = 0
            chunk = r.get("chunk") or max(1, min(50, (n + NWORK * 3 - 1) // (NWORK * 3)))
            for f in range(0, n, chunk):
                sc = os.path.join(scratch, "r%d_%d" % (ri, f))
                cmd = base_cmd(r["bin"], r, a.seed, sc, a.tier) + ["--from", str(f), "--to", str(min(n, f + chunk))] if r.get("kind") != "script" else \
                    [sys.executable, os.path.join(HERE, r["script"]), "--mode", r["mode"], "--seed", str(a.seed), "--tier", a.tier, "--scratch", sc, "--from", str(f), "--to", str(min(n, f + chunk))]
                (serial if r.get("serial") else jobs).append((cmd, r))
        def work(q):
            while True:
                with agg.lock:
                    if not q or len([v for v in agg.viol if not v["run"].get("probe")]) > 40: return
                    cmd, r = q.pop(0)
                run_cmd(cmd, agg, r, None)
        jobs.sort(key=lambda j: -j[1].get("weight", 1))
        for q, n in ((jobs, NWORK), (serial, 1)):
            ts = [threading.Thread(target=work, args=(q,)) for _ in range(n)]
            for t in ts: t.start()
            for t in ts: t.join()
        # a case that used up its time is run again alone before it counts
        confirmed = 0
        for run, case, how in list(agg.hangs):
            if confirmed >= 3: break
            sub = Agg(); r2 = dict(run); o = dict(run.get("opts", {})); o["cpu"] = int(o.get("cpu", 60)) * 2; o["wall"] = int(o.get("wall", 400)) if int(o.get("wall", 400)) <= 150 else 240; r2["opts"] = o
            if run.get("kind") == "script":
                agg.inconclusive.append("%s case %s: %s" % (run["mode"], case, how)); continue
            cmd = base_cmd(run["bin"], r2, a.seed, os.path.join(scratch, "again%d" % case), a.tier) + ["--case", str(case)]
            run_cmd(cmd, sub, run, None)
            if sub.hangs:
                confirmed += 1
                agg.viol.append(dict(run=run, case=case, key="hang:%s" % run["mode"], detail="did not finish (%s), twice" % how, trace=[], report=[]))
            else:
                agg.viol += sub.viol; agg.errors += sub.errors
                agg.inconclusive.append("%s case %s exceeded its limit once and not when repeated" % (run["mode"], case))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return judge(a, P, runs, agg, t0)

def judge(a, P, runs, agg, t0):
    known = load_known()
    ignore = P.get("ignore", [])
    news = {}; olds = {}
    for v in agg.viol:
        if any(v["key"].startswith(i) for i in ignore): continue
        hit = None
        for k in known:
            if k["mode"] == v["run"]["mode"] and (k["case"] == "*" or k["case"] == str(v["case"])) and re.fullmatch(k["key"], v["key"]):
                hit = k; break
        if hit: olds.setdefault((hit["mode"], hit["case"], hit["key"]), (hit, v))
        else: news.setdefault((v["run"]["mode"] if v["run"].get("probe") else "", v["key"]), []).append(v)
    for hit, v in olds.values():
        if hit["prop"] == a.prop or True:
            print("KNOWN-FINDING: property=%s %s [%s case %s: %s]" % (a.prop, hit["text"], hit["mode"], v["case"], v["key"]))
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, "replay"); os.makedirs(rp, exist_ok=True)
    n = 0
    for (m, key), vs in sorted(news.items()):
        v = vs[0]; n += 1
        f = os.path.join(rp, "%s-%d.json" % (a.prop, n))
        with open(f, "w") as fh:
            json.dump(dict(property=a.prop, key=key, detail=v["detail"], mode=v["run"]["mode"], case=v["case"], seed=a.seed, tier=a.tier,
                           run={k: x for k, x in v["run"].items() if k != "bin"}, occurrences=len(vs), trace=v["trace"], report=v["report"]), fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (a.prop, f))
        print("  [%s case %s, %d times] %s: %s" % (v["run"]["mode"], v["case"], len(vs), key, v["detail"][:600]))
    must = dict(P.get("must", {})); missing = []
    for k, lim in must.items():
        if agg.ctr.get(k, 0) < lim: missing.append("%s=%d (needs %d)" % (k, agg.ctr.get(k, 0), lim))
    evals = agg.ctr.get("evals", 0)
    sm = []
    seenm = {}
    for m, c, s in agg.samples:
        if seenm.get(m, 0) < 3: seenm[m] = seenm.get(m, 0) + 1; sm.append("%s case %s: %s" % (m, c, s))
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level=P["level"],
              coverage=dict(evaluations=max(evals, agg.cases), distinct_nontrivial=min(len(agg.dist), max(evals, agg.cases)), rule=P["rule"], samples=sm[:12], cases=agg.cases, cases_by_workload=agg.bymode,
                            observed={k: v for k, v in sorted(agg.ctr.items()) if k != "evals"}, builds=sorted(set("%s/%s/%s" % (r.get("src", r.get("script")), r.get("cfg"), r.get("san")) for r in runs)),
                            inconclusive=agg.inconclusive, known_findings_seen=len(olds)),
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(news))
    with open(os.path.join(EVID, a.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d evaluations, %d distinct, %d new violations, %d known, %.1fs" % (a.prop, a.tier, a.seed, agg.cases, evals, len(agg.dist), len(news), len(olds), time.time() - t0))
    print("  observed: " + ", ".join("%s=%d" % (k, v) for k, v in sorted(agg.ctr.items()) if k != "evals"))
    if news: return 1
    if agg.errors:
        for e in agg.errors[:10]: print("ERROR: " + e)
        return 2
    if len(agg.inconclusive) > max(3, agg.cases // 20): print("ERROR: too many inconclusive cases"); return 2
    if missing and not a.only and not a.cases:
        print("ERROR: the run observed too little: " + ", ".join(missing)); return 2
    return 0

def replay(path):
    d = json.load(open(path)); r = d["run"]
    if r.get("kind") == "script":
        cmd = [sys.executable, os.path.join(HERE, r["script"]), "--mode", r["mode"], "--seed", str(d["seed"]), "--tier", d["tier"], "--scratch", tempfile.mkdtemp(prefix="verif."), "--from", str(d["case"]), "--to", str(d["case"] + 1)]
    else:
        cmd = base_cmd(build_run(r), r, d["seed"], tempfile.mkdtemp(prefix="verif."), d["tier"]) + ["--case", str(d["case"]), "--trace"]
    print(" ".join(cmd)); p = subprocess.run(cmd, env=ENV)
    return p.returncode

def setup():
    ok = 0; seen = set()
    for pid, P in sorted(props.PROPS.items()):
        for r in P["runs"]:
            k = json.dumps([r.get("src"), r.get("cfg"), r.get("san"), r.get("build")], sort_keys=True)
            if k in seen or r.get("kind") == "script": continue
            seen.add(k)
            try: build_run(r)
            except vbuild.BuildError as e: print(str(e)[:3000]); ok = 2
    return ok

sys.exit(main())
