#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  check.py <ID>              run the check of one property (VERIF_SEED, VERIF_TIER=quick|thorough)
  check.py --setup           build the runtime once (sanity check of the tool chain)
  check.py --replay FILE     replay a violation file against the current tree (exit 1: reproduced)
  check.py --determinism ID  long determinism proof for one check
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
sys.path.insert(0, ROOT)
from checks import CHECKS  # noqa: E402

CXX = "clang++"
NCPU = max(2, os.cpu_count() or 8)


def err(msg, code=3):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile_flags(chk):
    fl = ["-std=c++20", chk.get("opt", "-O1"), "-gline-tables-only", "-D_GLIBCXX_ASSERTIONS", "-DFICTION_VERIF_SIM=1",
          "-w", "-I" + ROOT + "/sim", "-I" + ROOT + "/harness", "-isystem", ROOT + "/shim",
          "-I" + REPO + "/include",
          "-isystem", REPO + "/vendors/undirected_graph/source", "-isystem", REPO + "/vendors/combinations",
          "-isystem", REPO + "/vendors/graph-coloring/Header"]
    return fl + chk.get("flags", [])


def build(cid, outdir=None):
    chk = CHECKS[cid]
    out = outdir or os.path.join(BUILD, cid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    jobs = [(os.path.join(ROOT, "sim/rt.cpp"), os.path.join(out, "rt.o"),
             ["-std=c++20", "-O2", "-gline-tables-only", "-w", "-I" + ROOT + "/sim"])]
    for f in chk["files"]:
        src = f if os.path.isabs(f) else os.path.join(ROOT, "harness", f)
        jobs.append((src, os.path.join(out, os.path.basename(f) + ".o"), compile_flags(chk) + ["-fsanitize=thread"]))
    for f in chk.get("plain_files", []):
        jobs.append((os.path.join(ROOT, "harness", f), os.path.join(out, os.path.basename(f) + ".o"), compile_flags(chk)))

    def one(j):
        return run([CXX] + j[2] + ["-c", j[0], "-o", j[1]])

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for j, r in zip(jobs, ex.map(one, jobs)):
            if r.returncode != 0:
                print(r.stdout[-6000:])
                err(f"compilation of {j[0]} failed", 4)
    exe = os.path.join(out, "sim")
    r = run([CXX, "-no-pie", "-o", exe] + [j[1] for j in jobs] + chk.get("libs", ["-lfmt"]) + ["-ldl", "-lpthread"])
    if r.returncode != 0:
        print(r.stdout[-4000:])
        err("linking failed", 4)
    return exe


_symcache = {}


def symbolise(exe, addrs):
    addrs = [a for a in addrs if a < 0x100000000]
    todo = [a for a in addrs if (exe, a) not in _symcache]
    if todo:
        r = run(["addr2line", "-Cfie", exe, "-a"] + [hex(a) for a in todo])
        cur, frames, lines = None, [], r.stdout.splitlines()
        i = 0
        while i < len(lines):
            if re.match(r"^0x[0-9a-f]+$", lines[i]):
                if cur is not None:
                    _symcache[(exe, cur)] = frames
                cur, frames = int(lines[i], 16), []
                i += 1
            else:
                loc = lines[i + 1] if i + 1 < len(lines) else "?"
                fn = re.sub(r"\(.*", "", re.sub(r"<.*", "", lines[i]))
                frames.append(fn + " " + re.sub(r" \(discr.*", "", loc.replace(REPO + "/", "").split("/../")[-1]))
                i += 2
        if cur is not None:
            _symcache[(exe, cur)] = frames
    return {a: _symcache.get((exe, a), ["?"]) for a in addrs}


def describe_violation(exe, v):
    """human readable text and a stable identification (no addresses)"""
    txt = f"{v['cls']}: {v['key']}: {v['msg']}"
    bt = [int(x, 16) for x in v["bt"]]
    sym = symbolise(exe, [a - 1 for a in bt])
    frames = []
    for a in bt:
        for f in sym.get(a - 1, []):
            if "rt.cpp" not in f and f not in frames:
                frames.append(f)
    pcs = [int(x, 16) for x in re.findall(r"pc (0x[0-9a-f]+)", v["msg"])]
    ps = symbolise(exe, pcs)
    where = []
    for p in pcs:
        if p in ps:
            fr = [f for f in ps[p] if "include/fiction" in f] or ps[p]
            where.append(fr[0])
    ident = v["cls"] + ":" + re.sub(r"0x[0-9a-f]+", "", v["key"])
    fict = [f for f in frames if "include/fiction" in f]
    ident += " | " + " <> ".join(sorted(where)) + " | " + (fict[0] if fict else (frames[0] if frames else ""))
    return txt + ("\n  accesses: " + " <> ".join(where) if where else "") + "\n  stack: " + "\n         ".join(frames[:14]), ident


class Batch:
    def __init__(self):
        self.viol, self.samples, self.counters, self.hash = [], [], {}, {}
        self.tot = {}

    def add(self, out, hashes):
        for line in open(out, errors="replace"):
            tag, _, rest = line.partition(" ")
            if tag == "VIOL":
                self.viol.append(json.loads(rest))
            elif tag == "SAMPLE":
                self.samples.append(json.loads(rest))
            elif tag == "SUMMARY":
                s = json.loads(rest)
                for k, v in s.pop("counters").items():
                    a = self.counters.setdefault(k, [0, 0])
                    a[0] += v[0]
                    a[1] += v[1]
                for k, v in s.items():
                    self.tot[k] = max(self.tot.get(k, 0), v) if k == "wall" else self.tot.get(k, 0) + v
                self.complete = getattr(self, "complete", 0) + 1
        if hashes and os.path.exists(hashes):
            data = open(hashes, "rb").read()
            for o in range(0, len(data) - 39, 40):
                s, h, ih, nt, k = struct.unpack_from("<5Q", data, o)
                self.hash[s] = (h, ih, nt, k)


def scratch(tag):
    base = os.path.join(ROOT, "build", "scratch")
    os.makedirs(base, exist_ok=True)
    return os.path.join(base, f"{tag}.{os.getpid()}")


def run_batch(exe, base, count, secs, workers, presim, wd, tag, maxviol=3, scenario=None, cpu=120):
    b = Batch()
    procs = []
    for w in range(workers):
        out, hs = os.path.join(wd, f"{tag}{w}.out"), os.path.join(wd, f"{tag}{w}.hash")
        cmd = [exe, "--start", str(base), "--offset", str(w), "--stride", str(workers), "--count", str(count), "--time", str(secs),
               "--presim", str(presim), "--out", out, "--hashes", hs, "--maxviol", str(maxviol), "--cpu", str(cpu),
               "--tmp", scratch(f"{tag}{w}")]
        if scenario:
            cmd += ["--scenario", scenario]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out, hs))
    for p, out, hs in procs:
        try:
            o, _ = p.communicate(timeout=secs + cpu + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            err("a simulation worker did not end")
        if p.returncode not in (0, 1):
            print(o[-2000:])
            err(f"a simulation worker failed with {p.returncode}")
        b.add(out, hs)
    if getattr(b, "complete", 0) != workers:
        err("a simulation worker did not finish its summary")
    return b


def one_run(exe, seed, presim, scenario, wd, trace=None, tag="one"):
    out = os.path.join(wd, tag + ".out")
    # the scenario of a seed is part of its derivation: run through the same selection
    cmd = [exe, "--start", str(seed), "--count", "1", "--presim", str(presim), "--out", out, "--tmp", scratch(tag)]
    if scenario:
        cmd += ["--scenario", scenario]
    if trace:
        cmd += ["--trace", trace]
    run(cmd)
    b = Batch()
    b.add(out, None)
    return b.viol[0] if b.viol else None


def replay_run(exe, path, wd, tag="rep", trace=None):
    out = os.path.join(wd, tag + ".out")
    cmd = [exe, "--replay", path, "--out", out, "--tmp", scratch(tag)] + (["--trace", trace] if trace else [])
    r = run(cmd)
    if r.returncode not in (0, 1, 2):
        return None
    return json.loads(open(out).read())


def read_trace(path):
    head, par, fau, sch = [], [], [], []
    for ln in open(path):
        ln = ln.rstrip("\n")
        if ln.startswith("param "):
            par.append(ln.split())
        elif ln.startswith("fault "):
            fau.append(ln.split())
        elif ln.startswith("sched "):
            sch.append(ln.split())
        elif not ln.startswith("#"):
            head.append(ln)
    return head, par, fau, sch


def write_trace(path, t, comments=()):
    head, par, fau, sch = t
    with open(path, "w") as f:
        for c in comments:
            f.write("# " + c + "\n")
        for h in head:
            f.write(h + "\n")
        for x in par + fau + sch:
            f.write(" ".join(x) + "\n")


def same(v, ref):
    return v is not None and v["status"] == 3 and v["cls"] == ref["cls"] and v["key"] == ref["key"]


def minimise(exe, t, ref, wd, budget):
    """drop schedule and fault decisions, shrink workload parameters while the same violation persists"""
    t0 = time.time()
    ntry = 0
    pool = cf.ThreadPoolExecutor(NCPU)
    path_n = [0]

    def test(c):
        path_n[0] += 1
        tag = f"min{path_n[0] % 64}"
        p = os.path.join(wd, tag + ".replay")
        write_trace(p, c)
        return same(replay_run(exe, p, wd, tag), ref)

    def first_ok(cands):
        """the first (in order) candidate that still fails"""
        nonlocal ntry
        for i in range(0, len(cands), NCPU):
            grp = cands[i:i + NCPU]
            ntry += len(grp)
            for c, ok in zip(grp, pool.map(test, grp)):
                if ok:
                    return c
            if time.time() - t0 > budget:
                return None
        return None

    def reduce_list(t, idx):
        n = 2
        while len(t[idx]) > 0 and time.time() - t0 < budget:
            lst = t[idx]
            size = max(1, len(lst) // n)
            cands = []
            if n == 2:
                cands.append(t[:idx] + ([],) + t[idx + 1:])
            for i in range(0, len(lst), size):
                cands.append(t[:idx] + (lst[:i] + lst[i + size:],) + t[idx + 1:])
            c = first_ok(cands)
            if c is not None:
                t = c
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(lst), n * 2)
        return t

    def shrink_params(t):
        changed = True
        while changed and time.time() - t0 < budget:
            changed = False
            for i, p in enumerate(t[1]):
                if time.time() - t0 > budget:
                    break
                v, lo = int(p[3]), int(p[4])
                if v == lo:
                    continue
                cands = []
                for nv in sorted({lo, lo + (v - lo) // 2, v - 1}):
                    q = p[:3] + [str(nv)] + p[4:]
                    cands.append(t[:1] + (t[1][:i] + [q] + t[1][i + 1:],) + t[2:])
                c = first_ok(cands)
                if c is not None:
                    t = c
                    changed = True
        return t

    t = reduce_list(t, 2)
    t = reduce_list(t, 3)
    t = shrink_params(t)
    t = reduce_list(t, 2)
    t = reduce_list(t, 3)
    pool.shutdown()
    return t, ntry


def known_findings(cid):
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            m = re.match(r"known: property=(\S+) ident=/(.*)/ text=(.*)$", ln)
            if m and m.group(1) == cid:
                res.append((re.compile(m.group(2)), m.group(3)))
    return res


def handle_violation(cid, exe, v, wd, budget):
    """gate, minimise and write the replay file; returns (replay path, text, ident) or exits with an error"""
    seed, presim, scen = v["seed"], v["presim"], v["scenario"]
    tr = os.path.join(wd, "found.trace")
    a = one_run(exe, seed, presim, scen, wd, tr, "gateA")
    b = one_run(exe, seed, presim, scen, wd, None, "gateB")
    if not (same(a, v) and same(b, v) and a["hash"] == v["hash"] == b["hash"]):
        print(f"note: violation of seed {seed} ({v['cls']}:{v['key']}) does not reproduce exactly; not reported")
        return None
    t = read_trace(tr)
    n0 = (len(t[2]), len(t[3]))
    p0 = os.path.join(wd, "explicit.replay")
    write_trace(p0, t)
    e = replay_run(exe, p0, wd, "gateE")
    text, ident = describe_violation(exe, v)
    ntry = 0
    if same(e, v):
        t, ntry = minimise(exe, t, v, wd, budget)
    else:
        t = (t[0] + ["resample"], t[1], t[2], t[3])
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    dst = os.path.join(ROOT, "replays", f"{cid}-{scen}-{seed}.replay")
    com = [f"property {cid}", f"violation {v['cls']}:{v['key']}"] + text.splitlines()
    com += [f"workload: {v['desc']}"] if v["desc"] else []
    com += [f"decisions before minimisation: {n0[0]} faults, {n0[1]} preemptions; after: {len(t[2])} faults, "
            f"{len(t[3])} preemptions ({ntry} candidate replays)"]
    write_trace(dst, t, com)
    r1, r2 = replay_run(exe, dst, wd, "fin1"), replay_run(exe, dst, wd, "fin2")
    if not (same(r1, v) and same(r2, v) and r1["hash"] == r2["hash"]):
        print(f"note: the replay file of seed {seed} does not reproduce in fresh processes; not reported")
        return None
    return dst, text, ident


def determinism(exe, ref, base, n, presim, wd, cpu):
    """re-run n seeds of the batch in other processes, at other worker counts; event hashes must match"""
    bad, cmpd = [], 0
    for k, w in ((0, 3), (1, NCPU)):
        b = run_batch(exe, base, n, 60, w, presim, wd, f"det{k}", maxviol=10**6, cpu=cpu)
        for s, h in b.hash.items():
            if s in ref and h is not None:
                cmpd += 1
                if ref[s] != h:
                    bad.append(s)
    return bad, cmpd


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        r = run([CXX, "--version"])
        print(r.stdout.splitlines()[0])
        os.makedirs(BUILD, exist_ok=True)
        r = run([CXX, "-std=c++20", "-O2", "-w", "-c", ROOT + "/sim/rt.cpp", "-I" + ROOT + "/sim", "-o", BUILD + "/rt.setup.o"])
        print(r.stdout)
        sys.exit(r.returncode)
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        txt = open(sys.argv[2]).read()
        cid = re.search(r"^# property (\S+)", txt, re.M).group(1)
        exe = build(cid, os.path.join(BUILD, "replay-" + cid))
        wd = os.path.join(BUILD, "replay-" + cid)
        v = replay_run(exe, os.path.abspath(sys.argv[2]), wd, "user")
        print(json.dumps({k: v[k] for k in ("cls", "key", "msg", "desc", "hash", "status")}, indent=1))
        if v["status"] == 3:
            print(describe_violation(exe, v)[0])
            print(f"VIOLATION property={cid} replay={sys.argv[2]}")
            sys.exit(1)
        sys.exit(0)

    det_only = sys.argv[1] == "--determinism"
    cid = sys.argv[2] if det_only else sys.argv[1]
    chk = CHECKS[cid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
    t0 = time.time()
    exe = build(cid)
    tb = time.time() - t0
    wd = os.path.join(BUILD, cid)
    base = (seed & 0xFFFFFFFF) * 1_000_000_007 + 17
    presim = (seed & 0xFFFF) + 1
    cpu = chk.get("cpu", 60)
    secs = float(os.environ.get("VERIF_SECS", chk["thorough_s"] if tier == "thorough" else chk["quick_s"]))
    if det_only:
        b = run_batch(exe, base, 10**9, secs, NCPU, presim, wd, "main", maxviol=10**6, cpu=cpu)
        bad, n = determinism(exe, b.hash, base, 10**9, presim, wd, cpu)
        print(f"{cid}: runs {len(b.hash)}, compared {n}, mismatches {len(bad)} {bad[:5]}")
        sys.exit(1 if bad else 0)
    b = run_batch(exe, base, 10**9, secs, NCPU, presim, wd, "main", maxviol=chk.get("maxviol", 3), cpu=cpu)
    kf = known_findings(cid)
    nviol, known_seen = 0, {}
    new = []
    if any(v["status"] == 4 for v in b.viol):
        bad = [v for v in b.viol if v["status"] == 4][0]
        err("simulator-internal failure: " + bad["msg"])
    for v in sorted(b.viol, key=lambda v: v["seed"]):
        if len(new) >= 40:
            nviol += 1
            continue
        ident = v["cls"] + ":" + v["key"]
        hit = [t for rx, t in kf if rx.search(ident)]
        if kf and not hit:
            _, ident = describe_violation(exe, v)
            hit = [t for rx, t in kf if rx.search(ident)]
        if hit:
            known_seen[hit[0]] = known_seen.get(hit[0], 0) + 1
        else:
            nviol += 1
            new.append(v)
    replay, first = None, None
    # gate: a violation counts only if it reproduces exactly; the first (shortest) one that does is reported
    for v in sorted(new, key=lambda v: v["steps"])[:6]:
        got = handle_violation(cid, exe, v, wd, chk.get("min_s", 25))
        if got:
            first = v
            replay, text, ident = got
            break
    if new and first is None:
        err(f"{len(new)} violations were seen but none reproduces exactly; nothing is reported")
    if first is not None:
        print(text)
        print("ident:", ident)
        print("workload:", first["desc"])
    det_n = 0
    if first is None:
        n = min(max(16, int(b.tot["runs"] * 0.06)), 400)
        bad, det_n = determinism(exe, b.hash, base, n, presim, wd, cpu)
        if bad:
            err(f"nondeterministic executions for seeds {bad[:5]}")
    wall = time.time() - t0
    faults = {k[6:]: v[0] for k, v in b.counters.items() if k.startswith("fault.")}
    fault_runs = {k[6:]: v[1] for k, v in b.counters.items() if k.startswith("fault.")}
    probes = {k[6:]: v[0] for k, v in b.counters.items() if k.startswith("probe.")}
    dist = len({(h[1], h[0]) for h in b.hash.values() if h[2]})
    runs = b.tot["runs"]
    rw = max(b.tot.get("wall", 1), 0.001)
    samples = []
    for s in (b.samples + b.viol)[:4]:
        samples.append({k: s[k] for k in ("scenario", "seed", "desc", "hash", "steps", "switches", "threads")})
    ev = {
        "property": cid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": dist,
            "rule": "one evaluation = one simulated run (workload, schedule, clock, entropy and faults all derived from one "
                    "seed). distinct = distinct hash of the run's complete event sequence (every memory access, "
                    "synchronisation operation, workload value and result); non-trivial = " + chk["nontrivial"],
            "samples": samples or [{"note": "no run completed"}],
            "runs_per_hour": int(runs / rw * 3600),
            "seeds_per_hour": int(runs / rw * 3600),
            "simulated_seconds": round(b.tot["sim_ns"] / 1e9, 3),
            "instrumented_steps": b.tot["steps"],
            "thread_switches": b.tot["switches"],
            "distinct_interleavings": len({h[1] for h in b.hash.values() if h[2]}),
            "faults_injected": faults,
            "runs_with_fault": fault_runs,
            "probes": probes,
            "other_counters": {k: v[0] for k, v in b.counters.items() if k.startswith(("rt.", "discard."))},
            "discarded_runs": b.tot["discarded"],
            "determinism_reruns_compared": det_n,
            "components_real": chk["real"],
            "components_stub": chk["stub"],
            "known_findings_seen": known_seen,
            "build_s": round(tb, 1),
        },
        "assumptions": chk["assumptions"],
        "wall_s": round(wall, 1),
        "violations": nviol,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", cid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for _, t in kf:
        print(f"KNOWN-FINDING: property={cid} {t}")
    print(f"{cid} {tier}: {runs} runs ({b.tot['nontrivial']} non-trivial, {dist} distinct, {b.tot['discarded']} discarded), "
          f"{b.tot['steps']} steps, {b.tot['switches']} switches, faults {faults}, build {tb:.0f}s, wall {wall:.0f}s")
    print("probes:", probes)
    if replay:
        print(f"VIOLATION property={cid} replay={replay}", flush=True)
        sys.exit(1)
    need = chk.get("min_runs", 20)
    if b.tot["nontrivial"] < need:
        err(f"only {b.tot['nontrivial']} non-trivial runs")
    missing = [p for p in chk.get("need_probes", []) if not probes.get(p)]
    if missing:
        print("note: probes never hit in this run:", missing)
    sys.exit(0)


if __name__ == "__main__":
    main()
