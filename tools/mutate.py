#!/usr/bin/env python3
"""mutate.py ID FILE[,FILE] [--n N] [--seed S] [--secs T] [--jobs J] [--repo R]: plants small mechanical changes one at a time in a
scratch copy of the include tree and reports those the check of ID does not notice (to be judged by hand: equivalent, or a gap)."""
import argparse, os, random, re, shutil, subprocess, sys, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPS = [
    (r"(?<![<>=!\-+*/&|])<=(?!=|>)", "<"), (r"(?<=[\w\)\]] )<(?= [\w\(])", "<="), (r"(?<=[\w\)\]] )>(?= [\w\(])", ">="), (r"(?<![<>=!])>=", ">"),
    (r"(?<![<>=!])==(?!=)", "!="), (r"!=(?!=)", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=[\w\)\]] )\+(?= [\w\(])", "-"), (r"(?<=[\w\)\]] )-(?= [\w\(])", "+"),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bif \((?!constexpr)", "if (!("), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.{])0(?![\w.])", "1"),
    (r"\bstd::max\b", "std::min"), (r"\bstd::min\b", "std::max"), (r"\+\+", "--"), (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r" \+= ", " -= "),
]
def candidates(path):
    out = []
    comment = False
    for n, l in enumerate(open(path).read().split("\n")):
        s = l.strip()
        if s.startswith("/*"): comment = True
        if comment or s.startswith("//") or s.startswith("#") or s.startswith("*") or "assert" in s or "template" in s or "fmt::format" in s or s.startswith("using ") or "[[nodiscard]]" in s:
            if "*/" in s: comment = False
            continue
        code = l.split("//")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if rep.startswith("if (!("):
                    # negate the whole condition when it closes on this line
                    if not code.rstrip().endswith(")"): continue
                    new = code[:m.start()] + "if (!(" + code[m.end():].rstrip()[:-1] + "))"
                elif pat.startswith(r"(?<=[\w\)\]] )<") and ("for" not in code and "if" not in code and "while" not in code and "return" not in code and "=" not in code): continue
                else:
                    new = code[:m.start()] + rep + code[m.end():]
                out.append((n, new))
        if re.match(r"^\s+[\w:.\->\[\]()]+(\(|\.|->| = | \+= |\+\+).*;\s*$", code) and not re.match(r"^\s*(return|const|auto|using|static|for|if|else|typename|case|break|continue|throw)\b", s):
            out.append((n, re.match(r"^\s*", code).group(0) + ";"))
        if re.match(r"^\s*const std::(scoped_lock|lock_guard|unique_lock)", l): out.append((n, ";"))
    return out
ap = argparse.ArgumentParser()
ap.add_argument("id"); ap.add_argument("files"); ap.add_argument("--n", type=int, default=20); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--secs", type=int, default=12); ap.add_argument("--jobs", type=int, default=3); ap.add_argument("--repo", default="/tmp/r2")
ap.add_argument("--from", dest="lo", type=int, default=0); ap.add_argument("--to", dest="hi", type=int, default=10**9)
a = ap.parse_args()
rnd = random.Random(a.seed)
allc = []
for f in a.files.split(","):
    allc += [(f, n, t) for n, t in candidates(os.path.join(a.repo, f)) if a.lo <= n + 1 <= a.hi]
rnd.shuffle(allc)
CODE = r'''
import sys, os
sys.path.insert(0, %r); sys.argv = ["check.py"]
import check
chk = check.CHECKS[%r]
exe = check.build(%r, %r)
b = check.run_batch(exe, 1000000024, 10**9, %d, 3, 2, %r, "m", maxviol=1, cpu=chk.get("cpu", 60))
for v in b.viol:
    print("KILLED", v["status"], v["cls"], v["key"][:60], v["scenario"]); break
else: print("SURVIVED")
'''
def one(job):
    k, (f, n, t) = job
    W = f"/tmp/mut/{a.id}.{k}"
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W + "/repo")
    subprocess.run(["cp", "-al", a.repo + "/include", a.repo + "/vendors", W + "/repo/"])
    p = f"{W}/repo/{f}"
    L = open(p).read().split("\n"); old = L[n]; L[n] = t
    os.unlink(p); open(p, "w").write("\n".join(L))
    os.makedirs(W + "/b", exist_ok=True)
    try:
        r = subprocess.run(["python3", "-c", CODE % (V, a.id, a.id, W + "/b", a.secs, W + "/b")], env=dict(os.environ, VERIF_REPO=W + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        res = [x for x in r.stdout.split("\n") if x.startswith(("KILLED", "SURVIVED"))] or (["NOCOMPILE"] if "compilation of" in r.stdout else ["ERROR " + r.stdout[-200:]])
    except subprocess.TimeoutExpired: res = ["TIMEOUT"]
    shutil.rmtree(W, ignore_errors=True)
    return res[0], f, n + 1, old.strip(), t.strip()
done = {}
with cf.ThreadPoolExecutor(a.jobs) as ex:
    for res, f, n, old, new in ex.map(one, list(enumerate(allc[:a.n]))):
        done[res.split()[0]] = done.get(res.split()[0], 0) + 1
        if not res.startswith("NOCOMPILE"):
            print(("  " if res.startswith("KILLED") else "!! ") + res, f"{os.path.basename(f)}:{n}", "|", old, "=>", new, flush=True)
print(a.id, done, "of", len(allc), "candidates", flush=True)
