#!/usr/bin/env python3
"""plant.py SPEC.py: builds /verif/seeded/<id>/ from a spec and confirms it in a scratch copy of /repo.

A spec defines: id, prop, needs, breaks, edits=[(file, old, new[, count])], demo (C++ source), flags, shim(bool), run (shell)"""
import json, os, shutil, subprocess, sys
spec = {}
exec(open(sys.argv[1]).read(), spec)
D = f"/verif/seeded/{spec['id']}"
S = f"/tmp/plant.{spec['id']}"
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
shutil.rmtree(S, ignore_errors=True)
sh(f"git -C /repo worktree prune; rm -rf {S}; git clone -q /repo {S}")
for e in spec["edits"]:
    p = f"{S}/{e[0]}"
    t = open(p).read()
    assert t.count(e[1]) >= 1, ("not found", e[0], e[1])
    if t.count(e[1]) > 1 and len(e) < 4: raise SystemExit(f"ambiguous: {e[1]}")
    if len(e) > 3:  # n-th occurrence
        parts = t.split(e[1]); n = e[3]
        t = e[1].join(parts[:n + 1]) + e[2] + e[1].join(parts[n + 1:])
    else:
        t = t.replace(e[1], e[2])
    open(p, "w").write(t)
r = sh(f"git -C {S} diff")
open(D + "/patch.diff", "w").write(r.stdout)
json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(D + "/meta.json", "w"), indent=1)
open(D + "/demo.cpp", "w").write(spec["demo"])
inc = ""
if spec.get("shim"):
    shutil.copytree("/verif/shim", D + "/shim")
    for h in spec.get("harness", []): shutil.copy("/verif/harness/" + h, D)
    inc = '-isystem "$D/shim" '
run = spec.get("run", 'timeout 120 "$W/demo"')
open(D + "/demo.sh", "w").write(f'''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d) || exit 99
trap 'find "$W" -delete' EXIT
{spec.get("cxx", "g++")} -std=c++20 -w {spec.get("flags", "-O1")} -I"$D" {inc}-I"$R/include" -isystem "$R/vendors/undirected_graph/source" -isystem "$R/vendors/combinations" -isystem "$R/vendors/graph-coloring/Header" "$D/demo.cpp" -o "$W/demo" {spec.get("libs", "-lfmt -lpthread")} || exit 98
cd "$W" || exit 97
{run}
''')
os.chmod(D + "/demo.sh", 0o755)
sh(f"git -C {S} checkout -q -- .")
ok = True
def demo(tag):
    r = sh(f"cd {S} && bash {D}/demo.sh", timeout=300)
    print(tag, "demo exit", r.returncode, r.stdout[-600:])
    return r.returncode
a = [demo("clean") for _ in range(spec.get("repeat", 2))]
r = sh(f"git -C {S} apply {D}/patch.diff"); assert r.returncode == 0, r.stdout
b = [demo("patched") for _ in range(spec.get("repeat", 2))]
print(r.stdout)
ok = all(x == 0 for x in a) and all(x not in (0, 97, 98, 99) for x in b)
print("DEMO", "OK" if ok else "BAD")
sh(f"rm -rf {S}")
if not ok: sys.exit(1)
if ok and "--notest" not in sys.argv:
    # builds and passes the tests in /repo itself, undone straight afterwards
    sh(f"git -C /repo apply {D}/patch.diff")
    try:
        r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant.out.json && python3 - <<'X'\nimport json\no=json.load(open('/tmp/plant.out.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable']\np=set(o.get('passed',[]));m=[x for x in s if x not in p]\nprint('TESTS','OK' if not m else m[:3])\nX")
        print(r.stdout[-300:])
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    if "--check" in sys.argv:
        pass
