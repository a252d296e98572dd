#!/usr/bin/env python3
"""Confirms planted bugs in scratch clones under /tmp/plant (clean: unchanged, repo: changed).
plant.py [--nocheck] [--check=Cxx] ID... : demo on clean, apply, build, tests, demo, the property's check."""
import json, os, subprocess, sys, time
P = "/tmp/plant"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def scripts(tree):
    for n in ("build", "test"):
        t = open(f"/opt/vp/{n}.sh").read().replace("/repo", f"{P}/{tree}").replace("/opt/vp/build.sh", f"{P}/{tree}.build.sh")
        open(f"{P}/{tree}.{n}.sh", "w").write(t)
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
full = "--nocheck" not in sys.argv
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
for tree in ("clean", "repo"):
    R = f"{P}/{tree}"
    if not os.path.exists(R):
        sh(f"git clone -q /repo {R}")
    scripts(tree)
    sh(f"git -C {R} checkout -q -- .")
    if sh(f"git -C {R} rev-parse HEAD").stdout.strip() != head:
        print(sh(f"git -C {R} fetch -q origin && git -C {R} reset -q --hard {head}").stdout)
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
b = sh(f"bash {P}/clean.build.sh")
if b.returncode: print("clean build fails", b.stdout[-2000:]); sys.exit(2)
R = f"{P}/repo"
for i in ids:
    t0 = time.time()
    d = f"{HERE}/seeded/{i}"
    meta = json.load(open(d + "/meta.json"))
    out = {}
    q = sh(f"timeout 300 bash {d}/demo.sh", cwd=f"{P}/clean"); out["demo_clean"] = q.returncode
    if q.returncode: print(q.stdout[-1500:])
    sh(f"git -C {R} checkout -q -- .")
    a = sh(f"git -C {R} apply {d}/patch.diff")
    if a.returncode: print(i, "patch does not apply", a.stdout); continue
    b = sh(f"bash {P}/repo.build.sh"); out["build"] = b.returncode
    if b.returncode: print(b.stdout[-3000:])
    t = sh(f"bash {P}/repo.test.sh {P}/o.json")
    res = json.load(open(f"{P}/o.json"))
    missing = stable - set(res["passed"])
    out["tests_broken"] = len(missing)
    if missing: print(t.stdout[-300:], sorted(missing)[:6])
    q = sh(f"timeout 300 bash {d}/demo.sh", cwd=R); out["demo_bug"] = q.returncode
    print(q.stdout[-600:])
    if full and not missing:
        for c in [meta["property"]] + [x[8:] for x in sys.argv if x.startswith("--check=")]:
            q = sh(f"python3 {HERE}/check.py {c} --no-evidence", env=dict(os.environ, SIM_REPO=R, SIM_BUILD=f"{P}/sim"))
            out[c] = q.returncode
            print("   ", c, "|".join(q.stdout.strip().split("\n")[-6:])[:900])
    ok = out["demo_clean"] == 0 and out["build"] == 0 and out["tests_broken"] == 0 and out["demo_bug"] != 0
    print(("GOOD " if ok else "BAD  ") + ("" if 1 in [v for k, v in out.items() if k[0] == "C"] else "MISSED ") + i, out, f"{time.time()-t0:.0f}s", flush=True)
sh(f"git -C {R} checkout -q -- .")
