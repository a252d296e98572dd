#!/usr/bin/env python3
"""Builds a property's simulation from /repo's working tree and runs it.

usage: check.py C07 [--tier quick|thorough] [--runs N] [--seed S] [--jobs J]
       check.py --replay FILE        replay a replay file against the current tree
       check.py --build-all          only build
exit 0: held on everything explored; 1: VIOLATION line; 2: error of the check.
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(HERE, "build"))
CXX = "clang++"
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

COMMON = ["-std=c++14", "-O1", "-gline-tables-only", "-fno-omit-frame-pointer", "-w",
          "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
          "-I" + os.path.join(REPO, "extras", "boost", "include"),
          "-I" + os.path.join(HERE, "sim")]
FLAVOURS = {
    "plain": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DSIM_ASAN"],
    "sched": ["-DSIM_SCHED"],
    "schedinst": ["-DSIM_SCHED", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-mllvm", "-tsan-instrument-func-entry-exit=0"],
}


def die(msg):
    print("CHECK-ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def sha(b):
    return hashlib.sha256(b).hexdigest()


def deps_digest(cmd, deps):
    h = hashlib.sha256(" ".join(cmd).encode())
    for d in deps:
        try:
            with open(d, "rb") as f:
                h.update(d.encode() + b"\0" + f.read())
        except OSError:
            return None
    return h.hexdigest()


def compile_one(src, flavour, extra):
    flags = COMMON + FLAVOURS[flavour] + extra
    key = sha((src + flavour + " ".join(extra)).encode())[:16]
    name = os.path.basename(src).replace(".cpp", "").replace(".cc", "")
    d = os.path.join(BUILD, flavour)
    os.makedirs(d, exist_ok=True)
    obj = os.path.join(d, f"{name}-{key}.o")
    dep, stamp = obj + ".d", obj + ".stamp"
    cmd = [CXX] + flags + ["-c", src, "-o", obj, "-MD", "-MF", dep]
    if os.path.exists(obj) and os.path.exists(stamp) and os.path.exists(dep):
        deps = read_deps(dep)
        if deps and open(stamp).read() == deps_digest(cmd, deps):
            return obj, None
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        return None, f"compiling {src} failed:\n{p.stdout[-3000:]}"
    dg = deps_digest(cmd, read_deps(dep))
    with open(stamp, "w") as f:
        f.write(dg or "")
    return obj, None


def read_deps(path):
    try:
        t = open(path).read().replace("\\\n", " ")
        return sorted(set(t.split(":", 1)[1].split()))
    except Exception:
        return None


def build(pid, jobs):
    cfg = PROPS[pid]
    flavour = cfg.get("flavour", "asan")
    inst = "schedinst" if flavour == "sched" else flavour
    work = []  # (src, flavour, extra)
    for s in cfg["sources"]:
        if isinstance(s, str):
            s = (s, inst, [])
        src = s[0] if s[0].startswith("/") else os.path.join(HERE, "sim", s[0])
        work.append((src.replace("/repo/", REPO + "/"), s[1] or inst, [x.replace("/repo/", REPO + "/") for x in s[2]]))
    work.append((os.path.join(HERE, "sim", "runner.cpp"), flavour, []))
    for s in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
        work.append((s, inst, []))
    objs = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for obj, err in ex.map(lambda w: compile_one(*w), work):
            if err:
                die(err)
            objs.append(obj)
    exe = os.path.join(BUILD, pid)
    h = hashlib.sha256()
    for o in objs:
        h.update(open(o, "rb").read())
    dg = h.hexdigest()
    if os.path.exists(exe) and os.path.exists(exe + ".stamp") and open(exe + ".stamp").read() == dg:
        return exe
    link = [CXX] + (FLAVOURS["asan"] if flavour == "asan" else []) + objs + ["-o", exe, "-lpthread"] + cfg.get("libs", [])
    p = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        die("linking failed:\n" + p.stdout[-3000:])
    with open(exe + ".stamp", "w") as f:
        f.write(dg)
    return exe


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k.get("property") == pid]


def replay(path, verbose=True):
    prop = None
    for line in open(path):
        if line.startswith("property "):
            prop = line.split()[1]
    exe = build(prop, os.cpu_count() or 4)
    p = subprocess.run([exe, "replay", path] + (["v"] if verbose else []))
    return p.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--replay")
    ap.add_argument("--build-all", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    if a.build_all:
        for pid in PROPS:
            t = time.time()
            build(pid, a.jobs)
            print(f"built {pid} in {time.time()-t:.1f}s", flush=True)
        sys.exit(0)
    pid = a.prop
    if pid not in PROPS:
        die(f"unknown property {pid}")
    cfg = PROPS[pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    exe = build(pid, a.jobs)
    t_build = time.time() - t0
    runs = a.runs or cfg[tier]
    cap = 240 if tier == "quick" else 700
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f"{pid}.replay")
    if os.path.exists(rpath):
        os.remove(rpath)
    res_path = os.path.join(BUILD, f"{pid}.result.json")
    if os.path.exists(res_path):
        os.remove(res_path)
    cmd = [exe, "run", "--prop", pid, "--seed", str(a.seed), "--runs", str(runs), "--jobs", str(a.jobs),
           "--batch", str(cfg.get("batch", 40)), "--cap", str(cap), "--mincap", "60", "--again", str(cfg.get("again", 4)),
           "--out", res_path, "--replay", rpath]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    rc = p.returncode
    if not os.path.exists(res_path):
        die(f"runner ended with {rc}:\n{p.stdout[-2000:]}\n{p.stderr[-2000:]}")
    r = json.load(open(res_path))
    violations = 0
    replay_ok = None
    if rc == 1:
        # fresh-process replay of the minimised file must reproduce exactly
        q = subprocess.run([exe, "replay", rpath], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        replay_ok = q.returncode == 1
        violations = 1
    counters = r["counters"]
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in counters.items() if k.startswith("probe.")}
    missing = [x for x in cfg.get("required_probes", []) if not counters.get("probe." + x)]
    wall = time.time() - t0
    hours = max(r["search_wall"], 1e-6) / 3600
    cov = {
        "evaluations": r["runs"],
        "distinct_nontrivial": r["distinct"],
        "rule": cfg["rule"],
        "samples": [r["sample"].split("\n")[:80]] if r["sample"] else [],
        "simulated_runs": r["runs"], "requested_runs": r["requested"],
        "re_executions_of_same_tape": r["reruns"],
        "nontrivial_runs": r["nontrivial"],
        "distinct_event_logs": r["distinct_logs"],
        "simulated_steps": r["steps"],
        "simulated_time": "logical steps only: the code under test has no clocks or timers",
        "runs_per_hour": int(r["runs"] / hours),
        "seeds_per_hour": int(r["runs"] / hours),
        "faults_injected": faults,
        "probes": probes,
        "scenarios": {k[9:]: v for k, v in counters.items() if k.startswith("scenario.")},
        "other_counters": {k: v for k, v in counters.items() if k.split(".")[0] not in ("fault", "probe", "scenario")},
        "distinctness_measure": cfg["distinct"],
        "components_real": cfg["real"],
        "components_stub": cfg["stub"],
        "log_fold": r["fold"],
        "build_s": round(t_build, 1), "search_s": round(r["search_wall"], 1),
        "violation": r["violation"],
    }
    if not a.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov,
                       "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 1), "violations": violations}, f, indent=1)
    for k in known_findings(pid):
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} tier={tier} seed={a.seed} runs={r['runs']} distinct={r['distinct']} steps={r['steps']} "
          f"faults={sum(faults.values())} build={t_build:.1f}s search={r['search_wall']:.1f}s")
    if rc == 1:
        if not replay_ok:
            die("the violation did not reproduce from its replay file in a fresh process")
        print(p.stdout[-3000:])
        print(f"VIOLATION property={pid} replay={rpath}")
        sys.exit(1)
    if rc != 0:
        die(f"runner ended with {rc}:\n{p.stdout[-2000:]}\n{p.stderr[-2000:]}")
    if r["runs"] == 0:
        die("no runs executed")
    if missing:
        print("note: probes never reached: " + ", ".join(missing))
    sys.exit(0)


if __name__ == "__main__":
    main()
