#!/usr/bin/env python3
"""main.py <property> <quick|thorough> | main.py <property> replay <file>

Runs the jobs of a check, merges what they saw, writes the evidence file and
decides: 0 held, 1 violated (with a VIOLATION line), 3 inconclusive.
"""
import sys, os, json, subprocess, time, importlib, threading, glob
from concurrent.futures import ThreadPoolExecutor
sys.dont_write_bytecode = True
LIB = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(LIB)
sys.path[:0] = [LIB, os.path.join(ROOT, "checks")]
PYPY = "/opt/pypyvenv/bin/python"
PY3 = sys.executable
EVD = os.environ.get("VP_EVIDENCE", os.path.join(ROOT, "evidence"))
WORKERS = int(os.environ.get("VP_WORKERS", "8"))


def prop_info(pid):
    with open(os.path.join(ROOT, "properties.jsonl")) as f:
        for line in f:
            p = json.loads(line)
            if p["id"] == pid:
                return p
    return {"id": pid, "title": pid}


def known():
    try:
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def run_job(modname, job):
    py = PYPY if job.get("py", "pypy") == "pypy" else PY3
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONWARNINGS="ignore")
    t = time.time()
    try:
        p = subprocess.run([py, os.path.join(LIB, "job.py"), modname], input=json.dumps(job).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env,
                           timeout=job.get("timeout", 800))
    except subprocess.TimeoutExpired:
        return {"evals": 0, "keys": [], "counters": {}, "samples": [], "viol": [], "nviol": 0,
                "inconclusive": ["job %s: watchdog after %ss" % (job["name"], job.get("timeout", 800))],
                "job": job, "wall": time.time() - t}
    try:
        r = json.loads(p.stdout.decode())
    except Exception:
        r = {"evals": 0, "keys": [], "counters": {}, "samples": [], "viol": [], "nviol": 0,
             "inconclusive": ["job %s: exit %s, %s" % (job["name"], p.returncode, p.stderr.decode()[-800:])],
             "job": job}
    r["wall"] = round(time.time() - t, 2)
    return r


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = pid.lower()
    mod = importlib.import_module(modname)
    if tier == "replay":
        with open(sys.argv[3]) as f:
            rec = json.load(f)
        job = dict(rec["job"])
        if rec.get("case") is not None:
            job["only"] = rec["case"]
        r = run_job(modname, job)
        for v in r["viol"]:
            print("reproduced [%s] %s" % (v["mech"], v["msg"]))
        for s in r["inconclusive"]:
            print("inconclusive:", s)
        print("violations: %d" % r["nviol"])
        return 1 if r["viol"] else 0
    jobs = mod.jobs(tier, seed)
    names = set()
    for j in jobs:
        j.setdefault("seed", seed)
        j["tier"] = tier
        assert j["name"] not in names, j["name"]
        names.add(j["name"])
    # heavier jobs first, so that the last worker does not start late
    jobs.sort(key=lambda j: -j.get("weight", 1))
    with ThreadPoolExecutor(WORKERS) as ex:
        res = list(ex.map(lambda j: run_job(modname, j), jobs))
    if os.environ.get("VP_TIMES"):
        for r in sorted(res, key=lambda r: -r["wall"])[:20]:
            print("%7.1fs %8d %s" % (r["wall"], r["evals"], r["job"]["name"]), file=sys.stderr)
    evals = sum(r["evals"] for r in res)
    keys = set()
    counters, samples, viol, vague = {}, [], [], []
    for r in res:
        keys.update(r["keys"])
        for k, v in r["counters"].items():
            if k.startswith("max_"):
                counters[k] = max(counters.get(k, v), v)
            elif k.startswith("min_"):
                counters[k] = min(counters.get(k, v), v)
            else:
                counters[k] = counters.get(k, 0) + v
        samples += r["samples"][:1]
        viol += r["viol"]
        vague += r["inconclusive"]
    need = getattr(mod, "REQUIRED", {})
    for k, v in (need.items() if not viol else ()):
        if counters.get(k, 0) < v:
            vague.append("counter %s is %s, expected at least %s: the monitor was not reached" % (
                k, counters.get(k, 0), v))
    if evals == 0 and not viol:
        vague.append("nothing was observed")
    kf = [k for k in known() if k["property"] == pid and k.get("status") == "open"]
    new = []
    seen_known = set()
    for v in viol:
        hit = [k for k in kf if k["mechanism"] == v["mech"]]
        if hit:
            seen_known.add(hit[0]["mechanism"])
        else:
            new.append(v)
    os.makedirs(os.path.join(EVD, "replay"), exist_ok=True)
    for f in glob.glob(os.path.join(EVD, "replay", pid + "-*.json")):
        os.unlink(f)
    ev = {
        "property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(keys), "rule": mod.RULE,
            "samples": samples[:8] or ["none"],
            "jobs": len(jobs), "observed": counters,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if vague:
        ev["coverage"]["inconclusive"] = vague[:10]
    if kf:
        ev["coverage"]["known_findings_seen"] = sorted(seen_known)
    with open(os.path.join(EVD, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s %s seed=%d: %d evaluations, %d distinct, %d jobs, %.1fs" % (
        pid, tier, seed, evals, len(keys), len(jobs), time.time() - t0))
    print("observed:", json.dumps(counters, sort_keys=True))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if new:
        byprio = {}
        for v in new:
            byprio.setdefault(v["mech"], []).append(v)
        n = 0
        for mech, vs in sorted(byprio.items())[:8]:
            path = os.path.join(EVD, "replay", "%s-%d.json" % (pid, n))
            n += 1
            with open(path, "w") as f:
                json.dump(vs[0], f, indent=1, default=str)
            print("  [%s] %s: %s" % (mech, vs[0]["job"]["name"], vs[0]["msg"]))
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, ROOT)))
        return 1
    if vague:
        for s in vague[:10]:
            print("INCONCLUSIVE:", s)
        return 3
    return 0


sys.exit(main())
