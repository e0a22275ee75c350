#!/opt/venv/bin/python
"""check.py PROP [--only HARNESS] : decide one property on /repo's working tree.

exit 0  every obligation of every harness was discharged
exit 1  a counterexample was confirmed on the real code (VIOLATION line)
exit 2  inconclusive: the engine could not decide (never reported as success)
"""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("XRD_REPO", "/repo")


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONHASHSEED="0", XRD_REPO=REPO)
    return e


def sub(args, limit):
    try:
        p = subprocess.run([PY, "-m", "engine.worker"] + args, cwd=ROOT, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, text=True)
        return p.returncode, p.stdout[-3000:]
    except subprocess.TimeoutExpired:
        return -9, "time limit of %d s" % limit


def main():
    prop = sys.argv[1]
    only = sys.argv[3:] if len(sys.argv) > 3 and sys.argv[2] == "--only" else None
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, ROOT)
    from engine import listing

    hs = listing.harnesses(prop, tier)
    if only:
        hs = [h for h in hs if h["name"] in only]
    t0 = time.time()
    budget = 780 if tier == "quick" else 6 * 3600
    tmp = tempfile.mkdtemp(prefix="xrdcheck-")
    results, lines = [], []

    def run(h, *mode):
        out = os.path.join(tmp, h["name"] + ".json")
        lim = h["opts"].get("time", 200) * (6 if tier == "thorough" else 1) + 120
        rc, log = sub(["run", prop, h["name"], tier, str(seed), out, *mode], min(lim, max(30, budget - (time.time() - t0))))
        if os.path.exists(out):
            r = json.load(open(out))
            os.remove(out)
            return r
        return {"harness": h["name"], "inconclusive": "worker ended with %s: %s" % (rc, log), "fail": [], "nfail": 0, "paths": 0, "reached": 0, "obligations": 0}

    def replay(h, r):
        """Confirm on the real code; also compares the encoding with it at the witness."""
        need = bool(r["nfail"] or r["inconclusive"])
        spec = {
            "envs": [f["env"] for f in r["fail"] if f.get("env")][:10],
            "witness": r.get("witness"),
            "draws": h["opts"].get("draws", 400) if need else h["opts"].get("smoke", 0),
            "time": h["opts"].get("replay_time", 60) if need else 10,
            "seed": seed,
            "tier": tier,
        }
        c = os.path.join(tmp, h["name"] + ".cand.json")
        out = os.path.join(tmp, h["name"] + ".rep.json")
        json.dump(spec, open(c, "w"))
        if os.path.exists(out):
            os.remove(out)
        rc, log = sub(["replay", prop, h["name"], c, out], spec["time"] + 90)
        if not os.path.exists(out):
            return {"found": None, "error": log}
        return json.load(open(out))

    def both(h):
        r = run(h)
        rep = replay(h, r)
        undecided = (r["nfail"] or r["inconclusive"]) and not rep.get("found") and not str(r["inconclusive"]).startswith(("unsupported", "engine"))
        if undecided and not violations and time.time() - t0 < budget * 0.55:
            r = run(h, "patient")
            rep = replay(h, r)
        if rep.get("found"):
            violations.append(h["name"])
        return h, r, rep

    violation = None
    violations = []
    problems = []
    with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "8"))) as pool:
        hs = sorted(hs, key=lambda h: -h["opts"].get("weight", 1))
        for h, r, rep in pool.map(both, hs):
            r["replay"] = {k: rep.get(k) for k in ("tried", "skipped", "error")}
            w = rep.get("witness")
            found = rep.get("found")
            if found is None and w and w["status"] == "fail":
                found = {"env": r["witness"], "failures": w["failures"][:10]}
            if found:
                d = os.path.join(ROOT, "evidence", "replay")
                os.makedirs(d, exist_ok=True)
                body = {"property": prop, "harness": h["name"], "env": found["env"], "failures": found["failures"], "obligations": r["fail"][:5], "how": "/opt/venv/bin/python replay.py <this file>"}
                tag = hashlib.sha1(json.dumps(body["env"], sort_keys=True, default=str).encode()).hexdigest()[:8]
                path = os.path.join(d, "%s-%s-%s.json" % (prop, h["name"], tag))
                json.dump(body, open(path, "w"), indent=1, default=str)
                r["violation"] = found["failures"]
                lines.append("%s/%s: %s" % (prop, h["name"], "; ".join(found["failures"][:3])))
                violation = violation or path
            elif r["nfail"]:
                fl = [(f["label"], f["status"], f["goal"][:200]) for f in r["fail"][:4]]
                problems.append("%s: %d obligation(s) not discharged and no counterexample reproduced: %s %s" % (h["name"], r["nfail"], fl, r["raised"][0]["error"] if r.get("raised") else ""))
            elif r["inconclusive"]:
                problems.append("%s: %s" % (h["name"], r["inconclusive"]))
            elif not r["reached"] or not r["obligations"]:
                problems.append("%s: vacuous (paths to the end: %s, obligations: %s)" % (h["name"], r["reached"], r["obligations"]))
            elif w is None or w["status"] != "ok":
                problems.append("%s: the witness does not run on the real code: %s %s" % (h["name"], w, rep.get("error")))
            else:
                a, b = r["witness_obs"], w["obs"]
                bad = len(a) != len(b) or any(x is None or not close(x, y) for x, y in zip(a, b))
                r["encoding_validated_values"] = len(a)
                if bad:
                    k = next((i for i, (x, y) in enumerate(zip(a, b)) if x is None or not close(x, y)), "length")
                    problems.append("%s: encoding and real code differ at the witness (%s: %s vs %s)" % (h["name"], k, a[k] if k != "length" else len(a), b[k] if k != "length" else len(b)))
            results.append(r)
    listing.write_evidence(prop, tier, seed, hs, results, violation, problems, time.time() - t0)
    subprocess.run(["rm", "-rf", tmp])
    for r in results:
        print("  %-34s paths %4d  obligations %5d  queries %4d  solver %6.1fs  wall %6.1fs %s" % (r["harness"], r["paths"], r["obligations"], r.get("queries", 0), r.get("solver_s", 0), r.get("wall_s", 0), "" if not (r["nfail"] or r["inconclusive"]) else "<--"))
    for line in lines:
        print("  violated:", line)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    if problems:
        for p in problems:
            print("INCONCLUSIVE", p if os.environ.get("VERIF_DEBUG") else p[:700])
        return 2
    print("OK property=%s" % prop)
    return 0


def close(x, y):
    if x != x or y != y:
        return x != x and y != y
    if x in (float("inf"), float("-inf")) or y in (float("inf"), float("-inf")):
        return x == y
    return abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y))


if __name__ == "__main__":
    sys.exit(main())
