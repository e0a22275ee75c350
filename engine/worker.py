"""python -m engine.worker run PROP HARNESS TIER SEED OUT     symbolic exploration
   python -m engine.worker replay PROP HARNESS CANDIDATES OUT  concrete confirmation"""
import json
import os
import sys
import time

sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REPO = os.environ.get("XRD_REPO", "/repo")
sys.path.insert(0, REPO)


def main():
    import random

    import numpy as np
    import torch

    torch.set_num_threads(1)
    mode, prop, name = sys.argv[1:4]
    from engine import harness as HM

    hs = HM.load(prop)
    H = hs[name]
    if mode == "run":
        tier, seed, out = sys.argv[4], int(sys.argv[5]), sys.argv[6]
        random.seed(seed)
        np.random.seed(seed)
        torch.manual_seed(seed)
        res = HM.run_symbolic(H, seed, tier, patient=len(sys.argv) > 7 and sys.argv[7] == "patient")
        json.dump(res, open(out, "w"), default=str)
        return
    cfile, out = sys.argv[4], sys.argv[5]
    spec = json.load(open(cfile))
    t_end = time.time() + spec.get("time", 60)
    results = {"found": None, "tried": 0, "skipped": 0}
    if spec.get("witness") is not None:
        st, f, used, obs = HM.run_concrete(H, spec["witness"], tier=spec.get("tier", "quick"))
        results["witness"] = {"status": st, "failures": f, "obs": obs}
    cands = [(e, 0, 0.0) for e in spec.get("envs", [])]
    for e in spec.get("envs", []):
        # partially keep the model
        for k in range(spec.get("perturb", 6)):
            r = random.Random(k)
            sub = {n: v for n, v in e.items() if r.random() < (0.5 if k % 2 else 0.85)}
            cands.append((sub, k, 0.3))
    for k in range(spec.get("draws", 300)):
        cands.append(({}, spec.get("seed", 1) * 10007 + k, 0.0 if k % 2 else 0.35))
    for env, seed, special in cands:
        if time.time() > t_end:
            break
        st, f, used, obs = HM.run_concrete(H, env, seed, special, tier=spec.get("tier", "quick"))
        results["tried"] += 1
        if st == "skip":
            results["skipped"] += 1
        if st == "fail":
            # the failing input must fail again on its own (a replay file is just the input)
            st2, f2, used2, _ = HM.run_concrete(H, used, 0, 0.0, tier=spec.get("tier", "quick"))
            if st2 == "fail":
                results["found"] = {"env": used, "failures": f2[:10]}
                break
    json.dump(results, open(out, "w"), default=str)


if __name__ == "__main__":
    main()
