"""Harness listing and evidence, without importing torch."""
import importlib
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ASSUMPTIONS = [
    "real-number semantics: floating-point rounding, overflow and NaN sign are outside the claim (NaN/inf from 0/0, x/0, sqrt(<0), arccos(|x|>1) are modelled)",
    "double constants are read as the simplest rational (or rational multiple of pi) they round from",
    "torch/numpy operators behave as their documentation says (the engine's operator semantics replace them); every harness's first path is compared with the real operators at a concrete witness",
    "sin/cos/arc functions and exp are constrained by algebraic identities, ranges, signs and monotonicity, not by their full graphs (sound for proofs; counterexamples are confirmed on the real code)",
    "z3 is trusted for unsat verdicts",
]


def harnesses(prop, tier):
    from . import harness as HM

    importlib.import_module("harness.%s" % prop.lower())
    out = []
    for h in HM.REGISTRY.get(prop, {}).values():
        if tier in h.tiers:
            doc = (h.fn.__doc__ or "").strip()
            out.append({"name": h.name, "opts": h.opts, "doc": doc})
    return out


def write_evidence(prop, tier, seed, hs, results, violation, problems, wall):
    meta = {h["name"]: h for h in hs}
    ob = sum(r.get("obligations", 0) for r in results)
    nf = sum(r.get("nfail", 0) for r in results)
    cov = {
        "explanation": "bounded symbolic execution of the real code with every obligation decided by polynomial normalisation and z3 over all input values within the stated bounds",
        "harnesses": [
            {
                "name": r["harness"],
                "what": meta[r["harness"]]["doc"],
                "functions_encoded": meta[r["harness"]]["opts"].get("functions", []),
                "bounds": meta[r["harness"]]["opts"].get("bounds", ""),
                "stubs": meta[r["harness"]]["opts"].get("stubs", []),
                "paths_explored": r.get("paths"),
                "paths_pruned_infeasible": r.get("pruned"),
                "reachability_witness": r.get("witness"),
                "paths_reaching_the_end": r.get("reached"),
                "obligations": r.get("obligations"),
                "discharged_by": r.get("proved"),
                "not_discharged": r.get("nfail"),
                "solver_queries": r.get("queries"),
                "solver_sat_unsat_unknown": [r.get("sat"), r.get("unsat"), r.get("unknown")],
                "solver_seconds": r.get("solver_s"),
                "wall_seconds": r.get("wall_s"),
                "operators_encoded": r.get("ops"),
                "values_compared_with_real_code_at_witness": r.get("encoding_validated_values"),
                "inconclusive": r.get("inconclusive"),
                "violation": r.get("violation"),
                "replay": r.get("replay"),
            }
            for r in results
        ],
        "obligations": ob,
        "discharged": ob - nf,
        "solver_queries": sum(r.get("queries", 0) or 0 for r in results),
        "solver_seconds": round(sum(r.get("solver_s", 0) or 0 for r in results), 2),
        "paths": sum(r.get("paths", 0) or 0 for r in results),
        "samples": [r.get("witness") for r in results if r.get("witness")][:3],
        "exhaustive": False,
        "problems": problems,
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
