#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--procs N] [-v]

Decides one property of /repo's current pyactr by symbolic execution and z3.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check
itself failed (vacuous, crashed, or a counterexample did not replay)."""

import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0" or os.environ.get("PYTHONDONTWRITEBYTECODE") != "1":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

from sx import runner, instr  # noqa: E402


def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)


def matches(entry, v):
    """A listed finding covers a violation with this harness, label and inputs."""
    if entry.get("status") != "open" or entry["property"] != v["property"]:
        return False
    m = entry["match"]
    if m.get("harness") and m["harness"] != v["harness"]:
        return False
    if "label" in m and not all(l == m["label"] or l.startswith(m["label"]) for l in v["labels"]):
        return False
    for k, val in m.get("params", {}).items():
        if v["params"].get(k) != val:
            return False
    for k, val in m.get("inputs", {}).items():
        if v["inputs"].get(k) != val:
            return False
    return True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--procs", type=int)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    prop = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    instr.load_pyactr()
    mod = importlib.import_module("harness." + prop.lower())
    jobs = mod.jobs(tier)
    if a.only:
        jobs = [j for j in jobs if a.only in j.name()]

    known = load_known()
    enough = int(os.environ.get("VERIF_FAILFAST", "3"))  # jobs with an unlisted violation after which no more are run
    found = []

    def progress(r):
        if any(not any(matches(e, v) for e in known["findings"]) for v in r["violations"]):
            found.append(r["job"])
        if a.v:
            s = r.get("stats", {})
            print(f"  {r['job']}: paths {s.get('paths')} aborted {s.get('aborted')} checks {s.get('checks')} q {s.get('check_queries')} "
                  f"solver {s.get('solver_s', 0):.1f}s wall {r.get('wall')}s complete {r['complete']} viol {len(r['violations'])} "
                  f"unrep {len(r['unreproduced'])} undec {len(r['undecided'])} engfail {len(r['engine_failures'])} cuts {r['path_cuts']} "
                  f"val {r['validated']}/{r['validated_aborted']} conc {s.get('concretizations')}", flush=True)
            for x in r["engine_failures"][:2]:
                print("     ENGINE:", x[-1600:])
            for x in r["unreproduced"][:2]:
                print("     UNREPRODUCED:", x)
            if r.get("crash"):
                print("     CRASH:", r["crash"])
        return len(found) >= enough
    results = runner.run_jobs(jobs, prop, seed, a.procs, progress)

    viol = [v for r in results for v in r["violations"]]
    rdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(prop + "_"):
            os.remove(os.path.join(rdir, old))
    new = []
    hit = {}
    for v in viol:
        k = [e for e in known["findings"] if matches(e, v)]
        if k:
            hit[k[0]["id"]] = k[0]
        else:
            new.append(v)
    for e in known["findings"]:
        if e["property"] == prop and e.get("status") == "open":
            # listed findings are announced whenever the check still sees them
            if e["id"] in hit:
                print(f"KNOWN-FINDING: property={prop} {e['what']}")

    required = set(getattr(mod, "COVERS", lambda t: [])(tier))
    covered = {}
    for r in results:
        for c, n in r["covers"].items():
            covered[c] = covered.get(c, 0) + n
    missing = sorted(required - set(covered))
    crashes = [r["crash"] for r in results if r.get("crash")]
    unrep = [u for r in results for u in r["unreproduced"]]
    undec = [u for r in results for u in r["undecided"]]
    engf = [u for r in results for u in r["engine_failures"]]
    st = {}
    for r in results:
        for k, n in r.get("stats", {}).items():
            st[k] = st.get(k, 0) + n
    functions = sorted({f for r in results for f in r.get("functions", [])})
    labels = {}
    for r in results:
        for k, n in r["labels"].items():
            labels[k] = labels.get(k, 0) + n
    samples = []
    for r in sorted(results, key=lambda r: r["job"]):
        samples += r["samples"][:1]
    cov = {
        "states": st.get("paths", 0),
        "transitions": st.get("decisions", 0),
        "traces_validated_against_impl": sum(r["validated"] for r in results),
        "samples": samples[:12] or [{"note": "no passing path was sampled"}],
        "what_states_means": "symbolic paths executed to their end; transitions are symbolic branch decisions with both outcomes feasible",
        "exhaustive_within_bounds": all(r["complete"] for r in results) and not engf and not undec and not sum(r["path_cuts"] for r in results),
        "jobs": len(results), "jobs_exhausted": sum(1 for r in results if r["complete"]),
        "functions_encoded": functions,
        "bounds": getattr(mod, "BOUNDS", {}).get(tier) or getattr(mod, "BOUNDS", {}).get("quick"),
        "paths_cut_by_assumptions": st.get("aborted", 0),
        "assertions_reached": st.get("checks", 0),
        "assertions_decided_by_rewriting": st.get("checks_syntactic", 0),
        "assertions_sent_to_solver_by_label": dict(sorted(labels.items())),
        "queries_discharged": {"feasibility": st.get("feas_queries", 0), "assertions": st.get("check_queries", 0)},
        "solver": "z3 " + _z3version(), "solver_s": round(st.get("solver_s", 0), 2),
        "undecided_assertions": len(undec), "unknown_feasibility": st.get("unknown_feas", 0),
        "engine_failures": len(engf), "values_concretized": st.get("concretizations", 0),
        "paths_cut_by_limits": sum(r["path_cuts"] for r in results),
        "spurious_models_refuted": sum(r["spurious_refuted"] for r in results),
        "path_models_outside_float_range_of_path": sum(r["validated_aborted"] for r in results),
        "covers": covered,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} {tier}: {len(results)} jobs ({cov['jobs_exhausted']} exhausted), {cov['states']} paths, {cov['transitions']} decisions, "
          f"{cov['assertions_reached']} assertions, {st.get('check_queries', 0)} assertion queries, solver {cov['solver_s']} s, "
          f"wall {ev['wall_s']} s, undecided {len(undec)}, engine failures {len(engf)}, validated {cov['traces_validated_against_impl']}")
    if new:
        shown = set()
        for i, v in enumerate(new):
            p = os.path.join(rdir, f"{prop}_{i}.json")
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            key = (v["harness"], tuple(v["labels"]))
            if key in shown:
                continue
            shown.add(key)
            if len(shown) <= 6:
                print(f"counterexample ({v['harness']} {v['params']}): {v['labels'][:3]} {[d for _l, d in v['failed'][:2]]} {v['error'] or ''}")
                print(f"VIOLATION property={prop} replay={p}")
        return 1
    if unrep and not all(u.get("concretized") for u in unrep):
        print("ERROR: a counterexample of the solver did not replay:", json.dumps(unrep[0])[:5000])
        return 2
    if crashes:
        print("ERROR: a job crashed:", crashes[0])
        return 2
    if missing and not a.only:
        print("ERROR: vacuous: never reached:", missing)
        return 2
    if not st.get("checks"):
        print("ERROR: vacuous: no assertion reached")
        return 2
    return 0


COMMON = [
    "floats are read as exact reals (assertions on numbers allow 1e-6); simulated times are multiples of 1e-4",
    "hash values are ideal: two hashes are equal exactly when the hashed structures are",
    "string slot values are atoms: the listed literals or any other ordinary name; the regular-expression and pyparsing text front end runs on concrete text",
    "exp, log, sqrt, tan and real powers are uninterpreted functions with sound axioms (monotonicity, inverses, known points); counterexamples are replayed with the real functions",
]


def _z3version():
    try:
        sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
