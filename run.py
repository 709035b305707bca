#!/usr/bin/env python3-vt
"""usage: run.py <property> [quick|thorough]     decides one property (see DESIGN.md)"""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)
REALPY = os.environ.get("VERIF_REALPY", "/opt/venv/bin/python")


def _work(args):
    modname, case, opts = args
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    if time.time() > opts["deadline"] - 1:
        return dict(case=case, error="inconclusive: not started within the time budget", failures=[], samples=[], undecided=[],
                    stats={}, wall=0, files=[], logs=[])
    opts = dict(opts, case_s=min(opts["case_s"], max(1.0, opts["deadline"] - time.time())))
    mod = importlib.import_module("props." + modname)
    if getattr(mod, "NEEDS", "") == "vhdl":
        from vhdl import venv as eng
    else:
        from engine import symenv as eng
    try:
        return eng.run_case(mod, case, opts)
    except BaseException as e:
        return dict(case=case, error=f"worker: {type(e).__name__}: {e}", failures=[], samples=[], undecided=[], stats={},
                    wall=0, files=[], logs=[])


def replay_inputs(mod, modname, inputs):
    """run inputs on the real code; list of result dicts"""
    if getattr(mod, "NEEDS", "") == "vhdl":
        from vhdl import venv
        return venv.replay(mod, inputs)
    if not inputs:
        return []
    import tempfile
    with tempfile.TemporaryDirectory(prefix="verif_replay_") as td:
        fn = os.path.join(td, "in.json")
        json.dump(dict(module=modname, inputs=inputs), open(fn, "w"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([REALPY, os.path.join(VERIF, "replay", "replay.py"), fn], capture_output=True, text=True,
                           env=env, timeout=600)
    for l in p.stdout.splitlines():
        if l.startswith("RESULT "):
            return json.loads(l[7:])
    raise RuntimeError("replay failed: " + p.stderr[-2000:])


def known_findings(prop):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn)).get("findings", []) if k["property"] == prop]


def replay_file(fn):
    d = json.load(open(fn))
    mod = importlib.import_module("props." + d["module"])
    r = replay_inputs(mod, d["module"], [d["input"]])[0]
    print(json.dumps(r))
    return 1 if r["status"] == "fail" else 0


def main():
    prop = sys.argv[1]
    if prop == "--replay":
        return replay_file(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    verbose = "-v" in sys.argv
    serial = "--serial" in sys.argv
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    t0 = time.time()
    modname = prop.lower()
    mod = importlib.import_module("props." + modname)
    budget = getattr(mod, "BUDGET", {"quick": 240, "thorough": 3000})[tier]
    total = float(os.environ.get("VERIF_BUDGET", 0)) or getattr(mod, "TOTAL", {"quick": 640, "thorough": 36000})[tier]
    opts = dict(seed=seed, verbose=verbose, case_s=budget, deadline=t0 + total, **getattr(mod, "OPTS", {}).get(tier, {}))
    cases = mod.cases(tier, seed)
    if only:
        cases = [c for c in cases if all(o in json.dumps(c) for o in only)]
    jobs = [(modname, c, opts) for c in cases]
    results = []
    if getattr(mod, "NEEDS", "") == "vhdl":
        from vhdl import interp
        interp.find_units(getattr(mod, "DIRS", ("hdl",)))     # parsed once, inherited by the workers
    if serial:
        for j in jobs:
            results.append(_work(j))
    else:
        nproc = min(int(os.environ.get("VERIF_JOBS", "8")), max(1, len(jobs)))
        with mp.get_context("fork").Pool(nproc, maxtasksperchild=4) as pool:
            for r in pool.imap_unordered(_work, jobs, chunksize=1):
                results.append(r)
                if verbose:
                    print(f"  {json.dumps(r['case'])} {r['wall']:.1f}s paths={r['stats'].get('paths')} "
                          f"queries={r['stats'].get('queries')} checks={r.get('checks')} solver={r['stats'].get('solver_s', 0):.1f}s "
                          f"fail={len(r['failures'])} und={len(r['undecided'])} err={r['error']}", flush=True)
                    for l in r["logs"][:int(os.environ.get("VERIF_LOGS", "5"))]:
                        print("    " + l)
                if sum(bool(r["failures"]) for r in results) >= 6:
                    pool.terminate()        # enough counterexamples
                    break
    return finish(prop, mod, modname, tier, seed, results, t0, verbose)


def finish(prop, mod, modname, tier, seed, results, t0, verbose):
    results.sort(key=lambda r: json.dumps(r["case"], sort_keys=True))
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            tot[k] = tot.get(k, 0) + v
    # ---- encoding validation: every sampled path model is run through the real code
    samples = [s for r in results for s in r["samples"]]
    fails = [f for r in results for f in r["failures"]]
    reps = replay_inputs(mod, modname, [s["input"] for s in samples] + [f["input"] for f in fails])
    rs, rf = reps[:len(samples)], reps[len(samples):]
    validated, mismatches = 0, []
    for s, r in zip(samples, rs):
        if r["status"] == "ok" and r["obs"] == s["obs"]:
            validated += 1
        else:
            mismatches.append(dict(input=s["input"], symbolic=s["obs"], real=r))
    # a validation run that fails on the real code is itself a reproduced violation
    viol = []
    for s, r in zip(samples, rs):
        if r["status"] == "fail":
            viol.append((s["input"], r["label"]))
    unrepro = []
    for f, r in zip(fails, rf):
        if r["status"] == "fail":
            viol.append((f["input"], r["label"]))
        else:
            unrepro.append(dict(label=f["label"], input=f["input"], real=r))
    mismatches = [m for m in mismatches if m["real"]["status"] != "fail"]
    # ---- known findings
    kf = known_findings(prop)
    new = []
    for inp, lab in viol:
        if hasattr(mod, "known") and any(mod.known(k, inp, lab) for k in kf):
            continue
        new.append((inp, lab))
    for k in kf:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    errors = [r for r in results if r["error"]]
    undec = [dict(case=r["case"], **u) for r in results for u in r["undecided"]]
    rc = 0
    if new:
        rc = 1
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        inp, lab = new[0]
        fn = os.path.join(VERIF, "evidence", "replay", f"{prop}.json")
        json.dump(dict(property=prop, module=modname, label=lab, input=inp,
                       how=f"python3-vt {VERIF}/run.py --replay {fn}"), open(fn, "w"), indent=1)
        for inp, lab in new[:5]:
            print(f"  counterexample ({lab}): {json.dumps(inp)}")
        print(f"VIOLATION property={prop} replay={fn}")
    decided = len(results) - len(errors)
    if rc == 0 and (unrepro or mismatches):
        rc = 2
        for m in (unrepro + mismatches)[:3]:
            print("ENCODING MISMATCH " + json.dumps(m)[:3000])
    if errors:
        for r in errors[:4]:
            print(f"UNDECIDED {json.dumps(r['case'])}: {r['error']}")
            if verbose and r.get("trace"):
                print(r["trace"])
        if rc == 0 and decided * 2 < len(results):
            rc = 2
    if undec:
        print(f"UNDECIDED obligations: {len(undec)}; first: {json.dumps(undec[0])[:400]}")
        if rc == 0 and len(undec) * 2 > max(1, tot.get("obligations", 0)):
            rc = 2
    wall = time.time() - t0
    files = sorted({f for r in results for f in r["files"]})
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "model_checking"),
              coverage=dict(
                  states=tot.get("paths", 0),
                  transitions=tot.get("queries", 0) + tot.get("ctl_queries", 0),
                  traces_validated_against_impl=validated,
                  samples=[s["input"] for s in samples[:3]],
                  explanation="states = symbolic path end states; transitions = solver queries that decided branches and "
                              "assertions; traces_validated = solver models of explored paths re-run on the real code with "
                              "identical observed outputs",
                  cases=len(results), cases_undecided=len(errors), obligations=tot.get("obligations", 0),
                  obligations_discharged=tot.get("discharged", 0), obligations_undecided=len(undec),
                  checks=sum(r.get("checks", 0) for r in results),
                  checks_closed_by_normal_form=sum(r.get("syntactic", 0) for r in results),
                  bv_queries=tot.get("queries", 0), bv_unsat=tot.get("unsat", 0), bv_sat=tot.get("sat", 0),
                  bv_unknown=tot.get("unknown", 0), lia_queries=tot.get("ctl_queries", 0), cubes=tot.get("cubes", 0),
                  solver_s=round(tot.get("solver_s", 0), 2),
                  functions_encoded=getattr(mod, "FUNCTIONS", []), source_files=files,
                  bounds=getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {}).get("quick", "see DESIGN.md")),
                  outside=getattr(mod, "OUTSIDE", "")),
              assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: cases={len(results)} paths={tot.get('paths', 0)} checks={ev['coverage']['checks']} "
          f"queries={tot.get('queries', 0)} validated={validated}/{len(samples)} undecided={len(undec)}+{len(errors)} "
          f"solver={tot.get('solver_s', 0):.1f}s wall={wall:.1f}s rc={rc}")
    return rc


if __name__ == "__main__":
    sys.exit(main())
