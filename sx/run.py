"""Decides one property: python sx/run.py C01 [--tier quick|thorough] [--case NAME] [--replay FILE] [-v]"""
import argparse
import glob
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.setrecursionlimit(20000)

DEFAULTS = dict(max_paths=4000, time_s=150, check_timeout=20000, branch_timeout=6000, witnesses=4)


def _case_worker(prop, idx, tier, q, debug):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (9 << 30, 9 << 30))
        from sx import explore, sym
        import io
        import contextlib
        import warnings
        import numpy as np
        warnings.simplefilter("ignore")
        np.seterr(all="ignore")
        explore.DEBUG = debug
        explore.DUMP = os.environ.get("SX_DUMP")
        explore.SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
        mod = importlib.import_module(f"props.{prop}")
        case = mod.cases(tier)[idx]
        o = dict(DEFAULTS)
        if tier == "thorough":
            o.update(time_s=600, max_paths=40000, check_timeout=60000)
        o.update(case.get("opts", {}))
        t0 = time.time()
        out = io.StringIO()
        with (contextlib.nullcontext() if debug else contextlib.redirect_stdout(out)):
            e = explore.Explorer(case["f"], case.get("args", {}), **o)
            e.run()
        from sx import loader
        ent = set()
        for ld in loader._loaders.values():
            ent |= ld.entered
        st = e.stats
        q.send((dict(
            name=case["name"], args={k: _j(v) for k, v in case.get("args", {}).items()}, paths=st.paths, branches=st.branches, forks=st.forks,
            queries=st.queries, solver_s=round(st.solver_s, 3), checks=st.checks, discharged=st.discharged, trivial=st.trivial,
            unknown=st.unknown, refinements=st.refinements, witnesses=st.witnesses, mismatch=st.witness_mismatch,
            labels=e.labels, notes=e.notes, violations=e.violations, samples=e.samples, exhausted=e.exhausted,
            functions=sorted(ent), wall=round(time.time() - t0, 2))))
    except BaseException as ex:
        q.send((dict(name=f"case {idx}", error=f"{type(ex).__name__}: {ex}", tb=traceback.format_exc()[-3000:])))
    q.close()
    sys.stdout.flush()
    os._exit(0)


def _j(v):
    try:
        json.dumps(v)
        return v
    except TypeError:
        return repr(v)


def run_cases(prop, cases, tier, jobs, debug, known=()):
    ctx = mp.get_context("fork")
    from multiprocessing.connection import wait
    pending = list(range(len(cases)))
    # long ones first
    pending.sort(key=lambda i: -cases[i].get("weight", 1))
    live, res = {}, {}
    # a quick run answers well within its 900 s; once a violation is confirmed the rest gets a short while
    end = time.time() + (float(os.environ.get("SX_TOTAL", "600")) if tier == "quick" else 6 * 3600)
    while pending or live:
        if time.time() > end:
            for i in pending:
                res[i] = dict(name=cases[i]["name"], error="not run: total time")
            pending = []
            for r, (i, p, dl) in list(live.items()):
                if time.time() > end + 5:
                    p.kill()
                    p.join()
                    res[i] = dict(name=cases[i]["name"], error="stopped: total time")
                    live.pop(r)
        while pending and len(live) < jobs:
            i = pending.pop(0)
            r, w = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_case_worker, args=(prop, i, tier, w, debug))
            p.start()
            w.close()
            lim = 600 if tier == "thorough" else DEFAULTS["time_s"]
            lim = cases[i].get("opts", {}).get("time_s", lim)
            live[r] = (i, p, time.time() + lim * 1.5 + 60)
        for r in wait(list(live), timeout=1.0):
            i, p, dl = live.pop(r)
            try:
                res[i] = r.recv()
                if res[i].get("violations") and cases[i]["name"] not in known:
                    end = min(end, time.time() + (60 if tier == "quick" else 600))
            except EOFError:
                res[i] = dict(name=cases[i]["name"], error="worker died")
            r.close()
            p.join()
        for r, (i, p, dl) in list(live.items()):
            if time.time() > dl:
                p.kill()
                p.join()
                res[i] = dict(name=cases[i]["name"], error="hard time limit")
                live.pop(r)
    return [res[i] for i in range(len(cases))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-d", action="store_true")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SX_JOBS", "8")))
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    mod = importlib.import_module(f"props.{prop}")
    if a.replay:
        return replay(mod, a.replay)
    cases = mod.cases(a.tier)
    if a.case:
        keep = [i for i, c in enumerate(cases) if re.search(a.case, c["name"])]
    else:
        keep = list(range(len(cases)))
    if a.case:
        orig = mod.cases
        sel = [cases[i] for i in keep]
        mod.cases = lambda tier: sel
        cases = sel
    known = load_findings(prop)
    res = run_cases(prop, cases, a.tier, a.jobs, a.d, known)
    rc = report(prop, mod, cases, res, a, known, time.time() - t0)
    return rc


def load_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    return {f["case"]: f for f in json.load(open(p))["findings"] if f["property"] == prop}


def report(prop, mod, cases, res, a, known, wall):
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    for f in glob.glob(os.path.join(HERE, "evidence", "replays", f"{prop}-*.json")):
        os.remove(f)
    viol, found, inconc, errs = [], [], [], []
    tot = dict(paths=0, branches=0, queries=0, solver_s=0.0, checks=0, discharged=0, trivial=0, unknown=0, refinements=0, witnesses=0, mismatch=0)
    funcs, labels, samples = set(), {}, []
    per = []
    for c, r in zip(cases, res):
        if "error" in r:
            errs.append(f"{c['name']}: {r['error']}")
            inconc.append(f"{c['name']}: {r['error']}")
            if a.v or a.d:
                print(r.get("tb", r["error"]))
            continue
        for k in tot:
            tot[k] += r[k]
        funcs |= set(r["functions"])
        for l, n in r["labels"].items():
            labels[l] = labels.get(l, 0) + n
        for s in r["samples"]:
            if len(samples) < 10:
                samples.append({"case": r["name"], "inputs": s})
        bad = []
        fin = known.get(c["name"])
        for v in r["violations"]:
            if fin is not None and re.search(fin["label"], v["label"]) and re.search(fin.get("message", ""), str(v["message"] or "")):
                found.append((fin, v))
            else:
                v["case_name"] = c["name"]
                viol.append(v)
        n = r["notes"]
        for kind in ("unsupported", "unconfirmed", "unknown", "mismatch", "skip"):
            for what, cnt in n.get(kind, {}).items():
                if fin is not None and kind != "mismatch" and r["violations"]:
                    continue
                inconc.append(f"{c['name']}: {kind}: {what} (x{cnt})")
        if not r["exhausted"] and not r["violations"]:
            inconc.append(f"{c['name']}: budget reached after {r['paths']} paths")
        if r["checks"] == 0 and not r["violations"]:
            inconc.append(f"{c['name']}: no assertion reached")
        per.append({k: r[k] for k in ("name", "args", "paths", "branches", "queries", "solver_s", "checks", "discharged", "trivial", "unknown", "witnesses", "exhausted", "wall")})
        if a.v:
            print(f"  {r['name']}: paths={r['paths']} br={r['branches']} q={r['queries']} solver={r['solver_s']}s checks={r['checks']} unsat={r['discharged']} triv={r['trivial']} wit={r['witnesses']} wall={r['wall']} {'viol=%d' % len(r['violations']) if r['violations'] else ''}")
    for k, (fin, v) in {f["case"]: (f, v) for f, v in found}.items():
        print(f"KNOWN-FINDING: property={prop} {fin['what']}")
    for i, v in enumerate(viol):
        rp = os.path.join("evidence", "replays", f"{prop}-{i + 1}.json")
        json.dump({"property": prop, "case_name": v["case_name"], "tier": a.tier, **{k: _j(x) for k, x in v.items()}}, open(os.path.join(HERE, rp), "w"), indent=1)
        print(f"VIOLATION property={prop} replay={rp}")
        print(f"  case {v['case_name']}: {v['label']} {v['message'] or ''}")
        print(f"  inputs: {dict(list(v['values'].items())[:16])}")
    for s in inconc[:60]:
        print(f"INCONCLUSIVE {s}")
    cov = {
        "states": max(1, tot["paths"]), "transitions": tot["branches"], "traces_validated_against_impl": tot["witnesses"],
        "samples": samples or [{"note": "no path witness"}],
        "functions_encoded": sorted(funcs), "bounds": mod.BOUNDS, "assertions": labels,
        "queries": tot["queries"], "solver_s": round(tot["solver_s"], 2), "assertions_evaluated": tot["checks"],
        "discharged_by_solver": tot["discharged"], "discharged_by_simplification": tot["trivial"], "unknown": tot["unknown"],
        "transcendental_refinements": tot["refinements"], "encoding_mismatches": tot["mismatch"],
        "cases": per, "inconclusive": inconc, "known_findings": [f["what"] for f, _ in found],
        "exhaustive_within_bounds": not inconc,
    }
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking", "coverage": cov, "assumptions": list(ASSUME) + list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(wall, 2), "violations": len(viol)}
    cov["violation_list"] = [f"{v['case_name']}: {v['label']} {v['message'] or ''}" for v in viol]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)
    print(f"{prop} {a.tier}: cases={len(cases)} paths={tot['paths']} queries={tot['queries']} solver={tot['solver_s']:.1f}s assertions={tot['checks']} "
          f"(solver {tot['discharged']}, simplified {tot['trivial']}) witnesses={tot['witnesses']} inconclusive={len(inconc)} violations={len(viol)} wall={wall:.1f}s")
    if viol:
        return 1
    if tot["checks"] == 0 and not found:
        print("nothing was decided")
        return 2
    return 0


ASSUME = [
    "CPython and numpy 1.26 semantics as encoded in sx/sym.py and sx/arr.py (path witnesses are replayed against the real numpy)",
    "float operations: real arithmetic plus a rounding error of at most half an ulp at the bound of the result, exact where grid tracking shows exactness",
    "third-party packages that are not installed (tensorflow, onnx, tflite, dimod, neal, simanneal, qiskit, pydantic) are stand-ins: data containers, and samplers/annealers/random sources returning arbitrary values",
]


def replay(mod, f):
    from sx import explore
    r = json.load(open(f))
    case = next(c for c in mod.cases(r.get("tier", "quick")) if c["name"] == r["case_name"])
    if r.get("reach"):
        e = explore.Explorer(case["f"], case.get("args", {}), **dict(DEFAULTS, **case.get("opts", {}))).run()
        print([(v["label"], v["message"]) for v in e.violations])
        return 1 if e.violations else 0
    res = explore.run_concrete(case["f"], case.get("args", {}), r["values"])
    print(res[:3])
    return 1 if res[0] == "fail" else 0


if __name__ == "__main__":
    sys.exit(main())
