#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property: TLC checks the specification, its behaviours are replayed into the code under /repo, and
the histories recorded from the code are validated against the specification by TLC."""
import argparse
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import core  # noqa: E402
import registry  # noqa: E402
import tlc  # noqa: E402


def known_findings(prop):
    res = []
    f = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(f):
        for line in open(f):
            if line.strip() and not line.startswith("fixed:"):
                k = json.loads(line)
                if k["property"] == prop:
                    res.append(k)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--keep")
    a = ap.parse_args()
    t0 = time.time()
    spec = registry.CHECKS[a.prop]
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % a.prop)
    try:
        return run(a, spec, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(a, spec, tmp, t0):
    prop, tier, seed = a.prop, a.tier, a.seed
    if a.replay:
        cases = core.load([a.replay])
        fails, st, tr = core.validate(spec["trace"], cases, tmp)
        for f in fails:
            print("FAIL", json.dumps(f))
        return 1 if fails else 0

    states = trans = 0
    model_runs = []
    plan_file = os.path.join(tmp, "plan.ndjson")
    nplan = 0
    with open(plan_file, "w") as h:
        for m in spec.get("models", []):
            if m.get("tier", "quick") == "thorough" and tier == "quick":
                continue
            cfg = m["cfg"]
            r = tlc.run(m["module"], cfg, timeout=m.get("timeout", 600), simulate=m.get("simulate"), depth=m.get("depth"),
                        seed=seed, workers=m.get("workers", 8), env=m.get("env"))
            if r["rc"] != 0:
                raise core.MachineryError("the specification itself fails %s/%s:\n%s" % (m["module"], cfg, r["out"][-3000:]))
            plans = sorted({json.dumps(v, sort_keys=True) for t, v in r["prints"] if t == "PLAN"})
            for p in plans:
                h.write('{"m": "%s", "v": %s}\n' % (m["module"], p))
            nplan += len(plans)
            states += r["distinct"]
            trans += r["states"]
            model_runs.append(dict(module=m["module"], cfg=cfg, states=r["distinct"], transitions=r["states"], behaviours=len(plans)))

    files, troubles = core.drive(spec["driver"], prop, seed, tier, tmp, plan_file if nplan else None,
                       shards=spec.get("shards", 8))
    cases = core.load(files)
    cases += [c for _, c in troubles if c]
    if spec.get("merge"):
        cases = spec["merge"](cases)
    if a.keep:
        os.makedirs(a.keep, exist_ok=True)
        with open(os.path.join(a.keep, prop + ".ndjson"), "w") as h:
            for c in cases:
                h.write(json.dumps(c) + "\n")
    fails, st, tr = core.validate(spec["trace"], cases, tmp, chunk=spec.get("chunk"))
    ops = {}
    for c in cases:
        for e in c["ev"]:
            k = e["op"] + ("" if e.get("ok", True) else "/rejected")
            ops[k] = ops.get(k, 0) + 1

    focus = spec.get("focus")
    mine, off = [], []
    for f in fails:
        labels = focus.get(f["op"]) if isinstance(focus, dict) else None        # which clauses of the call are this property's
        if focus is None or f["op"] == "crash" or (f["op"] in focus and (
                not labels or any(b == "unevaluable" or b.split(":")[0] in labels for b in f["bad"]))):
            mine.append(f)
        else:
            off.append(f)
    byid = {c["id"]: c for c in cases}
    known = known_findings(prop)
    unlisted, listed = [], {}
    for f in mine:
        label = byid[f["c"]].get("meta", {}).get("finding")
        k = next((k for k in known if label and k["id"] == label and f["op"] in k["ops"]), None)
        if k:
            listed.setdefault(k["id"], k)
        else:
            unlisted.append(f)
    for k in listed.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for f in off[:5]:
        print("NOTE: off-property divergence (decided by another check): %s" % json.dumps(f))

    samples = []
    for c in cases[:: max(1, len(cases) // 3)][:3]:
        samples.append(dict(id=c["id"], events=[{k: v for k, v in e.items() if k != "out"} for e in c["ev"][:8]]))
    nev = sum(len(c["ev"]) for c in cases)
    distinct = len({json.dumps([{k: v for k, v in e.items()} for e in c["ev"]], sort_keys=True) for c in cases})
    cov = dict(states=states + st, transitions=trans + tr, traces_validated_against_impl=len(cases), samples=samples,
               model_runs=model_runs, behaviours_from_specification=nplan, events_validated=nev, distinct_traces=distinct,
               calls=ops, off_property_divergences=len(off), known_findings_seen=sorted(listed))
    core.write_evidence(prop, tier, seed, "model_checking", cov, time.time() - t0, len(unlisted), spec.get("assumptions", []))
    if unlisted:
        d = os.path.join(ROOT, "out")
        os.makedirs(d, exist_ok=True)
        f = unlisted[0]
        best = min(unlisted, key=lambda x: (len(byid[x["c"]]["ev"]), x["l"]))
        case = byid[best["c"]]
        path = os.path.join(d, "%s.ndjson" % prop)
        with open(path, "w") as h:
            h.write(json.dumps(case) + "\n")
        for f in unlisted[:8]:
            e = byid[f["c"]]["ev"][f["l"] - 1]
            print("case %s step %d: %s violates %s : %s" % (f["c"], f["l"], f["op"], ",".join(f["bad"]), json.dumps(e)[:400]))
        print("%d violating steps in %d cases" % (len(unlisted), len({f["c"] for f in unlisted})))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if troubles:
        raise core.MachineryError(troubles[0][0])
    print("OK %s: %d model states, %d behaviours of the specification, %d histories / %d calls of the code validated, %.1fs" % (
        prop, states, nplan, len(cases), nev, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except core.MachineryError as x:
        print("ERROR: %s" % x)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
