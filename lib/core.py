"""Common part of all checks: sharded drivers, trace validation, evidence, verdict."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
import tlc  # noqa: E402

NPROC = 8


class MachineryError(Exception):
    pass


def hash_seeds(seed, n):
    return [(seed * 7919 + 31 * i + 1) % 4294967295 for i in range(n)]


def crashed(prop, i, text):
    """a history of one step: the code could not be exercised at all"""
    return {"id": "%s-%d.0-driver" % (prop, i), "tab": [], "meta": {},
            "ev": [{"op": "crash", "ok": False, "out": [], "what": text[-160:], "where": text[-1500:]}]}


def drive(driver, prop, seed, tier, tmp, plan=None, shards=NPROC, timeout=None, extra_env=None):
    """runs the recording driver in parallel processes, each with its own hash seed; -> list of trace files"""
    procs = []
    outs = []
    hs = hash_seeds(seed, shards)
    for i in range(shards):
        out = os.path.join(tmp, "trace_%s_%d.ndjson" % (prop, i))
        env = dict(os.environ, PYTHONHASHSEED=str(hs[i]), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE)
        env.update(extra_env or {})
        cmd = [PY, "-W", "ignore", os.path.join(HERE, driver), prop, str(seed), str(i), str(shards), tier, out]
        if plan:
            cmd.append(plan)
        cwd = os.path.join(tmp, "cwd%d" % i)
        os.makedirs(cwd, exist_ok=True)
        procs.append((subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), out))
    end = time.time() + (timeout or (420 if tier == "quick" else 800))
    troubles = []
    for i, (p, out) in enumerate(procs):
        try:
            txt, _ = p.communicate(timeout=max(1, end - time.time()))
            if p.returncode != 0:
                txt = txt.decode("utf-8", "replace")
                troubles.append(("driver failed (%s): %s" % (p.returncode, txt[-3000:]),
                                 crashed(prop, i, txt) if p.returncode > 0 and "Traceback" in txt else None))
            elif not finished(out):
                troubles.append(("driver ended early", crashed(prop, i, "the process ended inside the code: " + txt.decode("utf-8", "replace")[-400:])))
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            troubles.append(("driver timed out", crashed(prop, i, "the code did not come to an end")))
        outs.append(out)
    return outs, troubles


def finished(f):
    with open(f, "rb") as h:
        h.seek(0, 2)
        h.seek(max(0, h.tell() - 40))
        return h.read().rstrip().endswith(b'{"end": true}')


def load(files):
    cases = []
    for f in files:
        if not os.path.exists(f):
            continue
        with open(f) as h:
            for line in h:
                if line.endswith("\n") and line.strip() and line != '{"end": true}\n':
                    cases.append(json.loads(line))
    return cases


def plain(x):
    """JSON that TLC can read: no nulls, no floats"""
    if x is None:
        return "NULL"
    if isinstance(x, float):
        return "FLOAT " + repr(x)
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {k: plain(y) for k, y in x.items()}
    return x


def validate(module, cases, tmp, timeout=800, chunk=None, workers=NPROC):
    """trace validation with TLC; -> (fails, states, transitions).  A history that TLC cannot even evaluate at some
    step (the code answered with something of another kind) fails at that step."""
    fails, states, trans = [], 0, 0
    chunk = chunk or max(1, len(cases))
    for k in range(0, len(cases), chunk):
        part = [{x: plain(c[x]) for x in c if x != "meta"} for c in cases[k:k + chunk]]
        for attempt in range(12):
            f = os.path.join(tmp, "val_%d.ndjson" % k)
            with open(f, "w") as h:
                for c in part:
                    h.write(json.dumps(c) + "\n")
            r = tlc.run(module, env={"TRACE": f}, timeout=timeout, workers=workers)
            os.unlink(f)
            want = sum(len(c["ev"]) + 1 for c in part)
            if r["rc"] == 0 and r["distinct"] == want:
                break
            got = re.findall(r"/\\ c = (\d+)\s*$", r["out"], re.M)
            lls = re.findall(r"/\\ l = (\d+)\s*$", r["out"], re.M)
            if r["rc"] == 0 or not got or not lls:
                raise MachineryError("TLC could not consume the traces (rc %s, %s states, expected %s):\n%s" % (
                    r["rc"], r["distinct"], want, r["out"][-4000:]))
            c, l = part[int(got[-1]) - 1], int(lls[-1])
            if not re.search(r"[Oo]verflow when computing", r["out"]):   # numbers beyond TLC's: no judgement
                fails.append(dict(c=c["id"], l=l + 1, op=c["ev"][l]["op"], bad=["unevaluable"],
                                  why=re.sub(r"\s+", " ", r["out"][r["out"].find("Error:"):][:400])))
            c["ev"] = c["ev"][:l]
        else:
            fails += [v for t, v in r["prints"] if t == "FAIL"]
            continue
        fails += [v for t, v in r["prints"] if t == "FAIL"]
        states += r["distinct"]
        trans += want - len(part)
    return fails, states, trans


def write_evidence(prop, tier, seed, level, coverage, wall, violations, assumptions):
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as h:
        json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage, wall_s=round(wall, 2),
                       violations=violations, assumptions=assumptions), h, indent=1)
        h.write("\n")
