#!/usr/bin/env python3
"""Mutation testing of the checks (not a check itself): mutate.py OUTDIR FILE... [--props C01,C02] [--jobs 8]

Mutants of /repo's sources are made in scratch copies; those which the repository's own tests kill are dropped; for
the rest one eighth of each relevant check is run (driver shard 0, recorded calls validated by TLC) until one alarms.
Survivors are listed in OUTDIR/survivors.jsonl for review."""
import argparse
import ast
import copy
import glob
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import core      # noqa
import registry  # noqa
import tlc       # noqa

SRC = "/repo/Python/research/scripts"
PROPS = {
    "relnet/activation_graph.py": ["C09", "C37", "C23", "C38", "C22"],
    "relnet/conditional_graph.py": ["C01", "C04", "C09", "C21", "C02", "C18", "C22", "C38"],
    "relnet/folded_graph.py": ["C08", "C37", "C23", "C38", "C22"],
    "relnet/graph_components.py": ["C12", "C13", "C16", "C15", "C14", "C10", "C37", "C22", "C23"],
    "relnet/relation_graph.py": ["C01", "C02", "C07", "C06", "C21", "C08", "C19", "C18", "C20", "C04", "C13", "C22", "C23", "C05", "C38"],
    "relnet/sample_graph.py": ["C10", "C11", "C13", "C14", "C15", "C16", "C05", "C19", "C22", "C23", "C18", "C38"],
    "relnet/sample_set.py": ["C17", "C18", "C19", "C03", "C06", "C07", "C02", "C21", "C22", "C37"],
    "relnet/sample_space.py": ["C12", "C05", "C20", "C18", "C07", "C21", "C22", "C19", "C23", "C38"],
    "relnet/variables_graph.py": ["C37", "C08", "C09", "C22", "C38"],
    "demo/game.py": ["C31", "C24", "C28", "C27", "C32", "C25", "C26"],
    "demo/pacman.py": ["C24", "C25", "C26", "C27", "C28", "C31", "C32", "C36"],
    "demo/util.py": ["C29", "C30", "C33", "C26", "C32", "C28", "C24"],
    "demo/layout.py": ["C31", "C24", "C27", "C28"],
    "demo/ghostAgents.py": ["C32", "C28"],
    "demo/keyboardAgents.py": ["C32", "C35", "C28"],
    "demo/graphicsDisplay.py": ["C34"],
    "demo/graphicsUtils.py": ["C34", "C35"],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def mutants(src):
    """-> [(description, source)]"""
    tree = ast.parse(src)
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:                       # raise/assert messages and docstrings are not behaviour
        if isinstance(n, (ast.FunctionDef,)) and n.name in ("__repr__", "visualize", "main_demo"):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Raise):
            skip |= {id(x) for x in ast.walk(n)} - {id(n)}
        if isinstance(n, ast.Assert) and n.msg:
            skip |= {id(x) for x in ast.walk(n.msg)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__name__" in ast.dump(n.test):
            skip |= {id(x) for x in ast.walk(n)}
        for f in ("annotation", "returns"):
            if getattr(n, f, None) is not None:
                skip |= {id(x) for x in ast.walk(getattr(n, f))}
    out = []

    def emit(i, what, fn):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        par = {}
        for p in ast.walk(t):
            for c in ast.iter_child_nodes(p):
                par[c] = p
        if fn(n, par) is False:
            return
        ast.fix_missing_locations(t)
        try:
            s = ast.unparse(t)
            compile(s, "m", "exec")
        except Exception:
            return
        out.append(("L%d %s: %s" % (getattr(nodes[i], "lineno", 0), what, ast.unparse(nodes[i])[:110].replace("\n", " | ")), s))

    def replace(n, par, new):
        p = par[n]
        for f, v in ast.iter_fields(p):
            if v is n:
                setattr(p, f, new)
            elif isinstance(v, list) and n in v:
                v[v.index(n)] = new

    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                if type(o) in CMP:
                    def f(m, par, k=k, o=o):
                        m.ops[k] = CMP[type(o)]()
                    emit(i, "cmp", f)
                if type(o) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                    def f(m, par, k=k, o=o):
                        m.ops[k] = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[type(o)]()
                    emit(i, "cmp-flip", f)
        elif isinstance(n, ast.BoolOp):
            def f(m, par):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            emit(i, "bool", f)
            for k in range(len(n.values)):
                def f(m, par, k=k):
                    del m.values[k]
                    if len(m.values) == 1:
                        replace(m, par, m.values[0])
                emit(i, "drop-operand %d" % k, f)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            emit(i, "not", lambda m, par: replace(m, par, m.operand))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            emit(i, "neg", lambda m, par: replace(m, par, m.operand))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            def f(m, par):
                m.op = BIN[type(m.op)]()
            emit(i, "bin", f)
            emit(i, "left", lambda m, par: replace(m, par, m.left))
            emit(i, "right", lambda m, par: replace(m, par, m.right))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            def f(m, par):
                m.value += 1
            emit(i, "const+1", f)
            if n.value != 0:
                def f(m, par):
                    m.value -= 1
                emit(i, "const-1", f)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            def f(m, par):
                m.value = not m.value
            emit(i, "bool-const", f)
        elif isinstance(n, ast.Constant) and n.value is None:
            pass
        elif isinstance(n, ast.IfExp):
            emit(i, "then", lambda m, par: replace(m, par, m.body))
            emit(i, "else", lambda m, par: replace(m, par, m.orelse))
        elif isinstance(n, ast.If):
            def f(m, par):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            if not isinstance(n.test, (ast.Compare, ast.BoolOp)) and not (isinstance(n.test, ast.UnaryOp)):
                emit(i, "if-not", f)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepCopy", "deepcopy") and not n.args:
                emit(i, "no-copy", lambda m, par: replace(m, par, m.func.value))
            if isinstance(n.func, ast.Name) and n.func.id in ("frozenset", "list", "set", "tuple", "sorted", "dict", "int", "float", "abs", "len") and len(n.args) == 1 and n.func.id != "len":
                emit(i, "unwrap-" + n.func.id, lambda m, par: replace(m, par, m.args[0]))
            if isinstance(n.func, ast.Name) and n.func.id in ("all", "any", "min", "max"):
                def f(m, par):
                    m.func.id = {"all": "any", "any": "all", "min": "max", "max": "min"}[m.func.id]
                emit(i, "quantifier", f)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("union", "intersection", "difference", "issubset", "issuperset"):
                def f(m, par):
                    m.func.attr = {"union": "intersection", "intersection": "union", "difference": "union", "issubset": "issuperset", "issuperset": "issubset"}[m.func.attr]
                emit(i, "setop", f)
            if len(n.args) == 2 and not n.keywords:
                def f(m, par):
                    m.args = [m.args[1], m.args[0]]
                emit(i, "swap-args", f)
            for k, kw in enumerate(n.keywords):
                def f(m, par, k=k):
                    del m.keywords[k]
                emit(i, "drop-kw", f)
        elif isinstance(n, ast.comprehension):
            for k in range(len(n.ifs)):
                def f(m, par, k=k):
                    del m.ifs[k]
                emit(i, "drop-filter", f)
        elif isinstance(n, (ast.Continue, ast.Break)):
            emit(i, "loop", lambda m, par: replace(m, par, ast.Break() if isinstance(m, ast.Continue) else ast.Continue()))
            emit(i, "drop-stmt", lambda m, par: replace(m, par, ast.Pass()))
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            emit(i, "return-none", lambda m, par: setattr(m, "value", ast.Constant(None)))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            emit(i, "drop-stmt", lambda m, par: replace(m, par, ast.Pass()))
        if isinstance(n, ast.AugAssign):
            emit(i, "aug-assign", lambda m, par: replace(m, par, ast.Assign([m.target], m.value)))
            def f(m, par):
                if type(m.op) not in BIN:
                    return False
                m.op = BIN[type(m.op)]()
            emit(i, "aug-op", f)
        if isinstance(n, (ast.Subscript,)) and isinstance(n.slice, ast.Slice) and n.slice.lower is None and n.slice.upper is None:
            emit(i, "no-slice", lambda m, par: replace(m, par, m.value))
        if isinstance(n, (ast.For, ast.While)) and not n.orelse:
            def f(m, par):
                m.body.append(ast.Break())
            emit(i, "once", f)
    seen, res = {ast.unparse(tree)}, []
    for d, s in out:
        if s not in seen:
            seen.add(s)
            res.append((d, s))
    return res


PLANS = {}


def plan_of(prop, outdir):
    f = os.path.join(outdir, "plan_%s.ndjson" % prop)
    if not os.path.exists(f):
        with open(f + ".new", "w") as h:
            for m in registry.CHECKS[prop]["models"]:
                if m.get("tier") == "thorough":
                    continue
                r = tlc.run(m["module"], m["cfg"], workers=8)
                for v in sorted({json.dumps(v, sort_keys=True) for t, v in r["prints"] if t == "PLAN"}):
                    h.write('{"m": "%s", "v": %s}\n' % (m["module"], v))
        os.rename(f + ".new", f)
    return f


def judge(prop, repo, outdir, seed, shard):
    spec = registry.CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix="mj_", dir=outdir)
    try:
        out = os.path.join(tmp, "t.ndjson")
        env = dict(os.environ, PYTHONHASHSEED=str(core.hash_seeds(seed, 8)[shard]), PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=core.HERE, VERIF_REPO=repo)
        cmd = [core.PY, "-W", "ignore", os.path.join(core.HERE, spec["driver"]), prop, str(seed), str(shard), "8", "quick", out]
        pf = plan_of(prop, outdir)
        if os.path.getsize(pf):
            cmd.append(pf)
        cwd = os.path.join(tmp, "cwd")
        os.makedirs(cwd)
        try:
            p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
            trouble = p.returncode != 0 and p.stdout.decode("utf-8", "replace")[-300:]
        except subprocess.TimeoutExpired:
            trouble = "timeout"
        cases = core.load([out])
        if spec.get("merge"):
            cases = spec["merge"](cases)
        fails, _, _ = core.validate(spec["trace"], cases, tmp, workers=1, timeout=400)
        focus = spec.get("focus")
        meta = {c["id"]: c.get("meta", {}) for c in cases}
        off = 0
        for f in fails:
            labels = focus.get(f["op"]) if isinstance(focus, dict) else None
            if meta[f["c"]].get("finding"):
                continue
            if focus is None or f["op"] == "crash" or (f["op"] in focus and (not labels or any(b == "unevaluable" or b.split(":")[0] in labels for b in f["bad"]))):
                return "killed", "%s %s %s" % (f["c"], f["op"], f["bad"])
            off += 1
        if trouble:
            return "killed", trouble
        return "quiet", "%d off" % off
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def work(job):
    outdir, rel, idx, desc, src, props, seed = job
    repo = os.path.join(outdir, "w%d" % os.getpid())
    dst = os.path.join(repo, "Python/research/scripts")
    if not os.path.exists(dst):
        os.makedirs(os.path.dirname(dst))
        shutil.copytree(SRC, dst, ignore=shutil.ignore_patterns("__pycache__"))
    target = os.path.join(dst, rel)
    try:
        with open(target, "w") as h:
            h.write(src)
        if rel.startswith("relnet"):
            try:
                p = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--deselect", "scripts/test/relnet/test_graph_components.py::TestDirectedRelation::test_repr", "scripts/test"],
                                   env=dict(os.environ, PYTHONHASHSEED="0", BROWSER="true"), cwd=os.path.dirname(dst),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90)
                if p.returncode != 0:
                    return dict(i=idx, rel=rel, desc=desc, verdict="tests")
            except subprocess.TimeoutExpired:
                return dict(i=idx, rel=rel, desc=desc, verdict="tests")
        notes = {}
        for prop in props:
            v, why = judge(prop, repo, outdir, seed, idx % 8)
            if v == "killed":
                return dict(i=idx, rel=rel, desc=desc, verdict="killed", by=prop, why=why[:200])
            notes[prop] = why
        return dict(i=idx, rel=rel, desc=desc, verdict="SURVIVED", notes=notes)
    except Exception as x:
        return dict(i=idx, rel=rel, desc=desc, verdict="error", why=repr(x)[:500])
    finally:
        shutil.copy(os.path.join(SRC, rel), target)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("outdir")
    ap.add_argument("files", nargs="*")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--props")
    ap.add_argument("--again", help="only the survivors listed in this file")
    ap.add_argument("--show", type=int)
    ap.add_argument("--every", type=int, default=1, help="one mutant in so many")
    a = ap.parse_args()
    os.makedirs(a.outdir, exist_ok=True)
    jobs = []
    again = {(r["rel"], r["desc"]) for r in map(json.loads, open(a.again)) if r["verdict"] not in ("killed", "tests")} if a.again else None
    for rel in a.files or PROPS:
        props = a.props.split(",") if a.props else PROPS[rel]
        for i, (d, s) in enumerate(mutants(open(os.path.join(SRC, rel)).read())):
            if a.show == i:
                print(s)
            if (again is None or (rel, d) in again) and (i + a.seed) % a.every == 0:
                jobs.append((a.outdir, rel, i, d, s, props, a.seed))
    if a.show is not None:
        return
    for p in sorted({p for j in jobs for p in j[5]}):
        plan_of(p, a.outdir)
    print(len(jobs), "mutants", flush=True)
    tally = {}
    with mp.Pool(a.jobs) as pool, open(os.path.join(a.outdir, "results.jsonl"), "a") as h:
        for r in pool.imap_unordered(work, jobs):
            tally[r["verdict"]] = tally.get(r["verdict"], 0) + 1
            h.write(json.dumps(r) + "\n")
            h.flush()
            if r["verdict"] not in ("tests", "killed"):
                print(json.dumps(r), flush=True)
    print(tally)
    for w in glob.glob(os.path.join(a.outdir, "w*")):
        shutil.rmtree(w)


if __name__ == "__main__":
    main()
