"""Driver for the programs in the repository that use the library: examples, experiments and the playground (C40)."""
import contextlib
import importlib
import io
import os
import re
import runpy
import sys
import warnings

import drv_relnet as R
from drv_relnet import driver
from relrec import PV, REPO, fx, num, RelationGraph

warnings.filterwarnings("ignore")
SCRIPTS = os.path.join(REPO, "Python", "research", "scripts")
WORD = {"1c": "1¢", "5c": "5¢", "25c": "25¢"}


@contextlib.contextmanager
def quiet():
    """captures what is printed; nothing is drawn"""
    real = PV.Network.show
    PV.Network.show = lambda *a, **k: None
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            yield out
    finally:
        PV.Network.show = real


def load(name):
    """the module, or None where it is not there (any more) or needs something that is not installed"""
    try:
        with quiet():
            return importlib.import_module(name)
    except ImportError:
        return None


def graph_obs(case, g):
    return dict(bag=case.ebag(case.items(g.outcomes)), vars=case.evars(g.variables),
                rels=[case.tok(r) for r in g.relations])


NOTHING = dict(bag=[], vars=[], rels=[])


def emit_net(case, op, f, **kw):
    def g():
        with quiet():
            o = f()
        return o, graph_obs(case, o)
    ok, x = case.call(g)
    case.emit(op, ok, [], **(x[1] if ok else NOTHING), **kw, err="" if ok else repr(x)[:100])
    return x[0] if ok else None


def lines_of(text):
    """the printed outcomes: [[count, probability], ...] and their texts"""
    got = re.findall(r"^\s*ω = (.*), c = (\d+), P\(ω\) = ([-+.\de]+)\s*$", text, re.M)
    return [[num(int(c)), fx(p)] for _, c, p in got], [t for t, _, _ in got]


def text_of(ws):
    return " ".join(WORD.get(w, w) for w in ws)


def toss(rng):
    c = rng.choice(["1c", "5c", "25c"])
    ws = [c, rng.choice("HT")]
    if rng.random() < .6:
        ws += [rng.choice(["then", "then", "and", "before"]), rng.choice([x for x in WORD if x != c]), rng.choice("HT")]
    return ws


def bad_toss(rng):
    k = rng.randrange(6)
    ws = toss(rng)
    if k == 0:
        return [ws[0], ws[1], "then", ws[0], rng.choice("HT")]
    if k == 1:
        return ws[:1]
    if k == 2:
        return [rng.choice(["2c", "H", "10c"]), "H"]
    if k == 3:
        return [ws[0], rng.choice(["X", "h1"])]
    if k == 4:
        return [ws[0], ws[1], "then", ws[0]]
    return ["1c", "H", "then", "5c", "H", "then"]


def toss_series(cx, case, series):
    m = load("scripts.examples.building_net_from_coin_toss")
    if m is None or not hasattr(m, "build_relation_net"):
        return
    for T in series:
        g = emit_net(case, "toss", lambda: m.build_relation_net([text_of(ws) for ws in T]), texts=T)
        if g is not None and hasattr(m, "describe_relation_net") and cx.rng.random() < .5:
            printed(case, g, lambda: m.describe_relation_net(g))


def printed(case, g, f):
    def run():
        with quiet() as out:
            f()
        return lines_of(out.getvalue())
    ok, x = case.call(run)
    if ok and not x[0]:
        return          # it is not said how the description looks
    case.emit("printed", ok, [], bag=case.ebag(case.items(g.outcomes)), res=x[0] if ok else [], texts=x[1] if ok else [],
              want=[str(o) for o in g.outcomes.samples()])


def toss_random(cx, case):
    rng = cx.rng
    series = []
    for _ in range(4):
        pool = [toss(rng) for _ in range(rng.randint(1, 5))]
        T = [rng.choice(pool) if rng.random() < .5 else toss(rng) for _ in range(rng.randint(1, 14))]
        if rng.random() < .25:
            T.insert(rng.randint(0, len(T)), bad_toss(rng))
        series.append(T)
    toss_series(cx, case, series)


# ------------------------------------------------------------------ networks given as tables
def described(m, names, values):
    """the network m makes of other tables in place of its own; None where the tables are not taken from there"""
    if m is None or not hasattr(m, "make_relation_graph") or not all(hasattr(m, n) for n in names):
        return None
    old = [getattr(m, n) for n in names]
    try:
        for n, v in zip(names, values):
            setattr(m, n, v)
        with quiet():
            return m.make_relation_graph()
    finally:
        for n, v in zip(names, old):
            setattr(m, n, v)


def content(g):
    return sorted((str(o), c) for o, c in g.outcomes.items())


def reads_tables(case, m, names, values):
    """does the module read its tables when the network is made?"""
    try:
        with quiet():
            own = m.make_relation_graph()
        other = described(m, names, values)
        return other is not None and content(own) != content(other)
    except Exception:
        return True


def pair_net(cx, case):
    rng = cx.rng
    m = load("scripts.experiments.comparing_with_markov_network")
    if m is None or not hasattr(m, "make_relation_graph") or not hasattr(m, "nodes") or not hasattr(m, "edges"):
        return
    emit_net(case, "pair_net", m.make_relation_graph, nodes=list(m.nodes), tables=[[list(e), list(v)] for e, v in m.edges])
    if not reads_tables(case, m, ["nodes", "edges"], [["A", "B"], [(["A", "B"], [1, 1, 1, 977])]]):
        return
    for _ in range(3):
        n = rng.randint(2, 5)
        nodes = [chr(65 + i) for i in rng.sample(range(26), n)]
        pairs = [[a, b] for i, a in enumerate(nodes) for b in nodes[i + 1:]]
        tables = [([a, b] if rng.random() < .5 else [b, a], [rng.randint(1, 9) for _ in range(4)])
                  for a, b in rng.sample(pairs, rng.randint(1, len(pairs)))]
        if rng.random() < .2:
            e, v = rng.choice(tables)
            tables.append((e[::-1], [rng.randint(1, 9) for _ in range(4)]))
        emit_net(case, "pair_net", lambda: described(m, ["nodes", "edges"], [nodes, tables]), nodes=nodes,
                 tables=[[list(e), list(v)] for e, v in tables])


def cpd_tables(config, factor):
    return [dict(v=v, card=card, ps=list(ps or []), pcards=list(pc or []), rows=[[round(p * factor) for p in row] for row in cpd])
            for v, (card, cpd, ps, pc) in config.items()]


def cpd_net(cx, case):
    rng = cx.rng
    m = load("scripts.experiments.comparing_with_bayes_network")
    if m is None or not hasattr(m, "make_relation_graph") or not hasattr(m, "net_config") or not hasattr(m, "prop_factor"):
        return
    emit_net(case, "cpd_net", m.make_relation_graph, tables=cpd_tables(m.net_config, m.prop_factor))
    if not reads_tables(case, m, ["net_config", "prop_factor"], [{"X": (2, [[.25], [.75]], None, None)}, 64]):
        return
    for _ in range(3):
        n = rng.randint(1, 5)
        vs = [chr(65 + i) for i in rng.sample(range(26), n)]
        config = {}
        for i, v in enumerate(vs):
            card = rng.randint(2, 3)
            ps = rng.sample(vs[:i], min(i, rng.choice([0, 1, 1, 2, 3])))
            pc = [config[q][0] for q in ps]
            combos = 1
            for k in pc:
                combos *= k
            cols = [R.part_of(rng, 64, card) for _ in range(combos)]
            config[v] = (card, [[col[i] / 64 for col in cols] for i in range(card)], ps or None, pc or None)
        if rng.random() < .4:       # a variable may be described before its parents
            config = {v: config[v] for v in rng.sample(vs, n)}
        emit_net(case, "cpd_net", lambda: described(m, ["net_config", "prop_factor"], [config, 64]), tables=cpd_tables(config, 64))


# ------------------------------------------------------------------ the playground
def sub_graphs(cx, case, n):
    path = os.path.join(SCRIPTS, "playaround", "number_of_subgraphs.py")
    if not os.path.exists(path):
        return

    def f():
        with quiet():
            make = runpy.run_path(path).get("make_all_sub_graphs")
            net = make(n)
        comps = {}
        for x in net.nodes:
            k, i = re.fullmatch(r"N(\d+)_(\d+)", x["id"]).groups()
            comps.setdefault(i, [[], []])[0].append(int(k))
        for e in net.edges:
            (a, i), (b, j) = [re.fullmatch(r"N(\d+)_(\d+)", e[k]).groups() for k in ("from", "to")]
            comps[i][1].append([[int(a), int(b)], e.get("title", "?")])
            if i != j:
                comps[i][1].append([[0, 0], "between"])
        return [comps.pop("0", [[], []])[0], list(comps.values())]
    ok, x = case.call(f)
    case.emit("sub_graphs", ok, [], n=n, single=x[0] if ok else [], res=x[1] if ok else [], err="" if ok else repr(x)[:100])


# ------------------------------------------------------------------ whole programs
def program(cx, case, name, check):
    """runs a script as a user would; what it claims is checked by itself, what it prints by the specification"""
    path = os.path.join(SCRIPTS, *name.split("/"))
    if not os.path.exists(path):
        return
    cwd, argv = os.getcwd(), sys.argv
    sys.argv = [path]

    def f():
        with quiet() as out:
            runpy.run_path(path, run_name="__main__")
        return out.getvalue()
    try:
        ok, x = case.call(f)
    finally:
        os.chdir(cwd)
        sys.argv = argv
    if not ok and isinstance(x, ImportError):
        return
    case.emit("program", ok, [], name=name, err="" if ok else repr(x)[:200])
    m = load("scripts.examples.building_net_from_coin_toss")
    if ok and check and m is not None and hasattr(m, "experiment_results"):
        rows, _ = lines_of(x)
        back = {v: k for k, v in WORD.items()}
        T = [[back.get(w, w) for w in t.split(" ")] for t in m.experiment_results]
        if rows:
            case.emit(check, True, [], texts=T, res=rows)


PROGRAMS = [("experiments/comparing_with_bayes_network.py", None), ("experiments/comparing_with_markov_network.py", None),
            ("experiments/random_variables_distribution_for_all_outcomes.py", None),
            ("examples/building_net_with_joint_probability.py", "toss_joint"),
            ("examples/building_net_with_conditional_probability.py", "toss_given"),
            ("examples/building_net_from_coin_toss.py", "toss_printed")]


@driver("C40")
def c40(cx):
    plans = R.some(cx, cx.plan, 60, 600)
    for i in range(0, len(plans), 12):
        yield cx.run("plan", toss_series, plans[i:i + 12])
    for _ in range(cx.n(8, 100)):
        yield cx.run("toss", toss_random)
    for _ in range(cx.n(4, 40)):
        yield cx.run("pairs", pair_net)
        yield cx.run("cpds", cpd_net)
    for x in cx.mine(PROGRAMS):
        yield cx.run("program", program, *x)
    for n in cx.mine([2, 3, 4])[::-1]:
        yield cx.run("sub", sub_graphs, n)


if __name__ == "__main__":
    R.main()
