"""Drivers for the properties of the relnet library.  usage: drv_relnet.py PROP SEED SHARD NSHARDS TIER OUT [PLAN]"""
import itertools
import json
import random
import sys

import relrec
from relrec import Case, Voc, DirectedRelation, ValueNode, RelationEdge, SampleGraphBuilder, SampleSetBuilder
import gen
from relrec import RelationGraphBuilder
from scripts.relnet.variables_graph import VariableEdge, VariableNode, VariablesGraph
from gen import make, rand_voc, rand_struct, rand_sample, rand_rel, factor_struct, scopes

D = {}


def driver(*props):
    def w(f):
        for p in props:
            D[p] = f
        return f
    return w


class Ctx:
    def __init__(self, prop, seed, shard, nshards, tier, plan):
        self.prop, self.seed, self.shard, self.nshards, self.tier = prop, seed, shard, nshards, tier
        self.plans = {}
        for x in plan:
            self.plans.setdefault(x["m"], []).append(x["v"])
        self.plan = [x["v"] for x in plan]
        self.rng = random.Random("%s/%d/%d" % (prop, seed, shard))
        self.k = 0

    def case(self, label):
        self.k += 1
        return Case("%s-%d.%d-%s" % (self.prop, self.shard, self.k, label))

    def run(self, label, f, *args, **kw):
        """one case; whatever the code under test throws at the driver itself becomes an event of the history"""
        case = self.case(label)
        k = self.rng.random()
        gen.NAMED = random.Random(str(k)) if k < .2 and self.prop not in ("C01", "C05", "C10", "C20", "C22", "C23", "C38") else None
        try:
            f(self, case, *args, **kw)
        except Exception as x:
            import traceback
            case.ev.append({"op": "crash", "ok": False, "out": [], "what": repr(x)[:200],
                            "where": traceback.format_exc()[-600:]})
        finally:
            gen.NAMED = None
        return case

    def wide(self, f, quick, thorough, modes=("values", "vars", "rels", "alike"), *args):
        """the same histories over vocabularies with many values, variables or relations"""
        for _ in range(self.n(quick, thorough)):
            gen.WIDE = self.rng.choice(modes)
            try:
                yield self.run("wide", f, *args)
            finally:
                gen.WIDE = None

    def mine(self, items):
        """this shard's part of a list"""
        return [x for i, x in enumerate(items) if i % self.nshards == self.shard]

    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough


def rel_of(q):
    return q[0] if len(q) == 1 else DirectedRelation(q[1], q[2], q[0])


def struct_of(js):
    """{"nodes": [[v, x]..], "edges": [{"ep":..,"rel":..}]} of a TLC-generated behaviour"""
    return ([tuple(n) for n in js["nodes"]],
            [(tuple(tuple(n) for n in e["ep"]), rel_of(e["rel"])) for e in js["edges"]])


def plan_voc(pl, rels=("r", "q")):
    return Voc({v: sorted(xs) for v, xs in pl["voc"].items()}, list(rels))


def plan_graph(cx, case, pl):
    """a network enumerated by TLC (MC_Bags)"""
    voc = plan_voc(pl)
    p = prov(case, voc)
    return voc, p, graph(case, p, [(struct_of(x[0]), x[1]) for x in pl["net"]], cx.rng)


def some(cx, plans, quick, thorough=10 ** 9):
    """this shard's part of the behaviours, sampled with the seed where they are too many"""
    mine = cx.mine(plans)
    n = cx.n(quick, thorough)
    if len(mine) > n:
        mine = cx.rng.sample(mine, n)
    return mine


SMALL = Voc({"a": ["1", "2"], "b": ["1"], "c": ["1"]}, ["r", "q"])


def prov(case, voc):
    return case.provider({v: set(xs) for v, xs in voc.vars.items()}, set(voc.rels))


# ============================================================================= C10, C11: sample builder
def apply_plan(case, p, b, op):
    if op["op"] == "add":
        return case.add_relation(b, [tuple(n) for n in op["ep"]], rel_of(op["rel"]))
    if op["op"] == "edges":
        return case.build_from_edges(b, [(tuple(tuple(n) for n in e["ep"]), rel_of(e["rel"])) for e in op["es"]])
    if op["op"] == "join":
        n, e = struct_of(op["s"])
        s = make(case, p, n, e)
        if s:
            case.can_join(b, s)
            return case.join(b, s)
    raise AssertionError(op)


def builder_plans(cx):
    """TLC's behaviours, grouped by their source state: replay the history, then try every outgoing call on a copy"""
    groups = {}
    for h in cx.plan:
        groups.setdefault(json.dumps(h[:-1]), []).append(h[-1])
    keys = sorted(groups)
    frac = cx.n(0.5, 1.0)
    for i, k in enumerate(keys):
        if i % cx.nshards != cx.shard:
            continue
        ops = groups[k]
        cx.rng.shuffle(ops)
        ops = ops[:max(12, int(len(ops) * frac))] if cx.tier == "quick" else ops
        for j in range(0, len(ops), 40):
            yield cx.run("plan", builder_plan, json.loads(k), ops[j:j + 40])


def builder_plan(cx, case, prefix, ops):
    p = prov(case, SMALL)
    b = case.sb_new(p)
    for op in prefix:
        apply_plan(case, p, b, op)
    for op in ops:
        c = case.sb_copy(b)
        if c:
            apply_plan(case, p, c, op)
    case.build(b)
    case.observe_all([b])


def bad_edge(rng, voc, other):
    """an argument that may or may not be acceptable"""
    vs = list(voc.vars)
    nodes = [(v, x) for v in vs for x in voc.vars[v]]
    k = rng.random()
    if k < .2:
        v = rng.choice(vs)
        return [(v, rng.choice(voc.vars[v])), (v, rng.choice(voc.vars[v]))], rng.choice(voc.rels)
    if k < .35:
        return [rng.choice(nodes), (rng.choice(vs), "no such value")], rng.choice(voc.rels)
    if k < .5:
        return [rng.choice(nodes), ("no such variable", rng.choice(nodes)[1])], rng.choice(voc.rels)
    if k < .6:
        return rng.sample(nodes, min(3, len(nodes))), rng.choice(voc.rels)
    if k < .7:
        return [rng.choice(nodes)], rng.choice(voc.rels)
    a, b = rng.choice(nodes), rng.choice(nodes)
    if k < .8:
        return [a, b], "no such relation"
    if k < .9:
        return [a, b], DirectedRelation(a[0], rng.choice(vs), rng.choice(voc.rels))
    return [a, b], DirectedRelation(a[0], b[0], "no such relation")


def random_builder(cx, case, join):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 6), maxvals=3)
    nodes = [(v, x) for v in voc.vars for x in voc.vars[v]]
    p = prov(case, voc)
    q = prov(case, voc)
    bs = [case.sb_new(p)]
    ss = []
    foreign = rand_sample(case, q, voc, rng)
    steps = rng.randint(8, 22)
    for _ in range(steps):
        b = rng.choice(bs)
        k = rng.random()
        if k < .4:
            # mostly extending calls
            cur = [tuple(n) for n in nodes]
            a, c = rng.choice(cur), rng.choice(cur)
            if rng.random() < .25:
                case.add_directed(b, a, c, rng.choice(voc.rels))
            else:
                case.add_relation(b, [a, c], rand_rel(rng, voc, a, c))
        elif k < .5:
            ep, r = bad_edge(rng, voc, None)
            case.add_relation(b, ep, r)
        elif k < .58:
            if rng.random() < .6:
                es = rand_struct(rng, voc)[1]
                if rng.random() < .3 and len(es) > 1:
                    es.pop(rng.randrange(len(es)))
                if rng.random() < .2 and es:
                    es.append((es[0][0], rng.choice(voc.rels)))
            else:
                es = [((rng.choice(nodes), rng.choice(nodes)), rng.choice(voc.rels)) for _ in range(rng.randint(0, 3))]
                if rng.random() < .3:
                    es.append(bad_edge(rng, voc, None))
            bb = b if rng.random() < .6 else case.sb_new(p)
            s = case.build_from_edges(bb, es)
            if s:
                ss.append(s)
            es2 = [(ep, r) for ep, r in es if len(set(ep)) == 2]
            if es2:
                conn = case.is_connected(es2)
                if conn and len(es2) == len(es):
                    nb = case.sb_new(p)
                    s = case.build_from_edges(nb, es2, val=False)
                    if s:
                        ss.append(s)
        elif k < .66:
            s = case.build(b)
            if s:
                ss.append(s)
        elif k < .7:
            c = case.sb_copy(b)
            if c:
                bs.append(c)
        elif k < .74 and ss:
            c = case.sb_from(rng.choice(ss))
            if c:
                bs.append(c)
        elif k < .77:
            n = rng.choice(nodes + [("no such variable", 1), (nodes[0][0], "no such value")])
            s = case.build_single(b, *n)
            if s:
                ss.append(s)
        elif k < .79:
            s = case.build_empty(b)
            if s:
                ss.append(s)
        elif k < .82:
            bs.append(case.sb_new(p))
        else:
            if rng.random() < (.75 if join else .4):
                s = rng.choice(ss) if ss and rng.random() < .4 else rand_sample(case, p, voc, rng, k=rng.choice([1, 2, 2, 3, 4]))
                if rng.random() < .05:
                    s = foreign
                elif rng.random() < .2 and two_valued(rng, voc):
                    s = make(case, p, *two_valued(rng, voc))
                elif ss and rng.random() < .35:      # the same sample but for one name
                    o = case.obj[rng.choice(ss)]
                    st = ([(n.variable, n.value) for n in o.nodes], [(tuple((n.variable, n.value) for n in e.endpoints), e.relation) for e in o.edges])
                    if len(dict(st[0])) == len(st[0]):
                        s = make(case, p, *(relabel if rng.random() < .6 else swap_value)(rng, voc, st), rng=rng, how="edges")
                if s:
                    case.can_join(b, s)
                    case.join(b, s)
    case.observe_all()


def growing_builder(cx, case, size):
    """a large connected graph built edge by edge, interleaved with rejected calls"""
    rng = cx.rng
    voc = Voc({"v%d" % i: ["x", "y"] for i in range(size)}, ["r", "s"])
    p = prov(case, voc)
    b = case.sb_new(p)
    nodes, edges = rand_struct(rng, voc, k=size, extra=rng.choice([0, .15]))
    have = set()
    for ep, r in edges:
        if rng.random() < .2:
            far = [n for n in nodes if n not in have]
            if len(far) > 1:
                case.add_relation(b, far[-2:], "r")
        case.add_relation(b, list(ep), r)
        have |= set(ep)
        if rng.random() < .15:
            case.add_relation(b, list(ep), rng.choice(["r", "s"]))
    case.build(b)
    b2 = case.sb_new(p)
    s = case.build_from_edges(b2, edges)
    if s:      # builders made from it and copied know every relation
        for b3 in (case.sb_from(s), case.sb_copy(b2)):
            for ep, r in rng.sample(edges, min(6, len(edges))):
                if b3:
                    case.add_relation(b3, list(ep), rng.choice(["r", "s"]))
            if b3 and len(nodes) > 3:
                case.add_relation(b3, rng.sample(nodes, 2), "r")
    case.is_connected(edges)
    case.is_connected(edges[:size // 2 - 1] + edges[size // 2:])


def join_orders(cx, case):
    """the pieces of one graph joined in different orders (some orders must be rejected on the way)"""
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(3, 6), maxvals=2)
    p = prov(case, voc)
    nodes, edges = rand_struct(rng, voc, k=len(voc.vars))
    pieces = []
    for ep, r in edges:
        pieces.append(make(case, p, list(ep), [(ep, r)]))
    for n in nodes[:2]:
        pieces.append(make(case, p, [n], []))
    conflicting = [(v, rng.choice(voc.vars[v])) for v in list(voc.vars)[:2]]
    pieces.append(make(case, p, conflicting, [(tuple(conflicting), rng.choice(voc.rels))]))
    bigger = rand_struct(rng, voc, k=3)
    pieces.append(make(case, p, *bigger))
    for _ in range(3):
        b = case.sb_new(p)
        rng.shuffle(pieces)
        for s in pieces:
            if s:
                case.join(b, s)
        for s in pieces:
            if s and rng.random() < .5:
                case.can_join(b, s)
                case.join(b, s)
        case.build(b)


def joined_chain(cx, case):
    """samples of many edges, joined at any place, edges in the order of their hashes"""
    rng = cx.rng
    k = rng.choice([7, 10, 13])
    voc = Voc({v: [1, "x"][:rng.randint(1, 2)] for v in rng.sample("abcdefghijklmnopqrstuvwxyz", k)}, ["r", 3])
    p = prov(case, voc)
    ns = [(v, rng.choice(voc.vars[v])) for v in voc.vars]
    shape = rng.choice(["chain", "chain", "tree"])
    edges = [((ns[i], ns[i - 1 if shape == "chain" else rng.randrange(max(0, i - 3), i)]), rng.choice(voc.rels)) for i in range(1, k)]
    at = rng.choice([0, 1, rng.randrange(1, k), k - 1])
    first = [e for e in edges if ns[at] in e[0]][:1]
    rest = [e for e in edges if e not in first]
    s = make(case, p, *at_of(edges))
    t = make(case, p, *at_of(rest if linked(rest) else edges))
    for x in (s, t):
        if x:
            b = case.sb_new(p)
            case.add_relation(b, list(first[0][0]), first[0][1])
            case.can_join(b, x)
            case.join(b, x)
            case.build(b)


def at_of(edges):
    return sorted({n for ep, _ in edges for n in ep}, key=repr), edges


def linked(edges):
    todo, have = list(edges), set()
    while todo:
        e = next((e for e in todo if not have or have & set(e[0])), None)
        if not e:
            return False
        have |= set(e[0])
        todo.remove(e)
    return True


def competing_join(cx, case):
    """samples which have several values of one variable, joined into builders which have one or none of them"""
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(3, 5), maxvals=3, minvals=2)
    p = prov(case, voc)
    for _ in range(6):
        st = two_valued(rng, voc)
        s = make(case, p, *st)
        if not s:
            continue
        (v, x), c, (_, y) = st[0]
        near = rng.choice([c, c, c, (v, x)])
        w = rng.choice([u for u in voc.vars if u != near[0]])
        n = (w, rng.choice(voc.vars[w]))
        b = case.sb_new(p)
        case.add_relation(b, [near, n], rand_rel(rng, voc, near, n))
        case.can_join(b, s)
        case.join(b, s)
        case.build(b)
        b = case.sb_new(p)
        case.join(b, s)
        case.join(b, s)
        case.build(b)
    case.observe_all()


@driver("C10")
def c10(cx):
    yield from builder_plans(cx)
    for _ in range(cx.n(60, 700)):
        yield cx.run("random", random_builder, False)
    yield from cx.wide(random_builder, 8, 80, ("alike",), False)
    for i in range(cx.n(2, 12)):
        yield cx.run("growing", growing_builder, cx.rng.choice([8, 12, 17, 25]))


@driver("C11")
def c11(cx):
    yield from builder_plans(cx)
    for _ in range(cx.n(40, 500)):
        yield cx.run("random", random_builder, True)
    yield from cx.wide(random_builder, 12, 100, ("alike",), True)
    for _ in range(cx.n(40, 500)):
        yield cx.run("orders", join_orders)
    for _ in range(cx.n(4, 40)):
        yield cx.run("competing", competing_join)
    for _ in range(cx.n(12, 100)):
        yield cx.run("long", joined_chain)


# ============================================================================= shared building blocks
def builder_of(case, p, rng, how=None):
    return lambda n, e: gen.build_quiet(case.obj[p], n, e, rng, how)


def in_units(cx, case, f, *args):
    """the same histories with every count a multiple of a large unit: the frequencies are the same, what is counted is counted in units"""
    relrec.UNIT = cx.rng.choice([2 ** 31, 10 ** 10, 3 * 10 ** 9 + 1, 10 ** 15, 2 ** 53 + 1, 7 ** 23])
    try:
        f(cx, case, *args)
    finally:
        relrec.UNIT = 0


def graph(case, p, rows, rng, name=None, how=None):
    if relrec.UNIT:
        rows = [(s, c * relrec.UNIT) for s, c in rows]
    b = case.rgb_new(p, name)
    case.load(b, rows, builder_of(case, p, rng, how))
    return case.rgb_build(b)


def bag(case, p, rows, rng, how=None):
    if relrec.UNIT:
        rows = [(s, c * relrec.UNIT) for s, c in rows]
    b = case.ssb_new(p)
    case.load(b, rows, builder_of(case, p, rng, how))
    return case.ssb_build(b)


def cnt(rng, hi=6):
    k = rng.random()
    return 1 if k < .25 else rng.randint(1, hi) if k < .9 else rng.choice([7, 10, 25, 60])


def rand_rows(rng, voc, n, empty=0.1, **kw):
    """random outcomes with counts; structures may repeat, may be empty, share parts"""
    rows = []
    if gen.WIDE:
        n += rng.randint(8, 26)
    for _ in range(n):
        k = rng.random()
        if k < empty:
            s = ([], [])
        elif k < .25 and rows:
            s = rng.choice(rows)[0]
        elif k < .45 and rows:
            s = sub_struct(rng, rng.choice(rows)[0])
        elif k < .6 and rows:
            s = swap_value(rng, voc, rng.choice(rows)[0])
        else:
            s = rand_struct(rng, voc, **kw)
        rows.append((s, cnt(rng)))
    return rows


def sub_struct(rng, s):
    """a connected part of a structure"""
    nodes, edges = s
    if not nodes:
        return s
    if not edges or rng.random() < .3:
        return [rng.choice(nodes)], []
    keep = [rng.choice(edges)]
    have = set(keep[0][0])
    for e in rng.sample(edges, len(edges)):
        if e not in keep and have & set(e[0]) and rng.random() < .6:
            keep.append(e)
            have |= set(e[0])
    return [n for n in nodes if n in have], keep


def swap_value(rng, voc, s):
    nodes, edges = s
    if not nodes:
        return s
    a = rng.choice(nodes)
    b = (a[0], rng.choice(voc.vars[a[0]]))
    m = {a: b}
    return [m.get(n, n) for n in nodes], [(tuple(m.get(n, n) for n in ep), r) for ep, r in edges]


def network_rows(rng, voc, sc, priors=0.25, counts=None, relmode=None, directed=0.3):
    rows = []
    for scope in sc:
        for s in factor_struct(rng, voc, scope, relmode=relmode, directed=directed):
            rows.append((s, counts(rng) if counts else rng.randint(1, 4)))
    used = list(dict.fromkeys(v for scope in sc for v in scope))
    for v in used:
        if rng.random() < priors and (v,) not in sc:
            for x in voc.vars[v]:
                rows.append((([(v, x)], []), rng.randint(1, 4)))
    rng.shuffle(rows)
    return rows


KINDS = ["chain", "star", "cycle", "clique", "hyper", "vshape", "random"]


def net_voc(rng, nv, maxvals=2, style=None, minvals=1):
    return rand_voc(rng, nv=nv, maxvals=maxvals, style=style, minvals=minvals)


def size_of(voc, vs=None):
    k = 1
    for v in vs or voc.vars:
        k *= len(voc.vars[v])
    return k


def small_net(rng, maxjoint=64, nvs=(1, 2, 3, 3, 4, 4, 5)):
    while True:
        nv = rng.choice(nvs)
        voc = net_voc(rng, nv + rng.choice([0, 0, 1]), rng.choice([2, 2, 3]), minvals=rng.choice([1, 2]))
        vs = list(voc.vars)[:nv]
        kind = rng.choice(KINDS)
        sc = scopes(rng, vs, kind)
        if size_of(voc, vs) <= maxjoint and len(sc) <= 7:
            mass = 1
            rows = network_rows(rng, voc, sc, priors=rng.choice([0, .3, .6]) if len(sc) < 5 else 0)
            # keep the mass of the joint small enough for exact arithmetic in the specification
            bysc = {}
            for (n, _), c in rows:
                k = tuple(sorted(repr(x[0]) for x in n))
                bysc[k] = max(bysc.get(k, 0), c)
            for c in bysc.values():
                mass *= c
            if mass * size_of(voc, vs) < 10 ** 8:
                return voc, vs, sc, rows


# ============================================================================= C01, C02: joint and posterior
def posterior_case(cx, case):
    rng = cx.rng
    voc, vs, sc, rows = small_net(rng, cx.n(40, 110))
    p = prov(case, voc)
    g = graph(case, p, rows, rng)
    ev = [(v, rng.choice(voc.vars[v])) for v in rng.sample(vs, rng.randint(0, min(3, len(vs))))]
    # evidence on the factors, then joining
    h = g
    for n in ev + ([rng.choice(ev)] if ev and rng.random() < .3 else []):
        s = make(case, p, [n], [])
        c = case.cond(h, s)
        if not c:
            return
        h = case.cg_rg(c)
    j = case.make_joined(h)
    if j:
        case.marg(j)
        case.posterior(g, ev, j)
        if rng.random() < .5:
            case.marg(j, rng.sample(vs, rng.randint(1, len(vs))), rng.random() < .5 and not has_u(voc))
    # joining, then evidence on the joint
    jj = case.make_joined(g)
    if jj:
        f = case.find(jj, ev)
        if f:
            case.posterior(g, ev, case.rg_raw(f))
        h = jj
        for n in ev:
            c = case.cond(h, make(case, p, [n], []))
            if not c:
                return
            case.posterior(g, ev[:ev.index(n) + 1], c)
            h = case.cg_rg(c)
        if rng.random() < .6:
            out = sorted(case.obj[jj].outcomes.samples(), key=lambda s: repr(sorted(map(repr, s.nodes))))
            o = rng.choice(out)
            st = sub_struct(rng, ([(n.variable, n.value) for n in sorted(o.nodes, key=repr)],
                                  [(tuple((n.variable, n.value) for n in sorted(e.endpoints, key=repr)), e.relation)
                                   for e in sorted(o.edges, key=repr)]))
            s = make(case, p, *st)
            if s:
                c = case.cond(jj, s)
                if c:
                    case.posterior(g, [], c, [s])
                    more = [(v, rng.choice(voc.vars[v])) for v in vs if v not in {n[0] for n in st[0]}][:1]
                    if more:
                        c2 = case.cond(case.cg_rg(c), make(case, p, more, []))
                        if c2:
                            case.posterior(g, more, c2, [s])
    case.observe_all([g])


def has_u(voc):
    return any("u" in xs or "unobserved" in xs for xs in voc.vars.values())


def posterior_plan(cx, case, plans):
    """behaviours of MC_Inference: condition / join in TLC's order; marginals are judged at the end of each"""
    p = g = None
    cache = {}
    for pl in plans:
        if g is None:
            voc = Voc({v: sorted(xs) for v, xs in pl["voc"].items()}, ["r"])
            p = prov(case, voc)
            rows = [(struct_of(x[0]), x[1]) for x in pl["net"]]
            g = graph(case, p, rows, cx.rng)
        h = g
        ev = []
        done = False
        for a in pl["acts"]:
            if a["a"] == "join":
                h = case.make_joined(h)
                done = True
            else:
                n = tuple(a["n"])
                ev.append(n)
                if n not in cache:
                    cache[n] = make(case, p, [n], [])
                c = case.cond(h, cache[n])
                h = case.cg_rg(c) if c else None
            if not h:
                break
        if h and done:
            case.posterior(g, ev, h)
    case.observe_all([g])


@driver("C01")
def c01(cx):
    groups = {}
    for pl in cx.plan:
        groups.setdefault(json.dumps([pl["voc"], pl["net"]], sort_keys=True), []).append(pl)
    for k in cx.mine(sorted(groups)):
        yield cx.run("plan", posterior_plan, groups[k])
    for _ in range(cx.n(32, 400)):
        yield cx.run("net", posterior_case)
    for _ in range(cx.n(1, 10)):
        yield cx.run("table", big_table)
    for _ in range(cx.n(3, 40)):
        yield cx.run("scaled", scaled_case)
        yield cx.run("shuffled", same_size_case)


# ============================================================================= C39: independence
def bayes_rows(rng, voc, vs):
    """a directed network: every variable has a conditional distribution given at most two earlier ones; sometimes one is skewed"""
    tot = rng.randint(len(max((voc.vars[v] for v in vs), key=len)) + 1, 9)
    rows = []
    kind = rng.choice(["tree", "vee", "chain", "any"])
    skew = rng.choice(vs) if rng.random() < .25 else None
    for i, v in enumerate(vs):
        if i == 0 or (kind in ("vee", "any") and i < 2):
            ps = []
        elif kind == "chain":
            ps = [vs[i - 1]]
        elif kind == "tree":
            ps = [rng.choice(vs[:i])]
        elif kind == "vee":
            ps = vs[:2] if i == 2 else [rng.choice(vs[:i])]
        else:
            ps = rng.sample(vs[:i], rng.randint(1, min(2, i)))
        rel = rng.choice(voc.rels)
        directed = rng.random() < .4
        for combo in itertools.product(*[voc.vars[q] for q in ps]):
            cs = part_of(rng, tot, len(voc.vars[v]))
            for x, c in zip(voc.vars[v], cs):
                edges = [(((q, y), (v, x)), DirectedRelation(q, v, rel) if directed else rel) for q, y in zip(ps, combo)]
                rows.append((([(v, x)] + list(zip(ps, combo)), edges), c + (rng.randint(0, 2) if v == skew else 0)))
    rng.shuffle(rows)
    return rows


def part_of(rng, tot, n):
    """n positive integers with sum tot"""
    cut = sorted(rng.sample(range(1, tot), n - 1))
    return [b - a for a, b in zip([0] + cut, cut + [tot])]


def joined_given(case, p, g, ev):
    h = g
    for n in ev:
        s = make(case, p, [n], [])
        c = s and case.cond(h, s)
        if not c:
            return None
        h = case.cg_rg(c)
    return case.make_joined(h)


def indep_large(cx, case):
    """few rows with large counts: what is computed from them must not lose anything"""
    rng = cx.rng
    voc = net_voc(rng, 3, 2, minvals=2)
    vs = list(voc.vars)
    hi = rng.choice([300, 1000, 4500])
    p = prov(case, voc)
    rows = [(st, rng.choice([rng.randint(1, 9), rng.randint(hi // 2, hi)])) for st, _ in
            network_rows(rng, voc, [(vs[0], vs[1]), (vs[1], vs[2])], priors=0)]
    g = graph(case, p, rows, rng)
    for x in voc.vars[vs[1]]:
        for w in (vs[0], vs[2]):
            a = joined_given(case, p, g, [(vs[1], x)])
            b = joined_given(case, p, g, [(vs[1], x), (w, rng.choice(voc.vars[w]))])
            if a and b:
                case.indep(g, [(vs[1], x)], case_last(case, b, w), a, b)


def indep_wide(cx, case):
    """a long structure, and evidence about something that it has nothing to do with"""
    rng = cx.rng
    n = rng.randint(5, 8)
    vs = ["v%d" % i for i in range(n)]
    voc = Voc(dict({v: ["1", "2"] for v in vs}, e=["x", "y"], f=["x", "y"]), ["r", "q"])
    p = prov(case, voc)
    rows, seen = [], set()
    for _ in range(rng.randint(2, 3)):
        x = tuple(rng.choice("12") for _ in vs)
        if x in seen:
            continue
        seen.add(x)
        es = [(((u, a), (v, b)), "r") for (u, a), (v, b) in zip(zip(vs, x), list(zip(vs, x))[1:])]
        rows.append(((list(zip(vs, x)), es), rng.randint(1, 4)))
    if rng.random() < .5:
        rows += [(([("e", x)], []), rng.randint(1, 3)) for x in "xy"]
        w = "e"
    else:
        rows += [(([("e", x), ("f", y)], [((("e", x), ("f", y)), "q")]), rng.randint(1, 3)) for x in "xy" for y in "xy"]
        w = rng.choice("ef")
    g = graph(case, p, rows, rng)
    m = (w, rng.choice("xy"))
    # the structures stay apart: the marginals of the graph itself and of the conditioned one
    s = make(case, p, [m], [])
    c = s and case.cond(g, s)
    if not c:
        return
    h = case.cg_rg(c)
    if h:
        case.indep(g, [], m, g, h)


def case_last(case, g, w):
    """the value of variable w all outcomes of graph g have"""
    xs = {dict(s.values())[w] for s in case.obj[g].outcomes.samples()}
    return (w, xs.pop())


def scaled_case(cx, case):
    """multiplying all counts of a table changes no probability, however large they get"""
    rng = cx.rng
    voc, vs, sc, rows = small_net(rng, 40, nvs=(2, 3, 3, 4))
    p = prov(case, voc)
    g = graph(case, p, rows, rng)
    ks = {}
    for (st, c) in rows:
        ks.setdefault(frozenset(n[0] for n in st[0]), rng.choice([1, 10 ** 3, 2 ** 20, 10 ** 9, 10 ** 15, 2 ** 40, 7]))
    for _ in range(2):
        vs2 = rng.sample(vs, rng.randint(0, min(2, len(vs) - 1)))
        ns = [(v, rng.choice(voc.vars[v])) for v in vs2]

        def f():
            b = case.obj[g].builder().__class__(components_provider=case.obj[p])
            for st, c in rows:
                b.add_outcome(gen.build_quiet(case.obj[p], *st), c * ks[frozenset(n[0] for n in st[0])])
            h = b.build()
            for v, x in ns:
                h = h.conditional_graph(h.sample_builder().build_single_node(v, x)).relation_graph()
            h = h.make_joined()
            return case._emarg(h.marginal_variables_probability(), False)
        ok, x = case.call(f)
        case.emit("posterior", ok, [], src=g, ns=[case.enode(n) for n in ns], evs=[], res=x if ok else [], err="" if ok else repr(x)[:120])


def same_size_case(cx, case):
    """graphs of one vocabulary that differ only in which row has which count"""
    rng = cx.rng
    voc, vs, sc, rows = small_net(rng, 24, nvs=(2, 2, 3))
    p = prov(case, voc)
    cs = [c for _, c in rows]
    gs = []
    for _ in range(3):
        g = graph(case, p, [(st, c) for (st, _), c in zip(rows, cs)], rng)
        gs.append(g)
        rng.shuffle(cs)
    for g in gs + gs[:1]:
        case.marg(g, None, False)
        case.marg(g, None, True) if not has_u(voc) else None
        case.marg(g, rng.sample(vs, rng.randint(1, len(vs))))
        j = case.make_joined(g)
        if j:
            case.posterior(g, [], j)
    case.observe_all(gs)


def indep_case(cx, case):
    rng = cx.rng
    if rng.random() < .55:
        n = rng.choice([2, 3, 3, 4, 4, 5])
        voc = net_voc(rng, n, rng.choice([2, 2, 3]) if n < 5 else 2, minvals=2)
        vs = list(voc.vars)
        rows = bayes_rows(rng, voc, vs)
    else:
        voc, vs, sc, rows = small_net(rng, cx.n(40, 110), nvs=(3, 3, 4, 4, 5))
    p = prov(case, voc)
    g = graph(case, p, rows, rng)
    for _ in range(2):
        w = rng.choice(vs)
        es = rng.sample([v for v in vs if v != w], rng.randint(0, min(2, len(vs) - 1)))
        ev = [(v, rng.choice(voc.vars[v])) for v in es]
        m = (w, rng.choice(voc.vars[w]))
        a = joined_given(case, p, g, ev)
        more = ev + [m]
        rng.shuffle(more)
        # the added observation comes before or after joining
        if a and rng.random() < .4:
            s = make(case, p, [m], [])
            c = s and case.cond(a, s)
            b = c and case.cg_rg(c)
        else:
            b = joined_given(case, p, g, more)
        if not a or not b:
            return
        case.indep(g, ev, m, a, b)
    case.observe_all([g])


def indep_plan(cx, case, plans):
    """behaviours of MC_Inference: each further piece of evidence against what was known before"""
    p = g = None
    known = {}
    for pl in plans:
        if g is None:
            voc = Voc({v: sorted(xs) for v, xs in pl["voc"].items()}, ["r"])
            p = prov(case, voc)
            g = graph(case, p, [(struct_of(x[0]), x[1]) for x in pl["net"]], cx.rng)
        ev = [tuple(a["n"]) for a in pl["acts"] if a["a"] == "ev"]
        for k in (ev[:-1], ev):
            if tuple(k) not in known:
                known[tuple(k)] = joined_given(case, p, g, k)
        if ev and known[tuple(ev)] and known[tuple(ev[:-1])]:
            case.indep(g, ev[:-1], ev[-1], known[tuple(ev[:-1])], known[tuple(ev)])
    case.observe_all([g])


@driver("C39")
def c39(cx):
    groups = {}
    for pl in cx.plan:
        groups.setdefault(json.dumps([pl["voc"], pl["net"]], sort_keys=True), []).append(pl)
    for i, k in enumerate(sorted(groups)):
        mine = groups[k][cx.shard::cx.nshards]
        yield cx.run("plan", indep_plan, mine if cx.tier == "thorough" else mine[:24])
    for _ in range(cx.n(40, 500)):
        yield cx.run("net", indep_case)
    for _ in range(cx.n(4, 40)):
        yield cx.run("large", indep_large)
    for _ in range(cx.n(10, 100)):
        yield cx.run("wide", indep_wide)


def big_table(cx, case):
    """factors with many rows: every run has some of every magnitude"""
    rng = cx.rng
    n = rng.randint(*[(20, 32), (33, 64), (66, 80), (66, 80), (82, 100), (102, 127), (130, 160), (20, 75)][cx.shard % 8])
    voc = Voc({"a": ["1", "2"][:rng.randint(1, 2)], "b": list(range(n)), "c": ["x", "y"]}, ["r"])
    rows = network_rows(rng, voc, [("a", "b"), ("a", "c")] if n > 30 else [("a", "b"), ("b", "c")], priors=.4)
    p = prov(case, voc)
    g = graph(case, p, rows, rng)
    j = case.make_joined(g)
    if j:
        case.posterior(g, [], j)
    s = make(case, p, [("b", rng.randrange(n))], [])
    c = case.cond(g, s)
    h = case.make_joined(case.cg_rg(c)) if c else None
    if h:
        case.posterior(g, [tuple(x) for x in (case.obj[s].values())], h)


def joint_case(cx, case, mode):
    rng = cx.rng
    voc, vs, sc, rows = small_net(rng, cx.n(40, 100))
    p = prov(case, voc)
    if mode == "incomplete":
        k = rng.choice([.1, .3, .6])
        rows = [r for r in rows if rng.random() > k] or rows[:1]
    elif mode == "contradict":
        # two factors which share a variable but no value of it
        v = rng.choice(vs)
        x = rng.choice(voc.vars[v])
        first = True
        keep = []
        for r in rows:
            have = [n for n in r[0][0] if n[0] == v]
            if not have or (have[0][1] == x) == (len(r[0][0]) == len(rows[0][0][0])):
                keep.append(r)
        rows = keep or rows
    elif mode == "k0":
        rows = rows + [(([], []), 2)]
        rng.shuffle(rows)
    elif mode == "overlap":
        s = rand_struct(rng, voc, k=min(3, len(voc.vars)), extra=0)
        rows = rows + [(s, 2)]
        rng.shuffle(rows)
    elif mode == "disconnected":
        extra = Voc({**voc.vars, ("z", "z"): ["p", "q"], ("y", "y"): ["p"]}, voc.rels)
        case2 = [(([(("z", "z"), a), (("y", "y"), "p")], [(((("z", "z"), a), (("y", "y"), "p")), voc.rels[0])]), 1) for a in "pq"]
        p = prov(case, extra)
        rows = rows + case2
        rng.shuffle(rows)
    elif mode == "bigcounts":
        rows = [(s, rng.choice([1, 100, 1000]) if i < 3 else 1) for i, (s, c) in enumerate(rows)]
    g = graph(case, p, rows, rng)
    case.is_fact(g)
    j = case.make_joined(g)
    if j:
        case.is_joined(j)
        case.incl(j)
        if rng.random() < .3:
            case.ss_info(ssreg(case, j))
        if rng.random() < .3:
            case.make_joined(j)
    case.observe_all([g])


def ssreg(case, g):
    """the outcomes of a graph as a sample set register"""
    o = case.obj[g].outcomes
    r = case.new("ss", o, case.pof[g])
    case.emit("ssb_build", True, [r], r=r, b=g)
    return r


def thin_table(cx, case):
    """variables of many values which one of the tables has only in a few of them"""
    rng = cx.rng
    many = rng.randint(4, 6)
    voc = Voc({"a": ["x%d" % i for i in range(many)], "b": ["1", "2"][:rng.randint(1, 2)], "c": ["1", "2"],
               "d": ["1", "2"][:rng.randint(1, 2)]}, ["r", "q"])
    vs = list(voc.vars)
    rng.shuffle(vs)
    voc = Voc({v: voc.vars[v] for v in vs}, voc.rels)
    p = prov(case, voc)
    others = rng.sample(["b", "c", "d"], rng.choice([2, 2, 3]))
    rows = []
    for i, w in enumerate(others):
        part = network_rows(rng, voc, [tuple(rng.sample(["a", w], 2))], priors=rng.choice([0, .3]))
        if i and rng.random() < .8:
            few = rng.sample(voc.vars["a"], rng.choice([1, 1, 2]))
            part = [r for r in part if dict(r[0][0]).get("a", few[0]) in few]
        rows += part
    rng.shuffle(rows)
    g = graph(case, p, rows, rng)
    case.is_fact(g)
    j = case.make_joined(g)
    if j:
        case.is_joined(j)
        case.incl(j)
    case.observe_all([g])


def long_net(cx, case):
    """a net of many tables over many variables, most of one value"""
    rng = cx.rng
    nv = rng.randint(9, 13)
    names = ["v%d" % i for i in range(nv)]
    rng.shuffle(names)
    two = set(rng.sample(names, rng.randint(1, 2)))
    voc = Voc({v: ["x", "y"] if v in two else ["x"] for v in names}, ["r", "q"])
    p = prov(case, voc)
    sc = scopes(rng, names, rng.choice(["chain", "star", "tree"]))
    rows = network_rows(rng, voc, sc, priors=rng.choice([0, .2]))
    rng.shuffle(rows)
    g = graph(case, p, rows, rng)
    case.is_fact(g)
    j = case.make_joined(g)
    if j:
        case.is_joined(j)
        case.incl(j)


@driver("C02")
def c02(cx):
    for pl in cx.mine(cx.plan):
        yield cx.run("plan", joint_plan, pl)
    modes = ["complete"] * 4 + ["incomplete"] * 4 + ["contradict", "k0", "overlap", "disconnected", "bigcounts"]
    for i in range(cx.n(39, 520)):
        yield cx.run(modes[i % len(modes)], joint_case, modes[i % len(modes)])
    for i in range(cx.n(6, 60)):
        yield cx.run("thin", thin_table)
    for i in range(cx.n(4, 40)):
        yield cx.run("long", long_net)
    yield cx.run("table", big_table)
    for _ in range(cx.n(4, 50)):
        yield cx.run("huge", huge_counts)


def joint_plan(cx, case, pl):
    voc = Voc({v: sorted(xs) for v, xs in pl["voc"].items()}, ["r"])
    p = prov(case, voc)
    g = graph(case, p, [(struct_of(x[0]), x[1]) for x in pl["net"]], cx.rng)
    case.make_joined(g)
    case.observe_all([g])


# ============================================================================= C03: join on variables
def join_on_case(cx, case):
    rng = cx.rng
    nv = rng.choice([2, 3, 3, 4, 5])
    voc = net_voc(rng, nv, rng.choice([2, 2, 3]))
    p = prov(case, voc)
    k = rng.random()
    if k < .4:
        sc = scopes(rng, list(voc.vars), rng.choice(KINDS))[:4]
        rows = network_rows(rng, voc, sc, priors=.3)
        d = rng.choice([0, .2, .5])
        rows = [r for r in rows if rng.random() >= d][:14] or rows[:1]
    else:
        rows = rand_rows(rng, voc, rng.randint(1, 8), empty=.1, k=rng.choice([None, 1, 2, 3]))
    if rng.random() < .15:
        rows = [(s, min(c, 4)) for s, c in rows]
        i = rng.randrange(len(rows))
        rows[i] = (rows[i][0], rng.choice([100, 1000, 6000]))
    g = graph(case, p, rows, rng)
    vs = list(voc.vars)
    case.joined_on(g, None)
    for _ in range(2):
        case.joined_on(g, rng.sample(vs, rng.randint(1, len(vs))))
    case.joined_on(g, [rng.choice(vs)])
    if rng.random() < .3:
        case.joined_on(g, [])
    if rng.random() < .3:
        case.joined_on(g, [rng.choice(vs), "no such variable"])
    h = case.joined_on(g, [rng.choice(vs)])
    if h and rng.random() < .5:
        case.joined_on(h, [rng.choice(vs)])
    case.observe_all([g])


def join_plan(cx, case, pl):
    voc = Voc({v: sorted(xs) for v, xs in pl["voc"].items()}, ["r", "q"])
    p = prov(case, voc)
    g = graph(case, p, [(struct_of(x[0]), x[1]) for x in pl["net"]], cx.rng)
    for v in voc.vars:
        case.joined_on(g, [v])
    case.joined_on(g, None)
    case.observe_all([g])


HUGE = [2 ** 53 - 1, 2 ** 53 + 1, 3 ** 34, 10 ** 17 + 3, 7 ** 20, 2 ** 64 + 5, 2 ** 31 + 1, 11 ** 9]


def huge_counts(cx, case):
    """counts beyond every fixed number of bits; what is recorded of them are their remainders"""
    rng = cx.rng
    relrec.MOD = 97
    try:
        voc = net_voc(rng, rng.choice([2, 3, 4]), 2, minvals=1)
        p = prov(case, voc)
        sc = scopes(rng, list(voc.vars), rng.choice(["chain", "star", "vshape"]))[:3]
        rows = [(s, rng.choice(HUGE + [1, 2, 3])) for s, _ in network_rows(rng, voc, sc, priors=0)]
        if rng.random() < .5:
            rows = [r for r in rows if rng.random() < .7] or rows
        g = graph(case, p, rows, rng)
        case.observe_all([g])
        case.make_joined(g)
        vs = list(voc.vars)
        case.joined_on(g, None)
        for v in vs:
            case.joined_on(g, [v])
        case.observe_all([g])
    finally:
        relrec.MOD = 0


@driver("C03")
def c03(cx):
    for pl in some(cx, cx.plan, 60):
        yield cx.run("plan", join_plan, pl)
    for _ in range(cx.n(45, 600)):
        yield cx.run("join", join_on_case)
    for _ in range(cx.n(5, 60)):
        yield cx.run("huge", huge_counts)
    yield from cx.wide(join_on_case, 4, 40, ("alike",))


# ============================================================================= C04: conditioning
def cond_case(cx, case):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 6), maxvals=3)
    p = prov(case, voc)
    q = prov(case, voc)
    rows = rand_rows(rng, voc, rng.randint(1, 14))
    g = graph(case, p, rows, rng, name=rng.choice([None, "g", ""]))
    evs = []
    for _ in range(5):
        k = rng.random()
        if k < .4:
            st = sub_struct(rng, rng.choice(rows)[0])
        elif k < .5:
            st = rng.choice(rows)[0]
        elif k < .6:
            st = ([], [])
        elif k < .75:
            n = rng.choice([(v, x) for v in voc.vars for x in voc.vars[v]])
            st = ([n], [])
        elif k < .85:
            st = swap_value(rng, voc, rng.choice(rows)[0])
        else:
            st = rand_struct(rng, voc, k=rng.randint(1, 3))
        evs.append(make(case, p, *st, rng=rng))
    for s in evs:
        if not s:
            continue
        c = case.cond(g, s, rng.choice([None, "cond"]))
        if c:
            h = case.cg_rg(c)
            if h:
                c2 = case.cond(h, s)
                t = rng.choice(evs)
                if t:
                    case.cond(h, t)
            if rng.random() < .3:
                b = case.rg_builder(c)
                if b:
                    case.rgb_build(b)
    foreign = make(case, q, *rand_struct(rng, voc), rng=rng)
    case.cond(g, foreign)
    fe = make(case, q, [], [])
    case.cond(g, fe)
    case.observe_all()


@driver("C04")
def c04(cx):
    for pl in cx.mine(cx.plan):
        yield cx.run("plan", cond_plan, pl)
    for _ in range(cx.n(70, 900)):
        yield cx.run("cond", cond_case)
    yield from cx.wide(cond_case, 4, 40)


def cond_plan(cx, case, pl):
    """every small outcome against every small evidence"""
    voc = Voc({v: sorted(xs) for v, xs in pl["voc"].items()}, ["r", "q"])
    p = prov(case, voc)
    g = graph(case, p, [(struct_of(x), 1 + i % 3) for i, x in enumerate(pl["all"])], cx.rng)
    s = make(case, p, *struct_of(pl["ev"]))
    c = case.cond(g, s)
    if c:
        case.cond(case.cg_rg(c), s)


# ============================================================================= C05: enumeration
def enum_case(cx, case, voc, full):
    rng = cx.rng
    p, q, b = case.rgb_voc(voc)
    case.rgb_gen(b, full)
    g = case.rgb_build(b)
    if g:
        case.ss_info(ssreg(case, g))
    case.rgb_gen(b, full)
    nb = case.rgb_new(p)
    n = rng.choice([(v, x) for v in voc.vars for x in voc.vars[v]])
    s = make(case, p, [n], [])
    if s:
        case.rgb_add(nb, s, 2)
        case.rgb_gen(nb, full)


def enum_vocs(rng):
    while True:
        nv = rng.choice([1, 1, 2, 2, 2, 3, 3, 3, 4])
        voc = rand_voc(rng, nv=nv, maxvals=rng.choice([1, 2, 3]) if nv < 4 else 2, nrels=rng.randint(1, 3) if nv < 4 else 1)
        n = 1
        for xs in voc.vars.values():
            n *= len(xs) + 1
        n *= (len(voc.rels) + 1) ** (nv * (nv - 1) // 2)
        if n <= 2600:
            return voc


@driver("C05")
def c05(cx):
    for pl in cx.mine(cx.plan):
        yield cx.run("plan", enum_case, Voc({v: sorted(xs) for v, xs in pl["vars"].items()}, sorted(pl["rels"])), True)
    vocs = []
    for k in range(1, 4):
        for vals in itertools.combinations_with_replacement([1, 2, 3], k):
            for nr in (1, 2):
                n = (nr + 1) ** (k * (k - 1) // 2)
                for v in vals:
                    n *= v + 1
                if n <= 1400:
                    vocs.append(Voc({"abc"[i]: ["x%d" % j for j in range(v)] for i, v in enumerate(vals)}, ["r", "s"][:nr]))
    vocs.append(Voc({"a": ["1"], "b": ["1"], "c": ["1"], "d": ["1", "2"]}, ["r"]))
    vocs.append(Voc({"a": [0, 1], "b": [0, 1], "c": [0, 1], "d": [0, 1]}, ["r"]))
    vocs.append(Voc({"a": list(range(9)), "b": list(range(5))}, ["r", "s", "t"]))
    vocs += [Voc({"a": list(range(k))}, ["r"]) for k in (10, 12, 17, 33)]
    vocs += [Voc({"a": list(range(14)), "b": ["1", "2"]}, ["r"]), Voc({"a": ["1"], "b": list(range(21))}, ["r", "s"]),
             Voc({"a": ["1"], "b": ["1"]}, ["r%d" % i for i in range(13)]), Voc({"a": [1, "1"], "b": [1, "1"]}, [1, "1"]),
             Voc({"a": list(range(11)), "b": ["1"], "c": ["1"]}, ["r"]),
             Voc({v: ["1"] for v in "abcde"}, ["r"])]
    for voc in cx.mine(vocs):
        yield cx.run("grid", enum_case, voc, True)
    for _ in range(cx.n(2, 14)):
        yield cx.run("random", enum_case, enum_vocs(cx.rng), True)
    if cx.tier == "thorough":
        big = [Voc({"a": ["1"], "b": ["1"], "c": ["1"], "d": ["1"]}, ["r", "s"]),
               Voc({"a": ["1", "2"], "b": ["1", "2"], "c": ["1", "2"], "d": ["1", "2"]}, ["r"]),
               Voc({"a": ["1"], "b": ["1"], "c": ["1"], "d": ["1"], "e": ["1"]}, ["r"]),
               Voc({"a": ["1", "2", "3", "4"], "b": ["1", "2", "3", "4"], "c": ["1", "2", "3"]}, ["r", "s"])]
        for voc in cx.mine(big):  # soundness, distinctness and the number of outcomes decide completeness
            yield cx.run("big", enum_case, voc, False)


# ============================================================================= C06: factor structure
def factor_case(cx, case):
    rng = cx.rng
    k = rng.random()
    if k < .45:
        voc, vs, sc, rows = small_net(rng, 40)
        rows = [r for r in rows if rng.random() > rng.choice([0, .3])] or rows
        if rng.random() < .4:
            rows = rows + rand_rows(rng, voc, 1, empty=.2)
    else:
        voc = rand_voc(rng, nv=rng.randint(2, 5), maxvals=2)
        rows = rand_rows(rng, voc, rng.randint(1, 7), empty=.05, k=rng.choice([None, 1, 2, 2, 3]))
    p = prov(case, voc)
    for _ in range(2):
        rng.shuffle(rows)
        g = graph(case, p, rows, rng)
        case.is_fact(g)
        case.factors(g)
        case.is_joined(g)
        ev = make(case, p, *sub_struct(rng, rng.choice(rows)[0]))
        c = case.cond(g, ev) if ev else None
        if c:
            case.factors(c)
            h = case.cg_rg(c)
            case.is_fact(h)
            case.is_joined(h)
    case.observe_all([g])


@driver("C06")
def c06(cx):
    for pl in cx.mine(cx.plan):
        yield cx.run("plan", factor_plan, pl)
    for _ in range(cx.n(80, 900)):
        yield cx.run("factors", factor_case)
    yield from cx.wide(factor_case, 4, 40, ("alike",))


def factor_plan(cx, case, pl):
    voc = Voc({v: sorted(xs) for v, xs in pl["voc"].items()}, ["r", "q"])
    p = prov(case, voc)
    rows = [(struct_of(x[0]), x[1]) for x in pl["net"]]
    for rs in (rows, rows[::-1]):
        g = graph(case, p, rs, cx.rng)
        case.is_fact(g)
        case.factors(g)
        case.is_joined(g)


# ============================================================================= C07, C08, C21: counts and queries
def no_u(rng, **kw):
    while True:
        voc = rand_voc(rng, **kw)
        if not has_u(voc):
            return voc


def freq_case(cx, case):
    rng = cx.rng
    voc = no_u(rng, nv=rng.randint(1, 6), maxvals=4)
    p = prov(case, voc)
    rows = rand_rows(rng, voc, rng.randint(1, 16), empty=rng.choice([0, .1, .3]))
    if rng.random() < .2:
        rows = [(s, c * rng.choice([1, 1000, 100000])) for s, c in rows]
    g = graph(case, p, rows, rng)
    x = ssreg(case, g)
    case.probs(x)
    for s, _ in rng.sample(rows, min(3, len(rows))):
        r = make(case, p, *s)
        if r:
            case.prob_of(x, r)
            case.count_of(x, r)
    r = make(case, p, *rand_struct(rng, voc))
    if r:
        case.prob_of(x, r)
    vs = list(voc.vars)
    case.marg(g)
    case.marg(g, None, True)
    case.marg(g, rng.sample(vs, rng.randint(1, len(vs))), False)
    case.marg(g, rng.sample(vs, rng.randint(1, len(vs))), True)
    case.marg(g, [rng.choice(vs), "no such variable"], rng.random() < .5)
    ev = make(case, p, *sub_struct(rng, rng.choice(rows)[0]))
    c = case.cond(g, ev) if ev else None
    if c:
        case.marg(c)
        case.marg(c, None, True)
        case.marg(c, [rng.choice(vs)], rng.random() < .5)
        y = ssreg(case, c)
        case.probs(y)
    e = case.ssb_empty(case.ssb_new(p))
    case.probs(e)
    case.observe_all([g])


@driver("C07")
def c07(cx):
    if cx.shard == 0:
        c = cx.run("u-value", u_value)
        c.meta["finding"] = "marginal-value-named-u"
        yield c
    for pl in some(cx, cx.plan, 60):
        yield cx.run("plan", freq_plan, pl)
    for _ in range(cx.n(70, 900)):
        yield cx.run("freq", freq_case)
    yield from cx.wide(freq_case, 5, 60)
    for _ in range(cx.n(8, 80)):
        yield cx.run("units", in_units, freq_case)
    for _ in range(cx.n(6, 60)):
        yield cx.run("shuffled", same_size_case)
    for _ in range(cx.n(8, 80)):
        yield cx.run("scales", scales_case)


def freq_plan(cx, case, pl):
    voc, p, g = plan_graph(cx, case, pl)
    case.marg(g)
    case.marg(g, None, True)
    for v in voc.vars:
        case.marg(g, [v], True)
    case.probs(ssreg(case, g))


def scales_case(cx, case):
    """outcomes observed a few times next to outcomes observed ten thousand billion times"""
    rng = cx.rng
    voc = no_u(rng, nv=rng.randint(1, 4), maxvals=4)
    p = prov(case, voc)
    hi = rand_rows(rng, voc, rng.randint(1, 5), empty=rng.choice([0, .2]))
    lo = rand_rows(rng, voc, rng.randint(1, 5), empty=rng.choice([0, .2]))
    g, h = graph(case, p, hi, rng), graph(case, p, lo, rng)
    for k in rng.sample([10 ** 11, 10 ** 13, 10 ** 15, 10 ** 18], 2):
        case.scales(p, g, h, k, rng.choice([None, None, rng.sample(list(voc.vars), 1)]))


def u_value(cx, case):
    """a value which is itself named like the marker of unobserved outcomes"""
    voc = Voc({"a": ["u", "w"], "b": ["1"]}, ["r"])
    p = prov(case, voc)
    g = graph(case, p, [(([("a", "u")], []), 2), (([("a", "w")], []), 1), (([("b", "1")], []), 3)], cx.rng)
    case.marg(g, None, True)


def fold_case(cx, case):
    rng = cx.rng
    voc = no_u(rng, nv=rng.randint(2, 6), maxvals=3)
    p = prov(case, voc)
    rows = rand_rows(rng, voc, rng.randint(1, 14), empty=rng.choice([0, .15]))
    g = graph(case, p, rows, rng)
    case.fold(g, voc)
    ev = make(case, p, *sub_struct(rng, rng.choice(rows)[0]))
    c = case.cond(g, ev) if ev else None
    if c and case.obj[c].outcomes:
        case.fold(c, voc)
    rows2 = list(rows)
    rng.shuffle(rows2)
    k = rng.random()
    if k < .3:
        i = rng.randrange(len(rows2))
        rows2[i] = (rows2[i][0], rows2[i][1] + 1)
    elif k < .5 and len(rows2) > 1:
        rows2.pop()
    h = graph(case, p, rows2, rng)
    case.fold_eq(g, h)
    case.fold_eq(g, g)
    case.observe_all([g])


def unobserved_value(cx, case):
    voc = Voc({"a": ["unobserved", "w"], "b": ["1"]}, ["r"])
    p = prov(case, voc)
    g = graph(case, p, [(([("a", "unobserved")], []), 2), (([("a", "w")], []), 1), (([("b", "1")], []), 3)], cx.rng)
    case.fold(g, voc)


def dense_fold(cx, case):
    """two or three variables related in dozens of ways"""
    rng = cx.rng
    n, m = rng.randint(3, 6), rng.randint(3, 6)
    voc = Voc({"a": list(range(n)), "b": list(range(m)), "c": ["1", "2"]}, rng.choice([["r"], ["r", "q", "s"]]))
    p = prov(case, voc)
    rows = []
    for x in range(n):
        for y in range(m):
            for r in voc.rels:
                ns = [("a", x), ("b", y)]
                r = rng.choice([r, r, r, DirectedRelation("a", "b", r), DirectedRelation("b", "a", r)])
                es = [(tuple(ns), r)]
                if rng.random() < .2:
                    c = ("c", rng.choice("12"))
                    ns, es = ns + [c], es + [((ns[0], c), rng.choice(voc.rels))]
                rows.append(((ns, es), cnt(rng)))
    rng.shuffle(rows)
    g = graph(case, p, rows, rng)
    case.fold(g, voc)
    h = graph(case, p, [(s, c + (not i)) for i, (s, c) in enumerate(rows)], rng)
    case.fold_eq(g, h)
    case.fold_eq(h, g)


@driver("C08")
def c08(cx):
    if cx.shard == 0:
        c = cx.run("unobserved-value", unobserved_value)
        c.meta["finding"] = "folded-value-named-unobserved"
        yield c
    for pl in some(cx, cx.plan, 60):
        yield cx.run("plan", fold_plan, pl)
    for _ in range(cx.n(80, 900)):
        yield cx.run("fold", fold_case)
    yield from cx.wide(fold_case, 5, 50, ("alike",))
    for _ in range(cx.n(5, 50)):
        yield cx.run("units", in_units, fold_case)
    for _ in range(cx.n(2, 20)):
        yield cx.run("dense", dense_fold)
    yield from cx.wide(fold_case, 5, 60)


def fold_plan(cx, case, pl):
    voc, p, g = plan_graph(cx, case, pl)
    case.fold(g, voc)


def query_case(cx, case):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 6), maxvals=3)
    p = prov(case, voc)
    rows = rand_rows(rng, voc, rng.randint(1, 14))
    g = graph(case, p, rows, rng)
    nodes = [(v, x) for v in voc.vars for x in voc.vars[v]]
    case.find(g, [])
    for _ in range(3):
        case.find(g, rng.sample(nodes, rng.randint(1, min(2, len(nodes)))))
    case.find(g, rng.choice(rows)[0][0][:2])
    for _ in range(2):     # all values of an outcome, and all but one of them
        ns = list(rng.choice(rows)[0][0])
        case.find(g, ns)
        other = [n for n in nodes if n not in ns]
        if other:
            case.find(g, ns[:rng.randint(0, len(ns))] + [rng.choice(other)])
            case.find(g, ns + [rng.choice(other)])
    case.find(g, [rng.choice(nodes), ("no such variable", 1)])
    case.incl(g)
    case.describe(g, voc)
    case.views(g)
    x = ssreg(case, g)
    case.ss_have(x, voc)
    case.ss_info(x)
    ev = make(case, p, *sub_struct(rng, rng.choice(rows)[0]))
    c = case.cond(g, ev) if ev else None
    if c:
        case.find(c, [rng.choice(nodes)])
        case.incl(c)
        case.describe(c, voc)
        case.views(c)
        case.ss_have(ssreg(case, c), voc)
    case.observe_all([g])


@driver("C21")
def c21(cx):
    for pl in some(cx, cx.plan, 60):
        yield cx.run("plan", query_plan, pl)
    for _ in range(cx.n(80, 900)):
        yield cx.run("query", query_case)
    yield from cx.wide(query_case, 5, 60)


def query_plan(cx, case, pl):
    voc, p, g = plan_graph(cx, case, pl)
    for v in voc.vars:
        for x in voc.vars[v]:
            case.find(g, [(v, x)])
    case.find(g, [("a", "1"), ("b", "1")])
    case.incl(g)
    case.describe(g, voc)
    case.views(g)
    case.ss_have(ssreg(case, g), voc)


# ============================================================================= C09: activation
def act_case(cx, case):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 5), maxvals=3)
    p = prov(case, voc)
    rows = rand_rows(rng, voc, rng.randint(1, 10), empty=.08)
    rows = [(s, min(c, 20)) for s, c in rows]
    g = graph(case, p, rows, rng)
    rels = sorted({r for s, _ in rows for _, r in s[1]}, key=repr)
    for _ in range(3):
        k = rng.random()
        if k < .6:
            st = sub_struct(rng, rng.choice([s for s, _ in rows if s[0]] or [rand_struct(rng, voc)]))
        else:
            st = rand_struct(rng, voc, k=rng.randint(1, 3))
        s = make(case, p, *st)
        c = case.cond(g, s) if s else None
        if c:
            case.act(c)
            if rels:
                case.act(c, rng.sample(rels, rng.randint(1, len(rels))))
            case.act(c, [])
            if rng.random() < .3:
                case.act(c, ["no such relation"])
    case.observe_all([g])


def long_act_case(cx, case):
    """outcomes that are long: chains, trees and rings in which a node may be many steps away from what is given"""
    rng = cx.rng
    n = rng.randint(8, 13)
    voc = Voc({"v%02d" % i: ["x", "y"] for i in range(n)}, ["r", "q"])
    p = prov(case, voc)
    rows = []
    shape = rng.choice(["chain", "chain", "tree", "ring"])
    for _ in range(rng.randint(1, 3)):
        nodes = [(v, "x" if i < 2 else rng.choice("xxxy")) for i, v in enumerate(voc.vars)]
        es = [((nodes[i - 1 if shape != "tree" else rng.randrange(max(0, i - 2), i)], nodes[i]), "r" if rng.random() < .9 else "q") for i in range(1, n)]
        if shape == "ring":
            es.append(((nodes[0], nodes[-1]), "q"))
        rows.append(((nodes, es), rng.randint(1, 4)))
    rows = rows[:1] + [x for i, x in enumerate(rows) if i and all(sorted(map(repr, x[0])) != sorted(map(repr, y[0])) for y in rows[:i])]
    g = graph(case, p, rows, rng)
    for st in ([("v00", "x")], []), ([("v00", "x"), ("v01", "x")], [((("v00", "x"), ("v01", "x")), "r")]):
        s = make(case, p, *st)
        c = case.cond(g, s) if s else None
        if c:
            case.act(c)
            case.act(c, ["r"])
    case.observe_all([g])


@driver("C09")
def c09(cx):
    for _ in range(cx.n(4, 40)):
        yield cx.run("long", long_act_case)
    for _ in range(cx.n(5, 50)):
        yield cx.run("units", in_units, act_case)
    for pl in cx.mine(cx.plan):
        if pl["ev"]["nodes"]:
            yield cx.run("plan", act_plan, pl)
    for _ in range(cx.n(45, 600)):
        yield cx.run("act", act_case)
    yield from cx.wide(act_case, 4, 40, ("values", "rels", "alike"))


def act_plan(cx, case, pl):
    voc = Voc({v: sorted(xs) for v, xs in pl["voc"].items()}, ["r", "q"])
    p = prov(case, voc)
    g = graph(case, p, [(struct_of(x), 1 + i % 2) for i, x in enumerate(pl["all"])], cx.rng)
    s = make(case, p, *struct_of(pl["ev"]))
    c = case.cond(g, s)
    if c:
        case.act(c)
        case.act(c, ["q"])


# ============================================================================= C12: vocabulary
def voc_case(cx, case):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(1, 5), maxvals=3)
    kind = rng.choice([set, list, frozenset, tuple])
    variables = {v: kind(xs) for v, xs in voc.vars.items()}
    relations = rng.choice([set, list, frozenset])(voc.rels)
    p = case.provider(variables, relations)
    q = prov(case, voc)
    # later changes of the collections the vocabulary was declared with
    for xs in variables.values():
        if isinstance(xs, set):
            xs.add("added later") if rng.random() < .5 else xs.clear()
        elif isinstance(xs, list):
            xs.append("added later")
    variables["added later"] = {1}
    if rng.random() < .5:
        variables.pop(rng.choice(list(voc.vars)), None)
    if isinstance(relations, set):
        relations.add("added later")
    elif isinstance(relations, list):
        relations.append("added later")
    case.observe_all([p])
    nodes = [(v, x) for v in voc.vars for x in voc.vars[v]]
    got = []
    known = set()
    for _ in range(rng.randint(6, 18)):
        known |= {(x, n.var_val()) for x, n in got}
        k = rng.random()
        r = rng.choice([p, p, p, q])
        if k < .35:
            n = case.get_node(r, *rng.choice(nodes))
            if n is not None:
                got.append((r, n))
        elif k < .5:
            v, x = rng.choice(nodes)
            bad = rng.choice([(v, "added later"), ("added later", 1), (v, "no such value"), ("no such variable", x), (x, v),
                              (rng.choice(nodes)[0], x)])
            n = case.get_node(r, *bad)
            if n is not None:
                got.append((r, n))
        elif k < .85 and [n for x, n in got if x == r]:
            mine = [n for x, n in got if x == r]
            a, b = rng.choice(mine), rng.choice(mine)
            if rng.random() < .25:     # a node which was never handed out
                new = [n for n in nodes if (r, n) not in known]
                b = ValueNode(*rng.choice(new)) if new else b
            if a.variable == b.variable:
                continue
            rel = rng.choice(voc.rels) if rng.random() < .8 else rng.choice(["no such relation", "added later"])
            m = rng.random()
            if m < .3:
                rel = DirectedRelation(a.variable, b.variable, rel)
            elif m < .4:
                rel = DirectedRelation(b.variable, a.variable, rel)
            elif m < .5:
                other = rng.choice([v for v in voc.vars] + ["no such variable", None, ""])
                if other not in (a.variable, b.variable):
                    rel = DirectedRelation(a.variable, other, rel) if rng.random() < .5 else DirectedRelation(other, b.variable, rel)
            case.get_edge(r, [a, b], rel)
        else:
            s = make(case, r, *rand_struct(rng, voc), rng=rng)
            if s:
                case.shared(s)
                known |= {(r, n.var_val()) for n in case.obj[s].nodes}
                if rng.random() < .4:
                    t = case.transform(s, {rng.choice(nodes)[0]: rng.choice(nodes)[1]})
                    if t:
                        case.shared(t)
                        known |= {(r, n.var_val()) for n in case.obj[t].nodes}
                    else:
                        known |= {(r, n) for n in nodes}    # a rejected call may have created nodes
    # every relation between a few of the nodes, asked for in any order
    mine = [case.get_node(p, *n) for n in rng.sample(nodes, min(3, len(nodes)))]
    asks = [([a, b], rel) for a, b in itertools.combinations([n for n in mine if n is not None], 2) if a.variable != b.variable
            for r in voc.rels for rel in (r, DirectedRelation(a.variable, b.variable, r), DirectedRelation(b.variable, a.variable, r),
                                          DirectedRelation(a.variable, a.variable, r))]
    asks += [([a, b], DirectedRelation(*x)) for a, b in itertools.combinations([n for n in mine if n is not None], 2)
             if a.variable != b.variable for z in (None, "", 0, False) if z not in voc.vars for x in (
                 (a.variable, z, voc.rels[0]), (z, b.variable, voc.rels[0]), (a.variable, b.variable, z) if z not in voc.rels else
                 (z, z, voc.rels[0]), (z, z, voc.rels[0]))]
    for ep, rel in rng.sample(asks, min(24, len(asks))):
        case.get_edge(p, ep, rel)
    case.observe_all([p, q])


def voc_large(cx, case, many):
    """components of a large vocabulary stay the same objects however many others were asked for in between"""
    rng = cx.rng
    nv = rng.randint(4, 9)
    voc = Voc({"v%d" % i: ["x%d" % j for j in range(many // nv + 1)] for i in range(nv)}, ["r", "q"])
    p = prov(case, voc)
    nodes = [(v, x) for v in voc.vars for x in voc.vars[v]]
    rng.shuffle(nodes)
    got = []
    for v, x in nodes[:many]:
        n = case.get_node(p, v, x)
        if n is not None:
            got.append(n)
    for n in rng.sample(nodes[:many], min(12, many)):
        case.get_node(p, *n)
    asks = []
    for _ in range(many // 2):
        a, b = rng.sample(got, 2)
        if a.variable != b.variable:
            asks.append(([a, b], rng.choice(voc.rels)))
            case.get_edge(p, *asks[-1])
    for ep, rel in rng.sample(asks, min(8, len(asks))) + asks[:2]:
        case.get_edge(p, ep, rel)
    for v, x in nodes[:4] + rng.sample(nodes[:many], min(8, many)):
        case.get_node(p, v, x)


def voc_plan(cx, case, hs):
    """histories of requests enumerated by TLC (MC_Vocab)"""
    for h in hs:
        p = case.provider({"a": ["1", "2"], "b": ["1"]}, ["r"])
        got = {}
        for a in h:
            if a["op"] == "node":
                n = case.get_node(p, *a["n"])
                if n is not None:
                    got[tuple(a["n"])] = n
            else:
                case.get_edge(p, [got.get(tuple(n)) or ValueNode(*n) for n in (a["x"], a["y"])], rel_of(a["rel"]))
        case.observe_all([p])


def voc_reject(cx, case):
    case.provider({}, {"r"})
    case.provider({"a": set()}, {"r"})
    case.provider({"a": {"1"}, "b": set()}, {"r"})
    case.provider({"a": {"1"}}, set())
    case.provider({"a": {"1"}}, {"r"})
    case.provider({"a": {0}}, {0})
    case.provider({"": {""}}, {""})
    case.provider({"b": [], "a": ["1"]}, ["r"])
    case.provider({"a": ["1"], "b": ["1", "2"]}, ["r", "s"])


def voc_builders(cx, case):
    """the vocabulary of a relation graph builder is fixed too, and all its samples share components"""
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 4), maxvals=2)
    p = prov(case, voc)
    rows = rand_rows(rng, voc, 6)
    g = graph(case, p, rows, rng)
    j = case.joined_on(g, None)
    for h in (g, j):
        if h:
            for s in sorted(case.obj[h].outcomes.samples(), key=lambda s: repr(sorted(map(repr, s.hash))))[:6]:
                r = case.new("s", s, p)
                case.emit("make", True, [r], r=r, p=p, want=case.six(s))
                case.shared(r)
    case.observe_all([p])


@driver("C12")
def c12(cx):
    yield cx.run("reject", voc_reject)
    hs = some(cx, cx.plan, 420)
    for i in range(0, len(hs), 20):
        yield cx.run("plan", voc_plan, hs[i:i + 20])
    for _ in range(cx.n(80, 900)):
        yield cx.run("voc", voc_case)
    yield from cx.wide(voc_case, 5, 40, ("alike",))
    for _ in range(cx.n(15, 100)):
        yield cx.run("builders", voc_builders)
    for n in [[40, 70, 140, 300][cx.shard % 4]] + ([40, 200, 500] if cx.tier != "quick" else []):
        yield cx.run("large", voc_large, n)


# ============================================================================= C13, C14, C15, C16: samples
def relabel(rng, voc, s):
    """the same structure with one relation changed"""
    nodes, edges = s
    if not edges:
        return s
    i = rng.randrange(len(edges))
    ep, r = edges[i]
    base = r.relation if isinstance(r, DirectedRelation) else r
    opts = [x for x in voc.rels] + [DirectedRelation(ep[0][0], ep[1][0], base), DirectedRelation(ep[1][0], ep[0][0], base)]
    return nodes, edges[:i] + [(ep, rng.choice(opts))] + edges[i + 1:]


def variants(rng, voc, st):
    return [st, st, sub_struct(rng, st), swap_value(rng, voc, st), relabel(rng, voc, st), rand_struct(rng, voc), ([], [])]


def two_valued(rng, voc):
    """a sample with two values of one variable (possible through add_relation)"""
    vs = [v for v in voc.vars if len(voc.vars[v]) > 1]
    if not vs or len(voc.vars) < 2:
        return None
    v = rng.choice(vs)
    x, y = rng.sample(voc.vars[v], 2)
    w = rng.choice([u for u in voc.vars if u != v])
    c = (w, rng.choice(voc.vars[w]))
    return [(v, x), c, (v, y)], [(((v, x), c), rng.choice(voc.rels)), ((c, (v, y)), rng.choice(voc.rels))]


def identity_case(cx, case):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 5), maxvals=3)
    p = prov(case, voc)
    q = prov(case, voc)
    st = rand_struct(rng, voc)
    ss = []
    for v in variants(rng, voc, st) + ([two_valued(rng, voc)] if two_valued(rng, voc) else []):
        how = rng.choice(["add", "edges", "join"]) if v[1] and len({n[0] for n in v[0]}) == len(v[0]) else "add"
        ss.append(make(case, rng.choice([p, p, q]), list(v[0]), list(v[1]), rng, how, rng.choice([None, None, "n1", "n2", ""])))
    ss = [s for s in ss if s]
    for a, b in itertools.combinations_with_replacement(ss, 2):
        case.eq(a, b)
    for s in ss:
        v = case.view(s)
        o = case.obj[s]
        if v is not None:
            b = case.sb_new(case.pof[s])
            t = case.build_from_edges(b, v) if isinstance(v, frozenset) else case.build_single(b, *v)
            if t:
                case.eq(s, t)
        case.no_copy(o)
        for x in (list(o.nodes)[:1] + list(o.edges)[:1]):
            case.no_copy(x)
        for other in (None, "text", 0, o.hash, frozenset(o.nodes), o.text_view(), (o.nodes, o.edges)):
            case.neq_other(o, other)
        for n in list(o.nodes)[:1]:
            for other in (n.var_val(), n.string_id, None, o):
                case.neq_other(n, other)
        for e in list(o.edges)[:1]:
            for other in ((e.endpoints, e.relation), repr(e), None, o):
                case.neq_other(e, other)
            case.no_copy(e.relation) if isinstance(e.relation, DirectedRelation) else None
            if isinstance(e.relation, DirectedRelation):
                case.neq_other(e.relation, e.relation.relation)
                case.neq_other(e.relation, (e.relation.source_variable, e.relation.target_variable, e.relation.relation))
                if e.relation.source_variable != e.relation.target_variable:
                    case.neq_other(e.relation, DirectedRelation(e.relation.target_variable, e.relation.source_variable, e.relation.relation))
    case.observe_all(ss)


def dense_identity_case(cx, case):
    """samples of many edges, told apart by one relation only; some relations print alike"""
    rng = cx.rng
    rels = rng.choice([[1, "1", "r"], [None, "None", 2], [True, "True", "1"], ["r", "r ", "q"], [(1,), "(1,)"], [1.5, "1.5"]])
    n = rng.randint(4, 6)
    voc = Voc({"v%d" % i: ["x", "y"] for i in range(n)}, rels)
    p = prov(case, voc)
    nodes = [("v%d" % i, rng.choice("xy")) for i in range(n)]
    pairs = list(itertools.combinations(nodes, 2))
    edges = [(ep, rng.choice(rels)) for ep in pairs]
    fam = [edges]
    for _ in range(3):
        es = list(rng.choice(fam))
        i = rng.randrange(len(es))
        r = rng.choice([x for x in rels if x != es[i][1]])
        if (es[i][0], r) not in es:
            es[i] = (es[i][0], r)
        fam.append(es)
    ss = [make(case, p, nodes, rng.sample(es, len(es)), rng, "add") for es in fam]
    ss = [s for s in ss if s]
    for a, b in itertools.combinations_with_replacement(ss, 2):
        case.eq(a, b)
    case.observe_all(ss)


@driver("C13")
def c13(cx):
    for pl in cx.mine(cx.plan):
        yield cx.run("plan", pairs_plan, pl, "eq")
    for _ in range(cx.n(4, 40)):
        yield cx.run("dense", dense_identity_case)
    for _ in range(cx.n(40, 400)):
        yield cx.run("identity", identity_case)
    yield from cx.wide(identity_case, 4, 40)


def pairs_plan(cx, case, pl, what):
    """one small sample against all others (inputs enumerated by TLC)"""
    voc = Voc({v: sorted(xs) for v, xs in pl["voc"].items()}, ["r", "q"])
    p = prov(case, voc)
    s = make(case, p, *struct_of(pl["ev"]), rng=cx.rng)
    if what == "c14":
        case.content(s, voc)
    for x in pl["all"]:
        t = make(case, p, *struct_of(x), rng=cx.rng)
        if what == "eq":
            case.eq(s, t)
        else:
            case.sub(s, t)
            case.sub(t, s)
            case.sim(s, t)


def content_case(cx, case):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 6), maxvals=3)
    p = prov(case, voc)
    q = prov(case, voc)
    st = rand_struct(rng, voc)
    ss = []
    for v in variants(rng, voc, st) + ([two_valued(rng, voc)] if two_valued(rng, voc) else []):
        how = "add" if v[1] and len({n[0] for n in v[0]}) < len(v[0]) else None
        ss.append(make(case, rng.choice([p, p, p, q]), list(v[0]), list(v[1]), rng, how))
    ss = [s for s in ss if s]
    for a in ss:
        case.content(a, voc)
        case.epvars(a)
        case.single_var(a)
    for a, b in itertools.product(ss, ss):
        if rng.random() < .6:
            case.sub(a, b)
            case.sim(a, b)
    case.observe_all(ss)


@driver("C14")
def c14(cx):
    for pl in cx.mine(cx.plan):
        yield cx.run("plan", pairs_plan, pl, "c14")
    for _ in range(cx.n(50, 500)):
        yield cx.run("content", content_case)
    yield from cx.wide(content_case, 4, 40)


def neigh_case(cx, case):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 8), maxvals=2)
    p = prov(case, voc)
    k = rng.choice([None, None, len(voc.vars)])
    st = rand_struct(rng, voc, k=k, extra=rng.choice([None, 0, .2]))
    s = make(case, p, *st, rng=rng)
    if not s:
        return
    nodes = st[0]
    alln = [(v, x) for v in voc.vars for x in voc.vars[v]]
    rels = sorted({r for _, r in st[1]}, key=repr)
    flts = [None, [], ["no such relation"]]
    if rels:
        flts += [[rng.choice(rels)], rng.sample(rels, rng.randint(1, len(rels)))]
        base = [r.relation if isinstance(r, DirectedRelation) else r for r in rels]
        flts.append([rng.choice(base)])
    for f in flts:
        case.neigh(s, rng.choice(nodes), f)
        cs = rng.sample(nodes, rng.randint(1, len(nodes)))
        if rng.random() < .2:
            cs = cs + [rng.choice(alln)]
            cs = list(dict.fromkeys(cs))
        case.belt(s, cs, f)
        case.ext(s, rng.sample(nodes, rng.randint(1, min(3, len(nodes)))), f)
        case.ext(s, cs, f)
    for n, f in [(rng.choice(alln), None)] + [(rng.choice(nodes), f) for f in flts[3:]]:
        case.neigh(s, n, f)
    case.ext(s, cs, flts[-1])
    case.belt(s, cs, flts[-1])
    case.belt(s, [], None)
    case.ext(s, [], None)
    case.observe_all([s])


def long_chain(cx, case, size):
    """distance layers far from the centre"""
    rng = cx.rng
    voc = Voc({"v%d" % i: ["x"] for i in range(size)}, ["r", "s"])
    p = prov(case, voc)
    nodes = [("v%d" % i, "x") for i in range(size)]
    edges = [((nodes[i], nodes[i + 1]), "r" if i % 5 else "s") for i in range(size - 1)]
    edges += [((nodes[i], nodes[i + 7]), "s") for i in range(0, size - 7, 11)]
    s = make(case, p, nodes, edges, rng, "edges")
    if s:
        case.ext(s, [nodes[0]], None)
        case.ext(s, [nodes[0], nodes[-1]], ["r"])
        case.ext(s, [nodes[size // 2]], ["r", "s"])
        case.belt(s, nodes[::2], None)


@driver("C15")
def c15(cx):
    for pl in some(cx, cx.plan, 6):
        yield cx.run("plan", neigh_plan, pl)
    for _ in range(cx.n(70, 800)):
        yield cx.run("neigh", neigh_case)
    yield from cx.wide(neigh_case, 5, 50, ("vars", "rels", "alike"))
    for _ in range(cx.n(1, 6)):
        yield cx.run("chain", long_chain, cx.rng.choice([9, 14, 22, 30]))


def neigh_plan(cx, case, pl):
    voc = Voc({v: sorted(xs) for v, xs in pl["voc"].items()}, ["r", "q"])
    p = prov(case, voc)
    for x in pl["all"]:
        st = struct_of(x)
        if len(st[0]) < 2:
            continue
        s = make(case, p, *st)
        for f in (None, ["q"]):
            for k in range(1, len(st[0]) + 1):
                for cs in itertools.combinations(st[0], k):
                    case.belt(s, list(cs), f)
                    case.ext(s, list(cs), f)
            for n in st[0]:
                case.neigh(s, n, f)


def replace_case(cx, case):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 6), maxvals=3)
    p = prov(case, voc)
    st = rand_struct(rng, voc)
    s = make(case, p, *st, rng=rng, name=rng.choice([None, "nm"]))
    if not s:
        return
    vs = list(voc.vars)
    inv = [n[0] for n in st[0]]
    for _ in range(5):
        rep = {v: rng.choice(voc.vars[v]) for v in rng.sample(vs, rng.randint(0, len(vs)))}
        k = rng.random()
        if k < .15:
            rep = {n[0]: n[1] for n in st[0]}
        elif k < .25:
            rep[rng.choice(inv)] = "no such value"
        elif k < .3:
            rep["no such variable"] = "1"
        elif k < .35:
            out = [v for v in vs if v not in inv]
            if out:
                rep[rng.choice(out)] = "no such value"
        t = case.transform(s, rep, rng.choice([None, "new name"]))
        if t and rng.random() < .4:
            case.transform(t, {v: x for v, x in st[0]})
        case.project(s, rng.sample(vs, rng.randint(0, len(vs))))
    case.project(s, inv)
    case.project(s, rng.sample(inv, rng.randint(1, len(inv))))
    case.epvars(s)
    case.view(s)
    case.observe_all()


@driver("C16")
def c16(cx):
    for pl in cx.mine(cx.plan):
        yield cx.run("plan", replace_plan, pl)
    for _ in range(cx.n(90, 1000)):
        yield cx.run("replace", replace_case)
    yield from cx.wide(replace_case, 6, 50, ("alike",))


def replace_plan(cx, case, pl):
    voc = Voc({v: sorted(xs) for v, xs in pl["voc"].items()}, ["r", "q"])
    p = prov(case, voc)
    for x in pl["all"]:
        st = struct_of(x)
        s = make(case, p, *st)
        for v in voc.vars:
            for y in voc.vars[v] + ["no such value"]:
                case.transform(s, {v: y})
        for k in range(0, 3):
            for vs in itertools.combinations(voc.vars, k):
                case.project(s, list(vs))
        case.epvars(s)


# ============================================================================= C17, C18, C20: sets, snapshots, builders
def other_content(cx, case, b, pool):
    """changes a builder without changing its length and its number of samples"""
    rng = cx.rng
    held = {s: c for s, c in case.obj[b].items()}
    inside = [r for r in pool if case.obj[r] in held]
    outside = [r for r in pool if case.obj[r] not in held]
    if inside and outside:
        r = rng.choice(inside)
        case.ssb_remove(b, r)
        case.ssb_add(b, rng.choice(outside), held[case.obj[r]])
    elif len(inside) > 1:
        r, t = rng.sample(inside, 2)
        if held[case.obj[r]] != held[case.obj[t]]:
            case.ssb_remove(b, r)
            case.ssb_remove(b, t)
            case.ssb_add(b, r, held[case.obj[t]])
            case.ssb_add(b, t, held[case.obj[r]])


def set_machine(cx, case, steps):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(1, 4), maxvals=2)
    p = prov(case, voc)
    q = prov(case, voc)
    pool = []
    st0 = rand_struct(rng, voc)
    for v in variants(rng, voc, st0)[1:]:
        pool.append(make(case, p, *v, rng=rng, name=rng.choice([None, "x"])))
        if rng.random() < .3:
            pool.append(make(case, p, *v, rng=rng, name="y"))
    pool = [s for s in pool if s]
    foreign = make(case, q, *st0)
    bs = [case.ssb_new(p)]
    xs = []
    qb = case.ssb_new(q)
    case.ssb_add(qb, foreign, 2)
    qx = case.ssb_build(qb)
    for _ in range(steps):
        k = rng.random()
        b = rng.choice(bs)
        if k < .28:
            case.ssb_add(b, rng.choice(pool) if rng.random() < .93 else foreign, cnt(rng))
        elif k < .38:
            case.ssb_remove(b, rng.choice(pool))
        elif k < .48:
            xs.append(case.ssb_build(b))
            if rng.random() < .5:
                other_content(cx, case, b, pool)
                xs.append(case.ssb_build(b))
        elif k < .54:
            bs.append(case.ssb_copy(b))
        elif k < .60 and xs:
            bs.append(case.ss_builder(rng.choice(xs)))
        elif k < .66 and xs:
            src = rng.choice(xs + bs)
            if src != b:
                case.ssb_addall(b, src)
        elif k < .71 and xs:
            src = rng.choice(xs + bs)
            if src != b:
                case.ssb_removeall(b, src)
        elif k < .77 and xs:
            xs.append(case.union(rng.choice(xs), rng.choice(xs)))
        elif k < .82 and xs:
            m = rng.randrange(3)
            f = [lambda s: len(s.nodes) > 1, lambda s: len(s.edges) % 2 == 0, lambda s: True][m]
            xs.append(case.filter(rng.choice(xs), f))
        elif k < .86 and xs:
            xs.append(case.joinlist([rng.choice(xs) for _ in range(rng.randint(1, 4))]))
        elif k < .91 and xs:
            case.ss_eq(rng.choice(xs), rng.choice(xs))
        elif k < .95 and xs:
            case.count_of(rng.choice(xs), rng.choice(pool))
        elif k < .97:
            case.ss_info(rng.choice(xs + bs))
        elif k < .98:
            xs.append(case.ssb_empty(b))
        elif xs:
            case.union(rng.choice(xs), qx)
            case.ssb_addall(b, qx)
        xs = [x for x in xs if x]
        bs = [x for x in bs if x]
    for x in xs + bs:
        case.ss_info(x)
    for a, b in itertools.combinations_with_replacement(rng.sample(xs, min(4, len(xs))), 2):
        case.ss_eq(a, b)
    case.joinlist([])
    case.observe_all()


def big_joinlist(cx, case, n):
    rng = cx.rng
    voc = Voc({"a": ["1", "2"], "b": ["1"]}, ["r"])
    p = prov(case, voc)
    xs = [bag(case, p, [(rand_struct(rng, voc), rng.randint(1, 3)) for _ in range(2)], rng, "edges") for _ in range(4)]
    r = case.joinlist([rng.choice(xs) for _ in range(n)])
    if r:
        case.ss_info(r)


def set_plan(cx, case, plans):
    """behaviours of MC_Sets: builders, copies and built sets of a two sample universe"""
    voc = Voc({"a": ["1"], "b": ["1"]}, ["r"])
    for h in plans:
        p = prov(case, voc)
        s = {"s1": make(case, p, [("a", "1")], []),
             "s2": make(case, p, [("a", "1"), ("b", "1")], [((("a", "1"), ("b", "1")), "r")])}
        reg = {"b1": case.ssb_new(p)}
        for a in h:
            o = a["op"]
            if o == "add":
                case.ssb_add(reg[a["b"]], s[a["s"]], a["c"])
            elif o == "remove":
                case.ssb_remove(reg[a["b"]], s[a["s"]])
            elif o == "build":
                reg[a["r"]] = case.ssb_build(reg[a["b"]])
            elif o == "copy":
                reg[a["r"]] = case.ssb_copy(reg[a["b"]])
            elif o == "builder":
                reg[a["r"]] = case.ss_builder(reg[a["b"]])
            elif o == "addall":
                case.ssb_addall(reg[a["b"]], reg[a["x"]])
            elif o == "removeall":
                case.ssb_removeall(reg[a["b"]], reg[a["x"]])
            elif o == "union":
                reg[a["r"]] = case.union(reg[a["b"]], reg[a["x"]])
            if any(v is None for v in reg.values()):
                return
        case.observe_all([r for r in reg.values()])
        for r in list(reg.values()):
            case.ss_info(r)


def set_plans(cx):
    hs = some(cx, cx.plans.get("MC_Sets", []), 160, 4000)
    for i in range(0, len(hs), 8):
        yield cx.run("plan", set_plan, hs[i:i + 8])


def uneven_sets(cx, case):
    """a set of one or two samples, each several times, put together with a set of many other samples"""
    rng = cx.rng
    nv = rng.randint(3, 5)
    voc = rand_voc(rng, nv=nv, maxvals=3, minvals=2)
    p = prov(case, voc)
    pool = {}
    for _ in range(rng.randint(10, 26)):
        s = make(case, p, *rand_struct(rng, voc))
        if s:
            pool.setdefault(case.obj[s], s)
    pool = list(pool.values())
    rng.shuffle(pool)
    few = pool[:rng.choice([1, 1, 2, 3])]
    many = pool[rng.choice([0, 1, len(few), len(few)]):]
    b, c = case.ssb_new(p), case.ssb_new(p)
    for r in few:
        case.ssb_add(b, r, rng.choice([2, 2, 3, 5]))
    for r in many:
        case.ssb_add(c, r, rng.choice([1, 1, 2, 4]))
    x, y = case.ssb_build(b), case.ssb_build(c)
    us = [case.union(x, y), case.union(y, x)]
    if all(us):
        case.ss_eq(*us)
        for r in few:
            case.count_of(rng.choice(us), r)
    for d, o in rng.sample([(b, y), (c, x)], 2):
        e = case.ssb_copy(d)
        case.ssb_addall(e, o)
        us.append(case.ssb_build(e))
        case.ssb_removeall(e, o)
        us.append(case.ssb_build(e))
    case.joinlist([x, y, rng.choice([x, y])])
    for u in us:
        if u:
            case.ss_info(u)
    case.observe_all([x, y] + [u for u in us if u])


@driver("C17")
def c17(cx):
    yield from set_plans(cx)
    for _ in range(cx.n(12, 120)):
        yield cx.run("uneven", uneven_sets)
    for _ in range(cx.n(40, 500)):
        yield cx.run("machine", set_machine, cx.rng.randint(10, 30))
    yield from cx.wide(set_machine, 3, 30, ("alike",), 24)
    yield cx.run("joinlist", big_joinlist, cx.rng.choice([60, 300, 1100 if cx.shard == 0 else 200]))


def ask_again(case, r, voc):
    """what the object answers after its earlier answers were spoiled by whoever got them"""
    k = case.kind[r]
    if k == "s":
        case.content(r, voc)
        for n in sorted(case.obj[r].nodes, key=lambda n: repr(n.var_val()))[:2]:
            case.neigh(r, n.var_val(), None)
        case.epvars(r)
    elif k == "ss":
        case.ss_info(r)
        if case.obj[r]:
            case.probs(r)
        case.group(r)
    elif k in ("rg", "cg"):
        case.incl(r)
        case.marg(r)
        case.views(r)
        case.find(r, [])
        case.describe(r, voc)
        case.fold(r, voc)


def snapshot_case(cx, case):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 4), maxvals=2)
    p = prov(case, voc)
    pool = [s for s in (rand_sample(case, p, voc, rng) for _ in range(5)) if s] + [make(case, p, [], [])]
    rbs = [case.rgb_new(p)]
    for s in rng.sample(pool, min(3, len(pool))):
        case.rgb_add(rbs[0], s, cnt(rng))
    gs = [case.rgb_build(rbs[0])]
    cgs, xs, bs = [], [], []
    for _ in range(rng.randint(8, 20)):
        k = rng.random()
        if k < .2:
            case.rgb_add(rng.choice(rbs), rng.choice(pool), cnt(rng))
        elif k < .3:
            gs.append(case.rgb_build(rng.choice(rbs)))
        elif k < .4:
            rbs.append(case.rg_builder(rng.choice(gs + cgs)))
        elif k < .5:
            cgs.append(case.cond(rng.choice(gs), rng.choice(pool)))
        elif k < .55 and cgs:
            gs.append(case.cg_rg(rng.choice(cgs)))
        elif k < .62:
            xs.append(ssreg(case, rng.choice(gs + cgs)))
        elif k < .7 and xs:
            bs.append(case.ss_builder(rng.choice(xs)))
        elif k < .76 and bs:
            case.ssb_add(rng.choice(bs), rng.choice(pool), cnt(rng))
        elif k < .8 and bs:
            case.ssb_remove(rng.choice(bs), rng.choice(pool))
        elif k < .84 and bs:
            b = rng.choice(bs)
            xs.append(case.ssb_build(b))
            if rng.random() < .5:
                other_content(cx, case, b, pool)
                xs.append(case.ssb_build(b))
        elif k < .87 and bs:
            bs.append(case.ssb_copy(rng.choice(bs)))
        elif k < .95:
            r = rng.choice(gs + cgs + xs + pool + bs + [p])
            case.scribble(r)
            ask_again(case, r, voc)
        elif k < .97 and len(gs) < 8:
            case.joined_on(rng.choice(gs), None)
        else:
            case.fold(rng.choice(gs), voc)
        gs, cgs, xs, bs, rbs = ([r for r in q if r] for q in (gs, cgs, xs, bs, rbs))
        if rng.random() < .35:
            case.observe_all()
    for r in gs + cgs + xs + bs + [p]:
        case.scribble(r)
    for s in pool[:3]:
        case.scribble(s)
    for r in gs[:2] + cgs[:1] + xs[:2] + pool[:3]:
        ask_again(case, r, voc)
    case.observe_all()


def dict_case(cx, case):
    """sets made from a dictionary the caller goes on changing"""
    rng = cx.rng
    voc = rand_voc(rng, nv=2, maxvals=2)
    p = prov(case, voc)
    pool = [s for s in (rand_sample(case, p, voc, rng) for _ in range(4)) if s]
    d = {case.obj[s]: cnt(rng) for s in pool[:3]}
    from scripts.relnet.sample_set import SampleSet
    src = bag(case, p, [], rng)
    for kind, cls in (("ss", SampleSet), ("ssb", SampleSetBuilder)):
        rows = [[case.six(s), c] for s, c in d.items()]
        ok, o = case.call(lambda: cls(case.obj[p], d))
        r = case.new(kind, o, p)
        b = case.ssb_new(p)
        case.emit("load", ok, [b], b=b, rows=[])
        case.emit("fromdict", ok, [r], r=r, p=p, rows=rows)
        keep = dict(d)
        d[case.obj[pool[-1]]] = 99
        d.pop(next(iter(d)))
        for s in list(d):
            d[s] += 5
        case.observe_all([r])
        if kind == "ssb":
            case.ssb_add(r, pool[0], 1)
            if d.get(case.obj[pool[0]]) != d.get(case.obj[pool[0]]):
                return
        d = keep
    case.observe_all()


@driver("C18")
def c18(cx):
    yield from set_plans(cx)
    yield from rgb_plans(cx)
    for _ in range(cx.n(40, 400)):
        yield cx.run("snapshot", snapshot_case)
    for _ in range(cx.n(10, 50)):
        yield cx.run("dict", dict_case)


def rgb_case(cx, case):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(1, 4), maxvals=3)
    p, q, b = case.rgb_voc(voc, rng.choice([None, "n"]))
    rb = case.rgb_new(p)
    own = case.rgb_new(p)
    pool = [s for s in (rand_sample(case, p, voc, rng) for _ in range(4)) if s]
    pool += [make(case, p, [], [])]
    twin = make(case, p, *rand_struct(rng, voc, k=1), name="other")
    foreign = []
    sb = case.rgb_sb(b)
    n0 = rng.choice([(v, x) for v in voc.vars for x in voc.vars[v]])
    foreign.append(case.build_single(sb, *n0))
    case.rgb_build(rb)
    case.rgb_build(b)
    for _ in range(rng.randint(6, 16)):
        k = rng.random()
        if k < .35:
            case.rgb_add(rb, rng.choice(pool), rng.choice([None, 1, 2, 5, 40]))
        elif k < .45:
            case.rgb_add(rb, rng.choice(pool), rng.choice([0, -1, -7]))
        elif k < .53:
            case.rgb_add(rb, rng.choice(foreign), rng.choice([None, 3]))
        elif k < .58:
            case.rgb_add(b, rng.choice(foreign), rng.choice([None, 3]))
        elif k < .62:
            case.rgb_add(b, rng.choice(pool), 1)
        elif k < .74:
            ss = [rng.choice(pool) for _ in range(rng.randint(0, 4))]
            if rng.random() < .3:
                ss.insert(rng.randrange(len(ss) + 1), foreign[0])
            case.rgb_addmany(rb, ss, rng.choice([None, 1, 3, 0]))
        elif k < .82:
            n = rng.choice([(v, x) for v in voc.vars for x in voc.vars[v]])
            case.rgb_build_sample(rng.choice([rb, b]), lambda y: y.build_single_node(*n))
        elif k < .88:
            for _ in range(3):
                case.rgb_id(rng.choice([rb, b]))
        else:
            g = case.rgb_build(rb)
            if g and rng.random() < .5:
                h = case.rg_builder(g)
                if h:
                    case.rgb_add(h, rng.choice(pool), 2)
                    case.rgb_build(h)
                    case.rgb_id(h)
                    case.rgb_id(h)
    g = case.rgb_build(rb)
    if g:
        case.ss_info(ssreg(case, g))
    case.observe_all()


def rgb_ids(cx, case):
    """identifiers across generation and explicit requests"""
    p, q, b = case.rgb_voc(Voc({"a": ["1", "2"], "b": ["1"]}, ["r"]))
    for _ in range(3):
        case.rgb_id(b)
    case.rgb_gen(b)
    for _ in range(cx.n(1100, 5000) if cx.shard == 0 else 40):
        case.rgb_id(b)
    case.rgb_build(b)
    for _ in range(3):
        case.rgb_id(b)
    if cx.shard == 1 % cx.nshards:
        case.many_ids(b, 150000)


def rgb_plan(cx, case, hs):
    """histories of builders, graphs and conditional graphs enumerated by TLC (MC_Rgb)"""
    voc = Voc({"a": ["1", "2"], "b": ["1"]}, ["r"])
    for h in hs:
        p = prov(case, voc)
        q = prov(case, voc)
        s = {"s1": make(case, p, [("a", "1")], []), "s3": make(case, p, [("a", "2")], []),
             "s2": make(case, p, [("a", "1"), ("b", "1")], [((("a", "1"), ("b", "1")), "r")]),
             "f1": make(case, q, [("a", "1")], [])}
        reg = {"b1": case.rgb_new(p)}
        for a in h:
            o = a["op"]
            if o == "add":
                case.rgb_add(reg[a["b"]], s[a["s"]], a["c"])
                continue
            if o == "build":
                r = case.rgb_build(reg[a["b"]])
            elif o == "builder":
                r = case.rg_builder(reg[a["b"]])
            elif o == "cond":
                r = case.cond(reg[a["b"]], s[a["s"]])
            else:
                r = case.cg_rg(reg[a["b"]])
            if a["r"] != "none":
                if not r:
                    break
                reg[a["r"]] = r
        case.observe_all([r for r in reg.values()])


def rgb_plans(cx):
    hs = some(cx, cx.plans.get("MC_Rgb", []), 160, 4000)
    for i in range(0, len(hs), 8):
        yield cx.run("plan", rgb_plan, hs[i:i + 8])


@driver("C20")
def c20(cx):
    yield from rgb_plans(cx)
    for _ in range(cx.n(60, 700)):
        yield cx.run("rgb", rgb_case)
    yield cx.run("ids", rgb_ids)


# ============================================================================= C19: grouping
def group_case(cx, case):
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 6), maxvals=2)
    p = prov(case, voc)
    k = rng.random()
    if k < .5:
        rows = rand_rows(rng, voc, rng.randint(1, 8), empty=.08, k=rng.choice([1, 2, 2, 3, 3, 4]))
    else:
        # pieces of one assignment, so that they can be joined
        st = rand_struct(rng, voc, k=len(voc.vars))
        rows = [(sub_struct(rng, st), cnt(rng)) for _ in range(rng.randint(1, 5))]
        if rng.random() < .3:
            rows.append((relabel(rng, voc, sub_struct(rng, st)), 1))
        if rng.random() < .3:
            rows.append((swap_value(rng, voc, sub_struct(rng, st)), 1))
    x = bag(case, p, rows, rng)
    case.group(x)
    case.allmatch(x)
    case.canjoin(x)
    case.joined_sample(x)
    e = case.ssb_empty(case.ssb_new(p))
    case.group(e)
    case.allmatch(e)
    case.canjoin(e)
    case.joined_sample(e)
    case.observe_all([x])


def group_chain(cx, case):
    """many samples which only overlap with the next one"""
    rng = cx.rng
    n = rng.choice([9, 13, 17, 22, 30])
    vs = ["v%02d" % i for i in range(n)]
    rng.shuffle(vs)
    voc = Voc({v: ["1"] for v in vs}, ["r"])
    p = prov(case, voc)
    gap = rng.choice([None, None, rng.randrange(2, n - 4)])
    rows = []
    for i in range(n - 2):
        if gap is not None and gap - 2 < i <= gap:     # no sample over the gap: two groups
            continue
        ns = [(v, "1") for v in vs[i:i + 3]]
        rows.append(((ns, [((ns[0], ns[1]), "r"), ((ns[1], ns[2]), "r")]), cnt(rng)))
    rng.shuffle(rows)
    x = bag(case, p, rows, rng)
    case.group(x)
    case.canjoin(x)
    case.joined_sample(x)
    case.observe_all([x])


@driver("C19")
def c19(cx):
    for pl in cx.mine(cx.plan):
        yield cx.run("plan", group_plan, pl)
    for _ in range(cx.n(110, 1300)):
        yield cx.run("group", group_case)
    yield from cx.wide(group_case, 3, 30, ("alike",))
    for _ in range(cx.n(2, 20)):
        yield cx.run("chain", group_chain)


def group_plan(cx, case, pl):
    voc = Voc({v: sorted(xs) for v, xs in pl["voc"].items()}, ["r", "q"])
    p = prov(case, voc)
    for rows in ([(struct_of(x[0]), x[1]) for x in pl["net"]], [(struct_of(x[0]), x[1]) for x in pl["net"][::-1]]):
        x = bag(case, p, rows, cx.rng)
        case.group(x)
        case.allmatch(x)
        case.canjoin(x)
        case.joined_sample(x)


# ============================================================================= C22: determinism
def det_case(cx, case, i, pl=None):
    """the same program in every shard (each has its own hash seed), twice, with different insertion orders"""
    prog = random.Random("det/%d/%d" % (cx.seed, i))
    orders = cx.rng
    style = prog.choice(["letters", "words", "ints", "tuples", "unicode", "long"])
    net = i % 2 == 0 and not pl
    if pl:
        voc, vs = plan_voc(pl), sorted(pl["voc"])
        rows = [(struct_of(x[0]), x[1]) for x in pl["net"]]
    elif net:
        while True:
            voc, vs, sc, rows = small_net(prog, 40)
            if all(isinstance(v, (str, int)) for v in voc.vars) and not has_u(voc):
                break
    else:
        while True:
            voc = rand_voc(prog, nv=prog.randint(2, 4), maxvals=2, style=style)
            if not has_u(voc):
                break
        vs = list(voc.vars)
        rows = rand_rows(prog, voc, prog.randint(2, 9))
        if i % 3 == 1:      # ties: the same nodes related in every way, equally often
            ns = [(v, voc.vars[v][0]) for v in vs[:prog.randint(2, 3)]]
            k = prog.randint(1, 4)
            rows += [((ns, [((a, b), q) for a, b in zip(ns, ns[1:])]), k) for q in voc.rels]
            rows = [x for j, x in enumerate(rows) if all({frozenset(x[0][0]), frozenset((frozenset(e), repr(q)) for e, q in x[0][1])} !=
                                                         {frozenset(y[0][0]), frozenset((frozenset(e), repr(q)) for e, q in y[0][1])} for y in rows[:j])]
    evs = [sub_struct(prog, prog.choice(rows)[0]) for _ in range(2)]
    if rows[-1][0][0]:
        evs.append(([prog.choice(rows[-1][0][0])], []))
    rels = sorted({r for s, _ in rows for _, r in s[1]}, key=repr)
    flt = prog.sample(rels, 1) if rels else None
    pre = "%s%d/" % ("net" if pl else "", i)
    for rep in range(2):
        order = list(voc.vars)
        orders.shuffle(order)
        rr = list(voc.rels)
        orders.shuffle(rr)
        p = case.provider({v: orders.sample(voc.vars[v], len(voc.vars[v])) for v in order}, rr)
        rs = list(rows)
        orders.shuffle(rs)
        rs2 = []
        for (n, e), c in rs:
            n, e = list(n), list(e)
            orders.shuffle(n)
            orders.shuffle(e)
            rs2.append(((n, e), c))
        g = graph(case, p, rs2, orders)
        if not g:
            return
        o = case.obj[g]
        names = sorted(s.name for s in o.outcomes.samples())
        case.same(pre + "names", lambda: "\n".join(names))
        case.same(pre + "print", o.print_samples)
        case.same(pre + "repr", lambda: repr(o.outcomes))
        case.same(pre + "text", lambda: "\n".join(sorted(s.text_view() for s in o.outcomes.samples())))
        case.same(pre + "name", lambda: repr(o))
        case.same(pre + "descr", lambda: repr(sorted((k, sorted(v) if isinstance(v, set) else v) for k, v in o.describe().items())))
        case.same(pre + "marg", lambda: repr(sorted((repr(v), sorted((repr(x), q) for x, q in d.items()))
                                                    for v, d in o.marginal_variables_probability(unobserved=True).items())))
        case.same(pre + "probs", lambda: repr(sorted((s.text_view(), q) for s, q in o.outcomes.probabilities())))
        case.same(pre + "folded", lambda: repr(sorted(repr(n) for n in o.folded_graph().nodes)))
        if all(isinstance(v, str) for v in voc.vars) or all(isinstance(v, int) for v in voc.vars):
            case.same(pre + "fedges", lambda: repr(sorted(repr(n) for n in o.folded_graph().edges)))
        case.same(pre + "fact", lambda: repr(o.is_factorized()) + repr(o.is_joined()))
        case.marg(g)
        case.fold(g, voc)
        case.is_fact(g)
        case.factors(g)
        case.incl(g)
        x = ssreg(case, g)
        case.group(x)
        case.allmatch(x)
        case.canjoin(x)
        for k, st in enumerate(evs):
            s = make(case, p, *st, rng=orders)
            c = case.cond(g, s) if s else None
            if c:
                case.same(pre + "cond%d" % k, case.obj[c].print_samples)
                if st[0]:
                    case.same(pre + "aedges%d" % k, lambda: repr(sorted(repr(e) for e in case.obj[c].activation_graph().edges)))
                    case.act(c)
                    case.act(c, flt)
        if net:
            j = case.make_joined(g)
            case.same(pre + "joint", lambda: case.obj[j].print_samples() if j else "rejected")
            if j:
                case.posterior(g, [], j)
    if i % 4 == 1 and size_of(voc) <= 8 and len(voc.vars) <= 3 and len(voc.rels) <= 2:
        for rep in range(2):
            order = list(voc.vars)
            orders.shuffle(order)
            v2 = Voc({v: orders.sample(voc.vars[v], len(voc.vars[v])) for v in order}, voc.rels)
            _, _, b = case.rgb_voc(v2)
            case.rgb_gen(b)
            gg = case.rgb_build(b)
            if gg:
                case.same(pre + "enum", lambda: "\n".join(sorted(s.text_view() for s in case.obj[gg].outcomes.samples())))


@driver("C22")
def c22(cx):
    pick = random.Random("plans/%d" % cx.seed).sample(cx.plan, min(len(cx.plan), cx.n(24, 400)))
    for i, pl in enumerate(pick):
        yield cx.run("net%d" % i, det_case, i, pl)
    for i in range(cx.n(26, 220)):
        yield cx.run("det%d" % i, det_case, i)


# ============================================================================= C23: renderings
def render_case(cx, case):
    rng = cx.rng
    many = rng.random() < .12
    voc = rand_voc(rng, nv=rng.randint(6, 9) if many else rng.randint(2, 5), maxvals=2 if many else 3, style=rng.choice(["letters", "words", "ints", "unicode"]))
    p = prov(case, voc)
    L = case.legend(voc)
    rows = rand_rows(rng, voc, rng.randint(1, 3 if many else 9))
    rows = [(s, min(c, 20)) for s, c in rows]
    g = graph(case, p, rows, rng)
    if not g:
        return
    outs = sorted(case.obj[g].outcomes.samples(), key=lambda s: repr(sorted(map(repr, s.hash))))
    for s in outs[:5]:
        r = case.new("s", s, p)
        case.emit("make", True, [r], r=r, p=p, want=case.six(s))
        case.text(r, L)
        case.text(r, L, "name")
        case.text(r, L, "repr")
        case.draw_sample(r, L)
    case.listing(g, L)
    case.listing(g, L, "repr")
    case.draw_outcomes(g, L)
    case.draw_fold(g, L, voc)
    for _ in range(2):
        st = sub_struct(rng, rng.choice(rows)[0])
        s = make(case, p, *st, rng=rng)
        c = case.cond(g, s) if s else None
        if c:
            case.listing(c, L)
            case.draw_outcomes(c, L)
            if case.obj[c].outcomes:
                case.draw_fold(c, L, voc)
            if st[0]:
                case.draw_act(c, L, voc)
                rels = sorted({r for s, _ in rows for _, r in s[1]}, key=repr)
                if rels:
                    case.draw_act(c, L, voc, [rng.choice(rels)])
                part_texts(case, c, L, voc)
        part_texts(case, g, L, voc)
    case.observe_all([g])


def part_texts(case, g, L, voc):
    vs = list(voc.vars)
    for part in [VariableNode(vs[0])] + [VariableEdge({a, b}) for a, b in zip(vs, vs[1:])][:2]:
        case.part_text(part, L, voc)
    o = case.obj[g]
    gs = [o.folded_graph()] if o.outcomes else []
    if hasattr(o, "activation_graph"):
        gs.append(o.activation_graph())
    for x in gs:
        for part in list(x.nodes)[:3] + list(x.edges)[:3]:
            case.part_text(part, L, voc)


def render_plan(cx, case, pl):
    voc, p, g = plan_graph(cx, case, pl)
    L = case.legend(voc)
    for x in pl["net"]:
        s = make(case, p, *struct_of(x[0]))
        if s:
            case.text(s, L)
            case.draw_sample(s, L)
    case.listing(g, L)
    case.draw_outcomes(g, L)
    case.draw_fold(g, L, voc)


def named_case(cx, case):
    """outcomes with names of their own"""
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 3), maxvals=2, nrels=1, style="letters")
    p, q, b = case.rgb_voc(voc)
    case.rgb_gen(b)
    g = case.rgb_build(b)
    if not g or len(case.obj[g].outcomes.samples()) > 60:
        return
    L = case.legend(voc)
    case.listing(g, L)
    case.draw_outcomes(g, L)
    case.draw_fold(g, L, voc)


def namesake_case(cx, case):
    """outcomes that share their name, by rendering alike or by being given it"""
    rng = cx.rng
    voc = rand_voc(rng, nv=rng.randint(2, 4), maxvals=3, style="mixed")
    k = sorted(voc.vars, key=repr)[0]
    voc.vars[k] = [1, "1", 2, "2"][:rng.choice([2, 4])]
    voc = Voc(voc.vars, list(voc.rels))
    p = prov(case, voc)
    names = ["n", "m", "n(2)"]
    rows = [(st, rng.choice([1, 1, 2])) for st, _ in rand_rows(rng, voc, rng.randint(2, 8))]
    items = []
    for st, c in rows:
        s = make(case, p, *st, rng=rng)
        if not s:
            return
        if rng.random() < .5:
            b = case.sb_from(s)
            case.obj[b].set_name(rng.choice(names))
            s = (case.build(b) if st[0] else case.build_empty(b)) or s
        items.append((s, c))
    b = case.rgb_new(p)
    for x, c in items:
        case.rgb_add(b, x, c)
    g = case.rgb_build(b)
    if g:
        case.listing_names(g)
        case.listing_names(g, "repr")


def alike_fold(cx, case):
    """values which look alike, drawn with their counts"""
    rng = cx.rng
    xs = rng.choice([[1, "1", 2, "2"], [0, "0", (), "()"], [None, "None", 2.5, "2.5"]])
    voc = Voc({"a": xs[:rng.choice([2, 3, 4])], "b": xs[:2], "c": ["x"]}, ["r", "q"])
    p = prov(case, voc)
    g = graph(case, p, rand_rows(rng, voc, rng.randint(3, 10)), rng)
    if g:
        case.draw_fold(g, case.legend(voc), voc)


def collision_case(cx, case):
    """two different nodes whose drawn identifiers coincide"""
    voc = Voc({"a": ["b_c"], "a_b": ["c"]}, ["r"])
    p = prov(case, voc)
    s = make(case, p, [("a", "b_c"), ("a_b", "c")], [((("a", "b_c"), ("a_b", "c")), "r")])
    case.draw_sample(s, case.legend(voc))


@driver("C23")
def c23(cx):
    if cx.shard == 0:
        c = cx.run("collision", collision_case)
        c.meta["finding"] = "drawn-node-identifier-collision"
        yield c
    for pl in some(cx, cx.plan, 40):
        yield cx.run("plan", render_plan, pl)
    for _ in range(cx.n(40, 450)):
        yield cx.run("render", render_case)
    for _ in range(cx.n(3, 12)):
        yield cx.run("named", named_case)
    for _ in range(cx.n(12, 80)):
        yield cx.run("namesake", namesake_case)
    for _ in range(cx.n(3, 30)):
        yield cx.run("alike", alike_fold)


# ============================================================================= C37: equality by content
def parts_of(rng, o):
    """value objects reachable from a graph: parts of its folded and activation graphs, samples, components, sets"""
    out = [o.outcomes]
    try:
        f = o.folded_graph()
        out += list(f.nodes) + list(f.edges) + [f]
    except Exception:
        pass
    if hasattr(o, "activation_graph"):
        for flt in (None, set()):
            a = o.activation_graph() if flt is None else o.activation_graph(flt)
            out += list(a.nodes) + list(a.edges) + [a]
    ss = list(o.outcomes.samples())
    for s in rng.sample(ss, min(2, len(ss))):
        out += [s] + list(s.nodes)[:2] + list(s.edges)[:2]
        out += [e.relation for e in s.edges if isinstance(e.relation, DirectedRelation)][:2]
    return out


def twins_case(cx, case):
    rng = cx.rng
    voc = no_u(rng, nv=rng.randint(2, 4), maxvals=2)
    rows = rand_rows(rng, voc, rng.randint(1, 6), empty=rng.choice([0, .2]))
    p = prov(case, voc)
    other = list(rows)
    rng.shuffle(other)
    k = rng.random()
    if k < .4 and other:      # nearly the same: one count, one row, one relation
        i = rng.randrange(len(other))
        other[i] = (other[i][0], other[i][1] + 1)
    elif k < .6 and len(other) > 1:
        other.pop()
    elif k < .8:
        (ns, es), c = other[0]
        if es:
            ep, r = es[0]
            other[0] = ((ns, [(ep, rand_rel(rng, voc, *ep))] + list(es[1:])), c)
    gs = [graph(case, p, rows, rng), graph(case, p, other, rng), graph(case, p, [(s, c * 2) for s, c in rows], rng)]
    pool = []
    for g in gs:
        o = case.obj[g]
        pool += parts_of(rng, o)
        # evidence that is, that is not and that can not be in the outcomes
        for st in [sub_struct(rng, rng.choice(rows)[0]), rand_struct(rng, voc), rand_struct(rng, voc, k=1)]:
            if st[0]:
                try:
                    pool += parts_of(rng, o.conditional_graph(build_quiet_raw(case, p, st)))
                except Exception:
                    pass
    vs = list(voc.vars)
    rels = [DirectedRelation(a, b, r) for a in vs[:3] for b in vs[:3] if a != b for r in voc.rels[:2]]
    pool += rng.sample(rels, min(6, len(rels))) + [DirectedRelation(r.source_variable, r.target_variable, r.relation) for r in rels[:2]]
    ends = [rng.sample(vs, 2) for _ in range(4)]
    plain = [VariableNode(v) for v in vs[:3] + vs[:2]] + [VariableEdge(q) for q in (set(ends[0]), frozenset(ends[0]), ends[0][::-1], *ends[1:])]
    pool += plain + [VariablesGraph(case.obj[p], 3, rng.sample(ns, min(len(ns), 2)), rng.sample(es, rng.randint(0, 2)), rng.choice("xy"))
                     for ns, es in [(plain[:len(vs[:3] + vs[:2])], plain[-6:])] * 4]
    case.keep.append(pool)
    kinds = {}
    for x in pool:
        kinds.setdefault(type(x).__name__, []).append(x)

    def near(x, y):
        """how much of the content two objects share: near misses are the interesting pairs"""
        a, b = {repr(q) for q in case.econtent(x)}, {repr(q) for q in case.econtent(y)}
        return -len(a & b) / max(1, len(a | b))
    for k, xs in sorted(kinds.items()):
        xs = rng.sample(xs, min(22, len(xs)))
        pairs = list(itertools.combinations(xs, 2))
        rng.shuffle(pairs)
        pairs.sort(key=lambda q: near(*q))
        same = [q for q in pairs if near(*q) == -1]
        rest = [q for q in pairs if near(*q) > -1]
        for a, b in same[:5] + rest[:14] + rest[-2:]:
            case.twins(a, b)
    reps = [rng.choice(xs) for _, xs in sorted(kinds.items())]
    for a, b in rng.sample(list(itertools.permutations(reps, 2)), min(20, len(reps) * (len(reps) - 1))):
        case.twins(a, b)
    for a in reps:
        for b in (None, 0, repr(a), (a,)):
            case.neq_other(a, b)


def build_quiet_raw(case, p, st):
    return gen.build_quiet(case.obj[p], *st)


def twins_plan(cx, case, pl):
    """the same network given in two orders, and the same network with one count changed"""
    voc = plan_voc(pl)
    p = prov(case, voc)
    rows = [(struct_of(x[0]), x[1]) for x in pl["net"]]
    g = case.obj[graph(case, p, rows, cx.rng)]
    h = case.obj[graph(case, p, rows[::-1], cx.rng)]
    i = cx.rng.randrange(len(rows))
    d = case.obj[graph(case, p, [(s, c + (j == i)) for j, (s, c) in enumerate(rows)], cx.rng)]
    case.keep.append((g, h, d))
    for x in (h, d):
        case.twins(g.outcomes, x.outcomes)
        a, b = g.folded_graph(), x.folded_graph()
        case.twins(a, b)
        for m in a.nodes:
            for n in b.nodes:
                if m.variable == n.variable:
                    case.twins(m, n)
        for m in a.edges:
            for n in b.edges:
                if m.endpoints & n.endpoints:
                    case.twins(m, n)


@driver("C37")
def c37(cx):
    for pl in some(cx, cx.plan, 40):
        yield cx.run("plan", twins_plan, pl)
    for _ in range(cx.n(30, 400)):
        yield cx.run("twins", twins_case)
    yield from cx.wide(twins_case, 4, 40, ("alike",))


# ============================================================================= C38: names
def call_named(rng, f, given):
    """the optional name may be passed by position, by keyword, as None or not at all"""
    if given:
        return f(given[0]) if rng.random() < .5 else f(name=given[0])
    return f() if rng.random() < .7 else f(name=None)


def names_plan(cx, case, pl):
    names_history(cx, case, pl["part"], [(h["how"], h["x"], h["given"]) for h in pl["hist"]])


def names_history(cx, case, part, hist):
    rng = cx.rng
    voc = Voc({"a": ["1", "2"], "b": ["1", "2"], "c": ["1"], "d": ["1"], "e": ["1"]}, ["r"])
    p = prov(case, voc)
    pr = case.obj[p]
    evs = [gen.build_quiet(pr, [n], []) for n in [("a", "1"), ("a", "1"), ("a", "2"), ("b", "2"), ("c", "1")]]
    evs.append(gen.build_quiet(pr, [("a", "1"), ("b", "1")], [((("a", "1"), ("b", "1")), "r")]))
    regs, bare = [], set()

    def put(how, o, k, x, given, got=None, text=None):
        r = case.new(k, o, p) if k else "leaf%d" % len(regs)
        regs.append((r, o))
        case.named(how, r, x, given[0] if given else None, got, text, outs=[r] if k else [])

    first = rng.choice([None, None, "first"])
    if part == "s":
        b = SampleGraphBuilder(pr, first) if first else SampleGraphBuilder(pr)
        for x, y in rng.choice(["ab", "ab,ad", "ab,bd,de", "ab,ae,be,ed,bd"]).split(","):
            b.add_relation({(x, "1"), (y, "1")}, "r")
        put("new", b, "sb", None, [first] if first else [])
    else:
        b = RelationGraphBuilder(None, None, first, None, pr) if first else RelationGraphBuilder(components_provider=pr)
        for i in range(1, rng.choice([2, 2, 3, 3])):
            b.add_outcome(gen.build_quiet(pr, [("a", "1"), ("b", str(i))], [((("a", "1"), ("b", str(i))), "r")]), rng.randint(1, 3))
        put("new", b, "rgb", None, [first] if first else [])
    for how, i, given in hist:
        x, o = regs[i - 1]
        if how == "set":
            y = o.set_name(given[0] if given else None)
            case.named("set", x, x, given[0] if given else None, slf=y is o)
        elif how == "copy":
            put(how, relrec.copy.copy(o), "sb", x, [])
        elif how in ("build", "build_single", "build_from_edges", "build_empty"):
            f = {"build": lambda: o.build(), "build_single": lambda: o.build_single_node("a", "2"), "build_empty": lambda: o.build_empty(),
                 "build_from_edges": lambda: relrec.copy.copy(o).build_from_edges(frozenset({(frozenset({("b", "1"), ("c", "1")}), "r")}))}[how]
            try:
                s = f()
            except AssertionError:
                if how == "build_empty":
                    raise
                how, s = "build_empty", o.build_empty()
            put(how, s, "s", x, [], s.name, s.text_view())
        elif how == "builder" and part == "s":
            put(how, o.builder(), "sb", x, [])
        elif how == "transform":
            rep = {n.variable: "2" if n.value == "1" else "1" for n in o.nodes if n.variable in "ab"}
            t = call_named(rng, lambda name=None: o.transform_with_replaced_values(rep, name), given)
            if t is o:      # nothing to replace: the object itself
                put("copy", t, "s", x, [], t.name, t.text_view())
            else:
                put(how, t, "s", x, given, t.name, t.text_view())
        elif how == "rgb_build":
            if id(o) in bare:         # a builder without outcomes builds nothing
                break
            g = o.build()
            put(how, g, "rg", x, [], g.name)
            case.emit_described(g, regs[-1][0])
        elif how == "builder":
            put(how, o.builder(), "rgb", x, [])
            if not o.outcomes:
                bare.add(id(regs[-1][1]))
        elif how == "fold":
            f = call_named(rng, o.folded_graph, given)
            put(how, f, None, x, given, f.name)
        elif how == "activation":
            flt = rng.choice([None, {"r"}, set()])
            f = call_named(rng, lambda name=None: o.activation_graph(name=name) if flt is None else o.activation_graph(flt, name), given)
            put(how, f, None, x, given, f.name)
        elif how == "cond":
            g = call_named(rng, lambda name=None: o.conditional_graph(rng.choice(evs), name), given)
            put(how, g, "cg", x, given, g.name)
        elif how == "relation_graph":
            g = call_named(rng, o.relation_graph, given)
            put(how, g, "rg", x, given, g.name)
            case.emit_described(g, regs[-1][0])
        else:
            if how == "joined_on":
                vs = rng.choice([None, {"a"}, {"a", "b"}, set()])
                g = call_named(rng, lambda name=None: o.joined_on_variables(vs, name) if vs is not None else o.joined_on_variables(name=name), given)
            else:
                g = call_named(rng, lambda name=None: o.make_joined(name), given)
            put(how, g, "rg", x, given, g.name)
            case.emit_described(g, regs[-1][0])
    # every object built keeps its name, and names never matter for equality
    for x, o in [k for k in regs if isinstance(k[1], SampleGraphBuilder)][:2]:
        for _ in range(2):
            try:
                s = o.build()
            except AssertionError:     # nothing in it
                break
            put("build", s, "s", x, [], s.name, s.text_view())
    last = {r: o for r, o in regs if hasattr(o, "name")}
    for r, o in last.items():
        case.named("copy", r, r, None, o.name)
    ss = [o for o in last.values() if isinstance(o, relrec.SampleGraph)]
    for a, b in rng.sample(list(itertools.combinations(ss, 2)), min(3, len(ss) * (len(ss) - 1) // 2)):
        case.twins(a, b)


def names_random(cx, case):
    """longer histories, names of all sorts"""
    rng = cx.rng
    part = rng.choice("sg")
    pool = ["n", "a name", "{(a_1)}", "O_1", "relation_graph_with_1_outcomes", "ä→", "0", " ", "None", "x" * 300]
    kinds, hist = ["sb" if part == "s" else "rgb"], []
    for _ in range(rng.randint(5, 16)):
        i = rng.randrange(len(kinds))
        k = kinds[i]
        given = rng.choice([[], [rng.choice(pool)], [rng.choice(pool)]])
        how, res = rng.choice({"sb": [("set", None), ("copy", "sb"), ("build", "s"), ("build_single", "s"), ("build_empty", "s"), ("build_from_edges", "s")],
                               "s": [("builder", "sb"), ("transform", "s")],
                               "rgb": [("set", None), ("rgb_build", "rg")],
                               "rg": [("builder", "rgb"), ("relation_graph", "rg"), ("fold", "leaf"), ("cond", "cg"), ("joined_on", "rg"), ("make_joined", "rg")],
                               "cg": [("builder", "rgb"), ("relation_graph", "rg"), ("fold", "leaf"), ("activation", "leaf")],
                               "leaf": [(None, None)]}[k])
        if how is None:
            continue
        if how not in ("set", "transform", "cond", "fold", "activation", "relation_graph", "joined_on", "make_joined"):
            given = []
        hist.append((how, i + 1, given))
        if res:
            kinds.append(res)
    names_history(cx, case, part, hist)


def names_again(cx, case):
    """the same call on the same object, with and without names, in every order"""
    rng = cx.rng
    hist = [("rgb_build", 1, []), ("cond", 2, rng.choice([[], ["given"]]))]
    for how, i in rng.sample([("fold", 2), ("relation_graph", 2), ("joined_on", 2), ("make_joined", 2), ("cond", 2), ("builder", 2), ("fold", 3),
                              ("activation", 3), ("relation_graph", 3), ("builder", 3), ("rgb_build", 1)], 4):
        for _ in range(rng.randint(2, 4)):
            named = how not in ("builder", "rgb_build") and rng.random() < .5
            hist.append((how, i, [rng.choice(["n", "m", "a name"])] if named else []))
    if rng.random() < .5:
        hist = hist[:2] + rng.sample(hist[2:], len(hist) - 2)
    names_history(cx, case, "g", hist)


@driver("C38")
def c38(cx):
    for pl in some(cx, cx.plan, 130, 4000):
        yield cx.run("plan", names_plan, pl)
    for _ in range(cx.n(12, 120)):
        yield cx.run("again", names_again)
    for _ in range(cx.n(60, 900)):
        yield cx.run("names", names_random)


def main():
    prop, seed, shard, nshards, tier, out = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5], sys.argv[6]
    plan = []
    if len(sys.argv) > 7:
        with open(sys.argv[7]) as h:
            plan = [json.loads(x) for x in h]
    cx = Ctx(prop, seed, shard, nshards, tier, plan)
    with open(out, "w") as h:
        for c in D[prop](cx):
            h.write(json.dumps(c.dump()) + "\n")
            h.flush()
            if relrec.HANGS > 2:
                break
        h.write('{"end": true}\n')


if __name__ == "__main__":
    main()
