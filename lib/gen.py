"""Random vocabularies, samples, tables and networks (inputs only; no expectations)."""
import itertools
from relrec import Voc, DirectedRelation, SampleGraphBuilder

STYLES = ("letters", "words", "ints", "tuples", "falsy", "unicode", "mixed", "long", "under", "alike")


def names(rng, style, n, kind):
    """n distinct names of one kind ('v' variables, 'x' values, 'r' relations)"""
    if style == "letters":
        return [kind + c for c in "abcdefghijklmnop"[:n]] if kind != "v" else list("abcdefghijklmnop"[:n])
    if style == "words":   # names made of each other's characters
        pool = {"v": ["a", "b", "ab", "ba", "abc", "c", "cab", "bc", "d", "abcd"],
                "x": ["1", "11", "12", "2", "21", "a", "b", "ab", "on", "no"],
                "r": ["r", "rr", "is", "si", "a", "ab", "r1", "r11"]}[kind]
        return rng.sample(pool, n) if n <= len(pool) else pool + ["%s%d" % (kind, i) for i in range(n - len(pool))]
    if style == "ints":
        base = rng.choice([0, 1, 7, -2])
        return [base + i for i in range(n)]
    if style == "tuples":
        return [(kind, i) if i % 2 else (kind,) * (i + 1) for i in range(n)]
    if style == "falsy":
        pool = {"v": ["", 0, (), "v", 5, "w", (1,), "zz", 9, "y"], "x": [0, None, "", (), "x", 3, (0,), "0", -1, 8],
                "r": ["", 0, (), "r", 4, "s", (2,), "t"]}[kind]
        return pool[:n]
    if style == "unicode":
        pool = {"v": ["ä", "β", "変", "a b", "c\td", "é-é", "¢5", "ы", "v9", "ü"], "x": ["ж", "1¢", "H", "T", "h then t", "∅", "ø", "é", "ñ", "ß"],
                "r": ["→", "r→s", "это", "is a", "∈", "r ", " r", "R"]}[kind]
        return rng.sample(pool, n)
    if style == "mixed":
        pool = {"v": ["a", 1, ("a", 1), "1", 2.5, frozenset({"a"}), b"a", "A", 11, "a1"], "x": ["T", "F", 0, "0", 1.5, ("T",), b"T", "t", 10, "x"],
                "r": ["r", 2, ("r", "r"), "2", "R", 3.5, b"r", "rr"]}[kind]
        return rng.sample(pool, n)
    if style == "alike":   # different names with the same text
        pool = {"v": ["a", 1, "1", "b", (1,), "(1,)", 0, "0", "c", 2, "2"], "x": [1, "1", 0, "0", (1,), "(1,)", 2.5, "2.5", None, "None"],
                "r": [1, "1", 2, "2", (1,), "(1,)", 0, "0", "r"]}[kind]
        k = rng.randrange(0, len(pool) - n + 1, 2) if n < len(pool) else 0
        return pool[k:k + n] if n <= len(pool) else pool + ["%s%d" % (kind, i) for i in range(n - len(pool))]
    if style == "under":   # different pairs of names with the same concatenation
        pool = {"v": ["a", "a_b", "a_b_c", "b", "b_c", "c", "_", "a_"], "x": ["b_c", "c", "b", "d", "c_d", "b_c_d", "_c", ""],
                "r": ["r", "r_r", "_", "c", "b_c", "r_"]}[kind]
        return pool[:n] if n <= len(pool) else pool + ["%s%d" % (kind, i) for i in range(n - len(pool))]
    return ["%s_%s_%d" % (kind * 8, "x" * (i % 3), i) for i in range(n)]


NAMED = None    # None, or the random generator that gives samples names which many of them share
WIDE = None     # None, or one of "values", "vars", "rels": vocabularies far larger than usual in one respect


def rand_voc(rng, nv=None, maxvals=3, nrels=None, style=None, minvals=1):
    nv = nv or rng.randint(2, 5)
    style = style or rng.choice(STYLES)
    if WIDE == "alike":     # every second name is the text of the one before
        vs = rng.sample(["a", "b", 1, "1", "c"], min(nv, 4))
        xs = rng.choice([[1, "1", 2, "2"], [0, "0", (1,), "(1,)"], [None, "None", 2.5, "2.5"], ["x", b"x", "b'x'", 3]])
        rs = rng.choice([[1, "1"], [(1,), "(1,)"], [0, "0", "r"]])
        return Voc({v: xs[:max(2, min(maxvals, 4), minvals)] for v in vs}, rs[:nrels] if nrels and nrels > 1 else rs)
    if WIDE:
        nv = rng.randint(7, 11) if WIDE == "vars" else min(max(nv, 2), 3)
        k = rng.randint(9, 16) if WIDE == "values" else 2
        m = rng.randint(6, 10) if WIDE == "rels" else 2
        sep = rng.choice(["", "_", " "])
        vs = ["v%s%d" % (sep, i) for i in range(nv)]
        out = {v: ["x%s%d" % (sep, j) for j in range(k if WIDE == "values" and (i == 0 or rng.random() < .3) else rng.randint(1, 2))]
               for i, v in enumerate(vs)}
        return Voc(out, ["r%s%d" % (sep, i) for i in range(m)])
    vs = names(rng, style, nv, "v")
    xs = names(rng, style, max(maxvals, 2) + 1, "x")
    rs = names(rng, style, nrels or rng.randint(1, 3), "r")
    out = {}
    for v in vs:
        k = rng.randint(minvals, maxvals)
        out[v] = xs[:k] if style == "alike" and rng.random() < .5 else rng.sample(xs, k)
    return Voc(out, rs)


def rand_rel(rng, voc, a, b, directed=0.3):
    r = rng.choice(voc.rels)
    if rng.random() < directed:
        if rng.random() < .06:      # from a variable to itself
            return DirectedRelation(a[0], a[0], r)
        return DirectedRelation(a[0], b[0], r) if rng.random() < .5 else DirectedRelation(b[0], a[0], r)
    return r


def rand_struct(rng, voc, k=None, directed=0.3, extra=None, nodes=None):
    """random connected single-valued sample: (list of nodes, list of (pair, relation)) in a buildable order"""
    if nodes is None:
        vs = list(voc.vars)
        k = min(k or rng.randint(1, len(vs)), len(vs))
        nodes = [(v, rng.choice(voc.vars[v])) for v in rng.sample(vs, k)]
    edges = []
    shape = rng.choice(["tree", "chain", "star"])
    for i in range(1, len(nodes)):
        j = i - 1 if shape == "chain" else 0 if shape == "star" else rng.randrange(i)
        edges.append(((nodes[j], nodes[i]), rand_rel(rng, voc, nodes[j], nodes[i], directed)))
    done = {frozenset(e[0]) for e in edges}
    p = rng.choice([0, .3, 1]) if extra is None else extra
    for a, b in itertools.combinations(nodes, 2):
        if frozenset((a, b)) not in done and rng.random() < p:
            edges.append(((a, b), rand_rel(rng, voc, a, b, directed)))
    return nodes, edges


def build_quiet(provider, nodes, edges, rng=None, how=None, name=None):
    """build a sample with the real library in one of several ways"""
    b = SampleGraphBuilder(provider)
    if name is None and NAMED and NAMED.random() < .6:
        name = NAMED.choice(["E", "s", "E", "a{\"1\"}"])
    if name is not None:
        b.set_name(name)
    if not nodes:
        return b.build_empty()
    if not edges:
        return b.build_single_node(*nodes[0])
    how = how or (rng.choice(["add", "edges", "join"]) if rng else "edges")
    if how == "edges":
        return b.build_from_edges(frozenset((frozenset(ep), r) for ep, r in edges))
    todo = list(edges)
    if rng:
        rng.shuffle(todo)
    have = set()
    while todo:
        for i, (ep, r) in enumerate(todo):
            if not have or have & set(ep):
                if how == "add":
                    b.add_relation(set(ep), r)
                else:
                    b.join_sample(SampleGraphBuilder(provider).add_relation(set(ep), r).build())
                have |= set(ep)
                del todo[i]
                break
        else:
            raise RuntimeError("not connected")
    return b.build()


def make(case, p, nodes, edges, rng=None, how=None, name=None):
    """register a sample of provider register p in one step"""
    want = case.ix(nodes, edges)
    ok, s = case.call(lambda: build_quiet(case.obj[p], nodes, edges, rng, how, name))
    r = case.new("s", s, p) if ok else None
    case.emit("make", ok, [r] if ok else [], r=r or "-", p=p, want=want)
    return r


def rand_sample(case, p, voc, rng, **kw):
    how = kw.pop("how", None)
    n, e = rand_struct(rng, voc, **kw)
    return make(case, p, n, e, rng, how)


def factor_struct(rng, voc, scope, shape=None, relmode=None, directed=0.3):
    """rows of a complete table over the variables scope: list of (nodes, edges), one per combination"""
    scope = list(scope)
    pairs = []
    if len(scope) > 1:
        shape = shape or rng.choice(["chain", "star", "full"])
        if shape == "chain":
            pairs = [(i, i + 1) for i in range(len(scope) - 1)]
        elif shape == "star":
            pairs = [(0, i) for i in range(1, len(scope))]
        else:
            pairs = list(itertools.combinations(range(len(scope)), 2))
    relmode = relmode or rng.choice(["one", "per-row"])
    fixed = {q: rand_rel(rng, voc, (scope[q[0]], 0), (scope[q[1]], 0), directed) for q in pairs}
    rows = []
    for combo in itertools.product(*[voc.vars[v] for v in scope]):
        nodes = list(zip(scope, combo))
        edges = [((nodes[i], nodes[j]),
                  fixed[(i, j)] if relmode == "one" else rand_rel(rng, voc, nodes[i], nodes[j], directed)) for i, j in pairs]
        rows.append((nodes, edges))
    return rows


def scopes(rng, vs, kind):
    """variable scopes of the factors of a connected network; pairs of variables never shared by two factors"""
    vs = list(vs)
    n = len(vs)
    if kind == "chain":
        return [(vs[i], vs[i + 1]) for i in range(n - 1)] or [(vs[0],)]
    if kind == "star":
        return [(vs[0], v) for v in vs[1:]] or [(vs[0],)]
    if kind == "cycle" and n > 2:
        return [(vs[i], vs[(i + 1) % n]) for i in range(n)]
    if kind == "clique" and n > 2:
        return list(itertools.combinations(vs, 2))
    if kind == "hyper" and n > 2:
        k = rng.randint(3, n)
        return [tuple(vs[:k])] + [(vs[rng.randrange(k)], v) for v in vs[k:]]
    if kind == "vshape" and n > 2:      # two parents, as in the experiments
        return [(vs[0], vs[1], vs[2])] + [(vs[i - 1], vs[i]) for i in range(3, n)]
    out = []
    for i in range(1, n):
        out.append((vs[rng.randrange(i)], vs[i]))
    for a, b in itertools.combinations(vs, 2):
        if rng.random() < .25 and (a, b) not in out and (b, a) not in out:
            out.append((a, b))
    return out or [(vs[0],)]
