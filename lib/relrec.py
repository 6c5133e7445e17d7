"""Recorder: executes public calls of the real library and writes down what was observed, as histories for
spec/SystemTrace.tla.  It holds no expectations of its own: every judgement is made by the specification.

Python objects used as variables, values and relations are mapped to string tokens."""
import copy
import os
import random
import resource
import signal
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "Python", "research"))
sys.dont_write_bytecode = True

from scripts.relnet.graph_components import (BuilderComponentsProvider, DirectedRelation,  # noqa: E402
                                             ValueNode, RelationEdge)
from scripts.relnet.sample_graph import SampleGraphBuilder, SampleGraph  # noqa: E402
from scripts.relnet.sample_set import SampleSet, SampleSetBuilder  # noqa: E402
from scripts.relnet.relation_graph import RelationGraphBuilder, RelationGraph  # noqa: E402


import pyvis.network as PV  # noqa: E402


class Hang(BaseException):
    pass


def _alarm(*_):
    hung()
    raise Hang()


HANGS = 0


def hung():
    """after a few calls that do not come back the rest of the run is left out"""
    global HANGS
    HANGS += 1


signal.signal(signal.SIGALRM, _alarm)
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
CALL_LIMIT = int(os.environ.get("VERIF_CALL_LIMIT", "60"))


class Voc:
    """Vocabulary with tokens; names may be any hashable python values."""

    def __init__(self, variables, relations):
        self.vars = dict(variables)          # variable -> list of values
        self.rels = list(relations)


class Tok:
    """token <-> python value; tokens are prefixed by kind so that they are unique strings"""

    def __init__(self):
        self.t2v = {}
        self.v2t = {}

    def tok(self, v):
        k = (type(v).__name__, repr(v))
        if k not in self.v2t:
            t = v if isinstance(v, str) and v not in self.t2v and v.isascii() and v.isprintable() and v not in (
                "", "UNOBSERVED") and '"' not in v and "\\" not in v else "#%d" % len(self.v2t)
            while t in self.t2v:
                t += "'"
            self.v2t[k] = t
            self.t2v[t] = v
        return self.v2t[k]


def fx(x):
    """probability -> nine decimals; anything that is no number in [-2, 2] becomes -1000000000"""
    try:
        x = float(x)
        if x != x or abs(x) > 2:
            return -1000000000
        return int(round(x * 1e9))
    except Exception:
        return -1000000000


UNIT = 0    # cases in which every count is a multiple of this record how many of it
MOD = 0     # cases of huge counts record what is left of them modulo this


def num(x):
    """count -> int that fits TLC; everything else is an impossible value"""
    if MOD and isinstance(x, int) and not isinstance(x, bool):
        return x % MOD
    if UNIT and isinstance(x, int) and not isinstance(x, bool):
        x = x // UNIT if x % UNIT == 0 else -1999999999
    if isinstance(x, bool) or not isinstance(x, int):
        if isinstance(x, float) and x.is_integer() and abs(x) < 2 ** 31:
            return int(x)
        return -2000000000
    return x if abs(x) < 2 ** 31 - 10 else -2000000001


class Case:
    def __init__(self, cid, meta=None):
        self.id = cid
        self.ev = []
        self.tab = []
        self._tabix = {}
        self.obj = {}          # register -> python object
        self.kind = {}
        self.prov = {}         # id(provider) -> register
        self.tk = Tok()
        self.n = 0
        self.keep = []         # keeps objects alive so that id() stays unique
        self.meta = meta or {}
        self._ids = {}
        self.obs_cache = {}
        self._held = {}

    # ------------------------------------------------------------------ encoding
    def tok(self, v):
        return self.tk.tok(v)

    def enode(self, n):
        """any (variable, value) pair or ValueNode"""
        if isinstance(n, tuple):
            return [self.tok(n[0]), self.tok(n[1])]
        return [self.tok(n.variable), self.tok(n.value)]

    def erel(self, r):
        if isinstance(r, DirectedRelation):
            return [self.tok(r.relation), self.tok(r.source_variable), self.tok(r.target_variable)]
        return [self.tok(r)]

    def eedge(self, e):
        if isinstance(e, tuple):
            return {"ep": sorted(self.enode(n) for n in e[0]), "rel": self.erel(e[1])}
        return {"ep": sorted(self.enode(n) for n in e.endpoints), "rel": self.erel(e.relation)}

    def ix(self, nodes, edges):
        """index (from 1) of a sample in the table of this case"""
        ns = sorted(self.enode(n) for n in nodes)
        es = sorted((self.eedge(e) for e in edges), key=lambda x: (x["ep"], x["rel"]))
        key = repr((ns, es))
        if key not in self._tabix:
            self.tab.append({"n": ns, "e": es})
            self._tabix[key] = len(self.tab)
        return self._tabix[key]

    def six(self, s):
        return self.ix(list(s.nodes), list(s.edges))

    def ebag(self, items):
        return [[self.six(s), num(k)] for s, k in items]

    def evars(self, vs):
        return [[self.tok(v), [self.tok(x) for x in xs]] for v, xs in vs]

    def oid(self, o):
        self.keep.append(o)
        return self._ids.setdefault(id(o), len(self._ids) + 1)

    # ------------------------------------------------------------------ observation of registers
    def observe(self, r):
        o, k = self.obj[r], self.kind[r]
        if k == "p":
            return {"k": "p", "vars": self.evars(o.variables()), "rels": [self.tok(x) for x in o.relations()]}
        if k == "s":
            return {"k": "s", "p": self.pof[r], "s": self.six(o)}
        if k == "sb":
            try:
                s = o.build()
                i = self.six(s)
            except AssertionError:
                i = self.ix([], [])
            return {"k": "sb", "p": self.pof[r], "s": i}
        if k in ("ss", "ssb"):
            return {"k": k, "p": self.pof[r], "b": self.ebag(self.items(o))}
        if k == "rgb":
            try:
                b = self.ebag(self.items(o.build().outcomes))
            except AssertionError:
                b = []
            return {"k": k, "p": self.pof[r], "b": b}
        if k == "rg":
            return {"k": k, "p": self.pof[r], "b": self.ebag(self.items(o.outcomes))}
        if k == "cg":
            return {"k": k, "p": self.pof[r], "b": self.ebag(self.items(o.outcomes)), "ev": self.six(o.evidence)}
        raise AssertionError(k)

    pof = None

    @staticmethod
    def items(o):
        return sorted(((s, k) for s, k in o.items()), key=lambda x: (repr(sorted(map(repr, x[0].nodes))), repr(sorted(map(repr, x[0].edges))), repr(x[1])))

    def new(self, kind, o, p):
        self.n += 1
        r = "%s%d" % (kind, self.n)
        self.obj[r] = o
        self.kind[r] = kind
        if self.pof is None:
            self.pof = {}
        self.pof[r] = p if kind != "p" else r
        return r

    def call(self, f):
        """-> (ok, value); an exception of the library is a rejection, a hang is reported as an exception"""
        signal.alarm(CALL_LIMIT)
        try:
            return True, f()
        except Hang:
            return False, "hang"
        except RecursionError as x:
            return False, x
        except (Exception, SystemExit) as x:
            return False, x
        finally:
            signal.alarm(0)

    def held(self, xs, make=None):
        """the caller's own set with these members: the same object every time, as a caller would use it again"""
        key = repr(sorted((type(x).__name__, repr(x)) for x in xs)) + (make.__name__ if make else "")
        if key not in self._held:
            self._held[key] = set(xs) if make is None else {make(*x) for x in xs}
        return self._held[key]

    def heldd(self, d):
        """the caller's own dictionary"""
        key = "d" + repr(sorted(map(repr, d.items())))
        if key not in self._held:
            self._held[key] = dict(d)
        return self._held[key]

    def emit(self, op, ok, outs, **kw):
        out = []
        for r in outs:
            good, v = self.call(lambda: self.observe(r))
            if good:
                out.append([r, v])
            else:
                kw["obs_error"] = repr(v)[:200]
                out.append([r, self.broken(r)])
        e = {"op": op, "ok": ok, "out": out}
        e.update(kw)
        self.ev.append(e)
        return e

    def broken(self, r):
        """observation that no specification value equals (the object can not even be read)"""
        bad = self.ix([("BROKEN", "BROKEN")], [])
        k = self.kind[r]
        if k == "p":
            return {"k": "p", "vars": [], "rels": []}
        if k in ("s", "sb"):
            return {"k": k, "p": self.pof[r], "s": bad}
        o = {"k": k, "p": self.pof[r], "b": [[bad, 1]]}
        if k == "cg":
            o["ev"] = bad
        return o

    def dump(self):
        return {"id": self.id, "tab": self.tab, "ev": self.ev, "meta": self.meta}

    # ------------------------------------------------------------------ operations
    def provider(self, variables, relations):
        """variables: dict var -> collection, relations: collection (passed on as they are)"""
        vs = [[self.tok(v), [self.tok(x) for x in xs]] for v, xs in variables.items()]
        rs = [self.tok(x) for x in relations]
        ok, o = self.call(lambda: BuilderComponentsProvider(variables, relations))
        r = None
        if ok:
            r = self.new("p", o, None)
        self.emit("provider", ok, [r] if ok else [], r=r or "-", vars=vs, rels=rs)
        return r

    def observe_all(self, regs=None):
        regs = list(self.obj) if regs is None else regs
        self.emit("observe", True, regs)

    def get_node(self, p, var, val):
        ok, n = self.call(lambda: self.obj[p].get_node(var, val))
        res = {"n": self.enode(n), "id": self.oid(n)} if ok else {"n": [], "id": 0}
        self.emit("get_node", ok, [], p=p, n=[self.tok(var), self.tok(val)], res=res)
        return n if ok else None

    def get_edge(self, p, nodes, rel):
        ok, e = self.call(lambda: self.obj[p].get_edge(frozenset(nodes), rel))
        ep = sorted(self.enode(n) for n in nodes)
        res = {"e": self.eedge(e), "id": self.oid(e)} if ok else {"e": {"ep": [], "rel": []}, "id": 0}
        self.emit("get_edge", ok, [], p=p, ep=ep, rel=self.erel(rel), res=res)
        return e if ok else None

    def shared(self, s):
        o = self.obj[s]
        self.emit("shared", True, [], s=s, ns=[[self.enode(n), self.oid(n)] for n in o.nodes],
                  es=[[self.eedge(e), self.oid(e)] for e in o.edges])

    # -- sample builder
    def sb_new(self, p):
        ok, b = self.call(lambda: SampleGraphBuilder(self.obj[p]))
        r = self.new("sb", b, p)
        self.emit("sb_new", ok, [r], r=r, p=p)
        return r

    def sb_from(self, s):
        ok, b = self.call(lambda: self.obj[s].builder())
        if not ok:
            self.emit("sb_from", ok, [], r="-", s=s)
            return None
        r = self.new("sb", b, self.pof[s])
        self.emit("sb_from", ok, [r], r=r, s=s)
        return r

    def sb_copy(self, b):
        ok, x = self.call(lambda: copy.copy(self.obj[b]))
        if not ok:
            self.emit("sb_copy", ok, [], r="-", b=b)
            return None
        r = self.new("sb", x, self.pof[b])
        self.emit("sb_copy", ok, [r], r=r, b=b)
        return r

    def add_relation(self, b, ep, rel):
        o = self.obj[b]
        ok, x = self.call(lambda: o.add_relation(self.held(ep), rel))
        self.emit("add_relation", ok, [b], b=b, ep=sorted(self.enode(n) for n in set(ep)), rel=self.erel(rel), slf=x is o)
        return ok

    def add_directed(self, b, src, dst, rel):
        o = self.obj[b]
        ok, x = self.call(lambda: o.add_directed_relation(src, dst, rel))
        self.emit("add_relation", ok, [b], b=b, ep=sorted(self.enode(n) for n in {src, dst}),
                  rel=[self.tok(rel), self.tok(src[0]), self.tok(dst[0])], slf=x is o)
        return ok

    def build_from_edges(self, b, edges, val=True):
        """edges: iterable of (pair of (var, val), relation)"""
        es = frozenset((frozenset(ep), rel) for ep, rel in edges)
        ee = [self.eedge((ep, rel)) for ep, rel in es]
        ok, s = self.call(lambda: self.obj[b].build_from_edges(es) if val
                          else self.obj[b].build_from_edges(es, validate_connectivity=False))
        r = self.new("s", s, self.pof[b]) if ok else None
        self.emit("build_from_edges", ok, [b] + ([r] if ok else []), b=b, r=r or "-", edges=ee, val=val)
        return r

    def is_connected(self, edges):
        es = frozenset((frozenset(ep), rel) for ep, rel in edges)
        ok, x = self.call(lambda: SampleGraphBuilder.is_edges_connected(es))
        self.emit("is_connected", ok, [], edges=[self.eedge((ep, rel)) for ep, rel in es], res=x if isinstance(x, bool) else bool(x))
        return ok and x

    def build(self, b):
        ok, s = self.call(lambda: self.obj[b].build())
        r = self.new("s", s, self.pof[b]) if ok else None
        self.emit("build", ok, [b] + ([r] if ok else []), b=b, r=r or "-")
        return r

    def build_single(self, b, var, val):
        ok, s = self.call(lambda: self.obj[b].build_single_node(var, val))
        r = self.new("s", s, self.pof[b]) if ok else None
        self.emit("build_single", ok, [b] + ([r] if ok else []), b=b, r=r or "-", n=[self.tok(var), self.tok(val)])
        return r

    def build_empty(self, b):
        ok, s = self.call(lambda: self.obj[b].build_empty())
        r = self.new("s", s, self.pof[b]) if ok else None
        self.emit("build_empty", ok, [b] + ([r] if ok else []), b=b, r=r or "-")
        return r

    def join(self, b, s):
        o = self.obj[b]
        ok, x = self.call(lambda: o.join_sample(self.obj[s]))
        self.emit("join", ok, [b], b=b, s=s, slf=x is o)
        return ok

    def can_join(self, b, s):
        ok, x = self.call(lambda: self.obj[b].can_sample_be_joined(self.obj[s]))
        self.emit("can_join", ok, [b], b=b, s=s, res=bool(x) if ok else False)
        return ok and x

    # -- samples
    def content(self, s, voc):
        o = self.obj[s]

        def f():
            nodes = [(v, x) for v, xs in voc.vars.items() for x in xs]
            allv = list(voc.vars)
            return dict(
                vars=[self.tok(v) for v in o.included_variables],
                values=[[self.tok(a), self.tok(b)] for a, b in o.values()],
                single=bool(o.is_single_node), k0=bool(o.is_k_0),
                hv=[[self.enode(n), bool(o.have_value(*n))] for n in nodes],
                hvar=[[self.tok(v), bool(o.have_variable(v))] for v in allv],
                vf=[[self.tok(v), (lambda x: [] if x is None else [self.tok(x)])(o.value_for_variable(v))] for v in allv
                    if None not in voc.vars[v]])
        ok, x = self.call(f)
        self.emit("content", ok, [], s=s, **(x if ok else dict(vars=[], values=[], single=False, k0=False, hv=[], hvar=[], vf=[])))

    def eq(self, s, t):
        a, b = self.obj[s], self.obj[t]
        ok, x = self.call(lambda: dict(eq=bool(a == b), ne=bool(a != b), heq=hash(a) == hash(b), key=b in {a: 1}))
        self.emit("eq", ok, [], s=s, t=t, **(x if ok else dict(eq=False, ne=False, heq=False, key=False)))

    def neq_other(self, o, other):
        ok, x = self.call(lambda: bool(o == other))
        self.emit("neq_other", ok, [], what=repr(other)[:40], res=bool(x) if ok else False)

    def no_copy(self, o):
        ok, x = self.call(lambda: copy.copy(o))
        self.emit("no_copy", ok, [], what=type(o).__name__)

    def view(self, s):
        ok, v = self.call(lambda: self.obj[s].edges_set_view())
        kw = dict(vk="none", n=[], edges=[])
        if ok:
            if isinstance(v, frozenset):
                kw = dict(vk="edges", n=[], edges=[self.eedge(e) for e in v])
            elif v is not None:
                kw = dict(vk="node", n=self.enode(v), edges=[])
        self.emit("view", ok, [], s=s, **kw)
        return v if ok else None

    def sub(self, s, t):
        ok, x = self.call(lambda: self.obj[s].is_subgraph(self.obj[t]))
        self.emit("sub", ok, [], s=s, t=t, res=bool(x) if ok else False)

    def sim(self, s, t):
        ok, x = self.call(lambda: self.obj[s].similarity(self.obj[t]))
        self.emit("sim", ok, [], s=s, t=t, res=fx(x) if ok else 0)

    def eflt(self, flt):
        return [] if flt is None else [[self.erel(r) for r in flt]]

    def neigh(self, s, node, flt):
        def f():
            o = self.obj[s]
            n = ValueNode(*node)
            d = o.neighboring_values(n) if flt is None else o.neighboring_values(n, self.held(flt))
            return [[self.enode(k), self.eedge(e)] for k, e in d.items()]
        ok, x = self.call(f)
        self.emit("neigh", ok, [], s=s, c=self.enode(node), flt=self.eflt(flt), res=x if ok else [])

    def belt(self, s, nodes, flt, op="belt"):
        def f():
            o = self.obj[s]
            m = getattr(o, "belt_nodes" if op == "belt" else "external_nodes")
            ns = self.held(nodes, ValueNode)
            d = m(ns) if flt is None else m(ns, self.held(flt))
            return [[self.enode(k), self.eedge(e)] for k, es in d.items() for e in es]
        ok, x = self.call(f)
        self.emit(op, ok, [], s=s, cs=[self.enode(n) for n in nodes], flt=self.eflt(flt), res=x if ok else [])

    def ext(self, s, nodes, flt):
        self.belt(s, nodes, flt, op="ext")

    def transform(self, s, rep, name=None):
        o = self.obj[s]
        ok, t = self.call(lambda: o.transform_with_replaced_values(self.heldd(rep), name))
        r = self.new("s", t, self.pof[s]) if ok else None
        self.emit("transform", ok, ([r] if ok else []), s=s, r=r or "-",
                  rep=[[self.tok(v), self.tok(x)] for v, x in rep.items()], same=t is o,
                  nameok=bool(not ok or t is o or name is None or t.name == name))
        return r

    def project(self, s, vs):
        def f():
            h = self.obj[s].variables_subgraph_hash(self.held(vs))
            return ([self.enode(x) for x in h if isinstance(x, ValueNode)],
                    [self.eedge(x) for x in h if isinstance(x, RelationEdge)])
        ok, x = self.call(f)
        self.emit("project", ok, [], s=s, vs=[self.tok(v) for v in vs], ns=x[0] if ok else [], es=x[1] if ok else [])

    def epvars(self, s):
        ok, x = self.call(lambda: [[self.tok(v) for v in p] for p in self.obj[s].edges_endpoint_variables()])
        self.emit("epvars", ok, [], s=s, res=x if ok else [])

    def single_var(self, s):
        ok, x = self.call(lambda: self.tok(self.obj[s].single_node_variable()))
        self.emit("single_var", ok, [], s=s, res=x if ok else "-")

    # -- sample sets
    def ssb_new(self, p):
        ok, b = self.call(lambda: SampleSetBuilder(self.obj[p]))
        r = self.new("ssb", b, p)
        self.emit("ssb_new", ok, [r], r=r, p=p)
        return r

    def ssb_add(self, b, s, c):
        o = self.obj[b]
        ok, x = self.call(lambda: o.add(self.obj[s], c))
        self.emit("ssb_add", ok, [b], b=b, s=s, c=c, slf=x is o)
        return ok

    def ssb_addall(self, b, x):
        o = self.obj[b]
        ok, y = self.call(lambda: o.add_all(self.obj[x]))
        self.emit("ssb_addall", ok, [b], b=b, x=x, slf=y is o)
        return ok

    def ssb_remove(self, b, s):
        ok, x = self.call(lambda: self.obj[b].remove(self.obj[s]))
        self.emit("ssb_remove", ok, [b], b=b, s=s, res=num(x[1]) if ok else 0, rs=self.six(x[0]) if ok else 1)
        return ok

    def ssb_removeall(self, b, x):
        o = self.obj[b]
        ok, y = self.call(lambda: o.remove_all(self.obj[x]))
        self.emit("ssb_removeall", ok, [b], b=b, x=x, slf=y is o)
        return ok

    def _derive(self, op, kind, b, f):
        ok, o = self.call(f)
        r = self.new(kind, o, self.pof[b]) if ok else None
        self.emit(op, ok, [r] if ok else [], r=r or "-", b=b)
        return r

    def ssb_copy(self, b):
        return self._derive("ssb_copy", "ssb", b, lambda: self.obj[b].copy())

    def ssb_build(self, b):
        return self._derive("ssb_build", "ss", b, lambda: self.obj[b].build())

    def ss_builder(self, b):
        return self._derive("ss_builder", "ssb", b, lambda: self.obj[b].builder())

    def ssb_empty(self, b):
        return self._derive("ssb_empty", "ss", b, lambda: self.obj[b].empty())

    def ss_info(self, x):
        o = self.obj[x]

        def f():
            n = len(o) if self.kind[x] == "ss" else o.length()
            if self.kind[x] == "ss" and o.length != n:
                n = -1
            return dict(len=num(n), truth=bool(o), samples=[self.six(s) for s in o.samples()])
        ok, v = self.call(f)
        self.emit("ss_info", ok, [], x=x, **(v if ok else dict(len=0, truth=False, samples=[])))

    def _bag(self, op, f, p, **kw):
        ok, o = self.call(f)
        r = self.new("ss", o, p) if ok else None
        self.emit(op, ok, [r] if ok else [], r=r or "-", **kw)
        return r

    def union(self, x, y):
        return self._bag("union", lambda: self.obj[x].union(self.obj[y]), self.pof[x], x=x, y=y)

    def filter(self, x, pred):
        """pred on samples; evaluated once here to learn the set of kept samples"""
        keep = [self.six(s) for s in self.obj[x].samples() if pred(s)]
        return self._bag("filter", lambda: self.obj[x].filter_samples(pred), self.pof[x], x=x, keep=keep)

    def joinlist(self, xs):
        return self._bag("joinlist", lambda: SampleSetBuilder.join_sample_set([self.obj[x] for x in xs]),
                         self.pof[xs[0]] if xs else "-", xs=list(xs))

    def ss_eq(self, x, y):
        a, b = self.obj[x], self.obj[y]
        ok, v = self.call(lambda: dict(eq=bool(a == b), ne=bool(a != b), heq=hash(a) == hash(b)))
        self.emit("ss_eq", ok, [], x=x, y=y, **(v if ok else dict(eq=False, ne=False, heq=False)))

    def count_of(self, x, s):
        ok, v = self.call(lambda: self.obj[x].count_of(self.obj[s]))
        self.emit("count_of", ok, [], x=x, s=s, res=num(v) if ok else 0)

    def probs(self, x):
        ok, v = self.call(lambda: [[self.six(s), fx(q)] for s, q in self.obj[x].probabilities()])
        self.emit("probs", ok, [], x=x, res=v if ok else [])

    def prob_of(self, x, s):
        ok, v = self.call(lambda: self.obj[x].probability_of(self.obj[s]))
        self.emit("prob_of", ok, [], x=x, s=s, res=fx(v) if ok else 0)

    def ss_have(self, x, voc):
        o = self.obj[x]
        nodes = [(v, y) for v, ys in voc.vars.items() for y in ys]
        ok, v = self.call(lambda: dict(hv=[[self.enode(n), bool(o.have_value(*n))] for n in nodes],
                                       hvar=[[self.tok(a), bool(o.have_variable(a))] for a in voc.vars]))
        self.emit("ss_have", ok, [], x=x, **(v if ok else dict(hv=[], hvar=[])))

    def group(self, x):
        ok, v = self.call(lambda: [[[self.tok(a) for a in k], self.ebag(self.items(g))]
                                   for k, g in self.obj[x].group_intersecting().items()])
        self.emit("group", ok, [], x=x, res=v if ok else [])

    def allmatch(self, x):
        ok, v = self.call(lambda: bool(self.obj[x].is_all_values_match()))
        self.emit("allmatch", ok, [], x=x, res=v if ok else False)

    def canjoin(self, x):
        ok, v = self.call(lambda: bool(self.obj[x].can_join_samples()))
        self.emit("canjoin", ok, [], x=x, res=v if ok else False)

    def joined_sample(self, x):
        ok, v = self.call(lambda: self.obj[x].make_joined_sample())
        self.emit("joined_sample", ok, [], x=x, rs=self.six(v[0]) if ok else 1, cs=[num(k) for k in v[1]] if ok else [])

    # -- relation graphs
    def rgb_new(self, p, name=None):
        ok, b = self.call(lambda: RelationGraphBuilder(None, None, name, None, self.obj[p]))
        r = self.new("rgb", b, p)
        self.emit("rgb_new", ok, [r], r=r, p=p, vars=self.evars(b.variables), rels=[self.tok(x) for x in b.relations])
        return r

    def rgb_voc(self, voc, name=None):
        """RelationGraphBuilder from a vocabulary: gives a provider register and a builder register"""
        variables = {v: set(xs) for v, xs in voc.vars.items()}
        relations = set(voc.rels)
        ok, b = self.call(lambda: RelationGraphBuilder(variables, relations, name))
        if not ok:
            raise RuntimeError("can not build vocabulary: %r" % (b,))
        p = self.provider(variables, relations)     # a provider of its own, for foreign samples
        # the builder's own provider is reached through its sample builders only
        q = self.new("p", _ProviderView(b), None)
        self.emit("provider", True, [q], r=q, vars=[[self.tok(v), [self.tok(x) for x in xs]] for v, xs in voc.vars.items()],
                  rels=[self.tok(x) for x in voc.rels])
        r = self.new("rgb", b, q)
        self.emit("rgb_new", True, [r], r=r, p=q, vars=self.evars(b.variables), rels=[self.tok(x) for x in b.relations])
        return p, q, r

    def rgb_sb(self, b):
        """sample builder made by a relation graph builder or graph"""
        o = self.call(lambda: self.obj[b].sample_builder())[1]
        r = self.new("sb", o, self.pof[b])
        self.emit("sb_new", True, [r], r=r, p=self.pof[b])
        return r

    def rgb_add(self, b, s, c=None):
        o = self.obj[b]
        ok, x = self.call(lambda: o.add_outcome(self.obj[s]) if c is None else o.add_outcome(self.obj[s], c))
        self.emit("rgb_add", ok, [b], b=b, s=s, c=1 if c is None else c, slf=x is o)
        return ok

    def rgb_addmany(self, b, ss, c=None):
        o = self.obj[b]
        xs = [self.obj[s] for s in ss]
        ok, x = self.call(lambda: o.add_outcomes(xs) if c is None else o.add_outcomes(xs, c))
        self.emit("rgb_addmany", ok, [b], b=b, ss=list(ss), c=1 if c is None else c, slf=x is o)
        return ok

    def rgb_build_sample(self, b, fun):
        """fun: SampleGraphBuilder -> SampleGraph"""
        o = self.obj[b]
        got = []

        def g(sb):
            s = fun(sb)
            got.append(s)
            return s
        ok, x = self.call(lambda: o.build_sample(g))
        self.emit("rgb_build_sample", ok, [b], b=b, s=self.six(got[0]) if got else 1, slf=x is o)

    def rgb_build(self, b):
        ok, g = self.call(lambda: self.obj[b].build())
        r = self.new("rg", g, self.pof[b]) if ok else None
        self.emit("rgb_build", ok, [b] + ([r] if ok else []), b=b, r=r or "-",
                  vars=self.evars(g.variables) if ok else [], rels=[self.tok(x) for x in g.relations] if ok else [])
        return r

    def rgb_id(self, b):
        ok, x = self.call(lambda: self.obj[b].next_id())
        self.emit("rgb_id", ok, [], b=b, res=num(x) if ok else 0)

    def many_ids(self, b, n):
        """n identifiers in a row: how many different ones, and how many that were handed out before"""
        def f():
            o = self.obj[b]
            xs = [o.next_id() for _ in range(n)]
            old = {e["res"] for e in self.ev if e["op"] == "rgb_id" and e["b"] == b}
            return dict(diff=len(set(xs)), old=len(old & set(map(num, xs))))
        ok, x = self.call(f)
        self.emit("many_ids", ok, [], b=b, n=n, **(x if ok else dict(diff=0, old=0)))

    def rgb_gen(self, b, full=True):
        o = self.obj[b]
        ok, x = self.call(lambda: o.generate_all_possible_outcomes())
        names = 0
        if ok:
            names = len({s.name for s in o.build().outcomes.samples()})
        self.emit("rgb_gen", ok, [b], b=b, names=names, full=full)
        return ok

    def rg_builder(self, g):
        ok, o = self.call(lambda: self.obj[g].builder())
        r = self.new("rgb", o, self.pof[g]) if ok else None
        self.emit("rg_builder", ok, [r] if ok else [], r=r or "-", b=g)
        return r

    def rg_raw(self, ss):
        """relation graph around a sample set (also empty ones)"""
        o = RelationGraph(self.obj[self.pof[ss]] if not isinstance(self.obj[self.pof[ss]], _ProviderView)
                          else self.obj[self.pof[ss]].raw(), None, self.obj[ss])
        r = self.new("rg", o, self.pof[ss])
        self.emit("cg_rg", True, [r], r=r, b=ss)
        return r

    def cond(self, g, s, name=None):
        ok, o = self.call(lambda: self.obj[g].conditional_graph(self.obj[s]) if name is None
                          else self.obj[g].conditional_graph(self.obj[s], name))
        r = self.new("cg", o, self.pof[g]) if ok else None
        self.emit("cond", ok, [r] if ok else [], g=g, s=s, r=r or "-")
        return r

    def cg_rg(self, g):
        ok, o = self.call(lambda: self.obj[g].relation_graph())
        r = self.new("rg", o, self.pof[g]) if ok else None
        self.emit("cg_rg", ok, [r] if ok else [], b=g, r=r or "-")
        return r

    def make_joined(self, g):
        ok, o = self.call(lambda: self.obj[g].make_joined())
        r = self.new("rg", o, self.pof[g]) if ok else None
        self.emit("make_joined", ok, [r] if ok else [], mod=MOD, g=g, r=r or "-", err="" if ok else repr(o)[:120])
        return r

    def joined_on(self, g, vs):
        ok, o = self.call(lambda: self.obj[g].joined_on_variables() if vs is None else self.obj[g].joined_on_variables(self.held(vs)))
        r = self.new("rg", o, self.pof[g]) if ok else None
        self.emit("joined_on", ok, [r] if ok else [], g=g, r=r or "-", mod=MOD, vs=[] if vs is None else [[self.tok(v) for v in vs]],
                  err="" if ok else repr(o)[:120])
        return r

    def is_joined(self, g):
        ok, x = self.call(lambda: bool(self.obj[g].is_joined()))
        self.emit("is_joined", ok, [], g=g, res=x if ok else False)

    def is_fact(self, g):
        ok, x = self.call(lambda: bool(self.obj[g].is_factorized()))
        self.emit("is_fact", ok, [], g=g, res=x if ok else False)

    def factors(self, g):
        ok, x = self.call(lambda: [self.ebag(self.items(f)) for f in self.obj[g].factorized()])
        self.emit("factors", ok, [], g=g, res=x if ok else [])

    def _emarg(self, d, unob):
        return [[self.tok(v), [["UNOBSERVED" if unob and x == "u" else self.tok(x), fx(q)] for x, q in vals.items()]]
                for v, vals in d.items()]

    def marg(self, g, vs=None, unob=False):
        def f():
            o = self.obj[g]
            if vs is None:
                return o.marginal_variables_probability(unobserved=True) if unob else o.marginal_variables_probability()
            return o.marginal_variables_probability(self.held(vs), unob)
        ok, x = self.call(lambda: self._emarg(f(), unob))
        self.emit("marg", ok, [], g=g, vs=[] if vs is None else [[self.tok(v) for v in vs]], unob=unob, res=x if ok else [])

    def scales(self, p, g, h, k, vs=None):
        """marginals of the network which has k times the outcomes of g and those of h once"""
        def f(unob):
            o = self.obj[g].builder().__class__(components_provider=self.obj[p])
            for x, n in ((g, k), (h, 1)):
                for s, c in self.obj[x].outcomes.items():
                    o.add_outcome(s, c * n)
            m = o.build().marginal_variables_probability(self.held(vs) if vs is not None else None, unob)
            return [[self.tok(v), [["UNOBSERVED" if unob and x == "u" else self.tok(x), [fx(q), fx(q * k / 16)]] for x, q in vals.items()]]
                    for v, vals in m.items()]
        for unob in (False, True):
            ok, x = self.call(lambda: f(unob))
            self.emit("scales", ok, [], g=g, h=h, vs=[] if vs is None else [[self.tok(v) for v in vs]], unob=unob, res=x if ok else [],
                      err="" if ok else repr(x)[:120])

    def posterior(self, src, ns, g, evs=()):
        """marginals of graph g, made from src with evidence nodes ns and evidence samples evs"""
        ok, x = self.call(lambda: self._emarg(self.obj[g].marginal_variables_probability(), False))
        self.emit("posterior", ok, [], src=src, ns=[self.enode(n) for n in ns], evs=[self.six(self.obj[s]) for s in evs],
                  res=x if ok else [], err="" if ok else repr(x)[:120])

    def indep(self, src, ns, m, g, h):
        """marginals of g (the network src given the nodes ns) and of h (given m as well)"""
        ok, x = self.call(lambda: [self._emarg(self.obj[k].marginal_variables_probability(), False) for k in (g, h)])
        self.emit("indep", ok, [], src=src, ns=[self.enode(n) for n in ns], m=self.enode(m), res=x[0] if ok else [], res2=x[1] if ok else [])

    def load(self, b, rows, build):
        """rows: list of (sample structure, count); build: structure -> sample"""
        ee = [[self.ix(n, e), num(c)] for (n, e), c in rows]
        o = self.obj[b]

        def f():
            for s, c in rows:
                x = build(*s)
                if self.kind[b] == "rgb":
                    o.add_outcome(x, c)
                else:
                    o.add(x, c)
        ok, x = self.call(f)
        self.emit("load", ok, [b], b=b, rows=ee, err="" if ok else repr(x)[:200])

    def fold_eq(self, g, h):
        ok, x = self.call(lambda: bool(self.obj[g].folded_graph() == self.obj[h].folded_graph()))
        self.emit("fold_eq", ok, [], g=g, h=h, res=x if ok else False)

    def same(self, key, f):
        ok, x = self.call(lambda: f() if callable(f) else f)
        self.emit("same", ok, [], key=key, val=x if ok else repr(x)[:100])

    def incl(self, g):
        ok, x = self.call(lambda: dict(vars=self.evars(self.obj[g].included_variables()),
                                       rels=[self.erel(r) for r in self.obj[g].included_relations()]))
        self.emit("incl", ok, [], g=g, **(x if ok else dict(vars=[], rels=[])))

    def find(self, g, ns):
        ok, o = self.call(lambda: self.obj[g].find_for_values(self.held(ns)))
        r = self.new("ss", o, self.pof[g]) if ok else None
        self.emit("find", ok, [r] if ok else [], g=g, r=r or "-", ns=[self.enode(n) for n in ns])
        return r

    def describe(self, g, voc):
        o = self.obj[g]
        if len({str(v) for v in voc.vars}) < len(voc.vars) or len({str(r) for r in voc.rels}) < len(voc.rels):
            return      # names are not distinguishable in the description

        ok, d = self.call(lambda: o.describe())
        kw = dict(nv=0, nr=0, no=0, vars=[], rels=[])
        if ok:
            names = {str(v): self.tok(v) for v in voc.vars}
            rels = {str(r): self.erel(r) for r in voc.rels}
            for s, _ in o.outcomes.items():
                for e in s.edges:
                    rels.setdefault(str(e.relation), self.erel(e.relation))
            if self.kind[g] == "rg":
                kw = dict(nv=int(d["number_of_variables"]), nr=int(d["number_of_relations"]), no=num(d["number_of_outcomes"]),
                          vars=[names.get(x, "?" + x) for x in d["variables"]],
                          rels=[rels.get(x, ["?" + x]) for x in d["relations"]])
            else:
                kw = dict(nv=0, nr=0, no=num(d["number_outcomes"]),
                          vars=[names.get(x, "?" + x) for x in d["included_variables"]],
                          rels=[rels.get(x, ["?" + x]) for x in d["included_relations"]])
        self.emit("describe", ok, [], g=g, **kw)

    def views(self, g):
        def f():
            res = []
            for v, k in self.obj[g].outcomes_as_edges_sets():
                if v is None:
                    i = self.ix([], [])
                elif isinstance(v, frozenset):
                    i = self.ix({n for ep, _ in v for n in ep}, list(v))
                else:
                    i = self.ix([v], [])
                res.append([i, num(k)])
            return res
        ok, x = self.call(f)
        self.emit("views", ok, [], g=g, res=x if ok else [])

    def fold(self, g, voc):
        def f():
            fg = self.obj[g].folded_graph()
            nodes = []
            for n in fg.nodes:
                nodes.append([self.tok(n.variable), [self.tok(x) for x in n.values],
                              [[self.enode(v), num(k)] for v, k in n.value_nodes], num(n.unobserved_count()),
                              [["UNOBSERVED" if x == "unobserved" else self.tok(x), fx(q)]
                               for x, q in n.marginal_distribution().items()]])
            edges = [[[self.tok(v) for v in e.endpoints], [[self.eedge(x), num(k)] for x, k in e.relation_edges]]
                     for e in fg.edges]
            look = []
            for v in voc.vars:
                fn = fg.folded_node(v)
                look.append([self.tok(v), fn is not None and fn.variable == v and fn in fg.nodes])
            return dict(n=num(fg.number_of_outcomes), nodes=nodes, edges=edges, look=look)
        ok, x = self.call(f)
        self.emit("fold", ok, [], g=g, **(x if ok else dict(n=0, nodes=[], edges=[], look=[])))

    def act(self, g, flt=None):
        def f():
            a = self.obj[g].activation_graph() if flt is None else self.obj[g].activation_graph(self.held(flt))
            nodes = [[self.tok(n.variable), bool(n.in_query), [[self.tok(x), fx(w)] for x, w in n.values]] for n in a.nodes]
            edges = [[[self.tok(v) for v in e.endpoints], bool(e.in_query), [[self.erel(r), num(k)] for r, k in e.relations]]
                     for e in a.edges]
            return dict(n=num(a.number_of_outcomes), nodes=nodes, edges=edges)
        ok, x = self.call(f)
        self.emit("act", ok, [], g=g, flt=self.eflt(flt), **(x if ok else dict(n=0, nodes=[], edges=[])), err="" if ok else repr(x)[:120])


    # -- equality of parts by content
    def econtent(self, o):
        """what a value object of the library holds: its kind and a set of entries [[label, names...], number]"""
        def flat(e):
            x = self.eedge(e)
            return [y for n in x["ep"] for y in n] + ["--"] + x["rel"]
        k = type(o).__name__
        if k == "ValueNode":
            return [[["variable", self.tok(o.variable)], ""], [["value", self.tok(o.value)], ""]]
        if k == "DirectedRelation":
            return [[["source", self.tok(o.source_variable)], ""], [["target", self.tok(o.target_variable)], ""],
                    [["relation", self.tok(o.relation)], ""]]
        if k == "RelationEdge":
            return [[["endpoint"] + self.enode(n), ""] for n in o.endpoints] + [[["relation"] + self.erel(o.relation), ""]]
        if k == "FoldedNode":
            return [[["variable", self.tok(o.variable)], ""]] + [[["node"] + self.enode(n), repr(c)] for n, c in o.value_nodes]
        if k == "FoldedEdge":
            return [[["endpoint", self.tok(v)], ""] for v in o.endpoints] + [[["edge"] + flat(e), repr(c)] for e, c in o.relation_edges]
        if k == "ActiveNode":
            return [[["variable", self.tok(o.variable)], repr(bool(o.in_query))]] + [[["value", self.tok(x)], repr(float(w))] for x, w in o.values]
        if k == "ActiveEdge":
            return ([[["endpoint", self.tok(v)], repr(bool(o.in_query))] for v in o.endpoints]
                    + [[["relation"] + self.erel(r), repr(c)] for r, c in o.relations])
        if k == "SampleGraph":
            return [[["node"] + self.enode(n), ""] for n in o.nodes] + [[["edge"] + flat(e), ""] for e in o.edges]
        if k == "SampleSet":
            return [[["sample", str(self.six(s))], repr(c)] for s, c in self.items(o)]
        if k == "VariableNode":
            return [[["variable", self.tok(o.variable)], ""]]
        if k == "VariableEdge":
            return [[["endpoint", self.tok(v)], ""] for v in o.endpoints]
        if k in ("FoldedGraph", "ActivationGraph", "VariablesGraph"):
            k = "part"
            return [[["part", type(x).__name__, repr(sorted(self.econtent(x)))], ""] for x in list(o.nodes) + list(o.edges)]
        return [[["foreign", k, repr(o)[:80]], ""]]

    def twins(self, a, b):
        """two value objects: are they equal, do they hash alike, does one find the other in a collection"""
        ka, kb = type(a).__name__, type(b).__name__
        graph = "Graph" in ka and ka != "SampleGraph" or "Graph" in kb and kb != "SampleGraph"

        def f():
            r = dict(eq=bool(a == b), ne=bool(a != b), rev=bool(b == a))
            if graph:
                r.update(heq=r["eq"], key=r["eq"])
            else:
                r.update(heq=hash(a) == hash(b), key=b in {a: 1})
            return r
        ok, x = self.call(f)
        self.emit("twins", ok, [], ka=ka, kb=kb, a=self.econtent(a), b=self.econtent(b),
                  **(x if ok else dict(eq=False, ne=False, rev=False, heq=False, key=False)))

    # -- names
    def named(self, how, r, x=None, given=None, got=None, text=None, slf=True, outs=()):
        """register r got its name from call `how` on register x; given: the name passed, got: the name seen"""
        self.givens = getattr(self, "givens", []) + ([] if given is None else [given])
        self.emit("named", True, list(outs), others=sorted(set(self.givens)), how=how, r=r, x=x or "-", given=[] if given is None else [given],
                  got=[] if got is None else [str(got)], text=str(text), slf=slf)

    def emit_described(self, g, r):
        """the name a relation graph tells in its description"""
        ok, d = self.call(lambda: g.describe()["name"])
        self.named("copy", r, r, None, d if ok else "?")

    # -- renderings
    def legend(self, voc):
        """strings of all nodes and edges the vocabulary admits"""
        L = Legend()
        nodes = [(v, x) for v, xs in voc.vars.items() for x in xs]
        for n in nodes:
            L.node["%s_%s" % n] = n
        for a in nodes:
            for b in nodes:
                if a[0] != b[0]:
                    for r in voc.rels:
                        for rel in [r] + [DirectedRelation(x[0], y[0], r) for x in (a, b) for y in (a, b)]:
                            L.edge["(%s_%s)--{%s}--(%s_%s)" % (a[0], a[1], rel, b[0], b[1])] = (frozenset({a, b}), rel)
        for r in voc.rels:
            L.rel[str(r)] = r
            for a in voc.vars:
                for b in voc.vars:
                    L.rel[str(DirectedRelation(a, b, r))] = DirectedRelation(a, b, r)
        for v in voc.vars:
            L.var[str(v)] = v
        return L

    BADN = ("?", "?")

    def read_text(self, L, txt):
        """text of a sample -> (nodes, edges)"""
        if not (isinstance(txt, str) and txt.startswith("{") and txt.endswith("}")):
            return [self.BADN, self.BADN], []
        parts = [p for p in txt[1:-1].split("; ")] if txt != "{}" else []
        ns, es = [], []
        for p in parts:
            if p in L.edge:
                es.append(L.edge[p])
            elif p[:1] == "(" and p[-1:] == ")" and p[1:-1] in L.node:
                ns.append(L.node[p[1:-1]])
            else:
                ns += [self.BADN, self.BADN]
        return ns, es

    def text(self, s, L, what="text_view"):
        o = self.obj[s]

        def f():
            t = o.text_view() if what == "text_view" else o.name if what == "name" else repr(o)
            ns, es = self.read_text(L, t)
            return dict(ns=[self.enode(n) for n in ns], edges=[self.eedge(e) for e in es])
        ok, x = self.call(f)
        self.emit("text", ok, [], s=s, what=what, **(x if ok else dict(ns=[], edges=[])))

    def sample_of(self, L, txt, names):
        if txt in names:
            return self.six(names[txt])
        ns, es = self.read_text(L, txt)
        return self.ix(set(ns) | {n for ep, _ in es for n in ep}, es)

    def listing(self, g, L, how="print"):
        o = self.obj[g]

        def f():
            out = o.outcomes if hasattr(o, "outcomes") else o
            names = {s.name: s for s in out.samples()}
            if how == "print":
                lines = [x for x in o.print_samples().split(os.linesep)] if out else []
                pairs = [(x[:x.rindex("(")], x[x.rindex("(") + 1:-1]) for x in lines]
            else:
                lines = [x.strip() for x in repr(out).split("\n")[1:-1] if x.strip()]
                pairs = [(x[:x.rindex(": ")], x[x.rindex(": ") + 2:]) for x in lines]
            return [[self.sample_of(L, a, names), int(b)] for a, b in pairs]
        ok, x = self.call(f)
        self.emit("listing", ok, [], g=g, how=how, res=x if ok else [], err="" if ok else repr(x)[:100])

    def listing_names(self, g, how="print"):
        """the lines of a listing by name: outcomes may share a name, each has its own line"""
        o = self.obj[g]

        def f():
            out = o.outcomes if hasattr(o, "outcomes") else o
            if how == "print":
                lines = [x for x in o.print_samples().split(os.linesep)] if out else []
                pairs = [[x[:x.rindex("(")], int(x[x.rindex("(") + 1:-1])] for x in lines]
            else:
                lines = [x.strip() for x in repr(out).split("\n")[1:-1] if x.strip()]
                pairs = [[x[:x.rindex(": ")], int(x[x.rindex(": ") + 2:])] for x in lines]
            return pairs, [[self.six(s), s.name] for s in out.samples()]
        ok, x = self.call(f)
        self.emit("listing_names", ok, [], g=g, how=how, res=x[0] if ok else [], names=x[1] if ok else [],
                  err="" if ok else repr(x)[:100])

    def drawn(self, f):
        """runs f with drawing replaced by recording; -> list of (nodes, edges)"""
        got = []
        real = PV.Network.show

        def show(net, name, *a, **k):
            got.append((str(name), [dict(n) for n in net.nodes], [dict(e) for e in net.edges]))
        PV.Network.show = show
        try:
            f()
        finally:
            PV.Network.show = real
        if len(got) != 1:
            raise AssertionError("drawn %d times" % len(got))
        return got[0]

    def rel_of_text(self, L, t):
        return L.rel.get(t, "?" + str(t))

    def part_text(self, o, L, voc):
        """the text of a part of a variable graph, read back: ends (variables), entries [[names...], number], queried"""
        import re
        if not all(re.fullmatch(r"\w+", str(x)) for x in list(voc.vars) + list(voc.rels) + [y for ys in voc.vars.values() for y in ys]):
            return
        node = hasattr(o, "variable")

        def f():
            t = repr(o)
            m = re.fullmatch(r"(Q?)\((\w+)(?::\{(.*)\})?\)" if node else r"\((\w+)\)--(Q?)(?:\{(.*)\}--)?\((\w+)\)", t)
            q, ends, body = (m[1], [m[2]], m[3]) if node else (m[2], [m[1], m[4]], m[3])
            entries = []
            for x in (body or "").split(","):
                if x:
                    name, n = x[:x.rindex("(")], x[x.rindex("(") + 1:-1]
                    entries.append([["value", name] if node else ["relation"] + self.erel(L.rel.get(name, "?" + name)), repr(float(n))])
            return dict(q=bool(q), ends=[self.tok(L.var.get(v, "?" + v)) for v in ends], entries=entries)
        ok, x = self.call(f)
        vals = ({"value_nodes": lambda: [[["value", str(n.value)], repr(float(c))] for n, c in o.value_nodes],
                 "relation_edges": lambda: [[["relation"] + self.erel(e.relation), repr(float(c))] for e, c in o.relation_edges],
                 "relations": lambda: [[["relation"] + self.erel(r), repr(float(c))] for r, c in o.relations],
                 "values": lambda: [[["value", str(v)], repr(float(w))] for v, w in o.values]})
        have = next((vals[k]() for k in vals if hasattr(o, k)), [])
        self.emit("part_text", ok, [], wq=bool(getattr(o, "in_query", False)),
                  wends=[self.tok(o.variable)] if node else [self.tok(v) for v in o.endpoints], wentries=have,
                  **(x if ok else dict(q=False, ends=[], entries=[])), err="" if ok else repr(x)[:100])

    def draw_sample(self, s, L):
        o = self.obj[s]

        def f():
            _, ns, es = self.drawn(o.visualize)
            lab = {n["id"]: L.node.get(n["label"], self.BADN) for n in ns}
            return dict(ns=[self.enode(lab[n["id"]]) for n in ns],
                        edges=[self.eedge((frozenset({lab[e["from"]], lab[e["to"]]}), self.rel_of_text(L, e["label"]))) for e in es])
        ok, x = self.call(f)
        self.emit("draw_sample", ok, [], s=s, **(x if ok else dict(ns=[], edges=[])), err="" if ok else repr(x)[:100])

    def draw_outcomes(self, g, L):
        o = self.obj[g]

        def f():
            _, ns, es = self.drawn(o.visualize_outcomes)
            names = {s.name: s for s in o.outcomes.samples()}
            comp = {n["id"]: n["id"] for n in ns}

            def root(i):
                while comp[i] != i:
                    i = comp[i]
                return i
            for e in es:
                comp[root(e["from"])] = root(e["to"])
            groups = {}
            for n in ns:
                groups.setdefault(root(n["id"]), []).append(n)
            res, ev = [], ([], [])
            red = {n["id"] for n in ns if n.get("color") == "red"}
            for k, members in groups.items():
                ids = {n["id"] for n in members}
                lab, cnt = {}, []
                for n in members:
                    t = n["label"]
                    if t in L.node:
                        lab[n["id"]] = L.node[t]
                    else:
                        node, rest = t.split("@", 1)
                        lab[n["id"]] = L.node.get(node, self.BADN)
                        cnt.append((rest[:rest.rindex("(")], int(rest[rest.rindex("(") + 1:-1])))
                edges = [(frozenset({lab[e["from"]], lab[e["to"]]}), self.rel_of_text(L, e["label"])) for e in es
                         if e["from"] in ids]
                if ids & red:
                    if ids <= red and not cnt and all(e.get("color") == "red" for e in es if e["from"] in ids):
                        ev = (ev[0] + list(lab.values()), ev[1] + edges)
                    else:
                        res.append([self.ix([self.BADN], []), 1])
                elif len(cnt) != 1 or len(set(lab.values())) != len(lab):
                    res.append([self.ix([self.BADN], []), 1])
                else:
                    i = self.ix(set(lab.values()), edges)
                    if cnt[0][0] not in names or self.six(names[cnt[0][0]]) != i:
                        i = self.ix([self.BADN], [])
                    res.append([i, cnt[0][1]])
            return dict(res=res, ev=self.ix(set(ev[0]), ev[1]) if len(set(ev[0])) == len(ev[0]) else self.ix([self.BADN], []))
        ok, x = self.call(f)
        self.emit("draw_outcomes", ok, [], g=g, **(x if ok else dict(res=[], ev=1)), err="" if ok else repr(x)[:100])

    def draw_fold(self, g, L, voc):
        o = self.obj[g]

        def val(v, t):
            return self.tok(t) if any(str(x) == t for x in voc.vars.get(v, ())) else "?" + t

        texts = {self.tok(x): self.tok(str(x)) for xs in voc.vars.values() for x in xs}

        def f():
            _, ns, es = self.drawn(o.folded_graph().visualize)
            nodes = []
            for n in ns:
                v = n["id"]
                head = str(v) + ":{"
                t = n["label"]
                if not (t.startswith(head) and t.endswith("}")):
                    nodes.append([self.tok(v), [["?", 0]], -1, False])
                    continue
                vals, u = t[len(head):-1].rsplit(", u(", 1)
                parts = [p for p in vals.split(",") if p]
                nodes.append([self.tok(v), [[val(v, p[:p.rindex("(")]), int(p[p.rindex("(") + 1:-1])] for p in parts],
                              int(u[:-1]), n.get("color") != "gray"])
            edges = []
            for e in es:
                parts = [p for p in e["label"][1:-1].split(",") if p]
                edges.append([[self.tok(e["from"]), self.tok(e["to"])],
                              [[self.erel(self.rel_of_text(L, p[:p.rindex("(")])), int(p[p.rindex("(") + 1:-1])] for p in parts]])
            return dict(nodes=nodes, edges=edges)
        ok, x = self.call(f)
        self.emit("draw_fold", ok, [], g=g, texts=sorted(texts.items()), **(x if ok else dict(nodes=[], edges=[])), err="" if ok else repr(x)[:100])

    def draw_act(self, g, L, voc, flt=None):
        o = self.obj[g]

        def val(v, t):
            return next((self.tok(x) for x in voc.vars.get(v, ()) if str(x) == t), "?" + t)

        def f():
            a = o.activation_graph() if flt is None else o.activation_graph(self.held(flt))
            _, ns, es = self.drawn(a.visualize)
            nodes = []
            for n in ns:
                v = n["id"]
                head = str(v) + ":{"
                t = n["label"]
                if not (t.startswith(head) and t.endswith("}")):
                    nodes.append([self.tok(v), [["?", 0]], False])
                    continue
                nodes.append([self.tok(v), [[val(v, p[:p.rindex("=")]), fx(p[p.rindex("=") + 1:])]
                                            for p in t[len(head):-1].split(", ")], n.get("color") == "green"])
            edges = []
            for e in es:
                parts = [p for p in e["label"][1:-1].split(", ") if p]
                edges.append([[self.tok(e["from"]), self.tok(e["to"])],
                              [[self.erel(self.rel_of_text(L, p[:p.rindex("(")])), int(p[p.rindex("(") + 1:-1])] for p in parts],
                              e.get("color") == "green"])
            return dict(nodes=nodes, edges=edges)
        ok, x = self.call(f)
        self.emit("draw_act", ok, [], g=g, flt=self.eflt(flt), **(x if ok else dict(nodes=[], edges=[])), err="" if ok else repr(x)[:100])

    # -- isolation: every query is asked and everything it returns is overwritten
    def scribble(self, r, rng=None):
        o, k = self.obj[r], self.kind[r]

        def spoil(x, depth=0):
            if isinstance(x, dict):
                for y in list(x.values()):
                    spoil(y, depth + 1)
                x.clear()
                x["spoiled"] = 1
            elif isinstance(x, set):
                x.clear()
                x.add("spoiled")
            elif isinstance(x, list):
                for y in x:
                    spoil(y, depth + 1)
                del x[:]
            elif isinstance(x, tuple) and depth < 4:
                for y in x:
                    spoil(y, depth + 1)
        calls = []
        if k == "s":
            n = next(iter(o.nodes), None)
            calls = [o.values, o.edges_set_view, o.text_view, o.edges_endpoint_variables, lambda: o.variables_subgraph_hash(set(o.included_variables)),
                     o.builder]
            if n is not None:
                calls += [lambda: o.neighboring_values(n), lambda: o.belt_nodes({n}), lambda: o.external_nodes({n})]
        elif k in ("ss", "ssb"):
            calls = [o.items, o.samples]
            if k == "ss":
                calls += [o.builder, o.group_intersecting, o.is_all_values_match, o.can_join_samples]
                if o:
                    calls += [o.probabilities, o.make_joined_sample]
        elif k in ("rg", "cg"):
            calls = [o.describe, o.included_variables, o.included_relations, o.outcomes_as_edges_sets, o.marginal_variables_probability,
                     o.folded_graph, o.builder, o.print_samples, lambda: o.find_for_values(set()), o.relation_graph,
                     o.outcomes.items, o.outcomes.samples, o.outcomes.group_intersecting]
            if k == "rg":
                calls += [o.is_joined, o.is_factorized, o.joined_on_variables, o.make_joined, o.factorized]
            else:
                calls += [o.activation_graph, o.factorized]
        elif k == "rgb":
            calls = [o.sample_builder, o.build]
        elif k == "p" and not isinstance(o, _ProviderView):
            calls = [o.variables, o.relations]
        for f in calls:
            ok, x = self.call(f)
            if ok:
                self.keep.append(x)
                self.call(lambda: spoil(x))
        self.emit("observe", True, [r])


class Legend:
    def __init__(self):
        self.node, self.edge, self.rel, self.var = {}, {}, {}, {}


class _ProviderView:
    """the vocabulary of a relation graph builder, seen through its public attributes"""

    def __init__(self, rgb):
        self._rgb = rgb

    def variables(self):
        return self._rgb.variables

    def relations(self):
        return self._rgb.relations
