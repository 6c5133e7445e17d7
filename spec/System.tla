------------------------------- MODULE System -------------------------------
(* The library as one transition system.  Its state is a register file `env` of live objects (providers,
   sample builders, samples, sample set builders, sample sets, relation graph builders, relation graphs,
   conditional graphs), the identities of interned components (nids, eids) and the identifiers handed out by
   relation graph builders (uids).  Every public call is an action: for a call e, Fails(env, e) is the set of
   clauses of the specification that the observed outcome of e violates (empty: the step is allowed).

   Registers hold
     [k |-> "p",  vars |-> [variable -> values], rels |-> relations]
     [k |-> "sb" or "s", p |-> provider register, s |-> sample]
     [k |-> "ssb", "ss", "rgb", "rg", p |-> .., b |-> bag, dup |-> BOOLEAN]
     [k |-> "cg", p, b, dup, ev |-> sample]                                                             *)
EXTENDS Clients, SampleBuilder, Names

Judge(acc, e, good) ==
  IF e.ok # acc THEN {IF acc THEN "rejected-but-allowed" ELSE "accepted-but-forbidden"}
  ELSE IF acc THEN good ELSE {}
C(name, cond) == IF cond THEN {} ELSE {name}

AsSet(q) == Rng(q)
\* the outcomes of B are listed, each with its count and probability
Shown(B, q) == /\ Len(q) = Cardinality(DOMAIN B)
               /\ \A s \in DOMAIN B : Cardinality({j \in DOMAIN q : q[j][1] = B[s]}) = Cardinality({t \in DOMAIN B : B[t] = B[s]})
               /\ \A j \in DOMAIN q : Near(q[j][2], q[j][1], Total(B))
NoDup(q) == Cardinality(Rng(q)) = Len(q)

\* JSON -> values
JEdge(e) == [ep |-> AsSet(e.ep), rel |-> e.rel]
JSample(s) == [nodes |-> AsSet(s.n), edges |-> {JEdge(e) : e \in AsSet(s.e)}]
JBag(tab, b) == LET S == {tab[b[j][1]] : j \in DOMAIN b}
                IN [s \in S |-> b[CHOOSE j \in DOMAIN b : tab[b[j][1]] = s][2]]
JMap(q) == [v \in {q[j][1] : j \in DOMAIN q} |-> AsSet(q[CHOOSE j \in DOMAIN q : q[j][1] = v][2])]
JMap1(q) == [v \in {q[j][1] : j \in DOMAIN q} |-> q[CHOOSE j \in DOMAIN q : q[j][1] = v][2]]
JFilter(f) == IF f = <<>> THEN <<>> ELSE <<AsSet(f[1])>>
JObs(tab, o) ==
  CASE o.k = "p" -> [k |-> "p", vars |-> JMap(o.vars), rels |-> AsSet(o.rels), dup |-> ~NoDup(o.rels)]
    [] o.k \in {"s", "sb"} -> [k |-> o.k, p |-> o.p, s |-> tab[o.s]]
    [] o.k = "cg" -> [k |-> o.k, p |-> o.p, b |-> JBag(tab, o.b), ev |-> tab[o.ev],
                      dup |-> Len(o.b) # Cardinality({o.b[j][1] : j \in DOMAIN o.b})]
    [] OTHER -> [k |-> o.k, p |-> o.p, b |-> JBag(tab, o.b),
                 dup |-> Len(o.b) # Cardinality({o.b[j][1] : j \in DOMAIN o.b})]
Out(tab, e) == [r \in {e.out[j][1] : j \in DOMAIN e.out} |->
                  JObs(tab, e.out[CHOOSE j \in DOMAIN e.out : e.out[j][1] = r][2])]

\* an output register holds the sample / bag expected
IsSample(o, r, p, s) == C("content", r \in DOMAIN o /\ o[r].s = s) \cup C("vocabulary", r \in DOMAIN o /\ o[r].p = p)
IsBag(o, r, p, b) == C("content", r \in DOMAIN o /\ o[r].b = b) \cup C("vocabulary", r \in DOMAIN o /\ o[r].p = p)
                     \cup C("duplicates", r \in DOMAIN o /\ ~o[r].dup)
Kept(env, o, r) == C("changed-by-rejected-call", r \in DOMAIN o /\ o[r] = env[r])

Pairs(q) == {<<q[j][1], q[j][2]>> : j \in DOMAIN q}
CountIn(q, x) == Cardinality({j \in DOMAIN q : q[j] = x})

RECURSIVE AddMany(_, _, _, _, _)
\* add_outcomes: in order, up to the first incompatible one
AddMany(env, b, p, q, c) ==
  IF q = <<>> THEN b
  ELSE IF c < 1 \/ env[Head(q)].p # p THEN b ELSE AddMany(env, BagAdd(b, env[Head(q)].s, c), p, Tail(q), c)
AllCompat(env, p, q) == \A j \in DOMAIN q : env[q[j]].p = p

\* rows <<sample index, count>>, possibly with repeated samples
RowSum(tab, q) == LET S == {tab[q[j][1]] : j \in DOMAIN q}
                  IN [s \in S |-> LET J == {j \in DOMAIN q : tab[q[j][1]] = s} IN SumOver([j \in J |-> q[j][2]], J)]

\* names live in the register file under "name of r"
NameReg(r) == "name of " \o r
NameOf(env, r) == IF NameReg(r) \in DOMAIN env THEN env[NameReg(r)] ELSE Unknown
NameGot(env, e) == NameAfter(e.how, IF e.x = "-" THEN Unknown ELSE NameOf(env, e.x), e.given)
NameOk(env, e, x) ==
  IF x = Generated
  THEN /\ e.got[1] # ""
       /\ (e.how \in SampleCalls => e.got[1] = e.text)
       /\ (e.how \in {"cond", "fold"} => e.got[1] \notin AsSet(e.others))   \* not a name that somebody gave to something
       /\ (e.how = "rgb_build" => e.got[1] = "relation_graph_with_" \o ToString(Total(env[e.x].b)) \o "_outcomes")
       /\ (e.how = "fold" => LET B == env[e.x].b
                                 pairs == UNION {{{n[1] : n \in d.ep} : d \in s.edges} : s \in DOMAIN B} IN
              e.got[1] = "VariablesGraph(len(nodes) = " \o ToString(Cardinality(BagVars(B))) \o ", len(edges) = " \o ToString(Cardinality(pairs)) \o ")")
  ELSE IF x = Unknown THEN e.got[1] # "" ELSE e.got[1] = x[2]
NamesAfter(env, e) == IF e.op = "named" THEN (NameReg(e.r) :> NameGot(env, e)) ELSE << >>

VocOf(env, p) == [vars |-> env[p].vars, rels |-> env[p].rels]

Fails(env, nids, eids, uids, tab, e) ==
  LET o == Out(tab, e)
      op == e.op
      Voc(r) == VocOf(env, env[r].p)
  IN
  CASE op = "provider" ->
         Judge(e.vars # <<>> /\ (\A j \in DOMAIN e.vars : e.vars[j][2] # <<>>) /\ e.rels # <<>>, e,
               C("content", o[e.r].vars = JMap(e.vars) /\ o[e.r].rels = AsSet(e.rels) /\ ~o[e.r].dup))
    [] op = "observe" -> UNION {C("changed", o[r] = env[r]) : r \in DOMAIN o}
    [] op = "get_node" ->
         Judge(InVocNode(VocOf(env, e.p), e.n), e,
               C("content", e.res.n = e.n)
               \cup C("interned", \A t \in nids : t[1] = e.p => ((t[2] = e.n) <=> (t[3] = e.res.id))))
    [] op = "get_edge" ->
         LET ep == AsSet(e.ep) IN
         Judge(/\ \A n \in ep : \E t \in nids : t[1] = e.p /\ t[2] = n
               /\ InVocRel(VocOf(env, e.p), ep, e.rel), e,
               C("content", JEdge(e.res.e) = [ep |-> ep, rel |-> e.rel])
               \cup C("interned", \A t \in eids : t[1] = e.p =>
                      ((t[2] = [ep |-> ep, rel |-> e.rel]) <=> (t[3] = e.res.id))))
    [] op = "shared" ->   \* identities of the components of a sample
         LET p == env[e.s].p IN
         C("interned-node", \A j \in DOMAIN e.ns : \A t \in nids :
              t[1] = p => ((t[2] = e.ns[j][1]) <=> (t[3] = e.ns[j][2])))
         \cup C("interned-edge", \A j \in DOMAIN e.es : \A t \in eids :
              t[1] = p => ((t[2] = JEdge(e.es[j][1])) <=> (t[3] = e.es[j][2])))
    \* ------------------------------------------------------------------ sample builder
    [] op = "make" ->     \* a legal sample built in one of the possible ways
         Judge(TRUE, e, IsSample(o, e.r, e.p, tab[e.want]))
    [] op = "sb_new" -> Judge(TRUE, e, IsSample(o, e.r, e.p, Empty))
    [] op = "sb_from" -> Judge(TRUE, e, IsSample(o, e.r, env[e.s].p, env[e.s].s))
    [] op = "sb_copy" -> Judge(TRUE, e, IsSample(o, e.r, env[e.b].p, env[e.b].s))
    [] op = "add_relation" ->
         LET ep == AsSet(e.ep)  acc == CanAdd(Voc(e.b), env[e.b].s, ep, e.rel) IN
         Judge(acc, e, IsSample(o, e.b, env[e.b].p, DoAdd(env[e.b].s, ep, e.rel)) \cup C("returns-self", e.slf))
         \cup (IF acc \/ e.ok THEN {} ELSE Kept(env, o, e.b))
    [] op = "build_from_edges" ->
         LET E == {JEdge(x) : x \in AsSet(e.edges)}
             acc == CanAddEdges(Voc(e.b), env[e.b].s, E, e.val)
             s == DoAddEdges(env[e.b].s, E) IN
         Judge(acc, e, IsSample(o, e.r, env[e.b].p, s) \cup C("builder", o[e.b].s = s))
         \cup (IF acc \/ e.ok THEN {} ELSE Kept(env, o, e.b))
    [] op = "is_connected" ->
         LET E == {JEdge(x) : x \in AsSet(e.edges)} IN
         Judge(TRUE, e, C("connectivity", e.res = Connected(NodesOf(E), E)))
    [] op = "build" ->
         Judge(env[e.b].s.nodes # {}, e, IsSample(o, e.r, env[e.b].p, env[e.b].s))
         \cup C("builder-changed", o[e.b] = env[e.b])
    [] op = "build_single" ->
         Judge(InVocNode(Voc(e.b), e.n), e, IsSample(o, e.r, env[e.b].p, Single(e.n)))
         \cup C("builder-changed", o[e.b] = env[e.b])
    [] op = "build_empty" -> Judge(TRUE, e, IsSample(o, e.r, env[e.b].p, Empty))
                             \cup C("builder-changed", o[e.b] = env[e.b])
    [] op = "join" ->
         LET acc == env[e.s].p = env[e.b].p /\ CanJoin(env[e.b].s, env[e.s].s) IN
         Judge(acc, e, IsSample(o, e.b, env[e.b].p, DoJoin(env[e.b].s, env[e.s].s)) \cup C("returns-self", e.slf))
         \cup (IF acc \/ e.ok THEN {} ELSE Kept(env, o, e.b))
    [] op = "can_join" ->
         Judge(env[e.s].p = env[e.b].p, e, C("precheck", e.res = PreCheckJoin(env[e.b].s, env[e.s].s)))
         \cup C("builder-changed", o[e.b] = env[e.b])
    \* ------------------------------------------------------------------ samples
    [] op = "content" ->
         LET s == env[e.s].s IN
         Judge(TRUE, e,
           C("variables", AsSet(e.vars) = VarsOf(s) /\ NoDup(e.vars))
           \cup C("values", AsSet(e.values) = s.nodes /\ NoDup(e.values))
           \cup C("single", s.nodes # {} => (e.single <=> s.edges = {}))
           \cup C("empty", e.k0 <=> s = Empty)
           \cup C("have_value", \A j \in DOMAIN e.hv : e.hv[j][2] <=> e.hv[j][1] \in s.nodes)
           \cup C("have_variable", \A j \in DOMAIN e.hvar : e.hvar[j][2] <=> e.hvar[j][1] \in VarsOf(s))
           \cup C("value_for", \A j \in DOMAIN e.vf :
                  LET v == e.vf[j][1]  x == e.vf[j][2] IN
                  IF v \in VarsOf(s) THEN x # <<>> /\ x[1] \in ValuesOf(s, v) ELSE x = <<>>))
    [] op = "eq" ->
         LET same == env[e.s].s = env[e.t].s IN
         Judge(TRUE, e, C("equality", e.eq <=> same) \cup C("inequality", e.ne <=> ~same)
                        \cup C("hash", same => e.heq) \cup C("key", e.key <=> same))
    [] op = "neq_other" -> Judge(TRUE, e, C("equal-to-foreign-object", ~e.res))
    [] op = "no_copy" -> Judge(FALSE, e, {})
    [] op = "view" ->
         LET s == env[e.s].s IN
         Judge(TRUE, e,
           C("view", CASE e.vk = "none" -> s = Empty
                       [] e.vk = "node" -> s = Single(e.n)
                       [] OTHER -> s.edges # {} /\ {JEdge(x) : x \in AsSet(e.edges)} = s.edges
                                   /\ Len(e.edges) = Cardinality(s.edges)))
    [] op = "sub" -> Judge(TRUE, e, C("subgraph", e.res <=> IsSub(env[e.s].s, env[e.t].s)))
    [] op = "sim" -> Judge(TRUE, e, C("similarity",
                       Near(e.res, SimNum(env[e.s].s, env[e.t].s), SimDen(env[e.s].s, env[e.t].s))))
    [] op = "neigh" ->
         Judge(TRUE, e, C("neighbours",
           {<<x[1], JEdge(x[2])>> : x \in AsSet(e.res)} = Neighbours(env[e.s].s, e.c, JFilter(e.flt))) \cup C("dup", NoDup(e.res)))
    [] op = "belt" ->
         Judge(e.cs # <<>>, e, C("belt",
           {<<x[1], JEdge(x[2])>> : x \in AsSet(e.res)} = BeltPairs(env[e.s].s, AsSet(e.cs), JFilter(e.flt))) \cup C("dup", NoDup(e.res)))
    [] op = "ext" ->
         Judge(e.cs # <<>>, e, C("external",
           {<<x[1], JEdge(x[2])>> : x \in AsSet(e.res)} = ExternalPairs(env[e.s].s, AsSet(e.cs), JFilter(e.flt))) \cup C("dup", NoDup(e.res)))
    [] op = "transform" ->
         LET s == env[e.s].s  rep == JMap1(e.rep)  t == Replace(s, rep) IN
         Judge(\A v \in DOMAIN rep \cap VarsOf(s) : InVocNode(Voc(e.s), <<v, rep[v]>>), e,
               IsSample(o, e.r, env[e.s].p, t) \cup C("same-object", t = s => e.same) \cup C("name", e.nameok))
    [] op = "project" ->
         LET x == Project(env[e.s].s, AsSet(e.vs)) IN
         Judge(TRUE, e, C("nodes", AsSet(e.ns) = x.n) \cup C("edges", {JEdge(y) : y \in AsSet(e.es)} = x.e)
                        \cup C("dup", NoDup(e.ns) /\ Len(e.es) = Cardinality(x.e)))
    [] op = "epvars" -> Judge(TRUE, e, C("pairs", {AsSet(x) : x \in AsSet(e.res)} = EndpointVars(env[e.s].s)))
    [] op = "single_var" ->
         LET s == env[e.s].s IN
         Judge(s.edges = {} /\ s.nodes # {}, e, C("variable", {e.res} = VarsOf(s)))
    \* ------------------------------------------------------------------ sample sets
    [] op = "ssb_new" -> Judge(TRUE, e, IsBag(o, e.r, e.p, EmptyBag))
    [] op = "fromdict" -> Judge(TRUE, e, IsBag(o, e.r, e.p, RowSum(tab, e.rows)))
    [] op = "ssb_add" ->
         LET acc == env[e.s].p = env[e.b].p IN
         Judge(acc, e, IsBag(o, e.b, env[e.b].p, BagAdd(env[e.b].b, env[e.s].s, e.c)) \cup C("returns-self", e.slf))
         \cup (IF acc \/ e.ok THEN {} ELSE Kept(env, o, e.b))
    [] op = "ssb_addall" ->
         LET acc == env[e.x].p = env[e.b].p \/ env[e.x].b = EmptyBag IN
         Judge(acc, e, IsBag(o, e.b, env[e.b].p, BagSum(env[e.b].b, env[e.x].b)) \cup C("returns-self", e.slf))
         \cup (IF acc \/ e.ok THEN {} ELSE Kept(env, o, e.b))
    [] op = "ssb_remove" ->
         LET acc == env[e.s].s \in DOMAIN env[e.b].b IN
         Judge(acc, e, IsBag(o, e.b, env[e.b].p, BagDrop(env[e.b].b, {env[e.s].s}))
                       \cup C("removed-count", e.res = env[e.b].b[env[e.s].s]) \cup C("removed-sample", tab[e.rs] = env[e.s].s))
         \cup (IF acc \/ e.ok THEN {} ELSE Kept(env, o, e.b))
    [] op = "ssb_removeall" ->
         LET X == DOMAIN env[e.x].b  acc == X \subseteq DOMAIN env[e.b].b IN
         Judge(acc, e, IsBag(o, e.b, env[e.b].p, BagDrop(env[e.b].b, X)) \cup C("returns-self", e.slf))
         \cup (IF acc \/ e.ok THEN {}
               ELSE C("lost", SubBag(BagDrop(env[e.b].b, X), o[e.b].b) /\ SubBag(o[e.b].b, env[e.b].b)))
    [] op \in {"ssb_copy", "ssb_build", "ss_builder", "rg_builder", "cg_rg"} ->
         Judge(TRUE, e, IsBag(o, e.r, env[e.b].p, env[e.b].b))
    [] op = "ssb_empty" -> Judge(TRUE, e, IsBag(o, e.r, env[e.b].p, EmptyBag))
    [] op = "ss_info" ->
         LET b == env[e.x].b IN
         Judge(TRUE, e, C("length", e.len = Total(b)) \cup C("truth", e.truth <=> b # EmptyBag)
                        \cup C("samples", {tab[i] : i \in AsSet(e.samples)} = DOMAIN b /\ Len(e.samples) = Cardinality(DOMAIN b)))
    [] op = "union" ->
         Judge(env[e.x].p = env[e.y].p, e, IsBag(o, e.r, env[e.x].p, BagSum(env[e.x].b, env[e.y].b)))
    [] op = "filter" ->
         Judge(TRUE, e, IsBag(o, e.r, env[e.x].p, BagKeep(env[e.x].b, {tab[i] : i \in AsSet(e.keep)})))
    [] op = "joinlist" ->
         Judge(e.xs # <<>> /\ (\A j \in DOMAIN e.xs : env[e.xs[j]].p = env[e.xs[1]].p), e,
               IsBag(o, e.r, env[e.xs[1]].p, BagSumSeq([j \in DOMAIN e.xs |-> env[e.xs[j]].b])))
    [] op = "ss_eq" ->
         LET same == env[e.x].b = env[e.y].b IN
         Judge(TRUE, e, C("equality", e.eq <=> same) \cup C("inequality", e.ne <=> ~same) \cup C("hash", same => e.heq))
    [] op = "count_of" ->
         LET acc == env[e.s].s \in DOMAIN env[e.x].b IN
         Judge(acc, e, C("count", acc => e.res = env[e.x].b[env[e.s].s]))
    [] op = "probs" ->
         LET b == env[e.x].b  n == Total(b) IN
         Judge(b # EmptyBag, e,
           C("outcomes", {tab[x[1]] : x \in AsSet(e.res)} = DOMAIN b /\ Len(e.res) = Cardinality(DOMAIN b))
           \cup C("probability", \A j \in DOMAIN e.res : tab[e.res[j][1]] \in DOMAIN b /\ Near(e.res[j][2], b[tab[e.res[j][1]]], n)))
    [] op = "prob_of" ->
         LET b == env[e.x].b  acc == env[e.s].s \in DOMAIN b IN
         Judge(acc, e, C("probability", acc => Near(e.res, b[env[e.s].s], Total(b))))
    [] op = "ss_have" ->
         LET b == env[e.x].b  N == UNION {s.nodes : s \in DOMAIN b} IN
         Judge(TRUE, e, C("have_value", \A j \in DOMAIN e.hv : e.hv[j][2] <=> e.hv[j][1] \in N)
                        \cup C("have_variable", \A j \in DOMAIN e.hvar : e.hvar[j][2] <=> e.hvar[j][1] \in BagVars(b)))
    [] op = "group" ->
         LET b == env[e.x].b IN
         Judge(GroupsNamed(b), e,
           C("groups", {JBag(tab, g[2]) : g \in AsSet(e.res)} = Groups(b))
           \cup C("dup", Len(e.res) = Cardinality(Groups(b)))
           \cup C("keys", \A g \in AsSet(e.res) : AsSet(g[1]) = BagVars(JBag(tab, g[2]))))
    [] op = "allmatch" ->
         LET b == env[e.x].b IN
         Judge(TRUE, e, C("match", e.res <=> (\A s, t \in DOMAIN b : Compat(s, t))))
    [] op = "canjoin" ->
         LET b == env[e.x].b IN
         Judge(TRUE, e, C("joinable", e.res <=> (\A s, t \in DOMAIN b : s # t => Compat(s, t))))
    [] op = "joined_sample" ->
         LET b == env[e.x].b
             D == DOMAIN b
             u == [nodes |-> UNION {s.nodes : s \in D}, edges |-> UNION {s.edges : s \in D}]
             can == /\ D # {} /\ Empty \notin D
                    /\ \A s, t \in D : Compat(s, t) /\ ~RelConflict(s, t)
                    /\ Connected(u.nodes, u.edges)
             must == can /\ (\A s, t \in D : s.nodes \cap t.nodes # {})
                         /\ (\A s, t \in D : s # t /\ s.edges = {} => s.nodes \subseteq t.nodes)
             cs == [s \in D |-> b[s]]
         IN (IF e.ok /\ ~can THEN {"accepted-but-forbidden"} ELSE {})
            \cup (IF ~e.ok /\ must THEN {"rejected-but-allowed"} ELSE {})
            \cup (IF e.ok /\ can THEN C("content", tab[e.rs] = u)
                       \cup C("counts", Len(e.cs) = Cardinality(D) /\ \A s \in D : CountIn(e.cs, b[s]) = Cardinality({t \in D : b[t] = b[s]}))
                  ELSE {})
    \* ------------------------------------------------------------------ relation graphs
    [] op = "rgb_new" -> Judge(TRUE, e, IsBag(o, e.r, e.p, EmptyBag)
                           \cup C("vocabulary", JMap(e.vars) = env[e.p].vars /\ AsSet(e.rels) = env[e.p].rels))
    [] op = "rgb_add" ->
         LET acc == env[e.s].p = env[e.b].p /\ e.c >= 1 IN
         Judge(acc, e, IsBag(o, e.b, env[e.b].p, BagAdd(env[e.b].b, env[e.s].s, e.c)) \cup C("returns-self", e.slf))
         \cup (IF acc \/ e.ok THEN {} ELSE Kept(env, o, e.b))
    [] op = "rgb_addmany" ->
         LET p == env[e.b].p  acc == e.ss = <<>> \/ (AllCompat(env, p, e.ss) /\ e.c >= 1) IN
         Judge(acc, e, C("returns-self", e.slf))
         \cup (IF acc = e.ok THEN IF acc \/ o[e.b] # env[e.b] THEN IsBag(o, e.b, p, AddMany(env, env[e.b].b, p, e.ss, e.c)) ELSE {}
               ELSE {})
    [] op = "load" ->     \* many legal outcomes added one by one
         Judge(TRUE, e, IsBag(o, e.b, env[e.b].p, BagSum(env[e.b].b, RowSum(tab, e.rows))))
    [] op = "rgb_build_sample" ->
         Judge(TRUE, e, IsBag(o, e.b, env[e.b].p, BagAdd(env[e.b].b, tab[e.s], 1)) \cup C("returns-self", e.slf))
    [] op = "rgb_build" ->
         Judge(env[e.b].b # EmptyBag, e, IsBag(o, e.r, env[e.b].p, env[e.b].b)
           \cup C("vocabulary", JMap(e.vars) = env[env[e.b].p].vars /\ AsSet(e.rels) = env[env[e.b].p].rels))
         \cup C("builder-changed", o[e.b] = env[e.b])
    [] op = "rgb_id" -> Judge(TRUE, e, C("identifier-repeated", <<e.b, e.res>> \notin uids))
    [] op = "many_ids" -> Judge(TRUE, e, C("identifier-repeated", e.diff = e.n /\ e.old = 0))    \* a long run of rgb_id
    [] op = "rgb_gen" ->
         LET acc == env[e.b].b = EmptyBag
             voc == VocOf(env, env[e.b].p)
             B == o[e.b].b IN
         Judge(acc, e,
           C("unsound", \A s \in DOMAIN B : WellFormed(s) /\ SingleValued(s) /\ InVoc(voc, s) /\ s # Empty
                                            /\ \A x \in s.edges : Len(x.rel) = 1)
           \cup C("count-not-one", \A s \in DOMAIN B : B[s] = 1)
           \cup C("incomplete", Cardinality(DOMAIN B) = OutcomeCount(voc))
           \cup C("duplicates", ~o[e.b].dup) \cup C("names", e.names = Cardinality(DOMAIN B))
           \cup C("enumeration", e.full => DOMAIN B = AllOutcomes(voc)))
         \cup (IF acc \/ e.ok THEN {} ELSE Kept(env, o, e.b))
    [] op = "cond" ->
         LET acc == env[e.s].p = env[e.g].p IN
         Judge(acc, e, IsBag(o, e.r, env[e.g].p, Condition(env[e.g].b, env[e.s].s))
                       \cup C("evidence", o[e.r].ev = env[e.s].s))
    [] op = "make_joined" ->
         LET B == env[e.g].b
             r == IF e.ok THEN <<o[e.r].b>> ELSE <<>> IN
         IF HasK0(B) \/ ~IsFactorized(B) THEN Judge(FALSE, e, {})
         ELSE IF CompleteTables(B)
              THEN (IF ConnectedFactors(B)
                    THEN Judge(TRUE, e, IsBag(o, e.r, env[e.g].p, BagMod(ProductJoint(B), e.mod)))
                    ELSE Judge(FALSE, e, {}))
              ELSE C("not-a-joint", ElimReaches(B, Factors(B), BagVars(B), r, e.mod))
    [] op = "joined_on" ->
         LET B == env[e.g].b
             r == IF e.ok THEN <<o[e.r].b>> ELSE <<>>
             V == IF e.vs = <<>> THEN BagVars(B) ELSE AsSet(e.vs[1]) IN
         C("not-a-join", JoinReaches(B, V, r, e.mod)) \cup (IF e.ok THEN C("vocabulary", o[e.r].p = env[e.g].p) ELSE {})
    [] op = "posterior" ->   \* marginals e.res of graph e.g, whose source network is e.src, given evidence nodes e.ns
         LET J == BagKeep(Posterior(env[e.src].b, AsSet(e.ns)), {s \in DOMAIN ProductJoint(env[e.src].b) :
                              \A i \in AsSet(e.evs) : IsSub(tab[i], s)})
             T == Total(J) IN
         Judge(TRUE, e,
           C("variables", {x[1] : x \in AsSet(e.res)} = BagVars(J) /\ Len(e.res) = Cardinality(BagVars(J)))
           \cup C("posterior", \A x \in AsSet(e.res) :
                  LET got == JMap1(x[2]) IN
                  /\ DOMAIN got = BagValues(J, x[1])
                  /\ \A y \in DOMAIN got : Near(got[y], MassOf(J, <<x[1], y>>), T)))
    [] op = "indep" ->   \* what is said of the variables separated from the new evidence e.m by e.ns does not change
         LET B == env[e.src].b
             E == {n[1] : n \in AsSet(e.ns)}
             was == JMap1(e.res)
             is == JMap1(e.res2) IN
         Judge(TRUE, e,
           C("variables", DOMAIN was = BagVars(B) /\ DOMAIN is = BagVars(B))
           \cup C("known", \A n \in AsSet(e.ns) \cup {e.m} : \A y \in AsSet(is[n[1]]) : y[2] = IF y[1] = n[2] THEN 1000000000 ELSE 0)
           \cup C("dependent", \A v \in DOMAIN was \cap DOMAIN is : Separated(B, v, e.m[1], E) =>
                  LET x == JMap1(was[v]) y == JMap1(is[v]) IN
                  DOMAIN x = DOMAIN y /\ \A z \in DOMAIN x : x[z] - y[z] <= 2 /\ y[z] - x[z] <= 2))
    \* the networks of the examples and experiments
    [] op = "toss" ->
         Judge(TossesOk(e.texts), e,
           C("network", JBag(tab, e.bag) = TossBag(e.texts) /\ NoDup(e.bag))
           \cup C("vocabulary", JMap(e.vars) = TossVars /\ AsSet(e.rels) = {"r1", "r2"}))
    [] op = "pair_net" ->
         Judge(TRUE, e,
           C("network", JBag(tab, e.bag) = PairNet(e.tables) /\ NoDup(e.bag))
           \cup C("vocabulary", JMap(e.vars) = [v \in AsSet(e.nodes) |-> {ValName(v, 0), ValName(v, 1)}] /\ AsSet(e.rels) = {"r"}))
    [] op = "cpd_net" ->
         Judge(TRUE, e,
           C("network", JBag(tab, e.bag) = CpdNet(e.tables) /\ NoDup(e.bag))
           \cup C("vocabulary", JMap(e.vars) = [v \in {e.tables[j].v : j \in DOMAIN e.tables} |->
                                  LET t == e.tables[CHOOSE j \in DOMAIN e.tables : e.tables[j].v = v] IN {ValName(v, i) : i \in 0..(t.card - 1)}]
                                /\ AsSet(e.rels) = {"r"}))
    [] op = "printed" -> Judge(TRUE, e, C("printed", Shown(JBag(tab, e.bag), e.res))
                                        \cup C("texts", AsSet(e.texts) = AsSet(e.want) /\ Len(e.texts) = Len(e.want)))
    [] op = "toss_printed" -> C("printed", Shown(TossBag(e.texts), e.res))
    [] op = "toss_joint" -> C("printed", \E r \in JointResults(TossBag(e.texts)) : r # <<>> /\ Shown(r[1], e.res))
    [] op = "toss_given" -> C("printed", Shown(Condition(TossBag(e.texts), Toss(<<"1c", "H", "then", "5c", "H">>)), e.res))
    [] op = "program" -> Judge(TRUE, e, {})
    [] op = "sub_graphs" ->
         Judge(TRUE, e,
           C("single", AsSet(e.single) = 1..e.n /\ NoDup(e.single))
           \cup C("graphs", LET got == [j \in DOMAIN e.res |-> [nodes |-> AsSet(e.res[j][1]),
                                                     edges |-> {<<AsSet(x[1]), x[2]>> : x \in AsSet(e.res[j][2])}]] IN
                  AsSet(got) = SubGraphs(e.n) /\ NoDup(got)
                  /\ \A j \in DOMAIN e.res : NoDup(e.res[j][1]) /\ NoDup(e.res[j][2])))
    [] op = "is_joined" -> Judge(TRUE, e, C("joined", e.res <=> IsJoined(env[e.g].b)))
    [] op = "is_fact" -> Judge(TRUE, e, C("factorized", e.res <=> IsFactorized(env[e.g].b)))
    [] op = "factors" ->
         LET B == env[e.g].b IN
         Judge(IsFactorized(B), e, C("partition", {JBag(tab, f) : f \in AsSet(e.res)} = Factors(B))
                                   \cup C("dup", Len(e.res) = Cardinality(Factors(B))))
    [] op = "marg" ->
         LET B == env[e.g].b
             V == (IF e.vs = <<>> THEN BagVars(B) ELSE AsSet(e.vs[1])) \cap BagVars(B)
             T == Total(B) IN
         Judge(TRUE, e,
           C("variables", {x[1] : x \in AsSet(e.res)} = V /\ Len(e.res) = Cardinality(V))
           \cup C("marginal", \A x \in AsSet(e.res) :
                  LET got == JMap1(x[2])
                      m == MassVar(B, x[1])
                      den == IF e.unob THEN T ELSE m IN
                  /\ DOMAIN got = BagValues(B, x[1]) \cup (IF e.unob THEN {"UNOBSERVED"} ELSE {})
                  /\ \A y \in DOMAIN got : IF y = "UNOBSERVED" THEN Near(got[y], T - m, den)
                                           ELSE Near(got[y], MassOf(B, <<x[1], y>>), den)))
    [] op = "scales" ->   \* K times the outcomes of e.g and those of e.h once, K beyond 10^10: the probability of a value is decided by
                          \* e.g where it has the value at all, and else a share of 1/K, recorded as K/16 times the probability
         LET H == env[e.g].b
             L == env[e.h].b
             Vs == (IF e.vs = <<>> THEN BagVars(H) \cup BagVars(L) ELSE AsSet(e.vs[1])) \cap (BagVars(H) \cup BagVars(L))
             Share(p, hi, lo, Hi, Lo) == IF Hi = 0 THEN Near(p[1], lo, Lo)
                                         ELSE IF hi = 0 THEN Near(p[2], lo, 16 * Hi) ELSE Near(p[1], hi, Hi) IN
         Judge(TRUE, e,
           C("variables", {x[1] : x \in AsSet(e.res)} = Vs /\ Len(e.res) = Cardinality(Vs))
           \cup C("marginal", \A x \in AsSet(e.res) :
                  LET v == x[1]
                      got == JMap1(x[2])
                      hi == IF e.unob THEN Total(H) ELSE MassVar(H, v)
                      lo == IF e.unob THEN Total(L) ELSE MassVar(L, v) IN
                  /\ DOMAIN got = BagValues(H, v) \cup BagValues(L, v) \cup (IF e.unob THEN {"UNOBSERVED"} ELSE {})
                  /\ \A y \in DOMAIN got :
                       IF y = "UNOBSERVED" THEN Share(got[y], Total(H) - MassVar(H, v), Total(L) - MassVar(L, v), hi, lo)
                       ELSE Share(got[y], MassOf(H, <<v, y>>), MassOf(L, <<v, y>>), hi, lo)))
    [] op = "incl" ->
         LET B == env[e.g].b IN
         Judge(TRUE, e, C("variables", JMap(e.vars) = [v \in BagVars(B) |-> BagValues(B, v)] /\ Len(e.vars) = Cardinality(BagVars(B)))
                        \cup C("relations", AsSet(e.rels) = BagRels(B) /\ NoDup(e.rels)))
    [] op = "find" -> Judge(TRUE, e, IsBag(o, e.r, env[e.g].p, FindValues(env[e.g].b, AsSet(e.ns))))
    [] op = "describe" ->
         LET B == env[e.g].b  voc == Voc(e.g) IN
         Judge(TRUE, e,
           IF env[e.g].k = "rg"
           THEN C("n-variables", e.nv = Cardinality(DOMAIN voc.vars)) \cup C("n-relations", e.nr = Cardinality(voc.rels))
                \cup C("n-outcomes", e.no = Total(B)) \cup C("variables", AsSet(e.vars) = DOMAIN voc.vars)
                \cup C("relations", AsSet(e.rels) = {<<r>> : r \in voc.rels})
           ELSE C("n-outcomes", e.no = Total(B)) \cup C("variables", AsSet(e.vars) = BagVars(B))
                \cup C("relations", AsSet(e.rels) = BagRels(B)))
    [] op = "views" ->
         LET B == env[e.g].b IN
         Judge(TRUE, e, C("listing", {<<tab[x[1]], x[2]>> : x \in AsSet(e.res)} = {<<s, B[s]>> : s \in DOMAIN B}
                                     /\ Len(e.res) = Cardinality(DOMAIN B)))
    [] op = "fold" ->
         LET B == env[e.g].b  voc == Voc(e.g)  T == Total(B) IN
         Judge(TRUE, e,
           C("n-outcomes", e.n = T)
           \cup C("variables", {x[1] : x \in AsSet(e.nodes)} = FoldVars(B) /\ Len(e.nodes) = Cardinality(FoldVars(B)))
           \cup C("lookup", \A j \in DOMAIN e.look : e.look[j][2] <=> e.look[j][1] \in FoldVars(B))
           \cup C("vocabulary-values", \A x \in AsSet(e.nodes) : AsSet(x[2]) = voc.vars[x[1]])
           \cup C("value-counts", \A x \in AsSet(e.nodes) :
                    Pairs(x[3]) = FoldNode(B, x[1]) /\ Len(x[3]) = Cardinality(FoldNode(B, x[1])))
           \cup C("unobserved", \A x \in AsSet(e.nodes) : x[4] = T - MassVar(B, x[1]))
           \cup C("distribution", \A x \in AsSet(e.nodes) :
                    LET got == JMap1(x[5]) IN
                    /\ DOMAIN got = voc.vars[x[1]] \cup {"UNOBSERVED"}
                    /\ \A y \in DOMAIN got : IF y = "UNOBSERVED" THEN Near(got[y], T - MassVar(B, x[1]), T)
                                             ELSE Near(got[y], MassOf(B, <<x[1], y>>), T))
           \cup C("pairs", {AsSet(x[1]) : x \in AsSet(e.edges)} = FoldPairs(B) /\ Len(e.edges) = Cardinality(FoldPairs(B)))
           \cup C("edge-counts", \A x \in AsSet(e.edges) :
                    {<<JEdge(y[1]), y[2]>> : y \in AsSet(x[2])} = FoldEdge(B, AsSet(x[1])) /\ NoDup(x[2])))
    [] op = "act" ->
         LET B == env[e.g].b  ev == env[e.g].ev  voc == Voc(e.g)  flt == JFilter(e.flt)
             T == Total(B)  D == SimLcm(B, ev)  den == IF T = 0 THEN 1 ELSE D * T IN
         Judge(TRUE, e,
           C("n-outcomes", e.n = T)
           \cup C("variables", {x[1] : x \in AsSet(e.nodes)} = DOMAIN voc.vars /\ Len(e.nodes) = Cardinality(DOMAIN voc.vars))
           \cup C("query-variables", \A x \in AsSet(e.nodes) : x[2] <=> x[1] \in VarsOf(ev))
           \cup C("values", \A x \in AsSet(e.nodes) : {y[1] : y \in AsSet(x[3])} = voc.vars[x[1]] /\ Len(x[3]) = Cardinality(voc.vars[x[1]]))
           \cup C("weights", \A x \in AsSet(e.nodes) : \A y \in AsSet(x[3]) :
                    Near(y[2], WeightNum(B, ev, flt, <<x[1], y[1]>>, D), den))
           \cup C("relations", UNION {{<<AsSet(x[1]), y[1], y[2], x[2]>> : y \in AsSet(x[3])} : x \in AsSet(e.edges)}
                               = ActEdges(B, ev, flt))
           \cup C("edge-dup", Len(e.edges) = Cardinality({AsSet(x[1]) : x \in AsSet(e.edges)})))
    [] op = "fold_eq" -> Judge(TRUE, e, C("folded-equality", e.res <=>
           LET F(B) == <<{FoldNode(B, v) : v \in FoldVars(B)}, {FoldEdge(B, p) : p \in FoldPairs(B)}>>
           IN F(env[e.g].b) = F(env[e.h].b)))
    [] op = "twins" ->    \* two value objects compare by their kind and content
         LET same == e.ka = e.kb /\ AsSet(e.a) = AsSet(e.b) IN
         Judge(TRUE, e, C("equality", e.eq <=> same) \cup C("inequality", e.ne <=> ~same) \cup C("symmetry", e.rev <=> e.eq)
                        \cup C("hash", same => e.heq) \cup C("key", e.key <=> same))
    [] op = "named" ->    \* the name an object got
         LET x == NameGot(env, e) IN
         Judge(TRUE, e, C("name", e.got # <<>> => NameOk(env, e, x)) \cup C("returns-self", e.slf))
    [] op = "same" ->     \* one result observed under several insertion orders and hash seeds
         Judge(TRUE, e, C("differs", \A t \in uids : t[1] = e.key => t[2] = e.val))
    \* ------------------------------------------------------------------ renderings (decoded to what they show)
    [] op = "text" ->
         LET s == env[e.s].s IN
         Judge(TRUE, e, C("text", e.what = "other" => FALSE)
           \cup C("parts", {JEdge(x) : x \in AsSet(e.edges)} = s.edges /\ Len(e.edges) = Cardinality(s.edges)
                           /\ AsSet(e.ns) = (IF s.edges = {} THEN s.nodes ELSE {}) /\ Len(e.ns) <= 1))
    [] op = "listing" ->
         LET B == env[e.g].b IN
         Judge(TRUE, e, C("listing", {<<tab[x[1]], x[2]>> : x \in AsSet(e.res)} = {<<s, B[s]>> : s \in DOMAIN B}
                                     /\ Len(e.res) = Cardinality(DOMAIN B)))
    [] op = "listing_names" ->   \* one line per outcome, even when outcomes share their name
         LET B == env[e.g].b
             want == [j \in DOMAIN e.names |-> <<e.names[j][2], B[tab[e.names[j][1]]]>>] IN
         Judge(TRUE, e, C("outcomes", {tab[x[1]] : x \in AsSet(e.names)} = DOMAIN B /\ Len(e.names) = Cardinality(DOMAIN B))
                        \cup C("lines", Len(e.res) = Len(e.names)
                                        /\ \A x \in AsSet(want) \cup AsSet(e.res) : CountIn(e.res, x) = CountIn(want, x)))
    [] op = "part_text" ->   \* a node or edge of a folded or activation graph
         Judge(TRUE, e, C("variables", AsSet(e.ends) = AsSet(e.wends) /\ NoDup(e.ends))
                        \cup C("entries", Len(e.entries) = Len(e.wentries)
                                          /\ \A x \in AsSet(e.entries) \cup AsSet(e.wentries) : CountIn(e.entries, x) = CountIn(e.wentries, x))
                        \cup C("queried", e.q <=> e.wq))
    [] op = "draw_sample" ->
         LET s == env[e.s].s IN
         Judge(TRUE, e, C("vertices", AsSet(e.ns) = s.nodes /\ NoDup(e.ns))
                        \cup C("lines", {JEdge(x) : x \in AsSet(e.edges)} = s.edges /\ Len(e.edges) = Cardinality(s.edges)))
    [] op = "draw_outcomes" ->
         LET B == BagDrop(env[e.g].b, {Empty})
             ev == IF env[e.g].k = "cg" THEN env[e.g].ev ELSE Empty IN
         Judge(TRUE, e, C("outcomes", {<<tab[x[1]], x[2]>> : x \in AsSet(e.res)} = {<<s, B[s]>> : s \in DOMAIN B}
                                      /\ Len(e.res) = Cardinality(DOMAIN B))
                        \cup C("evidence", tab[e.ev] = ev))
    [] op = "draw_fold" ->
         LET B == env[e.g].b  voc == Voc(e.g)  T == Total(B)
             text == JMap1(e.texts) IN      \* values which look alike are told apart by their counts, if at all
         Judge(TRUE, e,
           C("variables", {x[1] : x \in AsSet(e.nodes)} = DOMAIN voc.vars /\ Len(e.nodes) = Cardinality(DOMAIN voc.vars))
           \cup C("present", \A x \in AsSet(e.nodes) : x[4] <=> x[1] \in BagVars(B))
           \cup C("counts", \A x \in AsSet(e.nodes) :
                    LET Y == IF x[1] \in BagVars(B) THEN BagValues(B, x[1]) ELSE voc.vars[x[1]] IN
                    Pairs(x[2]) = {<<text[y], MassOf(B, <<x[1], y>>)>> : y \in Y} /\ Len(x[2]) <= Cardinality(Y))
           \cup C("unobserved", \A x \in AsSet(e.nodes) : x[3] = T - MassVar(B, x[1]))
           \cup C("lines", {AsSet(x[1]) : x \in AsSet(e.edges)} = FoldPairs(B) /\ Len(e.edges) = Cardinality(FoldPairs(B)))
           \cup C("relations", \A x \in AsSet(e.edges) :
                    Pairs(x[2]) = {<<y[1].rel, y[2]>> : y \in FoldEdge(B, AsSet(x[1]))}))
    [] op = "draw_act" ->
         LET B == env[e.g].b  ev == env[e.g].ev  voc == Voc(e.g)  flt == JFilter(e.flt)
             T == Total(B)  D == SimLcm(B, ev)  den == IF T = 0 THEN 1 ELSE D * T
             A == ActEdges(B, ev, flt) IN
         Judge(TRUE, e,
           C("variables", {x[1] : x \in AsSet(e.nodes)} = DOMAIN voc.vars /\ Len(e.nodes) = Cardinality(DOMAIN voc.vars))
           \cup C("marked", \A x \in AsSet(e.nodes) : x[3] <=> x[1] \in VarsOf(ev))
           \cup C("values", \A x \in AsSet(e.nodes) : {y[1] : y \in AsSet(x[2])} = voc.vars[x[1]] /\ Len(x[2]) = Cardinality(voc.vars[x[1]]))
           \cup C("weights", \A x \in AsSet(e.nodes) : \A y \in AsSet(x[2]) :
                    Near(y[2], WeightNum(B, ev, flt, <<x[1], y[1]>>, D), den))
           \cup C("lines", Len(e.edges) = Cardinality({a[1] : a \in A}))
           \cup C("relations", UNION {{<<AsSet(x[1]), y[1], y[2], x[3]>> : y \in AsSet(x[2])} : x \in AsSet(e.edges)} = A))
    [] op = "crash" -> {"driver-could-not-use-the-public-api"}
    [] OTHER -> {"unknown-operation"}

\* state updates: what was observed becomes the state the next calls are judged against
NextEnv(env, tab, e) == NamesAfter(env, e) @@ Out(tab, e) @@ env
NextNids(env, nids, e) ==
  CASE e.op = "get_node" /\ e.ok -> nids \cup {<<e.p, e.n, e.res.id>>}
    [] e.op = "shared" -> nids \cup {<<env[e.s].p, x[1], x[2]>> : x \in AsSet(e.ns)}
    [] OTHER -> nids
NextEids(env, eids, e) ==
  CASE e.op = "get_edge" /\ e.ok -> eids \cup {<<e.p, JEdge(e.res.e), e.res.id>>}
    [] e.op = "shared" -> eids \cup {<<env[e.s].p, JEdge(x[1]), x[2]>> : x \in AsSet(e.es)}
    [] OTHER -> eids
NextUids(uids, e) == CASE e.op = "rgb_id" /\ e.ok -> uids \cup {<<e.b, e.res>>}
                       [] e.op = "same" -> uids \cup {<<e.key, e.val>>}
                       [] OTHER -> uids
=============================================================================
