------------------------------- MODULE Graphs -------------------------------
(* Sample graphs of a probabilistic relational network, as values.

   node    == <<variable, value>>
   edge    == [ep |-> {node, node}, rel |-> <<relation>> or <<relation, source variable, target variable>>]
   sample  == [nodes |-> set of nodes, edges |-> set of edges]
   vocabulary == [vars |-> function variable -> set of values, rels |-> set of relations]          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[i] : i \in DOMAIN q}
Max(a, b) == IF a >= b THEN a ELSE b

Empty == [nodes |-> {}, edges |-> {}]
Single(n) == [nodes |-> {n}, edges |-> {}]
Elements(s) == [n |-> s.nodes, e |-> s.edges]
Size(s) == Cardinality(s.nodes) + Cardinality(s.edges)

EpVars(e) == {n[1] : n \in e.ep}
VarsOf(s) == {n[1] : n \in s.nodes}
ValuesOf(s, v) == {n[2] : n \in {m \in s.nodes : m[1] = v}}
SingleValued(s) == \A n, m \in s.nodes : n[1] = m[1] => n = m

\* ---------------------------------------------------------------- connectivity
Grow(R, E) == R \cup UNION {e.ep : e \in {x \in E : x.ep \cap R # {}}}
RECURSIVE Reach(_, _)
Reach(R, E) == LET G == Grow(R, E) IN IF G = R THEN R ELSE Reach(G, E)
Connected(N, E) == N = {} \/ N \subseteq Reach({CHOOSE n \in N : TRUE}, E)
NodesOf(E) == UNION {e.ep : e \in E}

\* a graph every sample in the system has to be
Simple(s) == /\ \A e \in s.edges : Cardinality(e.ep) = 2 /\ Cardinality(EpVars(e)) = 2
             /\ \A e, f \in s.edges : e.ep = f.ep => e = f
WellFormed(s) == /\ Simple(s)
                 /\ NodesOf(s.edges) \subseteq s.nodes
                 /\ Connected(s.nodes, s.edges)

\* ---------------------------------------------------------------- vocabulary
InVocNode(voc, n) == n[1] \in DOMAIN voc.vars /\ n[2] \in voc.vars[n[1]]
InVocRel(voc, ep, r) == /\ r[1] \in voc.rels
                        /\ Len(r) = 3 => {r[2], r[3]} \subseteq {n[1] : n \in ep}
InVoc(voc, s) == /\ \A n \in s.nodes : InVocNode(voc, n)
                 /\ \A e \in s.edges : InVocRel(voc, e.ep, e.rel)
VocNodes(voc) == UNION {{<<v, x>> : x \in voc.vars[v]} : v \in DOMAIN voc.vars}

\* ---------------------------------------------------------------- relations between samples
IsSub(s, t) == s.nodes \subseteq t.nodes /\ s.edges \subseteq t.edges
Union2(s, t) == [nodes |-> s.nodes \cup t.nodes, edges |-> s.edges \cup t.edges]
SharedSize(s, t) == Cardinality(s.nodes \cap t.nodes) + Cardinality(s.edges \cap t.edges)
UnionSize(s, t) == Cardinality(s.nodes \cup t.nodes) + Cardinality(s.edges \cup t.edges)
\* similarity is SharedSize/UnionSize, and 1 for two empty samples
SimNum(s, t) == IF UnionSize(s, t) = 0 THEN 1 ELSE SharedSize(s, t)
SimDen(s, t) == IF UnionSize(s, t) = 0 THEN 1 ELSE UnionSize(s, t)

\* two samples agree on the value of every variable they share
Compat(s, t) == \A n \in s.nodes, m \in t.nodes : n[1] = m[1] => n[2] = m[2]
RelConflict(s, t) == \E e \in s.edges, f \in t.edges : e.ep = f.ep /\ e.rel # f.rel

\* ---------------------------------------------------------------- queries on one sample
\* flt = <<>> : no filter; <<set of relations>> : only these (an empty set admits everything too)
Admits(flt, r) == \/ flt = <<>>
                  \/ flt[1] = {}
                  \/ r \in flt[1]
Neighbours(s, c, flt) ==
  {<<CHOOSE n \in e.ep : n # c, e>> : e \in {x \in s.edges : c \in x.ep /\ Admits(flt, x.rel)}}
\* pairs <<outer node, edge>> of one step away from the set C
BeltPairs(s, C, flt) ==
  {<<CHOOSE n \in e.ep : n \notin C, e>> :
     e \in {x \in s.edges : Admits(flt, x.rel) /\ Cardinality(x.ep \ C) = 1}}
RECURSIVE ExternalPairs(_, _, _)
ExternalPairs(s, C, flt) ==
  LET B == BeltPairs(s, C, flt)
  IN IF B = {} THEN {} ELSE B \cup ExternalPairs(s, C \cup {b[1] : b \in B}, flt)

\* distance of a node from C through admitted edges (-1: unreachable): independent reading of the above
RECURSIVE Layers(_, _, _, _)
Layers(s, C, flt, k) ==   \* nodes at distance <= k
  IF k = 0 THEN C
  ELSE LET P == Layers(s, C, flt, k - 1)
       IN P \cup UNION {e.ep : e \in {x \in s.edges : Admits(flt, x.rel) /\ x.ep \cap P # {}}}

Project(s, V) == [n |-> {n \in s.nodes : n[1] \in V}, e |-> {e \in s.edges : EpVars(e) \subseteq V}]
EndpointVars(s) == {EpVars(e) : e \in s.edges}

\* rep: function variable -> new value
ReplNode(n, rep) == IF n[1] \in DOMAIN rep THEN <<n[1], rep[n[1]]>> ELSE n
ReplEdge(e, rep) == [ep |-> {ReplNode(n, rep) : n \in e.ep}, rel |-> e.rel]
Replace(s, rep) == [nodes |-> {ReplNode(n, rep) : n \in s.nodes},
                    edges |-> {ReplEdge(e, rep) : e \in s.edges}]

\* ---------------------------------------------------------------- enumeration of a vocabulary
RECURSIVE Choices(_, _)
\* all sets with exactly one node of each variable of the set V
Choices(voc, V) ==
  IF V = {} THEN {{}}
  ELSE LET v == CHOOSE x \in V : TRUE
       IN {N \cup {<<v, x>>} : N \in Choices(voc, V \ {v}), x \in voc.vars[v]}
PairsOf(N) == {{n, m} : n \in N, m \in N} \ {{n} : n \in N}
RECURSIVE EdgeSets(_, _)
\* all sets of edges with at most one plain relation per pair in Ps
EdgeSets(rels, Ps) ==
  IF Ps = {} THEN {{}}
  ELSE LET p == CHOOSE x \in Ps : TRUE
           R == EdgeSets(rels, Ps \ {p})
       IN R \cup {E \cup {[ep |-> p, rel |-> <<r>>]} : E \in R, r \in rels}
SamplesOver(voc, N) == {[nodes |-> N, edges |-> E] : E \in {X \in EdgeSets(voc.rels, PairsOf(N)) : Connected(N, X)}}
AllOutcomes(voc) ==
  UNION {SamplesOver(voc, N) : N \in UNION {Choices(voc, V) : V \in (SUBSET DOMAIN voc.vars) \ {{}}}}

\* number of connected labelled graphs on k nodes with r relation kinds per pair (k <= 5), and of all outcomes
Pow(b, e) == IF e = 0 THEN 1 ELSE b^e
RECURSIVE Comb(_, _)
Comb(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Comb(n - 1, k - 1) + Comb(n - 1, k)
Tri(k) == (k * (k - 1)) \div 2
RECURSIVE ConnCount(_, _), ConnSum(_, _, _)
ConnSum(k, r, i) ==  \* sum over the size i of the component of node 1
  IF i = 0 THEN 0
  ELSE ConnSum(k, r, i - 1) + Comb(k - 1, i - 1) * ConnCount(i, r) * Pow(r + 1, Tri(k - i))
ConnCount(k, r) == IF k = 0 THEN 1 ELSE Pow(r + 1, Tri(k)) - ConnSum(k, r, k - 1)
RECURSIVE ProdVals(_, _)
ProdVals(voc, V) == IF V = {} THEN 1
                    ELSE LET v == CHOOSE x \in V : TRUE IN Cardinality(voc.vars[v]) * ProdVals(voc, V \ {v})
RECURSIVE SumOver(_, _)
SumOver(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE y \in D : TRUE IN f[x] + SumOver(f, D \ {x})
OutcomeCount(voc) ==
  LET S == (SUBSET DOMAIN voc.vars) \ {{}}
      f == [V \in S |-> ProdVals(voc, V) * ConnCount(Cardinality(V), Cardinality(voc.rels))]
  IN SumOver(f, S)
=============================================================================
