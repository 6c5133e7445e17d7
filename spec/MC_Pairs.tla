------------------------------ MODULE MC_Pairs ------------------------------
(* All samples over a small vocabulary (plain and directed relations), one state per sample.  The laws of
   equality, subgraph, similarity, neighbourhoods, replacement, projection and conditioning are checked on every
   sample and pair of samples; every state is printed as an input for the implementation.                    *)
EXTENDS Inference, Json

Voc == [vars |-> ("a" :> {"1", "2"}) @@ ("b" :> {"1"}) @@ ("c" :> {"1"}), rels |-> {"r", "q"}]
RelsOf(p) == {<<"r">>, <<"q">>} \cup (IF {n[1] : n \in p} = {"a", "b"} THEN {<<"r", "a", "b">>, <<"r", "b", "a">>} ELSE {})
RECURSIVE ESets(_)
ESets(Ps) == IF Ps = {} THEN {{}}
             ELSE LET p == CHOOSE x \in Ps : TRUE
                      R == ESets(Ps \ {p})
                  IN R \cup {E \cup {[ep |-> p, rel |-> r]} : E \in R, r \in RelsOf(p)}
Over(N) == {[nodes |-> N, edges |-> E] : E \in {X \in ESets(PairsOf(N)) : Connected(N, X)}}
All == TLCEval({Empty} \cup UNION {Over(N) : N \in UNION {Choices(Voc, V) : V \in (SUBSET DOMAIN Voc.vars) \ {{}}}})

VARIABLE s
Init == s \in All
Next == UNCHANGED s
Spec == Init /\ [][Next]_s

Ok == WellFormed(s) /\ InVoc(Voc, s) /\ SingleValued(s)
SimLaws == \A t \in All :
  /\ SimNum(s, t) * SimDen(t, s) = SimNum(t, s) * SimDen(s, t)
  /\ 0 <= SimNum(s, t) /\ SimNum(s, t) <= SimDen(s, t)
  /\ (SimNum(s, t) = SimDen(s, t)) <=> (s = t)
  /\ (SimNum(s, t) = 0) <=> (s.nodes \cap t.nodes = {} /\ s.edges \cap t.edges = {} /\ ~(s = Empty /\ t = Empty))
SubLaws == \A t \in All :
  /\ (IsSub(s, t) /\ IsSub(t, s)) <=> (s = t)
  /\ IsSub(s, t) => \A u \in All : IsSub(t, u) => IsSub(s, u)
  /\ IsSub(s, t) => SharedSize(s, t) = Size(s)
Flts == {<<>>, <<{<<"r">>}>>, <<{<<"q">>, <<"r", "a", "b">>}>>}
\* external nodes are exactly the reachable ones, with exactly the relations towards strictly closer nodes
Dist(C, flt, n) == CHOOSE k \in 0..4 : n \in Layers(s, C, flt, k) /\ (k = 0 \/ n \notin Layers(s, C, flt, k - 1))
ExtLaws == \A C \in (SUBSET s.nodes) \ {{}}, flt \in Flts :
  LET X == ExternalPairs(s, C, flt)
      R == Layers(s, C, flt, 4)
  IN X = {<<n, e>> \in (R \ C) \X s.edges :
            /\ n \in e.ep /\ Admits(flt, e.rel)
            /\ \E m \in e.ep : m # n /\ m \in R /\ Dist(C, flt, m) < Dist(C, flt, n)}
ReplaceLaws == \A v \in DOMAIN Voc.vars : \A x \in Voc.vars[v] :
  LET t == Replace(s, v :> x) IN
  /\ t \in All
  /\ v \in VarsOf(s) => <<v, x>> \in t.nodes
  /\ \A y \in ValuesOf(s, v) : Replace(t, v :> y) = s
ProjectLaws == /\ Project(s, VarsOf(s)) = [n |-> s.nodes, e |-> s.edges]
               /\ Project(s, {}) = [n |-> {}, e |-> {}]
CondLaws == \A t \in All : LET B == (t :> 1) IN Condition(Condition(B, s), s) = Condition(B, s)
Emit == PrintT(<<"PLAN", ToJson([voc |-> Voc.vars, all |-> All, ev |-> s])>>)
=============================================================================
