----------------------------- MODULE MC_Builder -----------------------------
(* Exhaustive model of one sample builder over a small vocabulary, with valid and invalid calls.
   Every transition of the state graph is printed as a behaviour (the history that reaches its source plus the
   call itself), to be replayed into the implementation.                                                   *)
EXTENDS SampleBuilder, Json

CONSTANT Mode     \* "add": relations only; "join": joins too

Voc == [vars |-> ("a" :> {"1", "2"}) @@ ("b" :> {"1"}) @@ ("c" :> {"1"}), rels |-> {"r", "q"}]
VNodes == VocNodes(Voc)
Foreign == {<<"a", "9">>, <<"z", "1">>}
Plain == {<<"r">>, <<"q">>}
GoodPairs == {p \in PairsOf(VNodes) : ValidPair(p)}
BadPairs == ({p \in PairsOf(VNodes) : ~ValidPair(p)}
            \cup {{n} : n \in {<<"b", "1">>}} \cup {{<<"a", "1">>, <<"b", "1">>, <<"c", "1">>}}
            \cup {{n, m} : n \in Foreign, m \in {<<"b", "1">>}})
RelsFor(p) == Plain \cup (IF {n[1] : n \in p} = {"a", "b"} THEN {<<"r", "a", "b">>, <<"r", "b", "a">>} ELSE {})
BadRels == {<<"w">>, <<"r", "c", "z">>}
Pool == {s \in AllOutcomes([vars |-> Voc.vars, rels |-> {"r", "q"}]) :
            Cardinality(s.nodes) <= 2 \/ (Cardinality(s.nodes) = 3 /\ \A e \in s.edges : e.rel = <<"r">>)} \cup {Empty}

VARIABLES b, hist
vars == <<b, hist>>
View == b

Add(ep, rel) == /\ b' = IF CanAdd(Voc, b, ep, rel) THEN DoAdd(b, ep, rel) ELSE b
                /\ hist' = Append(hist, [op |-> "add", ep |-> ep, rel |-> rel])
AddEdges(E) == /\ b' = IF CanAddEdges(Voc, b, E, TRUE) THEN DoAddEdges(b, E) ELSE b
               /\ hist' = Append(hist, [op |-> "edges", es |-> E])
Join(s) == /\ b' = IF CanJoin(b, s) THEN DoJoin(b, s) ELSE b
           /\ hist' = Append(hist, [op |-> "join", s |-> s])
Init == b = Empty /\ hist = <<>>
SomeEdges == {{[ep |-> p, rel |-> x], [ep |-> q, rel |-> y]} :
                 p \in GoodPairs, q \in GoodPairs, x \in {<<"r">>}, y \in {<<"r">>, <<"q">>}}
Next == \/ Mode = "add" /\ \E p \in GoodPairs : \E r \in RelsFor(p) : Add(p, r)
        \/ Mode = "add" /\ \E p \in BadPairs : Add(p, <<"r">>)
        \/ Mode = "add" /\ \E p \in GoodPairs, r \in BadRels : Add(p, r)
        \/ Mode = "add" /\ \E E \in SomeEdges : AddEdges(E)
        \/ Mode = "join" /\ \E p \in GoodPairs : Add(p, <<"r">>)
        \/ Mode = "join" /\ \E s \in Pool : Join(s)
Spec == Init /\ [][Next]_vars

Bound == Cardinality(b.edges) <= 4
\* properties
TypeOK == InVoc(Voc, b)
Unambiguous == WellFormed(b)
\* what was accepted is never lost
Monotone == [][IsSub(b, b')]_b
\* every rejected call stutters and accepted ones grow the graph by what they were given
Emit == PrintT(<<"PLAN", ToJson(hist')>>)
=============================================================================
