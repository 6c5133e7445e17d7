------------------------------ MODULE MC_Joint ------------------------------
(* All sub-networks of a small network (every subset of its rows): what variable elimination can give. *)
EXTENDS Inference, Json
CONSTANT Rows
Edge(n, m) == [ep |-> {n, m}, rel |-> <<"r">>]
Row2(v, x, w, y) == [nodes |-> {<<v, x>>, <<w, y>>}, edges |-> {Edge(<<v, x>>, <<w, y>>)}]
Vals == {"0", "1"}
AllRows == IF Rows = "chain" THEN {Row2("a", x, "b", y) : x \in Vals, y \in Vals} \cup {Row2("b", x, "c", y) : x \in Vals, y \in Vals}
           ELSE {Row2("a", x, "b", "0") : x \in Vals} \cup {Row2("b", "0", "c", y) : y \in Vals}
                \cup {Row2("a", x, "c", y) : x \in Vals, y \in Vals} \cup {Single(<<"a", "1">>)}
Cnt(s) == 1 + ((Cardinality({n \in s.nodes : n[2] = "1"}) + Cardinality({n \in s.nodes : n[1] = "a"})) % 3)
VARIABLE B
Init == \E S \in (SUBSET AllRows) \ {{}} : B = TLCEval([s \in S |-> Cnt(s)])
Next == UNCHANGED B
Spec == Init /\ [][Next]_B
Results == JointResults(B)
ProductIfComplete == CompleteTables(B) => Results = (IF ConnectedFactors(B) THEN {<<ProductJoint(B)>>} ELSE {<<>>})
\* whatever the order, results are made of whole rows, and are joint if all factors agree on the values
Sound == \A r \in Results : r # <<>> => \A s \in DOMAIN r[1] : WellFormed(s) /\ SingleValued(s)
                                           /\ s.edges = UNION {t.edges : t \in {u \in DOMAIN B : IsSub(u, s)}}
Emit == PrintT(<<"PLAN", ToJson([voc |-> [v \in {"a", "b", "c"} |-> Vals], net |-> {<<s, B[s]>> : s \in DOMAIN B}])>>)
=============================================================================
