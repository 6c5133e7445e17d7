------------------------------- MODULE MC_Bags -------------------------------
(* Sets of up to MaxSize outcomes out of a small pool that contains single nodes, overlapping and disjoint
   pairs, triangles and their sides.  Grouping, factorisation and joining on variables are checked on all of them. *)
EXTENDS Inference, Json
CONSTANT MaxSize
E2(x, y, r) == [ep |-> {x, y}, rel |-> <<r>>]
G(E) == [nodes |-> NodesOf(E), edges |-> E]
A1 == <<"a", "1">>
A2 == <<"a", "2">>
B1 == <<"b", "1">>
B2 == <<"b", "2">>
C1 == <<"c", "1">>
D1 == <<"d", "1">>
Voc == [vars |-> ("a" :> {"1", "2"}) @@ ("b" :> {"1", "2"}) @@ ("c" :> {"1"}) @@ ("d" :> {"1"}), rels |-> {"r", "q"}]
Pool == <<Single(A1), Single(A2), Single(B1), Single(C1),
          G({E2(A1, B1, "r")}), G({E2(A2, B1, "r")}), G({E2(A1, B2, "q")}),
          G({E2(B1, C1, "r")}), G({E2(A1, C1, "r")}), G({E2(C1, D1, "r")}),
          G({E2(A1, B1, "r"), E2(B1, C1, "r")}), G({E2(A2, C1, "r"), E2(C1, B1, "r")}),
          G({E2(A1, B1, "q"), E2(B1, C1, "q"), E2(A1, C1, "q")}), Empty>>
VARIABLE bag
Init == bag = EmptyBag
Next == /\ Cardinality(DOMAIN bag) < MaxSize
        /\ \E i \in DOMAIN Pool :
             /\ Pool[i] \notin DOMAIN bag
             /\ bag' = BagAdd(bag, Pool[i], 1 + ((i * i) % 3))
Spec == Init /\ [][Next]_bag

Partition(Bs) == /\ UNION {DOMAIN g : g \in Bs} = DOMAIN bag
                 /\ \A g, h \in Bs : g # h => DOMAIN g \cap DOMAIN h = {}
                 /\ \A g \in Bs : g # EmptyBag /\ SubBag(g, bag)
GroupLaws == /\ Partition(Groups(bag))
             /\ \A g, h \in Groups(bag) : g # h => \A s \in DOMAIN g, t \in DOMAIN h : GroupKey(s) \cap GroupKey(t) = {}
FactorLaws == IsFactorized(bag) => /\ Partition(Factors(bag))
                                 /\ Factors(bag) = Groups(bag)     \* in a factorised bag groups are the factors
JoinLaws == \A v \in BagVars(bag) : JoinStepOk(bag, v) =>
  LET J == JoinStep(bag, v) IN
  /\ \A s \in DOMAIN bag : v \notin VarsOf(s) => Count(J, s) >= bag[s]
  /\ \A s \in DOMAIN J : WellFormed(s) /\ (v \in VarsOf(s) => \E t \in DOMAIN bag : v \in VarsOf(t) /\ IsSub(t, s))
  /\ JoinStepOk(J, v) => JoinStep(J, v) = J \/ Cardinality(Groups(BagKeep(J, {s \in DOMAIN J : v \in VarsOf(s)}))) > 1
CondLaws == \A e \in Rng(Pool) : LET X == Condition(bag, e) IN SubBag(X, bag) /\ Condition(X, e) = X
MassLaws == \A v \in BagVars(bag) : MassVar(bag, v) = SumOver([x \in BagValues(bag, v) |-> MassOf(bag, <<v, x>>)], BagValues(bag, v))
Emit == bag # EmptyBag => PrintT(<<"PLAN", ToJson([voc |-> Voc.vars, net |-> {<<s, bag[s]>> : s \in DOMAIN bag}])>>)
=============================================================================
