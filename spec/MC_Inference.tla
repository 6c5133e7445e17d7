---------------------------- MODULE MC_Inference ----------------------------
(* Inference on a network as a transition system: evidence arrives node by node, and at some point the factors are
   joined.  Whatever the interleaving, the result is the posterior of the product of the factors.            *)
EXTENDS Inference, Json
CONSTANT MaxEv, Weights, Kinds
Vals == {"0", "1"}
Edge(n, m) == [ep |-> {n, m}, rel |-> <<"r">>]
Row2(v, x, w, y) == [nodes |-> {<<v, x>>, <<w, y>>}, edges |-> {Edge(<<v, x>>, <<w, y>>)}]
Row3(x, y, z) == [nodes |-> {<<"a", x>>, <<"b", y>>, <<"c", z>>},
                  edges |-> {Edge(<<"a", x>>, <<"b", y>>), Edge(<<"b", y>>, <<"c", z>>), Edge(<<"a", x>>, <<"c", z>>)}]
N(x) == IF x = "1" THEN 1 ELSE 0
\* deterministic small tables
Cnt(w, i, j, k) == 1 + ((w * (1 + 2 * i + 3 * j) + i * j + 5 * k) % 4)
T2(v, u, w, k) == [s \in {Row2(v, x, u, y) : x \in Vals, y \in Vals} |->
                    LET x == CHOOSE q \in Vals : <<v, q>> \in s.nodes
                        y == CHOOSE q \in Vals : <<u, q>> \in s.nodes IN Cnt(w, N(x), N(y), k)]
T1(v, w) == [s \in {Single(<<v, x>>) : x \in Vals} |-> IF <<v, "1">> \in s.nodes THEN 1 + w ELSE 2]
T3(w) == [s \in {Row3(x, y, z) : x \in Vals, y \in Vals, z \in Vals} |->
            Cnt(w, IF <<"a", "1">> \in s.nodes THEN 1 ELSE 0, IF <<"b", "1">> \in s.nodes THEN 1 ELSE 0,
                   IF <<"c", "1">> \in s.nodes THEN 1 ELSE 0)]
\* a conditional distribution of c given a and b
C3(w) == [s \in {Row3(x, y, z) : x \in Vals, y \in Vals, z \in Vals} |->
            LET k == 1 + ((w + (IF <<"a", "1">> \in s.nodes THEN 2 ELSE 0) + (IF <<"b", "1">> \in s.nodes THEN 1 ELSE 0)) % 4)
            IN IF <<"c", "1">> \in s.nodes THEN k ELSE 5 - k]
Net(kind, w) ==
  CASE kind = "prior" -> BagSumSeq(<<T1("a", w), T2("a", "b", w, 0)>>)
    [] kind = "chain" -> BagSumSeq(<<T2("a", "b", w, 0), T2("b", "c", w, 1)>>)
    [] kind = "triangle" -> BagSumSeq(<<T2("a", "b", w, 0), T2("b", "c", w, 1), T2("a", "c", w, 2)>>)
    [] kind = "table" -> T3(w)
    [] kind = "collider" -> BagSumSeq(<<T1("a", w), T1("b", w + 1), T3(w)>>)
    [] kind = "tail" -> BagSumSeq(<<T3(w), T2("c", "d", w, 1)>>)
    [] kind = "vee" -> BagSumSeq(<<T1("a", w), T1("b", w + 1), C3(w), T2("c", "d", w, 1)>>)
    [] kind = "fork" -> BagSumSeq(<<T2("a", "b", w, 0), T2("a", "c", w, 1)>>)
    [] kind = "square" -> BagSumSeq(<<T2("a", "b", w, 0), T2("b", "c", w, 1), T2("c", "d", w, 2), T2("a", "d", w, 3)>>)

VARIABLES src, cur, ev, joined, hist
vars == <<src, cur, ev, joined, hist>>
Init == /\ \E k \in Kinds, w \in Weights : src = TLCEval(Net(k, w))
        /\ cur = src /\ ev = {} /\ joined = FALSE /\ hist = <<>>
Evidence(n) == /\ Cardinality(ev) < MaxEv
               /\ \A m \in ev : m[1] # n[1]
               /\ cur' = Condition(cur, Single(n)) /\ ev' = ev \cup {n}
               /\ hist' = Append(hist, [a |-> "ev", n |-> n])
               /\ UNCHANGED <<src, joined>>
Join == /\ ~joined /\ joined' = TRUE
        /\ cur' = ProductJoint(cur)
        /\ hist' = Append(hist, [a |-> "join"])
        /\ UNCHANGED <<src, ev>>
Next == Join \/ \E v \in BagVars(src), x \in Vals : Evidence(<<v, x>>)
Spec == Init /\ [][Next]_vars

Complete == CompleteTables(src) /\ ConnectedFactors(src)
StillComplete == ~joined => CompleteTables(cur) /\ ConnectedFactors(cur)
Exact == joined => cur = Posterior(src, ev) /\ cur # EmptyBag
\* eliminating the variables one by one, in any order, is the product of the factors
OrderFree == (~joined /\ Cardinality(BagVars(src)) <= 3) => JointResults(cur) = {<<ProductJoint(cur)>>}
Normalised == joined => \A v \in BagVars(cur) : MassVar(cur, v) = Total(cur)
\* separated variables are independent given the evidence, whatever the tables
Independent ==
  joined => \A v, w \in BagVars(src) : Separated(src, v, w, {n[1] : n \in ev}) =>
    \A x, y \in Vals : MassOf(RowsWith(cur, <<w, y>>), <<v, x>>) * Total(cur) = MassOf(cur, <<v, x>>) * MassOf(cur, <<w, y>>)
\* total probability: a marginal is the mixture of the posteriors
Mixture == joined => \A v, w \in BagVars(src), x \in Vals :
    MassOf(cur, <<v, x>>) = SumOver([y \in Vals |-> MassOf(RowsWith(cur, <<w, y>>), <<v, x>>)], Vals)
Emit == joined => PrintT(<<"PLAN", ToJson([voc |-> [v \in BagVars(src) |-> Vals],
                                           net |-> {<<s, src[s]>> : s \in DOMAIN src}, acts |-> hist])>>)
=============================================================================
