------------------------------- MODULE Clients -------------------------------
(* The networks which the examples, experiments and the playground describe in terms of their own. *)
EXTENDS Inference

\* ---------------------------------------------------------------- coin tosses: words <<coin, side>> or <<coin, side, _, coin, side>>
Coins == <<"1c", "5c", "25c">>
CoinNo(w) == CHOOSE i \in DOMAIN Coins : Coins[i] = w
IsToss(c, s) == c \in {Coins[i] : i \in DOMAIN Coins} /\ s \in {"H", "T"}
TossNode(c, s) == <<"V" \o ToString(CoinNo(c)), (IF s = "H" THEN "h" ELSE "t") \o ToString(CoinNo(c))>>
TossOk(ws) == \/ Len(ws) = 2 /\ IsToss(ws[1], ws[2])
              \/ Len(ws) = 5 /\ IsToss(ws[1], ws[2]) /\ IsToss(ws[4], ws[5]) /\ ws[1] # ws[4]
Toss(ws) ==
  IF Len(ws) = 2 THEN Single(TossNode(ws[1], ws[2]))
  ELSE LET a == TossNode(ws[1], ws[2])
           b == TossNode(ws[4], ws[5])
       IN [nodes |-> {a, b}, edges |-> {[ep |-> {a, b}, rel |-> <<IF CoinNo(ws[1]) < CoinNo(ws[4]) THEN "r1" ELSE "r2">>]}]
TossesOk(T) == T # <<>> /\ \A i \in DOMAIN T : TossOk(T[i])
TossBag(T) == LET S == {Toss(T[i]) : i \in DOMAIN T}
              IN [s \in S |-> Cardinality({i \in DOMAIN T : Toss(T[i]) = s})]
TossVars == [v \in {"V1", "V2", "V3"} |->
               CASE v = "V1" -> {"h1", "t1"} [] v = "V2" -> {"h2", "t2"} [] v = "V3" -> {"h3", "t3"}]

\* ---------------------------------------------------------------- factors as tables
ValName(v, i) == v \o "(" \o ToString(i) \o ")"
ValNode(v, i) == <<v, ValName(v, i)>>
\* a pair of variables and the counts of (0,0), (0,1), (1,0), (1,1)
PairTable(e) == LET row(i, j) == [nodes |-> {ValNode(e[1][1], i), ValNode(e[1][2], j)},
                                  edges |-> {[ep |-> {ValNode(e[1][1], i), ValNode(e[1][2], j)}, rel |-> <<"r">>]}]
                IN [s \in {row(i, j) : i, j \in 0..1} |-> LET p == CHOOSE p \in (0..1) \X (0..1) : row(p[1], p[2]) = s
                                                          IN e[2][2 * p[1] + p[2] + 1]]
PairNet(es) == BagSumSeq([i \in DOMAIN es |-> PairTable(es[i])])
\* a variable, its number of values, its parents and theirs, and the counts: one list per value, one entry per
\* combination of the parents' values, the last parent's changing fastest
RECURSIVE Combo(_, _)
Combo(k, cards) == IF cards = <<>> THEN <<>>
                   ELSE LET n == cards[Len(cards)] IN Append(Combo(k \div n, SubSeq(cards, 1, Len(cards) - 1)), k % n)
CpdRow(t, i, k) == LET q == Combo(k - 1, t.pcards)
                       me == ValNode(t.v, i - 1)
                       par(j) == ValNode(t.ps[j], q[j])
                   IN [nodes |-> {me} \cup {par(j) : j \in DOMAIN t.ps},
                       edges |-> {[ep |-> {me, par(j)}, rel |-> <<"r", t.ps[j], t.v>>] : j \in DOMAIN t.ps}]
CpdTable(t) == LET I == {<<i, k>> : i \in DOMAIN t.rows, k \in DOMAIN t.rows[1]}
               IN [s \in {CpdRow(t, p[1], p[2]) : p \in I} |-> LET p == CHOOSE p \in I : CpdRow(t, p[1], p[2]) = s IN t.rows[p[1]][p[2]]]
CpdNet(ts) == BagSumSeq([i \in DOMAIN ts |-> CpdTable(ts[i])])

\* ---------------------------------------------------------------- all graphs over n nodes, each pair unrelated or related in one of two ways
NodePairs(n) == {{i, j} : i, j \in 1..n} \ {{i} : i \in 1..n}
Assignments(n) == [NodePairs(n) -> {"-", "AB", "BA"}]
Related(f) == {p \in DOMAIN f : f[p] # "-"}
SubGraph(f) == [nodes |-> UNION Related(f), edges |-> {<<p, f[p]>> : p \in Related(f)}]
SubGraphs(n) == {SubGraph(f) : f \in {g \in Assignments(n) : Related(g) # {}}}
=============================================================================
