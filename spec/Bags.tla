-------------------------------- MODULE Bags --------------------------------
(* Multisets of samples: functions sample -> count (count >= 1). *)
EXTENDS Graphs

EmptyBag == [s \in {} |-> 0]
Keys(B) == DOMAIN B
Count(B, s) == IF s \in DOMAIN B THEN B[s] ELSE 0
Total(B) == SumOver(B, DOMAIN B)
BagAdd(B, s, c) == [t \in DOMAIN B \cup {s} |-> IF t = s THEN Count(B, s) + c ELSE B[t]]
BagSum(A, B) == [t \in DOMAIN A \cup DOMAIN B |-> Count(A, t) + Count(B, t)]
BagDrop(B, S) == [t \in DOMAIN B \ S |-> B[t]]
BagKeep(B, S) == [t \in DOMAIN B \cap S |-> B[t]]
RECURSIVE BagSumSeq(_)
BagSumSeq(q) == IF q = <<>> THEN EmptyBag ELSE BagSum(Head(q), BagSumSeq(Tail(q)))
SubBag(A, B) == \A s \in DOMAIN A : s \in DOMAIN B /\ A[s] = B[s]
BagVars(B) == UNION {VarsOf(s) : s \in DOMAIN B}
BagValues(B, v) == UNION {ValuesOf(s, v) : s \in DOMAIN B}
BagRels(B) == UNION {{e.rel : e \in s.edges} : s \in DOMAIN B}

\* join of two bags: all compatible pairs, united, counts multiplied (pairs with the same union add up)
PairSum(A, B, P, u) == SumOver([p \in {q \in P : Union2(q[1], q[2]) = u} |-> A[p[1]] * B[p[2]]],
                               {q \in P : Union2(q[1], q[2]) = u})
BagJoin(A, B) ==
  LET P == {p \in (DOMAIN A) \X (DOMAIN B) : Compat(p[1], p[2])}
      U == {Union2(p[1], p[2]) : p \in P}
  IN IF Cardinality(U) = Cardinality(P)
     THEN [u \in U |-> LET p == CHOOSE q \in P : Union2(q[1], q[2]) = u IN A[p[1]] * B[p[2]]]
     ELSE [u \in U |-> PairSum(A, B, P, u)]
UnitBag == [s \in {Empty} |-> 1]
RECURSIVE BagJoinAll(_)
BagJoinAll(Bs) == IF Bs = {} THEN UnitBag
                  ELSE LET B == CHOOSE x \in Bs : TRUE IN BagJoin(B, BagJoinAll(Bs \ {B}))
=============================================================================
