------------------------------- MODULE MC_Enum -------------------------------
(* The enumeration of a vocabulary against the closed formula for its size, for all small vocabularies. *)
EXTENDS Graphs, Json
CONSTANT MaxVals, MaxRels
VARIABLES n1, n2, n3, nr
Init == n1 \in 1..MaxVals /\ n2 \in 0..MaxVals /\ n3 \in 0..MaxVals /\ nr \in 1..MaxRels /\ n2 <= n1 /\ n3 <= n2
Next == UNCHANGED <<n1, n2, n3, nr>>
Spec == Init /\ [][Next]_<<n1, n2, n3, nr>>
Num(k) == {ToString(i) : i \in 1..k}
Voc == [vars |-> [v \in {x \in {"a", "b", "c"} : (x = "a") \/ (x = "b" /\ n2 > 0) \/ (x = "c" /\ n3 > 0)} |->
                    Num(IF v = "a" THEN n1 ELSE IF v = "b" THEN n2 ELSE n3)], rels |-> Num(nr)]
Counted == LET A == AllOutcomes(Voc) IN
  /\ Cardinality(A) = OutcomeCount(Voc)
  /\ \A s \in A : WellFormed(s) /\ SingleValued(s) /\ InVoc(Voc, s) /\ s # Empty
Emit == PrintT(<<"PLAN", ToJson(Voc)>>)
=============================================================================
