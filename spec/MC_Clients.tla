----------------------------- MODULE MC_Clients -----------------------------
(* Series of coin tosses, growing one at a time: the network described by the series. *)
EXTENDS Clients, Json
CONSTANTS MaxTosses
VARIABLE T
C3 == {Coins[i] : i \in DOMAIN Coins}
Words == {<<c, s>> : c \in C3, s \in {"H", "T"}} \cup {<<c, s, "then", d, t>> : c \in C3, s \in {"H", "T"}, d \in C3, t \in {"H", "T"}}
Init == T = <<>>
Next == Len(T) < MaxTosses /\ \E w \in Words : T' = Append(T, w)
Spec == Init /\ [][Next]_T
TossVoc == [vars |-> TossVars, rels |-> {"r1", "r2"}]
\* every series without a coin tossed against itself describes a network in which every toss counts once
WellDescribed == TossesOk(T) => LET B == TossBag(T) IN
  /\ Total(B) = Len(T)
  /\ \A s \in DOMAIN B : InVoc(TossVoc, s) /\ WellFormed(s) /\ SingleValued(s)
  /\ \A i \in DOMAIN T : Toss(T[i]) \in DOMAIN B
\* the order of the series does not matter, the order within a toss does
Unordered == (Len(T) = 2 /\ TossesOk(T)) =>
  /\ TossBag(T) = TossBag(<<T[2], T[1]>>)
  /\ (Len(T[1]) = 5 => TossBag(T) # TossBag(<<<<T[1][4], T[1][5], "then", T[1][1], T[1][2]>>, T[2]>>))
ASSUME \A n \in 2..3 : Cardinality(SubGraphs(n)) = (IF n = 2 THEN 2 ELSE 26)
ASSUME LET B == CpdTable([v |-> "c", ps |-> <<"a", "b">>, pcards |-> <<2, 3>>, rows |-> <<<<1, 2, 3, 4, 5, 6>>, <<7, 8, 9, 10, 11, 12>>>>])
       IN Cardinality(DOMAIN B) = 12 /\ Total(B) = 78 /\ CompleteTables(B)
          /\ MassOf(B, ValNode("a", 0)) = 30 /\ MassOf(B, ValNode("b", 2)) = 30 /\ MassOf(B, ValNode("c", 1)) = 57
ASSUME LET B == PairNet(<<<<<<"A", "B">>, <<1, 2, 3, 4>>>>, <<<<"B", "C">>, <<5, 6, 7, 8>>>>>>)
       IN Total(B) = 36 /\ CompleteTables(B) /\ ConnectedFactors(B) /\ MassOf(B, ValNode("B", 1)) = 21
Emit == PrintT(<<"PLAN", ToJson(T)>>)
=============================================================================
