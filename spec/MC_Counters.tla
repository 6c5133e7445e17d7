----------------------------- MODULE MC_Counters -----------------------------
(* The algebra of counters, over all pairs of counters with keys and integer counts in a range, and every history of
   MaxLen calls on two counters. *)
EXTENDS Counters, Json
CONSTANTS Keys, MaxLen
Vals == {0, -1, 2}
VARIABLES a, b, hist
vars == <<a, b, hist>>
Ints == {Q(v, 1) : v \in Vals}
Init == /\ a \in UNION {[K -> Ints] : K \in SUBSET Keys} /\ b \in UNION {[K -> Ints] : K \in SUBSET Keys}
        /\ hist = <<<<"init", [x \in DOMAIN a |-> a[x][1]], [x \in DOMAIN b |-> b[x][1]]>>>>
Do(h, x, y) == hist' = Append(hist, h) /\ a' = x /\ b' = y
Next == /\ Len(hist) <= MaxLen
        /\ \/ Do(<<"add">>, Plus(a, b), b)
           \/ Do(<<"sub">>, Minus(a, b), b)
           \/ Do(<<"norm">>, Normal(a), b)
           \/ Do(<<"divide">>, Over(a, Q(2, 1)), b)
           \/ Do(<<"swap">>, b, a)
           \/ \E x \in Keys : Do(<<"inc", x>>, IncAll(a, <<x, "k1">>, Q(2, 1)), b)
           \/ \E x \in Keys : Do(<<"set", x>>, Set(a, x, Q(-1, 1)), b)
Spec == Init /\ [][Next]_vars
Unit == TotalOf(a) # Zero => TotalOf(Normal(a)) = Q(1, 1)
Additive == TotalOf(Plus(a, b)) = QAdd(TotalOf(a), TotalOf(b)) /\ Same(Plus(a, b), Plus(b, a)) /\ Same(Minus(Plus(a, b), b), a)
DotLaw == Dot(a, b) = Dot(b, a) /\ Dot(Plus(a, b), b) = QAdd(Dot(a, b), Dot(b, b))
MaxLaw == DOMAIN a # {} => \E x \in DOMAIN a : IsMax(a, x) /\ (TotalOf(a) = Zero \/ ~QLess(Zero, TotalOf(a)) \/ IsMax(Normal(a), x))
Emit == Len(hist) = MaxLen + 1 => PrintT(<<"PLAN", ToJson(hist)>>)
=============================================================================
