----------------------------- MODULE MC_Compass -----------------------------
(* Every short walk: turning the heading and stepping along it, by a half cell or a whole one. *)
EXTENDS Compass, Json
CONSTANTS MaxLen
VARIABLES p, h, hist
vars == <<p, h, hist>>
Turns == {"left", "right", "reverse"}
Init == p = [x |-> 10, y |-> 10, d |-> "Stop"] /\ h = "North" /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E t \in Turns : h' = Turned(t, h) /\ p' = p /\ hist' = Append(hist, <<t, 0>>)
           \/ \E v \in 0..2 : p' = Strode(p, v * DX(h), v * DY(h)) /\ h' = h /\ hist' = Append(hist, <<"step", v>>)
Spec == Init /\ [][Next]_vars
Rose == <<"North", "West", "South", "East">>
RECURSIVE Quarter(_)
Quarter(j) == IF j = 0 THEN 0 ELSE Quarter(j - 1) + (CASE hist[j][1] = "left" -> 1 [] hist[j][1] = "right" -> 3 [] hist[j][1] = "reverse" -> 2 [] OTHER -> 0)
RECURSIVE Sum(_, _)
Sum(j, f) == IF j = 0 THEN 0 ELSE Sum(j - 1, f) + f[j]
At(j) == Rose[(Quarter(j) % 4) + 1]
Speed(j) == IF hist[j][1] = "step" THEN hist[j][2] ELSE 0
\* the heading is the number of quarter turns, the place the sum of the steps, the direction that of the latest real step
Heading == h = At(Len(hist))
Place == /\ p.x = 10 + Sum(Len(hist), [j \in DOMAIN hist |-> Speed(j) * DX(At(j))])
         /\ p.y = 10 + Sum(Len(hist), [j \in DOMAIN hist |-> Speed(j) * DY(At(j))])
Looks == LET S == {j \in DOMAIN hist : Speed(j) > 0} IN p.d = IF S = {} THEN "Stop" ELSE At(CHOOSE j \in S : \A i \in S : i <= j)
\* turning back and taking the same step leads back
Back == \A a \in Dirs, v \in 0..2 : LET q == Strode(Strode(p, v * DX(a), v * DY(a)), v * DX(Rev(a)), v * DY(Rev(a))) IN q.x = p.x /\ q.y = p.y
Emit == Len(hist) = MaxLen => PrintT(<<"PLAN", ToJson(hist)>>)
M3 == {<<"x", "y", "x">>, <<"y", "y", "x">>}
ASSUME \A a, b \in M3 : LET m == <<a, b>> IN Transpose(Transpose(m)) = m /\ Len(Transpose(m)) = 3
        /\ \A c \in {"x", "y"} : CellsOf(Transpose(m), c) = {<<k[2], k[1]>> : k \in CellsOf(m, c)}
=============================================================================
