------------------------------ MODULE MC_Keys ------------------------------
(* Every short session at a keyboard with two keys and a mouse; read steps are emitted to be asked of the code. *)
EXTENDS Screen, Json
CONSTANTS MaxLen
VARIABLES kb, hist
vars == <<kb, hist>>
Keys == {"a", "Left"}
Evs == {<<"press", x>> : x \in Keys} \cup {<<"release", x>> : x \in Keys} \cup {<<"focus">>}
Clk == {<<"click", "left", 3, 4>>, <<"click", "right", 5, 6>>}
Reads == {<<"read", x>> : x \in {"pressed", "fresh", "wait", "click"}}
Init == kb = NoKeys /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E v \in Evs \cup Clk : kb' = Event(kb, v) /\ hist' = Append(hist, v)
           \/ kb' = ReadFresh(kb) /\ hist' = Append(hist, <<"read", "fresh">>)
           \/ kb' = kb /\ hist' = Append(hist, <<"read", "pressed">>)
           \/ kb.down # {} /\ kb' = kb /\ hist' = Append(hist, <<"read", "wait">>)
           \/ \E b \in Buttons : kb.at[b] # <<>> /\ kb' = [kb EXCEPT !.at[b] = <<>>] /\ hist' = Append(hist, <<"read", "click">>)
Spec == Init /\ [][Next]_vars
LastAt(P(_)) == LET S == {j \in DOMAIN hist : P(hist[j])} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A i \in S : i <= j
\* a key is held exactly if it was pressed after its latest release and after the latest loss of focus
Held == \A x \in Keys : LET p == LastAt(LAMBDA v : v = <<"press", x>>) IN
   x \in kb.down <=> p > LastAt(LAMBDA v : v = <<"release", x>> \/ v = <<"focus">>)
\* a key is news exactly if it was pressed after the latest reading of news and loss of focus
News == \A x \in Keys : LET p == LastAt(LAMBDA v : v = <<"press", x>>) IN
   x \in kb.fresh <=> p > LastAt(LAMBDA v : v = <<"read", "fresh">> \/ v = <<"focus">>)
Shape(v) == IF v[1] = "click" THEN <<"click", IF v[2] = "left" THEN "<Button-1>" ELSE "<Button-3>", v[3], v[4]>> ELSE v
Emit == (hist # <<>> /\ hist[Len(hist)][1] = "read" /\ \E j \in DOMAIN hist : hist[j][1] # "read")
          => PrintT(<<"PLAN", ToJson([j \in DOMAIN hist |-> Shape(hist[j])])>>)
=============================================================================
