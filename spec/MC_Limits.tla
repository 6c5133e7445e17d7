------------------------------ MODULE MC_Limits ------------------------------
(* Every short history of limited calls (up to two inside each other) and of muting. *)
EXTENDS Limits, Json
CONSTANTS MaxLen
VARIABLES m, hist
vars == <<m, hist>>
Do(s, n) == m' = s /\ hist' = Append(hist, n)
Init == m = Idle /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \/ \E n \in {2, 30} : Len(m.calls) < 2 /\ Do(Enter(m, n), <<"enter", n>>)
           \/ \E o \in {"value", "raise"} : m.calls # <<>> /\ Do(Exit(m), <<"exit", o>>)
           \/ m.calls # <<>> /\ m.armed /\ Do(Exit(m), <<"exit", "expired">>)
           \/ m.calls = <<>> /\ \/ Do(Muted(m), <<"mute">>) \/ Do(Unmuted(m), <<"unmute">>)
                                \/ ~m.muted /\ Do(Redirect(m, 1 - m.out), <<"redirect", 1 - m.out>>)
Spec == Init /\ [][Next]_vars
Quiet == m.calls = <<>> => ~m.armed                 \* nothing is left behind
Paired == Len(m.calls) = Len(SelectSeq(hist, LAMBDA v : v[1] = "enter")) - Len(SelectSeq(hist, LAMBDA v : v[1] = "exit"))
\* printing is back exactly if it was muted never, or given back after it was muted last; and where it was before
LastOf(S) == CHOOSE j \in S : \A i \in S : i <= j
Back == LET S == {j \in DOMAIN hist : hist[j][1] \in {"mute", "unmute"}}
            R == {j \in DOMAIN hist : hist[j][1] = "redirect"} IN
        /\ m.muted <=> (S # {} /\ hist[LastOf(S)][1] = "mute")
        /\ m.out = IF R = {} THEN 0 ELSE hist[LastOf(R)][2]
Emit == (Len(hist) = MaxLen /\ m.calls = <<>>) => PrintT(<<"PLAN", ToJson(hist)>>)
=============================================================================
