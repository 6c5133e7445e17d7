----------------------------- MODULE MC_GameLoop -----------------------------
(* Every game of at most MaxMoves moves, with every combination of listeners and a fault at every possible point. *)
EXTENDS GameLoop, Json
CONSTANTS MaxN, MaxMoves
VARIABLES cfg, m, log
vars == <<cfg, m, log>>
Cfgs == UNION {[n : {n}, null : {{}} \cup {{n}}, reg : {{}, {1}, 1..n}, obs : {{}, {n}}, fin : {{}, 1..n}, first : {1, n},
                catch : BOOLEAN, limit : {"none", "warn", "total"}, w : {1}] : n \in 1..MaxN}
Init == /\ cfg \in {c \in Cfgs : (c.limit # "none" => c.catch) /\ c.null \cap (c.reg \cup c.obs \cup c.fin) = {}}
        /\ m = Settle(cfg, Begin(cfg)) /\ log = <<>>
Next == /\ m.pc # "end"
        /\ \E out \in Outs(m.pc) :
             /\ (out = "timeout" => cfg.catch)
             /\ (m.pc = "process" /\ m.moves >= MaxMoves => out = "over")
             /\ m' = After(cfg, m, out)
             /\ log' = Append(log, <<m.pc, Want(cfg, m)[2], out>>)
        /\ cfg' = cfg
Spec == Init /\ [][Next]_vars

Of(kind) == SelectSeq(log, LAMBDA x : x[1] = kind)
\* moves are taken in turn from the first agent on
InTurn == \A j \in DOMAIN Of("apply") : Of("apply")[j][2] = ((cfg.first - 1 + j - 1) % cfg.n) + 1
\* nobody moves before every listener knows the start
StartFirst == \A j \in DOMAIN log : log[j][1] = "act" => \A i \in cfg.reg : \E k \in 1..(j - 1) : log[k] = <<"start", i, "ok">>
\* a fault is the last thing that happens to the agents
FaultEnds == \A j \in DOMAIN log : log[j][3] \in {"raise", "timeout"} => \A k \in (j + 1)..Len(log) : log[k][1] = "crash"
Blamed == m.crashed # 0 => log[Len(log)] = <<"crash", m.crashed, "ok">>
                           /\ (m.crashed \in cfg.null \/ log[Len(log) - 1][2] = m.crashed)
Outcome == m.pc = "end" => (m.clean /\ m.crashed = 0 /\ ~m.raised) \/ (~m.clean /\ (m.crashed # 0 \/ m.raised))
Told == m.clean => \A i \in cfg.fin : Cardinality({j \in DOMAIN log : log[j][1] = "final" /\ log[j][2] = i}) = 1
OverOnce == Cardinality({j \in DOMAIN log : log[j][3] = "over"}) <= 1
History == Len(m.hist) = m.moves /\ \A j \in DOMAIN m.hist : m.hist[j] = Of("apply")[j][2]
Emit == m.pc = "end" => PrintT(<<"PLAN", ToJson([cfg |-> cfg, log |-> log])>>)
Halts == <>(m.pc = "end")
Fair == Spec /\ WF_vars(Next)
=============================================================================
