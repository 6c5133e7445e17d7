------------------------------ MODULE MC_Budget ------------------------------
(* Every game of at most MaxMoves moves of agents with different time budgets, with every time a callback may take. *)
EXTENDS GameLoop, Json
CONSTANTS MaxMoves, MaxDt
VARIABLES cfg, m, log
vars == <<cfg, m, log>>
Cfgs == [n : {2}, null : {{}}, reg : {{}, {1}, {2}}, obs : {{}, {1}}, fin : {{}}, first : {1, 2}, catch : {TRUE}, limit : {"budget"}, w : {1},
         bt : {<<3, 9>>, <<9, 2>>, <<0, 4>>}, bw : {<<9, 9>>, <<1, 0>>}, bm : {<<0, 1>>, <<1, 0>>}]
Timed(pc) == pc \in {"start", "obs", "act"}
Init == cfg \in Cfgs /\ m = Settle(cfg, Begin(cfg)) /\ log = <<>>
Next == /\ m.pc # "end"
        /\ \E out \in IF m.pc = "process" /\ m.moves >= MaxMoves THEN {"over"} ELSE {"ok"} :
           \E dt \in IF Timed(m.pc) THEN {0, 1, MaxDt} ELSE {0} :
             /\ m' = AfterT(cfg, m, out, dt)
             /\ log' = Append(log, <<m.pc, Want(cfg, m)[2], out, dt>>)
        /\ cfg' = cfg
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s)[4] + Sum(Tail(s))
Of(i) == SelectSeq(log, LAMBDA x : x[2] = i /\ Timed(x[1]))
\* the time an agent is charged is the time its own callbacks took
Charged == \A i \in 1..cfg.n : m.spent[i] + (IF m.i = i THEN m.mv ELSE 0) = Sum(Of(i))
\* an agent is put out only for having used up what it has
Fairly == m.timeout => (m.spent[m.i] > cfg.bt[m.i] \/ m.warned[m.i] > cfg.bm[m.i]) /\ (m.pc = "end" => m.crashed = m.i)
\* and none moves that has
InTime == m.pc = "apply" => m.spent[m.i] <= cfg.bt[m.i] /\ m.warned[m.i] <= cfg.bm[m.i]
Emit == m.pc = "end" => PrintT(<<"PLAN", ToJson([cfg |-> cfg, log |-> log])>>)
=============================================================================
