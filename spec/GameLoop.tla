------------------------------ MODULE GameLoop ------------------------------
(* The control loop of a game as a machine of callbacks.  cfg describes the game:
     [n |-> number of agents, null |-> agents that failed to load, reg, obs, fin |-> agents that listen to the start,
      observe for themselves, listen to the end, first |-> agent that moves first, catch |-> BOOLEAN,
      limit |-> "none" | "warn" | "total" | "budget", w |-> warnings allowed,
      bt, bw, bm |-> per agent: time for the whole game, time for a move without a warning, warnings allowed ("budget" only)]
   A machine state is [pc, i, moves, own, crashed, timeout, hist, tried].  Want(cfg, m) is the only callback that may come
   next (<<"end", 0>> when the game must be over) and After(cfg, m, out) the state once it has ended with out:
     "ok", "raise", "timeout", and for process also "over"; AfterT counts the time dt the callback took as well.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Begin(cfg) == [pc |-> "start", i |-> 1, moves |-> 0, own |-> [j \in 1..cfg.n |-> 0], crashed |-> 0, timeout |-> FALSE,
               raised |-> FALSE, clean |-> FALSE, hist |-> <<>>,
               mv |-> 0, spent |-> [j \in 1..cfg.n |-> 0], warned |-> [j \in 1..cfg.n |-> 0]]

RECURSIVE Settle(_, _)
\* internal steps, up to the next callback
Settle(cfg, m) ==
  IF m.pc = "start" /\ m.i > cfg.n THEN Settle(cfg, [m EXCEPT !.pc = "turn", !.i = cfg.first])
  ELSE IF m.pc = "start" /\ m.i \in cfg.null THEN [m EXCEPT !.pc = "crash"]
  ELSE IF m.pc = "start" /\ m.i \notin cfg.reg THEN Settle(cfg, [m EXCEPT !.i = @ + 1])
  ELSE IF m.pc = "turn" THEN [m EXCEPT !.pc = IF m.i \in cfg.obs THEN "obs" ELSE "act"]
  ELSE IF m.pc = "final" /\ m.i > cfg.n THEN [m EXCEPT !.pc = "end", !.clean = TRUE]
  ELSE IF m.pc = "final" /\ m.i \notin cfg.fin THEN Settle(cfg, [m EXCEPT !.i = @ + 1])
  ELSE m
Want(cfg, m) == <<m.pc, IF m.pc \in {"end", "process"} THEN 0 ELSE m.i>>

Fault(cfg, m, out) == IF cfg.catch THEN [m EXCEPT !.pc = "crash", !.timeout = @ \/ out = "timeout"]
                      ELSE [m EXCEPT !.pc = "end", !.raised = TRUE]
\* a move of agent m.i which took time mt (observing included) is warned about when it is longer than bw, and the agent is out when
\* it has more than bm warnings or has used more than bt altogether (its startup included): of its own time, never of another's
Budget(cfg, m, mt) ==
  LET i == m.i
      wn == m.warned[i] + (IF mt > cfg.bw[i] THEN 1 ELSE 0)
      sp == m.spent[i] + mt
      m1 == [m EXCEPT !.own[i] = @ + 1, !.warned[i] = wn, !.spent[i] = sp, !.mv = 0]
  IN IF wn > cfg.bm[i] \/ sp > cfg.bt[i] THEN [m1 EXCEPT !.pc = "crash", !.timeout = TRUE] ELSE [m1 EXCEPT !.pc = "apply"]
AfterT(cfg, m, out, dt) ==
  LET pc == m.pc IN
  IF pc = "crash" THEN [m EXCEPT !.pc = "end", !.crashed = m.i]
  ELSE IF out \in {"raise", "timeout"} THEN Fault(cfg, m, out)
  ELSE IF pc = "start" THEN Settle(cfg, [m EXCEPT !.i = @ + 1, !.spent[m.i] = @ + dt])
  ELSE IF pc = "obs" THEN [m EXCEPT !.pc = "act", !.mv = dt]
  ELSE IF pc = "act" /\ cfg.catch /\ cfg.limit = "budget" THEN Budget(cfg, m, m.mv + dt)
  ELSE IF pc = "act" THEN
    LET k == m.own[m.i] + 1
        m1 == [m EXCEPT !.own[m.i] = k]
    IN IF cfg.catch /\ ((cfg.limit = "warn" /\ k > cfg.w) \/ cfg.limit = "total")
       THEN [m1 EXCEPT !.pc = "crash", !.timeout = TRUE]
       ELSE [m1 EXCEPT !.pc = "apply"]
  ELSE IF pc = "apply" THEN [m EXCEPT !.pc = "process", !.moves = @ + 1, !.hist = Append(@, m.i)]
  ELSE IF pc = "process" THEN
    IF out = "over" THEN Settle(cfg, [m EXCEPT !.pc = "final", !.i = 1])
    ELSE Settle(cfg, [m EXCEPT !.pc = "turn", !.i = (@ % cfg.n) + 1])
  ELSE IF pc = "final" THEN Settle(cfg, [m EXCEPT !.i = @ + 1])
  ELSE m
After(cfg, m, out) == AfterT(cfg, m, out, 0)
Outs(pc) == CASE pc = "crash" -> {"ok"} [] pc = "process" -> {"ok", "over"}
              [] pc = "apply" -> {"ok", "raise"} [] pc = "final" -> {"ok", "raise"} [] OTHER -> {"ok", "raise", "timeout"}
=============================================================================
