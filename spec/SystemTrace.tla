----------------------------- MODULE SystemTrace -----------------------------
(* Validates recorded histories of the real library against System: every case is one history; each event must
   be a step the specification allows.  A disallowed step is reported with the violated clauses (never an error),
   and the history goes on from the observed state.                                                          *)
EXTENDS System, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Tabs == TLCEval([c \in DOMAIN Cases |-> TLCEval([i \in DOMAIN Cases[c].tab |-> TLCEval(JSample(Cases[c].tab[i]))])])

VARIABLES c, l, env, nids, eids, uids
vars == <<c, l, env, nids, eids, uids>>

Init == /\ c \in DOMAIN Cases
        /\ l = 0
        /\ env = [r \in {} |-> 0] /\ nids = {} /\ eids = {} /\ uids = {}

Next == /\ l < Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l + 1]
               bad == Fails(env, nids, eids, uids, Tabs[c], e)
           IN /\ (bad # {} => PrintT(<<"FAIL", ToJson([c |-> Cases[c].id, l |-> l + 1, op |-> e.op, bad |-> bad])>>))
              /\ env' = NextEnv(env, Tabs[c], e)
              /\ nids' = NextNids(env, nids, e) /\ eids' = NextEids(env, eids, e) /\ uids' = NextUids(uids, e)
        /\ l' = l + 1
        /\ c' = c
Spec == Init /\ [][Next]_vars
=============================================================================
