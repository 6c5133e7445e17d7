------------------------------ MODULE DemoTrace ------------------------------
(* Validates recorded histories of the demo application against DemoSystem (see SystemTrace). *)
EXTENDS DemoSystem, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, env
vars == <<c, l, env>>
Init == c \in DOMAIN Cases /\ l = 0 /\ env = [r \in {} |-> 0]
Next == /\ l < Len(Cases[c].ev)
        /\ LET e == Cases[c].ev[l + 1]
               bad == Fails(env, e)
           IN /\ (bad # {} => PrintT(<<"FAIL", ToJson([c |-> Cases[c].id, l |-> l + 1, op |-> e.op, bad |-> bad])>>))
              /\ env' = NextEnv(env, e)
        /\ l' = l + 1
        /\ c' = c
Spec == Init /\ [][Next]_vars
=============================================================================
