---------------------------- MODULE MC_Commands ----------------------------
(* Every command line of at most MaxLen options: the latest setting of an option wins, different options do not
   interfere, nothing else is set.                                                                                  *)
EXTENDS Commands, Json
CONSTANTS MaxLen
VARIABLES opts
Pool == {<<"games", 0>>, <<"games", 3>>, <<"layout", "L1">>, <<"layout", "L2">>, <<"pacman", "P2">>, <<"ghosts", "G1">>, <<"ghosts", "G2">>,
         <<"numghosts", 0>>, <<"numghosts", 6>>, <<"zoom", 50>>, <<"seed", TRUE>>, <<"record", TRUE>>, <<"catch", TRUE>>, <<"frame", -100>>,
         <<"timeout", 5>>, <<"training", 2>>, <<"agentargs", <<<<"alpha", "1">>, <<"b", "x">>>> >>, <<"agentargs", <<<<"numTraining", "7">>>> >>}
Lay == ("L1" :> <<"%P%">>) @@ ("L2" :> <<"%P.%">>) @@ ("mediumClassic" :> <<"P">>)
Ags == {"P1", "P2", "G1", "G2", "KeyboardAgent", "RandomGhost"}
Init == opts = <<>>
Next == Len(opts) < MaxLen /\ \E o \in Pool : opts' = Append(opts, o)
Spec == Init /\ [][Next]_opts
Full(q) == <<Setup(q, Lay), AgentArgs(q)>>
Accepted == Accepts(opts, Ags, Lay)
Swap(q, j) == [q EXCEPT ![j] = q[j + 1], ![j + 1] = q[j]]
Independent == \A j \in 1..(Len(opts) - 1) : opts[j][1] # opts[j + 1][1] => Full(Swap(opts, j)) = Full(opts)
Drop(q, j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
Overridden == \A j \in DOMAIN opts : (\E i \in DOMAIN opts : i > j /\ opts[i][1] = opts[j][1]) => Full(Drop(opts, j)) = Full(opts)
\* an option only sets its own part
Field == ("games" :> "games") @@ ("layout" :> "layout") @@ ("pacman" :> "pacman") @@ ("zoom" :> "zoom") @@ ("frame" :> "frame")
         @@ ("record" :> "record") @@ ("catch" :> "catch") @@ ("timeout" :> "timeout") @@ ("training" :> "training")
Local == \A j \in DOMAIN opts : \A f \in DOMAIN Setup(opts, Lay) :
   (Setup(Drop(opts, j), Lay)[f] # Setup(opts, Lay)[f]) => (IF f = "ghosts" THEN opts[j][1] \in {"ghosts", "numghosts"} ELSE Field[opts[j][1]] = f)
Emit == PrintT(<<"PLAN", ToJson(opts)>>)
=============================================================================
