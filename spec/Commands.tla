------------------------------ MODULE Commands ------------------------------
(* The command line: a sequence of <<option, value>> pairs over the defaults; later ones win. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Options == {"games", "layout", "pacman", "ghosts", "numghosts", "zoom", "seed", "record", "agentargs", "training", "frame", "catch", "timeout"}
LastOf(opts, name, default) ==
  LET at == {j \in DOMAIN opts : opts[j][1] = name} IN
  IF at = {} THEN default ELSE opts[CHOOSE j \in at : \A k \in at : k <= j][2]
Given(opts, name) == \E j \in DOMAIN opts : opts[j][1] = name

\* agents: functions from agent names to whether they need the keyboard; layouts: names to texts
Accepts(opts, agents, layouts) ==
  /\ LastOf(opts, "layout", "mediumClassic") \in DOMAIN layouts
  /\ LastOf(opts, "pacman", "KeyboardAgent") \in agents
  /\ LastOf(opts, "ghosts", "RandomGhost") \in agents
  /\ \A j \in DOMAIN opts : opts[j][1] \in Options
Setup(opts, layouts) ==
  LET n == LastOf(opts, "numghosts", 4) IN
  [layout |-> layouts[LastOf(opts, "layout", "mediumClassic")],
   pacman |-> LastOf(opts, "pacman", "KeyboardAgent"),
   ghosts |-> [i \in 1..(IF n < 0 THEN 0 ELSE n) |-> <<LastOf(opts, "ghosts", "RandomGhost"), i>>],
   games |-> LastOf(opts, "games", 1),
   zoom |-> LastOf(opts, "zoom", 100), frame |-> LastOf(opts, "frame", 10),      \* in hundredths
   record |-> Given(opts, "record"), catch |-> Given(opts, "catch"),
   timeout |-> LastOf(opts, "timeout", 30),
   training |-> LET t == LastOf(opts, "training", 0) IN IF t > 0 THEN t ELSE 0]
\* the arguments of the agent: pairs <<key, value>>; a key alone means 1; later ones win
ArgsOf(q) == [k \in {q[j][1] : j \in DOMAIN q} |-> LastOf(q, k, "1")]
AgentArgs(opts) ==
  LET a == ArgsOf(LastOf(opts, "agentargs", <<>>))
      t == LastOf(opts, "training", 0)
  IN IF t > 0 /\ "numTraining" \notin DOMAIN a THEN [k \in DOMAIN a \cup {"numTraining"} |-> IF k = "numTraining" THEN ToString(t) ELSE a[k]] ELSE a
=============================================================================
