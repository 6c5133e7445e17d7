------------------------------- MODULE Choices -------------------------------
(* How the agents of the game choose: distributions of ghosts (as exact rationals) and the keyboard. *)
EXTENDS Pacman, Counters

\* a ghost that takes any legal move
Uniform(L, s, i) == LET q == Legal(L, s, i) IN [a \in q |-> Q(1, Cardinality(q))]
\* a ghost that takes a best move with probability p more
Toward(L, s, i, p) ==
  LET q == Legal(L, s, i)
      scared == s.ag[i].t > 0
      pa == IF scared THEN p[2] ELSE p[1]
      D == [a \in q |-> Dist(Step(s.ag[i], a, IF scared THEN 1 ELSE 2), s.ag[1])]
      best == {a \in q : \A b \in q : IF scared THEN D[a] >= D[b] ELSE D[a] <= D[b]}
      rest == QDiv(QAdd(Q(1, 1), QNeg(pa)), Q(Cardinality(q), 1))
  IN [a \in q |-> QAdd(rest, IF a \in best THEN QDiv(pa, Q(Cardinality(best), 1)) ELSE Zero)]

\* keyboard: K maps the directions and Stop to sets of keys; the last direction of this order wins
KeyDir(K, keys, legal) ==
  LET hit(a) == K[a] \cap keys # {} /\ a \in legal IN
  CASE hit("South") -> "South" [] hit("North") -> "North" [] hit("East") -> "East" [] hit("West") -> "West" [] OTHER -> "Stop"
\* the moves the keyboard agent may answer with
KeyMoves(K, keys, legal, last) ==
  LET d == KeyDir(K, keys, legal)
      d1 == IF d = "Stop" /\ last \in legal THEN last ELSE d
      d2 == IF K["Stop"] \cap keys # {} /\ "Stop" \in legal THEN "Stop" ELSE d1
  IN IF d2 \in legal THEN {d2} ELSE legal
=============================================================================
