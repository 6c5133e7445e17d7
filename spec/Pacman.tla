------------------------------- MODULE Pacman -------------------------------
(* The rules of the Pacman game as a transition system.  Positions are in half cells, so a scared ghost moves by 1
   and everybody else by 2.  A board L is [walls |-> set of cells, starts |-> sequence of cells], a state is
     [food |-> set of cells, caps |-> set of cells, score |-> Int, win |-> BOOLEAN, lose |-> BOOLEAN,
      ag |-> sequence of [x, y, d, t]]       (agent 1 is Pacman, the others are ghosts; t is the scared timer)   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Dirs == {"North", "South", "East", "West", "Stop"}
DX(a) == CASE a = "East" -> 1 [] a = "West" -> -1 [] OTHER -> 0
DY(a) == CASE a = "North" -> 1 [] a = "South" -> -1 [] OTHER -> 0
Rev(a) == CASE a = "North" -> "South" [] a = "South" -> "North" [] a = "East" -> "West" [] a = "West" -> "East" [] OTHER -> "Stop"
Abs(n) == IF n < 0 THEN -n ELSE n
Odd(n) == n % 2 = 1
Dist(p, q) == Abs(p.x - q.x) + Abs(p.y - q.y)
\* the nearest cell, halves upwards
Cell(p) == <<(p.x + 1) \div 2, (p.y + 1) \div 2>>
OnGrid(p) == ~Odd(p.x) /\ ~Odd(p.y)

Possible(L, p) ==
  IF ~OnGrid(p) THEN {p.d}
  ELSE {a \in Dirs : <<p.x \div 2 + DX(a), p.y \div 2 + DY(a)>> \notin L.walls}
Legal(L, s, i) ==
  IF s.win \/ s.lose THEN {}
  ELSE IF i = 1 THEN Possible(L, s.ag[1])
  ELSE LET q == Possible(L, s.ag[i]) \ {"Stop"}
           back == Rev(s.ag[i].d)
       IN IF back \in q /\ Cardinality(q) > 1 THEN q \ {back} ELSE q

Step(p, a, v) == [p EXCEPT !.x = @ + v * DX(a), !.y = @ + v * DY(a), !.d = IF a = "Stop" THEN @ ELSE a]
Home(L, i) == [x |-> 2 * L.starts[i][1], y |-> 2 * L.starts[i][2], d |-> "Stop", t |-> 0]
Touch(p, q) == Dist(p, q) <= 1          \* 0.7 cells

\* Pacman and ghost i are checked for a collision
Collide(L, s, i) ==
  IF ~Touch(s.ag[1], s.ag[i]) THEN s
  ELSE IF s.ag[i].t > 0 THEN [s EXCEPT !.score = @ + 200, !.ag[i] = Home(L, i)]
  ELSE IF s.win THEN s
  ELSE [s EXCEPT !.score = @ - 500, !.lose = TRUE]
RECURSIVE CollideAll(_, _, _)
CollideAll(L, s, i) == IF i > Len(s.ag) THEN s ELSE CollideAll(L, Collide(L, s, i), i + 1)

ScareAll(s, T) == [s EXCEPT !.ag = [i \in DOMAIN @ |-> IF i = 1 THEN @[i] ELSE [@[i] EXCEPT !.t = T]]]
Eat(s, T) ==
  LET c == Cell(s.ag[1])
      s1 == IF c \in s.food
            THEN LET f == s.food \ {c} IN
                 [s EXCEPT !.food = f, !.score = @ + 10 + (IF f = {} THEN 500 ELSE 0), !.win = (f = {})]
            ELSE s
  IN IF c \in s1.caps THEN ScareAll([s1 EXCEPT !.caps = @ \ {c}], T) ELSE s1

MovePacman(L, s, a, T) ==
  LET s1 == Eat([s EXCEPT !.ag[1] = Step(@, a, 2)], T)
  IN CollideAll(L, [s1 EXCEPT !.score = @ - 1], 2)
MoveGhost(L, s, i, a) ==
  LET p == Step(s.ag[i], a, IF s.ag[i].t > 0 THEN 1 ELSE 2)
      c == Cell(p)
      q == IF p.t = 1 THEN [p EXCEPT !.x = 2 * c[1], !.y = 2 * c[2], !.t = 0]
           ELSE [p EXCEPT !.t = IF @ > 0 THEN @ - 1 ELSE 0]
  IN Collide(L, [s EXCEPT !.ag[i] = q], i)
\* the successor when agent i takes the legal action a
Succ(L, s, i, a, T) == IF i = 1 THEN MovePacman(L, s, a, T) ELSE MoveGhost(L, s, i, a)

Start(L, food, caps, n) ==
  [food |-> food, caps |-> caps, score |-> 0, win |-> FALSE, lose |-> FALSE, ag |-> [i \in 1..n |-> Home(L, i)]]

\* the printed board: one character per cell
Glyph(L, s, c) ==
  LET at == {i \in DOMAIN s.ag : Cell(s.ag[i]) = c}
      last == IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : j <= i
  IN IF c \in s.caps THEN "o"
     ELSE IF last > 1 THEN "G"
     ELSE IF last = 1 THEN (CASE s.ag[1].d = "North" -> "v" [] s.ag[1].d = "South" -> "^" [] s.ag[1].d = "West" -> ">" [] OTHER -> "<")
     ELSE IF c \in s.food THEN "."
     ELSE IF c \in L.walls THEN "%" ELSE " "

\* ------------------------------------------------------------------ laws (as relations between a state and its successor)
Inside(L, s) == \A i \in DOMAIN s.ag :
   LET p == s.ag[i] IN
   \A c \in {<<p.x \div 2, p.y \div 2>>, Cell(p)} : c \notin L.walls
TimersOK(s, T) == \A i \in DOMAIN s.ag : s.ag[i].t \in 0..T /\ (i = 1 => s.ag[i].t = 0) /\ (~OnGrid(s.ag[i]) => i > 1 /\ s.ag[i].t > 0)
EndsOnce(s) == ~(s.win /\ s.lose) /\ (s.win => s.food = {})
=============================================================================
