----------------------------- MODULE MC_Screen -----------------------------
(* The picture during every game on small boards: what may lag behind the state, and why. *)
EXTENDS Screen, Grids
CONSTANTS T, Boards
Txt == <<
  <<"%%%%%%%", "%P.o G%", "%%%%%%%">>,
  <<"%%%%%", "%G o%", "% %.%", "%P .%", "%%%%%">>,
  <<"%%%%%%", "%GPoG%", "%.%%.%", "%%%%%%">>,
  <<"%%%%%%%", "%P o%.%", "% %G%%%", "%%%%%%%">> >>
Board == [k \in DOMAIN Txt |-> [walls |-> Where(Txt[k], "%"), starts |-> Agents(Txt[k])]]
VARIABLES k, st, pic
vars == <<k, st, pic>>
Init == /\ k \in Boards
        /\ st = Start(Board[k], Where(Txt[k], "."), Where(Txt[k], "o"), Len(Board[k].starts))
        /\ pic = Opened(st)
Next == \E i \in DOMAIN st.ag : \E a \in Legal(Board[k], st, i) :
          /\ st' = Succ(Board[k], [st EXCEPT !.score = 0], i, a, T)
          /\ pic' = Redraw(pic, st', i)
          /\ k' = k
Spec == Init /\ [][Next]_vars

Things == pic.food = st.food /\ pic.caps = st.caps /\ pic.score = st.score
Same(i) == pic.ag[i].x = st.ag[i].x /\ pic.ag[i].y = st.ag[i].y
Me == pic.ag[1] = View(st, 1)
\* a ghost shown elsewhere was eaten and is at home (its own move will show it); one shown in another colour
\* was scared or eaten since its own move
Others == \A i \in 2..Len(st.ag) :
   /\ Same(i) \/ (st.ag[i].x = Home(Board[k], i).x /\ st.ag[i].y = Home(Board[k], i).y)
   /\ pic.ag[i].scared # (st.ag[i].t > 0) => st.ag[i].t \in {0, T}
\* the outline encloses the walls: a cell has strokes unless walls surround it; an upright stroke goes on in the next cell
Quadrants(W) == LET O == Outline(W) IN
   /\ \A s \in O : <<s[1], s[2]>> \in W
   /\ \A c \in W : (\A dx, dy \in -1..1 : <<c[1] + dx, c[2] + dy>> \in W) <=> ~\E s \in O : <<s[1], s[2]>> = c
Over(q) == CASE q = "NE" -> "SE" [] q = "SE" -> "NE" [] q = "NW" -> "SW" [] q = "SW" -> "NW"
Beside(q) == CASE q = "NE" -> "NW" [] q = "NW" -> "NE" [] q = "SE" -> "SW" [] q = "SW" -> "SE"
Joins(W) == \A s \in Outline(W) :
   /\ s[4] \in {"upright", "stub-upright"} => Strokes(W, <<s[1], s[2] + QY(s[3])>>, Over(s[3])) \cap {"upright", "stub-upright"} # {}
   /\ s[4] \in {"level", "stub-level"} => Strokes(W, <<s[1] + QX(s[3]), s[2]>>, Beside(s[3])) \cap {"level", "stub-level"} # {}
ASSUME \A W \in SUBSET ((1..3) \X (1..3)) : Quadrants(W) /\ Joins(W)
=============================================================================
