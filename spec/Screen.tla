------------------------------- MODULE Screen -------------------------------
(* What a player sees and presses.  A picture is
     [ag |-> sequence of [x, y, look, scared], food, caps |-> sets of cells, score |-> Int]
   with one entry per agent; the display redraws the agent that moved, so every other agent is still shown as it was
   after its own latest move.  The keyboard keeps the keys held down and the keys pressed since it was last read.  *)
EXTENDS Pacman

\* ------------------------------------------------------------------ the picture
Face(i, d) == IF i = 1 /\ d = "Stop" THEN "East" ELSE d      \* Pacman always faces somewhere, a ghost may look ahead
View(s, i) == [x |-> s.ag[i].x, y |-> s.ag[i].y, look |-> Face(i, s.ag[i].d), scared |-> i > 1 /\ s.ag[i].t > 0]
\* a display that does not show ghosts keeps those above the bottom rows far off the board
Aside(mode, i, v) == IF mode = "blind" /\ i > 1 /\ v.y > 2 THEN [v EXCEPT !.x = -2000, !.y = -2000] ELSE v
OpenedIn(mode, s) == [ag |-> [i \in DOMAIN s.ag |-> Aside(mode, i, View(s, i))], food |-> s.food, caps |-> s.caps, score |-> s.score]
RedrawIn(mode, pic, s, i) == [ag |-> [pic.ag EXCEPT ![i] = Aside(mode, i, View(s, i))], food |-> s.food, caps |-> s.caps, score |-> s.score]
Opened(s) == OpenedIn("plain", s)
Redraw(pic, s, i) == RedrawIn("plain", pic, s, i)

\* ------------------------------------------------------------------ the outline of the walls, per quadrant of a cell
Quads == {"NE", "NW", "SE", "SW"}
QX(q) == IF q \in {"NE", "SE"} THEN 1 ELSE -1
QY(q) == IF q \in {"NE", "NW"} THEN 1 ELSE -1
Strokes(W, c, q) ==
  LET v == <<c[1], c[2] + QY(q)>> \in W
      h == <<c[1] + QX(q), c[2]>> \in W
      d == <<c[1] + QX(q), c[2] + QY(q)>> \in W
  IN CASE ~v /\ ~h -> {"corner"}
       [] v /\ ~h -> {"upright"}
       [] ~v /\ h -> {"level"}
       [] v /\ h /\ ~d -> {"bend", "stub-upright", "stub-level"}
       [] OTHER -> {}
Outline(W) == UNION {{<<c[1], c[2], q, k>> : k \in Strokes(W, c, q)} : <<c, q>> \in W \X Quads}

\* ------------------------------------------------------------------ frames between two positions of Pacman
Between(a, b, m) == IF a <= b THEN a <= m /\ m <= b ELSE b <= m /\ m <= a
Glides(fr, p, q) ==     \* frames fr from p to q (any unit): on the way, never back, arriving
  /\ \A j \in DOMAIN fr : Between(p[1], q[1], fr[j][1]) /\ Between(p[2], q[2], fr[j][2])
  /\ \A j \in 1..(Len(fr) - 1) : Abs(q[1] - fr[j + 1][1]) + Abs(q[2] - fr[j + 1][2]) <= Abs(q[1] - fr[j][1]) + Abs(q[2] - fr[j][2])
  /\ fr # <<>> => fr[Len(fr)] = q

\* ------------------------------------------------------------------ the keyboard and the mouse
\* down: keys held, fresh: keys pressed since last read, at: latest unread click per button (<<>>: none),
\* mem, last: the keys remembered and the last move of the agents 1 and 2 at this keyboard
Buttons == {"left", "right", "ctrl_left"}
NoKeys == [down |-> {}, fresh |-> {}, at |-> [b \in Buttons |-> <<>>], mem |-> [a \in 1..2 |-> {}], last |-> [a \in 1..2 |-> "Stop"]]
Event(kb, v) ==
  CASE v[1] = "press" -> [kb EXCEPT !.down = @ \cup {v[2]}, !.fresh = @ \cup {v[2]}]
    [] v[1] = "release" -> [kb EXCEPT !.down = @ \ {v[2]}]
    [] v[1] = "focus" -> [kb EXCEPT !.down = {}, !.fresh = {}]
    [] v[1] = "click" -> [kb EXCEPT !.at[v[2]] = <<v[3], v[4]>>]
    [] OTHER -> kb
RECURSIVE Events(_, _)
Events(kb, vs) == IF vs = <<>> THEN kb ELSE Events(Event(kb, vs[1]), Tail(vs))
\* the states passed through
Passed(kb, vs) == {Events(kb, SubSeq(vs, 1, n)) : n \in 0..Len(vs)}
ReadFresh(kb) == [kb EXCEPT !.fresh = {}]
\* a poll handles at least one queued event, and does not stop between a release and what follows it (auto-repeat)
Polled(queue, n) == n <= Len(queue) /\ (queue # <<>> => n >= 1)
                    /\ ((Len(queue) >= 2 /\ queue[1][1] = "release") => n >= 2)
=============================================================================
