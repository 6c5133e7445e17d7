----------------------------- MODULE MC_Pacman -----------------------------
(* Exhaustive exploration of small boards: every agent may move at any time (the library does not enforce turns).
   The score is kept as the change made by the last move.  hist is a shortest sequence of moves to the state (not
   part of its identity); every state is emitted as a behaviour to be replayed.                                *)
EXTENDS Pacman, Grids, Json
CONSTANTS T, Boards, Emitting
Txt == <<
  <<"%%%%%%%", "%P.o G%", "%%%%%%%">>,
  <<"%%%%%%", "%P. o%", "%.%%%%", "%G   %", "%%%%%%">>,
  <<"%%%%%", "%G o%", "% %.%", "%P .%", "%%%%%">>,
  <<"%%%%%%", "%Go.P%", "% %% %", "%.  G%", "%%%%%%">>,
  <<"%%%%%%", "%GPoG%", "%.%%.%", "%%%%%%">>,
  <<"%%%%%%%", "%P o%.%", "% % %%%", "%  G%%%", "%%%%%%%">> >>     \* the food is out of reach: long games
Has(k, ch) == Where(Txt[k], ch)
Board == [k \in DOMAIN Txt |-> [walls |-> Has(k, "%"), starts |-> Agents(Txt[k])]]
VARIABLES k, st, hist
vars == <<k, st, hist>>
View == <<k, st>>
Init == /\ k \in Boards
        /\ st = Start(Board[k], Has(k, "."), Has(k, "o"), Len(Board[k].starts))
        /\ hist = <<>>
Next == \E i \in DOMAIN st.ag : \E a \in Legal(Board[k], st, i) :
          /\ st' = Succ(Board[k], [st EXCEPT !.score = 0], i, a, T)
          /\ hist' = IF Emitting THEN Append(hist, <<i, a>>) ELSE <<i>>
          /\ k' = k
Spec == Init /\ [][Next]_vars

NotInWalls == Inside(Board[k], st)
Timers == TimersOK(st, T)
Ends == EndsOnce(st)
Stuck == (st.win \/ st.lose) => ~ENABLED Next
\* who can always go on: Pacman may stop, a ghost that is not walled in has a move
Going == ~(st.win \/ st.lose) => \A i \in DOMAIN st.ag : Legal(Board[k], st, i) # {}
NoReverse == \A i \in 2..Len(st.ag) : LET q == Legal(Board[k], st, i) IN
   Rev(st.ag[i].d) \in q /\ st.ag[i].d # "Stop" => Cardinality(q) = 1
\* the change of the score is explained by what happened, and by nothing else
Mover == hist'[Len(hist')][1]
MoverI == IF Emitting THEN Mover ELSE hist'[1]
Sent(i) == st.ag[i].t > 0 /\ st'.ag[i] = Home(Board[k], i)
ScoreLaw == [][
   LET ate == st.food \ st'.food
       capped == st.caps # st'.caps
       i == MoverI
       dead == IF st'.lose THEN Cardinality({j \in DOMAIN st.ag : j > 1 /\ (i = 1 \/ j = i) /\ Touch(st'.ag[1], st'.ag[j]) /\ st'.ag[j].t = 0
                                              /\ ~(Sent(j) \/ (capped /\ st'.ag[j] = Home(Board[k], j)))}) ELSE 0
       base == st'.score + (IF i = 1 THEN 1 ELSE 0) - 10 * Cardinality(ate) - (IF st'.win THEN 500 ELSE 0)
   IN /\ Cardinality(ate) <= 1 /\ st'.food \subseteq st.food /\ st'.caps \subseteq st.caps
      /\ (ate # {} => i = 1 /\ ate = {Cell(st'.ag[1])})
      /\ (st'.win <=> st'.food = {} /\ ate # {})
      \* what remains is made of whole ghosts eaten and lives lost
      /\ \E g \in 0..(Len(st.ag) - 1) : \E d \in 0..(Len(st.ag) - 1) :
           base = 200 * g - 500 * d /\ (d > 0 <=> st'.lose) /\ g + d < Len(st.ag)]_vars
\* only the mover changes, unless Pacman ate a capsule or bumped into scared ghosts
Frame == [][\A j \in DOMAIN st.ag : j # MoverI =>
              \/ st'.ag[j] = st.ag[j]
              \/ MoverI = 1 /\ (st.caps # st'.caps \/ Sent(j))]_vars
\* timers: full on a capsule, minus one on every own move
TimerLaw == [][\A j \in 2..Len(st.ag) :
              LET t == st.ag[j].t  u == st'.ag[j].t IN
              IF MoverI = 1 THEN u = (IF st.caps # st'.caps THEN T ELSE t) \/ u = 0
              ELSE IF MoverI = j THEN u = (IF t = 0 THEN 0 ELSE t - 1) \/ u = 0
              ELSE u = t]_vars
\* long runs: only the interesting phases of the timers
Phase == \A i \in DOMAIN st.ag : st.ag[i].t \in {0, 1, 2, 3, T - 1, T}
Emit == Emitting /\ (k = 6 => Phase) => PrintT(<<"PLAN", ToJson([b |-> Txt[k], h |-> hist])>>)
=============================================================================
