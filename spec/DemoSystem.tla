----------------------------- MODULE DemoSystem -----------------------------
(* The demo application (Pacman, its game loop, containers, counters, grids, agents) as one transition system over a
   register file `env` of live objects.  Fails(env, e) is the set of violated clauses of an observed call e (empty: the
   call is a step of the specification), After_(env, e) the register file after it.                               *)
EXTENDS Choices, GameLoop, Containers, Grids, Screen, Commands, Canvas, Compass, Limits
CONSTANT ScaredTime

Rg(q) == {q[j] : j \in DOMAIN q}
Uniq(q) == Cardinality(Rg(q)) = Len(q)
Ck(name, cond) == IF cond THEN {} ELSE {name}
Ask(acc, e, good) == IF e.ok # acc THEN {IF acc THEN "rejected-but-allowed" ELSE "accepted-but-forbidden"}
                     ELSE IF acc THEN good ELSE {}
ToFun(q) == [x \in {q[j][1] : j \in DOMAIN q} |-> q[CHOOSE j \in DOMAIN q : q[j][1] = x][2]]

\* ------------------------------------------------------------------ observed game states
JAgent(p) == [x |-> p.x, y |-> p.y, d |-> p.d, t |-> p.t]
JState(o) == [food |-> Rg(o.food), caps |-> Rg(o.caps), score |-> o.score, win |-> o.win, lose |-> o.lose,
              ag |-> [i \in DOMAIN o.ag |-> JAgent(o.ag[i])]]
Game_(env, r) == env[env[r].b]           \* the board of a state
BoardOf(rows) == [walls |-> Where(rows, "%"), starts |-> Agents(rows)]

Parts(want, got) ==     \* which parts of the state differ
  Ck("score", want.score = got.score) \cup Ck("food", want.food = got.food) \cup Ck("capsules", want.caps = got.caps)
  \cup Ck("win", want.win = got.win) \cup Ck("lose", want.lose = got.lose)
  \cup Ck("agents", Len(want.ag) = Len(got.ag))
  \cup UNION {IF i \in DOMAIN got.ag
              THEN Ck("position", want.ag[i].x = got.ag[i].x /\ want.ag[i].y = got.ag[i].y) \cup Ck("direction", want.ag[i].d = got.ag[i].d)
                   \cup Ck("timer", want.ag[i].t = got.ag[i].t)
              ELSE {} : i \in DOMAIN want.ag}
Sent(L, s, want, got) ==        \* ghosts that were eaten are at home, unscared
  Ck("home", \A i \in DOMAIN want.ag : (i > 1 /\ i \in DOMAIN got.ag /\ want.score >= s.score + 199 /\ s.ag[i].t > 0 /\ want.ag[i] = Home(L, i)) => got.ag[i] = want.ag[i])
Clean(o) == Ck("listing", Uniq(o.food) /\ Uniq(o.caps) /\ Len(o.food) = o.nfood /\ \A i \in DOMAIN o.ag : o.ag[i].p = (i = 1))

Box(env, r) == env[r]
QOf(v) == Q(v[1], v[2])
JCounter(q) == [x \in {q[j][1] : j \in DOMAIN q} |-> QOf(q[CHOOSE j \in DOMAIN q : q[j][1] = x][2])]
JGrid(o) == [w |-> o.w, h |-> o.h, on |-> Rg(o.on)]

JCfg(c) == [n |-> c.n, null |-> Rg(c.null), reg |-> Rg(c.reg), obs |-> Rg(c.obs), fin |-> Rg(c.fin), first |-> c.first,
            catch |-> c.catch, limit |-> c.limit, w |-> c.w, bt |-> c.bt, bw |-> c.bw, bm |-> c.bm]

\* a counted frequency is within six standard deviations (n trials, probability p)
Plausible(k, n, p) == LET d == k * p[2] - n * p[1]
                          dev == 36 * n * p[1] * (p[2] - p[1])
                      IN Abs(d) <= 130 * p[2] /\ d * d <= dev + 36 * p[2] * p[2]       \* n <= 1600, p[2] <= 300

\* the texts beside the score: all appear when first given, the first ones change later
Noted(old, new) == [j \in 1..(IF old = <<>> THEN Len(new) ELSE Len(old)) |-> IF j <= Len(new) THEN new[j] ELSE old[j]]
DrawOps == {"c_begin", "c_new", "c_to", "c_by", "c_turn", "c_edit", "c_color", "c_text", "c_remove", "c_clear", "c_print", "c_end"}

\* the picture o shows pic; col are the colours known of the agents
Sees(pic, col, o) ==
  LET n == Len(pic.ag)  w == Len(o.ag) IN
  Ck("agents", n = w) \cup Ck("food", {<<2 * c[1], 2 * c[2]>> : c \in pic.food} = Rg(o.food) /\ Uniq(o.food))
  \cup Ck("capsules", {<<2 * c[1], 2 * c[2]>> : c \in pic.caps} = Rg(o.caps) /\ Uniq(o.caps))
  \cup Ck("score", o.score = pic.score) \cup Ck("inside", o.inside)
  \cup UNION {IF i > w THEN {} ELSE
      Ck("position", o.ag[i].x = pic.ag[i].x /\ o.ag[i].y = pic.ag[i].y)
      \cup Ck("look", o.ag[i].look = pic.ag[i].look)
      \cup Ck("colour", IF pic.ag[i].scared THEN o.ag[i].c = "#ffffff"
                         ELSE IF i \in DOMAIN col THEN o.ag[i].c = col[i]
                         ELSE o.ag[i].c # "#ffffff" /\ \A j \in DOMAIN col : o.ag[i].c # col[j]) : i \in 1..n}
Learn(pic, col, o) == [i \in {j \in 1..Len(pic.ag) : ~pic.ag[j].scared /\ j <= Len(o.ag)} \cup DOMAIN col |->
                        IF i \in DOMAIN col THEN col[i] ELSE o.ag[i].c]

Remembers(k, w, vs) == LET seen == k.fresh \cup Events(k, vs).down IN IF seen = {} THEN k.mem[w] ELSE seen

Fails(env, e) ==
  LET op == e.op IN
  CASE op = "board" ->      \* a layout text was read
         LET L == BoardOf(e.rows)  o == e.res IN
         Ask(TRUE, e, Ck("size", o.w = Len(e.rows[1]) /\ o.h = Len(e.rows))
                      \cup Ck("walls", Rg(o.walls) = L.walls /\ Uniq(o.walls))
                      \cup Ck("food", Rg(o.food) = Where(e.rows, ".") /\ Uniq(o.food) /\ o.total = Len(o.food))
                      \cup Ck("capsules", Rg(o.caps) = Where(e.rows, "o") /\ Uniq(o.caps))
                      \cup Ck("agents", o.ag = [i \in DOMAIN L.starts |-> <<i = 1, L.starts[i][1], L.starts[i][2]>>])
                      \cup Ck("ghosts", o.ghosts = Len(L.starts) - 1)
                      \cup Ck("is-wall", \A j \in DOMAIN o.iswall : o.iswall[j][2] <=> o.iswall[j][1] \in L.walls)
                      \cup Ck("text", o.text = e.rows))
    [] op = "missing" -> Ck("found", ~e.found) \cup Ck("directory", e.kept)    \* a layout that does not exist was asked for
    [] op = "corner" ->
         LET w == Len(env[e.b].rows[1])  h == Len(env[e.b].rows)
             cs == {<<1, 1>>, <<1, h - 2>>, <<w - 2, 1>>, <<w - 2, h - 2>>}
             far(c) == Abs(c[1] - e.pos[1]) + Abs(c[2] - e.pos[2]) IN
         Ask(TRUE, e, Ck("corner", e.res \in cs /\ \A c \in cs : far(c) <= far(e.res)))
    [] op = "corners" ->    \* many random corners
         LET w == Len(env[e.b].rows[1])  h == Len(env[e.b].rows) IN
         Ask(TRUE, e, Ck("corners", Rg(e.res) = {<<1, 1>>, <<1, h - 2>>, <<w - 2, 1>>, <<w - 2, h - 2>>}))
    [] op = "legalpos" -> Ask(TRUE, e, Ck("in-wall", e.res \notin env[e.b].L.walls /\ e.res \in RowsCells(env[e.b].rows)))
    [] op = "neighbors" ->
         LET c == e.pos  W == env[e.b].L.walls  R == RowsCells(env[e.b].rows) IN
         Ask(TRUE, e, Ck("neighbors", Uniq(e.res) /\ Rg(e.res) =
             {n \in {<<c[1] + DX(a), c[2] + DY(a)>> : a \in Dirs} : n \in R /\ n \notin W}))
    [] op = "start" ->
         LET L == env[e.b].L  rows == env[e.b].rows  n == IF e.n + 1 < Len(L.starts) THEN e.n + 1 ELSE Len(L.starts)
             want == Start(L, Where(rows, "."), Where(rows, "o"), n) IN
         Ask(TRUE, e, Parts(want, JState(e.res)) \cup Clean(e.res))
    [] op = "succ" ->       \* the successor of s when agent i (from 1) does a
         LET g == env[e.s]  L == env[g.b].L  acc == e.a \in Legal(L, g.st, e.i) IN
         Ask(acc, e, Parts(Succ(L, g.st, e.i, e.a, ScaredTime), JState(e.res)) \cup Clean(e.res)
                      \cup Sent(L, g.st, Succ(L, g.st, e.i, e.a, ScaredTime), JState(e.res)))
    [] op = "again" ->      \* the state t, seen in e.res, is the same as s
         Ask(TRUE, e, {"differs:" \o x : x \in Parts(env[e.s].st, JState(e.res))})
    [] op = "succn" ->      \* an unchecked sequence of moves that reaches a state known to the specification
         LET g == env[e.s]  L == env[g.b].L
             RECURSIVE Go(_, _)
             Go(s, q) == IF q = <<>> THEN s ELSE Go(Succ(L, s, q[1][1], q[1][2], ScaredTime), Tail(q)) IN
         Ask(TRUE, e, Parts(Go(g.st, e.h), JState(e.res)) \cup Clean(e.res))
    [] op = "legal" ->
         LET g == env[e.s] IN
         Ask(TRUE, e, Ck("legal", Rg(e.res) = Legal(env[g.b].L, g.st, e.i) /\ Uniq(e.res)))
    [] op = "look" ->       \* the state seen again
         Ask(TRUE, e, {"changed:" \o x : x \in Parts(env[e.s].st, JState(e.res))} \cup Clean(e.res))
    [] op = "cells" ->      \* hasFood / hasWall / numbers
         LET g == env[e.s]  W == env[g.b].L.walls IN
         Ask(TRUE, e, Ck("hasFood", Rg(e.food) = g.st.food) \cup Ck("hasWall", Rg(e.walls) = W)
                      \cup Ck("agents", e.n = Len(g.st.ag))
                      \cup Ck("pacman", e.pac = <<g.st.ag[1].x, g.st.ag[1].y>>)
                      \cup Ck("ghosts", e.gh = [i \in 1..(Len(g.st.ag) - 1) |-> <<g.st.ag[i + 1].x, g.st.ag[i + 1].y>>]))
    [] op = "ghost_at" ->   \* agent i asked for as a ghost
         LET st == env[e.s].st  acc == e.i > 1 /\ e.i <= Len(st.ag) IN
         Ask(acc, e, Ck("ghosts", JAgent(e.res) = st.ag[e.i])) \cup Ck("placed", e.placed = acc)
         \cup (IF acc /\ e.placed THEN Ck("ghosts", e.pos = <<st.ag[e.i].x, st.ag[e.i].y>>) ELSE {})
    [] op = "forget" -> Ask(TRUE, e, {})
    [] op = "explored" ->   \* the states that took part in a move since the last time they were asked for
         LET Key(st) == [food |-> st.food, caps |-> st.caps, score |-> st.score, ag |-> st.ag] IN
         Ask(TRUE, e, Ck("explored", {Key(JState(e.res[j])) : j \in DOMAIN e.res} = {Key(st) : st \in env["explored"]}))
    [] op = "board_text" ->
         LET g == env[e.s]  b == env[g.b]  w == Len(b.rows[1])  h == Len(b.rows) IN
         Ask(TRUE, e, Ck("board", Len(e.rows) = h /\ \A y \in 0..(h - 1) : Len(e.rows[h - y]) = w /\
                                   \A x \in 0..(w - 1) : SubSeq(e.rows[h - y], x + 1, x + 1) = Glyph(b.L, g.st, <<x, y>>))
                      \cup Ck("score", e.score = g.st.score))
    [] op = "pose" -> Ask(TRUE, e, Parts(JState(e.want), JState(e.res)) \cup Clean(e.res))
    [] op = "deepcopy" -> Ask(TRUE, e, Parts(env[e.s].st, JState(e.res)) \cup Clean(e.res))
    [] op = "state_eq" ->
         LET s == env[e.s].st  t == env[e.t].st
             same == s.food = t.food /\ s.caps = t.caps /\ s.score = t.score /\ s.ag = t.ag IN
         Ask(TRUE, e, Ck("equality", same <=> e.res) \cup Ck("hash", same => e.h))
    [] op = "edit" ->       \* a deep copy is changed by hand; both are looked at
         Ask(TRUE, e, {"original:" \o x : x \in Parts(env[e.s].st, JState(e.res))} \cup Ck("original:walls", Rg(e.walls) = env[env[e.s].b].L.walls)
                      \cup Ck("edited", JState(e.got) = JState(e.want)))
    \* ------------------------------------------------------------------ game loop
    [] op = "g_new" -> {}
    [] op = "g_cb" ->
         LET g == env[e.g]  want == Want(g.cfg, g.m) IN
         Ck("unexpected-" \o e.kind, want = <<e.kind, e.i>>)
         \cup (IF e.kind \in {"start", "obs", "act", "final"} THEN Ck("state-shown", e.seen = g.m.moves) ELSE {})
         \cup (IF e.kind = "apply" THEN Ck("move-applied", e.a = e.chosen /\ e.seen = g.m.moves) ELSE {})
    [] op = "g_end" ->
         LET g == env[e.g]  m == g.m
             n == Len(m.hist) IN
         Ck("stopped-early", m.pc = "end")
         \cup (IF m.pc # "end" THEN {} ELSE
               Ck("raised", e.raised = m.raised)
               \cup Ck("crashed", e.crashed = (m.crashed # 0))
               \cup Ck("timeout", e.timeout = m.timeout)
               \cup Ck("over", m.raised \/ e.over)
               \cup Ck("state", e.moves = m.moves)
               \cup Ck("history", Len(e.hist) \in {n, n + 1} /\ (\A j \in 1..n : e.hist[j] = e.moved[j] /\ e.hist[j][1] = m.hist[j])
                                  /\ (m.clean => Len(e.hist) = n))
               \cup Ck("display", e.shown[1] = 1 /\ e.shown[2] = n /\ e.shown[3] = (IF m.clean THEN 1 ELSE 0))
               \cup Ck("alarm-left", e.alarm = 0)
               \cup Ck("output", e.restored /\ e.leaked = 0 /\ e.kept)
               \cup Ck("progress", e.over => e.progress = 1))
    [] op = "agents" ->     \* newGame: who plays
         LET n == Len(env[e.b].L.starts) - 1  k == IF e.n < n THEN e.n ELSE n IN
         Ask(TRUE, e, Ck("agents", e.res = [j \in 1..(k + 1) |-> j - 1]) \cup Ck("states", e.states = k + 1))
    [] op = "summary" ->    \* the results of several games
         LET St(j) == env[e.games[j]].st
             n == Len(e.games)
             RECURSIVE Sum(_)
             Sum(j) == IF j = 0 THEN 0 ELSE St(j).score + Sum(j - 1)
             wins == Cardinality({j \in 1..n : St(j).win}) IN
         Ask(TRUE, e, Ck("scores", e.scores = [j \in 1..n |-> St(j).score])
                      \cup Ck("record", e.record = [j \in 1..n |-> St(j).win])
                      \cup Ck("average", e.total = Sum(n))
                      \cup Ck("rate", Len(e.rate) = 3 /\ e.rate[1] = wins /\ e.rate[2] = n /\ 2 * Abs(100 * wins - n * e.rate[3]) <= n)
                      \cup Ck("told", e.told = [j \in 1..n |-> <<St(j).win, St(j).score>>]))
    [] op = "limits" ->     \* of agent i; what is said when it crashes
         Ask(TRUE, e, Ck("limits", e.res = <<e.limit, e.limit, e.limit, e.limit, 0>>) \cup Ck("says", e.says = <<e.i = 1, e.i # 1>>))
    [] op = "left" ->       \* the share of the food that is left, in millionths
         LET g == env[e.s]  all == Cardinality(Where(env[g.b].rows, ".")) IN
         Ask(TRUE, e, Ck("progress", Abs(e.res * all - 1000000 * Cardinality(g.st.food)) <= all))
    [] op = "process" ->    \* is the game over?
         LET st == env[e.s].st IN
         Ask(TRUE, e, Ck("over", e.over = (st.win \/ st.lose))
                      \cup Ck("told", Rg(e.told) = {<<w, st.score>> : w \in {v \in BOOLEAN : IF v THEN st.win ELSE st.lose}} /\ Uniq(e.told)))
    \* ------------------------------------------------------------------ containers
    [] op = "box" -> Ck("empty", e.empty)
    [] op = "push" -> Ask(TRUE, e, Ck("empty", ~e.empty))
    [] op = "update" -> Ask(TRUE, e, Ck("empty", ~e.empty))
    [] op = "pop" ->
         LET b == env[e.b] IN
         Ask(Size(b) > 0, e, Ck("order", e.x = Top(b)) \cup Ck("empty", e.empty = (Size(b) = 1)))
    \* ------------------------------------------------------------------ counters
    [] op = "counter" -> Ask(TRUE, e, Ck("content", Same(JCounter(e.res), JCounter(e.init))))
    [] op = "cget" -> Ask(TRUE, e, Ck("value", QOf(e.v) = Get(env[e.c], e.x)) \cup Ck("others", Same(JCounter(e.res), env[e.c])))
    [] op = "cset" -> Ask(TRUE, e, Ck("content", Same(JCounter(e.res), Set(env[e.c], e.x, QOf(e.v)))))
    [] op = "cinc" -> Ask(TRUE, e, Ck("content", Same(JCounter(e.res), IncAll(env[e.c], e.xs, QOf(e.v)))))
    [] op = "cadd" -> Ask(TRUE, e, Ck("content", Same(JCounter(e.res), Plus(env[e.c], env[e.d])))
                                   \cup Ck("operands", Kept(JCounter(e.c1), env[e.c]) /\ Kept(JCounter(e.d1), env[e.d])))
    [] op = "csub" -> Ask(TRUE, e, Ck("content", Same(JCounter(e.res), Minus(env[e.c], env[e.d])))
                                   \cup Ck("operands", Kept(JCounter(e.c1), env[e.c]) /\ Kept(JCounter(e.d1), env[e.d])))
    [] op = "cdot" -> Ask(TRUE, e, Ck("product", QOf(e.v) = Dot(env[e.c], env[e.d]))
                                   \cup Ck("operands", Kept(JCounter(e.c1), env[e.c]) /\ Kept(JCounter(e.d1), env[e.d])))
    [] op = "cdiv" -> Ask(TRUE, e, Ck("content", Same(JCounter(e.res), Over(env[e.c], QOf(e.v)))))
    [] op = "cnorm" -> Ask(TRUE, e, Ck("content", Same(JCounter(e.res), Normal(env[e.c]))))
    [] op = "cnormed" -> Ask(TRUE, e, Ck("content", Same(JCounter(e.res), Normal(env[e.c]))) \cup Ck("source", Kept(JCounter(e.c1), env[e.c])))
    [] op = "ccopy" -> Ask(TRUE, e, Ck("content", Same(JCounter(e.res), env[e.c])))
    [] op = "clook" -> Ask(TRUE, e, Ck("changed", Kept(JCounter(e.res), env[e.c])))
    [] op = "ctotal" -> Ask(TRUE, e, Ck("total", QOf(e.v) = TotalOf(env[e.c])))
    [] op = "cargmax" -> Ask(TRUE, e, Ck("argmax", IF e.x = <<>> THEN DOMAIN JCounter(e.res) = {} ELSE IsMax(JCounter(e.res), e.x[1]))
                                      \cup Ck("changed", Kept(JCounter(e.res), env[e.c])))
    [] op = "csorted" -> Ask(TRUE, e, Ck("sorted", Descending(env[e.c], e.xs) /\ Uniq(e.xs) /\ Rg(e.xs) = DOMAIN JCounter(e.res))
                                      \cup Ck("changed", Kept(JCounter(e.res), env[e.c])))
    [] op = "vnorm" -> LET v == [j \in DOMAIN e.v |-> QOf(e.v[j])] IN
                       Ask(TRUE, e, Ck("content", [j \in DOMAIN e.res |-> QOf(e.res[j])] = Normal(v)))
    [] op = "prob" ->  LET S == {j \in DOMAIN e.ps : e.vs[j] = e.x} IN
                       Ask(TRUE, e, Ck("probability", QOf(e.v) = QSum([j \in S |-> QOf(e.ps[j])], S)))
    [] op = "fixed" ->      \* the draws of several fixed generators: each a part of the same sequence
                       Ask(TRUE, e, Ck("fixed", \A i, j \in DOMAIN e.res : \A k \in DOMAIN e.res[i] \cap DOMAIN e.res[j] : e.res[i][k] = e.res[j][k])
                                    \cup Ck("fixed-varies", \A i \in DOMAIN e.res : Len(e.res[i]) > 8 => Cardinality(Rg(e.res[i])) > 2))
    \* ------------------------------------------------------------------ grids
    [] op = "grid" -> Ask(TRUE, e, Ck("content", JGrid(e.res) = NewGrid(e.w, e.h, e.v)))
    [] op = "gwrite" -> Ask(TRUE, e, Ck("content", JGrid(e.res) = Write(env[e.g], e.x, e.y, e.v)))
    [] op = "gcopy" -> Ask(TRUE, e, Ck("content", JGrid(e.res) = env[e.g]))
    [] op = "gpack" -> Ask(TRUE, e, Ck("round-trip", JGrid(e.res) = env[e.g] /\ e.eq))
    [] op = "glook" -> Ask(TRUE, e, Ck("changed", JGrid(e.res) = env[e.g]))
    [] op = "glist" -> Ask(TRUE, e, Ck("list", Rg(e.xs) = OnG(env[e.g], e.v) /\ Uniq(e.xs)) \cup Ck("count", e.n = CountG(env[e.g], e.v)))
    [] op = "geq" -> LET same == env[e.g] = env[e.h] IN Ask(TRUE, e, Ck("equality", e.res <=> same) \cup Ck("hash", same => e.hash))
    [] op = "gtext" ->
         LET g == env[e.g] IN
         Ask(TRUE, e, Ck("text", Len(e.rows) = g.h /\ \A y \in 0..(g.h - 1) : Len(e.rows[g.h - y]) = g.w /\
                \A x \in 0..(g.w - 1) : (SubSeq(e.rows[g.h - y], x + 1, x + 1) = "T") <=> <<x, y>> \in g.on))
    \* ------------------------------------------------------------------ choices
    [] op = "uniform" ->
         LET g == env[e.s] IN Ask(TRUE, e, Ck("distribution", Same(JCounter(e.res), Uniform(env[g.b].L, g.st, e.i))))
    [] op = "toward" ->
         LET g == env[e.s] IN Ask(TRUE, e, Ck("distribution", Same(JCounter(e.res), Toward(env[g.b].L, g.st, e.i, <<QOf(e.pa), QOf(e.pf)>>))))
    [] op = "choose" ->     \* an agent's own choice
         LET g == env[e.s]  q == Legal(env[g.b].L, g.st, e.i) IN
         Ask(TRUE, e, Ck("legal", IF q = {} THEN e.a = "Stop" ELSE e.a \in q))
    [] op = "keys" ->
         LET g == env[e.s]  q == Legal(env[g.b].L, g.st, e.i)
             K == [a \in Dirs |-> Rg(ToFun(e.map)[a])] IN
         Ask(TRUE, e, Ck("choice", e.a \in KeyMoves(K, Rg(e.keys), q, e.last)))
    \* ------------------------------------------------------------------ the screen
    [] op = "d_open" ->
         LET g == env[e.s]  L == env[g.b].L IN
         Ask(TRUE, e, Sees(OpenedIn(e.mode, g.st), [i \in {} |-> ""], e.res) \cup Ck("walls", Rg(e.res.walls) = Outline(L.walls) /\ Uniq(e.res.walls))
                      \cup Ck("windows", e.res.windows = 1) \cup Ck("notes", e.res.notes = <<>>))
    [] op = "d_move" ->     \* agent i has moved, the state is now s
         LET d == env[e.d]  g == env[e.s]  L == env[g.b].L
             old == d.pic.ag[1]  now == View(g.st, 1)
             key == \E b \in Passed(d.kb, e.done) : b.down # {}
             held == Events(d.kb, e.done \o e.left).down # {} 
         IN
         IF d.step # "no" /\ e.i = 1 /\ ~e.ok /\ e.waits THEN Ck("waits-for-key", ~held)
         ELSE Ask(TRUE, e, Sees(RedrawIn(d.mode, d.pic, g.st, e.i), d.col, e.res) \cup Ck("walls", e.full => Rg(e.res.walls) = d.walls /\ Uniq(e.res.walls))
                      \cup Ck("windows", e.res.windows = 1)
                      \cup Ck("notes", e.res.notes = Noted(d.notes, e.dist))
                      \cup Ck("step", (d.step = "yes" /\ e.i = 1) => key)
                      \cup Ck("frames", IF e.i # 1 THEN \A j \in DOMAIN e.fr : e.fr[j] = <<8 * old.x, 8 * old.y>>
                                        ELSE Glides(e.fr, <<8 * old.x, 8 * old.y>>, <<8 * now.x, 8 * now.y>>)))
    [] op = "d_close" -> Ask(TRUE, e, Ck("windows", e.windows = 0))
    [] op = "d_cells" -> Ask(TRUE, e, Ck("overlay", Rg(e.res) = {<<2 * e.cells[j][1], 2 * e.cells[j][2]>> : j \in DOMAIN e.cells}
                                                     /\ Len(e.res) = Len(e.cells)) \cup Ck("under", e.under)
                                 \cup Ck("shades", \A j \in 1..(Len(e.shades) - 1) : \A k \in 1..3 : e.shades[j + 1][k] <= e.shades[j][k]) \cup Sees(env[e.d].pic, env[e.d].col, e.pic))
    [] op = "d_belief" ->   \* e.w: belief per cell (one number per ghost), e.res: colour per cell
         LET W == ToFun(e.w)  C == ToFun(e.res)
             B == [x \in DOMAIN C |-> e.res[CHOOSE j \in DOMAIN e.res : e.res[j][1] = x][3]] IN
         Ask(TRUE, e, Ck("belief", DOMAIN W = DOMAIN C /\ Uniq(e.res) /\ Len(e.res) = Len(e.w)
               /\ (\A c \in DOMAIN W \cap DOMAIN C : (\A j \in DOMAIN W[c] : W[c][j] = 0) <=> C[c] = "#000000")
               /\ (\A c, k \in DOMAIN W \cap DOMAIN C : W[c] = W[k] => C[c] = C[k]))
               \cup Ck("brightness", \A c, k \in DOMAIN W \cap DOMAIN C : (\A j \in DOMAIN W[c] : W[c][j] <= W[k][j]) => \A j \in 1..3 : B[c][j] <= B[k][j])
               \cup Ck("operands", e.kept) \cup Ck("under", e.under))
    \* ------------------------------------------------------------------ the keyboard
    [] op = "k_open" -> {}
    [] op = "k_idle" -> {}
    [] op = "k_pressed" ->
         LET k == env[e.k]  d == Events(k, SubSeq(e.queue, 1, e.n)) IN
         Ask(TRUE, e, Ck("poll", Polled(e.queue, e.n)) \cup Ck("held", Rg(e.res) = d.down /\ Uniq(e.res)))
    [] op = "k_fresh" ->
         LET k == Events(env[e.k], SubSeq(e.queue, 1, e.n)) IN
         Ask(TRUE, e, Ck("pressed", Rg(e.res) = k.fresh /\ Uniq(e.res)))
    [] op = "k_wait" ->
         LET P == Passed(env[e.k], SubSeq(e.queue, 1, e.n)) IN
         IF e.waits THEN Ck("waits-for-key", Events(env[e.k], e.queue).down = {})
         ELSE Ask(TRUE, e, Ck("key", e.res # <<>> /\ \E k \in P : Rg(e.res) = k.down))
    [] op = "k_choose" ->   \* agent w at the keyboard chooses
         LET k == env[e.k]  g == env[e.s]  q == Legal(env[g.b].L, g.st, e.i)
             mem == Remembers(k, e.w, SubSeq(e.queue, 1, e.n))
             K == [a \in Dirs |-> Rg(ToFun(e.map)[a])] IN
         Ask(TRUE, e, Ck("poll", Polled(e.queue, e.n)) \cup Ck("choice", e.a \in KeyMoves(K, mem, q, k.last[e.w])))
    [] op = "k_click" ->
         LET P == Passed(env[e.k], SubSeq(e.queue, 1, e.n)) IN
         IF e.waits THEN Ck("waits-for-click", \A b \in Buttons : Events(env[e.k], e.queue).at[b] = <<>>)
         ELSE Ask(TRUE, e, Ck("click", e.at # <<>> /\ \E k \in P : k.at[e.b] = e.at))
    \* ------------------------------------------------------------------ drawing
    [] op \in DrawOps ->
         LET want == (IF op = "c_begin" THEN Blank(e) ELSE Draw(env[e.r], e))
             got == e.items IN
         Ask(TRUE, e, Ck("order", op = "c_end" \/ Names_(got) = Names_(want.q))
                      \cup (IF op = "c_end" \/ Names_(got) # Names_(want.q) THEN {} ELSE
                            UNION {Ck(IF "h" \in DOMAIN e /\ want.q[j].h = e.h THEN "item" ELSE "others", got[j] = want.q[j]) : j \in DOMAIN got})
                      \cup Ck("windows", e.windows = (IF op = "c_end" THEN 0 ELSE 1))
                      \cup Ck("size", op = "c_end" \/ e.size = <<want.w, want.h>>)
                      \cup Ck("title", op = "c_begin" => e.name = COpt(e, "title", "Graphics Window"))
                      \cup Ck("printed", op = "c_print" => e.printed)
                      \cup Ck("operands", e.kept))
    [] op = "hue" -> Ask(TRUE, e, Ck("colour", e.res = ColorText(e.v[1], e.v[2], e.v[3])))
    [] op = "rgb" -> Ask(TRUE, e, Ck("colour", e.res = e.v))
    \* ------------------------------------------------------------------ the command line
    [] op = "cmd" ->
         LET Ls == ToFun(e.layouts)
             acc == Accepts(e.opts, Rg(e.agents), Ls)
             w == Setup(e.opts, Ls)  o == e.res IN
         Ask(acc, e, Ck("layout", o.layout = w.layout) \cup Ck("pacman", o.pacman = w.pacman)
                     \cup Ck("ghosts", o.ghosts = w.ghosts) \cup Ck("games", o.games = w.games)
                     \cup Ck("display", o.zoom = w.zoom /\ o.frame = w.frame)
                     \cup Ck("record", o.record = w.record) \cup Ck("catch", o.catch = w.catch)
                     \cup Ck("timeout", o.timeout = w.timeout) \cup Ck("training", o.training = w.training)
                     \cup Ck("agent-arguments", o.takes => ToFun(o.args) = AgentArgs(e.opts))
                     \cup Ck("seed", (Given(e.opts, "seed") /\ "seeded" \in DOMAIN env) => e.draw = env["seeded"])
                     \cup Ck("seed-kept", ~Given(e.opts, "seed") => ~e.reseeded))
                \cup Ck("directory", e.kept)
    [] op = "runs" ->       \* the same seeded command run twice
         Ask(TRUE, e, Ck("same-games", e.a = e.b))
    [] op = "freq" ->       \* many draws from a distribution
         LET W == [j \in DOMAIN e.ps |-> QOf(e.ps[j])]
             N == Normal(W)
             vals == Rg(e.vs)
             P(v) == LET S == {j \in DOMAIN N : e.vs[j] = v} IN QSum([j \in S |-> N[j]], S)
             K == ToFun(e.counts) IN
         Ask(TRUE, e, Ck("support", \A v \in DOMAIN K : v \in vals /\ (K[v] > 0 => P(v) # Zero))
                      \cup Ck("frequency", \A v \in vals : Plausible(IF v \in DOMAIN K THEN K[v] ELSE 0, e.n, P(v))))
    \* ------------------------------------------------------------------ directions and small helpers
    [] op = "w_new" -> Ask(TRUE, e, Ck("body", e.res = [x |-> e.x, y |-> e.y, d |-> e.d]))
    [] op = "w_turn" -> Ask(TRUE, e, Ck("turn", e.res = Turned(e.how, e.a)))
    [] op = "w_step" ->     \* one step along a direction, v half cells
         LET w == env[e.w] IN
         Ask(TRUE, e, Ck("body", e.res = Strode(w, e.v * DX(e.a), e.v * DY(e.a)))
                      \cup Ck("on-grid", e.whole = OnGrid(e.res)) \cup Ck("changed", e.was = w)
                      \cup Ck("vector", e.vec = <<e.v * DX(e.a), e.v * DY(e.a)>> /\ e.faces = Facing(e.v * DX(e.a), e.v * DY(e.a)))
                      \cup Ck("next", e.next = <<w.x + 2 * DX(e.a), w.y + 2 * DY(e.a)>>))
    [] op = "w_eq" -> LET same == env[e.w] = env[e.o] IN Ask(TRUE, e, Ck("equality", e.res = same /\ ~e.none) \cup Ck("hash", same => e.hash))
    [] op = "possible" -> Ask(TRUE, e, Ck("possible", Rg(e.res) = Possible([walls |-> Rg(e.walls)], e.at) /\ Uniq(e.res)))
    [] op = "body" ->       \* the state of an agent is copied and the copy edited: same, copied, was, now
         Ask(TRUE, e, Ck("copied", e.copied = e.given) \cup Ck("changed", e.was = e.given) \cup Ck("edited", e.now = e.want)
                      \cup Ck("equality", e.eq[1] /\ e.eq[2] = (e.want.at = e.given.at /\ e.want.t = e.given.t)) \cup Ck("hash", e.hash))
    [] op = "near" -> Ask(TRUE, e, Ck("nearest", e.res = <<Near8(e.at[1]), Near8(e.at[2])>>))
    [] op = "dist" -> Ask(TRUE, e, Ck("distance", e.res = Abs(e.p[1] - e.q[1]) + Abs(e.p[2] - e.q[2])))
    [] op = "sign" -> Ask(TRUE, e, Ck("sign", e.res = IF e.x >= 0 THEN 1 ELSE -1))
    [] op = "turned" -> Ask(TRUE, e, Ck("transposed", e.res = Transpose(e.m)) \cup Ck("changed", e.was = e.m))
    [] op = "cellsof" -> Ask(TRUE, e, Ck("cells", Rg(e.res) = CellsOf(e.m, e.x) /\ Uniq(e.res)))
    \* ------------------------------------------------------------------ limited calls and muting
    [] op = "l_start" -> {}
    [] op = "l_enter" ->    \* seen from inside the function that is called
         Ck("armed", e.left > 0 /\ e.left <= 1000 * e.n) \cup Ck("arguments", e.same)
    [] op = "l_exit" ->     \* what came out of the limited call
         Ck("entered", env["l"].calls # <<>>) \cup Ck("result", e.out = e.did) \cup Ck("value", e.same)
         \cup Ck("handler", e.handler) \cup Ck("alarm-left", e.left = 0)
    [] op = "l_plain" ->    \* without alarms: the time that passed (e.took) is looked at afterwards
         Ck("result", e.out = (IF e.did # "raise" /\ e.took >= e.n THEN "expired" ELSE e.did)) \cup Ck("value", e.same)
    [] op = "m_set" -> Ask(TRUE, e, {})
    [] op = "m_print" -> Ask(TRUE, e, Ck("heard", e.heard = Heard(env["l"])))
    [] op = "crash" -> {"crash"}
    [] OTHER -> {"unknown-op"}

Put(env, r, v) == (r :> v) @@ env
NextEnv(env, e) ==
  LET op == e.op IN
  CASE op = "board" -> Put(env, e.r, [rows |-> e.rows, L |-> BoardOf(e.rows)])
    [] op \in {"start", "deepcopy", "pose", "succ", "succn"} /\ e.ok ->
         LET new == Put(env, e.r, [b |-> IF op = "start" THEN e.b ELSE env[e.s].b, st |-> JState(e.res)]) IN
         IF op = "succ" /\ "explored" \in DOMAIN env THEN [new EXCEPT !["explored"] = @ \cup {env[e.s].st, JState(e.res)}] ELSE new
    [] op = "forget" -> Put(env, "explored", {})
    [] op = "explored" -> Put(env, "explored", {})
    [] op = "g_new" -> LET c == JCfg(e.cfg) IN Put(env, e.r, [cfg |-> c, m |-> Settle(c, Begin(c))])
    [] op = "g_cb" -> LET g == env[e.g] IN Put(env, e.g, [g EXCEPT !.m = AfterT(g.cfg, g.m, e.out, e.dt)])
    [] op = "box" -> Put(env, e.r, NewBox(e.k))
    [] op = "push" /\ e.ok -> Put(env, e.b, Push(env[e.b], e.x, e.pr))
    [] op = "update" /\ e.ok -> Put(env, e.b, Update(env[e.b], e.x, e.pr))
    [] op = "pop" /\ e.ok /\ Size(env[e.b]) > 0 -> Put(env, e.b, Pop(env[e.b]))
    [] op \in {"counter", "cadd", "csub", "ccopy", "cnormed"} /\ e.ok -> Put(env, e.r, JCounter(e.res))
    [] op \in {"cset", "cinc", "cdiv", "cnorm", "cget"} /\ e.ok -> Put(env, e.c, JCounter(e.res))
    [] op \in {"grid", "gcopy", "gpack"} /\ e.ok -> Put(env, e.r, JGrid(e.res))
    [] op = "gwrite" /\ e.ok -> Put(env, e.g, JGrid(e.res))
    [] op = "d_open" /\ e.ok -> LET p == OpenedIn(e.mode, env[e.s].st) IN
         Put(env, e.r, [mode |-> e.mode, pic |-> p, col |-> Learn(p, [i \in {} |-> ""], e.res), kb |-> NoKeys, walls |-> Rg(e.res.walls), notes |-> <<>>,
                      step |-> IF e.prev # "-" THEN env[e.prev].step ELSE IF e.step THEN "yes" ELSE "no"])
    [] op = "d_move" /\ e.ok -> LET d == env[e.d]  p == RedrawIn(d.mode, d.pic, env[e.s].st, e.i) IN
         Put(env, e.d, [mode |-> d.mode, walls |-> d.walls, notes |-> Noted(d.notes, e.dist), pic |-> p, col |-> Learn(p, d.col, e.res), kb |-> Events(d.kb, e.done),
                      step |-> IF e.i = 1 /\ \A b \in Passed(d.kb, e.done) : "q" \in b.down THEN "no"
                              ELSE IF d.step = "yes" /\ e.i = 1 /\ \E b \in Passed(d.kb, e.done) : "q" \in b.down THEN "maybe" ELSE d.step])
    [] op = "d_cells" -> Put(env, e.d, [env[e.d] EXCEPT !.kb = Events(@, e.done)])
    [] op = "c_begin" -> Put(env, e.r, Blank(e))
    [] op \in DrawOps /\ op \notin {"c_begin", "c_end"} -> Put(env, e.r, Draw(env[e.r], e))
    [] op = "k_open" -> Put(env, e.k, NoKeys)
    [] op = "k_idle" -> Put(env, e.k, Events(env[e.k], e.evs))
    [] op \in {"k_pressed", "k_wait"} -> Put(env, e.k, Events(env[e.k], SubSeq(e.queue, 1, e.n)))
    [] op = "k_choose" -> LET k == env[e.k]  vs == SubSeq(e.queue, 1, e.n) IN
         Put(env, e.k, [Events(ReadFresh(k), vs) EXCEPT !.mem[e.w] = Remembers(k, e.w, vs), !.last[e.w] = IF e.ok THEN e.a ELSE @])
    [] op = "k_click" -> LET k == Events(env[e.k], SubSeq(e.queue, 1, e.n)) IN
         Put(env, e.k, IF e.ok /\ ~e.waits THEN [k EXCEPT !.at[e.b] = <<>>] ELSE k)
    [] op = "k_fresh" -> Put(env, e.k, ReadFresh(Events(env[e.k], SubSeq(e.queue, 1, e.n))))
    [] op = "cmd" /\ e.ok -> IF Given(e.opts, "seed") /\ "seeded" \notin DOMAIN env THEN Put(env, "seeded", e.draw) ELSE env
    [] op \in {"w_new", "w_step"} /\ e.ok -> Put(env, e.r, e.res)
    [] op = "l_start" -> Put(env, "l", Idle)
    [] op = "l_enter" -> Put(env, "l", Enter(env["l"], e.n))
    [] op = "l_exit" /\ env["l"].calls # <<>> -> Put(env, "l", Exit(env["l"]))
    [] op = "m_set" -> Put(env, "l", CASE e.k = "mute" -> Muted(env["l"]) [] e.k = "unmute" -> Unmuted(env["l"]) [] OTHER -> Redirect(env["l"], e.o))
    [] OTHER -> env
=============================================================================
