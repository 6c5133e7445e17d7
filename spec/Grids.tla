-------------------------------- MODULE Grids --------------------------------
(* A grid is [w, h, on |-> set of cells]; a layout is read from the rows of a text, top row first. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cells2(w, h) == (0..(w - 1)) \X (0..(h - 1))
NewGrid(w, h, v) == [w |-> w, h |-> h, on |-> IF v THEN Cells2(w, h) ELSE {}]
Write(g, x, y, v) == [g EXCEPT !.on = IF v THEN @ \cup {<<x, y>>} ELSE @ \ {<<x, y>>}]
CountG(g, v) == IF v THEN Cardinality(g.on) ELSE g.w * g.h - Cardinality(g.on)
OnG(g, v) == IF v THEN g.on ELSE Cells2(g.w, g.h) \ g.on
\* texts
CharAt(rows, x, y) == SubSeq(rows[Len(rows) - y], x + 1, x + 1)
RowsCells(rows) == Cells2(Len(rows[1]), Len(rows))
Where(rows, ch) == {c \in RowsCells(rows) : CharAt(rows, c[1], c[2]) = ch}
Rank(ch) == CASE ch = "P" -> 0 [] ch = "G" -> 1 [] ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3 [] ch = "4" -> 4 [] OTHER -> 9
AgentCells(rows) == {c \in RowsCells(rows) : Rank(CharAt(rows, c[1], c[2])) < 9}
Before(rows, a, b) ==
  LET p == Rank(CharAt(rows, a[1], a[2]))  q == Rank(CharAt(rows, b[1], b[2])) IN
  p < q \/ (p = q /\ (a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])))
RECURSIVE Sorted(_, _)
Sorted(rows, S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : \A b \in S : a = b \/ Before(rows, a, b)
                                            IN <<a>> \o Sorted(rows, S \ {a})
Agents(rows) == Sorted(rows, AgentCells(rows))
=============================================================================
