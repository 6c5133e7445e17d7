------------------------------- MODULE Compass -------------------------------
(* Directions, moving bodies and the small helpers on cells and matrices.  A body is [x, y, d] (half cells). *)
EXTENDS Pacman

Left(a) == CASE a = "North" -> "West" [] a = "West" -> "South" [] a = "South" -> "East" [] a = "East" -> "North" [] OTHER -> "Stop"
Right(a) == CASE a = "North" -> "East" [] a = "East" -> "South" [] a = "South" -> "West" [] a = "West" -> "North" [] OTHER -> "Stop"
Turned(how, a) == CASE how = "left" -> Left(a) [] how = "right" -> Right(a) [] how \in {"reverse", "back"} -> Rev(a)
\* the direction of a vector along an axis
Facing(dx, dy) == CASE dy > 0 -> "North" [] dy < 0 -> "South" [] dx > 0 -> "East" [] dx < 0 -> "West" [] OTHER -> "Stop"
Strode(p, dx, dy) == [x |-> p.x + dx, y |-> p.y + dy, d |-> IF dx = 0 /\ dy = 0 THEN p.d ELSE Facing(dx, dy)]
\* coordinates in eighths of a cell, none negative: the nearest cell, halves upwards
Near8(n) == (n + 4) \div 8
Transpose(m) == IF m = <<>> THEN <<>> ELSE [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]
CellsOf(m, v) == {<<i - 1, j - 1>> : i \in 1..Len(m), j \in 1..Len(m[1])} \cap {c \in (0..20) \X (0..20) : c[1] < Len(m) /\ c[2] < Len(m[1]) /\ m[c[1] + 1][c[2] + 1] = v}

\* the turns are the rotations of the plane
ASSUME \A a \in Dirs : /\ DX(Left(a)) = -DY(a) /\ DY(Left(a)) = DX(a)
                       /\ Right(Left(a)) = a /\ Left(Right(a)) = a /\ Left(Left(a)) = Rev(a) /\ Rev(Rev(a)) = a
                       /\ DX(Rev(a)) = -DX(a) /\ DY(Rev(a)) = -DY(a)
                       /\ \A v \in 1..2 : Facing(v * DX(a), v * DY(a)) = a
=============================================================================
