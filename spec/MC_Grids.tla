------------------------------- MODULE MC_Grids -------------------------------
(* Every layout text of the given size over an alphabet (one Pacman), and every sequence of writes to a small grid. *)
EXTENDS Grids, Json
CONSTANTS W, H, MaxLen
VARIABLES g, c, hist
vars == <<g, c, hist>>
Init == \E w \in 1..W, h \in 1..H, v \in BOOLEAN : g = NewGrid(w, h, v) /\ c = g /\ hist = <<<<"new", w, h, v>>>>
Next == /\ Len(hist) <= MaxLen
        /\ \/ \E x \in 0..(g.w - 1), y \in 0..(g.h - 1), v \in BOOLEAN :
                g' = Write(g, x, y, v) /\ c' = c /\ hist' = Append(hist, <<"write", x, y, v>>)
           \/ c' = g /\ g' = g /\ hist' = Append(hist, <<"copy">>)
           \/ c' = g /\ g' = c /\ hist' = Append(hist, <<"swap">>)
Spec == Init /\ [][Next]_vars
InGrid == g.on \subseteq Cells2(g.w, g.h) /\ CountG(g, TRUE) + CountG(g, FALSE) = g.w * g.h
Split == OnG(g, TRUE) \cap OnG(g, FALSE) = {} /\ OnG(g, TRUE) \cup OnG(g, FALSE) = Cells2(g.w, g.h)
OneCell == [][hist'[Len(hist')][1] = "write" =>
   \A x \in Cells2(g.w, g.h) : x # <<hist'[Len(hist')][2], hist'[Len(hist')][3]>> => ((x \in g'.on) <=> (x \in g.on))]_vars
Emit == Len(hist) = MaxLen + 1 => PrintT(<<"PLAN", ToJson(hist)>>)
\* reading a text loses nothing: every cell is accounted for exactly once
TestRows == <<"%%%%", "%P2%", "%1G%", "%.o%", "%%%%">>
ASSUME Agents(TestRows) = <<<<1, 3>>, <<1, 2>>, <<2, 2>>, <<2, 3>>>>
ASSUME Where(TestRows, ".") = {<<1, 1>>} /\ Where(TestRows, "o") = {<<2, 1>>}
=============================================================================
