------------------------------- MODULE Canvas -------------------------------
(* The drawing calls of graphicsUtils.  A picture is a sequence of items, the lowest first; an item is a record with its
   name h, its kind, its points (numbers in eighths: x1, y1, x2, y2, ...), and its looks.  A call is a record e with e.op;
   Draw(cv, e) is the picture after it.  Options a caller may leave out are pairs <<name, value>> in e.opts.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CGiven(e, n) == \E j \in DOMAIN e.opts : e.opts[j][1] = n
COpt(e, n, default) == IF CGiven(e, n) THEN e.opts[CHOOSE j \in DOMAIN e.opts : e.opts[j][1] = n][2] ELSE default

Item0 == [h |-> "", k |-> "", pts |-> <<>>, fill |-> "", outline |-> "", width |-> 1, smooth |-> FALSE, start |-> 0, extent |-> 0,
          style |-> "", text |-> "", font |-> "", anchor |-> "", file |-> ""]
Black == "#000000"
RECURSIVE Turn(_, _)
Turn(a, b) == IF a > b THEN Turn(a, b + 2880) ELSE b - a        \* the angle from a on to b, counter-clockwise
Ends(e) == COpt(e, "ends", <<0, 2872>>)
RoundBox(x, y, r) == <<x - r - 8, y - r - 8, x + r, y + r>>
RECURSIVE FlatPts(_)
FlatPts(q) == IF q = <<>> THEN <<>> ELSE q[1] \o FlatPts(Tail(q))

NewItem(e) ==
  CASE e.k = "polygon" ->
         [Item0 EXCEPT !.h = e.h, !.k = "polygon", !.pts = FlatPts(e.at), !.outline = e.color, !.width = COpt(e, "width", 1),
                       !.fill = IF ~COpt(e, "filled", TRUE) THEN "" ELSE COpt(e, "fill", e.color), !.smooth = COpt(e, "smoothed", TRUE)]
    [] e.k = "square" ->
         LET x == e.at[1][1]  y == e.at[1][2]  r == e.rad IN
         [Item0 EXCEPT !.h = e.h, !.k = "polygon", !.pts = <<x - r, y - r, x + r, y - r, x + r, y + r, x - r, y + r>>, !.outline = e.color,
                       !.fill = IF ~COpt(e, "filled", TRUE) THEN "" ELSE e.color]
    [] e.k = "circle" ->
         [Item0 EXCEPT !.h = e.h, !.k = "arc", !.pts = RoundBox(e.at[1][1], e.at[1][2], e.rad), !.outline = e.color, !.fill = COpt(e, "fill", e.color),
                       !.start = Ends(e)[1], !.extent = Turn(Ends(e)[1], Ends(e)[2]), !.style = COpt(e, "style", "pieslice"), !.width = COpt(e, "width", 2)]
    [] e.k = "line" ->
         [Item0 EXCEPT !.h = e.h, !.k = "line", !.pts = FlatPts(e.at), !.fill = COpt(e, "color", Black), !.width = COpt(e, "width", 2)]
    [] e.k = "text" ->
         [Item0 EXCEPT !.h = e.h, !.k = "text", !.pts = e.at[1], !.fill = e.color, !.text = e.text, !.anchor = COpt(e, "anchor", "nw"), !.width = 0,
                       !.font = COpt(e, "font", "Helvetica") \o " " \o ToString(COpt(e, "size", 12)) \o " " \o COpt(e, "style", "normal")]
    [] e.k = "image" ->
         [Item0 EXCEPT !.h = e.h, !.k = "image", !.pts = e.at[1], !.anchor = "nw", !.file = e.file, !.width = 0]

At(q, h) == CHOOSE j \in DOMAIN q : q[j].h = h
Has(q, h) == \E j \in DOMAIN q : q[j].h = h
Without(q, h) == SelectSeq(q, LAMBDA t : t.h # h)
Below(q, t, h) == LET j == At(q, h) IN SubSeq(q, 1, j - 1) \o <<t>> \o SubSeq(q, j, Len(q))
Shift(pts, dx, dy) == [j \in DOMAIN pts |-> pts[j] + (IF j % 2 = 1 THEN dx ELSE dy)]
Onto(pts, x, y) == Shift(pts, x - pts[1], y - pts[2])       \* the first point comes to (x, y)
RECURSIVE Looks(_, _)
Looks(t, opts) == IF opts = <<>> THEN t
  ELSE Looks(CASE opts[1][1] = "fill" -> [t EXCEPT !.fill = opts[1][2]]
               [] opts[1][1] = "outline" -> [t EXCEPT !.outline = opts[1][2]]
               [] opts[1][1] = "width" -> [t EXCEPT !.width = opts[1][2]]
               [] opts[1][1] = "start" -> [t EXCEPT !.start = opts[1][2]]
               [] opts[1][1] = "extent" -> [t EXCEPT !.extent = opts[1][2]]
               [] opts[1][1] = "style" -> [t EXCEPT !.style = opts[1][2]]
               [] opts[1][1] = "text" -> [t EXCEPT !.text = opts[1][2]]
               [] OTHER -> t, Tail(opts))

Backdrop(w, h, c) == [Item0 EXCEPT !.h = "bg", !.k = "polygon", !.pts = <<0, 0, 0, 8 * (h - 1), 8 * (w - 1), 8 * (h - 1), 8 * (w - 1), 0>>,
                                   !.fill = c, !.outline = c]
\* a canvas: its size, its background colour, its items
Blank(e) == LET w == COpt(e, "width", 640)  h == COpt(e, "height", 480)  c == COpt(e, "color", Black)
            IN [w |-> w, h |-> h, c |-> c, q |-> <<Backdrop(w, h, c)>>]
Upd(cv, h, t) == [cv EXCEPT !.q[At(cv.q, h)] = t]
Of(cv, h) == cv.q[At(cv.q, h)]
Draw(cv, e) ==
  LET q == cv.q IN
  CASE e.op = "c_new" -> IF CGiven(e, "behind") THEN [cv EXCEPT !.q = Below(q, NewItem(e), COpt(e, "behind", ""))] ELSE [cv EXCEPT !.q = Append(q, NewItem(e))]
    [] e.op = "c_to" -> Upd(cv, e.h, [Of(cv, e.h) EXCEPT !.pts = Onto(@, e.x, e.y)])
    [] e.op = "c_by" -> LET t == [Of(cv, e.h) EXCEPT !.pts = Shift(@, e.x, e.y)] IN
                        IF COpt(e, "lift", FALSE) THEN [cv EXCEPT !.q = Append(Without(q, e.h), t)] ELSE Upd(cv, e.h, t)
    [] e.op = "c_turn" -> \* moveCircle: to another place, open at other angles
         LET t == Of(cv, e.h)  b == RoundBox(e.x, e.y, e.rad) IN
         Upd(cv, e.h, [t EXCEPT !.pts = Onto(@, b[1], b[2]), !.start = Ends(e)[1], !.extent = Turn(Ends(e)[1], Ends(e)[2])])
    [] e.op = "c_edit" -> Upd(cv, e.h, Looks(Of(cv, e.h), e.opts))
    [] e.op = "c_color" -> Upd(cv, e.h, [Of(cv, e.h) EXCEPT !.fill = e.color])
    [] e.op = "c_text" -> LET t == [Of(cv, e.h) EXCEPT !.text = e.text] IN
         Upd(cv, e.h, IF CGiven(e, "font") THEN [t EXCEPT !.font = COpt(e, "font", "") \o " -" \o ToString(COpt(e, "size", 12)) \o " " \o COpt(e, "style", "normal")] ELSE t)
    [] e.op = "c_remove" -> [cv EXCEPT !.q = Without(q, e.h)]
    [] e.op = "c_clear" -> [cv EXCEPT !.q = <<Backdrop(cv.w, cv.h, cv.c)>>]
    [] OTHER -> cv
Names_(q) == [j \in DOMAIN q |-> q[j].h]
Others(q, h) == {q[j] : j \in {i \in DOMAIN q : q[i].h # h}}

\* ------------------------------------------------------------------ colours
Hex(d) == SubSeq("0123456789abcdef", d + 1, d + 1)
Hex2(n) == Hex(n \div 16) \o Hex(n % 16)
Channel(k) == (255 * k) \div 256          \* k: brightness in 256ths
ColorText(r, g, b) == "#" \o Hex2(Channel(r)) \o Hex2(Channel(g)) \o Hex2(Channel(b))
=============================================================================
