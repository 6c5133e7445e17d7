----------------------------- MODULE MC_Canvas -----------------------------
(* Every short session of drawing calls on a small canvas; each is emitted to be replayed on the code. *)
EXTENDS Canvas, Json
CONSTANTS MaxLen
VARIABLES cv, hist
vars == <<cv, hist>>
Start == [op |-> "c_begin", opts |-> << <<"width", 40>>, <<"height", 30>> >>]
Fresh == "i" \o ToString(Len(hist) + 1)
Handles == {h \in {cv.q[j].h : j \in DOMAIN cv.q} : h # "bg"}
News == {[op |-> "c_new", k |-> "polygon", h |-> Fresh, at |-> << <<8, 8>>, <<40, 12>>, <<20, 44>> >>, color |-> "#ff0000", opts |-> o]
            : o \in {<<>>, << <<"filled", FALSE>>, <<"smoothed", FALSE>> >>, << <<"fill", "#00ff00">>, <<"width", 3>> >>}}
        \cup {[op |-> "c_new", k |-> "circle", h |-> Fresh, at |-> << <<80, 60>> >>, rad |-> 20, color |-> "#0000ff", opts |-> o]
            : o \in {<<>>, << <<"ends", <<2640, 240>>>> >>, << <<"fill", "#ffffff">>, <<"style", "arc">> >>}}
        \cup {[op |-> "c_new", k |-> "square", h |-> Fresh, at |-> << <<100, 100>> >>, rad |-> 12, color |-> "#0a0b0c", opts |-> o]
            : o \in {<<>>} \cup {<< <<"behind", h>> >> : h \in Handles}}
        \cup {[op |-> "c_new", k |-> "text", h |-> Fresh, at |-> << <<16, 24>> >>, text |-> "hi", color |-> "#ffffff", opts |-> <<>>]}
        \cup {[op |-> "c_new", k |-> "line", h |-> Fresh, at |-> << <<0, 0>>, <<44, 8>> >>, opts |-> <<>>]}
Changes == {[op |-> "c_to", h |-> h, x |-> 33, y |-> 17, opts |-> <<>>] : h \in Handles}
        \cup {[op |-> "c_by", h |-> h, x |-> -9, y |-> 5, opts |-> o] : h \in Handles, o \in {<<>>, << <<"lift", TRUE>> >>}}
        \cup {[op |-> "c_turn", h |-> h, x |-> 48, y |-> 56, rad |-> 20, opts |-> << <<"ends", <<360, 2520>>>> >>] : h \in {x \in Handles : Of(cv, x).k = "arc"}}
        \cup {[op |-> "c_edit", h |-> h, opts |-> << <<"fill", "#abcdef">>, <<"width", 4>> >>] : h \in {x \in Handles : Of(cv, x).k # "text"}}
        \cup {[op |-> "c_color", h |-> h, color |-> "#123456", opts |-> <<>>] : h \in Handles}
        \cup {[op |-> "c_text", h |-> h, text |-> "yo", opts |-> << <<"font", "Times">>, <<"size", 20>> >>] : h \in {x \in Handles : Of(cv, x).k = "text"}}
        \cup {[op |-> "c_remove", h |-> h, opts |-> <<>>] : h \in Handles}
        \cup {[op |-> "c_clear", opts |-> <<>>]}
Init == cv = Blank(Start) /\ hist = <<>>
Next == Len(hist) < MaxLen /\ \E e \in News \cup Changes : cv' = Draw(cv, e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------------ laws
Distinct == \A i, j \in DOMAIN cv.q : cv.q[i].h = cv.q[j].h => i = j
Ground == cv.q # <<>> /\ \E j \in DOMAIN cv.q : cv.q[j] = Backdrop(cv.w, cv.h, cv.c)
Angles == \A j \in DOMAIN cv.q : cv.q[j].extent >= 0 /\ cv.q[j].extent < 2880
\* nobody but the item named changes, and only a lift or a creation changes who covers whom
Last == hist'[Len(hist')]
Local == [][LET e == Last IN
   (e.op # "c_clear" => Others(cv'.q, e.h) = Others(cv.q, e.h) /\ Names_(Without(cv'.q, e.h)) = Names_(Without(cv.q, e.h)))]_vars
Steady == [][LET e == Last IN (e.op \in {"c_to", "c_turn", "c_edit", "c_color", "c_text"} \/ (e.op = "c_by" /\ e.opts = <<>>)) => Names_(cv'.q) = Names_(cv.q)]_vars
Back == \A h \in Handles :      \* moving there and back again; moving twice; moving keeps the shape
   LET e(x, y) == [op |-> "c_by", h |-> h, x |-> x, y |-> y, opts |-> <<>>]
       f == [op |-> "c_to", h |-> h, x |-> 7, y |-> 9, opts |-> <<>>]
       p == Of(cv, h).pts  p2 == Of(Draw(cv, f), h).pts
   IN /\ Draw(Draw(cv, e(3, -4)), e(-3, 4)) = cv
      /\ Draw(Draw(cv, f), f) = Draw(cv, f)
      /\ SubSeq(p2, 1, 2) = <<7, 9>>
      /\ \A j \in DOMAIN p : p2[j] - p2[2 - (j % 2)] = p[j] - p[2 - (j % 2)]
Emit == hist # <<>> /\ (hist[Len(hist)].op # "c_new" \/ hist[Len(hist)].opts # <<>>) => PrintT(<<"PLAN", ToJson(hist)>>)
=============================================================================
