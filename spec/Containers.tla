----------------------------- MODULE Containers -----------------------------
(* Stack, queue, priority queues as values: sequences of items, or sets of entries <<priority, tick, item>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NewBox(kind) == [k |-> kind, q |-> <<>>, h |-> {}, tick |-> 0]
IsPrio(b) == b.k \in {"pq", "pqf"}
Size(b) == IF IsPrio(b) THEN Cardinality(b.h) ELSE Len(b.q)
Push(b, x, pr) == IF IsPrio(b) THEN [b EXCEPT !.h = @ \cup {<<pr, b.tick, x>>}, !.tick = @ + 1]
                  ELSE [b EXCEPT !.q = Append(@, x)]
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Least(h) == CHOOSE a \in h : \A b \in h : a = b \/ Less(a, b)
Top(b) == CASE b.k = "stack" -> b.q[Len(b.q)] [] b.k = "queue" -> b.q[1] [] OTHER -> Least(b.h)[3]
Pop(b) == CASE b.k = "stack" -> [b EXCEPT !.q = SubSeq(@, 1, Len(@) - 1)]
            [] b.k = "queue" -> [b EXCEPT !.q = Tail(@)]
            [] OTHER -> [b EXCEPT !.h = @ \ {Least(@)}]
\* update: only ever lowers the priority of a waiting item, pushes an absent one (items are unique where it is used)
Update(b, x, pr) ==
  LET at == {e \in b.h : e[3] = x} IN
  IF at = {} THEN Push(b, x, pr)
  ELSE LET e == CHOOSE e \in at : TRUE IN
       IF e[1] <= pr THEN b ELSE [b EXCEPT !.h = (@ \ {e}) \cup {<<pr, e[2], x>>}]
=============================================================================
