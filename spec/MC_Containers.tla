---------------------------- MODULE MC_Containers ----------------------------
(* Every history of at most MaxLen calls on each kind of container over the given items and priorities. *)
EXTENDS Containers, Json
CONSTANTS MaxLen, Items, Prios
VARIABLES box, hist, popped
vars == <<box, hist, popped>>
Init == box \in {NewBox(k) : k \in {"stack", "queue", "pq"}} /\ hist = <<>> /\ popped = <<>>
Waiting(x) == \E e \in box.h : e[3] = x
Next == /\ Len(hist) < MaxLen
        /\ \/ \E x \in Items, pr \in (IF IsPrio(box) THEN Prios ELSE {0}) :
                box' = Push(box, x, pr) /\ hist' = Append(hist, [op |-> "push", x |-> x, pr |-> pr]) /\ UNCHANGED popped
           \/ /\ Size(box) > 0
              /\ popped' = Append(popped, Top(box)) /\ box' = Pop(box) /\ hist' = Append(hist, [op |-> "pop"])
           \/ /\ box.k = "pq"
              /\ \E x \in Items, pr \in Prios :
                   /\ Cardinality({e \in box.h : e[3] = x}) <= 1
                   /\ box' = Update(box, x, pr) /\ hist' = Append(hist, [op |-> "update", x |-> x, pr |-> pr])
              /\ UNCHANGED popped
Spec == Init /\ [][Next]_vars
Pushes == SelectSeq(hist, LAMBDA h : h.op = "push")
Cnt(q, x) == Cardinality({j \in DOMAIN q : q[j] = x})
\* what came out and what is still inside is what went in
Inside(x) == IF IsPrio(box) THEN Cardinality({e \in box.h : e[3] = x}) ELSE Cnt(box.q, x)
NoUpdates == \A j \in DOMAIN hist : hist[j].op # "update"
Conserved == NoUpdates => \A x \in Items : Cnt(popped, x) + Inside(x) = Cardinality({j \in DOMAIN Pushes : Pushes[j].x = x})
Fifo == box.k = "queue" => \A j \in DOMAIN popped : popped[j] = Pushes[j].x
Lowest == [][(Len(popped') > Len(popped) /\ IsPrio(box)) => \E e \in box.h : e[3] = popped'[Len(popped')] /\ \A f \in box.h : e[1] <= f[1]]_vars
Lowers == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "update") =>
              \A e \in box.h : \E f \in box'.h : f[3] = e[3] /\ f[1] <= e[1]]_vars
Emit == Len(hist) = MaxLen => PrintT(<<"PLAN", ToJson([k |-> box.k, h |-> hist])>>)
=============================================================================
