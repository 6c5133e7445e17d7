------------------------------ MODULE Counters ------------------------------
(* Counters: total functions from keys to exact rationals, zero almost everywhere.  A counter is the function
   restricted to the keys that were ever touched; keys at zero and absent keys are the same.  Rationals are <<n, d>>,
   d > 0, reduced. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
AbsC(n) == IF n < 0 THEN -n ELSE n
RECURSIVE GcdC(_, _)
GcdC(a, b) == IF b = 0 THEN a ELSE GcdC(b, a % b)
Q(n, d) == LET g == GcdC(AbsC(n), AbsC(d))  s == IF d < 0 THEN -1 ELSE 1 IN
           IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
QAdd(a, b) == Q(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
QNeg(a) == <<-a[1], a[2]>>
QMul(a, b) == Q(a[1] * b[1], a[2] * b[2])
QDiv(a, b) == Q(a[1] * b[2], a[2] * b[1])
QLess(a, b) == a[1] * b[2] < b[1] * a[2]
Zero == <<0, 1>>
None == [x \in {} |-> Zero]
Get(c, x) == IF x \in DOMAIN c THEN c[x] ELSE Zero
Set(c, x, v) == (x :> v) @@ c
Kept(c, d) == DOMAIN c = DOMAIN d /\ \A x \in DOMAIN c : c[x] = d[x]     \* not even a key more
Same(c, d) == \A x \in DOMAIN c \cup DOMAIN d : Get(c, x) = Get(d, x)
Plus(c, d) == [x \in DOMAIN c \cup DOMAIN d |-> QAdd(Get(c, x), Get(d, x))]
Minus(c, d) == [x \in DOMAIN c \cup DOMAIN d |-> QAdd(Get(c, x), QNeg(Get(d, x)))]
RECURSIVE QSum(_, _)
QSum(c, S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN QAdd(c[x], QSum(c, S \ {x}))
TotalOf(c) == QSum(c, DOMAIN c)
Dot(c, d) == LET S == DOMAIN c \cap DOMAIN d IN QSum([x \in S |-> QMul(c[x], d[x])], S)
Over(c, v) == [x \in DOMAIN c |-> QDiv(c[x], v)]
Normal(c) == IF TotalOf(c) = Zero THEN c ELSE Over(c, TotalOf(c))
RECURSIVE IncAll(_, _, _)
IncAll(c, q, v) == IF q = <<>> THEN c ELSE IncAll(Set(c, Head(q), QAdd(Get(c, Head(q)), v)), Tail(q), v)
IsMax(c, x) == x \in DOMAIN c /\ \A y \in DOMAIN c : ~QLess(c[x], c[y])
Descending(c, q) == \A j \in 1..(Len(q) - 1) : ~QLess(Get(c, q[j]), Get(c, q[j + 1]))
=============================================================================
