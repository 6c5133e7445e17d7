------------------------------ MODULE Inference ------------------------------
(* What the inference operations of a relation graph mean, on bags of samples. *)
EXTENDS Bags

\* ---------------------------------------------------------------- conditioning
Selects(ev, s) == IsSub(ev, s) \/ VarsOf(ev) \cap VarsOf(s) = {}
Condition(B, ev) == BagKeep(B, {s \in DOMAIN B : Selects(ev, s)})
FindValues(B, N) == BagKeep(B, {s \in DOMAIN B : N \subseteq s.nodes})

\* ---------------------------------------------------------------- factors
HasK0(B) == Empty \in DOMAIN B
Overlap(s, t) == LET a == EndpointVars(s) b == EndpointVars(t) IN a # b /\ a \cap b # {}
IsFactorized(B) == ~HasK0(B) /\ \A s, t \in DOMAIN B : ~Overlap(s, t)
FactorOf(s) == IF s.edges = {} THEN {VarsOf(s)} ELSE EndpointVars(s)
Factors(B) == LET ks == {FactorOf(s) : s \in DOMAIN B}
              IN {BagKeep(B, {s \in DOMAIN B : FactorOf(s) = k}) : k \in ks}
IsJoined(B) == \A s, t \in DOMAIN B : VarsOf(s) = VarsOf(t)

\* ---------------------------------------------------------------- joint distribution
\* one elimination step: variable v, whose possible values are vals
RowsWith(f, n) == BagKeep(f, {s \in DOMAIN f : n \in s.nodes})
ElimStep(Fs, v, vals) ==
  LET fv == {f \in Fs : v \in BagVars(f)}
      for(x) == LET rows == {RowsWith(f, <<v, x>>) : f \in fv} \ {EmptyBag}
                IN IF rows = {} THEN EmptyBag ELSE BagJoinAll(rows)
      RECURSIVE acc(_)
      acc(X) == IF X = {} THEN EmptyBag ELSE LET x == CHOOSE y \in X : TRUE IN BagSum(for(x), acc(X \ {x}))
  IN (Fs \ fv) \cup {acc(vals)}
ElimFinal(Fs) == IF EmptyBag \in Fs \/ Fs = {} THEN <<EmptyBag>>
                 ELSE IF Cardinality(Fs) = 1 THEN <<CHOOSE f \in Fs : TRUE>> ELSE <<>>    \* <<>> : rejected
RECURSIVE ElimAll(_, _, _)
\* all outcomes of eliminating the variables V of B, in every order: set of <<bag>> or <<>>
ElimAll(B, Fs, V) ==
  IF V = {} THEN {ElimFinal(Fs)}
  ELSE UNION {ElimAll(B, ElimStep(Fs, v, BagValues(B, v)), V \ {v}) : v \in V}
JointResults(B) == ElimAll(B, Factors(B), BagVars(B))
\* the counts of a bag modulo m (0: as they are)
BagMod(B, m) == IF m = 0 THEN B ELSE [s \in DOMAIN B |-> B[s] % m]
\* is r one of them (lazily)
RECURSIVE ElimReaches(_, _, _, _, _)
ElimReaches(B, Fs, V, r, m) ==
  IF V = {} THEN LET f == ElimFinal(Fs) IN r = IF f = <<>> THEN f ELSE <<BagMod(f[1], m)>>
  ELSE \E v \in V : ElimReaches(B, {BagMod(f, m) : f \in ElimStep(Fs, v, BagValues(B, v))}, V \ {v}, r, m)

\* tables are complete: each factor offers every combination of the values its variables have anywhere, once
CompleteFactor(B, f) ==
  LET V == BagVars(f)
      S == DOMAIN f
  IN /\ \A s \in S : VarsOf(s) = V /\ SingleValued(s)
     /\ \A s, t \in S : s.nodes = t.nodes => s = t
     /\ Cardinality(S) = ProdVals([vars |-> [v \in V |-> BagValues(B, v)]], V)
CompleteTables(B) == IsFactorized(B) /\ \A f \in Factors(B) : CompleteFactor(B, f)
RECURSIVE FactorReach(_, _)
FactorReach(V, Fs) == LET W == V \cup UNION {BagVars(f) : f \in {g \in Fs : BagVars(g) \cap V # {}}}
                      IN IF W = V THEN V ELSE FactorReach(W, Fs)
ConnectedFactors(B) == LET Fs == Factors(B) IN
  Fs = {} \/ FactorReach(BagVars(CHOOSE f \in Fs : TRUE), Fs) = BagVars(B)
ProductJoint(B) == IF B = EmptyBag THEN EmptyBag ELSE BagJoinAll(Factors(B))

\* ---------------------------------------------------------------- join on variables
GroupKey(s) == IF s.edges = {} THEN {VarsOf(s)} ELSE EndpointVars(s)
RECURSIVE CloseKey(_, _)
CloseKey(K, S) == LET L == K \cup UNION {GroupKey(s) : s \in {t \in S : GroupKey(t) \cap K # {}}}
                  IN IF L = K THEN K ELSE CloseKey(L, S)
\* the groups of a bag, as a set of sub-bags
Groups(B) == LET ks == {CloseKey(GroupKey(s), DOMAIN B) : s \in DOMAIN B}
             IN {BagKeep(B, {s \in DOMAIN B : GroupKey(s) \cap k # {}}) : k \in ks}
GroupsNamed(B) == \A g, h \in Groups(B) : BagVars(g) = BagVars(h) => g = h
JoinStep(B, v) ==
  LET J == BagKeep(B, {s \in DOMAIN B : v \in VarsOf(s)})
      gs == Groups(J)
      joined == IF gs = {} THEN EmptyBag ELSE BagJoinAll(gs)
  IN BagSum(BagDrop(B, DOMAIN J), joined)
JoinStepOk(B, v) == GroupsNamed(BagKeep(B, {s \in DOMAIN B : v \in VarsOf(s)}))
RECURSIVE JoinReaches(_, _, _, _)
\* r = <<bag>> or <<>> (rejected) is reachable by joining on the variables V in some order
JoinReaches(B, V, r, m) ==
  IF V = {} THEN r = <<BagMod(B, m)>>
  ELSE \E v \in V : IF JoinStepOk(B, v) THEN JoinReaches(BagMod(JoinStep(B, v), m), V \ {v}, r, m) ELSE r = <<>>
RECURSIVE JoinResults(_, _)
JoinResults(B, V) ==
  IF V = {} THEN {<<B>>}
  ELSE UNION {IF JoinStepOk(B, v) THEN JoinResults(JoinStep(B, v), V \ {v}) ELSE {<<>>} : v \in V}

\* ---------------------------------------------------------------- marginals, as pairs numerator/denominator
MassOf(B, n) == Total(RowsWith(B, n))
MassVar(B, v) == Total(BagKeep(B, {s \in DOMAIN B : v \in VarsOf(s)}))
\* B restricted to evidence nodes N (a set of nodes with different variables)
Posterior(B, N) == FindValues(ProductJoint(B), N)

\* ---------------------------------------------------------------- independence
\* the table f is a conditional distribution of v: its mass is the same for every combination of its other variables
Rest(s, v) == {n \in s.nodes : n[1] # v}
CpdOf(f, v) == LET R == {Rest(s, v) : s \in DOMAIN f}
                   Mass(r) == Total(BagKeep(f, {s \in DOMAIN f : Rest(s, v) = r}))
               IN \A r, q \in R : Mass(r) = Mass(q)
\* tables that can be left out as long as none of the variables K is lost: a conditional distribution of a variable
\* which no other table mentions and nobody asks about
Barren(Fs, K) == {f \in Fs : \E v \in BagVars(f) \ K : (\A g \in Fs \ {f} : v \notin BagVars(g)) /\ CpdOf(f, v)}
RECURSIVE Prune(_, _)
Prune(Fs, K) == LET D == Barren(Fs, K) IN IF D = {} THEN Fs ELSE Prune(Fs \ {CHOOSE f \in D : TRUE}, K)
RECURSIVE ReachWithout(_, _, _)
ReachWithout(V, Fs, E) == LET W == V \cup UNION {BagVars(f) \ E : f \in {g \in Fs : BagVars(g) \cap V # {}}}
                          IN IF W = V THEN V ELSE ReachWithout(W, Fs, E)
\* the variables E separate v from w
Separated(B, v, w, E) == /\ v # w /\ v \notin E /\ w \notin E
                         /\ w \notin ReachWithout({v}, Prune(Factors(B), E \cup {v, w}), E)

\* ---------------------------------------------------------------- folded graph
FoldVars(B) == BagVars(B)
FoldNode(B, v) == {<<<<v, x>>, MassOf(B, <<v, x>>)>> : x \in BagValues(B, v)}
FoldPairs(B) == UNION {EndpointVars(s) : s \in DOMAIN B}
EdgesOfBag(B) == UNION {s.edges : s \in DOMAIN B}
EdgeMass(B, e) == Total(BagKeep(B, {s \in DOMAIN B : e \in s.edges}))
FoldEdge(B, p) == {<<e, EdgeMass(B, e)>> : e \in {x \in EdgesOfBag(B) : EpVars(x) = p}}

\* ---------------------------------------------------------------- activation graph
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
RECURSIVE LcmAll(_)
LcmAll(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE IN Lcm(x, LcmAll(S \ {x}))
ExternalOf(s, ev, flt) == {p[1] : p \in ExternalPairs(s, ev.nodes, flt)}
ExternalEdgesOf(s, ev, flt) == {p[2] : p \in ExternalPairs(s, ev.nodes, flt)}
\* weight of node n = WeightNum/WeightDen; D is a common denominator of all similarities
WeightNum(B, ev, flt, n, D) ==
  IF n \in ev.nodes THEN D * MassOf(B, n)
  ELSE LET S == {s \in DOMAIN B : n \in s.nodes /\ n \in ExternalOf(s, ev, flt)}
       IN SumOver([s \in S |-> SimNum(s, ev) * (D \div SimDen(s, ev)) * B[s]], S)
SimLcm(B, ev) == LcmAll({SimDen(s, ev) : s \in DOMAIN B})
\* relation counts of the activation graph: set of <<pair of variables, relation, count>>
ActOutEdges(B, ev, flt) == UNION {ExternalEdgesOf(s, ev, flt) : s \in DOMAIN B}
ActOutCount(B, ev, flt, p, r) ==   \* edges of one outcome with the same variables and relation are one node pair
  LET es(s) == {e \in ExternalEdgesOf(s, ev, flt) : EpVars(e) = p /\ e.rel = r}
  IN SumOver([s \in DOMAIN B |-> Cardinality(es(s)) * B[s]], DOMAIN B)
ActEdges(B, ev, flt) ==
  IF B = EmptyBag THEN {}
  ELSE {<<EpVars(e), e.rel, Total(B), TRUE>> : e \in ev.edges}
       \cup {<<EpVars(e), e.rel, ActOutCount(B, ev, flt, EpVars(e), e.rel), FALSE>> : e \in ActOutEdges(B, ev, flt)}

\* ---------------------------------------------------------------- nine decimals of num/den (0 <= num <= den < 2*10^8)
RECURSIVE Digits(_, _, _, _)
Digits(r, d, k, acc) == IF k = 0 THEN acc ELSE Digits((r * 10) % d, d, k - 1, acc * 10 + ((r * 10) \div d))
Fx(num, den) == IF num = den THEN 1000000000 ELSE Digits(num, den, 9, 0)
Near(obs, num, den) == LET x == Fx(num, den) IN obs - x <= 2 /\ x - obs <= 2
=============================================================================
