------------------------------- MODULE MC_Sets -------------------------------
(* Builders, copies and built sets as a transition system: every history of at most MaxLen calls over two samples.
   The machine's registers are values, so isolation holds in it by construction; the histories are replayed into
   the code, where registers are objects that might share state.                                            *)
EXTENDS Bags, Json
CONSTANT MaxLen
S == ("s1" :> Single(<<"a", "1">>)) @@
     ("s2" :> [nodes |-> {<<"a", "1">>, <<"b", "1">>}, edges |-> {[ep |-> {<<"a", "1">>, <<"b", "1">>}, rel |-> <<"r">>]}])
VARIABLES env, hist
vars == <<env, hist>>
Init == env = ("b1" :> EmptyBag) /\ hist = <<>>
Bld == {r \in DOMAIN env : r \in {"b1", "b2"}}
Sets == DOMAIN env \ Bld
Put(r, b, h) == env' = (r :> b) @@ env /\ hist' = Append(hist, h)
FreshB == IF "b2" \in DOMAIN env THEN {} ELSE {"b2"}
FreshX == IF "x1" \notin DOMAIN env THEN {"x1"} ELSE IF "x2" \notin DOMAIN env THEN {"x2"} ELSE {}
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E b \in Bld, s \in {"s1", "s2"} : Put(b, BagAdd(env[b], S[s], 1 + Len(hist)), [op |-> "add", b |-> b, s |-> s, c |-> 1 + Len(hist)])
     \/ \E b \in Bld, s \in {"s1", "s2"} : Put(b, BagDrop(env[b], {S[s]}), [op |-> "remove", b |-> b, s |-> s])
     \/ \E b \in Bld, r \in FreshX : Put(r, env[b], [op |-> "build", b |-> b, r |-> r])
     \/ \E b \in Bld, r \in FreshB : Put(r, env[b], [op |-> "copy", b |-> b, r |-> r])
     \/ \E x \in Sets, r \in FreshB : Put(r, env[x], [op |-> "builder", b |-> x, r |-> r])
     \/ \E b \in Bld : \E x \in DOMAIN env \ {b} : Put(b, BagSum(env[b], env[x]), [op |-> "addall", b |-> b, x |-> x])
     \/ \E b \in Bld : \E x \in DOMAIN env \ {b} :
          Put(b, IF DOMAIN env[x] \subseteq DOMAIN env[b] THEN BagDrop(env[b], DOMAIN env[x]) ELSE env[b],
              [op |-> "removeall", b |-> b, x |-> x])
     \/ \E x \in Sets, y \in Sets, r \in FreshX : Put(r, BagSum(env[x], env[y]), [op |-> "union", b |-> x, x |-> y, r |-> r])
Spec == Init /\ [][Next]_vars
Positive == \A r \in DOMAIN env : \A s \in DOMAIN env[r] : env[r][s] >= 1
\* a built set never changes
Snapshots == [][\A x \in Sets : env'[x] = env[x]]_vars
Lengths == \A x, y \in Sets : Total(BagSum(env[x], env[y])) = Total(env[x]) + Total(env[y])
Emit == Len(hist) = MaxLen => PrintT(<<"PLAN", ToJson(hist)>>)
=============================================================================
