------------------------------- MODULE MC_Rgb -------------------------------
(* Relation graph builders, built graphs, conditional graphs and conversions: every history of at most MaxLen
   calls over three samples of the own and one of a foreign vocabulary.  Registers are values here; the histories
   are replayed into the code, where they are objects.                                                       *)
EXTENDS Inference, Json
CONSTANT MaxLen
S == ("s1" :> Single(<<"a", "1">>)) @@
     ("s2" :> [nodes |-> {<<"a", "1">>, <<"b", "1">>}, edges |-> {[ep |-> {<<"a", "1">>, <<"b", "1">>}, rel |-> <<"r">>]}]) @@
     ("s3" :> Single(<<"a", "2">>)) @@ ("f1" :> Single(<<"a", "1">>))
Foreign == {"f1"}
VARIABLES env, hist
vars == <<env, hist>>
Init == env = ("b1" :> EmptyBag) /\ hist = <<>>
Bld == DOMAIN env \cap {"b1", "b2"}
Gr == DOMAIN env \cap {"g1", "g2"}
Cg == DOMAIN env \cap {"c1"}
Put(r, b, h) == env' = (r :> b) @@ env /\ hist' = Append(hist, h)
FreshB == {"b2"} \ DOMAIN env
FreshG == IF "g1" \notin DOMAIN env THEN {"g1"} ELSE {"g2"} \ DOMAIN env
FreshC == {"c1"} \ DOMAIN env
CanAddOutcome(s, c) == s \notin Foreign /\ c >= 1
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E b \in Bld, s \in DOMAIN S, c \in {0, 1, 2} :
          Put(b, IF CanAddOutcome(s, c) THEN BagAdd(env[b], S[s], c) ELSE env[b], [op |-> "add", b |-> b, s |-> s, c |-> c])
     \/ \E b \in Bld, r \in FreshG : env[b] # EmptyBag /\ Put(r, env[b], [op |-> "build", b |-> b, r |-> r])
     \/ \E b \in Bld : env[b] = EmptyBag /\ Put(b, env[b], [op |-> "build", b |-> b, r |-> "none"])
     \/ \E g \in Gr, r \in FreshB : Put(r, env[g], [op |-> "builder", b |-> g, r |-> r])
     \/ \E g \in Gr, r \in FreshC, s \in {"s1", "s2", "s3"} : Put(r, Condition(env[g], S[s]), [op |-> "cond", b |-> g, s |-> s, r |-> r])
     \/ \E g \in Cg, r \in FreshG : Put(r, env[g], [op |-> "rg", b |-> g, r |-> r])
Spec == Init /\ [][Next]_vars
Positive == \A r \in DOMAIN env : \A s \in DOMAIN env[r] : env[r][s] >= 1
NonEmpty == \A g \in Gr \ {"g2"} : Cg = {} => env[g] # EmptyBag
Snapshots == [][\A x \in Gr \cup Cg : env'[x] = env[x]]_vars
OnlyOne == [][Cardinality({r \in DOMAIN env : env'[r] # env[r]}) <= 1]_vars
Emit == Len(hist) = MaxLen => PrintT(<<"PLAN", ToJson(hist)>>)
=============================================================================
