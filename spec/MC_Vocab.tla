------------------------------ MODULE MC_Vocab ------------------------------
(* The components provider as a transition system: which nodes and edges were handed out, under every history of
   MaxLen requests, good and bad.  A request of an edge hands out nothing but the edge, and is granted only for
   nodes handed out before.                                                                                  *)
EXTENDS Graphs, Json
CONSTANT MaxLen
Voc == [vars |-> ("a" :> {"1", "2"}) @@ ("b" :> {"1"}), rels |-> {"r"}]
Reqs == {<<"a", "1">>, <<"a", "2">>, <<"b", "1">>, <<"b", "2">>, <<"z", "1">>}
Rels == {<<"r">>, <<"s">>, <<"r", "a", "b">>, <<"r", "b", "a">>, <<"r", "a", "z">>}
VARIABLES ns, es, hist
vars == <<ns, es, hist>>
Init == ns = {} /\ es = {} /\ hist = <<>>
Next ==
  /\ Len(hist) < MaxLen
  /\ \/ \E n \in Reqs : /\ ns' = IF InVocNode(Voc, n) THEN ns \cup {n} ELSE ns
                        /\ es' = es
                        /\ hist' = Append(hist, [op |-> "node", n |-> n])
     \/ \E x \in {<<"a", "1">>, <<"a", "2">>} : \E r \in Rels :
          LET e == [ep |-> {x, <<"b", "1">>}, rel |-> r] IN
          /\ es' = IF e.ep \subseteq ns /\ InVocRel(Voc, e.ep, r) THEN es \cup {e} ELSE es
          /\ ns' = ns
          /\ hist' = Append(hist, [op |-> "edge", x |-> x, y |-> <<"b", "1">>, rel |-> r])
Spec == Init /\ [][Next]_vars
Closed == /\ ns \subseteq VocNodes(Voc)
          /\ \A e \in es : e.ep \subseteq ns /\ InVoc(Voc, [nodes |-> e.ep, edges |-> {e}])
Monotone == [][ns \subseteq ns' /\ es \subseteq es']_vars
Emit == Len(hist) = MaxLen => PrintT(<<"PLAN", ToJson(hist)>>)
=============================================================================
