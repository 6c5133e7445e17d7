---------------------------- MODULE SampleBuilder ----------------------------
(* The sample builder as a state machine: acceptance conditions and effects of its calls.
   State: the accumulated sample b (Empty at first).  A rejected call is a stuttering step.   *)
EXTENDS Graphs

ValidPair(ep) == Cardinality(ep) = 2 /\ Cardinality({n[1] : n \in ep}) = 2

\* ---- add one relation
CanAdd(voc, b, ep, rel) ==
  /\ ValidPair(ep)
  /\ \A n \in ep : InVocNode(voc, n)
  /\ InVocRel(voc, ep, rel)
  /\ b.nodes = {} \/ ep \cap b.nodes # {}
  /\ \A e \in b.edges : e.ep # ep
DoAdd(b, ep, rel) == [nodes |-> b.nodes \cup ep, edges |-> b.edges \cup {[ep |-> ep, rel |-> rel]}]

\* ---- add a set of edges at once
CanAddEdges(voc, b, E, validate) ==
  /\ E # {}
  /\ \A e \in E : ValidPair(e.ep) /\ (\A n \in e.ep : InVocNode(voc, n)) /\ InVocRel(voc, e.ep, e.rel)
  /\ \A e, f \in E \cup b.edges : e.ep = f.ep => e = f
  /\ validate => /\ Connected(NodesOf(E), E)
                 /\ b.nodes = {} \/ b.nodes \cap NodesOf(E) # {}
DoAddEdges(b, E) == [nodes |-> b.nodes \cup NodesOf(E), edges |-> b.edges \cup E]

\* ---- join a (well-formed) sample
CanJoin(b, s) ==
  /\ s # Empty
  /\ IF s.edges = {} THEN b.nodes = {} \/ s.nodes \subseteq b.nodes
     ELSE /\ b.nodes = {} \/ b.nodes \cap s.nodes # {}
          /\ ~RelConflict(b, s)
          /\ \A n \in s.nodes \ b.nodes, m \in b.nodes \cup s.nodes : n[1] = m[1] => n = m
DoJoin(b, s) == Union2(b, s)
PreCheckJoin(b, s) == ~RelConflict(b, s)
=============================================================================
