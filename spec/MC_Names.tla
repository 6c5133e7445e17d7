------------------------------ MODULE MC_Names ------------------------------
(* Every history of at most MaxLen naming calls on samples (Part = "s") or graphs (Part = "g"): builders are named,
   renamed, copied, built; built objects give builders, samples and graphs in turn.                             *)
EXTENDS Names, Naturals, Sequences, Json
CONSTANTS MaxLen, Part
Gives == {<<>>, <<"n1">>, <<"n2">>}
VARIABLES st, kind, hist
vars == <<st, kind, hist>>
N == Len(st)
Init == /\ st = <<NoName>> /\ hist = <<>>
        /\ kind = <<IF Part = "s" THEN "sb" ELSE "rgb">>
Make(how, i, given, k) == /\ st' = Append(st, NameAfter(how, st[i], given)) /\ kind' = Append(kind, k)
                          /\ hist' = Append(hist, [how |-> how, x |-> i, given |-> given])
Set(i, given) == /\ st' = [st EXCEPT ![i] = NameAfter("set", st[i], given)] /\ kind' = kind
                 /\ hist' = Append(hist, [how |-> "set", x |-> i, given |-> given])
Recent == {i \in 1..N : i > N - 3}
Next == /\ Len(hist) < MaxLen
        /\ \E i \in Recent :
           \/ kind[i] \in {"sb", "rgb"} /\ \E g \in Gives : Set(i, g)
           \/ kind[i] = "sb" /\ (Make("copy", i, <<>>, "sb") \/ \E h \in {"build", "build_single", "build_from_edges", "build_empty"} : Make(h, i, <<>>, "s"))
           \/ kind[i] = "s" /\ (Make("builder", i, <<>>, "sb") \/ \E g \in Gives : Make("transform", i, g, "s"))
           \/ kind[i] = "rgb" /\ Make("rgb_build", i, <<>>, "rg")
           \/ kind[i] \in {"rg", "cg"} /\ (Make("builder", i, <<>>, "rgb") \/ \E g \in Gives : \/ Make("relation_graph", i, g, "rg") \/ Make("fold", i, g, "leaf"))
           \/ kind[i] = "rg" /\ \E g \in Gives : \/ Make("cond", i, g, "cg") \/ Make("joined_on", i, g, "rg") \/ Make("make_joined", i, g, "rg")
           \/ kind[i] = "cg" /\ \E g \in Gives : Make("activation", i, g, "leaf")
Spec == Init /\ [][Next]_vars

GivenIn == {h.given[1] : h \in {x \in {hist[j] : j \in DOMAIN hist} : x.given # <<>>}}
\* a name somebody sees was given by somebody; built objects always have one
Sound == \A i \in 1..N : st[i][1] = "is" => st[i][2] \in GivenIn
Built == \A i \in 1..N : kind[i] \notin {"sb", "rgb"} => st[i] # NoName
\* naming a builder later never renames what exists
Fixed == [][\A i \in 1..N : kind[i] \notin {"sb", "rgb"} => st'[i] = st[i]]_vars
OnlyOne == [][\A i, j \in 1..N : st'[i] # st[i] /\ st'[j] # st[j] => i = j]_vars
Emit == Len(hist) = MaxLen => PrintT(<<"PLAN", ToJson([part |-> Part, hist |-> hist])>>)
=============================================================================
