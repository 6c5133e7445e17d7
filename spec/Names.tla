------------------------------- MODULE Names --------------------------------
(* The names of builders, samples and graphs.  A name is
     <<"none", "">>        nothing given (builders)
     <<"is", n>>           given explicitly
     <<"generated", "">>   made from the content, nothing given (samples: their text; relation graphs: the count)
     <<"unknown", "">>     a builder of an object with a generated name: open whether it is made anew or kept    *)
EXTENDS TLC
NoName == <<"none", "">>
Generated == <<"generated", "">>
Unknown == <<"unknown", "">>
Is(n) == <<"is", n>>

\* calls that give a new sample, a new builder, ...
SampleCalls == {"build", "build_single", "build_empty", "build_from_edges", "transform"}
GraphCalls == {"rgb_build", "cond", "fold"}
Inherits == {"copy", "relation_graph", "joined_on", "make_joined", "activation"}

\* name of the result of call how on an object named x, with the optional name given
NameAfter(how, x, given) ==
  CASE how \in {"new", "set"} -> IF given = <<>> \/ given[1] = "" THEN NoName ELSE Is(given[1])
    [] given # <<>> /\ given[1] # "" -> Is(given[1])
    [] how \in SampleCalls \ {"transform"} -> IF x = NoName THEN Generated ELSE x
    [] how = "rgb_build" -> IF x = NoName THEN Generated ELSE x
    [] how \in {"transform", "cond", "fold"} -> Generated
    [] how = "builder" -> IF x = Generated THEN Unknown ELSE x
    [] how = "relation_graph" /\ x = Generated -> Unknown
    [] how \in Inherits -> IF x = Generated THEN Unknown ELSE x
    [] OTHER -> Unknown
=============================================================================
