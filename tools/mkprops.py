"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
R = "Python/research/scripts/relnet/"
D = "Python/research/scripts/demo/"
P = []
def three(st):
    """at most three sentences: the shortest neighbours are joined by semicolons"""
    q = st.split(". ")
    while len(q) > 3:
        k = min(range(len(q) - 1), key=lambda i: len(q[i]) + len(q[i + 1]))
        a, b = q[k], q[k + 1]
        if b.split(" ")[0] not in ("Pacman", "Boltzmann"):
            b = b[0].lower() + b[1:]
        q[k:k + 2] = [a + "; " + b]
    return ". ".join(q)


def prop(id, title, st, over, qt, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    st = three(st)
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qt), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe, hook_needed=None)))

prop("C01", "Conditioning, joining and marginalising give the exact posterior",
     "In a network whose factors each list every combination of values of their variables exactly once with positive counts, conditioning on single-node evidence (one or several times, in any order), joining the factors and reading the marginals gives exactly the posterior of the normalised product of the factors. Joining first and conditioning the joint on the same evidence (as evidence nodes or as a connected evidence graph of the joint) gives the same posterior. Marginals of every variable sum to 1.",
     ["inputs", "configurations"], "every connected network of complete factor tables (chains, stars, trees, cycles, cliques, single-node and hyper-edge factors), every positive counts, every evidence value, every evaluation order and hash seed",
     "Two fixed networks are compared with pgmpy in experiments outside the test suite; tests join four hand-written tables.",
     [R+"relation_graph.py", R+"sample_space.py", R+"conditional_graph.py", R+"sample_set.py"],
     [("filter by evidence", R+"relation_graph.py:conditional_graph"), ("variable elimination", R+"relation_graph.py:make_joined"), ("normalised counts", R+"sample_space.py:marginal_variables_probability")],
     ["RelationGraph.conditional_graph", "ConditionalGraph.relation_graph", "RelationGraph.make_joined", "marginal_variables_probability"])

prop("C02", "The joint of a factorised network is the product of its factors",
     "Joining a connected factorised network of complete tables yields exactly one outcome per consistent choice of one outcome from every factor, carrying all their nodes and edges, whose count is the product of the chosen counts. With incomplete tables the result is the one obtained by eliminating the variables one by one in some order, where a factor which does not offer a value imposes nothing for that value; it is empty if the factors contradict each other. Networks with an empty outcome, overlapping factors or disconnected factors are rejected, and the source network never changes.",
     ["inputs", "configurations"], "every set of factors over up to five variables, complete or sparse, every count, every iteration order",
     "Four hand-written networks are joined; cliques of four pairwise factors and contradictory tables crashed before the repair made here.",
     [R+"relation_graph.py", R+"sample_set.py", R+"sample_space.py"],
     [("elimination loop", R+"relation_graph.py:make_joined"), ("factor split", R+"sample_space.py:factorized"), ("join of one choice", R+"sample_set.py:make_joined_sample")],
     ["RelationGraph.make_joined", "outcomes"])

prop("C03", "Joining on variables is the inner natural join of intersecting groups",
     "Joining outcomes on a set of variables replaces, variable by variable, the outcomes that contain the variable by all value-consistent combinations of one outcome per intersecting group, each combination carrying the union of nodes and edges and the product of counts. Outcomes that contain none of the variables are kept with their counts. With no variables given all included variables are joined; the source graph never changes.",
     ["inputs", "configurations"], "every bag of single-valued outcomes, every subset of variables, every iteration order of that subset",
     "Tests join five fixed tables on chosen variables.",
     [R+"relation_graph.py", R+"sample_set.py"],
     [("cross join", R+"relation_graph.py:joined_on_variables"), ("groups", R+"sample_set.py:group_intersecting"), ("value match", R+"sample_set.py:is_all_values_match")],
     ["RelationGraph.joined_on_variables"])

prop("C04", "Conditioning keeps exactly the outcomes the evidence selects",
     "A conditional graph contains an outcome of its source, with its count unchanged, exactly if the evidence is a subgraph of that outcome or shares no variable with it; it contains nothing else. Conditioning again on the same evidence changes nothing, the source is unchanged, and evidence from another vocabulary is rejected. The conditional graph reports the evidence it was made with, and converting it back to a relation graph preserves outcomes and counts.",
     ["inputs"], "every bag of outcomes (empty, single-node, multi-valued outcomes included) and every evidence sample",
     "One fixed graph with a handful of outcomes is conditioned.",
     [R+"relation_graph.py", R+"conditional_graph.py", R+"sample_graph.py"],
     [("selection predicate", R+"relation_graph.py:conditional_graph"), ("subgraph test", R+"sample_graph.py:is_subgraph")],
     ["RelationGraph.conditional_graph", "ConditionalGraph.evidence", "ConditionalGraph.relation_graph"])

prop("C05", "Outcome enumeration is complete, sound and free of duplicates",
     "Generating all possible outcomes of a vocabulary yields every connected sample graph that has at most one value per variable and at most one relation per pair of nodes, single nodes included, each exactly once with count 1 and with its own name, and nothing else. Generation on a builder that already has outcomes is rejected and leaves it unchanged.",
     ["inputs", "configurations"], "every vocabulary of variables, value sets and relations (any hashable names)",
     "Three vocabularies are enumerated and compared with literals.",
     [R+"relation_graph.py", R+"sample_graph.py"],
     [("index counter over edges", R+"relation_graph.py:generate_all_possible_outcomes"), ("connectivity", R+"sample_graph.py:is_edges_connected"), ("value substitution", R+"sample_graph.py:transform_with_replaced_values")],
     ["RelationGraphBuilder.generate_all_possible_outcomes", "outcomes"])

prop("C06", "Factor structure is recognised and split consistently",
     "A graph is factorised exactly if it has no empty outcome and any two outcomes relate either the same set of variable pairs or disjoint sets of variable pairs; splitting succeeds exactly then, and yields a partition of all outcomes with their counts, one part per set of variable pairs and one per single-node variable. A graph is joined exactly if all its outcomes contain the same variables. The answers do not depend on the order of outcomes.",
     ["inputs"], "every bag of outcomes",
     "A few literal graphs are classified.",
     [R+"relation_graph.py", R+"sample_space.py"],
     [("split", R+"sample_space.py:factorized"), ("predicates", R+"relation_graph.py:is_factorized, is_joined")],
     ["RelationGraph.is_factorized", "RelationGraph.is_joined", "SampleSpace.factorized"])

prop("C07", "Probabilities are exact relative frequencies",
     "The probability of an outcome is its count divided by the total count. The marginal of a variable gives every observed value the total count of the outcomes that contain it, divided by the count of outcomes that contain the variable, or, when unobserved outcomes are requested, by the total count with the remainder reported as unobserved; variables that never occur, or were not asked for, are absent. All reported distributions sum to 1.",
     ["inputs"], "every non-empty bag of single-valued outcomes with positive counts, every subset of variables, values of any hashable type except the reserved label of the unobserved share",
     "Literal distributions over one or two graphs.",
     [R+"sample_space.py", R+"sample_set.py"],
     [("marginals", R+"sample_space.py:marginal_variables_probability"), ("outcome probabilities", R+"sample_set.py:probabilities, probability_of")],
     ["marginal_variables_probability", "SampleSet.probabilities", "SampleSet.probability_of"])

prop("C08", "The folded graph counts every value and relation exactly",
     "The folded graph has one node per variable occurring in the outcomes and one edge per pair of variables related in them; a node counts for each value the total count of outcomes containing it, an edge counts for each concrete relation edge the total count of outcomes containing it. The unobserved count is the total minus the counts of the values, and the node's distribution over all values of the vocabulary plus unobserved is these counts divided by the total.",
     ["inputs"], "every non-empty bag of single-valued outcomes",
     "One graph with four outcomes is folded.",
     [R+"sample_space.py", R+"folded_graph.py"],
     [("fold", R+"sample_space.py:folded_graph"), ("distribution", R+"folded_graph.py:marginal_distribution, unobserved_count")],
     ["SampleSpace.folded_graph", "FoldedGraph.folded_node", "FoldedNode.marginal_distribution"])

prop("C09", "The activation graph weighs values and relations as specified",
     "The activation graph lists every variable and value of the vocabulary: evidence values weigh the share of outcomes that contain them, values reachable from the evidence through (optionally filtered) relations weigh the sum of similarity to the evidence times count over the outcomes that reach them, divided by the total count, all other values weigh 0. Evidence relations count every selected outcome and relations leading outward from the evidence count the outcomes that contain them. A variable or pair of variables is marked as queried exactly if it belongs to the evidence.",
     ["inputs"], "every conditional graph over single-valued outcomes with non-empty evidence, every relation filter (none or empty: all relations)",
     "One conditional graph and one filter are compared with literals.",
     [R+"conditional_graph.py", R+"sample_graph.py", R+"activation_graph.py"],
     [("accumulation", R+"conditional_graph.py:activation_graph"), ("reachability", R+"sample_graph.py:external_nodes"), ("similarity", R+"sample_graph.py:similarity")],
     ["ConditionalGraph.activation_graph"])

prop("C10", "A sample builder only ever builds connected, unambiguous graphs",
     "After any history of accepted and rejected calls a sample builder holds a graph that is connected, has no self relation, no relation between two values of one variable and at most one relation per pair of nodes. A relation is accepted exactly if both nodes and the relation are in the vocabulary, its endpoints have different variables, it is new, and it touches the graph or the graph is empty; a rejected call leaves the builder unchanged. Building returns exactly the accumulated nodes and edges, is rejected while there are none, and later changes of the builder or of copies of it do not affect what was built.",
     ["histories", "inputs"], "every sequence of builder calls with valid and invalid arguments, directed relations included",
     "Single calls with literal arguments; no histories, no state after a rejection.",
     [R+"sample_graph.py", R+"graph_components.py"],
     [("checks", R+"sample_graph.py:add_relation, validate_endpoints, build_from_edges, is_edges_connected"), ("snapshot", R+"sample_graph.py:build")],
     ["SampleGraphBuilder.*"],
     [("nodes, edges", "accumulated graph", R+"sample_graph.py:SampleGraphBuilder")])

prop("C11", "Joining a sample into a builder is union or rejection",
     "Joining a sample into a builder either yields exactly the union of their nodes and edges or is rejected and leaves the builder unchanged. It is accepted exactly if the sample is from the same vocabulary and not empty, the union is connected, no pair of nodes would get two relations, and no added value competes with another value of its variable. The pre-check answers negatively exactly when a pair of nodes would get two different relations.",
     ["histories", "inputs"], "every builder state, every sample, every order of a list of samples",
     "Seven literal joins; nothing about the builder after a rejection.",
     [R+"sample_graph.py"],
     [("incremental join", R+"sample_graph.py:join_sample"), ("pre-check", R+"sample_graph.py:can_sample_be_joined")],
     ["SampleGraphBuilder.join_sample", "SampleGraphBuilder.can_sample_be_joined", "SampleGraphBuilder.build"])

prop("C12", "The vocabulary is closed, fixed at construction and interned",
     "A components provider hands out a node exactly for a declared variable and a declared value of that variable, and an edge exactly for nodes it has handed out and a declared relation (a directed relation only if its source and target are the variables of the endpoints); everything else is rejected. Asking twice for the same node or edge returns the same object, and samples of one provider share them. The declared variables, values and relations never change after construction, whatever happens to the collections they were given as, and empty declarations are rejected.",
     ["histories", "inputs"], "every vocabulary and every sequence of requests, valid and invalid, with names of any hashable type",
     "A dozen literal requests on one provider.",
     [R+"graph_components.py"],
     [("membership checks and caches", R+"graph_components.py:BuilderComponentsProvider.get_node, get_edge")],
     ["BuilderComponentsProvider.*", "RelationGraphBuilder.variables", "RelationGraphBuilder.relations"])

prop("C13", "Samples are equal exactly if they have the same nodes and relations",
     "Two samples are equal, and interchangeable as keys, exactly if they have the same nodes and the same edges, whatever their names and whatever order or way they were built in; relations count including their direction. The edge-set view determines the sample and rebuilding from it gives an equal one. Samples, nodes and edges never change once made, refuse being copied, and are never equal to objects of another kind.",
     ["inputs", "histories"], "every pair of samples over one vocabulary, every construction order",
     "Equality is asserted on a few literal pairs.",
     [R+"sample_graph.py", R+"graph_components.py"],
     [("structural hash", R+"sample_graph.py:SampleGraph.hash, __eq__, __hash__"), ("node/edge equality", R+"graph_components.py:ValueNode, RelationEdge, DirectedRelation")],
     ["SampleGraph.__eq__", "SampleGraph.__hash__", "SampleGraph.edges_set_view"])

prop("C14", "Subgraph, similarity and content queries are exact",
     "A sample is a subgraph of another exactly if its nodes and edges are all contained in it. Similarity is the number of shared nodes and edges divided by the number of all nodes and edges of both, so it is symmetric, 1 exactly for equal samples and 0 exactly for samples with nothing in common. Variables, values, value lookup and presence queries report exactly the content of the sample.",
     ["inputs"], "every pair of samples over one vocabulary",
     "A few literal pairs.",
     [R+"sample_graph.py"],
     [("queries", R+"sample_graph.py:is_subgraph, similarity, value_for_variable, values, have_value, have_variable, included_variables")],
     ["SampleGraph queries"])

prop("C15", "Neighbourhood queries follow exactly the admitted relations",
     "The neighbours of a node are exactly the nodes it is related to by an admitted relation, each with that relation; the belt of a set of nodes is exactly the nodes outside the set related to it, each with all admitted relations into the set. The external nodes of a set are exactly the nodes outside it reachable through admitted relations, each with all admitted relations that lead to nodes strictly closer to the set. No filter, or an empty one, admits every relation.",
     ["inputs"], "every connected sample (cycles, cliques, long chains), every non-empty set of nodes, every filter",
     "Three literal graphs.",
     [R+"sample_graph.py"],
     [("layered search", R+"sample_graph.py:belt_nodes, external_nodes"), ("one step", R+"sample_graph.py:neighboring_values")],
     ["SampleGraph.neighboring_values", "SampleGraph.belt_nodes", "SampleGraph.external_nodes"])

prop("C16", "Value replacement and projection preserve everything else",
     "Replacing values of variables yields the sample with exactly those nodes substituted everywhere, all relations preserved with their direction, other variables untouched and the source unchanged; if nothing differs the same sample is returned, and values outside the vocabulary are rejected. The projection of a sample on a set of variables consists exactly of its nodes over these variables and the edges whose both ends are among them. The endpoint-variables view is exactly the set of related variable pairs.",
     ["inputs"], "every single-valued sample, every replacement map, every variable set",
     "Two literal replacements.",
     [R+"sample_graph.py"],
     [("transformation", R+"sample_graph.py:transform_with_replaced_values"), ("projection", R+"sample_graph.py:variables_subgraph_hash, edges_endpoint_variables")],
     ["SampleGraph.transform_with_replaced_values", "SampleGraph.variables_subgraph_hash", "SampleGraph.edges_endpoint_variables"])

prop("C17", "Sample sets are multisets with exact counts",
     "Adding, adding all, removing, removing all, uniting, joining lists of sets and filtering behave as on multisets of structurally identified samples: counts add up, nothing is lost or invented, and lengths are the sums of counts. Removing an absent sample, counting an absent sample and mixing vocabularies in an addition or union are rejected. Two sample sets are equal, with equal hashes, exactly if they hold the same samples with the same counts.",
     ["histories", "inputs"], "every history of builder operations and every pair or list (up to thousands) of sample sets",
     "Single operations on two or three samples.",
     [R+"sample_set.py"],
     [("dictionary of counts", R+"sample_set.py:SampleSetBuilder.add, add_all, remove, remove_all, join_sample_set; SampleSet.union, filter_samples, __eq__, __hash__")],
     ["SampleSet", "SampleSetBuilder"])

prop("C18", "Built objects are snapshots; queries never change anything",
     "A sample set, relation graph or conditional graph never changes after it was built, whatever is later done to the builder it came from, to builders or copies derived from it, or to collections returned by its queries. Builders obtained from a built object or by copying start with exactly its content and are independent of it and of each other. No query, conversion or inference changes its inputs.",
     ["histories"], "every interleaving of builder mutations, builds, copies, derived builders, inferences and mutations of returned collections",
     "Tests build once and read once; aliasing between live objects is never exercised.",
     [R+"sample_set.py", R+"relation_graph.py", R+"sample_space.py"],
     [("copies of the count dictionary", R+"sample_set.py:SampleSet.__init__, SampleSetBuilder.__init__, copy, builder, build"), ("fresh builders", R+"sample_space.py:builder, relation_graph")],
     ["all live objects after every call"])

prop("C19", "Grouping and joinability of sample sets are exact",
     "Grouping partitions a sample set, counts preserved, into the connected components of the relation 'relates a common pair of variables', single-node samples being grouped per variable, each group being listed under exactly its variables. The value-match test is true exactly if no variable has two values in the set, and the joinability test is true exactly if no two samples give a variable different values. Joining all samples of a set gives the union of their nodes and edges and their counts, or is rejected.",
     ["inputs"], "every bag of single-valued samples whose groups have distinct variable sets, with names of any hashable type",
     "Literal groups with one-letter variable names (longer names were grouped by their characters before the repair made here).",
     [R+"sample_set.py"],
     [("merging of keys", R+"sample_set.py:group_intersecting"), ("tests", R+"sample_set.py:is_all_values_match, can_join_samples"), ("join", R+"sample_set.py:make_joined_sample")],
     ["SampleSet.group_intersecting", "SampleSet.is_all_values_match", "SampleSet.can_join_samples", "SampleSet.make_joined_sample"])

prop("C20", "A relation graph builder accumulates exactly what was added",
     "A relation graph builder accepts an outcome exactly if it is from its own vocabulary and the count is at least 1, and then adds the count to that outcome; a rejected outcome changes nothing. Building gives a graph with exactly the accumulated outcomes and counts and the full vocabulary, and is rejected while there are none. Identifiers it generates never repeat.",
     ["histories", "inputs"], "every history of additions (single, list, built in place), rejections, builds and identifier requests",
     "Single additions.",
     [R+"relation_graph.py"],
     [("checks and accumulation", R+"relation_graph.py:add_outcome, add_outcomes, build_sample, build, next_id")],
     ["RelationGraphBuilder.*", "RelationGraph.outcomes"])

prop("C21", "Graph-level queries report exactly the outcomes' content",
     "Searching for values returns exactly the outcomes that contain all of them, with their counts. The included variables, values and relations are exactly those occurring in outcomes, the description agrees with the outcomes and the vocabulary, and the edge-set listing holds exactly one entry per outcome with its count. Value and variable presence on a set of samples is true exactly if some sample has it.",
     ["inputs"], "every bag of outcomes and every query",
     "Literal queries on one graph.",
     [R+"sample_space.py", R+"sample_set.py", R+"relation_graph.py", R+"conditional_graph.py"],
     [("scans", R+"sample_space.py:find_for_values, included_variables, included_relations, outcomes_as_edges_sets")],
     ["SampleSpace queries", "describe"])

prop("C22", "Results do not depend on insertion order or hash seed",
     "For the same vocabulary and the same multiset of outcomes, every result (outcomes, counts, joints of consistent complete tables, marginals, folded and activation graphs, enumeration, grouping, names derived from structure and printed listings) is the same for every insertion order, every construction order of each sample and every hash randomisation of the interpreter.",
     ["configurations", "inputs"], "all permutations of insertion and all hash seeds sampled",
     "Tests run once per process with one order; set iteration order varies with the hash seed.",
     [R+"relation_graph.py", R+"sample_set.py", R+"sample_space.py", R+"sample_graph.py", R+"conditional_graph.py"],
     [("order-independent accumulation", R+"*.py")],
     ["all public results"])

prop("C23", "Textual and drawn views show exactly the content",
     "The text view, default name and printed listing of samples contain every edge (or the single node) exactly once, and nothing else; listings contain every outcome once with its count. The drawn views contain exactly one vertex per node (per outcome, per variable) and one line per edge, labelled with the relations, values and counts of the underlying object, with evidence marked; variables without outcomes are drawn as such in variable views. The printed nodes and edges of folded and activation graphs show exactly their variables, values, relations and numbers, whatever hashable values the variables are.",
     ["inputs"], "every sample, outcome set, folded and activation graph whose names render distinctly",
     "Views are only opened in a browser by manual scripts; text is compared for three samples.",
     [R+"sample_graph.py", R+"sample_space.py", R+"folded_graph.py", R+"activation_graph.py"],
     [("rendering", R+"sample_graph.py:text_view, visualize; sample_space.py:visualize_outcomes, print_samples; folded_graph.py:visualize; activation_graph.py:visualize")],
     ["text", "pyvis network"])

prop("C24", "Pacman: agents move only along legal, wall-free paths",
     "On every layout enclosed by walls and in every reachable game state an agent's legal actions are exactly the moves its position and direction admit: never into a wall, no stopping or reversing for a ghost that has another way, only straight on for a ghost between two cells, and none at all once the game is won or lost. Applying a legal action moves only that agent, by its speed, in the chosen direction (an eaten ghost goes home), and no agent is ever inside a wall. Illegal actions and actions in finished games are rejected. Each ghost is reported under its own number, and no agent is reported as a ghost under Pacman's number or a number beyond the last ghost's. The cells reported as the legal neighbours of a cell are it and those on its four sides, as far as they lie on the board and are not walls.",
     ["histories", "inputs"], "every enclosed layout and every sequence of moves of all agents",
     "The demo has no tests.",
     [D+"pacman.py", D+"game.py"],
     [("rules", D+"pacman.py:PacmanRules, GhostRules"), ("moves", D+"game.py:Actions, Configuration")],
     ["GameState.getLegalActions", "GameState.generateSuccessor"])

prop("C25", "Pacman: score, food, win and loss follow the rules",
     "Every Pacman move costs 1 point; food is eaten exactly when Pacman is within half a cell of it, disappears and gives 10 points; eating the last food gives 500 points and wins; each collision (within 0.7 cells) with a ghost that is not scared costs 500 points and loses, unless the game is already won; eating a scared ghost gives 200 points and sends it home unscared. The food count never increases, and nothing else changes the score, the food or the verdict.",
     ["histories", "inputs"], "every enclosed layout and every sequence of moves of all agents",
     "The demo has no tests.",
     [D+"pacman.py"],
     [("consumption, collisions", D+"pacman.py:PacmanRules.consume, GhostRules.collide, decrementTimer")],
     ["GameState.getScore, getNumFood, getFood, hasFood, isWin, isLose"])

prop("C26", "Pacman: capsules scare every ghost for exactly the scared time",
     "Eating a capsule removes it and sets every ghost's scared timer to the full scared time, whatever it was before; each ghost's timer then decreases by exactly one per own move down to zero and never below, and nothing but being eaten changes it otherwise. A scared ghost moves at half speed and when its timer runs out it is back on a grid point.",
     ["histories", "inputs"], "every enclosed layout with capsules and every sequence of moves",
     "The demo has no tests.",
     [D+"pacman.py"],
     [("timers", D+"pacman.py:PacmanRules.consume, GhostRules.applyAction, decrementTimer")],
     ["GameState.getGhostStates, getCapsules"])

prop("C27", "Pacman: successor states are independent of their predecessors",
     "Generating a successor, copying a state, comparing or enumerating actions never changes the state it starts from, and neither later moves from a successor nor any change made to a deep copy are ever visible in the original. The same state and action always give an equal successor, equal states have equal hashes, and a deep copy equals its original and behaves like it (a copy of a finished state is finished). The states reported as explored are exactly those that generated or were generated as a successor since the last report.",
     ["histories"], "every reachable state and every action sequence, with any number of states alive",
     "The demo has no tests.",
     [D+"pacman.py", D+"game.py"],
     [("deep copies", D+"game.py:GameStateData, Grid.copy, AgentState.copy; pacman.py:GameState.__init__, deepCopy")],
     ["GameState.generateSuccessor, deepCopy, ==, hash"])

prop("C28", "Pacman: the game loop runs agents in turn and always ends cleanly",
     "A game tells every listening agent the initial state, then gives the agents their moves in cyclic order starting with the starting agent, applies exactly the chosen moves, records them in order, and stops exactly when the rules declare the game over, an agent fails, or an agent exceeds its time budget; then it tells every listening agent the outcome and closes the display, once. With exceptions caught, an agent that fails or runs out of time while listening, observing or choosing crashes the game in its name and no further move is applied; otherwise its exception reaches the caller. Agents get copies of the state: what they do to what they observed does not affect the game. Output of muted agents is kept apart and restored, and no alarm is left pending. The records and summary of several games (scores, average, wins, win rate) are those games', the end of each is announced with its verdict and score, the progress reported of a running game is the share of its food that is left, and the rules' time limits are those they were given.",
     ["histories", "fault_sequences"], "every number of agents, every game length, every combination of listening agents and every point of failure",
     "The demo has no tests.",
     [D+"game.py", D+"pacman.py", D+"util.py"],
     [("turn loop", D+"game.py:Game.run, _agentCrash, mute, unmute"), ("time limits", D+"util.py:TimeoutFunction"), ("games in a row", D+"pacman.py:runGames, ClassicGameRules")],
     ["Game.moveHistory, agentCrashed, agents' callbacks, runGames"])

prop("C29", "Stack, queue and priority queues keep their order disciplines",
     "A stack returns items last-in first-out, a queue first-in first-out, a priority queue an item of the lowest priority and among those the one pushed first, each pushed item exactly once, for items of any kind, comparable or not; they are empty exactly when every pushed item was popped, and popping from an empty one is rejected. Updating a priority only ever lowers it, and adds an item that is absent. The function-driven priority queue orders by the value the function has for an item as it is pushed.",
     ["histories"], "every history of pushes, updates and pops",
     "The demo has no tests.",
     [D+"util.py"],
     [("containers", D+"util.py:Stack, Queue, PriorityQueue, PriorityQueueWithFunction")],
     ["push, pop, update, isEmpty"])

prop("C30", "Counters are total, additive and normalise to one",
     "A counter reports 0 for absent keys without changing any other key; addition, subtraction, increments, division and products act key by key over all keys of both and leave their operands alone; totals are sums; normalising a counter with non-zero total divides by the total and changes nothing otherwise. The key with the largest count and the listing of keys by descending count agree with the counts. Copies are independent.",
     ["histories", "inputs"], "every history of counter operations",
     "The demo has no tests.",
     [D+"util.py"],
     [("dictionary with default", D+"util.py:Counter, normalize")],
     ["Counter, normalize"])

prop("C31", "Grids and layouts represent exactly the map they were given",
     "A grid reports exactly the last value written to each cell; copies are independent, equal grids are exactly those with the same size and cells, listing, counting and printing agree with the cells, and packing into bits and unpacking gives an equal grid. A layout has exactly the walls, food, capsules and agents of its text at the mirrored coordinates, with Pacman first and ghosts in order, prints as its text, and its copies, corners, random legal positions and neighbour cells agree with its walls; a random corner is any of the four. Layouts are found by name from any directory below them, the nearest one of several, and the working directory is kept. The printed board of a state shows exactly that state.",
     ["inputs", "histories"], "every grid size and content, every layout text, every write sequence",
     "The demo has no tests.",
     [D+"game.py", D+"layout.py"],
     [("grid", D+"game.py:Grid, reconstituteGrid"), ("parsing", D+"layout.py:Layout.processLayoutText, processLayoutChar, getLayout"), ("board", D+"game.py:GameStateData.__str__")],
     ["Grid", "Layout"])

prop("C32", "Pacman: agents choose only legal moves, with the specified distribution",
     "In every reachable state a ghost agent chooses a legal move (stopping only if it has none). The random ghost's distribution is uniform over its legal moves; the directional ghost gives the attack or flight probability, evenly, to the legal moves that bring it nearest to (farthest from, when scared) Pacman, and the rest evenly to all legal moves. The keyboard agent moves in the direction of one of the keys pressed last if that is legal (South before North before East before West), stops if the stop key is pressed, continues its last move if it is, and stops otherwise.",
     ["histories", "inputs"], "every reachable state of every enclosed layout, every parameter, every key sequence",
     "The demo has no tests.",
     [D+"ghostAgents.py", D+"keyboardAgents.py"],
     [("distributions", D+"ghostAgents.py:RandomGhost, DirectionalGhost, GhostAgent.getAction"), ("keys", D+"keyboardAgents.py:KeyboardAgent.getAction, getMove")],
     ["getDistribution, getAction"])

prop("C33", "Random draws follow their distribution",
     "Sampling from a distribution given as weights and values, as a counter, a dictionary or as pairs, one draw or many at a time, only returns values of non-zero weight and returns each with its normalised weight as probability; a coin flip succeeds with the given probability. Normalising a vector divides by its sum; the probability of a value is the sum of its entries. All fixed random generators give the same sequence of draws, whatever is drawn elsewhere.",
     ["inputs", "schedules"], "every distribution and every state of the random generator",
     "The demo has no tests; a unit test of a random draw cannot settle its distribution.",
     [D+"util.py"],
     [("draws", D+"util.py:sample, nSample, sampleFromCounter, chooseFromDistribution, flipCoin, normalize, getProbability, FixedRandom")],
     ["draws"])

prop("C34", "Pacman: the screen shows the state of the game",
     "After the display is started and after every move the canvas shows exactly the walls (as the outline of the connected wall cells), the food and capsules left, the score, Pacman and every ghost at the position and facing the direction of the agent's latest move, scared ghosts white and every other agent in its own colour, all inside one window. Animation moves Pacman only along the way from the old to the new position; with a negative frame time every Pacman move waits for a key, until 'q' is pressed. Cell overlays and belief distributions cover exactly the cells given, lie beneath the rest of the picture, leave it and their arguments alone, are black where every belief is zero and never darker where the belief is greater; expanded cells are shaded in their order. Ghost distances are shown beside the score; the first-person display that hides ghosts keeps them off the board. Closing leaves no window.",
     ["histories", "inputs"], "every enclosed layout with at most five ghosts, every zoom and frame time, every sequence of moves",
     "The demo has no tests.",
     [D+"graphicsDisplay.py", D+"graphicsUtils.py"],
     [("drawing", D+"graphicsDisplay.py:PacmanGraphics"), ("canvas", D+"graphicsUtils.py:circle, polygon, line, moveCircle, move_to, move_by, edit, changeText, remove_from_screen")],
     ["PacmanGraphics.initialize, update, finish, drawExpandedCells, updateDistributions"])

prop("C35", "Pacman: the keyboard and mouse report exactly what was pressed",
     "The keys reported as pressed are those pressed and not released since, the waiting keys those pressed since they were last read, both forgotten when the window gains or loses the focus; polling handles pending events, a release together with what follows it, so that key repetition is not seen as a release. Waiting for keys returns only when a key is held; waiting for a click returns the latest unread click of a button with its place, and each click at most once. A keyboard agent obeys the keys waiting or held, or else those it obeyed last.",
     ["histories", "schedules"], "every sequence of key, focus and mouse events interleaved with reads",
     "The demo has no tests.",
     [D+"graphicsUtils.py", D+"keyboardAgents.py"],
     [("events", D+"graphicsUtils.py:_keypress, _keyrelease, _clear_keys, keys_pressed, keys_waiting, wait_for_keys, wait_for_click"), ("agents", D+"keyboardAgents.py:KeyboardAgent, KeyboardAgent2")],
     ["keys_pressed, keys_waiting, wait_for_keys, wait_for_click, KeyboardAgent.getAction"])

prop("C36", "Pacman: the command line sets up exactly the game it describes",
     "A command line sets up the layout, the Pacman agent with its arguments (a key alone meaning 1), the ghosts with their indices, the display's zoom and frame time, the number of games and training games, recording, exception handling and time limit given by its options, in any order and spelling, the last of repeated ones winning and the defaults holding for the rest. Unknown layouts, agents, options and malformed values are rejected. With a fixed seed the games are the same every time, in every process; without it the random state is left alone, and the working directory always is.",
     ["inputs", "configurations"], "every sequence of options, every directory to start from, agents found anywhere on the Python path",
     "The demo has no tests.",
     [D+"pacman.py", D+"demo.py", D+"layout.py"],
     [("parsing", D+"pacman.py:readCommand, parseAgentArgs, loadAgent"), ("default game", D+"demo.py:_build_configuration"), ("layouts", D+"layout.py:getLayout, tryToLoad")],
     ["readCommand, runGames"])

prop("C37", "Objects are equal exactly if they hold the same, and then hash alike",
     "Nodes, edges, directed relations, samples and sample sets, and the nodes, edges and whole graphs of folded and activation graphs, are equal exactly if they are of the same kind and hold the same content: names, endpoints, relations with their direction, counts, weights and query marks (a folded node: its variable and counted values; a graph: its nodes and edges). Equality is symmetric and independent of the order in which they were built, and equal objects hash alike, so either finds the other in a set or dictionary; nothing equals an object of another kind.",
     ["inputs", "configurations"], "every pair of such objects over one vocabulary, from the same or different networks, evidence and relation filters, under every hash seed",
     "Each class is compared with one equal and one unequal literal.",
     [R+"folded_graph.py", R+"activation_graph.py", R+"variables_graph.py", R+"graph_components.py", R+"sample_set.py", R+"sample_graph.py"],
     [("equality and hashes", R+"folded_graph.py, activation_graph.py, variables_graph.py, graph_components.py, sample_set.py, sample_graph.py: __eq__, __hash__")],
     ["==, !=, hash, membership"])

prop("C38", "Names given are kept, names omitted are inherited or made from the content",
     "A name passed to a builder or to a call that makes a sample or graph is exactly the name of the result. Omitted, samples are called by the builder's latest name or else by their text, relation graphs by the builder's name or else by their number of outcomes, activation, joined and converted graphs like their source, folded and conditional graphs by a name made for them (never one given to something else). Naming, renaming or copying a builder never changes the name of anything built before or of another builder, and names have no effect on equality.",
     ["histories"], "every history of naming, copying, building, conversion, conditioning, joining and transformation",
     "Each call is tested once with one name.",
     [R+"sample_graph.py", R+"relation_graph.py", R+"conditional_graph.py", R+"sample_space.py"],
     [("names", R+"sample_graph.py:set_name, build*, transform_with_replaced_values; relation_graph.py:set_name, build, conditional_graph, joined_on_variables, make_joined; sample_space.py:relation_graph, folded_graph; conditional_graph.py:activation_graph")],
     ["name attributes, describe()"])

prop("C39", "Evidence does not reach variables it is separated from",
     "In a network of complete tables, conditioning on an observation of one variable leaves the marginal probabilities of every variable unchanged that is separated from it by the variables observed before, in whatever order the evidence is given and whether it is given before or after joining. Separated means that every chain of tables between the two passes an observed variable, where tables that are conditional distributions of a variable which is not asked about, not observed and in no other table do not connect. Observed variables have their observed value with probability one.",
     ["inputs", "histories"], "every network of complete tables (chains, trees, cycles, common causes, common effects), every set of evidence",
     "Two fixed networks are compared in experiments; no test covers independence.",
     [R+"relation_graph.py", R+"sample_space.py", R+"conditional_graph.py", R+"sample_set.py"],
     [("inference", R+"relation_graph.py:conditional_graph, make_joined; sample_space.py:marginal_variables_probability; sample_set.py"),
      ("use", "Python/research/scripts/experiments/comparing_with_markov_network.py:relation_graph_separation, comparing_with_bayes_network.py:comparing_d_separation")],
     ["conditional_graph, relation_graph, make_joined, marginal_variables_probability"])

S = "Python/research/scripts/"
prop("C40", "Examples and experiments build and report exactly the networks they describe",
     "The coin example turns every series of tosses (one coin, or one coin and then another, the relation telling whether the first coin is worth less) into the network counting each toss once, rejects malformed series, and prints every outcome with its count and probability. The experiments build from their tables the network with one outcome per row, related from parent to child where the tables are conditional, with the table's entries as counts, and the programs confirm what they claim: agreement with Markov and Bayesian networks, separation, equal probability of the values of a variable over all outcomes. The playground enumerates every graph over n nodes exactly once.",
     ["inputs", "configurations"], "every series of tosses, every set of tables, n from 2",
     "Examples, experiments and playground have no tests.",
     [S+"examples", S+"experiments", S+"playaround"],
     [("coins", S+"examples/building_net_from_coin_toss.py:build_outcome, build_relation_net, describe_relation_net"),
      ("tables", S+"experiments/comparing_with_markov_network.py:make_relation_graph; comparing_with_bayes_network.py:make_relation_graph"),
      ("graphs", S+"playaround/number_of_subgraphs.py:make_all_sub_graphs")],
     ["build_relation_net, describe_relation_net, make_relation_graph, make_all_sub_graphs, the scripts"])

prop("C41", "Drawing calls change exactly what they describe",
     "Each drawing call of graphicsUtils changes the window's contents exactly as described and leaves every other item as it was. A polygon has the points, outline, fill (the outline's colour if none is given, none if not filled), smoothness and width asked for and goes on top of everything, or right below the item it is to be behind; a square, a circle (open between its end points, counter-clockwise from the first to the second), a line, a text and an image lie where asked, with the looks asked for and the documented defaults. Moving an item to a place puts its first point there, moving it by an offset shifts every point, both keep its shape, and only lifting changes what covers it; changing a circle's place and opening, an item's colour, options or text changes nothing else; removing an item removes only it, and clearing leaves just the background. A new window has the size, title and background asked for and replaces the old one. Colours written from brightness values between 0 and 1 are 255ths rounded down, and read back as 256ths.",
     ["histories", "inputs"], "every sequence of drawing calls on windows of any size",
     "The demo has no tests.",
     [D+"graphicsUtils.py"],
     [("drawing", D+"graphicsUtils.py:polygon, square, circle, line, text, image, moveCircle, move_to, move_by, edit, changeText, changeColor, remove_from_screen, clear_screen, draw_background, begin_graphics"),
      ("colours", D+"graphicsUtils.py:formatColor, colorToVector")],
     ["the canvas after each call"])

prop("C42", "Directions turn like the compass, bodies keep where they are and where they look",
     "LEFT, RIGHT and REVERSE (and Actions.reverseDirection) turn every direction like a compass, Stop into Stop. A direction and a speed make the vector of that length along it, a vector along an axis points in its direction, none in Stop; the successor of a place is the next cell in the direction. A moved body is at the sum of all its steps and looks where its latest real step went; standing still changes nothing; the body it was made from stays as it was. Bodies are equal exactly if place and direction are, equal bodies have equal hashes, and a body is on the grid exactly if both coordinates are whole. A body on a cell may stop or move to every neighbour cell without a wall; between cells it can only go on (any small error of rounding ignored). The copy of an agent's state carries everything the state knows and changes to it stay with it. The nearest cell rounds halves up; manhattan distance adds both distances, the sign is -1 for negative numbers only and 1 for all others; inverting a matrix exchanges rows and columns of any matrix and leaves it as it was; the cells of a matrix with a value are listed exactly once.",
     ["inputs", "histories"], "every direction, place, sequence of turns and steps, matrix and wall grid",
     "The demo has no tests.",
     [D+"game.py", D+"util.py"],
     [("directions and bodies", D+"game.py:Directions, Configuration, AgentState.copy, Actions"),
      ("cells and matrices", D+"util.py:nearestPoint, manhattanDistance, sign, arrayInvert, matrixAsList")],
     ["bodies", "vectors", "possible actions", "cells", "matrices"])

prop("C43", "Time limits and muting leave the process as they found it",
     "A call with a time limit passes on every argument, returns the function's value or raises the function's own exception unchanged, and raises TimeoutFunctionException exactly if its time runs out (at the time where the system has alarms, when the call is over otherwise). Inside the call an alarm of at most the limit is running; afterwards - however the call ended - no alarm is running and the process reacts to alarms as it did before, also when limited calls are nested. Muting sends everything printed nowhere, muting twice is muting once, and unmuting brings printing back to exactly where it went before muting; unmuting what is not muted does nothing.",
     ["histories", "schedules"], "every history of limited calls, their ways to end, muting, unmuting and redirections of the output",
     "The demo has no tests; what a call leaves behind in the process shows only later.",
     [D+"util.py"],
     [("limits", D+"util.py:TimeoutFunction"), ("muting", D+"util.py:mutePrint, unmutePrint")],
     ["results and exceptions", "alarm and handler", "where print arrives"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
