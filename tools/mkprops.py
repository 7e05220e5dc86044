"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
EV = "netomaton/evolution.py"; ST = "netomaton/state.py"

prop("C01", "Each step applies the rule once per node to the previous state only",
 "In every timestep of an evolution, the activity rule is applied exactly once to each node of the network (without memoization), and the new activities are exactly the rule's results keyed by node. The context each call receives is faithful: node label, timestep, the node's own previous activity, all previous activities, and the neighbour labels, neighbourhood activities and connection states of that node's incoming links, matched to each other position by position (in the network's rotation-system order if one is set, otherwise in the order of its incoming links). No call ever sees an activity that was already updated in the same timestep.",
 ["inputs", "configurations"], "every network, every assignment of previous activities, every activity rule that does not mutate its context, every timestep, with and without a cached neighbourhood map",
 "Tests evolve a few fixed small networks with specific rules; whether every context field is right for every node of every network, and that updates are synchronous for every order of nodes, is a statement over all networks and rules.",
 [EV], [("do_activity_rule", EV), ("_get_neighbour_labels / _get_neighbourhood_map", EV), ("NodeContext", EV)], ["contexts received by the activity rule", "activities of the returned states"])
prop("C02", "Timesteps or input fix the trajectory length, step numbers and node inputs",
 "Given timesteps=T>=1 and no input, evolve returns exactly T states: the first is the given initial state, and the rules run at timesteps 1..T-1 in order with no input. Given an input (which overrides timesteps) the evolution runs once per item of the list, or until the input function returns None, passing item t-1 (or the function's value for t, the previous activities and the previous network) at timestep t; each node receives its own entry when that item is a list, tuple or string, and the item itself otherwise. Initial conditions given as a list are the activities of nodes 0..n-1, giving neither timesteps nor input raises an exception, and giving a rule with a number of initial activities that differs from the number of nodes raises an exception.",
 ["inputs"], "every T>=1, every input list or function, every network and rule, every form of initial conditions",
 "Tests use a handful of lengths and inputs; off-by-one behaviour must be excluded for every length, and the per-node input for every shape of input.",
 [EV], [("evolve main loop", EV), ("_get_input_function, _TimestepInputFunction, _ListInputFunction", EV), ("do_activity_rule node_in", EV)], ["returned trajectory", "timestep and input seen by rules"])
prop("C03", "Update orders compute the documented equations",
 "With S the activities, A the network, G the activity rule and F the topology rule: ACTIVITIES_FIRST gives S(t+1)=G(A(t),S(t)) and A(t+1)=F(A(t),S(t+1)); TOPOLOGY_FIRST gives A(t+1)=F(A(t),S(t)) and S(t+1)=G(A(t+1),S(t)); SYNCHRONOUS gives A(t+1)=F(A(t),S(t)) and S(t+1)=G(A(t),S(t)). The topology rule runs exactly once per timestep, its context holds that timestep's number, and whatever network it returns is the one used next and recorded for that timestep; without a topology rule the network does not change. Any other update order, or a topology rule that returns no network, is rejected with an exception.",
 ["inputs", "histories"], "every pair of rules, every network, every number of timesteps, each update order",
 "There is no test of the synchronous order at all (the code says so), and the others are sampled on one or two models.",
 [EV], [("evolve", EV), ("evolve_activities", EV), ("evolve_topology", EV)], ["contexts received by both rules", "returned states"])
prop("C04", "Past activities are the correct sliding window",
 "When past conditions of length m are given (and activities are persisted), then at every timestep t the rule's context holds exactly m past activity maps: the last is the state two timesteps before the one being computed (t-2), the one before it is t-3, and so on, where the states before the initial one are taken from the end of the given past conditions. Past states given as lists are read by node index. Without past conditions there are none.",
 ["inputs", "histories"], "every m>=1, every t>=1, every past and present history",
 "Tests use one or two past states and look at final states only; the window must be right for every m and t, including when it straddles the initial state.",
 [EV], [("_get_past_activities", EV), ("NodeContext.past_activity_of", EV)], ["NodeContext.past_activities, past_activity_of"])
prop("C05", "Memoization does not change the trajectory",
 "For an activity rule whose result depends only on what the memoization key captures, evolving with memoize=True returns the same activities as with memoize=False, on every network, for any perturbation, past or timesteps, and the rule is called at most once per distinct key in the whole evolution. By default the key is the ordered neighbourhood activities when the network has a rotation system, and the multiset of neighbourhood activities otherwise; a user-given key is used as given. Two neighbourhoods that differ as sequences (or as multisets, respectively) never share a cache entry.",
 ["inputs", "histories"], "every rule that is a function of the key, every network, every history of cache hits and misses",
 "Tests compare memoized and plain runs for a few rules; a key that merges two different neighbourhoods only shows for particular states.",
 [EV], [("_get_memoized", EV), ("_OrderedMemoizationKey, _UnorderedMemoizationKey", EV), ("default key in evolve", EV)], ["trajectory with and without memoize", "rule invocations"])
prop("C06", "A perturbation is applied to every computed activity, exactly once",
 "With a perturbation function, in every timestep and for every node still present, the function is called exactly once, after the rule, with that node's label, the activity just computed by the rule (also when it came from the memoization cache), the timestep and the node's input; what it returns is the node's activity for that timestep. It never alters the cached rule results, the other nodes, or the initial state, and it is not called for a node that removed itself in that timestep.",
 ["inputs", "histories"], "every perturbation function, rule, network and timestep, with and without memoization and input",
 "Tests perturb one node at one or two timesteps; interaction with caching, inputs and removals is not exercised.",
 [EV], [("do_activity_rule", EV), ("PerturbationContext", EV)], ["contexts received by the perturbation", "returned activities"])
prop("C07", "Nodes added or removed by a rule are applied consistently",
 "When (with the default update order) rule invocations in a timestep remove or add nodes, the next network is exactly the previous one minus every removed node with all links touching it, plus every added node with its outgoing links (attributes included), in the order requested; a removal is carried out before the additions. The activities of that timestep hold exactly the surviving nodes' results and the added nodes' given states, so that activities and network have the same nodes; at the following timestep every node sees neighbours according to the changed network. The previously recorded networks and the network passed by the caller are unchanged.",
 ["inputs", "histories"], "every set of added and removed nodes in every timestep, every network, with or without a topology rule",
 "Tests cover a few growth models and one removal example; arbitrary combinations of additions, removals and self-links per step are not.",
 [EV, ST], [("do_activity_rule", EV), ("evolve_activities", EV), ("evolve_topology", EV), ("Network.remove_node/add_node/add_edge", ST)], ["state.network, state.activities", "contexts of the next timestep"])
prop("C08", "Recorded history is never altered by later timesteps",
 "Once a timestep is computed, neither the activities nor (with copying enabled, as by default) the network recorded for it or for any earlier timestep change afterwards, even if the topology rule modifies the network object it is given; the network and initial conditions passed by the caller are not modified either. A copy of a network is equal to it (nodes, node order, links, attributes, degrees and neighbour order), and changing either afterwards never changes the other.",
 ["histories", "inputs"], "every topology rule that mutates the network it receives, every number of timesteps, every network and sequence of operations after a copy",
 "Aliasing errors only show when a particular object is mutated after it was recorded; tests compare final values.",
 [EV, ST], [("evolve_topology copying", EV), ("Network.copy", ST), ("State", ST)], ["states recorded in the trajectory", "caller's network and initial conditions"])
prop("C09", "Persistence and compression options only change what is stored, never results",
 "With compression on, the activities and network read from every returned state equal those of the uncompressed run (for scalar, string and list activities and integer or string labels). With activities (or network) persistence off, later states carry no activities (no network) while the initial state keeps both, and the dynamics - the contexts every rule sees - are the same as with it on. Compressing and decompressing a network or an activity map gives back an equal one.",
 ["configurations", "inputs"], "every combination of compression, persist_activities and persist_network, every network and rules",
 "Tests compare compressed and plain runs for a few models; not every combination of options.",
 [EV, ST], [("State getters and setters", ST), ("_Compressor", ST), ("evolve_activities / evolve_topology persist flags", EV)], ["state.activities, state.network"])
prop("C10", "Network bookkeeping stays consistent under every operation sequence",
 "After any sequence of adding and removing nodes and (multi-)edges, the in-degree of a node is the number of edge instances ending in it, its out-degree the number starting from it, and its degree their sum; the incoming links, the edge listing, has_edge and edge agree with each other and with the operations performed (an edge instance per addition, each with its own attributes, in order of addition), and no link refers to a missing node. Removing an edge removes all its instances and nothing else; removing a node removes it and exactly the edges touching it (self-loops and multi-edges included); adding an existing node or edge endpoint keeps what was there. Updating an edge changes just the given attributes of just the selected instances, and fails for an edge that does not exist.",
 ["histories", "inputs"], "every finite sequence of add_node, add_edge, add_edge_bidir, remove_edge, remove_node and update_edge with any labels, multiplicities and self-loops",
 "Tests run a few short sequences; degree bookkeeping with multi-edges, self-loops and interleaved removals is a statement over all histories.",
 [ST], [("Network mutators", ST), ("Network queries", ST)], ["in_degree, out_degree, degree, edges, in_edges, has_edge, edge, nodes, len"],
 [("node record", "degree counters, incoming edge instances by source, outgoing targets", ST)])
prop("C11", "Adjacency-matrix and NetworkX conversions represent the same graph",
 "A network built from an adjacency matrix has one node per row and exactly one edge i->j, with the entry as its weight, per non-zero entry (i,j). The adjacency matrix of a network holds at (i,j) the summed weights of the edges from the i-th to the j-th node in node order or in the given node list (the last weight if multi-edges are not summed, 1 where the weight attribute is missing), and zero elsewhere. Converting a network to NetworkX and back keeps nodes, node attributes, edges with multiplicity, directions and edge attributes.",
 ["inputs"], "every matrix, every network with multi-edges, self-loops, isolated nodes and attributes, every node list",
 "Tests convert a few fixed matrices without isolated nodes.",
 [ST, "netomaton/topology/networks.py"], [("from_adjacency_matrix", "netomaton/topology/networks.py"), ("Network.to_adjacency_matrix, from_networkx, to_networkx", ST)], ["the converted graphs"])
prop("C12", "The 1D cellular automaton topology is the periodic ring of radius r",
 "For n>=3 cells and radius r with 2r+1<=n, the 1D topology links cell j into cell i exactly when their distance on the ring of n cells is at most r (each cell included), each link with weight 1; fewer than 3 cells or an unsupported boundary is rejected. With ordering on, each cell's neighbours are listed from i-r to i+r around the ring, and the rule sees activities in that left-to-right order.",
 ["inputs", "configurations"], "every n>=3, every r with 2r+1<=n",
 "Tests compare a few sizes with literal matrices; wrap-around and ordering must be right for every n, r and cell.",
 ["netomaton/topology/adjacency.py", "netomaton/topology/networks.py"], [("adjacency.cellular_automaton", "netomaton/topology/adjacency.py"), ("_shift_to_center, cellular_automaton", "netomaton/topology/networks.py")], ["adjacency matrix", "rotation system"])
prop("C13", "The 2D cellular automaton topologies link exactly the stated neighbourhoods",
 "For a rows x cols grid on the torus (cell index = row*cols+column) and radius r with 2r+1<=rows,cols, the Moore neighbourhood links cell q into cell p exactly when both row and column distances (periodic) are at most r, the von Neumann neighbourhood exactly when their sum is at most r, and the Hex neighbourhood of radius 1 exactly the cell, its four von Neumann neighbours and the two diagonal neighbours on the right in even rows (counting from 0) and on the left in odd rows; all links have weight 1. Fewer than 9 cells, an unknown neighbourhood or an unknown boundary is rejected.",
 ["inputs", "configurations"], "every rows, cols and r with 2r+1<=min(rows,cols), each neighbourhood type",
 "Tests compare a few literal matrices (mostly square, r=1); non-square grids and wrap-around at every border cell need all sizes.",
 ["netomaton/topology/adjacency.py"], [("adjacency.cellular_automaton2d, _get_neighbourhood_points2d", "netomaton/topology/adjacency.py")], ["adjacency matrix, network links"])
prop("C14", "The other topology builders produce exactly the stated graphs",
 "complete(n) has n nodes and one edge in each direction between every two different nodes; disconnected has exactly the given nodes (0..n-1 for a number) and no edges; bipartite links every node of the first set with every node of the second in both directions, with the attributes given for that pair, and nothing else; lattice (of at least two nodes, without self-loops) links every two grid-adjacent nodes once in each direction with consecutive labels starting at first_label. The Watts-Strogatz network with n nodes and k<n has symmetric links without self-links, n*(k//2) undirected links in all, and with p=0 it is the ring where each node joins its k//2 nearest on each side.",
 ["inputs", "configurations"], "every size, every pair of disjoint sets and edge attributes, every lattice dimension, every seed",
 "Tests check single small instances of some builders only.",
 ["netomaton/topology/networks.py"], [("complete, disconnected, bipartite, lattice, watts_strogatz_graph", "netomaton/topology/networks.py")], ["nodes and edges of the built network"])
prop("C15", "Elementary (binary) CA rules follow the rule number exactly",
 "For a neighbourhood of m binary activities with binary value s (first activity most significant) and a rule number 0<=R<2^(2^m), the NKS rule returns bit s of R, counting from the least significant, and the default scheme returns bit 2^m-1-s; the result is 0 or 1. Converting a number below 2^d to d binary digits and back gives the number, and converting bits to a number gives the value they denote in base 2.",
 ["inputs"], "every m, every rule number in range, every neighbourhood; every d and number",
 "Tests replay a few rules for 3-cell neighbourhoods; the numbering must be right for all 2^(2^m) rules of every m.",
 ["netomaton/rules/activity_rule.py"], [("binary_ca_rule, nks_ca_rule, bits_to_int, int_to_bits", "netomaton/rules/activity_rule.py")], ["rule results"])
prop("C16", "Totalistic rules read the digit selected by the neighbourhood sum",
 "For k colours (2<=k<=36), a neighbourhood of n activities each in 0..k-1 with sum s, and a rule number R in range (R < k^(n(k-1)+1)), the totalistic rule returns the digit of weight k^s in the base-k representation of R, always in 0..k-1. A rule number out of range for that neighbourhood is rejected with an exception.",
 ["inputs"], "every k in 2..36, every n, neighbourhood and rule number",
 "Tests use a few rule numbers with 2 or 3 colours; the digit selection must hold for every base, size and sum.",
 ["netomaton/rules/activity_rule.py"], [("totalistic_ca", "netomaton/rules/activity_rule.py")], ["rule results"])
prop("C17", "Game of Life, Wireworld and majority rules compute their definitions",
 "The Game of Life rule returns 1 exactly when the cell is alive with 2 or 3 live neighbours or dead with exactly 3 (its neighbourhood containing the cell itself), else 0. The Wireworld rule keeps empty cells empty, turns heads into tails and tails into conductors, and makes a conductor a head exactly when 1 or 2 cells of its neighbourhood are heads. The majority rule returns the strictly most frequent activity of the neighbourhood if there is one, and otherwise some activity of the neighbourhood.",
 ["inputs"], "every neighbourhood of any size and every current activity",
 "Tests replay a few patterns; the rules must be right for every neighbourhood count.",
 ["netomaton/rules/activity_rule.py"], [("game_of_life_rule, wireworld_rule, majority_rule", "netomaton/rules/activity_rule.py")], ["rule results"])
prop("C18", "The reversible rule is the XOR with the previous state and can be undone",
 "For a binary rule, the reversible rule's result is the wrapped rule's result XOR the node's activity two timesteps before the one being computed, and the wrapped rule is called once with the same context. Running it again from the last two states, exchanged, retraces the evolution backwards exactly to the first two states.",
 ["inputs", "histories"], "every binary activity rule, every network, every pair of consecutive states and every number of timesteps",
 "A test replays two trajectories; exact reversibility is a statement over all rules and states.",
 ["netomaton/reversible_rule.py", EV], [("ReversibleRule.__call__", "netomaton/reversible_rule.py"), ("NodeContext.past_activity_of", EV)], ["rule results", "forward and backward trajectories"])
prop("C19", "The asynchronous rule updates one node per timestep, cyclically",
 "Wrapped in an asynchronous rule with an update order of distinct nodes of the network (and no reshuffling), exactly one node is updated with the wrapped rule in each timestep, the one at the next position of the order, wrapping around after the last; every other node keeps its activity. This holds for any order in which the nodes are presented, and nodes outside the update order are never updated. If only n is given the order is a permutation of 0..n-1, and with reshuffling the order used in each timestep is a permutation of the same nodes; giving neither is rejected.",
 ["histories", "inputs"], "every network, update order, presentation order and number of timesteps",
 "Tests follow a couple of orders on rings; that exactly one node updates at each of any number of steps is a property of all histories.",
 ["netomaton/asynchronous_rule.py"], [("AsynchronousRule", "netomaton/asynchronous_rule.py")], ["which nodes the wrapped rule is applied to"],
 [("cursor and applied counter", "position in the order, nodes of the order seen in this timestep", "netomaton/asynchronous_rule.py")])
prop("C20", "Rule tables are complete, well-formed and have the reported lambda",
 "A random rule table for k states (2<=k<=10) and radius r has exactly the k^(2r+1) neighbourhood strings as keys and values in 0..k-1; the returned lambda is the fraction of entries not mapping to the returned quiescent state; with strong quiescence every uniform neighbourhood maps to its own state, and with isotropy mirror-image neighbourhoods map to equal values; an invalid quiescent state is rejected. Walking a table towards a lambda keeps its keys, keeps values in range, never changes entries in a way that breaks strong quiescence or isotropy that the table had, moves only towards the target, and returns the actual lambda of the returned table. The table rule returns the entry of the neighbourhood's string and rejects neighbourhoods that are not in the table.",
 ["inputs", "configurations"], "every k, r, lambda, quiescent state, both flags, every outcome of the random choices",
 "Tests draw a few random tables; the guarantees must hold for every random outcome and parameter.",
 ["netomaton/rule_tables.py"], [("random_rule_table, table_walk_through, table_rule", "netomaton/rule_tables.py")], ["returned tables and lambda values"])
prop("C21", "CTRBL rules look up centre, top, right, bottom, left on the torus",
 "For a rows x cols grid (at least 3x3), each cell's neighbourhood is presented as (centre, top, right, bottom, left) with periodic wrap-around, and the rule returns exactly the table's entry for these five activities, raising an exception if there is none. With rotations added the table contains, for every given entry, its four rotations of (top, right, bottom, left) mapped to the same image, and nothing else; without, exactly the given table (which is not modified). Langton's loop uses such a rotated table and starts from the documented loop pattern at each given position, with every other cell 0.",
 ["inputs", "configurations"], "every grid size from 3x3, every cell, every table (conflict-free under rotation), every neighbourhood state",
 "Tests compare one neighbourhood map and one table; geometry must be right at every border cell of every grid.",
 ["netomaton/ctrbl_rule.py", "netomaton/langtons_loop.py"], [("CTRBLRule", "netomaton/ctrbl_rule.py"), ("LangtonsLoop", "netomaton/langtons_loop.py")], ["rotation system", "rule table", "rule results"])
prop("C22", "Sandpile topples by the rule and conserves grains away from the boundary",
 "In the sandpile, a cell's next value is its current value, plus one for each of its four neighbours holding at least 4 grains, minus 4 if it holds at least 4 itself; with a closed boundary, border cells become 0 (and with an open one they follow the same law on the torus). Consequently without boundary loss the total number of grains never changes from one timestep to the next.",
 ["inputs", "histories"], "every grid of at least 3x3 cells, every non-negative configuration, with or without closed boundary",
 "One test replays one grid; conservation and the boundary law are statements over all configurations.",
 ["netomaton/sandpile.py"], [("Sandpile.activity_rule, _get_boundary_indices", "netomaton/sandpile.py")], ["rule results, total of activities"])
prop("C23", "Turing machines execute exactly one transition per timestep",
 "At each timestep both Turing machine forms apply the rule-table entry for the head's state and the symbol under it: exactly the cell under the head is rewritten with the entry's symbol, the head moves one cell in the entry's direction on the periodic tape and takes the entry's state, and nothing else changes; a missing entry raises an exception. The head-centric machine stops exactly when the terminating state is reached or the tape history has the maximum number of entries, its tape history holds the initial tape first and one new tape per transition, and no earlier tape is altered; at least one stopping criterion is required. Both forms compute the same tapes and head positions for the same machine.",
 ["inputs", "histories"], "every rule table, tape, initial head state and position, and number of timesteps",
 "Tests run a few machines; lock-step equivalence with the machine's definition must hold for all tables and histories.",
 ["netomaton/turing_machine.py"], [("TapeCentricTuringMachine", "netomaton/turing_machine.py"), ("HeadCentricTuringMachine", "netomaton/turing_machine.py")], ["tape history, head history, returned activities"])
prop("C24", "Substitution systems rewrite all symbols in parallel",
 "Each timestep of a substitution system with rules on blocks of m symbols replaces the current string by the concatenation, over each position that has m symbols from it on, of the replacement of that block, in order; for m=1 (L-systems) this is the parallel rewriting of every symbol, constants mapping to themselves. Node activities read in label order spell that string at every timestep, and rules with keys of different lengths are rejected. Padding a trajectory gives rows of equal length, each the string's values followed by zeros.",
 ["inputs", "histories"], "every rule map and axiom over any alphabet, every number of timesteps for which the string keeps at least m symbols",
 "Tests run a few systems; correctness of the rewired network for every string and block size is over all histories.",
 ["netomaton/substitution_system.py", EV], [("SubstitutionSystem.activity_rule, _init_network", "netomaton/substitution_system.py")], ["strings spelled by the states"])
prop("C25", "Wolfram model updates rewrite matched relations and keep the rest",
 "Converting a configuration (a list of relations over positive integers) to a network and back gives the same relations in the same order. One update replaces sets of relations that match the rule's left side under one consistent binding of symbols - each relation used at most once - by the right side under that binding, with one new node for each symbol left unbound, and keeps every unmatched relation unchanged. New nodes are numbered consecutively after the highest node in use.",
 ["inputs", "histories"], "every configuration and rule with one or more non-empty relations of any arity on each side",
 "Tests replay a few rules; conversion of hyperedges, self-loops, unary relations and repeated nodes needs all configurations.",
 ["netomaton/wolfram_physics_model.py"], [("topology_rule, _matches, network_to_config, _init_network_and_conditions", "netomaton/wolfram_physics_model.py")], ["configurations of the trajectory"])
prop("C26", "Hopfield nets learn Hebbian weights and never increase the energy",
 "Training on bipolar patterns gives exactly the weights W[i][j] = sum over the patterns of p[i]*p[j] for i different from j and 0 on the diagonal (hence symmetric), and a network with one node per unit linked with exactly the non-zero weights. The update of a node returns 1 if the weighted sum of its neighbours' activities is at least 0, and -1 otherwise; therefore updating one node at a time never increases the energy -1/2 sum W[i][j]*s[i]*s[j].",
 ["inputs", "histories"], "every set of bipolar patterns, every state, every sequence of asynchronous updates",
 "A test recalls a few stored digits; the weights and the energy descent are universal statements.",
 ["netomaton/hopfield_net.py"], [("HopfieldNet.train, _rule", "netomaton/hopfield_net.py")], ["adjacency_matrix, network, rule results, energy"])
prop("C27", "Fungal growth keeps links one-way on the lattice with equal out-weights",
 "In every timestep of the fungal growth model, links join only adjacent cells of the periodic width x height lattice, never in both directions between the same two cells and never twice; existing links are kept, a new link starts at a cell holding resource, and a cell's outgoing links all have weight 1 divided by its number of outgoing links. A cell's next resource is the weighted sum of the previous resource of the cells linked into it (its own previous resource if there is none) plus the absorption rate if it holds resource and sits on a resource site.",
 ["histories", "inputs"], "every lattice, every initial distribution, every outcome of the random choices and every number of timesteps (each lattice side at least 3)",
 "A test replays one seed; the structural invariants must hold for every random outcome.",
 ["netomaton/fungal_growth_model.py"], [("FungalGrowthModel.topology_rule, activity_rule", "netomaton/fungal_growth_model.py")], ["networks and activities of the trajectory"])
prop("C28", "Entropy and mutual-information measures equal their definitions",
 "Shannon entropy of a sequence is -sum p*log2(p) over its distinct symbols with p their relative frequency, joint entropy the same over symbol pairs at equal positions, and mutual information H(X)+H(Y)-H(X,Y). Average node entropy is the mean over nodes of the entropy of the node's states over time, each state being one symbol, and average mutual information the mean over nodes of the mutual information of the node's states and the same shifted by the temporal distance, which must be between 1 and the number of timesteps minus 1 and is rejected otherwise. Both accept a trajectory or a list of activity lists and reject an empty one.",
 ["inputs"], "every non-empty sequence of symbols, every list of activities and every temporal distance",
 "Tests compare a few literal values for single-digit states.",
 ["netomaton/analysis.py"], [("shannon_entropy, joint_shannon_entropy, mutual_information, average_node_entropy, average_mutual_information", "netomaton/analysis.py")], ["returned values"])
prop("C29", "Initial-condition and conversion helpers return exactly what they state",
 "init_simple(n, v) has n entries, v at index n//2 and zeros elsewhere; init_simple2d(rows, cols, v) has rows*cols entries, v at row rows//2 and column cols//2, zeros elsewhere; init_random(n, k, m, e) has n entries, the m centred ones in 0..k-1 and the others e, and rejects m outside 0..n. The activities list of a trajectory has one row per state with activities, each listing the activities in order of node label. ncr(n, r) is the binomial coefficient (0 if r>n) and rejects negative or non-integer arguments; binarizing gives each number's binary digits left-padded with zeros to the common length.",
 ["inputs"], "every size, value, state count and randomised width; every trajectory; all non-negative integers n and r",
 "Tests use literal examples, mostly of odd sizes.",
 [EV, "netomaton/utils.py"], [("init_simple, init_random, init_simple2d", EV), ("get_activities_over_time_as_list, ncr, binarize_for_plotting", "netomaton/utils.py")], ["returned lists"])
prop("C30", "Hopfield-Tank maps, distances, tour and update follow the TSP formulation",
 "For n points, distances lists each pair i<j once with its Euclidean distance and the distance map is symmetric with zero diagonal; node labels 0..n^2-1 correspond one-to-one to (city, position) pairs row by row. A node's update is the state plus dt times the Hopfield-Tank derivative, in which rows, columns, the global count and the previous and next tour positions (cyclically) contribute as stated by the hyperparameters. The tour read from a permutation matrix visits each city at its row's largest position, closes into one cycle with the summed length, and a position claimed twice is rejected.",
 ["inputs"], "every list of at least 2 points, every state and every permutation matrix",
 "Tests use one list of points.",
 ["netomaton/hopfield_tank_tsp_net.py"], [("HopfieldTankTSPNet", "netomaton/hopfield_tank_tsp_net.py")], ["returned maps, graph and values"])
prop("C31", "The turtle moves, turns and restores its state as instructed",
 "Moving forward by d adds (d*sin a, d*cos a) to the position for heading a in degrees and records just that segment; rotating adds to the heading and moves nothing; push followed by any balanced sequence and pop restores position and heading exactly, in last-in-first-out order, and recorded segments are never altered. Rendering an L-system state executes the instructions bound to its symbols, in order, lists of instructions and instructions with arguments included.",
 ["inputs", "histories"], "every sequence of instructions and every L-system string and binding",
 "Tests follow two short walks.",
 ["netomaton/turtle.py", "netomaton/utils.py"], [("Turtle", "netomaton/turtle.py"), ("_render_L_system", "netomaton/utils.py")], ["x, y, orientation, trajectory"])
prop("C32", "Plots and animations draw exactly the given activities",
 "Plotting and animation functions render, cell by cell, series by series and frame by frame, exactly the activities and networks they are given.",
 ["inputs"], "every activities list and option",
 "Tests do not render at all.",
 ["netomaton/utils.py", "netomaton/hexplot.py", "netomaton/vis/vis_utils.py"], [("plot_* and animate_*", "netomaton/utils.py")], ["the figure"])
prop("C33", "Continuous and optimisation models reach their intended solutions",
 "The Hopfield-Tank network settles into a valid tour, a Hopfield net into the closest stored pattern, and continuous-time models track their differential equations, within a bounded number of timesteps.",
 ["histories"], "every initial state and parameter choice",
 "Tests show single runs that converge.",
 ["netomaton/hopfield_tank_tsp_net.py", "netomaton/hopfield_net.py"], [("activity rules", "netomaton/hopfield_tank_tsp_net.py")], ["final activities"])
with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
