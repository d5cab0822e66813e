"""Writes properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

G = "gerrychain/"
prop("C01", "A Markov chain follows the propose/validate/accept protocol exactly",
 "Iterating a chain yields exactly total_steps states: first the initial state, then after each valid proposal either that proposal (if accepted) or the unchanged current state (if rejected), while proposals failing a constraint are discarded without being counted, shown to the acceptance rule, or becoming the current state. Every proposal is drawn from the current state and judged with that state as its parent, so every yielded state satisfies all constraints; re-iterating starts over from the initial state. Building a chain, or replacing its constraints, with constraints the initial state fails raises ValueError and leaves an existing chain's constraints unchanged.",
 ["histories", "configurations"], "every sequence of valid/invalid proposals and accept/reject answers up to the bound, every chain length, every way of passing constraints, every point at which iteration is abandoned and restarted",
 "The tests run a few chains with one proposal and one acceptance rule; the bookkeeping errors (off-by-one, counting invalid proposals, proposing from a rejected state, stale state on restart) depend on the particular pattern of valid/invalid/accepted/rejected answers.",
 [G+"chain.py", G+"constraints/validity.py", G+"accept.py"],
 [("MarkovChain.__next__ / __iter__", G+"chain.py"), ("Validator.__call__", G+"constraints/validity.py")],
 ["sequence of yielded states, calls received by proposal/constraint/accept callbacks"],
 [("state, counter", "current state and number of yielded states", G+"chain.py")])
prop("C02", "Plans and their districts stay consistent under every history of flips",
 "After any sequence of flips the plan assigns every node exactly as if each flip had overwritten a dictionary: the node-to-district mapping and the district-to-nodes sets are exact inverses, and each district's subgraph is the graph induced by exactly its nodes. Flipping never changes the plan it started from, nor sibling plans, nor the caller's flips, assignment or graph; and nothing the caller later does with those dictionaries changes a plan. A plan built from a node attribute, a dictionary, a pandas Series or another plan's assignment describes the same districts, and an assignment that does not cover exactly the graph's nodes, each once, is refused.",
 ["histories", "inputs"], "every history of single and multi-node flips (including no-op, repeated and district-emptying ones) up to the bound on every small graph and start plan, with branching (siblings) and any label/node types",
 "Tests flip a handful of fixed nodes once or twice and check one view at a time; corruption that needs a district to empty and refill, a swap, a no-op flip or a sibling is not sampled.",
 [G+"partition/partition.py", G+"partition/assignment.py", G+"partition/subgraphs.py", G+"updaters/flows.py"],
 [("Assignment.update_flows / copy", G+"partition/assignment.py"), ("flows_from_changes", G+"updaters/flows.py"), ("SubgraphView", G+"partition/subgraphs.py")],
 ["partition.assignment, partition.parts, partition.subgraphs, partition.flips"],
 [("Assignment.parts / mapping", "two redundant views of the plan", G+"partition/assignment.py")])
prop("C03", "Cut-edge data always equals a from-scratch recomputation",
 "For every plan reached by any history of flips, the cut edges are exactly the graph edges whose ends lie in different districts (each listed once, ends in sorted order), the per-district cut edges are exactly those cut edges touching that district, and the reported edge and node flows are exactly the difference between the plan and its parent. This holds whether values are read at every step or only at the end.",
 ["histories", "inputs"], "every history of flips (single, multi-node, swaps, district-emptying) and every pattern of reading/not reading intermediate values, up to the bound",
 "Incremental set updates go wrong only for particular local patterns (edge cut before and after but between different districts, both ends flipping at once, unread parents); tests sample a few flips on one grid.",
 [G+"updaters/cut_edges.py", G+"updaters/flows.py", G+"partition/partition.py"],
 [("cut_edges, cut_edges_by_part", G+"updaters/cut_edges.py"), ("compute_edge_flows, on_edge_flow, neighbor_flips", G+"updaters/flows.py")],
 ["partition['cut_edges'], partition['cut_edges_by_part'], partition.flows, partition.edge_flows"])
prop("C04", "Tallies and election vote totals always equal a from-scratch sum",
 "For every plan reached by any history of flips, a tally of one or several node columns, a tally of external data and an election's per-party vote counts, totals and percentages equal the sums over each district's current nodes. Values that are missing (NaN) at a node are left out consistently at every step, every district has an entry, and the same tally or election object used with several graphs or several chains never mixes their data.",
 ["histories", "inputs", "configurations"], "every flip history up to the bound, integer/float/zero/negative/NaN data, single and multiple columns, interleaved use on two graphs",
 "Tests check one or two flips of a tally with ordinary data; drift needs a later step, a swap between three districts, NaN data, or an updater object reused elsewhere.",
 [G+"updaters/tally.py", G+"updaters/election.py", G+"updaters/flows.py"],
 [("Tally._update_tally", G+"updaters/tally.py"), ("DataTally + on_flow", G+"updaters/tally.py"), ("ElectionUpdater", G+"updaters/election.py")],
 ["partition[<tally alias>], partition[<election alias>].totals / totals_for_party / percents_for_party"])
prop("C05", "Areas, boundary lengths and compactness always match the current map",
 "For every plan reached by any history of flips, each district's area, exterior boundary length, exterior boundary nodes, interior boundary length (shared with other districts) and perimeter equal the values computed afresh from the node and edge attributes, and its Polsby-Popper score equals 4*pi*area/perimeter^2. The aggregate compactness scores are the stated norms of those scores.",
 ["histories", "inputs"], "every flip history up to the bound on small maps with distinct areas and edge lengths, including districts with no exterior boundary and districts surrounding others",
 "The tests check one perimeter on one grid where all lengths equal 1, so misattributed lengths cancel; multi-step drift is not sampled.",
 [G+"updaters/compactness.py", G+"metrics/compactness.py", G+"partition/geographic.py", G+"constraints/compactness.py"],
 [("exterior_boundaries, interior_boundaries, perimeter", G+"updaters/compactness.py"), ("polsby_popper", G+"metrics/compactness.py")],
 ["GeographicPartition updaters, polsby_popper, L1/L2/L-1 scores"])
prop("C06", "County, region and locality split reports match the current plan",
 "For every plan reached by any history of flips, each county's report lists exactly its nodes and the districts it meets, and is 'not split' exactly when it meets one district, 'old split' when it was already split in the parent plan and 'new split' when it was not; refusing new splits accepts exactly the plans without a new split. Region split tallies and locality scores (parts, pieces, split localities, cut edges inside localities, entropies) equal their definitions recomputed from scratch for any locality labels, and a score reported for one plan never changes when another plan is scored.",
 ["histories", "inputs"], "every flip history up to the bound, every assignment of nodes to localities (including string/integer labels, disconnected localities), several plans scored in any order",
 "Tests score one hard-coded plan; statuses depend on two consecutive steps and scores on label types and on which plan was scored last.",
 [G+"updaters/county_splits.py", G+"updaters/locality_split_scores.py", G+"constraints/validity.py"],
 [("compute_county_splits, tally_region_splits", G+"updaters/county_splits.py"), ("LocalitySplits", G+"updaters/locality_split_scores.py"), ("refuse_new_splits", G+"constraints/validity.py")],
 ["partition[<county updater>], partition[<locality updater>], refuse_new_splits(...)"])
prop("C07", "Derived values of a plan never depend on when or where else they are read",
 "The value of any derived quantity of a plan (cut edges, tallies, elections, perimeters, locality scores, user-defined flow updaters) is the same whether it is read immediately, later, after the chain has moved on and dropped its ancestors, after sibling plans were made, or interleaved with other chains or plans on other graphs. It is computed at most once per plan and is not altered by later steps. A plan sees exactly its own updaters.",
 ["histories", "schedules", "configurations"], "every interleaving of step / read / branch operations over one or two chains (shared updater objects, shared or different graphs) up to the bound",
 "Tests read every value right after the step that made it, on one chain; stale caches and shared mutable state need a particular interleaving of reads, steps and siblings.",
 [G+"partition/partition.py", G+"updaters/flows.py", G+"updaters/tally.py", G+"updaters/election.py", G+"updaters/locality_split_scores.py", G+"chain.py"],
 [("Partition.__getitem__ cache", G+"partition/partition.py"), ("lru_cache on flows", G+"updaters/flows.py"), ("parent erasure", G+"chain.py")],
 ["partition[...] values over time"])
prop("C08", "Contiguity checks decide connectivity exactly",
 "For an initial plan, and for any plan obtained by flips from a contiguous plan without emptying a district, the general contiguity checks return True exactly when every district is connected. The single-flip check gives the same answer for every move of one node to a neighbouring district from a contiguous plan, whichever neighbour it happens to start from, and rejects a move that empties a district; component listings and counts of contiguous districts match the true components, and the no-more-discontiguous rule never admits a plan with fewer contiguous districts than the first plan it saw.",
 ["inputs", "histories"], "every connected graph up to the bound, every plan, every single- and multi-node flip, every random outcome inside the check",
 "Tests check a few 3x3 grids; errors need a particular cycle/hole structure or a particular starting neighbour.",
 [G+"constraints/contiguity.py"],
 [("contiguous, contiguous_bfs, single_flip_contiguous, affected_parts", G+"constraints/contiguity.py")],
 ["return values of the constraint functions"])
prop("C09", "Bound, population and validity constraints decide exactly what they state",
 "Upper, lower and two-sided bounds accept exactly the values within the inclusive limits; self-configuring bounds fix their limit from the first plan they see (minus epsilon, or plus/minus a percentage) and keep it for every later plan, whatever that value is (zero and negative included). The population constraint accepts exactly the plans whose every district lies within the stated percentage of the ideal computed from the initial plan, deviations and relative tolerances follow their definitions, and no-vanishing-districts rejects exactly the plans with an empty district. A validator is the conjunction of its constraints, stops at the first failure, and refuses non-boolean answers.",
 ["inputs", "histories"], "every short sequence of values (zero, negative, equal-to-limit, fractional) presented to each constraint; every plan and flip of small weighted graphs; every vector of constraint answers",
 "Tests use one or two values, none at zero or exactly on the limit, and rarely call a self-configuring constraint twice.",
 [G+"constraints/bounds.py", G+"constraints/validity.py"],
 [("Bounds & SelfConfiguring*", G+"constraints/bounds.py"), ("within_percent_of_ideal_population, districts_within_tolerance, Validator", G+"constraints/validity.py")],
 ["return values of constraint objects"])
prop("C10", "Flip proposals move exactly the legal nodes, with the stated probabilities",
 "For every plan: the random-flip proposal moves exactly one endpoint of a uniformly chosen cut edge into the other endpoint's district (and returns the plan unchanged if there are no cut edges); the reversible variants choose uniformly among (boundary node, neighbouring district) pairs, or uniformly a boundary node then uniformly a neighbouring district; the any-node flip is uniform over node and district; the chunk flip absorbs exactly the foreign neighbours of a chosen boundary node; the every-district flip makes one boundary move per district. The input plan is never modified, and the cut-edge acceptance rule accepts with probability min(1, parent cut edges / new cut edges), always for an initial plan.",
 ["inputs", "configurations"], "every small graph and plan, every outcome of every random draw, exact probabilities",
 "Tests check that a flip is 'some' boundary flip with one mocked choice; distributions and rare outcomes are not checkable by sampling.",
 [G+"proposals/proposals.py", G+"accept.py"],
 [("propose_* functions", G+"proposals/proposals.py"), ("cut_edge_accept", G+"accept.py")],
 ["the proposed plan and its exact probability; accept decision"])
prop("C11", "Random trees are always spanning; the uniform one is uniform",
 "For every connected graph and every outcome of the random draws, the random spanning tree and the uniform spanning tree contain every node, only edges of the graph, and no cycle; the random spanning tree is a minimum tree for the weights drawn and can be any spanning tree. The uniform spanning tree returns each spanning tree with the same probability, and the reported number of spanning trees of a district equals its true number.",
 ["inputs", "configurations"], "every connected graph up to the bound; every sequence of draws (Wilson walks enumerated until the unexplored probability mass is below a stated bound)",
 "One test draws a single tree on one graph and checks it is a tree; uniformity is a statement about the distribution.",
 [G+"tree.py", G+"updaters/spanning_trees.py"],
 [("random_spanning_tree, uniform_spanning_tree", G+"tree.py"), ("num_spanning_trees", G+"updaters/spanning_trees.py")],
 ["returned trees and their exact probabilities; num_spanning_trees values"])
prop("C12", "The balanced-cut search finds exactly the balanced cuts of a tree",
 "For every populated tree, target, tolerance and choice of root, every reported cut is a tree edge whose reported side is one component of the tree without that edge and has population within tolerance of the target (and so does the other side for two-sided cuts). Both search algorithms report every two-sided balanced edge exactly once, the memoising algorithm also reports every edge with at least one balanced side for one-sided cuts, and the input tree and populations are left unchanged.",
 ["inputs", "configurations"], "every tree up to the bound, every population vector from a small alphabet (including zero), every root, target and tolerance (including exactly-on-the-limit)",
 "Tests check two or three trees with unit populations and a mocked root.",
 [G+"tree.py"],
 [("find_balanced_edge_cuts_memoization / _contraction, PopulatedGraph", G+"tree.py")],
 ["list of Cut(edge, weight, subset)"])
prop("C13", "Bipartitions and seed plans are always connected, balanced and complete",
 "Whatever the random draws, a tree bipartition either returns a connected node set with connected complement whose population (both sides, unless a one-sided cut was asked for) is within epsilon of the target, or reports failure after the configured number of attempts. Seed-plan generation (recursive tree, recursive seed with any chunking options, random initial partitions) either raises or assigns every node exactly one of the requested labels, each label used, every district connected and within epsilon of the target, without altering the caller's graph.",
 ["inputs", "configurations"], "every small connected graph, population vector, target, tolerance, number of parts and chunking option; every spanning tree, root and cut choice up to the attempt bound",
 "Tests sample a few random seeds on grids with unit populations and loose tolerances; unbalanced last districts or disconnected pieces need particular trees and weights.",
 [G+"tree.py", G+"partition/partition.py"],
 [("bipartition_tree, bipartition_tree_random, epsilon_tree_bipartition, recursive_tree_part, recursive_seed_part, get_seed_chunks", G+"tree.py"), ("Partition.from_random_assignment", G+"partition/partition.py")],
 ["returned node sets / assignments / exceptions"])
prop("C14", "ReCom re-splits exactly one pair of adjacent districts and always ends",
 "From any plan with connected districts, whatever the random draws, a ReCom step (function or class form, any bipartition method) changes only nodes of two adjacent districts, keeps those two labels, and leaves both of them connected and within epsilon of the target, using all their nodes; the starting plan is untouched. With pair reselection allowed, pairs that cannot be split are skipped and, if no adjacent pair can be split, the step fails with a metagraph error instead of running forever. Spectral ReCom likewise changes only the two merged districts and leaves neither empty.",
 ["inputs", "configurations", "histories"], "every small graph and start plan (including disconnected district graphs' non-adjacent pairs), every choice of pair, tree, root and cut; every pattern of unsplittable pairs",
 "Tests run recom with a fixed seed on a 6x6 grid; wrong labels, touched bystander districts or endless reselection need specific plans and draws.",
 [G+"proposals/tree_proposals.py", G+"proposals/spectral_proposals.py", G+"tree.py"],
 [("recom, ReCom", G+"proposals/tree_proposals.py"), ("epsilon_tree_bipartition", G+"tree.py"), ("spectral_recom", G+"proposals/spectral_proposals.py")],
 ["proposed plan; exceptions; termination"])
prop("C15", "Reversible ReCom has exactly the reversible transition probabilities",
 "For every plan with k districts and valid bound M, reversible ReCom moves from plan P to a different plan P' (as unlabelled partitions, re-splitting districts A,B into balanced A',B') with probability (2/k^2) * trees(A') * trees(B') / (trees(A union B) * M), and otherwise stays put; hence detailed balance holds with respect to the spanning-tree distribution. If a tree has more balanced cuts than M the step raises a reversibility error rather than returning a biased plan.",
 ["inputs", "configurations"], "every small graph, every pair of plans, every outcome of every draw, with exact probabilities (uniform spanning tree replaced by exact enumeration or enumerated to a stated mass)",
 "Reversibility is a property of the whole transition matrix; tests only run the chain once with a fixed seed.",
 [G+"proposals/tree_proposals.py", G+"tree.py"],
 [("reversible_recom", G+"proposals/tree_proposals.py"), ("uniform_spanning_tree, balanced cuts", G+"tree.py")],
 ["exact transition probabilities between plans"])
prop("C16", "Optimization runs report the best plan seen and follow their acceptance rules",
 "At every point of an optimization run (short bursts, tilted, variable-length, annealing, tilted run), the best plan and score are the best among the initial plan and all plans yielded so far, ties going to the later one, for maximization and minimization; each burst starts from the best plan so far, runs yield exactly the requested number of plans, and each run starts afresh. Tilted rules accept equal-or-better plans always and worse ones with probability p; annealing accepts with probability min(1, exp(-beta(t)*magnitude*worsening)); the beta schedules are hot (0), cold (1) and in between exactly as described over every cycle; variable-length bursts double after the stated number of bursts without improvement.",
 ["histories", "configurations"], "every sequence of scores and acceptance outcomes up to the bound, every optimizer, both directions; every step of several cycles of every schedule",
 "Tests check a long random run reaches a known optimum; ordering, tie and off-by-one errors survive that.",
 [G+"optimization/optimization.py"],
 [("SingleMetricOptimizer", G+"optimization/optimization.py")],
 ["yielded plans, best_part, best_score, exact acceptance probabilities, beta values"])
prop("C17", "Gingleator scores equal their definitions for every district profile",
 "For every vector of district minority shares and every threshold, each score (count of opportunity districts; plus next-highest share; plus scaled closeness within 10%; plus scaled maximum excess; plus scaled average excess) equals its documented formula, including when no district or every district is at or above the threshold. When only a minority population column is given, shares are that population divided by the total population column of the same district, at every step, also when several optimizers with different columns share one initial plan.",
 ["inputs", "histories"], "every share vector over a grid of values (including exactly the threshold) for up to the bound number of districts; flip histories for the derived share updater",
 "Tests evaluate each score on one plan in the middle of the range.",
 [G+"optimization/gingleator.py"],
 [("Gingleator score functions and constructor", G+"optimization/gingleator.py")],
 ["score values"])
prop("C18", "Metagraph neighbours are exactly the valid plans one boundary flip away",
 "For every plan and set of constraints, the enumerated flips, states and their number are exactly the distinct plans reachable by moving one node across a cut edge that satisfy all constraints, each reported once, and enumeration leaves the plan unchanged.",
 ["inputs", "configurations"], "every small graph, plan and constraint set",
 "Tests check membership on one 3x3 grid; duplicates and omissions depend on several cut edges sharing a node.",
 [G+"metagraph.py"],
 [("all_cut_edge_flips, all_valid_states_one_flip_away, all_valid_flips, metagraph_degree", G+"metagraph.py")],
 ["enumerated flips/states/degree"])
prop("C19", "Graph data survives import, joining and saving unchanged",
 "Writing a graph to JSON and reading it back gives the same nodes, edges and attributes for any JSON-representable data (integers from pandas/numpy included; the attribute name 'id' is reserved by the format), dropping geometries or converting them to GeoJSON as requested, without changing the graph in memory. Adding or joining tabular data gives every node exactly the requested columns' values of its matching row (by node id or by the named key columns), adding no other columns and leaving other attributes alone. A graph used by a plan is immutable and answers every query as the original does.",
 ["inputs", "configurations"], "every combination of node/edge attribute values from the alphabet, index/column permutations, requested column subsets, key columns, on small graphs",
 "Tests join one small frame in natural row order; misalignment needs permuted rows or overlapping key columns.",
 [G+"graph/graph.py"],
 [("Graph.to_json/from_json, add_data, join, FrozenGraph", G+"graph/graph.py")],
 ["node/edge attributes after the operation; files"])
prop("C20", "Adjacency graphs built from geometries match the map",
 "For every map made of polygons, the rook graph joins exactly the polygons sharing a border of positive length and the queen graph exactly those touching at all, with the true shared length on each edge; each node gets its true area, its requested columns, whether it touches the outside boundary (or a hole) of the map, and the true length of that exposed boundary. Reprojecting does the same in the UTM zone holding most polygons. Node ids are the table's index, whatever its order; the graph records the coordinate system of its geometries; invalid geometries are refused unless told otherwise, and overlaps and islands are warned about.",
 ["inputs", "configurations"], "every partition of a small grid of cells into polygons (non-convex shapes, holes, islands), every row order, both adjacency rules",
 "Tests use one 4-square arrangement; corner-only contacts, holes and permuted indices are where attribution goes wrong.",
 [G+"graph/adjacency.py", G+"graph/graph.py", G+"graph/geo.py"],
 [("rook, queen, neighbors", G+"graph/adjacency.py"), ("Graph.from_geodataframe, add_boundary_perimeters", G+"graph/graph.py")],
 ["edges, shared_perim, area, boundary_node, boundary_perim"])
prop("C21", "Election queries and partisan metrics equal their definitions",
 "For every table of votes by district and party, seats, wins, vote counts, totals and percentages follow directly from the votes (a party wins a district only with strictly more votes than every other; a district without votes has undefined shares), and the mean-median, mean-thirdian, efficiency gap, wasted votes, partisan bias and partisan Gini scores equal their published formulas with the first-listed party as the point of view.",
 ["inputs"], "every small integer vote table (ties and zero-vote districts included) for 1..4 districts and 2..3 parties, every party order",
 "Tests evaluate each metric on one or two elections without ties.",
 [G+"updaters/election.py", G+"metrics/partisan.py"],
 [("ElectionResults", G+"updaters/election.py"), ("partisan metrics", G+"metrics/partisan.py")],
 ["metric values"])
prop("C22", "Diversity statistics count distinct plans and districts exactly",
 "Wrapping any sequence of plans yields the same plans in the same order, each with the number of steps so far, the number of distinct plans so far (relabelled plans counting as the same plan) and the number of distinct districts (as node sets) so far; earlier reports never change.",
 ["histories"], "every sequence of plans up to the bound over all plans of small graphs, including repeats and relabellings",
 "Tests check one short run.",
 [G+"meta/diversity.py"],
 [("collect_diversity_stats", G+"meta/diversity.py")],
 ["yielded (plan, stats) pairs"])
prop("C23", "Grid plans describe the unit-square grid exactly",
 "For every grid size, with or without diagonals, nodes, edges, populations, areas, shared lengths and exterior boundary lengths are those of the m-by-n array of unit squares (diagonal contacts have length zero), so each district's area and perimeter are those of its union of squares after any flips. The default plan colours quadrants, a supplied assignment or extra updaters are honoured, and the printed/listed layout shows each cell's district.",
 ["configurations", "histories"], "every grid size up to the bound, every plan and flip history on small grids",
 "Tests use square grids of one size; narrow grids and per-district perimeters are not covered.",
 [G+"grid.py"],
 [("Grid, create_grid_graph, get_boundary_perim", G+"grid.py")],
 ["Grid attributes and updater values"])
prop("C24", "Region surcharges steer trees and cuts away from splitting regions",
 "With region surcharges, each edge joining different regions (or touching a node with no region) has its random weight raised by the sum of the surcharges of the regions it crosses, so with a surcharge above one the drawn tree restricted to each connected region is connected. When a tree offers several balanced cuts, one crossing the most surcharged regions (then the largest total surcharge, then the largest weight) is chosen; with an empty surcharge dictionary (or more than three region types) the highest-weight cut, and with no dictionary a uniformly random balanced cut. The surcharges given to ReCom reach the tree and the cut choice.",
 ["inputs", "configurations"], "every small region-labelled graph, every order of drawn weights, every set of balanced cuts, one to three surcharged region types",
 "Tests measure average splits over random runs.",
 [G+"tree.py", G+"proposals/tree_proposals.py"],
 [("random_spanning_tree surcharge, region-preferred cut choice", G+"tree.py"), ("recom region_surcharge plumbing", G+"proposals/tree_proposals.py")],
 ["drawn trees, chosen cuts"])
prop("C25", "A run is completely determined by its inputs and Python's random draws",
 "Running the same chain, proposal, seed-plan generator or optimizer twice from equal inputs with the same sequence of draws from Python's random module gives identical sequences of plans and derived values, regardless of what else ran before in the process or of other random generators. No run reseeds or saves/restores the global generator, and merely building graphs, plans, constraints or reading derived values consumes no draws.",
 ["histories", "configurations"], "every draw sequence up to the bound for every proposal/generator on small graphs, each replayed after arbitrary other runs",
 "Tests fix one seed and never repeat a run after unrelated work in the same process.",
 [G+"chain.py", G+"proposals/proposals.py", G+"proposals/tree_proposals.py", G+"tree.py", G+"optimization/optimization.py"],
 [("module-level use of random only", G+"tree.py, proposals/, accept.py, optimization/")],
 ["sequence of plans and values per draw sequence"])
prop("C26", "Every export and plot of a plan shows exactly its districts",
 "For every plan reached by any history of flips, its dictionary, its pandas Series, iteration, lookup, membership, length and district count all describe the same assignment of every node, and what the caller does with an exported dictionary or Series never changes the plan. A plot draws every unit once, with the geometry belonging to that node whatever the order of the rows, units in one colour exactly when they are in one district; geometries whose index is not exactly the graph's nodes are refused.",
 ["histories", "inputs"], "every flip history up to the bound on small graphs with every kind of node and district label, every plan of small maps with every row order of the geometries",
 "Tests export two small plans and check only that the plotting function is called.",
 [G+"partition/assignment.py", G+"partition/partition.py"],
 [("Assignment.to_dict / to_series / Mapping protocol", G+"partition/assignment.py"), ("Partition.plot", G+"partition/partition.py")],
 ["exported mappings, shapes and colours on the drawn axes"])

prop("C27", "A run of any length keeps only a few plans alive",
 "Whatever the sequence of invalid, rejected, accepted and unchanged proposals, a chain, an optimization run or a diversity-tracked run keeps only a bounded number of plans in memory, independent of how many it has gone through: plans the caller has let go of (proposals that were refused included) are freed, however often the chain is begun again, continued from its last plan, given new constraints or left half-way, and with any of the library's updaters, constraints, proposals and acceptance rules in use. Plans the caller keeps cost only themselves, not the plans before them.",
 ["histories"], "every periodic word of proposal outcomes up to the bound, repeated hundreds of times, for chains, restarts, bursts and library proposals",
 "Tests run a few steps and never look at what stays reachable.",
 [G+"chain.py", G+"updaters/flows.py", G+"optimization/optimization.py", G+"meta/diversity.py", G+"constraints/validity.py", G+"partition/partition.py"],
 [("MarkovChain.__next__ erases the parent's parent", G+"chain.py"), ("bounded caches of flows", G+"updaters/flows.py")],
 ["number of Partition and Assignment objects alive after garbage collection"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
