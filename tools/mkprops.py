#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json
import os

G, T = 'src/gimpy/graph.py', 'src/gimpy/tree.py'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'bounded exhaustive explicit-state exploration of the real code in lock step with a reference model'
P = []


def prop(id, title, statement, over, text, tests, files, mech, state=(), observe=(), tech=TECH, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, state=state,
                  observe=observe, tech=tech, note=note))


prop('C01', 'A graph is what the history of mutations made it',
     'After every sequence of accepted add_node, del_node, add_edge and del_edge calls, every query (node and edge lists and '
     'counts, membership, get_node, check_edge, neighbors, in-neighbors and out-neighbors, attributes) answers as an abstract '
     'graph subjected to the same sequence would, in insertion order. Deleting a node takes its incident edges, self-loops '
     'included, with it, and a name that was deleted can be added again as if it had never been there.',
     ['histories'], 'every history of mutations on directed and undirected graphs (both constructors), any hashable node names',
     'tests build a few fixed graphs and delete a node or two; they never interleave deletions, re-additions and self-loops',
     [G], [('adjacency kept in three parallel structures', 'Graph.add_node/del_node/add_edge/del_edge')],
     [('neighbors, in_neighbors, nodes, edge_attr', 'adjacency, node objects and edge attributes, which must agree', 'Graph')],
     ['every public query after every operation'])
prop('C02', 'A rejected mutation raises and changes nothing',
     'An operation that is not allowed (adding an existing node or edge, deleting or asking for the attributes of a missing one, '
     'a child of a missing parent, a second left or right child, a root or child name that is taken) raises an exception, '
     'and the graph or tree is afterwards exactly what it was before.',
     ['histories', 'inputs'], 'every disallowed operation in every reachable state of graphs, trees and binary trees',
     'tests expect exceptions in a handful of states and do not compare the whole state before and after',
     [G, T], [('checks before the first update', 'Graph.add_*/del_*; Tree.add_child; BinaryTree.add_left_child/add_right_child')])
prop('C03', 'Attributes: last write wins, isolated, forgotten on deletion',
     'Reading an attribute of a node or edge gives the value written last (in an undirected graph under either order of the end '
     'points); an attribute never written is None for a node and missing (KeyError) for an edge. Writing one attribute affects no '
     'other attribute, node or edge. Attributes disappear '
     'with the node or edge they belong to and do not come back when it is added again.',
     ['histories'], 'every history of attribute writes and structural changes',
     'tests write one attribute and read it back once', [G],
     [('one dictionary per node and per edge', 'Node.attr, Graph.edge_attr, get_*_attr, set_*_attr')])
prop('C04', 'Algorithms do not change the graph they analyse',
     'Whatever algorithm runs, with any admissible arguments, the nodes, the edges, their order and every attribute that is input '
     '(cost, capacity, demand, attributes of the user) are the same afterwards, and so are the lists and dictionaries passed in.',
     ['inputs', 'histories'], 'every algorithm x every small graph x admissible arguments',
     'tests look at the answer of an algorithm, never at what it did to the graph', [G],
     [('temporary arcs and nodes are removed again', 'max_flow, max_flow_preflowpush, find_feasible_flow, network_simplex, '
       'cycle_canceling')])
prop('C05', 'What ran before does not matter',
     'The answer of an algorithm is right for its input whatever other algorithms ran before on the same graph or on another '
     'graph, and even when an earlier run was interrupted while displaying a state; running the same algorithm again gives an '
     'answer as good as the first.',
     ['histories', 'crash_points'],
     'every ordered pair and triple A, B, A of algorithms; every displayed state of every algorithm as an interruption point',
     'every test starts from a fresh graph and lets the algorithm finish', [G],
     [('attributes left behind on nodes and edges are reset; default arguments are not shared', 'search, max_flow, '
       'find_feasible_flow, network_simplex, tarjan, minimum_spanning_tree_prim')])
prop('C06', 'Breadth-first search finds fewest-edge paths',
     'search with BFS or UnweightedSPT (forwards or backwards) and bfs reach exactly the nodes reachable from the root; the '
     'predecessors form a tree of existing edges whose depths, and the distance attributes, are the least numbers of edges. '
     'With a destination the answer is a path with the least number of edges.',
     ['inputs'], 'all directed and undirected graphs, self-loops included, all roots and destinations',
     'tests search two or three fixed graphs', [G], [('queue driven exploration', 'Graph.search, process_edge_search, bfs')])
prop('C07', 'Depth-first search yields a depth-first tree of what is reachable',
     'search with DFS (forwards or backwards) reaches exactly the nodes reachable from the root, marks exactly those with the '
     'component it is given, and its predecessors form a tree that some depth-first search produces; with a destination it '
     'returns a simple path to it. With a queue or priority queue passed in it still returns a spanning tree of the reachable '
     'nodes.',
     ['inputs'], 'all directed and undirected graphs, all roots, destinations, admissible queues',
     'tests search two or three fixed graphs', [G], [('stack driven exploration', 'Graph.search, process_edge_search')])
prop('C08', 'Dijkstra finds cheapest paths',
     'With non-negative costs, search with Dijkstra returns a tree of cheapest paths to (or, backwards, from) every reachable '
     'node, and with a destination a cheapest path.',
     ['inputs'], 'all graphs with non-negative costs (zero and non-integer included), all sources and destinations, both '
     'directions', 'tests run it on one or two fixed graphs', [G],
     [('priority queue with decrease-key', 'Graph.search, process_edge_dijkstra; coinor.blimpy PriorityQueue')])
prop('C09', 'Prim returns a minimum spanning tree',
     'On undirected graphs, search with Prim and minimum_spanning_tree_prim return a spanning tree of the component of the '
     'source, made of edges of the graph, whose total cost is minimal, negative and equal costs included.',
     ['inputs'], 'all undirected graphs with any real costs, all sources', 'tests run it on one fixed graph', [G],
     [('priority queue keyed by connecting edge', 'Graph.search, process_edge_prim, minimum_spanning_tree_prim')])
prop('C10', 'Kruskal returns a minimum spanning forest',
     'minimum_spanning_tree_kruskal returns edges of the graph that form a spanning forest of all components (ignoring '
     'directions) of minimal total cost.',
     ['inputs'], 'all graphs with any real costs, connected or not', 'tests run it on one fixed graph', [G],
     [('sorted edges and disjoint sets', 'minimum_spanning_tree_kruskal, DisjointSet')])
prop('C11', 'label_components finds the connected components',
     'label_components gives two nodes of an undirected graph the same component number exactly if they are connected; the '
     'numbers are 0, 1, ... without gaps and num_components is how many there are.',
     ['inputs'], 'all undirected graphs', 'tests look at one or two fixed graphs', [G], [('repeated search', 'label_components')])
prop('C12', 'Strong components are the strong components',
     'label_strong_component and tarjan give two nodes the same component number exactly if each can reach the other; the '
     'numbers are 0, 1, ... without gaps and num_components is how many there are.',
     ['inputs'], 'all directed graphs, self-loops and antiparallel arcs included', 'tests look at one fixed graph', [G],
     [('low links', 'tarjan, strong_connect')])
prop('C13', 'dfs numbers, topological order and two-pass components',
     'dfs visits exactly what is reachable, with discovery and finishing numbers that nest like a depth-first search, '
     'predecessors that match them, and a topological_order that is reverse finishing order; over all roots it is a topological '
     'order of every acyclic graph. Running it backwards in that order labels the strong components.',
     ['inputs'], 'all graphs, all roots and root orders', 'tests run it on one fixed graph', [G],
     [('counters and order threaded through the recursion', 'Graph.dfs')])
prop('C14', 'acyclic_shortest_path is right on every acyclic graph',
     'On an acyclic directed graph with any costs, negative ones included, acyclic_shortest_path returns a tree of cheapest paths '
     'to every reachable node, or a cheapest path to the destination.',
     ['inputs'], 'all acyclic graphs under all node orders, all sources and destinations', 'no test calls it', [G],
     [('relaxation in topological order', 'acyclic_shortest_path, dfs')])
prop('C15', 'Floyd-Warshall distances, paths and cycles',
     'floyd_warshall reports invalid exactly if there is a negative cycle; otherwise every distance is the cost of a cheapest path '
     'or infinity, and floyd_warshall_get_path returns a simple path of that cost. If invalid, floyd_warshall_get_cycle returns a '
     'cycle of the graph of negative cost, from any node whose distance to itself is negative, and never a cycle that is not negative.',
     ['inputs'], 'all directed and undirected graphs with costs of any sign, self-loops included', 'tests run one fixed graph', [G],
     [('distance and successor matrices', 'floyd_warshall, floyd_warshall_get_path, floyd_warshall_get_cycle')])
prop('C16', 'get_negative_cycle finds a negative cycle exactly if there is one',
     'get_negative_cycle returns None if no cycle has negative cost and otherwise a cycle of existing edges of negative cost.',
     ['inputs'], 'all graphs with costs of any sign, the empty graph and self-loops included', 'tests run one fixed graph', [G],
     [('Floyd-Warshall', 'get_negative_cycle')])
prop('C17', 'Label correcting finds cheapest paths or a negative cycle',
     'fifo_label_correcting terminates and returns True with a tree of cheapest paths (and distance attributes) from the source '
     'if no negative cycle is reachable, and False with a reachable cycle of negative cost otherwise.',
     ['inputs'], 'all graphs with costs of any sign, all sources', 'tests run one fixed graph', [G],
     [('FIFO of labels and periodic cycle check', 'fifo_label_correcting, label_correcting_check_cycle, '
       'label_correcting_get_cycle')])
prop('C18', 'max_flow finds a maximum flow',
     'max_flow, augmenting depth-first or breadth-first, terminates with flow attributes within the capacities, conserved at '
     'every node but source and sink, whose value equals the capacity of a minimum cut; every state it displays keeps the flow '
     'within the capacities.',
     ['inputs'], 'all networks without antiparallel arcs or self-loops, all source and sink pairs, capacities absent, zero, equal, '
     'non-integer', 'tests check the value on two fixed networks', [G],
     [('augmenting paths in an implicit residual network', 'max_flow')], observe=['flow attributes', 'displayed states'])
prop('C19', 'Preflow-push finds a maximum flow',
     'max_flow_preflowpush, with FIFO, SAP or HighestLabel selection, terminates with flow attributes within the capacities, '
     'conserved at every node but source and sink, whose value equals the capacity of a minimum cut; every state it displays '
     'keeps the flow within the capacities.',
     ['inputs'], 'all networks without antiparallel arcs or self-loops, all source and sink pairs, capacities absent, zero, equal, '
     'non-integer', 'tests check the value on two fixed networks', [G],
     [('distance labels and excesses', 'max_flow_preflowpush, process_edge_flow, relabel')],
     observe=['flow attributes', 'displayed states'])
prop('C20', 'find_feasible_flow decides feasibility',
     'find_feasible_flow returns True exactly if some flow within the capacities meets every demand, and then leaves such a flow '
     'in the flow attributes.',
     ['inputs'], 'all networks and all demand vectors, balanced or not, with only supplies or only demands or neither',
     'tests run one fixed feasible network', [G], [('super source and sink', 'find_feasible_flow')])
prop('C21', 'Cycle canceling reaches a minimum cost flow',
     'cycle_canceling terminates, returns True exactly if the network is feasible, and then leaves a feasible flow of minimum '
     'cost in the flow attributes.',
     ['inputs'], 'all networks with capacities, costs of any sign and demands', 'tests run one fixed network', [G],
     [('negative residual cycles', 'cycle_canceling, create_residual_graph, augment_cycle')])
prop('C22', 'Network simplex and min_cost_flow reach a minimum cost flow',
     'network_simplex, with any root and either implemented pivot rule, terminates, returns True exactly if the network is '
     'feasible, and then leaves a feasible flow of minimum cost in the flow attributes; min_cost_flow does so with either '
     'algorithm whenever the network is feasible, and says so if it is not.',
     ['inputs', 'configurations'], 'all connected networks with capacities (zero included), costs of any sign and demands; every '
     'root; both pivot rules; degenerate instances',
     'tests run one fixed network', [G],
     [('spanning tree structures and strongly feasible pivots', 'network_simplex and the simplex_* methods; min_cost_flow')])
prop('C23', 'Residual graphs, cycle capacities and augmentation are exact',
     'The residual graph of a flow has exactly the forward and backward arcs with room, with their costs and capacities; the '
     'capacity of a residual cycle is its least residual capacity; augmenting along a cycle changes exactly the flows on it, by '
     'exactly the amount, and keeps them within the capacities.',
     ['inputs'], 'every flow within the capacities on every small network, every residual cycle in every rotation',
     'no test looks at residual graphs', [G], [('residual bookkeeping', 'create_residual_graph, find_cycle_capacity, '
                                              'augment_cycle')])
prop('C24', 'A disjoint set is a partition after every history',
     'After every sequence of union and find calls, two items have the same representative exactly if the unions joined their '
     'sets, union returns whether it joined anything, find returns a member of the set and changes no answer, and the trees '
     'stay shallow when optimization is on.',
     ['histories'], 'every sequence of operations from every start, with and without optimization',
     'tests do one short sequence', [G], [('union by size, path compression', 'DisjointSet.add/union/find')], tech=
     'explicit-state search of all reachable states of the real data structure against a partition model')
prop('C25', 'Trees: structure after every history',
     'After every sequence of accepted additions and leaf deletions, parents, children in order of addition, left and right '
     'children, levels, root, node and edge lists are those of the abstract tree with that history, whatever attributes the '
     'nodes are given.',
     ['histories'], 'every history on Tree and BinaryTree, any hashable names', 'tests build one or two fixed trees', [T],
     [('parent, direction and level attributes', 'Tree.add_root/add_child; BinaryTree.add_*_child/del_node')])
prop('C26', 'Tree traversals visit every node once, in the right order',
     'dfs, bfs and traverse display every node of the subtree exactly once, parents before children, depth first and level by '
     'level respectively, the priority argument choosing which child comes first; print_nodes shows pre-, in- and post-order.',
     ['inputs', 'configurations'], 'every tree and binary tree shape, every start node, order and priority', 'tests traverse one '
     'fixed tree', [T], [('stack or queue traversal', 'Tree.traverse, BinaryTree.traverse, print_nodes')],
     observe=['highlighted nodes of the displayed states'])
prop('C27', 'Expression trees print and evaluate to the expression they hold',
     'printexp prints a fully parenthesized infix expression whose value is the value of the tree, and postordereval returns that '
     'value (exactly, unless it divides), for every tree over + - * / with integer leaves whose value is defined.',
     ['inputs'], 'every expression tree shape, operator assignment and leaf value, 0 included', 'tests evaluate one expression', [T],
     [('recursive evaluation', 'printexp, postordereval')])
prop('C28', 'What is written is valid DOT and describes exactly this graph',
     'to_string is accepted by the DOT grammar and reading it back gives the type, name, attributes, nodes and edges of the graph, '
     'each once, with every name and value preserved whatever characters it contains.',
     ['inputs'], 'every name and attribute value (other than DOT keywords, HTML strings, strings already quoted, NUL; node names '
     'without colon), every small graph', 'tests compare the text of a few fixed graphs', [G],
     [('quoting rules', 'quote_if_necessary and friends, Node.to_string, edge_to_string, to_string')],
     observe=['the text, read by a parser that is itself compared with graphviz'])
prop('C29', 'Clusters are written as created',
     'Every cluster appears in the output once, under its own name, with its attributes, node defaults and exactly its members '
     'that are still in the graph and the edges between them; every node and edge of the graph still appears exactly once with its attributes. Creating a '
     'cluster changes nothing else, its arguments included.',
     ['inputs', 'histories'], 'every graph and set of disjoint clusters, names given or generated, later deletions',
     'tests create one cluster', [G], [('cluster table', 'create_cluster, to_string, del_node')])
prop('C30', 'Rendering reports failure, returns exactly what was drawn, leaves nothing behind',
     'create hands the layout program exactly the DOT text in UTF-8 and the format asked for, and returns exactly its standard '
     'output, None if it cannot be run, and an exception if it fails; write and display write exactly those bytes. Whatever the '
     'program does and wherever writing fails, no temporary file or open file is left and the graph is unchanged. The program run is '
     'the layout set by the constructor or set_layout unless another is given, and display(highlight) colours exactly the given '
     'nodes red in that one picture, which goes to the file basename.format.',
     ['fault_sequences', 'configurations'], 'every behaviour of the external program (exit codes, signals, output, missing, not '
     'executable), a full disk at any point, every locale',
     'tests have a working or a missing graphviz, never a failing one', [G],
     [('temporary file and subprocess', 'Graph.create, write, display')], tech=
     'exhaustive enumeration of fault sequences injected into the real code (external program and file system as adversary)')
prop('C31', 'The display argument governs one run and nothing else',
     'An algorithm or traversal called with a display argument shows its states in that mode, shows the same states as when the '
     'graph itself is in that mode, shows nothing when it is off, and leaves the display mode of the graph as it was.',
     ['configurations', 'inputs'], 'every algorithm with a display argument x every mode of the graph x every argument',
     'tests run with display off', [G, T], [('mode restored on return', 'restores_display_mode and the algorithms')],
     observe=['display() calls'])
prop('C32', 'random() keeps its promises for every random choice',
     'Whatever the random numbers, random adds exactly the nodes 0..n-1 with the node format, no self-loops, no edge twice and no '
     'antiparallel arcs unless allowed, edges with the edge format, cost within length_range (or the scaled distance) and label '
     'as asked, degrees and densities within the bounds; every pair of nodes, length in the range and degree up to the upper bound can '
     'occur; the graph is a function of seed and arguments.',
     ['inputs', 'schedules'], 'every sequence of choices of the random number generator, every combination of arguments',
     'tests use one seed', [G], [('choices drawn from one seeded generator', 'Graph.random')], tech=
     'exhaustive enumeration of the choice tree of the random number generator (controlled nondeterminism) on the real code')
prop('C33', 'page_rank converges to the fixed point',
     'page_rank returns positive ranks for all nodes that satisfy the PageRank equation: the deviations of all nodes together stay below '
     'the tolerance asked for.',
     ['inputs'], 'all directed graphs, sinks, self-loops and isolated nodes included', 'tests check one fixed graph', [G],
     [('power iteration', 'page_rank')])
prop('C34', 'Degrees and diameter',
     'get_degrees, get_in_degrees and get_out_degrees count the incident edge ends of every node, and get_diameter of an '
     'undirected graph is the greatest distance between two nodes, or infinity if it is not connected.',
     ['inputs'], 'all graphs', 'tests check one or two fixed graphs', [G], [('adjacency lists, breadth-first search', 'get_*degrees, '
                                                                            'get_diameter')])
prop('C35', 'hamiltonian decides whether there is a Hamiltonian path',
     'hamiltonian returns True exactly if a path from the given node visits every node once, ending in the destination if one is '
     'given.',
     ['inputs'], 'all graphs, start nodes and destinations', 'no test calls it', [G], [('backtracking search', 'hamiltonian')])
prop('C36', 'Names and insertion order are irrelevant to correctness',
     'Every algorithm is right whatever hashable objects name the nodes (integers small, large or negative, strings, '
     'floats, user-defined objects that are equal without being identical) and in whatever order nodes and edges were added, '
     'explicitly or implied by edges.',
     ['inputs', 'configurations'], 'every algorithm x every node naming scheme x every insertion order of small graphs',
     'tests name nodes 0, 1, 2 or with short strings, in one order', [G],
     [('names are only hashed and compared for equality', 'all algorithms')])
prop('C37', 'Pictures of flow algorithms tell the truth',
     'At every state max_flow, max_flow_preflowpush or network_simplex displays, and at the end, every arc carries a flow between 0 and '
     'its capacity and its label shows exactly that flow with its capacity (and cost). In preflow-push the labels of the nodes '
     'show their true excess, which is never negative off the source, and arc colours at the end tell saturated (red), carrying flow '
     '(green) and empty (black) arcs; in network simplex every displayed flow meets all demands, the cost never increases, and the '
     'blue arcs of the final picture are a spanning tree, every other arc being empty or full. print_flow lists exactly the arcs that '
     'carry flow, with their flow and capacity.',
     ['inputs', 'schedules'], 'every displayed state of every run, first or repeated, on every small network',
     'tests run with display off and look at final answers only', [G],
     [('labels rewritten as flow changes', 'max_flow, max_flow_preflowpush, simplex_augment_cycle')],
     observe=['labels and flows at every display() call'])
prop('C38', 'Pictures of searches and spanning trees show the answer',
     'When search, dfs, minimum_spanning_tree_prim or minimum_spanning_tree_kruskal is done, the highlighted (green) nodes and edges are exactly '
     'the tree or path it found and the node labels show the distances, the costs of the tree edges (Prim) or the discovery and finishing times; a node once shown as '
     'finished stays so during the run, and nothing of an earlier search or spanning tree run is left: a second run on the same graph '
     'leaves the picture it leaves on a new one (dfs, which continues its forest, excepted).',
     ['inputs', 'histories'], 'every small graph, source, destination and search method; every pair of runs',
     'tests look at returned values only', [G],
     [('colours and labels set while searching', 'process_node_search, process_edge_*, dfs, Kruskal')],
     observe=['color and label attributes at every display() call and at the end'])
prop('C39', 'Answers follow the graph',
     'Calling an algorithm again with the same arguments gives an answer that is right for the graph as it is now: the same one if '
     'nothing changed, however often it is called, and one for the edited graph if in between an edge or node was '
     'added or deleted, an edge turned round, or a cost, a capacity or demands were changed. Nothing computed earlier is reused where it no '
     'longer applies.',
     ['histories'], 'every algorithm, every single edit of every small graph between two calls',
     'tests build a graph, call one algorithm once and throw the graph away', [G],
     [('working attributes initialised at the start of every run', 'all algorithms')],
     [('node and edge attributes used as scratch space', 'component, lowlink, flow, distance, ... left on the graph', 'Graph')])
prop('C40', 'Showing an algorithm does not change what it does',
     'With the display on, the answer of every algorithm meets the same specification as with the display off, and every state it '
     'displays holds exactly the nodes, edges, adjacency and input attributes (cost, capacity, demand, attributes of the user) of '
     'the graph it was called on and can be written as valid DOT.',
     ['inputs', 'configurations'], 'every algorithm, every argument choice, every displayed state, every small graph',
     'tests run with the display off', [G],
     [('display() is called in the middle of every algorithm', 'all algorithms, Graph.display, Graph.to_string')],
     observe=['graph state at every display() call'])
prop('C41', 'Copies and unpickled graphs behave as the original and share nothing with it',
     'A deep copy and a pickled and unpickled graph, tree or disjoint set equals the one it was made from in every query and in '
     'the text written, answers every operation and algorithm as that would, and neither changes the other. The same holds '
     'for a graph whose type was given by an equal string that is another object.',
     ['histories', 'inputs'], 'every small graph, tree and disjoint set, also used by algorithms before, every operation and algorithm after',
     'no test copies a graph', [G, T],
     [('all state lives in the instance, graph types are compared by value', 'Graph.__init__, graph_type tests')],
     observe=['all queries on both objects'])

prop('C42', 'On-screen display shows exactly the picture drawn and cleans up',
     'In the display modes PIL and matplotlib, display() runs the layout program once, on the graph as it is now (nodes given as highlight '
     'in red), and shows exactly the one picture it drew: it waits for a click unless told not to, and otherwise blocks only if '
     'pause is given. The pictures shown while an algorithm runs are those of its successive states, in order; a key press or '
     'closing the window ends the program. Whatever the layout program and the viewer do, no temporary file and no open file is '
     'left, the graph is unchanged, nothing is shown if there is no picture and the failure is reported. If a library needed is '
     'missing, display() says so once, turns the display off and does nothing. All pictures are shown in one window. In mode xdot the viewer is given the text of the graph as '
     'it is now and is waited for.',
     ['fault_sequences', 'histories'], 'every call x behaviour of the layout program x behaviour of the viewer, every pair of calls, every missing library',
     'tests run with the display off', [G],
     [('temporary file, layout program, viewer, temporary file removed', 'Graph.display, Graph.create')],
     observe=['pictures handed to the viewer', 'input and arguments of the layout program', 'files left'])

prop('C43', 'A run that fails or is interrupted leaves the graph as it was',
     'If an algorithm or traversal ends with an exception, because the display fails or is stopped by a key press or Ctrl-C at any picture, because '
     'an input (cost, capacity, demand) is missing or no number, because a node named is not there or an option is unknown, then it '
     'shows nothing more, and the nodes, edges, adjacency, inputs and display mode of the graph or tree are as before the call. '
     'So they are if the problem is merely infeasible. With the input mended every algorithm then answers right.',
     ['crash_points', 'inputs'], 'every algorithm, every displayed state as stopping point, every single flaw of the input, every small graph',
     'tests do not interrupt algorithms and give them proper inputs', [G, T],
     [('auxiliary nodes removed in any case', 'Graph.find_feasible_flow'), ('mode restored in any case', 'restores_display_mode, dfs, print_nodes, ...')],
     observe=['graph state after the exception'])

prop('C44', 'Every step of network simplex is right, from every solution',
     'From every feasible flow simplex_find_tree makes a spanning tree solution with the same net demands: arcs off the tree are empty or full. '
     'simplex_find_cycle returns a cycle (directions ignored) exactly if there is one, simplex_augment_cycle the room on it. From every spanning tree '
     'solution and root: simplex_search gives parents, depths and a preorder thread; simplex_compute_potentials makes the reduced '
     'costs of the tree arcs zero; simplex_optimal is True exactly if no other arc of positive capacity violates its optimality condition; the entering arc '
     'selected violates it, most of all (dantzig) or as the first in the order the arcs were added (first_eligible); simplex_identify_cycle gives the '
     'cycle it closes; simplex_determine_leaving_arc the room on it and an arc of the cycle that blocks; after simplex_remove_arc flows have changed by '
     'exactly that, demands are met, the cost has dropped by room times violation, the tree has swapped the two arcs and shows '
     'the true flows. Started from any feasible flow whatever, network simplex and cycle canceling end with a minimum cost flow.',
     ['inputs', 'histories'], 'every spanning tree solution of every small network (so every pivot sequence), every feasible starting flow',
     'tests run the whole algorithm on a few networks, from the one starting flow it finds itself', [G],
     [('spanning tree solution (T, L, U) kept in t and the flow attributes', 'network_simplex, simplex_*'), ('cycle canceling', 'cycle_canceling, augment_cycle')],
     observe=['flow attributes, tree, potentials, returned arcs and cycles after every step'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': 'The quantifier is universal; ' + p['tests'] + '.',
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                        'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')

NOTE = ('Holds for every execution within the bounds listed in the evidence file (spaces); nothing is sampled. The real code is '
        'executed, so there is no gap between model and code; trusted: the reference model and oracles in mc/, CPython, '
        'coinor.blimpy.')
man = {'version': 1,
       'setup_cmd': 'PYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import gimpy"',
       'checks': [{'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'],
                   'thorough_cmd': './run.sh %s thorough' % p['id'],
                   'technique': 'model checking: ' + p['tech'],
                   'level': 'model_checking',
                   'level_note': NOTE} for p in P],
       'not_applicable': [],
       'notes': 'No hooks: everything is observed through the public API, by subclassing (display) or by replacing the environment '
                '(PATH, random, tempfile).'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
