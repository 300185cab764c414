"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, T, C = 'src/gimpy/graph.py', 'src/gimpy/tree.py', \
    'src/gimpy/global_constants.py'
P = []


def prop(pid, title, statement, over, text, why, files, mechanism,
         technique, note):
    P.append(dict(pid=pid, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  technique=technique, note=note))


prop('C01', 'Structure queries always agree with the updates made so far',
     'After any sequence of successful add_node, add_edge, del_edge and '
     'del_node calls on a directed or undirected graph (loops included), '
     'node list, edge list, counts, get_node, membership, check_edge, '
     'neighbors, out-neighbors and (directed) in-neighbors all describe the '
     'one node set and the one edge set that those calls define. add_edge '
     'creates missing end nodes, del_node removes every edge at the node, and '
     'a name that was deleted counts as never added and can be added again.',
     ['histories', 'inputs'],
     'every update history, for every mix of node names (equal objects need '
     'not be identical) and both graph types',
     'the tests build a few graphs and never compare the adjacency lists, '
     'edge dictionary and node dictionary after deletions',
     [G], 'Graph keeps neighbors, in_neighbors, nodes and edge_attr in step '
     'by hand in add_node/add_edge/del_edge/del_node',
     'reference-model monitor: every query compared with a node set and an '
     'edge set after every update of a random history',
     'held on the observed histories; the model is a pair of Python sets')
prop('C02', 'Attributes read back the last value written, and only that',
     'A node, edge or graph attribute reads back the last value given at '
     'creation or by a setter, on undirected graphs through either '
     'orientation of the edge, and changing one attribute changes no other '
     'attribute of any node, edge or graph. A node or edge that is deleted '
     'and added again starts without its old attributes; an unset node '
     'attribute reads as None; reading an unset edge attribute raises.',
     ['histories', 'inputs'],
     'every history of attribute writes, structural updates and deletions',
     'tests read attributes only as a by-product of algorithms',
     [G], 'Node.attr, Graph.edge_attr[e], the orientation fallback of '
     'get_edge_attr/set_edge_attr, deep-copied defaults',
     'reference-model monitor over random attribute histories',
     'held on the observed histories; the model is a dictionary per element')
prop('C03', 'A rejected update leaves the graph unchanged',
     'A call that is invalid (a node or edge that already exists, in either '
     'orientation for undirected graphs; a missing node, edge, attribute '
     'owner or parent; an occupied child slot; a duplicate cluster name; an '
     'algorithm of an unknown name or on the wrong graph type; a negative '
     'cycle asked for where none is) raises, with MultipleNodeException or '
     'MultipleEdgeException for duplicates, or prints a message and returns '
     'None. Nodes, edges, adjacency and '
     'its order, attributes, clusters and root are then exactly as before.',
     ['histories', 'fault_sequences'],
     'every invalid request at every point of every history of graphs, trees '
     'and binary trees',
     'the tests never make an invalid call',
     [G, T], 'precondition tests at the head of the update methods, before '
     'the first store',
     'fault injection of invalid requests with before/after state snapshots',
     'held on the observed requests; snapshots cover all public state')
prop('C04', 'Distinct graphs never share state',
     'Operations on one graph, tree or disjoint set never change another '
     'one, and never change the argument objects or default arguments of '
     'later calls, also when an earlier call was cut short by an exception '
     'from the display. A deep copy or a pickled copy is equal to its '
     'original, behaves the same way, and is independent of it.',
     ['histories', 'inputs', 'fault_sequences'],
     'every interleaving of operations over several graphs of all classes, '
     'including aborted calls',
     'each test process works on one or two graphs and discards them',
     [G, T, C], 'mutable default arguments, deep-copied default attribute '
     'dictionaries, class level state, queue arguments',
     'interleaved multi-graph histories with snapshots of all other graphs, '
     'aborted calls, and deep-copy/pickle comparison',
     'held on the observed interleavings; single process, single thread')
prop('C05', 'search visits exactly the reachable nodes, along real edges',
     'search with algo DFS, BFS, UnweightedSPT or Prim and no destination returns '
     'a predecessor map whose keys are exactly the nodes reachable from the '
     'source (against the arcs when reverse is true on a directed graph) '
     'except the source, whose entries are edges of the graph and lead back '
     'to the source without a cycle. With a destination it returns a path of '
     'distinct nodes from source to destination along edges, or None exactly '
     'if there is none. A component number given is set on exactly the '
     'reached nodes.',
     ['inputs', 'configurations'],
     'every graph, source, destination, queue class (stack, queue), '
     'direction',
     'the tests run search on one fixed random graph and check no result',
     [G], 'Graph.search, process_edge_search, color marks of nodes, queue '
     'objects of blimpy',
     'certificate checking monitor: returned tree/path checked edge by edge '
     'against an independent reachability set',
     'held on the observed graphs; blimpy queues are trusted')
prop('C06', 'Breadth-first search gives fewest-edge paths and distances',
     'search with algo BFS or UnweightedSPT, and Graph.bfs, set the distance '
     'attribute of every reached node to the smallest number of edges from '
     'the source and leave it None on the others. A path returned for a '
     'destination, and the chain of predecessors of each node, has exactly '
     'that many edges.',
     ['inputs', 'configurations'],
     'every graph, source and destination, forward and reverse',
     'the tests check no distance',
     [G], 'Graph.search with a Queue, process_edge_search distance rule, '
     'Graph.bfs',
     'monitor comparing distances and path lengths with an independent hop '
     'count',
     'held on the observed graphs')
prop('C07', "Dijkstra's search returns least-cost paths",
     'search with algo Dijkstra on nonnegative edge costs returns, for '
     'every reachable node, a predecessor chain (or a path, when a '
     'destination is given) whose total cost is the minimum over all paths, '
     'also in reverse direction on directed graphs. Unreachable nodes are '
     'absent, and an unreachable destination gives None.',
     ['inputs', 'configurations'],
     'every graph with nonnegative costs (ties and zeros included), source, '
     'destination, direction, starting from any earlier attribute state',
     'one fixed random graph in the tests, result not checked',
     [G], 'process_edge_dijkstra, PriorityQueue priorities as labels, '
     'settled nodes marked by color',
     'certificate monitor: chain costs compared with an independent '
     'Bellman-Ford',
     'held on the observed graphs; costs are integers or dyadic fractions')
prop('C08', 'dfs times nest correctly and give orders and strong components',
     'On nodes without discovery times, dfs numbers exactly the reachable '
     'nodes with consecutive discovery and finishing times whose nesting is '
     'that of a depth-first search of the graph, returns counters that let '
     'the next call continue the numbering, and sets the component given. '
     'Over all roots of an acyclic directed graph the collected list is a '
     'topological order. A second pass with transpose, taking roots in '
     'decreasing finishing time, labels two nodes alike exactly if they are '
     'strongly connected.',
     ['inputs', 'histories'],
     'every graph, root sequence and adjacency order',
     'tests print labels of one graph',
     [G], 'Graph.dfs recursion with counters passed through return values',
     'offline trace checker over recorded discovery/finish events '
     '(parenthesis and white-path rules), SCC oracle by reachability',
     'held on the observed graphs; harness clears disc_time/component first')
prop('C09', 'label_components labels exactly the connected components',
     'After label_components on an undirected graph two nodes have equal '
     'component labels if and only if they are connected; labels are '
     '0..k-1 and the number of components reported is k. Calling it again, '
     'also after updates, relabels from scratch.',
     ['inputs', 'histories'], 'every undirected graph and update history',
     'one graph, printed only', [G],
     'label_components loop over search(component=...) and num_components',
     'monitor comparing the labelling with an independent partition, '
     'repeated after updates',
     'held on the observed graphs')
prop('C10', 'Strong component labels equal mutual reachability',
     'After tarjan or label_strong_component on a directed graph two nodes '
     'have equal component labels if and only if each reaches the other; '
     'labels are 0..k-1 and the number of components reported is k. Calling '
     'it again, also after updates or other labellings, relabels from '
     'scratch.',
     ['inputs', 'histories'], 'every directed graph and update history',
     'one graph in the tests', [G],
     'strong_connect recursion, index/lowlink attributes',
     'monitor comparing the labelling with pairwise reachability',
     'held on the observed graphs')
prop('C11', "Kruskal's method returns a minimum spanning forest",
     'minimum_spanning_tree_kruskal returns edges of the undirected graph '
     'that form a forest connecting exactly what the graph connects, with '
     'minimum total cost among all such forests. This holds for any costs '
     '(negative, equal, fractional), with or without an optimizing disjoint '
     'set.',
     ['inputs', 'configurations'],
     'every undirected graph, loops included, and every cost function, '
     'connected or not',
     'one random graph, result not checked', [G],
     'minimum_spanning_tree_kruskal, DisjointSet.union, sorted edge list',
     'certificate monitor (edges, acyclic, spanning) plus independent '
     'Boruvka weight',
     'held on the observed graphs')
prop('C12', "Prim's method returns a minimum spanning tree of its component",
     'On an undirected graph minimum_spanning_tree_prim, and search with '
     'algo Prim and no destination, return a predecessor map over exactly '
     'the nodes connected to the source (except the source) whose edges form '
     'a spanning tree of that component with minimum total cost.',
     ['inputs', 'configurations'],
     'every undirected graph, cost function and source',
     'one random graph, result not checked', [G],
     'minimum_spanning_tree_prim and process_edge_prim with decreasing '
     'priorities',
     'certificate monitor plus independent minimum forest weight',
     'held on the observed graphs')
prop('C13', 'DisjointSet is exactly the partition made by its unions',
     'After any sequence of add, union and find, two items have the same '
     'find result if and only if they were joined by the add and union calls '
     'so far; union returns True exactly if it merged two different sets, '
     'find returns a member of the set and changes no set, and the size kept '
     'for a root is the number of its members. With optimize on, no item is '
     'ever further than log2 of its set size from its root.',
     ['histories'], 'every sequence of operations, with and without optimize',
     'the class is used only inside Kruskal in the tests', [G],
     'DisjointSet stored as a graph of parent arcs, path compression in '
     'find, sizes',
     'reference-model monitor over random operation histories with '
     'structural invariant checks',
     'held on the observed histories; a list given to add of several items '
     'is one set')
prop('C14', 'max_flow leaves a feasible flow of maximum value',
     'On a directed graph without opposite arc pairs and without loops, '
     'max_flow (algo DFS or BFS) gives every arc a flow between 0 and its '
     'capacity, conserved at every node but source and sink, whose value is '
     'the capacity of a minimum cut. A missing capacity counts as 10000; '
     'earlier flow values do not matter.',
     ['inputs', 'configurations'],
     'every such network, capacity function (zero, fractional), source and '
     'sink',
     'one network, flow not compared with a cut', [G],
     'max_flow augmenting path search over out- and in-neighbors',
     'conservation/bounds monitor on the final flow plus min-cut certificate '
     'extracted from the residual network',
     'held on the observed networks; the cut certificate needs no reference '
     'algorithm')
prop('C15', 'Preflow-push leaves a feasible flow of maximum value',
     'On a directed graph without opposite arc pairs and without loops, '
     'max_flow_preflowpush with algo FIFO, SAP or HighestLabel ends, and '
     'gives every arc a flow between 0 and its capacity, conserved at every '
     'node but source and sink, whose value is the capacity of a minimum '
     'cut. The excess left at the sink equals that value.',
     ['inputs', 'configurations'],
     'every such network, all three algorithms, nodes that reach no sink '
     'included',
     'one network with one algorithm', [G],
     'max_flow_preflowpush, process_edge_flow, relabel, queue discipline',
     'conservation/bounds monitor, min-cut certificate, bounded-progress '
     'monitor on loop iterations',
     'held on the observed networks')
prop('C16', 'find_feasible_flow decides feasibility and keeps the network',
     'find_feasible_flow returns True exactly if some flow within the '
     'capacities gives every node outflow minus inflow equal to its demand, '
     'and then leaves such a flow on the arcs. In both cases nodes, arcs '
     'and their capacities, costs and demands are the ones from before the '
     'call; create_residual_graph, find_cycle_capacity and augment_cycle '
     'describe and change that flow exactly.',
     ['inputs'],
     'every network with demands, feasible or not, balanced or not',
     'tests use feasible networks only', [G],
     'find_feasible_flow adds and removes s and t; create_residual_graph; '
     'augment_cycle',
     'feasibility oracle (independent max flow), conservation monitor, '
     'before/after structure snapshot, residual arc comparison',
     'held on the observed networks; nodes are not named s or t; no opposite '
     'arc pairs or loops')
prop('C17', 'Network simplex ends with a minimum cost feasible flow',
     'On a connected directed network without opposite arc pairs and loops, '
     'min_cost_flow with algo simplex (pivot dantzig or first_eligible, any '
     'root) and network_simplex end, and leave a flow within the capacities '
     'that meets every demand at minimum total cost. If no such flow exists '
     'network_simplex returns False and min_cost_flow reports that the '
     'problem is infeasible.',
     ['inputs', 'configurations'],
     'every such network with integer data, degenerate ones, zero '
     'capacities, negative costs, any node names, pivot rule and root',
     'fixed random networks of one family, compared for cost only', [G],
     'network_simplex and its simplex_* helpers, tree indices as node '
     'attributes',
     'optimality-certificate monitor (no negative residual cycle), '
     'conservation, feasibility oracle, bounded-progress monitor',
     'held on the observed networks; the pivot rule named scaled does not '
     'exist in the code')
prop('C18', 'Cycle canceling ends with a minimum cost feasible flow',
     'On a connected directed network without opposite arc pairs and loops, '
     'min_cost_flow with algo cycle_canceling and cycle_canceling end, and '
     'leave a flow within the capacities that meets every demand at minimum '
     'total cost. If no such flow exists cycle_canceling returns False and '
     'min_cost_flow reports that the problem is infeasible.',
     ['inputs'], 'every such network with integer data and any node names',
     'fixed random networks, compared for cost only', [G],
     'cycle_canceling over create_residual_graph, get_negative_cycle, '
     'find_cycle_capacity, augment_cycle',
     'optimality-certificate monitor, conservation, feasibility oracle, '
     'bounded-progress monitor',
     'held on the observed networks (at most 9 nodes, the method is slow)')
prop('C19', 'Every animation frame of a flow algorithm shows a legal state',
     'At every moment at which a flow algorithm displays the graph, every '
     'arc flow lies between 0 and the capacity and the arc labels state the '
     'flow; max_flow frames conserve flow up to the augmentation being '
     'drawn, preflow-push frames give every node but the source a '
     'nonnegative excess equal to inflow minus outflow and show excess and '
     'distance, pushes go down one level and lifts are just high enough, '
     'distances never fall and drop by at most one along an arc '
     'with capacity left when every node leads to the sink, and simplex '
     'frames always show a feasible flow whose cost never increases, with a '
     'spanning tree in blue but for the arcs being exchanged.',
     ['inputs', 'histories'],
     'every frame of every run, not only the final state',
     'tests look at final states only, with the display off', [G],
     'self.display() calls inside max_flow, max_flow_preflowpush, '
     'show_flow, network_simplex',
     'online trace monitor attached to the display call, invariant checked '
     'at every frame',
     'held on the observed frames; the monitor replaces display in the '
     'harness, not in the code')
prop('C20', 'floyd_warshall returns shortest distances and their paths',
     'On a directed graph floyd_warshall reports valid exactly if there is '
     'no negative cycle (a loop of negative cost is one); distances are then the minimum path '
     'costs (infinity if unreachable) and floyd_warshall_get_path returns a '
     'simple path of exactly that cost, None if unreachable, [i] from i to '
     'i.',
     ['inputs'], 'every directed graph with any costs, negative included',
     'not called by the tests except inside cycle canceling', [G],
     'floyd_warshall triple loop, nextn dictionary',
     'monitor comparing every pair with Bellman-Ford and pricing every '
     'returned path',
     'held on the observed graphs; zero-cost cycles included')
prop('C21', 'get_negative_cycle returns a real negative cycle, or None',
     'get_negative_cycle on a directed graph returns None exactly if the '
     'graph has no negative cycle, loops included. Otherwise it returns '
     'distinct nodes that form a closed walk along arcs with negative total '
     'cost; floyd_warshall_get_cycle does so too on an invalid result.',
     ['inputs'], 'every directed graph with any costs',
     'reached only inside cycle canceling', [G],
     'get_negative_cycle, floyd_warshall_get_cycle over nextn',
     'certificate monitor on the returned cycle, Bellman-Ford existence '
     'oracle',
     'held on the observed graphs')
prop('C22', 'FIFO label correcting: shortest distances or a negative cycle',
     'fifo_label_correcting returns (True, pred) exactly if no negative '
     'cycle is reachable from the source; distance attributes are then the '
     'minimum path costs from the source, pred has exactly the reachable '
     'nodes and its chains have those costs. Otherwise it returns (False, '
     'cycle) with a closed walk of distinct nodes of negative cost.',
     ['inputs'], 'every directed graph with any costs, every undirected '
     'graph with nonnegative costs, every source',
     'not called by the tests', [G],
     'fifo_label_correcting, label_correcting_check_cycle',
     'certificate monitor plus independent Bellman-Ford',
     'held on the observed graphs')
prop('C23', 'acyclic_shortest_path returns least-cost paths',
     'On an acyclic directed graph with any costs acyclic_shortest_path '
     'without destination returns predecessors of exactly the nodes '
     'reachable from the source, whose chains have minimum total cost; with '
     'a reachable destination it returns a path of minimum total cost. '
     'Results of earlier calls have no influence.',
     ['inputs', 'histories'], 'every acyclic graph, cost function, source',
     'not called by the tests', [G],
     'acyclic_shortest_path over the order collected by dfs',
     'certificate monitor plus independent Bellman-Ford',
     'held on the observed graphs; an unreachable destination is not claimed')
prop('C24', 'hamiltonian finds a Hamiltonian path exactly if there is one',
     'hamiltonian returns True exactly if some path from source (to '
     'destination, if given) visits every node once, and False otherwise. '
     'When it returns True, a predecessor dictionary passed in describes '
     'such a path.',
     ['inputs'], 'every small graph, directed or not, source and destination',
     'not called by the tests (it crashed)', [G],
     'hamiltonian backtracking over visited attributes and pred',
     'existence oracle (subset dynamic program), path certificate from pred',
     'held on the observed graphs of at most 8 nodes')
prop('C25', 'page_rank converges to the defined ranks',
     'On a directed graph page_rank returns for every node (1-d)/N plus d '
     'times the sum over referring nodes of their rank divided by their '
     'out-degree, up to the requested accuracy, for every damping factor d. '
     'With an iteration limit it stops after that many sweeps; the empty '
     'graph gives an empty result.',
     ['inputs', 'configurations'],
     'every directed graph, damping factor, tolerance and iteration limit',
     'one graph, ranks printed', [G], 'page_rank in-place sweeps',
     'residual monitor on the returned ranks and an exact linear solve',
     'held on the observed graphs; float comparison with the stated '
     'tolerance')
prop('C26', 'Degrees and diameter match their definition',
     'get_degrees, get_in_degrees and get_out_degrees return for every node '
     'the number of its incident (a loop counts twice), entering and leaving '
     'edges, in every state of the graph. get_diameter of an undirected graph is the largest '
     'number of edges on a shortest path between two nodes, and infinity if '
     'the graph is disconnected.',
     ['inputs', 'histories'], 'every graph, after any updates',
     'not called by the tests (they crashed)', [G],
     'degree dictionaries, get_diameter over search',
     'monitor comparing with counts over the edge list and hop distances',
     'held on the observed graphs; the docstring formula min-max is taken '
     'as the usual max-max the code computes')
prop('C27', 'random() is reproducible and obeys its parameters',
     'random() called on equal empty graphs with equal arguments builds '
     'equal graphs, also in the same process and after other uses of random '
     'numbers. The graph has exactly numnodes nodes, edges join different '
     'nodes (with closest, nearest ones), costs lie in length_range '
     '(Euclidean: the rounded distance of the stored coordinates, times '
     'scale_cost with degree_range), density 0 and 1 give no and all '
     'edges, out-degrees made by degree_range stay within its upper bound, '
     'opposite arcs appear only if allowed, and formats and labels are '
     'applied to every node and edge.',
     ['inputs', 'configurations'],
     'every combination of arguments and seeds, both graph types',
     'the tests fix one or two argument sets', [G],
     'Graph.random branches by Euclidean, density, node_selection',
     'twin-run monitor plus parameter oracle on the produced graph',
     'held on the observed parameters; not claimed: opposite arcs with '
     'node_selection closest, costs for Euclidean with density and a length '
     'range, undirected with parallel_allowed')
prop('C28', 'DOT output describes exactly the graph, for any names',
     'to_string is a single well-formed DOT graph of the right kind whose '
     'nodes, edges (with direction), attributes and their values are exactly '
     'those of the graph, each stated once, for names and values with any '
     'characters that need quoting. Graph attributes that DOT knows are '
     'stated once, others not at all.',
     ['inputs', 'histories'],
     'every graph with names and values of arbitrary printable text, '
     'numbers, empty strings',
     'rendering tests only check that a file appears', [G, C],
     'to_string, edge_to_string, Node.to_string, quote_if_necessary regexes',
     'round-trip monitor: independent strict DOT parser, cross-checked with '
     'graphviz on a sample',
     'held on the observed graphs; excluded: backslashes, control '
     'characters, DOT keywords as names, HTML-like <...> strings, None '
     'values, names equal after str(), attribute keys that are not '
     'identifiers')
prop('C29', 'Clusters are recorded and drawn with exactly their members',
     'create_cluster records the given nodes, attributes and node defaults '
     'under the given name or a fresh one, without keeping or changing the '
     'caller\'s objects. DOT output then has one subgraph per cluster with '
     'exactly its nodes, attributes and inner edges, every node and edge of '
     'the graph still appears exactly once (nodes of several clusters: once '
     'in each), and deleted nodes leave all their clusters.',
     ['histories', 'inputs'],
     'every set of clusters and later updates',
     'one graph with three clusters', [G],
     'create_cluster, cluster loops of to_string, processed_edges, del_node',
     'reference-model monitor plus round trip through the DOT parser',
     'held on the observed histories; edges of overlapping clusters are '
     'not claimed')
prop('C30', 'Trees keep parent, child, level and root consistent',
     'After any sequence of add_root, add_child, add_left_child, '
     'add_right_child and leaf deletions, children, parent, left and right '
     'child, level and root describe one and the same tree, every node but '
     'the root has exactly one parent, and attributes given at creation are '
     'kept. A freed child slot can be used again. Tree.add_root and '
     'Tree.add_child return the new node; a tree is directed, keeps the '
     'options it is built with and uses the dot layout unless told '
     'otherwise.',
     ['histories'], 'every history of tree updates, falsy names included',
     'the tests build two fixed trees', [T],
     'parent/level/direction/Lchild/Rchild attributes kept beside the '
     'adjacency lists',
     'reference-model monitor over random histories',
     'held on the observed histories; only leaves (and a lone root) are '
     'deleted')
prop('C31', 'Tree traversals visit every node once in the stated order',
     'Tree and BinaryTree dfs, bfs and traverse display each node of the '
     'subtree under the start node exactly once, highlighted; bfs by '
     'nondecreasing level in child order, dfs completing a subtree before '
     'its next sibling. print_nodes prints pre-, in- and postorder for '
     'either priority side.',
     ['inputs', 'configurations'],
     'every tree shape, start node, order, priority, queue argument',
     'tests run traversals without checking the visiting order', [T],
     'traverse over Stack/Queue, print_nodes recursion',
     'trace monitor: recorded display and print events compared with a '
     'recursive specification',
     'held on the observed trees; BinaryTree.dfs with priority L explores '
     'the right side first (stack order), as documented in DESIGN')
prop('C32', 'Expression trees print and evaluate correctly',
     'For every binary expression tree over + - * / with integer leaves, '
     'printexp prints the fully parenthesised expression and postordereval '
     'returns its value, printing operands and intermediate results in '
     'postorder. Neither changes the tree.',
     ['inputs'], 'every expression tree, labels on nodes or as names',
     'one fixed expression', [T], 'printexp and postordereval recursions',
     'differential monitor against an independent evaluator and printer',
     'held on the observed trees; division by zero must raise '
     'ZeroDivisionError')
prop('C33', 'Rendering writes complete files and leaves nothing behind',
     'display in file mode writes exactly basename.format with the picture '
     'of the current graph, write and create return the renderer output or '
     'the DOT text (UTF-8 in every locale), and display off writes nothing. '
     'No temporary file remains, whether the renderer works, is missing, fails or warns, '
     'or the graph has no text; a failing renderer is reported as an error '
     'and leaves graph and display mode usable. Highlighted nodes are red in the picture; '
     'after a viewer showed it they are all black again.',
     ['fault_sequences', 'configurations'],
     'every display mode, format, locale, and renderer fault',
     'tests need a working renderer and check only existence', [G],
     'create, write, display with temporary files and subprocess',
     'fault injection with stand-in renderers on a scratch PATH, file-system '
     'monitor of scratch directories',
     'held on the observed faults; no window is opened, viewers are stubs')
prop('C34', 'Algorithms never change the graph they run on',
     'Every search, tree, path, component, flow, ranking and traversal '
     'method leaves nodes, edges, adjacency order, costs, capacities, '
     'demands and all attributes the caller set under other names exactly '
     'as they were; only the result attributes it documents or draws '
     '(color, label, distance, flow, component and the like) may change.',
     ['inputs', 'configurations'],
     'every algorithm on every graph in its domain',
     'tests never look at the graph after an algorithm', [G, T],
     'temporary nodes and arcs in find_feasible_flow, attribute scratch '
     'space on nodes and edges',
     'before/after snapshot monitor around every algorithm call',
     'held on the observed calls; a missing capacity may be filled in by '
     'max flow')
prop('C35', 'Results do not depend on what ran before',
     'An algorithm called on a graph on which other algorithms ran, were '
     'repeated or were cut short gives the same result as on a fresh graph '
     'built by the same updates. Attributes left by earlier runs have no '
     'influence on return values or result attributes.',
     ['histories', 'fault_sequences'],
     'every sequence of algorithm calls',
     'tests run each algorithm once per graph', [G],
     'node attributes used as scratch state (color, distance, priority, '
     'visited, index, component, excess)',
     'twin execution monitor: used graph against fresh graph',
     'held on the observed call sequences; dfs is documented to rely on '
     'cleared times, its harness clears them')
prop('C36', 'Displaying an algorithm never changes its result or the mode',
     'Running an algorithm with any display mode, by argument or set on the '
     'graph, gives the same result and final flows, labels, colors and '
     'trees as running it with the display off (tree traversals color only '
     'what they show), and when it returns the display mode '
     'and layout of the graph are as before the call.',
     ['configurations', 'inputs'],
     'every algorithm with a display argument, every mode, argument or set',
     'tests run with one mode', [G, T],
     'old_display save/restore in every algorithm, display() side effects',
     'twin execution monitor with a counting stand-in display',
     'held on the observed calls; drawing itself is a stand-in here, C33 '
     'covers the real one')

prop('C37', 'The display argument decides how a run is shown, else the mode set',
     'When an algorithm or traversal is given a display mode, every frame of '
     'that run is shown in that mode, whatever mode is set on the graph; '
     'without the argument the mode of the graph is used. A run whose mode '
     'is off shows nothing, helper graphs included, and any other mode shows '
     'at least one frame of every search, tree, flow and traversal method.',
     ['configurations', 'inputs'],
     'every algorithm with a display argument, every pair of modes',
     'tests use one mode and do not count frames', [G, T],
     'display argument handling at the head of every algorithm, nested '
     'calls, DisjointSet created by Kruskal',
     'trace monitor recording the mode in force at every display call',
     'held on the observed runs; network simplex and cycle canceling may '
     'end without a frame')

prop('C38', 'Results do not depend on the process or its hash seed',
     'The same calls made in another Python process give the same results '
     'in the same order: node and edge lists, predecessor maps, paths, trees, '
     'flows, component numbers, random graphs made from a seed, attributes, '
     'printed text and DOT output. No result depends on the hash seed of the '
     'process or on anything else that changes from one process to the next.',
     ['configurations', 'histories'],
     'every program of updates and algorithms, every hash seed',
     'one test run has one hash seed, and tests do not compare the order of '
     'results', [G, T, C],
     'node and edge dictionaries in insertion order, no sets in the '
     'algorithms',
     'twin execution in processes with different hash seeds, all recorded '
     'observations compared in order',
     'held on the observed programs, three hash seeds per batch')
prop('C39', 'Node names are opaque: renaming the nodes renames the results',
     'Any hashable objects can name nodes (names that are false or 0 or empty, '
     'equal objects that are not identical, names with the same text, tuples, '
     'objects without order): replacing every name by another one replaces it '
     'in the results of structure queries, algorithms, trees and disjoint '
     'sets and changes nothing else. None is not a name.',
     ['inputs', 'histories'],
     'every program of updates and algorithms and every renaming of nodes',
     'tests name nodes with small integers and short strings, all of them '
     'true, interned and ordered', [G, T],
     'comparisons of names with None, identity, truth value or text all over '
     'the algorithms',
     'twin execution with opaque tokens and with ordinary names, results '
     'equal up to renaming',
     'held on the observed programs; text output is not compared')
prop('C40', 'Searches work with a container the caller hands in',
     'search, minimum_spanning_tree_prim and Tree.traverse use the stack, '
     'queue or priority queue handed in, give the same result and markings as '
     'with a container of the same kind made by themselves, and leave it empty '
     'unless a destination ended the search. Unweighted searches work with '
     'any of the three kinds, and the disjoint set handed to '
     'minimum_spanning_tree_kruskal ends up holding the connected components.',
     ['inputs', 'configurations'],
     'every graph or tree, source, destination, algorithm and kind of '
     'container',
     'no test hands in a container, so the branches for them never run',
     [G, T], 'q and components arguments, process_edge_search dispatch on '
     'the type of q',
     'twin execution with recording containers',
     'held on the observed runs; containers handed in are empty')
prop('C41', 'The finished picture shows the answer',
     'After a search, dfs, Prim or Kruskal run the green edges are the tree '
     'edges of the answer, reached nodes are green (others black after a '
     'search) and labels show the distance, cost or times found, whatever '
     'colors and labels earlier searches left; a hamiltonian run leaves green '
     'edges and positions only on the path it found. After a flow run every arc label '
     'shows capacity and flow, colors follow the flow (preflow push), and the '
     'blue nodes with the source are a minimum cut (augmenting paths). After '
     'label_components nodes share a label exactly if they are connected.',
     ['inputs', 'histories'],
     'every graph, request and earlier marking; Kruskal and dfs on edges '
     'without colors',
     'tests look at returned values or at nothing, never at the final '
     'markings', [G],
     'color and label updates along search, dfs, Prim, Kruskal, max_flow, '
     'show_flow and label_components',
     'end-state monitor comparing markings with the answer and with '
     'independent distances and cuts',
     'held on the observed runs')
prop('C42', 'Printed reports and derived graphs state the data on the graph',
     'print_flow prints exactly the arcs with nonzero flow with their flow '
     'and capacity, get_simplex_solution_graph is a new graph of all nodes '
     'and the arcs strictly between their bounds, repr lists every node with '
     'its neighbors. min_cost_flow reports infeasibility and preflow push '
     'warns of nodes without a path to the sink exactly when that is so, an '
     'unknown algorithm is reported and changes nothing.',
     ['inputs', 'configurations'],
     'every network, flow and algorithm name',
     'tests do not read what is printed and do not use these reports', [G],
     'print_flow, get_simplex_solution_graph, __repr__, messages of '
     'min_cost_flow, search and max_flow_preflowpush',
     'output monitor comparing captured text with attributes and an '
     'independent feasibility decision',
     'held on the observed runs')

prop('C43', 'search with DFS explores depth first',
     'The predecessor map of search with algo DFS is the tree of a depth-first '
     'search from the source (for some order of the neighbors): the tree '
     'branches can be ordered so that no edge leads from an earlier to a '
     'later branch, forward and reverse, directed and undirected, with an '
     'own stack or one handed in, with a component number or without.',
     ['inputs', 'histories'],
     'every graph, source and direction, also on graphs with a history',
     'tests fix one order of neighbors on one graph; the property quantifies '
     'over all edges between branches', [G],
     'search with a Stack, process_edge_search',
     'offline trace check: recognizer of depth-first trees applied to each '
     'returned predecessor map',
     'held on the observed runs')
prop('C44', 'Every displayed step shows a step the algorithm may take',
     'While a search, Prim, Kruskal, dfs, hamiltonian, label_components or '
     'augmenting path run is displayed, each frame is a legal state: what is '
     'marked finished stays finished, at most one node is worked on, green '
     'edges are the tree, forest or path of the nodes marked, labels of '
     'finished nodes are the final distances, costs or times, nodes are taken '
     'in the order the algorithm prescribes (nearest, cheapest, deepest '
     'first), and an edge is taken or refused exactly if it may be. In '
     'max_flow frames arc colors tell empty, partly used and full arcs, and '
     'each augmentation moves the bottleneck along one path, with BFS a '
     'shortest one.',
     ['inputs', 'histories'],
     'every graph, source, destination and direction, at every frame',
     'tests run with the display off or look at no frame', [G],
     'color and label updates and display calls of search, '
     'minimum_spanning_tree_*, dfs, hamiltonian_path, label_components, '
     'max_flow',
     'online monitor at every display call replaying the state machine of '
     'the algorithm on the observed colors and labels',
     'held on the observed runs')
prop('C45', 'Arguments are only read, results belong to the caller',
     'No algorithm, query, generator or constructor changes a list or '
     'dictionary it is handed, keeps it, or returns one that it keeps: after '
     'the caller overwrites arguments and results the graph is unchanged and '
     'the same call gives what it gives on an undisturbed equal graph.',
     ['inputs', 'histories'],
     'every public call, on every graph, followed by changes of what was '
     'handed in and out',
     'tests never change an argument or a result and look again', [G],
     'list and dictionary parameters and returned containers of all '
     'algorithms, create_cluster, random, DisjointSet.add, display',
     'twin monitor: arguments and results of each call are overwritten and '
     'the graph compared with an undisturbed twin',
     'held on the observed runs')

prop('C46', 'A call that fails leaves the graph as it was and usable',
     'When an algorithm is stopped by an exception, wherever that happens (a '
     'display or a number that raises, an attribute missing or no number, a '
     'node or rule that does not exist), nodes, edges, adjacency and the '
     'caller\'s attributes are as before, and once the cause is removed the '
     'same call gives what it gives on a graph that never failed.',
     ['fault_sequences', 'inputs'],
     'every algorithm, every point at which a display, comparison or sum may '
     'raise, every malformed element',
     'tests run algorithms on complete data to the end', [G],
     'temporary nodes and attributes of find_feasible_flow, max_flow, '
     'searches, components, Floyd-Warshall',
     'fault injection at the k-th display and the k-th arithmetic operation, '
     'state monitor around the failed call, twin without the fault',
     'held on the observed faults')
prop('C47', 'Building blocks of the flow algorithms keep their contracts',
     'Called directly, the documented parts do what they say: '
     'find_cycle_capacity and simplex_augment_cycle give the largest amount, '
     'augment_cycle changes exactly the arcs of the cycle, '
     'simplex_find_cycle gives a simple cycle or None exactly if there is '
     'none, simplex_connect adds one joining arc, simplex_find_tree gives a '
     'spanning tree solution, simplex_search consistent pred, depth and '
     'thread, potentials make tree arcs cost 0, entering and leaving arc are '
     'eligible and blocking, a pivot keeps tree and balances, '
     'label_correcting_check_cycle finds exactly a cycle through the node.',
     ['inputs', 'histories'],
     'every network, feasible flow, tree and sequence of pivots',
     'tests call none of these', [G],
     'find_cycle_capacity, augment_cycle, simplex_*, '
     'label_correcting_check_cycle, label_correcting_get_cycle',
     'contract monitor around each call, with the residual network, the tree '
     'and the reduced costs computed independently',
     'held on the observed runs')
prop('C48', 'Every moment of a run can be drawn, and the drawing is the state',
     'At every moment at which an algorithm or traversal displays a graph, '
     'helper graphs included, and after every run, to_string of that graph '
     'is well-formed DOT of the right kind that states each node and edge '
     'once, with exactly the attributes and values the getters give at that '
     'moment; asking for the text changes nothing.',
     ['histories', 'inputs'],
     'every algorithm run, every moment of it, every mark, label and number '
     'written by the run or left by an earlier one, with clusters',
     'tests never read a picture taken during a run', [G, T],
     'attributes written by the algorithms (labels, distances, colors, '
     'component numbers), to_string, edge_to_string, Node.to_string',
     'monitor at every display call: text read by an independent DOT parser '
     'against the attribute store',
     'held on the observed runs; up to 8 moments of each run are read')

prop('C49', 'Runs on different graphs may overlap in time',
     'When several threads each build, change, run algorithms on and draw '
     'graphs, trees and disjoint sets of their own, or make random graphs, '
     'every call returns, prints and displays what it does without the '
     'other threads, and every object ends in the same state. Threads that '
     'only ask one and the same graph (queries, text, rankings, shortest '
     'paths, residual graphs, copies) all get the right answers.',
     ['schedules', 'histories'],
     'every interleaving of the threads and every list of operations in '
     'each',
     'tests run one call at a time', [G, T],
     'state kept per object and per call (default arguments, module and '
     'class attributes, the generator of random numbers)',
     'seeded thread interleaving at line and bytecode boundaries, each '
     'thread compared with its run alone',
     'held on the observed interleavings; one thread runs at a time')

prop('C50', 'Results follow the unit and number type of costs and capacities',
     'Multiplying all costs by one positive number, or all capacities and '
     'demands by another, and writing the numbers as int, float, Fraction, '
     'Decimal or numpy number of the same value, changes no decision of an '
     'algorithm: trees, paths, cycles and answers stay the same, and flows, '
     'excesses, distances and residual capacities and costs are multiplied '
     'exactly, fractional flows included. Spanning trees depend on the order '
     'of the costs alone: any increasing change of the costs leaves them '
     'the same.',
     ['inputs', 'configurations'],
     'every graph, every positive factor (1/2**45 to 10**12 is sampled), '
     'every number type, every flow, path, cycle and spanning tree algorithm',
     'tests use small integers', [G],
     'comparisons and arithmetic on data of the caller, without tolerances, '
     'rounding or numbers taken for infinity',
     'metamorphic monitor: twin execution on multiplied data',
     'held on the sampled graphs, factors and types; floats whose sums are '
     'rounded are multiplied by powers of two and have no negative cycle')

prop('C51', 'Work is bounded by the size of the graph, whatever its shape and numbers',
     'Every run ends within a number of steps that is polynomial in the '
     'nodes and edges: searches, components and spanning trees near '
     'nodes times edges, label correcting, Floyd-Warshall and rankings with '
     'theirs, max_flow with BFS and preflow-push whatever the capacities; '
     'max_flow with DFS and find_feasible_flow also by the value of the flow, '
     'cycle canceling by the range of costs. Graphs with exponentially many '
     'paths, huge numbers, ties or a container handed in do not change '
     'that, and traversals of trees, updates, disjoint sets and DOT text '
     'are bounded likewise.',
     ['inputs'],
     'every graph and every argument in the domain',
     'tests use graphs on which exponential work is not felt', [G, T],
     'visited marks, queue discipline, augmenting by the bottleneck, '
     'distance labels',
     'loop iterations inside the code under test counted by a hook on '
     'backward jumps and compared with the bound of the algorithm',
     'held on the sampled graphs of up to 60 nodes, with a constant of 6; '
     'network simplex only within the step limit of its own check')

NOT_APPLICABLE = {}
NOTES = ('All checks run the real code of /repo/src under monitors written '
         'in Python; the code is pure Python, so compiler sanitizers have '
         'nothing to instrument; races are looked for by controlled thread '
         'interleaving (C49). '
         'VERIF_SEED selects the random cases, PYTHONHASHSEED is fixed.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['pid'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'],
                            'mechanism': [{'name': p['mechanism'],
                                           'where': ', '.join(p['files'])}]
                            }}) + '\n')
    checks, na = [], []
    for p in P:
        pid = p['pid']
        if pid in NOT_APPLICABLE:
            na.append({'property': pid, 'reason': NOT_APPLICABLE[pid]})
        elif not os.path.exists(os.path.join(HERE, 'props',
                                             pid.lower() + '.py')):
            na.append({'property': pid, 'reason': 'check not built yet'})
        else:
            checks.append({
                'property': pid,
                'quick_cmd': 'bash check.sh %s quick' % pid,
                'thorough_cmd': 'bash check.sh %s thorough' % pid,
                'technique': 'runtime monitoring: ' + p['technique'],
                'level': 'exploration',
                'level_note': p['note']})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1,
                   'setup_cmd': 'bash tools/setup.sh',
                   'checks': checks, 'not_applicable': na,
                   'notes': NOTES}, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(na), 'not applicable')


if __name__ == '__main__':
    main()
