import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
BG='abstract/_BasicGraph.py';GW='abstract/_GraphWithoutDisplay.py';ND='abstract/Node.py';ED='abstract/Edge.py';GO='abstract/_GraphObj.py'
NS='abstract/styling/NodeStyle.py';ES='abstract/styling/EdgeStyle.py'

p('C01','Every history of edits leaves a consistent graph',
 'After any sequence of additions and removals of nodes and edges (removal by node, by edge, through the graph, re-adding a removed node, repeated and rejected calls), the graph holds exactly the nodes and edges those calls imply, each listed once, nodes in the order they were added and a node\'s edges in the order they were connected. Every edge is listed among the outgoing edges of its start and the incoming edges of its end and nowhere else, both ends are nodes of the graph, and lookup, membership, per-node views and whole-graph views all agree. A removed node or edge disappears from every view.',
 ['histories','inputs'],'All finite histories of graph-editing calls over all node names and edge ids, including self-loops, parallel edges distinguished by id, and nodes removed and added again.',
 'The 10 tests each make at most five additions and one removal on a fresh graph; none removes a connected node, re-adds a node, uses a self-loop or compares all the views after a history.',
 [BG,ND,ED,GO],[('add_node/remove_node/connect/disconnect/edges/edges_dict/__contains__',BG),('outward/inward edge dictionaries, remove_edges',ND),('constructor registration, remove_self',ED)],
 [dict(name='nodes_dict',meaning='name -> node of the graph',where=BG),dict(name='outward/inward edge dicts',meaning='edge id -> edge, at each end',where=ND)],
 ['Graph.nodes','Graph.edges','Graph.edges_dict','Node.edges','in operator'])
p('C02','Duplicates follow the policy and rejected calls change nothing',
 'Adding a node whose name exists, or connecting with an existing (start, end, id), never creates a second one: the existing object is returned, exactly one warning / no warning / an exception follows for warn / ignore / error, and exactly the label, value and style explicitly given (falsy ones such as 0 included) replace the old ones. Edges that differ in direction or in id (0, empty and none are all different) stay distinct. A call that raises (error policy, unknown node, unsupported argument type, rejected style) leaves the nodes, edges, labels, values and styles as they were.',
 ['histories','inputs'],'All graphs, all existing or new names and edge identifiers, all three policies, all combinations of given and omitted attributes, all rejected calls.',
 'No test adds a duplicate node or edge, passes a policy, or looks at a graph after a call was rejected.',
 [BG,GW,GO],[('add_node: duplicate branch',BG),('connect: duplicate branch',BG),('style setters',ND+', '+ED)],None,['Graph.add_node','Graph.connect','warnings'])
p('C03','Family relations match their definition over the edges',
 'For every node of every graph, parents and children are exactly the other ends of its incoming and outgoing edges; siblings are the other nodes sharing a parent and co-parents (spouses) the other nodes sharing a child, without repeats and never the node itself; absolute roots and leaves are exactly the nodes without parents and without children. The answers asked of a node, asked of the graph by name and asked of the graph by node agree, and every has_/num_ answer agrees with its list. Child ranks follow the order in which the children were added to the graph. Every answer reflects the graph as it is when asked, and changing a returned list changes nothing else.',
 ['inputs','histories'],'All directed multigraphs (self-loops, parallel edges, two-way edges, isolated nodes) and all their nodes.',
 'One test checks a fixed five-node tree; siblings, spouses, roots, leaves, ranks, self-loops and parallel edges are never exercised.',
 [BG,ND],[('get_parents/get_children/get_siblings/get_spouses/absolute_roots/leaves',BG),('parents/children/siblings/co_parents/get_child_rank',ND)],None,['Graph.get_*','Node properties'])
p('C04','Ancestors and descendants are exactly the reachable nodes',
 'The ancestors of a node are exactly the nodes from which it can be reached along one or more edges (the node itself included exactly when it lies on a cycle), and its descendants exactly the other nodes that can be reached from it, each listed once, whatever cycles, diamonds or parallel edges the graph has. For different nodes, x is an ancestor of y exactly when y is a descendant of x. Asking never changes the graph, always finishes, and gives a new answer each time, which the caller may change.',
 ['inputs','histories'],'All finite directed multigraphs and all their nodes.',
 'The tests check ancestors and descendants on one acyclic five-node graph; no cycle, diamond or shared ancestor with its own ancestors.',
 [BG,ND],[('_get_ancestors/_get_descendants/get_ancestors/get_descendants',BG),('ancestors/descendants/num_descendants',ND)],None,['Node.ancestors','Node.descendants','Graph.get_ancestors(distance=False)'])
p('C05','Reported distances are shortest path lengths',
 'Asked with distances, a graph groups the ancestors (or descendants) of a node by distance: every ancestor (or descendant) appears under exactly one distance, and that distance is the number of edges on a shortest path between the two nodes. Nothing else appears under any distance, and all nodes of the list form are present. The answer is the caller\'s own: changing it changes no later answer.',
 ['inputs'],'All finite directed multigraphs and all their nodes, in both directions.',
 'No test asks for distances.',
 [BG],[('get_ancestors(distance=True)/get_descendants(distance=True)',BG)],None,['Graph.get_ancestors','Graph.get_descendants'])
p('C06','Object traversal finds every relative within the depth limit',
 'For any objects that report their parents and children, the ancestors (descendants) of an object found by the stand-alone traversal are exactly the other objects that can be reached through parents (children) in at most the given number of steps, or in any number when no limit is given, each once. With distances, each is grouped under its shortest distance. Traversal terminates on cyclic structures and changes nothing.',
 ['inputs','configurations'],'All finite object structures with __parents__/__children__ (cyclic, shared, inconsistent), all depth limits including 0 and none.',
 'get_ancestors/get_descendants over user objects are not called by any test.',
 ['abstract/get_ancestors.py','abstract/get_descendants.py'],[('get_ancestors',"abstract/get_ancestors.py"),('get_descendants',"abstract/get_descendants.py")],None,['get_ancestors','get_descendants'])
p('C07','Loop detection is exact',
 'A node is reported to be in a loop exactly when some directed cycle (a self-loop counts) passes through it, and two nodes are reported to be in the same loop exactly when each can be reached from the other along at least one edge. An edge is reported to be in a loop exactly when it lies on a directed cycle. The list of loop nodes contains exactly those nodes, and names and node objects are accepted interchangeably for the other node.',
 ['inputs','histories'],'All directed multigraphs, all nodes, node pairs and edges, also after edges that close or break cycles are added or removed.',
 'No test contains a cycle.',
 [BG,ND,ED],[('is_node_in_loop/are_nodes_in_same_loop/loop_nodes',BG),('is_in_loop/is_in_loop_with',ND),('is_in_loop',ED)],None,['Node.is_in_loop','Node.is_in_loop_with','Edge.is_in_loop','Graph.loop_nodes'])
p('C08','Roots cover the graph and none is redundant',
 'Every node of a graph is either one of its roots or a descendant of one, no root is a descendant of another root, and each root is listed once. Every node without parents is a root (and an absolute root, unlike any other node), and a group of nodes that is entered from nowhere outside it (a closed loop) contributes exactly one root.',
 ['inputs'],'All finite directed multigraphs, including ones made only of cycles, disconnected ones and the empty graph.',
 'No test asks for roots.',
 [BG],[('roots/absolute_roots',BG)],None,['Graph.roots','Graph.absolute_roots'])
p('C09','The text tree shows every edge exactly once',
 'The text tree of any graph, cyclic ones included, is finite and can be read back: below its root lines, each edge appears exactly once as a child line nested under its parent, in order, and every node appears. A node that has children is expanded exactly once, and every further appearance of it is marked with an asterisk and not expanded again. The connector drawn before a line tells whether it is the last child of its parent. A label is shown as it is, whatever its text, and changes nothing else of the tree.',
 ['inputs'],'All finite directed multigraphs with any labels; those that are read back have labels of a single line.',
 'No test produces a tree string.',
 [ND,BG],[('get_tree_str',ND),('get_tree_str',BG)],None,['Graph.get_tree_str','Node.get_tree_str'])
p('C10','A copy or pickle is a faithful and independent graph',
 'A copied, deep-copied or pickled-and-restored graph has the same nodes, edges, labels, values, tooltips, parameters, frozen flags, styles and settings as the original, in the same order, whether or not the original has been rendered, and it draws the same picture. Every node and edge of it belongs to the new graph, and every operation works on it as on the original. No change to one of the two is ever visible in the other, and a copy made later has what the original has by then.',
 ['histories','inputs'],'All graphs with picklable contents, before and after rendering or styling, and all later edits to either side.',
 'No test copies, pickles or deep-copies a graph.',
 [BG,GW,GO,ND,ED,NS,ES],[('__getstate__/__setstate__/copy',BG),('__setstate__/update_nodes',GW),('__getstate__/__setstate__/update_edges',ND),('__getstate__/__setstate__',NS+', '+ES)],None,['Graph.copy','pickle','copy.deepcopy'])
p('C11','Similarity is true exactly for equal content',
 'Two graphs are similar exactly when they have the same node names, the same edges (start, end and id), equal values, equal styles and equal extra parameters on them, and the same strictness and ordering settings; a graph is therefore always similar to itself and to its copies, and similarity does not depend on the order of comparison. Likewise two edges are similar exactly when start, end, id, value, style and parameters are equal, and two nodes when name, value, style and parameters are equal and their edges are similar. The comparison always answers true or false; it never raises and never changes either graph.',
 ['inputs'],'All pairs of graphs, in particular pairs that differ in a single node, edge, id, value, style attribute or setting.',
 'No test calls is_similar_to.',
 [BG,ND,ED,GO],[('is_similar_to',BG),('is_similar_to',ND),('is_similar_to',ED),('is_similar_to',GO)],None,['Graph.is_similar_to','Node.is_similar_to','Edge.is_similar_to'])
p('C12','Filtering keeps exactly the requested part',
 'Filtering by some nodes and a direction selects those nodes together with all their ancestors (direction to), all their descendants (direction from) or both (direction to_and_from, the default). The result of include is a new graph with exactly the selected nodes, that of exclude one with exactly the other nodes; in both, exactly the edges between kept nodes remain, with their ids, labels, values and styles. The graph that was filtered is unchanged.',
 ['inputs','configurations'],'All graphs (cyclic, styled, already rendered), all node selections by name or node, three directions, two filter types.',
 'No test calls filter.',
 [BG],[('filter',BG),('copy',BG),('remove_node',BG)],None,['Graph.filter'])
p('C13','Adding graphs gives their union and leaves them alone',
 'The sum of two graphs contains exactly the nodes and the edges (start, end, id) of either, keeping labels, values, styles and ids of whatever only one has. For a node or edge in both, the values are combined with the given function, or by addition by default, a missing value giving way to the present one even when that is zero or empty, and the left label and style win when present. Neither operand changes, then or later, and adding keeps the strictness and ordering of the left one.',
 ['inputs','histories'],'All pairs of graphs, overlapping or not, also a graph with itself and chains of sums, all addable values and all value functions.',
 'No test adds graphs.',
 [GW],[('add/__add__/__graph__',GW),('append',GW)],None,['Graph.__add__','Graph.add'])
p('C14','Graphs can be rebuilt from their representation',
 'The dictionary representation of a graph lists each of its nodes and edges once with its label, value, style and edge id, and building a graph from it (or from the graph, or from any object that offers one) gives the same nodes in the same order, edges, labels, values, styles, strictness and ordering, with the colour scheme that the call states or else the one of the source. Appending a representation, or a list of them, to an existing graph adds what is missing and keeps everything else; a setting that a representation states (title, link, tooltip, direction, strictness, ordering, global styles) is taken over, the last one stated winning, and one that it does not state stays. Style and colour overrides in a representation reach exactly the nodes and edges they name when the graph is drawn.',
 ['inputs','configurations'],'All graphs and all valid representations: nodes as dict or list, edges with two or three parts, override tables, nested lists of graphs.',
 'No test builds a graph from a representation or reads one.',
 [GW],[('__graph__',GW),('append/from_dict/__init__',GW),('stylize overrides',GW)],None,['Graph(obj)','Graph.from_dict','Graph.append','Graph.__graph__'])
p('C15','Graphs from lists and random graphs are what was asked for',
 'A graph built from lists of starts, ends and edge labels has one node per distinct name and one edge per list position with that start, end and label, repeated pairs included, and is strict exactly when that was asked for. A random graph has exactly the requested number of nodes named by consecutive numbers from the start index, only edges from a lower to a higher number unless cycles are allowed, no edges at probability 0 (or below), all permitted ones at 1 (or above) and otherwise each permitted one with the given probability; the same seed and arguments give the same graph.',
 ['inputs','configurations'],'All equal-length lists of names and labels; all sizes, start indices, probabilities, seeds and flags.',
 'No test uses from_lists or random.',
 [BG,GW],[('from_lists',BG),('random',GW)],None,['Graph.from_lists','Graph.random'])
p('C16','A graph built from an object has exactly its relatives',
 'A graph built from an object that reports parents and children contains the object, all its ancestors and all its descendants within the given height and depth, one node each labelled with the object\'s text, and nothing else. It has an edge from parent to child for every link among the object and its descendants and for every link among the object and its ancestors, and no edge that is not a link; it is strict exactly when that was asked for. Building never fails and never warns because of the shape of the structure (shared parents, cycles, order of discovery).',
 ['inputs','configurations'],'All consistent object structures (trees, DAGs, cyclic), all starting objects, all depth and height limits.',
 'No test uses from_object.',
 [BG,'abstract/get_ancestors.py','abstract/get_descendants.py'],[('from_object',BG),('get_ancestors',"abstract/get_ancestors.py"),('get_descendants',"abstract/get_descendants.py")],None,['Graph.from_object'])
p('C17','Indented text becomes exactly its outline',
 'For any outline written with a consistent indentation unit (tabs or any number of spaces, declared or detected), parsing yields each line with its index, its nesting level, its text unchanged and the index of its parent line, and the graph built from it connects each line to its parent (top-level lines to the root) and labels it with its text. Blank lines never change the nesting of other lines. Lines that are indented by a partial unit or more than one level deeper than the previous one are rejected.',
 ['inputs'],'All outlines, all indentation units, texts that contain spaces, tabs or the unit itself, blank lines anywhere.',
 'No test parses indented text.',
 ['abstract/parse_indentations_function.py',BG],[('parse_indentations','abstract/parse_indentations_function.py'),('from_indented_text',BG)],None,['Graph.from_indented_text','parse_indentations'])
p('C18','The drawing source is valid and shows exactly the graph',
 'The Graphviz source of any graph is accepted by Graphviz and describes exactly the graph\'s nodes and edges, for whatever characters names, labels, values and tooltips contain: each node once under its own name with its label (or its name), passed through the label converter if any, and its tooltip, and each edge once from its start to its end with its label, or else its value, and its tooltip. Names that differ as texts never become the same node and no text leaks out of its attribute (backslash sequences in labels keep their Graphviz meaning). The source is a strict graph exactly when the graph is strict, and layout direction, size, title (with its font, size and colour), background and extra attributes asked for, whatever their values, are stated in it.',
 ['inputs','configurations'],'All graphs, all printable texts including quotes, backslashes, newlines, braces, brackets and non-ASCII, all label converters, directions and size arguments.',
 'No test produces Graphviz source.',
 [GW,ND,ED,NS,ES],[('get_graphviz_header/get_graphviz_str',GW),('get_graphviz_str/label',ND),('get_graphviz_str',ED),('get_graphviz_str',NS+', '+ES)],None,['Graph.render().source','Graph.get_graphviz_str','dot parser'])
p('C19','Rendering always succeeds, repeats and changes no content',
 'Rendering succeeds for every graph, whatever its cycles, its values, its stylist, its global or individual styles and whether or not it has been rendered, copied or edited before, including the empty graph. Rendering an unchanged graph again gives the same source. Rendering changes no node, edge, label, value or style object given by the user.',
 ['inputs','histories','configurations'],'All graph shapes and edge values (any object), all stylists, all style settings, all interleavings of edits, copies and renders.',
 'No test renders a graph.',
 [GW,'abstract/styling/stylize_with_pensieve.py','abstract/styling/stylize_randomly.py','abstract/styling/stylize_edges_based_on_nodes.py','abstract/styling/inherit_style.py'],[('render/stylize',GW),('stylize_with_pensieve','abstract/styling/stylize_with_pensieve.py'),('stylize_edges_based_on_nodes','abstract/styling/stylize_edges_based_on_nodes.py'),('inherit_style','abstract/styling/inherit_style.py')],None,['Graph.render','Graph.get_svg'])
p('C20','Automatic styling respects explicit styles and is per element',
 'After rendering, every node and edge has a style; a style given explicitly to a node or edge is drawn as given, apart from the attributes that a global setting states, which apply to every node (or edge). By default, nodes that form a loop are drawn as red circles with yellow interiors; the other nodes that have no parents, or only parents in loops, use the colours of the scheme evenly (usage counts differ by at most one), as all nodes do under the random stylist; and an automatically styled edge has a shade of its start node\'s colour, never lighter than it. An edge\'s automatic style depends only on its own start node and value (a numeric value scales its arrow), never on other edges, and no two elements share a style object that was created automatically. An element without a style of its own takes the global one, where there is one. A graph that was emptied and filled again is styled like a new one.',
 ['inputs','configurations'],'All graphs with any subset of nodes and edges styled explicitly, both stylists, all colour schemes, all edge values.',
 'No test runs a stylist; two tests assign a style and read it back.',
 ['abstract/styling/stylize_with_pensieve.py','abstract/styling/stylize_randomly.py','abstract/styling/stylize_edges_based_on_nodes.py','abstract/styling/get_least_used_colour.py',GW],[('stylize',GW),('stylize_with_pensieve','abstract/styling/stylize_with_pensieve.py'),('stylize_randomly','abstract/styling/stylize_randomly.py'),('stylize_edges_based_on_nodes','abstract/styling/stylize_edges_based_on_nodes.py'),('get_least_used_colour','abstract/styling/get_least_used_colour.py')],None,['Graph.render().source','Node.style','Edge.style'])
p('C21','Style objects copy, invert and print faithfully',
 'A copy of a node or edge style, made directly or through copying or pickling, prints the same attributes and behaves the same under every later change of colour, reset or inversion, and changing either never affects the other. Attributes given explicitly are printed as given; colours not given are derived from the main colour (fill lighter and border darker than it, or the reverse when a darker fill is chosen; text black or white, whichever contrasts with the fill) and follow it when it changes after a reset. Inverting gives a new style with every explicit colour complemented, so inverting twice restores them, and the other colours derived from the complement of the main colour, and leaves the original unchanged.',
 ['inputs','histories'],'All combinations of style arguments and all sequences of copy, change, reset, invert and complement.',
 'Tests only construct default styles.',
 [NS,ES],[('copy/invert_colours/reset_colours/colour setters/get_graphviz_str',NS),('copy/invert_colours/reset_colours/colour setters/get_graphviz_str',ES)],None,['NodeStyle','EdgeStyle'])
p('C22','Frozen values and set styles are protected on every path',
 'While a node or edge is frozen, its value never changes, whichever way the change is attempted (assignment, adding the node again, connecting again, appending a representation): the attempt raises and the value stays, until it is unfrozen. Unless the graph allows style overwriting, a style once set is never replaced by any such path: the attempt raises and the style stays; with overwriting allowed it is replaced. Both protections still hold after copying or pickling the graph.',
 ['histories','configurations'],'All histories of freezing, unfreezing, assignment, duplicate adds, connects, appends, copies and pickles, with and without overwriting allowed.',
 'No test freezes anything or sets a style twice.',
 [GO,ND,ED,BG],[('freeze/unfreeze/value setter',GO),('style setter',ND),('style setter',ED)],None,['GraphObj.value','Node.style','Edge.style'])
p('C23','Equality, hashing and ordering of nodes and edges are lawful',
 'Within a graph, two nodes (two edges) are equal exactly when they are the same node (edge), unequal exactly when not equal, and equal ones hash equally, so sets and dictionaries of nodes or edges contain each exactly once. Nodes are totally ordered, and sorting them gives the order in which they were added, also in copies and after nodes were removed and others added. An edge is identified by start, end and id, so edges sharing an id but not their ends are different.',
 ['inputs','histories'],'All nodes and edges of all graphs reached by any history of additions, removals, copies and pickles.',
 'No test compares, hashes or sorts nodes or edges beyond list equality of distinct nodes.',
 [GO,ND,ED,BG],[('__eq__/__ne__/__hash__',GO),('__eq__/__ne__/__lt__/__hash__/index',ND),('id',ED),('generate_node_index',BG)],None,['==','!=','hash','sorted'])
p('C24','Saving writes the file asked for',
 'Rendering to a path writes the picture to exactly that path in the format named by its extension, shows every node and edge of the graph, writes nothing outside that directory, and returns the source. Rendering to SVG text gives an SVG image with one element for each node and one for each edge (each pair of nodes, for strict graphs) of the graph, in the direction asked for. A size asked for (height, width) is stated in the source that is drawn, and an unknown format or a place that cannot be written is refused with an exception.',
 ['inputs','configurations'],'All graphs, all paths in an existing directory (several dots, spaces, non-ASCII), formats Graphviz supports, sizes and directions.',
 'No test saves or draws a picture.',
 [GW,'abstract/Graph.py'],[('render/get_graphviz_source',GW),('get_svg/_repr_html_','abstract/Graph.py')],None,['Graph.render(path)','Graph.get_svg','file system'])
p('C25','The same program draws the same picture in every process',
 'Running the same sequence of graph operations (building, adding graphs, filtering, copying, seeded random graphs, both stylists) in different processes gives byte-identical Graphviz source, the same node and edge order and the same representation, whatever the interpreter\'s hash seed. Nothing drawn depends on memory addresses, set ordering or on graphs built earlier in the process.',
 ['schedules','inputs','histories'],'All programs over the graph API with deterministic contents, all hash seeds, all unrelated work done earlier in the process.',
 'The test runner fixes PYTHONHASHSEED=0 and runs each scenario once.',
 [GW,BG,'abstract/styling/stylize_randomly.py'],[('add: union of node names',GW),('random: seeding',GW),('stylize_randomly: seed','abstract/styling/stylize_randomly.py')],None,['Graph.render().source across processes'])
p('C26','Graphs in different threads do not disturb each other',
 'What a thread sees when it works on its own graphs (building, editing, querying, copying, pickling, filtering, adding, comparing, rendering, traversing objects, parsing outlines, seeded random graphs) is exactly what it sees when it works alone, whatever other threads do with other graphs at the same time, equal names, shared style objects and colour schemes included. Several threads that only read one graph (relations, distances, loops, roots, lists, text tree, source, snapshots, copies, filters, sums) each see what a single reader sees, and reading leaves the graph unchanged. Work that was interrupted by other threads leaves nothing behind that changes later work, and leaves the random numbers, warning filters and recursion limit of the program alone.',
 ['schedules','inputs','histories'],'All interleavings of two or three threads at lines and bytecodes of the package; each thread changes and renders only its own graphs, or all read one graph that nobody changes. Unseeded random graphs and writing to files are not included.',
 'No test starts a thread, so state shared by graphs (module globals, class attributes, default arguments, the global random generator) is never seen from a second one.',
 [GW,BG,ND,'abstract/get_descendants.py','abstract/styling/stylize_with_pensieve.py'],[('random: generator',GW),('render/draw',GW),('ancestors/descendants/siblings/co_parents',ND),('get_descendants','abstract/get_descendants.py'),('stylize_with_pensieve','abstract/styling/stylize_with_pensieve.py')],None,['Graph and Node API called from several threads'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
