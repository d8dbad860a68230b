#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The one place where the wording of the properties lives."""
import json, os

GM = "src/graph_impl/graph_map/graph.rs"
GN = "src/graph_impl/graph_map/node.rs"
SG = "src/graph_impl/static_graph/graph.rs"
EV = "src/graph_impl/static_graph/edge_vec.rs"
SI = "src/graph_impl/static_graph/static_edge_iter.rs"
MG = "src/graph_impl/static_graph/mmap/graph_mmap.rs"
ME = "src/graph_impl/static_graph/mmap/edge_vec_mmap.rs"
GG = "src/generic/graph.rs"
DT = "src/generic/dtype.rs"
SM = "src/map/set_map.rs"
VM = "src/map/vec_map.rs"
IS = "src/io/serde.rs"
IM = "src/io/mmap.rs"
CR = "src/io/csv/reader.rs"
CC = "src/io/csv/record.rs"
CW = "src/io/csv/writer.rs"

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NUMEDGES = ("num_of_edges", "cached number of distinct edges", GM)
NODEMAP = ("node_map", "adjacency of every node, stored redundantly at both endpoints", GM)

prop("C01", "Mutable graph behaves as a mathematical labelled graph under any history",
 "After any sequence of adding, relabelling and removing nodes and edges (self-loops included), the mutable graph contains exactly the nodes, edges and labels a mathematical graph would contain after the same sequence. Adding returns true exactly when the element is new (an existing one only gets the new label), adding an edge creates missing endpoints unlabelled, updating reports false and changes nothing when the element is absent, and removing returns the removed element with its label and adjacency and takes every incident edge along with a removed node. No such operation panics.",
 ["histories"],
 "all operation sequences over a finite set of node ids and labels, directed and undirected",
 "Unit tests run about ten fixed sequences of at most a dozen calls, none with self-loops, repeated removal or relabel-after-remove; the guarantee is about every history.",
 [GM, GN], [("add_node / add_edge / remove_node / remove_edge / update_*_label", GM), ("per-node adjacency maps", GN)],
 [NODEMAP, NUMEDGES], ["return value of every mutator", "has_node, has_edge, get_node_label, get_edge_label, neighbors"])

prop("C02", "Node and edge counts always equal the number of distinct nodes and edges",
 "In every representation (mutable, static, memory-mapped) the reported node count and edge count equal the number of distinct nodes and distinct edges in the graph, a self-loop counting once and an undirected edge counting once. This stays true after every operation, including re-adding or relabelling an existing edge, removing something absent, removing a node with a self-loop, recomputing the count, and converting.",
 ["histories"],
 "all operation sequences over a finite id/label alphabet, then conversion of every dense state",
 "The counter is updated incrementally in several places; the tests check it after a few additions and removals of ordinary edges only.",
 [GM, SG, MG], [("incremental edge counter", GM), ("count handed over to the static form", SG), ("aux file carries counts", MG)],
 [NUMEDGES], ["node_count", "edge_count"])

prop("C03", "Undirected graphs are symmetric: both orientations of an edge always agree",
 "In an undirected graph, for all nodes u and v: edge (u,v) is present exactly when (v,u) is, both orientations carry the same label, and v is listed among u's neighbours exactly when u is listed among v's. This holds in every representation after every history of label-based mutations (adding, updating, removing).",
 ["histories"],
 "all operation sequences over a finite id/label alphabet on undirected graphs, in all three representations",
 "Every undirected edge is stored twice and each mutator has to maintain both copies; tests query only one orientation after a few additions.",
 [GM, SG, MG], [("add_edge/remove_edge/remove_node write the mirrored entry", GM), ("CSR keeps both orientations", SG)],
 [NODEMAP], ["has_edge", "get_edge_label", "neighbors", "degree"])

prop("C04", "Directed graphs: in-neighbours are exactly the reverse of out-neighbours",
 "In a directed graph, u is reported as an in-neighbour of v exactly when the edge from u to v is present, and in-degree and out-degree are the sizes of those sets. This holds in every representation after every history, including removal of nodes and edges and self-loops.",
 ["histories"],
 "all operation sequences over a finite id/label alphabet on directed graphs, in all three representations",
 "In-adjacency is a separate structure maintained alongside; tests look at it for two hand-built graphs.",
 [GM, GN, SG, MG], [("in_neighbors set maintained by add/remove", GN), ("separate in-edge CSR", SG)],
 [("in_neighbors", "reverse adjacency", GN)], ["in_neighbors", "in_neighbors_iter", "in_degree", "neighbors", "degree"])

prop("C05", "Enumerations list every node and edge exactly once with the right label",
 "Enumerating nodes, node ids, edges, edge ids, or mutable nodes and edges yields every element of the graph exactly once (an undirected edge in one orientation only) and nothing else, each edge and node carrying its own label id. The neighbours of a node are listed in ascending order without duplicates, and degree, owned/borrowed and iterator forms agree. This holds in all representations.",
 ["histories"],
 "all graphs reachable by operation sequences over a finite alphabet, in all three representations",
 "Tests enumerate one or two hand-built graphs without self-loops or isolated nodes; skipping logic for undirected enumeration depends on the shape of every adjacency list.",
 [GM, GN, SG, SI, MG], [("non-less-neighbour ranges", GN), ("CSR edge iterator skipping the mirrored half", SI), ("edge/label alignment", SG)],
 None, ["nodes", "node_indices", "edges", "edge_indices", "nodes_mut", "edges_mut", "neighbors", "neighbors_iter", "degree"])

prop("C06", "Label dictionaries: stable, dense, one id per distinct label",
 "Each distinct node label (and edge label) ever used gets exactly one id, ids are 0,1,2,... in order of first use and never change afterwards, and looking up an id returns the label it was given for. The listed labels, their number and the has-labels queries agree with that dictionary, and starting from an existing dictionary reuses its ids.",
 ["histories"],
 "all operation sequences over a finite label alphabet, starting from empty and from every pre-filled dictionary",
 "Tests add two or three labels once; id stability is a statement about all later operations.",
 [GM, SM, GG], [("interning through the label map", GM), ("index-preserving set", SM), ("label lookups by id", GG)],
 [("node_label_map / edge_label_map", "label <-> id dictionaries", GM)],
 ["get_node_label_map", "get_edge_label_map", "node_labels", "num_of_node_labels", "add_node_label"])

prop("C07", "The maximum seen id is the largest id ever added",
 "For a mutable graph the maximum seen id is absent before the first node and afterwards the largest id ever added, explicitly or as an endpoint of an added edge; removals never lower it. For a static or memory-mapped graph it is the largest node id, and absent for a graph without nodes.",
 ["histories"],
 "all operation sequences over a finite id set; all dense graphs for the static forms, including the empty one",
 "One test with one ascending/descending sequence; the value sizes the visited sets of traversals and seeds id allocation, so a stale value is a crash elsewhere.",
 [GM, SG, MG], [("max_id update in add_node", GM), ("derived from node count", SG)],
 [("max_id", "largest id seen", GM)], ["max_seen_id"])

prop("C08", "Graph equality holds exactly for the same nodes, edges and labels",
 "Two graphs of the same directedness compare equal exactly when they have the same node ids, the same edges and the same label on every node and edge; build order, removed elements, unused labels and internal label ids do not matter. The comparison is reflexive, symmetric and transitive, agrees between the typed graphs and the boxed general graphs, and for boxed graphs also across representations (where differing directedness means unequal).",
 ["histories", "inputs"],
 "all pairs of graphs reachable over a finite alphabet, including proper subgraphs and supergraphs of each other",
 "Tests assert equality of equal graphs only; a one-sided comparison (subgraph accepted as equal) or a missed label difference passes them all.",
 [GM, SG, GG], [("PartialEq of the mutable graph", GM), ("PartialEq of the static graph", SG), ("equal() and PartialEq for boxed graphs", GG)],
 None, ["==", "generic::graph::equal"])

prop("C09", "Equal graphs hash equally",
 "Whenever two graphs compare equal they produce the same hash, for mutable, static and boxed graphs alike, no matter in which order or through which intermediate states they were built. The same holds for the item-to-id maps.",
 ["histories", "inputs"],
 "all pairs of graphs reachable over a finite alphabet under all iteration orders of the underlying hash map; all small maps",
 "No test hashes a graph. The hash must be independent of hash-map iteration order and insertion history, which a sampled test cannot show.",
 [GM, SG, GG, SM, VM], [("sorted node/edge hashing", GM), ("sorted node/edge hashing", SG), ("boxed Hash", GG), ("map Hash/Eq", SM)],
 None, ["Hash::hash", "=="])

prop("C10", "Clones are equal to and independent of their original",
 "Cloning any graph (typed or boxed, any representation) yields a graph with the same nodes, edges, labels and directedness, and later changes to either one never show in the other.",
 ["histories"],
 "every reachable graph over a finite alphabet, followed by every single further operation on either side",
 "Two tests clone one graph each and never mutate afterwards.",
 [GM, SG, GG], [("derived Clone", GM), ("boxed clone by union with an empty graph", GG)], None, ["Clone::clone"])

prop("C11", "Freezing a dense graph into static form preserves it completely",
 "Converting a mutable graph whose node ids are exactly 0..n-1 into static form succeeds for every such graph (with no nodes, no edges, isolated nodes, self-loops, or ids up to the id type's maximum) and yields the same directedness, nodes, edges, labels, label dictionaries, counts, sorted adjacency and in-adjacency. Labels survive as long as there are fewer distinct labels than the label id type's maximum value. A graph with unused ids below its largest one freezes too, keeping the directedness, the edge count and the sorted adjacency and in-adjacency of every id, with none for the unused ids.",
 ["histories", "inputs"],
 "every dense graph reachable over a finite alphabet (through any history of additions and removals), plus full-range u8 graphs",
 "Tests convert two fixed graphs; offsets, label alignment and boundary ids can go wrong for particular shapes only.",
 [GM, SG, EV], [("into_static CSR construction", GM), ("CSR accessors", EV)], [("offsets/edges/labels", "CSR arrays", EV)], ["every query of the static graph"])

prop("C12", "A memory-mapped dump reopens as the identical graph",
 "Dumping a static graph to a path prefix and opening that prefix memory-mapped yields a graph that answers every query like the original: directedness, nodes, edges, labels, dictionaries, counts, adjacency and in-adjacency, also with no edges, no labels or no nodes. Without its auxiliary file the dump still opens, with the same directedness, counts, adjacency and node label ids, and empty dictionaries. The same holds for a bare edge vector.",
 ["histories", "inputs"],
 "every dense graph reachable over a finite alphabet, in each label configuration",
 "One test pair dumps a bare edge vector of one graph; no test opens a memory-mapped graph at all.",
 [SG, MG, EV, ME, IM], [("dump_mmap", SG), ("open by prefix", MG), ("raw slices of mapped files", IM)], None, ["every query of the memory-mapped graph"])

prop("C13", "Re-dumping over a used prefix leaves nothing of the earlier graph",
 "When graphs are dumped one after another to the same path prefix, opening the prefix yields exactly the last dumped graph, whatever kind of graph (directed or not, labelled or not, larger or smaller) was dumped there before. The same holds for re-exporting to the same file and for re-dumping a bare edge vector.",
 ["histories"],
 "all sequences of two dumps over a set of graphs covering every directed/labelled/size combination, and all sequences of three over a smaller one",
 "No test ever writes twice to one path; optional files make the result depend on history.",
 [SG, EV, MG, ME, IS], [("which files a dump writes or removes", SG), ("presence of optional files decides how a prefix is opened", MG)], None, ["StaticGraphMmap::new after several dump_mmap"])

prop("C14", "Export followed by import gives back an equal, fully working graph",
 "Exporting a mutable graph, a static graph, a label map or a reorder result to a file and importing it gives an equal object with the same counts, label ids and maximum seen id; continuing to mutate an imported graph behaves exactly as continuing with the original.",
 ["histories"],
 "every reachable graph over a finite alphabet; export/import also occurs as a step inside operation histories",
 "Tests only round-trip CSV for one graph; binary export/import is untested.",
 [IS, GM, SG, SM], [("bincode export/import", IS), ("serde derives", GM)], None, ["Serialize::export", "Deserialize::import"])

prop("C15", "A truncated export is rejected with an error",
 "Importing a file that is a strict prefix of a valid export (of a mutable graph, static graph or label map), or an empty or missing file, returns an error; it never panics and never yields a graph.",
 ["crash_points"],
 "every truncation point of the export of every graph of a finite set",
 "Needs all cut points of all exports; there is no test with damaged input.",
 [IS], [("deserialization errors are returned", IS)], None, ["Deserialize::import"])

prop("C16", "A failed write is reported, never silently swallowed",
 "If the storage refuses data at any point while a graph is exported, dumped for memory mapping or written as CSV, the call returns an error; whenever the call reports success, the files are complete and read back as the written graph.",
 ["fault_sequences"],
 "every byte position at which the storage can start refusing data, for every writer, over a set of graphs; plus an always-full device",
 "No test injects write faults; buffered writers that lose the last block on drop pass every fault-free test.",
 [IS, IM, SG, EV, CW], [("buffer flush and error propagation", IS), ("dump", IM), ("csv writer flush", CW)], None, ["Serialize::export", "dump_mmap", "write_to_csv"])

prop("C17", "CSV writing and reading gives back the same graph",
 "Writing a graph as node and edge CSV files and reading them back into an empty graph gives an equal graph, for any separator, for labelled, unlabelled and partially labelled graphs, isolated nodes, self-loops, and labels containing separators, quotes, line breaks or non-ASCII text (empty-string labels excepted, as they mean no label). It holds for every representation of the source graph and with or without the header option on reading.",
 ["histories", "inputs", "configurations"],
 "every reachable graph over a finite alphabet of ids and awkward labels, times separators and reader options",
 "Two tests round-trip one graph each with the default separator and one tame label set.",
 [CR, CC, CW], [("record serialization", CW), ("record deserialization", CC), ("reader configuration", CR)], None, ["write_to_csv", "CSVWriter::with_separator", "CSVReader::read", "read_from_csv"])

prop("C18", "CSV reading skips exactly the unreadable rows and keeps the rest",
 "When reading CSV, a row whose required ids are missing or not valid ids, or (unless flexible mode is on) whose field count differs from the first row, is skipped without an error and without affecting other rows; every readable row is applied in file order, with a missing or empty label meaning no label. With a header row columns are matched by name in any order; reading into a non-empty graph adds to it; and the row iterators yield exactly the rows that reading applies. Unless told otherwise a reader expects a header row and is not flexible.",
 ["inputs", "configurations"],
 "all files of up to three or four rows over an alphabet of valid and malformed rows, times header, flexible and separator options",
 "There is no test with a malformed row, a reordered header or the flexible option.",
 [CR, CC], [("row errors are skipped", CR), ("record visitors", CC)], None, ["CSVReader::read", "CSVReader::node_iter", "CSVReader::edge_iter"])

prop("C19", "Breadth-first search visits every node once, in breadth-first order",
 "A breadth-first search from a given node (or an arbitrary one if none is given) yields each node of the graph exactly once and then ends: first the start, then everything reachable from it in order of non-decreasing distance, then the same again from some unvisited node until all nodes are visited. It works in every representation, directed or not, also when ids are sparse or nodes have been removed. A start that is not in the graph is refused (panic).",
 ["inputs", "histories"],
 "all graphs up to a bounded number of nodes, all start nodes, under all hash-map iteration orders",
 "Tests walk paths of three nodes; the order is only non-trivial on graphs with branches and cycles.",
 ["src/algorithm/bfs.rs"], [("queue and discovered set", "src/algorithm/bfs.rs")], None, ["Bfs::new", "Bfs::next", "Iterator for Bfs"])

prop("C20", "Depth-first search visits every node once, in depth-first order",
 "A depth-first search from a given node (or an arbitrary one if none is given) yields each node of the graph exactly once and then ends, in a valid depth-first order: each next node is an unvisited neighbour of the most recently visited node that still has one, or, when there is none, some unvisited node. After a reset the traversal starts over and again covers the whole graph, in an order that does not depend on what was visited before the reset. A start that is not in the graph is refused (panic).",
 ["inputs", "histories"],
 "all graphs up to a bounded number of nodes, all start nodes and reset points, under all hash-map iteration orders",
 "Tests walk paths of three nodes, where every traversal order is a depth-first order.",
 ["src/algorithm/dfs.rs"], [("stack and discovered set", "src/algorithm/dfs.rs")], None, ["Dfs::new", "Dfs::next", "Dfs::reset", "Iterator for Dfs"])

prop("C21", "Connected components are exactly the classes of connected nodes",
 "Component detection reports two nodes of the graph as connected exactly when a path of edges joins them (ignoring direction), the component of a node is exactly the set of nodes connected to it, and the count is the number of components, isolated nodes included. The answers do not depend on the order edges are fed in or on queries made in between, adding edges incrementally gives the same result as detection on the final graph, a reset forgets everything, and nodes it has not been told about are reported as unknown rather than failing.",
 ["inputs", "histories"],
 "all graphs up to a bounded number of nodes; all orders of feeding up to a bounded number of edges with queries interleaved",
 "Tests check two small graphs without isolated nodes; union-find with path compression behaves differently per edge order and query order.",
 ["src/algorithm/conn_comp.rs"], [("union-find with path halving", "src/algorithm/conn_comp.rs")],
 [("parent map", "union-find forest", "src/algorithm/conn_comp.rs")], ["get_count", "is_connected", "get_connected_nodes", "get_root", "process_new_edge", "reset"])

prop("C22", "Connected subgraphs partition the graph and lose nothing",
 "Enumerating connected subgraphs yields one graph per connected component, each with the directedness of the source and exactly the component's nodes, edges and labels; an isolated node forms its own subgraph.",
 ["inputs", "histories"],
 "all graphs up to a bounded number of nodes with labels, directed and undirected, in every representation",
 "Two tests (both dependent on hash order) check one four-node graph without isolated nodes.",
 ["src/algorithm/conn_subgraphs.rs", "src/algorithm/conn_comp.rs"], [("assignment of nodes and edges to subgraphs by root", "src/algorithm/conn_subgraphs.rs")], None, ["ConnSubgraph::new", "into_result"])

prop("C23", "Graph union contains exactly the nodes and edges of both operands",
 "The union of two graphs of the same directedness has exactly the nodes and edges present in at least one operand, and an element present in both takes its label (or absence of one) from the second operand. The function and all operator forms agree, and operands passed by reference are unchanged.",
 ["inputs", "histories"],
 "all ordered pairs of graphs reachable over a finite alphabet, in mixed representations, for every form of the operation",
 "Tests unite one pair of disjoint graphs per form; overlap is where it can go wrong.",
 ["src/algorithm/graph_union.rs"], [("add_graph macro and operator impls", "src/algorithm/graph_union.rs")], None, ["graph_union", "+"])

prop("C24", "Graph difference removes exactly the second graph's nodes and edges",
 "The difference of two graphs of the same directedness has exactly the first graph's nodes that are not in the second, with their labels, and exactly the first graph's edges between such nodes, with their labels. The function and all operator forms agree, and operands passed by reference are unchanged.",
 ["inputs", "histories"],
 "all ordered pairs of graphs reachable over a finite alphabet, in mixed representations, for every form of the operation",
 "Tests subtract one pair per form, with no partial overlap, self-loop or label difference.",
 ["src/algorithm/graph_minus.rs"], [("sub_graph macro and operator impls", "src/algorithm/graph_minus.rs")], None, ["graph_minus", "-"])

prop("C25", "Reordering ids yields an isomorphic graph described by the returned mapping",
 "Reordering node ids renumbers the nodes 0..n-1 in order of non-decreasing degree, and the returned mapping (in both directions) translates every node, edge and label of the new graph to the original. Reordering node or edge labels keeps every element's label, drops unused labels and numbers the used ones in order of non-decreasing frequency. Parts that were not asked to be reordered stay as they were, and counts and the maximum id fit the new graph.",
 ["inputs", "histories", "configurations"],
 "every reachable graph over a finite alphabet, all eight flag combinations, under all hash-map iteration orders",
 "One test reorders one graph; ties, unused labels, removed nodes and partial flag combinations are untested.",
 [GM], [("reorder_id / reorder_id_with", GM), ("ReorderResult lookups", GM)], None, ["reorder_id", "take_graph", "get_original_node_id", "find_new_node_id"])

prop("C26", "Generated graphs satisfy their specification for every random outcome",
 "For every outcome of the random choices: the empty generator gives n nodes 0..n-1 and no edges; the complete one all edges between distinct nodes; the G(n,m) generator exactly m distinct edges without self-loops, every such set being possible (or a panic if m exceeds the maximum); the G(n,p) generator a simple graph, with no edges for p=0 and all edges for p=1, every other edge set being reachable for p strictly between. Labels are drawn from the given lists only (every one possible; none if a list is empty), and a p outside [0,1] is refused.",
 ["inputs", "configurations"],
 "all outcomes of every random draw for small n, m, p and label lists, directed and undirected",
 "Tests draw one random outcome per run and check counts only.",
 ["src/graph_gen/random.rs", "src/graph_gen/general.rs", "src/graph_gen/helper.rs"],
 [("pair enumeration and sampling", "src/graph_gen/helper.rs"), ("gnp/gnm", "src/graph_gen/random.rs")], None, ["random_gnp_graph", "random_gnm_graph", "complete_graph", "empty_graph"])

prop("C27", "LDBC loading maps each entity to one node and each relation row to one edge",
 "Loading an LDBC directory creates one node per distinct entity (kind and key), with dense ids, entities from organisation and place files carrying the label given in their row and entities only seen in relations carrying their kind; each relation row gives one edge labelled with the relation, between the right entities and in the right direction (relations sharing a pair of entities share one edge, with one of their labels). Split files, repeated rows, unknown files and the order in which the directory lists its files do not change the result up to renumbering.",
 ["inputs", "configurations"],
 "all small directories over an alphabet of node files, relation files, split files and unrelated files with overlapping keys; every relation kind",
 "The loader has no tests at all and its feature is off in the default test run.",
 ["src/io/ldbc/scheme.rs", "src/io/ldbc/node.rs", "src/io/ldbc/relation.rs"],
 [("entity-to-id map", "src/io/ldbc/relation.rs"), ("file name matching", "src/io/ldbc/node.rs")], None, ["read_ldbc_from_path"])

prop("C28", "Label statistics count exactly the labels present",
 "The node and edge label counters (by label and by label id) report for each label exactly how many nodes, respectively edges, carry it, an undirected edge counting once and unlabelled elements not at all. This holds in every representation.",
 ["histories"],
 "every reachable graph over a finite alphabet, in all three representations",
 "One test on one mutable graph; the static forms compute it through a different path.",
 [GG, GM, SG, MG], [("counter defaults over nodes()/edges()", GG)], None,
 ["get_node_label_counter", "get_edge_label_counter", "get_node_label_id_counter", "get_edge_label_id_counter"])

prop("C29", "Every id width works up to its boundary",
 "For each supported id type, converting any in-range index to an id and back is the identity, ordering follows the index, increment gives the successor and the reported maximum is the largest id. Graphs using the full range of a narrow id type (node ids up to the maximum; as many labels as there are usable label ids) behave like small graphs in all operations, conversions and file formats.",
 ["inputs", "configurations"],
 "all values of the 8- and 16-bit types, boundary values of the wider ones; full-range graphs for every representation",
 "No test uses a narrow id type or a boundary value.",
 [DT, GM, SI, SG], [("IdType impls", DT), ("iteration up to the largest id", SI)], None, ["IdType::new/id/increment/max_value/max_usize", "max_possible_id", "graph operations at the boundary"])

prop("C30", "Queries about absent nodes and edges answer no instead of failing",
 "Asking any representation whether it has a node or an edge, or for a node, an edge or a label, is answered with false or none for every id that is not in the graph, whichever endpoint is missing; it never panics and never reports an element that does not exist.",
 ["histories", "inputs"],
 "every reachable graph over a finite alphabet times every pair of present, removed, and never-seen ids up to the type's maximum",
 "Tests query absent items only in the mutable representation and only a few ids.",
 [GM, SG, EV, MG], [("presence checks before lookup", GM), ("bounds checks", EV), ("memory-mapped lookups", MG)], None, ["has_node", "has_edge", "get_node", "get_edge", "get_node_label", "get_edge_label", "get_node_mut", "get_edge_mut"])

prop("C31", "Label changes through mutable handles are visible everywhere",
 "Setting a label id through a mutable node or edge handle (looked up or enumerated) changes exactly that element's label, and every later query, enumeration, comparison and conversion shows the new label.",
 ["histories"],
 "every reachable graph over a finite alphabet, every element, every label id or none, looked up in either orientation",
 "One test relabels through the enumerations of one graph and re-reads it the same way.",
 [GM, GN, "src/graph_impl/graph_map/edge.rs"], [("mutable references into the adjacency", GN)], None, ["get_node_mut", "get_edge_mut", "nodes_mut", "edges_mut", "set_label_id"])

prop("C32", "Stripping labels from a static graph leaves its structure intact",
 "Removing node labels, edge labels or both from a static graph makes every affected query report no label and an empty dictionary, while nodes, edges, adjacency, counts and the other kind of labels stay exactly as they were.",
 ["histories", "inputs"],
 "every dense graph reachable over a finite alphabet, each of the removal operations and their sequences",
 "There is no test that removes labels.",
 [SG, EV], [("remove_node_labels / remove_edge_labels / remove_labels", SG)], None, ["all queries after removal, dump and export"])

prop("C33", "Item maps assign each distinct item one dense index and keep it",
 "Both item maps behave as an ordered list of distinct items under any sequence of add, pop, clear and lookups: adding returns the item's existing index or the next free one, index and item lookups are mutual inverses, popping removes the last item, and length, containment and listing agree. Conversions between the two kinds and construction from a sequence keep items and indices (duplicates collapsing to the first; a vector map made from a ready vector takes distinct items, but a set map made from a vector map collapses duplicates too), and two maps of a kind are equal exactly when they list the same items in the same order.",
 ["histories", "inputs"],
 "all operation sequences over a small item set up to fixpoint, all pairs of reached maps",
 "Tests run one sequence per map kind.",
 [SM, VM, "src/generic/map.rs"], [("index-preserving set", SM), ("vector map", VM)], None, ["add_item", "pop_item", "find_index", "get_item", "contains", "items", "items_vec", "len", "From conversions"])

prop("C34", "Static graphs built directly from offset arrays answer from those arrays",
 "A static graph or edge vector built from valid sorted offset, edge and label arrays reports exactly the nodes, edges, adjacency and labels those arrays describe, and, when no counts are supplied, derives the right node and edge counts (an undirected self-loop counting once). A cleared or default edge vector is empty. Mismatched label lengths and a directed graph without in-edges are refused.",
 ["inputs"],
 "all valid arrays of up to four nodes, directed and undirected, with and without labels and explicit counts",
 "Tests build two such graphs by hand.",
 [EV, SG, SI], [("CSR accessors and binary search", EV), ("count derivation in constructors", SG)], None, ["TypedStaticGraph::new", "with_labels", "from_raw", "EdgeVec", "find_edge_index"])

prop("C35", "Typed memory maps behave as bounds-checked slices of the written data",
 "Data written with the dump function and mapped back with the same element type reads as exactly the written elements, for every full, from- and to-range, including the empty file; a range outside the data is refused with a panic instead of returning foreign memory. Bytes beyond the last whole element are ignored.",
 ["inputs"],
 "all file lengths up to a bound (beyond the writer's internal block size for a few), all element widths and all ranges",
 "Tests map two files and read them whole.",
 [IM], [("slice construction over the mapping", IM), ("chunked dump", IM)], None, ["TypedMemoryMap", "dump", "typed_as_byte_slice"])

prop("C36", "A node's adjacency record is a faithful set of neighbours and labels",
 "A stand-alone adjacency record (the value removal returns and mutable node handles give access to) behaves, under any sequence of adding, relabelling and removing out-entries and in-entries, setting labels through handles and mutable listings, and cloning, exactly as a map from neighbour ids to optional labels plus a set of in-neighbours: adding reports true exactly for new entries, removing an out-entry returns that edge with its label, degrees, membership and label queries and every listing (ascending, each neighbour once, the non-less ones being those at or above the record's own id) agree with it, and records are equal, and then hash alike, exactly when id, label and entries are. The edge and node values and the wrappers around them report exactly the ids and labels they were made from.",
 ["histories", "inputs"],
 "all operation sequences on one record over up to four neighbour ids and two label ids, to the fixpoint, for ids below, among and above its neighbours and several id widths; all pairs of reached records",
 "Tests build a record by hand once and look at a few entries.",
 [GN, "src/graph_impl/graph_map/edge.rs", "src/generic/node.rs", "src/generic/edge.rs", "src/graph_impl/static_graph/node.rs"],
 [("NodeMapTrait / MutNodeMapTrait", GN), ("handles and wrappers", "src/generic/node.rs, src/generic/edge.rs")],
 [("neighbors", "ordered map neighbour -> label", GN), ("in_neighbors", "ordered set of in-neighbours", GN)],
 ["return values", "degree", "in_degree", "neighbors*", "non_less_neighbors*", "get_neighbor", "get_neighbor_mut", "==", "Hash"])

prop("C37", "The general interface gives the same graph and offers mutation where it should",
 "A graph behind the general (boxed) interface answers as the graph it was made from; it offers the directed interface exactly when it is directed and the mutating interface exactly when it is the mutable representation, names its implementation correctly, and every operation of the mutating interface has the effect and return value it has on the graph itself. A graph newly made through the general constructor is empty and has the requested direction. Implementation names parse in any capitalisation, and nothing else does.",
 ["histories", "inputs"],
 "every reachable state over small alphabets put in a box, every operation of the mutating interface from it; all operation sequences up to a length on fresh boxes, directed and undirected; all capitalisations",
 "One test mutates one boxed graph through a fixed sequence.",
 [GG, GM, SG, MG, "src/graph_impl/mod.rs"], [("GeneralGraph, as_mut_graph, as_digraph", GG), ("new_general_graphmap and the two GeneralGraph implementations", GM)], None,
 ["as_mut_graph", "as_digraph", "implementation", "all queries through the box", "GraphImpl::from_str"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
