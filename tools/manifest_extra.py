ENUM = "explicit-state model checking: every reachable graph state of a bounded operation alphabet (and every pair of them where two graphs meet) is built on the real code and compared with a reference model"
C.update({
 "C11": (ENUM, MC, "Every reachable state over 2-4 ids is frozen (dense ones) plus every small dense graph and byte-wide graphs up to the id limit; all queries compared."),
 "C12": (ENUM, MC, "Every reachable state frozen, dumped and mapped again, all queries compared; edge vectors alone too."),
 "C13": (ENUM, MC, "All ordered pairs (thorough: triples) of a family of graphs of different kinds dumped/exported one after another to one prefix/file."),
 "C32": (ENUM, MC, "All three strippings of every reachable state's static form."),
 "C34": (ENUM, MC, "Every valid offset/edge/label array triple of every graph up to 3-4 nodes, plus mismatched lengths."),
 "C35": (ENUM, MC, "All data lengths and all ranges up to a bound, several element types, trailing bytes, empty file."),
 "C08": (ENUM, MC, "All ordered pairs of states, canonical and non-canonical builds, all representations."),
 "C09": (ENUM, MC, "All states grouped by equality, every hash-order class of the node maps (seeded hasher), item maps too."),
 "C10": (ENUM, MC, "Every state cloned in every representation, then every mutation of either side."),
 "C23": (ENUM, MC, "All ordered pairs of states, every operator form."),
 "C24": (ENUM, MC, "All ordered pairs of states, every operator form."),
})
C.update({
 "C19": (ENUM, MC, "Every state, every start, every representation, every iteration-order class; the whole sequence judged by a validity oracle."),
 "C20": (ENUM, MC, "As C19 for depth-first order, with reset and clone at every point of every traversal."),
 "C21": (ENUM, MC, "Detection on every state in every representation, plus every reachable state of the component structure itself under feeding edges, queries, detection, reset and clone (2-6 ids) in any order."),
 "C22": (ENUM, MC, "Every state in every representation; each subgraph compared in full with the component."),
 "C25": (ENUM, MC, "Every state x all eight flag combinations x hash-order and tie-order classes; plus every explicitly given order on small states."),
 "C31": (ENUM, MC, "Every state x every handle x every label id; handle operations also as steps of the explored histories. One known finding (undirected handles)."),
})
FAULT = "fault-injection model checking: every bounded fault schedule (write call, byte budget, cut point) of every history in a bounded family is executed on the real code"
SEQ = "explicit enumeration: every bounded sequence over a finite alphabet of inputs and configurations is executed on the real code and compared with a reference model"
C.update({
 "C14": (ENUM, MC, "Every state (re-import being one of the operations) exported and imported: mutable, static, label maps, reorder results."),
 "C15": (FAULT, FE, "Every strict prefix of every file of every graph of the family."),
 "C16": (FAULT, FE, "Every write call failing/short/interrupted, every byte budget, full device, directories, missing directory, kernel file-size limits."),
 "C17": (ENUM, MC, "Every state in every representation x reader options; all label pairs x all separators."),
 "C18": (SEQ, EX, "Every row sequence up to the bound x every reading configuration."),
})
C.update({
 "C26": ("exhaustive enumeration of random outcomes (stateless model checking of the real code under a controlled random source)", MC, "Every outcome sequence of every random draw for every call within the bounds, incl. the set of reachable edge sets and labels."),
 "C27": (SEQ, MC, "Every directory of the families x creation orders, compared up to renumbering."),
 "C29": (ENUM, MC, "All values of narrow id types; states at the ends of the id range and full-range graphs through all other state checks."),
 "C33": (ENUM, MC, "All reachable map pairs to the fixpoint, all operation sequences to a depth, all pairs for equality."),
 "C36": (ENUM, MC, "All reachable adjacency records to the fixpoint, all pairs for equality and hashing, long records, all small value types."),
 "C37": (ENUM, MC, "Every state put behind the general interface with every operation executed through it; all operation sequences on fresh boxes."),
})
