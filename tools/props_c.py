P=[]
def p(id,title,stmt,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
M="cinereus/src/matching.rs"; C="cinereus/src/chawathe.rs"; T="cinereus/src/tree.rs"; L="cinereus/src/lib.rs"
p("C01","Node matching is a one-to-one, kind-preserving correspondence",
 "For any two trees whose hashes honour the Merkle contract and any matching configuration, every node of the old tree is paired with at most one node of the new tree and vice versa, and paired nodes always belong to the two trees and have the same kind. The five ways of asking (pair list, pair count, forward lookup, backward lookup, membership tests) always give the same answer, and no pair is listed twice.",
 ["inputs","configurations"],"all pairs of ordered labelled trees (any shape, repeated subtrees, opaque flags, arena layout), all thresholds in [0,1] and minimum heights",
 "Tests check a handful of two- to five-node trees; conflicts between the phases (a node offered to several candidates) only arise with repeated subtrees at several levels.",
 [M],[("matched-already guards in each phase",M+": top_down_phase, match_subtrees, bottom_up_phase"),("mirrored maps",M+": Matching::add")],
 [("pairs/a_to_b/b_to_a","the correspondence",M+": struct Matching")],["compute_matching"])
p("C02","Diffing a tree against an identical copy reports no change",
 "For every tree (with or without opaque nodes, any configuration with threshold at most 1), diffing it against an equal tree yields an empty edit script. Every node that is not strictly inside an opaque node is paired with exactly its own counterpart.",
 ["inputs","configurations"],"all trees, including trees full of identical siblings and identical subtrees at different depths, all thresholds in [0,1] and all minimum heights (so that identical trees are left to the bottom-up phase)",
 "Tests try one three-node tree with the default configuration.",
 [M,C],[("hash match of roots",M+": top_down_phase"),("position match under paired parents",M+": bottom_up_phase pass 1"),("root fallback",M+": bottom_up_phase")],
 [],["compute_matching","diff_trees"])
p("C03","Matching decisions follow the documented two-phase GumTree procedure",
 "The set of pairs is exactly the one of the documented procedure: top-down from the two roots through children only, pairing equal-hash same-kind subtrees of at least the minimum height node by node, then bottom-up in document order: same kind and position with sufficiently similar properties under a paired parent, else the best-scoring internal node by Dice coefficient that is compatible with the pairing of the parents, else the root with the root. Remaining leaves pair last, preferring same position with same hash, then same hash, then same position with similar properties under a paired parent, and under an unpaired parent an equal-hash leaf anywhere ancestry allows before the first leaf with similar properties.",
 ["inputs","configurations"],"all pairs of ordered labelled trees, all thresholds in [0,1], all minimum heights",
 "The quality of every patch depends on tie-breaking among many candidates; tests sample a few pairs and mostly count operations.",
 [M],[("candidate stack",M+": top_down_phase"),("position, Dice and root heuristics",M+": bottom_up_phase pass 1"),("leaf preference order",M+": bottom_up_phase pass 2"),("ancestry_compatible",M),("dice_coefficient",M)],
 [("matching","pairs so far",M)],["compute_matching"])
p("C04","Pairs that are not exact copies meet the configured similarity threshold",
 "Whenever two nodes are paired although their subtree hashes differ and neither is opaque, their properties are at least as similar as the configured threshold. Such nodes are moreover either at the same position under paired parents, or two roots, or both leaves, or nodes whose subtrees share at least the threshold fraction of paired descendants when they are paired.",
 ["inputs","configurations"],"all pairs of trees with arbitrary properties, all thresholds in [0,1]",
 "Tests use the default threshold and mostly nodes without properties (similarity always 1).",
 [M],[("property compatibility tests",M+": bottom_up_phase"),("score threshold",M+": bottom_up_phase")],[],["compute_matching"])
p("C05","Opaque subtrees are atomic in matching and in edit scripts",
 "No node strictly inside an opaque node of either tree is ever the subject of an edit operation, whatever matching the script is generated from. In a computed matching no node strictly inside an opaque node of the old tree is paired, nor is one of the new tree paired unless the enclosing opaque node was itself paired with a non-opaque node.",
 ["inputs","configurations"],"all pairs of trees with any subset of nodes opaque on either side (nested, root, leaf, one-sided), all configurations; for scripts also every one-to-one matching",
 "Three tests pair one opaque node on both sides with the default configuration; scripts, one-sided and nested opaqueness are not covered.",
 [M,C,T],[("opaque stop in top-down",M+": top_down_phase, match_subtrees"),("opaque_descendants sets",M+": bottom_up_phase"),("opaque_descendants sets",C+": generate_edit_script")],[],["compute_matching","generate_edit_script"])
p("C06","Edit scripts insert exactly the missing nodes, parents first",
 "Given any one-to-one matching, the script contains exactly one insertion for each unpaired non-root node of the new tree that is not strictly inside an opaque node, and no other insertion. Each insertion states the node's true parent, sibling index and kind in the new tree, and an inserted parent precedes its inserted children.",
 ["inputs"],"all pairs of trees and all one-to-one matchings between them, computed or supplied by the caller",
 "Tests insert one leaf under the root; nesting, several positions and opaque regions are not covered.",
 [C],[("insert phase",C+": generate_edit_script Phase 2/3")],[],["generate_edit_script"])
p("C07","Edit scripts delete exactly the vanished nodes, children first, last",
 "Given any one-to-one matching, the script contains exactly one deletion for each unpaired node of the old tree that is not strictly inside an opaque node, and no other deletion. A deleted child precedes its deleted parent, and every move out of a deleted region precedes the deletions.",
 ["inputs"],"all pairs of trees and all one-to-one matchings between them",
 "Tests delete one leaf; ordering against moves and nested deletion are not covered.",
 [C],[("delete phase in post-order",C+": generate_edit_script Phase 5")],[],["generate_edit_script"])
p("C08","A paired node is moved exactly when its parent or sibling index changes",
 "Given any one-to-one matching, a paired non-root node (neither side strictly inside an opaque node) is moved exactly once if its old parent is not paired with its new parent or if its sibling index differs, and otherwise never. The move names the new tree's parent and sibling index of the node; nothing else is ever moved.",
 ["inputs"],"all pairs of trees and all one-to-one matchings between them, including moves into inserted parents and under former descendants",
 "Tests cover one swap of two leaves under the root.",
 [C],[("move phase",C+": generate_edit_script Phase 4"),("sibling index",T+": DiffTree::position")],[],["generate_edit_script"])
p("C09","Text and property updates are emitted exactly when content differs",
 "Given any one-to-one matching, a paired node (neither side strictly inside an opaque node) gets exactly one text update carrying the new text if the new node has text and the old text differs, and none otherwise. It gets exactly one property update if the two property sets differ as key-value maps, listing every property of the new node in order and marking as unchanged exactly those with the old value, and none otherwise.",
 ["inputs"],"all property sets (added, removed, changed, reordered keys), text present or absent on either side, all one-to-one matchings",
 "Tests cover single property changes; combinations of removal, reordering and text are sampled only.",
 [C,T],[("update phase",C+": generate_edit_script Phase 1"),("Properties::diff contract",T)],[],["generate_edit_script"])
p("C10","Executing an edit script turns the old tree into the new tree",
 "Whenever the roots of the two trees are paired, executing the script in order under the documented displacement semantics (inserting or moving onto an occupied index sets the occupant aside until its own move or deletion) never refers to a node that does not exist at that moment and never moves a node below itself. It leaves nothing set aside, and ends in a tree equal to the new one in shape, sibling order, kinds, text and properties, with every paired node keeping its identity.",
 ["inputs","configurations"],"all pairs of trees, all configurations, computed matchings and arbitrary one-to-one kind-preserving matchings that pair the roots",
 "No test in the crate executes a script; the tests count or pattern-match operations.",
 [C,M,"cinereus/CHAWATHE_SEMANTICS.md"],[("phase order updates, inserts, moves, deletes",C+": generate_edit_script")],
 [("slots","nodes set aside","hotmeal/src/diff.rs: ShadowTree, cinereus/CHAWATHE_SEMANTICS.md")],["diff_trees","generate_edit_script"])
p("C11","The diff depends only on tree content and configuration",
 "Diffing the same two trees gives the same pairs and the same script every time, whatever was diffed before or is diffed at the same time in another thread, and whatever the arena layout (order of creation, unused or removed arena slots, concrete tree type behind the tree interface), up to the renaming of node ids. The one-call diff equals generating a script from the computed matching.",
 ["inputs","histories","schedules","configurations"],"all pairs of trees, all creation orders and arena histories that produce them, all sequences of earlier and overlapping diffs in the process",
 "Every test builds its trees in one order in a fresh arena and diffs once.",
 [L,M,C],[("iteration in document order",M+", "+C),("Vec-indexed matching",M+": Matching"),("diff_trees",L)],[],["diff_trees","compute_matching"])
p("C12","Tree queries agree with each other and with the construction history",
 "After any sequence of adding, detaching, re-attaching and removing nodes, parent, children, child count, sibling index, height, document-order iteration, post-order iteration and descendant iteration describe the one ordered tree that the history defines. Iteration visits every node of the tree exactly once, parents before children in document order and after them in post-order, and the tree interface gives the same answers as the tree itself.",
 ["histories","inputs"],"all histories of tree-building operations of any length and shape, all query nodes",
 "Two tests look at a three-node and a five-node tree, and of the post-order only at its last element.",
 [T],[("Tree accessors",T+": impl Tree"),("PostOrderIter",T),("DiffTree default methods",T+": trait DiffTree")],[("arena","nodes and links",T+": struct Tree")],["Tree","DiffTree"])
p("C13","The matching container reports exactly the pairs that were added",
 "After any sequence of one-to-one additions to a matching, created empty or with any preallocated capacity, forward and backward lookups, membership tests, emptiness, count and the pair list in insertion order report exactly the added pairs and nothing else. This includes queries about nodes beyond the preallocated range.",
 ["histories"],"all sequences of additions with node ids in any order and any capacity, all queries in between",
 "No test drives the container directly.",
 [M],[("growth on demand",M+": Matching::add"),("bounds-checked lookups",M+": contains_a, get_b")],[("a_to_b, b_to_a, pairs","container state",M)],["Matching"])
p("C14","Diffing stays sound when node hashes collide or lie",
 "For arbitrary node hashes, including equal hashes on different subtrees and different hashes on equal subtrees, diffing terminates without panicking and the computed matching is one-to-one. The script generated from it inserts exactly the unpaired new nodes and deletes exactly the unpaired old nodes and, executed with the roots paired, still reproduces the shape of the new tree.",
 ["inputs","fault_sequences"],"all pairs of trees with any assignment of hash values to nodes, all configurations",
 "Tests with made-up hashes exist but only count operations on trees of at most five nodes.",
 [M,C],[("re-check in match_subtrees",M+": match_subtrees"),("zip of children",M+": match_subtrees")],[],["compute_matching","generate_edit_script"])
