M='cinereus/src/matching.rs'; C='cinereus/src/chawathe.rs'; T='cinereus/src/tree.rs'
B=[]
def bug(id,prop,edits,needs,breaks,demo): B.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo))
bug('b01-subtree-recheck','C01',[(M,'''    // matched earlier due to candidate processing order)
    if matching.contains_a(a_id) || matching.contains_b(b_id) {''','''    // matched earlier due to candidate processing order)
    if matching.contains_a(a_id) {''')],
 "a new-tree node already taken by an earlier candidate pair while its parent's subtree is later matched as a whole: repeated grandchildren under swapped parents",
 "two old nodes are paired with the same new node",
r'''
fn main() {
    // x(p q) y(p r)  ->  y'(p r) x'(p q): comparing y with x' first pairs y.p with x'.p
    let p = || n("p", vec![n("s", vec![])]);
    let a = tree(&n("root", vec![n("x", vec![p(), n("q", vec![])]), n("x", vec![p(), n("r", vec![])])]));
    let b = tree(&n("root", vec![n("x", vec![p(), n("r", vec![])]), n("x", vec![p(), n("q", vec![]), n("z", vec![])])]));
    let mut bad = false;
    for (a, b) in [(&a, &b), (&b, &a)] {
        let v = pairs(a, b, &cfg(0.5, 1));
        let bs: HashSet<_> = v.iter().map(|e| e.1).collect();
        let as_: HashSet<_> = v.iter().map(|e| e.0).collect();
        bad |= bs.len() != v.len() || as_.len() != v.len();
    }
    check(!bad, "one-to-one");
}
''')
bug('b02-delete-order','C07',[(C,'''    for a_id in tree_a.post_order() {
        if !matching.contains_a(a_id) {''','''    let doomed: Vec<_> = tree_a
        .iter()
        .filter(|&id| !matching.contains_a(id))
        .collect();
    for a_id in doomed {
        if !matching.contains_a(a_id) {''')],
 'deletion of a node that has an unpaired descendant','a parent is deleted before its children',
r'''
fn main() {
    let a = tree(&n("root", vec![n("x", vec![n("y", vec![n("z", vec![])])]), n("k", vec![])]));
    let b = tree(&n("root", vec![n("k", vec![]), n("l", vec![])]));
    let s: Vec<_> = script(&a, &b, &cfg(0.5, 1)).into_iter().filter(|o| o.starts_with('D')).collect();
    check(s == ["D a3", "D a2", "D a1"], &format!("children deleted first: {s:?}"));
}
''')
bug('b03-single-child-shortcut','C08',[(C,'''        // Parent unchanged - check if position among siblings changed
        let pos_a''','''        // An only child is always in place: nothing to compare
        if tree_b.child_count(parent_b) == 1 {
            continue;
        }

        // Parent unchanged - check if position among siblings changed
        let pos_a''')],
 'a node that becomes the only child of its parent but was not the first one before','the move to index 0 is not emitted',
r'''
fn main() {
    let a = tree(&n("root", vec![n("x", vec![]), n("y", vec![n("q", vec![])])]));
    let b = tree(&n("root", vec![n("y", vec![n("q", vec![])])]));
    let s = script(&a, &b, &cfg(0.5, 1));
    check(s.iter().any(|o| o.starts_with("M a2")), &format!("y moves to index 0: {s:?}"));
}
''')
bug('b04-hash-shortcut','C09',[(C,'''        // Handle text changes (for text/comment nodes)
        let a_text''','''        // Equal subtrees have nothing to update
        if tree_a.hash(a_id) == tree_b.hash(b_id) {
            continue;
        }
        // Handle text changes (for text/comment nodes)
        let a_text''')],
 'hashes that leave out the properties (as the HTML trees of this repository do) and a property change below which nothing else changes',
 'the property update is lost',
r'''
fn main() {
    NOPROPHASH.with(|c| c.set(true));
    let a = tree(&n("root", vec![N("x", vec![(1, 1), (2, 2)], vec![n("y", vec![])])]));
    let b = tree(&n("root", vec![N("x", vec![(1, 1), (2, 3)], vec![n("y", vec![])])]));
    let s = script(&a, &b, &cfg(0.5, 1));
    check(s.iter().any(|o| o.starts_with("U a1")), &format!("property update: {s:?}"));
}
''')
bug('b05-opaque-parent-only','C05',[(C,'''                if opaque_descendants_b.contains(&b_id) {
                    continue;
                }
                let pos''','''                if tree_b.is_opaque(parent_b) {
                    continue;
                }
                let pos''')],
 'an opaque node with grandchildren that are not paired','nodes strictly inside an opaque node are inserted',
r'''
fn main() {
    let a = tree(&n("root", vec![n("o!", vec![n("c", vec![])])]));
    let b = tree(&n("root", vec![n("o!", vec![n("c", vec![n("d", vec![])])])]));
    let s = script(&a, &b, &cfg(0.5, 1));
    check(s.is_empty(), &format!("opaque content is nobody's business: {s:?}"));
}
''')
bug('b06-ancestry-reverse','C03',[(M,'''        let is_descendant = tree_a
            .descendants(matched_a_parent)
            .any(|desc| desc == a_id);
        if !is_descendant {''','''        let is_descendant = tree_a.child_count(matched_a_parent) == 0
            || tree_a.descendants(matched_a_parent).any(|desc| desc == a_id);
        if !is_descendant {''')],
 'a new parent paired with an old leaf, while an equal leaf of a vanished subtree is looked for globally','an old node from elsewhere is paired with a child of a node whose partner is not its ancestor',
r'''
fn main() {
    // old: root(e, gone(w(leaf)))   new: root(e(leaf)) : e is paired with e by position; leaf may not go below it
    let a = tree(&n("root", vec![n("e", vec![]), n("gone", vec![n("leaf", vec![])])]));
    let b = tree(&n("root", vec![n("e", vec![n("leaf", vec![])])]));
    let v = pairs(&a, &b, &cfg(0.5, 1));
    check(v == [(0, 0), (1, 1)], &format!("{v:?}"));
}
''')
bug('b07-dice-tie','C03',[(M,'''(best.is_none() || score > best.unwrap().1)''','''(best.is_none() || score >= best.unwrap().1)''')],
 'two candidates with exactly the same Dice score','the later candidate wins the tie instead of the first in document order',
r'''
fn main() {
    // the old w (under a vanished parent) is equally similar to both new w
    let l = |s: &'static str| n(s, vec![n("t", vec![])]);
    let a = tree(&n("root", vec![n("old", vec![n("w", vec![l("p"), l("q")])]), n("m", vec![])]));
    let b = tree(&n("root", vec![n("m", vec![]), n("n1", vec![n("w", vec![l("p"), n("u", vec![])])]), n("n2", vec![n("w", vec![n("u", vec![]), l("q")])])]));
    let v = pairs(&a, &b, &cfg(0.0, 1));
    let w = v.iter().find(|e| e.0 == 2).map(|e| e.1);
    check(w == Some(3), &format!("first of equals: {v:?}"));
}
''')
bug('b08-root-fallback-similarity','C04',[(M,'''                        && tree_b.parent(b_id).is_none() // Must also be a root
                        && a_props.similarity(tree_b.properties(b_id)) >= config.similarity_threshold''','''                        && tree_b.parent(b_id).is_none() // Must also be a root''')],
 'two roots of the same kind whose properties differ more than the threshold','roots are paired below the similarity threshold',
r'''
fn main() {
    let a = tree(&N("root", vec![(1, 1)], vec![n("x", vec![])]));
    let b = tree(&N("root", vec![(1, 2)], vec![n("y", vec![n("z", vec![])])]));
    let v = pairs(&a, &b, &cfg(0.5, 1));
    check(!v.contains(&(0, 0)), &format!("dissimilar roots stay unpaired: {v:?}"));
}
''')
bug('b09-leaf-global-similarity','C04',[(M,'''                } else if best.is_none()
                    && a_props.similarity(b_props) >= config.similarity_threshold
                {''','''                } else if best.is_none()
                    && (a_props.similarity(b_props) >= config.similarity_threshold
                        || a_props.is_empty())
                {''')],
 'a leaf without properties under an unpaired parent and a leaf of the same kind with properties','dissimilar leaves are paired',
r'''
fn main() {
    let a = tree(&n("root", vec![n("gone", vec![n("leaf", vec![])])]));
    let b = tree(&n("root", vec![n("new", vec![N("leaf", vec![(1, 1), (2, 2)], vec![])])]));
    let v = pairs(&a, &b, &cfg(0.5, 1));
    check(v == [(0, 0)], &format!("{v:?}"));
}
''')
bug('b10-lie-panic','C14',[(M,'''    for (a_child, b_child) in a_children.into_iter().zip(b_children.into_iter()) {
        match_subtrees(tree_a, tree_b, a_child, b_child, matching);
    }''','''    for (i, a_child) in a_children.into_iter().enumerate() {
        match_subtrees(tree_a, tree_b, a_child, b_children[i], matching);
    }''')],
 'a hash collision between subtrees with different numbers of children','diffing panics',
r'''
fn main() {
    let mk = |k: usize| {
        let mut t: Tree<SimpleTypes<&'static str>> = Tree::new(NodeData::simple_u64(7, "root"));
        let r = t.root;
        for i in 0..k { t.add_child(r, NodeData::simple_u64(i as u64, "leaf")); }
        t
    };
    let ops = diff_trees(&mk(3), &mk(1), &MatchingConfig::default());
    check(ops.len() == 2, &format!("{ops:?}"));
}
''')
bug('b11-post-order-leaf','C12',[(T,'''            // Push children in reverse order so they come out in order
            let children: Vec<_> = id.children(self.arena).collect();
            for child in children.into_iter().rev() {''','''            // Push children in reverse order so they come out in order
            let children: Vec<_> = id.children(self.arena).collect();
            if let [only] = children[..] {
                self.stack.push((only, only.children(self.arena).next().is_none()));
                continue;
            }
            for child in children.into_iter() {''')],
 'a node with at least two children','post-order visits siblings right to left',
r'''
fn main() {
    let t = tree(&n("root", vec![n("a", vec![n("b", vec![])]), n("c", vec![])]));
    let v: Vec<_> = t.t.post_order().map(|x| t.ix(x)).collect();
    check(v == [2, 1, 3, 0], &format!("{v:?}"));
}
''')
bug('b12-growth','C13',[(M,'''        if b_idx >= self.b_to_a.len() {
            self.b_to_a.resize(b_idx + 1, None);
        }''','''        if b_idx >= self.b_to_a.len() {
            if self.b_to_a.len() * 2 <= b_idx {
                // far beyond the current capacity: start a table of the right size
                self.b_to_a = vec![None; b_idx + 1];
            } else {
                self.b_to_a.resize(b_idx + 1, None);
            }
        }''')],
 'an addition whose new-tree id is at least twice the size of the current table, after other additions','earlier backward lookups are forgotten',
r'''
fn main() {
    let mut ar = indextree::Arena::new();
    let ids: Vec<_> = (0..40).map(|i| ar.new_node(i)).collect();
    let mut m = Matching::with_capacity(4, 4);
    m.add(ids[0], ids[1]);
    m.add(ids[1], ids[30]);
    check(m.get_a(ids[1]) == Some(ids[0]), "first pair still there");
}
''')
bug('b13-position-cache','C11',[(T,'''/// Reset position profiling counters
pub fn reset_position_counters() {''','''thread_local! {
    /// The last position answered by the default scan, with the next sibling to ask about
    static LAST: Cell<Option<(NodeId, NodeId, usize)>> = const { Cell::new(None) };
}

/// Reset position profiling counters
pub fn reset_position_counters() {'''),(T,'''            for (pos, c) in self.children(parent).enumerate() {
                SIBLINGS_SCANNED.with(|s| s.set(s.get() + 1));
                if c == id {
                    return pos;
                }
            }
            0''','''            // siblings are mostly asked about repeatedly: remember the last answer
            if let Some((p, n, pos)) = LAST.with(|l| l.get())
                && p == parent
                && n == id
            {
                return pos;
            }
            for (pos, c) in self.children(parent).enumerate() {
                SIBLINGS_SCANNED.with(|s| s.set(s.get() + 1));
                if c == id {
                    LAST.with(|l| l.set(Some((parent, id, pos))));
                    return pos;
                }
            }
            0''')],
 'the default position method (a tree type of its own) and an earlier diff, or the other tree, with equal node ids at other positions','positions of a previous tree leak into the diff',
r'''
/// uses the default position()
struct D<'a>(&'a T);
impl DiffTree for D<'_> {
    type Types = Ty;
    fn root(&self) -> NodeId { self.0.root() }
    fn node_count(&self) -> usize { self.0.node_count() }
    fn hash(&self, id: NodeId) -> NodeHash { self.0.hash(id) }
    fn kind(&self, id: NodeId) -> &&'static str { self.0.kind(id) }
    fn properties(&self, id: NodeId) -> &P { self.0.properties(id) }
    fn text(&self, id: NodeId) -> Option<&String> { self.0.text(id) }
    fn parent(&self, id: NodeId) -> Option<NodeId> { self.0.parent(id) }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::children(self.0, id) }
    fn height(&self, id: NodeId) -> usize { self.0.height(id) }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::iter(self.0) }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::post_order(self.0) }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::descendants(self.0, id) }
}
fn main() {
    // same content, two arenas: in the second the children were created in the other order
    let a = tree(&n("root", vec![n("x", vec![]), n("y", vec![])]));
    let mk = || {
        let mut t: Tree<Ty> = Tree::new(data(&n("root", vec![n("y", vec![]), n("x", vec![])])));
        let r = t.root;
        let x = t.add_child(r, data(&n("x", vec![])));
        let y = t.arena.new_node(data(&n("y", vec![])));
        x.insert_before(y, &mut t.arena);
        T { ids: vec![r, y, x], t, opq: HashSet::new() }
    };
    let b = mk();
    let b2 = tree(&n("root", vec![n("y", vec![]), n("x", vec![])]));
    let c = MatchingConfig::default();
    let s = |b: &T| -> Vec<String> {
        let (da, db) = (D(&a), D(b));
        let m = compute_matching(&da, &db, &c);
        generate_edit_script(&da, &db, &m).iter().map(|o| show(&a, b, o)).collect()
    };
    let (s1, s2) = (s(&b), s(&b2));
    check(s1 == s2 && s1.len() == 2, &format!("{s1:?} {s2:?}"));
}
''')
bug('b14-move-from-deleted','C10',[(C,'''        let parent_changed = parent_match != Some(parent_b);''','''        let parent_changed = parent_match.is_some_and(|p| p != parent_b);''')],
 'a surviving node whose old parent is deleted and whose sibling index stays the same','the node is not moved out and is lost with its old parent',
r'''
fn main() {
    let a = tree(&n("root", vec![n("gone", vec![n("k", vec![n("l", vec![])])])]));
    let b = tree(&n("root", vec![n("k", vec![n("l", vec![])])]));
    let m = { let mut m = Matching::new(); m.add(a.at(0), b.at(0)); m.add(a.at(2), b.at(1)); m.add(a.at(3), b.at(2)); m };
    let s: Vec<_> = generate_edit_script(&a, &b, &m).iter().map(|o| show(&a, &b, o)).collect();
    check(s == ["M a2 b1 under b0 @0", "D a1"], &format!("{s:?}"));
}
''')
bug('b15-insert-root-children','C06',[(C,'''                let pos = tree_b.position(b_id);
                ops.push(EditOp::Insert {
                    node_b: b_id,
                    parent_b,
                    position: pos,''','''                // indices count siblings that are kept or already inserted
                let pos = tree_b
                    .children(parent_b)
                    .take_while(|&c| c != b_id)
                    .filter(|&c| matching.contains_b(c) || !opaque_descendants_b.contains(&c) && c < b_id)
                    .count();
                ops.push(EditOp::Insert {
                    node_b: b_id,
                    parent_b,
                    position: pos,''')],
 'unpaired siblings whose arena ids are not in document order','an insertion names a wrong index',
r'''
fn main() {
    let a = tree(&n("root", vec![n("k", vec![])]));
    let mut t: Tree<Ty> = Tree::new(data(&n("root", vec![])));
    let r = t.root;
    let k = t.add_child(r, data(&n("k", vec![])));
    let q = t.add_child(r, data(&n("q", vec![])));
    let p = t.arena.new_node(data(&n("p", vec![])));
    q.insert_before(p, &mut t.arena);
    let b = T { ids: vec![r, k, p, q], t, opq: HashSet::new() };
    let s = script(&a, &b, &cfg(0.5, 1));
    check(s == ["I b2 p under b0 @1", "I b3 q under b0 @2"], &format!("{s:?}"));
}
''')
bug('b16-copy-before-position','C02',[(M,'''                .find(|&&b_id| {
                    tree_b.position(b_id) == a_pos
                        && a_props.similarity(tree_b.properties(b_id))
                            >= config.similarity_threshold
                })
                .copied();

            if let Some(b_id) = best {
                trace!(
                    a = usize::from(a_id),
                    a_kind = %a_kind,
                    b = usize::from(b_id),
                    pos = a_pos,''','''                .find(|&&b_id| {
                    tree_b.position(b_id) == a_pos
                        && a_props.similarity(tree_b.properties(b_id))
                            >= config.similarity_threshold
                })
                .or_else(|| candidates.last())
                // an exact copy among the siblings is a better partner than the node in place
                .and_then(|&in_place| {
                    candidates
                        .iter()
                        .rfind(|&&b_id| {
                            tree_b.hash(b_id) == tree_a.hash(a_id) && tree_b.child_count(b_id) > 2
                        })
                        .or((tree_b.position(in_place) == a_pos
                            && a_props.similarity(tree_b.properties(in_place))
                                >= config.similarity_threshold)
                            .then_some(&in_place))
                        .copied()
                })
                .as_ref()
                .copied();

            if let Some(b_id) = best {
                trace!(
                    a = usize::from(a_id),
                    a_kind = %a_kind,
                    b = usize::from(b_id),
                    pos = a_pos,''')],
 'equal siblings with at least three children in trees lower than the minimum height, so that the bottom-up phase pairs them','identical trees pair crosswise and the diff reports moves',
r'''
fn main() {
    let x = || n("x", vec![n("l", vec![]), n("m", vec![]), n("n", vec![])]);
    let t = n("root", vec![n("y", vec![n("z", vec![])]), x(), x()]);
    let (a, b) = (tree(&t), tree(&t));
    for mh in 0..5 {
        let v = pairs(&a, &b, &cfg(0.5, mh));
        check(v.len() == 11 && v.iter().all(|e| e.0 == e.1), &format!("{mh} {v:?}"));
        check(script(&a, &b, &cfg(0.5, mh)).is_empty(), "no change");
    }
}
''')

bug('b17-shared-scratch','C11',[(C,'''    let mut opaque_descendants_a: std::collections::HashSet<indextree::NodeId> =
        std::collections::HashSet::new();
    for a_id''','''    // The working set keeps its allocation from one call to the next
    static SCRATCH: std::sync::Mutex<Vec<NodeId>> = std::sync::Mutex::new(Vec::new());
    let mut opaque_descendants_a: std::collections::HashSet<indextree::NodeId> =
        std::collections::HashSet::new();
    for a_id'''),
 (C,'''    for a_id in tree_a.post_order() {
        if !matching.contains_a(a_id) {''','''    SCRATCH.lock().unwrap().clear();
    for a_id in tree_a.post_order() {
        if !matching.contains_a(a_id) {'''),
 (C,'''            ops.push(EditOp::Delete { node_a: a_id });
        }
    }
''','''            SCRATCH.lock().unwrap().push(a_id);
        }
    }
    for node_a in SCRATCH.lock().unwrap().drain(..) {
        ops.push(EditOp::Delete { node_a });
    }
''')],
 'two diffs in two threads, one of which collects its deletions while the other one is between collecting and emitting','deletions get lost or end up in the script of the other diff',
r'''
use std::sync::{Arc, Barrier};
/// stops once, at the second node of the post-order walk
struct S { t: T, b: Option<Arc<Barrier>> }
impl DiffTree for S {
    type Types = Ty;
    fn root(&self) -> NodeId { self.t.root() }
    fn node_count(&self) -> usize { self.t.node_count() }
    fn hash(&self, id: NodeId) -> NodeHash { self.t.hash(id) }
    fn kind(&self, id: NodeId) -> &&'static str { self.t.kind(id) }
    fn properties(&self, id: NodeId) -> &P { self.t.properties(id) }
    fn text(&self, id: NodeId) -> Option<&String> { self.t.text(id) }
    fn parent(&self, id: NodeId) -> Option<NodeId> { self.t.parent(id) }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::children(&self.t, id) }
    fn height(&self, id: NodeId) -> usize { self.t.height(id) }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::iter(&self.t) }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
        let v: Vec<_> = DiffTree::post_order(&self.t).collect();
        v.into_iter().enumerate().map(|(i, x)| {
            if i == 2 && let Some(b) = &self.b { b.wait(); b.wait(); }
            x
        })
    }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::descendants(&self.t, id) }
}
fn mk(b: Option<Arc<Barrier>>) -> Vec<String> {
    let a = S { t: tree(&n("root", vec![n("w", vec![n("x", vec![]), n("y", vec![]), n("z", vec![])]), n("k", vec![])])), b };
    let c = S { t: tree(&n("root", vec![n("k", vec![])])), b: None };
    diff_trees(&a, &c, &cfg(0.5, 1)).iter().map(|o| show(&a.t, &c.t, o)).collect()
}
fn main() {
    let want = mk(None);
    let bar = Arc::new(Barrier::new(2));
    let h = { let bar = bar.clone(); std::thread::spawn(move || mk(Some(bar))) };
    bar.wait();
    let mine = mk(None);
    bar.wait();
    let theirs = h.join().unwrap();
    check(mine == want && theirs == want, &format!("{want:?} {mine:?} {theirs:?}"));
}
''')
bug('b18-narrow-index','C13',[(M,'''    /// Map from tree B node to tree A node (indexed by B's NodeId)
    b_to_a: Vec<Option<NodeId>>,''','''    /// Map from tree B node to tree A node (by B's arena index)
    b_to_a: HashMap<u16, NodeId>,'''),
 (M,'''            b_to_a: Vec::new(),
''','''            b_to_a: HashMap::default(),
'''),
 (M,'''            b_to_a: vec![None; max_b],
''','''            b_to_a: HashMap::with_capacity_and_hasher(max_b, Default::default()),
'''),
 (M,'''        let b_idx = usize::from(b);

        // Grow''','''        let b_idx = usize::from(b) as u16;

        // Grow'''),
 (M,'''        if b_idx >= self.b_to_a.len() {
            self.b_to_a.resize(b_idx + 1, None);
        }
''',''),
 (M,'''        self.b_to_a[b_idx] = Some(a);
''','''        self.b_to_a.insert(b_idx, a);
'''),
 (M,'''        let idx = usize::from(b);
        self.b_to_a.get(idx).is_some_and(|opt| opt.is_some())''','''        let idx = usize::from(b) as u16;
        self.b_to_a.contains_key(&idx)'''),
 (M,'''        let idx = usize::from(b);
        self.b_to_a.get(idx).copied().flatten()''','''        let idx = usize::from(b) as u16;
        self.b_to_a.get(&idx).copied()''')],
 'nodes whose arena indices differ by a multiple of 65536, one of them paired','an unpaired node is reported as paired',
r'''
fn main() {
    let mut a = tree(&n("root", vec![]));
    let mut b = tree(&n("root", vec![]));
    let r = b.t.root;
    for _ in 0..65600 { let id = b.t.arena.new_node(data(&n("x", vec![]))); b.ids.push(id); }
    let mut m = Matching::new();
    m.add(a.at(0), b.at(5));
    let got: Vec<usize> = (0..b.ids.len()).filter(|&i| m.contains_b(b.at(i)) || m.get_a(b.at(i)).is_some()).collect();
    check(got == [5], &format!("{got:?}"));
}
''')
bug('b19-kind-digest','C01',[(M,'''    let mut b_by_kind: HashMap<<TA::Types as TreeTypes>::Kind, Vec<NodeId>> = HashMap::default();
''','''    // (keyed by a digest of the kind, which saves cloning kinds)
    use core::hash::BuildHasher;
    let digests = std::hash::RandomState::new();
    let mut b_by_kind: HashMap<u64, Vec<NodeId>> = HashMap::default();
'''),
 (M,'''                .entry(tree_b.kind(b_id).clone())
''','''                .entry(digests.hash_one(tree_b.kind(b_id)))
'''),
 (M,'''        let candidates = b_by_kind.get(a_kind).cloned().unwrap_or_default();

        let mut best: Option<(NodeId, f64)> = None;''','''        let candidates = b_by_kind
            .get(&digests.hash_one(a_kind))
            .cloned()
            .unwrap_or_default();

        let mut best: Option<(NodeId, f64)> = None;'''),
 (M,'''                .get(a_kind)
                .cloned()
                .unwrap_or_default()
                .into_iter()''','''                .get(&digests.hash_one(a_kind))
                .cloned()
                .unwrap_or_default()
                .into_iter()'''),
 (M,'''            let candidates = b_by_kind.get(a_kind).cloned().unwrap_or_default();

            let mut best: Option<NodeId> = None;''','''            let candidates = b_by_kind
                .get(&digests.hash_one(a_kind))
                .cloned()
                .unwrap_or_default();

            let mut best: Option<NodeId> = None;''')],
 'a kind type whose Hash does not tell all kinds apart','nodes of different kinds are paired',
r'''
#[derive(Clone, Debug, PartialEq, Eq)]
struct K(&'static str, u32);
impl std::hash::Hash for K { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl std::fmt::Display for K { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
fn main() {
    type Tk = SimpleTypes<K>;
    // h1 becomes h2 inside a parent that is replaced
    let mk = |top: &'static str, lvl: u32, hsh: u64| {
        let mut t: Tree<Tk> = Tree::new(NodeData::simple_u64(hsh, K("root", 0)));
        let p = t.add_child(t.root, NodeData::simple_u64(hsh + 1, K(top, 0)));
        let h = t.add_child(p, NodeData::simple_u64(hsh + 2, K("h", lvl)));
        (t, h)
    };
    let (a, ha) = mk("old", 1, 10);
    let (b, hb) = mk("new", 2, 20);
    let m = compute_matching(&a, &b, &MatchingConfig::default());
    check(m.pairs().all(|(x, y)| a.get(x).kind == b.get(y).kind), &format!("kinds of {:?}", m.pairs().collect::<Vec<_>>()));
}
''')
bug('b20-early-out','C11',[('cinereus/src/lib.rs','''    let matching = compute_matching(tree_a, tree_b, config);
''','''    // Equal trees: nothing to match, nothing to emit
    let (root_a, root_b) = (tree_a.root(), tree_b.root());
    if tree_a.hash(root_a) == tree_b.hash(root_b) && tree_a.kind(root_a) == tree_b.kind(root_b) {
        let mut matching = Matching::new();
        matching.add(root_a, root_b);
        return (Vec::new(), matching);
    }
    let matching = compute_matching(tree_a, tree_b, config);
''')],
 'the one-call entry point, equal root hashes','the matching of the one-call diff lacks everything but the roots (and updates that hashes do not cover are lost)',
r'''
fn main() {
    let t = n("root", vec![n("x", vec![n("y", vec![])]), n("z", vec![])]);
    let (a, b) = (tree(&t), tree(&t));
    let (ops, m) = diff_trees_with_matching(&a, &b, &cfg(0.5, 1));
    let one: Vec<_> = m.pairs().map(|(x, y)| (a.ix(x), b.ix(y))).collect();
    check(ops.is_empty() && one.len() == 4 && one == pairs(&a, &b, &cfg(0.5, 1)), &format!("{one:?}"));
}
''')
bug('b21-opaque-two-levels','C05',[(C,'''            for desc in tree_b.descendants(b_id) {
                if desc != b_id {
                    opaque_descendants_b.insert(desc);
                }
            }''','''            for child in tree_b.children(b_id) {
                opaque_descendants_b.insert(child);
                for grandchild in tree_b.children(child) {
                    opaque_descendants_b.extend(tree_b.children(grandchild));
                    opaque_descendants_b.insert(grandchild);
                }
            }''')],
 'an inserted opaque node with content four levels deep','nodes inside the opaque node are inserted one by one',
r'''
fn main() {
    let a = tree(&n("root", vec![]));
    let b = tree(&n("root", vec![n("o!", vec![n("1", vec![n("2", vec![n("3", vec![n("4", vec![])])])])])]));
    let s = script(&a, &b, &cfg(0.5, 1));
    check(s.len() == 1, &format!("{s:?}"));
}
''')
bug('b22-far-position','C08',[(C,'        let position_changed = pos_a != pos_b;','''        // positions are compared in the width that edit scripts carry them in
        let position_changed = (pos_a as u8) != (pos_b as u8);''')],
 'a node that stays under its parent and ends up exactly 256 places further on','the node is not moved at all',
r'''
fn main() {
    let names: Vec<&'static str> = (0..300).map(|i| &*Box::leak(format!("t=x{i}").into_boxed_str())).collect();
    let mut rows: Vec<&'static str> = names.clone();
    let a = tree(&n("root", rows.iter().map(|t| n(t, vec![])).collect()));
    let one = rows.remove(20);
    rows.insert(276, one);
    let b = tree(&n("root", rows.iter().map(|t| n(t, vec![])).collect()));
    // every row is paired with its own counterpart
    let m = compute_matching(&a, &b, &cfg(0.5, 0));
    let s = generate_edit_script(&a, &b, &m);
    let far = s.iter().filter(|o| matches!(o, EditOp::Move { new_position: 276, .. })).count();
    check(far == 1, &format!("{far} moves to 276 of {} operations", s.len()));
}
''')
bug('b23-dice-of-big-sections','C03',[(M,'        2.0 * common as f64 / (desc_a.len() + desc_b.len()) as f64','''        // huge subtrees: a sample of this size says enough
        2.0 * common.min(250) as f64 / (desc_a.len() + desc_b.len()) as f64''')],
 'a moved section with more than 500 descendants, most of which are still there','the section is deleted and inserted again',
r'''
fn main() {
    let names: Vec<&'static str> = (0..300).map(|i| &*Box::leak(format!("t=x{i}").into_boxed_str())).collect();
    let section = |from: usize| n("section", (from..300).map(|i| n("li", vec![n(names[i], vec![])])).collect());
    let a = tree(&n("root", vec![n("head", vec![n("p", vec![n("t=a", vec![])])]), section(0)]));
    let b = tree(&n("root", vec![section(10), n("head", vec![n("p", vec![n("t=a", vec![])])])]));
    let m = compute_matching(&a, &b, &cfg(0.5, 1));
    let sa = a.ids.iter().copied().find(|&i| *DiffTree::kind(&a.t, i) == "section").unwrap();
    check(m.contains_a(sa), "the section has a counterpart");
}
''')
