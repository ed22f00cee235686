//! Runs the real cinereus code on the inputs given on stdin, one per line, and records what it did,
//! one JSON object per line. It judges nothing: the TLA+ specifications do.
use cinereus::indextree::{Arena, NodeId};
use cinereus::{
    DiffTree, EditOp, Matching, MatchingConfig, NodeData, NodeHash, PropValue, Properties,
    PropertyInFinalState, Tree, TreeTypes, compute_matching, diff_trees, diff_trees_with_matching,
    generate_edit_script,
};
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

// ---------------------------------------------------------------- tree types
/// Equality tells kinds apart; the hash collides (as hashes may) and the display is for humans only.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Kind(i64);
impl std::hash::Hash for Kind {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.0 & 1).hash(h)
    }
}
impl std::fmt::Display for Kind {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}", self.0 / 2)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct Text(i64);
impl std::fmt::Display for Text {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "t{}", self.0 / 2)
    }
}
#[derive(Clone, Debug, Default)]
struct Props(Vec<(i64, i64)>);
impl Props {
    fn get(&self, k: i64) -> Option<i64> {
        self.0.iter().find(|e| e.0 == k).map(|e| e.1)
    }
}
impl Properties for Props {
    type Key = i64;
    type Value = i64;
    fn similarity(&self, other: &Self) -> f64 {
        if self.0.is_empty() && other.0.is_empty() {
            return 1.0;
        }
        if self.get(0) != other.get(0) {
            return 0.0;
        }
        let common = self.0.iter().filter(|e| other.0.contains(e)).count();
        common as f64 / self.0.len().max(other.0.len()) as f64
    }
    fn diff(&self, other: &Self) -> Vec<PropertyInFinalState<i64, i64>> {
        other
            .0
            .iter()
            .map(|&(key, v)| PropertyInFinalState {
                key,
                value: if self.get(key) == Some(v) { PropValue::Same } else { PropValue::Different(v) },
            })
            .collect()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
}
struct Ty;
impl TreeTypes for Ty {
    type Kind = Kind;
    type Props = Props;
    type Text = Text;
}

// ---------------------------------------------------------------- input trees
struct InTree {
    par: Vec<usize>,
    data: Vec<NodeData<Ty>>,
    opq: Vec<bool>,
}
struct Toks<'a>(std::str::SplitAsciiWhitespace<'a>);
impl Toks<'_> {
    fn s(&mut self) -> &str {
        self.0.next().expect("short line")
    }
    fn i(&mut self) -> i64 {
        self.0.next().expect("short line").parse().expect("number")
    }
    fn u(&mut self) -> usize {
        self.i() as usize
    }
    fn tree(&mut self) -> InTree {
        let n = self.u();
        let mut t = InTree { par: vec![], data: vec![], opq: vec![] };
        for _ in 0..n {
            t.par.push(self.u());
            let kind = Kind(self.i());
            let txt = self.i();
            t.opq.push(self.i() != 0);
            let hash = NodeHash(self.s().parse().expect("hash"));
            let np = self.u();
            let props = Props((0..np).map(|_| (self.i(), self.i())).collect());
            t.data.push(NodeData::new(hash, kind, props, (txt != 0).then_some(Text(txt))));
        }
        t
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % n.max(1)
    }
}

/// A built tree with its names (name i, from 1, is node ids[i-1]).
struct Built {
    tree: Tree<Ty>,
    ids: Vec<NodeId>,
    back: HashMap<NodeId, usize>,
}

/// Layout 0 creates nodes in document order in a fresh arena. Other layouts create them in a shuffled
/// order, among other nodes that are removed again or stay behind unattached, and link siblings in
/// a shuffled order. Half-way, `room` other nodes are created.
fn build(t: &InTree, layout: u64, room: usize) -> Built {
    let n = t.par.len();
    if layout == 0 {
        let mut tree = Tree::new(t.data[0].clone());
        let mut ids = vec![tree.root];
        for i in 1..n {
            if i == n.div_ceil(2) {
                for _ in 0..room {
                    tree.arena.new_node(t.data[0].clone());
                }
            }
            let id = tree.add_child(ids[t.par[i] - 1], t.data[i].clone());
            ids.push(id);
        }
        return finish(tree, ids);
    }
    let mut r = Rng(layout);
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, r.next(i + 1));
    }
    let mut arena: Arena<NodeData<Ty>> = Arena::new();
    let mut ids: Vec<Option<NodeId>> = vec![None; n];
    let mut junk: Vec<NodeId> = vec![];
    for (nth, &i) in order.iter().enumerate() {
        if nth == n / 2 {
            for _ in 0..room {
                arena.new_node(t.data[0].clone());
            }
        }
        for _ in 0..r.next(3) {
            junk.push(arena.new_node(t.data[r.next(n)].clone()));
        }
        if !junk.is_empty() && r.next(3) == 0 {
            let j = junk.swap_remove(r.next(junk.len()));
            j.remove_subtree(&mut arena);
        }
        ids[i] = Some(arena.new_node(t.data[i].clone()));
    }
    let ids: Vec<NodeId> = ids.into_iter().map(|x| x.unwrap()).collect();
    // link: per parent, children in a shuffled order, each next to an already linked sibling
    let mut kids: Vec<Vec<usize>> = vec![vec![]; n];
    for i in 1..n {
        kids[t.par[i] - 1].push(i);
    }
    for p in order {
        let k = &kids[p];
        let mut todo: Vec<usize> = (0..k.len()).collect();
        let mut done: Vec<usize> = vec![];
        while !todo.is_empty() {
            let x = todo.swap_remove(r.next(todo.len()));
            if let Some(nx) = done.iter().filter(|&&d| d > x).min() {
                ids[k[*nx]].insert_before(ids[k[x]], &mut arena);
            } else if let Some(pv) = done.iter().filter(|&&d| d < x).max() {
                ids[k[*pv]].insert_after(ids[k[x]], &mut arena);
            } else {
                ids[p].append(ids[k[x]], &mut arena);
            }
            done.push(x);
        }
    }
    finish(Tree { arena, root: ids[0] }, ids)
}
fn finish(tree: Tree<Ty>, ids: Vec<NodeId>) -> Built {
    let back = ids.iter().enumerate().map(|(i, &x)| (x, i + 1)).collect();
    Built { tree, ids, back }
}

// ---------------------------------------------------------------- two other tree types
/// Delegates to `Tree`, adds opaqueness.
struct OTree<'a> {
    t: &'a Tree<Ty>,
    opq: HashSet<NodeId>,
}
impl DiffTree for OTree<'_> {
    type Types = Ty;
    fn root(&self) -> NodeId { DiffTree::root(self.t) }
    fn node_count(&self) -> usize { DiffTree::node_count(self.t) }
    fn hash(&self, id: NodeId) -> NodeHash { DiffTree::hash(self.t, id) }
    fn kind(&self, id: NodeId) -> &Kind { DiffTree::kind(self.t, id) }
    fn properties(&self, id: NodeId) -> &Props { DiffTree::properties(self.t, id) }
    fn text(&self, id: NodeId) -> Option<&Text> { DiffTree::text(self.t, id) }
    fn parent(&self, id: NodeId) -> Option<NodeId> { DiffTree::parent(self.t, id) }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::children(self.t, id) }
    fn child_count(&self, id: NodeId) -> usize { DiffTree::child_count(self.t, id) }
    fn position(&self, id: NodeId) -> usize { DiffTree::position(self.t, id) }
    fn height(&self, id: NodeId) -> usize { DiffTree::height(self.t, id) }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::iter(self.t) }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::post_order(self.t) }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::descendants(self.t, id) }
    fn is_opaque(&self, id: NodeId) -> bool { self.opq.contains(&id) }
}

/// Answers from its own tables, computed by the harness, not by `Tree`; relies on the trait's
/// default `child_count` and `position`, and on the default `is_opaque` unless a node is opaque.
struct VTree<'a> {
    b: &'a Built,
    par: Vec<usize>,
    kids: Vec<Vec<NodeId>>,
    ht: Vec<usize>,
    pre: Vec<Vec<NodeId>>, // descendants in document order
    post: Vec<NodeId>,
    opq: Vec<bool>,
    data: &'a [NodeData<Ty>],
}
impl<'a> VTree<'a> {
    fn new(b: &'a Built, t: &'a InTree) -> Self {
        let n = t.par.len();
        let mut kids = vec![vec![]; n];
        let mut kn: Vec<Vec<usize>> = vec![vec![]; n];
        for i in 1..n {
            kids[t.par[i] - 1].push(b.ids[i]);
            kn[t.par[i] - 1].push(i);
        }
        let mut ht = vec![0; n];
        let mut sz = vec![1; n];
        for i in (1..n).rev() {
            let p = t.par[i] - 1;
            ht[p] = ht[p].max(ht[i] + 1);
            sz[p] += sz[i];
        }
        let pre = (0..n).map(|i| (i..i + sz[i]).map(|j| b.ids[j]).collect()).collect();
        fn walk(i: usize, kn: &[Vec<usize>], ids: &[NodeId], out: &mut Vec<NodeId>) {
            for &c in &kn[i] {
                walk(c, kn, ids, out);
            }
            out.push(ids[i]);
        }
        let mut post = vec![];
        walk(0, &kn, &b.ids, &mut post);
        VTree { b, par: t.par.clone(), kids, ht, pre, post, opq: t.opq.clone(), data: &t.data }
    }
    fn ix(&self, id: NodeId) -> usize {
        self.b.back[&id] - 1
    }
}
impl DiffTree for VTree<'_> {
    type Types = Ty;
    fn root(&self) -> NodeId { self.b.ids[0] }
    fn node_count(&self) -> usize { self.par.len() }
    fn hash(&self, id: NodeId) -> NodeHash { self.data[self.ix(id)].hash }
    fn kind(&self, id: NodeId) -> &Kind { &self.data[self.ix(id)].kind }
    fn properties(&self, id: NodeId) -> &Props { &self.data[self.ix(id)].properties }
    fn text(&self, id: NodeId) -> Option<&Text> { self.data[self.ix(id)].text.as_ref() }
    fn parent(&self, id: NodeId) -> Option<NodeId> {
        let p = self.par[self.ix(id)];
        (p > 0).then(|| self.b.ids[p - 1])
    }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { self.kids[self.ix(id)].iter().copied() }
    fn height(&self, id: NodeId) -> usize { self.ht[self.ix(id)] }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ { self.pre[0].iter().copied() }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ { self.post.iter().copied() }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { self.pre[self.ix(id)].iter().copied() }
    fn is_opaque(&self, id: NodeId) -> bool { self.opq[self.ix(id)] }
}

// ---------------------------------------------------------------- schedules
/// Two threads that take turns: each goes on for its own number of tree queries, then lets the other go on.
/// One that does not come back in time (it may wait for something the other holds) ends the taking of turns.
struct Sched {
    state: Mutex<(usize, [bool; 2], bool)>, // whose turn, who has ended, free
    cv: Condvar,
}
static PATIENCE: AtomicU64 = AtomicU64::new(1000);
impl Sched {
    fn wait(&self, me: usize) {
        let mut g = self.state.lock().unwrap();
        while g.0 != me && !g.1[1 - me] && !g.2 {
            let (g2, t) = self.cv.wait_timeout(g, Duration::from_millis(PATIENCE.load(Ordering::Relaxed))).unwrap();
            g = g2;
            if t.timed_out() {
                g.2 = true;
                PATIENCE.store(5, Ordering::Relaxed);
            }
        }
        drop(g);
        self.cv.notify_all();
    }
    fn pass(&self, me: usize) {
        self.state.lock().unwrap().0 = 1 - me;
        self.cv.notify_all();
        self.wait(me);
    }
    fn end(&self, me: usize) {
        let mut g = self.state.lock().unwrap();
        g.1[me] = true;
        g.0 = 1 - me;
        drop(g);
        self.cv.notify_all();
    }
}
struct Gate {
    sched: Arc<Sched>,
    me: usize,
    slice: usize,
    left: Cell<usize>,
}
impl Gate {
    fn tick(&self) {
        let l = self.left.get();
        if l > 1 {
            self.left.set(l - 1);
        } else {
            self.left.set(self.slice);
            self.sched.pass(self.me);
        }
    }
}
/// Delegates everything, and takes turns with another thread.
struct HTree<'a, T> {
    t: &'a T,
    gate: Option<&'a Gate>,
}
impl<T> HTree<'_, T> {
    fn tick(&self) {
        if let Some(g) = self.gate {
            g.tick()
        }
    }
}
impl<T: DiffTree<Types = Ty>> DiffTree for HTree<'_, T> {
    type Types = Ty;
    fn root(&self) -> NodeId { self.tick(); self.t.root() }
    fn node_count(&self) -> usize { self.tick(); self.t.node_count() }
    fn hash(&self, id: NodeId) -> NodeHash { self.tick(); self.t.hash(id) }
    fn kind(&self, id: NodeId) -> &Kind { self.tick(); self.t.kind(id) }
    fn properties(&self, id: NodeId) -> &Props { self.tick(); self.t.properties(id) }
    fn text(&self, id: NodeId) -> Option<&Text> { self.tick(); self.t.text(id) }
    fn parent(&self, id: NodeId) -> Option<NodeId> { self.tick(); self.t.parent(id) }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { self.tick(); self.t.children(id).inspect(|_| self.tick()) }
    fn child_count(&self, id: NodeId) -> usize { self.tick(); self.t.child_count(id) }
    fn position(&self, id: NodeId) -> usize { self.tick(); self.t.position(id) }
    fn height(&self, id: NodeId) -> usize { self.tick(); self.t.height(id) }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ { self.tick(); self.t.iter().inspect(|_| self.tick()) }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ { self.tick(); self.t.post_order().inspect(|_| self.tick()) }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { self.tick(); self.t.descendants(id).inspect(|_| self.tick()) }
    fn is_opaque(&self, id: NodeId) -> bool { self.tick(); self.t.is_opaque(id) }
}
/// `Q sliceA sliceB R... R...`: two requests, taking turns; both answers in one line.
fn run_two(t: &mut Toks) -> String {
    let slices = [t.u(), t.u()];
    let reqs: Vec<Req> = (0..2).map(|_| { assert_eq!(t.s(), "R"); Req::read(t) }).collect();
    let sched = Arc::new(Sched { state: Mutex::new((0, [false; 2], false)), cv: Condvar::new() });
    let outs: Vec<String> = std::thread::scope(|sc| {
        let hs: Vec<_> = reqs.iter().enumerate().map(|(me, q)| {
            let sched = sched.clone();
            let slice = slices[me];
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                let gate = Gate { sched: sched.clone(), me, slice, left: Cell::new(slice) };
                sched.wait(me);
                let o = run_diff(q, Some(&gate));
                sched.end(me);
                o
            }).unwrap()
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    format!(r#"{{"two":[{},{}]}}"#, outs[0], outs[1])
}

// ---------------------------------------------------------------- recording
fn jlist<T>(out: &mut String, it: impl IntoIterator<Item = T>, mut f: impl FnMut(&mut String, T)) {
    out.push('[');
    for (i, x) in it.into_iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        f(out, x);
    }
    out.push(']');
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => o.push_str("'"),
            c if (c as u32) < 32 => o.push(' '),
            c if (c as u32) > 126 => o.push('?'),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn ops_json(ops: &[EditOp<Ty>], a: &Built, b: &Built) -> String {
    let na = |x: &NodeId| a.back.get(x).copied().unwrap_or(0);
    let nb = |x: &NodeId| b.back.get(x).copied().unwrap_or(0);
    let mut o = String::new();
    jlist(&mut o, ops, |o, op| {
        let _ = match op {
            EditOp::Insert { node_b, parent_b, position, kind } => {
                write!(o, r#"{{"o":"I","b":{},"p":{},"i":{},"k":{}}}"#, nb(node_b), nb(parent_b), position, kind.0)
            }
            EditOp::Delete { node_a } => write!(o, r#"{{"o":"D","a":{}}}"#, na(node_a)),
            EditOp::Move { node_a, node_b, new_parent_b, new_position } => write!(
                o, r#"{{"o":"M","a":{},"b":{},"p":{},"i":{}}}"#, na(node_a), nb(node_b), nb(new_parent_b), new_position
            ),
            EditOp::SetText { node_a, node_b, text } => {
                write!(o, r#"{{"o":"T","a":{},"b":{},"t":{}}}"#, na(node_a), nb(node_b), text.0)
            }
            EditOp::UpdateProperties { node_a, node_b, changes } => {
                let _ = write!(o, r#"{{"o":"U","a":{},"b":{},"c":"#, na(node_a), nb(node_b));
                jlist(o, changes, |o, c| {
                    let _ = match &c.value {
                        PropValue::Same => write!(o, "[{},true,0]", c.key),
                        PropValue::Different(v) => write!(o, "[{},false,{}]", c.key, v),
                    };
                });
                write!(o, "}}")
            }
        };
    });
    o
}
fn empty_run(id: i64, msg: &str) -> String {
    format!(
        r#"{{"id":{id},"panic":{},"pairs":[],"fwd":[],"bwd":[],"ca":[],"cb":[],"len":0,"emp":true,"ops":[],"ops2":[],"pairs2":[]}}"#,
        jstr(msg)
    )
}
fn run_json(id: i64, m: &Matching, ops: &str, ops2: &str, m2: &Matching, a: &Built, b: &Built) -> String {
    let na = |x: NodeId| a.back.get(&x).copied().unwrap_or(0);
    let nb = |x: NodeId| b.back.get(&x).copied().unwrap_or(0);
    let mut o = format!(r#"{{"id":{id},"panic":"","pairs":"#);
    jlist(&mut o, m.pairs(), |o, (x, y)| {
        let _ = write!(o, "[{},{}]", na(x), nb(y));
    });
    o.push_str(r#","fwd":"#);
    jlist(&mut o, &a.ids, |o, &x| {
        let _ = write!(o, "{}", m.get_b(x).map(nb).unwrap_or(0));
    });
    o.push_str(r#","bwd":"#);
    jlist(&mut o, &b.ids, |o, &y| {
        let _ = write!(o, "{}", m.get_a(y).map(na).unwrap_or(0));
    });
    o.push_str(r#","ca":"#);
    jlist(&mut o, &a.ids, |o, &x| {
        let _ = write!(o, "{}", m.contains_a(x));
    });
    o.push_str(r#","cb":"#);
    jlist(&mut o, &b.ids, |o, &y| {
        let _ = write!(o, "{}", m.contains_b(y));
    });
    let _ = write!(o, r#","len":{},"emp":{},"ops":{ops},"ops2":{ops2},"pairs2":"#, m.len(), m.is_empty());
    jlist(&mut o, m2.pairs(), |o, (x, y)| {
        let _ = write!(o, "[{},{}]", na(x), nb(y));
    });
    o.push('}');
    o
}

#[derive(Clone, Copy)]
struct Cfg {
    mode: usize,
    th: f64,
    mh: usize,
}
fn go<TA: DiffTree<Types = Ty>, TB: DiffTree<Types = Ty>>(
    id: i64, c: Cfg, ta: &TA, tb: &TB, a: &Built, b: &Built, given: &[(usize, usize)],
) -> String {
    let cfg = MatchingConfig { similarity_threshold: c.th, min_height: c.mh };
    let m = if c.mode == 1 {
        let mut m = Matching::new();
        for &(x, y) in given {
            m.add(a.ids[x - 1], b.ids[y - 1]);
        }
        m
    } else {
        compute_matching(ta, tb, &cfg)
    };
    let ops = ops_json(&generate_edit_script(ta, tb, &m), a, b);
    run_json(id, &m, &ops, "[]", &Matching::new(), a, b)
}
/// Mode 2: the one-call entry points next to the two-call one (both trees of one type).
fn go_same<T: DiffTree<Types = Ty>>(id: i64, c: Cfg, ta: &T, tb: &T, a: &Built, b: &Built, given: &[(usize, usize)]) -> String {
    if c.mode != 2 {
        return go(id, c, ta, tb, a, b, given);
    }
    let cfg = MatchingConfig { similarity_threshold: c.th, min_height: c.mh };
    let m = compute_matching(ta, tb, &cfg);
    let ops = ops_json(&generate_edit_script(ta, tb, &m), a, b);
    let ops2 = ops_json(&diff_trees(ta, tb, &cfg), a, b);
    let (ops3, m3) = diff_trees_with_matching(ta, tb, &cfg);
    let ops3 = ops_json(&ops3, a, b);
    // both one-call scripts have to be the script
    run_json(id, &m, &ops, if ops2 == ops { &ops3 } else { &ops2 }, &m3, a, b)
}

struct Req {
    id: i64,
    rep: (usize, usize),
    lay: (u64, u64),
    room: (usize, usize),
    c: Cfg,
    ia: InTree,
    ib: InTree,
    given: Vec<(usize, usize)>,
}
impl Req {
    fn read(t: &mut Toks) -> Req {
        let id = t.i();
        let mode = t.u();
        let (ra, la, rb, lb) = (t.u(), t.i() as u64, t.u(), t.i() as u64);
        let room = (t.u(), t.u());
        let th = t.i() as f64 / 100.0;
        let mh = t.u();
        let (ia, ib) = (t.tree(), t.tree());
        let np = t.u();
        let given: Vec<(usize, usize)> = (0..np).map(|_| (t.u(), t.u())).collect();
        Req { id, rep: (ra, rb), lay: (la, lb), room, c: Cfg { mode, th, mh }, ia, ib, given }
    }
}
fn run_diff(q: &Req, gate: Option<&Gate>) -> String {
    let Req { id, rep: (ra, rb), c, ref ia, ref ib, ref given, .. } = *q;
    let (a, b) = (build(ia, q.lay.0, q.room.0), build(ib, q.lay.1, q.room.1));
    let set = |t: &InTree, b: &Built| b.ids.iter().zip(&t.opq).filter(|e| *e.1).map(|e| *e.0).collect::<HashSet<_>>();
    let (oa, ob) = (OTree { t: &a.tree, opq: set(ia, &a) }, OTree { t: &b.tree, opq: set(ib, &b) });
    let (va, vb) = (VTree::new(&a, ia), VTree::new(&b, ib));
    let (plain_a, plain_b) = (ra == 0 && oa.opq.is_empty(), rb == 0 && ob.opq.is_empty());
    let out = catch_unwind(AssertUnwindSafe(|| match (plain_a, ra == 2, plain_b, rb == 2) {
        // taking turns: the same trees behind a delegate
        (_, true, _, true) if gate.is_some() => go_same(id, c, &HTree { t: &va, gate }, &HTree { t: &vb, gate }, &a, &b, given),
        (_, true, _, _) if gate.is_some() => go(id, c, &HTree { t: &va, gate }, &HTree { t: &ob, gate }, &a, &b, given),
        (_, _, _, true) if gate.is_some() => go(id, c, &HTree { t: &oa, gate }, &HTree { t: &vb, gate }, &a, &b, given),
        _ if gate.is_some() => go_same(id, c, &HTree { t: &oa, gate }, &HTree { t: &ob, gate }, &a, &b, given),
        (true, _, true, _) => go_same(id, c, &a.tree, &b.tree, &a, &b, given),
        (true, _, false, true) => go(id, c, &a.tree, &vb, &a, &b, given),
        (true, _, false, false) => go(id, c, &a.tree, &ob, &a, &b, given),
        (false, true, true, _) => go(id, c, &va, &b.tree, &a, &b, given),
        (false, true, false, true) => go_same(id, c, &va, &vb, &a, &b, given),
        (false, true, false, false) => go(id, c, &va, &ob, &a, &b, given),
        (false, false, true, _) => go(id, c, &oa, &b.tree, &a, &b, given),
        (false, false, false, true) => go(id, c, &oa, &vb, &a, &b, given),
        (false, false, false, false) => go_same(id, c, &oa, &ob, &a, &b, given),
    }));
    out.unwrap_or_else(|e| empty_run(id, &panic_msg(e)))
}
fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    let s = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into());
    format!("panicked: {s}")
}

// ---------------------------------------------------------------- tree store histories (C12)
/// Only the required methods delegate; `position`, `child_count`, `is_opaque` are the trait's own.
struct DTree<'a>(&'a Tree<Ty>);
impl DiffTree for DTree<'_> {
    type Types = Ty;
    fn root(&self) -> NodeId { DiffTree::root(self.0) }
    fn node_count(&self) -> usize { DiffTree::node_count(self.0) }
    fn hash(&self, id: NodeId) -> NodeHash { DiffTree::hash(self.0, id) }
    fn kind(&self, id: NodeId) -> &Kind { DiffTree::kind(self.0, id) }
    fn properties(&self, id: NodeId) -> &Props { DiffTree::properties(self.0, id) }
    fn text(&self, id: NodeId) -> Option<&Text> { DiffTree::text(self.0, id) }
    fn parent(&self, id: NodeId) -> Option<NodeId> { DiffTree::parent(self.0, id) }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::children(self.0, id) }
    fn height(&self, id: NodeId) -> usize { DiffTree::height(self.0, id) }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::iter(self.0) }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::post_order(self.0) }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::descendants(self.0, id) }
}
type NodeObs = (usize, Vec<usize>, usize, usize, usize, Vec<usize>, i64);
fn obs_json(o: &mut String, name: &dyn Fn(NodeId) -> usize, root: NodeId, iter: Vec<NodeId>, post: Vec<NodeId>, nodes: Vec<NodeObs>) {
    let _ = write!(o, r#"{{"root":{},"iter":"#, name(root));
    jlist(o, iter, |o, x| { let _ = write!(o, "{}", name(x)); });
    o.push_str(r#","post":"#);
    jlist(o, post, |o, x| { let _ = write!(o, "{}", name(x)); });
    o.push_str(r#","nodes":"#);
    jlist(o, nodes, |o, (p, k, cc, pos, h, d, kind)| {
        let _ = write!(o, r#"{{"par":{p},"cc":{cc},"pos":{pos},"ht":{h},"kind":{kind},"kids":"#);
        jlist(o, k, |o, x| { let _ = write!(o, "{x}"); });
        o.push_str(r#","desc":"#);
        jlist(o, d, |o, x| { let _ = write!(o, "{x}"); });
        o.push('}');
    });
    o.push('}');
}
fn observe<T: DiffTree<Types = Ty>>(o: &mut String, t: &T, live: &[NodeId], name: &dyn Fn(NodeId) -> usize) {
    let nodes = live
        .iter()
        .map(|&x| {
            (
                t.parent(x).map(name).unwrap_or(0),
                t.children(x).map(name).collect(),
                t.child_count(x),
                t.position(x),
                t.height(x),
                t.descendants(x).map(name).collect(),
                if t.is_opaque(x) { -1 } else { t.kind(x).0 },
            )
        })
        .collect();
    obs_json(o, name, t.root(), t.iter().collect(), t.post_order().collect(), nodes);
}
fn observe_tree(o: &mut String, t: &Tree<Ty>, live: &[NodeId], name: &dyn Fn(NodeId) -> usize) {
    let nodes = live
        .iter()
        .map(|&x| {
            (
                t.parent(x).map(name).unwrap_or(0),
                t.children(x).map(name).collect(),
                t.child_count(x),
                t.position(x),
                t.height(x),
                t.descendants(x).map(name).collect(),
                t.get(x).kind.0,
            )
        })
        .collect();
    obs_json(o, name, t.root, t.iter().collect(), t.post_order().collect(), nodes);
}
/// `S id last room nops (op a b)*`: one history, `room` other nodes behind the root in the arena; a JSON object with one observation per operation, or one of the end.
fn run_store(t: &mut Toks) -> String {
    let id = t.i();
    let last = t.i() != 0;
    let room = t.u();
    let n = t.u();
    let ops: Vec<(String, usize, usize)> = (0..n).map(|_| (t.s().to_string(), t.u(), t.u())).collect();
    let out = catch_unwind(AssertUnwindSafe(|| {
        let data = |k: usize| NodeData::<Ty>::new(NodeHash(k as u64), Kind(k as i64), Props::default(), None);
        let mut tree: Tree<Ty> = Tree::new(data(1));
        for _ in 0..room {
            tree.arena.new_node(data(1));
        }
        let mut ids: Vec<Option<NodeId>> = vec![Some(tree.root)];
        let mut o = format!(r#"{{"id":{id},"panic":"","steps":["#);
        for (i, (op, x, y)) in ops.iter().enumerate() {
            let g = |k: usize| ids[k - 1].expect("live name");
            match op.as_str() {
                "add" => {
                    let c = tree.add_child(g(*x), data(ids.len() + 1));
                    ids.push(Some(c));
                }
                "new" => {
                    let c = tree.arena.new_node(data(ids.len() + 1));
                    ids.push(Some(c));
                }
                "det" => g(*x).detach(&mut tree.arena),
                "app" => g(*x).append(g(*y), &mut tree.arena),
                "pre" => g(*x).prepend(g(*y), &mut tree.arena),
                "bef" => g(*x).insert_before(g(*y), &mut tree.arena),
                "aft" => g(*x).insert_after(g(*y), &mut tree.arena),
                "rms" => {
                    let gone: Vec<NodeId> = g(*x).descendants(&tree.arena).collect();
                    g(*x).remove_subtree(&mut tree.arena);
                    for e in ids.iter_mut() {
                        if e.is_some_and(|v| gone.contains(&v)) {
                            *e = None;
                        }
                    }
                }
                "rm" => {
                    g(*x).remove(&mut tree.arena);
                    ids[*x - 1] = None;
                }
                _ => unreachable!("{op}"),
            }
            if last && i + 1 < ops.len() {
                continue;
            }
            let live: Vec<NodeId> = ids.iter().flatten().copied().collect();
            let names: HashMap<NodeId, usize> =
                ids.iter().enumerate().filter_map(|(i, e)| e.map(|v| (v, i + 1))).collect();
            let name = |v: NodeId| names.get(&v).copied().unwrap_or(9999);
            if i > 0 && !last {
                o.push(',');
            }
            o.push_str(r#"{"live":"#);
            jlist(&mut o, &live, |o, &x| { let _ = write!(o, "{}", name(x)); });
            o.push_str(r#","tree":"#);
            observe_tree(&mut o, &tree, &live, &name);
            o.push_str(r#","diff":"#);
            observe(&mut o, &tree, &live, &name);
            o.push_str(r#","dflt":"#);
            observe(&mut o, &DTree(&tree), &live, &name);
            o.push('}');
        }
        o.push_str("]}");
        o
    }));
    out.unwrap_or_else(|e| format!(r#"{{"id":{id},"panic":{},"steps":[]}}"#, jstr(&panic_msg(e))))
}

// ---------------------------------------------------------------- matching container histories (C13)
/// `P id size stride capa capb nadds (a b)*`: `size` nodes on either side, in groups of four whose arena
/// indices are `stride` apart; cap -1 = `new`.
fn run_pairing(t: &mut Toks) -> String {
    let id = t.i();
    let size = t.u();
    let stride = t.u();
    let (ca, cb) = (t.i(), t.i());
    let n = t.u();
    let adds: Vec<(usize, usize)> = (0..n).map(|_| (t.u(), t.u())).collect();
    let out = catch_unwind(AssertUnwindSafe(|| {
        let mk = || {
            let mut ar: Arena<u8> = Arena::new();
            let mut out = vec![];
            let mut at = 0;
            for k in 0..size {
                while at < k / 4 * stride + k % 4 {
                    ar.new_node(0);
                    at += 1;
                }
                out.push(ar.new_node(0));
                at += 1;
            }
            out
        };
        let (na, nb) = (mk(), mk());
        let ia: HashMap<NodeId, usize> = na.iter().enumerate().map(|(i, &x)| (x, i + 1)).collect();
        let ib: HashMap<NodeId, usize> = nb.iter().enumerate().map(|(i, &x)| (x, i + 1)).collect();
        let mut m = if ca == -2 { Matching::default() } else if ca < 0 { Matching::new() } else { Matching::with_capacity(ca as usize, cb as usize) };
        let mut o = format!(r#"{{"id":{id},"panic":"","steps":["#);
        for i in 0..=adds.len() {
            if i > 0 {
                let (x, y) = adds[i - 1];
                m.add(na[x - 1], nb[y - 1]);
                o.push(',');
            }
            let _ = write!(o, r#"{{"len":{},"emp":{},"pairs":"#, m.len(), m.is_empty());
            jlist(&mut o, m.pairs(), |o, (x, y)| { let _ = write!(o, "[{},{}]", ia[&x], ib[&y]); });
            o.push_str(r#","fwd":"#);
            jlist(&mut o, &na, |o, &x| { let _ = write!(o, "{}", m.get_b(x).map(|y| ib[&y]).unwrap_or(0)); });
            o.push_str(r#","bwd":"#);
            jlist(&mut o, &nb, |o, &y| { let _ = write!(o, "{}", m.get_a(y).map(|x| ia[&x]).unwrap_or(0)); });
            o.push_str(r#","ca":"#);
            jlist(&mut o, &na, |o, &x| { let _ = write!(o, "{}", m.contains_a(x)); });
            o.push_str(r#","cb":"#);
            jlist(&mut o, &nb, |o, &y| { let _ = write!(o, "{}", m.contains_b(y)); });
            o.push('}');
        }
        o.push_str("]}");
        o
    }));
    out.unwrap_or_else(|e| format!(r#"{{"id":{id},"panic":{},"steps":[]}}"#, jstr(&panic_msg(e))))
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // deep trees: the code under test may recurse; run in a thread with a roomy stack
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(|| {
            let stdin = std::io::stdin();
            let stdout = std::io::stdout();
            let mut out = std::io::BufWriter::new(stdout.lock());
            for line in stdin.lock().lines() {
                let line = line.expect("stdin");
                let mut t = Toks(line.split_ascii_whitespace());
                let r = match t.s() {
                    "R" => run_diff(&Req::read(&mut t), None),
                    "Q" => run_two(&mut t),
                    "S" => run_store(&mut t),
                    "P" => run_pairing(&mut t),
                    x => panic!("unknown line {x}"),
                };
                let _ = writeln!(out, "{r}");
                let _ = out.flush();
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
