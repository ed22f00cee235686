#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the table of planted bugs (edits of original lines of /repo + a demonstration)."""
import json, os, subprocess, sys, shutil
V = '/verif'
PRE = r'''
#![allow(dead_code, unused)]
use cinereus::indextree::NodeId;
use cinereus::*;
use std::collections::HashSet;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct P(pub Vec<(i64, i64)>);
impl Properties for P {
    type Key = i64;
    type Value = i64;
    fn similarity(&self, o: &Self) -> f64 {
        if self.0.is_empty() && o.0.is_empty() { return 1.0; }
        self.0.iter().filter(|e| o.0.contains(e)).count() as f64 / self.0.len().max(o.0.len()) as f64
    }
    fn diff(&self, o: &Self) -> Vec<PropertyInFinalState<i64, i64>> {
        o.0.iter().map(|e| PropertyInFinalState { key: e.0, value: if self.0.contains(e) { PropValue::Same } else { PropValue::Different(e.1) } }).collect()
    }
    fn is_empty(&self) -> bool { self.0.is_empty() }
    fn len(&self) -> usize { self.0.len() }
}
pub type Ty = SimpleTypes<&'static str, P, String>;
pub struct T { pub t: Tree<Ty>, pub ids: Vec<NodeId>, pub opq: HashSet<NodeId> }
/// kind with ! = opaque, kind with =text = text
pub struct N(pub &'static str, pub Vec<(i64, i64)>, pub Vec<N>);
pub fn n(k: &'static str, c: Vec<N>) -> N { N(k, vec![], c) }
fn h(x: &N) -> u64 {
    let mut s = 1469598103934665603u64;
    let mut f = |v: u64| { s = (s ^ v).wrapping_mul(1099511628211).rotate_left(17) };
    for b in x.0.bytes() { f(b as u64); }
    if !NOPROPHASH.with(|c| c.get()) { for p in &x.1 { f(p.0 as u64 + 7777); f(p.1 as u64 + 99); } }
    for c in &x.2 { f(h(c)); }
    s
}
thread_local! { pub static NOPROPHASH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
fn data(x: &N) -> NodeData<Ty> {
    let k = x.0.trim_end_matches('!');
    let (k, t) = match k.split_once('=') { Some((k, t)) => (k, Some(t.to_string())), None => (k, None) };
    NodeData::new(NodeHash(h(x)), k, P(x.1.clone()), t)
}
pub fn tree(x: &N) -> T {
    let t: Tree<Ty> = Tree::new(data(x));
    let mut r = T { ids: vec![t.root], t, opq: HashSet::new() };
    fn add(r: &mut T, me: NodeId, x: &N) {
        if x.0.ends_with('!') { r.opq.insert(me); }
        for c in &x.2 { let id = r.t.add_child(me, data(c)); r.ids.push(id); add(r, id, c); }
    }
    let root = r.t.root;
    add(&mut r, root, x);
    r
}
impl DiffTree for T {
    type Types = Ty;
    fn root(&self) -> NodeId { self.t.root }
    fn node_count(&self) -> usize { self.ids.len() }
    fn hash(&self, id: NodeId) -> NodeHash { DiffTree::hash(&self.t, id) }
    fn kind(&self, id: NodeId) -> &&'static str { DiffTree::kind(&self.t, id) }
    fn properties(&self, id: NodeId) -> &P { DiffTree::properties(&self.t, id) }
    fn text(&self, id: NodeId) -> Option<&String> { DiffTree::text(&self.t, id) }
    fn parent(&self, id: NodeId) -> Option<NodeId> { DiffTree::parent(&self.t, id) }
    fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::children(&self.t, id) }
    fn child_count(&self, id: NodeId) -> usize { DiffTree::child_count(&self.t, id) }
    fn position(&self, id: NodeId) -> usize { DiffTree::position(&self.t, id) }
    fn height(&self, id: NodeId) -> usize { DiffTree::height(&self.t, id) }
    fn iter(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::iter(&self.t) }
    fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ { DiffTree::post_order(&self.t) }
    fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ { DiffTree::descendants(&self.t, id) }
    fn is_opaque(&self, id: NodeId) -> bool { self.opq.contains(&id) }
}
impl T {
    /// the i-th node in document order, from 0
    pub fn at(&self, i: usize) -> NodeId { self.ids[i] }
    pub fn ix(&self, id: NodeId) -> usize { self.ids.iter().position(|&x| x == id).unwrap() }
}
pub fn cfg(th: f64, mh: usize) -> MatchingConfig { MatchingConfig { similarity_threshold: th, min_height: mh } }
pub fn pairs(a: &T, b: &T, c: &MatchingConfig) -> Vec<(usize, usize)> {
    let m = compute_matching(a, b, c);
    let mut v: Vec<_> = m.pairs().map(|(x, y)| (a.ix(x), b.ix(y))).collect();
    v.sort();
    v
}
pub fn script(a: &T, b: &T, c: &MatchingConfig) -> Vec<String> {
    let m = compute_matching(a, b, c);
    generate_edit_script(a, b, &m).iter().map(|o| show(a, b, o)).collect()
}
pub fn show(a: &T, b: &T, o: &EditOp<Ty>) -> String {
    match o {
        EditOp::Insert { node_b, parent_b, position, kind } => format!("I b{} {} under b{} @{}", b.ix(*node_b), kind, b.ix(*parent_b), position),
        EditOp::Delete { node_a } => format!("D a{}", a.ix(*node_a)),
        EditOp::Move { node_a, node_b, new_parent_b, new_position } => format!("M a{} b{} under b{} @{}", a.ix(*node_a), b.ix(*node_b), b.ix(*new_parent_b), new_position),
        EditOp::SetText { node_a, node_b, text } => format!("T a{} b{} {}", a.ix(*node_a), b.ix(*node_b), text),
        EditOp::UpdateProperties { node_a, node_b, changes } => format!("U a{} b{} {:?}", a.ix(*node_a), b.ix(*node_b), changes),
    }
}
pub fn check(ok: bool, what: &str) { if !ok { eprintln!("FAILED: {what}"); std::process::exit(1); } }
'''
DEMO = r'''#!/bin/bash
# builds the demonstration against the cinereus crate in the current directory's tree and runs it
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf -- "$w"' EXIT
mkdir -p "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
cinereus = { path = "$repo/cinereus" }
T
cd "$w" && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$w/t" cargo build --offline -q 2>"$w/log" || { cat "$w/log"; exit 3; }
timeout 60 "$w/t/debug/demo"
'''
def main():
    sys.path.insert(0, f'{V}/tools')
    import bugs
    want = sys.argv[1:]
    for b in bugs.B:
        if want and b['id'] not in want: continue
        d = f'{V}/seeded/{b["id"]}'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        try:
            for f, old, new in b['edits']:
                p = f'/repo/{f}'; s = open(p).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run('git -C /repo diff', shell=True, capture_output=True, text=True).stdout
        finally: subprocess.run('git -C /repo checkout -q -- .', shell=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        if 'demo' in b: open(f'{d}/main.rs', 'w').write(PRE + b['demo']); open(f'{d}/demo.sh', 'w').write(DEMO)
        for name, text in b.get('files', {}).items(): open(f'{d}/{name}', 'w').write(text)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
main()
