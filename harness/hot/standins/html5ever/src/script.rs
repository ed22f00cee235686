//! Calls on a sink, as a tree builder could make them. The next parse on this thread performs them instead of
//! parsing. Handles are numbered from 0 (the document) in order of creation.
use crate::names::*;
use crate::tree_builder::*;
use std::cell::RefCell;
use tendril::StrTendril;

#[derive(Clone, Debug)]
pub enum Text { New(String), Slice(usize, usize) }
#[derive(Clone, Debug)]
pub enum Call {
    Element(QualName, Vec<(QualName, Text)>),
    Comment(Text),
    Pi,
    Doctype(Text),
    AppendNode(usize, usize),
    AppendText(usize, Text),
    BeforeNode(usize, usize),
    BeforeText(usize, Text),
    BasedNode(usize, usize, usize),
    BasedText(usize, usize, Text),
    AddAttrs(usize, Vec<(QualName, Text)>),
    Remove(usize),
    Reparent(usize, usize),
    Error(String),
    /// asks elem_name and records namespace and local name
    ElemName(usize),
}
thread_local! {
    static NEXT: RefCell<Option<Vec<Call>>> = const { RefCell::new(None) };
    static ANSWERS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
pub fn set(calls: Vec<Call>) { NEXT.with(|n| *n.borrow_mut() = Some(calls)); ANSWERS.with(|a| a.borrow_mut().clear()) }
pub fn answers() -> Vec<String> { ANSWERS.with(|a| a.borrow().clone()) }
pub(crate) fn take() -> Option<Vec<Call>> { NEXT.with(|n| n.borrow_mut().take()) }

pub(crate) fn run<S: TreeSink>(s: &S, calls: Vec<Call>, input: &StrTendril) {
    let t = |x: Text| match x { Text::New(v) => StrTendril::from(v), Text::Slice(a, n) => input.subtendril(a as u32, n as u32) };
    let at = |v: Vec<(QualName, Text)>| v.into_iter().map(|(name, x)| Attribute { name, value: t(x) }).collect::<Vec<_>>();
    let mut h = vec![s.get_document()];
    for c in calls {
        match c {
            Call::Element(n, a) => { let x = s.create_element(n, at(a), ElementFlags::default()); h.push(x) }
            Call::Comment(x) => { let x = s.create_comment(t(x)); h.push(x) }
            Call::Pi => { let x = s.create_pi("t".into(), "d".into()); h.push(x) }
            Call::Doctype(x) => s.append_doctype_to_document(t(x), "".into(), "".into()),
            Call::AppendNode(p, c) => s.append(&h[p], NodeOrText::AppendNode(h[c].clone())),
            Call::AppendText(p, x) => s.append(&h[p], NodeOrText::AppendText(t(x))),
            Call::BeforeNode(p, c) => s.append_before_sibling(&h[p], NodeOrText::AppendNode(h[c].clone())),
            Call::BeforeText(p, x) => s.append_before_sibling(&h[p], NodeOrText::AppendText(t(x))),
            Call::BasedNode(e, p, c) => s.append_based_on_parent_node(&h[e], &h[p], NodeOrText::AppendNode(h[c].clone())),
            Call::BasedText(e, p, x) => s.append_based_on_parent_node(&h[e], &h[p], NodeOrText::AppendText(t(x))),
            Call::AddAttrs(e, a) => s.add_attrs_if_missing(&h[e], at(a)),
            Call::Remove(x) => s.remove_from_parent(&h[x]),
            Call::Reparent(x, y) => s.reparent_children(&h[x], &h[y]),
            Call::Error(e) => s.parse_error(e.into()),
            Call::ElemName(x) => { let n = s.elem_name(&h[x]); let a = format!("{}|{}", n.ns(), n.local_name()); ANSWERS.with(|v| v.borrow_mut().push(a)) }
        }
    }
}
