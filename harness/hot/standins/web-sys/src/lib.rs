//! Stand-in for web-sys: an in-memory DOM with the behaviour of the DOM standard for the calls hotmeal-wasm makes
//! (replaceChild and friends with their errors, live child lists, attributes in order, innerHTML, custom events).
#![allow(clippy::len_without_is_empty)]
use js_sys::{Fields, Object, Reflect};
use std::cell::RefCell;
use std::rc::{Rc, Weak};
use wasm_bindgen::{JsCast, JsValue, js_class};
mod html;

#[derive(Clone, PartialEq, Debug)]
pub enum Kind { Element { name: String, ns: String }, Text, Comment, Document, Fragment }
pub struct NodeData {
    pub kind: Kind,
    pub id: u64,
    attrs: RefCell<Vec<Attr>>,
    data: RefCell<String>,
    parent: RefCell<Weak<NodeData>>,
    kids: RefCell<Vec<Rc<NodeData>>>,
    content: RefCell<Option<Rc<NodeData>>>,
    prefixed: std::cell::Cell<bool>,    // the part of the name before the colon is a prefix
}
const HTML: &str = "http://www.w3.org/1999/xhtml";
thread_local! {
    static IDS: RefCell<u64> = const { RefCell::new(0) };
    static WINDOW: RefCell<Option<Document>> = const { RefCell::new(None) };
    static EVENTS: RefCell<Vec<Dispatched>> = const { RefCell::new(Vec::new()) };
}
thread_local! {
    static RELOADS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static PATH: RefCell<Option<String>> = const { RefCell::new(None) };
}
/// what a harness sees of dispatched events
#[derive(Clone)]
pub struct Dispatched { pub target: u64, pub kind: String, pub bubbles: bool, pub content: Option<String>, pub key: Option<String>, pub element: Option<u64> }
pub mod testing {
    pub use super::Kind; use super::*;
    /// a fresh page with an empty body
    pub fn reset() -> Document {
        let d = Document::wrap(data(Kind::Document, ""));
        let h = d.create_element("html").unwrap();
        d.append_child(&h).unwrap();
        for n in ["head", "body"] { let e = d.create_element(n).unwrap(); h.append_child(&e).unwrap(); }
        WINDOW.with(|w| *w.borrow_mut() = Some(d.clone()));
        EVENTS.with(|e| e.borrow_mut().clear());
        d
    }
    /// how often the page was told to reload
    pub fn reloads() -> u64 { RELOADS.with(|r| r.take()) }
    pub fn set_path(p: Option<String>) { PATH.with(|x| *x.borrow_mut() = p) }
    /// makes d the page that window() shows
    pub fn show(d: &Document) { WINDOW.with(|w| *w.borrow_mut() = Some(d.clone())) }
    /// as the HTML parser sets attributes: any name
    pub fn raw_attribute(e: &Element, ns: &str, n: &str, v: &str) { e.raw_attr(n, v, if ns.is_empty() { None } else { Some(ns.into()) }) }
    pub fn events() -> Vec<Dispatched> { EVENTS.with(|e| std::mem::take(&mut *e.borrow_mut())) }
    /// as the HTML parser creates elements: any name
    pub fn raw_element(ns: &str, n: &str) -> Element { Element::unchecked_from_js(JsValue::Obj(data(Kind::Element { name: n.into(), ns: ns.into() }, ""))) }
    pub fn id(n: &Node) -> u64 { n.data().id }
    pub fn kind(n: &Node) -> Kind { n.data().kind.clone() }
    pub fn attributes(n: &Node) -> Vec<(String, String)> { n.data().attrs.borrow().iter().map(|a| (a.name(), a.value())).collect() }
    pub fn attribute_namespaces(n: &Node) -> Vec<String> { n.data().attrs.borrow().iter().map(|a| a.namespace_uri().unwrap_or_default()).collect() }
    /// the children of a template's content
    pub fn template(n: &Node) -> Option<Vec<Node>> { n.data().content.borrow().as_ref().map(|c| children(&Node::wrap(c.clone()))) }
    /// the prefix and the local name, if the DOM was told that there is a prefix
    pub fn prefixed(n: &Node) -> bool { n.data().prefixed.get() }
    pub fn children(n: &Node) -> Vec<Node> { n.data().kids.borrow().iter().map(|k| Node::wrap(k.clone())).collect() }
}
fn data(kind: Kind, text: &str) -> Rc<NodeData> {
    let id = IDS.with(|i| { *i.borrow_mut() += 1; *i.borrow() });
    let content = match &kind { Kind::Element { name, ns } if name == "template" && ns == HTML => Some(data(Kind::Fragment, "")), _ => None };
    Rc::new(NodeData { kind, id, attrs: Default::default(), data: RefCell::new(text.into()), parent: Default::default(), kids: Default::default(), content: RefCell::new(content), prefixed: Default::default() })
}
fn nd(v: &JsValue) -> Option<&NodeData> { v.obj::<NodeData>() }
fn is_el(v: &JsValue) -> bool { nd(v).is_some_and(|n| matches!(n.kind, Kind::Element { .. })) }
fn is_html(v: &JsValue, name: Option<&str>) -> bool { nd(v).is_some_and(|n| matches!(&n.kind, Kind::Element { name: x, ns } if ns == HTML && name.is_none_or(|y| y == x))) }

js_class!(EventTarget: Object, Object; |v| nd(v).is_some());
js_class!(Node: EventTarget, EventTarget, Object; |v| nd(v).is_some());
js_class!(CharacterData: Node, Node, EventTarget, Object; |v| nd(v).is_some_and(|n| matches!(n.kind, Kind::Text | Kind::Comment)));
js_class!(Text: CharacterData, CharacterData, Node, EventTarget, Object; |v| nd(v).is_some_and(|n| n.kind == Kind::Text));
js_class!(Comment: CharacterData, CharacterData, Node, EventTarget, Object; |v| nd(v).is_some_and(|n| n.kind == Kind::Comment));
js_class!(Element: Node, Node, EventTarget, Object; is_el);
js_class!(HtmlElement: Element, Element, Node, EventTarget, Object; |v| is_html(v, None));
js_class!(HtmlTemplateElement: HtmlElement, HtmlElement, Element, Node, EventTarget, Object; |v| is_html(v, Some("template")));
js_class!(DocumentFragment: Node, Node, EventTarget, Object; |v| nd(v).is_some_and(|n| n.kind == Kind::Fragment));
js_class!(Document: Node, Node, EventTarget, Object; |v| nd(v).is_some_and(|n| n.kind == Kind::Document));
js_class!(Event: Object, Object; |v| v.obj::<Fields>().is_some());
js_class!(CustomEvent: Event, Event, Object; |v| v.obj::<Fields>().is_some());
js_class!(CustomEventInit: Object, Object; |v| v.obj::<Fields>().is_some());

fn exc(name: &str, msg: &str) -> JsValue {
    let o = Object::new();
    let _ = Reflect::set(&o, &"message".into(), &JsValue::from_str(&format!("{name}: {msg}")));
    o.into()
}
impl Node {
    pub const ELEMENT_NODE: u16 = 1;
    pub const ATTRIBUTE_NODE: u16 = 2;
    pub const TEXT_NODE: u16 = 3;
    pub const COMMENT_NODE: u16 = 8;
    pub const DOCUMENT_NODE: u16 = 9;
    pub const DOCUMENT_FRAGMENT_NODE: u16 = 11;
    fn wrap(d: Rc<NodeData>) -> Node { Node::unchecked_from_js(JsValue::Obj(d)) }
    fn data(&self) -> &NodeData { nd(self).unwrap() }
    fn rc(&self) -> Rc<NodeData> { match AsRef::<JsValue>::as_ref(self) { JsValue::Obj(o) => o.clone().downcast().unwrap(), _ => unreachable!() } }
    pub fn node_type(&self) -> u16 { match self.data().kind { Kind::Element { .. } => 1, Kind::Text => 3, Kind::Comment => 8, Kind::Document => 9, Kind::Fragment => 11 } }
    pub fn node_name(&self) -> String {
        match &self.data().kind {
            Kind::Element { name, ns } => if ns == HTML { name.to_ascii_uppercase() } else { name.clone() },
            Kind::Text => "#text".into(), Kind::Comment => "#comment".into(), Kind::Document => "#document".into(), Kind::Fragment => "#document-fragment".into(),
        }
    }
    pub fn parent_node(&self) -> Option<Node> { self.data().parent.borrow().upgrade().map(Node::wrap) }
    pub fn parent_element(&self) -> Option<Element> { self.parent_node()?.dyn_into().ok() }
    pub fn child_nodes(&self) -> NodeList { NodeList(self.clone()) }
    pub fn has_child_nodes(&self) -> bool { !self.data().kids.borrow().is_empty() }
    pub fn first_child(&self) -> Option<Node> { self.data().kids.borrow().first().cloned().map(Node::wrap) }
    pub fn last_child(&self) -> Option<Node> { self.data().kids.borrow().last().cloned().map(Node::wrap) }
    fn index(&self) -> Option<(Node, usize)> {
        let p = self.parent_node()?;
        let i = p.data().kids.borrow().iter().position(|k| k.id == self.data().id)?;
        Some((p, i))
    }
    pub fn next_sibling(&self) -> Option<Node> { let (p, i) = self.index()?; let r = p.data().kids.borrow().get(i + 1).cloned(); r.map(Node::wrap) }
    pub fn previous_sibling(&self) -> Option<Node> { let (p, i) = self.index()?; let r = p.data().kids.borrow().get(i.checked_sub(1)?).cloned(); r.map(Node::wrap) }
    pub fn is_connected(&self) -> bool { let mut n = self.clone(); while let Some(p) = n.parent_node() { n = p } n.node_type() == 9 }
    pub fn contains(&self, o: Option<&Node>) -> bool {
        let mut n = match o { Some(n) => n.clone(), None => return false };
        loop { if n == *self { return true } match n.parent_node() { Some(p) => n = p, None => return false } }
    }
    pub fn is_same_node(&self, o: Option<&Node>) -> bool { o == Some(self) }
    pub fn text_content(&self) -> Option<String> {
        match self.data().kind {
            Kind::Document => None,
            Kind::Text | Kind::Comment => Some(self.data().data.borrow().clone()),
            _ => Some(self.data().kids.borrow().iter().map(|k| Node::wrap(k.clone())).filter(|k| k.node_type() != 8).filter_map(|k| k.text_content()).collect()),
        }
    }
    pub fn node_value(&self) -> Option<String> { match self.data().kind { Kind::Text | Kind::Comment => Some(self.data().data.borrow().clone()), _ => None } }
    pub fn set_node_value(&self, v: Option<&str>) { if matches!(self.data().kind, Kind::Text | Kind::Comment) { *self.data().data.borrow_mut() = v.unwrap_or("").into() } }
    pub fn set_text_content(&self, v: Option<&str>) {
        let v = v.unwrap_or("");
        match self.data().kind {
            Kind::Text | Kind::Comment => *self.data().data.borrow_mut() = v.into(),
            Kind::Document => {}
            _ => {
                while let Some(c) = self.first_child() { c.detach() }
                if !v.is_empty() { self.put(Node::wrap(data(Kind::Text, v)), usize::MAX) }
            }
        }
    }
    fn detach(&self) {
        if let Some((p, i)) = self.index() {
            p.data().kids.borrow_mut().remove(i);
            *self.data().parent.borrow_mut() = Weak::new()
        }
    }
    fn put(&self, n: Node, at: usize) {
        n.detach();
        *n.data().parent.borrow_mut() = Rc::downgrade(&self.rc());
        let mut k = self.data().kids.borrow_mut();
        let at = at.min(k.len());
        k.insert(at, n.rc())
    }
    fn check(&self, n: &Node) -> Result<(), JsValue> {
        if matches!(self.data().kind, Kind::Text | Kind::Comment) { return Err(exc("HierarchyRequestError", "this node type does not support children")) }
        if n.contains(Some(self)) { return Err(exc("HierarchyRequestError", "the new child contains the parent")) }
        if n.node_type() == 9 { return Err(exc("HierarchyRequestError", "a document cannot be a child")) }
        Ok(())
    }
    /// the nodes that inserting n inserts
    fn parts(n: &Node) -> Vec<Node> { if n.node_type() == 11 { testing::children(n) } else { vec![n.clone()] } }
    pub fn append_child(&self, n: &Node) -> Result<Node, JsValue> { self.insert_before(n, None) }
    pub fn insert_before(&self, n: &Node, before: Option<&Node>) -> Result<Node, JsValue> {
        self.check(n)?;
        if let Some(b) = before && b.parent_node().as_ref() != Some(self) { return Err(exc("NotFoundError", "the reference node is not a child")) }
        let mut before = before.cloned();
        if before.as_ref() == Some(n) { before = n.next_sibling() }
        for x in Self::parts(n) {
            x.detach();
            let at = before.as_ref().and_then(|b| b.index()).map_or(usize::MAX, |x| x.1);
            self.put(x, at)
        }
        Ok(n.clone())
    }
    pub fn replace_child(&self, n: &Node, child: &Node) -> Result<Node, JsValue> {
        self.check(n)?;
        if child.parent_node().as_ref() != Some(self) { return Err(exc("NotFoundError", "the node to be replaced is not a child of this node")) }
        let mut next = child.next_sibling();
        if next.as_ref() == Some(n) { next = n.next_sibling() }
        child.detach();
        for x in Self::parts(n) {
            x.detach();
            let at = next.as_ref().and_then(|b| b.index()).map_or(usize::MAX, |x| x.1);
            self.put(x, at)
        }
        Ok(child.clone())
    }
    pub fn remove_child(&self, child: &Node) -> Result<Node, JsValue> {
        if child.parent_node().as_ref() != Some(self) { return Err(exc("NotFoundError", "the node to be removed is not a child of this node")) }
        child.detach();
        Ok(child.clone())
    }
    pub fn clone_node_with_deep(&self, deep: bool) -> Result<Node, JsValue> {
        let c = Node::wrap(data(self.data().kind.clone(), &self.data().data.borrow()));
        for a in self.data().attrs.borrow().iter() { c.data().attrs.borrow_mut().push(Attr::make(&a.name(), &a.value(), a.0.ns.clone())) }
        if deep { for k in testing::children(self) { c.append_child(&k.clone_node_with_deep(true)?)?; } }
        Ok(c)
    }
    pub fn clone_node(&self) -> Result<Node, JsValue> { self.clone_node_with_deep(false) }
    pub fn owner_document(&self) -> Option<Document> { window()?.document() }
    pub fn get_root_node(&self) -> Node { let mut n = self.clone(); while let Some(p) = n.parent_node() { n = p } n }
    fn beside(&self, n: &Node, after: bool) -> Result<(), JsValue> {
        let Some(p) = self.parent_node() else { return Ok(()) };
        let mut at = if after { self.next_sibling() } else { Some(self.clone()) };
        if at.as_ref() == Some(n) { at = n.next_sibling() }
        p.insert_before(n, at.as_ref()).map(|_| ())
    }
}
macro_rules! child_node { ($($t:ty),*) => { $(impl $t {
    pub fn replace_with_with_node_1(&self, n: &Node) -> Result<(), JsValue> { if let Some(p) = self.parent_node() { p.replace_child(n, self)?; } Ok(()) }
    pub fn before_with_node_1(&self, n: &Node) -> Result<(), JsValue> { self.beside(n, false) }
    pub fn after_with_node_1(&self, n: &Node) -> Result<(), JsValue> { self.beside(n, true) }
})* }; }
child_node!(Element, CharacterData);
macro_rules! parent_node { ($($t:ty),*) => { $(impl $t {
    pub fn append_with_node_1(&self, n: &Node) -> Result<(), JsValue> { self.append_child(n).map(|_| ()) }
    pub fn prepend_with_node_1(&self, n: &Node) -> Result<(), JsValue> { self.insert_before(n, self.first_child().as_ref()).map(|_| ()) }
    pub fn first_element_child(&self) -> Option<Element> { testing::children(self).into_iter().find_map(|c| c.dyn_into().ok()) }
    pub fn last_element_child(&self) -> Option<Element> { testing::children(self).into_iter().rev().find_map(|c| c.dyn_into().ok()) }
})* }; }
parent_node!(Element, DocumentFragment);
impl CharacterData {
    pub fn append_data(&self, v: &str) -> Result<(), JsValue> { nd(self).unwrap().data.borrow_mut().push_str(v); Ok(()) }
    pub fn data(&self) -> String { nd(self).unwrap().data.borrow().clone() }
    pub fn set_data(&self, v: &str) { *nd(self).unwrap().data.borrow_mut() = v.into() }
    pub fn length(&self) -> u32 { self.data().encode_utf16().count() as u32 }
    pub fn remove(&self) { self.detach() }
}
pub struct NodeList(Node);
impl NodeList {
    pub fn length(&self) -> u32 { self.0.data().kids.borrow().len() as u32 }
    pub fn item(&self, i: u32) -> Option<Node> { self.0.data().kids.borrow().get(i as usize).cloned().map(Node::wrap) }
    pub fn get(&self, i: u32) -> Option<Node> { self.item(i) }
}
struct AttrData { name: String, ns: Option<String>, value: RefCell<String>, owner: std::cell::Cell<u64> }
#[derive(Clone)]
pub struct Attr(Rc<AttrData>);
impl Attr {
    fn make(n: &str, v: &str, ns: Option<String>) -> Attr { Attr(Rc::new(AttrData { name: n.into(), ns, value: RefCell::new(v.into()), owner: Default::default() })) }
    pub fn name(&self) -> String { self.0.name.clone() }
    pub fn local_name(&self) -> String { if self.0.ns.is_some() { self.0.name.rsplit(':').next().unwrap().into() } else { self.name() } }
    pub fn namespace_uri(&self) -> Option<String> { self.0.ns.clone() }
    pub fn value(&self) -> String { self.0.value.borrow().clone() }
    pub fn set_value(&self, v: &str) { *self.0.value.borrow_mut() = v.into() }
    fn same(&self, ns: Option<&str>, n: &str) -> bool { self.namespace_uri().as_deref() == ns.filter(|x| !x.is_empty()) && self.local_name() == n }
}
pub struct NamedNodeMap(Element);
impl NamedNodeMap {
    pub fn length(&self) -> u32 { nd(&self.0).unwrap().attrs.borrow().len() as u32 }
    pub fn item(&self, i: u32) -> Option<Attr> { nd(&self.0).unwrap().attrs.borrow().get(i as usize).cloned() }
    pub fn get_with_index(&self, i: u32) -> Option<Attr> { self.item(i) }
    pub fn get(&self, i: u32) -> Option<Attr> { self.item(i) }
    pub fn remove_named_item(&self, n: &str) -> Result<Attr, JsValue> { let a = self.get_named_item(&self.0.key(n)).ok_or_else(|| exc("NotFoundError", "no such attribute"))?; self.0.remove_attribute_node(&a) }
    pub fn set_named_item(&self, a: &Attr) -> Result<Option<Attr>, JsValue> { self.0.set_attribute_node(a) }
    pub fn get_named_item(&self, n: &str) -> Option<Attr> { nd(&self.0).unwrap().attrs.borrow().iter().find(|a| a.name() == n).cloned() }
}
/// the attribute names setAttribute accepts (the Name production, ASCII part)
fn valid_name(n: &str) -> bool {
    let s = |c: char| c.is_ascii_alphabetic() || c == '_' || c == ':' || !c.is_ascii();
    n.chars().next().is_some_and(s) && n.chars().all(|c| s(c) || c.is_ascii_digit() || c == '-' || c == '.')
}
impl Element {
    fn nd(&self) -> &NodeData { nd(self).unwrap() }
    fn html(&self) -> bool { is_html(self, None) }
    fn key(&self, n: &str) -> String { if self.html() { n.to_ascii_lowercase() } else { n.into() } }
    pub fn tag_name(&self) -> String { self.node_name() }
    pub fn local_name(&self) -> String { match &self.nd().kind { Kind::Element { name, .. } => if self.nd().prefixed.get() { name.split_once(':').unwrap().1.into() } else { name.clone() }, _ => unreachable!() } }
    pub fn namespace_uri(&self) -> Option<String> { match &self.nd().kind { Kind::Element { ns, .. } => Some(ns.clone()), _ => None } }
    pub fn attributes(&self) -> NamedNodeMap { NamedNodeMap(self.clone()) }
    pub fn has_attributes(&self) -> bool { !self.nd().attrs.borrow().is_empty() }
    pub fn get_attribute(&self, n: &str) -> Option<String> { let n = self.key(n); self.nd().attrs.borrow().iter().find(|a| a.name() == n).map(|a| a.value()) }
    pub fn has_attribute(&self, n: &str) -> bool { self.get_attribute(n).is_some() }
    pub fn set_attribute(&self, n: &str, v: &str) -> Result<(), JsValue> {
        if !valid_name(n) { return Err(exc("InvalidCharacterError", &format!("{n:?} is not a valid attribute name"))) }
        self.raw_attr(&self.key(n), v, None);
        Ok(())
    }
    pub fn set_attribute_ns(&self, ns: Option<&str>, n: &str, v: &str) -> Result<(), JsValue> {
        if !valid_name(n) { return Err(exc("InvalidCharacterError", &format!("{n:?} is not a valid attribute name"))) }
        if n.contains(':') && ns.is_none_or(|x| x.is_empty()) { return Err(exc("NamespaceError", "a prefix without a namespace")) }
        let (p, ns_) = (n.split_once(':').map(|x| x.0), ns.unwrap_or(""));
        if p == Some("xml") && ns_ != "http://www.w3.org/XML/1998/namespace" || (p == Some("xmlns") || n == "xmlns") != (ns_ == "http://www.w3.org/2000/xmlns/") {
            return Err(exc("NamespaceError", &format!("{n:?} is not a name in {ns_:?}")))
        }
        self.raw_attr(n, v, ns.map(|s| s.to_owned()));
        Ok(())
    }
    pub(crate) fn raw_attr(&self, n: &str, v: &str, ns: Option<String>) {
        let mut a = self.nd().attrs.borrow_mut();
        match a.iter().find(|a| a.name() == n) { Some(x) => x.set_value(v), None => { let x = Attr::make(n, v, ns); x.0.owner.set(self.nd().id); a.push(x) } }
    }
    pub fn remove_attribute(&self, n: &str) -> Result<(), JsValue> { let n = self.key(n); self.nd().attrs.borrow_mut().retain(|a| a.name() != n || { a.0.owner.set(0); false }); Ok(()) }
    pub fn set_attribute_node(&self, a: &Attr) -> Result<Option<Attr>, JsValue> {
        if a.0.owner.get() != 0 && a.0.owner.get() != self.nd().id { return Err(exc("InUseAttributeError", "the attribute is in use")) }
        let mut l = self.nd().attrs.borrow_mut();
        a.0.owner.set(self.nd().id);
        match l.iter().position(|x| x.0.ns == a.0.ns && x.local_name() == a.local_name()) {
            Some(i) => { let old = std::mem::replace(&mut l[i], a.clone()); if !Rc::ptr_eq(&old.0, &a.0) { old.0.owner.set(0) } Ok(Some(old)) }
            None => { l.push(a.clone()); Ok(None) }
        }
    }
    pub fn remove_attribute_node(&self, a: &Attr) -> Result<Attr, JsValue> {
        let mut l = self.nd().attrs.borrow_mut();
        let Some(i) = l.iter().position(|x| Rc::ptr_eq(&x.0, &a.0)) else { return Err(exc("NotFoundError", "not an attribute of this element")) };
        a.0.owner.set(0);
        Ok(l.remove(i))
    }
    pub fn remove_attribute_ns(&self, _ns: Option<&str>, n: &str) -> Result<(), JsValue> { self.nd().attrs.borrow_mut().retain(|a| a.local_name() != n); Ok(()) }
    pub fn inner_html(&self) -> String { let mut o = String::new(); html::serialize(self, &mut o); o }
    pub fn set_inner_html(&self, s: &str) {
        let t = self.nd().content.borrow().clone();
        let target = match t { Some(c) => Node::wrap(c), None => self.obj.clone() };
        while let Some(c) = target.first_child() { c.detach() }
        html::parse_into(&target, &self.namespace_uri().unwrap_or_default(), &self.local_name(), s)
    }
    pub fn id(&self) -> String { self.get_attribute("id").unwrap_or_default() }
    pub fn remove(&self) { self.detach() }
    pub fn next_element_sibling(&self) -> Option<Element> { let mut n = self.next_sibling(); while let Some(x) = n { if let Some(e) = x.dyn_ref::<Element>() { return Some(e.clone()) } n = x.next_sibling() } None }
    pub fn previous_element_sibling(&self) -> Option<Element> { let mut n = self.previous_sibling(); while let Some(x) = n { if let Some(e) = x.dyn_ref::<Element>() { return Some(e.clone()) } n = x.previous_sibling() } None }
    pub fn get_attribute_ns(&self, ns: Option<&str>, n: &str) -> Option<String> { self.nd().attrs.borrow().iter().find(|a| a.same(ns, n)).map(|a| a.value()) }
    pub fn has_attribute_ns(&self, ns: Option<&str>, n: &str) -> bool { self.get_attribute_ns(ns, n).is_some() }
    pub fn get_attribute_node(&self, n: &str) -> Option<Attr> { self.attributes().get_named_item(&self.key(n)) }
    pub fn class_name(&self) -> String { self.get_attribute("class").unwrap_or_default() }
    pub fn outer_html(&self) -> String { let f = Node::wrap(data(Kind::Fragment, "")); f.put(self.clone_node_with_deep(true).unwrap(), 0); let mut o = String::new(); html::serialize(&f, &mut o); o }
    pub fn child_element_count(&self) -> u32 { testing::children(self).iter().filter(|c| c.node_type() == 1).count() as u32 }
    pub fn query_selector(&self, s: &str) -> Result<Option<Element>, JsValue> { select(self, s) }
}
/// type, #id, .class and [attribute] selectors
fn select(n: &Node, s: &str) -> Result<Option<Element>, JsValue> {
    let s = s.trim();
    if s.is_empty() || s.contains([' ', '>', ',', '!']) { return Err(exc("SyntaxError", &format!("{s:?} is not a valid selector"))) }
    let hit = |e: &Element| match s.as_bytes()[0] {
        b'#' => e.id() == s[1..],
        b'.' => e.get_attribute("class").unwrap_or_default().split_ascii_whitespace().any(|c| c == &s[1..]),
        b'[' => e.has_attribute(s.trim_matches(['[', ']'])),
        _ => e.local_name().eq_ignore_ascii_case(s),
    };
    for c in testing::children(n) {
        if let Some(e) = c.dyn_ref::<Element>() && hit(e) { return Ok(Some(e.clone())) }
        if let Some(e) = select(&c, s)? { return Ok(Some(e)) }
    }
    Ok(None)
}
impl HtmlTemplateElement {
    pub fn content(&self) -> DocumentFragment { DocumentFragment::unchecked_from_js(JsValue::Obj(nd(self).unwrap().content.borrow().clone().unwrap())) }
}
impl Document {
    fn wrap(d: Rc<NodeData>) -> Document { Document::unchecked_from_js(JsValue::Obj(d)) }
    pub fn document_element(&self) -> Option<Element> { testing::children(self).into_iter().find_map(|c| c.dyn_into().ok()) }
    pub fn body(&self) -> Option<HtmlElement> { testing::children(&*self.document_element()?).into_iter().find(|c| is_html(c, Some("body")))?.dyn_into().ok() }
    pub fn head(&self) -> Option<HtmlElement> { testing::children(&*self.document_element()?).into_iter().find(|c| is_html(c, Some("head")))?.dyn_into().ok() }
    pub fn create_element(&self, n: &str) -> Result<Element, JsValue> {
        if !valid_name(n) { return Err(exc("InvalidCharacterError", &format!("{n:?} is not a valid tag name"))) }
        Ok(testing::raw_element(HTML, &n.to_ascii_lowercase()))
    }
    pub fn create_element_ns(&self, ns: Option<&str>, n: &str) -> Result<Element, JsValue> {
        if !valid_name(n) { return Err(exc("InvalidCharacterError", &format!("{n:?} is not a valid tag name"))) }
        let e = testing::raw_element(ns.unwrap_or(""), n);
        if let Some((p, l)) = n.split_once(':') {
            if ns.is_none_or(|x| x.is_empty()) { return Err(exc("NamespaceError", "a prefix without a namespace")) }
            if p.is_empty() || l.is_empty() || !valid_name(l) { return Err(exc("InvalidCharacterError", &format!("{n:?} is not a valid qualified name"))) }
            e.nd().prefixed.set(true)
        }
        Ok(e)
    }
    pub fn create_text_node(&self, s: &str) -> Text { Text::unchecked_from_js(JsValue::Obj(data(Kind::Text, s))) }
    pub fn create_comment(&self, s: &str) -> Comment { Comment::unchecked_from_js(JsValue::Obj(data(Kind::Comment, s))) }
    pub fn create_document_fragment(&self) -> DocumentFragment { DocumentFragment::unchecked_from_js(JsValue::Obj(data(Kind::Fragment, ""))) }
    pub fn query_selector(&self, s: &str) -> Result<Option<Element>, JsValue> { select(self, s) }
    pub fn get_element_by_id(&self, s: &str) -> Option<Element> { select(self, &format!("#{s}")).ok()? }
}
impl EventTarget {
    pub fn dispatch_event(&self, e: &Event) -> Result<bool, JsValue> {
        let f = |k: &str| Reflect::get(e, &k.into()).unwrap_or_default();
        let d = f("detail");
        let g = |k: &str| if d.is_object() { Reflect::get(&d, &k.into()).unwrap_or_default() } else { JsValue::UNDEFINED };
        EVENTS.with(|v| v.borrow_mut().push(Dispatched {
            target: nd(self).unwrap().id, kind: f("type").as_string().unwrap_or_default(), bubbles: f("bubbles").as_bool().unwrap_or(false),
            content: g("content").as_string(), key: g("key").as_string(), element: nd(&g("element")).map(|n| n.id),
        }));
        Ok(true)
    }
}
impl Event {
    pub fn type_(&self) -> String { Reflect::get(self, &"type".into()).unwrap().as_string().unwrap_or_default() }
}
impl CustomEvent {
    pub fn new(t: &str) -> Result<CustomEvent, JsValue> { Self::new_with_event_init_dict(t, &CustomEventInit::new()) }
    pub fn new_with_event_init_dict(t: &str, i: &CustomEventInit) -> Result<CustomEvent, JsValue> {
        let o = Object::new();
        Reflect::set(&o, &"type".into(), &t.into())?;
        for k in ["bubbles", "cancelable", "detail"] { Reflect::set(&o, &k.into(), &Reflect::get(i, &k.into())?)?; }
        Ok(CustomEvent::unchecked_from_js(o.into()))
    }
}
impl CustomEventInit {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self { Self::unchecked_from_js(Object::new().into()) }
    pub fn set_bubbles(&self, v: bool) { let _ = Reflect::set(self, &"bubbles".into(), &v.into()); }
    pub fn set_cancelable(&self, v: bool) { let _ = Reflect::set(self, &"cancelable".into(), &v.into()); }
    pub fn set_detail(&self, v: &JsValue) { let _ = Reflect::set(self, &"detail".into(), v); }
}
pub struct Window(Document);
impl Window {
    pub fn document(&self) -> Option<Document> { Some(self.0.clone()) }
    pub fn location(&self) -> Location { Location }
}
pub struct Location;
impl Location {
    pub fn reload(&self) -> Result<(), JsValue> { RELOADS.with(|r| r.set(r.get() + 1)); Ok(()) }
    pub fn pathname(&self) -> Result<String, JsValue> { PATH.with(|p| p.borrow().clone()).ok_or_else(|| "no path".into()) }
}
pub fn window() -> Option<Window> { WINDOW.with(|w| w.borrow().clone().map(Window)) }
pub mod console {
    use wasm_bindgen::JsValue;
    pub fn log_1(_v: &JsValue) {}
    pub fn warn_1(_v: &JsValue) {}
    pub fn error_1(_v: &JsValue) {}
}
