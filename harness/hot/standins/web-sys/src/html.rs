//! innerHTML: fragment parsing through the html5ever stand-in, and the standard's fragment serialization.
use super::*;
use html5ever::tree_builder::{ElemName, ElementFlags, NodeOrText, QuirksMode, TreeSink};
use html5ever::{Attribute, LocalName, Namespace, QualName, ns};
use std::borrow::Cow;
use tendril::{StrTendril, TendrilSink};

struct Sink { root: Rc<NodeData> }
#[derive(Debug)]
struct Name(QualName);
impl ElemName for Name {
    fn ns(&self) -> &Namespace { &self.0.ns }
    fn local_name(&self) -> &LocalName { &self.0.local }
}
impl Sink {
    fn text(&self, parent: &Node, before: Option<&Node>, t: &str) {
        let prev = match before { Some(b) => b.previous_sibling(), None => parent.last_child() };
        if let Some(p) = prev && p.node_type() == 3 {
            let s = p.text_content().unwrap() + t;
            p.set_text_content(Some(&s))
        } else { parent.insert_before(&Node::wrap(data(Kind::Text, t)), before).unwrap(); }
    }
}
impl TreeSink for Sink {
    type Handle = Node;
    type Output = Rc<NodeData>;
    type ElemName<'a> = Name;
    fn finish(self) -> Rc<NodeData> { self.root }
    fn parse_error(&self, _m: Cow<'static, str>) {}
    fn get_document(&self) -> Node { Node::wrap(self.root.clone()) }
    fn elem_name<'a>(&'a self, t: &'a Node) -> Name {
        match &t.data().kind { Kind::Element { name, ns } => Name(QualName::new(None, ns.as_str().into(), name.as_str().into())), _ => Name(QualName::new(None, ns!(), "".into())) }
    }
    fn create_element(&self, n: QualName, attrs: Vec<Attribute>, _f: ElementFlags) -> Node {
        let e = Element::unchecked_from_js(JsValue::Obj(data(Kind::Element { name: n.local.to_string(), ns: n.ns.to_string() }, "")));
        for a in attrs {
            let name = match &a.name.prefix { Some(p) => format!("{}:{}", p, a.name.local), None => a.name.local.to_string() };
            e.raw_attr(&name, &a.value, if a.name.ns.is_empty() { None } else { Some(a.name.ns.to_string()) })
        }
        e.into()
    }
    fn create_comment(&self, t: StrTendril) -> Node { Node::wrap(data(Kind::Comment, &t)) }
    fn create_pi(&self, _t: StrTendril, d: StrTendril) -> Node { Node::wrap(data(Kind::Comment, &d)) }
    fn append(&self, p: &Node, c: NodeOrText<Node>) {
        match c { NodeOrText::AppendNode(n) => { p.append_child(&n).unwrap(); } NodeOrText::AppendText(t) => self.text(p, None, &t) }
    }
    fn append_before_sibling(&self, s: &Node, c: NodeOrText<Node>) {
        let p = s.parent_node().unwrap();
        match c { NodeOrText::AppendNode(n) => { p.insert_before(&n, Some(s)).unwrap(); } NodeOrText::AppendText(t) => self.text(&p, Some(s), &t) }
    }
    fn append_based_on_parent_node(&self, e: &Node, prev: &Node, c: NodeOrText<Node>) { if e.parent_node().is_some() { self.append_before_sibling(e, c) } else { self.append(prev, c) } }
    fn append_doctype_to_document(&self, _n: StrTendril, _p: StrTendril, _s: StrTendril) {}
    fn get_template_contents(&self, t: &Node) -> Node { t.clone() }
    fn same_node(&self, a: &Node, b: &Node) -> bool { a == b }
    fn set_quirks_mode(&self, _m: QuirksMode) {}
    fn add_attrs_if_missing(&self, t: &Node, attrs: Vec<Attribute>) {
        let e = t.dyn_ref::<Element>().unwrap();
        for a in attrs { if !e.has_attribute(&a.name.local) { e.raw_attr(&a.name.local, &a.value, None) } }
    }
    fn remove_from_parent(&self, t: &Node) { t.detach() }
    fn reparent_children(&self, a: &Node, b: &Node) { while let Some(c) = a.first_child() { b.append_child(&c).unwrap(); } }
}
pub(crate) fn parse_into(target: &Node, ns: &str, context: &str, s: &str) {
    let mut opts = html5ever::ParseOpts::default();
    opts.tokenizer.discard_bom = false;     // only a decoder drops one
    let root = html5ever::parse_fragment(Sink { root: data(Kind::Fragment, "") }, opts, QualName::new(None, ns.into(), context.into()), vec![], true).one(s);
    let html = Node::wrap(root).first_child().unwrap();
    while let Some(c) = html.first_child() { target.append_child(&c).unwrap(); }
}
pub(crate) fn serialize(n: &Node, o: &mut String) {
    let n = match &*n.data().content.borrow() { Some(c) => Node::wrap(c.clone()), None => n.clone() };
    let raw = matches!(&n.data().kind, Kind::Element { name, .. } if is_html(&n) && matches!(name.as_str(), "style" | "script" | "xmp" | "iframe" | "noembed" | "noframes" | "plaintext" | "noscript"));
    for c in testing::children(&n) {
        match &c.data().kind {
            Kind::Element { name, .. } => {
                o.push('<');
                o.push_str(name);
                for (k, v) in testing::attributes(&c) { o.push_str(&format!(" {k}=\"{}\"", v.replace('&', "&amp;").replace('\u{a0}', "&nbsp;").replace('"', "&quot;").replace('<', "&lt;").replace('>', "&gt;"))) }
                o.push('>');
                let html = is_html(&c);
                if !html || !matches!(name.as_str(), "area" | "base" | "basefont" | "bgsound" | "br" | "col" | "embed" | "frame" | "hr" | "img" | "input" | "keygen" | "link" | "meta" | "param" | "source" | "track" | "wbr") {
                    serialize(&c, o);
                    o.push_str(&format!("</{name}>"))
                }
            }
            Kind::Text if raw => o.push_str(&c.text_content().unwrap()),
            Kind::Text => o.push_str(&c.text_content().unwrap().replace('&', "&amp;").replace('\u{a0}', "&nbsp;").replace('<', "&lt;").replace('>', "&gt;")),
            Kind::Comment => o.push_str(&format!("<!--{}-->", c.text_content().unwrap())),
            _ => {}
        }
    }
}
fn is_html(n: &Node) -> bool { matches!(&n.data().kind, Kind::Element { ns, .. } if ns.ends_with("xhtml")) }
