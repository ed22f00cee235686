//! Trees as JSON: {"g": e|t|c|d, "n": tag, "s": h|s|m, "t": text, "a": [[qualified, displayed, value]..], "c": [..]}
use crate::*;
use hotmeal::*;
use hotmeal::{Namespace as Ns, NodeData, NodeKind};
use web_sys::testing as dom;
use wasm_bindgen::JsCast;
use web_sys::{Element, HtmlTemplateElement, Node};

pub const XLINK: &str = "http://www.w3.org/1999/xlink";
const XMLNS: &str = "http://www.w3.org/2000/xmlns/";
/// "ns|prefix:local" <-> QualName, with "xlink" for its namespace
pub fn qual(s: &str) -> QualName {
    let (ns, disp) = s.split_once('|').expect("qualified name");
    let ns = match ns { "xlink" => XLINK, "xml" => "http://www.w3.org/XML/1998/namespace", "xmlns" => XMLNS, x => x };
    let (prefix, local) = match disp.split_once(':') { Some((p, l)) if !ns.is_empty() => (Some(p), l), _ => (None, disp) };
    QualName { prefix: prefix.map(|p| p.into()), ns: ns.into(), local: local.into() }
}
pub fn disp(q: &QualName) -> String {
    match q.prefix.as_ref() { Some(p) => format!("{}:{}", p.as_ref(), q.local.as_ref()), None => q.local.as_ref().to_owned() }
}
fn alias(ns: &str) -> &str { match ns { XLINK => "xlink", "http://www.w3.org/XML/1998/namespace" => "xml", XMLNS => "xmlns", x => x } }
pub fn unqual(q: &QualName) -> String {
    format!("{}|{}", alias(&q.ns), disp(q))
}
pub fn attr(q: &QualName, v: &str) -> Value { json!([unqual(q), disp(q), v]) }
pub fn ns(s: &str) -> Ns { match s { "s" => Ns::Svg, "m" => Ns::MathMl, _ => Ns::Html } }
pub fn ns_code(n: Ns) -> &'static str { match n { Ns::Svg => "s", Ns::MathMl => "m", Ns::Html => "h" } }
pub fn node(g: &str, n: &str, s: &str, t: &str, a: Vec<Value>, c: Vec<Value>) -> Value { json!({"g": g, "n": n, "s": s, "t": t, "a": a, "c": c}) }

thread_local! { pub static MIXED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) } }
pub fn stem(v: &str, own: bool) -> Stem<'static> {
    let b = Stem::Borrowed(leak(v));
    let m = MIXED.get();
    if m != 0 { MIXED.set(m.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407)) }
    if own || m >> 40 & 1 == 1 { b.into_owned() } else { b }
}
pub fn list<'a>(v: &'a Value, k: &str) -> &'a [Value] { v[k].as_array().map_or(&[], |a| a.as_slice()) }
pub fn kind(v: &Value, own: bool) -> NodeKind<'static> {
    match v["g"].as_str().unwrap() {
        "e" => NodeKind::Element(ElementData {
            tag: LocalName::from(v["n"].as_str().unwrap()),
            attrs: list(v, "a").iter().map(|a| (qual(a[0].as_str().unwrap()), stem(a[2].as_str().unwrap(), own))).collect(),
        }),
        "t" => NodeKind::Text(stem(v["t"].as_str().unwrap(), own)),
        "c" => NodeKind::Comment(stem(v["t"].as_str().unwrap(), own)),
        g => panic!("kind {g}"),
    }
}
pub fn build(d: &mut Document<'static>, v: &Value, own: bool) -> NodeId {
    let id = d.arena.new_node(NodeData { kind: kind(v, own), ns: ns(v["s"].as_str().unwrap_or("h")) });
    for c in list(v, "c") { let k = build(d, c, own); id.append(k, &mut d.arena) }
    id
}
/// a document with the given body (a string stands for no body)
pub fn document(body: &Value, own: bool) -> Document<'static> {
    let mut d = Document::new();
    let b = d.body().unwrap();
    b.detach(&mut d.arena);
    if body.is_object() { let n = build(&mut d, body, own); let r = d.root; r.append(n, &mut d.arena) }
    d
}
pub fn dump(d: &Document, id: NodeId) -> Value {
    let n = d.get(id);
    let c = id.children(&d.arena).map(|c| dump(d, c)).collect::<Vec<_>>();
    let s = ns_code(n.ns);
    match &n.kind {
        NodeKind::Element(e) => node("e", e.tag.as_ref(), s, "", e.attrs.iter().map(|(q, v)| attr(q, v)).collect(), c),
        NodeKind::Text(t) => node("t", "", "h", t, vec![], c),
        NodeKind::Comment(t) => node("c", "", "h", t, vec![], c),
        NodeKind::Document => node("d", "", "h", "", vec![], c),
    }
}
/// stands for a tree that is not there
pub fn none() -> Value { node("none", "", "h", "", vec![], vec![]) }
pub fn body(d: &Document) -> Value { d.body().map_or(none(), |b| dump(d, b)) }

// the browser side
const HTML: &str = "http://www.w3.org/1999/xhtml";
pub fn dom_build(doc: &web_sys::Document, v: &Value) -> Node {
    match v["g"].as_str().unwrap() {
        "e" => {
            let e = dom::raw_element(ns(v["s"].as_str().unwrap()).url(), v["n"].as_str().unwrap());
            dom_fill(doc, &e, v);
            e.into()
        }
        "t" => doc.create_text_node(v["t"].as_str().unwrap()).into(),
        _ => doc.create_comment(v["t"].as_str().unwrap()).into(),
    }
}
fn dom_fill(doc: &web_sys::Document, e: &Element, v: &Value) {
    for a in list(v, "a") { dom::raw_attribute(e, &qual(a[0].as_str().unwrap()).ns, a[1].as_str().unwrap(), a[2].as_str().unwrap()) }
    let host = match e.dyn_ref::<HtmlTemplateElement>() { Some(t) => t.content().into(), None => Node::from(e.clone()) };
    for c in list(v, "c") { host.append_child(&dom_build(doc, c)).unwrap(); }
}
/// the children, for a template those of its content (and, marked, those that are misplaced)
pub fn dom_kids(n: &Node) -> Vec<Node> {
    let k = dom::children(n);
    match dom::template(n) { Some(t) => t.into_iter().chain(k).collect(), None => k }
}
/// a fresh page showing the body, with the page's root element returned
pub fn page(b: &Value) -> Node {
    let doc = dom::reset();
    let body: Element = doc.body().unwrap().into();
    if b.is_object() { dom_fill(&doc, &body, b) }
    body.into()
}
pub fn dom_dump(n: &Node) -> Value {
    let mut c = dom_kids(n).iter().map(dom_dump).collect::<Vec<_>>();
    if let Some(t) = dom::template(n) { for x in &mut c[t.len()..] { *x = node("d", "misplaced", "h", "", vec![], vec![]); x["i"] = json!(0) } }
    let mut v = match dom::kind(n) {
        web_sys::Kind::Element { name, ns } => {
            let s = match ns.as_str() { HTML => "h", "http://www.w3.org/2000/svg" => "s", _ => "m" };
            let name = if dom::prefixed(n) { name.replacen(':', " : ", 1) } else { name };
            node("e", &name, s, "", dom::attributes(n).iter().zip(dom::attribute_namespaces(n)).map(|((n, v), ns)| json!([format!("{}|{n}", alias(&ns)), n, v])).collect(), c)
        }
        web_sys::Kind::Text => node("t", "", "h", &n.node_value().unwrap(), vec![], c),
        web_sys::Kind::Comment => node("c", "", "h", &n.node_value().unwrap(), vec![], c),
        _ => node("d", "", "h", "", vec![], c),
    };
    v["i"] = json!(dom::id(n));
    v
}
/// the tree with the identities of the page's nodes ("i"; 0 where there is no page)
pub fn numbered(v: &Value, n: Option<&Node>) -> Value {
    let mut r = v.clone();
    let kids = n.map(dom_kids).unwrap_or_default();
    r["i"] = json!(n.map_or(0, dom::id));
    r["c"] = list(v, "c").iter().enumerate().map(|(i, c)| numbered(c, kids.get(i))).collect();
    r
}

pub fn parse(v: &Value) -> Value {
    let t = StrTendril::from(v["html"].as_str().unwrap());
    let d = if v["frag"] == json!(1) { hotmeal::parse_body_fragment(&t) } else { hotmeal::parse(&t) };
    json!({"root": dump(&d, d.root), "body": body(&d), "doctype": d.doctype.as_ref().map_or("".into(), |x| x.to_string()), "html": d.to_html()})
}
/// serializations of a document with the given root element
pub fn html(v: &Value) -> Value {
    let mut d = Document::new();
    let own = v["own"] == json!(1);
    d.root = build(&mut d, &v["root"], own);
    if let Some(x) = v["doctype"].as_str() && !x.is_empty() { d.doctype = Some(stem(x, own)) }
    let kids: Vec<Value> = d.root.children(&d.arena).map(|c| json!(d.serialize_inner_html(c))).collect();
    json!({"full": d.to_html(), "plain": d.to_html_without_doctype(), "body": d.to_body_html(), "inner": d.serialize_inner_html(d.root), "kids": kids})
}
