//! histories of the document API, of the parser's tree sink, and of text values
use crate::tree::*;
use crate::*;
use hotmeal::*;
use hotmeal::NodeKind;
use html5ever::script::{self, Call, Text};

fn view(d: &Document, h: &[NodeId]) -> Value {
    let ix = |n: Option<NodeId>| n.and_then(|n| h.iter().position(|x| *x == n)).map_or(0, |i| i + 1);
    Value::Array(h.iter().map(|&n| {
        let k = d.get(n);
        let (g, t, a) = match &k.kind {
            NodeKind::Element(e) => ("e", e.tag.as_ref().to_owned(), e.attrs.iter().map(|(q, v)| attr(q, v)).collect()),
            NodeKind::Text(t) => ("t", t.to_string(), vec![]),
            NodeKind::Comment(t) => ("c", t.to_string(), vec![]),
            NodeKind::Document => ("d", String::new(), vec![]),
        };
        json!({"g": g, "t": t, "a": a, "up": ix(d.parent(n)), "prev": ix(d.prev_sibling(n)), "next": ix(d.next_sibling(n)), "first": ix(d.first_child(n)), "last": ix(d.last_child(n)),
            "count": d.child_count(n), "kids": d.children(n).map(|c| ix(Some(c))).collect::<Vec<_>>()})
    }).collect())
}
/// handles: 1 html, 2 head, 3 body, then as created
pub fn run(v: &Value) -> Value {
    let own = v["own"] == json!(1);
    let mut d: Document<'static> = Document::new();
    let mut h = vec![d.root, d.head().unwrap(), d.body().unwrap()];
    let mut steps = vec![json!({"err": "", "nodes": view(&d, &h), "body": 3, "head": 2})];
    for o in list(v, "steps") {
        let x = |k: &str| h[o[k].as_u64().unwrap() as usize - 1];
        let t = || stem(o["t"].as_str().unwrap(), own);
        let mut made = None;
        let e = guard(|| match o["o"].as_str().unwrap() {
            "element" => made = Some(d.create_element(o["t"].as_str().unwrap())),
            "text" => made = Some(d.create_text(t())),
            "comment" => made = Some(d.create_comment(t())),
            "append" => d.append_child(x("x"), x("y")),
            "before" => d.insert_before(x("x"), x("y")),
            "after" => d.insert_after(x("x"), x("y")),
            "remove" => d.remove(x("x")),
            "set" => d.set_attr(x("x"), qual(o["q"].as_str().unwrap()), t()),
            "unset" => d.remove_attr(x("x"), &qual(o["q"].as_str().unwrap())),
            "settext" => d.set_text(x("x"), t()),
            k => panic!("step {k}"),
        });
        h.extend(made);
        let ix = |n: Option<NodeId>| n.and_then(|n| h.iter().position(|x| *x == n)).map_or(0, |i| i + 1);
        steps.push(json!({"err": e.err().unwrap_or_default(), "nodes": view(&d, &h), "body": ix(d.body()), "head": ix(d.head())}));
    }
    json!({"steps": steps})
}
/// {"n": text} is a fresh buffer, {"b": [start, length]} (bytes) a piece of the input's buffer
fn text(v: &Value) -> Text {
    match v["b"].as_array() { Some(b) => Text::Slice(b[0].as_u64().unwrap() as usize, b[1].as_u64().unwrap() as usize), None => Text::New(s(v, "n")) }
}
pub fn sink(v: &Value) -> Value {
    let u = |o: &Value, k: &str| o[k].as_u64().unwrap() as usize;
    let at = |o: &Value| list(o, "a").iter().map(|a| (qual(a["q"].as_str().unwrap()), text(a))).collect::<Vec<_>>();
    let name = |o: &Value| html5ever::QualName::new(None, html5ever::Namespace::from(ns(o["s"].as_str().unwrap_or("h")).url()), o["n"].as_str().unwrap().into());
    let calls = list(v, "calls").iter().map(|o| match o["o"].as_str().unwrap() {
        "element" => Call::Element(name(o), at(o)),
        "comment" => Call::Comment(text(&o["t"])),
        "pi" => Call::Pi,
        "doctype" => Call::Doctype(text(&o["t"])),
        "append" => Call::AppendNode(u(o, "x"), u(o, "y")),
        "appendt" => Call::AppendText(u(o, "x"), text(&o["t"])),
        "before" => Call::BeforeNode(u(o, "x"), u(o, "y")),
        "beforet" => Call::BeforeText(u(o, "x"), text(&o["t"])),
        "based" => Call::BasedNode(u(o, "x"), u(o, "y"), u(o, "z")),
        "basedt" => Call::BasedText(u(o, "x"), u(o, "y"), text(&o["t"])),
        "attrs" => Call::AddAttrs(u(o, "x"), at(o)),
        "remove" => Call::Remove(u(o, "x")),
        "reparent" => Call::Reparent(u(o, "x"), u(o, "y")),
        "error" => Call::Error(s(&o["t"], "n")),
        "name" => Call::ElemName(u(o, "x")),
        k => panic!("call {k}"),
    }).collect();
    script::set(calls);
    let input = StrTendril::from(v["input"].as_str().unwrap());
    let d = hotmeal::parse(&input);
    let mut top = d.root;
    while let Some(p) = d.parent(top) { top = p }
    json!({"root": dump(&d, d.root), "all": dump(&d, top), "body": body(&d), "doctype": d.doctype.as_ref().map_or("".into(), |x| x.to_string()), "hasdt": d.doctype.is_some(),
        "errors": d.errors.iter().map(|e| e.to_string()).collect::<Vec<_>>(), "names": script::answers(), "html": d.to_html()})
}
fn stem(v: &str, own: bool) -> Stem<'static> { tree::stem(v, own) }
