//! diff, and both appliers, one patch at a time
use crate::tree::*;
use crate::*;
use hotmeal::*;
use hotmeal_wasm as wasm;
use smallvec::SmallVec;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use wasm_bindgen::JsValue;
use web_sys::{Node, testing as dom};

fn content(c: &InsertContent) -> Value {
    match c {
        InsertContent::Element { tag, attrs, children } => element(tag, attrs, children),
        InsertContent::Text(t) => node("t", "", "h", t, vec![], vec![]),
        InsertContent::Comment(t) => node("c", "", "h", t, vec![], vec![]),
    }
}
fn element(tag: &LocalName, attrs: &[AttrPair], children: &[InsertContent]) -> Value {
    node("e", tag.as_ref(), "h", "", attrs.iter().map(|a| attr(&a.name, &a.value)).collect(), children.iter().map(content).collect())
}
fn path(p: &NodePath) -> Value { json!(p.0.as_slice()) }
/// p: kind, at: path, to: path, slot: -1 or the slot of the displaced node, tree: inserted content, text, props: [[qualified, displayed, kept, value]..]
pub fn patch(p: &Patch) -> Value {
    let mk = |k: &str, at: Value, to: Value, slot: &Option<u32>, tree: Value, text: &str, props: Vec<Value>| {
        json!({"p": k, "at": at, "to": to, "slot": slot.map_or(-1, |x| x as i64), "tree": tree, "text": text, "props": props})
    };
    let no = json!([]);
    let nil = || node("t", "", "h", "", vec![], vec![]);
    match p {
        Patch::InsertElement { at, tag, attrs, children, detach_to_slot } => mk("ins", path(&at.0), no, detach_to_slot, element(tag, attrs, children), "", vec![]),
        Patch::InsertText { at, text, detach_to_slot } => mk("ins", path(&at.0), no, detach_to_slot, node("t", "", "h", text, vec![], vec![]), "", vec![]),
        Patch::InsertComment { at, text, detach_to_slot } => mk("ins", path(&at.0), no, detach_to_slot, node("c", "", "h", text, vec![], vec![]), "", vec![]),
        Patch::Remove { node } => mk("rm", path(&node.0), no, &None, nil(), "", vec![]),
        Patch::SetText { path: at, text } => mk("text", path(at), no, &None, nil(), text, vec![]),
        Patch::SetAttribute { path: at, name, value } => mk("set", path(at), no, &None, nil(), "", vec![json!([unqual(name), disp(name), false, value.as_str()])]),
        Patch::RemoveAttribute { path: at, name } => mk("unset", path(at), no, &None, nil(), "", vec![json!([unqual(name), disp(name), false, ""])]),
        Patch::Move { from, to, detach_to_slot } => mk("mv", path(&from.0), path(&to.0), detach_to_slot, nil(), "", vec![]),
        Patch::UpdateProps { path: at, changes } => {
            let props = changes.iter().map(|c| {
                let (q, d) = match &c.name { PropKey::Text => ("#text".to_owned(), String::new()), PropKey::Attr(q) => (unqual(q), disp(q)) };
                json!([q, d, c.value.is_none(), c.value.as_ref().map_or("", |v| v.as_str())])
            }).collect();
            mk("props", path(at), no, &None, nil(), "", props)
        }
        Patch::OpaqueChanged { path: at, content } => mk("opaque", path(at), no, &None, nil(), content, vec![]),
    }
}
/// the inverse of `patch`, for lists of patches that diff does not produce
pub fn unpatch(v: &Value, own: bool) -> Patch<'static> {
    let p = |k: &str| NodePath(list(v, k).iter().map(|x| x.as_u64().unwrap() as u32).collect::<SmallVec<[u32; 16]>>());
    let st = |x: &Value| stem(x.as_str().unwrap(), own);
    let slot = v["slot"].as_i64().filter(|x| *x >= 0).map(|x| x as u32);
    fn attrs(t: &Value, own: bool) -> Vec<AttrPair<'static>> {
        list(t, "a").iter().map(|a| AttrPair { name: qual(a[0].as_str().unwrap()), value: stem(a[2].as_str().unwrap(), own) }).collect()
    }
    fn cont(t: &Value, own: bool) -> InsertContent<'static> {
        match t["g"].as_str().unwrap() {
            "e" => InsertContent::Element { tag: t["n"].as_str().unwrap().into(), attrs: attrs(t, own), children: list(t, "c").iter().map(|c| cont(c, own)).collect() },
            "t" => InsertContent::Text(stem(t["t"].as_str().unwrap(), own)),
            _ => InsertContent::Comment(stem(t["t"].as_str().unwrap(), own)),
        }
    }
    let q = || qual(v["props"][0][0].as_str().unwrap());
    match v["p"].as_str().unwrap() {
        "ins" => match cont(&v["tree"], own) {
            InsertContent::Element { tag, attrs, children } => Patch::InsertElement { at: NodeRef(p("at")), tag, attrs, children, detach_to_slot: slot },
            InsertContent::Text(text) => Patch::InsertText { at: NodeRef(p("at")), text, detach_to_slot: slot },
            InsertContent::Comment(text) => Patch::InsertComment { at: NodeRef(p("at")), text, detach_to_slot: slot },
        },
        "rm" => Patch::Remove { node: NodeRef(p("at")) },
        "text" => Patch::SetText { path: p("at"), text: st(&v["text"]) },
        "set" => Patch::SetAttribute { path: p("at"), name: q(), value: st(&v["props"][0][3]) },
        "unset" => Patch::RemoveAttribute { path: p("at"), name: q() },
        "mv" => Patch::Move { from: NodeRef(p("at")), to: NodeRef(p("to")), detach_to_slot: slot },
        "props" => Patch::UpdateProps {
            path: p("at"),
            changes: list(v, "props").iter().map(|x| PropChange {
                name: match x[0].as_str().unwrap() { "#text" => PropKey::Text, q => PropKey::Attr(qual(q)) },
                value: (x[2] != json!(true)).then(|| st(&x[3])),
            }).collect(),
        },
        "opaque" => Patch::OpaqueChanged { path: p("at"), content: st(&v["text"]) },
        k => panic!("patch {k}"),
    }
}
/// the slot a patch names for what it displaces
fn slot_of(p: &Patch) -> Option<u32> {
    match p {
        Patch::InsertElement { detach_to_slot, .. } | Patch::InsertText { detach_to_slot, .. } | Patch::InsertComment { detach_to_slot, .. } | Patch::Move { detach_to_slot, .. } => *detach_to_slot,
        _ => None,
    }
}
fn slots(m: BTreeMap<u32, Value>) -> Value { Value::Array(m.into_iter().map(|(k, t)| json!({"k": k, "t": t})).collect()) }
/// where a node is: [slot, child, ..]
fn find(n: &web_sys::Node, id: u64, at: &mut Vec<u32>) -> bool {
    if dom::id(n) == id { return true }
    for (i, c) in dom_kids(n).iter().enumerate() {
        at.push(i as u32);
        if find(c, id, at) { return true }
        at.pop();
    }
    false
}
pub fn run(v: &Value) -> Value {
    let own = v["own"] == json!(1);
    // how the texts are stored: 0 borrowed, 1 owned, 2 some so, some so, 3 and 4 one way in the old document, the other way in the new one
    MIXED.set((v["own"] == json!(2)) as u64 * 88172645463325252);
    let (mut old, mut new) = (document(&v["old"], own || v["own"] == json!(3)), document(&v["new"], own || v["own"] == json!(4)));
    MIXED.set(0);
    // documents that others were turned into
    let mut turned = 0;
    for (k, d) in [("before", &mut old), ("prior", &mut new)] {
        if v[k].is_object() {
            let mut x = document(&v[k], own);
            let ps: Vec<Patch<'static>> = guard(|| diff(&x, d).unwrap_or_default().into_iter().map(|p| p.into_owned()).collect()).unwrap_or_default();
            if guard(|| x.apply_patches(ps).is_ok()) == Ok(true) && body(&x) == v[if k == "before" { "old" } else { "new" }] { *d = x; turned += 1 }
        }
    }
    let snaps = v["snap"] != json!(0);
    let mut out = json!({"err": "", "turned": turned, "patches": [], "nat": [], "wasm": [], "events": []});
    let ps: Vec<Patch<'static>> = if v["patches"].is_array() { list(v, "patches").iter().map(|p| unpatch(p, own)).collect() } else {
        let base = if v["base"].is_object() { document(&v["base"], own) } else { old.clone() };
        match guard(|| diff(&base, &new)) {
            Ok(Ok(p)) => p,
            Ok(Err(e)) => { out["err"] = json!(format!("{e}")); vec![] }
            Err(e) => { out["err"] = json!(e); vec![] }
        }
    };
    out["patches"] = ps.iter().map(patch).collect();
    let owned: Vec<Patch<'static>> = ps.iter().cloned().map(|p| p.into_owned()).collect();
    // the same list on its way to a browser
    let blob = facet_postcard::to_vec(&owned).unwrap();
    let back = facet_postcard::from_slice::<Vec<Patch<'static>>>(&blob);
    if v["wire"] == json!(1) {
        out["owned"] = owned.iter().map(patch).collect();
        out["wire"] = match &back { Ok(b) => b.iter().map(patch).collect(), Err(e) => json!([e.to_string()]) };
    }
    // the native applier
    let mut d = old.clone();
    let mut m: HashMap<u32, NodeId> = HashMap::new();
    let mut steps = vec![];
    if !ps.is_empty() {
        m = d.init_patch_slots();
        for (i, p) in ps.iter().enumerate() {
            let e = match guard(|| d.apply_patch_with_slots(p.clone(), &mut m)) { Ok(Ok(())) => String::new(), Ok(Err(e)) => e.to_string(), Err(e) => e };
            let bad = !e.is_empty();
            let snap = if snaps || bad || i + 1 == ps.len() { slots(m.iter().map(|(k, n)| (*k, dump(&d, *n))).collect()) } else { json!([]) };
            steps.push(json!({"err": e, "slots": snap}));
            if bad { break }
        }
    }
    let _ = m;
    out["nat"] = Value::Array(steps);
    // and as a whole
    let mut d = old.clone();
    out["api"] = match guard(|| d.apply_patches(ps.clone())) { Ok(Ok(())) => json!({"err": "", "t": body(&d)}), Ok(Err(e)) => json!({"err": e.to_string(), "t": body(&d)}), Err(e) => json!({"err": e, "t": none()}) };
    // the browser's applier
    out["start"] = node("e", "body", "h", "", vec![], vec![]);
    out["start"]["i"] = json!(1);
    if v["old"].is_object() {
        let root = page(&v["old"]);
        out["start"] = numbered(&v["old"], Some(&root));
        let mut sl = wasm::Slots::new();
        let (mut steps, mut events) = (vec![], vec![]);
        let high: BTreeSet<u32> = owned.iter().filter_map(slot_of).filter(|k| *k >= 200).collect();
        for (i, p) in owned.iter().enumerate() {
            let e = match guard(|| wasm::apply_patches_with_slots(std::slice::from_ref(p), &mut sl)) { Ok(Ok(_)) => String::new(), Ok(Err(e)) => e.as_string().unwrap_or_else(|| format!("{e:?}")), Err(e) => e };
            let bad = !e.is_empty();
            let all = || std::iter::once((0, root.clone())).chain((1..200).chain(high.iter().copied()).filter_map(|k| sl.get(k).map(|n| (k, n.clone()))));
            for ev in dom::events() {
                let mut at = vec![];
                let mut set = json!([]);     // what the content is as the inner HTML of such an element
                for (k, n) in all() {
                    at = vec![k];
                    if find(&n, ev.target, &mut at) {
                        let mut t = n.clone();
                        for i in &at[1..] { t = dom_kids(&t)[*i as usize].clone() }
                        if let dom::Kind::Element { name, ns } = dom::kind(&t) {
                            let e = dom::raw_element(&ns, &name);
                            e.set_inner_html(&ev.content.clone().unwrap_or_default());
                            set = dom_dump(&e)["c"].clone();
                        }
                        break
                    }
                    at.clear()
                }
                events.push(json!({"step": i + 1, "kind": ev.kind, "bubbles": ev.bubbles, "at": at, "set": set, "content": ev.content.clone().unwrap_or_default(),
                    "key": ev.key.clone().unwrap_or_default(), "haskey": ev.key.is_some(), "self": ev.element == Some(ev.target)}));
            }
            let snap = if snaps || bad || i + 1 == owned.len() { slots(all().map(|(k, n)| (k, dom_dump(&n))).collect()) } else { json!([]) };
            steps.push(json!({"err": e, "slots": snap}));
            if bad { break }
        }
        out["wasm"] = Value::Array(steps);
        out["events"] = Value::Array(events);
        let root = page(&v["old"]);
        out["wapi"] = match guard(|| wasm::apply_patches_postcard(&blob)) {
            Ok(Ok(n)) => json!({"err": "", "n": n, "t": dom_dump(&root)}),
            Ok(Err(e)) => json!({"err": e.as_string().unwrap_or_default(), "n": 0, "t": dom_dump(&root)}),
            Err(e) => json!({"err": e, "n": 0, "t": dom_dump(&root)}),
        };
    } else { out["wapi"] = json!({"err": "", "n": 0, "t": none()}) }
    let panicked = |v: &Value| v["err"].as_str().is_some_and(|e| e.starts_with("panic: "));
    out["crash"] = json!(panicked(&out["api"]) || panicked(&out["wapi"]) || list(&out, "nat").iter().chain(list(&out, "wasm")).any(panicked));
    out
}
/// a page with mount points, updated one after another
pub fn mount(v: &Value) -> Value {
    let own = v["own"] == json!(1);
    let root: Node = page(&v["page"]).parent_node().unwrap();
    let start = dom_dump(&root);
    let mut steps = vec![];
    for o in list(v, "steps") {
        let (old, new) = (document(&o["old"], own), document(&o["new"], own));
        let sel = s(o, "css");
        let how = o["how"].as_str().unwrap();
        let say = |e: JsValue| e.as_string().unwrap_or_else(|| format!("{e:?}"));
        let f = || -> Result<(usize, usize), String> {
            let mut ps: Vec<Patch<'static>> = match how {
                "html" => wasm::diff_html_patches(&s(o, "oldhtml"), &s(o, "newhtml")).map_err(say)?,
                _ => diff(&old, &new).map_err(|e| e.to_string())?.into_iter().map(|p| p.into_owned()).collect(),
            };
            match how {
                "far" => ps.push(Patch::SetText { path: NodePath(SmallVec::from_slice(&[0, 4000, 1])), text: stem("lost", own) }),
                "farslot" => ps.push(Patch::Move { from: NodeRef(NodePath(SmallVec::from_slice(&[190]))), to: NodeRef(NodePath(SmallVec::from_slice(&[0, 0]))), detach_to_slot: Some(191) }),
                _ => {}
            }
            let plain = o["plain"] == json!(1);
            let mut blob = facet_postcard::to_vec(&ps).unwrap();
            if how == "badblob" { blob.pop(); }
            let n = match how {
                "blob" | "badblob" | "badsel" => if plain { wasm::apply_patches_postcard(&blob) } else { wasm::apply_patches_postcard_on(&blob, &sel) },
                "json" => wasm::apply_patches_json(&facet_json::to_string(&ps).unwrap()),
                "slots" => {
                    let mut sl = wasm::Slots::new();
                    let mut n = 0;
                    if ps.is_empty() { n += wasm::apply_patches_with_slots_on(&ps, &mut sl, &sel).map_err(say)? }
                    for c in ps.chunks(o["chunk"].as_u64().unwrap_or(1) as usize) {
                        n += if plain { wasm::apply_patches_with_slots(c, &mut sl) } else { wasm::apply_patches_with_slots_on(c, &mut sl, &sel) }.map_err(say)?;
                    }
                    Ok(n)
                }
                _ => if plain { wasm::apply_patches(&ps) } else { wasm::apply_patches_on(&ps, &sel) },
            };
            Ok((n.map_err(say)?, ps.len()))
        };
        let (err, n, np) = match guard(f) { Ok(Ok((n, np))) => (String::new(), n, np), Ok(Err(e)) => (e, 0, 0), Err(e) => (e, 0, 0) };
        steps.push(json!({"err": err, "n": n, "np": np, "t": dom_dump(&root)}));
    }
    json!({"start": start, "steps": steps})
}
