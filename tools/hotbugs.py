#!/usr/bin/env python3
"""Writes /verif/seeded/h*/ : planted bugs in hotmeal, hotmeal-server and hotmeal-wasm. Their demonstrations build the
crates' own sources in a scratch folder against the stand-ins, which lie beside them in w/."""
import json, os, re, shutil, subprocess, sys
V = '/verif'
PRE = r'''
#![allow(dead_code, unused)]
use hotmeal::*;
use web_sys::testing as dom;
use wasm_bindgen::JsCast;
use web_sys::{Element, Node};
struct Rng(u64);
impl Rng {
    fn n(&mut self, k: usize) -> usize { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; (self.0 >> 11) as usize % k }
    fn pick<'x>(&mut self, l: &[&'x str]) -> &'x str { l[self.n(l.len())] }
}
/// a body's content, made of tags that nest freely
fn markup(r: &mut Rng, n: usize, deep: usize) -> String {
    let (mut o, mut text) = (String::new(), false);
    for _ in 0..r.n(n) + 1 {
        match r.n(5) {
            0 if !text => { o += r.pick(&["a", "b", "c", "dd"]); text = true; continue }
            1 => o += r.pick(&["<!--x-->", "<!--y-->"]),
            _ => {
                let t = r.pick(&["div", "section", "span"]);
                let a = r.pick(&["", "", " id=\"i\"", " class=\"k\"", " class=\"l\""]);
                let inner = if deep > 0 && r.n(3) > 0 { markup(r, n, deep - 1) } else { String::new() };
                o += &format!("<{t}{a}>{inner}</{t}>");
            }
        }
        text = false;
    }
    o
}
fn page(inner: &str) -> String { format!("<html><head></head><body>{inner}</body></html>") }
fn doc(html: &str) -> Document<'static> { parse(Box::leak(Box::new(StrTendril::from(html)))) }
fn patches(a: &str, b: &str) -> Vec<Patch<'static>> {
    let (a, b) = (Box::leak(Box::new(doc(a))), Box::leak(Box::new(doc(b))));
    diff(a, b).unwrap()
}
/// what the native applier makes of the old page
fn native(a: &str, b: &str) -> String {
    let mut d = doc(a);
    if let Err(e) = d.apply_patches(patches(a, b)) { return format!("error {e}") }
    d.to_body_html()
}
fn dom_fill(w: &web_sys::Document, host: &Node, d: &Document, id: NodeId) {
    for c in id.children(&d.arena) {
        let n: Node = match &d.get(c).kind {
            NodeKind::Element(e) => {
                let x = dom::raw_element(d.get(c).ns.url(), e.tag.as_ref());
                for (k, v) in &e.attrs { dom::raw_attribute(&x, &k.ns, k.local.as_ref(), v) }
                x.into()
            }
            NodeKind::Text(t) => w.create_text_node(t).into(),
            NodeKind::Comment(t) => w.create_comment(t).into(),
            NodeKind::Document => unreachable!(),
        };
        dom_fill(w, &n, d, c);
        host.append_child(&n).unwrap();
    }
}
/// a browser that shows the page; its body
fn browser(html: &str) -> Node {
    let (w, d) = (dom::reset(), doc(html));
    let b: Node = w.body().unwrap().into();
    if let NodeKind::Element(e) = &d.get(d.body().unwrap()).kind { for (k, v) in &e.attrs { dom::raw_attribute(b.unchecked_ref::<Element>(), &k.ns, k.local.as_ref(), v) } }
    dom_fill(&w, &b, &d, d.body().unwrap());
    b
}
fn shown(b: &Node) -> String { b.unchecked_ref::<Element>().inner_html() }
fn inner(html: &str) -> String { shown(&browser(html)) }
'''
DEMO = '''#!/bin/bash
# builds /repo's sources against the stand-ins that lie beside this file, in a scratch folder, and runs main.rs
here="$(cd "$(dirname "$0")" && pwd)"; repo="$(pwd)"; w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
cp -r "$here/w/." "$w"; mkdir -p "$w/demo/src"; cp "$here/main.rs" "$w/demo/src/"
find "$w" -name Cargo.toml -exec sed -i "s#@REPO@#$repo#g" {} +
cd "$w" && RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$w/t" cargo build --offline -q -p demo 2>"$w/log" || { tail -50 "$w/log"; exit 3; }
timeout 100 "$w/t/debug/demo"
'''
def ground(d):
    shutil.rmtree(f'{d}/w', ignore_errors=True)
    os.makedirs(f'{d}/w')
    H = f'{V}/harness/hot'
    for x in ('standins', 'crates'): shutil.copytree(f'{H}/{x}', f'{d}/w/{x}', ignore=shutil.ignore_patterns('target', 'README.md'))
    t = open(f'{H}/Cargo.toml').read().replace('"rec"', '"demo"')
    open(f'{d}/w/Cargo.toml', 'w').write(''.join(l for l in t.splitlines(True) if not l.startswith('#')))
    os.makedirs(f'{d}/w/demo')
    m = re.sub(r'name = "hot-rec"', 'name = "demo"', open(f'{H}/rec/Cargo.toml').read())
    open(f'{d}/w/demo/Cargo.toml', 'w').write(m)
    shutil.copy(f'{H}/Cargo.lock', f'{d}/w/Cargo.lock')
    lock = open(f'{d}/w/Cargo.lock').read().replace('name = "hot-rec"', 'name = "demo"')
    open(f'{d}/w/Cargo.lock', 'w').write(lock)
    for r, _, fs in os.walk(f'{d}/w'):
        for f in fs:
            if f == 'Cargo.toml':
                p = f'{r}/{f}'; s = open(p).read()
                open(p, 'w').write(re.sub(r'/repo\b', '@REPO@', s))
B = []
def bug(**k): B.append(k)
bug(id='h01', prop='H11', edits=[('hotmeal/src/dom.rs', '''    } else if has_html_structure(input_ref) {
''', '''    } else if has_html_structure(input_ref) || input_ref.trim_start().starts_with("<!--") {
''')], needs='bare content (no html or body tag) that begins with a comment', breaks='the comment is taken for one in front of a document and is missing from the body', demo='''
fn main() {
    let d = doc("<!--c--><p>x</p>");
    if d.to_body_html() != "<!--c--><p>x</p>" { println!("{}", d.to_body_html()); std::process::exit(1) }
}''')
bug(id='h02', prop='H01', edits=[('hotmeal/src/diff.rs', '''                let text = tree_b.text(child_id).cloned().unwrap_or_default();
                children.push(InsertContent::Comment(text));
''', '''                // a comment inside an element that the page has not shown before: nothing to see
                if !children.is_empty() {
                    let text = tree_b.text(child_id).cloned().unwrap_or_default();
                    children.push(InsertContent::Comment(text));
                }
''')], needs='a new opaque element whose content starts with a comment', breaks='the comment is lost', demo='''
fn main() {
    let (a, b) = (page("<p>x</p>"), page("<p>x</p><div data-hotmeal-opaque><!--c--><i>y</i></div>"));
    let (x, y) = (native(&a, &b), doc(&b).to_body_html());
    if x != y { println!("{x} is not {y}"); std::process::exit(1) }
}''')
bug(id='h03', prop='H06', edits=[('hotmeal/src/diff.rs', '''        let order_differs = self_common != other_common;
''', '''        let order_differs = self_common.first() != other_common.first();
''')], needs='an element with at least three attributes of which all but the first change places', breaks='the new order is not established', demo='''
fn main() {
    let (a, b) = (page("<p id=\\"a\\" class=\\"b\\" title=\\"c\\">x</p>"), page("<p id=\\"a\\" title=\\"c\\" class=\\"b\\">x</p>"));
    let (x, y) = (native(&a, &b), doc(&b).to_body_html());
    if x != y { println!("{x} is not {y}"); std::process::exit(1) }
}''')
bug(id='h04', prop='H09', edits=[('hotmeal/src/dom.rs', '''                // Escape text content
                for c in text.as_ref().chars() {
                    match c {
                        '&' => out.push_str("&amp;"),
''', '''                // Escape text content
                let text = text.as_ref();
                for (i, c) in text.char_indices() {
                    match c {
                        // an ampersand that starts no reference stays as it is
                        '&' if text[i + 1..].starts_with([' ', '&', '<', ';']) => out.push(c),
                        '&' if i + 1 == text.len() => out.push(c),
                        '&' => out.push_str("&amp;"),
''')], needs='a text that ends with an ampersand, followed by one (without element between) that reads like a reference: left by a patch', breaks='the two texts read back as a reference', demo='''
fn main() {
    let mut d = doc(&page("<p></p>"));
    let p = d.first_child(d.body().unwrap()).unwrap();
    let (a, b) = (d.create_text("x &"), d.create_text("lt; y"));
    d.append_child(p, a);
    d.append_child(p, b);
    let e = doc(&d.to_html());
    let q = e.first_child(e.body().unwrap()).unwrap();
    let t: String = e.children(q).map(|c| match &e.get(c).kind { NodeKind::Text(t) => t.to_string(), _ => String::new() }).collect();
    if t != "x &lt; y" { println!("{t:?}"); std::process::exit(1) }
}''')
bug(id='h05', prop='S01', edits=[('hotmeal-server/src/lib.rs', '''            // Head changed — must full reload, but still update HTML cache
            self.html_cache
                .insert(route.to_owned(), new_html.to_owned());
''', '''            // Head changed — must full reload: the browser asks for the page, which caches it
''')], needs='a head change, and another change before the page is served again', breaks='the next change is compared with a page that no browser shows any more', demo='''
use hotmeal_server::*;
fn main() {
    let mut s = LiveReloadServer::new();
    let (a, b) = (page("<p>a</p>"), page("<p>b</p>"));
    s.cache_html("/", &a);
    assert!(matches!(s.diff_route_with_head("/", &b, "<style></style>"), Some(LiveReloadEvent::HeadChanged { .. })));
    let e = s.diff_route_with_head("/", &a, "<style></style>");
    if !matches!(e, Some(LiveReloadEvent::Patches { .. })) { println!("{e:?}"); std::process::exit(1) }
}''')
bug(id='h06', prop='H08', edits=[('hotmeal/src/dom.rs', '''                    if let NodeKind::Text(existing) = &mut arena[prev_sibling].get_mut().kind {
                        let existing_preview = existing.as_ref();
''', '''                    let alone = arena[prev_sibling].previous_sibling().is_none();
                    if let NodeKind::Text(existing) = &mut arena[prev_sibling].get_mut().kind
                        && !alone
                    {
                        let existing_preview = existing.as_ref();
''')], needs='text that is moved in front of a table twice, with nothing before it in the parent', breaks='two adjacent text nodes instead of one', demo='''
fn main() {
    let d = doc(&page("<div><table>a<tr>b</table></div>"));
    let div = d.first_child(d.body().unwrap()).unwrap();
    let n = d.children(div).count();
    if n != 2 { println!("{n} children: {}", d.dump_subtree(div)); std::process::exit(1) }
}''')
bug(id='h07', prop='H10', edits=[('hotmeal/src/diff.rs', '''                attrs: attrs.into_iter().map(|a| a.into_owned()).collect(),
                children: children.into_iter().map(|c| c.into_owned()).collect(),
            },
            InsertContent::Text(s) => InsertContent::Text(s.into_owned()),
''', '''                attrs: attrs.into_iter().map(|a| a.into_owned()).collect(),
                children: children
                    .into_iter()
                    .filter(|c| !matches!(c, InsertContent::Text(s) if s.trim().is_empty()))
                    .map(|c| c.into_owned())
                    .collect(),
            },
            InsertContent::Text(s) => InsertContent::Text(s.into_owned()),
''')], needs='a patch that inserts content two levels deep with a blank text in it', breaks='the blank text is lost on the way to the browser', demo='''
fn main() {
    let (a, b) = (page("<p>x</p>"), page("<p>x</p><div data-hotmeal-opaque><i><b>y</b> <b>z</b></i></div>"));
    let mut d = doc(&a);
    d.apply_patches(patches(&a, &b).into_iter().map(|p| p.into_owned()).collect()).unwrap();
    let (x, y) = (d.to_body_html(), doc(&b).to_body_html());
    if x != y { println!("{x} is not {y}"); std::process::exit(1) }
}''')
bug(id='h08', prop='W01', edits=[('hotmeal-wasm/src/lib.rs', '''                if let Some(parent) = target.parent_node() {
                    let empty_text = doc.create_text_node("");
                    parent.replace_child(&empty_text, &target)?;
                }
            }
        }

        Patch::InsertElement {''', '''                if let Some(parent) = target.parent_node() {
                    // the slot is not part of the page: no placeholder needed
                    parent.remove_child(&target)?;
                }
            }
        }

        Patch::InsertElement {''')], needs='a displaced subtree of which a node is removed that stands before another one that is used later', breaks='the positions behind it shift, later patches hit other nodes or none', demo='''
fn main() {
    let mut r = Rng(88172645463325252);
    for i in 0..6000 {
        let (a, b) = (page(&markup(&mut r, 4, 2)), page(&markup(&mut r, 4, 2)));
        let p = patches(&a, &b);
        let body = browser(&a);
        let e = hotmeal_wasm::apply_patches(&p).is_err();
        let (x, y) = (shown(&body), inner(&b));
        if e || x != y { println!("{i}: {e} {a}\\n -> {b}\\n got {x}"); std::process::exit(1) }
    }
}''')
bug(id='h09', prop='W02', edits=[('hotmeal-wasm/src/lib.rs', '''            let node = if from_path.0.len() == 1 {
                let slot = from_path.0[0];
                slots
                    .take(slot)
                    .ok_or_else(|| JsValue::from_str(&format!("slot {} is empty", slot)))?
            } else {''', '''            let node = if from_path.0.len() == 1 {
                let slot = from_path.0[0];
                let stored = slots
                    .take(slot)
                    .ok_or_else(|| JsValue::from_str(&format!("slot {} is empty", slot)))?;
                if stored.has_child_nodes() {
                    stored
                } else {
                    // nothing inside: a copy takes its place in one step
                    stored.clone_node_with_deep(false)?
                }
            } else {''')], needs='a node without children that is displaced and then takes another place', breaks='the page shows a copy, with another identity and without listeners', demo='''
fn all(n: &Node, l: &mut Vec<(String, u64)>) { for c in dom::children(n) { l.push((c.node_name(), dom::id(&c))); all(&c, l) } }
fn main() {
    let (a, b) = (page("<input id=\\"a\\"><p>x</p>"), page("<p>x</p><input id=\\"a\\">"));
    let body = browser(&a);
    let (mut old, mut new) = (vec![], vec![]);
    all(&body, &mut old);
    hotmeal_wasm::apply_patches(&patches(&a, &b)).unwrap();
    all(&body, &mut new);
    for x in &new { if x.0 != "#text" && !old.contains(x) { println!("{old:?} {new:?}"); std::process::exit(1) } }
}''')
bug(id='h10', prop='H07', edits=[('hotmeal/src/dom.rs', '''            let value = value.into();
            // Find existing attribute and update, or append new one
            if let Some((_, existing_value)) = elem.attrs.iter_mut().find(|(k, _)| k == &name) {
''', '''            let value = value.into();
            // Find existing attribute and update, or append new one
            if let Some((_, existing_value)) = elem.attrs.iter_mut().find(|(k, _)| k.local == name.local) {
''')], needs='an element with href when xlink:href is set', breaks='the other attribute is overwritten', demo='''
fn main() {
    let mut d = doc(&page("<p></p>"));
    let p = d.first_child(d.body().unwrap()).unwrap();
    d.set_attr(p, QualName::new(None, "".into(), "href".into()), "a");
    d.set_attr(p, QualName::new(Some("xlink".into()), "http://www.w3.org/1999/xlink".into(), "href".into()), "b");
    let NodeKind::Element(e) = &d.get(p).kind else { unreachable!() };
    if e.attrs.len() != 2 || e.attrs[0].1.as_ref() as &str != "a" { println!("{:?}", e.attrs); std::process::exit(1) }
}''')
bug(id='h11', prop='W03', edits=[('hotmeal-wasm/src/lib.rs', '''        .map_err(|e| JsValue::from_str(&format!("invalid selector {selector:?}: {e:?}")))?
        .map(|el| el.into())
''', '''        .map_err(|e| JsValue::from_str(&format!("invalid selector {selector:?}: {e:?}")))?
        .or_else(|| doc.body().map(|b| b.into()))
        .map(|el| el.into())
''')], needs='a selector that matches nothing on the page at hand', breaks='the update is applied to the body instead of being refused', demo='''
fn main() {
    let (a, b) = (page("<p>x</p>"), page("<p>y</p>"));
    let body = browser(&a);
    let r = hotmeal_wasm::apply_patches_on(&patches(&a, &b), "#app");
    if r.is_ok() || shown(&body) != "<p>x</p>" { println!("{:?} {}", r.is_ok(), shown(&body)); std::process::exit(1) }
}''')
bug(id='h12', prop='S02', edits=[('hotmeal-server/src/lib.rs', '''        let html_removed = self.html_cache.remove(route).is_some();
        let head_removed = self.head_cache.remove(route).is_some();
        html_removed || head_removed
''', '''        self.html_cache.remove(route).is_some() || self.head_cache.remove(route).is_some()
''')], needs='a route with a page and head injections that is removed and then comes back with the same injections', breaks='the injections of the removed route are still remembered', demo='''
use hotmeal_server::*;
fn main() {
    let mut s = LiveReloadServer::new();
    s.cache_html("/", "<p>a</p>");
    s.cache_head_injections("/", "<style></style>");
    s.remove_route("/");
    if !s.cache_head_injections("/", "<style></style>") { println!("not reported as a change"); std::process::exit(1) }
}''')
bug(id='h13', prop='W04', edits=[('hotmeal-wasm/src/lib.rs', '''        let mount_selector = mount_selector.to_owned();

        wasm_bindgen_futures::spawn_local(async move {
            live_reload_loop(&ws_url, &mount_selector).await;
        });
''', '''        let mount_selector = mount_selector.to_owned();
        let route = web_sys::window()
            .and_then(|w| w.location().pathname().ok())
            .unwrap_or_else(|| "/".to_owned());

        wasm_bindgen_futures::spawn_local(async move {
            live_reload_loop(&ws_url, &mount_selector, &route).await;
        });
'''), ('hotmeal-wasm/src/lib.rs', '''    async fn live_reload_loop(ws_url: &str, mount_selector: &str) {
''', '''    async fn live_reload_loop(ws_url: &str, mount_selector: &str, route: &str) {
'''), ('hotmeal-wasm/src/lib.rs', '''            match live_reload_session(ws_url, mount_selector).await {
''', '''            match live_reload_session(ws_url, mount_selector, route).await {
'''), ('hotmeal-wasm/src/lib.rs', '''    async fn live_reload_session(
        ws_url: &str,
        mount_selector: &str,
    )''', '''    async fn live_reload_session(
        ws_url: &str,
        mount_selector: &str,
        route: &str,
    )'''), ('hotmeal-wasm/src/lib.rs', '''        let route = web_sys::window()
            .and_then(|w| w.location().pathname().ok())
            .unwrap_or_else(|| "/".to_owned());

        log(&format!("[hotmeal-wasm] subscribing to route: {route}"));
        client.subscribe(route).await?;
''', '''        log(&format!("[hotmeal-wasm] subscribing to route: {route}"));
        client.subscribe(route.to_owned()).await?;
''')], needs="a page whose scripts go to another route before the connection is lost and found again", breaks='the client subscribes for the route that the page no longer shows', demo='''
unsafe extern "Rust" {
    #[link_name = "wasm_bindgen_start_live_reload"]
    safe fn start_live_reload(ws_url: &str, mount_selector: &str) -> Result<(), wasm_bindgen::JsValue>;
}
use hotmeal_wasm as _;
use roam::sim;
fn answer(kind: &str) { let a = sim::asks().into_iter().find(|a| a.kind == kind).expect(kind); sim::answer(a.id, Ok(())); sim::turn() }
fn subscribed() -> String {
    let a = sim::asks().into_iter().find(|a| a.kind == "call").unwrap();
    facet_postcard::from_slice(&a.bytes).unwrap()
}
fn main() {
    let b = browser(&page("<p>x</p>"));
    sim::reset();
    dom::set_path(Some("/a".into()));
    start_live_reload("ws://x", "body").unwrap();
    sim::turn();
    answer("connect"); answer("handshake");
    assert_eq!(subscribed(), "/a");
    answer("call"); answer("serve");
    dom::set_path(Some("/b".into()));
    answer("sleep"); answer("connect"); answer("handshake");
    if subscribed() != "/b" { println!("{}", subscribed()); std::process::exit(1) }
}''')
bug(id='h14', prop='H05', edits=[('hotmeal/src/diff.rs', '''        if !diff_b.is_opaque(b_id) {
            continue;
        }
''', '''        if !diff_b.is_opaque(b_id) || diff_b.child_count(b_id) == 0 {
            continue;
        }
''')], needs='an opaque element that loses all its content', breaks='nobody is told, and the old content stays', demo='''
fn main() {
    let (a, b) = (page("<div data-hotmeal-opaque=\\"k\\"><p>x</p></div>"), page("<div data-hotmeal-opaque=\\"k\\"></div>"));
    let n = patches(&a, &b).len();
    if n != 1 { println!("{n} patches"); std::process::exit(1) }
}''')
bug(id='h15', prop='H12', edits=[('hotmeal/src/diff.rs', '''        let self_keys: std::collections::HashSet<_> = self.attrs.iter().map(|(k, _)| k).collect();
        let other_keys: std::collections::HashSet<_> = other.attrs.iter().map(|(k, _)| k).collect();
''', '''        let self_keys: std::collections::HashSet<_> = self.attrs.iter().collect();
        let other_keys: std::collections::HashSet<_> = other.attrs.iter().collect();
''')], needs='an element whose attributes all get other values, with other texts inside', breaks='it is replaced by a new element instead of being updated', demo='''
fn main() {
    let mut r = Rng(88172645463325252);
    for i in 0..3000 {
        // other values and texts, nothing else
        let a = page(&format!("<p>s</p><div class=\\"k\\">{}</div><p>t</p>", ["a", "<i>a</i>"][i % 2]));
        let b = page(&format!("<p>s</p><div class=\\"l\\">{}</div><p>t</p>", ["x", "<i>x</i>"][i % 2]));
        if patches(&a, &b).iter().any(|p| matches!(p, Patch::InsertElement { tag, .. } if tag.as_ref() as &str == "div")) { println!("{i}: {a}\\n{:?}", patches(&a, &b)); std::process::exit(1) }
    }
}''')
bug(id='h16', prop='H03', edits=[('hotmeal/src/diff.rs', '''        if let Some(text) = &data.text {
            text.hash(&mut hasher);
        }

        // Hash children's hashes''', '''        if let Some(text) = &data.text
            && data.kind == HtmlNodeKind::Text
        {
            text.hash(&mut hasher);
        }

        // Hash children's hashes'''), ('hotmeal/src/diff.rs', '''                if let Some(text) = &data.text {
                    text.hash(&mut hasher);
                }
                for child_id in &children {''', '''                if let Some(text) = &data.text
                    && data.kind == HtmlNodeKind::Text
                {
                    text.hash(&mut hasher);
                }
                for child_id in &children {''')], needs='an opaque element of whose content only a comment changes', breaks='the diff is empty although the documents differ', demo='''
fn main() {
    let (a, b) = (page("<div data-hotmeal-opaque><p>x<!--a--></p></div>"), page("<div data-hotmeal-opaque><p>x<!--b--></p></div>"));
    if patches(&a, &b).is_empty() { println!("no patches"); std::process::exit(1) }
}''')
bug(id='h17', prop='H04', edits=[('hotmeal-server/src/lib.rs', '''        if old_html == new_html {
            return None;
        }
''', '''        if old_html.trim() == new_html.trim() {
            return None;
        }
''')], needs='a change of nothing but white space at the end of bare content', breaks='the change never reaches the browser', demo='''
use hotmeal_server::*;
fn main() {
    let mut s = LiveReloadServer::new();
    s.cache_html("/", "<p>a</p>");
    let e = s.diff_route("/", "<p>a</p>\\n");
    if !matches!(e, Some(LiveReloadEvent::Patches { .. })) { println!("{e:?}"); std::process::exit(1) }
}''')
bug(id='h18', prop='H10', edits=[('hotmeal/src/diff.rs', '''                .filter(|p| !p.is_empty())
                .map(|p| p.to_string()),
            ns: qual.ns.to_string(),
''', '''                .filter(|p| !p.is_empty() && qual.ns.ends_with(p.as_ref() as &str))
                .map(|p| p.to_string()),
            ns: qual.ns.to_string(),
''')], needs='an attribute with the prefix xml, sent over the wire', breaks='the prefix is lost (its namespace does not end with it)', demo='''
fn main() {
    let q = QualName::new(Some("xml".into()), "http://www.w3.org/XML/1998/namespace".into(), "lang".into());
    let p = vec![Patch::SetAttribute { path: NodePath(vec![0, 1].into_iter().collect()), name: q, value: Stem::from("en") }];
    let bytes = facet_postcard::to_vec(&p).unwrap();
    let r: Vec<Patch<'static>> = facet_postcard::from_slice(&bytes).unwrap();
    if r != p { println!("{r:?}"); std::process::exit(1) }
}''')
bug(id='h19', prop='H13', edits=[('hotmeal/src/dom.rs', '''            self.apply_patch(patch, &mut slots)?;
        }

        Ok(())
    }

    /// Initialize slot map''', '''            match self.apply_patch(patch, &mut slots) {
                // what is gone needs no change any more
                Err(DiffError::PathOutOfBounds { .. }) => continue,
                done => done?,
            }
        }

        Ok(())
    }

    /// Initialize slot map''')], needs='patches made for another version of the document', breaks='later patches are applied after one that does not fit, and no error is reported', demo='''
fn main() {
    let at = |p: &[u32]| NodePath(p.iter().copied().collect());
    let ps = vec![Patch::SetText { path: at(&[0, 1, 0]), text: Stem::from("x") }, Patch::SetText { path: at(&[0, 0, 0]), text: Stem::from("y") }];
    let mut d = doc("<html><body><p>a</p></body></html>");
    let r = d.apply_patches(ps);
    if r.is_ok() || d.to_body_html() != "<p>a</p>" { println!("{r:?} {}", d.to_body_html()); std::process::exit(1) }
}''')
bug(id='h20', prop='S04', edits=[('hotmeal-server/src/lib.rs', '''</script>"#,
    )
}
''', '''</script>"#,
    )
    .replace("  ", " ")
}
''')], needs='a URL or selector with two spaces in a row', breaks='it is passed on with one space', demo='''
fn main() {
    let sel = "[title='a  b']";
    let s = hotmeal_server::loader_script("/x.js", "/x.wasm", sel, "ws://h/");
    if !s.contains(sel) { println!("{s}"); std::process::exit(1) }
}''')
def main():
    want = sys.argv[1:]
    for b in B:
        if want and b['id'] not in want: continue
        d = f'{V}/seeded/{b["id"]}'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        try:
            for f, old, new in b['edits']:
                p = f'/repo/{f}'; s = open(p).read()
                assert s.count(old) == 1, (b['id'], f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run('git -C /repo diff', shell=True, capture_output=True, text=True).stdout
        finally: subprocess.run('git -C /repo checkout -q -- .', shell=True)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/main.rs', 'w').write(PRE + b['demo'] + '\n'); open(f'{d}/demo.sh', 'w').write(DEMO)
        ground(d)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(f'{d}/meta.json', 'w'), indent=1)
if __name__ == '__main__': main()
