//! histories of one browser that runs the live-reload client, its connections, and the server
use crate::tree::*;
use crate::*;
use hotmeal_server::*;
use roam::sim;
use wasm_bindgen::JsValue;
use web_sys::testing as dom;

unsafe extern "Rust" {
    /// what hotmeal-wasm exports to JavaScript
    #[link_name = "wasm_bindgen_start_live_reload"]
    safe fn start_live_reload(ws_url: &str, mount_selector: &str) -> Result<(), JsValue>;
}
use hotmeal_wasm as _;

/// the page of the browser: the document's body, or what the shell has around its children
fn show(html: &str, v: &Value) -> web_sys::Node {
    let mut b = body(&hotmeal::parse(&hotmeal::StrTendril::from(html)));
    if !v["shell"].is_null() {
        let mut sh = v["shell"].clone();
        let i = v["hole"].as_u64().unwrap() as usize;
        sh["c"][i]["c"] = b["c"].take();
        b = sh;
    }
    page(&b).parent_node().unwrap()
}
pub fn run(v: &Value) -> Value {
    let (url, css) = (s(v, "url"), s(v, "css"));
    let path = v["path"].as_str().map(|p| p.to_owned());
    let entry = path.clone().unwrap_or("/".into());
    let mut here = entry.clone();
    let docs: Vec<String> = list(v, "docs").iter().map(|d| d.as_str().unwrap().to_owned()).collect();
    let go = |r: &str| dom::set_path(if r == entry { path.clone() } else { Some(r.to_owned()) });
    go(&here);
    dom::reloads();
    let mut srv = LiveReloadServer::new();
    let mut cur = std::collections::HashMap::new();
    let mut root = page(&Value::Null);
    let (mut conn, mut subscribed) = (0, None::<String>);
    let mut steps = vec![];
    let visit = |html: &str| {
        sim::reset();
        let r = show(html, v);
        start_live_reload(&url, &css).unwrap();
        r
    };
    for o in list(v, "steps") {
        let (r, d) = (s(o, "r"), o["d"].as_u64().unwrap_or(1) as usize - 1);
        let first = |k: &str| sim::asks().into_iter().find(|a| a.kind == k);
        let outcome = |ok: bool| if ok { Ok(()) } else { Err(sim::Error("broken".into())) };
        let ok = o["ok"] == json!(1);
        let (mut sent, mut ev) = (None, "");
        let name = |e: &LiveReloadEvent| match e { LiveReloadEvent::Reload => "reload", LiveReloadEvent::HeadChanged { .. } => "head", LiveReloadEvent::Patches { .. } => "patches" };
        match o["o"].as_str().unwrap() {
            "load" => {
                here = r.clone();
                go(&here);
                srv.cache_html(&here, &docs[d]);
                cur.insert(here.clone(), d);
                root = visit(&docs[d]);
                (conn, subscribed) = (0, None);
            }
            "nav" => {
                // the page's own scripts fetch another route and put it in place
                here = r.clone();
                go(&here);
                srv.cache_html(&here, &docs[d]);
                cur.insert(here.clone(), d);
                root = show(&docs[d], v);
            }
            "connect" => if let Some(a) = first("connect") { sim::answer(a.id, outcome(ok)); conn = a.conn; },
            "shake" => if let Some(a) = first("handshake") { sim::answer(a.id, outcome(ok)) },
            "ack" => {
                // the server has heard of the subscription, whether or not its answer arrives
                if let Some(a) = first("call") { sim::answer(a.id, outcome(ok)) }
                if !ok { for a in sim::asks() { if a.kind == "serve" { sim::answer(a.id, outcome(false)) } } (conn, subscribed) = (0, None); }
            }
            "drop" => {
                for a in sim::asks() { if a.kind == "call" { sim::answer(a.id, outcome(false)) } else if a.kind == "serve" { sim::answer(a.id, outcome(ok)) } }
                (conn, subscribed) = (0, None);
            }
            "wake" => if let Some(a) = first("sleep") { sim::answer(a.id, Ok(())) },
            "change" | "changeh" => {
                let e = if o["o"] == "change" { srv.diff_route(&r, &docs[d]) } else { srv.diff_route_with_head(&r, &docs[d], &s(o, "hd")) };
                cur.insert(r.clone(), d);
                ev = e.as_ref().map_or("none", name);
                if subscribed.as_ref() == Some(&r) { sent = e }
            }
            "send" => sent = Some(match s(o, "e").as_str() {
                "reload" => LiveReloadEvent::Reload,
                "head" => LiveReloadEvent::HeadChanged { route: here.clone() },
                _ => LiveReloadEvent::Patches { route: here.clone(), patches_blob: vec![9, 200] },
            }),
            k => panic!("step {k}"),
        }
        if let Some(e) = sent { sim::send(conn, "on_event", facet_postcard::to_vec(&e).unwrap()) }
        sim::turn();
        let n = dom::reloads();
        if n > 0 {
            root = visit(&docs[*cur.get(&here).unwrap_or(&0)]);
            (conn, subscribed) = (0, None);
            sim::turn();
        }
        let mut waits = vec![];
        let mut open = 0;
        for a in sim::asks() {
            let what = match a.kind {
                "serve" => { open += 1; continue }
                "call" => {
                    let r: String = facet_postcard::from_slice(&a.bytes).unwrap();
                    subscribed = Some(r.clone());
                    format!("{} {r}", a.what)
                }
                "handshake" => String::new(),
                _ => a.what.clone(),
            };
            waits.push(json!([a.kind, what]));
        }
        steps.push(json!({"ev": ev, "reloads": n, "waits": waits, "open": open, "t": dom_dump(&root)}));
    }
    sim::reset();
    json!({"steps": steps})
}
