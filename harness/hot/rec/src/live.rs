//! histories of a live-reload server with one browser per route
use crate::tree::*;
use crate::*;
use hotmeal::*;
use hotmeal_server::*;
use hotmeal_wasm as wasm;
use std::collections::BTreeMap;
use web_sys::testing as dom;

struct Client { nat: Document<'static>, page: web_sys::Document }
fn load(html: &str) -> Client {
    let t: &'static StrTendril = Box::leak(Box::new(StrTendril::from(html)));
    let nat = hotmeal::parse(t);
    page(&body(&nat));
    Client { nat, page: web_sys::window().unwrap().document().unwrap() }
}
fn event(e: &LiveReloadEvent) -> Value {
    match e {
        LiveReloadEvent::Reload => json!({"ev": "reload", "route": "", "n": 0}),
        LiveReloadEvent::HeadChanged { route } => json!({"ev": "head", "route": route, "n": 0}),
        LiveReloadEvent::Patches { route, patches_blob } => {
            let n = facet_postcard::from_slice::<Vec<Patch<'static>>>(patches_blob).map_or(-1, |p| p.len() as i64);
            json!({"ev": "patches", "route": route, "n": n})
        }
    }
}
pub fn run(v: &Value) -> Value {
    let mut srv = LiveReloadServer::new();
    let mut cl: BTreeMap<String, Client> = BTreeMap::new();
    let mut steps = vec![];
    for o in list(v, "steps") {
        let (r, h, hd) = (s(o, "r"), s(o, "h"), s(o, "hd"));
        let mut rec = json!({"ev": "", "route": "", "n": 0, "prev": "", "had": false, "flag": false, "routes": [], "err": "", "werr": "", "cl": none(), "wcl": none(), "want": none(), "wire": ""});
        match o["o"].as_str().unwrap() {
            "serve" => {
                let p = srv.cache_html(&r, &h);
                rec["had"] = json!(p.is_some());
                rec["prev"] = json!(p.unwrap_or_default());
                cl.insert(r.clone(), load(&h));
            }
            "head" => rec["flag"] = json!(srv.cache_head_injections(&r, &hd)),
            "rm" => rec["flag"] = json!(srv.remove_route(&r)),
            "clear" => srv.clear(),
            k @ ("diff" | "diffh") => {
                let e = if k == "diff" { srv.diff_route(&r, &h) } else { srv.diff_route_with_head(&r, &h, &hd) };
                match e {
                    None => rec["ev"] = json!("none"),
                    Some(sent) => {
                        let bytes = sent.to_postcard();
                        let got = match LiveReloadEvent::from_postcard(&bytes) { Ok(e) => e, Err(e) => panic!("event does not decode: {e}") };
                        let (a, b) = (event(&sent), event(&got));
                        for k in ["ev", "route", "n"] { rec[k] = b[k].clone() }
                        if a != b { rec["wire"] = json!(format!("{a} became {b}")) }
                        match got {
                            LiveReloadEvent::Reload | LiveReloadEvent::HeadChanged { .. } => if cl.contains_key(&r) { cl.insert(r.clone(), load(&h)); },
                            LiveReloadEvent::Patches { route, patches_blob } => if let Some(c) = cl.get_mut(&route) {
                                match facet_postcard::from_slice::<Vec<Patch<'static>>>(&patches_blob) {
                                    Err(e) => rec["err"] = json!(e.to_string()),
                                    Ok(p) => match guard(|| c.nat.apply_patches(p)) { Ok(Ok(())) => {} Ok(Err(e)) => rec["err"] = json!(e.to_string()), Err(e) => rec["err"] = json!(e) },
                                }
                                dom::show(&c.page);
                                match guard(|| wasm::apply_patches_postcard_on(&patches_blob, "body")) { Ok(Ok(_)) => {} Ok(Err(e)) => rec["werr"] = json!(e.as_string().unwrap_or_default()), Err(e) => rec["werr"] = json!(e) }
                            },
                        }
                    }
                }
                rec["want"] = body(&hotmeal::parse(&StrTendril::from(h.as_str())));
                if let Some(c) = cl.get(&r) {
                    rec["cl"] = body(&c.nat);
                    rec["wcl"] = dom_dump(&c.page.body().unwrap());
                }
            }
            k => panic!("step {k}"),
        }
        let mut rs = srv.cached_routes();
        rs.sort();
        rec["routes"] = json!(rs);
        steps.push(rec);
    }
    json!({"steps": steps})
}
pub fn inject(v: &Value) -> Value { json!({"out": inject_into_head(&s(v, "html"), &s(v, "content"))}) }
pub fn loader(v: &Value) -> Value { json!({"out": hotmeal_server::loader_script(&s(v, "js"), &s(v, "wasm"), &s(v, "sel"), &s(v, "ws"))}) }
