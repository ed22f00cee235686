//! Runs the real hotmeal code on the inputs given on stdin, one JSON object per line, and records what it did,
//! one JSON object per line. It judges nothing: the TLA+ specifications do.
mod client;
mod dom;
mod live;
mod patches;
mod tree;
use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

/// the answer of f, or the text of its panic
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let t = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        format!("panic: {}", t.unwrap_or_default())
    })
}
pub fn s(v: &Value, k: &str) -> String { v[k].as_str().unwrap_or("").to_owned() }
pub fn leak(v: &str) -> &'static str { Box::leak(v.to_owned().into_boxed_str()) }

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let work = || {
        let mut out = std::io::stdout().lock();
        for line in std::io::stdin().lock().lines() {
            let Ok(line) = line else { break };
            if line.trim().is_empty() { continue }
            let mut d = serde_json::Deserializer::from_str(&line);
            d.disable_recursion_limit();
            let v: Value = d.into_iter().next().unwrap().expect("bad input");
            let mut r = guard(|| match v["op"].as_str().unwrap() {
                "diff" => patches::run(&v),
                "mount" => patches::mount(&v),
                "parse" => tree::parse(&v),
                "html" => tree::html(&v),
                "live" => live::run(&v),
                "client" => client::run(&v),
                "inject" => live::inject(&v),
                "loader" => live::loader(&v),
                "dom" => dom::run(&v),
                "sink" => dom::sink(&v),
                o => panic!("unknown op {o}"),
            })
            .unwrap_or_else(|e| json!({ "panic": e }));
            if r.get("panic").is_none() { r["panic"] = json!("") }
            r["id"] = v["id"].clone();
            writeln!(out, "{r}").unwrap();
            out.flush().unwrap();
        }
    };
    std::thread::Builder::new().stack_size(256 << 20).spawn(work).unwrap().join().unwrap();
}
