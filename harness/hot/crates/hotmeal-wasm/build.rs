fn main() { println!("cargo::rustc-cfg=target_arch=\"wasm32\"") }
