use proc_macro::{TokenStream, TokenTree};
/// Stand-in: functions are exported by name, for the harness instead of JavaScript.
#[proc_macro_attribute]
pub fn wasm_bindgen(_a: TokenStream, item: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = item.clone().into_iter().collect();
    let Some(i) = t.iter().position(|x| x.to_string() == "fn") else { return item };
    let mut out: TokenStream = format!("#[unsafe(export_name = \"wasm_bindgen_{}\")]", t[i + 1]).parse().unwrap();
    out.extend(item);
    out
}
