//! Stand-in for #[roam::service]: the trait with a context parameter, a dispatcher and a client.
use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn service(_a: TokenStream, item: TokenStream) -> TokenStream {
    let t: Vec<TokenTree> = item.into_iter().collect();
    let i = t.iter().position(|x| x.to_string() == "trait").expect("a trait");
    let name = t[i + 1].to_string();
    let TokenTree::Group(body) = t.last().unwrap() else { panic!("a trait") };
    // methods: (name, argument, type)
    let mut methods = vec![];
    let b: Vec<TokenTree> = body.stream().into_iter().collect();
    for (j, x) in b.iter().enumerate() {
        if x.to_string() != "fn" { continue }
        let TokenTree::Group(args) = &b[j + 2] else { panic!("arguments") };
        assert!(args.delimiter() == Delimiter::Parenthesis);
        let a: Vec<String> = args.stream().into_iter().map(|x| x.to_string()).collect();
        let c = a.iter().position(|x| x == ":").expect("one argument");
        methods.push((b[j + 1].to_string(), a[c - 1].clone(), a[c + 1..].join(" ").trim_end_matches(',').to_owned()));
    }
    let each = |f: &dyn Fn(&str, &str, &str) -> String| methods.iter().map(|(m, a, t)| f(m, a, t)).collect::<String>();
    format!(
        "#[allow(async_fn_in_trait)] pub trait {name} {{ {} }}
        #[derive(Clone)] pub struct {name}Dispatcher<H>(::std::rc::Rc<H>);
        impl<H> {name}Dispatcher<H> {{ pub fn new(h: H) -> Self {{ Self(::std::rc::Rc::new(h)) }} }}
        impl<H: {name} + 'static> ::roam::sim::Dispatch for {name}Dispatcher<H> {{
            fn call(&self, method: &str, bytes: &[u8]) -> ::roam::sim::Task {{
                let h = self.0.clone();
                match method {{ {} _ => panic!(\"method {{method}}\") }}
            }}
        }}
        #[derive(Clone)] pub struct {name}Client(::roam::sim::Handle);
        impl {name}Client {{ pub fn new(h: ::roam::sim::Handle) -> Self {{ Self(h) }} {} }}",
        each(&|m, a, t| format!("async fn {m}(&self, cx: &::roam::Context, {a}: {t});")),
        each(&|m, _, t| format!("{m:?} => {{ let a: {t} = ::roam::facet_postcard::from_slice(bytes).expect(\"arguments\"); Box::pin(async move {{ h.{m}(&::roam::Context, a).await }}) }}")),
        each(&|m, a, t| format!("pub async fn {m}(&self, {a}: {t}) -> Result<(), ::roam::sim::Error> {{ self.0.call({m:?}, &{a}).await }}")),
    ).parse().unwrap()
}
