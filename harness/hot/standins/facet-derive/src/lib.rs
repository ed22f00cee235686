//! Stand-in for `#[derive(Facet)]`. Understands `proxy = T`, `cow` and `derive(Error)`; other attributes are ignored.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote};
use syn::{Attribute, Data, DeriveInput, Fields, Meta, parse_macro_input};

fn facet_tokens(attrs: &[Attribute]) -> Vec<T2> {
    attrs.iter().filter(|a| a.path().is_ident("facet")).filter_map(|a| match &a.meta { Meta::List(l) => Some(l.tokens.clone()), _ => None }).collect()
}
fn has(attrs: &[Attribute], what: &str) -> bool {
    facet_tokens(attrs).iter().any(|t| t.to_string().replace(' ', "").split(',').any(|x| x == what))
}
fn proxy(attrs: &[Attribute]) -> Option<T2> {
    for t in facet_tokens(attrs) {
        let s = t.to_string();
        if let Some(i) = s.find("proxy") {
            let r = s[i + 5..].trim_start().strip_prefix('=').unwrap();
            let r = r.split(',').next().unwrap();
            return Some(r.parse().unwrap());
        }
    }
    None
}
fn docs(attrs: &[Attribute]) -> String {
    let mut out = vec![];
    for a in attrs {
        if let Meta::NameValue(nv) = &a.meta
            && a.path().is_ident("doc")
            && let syn::Expr::Lit(l) = &nv.value
            && let syn::Lit::Str(s) = &l.lit
        {
            out.push(s.value().trim().to_owned());
        }
    }
    out.join(" ")
}
/// (bindings pattern, encode statements, construct expression)
fn fields(f: &Fields) -> (T2, T2, T2) {
    let mut pat = vec![];
    let mut enc = vec![];
    let mut dec = vec![];
    for (i, x) in f.iter().enumerate() {
        let v = format_ident!("f{}", i);
        match &x.ident { Some(n) => pat.push(quote!(#n: #v)), None => pat.push(quote!(#v)) }
        let d = match proxy(&x.attrs) {
            Some(p) => {
                enc.push(quote!(::facet::Facet::facet_enc(&<#p>::from(#v), e);));
                quote!(<#p as ::facet::Facet>::facet_dec(d)?.into())
            }
            None => {
                enc.push(quote!(::facet::Facet::facet_enc(#v, e);));
                quote!(::facet::Facet::facet_dec(d)?)
            }
        };
        match &x.ident { Some(n) => dec.push(quote!(#n: #d)), None => dec.push(d) }
    }
    let (p, c) = match f {
        Fields::Named(_) => (quote!({ #(#pat),* }), quote!({ #(#dec),* })),
        Fields::Unnamed(_) => (quote!(( #(#pat),* )), quote!(( #(#dec),* ))),
        Fields::Unit => (quote!(), quote!()),
    };
    (p, quote!(#(#enc)*), c)
}

#[proc_macro_derive(Facet, attributes(facet))]
pub fn derive(input: TokenStream) -> TokenStream {
    let di = parse_macro_input!(input as DeriveInput);
    let name = &di.ident;
    let (ig, tg, wc) = di.generics.split_for_impl();
    let (enc, dec) = match &di.data {
        Data::Struct(s) => {
            let (p, e, c) = fields(&s.fields);
            (quote!(let Self #p = self; #e), quote!(Ok(Self #c)))
        }
        Data::Enum(en) if has(&di.attrs, "cow") => {
            let arms: Vec<_> = en.variants.iter().map(|v| { let n = &v.ident; quote!(Self::#n(s) => e.str(s.as_ref())) }).collect();
            (quote!(match self { #(#arms),* }), quote!(Ok(Self::Owned(d.str()?.into()))))
        }
        Data::Enum(en) => {
            let mut ea = vec![];
            let mut da = vec![];
            for (i, v) in en.variants.iter().enumerate() {
                let n = &v.ident;
                let i = i as u64;
                let (p, e, c) = fields(&v.fields);
                ea.push(quote!(Self::#n #p => { e.int(#i); #e }));
                da.push(quote!(#i => Ok(Self::#n #c)));
            }
            (quote!(match self { #(#ea),* }), quote!(match d.int()? { #(#da,)* x => Err(format!("unknown variant {x}")) }))
        }
        Data::Union(_) => (quote!(), quote!(Err("union".into()))),
    };
    let mut out = quote! {
        #[automatically_derived]
        #[allow(unused_variables, unused_mut)]
        impl #ig ::facet::Facet for #name #tg #wc {
            fn facet_enc(&self, e: &mut dyn ::facet::Enc) { #enc }
            fn facet_dec(d: &mut dyn ::facet::Dec) -> ::core::result::Result<Self, ::std::string::String> { #dec }
        }
    };
    if has(&di.attrs, "derive(Error)")
        && let Data::Enum(en) = &di.data
    {
        let arms: Vec<_> = en.variants.iter().map(|v| {
            let n = &v.ident;
            let msg = docs(&v.attrs);
            match &v.fields {
                Fields::Named(f) => {
                    let ids: Vec<_> = f.named.iter().map(|x| x.ident.clone().unwrap()).collect();
                    quote!(Self::#n { #(#ids),* } => { #(let _ = #ids;)* write!(f, #msg) })
                }
                Fields::Unnamed(u) => {
                    let ids: Vec<_> = (0..u.unnamed.len()).map(|i| format_ident!("_f{}", i)).collect();
                    quote!(Self::#n(#(#ids),*) => f.write_str(#msg))
                }
                Fields::Unit => quote!(Self::#n => f.write_str(#msg)),
            }
        }).collect();
        out.extend(quote! {
            impl #ig ::core::fmt::Display for #name #tg #wc {
                fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { match self { #(#arms),* } }
            }
            impl #ig ::std::error::Error for #name #tg #wc {}
        });
    }
    out.into()
}
