//! Stand-in: `#[test]` from facet-testhelpers is the standard one here.
use proc_macro::TokenStream;
#[proc_macro_attribute]
pub fn test(_a: TokenStream, item: TokenStream) -> TokenStream {
    let mut o: TokenStream = "#[::core::prelude::v1::test]".parse().unwrap();
    o.extend(item);
    o
}
