//! Stand-in for html5ever (and its markup5ever names): a reduced HTML5 tokenizer and tree builder that drives a
//! `TreeSink` through the same calls. `script` lets a harness drive the sink with a list of calls of its own.
pub mod names;
pub mod parser;
pub mod script;
pub mod tree_builder;
pub use names::{Attribute, LocalName, Namespace, Prefix, QualName};
pub use parser::{ParseOpts, Parser, parse_document, parse_fragment};
pub use tendril;
pub use tree_builder as interface_;
pub mod interface { pub use crate::names::*; pub use crate::tree_builder::*; }

#[macro_export]
macro_rules! local_name { ($s:tt) => { $crate::LocalName::from(::core::stringify!($s).trim_matches('"')) }; }
#[macro_export]
macro_rules! namespace_url { ($s:tt) => { $crate::Namespace::from($s) }; }
#[macro_export]
macro_rules! ns {
    () => { $crate::Namespace::from("") };
    (html) => { $crate::Namespace::from("http://www.w3.org/1999/xhtml") };
    (svg) => { $crate::Namespace::from("http://www.w3.org/2000/svg") };
    (mathml) => { $crate::Namespace::from("http://www.w3.org/1998/Math/MathML") };
    (xlink) => { $crate::Namespace::from("http://www.w3.org/1999/xlink") };
    (xml) => { $crate::Namespace::from("http://www.w3.org/XML/1998/namespace") };
    (xmlns) => { $crate::Namespace::from("http://www.w3.org/2000/xmlns/") };
}
