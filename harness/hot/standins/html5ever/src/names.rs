use std::borrow::{Borrow, Cow};
use std::fmt;
use std::ops::Deref;
use std::sync::Arc;
use tendril::StrTendril;

macro_rules! atom { ($n:ident) => {
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct $n(Arc<str>);
    impl $n { pub fn to_ascii_lowercase(&self) -> Self { self.0.to_ascii_lowercase().into() } }
    impl Default for $n { fn default() -> Self { "".into() } }
    impl Deref for $n { type Target = str; fn deref(&self) -> &str { &self.0 } }
    impl AsRef<str> for $n { fn as_ref(&self) -> &str { &self.0 } }
    impl Borrow<str> for $n { fn borrow(&self) -> &str { &self.0 } }
    impl From<&str> for $n { fn from(s: &str) -> Self { $n(s.into()) } }
    impl From<String> for $n { fn from(s: String) -> Self { $n(s.into()) } }
    impl From<&String> for $n { fn from(s: &String) -> Self { $n(s.as_str().into()) } }
    impl From<Cow<'_, str>> for $n { fn from(s: Cow<'_, str>) -> Self { $n(s.as_ref().into()) } }
    impl PartialEq<str> for $n { fn eq(&self, o: &str) -> bool { &*self.0 == o } }
    impl PartialEq<&str> for $n { fn eq(&self, o: &&str) -> bool { &*self.0 == *o } }
    impl fmt::Debug for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Atom('{}')", &*self.0) } }
    impl fmt::Display for $n { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
} }
atom!(LocalName);
atom!(Namespace);
atom!(Prefix);

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct QualName {
    pub prefix: Option<Prefix>,
    pub ns: Namespace,
    pub local: LocalName,
}
impl QualName {
    pub fn new(prefix: Option<Prefix>, ns: Namespace, local: LocalName) -> QualName { QualName { prefix, ns, local } }
    pub fn expanded(&self) -> (Namespace, LocalName) { (self.ns.clone(), self.local.clone()) }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Attribute {
    pub name: QualName,
    pub value: StrTendril,
}
