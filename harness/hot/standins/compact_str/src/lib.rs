//! Stand-in for compact_str: a string that owns its bytes.
use std::borrow::{Borrow, Cow};
use std::fmt;
use std::ops::{Deref, DerefMut};

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CompactString(Cow<'static, str>);

impl CompactString {
    pub fn new<T: AsRef<str>>(t: T) -> Self { CompactString(t.as_ref().to_owned().into()) }
    pub const fn const_new(t: &'static str) -> Self { CompactString(Cow::Borrowed(t)) }
    pub fn with_capacity(n: usize) -> Self { CompactString(String::with_capacity(n).into()) }
    pub fn as_str(&self) -> &str { &self.0 }
    pub fn as_mut_str(&mut self) -> &mut str { self.0.to_mut() }
    pub fn as_bytes(&self) -> &[u8] { self.0.as_bytes() }
    pub fn push_str(&mut self, s: &str) { self.0.to_mut().push_str(s) }
    pub fn push(&mut self, c: char) { self.0.to_mut().push(c) }
    pub fn pop(&mut self) -> Option<char> { self.0.to_mut().pop() }
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn capacity(&self) -> usize { self.0.len().max(24) }
    pub fn clear(&mut self) { self.0.to_mut().clear() }
    pub fn truncate(&mut self, n: usize) { self.0.to_mut().truncate(n) }
    pub fn insert_str(&mut self, i: usize, s: &str) { self.0.to_mut().insert_str(i, s) }
    pub fn into_string(self) -> String { self.0.into_owned() }
}
impl Deref for CompactString { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl DerefMut for CompactString { fn deref_mut(&mut self) -> &mut str { self.0.to_mut() } }
impl AsRef<str> for CompactString { fn as_ref(&self) -> &str { &self.0 } }
impl Borrow<str> for CompactString { fn borrow(&self) -> &str { &self.0 } }
impl fmt::Debug for CompactString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
impl fmt::Display for CompactString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl fmt::Write for CompactString { fn write_str(&mut self, s: &str) -> fmt::Result { self.0.to_mut().push_str(s); Ok(()) } }
impl From<&str> for CompactString { fn from(s: &str) -> Self { CompactString(s.to_owned().into()) } }
impl From<&String> for CompactString { fn from(s: &String) -> Self { CompactString(s.clone().into()) } }
impl From<String> for CompactString { fn from(s: String) -> Self { CompactString(s.into()) } }
impl From<Cow<'_, str>> for CompactString { fn from(s: Cow<'_, str>) -> Self { CompactString(s.into_owned().into()) } }
impl From<CompactString> for String { fn from(s: CompactString) -> Self { s.0.into_owned() } }
impl PartialEq<str> for CompactString { fn eq(&self, o: &str) -> bool { self.0 == o } }
impl PartialEq<&str> for CompactString { fn eq(&self, o: &&str) -> bool { self.0 == *o } }
impl PartialEq<String> for CompactString { fn eq(&self, o: &String) -> bool { self.0 == **o } }
impl Extend<char> for CompactString { fn extend<T: IntoIterator<Item = char>>(&mut self, i: T) { self.0.to_mut().extend(i) } }
impl<'a> Extend<&'a str> for CompactString { fn extend<T: IntoIterator<Item = &'a str>>(&mut self, i: T) { self.0.to_mut().extend(i) } }
impl FromIterator<char> for CompactString { fn from_iter<T: IntoIterator<Item = char>>(i: T) -> Self { CompactString(Cow::Owned(i.into_iter().collect())) } }
impl std::ops::AddAssign<&str> for CompactString { fn add_assign(&mut self, s: &str) { self.0.to_mut().push_str(s) } }

pub trait ToCompactString { fn to_compact_string(&self) -> CompactString; }
impl<T: fmt::Display + ?Sized> ToCompactString for T { fn to_compact_string(&self) -> CompactString { CompactString(self.to_string().into()) } }

#[macro_export]
macro_rules! format_compact { ($($t:tt)*) => { $crate::CompactString::from(::std::format!($($t)*)) }; }
