//! Stand-in for tendril: string slices sharing a reference-counted buffer.
use std::fmt;
use std::ops::Deref;
use std::sync::Arc;

#[derive(Clone)]
pub struct StrTendril { buf: Arc<String>, a: usize, b: usize }

impl StrTendril {
    pub fn new() -> Self { Self::from("") }
    pub fn from_slice(s: &str) -> Self { Self::from(s) }
    pub fn subtendril(&self, offset: u32, length: u32) -> Self {
        let a = self.a + offset as usize;
        let b = a + length as usize;
        assert!(b <= self.b && self.buf.is_char_boundary(a) && self.buf.is_char_boundary(b));
        StrTendril { buf: self.buf.clone(), a, b }
    }
    pub fn len32(&self) -> u32 { (self.b - self.a) as u32 }
    pub fn push_slice(&mut self, s: &str) {
        let mut t = String::with_capacity(self.len() + s.len());
        t.push_str(self);
        t.push_str(s);
        *self = t.into();
    }
    pub fn push_char(&mut self, c: char) { let mut b = [0; 4]; self.push_slice(c.encode_utf8(&mut b)) }
    pub fn push_tendril(&mut self, o: &StrTendril) { self.push_slice(o) }
    pub fn clear(&mut self) { *self = Self::new() }
}
impl Default for StrTendril { fn default() -> Self { Self::new() } }
impl Deref for StrTendril { type Target = str; fn deref(&self) -> &str { &self.buf[self.a..self.b] } }
impl AsRef<str> for StrTendril { fn as_ref(&self) -> &str { self } }
impl std::borrow::Borrow<str> for StrTendril { fn borrow(&self) -> &str { self } }
impl From<&str> for StrTendril { fn from(s: &str) -> Self { s.to_owned().into() } }
impl From<&String> for StrTendril { fn from(s: &String) -> Self { s.clone().into() } }
impl From<String> for StrTendril { fn from(s: String) -> Self { let b = s.len(); StrTendril { buf: Arc::new(s), a: 0, b } } }
impl From<char> for StrTendril { fn from(c: char) -> Self { c.to_string().into() } }
impl From<StrTendril> for String { fn from(t: StrTendril) -> String { t.to_string() } }
impl From<&StrTendril> for String { fn from(t: &StrTendril) -> String { t.to_string() } }
impl std::str::FromStr for StrTendril { type Err = (); fn from_str(s: &str) -> Result<Self, ()> { Ok(s.into()) } }
impl PartialEq for StrTendril { fn eq(&self, o: &Self) -> bool { **self == **o } }
impl Eq for StrTendril {}
impl PartialEq<str> for StrTendril { fn eq(&self, o: &str) -> bool { &**self == o } }
impl PartialEq<&str> for StrTendril { fn eq(&self, o: &&str) -> bool { &**self == *o } }
impl PartialOrd for StrTendril { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for StrTendril { fn cmp(&self, o: &Self) -> std::cmp::Ordering { (**self).cmp(&**o) } }
impl std::hash::Hash for StrTendril { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { (**self).hash(h) } }
impl fmt::Debug for StrTendril { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&**self, f) } }
impl fmt::Display for StrTendril { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&**self, f) } }

pub mod fmt_ { pub struct UTF8; }
/// Where a parser takes its input.
pub trait TendrilSink {
    type Output;
    fn process(&mut self, t: StrTendril);
    fn finish(self) -> Self::Output;
    fn one<T: Into<StrTendril>>(mut self, t: T) -> Self::Output where Self: Sized {
        self.process(t.into());
        self.finish()
    }
}
