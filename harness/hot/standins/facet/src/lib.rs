//! Stand-in for facet: the derive gives each type a codec (visited field by field, as reflection would), which
//! facet-postcard and facet-json use.
pub use facet_derive::Facet;
use smallvec_dep::{Array, SmallVec};

pub trait Enc {
    fn int(&mut self, v: u64);
    fn byte(&mut self, v: u8);
    fn str(&mut self, v: &str);
}
pub trait Dec {
    fn int(&mut self) -> Result<u64, String>;
    fn byte(&mut self) -> Result<u8, String>;
    fn str(&mut self) -> Result<String, String>;
}
pub trait Facet {
    fn facet_enc(&self, e: &mut dyn Enc);
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String>
    where
        Self: Sized;
}
macro_rules! ints { ($($t:ty),*) => { $(impl Facet for $t {
    fn facet_enc(&self, e: &mut dyn Enc) { e.int(*self as u64) }
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String> { let v = d.int()?; <$t>::try_from(v).map_err(|_| format!("{v} out of range")) }
})* } }
ints!(u16, u32, u64, usize);
macro_rules! sints { ($($t:ty),*) => { $(impl Facet for $t {
    fn facet_enc(&self, e: &mut dyn Enc) { let v = *self as i64; e.int(((v << 1) ^ (v >> 63)) as u64) }
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String> { let z = d.int()?; let v = ((z >> 1) as i64) ^ -((z & 1) as i64); <$t>::try_from(v).map_err(|_| format!("{v} out of range")) }
})* } }
sints!(i16, i32, i64, isize);
impl Facet for u8 {
    fn facet_enc(&self, e: &mut dyn Enc) { e.byte(*self) }
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String> { d.byte() }
}
impl Facet for bool {
    fn facet_enc(&self, e: &mut dyn Enc) { e.byte(*self as u8) }
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String> {
        match d.byte()? { 0 => Ok(false), 1 => Ok(true), x => Err(format!("bad bool {x}")) }
    }
}
impl Facet for String {
    fn facet_enc(&self, e: &mut dyn Enc) { e.str(self) }
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String> { d.str() }
}
impl Facet for compact_str_dep::CompactString {
    fn facet_enc(&self, e: &mut dyn Enc) { e.str(self) }
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String> { Ok(d.str()?.into()) }
}
impl<T: Facet> Facet for Option<T> {
    fn facet_enc(&self, e: &mut dyn Enc) {
        match self { None => e.byte(0), Some(v) => { e.byte(1); v.facet_enc(e) } }
    }
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String> {
        match d.byte()? { 0 => Ok(None), 1 => Ok(Some(T::facet_dec(d)?)), x => Err(format!("bad option {x}")) }
    }
}
impl<T: Facet> Facet for Box<T> {
    fn facet_enc(&self, e: &mut dyn Enc) { (**self).facet_enc(e) }
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String> { Ok(Box::new(T::facet_dec(d)?)) }
}
impl<T: Facet> Facet for Vec<T> {
    fn facet_enc(&self, e: &mut dyn Enc) { e.int(self.len() as u64); for x in self { x.facet_enc(e) } }
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String> {
        let n = d.int()?;
        let mut v = Vec::new();
        for _ in 0..n { v.push(T::facet_dec(d)?) }
        Ok(v)
    }
}
impl<A: Array> Facet for SmallVec<A> where A::Item: Facet {
    fn facet_enc(&self, e: &mut dyn Enc) { e.int(self.len() as u64); for x in self { x.facet_enc(e) } }
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String> {
        let n = d.int()?;
        let mut v = SmallVec::new();
        for _ in 0..n { v.push(A::Item::facet_dec(d)?) }
        Ok(v)
    }
}
impl<X: Facet, Y: Facet> Facet for (X, Y) {
    fn facet_enc(&self, e: &mut dyn Enc) { self.0.facet_enc(e); self.1.facet_enc(e) }
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String> { Ok((X::facet_dec(d)?, Y::facet_dec(d)?)) }
}
impl<K: Facet + Ord, V: Facet> Facet for std::collections::BTreeMap<K, V> {
    fn facet_enc(&self, e: &mut dyn Enc) { e.int(self.len() as u64); for (k, v) in self { k.facet_enc(e); v.facet_enc(e) } }
    fn facet_dec(d: &mut dyn Dec) -> Result<Self, String> {
        let n = d.int()?;
        let mut m = Self::new();
        for _ in 0..n { m.insert(K::facet_dec(d)?, V::facet_dec(d)?); }
        Ok(m)
    }
}
