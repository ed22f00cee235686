//! Stand-in for facet-postcard: the postcard wire format (varints, length-prefixed strings, variant indexes).
use facet::{Dec, Enc, Facet};
use std::fmt;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SerializeError(String);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DeserializeError(String);
impl fmt::Display for SerializeError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl fmt::Display for DeserializeError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for SerializeError {}
impl std::error::Error for DeserializeError {}

struct W(Vec<u8>);
impl Enc for W {
    fn int(&mut self, mut v: u64) {
        while v >= 0x80 { self.0.push((v as u8) | 0x80); v >>= 7 }
        self.0.push(v as u8)
    }
    fn byte(&mut self, v: u8) { self.0.push(v) }
    fn str(&mut self, v: &str) { self.int(v.len() as u64); self.0.extend_from_slice(v.as_bytes()) }
}
struct R<'a>(&'a [u8]);
impl Dec for R<'_> {
    fn int(&mut self) -> Result<u64, String> {
        let (mut v, mut s) = (0u64, 0);
        loop {
            let b = self.byte()?;
            if s > 63 { return Err("varint too long".into()) }
            v |= ((b & 0x7f) as u64) << s;
            if b & 0x80 == 0 { return Ok(v) }
            s += 7
        }
    }
    fn byte(&mut self) -> Result<u8, String> {
        let (b, r) = self.0.split_first().ok_or("unexpected end of input")?;
        self.0 = r;
        Ok(*b)
    }
    fn str(&mut self) -> Result<String, String> {
        let n = self.int()? as usize;
        if n > self.0.len() { return Err("unexpected end of input".into()) }
        let (s, r) = self.0.split_at(n);
        self.0 = r;
        String::from_utf8(s.to_vec()).map_err(|e| e.to_string())
    }
}
pub fn to_vec<T: Facet + ?Sized>(v: &T) -> Result<Vec<u8>, SerializeError> {
    let mut w = W(Vec::new());
    v.facet_enc(&mut w);
    Ok(w.0)
}
pub fn from_slice<T: Facet>(b: &[u8]) -> Result<T, DeserializeError> {
    T::facet_dec(&mut R(b)).map_err(DeserializeError)
}
