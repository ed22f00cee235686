//! Stand-in for facet-json: a JSON string holding the postcard bytes in hexadecimal. Only the round trip matters.
use facet::Facet;
pub use facet_postcard::{DeserializeError, SerializeError};
pub fn to_string<T: Facet + ?Sized>(v: &T) -> Result<String, SerializeError> {
    let mut s = String::from("\"");
    for b in facet_postcard::to_vec(v)? { s.push_str(&format!("{b:02x}")) }
    s.push('"');
    Ok(s)
}
pub fn to_string_pretty<T: Facet + ?Sized>(v: &T) -> Result<String, SerializeError> { to_string(v) }
pub fn from_str<T: Facet>(s: &str) -> Result<T, DeserializeError> {
    let h = s.trim().trim_matches('"').as_bytes();
    let b: Vec<u8> = h.chunks(2).filter_map(|c| u8::from_str_radix(std::str::from_utf8(c).ok()?, 16).ok()).collect();
    facet_postcard::from_slice(&b)
}
