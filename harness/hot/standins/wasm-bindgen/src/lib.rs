//! Stand-in for wasm-bindgen: JavaScript values as reference-counted Rust objects.
use std::any::Any;
use std::fmt;
use std::rc::Rc;
pub use wasm_bindgen_macro_standin::wasm_bindgen;

#[derive(Clone)]
pub enum JsValue { Undefined, Null, Bool(bool), Num(f64), Str(Rc<str>), Obj(Rc<dyn Any>) }
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue { JsValue::Str(s.into()) }
    pub fn from_bool(b: bool) -> JsValue { JsValue::Bool(b) }
    pub fn from_f64(n: f64) -> JsValue { JsValue::Num(n) }
    pub fn as_string(&self) -> Option<String> { match self { JsValue::Str(s) => Some(s.to_string()), _ => None } }
    pub fn as_bool(&self) -> Option<bool> { match self { JsValue::Bool(b) => Some(*b), _ => None } }
    pub fn as_f64(&self) -> Option<f64> { match self { JsValue::Num(b) => Some(*b), _ => None } }
    pub fn is_undefined(&self) -> bool { matches!(self, JsValue::Undefined) }
    pub fn is_null(&self) -> bool { matches!(self, JsValue::Null) }
    pub fn is_object(&self) -> bool { matches!(self, JsValue::Obj(_)) }
    pub fn is_string(&self) -> bool { matches!(self, JsValue::Str(_)) }
    pub fn obj<T: 'static>(&self) -> Option<&T> { match self { JsValue::Obj(o) => o.downcast_ref(), _ => None } }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            JsValue::Undefined => f.write_str("JsValue(undefined)"),
            JsValue::Null => f.write_str("JsValue(null)"),
            JsValue::Bool(b) => write!(f, "JsValue({b})"),
            JsValue::Num(n) => write!(f, "JsValue({n})"),
            JsValue::Str(s) => write!(f, "JsValue({s:?})"),
            JsValue::Obj(_) => f.write_str("JsValue(Object)"),
        }
    }
}
impl Default for JsValue { fn default() -> Self { JsValue::Undefined } }
impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (JsValue::Undefined, JsValue::Undefined) | (JsValue::Null, JsValue::Null) => true,
            (JsValue::Bool(a), JsValue::Bool(b)) => a == b,
            (JsValue::Num(a), JsValue::Num(b)) => a == b,
            (JsValue::Str(a), JsValue::Str(b)) => a == b,
            (JsValue::Obj(a), JsValue::Obj(b)) => std::ptr::addr_eq(Rc::as_ptr(a), Rc::as_ptr(b)),
            _ => false,
        }
    }
}
impl AsRef<JsValue> for JsValue { fn as_ref(&self) -> &JsValue { self } }
impl From<&str> for JsValue { fn from(s: &str) -> Self { JsValue::from_str(s) } }
impl From<String> for JsValue { fn from(s: String) -> Self { JsValue::from_str(&s) } }
impl From<bool> for JsValue { fn from(b: bool) -> Self { JsValue::Bool(b) } }
impl From<u32> for JsValue { fn from(b: u32) -> Self { JsValue::Num(b as f64) } }

/// # Safety-free model: every type that implements this is a transparent wrapper of `JsValue`.
pub trait JsCast: AsRef<JsValue> + Into<JsValue> + Sized {
    fn instanceof(v: &JsValue) -> bool;
    fn unchecked_from_js(v: JsValue) -> Self;
    fn unchecked_from_js_ref(v: &JsValue) -> &Self;
    fn is_type_of(v: &JsValue) -> bool { Self::instanceof(v) }
    fn has_type<T: JsCast>(&self) -> bool { T::instanceof(self.as_ref()) }
    fn is_instance_of<T: JsCast>(&self) -> bool { T::instanceof(self.as_ref()) }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> { if T::instanceof(self.as_ref()) { Some(T::unchecked_from_js_ref(self.as_ref())) } else { None } }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> { if T::instanceof(self.as_ref()) { Ok(T::unchecked_from_js(self.into())) } else { Err(self) } }
    fn unchecked_ref<T: JsCast>(&self) -> &T { T::unchecked_from_js_ref(self.as_ref()) }
    fn unchecked_into<T: JsCast>(self) -> T { T::unchecked_from_js(self.into()) }
}
impl JsCast for JsValue {
    fn instanceof(_v: &JsValue) -> bool { true }
    fn unchecked_from_js(v: JsValue) -> Self { v }
    fn unchecked_from_js_ref(v: &JsValue) -> &Self { v }
}
/// `js_class!(Element: Node, HtmlNode...; |v| test)` declares a transparent wrapper class.
#[macro_export]
macro_rules! js_class {
    ($n:ident : $p:ty $(, $anc:ty)* ; $test:expr) => {
        #[derive(Clone, Debug, PartialEq)]
        #[repr(transparent)]
        pub struct $n { obj: $p }
        impl ::core::ops::Deref for $n { type Target = $p; fn deref(&self) -> &$p { &self.obj } }
        impl AsRef<$crate::JsValue> for $n { fn as_ref(&self) -> &$crate::JsValue { self.obj.as_ref() } }
        impl AsRef<$n> for $n { fn as_ref(&self) -> &$n { self } }
        impl From<$n> for $crate::JsValue { fn from(v: $n) -> $crate::JsValue { v.obj.into() } }
        impl From<&$n> for $crate::JsValue { fn from(v: &$n) -> $crate::JsValue { v.clone().into() } }
        $(impl From<$n> for $anc { fn from(v: $n) -> $anc { <$anc as $crate::JsCast>::unchecked_from_js(v.into()) } }
          impl From<&$n> for $anc { fn from(v: &$n) -> $anc { v.clone().into() } }
          impl AsRef<$anc> for $n { fn as_ref(&self) -> &$anc { <$anc as $crate::JsCast>::unchecked_from_js_ref(self.as_ref()) } })*
        impl $crate::JsCast for $n {
            fn instanceof(v: &$crate::JsValue) -> bool { let f: fn(&$crate::JsValue) -> bool = $test; f(v) }
            fn unchecked_from_js(v: $crate::JsValue) -> Self { $n { obj: <$p as $crate::JsCast>::unchecked_from_js(v) } }
            fn unchecked_from_js_ref(v: &$crate::JsValue) -> &Self { unsafe { &*(v as *const $crate::JsValue as *const Self) } }
        }
    };
}
pub mod prelude { pub use crate::{JsCast, JsValue, wasm_bindgen}; }
pub trait UnwrapThrowExt<T> { fn unwrap_throw(self) -> T; }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } }
