//! Stand-in for js-sys.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use wasm_bindgen::{JsCast, JsValue, js_class};

/// a plain object
#[derive(Default)]
pub struct Fields(pub RefCell<BTreeMap<String, JsValue>>);
js_class!(Object: JsValue; |v| v.is_object());
impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Object { Object::unchecked_from_js(JsValue::Obj(Rc::new(Fields::default()))) }
}
pub struct Reflect;
#[allow(non_snake_case)]
pub mod reflect_ {}
impl Reflect {
    pub fn get(o: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        if !o.is_object() { return Err(JsValue::from_str("TypeError: Reflect.get called on non-object")) }
        Ok(o.obj::<Fields>().and_then(|f| f.0.borrow().get(&k.as_string().unwrap_or_default()).cloned()).unwrap_or_default())
    }
    pub fn set(o: &JsValue, k: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        if !o.is_object() { return Err(JsValue::from_str("TypeError: Reflect.set called on non-object")) }
        if let Some(f) = o.obj::<Fields>() { f.0.borrow_mut().insert(k.as_string().unwrap_or_default(), v.clone()); }
        Ok(true)
    }
    pub fn has(o: &JsValue, k: &JsValue) -> Result<bool, JsValue> { Ok(!Self::get(o, k)?.is_undefined()) }
}
js_class!(JsString: Object, Object; |v| v.is_string());
impl From<JsString> for String { fn from(s: JsString) -> String { JsValue::from(s).as_string().unwrap_or_default() } }
impl JsString { pub fn as_string(&self) -> Option<String> { AsRef::<JsValue>::as_ref(self).as_string() } }
pub struct JSON;
impl JSON {
    pub fn stringify(v: &JsValue) -> Result<JsString, JsValue> {
        Ok(JsString::unchecked_from_js(JsValue::from_str(&match v { JsValue::Str(s) => format!("{s:?}"), o => format!("{o:?}") })))
    }
}
