//! Native replacement for serde-wasm-bindgen (there is no JS heap in this sandbox).
use std::cell::RefCell;
use wasm_bindgen::JsValue;

thread_local! { static NEXT: RefCell<String> = RefCell::new(String::new()); }

/// What the next `from_value` calls on this thread decode.
pub fn set_next(json: String) {
    NEXT.with(|n| *n.borrow_mut() = json);
}

#[derive(Debug)]
pub struct Error(pub String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<Error> for JsValue {
    fn from(_: Error) -> JsValue {
        JsValue::NULL
    }
}
pub type Result<T> = std::result::Result<T, Error>;

pub fn from_value<T: serde::de::DeserializeOwned>(_v: JsValue) -> Result<T> {
    NEXT.with(|n| serde_json::from_str(&n.borrow()).map_err(|e| Error(e.to_string())))
}

pub fn to_value<T: serde::Serialize + ?Sized>(_v: &T) -> Result<JsValue> {
    Ok(JsValue::NULL)
}
