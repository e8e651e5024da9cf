//! Stand-in for wasm-bindgen on a native target: the attribute does nothing.
pub use wasm_bindgen_macro::wasm_bindgen;
#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(String);
impl JsValue { pub const NULL: JsValue = JsValue(String::new()); pub const UNDEFINED: JsValue = JsValue(String::new()); pub fn from_str(s: &str) -> JsValue { JsValue(s.to_string()) } pub fn as_string(&self) -> Option<String> { Some(self.0.clone()) } }
impl From<&str> for JsValue { fn from(s: &str) -> Self { JsValue(s.to_string()) } }
impl From<String> for JsValue { fn from(s: String) -> Self { JsValue(s) } }
#[derive(Clone, Debug)]
pub struct JsError(String);
impl JsError { pub fn new(s: &str) -> JsError { JsError(s.to_string()) } }
impl<E: std::error::Error> From<E> for JsError { fn from(e: E) -> Self { JsError(e.to_string()) } }
impl From<JsError> for JsValue { fn from(e: JsError) -> Self { JsValue(e.0) } }
pub trait UnwrapThrowExt<T> { fn unwrap_throw(self) -> T; fn expect_throw(self, m: &str) -> T; }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } fn expect_throw(self, m: &str) -> T { self.expect(m) } }
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn unwrap_throw(self) -> T { self.unwrap() } fn expect_throw(self, m: &str) -> T { self.expect(m) } }
pub fn throw_str(s: &str) -> ! { panic!("{s}") }
pub mod prelude { pub use crate::{wasm_bindgen, JsValue, JsError, UnwrapThrowExt}; }
