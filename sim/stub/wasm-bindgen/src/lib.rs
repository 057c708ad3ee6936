//! Stand-in of wasm-bindgen: the JavaScript host as the simulator plays it.
//! A value handed to the host is kept as the text the host was given; each
//! operation of the host can be made to throw.
use serde::{de::DeserializeOwned, Serialize};
use std::cell::Cell;
use std::fmt;

pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::{JsError, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}

/// What a host operation that throws unwinds with.
pub struct HostThrow;

pub mod host {
    use super::*;

    thread_local! {
        static OPS: Cell<u64> = const { Cell::new(0) };
        static THROW_AT: Cell<u64> = const { Cell::new(u64::MAX) };
    }

    /// From now on the operation number `at` (from 0) throws.
    pub fn arm(at: Option<u64>) {
        OPS.with(|o| o.set(0));
        THROW_AT.with(|t| t.set(at.unwrap_or(u64::MAX)));
    }

    /// Operations since `arm`.
    pub fn ops() -> u64 {
        OPS.with(|o| o.get())
    }

    pub(crate) fn op() {
        let n = OPS.with(|o| o.replace(o.get() + 1));
        if THROW_AT.with(|t| t.get()) == n {
            std::panic::panic_any(HostThrow);
        }
    }
}

/// A value of the host.
#[derive(Clone, Debug, PartialEq)]
pub enum HostValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    String(String),
    /// the value of JSON.parse of this text
    Json(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct JsValue(HostValue);

impl JsValue {
    pub const NULL: JsValue = JsValue(HostValue::Null);
    pub const UNDEFINED: JsValue = JsValue(HostValue::Undefined);
    pub const TRUE: JsValue = JsValue(HostValue::Bool(true));
    pub const FALSE: JsValue = JsValue(HostValue::Bool(false));

    pub fn null() -> JsValue {
        JsValue::NULL
    }
    pub fn undefined() -> JsValue {
        JsValue::UNDEFINED
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(HostValue::Bool(b))
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(HostValue::Number(n))
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        host::op();
        JsValue(HostValue::String(s.to_string()))
    }
    /// As in wasm-bindgen: serialised here, parsed by the host.
    pub fn from_serde<T: Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        let s = serde_json::to_string(t)?;
        host::op();
        Ok(JsValue(HostValue::Json(s)))
    }
    pub fn into_serde<T: DeserializeOwned>(&self) -> serde_json::Result<T> {
        host::op();
        let s = match &self.0 {
            HostValue::Undefined => "null".to_string(),
            HostValue::Null => "null".to_string(),
            HostValue::Bool(b) => b.to_string(),
            HostValue::Number(n) => n.to_string(),
            HostValue::String(s) => serde_json::to_string(s)?,
            HostValue::Json(s) => s.clone(),
        };
        serde_json::from_str(&s)
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            HostValue::String(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self.0 {
            HostValue::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self.0 {
            HostValue::Number(n) => Some(n),
            _ => None,
        }
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, HostValue::String(_))
    }
    pub fn is_null(&self) -> bool {
        self.0 == HostValue::Null
    }
    pub fn is_undefined(&self) -> bool {
        self.0 == HostValue::Undefined
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, HostValue::Json(_))
    }
    /// For the simulator.
    pub fn held(&self) -> &HostValue {
        &self.0
    }
}

impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue::from_bool(b)
    }
}
macro_rules! numbers {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue {
            fn from(n: $t) -> JsValue {
                JsValue::from_f64(n as f64)
            }
        }
    )*};
}
numbers!(u8 u16 u32 i8 i16 i32 f32 f64);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(o: Option<T>) -> JsValue {
        o.map_or(JsValue::UNDEFINED, Into::into)
    }
}

/// An Error object of the host: known by its message.
#[derive(Clone, Debug)]
pub struct JsError(String);

impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(s.to_string())
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> JsError {
        JsError(e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        JsValue::from_str(&e.0)
    }
}

pub fn throw_str(s: &str) -> ! {
    panic!("{}", s)
}

pub fn throw_val(v: JsValue) -> ! {
    panic!("{:?}", v)
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T {
        self.expect_throw("`unwrap_throw` failed")
    }
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn expect_throw(self, message: &str) -> T {
        self.unwrap_or_else(|| throw_str(message))
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn expect_throw(self, message: &str) -> T {
        self.unwrap_or_else(|_| throw_str(message))
    }
}
