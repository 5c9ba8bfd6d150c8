//! The stand-in for neon-serde: JSON values instead of JavaScript ones.
use neon::js::JsValue;
use neon::mem::Handle;
use neon::scope::Scope;
use neon::vm::{throw, JsResult, VmResult};
use serde::de::DeserializeOwned;
use serde::Serialize;

pub fn to_value<'j, V: Serialize + ?Sized, S: Scope<'j>>(_: &mut S, value: &V) -> JsResult<'j, JsValue> {
    match serde_json::to_value(value) {
        Ok(v) => Ok(Handle::new(JsValue::Json(v))),
        Err(e) => throw(format!("to_value: {}", e)),
    }
}

pub fn from_value<'j, S: Scope<'j>, T: DeserializeOwned>(_: &mut S, value: Handle<'j, JsValue>) -> VmResult<T> {
    let v = match &*value {
        JsValue::Json(v) => v.clone(),
        JsValue::Undefined => serde_json::Value::Null,
        _ => return throw("from_value: not a plain value".to_string()),
    };
    match serde_json::from_value(v) {
        Ok(v) => Ok(v),
        Err(e) => throw(format!("from_value: {}", e)),
    }
}
