//! Recording of what the solver does, and small JSON helpers.
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};

pub type Events = Arc<Mutex<Vec<Value>>>;

/// Doubles travel as decimal strings (shortest representation that reads back the same).
pub fn f(x: f64) -> Value {
    Value::String(fs(x))
}

pub fn fs(x: f64) -> String {
    if x.is_nan() {
        "NaN".into()
    } else if x.is_infinite() {
        if x > 0.0 { "Infinity".into() } else { "-Infinity".into() }
    } else {
        format!("{:?}", x)
    }
}

pub fn num(v: &Value) -> f64 {
    match v {
        Value::String(s) => s.parse::<f64>().unwrap_or_else(|_| panic!("harness: bad number {}", s)),
        Value::Number(n) => n.as_f64().unwrap(),
        _ => panic!("harness: bad number {:?}", v),
    }
}

pub fn nums(v: &Value) -> Vec<f64> {
    v.as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default()
}

pub fn rows(v: &Value) -> Vec<Vec<f64>> {
    v.as_array().map(|a| a.iter().map(nums).collect()).unwrap_or_default()
}

pub fn jv(v: &[f64]) -> Value {
    Value::Array(v.iter().map(|x| f(*x)).collect())
}

pub fn jrows(v: &[Vec<f64>]) -> Value {
    Value::Array(v.iter().map(|r| jv(r)).collect())
}

pub fn st<'a>(v: &'a Value, key: &str, default: &'a str) -> &'a str {
    v.get(key).and_then(|x| x.as_str()).unwrap_or(default)
}

pub fn us(v: &Value, key: &str, default: usize) -> usize {
    v.get(key).and_then(|x| x.as_u64()).map(|x| x as usize).unwrap_or(default)
}

pub fn bo(v: &Value, key: &str) -> bool {
    v.get(key).and_then(|x| x.as_bool()).unwrap_or(false)
}

pub fn push(ev: &Events, v: Value) {
    ev.lock().unwrap_or_else(|e| e.into_inner()).push(v)
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub fn caught<R>(g: impl FnOnce() -> R) -> Result<R, Value> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(g)).map_err(|e| json!(panic_text(e)))
}
