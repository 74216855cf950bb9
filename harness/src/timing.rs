//! Server-Timing (spec/Timing.tla).
use crate::*;
use crate::typed::{bad, with_values, written};
use http_types::headers as hn;
use http_types::trace::{Metric, ServerTiming};
use serde_json::{json, Value};
use std::time::Duration;

fn view(m: &Metric) -> Value {
    json!({"n": cps(m.name()), "dur": m.duration().map_or(json!([]), |d| json!([cps(&d.as_nanos().to_string())])), "desc": m.description().map_or(json!([]), |d| json!([cps(d)]))})
}
fn make(m: &Value) -> http_types::Result<Metric> {
    let one = |x: &Value| x.as_array().unwrap().first().map(text);
    let dur = one(&m["dur"]).map(|t| { let n: u128 = t.parse().unwrap(); Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32) });
    Metric::new(text(&m["n"]), dur, one(&m["desc"]))
}
pub fn stread(i: &Value) -> Value {
    match ServerTiming::from_headers(with_values(hn::SERVER_TIMING, &i["vals"])) {
        Err(e) => fail(e), Ok(None) => none(),
        Ok(Some(l)) => {
            match views!(l, view) { Some((a, _)) => ok(Value::Array(a)), None => bad() }
        }
    }
}
pub fn stwrite(i: &Value) -> Value {
    let mut l = ServerTiming::new();
    let ms = i["ms"].as_array().unwrap();
    for m in ms { l.push(make(m).unwrap()); }
    match written(&l, hn::SERVER_TIMING) {
        None => bad(),
        Some(v) => ok(json!({"back": stread(&json!({"vals": [cps(&v)]})), "bare": if ms.iter().all(|m| m["dur"].as_array().unwrap().is_empty()) { json!([cps(&v)]) } else { json!([]) }})),
    }
}
pub fn stnew(i: &Value) -> Value { match make(&i["m"]) { Err(e) => fail(e), Ok(m) => ok(view(&m)) } }
