//! Methods, statuses, versions and errors (spec/Registry.tla, Errors.tla).
use crate::*;
use http_types::{Method, StatusCode, Version};
use serde::de::value as dv;
use serde::de::IntoDeserializer;
use serde::Deserialize;
use serde_json::{json, Value};
use std::convert::TryFrom;

pub fn status(i: &Value) -> Value {
    let k = n(i, "n") as u16;
    match StatusCode::try_from(k) {
        Err(e) => fail(e),
        Ok(x) => ok(json!({"num": u16::from(x), "reason": x.canonical_reason(), "shown": x.to_string(),
            "classes": [x.is_informational(), x.is_success(), x.is_redirection(), x.is_client_error(), x.is_server_error()],
            "eq": x == k && k == x && x != k.wrapping_add(1) && format!("{x:?}") == x.to_string() && x as u16 == k})),
    }
}
fn st<E>(r: Result<StatusCode, E>) -> Value { match r { Ok(x) => ok(json!(u16::from(x))), Err(_) => err(0) } }
pub fn statusjson(i: &Value) -> Value {
    let t = text(&i["t"]);
    let a = st(serde_json::from_str::<StatusCode>(&t));
    let b = st(serde_json::from_value::<StatusCode>(serde_json::from_str(&t).unwrap()));
    if a == b { a } else { json!({"k":"disagree","a":a,"b":b}) }
}
pub fn statusint(i: &Value) -> Value {
    let t = text(&i["t"]);
    type E = dv::Error;
    macro_rules! go { ($t:ty) => { match t.parse::<$t>() { Ok(v) => { let d: <$t as IntoDeserializer<E>>::Deserializer = v.into_deserializer(); st(StatusCode::deserialize(d)) } Err(_) => err(0) } } }
    match s(i, "w") { "i16" => go!(i16), "i32" => go!(i32), "i64" => go!(i64), "u16" => go!(u16), "u32" => go!(u32), _ => go!(u64) }
}
pub fn statusser(i: &Value) -> Value {
    let x = StatusCode::try_from(n(i, "n") as u16).unwrap();
    let v = serde_json::to_value(x).unwrap();
    if serde_json::to_string(&x).unwrap() != v.to_string() { return json!({"k":"disagree"}); }
    ok(v)
}
pub fn method(i: &Value) -> Value {
    let t = text(&i["t"]);
    let parsed = t.parse::<Method>();
    // the other conversion says the same
    let same = match (Method::try_from(t.as_str()), &parsed) { (Ok(a), Ok(b)) => a == *b, (Err(a), Err(b)) => a.status() == b.status(), _ => false };
    if !same { return json!({"k":"disagree"}); }
    match parsed {
        Err(e) => fail(e),
        Ok(x) => { let a: &str = x.as_ref(); ok(json!({"name": cps(a), "shown": cps(&x.to_string()), "safe": x.is_safe()})) }
    }
}
pub fn methodjson(i: &Value) -> Value {
    let j = Value::String(text(&i["t"]));
    match (serde_json::from_value::<Method>(j.clone()), serde_json::from_str::<Method>(&j.to_string())) {
        (Err(_), Err(_)) => err(0),
        (Ok(x), Ok(y)) if x == y => ok(cps(serde_json::to_value(x).unwrap().as_str().unwrap())),
        _ => json!({"k":"disagree"}),
    }
}
fn ver(t: &str) -> Option<Version> { serde_json::from_value::<Version>(json!(t)).ok() }
pub fn version(i: &Value) -> Value {
    let t = text(&i["t"]);
    match (ver(&t), serde_json::from_str::<Version>(&json!(t).to_string())) {
        (None, Err(_)) => err(0),
        (Some(x), Ok(y)) if x == y => { let a: &str = x.as_ref(); if a != x.to_string() { return json!({"k":"disagree"}); }
            ok(json!({"shown": cps(a), "json": cps(serde_json::to_value(x).unwrap().as_str().unwrap())})) }
        _ => json!({"k":"disagree"}),
    }
}
pub fn versioncmp(i: &Value) -> Value {
    let v = |k: &str| match s(i, k) { "HTTP/0.9" => Version::Http0_9, "HTTP/1.0" => Version::Http1_0, "HTTP/1.1" => Version::Http1_1, "HTTP/2" => Version::Http2_0, _ => Version::Http3_0 };
    let (a, b) = (v("a"), v("b"));
    let o = a.cmp(&b);
    if a.partial_cmp(&b) != Some(o) || (a == b) != (o == std::cmp::Ordering::Equal) { return json!({"k":"disagree"}); }
    ok(json!(match o { std::cmp::Ordering::Less => "lt", std::cmp::Ordering::Equal => "eq", _ => "gt" }))
}
