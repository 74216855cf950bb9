//! Cache-Control (spec/Cache.tla).
use crate::*;
use crate::typed::{bad, with_values, written};
use http_types::cache::{CacheControl, CacheDirective};
use http_types::headers::{HeaderValue, CACHE_CONTROL};
use serde_json::{json, Value};
use std::time::Duration;

fn view(d: &CacheDirective) -> Value {
    use CacheDirective::*;
    let a = |x: &Duration| json!([cps(&x.as_secs().to_string())]);
    let (n, a) = match d {
        Immutable => ("immutable", json!([])), MaxAge(x) => ("max-age", a(x)), MaxStale(None) => ("max-stale", json!([])), MaxStale(Some(x)) => ("max-stale", a(x)), MinFresh(x) => ("min-fresh", a(x)),
        MustRevalidate => ("must-revalidate", json!([])), NoCache => ("no-cache", json!([])), NoStore => ("no-store", json!([])), NoTransform => ("no-transform", json!([])), OnlyIfCached => ("only-if-cached", json!([])),
        Private => ("private", json!([])), ProxyRevalidate => ("proxy-revalidate", json!([])), Public => ("public", json!([])), SMaxAge(x) => ("s-maxage", a(x)), StaleIfError(x) => ("stale-if-error", a(x)),
        StaleWhileRevalidate(x) => ("stale-while-revalidate", a(x)), _ => ("?", json!([])),
    };
    json!({"n": n, "a": a})
}
fn make(n: &str, a: Option<Duration>) -> CacheDirective {
    use CacheDirective::*;
    let d = a.unwrap_or(Duration::from_secs(1));
    match n {
        "immutable" => Immutable, "max-age" => MaxAge(d), "max-stale" => MaxStale(a), "min-fresh" => MinFresh(d), "must-revalidate" => MustRevalidate, "no-cache" => NoCache, "no-store" => NoStore, "no-transform" => NoTransform,
        "only-if-cached" => OnlyIfCached, "private" => Private, "proxy-revalidate" => ProxyRevalidate, "public" => Public, "s-maxage" => SMaxAge(d), "stale-if-error" => StaleIfError(d), "stale-while-revalidate" => StaleWhileRevalidate(d), n => panic!("directive {n}"),
    }
}
pub fn ccread(i: &Value) -> Value {
    match CacheControl::from_headers(with_values(CACHE_CONTROL, &i["vals"])) {
        Err(e) => fail(e), Ok(None) => none(),
        Ok(Some(c)) => {
            match views!(c, view) { Some((a, _)) => ok(Value::Array(a)), None => bad() }
        }
    }
}
pub fn ccwrite(i: &Value) -> Value {
    let ns: u32 = i.get("ns").map(|x| text(x).parse().unwrap()).unwrap_or(0);
    let mut c = CacheControl::new();
    for d in i["ds"].as_array().unwrap() {
        let a = d["a"].as_array().unwrap().first().map(|x| Duration::new(text(x).parse().unwrap(), ns));
        let d = make(s(d, "n"), a);
        let v: HeaderValue = d.clone().into();
        if v.as_str().is_empty() { return bad(); }
        c.push(d);
    }
    match written(&c, CACHE_CONTROL) { None => bad(), Some(v) => ok(json!({"t": cps(&v), "back": ccread(&json!({"vals": [cps(&v)]}))})) }
}
pub fn ccvalid(i: &Value) -> Value { let d = make(s(i, "n"), None); ok(json!({"req": d.valid_in_req(), "res": d.valid_in_res()})) }
