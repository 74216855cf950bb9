//! Headers made of registered tokens (spec/Tokens.tla).
use crate::*;
use crate::typed::{bad, with_values, written};
use http_types::cache::{ClearDirective, ClearSiteData};
use http_types::content::{self, ContentEncoding};
use http_types::headers as hn;
use http_types::other::Expect;
use http_types::server::Allow;
use http_types::transfer::{self, TransferEncoding};
use http_types::Method;
use serde_json::{json, Value};

fn clear(t: &str) -> ClearDirective { match t { "cache" => ClearDirective::Cache, "cookies" => ClearDirective::Cookies, "storage" => ClearDirective::Storage, "executionContexts" => ClearDirective::ExecutionContexts, t => panic!("directive {t}") } }
fn clear_name(d: &ClearDirective) -> &'static str { match d { ClearDirective::Cache => "cache", ClearDirective::Cookies => "cookies", ClearDirective::Storage => "storage", ClearDirective::ExecutionContexts => "executionContexts" } }
const METHODS: [&str; 39] = ["GET", "HEAD", "OPTIONS", "PRI", "PROPFIND", "REPORT", "SEARCH", "TRACE", "ACL", "BASELINE-CONTROL", "BIND", "CHECKIN", "CHECKOUT", "CONNECT", "COPY", "DELETE", "LABEL", "LINK",
  "LOCK", "MERGE", "MKACTIVITY", "MKCALENDAR", "MKCOL", "MKREDIRECTREF", "MKWORKSPACE", "MOVE", "ORDERPATCH", "PATCH", "POST", "PROPPATCH", "PUT", "REBIND", "UNBIND", "UNCHECKOUT", "UNLINK", "UNLOCK", "UPDATE", "UPDATEREDIRECTREF", "VERSION-CONTROL"];
fn set(f: impl Fn(&str) -> bool) -> Value { Value::Object(METHODS.iter().map(|m| (m.to_string(), json!(f(m)))).collect()) }
macro_rules! coding { ($m:ident, $e:expr, $($extra:pat => $x:expr),*) => { match $e { $m::Encoding::Gzip => "gzip", $m::Encoding::Deflate => "deflate", $m::Encoding::Brotli => "br", $m::Encoding::Zstd => "zstd", $m::Encoding::Identity => "identity", $($extra => $x,)* _ => "?" } } }
pub fn tokread(i: &Value) -> Value {
    let v = &i["vals"];
    match s(i, "h") {
        "allow" => match Allow::from_headers(with_values(hn::ALLOW, v)) {
            Err(e) => fail(e), Ok(None) => none(),
            Ok(Some(a)) => {
                let x: Vec<String> = a.iter().map(|m| m.to_string()).collect();
                let y: Vec<String> = (&a).into_iter().map(|m| m.to_string()).collect();
                let r = set(|m| a.contains(m.parse::<Method>().unwrap()));
                let n = a.iter().size_hint();
                let z: Vec<String> = a.into_iter().map(|m| m.to_string()).collect();
                let mut u = x.clone(); u.sort(); u.dedup();
                if x != y || x != z || u.len() != x.len() || n != (x.len(), Some(x.len())) || r != set(|m| x.iter().any(|t| t == m)) { return bad(); }
                ok(r)
            }
        },
        "clear-site-data" => match ClearSiteData::from_headers(with_values(hn::CLEAR_SITE_DATA, v)) {
            Err(e) => fail(e), Ok(None) => none(),
            Ok(Some(a)) => {
                let w = a.wildcard();
                match views!(a, |d: &ClearDirective| clear_name(d)) { Some((x, _)) => ok(json!({"es": x, "wild": w})), None => bad() }
            }
        },
        "content-encoding" => match ContentEncoding::from_headers(with_values(hn::CONTENT_ENCODING, v)) { Err(e) => fail(e), Ok(None) => none(), Ok(Some(c)) => { if *c != c.encoding() || c != c.encoding() || c != &c.encoding() { return bad(); } ok(json!(coding!(content, c.encoding(),))) } },
        "transfer-encoding" => match TransferEncoding::from_headers(with_values(hn::TRANSFER_ENCODING, v)) { Err(e) => fail(e), Ok(None) => none(), Ok(Some(c)) => { if *c != c.encoding() || c != c.encoding() || c != &c.encoding() { return bad(); } ok(json!(coding!(transfer, c.encoding(), transfer::Encoding::Chunked => "chunked"))) } },
        _ => match Expect::from_headers(with_values(hn::EXPECT, v)) { Err(e) => fail(e), Ok(None) => none(), Ok(Some(_)) => ok(json!("100-continue")) },
    }
}
pub fn tokwrite(i: &Value) -> Value {
    let v = &i["v"];
    let back = |t: &str| tokread(&json!({"h": i["h"], "vals": [cps(t)]}));
    let w = match s(i, "h") {
        "allow" => {
            let mut a = Allow::new();
            let (k, n) = (seed(v), METHODS.len());
            for j in 0..n { let m = METHODS[if k % 2 == 0 { (j + k / 2) % n } else { (2 * n - 1 - j + k / 2) % n }]; if v[m].as_bool().unwrap() { a.insert(m.parse().unwrap()); a.insert(m.parse().unwrap()); } }
            return match written(&a, hn::ALLOW) { None => bad(), Some(t) => {
                let els: Vec<&str> = if t.is_empty() { vec![] } else { t.split(", ").collect() };
                ok(json!({"t": {"els": set(|m| els.contains(&m)), "n": els.len()}, "back": back(&t)}))
            } };
        }
        "clear-site-data" => { let mut c = ClearSiteData::new(); for d in v["es"].as_array().unwrap() { let d = clear(d.as_str().unwrap()); if d.to_string() != d.as_str() || d.as_str().parse::<ClearDirective>().ok() != Some(d) { return bad(); } c.push(d); } c.set_wildcard(v["wild"].as_bool().unwrap()); written(&c, hn::CLEAR_SITE_DATA) }
        "content-encoding" => { let e = nego::cenc(v.as_str().unwrap()); if ContentEncoding::from(e) != e || ContentEncoding::from(&e) != e || e.to_string() != v.as_str().unwrap() { return bad(); } written(&ContentEncoding::new(e), hn::CONTENT_ENCODING) }
        "transfer-encoding" => { let e = nego::tenc(v.as_str().unwrap()); if TransferEncoding::from(e) != e || TransferEncoding::from(&e) != e || e.to_string() != v.as_str().unwrap() { return bad(); } written(&TransferEncoding::new(e), hn::TRANSFER_ENCODING) }
        _ => written(&Expect::new(), hn::EXPECT),
    };
    match w { None => bad(), Some(t) => ok(json!({"t": cps(&t), "back": back(&t)})) }
}
