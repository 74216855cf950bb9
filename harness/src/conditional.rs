//! Entity tags, If-Match, If-None-Match and Vary (spec/Conditional.tla).
use crate::*;
use crate::typed::{bad, with_values, written};
use http_types::conditional::{ETag, IfMatch, IfNoneMatch, Vary};
use http_types::headers as hn;
use serde_json::{json, Value};

fn view(e: &ETag) -> Value {
    let (w, t) = match e { ETag::Strong(t) => (false, t), ETag::Weak(t) => (true, t) };
    if e.is_weak() != w || e.is_strong() == w { return json!("flags"); }
    json!({"w": w, "t": cps(t)})
}
fn make(g: &Value) -> ETag {
    let (w, t) = (g["w"].as_bool().unwrap(), text(&g["t"]));
    match (w, t.contains('\\')) { (true, true) => ETag::Weak(t), (true, false) => ETag::new_weak(t), (false, true) => ETag::Strong(t), (false, false) => ETag::new(t) }
}
pub fn etagread(i: &Value) -> Value { match ETag::from_headers(with_values(hn::ETAG, &i["vals"])) { Err(e) => fail(e), Ok(None) => none(), Ok(Some(e)) => ok(view(&e)) } }
pub fn etagwrite(i: &Value) -> Value {
    let e = make(&i["g"]);
    match written(&e, hn::ETAG) { Some(v) if v == e.to_string() => ok(json!({"t": cps(&v), "back": etagread(&json!({"vals": [cps(&v)]}))})), _ => bad() }
}
macro_rules! read { ($t:ty, $n:expr, $vals:expr, $view:expr) => {{
    match <$t>::from_headers(with_values($n, $vals)) {
        Err(e) => fail(e), Ok(None) => none(),
        Ok(Some(l)) => {
let wild = l.wildcard();
            match views!(l, $view) { Some((a, _)) => ok(json!({"es": a, "wild": wild})), None => bad() }
        }
    }
}} }
pub fn condread(i: &Value) -> Value {
    match s(i, "h") {
        "if-match" => read!(IfMatch, hn::IF_MATCH, &i["vals"], view),
        "if-none-match" => read!(IfNoneMatch, hn::IF_NONE_MATCH, &i["vals"], view),
        _ => read!(Vary, hn::VARY, &i["vals"], |x: &hn::HeaderName| cps(x.as_str())),
    }
}
pub fn condwrite(i: &Value) -> Value {
    let (es, wild) = (i["l"]["es"].as_array().unwrap(), i["l"]["wild"].as_bool().unwrap());
    let w = match s(i, "h") {
        "if-match" => { let mut l = IfMatch::new(); for e in es { l.push(make(e)); } l.set_wildcard(wild); written(&l, hn::IF_MATCH) }
        "if-none-match" => { let mut l = IfNoneMatch::new(); for e in es { l.push(make(e)); } l.set_wildcard(wild); written(&l, hn::IF_NONE_MATCH) }
        _ => { let mut l = Vary::new(); for e in es { l.push(text(e).as_str()).unwrap(); } l.set_wildcard(wild); written(&l, hn::VARY) }
    };
    match w { None => bad(), Some(v) => ok(json!({"t": cps(&v), "back": condread(&json!({"h": i["h"], "vals": [cps(&v)]}))})) }
}
