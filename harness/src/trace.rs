//! Trace contexts (spec/Trace.tla).
use crate::*;
use crate::typed::{bad, with_values, written};
use http_types::headers as hn;
use http_types::trace::TraceContext;
use serde_json::{json, Value};

struct Ids { ids: Vec<u64>, trace: Option<u128> }
impl Ids {
    fn num(&mut self, x: u64) -> usize { match self.ids.iter().position(|i| *i == x) { Some(k) => k + 1, None => { self.ids.push(x); self.ids.len() } } }
}
fn view(c: &TraceContext, z: &mut Ids) -> Option<Value> {
    let p = match c.parent_id() { None => json!([]), Some(x) => match z.ids.iter().position(|i| *i == x) { Some(k) => json!(["n", k + 1]), None => json!(["h", cps(&format!("{x:016x}"))]) } };
    let i = z.num(c.id());
    let t = if z.trace == Some(c.trace_id()) { json!(["own"]) } else { json!(["h", cps(&format!("{:032x}", c.trace_id()))]) };
    let w = written(c, hn::TRACEPARENT)?;
    let f: Vec<&str> = w.split('-').collect();
    if f.len() != 4 || f[1] != format!("{:032x}", c.trace_id()) || f[2] != format!("{:016x}", c.id()) || w != c.to_string() { return None; }
    Some(json!({"v": cps(&format!("{:02x}", c.version())), "t": t, "p": p, "i": i, "on": c.sampled(), "w": [cps(f[0]), cps(f[3])]}))
}
pub fn trace(i: &Value) -> Value {
    let mut z = Ids { ids: vec![], trace: None };
    let mut c = if s(i, "start") == "new" { let c = TraceContext::new(); z.trace = Some(c.trace_id()); c }
        else { match TraceContext::from_headers(with_values(hn::TRACEPARENT, &i["vals"])) { Err(e) => return fail(e), Ok(None) => return none(), Ok(Some(c)) => c } };
    let mut out = vec![];
    match view(&c, &mut z) { Some(v) => out.push(v), None => return bad() }
    for o in i["ops"].as_array().unwrap() {
        match o.as_str().unwrap() {
            "child" => { let twin = c.child(); c = c.child(); if twin.id() == c.id() || twin.trace_id() != c.trace_id() || twin.parent_id() != c.parent_id() { return bad(); } }
            "wire" => { let mut r = any_request(http_types::Url::parse("http://example.org").unwrap(), seed(i)); surround(r.as_mut(), seed(i), &["traceparent"]); r.insert_header(&c, &c); match TraceContext::from_headers(&r) { Ok(Some(d)) => c = d, _ => return bad() } }
            "on" => c.set_sampled(true),
            _ => c.set_sampled(false),
        }
        match view(&c, &mut z) { Some(v) => out.push(v), None => return bad() }
    }
    ok(Value::Array(out))
}
