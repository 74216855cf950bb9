//! Forwarding information (spec/Forwarded.tla).
use crate::*;
use http_types::headers::FORWARDED;
use http_types::proxies::Forwarded;
use http_types::{Request, Response, Url};
use serde_json::{json, Value};
use std::convert::TryFrom;

fn view(f: &Forwarded<'_>) -> Value {
    let o = |x: Option<&str>| opt(x.map(cps));
    json!({"fors": f.forwarded_for().iter().map(|x| cps(x)).collect::<Vec<_>>(), "by": o(f.by()), "host": o(f.host()), "proto": o(f.proto())})
}
pub fn parse(i: &Value) -> Value {
    let t = text(&i["t"]);
    let r = match Forwarded::parse(&t) {
        Ok(f) => { let v = view(&f); if v != view(&f.clone().into_owned()) || f != f.clone().into_owned() { return json!({"k":"disagree"}); } ok(v) }
        Err(e) => { let _ = e.to_string(); err(0) }
    };
    let r2 = match Forwarded::try_from(t.as_str()) { Ok(f) => ok(view(&f)), Err(_) => err(0) };
    if r != r2 { return json!({"k":"disagree"}); }
    r
}
pub fn build(i: &Value) -> Value {
    let v = &i["v"];
    let mut f = Forwarded::new();
    for x in v["fors"].as_array().unwrap() { f.add_for(text(x)); }
    if let Some(x) = v["by"].as_array().unwrap().first() { f.set_by("old"); f.set_by(text(x)); }
    if let Some(x) = v["host"].as_array().unwrap().first() { f.set_host(text(x)); }
    if let Some(x) = v["proto"].as_array().unwrap().first() { f.set_proto(text(x)); }
    if &view(&f) != v { return json!({"k":"disagree"}); }
    let w = match crate::typed::written(&f, FORWARDED) { Some(w) => w, None => return crate::typed::bad() };
    if w != f.to_string() { return json!({"k":"disagree"}); }
    let mut m = Response::new(200);
    m.insert_header(&f, &f);
    let same = match Forwarded::from_headers(&m) { Ok(Some(g)) => g == f && view(&g) == *v && Forwarded::parse(&w).map(|h| h == f).unwrap_or(false), _ => false };
    ok(json!({"t": cps(&w), "same": same}))
}
fn fill(q: &mut Request, name: &str, vals: &Value) { for v in vals.as_array().map(|x| x.as_slice()).unwrap_or(&[]) { q.append_header(name, text(v).as_str()); } }
pub fn headers(i: &Value) -> Value {
    let mut q = any_request(Url::parse("http://url.org/").unwrap(), seed(i));
    surround(q.as_mut(), seed(i), &["forwarded", "x-forwarded-for", "x-forwarded-host", "x-forwarded-by", "x-forwarded-proto", "host"]);
    for (n, k) in [("Forwarded", "fwd"), ("X-Forwarded-For", "xf"), ("x-forwarded-by", "xb"), ("X-FORWARDED-HOST", "xh"), ("X-Forwarded-Proto", "xp")] { fill(&mut q, n, &i[k]); }
    fn of<E>(r: Result<Option<Forwarded<'_>>, E>) -> Value { match r { Ok(Some(f)) => ok(view(&f)), Ok(None) => none(), Err(_) => err(0) } }
    let (a, b, c) = (of(Forwarded::from_headers(&q)), of(Forwarded::from_forwarded_header(&q)), of(Forwarded::from_x_headers(&q)));
    let want = if i["fwd"].as_array().unwrap().is_empty() { if b["k"] != "none" { return json!({"k":"disagree"}); } &c } else { &b };
    if &a != want { return json!({"k":"disagree"}); }
    a
}
pub fn remote(i: &Value) -> Value {
    let mut q = any_request(Url::parse("http://url.org/").unwrap(), seed(i));
    surround(q.as_mut(), seed(i), &["forwarded", "x-forwarded-for", "x-forwarded-host", "x-forwarded-by", "x-forwarded-proto", "host"]);
    fill(&mut q, "Forwarded", &i["fwd"]); fill(&mut q, "X-Forwarded-For", &i["xf"]);
    let peer: Option<String> = i["peer"].as_array().unwrap().first().map(text);
    q.set_peer_addr(peer.clone()); q.set_local_addr(Some("10.0.0.1:1"));
    if q.peer_addr() != peer.as_deref() || q.local_addr() != Some("10.0.0.1:1") { return json!({"k":"disagree"}); }
    match q.remote() { None => none(), Some(x) => ok(cps(x)) }
}
pub fn host(i: &Value) -> Value {
    let u = match i["url"].as_array().unwrap().first() { None => "data:text/plain,x".to_string(), Some(h) => format!("http://user@{}:8080/p?q", text(h)) };
    let mut q = any_request(Url::parse(&u).unwrap(), seed(i));
    surround(q.as_mut(), seed(i), &["forwarded", "x-forwarded-for", "x-forwarded-host", "x-forwarded-by", "x-forwarded-proto", "host"]);
    fill(&mut q, "Forwarded", &i["fwd"]); fill(&mut q, "X-Forwarded-Host", &i["xh"]); fill(&mut q, "Host", &i["hosts"]);
    match q.host() { None => none(), Some(x) => ok(cps(x)) }
}
