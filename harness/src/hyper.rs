//! Conversions to and from the `http` crate (spec/Hyper.tla).
use crate::message::{body_name, body_named, version};
use crate::*;
use http_types::headers::{HeaderName, HeaderValue, Headers};
use http_types::{Body, Error, Method, Request, Response, StatusCode, Url, Version};
use serde_json::{json, Value};
use std::convert::{TryFrom, TryInto};
use std::str::FromStr;

fn theirs(v: &str) -> http::Version {
    match v { "HTTP/0.9" => http::Version::HTTP_09, "HTTP/1.0" => http::Version::HTTP_10, "HTTP/1.1" => http::Version::HTTP_11, "HTTP/2" => http::Version::HTTP_2, _ => http::Version::HTTP_3 }
}
fn named(v: http::Version) -> &'static str {
    for x in ["HTTP/0.9", "HTTP/1.0", "HTTP/1.1", "HTTP/2", "HTTP/3"] { if theirs(x) == v { return x; } }
    "?"
}
fn sorted(mut v: Vec<(String, Vec<Vec<u8>>)>) -> Value {
    v.sort();
    Value::Array(v.into_iter().map(|(h, vs)| json!({"h": cps(&h), "vs": vs.iter().map(|x| bvals(x)).collect::<Vec<_>>()})).collect())
}
fn ours_hs(h: &Headers) -> Value { sorted(h.iter().map(|(k, v)| (k.as_str().to_string(), v.iter().map(|x| x.as_str().as_bytes().to_vec()).collect())).collect()) }
fn their_hs(h: &http::HeaderMap) -> Value { sorted(h.keys().map(|k| (k.as_str().to_string(), h.get_all(k).iter().map(|x| x.as_bytes().to_vec()).collect())).collect()) }
fn pairs(i: &Value) -> Vec<(String, Vec<u8>)> { i["hs"].as_array().unwrap().iter().map(|p| (text(&p[0]), bytes(&p[1]))).collect() }
fn make_ours(i: &Value) -> Headers { let mut h: Headers = AsRef::<Headers>::as_ref(&Response::new(200)).clone(); for (k, v) in pairs(i) { h.append(k.as_str(), HeaderValue::from_bytes(v).unwrap()).unwrap(); } h }
fn fill(m: &mut http::HeaderMap, i: &Value) { for (k, v) in pairs(i) { m.append(http::header::HeaderName::from_bytes(k.as_bytes()).unwrap(), http::header::HeaderValue::from_bytes(&v).unwrap()); } }

fn view(method: &str, url: &str, status: u16, ver: Option<String>, hs: Value, body: Body) -> Value {
    ok(json!({"method": cps(method), "url": cps(url), "status": status, "ver": opt(ver.map(|v| json!(v))), "hs": hs, "body": body_name(body)}))
}
fn view_req(r: Result<Request, Error>) -> Value {
    match r { Err(e) => fail(e), Ok(r) => { let hs = ours_hs(r.as_ref()); let (m, u, v) = (r.method(), r.url().clone(), r.version().map(|v| v.to_string())); view(m.as_ref(), u.as_str(), 0, v, hs, r.into()) } }
}
fn view_res(r: Result<Response, Error>) -> Value {
    match r { Err(e) => fail(e), Ok(mut r) => { let hs = ours_hs(r.as_ref()); let (st, v) = (u16::from(r.status()), r.version().map(|v| v.to_string())); view("", "", st, v, hs, r.take_body()) } }
}
pub fn hfrom(i: &Value) -> Value {
    let (v, b) = (theirs(s(i, "ver")), body_named(s(i, "body")));
    if s(i, "kind") == "req" {
        let mut r = http::Request::new(b);
        *r.method_mut() = http::Method::from_bytes(text(&i["method"]).as_bytes()).unwrap();
        *r.uri_mut() = text(&i["url"]).parse().unwrap();
        *r.version_mut() = v;
        fill(r.headers_mut(), i);
        view_req(r.try_into())
    } else {
        let mut r = http::Response::new(b);
        *r.status_mut() = http::StatusCode::from_u16(n(i, "status") as u16).unwrap();
        *r.version_mut() = v;
        fill(r.headers_mut(), i);
        view_res(r.try_into())
    }
}
enum T { Q(http::Request<Body>), S(http::Response<Body>) }
fn to(i: &Value) -> T {
    let v = i["ver"].as_array().unwrap().first().map(|v| version(v.as_str().unwrap()));
    macro_rules! dress { ($r:ident) => {{ $r.replace_body(body_named(s(i, "body"))); $r.set_version(v); $r.remove_header("content-type");
        for (k, v) in pairs(i) { $r.append_header(k.as_str(), HeaderValue::from_bytes(v).unwrap()).unwrap(); } }} }
    if s(i, "kind") == "req" {
        let mut r = Request::new(Method::from_str(&text(&i["method"])).unwrap(), Url::parse(&text(&i["url"])).unwrap());
        dress!(r);
        T::Q(r.into())
    } else {
        let mut r = Response::new(n(i, "status") as u16);
        dress!(r);
        T::S(r.into())
    }
}
pub fn hto(i: &Value) -> Value {
    match to(i) {
        T::Q(r) => { let (p, b) = r.into_parts(); view(p.method.as_str(), &p.uri.to_string(), 0, Some(named(p.version).into()), their_hs(&p.headers), b) }
        T::S(r) => { let (p, b) = r.into_parts(); view("", "", p.status.as_u16(), Some(named(p.version).into()), their_hs(&p.headers), b) }
    }
}
pub fn hboth(i: &Value) -> Value { match to(i) { T::Q(r) => view_req(r.try_into()), T::S(r) => view_res(r.try_into()) } }
pub fn hfrommap(i: &Value) -> Value {
    let mut m = http::HeaderMap::new();
    fill(&mut m, i);
    match Headers::try_from(m) { Ok(h) => ok(ours_hs(&h)), Err(e) => fail(e) }
}
pub fn htomap(i: &Value) -> Value { match http::HeaderMap::try_from(make_ours(i)) { Ok(m) => ok(their_hs(&m)), Err(e) => fail(e) } }
pub fn hname(i: &Value) -> Value {
    let t = text(&i["t"]);
    let to = http::header::HeaderName::try_from(HeaderName::from_str(&t).unwrap());
    let back = match http::header::HeaderName::from_bytes(t.as_bytes()) { Err(_) => err(0), Ok(x) => match HeaderName::try_from(x) { Ok(x) => ok(cps(x.as_str())), Err(e) => fail(e) } };
    ok(json!({"to": match to { Ok(x) => ok(cps(x.as_str())), Err(_) => err(0) }, "back": back}))
}
pub fn hvalue(i: &Value) -> Value {
    let t = bytes(&i["t"]);
    let to = match HeaderValue::from_bytes(t.clone()) { Err(_) => none(), Ok(x) => match http::header::HeaderValue::try_from(x) { Ok(x) => ok(bvals(x.as_bytes())), Err(_) => err(0) } };
    let from = match http::header::HeaderValue::from_bytes(&t) { Err(_) => none(), Ok(x) => match HeaderValue::try_from(x) { Ok(x) => ok(bvals(x.as_str().as_bytes())), Err(_) => err(0) } };
    ok(json!({"to": to, "from": from}))
}
pub fn hmethod(i: &Value) -> Value { let h: http::Method = Method::from_str(s(i, "m")).unwrap().into(); let b: Method = http::Method::from_bytes(s(i, "m").as_bytes()).unwrap().into(); ok(json!({"to": h.as_str(), "back": b.as_ref()})) }
pub fn hstatus(i: &Value) -> Value { let k = n(i, "n") as u16; let h: http::StatusCode = StatusCode::try_from(k).unwrap().into(); let b: StatusCode = http::StatusCode::from_u16(k).unwrap().into(); ok(json!({"to": h.as_u16(), "back": u16::from(b)})) }
pub fn hversion(i: &Value) -> Value { let h: http::Version = version(s(i, "v")).into(); let b: Version = theirs(s(i, "v")).into(); ok(json!({"to": named(h), "back": b.to_string()})) }
