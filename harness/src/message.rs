//! Requests and responses (spec/Message.tla).
use crate::*;
use futures_lite::future::block_on;
use futures_lite::io::Cursor;
use http_types::headers::{HeaderValues, CONTENT_TYPE};
use http_types::{mime, mime::Mime, Body, Method, Request, Response, StatusCode, Url, Version};
use serde_json::{json, Value};
use std::convert::TryFrom;

pub fn body_named(b: &str) -> Body {
    match b {
        "empty" => Body::empty(),
        "text" => Body::from_string("T".into()),
        "bin" => Body::from_bytes(vec![2, 2]),
        "stream" => Body::from_reader(Cursor::new(vec![b's'; 5]), None),
        "nomime" => { let mut b = Body::from_bytes(vec![3, 3, 3]); b.set_mime(None); b }
        "html" => { let mut b = Body::from_bytes(b"<br>".to_vec()); b.set_mime(Some(mime::HTML)); b }
        "json" => Body::from_json(&json!({"a":1})).unwrap(),
        "form" => Body::from_form(&[("a", "1")]).unwrap(),
        x => panic!("body {x}"),
    }
}
/// Identify a body by everything observable about it (consumes it).
pub fn body_name(b: Body) -> Value {
    let (len, mime) = (b.len(), b.mime().map(|m| m.to_string()));
    let content = block_on(b.into_bytes()).unwrap();
    for x in ["empty", "text", "bin", "stream", "nomime", "html", "json", "form"] {
        let y = body_named(x);
        if y.len() == len && y.mime().map(|m| m.to_string()) == mime && block_on(y.into_bytes()).unwrap() == content { return json!(x); }
    }
    json!(format!("?{:?} {:?} {:?}", len, mime, content))
}
pub fn vals(v: &HeaderValues) -> Value { Value::Array(v.iter().map(|x| json!(x.as_str())).collect()) }
fn list(v: Option<HeaderValues>) -> Value { match v { None => none(), Some(v) => ok(vals(&v)) } }
fn hname(o: &Value, other: &str) -> http_types::headers::HeaderName { match s(o, "h") { "ct" => CONTENT_TYPE, _ => other.into() } }
pub fn version(v: &str) -> Version { match v { "HTTP/0.9" => Version::Http0_9, "HTTP/1.0" => Version::Http1_0, "HTTP/1.1" => Version::Http1_1, "HTTP/2" => Version::Http2_0, "HTTP/3" => Version::Http3_0, x => panic!("{x}") } }

struct Tag(i64);
enum M { Q(Request), S(Response) }
macro_rules! on { ($m:expr, $x:ident => $e:expr) => { match $m { M::Q($x) => $e, M::S($x) => $e } } }

fn fresh(kind: &str) -> M {
    if kind == "req" { M::Q(Request::new(Method::Get, "http://a.example/")) } else { M::S(Response::new(200)) }
}

/// other: the name of the header that is not Content-Type
pub struct MessageM { kind: String, other: String, m: Vec<M>, held: Body }
impl MessageM {
    pub fn new(i: &Value) -> Self { let k = s(i, "kind"); MessageM { kind: k.into(), other: i["other"].as_str().unwrap_or("X-A").to_string(), m: vec![fresh(k), fresh(k)], held: Body::empty() } }
}
impl Machine for MessageM {
    fn step(&mut self, o: &Value) -> Value {
        if s(o, "n") == "hold" { self.held = body_named(s(o, "b")); return unit(); }
        let i = n(o, "i") as usize - 1;
        let held = &mut self.held;
        let other = self.other.clone();
        match s(o, "n") {
            "clone" => { let c = match &self.m[i] { M::Q(x) => M::Q(x.clone()), M::S(x) => M::S(x.clone()) }; self.m[1 - i] = c; unit() }
            "make" => {
                self.m[i] = if self.kind == "req" {
                    let (u, v) = (s(o, "url"), s(o, "v"));
                    M::Q(match (s(o, "how"), v) {
                        ("verb", "GET") => Request::get(u), ("verb", "HEAD") => Request::head(u), ("verb", "POST") => Request::post(u), ("verb", "PUT") => Request::put(u),
                        ("verb", "DELETE") => Request::delete(u), ("verb", "CONNECT") => Request::connect(u), ("verb", "OPTIONS") => Request::options(u),
                        ("verb", "TRACE") => Request::trace(u), ("verb", "PATCH") => Request::patch(u),
                        ("urlnew", _) => Request::new(v.parse().unwrap(), Url::parse(u).unwrap()),
                        ("stringnew", _) => Request::new(v.parse().unwrap(), &*String::from(u)),
                        _ => Request::new(v.parse().unwrap(), u),
                    })
                } else {
                    let c = n(o, "c") as u16;
                    M::S(match (s(o, "from"), s(o, "b")) {
                        ("unit", _) => Response::from(()), ("status", _) => Response::from(StatusCode::try_from(c).unwrap()), ("new", _) => Response::new(c),
                        (_, "text") => Response::from("T"), (_, "bin") => Response::from(vec![2u8, 2]), (_, "json") => Response::from(json!({"a":1})), (_, b) => Response::from(body_named(b)),
                    })
                };
                unit()
            }
            "setmsg" => {
                let other = std::mem::replace(&mut self.m[1 - i], fresh(&self.kind));
                let b: Body = match other { M::Q(x) => x.into(), M::S(mut x) => x.take_body() };
                on!(&mut self.m[i], x => x.set_body(b)); unit()
            }
            "set" => { let b = s(o, "b");
                // the conversions users rely on, where one exists
                on!(&mut self.m[i], x => match b { "text" => x.set_body("T"), "bin" => x.set_body(&[2u8, 2][..]), "json" => x.set_body(json!({"a":1})), _ => x.set_body(body_named(b)) }); unit() }
            "replace" => { let b = on!(&mut self.m[i], x => x.replace_body(body_named(s(o, "b")))); json!({"k":"body","v": body_name(b)}) }
            "take" => { let b = on!(&mut self.m[i], x => x.take_body()); json!({"k":"body","v": body_name(b)}) }
            "swap" => { on!(&mut self.m[i], x => x.swap_body(held)); json!({"k":"held","v": opt(held.len().map(|l| json!(l)))}) }
            "setct" => { let m: Mime = s(o, "v").parse().unwrap(); list(on!(&mut self.m[i], x => x.set_content_type(m))) }
            "ins" => list(on!(&mut self.m[i], x => x.insert_header(hname(o, &other), s(o, "v"))).unwrap()),
            "app" => { on!(&mut self.m[i], x => x.append_header(hname(o, &other), s(o, "v"))).unwrap(); unit() }
            "push" => { if let Some(v) = on!(&mut self.m[i], x => x.header_mut(hname(o, &other))) { v.append(&mut HeaderValues::from(s(o, "v").parse::<http_types::headers::HeaderValue>().unwrap())); } unit() }
            "rm" => list(on!(&mut self.m[i], x => x.remove_header(hname(o, &other)))),
            "method" => { if let M::Q(x) = &mut self.m[i] { x.set_method(s(o, "v").parse().unwrap()); } unit() }
            "status" => { if let M::S(x) = &mut self.m[i] { x.set_status(StatusCode::try_from(n(o, "c") as u16).unwrap()); } unit() }
            "url" => { if let M::Q(x) = &mut self.m[i] { *x.url_mut() = Url::parse(s(o, "v")).unwrap(); } unit() }
            "ver" => { let v = o["l"].as_array().unwrap().first().map(|v| version(v.as_str().unwrap())); on!(&mut self.m[i], x => x.set_version(v)); unit() }
            "peer" => { let v = o["l"].as_array().unwrap().first().map(|v| v.as_str().unwrap().to_string()); on!(&mut self.m[i], x => x.set_peer_addr(v)); unit() }
            "local" => { let v = o["l"].as_array().unwrap().first().map(|v| v.as_str().unwrap().to_string()); on!(&mut self.m[i], x => x.set_local_addr(v)); unit() }
            "ext" => { let t = Tag(n(o, "x")); match on!(&mut self.m[i], x => x.ext_mut().insert(t)) { None => none(), Some(t) => ok(json!([t.0])) } }
            "extrm" => match on!(&mut self.m[i], x => x.ext_mut().remove::<Tag>()) { None => none(), Some(t) => ok(json!([t.0])) },
            x => panic!("op {x}"),
        }
    }
    fn proj(&mut self) -> Value {
        let other = self.other.to_lowercase();
        let f = |m: &M| {
            let (method, url) = match m { M::Q(x) => (x.method().to_string(), x.url().to_string()), _ => ("GET".into(), "http://a.example/".into()) };
            let status = match m { M::S(x) => u16::from(x.status()), _ => 200 };
            on!(m, x => json!({
                "method": method, "url": url, "status": status,
                "ver": opt(x.version().map(|v| json!(v.to_string()))),
                "peer": opt(x.peer_addr().map(|v| json!(v))), "local": opt(x.local_addr().map(|v| json!(v))),
                "ct": x.header("content-type").map(vals).unwrap_or(json!([])), "xa": x.header(other.as_str()).map(vals).unwrap_or(json!([])),
                "nh": x.header_names().count(),
                "ext": opt(x.ext().get::<Tag>().map(|t| json!(t.0))),
                "len": opt(x.len().map(|l| json!(l))), "empty": opt(x.is_empty().map(|l| json!(l))),
                "ctype": opt(x.content_type().map(|m| json!(m.to_string()))),
            }))
        };
        json!([f(&self.m[0]), f(&self.m[1])])
    }
}
