//! Media types (spec/Mime.tla, MimeM.tla).
use crate::*;
use http_types::headers::Header;
use http_types::mime::{self, Mime, ParamName};
use http_types::headers::HeaderValue;
use serde_json::{json, Value};

pub fn mime(i: &Value) -> Value {
    let t = text(&i["t"]);
    let m: Mime = match t.parse() { Ok(m) => m, Err(_) => return err(0) };
    let m2: Result<Mime, _> = m.to_string().parse();
    let again = matches!(&m2, Ok(x) if *x == m && x.to_string() == m.to_string());
    let names = i["names"].as_array().unwrap().iter().map(|k| opt(text(k).parse::<ParamName>().ok().and_then(|k| m.param(k).map(|v| cps(v.as_str()))))).collect::<Vec<_>>();
    let shown = m.to_string();
    // the other ways of making one and of looking at one
    let raw = text(&i["t"]);
    if Mime::from(raw.as_str()) != m { return json!("from"); }
    for k in i["names"].as_array().unwrap().iter().map(text) {
        if let Ok(name) = k.parse::<ParamName>() {
            let (v, w) = (m.param(name.clone()).cloned(), m.param(ParamName::from(k.as_str())).cloned());
            if v != w || name.as_str() != name.to_string() { return json!("param"); }
            if let Some(v) = v {
                let other = format!("{v}x");
                if v != *v.as_str() || v != v.as_str() || v == *other.as_str() || v == other.as_str() || v.to_string() != v.as_str() { return json!("value"); }
            }
        }
    }
    if shown.is_ascii() {
        let mut q = http_types::Response::new(200);
        q.insert_header("content-type", m.clone()).unwrap();
        if q["content-type"].as_str() != shown || http_types::content::ContentType::from(m.clone()) != m || http_types::content::ContentType::new(m.clone()) != &m { return json!("inserted"); }
    }
    if shown.is_ascii() && (HeaderValue::from(m.clone()).as_str() != shown || HeaderValue::from(&m).as_str() != shown) { return json!({"k":"disagree"}); }
    ok(json!({"m": {"base": cps(m.basetype()), "sub": cps(m.subtype()), "essence": cps(m.essence()), "shown": cps(&shown)}, "params": names, "again": again}))
}
pub fn ctype(i: &Value) -> Value {
    use http_types::content::ContentType;
    let res = crate::typed::with_values(http_types::headers::CONTENT_TYPE, &i["vals"]);
    let mut req = http_types::Request::new(http_types::Method::Get, "http://a/");
    for v in i["vals"].as_array().unwrap() { req.append_header("Content-Type", text(v).as_str()).unwrap(); }
    let show = |m: Option<Mime>| m.map_or(none(), |m| ok(cps(&m.to_string())));
    match s(i, "how") {
        "req" => show(req.content_type()),
        "res" => show(res.content_type()),
        _ => match ContentType::from_headers(&res) {
            Err(e) => fail(e), Ok(None) => none(),
            Ok(Some(c)) => match crate::typed::written(&c, http_types::headers::CONTENT_TYPE) { Some(t) if c.header_value().as_str() == t => ok(cps(&t)), _ => json!("written") }
        }
    }
}
pub fn constant(k: &str) -> Mime {
    macro_rules! t { ($($n:ident)*) => { match k { $(stringify!($n) => mime::$n,)* _ => panic!("constant {k}") } } }
    t!(JAVASCRIPT CSS HTML PLAIN XML RSS ATOM ANY JSON SSE BYTE_STREAM FORM MULTIPART_FORM WASM BMP JPEG PNG SVG WEBP MIDI MP3 OGG OPUS M4A MP4 MPEG WEBM AVI ICO OTF TTF WOFF WOFF2 ZIP SEVENZIP)
}
pub struct MimeM { m: Option<Mime> }
impl MimeM {
    pub fn new(i: &Value) -> Self {
        let i = i.get("init").unwrap_or(i);
        MimeM { m: match s(i, "from") { "text" => text(&i["t"]).parse().ok(), "const" => Some(constant(s(i, "c"))), _ => Mime::from_extension(s(i, "e")) } }
    }
}
impl Machine for MimeM {
    fn step(&mut self, o: &Value) -> Value {
        let m = match &mut self.m { None => return none(), Some(m) => m };
        match s(o, "n") {
            "get" => match m.param(text(&o["name"]).as_str()) { None => none(), Some(v) => ok(cps(v.as_str())) },
            "remove" => match m.remove_param(text(&o["name"]).as_str()) { None => none(), Some(v) => ok(cps(v.as_str())) },
            "within" => { let b: Mime = text(&o["t"]).parse().unwrap(); ok(json!({"le": m.subset_eq(&b), "ge": b.subset_eq(m), "eq": *m == b})) }
            "reparse" => ok(json!({"eq": m.to_string().parse::<Mime>().unwrap() == *m})),
            x => panic!("op {x}"),
        }
    }
    fn proj(&mut self) -> Value {
        match &self.m { None => json!([]), Some(m) => json!([cps(&m.to_string()), cps(m.basetype()), cps(m.subtype()), cps(m.essence())]) }
    }
}
