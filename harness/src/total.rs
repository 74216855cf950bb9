//! Reading every typed header from any text (spec/Total.tla).
use crate::typed::with_values;
use crate::*;
use http_types::auth::*;
use http_types::cache::*;
use http_types::conditional::*;
use http_types::content::*;
use http_types::headers::{Header, HeaderName, Headers};
use http_types::other::*;
use http_types::proxies::Forwarded;
use http_types::security::*;
use http_types::server::Allow;
use http_types::trace::{ServerTiming, TraceContext};
use http_types::transfer::{TransferEncoding, TE};
use http_types::{mime::Mime, Response};
use serde_json::{json, Value};

fn look<T: std::fmt::Debug>(name: &str, vals: &Value, read: impl Fn(&Response) -> Result<Option<T>, u16>, write: impl Fn(&T) -> Vec<u8>) -> Value { look_key(name, vals, read, write, |x| x.to_vec()) }
fn look_key<T: std::fmt::Debug>(name: &str, vals: &Value, read: impl Fn(&Response) -> Result<Option<T>, u16>, write: impl Fn(&T) -> Vec<u8>, key: impl Fn(&[u8]) -> Vec<u8>) -> Value {
    let r = with_values(name.parse::<HeaderName>().unwrap(), vals);
    let x = match read(&r) { Err(st) => return err(st), Ok(None) => return none(), Ok(Some(x)) => x };
    let _ = format!("{x:?}");
    let w = write(&x);
    // what was written, read and written again
    let again = match String::from_utf8(w.clone()) {
        Err(_) => "not text",
        Ok(t) => match read(&with_values(name.parse().unwrap(), &json!([cps(&t)]))) { Ok(Some(y)) => if key(&write(&y)) == key(&w) { "same" } else { "differs" }, Ok(None) => "absent", Err(_) => "error" },
    };
    if again == "same" { ok(json!(w.len())) } else { json!({"k":"unstable","v":again}) }
}
fn put<H: Header>(h: &H) -> Vec<u8> {
    let mut r = Response::new(200);
    h.apply_header(&mut r);
    let (name, v) = (h.header_name(), h.header_value());
    r.insert_header(h, h);
    r.insert_header(name, v.clone());
    v.as_str().as_bytes().to_vec()
}
pub fn total(i: &Value) -> Value {
    let v = &i["vals"];
    macro_rules! hd { ($n:expr, $t:ty) => { look($n, v, |r| <$t>::from_headers(r).map_err(|e| e.status().into()), |x: &$t| put(x)) } }
    macro_rules! hu { ($n:expr, $t:ty) => { look($n, v, |r| <$t>::from_headers(s(i, "base"), r).map_err(|e| e.status().into()), |x: &$t| put(x)) } }
    match s(i, "h") {
        "server-timing" => hd!("server-timing", ServerTiming),
        // the id a reader gives itself is its own
        "traceparent" => look_key("traceparent", v, |r| TraceContext::from_headers(r).map_err(|e| e.status().into()), |x: &TraceContext| { put(x); put(&x.child()); x.to_string().into_bytes() }, |t| [&t[..36], &t[52..]].concat()),
        "allow" => look("allow", v, |r| Allow::from_headers(r).map_err(|e| e.status().into()), |x: &Allow| { let t = String::from_utf8(put(x)).unwrap(); let mut l: Vec<&str> = t.split(", ").collect(); l.sort(); l.join(", ").into_bytes() }),
        "www-authenticate" => hd!("www-authenticate", WwwAuthenticate),
        "basic-auth" => hd!("authorization", BasicAuth),
        "authorization" => hd!("authorization", Authorization),
        "age" => hd!("age", Age),
        "cache-control" => hd!("cache-control", CacheControl),
        "expires" => hd!("expires", Expires),
        "clear-site-data" => hd!("clear-site-data", ClearSiteData),
        "forwarded" => look("forwarded", v, |r| Forwarded::from_headers(AsRef::<Headers>::as_ref(r)).map(|o| o.map(|f| f.into_owned())).map_err(|_| 400), |x| put(x)),
        "x-forwarded" => {
            let mut r = Response::new(200);
            for (k, n) in ["x-forwarded-for", "x-forwarded-host", "x-forwarded-proto", "x-forwarded-by"].iter().enumerate() { if let Some(x) = v.get(k) { r.append_header(*n, text(x).as_str()); } }
            match Forwarded::from_headers(&r) { Err(_) => err(400), Ok(None) => none(), Ok(Some(x)) => { let _ = format!("{x:?}"); put(&x); ok(json!(0)) } }
        }
        "content-location" => hu!("content-location", ContentLocation),
        "referer" => hu!("referer", Referer),
        "sourcemap" => hu!("sourcemap", SourceMap),
        "content-encoding" => hd!("content-encoding", ContentEncoding),
        "content-length" => hd!("content-length", ContentLength),
        "content-type" => hd!("content-type", ContentType),
        "accept-encoding" => hd!("accept-encoding", AcceptEncoding),
        "accept" => hd!("accept", Accept),
        "retry-after" => hd!("retry-after", RetryAfter),
        "date" => hd!("date", Date),
        "expect" => hd!("expect", Expect),
        "if-unmodified-since" => hd!("if-unmodified-since", IfUnmodifiedSince),
        "if-modified-since" => hd!("if-modified-since", IfModifiedSince),
        "last-modified" => hd!("last-modified", LastModified),
        "if-match" => hd!("if-match", IfMatch),
        "if-none-match" => hd!("if-none-match", IfNoneMatch),
        "etag" => hd!("etag", ETag),
        "vary" => hd!("vary", Vary),
        "transfer-encoding" => hd!("transfer-encoding", TransferEncoding),
        "te" => hd!("te", TE),
        "strict-transport-security" => hd!("strict-transport-security", StrictTransportSecurity),
        "timing-allow-origin" => hd!("timing-allow-origin", TimingAllowOrigin),
        // a message's own reading of its media type
        "message-type" => {
            let r = with_values("content-type".parse().unwrap(), v);
            match r.content_type() { None => none(), Some(m) => { let _ = (m.essence().to_string(), m.basetype().to_string(), m.subtype().to_string(), m.param("charset").map(|p| p.to_string())); let t = m.to_string(); let again = match t.parse::<Mime>() { Ok(x) if x.to_string() == t => "same", Ok(_) => "differs", Err(_) => "error" }; if again == "same" { ok(json!(t.len())) } else { json!({"k":"unstable","v":again}) } } }
        }
        x => panic!("header {x}"),
    }
}
