use serde_json::{json, Value};
use std::task::{Context, RawWaker, RawWakerVTable, Waker};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

pub fn unit() -> Value { json!({"k":"unit"}) }
pub fn none() -> Value { json!({"k":"none"}) }
pub fn ok(v: Value) -> Value { json!({"k":"ok","v":v}) }
pub fn err(st: u16) -> Value { json!({"k":"err","st":st}) }
pub fn fail(e: http_types::Error) -> Value { err(u16::from(e.status())) }

/// Code points to text.
pub fn text(v: &Value) -> String {
    v.as_array().unwrap().iter().map(|c| char::from_u32(c.as_u64().unwrap() as u32).unwrap()).collect()
}
pub fn bytes(v: &Value) -> Vec<u8> { v.as_array().unwrap().iter().map(|c| c.as_u64().unwrap() as u8).collect() }
pub fn cps(s: &str) -> Value { Value::Array(s.chars().map(|c| json!(c as u32)).collect()) }
pub fn bvals(b: &[u8]) -> Value { Value::Array(b.iter().map(|c| json!(*c)).collect()) }
pub fn opt(v: Option<Value>) -> Value { match v { Some(v) => json!([v]), None => json!([]) } }
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or_else(|| panic!("field {k}")) }
pub fn n(v: &Value, k: &str) -> i64 { v[k].as_i64().unwrap() }

/// Scaled 64-bit lengths: near 100000*j they stand for 2^32*j and what is near it, near 10^7 for 2^64-1 and below.
pub fn unscale(v: i64) -> Option<u64> {
    if v < 0 { None } else if v >= 9_500_000 { Some(u64::MAX - (10_000_000 - v) as u64) } else if v >= 90_000 { let j = (v + 50_000) / 100_000; Some(((j << 32) + v - 100_000 * j) as u64) } else { Some(v as u64) }
}
pub fn scale(v: Option<u64>) -> Value {
    match v {
        None => json!([]), Some(v) if v < 90_000 => json!([v]), Some(v) if v > u64::MAX - 500_001 => json!([10_000_000 - (u64::MAX - v) as i64]),
        Some(v) => { let j = (v + (1 << 31)) >> 32; let d = v as i128 - ((j as i128) << 32); if d.abs() < 10_000 && j > 0 && j < 95 { json!([100_000 * j as i64 + d as i64]) } else { json!([v.to_string()]) } }
    }
}

pub struct CountWaker(pub AtomicUsize);
impl std::task::Wake for CountWaker { fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); } }
pub fn with_cx<T>(f: impl FnOnce(&mut Context<'_>) -> T) -> T {
    let w = unsafe { Waker::from_raw(raw()) };
    f(&mut Context::from_waker(&w))
}
fn raw() -> RawWaker {
    fn c(_: *const ()) -> RawWaker { raw() }
    fn x(_: *const ()) {}
    static V: RawWakerVTable = RawWakerVTable::new(c, x, x, x);
    RawWaker::new(std::ptr::null(), &V)
}

/// Walk an iterator, checking its size hint against what it goes on to yield.
pub fn hinted<I: Iterator>(mut it: I) -> (Vec<I::Item>, bool) {
    let mut hints = vec![it.size_hint()];
    let mut out = vec![];
    while let Some(x) = it.next() { out.push(x); hints.push(it.size_hint()); }
    let n = out.len();
    let good = hints.iter().enumerate().all(|(i, (lo, hi))| *lo <= n - i && hi.map(|h| n - i <= h).unwrap_or(true));
    (out, good)
}
/// The entries of a list, when every way of walking it shows the same ones in the same order.
/// The last way gives the list up; its entries come with them.
#[macro_export]
macro_rules! views { ($l:expr, $view:expr) => {{
    let mut l = $l;
    let show = $view;
    let (i, h1) = $crate::hinted(l.iter());
    let a: Vec<_> = i.into_iter().map(|x| show(x)).collect();
    let (i, h2) = $crate::hinted((&l).into_iter());
    let b: Vec<_> = i.into_iter().map(|x| show(x)).collect();
    let (i, h3) = $crate::hinted(l.iter_mut());
    let c: Vec<_> = i.into_iter().map(|x| show(&*x)).collect();
    let (i, h4) = $crate::hinted((&mut l).into_iter());
    let d: Vec<_> = i.into_iter().map(|x| show(&*x)).collect();
    let (i, h5) = $crate::hinted(l.into_iter());
    let e: Vec<_> = i.iter().map(|x| show(x)).collect();
    if h1 && h2 && h3 && h4 && h5 && a == b && a == c && a == d && a == e { Some((a, i)) } else { None }
}} }

/// The kinds of failure a scripted source or transport can have.
pub const KINDS: [std::io::ErrorKind; 13] = { use std::io::ErrorKind::*;
    [Other, UnexpectedEof, ConnectionReset, BrokenPipe, TimedOut, InvalidData, ConnectionAborted, NotConnected, PermissionDenied, Interrupted, WouldBlock, WriteZero, NotFound] };
pub fn kind(k: i64) -> std::io::ErrorKind { KINDS[k as usize % KINDS.len()] }

/// What surrounds the part of a message under test, picked by the input and by the round (see `dispatch`): method, status, version,
/// addresses and other headers. None of it may matter.
static SALT: AtomicUsize = AtomicUsize::new(0);
pub fn hash(v: &Value) -> usize { v.to_string().bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) as usize }
pub fn set_salt(k: usize) { SALT.store(k, Ordering::Relaxed); }
pub fn seed(v: &Value) -> usize { mix(hash(v) ^ SALT.load(Ordering::Relaxed), 0) >> 7 }
fn mix(a: usize, b: usize) -> usize {
    let mut z = (a as u64).wrapping_add((b as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15));
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    (z ^ (z >> 31)) as usize >> 1
}
const ANY: [&str; 12] = ["", "*", "0", "1", "no-cache", "none", "close", "identity", "x, y", "garbage", "\"q\"", "keep-alive"];
const D: &[&str] = &["Sun, 06 Nov 1994 08:49:37 GMT", "Thu, 01 Jan 1970 00:00:00 GMT", "0", "-1"];
const AROUND: [(&str, &[&str]); 84] = [
    ("transfer-encoding", &["chunked", "gzip", "identity"]), ("content-length", &["7", "0", "18446744073709551615"]), ("content-encoding", &["gzip", "br", "identity"]),
    ("cache-control", &["no-store", "max-age=1", "no-cache", "private", "max-age=0"]), ("date", D), ("expires", D), ("last-modified", D), ("if-modified-since", D),
    ("if-unmodified-since", D), ("if-range", D), ("retry-after", &["5", "0"]), ("age", &["x", "0", "100"]), ("etag", &["\"z\"", "W/\"\""]), ("connection", &["close", "upgrade", "keep-alive"]),
    ("content-type", &["text/html; charset=utf-8", "application/json", "multipart/form-data; boundary=x", "garbage"]), ("vary", &["*", "accept"]), ("if-none-match", &["*", "\"a\""]), ("if-match", &["\"a\"", "*"]),
    ("location", &["/elsewhere", "http://l.example/"]), ("content-location", &["/c", "http://c.example/"]), ("referer", &["/r", "http://r.example/r"]), ("source-map", &["/s.map"]),
    ("x-sourcemap", &["/x.map", "http://m.example/m"]), ("sourcemap", &["/y.map"]), ("origin", &["http://o.example", "null"]), ("authorization", &["Basic eDp5", "Bearer t"]),
    ("proxy-authorization", &["Basic eDp5", "Bearer t"]), ("www-authenticate", &["Basic realm=\"w\""]), ("proxy-authenticate", &["Basic realm=\"p\", charset=\"UTF-8\""]),
    ("accept", &["*/*;q=0", "text/html", "*"]), ("accept-encoding", &["identity;q=0", "gzip", "*;q=0"]), ("accept-charset", &["utf-8"]), ("accept-language", &["en"]), ("accept-ranges", &["none", "bytes"]),
    ("te", &["trailers", "chunked"]), ("trailer", &["expires", "x-t"]), ("allow", &["", "GET", "OPTIONS"]), ("access-control-allow-methods", &["GET, PUT"]), ("access-control-allow-origin", &["*", "null"]),
    ("access-control-allow-headers", &["*"]), ("access-control-allow-credentials", &["true"]), ("access-control-max-age", &["5"]), ("access-control-expose-headers", &["*"]),
    ("access-control-request-method", &["PUT"]), ("access-control-request-headers", &["x"]), ("expect", &["100-continue"]), ("upgrade", &["h2c", "websocket"]), ("http2-settings", &["AAMAAABk"]),
    ("traceparent", &["garbage", "00-00000000000000000000000000000001-0000000000000002-00"]), ("tracestate", &["a=b"]), ("server-timing", &["a;dur=1"]), ("timing-allow-origin", &["*"]),
    ("strict-transport-security", &["max-age=0", "max-age=5; preload"]), ("clear-site-data", &["\"*\""]), ("pragma", &["no-cache"]), ("warning", &["110 - \"stale\""]), ("via", &["1.0 p", "1.1 q"]),
    ("from", &["a@b.example"]), ("host", &["h.example", ""]), ("user-agent", &["curl/8", "Mozilla/5.0"]), ("server", &["s"]), ("max-forwards", &["0"]), ("cookie", &["a=b"]), ("set-cookie", &["a=b; Secure"]),
    ("forwarded", &["for=9.9.9.9;host=f.example;proto=https"]), ("x-forwarded-for", &["8.8.8.8"]), ("x-forwarded-host", &["xf.example"]), ("x-forwarded-by", &["7.7.7.7"]), ("x-forwarded-proto", &["https"]),
    ("x-real-ip", &["6.6.6.6"]), ("content-range", &["bytes 0-1/2", "bytes */0"]), ("range", &["bytes=0-0"]), ("content-md5", &["AA=="]), ("content-language", &["de"]), ("content-disposition", &["attachment"]),
    ("x-content-type-options", &["nosniff"]), ("x-powered-by", &["p"]), ("x-frame-options", &["DENY"]), ("content-security-policy", &["default-src 'none'"]), ("referrer-policy", &["no-referrer"]),
    ("x-http-method-override", &["DELETE"]), ("proxy-connection", &["close"]), ("sec-fetch-site", &["none"]), ("alt-svc", &["clear"])];
pub fn surround(h: &mut http_types::headers::Headers, k: usize, except: &[&str]) {
    if k % 4 == 0 { return; }
    for (j, (n, vs)) in AROUND.iter().enumerate() {
        if mix(k, j) % 5 > 0 || except.contains(n) || (except.contains(&"forwarded") && n.starts_with("x-forwarded")) { continue; }
        for x in 0..1 + (mix(k, j + 100) % 8 == 0) as usize {
            let m = mix(k, j + 200 + x);
            h.append(*n, if m % 4 == 0 { ANY[m / 4 % ANY.len()] } else { vs[m / 4 % vs.len()] }).unwrap();
        }
    }
}
fn version_of(k: usize) -> Option<http_types::Version> { use http_types::Version::*; [None, None, Some(Http0_9), Some(Http1_0), Some(Http1_1), Some(Http2_0), Some(Http3_0)][k % 7] }
const METHODS: [&str; 20] = ["GET", "POST", "PUT", "HEAD", "CONNECT", "OPTIONS", "TRACE", "DELETE", "PATCH", "ACL", "BIND", "COPY", "LOCK", "MKCOL", "PRI", "PROPFIND", "REPORT", "SEARCH", "UNLOCK", "VERSION-CONTROL"];
pub fn any_request(url: http_types::Url, k: usize) -> http_types::Request {
    let k = mix(k, 1000);
    let m: http_types::Method = if k % 2 == 0 { METHODS[k / 2 % 9] } else { METHODS[k / 2 % 20] }.parse().unwrap();
    let mut q = http_types::Request::new(m, url);
    q.set_version(version_of(mix(k, 1)));
    if k % 5 == 0 { q.set_peer_addr(Some("192.0.2.1:80")); q.set_local_addr(Some("192.0.2.2:81")); }
    q
}
pub fn any_response(k: usize) -> http_types::Response {
    let k = mix(k, 2000);
    let c = if k % 2 == 0 { [200u16, 204, 304, 404, 500, 101, 206, 405, 503, 100, 205, 401][k / 2 % 12] } else { [103u16, 201, 202, 203, 207, 226, 300, 301, 302, 303, 307, 308, 400, 402, 403, 406, 407, 408, 409, 410, 411, 412, 413, 414, 415, 416, 417, 418, 421, 422, 423, 424, 425, 426, 428, 429, 431, 451, 501, 502, 504, 505, 506, 507, 508, 510, 511][k / 2 % 47] };
    let mut r = http_types::Response::new(c);
    r.set_version(version_of(mix(k, 1)));
    if k % 5 == 0 { r.set_peer_addr(Some("192.0.2.1:80")); r.set_local_addr(Some("192.0.2.2:81")); }
    r
}
/// The headers other than `name`, to compare before and after.
pub fn others(h: &http_types::headers::Headers, name: &str) -> Vec<String> {
    let mut v: Vec<String> = h.iter().filter(|(n, _)| n.as_str() != name).map(|(n, v)| format!("{n}: {v}")).collect();
    v.sort();
    v
}
