//! Typed headers: reading them from a message and writing them to one.
use crate::*;
use http_types::headers::{Header, HeaderName};
use http_types::{Response, Url};
use serde_json::{json, Value};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

/// A response whose header `name` has these values, among other headers.
pub fn with_values(name: HeaderName, vals: &Value) -> Response {
    let k = seed(vals);
    let mut r = any_response(k);
    surround(r.as_mut(), k, &[name.as_str()]);
    r.insert_header("x-before", "1");
    for v in vals.as_array().unwrap() { r.append_header(&name, text(v).as_str()); }
    r.append_header("x-after", "a");
    r.append_header("x-after", "b");
    r
}
/// Write a typed header to messages already carrying it; the one value it leaves, or nothing if anything else changed.
pub fn written<H: Header>(h: &H, want: HeaderName) -> Option<String> {
    if h.header_name() != want { return None; }
    let v = h.header_value().as_str().to_string();
    let k = seed(&json!(v));
    let mut r = with_values(want.clone(), &json!([cps("old"), cps("older")]));
    surround(r.as_mut(), k, &[want.as_str()]);
    let before = others(r.as_ref(), want.as_str());
    h.apply_header(&mut r);
    let mut q = any_request(Url::parse("http://example.org/").unwrap(), k);
    q.insert_header(h, h);
    let mut t = Response::new(200);
    t.append_header(h.header_name(), "old");
    t.insert_header(h.header_name(), h.header_value());
    let single = |hs: Option<&http_types::headers::HeaderValues>| hs.map(|x| x.iter().count() == 1 && x.last().as_str() == v).unwrap_or(false);
    // whatever was there before
    let (cut, up, low) = (v.trim().to_string(), v.to_ascii_uppercase(), v.to_ascii_lowercase());
    for old in [&["o"][..], &[&v], &[&cut], &[&up], &[&low], &[&v, &v], &[&v, "z"], &["z", &v], &[""], &[&format!("{v} ")], &[&format!(" {v}")], &[&format!("{v}, {v}")]].iter() {
        let mut m = any_response(k + 1);
        if !old.iter().all(|o| o.is_ascii()) { continue; }
        for o in old.iter() { m.append_header(&want, *o).unwrap(); }
        h.apply_header(&mut m);
        if !single(m.header(&want)) { return None; }
    }
    if single(r.header(&want)) && single(q.header(&want)) && single(t.header(&want)) && before == others(r.as_ref(), want.as_str()) && v.is_ascii() { Some(v) } else { None }
}
pub fn bad() -> Value { json!({"k":"badheader"}) }

fn instant(i: &Value) -> SystemTime { UNIX_EPOCH + Duration::new(n(i, "d") as u64 * 86400 + n(i, "s") as u64, i.get("ns").and_then(|x| x.as_u64()).unwrap_or(0) as u32) }
pub fn of_instant(t: SystemTime) -> Value { let s = t.duration_since(UNIX_EPOCH).unwrap().as_secs(); json!([s / 86400, s % 86400]) }

use http_types::cache::Expires;
use http_types::conditional::{IfModifiedSince, IfUnmodifiedSince, LastModified};
use http_types::headers as hn;
use http_types::other::Date;
pub fn dateread(i: &Value) -> Value {
    macro_rules! rd { ($n:expr, $t:ty, $f:expr) => {{ let r = with_values($n, &i["vals"]); match <$t>::from_headers(&r) { Err(e) => fail(e), Ok(None) => none(), Ok(Some(x)) => ok(of_instant($f(x))) } }} }
    match s(i, "h") {
        "date" => rd!(hn::DATE, Date, SystemTime::from),
        "expires" => rd!(hn::EXPIRES, Expires, |x: Expires| x.expiration()),
        "last-modified" => rd!(hn::LAST_MODIFIED, LastModified, |x: LastModified| x.modified()),
        "if-modified-since" => rd!(hn::IF_MODIFIED_SINCE, IfModifiedSince, |x: IfModifiedSince| x.modified()),
        "if-unmodified-since" => rd!(hn::IF_UNMODIFIED_SINCE, IfUnmodifiedSince, |x: IfUnmodifiedSince| x.modified()),
        h => panic!("header {h}"),
    }
}
pub fn fromnow(i: &Value) -> Value {
    let d = Duration::from_secs(n(i, "d") as u64);
    let before = SystemTime::now();
    let (t, w) = match s(i, "h") {
        "date" => { let x = Date::now(); let w = written(&x, hn::DATE); (SystemTime::from(x), w) }
        _ => { let x = Expires::new(d); let w = written(&x, hn::EXPIRES); (x.expiration(), w) }
    };
    let after = SystemTime::now();
    let w = w.map(|w| dateread(&json!({"h": i["h"], "vals": [cps(&w)]}))["v"].clone());
    ok(json!({"early": t < before + d, "late": t > after + d, "written": w == Some(of_instant(t))}))
}
pub fn datewrite(i: &Value) -> Value {
    let t = instant(i);
    macro_rules! wr { ($n:expr, $h:expr) => { written(&$h, $n) } }
    let w = match s(i, "h") {
        "date" => { if Date::new(t) != t || Date::from(t) != t { return bad(); } wr!(hn::DATE, Date::new(t)) }
        "expires" => wr!(hn::EXPIRES, Expires::new_at(t)),
        "last-modified" => wr!(hn::LAST_MODIFIED, LastModified::new(t)),
        "if-modified-since" => wr!(hn::IF_MODIFIED_SINCE, IfModifiedSince::new(t)),
        "if-unmodified-since" => wr!(hn::IF_UNMODIFIED_SINCE, IfUnmodifiedSince::new(t)),
        h => panic!("header {h}"),
    };
    match w {
        None => bad(),
        Some(v) => ok(json!({"t": cps(&v), "back": dateread(&json!({"h": i["h"], "vals": [cps(&v)]}))["v"]})),
    }
}

fn nanos(i: &Value) -> u32 { i.get("ns").and_then(|x| x.as_u64()).unwrap_or(0) as u32 }
use http_types::cache::Age;
use http_types::content::ContentLength;
use http_types::other::RetryAfter;
pub fn numread(i: &Value) -> Value {
    match s(i, "h") {
        "age" => match Age::from_headers(with_values(hn::AGE, &i["vals"])) { Err(e) => fail(e), Ok(None) => none(), Ok(Some(a)) => {
            if a.duration().subsec_nanos() != 0 { return bad(); }
            ok(cps(&a.duration().as_secs().to_string())) } },
        _ => match ContentLength::from_headers(with_values(hn::CONTENT_LENGTH, &i["vals"])) { Err(e) => fail(e), Ok(None) => none(), Ok(Some(a)) => ok(cps(&a.len().to_string())) },
    }
}
/// The instant a Retry-After names, checked against the clock before and after.
fn retry_ok(r: &RetryAfter) -> Option<String> {
    let w = written(r, hn::RETRY_AFTER)?;
    let n0 = SystemTime::now();
    let at: SystemTime = r.clone().into();
    for back in [0u64, 5, 1_000_000] {
        let since = UNIX_EPOCH + Duration::from_secs(back);
        let d = match r.duration_since(since) { Ok(d) => d, Err(e) => { if at >= since { return None; } let _ = e; continue; } };
        let n1 = SystemTime::now();
        match w.parse::<u64>() {
            Ok(n) if n < 1 << 60 => {
                let dur = Duration::from_secs(n);
                if !(at >= n0 + dur && at <= n1 + dur && since + d >= n0 + dur && since + d <= n1 + dur) { return None; }
            }
            Ok(_) => {}
            Err(_) => { if since + d != at { return None; } }
        }
    }
    Some(w)
}
pub fn retryread(i: &Value) -> Value {
    match RetryAfter::from_headers(with_values(hn::RETRY_AFTER, &i["vals"])) { Err(e) => fail(e), Ok(None) => none(), Ok(Some(r)) => match retry_ok(&r) { None => bad(), Some(w) => {
        if !w.bytes().all(|b| b.is_ascii_digit()) {
            // the instant itself, not only its text
            let at: SystemTime = r.into();
            let d = Date::from_headers(with_values(hn::DATE, &json!([cps(&w)]))).unwrap().unwrap();
            if d != at { return bad(); }
        }
        ok(cps(&w)) } } }
}
fn back(v: Option<String>, f: impl Fn(&Value) -> Value) -> Value { match v { None => bad(), Some(v) => ok(json!({"t": cps(&v), "back": f(&json!([cps(&v)]))})) } }
pub fn numwrite(i: &Value) -> Value {
    let x: u64 = text(&i["t"]).parse().unwrap();
    match s(i, "h") {
        "age" => {
            let a = Age::from_secs(x);
            if a.duration() != Duration::from_secs(x) || a != Age::new(Duration::from_secs(x)) { return bad(); }
            // a fraction of a second is kept in the value and left out of the header
            let f = Age::new(Duration::new(x, nanos(i)));
            if f.duration() != Duration::new(x, nanos(i)) || written(&f, hn::AGE) != written(&a, hn::AGE) { return bad(); }
            back(written(&a, hn::AGE), |v| numread(&json!({"h": "age", "vals": v})))
        }
        _ => {
            let mut a = ContentLength::new(7);
            a.set_len(x);
            if a.len() != x || written(&a, hn::CONTENT_LENGTH) != written(&ContentLength::new(x), hn::CONTENT_LENGTH) { return bad(); }
            back(written(&a, hn::CONTENT_LENGTH), |v| numread(&json!({"h": "content-length", "vals": v})))
        }
    }
}
pub fn retrydelay(i: &Value) -> Value {
    let x: u64 = text(&i["t"]).parse().unwrap();
    let r = RetryAfter::new(Duration::from_secs(x));
    if retry_ok(&r).is_none() { return bad(); }
    let f = RetryAfter::new(Duration::new(x, nanos(i)));
    let n0 = SystemTime::now();
    let (at, since) = (SystemTime::from(f.clone()), f.duration_since(UNIX_EPOCH));
    if x < 1 << 60 && (at < n0 + Duration::new(x, 0) || at > SystemTime::now() + Duration::new(x + 1, 0) || since.map_or(true, |s| UNIX_EPOCH + s < at || UNIX_EPOCH + s > SystemTime::now() + Duration::new(x + 1, 0))) { return bad(); }
    if written(&f, hn::RETRY_AFTER) != written(&r, hn::RETRY_AFTER) { return bad(); }
    back(written(&r, hn::RETRY_AFTER), |v| retryread(&json!({"vals": v})))
}
pub fn retryat(i: &Value) -> Value {
    let t = instant(i);
    let r = RetryAfter::new_at(t);
    if retry_ok(&r).is_none() || SystemTime::from(r.clone()) != t || r.duration_since(UNIX_EPOCH).ok() != t.duration_since(UNIX_EPOCH).ok() { return bad(); }
    if t > UNIX_EPOCH && r.duration_since(t + Duration::from_secs(1)).is_ok() { return bad(); }
    back(written(&r, hn::RETRY_AFTER), |v| retryread(&json!({"vals": v})))
}
