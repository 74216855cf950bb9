//! Typed headers in a message (spec/Slots.tla).
use crate::*;
use http_types::auth::*;
use http_types::cache::*;
use http_types::conditional::*;
use http_types::content::*;
use http_types::headers::{self as hn, Header, HeaderName, Headers};
use http_types::other::*;
use http_types::proxies::Forwarded;
use http_types::security::*;
use http_types::server::Allow;
use http_types::trace::{Metric, ServerTiming, TraceContext};
use http_types::trailers::Trailers;
use http_types::transfer::{Encoding as TEnc, TransferEncoding, TE};
use http_types::{Method, Request, Response, Url};
use serde_json::{json, Value};
use std::time::{Duration, UNIX_EPOCH};

fn named(id: &str) -> HeaderName { match id { "ACCEPT" => hn::ACCEPT, "ACCEPT_CHARSET" => hn::ACCEPT_CHARSET, "ACCEPT_ENCODING" => hn::ACCEPT_ENCODING, "ACCEPT_LANGUAGE" => hn::ACCEPT_LANGUAGE, "ACCEPT_RANGES" => hn::ACCEPT_RANGES, "ACCESS_CONTROL_ALLOW_CREDENTIALS" => hn::ACCESS_CONTROL_ALLOW_CREDENTIALS, "ACCESS_CONTROL_ALLOW_HEADERS" => hn::ACCESS_CONTROL_ALLOW_HEADERS, "ACCESS_CONTROL_ALLOW_METHODS" => hn::ACCESS_CONTROL_ALLOW_METHODS, "ACCESS_CONTROL_ALLOW_ORIGIN" => hn::ACCESS_CONTROL_ALLOW_ORIGIN, "ACCESS_CONTROL_EXPOSE_HEADERS" => hn::ACCESS_CONTROL_EXPOSE_HEADERS, "ACCESS_CONTROL_MAX_AGE" => hn::ACCESS_CONTROL_MAX_AGE, "ACCESS_CONTROL_REQUEST_HEADERS" => hn::ACCESS_CONTROL_REQUEST_HEADERS, "ACCESS_CONTROL_REQUEST_METHOD" => hn::ACCESS_CONTROL_REQUEST_METHOD, "AGE" => hn::AGE, "ALLOW" => hn::ALLOW, "AUTHORIZATION" => hn::AUTHORIZATION, "CACHE_CONTROL" => hn::CACHE_CONTROL, "CLEAR_SITE_DATA" => hn::CLEAR_SITE_DATA, "CONNECTION" => hn::CONNECTION, "CONTENT_ENCODING" => hn::CONTENT_ENCODING, "CONTENT_LANGUAGE" => hn::CONTENT_LANGUAGE, "CONTENT_LENGTH" => hn::CONTENT_LENGTH, "CONTENT_LOCATION" => hn::CONTENT_LOCATION, "CONTENT_MD5" => hn::CONTENT_MD5, "CONTENT_RANGE" => hn::CONTENT_RANGE, "CONTENT_TYPE" => hn::CONTENT_TYPE, "COOKIE" => hn::COOKIE, "DATE" => hn::DATE, "ETAG" => hn::ETAG, "EXPECT" => hn::EXPECT, "EXPIRES" => hn::EXPIRES, "FORWARDED" => hn::FORWARDED, "FROM" => hn::FROM, "HOST" => hn::HOST, "IF_MATCH" => hn::IF_MATCH, "IF_MODIFIED_SINCE" => hn::IF_MODIFIED_SINCE, "IF_NONE_MATCH" => hn::IF_NONE_MATCH, "IF_RANGE" => hn::IF_RANGE, "IF_UNMODIFIED_SINCE" => hn::IF_UNMODIFIED_SINCE, "LAST_MODIFIED" => hn::LAST_MODIFIED, "LOCATION" => hn::LOCATION, "MAX_FORWARDS" => hn::MAX_FORWARDS, "ORIGIN" => hn::ORIGIN, "PRAGMA" => hn::PRAGMA, "PROXY_AUTHENTICATE" => hn::PROXY_AUTHENTICATE, "PROXY_AUTHORIZATION" => hn::PROXY_AUTHORIZATION, "PROXY_CONNECTION" => hn::PROXY_CONNECTION, "REFERER" => hn::REFERER, "RETRY_AFTER" => hn::RETRY_AFTER, "SERVER" => hn::SERVER, "SERVER_TIMING" => hn::SERVER_TIMING, "SET_COOKIE" => hn::SET_COOKIE, "SOURCE_MAP" => hn::SOURCE_MAP, "STRICT_TRANSPORT_SECURITY" => hn::STRICT_TRANSPORT_SECURITY, "TE" => hn::TE, "TIMING_ALLOW_ORIGIN" => hn::TIMING_ALLOW_ORIGIN, "TRACEPARENT" => hn::TRACEPARENT, "TRAILER" => hn::TRAILER, "TRANSFER_ENCODING" => hn::TRANSFER_ENCODING, "UPGRADE" => hn::UPGRADE, "USER_AGENT" => hn::USER_AGENT, "VARY" => hn::VARY, "VIA" => hn::VIA, "WARNING" => hn::WARNING, "WWW_AUTHENTICATE" => hn::WWW_AUTHENTICATE, x => panic!("constant {x}") } }
enum Msg { Q(Request), S(Response), T(Trailers) }
/// A message, and what the headers written to it said their values were.
pub struct SlotM(Msg, Vec<(HeaderName, String, String)>);
impl SlotM {
    pub fn new(i: &Value) -> Self {
        let mut m = SlotM(match s(i, "msg") { "req" => Msg::Q(any_request(http_types::Url::parse("http://a.example/").unwrap(), seed(i))), "res" => Msg::S(any_response(seed(i))), _ => Msg::T(Trailers::new()) }, vec![]);
        if let Some([h, vs]) = i["pre"].as_array().map(|a| a.as_slice()) {
            for v in vs.as_array().unwrap() { m.add(h.as_str().unwrap(), &text(v)); }
            m.add("x-other", "o1");
            m.add("x-other", "o2");
        }
        m
    }
    fn add(&mut self, h: &str, v: &str) {
        // names as a sender might spell them
        let h: String = h.split('-').map(|p| p[..1].to_uppercase() + &p[1..]).collect::<Vec<_>>().join("-");
        match &mut self.0 { Msg::Q(x) => { x.append_header(h.as_str(), v).unwrap(); } Msg::S(x) => { x.append_header(h.as_str(), v).unwrap(); }, Msg::T(x) => { x.append(h.as_str(), v).unwrap(); } }
    }
    fn set(&mut self, h: HeaderName, v: impl hn::ToHeaderValues) {
        match &mut self.0 { Msg::Q(x) => { x.insert_header(h, v); } Msg::S(x) => { x.insert_header(h, v); } Msg::T(x) => { x.insert(h, v).unwrap(); } }
    }
    fn write<T: Header>(&mut self, o: &Value, h: T) -> Value {
        let (name, value) = (h.header_name(), h.header_value().as_str().to_string());
        self.1.push((name.clone(), value, s(o, "k").to_string()));
        if s(o, "n") == "append" {
            match &mut self.0 { Msg::Q(x) => { x.append_header(&h, &h).unwrap(); } Msg::S(x) => { x.append_header(&h, &h).unwrap(); }, Msg::T(x) => { x.append(&h, &h).unwrap(); } }
            return unit();
        }
        match s(o, "how") {
            "apply" => match &mut self.0 { Msg::Q(x) => h.apply_header(x), Msg::S(x) => h.apply_header(x), Msg::T(x) => { let x: &mut Headers = &mut *x; h.apply_header(x) } },
            "applyref" => { let h = &&h; match &mut self.0 { Msg::Q(x) => h.apply_header(x), Msg::S(x) => h.apply_header(x), Msg::T(x) => { let x: &mut Headers = &mut *x; h.apply_header(x) } } }
            "insert" => self.set(h.header_name(), h.header_value()),
            _ => match &mut self.0 { Msg::Q(x) => { x.insert_header(&h, &h); } Msg::S(x) => { x.insert_header(&h, &h); } Msg::T(x) => { x.insert(&h, &h).unwrap(); } },
        }
        ok(json!({"h": cps(h.header_name().as_str()), "v": self.show(&name, h.header_value().as_str())}))
    }
    fn show(&self, name: &HeaderName, v: &str) -> Value {
        cps(self.1.iter().rev().find(|(n, t, _)| n == name && t == v).map_or(v, |x| &x.2))
    }
    fn kind(&mut self, o: &Value) -> Value {
        let url = || Url::parse("http://a.example/x").unwrap();
        let tag = || ETag::new("x".into());
        match s(o, "k") {
            "server-timing" => { let mut t = ServerTiming::new(); t.push(Metric::new("db".into(), None, None).unwrap()); self.write(o, t) }
            "trace" => { let mut r = Response::new(200); r.insert_header("traceparent", "00-0af7651916cd43dd8448eb211c80319c-00f067aa0ba902b7-01"); self.write(o, TraceContext::from_headers(&r).unwrap().unwrap()) }
            "allow" => { let mut a = Allow::new(); a.insert(Method::Get); self.write(o, a) }
            "www-authenticate" => self.write(o, WwwAuthenticate::new(AuthenticationScheme::Basic, "Foo".into())),
            "basic-auth" => self.write(o, BasicAuth::new("u", "p")),
            "authorization" => self.write(o, Authorization::new(AuthenticationScheme::Basic, "abc".into())),
            "age" => self.write(o, Age::from_secs(12)),
            "cache-control" => { let mut x = CacheControl::new(); x.push(CacheDirective::NoStore); self.write(o, x) }
            "expires" => self.write(o, Expires::new_at(UNIX_EPOCH)),
            "clear-site-data" => { let mut x = ClearSiteData::new(); x.push(ClearDirective::Cache); self.write(o, x) }
            "forwarded" => { let mut x = Forwarded::new(); x.add_for("a"); self.write(o, x) }
            "content-location" => self.write(o, ContentLocation::new(url())),
            "content-encoding" => self.write(o, ContentEncoding::new(Encoding::Gzip)),
            "content-length" => self.write(o, ContentLength::new(12)),
            "content-type" => self.write(o, ContentType::new("image/png")),
            "accept-encoding" => { let mut x = AcceptEncoding::new(); x.push(EncodingProposal::new(Encoding::Gzip, None).unwrap()); self.write(o, x) }
            "accept" => { let mut x = Accept::new(); x.push(MediaTypeProposal::new("text/css", None).unwrap()); self.write(o, x) }
            "retry-after" => self.write(o, RetryAfter::new(Duration::from_secs(10))),
            "date" => self.write(o, Date::new(UNIX_EPOCH)),
            "expect" => self.write(o, Expect::new()),
            "sourcemap" => self.write(o, SourceMap::new(url())),
            "referer" => self.write(o, Referer::new(url())),
            "if-unmodified-since" => self.write(o, IfUnmodifiedSince::new(UNIX_EPOCH)),
            "if-modified-since" => self.write(o, IfModifiedSince::new(UNIX_EPOCH)),
            "last-modified" => self.write(o, LastModified::new(UNIX_EPOCH)),
            "if-match" => { let mut x = IfMatch::new(); x.push(tag()); self.write(o, x) }
            "if-none-match" => { let mut x = IfNoneMatch::new(); x.push(tag()); self.write(o, x) }
            "etag" => self.write(o, tag()),
            "vary" => { let mut x = Vary::new(); x.push("x-a").unwrap(); self.write(o, x) }
            "transfer-encoding" => self.write(o, TransferEncoding::new(TEnc::Gzip)),
            "te" => { let mut x = TE::new(); x.push(http_types::transfer::EncodingProposal::new(TEnc::Gzip, None).unwrap()); self.write(o, x) }
            "hsts" => self.write(o, StrictTransportSecurity::new(Duration::from_secs(9))),
            "tao" => { let mut x = TimingAllowOrigin::new(); x.set_wildcard(true); self.write(o, x) }
            "pair" => self.write(o, ("X-Pair", "v")),
            "pairsp" => self.write(o, ("x-pair", " v ")),
            "pairempty" => self.write(o, ("x-pair", "")),
            "pairup" => self.write(o, ("X-PAIR", "V")),
            "lenzero" => self.write(o, ContentLength::new(0)),
            "allownone" => self.write(o, Allow::new()),
            "pairlen" => self.write(o, ("Content-Length", "13")),
            k => panic!("kind {k}"),
        }
    }
}
impl Machine for SlotM {
    fn step(&mut self, o: &Value) -> Value {
        match s(o, "n") {
            "write" | "append" => self.kind(o),
            "set" => { let v = text(&o["v"]); self.set(s(o, "h").into(), v.as_str()); unit() }
            "add" => { self.add(s(o, "h"), &text(&o["v"])); unit() }
            "del" => { let h = s(o, "h").to_uppercase(); match &mut self.0 { Msg::Q(x) => { x.remove_header(h.as_str()); } Msg::S(x) => { x.remove_header(h.as_str()); } Msg::T(x) => { x.remove(h.as_str()); } } unit() }
            "const" => {
                // a value under the constant is found under its text in any letter case, and the other way round
                let c = named(s(o, "id"));
                let t = c.as_str().to_string();
                let (mut r, mut q) = (Response::new(200), Response::new(200));
                r.insert_header(&c, "1");
                q.insert_header(t.to_uppercase().as_str(), "1");
                let found = r.header(t.to_uppercase().as_str()).is_some() && r.header(t.as_str()).is_some() && q.header(&c).is_some() && t.parse::<HeaderName>().map_or(false, |x| x == c) && c == *t;
                ok(json!({"t": cps(&t), "found": found}))
            }
            x => panic!("op {x}"),
        }
    }
    fn proj(&mut self) -> Value {
        let h: &Headers = match &self.0 { Msg::Q(x) => x.as_ref(), Msg::S(x) => x.as_ref(), Msg::T(x) => x };
        let mut l: Vec<(String, Value)> = h.iter().map(|(k, v)| (k.as_str().to_string(), json!(v.iter().map(|x| self.show(k, x.as_str())).collect::<Vec<_>>()))).collect();
        l.sort_by(|a, b| a.0.cmp(&b.0));
        json!(l.into_iter().map(|(h, vs)| json!({"h": h, "vs": vs})).collect::<Vec<_>>())
    }
}
