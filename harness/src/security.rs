//! Security headers (spec/Transport.tla, spec/Policy.tla).
use crate::*;
use crate::typed::{bad, with_values, written};
use http_types::headers as hn;
use http_types::security::{StrictTransportSecurity as Hsts, TimingAllowOrigin as Tao};
use http_types::Url;
use serde_json::{json, Value};
use std::time::Duration;

fn hsts(h: &Hsts) -> Value { json!({"age": cps(&h.max_age().as_secs().to_string()), "sub": h.include_subdomains(), "pre": h.preload()}) }
pub fn hstsread(i: &Value) -> Value {
    match Hsts::from_headers(with_values(hn::STRICT_TRANSPORT_SECURITY, &i["vals"])) {
        Err(e) => fail(e), Ok(None) => none(),
        Ok(Some(h)) => { let v = hsts(&h); let a = h.max_age(); if Duration::from(h) != a { return bad(); } ok(v) }
    }
}
fn age(i: &Value) -> Duration { Duration::new(text(&i["age"]).parse().unwrap(), i.get("ns").and_then(|x| x.as_u64()).unwrap_or(0) as u32) }
pub fn hstswrite(i: &Value) -> Value {
    let mut a = Hsts::new(age(i));
    a.set_include_subdomains(i["sub"].as_bool().unwrap());
    a.set_preload(i["pre"].as_bool().unwrap());
    let mut b = Hsts::default();
    b.set_max_age(age(i));
    b.set_preload(i["pre"].as_bool().unwrap());
    b.set_include_subdomains(i["sub"].as_bool().unwrap());
    if a.max_age() != age(i) || b.max_age() != age(i) { return bad(); }
    match (written(&a, hn::STRICT_TRANSPORT_SECURITY), written(&b, hn::STRICT_TRANSPORT_SECURITY)) {
        (Some(v), Some(w)) if v == w => {
            let mut ds: Vec<String> = v.split(';').map(|d| d.trim().to_ascii_lowercase()).collect();
            ds.sort();
            ok(json!({"back": hstsread(&json!({"vals": [cps(&v)]})), "ds": ds.iter().map(|d| cps(d)).collect::<Vec<_>>()}))
        }
        _ => bad(),
    }
}
pub fn hstsnew(i: &Value) -> Value {
    let back = |h: Hsts| written(&h, hn::STRICT_TRANSPORT_SECURITY).map_or(bad(), |v| hstsread(&json!({"vals": [cps(&v)]})));
    if back(Hsts::new(age(i))) != back(Hsts::from(age(i))) { return bad(); }
    ok(json!({"new": back(Hsts::new(age(i))), "default": back(Hsts::default())}))
}
pub fn taoread(i: &Value) -> Value {
    match Tao::from_headers(with_values(hn::TIMING_ALLOW_ORIGIN, &i["vals"])) {
        Err(e) => fail(e), Ok(None) => none(),
        Ok(Some(t)) => {
            let any = t.wildcard();
            match views!(t, |u: &Url| cps(u.as_str())) { Some((a, _)) => ok(json!({"origins": a, "any": any})), None => bad() }
        }
    }
}
pub fn taowrite(i: &Value) -> Value {
    let mut t = Tao::new();
    if t.wildcard() { return bad(); }
    t.set_wildcard(i["any"].as_bool().unwrap());
    for u in i["us"].as_array().unwrap() { match Url::parse(&text(u)) { Ok(u) => t.push(u), Err(_) => return none() } }
    match written(&t, hn::TIMING_ALLOW_ORIGIN) { None => bad(), Some(v) => ok(json!({"v": cps(&v), "back": taoread(&json!({"vals": [cps(&v)]}))})) }
}

// --- policies and helpers (spec/Policy.tla)
use http_types::security::{self, ContentSecurityPolicy as Csp, FrameOptions, ReferrerOptions as R, ReportTo, Source};
use http_types::headers::{HeaderValue, Headers};
use http_types::{Request, Response};
enum Msg { Q(Request), S(Response), H(http_types::trailers::Trailers) }
pub struct PolicyM { p: Csp, m: Vec<Msg> }
impl PolicyM {
    pub fn new(i: &Value) -> Self {
        let mk = || match s(i, "kind") { "req" => Msg::Q(any_request(http_types::Url::parse("http://a.example/").unwrap(), seed(i))), "res" => Msg::S(any_response(seed(i))), _ => Msg::H(http_types::trailers::Trailers::new()) };
        PolicyM { p: if s(i, "pol") == "default" { Csp::default() } else { Csp::new() }, m: vec![mk(), mk()] }
    }
}
fn directive<T: AsRef<str>>(p: &mut Csp, d: &str, v: T) {
    match d {
        "base-uri" => p.base_uri(v), "connect-src" => p.connect_src(v), "default-src" => p.default_src(v), "font-src" => p.font_src(v), "form-action" => p.form_action(v),
        "frame-ancestors" => p.frame_ancestors(v), "frame-src" => p.frame_src(v), "img-src" => p.img_src(v), "media-src" => p.media_src(v), "object-src" => p.object_src(v),
        "plugin-types" => p.plugin_types(v), "require-sri-for" => p.require_sri_for(v), "report-uri" => p.report_uri(v), "sandbox" => p.sandbox(v), "script-src" => p.script_src(v),
        "style-src" => p.style_src(v), "worker-src" => p.worker_src(v), x => panic!("directive {x}"),
    };
}
macro_rules! on { ($msg:expr, $x:ident => $body:expr) => { match $msg { Msg::Q($x) => { $body; } Msg::S($x) => { $body; } Msg::H(t) => { let $x: &mut Headers = &mut *t; $body; } } } }
impl Machine for PolicyM {
    fn step(&mut self, o: &Value) -> Value {
        let g = || o["g"].as_str().unwrap_or("");
        let v = || text(&o["v"]);
        let p = &mut self.p;
        if o.get("m").is_none() {
            match s(o, "n") {
                "src" => directive(p, s(o, "d"), v()),
                "enum" => {
                    let e = match s(o, "e") { "SameOrigin" => Source::SameOrigin, "Src" => Source::Src, "None" => Source::None, "UnsafeInline" => Source::UnsafeInline, "Data" => Source::Data, "Mediastream" => Source::Mediastream,
                        "Https" => Source::Https, "Blob" => Source::Blob, "Filesystem" => Source::Filesystem, "StrictDynamic" => Source::StrictDynamic, "UnsafeEval" => Source::UnsafeEval, "Wildcard" => Source::Wildcard, x => panic!("source {x}") };
                    if e.to_string() != e.as_ref() { return bad(); }
                    directive(p, s(o, "d"), e)
                }
                "flag" => { if s(o, "f") == "block-all-mixed-content" { p.block_all_mixed_content(); } else { p.upgrade_insecure_requests(); } }
                "reportto" => { let r: ReportTo = serde_json::from_str(&v()).unwrap(); p.report_to(vec![r]); }
                "reportonly" => { p.report_only(); }
                "clone" => { let c = p.clone(); if c != *p { return bad(); } *p = c; }
                x => panic!("op {x}"),
            }
            return unit();
        }
        let m = &mut self.m[n(o, "m") as usize - 1];
        on!(m, x => match s(o, "n") {
            "apply" => { p.apply(&mut *x); }
            "set" => { let h: &mut Headers = x.as_mut(); h.insert(s(o, "h"), v()).unwrap(); }
            "add" => { let h: &mut Headers = x.as_mut(); h.append(s(o, "h"), v()).unwrap(); }
            "default" => security::default(&mut *x),
            "dns" => security::dns_prefetch_control(&mut *x),
            "nosniff" => security::nosniff(&mut *x),
            "frame" => security::frameguard(&mut *x, match g() { "Deny" => Some(FrameOptions::Deny), "SameOrigin" => Some(FrameOptions::SameOrigin), _ => None }),
            "powered" => security::powered_by(&mut *x, Some(v().parse::<HeaderValue>().unwrap())),
            "unpowered" => security::powered_by(&mut *x, None),
            "hsts" => security::hsts(&mut *x),
            "xss" => security::xss_filter(&mut *x),
            "referrer" => security::referrer_policy(&mut *x, match g() { "NoReferrer" => Some(R::NoReferrer), "NoReferrerDowngrade" => Some(R::NoReferrerDowngrade), "SameOrigin" => Some(R::SameOrigin), "Origin" => Some(R::Origin),
                "StrictOrigin" => Some(R::StrictOrigin), "CrossOrigin" => Some(R::CrossOrigin), "StrictCrossOrigin" => Some(R::StrictCrossOrigin), "UnsafeUrl" => Some(R::UnsafeUrl), _ => None }),
            y => panic!("op {y}"),
        });
        unit()
    }
    fn proj(&mut self) -> Value {
        let show = |h: &Headers| { let mut l: Vec<(String, Value)> = h.iter().map(|(k, v)| (k.as_str().to_string(), json!(v.iter().map(|x| cps(x.as_str())).collect::<Vec<_>>()))).collect(); l.sort_by(|a, b| a.0.cmp(&b.0)); l.into_iter().map(|(h, vs)| json!({"h": h, "vs": vs})).collect::<Vec<_>>() };
        json!(self.m.iter().map(|m| match m { Msg::Q(x) => show(x.as_ref()), Msg::S(x) => show(x.as_ref()), Msg::H(x) => show(x) }).collect::<Vec<_>>())
    }
}
