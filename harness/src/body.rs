//! Bodies over scripted sources (spec/Body.tla).
use crate::*;
use futures_lite::io::{AsyncBufRead, AsyncRead};
use http_types::{mime, mime::Mime, Body, Request, Response, Url};
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

#[derive(Clone, Copy)]
pub enum Ev { Data(usize), Pending, Error(i64) }

/// Byte number j of the many a blown-up byte stands for.
fn filler(b: u8, j: usize) -> u8 { if j == 0 { b } else { ((b as usize * 7 + j * 5 + j / 101) & 0x7f) as u8 } }
/// The inverse of blowing up, when it is one.
pub fn units(b: &[u8], unit: usize) -> Value {
    if unit <= 1 { return bvals(b); }
    if b.len() % unit != 0 || b.chunks(unit).any(|c| (1..unit).any(|j| c[j] != filler(c[0], j))) { return json!([format!("{} bytes, not whole units", b.len())]); }
    bvals(&b.iter().step_by(unit).copied().collect::<Vec<_>>())
}
/// A source that follows a script of events.
pub struct Script { ev: VecDeque<Ev>, content: Vec<u8>, off: usize, polls: Arc<AtomicUsize> }
impl Script {
    pub fn new(ev: &Value, id: i64, polls: Arc<AtomicUsize>) -> Self {
        let ev: VecDeque<Ev> = ev.as_array().unwrap().iter().map(|e| match s(e, "t") {
            "d" => Ev::Data(n(e, "n") as usize), "p" => Ev::Pending, "e" => Ev::Error(n(e, "n")), _ => unreachable!() }).collect();
        let total: usize = ev.iter().map(|e| if let Ev::Data(n) = e { *n } else { 0 }).sum();
        let content = (0..total).map(|o| ((id * 40 + o as i64) % 251) as u8).collect();
        Script { ev, content, off: 0, polls }
    }
    /// The same script with each of its bytes blown up to `unit` bytes.
    pub fn blown(mut self, unit: usize) -> Self {
        if unit > 1 {
            self.ev = self.ev.into_iter().map(|e| if let Ev::Data(n) = e { Ev::Data(n * unit) } else { e }).collect();
            self.content = self.content.iter().flat_map(|b| (0..unit).map(move |j| filler(*b, j))).collect();
        }
        self
    }
    pub fn with_content(ev: &Value, content: Vec<u8>, polls: Arc<AtomicUsize>) -> Self {
        let mut x = Self::new(ev, 1, polls);
        x.content = content;
        x
    }
    fn advance(&mut self, k: usize) {
        if k == 0 { return; }
        match self.ev.pop_front() {
            Some(Ev::Data(n)) if n >= k => { if n > k { self.ev.push_front(Ev::Data(n - k)); } }
            _ => panic!("harness: consumed beyond the chunk"),
        }
        self.off += k;
    }
}
fn boom(k: i64) -> std::io::Error { std::io::Error::new(kind(k), "scripted failure") }
impl AsyncRead for Script {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        self.polls.fetch_add(1, Ordering::SeqCst);
        match self.ev.front().copied() {
            None => Poll::Ready(Ok(0)),
            Some(Ev::Pending) => { self.ev.pop_front(); cx.waker().wake_by_ref(); Poll::Pending }
            Some(Ev::Error(k)) => { self.ev.pop_front(); Poll::Ready(Err(boom(k))) }
            Some(Ev::Data(n)) => {
                let k = n.min(buf.len());
                let off = self.off;
                buf[..k].copy_from_slice(&self.content[off..off + k]);
                self.advance(k);
                Poll::Ready(Ok(k))
            }
        }
    }
}
impl AsyncBufRead for Script {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<&[u8]>> {
        let this = self.get_mut();
        this.polls.fetch_add(1, Ordering::SeqCst);
        match this.ev.front().copied() {
            None => Poll::Ready(Ok(&[])),
            Some(Ev::Pending) => { this.ev.pop_front(); cx.waker().wake_by_ref(); Poll::Pending }
            Some(Ev::Error(k)) => { this.ev.pop_front(); Poll::Ready(Err(boom(k))) }
            Some(Ev::Data(n)) => Poll::Ready(Ok(&this.content[this.off..this.off + n])),
        }
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) { self.advance(amt) }
}

pub fn mime_of(name: &str) -> Option<Mime> {
    match name { "none" => None, "bin" => Some(mime::BYTE_STREAM), "text" => Some(mime::PLAIN), "json" => Some(mime::JSON),
        "html" => Some(mime::HTML), "text16" => Some("text/plain;charset=utf-16".parse().unwrap()), "plain" => Some("text/plain".parse().unwrap()), "form" => Some(mime::FORM), "svg" => Some(mime::SVG), x => panic!("mime {x}") }
}
pub fn mime_name(m: Option<&Mime>) -> Value {
    let m = match m { None => return json!("none"), Some(m) => m };
    for x in ["bin", "text", "json", "html", "form", "svg", "text16", "plain"] {
        if Some(m) == mime_of(x).as_ref() && m.to_string() == mime_of(x).unwrap().to_string() { return json!(x); }
    }
    json!(m.to_string())
}

pub fn create(c: &Value, polls: Arc<AtomicUsize>, unit: usize) -> Body {
    // walks start in a model state, histories start from a constructor call: same shape up to field names
    let c = if c.get("segs").is_some() {
        let g = &c["segs"][0];
        json!({"ev": g["ev"], "lim": c["len"], "id": g["id"], "mime": c["mime"]})
    } else { c.clone() };
    let script = Script::new(&c["ev"], n(&c, "id"), polls).blown(unit);
    let mut b = match c.get("ctor").and_then(|x| x.as_str()).unwrap_or("reader") {
        "reader" => Body::from_reader(script, if unit == 1 { unscale(n(&c, "lim")) } else { u64::try_from(n(&c, "lim")).ok().map(|l| l * unit as u64) }),
        "bytes" => Body::from_bytes(script.content),
        "vec" => Body::from(script.content),
        "slice" => Body::from(&script.content[..]),
        "string" => Body::from_string(String::from_utf8(script.content).unwrap()),
        "str" => Body::from(&*String::from_utf8(script.content).unwrap()),
        "empty" => Body::empty(),
        x => panic!("ctor {x}"),
    };
    if c.get("ctor").map_or(true, |x| x == "reader") { b.set_mime(mime_of(s(&c, "mime"))); }
    b
}

pub fn poll_read(b: &mut (impl AsyncRead + Unpin), len: usize, polls: &AtomicUsize, unit: usize) -> Value {
    let len = len * unit;
    let before = polls.load(Ordering::SeqCst);
    let mut buf = vec![0xEEu8; len + 8];
    match with_cx(|cx| Pin::new(&mut *b).poll_read(cx, &mut buf[..len])) {
        Poll::Pending => json!({"k":"pending"}),
        Poll::Ready(Err(_)) => json!({"k":"ioerr"}),
        Poll::Ready(Ok(k)) => json!({"k":"data","v": units(&buf[..k], unit), "touched": polls.load(Ordering::SeqCst) != before}),
    }
}
pub fn poll_fill(b: &mut (impl AsyncBufRead + Unpin), polls: &AtomicUsize, unit: usize) -> Value {
    let before = polls.load(Ordering::SeqCst);
    match with_cx(|cx| Pin::new(&mut *b).poll_fill_buf(cx).map(|r| r.map(|x| x.to_vec()))) {
        Poll::Pending => json!({"k":"pending"}),
        Poll::Ready(Err(_)) => json!({"k":"ioerr"}),
        Poll::Ready(Ok(v)) => json!({"k":"data","v": units(&v, unit), "touched": polls.load(Ordering::SeqCst) != before}),
    }
}

/// The body on its own, or read through the message that carries it.
enum Holder { Body(Body), Req(Request), Res(Response), Nothing }
impl Holder {
    fn put(via: &str, b: Body, k: usize) -> Self {
        match via {
            "req" => { let mut m = any_request(Url::parse("http://a/").unwrap(), k); surround(m.as_mut(), k, &[]); m.set_body(b); Holder::Req(m) }
            "res" => { let mut m = any_response(k); surround(m.as_mut(), k, &[]); m.set_body(b); Holder::Res(m) }
            _ => Holder::Body(b),
        }
    }
    fn take(self) -> (&'static str, Body) {
        match self { Holder::Body(b) => ("body", b), Holder::Req(m) => ("req", m.into()), Holder::Res(mut m) => ("res", m.take_body()), Holder::Nothing => unreachable!() }
    }
}
pub struct BodyM { h: Holder, polls: Arc<AtomicUsize>, unit: usize }
impl BodyM {
    pub fn new(init: &Value) -> Self {
        let polls = Arc::new(AtomicUsize::new(0));
        let unit = init.get("unit").map_or(1, |u| u.as_u64().unwrap() as usize);
        BodyM { h: Holder::put(init.get("via").and_then(|v| v.as_str()).unwrap_or("body"), create(init, polls.clone(), unit), seed(init)), polls, unit }
    }
    /// Do something with the body itself, and put it back.
    fn with(&mut self, f: impl FnOnce(Body) -> Body) {
        match &mut self.h {
            Holder::Req(m) => { let b = f(m.take_body()); let old = m.replace_body(b); assert_eq!(old.len(), Some(0)); }
            Holder::Res(m) => { let b = f(m.take_body()); let mut b = b; m.swap_body(&mut b); assert_eq!(b.len(), Some(0)); }
            h => { let (via, b) = std::mem::replace(h, Holder::Nothing).take(); *h = Holder::put(via, f(b), 0); }
        }
    }
}
impl Machine for BodyM {
    fn step(&mut self, op: &Value) -> Value {
        let polls = self.polls.clone();
        let u = self.unit;
        match s(op, "n") {
            "read" => { let k = n(op, "len") as usize; match &mut self.h { Holder::Body(b) => poll_read(b, k, &polls, u), Holder::Req(b) => poll_read(b, k, &polls, u), Holder::Res(b) => poll_read(b, k, &polls, u), _ => unreachable!() } }
            "fill" => match &mut self.h { Holder::Body(b) => poll_fill(b, &polls, u), Holder::Req(b) => poll_fill(b, &polls, u), Holder::Res(b) => poll_fill(b, &polls, u), _ => unreachable!() },
            "consume" => { let k = n(op, "len") as usize * u; match &mut self.h { Holder::Body(b) => Pin::new(b).consume(k), Holder::Req(b) => Pin::new(b).consume(k), Holder::Res(b) => Pin::new(b).consume(k), _ => unreachable!() }; unit() }
            "mime" => { let m = mime_of(s(op, "v")); self.with(|mut b| { b.set_mime(m); b }); unit() }
            "chain" => {
                let o = &op["other"];
                let mut other = create(o, polls.clone(), u);
                let pre = n(o, "pre") as usize;
                if pre > 0 {
                    if s(o, "how") == "read" { poll_read(&mut other, pre, &polls, u); }
                    else {
                        let r = poll_fill(&mut other, &polls, u);
                        let got = r["v"].as_array().map(|a| a.len()).unwrap_or(0);
                        Pin::new(&mut other).consume(pre.min(got) * u);
                    }
                }
                let after = s(op, "side") == "after";
                self.with(|b| if after { b.chain(other) } else { other.chain(b) });
                unit()
            }
            x => panic!("op {x}"),
        }
    }
    fn proj(&mut self) -> Value {
        let (l, e) = match &self.h { Holder::Req(m) => (m.len(), m.is_empty()), Holder::Res(m) => (m.len(), m.is_empty()), Holder::Body(b) => (b.len(), b.is_empty()), _ => unreachable!() };
        let mut seen = Value::Null;
        let u = self.unit as u64;
        self.with(|b| { seen = json!({"len": match b.len() { Some(l) if u > 1 => if l % u == 0 { json!([l / u]) } else { json!([l.to_string()]) }, l => scale(l) }, "empty": opt(b.is_empty().map(|x| json!(x))), "mime": mime_name(b.mime())}); if b.len() != l || b.is_empty() != e { seen = json!("message and body disagree"); } b });
        seen
    }
}

/// Whole-body readers (spec/BodyWhole.tla).
/// A body made from a value, read back as text and as a value.
pub fn build(i: &Value) -> Value {
    use futures_lite::future::block_on;
    let doc = || -> Value { serde_json::from_slice(&bytes(&i["content"])).unwrap() };
    let ps: Vec<(String, String)> = i["pairs"].as_array().unwrap().iter().map(|p| (text(&p[0]), text(&p[1]))).collect();
    let make = || match s(i, "how") { "json" => Body::from_json(&doc()), "value" => Ok(Body::from(doc())), _ => Body::from_form(&ps) };
    let (a, b) = match (make(), make()) { (Ok(a), Ok(b)) => (a, b), _ => return json!("unmade") };
    let back = match s(i, "how") {
        "form" => block_on(b.into_form::<Vec<(String, String)>>()).map_or(false, |v| v == ps),
        _ => block_on(b.into_json::<Value>()).map_or(false, |v| v == doc()),
    };
    let (len, mime, empty) = (a.len(), a.mime().map(|m| m.to_string()), a.is_empty());
    let t = block_on(a.into_bytes()).unwrap();
    ok(json!({"text": bvals(&t), "len": len, "mime": cps(&mime.unwrap_or_default()), "empty": empty, "back": back}))
}
pub fn whole(i: &Value) -> Value {
    let polls = Arc::new(AtomicUsize::new(0));
    let script = Script::with_content(&i["ev"], bytes(&i["content"]), polls.clone());
    let mut body = Body::from_reader(script, unscale(n(i, "lim")));
    let pre = n(i, "pre") as usize;
    if pre > 0 { poll_read(&mut body, pre, &polls, 1); }
    read_whole(i, body)
}
/// The same of a large content made of one piece many times over; in its value the pieces are counted.
pub fn bulk(i: &Value) -> Value {
    let (times, chunk) = (n(i, "times") as usize, n(i, "chunk") as usize);
    let (pre, unit, post) = (bytes(&i["pre"]), bytes(&i["unit"]), bytes(&i["post"]));
    let mut content = pre.clone();
    for _ in 0..times { content.extend(&unit); }
    let cut = content.len();
    content.extend(&post);
    let mut ev = vec![];
    let mut left = content.len();
    while left > 0 { let k = left.min(chunk); ev.push(json!({"t":"d","n":k})); if ev.len() % 7 == 3 { ev.push(json!({"t":"p","n":0})); } left -= k; }
    let lim = if i["cut"].as_bool().unwrap() { Some(cut as u64) } else if n(i, "lim") < 0 { None } else { Some(content.len() as u64) };
    let script = Script::with_content(&Value::Array(ev), content, Arc::new(AtomicUsize::new(0)));
    let mut r = read_whole(i, Body::from_reader(script, lim));
    let (vp, vu, vq) = (bytes(&i["vp"]), bytes(&i["vu"]), bytes(&i["vq"]));
    let v = if i["via"] == "body" { &mut r } else { &mut r["r"] };
    if v["k"] == "ok" {
        let got = bytes(&v["v"]);
        let mut rest = got.strip_prefix(&vp[..]).unwrap_or(&[]);
        let mut t = 0;
        while let Some(x) = rest.strip_prefix(&vu[..]) { if vu.is_empty() { break; } rest = x; t += 1; }
        v["v"] = if rest == &vq[..] && got.starts_with(&vp) { json!({"p": i["vp"], "u": i["vu"], "t": t, "q": i["vq"]}) } else { json!({"p": [-1], "u": [], "t": t, "q": [got.len()]}) };
    }
    r
}
fn read_whole(i: &Value, body: Body) -> Value {
    use futures_lite::future::block_on;
    fn out<T>(r: http_types::Result<T>, f: impl FnOnce(T) -> Value) -> Value { match r { Ok(v) => ok(f(v)), Err(e) => fail(e) } }
    fn pairs(v: Vec<(String, String)>) -> Value { Value::Array(v.iter().map(|(a, b)| json!([bvals(a.as_bytes()), bvals(b.as_bytes())])).collect()) }
    #[derive(serde::Deserialize)]
    struct A { a: String }
    let js = |v: Value| bvals(&serde_json::to_vec(&v).unwrap());
    macro_rules! msg { ($m:expr) => {{
        let mut m = $m;
        m.set_body(body);
        let r = match s(i, "kind") {
            "bytes" => out(block_on(m.body_bytes()), |v| bvals(&v)),
            "string" => out(block_on(m.body_string()), |v| bvals(v.as_bytes())),
            "json" => out(block_on(m.body_json::<Value>()), js),
            "form" => out(block_on(m.body_form::<Vec<(String, String)>>()), pairs),
            "formstruct" => out(block_on(m.body_form::<A>()), |v| bvals(v.a.as_bytes())),
            _ => unreachable!(),
        };
        let len = opt(m.len().map(|l| json!(l)));
        let rest = block_on(m.take_body().into_bytes()).unwrap();
        json!({"k":"msg", "r": r, "after": {"len": len, "rest": bvals(&rest)}})
    }}}
    match s(i, "via") {
        "body" => match s(i, "kind") {
            "bytes" => out(block_on(body.into_bytes()), |v| bvals(&v)),
            "string" => out(block_on(body.into_string()), |v| bvals(v.as_bytes())),
            "json" => out(block_on(body.into_json::<Value>()), js),
            "form" => out(block_on(body.into_form::<Vec<(String, String)>>()), pairs),
            "formstruct" => out(block_on(body.into_form::<A>()), |v| bvals(v.a.as_bytes())),
            _ => unreachable!(),
        },
        "reader" => { use futures_lite::AsyncReadExt; let mut v = vec![]; match block_on(body.into_reader().read_to_end(&mut v)) { Ok(_) => ok(bvals(&v)), Err(_) => err(0) } }
        "req" => msg!(any_request(Url::parse("http://example.com/").unwrap(), seed(i))),
        "res" => msg!(any_response(seed(i))),
        _ => unreachable!(),
    }
}
