//! Trailer and upgrade hand-over, upgraded connections (spec/Channel.tla, Conn.tla).
use crate::*;
use futures_lite::future::block_on;
use futures_lite::io::{AsyncRead, AsyncWrite};
use http_types::trailers::{self, Trailers};
use http_types::upgrade::{self, Connection};
use http_types::{Request, Response};
use serde_json::{json, Value};
use std::future::Future;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

fn trailers_of(v: &str, copied: bool) -> Trailers {
    let mut t = Trailers::new();
    if v == "none" { return t; }
    t.insert("X-Sum", v).unwrap();
    if v == "many" {
        for k in 0..40 { t.insert(format!("t{k}").as_str(), "0").unwrap(); }
        for k in 0..70 { t.append("t7", format!("{k}")).unwrap(); }
        if copied {
            let mut u = t.clone();
            t.insert("gone", "1").unwrap(); u.append("b", "0").unwrap();
            t = u;
        } else { t.append("b", "0").unwrap(); }
    }
    t.append("x-sum", format!("{v}!")).unwrap();
    t.insert("b", "2").unwrap();
    t
}
fn trailers_name(t: &Trailers) -> Value {
    let v = t.get("x-sum").map(|v| v.as_str().to_string()).unwrap_or_else(|| "none".into());
    let want = trailers_of(&v, false);
    let show = |t: &Trailers| { let mut v: Vec<String> = t.iter().map(|(n, v)| format!("{n}={v}")).collect(); v.sort(); v };
    if show(t) == show(&want) { json!(v) } else { json!(format!("?{:?}", show(t))) }
}
/// A transport that hands out its label.
struct Label(Vec<u8>);
impl AsyncRead for Label {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let k = buf.len().min(self.0.len()); buf[..k].copy_from_slice(&self.0[..k]); self.0.drain(..k); Poll::Ready(Ok(k))
    }
}
impl AsyncWrite for Label {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> { Poll::Ready(Ok(buf.len())) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { Poll::Ready(Ok(())) }
}
fn conn_name(mut c: Connection) -> Value {
    let mut s = String::new();
    block_on(futures_lite::AsyncReadExt::read_to_string(&mut c, &mut s)).unwrap();
    json!(s)
}

enum Msg { Q(Request), S(Response) }
enum Snd { T(trailers::Sender), U(upgrade::Sender) }
enum Rcv { T(trailers::Receiver), U(upgrade::Receiver) }
impl Snd {
    fn send(self, v: &str) -> Pin<Box<dyn Future<Output = ()> + Send>> {
        match self {
            Snd::T(x) => { let t = trailers_of(v, true); Box::pin(x.send(t)) }
            Snd::U(x) => { let c = Connection::new(Label(v.as_bytes().to_vec())); Box::pin(x.send(c)) }
        }
    }
}
impl Rcv {
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<Value>> {
        match self {
            Rcv::T(x) => Pin::new(x).poll(cx).map(|o| o.map(|t| trailers_name(&t))),
            Rcv::U(x) => Pin::new(x).poll(cx).map(|o| o.map(conn_name)),
        }
    }
}
pub struct ChannelM { copies: Vec<Msg>, up: bool, msg: Option<Msg>, snd: Option<Snd>, fut: Option<Pin<Box<dyn Future<Output = ()> + Send>>>, rcv: Option<Rcv>, wakes: Arc<CountWaker>, at_poll: usize }
impl ChannelM {
    pub fn new(i: &Value) -> Self {
        let (k, h) = (s(i, "kind"), seed(i));
        let msg = if k == "req" { Msg::Q(any_request(http_types::Url::parse("http://a.example/").unwrap(), h)) } else { Msg::S(any_response(h)) };
        ChannelM { copies: vec![], up: k == "upgrade", msg: Some(msg), snd: None, fut: None, rcv: None, wakes: Arc::new(CountWaker(AtomicUsize::new(0))), at_poll: 0 }
    }
    fn mk_sender(&mut self) -> Snd {
        let up = self.up;
        match self.msg.as_mut().unwrap() { Msg::Q(x) => Snd::T(x.send_trailers()), Msg::S(x) => if up { Snd::U(x.send_upgrade()) } else { Snd::T(x.send_trailers()) } }
    }
    fn mk_receiver(&mut self) -> Rcv {
        let up = self.up;
        match self.msg.as_mut().unwrap() { Msg::Q(x) => Rcv::T(x.recv_trailers()), Msg::S(x) => if up { Rcv::U(block_on(x.recv_upgrade())) } else { Rcv::T(x.recv_trailers()) } }
    }
}
impl Machine for ChannelM {
    fn step(&mut self, o: &Value) -> Value {
        let r = match s(o, "n") {
            "mksender" => match catch_unwind(AssertUnwindSafe(|| self.mk_sender())) { Ok(x) => { self.snd = Some(x); unit() } Err(_) => json!({"k":"panics"}) },
            "mkreceiver" => match catch_unwind(AssertUnwindSafe(|| self.mk_receiver())) { Ok(x) => { self.rcv = Some(x); unit() } Err(_) => json!({"k":"panics"}) },
            "send" => { block_on(self.snd.take().unwrap().send(s(o, "v"))); unit() }
            "start" => { self.fut = Some(self.snd.take().unwrap().send(s(o, "v"))); unit() }
            "run" => { block_on(self.fut.take().unwrap()); unit() }
            "dropsender" => { self.snd = None; self.fut = None; unit() }
            "dropreceiver" => { self.rcv = None; self.at_poll = usize::MAX; unit() }
            "clone" => {
                let up = self.up;
                let (c, has) = match self.msg.as_ref().unwrap() {
                    Msg::Q(x) => { let c = x.clone(); let h = c.has_trailers(); (Msg::Q(c), h) }
                    Msg::S(x) => { let c = x.clone(); let h = if up { c.has_upgrade() } else { c.has_trailers() }; (Msg::S(c), h) }
                };
                self.copies.push(c);
                ok(json!(if has { "yes" } else { "no" }))
            }
            "dropcopies" => { self.copies.clear(); unit() }
            "dropmsg" => { self.msg = None; unit() }
            "poll" => {
                let w = Waker::from(self.wakes.clone());
                self.at_poll = self.wakes.0.load(Ordering::SeqCst);
                match self.rcv.as_mut().unwrap().poll(&mut Context::from_waker(&w)) {
                    Poll::Pending => json!({"k":"pending"}), Poll::Ready(None) => none(), Poll::Ready(Some(v)) => ok(v) }
            }
            x => panic!("op {x}"),
        };
        json!({"k":"ch","r":r,"woken":ok(json!(self.wakes.0.load(Ordering::SeqCst) > self.at_poll))})
    }
    fn proj(&mut self) -> Value {
        json!({"has": opt(self.msg.as_ref().map(|m| json!(match m { Msg::Q(x) => x.has_trailers(), Msg::S(x) => if self.up { x.has_upgrade() } else { x.has_trailers() } })))})
    }
}
/// Sender, receiver and message each on a thread of their own.
pub fn race(i: &Value) -> Value {
    let mut m = ChannelM::new(i);
    let (snd, mut rcv) = (m.mk_sender(), m.mk_receiver());
    let msg = m.msg.take();
    let (send, v) = (i["send"].as_bool().unwrap(), s(i, "v").to_string());
    let d = |k: usize| std::time::Duration::from_micros(i["delays"][k].as_u64().unwrap());
    let (d0, d1, d2) = (d(0), d(1), d(2));
    let a = std::thread::spawn(move || { std::thread::sleep(d0); if send { block_on(snd.send(&v)) } else { drop(snd) } });
    let b = std::thread::spawn(move || { std::thread::sleep(d1); block_on(futures_lite::future::poll_fn(|cx| rcv.poll(cx))) });
    let c = std::thread::spawn(move || { std::thread::sleep(d2); drop(msg) });
    a.join().unwrap(); c.join().unwrap();
    match b.join().unwrap() { Some(v) => ok(v), None => none() }
}

/// A family of messages: a response (or request) and copies of it, each with endpoints of its own.
/// A send that has to wait is a task, run again when it is woken.
type SendTask = (Pin<Box<dyn Future<Output = ()> + Send>>, Arc<CountWaker>, usize);
pub struct ShareM { k: Vec<ChannelM>, tasks: Vec<SendTask> }
impl ShareM {
    pub fn new(i: &Value) -> Self { let mut m = ChannelM::new(i); m.at_poll = usize::MAX; ShareM { k: vec![m], tasks: vec![] } }
    fn run(&mut self) {
        loop {
            let mut ran = false;
            self.tasks.retain_mut(|(f, w, seen)| {
                let k = w.0.load(Ordering::SeqCst);
                if k == *seen { return true; }
                *seen = k; ran = true;
                f.as_mut().poll(&mut Context::from_waker(&Waker::from(w.clone()))).is_pending()
            });
            if !ran { return; }
        }
    }
}
impl Machine for ShareM {
    fn step(&mut self, o: &Value) -> Value {
        let i = n(o, "i") as usize - 1;
        let r = match s(o, "n") {
            "clone" => {
                let msg = match self.k[i].msg.as_ref().unwrap() { Msg::Q(x) => Msg::Q(x.clone()), Msg::S(x) => Msg::S(x.clone()) };
                let up = self.k[i].up;
                self.k.push(ChannelM { copies: vec![], up, msg: Some(msg), snd: None, fut: None, rcv: None, wakes: Arc::new(CountWaker(AtomicUsize::new(0))), at_poll: usize::MAX });
                unit()
            }
            "try" => {
                let msg = match self.k[i].msg.as_ref().unwrap() { Msg::Q(x) => Msg::Q(x.clone()), Msg::S(x) => Msg::S(x.clone()) };
                let mut c = ChannelM { copies: vec![], up: self.k[i].up, msg: Some(msg), snd: None, fut: None, rcv: None, wakes: Arc::new(CountWaker(AtomicUsize::new(0))), at_poll: usize::MAX };
                let (a, b) = (catch_unwind(AssertUnwindSafe(|| c.mk_sender())), catch_unwind(AssertUnwindSafe(|| c.mk_receiver())));
                ok(json!([a.is_ok(), b.is_ok()]))
            }
            "send" => { let f = self.k[i].snd.take().unwrap().send(s(o, "v")); self.tasks.push((f, Arc::new(CountWaker(AtomicUsize::new(1))), 0)); unit() }
            _ => self.k[i].step(o)["r"].clone(),
        };
        self.run();
        // a receiver that was last told to wait, and whether it has been woken since
        if s(o, "n") == "poll" && r["k"] != "pending" { self.k[i].at_poll = usize::MAX; }
        let w: Vec<bool> = self.k.iter().filter(|m| m.rcv.is_some() && m.at_poll != usize::MAX).map(|m| m.wakes.0.load(Ordering::SeqCst) > m.at_poll).collect();
        json!({"k":"sh","r":r,"any":ok(json!(w.iter().any(|x| *x))),"all":ok(json!(w.iter().all(|x| *x)))})
    }
    fn proj(&mut self) -> Value {
        Value::Array(self.k.iter().map(|m| match &m.msg { None => json!([]), Some(Msg::Q(x)) => json!([x.has_trailers()]), Some(Msg::S(x)) => json!([if m.up { x.has_upgrade() } else { x.has_trailers() }]) }).collect())
    }
}
/// Copies of one response on threads of their own, each sending its value, while one receiver takes them all.
pub fn crowd(i: &Value) -> Value {
    let mut m = ChannelM::new(i);
    let vs: Vec<String> = i["vs"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().into()).collect();
    let mut rcv = m.mk_receiver();
    let delay = |k: usize| std::time::Duration::from_micros(i["delays"][k % 4].as_u64().unwrap());
    let hs: Vec<_> = vs.iter().enumerate().map(|(k, v)| {
        let msg = match m.msg.as_ref().unwrap() { Msg::S(x) => Msg::S(x.clone()), _ => unreachable!() };
        let mut c = ChannelM { copies: vec![], up: m.up, msg: Some(msg), snd: None, fut: None, rcv: None, wakes: Arc::new(CountWaker(AtomicUsize::new(0))), at_poll: 0 };
        let (v, d) = (v.clone(), delay(k));
        std::thread::spawn(move || { let s = c.mk_sender(); std::thread::sleep(d); block_on(s.send(&v)); })
    }).collect();
    drop(m);
    let mut got = vec![];
    let last = loop { match block_on(futures_lite::future::poll_fn(|cx| rcv.poll(cx))) { Some(v) => got.push(v.as_str().unwrap().to_string()), None => break none() } };
    for h in hs { h.join().unwrap(); }
    got.sort();
    ok(json!({"got": got, "last": last}))
}

#[derive(Default)]
struct Seen { sent: Vec<u8>, calls: i64, closes: i64 }
struct Script { r: Vec<Value>, w: Vec<Value>, f: Vec<Value>, rpos: u64, seen: Arc<Mutex<Seen>> }
fn scripted(e: &Value) -> io::Error { io::Error::new(kind(n(e, "n")), "scripted") }
impl AsyncRead for Script {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.seen.lock().unwrap().calls += 1;
        if self.r.is_empty() { return Poll::Ready(Ok(0)); }
        let e = self.r[0].clone();
        match s(&e, "t") {
            "p" => { self.r.remove(0); Poll::Pending }
            "e" => { self.r.remove(0); Poll::Ready(Err(scripted(&e))) }
            _ => {
                let have = n(&e, "n") as usize; let k = have.min(buf.len());
                for b in &mut buf[..k] { self.rpos += 1; *b = (self.rpos % 251) as u8; }
                if k == have { self.r.remove(0); } else { self.r[0]["n"] = json!(have - k); }
                Poll::Ready(Ok(k))
            }
        }
    }
}
impl Script {
    fn sync(&mut self) -> Poll<io::Result<()>> {
        self.seen.lock().unwrap().calls += 1;
        if self.f.is_empty() { return Poll::Ready(Ok(())); }
        let e = self.f.remove(0);
        match s(&e, "t") { "p" => Poll::Pending, "e" => Poll::Ready(Err(scripted(&e))), _ => Poll::Ready(Ok(())) }
    }
}
impl AsyncWrite for Script {
    fn poll_write(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.seen.lock().unwrap().calls += 1;
        if self.w.is_empty() { self.seen.lock().unwrap().sent.extend_from_slice(buf); return Poll::Ready(Ok(buf.len())); }
        let e = self.w.remove(0);
        match s(&e, "t") { "p" => Poll::Pending, "e" => Poll::Ready(Err(scripted(&e))),
            _ => { let k = (n(&e, "n") as usize).min(buf.len()); self.seen.lock().unwrap().sent.extend_from_slice(&buf[..k]); Poll::Ready(Ok(k)) } }
    }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.sync() }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> { self.seen.lock().unwrap().closes += 1; self.sync() }
}
pub struct ConnM { c: Connection, seen: Arc<Mutex<Seen>> }
impl ConnM {
    pub fn new(i: &Value) -> Self {
        let seen = Arc::new(Mutex::new(Seen::default()));
        let l = |k: &str| i[k].as_array().unwrap().clone();
        ConnM { c: Connection::new(Script { r: l("r"), w: l("w"), f: l("f"), rpos: 0, seen: seen.clone() }), seen }
    }
}
impl Machine for ConnM {
    fn step(&mut self, o: &Value) -> Value {
        let c = Pin::new(&mut self.c);
        let ioerr = |e: io::Error| json!({"k":"ioerr","v":e.to_string(),"kind":KINDS.iter().position(|k| *k == e.kind())});
        match s(o, "n") {
            "read" => { let mut b = vec![0xEE; n(o, "len") as usize];
                match with_cx(|cx| c.poll_read(cx, &mut b)) { Poll::Pending => json!({"k":"pending"}), Poll::Ready(Err(e)) => ioerr(e), Poll::Ready(Ok(k)) => json!({"k":"data","v":bvals(&b[..k])}) } }
            "write" => match with_cx(|cx| c.poll_write(cx, &bytes(&o["v"]))) { Poll::Pending => json!({"k":"pending"}), Poll::Ready(Err(e)) => ioerr(e), Poll::Ready(Ok(k)) => ok(json!(k)) },
            x => match with_cx(|cx| if x == "flush" { c.poll_flush(cx) } else { c.poll_close(cx) }) { Poll::Pending => json!({"k":"pending"}), Poll::Ready(Err(e)) => ioerr(e), Poll::Ready(Ok(())) => json!({"k":"done","v":x}) },
        }
    }
    fn proj(&mut self) -> Value { let x = self.seen.lock().unwrap(); json!({"sent": bvals(&x.sent), "calls": x.calls, "closes": x.closes}) }
}
