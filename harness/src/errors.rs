//! Errors (spec/Errors.tla).
use crate::*;
use http_types::{bail, ensure, ensure_eq, format_err, Error, Status, StatusCode};
use serde_json::{json, Value};
use std::convert::TryFrom;
use std::error::Error as StdError;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug)]
struct Root;
impl std::fmt::Display for Root { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("root") } }
impl StdError for Root {}
#[derive(Debug)]
struct My(String, Root);
impl std::fmt::Display for My { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl StdError for My { fn source(&self) -> Option<&(dyn StdError + 'static)> { Some(&self.1) } }
fn my(m: &str) -> My { My(m.to_string(), Root) }
fn io(m: &str) -> std::io::Error { std::io::Error::new(std::io::ErrorKind::Other, m.to_string()) }

fn chain(e: &(dyn StdError + 'static)) -> Value {
    let (mut v, mut c) = (vec![], Some(e));
    while let Some(x) = c { v.push(json!(x.to_string())); c = x.source(); }
    json!(v)
}
fn panics<T>(f: impl FnOnce() -> T) -> Option<T> { catch_unwind(AssertUnwindSafe(f)).ok() }

pub struct ErrM { e: Option<Error> }
impl ErrM {
    pub fn new(_: &Value) -> Self { ErrM { e: None } }
    fn make(&mut self, f: impl FnOnce() -> Error) -> Value {
        match panics(f) { None => json!({"k":"panics"}), Some(e) => { self.e = Some(e); unit() } }
    }
}
macro_rules! st_lit { ($c:expr, $mac:ident, ($($pre:tt)*), ($($post:tt)*)) => { match $c {
    418 => http_types::$mac!($($pre)* 418, $($post)*), 503 => http_types::$mac!($($pre)* 503, $($post)*), _ => http_types::$mac!($($pre)* 600, $($post)*) } } }

fn early(k: &str, c: i64, form: &str, m: String, hold: bool) -> http_types::Result<u8> {
    match (k, c == 0, form) {
        ("ensure", true, "lit") => ensure!(hold, "lit message"),
        ("ensure", true, "expr") => ensure!(hold, m),
        ("ensure", true, _) => ensure!(hold, "{}-{}", m, 7),
        ("ensureeq", true, "lit") => ensure_eq!(hold, true, "lit message"),
        ("ensureeq", true, "expr") => ensure_eq!(hold, true, m),
        ("ensureeq", true, _) => ensure_eq!(hold, true, "{}-{}", m, 7),
        (_, true, "lit") => bail!("lit message"),
        (_, true, "expr") => bail!(m),
        (_, true, _) => bail!("{}-{}", m, 7),
        ("ensure", _, "lit") => st_lit!(c, ensure_status, (hold,), ("lit message")),
        ("ensure", _, "expr") => st_lit!(c, ensure_status, (hold,), (m)),
        ("ensure", _, _) => st_lit!(c, ensure_status, (hold,), ("{}-{}", m, 7)),
        ("ensureeq", _, "lit") => st_lit!(c, ensure_eq_status, (hold, true,), ("lit message")),
        ("ensureeq", _, "expr") => st_lit!(c, ensure_eq_status, (hold, true,), (m)),
        ("ensureeq", _, _) => st_lit!(c, ensure_eq_status, (hold, true,), ("{}-{}", m, 7)),
        (_, _, "lit") => st_lit!(c, bail_status, (), ("lit message")),
        (_, _, "expr") => st_lit!(c, bail_status, (), (m)),
        (_, _, _) => st_lit!(c, bail_status, (), ("{}-{}", m, 7)),
    }
    #[allow(unreachable_code)]
    Ok(1)
}

impl Machine for ErrM {
    fn step(&mut self, o: &Value) -> Value {
        let c = o["c"].as_i64().unwrap_or(0) as u16;
        let m = o["m"].as_str().unwrap_or("").to_string();
        match s(o, "n") {
            "new" => { let src = s(o, "src").to_string(); self.make(move || match src.as_str() {
                "my" => Error::new(c, my(&m)),
                "io" => Error::new(c, io(&m)),
                "text" => Error::from_str(c, m),
                "ctx" => Error::new(c, anyhow::Error::new(my(&m)).context("ctx")),
                _ => Error::new(c, anyhow::Error::new(my(&m))),
            }) }
            "from" => { let src = s(o, "src").to_string(); self.make(move || match src.as_str() {
                "my" => Error::from(my(&m)),
                "io" => io(&m).into(),
                "ctx" => anyhow::Error::new(my(&m)).context("ctx").into(),
                _ => (|| -> http_types::Result<()> { Err(anyhow::Error::new(my(&m)))? ; Ok(()) })().unwrap_err(),
            }) }
            "display" => self.make(|| Error::from_display(&m)),
            "debugs" => self.make(|| Error::from_debug(Some((m, 1)))),
            "debug" => self.make(|| Error::from_debug(&m)),
            "fmt" => self.make(|| if m == "lit message" { format_err!("lit message") } else { format_err!(m) }),
            "fmtargs" => self.make(|| format_err!("{}-{}", m, 7)),
            "fmtst" => self.make(|| st_lit!(c, format_err_status, (), ("lit message"))),
            "fmtstexpr" => self.make(|| st_lit!(c, format_err_status, (), (m))),
            "fmtstargs" => self.make(|| st_lit!(c, format_err_status, (), ("{}-{}", m, 7))),
            k @ ("ensure" | "ensureeq" | "bail") => {
                let (f, h) = (s(o, "form").to_string(), o["hold"].as_bool().unwrap());
                let k = k.to_string();
                self.e = None;
                match panics(move || early(&k, c as i64, &f, m, h)) {
                    None => json!({"k":"panics"}),
                    Some(Ok(v)) => ok(json!(v)),
                    Some(Err(e)) => { self.e = Some(e); ok(json!(0)) }
                }
            }
            "attach" => {
                let lazy = o["lazy"].as_bool().unwrap();
                let q = s(o, "q").to_string();
                let held = self.e.take();
                if q == "held" && held.is_none() && panics(|| StatusCode::try_from(c).unwrap()).is_some() { return none(); }
                let mut evals = 0;
                macro_rules! go { ($x:expr) => { if lazy { $x.with_status(|| { evals += 1; c }) } else { $x.status(c) } } }
                let r: Option<http_types::Result<String>> = panics(|| match q.as_str() {
                    "okres" => go!(Ok::<String, std::io::Error>(m)),
                    "okerr" => go!(Ok::<String, Error>(m)),
                    "some" => go!(Some(m)),
                    "none" => go!(None::<String>),
                    "held" => match held { Some(e) => go!(Err::<String, Error>(e)), None => panic!("invalid status") },
                    "my" => go!(Err::<String, My>(my(&m))),
                    _ => go!(Err::<String, std::io::Error>(io(&m))),
                });
                match r {
                    None => json!({"k":"panics"}),
                    Some(Ok(v)) => ok(json!({"v": v, "evals": evals})),
                    Some(Err(e)) => { self.e = Some(e); json!({"k":"failed","evals":evals}) }
                }
            }
            "set" => match &mut self.e { None => none(), Some(e) => match panics(|| e.set_status(c)) { Some(()) => unit(), None => json!({"k":"panics"}) } },
            "mut" => match &mut self.e { None => none(), Some(e) => match panics(|| StatusCode::try_from(c).unwrap()) {
                Some(c) => { *AsMut::<StatusCode>::as_mut(e) = c; unit() } None => json!({"k":"panics"}) } },
            "downcast" => match self.e.take() { None => none(), Some(e) => match s(o, "ty") {
                "my" => match e.downcast::<My>() { Ok(x) => ok(json!(x.0)), Err(e) => { let r = err(e.status().into()); self.e = Some(e); r } },
                "io" => match e.downcast::<std::io::Error>() { Ok(x) => ok(json!(x.to_string())), Err(e) => { let r = err(e.status().into()); self.e = Some(e); r } },
                _ => match e.downcast::<u8>() { Ok(x) => ok(json!(x.to_string())), Err(e) => { let r = err(e.status().into()); self.e = Some(e); r } },
            } },
            "mutate" => match self.e.as_mut().and_then(|e| e.downcast_mut::<My>()) { None => none(), Some(x) => { let p = std::mem::replace(&mut x.0, m); ok(json!(p)) } },
            "inner" => match self.e.take() { None => none(), Some(e) => { let i = e.into_inner(); ok(json!(i.chain().map(|x| x.to_string()).collect::<Vec<_>>())) } },
            "boxed" => match self.e.take() { None => none(), Some(e) => { let b: Box<dyn StdError> = e.into(); ok(chain(&*b)) } },
            x => panic!("op {x}"),
        }
    }
    fn proj(&mut self) -> Value {
        let e = match &self.e { None => return json!([]), Some(e) => e };
        let st: u16 = e.status().into();
        let a: &(dyn StdError + 'static) = e.as_ref();
        let b: &(dyn StdError + Send + Sync + 'static) = e.as_ref();
        let ch = chain(a);
        if chain(b) != ch || ch[0] != json!(e.to_string()) || ch.as_array().unwrap().iter().any(|m| !format!("{e:?}").contains(m.as_str().unwrap()) && !m.as_str().unwrap().contains('\n'))
            || !format!("{e:?}").starts_with(&e.to_string())
            || format!("{e:#}") != ch.as_array().unwrap().iter().map(|m| m.as_str().unwrap()).collect::<Vec<_>>().join(": ")
            || AsRef::<StatusCode>::as_ref(e) != &e.status() || AsRef::<anyhow::Error>::as_ref(e).to_string() != e.to_string() { return json!("disagree"); }
        let tn = match e.type_name() { Some(t) if t == std::any::type_name::<My>() => "my", Some(t) if t == std::any::type_name::<std::io::Error>() => "io", _ => "other" };
        json!([{"st": st, "chain": ch, "tn": tn, "refs": {"my": opt(e.downcast_ref::<My>().map(|x| json!(x.0))), "io": opt(e.downcast_ref::<std::io::Error>().map(|x| json!(x.to_string())))}}])
    }
}
