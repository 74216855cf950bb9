//! Conformance harness: executes cases and histories of the TLA+ specifications on the real crate.
//! One JSON request per input line, one JSON observation per output line.
mod util;
mod body;
mod message;
mod headers;
mod registry;
mod channel;
mod errors;
mod nego;
mod mime;
mod typed;
mod total;
mod hyper;
mod query;
mod slots;
mod security;
mod location;
mod timing;
mod trace;
mod tokens;
mod conditional;
mod cache;
mod auth;
mod file;
mod proxies;

use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
pub use util::*;

fn dispatch(req: &Value) -> Value {
    match req["k"].as_str().unwrap() {
        "machine" => machine(req),
        "fn" => {
            let op = req["op"].as_str().unwrap();
            let i = &req["in"];
            // the same outcome is due whatever surrounds what is under test
            let rounds = match op {
                "race" | "crowd" | "file" | "sparse" | "nofile" | "bulk" | "whole" => 1,
                _ if i["vals"].as_array().map_or(false, |v| v.is_empty()) => 60,
                _ => 4,
            };
            let mut first = json!(null);
            for salt in 0..rounds {
                set_salt(salt);
                let v = catch_unwind(AssertUnwindSafe(|| function(op, i))).unwrap_or_else(|_| json!({"k":"panic"}));
                if salt == 0 { first = v } else if v != first { return json!({"k":"context","first":first,"other":v,"round":salt}); }
            }
            first
        }
        k => panic!("unknown request {k}"),
    }
}

fn function(op: &str, i: &Value) -> Value {
    match op {
        "whole" => body::whole(i),
        "build" => body::build(i),
        "bulk" => body::bulk(i),
        "crowd" => channel::crowd(i),
        "race" => channel::race(i),
        "mime" => mime::mime(i),
        "total" => total::total(i),
        "file" => file::file(i),
        "nofile" => file::nofile(i),
        "sparse" => file::sparse(i),
        "sniff" => file::sniff(i),
        "sniffany" => file::sniffany(i),
        "ext" => file::ext(i),
        "hversion" => hyper::hversion(i),
        "hstatus" => hyper::hstatus(i),
        "hmethod" => hyper::hmethod(i),
        "hvalue" => hyper::hvalue(i),
        "hname" => hyper::hname(i),
        "htomap" => hyper::htomap(i),
        "hfrommap" => hyper::hfrommap(i),
        "hboth" => hyper::hboth(i),
        "hto" => hyper::hto(i),
        "hfrom" => hyper::hfrom(i),
        "qset" => query::qset(i),
        "qread" => query::qread(i),
        "taowrite" => security::taowrite(i),
        "taoread" => security::taoread(i),
        "hstsnew" => security::hstsnew(i),
        "hstswrite" => security::hstswrite(i),
        "hstsread" => security::hstsread(i),
        "locwrite" => location::locwrite(i),
        "locread" => location::locread(i),
        "stnew" => timing::stnew(i),
        "stwrite" => timing::stwrite(i),
        "stread" => timing::stread(i),
        "trace" => trace::trace(i),
        "tokwrite" => tokens::tokwrite(i),
        "tokread" => tokens::tokread(i),
        "condwrite" => conditional::condwrite(i),
        "condread" => conditional::condread(i),
        "etagwrite" => conditional::etagwrite(i),
        "etagread" => conditional::etagread(i),
        "ccvalid" => cache::ccvalid(i),
        "ccwrite" => cache::ccwrite(i),
        "ccread" => cache::ccread(i),
        "retryat" => typed::retryat(i),
        "retrydelay" => typed::retrydelay(i),
        "numwrite" => typed::numwrite(i),
        "retryread" => typed::retryread(i),
        "numread" => typed::numread(i),
        "scheme" => auth::scheme(i),
        "authread" => auth::authread(i),
        "realmread" => auth::realmread(i),
        "basicread" => auth::basicread(i),
        "authwrite" => auth::authwrite(i),
        "realmwrite" => auth::realmwrite(i),
        "basicwrite" => auth::basicwrite(i),
        "fwdparse" => proxies::parse(i),
        "fwdbuild" => proxies::build(i),
        "fwdheaders" => proxies::headers(i),
        "remote" => proxies::remote(i),
        "host" => proxies::host(i),
        "dateread" => typed::dateread(i),
        "ctype" => mime::ctype(i),
        "cookie" => headers::cookie(i),
        "fromnow" => typed::fromnow(i),
        "creds" => auth::creds(i),
        "datewrite" => typed::datewrite(i),
        "status" => registry::status(i),
        "statusjson" => registry::statusjson(i),
        "statusint" => registry::statusint(i),
        "statusser" => registry::statusser(i),
        "method" => registry::method(i),
        "methodjson" => registry::methodjson(i),
        "version" => registry::version(i),
        "versioncmp" => registry::versioncmp(i),
        "value" => headers::value(i),
        "name" => headers::name(i),
        "nameeq" => headers::nameeq(i),
        "valueeq" => headers::valueeq(i),
        "pair" => headers::pair(i),
        "nametext" => headers::nametext(i),
        _ => { eprintln!("unknown op {op}"); std::process::exit(3) }
    }
}

/// A stateful object under test.
pub trait Machine {
    /// Perform one operation; the result as the specification names it.
    fn step(&mut self, op: &Value) -> Value;
    /// The observable projection of the state.
    fn proj(&mut self) -> Value;
}

fn make(kind: &str, init: &Value) -> Box<dyn Machine> {
    match kind {
        "body" => Box::new(body::BodyM::new(init)),
        "headers" => Box::new(headers::HeadersM::new(init)),
        "channel" => Box::new(channel::ChannelM::new(init)),
        "share" => Box::new(channel::ShareM::new(init)),
        "conn" => Box::new(channel::ConnM::new(init)),
        "mime" => Box::new(mime::MimeM::new(init)),
        "nego" => Box::new(nego::NegoM::new(init)),
        "err" => Box::new(errors::ErrM::new(init)),
        "ext" => Box::new(headers::ExtM::new(init)),
        "slots" => Box::new(slots::SlotM::new(init)),
        "policy" => Box::new(security::PolicyM::new(init)),
        "message" => Box::new(message::MessageM::new(init)),
        _ => { eprintln!("unknown machine {kind}"); std::process::exit(3) }
    }
}

fn machine(req: &Value) -> Value {
    set_salt(hash(&req["ops"]));
    let mut m = make(req["m"].as_str().unwrap(), &req["init"]);
    let mut steps = Vec::new();
    for op in req["ops"].as_array().unwrap() {
        let r = catch_unwind(AssertUnwindSafe(|| m.step(op)));
        match r {
            Ok(r) => {
                let p = catch_unwind(AssertUnwindSafe(|| m.proj()));
                match p {
                    Ok(p) => steps.push(json!({"r": r, "p": p})),
                    Err(_) => { steps.push(json!({"r": {"k":"panic"}, "p": {"k":"panic"}})); break; }
                }
            }
            Err(_) => { steps.push(json!({"r": {"k":"panic"}, "p": {"k":"panic"}})); break; }
        }
    }
    // the object may be in an arbitrary state after a panic; do not let its destructor end the run
    let _ = catch_unwind(AssertUnwindSafe(move || drop(m)));
    json!({"steps": steps})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() { continue; }
        let req: Value = serde_json::from_str(&line).unwrap();
        let out = dispatch(&req);
        let mut o = stdout.lock();
        serde_json::to_writer(&mut o, &out).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}
