//! Query strings (spec/Query.tla).
use crate::*;
use http_types::{Request, Url};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize)]
struct Flat { s: String, n: u32, b: bool, o: Option<String>, #[serde(default)] d: u8 }
#[derive(Serialize, Deserialize)]
struct List { #[serde(default)] l: Vec<String> }
#[derive(Serialize, Deserialize)]
struct Map { #[serde(default)] m: BTreeMap<String, String> }
#[derive(Serialize, Deserialize)]
struct Inner { x: i64, #[serde(default)] y: Vec<u32> }
#[derive(Serialize, Deserialize)]
enum Colour { Red, Green }
#[derive(Serialize, Deserialize)]
struct Nest { a: Inner, e: Colour }
#[derive(Serialize, Deserialize)]
struct Opt { a: Option<String>, n: Option<u32> }

fn num(v: impl ToString) -> Value { cps(&v.to_string()) }
fn one(v: &Value) -> Option<String> { v.as_array().unwrap().first().map(text) }
fn read(r: &Request, shape: &str) -> Value {
    macro_rules! rd { ($t:ty, $x:ident => $e:expr) => { match r.query::<$t>() { Err(e) => fail(e), Ok($x) => ok($e) } } }
    match shape {
        "flat" => rd!(Flat, x => json!({"s": cps(&x.s), "n": num(x.n), "b": x.b, "o": x.o.iter().map(|t| cps(t)).collect::<Vec<_>>(), "d": num(x.d)})),
        "list" => rd!(List, x => json!({"l": x.l.iter().map(|t| cps(t)).collect::<Vec<_>>()})),
        "map" => rd!(Map, x => json!({"m": x.m.iter().map(|(k, v)| json!([cps(k), cps(v)])).collect::<Vec<_>>()})),
        "nest" => rd!(Nest, x => json!({"x": num(x.a.x), "y": x.a.y.iter().map(num).collect::<Vec<_>>(), "e": cps(match x.e { Colour::Red => "Red", Colour::Green => "Green" })})),
        _ => rd!(Opt, x => json!({"a": x.a.iter().map(|t| cps(t)).collect::<Vec<_>>(), "n": x.n.iter().map(num).collect::<Vec<_>>()})),
    }
}
pub fn qread(i: &Value) -> Value {
    let url = match i["q"].as_array().unwrap().first() { None => "http://h/p".to_string(), Some(q) => format!("http://h/p?{}", text(q)) };
    match Url::parse(&url) { Ok(u) => read(&any_request(u, seed(i)), s(i, "shape")), Err(_) => none() }
}
pub fn qset(i: &Value) -> Value {
    let before = Url::parse(&text(&i["url"])).unwrap();
    let mut r = any_request(before.clone(), seed(i));
    let method = r.method();
    let v = &i["v"];
    let texts = |x: &Value| x.as_array().unwrap().iter().map(text).collect::<Vec<_>>();
    let res = match s(i, "shape") {
        "flat" => r.set_query(&Flat { s: text(&v["s"]), n: text(&v["n"]).parse().unwrap(), b: v["b"].as_bool().unwrap(), o: one(&v["o"]), d: text(&v["d"]).parse().unwrap() }),
        "list" => r.set_query(&List { l: texts(&v["l"]) }),
        "map" => r.set_query(&Map { m: v["m"].as_array().unwrap().iter().map(|e| (text(&e[0]), text(&e[1]))).collect() }),
        "nest" => r.set_query(&Nest { a: Inner { x: text(&v["x"]).parse().unwrap(), y: texts(&v["y"]).iter().map(|t| t.parse().unwrap()).collect() }, e: if text(&v["e"]) == "Red" { Colour::Red } else { Colour::Green } }),
        _ => r.set_query(&Opt { a: one(&v["a"]), n: one(&v["n"]).map(|t| t.parse().unwrap()) }),
    };
    if let Err(e) = res { return fail(e); }
    let mut after = r.url().clone();
    let pairs: Vec<Value> = after.query_pairs().map(|(k, v)| json!([cps(&k), cps(&v)])).collect();
    let back = read(&r, s(i, "shape"));
    after.set_query(before.query());
    ok(json!({"same": after == before && r.method() == method, "pairs": pairs, "back": back}))
}
