//! Header collections, names, values and extensions (spec/Headers.tla, Names.tla, Ext.tla).
use crate::*;
use http_types::headers::{HeaderName, HeaderValue, HeaderValues, Headers};
use http_types::trailers::Trailers;
use http_types::{Method, Request, Response};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

enum H { Q(Request), S(Response), T(Trailers), R(Response) }
// the last kind goes through AsMut<Headers>
macro_rules! each { ($m:expr, $x:ident, req $q:expr, tr $t:expr, hd $h:expr) => { match $m {
    H::Q($x) => $q, H::S($x) => $q, H::T($x) => $t, H::R(r) => { let $x: &mut Headers = r.as_mut(); $h } } } }

fn vals(v: &HeaderValues) -> Value { Value::Array(v.iter().map(|x| json!(x.as_str())).collect()) }
fn list(v: Option<HeaderValues>) -> Value { match v { None => none(), Some(v) => ok(vals(&v)) } }
fn hv(v: &Value) -> HeaderValue { v.as_str().unwrap().parse().unwrap() }
fn hvs(v: &Value) -> Vec<HeaderValue> { v.as_array().unwrap().iter().map(hv).collect() }
fn sorted_pairs(mut v: Vec<(String, Value)>) -> Value {
    v.sort_by(|a, b| a.0.cmp(&b.0));
    Value::Array(v.into_iter().map(|(h, vs)| json!({"h": h, "vs": vs})).collect())
}

fn sp_pairs(sp: &Value) -> Vec<(String, Value)> { sp.as_array().unwrap().iter().map(|p| (s(p, "h").to_string(), p["vs"].clone())).collect() }
/// Every way of looking at a list of values shows the same list.
fn values_agree(mut l: HeaderValues, v: &Value) -> bool {
    let want: Vec<&str> = v.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
    if want.is_empty() { return l.iter().next().is_none(); }
    let other = format!("{}x", want[0]);
    let mut longer = want.clone();
    longer.push("x");
    let (one, first, last) = (want.len() == 1, want[0], want[want.len() - 1]);
    let mut good = (l == *first) == one && (l == first) == one && (l == first.to_string()) == one && (l == &first.to_string()) == one
        && l != *other.as_str() && l != other.as_str() && l != other && l == want[..] && l != longer[..] && l != want[..want.len() - 1]
        && l.as_str() == first && l.last().as_str() == last && AsRef::<HeaderValue>::as_ref(&l).as_str() == first && l[0].as_str() == first && l[..].len() == want.len()
        && (0..want.len()).all(|i| l.get(i).map(|x| x.as_str()) == Some(want[i])) && l.get(want.len()).is_none()
        && want.iter().all(|w| l.contains(&w.parse().unwrap())) && HeaderValue::from(l.clone()).as_str() == first;
    good &= l.to_string() == format!("{want:?}") && !format!("{l:?}").is_empty();
    AsMut::<HeaderValue>::as_mut(&mut l).clone_from(&other.parse().unwrap());
    good && l[0] == *other && l.iter().skip(1).map(|x| x.as_str()).eq(want[1..].iter().copied())
}

pub struct HeadersM { h: H }
impl HeadersM {
    pub fn new(i: &Value) -> Self {
        HeadersM { h: match s(i, "kind") {
            "req" => H::Q(any_request(http_types::Url::parse("http://a.example/").unwrap(), seed(i))),
            "res" => H::S(any_response(seed(i))),
            "trailers" => H::T(Trailers::new()),
            "headers" => H::R(Response::new(200)),
            x => panic!("{x}"),
        } }
    }
}
impl Machine for HeadersM {
    fn step(&mut self, o: &Value) -> Value {
        let h = || s(o, "h");
        match s(o, "n") {
            // a single text, a name with its value, and a list of values are different conversions
            "ins" => {
                let vs = hvs(&o["vs"]);
                let r = if vs.len() == 1 { let v = vs[0].as_str(); each!(&mut self.h, x, req x.insert_header(h(), v), tr x.insert(h(), v), hd x.insert(h(), v)) }
                        else { each!(&mut self.h, x, req x.insert_header(h(), &vs[..]), tr x.insert(h(), &vs[..]), hd x.insert(h(), &vs[..])) };
                match r { Ok(v) => list(v), Err(e) => fail(e) }
            }
            "app" => {
                let vs = hvs(&o["vs"]);
                let r = if vs.len() == 1 { let v = String::from(vs[0].as_str()); each!(&mut self.h, x, req x.append_header(h(), v), tr x.append(h(), v), hd x.append(h(), v)) }
                        else { let all: HeaderValues = vs.into_iter().collect(); each!(&mut self.h, x, req x.append_header(h(), &all), tr x.append(h(), &all), hd x.append(h(), &all)) };
                match r { Ok(()) => unit(), Err(e) => fail(e) }
            }
            "insbad" => match each!(&mut self.h, x, req x.insert_header(h(), "caf\u{e9}"), tr x.insert(h(), "caf\u{e9}"), hd x.insert(h(), "caf\u{e9}")) { Ok(v) => list(v), Err(e) => fail(e) },
            "appbad" => match each!(&mut self.h, x, req x.append_header(h(), "caf\u{e9}"), tr x.append(h(), "caf\u{e9}"), hd x.append(h(), "caf\u{e9}")) { Ok(()) => unit(), Err(e) => fail(e) },
            "rm" => list(each!(&mut self.h, x, req x.remove_header(h()), tr x.remove(h()), hd x.remove(h()))),
            "get" => match each!(&mut self.h, x, req x.header(h()), tr x.get(h()), hd x.get(h())) {
                None => none(),
                Some(v) => json!({"k":"vals","v":vals(v),"first":v.as_str(),"last":v.last().as_str()}),
            },
            "index" => match catch_unwind(AssertUnwindSafe(|| each!(&mut self.h, x, req vals(&x[h()]), tr vals(&x[h()]), hd vals(&x[h()])))) {
                Ok(v) => ok(v), Err(_) => json!({"k":"panics"}) },
            "push" => { let mut all: HeaderValues = hvs(&o["vs"]).into();
                if let Some(v) = each!(&mut self.h, x, req x.header_mut(h()), tr x.get_mut(h()), hd x.get_mut(h())) { v.append(&mut all); } ok(json!(all.iter().count())) }
            "edit" => { if let Some(v) = each!(&mut self.h, x, req x.header_mut(h()), tr x.get_mut(h()), hd x.get_mut(h())) {
                if let Some(c) = v.get_mut(n(o, "i") as usize - 1) { *c = hv(&o["v"]); } } unit() }
            "editall" => { each!(&mut self.h, x, req x.iter_mut().for_each(|(_, v)| **v = hv(&o["v"])), tr x.iter_mut().for_each(|(_, v)| **v = hv(&o["v"])), hd x.iter_mut().for_each(|(_, v)| **v = hv(&o["v"]))); unit() }
            "copy" => { let c = each!(&mut self.h, x, req x.header(h()).cloned(), tr x.get(h()).cloned(), hd x.get(h()).cloned());
                if let Some(c) = c { let to = HeaderName::from(s(o, "to")); each!(&mut self.h, x, req x.append_header(&to, &c), tr x.append(&to, &c), hd x.append(&to, &c)).unwrap(); } unit() }
            "many" => { for i in n(o, "from")..=n(o, "to") { let name = format!("{}{}", s(o, "pre"), i); let vs = hvs(&o["vs"]); each!(&mut self.h, x, req { x.insert_header(&*name, &vs[..]); }, tr { x.insert(&*name, &vs[..]).unwrap(); }, hd { x.insert(&*name, &vs[..]).unwrap(); }); } unit() }
            "contains" => { let v = hv(&o["v"]); ok(json!(each!(&mut self.h, x, req x.header(h()).map(|vs| vs.contains(&v)), tr x.get(h()).map(|vs| vs.contains(&v)), hd x.get(h()).map(|vs| vs.contains(&v))).unwrap_or(false))) }
            "drain" => {
                let kind = match &self.h { H::Q(_) => "req", H::S(_) => "res", H::T(_) => "trailers", H::R(_) => "headers" };
                let old = std::mem::replace(self, HeadersM::new(&json!({"kind":kind})));
                let (items, hints) = match old.h {
                    H::Q(x) => hinted(x.into_iter()), H::S(x) => hinted(x.into_iter()),
                    H::T(x) => hinted(std::ops::Deref::deref(&x).clone().into_iter()),
                    H::R(x) => { let h: &Headers = x.as_ref(); hinted(h.clone().into_iter()) } };
                json!({"k":"pairs","v": sorted_pairs(items.into_iter().map(|(n, v)| (n.to_string(), Value::Array(v.into_iter().map(|x| json!(x.to_string())).collect()))).collect()), "hints": hints})
            }
            x => panic!("op {x}"),
        }
    }
    fn proj(&mut self) -> Value {
        let (p, h1) = each!(&mut self.h, x, req hinted(x.iter()), tr hinted(x.iter()), hd hinted(x.iter()));
        let pairs: Vec<(String, Value)> = p.into_iter().map(|(n, v)| (n.as_str().to_string(), vals(v))).collect();
        let (ns, h2) = each!(&mut self.h, x, req hinted(x.header_names()), tr hinted(x.names()), hd hinted(x.names()));
        let mut ns: Vec<String> = ns.into_iter().map(|x| x.to_string()).collect();
        ns.sort();
        let (vs, h3) = each!(&mut self.h, x, req hinted(x.header_values()), tr hinted(x.values()), hd hinted(x.values()));
        let mut vs: Vec<String> = vs.into_iter().map(|x| x.to_string()).collect();
        let (pm, h4) = { let (i, h) = each!(&mut self.h, x, req hinted(x.iter_mut()), tr hinted(x.iter_mut()), hd hinted(x.iter_mut())); (i.into_iter().map(|(n, v)| (n.to_string(), vals(v))).collect::<Vec<_>>(), h) };
        let (pr, h5): (Vec<(String, Value)>, bool) = match &mut self.h {
            H::Q(x) => { let (i, h) = hinted((&*x).into_iter()); (i.into_iter().map(|(n, v)| (n.to_string(), vals(v))).collect(), h) }
            H::S(x) => { let (i, h) = hinted((&*x).into_iter()); (i.into_iter().map(|(n, v)| (n.to_string(), vals(v))).collect(), h) }
            H::T(x) => { let d: &Headers = &*x; let (i, h) = hinted(d.into_iter()); (i.into_iter().map(|(n, v)| (n.to_string(), vals(v))).collect(), h) }
            H::R(x) => { let d: &Headers = x.as_ref(); let (i, h) = hinted(d.into_iter()); (i.into_iter().map(|(n, v)| (n.to_string(), vals(v))).collect(), h) }
        };
        let mut h6 = true;
        for (_, v) in each!(&mut self.h, x, req x.iter(), tr x.iter(), hd x.iter()) { let (i, h) = hinted(v.iter()); h6 &= h && i.len() == (0..).take_while(|j| v.get(*j).is_some()).count(); }
        let count = vs.len();
        let mut flat: Vec<String> = pairs.iter().flat_map(|(_, v)| v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>()).collect();
        flat.sort(); vs.sort();
        let mut lookups = true;
        for (n, v) in &pairs {
            for sp in [n.clone(), n.to_ascii_uppercase()] {
                lookups &= each!(&mut self.h, x, req x.header(&*sp).map(vals), tr x.get(&*sp).map(vals), hd x.get(&*sp).map(vals)).as_ref() == Some(v);
            }
        }
        let sp = sorted_pairs(pairs);
        for (n, v) in &sp_pairs(&sp) {
            let name: HeaderName = n.parse().unwrap();
            let by_name = each!(&mut self.h, x, req vals(&x[name.clone()]), tr vals(&x[name.clone()]), hd vals(&x[name.clone()]));
            lookups &= by_name == *v;
            let hvs: HeaderValues = each!(&mut self.h, x, req x.header(&name).unwrap().clone(), tr x.get(&name).unwrap().clone(), hd x.get(&name).unwrap().clone());
            lookups &= values_agree(hvs, v);
        }
        lookups &= match &mut self.h {
            H::Q(x) => sorted_pairs(x.into_iter().map(|(n, v)| (n.to_string(), vals(v))).collect()) == sp,
            H::S(x) => sorted_pairs(x.into_iter().map(|(n, v)| (n.to_string(), vals(v))).collect()) == sp,
            H::T(x) => { let mut c = x.clone(); let a = sorted_pairs(c.iter().map(|(n, v)| (n.to_string(), vals(v))).collect()) == sp;
                c.insert("x-only-in-clone", "1").unwrap(); a && x.get("x-only-in-clone").is_none() }
            H::R(x) => { let d: &mut Headers = x.as_mut(); sorted_pairs(d.into_iter().map(|(n, v)| (n.to_string(), vals(v))).collect()) == sp }
        };
        let agree = flat == vs && sp == sorted_pairs(pm) && sp == sorted_pairs(pr) && lookups;
        json!({"pairs": sp, "names": ns, "nvals": count, "hints": h1 && h2 && h3 && h4 && h5 && h6, "agree": agree})
    }
}

fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn utf8(v: &Value) -> String { String::from_utf8(bytes(v)).unwrap() }

pub fn value(i: &Value) -> Value {
    let r = match s(i, "via") {
        "bytes" => HeaderValue::from_bytes(bytes(&i["b"])),
        "str" => utf8(&i["b"]).parse(),
        "tryfrom" => HeaderValue::try_from(&*utf8(&i["b"])),
        "cow" => { use http_types::headers::ToHeaderValues; std::borrow::Cow::from(utf8(&i["b"])).to_header_values().map(|mut v| v.next().unwrap()) }
        "ref" => { use http_types::headers::ToHeaderValues; (&&utf8(&i["b"])).to_header_values().map(|mut v| v.next().unwrap()) }
        _ => { use http_types::headers::ToHeaderValues; utf8(&i["b"]).to_header_values().map(|mut v| v.next().unwrap()) }
    };
    match r { Err(e) => fail(e), Ok(v) => { let t = v.as_str().to_string();
        ok(json!({"text": bvals(t.as_bytes()), "same": v.to_string() == t && v == *t && v == &*t && v == t && v == &t && format!("{v:?}") == format!("{t:?}") && unsafe { HeaderValue::from_bytes_unchecked(bytes(&i["b"])) } == v})) } }
}
/// A (name, value) pair of texts is a header.
pub fn pair(i: &Value) -> Value {
    use http_types::headers::Header;
    let (a, b) = (utf8(&i["a"]), utf8(&i["b"]));
    let h = (a.as_str(), b.as_str());
    let mut m = Response::new(200);
    m.insert_header("x-other", "1").unwrap();
    m.append_header(a.as_str(), "old").unwrap();
    h.apply_header(&mut m);
    if h.header_name() != (&h).header_name() || h.header_value() != (&h).header_value() { return json!("reference"); }
    if m.header("x-other").map_or(true, |v| v.as_str() != "1") { return json!("other"); }
    let got: Vec<Value> = m.iter().filter(|(k, _)| **k == *h.header_name().as_str()).flat_map(|(_, v)| v.iter().map(|x| bvals(x.as_str().as_bytes())).collect::<Vec<_>>()).collect();
    ok(json!({"name": bvals(h.header_name().as_str().as_bytes()), "value": bvals(h.header_value().as_str().as_bytes()), "got": got}))
}
pub fn name(i: &Value) -> Value {
    let r = match s(i, "via") { "bytes" => HeaderName::from_bytes(bytes(&i["b"])), "str" => utf8(&i["b"]).parse(), _ => HeaderName::from_string(utf8(&i["b"])) };
    match r { Err(e) => fail(e), Ok(v) => { let t = v.as_str().to_string();
        ok(json!({"text": bvals(t.as_bytes()), "same": v.to_string() == t && format!("{v:?}") == format!("{t:?}") && HeaderName::from(&v) == v && unsafe { HeaderName::from_bytes_unchecked(bytes(&i["b"])) } == v})) } }
}
pub fn nameeq(i: &Value) -> Value {
    let (a, b) = (utf8(&i["a"]), utf8(&i["b"]));
    let (x, y) = (a.parse::<HeaderName>().unwrap(), HeaderName::from_bytes(b.clone().into_bytes()).unwrap());
    ok(json!({"eq": x == y && y == x, "hash": hash(&x) == hash(&y), "str": x == *b && x == &*b, "string": x == b && x == &b}))
}
pub fn valueeq(i: &Value) -> Value {
    let (a, b) = (utf8(&i["a"]), utf8(&i["b"]));
    let (x, y) = (a.parse::<HeaderValue>().unwrap(), HeaderValue::from_bytes(b.clone().into_bytes()).unwrap());
    ok(json!({"eq": x == y && y == x, "hash": hash(&x) == hash(&y), "str": x == *b && x == &*b, "string": x == b && x == &b}))
}
pub fn nametext(i: &Value) -> Value {
    let x = utf8(&i["a"]).parse::<HeaderName>().unwrap();
    let t: String = bytes(&i["b"]).iter().map(|b| *b as char).collect();
    let r = [x == *t, x == &*t, x == t, x == &t];
    if r.iter().all(|y| *y == r[0]) { ok(json!(r[0])) } else { json!({"k":"disagree","v":r}) }
}

#[derive(Debug, PartialEq)]
struct Tag(i64);
pub struct ExtM { q: Option<Request>, r: Option<Response>, e: http_types::Extensions }
impl ExtM {
    pub fn new(i: &Value) -> Self {
        let k = s(i, "kind");
        ExtM { q: (k == "req").then(|| Request::new(Method::Get, "http://a.example/")), r: (k == "res").then(|| Response::new(200)), e: Default::default() }
    }
    fn m(&mut self) -> &mut http_types::Extensions {
        if let Some(q) = &mut self.q { q.ext_mut() } else if let Some(r) = &mut self.r { r.ext_mut() } else { &mut self.e }
    }
    fn c(&self) -> &http_types::Extensions {
        if let Some(q) = &self.q { q.ext() } else if let Some(r) = &self.r { r.ext() } else { &self.e }
    }
}
/// Kinds of value told apart by nothing but their type: two types of the same name, one type behind several pointers,
/// references, options, crate types, and a family of sixteen instances of one generic type.
trait Kind { type T: Send + Sync + 'static; fn mk(v: i64) -> Self::T; fn un(x: &Self::T) -> i64; }
struct TwinA; struct TwinB; struct Sref; struct Hop; struct Arcd; struct Dynd; struct Fnp; struct Own; struct Meth; struct Fam<const I: usize>;
const _: () = { pub struct Twin(i64); impl Kind for TwinA { type T = Twin; fn mk(v: i64) -> Twin { Twin(v) } fn un(x: &Twin) -> i64 { x.0 } } };
const _: () = { pub struct Twin(i64); impl Kind for TwinB { type T = Twin; fn mk(v: i64) -> Twin { Twin(v) } fn un(x: &Twin) -> i64 { x.0 } } };
impl Kind for Sref { type T = &'static str; fn mk(v: i64) -> &'static str { Box::leak(v.to_string().into_boxed_str()) } fn un(x: &&'static str) -> i64 { x.parse().unwrap() } }
impl Kind for Hop { type T = Option<i32>; fn mk(v: i64) -> Option<i32> { (v != 0).then_some(v as i32) } fn un(x: &Option<i32>) -> i64 { x.unwrap_or(0) as i64 } }
impl Kind for Arcd { type T = std::sync::Arc<Tag>; fn mk(v: i64) -> Self::T { std::sync::Arc::new(Tag(v)) } fn un(x: &Self::T) -> i64 { x.0 } }
impl Kind for Dynd { type T = Box<dyn std::any::Any + Send + Sync>; fn mk(v: i64) -> Self::T { Box::new(Tag(v)) } fn un(x: &Self::T) -> i64 { (**x).downcast_ref::<Tag>().unwrap().0 } }
impl Kind for Fnp { type T = fn(i64) -> i64; fn mk(v: i64) -> Self::T { if v % 2 == 0 { |x| x } else { |x| x + 1 } } fn un(x: &Self::T) -> i64 { x(0) } }
impl Kind for Own { type T = Value; fn mk(v: i64) -> Value { json!(v) } fn un(x: &Value) -> i64 { x.as_i64().unwrap() } }
impl Kind for Meth { type T = HeaderName; fn mk(v: i64) -> HeaderName { format!("n{v}").as_str().into() } fn un(x: &HeaderName) -> i64 { x.as_str()[1..].parse().unwrap() } }
pub struct G<const I: usize>(i64);
impl<const I: usize> Kind for Fam<I> { type T = G<I>; fn mk(v: i64) -> G<I> { G(v) } fn un(x: &G<I>) -> i64 { x.0 } }
const EXT: [&str; 32] = ["i32", "u32", "string", "tag", "unit", "boxed", "vec", "twina", "twinb", "sref", "opt", "arc", "dyn", "fn", "json", "name",
    "g0", "g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8", "g9", "g10", "g11", "g12", "g13", "g14", "g15"];
macro_rules! typed { ($t:expr, $mk:ident, $un:ident, $ty:ident, $body:expr) => { match $t {
    "i32" => { type $ty = i32; let $mk = |v: i64| v as i32; let $un = |x: &i32| *x as i64; $body }
    "u32" => { type $ty = u32; let $mk = |v: i64| v as u32; let $un = |x: &u32| *x as i64; $body }
    "string" => { type $ty = String; let $mk = |v: i64| v.to_string(); let $un = |x: &String| x.parse::<i64>().unwrap(); $body }
    "tag" => { type $ty = Tag; let $mk = Tag; let $un = |x: &Tag| x.0; $body }
    "unit" => { type $ty = (); let $mk = |_: i64| (); let $un = |_: &()| 0i64; $body }
    "boxed" => { type $ty = Box<Tag>; let $mk = |v: i64| Box::new(Tag(v)); let $un = |x: &Box<Tag>| x.0; $body }
    "vec" => { type $ty = Vec<i64>; let $mk = |v: i64| vec![v]; let $un = |x: &Vec<i64>| x[0]; $body }
    "twina" => { type $ty = <TwinA as Kind>::T; let $mk = <TwinA as Kind>::mk; let $un = <TwinA as Kind>::un; $body }
    "twinb" => { type $ty = <TwinB as Kind>::T; let $mk = <TwinB as Kind>::mk; let $un = <TwinB as Kind>::un; $body }
    "sref" => { type $ty = <Sref as Kind>::T; let $mk = <Sref as Kind>::mk; let $un = <Sref as Kind>::un; $body }
    "opt" => { type $ty = <Hop as Kind>::T; let $mk = <Hop as Kind>::mk; let $un = <Hop as Kind>::un; $body }
    "arc" => { type $ty = <Arcd as Kind>::T; let $mk = <Arcd as Kind>::mk; let $un = <Arcd as Kind>::un; $body }
    "dyn" => { type $ty = <Dynd as Kind>::T; let $mk = <Dynd as Kind>::mk; let $un = <Dynd as Kind>::un; $body }
    "fn" => { type $ty = <Fnp as Kind>::T; let $mk = <Fnp as Kind>::mk; let $un = <Fnp as Kind>::un; $body }
    "json" => { type $ty = <Own as Kind>::T; let $mk = <Own as Kind>::mk; let $un = <Own as Kind>::un; $body }
    "name" => { type $ty = <Meth as Kind>::T; let $mk = <Meth as Kind>::mk; let $un = <Meth as Kind>::un; $body }
    "g0" => { type $ty = <Fam<0> as Kind>::T; let $mk = <Fam<0> as Kind>::mk; let $un = <Fam<0> as Kind>::un; $body }
    "g1" => { type $ty = <Fam<1> as Kind>::T; let $mk = <Fam<1> as Kind>::mk; let $un = <Fam<1> as Kind>::un; $body }
    "g2" => { type $ty = <Fam<2> as Kind>::T; let $mk = <Fam<2> as Kind>::mk; let $un = <Fam<2> as Kind>::un; $body }
    "g3" => { type $ty = <Fam<3> as Kind>::T; let $mk = <Fam<3> as Kind>::mk; let $un = <Fam<3> as Kind>::un; $body }
    "g4" => { type $ty = <Fam<4> as Kind>::T; let $mk = <Fam<4> as Kind>::mk; let $un = <Fam<4> as Kind>::un; $body }
    "g5" => { type $ty = <Fam<5> as Kind>::T; let $mk = <Fam<5> as Kind>::mk; let $un = <Fam<5> as Kind>::un; $body }
    "g6" => { type $ty = <Fam<6> as Kind>::T; let $mk = <Fam<6> as Kind>::mk; let $un = <Fam<6> as Kind>::un; $body }
    "g7" => { type $ty = <Fam<7> as Kind>::T; let $mk = <Fam<7> as Kind>::mk; let $un = <Fam<7> as Kind>::un; $body }
    "g8" => { type $ty = <Fam<8> as Kind>::T; let $mk = <Fam<8> as Kind>::mk; let $un = <Fam<8> as Kind>::un; $body }
    "g9" => { type $ty = <Fam<9> as Kind>::T; let $mk = <Fam<9> as Kind>::mk; let $un = <Fam<9> as Kind>::un; $body }
    "g10" => { type $ty = <Fam<10> as Kind>::T; let $mk = <Fam<10> as Kind>::mk; let $un = <Fam<10> as Kind>::un; $body }
    "g11" => { type $ty = <Fam<11> as Kind>::T; let $mk = <Fam<11> as Kind>::mk; let $un = <Fam<11> as Kind>::un; $body }
    "g12" => { type $ty = <Fam<12> as Kind>::T; let $mk = <Fam<12> as Kind>::mk; let $un = <Fam<12> as Kind>::un; $body }
    "g13" => { type $ty = <Fam<13> as Kind>::T; let $mk = <Fam<13> as Kind>::mk; let $un = <Fam<13> as Kind>::un; $body }
    "g14" => { type $ty = <Fam<14> as Kind>::T; let $mk = <Fam<14> as Kind>::mk; let $un = <Fam<14> as Kind>::un; $body }
    "g15" => { type $ty = <Fam<15> as Kind>::T; let $mk = <Fam<15> as Kind>::mk; let $un = <Fam<15> as Kind>::un; $body }
    x => panic!("type {x}"),
} } }
impl Machine for ExtM {
    #[allow(unused_variables, clippy::clone_on_copy)]
    fn step(&mut self, o: &Value) -> Value {
        if s(o, "n") == "clear" { self.m().clear(); return unit(); }
        typed!(s(o, "t"), mk, un, T, match s(o, "n") {
            "insert" => match self.m().insert::<T>(mk(n(o, "v"))) { None => none(), Some(x) => ok(json!(un(&x))) },
            "remove" => match self.m().remove::<T>() { None => none(), Some(x) => ok(json!(un(&x))) },
            "get" => match self.c().get::<T>() { None => none(), Some(x) => ok(json!(un(x))) },
            "contains" => ok(json!(self.c().contains::<T>())),
            "mutate" => match self.m().get_mut::<T>() { None => none(), Some(x) => { let v = un(x); *x = mk(n(o, "v")); ok(json!(v)) } },
            x => panic!("op {x}"),
        })
    }
    #[allow(unused_variables)]
    fn proj(&mut self) -> Value {
        let mut m = serde_json::Map::new();
        for t in EXT {
            let v = typed!(t, mk, un, T, opt(self.c().get::<T>().map(|x| json!(un(x)))));
            m.insert(t.into(), v);
        }
        Value::Object(m)
    }
}

pub fn cookie(i: &Value) -> Value {
    use http_types::cookies::Cookie;
    let one = |k: &str| i[k].as_array().unwrap().first().map(text);
    let mut b = Cookie::build(text(&i["name"]), text(&i["value"]));
    if i["http"].as_bool().unwrap() { b = b.http_only(true); }
    if i["secure"].as_bool().unwrap() { b = b.secure(true); }
    if let Some(p) = one("path") { b = b.path(p); }
    if let Some(p) = one("domain") { b = b.domain(p); }
    let mut c = b.finish();
    if let Some(a) = one("age") { let d = std::time::Duration::from_secs(a.parse().unwrap()); c.set_max_age(Some(d.try_into().unwrap())); }
    let v = HeaderValue::from(c.clone());
    let mut r = http_types::Response::new(200);
    for o in i["old"].as_array().unwrap() { r.append_header("set-cookie", text(o).as_str()).unwrap(); }
    r.append_header("Set-Cookie", v.clone()).unwrap();
    let vs = r.header("set-cookie").unwrap();
    ok(json!({"t": cps(vs.last().as_str()), "n": vs.iter().count(), "back": Cookie::parse(v.as_str().to_string()).map_or(false, |x| x == c)}))
}
