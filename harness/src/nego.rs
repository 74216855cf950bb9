//! Content negotiation (spec/Nego.tla).
use crate::*;
use http_types::content::{self, Accept, AcceptEncoding, MediaTypeProposal};
use http_types::headers::{Header, HeaderValue, ACCEPT, ACCEPT_ENCODING, TE as TE_NAME};
use http_types::mime::Mime;
use http_types::transfer;
use serde_json::{json, Value};

pub enum N { A(Accept), E(AcceptEncoding), T(transfer::TE) }
pub struct NegoM { n: N }
pub fn cenc(t: &str) -> content::Encoding { use content::Encoding::*; match t { "gzip" => Gzip, "deflate" => Deflate, "br" => Brotli, "zstd" => Zstd, "identity" => Identity, x => panic!("coding {x}") } }
pub fn tenc(t: &str) -> transfer::Encoding { use transfer::Encoding::*; match t { "gzip" => Gzip, "deflate" => Deflate, "br" => Brotli, "zstd" => Zstd, "identity" => Identity, "chunked" => Chunked, x => panic!("coding {x}") } }
fn w3(w: Option<f32>) -> Value { opt(w.map(|w| json!((w as f64 * 1000.0).round() as i64))) }
impl NegoM {
    pub fn new(i: &Value) -> Self {
        NegoM { n: match s(i, "kind") { "accept" => N::A(Accept::new()), "ae" => N::E(AcceptEncoding::new()), _ => N::T(transfer::TE::new()) } }
    }
}
fn single(h: &http_types::Response, name: &http_types::headers::HeaderName, v: &HeaderValue, hn: http_types::headers::HeaderName) -> bool {
    &hn == name && h.header(name).map(|x| x.iter().count() == 1 && x.last() == v).unwrap_or(false)
}
impl Machine for NegoM {
    fn step(&mut self, o: &Value) -> Value {
        match s(o, "n") {
            "push" => {
                let (t, bare) = (text(&o["t"]), o["bare"].as_bool().unwrap());
                let w = o["w"].as_array().unwrap().first().map(|w| (w.as_i64().unwrap() as f64 / 1000.0) as f32);
                match &mut self.n {
                    N::A(a) => { let m: Mime = t.parse().unwrap(); if bare { a.push(m) } else { a.push(MediaTypeProposal::new(m, w).unwrap()) } }
                    N::E(a) => if bare { a.push(cenc(&t)) } else { a.push(content::EncodingProposal::new(cenc(&t), w).unwrap()) },
                    N::T(a) => if bare { a.push(tenc(&t)) } else { a.push(transfer::EncodingProposal::new(tenc(&t), w).unwrap()) },
                }
                unit()
            }
            // change an entry in place: the whole of it, or what it proposes and not its weight
            "edit" => {
                let (i, t) = (o["i"].as_u64().unwrap() as usize - 1, text(&o["t"]));
                let w = o["w"].as_array().unwrap().first().map(|w| (w.as_i64().unwrap() as f64 / 1000.0) as f32);
                macro_rules! ed { ($a:expr, $x:expr, $p:expr) => {{ let e = if i % 2 == 0 { $a.iter_mut().nth(i).unwrap() } else { (&mut *$a).into_iter().nth(i).unwrap() }; if o["whole"].as_bool().unwrap() { *e = $p($x, w).unwrap() } else { **e = $x } }} }
                match &mut self.n {
                    N::A(a) => ed!(a, t.parse::<Mime>().unwrap(), MediaTypeProposal::new),
                    N::E(a) => ed!(a, cenc(&t), content::EncodingProposal::new),
                    N::T(a) => ed!(a, tenc(&t), transfer::EncodingProposal::new),
                }
                unit()
            }
            "cmp" => {
                let (i, j) = (o["i"].as_u64().unwrap() as usize - 1, o["j"].as_u64().unwrap() as usize - 1);
                macro_rules! cmp { ($a:expr) => {{ let v: Vec<_> = $a.iter().collect(); v[i].partial_cmp(v[j]) }} }
                match match &self.n { N::A(a) => cmp!(a), N::E(a) => cmp!(a), N::T(a) => cmp!(a) } { None => none(), Some(x) => ok(json!(format!("{x:?}"))) }
            }
            // an entry as a header value of its own
            "one" => {
                let i = o["i"].as_u64().unwrap() as usize - 1;
                let v: HeaderValue = match &self.n { N::A(a) => a.iter().nth(i).unwrap().clone().into(), N::E(a) => (*a.iter().nth(i).unwrap()).into(), N::T(a) => (*a.iter().nth(i).unwrap()).into() };
                ok(cps(v.as_str()))
            }
            "badweight" => {
                let w: f32 = match s(o, "w") { "nan" => f32::NAN, "inf" => f32::INFINITY, "neg" => -0.001, "big" => 1.001, "negzero" => -0.0, _ => -1.0 };
                let b = match &self.n {
                    N::A(_) => MediaTypeProposal::new(http_types::mime::HTML, Some(w)).is_err(),
                    N::E(_) => content::EncodingProposal::new(content::Encoding::Gzip, Some(w)).is_err(),
                    N::T(_) => transfer::EncodingProposal::new(transfer::Encoding::Gzip, Some(w)).is_err(),
                };
                if b { err(0) } else { unit() }
            }
            "wild" => { let c = o["c"].as_bool().unwrap(); match &mut self.n { N::A(a) => a.set_wildcard(c), N::E(a) => a.set_wildcard(c), N::T(a) => a.set_wildcard(c) } unit() }
            "sort" => { match &mut self.n { N::A(a) => a.sort(), N::E(a) => a.sort(), N::T(a) => a.sort() } unit() }
            "nego" => {
                let av: Vec<String> = o["av"].as_array().unwrap().iter().map(text).collect();
                let go = |n: &mut N| match n {
                    N::A(a) => { let av: Vec<Mime> = av.iter().map(|x| x.parse().unwrap()).collect(); match a.negotiate(&av) { Ok(c) => ok(cps(c.header_value().as_str())), Err(e) => fail(e) } }
                    N::E(a) => { let av: Vec<_> = av.iter().map(|x| cenc(x)).collect(); match a.negotiate(&av) { Ok(c) => ok(cps(c.header_value().as_str())), Err(e) => fail(e) } }
                    N::T(a) => { let av: Vec<_> = av.iter().map(|x| tenc(x)).collect(); match a.negotiate(&av) { Ok(c) => ok(cps(c.header_value().as_str())), Err(e) => fail(e) } }
                };
                let (a, b, c) = (go(&mut self.n), go(&mut self.n), go(&mut self.n));
                if a != b || b != c { json!({"k":"unstable"}) } else { a }
            }
            "wire" => {
                let k = seed(&json!(match &self.n { N::A(a) => a.header_value(), N::E(a) => a.header_value(), N::T(a) => a.header_value() }.as_str()));
                let mut h = any_response(k);
                let name = match &self.n { N::A(_) => ACCEPT, N::E(_) => ACCEPT_ENCODING, N::T(_) => TE_NAME };
                surround(h.as_mut(), k, &[]);
                let before = others(h.as_ref(), name.as_str());
                let good = match &mut self.n {
                    N::A(a) => { a.apply_header(&mut h); let g = single(&h, &ACCEPT, &a.header_value(), a.header_name()); *a = Accept::from_headers(&h).unwrap().unwrap(); g }
                    N::E(a) => { a.apply_header(&mut h); let g = single(&h, &ACCEPT_ENCODING, &a.header_value(), a.header_name()); *a = AcceptEncoding::from_headers(&h).unwrap().unwrap(); g }
                    N::T(a) => { a.apply_header(&mut h); let g = single(&h, &TE_NAME, &a.header_value(), a.header_name()); *a = transfer::TE::from_headers(&h).unwrap().unwrap(); g }
                };
                if good && before == others(h.as_ref(), name.as_str()) { unit() } else { json!({"k":"badheader"}) }
            }
            "read" => {
                let mut h = any_response(seed(&o["vals"]));
                let name = match &self.n { N::A(_) => ACCEPT, N::E(_) => ACCEPT_ENCODING, N::T(_) => TE_NAME };
                for v in o["vals"].as_array().unwrap() { h.append_header(&name, text(v).as_str()); }
                surround(h.as_mut(), seed(&o["vals"]), &[name.as_str()]);
                macro_rules! rd { ($a:expr, $t:ty) => { match <$t>::from_headers(&h) { Err(e) => fail(e), Ok(None) => none(), Ok(Some(x)) => { *$a = x; unit() } } } }
                match &mut self.n { N::A(a) => rd!(a, Accept), N::E(a) => rd!(a, AcceptEncoding), N::T(a) => rd!(a, transfer::TE) }
            }
            x => panic!("op {x}"),
        }
    }
    fn proj(&mut self) -> Value {
        // look at the entries in every way, then rebuild the list from them
        macro_rules! look { ($a:ident, $t:ty, $show:expr) => {{
            let old = std::mem::replace($a, <$t>::new());
            let wild = old.wildcard();
            let text = format!("{old:?}");
            match views!(old, $show) {
                None => return json!("views disagree"),
                Some((es, items)) => {
                    for e in items { $a.push(e); }
                    $a.set_wildcard(wild);
                    if text != format!("{:?}", $a) { return json!("not rebuilt"); }
                    (wild, es)
                }
            }
        }} }
        let (w, es): (bool, Vec<Value>) = match &mut self.n {
            N::A(a) => look!(a, Accept, |e: &MediaTypeProposal| { let m: Mime = (*e.media_type()).clone(); if e != m || *e != m || e.essence() != m.essence() || Mime::from(e.clone()) != m { return json!("proposal"); } json!({"x": cps(&m.to_string()), "w": w3(e.weight())}) }),
            N::E(a) => look!(a, AcceptEncoding, |e: &content::EncodingProposal| { let m = *e.encoding(); if e != m || *e != m || **e != m || content::ContentEncoding::from(e) != m || content::ContentEncoding::from(*e) != &m { return json!("proposal"); } json!({"x": cps(&m.to_string()), "w": w3(e.weight())}) }),
            N::T(a) => look!(a, transfer::TE, |e: &transfer::EncodingProposal| { let m = *e.encoding(); if e != m || *e != m || **e != m || transfer::TransferEncoding::from(e) != m || transfer::TransferEncoding::from(*e) != &m { return json!("proposal"); } json!({"x": cps(&m.to_string()), "w": w3(e.weight())}) }),
        };
        json!({"wild": w, "es": es})
    }
}
