//! URL-valued headers (spec/Location.tla).
use crate::*;
use crate::typed::{bad, with_values, written};
use http_types::content::ContentLocation;
use http_types::headers as hn;
use http_types::other::{Referer, SourceMap};
use http_types::{Request, Response, Url};
use serde_json::{json, Value};

macro_rules! with {
    ($h:expr, $t:ident, $name:ident, $body:expr) => {
        match $h {
            "referer" => { type $t = Referer; let $name = hn::REFERER; $body }
            "sourcemap" => { type $t = SourceMap; let $name = hn::SOURCE_MAP; $body }
            _ => { type $t = ContentLocation; let $name = hn::CONTENT_LOCATION; $body }
        }
    };
}
pub fn locread(i: &Value) -> Value {
    let base = text(&i["base"]);
    with!(s(i, "h"), T, name, {
        let show = |r: http_types::Result<Option<T>>| match r { Err(e) => fail(e), Ok(None) => none(), Ok(Some(t)) => ok(cps(t.location().as_str())) };
        let h = with_values(name.clone(), &i["vals"]);
        let k = seed(i);
        let mut req = any_request(Url::parse("http://other/").unwrap(), k);
        let mut res = any_response(k);
        surround(req.as_mut(), k, &[name.as_str()]); surround(res.as_mut(), k / 2, &[name.as_str()]);
        for v in h.header(&name).into_iter().flat_map(|v| v.iter()) { req.append_header(&name, v.clone()); res.append_header(&name, v.clone()); }
        let a = show(T::from_headers(base.as_str(), &h));
        if let Ok(u) = Url::parse(&base) {
            if a != show(T::from_headers(u.clone(), &req)) || a != show(T::from_headers(u, &res)) { return bad(); }
        }
        a
    })
}
pub fn locwrite(i: &Value) -> Value {
    let u = match Url::parse(&text(&i["url"])) { Ok(u) => u, Err(_) => return json!({"k": "none"}) };
    with!(s(i, "h"), T, name, {
        let a = T::new(u.clone());
        let mut b = T::new(Url::parse("http://before/x").unwrap());
        let _ = b.set_location(u.clone());
        if a.location() != &u || b.location() != &u { return bad(); }
        match (written(&a, name.clone()), written(&b, name)) {
            (Some(v), Some(w)) if v == w => ok(json!({"v": cps(&v), "back": locread(&json!({"h": i["h"], "vals": [cps(&v)], "base": i["base"]}))})),
            _ => bad(),
        }
    })
}
