//! Authentication (spec/Auth.tla).
use crate::*;
use crate::typed::{bad, with_values, written};
use http_types::auth::{AuthenticationScheme, Authorization, BasicAuth, WwwAuthenticate};
use http_types::headers::{AUTHORIZATION, WWW_AUTHENTICATE};
use serde_json::{json, Value};

fn scheme_name(x: AuthenticationScheme) -> &'static str {
    use AuthenticationScheme::*;
    match x { Basic => "Basic", Bearer => "Bearer", Digest => "Digest", Hoba => "HOBA", Mutual => "Mutual", Negotiate => "Negotiate", OAuth => "OAuth", ScramSha1 => "SCRAM-SHA-1", ScramSha256 => "SCRAM-SHA-256", Vapid => "vapid", _ => "?" }
}
fn scheme_of(x: &str) -> AuthenticationScheme {
    use AuthenticationScheme::*;
    match x { "Basic" => Basic, "Bearer" => Bearer, "Digest" => Digest, "HOBA" => Hoba, "Mutual" => Mutual, "Negotiate" => Negotiate, "OAuth" => OAuth, "SCRAM-SHA-1" => ScramSha1, "SCRAM-SHA-256" => ScramSha256, "vapid" => Vapid, x => panic!("scheme {x}") }
}
pub fn scheme(i: &Value) -> Value {
    match text(&i["t"]).parse::<AuthenticationScheme>() { Ok(x) => ok(cps(&x.to_string())), Err(e) => fail(e) }
}
pub fn authread(i: &Value) -> Value {
    match Authorization::from_headers(with_values(AUTHORIZATION, &i["vals"])) { Err(e) => fail(e), Ok(None) => none(), Ok(Some(a)) => ok(json!({"scheme": scheme_name(a.scheme()), "rest": cps(a.credentials())})) }
}
pub fn realmread(i: &Value) -> Value {
    match WwwAuthenticate::from_headers(with_values(WWW_AUTHENTICATE, &i["vals"])) { Err(e) => fail(e), Ok(None) => none(), Ok(Some(a)) => ok(json!({"scheme": scheme_name(a.scheme()), "rest": cps(a.realm())})) }
}
pub fn basicread(i: &Value) -> Value {
    match BasicAuth::from_headers(with_values(AUTHORIZATION, &i["vals"])) { Err(e) => fail(e), Ok(None) => none(), Ok(Some(a)) => ok(json!({"user": cps(a.username()), "pass": cps(a.password())})) }
}
pub fn creds(i: &Value) -> Value {
    let show = |r: http_types::Result<BasicAuth>| match r { Ok(a) => ok(json!({"user": cps(a.username()), "pass": cps(a.password())})), Err(e) => fail(e) };
    let t = text(&i["t"]);
    let (a, b) = (show(BasicAuth::from_credentials(&t)), show(BasicAuth::from_credentials(t.into_bytes())));
    if a == b { a } else { bad() }
}
fn out(w: Option<String>, back: fn(&Value) -> Value) -> Value {
    match w { None => bad(), Some(v) => ok(json!({"t": cps(&v), "back": back(&json!({"vals": [cps(&v)]}))})) }
}
pub fn authwrite(i: &Value) -> Value {
    let (sc, w) = (scheme_of(s(i, "scheme")), text(&i["w"]));
    let mut a = Authorization::new(AuthenticationScheme::Mutual, "old".into());
    a.set_scheme(sc); a.set_credentials(w.clone());
    let b = Authorization::new(sc, w.clone());
    if a.scheme() != sc || a.credentials() != w || written(&a, AUTHORIZATION) != written(&b, AUTHORIZATION) { return bad(); }
    out(written(&b, AUTHORIZATION), authread)
}
pub fn realmwrite(i: &Value) -> Value {
    let (sc, w) = (scheme_of(s(i, "scheme")), text(&i["w"]));
    let mut a = WwwAuthenticate::new(AuthenticationScheme::Mutual, "old".into());
    a.set_scheme(sc); a.set_realm(w.clone());
    let b = WwwAuthenticate::new(sc, w.clone());
    if a.scheme() != sc || a.realm() != w || written(&a, WWW_AUTHENTICATE) != written(&b, WWW_AUTHENTICATE) { return bad(); }
    out(written(&b, WWW_AUTHENTICATE), realmread)
}
pub fn basicwrite(i: &Value) -> Value {
    let (u, p) = (text(&i["u"]), text(&i["p"]));
    let b = BasicAuth::new(&u, &p);
    if b.username() != u || b.password() != p { return bad(); }
    out(written(&b, AUTHORIZATION), basicread)
}
