//! Bodies backed by files (spec/File.tla).
use crate::*;
use crate::typed::bad;
use futures_lite::future::block_on;
use futures_lite::{AsyncReadExt, AsyncSeekExt};
use http_types::mime::Mime;
use http_types::{Body, Method, Request, Response, StatusCode, Url};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicUsize, Ordering};

static N: AtomicUsize = AtomicUsize::new(0);
/// A scratch directory of its own, removed with the case.
struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Self {
        let d = std::env::temp_dir().join(format!("mbv-file-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn content(i: &Value) -> Vec<u8> {
    let mut b = bytes(&i["head"]);
    b.resize(b.len() + n(i, "n") as usize, b'x');
    b
}
fn canon(mut b: Vec<u8>) -> Value {
    let all = b.len();
    while b.last() == Some(&b'x') { b.pop(); }
    json!({"head": bvals(&b), "n": all - b.len()})
}
async fn drain(mut r: impl futures_lite::AsyncRead + Unpin, chunk: usize) -> std::io::Result<Vec<u8>> {
    let mut out = vec![];
    if chunk == 0 { r.read_to_end(&mut out).await?; return Ok(out); }
    let mut buf = vec![0; chunk];
    loop {
        let k = r.read(&mut buf).await?;
        if k == 0 { return Ok(out); }
        out.extend_from_slice(&buf[..k]);
    }
}
pub fn file(i: &Value) -> Value {
    let dir = Scratch::new();
    let path = text(&i["path"]);
    let api = s(i, "api");
    let on_disk = dir.0.join(if api == "path" { path.as_str() } else { "file" });
    std::fs::write(&on_disk, content(i)).unwrap();
    block_on(async {
        let body = if api == "path" { Body::from_path(&on_disk).await } else {
            let mut f = async_std::fs::File::open(&on_disk).await.unwrap();
            f.seek(std::io::SeekFrom::Start(n(i, "pos") as u64)).await.unwrap();
            if api == "file" { Body::from_file(f).await } else { Body::from_file_with_path(f, std::path::Path::new(&path)).await }
        };
        let body = match body { Err(_) => return err(0), Ok(b) => b };
        let chunk = n(i, "chunk") as usize;
        let t = body.mime().map(|m| m.to_string()).unwrap_or_default();
        let len = body.len();
        if body.is_empty() != len.map(|l| l == 0) { return bad(); }
        let data = match s(i, "via") {
            "body" => drain(body, chunk).await,
            "req" => { let mut q = Request::new(Method::Put, Url::parse("http://a/").unwrap()); q.set_body(body); if q.content_type().map(|m| m.to_string()) != Some(t.clone()) || q.len() != len { return bad(); } drain(q, chunk).await }
            _ => { let mut q = Response::new(StatusCode::Ok); q.set_body(body); if q.content_type().map(|m| m.to_string()) != Some(t.clone()) || q.len() != len { return bad(); } drain(q, chunk).await }
        };
        match data { Err(_) => bad(), Ok(d) => ok(json!({"t": cps(&t), "len": len.map_or(json!(-1), |l| json!(l)), "data": canon(d)})) }
    })
}
/// A sparse file: `head`, then nothing but zeros up to g * 2^20 + k bytes.
pub fn sparse(i: &Value) -> Value {
    let dir = Scratch::new();
    let p = dir.0.join(text(&i["path"]));
    let size = ((n(i, "g") as u64) << 20) + n(i, "k") as u64;
    std::fs::write(&p, bytes(&i["head"])).unwrap();
    std::fs::OpenOptions::new().write(true).open(&p).unwrap().set_len(size).unwrap();
    block_on(async {
        let mut b = match Body::from_path(&p).await { Ok(b) => b, Err(_) => return err(0) };
        let t = b.mime().map(|m| m.to_string()).unwrap_or_default();
        let mut buf = vec![0; i["head"].as_array().unwrap().len()];
        if b.read_exact(&mut buf).await.is_err() { return bad(); }
        match b.len() { None => bad(), Some(l) => ok(json!({"t": cps(&t), "g": l >> 20, "k": l % (1 << 20), "data": bvals(&buf)})) }
    })
}
pub fn nofile(i: &Value) -> Value {
    let dir = Scratch::new();
    match block_on(Body::from_path(dir.0.join(text(&i["path"])))) { Err(e) if e.kind() == std::io::ErrorKind::NotFound => err(0), _ => bad() }
}
fn mime(r: http_types::Result<Mime>) -> Value { match r { Err(e) => fail(e), Ok(m) => ok(cps(&m.to_string())) } }
pub fn sniff(i: &Value) -> Value { mime(Mime::sniff(&content(i))) }
pub fn sniffany(i: &Value) -> Value { mime(Mime::sniff(&bytes(&i["b"]))) }
pub fn ext(i: &Value) -> Value { match Mime::from_extension(text(&i["e"])) { None => none(), Some(m) => ok(cps(&m.to_string())) } }
