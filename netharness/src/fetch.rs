//! ReqRecord.tla and Fetch.tla: recording requests, and sending these to a
//! server that does as told.

use crate::rec::{bexpand, body_bytes, body_of, bproject, hdrs, proj_hdrs};
use crate::server::{Seen, Server};
use crate::util::*;
use blocking_permit::{register_dispatch_pool, DispatchPool, Semaphore};
use body_image::*;
use body_image_futio::*;
use bytes::Bytes;
use http::HeaderMap;
use serde_json::json;
use std::path::Path;
use std::time::Duration;

const METHODS: [&str; 6] = ["GET", "POST", "PUT", "HEAD", "DELETE", "X-OWN"];
const TARGETS: [&str; 6] =
    ["/", "/path?query=1&b=%20", "/p;a=b/@:!$", "/a//b/../c?", "/?", "/long/0123456789/%C3%A4?a=/&b=?&c"];

fn at(t: &[&str], v: &str) -> i64 {
    t.iter().position(|x| *x == v).map(|i| i as i64).unwrap_or(-9)
}

fn url_ix(u: &http::Uri, base: &str) -> i64 {
    u.to_string().strip_prefix(base).map(|t| at(&TARGETS, t)).unwrap_or(-9)
}

fn builder(q: &Json, base: &str) -> http::request::Builder {
    let (m, u) = (int(q, "m"), int(q, "u"));
    let mut b = http::Request::builder();
    b = if m < 0 { b.method("not a method") } else { b.method(METHODS[m as usize]) };
    b = if u < 0 { b.uri("http://not a uri") } else { b.uri(format!("{}{}", base, TARGETS[u as usize])) };
    for (n, v) in hdrs(&q["hv"]).iter() {
        b = b.header(n, v);
    }
    if text(q, "h") == "bad" {
        b = b.header("bad name", "value");
    }
    b
}

fn cells(b: &BodyImage, c: usize) -> Vec<i64> {
    body_bytes(b).map(|b| bproject(&b, c)).unwrap_or(vec![-2])
}

/// Headers without those by which the message is framed
fn plain(h: &HeaderMap) -> HeaderMap {
    let mut h = h.clone();
    for n in &["host", "content-length", "transfer-encoding", "connection"] {
        h.remove(*n);
    }
    h
}

pub fn sem() -> &'static Semaphore {
    static S: std::sync::OnceLock<Semaphore> = std::sync::OnceLock::new();
    S.get_or_init(|| Semaphore::new(1))
}

fn policy(p: &str) -> BlockingPolicy {
    match p {
        "permit" => BlockingPolicy::Permit(sem()),
        "dispatch" => BlockingPolicy::Dispatch,
        _ => BlockingPolicy::Direct,
    }
}

fn kind(e: &FutioError) -> &'static str {
    match e {
        FutioError::ResponseTimeout(_) => "restime",
        FutioError::BodyTimeout(_) => "bodytime",
        FutioError::ContentLengthTooLong(_) => "cltoolong",
        FutioError::Body(BodyError::BodyTooLong(_)) => "toolong",
        FutioError::Hyper(_) => "http",
        _ => "other",
    }
}

struct Ctx<'a> {
    s: &'a Json,
    base: String,
    dir: &'a Path,
    rt: &'a tokio::runtime::Runtime,
}

fn record<B>(x: &Ctx<'_>) -> Result<RequestRecord<B>, http::Error>
where
    http::request::Builder: RequestRecorder<B>,
    B: http_body::Body + Send,
{
    let q = &x.s["q"];
    let c = int(q, "c") as usize;
    let b = bexpand(&ints(&q["v"]), c);
    let rb = builder(q, &x.base);
    match text(q, "bk") {
        "none" => rb.record(),
        "bytes" => rb.record_body(b),
        _ => {
            let mut t = FutioTuner::new();
            t.set_stream_item_size(int(q, "item") as usize);
            t.set_blocking_policy(policy(text(q, "ty")));
            let mut it = Tuner::new();
            it.set_buffer_size_fs(int(q, "item") as usize);
            t.set_image(it.finish());
            rb.record_body_image(body_of(text(q, "f"), &b, 1 + b.len() / 3, x.dir), t.finish())
        }
    }
}

fn length(e: &FutioError) -> u64 {
    match *e {
        FutioError::ContentLengthTooLong(l) | FutioError::Body(BodyError::BodyTooLong(l)) => l,
        _ => 0,
    }
}

fn millis(e: &FutioError) -> u64 {
    match *e {
        FutioError::ResponseTimeout(d) | FutioError::BodyTimeout(d) => d.as_millis() as u64,
        _ => 0,
    }
}

fn exchange<B>(x: &Ctx<'_>) -> Json
where
    http::request::Builder: RequestRecorder<B>,
    B: http_body::Body + Send + 'static,
    B::Data: Send + Unpin,
    B::Error: Into<Box<dyn std::error::Error + Send + Sync>>,
{
    let (q, p, t) = (&x.s["q"], &x.s["p"], &x.s["t"]);
    let c = int(q, "c") as usize;
    let rr = match record::<B>(x) {
        Ok(r) => r,
        Err(_) => return json!({"op": "fetch", "r": "refused"}),
    };
    let rec = json!({"m": at(&METHODS, rr.method().as_str()), "u": url_ix(rr.url(), &x.base),
                     "h": proj_hdrs(rr.req_headers()), "b": cells(rr.req_body(), c)});
    let r = rr.request();
    let out = json!({"m": at(&METHODS, r.method().as_str()), "u": url_ix(r.uri(), &x.base),
                     "h": proj_hdrs(r.headers())});
    let mut it = Tuner::new();
    // 2^30 stands for the largest limit
    let limit = |k: &str| match int(t, k) {
        0x4000_0000 => u64::MAX,
        n => n as u64,
    };
    it.set_max_body(limit("max")).set_max_body_ram(limit("ram"));
    let none = x.dir.join("none");
    it.set_temp_dir(if flag(t, "nodir") { &none } else { x.dir });
    let mut ft = FutioTuner::new();
    ft.set_image(it.finish()).set_blocking_policy(policy(text(t, "pol")));
    match int(t, "set") {
        0 => {
            ft.unset_res_timeout().unset_body_timeout();
        }
        1 => {}
        _ => {
            ft.set_res_timeout(Duration::from_secs(50)).set_body_timeout(Duration::from_secs(50));
        }
    }
    let (rt, bt) = (int(t, "res") as u64, int(t, "body") as u64);
    if bt > 0 {
        ft.unset_res_timeout().set_body_timeout(Duration::from_millis(bt));
    }
    if rt > 0 {
        ft.set_res_timeout(Duration::from_millis(rt));
    }
    let tune = ft.finish();
    let dispatch = text(t, "pol") == "dispatch" || text(q, "ty") == "dispatch";
    let res = if text(t, "via") == "fetch" && !dispatch {
        fetch(rr, tune)
    } else {
        let client = hyper::Client::builder().build::<_, B>(hyper::client::HttpConnector::new());
        let f = {
            let _g = x.rt.enter();
            request_dialog(&client, rr, tune)
        };
        match x.rt.block_on(x.rt.spawn(f)) {
            Ok(r) => r,
            Err(e) => return json!({"op": "panic", "msg": e.to_string()}),
        }
    };
    match res {
        Err(e) => json!({"op": "fetch", "r": "err", "kind": kind(&e), "ms": millis(&e), "len": length(&e), "rec": rec, "out": out, "msg": e.to_string()}),
        Ok(d) => {
            let pc = int(p, "c") as usize;
            let h = d.res_headers();
            let n = ints(&p["v"]).len() * pc;
            let fr = match (h.get("content-length"), h.get("transfer-encoding")) {
                (Some(l), None) if l.as_bytes() == n.to_string().as_bytes() => "cl",
                (None, Some(e)) if e.as_bytes() == b"chunked" => "chunked",
                (None, None) if ["close", "none"].contains(&text(p, "fr")) => text(p, "fr"),
                _ => "?",
            };
            json!({"op": "fetch", "r": "ok", "rec": rec, "out": out, "dlg": {
                "q": {"m": at(&METHODS, d.method().as_str()), "u": url_ix(d.url(), &x.base),
                      "h": proj_hdrs(d.req_headers()), "b": cells(d.req_body(), c)},
                "status": d.res_status().as_u16(), "ver": format!("{:?}", d.res_version()),
                "h": proj_hdrs(&plain(h)), "fr": fr, "b": cells(d.res_body(), pc),
                "mem": d.res_body().is_ram(),
                "dec": d.res_decoded().iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>()}})
        }
    }
}

fn one(s: &Json, dir: &Path, rt: &tokio::runtime::Runtime) -> Json {
    let srv = Server::start(&s["p"], None);
    let x = Ctx { s, base: format!("http://127.0.0.1:{}", srv.port), dir, rt };
    let q = &s["q"];
    let mut e = guard(|| match (text(q, "ty"), text(q, "bt")) {
        ("hyper", _) => exchange::<hyper::Body>(&x),
        ("direct", "bytes") => exchange::<AsyncBodyImage<Bytes>>(&x),
        ("direct", _) => exchange::<AsyncBodyImage<UniBodyBuf>>(&x),
        ("permit", "bytes") => exchange::<PermitBodyImage<Bytes>>(&x),
        ("permit", _) => exchange::<PermitBodyImage<UniBodyBuf>>(&x),
        ("dispatch", "bytes") => exchange::<DispatchBodyImage<Bytes>>(&x),
        ("dispatch", _) => exchange::<DispatchBodyImage<UniBodyBuf>>(&x),
        (t, _) => panic!("script: type {}", t),
    })
    .unwrap_or_else(|p| p);
    let seen = srv.finish();
    let c = int(q, "c") as usize;
    let view = |r: &Seen| json!({"m": at(&METHODS, &r.method), "u": at(&TARGETS, &r.target),
                                 "h": proj_hdrs(&plain(&r.headers)), "b": bproject(&r.body, c)});
    e["srv"] = if seen.len() == 1 { view(&seen[0]) } else { json!(seen.len()) };
    json!({"q": q, "p": s["p"], "t": s["t"], "ev": [e]})
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("fetch");
    let pool = DispatchPool::builder().pool_size(2).create();
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(2)
        .enable_io()
        .enable_time()
        .on_thread_start(move || {
            register_dispatch_pool(pool.clone());
        })
        .build()
        .unwrap();
    each_script(args, |s, emit| emit(one(s, scratch.path(), &rt)));
}
