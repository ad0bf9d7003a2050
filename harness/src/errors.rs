//! Errors.tla: what failing operations report.

use crate::rec::{self, body_of, tunables};
use crate::sys::{self, Fault};
use crate::util::*;
use barc::*;
use blocking_permit::{register_dispatch_pool, DispatchPool, Semaphore, Semaphorish};
use body_image::*;
use body_image_futio::*;
use bytes::Bytes;
use futures_core::stream::Stream;
use futures_sink::Sink;
use http::header::{HeaderMap, HeaderName, HeaderValue};
use serde_json::json;
use std::convert::TryFrom;
use std::error::Error as StdError;
use std::fmt;
use std::future::Future;
use std::io::{self, Read, Write};
use std::path::Path;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

type Failed = Box<dyn StdError>;
type Act = Box<dyn FnOnce() -> Result<(), Failed>>;

/// The error of a source or destination
#[derive(Debug)]
struct Mark(i64);

impl fmt::Display for Mark {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "mark {}", self.0)
    }
}

impl StdError for Mark {}

fn kind(k: &str) -> io::ErrorKind {
    use io::ErrorKind::*;
    [Other, ConnectionReset, TimedOut, InvalidData, UnexpectedEof, PermissionDenied, BrokenPipe, NotFound]
        .iter().copied().find(|x| format!("{:?}", x) == k)
        .unwrap_or_else(|| panic!("script: kind {}", k))
}

/// Gives or takes some bytes and then fails
struct Failing {
    data: Vec<u8>,
    pos: usize,
    step: usize,
    end: Option<(io::ErrorKind, i64)>,
}

impl Failing {
    fn fail(&self) -> io::Result<usize> {
        match self.end {
            Some((k, m)) => Err(io::Error::new(k, Mark(m))),
            None => Ok(0),
        }
    }
}

impl Read for Failing {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.step).min(self.data.len() - self.pos);
        if n == 0 && !buf.is_empty() {
            return self.fail();
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Write for Failing {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        // pos is the room left
        let n = buf.len().min(self.step).min(self.pos);
        if n == 0 && !buf.is_empty() {
            return self.fail();
        }
        self.pos -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

// --- the chain of an error ----------------------------------------------------

fn node(e: &(dyn StdError + 'static), o: &mut Json) -> &'static str {
    if let Some(e) = e.downcast_ref::<BodyError>() {
        return match e {
            BodyError::BodyTooLong(n) => {
                o["num"] = json!(n);
                "Body.TooLong"
            }
            BodyError::Io(_) => "Body.Io",
            _ => "Body.?",
        };
    }
    if let Some(e) = e.downcast_ref::<BarcError>() {
        return match e {
            BarcError::Body(_) => "Barc.Body",
            BarcError::Io(_) => "Barc.Io",
            BarcError::UnknownRecordType(b) => {
                o["num"] = json!(b);
                "Barc.UnknownRecordType"
            }
            BarcError::UnknownCompression(b) => {
                o["num"] = json!(b);
                "Barc.UnknownCompression"
            }
            BarcError::ReadIncompleteRecHead(n) => {
                o["num"] = json!(n);
                "Barc.ReadIncompleteRecHead"
            }
            BarcError::ReadInvalidRecHead => "Barc.ReadInvalidRecHead",
            BarcError::ReadInvalidRecHeadHex(b) => {
                o["num"] = json!(b);
                "Barc.ReadInvalidRecHeadHex"
            }
            BarcError::InvalidHeader(_) => "Barc.InvalidHeader",
            BarcError::IntoDialog(_) => "Barc.IntoDialog",
            _ => "Barc.?",
        };
    }
    if let Some(e) = e.downcast_ref::<DialogConvertError>() {
        use DialogConvertError::*;
        return match e {
            NoMetaUrl => "Conv.NoMetaUrl",
            InvalidUrl(_) => "Conv.InvalidUrl",
            NoMetaMethod => "Conv.NoMetaMethod",
            InvalidMethod(_) => "Conv.InvalidMethod",
            NoMetaResVersion => "Conv.NoMetaResVersion",
            InvalidVersion(v) => {
                o["val"] = json!(String::from_utf8_lossy(v));
                "Conv.InvalidVersion"
            }
            NoMetaResStatus => "Conv.NoMetaResStatus",
            MalformedMetaResStatus => "Conv.MalformedMetaResStatus",
            InvalidStatusCode(_) => "Conv.InvalidStatusCode",
            InvalidResDecoded(v) => {
                o["val"] = json!(v);
                "Conv.InvalidResDecoded"
            }
            _ => "Conv.?",
        };
    }
    if let Some(e) = e.downcast_ref::<FutioError>() {
        return match e {
            FutioError::Body(_) => "Futio.Body",
            FutioError::UnsupportedEncoding(z) => {
                o["enc"] = json!(z.to_string());
                "Futio.UnsupportedEncoding"
            }
            FutioError::OpCanceled(_) => "Futio.OpCanceled",
            FutioError::Other(_) => "Futio.Other",
            _ => "Futio.?",
        };
    }
    if let Some(e) = e.downcast_ref::<io::Error>() {
        if let Some(n) = e.raw_os_error() {
            o["errno"] = json!(n);
        }
        if let Some(m) = e.get_ref().and_then(|i| i.downcast_ref::<Mark>()) {
            o["mark"] = json!(m.0);
        }
        o["iok"] = json!(format!("{:?}", e.kind()));
        return "io";
    }
    "other"
}

fn chain(e: &(dyn StdError + 'static)) -> Json {
    let mut o = json!({"op": "fail", "r": "err", "errno": -1, "mark": -1, "iok": "", "num": -1, "enc": "", "val": ""});
    let mut names: Vec<&str> = vec![];
    let mut told = true;
    let mut at = Some(e);
    while let Some(e) = at {
        let n = node(e, &mut o);
        let msg = e.to_string();
        told &= !msg.is_empty() && !format!("{:?}", e).is_empty();
        at = e.source();
        if let (Some(s), true) = (at, n != "io" && n != "other") {
            told &= msg.contains(&s.to_string());
        }
        // An I/O error may wrap another
        if names.last() != Some(&"io") || n != "io" {
            names.push(n);
        }
    }
    o["chain"] = json!(names);
    o["told"] = json!(told);
    o["msg"] = json!(e.to_string());
    o
}

// --- operations -----------------------------------------------------------------

struct Unpark(std::thread::Thread);

impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}

fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        std::thread::park();
    }
}

fn drain<S>(mut s: S) -> Result<(), Failed>
    where S: Stream + Unpin, S::Item: Into<Result<(), Failed>>
{
    block_on(std::future::poll_fn(move |cx| loop {
        match Pin::new(&mut s).poll_next(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(None) => return Poll::Ready(Ok(())),
            Poll::Ready(Some(i)) => match i.into() {
                Ok(()) => {}
                Err(e) => return Poll::Ready(Err(e)),
            },
        }
    }))
}

struct Items<S>(S);

impl<S, B> Stream for Items<S>
    where S: Stream<Item = Result<B, io::Error>> + Unpin
{
    type Item = Result<(), Failed>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        Pin::new(&mut self.0).poll_next(cx).map(|o| o.map(|r| r.map(|_| ()).map_err(|e| e.into())))
    }
}

fn fill<S, B>(mut s: S, mut items: Vec<B>) -> Result<(), Failed>
    where S: Sink<B, Error = FutioError> + Unpin, B: Unpin
{
    items.reverse();
    block_on(std::future::poll_fn(move |cx| loop {
        let r = if items.is_empty() { Pin::new(&mut s).poll_close(cx) } else { Pin::new(&mut s).poll_ready(cx) };
        match r {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
            Poll::Ready(Ok(())) => match items.pop() {
                None => return Poll::Ready(Ok(())),
                Some(b) => {
                    if let Err(e) = Pin::new(&mut s).start_send(b) {
                        return Poll::Ready(Err(e));
                    }
                }
            },
        }
    })).map_err(|e| e.into())
}

fn streamed<B>(pol: &str, b: BodyImage, t: FutioTunables) -> Act
    where B: OutputBuf + Unpin + 'static
{
    match pol {
        "direct" => Box::new(move || drain(Items(AsyncBodyImage::<B>::new(b, t)))),
        "permit" => Box::new(move || drain(Items(PermitBodyImage::<B>::new(b, t)))),
        _ => Box::new(move || drain(Items(DispatchBodyImage::<B>::new(b, t)))),
    }
}

fn sunk<B>(pol: &str, t: FutioTunables, items: Vec<B>) -> Act
    where B: InputBuf + Unpin + 'static
{
    let b = BodySink::with_ram_buffers(2);
    match pol {
        "direct" => Box::new(move || fill(AsyncBodySink::<B>::new(b, t), items)),
        "permit" => Box::new(move || fill(PermitBodySink::<B>::new(b, t), items)),
        _ => Box::new(move || fill(DispatchBodySink::<B>::new(b, t), items)),
    }
}

fn meta() -> HeaderMap {
    let mut h = HeaderMap::new();
    for (n, v) in [(hname_meta_url(), "http://host/path"), (hname_meta_method(), "POST"),
                   (hname_meta_res_version(), "HTTP/1.1"), (hname_meta_res_status(), "200 OK")] {
        h.append(n, HeaderValue::from_static(v));
    }
    h
}

fn strategy(z: &str) -> Box<dyn CompressStrategy> {
    rec::strategy(&match z {
        "none" => json!({"k": "none"}),
        k => json!({"k": k, "min": 0, "lvl": 6, "id": false, "f": true}),
    })
}

/// All in place for an operation, which is then to be run
#[allow(deprecated)]
fn prepare(s: &Json, cause: &str, dir: &Path, sem: &'static Semaphore) -> Act {
    let c = int(s, "c") as usize;
    let data = expand(&ints(&s["v"]), c);
    let n = data.len();
    let form = text(s, "form").to_owned();
    let (max, ram) = (int(s, "max") as u64, int(s, "ram") as u64);
    let tune = tunables(ram, max, int(s, "br") as usize, int(s, "bf") as usize, dir);
    let mut ft = FutioTuner::new();
    ft.set_image(tune.clone()).set_stream_item_size(1 + c / 2);
    let pol = text(s, "pol").to_owned();
    ft.set_blocking_policy(match &pol[..] {
        "permit" => BlockingPolicy::Permit(sem),
        "dispatch" => BlockingPolicy::Dispatch,
        _ => BlockingPolicy::Direct,
    });
    let ft = ft.finish();
    let end = match cause {
        "src" | "dst" => Some((kind(text(s, "iok")), int(s, "mark"))),
        _ => None,
    };
    let at = int(s, "at") as usize;
    let path = dir.join("a.barc");
    let _ = std::fs::remove_file(&path);
    let dirb = dir.to_owned();
    let z = text(s, "z").to_owned();
    let record = |qb: BodyImage, rb: BodyImage| {
        let mut h = HeaderMap::new();
        h.append(HeaderName::from_static("x-some"), HeaderValue::from_static("value"));
        Record { rec_type: RecordType::Dialog, meta: meta(), req_headers: h.clone(), req_body: qb,
                 res_headers: h, res_body: rb }
    };
    match text(s, "what") {
        "read" => {
            let b = body_of(&form, &data, c, dir);
            Box::new(move || {
                let mut v = vec![];
                b.reader().read_to_end(&mut v)?;
                Ok(())
            })
        }
        w @ "push" | w @ "save" => {
            let mut k = BodySink::with_fs(dir).unwrap();
            let save = w == "save";
            Box::new(move || {
                for ch in data.chunks(c) {
                    if save { k.save(ch.to_vec())? } else { k.push(ch.to_vec())? }
                }
                Ok(())
            })
        }
        "back" => {
            let mut k = BodySink::with_ram_buffers(2);
            for ch in data.chunks(c) {
                k.push(ch.to_vec()).unwrap();
            }
            Box::new(move || {
                k.write_back(&dirb)?;
                k.prepare()?;
                Ok(())
            })
        }
        "fs" => Box::new(move || {
            BodySink::with_fs(&dirb)?.prepare()?;
            Ok(())
        }),
        "map" => {
            let mut b = body_of(&form, &data, c, dir);
            Box::new(move || {
                b.mem_map()?;
                Ok(())
            })
        }
        "out" => {
            let b = body_of(&form, &data, c, dir);
            let room = if cause == "dst" { at % n } else { usize::MAX };
            let mut d = Failing { data: vec![], pos: room, step: 1 + n / 3, end };
            Box::new(move || {
                b.write_to(&mut d)?;
                Ok(())
            })
        }
        "from" => {
            let est = if at % 2 == 0 { n as u64 } else { 0 };
            let data = if cause == "src" { data[..at % n].to_vec() } else { data };
            let mut d = Failing { data, pos: 0, step: 1 + n / 3, end };
            Box::new(move || {
                BodyImage::read_from(&mut d, est, &tune)?;
                Ok(())
            })
        }
        w @ "ropen" | w @ "wopen" => {
            let path = if cause == "absent" { dir.join("not/a.barc") } else { path };
            if cause != "absent" {
                std::fs::write(&path, b"").unwrap();
            }
            let bf = BarcFile::new(&path);
            let reads = w == "ropen";
            Box::new(move || {
                if reads { bf.reader()?; } else { bf.writer()?; }
                Ok(())
            })
        }
        "bwrite" => {
            let r = record(body_of(text(s, "form2"), &data, c, dir), body_of(&form, &data, c, dir));
            let bf = BarcFile::new(&path);
            Box::new(move || {
                bf.writer()?.write(&r, strategy(&z).as_ref())?;
                Ok(())
            })
        }
        "bread" => {
            let mut r = record(BodyImage::from_slice(&b"request"[..]), body_of(text(s, "form2"), &data, c, dir));
            if cause == "field" {
                let name = match text(s, "field") {
                    "url" => hname_meta_url(),
                    "method" => hname_meta_method(),
                    "version" => hname_meta_res_version(),
                    "status" => hname_meta_res_status(),
                    _ => hname_meta_res_decoded(),
                };
                r.meta.remove(&name);
                if text(s, "val") != "" {
                    r.meta.append(name, text(s, "val").parse().unwrap());
                }
            }
            let bf = BarcFile::new(&path);
            bf.writer().unwrap().write(&r, strategy(&z).as_ref()).unwrap();
            let mut f = std::fs::read(&path).unwrap();
            let byte = int(s, "byte") as u8;
            match cause {
                "type" => f[19] = byte,
                "comp" => f[20] = byte,
                "hex" | "magic" => f[at] = byte,
                "short" => f.truncate(at),
                // Bodies are last
                "cut" => {
                    let l = f.len();
                    f.truncate(l - 1 - at % n.min(5))
                }
                "header" => f[54 + at % 3] = b"\x00 (\x7f"[at % 4],
                _ => {}
            }
            std::fs::write(&path, &f).unwrap();
            let conv = cause == "field";
            let t = if cause == "cut" { tunables(10 << 20, 20 << 20, 8192, 8192, dir) } else { tune };
            Box::new(move || {
                let r = bf.reader()?.read(&t)?.expect("record");
                if conv {
                    Dialog::try_from(r).map_err(BarcError::from)?;
                }
                Ok(())
            })
        }
        "dec" => {
            let mut d = rec::encode(&z, &data, 6);
            if cause == "cut" {
                let l = d.len();
                d.truncate(l - 1 - at % 3.min(l - 1));
            }
            let name = match (cause, &z[..]) {
                ("unsup", _) => "compress",
                (_, "Gzip") => "gzip",
                (_, "Deflate") => "deflate",
                _ => "br",
            };
            let mut h = HeaderMap::new();
            h.append(http::header::CONTENT_ENCODING, HeaderValue::from_static(name));
            let mut d = Dialog::new(
                Prolog { method: http::Method::GET, url: "http://host/path".parse().unwrap(),
                         req_headers: HeaderMap::new(), req_body: BodyImage::empty() },
                Epilog { version: http::Version::HTTP_11, status: http::StatusCode::OK, res_decoded: vec![],
                         res_headers: h, res_body: body_of(&form, &d, c, dir) });
            Box::new(move || {
                decode_res_body(&mut d, &tune)?;
                Ok(())
            })
        }
        "stream" => {
            let b = body_of(&form, &data, c, dir);
            if text(s, "bt") == "uni" { streamed::<UniBodyBuf>(&pol, b, ft) } else { streamed::<Bytes>(&pol, b, ft) }
        }
        "sink" => {
            let items = data.chunks(c).map(|b| Bytes::from(b.to_vec()));
            if text(s, "bt") == "uni" {
                sunk::<UniBodyBuf>(&pol, ft, items.map(|b| b.into()).collect())
            } else {
                sunk::<Bytes>(&pol, ft, items.collect())
            }
        }
        w => panic!("script: operation {}", w),
    }
}

fn one(s: &Json, cause: &str, dir: &Path, sem: &'static Semaphore, plan: &[(usize, Fault)]) -> (Json, usize) {
    // Files are tracked from when they are opened
    sys::start(dir);
    let act = prepare(s, cause, dir, sem);
    let n0 = sys::count();
    sys::plan(&plan.iter().map(|(k, f)| (n0 + k, *f)).collect::<Vec<_>>());
    let r = guard(|| act().map_err(|e| chain(e.as_ref())));
    let n = sys::count() - n0;
    sys::stop();
    let mut e = match r {
        Ok(Ok(())) => json!({"op": "fail", "r": "ok"}),
        Ok(Err(o)) => o,
        Err(p) => return (p, n),
    };
    e["cause"] = json!(cause);
    (e, n)
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("errors");
    let dir = scratch.path();
    let sem: &'static Semaphore = Box::leak(Box::new(Semaphore::default_new(1)));
    register_dispatch_pool(DispatchPool::builder().pool_size(1).create());
    each_script(args, |s, emit| {
        let mut evs = vec![];
        match text(s, "cause") {
            "sys" => {
                let (e, n) = one(s, "none", dir, sem, &[]);
                evs.push(e);
                let step = 1 + n / 40;
                for k in (int(s, "fix") as usize % step..n).step_by(step) {
                    let no = int(s, "errno") as i32;
                    let (mut e, _) = one(s, "sys", dir, sem, &[(k, Fault::Errno(no))]);
                    e["inj"] = json!(no);
                    evs.push(e);
                }
            }
            cause => evs.push(one(s, cause, dir, sem, &[]).0),
        }
        emit(json!({"d": s, "ev": evs}));
    });
}
