//! System.tla: bodies, dialogs and archives, and all that takes content
//! from one to another.

use crate::rec::*;
use crate::util::*;
use barc::{BarcFile, BarcReader, Record, RecordType};
use blocking_permit::{register_dispatch_pool, DispatchPool, Semaphore, Semaphorish, Splittable};
use body_image::{BodyImage, BodySink, Dialog, Epilog, ExplodedImage, Prolog, Recorded, RequestRecorded, Tunables};
use body_image_futio::*;
use bytes::Bytes;
use futures_core::stream::Stream;
use futures_sink::Sink;
use http::header::{HeaderMap, HeaderName, HeaderValue, CONTENT_ENCODING};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::convert::{TryFrom, TryInto};
use std::future::Future;
use std::io::{self, Write};
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

fn no<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}

struct Unpark(std::thread::Thread);

impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}

fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        std::thread::park();
    }
}

type Items<B> = Pin<Box<dyn Stream<Item = Result<B, io::Error>>>>;

fn stream_of<B>(kind: &str, b: BodyImage, t: FutioTunables) -> Items<B>
    where B: OutputBuf + Splittable + Unpin + 'static
{
    match kind {
        "direct" => Box::pin(AsyncBodyImage::<B>::new(b, t)),
        "split" => Box::pin(<SplitBodyImage<B> as StreamWrapper>::new(b, t)),
        "yield" => Box::pin(<YieldBodyImage<B> as StreamWrapper>::new(b, t)),
        "permit" => Box::pin(PermitBodyImage::<B>::new(b, t)),
        "dispatch" => Box::pin(DispatchBodyImage::<B>::new(b, t)),
        k => panic!("script: stream {}", k),
    }
}

/// All items of the streams, in turn, to the sink
fn pump<B, K>(mut from: Vec<Items<B>>, mut k: K) -> Result<BodySink, String>
    where K: SinkWrapper<B> + Sink<B, Error = FutioError> + Unpin
{
    for s in &mut from {
        while let Some(i) = block_on(std::future::poll_fn(|cx| s.as_mut().poll_next(cx))) {
            let i = i.map_err(no)?;
            block_on(std::future::poll_fn(|cx| Pin::new(&mut k).poll_ready(cx))).map_err(no)?;
            Pin::new(&mut k).start_send(i).map_err(no)?;
        }
    }
    block_on(std::future::poll_fn(|cx| Pin::new(&mut k).poll_close(cx))).map_err(no)?;
    Ok(k.into_inner())
}

fn sink_to<B>(from: Vec<Items<B>>, kind: &str, b: BodySink, t: FutioTunables) -> Result<BodySink, String>
    where B: InputBuf + Unpin + 'static
{
    match kind {
        "direct" => pump(from, <AsyncBodySink<B> as SinkWrapper<B>>::new(b, t)),
        "permit" => pump(from, <PermitBodySink<B> as SinkWrapper<B>>::new(b, t)),
        "dispatch" => pump(from, <DispatchBodySink<B> as SinkWrapper<B>>::new(b, t)),
        k => panic!("script: sink {}", k),
    }
}

const METHODS: [&str; 5] = ["GET", "POST", "PUT", "DELETE", "X-OTHER"];
const URLS: [&str; 4] = ["http://host/", "https://host.example:8080/a/b?q=1&r=%20x", "/path", "http://u:p@host/x;y=z"];
const STATUS: [u16; 5] = [200, 204, 404, 500, 599];

fn version(n: i64) -> http::Version {
    use http::Version;
    [Version::HTTP_09, Version::HTTP_10, Version::HTTP_11, Version::HTTP_2, Version::HTTP_3][(n / 100 % 5) as usize]
}

fn ce_name(z: &str) -> &'static str {
    match z {
        "Gzip" => "gzip",
        "Deflate" => "deflate",
        "Brotli" => "br",
        _ => panic!("script: encoding {}", z),
    }
}

fn hdrs_json(m: &HeaderMap) -> Json {
    json!(m.iter().map(|(n, v)| json!([n.as_str(), v.as_bytes()])).collect::<Vec<_>>())
}

fn hdrs_from(v: &Json) -> HeaderMap {
    let mut m = HeaderMap::new();
    for h in v.as_array().unwrap() {
        let v: Vec<u8> = ints(&h[1]).iter().map(|b| *b as u8).collect();
        m.append(HeaderName::from_bytes(h[0].as_str().unwrap().as_bytes()).unwrap(), HeaderValue::from_bytes(&v).unwrap());
    }
    m
}

/// All of a record, for another process
fn rec_json(r: &Record) -> Result<Json, String> {
    Ok(json!({"m": hdrs_json(&r.meta), "qh": hdrs_json(&r.req_headers), "rh": hdrs_json(&r.res_headers),
              "q": body_bytes(&r.req_body)?, "s": body_bytes(&r.res_body)?}))
}

fn rec_from(v: &Json) -> Record {
    let body = |k: &str| BodyImage::from_slice(ints(&v[k]).iter().map(|b| *b as u8).collect::<Vec<u8>>());
    Record {
        rec_type: RecordType::Dialog,
        meta: hdrs_from(&v["m"]),
        req_headers: hdrs_from(&v["qh"]),
        req_body: body("q"),
        res_headers: hdrs_from(&v["rh"]),
        res_body: body("s"),
    }
}

/// Write the record given as input to an archive
#[allow(dead_code)]
pub fn put(args: &[String]) {
    let v: Json = serde_json::from_reader(io::stdin()).expect("script: record");
    let z: Json = serde_json::from_str(&args[1]).expect("script: strategy");
    let off = BarcFile::new(&args[0]).writer().and_then(|mut w| w.write(&rec_from(&v), strategy(&z).as_ref()));
    println!("{}", match off {
        Ok(o) => json!({ "off": o }),
        Err(e) => json!({"err": e.to_string()}),
    });
}

/// All records of an archive, with their offsets
#[allow(dead_code)]
pub fn list(args: &[String]) {
    let mut r = BarcFile::new(&args[0]).reader().expect("archive");
    let t = Tunables::default();
    let mut got = vec![];
    let mut err = json!("");
    loop {
        let off = r.offset();
        match r.read(&t) {
            Ok(Some(rec)) => match rec_json(&rec) {
                Ok(v) => got.push(json!({"off": off, "r": v})),
                Err(e) => {
                    err = json!(e);
                    break;
                }
            },
            Ok(None) => break,
            Err(e) => {
                err = json!(e.to_string());
                break;
            }
        }
    }
    println!("{}", json!({"got": got, "err": err}));
}

/// Run the program, with what is to be its input
fn ran(exe: &Path, args: &[&str], inp: &str) -> (i64, Vec<u8>) {
    let mut c = Command::new(exe).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null())
        .spawn().expect("script: program");
    c.stdin.take().unwrap().write_all(inp.as_bytes()).ok();
    let o = c.wait_with_output().unwrap();
    beat();
    (o.status.code().map_or(-1, |c| c.into()), o.stdout)
}

struct Arch {
    path: PathBuf,
    file: BarcFile,
    reader: Option<BarcReader>,
    offs: Vec<u64>,
    // By number of the dialog, as started
    ns: Vec<i64>,
}

struct Run<'a> {
    c: usize,
    tmp: &'a Path,
    sem: &'static Semaphore,
    bodies: BTreeMap<i64, BodyImage>,
    dialogs: BTreeMap<i64, (Dialog, i64)>,
    arcs: Vec<Arch>,
    // Encoded, with what they are
    known: HashMap<Vec<u8>, Json>,
    // Another build, to share archives with
    other: PathBuf,
}

impl<'a> Run<'a> {
    fn tune(&self, o: &Json) -> Tunables {
        let l = &o["l"];
        tunables(int(l, "mr") as u64, 1 << 24, int(l, "br") as usize, int(l, "bf") as usize, self.tmp)
    }

    fn term(&self, b: &BodyImage) -> Json {
        match body_bytes(b) {
            Err(e) => json!({"e": ["?"], "v": [e]}),
            Ok(b) => match self.known.get(&b) {
                Some(t) => t.clone(),
                None => json!({"e": [], "v": bproject(&b, self.c)}),
            },
        }
    }

    fn dterm(&self, d: &Dialog, n: i64) -> Json {
        let m = METHODS[(n % 5) as usize];
        let u: http::Uri = URLS[(n / 5 % 4) as usize].parse().unwrap();
        let same = d.method().as_str() == m && *d.url() == u && d.res_version() == version(n)
            && d.res_status().as_u16() == STATUS[(n / 20 % 5) as usize];
        let mut rh = d.res_headers().clone();
        let ce: Vec<HeaderValue> = rh.get_all(CONTENT_ENCODING).iter().cloned().collect();
        rh.remove(CONTENT_ENCODING);
        let ce = match &ce[..] {
            [] => "",
            [v] => ["Gzip", "Deflate", "Brotli"].iter().find(|z| v == ce_name(z)).unwrap_or(&"?"),
            _ => "?",
        };
        json!({"n": if same { n } else { -1 }, "qh": proj_hdrs(d.req_headers()), "rh": proj_hdrs(&rh), "ce": ce,
               "dec": d.res_decoded().iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>(),
               "q": self.term(d.req_body()), "s": self.term(d.res_body())})
    }

    fn pipe(&self, from: Vec<BodyImage>, o: &Json) -> Result<BodyImage, String> {
        let p = &o["p"];
        let tune = |k: &str| {
            let mut t = FutioTuner::new();
            t.set_image(self.tune(o));
            t.set_stream_item_size(int(&o["l"], "it") as usize);
            match k {
                "permit" => { t.set_blocking_policy(BlockingPolicy::Permit(self.sem)); }
                "dispatch" => { t.set_blocking_policy(BlockingPolicy::Dispatch); }
                _ => {}
            }
            t.finish()
        };
        let (s, k) = (text(p, "s"), text(p, "k"));
        let b = if flag(p, "fs") { BodySink::with_fs(self.tmp).map_err(no)? } else { BodySink::with_ram_buffers(2) };
        let b = if flag(p, "uni") {
            let f = from.into_iter().map(|b| stream_of::<UniBodyBuf>(s, b, tune(s))).collect();
            sink_to(f, k, b, tune(k))?
        } else {
            let f = from.into_iter().map(|b| stream_of::<Bytes>(s, b, tune(s))).collect();
            sink_to(f, k, b, tune(k))?
        };
        b.prepare().map_err(no)
    }

    fn again(&self, b: BodyImage, o: &Json) -> Result<BodyImage, String> {
        Ok(match text(o, "how") {
            "clone" => b,
            "read" => BodyImage::read_from(&mut b.reader(), b.len(), &self.tune(o)).map_err(no)?,
            "write" => {
                let mut f = tempfile(self.tmp);
                let n = b.write_to(&mut f).map_err(no)?;
                if n != b.len() {
                    return Err("count".into());
                }
                f.write_all(b"and more").map_err(no)?;
                #[allow(unused_unsafe)]
                unsafe { BodyImage::from_file(f, n) }
            }
            "explode" => match b.explode() {
                ExplodedImage::Ram(v) => {
                    let mut s = BodySink::with_ram_buffers(v.len());
                    for i in v {
                        s.push(i).map_err(no)?;
                    }
                    s.prepare().map_err(no)?
                }
                ExplodedImage::FsRead(rs) => unsafe { BodyImage::from_read_slice(rs) },
                #[cfg(feature = "mmap")]
                ExplodedImage::MemMap(m) => BodyImage::from_slice(Bytes::copy_from_slice(&m)),
            },
            "pipe" => self.pipe(vec![b], o)?,
            h => panic!("script: how {}", h),
        })
    }

    fn record(&mut self, a: usize, i: usize, o: &Json) -> Result<Record, String> {
        let tune = self.tune(o);
        let a = &mut self.arcs[a];
        if flag(o, "new") || a.reader.is_none() {
            a.reader = Some(a.file.reader().map_err(no)?);
        }
        let r = a.reader.as_mut().unwrap();
        r.seek(a.offs[i]).map_err(no)?;
        r.read(&tune).map_err(no)?.ok_or_else(|| "no record".to_string())
    }

    /// The records of an archive as the other build has them
    fn others(&self, a: usize) -> Result<Vec<(u64, Record)>, String> {
        let (_, out) = ran(&self.other, &["list", self.arcs[a].path.to_str().unwrap()], "");
        let v: Json = serde_json::from_slice(&out).map_err(|_| "other build failed".to_string())?;
        if text(&v, "err") != "" {
            return Err(text(&v, "err").into());
        }
        Ok(v["got"].as_array().unwrap().iter().map(|g| (int(g, "off") as u64, rec_from(&g["r"]))).collect())
    }

    /// If the record at the offset is compressed with brotli
    fn coded(&self, a: usize, off: u64) -> bool {
        let mut b = [0; 1];
        let f = std::fs::File::open(&self.arcs[a].path).unwrap();
        f.read_exact_at(&mut b, off + 20).is_ok() && b[0] == b'B'
    }

    fn step(&mut self, o: &Json, e: &mut Json) -> Result<(), String> {
        let (x, y, d) = (int_or(o, "x", 0), int_or(o, "y", 0), int_or(o, "d", 0));
        let a = int_or(o, "a", 1) as usize - 1;
        match text(o, "op") {
            "make" => {
                let b = body_of(text(o, "f"), &bexpand(&ints(&o["v"]), self.c), self.c, self.tmp);
                self.bodies.insert(x, b);
            }
            "same" => {
                let b = self.bodies.get_mut(&x).unwrap();
                match text(o, "how") {
                    "map" => {
                        map(b).map_err(no)?;
                    }
                    "gather" => {
                        b.gather();
                    }
                    "clone" => drop(b.clone()),
                    _ => {
                        // A stream left part way
                        let mut t = FutioTuner::new();
                        t.set_image(tunables(100, 1 << 20, 50, 50, self.tmp));
                        let mut s = AsyncBodyImage::<Bytes>::new(b.clone(), t.finish());
                        if let Some(i) = block_on(std::future::poll_fn(|cx| Pin::new(&mut s).poll_next(cx))) {
                            i.map_err(no)?;
                        }
                    }
                }
            }
            "move" => {
                let b = self.again(self.bodies[&x].clone(), o)?;
                self.bodies.insert(y, b);
            }
            "join" => {
                let b = self.pipe(vec![self.bodies[&x].clone(), self.bodies[&int(o, "z")].clone()], o)?;
                self.bodies.insert(y, b);
            }
            "enc" => {
                let b = &self.bodies[&x];
                let mut t = self.term(b);
                let z = text(o, "z");
                let by = encode(z, &body_bytes(b)?, int(o, "lvl") as u32);
                t["e"].as_array_mut().unwrap().push(json!(z));
                let b = body_of(text(o, "f"), &by, 1 + by.len() / 3, self.tmp);
                self.known.insert(by, t);
                self.bodies.insert(y, b);
            }
            "start" => {
                let n = int(o, "n");
                let mut rh = hdrs(&o["rh"]);
                if !text(o, "ce").is_empty() {
                    rh.insert(CONTENT_ENCODING, HeaderValue::from_static(ce_name(text(o, "ce"))));
                }
                let g = Dialog::new(
                    Prolog {
                        method: METHODS[(n % 5) as usize].parse().unwrap(),
                        url: URLS[(n / 5 % 4) as usize].parse().unwrap(),
                        req_headers: hdrs(&o["qh"]),
                        req_body: self.bodies[&x].clone(),
                    },
                    Epilog {
                        version: version(n),
                        status: http::StatusCode::from_u16(STATUS[(n / 20 % 5) as usize]).unwrap(),
                        res_decoded: vec![],
                        res_headers: rh,
                        res_body: self.bodies[&y].clone(),
                    });
                self.dialogs.insert(d, (g, n));
            }
            "swap" => {
                let b = self.bodies[&x].clone();
                *self.dialogs.get_mut(&d).unwrap().0.res_body_mut() = b;
            }
            "take" => {
                let g = &self.dialogs[&d].0;
                let b = if text(o, "how") == "explode" {
                    let (p, e) = g.clone().explode();
                    if flag(o, "res") { e.res_body } else { p.req_body }
                } else if flag(o, "res") {
                    g.res_body().clone()
                } else {
                    g.req_body().clone()
                };
                self.bodies.insert(x, b);
            }
            "dec" => {
                let t = self.tune(o);
                e["r"] = json!(match decode_res_body(&mut self.dialogs.get_mut(&d).unwrap().0, &t) {
                    Ok(true) => "true",
                    Ok(false) => "false",
                    Err(_) => "err",
                });
            }
            "write" => {
                let (g, n) = self.dialogs[&d].clone();
                let r = Record::try_from(g).map_err(no)?;
                if o["who"] == "other" {
                    let (_, out) = ran(&self.other, &["put", self.arcs[a].path.to_str().unwrap(), &o["z"].to_string()],
                                       &rec_json(&r)?.to_string());
                    let v: Json = serde_json::from_slice(&out).map_err(|_| "other build failed".to_string())?;
                    let a = &mut self.arcs[a];
                    a.offs.push(v["off"].as_u64().ok_or_else(|| v["err"].to_string())?);
                    a.ns.push(n);
                } else {
                    self.write(a, &r, n, o)?;
                }
                e["br"] = json!(self.coded(a, *self.arcs[a].offs.last().unwrap()));
            }
            "read" => {
                let i = int(o, "i") as usize - 1;
                let r = match self.record(a, i, o) {
                    Err(m) => return self.refused(e, m),
                    Ok(r) => r,
                };
                e["r"] = json!("ok");
                let n = self.arcs[a].ns[i];
                self.dialogs.insert(d, (r.try_into().map_err(no)?, n));
            }
            "cprec" => {
                let i = int(o, "i") as usize - 1;
                let r = match self.record(a, i, o) {
                    Err(m) => return self.refused(e, m),
                    Ok(r) => r,
                };
                e["r"] = json!("ok");
                let n = self.arcs[a].ns[i];
                let b = int(o, "b") as usize - 1;
                self.write(b, &r, n, o)?;
                e["br"] = json!(self.coded(b, *self.arcs[b].offs.last().unwrap()));
            }
            "scan" => {
                let t = self.tune(o);
                let mut got = vec![];
                e["r"] = json!("ok");
                let n = |k: usize| self.arcs[a].ns.get(k).copied().unwrap_or(-1);
                if !self.arcs[a].path.exists() {
                } else if o["who"] == "other" {
                    for (k, (off, rec)) in self.others(a)?.into_iter().enumerate() {
                        let g: Dialog = rec.try_into().map_err(no)?;
                        got.push(self.dterm(&g, if self.arcs[a].offs.get(k) == Some(&off) { n(k) } else { -1 }));
                    }
                } else {
                    let mut r = BarcFile::new(&self.arcs[a].path).reader().map_err(no)?;
                    loop {
                        let rec = match r.read(&t) {
                            Ok(None) => break,
                            Ok(Some(rec)) => rec,
                            Err(m) => {
                                self.refused(e, no(m))?;
                                break;
                            }
                        };
                        let g: Dialog = rec.try_into().map_err(no)?;
                        got.push(self.dterm(&g, n(got.len())));
                    }
                }
                e["got"] = json!(got);
            }
            "cp" => {
                // By the program
                let b = int(o, "b") as usize - 1;
                let z = format!("--{}", text(o, "z"));
                let mut args = vec!["cp", self.arcs[a].path.to_str().unwrap(), self.arcs[b].path.to_str().unwrap()];
                if z != "--none" {
                    args.insert(1, &z);
                }
                let (code, _) = ran(&std::env::current_exe().unwrap().with_file_name("barc-red"), &args, "");
                e["r"] = json!(match code {
                    0 => "ok",
                    1 | 2 => "err",
                    _ => "?",
                });
                let was = self.arcs[b].offs.len();
                if self.arcs[b].path.exists() {
                    self.arcs[b].offs = self.others(b)?.into_iter().map(|g| g.0).collect();
                }
                let ns = self.arcs[a].ns.clone();
                let n = self.arcs[b].offs.len().saturating_sub(was);
                self.arcs[b].ns.extend(ns.iter().take(n));
                self.arcs[b].reader = None;
                e["br"] = json!(self.arcs[b].offs.iter().skip(was).map(|f| self.coded(b, *f)).collect::<Vec<_>>());
            }
            "rec" => {
                let path = self.arcs[a].path.to_str().unwrap();
                let (code, _) = ran(&std::env::current_exe().unwrap().with_file_name("barc-red"),
                                    &["record", "http://127.0.0.1:1/", path], "");
                e["r"] = json!(if code == 1 || code == 2 { "err" } else { "?" });
            }
            "offer" => {
                let l = ACCEPT_ENCODINGS.split(',').map(|s| s.trim()).collect::<Vec<_>>();
                e["l"] = json!(["br", "gzip", "deflate"].iter().filter(|s| l.contains(s)).count() == l.len());
                e["br"] = json!(l.contains(&"br"));
            }
            "reset" => {
                let a = &mut self.arcs[a];
                std::fs::remove_file(&a.path).unwrap();
                a.file = BarcFile::new(&a.path);
                a.reader = None;
                a.offs.clear();
                a.ns.clear();
            }
            "dropb" => {
                self.bodies.remove(&x);
            }
            "dropd" => {
                self.dialogs.remove(&d);
            }
            k => panic!("script: operation {}", k),
        }
        Ok(())
    }

    /// An error that is part of the trace, if there may be such
    fn refused(&self, e: &mut Json, m: String) -> Result<(), String> {
        if self.other.as_os_str().is_empty() {
            return Err(m);
        }
        e["r"] = json!("err");
        e["msg"] = json!(m);
        Ok(())
    }

    fn write(&mut self, a: usize, r: &Record, n: i64, o: &Json) -> Result<(), String> {
        let a = &mut self.arcs[a];
        if flag(o, "new") {
            a.file = BarcFile::new(&a.path);
        }
        let off = a.file.writer().map_err(no)?.write(r, strategy(&o["z"]).as_ref()).map_err(no)?;
        a.offs.push(off);
        a.ns.push(n);
        Ok(())
    }

    fn run(&mut self, o: &Json) -> Json {
        let mut e = o.clone();
        let r = guard(|| self.step(o, &mut e));
        match r {
            Err(p) => return p,
            Ok(Err(m)) => {
                e["ok"] = json!(false);
                e["err"] = json!(m);
            }
            Ok(Ok(())) => e["ok"] = json!(true),
        }
        e["body"] = json!((1..=3).map(|x| self.bodies.get(&x).map_or(json!([]), |b| self.term(b))).collect::<Vec<_>>());
        e["dlg"] = json!((1..=2).map(|d| self.dialogs.get(&d).map_or(json!([]), |(g, n)| self.dterm(g, *n))).collect::<Vec<_>>());
        beat();
        e
    }
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("system");
    let tmp = scratch.path().join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    let sem: &'static Semaphore = Box::leak(Box::new(Semaphore::default_new(2)));
    register_dispatch_pool(DispatchPool::builder().pool_size(1).create());
    each_script(args, |s, emit| {
        let arcs = ["a.barc", "b.barc"].iter().map(|n| {
            let path = scratch.path().join(n);
            let _ = std::fs::remove_file(&path);
            Arch { file: BarcFile::new(&path), path, reader: None, offs: vec![], ns: vec![] }
        }).collect();
        let mut r = Run {
            c: int(s, "c") as usize, tmp: &tmp, sem, bodies: BTreeMap::new(), dialogs: BTreeMap::new(),
            arcs, known: HashMap::new(), other: s["other"].as_str().unwrap_or("").into(),
        };
        let mut evs = vec![];
        let l = json!({"mr": 2000, "br": 8192, "bf": 8192});
        let end = [1, 2].map(|a| json!({"op": "scan", "a": a, "l": l, "who": "self"}));
        for o in s["ops"].as_array().unwrap().iter().chain(&end) {
            evs.push(r.run(o));
            if evs.last().unwrap()["op"] == "panic" || evs.last().unwrap()["ok"] == false {
                break;
            }
        }
        emit(json!({"ev": evs, "br": cfg!(feature = "brotli")}));
    });
}
