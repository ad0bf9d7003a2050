//! Life.tla: which files values keep open or mapped, and for how long.

use crate::rec::*;
use crate::util::*;
use barc::{BarcFile, BarcReader, Record};
use blocking_permit::Splittable;
use body_image::{BodyImage, BodyReader, BodySink, Dialog, Epilog, ExplodedImage, Prolog};
use body_image_futio::*;
use bytes::Bytes;
use futures_core::stream::Stream;
use futures_sink::Sink;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::fs::MetadataExt;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Idle;

impl Wake for Idle {
    fn wake(self: Arc<Self>) {}
}

/// Bytes of cells: any one tells which cell it is of, given its position
fn byte(v: i64, i: usize) -> u8 {
    (v as usize * 7 + i * 13 + i / 256) as u8
}

fn expand(vs: &[i64], c: usize) -> Vec<u8> {
    vs.iter().flat_map(|v| (0..c).map(move |i| byte(*v, i))).collect()
}

/// Parts of cells [cell, from, to], of bytes from some position of a body
fn project(b: &[u8], start: usize, c: usize) -> Vec<[i64; 3]> {
    let mut res = vec![];
    let mut p = 0;
    while p < b.len() {
        let i = (start + p) % c;
        let part = &b[p..b.len().min(p + c - i)];
        let is = |v: &i64| part.iter().enumerate().all(|(k, x)| *x == byte(*v, i + k));
        let v = (0..120).find(is).unwrap_or(-1);
        res.push([v, i as i64, (i + part.len()) as i64]);
        p += part.len();
    }
    res
}

enum Buf {
    Plain(Bytes),
    Uni(UniBodyBuf),
}

type Items = Pin<Box<dyn Stream<Item = Result<Buf, std::io::Error>>>>;

struct Of<S, B>(Pin<Box<S>>, fn(B) -> Buf);

impl<S, B> Stream for Of<S, B>
    where S: Stream<Item = Result<B, std::io::Error>>
{
    type Item = Result<Buf, std::io::Error>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let f = self.1;
        self.0.as_mut().poll_next(cx).map(|o| o.map(|r| r.map(f)))
    }
}

fn stream_of<B>(kind: &str, b: BodyImage, t: FutioTunables, f: fn(B) -> Buf) -> Items
    where B: OutputBuf + Splittable + Unpin + 'static
{
    match kind {
        "direct" => Box::pin(Of(Box::pin(AsyncBodyImage::<B>::new(b, t)), f)),
        "split" => Box::pin(Of(Box::pin(<SplitBodyImage<B> as StreamWrapper>::new(b, t)), f)),
        _ => Box::pin(Of(Box::pin(<YieldBodyImage<B> as StreamWrapper>::new(b, t)), f)),
    }
}

enum Obj {
    Img(BodyImage),
    Sink(BodySink),
    Parts(ExplodedImage),
    // With the position reached, or that of the item
    Str(Items, usize),
    Item(Buf, usize),
    Arc(BarcFile),
    Rdr(BarcReader),
    Rec(Record),
}

impl Obj {
    fn content(&self, c: usize) -> Option<Vec<[i64; 3]>> {
        let all = |b: &BodyImage| body_bytes(b).map(|b| project(&b, 0, c)).unwrap_or_else(|_| vec![[-2, 0, 0]]);
        Some(match self {
            Obj::Img(b) => all(b),
            Obj::Parts(ExplodedImage::Ram(v)) => project(&v.concat(), 0, c),
            Obj::Parts(ExplodedImage::FsRead(rs)) => {
                let mut b = vec![];
                match rs.clone().read_to_end(&mut b) {
                    Ok(_) => project(&b, 0, c),
                    Err(_) => vec![[-2, 0, 0]],
                }
            }
            Obj::Parts(ExplodedImage::MemMap(m)) => project(m, 0, c),
            Obj::Item(Buf::Plain(b), p) => project(b, *p, c),
            Obj::Item(Buf::Uni(b), p) => project(b, *p, c),
            Obj::Rec(r) => [all(&r.req_body), all(&r.res_body)].concat(),
            _ => return None,
        })
    }
}

/// Files below the directory that this process has open or mapped, or
/// that are left in tmp
fn held(dir: &Path) -> Vec<u64> {
    let mut res = vec![];
    for e in std::fs::read_dir("/proc/self/fd").unwrap() {
        let p = e.unwrap().path();
        if let Ok(t) = std::fs::read_link(&p) {
            if t.starts_with(dir) {
                if let Ok(m) = std::fs::metadata(&p) {
                    res.push(m.ino());
                }
            }
        }
    }
    let d = dir.to_str().unwrap();
    for l in std::fs::read_to_string("/proc/self/maps").unwrap().lines() {
        let mut f = l.split_whitespace();
        if let Some(ino) = f.nth(4) {
            if f.next().map(|p| p.starts_with(d)).unwrap_or(false) {
                res.push(ino.parse().unwrap());
            }
        }
    }
    for e in std::fs::read_dir(dir.join("tmp")).unwrap() {
        res.push(e.unwrap().metadata().map(|m| m.ino()).unwrap_or(0));
    }
    res.sort_unstable();
    res.dedup();
    res
}

struct Run {
    c: usize,
    dir: PathBuf,
    path: PathBuf,
    tmp: PathBuf,
    objs: BTreeMap<i64, Obj>,
    offs: Vec<u64>,
    // Files held before, by number given
    files: BTreeMap<u64, u64>,
    next: u64,
}

const RECS: [(&[i64], &[i64]); 2] = [(&[1], &[2, 3]), (&[4], &[5, 6])];

impl Run {
    fn step(&mut self, o: &Json, e: &mut Json) -> Result<(), String> {
        fn no<E: std::fmt::Display>(e: E) -> String {
            e.to_string()
        }
        let c = self.c;
        let x = int_or(o, "x", 0);
        let y = int_or(o, "y", 0);
        match text(o, "op") {
            "img" => {
                let b = body_of(text(o, "f"), &expand(&ints(&o["v"]), c), c, &self.tmp);
                self.objs.insert(x, Obj::Img(b));
            }
            "sink" => {
                let mut s = match text(o, "f") {
                    "fs" => BodySink::with_fs(&self.tmp).map_err(no)?,
                    _ => BodySink::with_ram_buffers(2),
                };
                for ch in expand(&ints(&o["v"]), c).chunks(c) {
                    s.write_all(ch).map_err(no)?;
                }
                self.objs.insert(x, Obj::Sink(s));
            }
            "more" => {
                if let Some(Obj::Sink(mut s)) = self.objs.remove(&x) {
                    let b = expand(&ints(&o["v"]), c);
                    let s = match text(o, "by") {
                        "write" => {
                            s.write_all(&b).map_err(no)?;
                            s
                        }
                        "push" => {
                            s.push(b).map_err(no)?;
                            s
                        }
                        _ => self.send(s, &b)?,
                    };
                    self.objs.insert(x, Obj::Sink(s));
                }
            }
            "wb" => {
                if let Some(Obj::Sink(s)) = self.objs.get_mut(&x) {
                    s.write_back(&self.tmp).map_err(no)?;
                }
            }
            "view" => {
                if let Some(Obj::Img(b)) = self.objs.get(&x) {
                    let r = match b.reader() {
                        BodyReader::FileSlice(rs) => rs,
                        _ => return Err("no file".into()),
                    };
                    self.objs.insert(y, Obj::Parts(ExplodedImage::FsRead(r)));
                }
            }
            "dec" => {
                let mut z = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(1));
                z.write_all(&expand(&ints(&o["v"]), c)).unwrap();
                let mut h = http::HeaderMap::new();
                h.insert("content-encoding", http::header::HeaderValue::from_static("gzip"));
                let mut d = Dialog::new(
                    Prolog {
                        method: http::Method::GET, url: "http://h/".parse().unwrap(),
                        req_headers: http::HeaderMap::new(), req_body: BodyImage::empty(),
                    },
                    Epilog {
                        version: http::Version::HTTP_11, status: http::StatusCode::OK, res_decoded: vec![],
                        res_headers: h, res_body: body_of(text(o, "f"), &z.finish().unwrap(), c, &self.tmp),
                    });
                let mr = if flag(o, "small") { c as u64 / 2 } else { 1 << 20 };
                decode_res_body(&mut d, &tunables(mr, 1 << 20, 64, 64, &self.tmp)).map_err(no)?;
                self.objs.insert(x, Obj::Img(d.explode().1.res_body));
            }
            "fail" => self.fail(o)?,
            "prep" => {
                if let Some(Obj::Sink(s)) = self.objs.remove(&x) {
                    self.objs.insert(x, Obj::Img(s.prepare().map_err(no)?));
                }
            }
            "clone" => {
                if let Some(Obj::Img(b)) = self.objs.get(&x) {
                    let b = b.clone();
                    self.objs.insert(y, Obj::Img(b));
                }
            }
            "map" => {
                if let Some(Obj::Img(b)) = self.objs.get_mut(&x) {
                    if !b.is_empty() {
                        b.mem_map().map_err(no)?;
                    }
                }
            }
            "expl" => {
                if let Some(Obj::Img(b)) = self.objs.remove(&x) {
                    self.objs.insert(x, Obj::Parts(b.explode()));
                }
            }
            "str" => {
                if let Some(Obj::Img(b)) = self.objs.remove(&x) {
                    let mut t = FutioTuner::new();
                    t.set_image(tunables(1 << 20, 1 << 20, c, c, &self.tmp));
                    t.set_stream_item_size(c);
                    let (k, t) = (text(o, "kind"), t.finish());
                    let s = if flag(o, "uni") {
                        stream_of::<UniBodyBuf>(k, b, t, Buf::Uni)
                    } else {
                        stream_of::<Bytes>(k, b, t, Buf::Plain)
                    };
                    self.objs.insert(x, Obj::Str(s, 0));
                }
            }
            "poll" => {
                e["item"] = json!([]);
                let w = Waker::from(Arc::new(Idle));
                let mut cx = Context::from_waker(&w);
                if let Some(Obj::Str(s, p)) = self.objs.get_mut(&x) {
                    // Yielding streams are pending every other time
                    let mut r = s.as_mut().poll_next(&mut cx);
                    if r.is_pending() {
                        r = s.as_mut().poll_next(&mut cx);
                    }
                    match r {
                        Poll::Ready(Some(Ok(b))) => {
                            let at = *p;
                            *p += match &b {
                                Buf::Plain(b) => b.len(),
                                Buf::Uni(b) => b.len(),
                            };
                            let b = Obj::Item(b, at);
                            e["item"] = json!(b.content(c));
                            self.objs.insert(y, b);
                        }
                        Poll::Ready(Some(Err(e))) => return Err(no(e)),
                        Poll::Ready(None) => {}
                        Poll::Pending => return Err("pending".into()),
                    }
                }
            }
            "arc" => {
                let f = BarcFile::new(&self.path);
                let new = !self.path.exists();
                {
                    let mut w = f.writer().map_err(no)?;
                    if new {
                        self.offs.clear();
                        for (k, (q, s)) in RECS.iter().enumerate() {
                            let z = json!({"k": if k == 0 { "none" } else { "gzip" }, "f": true,
                                           "lvl": 1});
                            let r = Record {
                                req_body: BodyImage::from_slice(expand(q, c)),
                                res_body: BodyImage::from_slice(expand(s, c)),
                                ..Record::default()
                            };
                            self.offs.push(w.write(&r, strategy(&z).as_ref()).map_err(no)?);
                        }
                    }
                }
                self.objs.insert(x, Obj::Arc(f));
            }
            "rdr" => {
                if let Some(Obj::Arc(f)) = self.objs.get(&x) {
                    let r = f.reader().map_err(no)?;
                    self.objs.insert(y, Obj::Rdr(r));
                }
            }
            "rec" => {
                let k = int(o, "k") as usize - 1;
                let mr = if flag(o, "small") { c as u64 / 2 } else { 1 << 20 };
                let t = tunables(mr, 1 << 20, 64, 64, &self.tmp);
                if let Some(Obj::Rdr(r)) = self.objs.get_mut(&x) {
                    r.seek(self.offs[k]).map_err(no)?;
                    match r.read(&t).map_err(no)? {
                        Some(r) => self.objs.insert(y, Obj::Rec(r)),
                        None => return Err("no record".into()),
                    };
                }
                e["v"] = json!([RECS[k].0, RECS[k].1].concat());
            }
            "body" => {
                if let Some(Obj::Rec(r)) = self.objs.get(&x) {
                    let b = if flag(o, "res") { &r.res_body } else { &r.req_body };
                    let b = b.clone();
                    self.objs.insert(y, Obj::Img(b));
                }
            }
            "remove" => std::fs::remove_file(&self.path).map_err(no)?,
            "drop" => {
                self.objs.remove(&x);
            }
            k => panic!("script: operation {}", k),
        }
        Ok(())
    }

    fn send(&self, s: BodySink, b: &[u8]) -> Result<BodySink, String> {
        let mut t = FutioTuner::new();
        t.set_image(tunables(self.c as u64, 1 << 20, 64, 64, &self.tmp));
        let mut s = AsyncBodySink::<Bytes>::new(s, t.finish());
        let w = Waker::from(Arc::new(Idle));
        let mut cx = Context::from_waker(&w);
        let done = |p: Poll<Result<(), FutioError>>| match p {
            Poll::Ready(r) => r.map_err(|e| e.to_string()),
            Poll::Pending => Err("pending".to_string()),
        };
        for ch in b.chunks(self.c) {
            done(Pin::new(&mut s).poll_ready(&mut cx))?;
            Pin::new(&mut s).start_send(Bytes::copy_from_slice(ch)).map_err(|e| e.to_string())?;
        }
        done(Pin::new(&mut s).poll_close(&mut cx))?;
        Ok(s.into_inner())
    }

    /// Things that fail, part way
    fn fail(&self, o: &Json) -> Result<(), String> {
        struct Src(usize);
        impl Read for Src {
            fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                if self.0 == 0 {
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "source"));
                }
                let n = b.len().min(self.0);
                self.0 -= n;
                Ok(n)
            }
        }
        let n = self.c * ints(&o["v"]).len();
        let failed = match text(o, "how") {
            "long" => {
                let t = tunables(0, n as u64 - 1, 64, 64, &self.tmp);
                BodyImage::read_from(&mut &expand(&ints(&o["v"]), self.c)[..], 0, &t).is_err()
            }
            "source" => {
                let t = tunables(n as u64 / 2, 1 << 20, 64, 64, &self.tmp);
                BodyImage::read_from(&mut Src(n), 0, &t).is_err()
            }
            "write" => {
                let mut s = BodySink::with_ram_buffers(2);
                s.push(vec![1u8; n]).unwrap();
                let r = s.write_back(self.tmp.join("none")).is_err();
                r && s.is_empty()
            }
            _ => match BarcFile::new(&self.path).reader() {
                Ok(mut r) => {
                    r.seek(1).unwrap();
                    r.read(&tunables(0, 1 << 20, 64, 64, &self.tmp)).is_err()
                }
                Err(_) => true,
            },
        };
        if failed { Ok(()) } else { Err("didn't fail".into()) }
    }

    /// Can this be done? Streams may end sooner, or later, than thought.
    fn can(&self, o: &Json) -> bool {
        let x = self.objs.get(&int_or(o, "x", 0));
        let free = !self.objs.contains_key(&int_or(o, "y", 0));
        match (text(o, "op"), x) {
            ("img", x) | ("sink", x) | ("arc", x) => x.is_none(),
            ("dec", x) => x.is_none(),
            ("prep", Some(Obj::Sink(_))) | ("more", Some(Obj::Sink(_))) | ("wb", Some(Obj::Sink(_))) => true,
            ("view", Some(Obj::Img(b))) => free && match b.reader() {
                BodyReader::FileSlice(_) => true,
                _ => false,
            },
            ("fail", _) => true,
            ("map", Some(Obj::Img(_))) | ("expl", Some(Obj::Img(_))) | ("str", Some(Obj::Img(_))) => true,
            ("clone", Some(Obj::Img(_))) | ("poll", Some(Obj::Str(..))) => free,
            ("rdr", Some(Obj::Arc(_))) => free && self.path.exists(),
            ("rec", Some(Obj::Rdr(_))) | ("body", Some(Obj::Rec(_))) => free,
            ("remove", _) => self.path.exists(),
            ("drop", x) => x.is_some(),
            _ => false,
        }
    }

    fn run(&mut self, o: &Json) -> Json {
        let mut e = o.clone();
        let r = guard(|| self.step(o, &mut e));
        match r {
            Err(p) => return p,
            Ok(Err(m)) => {
                e["ok"] = json!(false);
                e["err"] = json!(m);
            }
            Ok(Ok(())) => e["ok"] = json!(true),
        }
        let now = held(&self.dir);
        let mut new = vec![];
        let mut files = BTreeMap::new();
        for ino in now {
            let id = self.files.get(&ino).copied().unwrap_or_else(|| {
                self.next += 1;
                new.push(self.next);
                self.next
            });
            files.insert(ino, id);
        }
        self.files = files;
        // Handles and readers may use the archive's file, even if not the first to
        if let "arc" | "rdr" = text(o, "op") {
            let a = std::fs::metadata(&self.path).ok().and_then(|m| self.files.get(&m.ino()));
            if let Some(a) = a.copied() {
                new.push(a);
            }
        }
        e["new"] = json!(new);
        e["open"] = json!(self.files.values().collect::<Vec<_>>());
        e["got"] = json!(self.objs.iter()
            .filter_map(|(x, o)| o.content(self.c).map(|v| json!([x, v]))).collect::<Vec<_>>());
        beat();
        e
    }
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("life");
    let dir = scratch.path().canonicalize().unwrap();
    let tmp = dir.join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    each_script(args, |s, emit| {
        let mut r = Run {
            c: int(s, "c") as usize, path: dir.join("a.barc"), dir: dir.clone(), tmp: tmp.clone(),
            objs: BTreeMap::new(), offs: vec![], files: BTreeMap::new(), next: 0,
        };
        let _ = std::fs::remove_file(&r.path);
        let mut evs = vec![];
        for o in s["ops"].as_array().unwrap() {
            if !r.can(o) {
                continue;
            }
            evs.push(r.run(o));
            if evs.last().unwrap()["op"] == "panic" || evs.last().unwrap()["ok"] == false {
                break;
            }
        }
        // What is left goes, in some order
        let mut xs: Vec<i64> = r.objs.keys().copied().collect();
        if flag(s, "back") {
            xs.reverse();
        }
        for x in xs {
            evs.push(r.run(&json!({"op": "drop", "x": x})));
        }
        emit(json!({"c": s["c"], "ev": evs}));
    });
}
