//! Huge.tla: bodies and archives beyond 32 bits, in sparse files.

use crate::rec;
use crate::sys;
use crate::util::*;
use barc::{BarcFile, Record};
use body_image::{BodyImage, BodyReader, BodySink, ExplodedImage};
use body_image::{BodyError, Tunables, Tuner};
use body_image_futio::*;
use bytes::{Buf, Bytes};
use futures_core::stream::Stream;
use futures_sink::Sink;
use http::header::HeaderValue;
use http::HeaderMap;
use olio::fs::rc::ReadSlice;
use serde_json::json;
use std::fs::File;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::os::unix::fs::FileExt;
use std::path::Path;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

const B: u64 = 1 << 24;

fn num(v: &Json) -> u64 {
    let p = ints(v);
    p[0] as u64 * B + p[1] as u64
}

fn pair(n: u64) -> Json {
    json!([n / B, n % B])
}

/// Bytes at positions, of what passes
struct Marks(Vec<(u64, Vec<u8>, Vec<u8>)>);

impl Marks {
    fn new(v: &Json) -> Marks {
        Marks(v.as_array().unwrap().iter()
            .map(|m| (num(&m["at"]), ints(&m["b"]).iter().map(|b| *b as u8).collect(), vec![]))
            .collect())
    }
    fn see(&mut self, at: u64, b: &[u8]) {
        for (p, want, got) in self.0.iter_mut() {
            let (from, to) = ((*p).max(at), (*p + want.len() as u64).min(at + b.len() as u64));
            if from < to {
                got.extend(&b[(from - at) as usize..(to - at) as usize]);
            }
        }
    }
    /// Zeros and marks at this position
    fn fill(&self, at: u64, b: &mut [u8]) {
        b.fill(0);
        let end = at + b.len() as u64;
        for (p, want, _) in &self.0 {
            let (from, to) = ((*p).max(at), (*p + want.len() as u64).min(end));
            if from < to {
                b[(from - at) as usize..(to - at) as usize]
                    .copy_from_slice(&want[(from - p) as usize..(to - p) as usize]);
            }
        }
    }
    fn put(&self, f: &File, at: u64, len: u64) {
        f.set_len(at + len).unwrap();
        for (p, want, _) in &self.0 {
            f.write_all_at(want, at + p).unwrap();
        }
    }
    fn seek(&mut self, r: &mut (impl Read + Seek)) -> io::Result<()> {
        for (p, want, got) in self.0.iter_mut() {
            r.seek(SeekFrom::Start(*p))?;
            got.clear();
            r.take(want.len() as u64).read_to_end(got)?;
        }
        Ok(())
    }
    fn show(&self) -> Json {
        json!(self.0.iter().map(|m| &m.2).collect::<Vec<_>>())
    }
}

struct Source {
    marks: Marks,
    at: u64,
    len: u64,
}

impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        beat();
        let n = (b.len() as u64).min(self.len - self.at) as usize;
        self.marks.fill(self.at, &mut b[..n]);
        self.at += n as u64;
        Ok(n)
    }
}

struct Target {
    marks: Marks,
    at: u64,
}

impl Write for Target {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        beat();
        self.marks.see(self.at, b);
        self.at += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Nothing;
impl Wake for Nothing {
    fn wake(self: Arc<Self>) {}
}

fn tune(lim: u64, dir: &Path) -> Tunables {
    let mut t = Tuner::new();
    t.set_max_body(lim).set_max_body_ram(1024);
    t.set_buffer_size_ram(512).set_buffer_size_fs(1 << 20).set_temp_dir(dir);
    t.finish()
}

fn futio(t: Tunables) -> FutioTunables {
    FutioTuner::new().set_image(t).finish()
}

fn made(s: &Json, dir: &Path) -> Result<BodyImage, String> {
    let body = &s["body"];
    let len = num(&body["n"]);
    let marks = Marks::new(&body["marks"]);
    let lim = num(&s["lim"]);
    let kind = |e: BodyError| match e {
        BodyError::BodyTooLong(n) if n > lim => "long".to_string(),
        e => e.to_string(),
    };
    match text(s, "how") {
        "file" => {
            let f = rec::tempfile(dir);
            marks.put(&f, 0, len);
            Ok(unsafe { BodyImage::from_file(f, len) })
        }
        "slice" => {
            let f = rec::tempfile(dir);
            let at = num(&s["at"]);
            marks.put(&f, at, len);
            f.set_len(at + len + 1000).unwrap();
            Ok(unsafe { BodyImage::from_read_slice(ReadSlice::new(Arc::new(f), at, at + len)) })
        }
        "sink" => {
            let mut sink = BodySink::with_fs(dir).unwrap();
            let mut src = Source { marks, at: 0, len };
            let mut buf = vec![0; 1 << 20];
            loop {
                let n = src.read(&mut buf).unwrap();
                if n == 0 {
                    break;
                }
                sink.write_all(&buf[..n]).map_err(|e| e.to_string())?;
                if sink.len() != src.at {
                    return Err("sink length".into());
                }
            }
            sink.prepare().map_err(|e| e.to_string())
        }
        "rf" => {
            let mut src = Source { marks, at: 0, len };
            BodyImage::read_from(&mut src, num(&s["est"]), &tune(lim, dir)).map_err(kind)
        }
        "asink" => {
            let t = futio(tune(lim, dir));
            let mut sink = AsyncBodySink::<Bytes>::new(BodySink::with_ram(100), t);
            let w = Waker::from(Arc::new(Nothing));
            let mut cx = Context::from_waker(&w);
            let mut src = Source { marks, at: 0, len };
            let mut buf = vec![0; 1 << 20];
            let err = |e| match e {
                FutioError::Body(e) => kind(e),
                e => e.to_string(),
            };
            loop {
                match Pin::new(&mut sink).poll_ready(&mut cx) {
                    Poll::Ready(r) => r.map_err(err)?,
                    Poll::Pending => return Err("pending".into()),
                }
                let n = src.read(&mut buf).unwrap();
                if n == 0 {
                    break;
                }
                Pin::new(&mut sink).start_send(Bytes::copy_from_slice(&buf[..n])).map_err(err)?;
            }
            match Pin::new(&mut sink).poll_close(&mut cx) {
                Poll::Ready(r) => r.map_err(err)?,
                Poll::Pending => return Err("pending".into()),
            }
            sink.into_inner().prepare().map_err(kind)
        }
        h => panic!("script: how {}", h),
    }
}

fn by_reader(i: &BodyImage, m: &mut Marks) -> io::Result<u64> {
    match i.reader() {
        BodyReader::Contiguous(mut r) => {
            m.seek(&mut r)?;
            r.seek(SeekFrom::End(0))
        }
        BodyReader::FileSlice(mut r) => {
            m.seek(&mut r)?;
            r.seek(SeekFrom::End(0))
        }
        BodyReader::Scattered(mut r) => {
            let mut t = Target { marks: Marks(std::mem::take(&mut m.0)), at: 0 };
            io::copy(&mut r, &mut t)?;
            m.0 = t.marks.0;
            Ok(t.at)
        }
    }
}

fn drain<Bf: Buf, S: Stream<Item = Result<Bf, io::Error>>>(
    st: S,
    m: &mut Marks,
    left: impl Fn(&S) -> Option<(u64, bool)>,
) -> io::Result<u64> {
    let size = left(&st).map(|l| l.0).unwrap_or(0);
    let mut st = Box::pin(st);
    let w = Waker::from(Arc::new(Nothing));
    let mut cx = Context::from_waker(&w);
    let (mut at, mut idle) = (0, 0);
    loop {
        beat();
        match st.as_mut().poll_next(&mut cx) {
            Poll::Ready(None) => return Ok(at),
            Poll::Ready(Some(b)) => {
                let mut b = b?;
                let was = left(&st);
                while b.has_remaining() {
                    let n = b.chunk().len();
                    m.see(at, b.chunk());
                    at += n as u64;
                    b.advance(n);
                }
                idle = 0;
                if let Some((n, end)) = was {
                    if (n != size && n + at != size) || end != (at == size) {
                        return Err(io::Error::new(io::ErrorKind::Other, "hint"));
                    }
                }
            }
            Poll::Pending => {
                idle += 1;
                if idle > 100 {
                    return Err(io::Error::new(io::ErrorKind::Other, "stalled"));
                }
            }
        }
    }
}

fn hint(b: &impl http_body::Body) -> Option<(u64, bool)> {
    Some((b.size_hint().exact().unwrap_or(u64::MAX >> 1), b.is_end_stream()))
}

/// Length, and bytes passed, by one way of getting at the body
fn view(op: &str, mut i: BodyImage, m: &mut Marks, dir: &Path) -> io::Result<(u64, u64)> {
    let fail = |e: BodyError| io::Error::new(io::ErrorKind::Other, e.to_string());
    let t = futio(tune(1 << 40, dir));
    Ok(match op {
        "read" => (i.len(), by_reader(&i, m)?),
        "map" => {
            i.mem_map().map_err(fail)?;
            (i.len(), by_reader(&i, m)?)
        }
        "write_to" => {
            let mut t = Target { marks: Marks(std::mem::take(&mut m.0)), at: 0 };
            let n = i.write_to(&mut t).map_err(fail)?;
            m.0 = t.marks.0;
            (n, t.at)
        }
        "explode" => match i.explode() {
            ExplodedImage::FsRead(mut rs) => {
                m.seek(&mut rs)?;
                (rs.len(), rs.seek(SeekFrom::End(0))?)
            }
            _ => (0, 0),
        },
        "bytes" => {
            (i.len(), drain(AsyncBodyImage::<Bytes>::new(i, t), m, hint)?)
        }
        "uni" => {
            (i.len(), drain(AsyncBodyImage::<UniBodyBuf>::new(i, t), m, hint)?)
        }
        "mapped" => {
            i.mem_map().map_err(fail)?;
            (i.len(), drain(AsyncBodyImage::<UniBodyBuf>::new(i, t), m, hint)?)
        }
        "split" => {
            i.mem_map().map_err(fail)?;
            let n = i.len();
            (n, drain(<SplitBodyImage<UniBodyBuf> as StreamWrapper>::new(i, t), m, |_| None)?)
        }
        o => panic!("script: op {}", o),
    })
}

fn img(s: &Json, dir: &Path) -> Vec<Json> {
    let i = match made(s, dir) {
        Ok(i) => i,
        Err(k) => return vec![json!({"op": "made", "k": k})],
    };
    let mut evs = vec![json!({"op": "made", "k": "ok"})];
    for op in s["ops"].as_array().unwrap() {
        beat();
        let op = op.as_str().unwrap();
        let mut m = Marks::new(&s["body"]["marks"]);
        let r = view(op, i.clone(), &mut m, dir);
        evs.push(match r {
            Ok((n, t)) => json!({"op": "image", "by": op, "n": pair(n), "tell": pair(t),
                                 "marks": m.show()}),
            Err(e) => json!({"op": "err", "by": op, "msg": e.to_string()}),
        });
    }
    evs
}

// --- archives -----------------------------------------------------------------

fn headers(v: i64) -> HeaderMap {
    let mut m = HeaderMap::new();
    if v > 0 {
        m.insert("a", HeaderValue::from_bytes(&[48 + v as u8]).unwrap());
    }
    m
}

fn header(m: &HeaderMap) -> Json {
    match m.len() {
        0 => json!(0),
        1 => json!(m.get("a").map(|v| v.as_bytes()[0] as i64 - 48).unwrap_or(-1)),
        _ => json!(-1),
    }
}

fn shown(b: &BodyImage, v: &Json) -> Json {
    let mut m = Marks::new(&v["marks"]);
    match by_reader(b, &mut m) {
        Ok(t) if t == b.len() => json!({"n": pair(t), "marks": m.show()}),
        _ => json!({"n": [-1, -1], "marks": []}),
    }
}

fn record(r: Result<Option<Record>, barc::BarcError>, v: &Json, mut e: Json) -> Json {
    let none = json!({"n": [-1, -1], "marks": []});
    for (k, d) in [("m", json!(-1)), ("qh", json!(-1)), ("rh", json!(-1)), ("q", none.clone()), ("s", none)] {
        e[k] = d;
    }
    match r {
        Err(x) => {
            e["k"] = json!("err");
            e["msg"] = json!(x.to_string());
        }
        Ok(None) => e["k"] = json!("none"),
        Ok(Some(r)) => {
            e["k"] = json!("rec");
            e["m"] = header(&r.meta);
            e["qh"] = header(&r.req_headers);
            e["rh"] = header(&r.res_headers);
            e["q"] = shown(&r.req_body, &v["q"]);
            e["s"] = shown(&r.res_body, &v["s"]);
        }
    }
    e
}

fn arch(s: &Json, path: &Path, dir: &Path) -> Vec<Json> {
    let recs = s["recs"].as_array().unwrap();
    let offs = s["offs"].as_array().unwrap();
    let mut evs = vec![];
    let mut pieces = Marks::new(&s["pieces"]);
    let bf = BarcFile::new(path);
    if text(s, "how") == "laid" {
        let f = File::create(path).unwrap();
        pieces.put(&f, 0, num(offs.last().unwrap()));
    } else {
        for (k, r) in recs.iter().enumerate() {
            beat();
            let body = |v: &Json| {
                let (f, n) = (rec::tempfile(dir), num(&v["n"]));
                Marks::new(&v["marks"]).put(&f, 0, n);
                unsafe { BodyImage::from_file(f, n) }
            };
            let rec = Record {
                meta: headers(int(r, "m")),
                req_headers: headers(int(r, "qh")),
                req_body: body(&r["q"]),
                res_headers: headers(int(r, "rh")),
                res_body: body(&r["s"]),
                ..Record::default()
            };
            let res = bf.writer().and_then(|mut w| w.write(&rec, rec::strategy(&s["z"]).as_ref()));
            evs.push(match res {
                Ok(o) => json!({"op": "wrote", "i": k + 1, "k": "ok", "at": pair(o)}),
                Err(e) => json!({"op": "wrote", "i": k + 1, "k": e.to_string(), "at": [-1, -1]}),
            });
        }
        let mut f = File::open(path).unwrap();
        pieces.seek(&mut f).unwrap();
        if !offs.is_empty() {
            evs.push(json!({"op": "file", "n": pair(f.metadata().unwrap().len()), "marks": pieces.show()}));
        }
    }
    let t = tune(1 << 40, dir);
    let mut rd = match bf.reader() {
        Ok(r) => r,
        Err(e) => return vec![json!({"op": "err", "msg": e.to_string()})],
    };
    for (k, v) in recs.iter().enumerate() {
        beat();
        let from = pair(rd.offset());
        let mut e = record(rd.read(&t), v, json!({"op": "next", "i": k + 1, "from": from}));
        e["to"] = pair(rd.offset());
        evs.push(e);
    }
    evs.push(record(rd.read(&t), &json!({}), json!({"op": "end"})));
    for (k, v) in recs.iter().enumerate().take(offs.len()).rev() {
        beat();
        let r = rd.seek(num(&offs[k])).and_then(|_| rd.read(&t));
        evs.push(record(r, v, json!({"op": "seek", "i": k + 1})));
    }
    evs
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("huge");
    let tmp = scratch.path().join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    let path = scratch.path().join("a.barc");
    sys::sparse(true);
    set_limit(240);
    // None of this is to be held in memory.
    unsafe {
        let l = libc::rlimit { rlim_cur: 1 << 31, rlim_max: 1 << 31 };
        libc::setrlimit(libc::RLIMIT_DATA, &l);
    }
    each_script(args, |s, emit| {
        let _ = std::fs::remove_file(&path);
        let r = guard(|| match text(s, "mode") {
            "img" => img(s, &tmp),
            _ => arch(s, &path, &tmp),
        });
        emit(json!({"of": s, "ev": r.unwrap_or_else(|p| vec![p])}));
    });
}
