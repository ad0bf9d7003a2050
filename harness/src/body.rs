//! Body.tla: sinks, images and readers, with system call faults.

use crate::sys::{self, Fault};
use crate::util::*;
use body_image::{BodyImage, BodyReader, BodySink, ExplodedImage};
use olio::fs::rc::ReadSlice;
use serde_json::json;
use std::collections::BTreeMap;
use std::fs::File;
use std::io::{self, Read, Write};
use std::path::Path;
use std::sync::Arc;

enum Obj {
    Sink(BodySink),
    Image(Box<BodyImage>),
    // Borrows from a boxed image, which scripts never move or drop meanwhile.
    Reader(BodyReader<'static>, Vec<u8>),
}

/// Output accepting a few bytes at a time, sometimes interrupted, that
/// fails or takes no more once full.
struct Out {
    got: Vec<u8>,
    max: usize,
    n: usize,
    cap: usize,
}

impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.n += 1;
        if self.max > 0 && self.n % 3 == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let k = if self.max == 0 { b.len() } else { b.len().min(self.max) };
        let k = k.min(self.cap - self.got.len());
        if k == 0 && !b.is_empty() && self.cap % 2 == 0 {
            use io::ErrorKind::*;
            return Err([BrokenPipe, WouldBlock, TimedOut][self.cap / 2 % 3].into());
        }
        self.got.extend_from_slice(&b[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn sink_obs(s: &BodySink, c: u64) -> Json {
    json!({"len": cells_len(s.len(), c), "empty": s.is_empty(), "ram": s.is_ram()})
}

fn image_obs(b: &BodyImage, c: u64) -> Json {
    json!({"len": cells_len(b.len(), c), "empty": b.is_empty(),
           "ram": b.is_ram(), "map": b.is_mem_map()})
}

fn cells_len(l: u64, c: u64) -> i64 {
    if l % c == 0 { (l / c) as i64 } else { -1 }
}

/// Class of fault injected among these system calls
pub fn fault_class(evs: &[sys::SysEv]) -> &'static str {
    let mut r = "none";
    for e in evs {
        match e.flt {
            Some(Fault::Errno(libc::EINTR)) => r = "soft",
            Some(Fault::Short(n)) if n > 0 => r = "soft",
            Some(_) => return "hard",
            None => {}
        }
    }
    r
}

struct Run<'a> {
    c: usize,
    outmax: usize,
    dir: &'a Path,
    file: &'a Path,
    objs: BTreeMap<i64, Obj>,
    /// Images shared with other threads
    shared: &'a BTreeMap<i64, Box<BodyImage>>,
    par: bool,
    calls: Vec<(&'static str, i64)>,
}

const NONE: fn() -> Json = || json!({"len": 0});

impl<'a> Run<'a> {
    fn sink(&mut self, i: i64) -> &mut BodySink {
        match self.objs.get_mut(&i) {
            Some(Obj::Sink(s)) => s,
            _ => panic!("absent: sink {}", i),
        }
    }
    fn image(&mut self, i: i64) -> &mut BodyImage {
        match self.objs.get_mut(&i) {
            Some(Obj::Image(b)) => b,
            _ => panic!("absent: image {}", i),
        }
    }
    fn image_ref(&self, i: i64) -> &BodyImage {
        match self.objs.get(&i) {
            Some(Obj::Image(b)) => b,
            _ => self.shared.get(&i).unwrap_or_else(|| panic!("absent: image {}", i)),
        }
    }
    fn has(&self, i: i64, k: &str) -> bool {
        (k == "image" && self.shared.contains_key(&i)) || matches!((self.objs.get(&i), k),
            (Some(Obj::Sink(_)), "sink") | (Some(Obj::Image(_)), "image")
            | (Some(Obj::Reader(..)), "reader"))
    }

    fn flt(&mut self) -> &'static str {
        if self.par {
            return "none";
        }
        let evs = sys::take();
        self.calls.extend(evs.iter().map(|e| (e.call, e.req)));
        fault_class(&evs)
    }

    /// Perform one operation, returning the event, or None where an earlier
    /// (injected) failure left the script without the object.
    fn op(&mut self, o: &Json) -> Option<Json> {
        let c = self.c;
        let c64 = c as u64;
        let op = text(o, "op").to_owned();
        Some(match op.as_str() {
            "sink" => {
                let i = int(o, "i");
                let how = text(o, "how");
                let r = match how {
                    "ram" => Ok(match i % 3 {
                        0 => BodySink::empty(),
                        1 => BodySink::with_ram(c64 * 3),
                        _ => BodySink::with_ram_buffers(2),
                    }),
                    _ => BodySink::with_fs(self.dir),
                };
                let flt = self.flt();
                let (ok, obs) = match r {
                    Ok(s) => {
                        let obs = sink_obs(&s, c64);
                        self.objs.insert(i, Obj::Sink(s));
                        (true, obs)
                    }
                    Err(_) => (false, NONE()),
                };
                json!({"op": op, "i": i, "how": how, "ok": ok, "flt": flt, "obs": obs})
            }
            "push" | "write" | "save" => {
                let i = int(o, "i");
                if !self.has(i, "sink") {
                    return None;
                }
                let cells = ints(&o["cells"]);
                let b = expand(&cells, c);
                let s = self.sink(i);
                // As a whole, or in a run of writes of so many cells each
                let each = int_or(o, "each", 0) as usize * c;
                let ok = b.chunks(if each > 0 { each } else { b.len().max(1) })
                    .chain(if b.is_empty() { Some(&b[..]) } else { None })
                    .all(|b| {
                        #[allow(deprecated)]
                        match op.as_str() {
                            "push" => s.push(b.to_vec()).is_ok(),
                            "write" => s.write_all(b).is_ok(),
                            _ => s.save(b.to_vec()).is_ok(),
                        }
                    });
                let obs = sink_obs(s, c64);
                let flt = self.flt();
                json!({"op": op, "i": i, "cells": cells, "ok": ok, "flt": flt, "obs": obs})
            }
            "back" => {
                let i = int(o, "i");
                if !self.has(i, "sink") {
                    return None;
                }
                let good = flag(o, "dir");
                let dir = if good { self.dir.to_owned() } else { self.dir.join("none").join("such") };
                let s = self.sink(i);
                let ok = s.write_back(&dir).is_ok();
                let obs = sink_obs(s, c64);
                let flt = self.flt();
                json!({"op": op, "i": i, "dir": good, "ok": ok, "flt": flt, "obs": obs})
            }
            "prep" => {
                let i = int(o, "i");
                if !self.has(i, "sink") {
                    return None;
                }
                let s = match self.objs.remove(&i) {
                    Some(Obj::Sink(s)) => s,
                    _ => unreachable!(),
                };
                let r = s.prepare();
                let flt = self.flt();
                let (ok, obs) = match r {
                    Ok(b) => {
                        let obs = image_obs(&b, c64);
                        self.objs.insert(i, Obj::Image(Box::new(b)));
                        (true, obs)
                    }
                    Err(_) => (false, NONE()),
                };
                json!({"op": op, "i": i, "ok": ok, "flt": flt, "obs": obs})
            }
            "slice" => {
                let i = int(o, "i");
                let cells = ints(&o["cells"]);
                let b = BodyImage::from_slice(expand(&cells, c));
                let obs = image_obs(&b, c64);
                self.objs.insert(i, Obj::Image(Box::new(b)));
                json!({"op": op, "i": i, "cells": cells, "obs": obs})
            }
            "file" => {
                let i = int(o, "i");
                let n = int(o, "n");
                let f = sys::quiet(|| File::open(self.file).unwrap());
                sys::track_fd(&f);
                let b = unsafe { BodyImage::from_file(f, n as u64 * c64) };
                let obs = image_obs(&b, c64);
                self.objs.insert(i, Obj::Image(Box::new(b)));
                json!({"op": op, "i": i, "n": n, "obs": obs})
            }
            "fslice" => {
                let i = int(o, "i");
                let (a, z) = (int(o, "a"), int(o, "b"));
                let f = sys::quiet(|| File::open(self.file).unwrap());
                sys::track_fd(&f);
                let rs = ReadSlice::new(Arc::new(f), a as u64 * c64, z as u64 * c64);
                let b = unsafe { BodyImage::from_read_slice(rs) };
                let obs = image_obs(&b, c64);
                self.objs.insert(i, Obj::Image(Box::new(b)));
                json!({"op": op, "i": i, "a": a, "b": z, "obs": obs})
            }
            "clone" => {
                let (i, j) = (int(o, "i"), int(o, "j"));
                if !self.has(i, "image") {
                    return None;
                }
                let b = self.image_ref(i).clone();
                let obs = image_obs(&b, c64);
                self.objs.insert(j, Obj::Image(Box::new(b)));
                json!({"op": op, "i": i, "j": j, "obs": obs})
            }
            "map" => {
                let i = int(o, "i");
                if !self.has(i, "image") {
                    return None;
                }
                let b = self.image(i);
                let ok = b.mem_map().is_ok();
                let obs = image_obs(b, c64);
                let flt = self.flt();
                json!({"op": op, "i": i, "ok": ok, "flt": flt, "obs": obs})
            }
            "gather" => {
                let i = int(o, "i");
                if !self.has(i, "image") {
                    return None;
                }
                let b = self.image(i);
                b.gather();
                let contig = matches!(b.reader(), BodyReader::Contiguous(_));
                let obs = image_obs(b, c64);
                json!({"op": op, "i": i, "contig": contig, "obs": obs})
            }
            "out" => {
                let i = int(o, "i");
                if !self.has(i, "image") {
                    return None;
                }
                let cap = int_or(o, "cap", -1);
                let most = if cap < 0 { usize::MAX - 1 } else { cap as usize * c };
                let mut out = Out { got: vec![], max: self.outmax, n: 0, cap: most };
                let r = self.image_ref(i).write_to(&mut out);
                let flt = self.flt();
                match r {
                    Ok(n) => json!({"op": op, "i": i, "cap": cap, "ok": true, "flt": flt,
                        "n": cells_len(n, c64), "got": project(&out.got, c)}),
                    Err(_) => json!({"op": op, "i": i, "cap": cap, "ok": false, "flt": flt,
                        "n": 0, "got": project_whole(&out.got, c)}),
                }
            }
            "expl" => {
                let i = int(o, "i");
                let b = match self.objs.remove(&i) {
                    Some(Obj::Image(b)) => b,
                    Some(x) => {
                        self.objs.insert(i, x);
                        return None;
                    }
                    None => return None,
                };
                let mut got = vec![];
                let m = sys::quiet(|| match b.explode() {
                    ExplodedImage::Ram(v) => {
                        for b in v {
                            got.extend_from_slice(&b);
                        }
                        "ram"
                    }
                    ExplodedImage::FsRead(mut rs) => {
                        rs.read_to_end(&mut got).unwrap();
                        "file"
                    }
                    ExplodedImage::MemMap(m) => {
                        got.extend_from_slice(&m);
                        "map"
                    }
                });
                json!({"op": op, "i": i, "m": m, "got": project(&got, c)})
            }
            "reader" => {
                let (i, r) = (int(o, "i"), int(o, "r"));
                if !self.has(i, "image") {
                    return None;
                }
                let p: *const BodyImage = self.image_ref(i);
                let rd = unsafe { &*p }.reader();
                self.objs.insert(r, Obj::Reader(rd, vec![]));
                json!({"op": op, "i": i, "r": r})
            }
            "read" => {
                let (r, n) = (int(o, "r"), int(o, "n"));
                if !self.has(r, "reader") {
                    return None;
                }
                let mut err = false;
                let mut got = vec![];
                if let Some(Obj::Reader(rd, pend)) = self.objs.get_mut(&r) {
                    let want = n as usize * c;
                    let mut buf = std::mem::take(pend);
                    // One read, then more only to complete a cell.
                    let mut first = true;
                    while first || buf.len() % c != 0 {
                        first = false;
                        let at = buf.len();
                        buf.resize(want.max(at), 0xEE);
                        match rd.read(&mut buf[at..]) {
                            Ok(k) => {
                                buf.truncate(at + k);
                                if k == 0 {
                                    break;
                                }
                            }
                            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {
                                buf.truncate(at);
                                first = at == 0;
                            }
                            Err(_) => {
                                buf.truncate(at);
                                err = true;
                                break;
                            }
                        }
                    }
                    let w = buf.len() - buf.len() % c;
                    if err {
                        *pend = buf.split_off(w);
                        err = w == 0;
                        got = buf;
                    } else {
                        got = buf;
                    }
                }
                let flt = self.flt();
                json!({"op": op, "r": r, "n": n, "ok": !err, "flt": flt,
                       "got": project(&got, c)})
            }
            "readall" => {
                let r = int(o, "r");
                if !self.has(r, "reader") {
                    return None;
                }
                let mut ok = true;
                let mut got = vec![];
                if let Some(Obj::Reader(rd, pend)) = self.objs.get_mut(&r) {
                    got = std::mem::take(pend);
                    ok = rd.read_to_end(&mut got).is_ok();
                    if !ok {
                        *pend = got.split_off(got.len() - got.len() % c);
                    }
                }
                let flt = self.flt();
                json!({"op": op, "r": r, "ok": ok, "flt": flt, "got": project(&got, c)})
            }
            "drop" => {
                let i = int(o, "i");
                self.objs.remove(&i)?;
                json!({"op": op, "i": i})
            }
            _ => panic!("script: unknown op {}", op),
        })
    }
}

/// Applicable faults for a system call
pub fn faults_for(call: &str, req: i64) -> Vec<Fault> {
    match call {
        "open" => vec![Fault::Errno(libc::ENOSPC)],
        "read" => {
            let mut v = vec![Fault::Errno(libc::EIO), Fault::Errno(libc::EINTR)];
            if req > 1 {
                v.push(Fault::Short(1));
            }
            v
        }
        "write" => {
            let mut v = vec![
                Fault::Errno(libc::ENOSPC),
                Fault::Errno(libc::EINTR),
                Fault::Short(0),
            ];
            if req > 1 {
                v.push(Fault::Short(1));
            }
            v
        }
        "mmap" => vec![Fault::Errno(libc::ENOMEM)],
        _ => vec![Fault::Errno(libc::EIO)],
    }
}

fn step(run: &mut Run, o: &Json, evs: &mut Vec<Json>) -> bool {
    match guard(|| run.op(o)) {
        Ok(Some(e)) => {
            evs.push(e);
            true
        }
        Ok(None) => true,
        Err(mut p) => {
            if p["msg"].as_str().unwrap_or("").starts_with("script:") {
                eprintln!("{}", p["msg"]);
                std::process::exit(2);
            }
            p["in"] = o.clone();
            evs.push(p);
            false
        }
    }
}

/// Build shared images, then let threads work on them at the same time.
fn run_par(s: &Json, c: usize, dir: &Path, file: &Path) -> Json {
    let none = BTreeMap::new();
    let mut evs = vec![];
    let ops = s["ops"].as_array().unwrap();
    let mut run = Run {
        c, outmax: 0, dir, file, objs: BTreeMap::new(), shared: &none, par: true, calls: vec![],
    };
    sys::start(dir);
    let mut ok = true;
    for o in ops.iter().filter(|o| o["t"] == json!(0)) {
        ok = ok && step(&mut run, &o["e"], &mut evs);
    }
    let shared: BTreeMap<i64, Box<BodyImage>> = std::mem::take(&mut run.objs)
        .into_iter()
        .filter_map(|(i, o)| match o {
            Obj::Image(b) => Some((i, b)),
            _ => None,
        })
        .collect();
    drop(run);
    if ok {
        sys::perturb(int_or(s, "seed", 1) as u64);
        let nt = ops.iter().map(|o| o["t"].as_i64().unwrap()).max().unwrap();
        let bar = std::sync::Barrier::new(nt as usize);
        let logs: Vec<Vec<Json>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (1..=nt)
                .map(|t| {
                    let (shared, bar) = (&shared, &bar);
                    sc.spawn(move || {
                        let mut evs = vec![];
                        let mut run = Run {
                            c, outmax: 0, dir, file, objs: BTreeMap::new(), shared,
                            par: true, calls: vec![],
                        };
                        bar.wait();
                        for o in ops.iter().filter(|o| o["t"] == json!(t)) {
                            if !step(&mut run, &o["e"], &mut evs) {
                                break;
                            }
                            std::thread::yield_now();
                        }
                        run.objs.retain(|_, o| !matches!(o, Obj::Reader(..)));
                        evs
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        sys::perturb(0);
        for l in logs {
            evs.extend(l);
        }
    }
    sys::stop();
    json!({"c": c, "ev": evs})
}

fn run_one(
    s: &Json,
    c: usize,
    outmax: usize,
    dir: &Path,
    file: &Path,
    plan: &[(usize, Fault)],
) -> (Json, Vec<(&'static str, i64)>) {
    let shared = BTreeMap::new();
    let mut run = Run {
        c, outmax, dir, file, objs: BTreeMap::new(), shared: &shared, par: false, calls: vec![],
    };
    let mut evs = vec![];
    sys::start(dir);
    sys::plan(plan);
    let mut dead = false;
    for o in s["ops"].as_array().unwrap() {
        if !step(&mut run, o, &mut evs) {
            dead = true;
            break;
        }
    }
    if !dead {
        // In the end, see all content.
        let mut tail = vec![];
        for (i, o) in &run.objs {
            match o {
                Obj::Sink(_) => {
                    tail.push(json!({"op": "prep", "i": i}));
                    tail.push(json!({"op": "out", "i": i}));
                }
                Obj::Image(_) => tail.push(json!({"op": "out", "i": i})),
                Obj::Reader(..) => tail.push(json!({"op": "readall", "r": i})),
            }
        }
        for o in &tail {
            if !step(&mut run, o, &mut evs) {
                break;
            }
        }
    }
    let calls = std::mem::take(&mut run.calls);
    // Readers first, as they borrow
    run.objs.retain(|_, o| !matches!(o, Obj::Reader(..)));
    drop(run);
    sys::stop();
    let plan: Vec<String> = plan.iter().map(|(i, f)| format!("{}:{:?}", i, f)).collect();
    (json!({"c": c, "plan": plan.join(" "), "ev": evs}), calls)
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("body");
    let filec: Vec<i64> = (101..=106).collect();
    each_script(args, |s, emit| {
        let c = int_or(s, "c", 1) as usize;
        let outmax = int_or(s, "outmax", 0) as usize;
        let file = scratch.path().join(format!("file-{}", c));
        if !file.exists() {
            std::fs::write(&file, expand(&filec, c)).unwrap();
        }
        if flag(s, "par") {
            return emit(run_par(s, c, scratch.path(), &file));
        }
        let (t, calls) = run_one(s, c, outmax, scratch.path(), &file, &[]);
        emit(t);
        let mode = s["faults"].as_str().unwrap_or("none");
        if mode != "none" {
            let mut rng = Rng(int_or(s, "seed", 1) as u64);
            let every = int_or(s, "every", 1) as u64;
            for (k, (call, req)) in calls.iter().enumerate() {
                for f in faults_for(call, *req) {
                    if every > 1 && rng.below(every) != 0 {
                        continue;
                    }
                    let (t, _) = run_one(s, c, outmax, scratch.path(), &file, &[(k, f)]);
                    emit(t);
                }
            }
        }
    });
}
