//! ArcHist.tla: histories of writes to one archive, with what readers see at
//! every system call, from other threads, and after failures.

use crate::body::{fault_class, faults_for};
use crate::rec::*;
use crate::sys::{self, Fault};
use crate::util::*;
use barc::{BarcFile, BarcReader, MetaRecorded, Record};
use body_image::Tunables;
use serde_json::json;
use std::cell::Cell;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

/// The records of a script, with what a reader should find for each
struct Recs {
    c: usize,
    recs: Vec<Record>,
    want: Vec<Json>,
    strats: Vec<Json>,
}

impl Recs {
    fn new(s: &Json, tmp: &Path) -> Recs {
        let c = int(s, "c") as usize;
        let a = s["recs"].as_array().unwrap();
        Recs {
            c,
            recs: a.iter().map(|r| record(&r["c"], c, tmp)).collect(),
            // A tag makes each unique
            want: a.iter().map(|r| intended(&r["c"])).collect(),
            strats: a.iter().map(|r| r["z"].clone()).collect(),
        }
    }
    fn id(&self, r: &Record) -> i64 {
        let got = content(r, self.c);
        self.want.iter().position(|w| *w == got).map(|k| k as i64 + 1).unwrap_or(-1)
    }
}

/// Read on until the end or an error, adding to ids and offs.
fn read_on(rd: &mut BarcReader, t: &Tunables, rs: &Recs, ids: &mut Vec<i64>, offs: &mut Vec<u64>)
    -> &'static str
{
    loop {
        let off = rd.offset();
        match rd.read(t) {
            Ok(Some(r)) => {
                ids.push(rs.id(&r));
                offs.push(off);
            }
            Ok(None) => return "none",
            Err(_) => return "err",
        }
        if ids.len() > 100 {
            return "endless";
        }
    }
}

fn scan(path: &Path, t: &Tunables, rs: &Recs) -> (Vec<i64>, Vec<u64>, &'static str) {
    let (mut ids, mut offs) = (vec![], vec![]);
    let end = match BarcFile::new(path).reader() {
        Ok(mut rd) => read_on(&mut rd, t, rs, &mut ids, &mut offs),
        Err(_) => "open",
    };
    (ids, offs, end)
}

fn ev_scan(r: usize, (ids, offs, end): (Vec<i64>, Vec<u64>, &str)) -> Json {
    json!({"op": "done", "r": r, "ids": ids, "offs": offs, "end": end})
}

struct Tail {
    rd: BarcReader,
    ids: Vec<i64>,
    offs: Vec<u64>,
}

struct Ctx {
    path: PathBuf,
    snap: PathBuf,
    big: Tunables,
    small: Tunables,
}

fn panicked(log: &Mutex<Vec<Json>>, r: std::thread::Result<()>) {
    if let Err(e) = r {
        let msg = panic_msg(e);
        if msg.starts_with("script:") {
            eprintln!("{}", msg);
            std::process::exit(2);
        }
        log.lock().unwrap_or_else(|p| p.into_inner()).push(json!({"op": "panic", "msg": msg}));
    }
}

/// Cut writes of the record head (below the given offset) to this many bytes
/// at once, of the rest to half if so asked.
fn cut_writes(e: &sys::SysEv, from: i64, cut: i64, half: bool) -> Option<Fault> {
    if e.call != "write" || e.tag != sys::TAG_FILE {
        return None;
    }
    if e.off < from {
        (cut > 0 && e.req > cut).then_some(Fault::Short(cut as usize))
    } else {
        (half && e.req > 1).then_some(Fault::Short(e.req as usize / 2))
    }
}

/// Offset at which the payload of the record begun now would start
fn payload_start(path: &Path) -> i64 {
    std::fs::metadata(path).map(|m| m.len() as i64).unwrap_or(0) + 54
}

/// Every system call of every write: scans, a reader at the end, and a copy of
/// the file as it would be left by a writer stopped there.
fn probe(s: &Json, cx: &Ctx, tmp: &Path, every: i64, half: bool) -> Json {
    let rs = Arc::new(Recs::new(s, tmp));
    let cut = int_or(s, "cut", 0);
    let log = Arc::new(Mutex::new(vec![]));
    let extra = Arc::new(extra_record());
    let l2 = log.clone();
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let file = BarcFile::new(&cx.path);
        log.lock().unwrap().push(json!({"op": "acq", "t": 1}));
        let mut w = file.writer().unwrap();
        let tail = Arc::new(Mutex::new(Tail {
            rd: file.reader().unwrap(), ids: vec![], offs: vec![],
        }));
        // Where the record being written starts
        let at = Arc::new(AtomicU64::new(0));
        let point = {
            let at = at.clone();
            let (rs, log, tail, extra) = (rs.clone(), log.clone(), tail.clone(), extra.clone());
            let (path, snap) = (cx.path.clone(), cx.snap.clone());
            let (big, small) = (cx.big.clone(), cx.small.clone());
            let n = Cell::new(0);
            move |log_tail: bool| {
                let mut lg = log.lock().unwrap();
                lg.push(json!({"op": "start", "r": 1}));
                lg.push(ev_scan(1, scan(&path, &big, &rs)));
                if log_tail {
                    let mut t = tail.lock().unwrap();
                    let t = &mut *t;
                    lg.push(json!({"op": "start", "r": 2}));
                    let end = read_on(&mut t.rd, &small, &rs, &mut t.ids, &mut t.offs);
                    lg.push(ev_scan(2, (t.ids.clone(), t.offs.clone(), end)));
                }
                n.set(n.get() + 1);
                if n.get() % 2 == 0 {
                    // As left by a writer stopped here
                    std::fs::copy(&path, &snap).unwrap();
                    let size = std::fs::metadata(&snap).unwrap().len();
                    lg.push(json!({"op": "start", "r": 3}));
                    lg.push(ev_scan(3, scan(&snap, &small, &rs)));
                    let left = size > at.load(SeqCst) && size < at.load(SeqCst) + 54;
                    let f = BarcFile::new(&snap);
                    let mut ok = false;
                    let mut off = 0;
                    if let Ok(o) = f.writer().and_then(|mut w| {
                        w.write(&*extra, &barc::NoCompressStrategy::default())
                    }) {
                        off = o;
                        let mut rd = f.reader().unwrap();
                        ok = rd.seek(o).is_ok()
                            && matches!(rd.read(&big), Ok(Some(r)) if
                                body_bytes(&r.res_body).ok().as_deref() == Some(b"extra"));
                    }
                    lg.push(json!({"op": "after", "off": off, "size": size, "ok": ok}));
                    lg.push(json!({"op": "start", "r": 3}));
                    // The first records are still there; what was left of a
                    // head may be an error, with more following it
                    let (mut ids, mut offs, mut end) = scan(&snap, &small, &rs);
                    if ids.last() == Some(&-1) && offs.last() == Some(&off) {
                        ids.pop();
                        offs.pop();
                    } else if end == "err" && left {
                        end = "none";
                    }
                    lg.push(ev_scan(3, (ids, offs, end)));
                }
                beat();
            }
        };
        let point = Arc::new(Mutex::new(point));
        for (k, rec) in rs.recs.iter().enumerate() {
            let id = k as i64 + 1;
            log.lock().unwrap().push(json!({"op": "begin", "t": 1, "i": id}));
            let from = payload_start(&cx.path);
            at.store(from as u64 - 54, SeqCst);
            sys::policy(Some(Box::new(move |e| cut_writes(e, from, cut, half))));
            let p2 = point.clone();
            let cnt = Mutex::new(0i64);
            sys::hook(Some(Arc::new(move |before, e| {
                if e.tag == sys::TAG_FILE && (e.call == "write" || e.call == "ftruncate"
                                              || e.call == "lseek") {
                    let mut c = cnt.lock().unwrap();
                    *c += 1;
                    if !before || *c == 1 {
                        (p2.lock().unwrap())(*c % every == 0);
                    }
                }
            })));
            let r = w.write(rec, strategy(&rs.strats[k]).as_ref());
            sys::hook(None);
            sys::policy(None);
            sys::take();
            let (ok, off) = match r {
                Ok(o) => (true, o as i64),
                Err(_) => (false, 0),
            };
            log.lock().unwrap().push(
                json!({"op": "end", "t": 1, "i": id, "ok": ok, "off": off, "flt": "none"}));
            sys::quiet(|| (point.lock().unwrap())(true));
        }
        drop(w);
        log.lock().unwrap().push(json!({"op": "rel", "t": 1}));
        sys::quiet(|| seeks(cx, &rs, &log));
    }));
    sys::hook(None);
    sys::policy(None);
    panicked(&l2, res);
    let log = l2.lock().unwrap_or_else(|p| p.into_inner());
    json!({"ev": *log})
}

fn extra_record() -> Record {
    Record { res_body: body_image::BodyImage::from_slice("extra"), ..Record::default() }
}

/// Read each completed record at the offset its write returned.
fn seeks(cx: &Ctx, rs: &Recs, log: &Mutex<Vec<Json>>) {
    let mut lg = log.lock().unwrap();
    let ends: Vec<(i64, u64)> = lg.iter()
        .filter(|e| e["op"] == "end" && e["ok"] == true)
        .map(|e| (int(e, "i"), int(e, "off") as u64)).collect();
    let mut rd = BarcFile::new(&cx.path).reader().unwrap();
    for (i, off) in ends.into_iter().rev() {
        let got = match rd.seek(off).and_then(|_| rd.read(&cx.big)) {
            Ok(Some(r)) => rs.id(&r),
            _ => -2,
        };
        lg.push(json!({"op": "seek", "i": i, "got": got}));
    }
    lg.push(json!({"op": "start", "r": 1}));
    lg.push(ev_scan(1, scan(&cx.path, &cx.big, rs)));
}

// --- writer and reader in turns ----------------------------------------------

thread_local! { static ROLE: Cell<usize> = const { Cell::new(9) }; }

struct Turns {
    m: Mutex<(Vec<(usize, usize)>, [usize; 2], [bool; 2])>,
    cv: Condvar,
}

impl Turns {
    fn at_call(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.1[me] += 1;
        let n = g.1[me];
        // Turn over when my calls up to the limit were made
        if let Some(&(r, upto)) = g.0.first() {
            if r == me && upto > 0 && n > upto {
                g.0.remove(0);
                self.cv.notify_all();
            }
        }
        self.wait(me, g);
    }
    fn wait<'a>(&'a self, me: usize,
            mut g: std::sync::MutexGuard<'a, (Vec<(usize, usize)>, [usize; 2], [bool; 2])>)
    {
        while !g.2[1 - me] && matches!(g.0.first(), Some(&(r, _)) if r != me) {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn begin(&self, me: usize) {
        self.wait(me, self.m.lock().unwrap());
    }
    fn finish(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.2[me] = true;
        self.cv.notify_all();
    }
}

fn turns(s: &Json, cx: &Ctx, tmp: &Path) -> Json {
    let rs = Recs::new(s, tmp);
    let log = Mutex::new(vec![]);
    let file = BarcFile::new(&cx.path);
    let last = rs.recs.len() - 1;
    log.lock().unwrap().push(json!({"op": "acq", "t": 1}));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut w = file.writer().unwrap();
        let write = |w: &mut barc::BarcWriter<'_>, k: usize| {
            log.lock().unwrap().push(json!({"op": "begin", "t": 1, "i": k + 1}));
            let r = w.write(&rs.recs[k], strategy(&rs.strats[k]).as_ref());
            let (ok, off) = r.map(|o| (true, o as i64)).unwrap_or((false, 0));
            log.lock().unwrap().push(
                json!({"op": "end", "t": 1, "i": k + 1, "ok": ok, "off": off, "flt": "none"}));
        };
        for k in 0..last {
            write(&mut w, k);
        }
        let segs = s["segs"].as_array().unwrap().iter()
            .map(|g| (int(g, "r") as usize, int(g, "n") as usize)).collect();
        let t = Arc::new(Turns { m: Mutex::new((segs, [0; 2], [false; 2])), cv: Condvar::new() });
        let t2 = t.clone();
        sys::hook(Some(Arc::new(move |before, e| {
            let me = ROLE.with(|r| r.get());
            if before && me < 2 && e.tag == sys::TAG_FILE && e.call != "open" {
                t2.at_call(me);
            }
        })));
        let mut rd = file.reader().unwrap();
        let (mut ids, mut offs) = (vec![], vec![]);
        if flag(s, "ahead") {
            read_on(&mut rd, &cx.big, &rs, &mut ids, &mut offs);
        }
        // Heads are written and read in parts
        let (cutw, cutr) = (int_or(s, "cutw", 0), int_or(s, "cutr", 0));
        let from = payload_start(&cx.path);
        sys::policy(Some(Box::new(move |e| match ROLE.with(|r| r.get()) {
            0 => cut_writes(e, from, cutw, false),
            1 if e.call == "read" && e.tag == sys::TAG_FILE && e.off >= from - 54
                && e.off < from && cutr > 0 && e.req > cutr => Some(Fault::Short(cutr as usize)),
            _ => None,
        })));
        let (rs, log, t) = (&rs, &log, &t);
        std::thread::scope(|sc| {
            let h = sc.spawn(move || {
                ROLE.with(|r| r.set(1));
                t.begin(1);
                log.lock().unwrap().push(json!({"op": "start", "r": 1}));
                let tune = if flag(s, "small") { &cx.small } else { &cx.big };
                let r = guard(|| read_on(&mut rd, tune, &rs, &mut ids, &mut offs));
                log.lock().unwrap().push(match r {
                    Ok(end) => ev_scan(1, (ids.clone(), offs.clone(), end)),
                    Err(p) => p,
                });
                t.finish(1);
                ROLE.with(|r| r.set(9));
                (rd, ids, offs)
            });
            ROLE.with(|r| r.set(0));
            t.begin(0);
            let r = guard(|| write(&mut w, last));
            ROLE.with(|r| r.set(9));
            t.finish(0);
            if let Err(p) = r {
                log.lock().unwrap_or_else(|p| p.into_inner()).push(p);
            }
            let (mut rd, mut ids, mut offs) = h.join().unwrap();
            sys::hook(None);
            sys::policy(None);
            // The reader gets the rest now
            log.lock().unwrap().push(json!({"op": "start", "r": 1}));
            let end = read_on(&mut rd, &cx.big, &rs, &mut ids, &mut offs);
            log.lock().unwrap().push(ev_scan(1, (ids, offs, end)));
        });
        drop(w);
        log.lock().unwrap().push(json!({"op": "rel", "t": 1}));
        sys::quiet(|| seeks(cx, &rs, &log));
    }));
    sys::hook(None);
    sys::policy(None);
    panicked(&log, res);
    json!({"ev": log.into_inner().unwrap_or_else(|p| p.into_inner())})
}

// --- failures -----------------------------------------------------------------

/// How long a fault lasts within a write: one call, all writes, or (a full
/// disk with this room left) all writes that extend the file
#[derive(Clone, Copy, Debug)]
enum Lasting {
    No,
    Writes,
    Full(usize),
}

/// Write the records, with the given fault within the write of number `at`.
/// Returns the trace and the calls made by that write.
fn faulty(s: &Json, cx: &Ctx, tmp: &Path, at: usize, flt: Option<(usize, Fault)>, lasting: Lasting)
    -> (Json, Vec<(&'static str, i64, u8, i64)>)
{
    let _ = std::fs::remove_file(&cx.path);
    // Body files are tracked too
    let root = tmp.parent().unwrap();
    sys::start(root);
    let rs = Recs::new(s, tmp);
    let log = Mutex::new(vec![]);
    let mut calls = vec![];
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let file = BarcFile::new(&cx.path);
        let mut tail: Option<Tail> = None;
        for (k, rec) in rs.recs.iter().enumerate() {
            log.lock().unwrap().push(json!({"op": "acq", "t": 1}));
            log.lock().unwrap().push(json!({"op": "begin", "t": 1, "i": k + 1}));
            sys::start(root);
            if k == at {
                if let Some((i, f)) = flt {
                    let mut n = 0;
                    match lasting {
                        Lasting::No => sys::plan(&[(i, f)]),
                        Lasting::Writes => sys::policy(Some(Box::new(move |e| {
                            n += 1;
                            (n > i && e.call == "write").then_some(f)
                        }))),
                        Lasting::Full(mut room) => sys::policy(Some(Box::new(move |e| {
                            n += 1;
                            if n <= i || e.call != "write" || e.off + e.req <= sys::size(e.fd) {
                                return None;
                            }
                            let r = std::mem::take(&mut room);
                            match r {
                                0 => Some(f),
                                r if (r as i64) < e.req => Some(Fault::Short(r)),
                                r => {
                                    room = r - e.req as usize;
                                    None
                                }
                            }
                        }))),
                    }
                }
            }
            let r = file.writer().and_then(|mut w| {
                // Some writes through a kept writer, after one that failed
                let r = w.write(rec, strategy(&rs.strats[k]).as_ref());
                sys::policy(None);
                r
            });
            sys::policy(None);
            let evs = sys::stop();
            if k == at {
                calls = evs.iter().map(|e| (e.call, e.req, e.tag, e.off)).collect();
            }
            let (ok, off) = r.map(|o| (true, o as i64)).unwrap_or((false, 0));
            let mut lg = log.lock().unwrap();
            lg.push(json!({"op": "end", "t": 1, "i": k + 1, "ok": ok, "off": off,
                           "flt": fault_class(&evs)}));
            lg.push(json!({"op": "rel", "t": 1}));
            if tail.is_none() {
                tail = file.reader().ok().map(|rd| Tail { rd, ids: vec![], offs: vec![] });
            }
            if let Some(t) = tail.as_mut() {
                lg.push(json!({"op": "start", "r": 1}));
                lg.push(ev_scan(1, scan(&cx.path, &cx.big, &rs)));
                lg.push(json!({"op": "start", "r": 2}));
                let end = read_on(&mut t.rd, &cx.small, &rs, &mut t.ids, &mut t.offs);
                lg.push(ev_scan(2, (t.ids.clone(), t.offs.clone(), end)));
            }
        }
        seeks(cx, &rs, &log);
    }));
    sys::policy(None);
    sys::stop();
    panicked(&log, res);
    (json!({"ev": log.into_inner().unwrap_or_else(|p| p.into_inner()),
            "fault": format!("{:?} {:?}", flt, lasting)}), calls)
}

fn faults(s: &Json, cx: &Ctx, tmp: &Path, emit: &mut dyn FnMut(Json)) {
    let at = int(s, "at") as usize;
    let every = int_or(s, "every", 1) as u64;
    let mut rng = Rng(int_or(s, "seed", 1) as u64);
    let (t, calls) = faulty(s, cx, tmp, at, None, Lasting::No);
    emit(t);
    for (k, (call, req, _, _)) in calls.iter().enumerate() {
        for f in faults_for(call, *req) {
            if f == Fault::Short(0) || (every > 1 && rng.below(every) != 0) {
                continue;
            }
            let mut t = faulty(s, cx, tmp, at, Some((k, f)), Lasting::No).0;
            t["call"] = json!([call, req]);
            emit(t);
            if *call == "write" && f == Fault::Errno(libc::ENOSPC) {
                for l in [Lasting::Writes, Lasting::Full(0), Lasting::Full(1), Lasting::Full(30)] {
                    emit(faulty(s, cx, tmp, at, Some((k, f)), l).0);
                }
            }
        }
    }
}

// --- threads --------------------------------------------------------------------

/// Threads writing their share each through the same handle, with readers
/// scanning meanwhile
fn threads(s: &Json, cx: &Ctx, tmp: &Path) -> Json {
    let rs = Recs::new(s, tmp);
    let log = Mutex::new(vec![]);
    let nt = int(s, "threads") as usize;
    let hold = int(s, "hold") as usize;
    let nr = int(s, "readers") as usize;
    let push = |e: Json| log.lock().unwrap_or_else(|p| p.into_inner()).push(e);
    let files = [BarcFile::new(&cx.path)];
    drop(files[0].writer().unwrap());
    sys::perturb(int_or(s, "seed", 1) as u64 | 1);
    if flag(s, "cuts") {
        let mut rng = Rng(int_or(s, "seed", 1) as u64);
        sys::policy(Some(Box::new(move |e| {
            ((e.call == "write" || e.call == "read") && e.tag == sys::TAG_FILE && e.req > 1
                && rng.below(2) == 0)
                .then(|| Fault::Short(1 + rng.below(e.req.min(60) as u64 - 1) as usize))
        })));
    }
    let live = std::sync::atomic::AtomicUsize::new(nt);
    std::thread::scope(|sc| {
        for t in 0..nt {
            let (rs, push, files, live) = (&rs, &push, &files, &live);
            sc.spawn(move || {
                let r = guard(|| {
                    let mine: Vec<usize> = (0..rs.recs.len()).filter(|k| k % nt == t).collect();
                    for ks in mine.chunks(hold) {
                        let mut w = files[0].writer().unwrap();
                        push(json!({"op": "acq", "t": t + 1}));
                        for k in ks {
                            push(json!({"op": "begin", "t": t + 1, "i": k + 1}));
                            let r = w.write(&rs.recs[*k] as &dyn MetaRecorded,
                                            strategy(&rs.strats[*k]).as_ref());
                            let (ok, off) = r.map(|o| (true, o as i64)).unwrap_or((false, 0));
                            push(json!({"op": "end", "t": t + 1, "i": k + 1, "ok": ok,
                                        "off": off, "flt": "none"}));
                        }
                        push(json!({"op": "rel", "t": t + 1}));
                        drop(w);
                    }
                });
                if let Err(p) = r {
                    push(p);
                }
                live.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            });
        }
        for r in 0..nr {
            let (rs, push, files, live) = (&rs, &push, &files, &live);
            sc.spawn(move || {
                let x = guard(|| {
                    let mut rd = files[0].reader().unwrap();
                    let (mut ids, mut offs) = (vec![], vec![]);
                    loop {
                        let over = live.load(std::sync::atomic::Ordering::SeqCst) == 0;
                        push(json!({"op": "start", "r": r + 1}));
                        let e = if r == 0 {
                            let end = read_on(&mut rd, &cx.small, rs, &mut ids, &mut offs);
                            (ids.clone(), offs.clone(), end)
                        } else {
                            scan(&cx.path, &cx.big, rs)
                        };
                        push(ev_scan(r + 1, e));
                        if over {
                            break;
                        }
                    }
                });
                if let Err(p) = x {
                    push(p);
                }
            });
        }
    });
    sys::perturb(0);
    sys::policy(None);
    sys::take();
    let r = guard(|| seeks(cx, &rs, &log));
    let mut log = log.into_inner().unwrap_or_else(|p| p.into_inner());
    if let Err(p) = r {
        log.push(p);
    }
    json!({"ev": log})
}

/// State of a thread: S when blocked
fn thread_state(tid: u64) -> char {
    std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()
        .and_then(|s| s.rsplit(')').next().and_then(|r| r.trim().chars().next()))
        .unwrap_or('?')
}

enum Cmd {
    Try,
    Write(usize),
    Rel,
}

/// Threads told step by step to ask for a writer, write with it, or release it
fn locked(s: &Json, cx: &Ctx, tmp: &Path) -> Json {
    use std::sync::mpsc::{channel, Sender};
    let rs = Recs::new(s, tmp);
    let nt = int(s, "threads") as usize;
    // Acquisitions are logged by the threads as they hold the writer
    let log = Mutex::new(vec![]);
    let busy = Mutex::new(vec![0u8; nt]); // 0 idle, 1 trying, 2 holding, 3 working
    let tids = Mutex::new(vec![0u64; nt]);
    let file = BarcFile::new(&cx.path);
    let push = |e: Json| log.lock().unwrap_or_else(|p| p.into_inner()).push(e);
    std::thread::scope(|sc| {
        let mut tx: Vec<Sender<Cmd>> = vec![];
        for t in 0..nt {
            let (a, b) = channel::<Cmd>();
            tx.push(a);
            let (busy, push, rs, file, tids) = (&busy, &push, &rs, &file, &tids);
            sc.spawn(move || {
                tids.lock().unwrap()[t] = sys::tid();
                let r = guard(|| {
                    let mut w = None;
                    for cmd in b {
                        let now = match cmd {
                            Cmd::Try => {
                                w = Some(file.writer().unwrap());
                                push(json!({"op": "acq", "t": t + 1}));
                                2
                            }
                            Cmd::Write(k) => {
                                push(json!({"op": "begin", "t": t + 1, "i": k + 1}));
                                let r = w.as_mut().unwrap()
                                    .write(&rs.recs[k], strategy(&rs.strats[k]).as_ref());
                                let (ok, off) = r.map(|o| (true, o as i64)).unwrap_or((false, 0));
                                push(json!({"op": "end", "t": t + 1, "i": k + 1, "ok": ok,
                                            "off": off, "flt": "none"}));
                                2
                            }
                            Cmd::Rel => {
                                push(json!({"op": "rel", "t": t + 1}));
                                w = None;
                                0
                            }
                        };
                        busy.lock().unwrap()[t] = now;
                    }
                });
                if let Err(p) = r {
                    push(p);
                    busy.lock().unwrap_or_else(|p| p.into_inner())[t] = 4;
                }
            });
        }
        // Every thread at rest or blocked asking for a writer (other than
        // where none holds one)
        let settle = || {
            let mut calm = 0;
            loop {
                let b = busy.lock().unwrap_or_else(|p| p.into_inner()).clone();
                let held = b.iter().any(|x| *x == 2);
                let trying: Vec<usize> = (0..nt).filter(|t| b[*t] == 1).collect();
                if b.iter().any(|x| *x == 3) || (!trying.is_empty() && !held) {
                    calm = 0;
                } else if trying.iter().all(|t| {
                    matches!(thread_state(tids.lock().unwrap()[*t]), 'S' | 'D')
                }) {
                    calm += 1;
                    if calm > 2 || trying.is_empty() {
                        return b;
                    }
                } else {
                    calm = 0;
                }
                if b.contains(&4) {
                    return b;
                }
                std::thread::yield_now();
            }
        };
        let mut next = 0;
        for o in s["ops"].as_array().unwrap() {
            let b = settle();
            let tell = |t: usize, st: u8, c: Cmd| {
                busy.lock().unwrap_or_else(|p| p.into_inner())[t] = st;
                let _ = tx[t].send(c);
            };
            let holder = b.iter().position(|x| *x == 2);
            match text(o, "op") {
                "try" => {
                    let t = int(o, "t") as usize - 1;
                    if b[t] == 0 {
                        tell(t, 1, Cmd::Try);
                    }
                }
                "write" => if let (Some(t), true) = (holder, next < rs.recs.len()) {
                    tell(t, 3, Cmd::Write(next));
                    next += 1;
                },
                "rel" => if let Some(t) = holder {
                    tell(t, 3, Cmd::Rel);
                },
                x => panic!("script: op {}", x),
            }
            settle();
            sys::quiet(|| {
                push(json!({"op": "start", "r": 1}));
                if cx.path.exists() {
                    push(ev_scan(1, scan(&cx.path, &cx.big, &rs)));
                }
            });
        }
        // Let the rest finish
        loop {
            let b = settle();
            if b.contains(&4) {
                break;
            }
            match b.iter().position(|x| *x == 2) {
                Some(t) => {
                    busy.lock().unwrap()[t] = 3;
                    let _ = tx[t].send(Cmd::Rel);
                }
                None => break,
            }
        }
        drop(tx);
    });
    let r = guard(|| if cx.path.exists() { seeks(cx, &rs, &log) });
    let mut log = log.into_inner().unwrap_or_else(|p| p.into_inner());
    if let Err(p) = r {
        log.push(p);
    }
    json!({"ev": log})
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("hist");
    let tmp = scratch.path().join("tmp");
    let dir = scratch.path().join("arc");
    std::fs::create_dir_all(&tmp).unwrap();
    std::fs::create_dir_all(&dir).unwrap();
    let cx = Ctx {
        path: dir.join("a.barc"),
        snap: scratch.path().join("snap.barc"),
        big: tunables(10 << 20, 20 << 20, 8192, 65536, &tmp),
        small: tunables(3, 20 << 20, 64, 64, &tmp),
    };
    each_script(args, |s, emit| {
        let _ = std::fs::remove_file(&cx.path);
        sys::start(&dir);
        match text(s, "mode") {
            "probe" => emit(probe(s, &cx, &tmp, 1, flag(s, "half"))),
            "turns" => emit(turns(s, &cx, &tmp)),
            "faults" => {
                sys::stop();
                faults(s, &cx, &tmp, emit)
            }
            "threads" => emit(threads(s, &cx, &tmp)),
            "locked" => emit(locked(s, &cx, &tmp)),
            m => panic!("script: mode {}", m),
        }
        sys::stop();
    });
}
