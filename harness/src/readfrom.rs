//! ReadFrom.tla: reading a body from a source, observed at the source, at the
//! system calls and in the result.

use crate::body::{fault_class, faults_for};
use crate::sys::{self, Fault};
use crate::util::*;
use body_image::{BodyError, BodyImage, Tunables, Tuner};
use serde_json::json;
use std::io::{self, Read};
use std::path::Path;

pub fn src_byte(i: u64) -> u8 {
    (i.wrapping_mul(31).wrapping_add(i / 251).wrapping_add(i / 65521)) as u8
}

struct Src {
    len: i64, // -1: endless
    pos: u64,
    chunk: usize,
    intr: u64, // every so many reads
    reads: u64,
    err_at: i64, // index of read failing
    cap: u64,
    evs: Vec<Json>,
    calls: Vec<(&'static str, i64)>,
}

impl Src {
    fn sys(&mut self) {
        let evs = sys::take();
        for e in &evs {
            self.calls.push((e.call, e.req));
            let how = if e.ret >= 0 && e.flt != Some(Fault::Short(0)) {
                "ok"
            } else if e.ret == -(libc::EINTR as i64) {
                "intr"
            } else {
                "err"
            };
            match e.call {
                "open" if how == "intr" => {}
                "open" => self.evs.push(json!({"op": "tmp", "ok": how == "ok"})),
                "write" => self.evs.push(
                    json!({"op": "wr", "req": e.req, "n": e.ret.max(0), "how": how})),
                _ => self.evs.push(json!({"op": "other", "how": how})),
            }
        }
        let _ = fault_class(&evs);
    }
}

impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.sys();
        let ix = self.reads;
        self.reads += 1;
        let req = b.len();
        if self.err_at == ix as i64 {
            self.evs.push(json!({"op": "src", "req": req, "got": 0, "how": "err"}));
            const KINDS: [io::ErrorKind; 6] = [
                io::ErrorKind::ConnectionReset, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock,
                io::ErrorKind::InvalidData, io::ErrorKind::TimedOut, io::ErrorKind::WriteZero,
            ];
            return Err(KINDS[(self.pos + ix) as usize % 6].into());
        }
        if self.intr > 0 && ix % self.intr == 1 {
            self.evs.push(json!({"op": "src", "req": req, "got": 0, "how": "intr"}));
            return Err(io::ErrorKind::Interrupted.into());
        }
        let left = if self.len < 0 { u64::MAX } else { self.len as u64 - self.pos };
        let n = (req.min(self.chunk) as u64).min(left) as usize;
        for (k, x) in b[..n].iter_mut().enumerate() {
            *x = src_byte(self.pos + k as u64);
        }
        self.pos += n as u64;
        self.evs.push(json!({"op": "src", "req": req, "got": n, "how": "ok"}));
        if self.pos > self.cap {
            // The bounds are long broken, and recorded.
            panic!("source read without bounds");
        }
        Ok(n)
    }
}

fn one(s: &Json, dir: &Path, plan: &[(usize, Fault)], err_at: i64)
    -> (Json, Vec<(&'static str, i64)>, u64)
{
    // 2^30 (and less one) stand for the largest value there is
    let num = |k: &str| match int(s, k) as u64 {
        n if n + 1 >= 1 << 30 => u64::MAX - ((1 << 30) - n),
        n => n,
    };
    let tune: Tunables = Tuner::new()
        .set_max_body(num("M"))
        .set_max_body_ram(num("R"))
        .set_buffer_size_ram(int(s, "br") as usize)
        .set_buffer_size_fs(int(s, "bf") as usize)
        .set_temp_dir(dir)
        .finish();
    let bufmax = int(s, "br").max(int(s, "bf"));
    let mut src = Src {
        len: int(s, "L"),
        pos: 0,
        chunk: int(s, "chunk") as usize,
        intr: int(s, "intr") as u64,
        reads: 0,
        err_at,
        cap: (int(s, "M") + 3 * bufmax + 3000) as u64,
        evs: vec![],
        calls: vec![],
    };
    sys::start(dir);
    sys::plan(plan);
    let r = guard(|| BodyImage::read_from(&mut src, num("est"), &tune));
    src.sys();
    let reads = src.reads;
    match r {
        Ok(Ok(b)) => {
            let mut got = vec![];
            let same = sys::quiet(|| b.reader().read_to_end(&mut got).is_ok())
                && got.len() as u64 == src.pos
                && got.iter().enumerate().all(|(i, x)| *x == src_byte(i as u64));
            let mut w = vec![];
            let same = same && sys::quiet(|| b.write_to(&mut w).is_ok()) && w == got;
            src.evs.push(json!({"op": "ok", "len": b.len(), "ram": b.is_ram(), "same": same}));
        }
        Ok(Err(BodyError::BodyTooLong(n))) =>
            src.evs.push(json!({"op": "toolong", "len": n.min(1 << 30)})),
        Ok(Err(_)) => src.evs.push(json!({"op": "io"})),
        Err(p) => src.evs.push(p),
    }
    let left = std::fs::read_dir(dir).map(|d| d.count()).unwrap_or(0) + sys::open_count();
    src.evs.push(json!({"op": "left", "n": left}));
    sys::stop();
    let plan: Vec<String> = plan.iter().map(|(i, f)| format!("{}:{:?}", i, f)).collect();
    (json!({"cfg": {"est": s["est"], "M": s["M"], "R": s["R"], "buf": bufmax},
            "script": s, "plan": plan.join(" "), "err_at": err_at, "ev": src.evs}),
     src.calls, reads)
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("readfrom");
    each_script(args, |s, emit| {
        let dir = scratch.path().join("t");
        std::fs::create_dir_all(&dir).unwrap();
        let nodir = scratch.path().join("none");
        let dir = if s["nodir"].as_bool() == Some(true) { nodir } else { dir };
        let (t, calls, reads) = one(s, &dir, &[], -1);
        emit(t);
        if flag(s, "faults") {
            for (k, (call, req)) in calls.iter().enumerate() {
                for f in faults_for(call, *req) {
                    emit(one(s, &dir, &[(k, f)], -1).0);
                }
            }
            for k in 0..reads {
                emit(one(s, &dir, &[], k as i64).0);
            }
        }
    });
}
