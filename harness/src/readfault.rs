//! ReadFault.tla: archives read while system calls fail.

use crate::body::{fault_class, faults_for};
use crate::rec::*;
use crate::sys::{self, Fault};
use crate::util::*;
use barc::{BarcFile, Record};
use body_image::{BodyImage, Tunables};
use serde_json::json;
use std::io::Read;
use std::path::Path;

fn bodies(r: &Record, c: usize) -> Result<Json, std::io::Error> {
    let get = |b: &BodyImage| {
        let mut v = vec![];
        b.reader().read_to_end(&mut v).map(|_| bproject(&v, c))
    };
    Ok(json!([get(&r.req_body)?, get(&r.res_body)?]))
}

struct Run<'a> {
    path: &'a Path,
    tune: &'a Tunables,
    /// Of each record, and the end
    offs: &'a [u64],
    k: usize,
    c: usize,
}

/// Where system calls are to fail
#[derive(Clone, Copy, PartialEq)]
enum When { Open, Seek, Read, Bodies, Never }

impl<'a> Run<'a> {
    /// Open, go to record k, read it and its bodies, with the fault at one of
    /// these steps. Returns the calls of that step.
    fn go(&self, when: When, fault: Option<(usize, Fault)>, again: bool, evs: &mut Vec<Json>)
        -> Vec<(&'static str, i64)>
    {
        let mut calls = vec![];
        let step = |w: When| {
            sys::take();
            let n0 = sys::count();
            match fault {
                Some((k, f)) if w == when => sys::plan(&[(n0 + k, f)]),
                _ => sys::plan(&[]),
            }
        };
        let mut note = |w: When| {
            let evs = sys::take();
            if w == when {
                calls = evs.iter().map(|e| (e.call, e.req)).collect();
            }
            sys::plan(&[]);
            fault_class(&evs)
        };
        let bf = BarcFile::new(self.path);
        step(When::Open);
        let r = bf.reader();
        evs.push(json!({"op": "reader", "flt": note(When::Open), "ok": r.is_ok()}));
        let mut rd = match r {
            Ok(r) => r,
            Err(_) => return calls,
        };
        step(When::Seek);
        let ok = rd.seek(self.offs[self.k - 1]).is_ok();
        evs.push(json!({"op": "seek", "k": self.k, "flt": note(When::Seek), "ok": ok}));
        let mut k = self.k;
        let mut first = true;
        // Read it, and then on, or again from there in case of failure
        for _ in 0..2 {
            if !ok {
                break;
            }
            step(if first { When::Read } else { When::Never });
            let r = rd.read(self.tune);
            let flt = note(if first { When::Read } else { When::Never });
            let (o, rec) = match r {
                Ok(None) => (json!({"op": "read", "flt": flt, "k": "none", "c": {}}), None),
                Ok(Some(rec)) => {
                    let c = sys::quiet(|| content(&rec, self.c));
                    (json!({"op": "read", "flt": flt, "k": "rec", "c": c}), Some(rec))
                }
                Err(_) => (json!({"op": "read", "flt": flt, "k": "err", "c": {}}), None),
            };
            let failed = o["k"] == "err";
            evs.push(o);
            if let Some(rec) = rec {
                let w = if first { When::Bodies } else { When::Never };
                step(w);
                let r = bodies(&rec, self.c);
                let flt = note(w);
                let kind = if r.is_ok() { "ok" } else { "err" };
                evs.push(json!({"op": "bodies", "i": k, "flt": flt, "k": kind, "c": r.unwrap_or_else(|_| json!([]))}));
                k += 1;
            }
            if failed || again {
                step(When::Never);
                let ok = rd.seek(self.offs[self.k - 1]).is_ok();
                evs.push(json!({"op": "seek", "k": self.k, "flt": note(When::Never), "ok": ok}));
                k = self.k;
            }
            first = false;
        }
        calls
    }
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("readfault");
    let tmp = scratch.path().join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    let path = scratch.path().join("a.barc");
    each_script(args, |s, emit| {
        let c = int(s, "c") as usize;
        let _ = std::fs::remove_file(&path);
        let recs = s["recs"].as_array().unwrap();
        let bf = BarcFile::new(&path);
        let mut offs = vec![];
        for r in recs {
            offs.push(bf.writer().unwrap().write(&record(&r["c"], c, &tmp), strategy(&r["z"]).as_ref()).unwrap());
        }
        offs.push(std::fs::metadata(&path).unwrap().len());
        let mr = int(s, "mr") as u64;
        let tune = tunables(mr, 1 << 24, int(s, "br") as usize, int(s, "bf") as usize, &tmp);
        let run = Run { path: &path, tune: &tune, offs: &offs, k: int(s, "k") as usize, c };
        let want: Vec<Json> = recs.iter().map(|r| intended(&r["c"])).collect();
        let bods: Vec<Json> = want.iter().map(|w| json!([w["qb"], w["rb"]])).collect();
        let mut evs = vec![];
        sys::start(scratch.path());
        let r = guard(|| {
            for when in [When::Open, When::Seek, When::Read, When::Bodies] {
                let calls = run.go(when, None, flag(s, "again"), &mut evs);
                let step = 1 + calls.len() / 30;
                for j in (int(s, "fix") as usize % step..calls.len()).step_by(step) {
                    for f in faults_for(calls[j].0, calls[j].1) {
                        run.go(when, Some((j, f)), flag(s, "again"), &mut evs);
                        beat();
                    }
                }
            }
        });
        sys::stop();
        if let Err(p) = r {
            evs.push(p);
        }
        let left = std::fs::read_dir(&tmp).unwrap().count();
        if left > 0 {
            evs.push(json!({"op": "left", "n": left}));
        }
        emit(json!({"recs": want, "bods": bods, "ev": evs}));
    });
}
