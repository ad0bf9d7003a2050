//! Barc.tla: records written to and read from archives.

use crate::rec::*;
use crate::sys;
use crate::util::*;
use barc::{BarcError, BarcFile, BarcReader, Record};
use body_image::{BodyError, BodyImage};
use serde_json::json;
use std::collections::BTreeMap;
use std::path::Path;

struct Run<'a> {
    c: usize,
    path: &'a Path,
    tmp: &'a Path,
    files: BTreeMap<i64, BarcFile>,
    readers: BTreeMap<i64, BarcReader>,
    kept: BTreeMap<i64, Record>,
    offs: Vec<u64>,
    prior: Vec<u8>,
}

fn place(b: &BodyImage) -> &'static str {
    if b.is_mem_map() {
        "map"
    } else if b.is_ram() {
        "ram"
    } else {
        "file"
    }
}

pub fn err_class(e: &BarcError) -> &'static str {
    match e {
        BarcError::Body(BodyError::BodyTooLong(_)) => "toolong",
        _ => "err",
    }
}

impl<'a> Run<'a> {
    fn op(&mut self, o: &Json) -> Json {
        let c = self.c;
        let op = text(o, "op").to_owned();
        match op.as_str() {
            "open" => {
                let h = int(o, "h");
                self.files.insert(h, BarcFile::new(self.path));
                json!({"op": op, "h": h})
            }
            "write" => {
                let h = int(o, "h");
                let rec = sys::quiet(|| record(&o["c"], c, self.tmp));
                let strat = strategy(&o["z"]);
                let r = self.files[&h].writer().and_then(|mut w| w.write(&rec, strat.as_ref()));
                let now = sys::quiet(|| std::fs::read(self.path).unwrap_or_default());
                let pre = now.len() >= self.prior.len() && now[..self.prior.len()] == self.prior[..];
                let (ok, off) = match r {
                    Ok(o) => (true, o),
                    Err(_) => (false, 0),
                };
                let mode = now.get(off as usize + 20).map(|b| (*b as char).to_string()).unwrap_or_default();
                self.offs.push(off);
                let end = now.len();
                self.prior = now;
                json!({"op": op, "h": h, "z": o["z"]["k"], "c": intended(&o["c"]), "ok": ok,
                       "off": off, "end": end, "pre": pre, "mode": mode})
            }
            "reader" => {
                let (h, r) = (int(o, "h"), int(o, "r"));
                let ok = match self.files[&h].reader() {
                    Ok(x) => {
                        self.readers.insert(r, x);
                        true
                    }
                    Err(_) => false,
                };
                json!({"op": op, "h": h, "r": r, "ok": ok})
            }
            "seek" => {
                let (r, k) = (int(o, "r"), int(o, "k"));
                let off = match k {
                    0 => self.prior.len() as u64,
                    _ => self.offs[k as usize - 1],
                };
                let rd = self.readers.get_mut(&r).expect("absent: reader");
                let ok = rd.seek(off).is_ok();
                json!({"op": op, "r": r, "k": k, "ok": ok, "off": rd.offset()})
            }
            "read" => {
                let (r, x) = (int(o, "r"), int(o, "x"));
                let t = &o["t"];
                let mr = (int(t, "k") * c as i64 + int(t, "d")).max(0) as u64;
                let mb = ((int(t, "mk") * c as i64 + int(t, "md")).max(0) as u64).max(mr);
                let tune = tunables(mr, mb, int(t, "br") as usize, int(t, "bf") as usize, self.tmp);
                sys::take();
                let rd = self.readers.get_mut(&r).expect("absent: reader");
                let res = rd.read(&tune);
                let tmp = sys::take().iter().filter(|e| e.call == "open").count();
                let off = rd.offset();
                let mut e = json!({"op": op, "r": r, "x": x, "mr": mr, "mb": mb, "off": off,
                                   "tmp": tmp, "k": "none", "c": {}, "q": "", "s": ""});
                match res {
                    Ok(None) => {}
                    Ok(Some(rec)) => {
                        e["k"] = json!("rec");
                        e["q"] = json!(place(&rec.req_body));
                        e["s"] = json!(place(&rec.res_body));
                        e["c"] = sys::quiet(|| content(&rec, c));
                        if x > 0 {
                            self.kept.insert(x, rec);
                        }
                    }
                    Err(err) => e["k"] = json!(err_class(&err)),
                }
                e
            }
            "peek" => {
                let x = int(o, "x");
                let map = flag(o, "map");
                let rec = self.kept.get_mut(&x).expect("absent: kept");
                let mut ok = true;
                if map {
                    ok = rec.req_body.mem_map().is_ok() && rec.res_body.mem_map().is_ok();
                }
                let c = sys::quiet(|| content(rec, c));
                json!({"op": op, "x": x, "map": map, "ok": ok, "c": c,
                       "q": place(&rec.req_body), "s": place(&rec.res_body)})
            }
            "drop" => {
                let x = int(o, "x");
                self.kept.remove(&x);
                json!({"op": op, "x": x})
            }
            _ => panic!("script: unknown op {}", op),
        }
    }
}

/// An op, or where it panics an event for that.
pub fn stepped(evs: &mut Vec<Json>, o: &Json, f: impl FnOnce() -> Json) -> bool {
    match guard(f) {
        Ok(e) => {
            evs.push(e);
            true
        }
        Err(mut p) => {
            if p["msg"].as_str().unwrap_or("").starts_with("script:") {
                eprintln!("{}", p["msg"]);
                std::process::exit(2);
            }
            p["in"] = o.clone();
            evs.push(p);
            false
        }
    }
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("barc");
    let tmp = scratch.path().join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    let path = scratch.path().join("a.barc");
    each_script(args, |s, emit| {
        let c = int(s, "c") as usize;
        let _ = std::fs::remove_file(&path);
        let mut run = Run {
            c, path: &path, tmp: &tmp, files: BTreeMap::new(), readers: BTreeMap::new(),
            kept: BTreeMap::new(), offs: vec![], prior: vec![],
        };
        let mut evs = vec![];
        sys::start(&tmp);
        for o in s["ops"].as_array().unwrap() {
            if !stepped(&mut evs, o, || run.op(o)) {
                break;
            }
        }
        drop(run);
        sys::stop();
        let left = std::fs::read_dir(&tmp).unwrap().count();
        evs.push(json!({"op": "left", "n": left}));
        emit(json!({"c": c, "ev": evs}));
    });
}
