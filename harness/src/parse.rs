//! BarcParse.tla: reading damaged archives.

use crate::rec::*;
use crate::util::*;
use barc::{BarcFile, BarcReader};
use body_image::Tunables;
use serde_json::json;
use std::io::Read;
use std::path::Path;

const CAP: u64 = 1 << 24;

fn hex(b: &[u8]) -> Option<u64> {
    std::str::from_utf8(b).ok().and_then(|s| u64::from_str_radix(s, 16).ok())
}

/// Decode the payload of a compressed record at off, independently.
fn decode(f: &[u8], off: usize) -> Option<Vec<u8>> {
    let h = f.get(off..off + 54)?;
    let len = hex(&h[6..18])?;
    let from = off + 54;
    let to = (from as u64).saturating_add(len).min(f.len() as u64) as usize;
    let p = &f[from..to];
    let mut out = vec![];
    let ok = match h[20] {
        b'Z' => flate2::read::GzDecoder::new(p).read_to_end(&mut out).is_ok(),
        b'B' => brotli::Decompressor::new(p, 4096).take(1 << 20).read_to_end(&mut out).is_ok(),
        _ => false,
    };
    if ok { Some(out) } else { None }
}

fn pairs(m: &http::HeaderMap) -> Json {
    json!(m.iter().map(|(n, v)| json!([n.as_str().as_bytes(), v.as_bytes()])).collect::<Vec<_>>())
}

fn read_at(rd: &mut BarcReader, f: &[u8], off: u64, t: &Tunables) -> Json {
    let mut e = json!({"op": "read", "off": off, "k": "err", "next": 0, "m": [], "qh": [], "rh": [],
                       "q": [], "s": [], "dok": false, "dec": []});
    if (off as usize) < f.len() {
        if let Some(d) = decode(f, off as usize) {
            e["dok"] = json!(true);
            e["dec"] = json!(d);
        }
    }
    if rd.seek(off).is_err() {
        return e;
    }
    match rd.read(t) {
        Ok(None) => e["k"] = json!("none"),
        Ok(Some(r)) => {
            e["k"] = json!("rec");
            let b = |x| body_bytes(x).map(|b| json!(b)).unwrap_or(json!([-1]));
            e["m"] = pairs(&r.meta);
            e["qh"] = pairs(&r.req_headers);
            e["rh"] = pairs(&r.res_headers);
            e["q"] = b(&r.req_body);
            e["s"] = b(&r.res_body);
        }
        Err(_) => {}
    }
    e["next"] = json!(rd.offset().min(CAP));
    e
}

fn damage(f: &mut Vec<u8>, heads: &[usize], d: &Json) -> bool {
    let n = f.len();
    match text(d, "k") {
        "trunc" => {
            let t = int(d, "n") as usize;
            if t >= n {
                return false;
            }
            f.truncate(t);
        }
        "field" => {
            let h = heads[int(d, "r") as usize - 1];
            let (at, w) = [(6, 12), (22, 5), (28, 5), (34, 10), (45, 5)][int(d, "f") as usize - 1];
            if h + at + w > n {
                return false;
            }
            let v = match hex(&f[h + at..h + at + w]) {
                Some(v) => v,
                None => return false,
            };
            let max = (1u64 << (4 * w)) - 1;
            let nv = match int(d, "how") {
                1 => 0,
                2 => 1,
                3 => 2,
                4 => 3,
                5 => v.saturating_sub(1),
                6 => v + 1,
                7 => v.saturating_sub(2),
                8 => v + 2,
                9 => v + 54,
                10 => max,
                11 => max / 2,
                _ => v / 2,
            }.min(max);
            f[h + at..h + at + w].copy_from_slice(format!("{:0w$x}", nv, w = w).as_bytes());
        }
        "head" => {
            let p = heads[int(d, "r") as usize - 1] + int(d, "at") as usize;
            if p >= n {
                return false;
            }
            f[p] = int(d, "v") as u8;
        }
        "data" => {
            let at = int(d, "at") as usize;
            if at >= n {
                return false;
            }
            f[at] = int(d, "v") as u8;
        }
        "ins" => f.insert((int(d, "at") as usize).min(n), int(d, "v") as u8),
        "del" => {
            let at = int(d, "at") as usize;
            if at >= n {
                return false;
            }
            f.remove(at);
        }
        k => panic!("script: damage {}", k),
    }
    true
}

fn files(s: &Json, path: &Path, tmp: &Path) -> Json {
    let c = int(s, "c") as usize;
    let _ = std::fs::remove_file(path);
    let mut heads = vec![];
    {
        let bf = BarcFile::new(path);
        let mut w = bf.writer().unwrap();
        for r in s["recs"].as_array().unwrap() {
            let o = w.write(&record(&r["c"], c, tmp), strategy(&r["z"]).as_ref()).unwrap();
            heads.push(o as usize);
        }
    }
    let mut f = std::fs::read(path).unwrap();
    let ms = s["m"].as_array().unwrap();
    for d in ms {
        damage(&mut f, &heads, d);
    }
    std::fs::write(path, &f).unwrap();
    let mut evs = vec![];
    let r = guard(|| {
        let bf = BarcFile::new(path);
        let mut rd = bf.reader().unwrap();
        let top = u64::MAX;
        let tunes = [tunables(10000, 1 << 20, 64, 64, tmp), tunables(2, 1 << 20, 8192, 64, tmp),
                     tunables(top, top, 64, 64, tmp)];
        for t in &tunes {
            // In sequence from the start, then at the heads of the original
            let mut off = 0;
            for _ in 0..6 {
                let e = read_at(&mut rd, &f, off, t);
                off = int(&e, "next") as u64;
                let go = e["k"] == "rec";
                evs.push(e);
                if !go {
                    break;
                }
            }
            for h in &heads {
                evs.push(read_at(&mut rd, &f, *h as u64, t));
            }
            if ms.is_empty() {
                for o in 0..f.len() + 60 {
                    evs.push(read_at(&mut rd, &f, o as u64, t));
                }
                for o in [1 << 40, i64::MAX as u64 - 60, i64::MAX as u64, u64::MAX - 60, u64::MAX] {
                    let mut rd = bf.reader().unwrap();
                    let e = read_at(&mut rd, &f, o, t);
                    evs.push(json!({"op": "far", "k": e["k"]}));
                }
            }
        }
    });
    if let Err(p) = r {
        evs.push(p);
    }
    json!({"f": f, "ev": evs})
}

/// A block of n header names, which the record writer could not write itself
fn many(s: &Json, path: &Path, tmp: &Path) -> Json {
    use std::io::Write;
    let n = int(s, "n");
    let mut blk = vec![];
    for k in 0..n {
        write!(&mut blk, "x-{}: v\r\n", k).unwrap();
    }
    let z = flag(s, "gz");
    let mut p = vec![];
    if z {
        let mut e = flate2::write::GzEncoder::new(&mut p, flate2::Compression::fast());
        e.write_all(&blk).unwrap();
        e.finish().unwrap();
    } else {
        blk.extend_from_slice(b"\r\n");
        p = blk.clone();
    }
    let mut f = format!("BARC2 {:012x} D{} {:05x} {:05x} {:010x} {:05x}\r\n\r\n",
        p.len(), if z { 'Z' } else { 'P' }, blk.len(), 0, 0, 0).into_bytes();
    f.extend_from_slice(&p);
    std::fs::write(path, &f).unwrap();
    let r = guard(|| {
        let mut rd = BarcFile::new(path).reader().unwrap();
        match rd.read(&tunables(10000, 1 << 20, 64, 64, tmp)) {
            Ok(Some(r)) => json!({"op": "many", "n": n, "k": "rec", "got": r.meta.len()}),
            Ok(None) => json!({"op": "many", "n": n, "k": "none", "got": 0}),
            Err(_) => json!({"op": "many", "n": n, "k": "err", "got": 0}),
        }
    });
    json!({"f": [], "ev": [r.unwrap_or_else(|p| p)]})
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("parse");
    let tmp = scratch.path().join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    let path = scratch.path().join("a.barc");
    each_script(args, |s, emit| match text(s, "mode") {
        "file" => emit(files(s, &path, &tmp)),
        _ => emit(many(s, &path, &tmp)),
    });
}
