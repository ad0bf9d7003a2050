//! BarcFormat.tla: the bytes of archives.

use crate::rec::*;
use crate::util::*;
use barc::{BarcFile, Record};
use http::header::{HeaderName, HeaderValue};
use http::HeaderMap;
use serde_json::json;
use std::io::{Read, Write};
use std::path::Path;

fn bytes(v: &Json) -> Vec<u8> {
    ints(v).iter().map(|b| *b as u8).collect()
}

fn map(v: &Json) -> HeaderMap {
    let mut m = HeaderMap::new();
    for p in v.as_array().unwrap() {
        m.append(HeaderName::from_bytes(&bytes(&p[0])).unwrap(),
                 HeaderValue::from_bytes(&bytes(&p[1])).unwrap());
    }
    m
}

fn pairs(m: &HeaderMap) -> Json {
    json!(m.iter().map(|(n, v)| json!([n.as_str().as_bytes(), v.as_bytes()])).collect::<Vec<_>>())
}

/// All of p as one compressed stream
fn unpack(z: &str, p: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    match z {
        "gzip" => {
            let mut r = flate2::bufread::GzDecoder::new(p);
            r.read_to_end(&mut out).ok()?;
            r.into_inner().is_empty().then_some(out)
        }
        _ => {
            brotli::Decompressor::new(p, 4096).read_to_end(&mut out).ok()?;
            Some(out)
        }
    }
}

fn pack(z: &str, p: &[u8]) -> Vec<u8> {
    match z {
        "gzip" => {
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::default());
            e.write_all(p).unwrap();
            e.finish().unwrap()
        }
        "brotli" => {
            let mut out = vec![];
            {
                let mut e = brotli::CompressorWriter::new(&mut out, 4096, 5, 21);
                e.write_all(p).unwrap();
            }
            out
        }
        _ => p.to_vec(),
    }
}

fn write(s: &Json, path: &Path, tmp: &Path) -> Vec<Json> {
    let bf = BarcFile::new(path);
    let mut evs = vec![];
    for e in s["recs"].as_array().unwrap() {
        let r = &e["r"];
        let z = text(&e["z"], "k");
        let rec = Record {
            meta: map(&r["m"]),
            req_headers: map(&r["qh"]),
            req_body: body_of(text(e, "fq"), &bytes(&r["q"]), 97, tmp),
            res_headers: map(&r["rh"]),
            res_body: body_of(text(e, "fs"), &bytes(&r["s"]), 97, tmp),
            ..Record::default()
        };
        let from = std::fs::metadata(path).map(|m| m.len()).unwrap_or(0) as usize;
        bf.writer().unwrap().write(&rec, strategy(&e["z"]).as_ref()).unwrap();
        let f = std::fs::read(path).unwrap()[from..].to_vec();
        let dec = if f.len() > 54 && f[20] != b'P' { unpack(z, &f[54..]) } else { None };
        evs.push(json!({"op": "written", "r": r, "z": z, "f": f, "dok": dec.is_some(),
                        "dec": dec.unwrap_or_default()}));
    }
    evs
}

fn read(s: &Json, path: &Path, tmp: &Path) -> Vec<Json> {
    let mut f = vec![];
    let recs = s["recs"].as_array().unwrap();
    for e in recs {
        let p = pack(text(e, "z"), &bytes(&e["p"]));
        let mut h = bytes(&e["h"]);
        h[6..18].copy_from_slice(format!("{:012x}", p.len()).as_bytes());
        f.extend(h);
        f.extend(p);
    }
    std::fs::write(path, &f).unwrap();
    let t = if flag(s, "small") { tunables(4, 1 << 20, 64, 64, tmp) }
            else { tunables(100_000, 1 << 20, 8192, 8192, tmp) };
    let mut rd = BarcFile::new(path).reader().unwrap();
    let mut evs = vec![];
    for k in 0..=recs.len() {
        let mut e = json!({"op": "end", "k": "err"});
        if k < recs.len() {
            e = json!({"op": "read", "r": recs[k]["r"], "k": "err", "m": [], "qh": [], "rh": [],
                       "q": [], "s": []});
        }
        match rd.read(&t) {
            Ok(None) => e["k"] = json!("none"),
            Ok(Some(r)) => {
                let b = |x| body_bytes(x).map(|b| json!(b)).unwrap_or(json!([-1]));
                e["k"] = json!("rec");
                e["m"] = pairs(&r.meta);
                e["qh"] = pairs(&r.req_headers);
                e["rh"] = pairs(&r.res_headers);
                e["q"] = b(&r.req_body);
                e["s"] = b(&r.res_body);
            }
            Err(_) => {}
        }
        let stop = e["k"] == "err";
        evs.push(e);
        if stop {
            break;
        }
    }
    evs
}

fn part(s: &Json, tmp: &Path) -> Vec<Json> {
    let m = map(&s["h"]);
    let b = body_of(text(s, "f"), &bytes(&s["b"]), 97, tmp);
    let mut evs = vec![];
    for pad in [false, true] {
        let mut out = vec![];
        let n = barc::write_headers(&mut out, pad, &m).unwrap();
        evs.push(json!({"op": "part", "what": "headers", "h": s["h"], "b": [], "pad": pad,
                        "n": n, "out": out}));
        let mut out = vec![];
        let n = barc::write_body(&mut out, pad, &b).unwrap();
        evs.push(json!({"op": "part", "what": "body", "h": [], "b": s["b"], "pad": pad,
                        "n": n, "out": out}));
    }
    evs
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("format");
    let tmp = scratch.path().join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    let path = scratch.path().join("a.barc");
    each_script(args, |s, emit| {
        let _ = std::fs::remove_file(&path);
        let r = guard(|| match text(s, "mode") {
            "write" => write(s, &path, &tmp),
            "read" => read(s, &path, &tmp),
            _ => part(s, &tmp),
        });
        emit(json!({"ev": r.unwrap_or_else(|p| vec![p])}));
    });
}
