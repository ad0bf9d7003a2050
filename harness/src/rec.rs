//! Archive records from and to the values used by the specifications.

use crate::util::*;
#[cfg(feature = "brotli")]
use barc::BrotliCompressStrategy;
use barc::{CompressStrategy, GzipCompressStrategy, NoCompressStrategy, Record, RecordType};
use body_image::{BodyImage, BodySink, Tunables, Tuner};
use http::header::{HeaderName, HeaderValue};
use http::HeaderMap;
use olio::fs::rc::ReadSlice;
use serde_json::json;
use std::fs::File;
use std::io::{Read, Write};
use std::path::Path;
use std::sync::Arc;

pub const NAMES: &[&str] = &[
    "a", "content-type", "x-long-header-name-with-dashes_and_underscores.0123456789",
    "set-cookie", "url", "content-length", "transfer-encoding", "!#$%&'*+.^_`|~",
];

pub fn value(v: i64) -> Vec<u8> {
    match v {
        0 => b"".to_vec(),
        1 => b"v".to_vec(),
        2 => b"with: colon, comma; \"quote\" and  two blanks".to_vec(),
        3 => (0x80u8..=0xff).collect(),
        4 => b"in\tside".to_vec(),
        5 => vec![b'x'; 9000],
        6 => b"BARC2 000000000000 DP 00000 00000 0000000000 00000".to_vec(),
        7 => b"text/html; charset=utf-8".to_vec(),
        8 => b"0".to_vec(),
        9 => b"gzip, identity".to_vec(),
        _ => format!("value-{}", v).into_bytes(),
    }
}

fn unvalue(b: &[u8]) -> i64 {
    (0..10)
        .find(|v| value(*v) == b)
        .or_else(|| {
            std::str::from_utf8(b).ok().and_then(|s| s.strip_prefix("value-")).and_then(|s| s.parse().ok())
        })
        .unwrap_or(-1)
}

/// Map for {"h": [[name, [values]]], "b": count of further headers}
pub fn hdrs(v: &Json) -> HeaderMap {
    let mut m = HeaderMap::new();
    let hs: Vec<(i64, Vec<i64>)> = v["h"].as_array().unwrap().iter()
        .map(|h| (h[0].as_i64().unwrap(), ints(&h[1]))).collect();
    // Values of different names in turn
    let most = hs.iter().map(|h| h.1.len()).max().unwrap_or(0);
    for k in 0..most {
        for (n, vs) in &hs {
            if let Some(x) = vs.get(k) {
                m.append(
                    HeaderName::from_static(NAMES[*n as usize]),
                    HeaderValue::from_bytes(&value(*x)).unwrap(),
                );
            }
        }
    }
    for k in 0..int_or(v, "b", 0) {
        m.append(
            HeaderName::from_bytes(format!("x-b-{}", k).as_bytes()).unwrap(),
            HeaderValue::from_bytes(&value(100 + k)).unwrap(),
        );
    }
    m
}

pub fn proj_hdrs(m: &HeaderMap) -> Json {
    let mut out = vec![];
    let mut seen = 0;
    for (n, name) in NAMES.iter().enumerate() {
        let vs: Vec<i64> = m.get_all(*name).iter().map(|v| unvalue(v.as_bytes())).collect();
        seen += vs.len();
        if !vs.is_empty() {
            out.push(json!([n, vs]));
        }
    }
    let mut b = 0i64;
    while let Some(v) = m.get(format!("x-b-{}", b).as_str()) {
        if unvalue(v.as_bytes()) != 100 + b {
            break;
        }
        seen += 1;
        b += 1;
    }
    if seen != m.len() {
        b = -1;
    }
    json!({"h": out, "b": b})
}

/// Byte of a cell, with particular content for some values
pub fn bcell(v: i64, i: usize, c: usize) -> u8 {
    const HEAD: &[u8; 54] = b"BARC2 00000000000a DP 00000 00000 0000000000 00000\r\n\r\n";
    match v {
        _ if c == 1 => v as u8,
        200 => b"\r\n"[i % 2],
        201 => HEAD[i % 54],
        202 => 0,
        203 => b"compressible text "[i % 18],
        _ => cell_byte(v, i, c),
    }
}

pub fn bexpand(vs: &[i64], c: usize) -> Vec<u8> {
    vs.iter().flat_map(|v| (0..c).map(move |i| bcell(*v, i, c))).collect()
}

pub fn bproject(b: &[u8], c: usize) -> Vec<i64> {
    b.chunks(c)
        .map(|ch| {
            if ch.len() < c {
                return -1;
            }
            let is = |v: &i64| ch.iter().enumerate().all(|(i, x)| *x == bcell(*v, i, c));
            if c == 1 {
                return ch[0] as i64;
            }
            (0..256).find(is).unwrap_or(-1)
        })
        .collect()
}

/// Map the body, if it is not empty and the build can
pub fn map(b: &mut BodyImage) -> Result<(), body_image::BodyError> {
    #[cfg(feature = "mmap")]
    if !b.is_empty() {
        b.mem_map()?;
    }
    let _ = b;
    Ok(())
}

pub fn encode(z: &str, b: &[u8], lvl: u32) -> Vec<u8> {
    match z {
        "Gzip" => {
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(lvl));
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "Deflate" => {
            let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(lvl));
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "Brotli" => {
            let mut out = vec![];
            {
                let mut e = brotli::CompressorWriter::new(&mut out, 4096, lvl.max(1), 21);
                e.write_all(b).unwrap();
            }
            out
        }
        "" => b.to_vec(),
        _ => panic!("script: compression {}", z),
    }
}

/// Image for {"f": form, "v": [cells]}
pub fn body(v: &Json, c: usize, dir: &Path) -> BodyImage {
    body_of(text(v, "f"), &bexpand(&ints(&v["v"]), c), c, dir)
}

/// Image of the given form, written in chunks of c bytes
pub fn body_of(form: &str, b: &[u8], c: usize, dir: &Path) -> BodyImage {
    let sink = |mut s: BodySink| {
        for ch in b.chunks(c) {
            s.write_all(ch).unwrap();
        }
        s
    };
    let file = || {
        let mut f = tempfile(dir);
        f.write_all(b"preface").unwrap();
        f.write_all(b).unwrap();
        f.write_all(b"and the rest").unwrap();
        f
    };
    let sliced = |f: File| {
        let rs = ReadSlice::new(Arc::new(f), 7, 7 + b.len() as u64);
        unsafe { BodyImage::from_read_slice(rs) }
    };
    match form {
        "slice" => BodyImage::from_slice(b.to_vec()),
        "ram" => sink(BodySink::with_ram_buffers(2)).prepare().unwrap(),
        "gath" => {
            let mut i = sink(BodySink::with_ram_buffers(2)).prepare().unwrap();
            i.gather();
            i
        }
        "fs" => sink(BodySink::with_fs(dir).unwrap()).prepare().unwrap(),
        "back" => {
            let mut s = sink(BodySink::with_ram_buffers(2));
            s.write_back(dir).unwrap();
            s.prepare().unwrap()
        }
        "map" => {
            let mut i = sink(BodySink::with_fs(dir).unwrap()).prepare().unwrap();
            map(&mut i).unwrap();
            i
        }
        "fslice" => sliced(file()),
        "mslice" => {
            let mut i = sliced(file());
            map(&mut i).unwrap();
            i
        }
        f => panic!("script: body form {}", f),
    }
}

pub fn tempfile(dir: &Path) -> File {
    use std::os::unix::fs::OpenOptionsExt;
    std::fs::OpenOptions::new().read(true).write(true)
        .custom_flags(libc::O_TMPFILE).open(dir).unwrap()
}

pub fn record(v: &Json, c: usize, dir: &Path) -> Record {
    Record {
        rec_type: RecordType::Dialog,
        meta: hdrs(&v["m"]),
        req_headers: hdrs(&v["qh"]),
        req_body: body(&v["qb"], c, dir),
        res_headers: hdrs(&v["rh"]),
        res_body: body(&v["rb"], c, dir),
    }
}

/// Content of a record as written by the script
pub fn intended(v: &Json) -> Json {
    json!({"t": "D", "m": v["m"], "qh": v["qh"], "qb": v["qb"]["v"],
           "rh": v["rh"], "rb": v["rb"]["v"]})
}

pub fn body_bytes(b: &BodyImage) -> Result<Vec<u8>, String> {
    let mut got = vec![];
    b.write_to(&mut got).map_err(|e| e.to_string())?;
    let mut got2 = vec![];
    b.reader().read_to_end(&mut got2).map_err(|e| e.to_string())?;
    if got != got2 || got.len() as u64 != b.len() {
        return Err("write_to, reader and len differ".into());
    }
    Ok(got)
}

pub fn content(r: &Record, c: usize) -> Json {
    let bytes = |b: &BodyImage| match body_bytes(b) {
        Ok(b) => bproject(&b, c),
        Err(_) => vec![-2],
    };
    json!({"t": if r.rec_type == RecordType::Dialog { "D" } else { "?" },
           "m": proj_hdrs(&r.meta), "qh": proj_hdrs(&r.req_headers), "qb": bytes(&r.req_body),
           "rh": proj_hdrs(&r.res_headers), "rb": bytes(&r.res_body)})
}

/// A strategy that compresses whatever the record
struct Force(bool, u32);

impl CompressStrategy for Force {
    fn wrap_encoder<'a>(&self, _rec: &dyn barc::MetaRecorded, file: &'a std::fs::File)
        -> Result<barc::EncodeWrapper<'a>, barc::BarcError>
    {
        #[cfg(feature = "brotli")]
        if !self.0 {
            return Ok(barc::EncodeWrapper::brotli(file, self.1));
        }
        assert!(self.0, "script: strategy");
        Ok(barc::EncodeWrapper::gzip(file, self.1))
    }
}

pub fn strategy(z: &Json) -> Box<dyn CompressStrategy> {
    match text(z, "k") {
        k if k != "none" && flag(z, "f") => Box::new(Force(k == "gzip", int(z, "lvl") as u32)),
        "none" => Box::new(NoCompressStrategy::default()),
        "gzip" => {
            let mut s = GzipCompressStrategy::default();
            if let Some(m) = z["min"].as_u64() {
                s = s.set_min_len(m);
            }
            if let Some(l) = z["lvl"].as_u64() {
                s = s.set_compression_level(l as u32);
            }
            if let Some(i) = z["id"].as_bool() {
                s = s.set_check_identity(i);
            }
            Box::new(s)
        }
        #[cfg(feature = "brotli")]
        "brotli" => {
            let mut s = BrotliCompressStrategy::default();
            if let Some(m) = z["min"].as_u64() {
                s = s.set_min_len(m);
            }
            if let Some(l) = z["lvl"].as_u64() {
                s = s.set_compression_level(l as u32);
            }
            if let Some(i) = z["id"].as_bool() {
                s = s.set_check_identity(i);
            }
            Box::new(s)
        }
        k => panic!("script: strategy {}", k),
    }
}

/// Tunables for memory threshold and maximum in bytes
pub fn tunables(mr: u64, mb: u64, br: usize, bf: usize, dir: &Path) -> Tunables {
    let mut t = Tuner::new();
    t.set_max_body(mb.max(mr)).set_max_body_ram(mr);
    t.set_buffer_size_ram(br).set_buffer_size_fs(bf).set_temp_dir(dir);
    t.finish()
}
