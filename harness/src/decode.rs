//! Decode.tla: decoding response bodies.

use crate::body::{fault_class, faults_for};
use crate::rec::{bexpand, body_bytes, body_of, bproject, encode};
use crate::sys::{self, Fault};
use crate::util::*;
use body_image::*;
use body_image_futio::*;
use http::header::{HeaderValue, CONTENT_ENCODING, TRANSFER_ENCODING};
use http::HeaderMap;
use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::path::Path;

fn dialog(s: &Json, data: &[u8], dir: &Path) -> Dialog {
    let mut h = HeaderMap::new();
    for (name, key) in [(TRANSFER_ENCODING, "te"), (CONTENT_ENCODING, "ce")] {
        for line in s[key].as_array().unwrap() {
            let ns: Vec<&str> = line.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
            h.append(&name, HeaderValue::from_str(&ns.join(", ")).unwrap());
        }
    }
    h.append("content-length", HeaderValue::from(data.len()));
    let list = |n: &Json| match n.as_str().unwrap() {
        "Chunked" => Encoding::Chunked,
        n => panic!("script: encoding {}", n),
    };
    Dialog::new(
        Prolog {
            method: http::Method::POST,
            url: "http://host/path".parse().unwrap(),
            req_headers: HeaderMap::new(),
            req_body: BodyImage::from_slice(&b"request"[..]),
        },
        Epilog {
            version: http::Version::HTTP_11,
            status: http::StatusCode::OK,
            res_decoded: s["dec"].as_array().unwrap().iter().map(list).collect(),
            res_headers: h,
            res_body: body_of(text(s, "f"), data, 1 + data.len() / 3, dir),
        },
    )
}

fn look(d: &Dialog, s: &Json) -> Json {
    let c = int(s, "c") as usize;
    let b = body_bytes(d.res_body()).unwrap_or_else(|e| e.into_bytes());
    let mut h = DefaultHasher::new();
    b.hash(&mut h);
    format!("{:?} {:?} {:?} {:?} {:?} {:?}", d.method(), d.url(), d.req_headers(), d.res_headers(),
            d.res_status(), d.res_version()).hash(&mut h);
    body_bytes(d.req_body()).unwrap().hash(&mut h);
    let v = if b.len() == c * ints(&s["v"]).len() { bproject(&b, c) } else { vec![] };
    json!({"v": v, "len": d.res_body().len(), "mem": d.res_body().is_ram(), "id": format!("{:x}", h.finish()),
           "dec": d.res_decoded().iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>()})
}

fn decode_one(s: &Json, how: &str, at: i64, data: &[u8], dir: &Path, plan: &[(usize, Fault)])
    -> (Json, Vec<(&'static str, i64)>)
{
    // Files are tracked from when they are opened
    sys::start(dir);
    let mut d = dialog(s, data, dir);
    let est = |z: &str| int(&s["est"], z) as u16;
    let max = int(s, "max");
    // Next to the estimated length, where the script says so
    let ram = match ints(&s["at"])[..] {
        [k, off] => (data.len() as i64 * k + off).clamp(0, max),
        _ => int(s, "ram"),
    };
    let mut t = Tuner::new();
    // 2^30 stands for the largest limit
    let limit = |n: i64| if n == 0x4000_0000 { u64::MAX } else { n as u64 };
    t.set_max_body(limit(max)).set_max_body_ram(limit(ram));
    t.set_buffer_size_ram(int(s, "br") as usize).set_buffer_size_fs(int(s, "bf") as usize);
    if est("Deflate") > 0 { t.set_size_estimate_deflate(est("Deflate")); }
    if est("Gzip") > 0 { t.set_size_estimate_gzip(est("Gzip")); }
    if est("Brotli") > 0 { t.set_size_estimate_brotli(est("Brotli")); }
    let tune = t.set_temp_dir(dir).finish();
    let bef = look(&d, s);
    sys::take();
    let n0 = sys::count();
    sys::plan(&plan.iter().map(|(k, f)| (n0 + k, *f)).collect::<Vec<_>>());
    let r = guard(|| decode_res_body(&mut d, &tune));
    let evs = sys::take();
    sys::stop();
    let (r, kind) = match r {
        Ok(Ok(true)) => ("true", ""),
        Ok(Ok(false)) => ("false", ""),
        Ok(Err(FutioError::UnsupportedEncoding(_))) => ("err", "unsupported"),
        Ok(Err(FutioError::Body(BodyError::BodyTooLong(_)))) => ("err", "long"),
        Ok(Err(_)) => ("err", "other"),
        Err(p) => return (p, vec![]),
    };
    let flt = fault_class(&evs);
    let ev = json!({"op": "dec", "how": how, "at": at, "ram": ram, "flt": flt, "r": r, "kind": kind, "bef": bef, "aft": look(&d, s),
                    "plan": plan.iter().map(|(i, f)| format!("{}:{:?}", i, f)).collect::<Vec<_>>()});
    (ev, evs.iter().map(|e| (e.call, e.req)).collect())
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("decode");
    each_script(args, |s, emit| {
        let plain = bexpand(&ints(&s["v"]), int(s, "c") as usize);
        let data = encode(text(s, "z"), &plain, int(s, "lvl") as u32);
        let dir = scratch.path();
        let n = data.len();
        let mut evs = vec![];
        let (ev, calls) = decode_one(s, "intact", 0, &data, dir, &[]);
        evs.push(ev);
        for (k, (call, req)) in calls.iter().enumerate().take(int_or(s, "faults", 0) as usize) {
            for f in faults_for(call, *req) {
                evs.push(decode_one(s, "intact", 0, &data, dir, &[(k, f)]).0);
            }
        }
        let mut rng = Rng(int_or(s, "rnd", 1) as u64);
        let cuts = int_or(s, "cuts", 0) as usize;
        let at: Vec<usize> = if n <= cuts { (0..n).collect() } else {
            (0..cuts).map(|k| match k {
                0..=9 => n - 1 - k,
                10..=15 => k - 10,
                _ => rng.below(n as u64) as usize,
            }.min(n - 1)).collect()
        };
        for k in at {
            evs.push(decode_one(s, "cut", k as i64, &data[..k], dir, &[]).0);
        }
        for k in 0..int_or(s, "flips", 0) as usize {
            if n == 0 { break; }
            let at = match k {
                0..=9 => (n - 1).saturating_sub(k),
                _ => rng.below(n as u64) as usize,
            };
            let mut b = data.clone();
            b[at] ^= 1 << rng.below(8);
            evs.push(decode_one(s, "flip", at as i64, &b, dir, &[]).0);
        }
        emit(json!({"d": s, "ev": evs}));
    });
}
