//! Compress.tla and DialogConv.tla: choice of compression, dialogs as records.

use crate::rec::*;
use crate::util::*;
use barc::{
    BarcFile, BrotliCompressStrategy, CompressStrategy, DialogConvertError, EncodeWrapper,
    GzipCompressStrategy, MetaRecorded, NoCompressStrategy, Record,
};
use body_image::{BodyImage, Dialog, Encoding, Epilog, Prolog, Recorded, RequestRecorded};
use http::header::{HeaderName, HeaderValue};
use http::HeaderMap;
use serde_json::json;
use std::convert::TryFrom;
use std::path::Path;

// --- compression ----------------------------------------------------------------

/// A strategy as a user of the library would write
struct Custom {
    min: u64,
    id: Option<bool>,
    coef: f64,
    lvl: u32,
}

impl CompressStrategy for Custom {
    fn wrap_encoder<'a>(&self, rec: &dyn MetaRecorded, file: &'a std::fs::File)
        -> Result<EncodeWrapper<'a>, barc::BarcError>
    {
        Ok(if self.is_compressible(rec) {
            EncodeWrapper::gzip(file, self.lvl)
        } else {
            EncodeWrapper::plain(file)
        })
    }
    fn min_len(&self) -> u64 {
        self.min
    }
    fn non_compressible_coef(&self) -> f64 {
        self.coef
    }
    fn check_identity(&self) -> bool {
        self.id.unwrap_or_else(|| NoCompressStrategy::default().check_identity())
    }
}

/// As Custom, with only what is required
struct Bare(u32);

impl CompressStrategy for Bare {
    fn wrap_encoder<'a>(&self, rec: &dyn MetaRecorded, file: &'a std::fs::File)
        -> Result<EncodeWrapper<'a>, barc::BarcError>
    {
        Ok(if self.is_compressible(rec) {
            EncodeWrapper::gzip(file, self.0)
        } else {
            EncodeWrapper::plain(file)
        })
    }
}

fn strat(z: &Json) -> Box<dyn CompressStrategy> {
    // From -2 down: the largest there are
    let min = int(z, "min");
    let far = if min < -1 { Some(u64::MAX - (-2 - min) as u64) } else { None };
    let lvl = int(z, "lvl") as u32;
    let id = match text(z, "id") {
        "on" => Some(true),
        "off" => Some(false),
        _ => None,
    };
    match text(z, "k") {
        "none" => Box::new(NoCompressStrategy::default()),
        "gzip" => {
            let mut s = GzipCompressStrategy::default().set_compression_level(lvl);
            if min != -1 {
                s = s.set_min_len(far.unwrap_or(min as u64));
            }
            if let Some(b) = id {
                s = s.set_check_identity(b);
            }
            Box::new(s)
        }
        "brotli" => {
            let mut s = BrotliCompressStrategy::default().set_compression_level(lvl);
            if min != -1 {
                s = s.set_min_len(far.unwrap_or(min as u64));
            }
            if let Some(b) = id {
                s = s.set_check_identity(b);
            }
            Box::new(s)
        }
        "bare" => Box::new(Bare(lvl)),
        _ => Box::new(Custom {
            min: far.unwrap_or(min.max(0) as u64), id, coef: int(z, "coef") as f64 / 100.0, lvl,
        }),
    }
}

fn block(hs: &Json, extra: Option<(&'static str, &str)>) -> HeaderMap {
    let mut m = HeaderMap::new();
    for (k, h) in hs.as_array().unwrap().iter().enumerate() {
        let (n, v) = (h[0].as_u64().unwrap() as usize, h[1].as_u64().unwrap() as usize);
        // Names of equal length repeat
        let name = HeaderName::from_bytes("h".repeat(n).as_bytes()).unwrap();
        let val = HeaderValue::from_bytes(((b'a' + k as u8) as char).to_string().repeat(v).as_bytes());
        m.append(name, val.unwrap());
    }
    if let Some((n, v)) = extra {
        if !v.is_empty() {
            m.append(HeaderName::from_static(n), HeaderValue::from_str(v).unwrap());
        }
    }
    m
}

fn store(s: &Json, path: &Path, tmp: &Path) -> Json {
    let r = &s["r"];
    let body = |n: i64, b: u8| {
        if n % 2 == 0 {
            BodyImage::from_slice(vec![b; n as usize])
        } else {
            let mut k = body_image::BodySink::with_fs(tmp).unwrap();
            k.write_all(vec![b; n as usize]).unwrap();
            k.prepare().unwrap()
        }
    };
    let rec = Record {
        meta: block(&r["mh"], Some(("response-decoded", text(r, "dec")))),
        req_headers: block(&r["qh"], Some(("content-type", text(r, "qt")))),
        req_body: body(int(r, "ql"), b'q'),
        res_headers: block(&r["sh"], Some(("content-type", text(r, "st")))),
        res_body: body(int(r, "sl"), b's'),
        ..Record::default()
    };
    let z = strat(&s["z"]);
    let _ = std::fs::remove_file(path);
    let bf = BarcFile::new(path);
    let off = bf.writer().unwrap().write(&rec, z.as_ref()).unwrap();
    let f = std::fs::read(path).unwrap();
    let mode = (f[off as usize + 20] as char).to_string();
    let got = bf.reader().unwrap().read(&tunables(1 << 27, 1 << 27, 8192, 65536, tmp)).unwrap().unwrap();
    let same = got.meta == rec.meta && got.req_headers == rec.req_headers
        && got.res_headers == rec.res_headers
        && body_bytes(&got.req_body) == body_bytes(&rec.req_body)
        && body_bytes(&got.res_body) == body_bytes(&rec.res_body);
    json!({"op": "store", "r": r, "z": s["z"], "mode": mode, "api": z.is_compressible(&rec), "same": same})
}

fn levels(k: &str, path: &Path) -> Json {
    // Words in a pseudo-random order
    let words = ["archive ", "body ", "record ", "header ", "stream ", "sink ", "permit ", "pool ",
                 "alpha ", "beta ", "gamma ", "delta ", "x", "yz ", "compress ", "identity\n"];
    let mut rng = Rng(7);
    let mut t = String::new();
    while t.len() < 60000 {
        t.push_str(words[rng.below(16) as usize]);
        if rng.below(6) == 0 {
            t.push_str(&rng.below(1000).to_string());
        }
    }
    let size = |lvl: Option<u32>| {
        let _ = std::fs::remove_file(path);
        let rec = Record { res_body: BodyImage::from_slice(t.clone().into_bytes()), ..Record::default() };
        let z: Box<dyn CompressStrategy> = match k {
            "gzip" => {
                let z = GzipCompressStrategy::default().set_min_len(0).set_check_identity(false);
                Box::new(lvl.map_or(z, |l| z.set_compression_level(l)))
            }
            _ => {
                let z = BrotliCompressStrategy::default().set_min_len(0).set_check_identity(false);
                Box::new(lvl.map_or(z, |l| z.set_compression_level(l)))
            }
        };
        let mut h = HeaderMap::new();
        h.insert("content-type", HeaderValue::from_static("text/plain"));
        let rec = Record { res_headers: h, ..rec };
        BarcFile::new(path).writer().unwrap().write(&rec, z.as_ref()).unwrap();
        std::fs::metadata(path).unwrap().len()
    };
    let plain = format!("content-type: text/plain\r\n{}", t);
    let s: Vec<u64> = (0..10).map(|l| size(Some(l))).collect();
    let r: Vec<usize> = (0..10).map(|l| 54 + crate::rec::encode(if k == "gzip" { "Gzip" } else { "Brotli" }, plain.as_bytes(), l).len()).collect();
    json!({"op": "levels", "k": k, "n": t.len(), "s": s, "d": size(None), "r": r})
}

pub fn compress(args: &[String]) {
    let scratch = Scratch::new("compress");
    let tmp = scratch.path().join("tmp");
    std::fs::create_dir_all(&tmp).unwrap();
    let path = scratch.path().join("a.barc");
    each_script(args, |s, emit| {
        let r = guard(|| match s["levels"].as_str() {
            Some(k) => levels(k, &path),
            None => store(s, &path, &tmp),
        });
        emit(json!({"ev": [r.unwrap_or_else(|p| p)]}));
    });
}

// --- dialogs ----------------------------------------------------------------------

fn version(v: &str) -> http::Version {
    match v {
        "HTTP/0.9" => http::Version::HTTP_09,
        "HTTP/1.0" => http::Version::HTTP_10,
        "HTTP/1.1" => http::Version::HTTP_11,
        "HTTP/2.0" => http::Version::HTTP_2,
        "HTTP/3.0" => http::Version::HTTP_3,
        v => panic!("script: version {}", v),
    }
}

fn version_name(v: http::Version) -> &'static str {
    ["HTTP/0.9", "HTTP/1.0", "HTTP/1.1", "HTTP/2.0", "HTTP/3.0"].iter()
        .find(|n| version(n) == v).unwrap_or(&"?")
}

pub fn encoding(e: &str) -> Encoding {
    match e {
        "chunked" => Encoding::Chunked,
        "deflate" => Encoding::Deflate,
        "gzip" => Encoding::Gzip,
        "br" => Encoding::Brotli,
        "compress" => Encoding::Compress,
        "identity" => Encoding::Identity,
        e => panic!("script: encoding {}", e),
    }
}

pub fn encoding_name(e: Encoding) -> &'static str {
    match e {
        Encoding::Chunked => "chunked",
        Encoding::Deflate => "deflate",
        Encoding::Gzip => "gzip",
        Encoding::Brotli => "br",
        Encoding::Compress => "compress",
        Encoding::Identity => "identity",
    }
}

pub fn dialog(d: &Json, c: usize, tmp: &Path) -> Dialog {
    // Put together, some by replacing bodies and decoded encodings afterwards
    let mut w = whole(d, c, tmp);
    let dec = w.res_decoded().clone();
    let n = int(d, "status");
    if n % 3 > 0 {
        let b = w.req_body().clone();
        *w.req_body_mut() = BodyImage::from_slice("other");
        *w.req_body_mut() = b;
        let b = w.res_body().clone();
        w.set_res_body_decoded(BodyImage::from_slice("other"), vec![Encoding::Compress]);
        if n % 3 == 1 {
            w.set_res_body_decoded(b, dec);
        } else {
            w.set_res_decoded(dec);
            *w.res_body_mut() = b;
        }
    }
    w
}

fn whole(d: &Json, c: usize, tmp: &Path) -> Dialog {
    Dialog::new(
        Prolog {
            method: text(d, "method").parse().expect("script: method"),
            url: text(d, "url").parse().expect("script: url"),
            req_headers: hdrs(&d["qh"]),
            req_body: body(&d["qb"], c, tmp),
        },
        Epilog {
            version: version(text(d, "version")),
            status: http::StatusCode::from_u16(int(d, "status") as u16).unwrap(),
            res_decoded: d["decoded"].as_array().unwrap().iter()
                .map(|e| encoding(e.as_str().unwrap())).collect(),
            res_headers: hdrs(&d["rh"]),
            res_body: body(&d["rb"], c, tmp),
        },
    )
}

/// Projection of a dialog, the url as given where it is the same
pub fn proj_dialog(d: &Dialog, url: &str, c: usize) -> Json {
    let same = url.parse::<http::Uri>().map(|u| u == *d.url()).unwrap_or(false);
    let b = |b: &BodyImage| body_bytes(b).map(|b| bproject(&b, c)).unwrap_or(vec![-2]);
    json!({"method": d.method().as_str(), "url": if same { url.to_owned() } else { d.url().to_string() + " differs" },
           "version": version_name(d.res_version()), "status": d.res_status().as_u16(),
           "decoded": d.res_decoded().iter().map(|e| encoding_name(*e)).collect::<Vec<_>>(),
           "qh": proj_hdrs(d.req_headers()), "qb": b(d.req_body()),
           "rh": proj_hdrs(d.res_headers()), "rb": b(d.res_body())})
}

/// Metadata by name, in the form used in dialogs, with "?" for what isn't so
fn proj_meta(m: &HeaderMap, url: &str) -> Json {
    let mut names: Vec<&str> = m.keys().map(|n| n.as_str()).collect();
    names.sort_unstable();
    let one = |n: &str| {
        let mut vs = m.get_all(n).iter();
        match (vs.next().and_then(|v| v.to_str().ok()), vs.next()) {
            (Some(v), None) => v.to_owned(),
            _ => "?".to_owned(),
        }
    };
    let u = one("url");
    let same = match (u.parse::<http::Uri>(), url.parse::<http::Uri>()) {
        (Ok(a), Ok(b)) => a == b,
        _ => false,
    };
    let st = one("response-status");
    let code = match st.find(' ') {
        None => &st[..],
        Some(i) => &st[..i],
    };
    let dec = one("response-decoded");
    json!({"names": names, "url": if same { url } else { "?" }, "method": one("method"),
           "version": one("response-version"), "status": code.parse::<u16>().unwrap_or(0),
           "decoded": dec.split(',').map(|e| e.trim()).collect::<Vec<_>>()})
}

fn round(s: &Json, tmp: &Path) -> Json {
    let c = int(s, "c") as usize;
    let d = &s["d"];
    let mut want = d.clone();
    want["qb"] = d["qb"]["v"].clone();
    want["rb"] = d["rb"]["v"].clone();
    let url = text(d, "url");
    let rec = match Record::try_from(dialog(d, c, tmp)) {
        Ok(r) => r,
        Err(e) => return json!({"op": "dialog", "ok": false, "e": e.to_string(), "d": want, "got": {}}),
    };
    let rec2 = rec.clone();
    let meta = proj_meta(&rec.meta, url);
    match Dialog::try_from(rec) {
        Ok(g) => {
            let got = proj_dialog(&g, url, c);
            // And again by way of the dialog obtained
            let again = Record::try_from(g).map(|r| r.meta == rec2.meta).unwrap_or(false);
            json!({"op": "dialog", "ok": again, "d": want, "got": got, "meta": meta})
        }
        Err(e) => json!({"op": "dialog", "ok": false, "e": e.to_string(), "d": want, "got": {}}),
    }
}

const GOOD: &[(&str, &[(&[u8], &str)])] = &[
    ("url", &[(b"http://a.b/c?d", "http://a.b/c?d"), (b"/p", "/p"), (b"*", "*")]),
    ("method", &[(b"GET", "GET"), (b"POST", "POST"), (b"X-Y", "X-Y")]),
    ("version", &[(b"HTTP/1.1", "HTTP/1.1"), (b"HTTP/0.9", "HTTP/0.9"), (b"HTTP/1.0", "HTTP/1.0"),
        (b"HTTP/2.0", "HTTP/2.0"), (b"HTTP/3.0", "HTTP/3.0")]),
    ("status", &[(b"200 OK", "200"), (b"404", "404"), (b"599 <unknown status code>", "599"), (b"100 Continue", "100")]),
    ("decoded", &[(b"gzip", "gzip"), (b"chunked, gzip, identity", "chunked,gzip,identity"),
        (b"gzip,br", "gzip,br"), (b"deflate , identity", "deflate,identity"), (b"br", "br"), (b"compress", "compress")]),
];
const BAD: &[(&str, &[&[u8]])] = &[
    ("url", &[b"http://[", b"", b"http://a b/", b"http://a/\xe4", b"ht!tp://x y"]),
    ("method", &[b"GE T", b"", b"G\xe4T", b"GET,"]),
    ("version", &[b"HTTP/1.2", b"", b"http/1.1", b"HTTP/1.1 x", b"1.1", b"HTTP/11", b"HTTP/\xe4"]),
    ("status", &[b"20", b"", b"abc", b"099", b"2 0", b"\xe4\xe4\xe4", b"-20", b"1"]),
    ("decoded", &[b"gzip,foo", b"", b"gz\xe4p", b"gzip;q=1", b"gzip,,br", b"gzip br", b","]),
];
fn meta_name(f: &str) -> &'static str {
    match f {
        "url" => "url",
        "method" => "method",
        "version" => "response-version",
        "status" => "response-status",
        _ => "response-decoded",
    }
}

fn edited(s: &Json) -> Json {
    let f = &s["f"];
    let mut meta = HeaderMap::new();
    let mut states = json!({});
    let mut want = vec![];
    for k in 0..5 {
        let (name, good) = GOOD[k];
        let st = &f[name];
        states[name] = st["s"].clone();
        let n = int(st, "n") as usize - 1;
        let v: &[u8] = match text(st, "s") {
            "ok" => {
                want.push(good[n].1);
                good[n].0
            }
            "bad" => {
                want.push("");
                BAD[k].1[n]
            }
            _ => {
                want.push("");
                continue;
            }
        };
        meta.append(HeaderName::from_static(meta_name(name)), HeaderValue::from_bytes(v).unwrap());
    }
    use DialogConvertError::*;
    let rec = Record { meta, ..Record::default() };
    let mut vals = false;
    let res = match Dialog::try_from(rec) {
        Ok(d) => {
            let dec = d.res_decoded().iter().map(|e| encoding_name(*e)).collect::<Vec<_>>().join(",");
            vals = [d.url().to_string().as_str(), d.method().as_str(), version_name(d.res_version()),
                    d.res_status().as_str(), &dec] == want[..];
            "ok"
        }
        Err(NoMetaUrl) => "no url",
        Err(InvalidUrl(_)) => "bad url",
        Err(NoMetaMethod) => "no method",
        Err(InvalidMethod(_)) => "bad method",
        Err(NoMetaResVersion) => "no version",
        Err(InvalidVersion(_)) => "bad version",
        Err(NoMetaResStatus) => "no status",
        Err(MalformedMetaResStatus) | Err(InvalidStatusCode(_)) => "bad status",
        Err(InvalidResDecoded(_)) => "bad decoded",
        Err(_) => "other",
    };
    json!({"op": "record", "f": states, "res": res, "vals": vals})
}

pub fn convert(args: &[String]) {
    let scratch = Scratch::new("convert");
    each_script(args, |s, emit| {
        let r = guard(|| match text(s, "mode") {
            "dialog" => round(s, scratch.path()),
            _ => edited(s),
        });
        emit(json!({"ev": [r.unwrap_or_else(|p| p)]}));
    });
}
