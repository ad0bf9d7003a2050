//! CliRecord.tla: the command record of the real program.

use crate::cli::{archive, barc, fresh, same_record};
use crate::rec::{bexpand, body_bytes};
use crate::server::Server;
use crate::util::*;
use barc::BarcFile;
use body_image::Tunables;
use http::HeaderMap;
use serde_json::json;
use std::fs;
use std::io::Write;

fn encode(z: &str, b: &[u8], lvl: u32) -> Vec<u8> {
    match z {
        "Gzip" => {
            let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(lvl));
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "Deflate" => {
            let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::new(lvl));
            e.write_all(b).unwrap();
            e.finish().unwrap()
        }
        "Brotli" => {
            let mut out = vec![];
            {
                let mut e = brotli::CompressorWriter::new(&mut out, 4096, lvl.max(1), 21);
                e.write_all(b).unwrap();
            }
            out
        }
        _ => b.to_vec(),
    }
}

fn without(h: &HeaderMap, names: &[&str]) -> HeaderMap {
    let mut h = h.clone();
    for n in names {
        h.remove(*n);
    }
    h
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("record");
    let base = fs::canonicalize(scratch.path()).unwrap();
    each_script(args, |s, emit| {
        let dir = fresh(&base);
        let (p, o) = (&s["p"], &s["o"]);
        let plain = bexpand(&ints(&p["v"]), int(p, "c") as usize);
        let mut sent = encode(text(p, "z"), &plain, int(p, "lvl") as u32);
        if flag(p, "cut") && text(p, "z") != "" {
            let n = sent.len();
            sent.truncate(n * int(p, "at") as usize / 1000);
        }
        let old = archive(&dir, "out.barc", 0, s["old"].as_array().unwrap(), 7);
        if old.recs.is_empty() && flag(o, "new") {
            fs::remove_file(&old.path).unwrap();
        }
        let was = fs::read(&old.path).unwrap_or_default();

        let stop = text(p, "stop");
        let mut sp = p.clone();
        let mut xh = vec![json!(["Content-Type", p["type"]])];
        for (k, n) in [("te", "Transfer-Encoding"), ("ce", "Content-Encoding")].iter() {
            for l in p[*k].as_array().unwrap() {
                let ns: Vec<&str> = l.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
                xh.push(json!([n, ns.join(", ")]));
            }
        }
        if stop == "biglen" {
            xh.push(json!(["Content-Length", "2147483648"]));
            sp["stop"] = json!("ok");
        }
        if stop == "refuse" {
            sp["stop"] = json!("nohead");
        }
        sp["xh"] = json!(xh);
        let srv = Server::start(&sp, Some(sent.clone()));
        let port = if stop == "refuse" {
            // A port that is taken but not listened to
            1
        } else {
            srv.port
        };
        let url = match text(o, "url") {
            "nonsense" => "http://".to_owned(),
            "noscheme" => "/path/only".to_owned(),
            _ => format!("http://127.0.0.1:{}/some/path?q={}", port, int(p, "at")),
        };
        let mut a = vec!["record".to_owned()];
        match text(o, "z") {
            "Z" => a.push("--gzip".into()),
            "B" => a.push("-b".into()),
            _ => {}
        }
        if !flag(o, "decode") {
            a.push("--no-decode".into());
        }
        if text(o, "accept") != "" {
            a.push("--accept".into());
            a.push(text(o, "accept").into());
        }
        a.push(url.clone());
        match text(o, "file") {
            "nodir" => a.push(format!("{}/none/out.barc", dir.display())),
            "isdir" => a.push(format!("{}", dir.display())),
            _ => a.push(old.path.clone()),
        }
        let limit = if flag(o, "full") { was.len() as i64 + int(o, "room") } else { -1 };
        let r = barc(&a, &dir, limit);
        let seen = srv.finish();
        let now = fs::read(&old.path).unwrap_or_default();

        let mut all = vec![];
        let mut clean = true;
        let mut last = 0;
        if !now.is_empty() {
            let tune = Tunables::new();
            let mut rd = BarcFile::new(&old.path).reader().unwrap();
            loop {
                let at = rd.offset() as usize;
                match rd.read(&tune) {
                    Ok(Some(x)) => {
                        all.push(x);
                        last = at;
                    }
                    Ok(None) => {
                        clean = at == now.len();
                        break;
                    }
                    Err(_) => {
                        clean = false;
                        break;
                    }
                }
            }
        }
        let n = old.recs.len();
        let kept = now.starts_with(&was) && all.len() >= n
            && old.recs.iter().zip(&all).all(|(a, b)| same_record(a, b));
        let more = all.len() as i64 - n as i64;
        let mut ev = json!({"op": "record", "code": r.code, "kept": kept, "clean": clean, "more": more,
                            "err": String::from_utf8_lossy(&r.err)});
        if more == 1 {
            let x = &all[n];
            let meta = |n: &str| x.meta.get(n).and_then(|v| v.to_str().ok()).unwrap_or("");
            let body = body_bytes(&x.res_body).unwrap_or(b"unreadable".to_vec());
            let cap = |e: &str| match e.trim() {
                "chunked" => "Chunked", "gzip" => "Gzip", "deflate" => "Deflate", "br" => "Brotli",
                "compress" => "Compress", "identity" => "Identity", _ => "?",
            }.to_owned();
            let dec: Vec<String> = if meta("response-decoded").is_empty() { vec![] }
                else { meta("response-decoded").split(',').map(cap).collect() };
            let status: i64 = meta("response-status").split(' ').next().unwrap().parse().unwrap_or(-1);
            let mut rh = HeaderMap::new();
            for (n, v) in crate::rec::hdrs(&p["hv"]).iter() {
                rh.append(n, v.clone());
            }
            for h in &xh {
                rh.append(http::header::HeaderName::from_bytes(h[0].as_str().unwrap().as_bytes()).unwrap(),
                          h[1].as_str().unwrap().parse().unwrap());
            }
            match text(p, "fr") {
                "cl" => {
                    rh.append("content-length", sent.len().into());
                }
                "chunked" => {
                    rh.append("transfer-encoding", "chunked".parse().unwrap());
                }
                _ => {}
            }
            let qh = seen.len() == 1
                && without(&x.req_headers, &["host"]) == without(&seen[0].headers, &["host"]);
            let acc = x.req_headers.get("accept").and_then(|v| v.to_str().ok()).unwrap_or("");
            let acc = if acc == text(o, "accept") { text(o, "accept") } else if text(o, "accept") == ""
                && acc == body_image_futio::BROWSE_ACCEPT { "" } else { "?" };
            ev["rec"] = json!({"method": meta("method"), "url": meta("url") == url, "status": status,
                "ver": meta("response-version"), "dec": dec, "plain": body == plain, "sent": body == sent, "qh": qh,
                "rh": without(&x.res_headers, &["connection"]) == rh, "nobody": x.req_body.is_empty(),
                "accept": acc, "mode": (now[last + 20] as char).to_string()});
        }
        emit(json!({"p": p, "o": o, "args": a[1..], "ev": [ev]}));
    });
}
