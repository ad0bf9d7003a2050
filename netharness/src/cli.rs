//! Cli.tla: the commands cat and cp of the real program.

use crate::rec::{bexpand, body_bytes, record, strategy};
use crate::util::*;
use barc::{BarcFile, Record};
use body_image::{BodyImage, Tunables};
use http::header::{HeaderName, HeaderValue};
use http::HeaderMap;
use serde_json::json;
use std::fs;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Ran {
    /// Exit status, or -1 if ended by a signal
    pub code: i64,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}

/// Run the program; no file may grow beyond the limit, if not negative.
pub fn barc(args: &[String], cwd: &Path, limit: i64) -> Ran {
    let exe = std::env::current_exe().unwrap().with_file_name("barc-net");
    let mut c = Command::new(exe);
    c.args(args).current_dir(cwd).stdin(Stdio::null());
    unsafe {
        c.pre_exec(move || {
            // Without a limit given, one that only an endless copy would reach
            let n = if limit >= 0 { limit as u64 } else { 1 << 28 };
            libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
            let l = libc::rlimit { rlim_cur: n, rlim_max: n };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            Ok(())
        });
    }
    let mut child = c.stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("script: program");
    let pid = child.id();
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    use std::io::Read;
    let t = std::thread::spawn(move || {
        let mut b = vec![];
        let _ = se.read_to_end(&mut b);
        b
    });
    // A program that runs on and on is ended, and fails.
    let (tx, rx) = std::sync::mpsc::channel::<()>();
    let w = std::thread::spawn(move || {
        if let Err(std::sync::mpsc::RecvTimeoutError::Timeout) = rx.recv_timeout(std::time::Duration::from_secs(40)) {
            unsafe { libc::kill(pid as i32, libc::SIGKILL) };
        }
    });
    let mut out = vec![];
    // Not more than any output there should be
    let _ = so.by_ref().take(200 << 20).read_to_end(&mut out);
    drop(so);
    let st = child.wait().unwrap();
    drop(tx);
    w.join().unwrap();
    Ran { code: st.code().map(|c| c as i64).unwrap_or(-1), out, err: t.join().unwrap() }
}

const PARTS: [(&str, &str); 5] =
    [("m", "--meta"), ("qh", "--req-head"), ("qb", "--req-body"), ("rh", "--res-head"), ("rb", "--res-body")];

fn mark(h: &mut HeaderMap, id: &str) {
    if !h.is_empty() {
        h.append(HeaderName::from_static("x-id"), HeaderValue::from_str(id).unwrap());
    }
}

fn put(h: &mut HeaderMap, n: &'static str, v: &str) {
    h.append(HeaderName::from_static(n), HeaderValue::from_str(v).unwrap());
}

/// A record, all parts of which that are not empty are unique by f and k
fn make(v: &Json, f: usize, k: usize, c: usize, tmp: &Path) -> Record {
    let mut r = record(&v["r"], c, tmp);
    let kind = text(v, "kind");
    if kind != "any" {
        r.meta = HeaderMap::new();
        r.req_headers = HeaderMap::new();
        r.res_headers = HeaderMap::new();
        r.req_body = BodyImage::empty();
        put(&mut r.meta, "status", "200");
        put(&mut r.res_headers, "content-type", if kind == "image" { "image/png" } else { "text/html" });
        put(&mut r.meta, "response-decoded", if kind == "coded" { "chunked" } else { "identity" });
        r.res_body = BodyImage::from_slice(bexpand(&[203, 203, 203, 203, 203, 203, 203, 203], 900));
    }
    if r.meta.is_empty() && r.req_headers.is_empty() && r.res_headers.is_empty()
        && r.req_body.is_empty() && r.res_body.is_empty()
    {
        put(&mut r.meta, "x-only", "meta");
    }
    mark(&mut r.meta, &format!("{}.{}.m", f, k));
    mark(&mut r.req_headers, &format!("{}.{}.qh", f, k));
    mark(&mut r.res_headers, &format!("{}.{}.rh", f, k));
    for (b, n) in vec![(&mut r.req_body, "qb"), (&mut r.res_body, "rb")] {
        if !b.is_empty() {
            let mut v = format!("<{}.{}.{}>", f, k, n).into_bytes();
            v.extend(body_bytes(b).unwrap());
            *b = BodyImage::from_slice(v);
        }
    }
    r
}

fn block(h: &HeaderMap) -> Vec<u8> {
    let mut v = vec![];
    for (n, x) in h.iter() {
        v.extend_from_slice(n.as_str().as_bytes());
        v.extend_from_slice(b": ");
        v.extend_from_slice(x.as_bytes());
        v.extend_from_slice(b"\r\n");
    }
    if !v.is_empty() {
        v.extend_from_slice(b"\r\n");
    }
    v
}

fn bodied(b: &BodyImage) -> Vec<u8> {
    let mut v = body_bytes(b).unwrap();
    if !v.is_empty() {
        v.extend_from_slice(b"\r\n");
    }
    v
}

fn pieces(r: &Record) -> Vec<(&'static str, Vec<u8>)> {
    vec![("m", block(&r.meta)), ("qh", block(&r.req_headers)), ("qb", bodied(&r.req_body)),
         ("rh", block(&r.res_headers)), ("rb", bodied(&r.res_body))]
}

pub fn same_record(a: &Record, b: &Record) -> bool {
    a.rec_type == b.rec_type && pieces(a) == pieces(b)
        && a.meta == b.meta && a.req_headers == b.req_headers && a.res_headers == b.res_headers
}

pub struct Arc {
    pub path: String,
    pub recs: Vec<Record>,
    offs: Vec<u64>,
    kinds: Vec<String>,
    dam: String,
    end: u64,
    /// Length of a hole in the file, before the first record
    hole: u64,
}

impl Arc {
    fn content(&self) -> Option<Vec<u8>> {
        use std::io::{Read, Seek, SeekFrom};
        let mut f = fs::File::open(&self.path).ok()?;
        f.seek(SeekFrom::Start(self.hole)).ok()?;
        let mut v = vec![];
        f.read_to_end(&mut v).ok()?;
        Some(v)
    }
}

pub fn archive(dir: &Path, name: &str, f: usize, recs: &[Json], c: usize) -> Arc {
    archive_at(0, dir, name, f, recs, c)
}

fn archive_at(hole: u64, dir: &Path, name: &str, f: usize, recs: &[Json], c: usize) -> Arc {
    let p = dir.join(name);
    if hole > 0 {
        fs::File::create(&p).unwrap().set_len(hole).unwrap();
    }
    let bf = BarcFile::new(&p);
    let mut w = bf.writer().unwrap();
    let mut a = Arc { path: p.to_str().unwrap().into(), recs: vec![], offs: vec![], kinds: vec![],
                      dam: "none".into(), end: 0, hole };
    for (k, v) in recs.iter().enumerate() {
        let r = make(v, f, k + 1, c, dir);
        let z = json!({"k": v["z"], "f": true, "lvl": 3});
        a.offs.push(w.write(&r, &*strategy(&z)).unwrap());
        a.recs.push(r);
        a.kinds.push(text(v, "kind").into());
    }
    drop(w);
    if !p.exists() {
        fs::write(&p, b"").unwrap();
    }
    a.end = fs::metadata(&p).unwrap().len();
    a
}

fn input(s: &Json, i: usize, dir: &Path, c: usize) -> Arc {
    let v = &s["files"][i];
    let name = ["a.barc", "second-name.barc", "c"][i];
    let mut recs = v["recs"].as_array().unwrap().clone();
    let n = recs.len();
    let dam = text(v, "dam");
    let at = int(v, "at") as usize;
    if ["cut", "head", "len", "begun"].contains(&dam) {
        recs.push(v["extra"].clone());
    }
    let far = flag(s, "far") && dam == "none" && text(&s["sel"], "k") == "offset" && s["files"][1].is_null();
    let hole = if far { (5 << 30) + at as u64 } else { 0 };
    let mut a = archive_at(hole, dir, name, i + 1, &recs, c);
    a.dam = dam.into();
    if dam == "missing" {
        fs::remove_file(&a.path).unwrap();
        if at % 3 == 0 {
            fs::create_dir(&a.path).unwrap();
        }
    } else if dam != "none" {
        let start = a.offs[n];
        a.recs.truncate(n);
        a.kinds.truncate(n);
        let mut b = fs::read(&a.path).unwrap();
        match dam {
            // After the head, as one only begun is no damage
            "cut" if b.len() > start as usize + 54 => {
                let len = b.len() - start as usize - 54;
                b.truncate(start as usize + 54 + at * (len - 1) / 1000);
            }
            "begun" => {
                b.truncate(start as usize);
                b.extend(&b"BARC2 000000000000 RP 00000 00000 0000000000 00000\r\n\r\n"[..at % 54]);
                a.dam = "none".into();
            }
            "cut" | "head" => b[start as usize + at % 5] = b'x',
            _ => b[start as usize + 6 + at % 12] = b'z',
        }
        fs::write(&a.path, b).unwrap();
        a.end = start;
    }
    a
}

/// Arguments of the selection, and the selection for the specification
fn selection(s: &Json, a: &Arc) -> (Vec<String>, Json) {
    let v = &s["sel"];
    let mut at = int(v, "at");
    let count = int(v, "count");
    let n = a.recs.len() as i64;
    let long = flag(v, "long");
    let mut args = vec![];
    let mut k = text(v, "k");
    if k == "inside" && n == 0 {
        k = "badnum";
    }
    let opt = |args: &mut Vec<String>, l: &str, sh: &str, val: String| {
        if long {
            args.push(format!("--{}={}", l, val));
        } else {
            args.push(format!("-{}", sh));
            args.push(val);
        }
    };
    let num = |o: u64| match (flag(v, "hex"), long) {
        (true, false) => format!("{:#x}", o),
        // as printed by cat
        (true, true) => format!("{:#012x}", o),
        _ => o.to_string(),
    };
    let start = |at: i64| if at >= n { a.end } else { a.offs[at as usize] };
    match k {
        "none" => {}
        "index" => opt(&mut args, "index", "i", at.to_string()),
        "offset" => {
            at = at.min(n);
            opt(&mut args, "offset", "o", num(start(at)));
        }
        "inside" => {
            let j = at % n;
            let len = start(j + 1) - start(j);
            opt(&mut args, "offset", "o", num(start(j) + 1 + (at as u64 * 37) % (len - 1)));
        }
        "both" => {
            opt(&mut args, "offset", "o", num(0));
            opt(&mut args, "index", "i", at.to_string());
        }
        _ => opt(&mut args, ["index", "offset", "count"][at as usize % 3], ["i", "o", "c"][at as usize % 3],
                 ["x", "0xx", "1.5"][at as usize / 3 % 3].into()),
    }
    if count >= 0 && k != "badnum" {
        opt(&mut args, "count", "c", count.to_string());
    }
    let bad = !["none", "index", "offset"].contains(&k);
    (args, json!({"k": if bad { "bad" } else { k }, "at": at, "count": count}))
}

/// Output as a sequence of pieces
fn tokens(out: &[u8], arcs: &[Arc]) -> Vec<Json> {
    let mut t = vec![];
    let mut o = out;
    'next: while !o.is_empty() {
        for (i, a) in arcs.iter().enumerate() {
            for (k, r) in a.recs.iter().enumerate() {
                for (n, p) in pieces(r) {
                    if !p.is_empty() && o.starts_with(&p) {
                        t.push(json!([n, i + 1, k + 1]));
                        o = &o[p.len()..];
                        continue 'next;
                    }
                }
            }
        }
        if o.starts_with(b"====") {
            if let Some(e) = o.iter().position(|b| *b == b'\n') {
                let l = String::from_utf8_lossy(&o[..e]).into_owned();
                let file = arcs.iter().enumerate().filter(|(_, a)| l.contains(&a.path))
                    .max_by_key(|(_, a)| a.path.len()).map(|(i, _)| i);
                let off = l.rfind("0x").and_then(|p| {
                    let d: String = l[p + 2..].chars().take_while(|c| c.is_ascii_hexdigit()).collect();
                    u64::from_str_radix(&d, 16).ok()
                });
                if let (Some(f), Some(off)) = (file, off) {
                    let k = arcs[f].offs.iter().position(|x| *x == off).map(|k| k as i64 + 1).unwrap_or(-1);
                    t.push(json!(["sep", f + 1, k]));
                    o = &o[e + 1..];
                    continue;
                }
            }
        }
        t.push(json!(["?", 0, 0]));
        break;
    }
    t
}

fn describe(arcs: &[Arc]) -> Json {
    arcs.iter().map(|a| json!({
        "n": a.recs.len(), "dam": a.dam, "kind": a.kinds,
        "has": a.recs.iter().map(|r| pieces(r).iter().filter(|p| !p.1.is_empty()).map(|p| p.0)
            .collect::<Vec<_>>()).collect::<Vec<_>>()})).collect::<Vec<_>>().into()
}

/// Add the options before, among or after the files
fn place(a: &mut Vec<String>, opts: Vec<String>, files: Vec<String>, s: &Json) {
    let n = files.len();
    let at = match text(s, "pos") {
        "before" => 0,
        "first" => 1,
        "last" => n - 1,
        _ => n,
    };
    a.extend_from_slice(&files[..at]);
    a.extend(opts);
    a.extend_from_slice(&files[at..]);
}

pub fn fresh(base: &Path) -> PathBuf {
    let d = base.join("d");
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).unwrap();
    d
}

pub fn cat(args: &[String]) {
    let scratch = Scratch::new("cat");
    let base = fs::canonicalize(scratch.path()).unwrap();
    each_script(args, |s, emit| {
        let dir = fresh(&base);
        let c = int(s, "c") as usize;
        let nf = s["files"].as_array().unwrap().len();
        let arcs: Vec<Arc> = (0..nf).map(|i| input(s, i, &dir, c)).collect();
        let (sel, jsel) = selection(s, &arcs[0]);
        let mut a = vec!["cat".to_owned()];
        for p in s["parts"].as_array().unwrap() {
            let name = PARTS.iter().find(|x| Some(x.0) == p.as_str()).unwrap().1;
            // Its other name, by which it's also known
            a.push(if name == "--meta" && flag(s, "short") { "--meta-head" } else { name }.into());
        }
        place(&mut a, sel, arcs.iter().map(|a| a.path.clone()).collect(), s);
        let before: Vec<_> = arcs.iter().map(Arc::content).collect();
        let r = barc(&a, &dir, -1);
        let after: Vec<_> = arcs.iter().map(Arc::content).collect();
        let out = if before == after { tokens(&r.out, &arcs) } else { vec![json!("changed")] };
        emit(json!({"files": describe(&arcs), "sel": jsel, "parts": s["parts"], "args": a[1..],
                    "ev": [{"op": "cat", "code": r.code, "out": out,
                            "err": String::from_utf8_lossy(&r.err)}]}));
    });
}

pub fn cp(args: &[String]) {
    let scratch = Scratch::new("cp");
    let base = fs::canonicalize(scratch.path()).unwrap();
    each_script(args, |s, emit| {
        let dir = fresh(&base);
        let c = int(s, "c") as usize;
        let nf = s["files"].as_array().unwrap().len();
        let mut arcs: Vec<Arc> = (0..nf).map(|i| input(s, i, &dir, c)).collect();
        let (sel, jsel) = selection(s, &arcs[0]);
        let same = text(s, "same");
        let old_recs = s["old"].as_array().unwrap();
        let old = archive(&dir, "out.barc", 0, old_recs, c);
        if same.is_empty() && old_recs.is_empty() && flag(s, "newout") {
            fs::remove_file(&old.path).unwrap();
        }
        let mut out = old.path.clone();
        if !same.is_empty() {
            let a = &mut arcs[int(s, "sameat") as usize - 1];
            let link = |p: &Path, to: &Path| std::os::unix::fs::symlink(to, p).unwrap();
            a.path = match same {
                "same" => out.clone(),
                "dot" => format!("{}/./out.barc", dir.display()),
                "up" => {
                    fs::create_dir(dir.join("sub")).unwrap();
                    format!("{}/sub/../out.barc", dir.display())
                }
                "link" => {
                    link(&dir.join("other.barc"), Path::new("out.barc"));
                    out = format!("{}/other.barc", dir.display());
                    old.path.clone()
                }
                "linkin" => {
                    link(&dir.join("other.barc"), &dir.join("out.barc"));
                    format!("{}/other.barc", dir.display())
                }
                "dirlink" => {
                    link(&dir.join("also"), &dir);
                    format!("{}/also/out.barc", dir.display())
                }
                "hard" => {
                    fs::hard_link(&old.path, dir.join("other.barc")).unwrap();
                    format!("{}/other.barc", dir.display())
                }
                "hardout" => {
                    fs::hard_link(&old.path, dir.join("other.barc")).unwrap();
                    out = format!("{}/other.barc", dir.display());
                    old.path.clone()
                }
                _ => "out.barc".into(),
            };
        }
        let mut a = vec!["cp".to_owned()];
        let mut opts = sel;
        match (text(s, "z"), flag(s, "short")) {
            ("Z", true) => opts.insert(0, "-z".into()),
            ("Z", _) => opts.push("--gzip".into()),
            ("B", true) => opts.insert(0, "-b".into()),
            ("B", _) => opts.push("--brotli".into()),
            _ => {}
        }
        let mut files: Vec<String> = arcs.iter().map(|a| a.path.clone()).collect();
        files.push(out.clone());
        place(&mut a, opts, files, s);
        let before: Vec<_> = arcs.iter().map(Arc::content).collect();
        let was = fs::read(&old.path).unwrap_or_default();
        let full = int(s, "full");
        let r = barc(&a, &dir, if full < 0 { -1 } else { was.len() as i64 + full });
        let after: Vec<_> = arcs.iter().map(Arc::content).collect();
        let now = fs::read(&old.path).unwrap_or_default();
        let mut got = vec![];
        let mut mode = vec![];
        let mut clean = true;
        if !now.is_empty() {
            let tune = Tunables::new();
            let mut rd = BarcFile::new(&old.path).reader().unwrap();
            loop {
                let at = rd.offset() as usize;
                match rd.read(&tune) {
                    Ok(Some(x)) => {
                        let find = |a: &Arc| a.recs.iter().position(|r| same_record(r, &x)).map(|k| k + 1);
                        let id = find(&old).filter(|k| got.len() < old.recs.len() && *k == got.len() + 1)
                            .map(|k| (0, k))
                            .or_else(|| arcs.iter().enumerate()
                                     .find_map(|(i, a)| find(a).map(|k| (i + 1, k))));
                        got.push(id.map(|(i, k)| json!([i, k])).unwrap_or(json!([-1, -1])));
                        mode.push((now[at + 20] as char).to_string());
                    }
                    Ok(None) => {
                        clean = at == now.len();
                        break;
                    }
                    Err(_) => {
                        clean = false;
                        break;
                    }
                }
                if got.len() > 300 {
                    break;
                }
            }
        }
        let known = got.iter().all(|g| g[0] != json!(-1));
        emit(json!({"files": describe(&arcs), "sel": jsel, "old": old.recs.len(), "z": s["z"],
                    "same": !same.is_empty(), "full": full >= 0, "args": a[1..],
                    "ev": [{"op": if known { "cp" } else { "cp: unknown record" }, "code": r.code, "out": got,
                            "mode": mode, "clean": clean, "inputs": before == after || !same.is_empty(),
                            "kept": now.starts_with(&was), "err": String::from_utf8_lossy(&r.err)}]}));
    });
}
