//! BufWin.tla, Tune.tla and Encodings.tla.

use crate::asyn::{uni_mapped, uni_mapped_slice};
use crate::util::*;
use blocking_permit::{Semaphore, Splittable};
use body_image::{Tunables, Tuner};
use body_image_futio::*;
use bytes::{Buf, Bytes};
use http::header::{HeaderValue, CONTENT_ENCODING, TRANSFER_ENCODING};
use http::HeaderMap;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::Path;
use std::time::Duration;

// --- buffers --------------------------------------------------------------------

/// Contents, if all ways to look at it agree
fn look(b: &UniBodyBuf, c: usize) -> Vec<i64> {
    let v = b.to_vec();
    let mut io = [std::io::IoSlice::new(&[]), std::io::IoSlice::new(&[])];
    let n = b.chunks_vectored(&mut io);
    let vect: Vec<u8> = io[..n].iter().flat_map(|s| s.to_vec()).collect();
    let same = b.remaining() == v.len()
        && b.has_remaining() != v.is_empty()
        && b.chunk() == &v[..]
        && b.as_ref() == &v[..]
        && b.len() == v.len()
        && vect == v;
    if same { project(&v, c) } else { vec![-2] }
}

fn bufs_one(s: &Json, dir: &Path) -> Vec<Json> {
    let c = int(s, "c") as usize;
    let mut bufs: BTreeMap<i64, UniBodyBuf> = BTreeMap::new();
    let mut evs = vec![];
    for o in s["ops"].as_array().unwrap() {
        let mut e = o.clone();
        let b = int(o, "b");
        let n = int_or(o, "n", 0);
        let nb = n as usize * c;
        let (mut r, mut got) = ("ok", vec![]);
        match text(o, "op") {
            "new" => {
                let v = expand(&(1..=n).collect::<Vec<i64>>(), c);
                bufs.insert(b, match text(s, "src") {
                    "bytes" => Bytes::from(v).into(),
                    "map" => uni_mapped(&v, dir),
                    _ => uni_mapped_slice(&v, dir),
                });
            }
            "adv" => {
                if guard(|| bufs.get_mut(&b).unwrap().advance(nb)).is_err() {
                    r = "panic";
                }
            }
            "split" => match bufs.get_mut(&b).unwrap().split_if(nb) {
                Some(x) => {
                    bufs.insert(int(o, "j"), x);
                    r = "some";
                }
                None => r = "none",
            },
            "take" => {
                let x = bufs.get_mut(&b).unwrap();
                let g = if text(o, "how") == "slice" {
                    guard(|| {
                        let mut v = vec![0u8; nb];
                        x.copy_to_slice(&mut v);
                        v
                    })
                } else {
                    guard(|| x.copy_to_bytes(nb).to_vec())
                };
                match g {
                    Ok(v) => got = project(&v, c),
                    Err(_) => r = "panic",
                }
            }
            "into" => {
                let x: Bytes = bufs.remove(&b).unwrap().into();
                got = project(&x, c);
            }
            "drop" => {
                bufs.remove(&b);
            }
            op => panic!("script: unknown op {}", op),
        }
        e["r"] = json!(r);
        e["got"] = json!(got);
        let obs: Vec<Json> = bufs.iter().map(|(k, x)| json!({"b": k, "got": look(x, c)})).collect();
        e["obs"] = json!(obs);
        evs.push(e);
    }
    evs
}

pub fn bufs(args: &[String]) {
    let scratch = Scratch::new("bufs");
    each_script(args, |s, emit| {
        let evs = match guard(|| bufs_one(s, scratch.path())) {
            Ok(e) => e,
            Err(p) => {
                if p["msg"].as_str().unwrap_or("").starts_with("script:") {
                    eprintln!("{}", p["msg"]);
                    std::process::exit(2);
                }
                vec![p]
            }
        };
        emit(json!({"c": s["c"], "src": s["src"], "ev": evs}));
    });
}

// --- settings -------------------------------------------------------------------

const BIG: [u64; 7] = [0, 1, 4095, 192 << 10, 1 << 30, 1 << 40, u64::MAX];
const SIZE: [usize; 6] = [0, 1, 8 << 10, 64 << 10, 512 << 10, usize::MAX];
const EST: [u16; 6] = [0, 1, 4, 5, 6, u16::MAX];
const DIRS: [&str; 3] = ["", "/tmp/some/where", "relative"];

fn times() -> [Duration; 5] {
    [Duration::from_secs(0), Duration::from_millis(1), Duration::from_secs(60),
     Duration::from_secs(61), Duration::new(u64::MAX, 999_999_999)]
}

fn pos<T: PartialEq>(t: &[T], v: T) -> i64 {
    t.iter().position(|x| *x == v).map(|i| i as i64).unwrap_or(-9)
}

fn sems() -> &'static [Semaphore; 2] {
    static S: std::sync::OnceLock<[Semaphore; 2]> = std::sync::OnceLock::new();
    S.get_or_init(|| [Semaphore::new(1), Semaphore::new(2)])
}

fn show_b(t: &Tunables) -> Json {
    let d = t.temp_dir();
    let dir = if d == std::env::temp_dir() {
        0
    } else {
        DIRS.iter().position(|x| d == Path::new(x)).map(|i| i as i64).unwrap_or(-9)
    };
    if *t.temp_dir_rc() != *d {
        return json!({"dir": -9});
    }
    json!({
        "ram": pos(&BIG, t.max_body_ram()), "max": pos(&BIG, t.max_body()),
        "br": pos(&SIZE, t.buffer_size_ram()), "bf": pos(&SIZE, t.buffer_size_fs()),
        "sd": pos(&EST, t.size_estimate_deflate()), "sg": pos(&EST, t.size_estimate_gzip()),
        "sb": pos(&EST, t.size_estimate_brotli()), "dir": dir,
    })
}

fn show_f(t: &FutioTunables) -> Json {
    let dur = |d: Option<Duration>| d.map(|d| pos(&times(), d)).unwrap_or(-1);
    let at = |s: &'static Semaphore| sems().iter().position(|x| std::ptr::eq(x, s)).unwrap() as i64 + 1;
    let pol = match t.blocking_policy() {
        BlockingPolicy::Direct => 0,
        BlockingPolicy::Permit(s) => at(s),
        BlockingPolicy::Dispatch => 3,
    };
    let sem = t.blocking_semaphore().map(at);
    let ok = match pol {
        1 | 2 => sem == Some(pol),
        _ => sem.is_none(),
    };
    json!({
        "item": pos(&SIZE, t.stream_item_size()), "res": dur(t.res_timeout()),
        "body": dur(t.body_timeout()), "pol": if ok { pol } else { -9 },
    })
}

enum Snap {
    B(Tunables),
    F(FutioTunables),
}

fn set_b(t: &mut Tuner, k: &str, v: usize) {
    match k {
        "ram" => t.set_max_body_ram(BIG[v]),
        "max" => t.set_max_body(BIG[v]),
        "br" => t.set_buffer_size_ram(SIZE[v]),
        "bf" => t.set_buffer_size_fs(SIZE[v]),
        "sd" => t.set_size_estimate_deflate(EST[v]),
        "sg" => t.set_size_estimate_gzip(EST[v]),
        "sb" => t.set_size_estimate_brotli(EST[v]),
        "dir" if v == 0 => t.set_temp_dir(std::env::temp_dir()),
        "dir" => t.set_temp_dir(DIRS[v]),
        _ => panic!("script: setting {}", k),
    };
}

fn set_f(t: &mut FutioTuner, k: &str, v: i64) {
    match (k, v) {
        ("item", v) => t.set_stream_item_size(SIZE[v as usize]),
        ("res", -1) => t.unset_res_timeout(),
        ("res", v) => t.set_res_timeout(times()[v as usize]),
        ("body", -1) => t.unset_body_timeout(),
        ("body", v) => t.set_body_timeout(times()[v as usize]),
        ("pol", 0) => t.set_blocking_policy(BlockingPolicy::Direct),
        ("pol", 3) => t.set_blocking_policy(BlockingPolicy::Dispatch),
        ("pol", v) => t.set_blocking_policy(BlockingPolicy::Permit(&sems()[v as usize - 1])),
        _ => panic!("script: setting {}", k),
    };
}

fn tune_one(s: &Json) -> Vec<Json> {
    let mut b = if flag(s, "default") { Tuner::default() } else { Tuner::new() };
    let mut f = if flag(s, "default") { FutioTuner::default() } else { FutioTuner::new() };
    let mut snaps = vec![];
    let mut evs = vec![];
    for o in s["ops"].as_array().unwrap() {
        let mut e = o.clone();
        let mut r = "ok";
        match text(o, "op") {
            "setb" => {
                if guard(|| set_b(&mut b, text(o, "k"), int(o, "v") as usize)).is_err() {
                    r = "refused";
                }
            }
            "setf" => {
                if guard(|| set_f(&mut f, text(o, "k"), int(o, "v"))).is_err() {
                    r = "refused";
                }
            }
            "finb" => match guard(|| b.finish()) {
                Ok(t) => {
                    e["b"] = show_b(&t);
                    snaps.push(Snap::B(t));
                }
                Err(_) => {
                    r = "refused";
                    e["b"] = json!(0);
                }
            },
            "finf" => match guard(|| f.finish()) {
                Ok(t) => {
                    let same = show_b(t.as_ref()) == show_b(t.image());
                    e["b"] = if same { show_b(t.image()) } else { json!(0) };
                    e["f"] = show_f(&t);
                    snaps.push(Snap::F(t));
                }
                Err(_) => {
                    r = "refused";
                    e["b"] = json!(0);
                    e["f"] = json!(0);
                }
            },
            "image" => {
                if let Snap::B(ref t) = snaps[int(o, "i") as usize - 1] {
                    f.set_image(t.clone());
                }
            }
            "look" => match snaps[int(o, "i") as usize - 1] {
                Snap::B(ref t) => {
                    e["b"] = show_b(t);
                    e["f"] = json!([]);
                }
                Snap::F(ref t) => {
                    e["b"] = show_b(t.image());
                    e["f"] = show_f(&t.clone());
                }
            },
            "resetb" => b = Tuner::new(),
            "resetf" => f = FutioTuner::new(),
            op => panic!("script: unknown op {}", op),
        }
        e["r"] = json!(r);
        evs.push(e);
    }
    evs
}

pub fn tune(args: &[String]) {
    each_script(args, |s, emit| {
        let evs = guard(|| tune_one(s)).unwrap_or_else(|p| vec![p]);
        emit(json!({ "ev": evs }));
    });
}

// --- encodings ------------------------------------------------------------------

pub fn encodings(args: &[String]) {
    each_script(args, |s, emit| {
        let mut evs = vec![];
        for (k, o) in s["cases"].as_array().unwrap().iter().enumerate() {
            let sep = [",", ", ", " , ", ",\t"][k % 4];
            let mut m = HeaderMap::new();
            for (name, key) in [(TRANSFER_ENCODING, "te"), (CONTENT_ENCODING, "ce")] {
                for line in o[key].as_array().unwrap() {
                    let ns: Vec<&str> = line.as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
                    m.append(&name, HeaderValue::from_str(&ns.join(sep)).unwrap());
                }
                m.append("x-other", HeaderValue::from_static("gzip, chunked"));
            }
            let r = guard(|| {
                let got: Vec<String> = find_encodings(&m).iter().map(|e| format!("{:?}", e)).collect();
                (got, find_chunked(&m))
            });
            evs.push(match r {
                Ok((got, ch)) => json!({"op": "find", "te": o["te"], "ce": o["ce"], "got": got, "chunked": ch}),
                Err(p) => p,
            });
        }
        emit(json!({ "ev": evs }));
    });
}
