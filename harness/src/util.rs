//! Shared parts of the drivers: cells, scripts in, traces out, watchdog.

use serde_json::{json, Value};
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub type Json = Value;

/// Exit code for a watchdog expiry: the code under test made no progress
pub const EXIT_HANG: i32 = 97;

/// Byte `i` of a cell with value `v`.
pub fn cell_byte(v: i64, i: usize, c: usize) -> u8 {
    if c == 1 {
        v as u8
    } else {
        let x = (v as u64)
            .wrapping_mul(0x9E37_79B9_7F4A_7C15)
            .wrapping_add((i as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F));
        let x = (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        (x >> 56) as u8
    }
}

pub fn cell(v: i64, c: usize) -> Vec<u8> {
    (0..c).map(|i| cell_byte(v, i, c)).collect()
}

pub fn expand(vs: &[i64], c: usize) -> Vec<u8> {
    let mut out = Vec::with_capacity(vs.len() * c);
    for v in vs {
        out.extend((0..c).map(|i| cell_byte(*v, i, c)));
    }
    out
}

/// Project bytes to cell values; -1 for anything not a cell.
pub fn project(b: &[u8], c: usize) -> Vec<i64> {
    b.chunks(c)
        .map(|ch| {
            if ch.len() < c {
                return -1;
            }
            if c == 1 {
                return ch[0] as i64;
            }
            (0..256i64)
                .find(|v| {
                    ch.iter().enumerate().all(|(i, x)| *x == cell_byte(*v, i, c))
                })
                .unwrap_or(-1)
        })
        .collect()
}

/// As project, dropping an incomplete last cell.
pub fn project_whole(b: &[u8], c: usize) -> Vec<i64> {
    project(&b[..b.len() - b.len() % c], c)
}

pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap()).collect()).unwrap_or_default()
}

pub fn int(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("script: missing int {} in {}", k, v))
}

pub fn int_or(v: &Value, k: &str, d: i64) -> i64 {
    v[k].as_i64().unwrap_or(d)
}

pub fn text<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("script: missing string {} in {}", k, v))
}

pub fn flag(v: &Value, k: &str) -> bool {
    v[k].as_bool().unwrap_or(false)
}

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
}

// --- watchdog ---------------------------------------------------------------

static BEAT: AtomicU64 = AtomicU64::new(0);
static LIMIT_S: AtomicU64 = AtomicU64::new(60);

/// Note progress, restarting the time limit.
pub fn beat() {
    BEAT.fetch_add(1, SeqCst);
}

pub fn set_limit(secs: u64) {
    LIMIT_S.store(secs, SeqCst);
}

pub fn watchdog() {
    std::thread::spawn(|| {
        let mut last = BEAT.load(SeqCst);
        let mut at = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = BEAT.load(SeqCst);
            if now != last {
                last = now;
                at = Instant::now();
            } else if at.elapsed() > Duration::from_secs(LIMIT_S.load(SeqCst)) {
                eprintln!("HANG: no progress for {} s", LIMIT_S.load(SeqCst));
                unsafe { libc::_exit(EXIT_HANG) }
            }
        }
    });
}

// --- running ----------------------------------------------------------------

pub fn panic_msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

thread_local!(static GUARDED: std::cell::Cell<bool> = std::cell::Cell::new(false));

/// Run a closure of the code under test, a panic of which is an event.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Json> {
    beat();
    let was = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(was));
    r.map_err(|e| json!({"op": "panic", "msg": panic_msg(e)}))
}

/// Read script lines, and call `f` for each, writing the traces it returns.
pub fn each_script(args: &[String], mut f: impl FnMut(&Json, &mut dyn FnMut(Json))) {
    let inp = BufReader::new(File::open(&args[0]).expect("scripts"));
    let mut out = BufWriter::new(File::create(&args[1]).expect("traces"));
    let cur = File::create(format!("{}.cur", args[1])).expect("cur");
    use std::os::unix::fs::FileExt;
    for (ix, line) in inp.lines().enumerate() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let _ = cur.write_at(format!("{:<12}", ix).as_bytes(), 0);
        beat();
        let script: Json = serde_json::from_str(&line).expect("script json");
        f(&script, &mut |mut t: Json| {
            t["s"] = json!(ix);
            serde_json::to_writer(&mut out, &t).unwrap();
            out.write_all(b"\n").unwrap();
            beat();
        });
    }
    out.flush().unwrap();
    std::fs::remove_file(format!("{}.cur", args[1])).ok();
}

/// A scratch directory, removed when dropped.
pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new(name: &str) -> Scratch {
        let base = std::env::var("BIH_SCRATCH").unwrap_or_else(|_| "/tmp".into());
        let p = Path::new(&base).join(format!("bih-{}-{}", name, std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn quiet_panics() {
    if std::env::var("BIH_PANICS").is_err() {
        // Only those that end the harness
        std::panic::set_hook(Box::new(|i| {
            let main = std::thread::current().name() == Some("main");
            if main && !GUARDED.with(|g| g.get()) {
                eprintln!("{}", i);
            }
        }));
    }
}
