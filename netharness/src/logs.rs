//! Log.tla: messages shown by the logger set up in a process of its own, and
//! by the real program.

use crate::cli::{barc, fresh};
use crate::server::Server;
use crate::util::*;
use serde_json::json;
use std::process::{Command, Stdio};

const LEVELS: [log::Level; 5] =
    [log::Level::Error, log::Level::Warn, log::Level::Info, log::Level::Debug, log::Level::Trace];
const EACH: i64 = 40;
const THREADS: i64 = 4;

fn on_thread(name: &str, f: impl FnOnce() + Send + 'static) {
    if name == "main" {
        f();
        return;
    }
    let mut b = std::thread::Builder::new();
    if !name.is_empty() {
        b = b.name(name.to_owned());
    }
    b.spawn(f).unwrap().join().unwrap();
}

/// In a new process: follow the script and print the results. The messages go
/// to the standard error.
pub fn child(args: &[String]) {
    let s: Json = serde_json::from_str(&args[0]).unwrap();
    let mut res = vec![];
    for (k, o) in s["ops"].as_array().unwrap().iter().enumerate() {
        let o = o.clone();
        res.push(match text(&o, "op") {
            "setup" => match guard(|| piccolog::setup_logger(int(&o, "n") as u32)) {
                Ok(Ok(())) => json!("ok"),
                Ok(Err(_)) => json!("err"),
                Err(_) => json!("panic"),
            },
            "test" => match guard(piccolog::test_logger) {
                Ok(r) => json!(r.to_string()),
                Err(_) => json!("panic"),
            },
            "log" => {
                let lvl = LEVELS[int(&o, "lvl") as usize - 1];
                let name = text(&o, "thread").to_owned();
                on_thread(&name, move || {
                    log::log!(target: text(&o, "target"), lvl, "message <{}> {:?}", k, "text");
                });
                json!("")
            }
            _ => {
                let lvl = LEVELS[int(&o, "lvl") as usize - 1];
                let ts: Vec<_> = (0..THREADS).map(|t| {
                    let o = o.clone();
                    std::thread::spawn(move || {
                        for j in 0..EACH {
                            log::log!(target: text(&o, "target"), lvl, "message <{}.{}.{}> {:?}", k, t, j, "text");
                        }
                    })
                }).collect();
                ts.into_iter().for_each(|t| t.join().unwrap());
                json!("")
            }
        });
    }
    println!("{}", json!(res));
}

/// Number of lines with the message, level, target and thread; -1 if there is
/// a line with that message which is not as it should
fn shown(lines: &[&str], tag: &str, o: &Json) -> i64 {
    let lvl = LEVELS[int(o, "lvl") as usize - 1].to_string();
    let thread = match o["thread"].as_str().unwrap_or("") {
        "tokio-runtime-worker" => "tokio",
        t => t,
    };
    let msg = format!("message <{}> \"text\"", tag);
    let mut n = 0;
    for l in lines.iter().filter(|l| l.contains(&msg)) {
        if l.contains(&lvl) && l.contains(text(o, "target")) && l.contains(thread) && l.trim_end().ends_with(&msg)
            && l.matches("message <").count() == 1
        {
            n += 1;
        } else {
            return -1;
        }
    }
    n
}

pub fn run(args: &[String]) {
    each_script(args, |s, emit| {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.arg("logchild").arg(s.to_string()).stdin(Stdio::null());
        c.env_remove("TEST_LOG");
        if int(s, "env") >= 0 {
            c.env("TEST_LOG", int(s, "env").to_string());
        }
        let r = c.output().expect("script: child");
        let res: Json = match serde_json::from_slice(&r.stdout) {
            Ok(v) => v,
            Err(_) => {
                emit(json!({"env": s["env"], "ev": [{"op": "abnormal end", "err": String::from_utf8_lossy(&r.stderr)}]}));
                return;
            }
        };
        let err = String::from_utf8_lossy(&r.stderr).into_owned();
        let lines: Vec<&str> = err.lines().collect();
        let mut evs = vec![];
        let mut total = 0;
        for (k, o) in s["ops"].as_array().unwrap().iter().enumerate() {
            let mut e = o.clone();
            match text(o, "op") {
                "log" => {
                    let n = shown(&lines, &k.to_string(), o);
                    total += n;
                    e["shown"] = json!(n);
                }
                "par" => {
                    let mut n = 0;
                    for t in 0..THREADS {
                        for j in 0..EACH {
                            n += shown(&lines, &format!("{}.{}.{}", k, t, j), o);
                        }
                    }
                    total += n;
                    e["shown"] = json!(n);
                    e["all"] = json!(THREADS * EACH);
                }
                _ => e["r"] = res[k].clone(),
            }
            evs.push(e);
        }
        if total != lines.len() as i64 {
            evs.push(json!({"op": "other lines", "n": lines.len(), "of": total}));
        }
        emit(json!({"env": s["env"], "ev": evs}));
    });
}

/// Levels and kinds of targets of the program's lines
fn classes(err: &[u8]) -> Vec<Json> {
    let mut v = vec![];
    for l in String::from_utf8_lossy(err).lines() {
        let mut w = l.split_whitespace();
        let (lvl, target) = (w.next().unwrap_or(""), w.next().unwrap_or(""));
        let n = LEVELS.iter().position(|x| x.to_string() == lvl).map(|i| i as i64 + 1).unwrap_or(9);
        let own = ["body_image", "barc", "blocking_permit"].iter().any(|p| target.starts_with(p));
        let e = json!({"lvl": n, "own": own});
        if !v.contains(&e) {
            v.push(e);
        }
    }
    v
}

pub fn flags(args: &[String]) {
    let scratch = Scratch::new("flags");
    let base = std::fs::canonicalize(scratch.path()).unwrap();
    each_script(args, |s, emit| {
        let mut evs = vec![];
        let go = |flags: &[&str]| {
            let dir = fresh(&base);
            let p = json!({"ver": "HTTP/1.1", "status": 200, "hv": {"h": [], "b": 0}, "fr": "cl", "v": [1, 2, 3], "c": 100,
                           "wr": 100000, "stop": "ok", "at": 0, "keep": 0});
            let srv = Server::start(&p, None);
            let mut a: Vec<String> = vec![];
            let (pre, post): (Vec<&str>, Vec<&str>) = flags.iter().partition(|f| !f.starts_with('+'));
            a.extend(pre.iter().map(|f| f.to_string()));
            a.push("record".into());
            a.extend(post.iter().map(|f| f[1..].to_string()));
            a.push(format!("http://127.0.0.1:{}/", srv.port));
            a.push(dir.join("o.barc").to_str().unwrap().into());
            let r = barc(&a, &dir, -1);
            srv.finish();
            (r.code, classes(&r.err))
        };
        let (_, must) = go(&["-dddd"]);
        // Not all of these come at every run, but those of the program itself
        // do.
        let must: Vec<Json> = must.into_iter().filter(|m| m["own"] == json!(true)).collect();
        for f in s["flags"].as_array().unwrap() {
            let fs: Vec<&str> = f["f"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
            let (code, lines) = go(&fs);
            evs.push(json!({"op": "cli", "n": f["n"], "flags": fs, "code": code, "lines": lines, "must": must}));
        }
        emit(json!({"env": -1, "ev": evs}));
    });
}
