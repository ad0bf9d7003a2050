//! Errors.tla: what failing exchanges report.

use crate::util::*;
use body_image::{BodyError, Tuner};
use body_image_futio::*;
use serde_json::json;
use std::error::Error as StdError;
use std::io::{self, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::path::Path;

fn node(e: &(dyn StdError + 'static), o: &mut Json) -> &'static str {
    if let Some(e) = e.downcast_ref::<FutioError>() {
        return match e {
            FutioError::Body(_) => "Futio.Body",
            FutioError::Hyper(_) => "Futio.Hyper",
            FutioError::ContentLengthTooLong(n) => {
                o["num"] = json!(n);
                "Futio.ContentLengthTooLong"
            }
            _ => "Futio.?",
        };
    }
    if let Some(e) = e.downcast_ref::<BodyError>() {
        return match e {
            BodyError::Io(_) => "Body.Io",
            BodyError::BodyTooLong(n) => {
                o["num"] = json!(n);
                "Body.TooLong"
            }
            _ => "Body.?",
        };
    }
    if let Some(e) = e.downcast_ref::<io::Error>() {
        if let Some(n) = e.raw_os_error() {
            o["errno"] = json!(n);
        }
        return "io";
    }
    "other"
}

fn chain(e: &(dyn StdError + 'static)) -> Json {
    let mut o = json!({"op": "fail", "r": "err", "errno": -1, "num": -1});
    let mut names: Vec<&str> = vec![];
    let mut told = true;
    let mut at = Some(e);
    while let Some(e) = at {
        let n = node(e, &mut o);
        told &= !e.to_string().is_empty();
        at = e.source();
        if let (Some(s), true) = (at, n != "io" && n != "other") {
            told &= e.to_string().contains(&s.to_string());
        }
        names.push(n);
    }
    o["chain"] = json!(names);
    o["told"] = json!(told);
    o["msg"] = json!(e.to_string());
    o
}

/// Closes the connection by a reset
fn reset(s: TcpStream) {
    let l = libc::linger { l_onoff: 1, l_linger: 0 };
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void,
                         std::mem::size_of::<libc::linger>() as libc::socklen_t);
    }
}

fn serve(l: TcpListener, cause: String, n: usize) {
    let (mut s, _) = l.accept().unwrap();
    let mut got: Vec<u8> = vec![];
    let mut b = [0u8; 1000];
    while !got.windows(4).any(|w| w == b"\r\n\r\n") {
        match s.read(&mut b) {
            Ok(k) if k > 0 => got.extend(&b[..k]),
            _ => return,
        }
    }
    match &cause[..] {
        "reset" => reset(s),
        "reslen" => {
            let _ = write!(s, "HTTP/1.1 200 OK\r\ncontent-length: {}\r\n\r\n", n + 1);
            let _ = s.write_all(&vec![b'x'; n]);
            // Taken in before the reset
            std::thread::sleep(std::time::Duration::from_millis(50));
            reset(s);
        }
        "stated" => {
            let _ = write!(s, "HTTP/1.1 200 OK\r\ncontent-length: {}\r\n\r\n", n);
        }
        _ => {
            let _ = write!(s, "HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n{:x}\r\n", n);
            let _ = s.write_all(&vec![b'x'; n]);
            let _ = s.write_all(b"\r\n0\r\n\r\n");
        }
    }
}

fn one(s: &Json, dir: &Path, rt: &tokio::runtime::Runtime) -> Json {
    let cause = text(s, "cause").to_owned();
    let l = crate::server::listen();
    let mut url = format!("http://{}/", l.local_addr().unwrap());
    let n = int(s, "n") as usize;
    // A port in use, though nothing listens there
    let mut used = None;
    let jh = if cause == "refused" {
        let c = TcpStream::connect(l.local_addr().unwrap()).unwrap();
        url = format!("http://{}/", c.local_addr().unwrap());
        used = Some((c, l));
        None
    } else {
        let c = cause.clone();
        Some(std::thread::spawn(move || serve(l, c, n)))
    };
    let mut it = Tuner::new();
    it.set_max_body(int(s, "max") as u64).set_max_body_ram(if cause == "absent" { 0 } else { int(s, "ram") as u64 });
    let none = dir.join("none");
    it.set_temp_dir(if cause == "absent" { &none } else { dir });
    let mut ft = FutioTuner::new();
    ft.set_image(it.finish());
    if text(s, "pol") == "permit" {
        ft.set_blocking_policy(BlockingPolicy::Permit(crate::fetch::sem()));
    }
    let r = guard(|| {
        let rr: RequestRecord<hyper::Body> = http::Request::builder().uri(&url[..]).record().unwrap();
        if text(s, "bt") == "uni" {
            fetch(rr, ft.finish())
        } else {
            let client = hyper::Client::builder().build::<_, hyper::Body>(hyper::client::HttpConnector::new());
            rt.block_on(request_dialog(&client, rr, ft.finish()))
        }
    });
    let mut e = match r {
        Err(p) => p,
        Ok(Ok(_)) => json!({"op": "fail", "r": "ok"}),
        Ok(Err(e)) => chain(&e),
    };
    drop(used);
    if let Some(jh) = jh {
        jh.join().unwrap();
    }
    e["cause"] = json!(cause);
    e
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("neterr");
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(2)
        .enable_io()
        .enable_time()
        .build()
        .unwrap();
    each_script(args, |s, emit| {
        let e = one(s, scratch.path(), &rt);
        emit(json!({"d": s, "ev": [e]}));
    });
}
