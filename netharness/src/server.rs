//! An HTTP server that answers one connection as told by a script.

use crate::rec::{bexpand, hdrs};
use crate::util::*;
use http::header::{HeaderName, HeaderValue};
use http::HeaderMap;
use std::io::{self, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::unix::io::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::thread::{sleep, spawn, JoinHandle};
use std::time::Duration;

/// A listener on some port; all may still be in use by connections just ended
pub fn listen() -> TcpListener {
    for _ in 0..1000 {
        match TcpListener::bind("127.0.0.1:0") {
            Ok(l) => return l,
            Err(_) => sleep(Duration::from_millis(100)),
        }
        beat();
    }
    panic!("script: no port");
}

/// A request as received
#[derive(Clone, Debug)]
pub struct Seen {
    pub method: String,
    pub target: String,
    pub headers: HeaderMap,
    pub body: Vec<u8>,
}

pub struct Server {
    pub port: u16,
    done: Arc<AtomicBool>,
    seen: Arc<Mutex<Vec<Seen>>>,
    thread: Option<JoinHandle<()>>,
}

impl Server {
    /// Serve with the response script, until finished
    pub fn start(p: &Json, body: Option<Vec<u8>>) -> Server {
        let l = listen();
        l.set_nonblocking(true).unwrap();
        let port = l.local_addr().unwrap().port();
        let done = Arc::new(AtomicBool::new(false));
        let seen = Arc::new(Mutex::new(vec![]));
        let (d, s, p) = (done.clone(), seen.clone(), p.clone());
        let thread = spawn(move || {
            while !d.load(SeqCst) {
                match l.accept() {
                    Ok((c, _)) => {
                        c.set_nonblocking(false).unwrap();
                        c.set_nodelay(true).ok();
                        // Failures here are of the client, who went away
                        let _ = serve(c, &p, &body, &d, &s);
                    }
                    Err(_) => sleep(Duration::from_micros(300)),
                }
            }
        });
        Server { port, done, seen, thread: Some(thread) }
    }

    pub fn finish(mut self) -> Vec<Seen> {
        self.done.store(true, SeqCst);
        self.thread.take().unwrap().join().unwrap();
        let s = self.seen.lock().unwrap();
        s.clone()
    }
}

fn receive(c: &mut TcpStream, done: &AtomicBool) -> io::Result<Seen> {
    c.set_read_timeout(Some(Duration::from_millis(50)))?;
    let mut buf = vec![];
    let mut more = |buf: &mut Vec<u8>| -> io::Result<()> {
        let mut b = [0; 65536];
        loop {
            match c.read(&mut b) {
                Ok(0) => return Err(io::ErrorKind::UnexpectedEof.into()),
                Ok(n) => {
                    buf.extend_from_slice(&b[..n]);
                    return Ok(());
                }
                Err(_) if done.load(SeqCst) => return Err(io::ErrorKind::TimedOut.into()),
                Err(e) if e.kind() == io::ErrorKind::WouldBlock => {}
                Err(e) => return Err(e),
            }
        }
    };
    let find = |b: &[u8], p: &[u8]| b.windows(p.len()).position(|w| w == p);
    let end = loop {
        if let Some(p) = find(&buf, b"\r\n\r\n") {
            break p;
        }
        more(&mut buf)?;
    };
    let head = buf[..end].to_vec();
    let mut rest = buf[end + 4..].to_vec();
    let mut lines: Vec<Vec<u8>> = vec![];
    let mut h = &head[..];
    while let Some(p) = find(h, b"\r\n") {
        lines.push(h[..p].to_vec());
        h = &h[p + 2..];
    }
    lines.push(h.to_vec());
    let first = String::from_utf8_lossy(&lines[0]).into_owned();
    let mut parts = first.split(' ');
    let method = parts.next().unwrap_or("").to_owned();
    let target = parts.next().unwrap_or("").to_owned();
    let mut headers = HeaderMap::new();
    for l in &lines[1..] {
        let p = l.iter().position(|b| *b == b':').unwrap_or(0);
        let v = &l[(p + 1).min(l.len())..];
        let v = if v.first() == Some(&b' ') { &v[1..] } else { v };
        match (HeaderName::from_bytes(&l[..p]), HeaderValue::from_bytes(v)) {
            (Ok(n), Ok(v)) => {
                headers.append(n, v);
            }
            _ => {
                headers.append("x-unreadable", HeaderValue::from_static("?"));
            }
        }
    }
    let mut body = vec![];
    if headers.get("transfer-encoding").is_some() {
        loop {
            let p = loop {
                match find(&rest, b"\r\n") {
                    Some(p) => break p,
                    None => more(&mut rest)?,
                }
            };
            let n = usize::from_str_radix(String::from_utf8_lossy(&rest[..p]).trim(), 16)
                .map_err(|_| io::Error::from(io::ErrorKind::InvalidData))?;
            while rest.len() < p + 2 + n + 2 {
                more(&mut rest)?;
            }
            body.extend_from_slice(&rest[p + 2..p + 2 + n]);
            rest.drain(..p + 2 + n + 2);
            if n == 0 {
                break;
            }
        }
    } else if let Some(n) = headers.get("content-length") {
        let n: usize = n.to_str().unwrap().parse().unwrap();
        while rest.len() < n {
            more(&mut rest)?;
        }
        body = rest[..n].to_vec();
    }
    Ok(Seen { method, target, headers, body })
}

fn serve(mut c: TcpStream, p: &Json, body: &Option<Vec<u8>>, done: &AtomicBool, seen: &Mutex<Vec<Seen>>)
    -> io::Result<()>
{
    let req = receive(&mut c, done)?;
    let head_only = req.method == "HEAD" || [204, 304].contains(&int(p, "status"));
    seen.lock().unwrap().push(req);
    let stop = text(p, "stop");
    let fr = text(p, "fr");
    let at = int(p, "at") as usize;
    let wait = || {
        while !done.load(SeqCst) {
            sleep(Duration::from_millis(1));
        }
    };
    let delay = Duration::from_millis(int_or(p, "delay", 0) as u64);

    let content = body.clone().unwrap_or_else(|| bexpand(&ints(&p["v"]), int(p, "c") as usize));
    let mut head = format!("{} {} Some Reason\r\n", text(p, "ver"), int(p, "status")).into_bytes();
    let mut line = |n: &[u8], v: &[u8]| {
        head.extend_from_slice(n);
        head.extend_from_slice(b": ");
        head.extend_from_slice(v);
        head.extend_from_slice(b"\r\n");
    };
    let keep = int(p, "keep") == 1 && stop == "ok" && (head_only || fr == "cl" || fr == "chunked");
    for (n, v) in hdrs(&p["hv"]).iter() {
        line(n.as_str().as_bytes(), v.as_bytes());
    }
    if let Some(m) = p["xh"].as_array() {
        for h in m {
            line(h[0].as_str().unwrap().as_bytes(), h[1].as_str().unwrap().as_bytes());
        }
    }
    if stop == "badlen" {
        line(b"Content-Length", b"12x");
    }
    match fr {
        "cl" => line(b"Content-Length", content.len().to_string().as_bytes()),
        "chunked" => line(b"Transfer-Encoding", b"chunked"),
        _ => {}
    }
    if !keep {
        line(b"Connection", b"close");
    }
    head.extend_from_slice(b"\r\n");
    let slow = p["slow"].as_str().unwrap_or("");
    sleep(if slow == "head" { Duration::from_millis(2500) } else { delay });
    match stop {
        "nohead" | "stallhead" => {
            let n = if at % 2 == 0 { 0 } else { at % head.len() };
            c.write_all(&head[..n])?;
            if stop == "stallhead" {
                wait();
            }
            return Ok(());
        }
        _ => {}
    }
    let data = if head_only || fr == "none" {
        vec![]
    } else if fr == "chunked" {
        // In pieces of different lengths
        let mut v = vec![];
        let mut left = &content[..];
        let mut k = 1;
        while !left.is_empty() {
            let n = (k * k * 37 + at % 50).max(1).min(left.len());
            v.extend_from_slice(format!("{:x}{}\r\n", n, if k % 3 == 0 { ";ext=1" } else { "" }).as_bytes());
            v.extend_from_slice(&left[..n]);
            v.extend_from_slice(b"\r\n");
            left = &left[n..];
            k += 1;
        }
        v.extend_from_slice(b"0\r\n\r\n");
        v
    } else {
        content
    };
    let n = match stop {
        // Before the last chunk, as there are more to come
        "drip" if fr == "chunked" => (data.len() * at / 1000).min(data.len() - data.len().min(5)),
        "short" | "stallbody" | "drip" | "reset" => data.len() * at / 1000,
        _ => data.len(),
    };
    let wr = int(p, "wr") as usize;
    if wr < 1000 || slow == "body" {
        c.write_all(&head)?;
        sleep(if slow == "body" { Duration::from_millis(3500) } else { delay });
        let mut k = 0;
        for ch in data[..n].chunks(wr.max(data.len() / 200)) {
            c.write_all(ch)?;
            k += 1;
            if k < 10 {
                sleep(Duration::from_micros(200));
            }
        }
    } else {
        head.extend_from_slice(&data[..n]);
        for ch in head.chunks(wr) {
            c.write_all(ch)?;
        }
    }
    match stop {
        "stallbody" => wait(),
        "reset" => {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe {
                libc::setsockopt(c.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER,
                                 &l as *const _ as *const libc::c_void,
                                 std::mem::size_of::<libc::linger>() as u32);
            }
        }
        "drip" => {
            // What was sent of chunks may be cut: complete it
            c.write_all(&data[n..data.len() - if fr == "chunked" { data.len().min(5) } else { 0 }])?;
            while !done.load(SeqCst) {
                c.write_all(if fr == "chunked" { b"1\r\nx\r\n" } else { b"x" })?;
                sleep(Duration::from_millis(2));
            }
        }
        _ if keep => wait(),
        _ => {}
    }
    Ok(())
}
