//! Async.tla: streams and sinks under direct, permit and dispatch policies,
//! with each poll, permit and pool step under control of the script.

use crate::body::{fault_class, faults_for};
use crate::rec;
use crate::sys::{self, Fault};
use crate::util::*;
use blocking_permit::{
    deregister_dispatch_pool, register_dispatch_pool, DispatchPool, Semaphore, Splittable,
};
use body_image::{BodyImage, BodySink, BodyError};
use body_image_futio::*;
use bytes::{Buf, Bytes};
use futures_core::stream::Stream;
use futures_sink::Sink;
use serde_json::json;
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::path::Path;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

// --- what is observed ---------------------------------------------------------

static SEM: AtomicPtr<Semaphore> = AtomicPtr::new(std::ptr::null_mut());
static MAIN: AtomicU64 = AtomicU64::new(0);
static POOL: AtomicU64 = AtomicU64::new(0);
static IO: Mutex<Vec<(u64, &'static str, i64, i64)>> = Mutex::new(vec![]);

fn avail() -> i64 {
    let p = SEM.load(SeqCst);
    if p.is_null() { 0 } else { unsafe { (*p).available_permits() as i64 } }
}

fn thread_name(tid: u64) -> &'static str {
    if tid == MAIN.load(SeqCst) {
        "poll"
    } else if tid == POOL.load(SeqCst) {
        "pool"
    } else {
        "other"
    }
}

// Mapped regions are made inaccessible while tasks are polled or the pool runs,
// so that the first access to them is seen.
const NREG: usize = 8;
#[allow(clippy::declare_interior_mutable_const)]
const ZU: AtomicUsize = AtomicUsize::new(0);
static REG_A: [AtomicUsize; NREG] = [ZU; NREG];
static REG_B: [AtomicUsize; NREG] = [ZU; NREG];
const NTOUCH: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const Z64: AtomicU64 = AtomicU64::new(0);
static TOUCH: [AtomicU64; NTOUCH] = [Z64; NTOUCH];
static NTOUCHED: AtomicUsize = AtomicUsize::new(0);

extern "C" fn on_segv(_sig: libc::c_int, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        let addr = (*info).si_addr() as usize;
        for k in 0..NREG {
            let (a, b) = (REG_A[k].load(SeqCst), REG_B[k].load(SeqCst));
            if a <= addr && addr < b {
                libc::mprotect(a as *mut _, b - a, libc::PROT_READ);
                let n = NTOUCHED.fetch_add(1, SeqCst);
                if n < NTOUCH {
                    TOUCH[n].store(sys::tid() << 16 | (avail() as u64 & 0xffff), SeqCst);
                }
                return;
            }
        }
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
    }
}

fn install_segv() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_segv as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
    }
}

fn protect(prot: libc::c_int) {
    for k in 0..NREG {
        let (a, b) = (REG_A[k].load(SeqCst), REG_B[k].load(SeqCst));
        if a != 0 {
            unsafe { libc::mprotect(a as *mut _, b - a, prot) };
        }
    }
}

fn add_region(b: &[u8]) {
    let a = b.as_ptr() as usize & !4095;
    let z = (b.as_ptr() as usize + b.len() + 4095) & !4095;
    for k in 0..NREG {
        if REG_A[k].load(SeqCst) == 0 {
            REG_B[k].store(z, SeqCst);
            REG_A[k].store(a, SeqCst);
            return;
        }
    }
    panic!("script: too many regions");
}

fn clear_regions() {
    protect(libc::PROT_READ);
    for k in 0..NREG {
        REG_A[k].store(0, SeqCst);
        REG_B[k].store(0, SeqCst);
    }
}

// --- wakers -------------------------------------------------------------------

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}

// --- a buffer whose conversion fails on the pool, on demand --------------------

static LOSE: AtomicBool = AtomicBool::new(false);
static LOST: AtomicBool = AtomicBool::new(false);

fn maybe_lose() {
    if sys::tid() == POOL.load(SeqCst) && LOSE.swap(false, SeqCst) {
        LOST.store(true, SeqCst);
        panic!("lost");
    }
}

struct LossBuf(Bytes);

impl Buf for LossBuf {
    fn remaining(&self) -> usize {
        self.0.remaining()
    }
    fn chunk(&self) -> &[u8] {
        self.0.chunk()
    }
    fn advance(&mut self, n: usize) {
        self.0.advance(n)
    }
}
impl AsRef<[u8]> for LossBuf {
    fn as_ref(&self) -> &[u8] {
        maybe_lose();
        self.0.as_ref()
    }
}
impl From<Bytes> for LossBuf {
    fn from(b: Bytes) -> Self {
        maybe_lose();
        LossBuf(b)
    }
}
impl From<LossBuf> for Bytes {
    fn from(b: LossBuf) -> Bytes {
        b.0
    }
}
impl InputBuf for LossBuf {}
impl OutputBuf for LossBuf {
    fn from_mmap(m: olio::mem::MemHandle<memmap::Mmap>) -> Result<Self, io::Error> {
        maybe_lose();
        Ok(LossBuf(Bytes::copy_from_slice(&m[..])))
    }
}

type Lazy = Box<dyn FnOnce() -> Vec<u8>>;

trait Item: OutputBuf + InputBuf {
    fn lazy(self) -> Lazy;
    fn make(b: Vec<u8>, mapped: bool, dir: &Path) -> Self;
}
impl Item for Bytes {
    fn lazy(self) -> Lazy {
        Box::new(move || self.to_vec())
    }
    fn make(b: Vec<u8>, _: bool, _: &Path) -> Self {
        b.into()
    }
}
impl Item for LossBuf {
    fn lazy(self) -> Lazy {
        Box::new(move || self.0.to_vec())
    }
    fn make(b: Vec<u8>, _: bool, _: &Path) -> Self {
        LossBuf(b.into())
    }
}
impl Item for UniBodyBuf {
    fn lazy(self) -> Lazy {
        Box::new(move || self.to_vec())
    }
    fn make(b: Vec<u8>, mapped: bool, dir: &Path) -> Self {
        if mapped && !b.is_empty() {
            uni_mapped(&b, dir)
        } else {
            Bytes::from(b).into()
        }
    }
}

/// A unified buffer over mapped memory
pub fn uni_mapped(b: &[u8], dir: &Path) -> UniBodyBuf {
    sys::quiet(|| {
        let mut s = BodySink::with_fs(dir).unwrap();
        s.write_all(b).unwrap();
        let mut i = s.prepare().unwrap();
        i.mem_map().unwrap();
        first_item(i)
    })
}

/// The same, of a part of a file
pub fn uni_mapped_slice(b: &[u8], dir: &Path) -> UniBodyBuf {
    use std::io::Write;
    sys::quiet(|| {
        let mut f = rec::tempfile(dir);
        f.write_all(b"preface").unwrap();
        f.write_all(b).unwrap();
        f.write_all(b"and the rest").unwrap();
        let rs = olio::fs::rc::ReadSlice::new(Arc::new(f), 7, 7 + b.len() as u64);
        let mut i = unsafe { BodyImage::from_read_slice(rs) };
        i.mem_map().unwrap();
        first_item(i)
    })
}

fn first_item(i: BodyImage) -> UniBodyBuf {
    let mut st = AsyncBodyImage::<UniBodyBuf>::new(i, FutioTunables::new());
    let w = Waker::from(Arc::new(Flag(AtomicBool::new(false))));
    match Pin::new(&mut st).poll_next(&mut Context::from_waker(&w)) {
        Poll::Ready(Some(Ok(b))) => b,
        _ => panic!("no mapped buffer"),
    }
}

// --- streams and sinks of any type ---------------------------------------------

trait AnyStream {
    fn poll(&mut self, cx: &mut Context<'_>, hb: bool) -> Poll<Option<Result<Lazy, String>>>;
    /// Size hint and end of stream, as an HTTP body
    fn http(&self) -> (i64, i64);
    fn trailers(&mut self, cx: &mut Context<'_>) -> bool;
}

struct Plain<S>(Pin<Box<S>>);
struct Http<S>(Pin<Box<S>>);

fn lazily<B: Item>(p: Poll<Option<Result<B, io::Error>>>) -> Poll<Option<Result<Lazy, String>>> {
    p.map(|o| o.map(|r| r.map(|b| b.lazy()).map_err(|e| e.to_string())))
}

impl<B: Item, S: Stream<Item = Result<B, io::Error>>> AnyStream for Plain<S> {
    fn poll(&mut self, cx: &mut Context<'_>, _: bool) -> Poll<Option<Result<Lazy, String>>> {
        lazily(self.0.as_mut().poll_next(cx))
    }
    fn http(&self) -> (i64, i64) {
        (-1, 2)
    }
    fn trailers(&mut self, _: &mut Context<'_>) -> bool {
        true
    }
}

impl<B: Item, S> AnyStream for Http<S>
    where S: Stream<Item = Result<B, io::Error>> + http_body::Body<Data = B, Error = io::Error>
{
    fn poll(&mut self, cx: &mut Context<'_>, hb: bool) -> Poll<Option<Result<Lazy, String>>> {
        lazily(if hb { self.0.as_mut().poll_data(cx) } else { self.0.as_mut().poll_next(cx) })
    }
    fn http(&self) -> (i64, i64) {
        let h = http_body::Body::size_hint(&*self.0);
        let h = match h.exact() {
            Some(n) => n as i64,
            None => -2,
        };
        (h, http_body::Body::is_end_stream(&*self.0) as i64)
    }
    fn trailers(&mut self, cx: &mut Context<'_>) -> bool {
        matches!(self.0.as_mut().poll_trailers(cx), Poll::Ready(Ok(None)))
    }
}

fn stream_of<B: Item>(pol: &str, b: BodyImage, t: FutioTunables) -> Box<dyn AnyStream> {
    match pol {
        "direct" => Box::new(Http(Box::pin(AsyncBodyImage::<B>::new(b, t)))),
        "yield" => Box::new(Plain(Box::pin(<YieldBodyImage<B> as StreamWrapper>::new(b, t)))),
        "permit" => Box::new(Http(Box::pin(PermitBodyImage::<B>::new(b, t)))),
        "dispatch" => Box::new(Http(Box::pin(DispatchBodyImage::<B>::new(b, t)))),
        _ => panic!("script: policy {}", pol),
    }
}

fn split_of<B: Item + Splittable>(b: BodyImage, t: FutioTunables) -> Box<dyn AnyStream> {
    Box::new(Plain(Box::pin(<SplitBodyImage<B> as StreamWrapper>::new(b, t))))
}

fn new_stream(pol: &str, bt: &str, b: BodyImage, t: FutioTunables) -> Box<dyn AnyStream> {
    match (pol, bt) {
        ("split", "uni") => split_of::<UniBodyBuf>(b, t),
        ("split", _) => split_of::<Bytes>(b, t),
        (_, "uni") => stream_of::<UniBodyBuf>(pol, b, t),
        (_, "loss") => stream_of::<LossBuf>(pol, b, t),
        _ => stream_of::<Bytes>(pol, b, t),
    }
}

type Put = Poll<Result<(), FutioError>>;

trait AnySink {
    fn ready(&mut self, cx: &mut Context<'_>) -> Put;
    fn flush(&mut self, cx: &mut Context<'_>) -> Put;
    fn close(&mut self, cx: &mut Context<'_>) -> Put;
    fn send(&mut self, b: Vec<u8>, mapped: bool, dir: &Path) -> Result<(), FutioError>;
    fn inner(self: Box<Self>) -> BodySink;
}

struct SinkOf<B, S>(S, std::marker::PhantomData<fn() -> B>);

impl<B: Item, S: SinkWrapper<B> + Sink<B, Error = FutioError> + Unpin> AnySink for SinkOf<B, S> {
    fn ready(&mut self, cx: &mut Context<'_>) -> Put {
        Pin::new(&mut self.0).poll_ready(cx)
    }
    fn flush(&mut self, cx: &mut Context<'_>) -> Put {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn close(&mut self, cx: &mut Context<'_>) -> Put {
        Pin::new(&mut self.0).poll_close(cx)
    }
    fn send(&mut self, b: Vec<u8>, mapped: bool, dir: &Path) -> Result<(), FutioError> {
        let b = B::make(b, mapped, dir);
        Pin::new(&mut self.0).start_send(b)
    }
    fn inner(self: Box<Self>) -> BodySink {
        self.0.into_inner()
    }
}

fn sink_of<B: Item>(pol: &str, b: BodySink, t: FutioTunables) -> Box<dyn AnySink> {
    use std::marker::PhantomData as P;
    match pol {
        "direct" => Box::new(SinkOf::<B, _>(<AsyncBodySink<B> as SinkWrapper<B>>::new(b, t), P)),
        "permit" => Box::new(SinkOf::<B, _>(<PermitBodySink<B> as SinkWrapper<B>>::new(b, t), P)),
        "dispatch" => Box::new(SinkOf::<B, _>(<DispatchBodySink<B> as SinkWrapper<B>>::new(b, t), P)),
        _ => panic!("script: policy {}", pol),
    }
}

fn new_sink(pol: &str, bt: &str, b: BodySink, t: FutioTunables) -> Box<dyn AnySink> {
    match bt {
        "uni" => sink_of::<UniBodyBuf>(pol, b, t),
        "loss" => sink_of::<LossBuf>(pol, b, t),
        _ => sink_of::<Bytes>(pol, b, t),
    }
}

// --- the pool, gated ------------------------------------------------------------

struct Gates {
    released: u64,
    started: u64,
    tid: u64,
}

struct GatedPool {
    pool: DispatchPool,
    st: Arc<(Mutex<Gates>, Condvar)>,
    pushed: u64,
    at: u64,
    /// Task whose operation, if any, precedes each further gate
    next: VecDeque<i64>,
}

impl GatedPool {
    fn new() -> GatedPool {
        let pool = DispatchPool::builder().pool_size(1).ignore_panics(true).create();
        let st = Arc::new((Mutex::new(Gates { released: 0, started: 0, tid: 0 }), Condvar::new()));
        let mut g = GatedPool { pool, st, pushed: 0, at: 0, next: VecDeque::new() };
        g.push();
        assert!(g.wait_started(1), "pool made no progress");
        register_dispatch_pool(g.pool.clone());
        g
    }
    fn push(&mut self) {
        let n = self.pushed;
        self.pushed += 1;
        let st = self.st.clone();
        self.pool.spawn(Box::new(move || {
            let mut g = st.0.lock().unwrap();
            g.started = n + 1;
            g.tid = sys::tid();
            st.1.notify_all();
            while g.released <= n {
                g = st.1.wait(g).unwrap();
            }
        }));
    }
    fn wait_started(&self, n: u64) -> bool {
        let mut g = self.st.0.lock().unwrap();
        while g.started < n {
            let (h, to) = self.st.1.wait_timeout(g, Duration::from_secs(30)).unwrap();
            g = h;
            if to.timed_out() {
                return false;
            }
        }
        POOL.store(g.tid, SeqCst);
        true
    }
    /// Note that a task was polled, which may have queued an operation.
    fn polled(&mut self, t: i64, queued: bool) {
        self.push();
        self.next.push_back(if queued { t } else { 0 });
    }
    fn has(&self) -> bool {
        self.next.iter().any(|t| *t != 0)
    }
    /// Run up to and including the next operation, returning its task.
    fn step(&mut self) -> i64 {
        while let Some(t) = self.next.pop_front() {
            self.at += 1;
            {
                let mut g = self.st.0.lock().unwrap();
                g.released = self.at;
                self.st.1.notify_all();
            }
            assert!(self.wait_started(self.at + 1), "pool made no progress");
            if t != 0 {
                return t;
            }
        }
        0
    }
}

impl Drop for GatedPool {
    fn drop(&mut self) {
        deregister_dispatch_pool();
        self.st.0.lock().unwrap().released = u64::MAX;
        self.st.1.notify_all();
        // What is left must not run during the next script
        self.wait_started(self.pushed);
    }
}

// --- running a script -------------------------------------------------------------

enum Kind {
    Str(Box<dyn AnyStream>, bool),
    Snk(Box<dyn AnySink>),
}

struct Task {
    kind: Kind,
    dispatch: bool,
    flags: [Arc<Flag>; 2],
    cur: usize,
    pending: bool,
    queued: bool,
    /// Stream: bytes of an incomplete cell
    carry: Vec<u8>,
    /// Sink: may send; all is flushed
    can: bool,
    flushed: bool,
    fails: u32,
    ended: bool,
}

impl Task {
    fn new(kind: Kind, pol: &str) -> Task {
        let f = || Arc::new(Flag(AtomicBool::new(false)));
        Task {
            kind, dispatch: pol == "dispatch", flags: [f(), f()], cur: 0, pending: false,
            queued: false, carry: vec![], can: false, flushed: false, fails: 0, ended: false,
        }
    }
    fn woken(&self) -> bool {
        self.flags[self.cur].0.load(SeqCst)
    }
}

struct Run<'a> {
    c: usize,
    dir: &'a Path,
    sem: &'static Semaphore,
    held: Vec<blocking_permit_held::Permit>,
    tasks: BTreeMap<i64, Task>,
    pool: GatedPool,
    keep: Vec<BodyImage>,
    item: usize,
    bfs: usize,
    evs: Vec<Json>,
    /// Calls made by polls and the pool: index, name, size
    calls: Vec<(usize, &'static str, i64)>,
}

mod blocking_permit_held {
    pub type Permit = tokio::sync::SemaphorePermit<'static>;
}

struct Seen {
    io: Json,
    flt: &'static str,
}

impl<'a> Run<'a> {
    fn tune(&self, pol: &str, mram: u64, max: u64) -> FutioTunables {
        let mut t = FutioTuner::new();
        t.set_image(rec::tunables(mram, max, self.bfs, self.bfs, self.dir));
        t.set_stream_item_size(self.item);
        t.set_blocking_policy(match pol {
            "permit" => BlockingPolicy::Permit(self.sem),
            "dispatch" => BlockingPolicy::Dispatch,
            _ => BlockingPolicy::Direct,
        });
        t.finish()
    }

    /// Complete an event with what every event has.
    fn put(&mut self, mut e: Json) {
        let wk: Vec<i64> =
            self.tasks.iter().filter(|(_, t)| t.woken()).map(|(i, _)| *i).collect();
        e["wk"] = json!(wk);
        e["av"] = json!(avail());
        self.evs.push(e);
    }

    /// Observe file operations and mapped memory while running f.
    fn watch<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> (R, Seen) {
        sys::take();
        IO.lock().unwrap().clear();
        NTOUCHED.store(0, SeqCst);
        let n0 = sys::count();
        protect(libc::PROT_NONE);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self)));
        protect(libc::PROT_READ);
        let log = sys::take();
        for (k, e) in log.iter().enumerate() {
            self.calls.push((n0 + k, e.call, e.req));
        }
        let mut io: Vec<Json> = IO.lock().unwrap().drain(..)
            .map(|(tid, c, n, av)| json!({"w": thread_name(tid), "c": c, "n": n, "av": av}))
            .collect();
        for k in 0..NTOUCHED.load(SeqCst).min(NTOUCH) {
            let v = TOUCH[k].load(SeqCst);
            io.push(json!({"w": thread_name(v >> 16), "c": "touch", "n": 0, "av": v & 0xffff}));
        }
        let seen = Seen { io: json!(io), flt: fault_class(&log) };
        match r {
            Ok(r) => (r, seen),
            Err(e) => std::panic::resume_unwind(e),
        }
    }

    fn has(&self, t: i64, stream: bool) -> bool {
        match self.tasks.get(&t) {
            Some(x) => matches!(x.kind, Kind::Str(..)) == stream,
            None => false,
        }
    }

    fn waker(&mut self, t: i64, w: i64) -> Waker {
        let x = self.tasks.get_mut(&t).unwrap();
        x.cur = (w as usize) % 2;
        x.flags[0].0.store(false, SeqCst);
        x.flags[1].0.store(false, SeqCst);
        Waker::from(x.flags[x.cur].clone())
    }

    /// After a poll of t: returns whether it woke itself.
    fn after(&mut self, t: i64, pending: bool) -> bool {
        let x = self.tasks.get_mut(&t).unwrap();
        let own = pending && x.woken();
        x.pending = pending;
        if x.dispatch {
            let q = pending && !own && !x.queued;
            x.queued = x.queued || q;
            self.pool.polled(t, q);
        }
        own
    }

    fn poll_stream(&mut self, t: i64, w: i64) {
        let c = self.c;
        let waker = self.waker(t, w);
        let (r, seen) = self.watch(|s| {
            let x = s.tasks.get_mut(&t).unwrap();
            match x.kind {
                Kind::Str(ref mut st, hb) => st.poll(&mut Context::from_waker(&waker), hb),
                _ => unreachable!(),
            }
        });
        let own = self.after(t, r.is_pending());
        let x = self.tasks.get_mut(&t).unwrap();
        let (r, got, nb, what) = match r {
            Poll::Pending => ("pend", vec![], 0, String::new()),
            Poll::Ready(None) => {
                x.ended = true;
                ("end", vec![], 0, String::new())
            }
            Poll::Ready(Some(Err(e))) => {
                x.fails += 1;
                ("err", vec![], 0, e)
            }
            Poll::Ready(Some(Ok(f))) => {
                let b = f();
                let n = b.len();
                x.carry.extend_from_slice(&b);
                let k = x.carry.len() - x.carry.len() % c;
                let rest = x.carry.split_off(k);
                let whole = std::mem::replace(&mut x.carry, rest);
                ("item", rec::bproject(&whole, c), n, String::new())
            }
        };
        let (hint, eos) = match x.kind {
            Kind::Str(ref st, _) => st.http(),
            _ => unreachable!(),
        };
        self.put(json!({"op": "poll", "t": t, "r": r, "got": got, "nb": nb, "self": own,
            "io": seen.io, "flt": seen.flt, "hint": hint, "eos": eos, "what": what}));
    }

    fn poll_sink(&mut self, op: &str, t: i64, w: i64) {
        let waker = self.waker(t, w);
        let (r, seen) = self.watch(|s| {
            let x = s.tasks.get_mut(&t).unwrap();
            let cx = &mut Context::from_waker(&waker);
            match x.kind {
                Kind::Snk(ref mut k) => match op {
                    "ready" => k.ready(cx),
                    "flush" => k.flush(cx),
                    _ => k.close(cx),
                },
                _ => unreachable!(),
            }
        });
        let own = self.after(t, r.is_pending());
        let x = self.tasks.get_mut(&t).unwrap();
        let (r, n, what) = put_result(r);
        x.can = r == "ok" && op == "ready";
        x.flushed = (r == "ok" && op != "ready") || r == "long";
        if r == "err" {
            x.fails += 1;
        }
        self.put(json!({"op": op, "t": t, "r": r, "n": n, "self": own, "io": seen.io,
            "flt": seen.flt, "what": what}));
    }

    fn inner(&mut self, t: i64) {
        let c = self.c;
        let x = self.tasks.remove(&t).unwrap();
        let k = match x.kind {
            Kind::Snk(k) => k,
            _ => unreachable!(),
        };
        let s = k.inner();
        let ram = s.is_ram();
        let len = s.len();
        let got = sys::quiet(|| rec::body_bytes(&s.prepare().unwrap()));
        let got = match got {
            Ok(b) if b.len() as u64 == len => rec::bproject(&b, c),
            _ => vec![-1],
        };
        self.put(json!({"op": "inner", "t": t, "got": got, "ram": ram}));
    }

    fn step(&mut self, lose: bool) {
        if !self.pool.has() {
            return;
        }
        LOST.store(false, SeqCst);
        LOSE.store(lose, SeqCst);
        let (t, seen) = self.watch(|s| s.pool.step());
        LOSE.store(false, SeqCst);
        if let Some(x) = self.tasks.get_mut(&t) {
            x.queued = false;
        }
        self.put(json!({"op": "step", "t": t, "lost": LOST.load(SeqCst), "io": seen.io,
            "flt": seen.flt}));
    }

    fn op(&mut self, o: &Json) {
        let c = self.c;
        let t = int_or(o, "t", 0);
        let w = int_or(o, "w", 0);
        match text(o, "op") {
            "str" => {
                let (pol, bt, frm) = (text(o, "pol"), text(o, "bt"), text(o, "frm"));
                let cells = ints(&o["cells"]);
                let mut b = rec::body(&json!({"f": if frm == "gath" { "ram" } else { frm }, "v": cells}), c, self.dir);
                if frm == "gath" {
                    b.gather();
                }
                let ram = matches!(frm, "slice" | "ram" | "gath");
                if b.is_mem_map() {
                    self.keep.push(b.clone());
                    if let body_image::ExplodedImage::MemMap(m) = b.clone().explode() {
                        add_region(&m[..]);
                    }
                }
                let tune = self.tune(pol, 1 << 30, 1 << 30);
                let st = new_stream(pol, bt, b, tune);
                let (hint, eos) = st.http();
                self.tasks.insert(t, Task::new(Kind::Str(st, flag(o, "hb")), pol));
                self.put(json!({"op": "str", "t": t, "pol": pol, "ram": ram, "cells": cells,
                    "hint": hint, "eos": eos, "frm": frm, "bt": bt}));
            }
            "snk" => {
                let (pol, bt) = (text(o, "pol"), text(o, "bt"));
                let (mram, max) = (int(o, "mram"), int(o, "max"));
                let pre = ints(&o["pre"]);
                let fs = flag(o, "fs");
                let mut s = if fs { BodySink::with_fs(self.dir).unwrap() } else { BodySink::with_ram_buffers(2) };
                s.write_all(rec::bexpand(&pre, c)).unwrap();
                let tune = self.tune(pol, mram as u64, max as u64);
                let k = new_sink(pol, bt, s, tune);
                self.tasks.insert(t, Task::new(Kind::Snk(k), pol));
                self.put(json!({"op": "snk", "t": t, "pol": pol, "fs": fs, "pre": pre,
                    "mram": mram, "max": max, "bt": bt}));
            }
            "poll" if self.has(t, true) => self.poll_stream(t, w),
            op @ ("ready" | "flush" | "close") if self.has(t, false) => self.poll_sink(op, t, w),
            "send" if self.has(t, false) && self.tasks[&t].can && self.tasks[&t].fails == 0 => {
                let cells = ints(&o["cells"]);
                let b = rec::bexpand(&cells, c);
                let map = flag(o, "map");
                let (r, seen) = self.watch(|s| {
                    let dir = s.dir;
                    match s.tasks.get_mut(&t).unwrap().kind {
                        Kind::Snk(ref mut k) => k.send(b, map, dir),
                        _ => unreachable!(),
                    }
                });
                let (r, n, what) = put_result(Poll::Ready(r));
                let x = self.tasks.get_mut(&t).unwrap();
                x.can = false;
                x.flushed = false;
                self.put(json!({"op": "send", "t": t, "cells": cells, "r": r, "n": n,
                    "io": seen.io, "flt": seen.flt, "what": what}));
            }
            "inner" if self.has(t, false) && self.tasks[&t].flushed && self.tasks[&t].fails == 0 =>
                self.inner(t),
            "drop" if self.tasks.contains_key(&t) => {
                self.tasks.remove(&t);
                self.put(json!({"op": "drop", "t": t}));
            }
            "hold" => {
                let p = self.sem.try_acquire();
                let ok = p.is_ok();
                self.held.extend(p.ok());
                self.put(json!({"op": "hold", "ok": ok}));
            }
            "rel" if !self.held.is_empty() => {
                self.held.pop();
                self.put(json!({"op": "rel"}));
            }
            "shut" => {
                self.sem.close();
                self.put(json!({"op": "shut"}));
            }
            "step" => self.step(flag(o, "lost")),
            "poll" | "ready" | "flush" | "close" | "send" | "inner" | "drop" | "rel" => {}
            op => panic!("script: unknown op {}", op),
        }
    }

    /// Release everything and let all tasks complete.
    fn drain(&mut self) {
        while !self.held.is_empty() {
            self.op(&json!({"op": "rel"}));
        }
        let mut w = 0;
        for _ in 0..3000 {
            beat();
            w += 1;
            let ready: Vec<i64> = self.tasks.iter()
                .filter(|(_, x)| !x.pending || x.woken())
                .map(|(t, _)| *t)
                .collect();
            if ready.is_empty() {
                if self.pool.has() {
                    self.step(false);
                    continue;
                }
                if self.tasks.is_empty() {
                    self.put(json!({"op": "fin"}));
                } else {
                    self.put(json!({"op": "stall"}));
                }
                return;
            }
            for t in ready {
                if self.has(t, true) {
                    self.poll_stream(t, w / 2);
                    if self.tasks[&t].ended || self.tasks[&t].fails > 2 {
                        if let Kind::Str(ref mut st, _) = self.tasks.get_mut(&t).unwrap().kind {
                            let wk = Waker::from(Arc::new(Flag(AtomicBool::new(false))));
                            let none = st.trailers(&mut Context::from_waker(&wk));
                            self.put(json!({"op": "trail", "t": t, "none": none}));
                        }
                        self.op(&json!({"op": "drop", "t": t}));
                    }
                } else {
                    self.poll_sink(if w % 2 == 0 { "flush" } else { "close" }, t, w / 3);
                    let x = &self.tasks[&t];
                    if x.fails > 2 {
                        self.op(&json!({"op": "drop", "t": t}));
                    } else if x.flushed && x.fails == 0 {
                        self.inner(t);
                    } else if x.flushed {
                        self.op(&json!({"op": "drop", "t": t}));
                    }
                }
            }
        }
        self.put(json!({"op": "endless"}));
    }
}

fn put_result(r: Put) -> (&'static str, u64, String) {
    match r {
        Poll::Pending => ("pend", 0, String::new()),
        Poll::Ready(Ok(())) => ("ok", 0, String::new()),
        Poll::Ready(Err(FutioError::Body(BodyError::BodyTooLong(n)))) => ("long", n, String::new()),
        Poll::Ready(Err(e)) => ("err", 0, e.to_string()),
    }
}

fn run_one(s: &Json, dir: &Path, plan: &[(usize, Fault)]) -> (Json, Vec<(usize, &'static str, i64)>) {
    let p = int(s, "p");
    let (c, item, bfs) = (int(s, "c") as usize, int(s, "item") as usize, int(s, "bfs") as usize);
    let sem: &'static Semaphore = Box::leak(Box::new(Semaphore::new(p as usize)));
    SEM.store(sem as *const _ as *mut _, SeqCst);
    MAIN.store(sys::tid(), SeqCst);
    sys::start(dir);
    sys::plan(plan);
    sys::hook(Some(Arc::new(|before, e| {
        if before {
            let av = avail();
            IO.lock().unwrap().push((e.tid, e.call, e.req, av));
        }
    })));
    let mut run = Run {
        c, dir, sem, held: vec![], tasks: BTreeMap::new(), pool: GatedPool::new(), keep: vec![],
        item, bfs, evs: vec![], calls: vec![],
    };
    let r = guard(|| {
        for o in s["ops"].as_array().unwrap() {
            run.op(o);
        }
        run.drain();
    });
    clear_regions();
    if let Err(p) = r {
        if p["msg"].as_str().unwrap_or("").starts_with("script:") {
            eprintln!("{}", p["msg"]);
            std::process::exit(2);
        }
        run.evs.push(p);
    }
    let evs = std::mem::take(&mut run.evs);
    let calls = std::mem::take(&mut run.calls);
    sys::hook(None);
    sys::quiet(|| drop(run));
    sys::stop();
    let plan: Vec<String> = plan.iter().map(|(i, f)| format!("{}:{:?}", i, f)).collect();
    (json!({"p": p, "c": c, "item": item, "bfs": bfs, "plan": plan.join(" "), "ev": evs}), calls)
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("asyn");
    // Only the configured directory is there to hold files
    std::env::set_var("TMPDIR", scratch.path().join("none"));
    install_segv();
    each_script(args, |s, emit| {
        let (t, calls) = run_one(s, scratch.path(), &[]);
        emit(t);
        if flag(s, "faults") {
            for (k, call, req) in calls {
                for f in faults_for(call, req) {
                    emit(run_one(s, scratch.path(), &[(k, f)]).0);
                }
            }
        }
    });
}
