//! Exch.tla: exchanges with a server in the same runtime, many at once.

use crate::rec::{bexpand, body_bytes, body_of, bproject};
use crate::util::*;
use blocking_permit::{register_dispatch_pool, DispatchPool, Semaphore, Semaphorish};
use body_image::*;
use body_image_futio::*;
use bytes::{Buf, Bytes};
use futures_util::{sink::Sink, sink::SinkExt, stream::StreamExt, stream::TryStreamExt};
use http::{Request, Response};
use http_body::Body as _;
use hyper::client::{Client, HttpConnector};
use hyper::service::{make_service_fn, service_fn};
use serde_json::json;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::Duration;

type Part = Box<dyn Buf + Send>;
type Reply = Pin<Box<dyn http_body::Body<Data = Part, Error = Flaw> + Send + Sync>>;

/// Any body as one of boxed parts
struct Boxed<B>(Pin<Box<B>>);

impl<B> http_body::Body for Boxed<B>
where
    B: http_body::Body,
    B::Data: Send + 'static,
    B::Error: Into<Flaw>,
{
    type Data = Part;
    type Error = Flaw;
    fn poll_data(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Part, Flaw>>> {
        self.0.as_mut().poll_data(cx)
            .map(|o| o.map(|r| r.map(|d| Box::new(d) as Part).map_err(Into::into)))
    }
    fn poll_trailers(mut self: Pin<&mut Self>, cx: &mut Context<'_>)
        -> Poll<Result<Option<http::HeaderMap>, Flaw>>
    {
        self.0.as_mut().poll_trailers(cx).map_err(Into::into)
    }
    fn size_hint(&self) -> http_body::SizeHint {
        self.0.size_hint()
    }
    fn is_end_stream(&self) -> bool {
        self.0.is_end_stream()
    }
}

fn boxed<B>(b: B) -> Reply
where
    B: http_body::Body + Send + Sync + 'static,
    B::Data: Send + 'static,
    B::Error: Into<Flaw>,
{
    Box::pin(Boxed(Box::pin(b)))
}

struct Setup {
    qs: Vec<Json>,
    c: usize,
    dir: PathBuf,
    sem: &'static Semaphore,
}

impl Setup {
    fn tune(&self, kind: &str, item: usize, max: u64, ram: u64) -> FutioTunables {
        let mut it = Tuner::new();
        it.set_max_body(max).set_max_body_ram(ram).set_temp_dir(&self.dir).set_buffer_size_fs(item);
        let mut t = FutioTuner::new();
        t.set_image(it.finish()).set_stream_item_size(item);
        t.unset_res_timeout().unset_body_timeout();
        t.set_blocking_policy(match kind {
            "permit" => BlockingPolicy::Permit(self.sem),
            "dispatch" => BlockingPolicy::Dispatch,
            _ => BlockingPolicy::Direct,
        });
        t.finish()
    }

    fn body(&self, form: &str, v: &Json) -> BodyImage {
        let b = bexpand(&ints(v), self.c);
        body_of(form, &b, 1 + b.len() / 3, &self.dir)
    }

    /// Take in a request's body
    async fn take<S, B>(&self, body: hyper::Body, tune: FutioTunables) -> Result<BodySink, FutioError>
    where
        S: SinkWrapper<B> + Sink<B, Error = FutioError> + Unpin,
        B: From<Bytes>,
    {
        let mut s = S::new(BodySink::with_ram_buffers(2), tune);
        let mut body = body.map_ok(B::from);
        while let Some(b) = body.next().await {
            s.send(b.map_err(FutioError::from)?).await?;
        }
        s.close().await?;
        Ok(s.into_inner())
    }

    async fn serve(self: Arc<Self>, req: Request<hyper::Body>) -> Result<Response<Reply>, Flaw> {
        let k: usize = req.headers()["x-k"].to_str()?.parse()?;
        let q = &self.qs[k - 1];
        if flag(q, "die") {
            return Err("giving up".into());
        }
        let t = self.tune(text(q, "sink"), 1000, int(q, "smax") as u64, int(q, "sram") as u64);
        let b = req.into_body();
        let got = match (text(q, "sink"), text(q, "sinkb")) {
            ("direct", "bytes") => self.take::<AsyncBodySink<Bytes>, _>(b, t).await,
            ("direct", _) => self.take::<AsyncBodySink<UniBodyBuf>, _>(b, t).await,
            ("permit", "bytes") => self.take::<PermitBodySink<Bytes>, _>(b, t).await,
            ("permit", _) => self.take::<PermitBodySink<UniBodyBuf>, _>(b, t).await,
            (_, "bytes") => self.take::<DispatchBodySink<Bytes>, _>(b, t).await,
            _ => self.take::<DispatchBodySink<UniBodyBuf>, _>(b, t).await,
        };
        let res = Response::builder().header("x-k", k);
        let got = match got {
            Ok(s) => s.prepare()?,
            Err(FutioError::Body(BodyError::BodyTooLong(_))) => {
                return Ok(res.status(413).body(boxed(hyper::Body::empty()))?);
            }
            Err(e) => return Err(e.into()),
        };
        let sent = serde_json::to_string(&bproject(&body_bytes(&got)?, self.c))?;
        let mut b = if flag(q, "echo") { got } else { self.body(text(q, "g"), &q["w"]) };
        if flag(q, "map") && !b.is_ram() {
            b.mem_map()?;
        }
        let t = self.tune(text(q, "down"), int(q, "downi") as usize, 1 << 30, 1 << 20);
        let body = match (text(q, "down"), text(q, "downb")) {
            ("direct", "bytes") => boxed(AsyncBodyImage::<Bytes>::new(b, t)),
            ("direct", _) => boxed(AsyncBodyImage::<UniBodyBuf>::new(b, t)),
            ("permit", "bytes") => boxed(PermitBodyImage::<Bytes>::new(b, t)),
            ("permit", _) => boxed(PermitBodyImage::<UniBodyBuf>::new(b, t)),
            ("dispatch", "bytes") => boxed(DispatchBodyImage::<Bytes>::new(b, t)),
            ("dispatch", _) => boxed(DispatchBodyImage::<UniBodyBuf>::new(b, t)),
            ("split", _) => boxed(hyper::Body::wrap_stream(<SplitBodyImage<Bytes> as StreamWrapper>::new(b, t))),
            _ => boxed(hyper::Body::wrap_stream(<YieldBodyImage<UniBodyBuf> as StreamWrapper>::new(b, t))),
        };
        Ok(res.header("x-sent", sent).status(200).body(body)?)
    }

    async fn client<B>(self: Arc<Self>, k: usize, url: String, client: Client<HttpConnector, B>) -> Json
    where
        http::request::Builder: RequestRecorder<B>,
        B: http_body::Body + Send + Unpin + 'static,
        B::Data: Send + Unpin,
        B::Error: Into<Flaw>,
    {
        let q = &self.qs[k - 1];
        let t = self.tune(text(q, "up"), int(q, "upi") as usize, 1 << 30, 1 << 20);
        let rr = Request::builder().method("POST").uri(url).header("x-k", k)
            .record_body_image(self.body(text(q, "f"), &q["v"]), t).unwrap();
        let t = self.tune(text(q, "pol"), 1000, int(q, "cmax") as u64, int(q, "cram") as u64);
        match request_dialog(&client, rr, t).await {
            Ok(d) => {
                let num = |n: &str| d.res_headers().get(n).and_then(|v| v.to_str().ok())
                    .and_then(|v| serde_json::from_str::<Json>(v).ok()).unwrap_or(json!([]));
                json!({"r": "ok", "k": num("x-k"), "status": d.res_status().as_u16(), "sent": num("x-sent"),
                       "b": body_bytes(d.res_body()).map(|b| bproject(&b, self.c)).unwrap_or(vec![-2])})
            }
            Err(e) => json!({"r": "err", "msg": e.to_string(), "kind": match e {
                FutioError::ContentLengthTooLong(_) => "cltoolong",
                FutioError::Body(BodyError::BodyTooLong(_)) => "toolong",
                FutioError::Hyper(_) => "http",
                _ => "other",
            }}),
        }
    }
}

struct Clients {
    hyper: Client<HttpConnector, hyper::Body>,
    direct: Client<HttpConnector, AsyncBodyImage<Bytes>>,
    directu: Client<HttpConnector, AsyncBodyImage<UniBodyBuf>>,
    permit: Client<HttpConnector, PermitBodyImage<Bytes>>,
    permitu: Client<HttpConnector, PermitBodyImage<UniBodyBuf>>,
    dispatch: Client<HttpConnector, DispatchBodyImage<Bytes>>,
    dispatchu: Client<HttpConnector, DispatchBodyImage<UniBodyBuf>>,
}

impl Clients {
    fn new() -> Clients {
        let b = Client::builder();
        let h = HttpConnector::new;
        Clients {
            hyper: b.build(h()), direct: b.build(h()), directu: b.build(h()), permit: b.build(h()),
            permitu: b.build(h()), dispatch: b.build(h()), dispatchu: b.build(h()),
        }
    }
}

async fn all(s: Arc<Setup>, nclients: usize) -> Vec<Json> {
    let (tx, rx) = tokio::sync::oneshot::channel::<()>();
    let st = s.clone();
    let server = hyper::Server::from_tcp(crate::server::listen()).unwrap()
        .serve(make_service_fn(move |_| {
            let st = st.clone();
            async move {
                Ok::<_, Flaw>(service_fn(move |req| st.clone().serve(req)))
            }
        }));
    let url = format!("http://{}", server.local_addr());
    let server = tokio::spawn(server.with_graceful_shutdown(async { rx.await.unwrap_or(()) }));
    let cs: Vec<Clients> = (0..nclients).map(|_| Clients::new()).collect();
    let tasks: Vec<_> = s.qs.iter().enumerate().map(|(i, q)| {
        let c = &cs[i % nclients];
        let (s, k, u) = (s.clone(), i + 1, format!("{}/{}", url, i));
        let t = match (text(q, "up"), text(q, "upb")) {
            ("hyper", _) => tokio::spawn(s.client(k, u, c.hyper.clone())),
            ("direct", "bytes") => tokio::spawn(s.client(k, u, c.direct.clone())),
            ("direct", _) => tokio::spawn(s.client(k, u, c.directu.clone())),
            ("permit", "bytes") => tokio::spawn(s.client(k, u, c.permit.clone())),
            ("permit", _) => tokio::spawn(s.client(k, u, c.permitu.clone())),
            (_, "bytes") => tokio::spawn(s.client(k, u, c.dispatch.clone())),
            _ => tokio::spawn(s.client(k, u, c.dispatchu.clone())),
        };
        (t, flag(q, "quit"), int(q, "after") as u64)
    }).collect();
    let mut outs = vec![];
    for (mut t, quit, after) in tasks {
        // What quits does so some time after its start (or that of later ones)
        let r = if quit {
            match tokio::time::timeout(Duration::from_micros(after), &mut t).await {
                Ok(r) => Some(r),
                Err(_) => {
                    t.abort();
                    None
                }
            }
        } else {
            Some(t.await)
        };
        outs.push(match r {
            None => json!({"r": "quit"}),
            Some(Ok(o)) => o,
            Some(Err(e)) => json!({"r": "panic", "msg": e.to_string()}),
        });
    }
    drop(cs);
    let _ = tx.send(());
    let _ = server.await;
    outs
}

fn one(j: &Json, dir: &Path) -> Json {
    let n = int(j, "permits") as usize;
    // The policy wants one for good
    let sem: &'static Semaphore = Box::leak(Box::new(Semaphore::default_new(n)));
    let s = Arc::new(Setup {
        qs: j["qs"].as_array().unwrap().clone(), c: int(j, "c") as usize, dir: dir.to_owned(), sem,
    });
    let pool = DispatchPool::builder().pool_size(int(j, "pool") as usize).create();
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(int(j, "workers") as usize)
        .enable_io()
        .enable_time()
        .on_thread_start(move || {
            register_dispatch_pool(pool.clone());
        })
        .build()
        .unwrap();
    let nc = int(j, "clients") as usize;
    let out = rt.block_on(async move {
        tokio::time::timeout(Duration::from_secs(45), tokio::spawn(all(s, nc))).await
    });
    let e = match out {
        Err(_) => json!({"op": "stall"}),
        Ok(Err(e)) => json!({"op": "panic", "msg": e.to_string()}),
        Ok(Ok(o)) => json!({"op": "all", "out": o}),
    };
    // Ends still going, of exchanges given up, go with the runtime
    rt.shutdown_timeout(Duration::from_secs(10));
    let mut e = e;
    e["permits"] = json!(sem.available_permits());
    json!({"qs": j["qs"], "permits": n, "ev": [e]})
}

pub fn run(args: &[String]) {
    let scratch = Scratch::new("exch");
    let mut stalled = false;
    each_script(args, |s, emit| {
        // One that never ends is all there is to find, so save the time of others
        if !stalled {
            let t = one(s, scratch.path());
            stalled = t["ev"][0]["op"] == "stall";
            emit(t);
        }
    });
}
