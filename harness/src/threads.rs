//! Real threads, the real clock and the real loopback: what every call of the library was asked and what it answered,
//! in the order in which it happened. One scenario is one runtime with several worker threads.
use crate::{chaos, world};
use rust_raknet::{RaknetListener, RaknetSocket};
use serde_json::{json, Value};
use std::future::Future;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::time::{sleep, timeout};

type Log = Arc<Mutex<Vec<Value>>>;
type E<T> = Result<T, rust_raknet::error::RaknetError>;

thread_local! {
    static LOG: std::cell::RefCell<Option<(Log, Instant)>> = const { std::cell::RefCell::new(None) };
}

/// is this a thread of some scenario?
pub fn here() -> bool {
    LOG.with(|l| l.borrow().is_some())
}

/// a panic of a thread of some scenario
pub fn panicked(at: &str) -> bool {
    LOG.with(|l| {
        let Some((l, t0)) = l.borrow().clone() else { return false };
        let t = t0.elapsed().as_millis() as u64;
        let mut g = match l.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        g.push(json!({"e": "panic", "t": t, "at": at}));
        true
    })
}

#[derive(Clone)]
struct Cx {
    log: Log,
    t0: Instant,
    k: Arc<AtomicUsize>,
    rng: Arc<AtomicU64>,
    bound: u64,
}

struct Call<'a> {
    cx: &'a Cx,
    k: usize,
}

impl Cx {
    fn put(&self, mut v: Value) {
        let mut g = self.log.lock().unwrap_or_else(|p| p.into_inner());
        v["t"] = json!(self.t0.elapsed().as_millis() as u64);
        g.push(v);
    }
    fn rnd(&self, n: u64) -> u64 {
        let mut s = self.rng.fetch_add(0x9e3779b97f4a7c15, SeqCst);
        s = (s ^ (s >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        s = (s ^ (s >> 27)).wrapping_mul(0x94d049bb133111eb);
        (s ^ (s >> 31)) % n
    }
    fn call(&self, op: &str, mut v: Value) -> Call<'_> {
        let k = self.k.fetch_add(1, SeqCst);
        v["e"] = json!("inv");
        v["op"] = json!(op);
        v["k"] = json!(k);
        self.put(v);
        Call { cx: self, k }
    }
}

impl Call<'_> {
    fn ret<T>(self, r: &E<T>, mut v: Value) {
        v["e"] = json!("ret");
        v["k"] = json!(self.k);
        v["res"] = match r {
            Ok(_) => json!("ok"),
            Err(e) => json!(format!("{e:?}")),
        };
        self.cx.put(v);
    }
    async fn within<T>(self, ms: u64, f: impl Future<Output = E<T>>, more: impl Fn(&T) -> Value) -> Option<E<T>> {
        match timeout(Duration::from_millis(ms), f).await {
            Ok(r) => {
                let v = r.as_ref().map(&more).unwrap_or(json!({}));
                self.ret(&r, v);
                Some(r)
            }
            Err(_) => {
                self.cx.put(json!({"e": "ret", "k": self.k, "res": "hang"}));
                None
            }
        }
    }
}

fn none<T>(_: &T) -> Value {
    json!({})
}

/// the bytes of message `id` of an end
fn body(id: u64, len: usize) -> Vec<u8> {
    let mut v = vec![0xfe];
    v.extend_from_slice(&(id as u32).to_be_bytes());
    while v.len() < len {
        let k = v.len() as u64;
        v.push(((k.wrapping_mul(2654435761).wrapping_add(id)) >> 9) as u8);
    }
    v
}

struct End {
    cx: Cx,
    c: u16,       // the connection: the port of the client
    side: u8,     // 0 client, 1 session of the listener
    s: Arc<RaknetSocket>,
    ids: Arc<AtomicU64>,
}

impl End {
    fn v(&self) -> Value {
        json!({"c": self.c, "side": self.side})
    }
    async fn send(&self, small: bool) -> bool {
        let rel = [0u8, 1, 2, 3, 3, 3, 4][self.cx.rnd(7) as usize];
        let len = match (rel, small) {
            (3, false) if self.cx.rnd(6) == 0 => 1400 + self.cx.rnd(6000) as usize,
            _ => 6 + self.cx.rnd(300) as usize,
        };
        let id = self.ids.fetch_add(1, SeqCst);
        let b = body(id, len);
        let mut v = self.v();
        v["m"] = json!(id);
        v["rel"] = json!(rel);
        let call = self.cx.call("send", v);
        matches!(call.within(self.cx.bound, self.s.send(&b, world::rel(rel)), none).await, Some(Ok(_)))
    }
    async fn write(&self, n: u64) {
        for _ in 0..n {
            match self.cx.rnd(12) {
                0 => {
                    self.flush().await;
                }
                1..=3 => sleep(Duration::from_millis(self.cx.rnd(12))).await,
                _ => {}
            };
            if !self.send(false).await && self.cx.rnd(3) == 0 {
                break;
            }
        }
    }
    async fn flush(&self) -> bool {
        let call = self.cx.call("flush", self.v());
        matches!(call.within(self.cx.bound, self.s.flush(), none).await, Some(Ok(_)))
    }
    /// every message until the connection has ended; `pending`: the call that waits
    async fn read(&self, pending: Arc<AtomicUsize>) {
        let mut after = 0;
        while after < 2 {
            let call = self.cx.call("recv", self.v());
            pending.store(call.k, SeqCst);
            let r = self.s.recv().await;
            pending.store(usize::MAX, SeqCst);
            match r {
                Ok(b) => {
                    let id = if b.len() >= 5 { u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as u64 } else { 1 << 30 };
                    let good = b.len() >= 5 && b == body(id, b.len());
                    call.ret(&E::Ok(()), json!({"m": id & 0x3fffffff, "good": good, "len": b.len()}));
                }
                Err(e) => {
                    call.ret::<()>(&Err(e), json!({}));
                    after += 1;
                }
            }
        }
    }
    async fn close(&self) {
        let call = self.cx.call("close", self.v());
        call.within(self.cx.bound, self.s.close(), none).await;
    }
}

fn port(a: &SocketAddr) -> u16 {
    a.port()
}

fn hung(cx: &Cx, k: usize) {
    cx.put(json!({"e": "ret", "k": k, "res": "hang"}));
}

/// one end of a connection: a reader, writers, and what ends it
struct Side {
    end: Option<Arc<End>>,
    reader: Option<tokio::task::JoinHandle<()>>,
    pending: Arc<AtomicUsize>,
    writers: Vec<tokio::task::JoinHandle<()>>,
}

fn start(cx: &Cx, c: u16, side: u8, s: RaknetSocket, sc: &Value) -> Side {
    let end = Arc::new(End { cx: cx.clone(), c, side, s: Arc::new(s), ids: Arc::new(AtomicU64::new(1)) });
    let pending = Arc::new(AtomicUsize::new(usize::MAX));
    let (e, p) = (end.clone(), pending.clone());
    let reader = Some(tokio::spawn(async move { e.read(p).await }));
    let writers = (0..sc["writers"].as_u64().unwrap_or(1))
        .map(|_| {
            let e = end.clone();
            let n = sc["msgs"].as_u64().unwrap_or(10);
            tokio::spawn(async move { e.write(n).await })
        })
        .collect();
    Side { end: Some(end), reader, pending, writers }
}

pub async fn cell(sc: Value, log: Log, t0: Instant) {
    let cx = Cx {
        log,
        t0,
        k: Arc::new(AtomicUsize::new(0)),
        rng: Arc::new(AtomicU64::new(sc["seed"].as_u64().unwrap_or(1).wrapping_mul(0x9e3779b97f4a7c15))),
        bound: 20000,
    };
    let n = sc["clients"].as_u64().unwrap_or(1) as usize;
    let take = sc["take"].as_u64().unwrap_or(n as u64) as usize;
    let end = sc["end"].as_str().unwrap_or("cclose").to_string();
    let abrupt = sc["abrupt"].as_bool().unwrap_or(false);

    // a few listeners that are made and closed or dropped at once
    for _ in 0..sc["churn"].as_u64().unwrap_or(0) {
        let call = cx.call("bind", json!({"l": 0}));
        let r = call.within(cx.bound, RaknetListener::bind(&"127.0.0.1:0".parse().unwrap()), none).await;
        let Some(Ok(mut l)) = r else { return };
        if cx.rnd(2) == 0 {
            let call = cx.call("listen", json!({"l": 0}));
            call.within(cx.bound, async { l.listen().await; Ok(()) }, none).await;
        }
        if cx.rnd(2) == 0 {
            let call = cx.call("lclose", json!({"l": 0}));
            call.within(cx.bound, l.close(), none).await;
        }
    }

    let call = cx.call("bind", json!({"l": 1}));
    let r = call.within(cx.bound, RaknetListener::bind(&"127.0.0.1:0".parse().unwrap()), none).await;
    let Some(Ok(mut l)) = r else { return };
    let addr = l.local_addr().unwrap();
    let call = cx.call("listen", json!({"l": 1}));
    if call.within(cx.bound, async { l.listen().await; Ok(()) }, none).await.is_none() {
        return;
    }
    let _ = l.set_motd("m", 10, "486", "1.18.11", "Survival", addr.port()).await;

    let (tx, mut sides) = tokio::sync::mpsc::unbounded_channel::<Side>();
    let mut makers = vec![];
    let closed = Arc::new(AtomicBool::new(false));
    for _ in 0..n {
        let (cx, tx, sc, closed) = (cx.clone(), tx.clone(), sc.clone(), closed.clone());
        makers.push(tokio::spawn(async move {
            sleep(Duration::from_micros(cx.rnd(3000))).await;
            let call = cx.call("connect", json!({"l": 1}));
            // a listener that is closed does not answer, and connect() goes on asking: it is given up then
            let gone = async {
                while !closed.load(SeqCst) {
                    sleep(Duration::from_millis(20)).await;
                }
                sleep(Duration::from_millis(1500)).await;
            };
            let k = call.k;
            let made = call.within(25000, RaknetSocket::connect(&addr), |s| json!({"c": port(&s.local_addr().unwrap())}));
            let r = tokio::select! {
                biased;
                r = made => r,
                _ = gone => {
                    cx.put(json!({"e": "ret", "k": k, "res": "gone"}));
                    None
                }
            };
            if let Some(Ok(s)) = r {
                let c = port(&s.local_addr().unwrap());
                let _ = tx.send(start(&cx, c, 0, s, &sc));
            }
        }));
    }
    if sc["ping"].as_bool().unwrap_or(false) {
        let (cx, closed) = (cx.clone(), closed.clone());
        makers.push(tokio::spawn(async move {
            let call = cx.call("ping", json!({"l": 1}));
            let k = call.k;
            let r = call.within(25000, RaknetSocket::ping(&addr), none);
            tokio::select! {
                biased;
                _ = r => {}
                _ = async {
                    while !closed.load(SeqCst) {
                        sleep(Duration::from_millis(20)).await;
                    }
                    sleep(Duration::from_millis(1500)).await;
                } => cx.put(json!({"e": "ret", "k": k, "res": "gone"})),
            }
        }));
    }
    for _ in 0..take {
        let call = cx.call("accept", json!({"l": 1}));
        let r = call.within(25000, l.accept(), |s| json!({"c": port(&s.peer_addr().unwrap())})).await;
        match r {
            Some(Ok(s)) => {
                let c = port(&s.peer_addr().unwrap());
                let _ = tx.send(start(&cx, c, 1, s, &sc));
            }
            _ => break,
        }
    }
    drop(tx);

    // the listener may be closed while connections are made and written to
    let mut listener = Some(l);
    if end == "lclose" || end == "ldrop" {
        if abrupt {
            sleep(Duration::from_micros(cx.rnd(40000))).await;
        } else {
            for m in makers.drain(..) {
                let _ = m.await;
            }
        }
    }
    let mut all = vec![];
    if !(abrupt && (end == "lclose" || end == "ldrop")) {
        for m in makers.drain(..) {
            let _ = m.await;
        }
        while let Ok(x) = sides.try_recv() {
            all.push(x);
        }
        if !abrupt {
            for x in all.iter_mut() {
                for w in x.writers.drain(..) {
                    let _ = w.await;
                }
                x.end.as_ref().unwrap().flush().await;
            }
        } else {
            sleep(Duration::from_micros(cx.rnd(60000))).await;
        }
        // how the connections end
        let mut enders = vec![];
        for x in all.iter_mut() {
            let side = x.end.as_ref().unwrap().side;
            let mine = match end.as_str() {
                "cclose" | "cdrop" => side == 0,
                "sclose" | "sdrop" => side == 1,
                "both" => true,
                _ => false,
            };
            if !mine {
                continue;
            }
            if end.ends_with("drop") {
                // no call may be going on on what is dropped
                let h = x.reader.take().unwrap();
                h.abort();
                let _ = h.await;
                let k = x.pending.swap(usize::MAX, SeqCst);
                if k != usize::MAX {
                    cx.put(json!({"e": "ret", "k": k, "res": "gone"}));
                }
                for w in x.writers.drain(..) {
                    let _ = w.await;
                }
                let call = cx.call("drop", x.end.as_ref().unwrap().v());
                let e = x.end.take().unwrap();
                if let Ok(e) = Arc::try_unwrap(e) {
                    drop(e);
                }
                call.ret(&E::Ok(()), json!({}));
                continue;
            }
            let e = x.end.clone().unwrap();
            let (rep, cx) = (1 + cx.rnd(2), cx.clone());
            for _ in 0..rep {
                let (e, cx) = (e.clone(), cx.clone());
                enders.push(tokio::spawn(async move {
                    sleep(Duration::from_micros(cx.rnd(3000))).await;
                    e.close().await
                }));
            }
        }
        for x in enders {
            let _ = x.await;
        }
    }
    if end == "ldrop" {
        let call = cx.call("ldrop", json!({"l": 1}));
        drop(listener.take());
        call.ret(&E::Ok(()), json!({}));
    }
    if end == "lclose" {
        let l = listener.as_mut().unwrap();
        let call = cx.call("lclose", json!({"l": 1}));
        call.within(cx.bound, l.close(), none).await;
    }
    closed.store(true, SeqCst);
    for m in makers {
        let _ = m.await;
    }
    while let Some(x) = sides.recv().await {
        all.push(x);
    }
    for x in all.iter_mut() {
        for w in x.writers.drain(..) {
            let _ = w.await;
        }
    }
    // every reader ends
    let until = Instant::now() + Duration::from_millis(if end == "ldrop" { 500 } else { 20000 });
    for x in all.iter_mut() {
        let left = until.saturating_duration_since(Instant::now()).max(Duration::from_millis(1));
        let Some(mut h) = x.reader.take() else { continue };
        if timeout(left, &mut h).await.is_err() {
            h.abort();
            let _ = h.await;
            let k = x.pending.load(SeqCst);
            if k != usize::MAX {
                if end == "ldrop" {
                    cx.put(json!({"e": "ret", "k": k, "res": "gone"}));
                } else {
                    hung(&cx, k);
                }
            }
        }
    }
    for x in all.iter() {
        if let Some(e) = &x.end {
            if cx.rnd(2) == 0 {
                e.send(true).await;
                e.flush().await;
            }
            if cx.rnd(3) == 0 {
                e.close().await;
            }
        }
    }
    if let Some(mut l) = listener.take() {
        for _ in 0..1 + cx.rnd(2) {
            let call = cx.call("lclose", json!({"l": 1}));
            call.within(cx.bound, l.close(), none).await;
        }
        let call = cx.call("accept", json!({"l": 1}));
        call.within(cx.bound, l.accept(), |s| json!({"c": port(&s.peer_addr().unwrap())})).await;
        let call = cx.call("rebind", json!({"l": 1}));
        let r = RaknetListener::bind(&addr).await;
        call.ret(&r, json!({}));
    }
}

pub fn run_one(sc: &Value, log: Log) {
    let t0 = Instant::now();
    let level = sc["chaos"].as_u64().unwrap_or(0) as u32;
    let seed = sc["seed"].as_u64().unwrap_or(1);
    let n = Arc::new(AtomicU64::new(0));
    let l2 = log.clone();
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(sc["workers"].as_u64().unwrap_or(3) as usize)
        .enable_all()
        .on_thread_start(move || {
            chaos::set(level, seed + 7919 * n.fetch_add(1, SeqCst));
            LOG.with(|x| *x.borrow_mut() = Some((l2.clone(), t0)));
        })
        .build()
        .unwrap();
    let (sc2, log2) = (sc.clone(), log.clone());
    rt.block_on(async move {
        let h = tokio::spawn(cell(sc2, log2.clone(), t0));
        if let Err(e) = h.await {
            if !log2.lock().unwrap_or_else(|p| p.into_inner()).iter().any(|v| v["e"] == "panic") {
                eprintln!("harness: cell failed {e}");
                std::process::exit(2);
            }
        }
    });
    log.lock().unwrap_or_else(|p| p.into_inner()).push(json!({"e": "done", "t": t0.elapsed().as_millis() as u64}));
    rt.shutdown_timeout(Duration::from_millis(200));
}
