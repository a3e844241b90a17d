//! Scenario interpreter: drives the real crate through its public API over the captured network and
//! records what happened, event by event, as JSON.
use crate::net::{self, Dgram};
use crate::wire::{self, Frame, Pkt};
use rust_raknet::{RaknetListener, RaknetSocket, Reliability};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::future::Future;
use std::net::SocketAddr;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

/// a scenario that makes more events than this is cut off (event "overflow")
const MAX_EVENTS: usize = 120_000;

pub const T0: i64 = 1_600_000_000_000;

thread_local! {
    pub static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

enum Done {
    Connect(String, Result<RaknetSocket, String>),
    Send(String, i64, Result<(), String>),
    Flush(String, i64, Result<(), String>),
    Close(String, Result<(), String>),
    Recv(String, Result<Vec<u8>, String>),
    LClose(String, Result<(), String>, Option<Box<RaknetListener>>),
    LAccept(String, String, Result<RaknetSocket, String>, Option<Box<RaknetListener>>),
    Ping(String, Result<(i64, String), String>),
}

struct Catch<F>(Pin<Box<F>>);
impl<F: Future> Future for Catch<F> {
    type Output = Result<F::Output, ()>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match std::panic::catch_unwind(AssertUnwindSafe(|| self.0.as_mut().poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => Poll::Ready(Ok(v)),
            Err(_) => Poll::Ready(Err(())),
        }
    }
}

struct Ep {
    sock: Option<Arc<RaknetSocket>>,
    stalled: bool,
    ended: bool,
    recv_pending: bool,
    server_of: Option<String>,
}

struct Raw {
    _s: std::net::UdpSocket,
    inbox: VecDeque<(SocketAddr, Pkt, Vec<u8>)>,
    autoack: bool,
    seq: u32,
    ridx: u32,
    oidx: u32,
    sidx: u32,
    fid: u16,
}

#[derive(Clone)]
struct Flight {
    d: u64,
    g: Dgram,
    born: i64,
}

struct Msg {
    id: i64,
    kind: u8,
    data: Vec<u8>,
}

pub struct World {
    pub log: Arc<Mutex<Vec<Value>>>,
    over: bool,
    eps: BTreeMap<String, Ep>,
    lst: BTreeMap<String, (Option<Box<RaknetListener>>, SocketAddr)>,
    raws: BTreeMap<String, Raw>,
    names: HashMap<SocketAddr, String>,
    addrs: HashMap<String, SocketAddr>,
    roots: HashMap<SocketAddr, String>,
    flight: Vec<Flight>,
    seqs: HashMap<(String, String), u32>,
    base: HashMap<(String, String), u32>,
    nextd: u64,
    msgs: Vec<Msg>,
    by_data: HashMap<Vec<u8>, usize>,
    ctl: HashMap<(String, String, u32, Vec<u8>), i64>,
    groups: HashMap<(String, String, u32, u16), usize>,
    done: Arc<Mutex<VecDeque<Done>>>,
    tasks: Vec<(String, tokio::task::JoinHandle<()>)>,
    rng: u64,
    auto: Auto,
    micro: Option<u32>,
    npanic: usize,
    step: i64,
    verbose_bytes: bool,
    activity: u64,
    last_expire: i64,
}

#[derive(Clone, Default)]
struct Auto {
    on: bool,
    loss: u32,
    dup: u32,
    delay: u32,
    only: Option<(String, String)>,
}

pub fn payload(id: i64, len: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    for k in 0..len {
        v.push(match k {
            0 => 0xfe,
            1 => id as u8,
            2 => (id >> 8) as u8,
            3 => (id >> 16) as u8,
            _ => {
                let mut z = (id as u64)
                    .wrapping_mul(0x9e37_79b9_7f4a_7c15)
                    .wrapping_add((k as u64).wrapping_mul(0xbf58_476d_1ce4_e5b9));
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
                (z >> 33) as u8
            }
        });
    }
    v
}

pub fn rel(k: u8) -> Reliability {
    match k {
        0 => Reliability::Unreliable,
        1 => Reliability::UnreliableSequenced,
        2 => Reliability::Reliable,
        3 => Reliability::ReliableOrdered,
        _ => Reliability::ReliableSequenced,
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() || n.len() > h.len() {
        return None;
    }
    h.windows(n.len()).position(|w| w == n)
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0))
        .collect()
}

fn err<T: std::fmt::Debug>(e: T) -> String {
    format!("{e:?}")
}

impl World {
    pub fn new(seed: u64, cfg: &Value, log: Arc<Mutex<Vec<Value>>>) -> World {
        World {
            log,
            over: false,
            eps: BTreeMap::new(),
            lst: BTreeMap::new(),
            raws: BTreeMap::new(),
            names: HashMap::new(),
            addrs: HashMap::new(),
            roots: HashMap::new(),
            flight: vec![],
            seqs: HashMap::new(),
            base: HashMap::new(),
            nextd: 0,
            msgs: vec![],
            by_data: HashMap::new(),
            ctl: HashMap::new(),
            groups: HashMap::new(),
            done: Arc::new(Mutex::new(VecDeque::new())),
            tasks: vec![],
            rng: seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1,
            auto: Auto::default(),
            micro: None,
            npanic: 0,
            step: cfg["step"].as_i64().unwrap_or(10),
            verbose_bytes: cfg["bytes"].as_bool().unwrap_or(false),
            activity: 0,
            last_expire: 0,
        }
    }
    fn rnd(&mut self, n: u32) -> u32 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        ((self.rng >> 20) as u32) % n.max(1)
    }
    fn t(&self) -> i64 {
        net::now() - T0
    }
    fn ev(&mut self, e: &str, mut v: Value) {
        let t = self.t();
        let o = v.as_object_mut().expect("object");
        o.insert("e".into(), json!(e));
        o.insert("t".into(), json!(t));
        let mut l = self.log.lock().unwrap();
        if l.len() < MAX_EVENTS {
            l.push(v);
        } else {
            self.over = true;
        }
    }
    fn name(&self, a: &SocketAddr) -> String {
        self.names.get(a).cloned().unwrap_or_else(|| format!("?{a}"))
    }
    fn bind_name(&mut self, n: &str, a: SocketAddr) {
        self.names.insert(a, n.to_string());
        self.roots.entry(a).or_insert(n.to_string());
        self.addrs.insert(n.to_string(), a);
    }
    /// address a name stands for
    fn addr(&self, n: &str) -> SocketAddr {
        if let Some(a) = self.addrs.get(n) {
            return *a;
        }
        n.parse().unwrap_or_else(|_| "127.0.0.1:9".parse().unwrap())
    }

    fn launch<F>(&mut self, who: &str, fut: F)
    where
        F: Future<Output = Done> + Send + 'static,
    {
        self.launch_with(who, fut, |_| None)
    }
    /// Poll once right here (so that calls take effect in program order), then hand over to a task.
    fn launch_with<F>(&mut self, who: &str, fut: F, on_panic: fn(String) -> Option<Done>)
    where
        F: Future<Output = Done> + Send + 'static,
    {
        let mut c = Catch(Box::pin(fut));
        let mut cx = Context::from_waker(std::task::Waker::noop());
        let done = self.done.clone();
        match Pin::new(&mut c).poll(&mut cx) {
            Poll::Ready(Ok(d)) => done.lock().unwrap().push_back(d),
            Poll::Ready(Err(())) => {
                if let Some(d) = on_panic(who.to_string()) {
                    done.lock().unwrap().push_back(d)
                }
            }
            Poll::Pending => {
                let w = who.to_string();
                let h = tokio::spawn(async move {
                    match c.await {
                        Ok(d) => done.lock().unwrap().push_back(d),
                        Err(()) => {
                            if let Some(d) = on_panic(w) {
                                done.lock().unwrap().push_back(d)
                            }
                        }
                    }
                });
                self.tasks.push((who.to_string(), h));
            }
        }
    }

    fn kindname(p: &Pkt) -> &'static str {
        match p {
            Pkt::Ping { .. } => "ping",
            Pkt::Pong { .. } => "pong",
            Pkt::Req1 { .. } => "req1",
            Pkt::Rep1 { .. } => "rep1",
            Pkt::Req2 { .. } => "req2",
            Pkt::Rep2 { .. } => "rep2",
            Pkt::Already { .. } => "already",
            Pkt::Incompat { .. } => "incompat",
            Pkt::Disc => "disc",
            Pkt::Ack(_) => "ack",
            Pkt::Nack(_) => "nack",
            Pkt::Frames { .. } => "frames",
            Pkt::Other(_) => "other",
            Pkt::Bad => "bad",
        }
    }

    /// which message (and which bytes of it) a frame body is
    fn ident(&mut self, src: &str, dst: &str, f: &Frame) -> (i64, usize, usize, String) {
        let d = &f.data;
        if !f.frag {
            if let Some(i) = self.by_data.get(d) {
                let m = &self.msgs[*i];
                return (m.id, 0, m.data.len(), String::new());
            }
            if d.first().map(|x| *x != 0xfe).unwrap_or(false) {
                let key = (
                    src.to_string(),
                    dst.to_string(),
                    if f.reliable() { f.ridx } else { 0xffff_ffff },
                    d.clone(),
                );
                let n = 1_000_000 + self.ctl.len() as i64;
                let id = *self.ctl.entry(key).or_insert(n);
                let nm = match d[0] {
                    0x00 => "cping",
                    0x03 => "cpong",
                    0x09 => "connreq",
                    0x10 => "accepted",
                    0x13 => "newinc",
                    0x15 => "disc",
                    _ => "ctl",
                };
                return (id, 0, d.len(), nm.into());
            }
            return (-1, 0, 0, "corrupt".into());
        }
        // short fragments are ambiguous: first the message other fragments of the compound belong to
        let key = (src.to_string(), dst.to_string(), f.oidx, f.fid);
        let known = self.groups.get(&key).copied();
        let order: Vec<usize> = known.into_iter().chain((0..self.msgs.len()).rev()).collect();
        for i in order {
            let m = &self.msgs[i];
            if m.data.len() < d.len() || m.kind != f.rel {
                continue;
            }
            let guess = if f.findex as u64 + 1 == f.fsize as u64 {
                m.data.len() - d.len()
            } else {
                f.findex as usize * d.len()
            };
            if guess + d.len() <= m.data.len() && &m.data[guess..guess + d.len()] == d.as_slice() {
                let r = (m.id, guess, m.data.len(), String::new());
                self.groups.entry(key).or_insert(i);
                return r;
            }
        }
        for m in self.msgs.iter().rev() {
            if let Some(off) = find(&m.data, d) {
                return (m.id, off, m.data.len(), String::new());
            }
        }
        (-1, 0, 0, "corrupt".into())
    }

    fn describe(&mut self, src: &str, dst: &str, data: &[u8], to: Option<SocketAddr>) -> Map<String, Value> {
        let p = wire::decode(data);
        let mut o = Map::new();
        o.insert("k".into(), json!(Self::kindname(&p)));
        o.insert("sz".into(), json!(data.len()));
        o.insert("b0".into(), json!(data.first().copied().unwrap_or(0)));
        match &p {
            Pkt::Frames { seq, frames, .. } => {
                o.insert("q".into(), json!(seq));
                let mut fr = vec![];
                for f in frames {
                    let (m, off, tot, ctl) = self.ident(src, dst, f);
                    fr.push(json!({"r": f.rel, "ri": f.ridx, "si": f.sidx, "oi": f.oidx,
                        "fg": if f.frag {1} else {0}, "fs": f.fsize, "fi": f.fid, "fx": f.findex,
                        "m": m, "off": off, "n": f.data.len(), "tot": tot, "c": ctl, "ch": f.chan}));
                }
                o.insert("fr".into(), json!(fr));
            }
            Pkt::Ack(r) | Pkt::Nack(r) => {
                o.insert("rs".into(), json!(r.iter().map(|(a, b)| json!([a, b])).collect::<Vec<_>>()));
            }
            Pkt::Req1 { ver, size, magic } => {
                o.insert("ok".into(), json!(*magic));
                o.insert("ver".into(), json!(ver));
                o.insert("size".into(), json!(size));
            }
            Pkt::Rep1 { mtu, magic, guid, enc } => {
                o.insert("mtu".into(), json!(mtu));
                o.insert("ok".into(), json!(*magic && *enc == 0));
                o.insert("guid".into(), json!(format!("{guid:x}")));
            }
            Pkt::Req2 { addr, mtu, guid, magic } => {
                o.insert("mtu".into(), json!(mtu));
                o.insert("ok".into(), json!(*magic));
                o.insert("addr".into(), json!(self.name(addr)));
                o.insert("guid".into(), json!(format!("{guid:x}")));
            }
            Pkt::Rep2 { addr, mtu, guid, magic, enc } => {
                o.insert("mtu".into(), json!(mtu));
                o.insert("ok".into(), json!(*magic && *enc == 0));
                o.insert("addr".into(), json!(self.name(addr)));
                o.insert("guid".into(), json!(format!("{guid:x}")));
            }
            Pkt::Incompat { ver, magic, .. } => {
                o.insert("ver".into(), json!(ver));
                o.insert("ok".into(), json!(*magic));
            }
            Pkt::Already { magic, .. } => {
                o.insert("ok".into(), json!(*magic));
            }
            Pkt::Pong { motd, magic, time, .. } => {
                o.insert("motd".into(), json!(String::from_utf8_lossy(motd)));
                o.insert("ok".into(), json!(*magic));
                o.insert("time".into(), json!(time.wrapping_sub(T0)));
            }
            Pkt::Ping { time, magic, .. } => {
                o.insert("ok".into(), json!(*magic));
                o.insert("time".into(), json!(time.wrapping_sub(T0)));
            }
            _ => {}
        }
        if self.verbose_bytes {
            o.insert("b".into(), json!(data.iter().map(|x| *x as u32).collect::<Vec<_>>()));
            let addr = |a: Option<SocketAddr>| match a {
                Some(SocketAddr::V4(a)) => json!({"f": 4, "ip": a.ip().octets(), "p": a.port()}),
                Some(SocketAddr::V6(a)) => json!({"f": 6, "ip": a.ip().octets(), "p": a.port()}),
                None => json!({"f": 0, "ip": [], "p": 0}),
            };
            o.insert("da".into(), addr(to));
        }
        o
    }

    /// pick up everything the code under test sent since last time
    fn ev_net(&mut self) {
        let fair = self.auto.on && self.auto.loss == 0 && self.auto.only.is_none() && !net::refusing();
        self.ev("net", json!({"fair": fair}));
    }

    fn collect(&mut self) {
        for g in net::take_out() {
            self.activity += 1;
            self.nextd += 1;
            let d = self.nextd;
            let (s, t) = (self.name(&g.src), self.name(&g.dst));
            let mut o = self.describe(&s, &t, &g.data, Some(g.dst));
            if let Pkt::Frames { seq, .. } = wire::decode(&g.data) {
                self.seqs.insert((s.clone(), t.clone()), seq + 1);
            }
            o.insert("d".into(), json!(d));
            o.insert("src".into(), json!(s));
            o.insert("dst".into(), json!(t));
            let born = self.t();
            self.ev("tx", Value::Object(o));
            if g.refused {
                self.ev("drop", json!({"d": d}));
            } else {
                self.flight.push(Flight { d, g, born });
            }
        }
    }

    fn completions(&mut self) {
        loop {
            let d = self.done.lock().unwrap().pop_front();
            let Some(d) = d else { break };
            self.activity += 1;
            match d {
                Done::Connect(n, r) => match r {
                    Ok(s) => {
                        let la = s.local_addr().ok();
                        let pa = s.peer_addr().ok();
                        let ver = s.raknet_version().unwrap_or(0);
                        let me = self.addr(&n);
                        self.eps.insert(
                            n.clone(),
                            Ep { sock: Some(Arc::new(s)), stalled: false, ended: false, recv_pending: false, server_of: None },
                        );
                        let peer = pa.map(|a| self.name(&a)).unwrap_or_default();
                        let portok = la.map(|a| a.port() == me.port()).unwrap_or(false);
                        self.ev("connret", json!({"ep": n, "res": "ok", "peer": peer, "ver": ver, "portok": portok}));
                    }
                    Err(e) => self.ev("connret", json!({"ep": n, "res": e, "peer": "", "ver": 0, "portok": true})),
                },
                Done::Send(n, id, r) => {
                    let res = r.err().unwrap_or("ok".into());
                    self.ev("sendret", json!({"ep": n, "m": id, "res": res}))
                }
                Done::Flush(n, id, r) => {
                    let res = r.err().unwrap_or("ok".into());
                    self.ev("flushret", json!({"ep": n, "id": id, "res": res}))
                }
                Done::Close(n, r) => {
                    let res = r.err().unwrap_or("ok".into());
                    self.ev("closeret", json!({"ep": n, "res": res}))
                }
                Done::Recv(n, r) => {
                    if let Some(e) = self.eps.get_mut(&n) {
                        e.recv_pending = false;
                    }
                    self.recved(&n, r);
                }
                Done::LClose(n, r, l) => {
                    let res = r.err().unwrap_or("ok".into());
                    if let Some(x) = self.lst.get_mut(&n) {
                        x.0 = l;
                    }
                    let a = self.addr(&n);
                    let live = net::is_live(&a);
                    self.ev("lcloseret", json!({"l": n, "res": res, "live": live}))
                }
                Done::LAccept(n, ep, r, l) => {
                    if let Some(x) = self.lst.get_mut(&n) {
                        x.0 = l;
                    }
                    self.accepted(&n, &ep, r, true);
                }
                Done::Ping(n, r) => match r {
                    Ok((lat, motd)) => self.ev("pingret", json!({"g": n, "res": "ok", "lat": lat, "motd": motd})),
                    Err(e) => self.ev("pingret", json!({"g": n, "res": e, "lat": 0, "motd": ""})),
                },
            }
        }
        let ps: Vec<String> = PANICS.with(|p| p.borrow().clone());
        while self.npanic < ps.len() {
            let p = ps[self.npanic].clone();
            self.npanic += 1;
            self.activity += 1;
            self.ev("panic", json!({"at": p}));
        }
    }

    fn accepted(&mut self, l: &str, ep: &str, r: Result<RaknetSocket, String>, blk: bool) {
        match r {
            Ok(s) => {
                let peer = s.peer_addr().map(|a| self.name(&a)).unwrap_or_default();
                let ver = s.raknet_version().unwrap_or(0);
                let laok = s.local_addr().map(|a| a == self.addr(l)).unwrap_or(false);
                self.eps.insert(
                    ep.to_string(),
                    Ep { sock: Some(Arc::new(s)), stalled: false, ended: false, recv_pending: false, server_of: Some(l.to_string()) },
                );
                self.ev("accret", json!({"l": l, "ep": ep, "res": "ok", "peer": peer, "ver": ver, "laok": laok, "blk": blk}));
            }
            Err(e) => self.ev("accret", json!({"l": l, "ep": ep, "res": e, "peer": "", "ver": 0, "laok": true, "blk": blk})),
        }
    }

    fn recved(&mut self, n: &str, r: Result<Vec<u8>, String>) {
        self.activity += 1;
        match r {
            Ok(v) => {
                let (id, k) = match self.by_data.get(&v) {
                    Some(i) => (self.msgs[*i].id, self.msgs[*i].kind as i64),
                    None => (-1, -1),
                };
                let mut o = json!({"ep": n, "m": id, "kd": k, "len": v.len()});
                if id < 0 {
                    o["hex"] = json!(hex(&v[..v.len().min(24)]));
                }
                self.ev("dlv", o);
            }
            Err(e) => {
                if let Some(x) = self.eps.get_mut(n) {
                    x.ended = true;
                }
                self.ev("recverr", json!({"ep": n, "res": e}));
            }
        }
    }

    async fn drain_recv(&mut self) {
        let names: Vec<String> = self
            .eps
            .iter()
            .filter(|(_, e)| e.sock.is_some() && !e.stalled && !e.ended && !e.recv_pending)
            .map(|(n, _)| n.clone())
            .collect();
        for n in names {
            let s = self.eps[&n].sock.clone().unwrap();
            loop {
                let mut f = Box::pin(tokio::task::unconstrained(Catch(Box::pin(s.recv()))));
                let r = std::future::poll_fn(|cx| {
                    Poll::Ready(match f.as_mut().poll(cx) {
                        Poll::Ready(x) => Some(x),
                        Poll::Pending => None,
                    })
                })
                .await;
                match r {
                    None => break,
                    Some(Err(())) => {
                        self.recved(&n, Err("panic".into()));
                        break;
                    }
                    Some(Ok(v)) => {
                        let e = v.is_err();
                        self.recved(&n, v.map_err(err));
                        if e {
                            break;
                        }
                    }
                }
            }
        }
    }

    async fn yield1(&mut self) {
        tokio::task::yield_now().await;
        self.collect();
        self.completions();
    }

    /// run everything that can run without time passing
    async fn settle(&mut self) {
        if let Some(n) = self.micro {
            for _ in 0..n {
                self.yield1().await;
            }
            return;
        }
        self.full_settle().await
    }
    async fn full_settle(&mut self) {
        let mut quiet = 0;
        let mut total = 0;
        while quiet < 4 && total < 20000 && !self.over {
            let a = self.activity;
            self.yield1().await;
            if quiet >= 1 {
                self.drain_recv().await;
            }
            quiet = if self.activity == a { quiet + 1 } else { 0 };
            total += 1;
        }
    }

    async fn advance(&mut self, ms: i64) {
        let mut left = ms;
        if self.micro.is_none() {
            self.full_settle().await; // time does not pass while somebody could run
        }
        while left > 0 && !self.over {
            let s = left.min(self.step);
            net::set_now(net::now() + s);
            tokio::time::advance(Duration::from_millis(s as u64)).await;
            left -= s;
            self.settle().await;
            if self.auto.on {
                self.pump().await;
            }
        }
    }

    /// put a datagram into the hands of its addressee
    async fn deliver(&mut self, f: &Flight, settle: bool) -> bool {
        let (s, t) = (self.name(&f.g.src), self.name(&f.g.dst));
        let mut o = self.describe(&s, &t, &f.g.data, Some(f.g.dst));
        o.insert("d".into(), json!(f.d));
        o.insert("src".into(), json!(s));
        o.insert("dst".into(), json!(t));
        if self.raws.contains_key(&t) {
            self.ev("rx", Value::Object(o));
            let p = wire::decode(&f.g.data);
            let autoack = self.raws[&t].autoack;
            let seq = if let Pkt::Frames { seq, .. } = &p { Some(*seq) } else { None };
            self.raws.get_mut(&t).unwrap().inbox.push_back((f.g.src, p, f.g.data.clone()));
            if let (true, Some(q)) = (autoack, seq) {
                let g = Dgram { src: f.g.dst, dst: f.g.src, data: wire::encode(&Pkt::Ack(vec![(q, q)])), refused: false };
                self.raw_tx(g, false).await;
            }
            return true;
        }
        if !net::is_live(&f.g.dst) {
            return false;
        }
        // the receiver's event comes before anything it causes
        self.ev("rx", Value::Object(o));
        if !net::inject(&f.g.src, &f.g.dst, &f.g.data) {
            let mut l = self.log.lock().unwrap();
            let n = l.len() - 1;
            l[n]["e"] = json!("lost");
            return false;
        }
        self.activity += 1;
        if settle {
            self.settle().await;
        }
        true
    }

    /// a datagram sent by the harness itself (raw peer): logged as sent, then in flight or delivered at once
    async fn raw_tx(&mut self, g: Dgram, now: bool) {
        self.nextd += 1;
        let d = self.nextd;
        let (s, t) = (self.name(&g.src), self.name(&g.dst));
        let mut o = self.describe(&s, &t, &g.data, Some(g.dst));
        o.insert("d".into(), json!(d));
        o.insert("src".into(), json!(s));
        o.insert("dst".into(), json!(t));
        self.ev("rawtx", Value::Object(o));
        let born = self.t();
        let f = Flight { d, g, born };
        if now {
            Box::pin(self.deliver(&f, true)).await;
        } else {
            self.flight.push(f);
        }
    }

    fn links(&self, src: &str, dst: &str) -> Vec<usize> {
        self.flight
            .iter()
            .enumerate()
            .filter(|(_, f)| {
                (src == "*" || self.name(&f.g.src) == src) && (dst == "*" || self.name(&f.g.dst) == dst)
            })
            .map(|(i, _)| i)
            .collect()
    }

    async fn pump(&mut self) {
        for _round in 0..200 {
            if self.over {
                return;
            }
            let batch: Vec<Flight> = match &self.auto.only {
                None => std::mem::take(&mut self.flight),
                Some((s, d)) => {
                    let (s, d) = (s.clone(), d.clone());
                    let ix: HashSet<usize> = self.links(&s, &d).into_iter().collect();
                    let all = std::mem::take(&mut self.flight);
                    let mut b = vec![];
                    for (i, f) in all.into_iter().enumerate() {
                        if ix.contains(&i) {
                            b.push(f)
                        } else {
                            self.flight.push(f)
                        }
                    }
                    b
                }
            };
            if batch.is_empty() {
                return;
            }
            let mut progress = false;
            for f in batch {
                let a = self.auto.clone();
                let x = self.rnd(100);
                if x < a.loss {
                    self.ev("drop", json!({"d": f.d}));
                    progress = true;
                    continue;
                }
                let y = self.rnd(100);
                if y < a.delay && self.t() - f.born < 400 {
                    self.flight.push(f);
                    continue;
                }
                progress = true;
                let z = self.rnd(100);
                if z < a.dup {
                    let mut f2 = f.clone();
                    f2.born = self.t() - if self.rnd(2) == 0 { 0 } else { 400 };
                    self.flight.push(f2);
                }
                self.deliver(&f, true).await;
            }
            if !progress {
                return;
            }
        }
    }

    fn mkmsg(&mut self, kind: u8, id: i64, len: usize) -> Vec<u8> {
        let data = payload(id, len);
        if !self.by_data.contains_key(&data) {
            self.by_data.insert(data.clone(), self.msgs.len());
            self.msgs.push(Msg { id, kind, data: data.clone() });
        }
        data
    }

    fn build(&mut self, raw: &str, dst: &str, v: &Value) -> Vec<u8> {
        let guid = v["guid"].as_u64().unwrap_or(77);
        match v["k"].as_str().unwrap_or("hex") {
            "ping" => wire::encode(&Pkt::Ping {
                id: v["id"].as_u64().unwrap_or(1) as u8,
                time: v["time"].as_i64().unwrap_or(net::now()),
                magic: true,
                guid,
            }),
            "pong" => wire::encode(&Pkt::Pong {
                time: v["time"].as_i64().unwrap_or(net::now()),
                guid,
                magic: true,
                motd: match v["motdhex"].as_str() {
                    Some(h) => unhex(h),
                    None => v["motd"].as_str().unwrap_or("x").as_bytes().to_vec(),
                },
            }),
            "req1" => wire::encode(&Pkt::Req1 {
                magic: true,
                ver: v["ver"].as_u64().unwrap_or(10) as u8,
                size: v["size"].as_u64().unwrap_or(1372) as usize,
            }),
            "rep1" => wire::encode(&Pkt::Rep1 {
                magic: true,
                guid,
                enc: 0,
                mtu: v["mtu"].as_u64().unwrap_or(1400) as u16,
            }),
            "req2" => wire::encode(&Pkt::Req2 {
                magic: true,
                addr: self.addr(dst),
                mtu: v["mtu"].as_u64().unwrap_or(1400) as u16,
                guid,
            }),
            "rep2" => wire::encode(&Pkt::Rep2 {
                magic: true,
                guid,
                addr: self.addr(dst),
                mtu: v["mtu"].as_u64().unwrap_or(1400) as u16,
                enc: 0,
            }),
            "already" => wire::encode(&Pkt::Already { magic: true, guid }),
            "incompat" => wire::encode(&Pkt::Incompat {
                ver: v["ver"].as_u64().unwrap_or(10) as u8,
                magic: true,
                guid,
            }),
            "disc" => vec![0x15],
            k @ ("ack" | "nack") => {
                let r: Vec<(u32, u32)> = v["r"]
                    .as_array()
                    .map(|a| {
                        a.iter()
                            .map(|p| (p[0].as_u64().unwrap_or(0) as u32, p[1].as_u64().unwrap_or(0) as u32))
                            .collect()
                    })
                    .unwrap_or_default();
                wire::encode(&if k == "ack" { Pkt::Ack(r) } else { Pkt::Nack(r) })
            }
            "frames" => {
                let mut fr = vec![];
                let arr = v["frames"].as_array().cloned().unwrap_or_default();
                for f in &arr {
                    let relk = f["rel"].as_u64().unwrap_or(3) as u8;
                    let data = if let Some(h) = f["hex"].as_str() {
                        unhex(h)
                    } else if let Some(c) = f["ctl"].as_str() {
                        let a = self.addr(raw);
                        match c {
                            "connreq" => wire::conn_request(guid, net::now()),
                            "accepted" => wire::conn_accepted(&self.addr(dst), 0, net::now()),
                            "newinc" => wire::new_incoming(&a, 0, net::now()),
                            "cping" => wire::conn_ping(net::now()),
                            "disc" => vec![0x15],
                            _ => vec![],
                        }
                    } else {
                        let len = f["len"].as_u64().unwrap_or(8) as usize;
                        let id = f["m"].as_i64().unwrap_or(1);
                        let d = self.mkmsg(relk, id, len);
                        let off = f["off"].as_u64().unwrap_or(0) as usize;
                        let n = f["n"].as_u64().map(|x| x as usize).unwrap_or(len - off);
                        d[off..(off + n).min(len)].to_vec()
                    };
                    let mut g = Frame { rel: relk, data, ..Default::default() };
                    g.ridx = f["ri"].as_u64().unwrap_or(0) as u32;
                    g.sidx = f["si"].as_u64().unwrap_or(0) as u32;
                    g.oidx = f["oi"].as_u64().unwrap_or(0) as u32;
                    if let Some(a) = f["frag"].as_array() {
                        g.frag = true;
                        g.fsize = a[0].as_u64().unwrap_or(1) as u32;
                        g.fid = a[1].as_u64().unwrap_or(0) as u16;
                        g.findex = a[2].as_u64().unwrap_or(0) as u32;
                    }
                    fr.push(g);
                }
                wire::encode(&Pkt::Frames {
                    id: v["id"].as_u64().unwrap_or(0x84) as u8,
                    seq: v["seq"].as_u64().unwrap_or(0) as u32,
                    frames: fr,
                })
            }
            _ => unhex(v["b"].as_str().unwrap_or("")),
        }
    }

    /// Take what is in flight from `src` to the raw peer `raw` out of the network (delivered to the raw peer).
    async fn raw_pull(&mut self, raw: &str) {
        let ix = self.links("*", raw);
        let mut got = vec![];
        for i in ix.into_iter().rev() {
            got.push(self.flight.remove(i));
        }
        got.reverse();
        for f in got {
            self.deliver(&f, false).await;
        }
    }

    pub async fn run(&mut self, ops: &[Value]) {
        for op in ops {
            if self.over {
                break;
            }
            self.op(op).await;
            if std::env::var("RKV_DEBUG").is_ok() {
                eprintln!("{} {op} log={} flight={}", self.t(), self.log.lock().unwrap().len(), self.flight.len());
            }
        }
        self.micro = None;
        self.full_settle().await;
        let stuck: Vec<String> =
            self.tasks.iter().filter(|(_, h)| !h.is_finished()).map(|(n, _)| n.clone()).collect();
        if self.over {
            let t = self.t();
            self.log.lock().unwrap().push(json!({"e":"overflow","t":t}));
        }
        let t = self.t();
        self.log.lock().unwrap().push(json!({"e":"end","t":t,"stuck": stuck}));
    }

    async fn op(&mut self, op: &Value) {
        let a = op.as_array().cloned().unwrap_or_default();
        let s = |i: usize| a.get(i).and_then(|x| x.as_str()).unwrap_or("").to_string();
        let n = |i: usize, d: i64| a.get(i).and_then(|x| x.as_i64()).unwrap_or(d);
        match s(0).as_str() {
            "bind" => {
                let at: SocketAddr = match s(2).as_str() {
                    "v6" => "[::1]:0".parse().unwrap(),
                    x if x.starts_with('@') => self.addr(&x[1..]),
                    _ => "127.0.0.1:0".parse().unwrap(),
                };
                let r = if s(3) == "std" {
                    match std::net::UdpSocket::bind(at) {
                        Ok(u) => RaknetListener::from_std(u).await,
                        Err(_) => Err(rust_raknet::error::RaknetError::BindAdressError),
                    }
                } else {
                    RaknetListener::bind(&at).await
                };
                match r {
                    Ok(l) => {
                        let la = l.local_addr().unwrap();
                        self.bind_name(&s(1), la);
                        self.lst.insert(s(1), (Some(Box::new(l)), la));
                        let at = self.roots.get(&la).cloned().unwrap_or_default();
                        self.ev("bindret", json!({"l": s(1), "res": "ok", "at": at}));
                    }
                    Err(e) => self.ev("bindret", json!({"l": s(1), "res": err(e), "at": s(1)})),
                }
            }
            "listen" => {
                if let Some((Some(l), _)) = self.lst.get_mut(&s(1)) {
                    l.listen().await;
                }
                self.ev("listen", json!({"l": s(1)}));
                self.settle().await;
            }
            "motd" => {
                if let Some((Some(l), _)) = self.lst.get_mut(&s(1)) {
                    let _ = l.set_full_motd(s(2));
                }
                self.ev("motd", json!({"l": s(1), "motd": s(2)}));
            }
            "setmotd" => {
                let m = if let Some((Some(l), _)) = self.lst.get_mut(&s(1)) {
                    l.set_motd(&s(2), n(3, 10) as u32, &s(4), &s(5), &s(6), n(7, 19132) as u16).await;
                    l.get_motd().await
                } else {
                    String::new()
                };
                self.ev("motd", json!({"l": s(1), "motd": m}));
            }
            "getmotd" => {
                let m = if let Some((Some(l), _)) = self.lst.get_mut(&s(1)) {
                    l.get_motd().await
                } else {
                    String::new()
                };
                self.ev("getmotd", json!({"l": s(1), "motd": m}));
            }
            "laddr" => {
                let want = self.addr(&s(1));
                let r = if let Some((Some(l), _)) = self.lst.get(&s(1)) {
                    std::panic::catch_unwind(AssertUnwindSafe(|| l.local_addr()))
                        .map(|r| r.map(|x| if x == want { "ok".to_string() } else { "wrong".into() }).unwrap_or_else(err))
                        .unwrap_or("panic".into())
                } else {
                    "none".into()
                };
                self.completions();
                self.ev("laddr", json!({"l": s(1), "res": r}));
            }
            "getver" => {
                let peer = self.addr(&s(2));
                let v = if let Some((Some(l), _)) = self.lst.get(&s(1)) {
                    l.get_peer_raknet_version(&peer).await.unwrap_or(0)
                } else {
                    0
                };
                self.ev("getver", json!({"l": s(1), "peer": s(2), "ver": v}));
            }
            "accept" => {
                // one attempt: pending counts as none
                let mut r = None;
                if let Some((Some(l), _)) = self.lst.get_mut(&s(1)) {
                    let mut f = Box::pin(tokio::task::unconstrained(Catch(Box::pin(l.accept()))));
                    r = std::future::poll_fn(|cx| {
                        Poll::Ready(match f.as_mut().poll(cx) {
                            Poll::Ready(x) => Some(x),
                            Poll::Pending => None,
                        })
                    })
                    .await;
                }
                match r {
                    None => self.ev("accret", json!({"l": s(1), "ep": s(2), "res": "pending", "peer": "", "ver": 0, "laok": true, "blk": false})),
                    Some(Err(())) => self.accepted(&s(1), &s(2), Err("panic".into()), false),
                    Some(Ok(x)) => self.accepted(&s(1), &s(2), x.map_err(err), false),
                }
                self.settle().await;
            }
            "acceptwait" => {
                // blocking accept running as a task that owns the listener
                if let Some((l, _)) = self.lst.get_mut(&s(1)) {
                    if let Some(mut l) = l.take() {
                        let (ln, en) = (s(1), s(2));
                        self.ev("acceptcall", json!({"l": ln}));
                        self.launch(&format!("accept:{}", s(1)), async move {
                            let r = l.accept().await.map_err(err);
                            Done::LAccept(ln, en, r, Some(l))
                        });
                    }
                }
                self.settle().await;
            }
            "connect" => {
                let to = self.addr(&s(2));
                let ver = n(3, 10) as u8;
                let before: HashSet<i32> = net::fds().into_iter().collect();
                self.ev("conncall", json!({"ep": s(1), "to": s(2), "ver": ver}));
                let nm = s(1);
                let plain = n(3, -1) < 0;
                self.launch_with(
                    &format!("connect:{}", s(1)),
                    async move {
                        let r = if plain {
                            RaknetSocket::connect(&to).await
                        } else {
                            RaknetSocket::connect_with_version(&to, ver).await
                        };
                        Done::Connect(nm, r.map_err(err))
                    },
                    |w| Some(Done::Connect(w.trim_start_matches("connect:").into(), Err("panic".into()))),
                );
                for fd in net::fds() {
                    if !before.contains(&fd) {
                        if let Some(ad) = net::seen(fd) {
                            self.bind_name(&s(1), ad);
                        }
                    }
                }
                self.settle().await;
            }
            "cancel" => {
                // drop the pending call(s) of that label (e.g. "connect:c1")
                let l = s(1);
                for (nme, h) in &self.tasks {
                    if *nme == l {
                        h.abort();
                    }
                }
                self.ev("cancel", json!({"what": l}));
                self.settle().await;
            }
            "ping" => {
                let to = self.addr(&s(2));
                let before: HashSet<i32> = net::fds().into_iter().collect();
                self.ev("pingcall", json!({"g": s(1), "l": s(2)}));
                let nm = s(1);
                self.launch_with(
                    &format!("ping:{}", s(1)),
                    async move { Done::Ping(nm, RaknetSocket::ping(&to).await.map_err(err)) },
                    |w| Some(Done::Ping(w.trim_start_matches("ping:").into(), Err("panic".into()))),
                );
                for fd in net::fds() {
                    if !before.contains(&fd) {
                        if let Some(ad) = net::seen(fd) {
                            self.bind_name(&s(1), ad);
                        }
                    }
                }
                self.settle().await;
            }
            "send" | "send!" => {
                let (ep, kind, len, id) = (s(1), n(2, 3) as u8, n(3, 8) as usize, n(4, 0));
                let sock = self.eps.get(&ep).and_then(|e| e.sock.clone());
                let first = n(5, 0xfe) as u8;
                let data = if first == 0xfe {
                    self.mkmsg(kind, id, len)
                } else {
                    let mut d = payload(id, len);
                    if !d.is_empty() {
                        d[0] = first;
                    }
                    d
                };
                self.ev("send", json!({"ep": ep, "m": id, "kd": kind, "len": len, "b0": if len == 0 {-1} else {first as i64}}));
                match sock {
                    None => self.ev("sendret", json!({"ep": ep, "m": id, "res": "nosock"})),
                    Some(k) => {
                        let nm = ep.clone();
                        self.launch(&format!("send:{ep}:{id}"), async move {
                            let r = match Catch(Box::pin(k.send(&data, rel(kind)))).await {
                                Ok(r) => r.map_err(err),
                                Err(()) => Err("panic".into()),
                            };
                            Done::Send(nm, id, r)
                        });
                        if s(0) == "send" {
                            self.settle().await;
                        } else {
                            self.collect();
                            self.completions();
                        }
                    }
                }
            }
            "flush" => {
                let (ep, id) = (s(1), n(2, 0));
                if let Some(k) = self.eps.get(&ep).and_then(|e| e.sock.clone()) {
                    self.ev("flush", json!({"ep": ep, "id": id}));
                    let nm = ep.clone();
                    self.launch(&format!("flush:{ep}"), async move {
                        let r = match Catch(Box::pin(k.flush())).await {
                            Ok(r) => r.map_err(err),
                            Err(()) => Err("panic".into()),
                        };
                        Done::Flush(nm, id, r)
                    });
                    self.settle().await;
                }
            }
            "recvwait" => {
                // a blocking recv as a task
                let ep = s(1);
                if let Some(e) = self.eps.get_mut(&ep) {
                    e.recv_pending = true;
                    if let Some(k) = e.sock.clone() {
                        let nm = ep.clone();
                        self.ev("recvcall", json!({"ep": ep}));
                        self.launch(&format!("recv:{ep}"), async move {
                            let r = match Catch(Box::pin(k.recv())).await {
                                Ok(r) => r.map_err(err),
                                Err(()) => Err("panic".into()),
                            };
                            Done::Recv(nm, r)
                        });
                        self.settle().await;
                    }
                }
            }
            "close" | "close!" => {
                let ep = s(1);
                if let Some(k) = self.eps.get(&ep).and_then(|e| e.sock.clone()) {
                    self.ev("close", json!({"ep": ep}));
                    let nm = ep.clone();
                    self.launch(&format!("close:{ep}"), async move {
                        let r = match Catch(Box::pin(k.close())).await {
                            Ok(r) => r.map_err(err),
                            Err(()) => Err("panic".into()),
                        };
                        Done::Close(nm, r)
                    });
                    if s(0) == "close" {
                        self.settle().await;
                    }
                }
            }
            "drop" => {
                let ep = s(1);
                for (nme, h) in &self.tasks {
                    if nme.split(':').nth(1) == Some(ep.as_str()) {
                        h.abort();
                    }
                }
                if let Some(e) = self.eps.get_mut(&ep) {
                    e.sock = None;
                }
                self.ev("dropped", json!({"ep": ep}));
                self.settle().await;
            }
            "lclose" => {
                if let Some((l, _)) = self.lst.get_mut(&s(1)) {
                    if let Some(mut l) = l.take() {
                        self.ev("lclose", json!({"l": s(1)}));
                        let nm = s(1);
                        self.launch(&format!("lclose:{}", s(1)), async move {
                            let r = match Catch(Box::pin(l.close())).await {
                                Ok(r) => r.map_err(err),
                                Err(()) => Err("panic".into()),
                            };
                            Done::LClose(nm, r, Some(l))
                        });
                        self.settle().await;
                    }
                }
            }
            "ldrop" => {
                if let Some((l, _)) = self.lst.get_mut(&s(1)) {
                    *l = None;
                }
                self.ev("ldropped", json!({"l": s(1)}));
                self.settle().await;
            }
            "stall" => {
                if let Some(e) = self.eps.get_mut(&s(1)) {
                    e.stalled = true;
                }
                self.ev("stall", json!({"ep": s(1)}));
            }
            "unstall" => {
                if let Some(e) = self.eps.get_mut(&s(1)) {
                    e.stalled = false;
                }
                self.ev("unstall", json!({"ep": s(1)}));
                self.settle().await;
            }
            "raw" => {
                let at = if s(2) == "v6" { "[::1]:0" } else { "127.0.0.1:0" };
                let u = std::net::UdpSocket::bind(at).unwrap();
                let ad = u.local_addr().unwrap();
                self.bind_name(&s(1), ad);
                self.raws.insert(
                    s(1),
                    Raw { _s: u, inbox: VecDeque::new(), autoack: false, seq: 0, ridx: 0, oidx: 0, sidx: 0, fid: 0 },
                );
            }
            "autoack" => {
                if let Some(r) = self.raws.get_mut(&s(1)) {
                    r.autoack = n(2, 1) != 0;
                }
            }
            "rawsend" | "rawfly" => {
                let v = a.get(3).cloned().unwrap_or(json!({}));
                let data = self.build(&s(1), &s(2), &v);
                let g = Dgram { src: self.addr(&s(1)), dst: self.addr(&s(2)), data, refused: false };
                let rep = n(4, 1);
                for _ in 0..rep {
                    self.raw_tx(g.clone(), s(0) == "rawsend").await;
                }
            }
            "rawmsg" => {
                // raw peer sends message id of kind/len with its own running counters; optional chunk size,
                // optional "fly" (leave in flight)
                let (p, dst, kind, len, id, chunk) =
                    (s(1), s(2), n(3, 3) as u8, n(4, 8) as usize, n(5, 0), n(6, 1340) as usize);
                let data = self.mkmsg(kind, id, len);
                let fly = n(7, 0) != 0;
                let mut out = vec![];
                {
                    let r = self.raws.get_mut(&p).unwrap();
                    let parts: Vec<&[u8]> = if kind == 3 && len > chunk { data.chunks(chunk).collect() } else { vec![&data] };
                    let frag = parts.len() > 1;
                    for (i, c) in parts.iter().enumerate() {
                        let mut f = Frame { rel: kind, data: c.to_vec(), ..Default::default() };
                        if f.reliable() {
                            f.ridx = r.ridx;
                            r.ridx += 1;
                        }
                        f.oidx = r.oidx;
                        if f.sequenced() {
                            f.sidx = r.sidx;
                            r.sidx += 1;
                        }
                        if frag {
                            f.frag = true;
                            f.fsize = parts.len() as u32;
                            f.fid = r.fid;
                            f.findex = i as u32;
                        }
                        out.push(wire::encode(&Pkt::Frames { id: 0x84, seq: r.seq, frames: vec![f] }));
                        r.seq += 1;
                    }
                    if kind == 3 {
                        r.oidx += 1;
                    }
                    if frag {
                        r.fid = r.fid.wrapping_add(1);
                    }
                }
                let (src, dst) = (self.addr(&p), self.addr(&dst));
                for data in out {
                    self.raw_tx(Dgram { src, dst, data, refused: false }, !fly).await;
                }
            }
            "rawset" => {
                if let Some(r) = self.raws.get_mut(&s(1)) {
                    let v = n(3, 0) as u32;
                    match s(2).as_str() {
                        "seq" => r.seq = v,
                        "ridx" => r.ridx = v,
                        "oidx" => r.oidx = v,
                        "sidx" => r.sidx = v,
                        _ => r.fid = v as u16,
                    }
                }
            }
            "rawconn" => {
                // full handshake by a raw client p with listener l: mtu, version; acks what it gets
                let (p, l) = (s(1), s(2));
                let (mtu, ver) = (n(3, 1400), n(4, 10));
                let guid = n(5, 77);
                let la = self.addr(&l);
                let src = self.addr(&p);
                let d1 = self.build(&p, &l, &json!({"k":"req1","ver":ver}));
                self.raw_tx(Dgram { src, dst: la, data: d1, refused: false }, true).await;
                self.raw_pull(&p).await;
                let d2 = self.build(&p, &l, &json!({"k":"req2","mtu":mtu,"guid":guid}));
                self.raw_tx(Dgram { src, dst: la, data: d2, refused: false }, true).await;
                self.raw_pull(&p).await;
                let d3 = self.build(&p, &l, &json!({"k":"frames","seq":0,"frames":[{"rel":3,"ri":0,"oi":0,"ctl":"connreq"}]}));
                self.raw_tx(Dgram { src, dst: la, data: d3, refused: false }, true).await;
                let save = self.micro.take();
                self.advance(60).await;
                self.raw_pull(&p).await;
                let d4 = self.build(&p, &l, &json!({"k":"frames","seq":1,"frames":[{"rel":3,"ri":1,"oi":1,"ctl":"newinc"}]}));
                self.raw_tx(Dgram { src, dst: la, data: d4, refused: false }, true).await;
                self.advance(60).await;
                self.raw_pull(&p).await;
                self.micro = save;
                let r = self.raws.get_mut(&p).unwrap();
                r.seq = 2;
                r.ridx = 2;
                r.oidx = 2;
                // acknowledge everything the server has sent as frames so far
                let qs: Vec<u32> = r
                    .inbox
                    .iter()
                    .filter_map(|(_, k, _)| if let Pkt::Frames { seq, .. } = k { Some(*seq) } else { None })
                    .collect();
                r.inbox.clear();
                for q in qs {
                    let g = Dgram { src, dst: la, data: wire::encode(&Pkt::Ack(vec![(q, q)])), refused: false };
                    self.raw_tx(g, true).await;
                }
            }
            "rawserve" => {
                // raw server p completes the handshake with real client c that is connecting to it: mtu
                let (p, c) = (s(1), s(2));
                let mtu = n(3, 1400);
                let src = self.addr(&p);
                let dst = self.addr(&c);
                self.raw_pull(&p).await;
                for v in [json!({"k":"rep1","mtu":mtu}), json!({"k":"rep2","mtu":mtu})] {
                    let d = self.build(&p, &c, &v);
                    self.raw_tx(Dgram { src, dst, data: d, refused: false }, true).await;
                    self.raw_pull(&p).await;
                }
                let save = self.micro.take();
                self.advance(60).await;
                self.raw_pull(&p).await;
                let d = self.build(&p, &c, &json!({"k":"frames","seq":0,"frames":[{"rel":3,"ri":0,"oi":0,"ctl":"accepted"}]}));
                self.raw_tx(Dgram { src, dst, data: d, refused: false }, true).await;
                self.advance(60).await;
                self.raw_pull(&p).await;
                self.micro = save;
                let r = self.raws.get_mut(&p).unwrap();
                r.seq = 1;
                r.ridx = 1;
                r.oidx = 1;
                let qs: Vec<u32> = r
                    .inbox
                    .iter()
                    .filter_map(|(_, k, _)| if let Pkt::Frames { seq, .. } = k { Some(*seq) } else { None })
                    .collect();
                r.inbox.clear();
                for q in qs {
                    let g = Dgram { src, dst, data: wire::encode(&Pkt::Ack(vec![(q, q)])), refused: false };
                    self.raw_tx(g, true).await;
                }
                self.advance(60).await;
                self.raw_pull(&p).await;
                let r = self.raws.get_mut(&p).unwrap();
                let qs: Vec<u32> = r
                    .inbox
                    .iter()
                    .filter_map(|(_, k, _)| if let Pkt::Frames { seq, .. } = k { Some(*seq) } else { None })
                    .collect();
                r.inbox.clear();
                for q in qs {
                    let g = Dgram { src, dst, data: wire::encode(&Pkt::Ack(vec![(q, q)])), refused: false };
                    self.raw_tx(g, true).await;
                }
            }
            "pull" => self.raw_pull(&s(1)).await,
            "dl" | "dl!" => {
                let ix = self.links(&s(1), &s(2));
                if !ix.is_empty() {
                    let k = (n(3, 0) as usize).min(ix.len() - 1);
                    let f = self.flight.remove(ix[k]);
                    self.deliver(&f, s(0) == "dl").await;
                }
            }
            // datagrams by the sequence number they carry (dlq, dupq, loseq), acknowledge (dla, losea) or report as
            // missing (dln, losen), counted from the op "base" for the direction of the data
            "base" => {
                let k = (s(1), s(2));
                let v = self.seqs.get(&k).copied().unwrap_or(0);
                self.base.insert(k, v);
            }
            "dlq" | "dupq" | "loseq" | "dla" | "losea" | "dln" | "losen" => {
                let q = self.base.get(&(s(1), s(2))).copied().unwrap_or(0) + n(3, 0) as u32;
                let data = s(0).ends_with('q');
                let ix = if data { self.links(&s(1), &s(2)) } else { self.links(&s(2), &s(1)) };
                let hit = ix.into_iter().find(|i| match wire::decode(&self.flight[*i].g.data) {
                    Pkt::Frames { seq, .. } => data && seq == q,
                    Pkt::Ack(r) => s(0).ends_with('a') && r.iter().any(|p| p.0 <= q && q <= p.1),
                    Pkt::Nack(r) => s(0).ends_with('n') && r.iter().any(|p| p.0 <= q && q <= p.1),
                    _ => false,
                });
                match hit {
                    None => self.ev("miss", json!({"op": s(0), "q": n(3, 0)})),
                    Some(i) if s(0) == "dupq" => {
                        let f = self.flight[i].clone();
                        self.deliver(&f, true).await;
                    }
                    Some(i) => {
                        let f = self.flight.remove(i);
                        if s(0).starts_with("dl") {
                            self.deliver(&f, true).await;
                        } else {
                            self.ev("drop", json!({"d": f.d}));
                        }
                    }
                }
            }
            "dup" => {
                let ix = self.links(&s(1), &s(2));
                if !ix.is_empty() {
                    let k = (n(3, 0) as usize).min(ix.len() - 1);
                    let f = self.flight[ix[k]].clone();
                    self.deliver(&f, true).await;
                }
            }
            "lose" => {
                let ix = self.links(&s(1), &s(2));
                if !ix.is_empty() {
                    let k = (n(3, 0) as usize).min(ix.len() - 1);
                    let f = self.flight.remove(ix[k]);
                    self.ev("drop", json!({"d": f.d}));
                }
            }
            "loseall" => {
                for i in self.links(&s(1), &s(2)).into_iter().rev() {
                    let f = self.flight.remove(i);
                    self.ev("drop", json!({"d": f.d}));
                }
            }
            "dlall" | "dlall!" => {
                let mut got = vec![];
                for i in self.links(&s(1), &s(2)).into_iter().rev() {
                    got.push(self.flight.remove(i));
                }
                if s(3) != "rev" {
                    got.reverse();
                }
                for f in got {
                    self.deliver(&f, s(0) == "dlall").await;
                }
            }
            "auto" => {
                self.auto = Auto {
                    on: n(1, 1) != 0,
                    loss: n(2, 0) as u32,
                    dup: n(3, 0) as u32,
                    delay: n(4, 0) as u32,
                    only: if s(5).is_empty() { None } else { Some((s(5), s(6))) },
                };
                // delays are below half a second and never for ever
                self.ev_net();
                if self.auto.on {
                    self.pump().await;
                }
            }
            "senderr" => {
                // the operating system refuses to send
                let at = |w: &World, k| if s(k) == "*" { None } else { Some(w.addr(&s(k))) };
                let r = (at(self, 1), at(self, 2), n(3, 100) as u32, n(4, libc::ENETUNREACH as i64) as i32);
                net::refuse(r);
                self.ev_net();
            }
            "pump" => self.pump().await,
            "adv" => self.advance(n(1, 50)).await,
            "micro" => self.micro = if n(1, -1) < 0 { None } else { Some(n(1, 0) as u32) },
            "settle" => self.full_settle().await,
            "yields" => {
                for _ in 0..n(1, 1) {
                    self.yield1().await;
                }
            }
            "recv" => {
                self.drain_recv().await;
            }
            "expire" => {
                // let time pass until the given link carries a new frame datagram again, or limit
                let (src, dst, lim) = (s(1), s(2), n(3, 20000));
                let seen = self.nextd;
                let start = self.t();
                loop {
                    let save = self.step;
                    self.step = 50;
                    self.advance(50).await;
                    self.step = save;
                    let fresh = self.links(&src, &dst).iter().any(|i| {
                        self.flight[*i].d > seen
                            && matches!(self.flight[*i].g.data.first(), Some(0x80..=0x8d))
                    });
                    if fresh || self.over || self.t() - start > lim {
                        break;
                    }
                }
                self.last_expire = self.t() - start;
            }
            "quiesce" => {
                // fair network from here on: deliver everything, let time pass, until `ms` have gone by
                let lim = n(1, 30000);
                self.auto = Auto { on: true, ..Default::default() };
                net::refuse_none();
                self.ev_net();
                let start = self.t();
                let save = self.step;
                self.step = n(2, 50);
                let mut calm = 0;
                while !self.over && self.t() - start < lim && calm < n(3, 1_000_000) {
                    let a = self.activity;
                    self.pump().await;
                    self.advance(50).await;
                    calm = if self.activity == a { calm + 1 } else { 0 };
                }
                self.step = save;
                self.ev("quiet", json!({"ms": self.t() - start}));
            }
            "quiet" => {
                self.full_settle().await;
                self.ev("quiet", json!({"ms": 0}));
            }
            "mark" => {
                let v = a.get(2).cloned().unwrap_or(json!({}));
                self.ev("mark", json!({"what": s(1), "v": v}));
            }
            "sessfds" => {}
            x => panic!("harness: unknown op {x}"),
        }
        self.collect();
        self.completions();
    }
}
