//! What the demonstrations share: a loopback proxy that loses, repeats and delays datagrams, and a raw peer.
#![allow(dead_code)]
use rust_raknet::{RaknetListener, RaknetSocket};
use std::collections::HashMap;
use std::future::Future;
use std::net::SocketAddr;
use std::sync::Arc;
use std::time::Duration;
use tokio::net::UdpSocket;

pub const MAGIC: [u8; 16] = [
    0x00, 0xff, 0xff, 0x00, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78,
];

pub fn ok(c: bool, what: &str) {
    if c {
        println!("ok: {what}");
    } else {
        println!("FAILED: {what}");
        std::process::exit(1);
    }
}

pub async fn ms(n: u64) {
    tokio::time::sleep(Duration::from_millis(n)).await
}

pub async fn within<T>(n: u64, what: &str, f: impl Future<Output = T>) -> T {
    match tokio::time::timeout(Duration::from_millis(n), f).await {
        Ok(p) => p,
        Err(_) => {
            println!("FAILED: {what} does not end");
            std::process::exit(1);
        }
    }
}

pub fn msg(id: u32, len: usize) -> Vec<u8> {
    let mut v = vec![0xfe];
    v.extend_from_slice(&id.to_be_bytes());
    while v.len() < len {
        let k = v.len() as u32;
        v.push((k.wrapping_mul(2654435761).wrapping_add(id) >> 11) as u8);
    }
    v
}

pub fn id(m: &[u8]) -> u32 {
    u32::from_be_bytes([m[1], m[2], m[3], m[4]])
}

/// everything received until nothing comes for `quiet` ms
pub async fn drain(s: &RaknetSocket, quiet: u64) -> Vec<Vec<u8>> {
    let mut v = vec![];
    while let Ok(Ok(m)) = tokio::time::timeout(Duration::from_millis(quiet), s.recv()).await {
        v.push(m);
    }
    v
}

pub async fn server() -> (RaknetListener, SocketAddr) {
    let mut l = RaknetListener::bind(&"127.0.0.1:0".parse().unwrap()).await.unwrap();
    l.listen().await;
    let a = l.local_addr().unwrap();
    (l, a)
}

/// f(up, n, datagram): the delays in ms with which copies of the nth datagram of that direction are passed on
pub async fn proxy<F>(to: SocketAddr, mut f: F) -> SocketAddr
where
    F: FnMut(bool, usize, &[u8]) -> Vec<u64> + Send + 'static,
{
    let front = Arc::new(UdpSocket::bind("127.0.0.1:0").await.unwrap());
    let at = front.local_addr().unwrap();
    tokio::spawn(async move {
        let (tx, mut back) = tokio::sync::mpsc::unbounded_channel::<(SocketAddr, Vec<u8>)>();
        let mut ups: HashMap<SocketAddr, Arc<UdpSocket>> = HashMap::new();
        let (mut nu, mut nd) = (0, 0);
        let mut buf = [0u8; 4096];
        loop {
            tokio::select! {
                r = front.recv_from(&mut buf) => {
                    let (n, src) = match r { Ok(p) => p, Err(_) => continue };
                    if !ups.contains_key(&src) {
                        let s = Arc::new(UdpSocket::bind("127.0.0.1:0").await.unwrap());
                        ups.insert(src, s.clone());
                        let tx = tx.clone();
                        tokio::spawn(async move {
                            let mut b = [0u8; 4096];
                            loop {
                                if let Ok((n, _)) = s.recv_from(&mut b).await {
                                    if tx.send((src, b[..n].to_vec())).is_err() { break; }
                                }
                            }
                        });
                    }
                    let s = ups[&src].clone();
                    for d in f(true, nu, &buf[..n]) {
                        if d == 0 { let _ = s.send_to(&buf[..n], to).await; continue; }
                        let (s, b) = (s.clone(), buf[..n].to_vec());
                        tokio::spawn(async move { ms(d).await; let _ = s.send_to(&b, to).await; });
                    }
                    nu += 1;
                }
                Some((dst, b)) = back.recv() => {
                    for d in f(false, nd, &b) {
                        if d == 0 { let _ = front.send_to(&b, dst).await; continue; }
                        let (s, b) = (front.clone(), b.clone());
                        tokio::spawn(async move { ms(d).await; let _ = s.send_to(&b, dst).await; });
                    }
                    nd += 1;
                }
            }
        }
    });
    at
}

pub fn is_data(b: &[u8]) -> bool {
    (0x80..=0x8d).contains(&b[0])
}

/// data datagrams that carry what an application sent (the first frame, first fragment)
pub fn carries(b: &[u8]) -> bool {
    is_data(b) && body(b).first() == Some(&0xfe)
}

/// sequence number of a data datagram
pub fn seq(b: &[u8]) -> u32 {
    b[1] as u32 | (b[2] as u32) << 8 | (b[3] as u32) << 16
}

pub fn kind(b: &[u8]) -> u8 {
    b[4] >> 5
}

/// the body of the first frame of a data datagram
pub fn body(b: &[u8]) -> &[u8] {
    let k = kind(b);
    let mut at = 7;
    if (2..=4).contains(&k) { at += 3; }
    if k == 1 || k == 4 { at += 3; }
    if k == 1 || k == 3 || k == 4 { at += 4; }
    if b[4] & 16 != 0 { at += 10; }
    &b[at.min(b.len())..]
}

/// one frame of a data datagram
pub fn frame(kind: u8, ri: u32, si: u32, oi: u32, frag: Option<(u32, u16, u32)>, data: &[u8]) -> Vec<u8> {
    let mut v = vec![kind << 5 | if frag.is_some() { 16 } else { 0 }];
    v.extend_from_slice(&((data.len() * 8) as u16).to_be_bytes());
    if (2..=4).contains(&kind) { v.extend_from_slice(&ri.to_le_bytes()[..3]); }
    if kind == 1 || kind == 4 { v.extend_from_slice(&si.to_le_bytes()[..3]); }
    if kind == 1 || kind == 3 || kind == 4 { v.extend_from_slice(&oi.to_le_bytes()[..3]); v.push(0); }
    if let Some((n, c, i)) = frag {
        v.extend_from_slice(&n.to_be_bytes());
        v.extend_from_slice(&c.to_be_bytes());
        v.extend_from_slice(&i.to_be_bytes());
    }
    v.extend_from_slice(data);
    v
}

pub fn dgram(id: u8, q: u32, frames: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![id];
    v.extend_from_slice(&q.to_le_bytes()[..3]);
    for f in frames { v.extend_from_slice(f); }
    v
}

pub fn addr4() -> Vec<u8> {
    vec![4, 0x80, 0xff, 0xff, 0xfe, 0x4a, 0xbc]
}

pub fn req1(ver: u8, mtu: usize) -> Vec<u8> {
    let mut v = vec![5];
    v.extend_from_slice(&MAGIC);
    v.push(ver);
    v.resize(mtu - 28, 0);
    v
}

pub fn req2(mtu: u16, guid: u64) -> Vec<u8> {
    let mut v = vec![7];
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&addr4());
    v.extend_from_slice(&mtu.to_be_bytes());
    v.extend_from_slice(&guid.to_be_bytes());
    v
}

pub fn rep1(mtu: u16) -> Vec<u8> {
    let mut v = vec![6];
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&7u64.to_be_bytes());
    v.push(0);
    v.extend_from_slice(&mtu.to_be_bytes());
    v
}

pub fn rep2(mtu: u16) -> Vec<u8> {
    let mut v = vec![8];
    v.extend_from_slice(&MAGIC);
    v.extend_from_slice(&7u64.to_be_bytes());
    v.extend_from_slice(&addr4());
    v.extend_from_slice(&mtu.to_be_bytes());
    v.push(0);
    v
}

pub fn accepted() -> Vec<u8> {
    let mut v = vec![0x10];
    for k in 0..11 { v.extend_from_slice(&addr4()); if k == 0 { v.extend_from_slice(&[0, 0]); } }
    v.extend_from_slice(&[0; 16]);
    v
}

pub fn ack(q: u32) -> Vec<u8> {
    let mut v = vec![0xc0, 0, 1, 1];
    v.extend_from_slice(&q.to_le_bytes()[..3]);
    v
}

/// a peer that is not rust-raknet
pub struct Raw {
    pub s: UdpSocket,
    pub to: SocketAddr,
    pub got: Vec<Vec<u8>>,
}

impl Raw {
    pub async fn new(to: SocketAddr) -> Raw {
        Raw { s: UdpSocket::bind("127.0.0.1:0").await.unwrap(), to, got: vec![] }
    }

    pub async fn send(&self, b: &[u8]) {
        self.s.send_to(b, self.to).await.unwrap();
    }

    /// everything that arrives until nothing comes for `quiet` ms; data is acknowledged when `acks`
    pub async fn collect(&mut self, quiet: u64, acks: bool) -> Vec<Vec<u8>> {
        let mut v = vec![];
        let mut b = [0u8; 4096];
        while let Ok(Ok((n, src))) = tokio::time::timeout(Duration::from_millis(quiet), self.s.recv_from(&mut b)).await {
            if src != self.to { continue; }
            if is_data(&b) && acks { self.send(&ack(seq(&b[..n]))).await; }
            v.push(b[..n].to_vec());
        }
        v
    }

    /// handshake as a client
    pub async fn connect(to: SocketAddr, ver: u8, mtu: u16) -> Raw {
        let mut r = Raw::new(to).await;
        r.hello(ver, mtu, 99).await;
        r
    }

    pub async fn hello(&mut self, ver: u8, mtu: u16, guid: u64) -> Vec<Vec<u8>> {
        self.send(&req1(ver, mtu as usize)).await;
        let mut v = self.collect(100, true).await;
        self.send(&req2(mtu, guid)).await;
        v.append(&mut self.collect(100, true).await);
        let mut c = vec![9];
        c.extend_from_slice(&guid.to_be_bytes());
        c.extend_from_slice(&[0; 9]);
        self.send(&dgram(0x84, 0, &[frame(3, 0, 0, 0, None, &c)])).await;
        v.append(&mut self.collect(150, true).await);
        let mut c = vec![0x13];
        for _ in 0..11 { c.extend_from_slice(&addr4()); }
        c.extend_from_slice(&[0; 16]);
        self.send(&dgram(0x84, 1, &[frame(3, 1, 0, 1, None, &c)])).await;
        v.append(&mut self.collect(100, true).await);
        v
    }

    /// answers one client's handshake as a server would; `self.to` becomes the client. The client's data is acknowledged.
    pub async fn serve(mtu: u16) -> Raw {
        Raw::new("127.0.0.1:1".parse().unwrap()).await.tap(mtu)
    }

    fn tap(self, _mtu: u16) -> Raw {
        self
    }

    pub async fn serving(&mut self, mtu: u16) {
        let mut b = [0u8; 4096];
        loop {
            let (n, src) = self.s.recv_from(&mut b).await.unwrap();
            self.to = src;
            match b[0] {
                5 => self.send(&rep1(mtu)).await,
                7 => self.send(&rep2(mtu)).await,
                x if (0x80..=0x8d).contains(&x) => {
                    self.send(&ack(seq(&b[..n]))).await;
                    if body(&b[..n]).first() == Some(&9) {
                        self.send(&dgram(0x84, 0, &[frame(3, 0, 0, 0, None, &accepted())])).await;
                        return;
                    }
                }
                _ => {}
            }
        }
    }
}
