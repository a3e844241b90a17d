//! Independent decoder / encoder of the RakNet wire format (does not use the code under test).
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub const MAGIC: [u8; 16] = [
    0x00, 0xff, 0xff, 0x00, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78,
];

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Frame {
    pub rel: u8,
    pub frag: bool,
    pub bits: u16,
    pub ridx: u32,
    pub sidx: u32,
    pub oidx: u32,
    pub chan: u8,
    pub fsize: u32,
    pub fid: u16,
    pub findex: u32,
    pub data: Vec<u8>,
}
impl Frame {
    pub fn reliable(&self) -> bool {
        (2..=4).contains(&self.rel)
    }
    pub fn sequenced(&self) -> bool {
        self.rel == 1 || self.rel == 4
    }
    pub fn ordered(&self) -> bool {
        self.rel == 1 || self.rel == 3 || self.rel == 4
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Pkt {
    Ping { id: u8, time: i64, magic: bool, guid: u64 },
    Pong { time: i64, guid: u64, magic: bool, motd: Vec<u8> },
    Req1 { magic: bool, ver: u8, size: usize },
    Rep1 { magic: bool, guid: u64, enc: u8, mtu: u16 },
    Req2 { magic: bool, addr: SocketAddr, mtu: u16, guid: u64 },
    Rep2 { magic: bool, guid: u64, addr: SocketAddr, mtu: u16, enc: u8 },
    Already { magic: bool, guid: u64 },
    Incompat { ver: u8, magic: bool, guid: u64 },
    Disc,
    Ack(Vec<(u32, u32)>),
    Nack(Vec<(u32, u32)>),
    Frames { id: u8, seq: u32, frames: Vec<Frame> },
    Other(u8),
    Bad,
}

pub struct Rd<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, p: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.p
    }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.left() < n {
            return None;
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Some(r)
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Option<u16> {
        Some(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u24(&mut self) -> Option<u32> {
        let b = self.take(3)?;
        Some(b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16)
    }
    pub fn u32(&mut self) -> Option<u32> {
        Some(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn magic(&mut self) -> Option<bool> {
        Some(self.take(16)? == MAGIC)
    }
    pub fn addr(&mut self) -> Option<SocketAddr> {
        match self.u8()? {
            4 => {
                let b = self.take(4)?;
                let port = self.u16()?;
                Some(SocketAddr::new(
                    IpAddr::V4(Ipv4Addr::new(!b[0], !b[1], !b[2], !b[3])),
                    port,
                ))
            }
            6 => {
                self.take(2)?;
                let port = self.u16()?;
                self.take(4)?;
                let b: [u8; 16] = self.take(16)?.try_into().unwrap();
                self.take(4)?;
                Some(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(b)), port))
            }
            _ => None,
        }
    }
}

fn recs(r: &mut Rd) -> Option<Vec<(u32, u32)>> {
    let n = r.u16()?;
    let mut v = vec![];
    for _ in 0..n {
        let single = r.u8()?;
        let a = r.u24()?;
        let b = if single == 1 { a } else { r.u24()? };
        v.push((a, b));
    }
    Some(v)
}

fn frames(r: &mut Rd) -> Option<(u32, Vec<Frame>)> {
    let seq = r.u24()?;
    let mut v = vec![];
    while r.left() > 0 {
        let flags = r.u8()?;
        let mut f = Frame {
            rel: flags >> 5,
            frag: flags & 16 != 0,
            bits: r.u16()?,
            ..Default::default()
        };
        if f.rel > 4 {
            return None;
        }
        if f.reliable() {
            f.ridx = r.u24()?;
        }
        if f.sequenced() {
            f.sidx = r.u24()?;
        }
        if f.ordered() {
            f.oidx = r.u24()?;
            f.chan = r.u8()?;
        }
        if f.frag {
            f.fsize = r.u32()?;
            f.fid = r.u16()?;
            f.findex = r.u32()?;
        }
        f.data = r.take((f.bits as usize + 7) / 8)?.to_vec();
        v.push(f);
    }
    if v.is_empty() {
        return None;
    }
    Some((seq, v))
}

pub fn decode(b: &[u8]) -> Pkt {
    decode_opt(b).unwrap_or(Pkt::Bad)
}

fn decode_opt(b: &[u8]) -> Option<Pkt> {
    let mut r = Rd::new(b);
    let id = r.u8()?;
    let p = match id {
        0x01 | 0x02 => Pkt::Ping {
            id,
            time: r.u64()? as i64,
            magic: r.magic()?,
            guid: r.u64()?,
        },
        0x1c => Pkt::Pong {
            time: r.u64()? as i64,
            guid: r.u64()?,
            magic: r.magic()?,
            motd: {
                let n = r.u16()? as usize;
                r.take(n)?.to_vec()
            },
        },
        0x05 => {
            let magic = r.magic()?;
            let ver = r.u8()?;
            let n = r.left();
            r.take(n);
            Pkt::Req1 { magic, ver, size: b.len() }
        }
        0x06 => Pkt::Rep1 {
            magic: r.magic()?,
            guid: r.u64()?,
            enc: r.u8()?,
            mtu: r.u16()?,
        },
        0x07 => Pkt::Req2 {
            magic: r.magic()?,
            addr: r.addr()?,
            mtu: r.u16()?,
            guid: r.u64()?,
        },
        0x08 => Pkt::Rep2 {
            magic: r.magic()?,
            guid: r.u64()?,
            addr: r.addr()?,
            mtu: r.u16()?,
            enc: r.u8()?,
        },
        0x12 => Pkt::Already { magic: r.magic()?, guid: r.u64()? },
        0x19 => Pkt::Incompat { ver: r.u8()?, magic: r.magic()?, guid: r.u64()? },
        0x15 => Pkt::Disc,
        0xc0 => Pkt::Ack(recs(&mut r)?),
        0xa0 => Pkt::Nack(recs(&mut r)?),
        0x80..=0x8d => {
            let (seq, frames) = frames(&mut r)?;
            Pkt::Frames { id, seq, frames }
        }
        x => return Some(Pkt::Other(x)),
    };
    if r.left() != 0 {
        return None;
    }
    Some(p)
}

#[derive(Default)]
pub struct Wr(pub Vec<u8>);
impl Wr {
    pub fn u8(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn u16(mut self, v: u16) -> Self {
        self.0.extend(v.to_be_bytes());
        self
    }
    pub fn u24(mut self, v: u32) -> Self {
        self.0.extend(&v.to_le_bytes()[..3]);
        self
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.0.extend(v.to_be_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Self {
        self.0.extend(v.to_be_bytes());
        self
    }
    pub fn raw(mut self, v: &[u8]) -> Self {
        self.0.extend(v);
        self
    }
    pub fn magic(self) -> Self {
        self.raw(&MAGIC)
    }
    pub fn addr(self, a: &SocketAddr) -> Self {
        match a.ip() {
            IpAddr::V4(ip) => {
                let o = ip.octets();
                self.u8(4).raw(&[!o[0], !o[1], !o[2], !o[3]]).u16(a.port())
            }
            IpAddr::V6(ip) => self
                .u8(6)
                .raw(&[23, 0])
                .u16(a.port())
                .u32(0)
                .raw(&ip.octets())
                .u32(0),
        }
    }
}

pub fn encode(p: &Pkt) -> Vec<u8> {
    match p {
        Pkt::Ping { id, time, guid, .. } => {
            Wr::default().u8(*id).u64(*time as u64).magic().u64(*guid).0
        }
        Pkt::Pong { time, guid, motd, .. } => {
            Wr::default()
                .u8(0x1c)
                .u64(*time as u64)
                .u64(*guid)
                .magic()
                .u16(motd.len() as u16)
                .raw(motd)
                .0
        }
        Pkt::Req1 { ver, size, .. } => {
            let mut v = Wr::default().u8(5).magic().u8(*ver).0;
            if v.len() < *size {
                v.resize(*size, 0);
            }
            v
        }
        Pkt::Rep1 { guid, enc, mtu, .. } => {
            Wr::default().u8(6).magic().u64(*guid).u8(*enc).u16(*mtu).0
        }
        Pkt::Req2 { addr, mtu, guid, .. } => {
            Wr::default().u8(7).magic().addr(addr).u16(*mtu).u64(*guid).0
        }
        Pkt::Rep2 { guid, addr, mtu, enc, .. } => {
            Wr::default().u8(8).magic().u64(*guid).addr(addr).u16(*mtu).u8(*enc).0
        }
        Pkt::Already { guid, .. } => Wr::default().u8(0x12).magic().u64(*guid).0,
        Pkt::Incompat { ver, guid, .. } => Wr::default().u8(0x19).u8(*ver).magic().u64(*guid).0,
        Pkt::Disc => vec![0x15],
        Pkt::Ack(v) | Pkt::Nack(v) => {
            let mut w = Wr::default()
                .u8(if matches!(p, Pkt::Ack(_)) { 0xc0 } else { 0xa0 })
                .u16(v.len() as u16);
            for (a, b) in v {
                w = if a == b { w.u8(1).u24(*a) } else { w.u8(0).u24(*a).u24(*b) };
            }
            w.0
        }
        Pkt::Frames { id, seq, frames } => {
            let mut w = Wr::default().u8(*id).u24(*seq);
            for f in frames {
                w = w
                    .u8(f.rel << 5 | if f.frag { 16 } else { 0 })
                    .u16((f.data.len() * 8) as u16);
                if f.reliable() {
                    w = w.u24(f.ridx)
                }
                if f.sequenced() {
                    w = w.u24(f.sidx)
                }
                if f.ordered() {
                    w = w.u24(f.oidx).u8(f.chan)
                }
                if f.frag {
                    w = w.u32(f.fsize).u16(f.fid).u32(f.findex)
                }
                w = w.raw(&f.data);
            }
            w.0
        }
        Pkt::Other(x) => vec![*x],
        Pkt::Bad => vec![],
    }
}

/// Connected-session messages carried inside frames.
pub fn conn_request(guid: u64, time: i64) -> Vec<u8> {
    Wr::default().u8(9).u64(guid).u64(time as u64).u8(0).0
}
pub fn conn_accepted(addr: &SocketAddr, t1: i64, t2: i64) -> Vec<u8> {
    let mut w = Wr::default().u8(0x10).addr(addr).u16(0);
    for _ in 0..10 {
        w = w.addr(&"255.255.255.255:19132".parse().unwrap());
    }
    w.u64(t1 as u64).u64(t2 as u64).0
}
pub fn new_incoming(addr: &SocketAddr, t1: i64, t2: i64) -> Vec<u8> {
    let mut w = Wr::default().u8(0x13).addr(addr);
    for _ in 0..10 {
        w = w.addr(&"0.0.0.0:0".parse().unwrap());
    }
    w.u64(t1 as u64).u64(t2 as u64).0
}
pub fn conn_ping(t: i64) -> Vec<u8> {
    Wr::default().u8(0).u64(t as u64).0
}
