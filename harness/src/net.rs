//! In-process network: every datagram the code under test sends (libc sendto) is captured instead of
//! reaching the kernel, and every wall-clock read (clock_gettime CLOCK_REALTIME) answers virtual time.
//! Datagrams handed *to* the code under test do travel through the kernel loopback, one at a time.
//! State is per thread: each scenario runs on one thread with its own current_thread runtime.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

#[derive(Clone, Debug)]
pub struct Dgram {
    pub src: SocketAddr,
    pub dst: SocketAddr,
    pub data: Vec<u8>,
    /// the operating system refused to send it
    pub refused: bool,
}

/// Sends that the operating system refuses: from, to, how many in a hundred, errno.
pub type Refuse = (Option<SocketAddr>, Option<SocketAddr>, u32, i32);

thread_local! {
    static REFUSE: RefCell<Vec<Refuse>> = const { RefCell::new(Vec::new()) };
    static COIN: Cell<u64> = const { Cell::new(0) };
    static NOW: Cell<i64> = const { Cell::new(-1) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static PORT0: Cell<u16> = const { Cell::new(0) };
    static PORTN: Cell<u16> = const { Cell::new(0) };
    static RNG: Cell<u64> = const { Cell::new(0) };
    static OUT: RefCell<VecDeque<Dgram>> = const { RefCell::new(VecDeque::new()) };
    static FDS: RefCell<Vec<i32>> = const { RefCell::new(Vec::new()) };
}

const PORTS: u16 = 256;
static SLICE: std::sync::OnceLock<(u16, std::net::UdpSocket)> = std::sync::OnceLock::new();

/// Every thread has its own range of ports (and every process its own slice, held by a socket), so that nobody
/// else gets the port of a socket that the code under test has closed.
pub fn claim_ports(thread: usize) {
    let (base, _) = SLICE.get_or_init(|| {
        for k in 0..27u16 {
            let b = 10000 + k * 2050;
            if let Ok(s) = std::net::UdpSocket::bind(("0.0.0.0", b)) {
                return (b, s);
            }
        }
        panic!("harness: no ports");
    });
    PORT0.with(|p| p.set(base + 1 + (thread as u16 % 8) * PORTS));
}

pub fn start(now_ms: i64, seed: u64) {
    NOW.with(|n| n.set(now_ms));
    RNG.with(|r| r.set(seed | 1));
    COIN.with(|r| r.set(seed ^ 0x9e37_79b9_7f4a_7c15));
    REFUSE.with(|r| r.borrow_mut().clear());
    PORTN.with(|p| p.set(0));
    OUT.with(|o| o.borrow_mut().clear());
    FDS.with(|o| o.borrow_mut().clear());
    ON.with(|o| o.set(true));
}
pub fn stop() {
    ON.with(|o| o.set(false));
    NOW.with(|n| n.set(-1));
    OUT.with(|o| o.borrow_mut().clear());
    FDS.with(|o| o.borrow_mut().clear());
}
pub fn now() -> i64 {
    NOW.with(|n| n.get())
}
pub fn set_now(v: i64) {
    NOW.with(|n| n.set(v))
}
/// Replaces what is refused between the two; 0 in a hundred ends it.
pub fn refuse(r: Refuse) {
    REFUSE.with(|x| {
        let mut x = x.borrow_mut();
        x.retain(|y| (y.0, y.1) != (r.0, r.1));
        if r.2 > 0 {
            x.push(r);
        }
    })
}
pub fn refuse_none() {
    REFUSE.with(|x| x.borrow_mut().clear())
}
pub fn refusing() -> bool {
    REFUSE.with(|x| !x.borrow().is_empty())
}
fn refused(src: &SocketAddr, dst: &SocketAddr) -> Option<i32> {
    REFUSE.with(|x| {
        let x = x.borrow();
        let r = x.iter().find(|r| r.0.map_or(true, |a| a == *src) && r.1.map_or(true, |a| a == *dst))?;
        let c = COIN.with(|c| {
            let mut s = c.get();
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            c.set(s);
            ((s >> 20) % 100) as u32
        });
        (c < r.2).then_some(r.3)
    })
}
pub fn take_out() -> Vec<Dgram> {
    OUT.with(|o| o.borrow_mut().drain(..).collect())
}

unsafe fn to_sockaddr(p: *const libc::sockaddr) -> Option<SocketAddr> {
    if p.is_null() {
        return None;
    }
    match (*p).sa_family as i32 {
        libc::AF_INET => {
            let a = &*(p as *const libc::sockaddr_in);
            Some(SocketAddr::new(
                IpAddr::V4(Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr))),
                u16::from_be(a.sin_port),
            ))
        }
        libc::AF_INET6 => {
            let a = &*(p as *const libc::sockaddr_in6);
            Some(SocketAddr::new(
                IpAddr::V6(Ipv6Addr::from(a.sin6_addr.s6_addr)),
                u16::from_be(a.sin6_port),
            ))
        }
        _ => None,
    }
}

fn with_sockaddr<R>(a: &SocketAddr, f: impl FnOnce(*const libc::sockaddr, u32) -> R) -> R {
    unsafe {
        match a {
            SocketAddr::V4(v) => {
                let mut s: libc::sockaddr_in = std::mem::zeroed();
                s.sin_family = libc::AF_INET as u16;
                s.sin_port = v.port().to_be();
                s.sin_addr.s_addr = u32::from(*v.ip()).to_be();
                f(
                    &s as *const _ as *const libc::sockaddr,
                    std::mem::size_of::<libc::sockaddr_in>() as u32,
                )
            }
            SocketAddr::V6(v) => {
                let mut s: libc::sockaddr_in6 = std::mem::zeroed();
                s.sin6_family = libc::AF_INET6 as u16;
                s.sin6_port = v.port().to_be();
                s.sin6_addr.s6_addr = v.ip().octets();
                f(
                    &s as *const _ as *const libc::sockaddr,
                    std::mem::size_of::<libc::sockaddr_in6>() as u32,
                )
            }
        }
    }
}

fn local_addr(fd: i32) -> Option<SocketAddr> {
    unsafe {
        let mut st: libc::sockaddr_storage = std::mem::zeroed();
        let mut l = std::mem::size_of::<libc::sockaddr_storage>() as u32;
        if libc::getsockname(fd, &mut st as *mut _ as *mut libc::sockaddr, &mut l) != 0 {
            return None;
        }
        to_sockaddr(&st as *const _ as *const libc::sockaddr)
    }
}

/// What a peer sees as the source address of a datagram sent by `fd` on the loopback.
fn seen_addr(fd: i32) -> Option<SocketAddr> {
    let a = local_addr(fd)?;
    Some(if a.ip().is_unspecified() {
        match a {
            SocketAddr::V4(v) => SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), v.port()),
            SocketAddr::V6(v) => SocketAddr::new(IpAddr::V6(Ipv6Addr::LOCALHOST), v.port()),
        }
    } else {
        a
    })
}

/// The live socket of this scenario that receives what is sent to `addr`.
fn fd_of(addr: &SocketAddr) -> Option<i32> {
    let fds: Vec<i32> = FDS.with(|f| f.borrow().clone());
    fds.into_iter()
        .rev()
        .find(|fd| seen_addr(*fd).map(|a| a == *addr).unwrap_or(false))
}

pub fn fds() -> Vec<i32> {
    FDS.with(|f| f.borrow().clone())
}
pub fn seen(fd: i32) -> Option<SocketAddr> {
    seen_addr(fd)
}

pub fn is_live(addr: &SocketAddr) -> bool {
    fd_of(addr).is_some()
}

unsafe fn raw_sendto(fd: i32, data: &[u8], dst: &SocketAddr) -> isize {
    with_sockaddr(dst, |p, l| {
        libc::syscall(
            libc::SYS_sendto,
            fd,
            data.as_ptr(),
            data.len(),
            libc::MSG_DONTWAIT,
            p,
            l,
        ) as isize
    })
}

/// Deliver one datagram to the socket of this scenario bound to `dst`; false if there is none.
pub fn inject(src: &SocketAddr, dst: &SocketAddr, data: &[u8]) -> bool {
    let Some(dfd) = fd_of(dst) else { return false };
    let sent = match fd_of(src) {
        Some(fd) => unsafe { raw_sendto(fd, data, dst) },
        None => {
            // the sending socket has been closed since: send from a short-lived one at the same address
            let on = ON.with(|o| o.replace(false));
            let r = match std::net::UdpSocket::bind(src) {
                Ok(s) => unsafe {
                    use std::os::fd::AsRawFd;
                    raw_sendto(s.as_raw_fd(), data, dst)
                },
                Err(_) => -1,
            };
            ON.with(|o| o.set(on));
            r
        }
    };
    if sent != data.len() as isize {
        return false;
    }
    // loopback delivery is synchronous unless the softirq was deferred; wait until it is readable
    let mut b = [0u8; 1];
    for _ in 0..200000 {
        let n = unsafe {
            libc::syscall(
                libc::SYS_recvfrom,
                dfd,
                b.as_mut_ptr(),
                1,
                libc::MSG_PEEK | libc::MSG_DONTWAIT,
                0,
                0,
            )
        };
        if n >= 0 {
            return true;
        }
        std::thread::yield_now();
    }
    panic!("harness: loopback did not deliver");
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if clk == libc::CLOCK_REALTIME {
        let v = NOW.try_with(|n| n.get()).unwrap_or(-1);
        if v >= 0 {
            (*ts).tv_sec = v / 1000;
            (*ts).tv_nsec = (v % 1000) * 1_000_000;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sendto(
    fd: i32,
    buf: *const libc::c_void,
    len: usize,
    flags: i32,
    addr: *const libc::sockaddr,
    alen: u32,
) -> isize {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        if let (Some(dst), Some(src)) = (to_sockaddr(addr), seen_addr(fd)) {
            if src.is_ipv4() == dst.is_ipv4() {
                let data = std::slice::from_raw_parts(buf as *const u8, len).to_vec();
                let no = refused(&src, &dst);
                OUT.with(|o| o.borrow_mut().push_back(Dgram { src, dst, data, refused: no.is_some() }));
                if let Some(e) = no {
                    *libc::__errno_location() = e;
                    return -1;
                }
                return len as isize;
            }
        }
    }
    crate::chaos::point(30);
    let r = libc::syscall(libc::SYS_sendto, fd, buf, len, flags, addr, alen) as isize;
    let err = *libc::__errno_location();
    crate::chaos::point(30);
    *libc::__errno_location() = err;
    r
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: i32, addr: *const libc::sockaddr, alen: u32) -> i32 {
    let on = ON.try_with(|o| o.get()).unwrap_or(false);
    let any = to_sockaddr(addr).filter(|a| on && a.port() == 0 && PORT0.with(|p| p.get()) > 0);
    let r = match any {
        None => libc::syscall(libc::SYS_bind, fd, addr, alen) as i32,
        // ports of this scenario only: one that was closed is not given to anybody else
        Some(mut a) => loop {
            let k = PORTN.with(|p| {
                p.set(p.get() + 1);
                p.get() - 1
            });
            if k >= PORTS {
                break libc::syscall(libc::SYS_bind, fd, addr, alen) as i32;
            }
            a.set_port(PORT0.with(|p| p.get()) + k);
            if with_sockaddr(&a, |p, l| libc::syscall(libc::SYS_bind, fd, p, l)) == 0 {
                break 0;
            }
        },
    };
    if r == 0 && ON.try_with(|o| o.get()).unwrap_or(false) {
        FDS.with(|f| f.borrow_mut().push(fd));
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    let _ = ON.try_with(|o| {
        if o.get() {
            FDS.with(|f| f.borrow_mut().retain(|x| *x != fd));
        }
    });
    libc::syscall(libc::SYS_close, fd) as i32
}

/// Randomness of the code under test (guids, hash seeds, select order) is a function of the scenario seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: u32) -> isize {
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for x in b.iter_mut() {
            *x = RNG.with(|r| {
                let mut s = r.get();
                s ^= s << 13;
                s ^= s >> 7;
                s ^= s << 17;
                r.set(s);
                (s >> 24) as u8
            });
        }
        return len as isize;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize
}
