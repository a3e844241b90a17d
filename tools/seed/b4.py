from b2 import D
import b2
BUGS=[]
SENDTO='''
// the operating system refuses what REFUSE says: 1 to the port PORT, 2 everything
static REFUSE: AtomicUsize = AtomicUsize::new(0);
static PORT: AtomicUsize = AtomicUsize::new(0);
extern "C" {
    fn syscall(n: i64, ...) -> i64;
    fn __errno_location() -> *mut i32;
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: i32, b: *const u8, n: usize, fl: i32, a: *const u8, l: u32) -> isize {
    let port = if a.is_null() { 0 } else { (*a.add(2) as usize) << 8 | *a.add(3) as usize };
    let no = match REFUSE.load(SeqCst) { 1 => port == PORT.load(SeqCst), 2 => true, _ => false };
    if no {
        *__errno_location() = 101;
        return -1;
    }
    syscall(44, fd, b, n, fl, a, l) as isize
}

#[tokio::main]
'''
def bug(id,p,needs,breaks,edits,demo,refuse=False):
    d=D(demo)
    if refuse: d=d.replace('#[tokio::main]\n',SENDTO)
    BUGS.append(dict(id=id,p=p,needs=needs,breaks=breaks,edits=edits,demo=d))

bug('c25-listener-stops','C25','a ping of a stranger that the operating system refuses to answer',
'the listener\'s receive loop ends when a pong cannot be sent: nobody is answered or accepted any more, open connections die',
[('server.rs','''                        match socket.send_to(&pong, addr).await {
                            Ok(_) => {}
                            Err(e) => {
                                raknet_log_error!("udp socket send_to error : {}", e);
                            }
                        };
                        continue;
                    }
                    PacketID::UnconnectedPing2''','''                        if let Err(e) = socket.send_to(&pong, addr).await {
                            raknet_log_error!("udp socket send_to error : {}", e);
                            break;
                        }
                        continue;
                    }
                    PacketID::UnconnectedPing2''')],'''
    let (_l, a) = server().await;
    let q = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
    PORT.store(q.local_addr().unwrap().port() as usize, SeqCst);
    REFUSE.store(1, SeqCst);
    let mut ping = vec![1];
    ping.extend_from_slice(&[0; 8]);
    ping.extend_from_slice(&MAGIC);
    ping.extend_from_slice(&[0; 8]);
    for _ in 0..3 { q.send_to(&ping, a).await.unwrap(); ms(20).await; }
    REFUSE.store(0, SeqCst);
    ok(within(5000, "ping()", RaknetSocket::ping(&a)).await.is_ok(), "the listener still answers");
    ok(within(5000, "connect()", RaknetSocket::connect(&a)).await.is_ok(), "the listener still accepts");
''',True)

bug('c25-sender-stops','C25','a send that fails once in the middle of a connection',
'an error of the socket ends the task that sends an end\'s new data and acknowledgements',
[('socket.rs','''        match s.send_to(buf, target).await {
            Ok(p) => Ok(p),
            Err(e) => {
                raknet_log_error!("udp socket send_to error : {}", e);
                Ok(0)
            }
        }
    }
''','''        match s.send_to(buf, target).await {
            Ok(p) => Ok(p),
            // new data is sent again with the next tick, the rest is not
            Err(e) if buf[0] & 0xf0 == 0x80 => {
                raknet_log_error!("udp socket send_to error : {}", e);
                Ok(0)
            }
            Err(e) => Err(e),
        }
    }
''')],'''
    let (mut l, a) = server().await;
    let c = RaknetSocket::connect(&a).await.unwrap();
    let s = l.accept().await.unwrap();
    ms(200).await;
    PORT.store(c.local_addr().unwrap().port() as usize, SeqCst);
    REFUSE.store(1, SeqCst);
    for k in 1..3 { c.send(&msg(k, 40), ReliableOrdered).await.unwrap(); ms(60).await; }
    s.send(&msg(50, 40), ReliableOrdered).await.unwrap();
    ms(200).await;
    REFUSE.store(0, SeqCst);
    ms(300).await;
    for k in 3..20 { c.send(&msg(k, 40), ReliableOrdered).await.unwrap(); ms(20).await; }
    let got: Vec<u32> = drain(&s, 2500).await.iter().map(|m| id(m)).collect();
    ok(got.len() == 19, "everything of the client arrives");
    within(3000, "flush()", c.flush()).await.unwrap();
    ms(12000).await;
    c.send(&msg(90, 40), ReliableOrdered).await.unwrap();
    ok(within(4000, "recv()", s.recv()).await.is_ok(), "the connection still works");
    let n = drain(&c, 2000).await.len();
    ok(n == 1, "everything of the server arrives");
''',True)

bug('c25-connect-fails','C25','the operating system refuses to send at the moment of request 2',
'connect() returns an error when request 2 cannot be sent, instead of trying again',
[('socket.rs','''            match s.send_to(&buf, addr).await {
                Ok(_) => {}
                Err(e) => {
                    raknet_log_error!("udp socket sendto error {}", e);
                    tokio::time::sleep(std::time::Duration::from_secs(2)).await;
                    continue;
                }
            };
''','''            match s.send_to(&buf, addr).await {
                Ok(_) => {}
                Err(e) => {
                    raknet_log_error!("udp socket sendto error {}", e);
                    return Err(RaknetError::SocketError);
                }
            };
''')],'''
    let (_l, a) = server().await;
    let p = proxy(a, move |up, _, b| {
        if !up && b[0] == 6 {
            REFUSE.store(1, SeqCst);
            return vec![50];
        }
        vec![0]
    }).await;
    // refused: what the client sends to the proxy, only request 2 comes while it is
    PORT.store(p.port() as usize, SeqCst);
    tokio::spawn(async { loop { if REFUSE.load(SeqCst) == 1 { break; } ms(5).await; } ms(500).await; REFUSE.store(9, SeqCst); });
    let r = within(12000, "connect()", RaknetSocket::connect(&p)).await;
    ok(r.is_ok(), "connect() goes on when the operating system refuses once");
''',True)

bug('c25-collect-keeps','C25','a connection of the listener ends while datagrams to its peer cannot be sent',
'the collector keeps the session of a peer that could not be told of the end: the address is taken for ever',
[('server.rs','''                let mut sessions = sessions.lock().await;
                if sessions.contains_key(&addr) {
                    match socket.send_to(&[PacketID::Disconnect.to_u8()], addr).await {
                        Ok(_) => {}
                        Err(e) => {
                            raknet_log_error!("udp socket send_to error : {}", e);
                        }
                    };
''','''                let mut sessions = sessions.lock().await;
                if sessions.contains_key(&addr) {
                    if let Err(e) = socket.send_to(&[PacketID::Disconnect.to_u8()], addr).await {
                        raknet_log_error!("udp socket send_to error : {}", e);
                        continue;
                    }
''')],'''
    let (mut l, a) = server().await;
    let r = Raw::connect(a, 10, 1400).await;
    let s = l.accept().await.unwrap();
    ms(100).await;
    REFUSE.store(2, SeqCst);
    s.close().await.unwrap();
    ms(500).await;
    REFUSE.store(0, SeqCst);
    drop(s);
    let at = r.s.local_addr().unwrap();
    drop(r);
    let q = tokio::net::UdpSocket::bind(at).await.unwrap();
    let mut b = [0u8; 2000];
    let mut got = false;
    for _ in 0..20 {
        q.send_to(&req1(10, 1400), a).await.unwrap();
        q.send_to(&req2(1400, 4711), a).await.unwrap();
        while let Ok(Ok((n, _))) = tokio::time::timeout(std::time::Duration::from_millis(100), q.recv_from(&mut b)).await {
            if n > 0 && b[0] == 8 { got = true; }
        }
    }
    ok(got, "the peer can connect again");
''',True)

bug('c25-close-stops-telling','C25','a listener is closed while datagrams to one of its peers cannot be sent',
'closing a listener stops at the first peer that cannot be told: the others are not told and close() does not return',
[('server.rs','''                match socket.send_to(&[PacketID::Disconnect.to_u8()], i.0).await {
                    Ok(_) => {}
                    Err(e) => {
                        raknet_log_error!("udp socket send_to error : {}", e);
                    }
                };
''','''                if let Err(e) = socket.send_to(&[PacketID::Disconnect.to_u8()], i.0).await {
                    raknet_log_error!("udp socket send_to error : {}", e);
                    return;
                }
''')],'''
    let (mut l, a) = server().await;
    let c1 = RaknetSocket::connect(&a).await.unwrap();
    let s1 = l.accept().await.unwrap();
    let c2 = RaknetSocket::connect(&a).await.unwrap();
    let s2 = l.accept().await.unwrap();
    ms(200).await;
    REFUSE.store(2, SeqCst);
    let r = tokio::spawn(async move { l.close().await });
    ms(1500).await;
    REFUSE.store(0, SeqCst);
    within(4000, "close() of the listener", r).await.unwrap().unwrap();
    ok(within(4000, "recv()", s1.recv()).await.is_err() && within(4000, "recv()", s2.recv()).await.is_err(), "its connections end");
    ok(RaknetListener::bind(&a).await.is_ok(), "the address is free");
    drop((c1, c2));
''',True)

bug('c12-refused-goes-on','C12','a client goes on with request 2 after its version was refused',
'the version of a refused request 1 is remembered, so that a client which goes on gets a connection with that version',
[('server.rs','''                        if !RAKNET_PROTOCOL_VERSION_LIST
                            .as_slice()
                            .contains(&req.protocol_version)
                        {
''','''                        let known = RAKNET_PROTOCOL_VERSION_LIST
                            .as_slice()
                            .contains(&req.protocol_version);
                        version_map
                            .lock()
                            .await
                            .entry(addr.to_string())
                            .or_insert(req.protocol_version);

                        if !known {
''')],'''
    let (_l, a) = server().await;
    let q = tokio::net::UdpSocket::bind("127.0.0.1:0").await.unwrap();
    q.send_to(&req1(9, 1400), a).await.unwrap();
    ms(50).await;
    q.send_to(&req2(1400, 4711), a).await.unwrap();
    let mut b = [0u8; 2000];
    let mut got = false;
    while let Ok(Ok((n, _))) = tokio::time::timeout(std::time::Duration::from_millis(300), q.recv_from(&mut b)).await {
        if n > 0 && b[0] == 8 { got = true; }
    }
    ok(!got, "no connection for a refused version");
''')
