import b2
from b2 import HEAD, D
BUGS=[]
def get(id): return [b for b in b2.BUGS if b['id']==id][0]
def bug(id,p,needs,breaks,edits,demo,head=None):
    d=D(demo)
    if head: d=d.replace('#[tokio::main]',head)
    BUGS.append(dict(id=id,p=p,needs=needs,breaks=breaks,edits=edits,demo=d))
o=get('c13-close-waits')
BUGS.append(dict(o,edits=[('socket.rs','''        if !self.close_notifier.is_closed() {
            self.sendq
                .write()
                .await
                .insert(Reliability::Reliable, &[PacketID::Disconnect.to_u8()])?;
''','''        if self.flush().await.is_ok() {
            self.sendq
                .write()
                .await
                .insert(Reliability::Reliable, &[PacketID::Disconnect.to_u8()])?;
''')]))
o=get('c13-one-disconnect')
bug(o['id'],o['p'],'the datagrams of the first moment after closing lost by the network',o['breaks'],
[('socket.rs','for _ in 0..10 {','for _ in 0..1 {')],'''
    let (mut l, a) = server().await;
    let n = Arc::new(AtomicUsize::new(0));
    let p = proxy(a, move |_, _, b| { if b[0] == 0x15 && n.fetch_add(1, SeqCst) == 0 { return vec![]; } if b[0] >= 0x80 && b.len() > 4 && b.ends_with(&[0x15]) { return vec![]; } vec![0] }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let s = l.accept().await.unwrap();
    ms(200).await;
    c.close().await.unwrap();
    ok(within(11500, "recv() of the peer", s.recv()).await.is_err(), "the peer learns of the closing");
''')
o=get('c16-does-not-wait')
bug(o['id'],o['p'],o['needs'],o['breaks'],o['edits'],'''
    for _ in 0..3 {
        let (mut l, a) = server().await;
        let mut held = vec![];
        for _ in 0..5 {
            let c = RaknetSocket::connect(&a).await.unwrap();
            held.push((c, l.accept().await.unwrap()));
        }
        within(8000, "close()", l.close()).await.unwrap();
        ok(RaknetListener::bind(&a).await.is_ok(), "the address can be bound again");
        std::mem::forget(held);
    }
''')
o=get('c18-collect-overflow')
bug(o['id'],o['p'],o['needs'],o['breaks'],o['edits'],'''
    let (mut l, a) = server().await;
    let mut rs = vec![];
    let mut ss = vec![];
    for _ in 0..40 {
        rs.push(Raw::connect(a, 10, 1400).await);
        ss.push(l.accept().await.unwrap());
    }
    // all ticks fall together
    for s in &ss { s.close().await.unwrap(); }
    std::thread::sleep(std::time::Duration::from_millis(200));
    ms(400).await;
    let mut bad = 0;
    for r in rs.iter_mut() {
        r.collect(5, false).await;
        r.send(&req1(10, 1400)).await;
        r.collect(15, false).await;
        r.send(&req2(1400, 7)).await;
        if !r.collect(15, false).await.iter().any(|b| b[0] == 8) { bad += 1; }
        let _ = tokio::time::timeout(std::time::Duration::from_millis(100), l.accept()).await;
    }
    ok(bad == 0, &format!("every peer can connect again: {bad} can not"));
''','#[tokio::main(flavor = "current_thread")]')
BUGS.append(get('c23-min-boundary'))
bug('c15-collect-by-ip','C15','two connections from the same IP address, one of them ends while the other goes on',
'when a connection ends, the sessions of every peer with the same IP address are forgotten',
[('server.rs','''                    sessions.remove(&addr);
                    raknet_log_debug!("collect socket : {}", addr);
                }
            }

            let mut sessions''','''                    sessions.retain(|p, _| p.ip() != addr.ip());
                    raknet_log_debug!("collect socket : {}", addr);
                }
            }

            let mut sessions''')],'''
    let (mut l, a) = server().await;
    let c1 = RaknetSocket::connect(&a).await.unwrap();
    let s1 = l.accept().await.unwrap();
    let c2 = RaknetSocket::connect(&a).await.unwrap();
    let s2 = l.accept().await.unwrap();
    c1.close().await.unwrap();
    ok(within(8000, "recv() of the closed connection", s1.recv()).await.is_err(), "the first connection ends");
    ms(500).await;
    c2.send(&msg(1, 20), ReliableOrdered).await.unwrap();
    ok(within(4000, "recv() of the other connection", s2.recv()).await.is_ok(), "the other connection goes on");
''')
