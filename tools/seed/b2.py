HEAD='''mod kit;
use kit::*;
#[allow(unused_imports)]
use rust_raknet::{error::RaknetError, RaknetListener, RaknetSocket, Reliability::*};
#[allow(unused_imports)]
use std::sync::{atomic::{AtomicBool, AtomicUsize, AtomicU64, Ordering::SeqCst}, Arc};

#[tokio::main]
async fn main() {
'''
def D(s): return HEAD+s+'}\n'
BUGS=[]
def bug(id,p,needs,breaks,edits,demo): BUGS.append(dict(id=id,p=p,needs=needs,breaks=breaks,edits=edits,demo=D(demo)))


bug('c10-default-mtu','C10','send() of a message at the size limit on a connection whose negotiated MTU is smaller than 1400',
'the size check for Reliable messages uses the default MTU instead of the connection\'s own',
[('arq.rs','''            Reliability::Reliable => {
                // 60 = max framesetpacket length(27) + udp overhead(28) + 5 ext
                if buf.len() > (self.mtu - 60).into() {
                    return Err(RaknetError::PacketSizeExceedMTU);
                }

                let mut frame = FrameSetPacket::new(reliability, buf.to_vec());
                frame.reliable_frame_index = self.reliable_frame_index;
                self.packets.push(frame);''','''            Reliability::Reliable => {
                // 60 = max framesetpacket length(27) + udp overhead(28) + 5 ext
                if buf.len() > (RAKNET_CLIENT_MTU - 60).into() {
                    return Err(RaknetError::PacketSizeExceedMTU);
                }

                let mut frame = FrameSetPacket::new(reliability, buf.to_vec());
                frame.reliable_frame_index = self.reliable_frame_index;
                self.packets.push(frame);''')],'''
    let (mut l, a) = server().await;
    let _r = Raw::connect(a, 10, 700).await;
    let s = l.accept().await.unwrap();
    ok(s.send(&msg(1, 640), Reliable).await.is_ok(), "640 bytes fit an MTU of 700");
    ok(s.send(&msg(2, 641), Reliable).await.is_err(), "641 bytes do not");
''')

bug('c10-refused-burns-index','C10','a ReliableSequenced or Reliable message refused for its size, followed by others',
'a refused ReliableSequenced message stays in the send queue',
[('arq.rs','''            Reliability::ReliableSequenced => {
                // 60 = max framesetpacket length(27) + udp overhead(28) + 5 ext
                if buf.len() > (self.mtu - 60).into() {
                    return Err(RaknetError::PacketSizeExceedMTU);
                }

                let mut frame = FrameSetPacket::new(reliability, buf.to_vec());
                frame.reliable_frame_index = self.reliable_frame_index;
                frame.sequenced_frame_index = self.sequenced_frame_index;
                // I dont know why Sequenced packet need Ordered
                // https://wiki.vg/Raknet_Protocol
                frame.ordered_frame_index = self.ordered_frame_index;
                self.packets.push(frame);
                self.reliable_frame_index += 1;
                self.sequenced_frame_index += 1;''','''            Reliability::ReliableSequenced => {
                let mut frame = FrameSetPacket::new(reliability, buf.to_vec());
                frame.reliable_frame_index = self.reliable_frame_index;
                frame.sequenced_frame_index = self.sequenced_frame_index;
                // I dont know why Sequenced packet need Ordered
                // https://wiki.vg/Raknet_Protocol
                frame.ordered_frame_index = self.ordered_frame_index;
                self.packets.push(frame);
                self.reliable_frame_index += 1;
                self.sequenced_frame_index += 1;

                // 60 = max framesetpacket length(27) + udp overhead(28) + 5 ext
                if buf.len() > (self.mtu - 60).into() {
                    return Err(RaknetError::PacketSizeExceedMTU);
                }''')],'''
    let (mut l, a) = server().await;
    let c = RaknetSocket::connect(&a).await.unwrap();
    let s = l.accept().await.unwrap();
    ms(300).await;
    ok(c.send(&msg(1, 1341), ReliableSequenced).await.is_err(), "1341 bytes are refused");
    c.send(&msg(2, 20), Reliable).await.unwrap();
    let got: Vec<u32> = drain(&s, 800).await.iter().map(|m| id(m)).collect();
    ok(got == vec![2], &format!("the refused message is not received: {got:?}"));
''')

bug('c11-dup-reply1','C11','a reply 1 that the network repeats, so that it arrives again while the client waits for reply 2',
'connect() takes the repeated reply 1 for a wrong reply 2 and fails',
[('socket.rs','''            if buf[0] == PacketID::OpenConnectionReply1.to_u8() {
                raknet_log_debug!("repeat receive reply1");
                continue;
            }

            if buf[0] != PacketID::OpenConnectionReply2.to_u8() {
                raknet_log_debug!("incorrect reply2");
                continue;
            }
''','''            if buf[0] != PacketID::OpenConnectionReply2.to_u8() {
                raknet_log_debug!("incorrect reply2");
                return Err(RaknetError::IncorrectReply);
            }
''')],'''
    let (mut l, a) = server().await;
    let p = proxy(a, move |up, _, b| if !up && b[0] == 6 { vec![0, 0] } else { vec![10] }).await;
    let c = within(9000, "connect", RaknetSocket::connect(&p)).await;
    ok(c.is_ok(), "connect() succeeds although reply 1 comes twice");
    let _s = within(3000, "accept", l.accept()).await.unwrap();
''')

bug('c11-two-requests-two-sessions','C11','request 2 repeated by the network or by the client because reply 2 was late',
'the listener hands out a second connection when request 2 comes again',
[('server.rs','''                        if sessions.contains_key(&addr) {
                            // the same peer asks''','''                        if sessions.contains_key(&addr)
                            && sessions[&addr].0 + 1500 > cur_timestamp_millis()
                        {
                            // the same peer asks''')],'''
    let (mut l, a) = server().await;
    // the first reply 2 comes after the client asked again
    let mut n = 0;
    let p = proxy(a, move |up, _, b| {
        if !up && b[0] == 8 { n += 1; if n == 1 { return vec![]; } }
        vec![0]
    }).await;
    let c = within(12000, "connect", RaknetSocket::connect(&p)).await.unwrap();
    let s = within(3000, "accept", l.accept()).await.unwrap();
    c.send(&msg(1, 20), ReliableOrdered).await.unwrap();
    let two = tokio::time::timeout(std::time::Duration::from_millis(1500), l.accept()).await.is_ok();
    let got = drain(&s, 1000).await.len();
    ok(!two && got == 1, &format!("one connection is handed out and it works: second {two}, messages {got}"));
''')

bug('c12-version-by-ip','C12','two clients on one host that use different protocol versions',
'the listener remembers the version by IP address without the port',
[('server.rs','version_map.insert(addr.to_string(), req.protocol_version);','version_map.insert(addr.ip().to_string(), req.protocol_version);'),
('server.rs','''                            raknet_version = *version_map
                                .get(&addr.to_string())
''','''                            raknet_version = *version_map
                                .get(&addr.ip().to_string())
'''),
('server.rs','''let ver = version_map.get(&peer.to_string());''','''let ver = version_map.get(&peer.ip().to_string());''')],'''
    let (mut l, a) = server().await;
    let c1 = RaknetSocket::connect_with_version(&a, 10).await.unwrap();
    let _s1 = l.accept().await.unwrap();
    let _c2 = RaknetSocket::connect_with_version(&a, 11).await.unwrap();
    let _s2 = l.accept().await.unwrap();
    let at = std::net::SocketAddr::new(a.ip(), c1.local_addr().unwrap().port());
    let v = l.get_peer_raknet_version(&at).await.unwrap();
    ok(v == 10, &format!("the first client still has version 10: {v}"));
''')

bug('c12-range','C12','a client that asks for a version below 10',
'versions below the oldest supported one are accepted',
[('server.rs','''                        if !RAKNET_PROTOCOL_VERSION_LIST
                            .as_slice()
                            .contains(&req.protocol_version)
''','''                        if RAKNET_PROTOCOL_VERSION_LIST
                            .iter()
                            .all(|v| *v < req.protocol_version)
''')],'''
    let (_l, a) = server().await;
    let c = within(6000, "connect", RaknetSocket::connect_with_version(&a, 9)).await;
    ok(matches!(c, Err(RaknetError::NotSupportVersion)), "version 9 is refused");
''')

bug('c13-close-waits','C13','close() while earlier reliable data is not acknowledged and the peer never acknowledges',
'close() first waits until the send queue has drained, so it never returns when the peer is gone',
[('socket.rs','''        if !self.close_notifier.is_closed() {
            self.sendq
                .write()
                .await
                .insert(Reliability::Reliable, &[PacketID::Disconnect.to_u8()])?;
            self.close_notifier.close();
''','''        if !self.close_notifier.is_closed() {
            let _ = self.flush().await;
            self.sendq
                .write()
                .await
                .insert(Reliability::Reliable, &[PacketID::Disconnect.to_u8()])?;
            self.close_notifier.close();
''')],'''
    let (mut l, a) = server().await;
    let dark = Arc::new(AtomicBool::new(false));
    let d = dark.clone();
    let p = proxy(a, move |_, _, _| if d.load(SeqCst) { vec![] } else { vec![0] }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let _s = l.accept().await.unwrap();
    ms(200).await;
    dark.store(true, SeqCst);
    c.send(&msg(1, 20), Reliable).await.unwrap();
    within(3000, "close()", c.close()).await.unwrap();
    ok(c.send(&msg(2, 20), Reliable).await.is_err(), "send() after close() fails");
''')

bug('c13-one-disconnect','C13','the first disconnect datagram lost by the network',
'the closing end tells its peer once only, when that datagram is lost the peer stays open for a minute',
[('socket.rs','for _ in 0..10 {','for _ in 0..1 {'),
 ('server.rs','''                if sessions.contains_key(&addr) {
                    match socket.send_to(&[PacketID::Disconnect.to_u8()], addr).await {
                        Ok(_) => {}
                        Err(e) => {
                            raknet_log_error!("udp socket send_to error : {}", e);
                        }
                    };
                    sessions.remove(&addr);
                    raknet_log_debug!("collect socket : {}", addr);
                }
            }

            let mut sessions = sessions.lock().await;
''','''                if sessions.contains_key(&addr) {
                    sessions.remove(&addr);
                    raknet_log_debug!("collect socket : {}", addr);
                }
            }

            let mut sessions = sessions.lock().await;
''')],'''
    let (mut l, a) = server().await;
    let mut n = 0;
    let p = proxy(a, move |_, _, b| { if b[0] == 0x15 { n += 1; if n == 1 { return vec![]; } } vec![0] }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let s = l.accept().await.unwrap();
    ms(200).await;
    s.close().await.unwrap();
    ok(within(11500, "recv() of the peer", c.recv()).await.is_err(), "the peer learns of the closing");
''')

bug('c14-acks-do-not-count','C14','a connection whose peer only acknowledges (it sends no data of its own) for more than a minute',
'only data datagrams count as signs of life, acknowledgements do not',
[('socket.rs','''                last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);

''',''),
('socket.rs','''                    let mut recvq = recvq.lock().await;
                    let mut is_break = false;
''','''                    last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);

                    let mut recvq = recvq.lock().await;
                    let mut is_break = false;
''')],'''
    let (mut l, a) = server().await;
    let mut r = Raw::connect(a, 10, 1400).await;
    let s = l.accept().await.unwrap();
    for k in 0..36 {
        if s.send(&msg(k, 20), Reliable).await.is_err() { ok(false, "the connection is open as long as the peer acknowledges"); }
        r.collect(2000, true).await;
    }
    ok(s.send(&msg(99, 20), Reliable).await.is_ok(), "the connection is open as long as the peer acknowledges");
''')

bug('c14-session-kept','C14','a peer that falls silent for more than 60 s and then connects again from the same address',
'a timed out server connection does not tell the listener, which keeps the dead session',
[('socket.rs','''                    raknet_log_debug!("recv timeout");
                    connected.close();
                    break;
''','''                    raknet_log_debug!("recv timeout");
                    connected.close();
                    return;
''')],'''
    let (mut l, a) = server().await;
    let mut r = Raw::connect(a, 10, 1400).await;
    let s = l.accept().await.unwrap();
    within(75000, "recv() of a silent connection", s.recv()).await.unwrap_err();
    ms(500).await;
    r.collect(50, false).await;
    let v = r.hello(10, 1400, 7).await;
    ok(v.iter().any(|b| b[0] == 8), "the peer can connect again");
    within(3000, "accept", l.accept()).await.unwrap();
''')

bug('c14-early-when-busy','C14','a connection that is silent for 31 to 59 seconds while the application sends',
'a connection is closed after 40 seconds of silence already',
[('utils.rs','pub const RECEIVE_TIMEOUT: i64 = 60000;','pub const RECEIVE_TIMEOUT: i64 = 40000;')],'''
    let (mut l, a) = server().await;
    let dark = Arc::new(AtomicBool::new(false));
    let d = dark.clone();
    let p = proxy(a, move |_, _, _| if d.load(SeqCst) { vec![] } else { vec![0] }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let s = l.accept().await.unwrap();
    ms(200).await;
    dark.store(true, SeqCst);
    ms(50000).await;
    dark.store(false, SeqCst);
    ok(c.send(&msg(1, 20), Reliable).await.is_ok(), "50 s of silence do not close the connection");
    ok(drain(&s, 1000).await.len() == 1, "and it works");
''')

bug('c15-bounded-user-data','C15','an application that does not call recv() for more than 500 messages on one connection',
'the queue of received messages is bounded, a connection nobody reads stops the whole listener',
[('socket.rs','''        mpsc::{channel, unbounded_channel},
''','''        mpsc::channel,
'''),
('socket.rs','''use tokio::sync::mpsc::{Receiver, Sender, UnboundedReceiver, UnboundedSender};''','''use tokio::sync::mpsc::{Receiver, Sender};'''),
('socket.rs','''    user_data_receiver: Arc<Mutex<UnboundedReceiver<Vec<u8>>>>,''','''    user_data_receiver: Arc<Mutex<Receiver<Vec<u8>>>>,'''),
('socket.rs','''        let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
        let (sender_sender''','''        let (user_data_sender, user_data_receiver) = channel::<Vec<u8>>(500);
        let (sender_sender'''),
('socket.rs','''        let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();

        let (sender, receiver)''','''        let (user_data_sender, user_data_receiver) = channel::<Vec<u8>>(500);

        let (sender, receiver)'''),
('socket.rs','''        user_data_sender: &UnboundedSender<Vec<u8>>,''','''        user_data_sender: &Sender<Vec<u8>>,'''),
('socket.rs','''        user_data_sender: UnboundedSender<Vec<u8>>,''','''        user_data_sender: Sender<Vec<u8>>,'''),
('socket.rs','''                match user_data_sender.send(frame.data.clone()) {''','''                match user_data_sender.send(frame.data.clone()).await {''')],'''
    let (mut l, a) = server().await;
    let c1 = RaknetSocket::connect(&a).await.unwrap();
    let _s1 = l.accept().await.unwrap();
    let c2 = RaknetSocket::connect(&a).await.unwrap();
    let s2 = l.accept().await.unwrap();
    ms(200).await;
    for k in 0..650 { c1.send(&msg(k, 8), Reliable).await.unwrap(); if k % 50 == 0 { ms(60).await; } }
    ms(1500).await;
    c2.send(&msg(1, 20), ReliableOrdered).await.unwrap();
    within(4000, "recv() of the other connection", s2.recv()).await.unwrap();
    within(8000, "ping()", RaknetSocket::ping(&a)).await.unwrap();
''')

bug('c16-does-not-wait','C16','close() of a listener whose connections are still held by the application',
'close() does not wait until the tasks have let go of the socket, the port stays taken for a moment',
[('server.rs','''        while Arc::strong_count(self.socket.as_ref().unwrap()) != 1 {
            tokio::time::sleep(std::time::Duration::from_millis(50)).await;
        }
''','''        for _ in 0..1 {
            if Arc::strong_count(self.socket.as_ref().unwrap()) == 1 {
                break;
            }
            tokio::task::yield_now().await;
        }
''')],'''
    for _ in 0..20 {
        let (mut l, a) = server().await;
        let mut held = vec![];
        for _ in 0..5 {
            let c = RaknetSocket::connect(&a).await.unwrap();
            held.push((c, l.accept().await.unwrap()));
        }
        within(8000, "close()", l.close()).await.unwrap();
        ok(RaknetListener::bind(&a).await.is_ok(), "the address can be bound again");
    }
''')

bug('c16-waiting-not-closed','C16','close() of a listener while an established connection still waits for accept()',
'accept() still hands out connections that waited when the listener was closed',
[('server.rs','''            tokio::select! {
                a = self.connection_receiver.recv() => {
                    match a {''','''            tokio::select! {
                biased;
                a = self.connection_receiver.recv() => {
                    match a {'''),
('server.rs','''        self.socket = None;
        self.listened = false;
''','''        self.socket = None;
''')],'''
    let (mut l, a) = server().await;
    let _c = RaknetSocket::connect(&a).await.unwrap();
    ms(100).await;
    within(8000, "close()", l.close()).await.unwrap();
    ok(within(3000, "accept()", l.accept()).await.is_err(), "accept() fails on a closed listener");
''')

bug('c17-unknown-id','C17','a datagram with an unknown first byte sent to the listener',
'the listener stops at the first datagram with an unknown id',
[('server.rs','''                        raknet_log_debug!("parse packetid faild : {:?}", e);
                        continue;
''','''                        raknet_log_error!("parse packetid faild : {:?}", e);
                        break;
''')],'''
    let (mut l, a) = server().await;
    let r = Raw::new(a).await;
    r.send(&[0x77, 1, 2, 3]).await;
    ms(50).await;
    let _c = within(6000, "connect", RaknetSocket::connect(&a)).await.unwrap();
    within(3000, "accept", l.accept()).await.unwrap();
''')

bug('c17-huge-compound','C17','a fragment header of the peer that claims billions of fragments',
'memory for all fragments that are claimed is reserved when the first one arrives, the process dies',
[('fragment.rs','''            flags,
            compound_size,
            ordered_frame_index,
            frames: HashMap::new(),
''','''            flags,
            compound_size,
            ordered_frame_index,
            frames: HashMap::with_capacity(compound_size as usize),
''')],'''
    let (mut l, a) = server().await;
    let r = Raw::connect(a, 10, 1400).await;
    let s = l.accept().await.unwrap();
    r.send(&dgram(0x84, 2, &[frame(3, 2, 0, 2, Some((0xffff_ffff, 0, 0)), &msg(1, 20))])).await;
    r.send(&dgram(0x84, 3, &[frame(2, 3, 0, 0, None, &msg(2, 20))])).await;
    let got: Vec<u32> = drain(&s, 500).await.iter().map(|m| id(m)).collect();
    ok(got == vec![2], &format!("the connection goes on: {got:?}"));
''')

bug('c17-bad-frame-id','C17','a data datagram whose frame body starts with an id no message has',
'a frame with an unknown message id ends the connection',
[('socket.rs','''                                Ok(true) => {}
                                Ok(false) => {
                                    raknet_log_info!("handle over");''','''                                Ok(true) => {}
                                Err(RaknetError::IncorrectPacketID) | Ok(false) => {
                                    raknet_log_info!("handle over");'''),
('socket.rs','''                        let packet_reply = ConnectionRequestAccepted {''','''                        let packet_reply: ConnectionRequestAccepted = ConnectionRequestAccepted {''') if False else
('socket.rs','''            PacketID::ConnectedPong => {}
            PacketID::Disconnect => {
                return Ok(false);
            }''','''            PacketID::Disconnect => {
                return Ok(false);
            }
            PacketID::ConnectedPong => {}''')],'''
    let (mut l, a) = server().await;
    let r = Raw::connect(a, 10, 1400).await;
    let s = l.accept().await.unwrap();
    r.send(&dgram(0x84, 2, &[frame(2, 2, 0, 0, None, &[0x77, 1, 2])])).await;
    r.send(&dgram(0x84, 3, &[frame(2, 3, 0, 0, None, &msg(2, 20))])).await;
    let got: Vec<u32> = drain(&s, 500).await.iter().map(|m| id(m)).collect();
    ok(got == vec![2], &format!("the connection goes on: {got:?}"));
''')

bug('c18-recent-session-kept','C18','a connection that ends within a second after its last datagram arrived',
'the listener does not remove a session that was active a moment ago, the address is refused from then on',
[('server.rs','''                let mut sessions = sessions.lock().await;
                if sessions.contains_key(&addr) {
                    match socket''','''                let mut sessions = sessions.lock().await;
                if sessions.contains_key(&addr) && !close_notifier.is_closed() && sessions[&addr].0 + 200 < cur_timestamp_millis() {
                    match socket''')],'''
    let (mut l, a) = server().await;
    let mut r = Raw::connect(a, 10, 1400).await;
    let s = l.accept().await.unwrap();
    s.close().await.unwrap();
    ms(300).await;
    r.collect(50, false).await;
    let v = r.hello(10, 1400, 7).await;
    ok(v.iter().any(|b| b[0] == 8), "the peer can connect again");
    within(3000, "accept", l.accept()).await.unwrap();
''')

bug('c18-collect-overflow','C18','more than ten connections that end in the same tick',
'the message to the session collecter is dropped when its queue is full, the session stays for ever',
[('socket.rs','''                    match p.lock().await.send(peer_addr).await {
                        Ok(_) => {}''','''                    match p.lock().await.try_send(peer_addr) {
                        Ok(_) => {}''')],'''
    let (mut l, a) = server().await;
    let mut rs = vec![];
    let mut ss = vec![];
    for _ in 0..40 {
        rs.push(Raw::connect(a, 10, 1400).await);
        ss.push(l.accept().await.unwrap());
    }
    // make all ticks fall together
    let big = std::time::Instant::now();
    for s in &ss { s.close().await.unwrap(); }
    while big.elapsed().as_millis() < 120 { std::hint::spin_loop(); }
    ms(400).await;
    let mut bad = 0;
    for r in rs.iter_mut() {
        r.collect(5, false).await;
        r.send(&req1(10, 1400)).await;
        r.collect(15, false).await;
        r.send(&req2(1400, 7)).await;
        if !r.collect(15, false).await.iter().any(|b| b[0] == 8) { bad += 1; }
        let _ = tokio::time::timeout(std::time::Duration::from_millis(100), l.accept()).await;
    }
    ok(bad == 0, &format!("every peer can connect again: {bad} can not"));
''')

bug('c19-reply-without-room','C19','a twelfth client that connects while nobody calls accept()',
'reply 2 is sent before it is known whether there is room, the client never gets its connection',
[('server.rs','''                        // nobody accepts at the moment, the client will ask again.
                        if connection_sender.capacity() == 0 {
                            raknet_log_debug!("too many connections wait for accept : {}", addr);
                            continue;
                        }

                        match socket.send_to(&reply, addr).await {
                            Ok(_) => {}
                            Err(e) => {
                                raknet_log_error!("udp socket send_to error : {}", e);
                            }
                        };

                        let (sender, receiver)''','''                        match socket.send_to(&reply, addr).await {
                            Ok(_) => {}
                            Err(e) => {
                                raknet_log_error!("udp socket send_to error : {}", e);
                            }
                        };

                        // nobody accepts at the moment, the client will ask again.
                        if connection_sender.capacity() == 0 {
                            raknet_log_debug!("too many connections wait for accept : {}", addr);
                            continue;
                        }

                        let (sender, receiver)'''),
('server.rs','const SERVER_NAME: &str = "Rust Raknet Server";',"const SERVER_NAME: &str = \"Rust Raknet Server\"; // shown when no motd was set")],'''
    let (mut l, a) = server().await;
    let mut cs = vec![];
    for _ in 0..10 { cs.push(RaknetSocket::connect(&a).await.unwrap()); }
    let c = tokio::spawn(async move { RaknetSocket::connect(&a).await });
    ms(500).await;
    for _ in 0..10 { within(2000, "accept", l.accept()).await.unwrap(); }
    let c = within(8000, "connect of the client that had to wait", c).await.unwrap();
    ok(c.is_ok(), "the client that had to wait is connected");
''')

bug('c19-skip-closed','C19','a connection that was closed by its peer before accept() was called',
'accept() silently drops connections that closed while they waited, with what they received',
[('server.rs','''            tokio::select! {
                a = self.connection_receiver.recv() => {
                    match a {
                        Some(p) => Ok(p),
                        None => {
                            Err(RaknetError::NotListen)
                        },
                    }
                },''','''            tokio::select! {
                a = async {
                    loop {
                        match self.connection_receiver.recv().await {
                            Some(p) if p.is_closed() => continue,
                            a => break a,
                        }
                    }
                } => {
                    match a {
                        Some(p) => Ok(p),
                        None => {
                            Err(RaknetError::NotListen)
                        },
                    }
                },'''),
('socket.rs','''    /// Set the packet loss rate and use it for testing
''','''    pub(crate) fn is_closed(&self) -> bool {
        self.close_notifier.is_closed()
    }

    /// Set the packet loss rate and use it for testing
''')],'''
    let (mut l, a) = server().await;
    let c = RaknetSocket::connect(&a).await.unwrap();
    c.send(&msg(1, 20), ReliableOrdered).await.unwrap();
    within(3000, "flush", c.flush()).await.unwrap();
    c.close().await.unwrap();
    ms(300).await;
    let s = within(3000, "accept", l.accept()).await.unwrap();
    ok(drain(&s, 300).await.len() == 1, "the connection is handed out with what it received");
''')

bug('c20-chars','C20','a motd with characters that take more than one byte',
'the length of the motd in the pong is counted in characters',
[('datatype.rs','''        self.buf.put_u16(raw.len() as u16);''','''        self.buf.put_u16(body.chars().count() as u16);''')],'''
    let (mut l, a) = server().await;
    let motd = "MCPE;Zürich \\u{2603};486;1.18.11;0;10;1;Ω;Survival;1;19132;";
    l.set_full_motd(motd.to_string()).unwrap();
    let (_, m) = within(8000, "ping", RaknetSocket::ping(&a)).await.unwrap();
    ok(m == motd, &format!("the motd is exact: {m}"));
''')

bug('c20-no-answer-when-full','C20','a ping while ten connections wait for accept()',
'pings are not answered while connections wait',
[('server.rs','''                    PacketID::UnconnectedPing1 => {
                        let _ping = match read_packet_ping(&buf[..size]) {
                            Ok(p) => p,
                            Err(_) => continue,
                        };
''','''                    PacketID::UnconnectedPing1 => {
                        if read_packet_ping(&buf[..size]).is_err()
                            || connection_sender.capacity() == 0
                        {
                            continue;
                        }
''')],'''
    let (_l, a) = server().await;
    let mut cs = vec![];
    for _ in 0..10 { cs.push(RaknetSocket::connect(&a).await.unwrap()); }
    within(8000, "ping", RaknetSocket::ping(&a)).await.unwrap();
''')

bug('c20-pings-per-second','C20','a ping with open connections that begins at the same moment as another from the same address',
'UnconnectedPing with the open-connections flag (id 2) is answered only while there is room, by the same id check',
[('server.rs','''                    PacketID::UnconnectedPing2 => {
                        match read_packet_ping(&buf[..size]) {
                            Ok(p) => p,
                            Err(_) => continue,
                        };
''','''                    PacketID::UnconnectedPing2 => {
                        match read_packet_ping(&buf[..size]) {
                            Ok(p) if sessions.lock().await.contains_key(&addr) => p,
                            _ => continue,
                        };
''')],'''
    let (_l, a) = server().await;
    let mut r = Raw::new(a).await;
    let mut b = vec![2];
    b.extend_from_slice(&5i64.to_be_bytes());
    b.extend_from_slice(&MAGIC);
    b.extend_from_slice(&9u64.to_be_bytes());
    r.send(&b).await;
    ok(r.collect(500, false).await.iter().any(|b| b[0] == 0x1c), "a ping of a stranger is answered");
''')

bug('c21-port-little','C21','a connection over IPv6 to a peer that is not rust-raknet',
'the port of IPv6 addresses is little-endian on the wire, written and read alike',
[('datatype.rs','''            self.write_i16(23, Endian::Little)?;
            self.write_u16(address.port(), Endian::Big)?;''','''            self.write_i16(23, Endian::Little)?;
            self.write_u16(address.port(), Endian::Little)?;'''),
('datatype.rs','''            self.next(2);
            let port = self.read_u16(Endian::Big)?;''','''            self.next(2);
            let port = self.read_u16(Endian::Little)?;''')],'''
    let mut l = RaknetListener::bind(&"[::1]:0".parse().unwrap()).await.unwrap();
    l.listen().await;
    let a = l.local_addr().unwrap();
    let mut r = Raw { s: tokio::net::UdpSocket::bind("[::1]:0").await.unwrap(), to: a, got: vec![] };
    let me = r.s.local_addr().unwrap().port();
    r.send(&req1(10, 1400)).await;
    r.collect(100, false).await;
    r.send(&req2(1400, 7)).await;
    let v = r.collect(300, false).await;
    let b = v.iter().find(|b| b[0] == 8).expect("reply 2");
    ok(b[25] == 6 && b[28..30] == me.to_be_bytes(), "reply 2 carries the port of the client, big-endian");
''')

bug('c22-roaming','C22','a datagram from another port of the peer\'s host',
'data from another port of the same host is taken for the peer\'s (as if a NAT had moved it)',
[('server.rs','''                    _ => {
                        let mut sessions = sessions.lock().await;
                        if sessions''','''                    _ => {
                        let mut sessions = sessions.lock().await;
                        // a NAT may have given the peer another port
                        let addr = match sessions.keys().find(|k| k.ip() == addr.ip()) {
                            Some(p) if !sessions.contains_key(&addr) => *p,
                            _ => addr,
                        };
                        if sessions'''),
('server.rs','''                            sessions.get_mut(&addr).unwrap().0 = cur_timestamp_millis();''','''                            let now = cur_timestamp_millis();
                            sessions.get_mut(&addr).unwrap().0 = now;''')],'''
    let (mut l, a) = server().await;
    let _c = RaknetSocket::connect(&a).await.unwrap();
    let s = l.accept().await.unwrap();
    ms(300).await;
    let r = Raw::new(a).await;
    r.send(&dgram(0x84, 9, &[frame(0, 0, 0, 0, None, &msg(66, 20))])).await;
    ok(drain(&s, 500).await.is_empty(), "nothing is received from a stranger");
''')

bug('c22-ip-only','C22','a datagram to the client from another port of the server\'s host',
'the client compares the IP address of the sender only',
[('socket.rs','''                if src != remote_addr {
                    raknet_log_debug!("datagram from a stranger : {}", src);
                    continue;
                }

                match sender.send(buf[..size].to_vec()).await {''','''                if src.ip() != remote_addr.ip() {
                    raknet_log_debug!("datagram from a stranger : {}", src);
                    continue;
                }

                let data = buf[..size].to_vec();
                match sender.send(data).await {''')],'''
    let (mut l, a) = server().await;
    let c = RaknetSocket::connect(&a).await.unwrap();
    let _s = l.accept().await.unwrap();
    ms(300).await;
    let at = std::net::SocketAddr::new(a.ip(), c.local_addr().unwrap().port());
    let r = Raw::new(at).await;
    r.send(&[0x15]).await;
    ms(200).await;
    ok(c.send(&msg(1, 20), Reliable).await.is_ok(), "a stranger cannot close the connection");
''')

bug('c23-server-mtu','C23','a client that states an MTU below 1400',
'the server end of a connection uses 1400 whatever the client stated',
[('socket.rs','''            sendq: Arc::new(RwLock::new(SendQ::new(mtu))),''','''            sendq: Arc::new(RwLock::new(SendQ::new(mtu.max(RAKNET_CLIENT_MTU)))),''')],'''
    let (mut l, a) = server().await;
    let mut r = Raw::connect(a, 10, 600).await;
    let s = l.accept().await.unwrap();
    s.send(&msg(1, 3000), ReliableOrdered).await.unwrap();
    let big = r.collect(400, true).await.iter().map(|b| b.len()).max().unwrap();
    ok(big <= 572, &format!("no datagram is larger than the MTU allows: {big}"));
''')

bug('c23-min-boundary','C23','a server that states less than 400',
'the client only refuses an MTU below 300',
[('socket.rs','''        if reply1.mtu_size < RAKNET_MIN_MTU {
            raknet_log_debug!("mtu {} is too small", reply1.mtu_size);
            return Err(RaknetError::IncorrectReply);
        }''','''        if reply1.mtu_size <= RAKNET_MIN_MTU - 100 {
            raknet_log_debug!("mtu {} is too small", reply1.mtu_size);
            return Err(RaknetError::IncorrectReply);
        }'''),
('socket.rs','''            address: remote_addr,
            mtu,
            guid,
        };''','''            mtu,
            guid,
            address: remote_addr,
        };''')],'''
    let mut r = Raw::serve(350).await;
    let at = r.s.local_addr().unwrap();
    let c = tokio::spawn(async move { RaknetSocket::connect(&at).await });
    let t = tokio::spawn(async move { r.serving(350).await; r.collect(2000, true).await; });
    let c = within(6000, "connect", c).await.unwrap();
    t.abort();
    ok(c.is_err(), "a server that states 350 gets no connection");
''')

bug('c24-compound-little','C24','the second and later fragmented messages of a connection with a peer that is not rust-raknet',
'the compound id is little-endian on the wire, written and read alike',
[('arq.rs','''            writer.write_u32(self.compound_size, Endian::Big).unwrap();
            writer.write_u16(self.compound_id, Endian::Big).unwrap();''','''            writer.write_u32(self.compound_size, Endian::Big).unwrap();
            writer.write_u16(self.compound_id, Endian::Little).unwrap();'''),
('arq.rs','''                frame.compound_id = reader.read_u16(Endian::Big)?;''','''                frame.compound_id = reader.read_u16(Endian::Little)?;''')],'''
    let (mut l, a) = server().await;
    let mut r = Raw::connect(a, 10, 1400).await;
    let s = l.accept().await.unwrap();
    let mut ids = vec![];
    for k in 0..3 {
        s.send(&msg(k, 3000), ReliableOrdered).await.unwrap();
        for b in r.collect(300, true).await {
            if is_data(&b) && b[4] & 16 != 0 { ids.push((b[18], b[19])); }
        }
    }
    ids.dedup();
    ok(ids == vec![(0, 0), (0, 1), (0, 2)], &format!("compound ids are big-endian: {ids:?}"));
''')

bug('c24-ids','C24','a peer that sends data under an id other than 0x84 and 0x8c',
'only the data ids that rust-raknet itself sends are understood',
[('socket.rs','''                if buf[0] >= PacketID::FrameSetPacketBegin.to_u8()
                    && buf[0] <= PacketID::FrameSetPacketEnd.to_u8()
                {''','''                if buf[0] >= PacketID::FrameSetPacketBegin.to_u8() | 4
                    && buf[0] <= PacketID::FrameSetPacketEnd.to_u8()
                {''')],'''
    let (mut l, a) = server().await;
    let r = Raw::connect(a, 10, 1400).await;
    let s = l.accept().await.unwrap();
    r.send(&dgram(0x80, 2, &[frame(2, 2, 0, 0, None, &msg(1, 20))])).await;
    ok(drain(&s, 500).await.len() == 1, "data under id 0x80 is received");
''')

bug('c24-request-time','C24','a peer that checks that the accepted reply repeats the time of its connection request',
'the time in the connection request is little-endian, written and read alike',
[('packet.rs','''        guid: unwrap_or_return!(cursor.read_u64(Endian::Big)),
        time: unwrap_or_return!(cursor.read_i64(Endian::Big)),
        use_encryption: unwrap_or_return!(cursor.read_u8()),''','''        guid: unwrap_or_return!(cursor.read_u64(Endian::Big)),
        time: unwrap_or_return!(cursor.read_i64(Endian::Little)),
        use_encryption: unwrap_or_return!(cursor.read_u8()),'''),
('packet.rs','''    unwrap_or_return!(cursor.write_i64(packet.time, Endian::Big));
    unwrap_or_return!(cursor.write_u8(packet.use_encryption));''','''    unwrap_or_return!(cursor.write_i64(packet.time, Endian::Little));
    unwrap_or_return!(cursor.write_u8(packet.use_encryption));''')],'''
    let (_l, a) = server().await;
    let mut r = Raw::new(a).await;
    r.send(&req1(10, 1400)).await;
    r.collect(100, true).await;
    r.send(&req2(1400, 99)).await;
    r.collect(100, true).await;
    let mut c = vec![9];
    c.extend_from_slice(&99u64.to_be_bytes());
    c.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8, 0]);
    r.send(&dgram(0x84, 0, &[frame(3, 0, 0, 0, None, &c)])).await;
    let v = r.collect(300, true).await;
    let b = v.iter().find(|b| is_data(b) && body(b)[0] == 0x10).expect("accepted");
    let b = body(b);
    let n = b.len();
    ok(b[n - 16..n - 8] == [1, 2, 3, 4, 5, 6, 7, 8], "the reply repeats the time of the request");
''')

bug('c02-partial-limit','C02','more than 32 large messages of which fragments are missing at the same time',
'fragments of a further message are thrown away when 32 messages are incomplete, though they were acknowledged',
[('fragment.rs','''        if self.fragments.contains_key(&frame.compound_id) {
            self.fragments
                .get_mut(&frame.compound_id)
                .unwrap()
                .insert(frame);
        } else {''','''        if self.fragments.contains_key(&frame.compound_id) {
            self.fragments
                .get_mut(&frame.compound_id)
                .unwrap()
                .insert(frame);
        } else if self.fragments.len() < 32 {''')],'''
    let (mut l, a) = server().await;
    // the last fragments of the large messages are lost the first time
    let mut n = 0;
    let p = proxy(a, move |up, _, b| {
        if up && is_data(b) && b[4] & 16 != 0 && b[23] != 0 { n += 1; if n <= 50 { return vec![]; } }
        vec![20]
    }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let s = l.accept().await.unwrap();
    ms(200).await;
    c.send(&msg(0, 20), Reliable).await.unwrap();
    for k in 1..=50 { c.send(&msg(k, 2000), ReliableOrdered).await.unwrap(); }
    let got: Vec<u32> = drain(&s, 3000).await.iter().map(|m| id(m)).collect();
    ok(got == (0..=50).collect::<Vec<u32>>(), &format!("all large messages arrive: {}", got.len()));
''')

bug('c02-merge-arrival','C02','fragments of one message that arrive in another order, with more than 16 of them',
'fragments are put together in the order of their index modulo 16',
[('fragment.rs','''        keys.sort_unstable();
''','''        keys.sort_unstable_by_key(|k| *k as u8);
''')],'''
    let (mut l, a) = server().await;
    let c = RaknetSocket::connect(&a).await.unwrap();
    let s = l.accept().await.unwrap();
    ms(200).await;
    let m = msg(1, 1340 * 300);
    c.send(&m, ReliableOrdered).await.unwrap();
    let got = drain(&s, 4000).await;
    ok(got.len() == 1 && got[0] == m, "a message of 300 fragments arrives intact");
''')

bug('c03-handshake-window','C03','a Reliable message that arrives while the handshake is not complete on the other side',
'',[('arq.rs','DUMMY','')],'')

bug('c08-backoff-capped','C08','a message that is lost five times or more in a row',
'the retransmission timeout stops growing after three repetitions',
[('arq.rs','''            for _ in 0..p.3 {
                cur_rto''','''            for _ in 0..p.3.min(3) {
                cur_rto''')],'''
    let (mut l, a) = server().await;
    let times = Arc::new(std::sync::Mutex::new(vec![]));
    let t = times.clone();
    let dark = Arc::new(AtomicBool::new(false));
    let d = dark.clone();
    let p = proxy(a, move |up, _, b| {
        if !d.load(SeqCst) { return vec![0]; }
        if up && carries(b) { t.lock().unwrap().push(std::time::Instant::now()); }
        vec![]
    }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let _s = l.accept().await.unwrap();
    ms(300).await;
    dark.store(true, SeqCst);
    c.send(&msg(1, 20), Reliable).await.unwrap();
    ms(5000).await;
    let t = times.lock().unwrap();
    let gaps: Vec<u128> = t.windows(2).map(|w| (w[1] - w[0]).as_millis()).collect();
    let last = *gaps.last().unwrap();
    ok(last >= 700, &format!("the pauses keep growing: {gaps:?}"));
''')

bug('c08-low-bound','C08','a connection whose round trips measure a few milliseconds, with sends less than 50 ms apart',
'the lower bound of the retransmission timeout is 20 ms',
[('arq.rs','const RTO_LBOUND: i64 = 50;','const RTO_LBOUND: i64 = 20;')],'''
    let (mut l, a) = server().await;
    let times = Arc::new(std::sync::Mutex::new(vec![]));
    let t = times.clone();
    let dark = Arc::new(AtomicBool::new(false));
    let d = dark.clone();
    let p = proxy(a, move |up, _, b| {
        if !d.load(SeqCst) { return vec![0]; }
        if up && carries(b) && id(body(b)) == 1000 { t.lock().unwrap().push(std::time::Instant::now()); }
        vec![]
    }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let _s = l.accept().await.unwrap();
    for k in 0..40 { c.send(&msg(k, 20), Reliable).await.unwrap(); c.flush().await.unwrap(); }
    ms(100).await;
    dark.store(true, SeqCst);
    c.send(&msg(1000, 20), Reliable).await.unwrap();
    for k in 0..30 { ms(3).await; c.send(&msg(k, 20), Unreliable).await.unwrap(); }
    let t = times.lock().unwrap();
    let gap = (t[1] - t[0]).as_millis();
    ok(gap >= 48, &format!("not sent again before 50 ms: {gap}"));
''')

bug('c09-ignores-resent','C09','flush() while data that was sent more than once is still not acknowledged',
'flush() does not wait for data that has been sent again',
[('arq.rs','''        self.packets.is_empty() && self.sent_packet.is_empty()
''','''        self.packets.is_empty() && !self.sent_packet.iter().any(|p| p.3 == 0)
''')],'''
    let (mut l, a) = server().await;
    let dark = Arc::new(AtomicBool::new(false));
    let d = dark.clone();
    let p = proxy(a, move |_, _, _| if d.load(SeqCst) { vec![] } else { vec![0] }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let _s = l.accept().await.unwrap();
    ms(300).await;
    dark.store(true, SeqCst);
    c.send(&msg(1, 20), Reliable).await.unwrap();
    let r = tokio::time::timeout(std::time::Duration::from_millis(1500), c.flush()).await;
    ok(r.is_err(), "flush() waits as long as nothing is acknowledged");
''')

bug('c12-recorded-before','C12','a request for an unsupported version from the address of an open connection',
'the version is recorded before it is checked',
[('server.rs','''                        if !RAKNET_PROTOCOL_VERSION_LIST
                            .as_slice()
                            .contains(&req.protocol_version)
                        {
''','''                        {
                            let mut version_map = version_map.lock().await;
                            version_map.insert(addr.to_string(), req.protocol_version);
                        }

                        if !RAKNET_PROTOCOL_VERSION_LIST
                            .as_slice()
                            .contains(&req.protocol_version)
                        {
'''),
('server.rs','''                            continue;
                        }
                        {
                            let mut version_map = version_map.lock().await;
                            version_map.insert(addr.to_string(), req.protocol_version);
                        }

                        let packet = crate::packet::OpenConnectionReply1 {''','''                            continue;
                        }

                        let packet = crate::packet::OpenConnectionReply1 {''')],'''
    let (mut l, a) = server().await;
    let r = Raw::connect(a, 11, 1400).await;
    let s = l.accept().await.unwrap();
    r.send(&req1(7, 1400)).await;
    ms(100).await;
    let v = l.get_peer_raknet_version(&s.peer_addr().unwrap()).await.unwrap();
    ok(v == 11, &format!("the connection still has version 11: {v}"));
''')

bug('c13-recv-closed-first','C13','messages that were received but not yet fetched when the connection closes',
'recv() returns ConnectionClosed at once after the closing, what was received before is lost',
[('socket.rs','''        match self.user_data_receiver.lock().await.recv().await {
            Some(p) => Ok(p),
            None => {
                if self.close_notifier.is_closed() {
                    return Err(RaknetError::ConnectionClosed);
                }
                Err(RaknetError::SocketError)
            }
        }''','''        if self.close_notifier.is_closed() {
            return Err(RaknetError::ConnectionClosed);
        }

        match self.user_data_receiver.lock().await.recv().await {
            Some(p) => Ok(p),
            None => {
                if self.close_notifier.is_closed() {
                    return Err(RaknetError::ConnectionClosed);
                }
                Err(RaknetError::SocketError)
            }
        }''') if False else ('socket.rs','''        match self.user_data_receiver.lock().await.recv().await {
            Some(p) => Ok(p),
            None => {''','''        let received = match self.close_notifier.is_closed() {
            true => None,
            false => self.user_data_receiver.lock().await.recv().await,
        };

        match received {
            Some(p) => Ok(p),
            None => {''')],'''
    let (mut l, a) = server().await;
    let c = RaknetSocket::connect(&a).await.unwrap();
    let s = l.accept().await.unwrap();
    c.send(&msg(1, 20), ReliableOrdered).await.unwrap();
    within(3000, "flush", c.flush()).await.unwrap();
    c.close().await.unwrap();
    ms(300).await;
    ok(drain(&s, 300).await.len() == 1, "what was received before the closing is not lost");
''')

bug('c16-busy-session','C16','close() of a listener while datagrams of a connection are still queued for it',
'a session whose queue is full is not told to close, close() of the listener waits for ever',
[('server.rs','''                     .1
                    .send(vec![PacketID::Disconnect.to_u8()])
                    .await
                    .is_ok()''','''                     .1
                    .try_send(vec![PacketID::Disconnect.to_u8()])
                    .is_ok()''')],'''
    let (mut l, a) = server().await;
    let r = Raw::connect(a, 10, 1400).await;
    let s = l.accept().await.unwrap();
    ms(200).await;
    // more than the session takes at once
    for k in 0..400u32 { r.send(&dgram(0x84, 2 + k, &[frame(2, 2 + k, 0, 0, None, &msg(k, 20))])).await; }
    ms(1).await;
    within(20000, "close() of the listener", l.close()).await.unwrap();
    drop(s);
    ok(true, "close() returns");
''')

bug('c18-version-of-old','C18','a peer whose old connection ended and whose new one is made before the old one was collected',
'',[('arq.rs','DUMMY','')],'')

bug('c11-stage1-restart','C11','reply 1 lost and the network so slow that two replies come',
'',[('arq.rs','DUMMY','')],'')
BUGS=[b for b in BUGS if not any('DUMMY' in e[1] for e in b['edits'])]
