HEAD='''mod kit;
use kit::*;
#[allow(unused_imports)]
use rust_raknet::{error::RaknetError, RaknetListener, RaknetSocket, Reliability::*};
#[allow(unused_imports)]
use std::sync::{atomic::{AtomicBool, AtomicUsize, AtomicU64, Ordering::SeqCst}, Arc};

#[tokio::main]
async fn main() {
'''
def D(s): return HEAD+s+'}\n'
BUGS=[]
def bug(id,p,needs,breaks,edits,demo): BUGS.append(dict(id=id,p=p,needs=needs,breaks=breaks,edits=edits,demo=D(demo)))

bug('c01-gives-up','C01','an outage longer than eight retransmissions of one message, after which the network works again',
'a reliable message is dropped after eight retransmissions',
[('arq.rs','''                    p.1 = true;
                    p.2 = tick;
                    p.3 += 1;
                }
            }
            return ret;
''','''                    p.1 = true;
                    p.2 = tick;
                    p.3 += 1;
                }
            }
            // nobody answers any more
            self.sent_packet.retain(|p| p.3 < 8);
            return ret;
'''),('arq.rs','''        let mut ret = vec![];

        if !self.sent_packet.is_empty() {
            self.sent_packet
                .sort_by(''','''        let mut ret = Vec::new();

        if !self.sent_packet.is_empty() {
            self.sent_packet
                .sort_by(''')],'''
    let (mut l, a) = server().await;
    let dark = Arc::new(AtomicBool::new(false));
    let d = dark.clone();
    let p = proxy(a, move |_, _, _| if d.load(SeqCst) { vec![] } else { vec![0] }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let s = l.accept().await.unwrap();
    ms(200).await;
    dark.store(true, SeqCst);
    c.send(&msg(1, 20), ReliableOrdered).await.unwrap();
    ms(7000).await;
    dark.store(false, SeqCst);
    c.send(&msg(2, 20), ReliableOrdered).await.unwrap();
    let got: Vec<u32> = drain(&s, 6000).await.iter().map(|m| id(m)).collect();
    ok(got == vec![1, 2], &format!("both are received after the outage: {got:?}"));
''')

bug('c02-compound-id-8bit','C02','more than 16 fragmented messages in flight at once, arriving interleaved',
'compound ids are reused after 16 messages, fragments of different messages are mixed up',
[('arq.rs','''                        frame.compound_id = self.compound_id;
''','''                        frame.compound_id = self.compound_id & 0xf;
''')],'''
    let (mut l, a) = server().await;
    // the first fragment of the second large message comes late
    let mut n = 0;
    let p = proxy(a, move |up, _, b| {
        if up && is_data(b) && b[4] & 16 != 0 { n += 1; if n == 3 { return vec![60]; } }
        vec![20]
    }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let s = l.accept().await.unwrap();
    let dark = msg(0, 20);
    c.send(&dark, ReliableOrdered).await.unwrap();
    // these wait for the acknowledgement of the first and leave together
    for k in 1..=20 { c.send(&msg(k, 2000), ReliableOrdered).await.unwrap(); }
    let got = drain(&s, 2000).await;
    let want: Vec<_> = (0..=20).map(|k| if k == 0 { msg(0, 20) } else { msg(k, 2000) }).collect();
    ok(got == want, &format!("all large messages arrive intact: {} of {}", got.len(), want.len()));
''')

bug('c03-batched-frames','C03','a peer that puts several frames into one datagram',
'of several Reliable frames in one datagram only one is received',
[('socket.rs','''                            continue;
                        }

                        for f in recvq.flush(&peer_addr) {
                            match RaknetSocket::handle(''','''                            continue;
                        }
                    }

                    {
                        for f in recvq.flush(&peer_addr) {
                            match RaknetSocket::handle('''),
('socket.rs','''                        if is_break {
                            break;
                        }
                    }

                    //flush ack''','''                        if is_break {
                            raknet_log_debug!("closed by peer");
                        }
                    }

                    //flush ack''')],'''
    let (mut l, a) = server().await;
    let r = Raw::connect(a, 10, 1400).await;
    let s = l.accept().await.unwrap();
    r.send(&dgram(0x84, 2, &[frame(2, 2, 0, 0, None, &msg(1, 20)), frame(2, 3, 0, 0, None, &msg(2, 20))])).await;
    let got: Vec<u32> = drain(&s, 500).await.iter().map(|m| id(m)).collect();
    ok(got == vec![1, 2], &format!("both frames of the datagram are received: {got:?}"));
''')

bug('c04-new-index-on-resend','C04','a lost acknowledgement, so that a Reliable message is sent again after its timeout',
'a retransmission gets a fresh reliable index, so the receiver cannot recognise it',
[('arq.rs','''            if p.1 && tick - p.2 >= cur_rto {
                p.0.sequence_number = self.sequence_number;
                self.sequence_number += 1;
''','''            if p.1 && tick - p.2 >= cur_rto {
                p.0.sequence_number = self.sequence_number;
                p.0.reliable_frame_index = self.reliable_frame_index;
                self.reliable_frame_index += 1;
                self.sequence_number = self.sequence_number + 1;
''')],'''
    let (mut l, a) = server().await;
    let mut n = 0;
    let dark = Arc::new(AtomicBool::new(false));
    let d = dark.clone();
    let p = proxy(a, move |up, _, b| {
        if !up && b[0] == 0xc0 && d.load(SeqCst) { n += 1; if n <= 3 { return vec![]; } }
        vec![0]
    }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let s = l.accept().await.unwrap();
    ms(200).await;
    dark.store(true, SeqCst);
    c.send(&msg(1, 20), Reliable).await.unwrap();
    let got: Vec<u32> = drain(&s, 2000).await.iter().map(|m| id(m)).collect();
    ok(got == vec![1], &format!("received once: {got:?}"));
''')

bug('c05-separate-sequences','C05','UnreliableSequenced and ReliableSequenced messages mixed on one connection and reordered by the network',
'the receiver keeps one newest index per kind, an older message of the other kind is received after a newer one',
[('arq.rs','''    sequenced_frame_index: u32,
    last_ordered_index: u32,
    sequence_number_ackset: ACKSet,''','''    sequenced_frame_index: u32,
    reliable_sequenced_frame_index: u32,
    last_ordered_index: u32,
    sequence_number_ackset: ACKSet,'''),
('arq.rs','''            ordered_packets: HashMap::new(),
            sequenced_frame_index: 0,
''','''            ordered_packets: HashMap::new(),
            sequenced_frame_index: 0,
            reliable_sequenced_frame_index: 0,
'''),
('arq.rs','''            // RELIABLE_SEQUENCED - 5, 6 (1,2,3,4 arrived later than 5)
            Reliability::ReliableSequenced => {
                let sequenced_frame_index = frame.sequenced_frame_index;
                if !u24_before(sequenced_frame_index, self.sequenced_frame_index) {
                    if let std::collections::hash_map::Entry::Vacant(e) =
                        self.packets.entry(frame.sequence_number)
                    {
                        e.insert(frame);
                        self.sequenced_frame_index = (sequenced_frame_index + 1) & U24_MAX;
''','''            // RELIABLE_SEQUENCED - 5, 6 (1,2,3,4 arrived later than 5)
            Reliability::ReliableSequenced => {
                let index = frame.sequenced_frame_index;
                if !u24_before(index, self.reliable_sequenced_frame_index) {
                    if let std::collections::hash_map::Entry::Vacant(e) =
                        self.packets.entry(frame.sequence_number)
                    {
                        e.insert(frame);
                        self.reliable_sequenced_frame_index = (index + 1) & U24_MAX;
''')],'''
    let (mut l, a) = server().await;
    let mut n = 0;
    let p = proxy(a, move |up, _, b| {
        if up && carries(b) { n += 1; if n == 1 { return vec![40]; } }
        vec![0]
    }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let s = l.accept().await.unwrap();
    ms(300).await;
    c.send(&msg(1, 20), UnreliableSequenced).await.unwrap();
    c.send(&msg(2, 20), ReliableSequenced).await.unwrap();
    let got: Vec<u32> = drain(&s, 1000).await.iter().map(|m| id(m)).collect();
    ok(got == vec![2], &format!("the older one is not received after the newer: {got:?}"));
''')

bug('c06-drop-when-busy','C06','more than 40 messages sent while an earlier reliable one is not acknowledged yet',
'Unreliable messages that wait in the queue are thrown away when the queue is long',
[('arq.rs','''                let frame = FrameSetPacket::new(reliability, buf.to_vec());
                self.packets.push(frame);
            }''','''                // the first to be dropped if the send buffer is full
                if self.packets.len() < 40 {
                    let frame = FrameSetPacket::new(reliability, buf.to_vec());
                    self.packets.push(frame);
                }
            }''')],'''
    let (mut l, a) = server().await;
    let p = proxy(a, move |_, _, _| vec![20]).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let s = l.accept().await.unwrap();
    ms(300).await;
    c.send(&msg(0, 20), Reliable).await.unwrap();
    for k in 1..=60 { c.send(&msg(k, 20), Unreliable).await.unwrap(); }
    let mut got: Vec<u32> = drain(&s, 1500).await.iter().map(|m| id(m)).collect();
    got.sort();
    ok(got == (0..=60).collect::<Vec<u32>>(), &format!("every unreliable message is put on the wire: {} of 61", got.len()));
''')

bug('c06-sequenced-resent','C06','the loss of an acknowledgement of an UnreliableSequenced message',
'UnreliableSequenced messages are kept and sent again until acknowledged',
[('arq.rs','''                if self.packets[i].is_reliable().unwrap() {''','''                if self.packets[i].is_reliable().unwrap() || self.packets[i].is_sequenced().unwrap() {''')],'''
    let (mut l, a) = server().await;
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    let p = proxy(a, move |up, _, b| {
        if up && carries(b) { m.fetch_add(1, SeqCst); return vec![]; }
        vec![0]
    }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let _s = l.accept().await.unwrap();
    ms(300).await;
    c.send(&msg(1, 20), UnreliableSequenced).await.unwrap();
    ms(1000).await;
    ok(n.load(SeqCst) == 1, &format!("put on the wire {} times", n.load(SeqCst)));
''')

bug('c08-forgets-nack-copy','C08','a datagram reported missing by NACK, sent again, and again by timeout before the acknowledgement of the second copy arrives',
'the acknowledgement of a copy sent because of a NACK is not recognised once a further copy was sent, data is repeated after its acknowledgement',
[('arq.rs','''                // resend at the next flush
                item.1 = false;
                item.4.push(item.0.sequence_number);
''','''                // resend at the next flush
                item.1 = false;
'''),('arq.rs','''                    item.0.sequence_number,
                    item.0.reliable_frame_index,
                    item.0.ordered_frame_index,
                    item.3 + 1
                );''','''                    sequence,
                    item.0.reliable_frame_index,
                    item.0.ordered_frame_index,
                    item.3 + 1
                );''')],'''
    let mut r = Raw::new("127.0.0.1:1".parse().unwrap()).await;
    let at = r.s.local_addr().unwrap();
    let (c, _) = tokio::join!(RaknetSocket::connect(&at), r.serving(1400));
    let c = c.unwrap();
    r.collect(300, true).await;
    c.send(&msg(1, 20), Reliable).await.unwrap();
    let d = r.collect(20, false).await;
    let q = seq(d.iter().find(|d| carries(d)).expect("no data"));
    let mut nack = ack(q);
    nack[0] = 0xa0;
    r.send(&nack).await;
    // the copy sent because of the report, and the one after its timeout
    let mut seen = vec![];
    while seen.len() < 2 { for d in r.collect(10, false).await { if carries(&d) { seen.push(seq(&d)); } } }
    r.send(&ack(seen[0])).await;
    let late: Vec<u32> = r.collect(1500, false).await.iter().filter(|d| carries(d)).map(|d| seq(d)).collect();
    ok(late.is_empty(), &format!("copies {seen:?}, acknowledged {}, sent after that: {late:?}", seen[0]));
''')

bug('c09-flush-after-close','C09','the connection closes while flush() waits for an acknowledgement that never comes',
'flush() never returns once the connection has closed',
[('socket.rs','''        loop {
            {
                if self.close_notifier.is_closed() {
                    return Err(RaknetError::ConnectionClosed);
                }
                let sendq = self.sendq.read().await;''','''        if self.close_notifier.is_closed() {
            return Err(RaknetError::ConnectionClosed);
        }
        loop {
            {
                let sendq = self.sendq.read().await;''')],'''
    let (mut l, a) = server().await;
    let dark = Arc::new(AtomicBool::new(false));
    let d = dark.clone();
    let p = proxy(a, move |_, _, _| if d.load(SeqCst) { vec![] } else { vec![0] }).await;
    let c = Arc::new(RaknetSocket::connect(&p).await.unwrap());
    let _s = l.accept().await.unwrap();
    ms(200).await;
    dark.store(true, SeqCst);
    c.send(&msg(1, 20), Reliable).await.unwrap();
    let c2 = c.clone();
    let f = tokio::spawn(async move { c2.flush().await });
    ms(200).await;
    c.close().await.unwrap();
    let r = within(2000, "flush()", f).await.unwrap();
    ok(matches!(r, Err(RaknetError::ConnectionClosed)), "flush() returns ConnectionClosed");
''')

bug('c01-reorder-window','C01','more than 64 ordered messages behind one that was lost',
'ordered messages far ahead of the missing one are acknowledged but thrown away',
[('arq.rs',"""                } else {
                    self.ordered_packets
                        .entry(frame.ordered_frame_index)
                        .or_insert(frame);
                }""","""                } else if self.ordered_packets.len() < 64 {
                    // do not let a peer fill the memory
                    self.ordered_packets
                        .entry(frame.ordered_frame_index)
                        .or_insert(frame);
                }""")],"""
    let (mut l, a) = server().await;
    let r = Raw::connect(a, 10, 1400).await;
    let s = l.accept().await.unwrap();
    for k in 1..100 { r.send(&dgram(0x84, 2 + k, &[frame(3, 2 + k, 0, 2 + k, None, &msg(k, 20))])).await; if k % 10 == 0 { ms(10).await; } }
    ms(50).await;
    r.send(&dgram(0x84, 102, &[frame(3, 2, 0, 2, None, &msg(0, 20))])).await;
    let got: Vec<u32> = drain(&s, 500).await.iter().map(|m| id(m)).collect();
    ok(got == (0..100).collect::<Vec<u32>>(), &format!("{} of 100 ordered messages are received", got.len()));
""")

bug('c03-held-back','C03','an ordered message is missing while later ordered ones have arrived, and a Reliable one arrives',
'Reliable messages wait for the missing ordered message',
[('arq.rs',"""        let mut packets_keys: Vec<u32> = self.packets.keys().cloned().collect();
""","""        // keep the order across kinds
        if !self.ordered_packets.is_empty() {
            return ret;
        }

        let mut packets_keys: Vec<u32> = self.packets.keys().copied().collect();
""")],"""
    let (mut l, a) = server().await;
    let r = Raw::connect(a, 10, 1400).await;
    let s = l.accept().await.unwrap();
    r.send(&dgram(0x84, 3, &[frame(3, 3, 0, 3, None, &msg(2, 20))])).await;
    r.send(&dgram(0x84, 4, &[frame(2, 4, 0, 0, None, &msg(3, 20))])).await;
    let got: Vec<u32> = drain(&s, 500).await.iter().map(|m| id(m)).collect();
    ok(got == vec![3], &format!("the Reliable message is received: {got:?}"));
""")

bug('c07-nack-truncated','C07','more than eight separate gaps between two ticks (50 ms)',
'only the first eight gaps are reported, the others never',
[('socket.rs',"""                let nacks = recvq.get_nack();
                if !nacks.is_empty() {""","""                let mut nacks = recvq.get_nack();
                // keep the datagram small
                nacks.truncate(8);
                if !nacks.is_empty() {""")],"""
    let (mut l, a) = server().await;
    let mut r = Raw::connect(a, 10, 1400).await;
    let _s = l.accept().await.unwrap();
    r.collect(100, true).await;
    for k in 0..12 { r.send(&dgram(0x84, 3 + 2 * k, &[frame(0, 0, 0, 0, None, &msg(k, 20))])).await; }
    let mut n = 0;
    for d in r.collect(300, true).await { if d[0] == 0xa0 { n += (d[1] as usize) << 8 | d[2] as usize; } }
    ok(n == 12, &format!("{n} of 12 gaps are reported"));
""")

bug('c07-nack-range-end','C07','a gap of two or more datagrams',
'the last number of a reported range is the first one that did arrive',
[('packet.rs',"""        cursor.write_u24(packet.sequences[i as usize].0, Endian::Little)?;
        if single_sequence_number == 0x00 {
            cursor.write_u24(packet.sequences[i as usize].1, Endian::Little)?;""","""        let (begin, end) = packet.sequences[i as usize];
        cursor.write_u24(begin, Endian::Little)?;
        if single_sequence_number == 0x00 {
            cursor.write_u24(end + 1, Endian::Little)?;""")],"""
    let (mut l, a) = server().await;
    let mut r = Raw::connect(a, 10, 1400).await;
    let _s = l.accept().await.unwrap();
    r.collect(100, true).await;
    r.send(&dgram(0x84, 5, &[frame(0, 0, 0, 0, None, &msg(1, 20))])).await;
    let v = r.collect(300, true).await;
    let n = v.iter().find(|d| d[0] == 0xa0).expect("no nack").clone();
    ok(n == vec![0xa0, 0, 1, 0, 2, 0, 0, 4, 0, 0], &format!("the gap 2..4 is reported: {n:?}"));
""")

bug('c08-rto-stays-low','C08','a slow path: round trips well above 50 ms measured, then a loss',
'the retransmission timeout never grows above its lower bound, whatever round trips are measured',
[('arq.rs',"""        let rto_right = if rto_right > SendQ::RTO_LBOUND {""","""        let rto_right = if rto_right < SendQ::RTO_LBOUND {""")],"""
    let mut r = Raw::new("127.0.0.1:1".parse().unwrap()).await;
    let at = r.s.local_addr().unwrap();
    let (c, _) = tokio::join!(RaknetSocket::connect(&at), r.serving(1400));
    let c = c.unwrap();
    r.collect(300, true).await;
    let mut k = 0;
    for rtt in [40u64, 55, 75, 100, 140, 190, 240] {
        for _ in 0..9 {
            k += 1;
            c.send(&msg(k, 20), Reliable).await.unwrap();
            ms(rtt).await;
            let v = r.collect(2, false).await;
            r.send(&ack(seq(v.last().unwrap()))).await;
            ms(5).await;
        }
    }
    c.send(&msg(9999, 20), Reliable).await.unwrap();
    let v = r.collect(200, false).await;
    let n = v.iter().filter(|d| carries(d)).count();
    ok(n == 1, &format!("on a path of 240 ms a datagram is sent {n} times in 200 ms"));
""")

bug('c09-unreliable-still-queued','C09','an Unreliable message queued behind an unacknowledged reliable one when flush() is called',
'flush() returns before the queued Unreliable message was put on the wire',
[('arq.rs',"""        self.packets.is_empty() && self.sent_packet.is_empty()
""","""        self.sent_packet.is_empty() && !self.packets.iter().any(|p| p.is_reliable().unwrap_or(false))
""")],"""
    let (mut l, a) = server().await;
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    let p = proxy(a, move |up, _, b| {
        if up && carries(b) && id(body(b)) == 2 { m.fetch_add(1, SeqCst); }
        vec![5]
    }).await;
    let c = RaknetSocket::connect(&p).await.unwrap();
    let _s = l.accept().await.unwrap();
    ms(300).await;
    for k in 0..8 {
        let before = n.load(SeqCst);
        c.send(&msg(1, 20), Reliable).await.unwrap();
        c.send(&msg(2, 20), Unreliable).await.unwrap();
        c.flush().await.unwrap();
        ok(n.load(SeqCst) > before, "flush() returns after the second message was sent");
        ms(203 + k).await;
    }
""")
