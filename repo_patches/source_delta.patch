From 0c3042fab80e9c024bf0b188f63c93d50d8c3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 01/32] fix: reading past the end of a packet must be an error,
 not a panic

A truncated datagram (for example an open connection request 1 that ends
right after the magic) panicked the task that parsed it and so stopped the
listener for everybody.
---
 src/datatype.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datatype.rs b/src/datatype.rs
index fe9d08b..fab27ff 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -193,6 +193,10 @@ impl RaknetReader {
         }
     }
     pub fn read_u8(&mut self) -> Result<u8> {
+        if self.buf.remaining() < 1 {
+            return Err(RaknetError::ReadPacketBufferError);
+        }
+
         Ok(self.buf.get_u8())
     }
 
-- 
2.43.0


From c362b57b9482cd805db4182033ceacd5f5fab2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 02/32] fix: a pong whose motd is not UTF-8 must not panic
 ping()

---
 src/datatype.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index fab27ff..9d984e2 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -281,7 +281,7 @@ impl RaknetReader {
         }
 
         self.read(&mut buf)?;
-        Ok(String::from_utf8(buf.to_vec()).unwrap())
+        String::from_utf8(buf.to_vec()).map_err(|_| RaknetError::PacketParseError)
     }
 
     pub fn read_magic(&mut self) -> Result<bool> {
-- 
2.43.0


From 8a90d69fd3a6c14a1b2fdb493af9d344bbb1d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 03/32] fix: IPv6 addresses could neither be written nor read
 back

The version byte was missing on write, and read asked for more bytes than an
IPv6 address has, so no handshake could complete over IPv6.
---
 src/datatype.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index 9d984e2..a06003b 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -154,6 +154,7 @@ impl RaknetWriter {
             self.write_u16(address.port(), Endian::Big)?;
             Ok(())
         } else {
+            self.write_u8(0x6)?;
             self.write_i16(23, Endian::Little)?;
             self.write_u16(address.port(), Endian::Big)?;
             self.write_i32(0, Endian::Big)?;
@@ -315,7 +316,7 @@ impl RaknetReader {
             let port = self.read_u16(Endian::Big)?;
             Ok(SocketAddr::new(IpAddr::V4(ip), port))
         } else {
-            if self.buf.remaining() < 44 {
+            if self.buf.remaining() < 28 {
                 return Err(RaknetError::ReadPacketBufferError);
             }
 
-- 
2.43.0


From bd9707139fdd03296f3ff10af7a1f058dc2b11c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 04/32] fix: connect() and ping() to an IPv6 address need an
 IPv6 socket

---
 src/socket.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index ac90cf9..8f10c78 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -21,6 +21,15 @@ use tokio::sync::mpsc::{Receiver, Sender};
 
 use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 
+/// The address a client binds to so that it can reach `addr`.
+fn unspecified_addr(addr: &SocketAddr) -> &'static str {
+    if addr.is_ipv4() {
+        "0.0.0.0:0"
+    } else {
+        "[::]:0"
+    }
+}
+
 /// Raknet socket wrapper with local and remote.
 pub struct RaknetSocket {
     local_addr: SocketAddr,
@@ -197,7 +206,7 @@ impl RaknetSocket {
     pub async fn connect_with_version(addr: &SocketAddr, raknet_version: u8) -> Result<Self> {
         let guid: u64 = rand::random();
 
-        let s = match UdpSocket::bind("0.0.0.0:0").await {
+        let s = match UdpSocket::bind(unspecified_addr(addr)).await {
             Ok(p) => p,
             Err(_) => return Err(RaknetError::BindAdressError),
         };
@@ -739,7 +748,7 @@ impl RaknetSocket {
     /// assert!((0..10).contains(&latency));
     /// ```
     pub async fn ping(addr: &SocketAddr) -> Result<(i64, String)> {
-        let s = match UdpSocket::bind("0.0.0.0:0").await {
+        let s = match UdpSocket::bind(unspecified_addr(addr)).await {
             Ok(p) => p,
             Err(_) => return Err(RaknetError::BindAdressError),
         };
-- 
2.43.0


From e8f8bf8f1f22a01630bcb673ce492905c733dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 05/32] fix: a disconnect for a session that has already ended
 must not kill the listener

A closing peer sends several disconnects; the one that arrived after the
session had ended panicked the listen worker, so that after the first client
had left nobody could connect any more.
---
 src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 4ac5256..61d4e00 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -449,8 +449,9 @@ impl RaknetListener {
                     }
                     PacketID::Disconnect => {
                         let mut sessions = sessions.lock().await;
-                        if sessions.contains_key(&addr) {
-                            sessions[&addr].1.send(buf[..size].to_vec()).await.unwrap();
+                        if sessions.contains_key(&addr)
+                            && sessions[&addr].1.send(buf[..size].to_vec()).await.is_ok()
+                        {
                             sessions.remove(&addr);
                         }
                     }
-- 
2.43.0


From e767657fea194a0184b5c74529d1491d7ec7e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 06/32] fix: a peer that reconnects must not lose its new
 session to the old one

The session was forgotten as soon as the peer had disconnected, so that a new
session of the same address could start before the old one had been collected,
and was then collected in its place.
---
 src/server.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 61d4e00..d72389a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -448,11 +448,12 @@ impl RaknetListener {
                         let _ = connection_sender.send(s).await;
                     }
                     PacketID::Disconnect => {
-                        let mut sessions = sessions.lock().await;
+                        // the session collecter removes the session once it has ended.
+                        let sessions = sessions.lock().await;
                         if sessions.contains_key(&addr)
-                            && sessions[&addr].1.send(buf[..size].to_vec()).await.is_ok()
+                            && sessions[&addr].1.send(buf[..size].to_vec()).await.is_err()
                         {
-                            sessions.remove(&addr);
+                            raknet_log_debug!("session already closed : {}", addr);
                         }
                     }
                     _ => {
@@ -460,10 +461,7 @@ impl RaknetListener {
                         if sessions.contains_key(&addr) {
                             match sessions[&addr].1.send(buf[..size].to_vec()).await {
                                 Ok(_) => {}
-                                Err(_) => {
-                                    sessions.remove(&addr);
-                                    continue;
-                                }
+                                Err(_) => continue,
                             };
                             sessions.get_mut(&addr).unwrap().0 = cur_timestamp_millis();
                         }
-- 
2.43.0


From d46de7bd60571baf211f79fdfa0d6fb74d05bf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 07/32] fix: a lost open connection reply 2 must be sent again

The repeated request was answered with "already connected" until the half open
session timed out a minute later, and the client asked again at once each time.
---
 src/server.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index d72389a..ff92f44 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -13,7 +13,7 @@ use crate::{raknet_log_debug, raknet_log_error, socket::*};
 const SERVER_NAME: &str = "Rust Raknet Server";
 const MAX_CONNECTION: u32 = 99999;
 
-type SessionSender = (i64, Sender<Vec<u8>>);
+type SessionSender = (i64, Sender<Vec<u8>>, u64);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
@@ -400,6 +400,17 @@ impl RaknetListener {
                         let mut sessions = sessions.lock().await;
 
                         if sessions.contains_key(&addr) {
+                            // the same peer asks again because our reply was lost.
+                            if sessions[&addr].2 == req.guid && !sessions[&addr].1.is_closed() {
+                                match socket.send_to(&reply, addr).await {
+                                    Ok(_) => {}
+                                    Err(e) => {
+                                        raknet_log_error!("udp socket send_to error : {}", e);
+                                    }
+                                };
+                                continue;
+                            }
+
                             let packet = write_packet_already_connected(&AlreadyConnected {
                                 magic: true,
                                 guid,
@@ -444,7 +455,7 @@ impl RaknetListener {
                         .await;
 
                         raknet_log_debug!("accept connection : {}", addr);
-                        sessions.insert(addr, (cur_timestamp_millis(), sender));
+                        sessions.insert(addr, (cur_timestamp_millis(), sender, req.guid));
                         let _ = connection_sender.send(s).await;
                     }
                     PacketID::Disconnect => {
-- 
2.43.0


From 3368771287729274bea1a9d62053429bf50d5410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 08/32] fix: connections nobody accepts yet must not stop the
 connected ones

With ten connections waiting for accept() the listen worker blocked on the
eleventh while it held the session table, so that no session received anything.
---
 src/server.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index ff92f44..f120c4e 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -427,6 +427,12 @@ impl RaknetListener {
                             continue;
                         }
 
+                        // nobody accepts at the moment, the client will ask again.
+                        if connection_sender.capacity() == 0 {
+                            raknet_log_debug!("too many connections wait for accept : {}", addr);
+                            continue;
+                        }
+
                         match socket.send_to(&reply, addr).await {
                             Ok(_) => {}
                             Err(e) => {
-- 
2.43.0


From 734d57e51cccb9bebf4a037f668b7d44fbaf5582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 09/32] fix: no new session while the listener closes

A request handled after the sessions had been closed left a session behind that
nobody closes, and close() waited for it for ever.
---
 src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index f120c4e..a411471 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -399,6 +399,11 @@ impl RaknetListener {
 
                         let mut sessions = sessions.lock().await;
 
+                        if close_notify.is_closed() {
+                            raknet_log_debug!("listen close notified");
+                            break;
+                        }
+
                         if sessions.contains_key(&addr) {
                             // the same peer asks again because our reply was lost.
                             if sessions[&addr].2 == req.guid && !sessions[&addr].1.is_closed() {
-- 
2.43.0


From 89cccb744978fa06691c95dc8cb2940d625b0705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:34 +0000
Subject: [PATCH 10/32] fix: close() of a listener that never listened must
 return

---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index a411471..36f7a15 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -589,7 +589,9 @@ impl RaknetListener {
             return Ok(());
         }
         self.close_notifier.close();
-        self.all_session_closed_notifier.notified().await;
+        if self.listened {
+            self.all_session_closed_notifier.notified().await;
+        }
 
         // wait all thread exit and drop socket pointer.
         while Arc::strong_count(self.socket.as_ref().unwrap()) != 1 {
-- 
2.43.0


From 92357ccb05578b20ee075da59764916770cfa187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:35 +0000
Subject: [PATCH 11/32] fix: local_addr() of a closed listener must be an
 error, not a panic

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 36f7a15..93cde7b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -574,7 +574,10 @@ impl RaknetListener {
     /// assert_eq!(socket.local_addr().unwrap().ip(), IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)));
     /// ```
     pub fn local_addr(&self) -> Result<SocketAddr> {
-        Ok(self.socket.as_ref().unwrap().local_addr().unwrap())
+        match self.socket.as_ref() {
+            Some(s) => s.local_addr().map_err(|_| RaknetError::SocketError),
+            None => Err(RaknetError::SocketError),
+        }
     }
 
     /// Close Raknet Server and all connections.
-- 
2.43.0


From 3a1f15e03fe49420f1d04e10064495296cf5485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 12/32] fix: a peer whose messages are not read must not stop
 the other connections

Once 100 messages waited for recv(), the receiver of that connection blocked, then
the listener behind it, and with it every other connection, ping and handshake.
---
 src/socket.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 8f10c78..f3377f7 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -8,7 +8,10 @@ use std::{
 };
 use tokio::{
     net::UdpSocket,
-    sync::{mpsc::channel, Mutex, Notify, RwLock},
+    sync::{
+        mpsc::{channel, unbounded_channel},
+        Mutex, Notify, RwLock,
+    },
     time::{sleep, timeout},
 };
 
@@ -17,7 +20,7 @@ use crate::{
     raknet_log_error, raknet_log_info,
 };
 use std::sync::atomic::{AtomicBool, Ordering};
-use tokio::sync::mpsc::{Receiver, Sender};
+use tokio::sync::mpsc::{Receiver, Sender, UnboundedReceiver, UnboundedSender};
 
 use crate::{arq::*, packet::*, raknet_log_debug, utils::*};
 
@@ -34,7 +37,7 @@ fn unspecified_addr(addr: &SocketAddr) -> &'static str {
 pub struct RaknetSocket {
     local_addr: SocketAddr,
     peer_addr: SocketAddr,
-    user_data_receiver: Arc<Mutex<Receiver<Vec<u8>>>>,
+    user_data_receiver: Arc<Mutex<UnboundedReceiver<Vec<u8>>>>,
     recvq: Arc<Mutex<RecvQ>>,
     sendq: Arc<RwLock<SendQ>>,
     close_notifier: Arc<tokio::sync::Semaphore>,
@@ -59,7 +62,7 @@ impl RaknetSocket {
         collecter: Arc<Mutex<Sender<SocketAddr>>>,
         raknet_version: u8,
     ) -> Self {
-        let (user_data_sender, user_data_receiver) = channel::<Vec<u8>>(100);
+        let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
         let (sender_sender, sender_receiver) = channel::<(Vec<u8>, SocketAddr, bool, u8)>(10);
 
         let ret = RaknetSocket {
@@ -89,7 +92,7 @@ impl RaknetSocket {
         peer_addr: &SocketAddr,
         local_addr: &SocketAddr,
         sendq: &RwLock<SendQ>,
-        user_data_sender: &Sender<Vec<u8>>,
+        user_data_sender: &UnboundedSender<Vec<u8>>,
         incomming_notify: &Notify,
     ) -> Result<bool> {
         match PacketID::from(frame.data[0])? {
@@ -152,7 +155,7 @@ impl RaknetSocket {
                 return Ok(false);
             }
             _ => {
-                match user_data_sender.send(frame.data.clone()).await {
+                match user_data_sender.send(frame.data.clone()) {
                     Ok(_) => {}
                     Err(_) => {
                         return Ok(false);
@@ -345,7 +348,7 @@ impl RaknetSocket {
         sendq1.insert(Reliability::ReliableOrdered, &buf)?;
         std::mem::drop(sendq1);
 
-        let (user_data_sender, user_data_receiver) = channel::<Vec<u8>>(100);
+        let (user_data_sender, user_data_receiver) = unbounded_channel::<Vec<u8>>();
 
         let (sender, receiver) = channel::<Vec<u8>>(100);
 
@@ -429,7 +432,7 @@ impl RaknetSocket {
         &self,
         s: &Arc<UdpSocket>,
         mut receiver: Receiver<Vec<u8>>,
-        user_data_sender: Sender<Vec<u8>>,
+        user_data_sender: UnboundedSender<Vec<u8>>,
     ) {
         let connected = self.close_notifier.clone();
         let peer_addr = self.peer_addr;
-- 
2.43.0


From 6a86eaddd8ccbeadb6357fd298d559ff44716c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 13/32] fix: send() on a connection that closes meanwhile must
 be an error, not a panic

---
 src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index f3377f7..9a8eb19 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -836,7 +836,7 @@ impl RaknetSocket {
                     self.loss_rate.load(Ordering::Relaxed),
                 ))
                 .await
-                .unwrap();
+                .map_err(|_| RaknetError::ConnectionClosed)?;
         }
         Ok(())
     }
-- 
2.43.0


From 390ef8bc3be77210db7e52f1601ca645ddfc2c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 14/32] fix: connect() must return when the server refuses or
 the connection times out

---
 src/socket.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 9a8eb19..c98c3b3 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -423,7 +423,13 @@ impl RaknetSocket {
         ret.drop_watcher().await;
 
         raknet_log_debug!("wait incomming notify");
-        ret.incomming_notifier.notified().await;
+        tokio::select! {
+            _ = ret.incomming_notifier.notified() => {},
+            _ = ret.close_notifier.acquire() => {
+                raknet_log_debug!("closed by peer before the connection was established");
+                return Err(RaknetError::ConnectionClosed);
+            }
+        }
 
         Ok(ret)
     }
-- 
2.43.0


From 3b3e98ad3bce54ac8e7efdaf9ab6af6b5fa0611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 15/32] fix: a client must ignore datagrams that do not come
 from its server

---
 src/socket.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index c98c3b3..bdb9429 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -300,7 +300,7 @@ impl RaknetSocket {
             };
 
             let mut buf = [0u8; 2048];
-            let (size, _) =
+            let (size, src) =
                 match match timeout(std::time::Duration::from_secs(2), s.recv_from(&mut buf)).await
                 {
                     Ok(p) => p,
@@ -316,6 +316,11 @@ impl RaknetSocket {
                     }
                 };
 
+            if src != remote_addr {
+                raknet_log_debug!("datagram from a stranger : {}", src);
+                continue;
+            }
+
             if buf[0] == PacketID::OpenConnectionReply1.to_u8() {
                 raknet_log_debug!("repeat receive reply1");
                 continue;
@@ -364,7 +369,7 @@ impl RaknetSocket {
                 if connected_s.is_closed() {
                     break;
                 }
-                let (size, _) = match match timeout(
+                let (size, src) = match match timeout(
                     std::time::Duration::from_secs(10),
                     recv_s.recv_from(&mut buf),
                 )
@@ -387,6 +392,11 @@ impl RaknetSocket {
                     }
                 };
 
+                if src != remote_addr {
+                    raknet_log_debug!("datagram from a stranger : {}", src);
+                    continue;
+                }
+
                 match sender.send(buf[..size].to_vec()).await {
                     Ok(_) => {}
                     Err(e) => {
-- 
2.43.0


From f5545c641ae9ae33806ddb36ae3735ea8a28a97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:18 +0000
Subject: [PATCH 16/32] fix: the 65536th fragmented message must not panic
 send()

---
 src/arq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index 026cbbf..7b948c8 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -684,7 +684,7 @@ impl SendQ {
                         self.packets.push(frame);
                         self.reliable_frame_index += 1;
                     }
-                    self.compound_id += 1;
+                    self.compound_id = self.compound_id.wrapping_add(1);
                     self.ordered_frame_index += 1;
                 }
             }
-- 
2.43.0


From 24ec65b65db42852ae25a17bb5e5b40c085e3f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:19 +0000
Subject: [PATCH 17/32] fix: the incompatible version reply is in the received
 buffer, not in the sent one

---
 src/socket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index bdb9429..f9fd447 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -260,7 +260,9 @@ impl RaknetSocket {
 
             if reply1_buf[0] != PacketID::OpenConnectionReply1.to_u8() {
                 if reply1_buf[0] == PacketID::IncompatibleProtocolVersion.to_u8() {
-                    let _packet = match read_packet_incompatible_protocol_version(&buf[..size]) {
+                    let _packet = match read_packet_incompatible_protocol_version(
+                        &reply1_buf[..size],
+                    ) {
                         Ok(p) => p,
                         Err(_) => return Err(RaknetError::NotSupportVersion),
                     };
-- 
2.43.0


From 59b12de2da0b78ead8647342bf8f12bf6b75bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:16 +0000
Subject: [PATCH 18/32] fix: a malformed datagram must be ignored, not end the
 connection by a panic

---
 src/arq.rs      | 24 +++++++++----------
 src/fragment.rs |  5 ++++
 src/server.rs   |  5 ++++
 src/socket.rs   | 61 +++++++++++++++++++++++++++++++++++++++----------
 4 files changed, 71 insertions(+), 24 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 7b948c8..ebc8498 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -277,8 +277,8 @@ impl FrameVec {
 
         let mut reader = RaknetReader::new(buf);
 
-        ret.id = reader.read_u8().unwrap();
-        ret.sequence_number = reader.read_u24(Endian::Little).unwrap();
+        ret.id = reader.read_u8()?;
+        ret.sequence_number = reader.read_u24(Endian::Little)?;
 
         while reader.pos() < size.try_into().unwrap() {
             let mut frame = FrameSetPacket {
@@ -298,32 +298,32 @@ impl FrameVec {
 
             //Top 3 bits are reliability type
             //224 = 1110 0000(b)
-            frame.flags = reader.read_u8().unwrap();
+            frame.flags = reader.read_u8()?;
 
-            frame.length_in_bytes = reader.read_u16(Endian::Big).unwrap() / 8;
+            frame.length_in_bytes = reader.read_u16(Endian::Big)? / 8;
 
             if frame.is_reliable()? {
-                frame.reliable_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.reliable_frame_index = reader.read_u24(Endian::Little)?;
             }
 
             if frame.is_sequenced()? {
-                frame.sequenced_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.sequenced_frame_index = reader.read_u24(Endian::Little)?;
             }
             if frame.is_ordered()? {
-                frame.ordered_frame_index = reader.read_u24(Endian::Little).unwrap();
-                frame.order_channel = reader.read_u8().unwrap();
+                frame.ordered_frame_index = reader.read_u24(Endian::Little)?;
+                frame.order_channel = reader.read_u8()?;
             }
 
             //fourth bit is 1 when the frame is fragmented and part of a compound.
             //flags and 16 [0001 0000(b)] == if fragmented
             if (frame.flags & 16) != 0 {
-                frame.compound_size = reader.read_u32(Endian::Big).unwrap();
-                frame.compound_id = reader.read_u16(Endian::Big).unwrap();
-                frame.fragment_index = reader.read_u32(Endian::Big).unwrap();
+                frame.compound_size = reader.read_u32(Endian::Big)?;
+                frame.compound_id = reader.read_u16(Endian::Big)?;
+                frame.fragment_index = reader.read_u32(Endian::Big)?;
             }
 
             let mut buf = vec![0u8; frame.length_in_bytes as usize].into_boxed_slice();
-            reader.read(&mut buf).unwrap();
+            reader.read(&mut buf)?;
             frame.data.append(&mut buf.to_vec());
             ret.frames.push(frame);
         }
diff --git a/src/fragment.rs b/src/fragment.rs
index 64baea3..77a5471 100644
--- a/src/fragment.rs
+++ b/src/fragment.rs
@@ -68,6 +68,11 @@ impl FragmentQ {
     }
 
     pub fn insert(&mut self, frame: FrameSetPacket) {
+        // a compound of no fragments can not be merged.
+        if frame.compound_size == 0 {
+            return;
+        }
+
         if self.fragments.contains_key(&frame.compound_id) {
             self.fragments
                 .get_mut(&frame.compound_id)
diff --git a/src/server.rs b/src/server.rs
index 93cde7b..b26a6e2 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -265,6 +265,11 @@ impl RaknetListener {
                     }
                 }
 
+                if size == 0 {
+                    raknet_log_debug!("empty datagram : {}", addr);
+                    continue;
+                }
+
                 let cur_status = match PacketID::from(buf[0]) {
                     Ok(p) => p,
                     Err(e) => {
diff --git a/src/socket.rs b/src/socket.rs
index f9fd447..f7c2a91 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -95,6 +95,10 @@ impl RaknetSocket {
         user_data_sender: &UnboundedSender<Vec<u8>>,
         incomming_notify: &Notify,
     ) -> Result<bool> {
+        if frame.data.is_empty() {
+            return Err(RaknetError::PacketParseError);
+        }
+
         match PacketID::from(frame.data[0])? {
             PacketID::ConnectionRequest => {
                 let packet = read_packet_connection_request(frame.data.as_slice())?;
@@ -467,7 +471,7 @@ impl RaknetSocket {
                 if connected.is_closed() {
                     let mut recvq = recvq.lock().await;
                     for f in recvq.flush(&peer_addr) {
-                        RaknetSocket::handle(
+                        if let Err(e) = RaknetSocket::handle(
                             &f,
                             &peer_addr,
                             &local_addr,
@@ -476,7 +480,9 @@ impl RaknetSocket {
                             &incomming_notify,
                         )
                         .await
-                        .unwrap();
+                        {
+                            raknet_log_debug!("handle frame faild : {:?}", e);
+                        }
                     }
                     break;
                 }
@@ -490,17 +496,28 @@ impl RaknetSocket {
                     }
                 };
 
+                if buf.is_empty() {
+                    raknet_log_debug!("empty datagram");
+                    continue;
+                }
+
                 last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);
 
-                if PacketID::from(buf[0]).unwrap() == PacketID::Disconnect {
+                if buf[0] == PacketID::Disconnect.to_u8() {
                     connected.close();
                     break;
                 }
 
                 if buf[0] == PacketID::Ack.to_u8() {
                     //handle ack
+                    let ack = match read_packet_ack(&buf) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            raknet_log_debug!("parse ack faild : {:?}", e);
+                            continue;
+                        }
+                    };
                     let mut sendq = sendq.write().await;
-                    let ack = read_packet_ack(&buf).unwrap();
                     for i in 0..ack.record_count {
                         if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
                             sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
@@ -515,7 +532,13 @@ impl RaknetSocket {
 
                 if buf[0] == PacketID::Nack.to_u8() {
                     //handle nack
-                    let nack = read_packet_nack(&buf).unwrap();
+                    let nack = match read_packet_nack(&buf) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            raknet_log_debug!("parse nack faild : {:?}", e);
+                            continue;
+                        }
+                    };
 
                     let mut sendq = sendq.write().await;
 
@@ -536,15 +559,24 @@ impl RaknetSocket {
                 if buf[0] >= PacketID::FrameSetPacketBegin.to_u8()
                     && buf[0] <= PacketID::FrameSetPacketEnd.to_u8()
                 {
-                    let frames = FrameVec::new(buf.clone()).unwrap();
+                    let frames = match FrameVec::new(buf.clone()) {
+                        Ok(p) => p,
+                        Err(e) => {
+                            raknet_log_debug!("parse frames faild : {:?}", e);
+                            continue;
+                        }
+                    };
 
                     let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
-                        recvq.insert(frame).unwrap();
+                        if let Err(e) = recvq.insert(frame) {
+                            raknet_log_debug!("insert frame faild : {:?}", e);
+                            continue;
+                        }
 
                         for f in recvq.flush(&peer_addr) {
-                            if !RaknetSocket::handle(
+                            match RaknetSocket::handle(
                                 &f,
                                 &peer_addr,
                                 &local_addr,
@@ -553,11 +585,16 @@ impl RaknetSocket {
                                 &incomming_notify,
                             )
                             .await
-                            .unwrap()
                             {
-                                raknet_log_info!("handle over");
-                                connected.close();
-                                is_break = true;
+                                Ok(true) => {}
+                                Ok(false) => {
+                                    raknet_log_info!("handle over");
+                                    connected.close();
+                                    is_break = true;
+                                }
+                                Err(e) => {
+                                    raknet_log_debug!("handle frame faild : {:?}", e);
+                                }
                             };
                         }
 
-- 
2.43.0


From b15cb692cfc3b2f95e5900fbf5fa4129a09e0584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 19/32] fix: an ack or nack of millions of packets never sent
 must not stall the connection

---
 src/arq.rs    | 10 ++++++++++
 src/socket.rs | 13 ++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index ebc8498..31b0bd6 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -751,7 +751,17 @@ impl SendQ {
         }
     }
 
+    /// The sequence number of the next packet, no packet from here on was sent yet.
+    pub fn next_sequence_number(&self) -> u32 {
+        self.sequence_number
+    }
+
     pub fn ack(&mut self, sequence: u32, tick: i64) {
+        // never sent
+        if sequence >= self.sequence_number {
+            return;
+        }
+
         if sequence != 0 && sequence != self.ack_sequence_number + 1 {
             for i in self.ack_sequence_number + 1..sequence {
                 self.nack(i, tick);
diff --git a/src/socket.rs b/src/socket.rs
index f7c2a91..25101cd 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -522,7 +522,11 @@ impl RaknetSocket {
                         if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
                             sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
                         } else {
-                            for i in ack.sequences[i as usize].0..ack.sequences[i as usize].1 + 1 {
+                            // a peer can only ack what was sent.
+                            let end = sendq
+                                .next_sequence_number()
+                                .min(ack.sequences[i as usize].1 + 1);
+                            for i in ack.sequences[i as usize].0..end {
                                 sendq.ack(i, cur_timestamp_millis());
                             }
                         }
@@ -546,8 +550,11 @@ impl RaknetSocket {
                         if nack.sequences[i as usize].0 == nack.sequences[i as usize].1 {
                             sendq.nack(nack.sequences[i as usize].0, cur_timestamp_millis());
                         } else {
-                            for i in nack.sequences[i as usize].0..nack.sequences[i as usize].1 + 1
-                            {
+                            // a peer can only miss what was sent.
+                            let end = sendq
+                                .next_sequence_number()
+                                .min(nack.sequences[i as usize].1 + 1);
+                            for i in nack.sequences[i as usize].0..end {
                                 sendq.nack(i, cur_timestamp_millis());
                             }
                         }
-- 
2.43.0


From 404cb2db3cc6a112046fc7b81fbb4bc760a87f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 20/32] fix: an mtu no frame fits in, or larger than offered,
 must not be taken from the peer

---
 src/server.rs | 12 ++++++++++--
 src/socket.rs | 12 ++++++++++--
 src/utils.rs  |  2 ++
 3 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index b26a6e2..6fe4057 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -389,11 +389,19 @@ impl RaknetListener {
                             Err(_) => continue,
                         };
 
+                        if req.mtu < RAKNET_MIN_MTU {
+                            raknet_log_debug!("mtu {} is too small : {}", req.mtu, addr);
+                            continue;
+                        }
+
+                        // never more than what was offered in reply 1.
+                        let mtu = req.mtu.min(RAKNET_CLIENT_MTU);
+
                         let packet = crate::packet::OpenConnectionReply2 {
                             magic: true,
                             guid,
                             address: addr,
-                            mtu: req.mtu,
+                            mtu,
                             encryption_enabled: 0x00,
                         };
 
@@ -464,7 +472,7 @@ impl RaknetListener {
                             &addr,
                             &socket,
                             receiver,
-                            req.mtu,
+                            mtu,
                             collect_sender.clone(),
                             raknet_version,
                         )
diff --git a/src/socket.rs b/src/socket.rs
index 25101cd..dbfe190 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -286,10 +286,18 @@ impl RaknetSocket {
             Err(_) => return Err(RaknetError::PacketParseError),
         };
 
+        if reply1.mtu_size < RAKNET_MIN_MTU {
+            raknet_log_debug!("mtu {} is too small", reply1.mtu_size);
+            return Err(RaknetError::IncorrectReply);
+        }
+
+        // never more than what was asked for in request 1.
+        let mtu = reply1.mtu_size.min(RAKNET_CLIENT_MTU);
+
         let packet = OpenConnectionRequest2 {
             magic: true,
             address: remote_addr,
-            mtu: reply1.mtu_size,
+            mtu,
             guid,
         };
 
@@ -345,7 +353,7 @@ impl RaknetSocket {
             break;
         }
 
-        let sendq = Arc::new(RwLock::new(SendQ::new(reply1.mtu_size)));
+        let sendq = Arc::new(RwLock::new(SendQ::new(mtu)));
 
         let packet = ConnectionRequest {
             guid,
diff --git a/src/utils.rs b/src/utils.rs
index 07d349e..f78eed3 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,6 +2,8 @@ pub const RAKNET_PROTOCOL_VERSION: u8 = 10;
 pub const RAKNET_PROTOCOL_VERSION_LIST: [u8; 2] = [10, 11];
 //the MTU is minecraft bedrock 1.18.2 give me
 pub const RAKNET_CLIENT_MTU: u16 = 1400;
+//no raknet peer asks for less, and a frame must fit in
+pub const RAKNET_MIN_MTU: u16 = 400;
 
 pub const RECEIVE_TIMEOUT: i64 = 60000;
 
-- 
2.43.0


From 939597b0587b84e38fad57ea789669117b729024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:19 +0000
Subject: [PATCH 21/32] fix: late fragments of a complete message must not be
 kept and mixed into another one

---
 src/arq.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arq.rs b/src/arq.rs
index 31b0bd6..9b1b984 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -492,6 +492,11 @@ impl RecvQ {
                     return Ok(());
                 }
 
+                // neither the fragments of a packet that only waits for its turn, they would never be complete again.
+                if self.ordered_packets.contains_key(&frame.ordered_frame_index) {
+                    return Ok(());
+                }
+
                 if frame.is_fragment() {
                     self.fragment_queue.insert(frame);
 
-- 
2.43.0


From 7e0f8acf7321baab59ed057cce6de419ede9c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 22/32] fix: a motd set after listen() must be the one pings
 are answered with

---
 src/server.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 6fe4057..cb87f07 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -1,5 +1,8 @@
 use std::collections::HashMap;
-use std::{net::SocketAddr, sync::Arc};
+use std::{
+    net::SocketAddr,
+    sync::{Arc, RwLock},
+};
 use tokio::net::UdpSocket;
 use tokio::sync::mpsc::channel;
 use tokio::sync::mpsc::{Receiver, Sender};
@@ -17,7 +20,7 @@ type SessionSender = (i64, Sender<Vec<u8>>, u64);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
-    motd: String,
+    motd: Arc<RwLock<String>>,
     socket: Option<Arc<UdpSocket>>,
     guid: u64,
     listened: bool,
@@ -50,7 +53,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(RwLock::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -88,7 +91,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(RwLock::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -208,7 +211,7 @@ impl RaknetListener {
             return;
         }
 
-        if self.motd.is_empty() {
+        if self.get_motd().await.is_empty() {
             self.set_motd(
                 SERVER_NAME,
                 MAX_CONNECTION,
@@ -224,7 +227,7 @@ impl RaknetListener {
         let guid = self.guid;
         let sessions = self.sessions.clone();
         let connection_sender = self.connection_sender.clone();
-        let motd = self.get_motd().await;
+        let motd = self.motd.clone();
 
         self.listened = true;
 
@@ -242,7 +245,6 @@ impl RaknetListener {
             raknet_log_debug!("start listen worker : {}", local_addr);
 
             loop {
-                let motd = motd.clone();
                 let size: usize;
                 let addr: SocketAddr;
 
@@ -289,7 +291,7 @@ impl RaknetListener {
                             time: cur_timestamp_millis(),
                             guid,
                             magic: true,
-                            motd,
+                            motd: motd.read().unwrap().clone(),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -315,7 +317,7 @@ impl RaknetListener {
                             time: cur_timestamp_millis(),
                             guid,
                             magic: true,
-                            motd,
+                            motd: motd.read().unwrap().clone(),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -556,7 +558,7 @@ impl RaknetListener {
         game_type: &str,
         port: u16,
     ) {
-        self.motd = format!(
+        let motd = format!(
             "MCPE;{};{};{};0;{};{};Bedrock level;{};1;{};",
             server_name,
             mc_protocol_version,
@@ -566,6 +568,7 @@ impl RaknetListener {
             game_type,
             port
         );
+        *self.motd.write().unwrap() = motd;
     }
 
     /// Get the current motd, this motd will be provided to the client in the unconnected pong.
@@ -576,7 +579,7 @@ impl RaknetListener {
     /// let motd = listener.get_motd().await;
     /// ```
     pub async fn get_motd(&self) -> String {
-        self.motd.clone()
+        self.motd.read().unwrap().clone()
     }
 
     /// Returns the socket address of the local half of this Raknet connection.
@@ -629,7 +632,7 @@ impl RaknetListener {
     /// socket.set_full_motd("motd").await;
     /// ```
     pub fn set_full_motd(&mut self, motd: String) -> Result<()> {
-        self.motd = motd;
+        *self.motd.write().unwrap() = motd;
         Ok(())
     }
 
-- 
2.43.0


From a1387737ea766d1bf7891f3369db28602d5bfb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:52 +0000
Subject: [PATCH 23/32] fix: a packet reported missing must be sent again at
 once, not later than without the report

---
 src/arq.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 9b1b984..0cb29ce 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -736,7 +736,7 @@ impl SendQ {
         self.rto
     }
 
-    pub fn nack(&mut self, sequence: u32, tick: i64) {
+    pub fn nack(&mut self, sequence: u32, _tick: i64) {
         for i in 0..self.sent_packet.len() {
             let item = &mut self.sent_packet[i];
             if item.1 && item.0.sequence_number == sequence {
@@ -749,8 +749,8 @@ impl SendQ {
                 );
                 item.0.sequence_number = self.sequence_number;
                 self.sequence_number += 1;
-                item.2 = tick;
-                item.3 += 1;
+                // resend at the next flush
+                item.1 = false;
                 item.4.push(item.0.sequence_number);
             }
         }
-- 
2.43.0


From 3185d48e93ec1c32f225ac5ed98a245eb0ab04f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 24/32] fix: a Reliable message whose ack was lost must not be
 received twice

---
 src/arq.rs    | 37 ++++++++++++++++++++++++++++++++++++-
 src/socket.rs |  2 +-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 0cb29ce..13d295c 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -1,4 +1,7 @@
-use std::{collections::HashMap, net::SocketAddr};
+use std::{
+    collections::{HashMap, HashSet},
+    net::SocketAddr,
+};
 
 use crate::{datatype::*, error::*, fragment::FragmentQ, raknet_log_debug, utils::*};
 
@@ -440,6 +443,10 @@ pub struct RecvQ {
     packets: HashMap<u32, FrameSetPacket>,
     ordered_packets: HashMap<u32, FrameSetPacket>,
     fragment_queue: FragmentQ,
+    //all reliable frames before this one have been received
+    reliable_frame_index: u32,
+    //the reliable frames received after it
+    reliable_received: HashSet<u32>,
 }
 
 impl RecvQ {
@@ -451,7 +458,35 @@ impl RecvQ {
             ordered_packets: HashMap::new(),
             sequenced_frame_index: 0,
             last_ordered_index: 0,
+            reliable_frame_index: 0,
+            reliable_received: HashSet::new(),
+        }
+    }
+
+    /// Insert a frame unless it is a reliable one that has been received before, under another sequence number.
+    pub fn insert_once(&mut self, frame: FrameSetPacket) -> Result<()> {
+        if frame.is_reliable()? && !self.first_received(frame.reliable_frame_index) {
+            if let Reliability::Reliable = frame.reliability()? {
+                // our ack was lost
+                self.sequence_number_ackset.insert(frame.sequence_number);
+                return Ok(());
+            }
+        }
+        self.insert(frame)
+    }
+
+    fn first_received(&mut self, reliable_frame_index: u32) -> bool {
+        // the index has 24 bits and wraps around, half of them are ahead.
+        if (reliable_frame_index.wrapping_sub(self.reliable_frame_index) & 0xffffff) >= 0x800000
+            || !self.reliable_received.insert(reliable_frame_index)
+        {
+            return false;
+        }
+
+        while self.reliable_received.remove(&self.reliable_frame_index) {
+            self.reliable_frame_index = (self.reliable_frame_index + 1) & 0xffffff;
         }
+        true
     }
 
     pub fn insert(&mut self, frame: FrameSetPacket) -> Result<()> {
diff --git a/src/socket.rs b/src/socket.rs
index dbfe190..30e02b0 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -585,7 +585,7 @@ impl RaknetSocket {
                     let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
-                        if let Err(e) = recvq.insert(frame) {
+                        if let Err(e) = recvq.insert_once(frame) {
                             raknet_log_debug!("insert frame faild : {:?}", e);
                             continue;
                         }
-- 
2.43.0


From 18c38d5119a4768b915103694c5f6e7b579db6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:05 +0000
Subject: [PATCH 25/32] fix: a connection must survive its 16777216th packet

Sequence numbers and frame indexes have 24 bits on the wire and wrap around; acks
no longer matched what was sent, and everything received looked old for ever.
---
 src/arq.rs    | 82 ++++++++++++++++++++++++++++++---------------------
 src/socket.rs |  4 +--
 2 files changed, 50 insertions(+), 36 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 13d295c..059d59e 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -54,6 +54,13 @@ impl Reliability {
 const NEEDS_B_AND_AS_FLAG: u8 = 0x4;
 const CONTINUOUS_SEND_FLAG: u8 = 0x8;
 
+const U24_MAX: u32 = 0xffffff;
+
+// sequence numbers and frame indexes have 24 bits and wrap around, half of them are ahead.
+fn u24_before(a: u32, b: u32) -> bool {
+    (a.wrapping_sub(b) & U24_MAX) > U24_MAX / 2
+}
+
 #[derive(Clone)]
 pub struct FrameSetPacket {
     pub id: u8,
@@ -399,14 +406,17 @@ impl ACKSet {
         }
     }
     pub fn insert(&mut self, s: u32) {
-        if s != 0 {
-            if s > self.last_max && s != self.last_max + 1 {
-                self.nack.push((self.last_max + 1, s - 1));
-            }
-
-            if s > self.last_max {
-                self.last_max = s;
+        if !u24_before(s, self.last_max) && s != self.last_max {
+            let begin = (self.last_max + 1) & U24_MAX;
+            if begin < s {
+                self.nack.push((begin, s - 1));
+            } else if begin > s {
+                self.nack.push((begin, U24_MAX));
+                if s != 0 {
+                    self.nack.push((0, s - 1));
+                }
             }
+            self.last_max = s;
         }
 
         for i in 0..self.ack.len() {
@@ -476,15 +486,14 @@ impl RecvQ {
     }
 
     fn first_received(&mut self, reliable_frame_index: u32) -> bool {
-        // the index has 24 bits and wraps around, half of them are ahead.
-        if (reliable_frame_index.wrapping_sub(self.reliable_frame_index) & 0xffffff) >= 0x800000
+        if u24_before(reliable_frame_index, self.reliable_frame_index)
             || !self.reliable_received.insert(reliable_frame_index)
         {
             return false;
         }
 
         while self.reliable_received.remove(&self.reliable_frame_index) {
-            self.reliable_frame_index = (self.reliable_frame_index + 1) & 0xffffff;
+            self.reliable_frame_index = (self.reliable_frame_index + 1) & U24_MAX;
         }
         true
     }
@@ -507,12 +516,12 @@ impl RecvQ {
             // because the new packet represents the new state, and the new state can be used directly, without waiting for the old packet to arrive.
             Reliability::UnreliableSequenced => {
                 let sequenced_frame_index = frame.sequenced_frame_index;
-                if sequenced_frame_index >= self.sequenced_frame_index {
+                if !u24_before(sequenced_frame_index, self.sequenced_frame_index) {
                     if let std::collections::hash_map::Entry::Vacant(e) =
                         self.packets.entry(frame.sequence_number)
                     {
                         e.insert(frame);
-                        self.sequenced_frame_index = sequenced_frame_index + 1;
+                        self.sequenced_frame_index = (sequenced_frame_index + 1) & U24_MAX;
                     }
                 }
             }
@@ -523,7 +532,7 @@ impl RecvQ {
             // RELIABLE_ORDERED - 1, 2, 3, 4, 5, 6
             Reliability::ReliableOrdered => {
                 // if remote host not received ack , and local program has flush ordered packet. recvq will insert old packet caused memory leak.
-                if frame.ordered_frame_index < self.last_ordered_index {
+                if u24_before(frame.ordered_frame_index, self.last_ordered_index) {
                     return Ok(());
                 }
 
@@ -549,12 +558,12 @@ impl RecvQ {
             // RELIABLE_SEQUENCED - 5, 6 (1,2,3,4 arrived later than 5)
             Reliability::ReliableSequenced => {
                 let sequenced_frame_index = frame.sequenced_frame_index;
-                if sequenced_frame_index >= self.sequenced_frame_index {
+                if !u24_before(sequenced_frame_index, self.sequenced_frame_index) {
                     if let std::collections::hash_map::Entry::Vacant(e) =
                         self.packets.entry(frame.sequence_number)
                     {
                         e.insert(frame);
-                        self.sequenced_frame_index = sequenced_frame_index + 1;
+                        self.sequenced_frame_index = (sequenced_frame_index + 1) & U24_MAX;
                     }
                 }
             }
@@ -572,18 +581,11 @@ impl RecvQ {
 
     pub fn flush(&mut self, _peer_addr: &SocketAddr) -> Vec<FrameSetPacket> {
         let mut ret = vec![];
-        let mut ordered_keys: Vec<u32> = self.ordered_packets.keys().cloned().collect();
 
-        ordered_keys.sort_unstable();
-
-        for i in ordered_keys {
-            if i == self.last_ordered_index {
-                let frame = self.ordered_packets[&i].clone();
-                ret.push(frame);
-                self.ordered_packets.remove(&i);
-                //raknet_log!("{} : received ordered [{}]" , peer_addr ,self.last_ordered_index);
-                self.last_ordered_index = i + 1;
-            }
+        while let Some(frame) = self.ordered_packets.remove(&self.last_ordered_index) {
+            ret.push(frame);
+            //raknet_log!("{} : received ordered [{}]" , peer_addr ,self.last_ordered_index);
+            self.last_ordered_index = (self.last_ordered_index + 1) & U24_MAX;
         }
 
         let mut packets_keys: Vec<u32> = self.packets.keys().cloned().collect();
@@ -772,6 +774,12 @@ impl SendQ {
     }
 
     pub fn nack(&mut self, sequence: u32, _tick: i64) {
+        if let Some(p) = self.last_sent(sequence) {
+            self.resend(p);
+        }
+    }
+
+    fn resend(&mut self, sequence: u32) {
         for i in 0..self.sent_packet.len() {
             let item = &mut self.sent_packet[i];
             if item.1 && item.0.sequence_number == sequence {
@@ -791,20 +799,26 @@ impl SendQ {
         }
     }
 
-    /// The sequence number of the next packet, no packet from here on was sent yet.
-    pub fn next_sequence_number(&self) -> u32 {
-        self.sequence_number
+    /// All sequence numbers (of 24 bits) that were sent are below this one.
+    pub fn sequence_number_end(&self) -> u32 {
+        self.sequence_number.min(U24_MAX + 1)
+    }
+
+    // the last packet sent under a sequence number of 24 bits
+    fn last_sent(&self, sequence: u32) -> Option<u32> {
+        let last = self.sequence_number.checked_sub(1)?;
+        last.checked_sub(last.wrapping_sub(sequence) & U24_MAX)
     }
 
     pub fn ack(&mut self, sequence: u32, tick: i64) {
-        // never sent
-        if sequence >= self.sequence_number {
-            return;
-        }
+        let sequence = match self.last_sent(sequence) {
+            Some(p) => p,
+            None => return,
+        };
 
         if sequence != 0 && sequence != self.ack_sequence_number + 1 {
             for i in self.ack_sequence_number + 1..sequence {
-                self.nack(i, tick);
+                self.resend(i);
             }
         }
 
diff --git a/src/socket.rs b/src/socket.rs
index 30e02b0..070d685 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -532,7 +532,7 @@ impl RaknetSocket {
                         } else {
                             // a peer can only ack what was sent.
                             let end = sendq
-                                .next_sequence_number()
+                                .sequence_number_end()
                                 .min(ack.sequences[i as usize].1 + 1);
                             for i in ack.sequences[i as usize].0..end {
                                 sendq.ack(i, cur_timestamp_millis());
@@ -560,7 +560,7 @@ impl RaknetSocket {
                         } else {
                             // a peer can only miss what was sent.
                             let end = sendq
-                                .next_sequence_number()
+                                .sequence_number_end()
                                 .min(nack.sequences[i as usize].1 + 1);
                             for i in nack.sequences[i as usize].0..end {
                                 sendq.nack(i, cur_timestamp_millis());
-- 
2.43.0


From e89ad9900a035880531fc4c417b670af68a2b39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 26/32] fix: the latency of a ping must not depend on the clock
 of the server

The time in the pong is the clock of the server, which differs from ours, and a pong
for an earlier ping gave a negative latency.
---
 src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 070d685..95b8378 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -861,7 +861,7 @@ impl RaknetSocket {
             };
 
             if let Ok(p) = read_packet_pong(&buf) {
-                return Ok((p.time - packet.time, p.motd));
+                return Ok((cur_timestamp_millis() - packet.time, p.motd));
             };
 
             tokio::time::sleep(std::time::Duration::from_secs(2)).await;
-- 
2.43.0


From 98679ca8f0defd90b862cb778a307b345ebafa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:32 +0000
Subject: [PATCH 27/32] fix: the loss of the first datagram of a connection
 must be reported too

---
 src/arq.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 059d59e..3405c66 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -394,7 +394,8 @@ impl FrameVec {
 pub struct ACKSet {
     ack: Vec<(u32, u32)>,
     nack: Vec<(u32, u32)>,
-    last_max: u32,
+    // one more than the newest sequence number received
+    next: u32,
 }
 
 impl ACKSet {
@@ -402,12 +403,12 @@ impl ACKSet {
         ACKSet {
             ack: vec![],
             nack: vec![],
-            last_max: 0,
+            next: 0,
         }
     }
     pub fn insert(&mut self, s: u32) {
-        if !u24_before(s, self.last_max) && s != self.last_max {
-            let begin = (self.last_max + 1) & U24_MAX;
+        if !u24_before(s, self.next) {
+            let begin = self.next;
             if begin < s {
                 self.nack.push((begin, s - 1));
             } else if begin > s {
@@ -416,7 +417,7 @@ impl ACKSet {
                     self.nack.push((0, s - 1));
                 }
             }
-            self.last_max = s;
+            self.next = (s + 1) & U24_MAX;
         }
 
         for i in 0..self.ack.len() {
-- 
2.43.0


From fcf54a05616df81673b0ace7940b6ce80eb7d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:23 +0000
Subject: [PATCH 28/32] fix: an ack of later data must have the first datagram
 of a connection resent too

---
 src/arq.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 3405c66..9b76c3d 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -619,7 +619,8 @@ impl RecvQ {
 
 pub struct SendQ {
     mtu: u16,
-    ack_sequence_number: u32,
+    // one more than the sequence number acknowledged last
+    next_ack_sequence_number: u32,
     sequence_number: u32,
     reliable_frame_index: u32,
     sequenced_frame_index: u32,
@@ -641,7 +642,7 @@ impl SendQ {
     pub fn new(mtu: u16) -> Self {
         Self {
             mtu,
-            ack_sequence_number: 0,
+            next_ack_sequence_number: 0,
             sequence_number: 0,
             packets: vec![],
             sent_packet: vec![],
@@ -817,13 +818,11 @@ impl SendQ {
             None => return,
         };
 
-        if sequence != 0 && sequence != self.ack_sequence_number + 1 {
-            for i in self.ack_sequence_number + 1..sequence {
-                self.resend(i);
-            }
+        for i in self.next_ack_sequence_number..sequence {
+            self.resend(i);
         }
 
-        self.ack_sequence_number = sequence;
+        self.next_ack_sequence_number = sequence + 1;
 
         let mut rtts = vec![];
 
-- 
2.43.0


From bfd680d83369cfefabe1452f872d37ff330ffbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:02 +0000
Subject: [PATCH 29/32] fix: ping must look at what arrived only, not at the
 rest of its buffer

---
 src/socket.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 95b8378..5ea9f9e 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -843,9 +843,9 @@ impl RaknetSocket {
                 }
             };
 
-            let mut buf = [0u8; 1024];
+            let mut buf = [0u8; 2048];
 
-            match match tokio::time::timeout(
+            let (size, _) = match match tokio::time::timeout(
                 std::time::Duration::from_secs(5),
                 s.recv_from(&mut buf),
             )
@@ -860,9 +860,11 @@ impl RaknetSocket {
                 Err(_) => return Err(RaknetError::SocketError),
             };
 
-            if let Ok(p) = read_packet_pong(&buf) {
-                return Ok((cur_timestamp_millis() - packet.time, p.motd));
-            };
+            if size > 0 && buf[0] == PacketID::UnconnectedPong.to_u8() {
+                if let Ok(p) = read_packet_pong(&buf[..size]) {
+                    return Ok((cur_timestamp_millis() - packet.time, p.motd));
+                };
+            }
 
             tokio::time::sleep(std::time::Duration::from_secs(2)).await;
         }
-- 
2.43.0


From 465abe26411285e2003776b09a6751197f51d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:37 +0000
Subject: [PATCH 30/32] fix: the drop watcher must not take the notification
 its starter waits for

---
 src/server.rs | 4 ----
 src/socket.rs | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index cb87f07..bcb7de9 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -647,8 +647,6 @@ impl RaknetListener {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("listener drop watcher start");
-            drop_notifier.notify_one();
-
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -660,8 +658,6 @@ impl RaknetListener {
 
             raknet_log_debug!("listener drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
diff --git a/src/socket.rs b/src/socket.rs
index 5ea9f9e..61f8d22 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -1004,8 +1004,6 @@ impl RaknetSocket {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("socket drop watcher start");
-            drop_notifier.notify_one();
-
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -1017,8 +1015,6 @@ impl RaknetSocket {
 
             raknet_log_debug!("socket drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
-- 
2.43.0


From ffff05c29e9fa261f1c72d856eb68b30947264bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:29 +0000
Subject: [PATCH 31/32] fix: a new incoming connection carries the server's
 address, not the client's own

---
 src/socket.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 61f8d22..1dbafe7 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -90,7 +90,6 @@ impl RaknetSocket {
     async fn handle(
         frame: &FrameSetPacket,
         peer_addr: &SocketAddr,
-        local_addr: &SocketAddr,
         sendq: &RwLock<SendQ>,
         user_data_sender: &UnboundedSender<Vec<u8>>,
         incomming_notify: &Notify,
@@ -120,7 +119,7 @@ impl RaknetSocket {
                 let packet = read_packet_connection_request_accepted(frame.data.as_slice())?;
 
                 let packet_reply = NewIncomingConnection {
-                    server_address: *local_addr,
+                    server_address: *peer_addr,
                     request_timestamp: packet.request_timestamp,
                     accepted_timestamp: cur_timestamp_millis(),
                 };
@@ -466,7 +465,6 @@ impl RaknetSocket {
     ) {
         let connected = self.close_notifier.clone();
         let peer_addr = self.peer_addr;
-        let local_addr = self.local_addr;
         let sendq = self.sendq.clone();
         let recvq = self.recvq.clone();
         let last_heartbeat_time = self.last_heartbeat_time.clone();
@@ -482,7 +480,6 @@ impl RaknetSocket {
                         if let Err(e) = RaknetSocket::handle(
                             &f,
                             &peer_addr,
-                            &local_addr,
                             &sendq,
                             &user_data_sender,
                             &incomming_notify,
@@ -594,7 +591,6 @@ impl RaknetSocket {
                             match RaknetSocket::handle(
                                 &f,
                                 &peer_addr,
-                                &local_addr,
                                 &sendq,
                                 &user_data_sender,
                                 &incomming_notify,
-- 
2.43.0


From 66e50728441be6bc6ffc5eec9cf9e6a9d222c76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:00 +0000
Subject: [PATCH 32/32] fix: no connection for a client whose version was
 refused

---
 src/server.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index bcb7de9..e9c2129 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -396,6 +396,12 @@ impl RaknetListener {
                             continue;
                         }
 
+                        // no connection for a client whose version was refused in reply to request 1.
+                        let raknet_version = match version_map.lock().await.get(&addr.to_string()) {
+                            Some(p) => *p,
+                            None => continue,
+                        };
+
                         // never more than what was offered in reply 1.
                         let mtu = req.mtu.min(RAKNET_CLIENT_MTU);
 
@@ -462,14 +468,6 @@ impl RaknetListener {
 
                         let (sender, receiver) = channel::<Vec<u8>>(10);
 
-                        let raknet_version: u8;
-                        {
-                            let version_map = version_map.lock().await;
-                            raknet_version = *version_map
-                                .get(&addr.to_string())
-                                .unwrap_or(&RAKNET_PROTOCOL_VERSION);
-                        }
-
                         let s = RaknetSocket::from(
                             &addr,
                             &socket,
-- 
2.43.0

