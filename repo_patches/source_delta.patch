From 3e9ca749e44c743248ee7176cf09a248bebf5a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 01/45] fix: raw: do not execute a command cut short by a
 disconnect

---
 raw/src/server/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index da13cc6..e7fa790 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -136,6 +136,12 @@ impl Server {
                 break;
             }
 
+            // Disconnected in the middle of a command, do not execute half of it
+            if cmd.last() != Some(&self.0.read_termination) {
+                log::warn!("{:?} disconnected before terminating command", peer);
+                break;
+            }
+
             log::trace!("{:?} read {} bytes", peer, cmd.len());
 
             let resp = {
-- 
2.43.0


From a08cc4cd78b44bbc6939526d8c31a8228af4aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:47 +0000
Subject: [PATCH 02/45] fix: keep listening when a connection fails while being
 set up

---
 hislip/src/server/mod.rs                | 21 +++++++++++++++++++--
 raw/src/server/mod.rs                   | 22 +++++++++++++++++++---
 telnet/src/server/mod.rs                |  9 ++++++++-
 vxi11/src/server/portmapper.rs          |  9 ++++++++-
 vxi11/src/server/vxi11/abort_service.rs |  9 ++++++++-
 vxi11/src/server/vxi11/core_service.rs  |  9 ++++++++-
 6 files changed, 70 insertions(+), 9 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index e86db47..c72f834 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -3,9 +3,11 @@ use std::collections::HashMap;
 use std::io;
 use std::str::from_utf8;
 use std::sync::Weak;
+use std::time::Duration;
 
 use async_std::net::{TcpListener, ToSocketAddrs};
 use async_std::sync::Arc;
+use async_std::task;
 
 use futures::task::{Spawn, SpawnExt};
 use futures::{AsyncRead, AsyncWrite, AsyncWriteExt, Stream, StreamExt};
@@ -174,8 +176,23 @@ where
         let listener = TcpListener::bind(addr).await?;
         let mut incoming = listener.incoming();
         while let Some(stream) = incoming.next().await {
-            let stream = stream?;
-            let peer = stream.peer_addr()?;
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(err) => {
+                    // Might be caused by a lack of resources, give it some time to recover
+                    log::warn!("Listening error: {}", err);
+                    task::sleep(Duration::from_millis(100)).await;
+                    continue;
+                }
+            };
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Connection is already gone, keep serving the others
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
 
             let s = self.clone();
             let t = srq.get_new_receiver();
diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index e7fa790..4cbe95f 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -43,13 +43,22 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Connection is already gone, keep serving the others
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
             let device = device.clone();
 
-            stream.set_nodelay(true)?;
+            if let Err(err) = stream.set_nodelay(true) {
+                log::warn!("Failed to set nodelay on {}: {}", peer, err);
+            }
 
             task::spawn(async move {
                 let (reader, writer) = stream.split();
@@ -86,7 +95,14 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Connection is already gone, keep serving the others
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             log::info!("Accepted from: {:?}", peer);
 
             let shared_lock = shared_lock.clone();
diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 905bf82..687dfe3 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -42,7 +42,14 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Connection is already gone, keep serving the others
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
diff --git a/vxi11/src/server/portmapper.rs b/vxi11/src/server/portmapper.rs
index 68cbddc..8ca8f28 100644
--- a/vxi11/src/server/portmapper.rs
+++ b/vxi11/src/server/portmapper.rs
@@ -64,7 +64,14 @@ impl<const N: usize> StaticPortMap<N> {
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Connection is already gone, keep serving the others
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/abort_service.rs b/vxi11/src/server/vxi11/abort_service.rs
index a33283e..846e2fe 100644
--- a/vxi11/src/server/vxi11/abort_service.rs
+++ b/vxi11/src/server/vxi11/abort_service.rs
@@ -42,7 +42,14 @@ where
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Connection is already gone, keep serving the others
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 894df22..33fd9e3 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -71,7 +71,14 @@ where
             .handle_errors(Duration::from_millis(100))
             .backpressure(10);
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Connection is already gone, keep serving the others
+                    log::warn!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
             let s = Arc::new(VxiCoreSession {
                 peer,
-- 
2.43.0


From 1161ea0be1d820d2f82dfbecf3e3858358cb0c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 03/45] fix: telnet: end the session when the client
 disconnects

---
 telnet/src/server/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 687dfe3..85ba8e5 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -71,7 +71,7 @@ impl Server {
         mut stream: IO,
         shared_lock: Arc<SpinMutex<SharedLock>>,
         device: Arc<Mutex<DEV>>,
-        _peer: SA,
+        peer: SA,
     ) -> io::Result<()>
     where
         DEV: Device + Send,
@@ -99,6 +99,10 @@ impl Server {
 
             // Read a line from stream.
             let n = stream.read(&mut buf).await?;
+            if n == 0 {
+                log::info!("{:?} disconnected", peer);
+                break Ok(());
+            }
 
             let events = instance.receive(&buf[..n]);
             for event in events {
-- 
2.43.0


From bbe44088bd5492dab9dcfd1b916bca16c7173c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:55 +0000
Subject: [PATCH 04/45] fix: telnet: do not drop the last character of a line
 ended by a bare LF

---
 telnet/src/server/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 85ba8e5..cc27502 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -127,7 +127,9 @@ impl Server {
 
                             if b == b'\n' {
                                 // Remove \r
-                                cmd.pop();
+                                if cmd.last() == Some(&b'\r') {
+                                    cmd.pop();
+                                }
                                 // Lock device and execute
                                 let resp = {
                                     let mut device = handle.async_lock().await.unwrap();
-- 
2.43.0


From 0a7eab43ad0240baca9997e73dfda901a278655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:20 +0000
Subject: [PATCH 05/45] fix: telnet: handle commands split between reads,
 escaped 0xff and erase commands

---
 telnet/src/server/mod.rs | 58 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index cc27502..7430d6e 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -12,6 +12,7 @@ use async_std::net::{TcpListener, ToSocketAddrs};
 use async_listen::ListenExt;
 
 use libtelnet_rs::events::TelnetEvents;
+use libtelnet_rs::telnet::op_command::{DO, DONT, IAC, SB, SE, WILL, WONT};
 use libtelnet_rs::{telnet::op_option as options, Parser};
 
 use lxi_device::lock::SpinMutex;
@@ -20,6 +21,55 @@ use lxi_device::{
     Device,
 };
 
+/// Tells data from telnet commands
+///
+/// Remembers the part of a command received so far since nothing says that it has to arrive in one piece.
+enum Scanner {
+    Data,
+    Iac,
+    Negotiation(u8),
+    Subnegotiation,
+    SubnegotiationIac,
+}
+
+impl Scanner {
+    /// Get the next event or `None` when all bytes received so far are used
+    fn next<'a>(
+        &mut self,
+        parser: &mut Parser,
+        received: &mut impl Iterator<Item = &'a u8>,
+    ) -> Option<TelnetEvents> {
+        received.find_map(|&b| {
+            let (state, event) = match self {
+                Scanner::Data if b == IAC => (Scanner::Iac, None),
+                Scanner::Iac if b == SB => (Scanner::Subnegotiation, None),
+                Scanner::Iac if matches!(b, WILL | WONT | DO | DONT) => {
+                    (Scanner::Negotiation(b), None)
+                }
+                Scanner::Iac if b != IAC => (Scanner::Data, Some(TelnetEvents::build_iac(b))),
+                // Plain or escaped data
+                Scanner::Data | Scanner::Iac => (
+                    Scanner::Data,
+                    Some(TelnetEvents::build_receive(vec![b].into())),
+                ),
+                Scanner::Negotiation(cmd) => {
+                    let mut events = parser.receive(&[IAC, *cmd, b]).into_iter();
+                    let reply = events.find(|e| matches!(e, TelnetEvents::DataSend(_)));
+                    (Scanner::Data, reply)
+                }
+                // No option which is supported has any parameters
+                Scanner::Subnegotiation if b == IAC => (Scanner::SubnegotiationIac, None),
+                Scanner::SubnegotiationIac if b == SE => (Scanner::Data, None),
+                Scanner::Subnegotiation | Scanner::SubnegotiationIac => {
+                    (Scanner::Subnegotiation, None)
+                }
+            };
+            *self = state;
+            event
+        })
+    }
+}
+
 pub struct Server(ServerConfig);
 
 impl Server {
@@ -85,6 +135,8 @@ impl Server {
         instance.options.support_local(options::SGA);
         instance.options.support_local(options::BINARY);
 
+        let mut scanner = Scanner::Data;
+
         let mut buf = [0u8; 128];
         let mut cmd = Vec::with_capacity(self.0.read_buffer);
 
@@ -104,8 +156,8 @@ impl Server {
                 break Ok(());
             }
 
-            let events = instance.receive(&buf[..n]);
-            for event in events {
+            let mut received = buf[..n].iter();
+            while let Some(event) = scanner.next(&mut instance, &mut received) {
                 match event {
                     TelnetEvents::IAC(iac) => match iac.command {
                         247 /* EC */ => {
@@ -122,7 +174,7 @@ impl Server {
                         for b in data {
                             // Echo back if enabled
                             if instance.options.get_option(options::ECHO).local_state {
-                                stream.write_all(&[b]).await?;
+                                stream.write_all(&Parser::escape_iac(vec![b])).await?;
                             }
 
                             if b == b'\n' {
-- 
2.43.0


From 8b1ed0669602443c35f27df4133a09cc359b6f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:22 +0000
Subject: [PATCH 06/45] fix: lock: do not use the device if a lock was granted
 to someone else while waiting for it

---
 device/src/lock.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index 6595319..f0555d0 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -346,7 +346,10 @@ impl<DEV> LockHandle<DEV> {
         // Check any active locks
         self.can_lock()?;
         // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // A lock may have been granted to someone else in the meantime
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Lock device if allowed
@@ -366,6 +369,10 @@ impl<DEV> LockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
+                            // A lock may have been granted to someone else while waiting
+                            if self.can_lock().is_err() {
+                                continue;
+                            }
                             log::trace!(id=self.id; "Locked!");
                             return Ok(guard)
                         },
@@ -447,7 +454,10 @@ impl<DEV> RemoteLockHandle<DEV> {
         // Check any active locks
         self.can_lock()?;
         // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // A lock may have been granted to someone else in the meantime
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Wait for device becoming onlocked (or handle acquiring a lock) and available
@@ -470,6 +480,10 @@ impl<DEV> RemoteLockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
+                            // A lock may have been granted to someone else while waiting
+                            if self.can_lock().is_err() {
+                                continue;
+                            }
                             log::trace!("Locked!");
                             return Ok(guard)
                         },
-- 
2.43.0


From d2e6ba36b18192571357319494a179980502877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 07/45] fix: lock: do not keep a waker for every wait until the
 next lock event

---
 device/src/lock.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index f0555d0..d3f7488 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -79,6 +79,8 @@ impl SharedLock {
 
     fn listen(&mut self) -> Receiver<()> {
         let (sender, receiver) = channel();
+        // Forget those who no longer wait, there might not be a lock event for a long time
+        self.event.retain(|s| !s.is_canceled());
         self.event.push(sender);
         receiver
     }
-- 
2.43.0


From d70d5422b133ef127df3921e0df98a2eae51752c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:31 +0000
Subject: [PATCH 08/45] fix: status: forget dropped receivers when adding new
 ones

---
 device/src/status.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/device/src/status.rs b/device/src/status.rs
index da56575..b601128 100644
--- a/device/src/status.rs
+++ b/device/src/status.rs
@@ -35,6 +35,8 @@ impl Sender {
     pub fn get_new_receiver(&mut self) -> Receiver {
         let mut senders = self.senders.lock();
         let (sender, receiver) = mpsc::channel(1);
+        // Forget dropped receivers, there might not be a status event for a long time
+        senders.retain(|sender| !sender.is_closed());
         senders.push(sender);
         receiver
     }
-- 
2.43.0


From eff24440026c3faf03a234d0d2406c90c5813e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 09/45] fix: hislip: do not accept a message cut short by a
 disconnect

---
 hislip/src/common/messages.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 960c427..c4de401 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -77,6 +77,10 @@ impl Message {
                 )));
             }
             reader.take(len).read_to_end(&mut payload).await?;
+            if (payload.len() as u64) < len {
+                // Connection ended in the middle of the message
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             match MessageType::from_message_type(buf[2]).ok_or_else(|| {
                 Error::NonFatal(
                     NonFatalErrorCode::UnrecognizedMessageType,
-- 
2.43.0


From 74b417379e8833d138222c5ff7365ba7e30ff30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 10/45] fix: hislip: skip the payload of a message that is too
 large

---
 hislip/src/common/messages.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index c4de401..dd8cb73 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -64,6 +64,11 @@ impl Message {
         let message_parameter = BigEndian::read_u32(&buf[4..8]);
 
         if len > maxlen {
+            // Skip the payload, the next message starts after it
+            let skipped = futures::io::copy(reader.take(len), &mut futures::io::sink()).await?;
+            if skipped < len {
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             Ok(Err(Error::NonFatal(
                 NonFatalErrorCode::MessageTooLarge,
                 "Message payload too large".to_string(),
-- 
2.43.0


From 4c16668d2ce09b5004194a46ff466ca10211d0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 11/45] fix: hislip: forget the short-circuited *IDN? once it
 is answered

---
 hislip/src/server/session/synchronous.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index a368cae..0e7a4ee 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -236,10 +236,9 @@ where
                                         {
                                             self.config.short_idn.clone()
                                         } else {
-                                            let data = dev.execute(&buffer);
-                                            buffer.clear();
-                                            data
+                                            dev.execute(&buffer)
                                         };
+                                        buffer.clear();
 
                                         // Send back response
                                         if let Some(data) = data {
-- 
2.43.0


From fd6d0bddc061244439626a5c5dbcd71a40393015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 12/45] fix: hislip: do not keep the lock handle from the sync
 channel while waiting for a lock

---
 hislip/src/server/session/asynchronous.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 3b23d4e..1718086 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -10,7 +10,7 @@ use byteorder::{ByteOrder, NetworkEndian};
 use futures::future::Either;
 use futures::lock::Mutex;
 use futures::{pin_mut, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, FutureExt, Stream};
-use lxi_device::lock::{LockHandle, SharedLockError, SharedLockMode, SpinMutex};
+use lxi_device::lock::{LockHandle, RemoteLockHandle, SharedLockError, SharedLockMode, SpinMutex};
 use lxi_device::{Device, DeviceError};
 
 use crate::common::errors::{Error, FatalErrorCode, NonFatalErrorCode};
@@ -174,7 +174,8 @@ where
 
                                         log::debug!(peer=peer.to_string(), session_id=self.id, timeout=timeout; "Async lock: {:?}", lockstr);
                                         // Try to acquire lock
-                                        let mut handle = self.handle.lock();
+                                        // (without keeping the handle from the sync channel while waiting)
+                                        let handle = RemoteLockHandle::new(self.handle.clone());
                                         let res = if timeout == 0 {
                                             // Try to lock immediately
                                             handle.try_acquire(lockstr.as_bytes())
-- 
2.43.0


From e81c108b115899de9383bd29c622340b13e45cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 13/45] fix: hislip: do not keep the session locked while the
 async channel waits for the device

---
 hislip/src/server/session/asynchronous.rs | 27 ++++++++++++-----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 1718086..9f2c98b 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -217,44 +217,43 @@ where
                             ..
                         } => {
                             log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Remote/local request = {}", request);
-                            let mut shared = self.shared.lock().await;
-                            let handle = self.handle.lock();
+                            let handle = RemoteLockHandle::new(self.handle.clone());
                             let res = match request {
                                 0 => {
                                     // Disable remote
-                                    shared.enable_remote = false;
+                                    self.shared.lock().await.enable_remote = false;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
                                 }
                                 1 => {
                                     // Enable remote
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     Ok(())
                                 }
                                 2 => {
                                     // Disable remote and go to local
-                                    shared.enable_remote = false;
+                                    self.shared.lock().await.enable_remote = false;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
                                 }
                                 3 => {
                                     //Enable remote and go to remote
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_remote(false)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     Ok(())
                                 }
                                 5 => {
                                     // Enable remote, got to remote, and set local lockout
-                                    shared.enable_remote = true;
+                                    self.shared.lock().await.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     dev.set_remote(true)
@@ -266,8 +265,6 @@ where
                                 }
                                 _ => Err(DeviceError::NotSupported),
                             };
-                            drop(shared);
-                            drop(handle);
 
                             match res {
                                 Ok(_) => {
@@ -352,15 +349,19 @@ where
 
                             let stb = {
                                 let shared = self.shared.lock().await;
-                                let handle = self.handle.lock();
+                                let sent = shared.sent_message_id;
+                                let enable_remote = shared.enable_remote;
+                                // The sync channel may be using the device and need the session
+                                drop(shared);
+
+                                let handle = RemoteLockHandle::new(self.handle.clone());
                                 let mut dev = handle.inner_lock().await;
 
                                 // Calculate MAV bit
-                                let sent = shared.sent_message_id;
                                 let mav = if sent > message_id { 0x10 } else { 0x00 };
 
                                 // Enable remote
-                                if shared.enable_remote {
+                                if enable_remote {
                                     let _res = dev.set_remote(true);
                                 }
 
-- 
2.43.0


From 03adfa75e0937b6786204925c2a074e122521532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 14/45] fix: hislip: do not keep the device from other clients
 while sending to this one

---
 hislip/src/server/session/synchronous.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 0e7a4ee..23d30ab 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -174,6 +174,7 @@ where
                             message_type: MessageType::VendorSpecific(code),
                             ..
                         } => {
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream, NonFatalErrorCode::UnrecognizedVendorDefinedMessage,
                                 "Unrecognized Vendor Defined Message ({})", code
@@ -220,6 +221,7 @@ where
                                     shared.read_message_id = message_id;
 
                                     if buffer.try_reserve_exact(data.len()).is_err() {
+                                        drop(dev);
                                         send_fatal!(peer=peer.to_string(), session_id=self.id;
                                             &mut stream,
                                             FatalErrorCode::UnidentifiedError,
@@ -239,6 +241,8 @@ where
                                             dev.execute(&buffer)
                                         };
                                         buffer.clear();
+                                        // Do not keep the device from others while sending
+                                        drop(dev);
 
                                         // Send back response
                                         if let Some(data) = data {
@@ -276,6 +280,7 @@ where
                                 }
                                 // Initial handshake
                                 SessionState::Handshake => {
+                                    drop(dev);
                                     send_fatal!(peer=peer.to_string(), session_id=self.id;
                                         &mut stream,
                                         FatalErrorCode::AttemptUseWithoutBothChannels,
@@ -304,6 +309,7 @@ where
                                 }
                                 // Initial handshake
                                 SessionState::Handshake => {
+                                    drop(dev);
                                     send_fatal!(peer=peer.to_string(), session_id=self.id;
                                         &mut stream,
                                         FatalErrorCode::AttemptUseWithoutBothChannels,
@@ -317,6 +323,7 @@ where
                             ..
                         } => {
                             // Should've been handled above when AsyncDeviceClear was sent
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream,
                                 NonFatalErrorCode::UnidentifiedError,
@@ -331,6 +338,7 @@ where
                             message_type: MessageType::StartTLS | MessageType::EndTLS,
                             ..
                         } if protocol >= PROTOCOL_2_0 => {
+                            drop(dev);
                             log::debug!(peer=peer.to_string(), session_id=self.id; "Start/end TLS");
 
                             send_fatal!(
@@ -347,6 +355,7 @@ where
                             payload: _data,
                             ..
                         } if protocol >= PROTOCOL_2_0 => {
+                            drop(dev);
                             log::debug!(peer=peer.to_string(), session_id=self.id; "Authentication Start/Exchange");
 
                             send_fatal!(
@@ -356,6 +365,7 @@ where
                             )
                         }
                         msg => {
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream,
                                 NonFatalErrorCode::UnidentifiedError,
@@ -366,6 +376,7 @@ where
                 }
                 // Invalid message
                 Err(err) => {
+                    drop(dev);
                     if err.is_fatal() {
                         Message::from(err).write_to(&mut stream).await?;
                         return Err(io::ErrorKind::Other.into());
-- 
2.43.0


From 180bbbceda6d2a2f8a6d6eee983c8f988dd21c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 15/45] fix: hislip: do not panic when the client announces a
 maximum message size of zero

---
 hislip/src/server/session/synchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 23d30ab..328e37f 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -247,7 +247,7 @@ where
                                         // Send back response
                                         if let Some(data) = data {
                                             let mut chunks = data
-                                                .chunks(shared.max_message_size as usize)
+                                                .chunks(shared.max_message_size.max(1) as usize)
                                                 .peekable();
                                             drop(shared);
 
-- 
2.43.0


From 1321136ef65a082e24d749a2608db075f23e7a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 16/45] fix: hislip: acknowledge a device clear that interrupts
 a response

---
 hislip/src/server/session/synchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 328e37f..94545b5 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -253,7 +253,7 @@ where
 
                                             while let Some(chunk) = chunks.next() {
                                                 // Stop sending if a clear has been received on async channel
-                                                if self.clear.try_recv().is_ok() {
+                                                if !self.clear.is_empty() {
                                                     break;
                                                 }
 
-- 
2.43.0


From 6b906dd055cc8d1920ab1d01b51b60e8cb1eb176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 17/45] fix: hislip: do not clear the device if a lock was
 granted to someone else while waiting for it

---
 hislip/src/server/session/synchronous.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 94545b5..f234392 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -107,7 +107,10 @@ where
                 }) => {
                     if self.handle.can_lock().is_ok() {
                         let mut dev = self.handle.inner_lock().await;
-                        let _res = dev.clear();
+                        // A lock may have been granted to someone else while waiting
+                        if self.handle.can_lock().is_ok() {
+                            let _res = dev.clear();
+                        }
                     }
 
                     break self
-- 
2.43.0


From 71870a7ecae86ae9c6849bde46e197fcf77e6883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 18/45] fix: hislip: go to remote when asked to enable remote
 and go to remote

---
 hislip/src/server/session/asynchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 9f2c98b..7985316 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -242,7 +242,7 @@ where
                                     //Enable remote and go to remote
                                     self.shared.lock().await.enable_remote = true;
                                     let mut dev = handle.async_lock().await.unwrap();
-                                    dev.set_remote(false)
+                                    dev.set_remote(true)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-- 
2.43.0


From 49bb3300985aa9aa2ccc3769764dece7434afbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 19/45] fix: hislip: do not panic on an AsyncEndTLS message
 without payload

---
 hislip/src/server/session/asynchronous.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 7985316..19bf9d5 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -427,6 +427,12 @@ where
                             payload,
                         } if protocol >= PROTOCOL_2_0 => {
                             // Only supported >= 2.0
+                            if payload.len() != 4 {
+                                send_fatal!(peer=peer.to_string(), session_id=self.id;
+                                    &mut wr, FatalErrorCode::PoorlyFormattedMessageHeader,
+                                    "Expected 4 bytes in AsyncEndTLS payload"
+                                )
+                            }
 
                             let _control = RmtDeliveredControl(control_code);
                             let message_id_sent = message_parameter;
-- 
2.43.0


From 261ca6c24d1d0f7e0cfc963f650ba4efea434d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 20/45] fix: hislip: refuse a second async channel for the same
 session

---
 hislip/src/server/session/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/mod.rs b/hislip/src/server/session/mod.rs
index afba926..197dd7a 100644
--- a/hislip/src/server/session/mod.rs
+++ b/hislip/src/server/session/mod.rs
@@ -65,7 +65,7 @@ impl SharedSession {
         // !matches!(self.state, SessionState::Handshake) // Just looks weird
         match self.state {
             SessionState::Handshake => false,
-            _ => false,
+            _ => true,
         }
     }
 
-- 
2.43.0


From 807c44e24fb176a0624cf5ab3b5008b775a14a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 21/45] fix: hislip: a status event while a service request is
 pending does not end the session

---
 hislip/src/server/session/asynchronous.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 19bf9d5..bf2f9e5 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -76,13 +76,13 @@ where
             let read_msg = Message::read_from(&mut rd, self.config.max_message_size).fuse();
             pin_mut!(read_msg);
 
-            let t = match futures::future::select(read_msg, srq.next()).await {
-                // Message was received
-                Either::Left((msg, _)) => msg,
-                // Status changed
-                Either::Right((stb, read_msg)) => {
+            let t = loop {
+                match futures::future::select(read_msg.as_mut(), srq.next()).await {
+                    // Message was received
+                    Either::Left((msg, _)) => break msg,
+                    // Status changed
                     // Send SRQ
-                    match stb {
+                    Either::Right((stb, _)) => match stb {
                         Some(val) if !srq_bit => {
                             srq_bit = true;
                             MessageType::AsyncServiceRequest
@@ -90,15 +90,15 @@ where
                                 .write_to(&mut wr)
                                 .await?
                         }
-                        _ => {
+                        // Already signalling
+                        Some(_) => {}
+                        None => {
                             send_fatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut wr, FatalErrorCode::UnidentifiedError,
                                 "Server shutdown",
                             );
                         }
-                    }
-                    // Finish receiving message
-                    read_msg.await
+                    },
                 }
             }?;
 
-- 
2.43.0


From c28ccb418ac533b22a407b9edc4659b3b349e8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 22/45] fix: hislip: end the session when either of its
 channels ends

---
 hislip/src/server/mod.rs         | 48 ++++++++++++++++++++++++++------
 hislip/src/server/session/mod.rs | 23 +++++++++++++++
 2 files changed, 62 insertions(+), 9 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index c72f834..29254a1 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -1,16 +1,19 @@
 use std::cmp::min;
 use std::collections::HashMap;
+use std::future::Future;
 use std::io;
 use std::str::from_utf8;
 use std::sync::Weak;
 use std::time::Duration;
 
+use async_std::channel::Receiver;
 use async_std::net::{TcpListener, ToSocketAddrs};
 use async_std::sync::Arc;
 use async_std::task;
 
+use futures::future::{select, Either};
 use futures::task::{Spawn, SpawnExt};
-use futures::{AsyncRead, AsyncWrite, AsyncWriteExt, Stream, StreamExt};
+use futures::{pin_mut, AsyncRead, AsyncWrite, AsyncWriteExt, Stream, StreamExt};
 use lxi_device::lock::{LockHandle, Mutex, RemoteLockHandle, SharedLock, SpinMutex};
 use lxi_device::status::Sender as StatusSender;
 use lxi_device::Device;
@@ -298,9 +301,13 @@ where
                                                 false,
                                             );
 
-                                            let receiver = {
+                                            let (receiver, _guard, ended) = {
                                                 let s = shared.lock().await;
-                                                s.get_clear_receiver()
+                                                (
+                                                    s.get_clear_receiver(),
+                                                    s.get_end_guard(),
+                                                    s.get_end_receiver(),
+                                                )
                                             };
 
                                             // Send response
@@ -312,15 +319,15 @@ where
                                                 .await?;
 
                                             // Continue as sync session
-                                            let res = session::synchronous::SyncSession::new(
+                                            let session = session::synchronous::SyncSession::new(
                                                 id,
                                                 self.config.clone(),
                                                 shared,
                                                 RemoteLockHandle::new(device),
                                                 receiver,
                                             )
-                                            .handle_session(stream, peer.clone(), protocol)
-                                            .await;
+                                            .handle_session(stream, peer.clone(), protocol);
+                                            let res = until_ended(session, ended).await;
                                             log::debug!(peer=peer.to_string(), session_id=id; "Sync session closed: {res:?}");
                                             return res;
                                         }
@@ -374,6 +381,8 @@ where
                                 session_guard.set_state(SessionState::Normal);
                                 let protocol = session_guard.protocol();
                                 let sender = session_guard.get_clear_sender();
+                                let _guard = session_guard.get_end_guard();
+                                let ended = session_guard.get_end_receiver();
                                 drop(session_guard);
 
                                 MessageType::AsyncInitializeResponse
@@ -389,15 +398,20 @@ where
                                     .await?;
 
                                 // Continue as async session
-                                let res = session::asynchronous::AsyncSession::new(
+                                let session = session::asynchronous::AsyncSession::new(
                                     id,
                                     self.config.clone(),
                                     shared,
                                     device,
                                     sender,
                                 )
-                                .handle_session(stream, peer.clone(), srq, protocol)
-                                .await;
+                                .handle_session(
+                                    stream,
+                                    peer.clone(),
+                                    srq,
+                                    protocol,
+                                );
+                                let res = until_ended(session, ended).await;
                                 log::debug!(peer=peer.to_string(), session_id=id; "Async session closed: {res:?}");
                                 return res;
                             }
@@ -424,6 +438,22 @@ where
     }
 }
 
+/// Run one channel of a session until it, or the session, ends
+async fn until_ended(
+    session: impl Future<Output = Result<(), io::Error>>,
+    ended: Receiver<()>,
+) -> Result<(), io::Error> {
+    let ended = ended.recv();
+    pin_mut!(session, ended);
+    match select(session, ended).await {
+        Either::Left((res, _)) => res,
+        Either::Right(_) => {
+            log::debug!("Other channel closed");
+            Err(io::ErrorKind::ConnectionAborted.into())
+        }
+    }
+}
+
 /// A handle to a created active season
 #[derive(Clone)]
 pub(crate) struct SessionHandle<DEV>
diff --git a/hislip/src/server/session/mod.rs b/hislip/src/server/session/mod.rs
index 197dd7a..5cb1c5d 100644
--- a/hislip/src/server/session/mod.rs
+++ b/hislip/src/server/session/mod.rs
@@ -36,6 +36,9 @@ pub(crate) struct SharedSession {
 
     clear: (Sender<()>, Receiver<()>),
 
+    /// Closed when either channel ends
+    ended: (Sender<()>, Receiver<()>),
+
     read_message_id: u32,
     sent_message_id: u32,
 }
@@ -48,6 +51,7 @@ impl SharedSession {
             mode: SessionMode::Overlapped,
             max_message_size: 256,
             clear: channel::bounded(1),
+            ended: channel::bounded(1),
             read_message_id: 0,
             enable_remote: true,
             sent_message_id: 0,
@@ -87,4 +91,23 @@ impl SharedSession {
     pub(crate) fn get_clear_sender(&self) -> Sender<()> {
         self.clear.0.clone()
     }
+
+    /// Ends the session when dropped
+    pub(crate) fn get_end_guard(&self) -> EndGuard {
+        EndGuard(self.ended.0.clone())
+    }
+
+    /// Fails to receive when the session has ended
+    pub(crate) fn get_end_receiver(&self) -> Receiver<()> {
+        self.ended.1.clone()
+    }
+}
+
+/// Ends a session when one of its channels ends, loss of one closes the other
+pub(crate) struct EndGuard(Sender<()>);
+
+impl Drop for EndGuard {
+    fn drop(&mut self) {
+        self.0.close();
+    }
 }
-- 
2.43.0


From dd99c11f86b163db045a0595e0108abe27622f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:27 +0000
Subject: [PATCH 23/45] fix: vxi11: do not panic on a read with a termination
 character that is not in the response

---
 vxi11/src/server/vxi11/core_service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 33fd9e3..9d22414 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -262,7 +262,7 @@ where
                                 let pos = link.out_buf.iter().position(|c| c.eq(&parms.term_char));
 
                                 // Take whatever is first terminator, or end
-                                let to_take = pos.map_or(parms.request_size as usize, |x| {
+                                let to_take = pos.map_or(link.out_buf.len(), |x| {
                                     min(link.out_buf.len(), x + 1)
                                 });
                                 // Returning because of term_char
-- 
2.43.0


From f5fb31983ae03146f3fb896f3c93fd30504be7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:28 +0000
Subject: [PATCH 24/45] fix: vxi11: report that a read ended because of the
 termination character

---
 vxi11/src/server/vxi11/core_service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 9d22414..45834e4 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -266,7 +266,7 @@ where
                                     min(link.out_buf.len(), x + 1)
                                 });
                                 // Returning because of term_char
-                                if matches!(pos, Some(c) if c == to_take) {
+                                if matches!(pos, Some(c) if c < parms.request_size as usize) {
                                     resp.reason |= 0x2;
                                 }
                                 to_take
-- 
2.43.0


From fae49c756daccc83c5a1a37d45c8edb8374336b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:30 +0000
Subject: [PATCH 25/45] fix: vxi11: report a waiting response in the status
 byte

---
 vxi11/src/server/vxi11/core_service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 45834e4..40e2d9a 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -325,7 +325,7 @@ where
                                     // Replace MAV bit
                                     resp.stb &= 0xef;
                                     if !link.out_buf.is_empty() {
-                                        resp.stb &= 0x10;
+                                        resp.stb |= 0x10;
                                     }
                                     xdr::DeviceErrorCode::NoError
                                 }
-- 
2.43.0


From a05953ed59b136f8a55d9a161a0fa48fa21c81a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:32 +0000
Subject: [PATCH 26/45] fix: vxi11: do not create a link that could not be
 locked, nor block the others while waiting

---
 vxi11/src/server/vxi11/core_service.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 40e2d9a..0814cf4 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -154,10 +154,10 @@ where
                     max_recv_size: self.max_recv_size,
                 };
 
-                let mut inner = self.inner.lock().await;
-                resp.error = match inner.new_link(&parms.device) {
+                let new_link = self.inner.lock().await.new_link(&parms.device);
+                resp.error = match new_link {
                     Ok((lid, mut link)) => {
-                        resp.lid = lid.into();
+                        let mut error = xdr::DeviceErrorCode::NoError;
 
                         // Try to lock
                         if parms.lock_device {
@@ -171,12 +171,18 @@ where
                                 Ok(()) => {
                                     log::debug!(peer=format!("{}", self.peer), link=lid; "Exclusive lock acquired")
                                 }
-                                Err(err) => resp.error = err.into(),
+                                Err(err) => error = err.into(),
                             }
                         }
-                        log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
-                        self.links.lock().await.insert(lid, link);
-                        xdr::DeviceErrorCode::NoError
+
+                        if error == xdr::DeviceErrorCode::NoError {
+                            resp.lid = lid.into();
+                            log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
+                            self.links.lock().await.insert(lid, link);
+                        } else {
+                            self.inner.lock().await.remove_link(lid);
+                        }
+                        error
                     }
                     Err(err) => {
                         log::debug!(peer=format!("{}", self.peer); "Failed to create new link, {:?}: {}", err, parms.device);
-- 
2.43.0


From 6d9733dd437a49633f0a75eca91649fab6cf1ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:30 +0000
Subject: [PATCH 27/45] fix: vxi11: remove a destroyed link, and all links of a
 client that disconnects

---
 vxi11/src/server/vxi11/core_service.rs | 19 ++++++++++++++++---
 vxi11/src/server/vxi11/mod.rs          |  7 +++++++
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 0814cf4..bc1893f 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -90,9 +90,10 @@ where
             });
 
             task::spawn(async move {
-                if let Err(err) = s.serve_tcp_stream(stream).await {
+                if let Err(err) = s.clone().serve_tcp_stream(stream).await {
                     log::debug!("Error processing client: {}", err)
                 }
+                s.close().await;
                 drop(token);
             });
         }
@@ -114,6 +115,17 @@ pub struct VxiCoreSession<DEV> {
     srq: Arc<Mutex<Option<VxiSrqClient>>>,
 }
 
+impl<DEV> VxiCoreSession<DEV> {
+    /// Remove all links created by this session
+    async fn close(&self) {
+        let links: Vec<(u32, Link<DEV>)> = self.links.lock().await.drain().collect();
+        for (lid, mut link) in links {
+            link.stop_srq().await;
+            self.inner.lock().await.remove_link(lid);
+        }
+    }
+}
+
 #[async_trait::async_trait]
 impl<DEV> RpcService for VxiCoreSession<DEV>
 where
@@ -592,8 +604,9 @@ where
                 log::debug!(peer=format!("{}", self.peer), link=parms.0; "Destroy link");
 
                 let resp = xdr::DeviceError {
-                    error: match get_link!(self.links, &parms.0) {
-                        Some(link) => {
+                    error: match self.links.lock().await.remove(&parms.0) {
+                        Some(mut link) => {
+                            link.stop_srq().await;
                             let mut inner = self.inner.lock().await;
 
                             link.handle.force_release();
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index 049517a..cac072e 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -108,6 +108,13 @@ impl<DEV> Link<DEV> {
         self.out_buf.clear();
     }
 
+    /// Stop monitoring srq events
+    async fn stop_srq(&mut self) {
+        if let Some(task) = self.srq_handle.take() {
+            task.cancel().await;
+        }
+    }
+
     fn close(&mut self) {
         log::trace!("Link {} closed", self.id);
         // Release any held locks
-- 
2.43.0


From a8bdf240f29657ed3a5d5b30cf655c43c9d8ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 28/45] fix: vxi11: listen on the core port

---
 vxi11/src/server/vxi11/core_service.rs | 3 ++-
 vxi11/src/server/vxi11/mod.rs          | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index bc1893f..43e45ec 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -51,6 +51,7 @@ macro_rules! lock_device {
 pub struct VxiCoreServer<DEV> {
     pub(super) inner: Arc<Mutex<VxiInner<DEV>>>,
     pub(super) max_recv_size: u32,
+    pub(super) core_port: u16,
     pub(super) async_port: u16,
 }
 
@@ -59,7 +60,7 @@ where
     DEV: Device + Send + 'static,
 {
     pub async fn bind(self: Arc<Self>, addrs: IpAddr) -> io::Result<()> {
-        let listener = TcpListener::bind((addrs, self.async_port)).await?;
+        let listener = TcpListener::bind((addrs, self.core_port)).await?;
         self.serve(listener).await
     }
 
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index cac072e..7426b9e 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -254,6 +254,7 @@ impl<DEV> VxiServerBuilder<DEV> {
         (
             Arc::new(VxiCoreServer {
                 inner: inner.clone(),
+                core_port: self.core_port,
                 async_port: self.async_port,
                 max_recv_size: 128 * 1024,
             }),
-- 
2.43.0


From 61081dbae6acc868a01ceac74f7292d172923666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:33 +0000
Subject: [PATCH 29/45] fix: vxi11: an abort does not end a later operation

---
 vxi11/src/server/vxi11/core_service.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 43e45ec..f68d215 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -34,6 +34,8 @@ macro_rules! get_link {
 macro_rules! lock_device {
     ($handle:expr, $flags:expr, $timeout:expr, $abort:expr) => {
         if $flags.is_waitlock() {
+            // Forget aborts of earlier operations
+            while let Ok(Some(())) = $abort.try_next() {}
             select! {
                 d = timeout(
                     Duration::from_millis($timeout as u64),
@@ -476,14 +478,18 @@ where
 
                 let resp = xdr::DeviceError {
                     error: match get_link!(self.links, &parms.lid.0) {
-                        Some(link) if parms.flags.is_waitlock() => select! {
-                            d = timeout(
-                                Duration::from_millis(parms.lock_timeout as u64),
-                                link.handle.async_acquire_exclusive(),
-                            ).fuse() => d.map_or(Err(SharedLockError::Timeout), |f| f),
-                            _ = link.abort.next() => Err(SharedLockError::Aborted)
+                        Some(link) if parms.flags.is_waitlock() => {
+                            // Forget aborts of earlier operations
+                            while let Ok(Some(())) = link.abort.try_next() {}
+                            select! {
+                                d = timeout(
+                                    Duration::from_millis(parms.lock_timeout as u64),
+                                    link.handle.async_acquire_exclusive(),
+                                ).fuse() => d.map_or(Err(SharedLockError::Timeout), |f| f),
+                                _ = link.abort.next() => Err(SharedLockError::Aborted)
+                            }
+                            .into()
                         }
-                        .into(),
                         Some(link) => link.handle.try_acquire_exclusive().into(),
                         None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
                     },
-- 
2.43.0


From 4d8446352e3ed0de783b0c6dc3d5803b42148f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:35 +0000
Subject: [PATCH 30/45] fix: vxi11: a failed or stalled interrupt channel does
 not end service requests nor disturb the others

---
 vxi11/src/server/vxi11/core_service.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index f68d215..201942c 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -49,6 +49,9 @@ macro_rules! lock_device {
     };
 }
 
+/// Longest time to wait for the client to accept a service request
+const SRQ_TIMEOUT: Duration = Duration::from_secs(5);
+
 /// Core RPC service
 pub struct VxiCoreServer<DEV> {
     pub(super) inner: Arc<Mutex<VxiInner<DEV>>>,
@@ -552,11 +555,19 @@ where
                                                 log::debug!(link=parms.lid.0; "Sending service request, stb={stb}");
 
                                                 // Send SRQ RPC to host
-                                                if let Err(err) =
-                                                    client.device_intr_srq(&parms.handle.0).await
-                                                {
+                                                let res = timeout(
+                                                    SRQ_TIMEOUT,
+                                                    client.device_intr_srq(&parms.handle.0),
+                                                )
+                                                .await
+                                                .unwrap_or_else(|_| {
+                                                    Err(io::Error::from(io::ErrorKind::TimedOut)
+                                                        .into())
+                                                });
+                                                if let Err(err) = res {
                                                     log::error!(link=parms.lid.0; "Failed to send service request: {err:?}");
-                                                    return Err(err);
+                                                    // Channel is of no further use, client may create a new one
+                                                    tmp.take();
                                                 }
                                             } else {
                                                 log::error!(link=parms.lid.0; "Failed to send service request: No interrupt channel open");
@@ -575,6 +586,8 @@ where
 
                             // Cancel old SRQ task
                             if let Some(task) = old {
+                                // Not while it is sending, channel may be used by other links
+                                let _srq = self.srq.lock().await;
                                 task.cancel().await;
                                 log::debug!(peer=self.peer.to_string(), link=parms.lid.0; "Cancelled srq task");
                             }
@@ -613,7 +626,11 @@ where
                 let resp = xdr::DeviceError {
                     error: match self.links.lock().await.remove(&parms.0) {
                         Some(mut link) => {
+                            // Not while it is sending, channel may be used by other links
+                            let srq = self.srq.lock().await;
                             link.stop_srq().await;
+                            drop(srq);
+
                             let mut inner = self.inner.lock().await;
 
                             link.handle.force_release();
-- 
2.43.0


From 40066824700528bfbd2278be3b2af7c6b1419970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 31/45] fix: vxi11: do not accept a record cut short by a
 disconnect

---
 vxi11/src/common/onc_rpc/record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/record.rs b/vxi11/src/common/onc_rpc/record.rs
index d9eccdd..567586f 100644
--- a/vxi11/src/common/onc_rpc/record.rs
+++ b/vxi11/src/common/onc_rpc/record.rs
@@ -20,10 +20,13 @@ where
         if buf.len() + len > maxlen || buf.try_reserve(len).is_err() {
             return Err(ErrorKind::OutOfMemory.into());
         }
-        reader
+        let n = reader
             .take((fragment_len & 0x7FFFFFFF) as u64)
             .read_to_end(&mut buf)
             .await?;
+        if n < len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
 
         // Check if last fragment
         if fragment_len & 0x80000000 != 0 {
-- 
2.43.0


From fad5dfd61791fa30e527375334cc2661bd2cce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:14 +0000
Subject: [PATCH 32/45] fix: vxi11: do not accept opaque data or strings
 shorter than their length

---
 vxi11/src/common/xdr/basic.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/common/xdr/basic.rs b/vxi11/src/common/xdr/basic.rs
index c9dcb54..b3e3f4b 100644
--- a/vxi11/src/common/xdr/basic.rs
+++ b/vxi11/src/common/xdr/basic.rs
@@ -25,7 +25,7 @@
 #![allow(dead_code)]
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
-use std::io::{Read, Result, Write};
+use std::io::{ErrorKind, Read, Result, Write};
 
 macro_rules! read_padding {
     ($reader:expr, $len:expr) => {
@@ -583,7 +583,10 @@ impl XdrDecode for Opaque {
         RD: Read,
     {
         let len = reader.read_u32::<NetworkEndian>()? as usize;
-        reader.take(len as u64).read_to_end(&mut self.0)?;
+        let n = reader.take(len as u64).read_to_end(&mut self.0)?;
+        if n < len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
@@ -652,7 +655,10 @@ impl XdrDecode for String {
     {
         let len = reader.read_u32::<NetworkEndian>()? as u64;
         let mut s = reader.take(len);
-        s.read_to_string(self)?;
+        let n = s.read_to_string(self)?;
+        if (n as u64) < len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
-- 
2.43.0


From 64df50775a69c42389514dd7170bfb44abb9b8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:15 +0000
Subject: [PATCH 33/45] fix: vxi11: answer arguments that cannot be decoded
 with GARBAGE_ARGS

---
 vxi11/src/common/onc_rpc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index f60cc42..37bae28 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -134,7 +134,7 @@ pub(crate) trait RpcService {
                         RpcError::ProcUnavail => xdr::AcceptStat::ProcUnavail,
                         RpcError::GarbageArgs => xdr::AcceptStat::GarbageArgs,
                         RpcError::SystemErr => xdr::AcceptStat::SystemErr,
-                        RpcError::Io(err) => return Err(err),
+                        RpcError::Io(_) => xdr::AcceptStat::GarbageArgs,
                         RpcError::RpcMissmatch(_) => unreachable!(),
                         RpcError::AuthError(_) => unreachable!(),
                         RpcError::Portmap => unreachable!(),
-- 
2.43.0


From c6aff8b80f86eae59a0d0f834db86cf681563623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 34/45] fix: vxi11: refuse unknown authentication flavours
 instead of ending the connection

---
 vxi11/src/common/onc_rpc/xdr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/xdr.rs b/vxi11/src/common/onc_rpc/xdr.rs
index 761fa91..ee27734 100644
--- a/vxi11/src/common/onc_rpc/xdr.rs
+++ b/vxi11/src/common/onc_rpc/xdr.rs
@@ -303,6 +303,8 @@ pub(crate) enum AuthFlavour {
     None,
     Sys,
     Short,
+    /// Used for other flavours
+    _Other(u32),
 }
 
 impl Default for AuthFlavour {
@@ -321,7 +323,7 @@ impl XdrDecode for AuthFlavour {
             0 => Self::None,
             1 => Self::Sys,
             2 => Self::Short,
-            _ => return Err(ErrorKind::Other.into()),
+            x => Self::_Other(x),
         };
         Ok(())
     }
@@ -336,6 +338,7 @@ impl XdrEncode for AuthFlavour {
             AuthFlavour::None => 0,
             AuthFlavour::Sys => 1,
             AuthFlavour::Short => 2,
+            AuthFlavour::_Other(x) => *x,
         })
     }
 }
-- 
2.43.0


From 509408df610e82c688fc370b2352eb2853d63891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:18 +0000
Subject: [PATCH 35/45] fix: vxi11: keep serving UDP calls after one that fails

---
 vxi11/src/common/onc_rpc/mod.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index 37bae28..b9459c1 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -3,9 +3,13 @@
 use std::{
     io::{self, Cursor, Error, ErrorKind, Write},
     sync::Arc,
+    time::Duration,
 };
 
-use async_std::net::{TcpStream, UdpSocket};
+use async_std::{
+    net::{TcpStream, UdpSocket},
+    task,
+};
 use async_trait::async_trait;
 
 use self::record::{read_record, write_record};
@@ -92,11 +96,24 @@ pub(crate) trait RpcService {
         loop {
             // Read message
             let mut buf = vec![0; 1500];
-            let (n, peer) = socket.recv_from(&mut buf).await?;
-
-            let reply = self.clone().handle_message(buf[..n].to_vec()).await?;
+            let (n, peer) = match socket.recv_from(&mut buf).await {
+                Ok(res) => res,
+                Err(err) => {
+                    log::debug!("Error receiving call: {}", err);
+                    // Do not spin if the error persists
+                    task::sleep(Duration::from_millis(10)).await;
+                    continue;
+                }
+            };
 
-            socket.send_to(&reply, peer).await?;
+            match self.clone().handle_message(buf[..n].to_vec()).await {
+                Ok(reply) => {
+                    if let Err(err) = socket.send_to(&reply, peer).await {
+                        log::debug!("Error replying to {}: {}", peer, err);
+                    }
+                }
+                Err(err) => log::debug!("Error processing call from {}: {}", peer, err),
+            }
         }
     }
 
-- 
2.43.0


From 0680d51270bf8cef59b3a7a487cc0486a740428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:19 +0000
Subject: [PATCH 36/45] fix: vxi11: do not take the reply to another call, or a
 call, as the answer

---
 vxi11/src/common/onc_rpc/mod.rs | 40 ++++++++++++++++++++-------------
 vxi11/src/common/onc_rpc/xdr.rs |  4 ++++
 2 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index b9459c1..201e047 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -240,14 +240,19 @@ impl UdpRpcClient {
         self.socket.send(&args_cursor.into_inner()).await?;
 
         // Read response
-        let mut buf = vec![0; 1024];
-        self.socket.recv(&mut buf).await?;
-        let mut ret_cursor = Cursor::new(buf);
-
-        // Deserialize and parse response
-        let mut reply = xdr::RpcMessage::default();
         let mut ret: RET = Default::default();
-        reply.read_xdr(&mut ret_cursor)?;
+        let (reply, mut ret_cursor) = loop {
+            let mut buf = vec![0; 1024];
+            let n = self.socket.recv(&mut buf).await?;
+            buf.truncate(n);
+            let mut ret_cursor = Cursor::new(buf);
+
+            // Deserialize and parse response, ignore everything which is not the reply to this call
+            let mut reply = xdr::RpcMessage::default();
+            if reply.read_xdr(&mut ret_cursor).is_ok() && reply.is_reply_to(self.xid) {
+                break (reply, ret_cursor);
+            }
+        };
         match reply {
             xdr::RpcMessage {
                 mtype:
@@ -280,7 +285,7 @@ impl UdpRpcClient {
                 mtype: xdr::MsgType::Call(..),
                 ..
             } => {
-                todo!()
+                unreachable!()
             }
         }
     }
@@ -357,13 +362,18 @@ where
         write_record(&mut self.io, args_cursor.into_inner()).await?;
 
         // Read response
-        let fragment = read_record(&mut self.io, 1024 * 1024).await?;
-        let mut ret_cursor = Cursor::new(fragment);
-
-        // Deserialize and parse response
-        let mut reply = xdr::RpcMessage::default();
         let mut ret: RET = Default::default();
-        reply.read_xdr(&mut ret_cursor)?;
+        let (reply, mut ret_cursor) = loop {
+            let fragment = read_record(&mut self.io, 1024 * 1024).await?;
+            let mut ret_cursor = Cursor::new(fragment);
+
+            // Deserialize and parse response, ignore everything which is not the reply to this call
+            let mut reply = xdr::RpcMessage::default();
+            reply.read_xdr(&mut ret_cursor)?;
+            if reply.is_reply_to(self.xid) {
+                break (reply, ret_cursor);
+            }
+        };
         match reply {
             xdr::RpcMessage {
                 mtype:
@@ -396,7 +406,7 @@ where
                 mtype: xdr::MsgType::Call(..),
                 ..
             } => {
-                todo!()
+                unreachable!()
             }
         }
     }
diff --git a/vxi11/src/common/onc_rpc/xdr.rs b/vxi11/src/common/onc_rpc/xdr.rs
index ee27734..2020715 100644
--- a/vxi11/src/common/onc_rpc/xdr.rs
+++ b/vxi11/src/common/onc_rpc/xdr.rs
@@ -532,6 +532,10 @@ impl XdrDecode for RpcMessage {
 }
 
 impl RpcMessage {
+    pub(crate) fn is_reply_to(&self, xid: u32) -> bool {
+        self.xid == xid && matches!(self.mtype, MsgType::Reply(_))
+    }
+
     pub(crate) fn call(xid: u32, prog: u32, vers: u32, proc: u32) -> Self {
         Self {
             xid,
-- 
2.43.0


From edb0b3252a4d13869311d07224aace6cc72dc749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:06 +0000
Subject: [PATCH 37/45] fix: vxi11: encode arguments and results of the port
 mapper's callit as opaque data

---
 vxi11/src/client/portmapper.rs     | 4 ++--
 vxi11/src/common/portmapper/xdr.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 8297625..5abfdc5 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -87,11 +87,11 @@ impl PortMapperClient {
             prog,
             vers,
             proc,
-            args: args_cursor.into_inner(),
+            args: Opaque(args_cursor.into_inner()),
         };
         let res: CallResult = self.0.call(PMAPPROC_CALLIT, callit_args).await?;
         let mut ret: RET = Default::default();
-        ret.read_xdr(&mut io::Cursor::new(res.res))?;
+        ret.read_xdr(&mut io::Cursor::new(res.res.0))?;
         Ok(ret)
     }
 }
diff --git a/vxi11/src/common/portmapper/xdr.rs b/vxi11/src/common/portmapper/xdr.rs
index bb59b8b..9ada69d 100644
--- a/vxi11/src/common/portmapper/xdr.rs
+++ b/vxi11/src/common/portmapper/xdr.rs
@@ -53,7 +53,7 @@ pub(crate) struct Callit {
     pub(crate) prog: u32,
     pub(crate) vers: u32,
     pub(crate) proc: u32,
-    pub(crate) args: Vec<u8>,
+    pub(crate) args: Opaque,
 }
 
 impl XdrEncode for Callit {
@@ -83,7 +83,7 @@ impl XdrDecode for Callit {
 #[derive(Debug, Default, Clone)]
 pub(crate) struct CallResult {
     pub(crate) port: u32,
-    pub(crate) res: Vec<u8>,
+    pub(crate) res: Opaque,
 }
 
 impl XdrEncode for CallResult {
-- 
2.43.0


From e630822d210aea7910f3e1c17f76df27b8e70fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:19 +0000
Subject: [PATCH 38/45] fix: hislip: answer a lock request without timeout that
 cannot be granted with failure, not error

---
 hislip/src/common/messages.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index dd8cb73..78baf17 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -458,8 +458,11 @@ pub(crate) enum RequestLockControl {
 impl From<SharedLockError> for RequestLockControl {
     fn from(err: SharedLockError) -> Self {
         match err {
-            SharedLockError::Timeout => RequestLockControl::Failure,
-            _ => RequestLockControl::Error,
+            SharedLockError::AlreadyLocked | SharedLockError::AlreadyUnlocked => {
+                RequestLockControl::Error
+            }
+            // Not available, immediately or before timeout
+            _ => RequestLockControl::Failure,
         }
     }
 }
-- 
2.43.0


From 1cec12d5dc2aa50a98cddd73f05fe0725d980714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:28 +0000
Subject: [PATCH 39/45] fix: hislip: a status query put a device into remote
 that another client had locked

---
 hislip/src/server/session/asynchronous.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index bf2f9e5..2b815c2 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -360,8 +360,8 @@ where
                                 // Calculate MAV bit
                                 let mav = if sent > message_id { 0x10 } else { 0x00 };
 
-                                // Enable remote
-                                if enable_remote {
+                                // Enable remote, unless someone else has locked the device
+                                if enable_remote && handle.can_lock().is_ok() {
                                     let _res = dev.set_remote(true);
                                 }
 
-- 
2.43.0


From 6372e21b058aa2f21ffaf657609fd019a7c0d36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 40/45] fix: vxi11: UDP interrupt channels to clients on other
 hosts

---
 vxi11/src/server/vxi11/intr_client.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/intr_client.rs b/vxi11/src/server/vxi11/intr_client.rs
index f153acc..74fbe84 100644
--- a/vxi11/src/server/vxi11/intr_client.rs
+++ b/vxi11/src/server/vxi11/intr_client.rs
@@ -29,7 +29,8 @@ impl VxiSrqClient {
         udp: bool,
     ) -> io::Result<Self> {
         let client = if udp {
-            let socket = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).await?;
+            // The client is usually on another host, which cannot be reached from the loopback address
+            let socket = UdpSocket::bind((Ipv4Addr::UNSPECIFIED, 0)).await?;
             socket
                 .connect((Ipv4Addr::from(host_addr), host_port))
                 .await?;
-- 
2.43.0


From 31c93058b9a0993e92f9e6d3a63ffa50fa41b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 41/45] fix: vxi11: let the port mapper client reach other
 hosts over UDP

---
 vxi11/src/client/portmapper.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 5abfdc5..c0a496a 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -33,7 +33,8 @@ impl PortMapperClient {
     }
 
     pub async fn connect_udp(addrs: impl ToSocketAddrs) -> io::Result<Self> {
-        let sock = UdpSocket::bind("127.0.0.1:0").await?;
+        // Not the loopback address, it reaches no other host
+        let sock = UdpSocket::bind("0.0.0.0:0").await?;
         sock.connect(addrs).await?;
         Ok(Self(RpcClient::Udp(UdpRpcClient::new(
             PORTMAPPER_PROG,
-- 
2.43.0


From 9fad3452cdc4e639b63aa397d7ea83488bb3501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 42/45] fix: vxi11: register a mapping that was not registered
 before

---
 vxi11/src/client/portmapper.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index c0a496a..370b11f 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -44,10 +44,8 @@ impl PortMapperClient {
     }
 
     pub async fn register(&mut self, mapping: Mapping) -> Result<(), RpcError> {
-        let res = self.unset(mapping).await?;
-        if !res {
-            return Err(RpcError::Portmap);
-        }
+        // Fails if nothing was registered, which is fine
+        let _ = self.unset(mapping).await?;
         let res = self.set(mapping).await?;
         if !res {
             return Err(RpcError::Portmap);
-- 
2.43.0


From 86b888c15114b8a6429aa76051fc7de9446e4b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 43/45] fix: do not keep the HiSLIP server locked while
 refusing an unknown session

The error was sent with the list of sessions locked. A client that does not
read could thereby keep everybody else from creating or joining a session.
---
 hislip/src/server/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index 29254a1..d2a480c 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -353,11 +353,11 @@ where
                         } => {
                             // Connect to existing session
                             let id = (message_parameter & 0x0000FFFF) as u16;
-                            let session = {
-                                let mut guard = self.inner.lock().await;
-                                if let Some(s) = guard.get_session(id) {
-                                    s
-                                } else {
+                            // (without keeping the others from the server while sending an error)
+                            let session = self.inner.lock().await.get_session(id);
+                            let session = match session {
+                                Some(s) => s,
+                                None => {
                                     send_fatal!(peer=format!("{}", peer), session_id=id;
                                     &mut stream, FatalErrorCode::InvalidInitialization,
                                         "Invalid session id"
-- 
2.43.0


From 43563f38d0010c10973833ef0a135bef3e942d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 44/45] fix: do not keep the lock handle while answering a
 HiSLIP lock release

The response was sent with the spin lock of the session's handle taken. If the
client did not read it, its sync channel would spin on an executor thread for
as long as the client liked.
---
 hislip/src/server/session/asynchronous.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 2b815c2..2b2ff29 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -147,8 +147,9 @@ where
                                 // Release
                                 let message_id = message_parameter;
                                 log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Release async lock");
-                                let mut handle = self.handle.lock();
-                                let control = match handle.try_release() {
+                                // Do not keep the handle from the sync channel while responding
+                                let res = self.handle.lock().try_release();
+                                let control = match res {
                                     Ok(SharedLockMode::Exclusive) => {
                                         ReleaseLockControl::SuccessExclusive
                                     }
-- 
2.43.0


From 6f6ac8d5322fa902bcfe7e3be17af84cc45c6fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 45/45] fix: do not allocate for a message before checking that
 there is memory for it

---
 hislip/src/common/messages.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 78baf17..444758e 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -74,7 +74,7 @@ impl Message {
                 "Message payload too large".to_string(),
             )))
         } else {
-            let mut payload = Vec::with_capacity(len as usize);
+            let mut payload = Vec::new();
             if payload.try_reserve_exact(len as usize).is_err() {
                 return Ok(Err(Error::Fatal(
                     FatalErrorCode::UnidentifiedError,
-- 
2.43.0

