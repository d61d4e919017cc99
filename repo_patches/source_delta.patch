From 1e9a08b6c1f9e9ffd3d76447abadb2014e5bccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 01/32] fix: reject invalid public keys in handshake messages 1
 and 2 instead of panicking

---
 vru-session/src/handshake/key.rs | 11 ++++++++---
 vru-session/src/handshake/xx.rs  | 15 ++++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 9d9a78b..08ee752 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -40,15 +40,20 @@ impl PublicKey {
     }
 
     pub fn decompress(bytes: PublicKeyBytes) -> Self {
+        Self::try_decompress(bytes).unwrap()
+    }
+
+    /// `None` if the bytes do not encode a point of the curve
+    pub fn try_decompress(bytes: PublicKeyBytes) -> Option<Self> {
         let Concat(elliptic_bytes, lattice_bytes) = bytes;
         let lattice = Pk::clone_array(&lattice_bytes);
-        let elliptic = EdwardsPoint::try_clone_array(&elliptic_bytes).unwrap();
+        let elliptic = EdwardsPoint::try_clone_array(&elliptic_bytes).ok()?;
         let lattice_hash = lattice::pk_hash(&lattice);
-        PublicKey {
+        Some(PublicKey {
             elliptic,
             lattice,
             lattice_hash,
-        }
+        })
     }
 
     pub fn elliptic(&self) -> Array<typenum::U32> {
diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index f2b543b..ab4a140 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -53,6 +53,10 @@ pub enum InitiatorsError {
     PayloadSMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("ephemeral key is not a valid public key")]
+    EphemeralKeyInvalid,
+    #[error("static key is not a valid public key")]
+    StaticKeyInvalid,
 }
 
 #[derive(Debug, Error)]
@@ -63,6 +67,8 @@ pub enum RespondersError {
     PayloadRMac(MacMismatch),
     #[error("static key {}", _0)]
     StaticKeyMac(MacMismatch),
+    #[error("static key is not a valid public key")]
+    StaticKeyInvalid,
 }
 
 // the handshake variant is xx, but the initiator know responder pk
@@ -121,12 +127,14 @@ where
         .decrypt_line(payload_p)
         .map_err(InitiatorsError::PayloadPMac)?;
     let symmetric_state = symmetric_state.mix_hash(&peer_e_pkc.clone_line());
-    let peer_e_pk = PublicKey::decompress(peer_e_pkc);
+    let peer_e_pk =
+        PublicKey::try_decompress(peer_e_pkc).ok_or(InitiatorsError::EphemeralKeyInvalid)?;
     let (symmetric_state, peer_s_pkc) = symmetric_state
         .mix_shared_secret(&peer_e_pk.dh(&e_sk))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(InitiatorsError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk =
+        PublicKey::try_decompress(peer_s_pkc).ok_or(InitiatorsError::StaticKeyInvalid)?;
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
@@ -263,7 +271,8 @@ where
         .mix_shared_secret(&s_pk.decapsulate(&s_sk, &peer_s_ct))
         .decrypt_line(enc_peer_s_pkc)
         .map_err(RespondersError::StaticKeyMac)?;
-    let peer_s_pk = PublicKey::decompress(peer_s_pkc);
+    let peer_s_pk =
+        PublicKey::try_decompress(peer_s_pkc).ok_or(RespondersError::StaticKeyInvalid)?;
     let (symmetric_state, payload_r) = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
         .decrypt_line(payload_r)
-- 
2.43.0


From 6d2d8847fb5747490494405e80c05a25e1a55381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 02/32] fix: deserializing an invalid public key is an error,
 not a panic

---
 vru-session/src/handshake/key.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index 08ee752..aafae5e 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -159,7 +159,8 @@ mod implementations {
         {
             let LineLike(Concat(a, Concat(b, c))) = de::Deserialize::deserialize(deserializer)?;
             Ok(PublicKey {
-                elliptic: LineValid::try_clone_array(&a).unwrap(),
+                elliptic: LineValid::try_clone_array(&a)
+                    .map_err(|()| de::Error::custom("invalid public key"))?,
                 lattice: Line::clone_array(&b),
                 lattice_hash: c,
             })
-- 
2.43.0


From dd5ea2e30ba830b0b0acff590dc26b182d208d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 03/32] fix: initiator rejects a responder whose identity is
 not the dialed one

---
 vru-session/src/handshake/xx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vru-session/src/handshake/xx.rs b/vru-session/src/handshake/xx.rs
index ab4a140..e171d35 100644
--- a/vru-session/src/handshake/xx.rs
+++ b/vru-session/src/handshake/xx.rs
@@ -31,6 +31,7 @@ pub type Message3<S> = Concat<Ct, EncryptedDefault<S>>;
 
 pub struct InitiatorsEphemeral {
     symmetric_state: SymmetricState<Noise, ChainingKey<Noise>>,
+    peer_s_pi: Identity,
     e_pk: PublicKey,
     e_sk: SecretKey,
 }
@@ -57,6 +58,8 @@ pub enum InitiatorsError {
     EphemeralKeyInvalid,
     #[error("static key is not a valid public key")]
     StaticKeyInvalid,
+    #[error("the responder is not the peer which was dialed")]
+    IdentityMismatch,
 }
 
 #[derive(Debug, Error)]
@@ -90,6 +93,7 @@ pub fn out0(seed: &Array<typenum::U96>, peer_s_pi: &Identity) -> (InitiatorsEphe
     (
         InitiatorsEphemeral {
             symmetric_state,
+            peer_s_pi: peer_s_pi.clone(),
             e_pk,
             e_sk,
         },
@@ -118,6 +122,7 @@ where
     let (Concat(peer_e_ct, payload_p), peer_e_pkc, enc_peer_s_pkc) = message;
     let InitiatorsEphemeral {
         symmetric_state,
+        peer_s_pi,
         e_pk,
         e_sk,
     } = state;
@@ -135,6 +140,9 @@ where
         .map_err(InitiatorsError::StaticKeyMac)?;
     let peer_s_pk =
         PublicKey::try_decompress(peer_s_pkc).ok_or(InitiatorsError::StaticKeyInvalid)?;
+    if peer_s_pk.identity() != peer_s_pi {
+        return Err(InitiatorsError::IdentityMismatch);
+    }
     let peer_e_pq;
     let symmetric_state = symmetric_state
         .mix_shared_secret(&peer_s_pk.dh(&e_sk))
-- 
2.43.0


From 869c855694f74099cc6f41dae2a3d7f25a463d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:43 +0000
Subject: [PATCH 04/32] fix: decrypt_ext of a buffer shorter than the tag is a
 mac mismatch, not a panic

---
 vru-noise/src/cipher_state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vru-noise/src/cipher_state.rs b/vru-noise/src/cipher_state.rs
index 96862b6..9a59b83 100644
--- a/vru-noise/src/cipher_state.rs
+++ b/vru-noise/src/cipher_state.rs
@@ -183,7 +183,10 @@ where
         use generic_array::typenum::Unsigned;
 
         let mut tag = GenericArray::default();
-        let pos = buffer.len() - <<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE;
+        let pos = buffer
+            .len()
+            .checked_sub(<<C::Aead as AeadCore>::TagSize as Unsigned>::USIZE)
+            .ok_or(MacMismatch)?;
         tag.clone_from_slice(&buffer[pos..]);
         buffer.resize(pos, 0);
         self.decrypt(associated_data, buffer.as_mut(), &tag)
-- 
2.43.0


From 0973cd7287bf4bb7901bd8074eb6887bae1b262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 05/32] fix: mix_psk mixes the whole temp_h into the
 transcript, as Noise specifies

---
 vru-noise/src/hash.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vru-noise/src/hash.rs b/vru-noise/src/hash.rs
index 5d5683c..f442c23 100644
--- a/vru-noise/src/hash.rs
+++ b/vru-noise/src/hash.rs
@@ -119,7 +119,7 @@ where
         data: &[u8],
     ) -> (
         GenericArray<u8, Self::L>,
-        GenericArray<u8, A::KeySize>,
+        GenericArray<u8, Self::L>,
         GenericArray<u8, A::KeySize>,
     );
 }
@@ -170,14 +170,14 @@ where
         data: &[u8],
     ) -> (
         GenericArray<u8, Self::L>,
-        GenericArray<u8, A::KeySize>,
+        GenericArray<u8, Self::L>,
         GenericArray<u8, A::KeySize>,
     ) {
         let keys = Self::hkdf_split(Some(chaining_key), data);
         let [chaining_key, middle, key]: [_; 3] = keys.into();
         (
             chaining_key,
-            truncate::<A>(middle.as_ref()),
+            middle,
             truncate::<A>(key.as_ref()),
         )
     }
-- 
2.43.0


From 52ae05e064c2e3b3dff7b331b5dca6518b6e1719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 06/32] fix: send the whole first handshake message instead of
 panicking on its length

---
 vru-udp/src/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 87e3f60..903519b 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -186,7 +186,7 @@ impl NodeState {
                 rand::Rng::fill(&mut rand::thread_rng(), seed.as_mut());
                 let mut datagram = Datagram::default();
                 let (state, message) = xx::out0(&seed, &peer_pi);
-                datagram.as_mut()[..1120].clone_from_slice(&message.0.clone_line());
+                datagram.as_mut()[..1120].clone_from_slice(&message.clone_line());
                 rand::Rng::fill(&mut rand::thread_rng(), datagram.as_mut()[1120..].as_mut());
                 if let Err(error) = self.socket.send_to(datagram.as_ref(), address) {
                     self.sender
-- 
2.43.0


From c7cf58b0ba4ac229e6fe8a29bfb5e210d9baf853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 07/32] fix: a local command no longer ends the peer's worker
 and panics the next sender

---
 vru-udp/src/local.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index 55c656a..c4db78a 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -82,10 +82,18 @@ impl PeerState {
     fn run(self) {
         // TODO:
         let _ = (&self.sk, &self.pk, &self.handshake_state);
-        while let Ok(PeerMessage::Network { address, datagram }) = self.receiver.recv() {
-            let _ = datagram;
-            self.event_sender
-                .report(Event::Info(format!("process connection with: {}", address)));
+        while let Ok(message) = self.receiver.recv() {
+            match message {
+                PeerMessage::Network { address, datagram } => {
+                    let _ = datagram;
+                    self.event_sender
+                        .report(Event::Info(format!("process connection with: {}", address)));
+                },
+                // TODO:
+                PeerMessage::Command(command) => {
+                    log::warn!("local command is not supported yet: {:?}", command);
+                },
+            }
         }
     }
 }
-- 
2.43.0


From 14243f1b1b3797b6ed052d2ace7356113392f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 08/32] fix: joining a node with peers no longer deadlocks on
 workers waiting for commands

---
 vru-udp/src/global.rs | 3 +++
 vru-udp/src/local.rs  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 903519b..8112c22 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -88,6 +88,8 @@ impl Node {
     }
 
     pub fn join(self) {
+        // workers end when their handles are dropped
+        drop(self.handles);
         self.main_thread.join().unwrap();
     }
 
@@ -167,6 +169,7 @@ impl NodeState {
             }
         }
 
+        self.pending_handles.lock().unwrap().clear();
         for (_, ctx) in self.connections {
             ctx.join();
         }
diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index c4db78a..5f986fe 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -26,6 +26,8 @@ impl Peer {
     }
 
     pub fn join(self) {
+        // the worker ends when all its senders are dropped
+        drop(self.sender);
         self.worker_thread.join().unwrap();
     }
 
-- 
2.43.0


From 0e5a5405e3ae3acadf4a6066ee0b158cff8e1172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:40 +0000
Subject: [PATCH 09/32] fix: the udp node ends, and joins its workers, only
 when it is told to stop

---
 vru-udp/src/global.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 8112c22..c94411c 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -143,17 +143,15 @@ impl NodeState {
         let mut events = Events::with_capacity(1);
 
         while running.load(Ordering::Acquire) {
-            loop {
-                match sources.wait_timeout(&mut events, Duration::from_secs(2)) {
-                    Ok(()) => break,
-                    Err(error) if error.kind() == io::ErrorKind::TimedOut => {
-                        if !running.load(Ordering::Acquire) {
-                            return;
-                        }
-                    },
-                    Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
-                    Err(error) => self.sender.report(Event::Error(Error::ReadSocket(error))),
-                }
+            match sources.wait_timeout(&mut events, Duration::from_secs(2)) {
+                Ok(()) => (),
+                Err(error) if error.kind() == io::ErrorKind::TimedOut => continue,
+                Err(error) if error.kind() == io::ErrorKind::Interrupted => continue,
+                Err(error) => {
+                    self.sender
+                        .report(Event::Error(Error::ReadSocket(error)));
+                    continue;
+                },
             }
             let mut datagram = Datagram::default();
             match self.socket.recv_from(datagram.as_mut()) {
-- 
2.43.0


From 2eba1898446a1ffb0acfac27f404ccd218525d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 10/32] fix: a datagram longer than a frame is a frame size
 error

---
 vru-udp/src/global.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index c94411c..bed6151 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -153,13 +153,16 @@ impl NodeState {
                     continue;
                 },
             }
-            let mut datagram = Datagram::default();
-            match self.socket.recv_from(datagram.as_mut()) {
+            // one byte more than a frame, to tell a longer datagram from a frame
+            let mut buffer = [0; Datagram::SIZE + 1];
+            match self.socket.recv_from(&mut buffer) {
                 Ok((length, address)) => {
                     if length != Datagram::SIZE {
                         self.sender
                             .report(Event::Error(Error::FrameSize(address, length)));
                     } else {
+                        let mut datagram = Datagram::default();
+                        datagram.as_mut().clone_from_slice(&buffer[..length]);
                         self.process(address, datagram);
                     }
                 },
-- 
2.43.0


From 6df2ba5e188a8b6b3c3749caf460d921ac503c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 11/32] fix: the udp node does not hang on a spurious readiness
 of its socket

---
 vru-udp/src/global.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index bed6151..f9ef75c 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -60,6 +60,8 @@ impl Node {
         let handles = RefCell::new(HashMap::new());
         let main_thread = {
             let socket = UdpSocket::bind::<SocketAddr>(([0, 0, 0, 0], port).into())?;
+            // readiness may be spurious, the receive loop must not block there
+            socket.set_nonblocking(true)?;
             let listener = NodeState {
                 sk,
                 pk,
@@ -166,6 +168,7 @@ impl NodeState {
                         self.process(address, datagram);
                     }
                 },
+                Err(error) if error.kind() == io::ErrorKind::WouldBlock => (),
                 Err(error) => self.sender.report(Event::Error(Error::ReadSocket(error))),
             }
         }
-- 
2.43.0


From 7eb3750ff75b3253936def1125cb60908b59c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 12/32] fix: a connection which fails at once is an error
 event, not a panic of the caller

---
 vru-tcp/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 4e6346e..195cab7 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -107,7 +107,9 @@ where
     fn command(&self, command: Command<Self::Address>) {
         match command {
             Command::Connect { peer_pi, address } => {
-                let stream = TcpStream::connect(address).unwrap();
+                if let Err(error) = TcpStream::connect(address) {
+                    report(&self.sender, Event::Error(NodeError::Io(error)));
+                }
             },
             _ => (),
         }
@@ -183,10 +185,14 @@ where
     }
 
     fn report(&self, event: Event<NodeError>) {
-        match self.sender.send(event) {
-            Ok(()) => (),
-            Err(mpsc::SendError(event)) => log::warn!("failed to send event: {:?}", event),
-        }
+        report(&self.sender, event)
+    }
+}
+
+fn report(sender: &mpsc::Sender<Event<NodeError>>, event: Event<NodeError>) {
+    match sender.send(event) {
+        Ok(()) => (),
+        Err(mpsc::SendError(event)) => log::warn!("failed to send event: {:?}", event),
     }
 }
 
-- 
2.43.0


From d101c2dedd89fbf4a2eee3c1a55cc14c47b71006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 13/32] fix: an interrupted or failed wait does not stop the
 tcp node or hide the stop flag

---
 vru-tcp/src/lib.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 195cab7..3df860d 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -145,17 +145,14 @@ where
         let mut events = Events::with_capacity(2);
 
         while running.load(Ordering::Acquire) {
-            loop {
-                match self.poll.poll(&mut events, Some(Duration::from_secs(1))) {
-                    Ok(events) => break events,
-                    Err(error) if error.kind() == io::ErrorKind::TimedOut => {
-                        if !running.load(Ordering::Acquire) {
-                            return;
-                        }
-                    },
-                    Err(error) if error.kind() == io::ErrorKind::Interrupted => return,
-                    Err(error) => self.report(Event::Error(NodeError::Io(error))),
-                }
+            match self.poll.poll(&mut events, Some(Duration::from_secs(1))) {
+                Ok(()) => (),
+                Err(error) if error.kind() == io::ErrorKind::TimedOut => continue,
+                Err(error) if error.kind() == io::ErrorKind::Interrupted => continue,
+                Err(error) => {
+                    self.report(Event::Error(NodeError::Io(error)));
+                    continue;
+                },
             }
 
             for event in &events {
-- 
2.43.0


From 4de952cb416fbf42de6db1417ae76c2c9c89c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 14/32] fix: an incoming connection is reported and closed
 instead of panicking the node

---
 vru-tcp/src/lib.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 3df860d..10b3b6d 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -163,15 +163,9 @@ where
                     },
                     1 => match self.listener.accept() {
                         Ok((stream, address)) => {
-                            let processor = self.processor_factory.spawn_processor(None);
-                            let peer = Peer::spawn(
-                                self.sk.clone(),
-                                self.pk.clone(),
-                                stream,
-                                processor,
-                                running.clone(),
-                            );
-                            self.incoming.send((address, peer)).unwrap();
+                            // TODO: spawn a peer, it is not implemented yet
+                            drop(stream);
+                            self.report(Event::DebugInfo(format!("incoming from: {}", address)));
                         },
                         Err(error) => self.report(Event::Error(NodeError::Io(error))),
                     },
-- 
2.43.0


From 1d51eb1b3404bf71d540bcd0ea769f5e2ecabaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 15/32] fix: connections which arrive together or meet an
 accept error are not left waiting

---
 vru-tcp/src/lib.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 10b3b6d..2f6e272 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -161,17 +161,27 @@ where
                         log::info!("wake");
                         return;
                     },
-                    1 => match self.listener.accept() {
-                        Ok((stream, address)) => {
-                            // TODO: spawn a peer, it is not implemented yet
-                            drop(stream);
-                            self.report(Event::DebugInfo(format!("incoming from: {}", address)));
-                        },
-                        Err(error) => self.report(Event::Error(NodeError::Io(error))),
-                    },
+                    1 => (),
                     _ => unreachable!(),
                 }
             }
+
+            // readiness is edge-triggered, so take all the connections there are,
+            // whatever woke the loop: some may be left by an accept which failed
+            while running.load(Ordering::Acquire) {
+                match self.listener.accept() {
+                    Ok((stream, address)) => {
+                        // TODO: spawn a peer, it is not implemented yet
+                        drop(stream);
+                        self.report(Event::DebugInfo(format!("incoming from: {}", address)));
+                    },
+                    Err(error) if error.kind() == io::ErrorKind::WouldBlock => break,
+                    Err(error) => {
+                        self.report(Event::Error(NodeError::Io(error)));
+                        break;
+                    },
+                }
+            }
         }
     }
 
-- 
2.43.0


From e4a808b83d192f734d6fad90a136050b24905121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 16/32] fix: the identity is durable before it is announced

---
 vru-node/src/database.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index 5f768c7..412faec 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -27,6 +27,8 @@ impl Database {
         } else {
             randomize(&mut s);
             self.db.insert(b"key_seed", s.as_ref())?;
+            // the key must not be used until it is durable
+            self.db.flush()?;
         }
         Ok(PublicKey::gen(&s))
     }
-- 
2.43.0


From 304ccada61e17f5456b02b3f7230635e17e98d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 17/32] fix: command service does not fail after a thousand
 commands

---
 vru-node/src/listener_unix.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index f64e4d1..7ee85ad 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -33,10 +33,14 @@ impl CommandListener {
         P: AsRef<Path>,
     {
         let _ = fs::remove_file(&path);
+        let listener = UnixListener::bind(path)?;
+        // once: every registration adds an entry to the list to wait for
+        let mut sources = Sources::with_capacity(1);
+        sources.register((), &listener, interest::READ);
         Ok(CommandListener {
             running,
-            listener: UnixListener::bind(path)?,
-            sources: Sources::with_capacity(1),
+            listener,
+            sources,
             events: Events::with_capacity(1),
         })
     }
@@ -59,9 +63,6 @@ where
     type Item = bincode::Result<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.inner
-            .sources
-            .register((), &self.inner.listener, interest::READ);
         loop {
             match self
                 .inner
-- 
2.43.0


From 23f60815ebcfed42290d6c78d052832bf7136cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 18/32] fix: command service ends when it is told to stop, not
 when a wait is interrupted

---
 vru-node/src/listener_unix.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index 7ee85ad..fc8408c 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -63,33 +63,28 @@ where
     type Item = bincode::Result<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        loop {
+        while self.inner.running.load(Ordering::Acquire) {
             match self
                 .inner
                 .sources
                 .wait_timeout(&mut self.inner.events, Duration::from_secs(2))
             {
-                Ok(()) => break,
-                Err(error) if error.kind() == io::ErrorKind::TimedOut => {
-                    if !self.inner.running.load(Ordering::Acquire) {
-                        return None;
-                    }
-                },
-                Err(error) if error.kind() == io::ErrorKind::Interrupted => return None,
+                Ok(()) => (),
+                Err(error) if error.kind() == io::ErrorKind::TimedOut => continue,
+                Err(error) if error.kind() == io::ErrorKind::Interrupted => continue,
                 Err(error) => {
                     return Some(Err(error.into()));
                 },
             }
+            match self.inner.listener.accept() {
+                Ok((stream, _)) => return Some(bincode::deserialize_from(stream)),
+                Err(error) => {
+                    if error.kind() != io::ErrorKind::Interrupted {
+                        return Some(Err(error.into()));
+                    }
+                },
+            }
         }
-        match self.inner.listener.accept() {
-            Ok((stream, _)) => Some(bincode::deserialize_from(stream)),
-            Err(error) => {
-                if error.kind() == io::ErrorKind::Interrupted {
-                    None
-                } else {
-                    Some(Err(error.into()))
-                }
-            },
-        }
+        None
     }
 }
-- 
2.43.0


From 514b2a4fd9c0ad34fd4f66d40b1805c973627198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 19/32] fix: command service does not hang on a spurious
 readiness of its socket

---
 vru-node/src/listener_unix.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index fc8408c..29c1128 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -34,6 +34,8 @@ impl CommandListener {
     {
         let _ = fs::remove_file(&path);
         let listener = UnixListener::bind(path)?;
+        // readiness may be spurious, accepting must not block there
+        listener.set_nonblocking(true)?;
         // once: every registration adds an entry to the list to wait for
         let mut sources = Sources::with_capacity(1);
         sources.register((), &listener, interest::READ);
@@ -79,7 +81,9 @@ where
             match self.inner.listener.accept() {
                 Ok((stream, _)) => return Some(bincode::deserialize_from(stream)),
                 Err(error) => {
-                    if error.kind() != io::ErrorKind::Interrupted {
+                    if error.kind() != io::ErrorKind::Interrupted
+                        && error.kind() != io::ErrorKind::WouldBlock
+                    {
                         return Some(Err(error.into()));
                     }
                 },
-- 
2.43.0


From 173aa98e75f520e71777c597f711f55df8fe577b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 20/32] fix: a control client which stalls or sends without end
 does not block the others

---
 vru-node/src/listener_unix.rs | 38 +++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/vru-node/src/listener_unix.rs b/vru-node/src/listener_unix.rs
index 29c1128..8da7dd1 100644
--- a/vru-node/src/listener_unix.rs
+++ b/vru-node/src/listener_unix.rs
@@ -1,17 +1,40 @@
 use std::{
-    os::unix::net::UnixListener,
+    os::unix::net::{UnixListener, UnixStream},
     path::Path,
-    io, fs,
+    io::{self, BufReader, Read},
+    fs,
     sync::{
         Arc,
         atomic::{Ordering, AtomicBool},
     },
     marker::PhantomData,
-    time::Duration,
+    time::{Duration, Instant},
 };
 use serde::de::DeserializeOwned;
 use popol::{Sources, Events, interest};
 
+// a client must send the whole command in this time
+const COMMAND_TIMEOUT: Duration = Duration::from_secs(2);
+// longest command, in bytes
+const COMMAND_LIMIT: u64 = 0x100000;
+
+struct CommandReader {
+    stream: UnixStream,
+    deadline: Instant,
+}
+
+impl Read for CommandReader {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        let left = self
+            .deadline
+            .checked_duration_since(Instant::now())
+            .filter(|left| *left > Duration::from_secs(0))
+            .ok_or(io::ErrorKind::TimedOut)?;
+        self.stream.set_read_timeout(Some(left))?;
+        self.stream.read(buf)
+    }
+}
+
 pub struct CommandListener {
     running: Arc<AtomicBool>,
     listener: UnixListener,
@@ -79,7 +102,14 @@ where
                 },
             }
             match self.inner.listener.accept() {
-                Ok((stream, _)) => return Some(bincode::deserialize_from(stream)),
+                Ok((stream, _)) => {
+                    let reader = CommandReader {
+                        stream,
+                        deadline: Instant::now() + COMMAND_TIMEOUT,
+                    };
+                    let reader = BufReader::new(reader.take(COMMAND_LIMIT));
+                    return Some(bincode::deserialize_from(reader));
+                },
                 Err(error) => {
                     if error.kind() != io::ErrorKind::Interrupted
                         && error.kind() != io::ErrorKind::WouldBlock
-- 
2.43.0


From 63aeb2b9c5c11f7683eff57e8ac736320cd18a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 21/32] fix: the first local command to a peer does not panic
 on a borrowed table

---
 vru-udp/src/global.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index f9ef75c..2ae5056 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -110,14 +110,15 @@ impl Node {
                 destination,
                 command,
             } => {
-                if let Some(handle) = self.handles.borrow().get(&destination) {
+                let mut handles = self.handles.borrow_mut();
+                if let Some(handle) = handles.get(&destination) {
                     handle.send(command);
                 } else {
                     let mut h = self.pending_handles.lock().unwrap();
                     if let Some(handle) = h.remove(&destination) {
                         drop(h);
                         handle.send(command);
-                        self.handles.borrow_mut().insert(destination, handle);
+                        handles.insert(destination, handle);
                     }
                 }
             },
-- 
2.43.0


From b631d489707f6be178e189be89138a0442672a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:12 +0000
Subject: [PATCH 22/32] fix: a start interrupted while the store is created
 does not make it unusable forever

---
 vru-node/src/database.rs | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index 412faec..eeb782c 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -1,4 +1,4 @@
-use std::path::Path;
+use std::{fs, io, path::Path, process};
 use sled::Db;
 use rac::{Array, generic_array::typenum};
 use vru_session::handshake::{SecretKey, PublicKey};
@@ -12,11 +12,40 @@ impl Database {
     where
         P: AsRef<Path>,
     {
+        let path = path.as_ref();
+        if !path.exists() {
+            Self::create(path)?;
+        }
         Ok(Database {
             db: sled::open(path)?,
         })
     }
 
+    // a store whose creation was interrupted never opens again, so it is created
+    // aside, and gets its name when it is complete and durable
+    fn create(path: &Path) -> sled::Result<()> {
+        let new = path.with_extension(format!("new-{}", process::id()));
+        if new.exists() {
+            fs::remove_dir_all(&new)?;
+        }
+        drop(sled::open(&new)?);
+        // its background threads may still hold it
+        let db = fs::File::open(new.join("db"))?;
+        db.lock()?;
+        sync_all(&new)?;
+        if let Err(error) = fs::rename(&new, path) {
+            fs::remove_dir_all(&new)?;
+            if !path.exists() {
+                return Err(error.into());
+            }
+        }
+        let parent = match path.parent() {
+            Some(parent) if parent != Path::new("") => parent,
+            _ => Path::new("."),
+        };
+        Ok(fs::File::open(parent)?.sync_all()?)
+    }
+
     pub fn key_or_insert<F>(&self, randomize: F) -> sled::Result<(PublicKey, SecretKey)>
     where
         F: FnOnce(&mut Array<typenum::U96>),
@@ -33,3 +62,12 @@ impl Database {
         Ok(PublicKey::gen(&s))
     }
 }
+
+fn sync_all(path: &Path) -> io::Result<()> {
+    if path.is_dir() {
+        for entry in fs::read_dir(path)? {
+            sync_all(&entry?.path())?;
+        }
+    }
+    fs::File::open(path)?.sync_all()
+}
-- 
2.43.0


From 10d0aa12a881f8e0949215f8abc5cf6875d3cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:42 +0000
Subject: [PATCH 23/32] fix: a start interrupted while it writes a snapshot
 does not make the store unusable forever

---
 vru-node/src/database.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index eeb782c..592a6b2 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -16,6 +16,7 @@ impl Database {
         if !path.exists() {
             Self::create(path)?;
         }
+        remove_unfinished(path)?;
         Ok(Database {
             db: sled::open(path)?,
         })
@@ -71,3 +72,19 @@ fn sync_all(path: &Path) -> io::Result<()> {
     }
     fs::File::open(path)?.sync_all()
 }
+
+// sled mistakes a snapshot it was interrupted at for a corrupt one, and does not open
+fn remove_unfinished(path: &Path) -> io::Result<()> {
+    let _lock = match fs::File::open(path.join("db")) {
+        Ok(db) if db.try_lock().is_ok() => db,
+        // not created, or it is in use, and its owner may be writing the snapshot
+        _ => return Ok(()),
+    };
+    for entry in fs::read_dir(path)? {
+        let entry = entry?.path();
+        if entry.extension().map_or(false, |e| e == "generating") {
+            fs::remove_file(entry)?;
+        }
+    }
+    Ok(())
+}
-- 
2.43.0


From 05565aeb96edbc44c254c1ac71595d1d9115f29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:06 +0000
Subject: [PATCH 24/32] fix: a read error which hides the key does not replace
 the identity

---
 vru-node/src/database.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/vru-node/src/database.rs b/vru-node/src/database.rs
index 592a6b2..0183061 100644
--- a/vru-node/src/database.rs
+++ b/vru-node/src/database.rs
@@ -1,10 +1,16 @@
-use std::{fs, io, path::Path, process};
+use std::{
+    fs, io,
+    path::{Path, PathBuf},
+    process,
+};
 use sled::Db;
 use rac::{Array, generic_array::typenum};
 use vru_session::handshake::{SecretKey, PublicKey};
 
 pub struct Database {
     db: Db,
+    // exists if the store contains a key
+    has_key: PathBuf,
 }
 
 impl Database {
@@ -19,6 +25,7 @@ impl Database {
         remove_unfinished(path)?;
         Ok(Database {
             db: sled::open(path)?,
+            has_key: path.join("has_key"),
         })
     }
 
@@ -29,7 +36,7 @@ impl Database {
         if new.exists() {
             fs::remove_dir_all(&new)?;
         }
-        drop(sled::open(&new)?);
+        sled::open(&new)?.flush()?;
         // its background threads may still hold it
         let db = fs::File::open(new.join("db"))?;
         db.lock()?;
@@ -55,11 +62,18 @@ impl Database {
         if let Some(kp) = self.db.get(b"key_seed")? {
             s.clone_from_slice(kp.as_ref());
         } else {
+            // a read error while the store is opened may look like missing data
+            if self.has_key.try_exists()? {
+                return Err(io::Error::new(io::ErrorKind::InvalidData, "the key is lost").into());
+            }
             randomize(&mut s);
             self.db.insert(b"key_seed", s.as_ref())?;
             // the key must not be used until it is durable
             self.db.flush()?;
         }
+        if !self.has_key.try_exists()? {
+            fs::File::create(&self.has_key)?.sync_all()?;
+        }
         Ok(PublicKey::gen(&s))
     }
 }
-- 
2.43.0


From eed416d8b8ff63c6b84d05ea1aa1aff16adfd68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 25/32] fix: a fresh kyber public key is the key its encoding
 is

---
 vru-kyber/src/indcpa.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vru-kyber/src/indcpa.rs b/vru-kyber/src/indcpa.rs
index d4e99b6..edd025e 100644
--- a/vru-kyber/src/indcpa.rs
+++ b/vru-kyber/src/indcpa.rs
@@ -124,7 +124,9 @@ where
             Coefficient::acc(a.iter().zip(b.iter()))
         });
         let p = p.ntt();
-        Poly::functor_2(&p, &e[i], |p, e| p + e)
+        let p: Poly<S, typenum::B1> = Poly::functor_2(&p, &e[i], |p, e| p + e);
+        // what is left of the key when it is encoded
+        Poly::decompress_slightly(&p.compress_slightly())
     });
 
     (
-- 
2.43.0


From cd73024a70425b6a9cf201dc62f0dc6061f318ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 26/32] fix: the secret of a rejected ciphertext depends on
 that ciphertext

---
 vru-kyber/src/kem.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-kyber/src/kem.rs b/vru-kyber/src/kem.rs
index 4b6835b..af3a943 100644
--- a/vru-kyber/src/kem.rs
+++ b/vru-kyber/src/kem.rs
@@ -94,7 +94,7 @@ where
         let ct_prime = cipher_text.clone_line();
         let flag = ct.ct_eq(ct_prime.as_ref());
 
-        let ct_hash = Sha3_256::default().chain(ct).finalize_fixed();
+        let ct_hash = Sha3_256::default().chain(ct_prime).finalize_fixed();
         for i in 0..32 {
             r[i].conditional_assign(&reject[i], !flag);
         }
-- 
2.43.0


From a774b79295aa21fa04a98ef5f60e00abf35941a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 27/32] fix: an identity of a wrong length is an error, not a
 panic

---
 vru-session/src/handshake/key.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vru-session/src/handshake/key.rs b/vru-session/src/handshake/key.rs
index aafae5e..a6a9821 100644
--- a/vru-session/src/handshake/key.rs
+++ b/vru-session/src/handshake/key.rs
@@ -124,6 +124,9 @@ impl FromStr for Identity {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let bytes = base64::decode(s)?;
+        if bytes.len() != 33 {
+            return Err(base64::DecodeError::InvalidLength);
+        }
         let mut hash = Array::default();
         hash.as_mut_slice().clone_from_slice(&bytes[1..33]);
         Ok(Identity { hash })
-- 
2.43.0


From f4997b4827b1da861d3f309aa8ec710c8b320666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:03 +0000
Subject: [PATCH 28/32] fix: a schnorr signature over curve25519 verifies after
 it was encoded

---
 rac/src/curve25519_dalek_m.rs | 7 ++++++-
 rac/src/elliptic.rs           | 6 ++++++
 rac/src/schnorr.rs            | 9 ++++++---
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/rac/src/curve25519_dalek_m.rs b/rac/src/curve25519_dalek_m.rs
index c35cfbb..b2c0e5e 100644
--- a/rac/src/curve25519_dalek_m.rs
+++ b/rac/src/curve25519_dalek_m.rs
@@ -31,7 +31,8 @@ impl Scalar for C25519Scalar {
     }
 
     fn sub_ff(&self, rhs: &Self) -> Result<Self, ()> {
-        Ok(self - rhs)
+        // a secret key is not reduced
+        Ok((self - rhs).reduce())
     }
 
     fn mul_ff(&self, rhs: &Self) -> Result<Self, ()> {
@@ -41,6 +42,10 @@ impl Scalar for C25519Scalar {
     fn inv_ff(&self) -> Result<Self, ()> {
         unimplemented!()
     }
+
+    fn try_clone_ff(a: &Array<Self::Length>) -> Result<Self, ()> {
+        C25519Scalar::from_canonical_bytes(a.clone().into()).ok_or(())
+    }
 }
 
 impl LineValid for MontgomeryPoint {
diff --git a/rac/src/elliptic.rs b/rac/src/elliptic.rs
index 4d23e80..fee68cd 100644
--- a/rac/src/elliptic.rs
+++ b/rac/src/elliptic.rs
@@ -9,6 +9,12 @@ where
     fn sub_ff(&self, rhs: &Self) -> Result<Self, ()>;
     fn mul_ff(&self, rhs: &Self) -> Result<Self, ()>;
     fn inv_ff(&self) -> Result<Self, ()>;
+
+    /// decodes a number of the field as it is, even if the scalar is
+    /// also a secret key, which `try_clone_array` may adjust
+    fn try_clone_ff(a: &Array<Self::Length>) -> Result<Self, ()> {
+        Self::try_clone_array(a)
+    }
 }
 
 pub trait Curve
diff --git a/rac/src/schnorr.rs b/rac/src/schnorr.rs
index 09ae327..e4ef32b 100644
--- a/rac/src/schnorr.rs
+++ b/rac/src/schnorr.rs
@@ -45,9 +45,12 @@ where
     type Length = <Concat<Array<C::CoordinateLength>, C::Scalar> as LineValid>::Length;
 
     fn try_clone_array(a: &Array<Self::Length>) -> Result<Self, ()> {
-        Concat::try_clone_array(a).map(|Concat(r, s)| Schnorr {
-            r: r,
-            s: s,
+        use generic_array::typenum::Unsigned;
+
+        let m = C::CoordinateLength::USIZE;
+        Ok(Schnorr {
+            r: GenericArray::from_slice(&a[..m]).clone(),
+            s: C::Scalar::try_clone_ff(GenericArray::from_slice(&a[m..]))?,
             phantom_data: PhantomData,
         })
     }
-- 
2.43.0


From 171ac1ccdead6547e69295bf65801fd24258d754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 29/32] fix: the daemon ends with a failure status when it
 cannot start

---
 vru-node/src/main.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/vru-node/src/main.rs b/vru-node/src/main.rs
index ee29e10..e603db2 100644
--- a/vru-node/src/main.rs
+++ b/vru-node/src/main.rs
@@ -6,7 +6,7 @@ use self::listener_unix::CommandListener;
 mod database;
 use self::database::Database;
 
-use std::path::PathBuf;
+use std::{path::PathBuf, process::ExitCode};
 use structopt::StructOpt;
 
 #[derive(StructOpt)]
@@ -17,7 +17,7 @@ struct Args {
     port: u16,
 }
 
-fn main() {
+fn main() -> ExitCode {
     use std::{
         thread,
         sync::{
@@ -46,7 +46,7 @@ fn main() {
                 db_path,
                 error,
             );
-            return;
+            return ExitCode::FAILURE;
         },
     };
 
@@ -54,7 +54,7 @@ fn main() {
         Ok(v) => v,
         Err(error) => {
             tracing::error!("fatal error: failed to obtain key, error: {}", error);
-            return;
+            return ExitCode::FAILURE;
         },
     };
     let pi = pk.identity();
@@ -74,7 +74,7 @@ fn main() {
         Ok(v) => v,
         Err(error) => {
             tracing::error!("fatal error: failed to create a node, error: {}", error);
-            return;
+            return ExitCode::FAILURE;
         },
     };
 
@@ -85,7 +85,7 @@ fn main() {
     });
 
     let path = path.join("ctrl.sock");
-    match CommandListener::bind(path, running) {
+    let status = match CommandListener::bind(path, running) {
         Ok(listener) => {
             for command in listener.into_iter() {
                 match command {
@@ -93,10 +93,15 @@ fn main() {
                     Err(error) => log::warn!("failed to receive a command, error: {}", error),
                 }
             }
+            ExitCode::SUCCESS
         },
-        Err(error) => log::error!("failed to listen commands, error: {}", error),
-    }
+        Err(error) => {
+            log::error!("failed to listen commands, error: {}", error);
+            ExitCode::FAILURE
+        },
+    };
 
     node.join();
     event_stream.join().unwrap();
+    status
 }
-- 
2.43.0


From 69341839741717a3e2573402813fe82fb583cffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 30/32] fix: report a TCP node thread which cannot be started
 instead of panicking

---
 vru-tcp/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vru-tcp/src/lib.rs b/vru-tcp/src/lib.rs
index 2f6e272..ad488c1 100644
--- a/vru-tcp/src/lib.rs
+++ b/vru-tcp/src/lib.rs
@@ -88,7 +88,7 @@ where
             thread::Builder::new()
                 .name("node-main".to_string())
                 .spawn(move || state.run(running))
-                .expect("failed to spawn main thread")
+                .map_err(NodeError::Io)?
         };
 
         Ok((
-- 
2.43.0


From aee0d969b7c381ac8256edddbe01dfca90a87db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 31/32] fix: report UDP node threads which cannot be started
 instead of panicking

---
 vru-udp/src/global.rs | 13 ++++++++++---
 vru-udp/src/local.rs  | 11 +++++------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/vru-udp/src/global.rs b/vru-udp/src/global.rs
index 2ae5056..0b2e2fa 100644
--- a/vru-udp/src/global.rs
+++ b/vru-udp/src/global.rs
@@ -73,8 +73,7 @@ impl Node {
             };
             thread::Builder::new()
                 .name("node-main".to_string())
-                .spawn(move || listener.run(running))
-                .expect("failed to spawn main thread")
+                .spawn(move || listener.run(running))?
         };
 
         Ok((
@@ -203,7 +202,15 @@ impl NodeState {
 
                 let (sk, pk) = (self.sk.clone(), self.pk.clone());
                 let sender = self.sender.clone();
-                let (peer, peer_handle) = Peer::spawn(sk, pk, Some(state), sender);
+                let (peer, peer_handle) = match Peer::spawn(sk, pk, Some(state), sender) {
+                    Ok(v) => v,
+                    Err(error) => {
+                        log::warn!("failed to spawn a worker for {}, error: {}", address, error);
+                        self.sender
+                            .report(Event::Error(Error::ConnectionFailed(address)));
+                        return;
+                    },
+                };
                 peer.send(address, datagram);
                 // TODO:
                 self.connections.insert(rand::random(), peer);
diff --git a/vru-udp/src/local.rs b/vru-udp/src/local.rs
index 5f986fe..30e06de 100644
--- a/vru-udp/src/local.rs
+++ b/vru-udp/src/local.rs
@@ -1,4 +1,4 @@
-use std::{net::SocketAddr, sync::mpsc, thread};
+use std::{io, net::SocketAddr, sync::mpsc, thread};
 use vru_session::handshake::{PublicKey, SecretKey, xx};
 use super::{
     command::{Event, LocalCommand, EventSender},
@@ -36,7 +36,7 @@ impl Peer {
         pk: PublicKey,
         handshake_state: Option<xx::InitiatorsEphemeral>,
         event_sender: EventSender,
-    ) -> (Self, PeerHandle) {
+    ) -> io::Result<(Self, PeerHandle)> {
         let (sender, receiver) = mpsc::channel();
 
         let state = PeerState {
@@ -48,16 +48,15 @@ impl Peer {
         };
         let worker_thread = thread::Builder::new()
             .name("node-worker".to_string())
-            .spawn(move || state.run())
-            .expect("failed to spawn thread");
+            .spawn(move || state.run())?;
 
-        (
+        Ok((
             Peer {
                 worker_thread,
                 sender: sender.clone(),
             },
             PeerHandle { sender },
-        )
+        ))
     }
 }
 
-- 
2.43.0


From 94276645e9359063b6caaa7ccc10498961f60ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 32/32] fix: end the daemon with an error when its event thread
 cannot be started

---
 vru-node/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vru-node/src/main.rs b/vru-node/src/main.rs
index e603db2..497ab8f 100644
--- a/vru-node/src/main.rs
+++ b/vru-node/src/main.rs
@@ -78,11 +78,20 @@ fn main() -> ExitCode {
         },
     };
 
-    let event_stream = thread::spawn(move || {
+    let event_stream = thread::Builder::new().spawn(move || {
         while let Ok(event) = node_ref.recv() {
             tracing::info!("{:?}", event);
         }
     });
+    let event_stream = match event_stream {
+        Ok(v) => v,
+        Err(error) => {
+            tracing::error!("fatal error: failed to listen events, error: {}", error);
+            running.store(false, Ordering::Release);
+            node.join();
+            return ExitCode::FAILURE;
+        },
+    };
 
     let path = path.join("ctrl.sock");
     let status = match CommandListener::bind(path, running) {
-- 
2.43.0

