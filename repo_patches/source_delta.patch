From e9588842797f32ce3edeaecf8b7487101919f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:14 +0000
Subject: [PATCH 01/11] fix: close a connection whose incomplete message can't
 fit the receive buffer

A message that announces at most max_buffer_length, but doesn't fit along with
its prefix, could fill the receive buffer without being complete. The connection
then stopped reading and never made progress again.
---
 protosocket-connection/src/connection.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 36e817c..2254182 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -207,7 +207,7 @@ where
                             return ReadBufferState::Disconnected;
                         }
                         if self.max_buffer_length
-                            < self.receive_buffer_slice_end + next_message_size
+                            <= self.receive_buffer_slice_end + next_message_size
                         {
                             let length =
                                 self.receive_buffer_slice_end - self.receive_buffer_start_offset;
@@ -225,6 +225,11 @@ where
                             self.receive_buffer_start_offset = 0;
                             self.receive_buffer_slice_end = length;
                         }
+                        if self.max_buffer_length <= self.receive_buffer_slice_end {
+                            // It's as far forward as it can be and there's still no room to read the rest of it.
+                            log::error!("message does not fit in the receive buffer. Resetting connection - max: {}, requested: {}", self.max_buffer_length, next_message_size);
+                            return ReadBufferState::Disconnected;
+                        }
                         log::debug!("waiting for the next message of length {next_message_size}");
                         break ReadBufferState::WaitingForMore;
                     }
-- 
2.43.0


From d26e580e35e1c0fcc18d9385798daaac0cfa0215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:16 +0000
Subject: [PATCH 02/11] fix: make room in the receive buffer for a skip that is
 not fully received

Skipping past the received bytes waited for more without making room for them,
and without checking that they can fit. With a full receive buffer the
connection stopped reading and never made progress again.
---
 protosocket-connection/src/connection.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 2254182..264d31e 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -195,7 +195,21 @@ where
             let buffer = &self.receive_buffer
                 [self.receive_buffer_start_offset..self.receive_buffer_slice_end];
             log::trace!("decode {buffer:?}");
-            match self.deserializer.decode(buffer) {
+            let decoded = match self.deserializer.decode(buffer) {
+                // A skip beyond what has been received has to wait for more, and it needs room for that just
+                // like an incomplete message does.
+                Err(DeserializeError::SkipMessage { distance }) if buffer.len() < distance => {
+                    log::trace!(
+                        "cannot skip yet, need to read more. Skipping: {distance}, remaining:{}",
+                        buffer.len()
+                    );
+                    Err(DeserializeError::IncompleteBuffer {
+                        next_message_size: distance,
+                    })
+                }
+                decoded => decoded,
+            };
+            match decoded {
                 Ok((length, message)) => {
                     self.receive_buffer_start_offset += length;
                     self.inbound_messages.push(message);
@@ -238,12 +252,6 @@ where
                         return ReadBufferState::Disconnected;
                     }
                     DeserializeError::SkipMessage { distance } => {
-                        if self.receive_buffer_slice_end - self.receive_buffer_start_offset
-                            < distance
-                        {
-                            log::trace!("cannot skip yet, need to read more. Skipping: {distance}, remaining:{}", self.receive_buffer_slice_end - self.receive_buffer_start_offset);
-                            break ReadBufferState::WaitingForMore;
-                        }
                         log::debug!("skipping message of length {distance}");
                         self.receive_buffer_start_offset += distance;
                     }
-- 
2.43.0


From 485443fd1b03c090831ebbcb90c2f66ae2c87d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:17 +0000
Subject: [PATCH 03/11] fix: wake the connection when a full receive buffer
 gets room without a new message

poll_receive doesn't register for readability while the receive buffer is full.
When deserializing only rotated or skipped through the buffer, the task went to
sleep without being registered for the readability it was waiting on.
---
 protosocket-connection/src/connection.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 264d31e..716ef3e 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -501,17 +501,20 @@ where
             return None;
         }
         let start_len = self.inbound_messages.len();
+        let receive_was_full = self.max_buffer_length <= self.receive_buffer_slice_end;
         match self.read_inbound_messages_into_read_queue() {
             ReadBufferState::WaitingForMore => {
                 log::trace!("read queue is still open");
                 let new_len = self.inbound_messages.len();
-                if start_len != new_len {
+                if start_len != new_len || receive_was_full {
                     // If you don't wake here, then when the read side gets full, you won't be registered for network
                     // activity wakes.
                     // You can skip this wake when you are deserializing a large message, because that is waiting
                     // for more inbound data to arrive. You are only WaitingForMore when you're mid-message,
                     // and if you've just got the one message you can wait for the network.
                     // There's no deserializer progress to report if you didn't deserialize anything.
+                    // But if the buffer was full then it was rotated or skipped through to make room, and nothing has
+                    // registered for network activity yet.
                     context.waker().wake_by_ref();
                 }
             }
-- 
2.43.0


From b6129960b22eafc2bfdb94b4c5b0614330533632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:46 +0000
Subject: [PATCH 04/11] fix: react to messages that were received before the
 end of the stream

When the end of the stream was found in the same poll as the last bytes, the
connection finished without deserializing them and complete messages were lost.
---
 protosocket-connection/src/connection.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 716ef3e..cf0462e 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -474,6 +474,7 @@ where
                             }
                             ReadBufferState::Disconnected => {
                                 log::info!("read connection closed");
+                                self.react_to_remaining_messages();
                                 return Some(Poll::Ready(()));
                             }
                             ReadBufferState::Error(e) => {
@@ -547,6 +548,22 @@ where
         None
     }
 
+    /// The peer is done sending: Process the complete messages that were received before the end of the stream.
+    fn react_to_remaining_messages(&mut self) {
+        loop {
+            let state = self.read_inbound_messages_into_read_queue();
+            if self.poll_react().is_some() {
+                return;
+            }
+            match state {
+                ReadBufferState::PartiallyConsumed => continue,
+                ReadBufferState::WaitingForMore
+                | ReadBufferState::Disconnected
+                | ReadBufferState::Error(_) => return,
+            }
+        }
+    }
+
     fn poll_outbound(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Option<Poll<()>> {
         loop {
             break if !self.send_buffer.is_empty() {
-- 
2.43.0


From 5902e7464fde2a4815e24319c196db2954c209b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:48 +0000
Subject: [PATCH 05/11] fix: wake the connection when a full send queue gets
 room

The outbound channel isn't polled while the send queue is full. When the whole
queue was then written in one poll, the task went to sleep registered with
neither the channel nor the socket, and queued messages were stuck.
---
 protosocket-connection/src/connection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index cf0462e..35f4533 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -565,6 +565,7 @@ where
     }
 
     fn poll_outbound(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Option<Poll<()>> {
+        let start_len = self.send_buffer.len();
         loop {
             break if !self.send_buffer.is_empty() {
                 // the write half of the stream is only considered for readiness when there is something to write.
@@ -604,6 +605,11 @@ where
                 log::trace!("nothing to send");
             };
         }
+        if self.send_buffer.len() != start_len {
+            // The serializer may have been waiting for this room, in which case it's not registered with the outbound
+            // channel. Make sure the task gets another round to look for more output.
+            context.waker().wake_by_ref();
+        }
         None
     }
 }
-- 
2.43.0


From 6d566a8e0d38c0d0e5685f9056e656f632e18fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:49 +0000
Subject: [PATCH 06/11] fix: write serialized messages before finishing when
 the outbound channel closes

The connection finished as soon as it found the outbound channel closed, losing
the messages it had already serialized but not written.
---
 protosocket-connection/src/connection.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 35f4533..893c019 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -335,7 +335,11 @@ where
                                 None => {
                                     assert_eq!(0, count);
                                     log::info!("outbound message channel was closed");
-                                    return Poll::Ready(());
+                                    if self.send_buffer.is_empty() {
+                                        return Poll::Ready(());
+                                    }
+                                    // what was already serialized has to be written before finishing
+                                    break;
                                 }
                             }
                         }
-- 
2.43.0


From d2875f24b37fcb13434d43cc406b483ac2bbde0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:29 +0000
Subject: [PATCH 07/11] fix: measure the real length delimiter when
 deserializing a prost message

A delimiter that announces close to usize::MAX bytes overflowed and panicked, one
that is longer than the shortest encoding of its length made an incomplete
message look invalid, and one that can never be valid was waited for forever.
---
 protosocket-prost/src/prost_serializer.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/protosocket-prost/src/prost_serializer.rs b/protosocket-prost/src/prost_serializer.rs
index b03236a..a5065ae 100644
--- a/protosocket-prost/src/prost_serializer.rs
+++ b/protosocket-prost/src/prost_serializer.rs
@@ -2,6 +2,9 @@ use std::marker::PhantomData;
 
 use protosocket::{DeserializeError, Deserializer, Serializer};
 
+/// A varint is at most this long, so there's no need to wait for more bytes than this to read one.
+const MAX_DELIMITER_LENGTH: usize = 10;
+
 /// A stateless implementation of protosocket's `Serializer` and `Deserializer`
 /// traits using `prost` for encoding and decoding protocol buffers messages.
 #[derive(Default, Debug)]
@@ -38,19 +41,26 @@ where
         &mut self,
         mut buffer: impl bytes::Buf,
     ) -> std::result::Result<(usize, Self::Message), DeserializeError> {
-        match prost::decode_length_delimiter(buffer.chunk()) {
+        let mut chunk = buffer.chunk();
+        let chunk_length = chunk.len();
+        match prost::decode_length_delimiter(&mut chunk) {
             Ok(message_length) => {
-                if buffer.remaining() < message_length + prost::length_delimiter_len(message_length)
-                {
+                // the delimiter may be longer than the shortest encoding of this length
+                let delimiter_length = chunk_length - chunk.len();
+                if buffer.remaining() - delimiter_length < message_length {
                     return Err(DeserializeError::IncompleteBuffer {
                         next_message_size: message_length,
                     });
                 }
             }
+            Err(e) if MAX_DELIMITER_LENGTH <= chunk_length => {
+                log::warn!("invalid length delimiter {e:?}");
+                return Err(DeserializeError::InvalidBuffer);
+            }
             Err(e) => {
                 log::trace!("can't read a length delimiter {e:?}");
                 return Err(DeserializeError::IncompleteBuffer {
-                    next_message_size: 10,
+                    next_message_size: MAX_DELIMITER_LENGTH,
                 });
             }
         };
-- 
2.43.0


From 645260ac09c8c6353822fe13ec395e84c72eabb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:30 +0000
Subject: [PATCH 08/11] fix: keep messagepack deserialization within the
 announced frame

A length near u32::MAX overflowed and panicked, and a body that is shorter or
longer than its announced length moved the start of the next frame.
---
 protosocket-messagepack/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/protosocket-messagepack/src/lib.rs b/protosocket-messagepack/src/lib.rs
index c5ad82d..87628bd 100644
--- a/protosocket-messagepack/src/lib.rs
+++ b/protosocket-messagepack/src/lib.rs
@@ -92,23 +92,23 @@ where
                 length
             }
         };
-        if start_remaining < (length + 5) as usize {
+        let frame_length = length as usize + 5;
+        if start_remaining < frame_length {
             return Err(protosocket::DeserializeError::IncompleteBuffer {
-                next_message_size: (length + 5) as usize,
+                next_message_size: frame_length,
             });
         }
         self.state = State::Waiting;
 
-        rmp_serde::decode::from_read(&mut reader)
+        // The message must not read into the frame that follows it, and whatever it leaves of its own frame is skipped.
+        rmp_serde::decode::from_read(reader.take(length as u64))
             .map_err(|e| {
                 log::error!("decode error length {length}: {e:?}");
                 protosocket::DeserializeError::InvalidBuffer
             })
             .map(|message| {
-                let buffer = reader.into_inner();
-                let length = start_remaining - buffer.remaining();
-                log::debug!("decoded {length}: {message:?}");
-                (length, message)
+                log::debug!("decoded {frame_length}: {message:?}");
+                (frame_length, message)
             })
     }
 }
-- 
2.43.0


From 04908439b82f97ac69fb11064776c9114b51dd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:31 +0000
Subject: [PATCH 09/11] fix: resolve rpcs that the reactor had not taken when
 its connection drops

An rpc that was registered but not yet taken from the shared submission map kept
its completion sender alive through the client's handle, so its caller waited
forever on a connection that was gone.
---
 .../src/client/reactor/completion_reactor.rs          |  2 ++
 .../src/client/reactor/completion_registry.rs         | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/protosocket-rpc/src/client/reactor/completion_reactor.rs b/protosocket-rpc/src/client/reactor/completion_reactor.rs
index febe6d5..3fe9ca3 100644
--- a/protosocket-rpc/src/client/reactor/completion_reactor.rs
+++ b/protosocket-rpc/src/client/reactor/completion_reactor.rs
@@ -71,6 +71,8 @@ where
     fn drop(&mut self) {
         self.is_alive
             .store(false, std::sync::atomic::Ordering::Release);
+        // Clients hold on to the submission map too, so rpcs that were not picked up yet must be resolved here.
+        self.rpc_registry.abandon_new_rpcs();
     }
 }
 
diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index 0764724..aa49ba3 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -64,6 +64,17 @@ where
         }
     }
 
+    /// Drop the rpcs that were submitted but not yet taken. This resolves them as cancelled or finished.
+    pub fn abandon_new_rpcs(&mut self) {
+        let abandoned = std::mem::take(
+            &mut *self
+                .in_flight_submission
+                .lock()
+                .expect("brief internal mutex must work"),
+        );
+        drop(abandoned);
+    }
+
     pub fn deregister(&mut self, message_id: u64) {
         self.in_flight.remove(&message_id);
     }
-- 
2.43.0


From ec53bf1431fbf6c4d777126666d3361e89136e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:33 +0000
Subject: [PATCH 10/11] fix: a connection that can't be set up doesn't stop the
 server

A peer that is gone before nodelay is set on its socket ended the accept loop, and
the server with it.
---
 protosocket-rpc/src/server/socket_server.rs | 5 ++++-
 protosocket-server/src/connection_server.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/protosocket-rpc/src/server/socket_server.rs b/protosocket-rpc/src/server/socket_server.rs
index 3819a83..e167de5 100644
--- a/protosocket-rpc/src/server/socket_server.rs
+++ b/protosocket-rpc/src/server/socket_server.rs
@@ -70,7 +70,10 @@ where
             break match self.listener.poll_accept(context) {
                 Poll::Ready(result) => match result {
                     Ok((stream, address)) => {
-                        stream.set_nodelay(true)?;
+                        if let Err(e) = stream.set_nodelay(true) {
+                            log::warn!("failed to set up connection from {address}: {e:?}");
+                            continue;
+                        }
                         let (submitter, inbound_messages) = RpcSubmitter::new();
                         let (outbound_messages, outbound_messages_receiver) =
                             mpsc::channel(self.max_queued_outbound_messages);
diff --git a/protosocket-server/src/connection_server.rs b/protosocket-server/src/connection_server.rs
index 9eaed3c..133e8dc 100644
--- a/protosocket-server/src/connection_server.rs
+++ b/protosocket-server/src/connection_server.rs
@@ -96,7 +96,10 @@ impl<Connector: ServerConnector> Future for ProtosocketServer<Connector> {
             break match self.listener.poll_accept(context) {
                 Poll::Ready(result) => match result {
                     Ok((stream, address)) => {
-                        stream.set_nodelay(true)?;
+                        if let Err(e) = stream.set_nodelay(true) {
+                            log::warn!("failed to set up connection from {address}: {e:?}");
+                            continue;
+                        }
                         let (outbound_submission_queue, outbound_messages) =
                             mpsc::channel(self.max_queued_outbound_messages);
                         let reactor = self
-- 
2.43.0


From 1b67f01dcfde683d392cd32ca33ff391a8467b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:51 +0000
Subject: [PATCH 11/11] fix: retiring a cancelled rpc doesn't abort a newer rpc
 with the same id

By the time an aborted rpc is retired its abort handle has been removed, so the
handle that was found under its id and marked aborted belonged to a newer rpc,
which then never completed.
---
 protosocket-rpc/src/server/connection_server.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/protosocket-rpc/src/server/connection_server.rs b/protosocket-rpc/src/server/connection_server.rs
index 2238136..95b3b9f 100644
--- a/protosocket-rpc/src/server/connection_server.rs
+++ b/protosocket-rpc/src/server/connection_server.rs
@@ -157,10 +157,8 @@ where
                         }
                         Some((id, AbortableState::Aborted)) => {
                             // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
+                            // The abort handle is already gone. If there's one for this id, it's for a newer rpc.
                             log::debug!("{id} unary rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
@@ -250,10 +248,8 @@ where
                             }
                         }
                         Some((id, AbortableState::Aborted)) => {
+                            // The abort handle is already gone. If there's one for this id, it's for a newer rpc.
                             log::debug!("{id} streaming rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
-- 
2.43.0

