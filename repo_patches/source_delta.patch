From f2c29776c6440c51977b24cee077f6fd942b0217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:58 +0000
Subject: [PATCH 01/15] fix: a message that encodes to nothing must not close
 the connection

A send queue of only empty buffers made writev return 0, which was taken
for a closed stream.
---
 protosocket-connection/src/connection.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 36e817c..7f56bdd 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -303,7 +303,7 @@ where
             return Poll::Pending;
         }
 
-        let start_len = self.send_buffer.len();
+        let mut serialized = 0;
         for _ in 0..max_outbound {
             let message = match self.outbound_message_buffer.pop() {
                 Some(next) => next,
@@ -343,6 +343,12 @@ where
                 );
                 return Poll::Ready(());
             }
+            serialized += 1;
+            if buffer.is_empty() {
+                // Nothing to put on the wire. A writev of only empty buffers would return 0, which reads as a closed stream.
+                self.serializer_buffers.push(buffer);
+                continue;
+            }
             log::trace!(
                 "serialized message and enqueueing outbound buffer: {}b",
                 buffer.len()
@@ -350,12 +356,8 @@ where
             // queue up a writev
             self.send_buffer.push_back(buffer);
         }
-        let new_len = self.send_buffer.len();
-        if start_len != new_len {
-            log::debug!(
-                "serialized {} messages, waking task to look for more input",
-                new_len - start_len
-            );
+        if 0 < serialized {
+            log::debug!("serialized {serialized} messages, waking task to look for more input");
             // if the serializer made progress, there may be more work that the network or outbound channel can do.
             // make sure the task gets another round to try.
             context.waker().wake_by_ref();
-- 
2.43.0


From a8b993fefc5e699db89d076b481e3b172f17451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:23 +0000
Subject: [PATCH 02/15] fix: look at the outbound channel again when a full
 send buffer drains

While the send buffer is full the outbound channel is not polled, so no
waker is registered with it. When a later poll only drained the send buffer,
nothing woke the connection for the messages waiting in the channel.
---
 protosocket-connection/src/connection.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 7f56bdd..6cb1057 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -84,15 +84,22 @@ impl<Bindings: ConnectionBindings> Future for Connection<Bindings> {
 
         // Step 4: Prepare outbound messages for sending. We serialize the outbound bytes here as per the
         // Connection's serializer
+        let send_was_full = self.room_in_send_buffer() == 0;
         if let Poll::Ready(early_out) = self.poll_serialize_outbound_messages(context) {
             return Poll::Ready(early_out);
         }
 
         // Step 5: Send outbound messages if the stream is ready for writing
-        if let Some(early_out) = self.poll_outbound(context) {
+        if let Some(early_out) = self.as_mut().poll_outbound(context) {
             return early_out;
         }
 
+        if send_was_full && 0 < self.room_in_send_buffer() {
+            // The outbound channel was not polled while the send buffer was full, so it holds no waker for this
+            // task. Now that there is room again, the task needs another round to look at it.
+            context.waker().wake_by_ref();
+        }
+
         Poll::Pending
     }
 }
-- 
2.43.0


From b565ce671785c60219c15b86755a30ad736fe2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:24 +0000
Subject: [PATCH 03/15] fix: read again when a full receive buffer gets room
 without a message

While the receive buffer is full the socket is not polled, so no waker is
registered with it. Skipping messages or rotating the buffer makes room
without producing a message, and then nothing woke the connection.
---
 protosocket-connection/src/connection.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 6cb1057..5d06e3f 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -497,17 +497,21 @@ where
             return None;
         }
         let start_len = self.inbound_messages.len();
+        let receive_was_full = self.max_buffer_length <= self.receive_buffer_slice_end;
         match self.read_inbound_messages_into_read_queue() {
             ReadBufferState::WaitingForMore => {
                 log::trace!("read queue is still open");
                 let new_len = self.inbound_messages.len();
-                if start_len != new_len {
+                let made_room =
+                    receive_was_full && self.receive_buffer_slice_end < self.max_buffer_length;
+                if start_len != new_len || made_room {
                     // If you don't wake here, then when the read side gets full, you won't be registered for network
                     // activity wakes.
                     // You can skip this wake when you are deserializing a large message, because that is waiting
                     // for more inbound data to arrive. You are only WaitingForMore when you're mid-message,
                     // and if you've just got the one message you can wait for the network.
-                    // There's no deserializer progress to report if you didn't deserialize anything.
+                    // There's no deserializer progress to report if you didn't deserialize anything, unless skipping
+                    // messages or rotating the buffer made room in a read side that was full.
                     context.waker().wake_by_ref();
                 }
             }
-- 
2.43.0


From b83759293272e52054ba914a56ccf8763aa77737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:25 +0000
Subject: [PATCH 04/15] fix: enforce the receive limit wherever a message falls
 in the buffer

A message to skip did not rotate the receive buffer, so a skip that did not
fit behind the bytes before it left the connection waiting with a full buffer
forever, and so did an incomplete message that was already longer than the
limit. A message over the limit was accepted or refused depending on how the
network happened to cut it.
---
 protosocket-connection/src/connection.rs | 55 ++++++++++++++++--------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 5d06e3f..6f43f9d 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -204,6 +204,10 @@ where
             log::trace!("decode {buffer:?}");
             match self.deserializer.decode(buffer) {
                 Ok((length, message)) => {
+                    if self.max_buffer_length < length {
+                        log::error!("received a message that is too long. Resetting connection - max: {}, received: {length}", self.max_buffer_length);
+                        return ReadBufferState::Disconnected;
+                    }
                     self.receive_buffer_start_offset += length;
                     self.inbound_messages.push(message);
                 }
@@ -213,24 +217,8 @@ where
                             log::error!("tried to receive message that is too long. Resetting connection - max: {}, requested: {}", self.max_buffer_length, next_message_size);
                             return ReadBufferState::Disconnected;
                         }
-                        if self.max_buffer_length
-                            < self.receive_buffer_slice_end + next_message_size
-                        {
-                            let length =
-                                self.receive_buffer_slice_end - self.receive_buffer_start_offset;
-                            log::debug!(
-                                "rotating {}b of buffer to make room for next message {}b",
-                                length,
-                                next_message_size
-                            );
-                            self.receive_buffer_swap.clear();
-                            self.receive_buffer_swap.extend_from_slice(
-                                &self.receive_buffer[self.receive_buffer_start_offset
-                                    ..self.receive_buffer_slice_end],
-                            );
-                            std::mem::swap(&mut self.receive_buffer, &mut self.receive_buffer_swap);
-                            self.receive_buffer_start_offset = 0;
-                            self.receive_buffer_slice_end = length;
+                        if !self.make_room_in_receive_buffer(next_message_size) {
+                            return ReadBufferState::Disconnected;
                         }
                         log::debug!("waiting for the next message of length {next_message_size}");
                         break ReadBufferState::WaitingForMore;
@@ -240,10 +228,17 @@ where
                         return ReadBufferState::Disconnected;
                     }
                     DeserializeError::SkipMessage { distance } => {
+                        if self.max_buffer_length < distance {
+                            log::error!("tried to skip a message that is too long. Resetting connection - max: {}, requested: {distance}", self.max_buffer_length);
+                            return ReadBufferState::Disconnected;
+                        }
                         if self.receive_buffer_slice_end - self.receive_buffer_start_offset
                             < distance
                         {
                             log::trace!("cannot skip yet, need to read more. Skipping: {distance}, remaining:{}", self.receive_buffer_slice_end - self.receive_buffer_start_offset);
+                            if !self.make_room_in_receive_buffer(distance) {
+                                return ReadBufferState::Disconnected;
+                            }
                             break ReadBufferState::WaitingForMore;
                         }
                         log::debug!("skipping message of length {distance}");
@@ -262,6 +257,30 @@ where
         state
     }
 
+    /// Move the undecoded bytes to the front of the receive buffer if the next message may not fit behind them.
+    /// Returns false when there is no room to be made: The message is already longer than the receive buffer may be.
+    fn make_room_in_receive_buffer(&mut self, next_message_size: usize) -> bool {
+        let length = self.receive_buffer_slice_end - self.receive_buffer_start_offset;
+        if self.max_buffer_length <= length {
+            log::error!("message does not fit in the receive buffer. Resetting connection - max: {}, received: {length}", self.max_buffer_length);
+            return false;
+        }
+        if self.max_buffer_length < self.receive_buffer_slice_end + next_message_size.max(1) {
+            log::debug!(
+                "rotating {length}b of buffer to make room for next message {next_message_size}b"
+            );
+            self.receive_buffer_swap.clear();
+            self.receive_buffer_swap.extend_from_slice(
+                &self.receive_buffer
+                    [self.receive_buffer_start_offset..self.receive_buffer_slice_end],
+            );
+            std::mem::swap(&mut self.receive_buffer, &mut self.receive_buffer_swap);
+            self.receive_buffer_start_offset = 0;
+            self.receive_buffer_slice_end = length;
+        }
+        true
+    }
+
     /// read from the TcpStream
     fn read_from_stream(&mut self) -> ReadBufferState {
         match self
-- 
2.43.0


From a1cf7afd5263b5630a9d9f343c2ebd600f63c0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:26 +0000
Subject: [PATCH 05/15] fix: deliver what was received before the peer closed
 its side

Bytes read in the same poll as the end of file, or left over from an earlier
full batch, were discarded with the complete messages in them.
---
 protosocket-connection/src/connection.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 6f43f9d..c0c470b 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -489,6 +489,7 @@ where
                             }
                             ReadBufferState::Disconnected => {
                                 log::info!("read connection closed");
+                                self.drain_inbound();
                                 return Some(Poll::Ready(()));
                             }
                             ReadBufferState::Error(e) => {
@@ -563,6 +564,16 @@ where
         None
     }
 
+    /// The peer is done sending. Hand everything it sent before that to the reactor.
+    fn drain_inbound(&mut self) {
+        loop {
+            let state = self.read_inbound_messages_into_read_queue();
+            if self.poll_react().is_some() || !matches!(state, ReadBufferState::PartiallyConsumed) {
+                break;
+            }
+        }
+    }
+
     fn poll_outbound(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Option<Poll<()>> {
         loop {
             break if !self.send_buffer.is_empty() {
-- 
2.43.0


From 4ff2210de81d7d3dff7fd620b7b9d5e319388b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:28 +0000
Subject: [PATCH 06/15] fix: write out accepted messages before closing an
 unused connection

When the last outbound sender was dropped, messages that were accepted and
serialized but not yet written were discarded with the connection.
---
 protosocket-connection/src/connection.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index c0c470b..ce021e7 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -26,6 +26,7 @@ pub struct Connection<Bindings: ConnectionBindings> {
     address: std::net::SocketAddr,
     outbound_messages: mpsc::Receiver<<Bindings::Serializer as Serializer>::Message>,
     outbound_message_buffer: Vec<<Bindings::Serializer as Serializer>::Message>,
+    outbound_closed: bool,
     inbound_messages: Vec<<Bindings::Deserializer as Deserializer>::Message>,
     serializer_buffers: Vec<Vec<u8>>,
     send_buffer: VecDeque<Vec<u8>>,
@@ -94,6 +95,11 @@ impl<Bindings: ConnectionBindings> Future for Connection<Bindings> {
             return early_out;
         }
 
+        if self.outbound_closed && self.send_buffer.is_empty() {
+            log::debug!("outbound message channel was closed and everything is sent");
+            return Poll::Ready(());
+        }
+
         if send_was_full && 0 < self.room_in_send_buffer() {
             // The outbound channel was not polled while the send buffer was full, so it holds no waker for this
             // task. Now that there is room again, the task needs another round to look at it.
@@ -146,6 +152,7 @@ where
             address,
             outbound_messages,
             outbound_message_buffer: Vec::new(),
+            outbound_closed: false,
             inbound_messages: Vec::with_capacity(max_queued_send_messages),
             send_buffer: Default::default(),
             serializer_buffers: Vec::from_iter((0..1).map(|_| Vec::new())),
@@ -348,7 +355,8 @@ where
                                 None => {
                                     assert_eq!(0, count);
                                     log::info!("outbound message channel was closed");
-                                    return Poll::Ready(());
+                                    self.outbound_closed = true;
+                                    break;
                                 }
                             }
                         }
-- 
2.43.0


From a07baf9fccd51a09ba26a1384a5103d3acfdebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:04 +0000
Subject: [PATCH 07/15] fix: refuse an invalid protocol buffers length
 delimiter

A delimiter that can never be decoded was reported as incomplete, which left
the connection open and waiting, and a delimiter close to the largest integer
overflowed when the delimiter's own length was added to it.
---
 protosocket-prost/src/prost_serializer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/protosocket-prost/src/prost_serializer.rs b/protosocket-prost/src/prost_serializer.rs
index b03236a..2a0f96b 100644
--- a/protosocket-prost/src/prost_serializer.rs
+++ b/protosocket-prost/src/prost_serializer.rs
@@ -2,6 +2,9 @@ use std::marker::PhantomData;
 
 use protosocket::{DeserializeError, Deserializer, Serializer};
 
+/// A varint is at most this long. With this many bytes, a length delimiter is either readable or invalid.
+const MAXIMUM_LENGTH_DELIMITER: usize = 10;
+
 /// A stateless implementation of protosocket's `Serializer` and `Deserializer`
 /// traits using `prost` for encoding and decoding protocol buffers messages.
 #[derive(Default, Debug)]
@@ -40,17 +43,21 @@ where
     ) -> std::result::Result<(usize, Self::Message), DeserializeError> {
         match prost::decode_length_delimiter(buffer.chunk()) {
             Ok(message_length) => {
-                if buffer.remaining() < message_length + prost::length_delimiter_len(message_length)
-                {
+                let delimiter_length = prost::length_delimiter_len(message_length);
+                if buffer.remaining() < message_length.saturating_add(delimiter_length) {
                     return Err(DeserializeError::IncompleteBuffer {
                         next_message_size: message_length,
                     });
                 }
             }
             Err(e) => {
+                if MAXIMUM_LENGTH_DELIMITER <= buffer.remaining() {
+                    log::warn!("length delimiter is invalid: {e:?}");
+                    return Err(DeserializeError::InvalidBuffer);
+                }
                 log::trace!("can't read a length delimiter {e:?}");
                 return Err(DeserializeError::IncompleteBuffer {
-                    next_message_size: 10,
+                    next_message_size: MAXIMUM_LENGTH_DELIMITER,
                 });
             }
         };
-- 
2.43.0


From 7b15247cfc2c985140d562133703ab9c42e55543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:05 +0000
Subject: [PATCH 08/15] fix: keep a MessagePack message within its frame

Decoding was not limited to the announced length, so a frame whose contents
are longer than announced was decoded with bytes of the next frame or refused,
depending on how much had been received. An announced length close to the
largest 32 bit integer overflowed when the prefix length was added to it.
---
 protosocket-messagepack/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/protosocket-messagepack/src/lib.rs b/protosocket-messagepack/src/lib.rs
index c5ad82d..2798a70 100644
--- a/protosocket-messagepack/src/lib.rs
+++ b/protosocket-messagepack/src/lib.rs
@@ -92,23 +92,23 @@ where
                 length
             }
         };
-        if start_remaining < (length + 5) as usize {
+        let frame_length = (length as usize).saturating_add(5);
+        if start_remaining < frame_length {
             return Err(protosocket::DeserializeError::IncompleteBuffer {
-                next_message_size: (length + 5) as usize,
+                next_message_size: frame_length,
             });
         }
         self.state = State::Waiting;
 
-        rmp_serde::decode::from_read(&mut reader)
+        // the message is limited to its frame: it must not consume bytes of the next one
+        rmp_serde::decode::from_read(reader.take(length as u64))
             .map_err(|e| {
                 log::error!("decode error length {length}: {e:?}");
                 protosocket::DeserializeError::InvalidBuffer
             })
             .map(|message| {
-                let buffer = reader.into_inner();
-                let length = start_remaining - buffer.remaining();
-                log::debug!("decoded {length}: {message:?}");
-                (length, message)
+                log::debug!("decoded {frame_length}: {message:?}");
+                (frame_length, message)
             })
     }
 }
-- 
2.43.0


From 79349c19b4b59274698f09ce4e7dc16349d08de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:31 +0000
Subject: [PATCH 09/15] fix: a connection that cannot be set up must not stop
 the server

Setting a socket option can fail when the peer is already gone. The error
ended the whole server instead of only that connection.
---
 protosocket-rpc/src/server/socket_server.rs | 5 ++++-
 protosocket-server/src/connection_server.rs | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/protosocket-rpc/src/server/socket_server.rs b/protosocket-rpc/src/server/socket_server.rs
index 3819a83..b0be0ad 100644
--- a/protosocket-rpc/src/server/socket_server.rs
+++ b/protosocket-rpc/src/server/socket_server.rs
@@ -70,7 +70,10 @@ where
             break match self.listener.poll_accept(context) {
                 Poll::Ready(result) => match result {
                     Ok((stream, address)) => {
-                        stream.set_nodelay(true)?;
+                        if let Err(e) = stream.set_nodelay(true) {
+                            log::error!("failed to set up connection from {address}: {e:?}");
+                            continue;
+                        }
                         let (submitter, inbound_messages) = RpcSubmitter::new();
                         let (outbound_messages, outbound_messages_receiver) =
                             mpsc::channel(self.max_queued_outbound_messages);
diff --git a/protosocket-server/src/connection_server.rs b/protosocket-server/src/connection_server.rs
index 9eaed3c..a37aede 100644
--- a/protosocket-server/src/connection_server.rs
+++ b/protosocket-server/src/connection_server.rs
@@ -96,7 +96,10 @@ impl<Connector: ServerConnector> Future for ProtosocketServer<Connector> {
             break match self.listener.poll_accept(context) {
                 Poll::Ready(result) => match result {
                     Ok((stream, address)) => {
-                        stream.set_nodelay(true)?;
+                        if let Err(e) = stream.set_nodelay(true) {
+                            log::error!("failed to set up connection from {address}: {e:?}");
+                            continue;
+                        }
                         let (outbound_submission_queue, outbound_messages) =
                             mpsc::channel(self.max_queued_outbound_messages);
                         let reactor = self
-- 
2.43.0


From 48af83b69f025bc8d020fae7c406554d377aeb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:32 +0000
Subject: [PATCH 10/15] fix: retiring a finished rpc must not abort a new one
 with the same id

A finished stream or cancelled rpc is retired some time after its handle was
removed. If the client had started another rpc with that id in the meantime,
retiring the old one aborted the new one, and its caller waited forever.
---
 protosocket-rpc/src/server/connection_server.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/protosocket-rpc/src/server/connection_server.rs b/protosocket-rpc/src/server/connection_server.rs
index 2238136..6f3efbb 100644
--- a/protosocket-rpc/src/server/connection_server.rs
+++ b/protosocket-rpc/src/server/connection_server.rs
@@ -156,11 +156,8 @@ where
                             }
                         }
                         Some((id, AbortableState::Aborted)) => {
-                            // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
+                            // The abort handle was removed when this was marked as aborted. If there is one now, it belongs to a new rpc that uses the same id.
                             log::debug!("{id} unary rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
@@ -250,10 +247,8 @@ where
                             }
                         }
                         Some((id, AbortableState::Aborted)) => {
+                            // The abort handle was removed when this was marked as aborted. If there is one now, it belongs to a new rpc that uses the same id.
                             log::debug!("{id} streaming rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
-- 
2.43.0


From d0ae5fd72f820a4df508239c5422ed9091e4d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:33 +0000
Subject: [PATCH 11/15] fix: resolve submitted rpcs when the connection is
 dropped

Completions the reactor had not yet taken over stayed in the map shared with
the clients when the connection ended, so those calls waited forever.
---
 .../src/client/reactor/completion_reactor.rs         |  2 ++
 .../src/client/reactor/completion_registry.rs        | 12 ++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/protosocket-rpc/src/client/reactor/completion_reactor.rs b/protosocket-rpc/src/client/reactor/completion_reactor.rs
index febe6d5..64dba82 100644
--- a/protosocket-rpc/src/client/reactor/completion_reactor.rs
+++ b/protosocket-rpc/src/client/reactor/completion_reactor.rs
@@ -71,6 +71,8 @@ where
     fn drop(&mut self) {
         self.is_alive
             .store(false, std::sync::atomic::Ordering::Release);
+        // rpcs that were submitted but not yet taken are held by the clients too, so dropping the registry is not enough
+        self.rpc_registry.close();
     }
 }
 
diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index 0764724..df5ef75 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -64,6 +64,18 @@ where
         }
     }
 
+    /// Drop the completions of submitted rpcs, so the callers learn that there will be no response.
+    pub fn close(&mut self) {
+        let submitted = std::mem::take(
+            &mut *self
+                .in_flight_submission
+                .lock()
+                .expect("brief internal mutex must work"),
+        );
+        // dropping a completion wakes its caller - that is not to be done under the lock
+        drop(submitted);
+    }
+
     pub fn deregister(&mut self, message_id: u64) {
         self.in_flight.remove(&message_id);
     }
-- 
2.43.0


From 8825dd4cfa7c70cfd729751e2535ee769bcfb329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:19 +0000
Subject: [PATCH 12/15] fix: report a stream that was cut off as cancelled, not
 as finished

A streaming call reported the same normal end whether the server ended the
stream, cancelled it, or the connection was lost, so a caller could take a
truncated stream for a complete one.
---
 .../src/client/reactor/completion_reactor.rs    |  9 +++++++--
 .../src/client/reactor/completion_registry.rs   |  6 +++---
 .../src/client/reactor/completion_streaming.rs  | 17 ++++++++++++-----
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/protosocket-rpc/src/client/reactor/completion_reactor.rs b/protosocket-rpc/src/client/reactor/completion_reactor.rs
index 64dba82..1fbd479 100644
--- a/protosocket-rpc/src/client/reactor/completion_reactor.rs
+++ b/protosocket-rpc/src/client/reactor/completion_reactor.rs
@@ -101,14 +101,19 @@ where
                 }
                 ProtosocketControlCode::End => {
                     log::debug!("{message_id_from_the_network} command end of stream");
-                    self.rpc_registry.deregister(message_id_from_the_network);
+                    if let Some(Completion::RemoteStreaming(stream)) =
+                        self.rpc_registry.deregister(message_id_from_the_network)
+                    {
+                        // Only the end message makes a stream complete. The caller may have lost interest, and that's fine.
+                        let _ = stream.send(Err(crate::Error::Finished));
+                    }
                     continue;
                 }
             }
             match self.rpc_registry.entry(message_id_from_the_network) {
                 Entry::Occupied(mut registered_rpc) => {
                     if let Completion::RemoteStreaming(stream) = registered_rpc.get_mut() {
-                        if let Err(e) = stream.send(message_from_the_network) {
+                        if let Err(e) = stream.send(Ok(message_from_the_network)) {
                             log::debug!("{message_id_from_the_network} completion channel closed - did the client lose interest in this request? {e:?}");
                             registered_rpc.remove();
                         }
diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index df5ef75..7a45d75 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -76,8 +76,8 @@ where
         drop(submitted);
     }
 
-    pub fn deregister(&mut self, message_id: u64) {
-        self.in_flight.remove(&message_id);
+    pub fn deregister(&mut self, message_id: u64) -> Option<Completion<Inbound>> {
+        self.in_flight.remove(&message_id)
     }
 
     pub fn entry(&mut self, message_id: u64) -> Entry<'_, u64, Completion<Inbound>> {
@@ -175,7 +175,7 @@ where
     Inbound: Message,
 {
     Unary(oneshot::Sender<crate::Result<Inbound>>),
-    RemoteStreaming(mpsc::UnboundedSender<Inbound>),
+    RemoteStreaming(mpsc::UnboundedSender<crate::Result<Inbound>>),
 }
 
 #[derive(Debug)]
diff --git a/protosocket-rpc/src/client/reactor/completion_streaming.rs b/protosocket-rpc/src/client/reactor/completion_streaming.rs
index aa2ece8..b8ee21b 100644
--- a/protosocket-rpc/src/client/reactor/completion_streaming.rs
+++ b/protosocket-rpc/src/client/reactor/completion_streaming.rs
@@ -18,10 +18,10 @@ where
     Response: Message,
     Request: Message,
 {
-    completion: mpsc::UnboundedReceiver<Response>,
+    completion: mpsc::UnboundedReceiver<crate::Result<Response>>,
     completion_guard: CompletionGuard<Response, Request>,
     closed: bool,
-    nexts: Vec<Response>,
+    nexts: Vec<crate::Result<Response>>,
 }
 
 /// SAFETY: There is no unsafe code in this implementation
@@ -40,7 +40,7 @@ where
     Request: Message,
 {
     pub(crate) fn new(
-        completion: mpsc::UnboundedReceiver<Response>,
+        completion: mpsc::UnboundedReceiver<crate::Result<Response>>,
         completion_guard: CompletionGuard<Response, Request>,
     ) -> Self {
         Self {
@@ -73,7 +73,8 @@ where
                     if count == 0 {
                         self.closed = true;
                         self.completion_guard.set_closed();
-                        return Poll::Ready(Some(Err(crate::Error::Finished)));
+                        // the stream was cut off without an end message: cancelled, or the connection is gone
+                        return Poll::Ready(Some(Err(crate::Error::CancelledRemotely)));
                     }
                     // because it is a vector, we have to consume in reverse order. This is because
                     // of the poll_recv_many argument type.
@@ -83,7 +84,13 @@ where
             }
         }
         match self.nexts.pop() {
-            Some(next) => Poll::Ready(Some(Ok(next))),
+            Some(next) => {
+                if next.is_err() {
+                    self.closed = true;
+                    self.completion_guard.set_closed();
+                }
+                Poll::Ready(Some(next))
+            }
             None => {
                 log::error!("unexpected empty nexts");
                 Poll::Ready(None)
-- 
2.43.0


From 0a4cf3e5a93490f251192ed3fc9e1dfcb9b3be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:22 +0000
Subject: [PATCH 13/15] fix: cancel a dropped rpc also when the outbound queue
 is full

Dropping a completion while the client's outbound queue was full lost the
cancellation, and the server kept working on an rpc nobody waits for.
---
 .../src/client/reactor/completion_registry.rs | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index 7a45d75..17b56ce 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -1,8 +1,11 @@
 use std::{
     collections::{hash_map::Entry, HashMap},
+    future::Future,
     sync::Arc,
+    task::Context,
 };
 
+use futures::task::noop_waker_ref;
 use k_lock::Mutex;
 use tokio::sync::{mpsc, oneshot};
 
@@ -120,18 +123,41 @@ where
             // This doesn't result in a prompt wake of the reactor
             .insert(self.message_id, CompletionState::Done);
         if !self.closed {
-            if let Err(e) = self
+            match self
                 .raw_submission_queue
                 .try_send(Outbound::cancelled(self.message_id))
             {
-                log::error!(
-                    "unable to send cancellation for message - this will abandon server rpcs {e:?}"
-                );
+                Ok(()) => (),
+                Err(mpsc::error::TrySendError::Full(cancellation)) => {
+                    send_cancellation_later(self.raw_submission_queue.clone(), cancellation)
+                }
+                Err(mpsc::error::TrySendError::Closed(_)) => {
+                    log::debug!("connection is closed, so there is nothing to cancel");
+                }
             }
         }
     }
 }
 
+/// The queue is full, and a drop can't wait for it. The cancellation gets its place in line now, so it stays ahead
+/// of whatever this client sends next, and a task waits for its turn.
+fn send_cancellation_later<Outbound: Message>(queue: mpsc::Sender<Outbound>, message: Outbound) {
+    let Ok(runtime) = tokio::runtime::Handle::try_current() else {
+        log::error!(
+            "unable to send cancellation for message - this will abandon server rpcs {message:?}"
+        );
+        return;
+    };
+    let mut send = Box::pin(tokio::task::unconstrained(async move {
+        // if this fails the connection is closed, and there is nothing to cancel
+        let _ = queue.send(message).await;
+    }));
+    let mut context = Context::from_waker(noop_waker_ref());
+    if send.as_mut().poll(&mut context).is_pending() {
+        runtime.spawn(send);
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct RpcRegistrar<Inbound>
 where
-- 
2.43.0


From 5c00cc1711645bea3ad054b2318864e0446708fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:15 +0000
Subject: [PATCH 14/15] fix: an rpc that was given up before it was sent leaves
 nothing behind

A caller that stopped waiting for room in the outbound queue left a registry
entry and, with the queue full, a pending cancellation of a request that was
never sent. While the peer does not read, these piled up without bound.
---
 protosocket-rpc/src/client/rpc_client.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/protosocket-rpc/src/client/rpc_client.rs b/protosocket-rpc/src/client/rpc_client.rs
index 452164f..70f1e0f 100644
--- a/protosocket-rpc/src/client/rpc_client.rs
+++ b/protosocket-rpc/src/client/rpc_client.rs
@@ -94,16 +94,23 @@ where
             // early-out if the connection is closed
             return Err(crate::Error::ConnectionIsClosed);
         }
+        // Wait for room before tracking the rpc, so a caller that gives up waiting leaves nothing behind.
+        let permit = self
+            .submission_queue
+            .reserve()
+            .await
+            .map_err(|_e| crate::Error::ConnectionIsClosed)?;
         let completion_guard = self.in_flight_submission.register_completion(
             request.message_id(),
             completion,
             self.submission_queue.clone(),
         );
-        self.submission_queue
-            .send(request)
-            .await
-            .map_err(|_e| crate::Error::ConnectionIsClosed)
-            .map(|_| completion_guard)
+        permit.send(request);
+        if self.submission_queue.is_closed() {
+            // the reactor may be gone already, and then it does not get to see this rpc
+            return Err(crate::Error::ConnectionIsClosed);
+        }
+        Ok(completion_guard)
     }
 }
 
-- 
2.43.0


From d487dd4e1ddc2b934bfc867cfdc0a8d6e23557d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:56 +0000
Subject: [PATCH 15/15] fix: a protocol buffers length may be longer than it
 has to be

The size of the delimiter was recomputed from the length instead of taken
from the wire. A padded varint, which protocol buffers decoders accept, was
read correctly when the whole message was there and refused as invalid when
the message came in pieces that ended near its end.
---
 protosocket-prost/src/prost_serializer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/protosocket-prost/src/prost_serializer.rs b/protosocket-prost/src/prost_serializer.rs
index 2a0f96b..7db221a 100644
--- a/protosocket-prost/src/prost_serializer.rs
+++ b/protosocket-prost/src/prost_serializer.rs
@@ -41,9 +41,12 @@ where
         &mut self,
         mut buffer: impl bytes::Buf,
     ) -> std::result::Result<(usize, Self::Message), DeserializeError> {
-        match prost::decode_length_delimiter(buffer.chunk()) {
+        let mut delimiter = buffer.chunk();
+        let delimiter_start = delimiter.len();
+        match prost::decode_length_delimiter(&mut delimiter) {
             Ok(message_length) => {
-                let delimiter_length = prost::length_delimiter_len(message_length);
+                // as long as it is on the wire: a varint may be longer than it has to be
+                let delimiter_length = delimiter_start - delimiter.len();
                 if buffer.remaining() < message_length.saturating_add(delimiter_length) {
                     return Err(DeserializeError::IncompleteBuffer {
                         next_message_size: message_length,
-- 
2.43.0

