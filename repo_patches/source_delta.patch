From 50c02829e8474accfd72de8e58c864897ba188ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 01/12] Add request id hook for deterministic simulation (cfg
 fizyr_rpc_sim)

---
 src/lib.rs             |  5 +++++
 src/request_tracker.rs |  4 ++++
 src/sim.rs             | 25 +++++++++++++++++++++++++
 3 files changed, 34 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index 40db008..5c28c1d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -77,6 +77,7 @@
 //! ```
 
 #![warn(missing_docs)]
+#![allow(unexpected_cfgs)] // `fizyr_rpc_sim` is only set by the simulation harness.
 
 /// Unwrap a [`Poll`](std::task::Poll) value and return from the enclosing function if it was [`Pending`](std::task::Poll::Pending).
 ///
@@ -105,6 +106,10 @@ mod peer_handle;
 mod request;
 mod request_tracker;
 
+#[cfg(fizyr_rpc_sim)]
+#[doc(hidden)]
+pub mod sim;
+
 pub mod introspection;
 pub mod format;
 pub mod transport;
diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 19b6aaa..b2e4f47 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -58,6 +58,10 @@ impl<Body> RequestTracker<Body> {
 	pub fn allocate_sent_request(&mut self, service_id: i32) -> Result<SentRequestHandle<Body>, Error> {
 		// Try to find a free ID a bunch of times.
 		for _ in 0..100 {
+			#[cfg(fizyr_rpc_sim)]
+			{
+				self.next_sent_request_id = crate::sim::id_jump(self.next_sent_request_id);
+			}
 			let request_id = self.next_sent_request_id;
 			self.next_sent_request_id = self.next_sent_request_id.wrapping_add(1);
 
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..07f2c6d
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,25 @@
+//! Hooks for deterministic simulation.
+//!
+//! This module only exists when compiled with `--cfg fizyr_rpc_sim`.
+
+use std::cell::Cell;
+
+thread_local! {
+	static ID_JUMP: Cell<Option<(u32, u32)>> = const { Cell::new(None) };
+}
+
+/// Make the request ID counter jump from one value to another, in all peers on this thread.
+///
+/// With `(n, 0u32.wrapping_sub(k))` the counter runs through the last `k` IDs, wraps around,
+/// runs through the first `n` IDs and starts over, as if billions of requests had been made in between.
+pub fn set_id_jump(jump: Option<(u32, u32)>) {
+	ID_JUMP.with(|x| x.set(jump))
+}
+
+/// Get the ID to use instead of the given one.
+pub(crate) fn id_jump(id: u32) -> u32 {
+	match ID_JUMP.with(|x| x.get()) {
+		Some((from, to)) if id == from => to,
+		_ => id,
+	}
+}
-- 
2.43.0


From 5dd9e359b500d2fb9cefd26b8757aede9049907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:45 +0000
Subject: [PATCH 02/12] fix: keep count of all bytes written after a partial
 write of a message

---
 src/transport/stream/transport.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index 722a8f4..cdab6c5 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -235,10 +235,10 @@ where
 		while this.bytes_written < FRAMED_HEADER_LEN + body.len() {
 			let stream = Pin::new(&mut this.stream);
 			if this.bytes_written < FRAMED_HEADER_LEN {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&header_buffer[this.bytes_written..]), IoSlice::new(&body.data)]))
 					.map_err(TransportError::new_fatal)?;
 			} else {
-				this.bytes_written = ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
+				this.bytes_written += ready!(stream.poll_write_vectored(context, &[IoSlice::new(&body.data[this.bytes_written - FRAMED_HEADER_LEN..])]))
 					.map_err(TransportError::new_fatal)?;
 			}
 		}
-- 
2.43.0


From b23152f1ab8370f1ee90bb236af7d6fa3634852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 03/12] fix: refuse datagrams with a body larger than
 max_body_len_read instead of delivering them truncated

---
 src/transport/unix/transport.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index f5fa41f..e4b20ec 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -149,8 +149,9 @@ mod implementation {
 			let this = self.get_mut();
 
 			// Prepare buffers for the message header and body.
+			// Leave room for one byte more than allowed, so that we can tell if the message is too large.
 			let mut header_buffer = [0u8; crate::HEADER_LEN as usize];
-			this.body_buffer.resize(this.max_body_len as usize, 0u8);
+			this.body_buffer.resize(this.max_body_len as usize + 1, 0u8);
 
 			// Prepare a buffer for the ancillary data.
 			// TODO: properly compute size of ancillary buffer.
@@ -182,6 +183,12 @@ mod implementation {
 			let header = MessageHeader::decode(&header_buffer, this.endian)
 				.map_err(TransportError::new_fatal)?;
 
+			// Check the incoming body size.
+			// If it is too large, the rest of the datagram has been discarded by the kernel,
+			// so the transport can still be used for the next message.
+			check_payload_too_large(bytes_read - crate::HEADER_LEN as usize, this.max_body_len as usize)
+				.map_err(TransportError::new_non_fatal)?;
+
 			// Resize the body buffer to the actual body size.
 			let mut body = std::mem::take(&mut this.body_buffer);
 			body.resize(bytes_read - crate::HEADER_LEN as usize, 0);
-- 
2.43.0


From e3278d567d1de1b676f1eb68cf2fe94333831543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:13 +0000
Subject: [PATCH 04/12] fix: enforce max_fds_read and max_fds_write

---
 src/transport/unix/transport.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index e4b20ec..f161ddb 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -142,6 +142,14 @@ mod implementation {
 	use crate::transport::TransportError;
 	use crate::{Message, MessageHeader, UnixBody};
 
+	/// Create an error for a message with more file descriptors than allowed.
+	fn too_many_fds(max_fds: u32) -> std::io::Error {
+		std::io::Error::new(
+			std::io::ErrorKind::Other,
+			format!("too many file descriptors: maximum number of file descriptors is {max_fds}"),
+		)
+	}
+
 	impl crate::transport::TransportReadHalf for UnixReadHalf<&tokio_seqpacket::UnixSeqpacket> {
 		type Body = UnixBody;
 
@@ -164,6 +172,7 @@ mod implementation {
 
 			// Immediately wrap all file descriptors to prevent leaking any of them.
 			// We must always do this directly after a successful read.
+			let truncated = ancillary.is_truncated();
 			let mut fds = Vec::new();
 			for msg in ancillary.into_messages() {
 				if let OwnedAncillaryMessage::FileDescriptors(msg) = msg {
@@ -183,6 +192,12 @@ mod implementation {
 			let header = MessageHeader::decode(&header_buffer, this.endian)
 				.map_err(TransportError::new_fatal)?;
 
+			// Check the number of file descriptors.
+			// If the ancillary data was truncated, some of the file descriptors are missing.
+			if truncated || fds.len() > this.max_fds as usize {
+				return Poll::Ready(Err(TransportError::new_non_fatal(too_many_fds(this.max_fds))));
+			}
+
 			// Check the incoming body size.
 			// If it is too large, the rest of the datagram has been discarded by the kernel,
 			// so the transport can still be used for the next message.
@@ -207,6 +222,11 @@ mod implementation {
 			check_payload_too_large(body.data.len(), this.max_body_len as usize)
 				.map_err(TransportError::new_non_fatal)?;
 
+			// Check the number of outgoing file descriptors.
+			if body.fds.len() > this.max_fds as usize {
+				return Poll::Ready(Err(TransportError::new_non_fatal(too_many_fds(this.max_fds))));
+			}
+
 			// Prepare a buffer for the message header.
 			let mut header_buffer = [0; crate::HEADER_LEN as usize];
 			header.encode(&mut header_buffer, this.endian);
-- 
2.43.0


From 5828131b092e37e8e13141b7361ffc97a318befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 05/12] fix: keep a received request open when its response
 could not be sent

---
 src/peer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 15f0200..20e30a7 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -322,11 +322,6 @@ where
 
 	/// Process a SendRawMessage command.
 	async fn send_raw_message(&mut self, command: crate::peer::SendRawMessage<W::Body>) -> LoopFlow {
-		// Remove tracked received requests when we send a response.
-		if command.message.header.message_type.is_response() {
-			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
-		}
-
 		// TODO: replace SendRawMessage with specific command for different message types.
 		// Then we can use that to remove the appropriate request from the tracker if result_tx is dropped.
 		// Or just parse the message header to determine which request to remove.
@@ -339,6 +334,12 @@ where
 			return flow;
 		}
 
+		// Remove tracked received requests when we sent a response.
+		// If the response could not be sent, the request is still open and a different response can be sent.
+		if command.message.header.message_type.is_response() {
+			let _: Result<_, _> = self.request_tracker.remove_received_request(command.message.header.request_id);
+		}
+
 		let _: Result<_, _> = command.result_tx.send(Ok(()));
 		LoopFlow::Continue
 	}
-- 
2.43.0


From f4107b275847d520cf6fbf0b53b78a22fd592352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 06/12] fix: never send a message for a request that was closed
 while the message was queued

---
 src/peer.rs            | 15 +++++++++++++++
 src/peer_handle.rs     |  2 +-
 src/request.rs         |  4 ++--
 src/request_tracker.rs |  7 ++++---
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index 20e30a7..babfde0 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -1,5 +1,7 @@
+use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
 use tokio::sync::{mpsc, oneshot};
 
+use crate::error::private::InnerError;
 use crate::{
 	util,
 	Error,
@@ -329,6 +331,13 @@ where
 		// Actually, should we remove the request if result_tx is dropped?
 		// Needs more thought.
 
+		// The request may have been closed while the command was waiting in the queue.
+		// Then we're not allowed to send messages for it anymore.
+		if command.request_closed.map_or(false, |x| x.load(Ordering::Acquire)) {
+			let _: Result<_, _> = command.result_tx.send(Err(InnerError::RequestClosed.into()));
+			return LoopFlow::Continue;
+		}
+
 		if let Err((e, flow)) = self.write_message(&command.message).await {
 			let _: Result<_, _> = command.result_tx.send(Err(e));
 			return flow;
@@ -443,6 +452,12 @@ pub struct SendRawMessage<Body> {
 	/// The message to send.
 	pub message: Message<Body>,
 
+	/// Flag of the request that the message belongs to, which is set when the request is closed.
+	///
+	/// The request may have been closed after the command was queued.
+	/// In that case, the message is not sent.
+	pub request_closed: Option<Arc<AtomicBool>>,
+
 	/// One-shot channel to receive the result of sending the message.
 	pub result_tx: oneshot::Sender<Result<(), Error>>,
 }
diff --git a/src/peer_handle.rs b/src/peer_handle.rs
index afa9058..e5d9706 100644
--- a/src/peer_handle.rs
+++ b/src/peer_handle.rs
@@ -171,7 +171,7 @@ impl<Body> PeerWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::stream(0, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, request_closed: None, result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 
 		result_rx.await.map_err(|_| connection_aborted())?
diff --git a/src/request.rs b/src/request.rs
index 7384523..4795f10 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -208,7 +208,7 @@ impl<Body> SentRequestWriteHandle<Body> {
 		let (result_tx, result_rx) = oneshot::channel();
 		let message = Message::requester_update(self.request_id, service_id, body);
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, request_closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
@@ -328,7 +328,7 @@ impl<Body> ReceivedRequestWriteHandle<Body> {
 
 		let (result_tx, result_rx) = oneshot::channel();
 		self.command_tx
-			.send(SendRawMessage { message, result_tx }.into())
+			.send(SendRawMessage { message, request_closed: Some(self.closed.clone()), result_tx }.into())
 			.map_err(|_| connection_aborted())?;
 		result_rx.await.map_err(|_| connection_aborted())??;
 		Ok(())
diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index b2e4f47..9597a25 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -187,12 +187,13 @@ impl<Body> RequestTracker<Body> {
 			Entry::Occupied(entry) => {
 				let tracked_request = entry.remove();
 
-				// Forward the message to the sent_request.
-				let _: Result<_, _> = tracked_request.incoming_tx.send(RequestHandleCommand::Message(message));
-
 				// Set the `closed` flag so that existing request write handles will refuse to send more messages.
+				// This must be done before anybody can see the response.
 				tracked_request.closed.store(true, Ordering::Release);
 
+				// Forward the message to the sent_request.
+				let _: Result<_, _> = tracked_request.incoming_tx.send(RequestHandleCommand::Message(message));
+
 				// Send a Close command to wake up the read handle if it is waiting for a message.
 				let _: Result<_, _> = tracked_request.incoming_tx.send(RequestHandleCommand::Close);
 				Ok(())
-- 
2.43.0


From 26ad371ded05af8ace371bc435d07d2ce2c2dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 07/12] fix: keep a request registered while there are write
 handles for it

---
 src/request_tracker.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/request_tracker.rs b/src/request_tracker.rs
index 9597a25..0f8bb25 100644
--- a/src/request_tracker.rs
+++ b/src/request_tracker.rs
@@ -206,9 +206,12 @@ impl<Body> RequestTracker<Body> {
 		match self.received_requests.entry(request_id) {
 			Entry::Vacant(_) => Err(InnerError::UnknownRequestId { request_id }.into()),
 			Entry::Occupied(mut entry) => {
-				// If the received_request is dropped, clear the entry.
+				// If the received_request and all its write handles are dropped, clear the entry.
+				// As long as there are write handles, the request is still open even though nobody can receive the message.
 				if entry.get_mut().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
-					entry.remove();
+					if Arc::strong_count(&entry.get().closed) == 1 {
+						entry.remove();
+					}
 					Err(InnerError::UnknownRequestId { request_id }.into())
 				} else {
 					Ok(())
@@ -222,9 +225,12 @@ impl<Body> RequestTracker<Body> {
 		match self.sent_requests.entry(request_id) {
 			Entry::Vacant(_) => Err(InnerError::UnknownRequestId { request_id }.into()),
 			Entry::Occupied(mut entry) => {
-				// If the sent_request is dropped, clear the entry.
+				// If the sent_request and all its write handles are dropped, clear the entry.
+				// As long as there are write handles, the request is still open even though nobody can receive the message.
 				if entry.get_mut().incoming_tx.send(RequestHandleCommand::Message(message)).is_err() {
-					entry.remove();
+					if Arc::strong_count(&entry.get().closed) == 1 {
+						entry.remove();
+					}
 					Err(InnerError::UnknownRequestId { request_id }.into())
 				} else {
 					Ok(())
-- 
2.43.0


From 173c657fc286e47d94c3fcdf2b455a960f949247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 08/12] fix: release the request ID after the automatic error
 response to an unexpected request

---
 src/peer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/peer.rs b/src/peer.rs
index babfde0..ac434f3 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -390,6 +390,8 @@ where
 						// Even if the transport doesn't say that the write error is fatal.
 						LoopFlow::Stop
 					} else {
+						// The request is finished now, so the remote peer may use the ID for a new request.
+						let _: Result<_, _> = self.request_tracker.remove_received_request(request.request_id());
 						LoopFlow::Continue
 					}
 				},
-- 
2.43.0


From f07a3929ec77040ba1f9724a53d6e301e1070c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 09/12] fix: end the connection when reading failed, even if
 the remote peer does not accept more data

---
 src/peer.rs | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/peer.rs b/src/peer.rs
index ac434f3..7051ff8 100644
--- a/src/peer.rs
+++ b/src/peer.rs
@@ -1,7 +1,10 @@
+use std::future::Future;
+use std::pin::Pin;
 use std::sync::{Arc, atomic::{AtomicBool, Ordering}};
+use std::task::Poll;
 use tokio::sync::{mpsc, oneshot};
 
-use crate::error::private::InnerError;
+use crate::error::private::{InnerError, connection_aborted};
 use crate::{
 	util,
 	Error,
@@ -142,8 +145,12 @@ impl<Transport: crate::transport::Transport> Peer<Transport> {
 			command_tx: command_tx.clone(),
 		};
 
+		let read_loop_stopped = AtomicBool::new(false);
+
 		let mut command_loop = CommandLoop {
 			write_half,
+			read_loop_stopped: &read_loop_stopped,
+			write_abandoned: false,
 			request_tracker,
 			command_rx,
 			incoming_tx,
@@ -161,6 +168,8 @@ impl<Transport: crate::transport::Transport> Peer<Transport> {
 		match select(read_loop, command_loop).await {
 			Either::Left(((), command_loop)) => {
 				// If the read loop stopped we should still flush all queued incoming messages, then stop.
+				// But do not wait for the remote peer to accept more data, because that may never happen.
+				read_loop_stopped.store(true, Ordering::Release);
 				command_tx
 					.send(Command::Stop)
 					.map_err(drop)
@@ -231,6 +240,12 @@ where
 	/// The write half of the message transport.
 	write_half: W,
 
+	/// Flag to indicate that the read loop stopped, so the connection is about to be closed.
+	read_loop_stopped: &'a AtomicBool,
+
+	/// Flag to indicate that a write was abandoned half-way, so nothing else may be written.
+	write_abandoned: bool,
+
 	/// The request tracker.
 	request_tracker: &'a mut RequestTracker<W::Body>,
 
@@ -385,7 +400,7 @@ where
 				ReceivedMessage::Request(request, _body) => {
 					let error_msg = format!("unexpected request for service {}", request.service_id());
 					let response = Message::error_response(request.request_id(), &error_msg);
-					if self.write_message(&response).await.is_err() {
+					if self.write_message(&response).await.is_err() && !self.write_abandoned {
 						// If we can't send the error to the remote peer, just close the connection.
 						// Even if the transport doesn't say that the write error is fatal.
 						LoopFlow::Stop
@@ -411,9 +426,27 @@ where
 	}
 
 	async fn write_message(&mut self, message: &Message<W::Body>) -> Result<(), (Error, LoopFlow)> {
-		match self.write_half.write_msg(&message.header, &message.body).await {
-			Ok(()) => Ok(()),
-			Err(e) => {
+		// The loop continues after an abandoned write to process the remaining incoming messages.
+		if self.write_abandoned {
+			return Err((connection_aborted(), LoopFlow::Continue));
+		}
+
+		let read_loop_stopped = self.read_loop_stopped;
+		let mut write = self.write_half.write_msg(&message.header, &message.body);
+		let result = std::future::poll_fn(|context| match Pin::new(&mut write).poll(context) {
+			// If the read loop stopped, we can not wait untill the remote peer accepts more data.
+			Poll::Pending if read_loop_stopped.load(Ordering::Acquire) => Poll::Ready(None),
+			Poll::Pending => Poll::Pending,
+			Poll::Ready(x) => Poll::Ready(Some(x)),
+		}).await;
+
+		match result {
+			None => {
+				self.write_abandoned = true;
+				Err((connection_aborted(), LoopFlow::Continue))
+			},
+			Some(Ok(())) => Ok(()),
+			Some(Err(e)) => {
 				let flow = if e.is_fatal() {
 					LoopFlow::Stop
 				} else {
-- 
2.43.0


From 3664ba558df870694d36b6c5339809ea141d7295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:08 +0000
Subject: [PATCH 10/12] fix: report an error for a frame that is too short for
 a message header instead of panicking

---
 src/transport/stream/transport.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport/stream/transport.rs b/src/transport/stream/transport.rs
index cdab6c5..0d64577 100644
--- a/src/transport/stream/transport.rs
+++ b/src/transport/stream/transport.rs
@@ -4,7 +4,7 @@ use std::task::{Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite};
 
 use super::{StreamBody, StreamConfig};
-use crate::error::private::check_payload_too_large;
+use crate::error::private::{check_message_too_short, check_payload_too_large};
 use crate::transport::{TransportError, Endian};
 use crate::{Message, MessageHeader};
 
@@ -184,6 +184,8 @@ where
 					.map_err(TransportError::new_fatal)?;
 
 				// Check body length and create body buffer.
+				check_message_too_short(length as usize)
+					.map_err(TransportError::new_fatal)?;
 				let body_len = length - crate::HEADER_LEN;
 				check_payload_too_large(body_len as usize, this.max_body_len as usize)
 					.map_err(TransportError::new_fatal)?;
-- 
2.43.0


From 24180e6d3fed6bb31408c8539fbcf5d556f7b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:20 +0000
Subject: [PATCH 11/12] fix: Keep Listener::run() going when one accepted
 connection is already closed

---
 src/listener.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/listener.rs b/src/listener.rs
index 8104683..b2b8b4b 100644
--- a/src/listener.rs
+++ b/src/listener.rs
@@ -93,6 +93,9 @@ impl<Socket: ListeningSocket> Listener<Socket> {
 	/// Run the server.
 	///
 	/// The server will accept connections in a loop and spawn a user task for each new peer.
+	///
+	/// Connections that turn out to be closed already when they are accepted are ignored.
+	/// An error of the listening socket itself stops the server.
 	pub async fn run<F, R>(&mut self, task: F) -> std::io::Result<()>
 	where
 		F: FnMut(PeerHandle<Socket::Body>, Socket::TransportInfo) -> R,
@@ -100,7 +103,20 @@ impl<Socket: ListeningSocket> Listener<Socket> {
 	{
 		let mut task = task;
 		loop {
-			let (peer, info) = self.accept().await?;
+			let transport = match self.accept_transport().await {
+				Ok(x) => x,
+				// The connection was aborted before we could accept it.
+				// The listening socket itself is fine.
+				Err(e) if e.kind() == std::io::ErrorKind::ConnectionAborted => continue,
+				Err(e) => return Err(e),
+			};
+			let info = match Socket::transport_info(&transport) {
+				Ok(x) => x,
+				// Something is wrong with this connection, such as a reset by the remote peer before we accepted it.
+				// That must not prevent us from serving other clients.
+				Err(_) => continue,
+			};
+			let peer = Socket::spawn(transport);
 			let join_handle = tokio::spawn((task)(peer, info));
 			// TODO: keep join handles around so we can await them later.
 			// If we do, we should also clean them from time to time though.
@@ -113,9 +129,14 @@ impl<Socket: ListeningSocket> Listener<Socket> {
 	/// A [`Peer`] is spawned for the new connection,
 	/// and a [`PeerHandle`] is returned to allow interaction with the peer.
 	pub async fn accept(&mut self) -> std::io::Result<(PeerHandle<Socket::Body>, Socket::TransportInfo)> {
-		let (connection, _addr) = self.listener.accept().await?;
-		let transport = Socket::into_transport(connection, self.config.clone());
+		let transport = self.accept_transport().await?;
 		let info = Socket::transport_info(&transport)?;
 		Ok((Socket::spawn(transport), info))
 	}
+
+	/// Accept a connection and turn it into a transport.
+	async fn accept_transport(&mut self) -> std::io::Result<Socket::Transport> {
+		let (connection, _addr) = self.listener.accept().await?;
+		Ok(Socket::into_transport(connection, self.config.clone()))
+	}
 }
-- 
2.43.0


From 17efc56fbc095389c4758e4aaa9e099ca681969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:49 +0000
Subject: [PATCH 12/12] fix: keep the connection when the operating system
 refuses to send one datagram

---
 src/transport/unix/transport.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/transport/unix/transport.rs b/src/transport/unix/transport.rs
index f161ddb..560e956 100644
--- a/src/transport/unix/transport.rs
+++ b/src/transport/unix/transport.rs
@@ -150,6 +150,23 @@ mod implementation {
 		)
 	}
 
+	/// Create a transport error for a message that could not be sent.
+	///
+	/// A datagram is sent as a whole or not at all.
+	/// So unless the connection itself is gone, only this message was refused by the operating system
+	/// (for example because it is larger than the send buffer of the socket),
+	/// and the transport can still be used for the next message.
+	fn send_error(error: std::io::Error) -> TransportError {
+		use std::io::ErrorKind;
+		match error.kind() {
+			| ErrorKind::BrokenPipe
+			| ErrorKind::ConnectionReset
+			| ErrorKind::ConnectionAborted
+			| ErrorKind::NotConnected => TransportError::new_fatal(error),
+			_ => TransportError::new_non_fatal(error),
+		}
+	}
+
 	impl crate::transport::TransportReadHalf for UnixReadHalf<&tokio_seqpacket::UnixSeqpacket> {
 		type Body = UnixBody;
 
@@ -245,7 +262,7 @@ mod implementation {
 
 			let buffers = [IoSlice::new(&header_buffer), IoSlice::new(&body.data)];
 			ready!(this.socket.poll_send_vectored_with_ancillary(context, &buffers, &mut ancillary))
-				.map_err(TransportError::new_fatal)?;
+				.map_err(send_error)?;
 
 			Poll::Ready(Ok(()))
 		}
-- 
2.43.0

