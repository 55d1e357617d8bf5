From 8775428c4803cc4143a09efcecb48ecb3769a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:30 +0000
Subject: [PATCH 01/15] fix: import WorkspaceDiagnosticRefresh so that the
 crate compiles

Client::workspace_diagnostic_refresh() named a type that was not in scope.
---
 src/service/client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/service/client.rs b/src/service/client.rs
index dd7e843..41bfe02 100644
--- a/src/service/client.rs
+++ b/src/service/client.rs
@@ -347,6 +347,7 @@ impl Client {
     ///
     /// This request was introduced in specification version 3.17.0.
     pub async fn workspace_diagnostic_refresh(&self) -> jsonrpc::Result<()> {
+        use lsp_types::request::WorkspaceDiagnosticRefresh;
         self.send_request::<WorkspaceDiagnosticRefresh>(()).await
     }
 
-- 
2.43.0


From 0e74f2f93b8c7eef6bd4e0ac640e56e8c971cf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:27 +0000
Subject: [PATCH 02/15] fix: run initialize at most once and never undo an exit

An `initialize` request now moves the server to `Initializing` as soon as it
is called, so a second in-flight one is rejected, and its completion only ever
leaves that state: cancelling it through `exit` no longer resurrects the
service.
---
 src/service.rs        |  1 -
 src/service/layers.rs | 28 ++++++++++++++++++++++++----
 src/service/state.rs  |  9 +++++++++
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 9c3c759..3c99a62 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -107,7 +107,6 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
         match self.state.get() {
-            State::Initializing => Poll::Pending,
             State::Exited => Poll::Ready(Err(ExitedError(()))),
             _ => self.inner.poll_ready(cx),
         }
diff --git a/src/service/layers.rs b/src/service/layers.rs
index 512ed00..af8226a 100644
--- a/src/service/layers.rs
+++ b/src/service/layers.rs
@@ -62,16 +62,19 @@ where
     }
 
     fn call(&mut self, req: Request) -> Self::Future {
-        if self.state.get() == State::Uninitialized {
-            let state = self.state.clone();
+        if self
+            .state
+            .transition(State::Uninitialized, State::Initializing)
+        {
+            let guard = InitializingGuard(self.state.clone());
             let fut = self.inner.call(req);
 
             Box::pin(async move {
                 let response = fut.await?;
 
                 match &response {
-                    Some(res) if res.is_ok() => state.set(State::Initialized),
-                    _ => state.set(State::Uninitialized),
+                    Some(res) if res.is_ok() => guard.finish(),
+                    _ => drop(guard),
                 }
 
                 Ok(response)
@@ -84,6 +87,23 @@ where
     }
 }
 
+/// Reverts to [`State::Uninitialized`] if an `initialize` request fails or is abandoned.
+///
+/// This never overrides the [`State::Exited`] of a server that exited in the meantime.
+struct InitializingGuard(Arc<ServerState>);
+
+impl InitializingGuard {
+    fn finish(self) {
+        self.0.transition(State::Initializing, State::Initialized);
+    }
+}
+
+impl Drop for InitializingGuard {
+    fn drop(&mut self) {
+        self.0.transition(State::Initializing, State::Uninitialized);
+    }
+}
+
 /// Middleware which implements `shutdown` request semantics.
 ///
 /// # Specification
diff --git a/src/service/state.rs b/src/service/state.rs
index e404e8d..7e98e72 100644
--- a/src/service/state.rs
+++ b/src/service/state.rs
@@ -31,6 +31,15 @@ impl ServerState {
         self.0.store(state as u8, Ordering::SeqCst);
     }
 
+    /// Moves from state `from` to state `to`, unless the current state is something else.
+    ///
+    /// Returns `true` if the transition took place.
+    pub fn transition(&self, from: State, to: State) -> bool {
+        self.0
+            .compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::SeqCst)
+            .is_ok()
+    }
+
     pub fn get(&self) -> State {
         match self.0.load(Ordering::SeqCst) {
             0 => State::Uninitialized,
-- 
2.43.0


From d5760ed412c131335d86f9daa93f371e2e522f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:11 +0000
Subject: [PATCH 03/15] fix: ignore responses to client requests nobody waits
 for anymore

A handler cancelled while awaiting a client request drops its waiter; the
client's reply to that request used to panic and take the server down.
---
 src/service/client/pending.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/service/client/pending.rs b/src/service/client/pending.rs
index af7ad06..28222bb 100644
--- a/src/service/client/pending.rs
+++ b/src/service/client/pending.rs
@@ -32,7 +32,9 @@ impl Pending {
                         _ => entry.get_mut().remove(0),
                     };
 
-                    tx.send(r).expect("receiver already dropped");
+                    if let Err(r) = tx.send(r) {
+                        warn!("no longer waiting for response with ID: {}", r.id());
+                    }
                 }
             },
         }
-- 
2.43.0


From 466840bbadabdcdce19bff13cd02fee4d41b9d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:11 +0000
Subject: [PATCH 04/15] fix: release a request ID exactly when its own request
 ends

The ID of a request whose future was dropped stayed registered forever, and
the completion of a cancelled request released its ID even when a newer request
had taken it over, making that one uncancellable.
---
 src/service/pending.rs | 49 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/service/pending.rs b/src/service/pending.rs
index f0c446f..d3bfac4 100644
--- a/src/service/pending.rs
+++ b/src/service/pending.rs
@@ -2,6 +2,7 @@
 
 use std::fmt::{self, Debug, Formatter};
 use std::future::Future;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 
 use dashmap::{mapref::entry::Entry, DashMap};
@@ -12,12 +13,21 @@ use super::ExitedError;
 use crate::jsonrpc::{Error, Id, Response};
 
 /// A hashmap containing pending server requests, keyed by request ID.
-pub struct Pending(Arc<DashMap<Id, future::AbortHandle>>);
+pub struct Pending {
+    requests: Requests,
+    next_token: AtomicU64,
+}
+
+/// Abort handles of the pending requests, along with a token unique to each execution.
+type Requests = Arc<DashMap<Id, (u64, future::AbortHandle)>>;
 
 impl Pending {
     /// Creates a new pending server requests map.
     pub fn new() -> Self {
-        Pending(Arc::new(DashMap::new()))
+        Pending {
+            requests: Arc::new(DashMap::new()),
+            next_token: AtomicU64::new(0),
+        }
     }
 
     /// Executes the given async request handler, keyed by the given request ID.
@@ -32,14 +42,20 @@ impl Pending {
     where
         F: Future<Output = Result<Option<Response>, ExitedError>> + Send + 'static,
     {
-        if let Entry::Vacant(entry) = self.0.entry(id.clone()) {
+        if let Entry::Vacant(entry) = self.requests.entry(id.clone()) {
             let (handler_fut, abort_handle) = future::abortable(fut);
-            entry.insert(abort_handle);
+            let token = self.next_token.fetch_add(1, Ordering::Relaxed);
+            entry.insert((token, abort_handle));
+
+            let guard = PendingGuard {
+                requests: self.requests.clone(),
+                id: id.clone(),
+                token,
+            };
 
-            let requests = self.0.clone();
             Either::Left(async move {
                 let abort_result = handler_fut.await;
-                requests.remove(&id); // Remove abort handle now to avoid double cancellation.
+                drop(guard); // Remove abort handle now to avoid double cancellation.
 
                 if let Ok(handler_result) = abort_result {
                     handler_result
@@ -57,7 +73,7 @@ impl Pending {
     /// This will force the future to resolve to a "canceled" error response. If the future has
     /// already completed, this method call will do nothing.
     pub fn cancel(&self, id: &Id) {
-        if let Some((_, handle)) = self.0.remove(id) {
+        if let Some((_, (_, handle))) = self.requests.remove(id) {
             handle.abort();
             info!("successfully cancelled request with ID: {}", id);
         } else {
@@ -70,7 +86,7 @@ impl Pending {
 
     /// Cancels all pending request handlers, if any.
     pub fn cancel_all(&self) {
-        self.0.retain(|_, handle| {
+        self.requests.retain(|_, (_, handle)| {
             handle.abort();
             false
         });
@@ -80,11 +96,26 @@ impl Pending {
 impl Debug for Pending {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         f.debug_set()
-            .entries(self.0.iter().map(|entry| entry.key().clone()))
+            .entries(self.requests.iter().map(|entry| entry.key().clone()))
             .finish()
     }
 }
 
+/// Releases the ID of a pending request once it has completed or its future has been dropped.
+struct PendingGuard {
+    requests: Requests,
+    id: Id,
+    token: u64,
+}
+
+impl Drop for PendingGuard {
+    fn drop(&mut self) {
+        // A canceled ID may already have been taken over by another request, so leave that alone.
+        self.requests
+            .remove_if(&self.id, |_, (token, _)| *token == self.token);
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use serde_json::json;
-- 
2.43.0


From d55b974e6d10fd700ee3f175b1018ff4cdf8d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:14 +0000
Subject: [PATCH 05/15] fix: deliver the message following a zero-length
 message right away

Decoding stopped after a zero-length message even if more complete messages
were buffered, delaying these until more input arrived and losing them at the
end of input.
---
 src/codec.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 7d1d896..7b4a534 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -167,6 +167,20 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
     type Error = ParseError;
 
     fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        loop {
+            let len = src.len();
+
+            match self.decode_next(src) {
+                // Skipped over a zero-length message, so try again with whatever follows it.
+                Ok(None) if self.content_len.is_none() && src.len() < len => continue,
+                result => return result,
+            }
+        }
+    }
+}
+
+impl<T: DeserializeOwned> LanguageServerCodec<T> {
+    fn decode_next(&mut self, src: &mut BytesMut) -> Result<Option<T>, ParseError> {
         if let Some(content_len) = self.content_len {
             if src.len() < content_len {
                 return Ok(None);
@@ -201,7 +215,7 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
                 Ok(content_len) => {
                     src.advance(headers_len);
                     self.content_len = Some(content_len);
-                    self.decode(src) // Recurse right back in, now that `Content-Length` is known.
+                    self.decode_next(src) // Recurse right back in, now that `Content-Length` is known.
                 }
                 Err(err) => {
                     match err {
-- 
2.43.0


From b4ed6cb31caa51257e004f3679c74aef8008dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:13 +0000
Subject: [PATCH 06/15] fix: always make progress after failing to decode a
 message

Invalid UTF-8 bodies and malformed headers left the offending bytes in the
buffer, so decoding failed on them over and over, and whether the rest of a
garbled stream was skipped depended on how it was split into reads.
---
 src/codec.rs | 57 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index 7b4a534..7189493 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -100,6 +100,7 @@ impl From<Utf8Error> for ParseError {
 /// Encodes and decodes Language Server Protocol messages.
 pub struct LanguageServerCodec<T> {
     content_len: Option<usize>,
+    is_recovering: bool,
     _marker: PhantomData<T>,
 }
 
@@ -107,6 +108,7 @@ impl<T> Default for LanguageServerCodec<T> {
     fn default() -> Self {
         LanguageServerCodec {
             content_len: None,
+            is_recovering: false,
             _marker: PhantomData,
         }
     }
@@ -187,16 +189,17 @@ impl<T: DeserializeOwned> LanguageServerCodec<T> {
             }
 
             let bytes = &src[..content_len];
-            let message = std::str::from_utf8(bytes)?;
-
-            let result = if message.is_empty() {
-                Ok(None)
-            } else {
-                trace!("<- {}", message);
-                match serde_json::from_str(message) {
-                    Ok(parsed) => Ok(Some(parsed)),
-                    Err(err) => Err(err.into()),
+
+            let result = match std::str::from_utf8(bytes) {
+                Ok(message) if message.is_empty() => Ok(None),
+                Ok(message) => {
+                    trace!("<- {}", message);
+                    match serde_json::from_str(message) {
+                        Ok(parsed) => Ok(Some(parsed)),
+                        Err(err) => Err(err.into()),
+                    }
                 }
+                Err(err) => Err(err.into()),
             };
 
             src.advance(content_len);
@@ -204,11 +207,20 @@ impl<T: DeserializeOwned> LanguageServerCodec<T> {
 
             result
         } else {
+            if self.is_recovering {
+                self.skip_garbage(src);
+            }
+
             let mut dst = [httparse::EMPTY_HEADER; 2];
 
-            let (headers_len, headers) = match httparse::parse_headers(src, &mut dst)? {
-                httparse::Status::Complete(output) => output,
-                httparse::Status::Partial => return Ok(None),
+            let (headers_len, headers) = match httparse::parse_headers(src, &mut dst) {
+                Ok(httparse::Status::Complete(output)) => output,
+                Ok(httparse::Status::Partial) => return Ok(None),
+                Err(err) => {
+                    src.advance(1);
+                    self.skip_garbage(src);
+                    return Err(err.into());
+                }
             };
 
             match decode_headers(headers) {
@@ -219,17 +231,34 @@ impl<T: DeserializeOwned> LanguageServerCodec<T> {
                 }
                 Err(err) => {
                     match err {
-                        ParseError::MissingContentLength => {}
+                        ParseError::MissingContentLength => src.advance(1),
                         _ => src.advance(headers_len),
                     }
 
                     // Skip any garbage bytes by scanning ahead for another potential message.
-                    src.advance(memmem::find(src, b"Content-Length").unwrap_or_default());
+                    self.skip_garbage(src);
                     Err(err)
                 }
             }
         }
     }
+
+    /// Discards all bytes ahead of the next `Content-Length`, continuing with the next call if it
+    /// has not been received yet.
+    fn skip_garbage(&mut self, src: &mut BytesMut) {
+        const NEEDLE: &[u8] = b"Content-Length";
+
+        let garbage_len = memmem::find(src, NEEDLE);
+        self.is_recovering = garbage_len.is_none();
+
+        src.advance(garbage_len.unwrap_or_else(|| {
+            // The last few bytes may be the start of a `Content-Length` yet to be received.
+            let partial = (1..NEEDLE.len())
+                .rev()
+                .find(|&n| src.ends_with(&NEEDLE[..n]));
+            src.len() - partial.unwrap_or_default()
+        }));
+    }
 }
 
 fn decode_headers(headers: &[httparse::Header<'_>]) -> Result<usize, ParseError> {
-- 
2.43.0


From a79652aa10db3c68b6017ef94fc01036244bb1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:25 +0000
Subject: [PATCH 07/15] fix: stop serving when a message arrives after the
 server has exited

Leaving the read loop early skipped disconnecting the other two loops, so
`Server::serve` never returned.
---
 src/transport.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index a8bda1d..9af3525 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -131,7 +131,7 @@ where
                     Ok(Message::Request(req)) => {
                         if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                             error!("{}", display_sources(err.into().as_ref()));
-                            return;
+                            break;
                         }
 
                         let fut = service.call(req).unwrap_or_else(|err| {
@@ -144,7 +144,7 @@ where
                     Ok(Message::Response(res)) => {
                         if let Err(err) = client_responses.send(res).await {
                             error!("{}", display_sources(&err));
-                            return;
+                            break;
                         }
                     }
                     Err(err) => {
-- 
2.43.0


From cc050a400f4a4dd402db3c86f5c4a34f5fc9b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:00 +0000
Subject: [PATCH 08/15] fix: terminate instead of panicking once the output is
 closed

After a write error, the next response hit an `unreachable!()` or one of two
`unwrap()`s.
---
 src/transport.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 9af3525..fd63345 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -117,8 +117,12 @@ where
             .buffer_unordered(self.max_concurrency)
             .filter_map(future::ready)
             .map(|res| Ok(Message::Response(res)))
-            .forward(responses_tx.clone().sink_map_err(|_| unreachable!()))
-            .map(|_| ());
+            .forward(responses_tx.clone())
+            .map(|res| {
+                if res.is_err() {
+                    error!("failed to send response: output has been closed");
+                }
+            });
 
         let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
             .map(Ok)
@@ -139,7 +143,9 @@ where
                             None
                         });
 
-                        server_tasks_tx.send(fut).await.unwrap();
+                        if server_tasks_tx.send(fut).await.is_err() {
+                            break;
+                        }
                     }
                     Ok(Message::Response(res)) => {
                         if let Err(err) = client_responses.send(res).await {
@@ -150,7 +156,9 @@ where
                     Err(err) => {
                         error!("failed to decode message: {}", err);
                         let res = Response::from_error(Id::Null, to_jsonrpc_error(err));
-                        responses_tx.send(Message::Response(res)).await.unwrap();
+                        if responses_tx.send(Message::Response(res)).await.is_err() {
+                            break;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 1da2c1cdb7d2788f5029e4e46c026958d9040053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:27 +0000
Subject: [PATCH 09/15] fix: keep serving after a malformed message

`FramedRead` ends the stream after a decoding error, so the first message
which failed to parse terminated the server instead of just being answered
with an error.
---
 src/transport.rs | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index fd63345..a0a2fa6 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -1,15 +1,16 @@
 //! Generic server for multiplexing bidirectional streams through a transport.
 
 #[cfg(feature = "runtime-agnostic")]
-use async_codec_lite::{FramedRead, FramedWrite};
+use async_codec_lite::{Decoder, FramedRead, FramedWrite};
 #[cfg(feature = "runtime-agnostic")]
 use futures::io::{AsyncRead, AsyncWrite};
 
 #[cfg(feature = "runtime-tokio")]
 use tokio::io::{AsyncRead, AsyncWrite};
 #[cfg(feature = "runtime-tokio")]
-use tokio_util::codec::{FramedRead, FramedWrite};
+use tokio_util::codec::{Decoder, FramedRead, FramedWrite};
 
+use bytes::BytesMut;
 use futures::channel::mpsc;
 use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt};
 use tower::Service;
@@ -110,7 +111,7 @@ where
         let (mut responses_tx, responses_rx) = mpsc::channel(0);
         let (mut server_tasks_tx, server_tasks_rx) = mpsc::channel(MESSAGE_QUEUE_SIZE);
 
-        let mut framed_stdin = FramedRead::new(self.stdin, LanguageServerCodec::default());
+        let mut framed_stdin = FramedRead::new(self.stdin, ResilientCodec::default());
         let framed_stdout = FramedWrite::new(self.stdout, LanguageServerCodec::default());
 
         let process_server_tasks = server_tasks_rx
@@ -132,7 +133,7 @@ where
         let read_input = async {
             while let Some(msg) = framed_stdin.next().await {
                 match msg {
-                    Ok(Message::Request(req)) => {
+                    Ok(Ok(Message::Request(req))) => {
                         if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                             error!("{}", display_sources(err.into().as_ref()));
                             break;
@@ -147,19 +148,26 @@ where
                             break;
                         }
                     }
-                    Ok(Message::Response(res)) => {
+                    Ok(Ok(Message::Response(res))) => {
                         if let Err(err) = client_responses.send(res).await {
                             error!("{}", display_sources(&err));
                             break;
                         }
                     }
-                    Err(err) => {
+                    Ok(Err(err)) => {
                         error!("failed to decode message: {}", err);
                         let res = Response::from_error(Id::Null, to_jsonrpc_error(err));
                         if responses_tx.send(Message::Response(res)).await.is_err() {
                             break;
                         }
                     }
+                    Err(err) => {
+                        error!("failed to read message: {}", err);
+                        let res = Response::from_error(Id::Null, Error::parse_error());
+                        if responses_tx.send(Message::Response(res)).await.is_err() {
+                            break;
+                        }
+                    }
                 }
             }
 
@@ -172,6 +180,22 @@ where
     }
 }
 
+/// Decoder which yields parse errors as ordinary items.
+///
+/// `FramedRead` ends the stream after an error, yet a malformed message should not prevent those
+/// following it from being served. Hence, only I/O errors are passed on as such.
+#[derive(Default)]
+struct ResilientCodec(LanguageServerCodec<Message>);
+
+impl Decoder for ResilientCodec {
+    type Item = Result<Message, ParseError>;
+    type Error = ParseError;
+
+    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        Ok(self.0.decode(src).transpose())
+    }
+}
+
 fn display_sources(error: &dyn std::error::Error) -> String {
     if let Some(source) = error.source() {
         format!("{}: {}", error, display_sources(source))
@@ -180,7 +204,6 @@ fn display_sources(error: &dyn std::error::Error) -> String {
     }
 }
 
-#[cfg(feature = "runtime-tokio")]
 fn to_jsonrpc_error(err: ParseError) -> Error {
     match err {
         ParseError::Body(err) if err.is_data() => Error::invalid_request(),
@@ -188,14 +211,6 @@ fn to_jsonrpc_error(err: ParseError) -> Error {
     }
 }
 
-#[cfg(feature = "runtime-agnostic")]
-fn to_jsonrpc_error(err: impl std::error::Error) -> Error {
-    match err.source().and_then(|e| e.downcast_ref()) {
-        Some(ParseError::Body(err)) if err.is_data() => Error::invalid_request(),
-        _ => Error::parse_error(),
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use std::task::{Context, Poll};
-- 
2.43.0


From c9b1a6cf46c65bc046f9db7ff911f0b9f9a91c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 10/15] fix: let handlers finish sending messages at the end of
 input

The stream of server-to-client messages was aborted as soon as the input ended,
so a handler still sending notifications blocked `Server::serve` forever.
---
 src/transport.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transport.rs b/src/transport.rs
index a0a2fa6..186c696 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -123,6 +123,9 @@ where
                 if res.is_err() {
                     error!("failed to send response: output has been closed");
                 }
+
+                // Handlers still running at the end of input may be sending messages until now.
+                client_abort.abort();
             });
 
         let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
@@ -173,7 +176,6 @@ where
 
             server_tasks_tx.disconnect();
             responses_tx.disconnect();
-            client_abort.abort();
         };
 
         join!(print_output, read_input, process_server_tasks);
-- 
2.43.0


From bb29778cdfe17748c5779ed89eb56596a63a55ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:15 +0000
Subject: [PATCH 11/15] fix: release senders blocked on a full client channel
 when the server exits

---
 src/service/client/socket.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/service/client/socket.rs b/src/service/client/socket.rs
index 5006895..337a79b 100644
--- a/src/service/client/socket.rs
+++ b/src/service/client/socket.rs
@@ -43,6 +43,8 @@ impl Stream for ClientSocket {
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         if self.state.get() == State::Exited || self.rx.is_terminated() {
+            // Anyone waiting for room to send a message would wait forever.
+            self.rx.close();
             Poll::Ready(None)
         } else {
             self.rx.poll_next_unpin(cx)
@@ -99,6 +101,8 @@ impl Stream for RequestStream {
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         if self.state.get() == State::Exited || self.rx.is_terminated() {
+            // Anyone waiting for room to send a message would wait forever.
+            self.rx.close();
             Poll::Ready(None)
         } else {
             self.rx.poll_next_unpin(cx)
-- 
2.43.0


From 9180e2ddbcc7c1deac60e5dc305cc6767c025a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:19 +0000
Subject: [PATCH 12/15] fix: write messages that handlers sent just before
 finishing at the end of input

---
 src/transport.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 186c696..717ea84 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -1,5 +1,7 @@
 //! Generic server for multiplexing bidirectional streams through a transport.
 
+use std::task::Poll;
+
 #[cfg(feature = "runtime-agnostic")]
 use async_codec_lite::{Decoder, FramedRead, FramedWrite};
 #[cfg(feature = "runtime-agnostic")]
@@ -11,7 +13,7 @@ use tokio::io::{AsyncRead, AsyncWrite};
 use tokio_util::codec::{Decoder, FramedRead, FramedWrite};
 
 use bytes::BytesMut;
-use futures::channel::mpsc;
+use futures::channel::{mpsc, oneshot};
 use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt};
 use tower::Service;
 use tracing::error;
@@ -107,7 +109,7 @@ where
         T::Future: Send,
     {
         let (client_requests, mut client_responses) = self.loopback.split();
-        let (client_requests, client_abort) = stream::abortable(client_requests);
+        let (handlers_done_tx, mut handlers_done_rx) = oneshot::channel::<()>();
         let (mut responses_tx, responses_rx) = mpsc::channel(0);
         let (mut server_tasks_tx, server_tasks_rx) = mpsc::channel(MESSAGE_QUEUE_SIZE);
 
@@ -125,9 +127,18 @@ where
                 }
 
                 // Handlers still running at the end of input may be sending messages until now.
-                client_abort.abort();
+                drop(handlers_done_tx);
             });
 
+        let mut client_requests = Box::pin(client_requests);
+        let client_requests = stream::poll_fn(move |cx| {
+            match client_requests.as_mut().poll_next(cx) {
+                // Only end the stream once the messages that are already queued have been taken.
+                Poll::Pending => handlers_done_rx.poll_unpin(cx).map(|_| None),
+                ready => ready,
+            }
+        });
+
         let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
             .map(Ok)
             .forward(framed_stdout.sink_map_err(|e| error!("failed to encode message: {}", e)))
-- 
2.43.0


From 1507c609d0c0cbde666a39ad9b71513f396d236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 13/15] fix: pass on "method not found" errors returned by
 request handlers

---
 src/jsonrpc/router.rs | 5 +++++
 src/service.rs        | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/jsonrpc/router.rs b/src/jsonrpc/router.rs
index ef48fe0..ac0357a 100644
--- a/src/jsonrpc/router.rs
+++ b/src/jsonrpc/router.rs
@@ -37,6 +37,11 @@ impl<S: Send + Sync + 'static, E> Router<S, E> {
         self.server.as_ref()
     }
 
+    /// Returns `true` if a handler for the given RPC method has been registered.
+    pub fn has_method(&self, name: &str) -> bool {
+        self.methods.contains_key(name)
+    }
+
     /// Registers a new RPC method which constructs a response with the given `callback`.
     ///
     /// The `layer` argument can be used to inject middleware into the method handler, if desired.
diff --git a/src/service.rs b/src/service.rs
index 3c99a62..a0df910 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -117,6 +117,7 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
             return future::err(ExitedError(())).boxed();
         }
 
+        let has_handler = self.inner.has_method(req.method());
         let fut = self.inner.call(req);
 
         Box::pin(async move {
@@ -127,7 +128,7 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
                     code: ErrorCode::MethodNotFound,
                     data: Some(Value::String(m)),
                     ..
-                }) if m.starts_with("$/") => Ok(None),
+                }) if !has_handler && m.starts_with("$/") => Ok(None),
                 _ => Ok(response),
             }
         })
-- 
2.43.0


From 16bdedb15b9eedf5f120e88a41b570a88d85b496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:49 +0000
Subject: [PATCH 14/15] fix: do not panic in a client call that outlives the
 server

The future returned by `Client::call` does not keep the map of pending requests
alive, so it panicked once the service and its socket had been dropped.
---
 src/service/client/pending.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/service/client/pending.rs b/src/service/client/pending.rs
index 28222bb..42cd0f9 100644
--- a/src/service/client/pending.rs
+++ b/src/service/client/pending.rs
@@ -5,6 +5,7 @@ use std::future::Future;
 
 use dashmap::{mapref::entry::Entry, DashMap};
 use futures::channel::oneshot;
+use futures::future;
 use tracing::warn;
 
 use crate::jsonrpc::{Id, Response};
@@ -59,7 +60,13 @@ impl Pending {
             }
         }
 
-        async { rx.await.expect("sender already dropped") }
+        async {
+            match rx.await {
+                Ok(response) => response,
+                // The server is gone, so no response will ever arrive.
+                Err(_) => future::pending().await,
+            }
+        }
     }
 }
 
-- 
2.43.0


From 270fb85b4d70f8aae527d446bd4f120daee5f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 15/15] fix: finish flushing the output when that takes several
 attempts

---
 src/transport.rs | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 717ea84..0dec815 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -1,6 +1,7 @@
 //! Generic server for multiplexing bidirectional streams through a transport.
 
-use std::task::Poll;
+use std::pin::Pin;
+use std::task::{Context, Poll};
 
 #[cfg(feature = "runtime-agnostic")]
 use async_codec_lite::{Decoder, FramedRead, FramedWrite};
@@ -14,7 +15,9 @@ use tokio_util::codec::{Decoder, FramedRead, FramedWrite};
 
 use bytes::BytesMut;
 use futures::channel::{mpsc, oneshot};
-use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt};
+use futures::{
+    future, join, ready, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt,
+};
 use tower::Service;
 use tracing::error;
 
@@ -114,7 +117,10 @@ where
         let (mut server_tasks_tx, server_tasks_rx) = mpsc::channel(MESSAGE_QUEUE_SIZE);
 
         let mut framed_stdin = FramedRead::new(self.stdin, ResilientCodec::default());
-        let framed_stdout = FramedWrite::new(self.stdout, LanguageServerCodec::default());
+        let framed_stdout = Output(Box::pin(FramedWrite::new(
+            self.stdout,
+            LanguageServerCodec::default(),
+        )));
 
         let process_server_tasks = server_tasks_rx
             .buffer_unordered(self.max_concurrency)
@@ -209,6 +215,34 @@ impl Decoder for ResilientCodec {
     }
 }
 
+/// Sink which writes messages to the output and flushes it.
+///
+/// `FramedWrite` may take the output for flushed as soon as it has nothing left to write, even if
+/// the output itself was not done flushing yet.
+struct Output<O>(Pin<Box<FramedWrite<O, LanguageServerCodec<Message>>>>);
+
+impl<O: AsyncWrite> Sink<Message> for Output<O> {
+    type Error = <FramedWrite<O, LanguageServerCodec<Message>> as Sink<Message>>::Error;
+
+    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        self.0.as_mut().poll_ready(cx)
+    }
+
+    fn start_send(mut self: Pin<&mut Self>, item: Message) -> Result<(), Self::Error> {
+        self.0.as_mut().start_send(item)
+    }
+
+    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        ready!(self.0.as_mut().poll_flush(cx))?;
+        let output = self.0.as_mut().get_pin_mut();
+        output.poll_flush(cx).map_err(Into::into)
+    }
+
+    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        self.0.as_mut().poll_close(cx)
+    }
+}
+
 fn display_sources(error: &dyn std::error::Error) -> String {
     if let Some(source) = error.source() {
         format!("{}: {}", error, display_sources(source))
-- 
2.43.0

