From 58001371985a1339771d77ba7620b28d50fba839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:02 +0000
Subject: [PATCH 01/17] fix: import WorkspaceDiagnosticRefresh so the crate
 compiles

---
 src/service/client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/service/client.rs b/src/service/client.rs
index dd7e843..41bfe02 100644
--- a/src/service/client.rs
+++ b/src/service/client.rs
@@ -347,6 +347,7 @@ impl Client {
     ///
     /// This request was introduced in specification version 3.17.0.
     pub async fn workspace_diagnostic_refresh(&self) -> jsonrpc::Result<()> {
+        use lsp_types::request::WorkspaceDiagnosticRefresh;
         self.send_request::<WorkspaceDiagnosticRefresh>(()).await
     }
 
-- 
2.43.0


From 23157b024b2dc940b30e1a9c18cf660e51f8e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 02/17] fix: do not panic on a response whose request future
 was dropped

---
 src/service/client/pending.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/service/client/pending.rs b/src/service/client/pending.rs
index af7ad06..d6b4779 100644
--- a/src/service/client/pending.rs
+++ b/src/service/client/pending.rs
@@ -32,7 +32,13 @@ impl Pending {
                         _ => entry.get_mut().remove(0),
                     };
 
-                    tx.send(r).expect("receiver already dropped");
+                    if let Err(r) = tx.send(r) {
+                        warn!(
+                            "received response with request ID: {}, but its request was dropped, \
+                             ignoring",
+                            r.id()
+                        );
+                    }
                 }
             },
         }
-- 
2.43.0


From f0782d517ea4439ccb4185c91dd1044d90dedce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 03/17] fix: track an initialize request in progress in the
 server state

---
 src/service.rs        |  1 -
 src/service/layers.rs | 26 ++++++++++++++++++++++----
 src/service/state.rs  |  9 +++++++++
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 9c3c759..3c99a62 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -107,7 +107,6 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
 
     fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
         match self.state.get() {
-            State::Initializing => Poll::Pending,
             State::Exited => Poll::Ready(Err(ExitedError(()))),
             _ => self.inner.poll_ready(cx),
         }
diff --git a/src/service/layers.rs b/src/service/layers.rs
index 512ed00..6e9ce3f 100644
--- a/src/service/layers.rs
+++ b/src/service/layers.rs
@@ -62,16 +62,17 @@ where
     }
 
     fn call(&mut self, req: Request) -> Self::Future {
-        if self.state.get() == State::Uninitialized {
-            let state = self.state.clone();
+        let state = self.state.clone();
+        if state.transition(State::Uninitialized, State::Initializing) {
+            let initializing = Initializing(state);
             let fut = self.inner.call(req);
 
             Box::pin(async move {
                 let response = fut.await?;
 
                 match &response {
-                    Some(res) if res.is_ok() => state.set(State::Initialized),
-                    _ => state.set(State::Uninitialized),
+                    Some(res) if res.is_ok() => initializing.succeed(),
+                    _ => drop(initializing),
                 }
 
                 Ok(response)
@@ -84,6 +85,23 @@ where
     }
 }
 
+/// Keeps track of an `initialize` request in progress.
+///
+/// Should the request fail, or be abandoned, the server becomes uninitialized once more.
+struct Initializing(Arc<ServerState>);
+
+impl Initializing {
+    fn succeed(self) {
+        self.0.transition(State::Initializing, State::Initialized);
+    }
+}
+
+impl Drop for Initializing {
+    fn drop(&mut self) {
+        self.0.transition(State::Initializing, State::Uninitialized);
+    }
+}
+
 /// Middleware which implements `shutdown` request semantics.
 ///
 /// # Specification
diff --git a/src/service/state.rs b/src/service/state.rs
index e404e8d..c2b2a76 100644
--- a/src/service/state.rs
+++ b/src/service/state.rs
@@ -31,6 +31,15 @@ impl ServerState {
         self.0.store(state as u8, Ordering::SeqCst);
     }
 
+    /// Switches from state `from` to state `to`, unless the server is not in state `from`.
+    ///
+    /// Returns `true` if the switch took place.
+    pub fn transition(&self, from: State, to: State) -> bool {
+        self.0
+            .compare_exchange(from as u8, to as u8, Ordering::SeqCst, Ordering::SeqCst)
+            .is_ok()
+    }
+
     pub fn get(&self) -> State {
         match self.0.load(Ordering::SeqCst) {
             0 => State::Uninitialized,
-- 
2.43.0


From c5127b1010cc51f04fc21ae3ad63e7035d61ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 04/17] fix: ignore initialize and shutdown sent as
 notifications

---
 src/service/layers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/service/layers.rs b/src/service/layers.rs
index 6e9ce3f..b37ce55 100644
--- a/src/service/layers.rs
+++ b/src/service/layers.rs
@@ -62,6 +62,11 @@ where
     }
 
     fn call(&mut self, req: Request) -> Self::Future {
+        if req.id().is_none() {
+            warn!("received `initialize` as a notification, ignoring");
+            return future::ok(None).boxed();
+        }
+
         let state = self.state.clone();
         if state.transition(State::Uninitialized, State::Initializing) {
             let initializing = Initializing(state);
@@ -150,7 +155,7 @@ where
 
     fn call(&mut self, req: Request) -> Self::Future {
         match self.state.get() {
-            State::Initialized => {
+            State::Initialized if req.id().is_some() => {
                 info!("shutdown request received, shutting down");
                 self.state.set(State::ShutDown);
                 self.inner.call(req)
-- 
2.43.0


From a69dfe6ee7256343a933c7a5995560de46ed767d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:38 +0000
Subject: [PATCH 05/17] fix: answer requests for unknown `$/` methods

---
 src/service.rs | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 3c99a62..2234080 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -10,12 +10,11 @@ use std::sync::Arc;
 use std::task::{Context, Poll};
 
 use futures::future::{self, BoxFuture, FutureExt};
-use serde_json::Value;
 use tower::Service;
 
-use crate::jsonrpc::{
-    Error, ErrorCode, FromParams, IntoResponse, Method, Request, Response, Router,
-};
+#[cfg(test)]
+use crate::jsonrpc::Error;
+use crate::jsonrpc::{FromParams, IntoResponse, Method, Request, Response, Router};
 use crate::LanguageServer;
 
 pub(crate) mod layers;
@@ -117,20 +116,7 @@ impl<S: LanguageServer> Service<Request> for LspService<S> {
             return future::err(ExitedError(())).boxed();
         }
 
-        let fut = self.inner.call(req);
-
-        Box::pin(async move {
-            let response = fut.await?;
-
-            match response.as_ref().and_then(|res| res.error()) {
-                Some(Error {
-                    code: ErrorCode::MethodNotFound,
-                    data: Some(Value::String(m)),
-                    ..
-                }) if m.starts_with("$/") => Ok(None),
-                _ => Ok(response),
-            }
-        })
+        self.inner.call(req)
     }
 }
 
-- 
2.43.0


From 007ab5711403e9e3ca9720243a3f084dc4186687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 06/17] fix: let `$/cancelRequest` take effect when it is
 received

---
 src/service/layers.rs       | 45 +++++++++++++++++++++++++++++++++++++
 src/transport.rs            |  5 +----
 tower-lsp-macros/src/lib.rs |  2 +-
 3 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/src/service/layers.rs b/src/service/layers.rs
index b37ce55..dad45e4 100644
--- a/src/service/layers.rs
+++ b/src/service/layers.rs
@@ -232,6 +232,51 @@ impl<S> Service<Request> for ExitService<S> {
     }
 }
 
+/// Middleware which implements `$/cancelRequest` notification semantics.
+///
+/// The notification takes effect as soon as it is received, regardless of how many other messages
+/// are still waiting to be processed.
+///
+/// # Specification
+///
+/// https://microsoft.github.io/language-server-protocol/specification#cancelRequest
+pub struct Cancel;
+
+impl<S> Layer<S> for Cancel {
+    type Service = CancelService<S>;
+
+    fn layer(&self, inner: S) -> Self::Service {
+        CancelService { inner }
+    }
+}
+
+/// Service created from [`Cancel`] layer.
+pub struct CancelService<S> {
+    inner: S,
+}
+
+impl<S> Service<Request> for CancelService<S>
+where
+    S: Service<Request, Response = Option<Response>, Error = ExitedError>,
+    S::Future: Send + 'static,
+{
+    type Response = S::Response;
+    type Error = S::Error;
+    type Future = BoxFuture<'static, Result<Self::Response, Self::Error>>;
+
+    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        self.inner.poll_ready(cx)
+    }
+
+    fn call(&mut self, req: Request) -> Self::Future {
+        let mut fut = self.inner.call(req).boxed();
+        match (&mut fut).now_or_never() {
+            Some(result) => future::ready(result).boxed(),
+            None => fut,
+        }
+    }
+}
+
 /// Middleware which implements LSP semantics for all other kinds of requests.
 pub struct Normal {
     state: Arc<ServerState>,
diff --git a/src/transport.rs b/src/transport.rs
index a8bda1d..dc7ffed 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -76,10 +76,7 @@ where
     /// Sets the server concurrency limit to `max`.
     ///
     /// This setting specifies how many incoming requests may be processed concurrently. Setting
-    /// this value to `1` forces all requests to be processed sequentially, thereby implicitly
-    /// disabling support for the [`$/cancelRequest`] notification.
-    ///
-    /// [`$/cancelRequest`]: https://microsoft.github.io/language-server-protocol/specification#cancelRequest
+    /// this value to `1` forces all requests to be processed sequentially.
     ///
     /// If not explicitly specified, `max` defaults to 4.
     ///
diff --git a/tower-lsp-macros/src/lib.rs b/tower-lsp-macros/src/lib.rs
index 05d4d05..2583ec5 100644
--- a/tower-lsp-macros/src/lib.rs
+++ b/tower-lsp-macros/src/lib.rs
@@ -174,7 +174,7 @@ fn gen_server_router(trait_name: &syn::Ident, methods: &[MethodCall]) -> proc_ma
                 router.method(
                     "$/cancelRequest",
                     move |_: &S, params| cancel_request(params, &p),
-                    tower::layer::util::Identity::new(),
+                    layers::Cancel,
                 );
                 router.method(
                     "exit",
-- 
2.43.0


From 0ca1cb5035ad7262cd136bbd3f9a6abc1f27adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 07/17] fix: forget a request whose handler future is dropped

---
 src/service/pending.rs | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/service/pending.rs b/src/service/pending.rs
index f0c446f..ab50dbb 100644
--- a/src/service/pending.rs
+++ b/src/service/pending.rs
@@ -34,12 +34,17 @@ impl Pending {
     {
         if let Entry::Vacant(entry) = self.0.entry(id.clone()) {
             let (handler_fut, abort_handle) = future::abortable(fut);
-            entry.insert(abort_handle);
+            entry.insert(abort_handle.clone());
+
+            let running = Running {
+                id: id.clone(),
+                handle: abort_handle,
+                requests: self.0.clone(),
+            };
 
-            let requests = self.0.clone();
             Either::Left(async move {
                 let abort_result = handler_fut.await;
-                requests.remove(&id); // Remove abort handle now to avoid double cancellation.
+                drop(running); // Remove abort handle now to avoid double cancellation.
 
                 if let Ok(handler_result) = abort_result {
                     handler_result
@@ -57,8 +62,12 @@ impl Pending {
     /// This will force the future to resolve to a "canceled" error response. If the future has
     /// already completed, this method call will do nothing.
     pub fn cancel(&self, id: &Id) {
-        if let Some((_, handle)) = self.0.remove(id) {
+        let abort = |_: &Id, handle: &future::AbortHandle| {
             handle.abort();
+            true
+        };
+
+        if self.0.remove_if(id, abort).is_some() {
             info!("successfully cancelled request with ID: {}", id);
         } else {
             debug!(
@@ -77,6 +86,21 @@ impl Pending {
     }
 }
 
+/// Keeps a request ID pending for as long as its request handler future exists.
+struct Running {
+    id: Id,
+    handle: future::AbortHandle,
+    requests: Arc<DashMap<Id, future::AbortHandle>>,
+}
+
+impl Drop for Running {
+    fn drop(&mut self) {
+        // Canceled requests are removed beforehand, so their ID could already be in use again.
+        let Running { id, handle, .. } = self;
+        self.requests.remove_if(id, |_, _| !handle.is_aborted());
+    }
+}
+
 impl Debug for Pending {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         f.debug_set()
-- 
2.43.0


From d4c607283161867ab926270eb1c5b31e3afad9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 08/17] fix: resolve requests to the client which can no longer
 be answered

---
 src/service/client.rs         |  1 +
 src/service/client/pending.rs | 36 ++++++++++++++++++++++++++++-------
 src/service/client/socket.rs  |  2 ++
 src/transport.rs              |  4 ++++
 4 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/service/client.rs b/src/service/client.rs
index 41bfe02..e8bbd8b 100644
--- a/src/service/client.rs
+++ b/src/service/client.rs
@@ -73,6 +73,7 @@ impl Client {
     /// observe the end of the stream.
     pub(crate) fn close(&self) {
         self.inner.tx.clone().close_channel();
+        self.inner.pending.close();
     }
 }
 
diff --git a/src/service/client/pending.rs b/src/service/client/pending.rs
index d6b4779..7101853 100644
--- a/src/service/client/pending.rs
+++ b/src/service/client/pending.rs
@@ -2,20 +2,27 @@
 
 use std::fmt::{self, Debug, Formatter};
 use std::future::Future;
+use std::sync::atomic::{AtomicBool, Ordering};
 
 use dashmap::{mapref::entry::Entry, DashMap};
 use futures::channel::oneshot;
 use tracing::warn;
 
-use crate::jsonrpc::{Id, Response};
+use crate::jsonrpc::{Error, Id, Response};
 
 /// A hashmap containing pending client requests, keyed by request ID.
-pub struct Pending(DashMap<Id, Vec<oneshot::Sender<Response>>>);
+pub struct Pending {
+    waiters: DashMap<Id, Vec<oneshot::Sender<Response>>>,
+    closed: AtomicBool,
+}
 
 impl Pending {
     /// Creates a new pending client requests map.
     pub fn new() -> Self {
-        Pending(DashMap::new())
+        Pending {
+            waiters: DashMap::new(),
+            closed: AtomicBool::new(false),
+        }
     }
 
     /// Inserts the given response into the map.
@@ -24,7 +31,7 @@ impl Pending {
     pub fn insert(&self, r: Response) {
         match r.id() {
             Id::Null => warn!("received response with request ID of `null`, ignoring"),
-            id => match self.0.entry(id.clone()) {
+            id => match self.waiters.entry(id.clone()) {
                 Entry::Vacant(_) => warn!("received response with unknown request ID: {}", id),
                 Entry::Occupied(mut entry) => {
                     let tx = match entry.get().len() {
@@ -52,7 +59,7 @@ impl Pending {
     pub fn wait(&self, id: Id) -> impl Future<Output = Response> + Send + 'static {
         let (tx, rx) = oneshot::channel();
 
-        match self.0.entry(id) {
+        match self.waiters.entry(id.clone()) {
             Entry::Vacant(entry) => {
                 entry.insert(vec![tx]);
             }
@@ -63,7 +70,22 @@ impl Pending {
             }
         }
 
-        async { rx.await.expect("sender already dropped") }
+        if self.closed.load(Ordering::SeqCst) {
+            self.waiters.remove(&id);
+        }
+
+        async move {
+            rx.await
+                .unwrap_or_else(|_| Response::from_error(id, Error::internal_error()))
+        }
+    }
+
+    /// Gives up on every pending request, now that no more responses are going to arrive.
+    ///
+    /// All current and future `.wait()` futures will resolve to an "internal error" response.
+    pub fn close(&self) {
+        self.closed.store(true, Ordering::SeqCst);
+        self.waiters.clear();
     }
 }
 
@@ -73,7 +95,7 @@ impl Debug for Pending {
         struct Waiters(usize);
 
         let iter = self
-            .0
+            .waiters
             .iter()
             .map(|e| (e.key().clone(), Waiters(e.value().len())));
 
diff --git a/src/service/client/socket.rs b/src/service/client/socket.rs
index 5006895..d3b0f33 100644
--- a/src/service/client/socket.rs
+++ b/src/service/client/socket.rs
@@ -82,6 +82,7 @@ impl Sink<Response> for ClientSocket {
     }
 
     fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        self.pending.close();
         Poll::Ready(Ok(()))
     }
 }
@@ -144,6 +145,7 @@ impl Sink<Response> for ResponseSink {
     }
 
     fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        self.pending.close();
         Poll::Ready(Ok(()))
     }
 }
diff --git a/src/transport.rs b/src/transport.rs
index dc7ffed..73ef2f2 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -152,6 +152,10 @@ where
                 }
             }
 
+            if let Err(err) = client_responses.close().await {
+                error!("{}", display_sources(&err));
+            }
+
             server_tasks_tx.disconnect();
             responses_tx.disconnect();
             client_abort.abort();
-- 
2.43.0


From 640efd1e8625a56ec360d554f8403c007381fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:02 +0000
Subject: [PATCH 09/17] fix: do not panic when the output fails

---
 src/transport.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 73ef2f2..12f8d8c 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -114,7 +114,11 @@ where
             .buffer_unordered(self.max_concurrency)
             .filter_map(future::ready)
             .map(|res| Ok(Message::Response(res)))
-            .forward(responses_tx.clone().sink_map_err(|_| unreachable!()))
+            .forward(
+                responses_tx
+                    .clone()
+                    .sink_map_err(|e| error!("failed to send response: {}", e)),
+            )
             .map(|_| ());
 
         let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
@@ -136,7 +140,10 @@ where
                             None
                         });
 
-                        server_tasks_tx.send(fut).await.unwrap();
+                        if let Err(err) = server_tasks_tx.send(fut).await {
+                            error!("failed to process message: {}", err);
+                            break;
+                        }
                     }
                     Ok(Message::Response(res)) => {
                         if let Err(err) = client_responses.send(res).await {
@@ -147,7 +154,10 @@ where
                     Err(err) => {
                         error!("failed to decode message: {}", err);
                         let res = Response::from_error(Id::Null, to_jsonrpc_error(err));
-                        responses_tx.send(Message::Response(res)).await.unwrap();
+                        if let Err(err) = responses_tx.send(Message::Response(res)).await {
+                            error!("failed to send response: {}", err);
+                            break;
+                        }
                     }
                 }
             }
-- 
2.43.0


From f82bc1bc89691a8afb13803387fd4ccc1e97ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 10/17] fix: stop serving as soon as the service has exited

---
 src/transport.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index 12f8d8c..cedfa6e 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -132,7 +132,7 @@ where
                     Ok(Message::Request(req)) => {
                         if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                             error!("{}", display_sources(err.into().as_ref()));
-                            return;
+                            break;
                         }
 
                         let fut = service.call(req).unwrap_or_else(|err| {
@@ -144,11 +144,18 @@ where
                             error!("failed to process message: {}", err);
                             break;
                         }
+
+                        // Stop right away if this message has made the service exit, since there
+                        // might be no other message coming.
+                        let ready = future::poll_fn(|cx| service.poll_ready(cx)).now_or_never();
+                        if let Some(Err(_)) = ready {
+                            break;
+                        }
                     }
                     Ok(Message::Response(res)) => {
                         if let Err(err) = client_responses.send(res).await {
                             error!("{}", display_sources(&err));
-                            return;
+                            break;
                         }
                     }
                     Err(err) => {
-- 
2.43.0


From 13e5b15ddef3f2ab6bcb63d32fe59bd77364490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:11 +0000
Subject: [PATCH 11/17] fix: let handlers reach the client after the input has
 ended

---
 src/transport.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/transport.rs b/src/transport.rs
index cedfa6e..e47cb7f 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -1,5 +1,8 @@
 //! Generic server for multiplexing bidirectional streams through a transport.
 
+use std::convert::Infallible;
+use std::task::Poll;
+
 #[cfg(feature = "runtime-agnostic")]
 use async_codec_lite::{FramedRead, FramedWrite};
 #[cfg(feature = "runtime-agnostic")]
@@ -10,7 +13,7 @@ use tokio::io::{AsyncRead, AsyncWrite};
 #[cfg(feature = "runtime-tokio")]
 use tokio_util::codec::{FramedRead, FramedWrite};
 
-use futures::channel::mpsc;
+use futures::channel::{mpsc, oneshot};
 use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt, TryFutureExt};
 use tower::Service;
 use tracing::error;
@@ -103,7 +106,8 @@ where
         T::Future: Send,
     {
         let (client_requests, mut client_responses) = self.loopback.split();
-        let (client_requests, client_abort) = stream::abortable(client_requests);
+        let mut client_requests = Box::pin(client_requests);
+        let (done_tx, mut done_rx) = oneshot::channel::<Infallible>();
         let (mut responses_tx, responses_rx) = mpsc::channel(0);
         let (mut server_tasks_tx, server_tasks_rx) = mpsc::channel(MESSAGE_QUEUE_SIZE);
 
@@ -121,6 +125,14 @@ where
             )
             .map(|_| ());
 
+        // Messages which the handlers have sent to the client up to now must still be delivered, even
+        // when all processing is done.
+        let client_requests =
+            stream::poll_fn(move |cx| match client_requests.as_mut().poll_next(cx) {
+                Poll::Pending => done_rx.poll_unpin(cx).map(|_| None),
+                poll => poll,
+            });
+
         let print_output = stream::select(responses_rx, client_requests.map(Message::Request))
             .map(Ok)
             .forward(framed_stdout.sink_map_err(|e| error!("failed to encode message: {}", e)))
@@ -175,10 +187,14 @@ where
 
             server_tasks_tx.disconnect();
             responses_tx.disconnect();
-            client_abort.abort();
         };
 
-        join!(print_output, read_input, process_server_tasks);
+        let process_messages = async {
+            join!(read_input, process_server_tasks);
+            drop(done_tx);
+        };
+
+        join!(print_output, process_messages);
     }
 }
 
-- 
2.43.0


From cf466e4e41bb5c9d8c78dbaf74abaa49ab0665d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:03 +0000
Subject: [PATCH 12/17] fix: carry on after malformed messages

---
 src/codec.rs     | 76 ++++++++++++++++++++++++++++++++++++------------
 src/transport.rs | 23 ++++++---------
 2 files changed, 67 insertions(+), 32 deletions(-)

diff --git a/src/codec.rs b/src/codec.rs
index 7d1d896..dcb2192 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -151,6 +151,27 @@ impl<T: Serialize> Encoder<T> for LanguageServerCodec<T> {
     }
 }
 
+/// Decodes messages with [`LanguageServerCodec`], but reports malformed messages as regular items.
+///
+/// Unlike decoder errors, which put an end to the whole stream, this makes it possible to carry on
+/// with the messages which follow.
+pub struct MessageDecoder<T>(LanguageServerCodec<T>);
+
+impl<T> Default for MessageDecoder<T> {
+    fn default() -> Self {
+        MessageDecoder(LanguageServerCodec::default())
+    }
+}
+
+impl<T: DeserializeOwned> Decoder for MessageDecoder<T> {
+    type Item = Result<T, ParseError>;
+    type Error = ParseError;
+
+    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
+        Ok(self.0.decode(src).transpose())
+    }
+}
+
 fn number_of_digits(mut n: usize) -> usize {
     let mut num_digits = 0;
 
@@ -173,16 +194,16 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
             }
 
             let bytes = &src[..content_len];
-            let message = std::str::from_utf8(bytes)?;
-
-            let result = if message.is_empty() {
-                Ok(None)
-            } else {
-                trace!("<- {}", message);
-                match serde_json::from_str(message) {
-                    Ok(parsed) => Ok(Some(parsed)),
-                    Err(err) => Err(err.into()),
+            let result = match std::str::from_utf8(bytes) {
+                Ok(message) if message.is_empty() => Ok(None),
+                Ok(message) => {
+                    trace!("<- {}", message);
+                    match serde_json::from_str(message) {
+                        Ok(parsed) => Ok(Some(parsed)),
+                        Err(err) => Err(err.into()),
+                    }
                 }
+                Err(err) => Err(err.into()),
             };
 
             src.advance(content_len);
@@ -192,9 +213,13 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
         } else {
             let mut dst = [httparse::EMPTY_HEADER; 2];
 
-            let (headers_len, headers) = match httparse::parse_headers(src, &mut dst)? {
-                httparse::Status::Complete(output) => output,
-                httparse::Status::Partial => return Ok(None),
+            let (headers_len, headers) = match httparse::parse_headers(src, &mut dst) {
+                Ok(httparse::Status::Complete(output)) => output,
+                Ok(httparse::Status::Partial) => return Ok(None),
+                Err(err) => {
+                    src.advance(garbage_len(src, 1));
+                    return Err(err.into());
+                }
             };
 
             match decode_headers(headers) {
@@ -204,13 +229,12 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
                     self.decode(src) // Recurse right back in, now that `Content-Length` is known.
                 }
                 Err(err) => {
-                    match err {
-                        ParseError::MissingContentLength => {}
-                        _ => src.advance(headers_len),
-                    }
+                    let min_len = match err {
+                        ParseError::MissingContentLength => 1,
+                        _ => headers_len,
+                    };
 
-                    // Skip any garbage bytes by scanning ahead for another potential message.
-                    src.advance(memmem::find(src, b"Content-Length").unwrap_or_default());
+                    src.advance(garbage_len(src, min_len));
                     Err(err)
                 }
             }
@@ -218,6 +242,22 @@ impl<T: DeserializeOwned> Decoder for LanguageServerCodec<T> {
     }
 }
 
+/// Counts the garbage bytes, at least `min_len`, to be skipped before another potential message.
+fn garbage_len(src: &[u8], min_len: usize) -> usize {
+    const NEEDLE: &[u8] = b"Content-Length";
+
+    let rest = &src[min_len..];
+    let skipped = memmem::find(rest, NEEDLE).unwrap_or_else(|| {
+        // The start of the next message might have been received only in part.
+        let partial_len = (1..NEEDLE.len())
+            .rev()
+            .find(|&n| rest.ends_with(&NEEDLE[..n]));
+        rest.len() - partial_len.unwrap_or(0)
+    });
+
+    min_len + skipped
+}
+
 fn decode_headers(headers: &[httparse::Header<'_>]) -> Result<usize, ParseError> {
     let mut content_len = None;
 
diff --git a/src/transport.rs b/src/transport.rs
index e47cb7f..bb0ffc6 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -18,7 +18,7 @@ use futures::{future, join, stream, FutureExt, Sink, SinkExt, Stream, StreamExt,
 use tower::Service;
 use tracing::error;
 
-use crate::codec::{LanguageServerCodec, ParseError};
+use crate::codec::{LanguageServerCodec, MessageDecoder, ParseError};
 use crate::jsonrpc::{Error, Id, Message, Request, Response};
 use crate::service::{ClientSocket, RequestStream, ResponseSink};
 
@@ -111,7 +111,7 @@ where
         let (mut responses_tx, responses_rx) = mpsc::channel(0);
         let (mut server_tasks_tx, server_tasks_rx) = mpsc::channel(MESSAGE_QUEUE_SIZE);
 
-        let mut framed_stdin = FramedRead::new(self.stdin, LanguageServerCodec::default());
+        let mut framed_stdin = FramedRead::new(self.stdin, MessageDecoder::default());
         let framed_stdout = FramedWrite::new(self.stdout, LanguageServerCodec::default());
 
         let process_server_tasks = server_tasks_rx
@@ -141,7 +141,7 @@ where
         let read_input = async {
             while let Some(msg) = framed_stdin.next().await {
                 match msg {
-                    Ok(Message::Request(req)) => {
+                    Ok(Ok(Message::Request(req))) => {
                         if let Err(err) = future::poll_fn(|cx| service.poll_ready(cx)).await {
                             error!("{}", display_sources(err.into().as_ref()));
                             break;
@@ -164,13 +164,13 @@ where
                             break;
                         }
                     }
-                    Ok(Message::Response(res)) => {
+                    Ok(Ok(Message::Response(res))) => {
                         if let Err(err) = client_responses.send(res).await {
                             error!("{}", display_sources(&err));
                             break;
                         }
                     }
-                    Err(err) => {
+                    Ok(Err(err)) => {
                         error!("failed to decode message: {}", err);
                         let res = Response::from_error(Id::Null, to_jsonrpc_error(err));
                         if let Err(err) = responses_tx.send(Message::Response(res)).await {
@@ -178,6 +178,10 @@ where
                             break;
                         }
                     }
+                    Err(err) => {
+                        error!("failed to read message: {}", err);
+                        break;
+                    }
                 }
             }
 
@@ -206,7 +210,6 @@ fn display_sources(error: &dyn std::error::Error) -> String {
     }
 }
 
-#[cfg(feature = "runtime-tokio")]
 fn to_jsonrpc_error(err: ParseError) -> Error {
     match err {
         ParseError::Body(err) if err.is_data() => Error::invalid_request(),
@@ -214,14 +217,6 @@ fn to_jsonrpc_error(err: ParseError) -> Error {
     }
 }
 
-#[cfg(feature = "runtime-agnostic")]
-fn to_jsonrpc_error(err: impl std::error::Error) -> Error {
-    match err.source().and_then(|e| e.downcast_ref()) {
-        Some(ParseError::Body(err)) if err.is_data() => Error::invalid_request(),
-        _ => Error::parse_error(),
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use std::task::{Context, Poll};
-- 
2.43.0


From 43950c1a7af03b426ccb400ad667b480c817788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 13/17] fix: do not hold up messages received together with an
 empty one

---
 src/codec.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index dcb2192..3e7c269 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -168,7 +168,16 @@ impl<T: DeserializeOwned> Decoder for MessageDecoder<T> {
     type Error = ParseError;
 
     fn decode(&mut self, src: &mut BytesMut) -> Result<Option<Self::Item>, Self::Error> {
-        Ok(self.0.decode(src).transpose())
+        loop {
+            let len = src.len();
+            let result = self.0.decode(src).transpose();
+
+            // An empty message yields no item, but the ones behind it must not be held up.
+            let is_empty_message = src.len() < len && self.0.content_len.is_none();
+            if result.is_some() || !is_empty_message {
+                return Ok(result);
+            }
+        }
     }
 }
 
-- 
2.43.0


From feb5316a7abf3382e560266da2e6a8e711f6bb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 14/17] fix: wake up handlers which wait to send a message when
 the server exits

---
 src/service/client/socket.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/service/client/socket.rs b/src/service/client/socket.rs
index d3b0f33..52f8ebc 100644
--- a/src/service/client/socket.rs
+++ b/src/service/client/socket.rs
@@ -42,7 +42,10 @@ impl Stream for ClientSocket {
     type Item = Request;
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if self.state.get() == State::Exited || self.rx.is_terminated() {
+        if self.state.get() == State::Exited {
+            self.rx.close(); // Nobody should wait to send another message.
+            Poll::Ready(None)
+        } else if self.rx.is_terminated() {
             Poll::Ready(None)
         } else {
             self.rx.poll_next_unpin(cx)
@@ -99,7 +102,10 @@ impl Stream for RequestStream {
     type Item = Request;
 
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if self.state.get() == State::Exited || self.rx.is_terminated() {
+        if self.state.get() == State::Exited {
+            self.rx.close(); // Nobody should wait to send another message.
+            Poll::Ready(None)
+        } else if self.rx.is_terminated() {
             Poll::Ready(None)
         } else {
             self.rx.poll_next_unpin(cx)
-- 
2.43.0


From 32e0d4023d7d87fd34d597da12d588d5a40bf524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:32 +0000
Subject: [PATCH 15/17] fix: resume a pending flush of the output with
 `runtime-agnostic`

The `FramedWrite` of `async-codec-lite` flushes the output only once after it
has written all data, and does not try again if that was not possible at the
time. Messages then stay in the buffers of the output.
---
 src/transport.rs | 55 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/src/transport.rs b/src/transport.rs
index bb0ffc6..bab7f77 100644
--- a/src/transport.rs
+++ b/src/transport.rs
@@ -1,12 +1,18 @@
 //! Generic server for multiplexing bidirectional streams through a transport.
 
 use std::convert::Infallible;
+#[cfg(feature = "runtime-agnostic")]
+use std::pin::Pin;
+#[cfg(feature = "runtime-agnostic")]
+use std::task::Context;
 use std::task::Poll;
 
 #[cfg(feature = "runtime-agnostic")]
 use async_codec_lite::{FramedRead, FramedWrite};
 #[cfg(feature = "runtime-agnostic")]
 use futures::io::{AsyncRead, AsyncWrite};
+#[cfg(feature = "runtime-agnostic")]
+use futures::ready;
 
 #[cfg(feature = "runtime-tokio")]
 use tokio::io::{AsyncRead, AsyncWrite};
@@ -113,6 +119,8 @@ where
 
         let mut framed_stdin = FramedRead::new(self.stdin, MessageDecoder::default());
         let framed_stdout = FramedWrite::new(self.stdout, LanguageServerCodec::default());
+        #[cfg(feature = "runtime-agnostic")]
+        let framed_stdout = FlushingSink::new(framed_stdout);
 
         let process_server_tasks = server_tasks_rx
             .buffer_unordered(self.max_concurrency)
@@ -202,6 +210,53 @@ where
     }
 }
 
+/// Wrapper around [`FramedWrite`] which resumes flushing an output that was not ready to be flushed.
+///
+/// The `async-codec-lite` crate asks the output only once, right after having written to it.
+#[cfg(feature = "runtime-agnostic")]
+struct FlushingSink<W> {
+    inner: Pin<Box<FramedWrite<W, LanguageServerCodec<Message>>>>,
+    needs_flush: bool,
+}
+
+#[cfg(feature = "runtime-agnostic")]
+impl<W> FlushingSink<W> {
+    fn new(inner: FramedWrite<W, LanguageServerCodec<Message>>) -> Self {
+        FlushingSink {
+            inner: Box::pin(inner),
+            needs_flush: false,
+        }
+    }
+}
+
+#[cfg(feature = "runtime-agnostic")]
+impl<W: AsyncWrite> Sink<Message> for FlushingSink<W> {
+    type Error = <FramedWrite<W, LanguageServerCodec<Message>> as Sink<Message>>::Error;
+
+    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        self.inner.as_mut().poll_ready(cx)
+    }
+
+    fn start_send(mut self: Pin<&mut Self>, item: Message) -> Result<(), Self::Error> {
+        self.needs_flush = true;
+        self.inner.as_mut().start_send(item)
+    }
+
+    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        ready!(self.inner.as_mut().poll_flush(cx))?;
+        if self.needs_flush {
+            ready!(self.inner.as_mut().get_pin_mut().poll_flush(cx))?;
+            self.needs_flush = false;
+        }
+        Poll::Ready(Ok(()))
+    }
+
+    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
+        ready!(self.as_mut().poll_flush(cx))?;
+        self.inner.as_mut().poll_close(cx)
+    }
+}
+
 fn display_sources(error: &dyn std::error::Error) -> String {
     if let Some(source) = error.source() {
         format!("{}: {}", error, display_sources(source))
-- 
2.43.0


From 9f13395c775ef5ea3ae265bdc5bc1fd7cdf7edd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 16/17] fix: do not wait for the response to a request that is
 dropped before it is sent

Calling the client as a service registered the waiter at once. If the returned
future was dropped without being polled, nothing was sent, but the waiter stayed
forever, and it would swallow the response to a later request with that ID.
---
 src/service/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/service/client.rs b/src/service/client.rs
index e8bbd8b..8340c78 100644
--- a/src/service/client.rs
+++ b/src/service/client.rs
@@ -609,9 +609,12 @@ impl Service<Request> for Client {
 
     fn call(&mut self, req: Request) -> Self::Future {
         let mut tx = self.inner.tx.clone();
-        let response_waiter = req.id().cloned().map(|id| self.inner.pending.wait(id));
+        let pending = self.inner.pending.clone();
 
         Box::pin(async move {
+            // Wait for a response only now, since a future dropped before would never have sent `req`.
+            let response_waiter = req.id().cloned().map(|id| pending.wait(id));
+
             if tx.send(req).await.is_err() {
                 return Err(ExitedError(()));
             }
-- 
2.43.0


From 1a9a850cdb8466dd5557ef71d5edd1fb17ff6de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:36 +0000
Subject: [PATCH 17/17] fix: a request to the client hung for ever when serve()
 was dropped

Dropping the future returned by serve(), or the client socket, closed the channel
for outgoing messages, but left requests already sent waiting for a response that
can no longer arrive.
---
 src/service/client.rs        |  2 ++
 src/service/client/socket.rs | 24 ++++++++++++++++++------
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/service/client.rs b/src/service/client.rs
index 8340c78..8f58794 100644
--- a/src/service/client.rs
+++ b/src/service/client.rs
@@ -18,6 +18,7 @@ use tracing::{error, trace};
 
 use self::pending::Pending;
 use self::progress::Progress;
+use self::socket::Waiters;
 use super::state::{ServerState, State};
 use super::ExitedError;
 use crate::jsonrpc::{self, Error, ErrorCode, Id, Request, Response};
@@ -60,6 +61,7 @@ impl Client {
             }),
         };
 
+        let pending = Waiters(pending);
         (client, ClientSocket { rx, pending, state })
     }
 
diff --git a/src/service/client/socket.rs b/src/service/client/socket.rs
index 52f8ebc..e0508f2 100644
--- a/src/service/client/socket.rs
+++ b/src/service/client/socket.rs
@@ -15,10 +15,22 @@ use crate::jsonrpc::{Request, Response};
 #[derive(Debug)]
 pub struct ClientSocket {
     pub(super) rx: Receiver<Request>,
-    pub(super) pending: Arc<Pending>,
+    pub(super) pending: Waiters,
     pub(super) state: Arc<ServerState>,
 }
 
+/// Requests waiting for a response from the client.
+///
+/// Nobody should wait any longer once this has been dropped, since no response can arrive anymore.
+#[derive(Debug)]
+pub(super) struct Waiters(pub(super) Arc<Pending>);
+
+impl Drop for Waiters {
+    fn drop(&mut self) {
+        self.0.close();
+    }
+}
+
 impl ClientSocket {
     /// Splits this `ClientSocket` into two halves capable of operating independently.
     ///
@@ -76,7 +88,7 @@ impl Sink<Response> for ClientSocket {
     }
 
     fn start_send(self: Pin<&mut Self>, item: Response) -> Result<(), Self::Error> {
-        self.pending.insert(item);
+        self.pending.0.insert(item);
         Ok(())
     }
 
@@ -85,7 +97,7 @@ impl Sink<Response> for ClientSocket {
     }
 
     fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
-        self.pending.close();
+        self.pending.0.close();
         Poll::Ready(Ok(()))
     }
 }
@@ -126,7 +138,7 @@ impl FusedStream for RequestStream {
 /// Routes client-to-server responses back to the server.
 #[derive(Debug)]
 pub struct ResponseSink {
-    pending: Arc<Pending>,
+    pending: Waiters,
     state: Arc<ServerState>,
 }
 
@@ -142,7 +154,7 @@ impl Sink<Response> for ResponseSink {
     }
 
     fn start_send(self: Pin<&mut Self>, item: Response) -> Result<(), Self::Error> {
-        self.pending.insert(item);
+        self.pending.0.insert(item);
         Ok(())
     }
 
@@ -151,7 +163,7 @@ impl Sink<Response> for ResponseSink {
     }
 
     fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
-        self.pending.close();
+        self.pending.0.close();
         Poll::Ready(Ok(()))
     }
 }
-- 
2.43.0

