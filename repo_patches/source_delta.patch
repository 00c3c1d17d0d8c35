From a31a98d55ee7f162939dbaae6a6ccc26ec5b34da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:40 +0000
Subject: [PATCH 01/24] fix: wake the receiver of a coordinated channel when
 the channel finishes

The receiver was only woken by the acknowledgement of its last pending item,
through the waker of the poll that yielded that item. Closing or dropping the
publisher woke nobody, so a receiver that had already drained the channel (an
input stream that ends after its last result, for instance) waited forever.
---
 .../coordinated_channel/coordinated_stream.rs | 25 ++++++++-----------
 .../src/channel/coordinated_channel/mod.rs    | 23 ++++++++++++++---
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index d45ec4f..239567c 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -22,7 +22,7 @@ use std::{
         atomic::{AtomicBool, Ordering},
         Arc,
     },
-    task::{Context, Poll, Waker},
+    task::{Context, Poll},
 };
 
 use futures::Stream;
@@ -70,16 +70,14 @@ impl<S: Stream> CoordinatedStream<S> {
 /// handled.
 pub struct CoordinatedAcker {
     state: Arc<ChannelState>,
-    waker: Waker,
     did_ack: AtomicBool,
 }
 
 impl CoordinatedAcker {
     /// Create a new [`CoordinatedAcker`].
-    pub fn new(state: Arc<ChannelState>, waker: Waker) -> Self {
+    pub fn new(state: Arc<ChannelState>) -> Self {
         Self {
             state,
-            waker,
             did_ack: AtomicBool::new(false),
         }
     }
@@ -93,9 +91,7 @@ impl CoordinatedAcker {
             return;
         }
 
-        if self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
-            self.waker.wake_by_ref();
-        }
+        self.state.settle();
     }
 
     /// Negative acknowledge the message.
@@ -128,16 +124,16 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
 
         match item {
             // If the inner stream has an item available, return it with an acker.
-            Poll::Ready(Some(item)) => Poll::Ready(Some((
-                item,
-                CoordinatedAcker::new(this.state.clone(), cx.waker().clone()),
-            ))),
+            Poll::Ready(Some(item)) => {
+                Poll::Ready(Some((item, CoordinatedAcker::new(this.state.clone()))))
+            }
             Poll::Pending => {
                 // If the inner stream is pending, check that the channel is closed and there
                 // are no pending sends. If so, return `None` to signal that the
-                // stream has terminated.
-                let num_pending_sends = this.state.num_pending_sends.load(Ordering::SeqCst);
-                if this.state.closed.load(Ordering::SeqCst) && num_pending_sends == 0 {
+                // stream has terminated. The waker has to be registered before the check,
+                // such that the channel can't finish unnoticed in between.
+                this.state.receiver.register(cx.waker());
+                if this.state.is_finished() {
                     return Poll::Ready(None);
                 }
 
@@ -149,6 +145,7 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
             // inner stream is closed and there are no pending sends. Otherwise, return
             // pending as there are pending sends.
             Poll::Ready(None) => {
+                this.state.receiver.register(cx.waker());
                 if this.state.num_pending_sends.load(Ordering::SeqCst) == 0 {
                     Poll::Ready(None)
                 } else {
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index f88e6ca..bc5cbba 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -17,7 +17,7 @@ use std::sync::{
     Arc,
 };
 
-use futures::Stream;
+use futures::{task::AtomicWaker, Stream};
 
 use self::{coordinated_publisher::CoordinatedPublisher, coordinated_stream::CoordinatedStream};
 use crate::queue::Publisher;
@@ -32,6 +32,8 @@ pub struct ChannelState {
     closed: AtomicBool,
     /// The number of pending sends.
     num_pending_sends: AtomicUsize,
+    /// The task waiting on the receiving end, if any.
+    receiver: AtomicWaker,
 }
 
 impl ChannelState {
@@ -41,12 +43,25 @@ impl ChannelState {
     }
 
     /// Mark the channel as closed.
+    ///
+    /// The receiver is woken, as it may be waiting for nothing but this.
     pub fn close(&self) {
-        if self.closed.load(Ordering::SeqCst) {
-            return;
+        if !self.closed.swap(true, Ordering::SeqCst) {
+            self.receiver.wake();
         }
+    }
+
+    /// Settle a pending send, waking the receiver if it was the last one.
+    fn settle(&self) {
+        if self.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
+            self.receiver.wake();
+        }
+    }
 
-        self.closed.store(true, Ordering::SeqCst);
+    /// Whether the channel is closed and all of its sends are settled.
+    ///
+    fn is_finished(&self) -> bool {
+        self.closed.load(Ordering::SeqCst) && self.num_pending_sends.load(Ordering::SeqCst) == 0
     }
 }
 
-- 
2.43.0


From 276ef396f624d3fd65ebdec581b3f50891395394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:18 +0000
Subject: [PATCH 02/24] fix: stop counting coordinated sends that fail or are
 cancelled

A publication that failed, or whose future was dropped, stayed counted as
pending for ever, so the receiver never ended. A publication that raced with
the closing of the channel was counted after the check for closure, so the
receiver could end before a publication that then succeeded.
---
 .../coordinated_publisher.rs                  | 29 +++++++++++++++++--
 .../src/channel/coordinated_channel/mod.rs    | 10 ++++++-
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index d28535f..6a21ad5 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -34,6 +34,29 @@ impl<T, Inner> Drop for CoordinatedPublisher<T, Inner> {
     }
 }
 
+/// A send that is counted as pending, unless it fails or is cancelled.
+struct PendingSend<'a> {
+    state: &'a ChannelState,
+}
+
+impl<'a> PendingSend<'a> {
+    fn new(state: &'a ChannelState) -> Self {
+        state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
+        Self { state }
+    }
+
+    /// The send succeeded: it stays pending until the receiver settles it.
+    fn commit(self) {
+        std::mem::forget(self);
+    }
+}
+
+impl Drop for PendingSend<'_> {
+    fn drop(&mut self) {
+        self.state.settle();
+    }
+}
+
 #[derive(Debug, Error)]
 pub enum CoordinatedPublisherError {
     #[error("Inner error: {0}")]
@@ -54,16 +77,18 @@ where
     Inner: Publisher<T> + Sync,
 {
     async fn publish(&self, payload: &T) -> Result<()> {
+        // Count the send before checking for closure, such that a receiver that
+        // observes the closure also observes the send.
+        let pending_send = PendingSend::new(&self.state);
         if self.state.closed.load(Ordering::SeqCst) {
             return err_closed();
         }
 
-        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
-
         self.inner
             .publish(payload)
             .await
             .map_err(CoordinatedPublisherError::Inner)?;
+        pending_send.commit();
 
         Ok(())
     }
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index bc5cbba..d746087 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -52,14 +52,22 @@ impl ChannelState {
     }
 
     /// Settle a pending send, waking the receiver if it was the last one.
+    ///
+    /// A send that was given up may still arrive and be acknowledged, and must
+    /// not be settled below zero then.
     fn settle(&self) {
-        if self.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
+        let previous =
+            self.num_pending_sends
+                .fetch_update(Ordering::SeqCst, Ordering::SeqCst, |n| n.checked_sub(1));
+        if previous == Ok(1) {
             self.receiver.wake();
         }
     }
 
     /// Whether the channel is closed and all of its sends are settled.
     ///
+    /// Sends are counted before the publisher checks for closure, so `closed`
+    /// must be read first: no further send can succeed once it is set.
     fn is_finished(&self) -> bool {
         self.closed.load(Ordering::SeqCst) && self.num_pending_sends.load(Ordering::SeqCst) == 0
     }
-- 
2.43.0


From 58ff114c436401c6ee5b1bbeaa681d535be90bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:58 +0000
Subject: [PATCH 03/24] fix: fold a single element whatever its index

The single element of an indexed stream was looked up at index 0 and the fold
panicked if it carried another one.
---
 Cargo.lock                                            | 2 +-
 paladin-core/src/directive/indexed_stream/foldable.rs | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index cc8b417..32b4b32 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1408,7 +1408,7 @@ dependencies = [
 
 [[package]]
 name = "paladin-core"
-version = "0.4.3"
+version = "0.4.4"
 dependencies = [
  "anyhow",
  "async-trait",
diff --git a/paladin-core/src/directive/indexed_stream/foldable.rs b/paladin-core/src/directive/indexed_stream/foldable.rs
index ddb5a63..d4f6a18 100644
--- a/paladin-core/src/directive/indexed_stream/foldable.rs
+++ b/paladin-core/src/directive/indexed_stream/foldable.rs
@@ -156,6 +156,8 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
         let should_dispatch = Arc::new(Notify::new());
         // The running count of inputs.
         let count = Arc::new(AtomicUsize::new(0));
+        // The index of the first input in order.
+        let first_idx = Arc::new(AtomicUsize::new(usize::MAX));
         // The size of the input is not known until every item in the input stream has
         // been received. We don't want to block result stream consumption waiting for
         // the initialization future to finish, as there may be a significant delay if
@@ -173,7 +175,9 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                 let dispatcher = dispatcher.clone();
                 let should_dispatch = should_dispatch.clone();
                 let count = count.clone();
+                let first_idx = first_idx.clone();
                 async move {
+                    first_idx.fetch_min(idx, Ordering::Relaxed);
                     // Given that the operation is a monoid, and input type must match output type,
                     // we can safely place the input into a `TaskResult`.
                     // Because this represents an uncombined input, we set the
@@ -202,6 +206,7 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
             .and_then({
                 let count = count.clone();
                 let dispatcher = dispatcher.clone();
+                let first_idx = first_idx.clone();
                 let resolved_input_size = resolved_input_size.clone();
                 |_| {
                     async move {
@@ -218,9 +223,9 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                             // at this point, so we can safely dequeue it. If it doesn't, this is a
                             // logic error.
                             1 => Ok(dispatcher
-                                .dequeue(&0)
+                                .dequeue(&first_idx.load(Ordering::Relaxed))
                                 .await
-                                .expect("Expected dispatcher to have a single element at index 0")
+                                .expect("Expected dispatcher to have a single element")
                                 .output),
                             // Otherwise, we wait for the result stream to complete.
                             _ => futures::future::pending().await,
-- 
2.43.0


From 88f4817c6eb4ff908618f0221c8a700e4a84b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:00 +0000
Subject: [PATCH 04/24] fix: finish a fold whose last result arrives before the
 end of its input

If every combination had been received before the input stream reported its
end, the final result had been queued as just another partial result and the
fold waited forever.
---
 .../src/directive/indexed_stream/foldable.rs      | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/directive/indexed_stream/foldable.rs b/paladin-core/src/directive/indexed_stream/foldable.rs
index d4f6a18..f6dd99d 100644
--- a/paladin-core/src/directive/indexed_stream/foldable.rs
+++ b/paladin-core/src/directive/indexed_stream/foldable.rs
@@ -228,7 +228,20 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                                 .expect("Expected dispatcher to have a single element")
                                 .output),
                             // Otherwise, we wait for the result stream to complete.
-                            _ => futures::future::pending().await,
+                            //
+                            // The final result may have been received before the size was known, in
+                            // which case it was queued and nothing else is going to be received.
+                            _ => {
+                                let first_idx = first_idx.load(Ordering::Relaxed);
+                                if let Some(result) = dispatcher.dequeue(&first_idx).await {
+                                    if result.is_final(size) {
+                                        return Ok(result.output);
+                                    }
+                                    dispatcher.queue(result).await;
+                                }
+
+                                futures::future::pending().await
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 2ce4db9284ae46b4f9847af080bd845cd3bd7e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:01 +0000
Subject: [PATCH 05/24] fix: do not retry an operation that fails fatally on a
 retry

A fatal error raised by a retried operation was itself retried, and its fatal
strategy replaced by the one of the first, transient, error.
---
 paladin-core/src/operation/error.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/paladin-core/src/operation/error.rs b/paladin-core/src/operation/error.rs
index 7263858..2e4e2fa 100644
--- a/paladin-core/src/operation/error.rs
+++ b/paladin-core/src/operation/error.rs
@@ -12,7 +12,7 @@
 //! request or a database connection error.
 use std::{num::NonZeroU32, time::Duration};
 
-use futures::Future;
+use futures::{Future, FutureExt};
 use thiserror::Error;
 use tracing::error;
 
@@ -422,11 +422,21 @@ impl OperationError {
                 fatal_strategy,
                 ..
             } => {
-                let result = retry_with_strategy(f, retry_strategy, tracer).await;
-                result.map_err(|err| Self::Fatal {
-                    err: err.into_err(),
-                    strategy: fatal_strategy,
-                })
+                // Only transient errors are retried, so anything else ends the retries.
+                let attempt = || {
+                    f().map(|result| match result {
+                        Err(err @ Self::Transient { .. }) => Err(err),
+                        settled => Ok(settled),
+                    })
+                };
+
+                match retry_with_strategy(attempt, retry_strategy, tracer).await {
+                    Ok(settled) => settled,
+                    Err(err) => Err(Self::Fatal {
+                        err: err.into_err(),
+                        strategy: fatal_strategy,
+                    }),
+                }
             }
             _ => Err(self),
         }
-- 
2.43.0


From 491dbe4b777c4a41b84816859227637785c3dde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:04 +0000
Subject: [PATCH 06/24] fix: keep executing a job's tasks after an ignored
 failure

A worker stopped executing the tasks of a job after a failure with the ignore
strategy, so more than the failed task's result was lost.
---
 paladin-core/src/runtime/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index cdd8f6c..576ab81 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -782,7 +782,10 @@ impl WorkerRuntime {
                         }
                         Err(err) => {
                             error!(routing_key = %routing_key, "execution error: {err:?}");
-                            mark_terminated(&terminated_jobs, routing_key.clone());
+                            // An ignored failure doesn't affect the other tasks of the job.
+                            if let FatalStrategy::Terminate = err.fatal_strategy() {
+                                mark_terminated(&terminated_jobs, routing_key.clone());
+                            }
 
                             try_join!(
                                 acker.nack(),
-- 
2.43.0


From 4e546a8830bdb714c393557208a434ca7db4be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:28 +0000
Subject: [PATCH 07/24] fix: stop a worker's background tasks together with its
 main loop

When the main loop was cancelled (an in-memory runtime being dropped) or
returned early with an error, the tasks it had spawned were left running.
---
 paladin-core/src/runtime/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 576ab81..dde6530 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -417,6 +417,15 @@ pub struct ExecutionErr<E> {
     strategy: FatalStrategy,
 }
 
+/// A spawned task that does not outlive this handle.
+struct AbortOnDrop(JoinHandle<()>);
+
+impl Drop for AbortOnDrop {
+    fn drop(&mut self) {
+        self.0.abort();
+    }
+}
+
 /// Command and error inter-process messages between leader and workers.
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub enum CommandIpc {
@@ -670,7 +679,7 @@ impl WorkerRuntime {
         let terminated_jobs: Arc<DashMap<String, Instant>> = Default::default();
 
         // Spawn a task that will periodically clear the terminated jobs map.
-        let reaper = tokio::spawn({
+        let _reaper = AbortOnDrop(tokio::spawn({
             let terminated_jobs = terminated_jobs.clone();
             async move {
                 loop {
@@ -678,7 +687,7 @@ impl WorkerRuntime {
                     tokio::time::sleep(TERMINATION_CLEAR_INTERVAL).await;
                 }
             }
-        });
+        }));
 
         let identifier: String = get_random_routing_key();
 
@@ -689,7 +698,7 @@ impl WorkerRuntime {
         // Spawn a task that will listen for IPC termination signals and mark jobs as
         // terminated.
         let mut command_receiver = self.get_command_ipc_receiver().await?;
-        let remote_command_sig_term_handler = tokio::spawn({
+        let _remote_command_sig_term_handler = AbortOnDrop(tokio::spawn({
             let terminated_jobs = terminated_jobs.clone();
 
             async move {
@@ -705,7 +714,7 @@ impl WorkerRuntime {
                     }
                 }
             }
-        });
+        }));
 
         /// Helper to mark a job as terminated.
         ///
@@ -808,9 +817,6 @@ impl WorkerRuntime {
             }
         }
 
-        remote_command_sig_term_handler.abort();
-        reaper.abort();
-
         Ok(())
     }
 }
-- 
2.43.0


From c17bf46f3bc1c43e9e6869b42f247dc0c3611162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:23 +0000
Subject: [PATCH 08/24] fix: do not let a later command hide an abort of the
 whole worker

The watch channel only keeps the last routing key, so an abort-all command
followed by the abort of some job before the worker looked was lost.
---
 paladin-core/src/runtime/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index dde6530..b230cb6 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -707,8 +707,16 @@ impl WorkerRuntime {
                         CommandIpc::Abort { routing_key } => {
                             // Mark the job as terminated if it hasn't been already.
                             if mark_terminated(&terminated_jobs, routing_key.clone()) {
-                                // Notify any currently executing task about the termination.
-                                ipc_sig_term_tx.send_replace(routing_key.clone());
+                                // Notify any currently executing task about the termination. The
+                                // watch channel only keeps the last value: a later command must not
+                                // replace an abort of the whole worker, which would then go unseen.
+                                ipc_sig_term_tx.send_if_modified(|current| {
+                                    if current == COMMAND_IPC_ABORT_ALL_KEY {
+                                        return false;
+                                    }
+                                    *current = routing_key.clone();
+                                    true
+                                });
                             }
                         }
                     }
-- 
2.43.0


From 6dd36fbe63abeaf7c460a1093b260cc136c438ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:52 +0000
Subject: [PATCH 09/24] fix: stop an aborted worker even if its tasks complete
 quickly

An idle worker looks at a pending abort only while it executes its next task.
If that task had completed by the time it was first polled, the select could
choose the result, and the worker went on to further tasks.
---
 paladin-core/src/runtime/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index b230cb6..aec05a1 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -785,7 +785,17 @@ impl WorkerRuntime {
             };
 
             // Wait for either the task to complete or an IPC termination signal.
+            // A termination signal that is already there takes precedence, so that an aborted
+            // worker cannot miss it by completing its tasks quickly.
             select! {
+                biased;
+                _ = ipc_sig_term => {
+                    _ = acker.nack().await;
+                    // Give time to the execution_task to finish gracefully on abort signal before shutting down.
+                    tokio::time::sleep(ABORT_SIGNAL_SHUTDOWN_INTERVAL).await;
+                    warn!(routing_key = %routing_key, "worker execution stopped via IPC sigterm");
+                    break;
+                }
                 execution = execution_task => {
                     match execution {
                         Ok(output) => {
@@ -815,13 +825,6 @@ impl WorkerRuntime {
                         }
                     }
                 }
-                _ = ipc_sig_term => {
-                    _ = acker.nack().await;
-                    // Give time to the execution_task to finish gracefully on abort signal before shutting down.
-                    tokio::time::sleep(ABORT_SIGNAL_SHUTDOWN_INTERVAL).await;
-                    warn!(routing_key = %routing_key, "worker execution stopped via IPC sigterm");
-                    break;
-                }
             }
         }
 
-- 
2.43.0


From 917e7c09fed57d9766e264ef760c3992ccd6168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:59 +0000
Subject: [PATCH 10/24] fix: make the operations of the contiguous queue atomic

Two threads inserting adjacent values could both miss the other one and queue
theirs, and removing a taken value by its key could remove a newer one.
---
 paladin-core/src/contiguous/queue.rs | 31 ++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/paladin-core/src/contiguous/queue.rs b/paladin-core/src/contiguous/queue.rs
index 43144a5..abccd9d 100644
--- a/paladin-core/src/contiguous/queue.rs
+++ b/paladin-core/src/contiguous/queue.rs
@@ -1,3 +1,5 @@
+use std::sync::{Mutex, MutexGuard, PoisonError};
+
 use crossbeam::atomic::AtomicCell;
 use crossbeam_skiplist::SkipMap;
 
@@ -9,6 +11,9 @@ use super::Contiguous;
 /// attempting to acquire adjacent values.
 pub struct ContiguousQueue<T: Contiguous> {
     values: SkipMap<T::Key, AtomicCell<Option<T>>>,
+    /// Held during every operation: searching for a neighbour, taking it and
+    /// queueing a value that has none must not interleave with each other.
+    lock: Mutex<()>,
 }
 
 /// Represents the position of a value relative to another value.
@@ -21,8 +26,13 @@ impl<T: Contiguous> ContiguousQueue<T> {
     pub fn new() -> Self {
         Self {
             values: SkipMap::new(),
+            lock: Mutex::new(()),
         }
     }
+
+    fn lock(&self) -> MutexGuard<'_, ()> {
+        self.lock.lock().unwrap_or_else(PoisonError::into_inner)
+    }
 }
 
 impl<T> ContiguousQueue<T>
@@ -40,6 +50,11 @@ where
     /// Returns the position of the contiguous value relative to `next_value` if
     /// found, otherwise `None`.
     pub fn find_contiguous(&self, next_value: &T) -> Option<Position<T>> {
+        let _guard = self.lock();
+        self.find_contiguous_locked(next_value)
+    }
+
+    fn find_contiguous_locked(&self, next_value: &T) -> Option<Position<T>> {
         let key = next_value.key();
         self.values
             // Check the next_value immediately greater than the given range
@@ -52,8 +67,7 @@ where
                 // 1. We are only reading the value.
                 // 2. crossbeam's Entry ensures that the value is not removed while the lifetime
                 //    is in scope.
-                // 3. AtomicCell::take() is atomic. If another thread attempts to take the value
-                //    only one thread will succeed.
+                // 3. The lock is held, so no other thread takes the value meanwhile.
                 match unsafe { &*value.as_ptr() } {
                     Some(adjacent_value) if next_value.is_contiguous(adjacent_value) => {
                         let value = value.take()?;
@@ -88,6 +102,12 @@ where
     /// and can be paired later when its contiguous counterpart arrives.
     #[inline]
     pub fn queue(&self, value: T) {
+        let _guard = self.lock();
+        self.queue_locked(value)
+    }
+
+    #[inline]
+    fn queue_locked(&self, value: T) {
         self.values
             .insert(*value.key(), AtomicCell::new(Some(value)));
     }
@@ -95,6 +115,7 @@ where
     /// Removes the value with the given key from the queue.
     #[inline]
     pub fn dequeue(&self, key: &T::Key) -> Option<T> {
+        let _guard = self.lock();
         self.values.remove(key)?.value().take()
     }
 
@@ -104,13 +125,14 @@ where
     /// If a contiguous value is found, it returns the pair. If not, the
     /// `next_value` is queued for future pairing.
     pub fn acquire_contiguous_pair_or_queue(&self, next_value: T) -> Option<(T, T)> {
-        match self.find_contiguous(&next_value) {
+        let _guard = self.lock();
+        match self.find_contiguous_locked(&next_value) {
             Some(position) => match position {
                 Position::Lhs(contiguous) => Some((contiguous, next_value)),
                 Position::Rhs(contiguous) => Some((next_value, contiguous)),
             },
             None => {
-                self.queue(next_value);
+                self.queue_locked(next_value);
                 None
             }
         }
@@ -130,6 +152,7 @@ impl<T: Contiguous, Iter: IntoIterator<Item = T>> From<Iter> for ContiguousQueue
                 .into_iter()
                 .map(|x| (*x.key(), AtomicCell::new(Some(x))))
                 .collect(),
+            lock: Mutex::new(()),
         }
     }
 }
-- 
2.43.0


From 91ad9656918c248cbbc31db665dd913ff93fc1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:09 +0000
Subject: [PATCH 11/24] fix: publish a task's outcome before acknowledging the
 task

---
 paladin-core/src/runtime/mod.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index aec05a1..b3a0da8 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -799,13 +799,14 @@ impl WorkerRuntime {
                 execution = execution_task => {
                     match execution {
                         Ok(output) => {
-                            try_join!(
-                                acker.ack(),
-                                self.dispatch_ok(ExecutionOk {
-                                    routing_key,
-                                    output,
-                                })
-                            )?;
+                            // The task must not be settled before its outcome has been published:
+                            // if this worker disappears in between, nobody else would execute it.
+                            self.dispatch_ok(ExecutionOk {
+                                routing_key,
+                                output,
+                            })
+                            .await?;
+                            acker.ack().await?;
                         }
                         Err(err) => {
                             error!(routing_key = %routing_key, "execution error: {err:?}");
@@ -814,14 +815,13 @@ impl WorkerRuntime {
                                 mark_terminated(&terminated_jobs, routing_key.clone());
                             }
 
-                            try_join!(
-                                acker.nack(),
-                                self.dispatch_fatal(ExecutionErr {
-                                    routing_key,
-                                    strategy: err.fatal_strategy(),
-                                    err,
-                                })
-                            )?;
+                            self.dispatch_fatal(ExecutionErr {
+                                routing_key,
+                                strategy: err.fatal_strategy(),
+                                err,
+                            })
+                            .await?;
+                            acker.nack().await?;
                         }
                     }
                 }
-- 
2.43.0


From 07283d04fbce63101d0ac9edf98ce30cec55c7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 12/24] fix: deliver only the first result of a task that is
 executed again

---
 paladin-core/src/runtime/mod.rs | 76 +++++++++++++++++++++++++++++----
 1 file changed, 68 insertions(+), 8 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index b3a0da8..b77287a 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -48,15 +48,17 @@
 //! communicate, and provides a simple interface for interacting with these
 //! channels.
 
-use std::sync::atomic::Ordering;
 use std::{
-    sync::Arc,
+    sync::{
+        atomic::{AtomicU64, Ordering},
+        Arc,
+    },
     time::{Duration, Instant},
 };
 
 use anyhow::Result;
-use dashmap::{mapref::entry::Entry, DashMap};
-use futures::{stream::BoxStream, Stream, StreamExt};
+use dashmap::{mapref::entry::Entry, DashMap, DashSet};
+use futures::{stream::BoxStream, FutureExt, Stream, StreamExt};
 use serde::{Deserialize, Serialize};
 use tokio::{select, task::JoinHandle, try_join};
 use tracing::{debug, debug_span, error, instrument, trace, warn, Instrument};
@@ -218,6 +220,7 @@ impl Runtime {
     #[instrument(skip_all, level = "debug")]
     async fn get_task_sender<'a, Op: Operation + 'a, Metadata: Serializable + 'a>(
         &self,
+        in_flight: Arc<InFlightTasks>,
     ) -> Result<Sender<'a, Task<'a, Op, Metadata>>> {
         // Get a publisher for the task channel, which accepts `AnyTask`.
         let sender = self.task_channel.sender::<AnyTask>().await?;
@@ -225,8 +228,9 @@ impl Runtime {
         // Transform the sender to accept typed `Task`s by serializing them into
         // `AnyTask`s on behalf of the caller. This allows the caller to pass in
         // a typed `Task` without having to worry about serialization.
-        let transformed_sender =
-            sender.with(move |task: &Task<'_, Op, Metadata>| task.as_any_task(serializer));
+        let transformed_sender = sender.with(move |task: &Task<'_, Op, Metadata>| {
+            in_flight.tag(task.as_any_task(serializer)?)
+        });
 
         Ok(Box::new(transformed_sender))
     }
@@ -322,10 +326,15 @@ impl Runtime {
     >(
         &self,
     ) -> Result<CoordinatedTaskChannel<'a, Op, Metadata>> {
+        // A task may be executed more than once if its worker disappears before
+        // acknowledging it. Keep track of the tasks, such that only the first result of
+        // each is delivered.
+        let in_flight = Arc::new(InFlightTasks::default());
+
         // Issue a new channel and return its identifier paired with a stream of
         // results.
         let (task_sender, (result_channel_identifier, result_channel)) = try_join!(
-            self.get_task_sender(),
+            self.get_task_sender(in_flight.clone()),
             self.channel_factory.issue(ChannelType::ExactlyOnce)
         )?;
 
@@ -335,7 +344,23 @@ impl Runtime {
         let receiver = result_channel
             .receiver::<AnyTaskResult>()
             .await?
-            .map(move |(result, acker)| (result.into_task_result::<Op, Metadata>(), acker));
+            .filter_map(move |(result, acker)| {
+                let result = in_flight.settle(result).transpose();
+                async move {
+                    match result {
+                        Some(result) => Some((
+                            result.and_then(AnyTaskResult::into_task_result::<Op, Metadata>),
+                            acker,
+                        )),
+                        // Another execution of the task has already delivered its result.
+                        None => {
+                            _ = acker.ack().await;
+                            None
+                        }
+                    }
+                }
+                .boxed()
+            });
 
         // Enable coordination between the task and result channels.
         let (sender, receiver) = coordinated_channel(task_sender, receiver);
@@ -379,6 +404,41 @@ impl Runtime {
     }
 }
 
+/// The tasks of a leased channel whose result hasn't been received.
+///
+/// Each task carries an identifier next to its metadata, which is part of its
+/// result.
+#[derive(Default)]
+struct InFlightTasks {
+    next_id: AtomicU64,
+    ids: DashSet<u64>,
+}
+
+impl InFlightTasks {
+    /// Tag the given task and keep track of it.
+    fn tag(&self, mut task: AnyTask) -> Result<AnyTask> {
+        let id = self.next_id.fetch_add(1, Ordering::SeqCst);
+        task.metadata = task.serializer.to_bytes(&(id, task.metadata))?;
+        self.ids.insert(id);
+
+        Ok(task)
+    }
+
+    /// Restore the metadata of the given result. Returns [`None`] if a result
+    /// of the same task has been received before.
+    fn settle(&self, result: AnyTaskResult) -> Result<Option<AnyTaskResult>> {
+        match result {
+            AnyTaskResult::Ok(mut output) => {
+                let (id, metadata) = output.serializer.from_bytes(&output.metadata)?;
+                output.metadata = metadata;
+
+                Ok(self.ids.remove(&id).map(|_| AnyTaskResult::Ok(output)))
+            }
+            failure => Ok(Some(failure)),
+        }
+    }
+}
+
 /// Drop the worker emulator when the runtime is dropped.
 impl Drop for Runtime {
     fn drop(&mut self) {
-- 
2.43.0


From c9d9c102bda78af4e05420f976174d314e1691b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:38 +0000
Subject: [PATCH 13/24] fix: reject messages that can't be deserialized instead
 of stalling their consumer

---
 paladin-core/src/queue/amqp.rs | 41 +++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index df16277..408ea21 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -45,13 +45,13 @@
 use std::{
     pin::Pin,
     sync::Arc,
-    task::{Context, Poll},
+    task::{ready, Context, Poll},
 };
 
 use anyhow::Result;
 use async_trait::async_trait;
 use dashmap::{mapref::entry::Entry, DashMap};
-use futures::Stream;
+use futures::{future::BoxFuture, FutureExt, Stream};
 use lapin::{options::QueueDeleteOptions, types::FieldTable, ExchangeKind};
 use pin_project::pin_project;
 use tracing::{error, instrument};
@@ -495,6 +495,7 @@ impl QueueHandle for AMQPQueueHandle {
 
         Ok(AMQPConsumer {
             inner: consumer,
+            rejecting: None,
             serializer: self.serializer,
             _phantom: std::marker::PhantomData,
         })
@@ -505,6 +506,8 @@ impl QueueHandle for AMQPQueueHandle {
 pub struct AMQPConsumer<PayloadTarget> {
     #[pin]
     inner: lapin::Consumer,
+    // The pending rejection of a message that can't be deserialized.
+    rejecting: Option<BoxFuture<'static, lapin::Result<()>>>,
     serializer: Serializer,
     _phantom: std::marker::PhantomData<PayloadTarget>,
 }
@@ -513,25 +516,31 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
     type Item = (PayloadTarget, AMQPAcker);
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        let this = self.project();
-        match this.inner.poll_next(cx) {
-            Poll::Ready(Some(Ok(delivery))) => {
-                let payload = this.serializer.from_bytes(&delivery.data);
-                match payload {
-                    Ok(payload) => Poll::Ready(Some((payload, AMQPAcker { delivery }))),
+        let mut this = self.project();
+        loop {
+            if let Some(rejecting) = this.rejecting {
+                if let Err(err) = ready!(rejecting.poll_unpin(cx)) {
+                    error!("Error rejecting message, error: {err}");
+                }
+                *this.rejecting = None;
+            }
+
+            match ready!(this.inner.as_mut().poll_next(cx)) {
+                Some(Ok(delivery)) => match this.serializer.from_bytes(&delivery.data) {
+                    Ok(payload) => return Poll::Ready(Some((payload, AMQPAcker { delivery }))),
                     Err(err) => {
                         error!("Error deserializing message, error: {err}");
-                        Poll::Pending
+                        // Settle the message, such that it doesn't hold up the messages behind
+                        // it. Nobody will be able to deserialize it, so don't requeue it either.
+                        *this.rejecting =
+                            Some(async move { delivery.reject(Default::default()).await }.boxed());
                     }
+                },
+                Some(Err(err)) => {
+                    error!("Error receiving message, error: {err}");
                 }
+                None => return Poll::Ready(None),
             }
-            Poll::Ready(Some(Err(err))) => {
-                let err = anyhow::Error::from(err);
-                error!("Error receiving message, error: {err}",);
-                Poll::Pending
-            }
-            Poll::Ready(None) => Poll::Ready(None),
-            Poll::Pending => Poll::Pending,
         }
     }
 }
-- 
2.43.0


From d4ce49ee261e760cec582c97bdb9f8fc9446b8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:38 +0000
Subject: [PATCH 14/24] fix: report unknown operations instead of panicking

---
 paladin-core/src/task/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/task/mod.rs b/paladin-core/src/task/mod.rs
index 780f81d..9676756 100644
--- a/paladin-core/src/task/mod.rs
+++ b/paladin-core/src/task/mod.rs
@@ -12,7 +12,7 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     __private::OPERATIONS,
-    operation::Operation,
+    operation::{FatalError, FatalStrategy, Operation},
     serializer::{Serializable, Serializer},
     AbortSignal,
 };
@@ -166,6 +166,13 @@ impl AnyTask {
         self,
         abort: AbortSignal,
     ) -> crate::operation::Result<AnyTaskOutput> {
-        OPERATIONS[self.operation_id as usize](self, abort).await
+        match OPERATIONS.get(self.operation_id as usize) {
+            Some(execute) => execute(self, abort).await,
+            None => Err(FatalError::from_str(
+                &format!("unknown operation: {}", self.operation_id),
+                FatalStrategy::default(),
+            )
+            .into()),
+        }
     }
 }
-- 
2.43.0


From d04fbacc3c236bd0382b7231d4c8e0c1f2ea9725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:29 +0000
Subject: [PATCH 15/24] fix: deliver a broadcast to each consumer instead of
 one of them

---
 paladin-core/src/queue/amqp.rs | 56 ++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index 408ea21..9f264c1 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -203,24 +203,6 @@ impl AMQPConnection {
             )
             .await?;
 
-        self.channel
-            .queue_declare(
-                name,
-                options.into_queue_declare_options(),
-                options.into_declare_arguments(),
-            )
-            .await?;
-
-        self.channel
-            .queue_bind(
-                name,
-                name,
-                "", // Routing key is ignored in fanout exchanges
-                Default::default(),
-                Default::default(),
-            )
-            .await?;
-
         Ok(AMQPQueueHandle {
             channel: self.channel.clone(),
             name: name.to_string(),
@@ -325,6 +307,38 @@ impl Connection for AMQPConnection {
 }
 
 impl AMQPQueueHandle {
+    /// Declare the queue of a single consumer of a broadcast.
+    ///
+    /// The messages of a queue are distributed among its consumers. Each
+    /// consumer needs a queue of its own to receive all of them.
+    async fn declare_broadcast_queue(&self, consumer_name: &str) -> Result<String> {
+        let queue_name = format!("{}.{}", self.name, consumer_name);
+
+        self.channel
+            .queue_declare(
+                &queue_name,
+                lapin::options::QueueDeclareOptions {
+                    // Nobody else is going to consume the queue.
+                    auto_delete: matches!(self.options.durability, QueueDurability::NonDurable),
+                    ..self.options.into_queue_declare_options()
+                },
+                self.options.into_declare_arguments(),
+            )
+            .await?;
+
+        self.channel
+            .queue_bind(
+                &queue_name,
+                &self.name,
+                "", // Routing key is ignored in fanout exchanges
+                Default::default(),
+                Default::default(),
+            )
+            .await?;
+
+        Ok(queue_name)
+    }
+
     async fn publish_broadcast<PayloadTarget: Serializable>(
         &self,
         payload: &PayloadTarget,
@@ -483,10 +497,14 @@ impl QueueHandle for AMQPQueueHandle {
         &self,
         consumer_name: &str,
     ) -> Result<Self::Consumer<PayloadTarget>> {
+        let queue_name = match self.options.syndication_mode {
+            SyndicationMode::ExactlyOnce => self.name.clone(),
+            SyndicationMode::Broadcast => self.declare_broadcast_queue(consumer_name).await?,
+        };
         let consumer = self
             .channel
             .basic_consume(
-                &self.name,
+                &queue_name,
                 consumer_name,
                 Default::default(),
                 Default::default(),
-- 
2.43.0


From 19dd75dac1e4aad9595a20d6df3c18c159680ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:06 +0000
Subject: [PATCH 16/24] fix: fail directives and workers whose connection is
 lost instead of leaving them hanging

---
 .../coordinated_channel/coordinated_stream.rs | 21 ++++------
 .../src/channel/coordinated_channel/mod.rs    |  2 +-
 paladin-core/src/runtime/mod.rs               | 42 +++++++++++++++----
 3 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index 239567c..09c5299 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -59,6 +59,11 @@ impl<S: Stream> CoordinatedStream<S> {
     pub fn new(inner: S, state: Arc<ChannelState>) -> Self {
         Self { inner, state }
     }
+
+    /// The state shared with the sending end.
+    pub(crate) fn state(&self) -> Arc<ChannelState> {
+        self.state.clone()
+    }
 }
 
 /// Message acknowledgement handle.
@@ -140,18 +145,10 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
                 // Otherwise, return pending.
                 Poll::Pending
             }
-            // Likely unreachable because the expectation is that we're dealing with unbounded
-            // senders, which will never implicitly terminate, but return `None` if the
-            // inner stream is closed and there are no pending sends. Otherwise, return
-            // pending as there are pending sends.
-            Poll::Ready(None) => {
-                this.state.receiver.register(cx.waker());
-                if this.state.num_pending_sends.load(Ordering::SeqCst) == 0 {
-                    Poll::Ready(None)
-                } else {
-                    Poll::Pending
-                }
-            }
+            // The expectation is that we're dealing with unbounded senders, which don't terminate
+            // unless the connection to them is lost. Nothing is going to be received any more,
+            // even if there are pending sends.
+            Poll::Ready(None) => Poll::Ready(None),
         }
     }
 }
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index d746087..737665e 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -68,7 +68,7 @@ impl ChannelState {
     ///
     /// Sends are counted before the publisher checks for closure, so `closed`
     /// must be read first: no further send can succeed once it is set.
-    fn is_finished(&self) -> bool {
+    pub(crate) fn is_finished(&self) -> bool {
         self.closed.load(Ordering::SeqCst) && self.num_pending_sends.load(Ordering::SeqCst) == 0
     }
 }
diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index b77287a..75b06f1 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -56,16 +56,20 @@ use std::{
     time::{Duration, Instant},
 };
 
-use anyhow::Result;
+use anyhow::{anyhow, Context, Result};
 use dashmap::{mapref::entry::Entry, DashMap, DashSet};
-use futures::{stream::BoxStream, FutureExt, Stream, StreamExt};
+use futures::{
+    future,
+    stream::{self, BoxStream},
+    FutureExt, Stream, StreamExt,
+};
 use serde::{Deserialize, Serialize};
 use tokio::{select, task::JoinHandle, try_join};
 use tracing::{debug, debug_span, error, instrument, trace, warn, Instrument};
 
 use self::dynamic_channel::{DynamicChannel, DynamicChannelFactory};
 use crate::{
-    acker::{Acker, ComposedAcker},
+    acker::{Acker, ComposedAcker, NoopAcker},
     channel::{
         coordinated_channel::coordinated_channel, Channel, ChannelFactory, ChannelType, LeaseGuard,
     },
@@ -364,6 +368,7 @@ impl Runtime {
 
         // Enable coordination between the task and result channels.
         let (sender, receiver) = coordinated_channel(task_sender, receiver);
+        let state = receiver.state();
 
         // The stream returned by `coordinated_channel` has its own `Acker` that is used
         // to keep track of the number of successfully processed results. This
@@ -373,14 +378,27 @@ impl Runtime {
         // ack the coordinated Stream if it is successful. This prevents
         // out-of-sync issues where the `CoordinatedStream` removes a pending send from
         // its state, but the original message failed to ack.
-        let ack_composed_receiver =
-            receiver.map(|((result, original_acker), coordinated_acker)| {
+        let ack_composed_receiver = receiver
+            .map(|((result, original_acker), coordinated_acker)| {
                 (
                     result,
                     Box::new(ComposedAcker::new(original_acker, coordinated_acker))
                         as Box<dyn Acker>,
                 )
-            });
+            })
+            // The results must not appear to be complete if their channel terminates early, e.g.,
+            // because the connection is lost.
+            .chain(
+                stream::once(future::lazy(move |_| {
+                    (!state.is_finished()).then(|| {
+                        (
+                            Err(anyhow!("result channel terminated unexpectedly")),
+                            Box::new(NoopAcker::new()) as Box<dyn Acker>,
+                        )
+                    })
+                }))
+                .filter_map(future::ready),
+            );
 
         Ok((
             result_channel_identifier,
@@ -830,7 +848,10 @@ impl WorkerRuntime {
                 let routing_key = routing_key.clone();
                 async move {
                     loop {
-                        ipc_sig_term_rx.changed().await.expect("IPC channel closed");
+                        ipc_sig_term_rx
+                            .changed()
+                            .await
+                            .context("command channel closed")?;
                         let received_key = ipc_sig_term_rx.borrow().clone();
                         debug!(routing_key = %routing_key, received_key = %received_key,
                             "received IPC termination signal");
@@ -838,7 +859,7 @@ impl WorkerRuntime {
                         if received_key == COMMAND_IPC_ABORT_ALL_KEY {
                             warn!(routing_key = %routing_key, "worker abort signal received");
                             abort_worker_execution.store(true, Ordering::SeqCst);
-                            return true;
+                            return Ok::<_, anyhow::Error>(());
                         }
                     }
                 }
@@ -849,7 +870,10 @@ impl WorkerRuntime {
             // worker cannot miss it by completing its tasks quickly.
             select! {
                 biased;
-                _ = ipc_sig_term => {
+                sig_term = ipc_sig_term => {
+                    // Without commands, this worker couldn't be stopped any more. Leave the task to
+                    // another worker.
+                    sig_term?;
                     _ = acker.nack().await;
                     // Give time to the execution_task to finish gracefully on abort signal before shutting down.
                     tokio::time::sleep(ABORT_SIGNAL_SHUTDOWN_INTERVAL).await;
-- 
2.43.0


From 5ba823deb83676a167c95ccc6bf807b55c39b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:22 +0000
Subject: [PATCH 17/24] fix: do not block the other deletions of queues of a
 connection

---
 paladin-core/src/queue/amqp.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index 9f264c1..cc8ad5a 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -50,7 +50,7 @@ use std::{
 
 use anyhow::Result;
 use async_trait::async_trait;
-use dashmap::{mapref::entry::Entry, DashMap};
+use dashmap::DashMap;
 use futures::{future::BoxFuture, FutureExt, Stream};
 use lapin::{options::QueueDeleteOptions, types::FieldTable, ExchangeKind};
 use pin_project::pin_project;
@@ -290,18 +290,12 @@ impl Connection for AMQPConnection {
     }
 
     async fn delete_queue(&self, name: &str) -> Result<()> {
-        match self.queue_options.entry(name.to_string()) {
-            Entry::Occupied(options) => {
-                match options.get().syndication_mode {
-                    SyndicationMode::ExactlyOnce => self.delete_single(name).await?,
-                    SyndicationMode::Broadcast => self.delete_broadcast(name).await?,
-                };
-
-                options.remove();
-
-                Ok(())
+        // Don't hold on to the entry, as it would block other deletions.
+        match self.queue_options.remove(name) {
+            Some((_, options)) if options.syndication_mode == SyndicationMode::ExactlyOnce => {
+                self.delete_single(name).await
             }
-            Entry::Vacant(_) => self.delete_broadcast(name).await,
+            _ => self.delete_broadcast(name).await,
         }
     }
 }
-- 
2.43.0


From d1de5f3498ed1918cc460756120fd6cd6a917460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 18/24] fix: release channels that are dropped outside of the
 runtime

---
 paladin-core/src/channel/queue.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/paladin-core/src/channel/queue.rs b/paladin-core/src/channel/queue.rs
index 6afdf1a..f81848c 100644
--- a/paladin-core/src/channel/queue.rs
+++ b/paladin-core/src/channel/queue.rs
@@ -88,6 +88,7 @@
 
 use anyhow::Result;
 use async_trait::async_trait;
+use tokio::runtime::Handle;
 
 use crate::{
     channel::{Channel, ChannelFactory, ChannelType},
@@ -135,6 +136,8 @@ impl<Conn> QueueChannelFactory<Conn> {
 #[derive(Clone)]
 pub struct QueueChannel<Conn> {
     connection: Conn,
+    // The channel may be released outside of the runtime it is used in.
+    runtime: Option<Handle>,
     identifier: String,
     channel_type: ChannelType,
 }
@@ -183,9 +186,12 @@ impl<
         let conn = self.connection.clone();
         let identifier = self.identifier.clone();
 
-        tokio::spawn(async move {
-            _ = conn.delete_queue(&identifier).await;
-        });
+        let runtime = Handle::try_current().ok().or(self.runtime.clone());
+        if let Some(runtime) = runtime {
+            runtime.spawn(async move {
+                _ = conn.delete_queue(&identifier).await;
+            });
+        }
     }
 }
 
@@ -200,6 +206,7 @@ where
     async fn get(&self, identifier: String, channel_type: ChannelType) -> Result<Self::Channel> {
         Ok(QueueChannel {
             connection: self.connection.clone(),
+            runtime: Handle::try_current().ok(),
             identifier,
             channel_type,
         })
@@ -213,6 +220,7 @@ where
             identifier.clone(),
             QueueChannel {
                 connection: self.connection.clone(),
+                runtime: Handle::try_current().ok(),
                 identifier,
                 channel_type,
             },
-- 
2.43.0


From cfe5a06c9bbc8ec86d22d33c6672af000259953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:38 +0000
Subject: [PATCH 19/24] fix: release the result channel of a lease that is
 cancelled

---
 paladin-core/src/channel/mod.rs | 8 ++++++++
 paladin-core/src/runtime/mod.rs | 5 ++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/channel/mod.rs b/paladin-core/src/channel/mod.rs
index ab503d4..b3e16d5 100644
--- a/paladin-core/src/channel/mod.rs
+++ b/paladin-core/src/channel/mod.rs
@@ -118,6 +118,14 @@ impl<C: Channel, Pipe> LeaseGuard<C, Pipe> {
             channel: Some(channel),
         }
     }
+
+    /// Replace the embedded pipe, without releasing the channel.
+    pub fn with_pipe<P>(mut self, pipe: P) -> LeaseGuard<C, P> {
+        LeaseGuard {
+            pipe,
+            channel: self.channel.take(),
+        }
+    }
 }
 
 #[pinned_drop]
diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 75b06f1..2125d7a 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -342,6 +342,9 @@ impl Runtime {
             self.channel_factory.issue(ChannelType::ExactlyOnce)
         )?;
 
+        // Release the channel even if this is cancelled before a receiver is available.
+        let lease = LeaseGuard::new(result_channel.clone(), ());
+
         // Transform the stream to deserialize the results into typed `TaskResult`s on
         // behalf of the caller. This allows the caller to receive typed
         // `TaskResult`s without having to worry about deserialization.
@@ -404,7 +407,7 @@ impl Runtime {
             result_channel_identifier,
             Box::new(sender),
             // Wrap the stream in a `LeaseGuard` that will release the channel once dropped.
-            LeaseGuard::new(result_channel, Box::new(ack_composed_receiver)),
+            lease.with_pipe(Box::new(ack_composed_receiver)),
         ))
     }
 
-- 
2.43.0


From b481fa446f72a68728637c201c55202be7e01f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:55 +0000
Subject: [PATCH 20/24] Restore Cargo.lock, which an earlier commit changed
 incidentally

---
 Cargo.lock | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cargo.lock b/Cargo.lock
index 32b4b32..cc8b417 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1408,7 +1408,7 @@ dependencies = [
 
 [[package]]
 name = "paladin-core"
-version = "0.4.4"
+version = "0.4.3"
 dependencies = [
  "anyhow",
  "async-trait",
-- 
2.43.0


From 668103a36422bf25d81f7ab9440c278408203dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:30 +0000
Subject: [PATCH 21/24] fix: settling a message waited forever when its
 connection was lost in between

lapin's acker hands the settlement over to the task that drives the connection. If the connection
fails before that task has taken it, the settlement is never answered and the worker's main loop, or
the directive acknowledging a result, hangs.
---
 paladin-core/src/queue/amqp.rs | 62 +++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index cc8ad5a..cf871f0 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -44,11 +44,14 @@
 //! ```
 use std::{
     pin::Pin,
-    sync::Arc,
+    sync::{
+        atomic::{AtomicBool, Ordering},
+        Arc,
+    },
     task::{ready, Context, Poll},
 };
 
-use anyhow::Result;
+use anyhow::{bail, Result};
 use async_trait::async_trait;
 use dashmap::DashMap;
 use futures::{future::BoxFuture, FutureExt, Stream};
@@ -507,6 +510,7 @@ impl QueueHandle for AMQPQueueHandle {
 
         Ok(AMQPConsumer {
             inner: consumer,
+            channel: self.channel.clone(),
             rejecting: None,
             serializer: self.serializer,
             _phantom: std::marker::PhantomData,
@@ -518,6 +522,7 @@ impl QueueHandle for AMQPQueueHandle {
 pub struct AMQPConsumer<PayloadTarget> {
     #[pin]
     inner: lapin::Consumer,
+    channel: lapin::Channel,
     // The pending rejection of a message that can't be deserialized.
     rejecting: Option<BoxFuture<'static, lapin::Result<()>>>,
     serializer: Serializer,
@@ -539,13 +544,29 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
 
             match ready!(this.inner.as_mut().poll_next(cx)) {
                 Some(Ok(delivery)) => match this.serializer.from_bytes(&delivery.data) {
-                    Ok(payload) => return Poll::Ready(Some((payload, AMQPAcker { delivery }))),
+                    Ok(payload) => {
+                        return Poll::Ready(Some((
+                            payload,
+                            AMQPAcker {
+                                channel: this.channel.clone(),
+                                delivery_tag: delivery.delivery_tag,
+                                settled: AtomicBool::new(false),
+                            },
+                        )))
+                    }
                     Err(err) => {
                         error!("Error deserializing message, error: {err}");
                         // Settle the message, such that it doesn't hold up the messages behind
                         // it. Nobody will be able to deserialize it, so don't requeue it either.
-                        *this.rejecting =
-                            Some(async move { delivery.reject(Default::default()).await }.boxed());
+                        let channel = this.channel.clone();
+                        *this.rejecting = Some(
+                            async move {
+                                channel
+                                    .basic_reject(delivery.delivery_tag, Default::default())
+                                    .await
+                            }
+                            .boxed(),
+                        );
                     }
                 },
                 Some(Err(err)) => {
@@ -559,17 +580,42 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
 
 #[derive(Debug)]
 /// An acker for an AMQP consumer.
+///
+/// The messages are settled through their channel. The acker of `lapin` hands
+/// the settlement over to the task that drives the connection, and waits
+/// forever if the connection is lost before that task has taken it.
 pub struct AMQPAcker {
-    delivery: lapin::message::Delivery,
+    channel: lapin::Channel,
+    delivery_tag: lapin::types::DeliveryTag,
+    settled: AtomicBool,
+}
+
+impl AMQPAcker {
+    /// Settling a message twice is an error that the broker answers by closing
+    /// the channel.
+    fn settle(&self) -> Result<()> {
+        if self.settled.swap(true, Ordering::SeqCst) {
+            bail!("message has already been settled");
+        }
+        Ok(())
+    }
 }
 
 #[async_trait]
 impl Acker for AMQPAcker {
     async fn ack(&self) -> Result<()> {
-        Ok(self.delivery.ack(Default::default()).await?)
+        self.settle()?;
+        Ok(self
+            .channel
+            .basic_ack(self.delivery_tag, Default::default())
+            .await?)
     }
 
     async fn nack(&self) -> Result<()> {
-        Ok(self.delivery.nack(Default::default()).await?)
+        self.settle()?;
+        Ok(self
+            .channel
+            .basic_nack(self.delivery_tag, Default::default())
+            .await?)
     }
 }
-- 
2.43.0


From 5c4b735a7169248d7c1f98e5e17c5a2fedfe63db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:07 +0000
Subject: [PATCH 22/24] fix: do not report a finished result channel as
 terminated

A publication that fails because its channel is closed is counted as pending for a moment. If it was
counted just after the results had ended, they were reported as terminated unexpectedly.
---
 paladin-core/src/channel/coordinated_channel/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index 737665e..175f1ea 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -32,6 +32,8 @@ pub struct ChannelState {
     closed: AtomicBool,
     /// The number of pending sends.
     num_pending_sends: AtomicUsize,
+    /// Whether the channel was found to be finished.
+    finished: AtomicBool,
     /// The task waiting on the receiving end, if any.
     receiver: AtomicWaker,
 }
@@ -67,9 +69,15 @@ impl ChannelState {
     /// Whether the channel is closed and all of its sends are settled.
     ///
     /// Sends are counted before the publisher checks for closure, so `closed`
-    /// must be read first: no further send can succeed once it is set.
+    /// must be read first: no further send can succeed once it is set. Sends that
+    /// fail for that reason are still counted for a moment, but a finished channel
+    /// remains finished.
     pub(crate) fn is_finished(&self) -> bool {
-        self.closed.load(Ordering::SeqCst) && self.num_pending_sends.load(Ordering::SeqCst) == 0
+        if self.closed.load(Ordering::SeqCst) && self.num_pending_sends.load(Ordering::SeqCst) == 0
+        {
+            self.finished.store(true, Ordering::SeqCst);
+        }
+        self.finished.load(Ordering::SeqCst)
     }
 }
 
-- 
2.43.0


From 67e2b40e5759f27edbf4959063adb2208f487f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:53 +0000
Subject: [PATCH 23/24] fix: make routing keys long enough not to collide

Five characters leave 916 million keys. Two consumers or channels that get
the same one take each other's messages: a directive whose stages were given
the same consumer tag never ended.
---
 paladin-core/src/common/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/common/mod.rs b/paladin-core/src/common/mod.rs
index bf2e1c4..20432cb 100644
--- a/paladin-core/src/common/mod.rs
+++ b/paladin-core/src/common/mod.rs
@@ -1,9 +1,16 @@
 use rand::{distributions::Alphanumeric, Rng};
 
+/// The length of a random routing key.
+///
+/// The keys tell apart the channels and consumers of everybody that uses the
+/// same broker, who don't coordinate. They must be long enough not to collide
+/// by chance.
+const ROUTING_KEY_LENGTH: usize = 20;
+
 pub fn get_random_routing_key() -> String {
     rand::thread_rng()
         .sample_iter(&Alphanumeric)
-        .take(5)
+        .take(ROUTING_KEY_LENGTH)
         .map(char::from)
         .collect()
 }
-- 
2.43.0


From 6d28e401523ffc093c32997d1a31e280e7c3bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:51 +0000
Subject: [PATCH 24/24] fix: remove an import that the fix of the retries left
 unused

---
 paladin-core/src/operation/error.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/paladin-core/src/operation/error.rs b/paladin-core/src/operation/error.rs
index 2e4e2fa..d31fd2a 100644
--- a/paladin-core/src/operation/error.rs
+++ b/paladin-core/src/operation/error.rs
@@ -14,7 +14,6 @@ use std::{num::NonZeroU32, time::Duration};
 
 use futures::{Future, FutureExt};
 use thiserror::Error;
-use tracing::error;
 
 /// A retry strategy for handling transient errors.
 ///
-- 
2.43.0

