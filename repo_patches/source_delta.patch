From 980da218cb52a2bacf420e47a180ae3e163e7cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 01/15] fix: TrySendError/SendTimeoutError::is_closed report
 the closed case

Both matched the other variant (Full / Timeout), so they returned true for
exactly the errors that do not mean the channel is closed.
---
 src/mpsc/errors.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpsc/errors.rs b/src/mpsc/errors.rs
index a41df34..b4b127c 100644
--- a/src/mpsc/errors.rs
+++ b/src/mpsc/errors.rs
@@ -141,7 +141,7 @@ impl<T> SendTimeoutError<T> {
     /// [`send`]: super::blocking::Sender::send
     /// [`Receiver`]: super::blocking::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Timeout(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
@@ -208,7 +208,7 @@ impl<T> TrySendError<T> {
     /// [`send`]: super::Sender::send
     /// [`Receiver`]: super::Receiver
     pub fn is_closed(&self) -> bool {
-        matches!(self, Self::Full(_))
+        matches!(self, Self::Closed(_))
     }
 
     /// Unwraps the inner `T` value held by this error.
-- 
2.43.0


From ef8aadd3d04191457ad394e42e84b25d71db0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:18 +0000
Subject: [PATCH 02/15] fix: Receiver::is_closed is only true once every sender
 is gone

The sender count starts at 1 for the first sender, so '<= 1' reported a
channel with one live sender as closed.
---
 src/mpsc/async_impl.rs | 4 ++--
 src/mpsc/blocking.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index 9f3431b..da198ed 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -579,7 +579,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1284,7 +1284,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index cb6f037..5e97d80 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -873,7 +873,7 @@ feature! {
         /// If this method returns `true`, no new messages will become available
         /// on this channel. Previously sent messages may still be available.
         pub fn is_closed(&self) -> bool {
-            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) <= 1
+            test_dbg!(self.core.tx_count.load(Ordering::SeqCst)) == 0
         }
     }
 
@@ -1559,7 +1559,7 @@ impl<T, R> Receiver<T, R> {
     /// If this method returns `true`, no new messages will become available
     /// on this channel. Previously sent messages may still be available.
     pub fn is_closed(&self) -> bool {
-        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) <= 1
+        test_dbg!(self.inner.core.tx_count.load(Ordering::SeqCst)) == 0
     }
 }
 
-- 
2.43.0


From cc4fc4e81643bb42077c3a862c00266640e99f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:07 +0000
Subject: [PATCH 03/15] fix: close the channel when a handle is dropped while
 panicking

Core::close did nothing when the current thread was unwinding, so a panic in
the last sender's (or the receiver's) thread left the other side waiting
forever. Only loom models need that exemption.
---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 228ffe8..506f315 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -167,7 +167,10 @@ impl Core {
 
     fn close(&self) -> bool {
         test_println!("Core::close");
-        if crate::util::panic::panicking() {
+        // Don't touch the loom atomics while unwinding out of a loom model. In
+        // every other build, handles dropped by a panicking thread must still
+        // close the channel, or the other side would wait forever.
+        if cfg!(all(loom, test)) && crate::util::panic::panicking() {
             return false;
         }
         test_dbg!(self.tail.fetch_or(self.closed, SeqCst) & self.closed == 0)
-- 
2.43.0


From 13c85698f3c89e943b71d0cdf9a7f278f500ba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:44 +0000
Subject: [PATCH 04/15] fix: push_ref/pop_ref must not spin forever on a slot
 held by a Ref

When the ring wraps around onto a slot whose Ref is still held (possibly by
the calling thread), push_ref and pop_ref spun until it was released. Report
Full (or Empty/Closed) instead, as documented for the non-blocking methods;
waiting senders are notified when the Ref is dropped.
---
 src/lib.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 506f315..91fd96e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -260,7 +260,12 @@ impl Core {
                 }
             }
 
-            if test_dbg!(state.wrapping_add(self.gen) == tail + 1) {
+            // If the slot is one lap behind the tail index, it is still in use:
+            // either its element has not been popped yet (or is being popped),
+            // or the `push_ref` that claimed it in the previous lap has not
+            // completed.
+            let slot_gen = state.wrapping_add(self.gen);
+            if test_dbg!(slot_gen == tail + 1 || slot_gen == tail) {
                 // fake RMW op to placate loom. this should be equivalent to
                 // doing a relaxed load after a SeqCst fence (per Godbolt
                 // https://godbolt.org/z/zb15qfEa9), however, loom understands
@@ -274,6 +279,13 @@ impl Core {
                     return Err(TrySendError::Full(()));
                 }
 
+                // The head index has moved past the slot, but the `Ref` to the
+                // popped element has not been released. It may be held for any
+                // length of time (even by this thread), so don't spin forever.
+                if test_dbg!(backoff.done_spinning()) {
+                    return Err(TrySendError::Full(()));
+                }
+
                 backoff.spin();
             } else {
                 backoff.spin_yield();
@@ -337,7 +349,11 @@ impl Core {
                 }
             }
 
-            if test_dbg!(state == head) {
+            // If the slot's state is equal to the head index, it has not been
+            // pushed to in this lap; if it is one lap behind a popped slot, the
+            // `Ref` from the previous lap's `pop_ref` is still held, so it has
+            // not been pushed to either.
+            if test_dbg!(state == head || state.wrapping_add(self.gen) == head + 1) {
                 // fake RMW op to placate loom. this should be equivalent to
                 // doing a relaxed load after a SeqCst fence (per Godbolt
                 // https://godbolt.org/z/zb15qfEa9), however, loom understands
-- 
2.43.0


From 08f12b87d59043d92701655903ad6057cfba7a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:50 +0000
Subject: [PATCH 05/15] fix: reject zero-capacity static buffers and channels

StaticThingBuf<T, 0> and StaticChannel<T, 0> could be constructed, and pushing
to them indexed an empty array with get_unchecked. The dynamically sized
constructors already assert this.
---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 91fd96e..06a25e3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -106,6 +106,8 @@ struct Slot<T> {
 impl Core {
     #[cfg(not(all(loom, test)))]
     const fn new(capacity: usize) -> Self {
+        // A ring buffer without any slots has no valid index.
+        assert!(capacity > 0, "capacity must be greater than zero");
         let closed = (capacity + 1).next_power_of_two();
         let idx_mask = closed - 1;
         let gen = closed << 1;
-- 
2.43.0


From 7e8e1b4ebdb61f6127531ec2dca0d8a891b49e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:54 +0000
Subject: [PATCH 06/15] fix: correct the bounds of the unsafe Sync impls for
 Slot and Ref

Sharing a queue moves elements between threads, so it requires T: Send (T:
Sync alone let e.g. a MutexGuard be sent to another thread). Sharing a Ref
hands out &T, so it requires T: Sync (T: Send alone let e.g. a Cell be shared).
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 06a25e3..0d58010 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -531,7 +531,7 @@ impl<T: fmt::Write> fmt::Write for Ref<'_, T> {
 }
 
 unsafe impl<T: Send> Send for Ref<'_, T> {}
-unsafe impl<T: Send> Sync for Ref<'_, T> {}
+unsafe impl<T: Sync> Sync for Ref<'_, T> {}
 
 // === impl Slot ===
 
@@ -575,7 +575,7 @@ impl<T> Slot<T> {
     }
 }
 
-unsafe impl<T: Sync> Sync for Slot<T> {}
+unsafe impl<T: Send> Sync for Slot<T> {}
 
 // === impl Full ===
 
-- 
2.43.0


From 7ba6d09aee39a7942cedaaa7f01c02dbe0cabcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:17 +0000
Subject: [PATCH 07/15] fix: don't drop slots that were never initialized

If Recycle::new_element panics, the claimed slot stays uninitialized, but
drop_slots dropped it anyway when the queue was dropped.
---
 src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0d58010..b53663b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -419,7 +419,14 @@ impl Core {
         let tail = self.tail.load(SeqCst);
         let (idx, gen) = self.idx_gen(tail);
         let num_initialized = if gen > 0 { self.capacity() } else { idx };
-        for slot in &mut slots[..num_initialized] {
+        for (idx, slot) in slots[..num_initialized].iter_mut().enumerate() {
+            // If the slot's state never advanced from its initial value, the
+            // push that first claimed it was not completed (`new_element` may
+            // have panicked), so it may not contain an initialized element.
+            if slot.state.load(SeqCst) == idx {
+                continue;
+            }
+
             unsafe {
                 slot.value
                     .with_mut(|value| ptr::drop_in_place((*value).as_mut_ptr()));
-- 
2.43.0


From db2a25351f202af2147a3eb996e7551d7b306d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:23 +0000
Subject: [PATCH 08/15] fix: dropping a StaticChannel drops its slots

StaticChannel had no Drop impl, so dropping one that is not a static hit the
'tried to drop Core without dropping slots' assertion.
---
 src/mpsc/async_impl.rs | 6 ++++++
 src/mpsc/blocking.rs   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index da198ed..ddfe26c 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -756,6 +756,12 @@ feature! {
         }
     }
 
+    impl<T, R, const CAPACITY: usize> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..]);
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 5e97d80..dd0ba86 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -240,6 +240,12 @@ feature! {
         }
     }
 
+    impl<T, R, const CAPACITY: usize> Drop for StaticChannel<T, CAPACITY, R> {
+        fn drop(&mut self) {
+            self.core.core.drop_slots(&mut self.slots[..]);
+        }
+    }
+
     // === impl StaticSender ===
 
     impl<T, R> StaticSender<T, R>
-- 
2.43.0


From 2140191f77fab587351de5bfd629fc123fbe840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 09/15] fix: don't touch a dequeued waiter after its owner can
 free it

List::dequeue updated the node's state before it was done with the node. The
owner reads that state without the lock, and may return (or be dropped) and
deallocate the node while it is still being accessed.
---
 src/wait/queue.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index f820a70..afb4002 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -578,14 +578,17 @@ impl<T> List<T> {
         test_println!("List::dequeue({:?}) -> {:p}", new_state, last);
 
         let last = unsafe { last.as_mut() };
-        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
-        debug_assert_eq!(_prev_state, WAITING);
-
         let (prev, waiter) = last.with_node(self, |node| {
             node.next = None;
             (node.prev.take(), node.waiter.take())
         });
 
+        // Once the node's state is updated, its owner may observe that it was
+        // dequeued (without locking the list) and deallocate it. This must
+        // happen after we are done accessing the node.
+        let _prev_state = test_dbg!(last.state.swap(new_state, Release));
+        debug_assert_eq!(_prev_state, WAITING);
+
         match prev {
             Some(mut prev) => unsafe {
                 let _ = prev.as_mut().take_next();
-- 
2.43.0


From 846e43968f1a8ecf60a98164acbb28672f0b1b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:09 +0000
Subject: [PATCH 10/15] fix: WaitQueue::notify must not act on a stale queue
 state

notify_slow used the state read before the list was locked. If the waiters had
been woken or removed in the meantime, the notification was dropped (and a
debug assertion failed), and a sender about to wait would never be woken.
---
 src/wait/queue.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index afb4002..479a2b6 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -388,18 +388,22 @@ impl<T: Notify + Unpin> WaitQueue<T> {
 
         // Slow path: there are waiters in the queue, so we must acquire the
         // lock and wake one of them.
-        self.notify_slow(state)
+        self.notify_slow()
     }
 
     /// Slow path for `notify`: acquire the lock on the linked list, dequeue a
     /// waiter, and notify it.
     #[cold]
     #[inline(never)]
-    fn notify_slow(&self, state: usize) -> bool {
-        test_println!("WaitQueue::notify_slow(state: {})", state);
+    fn notify_slow(&self) -> bool {
+        test_println!("WaitQueue::notify_slow()");
 
         let mut list = self.list.lock();
-        match state {
+        // The state must be read after the lock is acquired: the waiters that
+        // were observed by `notify` may have been woken or removed since then,
+        // and then the notification has to be assigned to the queue instead.
+        let state = self.state.load(Acquire);
+        match test_dbg!(state) {
             EMPTY | WAKING => {
                 if let Err(actual) = self.state.compare_exchange(state, WAKING, SeqCst, SeqCst) {
                     debug_assert!(actual == EMPTY || actual == WAKING);
@@ -429,11 +433,10 @@ impl<T: Notify + Unpin> WaitQueue<T> {
                     return true;
                 }
             }
-            _weird => {
-                // huh, if `notify_slow` was called, we *probably* shouldn't be
-                // in the `closed` state...
-                #[cfg(debug_assertions)]
-                unreachable!("notify_slow: unexpected state value {:?}", _weird);
+            _state => {
+                // The queue was closed, so all the waiters are being woken
+                // already.
+                debug_assert_eq!(_state, CLOSED);
             }
         }
         false
@@ -443,8 +446,9 @@ impl<T: Notify + Unpin> WaitQueue<T> {
     pub(crate) fn close(&self) {
         test_println!("WaitQueue::close()");
 
-        test_dbg!(self.state.swap(CLOSED, SeqCst));
+        // The `WAITING` state may only be changed while holding the lock.
         let mut list = self.list.lock();
+        test_dbg!(self.state.swap(CLOSED, SeqCst));
         while !list.is_empty() {
             if let Some(waiter) = list.dequeue(CLOSED) {
                 waiter.notify();
-- 
2.43.0


From 95c1d912332af8051c079dec281583efadacb198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:48 +0000
Subject: [PATCH 11/15] fix: don't run waker code while the wait queue is
 locked

Cloning, dropping or waking a task's waker can run arbitrary code, including
dropping another send future on the same channel, which locks the queue again
and deadlocks.
---
 src/wait/queue.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 479a2b6..35c9e3b 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -211,6 +211,10 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // still open. Therefore, it's time to actually push the waiter to
         // the queue...finally lol :)
 
+        // Cloning and dropping a waiter may run arbitrary code, which must not
+        // happen while the list is locked.
+        let mut waiter = Some(waiter.clone());
+
         // Grab the lock...
         let mut list = self.list.lock();
         // Reload the queue's state, as it may have changed while we were
@@ -270,9 +274,9 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // to Waiting, and add it to the queue.
 
         node.with_node(&mut *list, |node| {
-            let _prev = node.waiter.replace(waiter.clone());
+            core::mem::swap(&mut node.waiter, &mut waiter);
             debug_assert!(
-                _prev.is_none(),
+                waiter.is_none(),
                 "start_wait_slow: called with a node that already had a waiter!"
             );
         });
@@ -328,7 +332,10 @@ impl<T: Notify + Unpin> WaitQueue<T> {
 
         // If the waiting task/thread was woken but no wakeup was assigned to
         // the node, we may need to update the node with a new waiter.
-        // Therefore, lock the queue in order to modify the node.
+        // Therefore, lock the queue in order to modify the node. The waiter is
+        // cloned before (and the one it replaces is dropped after) the list is
+        // locked, as that may run arbitrary code.
+        let mut new_waiter = Some(my_waiter.clone());
         let mut list = self.list.lock();
 
         // The node may have been woken while we were waiting to acquire the
@@ -348,13 +355,13 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         // necessary to update the waiter with a new waiter (in practice, this
         // is only necessary in async).
         node.with_node(&mut *list, |node| {
-            if let Some(ref mut waiter) = node.waiter {
-                if !waiter.same(my_waiter) {
-                    *waiter = my_waiter.clone();
-                }
-            } else {
+            let is_same = match node.waiter {
+                Some(ref waiter) => waiter.same(my_waiter),
                 // XXX(eliza): This branch should _probably_ never occur...
-                node.waiter = Some(my_waiter.clone());
+                None => false,
+            };
+            if !is_same {
+                core::mem::swap(&mut node.waiter, &mut new_waiter);
             }
         });
 
@@ -450,9 +457,13 @@ impl<T: Notify + Unpin> WaitQueue<T> {
         let mut list = self.list.lock();
         test_dbg!(self.state.swap(CLOSED, SeqCst));
         while !list.is_empty() {
-            if let Some(waiter) = list.dequeue(CLOSED) {
+            let waiter = list.dequeue(CLOSED);
+            // Waking a waiter may run arbitrary code, so release the lock.
+            drop(list);
+            if let Some(waiter) = waiter {
                 waiter.notify();
             }
+            list = self.list.lock();
         }
     }
 }
-- 
2.43.0


From b196635f2f4068f6a09fabc5378320636a2a739c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:52 +0000
Subject: [PATCH 12/15] fix: a cancelled send future must not swallow its
 notification

If a waiting send future was notified and then dropped before being polled
again, the notification was lost and another waiting sender could sleep forever
although there was capacity. Also decide whether the node is still queued while
holding the lock, rather than racing with a concurrent notification.
---
 src/mpsc/async_impl.rs |  7 +++++--
 src/wait/queue.rs      | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/mpsc/async_impl.rs b/src/mpsc/async_impl.rs
index ddfe26c..f52802a 100644
--- a/src/mpsc/async_impl.rs
+++ b/src/mpsc/async_impl.rs
@@ -1501,8 +1501,11 @@ impl<T, R> PinnedDrop for SendRefFuture<'_, T, R> {
     fn drop(self: Pin<&mut Self>) {
         test_println!("SendRefFuture::drop({:p})", self);
         let this = self.project();
-        if test_dbg!(*this.state) == State::Waiting && test_dbg!(this.waiter.is_linked()) {
-            this.waiter.remove(&this.core.tx_wait)
+        if test_dbg!(*this.state) == State::Waiting && !this.waiter.remove(&this.core.tx_wait) {
+            // This future was notified that a slot is available, but is being
+            // dropped without using it. Pass the notification on, or else
+            // another waiting sender might never be woken.
+            this.core.tx_wait.notify();
         }
     }
 }
diff --git a/src/wait/queue.rs b/src/wait/queue.rs
index 35c9e3b..b96109a 100644
--- a/src/wait/queue.rs
+++ b/src/wait/queue.rs
@@ -483,10 +483,21 @@ impl<T: Notify> Waiter<T> {
         }
     }
 
+    /// Removes this waiter from the queue, if it is still waiting.
+    ///
+    /// Returns `false` if the waiter had already been dequeued. In that case,
+    /// unless the queue was closed, it has been assigned a notification, which
+    /// must either be used or passed on to another waiter.
     #[inline(never)]
-    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>) {
+    pub(crate) fn remove(self: Pin<&mut Self>, q: &WaitQueue<T>) -> bool {
         test_println!("Waiter::remove({:p})", self);
         let mut list = q.list.lock();
+        // The node may have been dequeued while we were waiting to acquire the
+        // lock.
+        if !self.is_linked() {
+            return false;
+        }
+        test_dbg!(self.state.swap(EMPTY, Release));
         unsafe {
             // Safety: removing a node is unsafe even when the list is locked,
             // because there's no way to guarantee that the node is part of
@@ -498,6 +509,7 @@ impl<T: Notify> Waiter<T> {
         if test_dbg!(list.is_empty()) {
             let _ = test_dbg!(q.state.compare_exchange(WAITING, EMPTY, SeqCst, SeqCst));
         }
+        true
     }
 
     #[inline]
-- 
2.43.0


From 3ba716408d95abd2b9ba9be9f23c387f2381240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:21 +0000
Subject: [PATCH 13/15] fix: recv_timeout must not restart its timeout after a
 spurious wakeup

The full timeout was passed to every park_timeout call, so a wakeup that does
not produce a message extended the wait.
---
 src/mpsc/blocking.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index dd0ba86..1d848e2 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1643,11 +1643,11 @@ fn recv_ref_timeout<'a, T>(
             }
             Poll::Pending => {
                 test_println!("park_timeout ({:?})", thread::current());
-                thread::park_timeout(timeout);
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
                     return Err(RecvTimeoutError::Timeout);
                 }
+                thread::park_timeout(timeout - elapsed);
             }
         }
     }
-- 
2.43.0


From 03a37042217686d8eace1c0d70d866d419d68a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:21 +0000
Subject: [PATCH 14/15] fix: a notified blocking sender must wait again if the
 slot was taken

After being notified, the sender's node is not in the wait queue any more, but
send_ref kept calling continue_wait on it, which reports the same notification
forever: the thread spun instead of going back to sleep.
---
 src/mpsc/blocking.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index 1d848e2..d0d502f 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1688,6 +1688,8 @@ fn send_ref<'a, T, R: Recycle<T>>(
         match wait {
             WaitResult::Closed => return Err(Closed(())),
             WaitResult::Notified => {
+                // The node is not in the queue any more.
+                unqueued = true;
                 boff.spin_yield();
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
-- 
2.43.0


From 0cc94a64116411cd6877a0a070b5e859935594fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:21 +0000
Subject: [PATCH 15/15] fix: send_timeout must not leave its waiter in the
 queue, nor overrun

On timeout, the waiter on the stack was left linked into the wait queue
(use after free), or its notification was lost. After a notification, the
deadline was never checked again, and spurious wakeups restarted the timeout.
---
 src/mpsc/blocking.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/mpsc/blocking.rs b/src/mpsc/blocking.rs
index d0d502f..76b5169 100644
--- a/src/mpsc/blocking.rs
+++ b/src/mpsc/blocking.rs
@@ -1727,7 +1727,7 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
     let mut boff = Backoff::new();
     let beginning_park = Instant::now();
     loop {
-        let node = unsafe {
+        let mut node = unsafe {
             // Safety: in this case, it's totally safe to pin the waiter, as
             // it is owned uniquely by this function, and it cannot possibly
             // be moved while this thread is parked.
@@ -1735,28 +1735,39 @@ fn send_ref_timeout<'a, T, R: Recycle<T>>(
         };
 
         let wait = if unqueued {
-            test_dbg!(core.tx_wait.start_wait(node, &thread))
+            test_dbg!(core.tx_wait.start_wait(node.as_mut(), &thread))
         } else {
-            test_dbg!(core.tx_wait.continue_wait(node, &thread))
+            test_dbg!(core.tx_wait.continue_wait(node.as_mut(), &thread))
         };
 
         match wait {
             WaitResult::Closed => return Err(SendTimeoutError::Closed(())),
             WaitResult::Notified => {
+                // The node is not in the queue any more.
+                unqueued = true;
                 boff.spin_yield();
                 match core.try_send_ref(slots.as_ref(), recycle) {
                     Ok(slot) => return Ok(SendRef(slot)),
                     Err(TrySendError::Closed(_)) => return Err(SendTimeoutError::Closed(())),
                     _ => {}
                 }
+                if beginning_park.elapsed() >= timeout {
+                    return Err(SendTimeoutError::Timeout(()));
+                }
             }
             WaitResult::Wait => {
                 unqueued = false;
-                thread::park_timeout(timeout);
                 let elapsed = beginning_park.elapsed();
                 if elapsed >= timeout {
-                    return Err(SendTimeoutError::Timeout(()));
+                    // The node must not be left in the queue when this function
+                    // returns. If it was dequeued in the meantime, we have been
+                    // notified, and make use of that before giving up.
+                    if node.remove(&core.tx_wait) {
+                        return Err(SendTimeoutError::Timeout(()));
+                    }
+                    continue;
                 }
+                thread::park_timeout(timeout - elapsed);
             }
         }
     }
-- 
2.43.0

