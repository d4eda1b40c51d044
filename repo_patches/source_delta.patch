From 9c35cd29f0025e82d575824888e6c2da29c1685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 01/12] fix: reserve the entry tag bits through the alignment
 of `Entry`

Entries of byte-aligned or zero-sized keys and values were allocated at
addresses that may have the tag bits set (e.g. `HashSet<()>`).
---
 src/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 79eb825..5c68e61 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -119,7 +119,10 @@ pub enum RawInsertResult<'g, K, V> {
 }
 
 // An entry in the hash-table.
-#[repr(C)]
+//
+// The alignment reserves the lower 3 bits of entry pointers for tags, regardless
+// of the alignment (and size) of the key and value types.
+#[repr(C, align(8))]
 pub struct Entry<K, V> {
     /// The key for this entry.
     pub key: K,
-- 
2.43.0


From f4a9dc46542cbe0077741418fdd10420f7d40ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 02/12] fix: keep table lengths a power-of-two when shrinking
 to the initial capacity

`HashMap::with_capacity(10)` panicked after a sequence of inserts and removals,
as the shrink heuristic used the user-provided capacity as the table length.
---
 src/raw/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 5c68e61..610dfd3 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -234,8 +234,11 @@ impl<K, V, S> HashMap<K, V, S> {
             };
         }
 
+        // Note that the length of a table must be a power-of-two, including after a shrink.
+        let capacity = probe::entries_for(capacity);
+
         // Initialize the table and mark it as the root.
-        let mut table = Table::alloc(probe::entries_for(capacity));
+        let mut table = Table::alloc(capacity);
         *table.state_mut().status.get_mut() = State::PROMOTED;
 
         HashMap {
-- 
2.43.0


From 4e40e2819eb71c99fea24887f8278875a81895a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 03/12] fix: recover from a panic while allocating the next
 table

A failed `reserve` poisoned the allocation lock, after which any resize of the
map deadlocked on the lock guard held by the poison error.
---
 src/raw/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 610dfd3..72e4f7c 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -6,7 +6,7 @@ pub(crate) mod utils;
 use std::hash::{BuildHasher, Hash};
 use std::mem::MaybeUninit;
 use std::sync::atomic::{AtomicPtr, AtomicU8, AtomicUsize, Ordering};
-use std::sync::Mutex;
+use std::sync::{Mutex, PoisonError, TryLockError};
 use std::{hint, panic, ptr};
 
 use self::alloc::{RawTable, Table};
@@ -1914,8 +1914,10 @@ where
         // Unlike in `init`, we do not race here to prevent unnecessary allocator pressure.
         let _allocating = match state.allocating.try_lock() {
             Ok(lock) => lock,
+            // A previous allocation panicked, which does not affect the state of the table.
+            Err(TryLockError::Poisoned(lock)) => lock.into_inner(),
             // Someone else is currently allocating.
-            Err(_) => {
+            Err(TryLockError::WouldBlock) => {
                 let mut spun = 0;
 
                 // Spin for a bit, waiting for the table to be initialized.
@@ -1933,7 +1935,10 @@ where
                 }
 
                 // Otherwise, we have to block.
-                state.allocating.lock().unwrap()
+                state
+                    .allocating
+                    .lock()
+                    .unwrap_or_else(PoisonError::into_inner)
             }
         };
 
-- 
2.43.0


From aa7dc40561db7c22efb5e0d11d871a3e8297d265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 04/12] fix: check for overflow when computing the size of a
 table allocation

The size wrapped in release builds, allocating less memory than the table
accesses instead of panicking as documented.
---
 src/raw/alloc.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/raw/alloc.rs b/src/raw/alloc.rs
index 3c5792f..edceb0b 100644
--- a/src/raw/alloc.rs
+++ b/src/raw/alloc.rs
@@ -211,10 +211,14 @@ impl<T> Table<T> {
 
     // Returns the non-zero layout for a table allocation.
     fn layout(len: usize) -> Layout {
-        let size = mem::size_of::<TableLayout<T>>()
-            + (mem::size_of::<u8>() * len) // Metadata table.
-            + (mem::size_of::<AtomicPtr<T>>() * len); // Entry pointers.
-                                                      //
+        // Each slot consists of a metadata byte and an entry pointer.
+        let slot = mem::size_of::<u8>() + mem::size_of::<AtomicPtr<T>>();
+
+        let size = len
+            .checked_mul(slot)
+            .and_then(|size| size.checked_add(mem::size_of::<TableLayout<T>>()))
+            .expect("capacity overflow");
+
         Layout::from_size_align(size, mem::align_of::<TableLayout<T>>()).unwrap()
     }
 }
-- 
2.43.0


From 2607174fb6dd8fb305d2db2b37781f9c93505e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 05/12] fix: help copy incrementally in `compute` operations

Workloads consisting of only `compute`, `update`, or similar operations never
made progress on an incremental resize and retained every table allocated.
---
 src/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 72e4f7c..4c7c4a5 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -1578,7 +1578,7 @@ where
         }
 
         let (h1, h2) = self.hash(new_entry.key());
-        let mut help_copy = false;
+        let mut help_copy = true;
 
         loop {
             // Initialize the probe state.
-- 
2.43.0


From 879a11041d63757201f66e52880c95df14c766f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 06/12] fix: bound the incremental resize chunk size

`ResizeMode::Incremental(0)` never completed a resize, and very large chunks
could overflow the claim counter.
---
 src/raw/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 4c7c4a5..b3888ee 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2215,6 +2215,9 @@ where
             return table;
         };
 
+        // Ensure that we make progress, and that the claim counter cannot overflow.
+        let chunk = chunk.clamp(1, table.len());
+
         loop {
             // The copy already completed.
             if self.try_promote(&table, &next, 0, guard) {
-- 
2.43.0


From d5555110711ae92efafb636fbc1cc8958dec2b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 07/12] fix: wake threads waiting on an aborted resize

Waiters park on the status of the next table, not the table being copied.
---
 src/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index b3888ee..26d79ce 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2078,7 +2078,7 @@ where
                         let allocated = self.get_or_alloc_next(None, next);
 
                         // Wake anyone waiting for us to finish.
-                        let state = table.state();
+                        let state = next.state();
                         state.parker.unpark(&state.status);
 
                         // Retry in a new table.
-- 
2.43.0


From 03f06b50e7541d5659c7a3f6e1faaf4b80cb5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 08/12] fix: require `K: Send` for `HashSet: Sync`

Keys may be dropped on any thread that shares the set.
---
 src/set.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/set.rs b/src/set.rs
index 367776f..6150f42 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -22,7 +22,11 @@ pub struct HashSet<K, S = RandomState> {
 // so normal Send/Sync rules apply. We never expose owned or mutable references
 // to keys or values.
 unsafe impl<K: Send, S: Send> Send for HashSet<K, S> {}
-unsafe impl<K: Sync, S: Sync> Sync for HashSet<K, S> {}
+
+// Safety: As above. However, we require `K: Send` as keys may be removed and
+// dropped on a different thread than they were created on through shared access
+// to the `HashSet`.
+unsafe impl<K: Send + Sync, S: Sync> Sync for HashSet<K, S> {}
 
 /// A builder for a [`HashSet`].
 ///
-- 
2.43.0


From 0b29db2e7f81c26a88d1a67a76ca2ef36b986163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 09/12] fix: accept a shared reference in `retain`

`HashSet::retain` could not be called with a guard of the set, which borrows it.
---
 src/map.rs | 2 +-
 src/set.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index f149a25..39b890a 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -1500,7 +1500,7 @@ where
     ///
     /// See [`HashMap::retain`] for details.
     #[inline]
-    pub fn retain<F>(&mut self, f: F)
+    pub fn retain<F>(&self, f: F)
     where
         F: FnMut(&K, &V) -> bool,
     {
diff --git a/src/set.rs b/src/set.rs
index 6150f42..a6c0c16 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -537,7 +537,7 @@ where
     /// assert_eq!(set.pin().contains(&2), true);
     /// ```
     #[inline]
-    pub fn retain<F>(&mut self, mut f: F, guard: &impl Guard)
+    pub fn retain<F>(&self, mut f: F, guard: &impl Guard)
     where
         F: FnMut(&K) -> bool,
     {
@@ -811,7 +811,7 @@ where
     ///
     /// See [`HashSet::retain`] for details.
     #[inline]
-    pub fn retain<F>(&mut self, mut f: F)
+    pub fn retain<F>(&self, mut f: F)
     where
         F: FnMut(&K) -> bool,
     {
-- 
2.43.0


From ce114980a6074e0bd10e037cef317895de923771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 10/12] fix: keep the existing key in `HashSet::insert`

Inserting a key that is already present is documented not to update it.
---
 src/set.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/set.rs b/src/set.rs
index a6c0c16..1803c29 100644
--- a/src/set.rs
+++ b/src/set.rs
@@ -431,10 +431,10 @@ where
     /// ```
     #[inline]
     pub fn insert(&self, key: K, guard: &impl Guard) -> bool {
-        match self.raw.insert(key, (), true, self.raw.verify(guard)) {
+        match self.raw.insert(key, (), false, self.raw.verify(guard)) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Error { .. } => false,
+            InsertResult::Replaced(_) => unreachable!(),
         }
     }
 
@@ -777,10 +777,10 @@ where
     /// See [`HashSet::insert`] for details.
     #[inline]
     pub fn insert(&self, key: K) -> bool {
-        match self.set.raw.insert(key, (), true, &self.guard) {
+        match self.set.raw.insert(key, (), false, &self.guard) {
             InsertResult::Inserted(_) => true,
-            InsertResult::Replaced(_) => false,
-            InsertResult::Error { .. } => unreachable!(),
+            InsertResult::Error { .. } => false,
+            InsertResult::Replaced(_) => unreachable!(),
         }
     }
 
-- 
2.43.0


From 3df0aa0d4549e1114ac6d315c0e2dd9374d4c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 11/12] fix: reclaim the tables of aborted resizes

Tables that were aborted during a blocking resize are only reachable from the
previous root and were leaked when it was retired.
---
 src/raw/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 26d79ce..8ba2c57 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2506,6 +2506,23 @@ where
                             drop_table(Table::from_raw(table), collector);
                         });
                     }
+
+                    // Retire any tables in-between that were aborted during a blocking resize.
+                    //
+                    // Safety: Aborted tables are only reachable from the previous table, which
+                    // is now unreachable from the root pointer.
+                    let mut aborted = table.next_table().unwrap();
+                    while aborted.raw != next.raw {
+                        let next_aborted = aborted.next_table().unwrap();
+
+                        unsafe {
+                            guard.defer_retire(aborted.raw, |table, collector| {
+                                drop_table(Table::from_raw(table), collector);
+                            });
+                        }
+
+                        aborted = next_aborted;
+                    }
                 }
 
                 // Wake up any writers waiting for the resize to complete.
-- 
2.43.0


From 9c08cf1aa2cc8daa5e4dc4192b377d73bceb86e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 12/12] fix: do not drop the entries of an aborted table

If a user-provided `Hash` implementation panicked while retrying an aborted
resize, dropping the map freed the entries copied to both tables twice.
---
 src/raw/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/raw/mod.rs b/src/raw/mod.rs
index 8ba2c57..b41e21b 100644
--- a/src/raw/mod.rs
+++ b/src/raw/mod.rs
@@ -2770,9 +2770,13 @@ impl<K, V, S> Drop for HashMap<K, V, S> {
             // Read the next table pointer before dropping the current one.
             let next = *table.state_mut().next.get_mut();
 
-            // Safety: We have unique access to the table and do
-            // not access the entries after this call.
-            unsafe { drop_entries(table) };
+            // The entries of an aborted table are also present in a subsequent table, if the
+            // resize was interrupted by a panic.
+            if *table.state_mut().status.get_mut() != State::ABORTED {
+                // Safety: We have unique access to the table and do
+                // not access the entries after this call.
+                unsafe { drop_entries(table) };
+            }
 
             // Safety: We have unique access to the table and do
             // not access it after this call.
-- 
2.43.0

