From 754a134e865ed9bfdd390b531a8b1704b8ec6d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 01/10] fix: only trust the initial scan once all of the
 storage was read

get_or_populate_latest() put the records it found into the list's SeqState
while it was still scanning. When a read failed (or the future was dropped) in
the middle of the scan, next_seq was already set, so the next process_reads
considered the partial scan complete: it restored an outdated record, reused
sequence numbers, and the next garbage collection removed newer records.

Collect into a local SeqState and commit it at the end of the scan.
---
 crates/cfg-noodle/src/storage_list.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index e1b8438..a8c8a3f 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -632,6 +632,11 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         //
         // Start by getting an iterator, and setting up some tracking state
         let mut iter = s.iter_elems().await.map_err(LoadStoreError::FlashRead)?;
+        //
+        // NOTE: the results are collected in a fresh `SeqState`, which only replaces the current
+        // one once the WHOLE storage has been scanned. Otherwise an error (or a cancellation)
+        // in the middle of the scan would leave a partial result behind that looks complete.
+        let mut seq_state = SeqState::new();
         let mut current: Option<(NonZeroU32, usize)> = None;
         let mut crc = Crc32::new();
         let mut ctr = 0;
@@ -696,7 +701,7 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
                         start_idx,
                         idx
                     );
-                    self.seq_state.insert_good(GoodWriteRecord {
+                    seq_state.insert_good(GoodWriteRecord {
                         seq: seq_no,
                         range: start_idx..=idx,
                     });
@@ -704,11 +709,14 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
             }
         }
 
-        let highest = self.seq_state.highest_seen();
+        let highest = seq_state.highest_seen();
         if highest.is_none() {
-            self.seq_state.next_seq = NonZeroU32::new(1);
+            seq_state.next_seq = NonZeroU32::new(1);
         }
 
+        // The scan is complete: from now on we can rely on the result
+        self.seq_state = seq_state;
+
         Ok(highest)
     }
 
-- 
2.43.0


From 52662029f702f901c84a9290ebf9ec54bf732c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:49 +0000
Subject: [PATCH 02/10] fix: require garbage collection after a failed or
 cancelled write

When process_writes() failed (or its future was dropped) part way, the
incomplete record stayed in the storage while needs_gc was still false. The
next attempt reused the sequence number, and its verification found the stale
Start element first, so that every retry failed with WriteVerificationFailed
until a reboot, or left two records with the same sequence number.

Set needs_gc before the first element is written.
---
 crates/cfg-noodle/src/storage_list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index a8c8a3f..ead0776 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -375,6 +375,11 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
 
         debug!("Attempt write_to_flash");
 
+        // From here on, the storage may contain an incomplete record. If we fail (or are
+        // dropped) before the record is written and verified, it has to be collected before
+        // the next attempt, which would otherwise write the same sequence number again.
+        inner.seq_state.needs_gc = true;
+
         // TODO: Retries have to be handled in the OUTER context, so we can
         // start over from the beginning.
         let rpt = inner.write_to_flash(buf, storage, next_seq).await?;
-- 
2.43.0


From 0b0f49ab235c0dcd14de82f40ed8cdf5bbe4a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:49 +0000
Subject: [PATCH 03/10] fix: collect garbage if the first scan finds no valid
 record

If the storage contains elements but no valid record (e.g. power was lost in
the middle of the very first write), needs_gc stayed false. The next write then
appended a record behind the leftovers with the same sequence number, and its
verification failed, again and again, as nothing was ever collected.
---
 crates/cfg-noodle/src/storage_list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index ead0776..1d571b3 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -717,6 +717,9 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         let highest = seq_state.highest_seen();
         if highest.is_none() {
             seq_state.next_seq = NonZeroU32::new(1);
+            // No valid record at all: if the storage is not empty, everything in it is garbage
+            // (e.g. because the very first write was interrupted).
+            seq_state.needs_gc = ctr != 0;
         }
 
         // The scan is complete: from now on we can rely on the result
-- 
2.43.0


From 73ad68ff3c9276a40692c882a6b16362ec5c59e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:49 +0000
Subject: [PATCH 04/10] fix: do not panic when a value does not fit into the
 buffer

serialize() compared the number of bytes written with len_with() before
looking at the result of encode(), so with debug assertions an oversized value
panicked instead of being reported as a serialization error.
---
 crates/cfg-noodle/src/storage_node.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index b056ce7..e769590 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -879,12 +879,14 @@ where
         len_with(tref, &mut ()),
         &cursor.get_ref()[..cursor.position()],
     );
-    // Make sure len_with returns the correct number of bytes
-    // Important because we depend on it in deserialize()
-    debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
 
     match res {
-        Ok(()) => Ok(cursor.position()),
+        Ok(()) => {
+            // Make sure len_with returns the correct number of bytes
+            // Important because we depend on it in deserialize()
+            debug_assert_eq!(cursor.position(), len_with(tref, &mut ()));
+            Ok(cursor.position())
+        }
         Err(_e) => {
             // We know this was an "end of slice" error
             Err(())
-- 
2.43.0


From ae27271217962c6831169859660e0e04663496ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:44 +0000
Subject: [PATCH 05/10] fix: give the node back when attach() is cancelled

attach() marks the node as taken and then waits for the data to be loaded. If
the future was dropped while waiting (e.g. by a timeout), no handle existed
that would ever clear the mark: all later attach() and detach() calls failed
with AlreadyTaken until the next reboot.

Create the handle right after taking the node.
---
 crates/cfg-noodle/src/storage_node.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index e769590..1e6e782 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -440,6 +440,15 @@ where
             debug!("attach() release Lock on list");
         }
 
+        // We have marked the node as taken. Already create the handle, so that dropping it gives
+        // the node back if we are cancelled (i.e. this future is dropped) while waiting below.
+        //
+        // NOTE: It is only handed out at the end, and must not be used to access the data before.
+        let handle = StorageListNodeHandle {
+            list_ty: PhantomData,
+            inner: self,
+        };
+
         debug!("Waiting for reading_done");
 
         // We know our node is now on the list. Create a ref to the header which
@@ -502,10 +511,7 @@ where
         // - Rule 6.1: The node is attached to a list
         // - Rule 6.2: No other handles exist
         // - Rule 6.3: We have passed the Initial/NonResident state
-        Ok(StorageListNodeHandle {
-            list_ty: PhantomData,
-            inner: self,
-        })
+        Ok(handle)
     }
 
     /// Detach a node from a given list
-- 
2.43.0


From a40df0eb8e12124a797beb434399f1e4423fca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 06/10] fix: scan the storage again after an unfinished write
 before loading data

If a write fails or is cancelled after its last element was stored, the storage
holds a complete record that last_records does not know. A node attached then
was loaded from the previous record. If the following garbage collection failed
as well, the re-scan made the unknown record the latest one, and process_writes
reported success without storing the loaded values: they were lost on reboot.

Scan again before loading data.
---
 crates/cfg-noodle/src/storage_list.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 1d571b3..5377ccc 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -151,6 +151,11 @@ struct SeqState<const KEPT_RECORDS: usize> {
     ///
     /// This is set after each call to process_write, and
     needs_gc: bool,
+    /// Was a write started, but not finished (failed or cancelled)?
+    ///
+    /// The storage might contain a complete record we don't know of, so `last_records`
+    /// must not be used to load data before the storage was scanned again.
+    incomplete_write: bool,
 }
 
 /// Information regarding a successful Record Write
@@ -379,6 +384,7 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
         // dropped) before the record is written and verified, it has to be collected before
         // the next attempt, which would otherwise write the same sequence number again.
         inner.seq_state.needs_gc = true;
+        inner.seq_state.incomplete_write = true;
 
         // TODO: Retries have to be handled in the OUTER context, so we can
         // start over from the beginning.
@@ -398,6 +404,7 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
             seq: next_seq,
             range,
         });
+        inner.seq_state.incomplete_write = false;
 
         // The write must have succeeded. So mark all nodes accordingly.
         for hdrref in inner.list.iter() {
@@ -629,7 +636,8 @@ impl<const KEPT_RECORDS: usize> StorageListInner<KEPT_RECORDS> {
         bytes_read: &mut usize,
     ) -> Result<Option<GoodWriteRecord>, LoadStoreError<S::Error>> {
         // If we've already scanned, we know the highest number (or that there is none)
-        if self.seq_state.initial_scan_completed() {
+        // (unless an unfinished write may have added a record since then)
+        if self.seq_state.initial_scan_completed() && !self.seq_state.incomplete_write {
             return Ok(self.seq_state.highest_seen());
         }
 
@@ -1043,6 +1051,7 @@ impl<const KEPT_RECORDS: usize> SeqState<KEPT_RECORDS> {
             next_seq: None,
             last_records: [const { None }; KEPT_RECORDS],
             needs_gc: false,
+            incomplete_write: false,
         }
     }
 
-- 
2.43.0


From 9047fab64f724b6330533a901caa7dd64ccf3cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:40 +0000
Subject: [PATCH 07/10] fix: do not forget signals while debouncing in the
 default worker

The debounce futures were dropped whenever another event happened first, after
they had already consumed the signal. A write followed by an attach within 10 s
was not stored until the next write (if any), an attach() during whose debounce
the write timeout expired did not complete until the next attach(), and the
delayed garbage collection was cancelled by any other event.

Keep the debounce futures alive, and remember the deadline of the collection.
---
 crates/cfg-noodle/src/worker_task.rs | 125 ++++++++++++++++-----------
 1 file changed, 73 insertions(+), 52 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 5427418..9e26b17 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -1,9 +1,12 @@
 //! Default worker task implementation
 
 use core::fmt::Debug;
-use embassy_futures::select::{Either, Either3, select};
+use embassy_futures::{
+    join::join3,
+    select::{Either, Either3, select},
+};
 use embassy_sync::{blocking_mutex::raw::NoopRawMutex, signal::Signal};
-use embassy_time::Duration;
+use embassy_time::{Duration, Instant};
 use mutex_traits::ScopedRawMutex;
 
 use crate::{
@@ -58,63 +61,79 @@ pub async fn default_worker_task<
 ) where
     S::Error: Debug,
 {
+    // Set when needs_read/needs_write was signaled and then not again for the debounce time.
+    let reads_due: Signal<NoopRawMutex, ()> = Signal::new();
+    let writes_due: Signal<NoopRawMutex, ()> = Signal::new();
+
+    // These futures must never be dropped while the worker is running (e.g. because some other
+    // event happened first): they have already consumed the signal that they are debouncing.
+    let debounce_reads = async {
+        loop {
+            // Wait for needs_read to be signaled once
+            debug!("worker_task waiting for needs_read signal");
+            list.needs_read().await;
+
+            // Run debounce loop that breaks when needs_read hasn't been signaled
+            // for more than 100ms
+            'debounce: loop {
+                // Make sure we go 100ms with no changes
+                debug!("Debounce needs_read with 100ms timeout");
+                if embassy_time::with_timeout(Duration::from_millis(100), list.needs_read())
+                    .await
+                    .is_err()
+                {
+                    // Error means timeout reached, so no more debouncing
+                    debug!("Timeout reached, stop debouncing needs_read");
+                    break 'debounce;
+                }
+            }
+            reads_due.signal(());
+        }
+    };
+    let debounce_writes = async {
+        loop {
+            // Wait for needs_write to be signaled once
+            debug!("worker_task waiting for needs_write signal");
+            list.needs_write().await;
+
+            // Run debounce loop that breaks when needs_write hasn't been signaled
+            // for more than 10s
+            'debounce: loop {
+                debug!("Debounce needs_write with 10s timeout");
+                // Make sure we go 10s with no changes
+                if embassy_time::with_timeout(Duration::from_secs(10), list.needs_write())
+                    .await
+                    .is_err()
+                {
+                    // Error means timeout reached, so no more debouncing
+                    debug!("Timeout reached, stop debouncing needs_write");
+                    break 'debounce;
+                }
+            }
+            writes_due.signal(());
+        }
+    };
+
     // Create one future for the waker signals so that we can `select` between this
     // future and the `stopper` future.
-    let waker_future = async {
+    let process = async {
         let mut first_gc_done = false;
-        let needs_gc: Signal<NoopRawMutex, Duration> = Signal::new();
+        // When to perform the delayed garbage collection
+        let mut gc_due: Option<Instant> = None;
 
         // Wait for either the needs_read or needs_write to be signaled
         loop {
-            let read_fut = async {
-                // Wait for needs_read to be signaled once
-                debug!("worker_task waiting for needs_read signal");
-                list.needs_read().await;
-
-                // Run debounce loop that breaks when needs_read hasn't been signaled
-                // for more than 100ms
-                'debounce: loop {
-                    // Make sure we go 100ms with no changes
-                    debug!("Debounce needs_read with 100ms timeout");
-                    if embassy_time::with_timeout(Duration::from_millis(100), list.needs_read())
-                        .await
-                        .is_err()
-                    {
-                        // Error means timeout reached, so no more debouncing
-                        debug!("Timeout reached, stop debouncing needs_read");
-                        break 'debounce;
-                    }
-                }
-            };
-            let write_fut = async {
-                // Wait for needs_read to be signaled once
-                debug!("worker_task waiting for needs_write signal");
-                list.needs_write().await;
-
-                // Run debounce loop that breaks when needs_write hasn't been signaled
-                // for more than 100ms
-                'debounce: loop {
-                    debug!("Debounce needs_write with 10s timeout");
-                    // Make sure we go 10s with no changes
-                    if embassy_time::with_timeout(Duration::from_secs(10), list.needs_write())
-                        .await
-                        .is_err()
-                    {
-                        // Error means timeout reached, so no more debouncing
-                        debug!("Timeout reached, stop debouncing needs_write");
-                        break 'debounce;
-                    }
-                }
-            };
-
             let gc_fut = async {
-                let delay = needs_gc.wait().await;
-                debug!("Got needs_gc signal. Continuing after delay of {}", delay);
-                embassy_time::Timer::after(delay).await;
+                match gc_due {
+                    Some(due) => embassy_time::Timer::at(due).await,
+                    None => core::future::pending().await,
+                }
             };
 
             info!("worker_task waiting for signals");
-            match embassy_futures::select::select3(read_fut, write_fut, gc_fut).await {
+            match embassy_futures::select::select3(reads_due.wait(), writes_due.wait(), gc_fut)
+                .await
+            {
                 // needs_read signaled
                 Either3::First(_) => {
                     info!("worker task got needs_read signal, processing reads");
@@ -128,12 +147,12 @@ pub async fn default_worker_task<
                     // have everything in a clean state.
                     // Delay this by 120 seconds to give other tasks time to do work before we potentially
                     // block the for a longer time with garbage collection.
-                    if !first_gc_done {
+                    if !first_gc_done && gc_due.is_none() {
                         info!(
                             "worker task finished process_reads. Trigger process_garbage with delay"
                         );
 
-                        needs_gc.signal(Duration::from_secs(120));
+                        gc_due = Some(Instant::now() + Duration::from_secs(120));
                     }
                 }
                 // needs_write signaled
@@ -156,7 +175,8 @@ pub async fn default_worker_task<
                     }
                 }
                 Either3::Third(_) => {
-                    info!("worker task got needs_gc signal, run process_garbage");
+                    info!("worker task reached the gc deadline, run process_garbage");
+                    gc_due = None;
                     match list.process_garbage(&mut flash, buf).await {
                         Ok(rpt) => {
                             info!("process_garbage success: {:?}", rpt);
@@ -173,6 +193,7 @@ pub async fn default_worker_task<
     // stopper future finishes, we do a clean "shutdown" of the worker task.
     //
     // The waker future diverges, so it can never occur.
+    let waker_future = join3(debounce_reads, debounce_writes, process);
     let Either::Second(_) = select(waker_future, stopper).await;
 
     info!("stopper future completed, stopping worker task");
-- 
2.43.0


From 36e955da878b90782ef334bb8e001566a086f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 08/10] fix: load and collect before flushing in the default
 worker if necessary

process_writes fails with NeedsFirstRead if a node was just attached, or if the
index was dropped because a garbage collection failed or was cancelled by the
stopper. The default worker only handled NeedsGarbageCollect (and only when
stopping), so pending writes were not stored, or even lost when stopping.
---
 crates/cfg-noodle/src/worker_task.rs | 54 +++++++++++++++++-----------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/crates/cfg-noodle/src/worker_task.rs b/crates/cfg-noodle/src/worker_task.rs
index 9e26b17..74313d5 100644
--- a/crates/cfg-noodle/src/worker_task.rs
+++ b/crates/cfg-noodle/src/worker_task.rs
@@ -13,7 +13,7 @@ use crate::{
     NdlDataStorage, StorageList,
     error::{Error, LoadStoreError},
     flash::empty::AlwaysEmptyFlash,
-    logging::{debug, error, info, warn},
+    logging::{debug, error, info},
 };
 
 /// A default worker task that manages storage operations based on read/write signals.
@@ -163,10 +163,7 @@ pub async fn default_worker_task<
                         Ok(rpt) => info!("process_garbage success: {:?}", rpt),
                         Err(e) => error!("Error in process_garbage: {:?}", e),
                     }
-                    match list.process_writes(&mut flash, buf).await {
-                        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                        Err(e) => error!("Error in process_writes: {:?}", e),
-                    }
+                    flush(list, &mut flash, buf).await;
 
                     info!("worker task finished process_writes, triggering process_garbage");
                     match list.process_garbage(&mut flash, buf).await {
@@ -197,25 +194,42 @@ pub async fn default_worker_task<
     let Either::Second(_) = select(waker_future, stopper).await;
 
     info!("stopper future completed, stopping worker task");
-    match list.process_writes(&mut flash, buf).await {
-        Ok(rpt) => info!("process_writes success: {:?}", rpt),
-        Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
-            match list.process_garbage(&mut flash, buf).await {
-                Ok(rpt) => info!("process_garbage success: {:?}", rpt),
-                Err(e) => error!("Error in process_garbage: {:?}", e),
+    flush(list, &mut flash, buf).await;
+
+    info!("worker task stopped!");
+}
+
+/// Write all pending changes, and do whatever is necessary to be able to do so before.
+async fn flush<R: ScopedRawMutex + Sync, S: NdlDataStorage, const KEPT_RECORDS: usize>(
+    list: &'static StorageList<R, KEPT_RECORDS>,
+    flash: &mut S,
+    buf: &mut [u8],
+) where
+    S::Error: Debug,
+{
+    // More than one of the preparations might be necessary, in any order, and also more than once
+    // (e.g. if nodes are attached in the meantime). If one of them fails, give up.
+    loop {
+        let prepared = match list.process_writes(flash, buf).await {
+            Ok(rpt) => {
+                info!("process_writes success: {:?}", rpt);
+                return;
             }
-            match list.process_writes(&mut flash, buf).await {
-                Ok(rpt) => info!("process_writes success: {:?}", rpt),
-                Err(e) => error!("Error in process_writes: {:?}", e),
+            // Either a node was attached but is not loaded yet, or the storage has to be scanned
+            // again, e.g. because a garbage collection failed or was cancelled.
+            Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
+                list.process_reads(flash, buf).await.map(|_| ())
             }
+            Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => {
+                list.process_garbage(flash, buf).await.map(|_| ())
+            }
+            Err(e) => Err(e),
+        };
+        if let Err(e) = prepared {
+            error!("Pending changes were not written: {:?}", e);
+            return;
         }
-        Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => {
-            warn!("closing worker without performing first read");
-        }
-        Err(e) => error!("Error in process_writes: {:?}", e),
     }
-
-    info!("worker task stopped!");
 }
 
 /// A worker tasks that always reads no entries and ignores all writes
-- 
2.43.0


From 24f891d6b4b1260cf394062077630ac4d1ecd1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:34 +0000
Subject: [PATCH 09/10] Add a guarded hook to announce atomic accesses to a
 simulator

Only with --cfg cfg_noodle_sim.
---
 crates/cfg-noodle/src/lib.rs          | 10 +++
 crates/cfg-noodle/src/sim_atomic.rs   | 89 +++++++++++++++++++++++++++
 crates/cfg-noodle/src/storage_node.rs |  3 +-
 3 files changed, 101 insertions(+), 1 deletion(-)
 create mode 100644 crates/cfg-noodle/src/sim_atomic.rs

diff --git a/crates/cfg-noodle/src/lib.rs b/crates/cfg-noodle/src/lib.rs
index 282ae98..503e9be 100644
--- a/crates/cfg-noodle/src/lib.rs
+++ b/crates/cfg-noodle/src/lib.rs
@@ -1,6 +1,8 @@
 //! Configuration management
 #![doc = include_str!("../README.md")]
 #![cfg_attr(not(any(test, doctest, feature = "std")), no_std)]
+// `cfg_noodle_sim` is only set (with RUSTFLAGS) to run this crate in a simulator
+#![allow(unexpected_cfgs)]
 #![warn(missing_docs)]
 #![deny(clippy::unwrap_used)]
 #![deny(clippy::undocumented_unsafe_blocks)]
@@ -26,6 +28,14 @@ pub use sequential_storage;
 #[doc(hidden)]
 pub mod test_utils;
 
+/// The atomics of the node headers
+#[cfg(not(cfg_noodle_sim))]
+mod atomic {
+    pub(crate) use core::sync::atomic::{AtomicPtr, AtomicU8};
+}
+#[cfg(cfg_noodle_sim)]
+#[path = "sim_atomic.rs"]
+mod atomic;
 mod storage_list;
 mod storage_node;
 
diff --git a/crates/cfg-noodle/src/sim_atomic.rs b/crates/cfg-noodle/src/sim_atomic.rs
new file mode 100644
index 0000000..f71c3b4
--- /dev/null
+++ b/crates/cfg-noodle/src/sim_atomic.rs
@@ -0,0 +1,89 @@
+//! Atomics that announce every access to a simulator
+//!
+//! Only compiled with `--cfg cfg_noodle_sim`, which is used to run this crate under a deterministic
+//! scheduler: it may switch to another (simulated) thread at every announced point.
+
+use core::{ops::Deref, sync::atomic::Ordering};
+
+unsafe extern "Rust" {
+    /// Provided by the simulator
+    safe fn cfg_noodle_sim_point();
+}
+
+/// Announces the accesses to an atomic
+pub(crate) struct Announced<A>(A);
+
+/// See [`core::sync::atomic::AtomicU8`]
+pub(crate) type AtomicU8 = Announced<core::sync::atomic::AtomicU8>;
+/// See [`core::sync::atomic::AtomicPtr`]
+pub(crate) type AtomicPtr<T> = Announced<core::sync::atomic::AtomicPtr<T>>;
+
+/// Everything that is not implemented here is only announced beforehand
+impl<A> Deref for Announced<A> {
+    type Target = A;
+
+    fn deref(&self) -> &A {
+        cfg_noodle_sim_point();
+        &self.0
+    }
+}
+
+impl AtomicU8 {
+    pub(crate) const fn new(val: u8) -> Self {
+        Self(core::sync::atomic::AtomicU8::new(val))
+    }
+
+    pub(crate) fn load(&self, order: Ordering) -> u8 {
+        let val = self.deref().load(order);
+        cfg_noodle_sim_point();
+        val
+    }
+
+    pub(crate) fn store(&self, val: u8, order: Ordering) {
+        self.deref().store(val, order);
+        cfg_noodle_sim_point();
+    }
+}
+
+impl<T> AtomicPtr<T> {
+    pub(crate) const fn new(val: *mut T) -> Self {
+        Self(core::sync::atomic::AtomicPtr::new(val))
+    }
+
+    pub(crate) fn load(&self, order: Ordering) -> *mut T {
+        let val = self.deref().load(order);
+        cfg_noodle_sim_point();
+        val
+    }
+
+    pub(crate) fn store(&self, val: *mut T, order: Ordering) {
+        self.deref().store(val, order);
+        cfg_noodle_sim_point();
+    }
+
+    pub(crate) fn compare_exchange(
+        &self,
+        current: *mut T,
+        new: *mut T,
+        success: Ordering,
+        failure: Ordering,
+    ) -> Result<*mut T, *mut T> {
+        let res = self
+            .deref()
+            .compare_exchange(current, new, success, failure);
+        cfg_noodle_sim_point();
+        res
+    }
+
+    #[allow(deprecated)]
+    pub(crate) fn fetch_update(
+        &self,
+        set_order: Ordering,
+        fetch_order: Ordering,
+        f: impl FnMut(*mut T) -> Option<*mut T>,
+    ) -> Result<*mut T, *mut T> {
+        let res = self.deref().fetch_update(set_order, fetch_order, f);
+        cfg_noodle_sim_point();
+        res
+    }
+}
diff --git a/crates/cfg-noodle/src/storage_node.rs b/crates/cfg-noodle/src/storage_node.rs
index 1e6e782..5eebb84 100644
--- a/crates/cfg-noodle/src/storage_node.rs
+++ b/crates/cfg-noodle/src/storage_node.rs
@@ -2,6 +2,7 @@
 //! This implements the [`StorageList`] and its [`StorageListNode`]s
 
 use crate::{
+    atomic::{AtomicPtr, AtomicU8},
     error::Error,
     logging::{MaybeDefmtFormat, debug, error},
     storage_list::StorageList,
@@ -13,7 +14,7 @@ use core::{
     marker::{PhantomData, PhantomPinned},
     mem::MaybeUninit,
     ptr::{self, NonNull, null_mut},
-    sync::atomic::{AtomicPtr, AtomicU8, Ordering},
+    sync::atomic::Ordering,
 };
 use minicbor::{
     CborLen, Decode, Encode,
-- 
2.43.0


From 042b6a3412855d8841060dafdddc356fdbc8e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:38 +0000
Subject: [PATCH 10/10] fix: process_writes demanded a first read for ever when
 the sequence numbers are used up

With a record of the highest possible number on the storage, process_writes
asked for a first read although it had succeeded; a caller that follows that
advice, like the default worker, never terminates.
---
 crates/cfg-noodle/src/storage_list.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/cfg-noodle/src/storage_list.rs b/crates/cfg-noodle/src/storage_list.rs
index 5377ccc..de992c6 100644
--- a/crates/cfg-noodle/src/storage_list.rs
+++ b/crates/cfg-noodle/src/storage_list.rs
@@ -360,7 +360,15 @@ impl<R: ScopedRawMutex, const KEPT_RECORDS: usize> StorageList<R, KEPT_RECORDS>
         debug!("process_writes locked list");
 
         let Some(next_seq) = inner.seq_state.next_seq else {
-            return Err(LoadStoreError::AppError(Error::NeedsFirstRead));
+            // If there is a record, then the storage was scanned, but there is no sequence number
+            // left for a new one: reading again can't help.
+            return Err(LoadStoreError::AppError(
+                if inner.seq_state.highest_seen().is_some() {
+                    Error::InconsistentFlash
+                } else {
+                    Error::NeedsFirstRead
+                },
+            ));
         };
 
         if inner.seq_state.needs_gc {
-- 
2.43.0

