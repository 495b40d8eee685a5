From c2c7afb1e96ece618a08330c986dfc64f46e833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 01/15] Hooks: route shim, clocks and view lock to a controlled
 runtime under cfg(dam_verif); DRAM request constructors for verification

---
 src/datastructures/time.rs | 13 +++++++++----
 src/shim/mod.rs            |  8 +++++++-
 src/templates/dram.rs      | 39 ++++++++++++++++++++++++++++++++++++++
 src/view/basic.rs          |  5 +++++
 4 files changed, 60 insertions(+), 5 deletions(-)

diff --git a/src/datastructures/time.rs b/src/datastructures/time.rs
index c9f4f13..0025fbe 100644
--- a/src/datastructures/time.rs
+++ b/src/datastructures/time.rs
@@ -1,7 +1,12 @@
-use std::{
-    cmp::Ordering,
-    sync::atomic::{AtomicBool, AtomicU64},
-};
+#![allow(unexpected_cfgs)]
+
+use std::cmp::Ordering;
+
+#[cfg(not(dam_verif))]
+use std::sync::atomic::{AtomicBool, AtomicU64};
+
+#[cfg(dam_verif)]
+use dam_verif_rt::atomic::{AtomicBool, AtomicU64};
 
 use cfg_if::cfg_if;
 use serde::{Deserialize, Serialize};
diff --git a/src/shim/mod.rs b/src/shim/mod.rs
index f15581b..3183b9b 100644
--- a/src/shim/mod.rs
+++ b/src/shim/mod.rs
@@ -1,7 +1,13 @@
 //! A shim module for users to switch between os-threads and coroutines based on may.
 
+#![allow(unexpected_cfgs)]
+
 cfg_if::cfg_if! {
-    if #[cfg(feature = "os-threads")] {
+    if #[cfg(dam_verif)] {
+        // Verification builds only: contexts run under a controlled scheduler.
+        pub use dam_verif_rt::*;
+    }
+    else if #[cfg(feature = "os-threads")] {
         mod os_threads;
 
         pub use os_threads::*;
diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 8cc57b4..9b4f92d 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -1,4 +1,6 @@
 //! A simple implementation of a single DRAM bank
+#![allow(unexpected_cfgs)]
+
 use std::collections::VecDeque;
 
 use crate::{
@@ -31,6 +33,43 @@ pub struct DRAMReadBundle<IT: Clone, DT: Clone> {
     data: Sender<DT>,
 }
 
+#[cfg(dam_verif)]
+mod verif {
+    //! Verification builds only: the configuration and the bundles have private fields and no constructors.
+    use super::*;
+
+    impl DRAMConfig {
+        #[allow(missing_docs)]
+        pub fn verif_new(simultaneous: usize, bandwidth: usize, latency: u64, capacity: usize) -> Self {
+            Self {
+                num_simultaneous_requests: simultaneous,
+                bandwidth_in_bits: bandwidth,
+                latency: Time::new(latency),
+                capacity,
+            }
+        }
+    }
+
+    impl<IT: DAMType, DT: DAMType> DRAMReadBundle<IT, DT> {
+        #[allow(missing_docs)]
+        pub fn verif_new(addr: Receiver<IT>, req_size: Receiver<IT>, data: Sender<DT>) -> Self {
+            Self { addr, req_size, data }
+        }
+    }
+
+    impl<IT: DAMType, DT: DAMType, AT: Clone> DRAMWriteBundle<IT, DT, AT> {
+        #[allow(missing_docs)]
+        pub fn verif_new(
+            addr: Receiver<IT>,
+            request_size: Receiver<IT>,
+            data: Receiver<DT>,
+            ack: Sender<AT>,
+        ) -> Self {
+            Self { addr, request_size, data, ack }
+        }
+    }
+}
+
 impl<IT: DAMType, DT: Clone> Peekable for &DRAMReadBundle<IT, DT> {
     fn next_event(self) -> crate::channel::utils::EventTime {
         [self.addr.next_event(), self.req_size.next_event()]
diff --git a/src/view/basic.rs b/src/view/basic.rs
index 93d3d26..d14ffb6 100644
--- a/src/view/basic.rs
+++ b/src/view/basic.rs
@@ -1,5 +1,10 @@
+#![allow(unexpected_cfgs)]
+
 use std::sync::Arc;
 
+#[cfg(dam_verif)]
+use dam_verif_rt::parking_lot;
+
 use dam_macros::event_type_internal;
 use linkme::distributed_slice;
 use serde::{Deserialize, Serialize};
-- 
2.43.0


From 835bb0e89db5e443c78c876d44cbba9d7dadb0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 02/15] fix: waiting for a slot on an acyclic bounded channel
 consumed it, so that the next enqueue waited for another

---
 src/channel/sender/bounded.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/channel/sender/bounded.rs b/src/channel/sender/bounded.rs
index fb39409..cc78ff0 100644
--- a/src/channel/sender/bounded.rs
+++ b/src/channel/sender/bounded.rs
@@ -34,6 +34,8 @@ impl<T> BoundedProvider for BoundedAcyclicSender<T> {
         }
         match self.bound.resp.recv() {
             Ok(time) => {
+                // The response frees a slot, which must not be waited for again by the enqueue that follows.
+                self.bound.send_receive_delta -= 1;
                 manager.advance(time);
                 Ok(())
             }
-- 
2.43.0


From c091dadc21659bd9bb1fc5df422c35fabf8ac18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 03/15] fix: peek_next on an acyclic channel did not advance to
 the time of an element that was peeked before

---
 src/channel/receiver/acyclic.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/channel/receiver/acyclic.rs b/src/channel/receiver/acyclic.rs
index 577e4cd..3c12129 100644
--- a/src/channel/receiver/acyclic.rs
+++ b/src/channel/receiver/acyclic.rs
@@ -10,7 +10,12 @@ pub(super) trait AcyclicReceiver<T: Clone>: ReceiverCommon<T> {
         match &self.data().head {
             Some(PeekResult::Closed) => return Err(DequeueError::Closed),
             None | Some(PeekResult::Nothing(_)) => {}
-            Some(PeekResult::Something(data)) => return Ok(data.clone()),
+            Some(PeekResult::Something(data)) => {
+                // The element may have been peeked at before its time.
+                let data = data.clone();
+                manager.advance(data.time);
+                return Ok(data);
+            }
         }
 
         self.data().head = match self.data().underlying.recv() {
-- 
2.43.0


From 3208161fb7ad62f64420c9abf6e19744916ece1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 04/15] fix: a datastore read before the first write to its
 address returned the value of the last write

---
 src/templates/datastore.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/templates/datastore.rs b/src/templates/datastore.rs
index 3c221e7..f600ca5 100644
--- a/src/templates/datastore.rs
+++ b/src/templates/datastore.rs
@@ -75,19 +75,15 @@ impl<T: DAMType> Datastore<T> {
         let reader = history.read().unwrap();
         // next_pos holds the location of the first element after the read time.
         let next_pos = reader.iter().position(|elem| elem.time > time);
-        match next_pos {
-            Some(0) | None => match reader.last() {
-                None => {
-                    if self.behavior.use_default_value {
-                        T::default()
-                    } else {
-                        panic!("Attempting to read a value before anything was written!")
-                    }
+        match reader[..next_pos.unwrap_or(reader.len())].last() {
+            None => {
+                if self.behavior.use_default_value {
+                    T::default()
+                } else {
+                    panic!("Attempting to read a value before anything was written!")
                 }
-                Some(last_val) => last_val.data.clone(),
-            },
-
-            Some(x) => reader.get(x - 1).unwrap().data.clone(),
+            }
+            Some(last_val) => last_val.data.clone(),
         }
     }
 }
-- 
2.43.0


From da8b1e67e0bb4b178162ec0086cd355d422cba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 05/15] fix: a PMU read raced with the writes of the same cycle

---
 src/templates/pmu.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index c7776c1..8f645b0 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -202,7 +202,8 @@ where
         self.writer_view
             .as_ref()
             .unwrap()
-            .wait_until(self.time.tick())
+            // A write in the same cycle is only recorded once the writer has moved past it.
+            .wait_until(self.time.tick() + 1)
     }
 }
 
-- 
2.43.0


From 736b385e2fb53cb2b6bc32ea9e89ee7dc440ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 06/15] fix: all_events, and the PMU and DRAM bundles, could
 report an event as ready before one of its parts was known to be

---
 src/channel/utils.rs  |  5 ++++-
 src/templates/dram.rs | 12 +++++-------
 src/templates/pmu.rs  |  7 ++++---
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/channel/utils.rs b/src/channel/utils.rs
index 53fb445..7ee7831 100644
--- a/src/channel/utils.rs
+++ b/src/channel/utils.rs
@@ -73,7 +73,10 @@ where
 {
     fn next_event(self) -> EventTime {
         let events = self.under.map(|thing| thing.next_event());
-        events.max().unwrap_or(EventTime::Closed)
+        // On a tie, an event which may also happen later takes precedence over one which is ready.
+        events
+            .max_by_key(|event| (event.key(), !matches!(event, EventTime::Ready(_))))
+            .unwrap_or(EventTime::Closed)
     }
 }
 
diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 9b4f92d..4bb30db 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -5,7 +5,7 @@ use std::collections::VecDeque;
 
 use crate::{
     channel::{
-        utils::{EventTime, Peekable},
+        utils::{EventCollection, EventTime, Peekable},
         ChannelElement, Receiver, Sender,
     },
     context::Context,
@@ -73,9 +73,8 @@ mod verif {
 impl<IT: DAMType, DT: Clone> Peekable for &DRAMReadBundle<IT, DT> {
     fn next_event(self) -> crate::channel::utils::EventTime {
         [self.addr.next_event(), self.req_size.next_event()]
-            .into_iter()
-            .max()
-            .unwrap()
+            .all_events()
+            .next_event()
     }
 }
 
@@ -94,9 +93,8 @@ impl<IT: DAMType, DT: DAMType, AT: Clone> Peekable for &DRAMWriteBundle<IT, DT,
             self.data.next_event(),
             self.request_size.next_event(),
         ]
-        .into_iter()
-        .max()
-        .unwrap()
+        .all_events()
+        .next_event()
     }
 }
 
diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index 8f645b0..c725d42 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -2,14 +2,13 @@
 //! Unlike the original PMU, this does not support processing within the pipeline, and so all values must be pre-computed before being sent here.
 
 use std::{
-    cmp::max,
     collections::{HashMap, HashSet},
     sync::Arc,
 };
 
 use crate::{
     channel::{
-        utils::{EventTime, Peekable},
+        utils::{EventCollection, EventTime, Peekable},
         ChannelID,
     },
     context::{self, Context, ContextSummary, ExplicitConnections, ProxyContext},
@@ -283,7 +282,9 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for WritePipeline<T, IT, AT
                 .writers
                 .iter_mut()
                 .map(|writer: &mut PMUWriteBundle<T, IT, AT>| {
-                    max(writer.addr.next_event(), writer.data.next_event())
+                    [writer.addr.next_event(), writer.data.next_event()]
+                        .all_events()
+                        .next_event()
                 })
                 .collect();
             let next_event = next_events
-- 
2.43.0


From 13b718a67cda171e26773042cdb937351452c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 07/15] fix: a trace with an element at time zero panicked

---
 src/utility_contexts/trace_context.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utility_contexts/trace_context.rs b/src/utility_contexts/trace_context.rs
index 318a30e..2a11daa 100644
--- a/src/utility_contexts/trace_context.rs
+++ b/src/utility_contexts/trace_context.rs
@@ -27,7 +27,10 @@ where
     fn run_falliable(&mut self) -> anyhow::Result<()> {
         if let Some(func) = self.iterator.take() {
             for (data, time) in (func)() {
-                self.time.advance(time.into() - 1);
+                let time: Time = time.into();
+                if time > Time::new(0) {
+                    self.time.advance(time - 1);
+                }
                 self.output
                     .enqueue(&self.time, ChannelElement::new(self.time.tick() + 1, data))?;
                 // Don't need an incr_cycles in case the generator wants to emit multiple values on the same cycle.
-- 
2.43.0


From c5b2d18f3bb80255badc2d00f26c77b3f67ac2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 08/15] fix: the transfer time of a DRAM write ignored the
 bandwidth

---
 src/templates/dram.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index 4bb30db..aa83bd6 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -253,8 +253,11 @@ impl<IType: IndexLike, T: DAMType, AT: DAMType> Context for DRAM<IType, T, AT> {
 
                         // The bandwidth-constrained transfer time
                         let transfer_time =
-                            u64::try_from(write_buffer.iter().map(|x| x.dam_size()).sum::<usize>())
-                                .unwrap();
+                            u64::try_from(
+                                write_buffer.iter().map(|x| x.dam_size()).sum::<usize>()
+                                    / self.config.bandwidth_in_bits,
+                            )
+                            .unwrap();
                         // This is when the write "actually happened"
                         let write_time = transfer_start_time + transfer_time;
                         write_buffer
-- 
2.43.0


From da98a08528084cd32c10f8f2de84b67ddc40c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 09/15] fix: a view could report a finished context with a time
 before its last

---
 src/datastructures/time.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datastructures/time.rs b/src/datastructures/time.rs
index 0025fbe..91e29a2 100644
--- a/src/datastructures/time.rs
+++ b/src/datastructures/time.rs
@@ -172,8 +172,9 @@ impl AtomicTime {
 
     /// Reads the underlying time with Acquire semantics, used by other threads.
     pub fn load(&self) -> Time {
-        let time = self.time.load(std::sync::atomic::Ordering::Acquire);
+        // The flag is read first: once it is set, the time is final.
         let done = self.done.load(std::sync::atomic::Ordering::Acquire);
+        let time = self.time.load(std::sync::atomic::Ordering::Acquire);
         Time { time, done }
     }
 
-- 
2.43.0


From 218250ec9586068b41abb97c49f2b242b877403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 10/15] fix: the PMU only declared the connections of its last
 bundles, and none from its writes to its reads

---
 src/templates/pmu.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index c725d42..348b80f 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -76,16 +76,26 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
     fn edge_connections(&self) -> Option<ExplicitConnections> {
         let mut result =
             HashMap::<Identifier, Vec<(HashSet<ChannelID>, HashSet<ChannelID>)>>::new();
-        for bundle in &self.reader.readers {
-            let srcs = [bundle.addr.id()];
-            let dsts = [bundle.resp.id()];
-            result.insert(self.reader.id(), vec![(srcs.into(), dsts.into())]);
-        }
-        for bundle in &self.writer.writers {
-            let srcs = [bundle.addr.id(), bundle.data.id()];
-            let dsts = [bundle.ack.id()];
-            result.insert(self.writer.id(), vec![(srcs.into(), dsts.into())]);
-        }
+        // The bundles of a pipeline are served in order of time, so every output depends on every input.
+        let writer_srcs: HashSet<_> = self
+            .writer
+            .writers
+            .iter()
+            .flat_map(|bundle| [bundle.addr.id(), bundle.data.id()])
+            .collect();
+        let writer_dsts = self.writer.writers.iter().map(|bundle| bundle.ack.id());
+        // Reads wait for the writer, and so depend on its inputs as well.
+        let mut reader_srcs = writer_srcs.clone();
+        reader_srcs.extend(self.reader.readers.iter().map(|bundle| bundle.addr.id()));
+        let reader_dsts = self.reader.readers.iter().map(|bundle| bundle.resp.id());
+        result.insert(
+            self.reader.id(),
+            vec![(reader_srcs, reader_dsts.collect())],
+        );
+        result.insert(
+            self.writer.id(),
+            vec![(writer_srcs, writer_dsts.collect())],
+        );
         Some(result)
     }
 
-- 
2.43.0


From 239e211fcd2db18f0b29528d024ff627f57fccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 11/15] fix: a PMU pipeline that panicked kept its channels
 open and its clock running

---
 src/templates/pmu.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/templates/pmu.rs b/src/templates/pmu.rs
index 348b80f..b8b938c 100644
--- a/src/templates/pmu.rs
+++ b/src/templates/pmu.rs
@@ -46,8 +46,10 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
                     logger.id = self.reader.id();
                     initialize_log(logger);
                 }
-                self.reader.run();
+                // Clean up even if the pipeline fails, or everything connected to it would wait forever.
+                let result = self.reader.run_falliable();
                 self.reader.cleanup();
+                result.unwrap();
             })
             .unwrap();
             crate::shim::spawn!(s, || {
@@ -55,8 +57,9 @@ impl<T: DAMType, IT: IndexLike, AT: DAMType> Context for PMU<T, IT, AT> {
                     logger.id = self.writer.id();
                     initialize_log(logger);
                 }
-                self.writer.run();
+                let result = self.writer.run_falliable();
                 self.writer.cleanup();
+                result.unwrap();
             })
             .unwrap();
         });
-- 
2.43.0


From 854af8067319a185bcd9e58f15a6f0f762ed7889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:35 +0000
Subject: [PATCH 12/15] fix: a panic in a context that implements run_falliable
 took down the whole run

---
 src/simulation/initialized.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/simulation/initialized.rs b/src/simulation/initialized.rs
index 88dbd67..79a1bd7 100644
--- a/src/simulation/initialized.rs
+++ b/src/simulation/initialized.rs
@@ -1,4 +1,7 @@
+use std::panic::{catch_unwind, AssertUnwindSafe};
+
 use crate::{
+    context::RuntimeError,
     datastructures::Time,
     logging::{initialize_log, LogEntry, LogInterface, LogProcessor},
     shim::spawn,
@@ -74,7 +77,10 @@ impl<'a> Initialized<'a> {
                             ));
                         }
                     }
-                    match child.run_falliable() {
+                    // Contexts which implement run_falliable themselves may also panic.
+                    let result = catch_unwind(AssertUnwindSafe(|| child.run_falliable()))
+                        .unwrap_or_else(|_| Err(RuntimeError::ContextError.into()));
+                    match result {
                         Ok(()) => {
                             summary_handle.push(child.summarize());
                         }
-- 
2.43.0


From 57d634bdbaf79d5068c6e6a91e79ba26b914c8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:17 +0000
Subject: [PATCH 13/15] fix: all_events reported a ready event although some of
 its parts were yet to happen

---
 src/channel/utils.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/channel/utils.rs b/src/channel/utils.rs
index 7ee7831..99a3ee1 100644
--- a/src/channel/utils.rs
+++ b/src/channel/utils.rs
@@ -73,10 +73,16 @@ where
 {
     fn next_event(self) -> EventTime {
         let events = self.under.map(|thing| thing.next_event());
-        // On a tie, an event which may also happen later takes precedence over one which is ready.
-        events
-            .max_by_key(|event| (event.key(), !matches!(event, EventTime::Ready(_))))
-            .unwrap_or(EventTime::Closed)
+        let mut all_ready = true;
+        let latest = events
+            .inspect(|event| all_ready &= matches!(event, EventTime::Ready(_)))
+            .max();
+        match latest {
+            None | Some(EventTime::Closed) => EventTime::Closed,
+            Some(event) if all_ready => event,
+            // Some events are yet to happen, so all we know is that it is not over before the latest.
+            Some(event) => EventTime::Nothing(event.key() - 1),
+        }
     }
 }
 
-- 
2.43.0


From 8f65bd09f61ce43c5b4797fec01849409b8066e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:54 +0000
Subject: [PATCH 14/15] Hooks: the DRAM constructors can be left out
 (dam_verif_no_dram)

---
 src/templates/dram.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/templates/dram.rs b/src/templates/dram.rs
index aa83bd6..3ee1fae 100644
--- a/src/templates/dram.rs
+++ b/src/templates/dram.rs
@@ -33,7 +33,7 @@ pub struct DRAMReadBundle<IT: Clone, DT: Clone> {
     data: Sender<DT>,
 }
 
-#[cfg(dam_verif)]
+#[cfg(all(dam_verif, not(dam_verif_no_dram)))]
 mod verif {
     //! Verification builds only: the configuration and the bundles have private fields and no constructors.
     use super::*;
-- 
2.43.0


From 8d21fae51121ae0e00beb1b63be25e294ecd647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:35 +0000
Subject: [PATCH 15/15] fix: a refused datastore write does not poison the
 address for readers

---
 src/templates/datastore.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/templates/datastore.rs b/src/templates/datastore.rs
index f600ca5..ff2b9e7 100644
--- a/src/templates/datastore.rs
+++ b/src/templates/datastore.rs
@@ -60,9 +60,12 @@ impl<T: DAMType> Datastore<T> {
         let entry = StoreElement { time, data };
         match hist.last() {
             Some(last) if last.time >= time => {
+                let last_time = last.time;
+                // Release the history first, so that refusing the write doesn't poison it for the readers.
+                drop(hist);
                 panic!(
                     "Attempting to write a new element in the past! ({:?} >= {:?})",
-                    last.time, time
+                    last_time, time
                 );
             }
             _ => hist.push(entry),
-- 
2.43.0

