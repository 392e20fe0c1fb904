From dc70df3ef0f762bda25433c21e54797baf95f88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 01/45] fix: reassemble chunks that use a copyable input more
 than once

A chunk with several inputs coming from the same wire (e.g. two rotations
by the same angle parameter) kept only the last of them when it was
inserted back, leaving the other ports disconnected.
---
 tket/src/passes/chunks.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 486ffdd..1484990 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -133,7 +133,12 @@ impl Chunk {
                     }
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // Multiple chunk inputs may share the same connection, if a copyable
+            // value is used more than once in the chunk.
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(chunk.node_inputs(chunk_out)) {
@@ -177,7 +182,12 @@ impl Chunk {
                     ConnectionTarget::TransitiveConnection(output_connection)
                 })
                 .collect();
-            input_map.insert(connection, connection_targets);
+            // Multiple chunk inputs may share the same connection, if a copyable
+            // value is used more than once in the chunk.
+            input_map
+                .entry(connection)
+                .or_insert_with(Vec::new)
+                .extend(connection_targets);
         }
 
         for (&wire, chunk_out_port) in self.outputs.iter().zip(hugr.node_inputs(chunk_out)) {
-- 
2.43.0


From 17c8b622f506bca21dcbd90380cbcece58431bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 02/45] fix: keep constants and their loads in the same circuit
 chunk

Splitting a circuit panicked when a chunk boundary fell between a constant
and the operation loading it, as static edges cannot cross subgraph
boundaries.
---
 tket/src/passes/chunks.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 1484990..2e01e27 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -293,9 +293,26 @@ impl CircuitChunks {
         let convex_checker = TopoConvexChecker::new(circ.hugr(), circ.parent());
         let mut running_cost = C::default();
         let mut current_group = 0;
-        for (_, commands) in &circ.commands().map(|cmd| cmd.node()).chunk_by(|&node| {
+        // Constants must be in the same chunk as the operations loading them, as
+        // static edges cannot cross the chunk boundaries.
+        let is_local_load = |node: Node| {
+            matches!(hugr.get_optype(node), OpType::LoadConstant(_))
+                && hugr
+                    .static_source(node)
+                    .is_some_and(|c| hugr.get_parent(c) == Some(circ.parent()))
+        };
+        let nodes = circ.commands().map(|cmd| cmd.node()).flat_map(|node| {
+            match hugr.get_optype(node) {
+                OpType::Const(_) => std::iter::once(node)
+                    .chain(hugr.output_neighbours(node))
+                    .collect_vec(),
+                _ if is_local_load(node) => vec![],
+                _ => vec![node],
+            }
+        });
+        for (_, commands) in &nodes.chunk_by(|&node| {
             let new_cost = running_cost.clone() + op_cost(hugr.get_optype(node));
-            if new_cost.sub_cost(&max_cost).as_isize() > 0 {
+            if new_cost.sub_cost(&max_cost).as_isize() > 0 && !is_local_load(node) {
                 running_cost = C::default();
                 current_group += 1;
             } else {
-- 
2.43.0


From 66332dffe94f80a165bd014029a9489dff0e8b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 03/45] fix: stop multithreaded badger when the search space is
 exhausted

---
 tket/src/optimiser/badger.rs        |  2 +-
 tket/src/optimiser/pqueue_worker.rs | 53 ++++++++++++++++-------------
 2 files changed, 31 insertions(+), 24 deletions(-)

diff --git a/tket/src/optimiser/badger.rs b/tket/src/optimiser/badger.rs
index d465bed..3e8b97b 100644
--- a/tket/src/optimiser/badger.rs
+++ b/tket/src/optimiser/badger.rs
@@ -306,7 +306,7 @@ where
                             logger.log_progress(processed_count, Some(queue_length), seen_count);
                         }
                         Err(crossbeam_channel::RecvError) => {
-                            logger.log("The priority channel panicked. Stopping Badger optimisation.");
+                            logger.log("No more circuits to process. Stopping Badger optimisation.");
                             let _ = pq.close();
                             break;
                         }
diff --git a/tket/src/optimiser/pqueue_worker.rs b/tket/src/optimiser/pqueue_worker.rs
index 2261c19..6fd5ce4 100644
--- a/tket/src/optimiser/pqueue_worker.rs
+++ b/tket/src/optimiser/pqueue_worker.rs
@@ -23,8 +23,8 @@ pub type Work<S, P> = Entry<S, P, u64>;
 /// add and remove states from the queue.
 #[derive(Debug, Clone)]
 pub struct StatePQWorker<S, P: Ord> {
-    /// Channel to add states to the queue.
-    push: Receiver<Vec<Work<S, P>>>,
+    /// Channel to add states to the queue. A `None` value is a signal to stop.
+    push: Receiver<Option<Vec<Work<S, P>>>>,
     /// Channel to pop states from the queue.
     pop: Sender<Work<S, P>>,
     /// Outbound channel to log to main thread.
@@ -38,6 +38,9 @@ pub struct StatePQWorker<S, P: Ord> {
     min_cost: Option<P>,
     /// The number of states we've processed.
     state_cnt: usize,
+    /// The number of batches of states that are still to be received: the
+    /// initial one, plus one for each state being processed by a worker.
+    pending: usize,
     /// The maximum cost in the queue. Shared with the workers so they can cull
     /// the states they generate.
     max_cost: Arc<RwLock<Option<P>>>,
@@ -60,7 +63,9 @@ pub enum LogMessage<S, P> {
 #[derive(Clone)]
 pub struct StatePQueueChannels<S, P> {
     /// A channel to add batches of states to the queue.
-    push: Sender<Vec<Work<S, P>>>,
+    ///
+    /// A `None` value signals the queue to stop.
+    push: Sender<Option<Vec<Work<S, P>>>>,
     /// A channel to remove the best candidate state from the queue.
     pop: Receiver<Work<S, P>>,
     /// A maximum accepted cost for the queue. States with higher costs will
@@ -74,16 +79,17 @@ impl<S, P: CircuitCost> StatePQueueChannels<S, P> {
     /// Signal the priority channel to stop.
     ///
     /// This will in turn signal the workers to stop.
-    pub fn close(&self) -> Result<(), SendError<Vec<Work<S, P>>>> {
-        self.push.send(Vec::new())
+    pub fn close(&self) -> Result<(), SendError<Option<Vec<Work<S, P>>>>> {
+        self.push.send(None)
     }
 
     /// Send a lot of states to the priority channel.
-    pub fn send(&self, work: Vec<Work<S, P>>) -> Result<(), SendError<Vec<Work<S, P>>>> {
-        if work.is_empty() {
-            return Ok(());
-        }
-        self.push.send(work)
+    ///
+    /// Must be called once with the initial states, and once per received state
+    /// with the (possibly empty) results of processing it. The queue stops when
+    /// it is empty and there are no more results to wait for.
+    pub fn send(&self, work: Vec<Work<S, P>>) -> Result<(), SendError<Option<Vec<Work<S, P>>>>> {
+        self.push.send(Some(work))
     }
 
     /// Receive a state from the priority channel.
@@ -136,7 +142,7 @@ where
     }
 
     fn new(
-        push: Receiver<Vec<Work<S, P>>>,
+        push: Receiver<Option<Vec<Work<S, P>>>>,
         pop: Sender<Work<S, P>>,
         log: Sender<LogMessage<S, P>>,
         max_cost: Arc<RwLock<Option<P>>>,
@@ -158,6 +164,7 @@ where
             pq,
             min_cost,
             state_cnt,
+            pending: 1,
             max_cost,
             local_max_cost: None,
         }
@@ -171,26 +178,24 @@ where
             .spawn(move || {
                 'main: loop {
                     while self.pq.is_empty() {
-                        let Ok(new_circs) = self.push.recv() else {
-                            // Something went wrong
-                            break 'main;
-                        };
-                        if new_circs.is_empty() {
-                            // The main thread signalled us to stop.
+                        if self.pending == 0 {
+                            // All the states have been processed.
                             break 'main;
                         }
+                        let Ok(Some(new_circs)) = self.push.recv() else {
+                            // The main thread signalled us to stop, or
+                            // something went wrong.
+                            break 'main;
+                        };
                         self.enqueue_circs(new_circs);
                     }
                     select! {
                         recv(self.push) -> result => {
-                            let Ok(new_circs) = result else {
-                                // Something went wrong
+                            let Ok(Some(new_circs)) = result else {
+                                // The main thread signalled us to stop, or
+                                // something went wrong.
                                 break 'main;
                             };
-                            if new_circs.is_empty() {
-                                // The main thread signalled us to stop.
-                                break 'main;
-                            }
                             self.enqueue_circs(new_circs);
                         }
                         send(self.pop, self.pq.pop().unwrap()) -> result => {
@@ -198,6 +203,7 @@ where
                                 // Something went wrong.
                                 break 'main;
                             }
+                            self.pending += 1;
                             self.update_max_cost();
                         }
                     }
@@ -232,6 +238,7 @@ where
 
         // This is the result from processing a state. Add it to the count.
         self.state_cnt += 1;
+        self.pending -= 1;
         if Instant::now() - self.last_progress_log > std::time::Duration::from_millis(100) {
             self.log
                 .send(LogMessage::StateCount {
-- 
2.43.0


From dc26677bb0d00e7d27e50c7c58635f823e23982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 04/45] fix: stop multithreaded badger when a worker panics

---
 tket/src/optimiser/badger/worker.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tket/src/optimiser/badger/worker.rs b/tket/src/optimiser/badger/worker.rs
index a28fd9c..5d5d53c 100644
--- a/tket/src/optimiser/badger/worker.rs
+++ b/tket/src/optimiser/badger/worker.rs
@@ -57,6 +57,18 @@ where
     /// channel.
     #[tracing::instrument(target = "badger::metrics", skip(self))]
     fn run_loop(&mut self) {
+        /// Stops the search if the worker panics, so that the main thread does
+        /// not wait for its results.
+        struct CloseOnPanic<'a, P: CircuitCost>(&'a StatePQueueChannels<Circuit, P>);
+        impl<P: CircuitCost> Drop for CloseOnPanic<'_, P> {
+            fn drop(&mut self) {
+                if thread::panicking() {
+                    let _ = self.0.close();
+                }
+            }
+        }
+        let _guard = CloseOnPanic(&self.priority_channel);
+
         loop {
             let Ok(Work {
                 state: circ, cost, ..
-- 
2.43.0


From 6b76b4332141a8738176103c12cc7cc516beb978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 05/45] fix: keep output qubit permutations when encoding
 pytket circuits

---
 .../serialize/pytket/encoder/value_tracker.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index e78fec3..89e25fd 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -10,7 +10,7 @@
 //! Extensions can define which elements they map to
 
 use std::borrow::Cow;
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashSet};
 
 use hugr::core::HugrNode;
 use hugr::ops::OpParent;
@@ -596,11 +596,6 @@ pub(super) fn compute_final_permutation(
     let declared_outputs: Vec<&RegisterUnit> = all_inputs.iter().collect();
     let mut actual_outputs_hashes: HashSet<RegisterHash> =
         actual_outputs.iter().map(RegisterHash::from).collect();
-    let mut input_hashes: HashMap<RegisterHash, usize> = HashMap::default();
-    for (i, inp) in all_inputs.iter().enumerate() {
-        let hash = inp.into();
-        input_hashes.insert(hash, i);
-    }
     // Extend `actual_outputs` with extra registers seen in the circuit.
     for reg in all_inputs {
         let hash = reg.into();
@@ -612,17 +607,15 @@ pub(super) fn compute_final_permutation(
 
     // Compute the final permutation.
     //
-    // For each element `reg` at the output of the circuit, we find its position `i` at the input,
-    // and find out the pytket output register associated with that position in the `declared_outputs` list.
+    // The register found at the `i`-th position of the circuit's output ends up in the `i`-th
+    // register of the `declared_outputs` list.
     let permutation = actual_outputs
         .iter()
-        .map(|reg| {
-            let hash = reg.into();
-            let i = input_hashes.get(&hash).unwrap();
-            let out = declared_outputs[*i].clone();
+        .zip(declared_outputs)
+        .map(|(reg, out)| {
             circuit_json::ImplicitPermutation(
                 tket_json_rs::register::Qubit { id: reg.clone() },
-                tket_json_rs::register::Qubit { id: out },
+                tket_json_rs::register::Qubit { id: out.clone() },
             )
         })
         .collect_vec();
-- 
2.43.0


From a18cb62ba43db2e5521e2b6c50d6b9ddd71912fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 06/45] fix: report write errors when saving pytket circuits
 through a buffered writer

---
 tket/src/serialize/pytket.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket.rs b/tket/src/serialize/pytket.rs
index 07af6e2..3a0cf6d 100644
--- a/tket/src/serialize/pytket.rs
+++ b/tket/src/serialize/pytket.rs
@@ -207,11 +207,13 @@ pub fn save_tk1_json_file(
 /// supported by pytket.
 pub fn save_tk1_json_writer(
     circ: &Circuit,
-    w: impl io::Write,
+    mut w: impl io::Write,
     options: EncodeOptions,
 ) -> Result<(), PytketEncodeError> {
     let serial_circ = SerialCircuit::encode(circ, options)?;
-    serde_json::to_writer(w, &serial_circ).map_err(PytketEncodeError::custom)?;
+    serde_json::to_writer(&mut w, &serial_circ).map_err(PytketEncodeError::custom)?;
+    // Buffered writers ignore errors when dropped.
+    w.flush().map_err(PytketEncodeError::custom)?;
     Ok(())
 }
 
-- 
2.43.0


From dca1959860c7c1f8dedcbfae0ba30895d0e15342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 07/45] fix: report write errors when saving compiled rewriters
 through a buffered writer

---
 tket/src/rewrite/ecc_rewriter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tket/src/rewrite/ecc_rewriter.rs b/tket/src/rewrite/ecc_rewriter.rs
index 24d717a..aefe053 100644
--- a/tket/src/rewrite/ecc_rewriter.rs
+++ b/tket/src/rewrite/ecc_rewriter.rs
@@ -135,7 +135,9 @@ impl ECCRewriter {
     ) -> Result<(), RewriterSerialisationError> {
         let mut encoder = zstd::Encoder::new(writer, 9)?;
         rmp_serde::encode::write(&mut encoder, &self)?;
-        encoder.finish()?;
+        let mut writer = encoder.finish()?;
+        // Buffered writers ignore errors when dropped.
+        io::Write::flush(&mut writer)?;
         Ok(())
     }
 
-- 
2.43.0


From 9783759cfc6f472d8238dcaa9796a27a9c8ac26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:02 +0000
Subject: [PATCH 08/45] fix: report write errors at the end of a stored circuit

---
 tket/src/serialize.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize.rs b/tket/src/serialize.rs
index e8f7913..d734f18 100644
--- a/tket/src/serialize.rs
+++ b/tket/src/serialize.rs
@@ -37,11 +37,16 @@ impl<T: HugrView> Circuit<T> {
     /// Store the circuit as a HUGR envelope, using the given configuration.
     pub fn store(
         &self,
-        writer: impl io::Write,
+        mut writer: impl io::Write,
         config: EnvelopeConfig,
     ) -> Result<(), EnvelopeError> {
         let pkg = self.wrap_package()?;
-        pkg.store(writer, config)?;
+        // Errors on the last writes are lost when the compressed encoder or a
+        // buffered writer gets dropped, so write out the complete envelope here.
+        let mut envelope = Vec::new();
+        pkg.store(&mut envelope, config)?;
+        writer.write_all(&envelope)?;
+        writer.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 984e98d0abe1f30b854ea7cd742279ee43f410fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:13 +0000
Subject: [PATCH 09/45] fix: report malformed pytket circuits as errors when
 decoding

---
 tket/src/serialize/pytket/decoder.rs       |  2 +-
 tket/src/serialize/pytket/decoder/wires.rs | 54 +++++++++++++++++-----
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 5a5cb20..99b525f 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -285,7 +285,7 @@ impl<'h> PytketDecoderContext<'h> {
             wire_tracker.track_bit(b.pytket_register_arc(), Some(b.reg_hash()))?;
         }
 
-        wire_tracker.compute_output_permutation(&serialcirc.implicit_permutation);
+        wire_tracker.compute_output_permutation(&serialcirc.implicit_permutation)?;
 
         Ok(wire_tracker)
     }
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 5cc6402..2af7651 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -1,6 +1,6 @@
 //! Structures to keep track of pytket [`ElementId`][tket_json_rs::register::ElementId]s and
 //! their correspondence to wires in the hugr being defined.
-use std::collections::{BTreeMap, VecDeque};
+use std::collections::VecDeque;
 use std::sync::Arc;
 
 use hugr::builder::{DFGBuilder, Dataflow as _};
@@ -416,20 +416,42 @@ impl WireTracker {
     ///
     /// This is used to reorder the qubit registers at the output, according to
     /// pytket's implicit permutation.
-    pub(super) fn compute_output_permutation(&mut self, permutation: &Vec<ImplicitPermutation>) {
-        let mut reordered: BTreeMap<usize, usize> = BTreeMap::new();
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if the permutation refers to an unknown qubit register,
+    /// or if it assigns multiple qubits to the same position.
+    pub(super) fn compute_output_permutation(
+        &mut self,
+        permutation: &Vec<ImplicitPermutation>,
+    ) -> Result<(), PytketDecodeError> {
+        // Qubits not mentioned in the permutation stay in place.
+        let mut reordered = (0..self.latest_qubit_tracker.len()).collect_vec();
 
-        let position = |id: &tket_json_rs::register::Qubit| {
-            let hash = RegisterHash::from(id);
-            self.latest_qubit_tracker.get_index_of(&hash).unwrap()
+        let position = |qubit: &tket_json_rs::register::Qubit| {
+            let hash = RegisterHash::from(qubit);
+            self.latest_qubit_tracker
+                .get_index_of(&hash)
+                .ok_or_else(|| {
+                    PytketDecodeErrorInner::UnknownQubitRegister {
+                        register: qubit.id.to_string(),
+                    }
+                    .wrap()
+                })
         };
 
         for ImplicitPermutation(input, output) in permutation {
-            let input_pos = position(input);
-            let output_pos = position(output);
-            reordered.insert(output_pos, input_pos);
+            let input_pos = position(input)?;
+            let output_pos = position(output)?;
+            reordered[output_pos] = input_pos;
+        }
+        if !reordered.iter().all_unique() {
+            return Err(PytketDecodeError::custom(
+                "The implicit qubit permutation is not one-to-one",
+            ));
         }
-        self.output_qubit_permutation = reordered.values().copied().collect();
+        self.output_qubit_permutation = reordered;
+        Ok(())
     }
 
     /// Returns a reference to the tracked qubit at the given index.
@@ -611,6 +633,12 @@ impl WireTracker {
                 qubit_args.push(self.tracked_qubit_for_register(arg)?.clone());
             }
         }
+        if !qubit_args.iter().map(|q| q.id()).all_unique() {
+            let registers = args.iter().map(ToString::to_string).join(", ");
+            return Err(PytketDecodeError::custom(format!(
+                "Command uses the same qubit more than once. Arguments: [{registers}]"
+            )));
+        }
         Ok((qubit_args, bit_args))
     }
 
@@ -725,8 +753,10 @@ impl WireTracker {
             // Handle lazy initialization of qubit and bit wires. These are
             // normally qubits/bits present in the pytket circuit definition,
             // but not in the region's input.
-            _ if ty == &qb_t() => self.initialize_qubit_wire(builder, qubit_args[0].clone())?,
-            _ if ty == &bool_t() || ty == &bool_type() => {
+            _ if ty == &qb_t() && !qubit_args.is_empty() => {
+                self.initialize_qubit_wire(builder, qubit_args[0].clone())?
+            }
+            _ if (ty == &bool_t() || ty == &bool_type()) && !bit_args.is_empty() => {
                 self.initialize_bit_wire(builder, bit_args[0].clone())?
             }
             _ => {
-- 
2.43.0


From e70b1345b96f55610279559035c495d18ad6d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 10/45] fix: retry interrupted reads when loading circuits

---
 tket/src/serialize.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize.rs b/tket/src/serialize.rs
index d734f18..2a88c12 100644
--- a/tket/src/serialize.rs
+++ b/tket/src/serialize.rs
@@ -72,7 +72,7 @@ impl Circuit<Hugr> {
         extensions: Option<&ExtensionRegistry>,
     ) -> Result<Self, CircuitLoadError> {
         let extensions = extensions.unwrap_or(&REGISTRY);
-        let hugr = Hugr::load(reader, Some(extensions))?;
+        let hugr = Hugr::load(RetryInterrupted(reader), Some(extensions))?;
         hugr.validate()?;
         Ok(Self::try_new(hugr)?)
     }
@@ -97,7 +97,7 @@ impl Circuit<Hugr> {
         reader: impl io::BufRead,
         function_name: impl AsRef<str>,
     ) -> Result<Self, CircuitLoadError> {
-        let pkg = Package::load(reader, Some(&REGISTRY))?;
+        let pkg = Package::load(RetryInterrupted(reader), Some(&REGISTRY))?;
         pkg.validate()?;
         Self::unwrap_package(pkg, function_name)
     }
@@ -132,6 +132,41 @@ impl Circuit<Hugr> {
     }
 }
 
+/// A reader that retries interrupted reads.
+///
+/// Some of the envelope formats do not do so themselves.
+struct RetryInterrupted<R>(R);
+
+impl<R: io::Read> io::Read for RetryInterrupted<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            match self.0.read(buf) {
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                res => return res,
+            }
+        }
+    }
+}
+
+impl<R: io::BufRead> io::BufRead for RetryInterrupted<R> {
+    fn fill_buf(&mut self) -> io::Result<&[u8]> {
+        loop {
+            match self.0.fill_buf() {
+                Ok([]) => return Ok(&[]),
+                Ok(_) => break,
+                Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                Err(e) => return Err(e),
+            }
+        }
+        // The buffer is not empty, so this does not read again.
+        self.0.fill_buf()
+    }
+
+    fn consume(&mut self, amt: usize) {
+        self.0.consume(amt)
+    }
+}
+
 /// Error type for deserialization operations on [`Circuit`]s.
 #[derive(Debug, Display, Error, From)]
 #[non_exhaustive]
-- 
2.43.0


From 33a089cc2b4dc13d8414da0c64680c02a3c41341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 11/45] fix: split circuits with constants shared between
 disconnected parts

---
 tket/src/passes/chunks.rs | 64 +++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/tket/src/passes/chunks.rs b/tket/src/passes/chunks.rs
index 2e01e27..6f461a5 100644
--- a/tket/src/passes/chunks.rs
+++ b/tket/src/passes/chunks.rs
@@ -2,19 +2,18 @@
 //!
 //! See [`CircuitChunks`] for more information.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::mem;
 use std::ops::{Index, IndexMut};
 
 use derive_more::From;
 use hugr::builder::{Container, FunctionBuilder};
 use hugr::hugr::hugrmut::HugrMut;
-use hugr::hugr::views::sibling_subgraph::TopoConvexChecker;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::hugr::{HugrError, NodeMetadataMap};
 use hugr::ops::handle::DataflowParentID;
 use hugr::ops::OpType;
-use hugr::types::Signature;
+use hugr::types::{EdgeKind, Signature};
 use hugr::{Hugr, HugrView, IncomingPort, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals as _};
 use itertools::Itertools;
@@ -49,17 +48,11 @@ impl Chunk {
     /// Extract a chunk from a circuit.
     ///
     /// The chunk is extracted from the input wires to the output wires.
-    pub(self) fn extract(
-        circ: &Circuit,
-        nodes: impl IntoIterator<Item = Node>,
-        checker: &TopoConvexChecker<'_, Hugr>,
-    ) -> Self {
-        let subgraph = SiblingSubgraph::try_from_nodes_with_checker(
-            nodes.into_iter().collect_vec(),
-            circ.hugr(),
-            checker,
-        )
-        .expect("Failed to define the chunk subgraph");
+    ///
+    /// The nodes must be consecutive in some topological order of the circuit,
+    /// and hence define a convex subgraph.
+    pub(self) fn extract(circ: &Circuit, nodes: impl IntoIterator<Item = Node>) -> Self {
+        let subgraph = chunk_subgraph(circ.hugr(), nodes.into_iter().collect_vec());
         let extracted = subgraph.extract_subgraph(circ.hugr(), "Chunk").into();
         // Transform the subgraph's input/output sets into wires that can be
         // matched between different chunks.
@@ -211,6 +204,46 @@ impl Chunk {
     }
 }
 
+/// Define the subgraph containing a set of nodes from a circuit.
+///
+/// The boundary is computed directly from the nodes. Looking for the nodes
+/// reachable from the boundary, as [`SiblingSubgraph::try_from_nodes`] does,
+/// misses some of them when an output port is linked to multiple targets.
+fn chunk_subgraph(hugr: &Hugr, nodes: Vec<Node>) -> SiblingSubgraph {
+    let node_set: HashSet<Node> = nodes.iter().copied().collect();
+    let (function_calls, inputs) = nodes
+        .iter()
+        .flat_map(|&n| hugr.node_inputs(n).map(move |p| (n, p)))
+        .filter(|&(n, p)| {
+            hugr.linked_outputs(n, p)
+                .any(|(src, _)| !node_set.contains(&src))
+        })
+        .partition::<Vec<_>, _>(|&(n, p)| {
+            matches!(hugr.get_optype(n).port_kind(p), Some(EdgeKind::Function(_)))
+        });
+    let outputs = nodes
+        .iter()
+        .flat_map(|&n| hugr.node_outputs(n).map(move |p| (n, p)))
+        .filter(|&(n, p)| {
+            hugr.linked_inputs(n, p)
+                .any(|(tgt, _)| !node_set.contains(&tgt))
+        })
+        .collect_vec();
+    SiblingSubgraph::new_unchecked(
+        // Every incoming edge is its own input.
+        inputs.into_iter().map(|port| vec![port]).collect(),
+        outputs,
+        // Group the calls to the same function.
+        function_calls
+            .into_iter()
+            .into_group_map_by(|&(n, _)| hugr.static_source(n))
+            .into_values()
+            .sorted()
+            .collect(),
+        nodes,
+    )
+}
+
 /// A map from the original input/output [`ChunkConnection`]s to an inserted chunk's inputs and outputs.
 #[derive(Debug, Clone)]
 struct ChunkInsertResult {
@@ -290,7 +323,6 @@ impl CircuitChunks {
             .collect();
 
         let mut chunks = Vec::new();
-        let convex_checker = TopoConvexChecker::new(circ.hugr(), circ.parent());
         let mut running_cost = C::default();
         let mut current_group = 0;
         // Constants must be in the same chunk as the operations loading them, as
@@ -320,7 +352,7 @@ impl CircuitChunks {
             }
             current_group
         }) {
-            chunks.push(Chunk::extract(circ, commands, &convex_checker));
+            chunks.push(Chunk::extract(circ, commands));
         }
         Self {
             signature: signature.into_owned(),
-- 
2.43.0


From 03ee2bc7978329bb29d1cf3d03f163198aa1fe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 12/45] Guarded hook: compile a HUGR in-process for
 verification

---
 qis-compiler/rust/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/qis-compiler/rust/lib.rs b/qis-compiler/rust/lib.rs
index 2127136..cf0a14b 100644
--- a/qis-compiler/rust/lib.rs
+++ b/qis-compiler/rust/lib.rs
@@ -363,6 +363,23 @@ fn compile<'c, 'hugr: 'c>(
     Ok(module)
 }
 
+/// Compile the given HUGR in-process, for verification harnesses.
+#[allow(unexpected_cfgs)]
+#[cfg(tket_verif)]
+pub fn verif_compile<'c, 'hugr: 'c>(
+    name: &str,
+    target_machine: &TargetMachine,
+    opt_level: OptimizationLevel,
+    ctx: &'c Context,
+    hugr: &'hugr mut Hugr,
+) -> Result<Module<'c>> {
+    compile(
+        &CompileArgs::new(&name, target_machine, opt_level),
+        ctx,
+        hugr,
+    )
+}
+
 /// Get the Inkwell TargetMachine for the current platform, given
 /// the provided optimization level.
 pub fn get_native_target_machine(opt_level: OptimizationLevel) -> Result<TargetMachine> {
-- 
2.43.0


From ed9505b43fa417b1a9330a0429e32b84730e85c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 13/45] fix: keep options inside tuples opaque when unpacking
 containers

The type analyser treats an option of the element type as opaque unless it is
an array element, but packing and unpacking unwrapped options inside tuples as
well, so lowering a barrier over such a tuple failed (or would have stopped the
program on an empty option).
---
 tket/src/passes/unpack_container.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index 5e48b17..af44c9a 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -351,7 +351,13 @@ impl UnpackContainerBuilder {
         let unpacked: Result<Vec<_>, _> = types
             .iter()
             .zip(wires)
-            .map(|(ty, wire)| self.unpack_container(builder, ty, wire))
+            .map(|(ty, wire)| {
+                // Keep wires that the type analyzer does not unpack
+                if !self.type_analyzer.contains_element_type(ty) {
+                    return Ok(vec![wire]);
+                }
+                self.unpack_container(builder, ty, wire)
+            })
             .collect();
 
         // Flatten the nested vector of wires
@@ -370,7 +376,10 @@ impl UnpackContainerBuilder {
             .iter()
             .map(|ty| {
                 let wire_count = self.type_analyzer.num_unpacked_wires(ty);
-                let type_wires = wires.by_ref().take(wire_count).collect();
+                let type_wires: Vec<Wire> = wires.by_ref().take(wire_count).collect();
+                if !self.type_analyzer.contains_element_type(ty) {
+                    return Ok(type_wires[0]);
+                }
                 self.repack_container(builder, ty, type_wires)
             })
             .collect()
-- 
2.43.0


From 1d9db32276a1aa59391d7bc4ca5954c88ab89449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 14/45] fix: keep the program when constant folding in
 QSystemPass

Constant folding runs on the module, whose functions it treats as dead unless
they are named as entry points: everything in main but calls and loops was
removed, or all of main.
---
 tket-qsystem/src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/tket-qsystem/src/lib.rs b/tket-qsystem/src/lib.rs
index 08a69d7..33588be 100644
--- a/tket-qsystem/src/lib.rs
+++ b/tket-qsystem/src/lib.rs
@@ -20,7 +20,8 @@ use hugr::{
         RemoveDeadFuncsPass,
     },
     hugr::{hugrmut::HugrMut, HugrError},
-    Hugr, HugrView, Node,
+    ops::Value,
+    Hugr, HugrView, IncomingPort, Node,
 };
 use lower_drops::LowerDropsPass;
 use replace_bools::{ReplaceBoolPass, ReplaceBoolPassError};
@@ -131,7 +132,7 @@ impl QSystemPass {
             inline_constant_functions(hugr)?;
         }
         if self.constant_fold {
-            self.constant_fold().run(hugr)?;
+            self.constant_fold(hugr).run(hugr)?;
         }
         if self.force_order {
             self.force_order(hugr)?;
@@ -189,8 +190,14 @@ impl QSystemPass {
         ReplaceBoolPass
     }
 
-    fn constant_fold(&self) -> ConstantFoldPass {
-        ConstantFoldPass::default()
+    /// A constant folding pass for a module-rooted HUGR, keeping all its functions.
+    fn constant_fold(&self, hugr: &Hugr) -> ConstantFoldPass {
+        let no_inputs: [(IncomingPort, Value); 0] = [];
+        hugr.children(hugr.module_root())
+            .filter(|&n| hugr.get_optype(n).is_func_defn())
+            .fold(ConstantFoldPass::default(), |pass, func| {
+                pass.with_inputs(func, no_inputs.iter().cloned())
+            })
     }
 
     fn monomorphization(&self) -> MonomorphizePass {
-- 
2.43.0


From eb863803689a3e71a38953c4aaf07b93f9afb656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 15/45] fix: repack arrays whose elements unpack to no wires

---
 tket/src/passes/unpack_container.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tket/src/passes/unpack_container.rs b/tket/src/passes/unpack_container.rs
index af44c9a..351d6f8 100644
--- a/tket/src/passes/unpack_container.rs
+++ b/tket/src/passes/unpack_container.rs
@@ -308,12 +308,13 @@ impl UnpackContainerBuilder {
 
         self.func_map.insert_with(&op, &args[..2], |func_b| {
             let input = func_b.input();
-            // SAFETY: We guarantee no aliasing by only using this pointer in this closure.
-            let elems: Result<Vec<_>, _> = input
-                .outputs()
-                .collect::<Vec<_>>()
-                .chunks(inner_row_len)
-                .map(|chunk| self.repack_container(func_b, elem_ty, chunk.to_vec()))
+            let mut wires = input.outputs();
+            // The elements may unpack to no wires at all.
+            let elems: Result<Vec<_>, _> = (0..size)
+                .map(|_| {
+                    let elem_wires = wires.by_ref().take(inner_row_len).collect();
+                    self.repack_container(func_b, elem_ty, elem_wires)
+                })
                 .collect();
 
             let array_wire = func_b.add_new_generic_array::<AK>(elem_ty.clone(), elems?)?;
-- 
2.43.0


From e109caeec894797aded8c9689f5b2c8c7ef4f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 16/45] fix: keep state order when eliding borrow-return pairs

---
 tket/src/passes/borrow_squash.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/tket/src/passes/borrow_squash.rs b/tket/src/passes/borrow_squash.rs
index 0f770dc..d032e9d 100644
--- a/tket/src/passes/borrow_squash.rs
+++ b/tket/src/passes/borrow_squash.rs
@@ -10,6 +10,7 @@ use hugr::std_extensions::arithmetic::int_types::ConstInt;
 use hugr::std_extensions::collections::borrow_array::{BArrayUnsafeOpDef, BORROW_ARRAY_TYPENAME};
 use hugr::types::{EdgeKind, Type};
 use hugr::{HugrView, IncomingPort, Node, OutgoingPort, Wire};
+use itertools::Itertools;
 
 use std::collections::hash_map::Entry;
 use std::collections::{HashMap, HashSet, VecDeque};
@@ -253,6 +254,7 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
             .single_linked_input(n, ports.out)
             .expect("array is linear");
         hugr.connect(in_array.0, in_array.1, out_array.0, out_array.1);
+        preserve_order(hugr, n);
         hugr.remove_node(n);
     }
     let mut elided: Vec<_> = rb_elisions
@@ -283,6 +285,36 @@ fn borrow_squash_traversal<H: HugrMut<Node = Node>>(
     elided
 }
 
+/// Adds the order edges between neighbours of a node that keep them in the
+/// sequence implied by the node's own order edges once the node is removed.
+fn preserve_order<H: HugrMut<Node = Node>>(hugr: &mut H, node: Node) {
+    let op = hugr.get_optype(node);
+    let (Some(order_in), Some(order_out)) = (op.other_input_port(), op.other_output_port()) else {
+        return;
+    };
+    let order_preds: HashSet<Node> = hugr.linked_outputs(node, order_in).map(|l| l.0).collect();
+    let order_succs: HashSet<Node> = hugr.linked_inputs(node, order_out).map(|l| l.0).collect();
+
+    let mut edges = Vec::new();
+    for pred in hugr.input_neighbours(node).unique() {
+        for succ in hugr.output_neighbours(node).unique() {
+            let ordered = order_preds.contains(&pred) || order_succs.contains(&succ);
+            let siblings = hugr.get_parent(pred) == hugr.get_parent(succ);
+            if ordered && siblings && !hugr.get_optype(pred).is_load_constant() {
+                edges.push((pred, succ));
+            }
+        }
+    }
+    for (pred, succ) in edges {
+        // A value edge is not enough: it may be gone after the next elision.
+        let port = hugr.get_optype(pred).other_output_port();
+        let ordered = port.is_some_and(|p| hugr.linked_inputs(pred, p).any(|l| l.0 == succ));
+        if !ordered {
+            hugr.add_other_edge(pred, succ);
+        }
+    }
+}
+
 fn next_array_op(
     hugr: &impl HugrView<Node = Node>,
     candidates: &mut impl Extend<Wire>,
-- 
2.43.0


From b48745e29c9c278cfb10f1c594d60f11256ee5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 17/45] fix: removing tuple unpacks handles unused elements and
 several users

---
 tket/src/passes/tuple_unpack.rs | 74 ++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/tket/src/passes/tuple_unpack.rs b/tket/src/passes/tuple_unpack.rs
index 52ca10d..1b71a2c 100644
--- a/tket/src/passes/tuple_unpack.rs
+++ b/tket/src/passes/tuple_unpack.rs
@@ -8,7 +8,7 @@ use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::ops::{OpTrait, OpType};
 use hugr::types::Type;
-use hugr::{HugrView, Node};
+use hugr::{HugrView, Node, PortIndex};
 use itertools::Itertools;
 
 use crate::circuit::Command;
@@ -80,63 +80,63 @@ fn make_rewrite<T: HugrView<Node = Node>>(
     }
 
     // Remove all unpack operations, but only remove the pack operation if all neighbours are unpacks.
-    let num_other_outputs = links.len() - unpack_nodes.len();
     Some(remove_pack_unpack(
         circ,
         &tuple_types,
         tuple_node,
         unpack_nodes,
-        num_other_outputs,
     ))
 }
 
-/// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations,
-/// and `other_tuple_links` other operations.
+/// Returns a rewrite to remove a tuple pack operation that's followed by unpack operations.
+///
+/// If the tuple has other uses, the pack operation is kept for them.
 fn remove_pack_unpack<T: HugrView<Node = Node>>(
     circ: &Circuit<T>,
     tuple_types: &[Type],
     pack_node: Node,
     unpack_nodes: Vec<Node>,
-    num_other_outputs: usize,
 ) -> CircuitRewrite {
-    let num_unpack_outputs = tuple_types.len() * unpack_nodes.len();
-
     let mut nodes = unpack_nodes;
     nodes.push(pack_node);
     let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).expect("is convex");
     let subcirc_signature = subgraph.signature(circ.hugr());
 
-    // The output port order in `Subcircuit::try_from_nodes` is not too well defined.
-    // Check that the outputs are in the expected order.
-    debug_assert!(
-        itertools::equal(
-            subcirc_signature.output().iter(),
-            tuple_types
+    let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
+
+    // The wires packed in the tuple, in order. A subgraph input may be used for
+    // more than one of them.
+    let inputs = replacement.input_wires().collect_vec();
+    let elements = (0..tuple_types.len())
+        .map(|i| {
+            let port = (pack_node, i.into());
+            let input = subgraph
+                .incoming_ports()
                 .iter()
-                .cycle()
-                .take(num_unpack_outputs)
-                .chain(itertools::repeat_n(
-                    &Type::new_tuple(tuple_types.to_vec()),
-                    num_other_outputs
-                ))
-        ),
-        "Unpacked tuple values must come before tupled values"
-    );
+                .position(|ports| ports.contains(&port))
+                .expect("pack inputs come from outside the subgraph");
+            inputs[input]
+        })
+        .collect_vec();
 
-    let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
-    let mut outputs = Vec::with_capacity(num_unpack_outputs + num_other_outputs);
-
-    // Wire the inputs directly to the unpack outputs
-    outputs.extend(replacement.input_wires().cycle().take(num_unpack_outputs));
-
-    // If needed, re-add the tuple pack node and connect its output to the tuple outputs.
-    if num_other_outputs > 0 {
-        let op = MakeTuple::new(tuple_types.to_vec().into());
-        let [tuple] = replacement
-            .add_dataflow_op(op, replacement.input_wires())
-            .unwrap()
-            .outputs_arr();
-        outputs.extend(std::iter::repeat_n(tuple, num_other_outputs))
+    // Wire the inputs directly to the unpack outputs, and re-add the tuple pack
+    // node if there are other uses of the tuple.
+    let mut tuple = None;
+    let mut outputs = Vec::with_capacity(subgraph.outgoing_ports().len());
+    for &(node, port) in subgraph.outgoing_ports() {
+        if node != pack_node {
+            outputs.push(elements[port.index()]);
+            continue;
+        }
+        let wire = *tuple.get_or_insert_with(|| {
+            let op = MakeTuple::new(tuple_types.to_vec().into());
+            let [tuple] = replacement
+                .add_dataflow_op(op, elements.iter().copied())
+                .unwrap()
+                .outputs_arr();
+            tuple
+        });
+        outputs.push(wire);
     }
 
     let replacement = replacement
-- 
2.43.0


From cc335ad9a97b8442e4cdc93a9f80ae49e2096a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:56 +0000
Subject: [PATCH 18/45] fix: leave module constants out of pytket opaque
 subgraphs

The encoder recorded an unsupported module-level constant as an unsupported node of the region, so the stored subgraph was not a valid flat subgraph.
---
 tket/src/serialize/pytket/encoder.rs | 37 ++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 1759437..18273d1 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -12,7 +12,7 @@ pub use value_tracker::{
     TrackedBit, TrackedParam, TrackedQubit, TrackedValue, TrackedValues, ValueTracker,
 };
 
-use hugr::ops::{OpTrait, OpType};
+use hugr::ops::{Const, OpTrait, OpType};
 use hugr::types::EdgeKind;
 
 use std::borrow::Cow;
@@ -899,13 +899,8 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 }
             }
             OpType::Const(op) => {
-                let config = Arc::clone(&self.config);
-                if self.config().type_to_pytket(&op.get_type()).is_some() {
-                    if let Some(values) = config.const_to_pytket(&op.value, self)? {
-                        let wire = Wire::new(node, 0);
-                        self.values.register_wire(wire, values.into_iter(), circ)?;
-                        return Ok(EncodeStatus::Success);
-                    }
+                if self.try_encode_const(node, op, circ)? == EncodeStatus::Success {
+                    return Ok(EncodeStatus::Success);
                 }
             }
             // TODO: DFG and function call emissions are temporarily disabled,
@@ -941,6 +936,26 @@ impl<H: HugrView> PytketEncoderContext<H> {
         Ok(EncodeStatus::Unsupported)
     }
 
+    /// Encode a constant definition, registering its values if the type is supported.
+    ///
+    /// Does not add the node to the unsupported set otherwise.
+    fn try_encode_const(
+        &mut self,
+        node: H::Node,
+        constant: &Const,
+        circ: &Circuit<H>,
+    ) -> Result<EncodeStatus, PytketEncodeError<H::Node>> {
+        let config = Arc::clone(&self.config);
+        if config.type_to_pytket(&constant.get_type()).is_some() {
+            if let Some(values) = config.const_to_pytket(&constant.value, self)? {
+                let wire = Wire::new(node, 0);
+                self.values.register_wire(wire, values.into_iter(), circ)?;
+                return Ok(EncodeStatus::Success);
+            }
+        }
+        Ok(EncodeStatus::Unsupported)
+    }
+
     /// The toposort traversal in `run_encoder` only explores nodes in the
     /// region.
     ///
@@ -992,8 +1007,10 @@ impl<H: HugrView> PytketEncoderContext<H> {
                     self.values
                         .register_wire::<TrackedValue>(wire, vec![], circ)?;
                 }
-                OpType::Const(_) => {
-                    if self.try_encode_node(neigh, circ)? == EncodeStatus::Unsupported {
+                OpType::Const(constant) => {
+                    // Do not record unsupported constants as such, since they
+                    // are not part of the region being encoded.
+                    if self.try_encode_const(neigh, constant, circ)? == EncodeStatus::Unsupported {
                         return Ok(EncodeStatus::Unsupported);
                     }
                 }
-- 
2.43.0


From 27d516fc347d71b409cb28052b91b5711fb35a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:58 +0000
Subject: [PATCH 19/45] fix: do not reuse pytket registers that still hold a
 value

The encoder handed out qubits and bits of already explored wires as fresh registers, while other commands could still read them or expected them to be unset.
---
 .../serialize/pytket/config/encoder_config.rs |  2 +-
 tket/src/serialize/pytket/encoder.rs          |  2 +-
 .../serialize/pytket/encoder/value_tracker.rs | 48 ++++++++++++-------
 tket/src/serialize/pytket/extension/bool.rs   |  4 +-
 4 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/tket/src/serialize/pytket/config/encoder_config.rs b/tket/src/serialize/pytket/config/encoder_config.rs
index faf2f03..9ddb598 100644
--- a/tket/src/serialize/pytket/config/encoder_config.rs
+++ b/tket/src/serialize/pytket/config/encoder_config.rs
@@ -121,7 +121,7 @@ impl<H: HugrView> PytketEncoderConfig<H> {
             match value {
                 Value::Sum(sum) => {
                     if sum.sum_type == SumType::new_unary(2) {
-                        let new_bit = encoder.values.new_bit();
+                        let new_bit = encoder.values.new_unset_bit();
                         if value == &Value::true_val() {
                             let op = set_bits_op(&[true]);
                             encoder.emit_command(op, &[], &[new_bit], None);
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 18273d1..45d3931 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -1069,7 +1069,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         };
         let output_bits = match options.reuse_bits_fn {
             Some(f) => f(input_bits),
-            None => input_bits.to_vec(),
+            None => Vec::new(),
         };
 
         // Compute all the output parameters at once
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 89e25fd..30006a4 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -62,6 +62,11 @@ pub struct ValueTracker<N> {
     /// We draw names from here when a new bit name is needed, before
     /// resorting to the `bit_reg_generator`.
     unused_bits: BTreeSet<TrackedBit>,
+    /// Bits of region inputs that are never read.
+    ///
+    /// These may hold any value at the start of the circuit, so they can only
+    /// be reused by commands that overwrite them.
+    overwritable_bits: BTreeSet<TrackedBit>,
 
     /// A generator of new registers units to use for qubit wires.
     qubit_reg_generator: RegisterUnitGenerator,
@@ -222,6 +227,7 @@ impl<N: HugrNode> ValueTracker<N> {
             wires: BTreeMap::new(),
             unused_qubits: BTreeSet::new(),
             unused_bits: BTreeSet::new(),
+            overwritable_bits: BTreeSet::new(),
             qubit_reg_generator: RegisterUnitGenerator::default(),
             bit_reg_generator: RegisterUnitGenerator::default(),
             input_params: Vec::with_capacity(param_variable_names.len()),
@@ -247,6 +253,7 @@ impl<N: HugrNode> ValueTracker<N> {
             PytketEncodeError::NonDataflowRegion { region, optype }
         })?;
         let inp_node = circ.hugr().get_io(region).unwrap()[0];
+        let mut overwritable_bits = BTreeSet::new();
         for (port, typ) in circ
             .hugr()
             .node_outputs(inp_node)
@@ -270,6 +277,9 @@ impl<N: HugrNode> ValueTracker<N> {
             for _ in 0..count.bits {
                 let bit = tracker.new_bit();
                 wire_values.push(TrackedValue::Bit(bit));
+                if circ.hugr().linked_ports(inp_node, port).next().is_none() {
+                    overwritable_bits.insert(bit);
+                }
             }
             for _ in 0..count.params {
                 let param_name = param_gen.next().unwrap();
@@ -280,6 +290,7 @@ impl<N: HugrNode> ValueTracker<N> {
 
             tracker.register_wire(wire, wire_values, circ)?;
         }
+        tracker.overwritable_bits = overwritable_bits;
 
         Ok(tracker)
     }
@@ -299,7 +310,20 @@ impl<N: HugrNode> ValueTracker<N> {
     ///
     /// Picks unused names from the `bits` list, if available, or generates
     /// a new one with the internal generator.
+    ///
+    /// The bit may be one that holds an input value that is never read, so it
+    /// must be overwritten by a command. See [`ValueTracker::new_unset_bit`].
     pub fn new_bit(&mut self) -> TrackedBit {
+        self.overwritable_bits
+            .pop_first()
+            .unwrap_or_else(|| self.new_unset_bit())
+    }
+
+    /// Create a new bit register name, that no other value has used before.
+    ///
+    /// Picks unused names from the `bits` list, if available, or generates
+    /// a new one with the internal generator.
+    pub fn new_unset_bit(&mut self) -> TrackedBit {
         self.unused_bits.pop_first().unwrap_or_else(|| {
             self.bits.push(self.bit_reg_generator.next());
             TrackedBit(self.bits.len() - 1)
@@ -357,7 +381,7 @@ impl<N: HugrNode> ValueTracker<N> {
 
         if unexplored_neighbours == 0 {
             // We can unregister the wire immediately, since it has no unexplored
-            // neighbours. This will free up the qubit and bit registers associated with it.
+            // neighbours.
             self.unregister_wire(wire)
                 .expect("Wire should be registered in the tracker");
         }
@@ -399,27 +423,15 @@ impl<N: HugrNode> ValueTracker<N> {
         Some(&values[..])
     }
 
-    /// Unregister a wire, freeing up the qubit and bit registers associated with it.
+    /// Unregister a wire.
+    ///
+    /// The qubit and bit registers associated with it still hold the last value
+    /// they were used for, so they are not handed out again as fresh registers.
     ///
     /// Panics if the wire is not registered.
     fn unregister_wire(&mut self, wire: Wire<N>) -> Option<Vec<TrackedValue>> {
         let wire = self.wires.remove(&wire).unwrap();
-        let values = wire.values?;
-
-        // Free up the qubit and bit registers associated with the wire.
-        for value in &values {
-            match value {
-                TrackedValue::Qubit(qb) => {
-                    self.unused_qubits.insert(*qb);
-                }
-                TrackedValue::Bit(bit) => {
-                    self.unused_bits.insert(*bit);
-                }
-                TrackedValue::Param(_) => {}
-            }
-        }
-
-        Some(values)
+        wire.values
     }
 
     /// Returns the qubit register associated with a qubit value.
diff --git a/tket/src/serialize/pytket/extension/bool.rs b/tket/src/serialize/pytket/extension/bool.rs
index 4ae5fed..df551c6 100644
--- a/tket/src/serialize/pytket/extension/bool.rs
+++ b/tket/src/serialize/pytket/extension/bool.rs
@@ -60,7 +60,7 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
         // variable inputs. If new [`BoolOp`]s are added that do not follow
         // this, the following code will need to be adjusted.
         let bit_count = (num_inputs + num_outputs) as usize;
-        let output_bits = (0..num_outputs).collect_vec();
+        let output_bits = (num_inputs..num_inputs + num_outputs).collect_vec();
         let mut expression = ClOperator::default();
         expression.op = clop;
         expression.args = (0..num_inputs)
@@ -81,7 +81,7 @@ impl<H: HugrView> PytketEmitter<H> for BoolEmitter {
             return Ok(None);
         };
 
-        let new_bit = encoder.values.new_bit();
+        let new_bit = encoder.values.new_unset_bit();
         if const_b.value() {
             let op = set_bits_op(&[true]);
             encoder.emit_command(op, &[], &[new_bit], None);
-- 
2.43.0


From 5b8686c49f87a10b49377481ff0893f8174978b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:00 +0000
Subject: [PATCH 20/45] fix: keep the order of the output bits in reassembled
 pytket circuits

The decoder connected region outputs to the bits in register order, regardless of which bits the encoder had assigned to the outputs.
---
 tket/src/serialize/pytket.rs                  |  2 +-
 tket/src/serialize/pytket/circuit.rs          | 11 +++++++++--
 tket/src/serialize/pytket/decoder.rs          | 19 +++++++++++++++++--
 tket/src/serialize/pytket/encoder.rs          |  1 +
 .../serialize/pytket/encoder/value_tracker.rs |  3 +++
 tket/src/serialize/pytket/extension/core.rs   |  2 +-
 6 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/tket/src/serialize/pytket.rs b/tket/src/serialize/pytket.rs
index 3a0cf6d..70edb44 100644
--- a/tket/src/serialize/pytket.rs
+++ b/tket/src/serialize/pytket.rs
@@ -134,7 +134,7 @@ impl TKETDecode for SerialCircuit {
     ) -> Result<Node, Self::DecodeError> {
         let mut decoder = PytketDecoderContext::new(self, hugr, target, options, None)?;
         decoder.run_decoder(&self.commands, None)?;
-        Ok(decoder.finish(&[])?.node())
+        Ok(decoder.finish(&[], &[])?.node())
     }
 
     fn encode(circuit: &Circuit, options: EncodeOptions) -> Result<Self, Self::EncodeError> {
diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index 100eb6b..cbdd872 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -14,6 +14,7 @@ use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 use rayon::iter::{IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelIterator};
 use tket_json_rs::circuit_json::{Command as PytketCommand, SerialCircuit};
+use tket_json_rs::register::ElementId;
 
 use crate::serialize::pytket::decoder::PytketDecoderContext;
 use crate::serialize::pytket::opaque::SubgraphId;
@@ -64,6 +65,10 @@ pub(super) struct EncodedCircuitInfo {
     /// We require this to correctly reconstruct the input order in the reassembled hugr,
     /// since parameters in pytket are unordered.
     pub input_params: Vec<String>,
+    /// List of bit registers in the order they appear in the hugr output.
+    ///
+    /// Multiple outputs may use the same bit, and not all bits are outputs.
+    pub output_bits: Vec<ElementId>,
     /// List of output parameter expressions found at the end of the encoded region.
     //
     // TODO: The decoder does not currently connect these, everything that
@@ -195,7 +200,9 @@ impl EncodedCircuit<Node> {
                 &encoded.serial_circuit.commands,
                 Some(&encoded.additional_nodes_and_wires),
             )?;
-            let decoded_node = decoder.finish(&encoded.output_params)?.node();
+            let decoded_node = decoder
+                .finish(&encoded.output_bits, &encoded.output_params)?
+                .node();
 
             // Move any non-local edges from originating from the old input node.
             let old_input = hugr.get_io(original_region).unwrap()[0];
@@ -366,7 +373,7 @@ impl<Node: HugrNode> EncodedCircuit<Node> {
         let mut decoder =
             PytketDecoderContext::new(serial_circuit, &mut hugr, target, options, None)?;
         decoder.run_decoder(&serial_circuit.commands, None)?;
-        decoder.finish(&[])?;
+        decoder.finish(&[], &[])?;
         Ok(hugr)
     }
 
diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 99b525f..e04f032 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -28,6 +28,7 @@ use itertools::Itertools;
 use serde_json::json;
 use tket_json_rs::circuit_json;
 use tket_json_rs::circuit_json::SerialCircuit;
+use tket_json_rs::register::ElementId as PytketRegister;
 
 use super::{
     PytketDecodeError, METADATA_B_REGISTERS, METADATA_INPUT_PARAMETERS, METADATA_PHASE,
@@ -300,16 +301,30 @@ impl<'h> PytketDecoderContext<'h> {
     ///
     /// # Arguments
     ///
+    /// - `output_bits`: The bit registers to associate with the region's
+    ///   outputs, in order. If empty, all known bits are used in the order they
+    ///   were registered.
     /// - `output_params`: A list of output parameter expressions to associate
     ///   with the region's outputs.
-    pub(super) fn finish(mut self, output_params: &[String]) -> Result<Node, PytketDecodeError> {
+    pub(super) fn finish(
+        mut self,
+        output_bits: &[PytketRegister],
+        output_params: &[String],
+    ) -> Result<Node, PytketDecodeError> {
         // Order the final wires according to the serial circuit register order.
         let known_qubits = self
             .wire_tracker
             .known_pytket_qubits()
             .cloned()
             .collect_vec();
-        let known_bits = self.wire_tracker.known_pytket_bits().cloned().collect_vec();
+        let known_bits = if output_bits.is_empty() {
+            self.wire_tracker.known_pytket_bits().cloned().collect_vec()
+        } else {
+            output_bits
+                .iter()
+                .map(|b| self.wire_tracker.tracked_bit_for_register(b).cloned())
+                .try_collect()?
+        };
         let mut qubits = known_qubits.as_slice();
         let mut bits = known_bits.as_slice();
 
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 45d3931..367ebbf 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -262,6 +262,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
         let info = EncodedCircuitInfo {
             serial_circuit: ser,
             input_params: tracker_result.input_params,
+            output_bits: tracker_result.output_bits,
             output_params: tracker_result.params,
             additional_nodes_and_wires: AdditionalNodesAndWires {
                 extra_subgraph,
diff --git a/tket/src/serialize/pytket/encoder/value_tracker.rs b/tket/src/serialize/pytket/encoder/value_tracker.rs
index 30006a4..3c86a95 100644
--- a/tket/src/serialize/pytket/encoder/value_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/value_tracker.rs
@@ -190,6 +190,8 @@ pub struct ValueTrackerResult {
     pub qubits: Vec<RegisterUnit>,
     /// The final list of bit registers.
     pub bits: Vec<RegisterUnit>,
+    /// The bit registers at the output, in order.
+    pub output_bits: Vec<RegisterUnit>,
     /// The final list of parameter expressions at the output.
     pub params: Vec<String>,
     /// The implicit permutation of the qubit registers.
@@ -499,6 +501,7 @@ impl<N: HugrNode> ValueTracker<N> {
         Ok(ValueTrackerResult {
             qubits: self.qubits,
             bits: self.bits,
+            output_bits: bit_outputs,
             params: param_outputs,
             qubit_permutation,
             input_params: self.input_params,
diff --git a/tket/src/serialize/pytket/extension/core.rs b/tket/src/serialize/pytket/extension/core.rs
index 3cabde8..822f8d0 100644
--- a/tket/src/serialize/pytket/extension/core.rs
+++ b/tket/src/serialize/pytket/extension/core.rs
@@ -86,7 +86,7 @@ impl PytketDecoder for CoreDecoder {
                     decoder.opaque_subgraphs,
                 )?;
                 nested_decoder.run_decoder(&serial_circuit.commands, None)?;
-                let internal = nested_decoder.finish(&[])?.node();
+                let internal = nested_decoder.finish(&[], &[])?.node();
 
                 decoder
                     .wire_up_node(internal, qubits, qubits, bits, bits, params)
-- 
2.43.0


From 8e1562c99b5f38b92d8b68f3c00b98b6bbe88a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 21/45] fix: do not overwrite the input bits of pytket opaque
 subgraphs

Output bits of an opaque subgraph reused the registers of its inputs, and the decoder marked all of them as outdated, so later uses of the inputs failed or read the wrong value. Qubits initialised by the subgraph inputs were also freed twice.
---
 tket/src/serialize/pytket/decoder/subgraph.rs | 90 ++++++++++++++-----
 tket/src/serialize/pytket/decoder/wires.rs    |  9 ++
 tket/src/serialize/pytket/encoder.rs          |  5 +-
 3 files changed, 78 insertions(+), 26 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index b74d2a2..a7fdf13 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -30,7 +30,7 @@ impl<'h> PytketDecoderContext<'h> {
         params: &[LoadedParameter],
         payload: &OpaqueSubgraphPayload,
     ) -> Result<DecodeStatus, PytketDecodeError> {
-        let status = match payload {
+        match payload {
             OpaqueSubgraphPayload::External { id } => {
                 self.insert_external_subgraph(*id, qubits, bits, params)
             }
@@ -39,17 +39,7 @@ impl<'h> PytketDecoderContext<'h> {
                 inputs,
                 outputs,
             } => self.insert_inline_subgraph(hugr_envelope, inputs, outputs, qubits, bits, params),
-        }?;
-
-        // Mark the used qubits and bits as outdated.
-        qubits.iter().for_each(|q| {
-            self.wire_tracker.mark_qubit_outdated(q.clone());
-        });
-        bits.iter().for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
-
-        Ok(status)
+        }
     }
 
     /// Move the subgraph nodes referenced by an
@@ -77,27 +67,73 @@ impl<'h> PytketDecoderContext<'h> {
             self.builder.hugr_mut().set_parent(node, new_parent);
         }
 
-        self.rewire_external_subgraph_inputs(
+        let new_bits = self.rewire_external_subgraph_inputs(
             subgraph, qubits, bits, params, old_parent, new_parent,
         )?;
+        let output_bits =
+            self.subgraph_output_bits(subgraph.signature().output().iter(), bits, new_bits);
+        self.mark_consumed_qubits(qubits);
 
-        self.rewire_external_subgraph_outputs(subgraph, qubits, bits, old_parent, new_parent)?;
+        self.rewire_external_subgraph_outputs(
+            subgraph,
+            qubits,
+            output_bits,
+            old_parent,
+            new_parent,
+        )?;
 
         Ok(DecodeStatus::Success)
     }
 
+    /// Mark the qubits used by a subgraph as outdated, before tracking the ones
+    /// in its outputs.
+    ///
+    /// The inputs may have been given a new value while they were being wired
+    /// up, by initializing the register or converting its type.
+    ///
+    /// Bits can be copied, so they can still be used afterwards.
+    fn mark_consumed_qubits(&mut self, qubits: &[TrackedQubit]) {
+        for q in qubits {
+            self.wire_tracker.mark_latest_qubit_outdated(q);
+        }
+    }
+
+    /// Returns the bit arguments set by a subgraph.
+    ///
+    /// These follow the ones in the subgraph's inputs, unless there are not
+    /// enough of them. Older versions of the encoder overwrote the inputs.
+    fn subgraph_output_bits<'a, 'ty>(
+        &self,
+        output_types: impl IntoIterator<Item = &'ty Type>,
+        bits: &'a [TrackedBit],
+        new_bits: &'a [TrackedBit],
+    ) -> &'a [TrackedBit] {
+        let count: usize = output_types
+            .into_iter()
+            .filter_map(|ty| self.config().type_to_pytket(ty))
+            .filter(|c| c.params == 0)
+            .map(|c| c.bits)
+            .sum();
+        match new_bits.len() < count {
+            true => bits,
+            false => new_bits,
+        }
+    }
+
     /// Rewire the inputs of an external subgraph moved to the new region.
     ///
+    /// Returns the bits that were not used in the inputs.
+    ///
     /// Helper for [`Self::insert_external_subgraph`].
-    fn rewire_external_subgraph_inputs(
+    fn rewire_external_subgraph_inputs<'a>(
         &mut self,
         subgraph: &OpaqueSubgraph<Node>,
         mut input_qubits: &[TrackedQubit],
-        mut input_bits: &[TrackedBit],
+        mut input_bits: &'a [TrackedBit],
         mut input_params: &[LoadedParameter],
         old_parent: Node,
         new_parent: Node,
-    ) -> Result<(), PytketDecodeError> {
+    ) -> Result<&'a [TrackedBit], PytketDecodeError> {
         let old_input = self.builder.hugr().get_io(old_parent).unwrap()[0];
         let new_input = self.builder.hugr().get_io(new_parent).unwrap()[0];
 
@@ -148,7 +184,7 @@ impl<'h> PytketDecoderContext<'h> {
                 .connect(wire.node(), wire.source(), *tgt_node, *tgt_port);
         }
 
-        Ok(())
+        Ok(input_bits)
     }
 
     /// Rewire the outputs of an external subgraph moved to the new region.
@@ -315,7 +351,7 @@ impl<'h> PytketDecoderContext<'h> {
             .insert_forest(to_insert_hugr, insertion_roots)
             .unwrap_or_else(|e| panic!("Invalid `insertion_roots`. {e}"));
 
-        self.wire_inline_subgraph_inputs(
+        let new_bits = self.wire_inline_subgraph_inputs(
             qubits,
             bits,
             params,
@@ -324,9 +360,13 @@ impl<'h> PytketDecoderContext<'h> {
             &insertion_result,
         )?;
 
+        let output_bits =
+            self.subgraph_output_bits(payload_outputs.iter().map(|(ty, _)| ty), bits, new_bits);
+        self.mark_consumed_qubits(qubits);
+
         self.wire_inline_subgraph_outputs(
             qubits,
-            bits,
+            output_bits,
             payload_outputs,
             to_insert_outputs,
             &insertion_result,
@@ -337,16 +377,18 @@ impl<'h> PytketDecoderContext<'h> {
 
     /// Wire the inputs of a newly inserted inline subgraph.
     ///
+    /// Returns the bits that were not used in the inputs.
+    ///
     /// Helper for [`Self::insert_inline_subgraph`].
-    fn wire_inline_subgraph_inputs(
+    fn wire_inline_subgraph_inputs<'a>(
         &mut self,
         mut input_qubits: &[TrackedQubit],
-        mut input_bits: &[TrackedBit],
+        mut input_bits: &'a [TrackedBit],
         mut input_params: &[LoadedParameter],
         payload_inputs: &[(Type, EncodedEdgeID)],
         to_insert_inputs: hugr::hugr::views::sibling_subgraph::IncomingPorts<Node>,
         insertion_result: &InsertedForest,
-    ) -> Result<(), PytketDecodeError> {
+    ) -> Result<&'a [TrackedBit], PytketDecodeError> {
         // A list of incoming ports corresponding to [`EncodedEdgeID`]s that must be
         // connected once the outgoing port is created.
         //
@@ -385,7 +427,7 @@ impl<'h> PytketDecoderContext<'h> {
             }
         }
 
-        Ok(())
+        Ok(input_bits)
     }
 
     /// Wire the outputs of a newly inserted inline subgraph.
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 2af7651..b17921b 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -555,6 +555,15 @@ impl WireTracker {
         }
     }
 
+    /// Mark the latest value of a qubit register as outdated.
+    ///
+    /// This is used when the register is consumed by an operation.
+    pub fn mark_latest_qubit_outdated(&mut self, qubit: &TrackedQubit) {
+        if let Some(id) = self.latest_qubit_tracker.get(&qubit.reg_hash()) {
+            self.qubits[id.0].mark_outdated();
+        }
+    }
+
     /// Mark a qubit as outdated, without adding a new wire containing the fresh value.
     ///
     /// This is used when a hugr operation consumes pytket registers as its inputs, but doesn't use them in the outputs.
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index 367ebbf..b653e2b 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -624,9 +624,10 @@ impl<H: HugrView> PytketEncoderContext<H> {
         // back to the encoded subcircuit's function name.
         let mut out_param_count = 0;
         let input_qubits = op_values.qubits.clone();
-        let input_bits = op_values.bits.clone();
         let mut out_qubits = input_qubits.as_slice();
-        let mut out_bits = input_bits.as_slice();
+        // Bits may have other uses after this command, so the subgraph never
+        // overwrites its inputs. Output bits follow the input ones.
+        let mut out_bits: &[TrackedBit] = &[];
 
         for ((out_node, out_port), ty) in subgraph
             .outgoing_ports()
-- 
2.43.0


From bef46e5b0881af2817bb5a0b888c89d6624148c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 22/45] fix: track converted pytket wires with their new type

---
 tket/src/serialize/pytket/decoder/wires.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index b17921b..0cd746f 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -817,8 +817,7 @@ impl WireTracker {
         if wire == new_wire {
             Ok(FoundWire::Register(self.wires[&wire].clone()))
         } else {
-            let ty: Arc<Type> = wire_data.ty.clone();
-            self.track_wire(new_wire, ty, wire_qubits, wire_bits)?;
+            self.track_wire(new_wire, Arc::new(ty.clone()), wire_qubits, wire_bits)?;
             self.mark_wire_outdated(wire);
             Ok(FoundWire::Register(self.wires[&new_wire].clone()))
         }
-- 
2.43.0


From 8e9445983775f3881628d5e1835169eb77265f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 23/45] fix: pack and unpack tuples when decoding pytket
 circuits

The encoder flattens tuples into their elements, but the decoder could not rebuild or take apart a tuple crossing an opaque subgraph boundary.
---
 tket/src/serialize/pytket/decoder/wires.rs | 194 +++++++++++++++++----
 1 file changed, 160 insertions(+), 34 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 0cd746f..932fd03 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -4,7 +4,7 @@ use std::collections::VecDeque;
 use std::sync::Arc;
 
 use hugr::builder::{DFGBuilder, Dataflow as _};
-use hugr::extension::prelude::{bool_t, qb_t};
+use hugr::extension::prelude::{bool_t, qb_t, MakeTuple, UnpackTuple};
 use hugr::hugr::hugrmut::HugrMut;
 use hugr::ops::Value;
 use hugr::std_extensions::arithmetic::float_types::{float64_type, ConstF64};
@@ -750,6 +750,28 @@ impl WireTracker {
         let wire_bits = bit_args.iter().take(reg_count.bits).cloned().collect_vec();
         let wire_bit_ids = wire_bits.iter().map(|bit| bit.id()).collect_vec();
 
+        // Check that none of the selected qubit or bit has been marked as outdated.
+        if let Some(qubit) = qubit_args
+            .iter()
+            .take(reg_count.qubits)
+            .find(|q| q.is_outdated())
+        {
+            return Err(PytketDecodeErrorInner::OutdatedQubit {
+                qubit: qubit.pytket_register().to_string(),
+            }
+            .wrap());
+        }
+        if let Some(bit) = bit_args
+            .iter()
+            .take(reg_count.bits)
+            .find(|b| b.is_outdated())
+        {
+            return Err(PytketDecodeErrorInner::OutdatedBit {
+                bit: bit.pytket_register().to_string(),
+            }
+            .wrap());
+        }
+
         // Find a wire that contains the correct type..
         let check_wire = |w: &Wire| {
             let wire_data = &self.wires[w];
@@ -757,8 +779,26 @@ impl WireTracker {
                 && wire_data.bits == wire_bit_ids
                 && config.types_are_isomorphic(wire_data.ty(), ty)
         };
-        let wire = match candidates.into_iter().find(check_wire) {
+        let wire = match candidates.iter().copied().find(check_wire) {
             Some(wire) => wire,
+            // The encoder flattens tuples into their elements, so these may need
+            // to be packed or unpacked to get the requested type.
+            None if self.unpack_tuple_wires(config, builder, &candidates)? => {
+                return self.find_typed_wire(
+                    config,
+                    builder,
+                    ty,
+                    qubit_args,
+                    bit_args,
+                    params,
+                    unsupported_wire,
+                );
+            }
+            None if tuple_elements(ty).is_some_and(|elems| !elems.is_empty()) => {
+                return self
+                    .pack_tuple_wire(config, builder, ty, qubit_args, bit_args, params)
+                    .map(FoundWire::Register);
+            }
             // Handle lazy initialization of qubit and bit wires. These are
             // normally qubits/bits present in the pytket circuit definition,
             // but not in the region's input.
@@ -784,28 +824,6 @@ impl WireTracker {
             }
         };
 
-        // Check that none of the selected qubit or bit has been marked as outdated.
-        if let Some(qubit) = qubit_args
-            .iter()
-            .take(reg_count.qubits)
-            .find(|q| q.is_outdated())
-        {
-            return Err(PytketDecodeErrorInner::OutdatedQubit {
-                qubit: qubit.pytket_register().to_string(),
-            }
-            .wrap());
-        }
-        if let Some(bit) = bit_args
-            .iter()
-            .take(reg_count.bits)
-            .find(|b| b.is_outdated())
-        {
-            return Err(PytketDecodeErrorInner::OutdatedBit {
-                bit: bit.pytket_register().to_string(),
-            }
-            .wrap());
-        }
-
         // Mark the qubits and bits as used.
         *qubit_args = &qubit_args[reg_count.qubits..];
         *bit_args = &bit_args[reg_count.bits..];
@@ -823,6 +841,101 @@ impl WireTracker {
         }
     }
 
+    /// Unpack the wires in the list that contain a tuple, tracking each of
+    /// their elements separately.
+    ///
+    /// Returns `true` if any wire was unpacked.
+    fn unpack_tuple_wires(
+        &mut self,
+        config: &PytketDecoderConfig,
+        builder: &mut DFGBuilder<&mut Hugr>,
+        wires: &[Wire],
+    ) -> Result<bool, PytketDecodeError> {
+        let mut unpacked = false;
+        for wire in wires {
+            let wire_data = self.wires[wire].clone();
+            let Some(elem_types) = tuple_elements(wire_data.ty()) else {
+                continue;
+            };
+            // Ignore wires that have already been consumed.
+            if (wire_data.qubits.iter()).any(|q| self.qubits[q.0].is_outdated()) {
+                continue;
+            }
+
+            let elem_wires = builder
+                .add_dataflow_op(UnpackTuple::new(elem_types.clone().into()), [*wire])
+                .map_err(PytketDecodeError::custom)?
+                .outputs();
+
+            // The tuple is no longer available.
+            for q in &wire_data.qubits {
+                self.qubit_wires[q].retain(|w| w != wire);
+            }
+            for b in &wire_data.bits {
+                self.bit_wires[b].retain(|w| w != wire);
+            }
+
+            // The registers keep their values, so we don't track new ones.
+            let mut qubits = wire_data.qubits.into_iter();
+            let mut bits = wire_data.bits.into_iter();
+            for (elem_wire, elem_ty) in elem_wires.zip(elem_types) {
+                let count = config.type_to_pytket(&elem_ty).unwrap_or_default();
+                self.insert_wire(WireData {
+                    wire: elem_wire,
+                    ty: Arc::new(elem_ty),
+                    qubits: qubits.by_ref().take(count.qubits).collect(),
+                    bits: bits.by_ref().take(count.bits).collect(),
+                });
+            }
+            unpacked = true;
+        }
+        Ok(unpacked)
+    }
+
+    /// Pack the wires containing the elements of a tuple.
+    ///
+    /// See [`WireTracker::find_typed_wire`] for the arguments.
+    fn pack_tuple_wire(
+        &mut self,
+        config: &PytketDecoderConfig,
+        builder: &mut DFGBuilder<&mut Hugr>,
+        ty: &Type,
+        qubit_args: &mut &[TrackedQubit],
+        bit_args: &mut &[TrackedBit],
+        params: &mut &[LoadedParameter],
+    ) -> Result<WireData, PytketDecodeError> {
+        let elem_types = tuple_elements(ty).unwrap_or_default();
+        let mut elem_wires = Vec::with_capacity(elem_types.len());
+        let mut qubits = Vec::new();
+        let mut bits = Vec::new();
+        for elem_ty in &elem_types {
+            let elem =
+                self.find_typed_wire(config, builder, elem_ty, qubit_args, bit_args, params, None)?;
+            match elem {
+                FoundWire::Register(wire_data) => {
+                    elem_wires.push(wire_data.wire());
+                    qubits.extend(wire_data.qubits);
+                    bits.extend(wire_data.bits);
+                }
+                FoundWire::Parameter(param) => elem_wires.push(param.wire()),
+                FoundWire::Unsupported { .. } => unreachable!("unsupported_wire was not defined"),
+            }
+        }
+
+        let wire = builder
+            .add_dataflow_op(MakeTuple::new(elem_types.into()), elem_wires)
+            .map_err(PytketDecodeError::custom)?
+            .out_wire(0);
+        let wire_data = WireData {
+            wire,
+            ty: Arc::new(ty.clone()),
+            qubits,
+            bits,
+        };
+        self.insert_wire(wire_data.clone());
+        Ok(wire_data)
+    }
+
     /// Returns a new [TrackedWires] set for a list of [`TrackedQubit`]s,
     /// [`TrackedBit`]s, and [`LoadedParameter`]s following the required types.
     ///
@@ -1059,24 +1172,27 @@ impl WireTracker {
             })
             .collect::<Result<_, _>>()?;
 
-        for &q in &qubits {
-            self.qubit_wires[&q].push(wire);
-        }
-        for &b in &bits {
-            self.bit_wires[&b].push(wire);
-        }
-
-        let wire_data = WireData {
+        self.insert_wire(WireData {
             wire,
             ty,
             qubits,
             bits,
-        };
-        self.wires.insert(wire, wire_data);
+        });
 
         Ok(())
     }
 
+    /// Track a new wire containing already tracked elements.
+    fn insert_wire(&mut self, wire_data: WireData) {
+        for q in &wire_data.qubits {
+            self.qubit_wires[q].push(wire_data.wire);
+        }
+        for b in &wire_data.bits {
+            self.bit_wires[b].push(wire_data.wire);
+        }
+        self.wires.insert(wire_data.wire, wire_data);
+    }
+
     /// Associate an input wire to the region with a parameter.
     pub(super) fn register_input_parameter(
         &mut self,
@@ -1187,6 +1303,16 @@ impl WireTracker {
     }
 }
 
+/// Returns the element types of a tuple, or `None` if the type is not a tuple
+/// with a known number of elements.
+fn tuple_elements(ty: &Type) -> Option<Vec<Type>> {
+    ty.as_sum()?
+        .as_tuple()?
+        .iter()
+        .map(|elem| elem.clone().try_into().ok())
+        .collect()
+}
+
 /// Only single-indexed registers are supported.
 fn check_register(register: &PytketRegister) -> Result<(), PytketDecodeError> {
     if register.1.len() != 1 {
-- 
2.43.0


From 8b59085e7c0e0544c525230f96aa238a9888224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 24/45] fix: reconnect parameters computed by pytket opaque
 subgraphs

Parameters computed by an opaque subgraph were replaced by an opaque symbolic expression, or connected twice. Outputs of a subgraph also used inside of it were disconnected.
---
 tket/src/serialize/pytket/circuit.rs          | 12 ++---
 tket/src/serialize/pytket/decoder.rs          | 14 +++---
 tket/src/serialize/pytket/decoder/subgraph.rs | 42 ++++++++++++++----
 tket/src/serialize/pytket/decoder/wires.rs    |  5 +++
 tket/src/serialize/pytket/encoder.rs          | 44 +++++++++----------
 tket/src/serialize/pytket/opaque.rs           |  7 +++
 6 files changed, 77 insertions(+), 47 deletions(-)

diff --git a/tket/src/serialize/pytket/circuit.rs b/tket/src/serialize/pytket/circuit.rs
index cbdd872..213292d 100644
--- a/tket/src/serialize/pytket/circuit.rs
+++ b/tket/src/serialize/pytket/circuit.rs
@@ -80,13 +80,13 @@ pub(super) struct EncodedCircuitInfo {
 /// pytket circuit, as they cannot be attached to a pytket command.
 #[derive(Debug, Clone)]
 pub(super) struct AdditionalNodesAndWires {
-    /// A subgraph of the region that does not contain any operation encodable
-    /// as a pytket command, and has no qubit/bits in its boundary that could be
+    /// Subgraphs of the region that do not contain any operation encodable
+    /// as a pytket command, and have no qubit/bits in their boundary that could be
     /// used to emit an opaque barrier command in the [`serial_circuit`].
-    pub extra_subgraph: Option<SubgraphId>,
-    /// Parameter expression inputs to the `extra_subgraph`.
-    /// These cannot be encoded either if there's no pytket command to attach them to.
-    pub extra_subgraph_params: Vec<String>,
+    ///
+    /// Includes the parameter expression inputs to each subgraph, since
+    /// these cannot be encoded either if there's no pytket command to attach them to.
+    pub extra_subgraphs: Vec<(SubgraphId, Vec<String>)>,
     /// List of wires that directly connected the input node to the output node in the encoded region,
     /// and were not encoded in [`serial_circuit`].
     ///
diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index e04f032..7258892 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -471,12 +471,12 @@ impl<'h> PytketDecoderContext<'h> {
     /// # Arguments
     ///
     /// - `commands`: The list of pytket commands to decode.
-    /// - `extra_subgraph`: An additional subgraph of the original Hugr that was
+    /// - `extra_subgraphs`: Additional subgraphs of the original Hugr that were
     ///   not encoded as a pytket command, and must be decoded independently.
     /// - `straight_through_wires`: A list of wires that directly connected the
     ///   input node to the output node in the original region, and were not
     ///   encoded in the pytket circuit or unsupported graphs.
-    ///   (They cannot be encoded in `extra_subgraph`).
+    ///   (They cannot be encoded in `extra_subgraphs`).
     pub(super) fn run_decoder(
         &mut self,
         commands: &[circuit_json::Command],
@@ -492,14 +492,10 @@ impl<'h> PytketDecoderContext<'h> {
         // Add additional subgraphs and wires not encoded in commands.
         let [input_node, output_node] = self.builder.io();
         if let Some(extras) = extra_nodes_and_wires {
-            if let Some(subgraph_id) = extras.extra_subgraph {
-                let params = extras
-                    .extra_subgraph_params
-                    .iter()
-                    .map(|p| self.load_half_turns(p))
-                    .collect_vec();
+            for (subgraph_id, params) in &extras.extra_subgraphs {
+                let params = params.iter().map(|p| self.load_half_turns(p)).collect_vec();
 
-                self.insert_external_subgraph(subgraph_id, &[], &[], &params)
+                self.insert_external_subgraph(*subgraph_id, &[], &[], &params)
                     .map_err(|e| e.hugr_op("External subgraph"))?;
             }
 
diff --git a/tket/src/serialize/pytket/decoder/subgraph.rs b/tket/src/serialize/pytket/decoder/subgraph.rs
index a7fdf13..d2ab445 100644
--- a/tket/src/serialize/pytket/decoder/subgraph.rs
+++ b/tket/src/serialize/pytket/decoder/subgraph.rs
@@ -6,13 +6,15 @@ use std::sync::Arc;
 use hugr::builder::Container;
 use hugr::hugr::hugrmut::{HugrMut, InsertedForest};
 use hugr::ops::{OpTag, OpTrait};
+use hugr::std_extensions::arithmetic::float_types::float64_type;
 use hugr::types::Type;
 use hugr::{Hugr, HugrView, Node, OutgoingPort, PortIndex, Wire};
 use hugr_core::hugr::internal::HugrMutInternals;
 use itertools::Itertools;
 
 use crate::serialize::pytket::decoder::{
-    DecodeStatus, FoundWire, LoadedParameter, PytketDecoderContext, TrackedBit, TrackedQubit,
+    DecodeStatus, FoundWire, LoadedParameter, ParameterType, PytketDecoderContext, TrackedBit,
+    TrackedQubit,
 };
 use crate::serialize::pytket::extension::RegisterCount;
 use crate::serialize::pytket::opaque::{
@@ -75,6 +77,7 @@ impl<'h> PytketDecoderContext<'h> {
         self.mark_consumed_qubits(qubits);
 
         self.rewire_external_subgraph_outputs(
+            id,
             subgraph,
             qubits,
             output_bits,
@@ -195,6 +198,7 @@ impl<'h> PytketDecoderContext<'h> {
     /// Helper for [`Self::insert_external_subgraph`].
     fn rewire_external_subgraph_outputs(
         &mut self,
+        id: SubgraphId,
         subgraph: &OpaqueSubgraph<Node>,
         qubits: &[TrackedQubit],
         bits: &[TrackedBit],
@@ -206,6 +210,7 @@ impl<'h> PytketDecoderContext<'h> {
 
         let mut output_qubits = qubits;
         let mut output_bits = bits;
+        let mut output_params = 0;
 
         for (ty, (src, src_port)) in subgraph
             .signature()
@@ -217,13 +222,34 @@ impl<'h> PytketDecoderContext<'h> {
             // to track new qubits and bits, re-connect it to some output, or
             // leave it untouched.
             let wire = Wire::new(*src, *src_port);
-            if let Some(counts) = self.config().type_to_pytket(ty).filter(|c| c.params == 0) {
-                // This port declares new outputs to be tracked by the decoder.
-                // Output parameters from a subgraph are always marked as not supported (they don't map to any pytket argument variable).
-
-                // Make sure to disconnect the old wire.
-                self.builder.hugr_mut().disconnect(*src, *src_port);
-
+            let counts = self.config().type_to_pytket(ty);
+            if counts.is_some() {
+                // This port is replaced by new outputs to be tracked by the decoder.
+                // Make sure to disconnect it from the nodes left in the old region.
+                let old_targets = self
+                    .builder
+                    .hugr()
+                    .linked_inputs(*src, *src_port)
+                    .filter(|(node, _)| self.builder.hugr().get_parent(*node) == Some(old_parent))
+                    .collect_vec();
+                for (node, port) in old_targets {
+                    self.builder.hugr_mut().disconnect(node, port);
+                }
+            }
+            if let Some(counts) = counts.filter(|c| c.params > 0) {
+                // The parameter is referred to by name in the pytket commands.
+                let param_ty = match ty == &float64_type() {
+                    true => ParameterType::FloatHalfTurns,
+                    false => ParameterType::Rotation,
+                };
+                for _ in 0..counts.params {
+                    self.wire_tracker.register_subgraph_parameter(
+                        LoadedParameter::new(param_ty, wire),
+                        id.output_param_name(output_params),
+                    );
+                    output_params += 1;
+                }
+            } else if let Some(counts) = counts {
                 let wire_qubits = split_off(&mut output_qubits, ..counts.qubits);
                 let wire_bits = split_off(&mut output_bits, ..counts.bits);
                 if wire_qubits.is_none() || wire_bits.is_none() {
diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 932fd03..9a8d396 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -1211,6 +1211,11 @@ impl WireTracker {
         Ok(())
     }
 
+    /// Associate a parameter computed by an opaque subgraph with its variable name.
+    pub(super) fn register_subgraph_parameter(&mut self, loaded: LoadedParameter, param: String) {
+        self.parameters.insert(param, loaded);
+    }
+
     /// Track a parameter input to the region for which we don't have a variable name yet.
     pub(super) fn register_unused_parameter_input(&mut self, loaded: LoadedParameter) {
         self.unused_parameter_inputs.push_back(loaded);
diff --git a/tket/src/serialize/pytket/encoder.rs b/tket/src/serialize/pytket/encoder.rs
index b653e2b..5dbb017 100644
--- a/tket/src/serialize/pytket/encoder.rs
+++ b/tket/src/serialize/pytket/encoder.rs
@@ -16,7 +16,7 @@ use hugr::ops::{Const, OpTrait, OpType};
 use hugr::types::EdgeKind;
 
 use std::borrow::Cow;
-use std::collections::{BTreeSet, HashMap};
+use std::collections::HashMap;
 use std::ops::RangeTo;
 use std::sync::{Arc, RwLock};
 
@@ -33,7 +33,7 @@ use crate::circuit::Circuit;
 use crate::serialize::pytket::circuit::{AdditionalNodesAndWires, EncodedCircuitInfo};
 use crate::serialize::pytket::config::PytketEncoderConfig;
 use crate::serialize::pytket::extension::RegisterCount;
-use crate::serialize::pytket::opaque::{OpaqueSubgraph, OpaqueSubgraphPayload};
+use crate::serialize::pytket::opaque::{OpaqueSubgraph, OpaqueSubgraphPayload, SubgraphId};
 
 /// The state of an in-progress [`SerialCircuit`] being built from a [`Circuit`].
 #[derive(derive_more::Debug)]
@@ -224,30 +224,23 @@ impl<H: HugrView> PytketEncoderContext<H> {
         region: H::Node,
     ) -> Result<(EncodedCircuitInfo, OpaqueSubgraphs<H::Node>), PytketEncodeError<H::Node>> {
         // Add any remaining unsupported nodes
-        let mut extra_subgraph: Option<BTreeSet<H::Node>> = None;
-        let mut extra_subgraph_params = Vec::new();
+        let mut extra_subgraphs = Vec::new();
         while !self.unsupported.is_empty() {
             let node = self.unsupported.iter().next().unwrap();
-            let opaque_subgraphs = self.unsupported.extract_component(node, circ.hugr())?;
-            match self.emit_unsupported(&opaque_subgraphs, circ) {
+            let opaque_subgraph = self.unsupported.extract_component(node, circ.hugr())?;
+            let subgraph_id = self
+                .opaque_subgraphs
+                .register_opaque_subgraph(opaque_subgraph.clone());
+            match self.emit_unsupported(subgraph_id, &opaque_subgraph, circ) {
                 Ok(()) => (),
                 Err(PytketEncodeError::UnsupportedSubgraphHasNoRegisters { params }) => {
-                    // We'll store the nodes in the `extra_subgraph` field of the `EncodedCircuitInfo`.
+                    // We'll store the subgraph in the `extra_subgraphs` field of the `EncodedCircuitInfo`.
                     // So the decoder can reconstruct the original subgraph.
-                    extra_subgraph
-                        .get_or_insert_default()
-                        .extend(opaque_subgraphs.nodes().iter().cloned());
-                    extra_subgraph_params.extend(params);
+                    extra_subgraphs.push((subgraph_id, params));
                 }
                 Err(e) => return Err(e),
             }
         }
-        let extra_subgraph = extra_subgraph
-            .map(|nodes| -> Result<_, PytketEncodeError<H::Node>> {
-                let subgraph = OpaqueSubgraph::try_from_nodes(nodes, circ.hugr())?;
-                Ok(self.opaque_subgraphs.register_opaque_subgraph(subgraph))
-            })
-            .transpose()?;
 
         let tracker_result = self.values.finish(circ, region)?;
 
@@ -265,8 +258,7 @@ impl<H: HugrView> PytketEncoderContext<H> {
             output_bits: tracker_result.output_bits,
             output_params: tracker_result.params,
             additional_nodes_and_wires: AdditionalNodesAndWires {
-                extra_subgraph,
-                extra_subgraph_params,
+                extra_subgraphs,
                 straight_through_wires: tracker_result.straight_through_wires,
             },
         };
@@ -314,7 +306,10 @@ impl<H: HugrView> PytketEncoderContext<H> {
             let unsupported_nodes = self
                 .unsupported
                 .extract_component(wire.node(), circ.hugr())?;
-            self.emit_unsupported(&unsupported_nodes, circ)?;
+            let subgraph_id = self
+                .opaque_subgraphs
+                .register_opaque_subgraph(unsupported_nodes.clone());
+            self.emit_unsupported(subgraph_id, &unsupported_nodes, circ)?;
             debug_assert!(!self.unsupported.is_unsupported(wire.node()));
             return self.get_wire_values(wire, circ);
         }
@@ -580,17 +575,16 @@ impl<H: HugrView> PytketEncoderContext<H> {
     ///
     /// ## Arguments
     ///
+    /// - `subgraph_id`: The ID of the subgraph in the encoder's opaque subgraph set.
     /// - `subgraph`: The subgraph of unsupported nodes to encode as an opaque subgraph.
     /// - `circ`: The circuit containing the unsupported nodes.
     fn emit_unsupported(
         &mut self,
+        subgraph_id: SubgraphId,
         subgraph: &OpaqueSubgraph<H::Node>,
         circ: &Circuit<H>,
     ) -> Result<(), PytketEncodeError<H::Node>> {
         // Encode a payload referencing the subgraph in the Hugr.
-        let subgraph_id = self
-            .opaque_subgraphs
-            .register_opaque_subgraph(subgraph.clone());
         let payload = OpaqueSubgraphPayload::new_external(subgraph_id);
 
         // Collects the input values for the subgraph.
@@ -648,7 +642,9 @@ impl<H: HugrView> PytketEncoderContext<H> {
                 |p| {
                     let range = out_param_count..out_param_count + p.expected_count;
                     out_param_count += p.expected_count;
-                    range.map(|i| format!("{subgraph_id}_out{i}")).collect_vec()
+                    range
+                        .map(|i| subgraph_id.output_param_name(i))
+                        .collect_vec()
                 },
             )?;
             op_values.append(new_outputs);
diff --git a/tket/src/serialize/pytket/opaque.rs b/tket/src/serialize/pytket/opaque.rs
index 0006831..1d1d5d7 100644
--- a/tket/src/serialize/pytket/opaque.rs
+++ b/tket/src/serialize/pytket/opaque.rs
@@ -28,6 +28,13 @@ pub struct SubgraphId {
     local_id: usize,
 }
 
+impl SubgraphId {
+    /// The name of the pytket variable for a parameter output of the subgraph.
+    pub(super) fn output_param_name(&self, index: usize) -> String {
+        format!("sub{}_{}_out{index}", self.tracker_id, self.local_id)
+    }
+}
+
 impl serde::Serialize for SubgraphId {
     fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
         (&self.tracker_id, &self.local_id).serialize(s)
-- 
2.43.0


From 526e65215b144da3e2803e1139f6a56092eba012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 25/45] fix: bits read by a pytket command can be read again

---
 tket/src/serialize/pytket/decoder.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder.rs b/tket/src/serialize/pytket/decoder.rs
index 7258892..98ca6a9 100644
--- a/tket/src/serialize/pytket/decoder.rs
+++ b/tket/src/serialize/pytket/decoder.rs
@@ -716,9 +716,6 @@ impl<'h> PytketDecoderContext<'h> {
                 .hugr_mut()
                 .connect(wire.node(), wire.source(), node, input_idx);
         }
-        input_bits.iter().take(op_input_count.bits).for_each(|b| {
-            self.wire_tracker.mark_bit_outdated(b.clone());
-        });
 
         // Register the output wires.
         let output_qubits = output_qubits.iter().take(op_output_count.qubits).cloned();
-- 
2.43.0


From 82aa9f207b7af1d33f07722cf6591728f6eb7e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 26/45] fix: do not unpack tuples of qubits twice when decoding
 pytket circuits

---
 tket/src/serialize/pytket/decoder/wires.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index 9a8d396..a30a4f9 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -852,7 +852,7 @@ impl WireTracker {
         wires: &[Wire],
     ) -> Result<bool, PytketDecodeError> {
         let mut unpacked = false;
-        for wire in wires {
+        for wire in wires.iter().unique() {
             let wire_data = self.wires[wire].clone();
             let Some(elem_types) = tuple_elements(wire_data.ty()) else {
                 continue;
@@ -926,14 +926,13 @@ impl WireTracker {
             .add_dataflow_op(MakeTuple::new(elem_types.into()), elem_wires)
             .map_err(PytketDecodeError::custom)?
             .out_wire(0);
-        let wire_data = WireData {
+        // The wires of the elements keep tracking the registers.
+        Ok(WireData {
             wire,
             ty: Arc::new(ty.clone()),
             qubits,
             bits,
-        };
-        self.insert_wire(wire_data.clone());
-        Ok(wire_data)
+        })
     }
 
     /// Returns a new [TrackedWires] set for a list of [`TrackedQubit`]s,
-- 
2.43.0


From 8b182875099244e7d3cdb13ffff9057a9f42275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 27/45] fix: encode and decode pytket barriers on bits and
 unsupported types

---
 tket-qsystem/src/pytket/qsystem.rs             |  8 ++++++++
 tket/src/serialize/pytket/extension/prelude.rs | 14 +++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/tket-qsystem/src/pytket/qsystem.rs b/tket-qsystem/src/pytket/qsystem.rs
index 96d0483..dd996ed 100644
--- a/tket-qsystem/src/pytket/qsystem.rs
+++ b/tket-qsystem/src/pytket/qsystem.rs
@@ -104,6 +104,14 @@ impl QSystemEmitter {
         circ: &Circuit<H>,
         encoder: &mut PytketEncoderContext<H>,
     ) -> Result<EncodeStatus, PytketEncodeError<H::Node>> {
+        // The array has no pytket registers unless its type can be translated.
+        let config = encoder.config();
+        let signature = circ.hugr().signature(node).unwrap_or_default();
+        if (signature.input_types().iter())
+            .any(|ty| config.type_to_pytket(ty).is_none_or(|c| c.params > 0))
+        {
+            return Ok(EncodeStatus::Unsupported);
+        }
         encoder.emit_node(
             PytketOptype::Barrier,
             node,
diff --git a/tket/src/serialize/pytket/extension/prelude.rs b/tket/src/serialize/pytket/extension/prelude.rs
index b525c8f..0ba597a 100644
--- a/tket/src/serialize/pytket/extension/prelude.rs
+++ b/tket/src/serialize/pytket/extension/prelude.rs
@@ -10,7 +10,7 @@ use crate::serialize::pytket::extension::{PytketDecoder, PytketTypeTranslator, R
 use crate::serialize::pytket::opaque::OpaqueSubgraphPayload;
 use crate::serialize::pytket::{PytketDecodeError, PytketEncodeError};
 use crate::Circuit;
-use hugr::extension::prelude::{bool_t, qb_t, BarrierDef, Noop, TupleOpDef, PRELUDE_ID};
+use hugr::extension::prelude::{bool_t, qb_t, Barrier, Noop, TupleOpDef, PRELUDE_ID};
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::extension::ExtensionId;
 use hugr::ops::{ExtensionOp, OpType};
@@ -37,7 +37,15 @@ impl<H: HugrView> PytketEmitter<H> for PreludeEmitter {
         if let Ok(tuple_op) = TupleOpDef::from_extension_op(op) {
             return self.tuple_op_to_pytket(node, op, &tuple_op, circ, encoder);
         };
-        if let Ok(_barrier) = BarrierDef::from_extension_op(op) {
+        if let Ok(barrier) = Barrier::from_extension_op(op) {
+            // The barrier can only be encoded if all the types it acts on are
+            // made out of pytket registers.
+            let config = encoder.config();
+            if (barrier.type_row.iter())
+                .any(|ty| config.type_to_pytket(ty).is_none_or(|c| c.params > 0))
+            {
+                return Ok(EncodeStatus::Unsupported);
+            }
             encoder.emit_node(
                 PytketOptype::Barrier,
                 node,
@@ -158,7 +166,7 @@ impl PytketDecoder for PreludeEmitter {
         if !params.is_empty() {
             return Ok(DecodeStatus::Unsupported);
         }
-        decoder.add_node_with_wires(op, qubits, qubits, bits, &[], &[])?;
+        decoder.add_node_with_wires(op, qubits, qubits, bits, bits, &[])?;
 
         Ok(DecodeStatus::Success)
     }
-- 
2.43.0


From 818fab031b3c81e177dcf763788f7d2030722cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:14 +0000
Subject: [PATCH 28/45] fix: keep futures of unsupported types opaque in pytket
 circuits

---
 tket-qsystem/src/pytket/futures.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tket-qsystem/src/pytket/futures.rs b/tket-qsystem/src/pytket/futures.rs
index b687493..27e7c61 100644
--- a/tket-qsystem/src/pytket/futures.rs
+++ b/tket-qsystem/src/pytket/futures.rs
@@ -39,6 +39,14 @@ impl<H: HugrView> PytketEmitter<H> for FutureEmitter {
             return Ok(EncodeStatus::Unsupported);
         };
 
+        // Futures of types without pytket registers are not tracked.
+        let signature = circ.hugr().signature(node).unwrap_or_default();
+        if (signature.input_types().iter())
+            .any(|ty| encoder.config().type_to_pytket(ty).is_none())
+        {
+            return Ok(EncodeStatus::Unsupported);
+        }
+
         match rot_op {
             FutureOpDef::Read => {
                 // Transparent map
-- 
2.43.0


From 7a7021b48fb4a1121c2e3d8b2b896fe70b50a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:18 +0000
Subject: [PATCH 29/45] fix: report pytket subgraphs that cannot be stored
 inline

---
 tket/src/serialize/pytket/opaque/subgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/serialize/pytket/opaque/subgraph.rs b/tket/src/serialize/pytket/opaque/subgraph.rs
index a001088..6369792 100644
--- a/tket/src/serialize/pytket/opaque/subgraph.rs
+++ b/tket/src/serialize/pytket/opaque/subgraph.rs
@@ -174,7 +174,7 @@ impl<N: HugrNode> OpaqueSubgraph<N> {
         hugr: &impl HugrView<Node = N>,
     ) -> Result<Hugr, InvalidSubgraph<N>> {
         let nodes = self.nodes().iter().cloned().collect_vec();
-        let subgraph = SiblingSubgraph::try_from_nodes(nodes, hugr).unwrap();
+        let subgraph = SiblingSubgraph::try_from_nodes(nodes, hugr)?;
         Ok(subgraph.extract_subgraph(hugr, ""))
     }
 }
-- 
2.43.0


From 9b80044f14adeffcca1c7509171153960bd6574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:18 +0000
Subject: [PATCH 30/45] fix: emit unsupported subgraphs in a fixed order in
 pytket circuits

---
 tket/src/serialize/pytket/encoder/unsupported_tracker.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tket/src/serialize/pytket/encoder/unsupported_tracker.rs b/tket/src/serialize/pytket/encoder/unsupported_tracker.rs
index 8b5739b..4f0d6d4 100644
--- a/tket/src/serialize/pytket/encoder/unsupported_tracker.rs
+++ b/tket/src/serialize/pytket/encoder/unsupported_tracker.rs
@@ -1,6 +1,6 @@
 //! Tracking of subgraphs of unsupported nodes in the hugr.
 
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet};
 
 use hugr::core::HugrNode;
 use hugr::HugrView;
@@ -23,7 +23,7 @@ pub struct UnsupportedTracker<N> {
     /// Stores the index of each node in [`Self::components`].
     ///
     /// Once a node has been extracted, it is removed from this map.
-    nodes: HashMap<N, UnsupportedNode>,
+    nodes: BTreeMap<N, UnsupportedNode>,
     /// A UnionFind structure for tracking connected components of `Self::nodes`.
     components: UnionFind<usize>,
 }
@@ -44,7 +44,7 @@ impl<N: HugrNode> UnsupportedTracker<N> {
     /// Create a new [`UnsupportedTracker`].
     pub fn new(_circ: &Circuit<impl HugrView>) -> Self {
         Self {
-            nodes: HashMap::new(),
+            nodes: BTreeMap::new(),
             components: UnionFind::new_empty(),
         }
     }
@@ -118,7 +118,7 @@ impl<N: HugrNode> UnsupportedTracker<N> {
 impl<N> Default for UnsupportedTracker<N> {
     fn default() -> Self {
         Self {
-            nodes: HashMap::new(),
+            nodes: BTreeMap::new(),
             components: UnionFind::new_empty(),
         }
     }
-- 
2.43.0


From 59561b7a84303c80e12267b35a5edc8897026448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:05 +0000
Subject: [PATCH 31/45] fix: keep the data of pytket barriers that are already
 standalone

---
 tket/src/serialize/pytket/opaque.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tket/src/serialize/pytket/opaque.rs b/tket/src/serialize/pytket/opaque.rs
index 1d1d5d7..436ed63 100644
--- a/tket/src/serialize/pytket/opaque.rs
+++ b/tket/src/serialize/pytket/opaque.rs
@@ -136,11 +136,11 @@ impl<N: HugrNode> OpaqueSubgraphs<N> {
         if command.op.op_type != tket_json_rs::OpType::Barrier {
             return Ok(());
         }
-        let Some(payload) = command.op.data.take() else {
+        let Some(payload) = &command.op.data else {
             return Ok(());
         };
 
-        let Some(subgraph_id) = OpaqueSubgraphPayload::parse_external_id(&payload) else {
+        let Some(subgraph_id) = OpaqueSubgraphPayload::parse_external_id(payload) else {
             // Not an External Payload, nothing to do.
             return Ok(());
         };
-- 
2.43.0


From 28fcdc52f4eea578fbceead7d0329fbbff8f9e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 32/45] fix: read equivalence classes from JSON in a fixed
 order

The classes were collected in hash maps, so the order of the rules, and with
it the circuits the optimiser finds, depended on the hash seed of the process.
---
 tket/src/optimiser/badger/qtz_circuit.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tket/src/optimiser/badger/qtz_circuit.rs b/tket/src/optimiser/badger/qtz_circuit.rs
index 6533613..831d483 100644
--- a/tket/src/optimiser/badger/qtz_circuit.rs
+++ b/tket/src/optimiser/badger/qtz_circuit.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::io;
 use std::path::Path;
 
@@ -114,11 +114,12 @@ impl From<RepCircData> for Circuit<Hugr> {
     }
 }
 
+/// Load the circuits of each equivalence class, in the order of the class names.
 pub(super) fn load_ecc_set(
     path: impl AsRef<Path>,
-) -> io::Result<HashMap<String, Vec<Circuit<Hugr>>>> {
+) -> io::Result<BTreeMap<String, Vec<Circuit<Hugr>>>> {
     let jsons = std::fs::read_to_string(path)?;
-    let (_, ecc_map): (Vec<()>, HashMap<String, Vec<RepCircData>>) =
+    let (_, ecc_map): (Vec<()>, BTreeMap<String, Vec<RepCircData>>) =
         serde_json::from_str(&jsons).unwrap();
 
     Ok(ecc_map
-- 
2.43.0


From 58636784f9eeff3d3e7ff82cdfb9d34c4a86ff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 33/45] fix: order of the control arrays in modified signatures

Control modifiers of different sizes on one function gave a signature with the
arrays in reverse order, and an invalid program.
---
 tket/src/modifier/modifier_resolver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 33d1404..73e78f8 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -704,7 +704,8 @@ impl<N: HugrNode> ModifierResolver<N> {
             input.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
             output.to_mut().splice(0..0, iter::repeat_n(qb_t(), n));
         } else {
-            for ctrls in &self.modifiers.accum_ctrl {
+            // The arrays are packed and unpacked in the order of `accum_ctrl`.
+            for ctrls in self.modifiers.accum_ctrl.iter().rev() {
                 let n = *ctrls as u64;
                 input.to_mut().insert(0, array_type(n, qb_t()));
                 output.to_mut().insert(0, array_type(n, qb_t()));
-- 
2.43.0


From 0b495b6fd6207cf8697cd701e063f09e7e2970f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 34/45] fix: remove tuple packs and unpacks in generic
 functions

The replacement was validated without the type parameters of the function, and
the rewrite panicked.
---
 tket/src/passes/tuple_unpack.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/tket/src/passes/tuple_unpack.rs b/tket/src/passes/tuple_unpack.rs
index 1b71a2c..a17711f 100644
--- a/tket/src/passes/tuple_unpack.rs
+++ b/tket/src/passes/tuple_unpack.rs
@@ -1,13 +1,16 @@
 //! Quick pass for removing redundant tuple pack/unpack operations.
 
 use core::panic;
+use std::iter;
 
-use hugr::builder::{DFGBuilder, Dataflow, DataflowHugr};
+#[cfg(test)]
+use hugr::builder::DFGBuilder;
+use hugr::builder::{Dataflow, DataflowHugr, FunctionBuilder};
 use hugr::extension::prelude::{MakeTuple, TupleOpDef};
 use hugr::extension::simple_op::MakeExtensionOp;
 use hugr::hugr::views::SiblingSubgraph;
 use hugr::ops::{OpTrait, OpType};
-use hugr::types::Type;
+use hugr::types::{PolyFuncType, Type};
 use hugr::{HugrView, Node, PortIndex};
 use itertools::Itertools;
 
@@ -102,7 +105,12 @@ fn remove_pack_unpack<T: HugrView<Node = Node>>(
     let subgraph = SiblingSubgraph::try_from_nodes(nodes, circ.hugr()).expect("is convex");
     let subcirc_signature = subgraph.signature(circ.hugr());
 
-    let mut replacement = DFGBuilder::new(subcirc_signature).unwrap();
+    // The types may mention the type parameters of the enclosing function.
+    let type_params = iter::successors(Some(pack_node), |&n| circ.hugr().get_parent(n))
+        .find_map(|n| circ.hugr().get_optype(n).as_func_defn())
+        .map_or(vec![], |f| f.signature().params().to_vec());
+    let replacement_type = PolyFuncType::new(type_params, subcirc_signature);
+    let mut replacement = FunctionBuilder::new("untuple", replacement_type).unwrap();
 
     // The wires packed in the tuple, in order. A subgraph input may be used for
     // more than one of them.
-- 
2.43.0


From 7e4fad8d02e8d75f24100efa6049b1a016a792c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 35/45] fix: report pattern matches in a fixed order

The order in which the automaton finds the patterns at a root depended on the
hash seed of the process, and with it the result of the optimiser.
---
 tket/src/portmatching/matcher.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tket/src/portmatching/matcher.rs b/tket/src/portmatching/matcher.rs
index 8be0c35..288b822 100644
--- a/tket/src/portmatching/matcher.rs
+++ b/tket/src/portmatching/matcher.rs
@@ -298,6 +298,8 @@ impl PatternMatcher {
                 // Check edge exist
                 validate_circuit_edge(circ),
             )
+            // The automaton's own order may differ from process to process.
+            .sorted()
             .filter_map(|pattern_id| {
                 handle_match_error(
                     PatternMatch::try_from_root_match_with_checker(
-- 
2.43.0


From 4aa9b5de17e0d2ec996d8fdbb883a5ec9a5a956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:58 +0000
Subject: [PATCH 36/45] fix: pack tuples with unit elements when decoding
 pytket circuits

---
 tket/src/serialize/pytket/decoder/wires.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tket/src/serialize/pytket/decoder/wires.rs b/tket/src/serialize/pytket/decoder/wires.rs
index a30a4f9..fb0e711 100644
--- a/tket/src/serialize/pytket/decoder/wires.rs
+++ b/tket/src/serialize/pytket/decoder/wires.rs
@@ -909,6 +909,13 @@ impl WireTracker {
         let mut qubits = Vec::new();
         let mut bits = Vec::new();
         for elem_ty in &elem_types {
+            // Elements without any register, e.g. units, are not tracked.
+            if config.type_to_pytket(elem_ty).is_none() && tuple_elements(elem_ty).is_some() {
+                let elem =
+                    self.pack_tuple_wire(config, builder, elem_ty, qubit_args, bit_args, params)?;
+                elem_wires.push(elem.wire());
+                continue;
+            }
             let elem =
                 self.find_typed_wire(config, builder, elem_ty, qubit_args, bit_args, params, None)?;
             match elem {
-- 
2.43.0


From ca4b215144cd73574acca84ddbcf99df8611da8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:28 +0000
Subject: [PATCH 37/45] fix: control CZ as a controlled phase flip, not as a
 controlled Rz

---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 9f54663..813f76e 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -385,11 +385,12 @@ impl<N: HugrNode> ModifierResolver<N> {
                 Ok(pv)
             }
             CZ => {
-                // reduce CZ to CRz(pi)
-                let mut pv = self.modify_tket_op(n, CRz, new_fn, ancilla)?;
-                let halfturn = new_fn.add_load_value(ConstRotation::new(1.0).unwrap());
-                let dw = pv.incoming.remove(2);
-                connect(new_fn, &dw, &halfturn.into())?;
+                // CZ(c,t) = H(t); CX(c,t); H(t)
+                let h1 = new_fn.add_child_node(H);
+                let h2 = new_fn.add_child_node(H);
+                let mut pv = self.modify_tket_op(n, CX, new_fn, ancilla)?;
+                pv.incoming[1] = connect_by_num(new_fn, &pv.incoming[1], h1, 0);
+                pv.outgoing[1] = connect_by_num(new_fn, &pv.outgoing[1], h2, 0);
                 Ok(pv)
             }
             X | CX | Toffoli => {
-- 
2.43.0


From 1694d9de29b8fe2047b184eefea9d0209144f01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:28 +0000
Subject: [PATCH 38/45] fix: put the controls of a modified TailLoop before its
 other values

---
 tket/src/modifier/modifier_resolver/dfg_modify.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 2647184..37e821c 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -490,11 +490,12 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // Build a new TailLoop with modified body.
+        let control_types: TypeRow = iter::repeat_n(qb_t(), self.control_num())
+            .collect::<Vec<_>>()
+            .into();
         let mut builder = TailLoopBuilder::new(
             tail_loop.just_inputs.clone(),
-            tail_loop
-                .rest
-                .extend(iter::repeat_n(&qb_t(), self.control_num())),
+            control_types.extend(tail_loop.rest.iter()),
             tail_loop.just_outputs.clone(),
         )?;
         self.modify_dfg_body(h, n, &mut builder)?;
-- 
2.43.0


From eb1881712004487def2d9320d240d24bd64b9ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:28 +0000
Subject: [PATCH 39/45] fix: wire modified calls, DFGs and CFGs by the types of
 their own ports

---
 tket/src/modifier/modifier_resolver.rs             | 2 +-
 tket/src/modifier/modifier_resolver/call_modify.rs | 2 +-
 tket/src/modifier/modifier_resolver/dfg_modify.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 73e78f8..277f980 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -1049,7 +1049,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new,
-            (signature.input.iter(), signature.output.iter()),
+            (cfg.signature.input.iter(), cfg.signature.output.iter()),
             (0, 0, offset),
         )?;
         // self.wire_others(n, cfg.into(), new, new_dfg.hugr().get_optype(new))?;
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 8ade56e..f75c11c 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -43,7 +43,6 @@ impl<N: HugrNode> ModifierResolver<N> {
         let type_args = call.type_args.clone();
         self.modify_signature(poly_sig.body_mut(), false);
         let new_call = Call::try_new(poly_sig, type_args).map_err(BuildError::from)?;
-        let signature = (*new_call.signature()).clone();
         let new_call_fn_port = new_call.called_function_port();
         let new_call_node = new_dfg.add_child_node(new_call);
 
@@ -60,6 +59,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let controls = self.unpack_controls(new_dfg, controls)?;
         *self.controls() = controls;
         // wire the inputs/outputs
+        let signature = call.signature();
         self.wire_node_inout(
             n,
             new_call_node,
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 37e821c..d73c979 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -456,7 +456,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         self.wire_node_inout(
             n,
             new_dfg,
-            (signature.input.iter(), signature.output.iter()),
+            (dfg.signature.input.iter(), dfg.signature.output.iter()),
             (0, 0, offset),
         )?;
 
-- 
2.43.0


From 4a31e54d6c9917ba867855f2d720da59f5b8adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:22 +0000
Subject: [PATCH 40/45] fix: keep the callees of a modified function's calls
 apart

---
 tket/src/modifier/modifier_resolver.rs        | 11 +++++-----
 .../modifier/modifier_resolver/call_modify.rs |  6 +++---
 .../modifier/modifier_resolver/dfg_modify.rs  | 20 ++++++++++++-------
 3 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 277f980..7ea4bd4 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -313,8 +313,8 @@ pub struct ModifierResolver<N = Node> {
     /// The worklist of nodes to be processed.
     /// This is needed to avoid modifying a node that is generated during the process.
     worklist: VecDeque<N>,
-    /// A map of static edges to be added after insertion of subgraph.
-    call_map: HashMap<N, (Node, IncomingPort)>,
+    /// The static edges to be added after insertion of subgraph.
+    call_map: Vec<(N, (Node, IncomingPort))>,
     // TODO:
     // Should keep track of the collection of modifiers that are applied to the same function.
     // This will prevent the duplicated generation of Controlled-functions.
@@ -333,7 +333,7 @@ impl<N> ModifierResolver<N> {
             corresp_map: HashMap::default(),
             controls: Vec::default(),
             worklist: VecDeque::default(),
-            call_map: HashMap::default(),
+            call_map: Vec::default(),
             qubit_finder: TypeUnpacker::for_qubits(),
         }
     }
@@ -450,7 +450,7 @@ impl<N: HugrNode> ModifierResolver<N> {
     fn corresp_map(&mut self) -> &mut HashMap<DirWire<N>, Vec<DirWire>> {
         &mut self.corresp_map
     }
-    fn call_map(&mut self) -> &mut HashMap<N, (Node, IncomingPort)> {
+    fn call_map(&mut self) -> &mut Vec<(N, (Node, IncomingPort))> {
         &mut self.call_map
     }
 
@@ -1030,6 +1030,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
         let old_bb = children[0];
 
+        let parent_calls = mem::take(self.call_map());
         let mut signature = cfg.signature.clone();
         self.modify_signature(&mut signature, true);
         let mut new_cfg = CFGBuilder::new(signature.clone())?;
@@ -1038,7 +1039,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let bb_id = new_bb.finish_sub_container()?;
         new_cfg.branch(&bb_id, 0, &new_cfg.exit_block())?;
 
-        let new = self.insert_sub_dfg(new_dfg, new_cfg)?;
+        let new = self.insert_sub_dfg(new_dfg, new_cfg, parent_calls)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index f75c11c..b29b4db 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -35,7 +35,7 @@ impl<N: HugrNode> ModifierResolver<N> {
             // If the function need not be modified, just copy the Call node as is.
             let new = self.add_node_no_modification(h, n, call.clone(), new_dfg)?;
             self.call_map()
-                .insert(callee.0, (new, call.called_function_port()));
+                .push((callee.0, (new, call.called_function_port())));
             return Ok(());
         };
 
@@ -47,7 +47,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let new_call_node = new_dfg.add_child_node(new_call);
 
         self.call_map()
-            .insert(new_callee, (new_call_node, new_call_fn_port));
+            .push((new_callee, (new_call_node, new_call_fn_port)));
         // wire the controls
         let mut controls = self.pack_controls(new_dfg)?;
         for (i, control) in controls.iter_mut().enumerate() {
@@ -202,7 +202,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let load = LoadFunction::try_new(modified_sig, load.type_args).map_err(BuildError::from)?;
         let new_load = new_dfg.add_child_node(load);
         self.call_map()
-            .insert(modified_fn, (new_load, IncomingPort::from(0)));
+            .push((modified_fn, (new_load, IncomingPort::from(0))));
         *self.modifiers_mut() = modifiers;
 
         // Make new IndirectCall
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index d73c979..6ff024e 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -417,16 +417,19 @@ impl<N: HugrNode> ModifierResolver<N> {
     }
 
     /// Inserts a sub DFG into the given parent DFG, updating the call map accordingly.
+    /// `parent_calls` is the call map of the parent, to which that of the sub DFG is added.
     pub(super) fn insert_sub_dfg(
         &mut self,
         parent_dfg: &mut impl Container,
         builder: impl Container,
+        parent_calls: Vec<(N, (Node, IncomingPort))>,
     ) -> Result<Node, ModifierResolverErrors<N>> {
         let insertion_result = parent_dfg.add_hugr_view(builder.hugr());
 
         let insertion_correspondence = insertion_result.node_map;
-        let new_call_map = update_call_map(self.call_map(), &insertion_correspondence);
-        *self.call_map() = new_call_map;
+        let sub_calls = mem::replace(self.call_map(), parent_calls);
+        let sub_calls = update_call_map(&sub_calls, &insertion_correspondence);
+        self.call_map().extend(sub_calls);
 
         Ok(insertion_result.inserted_entrypoint)
     }
@@ -438,12 +441,13 @@ impl<N: HugrNode> ModifierResolver<N> {
         dfg: &DFG,
         parent_dfg: &mut impl Container,
     ) -> Result<(), ModifierResolverErrors<N>> {
+        let parent_calls = mem::take(self.call_map());
         let mut signature = dfg.signature.clone();
         // Build a new DFG with modified body.
         self.modify_signature(&mut signature, true);
         let mut builder = DFGBuilder::new(signature.clone()).unwrap();
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_dfg = self.insert_sub_dfg(parent_dfg, builder)?;
+        let new_dfg = self.insert_sub_dfg(parent_dfg, builder, parent_calls)?;
 
         // connect the controls and register the IOs
         for (i, c) in self.controls().iter_mut().enumerate() {
@@ -490,6 +494,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // Build a new TailLoop with modified body.
+        let parent_calls = mem::take(self.call_map());
         let control_types: TypeRow = iter::repeat_n(qb_t(), self.control_num())
             .collect::<Vec<_>>()
             .into();
@@ -499,7 +504,7 @@ impl<N: HugrNode> ModifierResolver<N> {
             tail_loop.just_outputs.clone(),
         )?;
         self.modify_dfg_body(h, n, &mut builder)?;
-        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_tail_loop = self.insert_sub_dfg(new_dfg, builder, parent_calls)?;
 
         // connect the controls and register IOs
         let offset = self.control_num();
@@ -542,6 +547,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let offset = self.control_num();
 
         // Build a new Conditional with modified body.
+        let parent_calls = mem::take(self.call_map());
         let control_types: TypeRow = iter::repeat_n(qb_t(), offset).collect::<Vec<_>>().into();
         let mut builder = ConditionalBuilder::new(
             conditional.sum_rows.clone(),
@@ -599,7 +605,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         }
 
         // insert the conditional
-        let new_conditional = self.insert_sub_dfg(new_dfg, builder)?;
+        let new_conditional = self.insert_sub_dfg(new_dfg, builder, parent_calls)?;
 
         // connect the controls and register the IOs
         *self.controls() = Vec::new();
@@ -625,9 +631,9 @@ impl<N: HugrNode> ModifierResolver<N> {
 }
 
 /// composition of two call maps
-fn update_call_map<A, B, C, D>(f: &HashMap<A, (B, C)>, g: &HashMap<B, D>) -> HashMap<A, (D, C)>
+fn update_call_map<A, B, C, D>(f: &[(A, (B, C))], g: &HashMap<B, D>) -> Vec<(A, (D, C))>
 where
-    A: Clone + Eq + std::hash::Hash,
+    A: Clone,
     B: Clone + Eq + std::hash::Hash,
     C: Clone,
     D: Clone,
-- 
2.43.0


From 6a373d98cfb37fd0fdccfa6b6db697e5a751ed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:51 +0000
Subject: [PATCH 41/45] fix: keep the order of a controlled Toffoli's control
 qubits

---
 tket/src/modifier/modifier_resolver/tket_op_modify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver/tket_op_modify.rs b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
index 813f76e..edd797a 100644
--- a/tket/src/modifier/modifier_resolver/tket_op_modify.rs
+++ b/tket/src/modifier/modifier_resolver/tket_op_modify.rs
@@ -454,7 +454,7 @@ impl<N: HugrNode> ModifierResolver<N> {
                     this.modify_tket_op(n, V, new_fn, ancilla)
                 })?;
                 for _ in 0..gate_control {
-                    outgoing.push(self.pop_control().unwrap().into());
+                    outgoing.insert(0, self.pop_control().unwrap().into());
                 }
                 connect(new_fn, &targ.into(), &pv_cnrx.incoming[0])?;
                 // connect(new_fn, &half_pos.into(), &pv_cnrx.incoming[1])?;
-- 
2.43.0


From 04e0d6c3288ae27f209f1182de449488ccae44cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:54 +0000
Subject: [PATCH 42/45] fix: refuse power modifiers instead of dropping them

---
 tket/src/modifier.rs                            |  3 +--
 .../modifier/modifier_resolver/call_modify.rs   | 17 +++++++++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/tket/src/modifier.rs b/tket/src/modifier.rs
index b87beeb..b228b7e 100644
--- a/tket/src/modifier.rs
+++ b/tket/src/modifier.rs
@@ -32,7 +32,6 @@ pub struct CombinedModifier {
     // The sum is supposed to be equal to `control`.
     accum_ctrl: Vec<usize>,
     dagger: bool,
-    #[allow(dead_code)]
     power: bool,
 }
 
@@ -46,7 +45,7 @@ impl CombinedModifier {
                 self.accum_ctrl.push(ctrl);
             }
             Ok(Modifier::DaggerModifier) => self.dagger = !self.dagger,
-            Ok(Modifier::PowerModifier) => self.power = !self.power,
+            Ok(Modifier::PowerModifier) => self.power = true,
             Err(_) => {}
         }
     }
diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index b29b4db..017bb65 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -81,6 +81,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         // The final target of modifiers to apply.
         // Collection of modifiers to apply.
         let modifiers_and_targ = self.trace_modifiers_chain(h, n)?;
+        self.refuse_power(h, n)?;
         let targ = modifiers_and_targ
             .last()
             .cloned()
@@ -133,6 +134,21 @@ impl<N: HugrNode> ModifierResolver<N> {
         Ok(chain)
     }
 
+    /// The power modifier is not supported: it must not be dropped silently.
+    fn refuse_power(
+        &self,
+        h: &impl HugrMut<Node = N>,
+        n: N,
+    ) -> Result<(), ModifierResolverErrors<N>> {
+        if self.modifiers().power {
+            return Err(ModifierResolverErrors::Unimplemented(
+                Modifier::PowerModifier,
+                h.get_optype(n).clone(),
+            ));
+        }
+        Ok(())
+    }
+
     /// Given a target node `targ` which is expected to be a `LoadFunction`, retrieve the function node it loads.
     pub(super) fn get_loaded_function(
         h: &impl HugrMut<Node = N>,
@@ -186,6 +202,7 @@ impl<N: HugrNode> ModifierResolver<N> {
         let trace = self
             .trace_modifiers_chain(h, chain_tail.0)
             .map_err(wrap_err)?;
+        self.refuse_power(h, n)?;
         let targ = trace.last().cloned().unwrap();
         let (func, load) =
             Self::get_loaded_function(h, n, targ, h.get_optype(targ)).map_err(wrap_err)?;
-- 
2.43.0


From 74ea32d6f29c360d9dfee2f8562e740089117846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 43/45] fix: do not thread controls through functions without
 qubits

---
 tket/src/modifier/modifier_resolver/dfg_modify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index 6ff024e..e0ab950 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -305,8 +305,13 @@ impl<N: HugrNode> ModifierResolver<N> {
             .is_some_and(|flags| flags.satisfies(&self.modifiers));
         if !satisfies {
             let in_out_match = signature.input == signature.output;
-            if in_out_match {
+            let has_qubits = (signature.input.iter())
+                .chain(signature.output.iter())
+                .any(|ty| self.qubit_finder.contains_element_type(ty));
+            if in_out_match || !has_qubits {
                 // If the flag is not set and the signature does not show an evident problem, skip the modification.
+                // A function without qubits must not touch the controls: in a daggered function,
+                // they would pass through it after the gates that use its results.
                 return Ok(None);
             }
         }
-- 
2.43.0


From 62f2286f7c8ad2081eb31fa5cae3dc5b0749f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:04 +0000
Subject: [PATCH 44/45] fix: call functions that need no modification as they
 are

---
 tket/src/modifier/modifier_resolver/call_modify.rs | 10 ++++++++++
 tket/src/modifier/modifier_resolver/dfg_modify.rs  | 12 ++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver/call_modify.rs b/tket/src/modifier/modifier_resolver/call_modify.rs
index 017bb65..a7d8b23 100644
--- a/tket/src/modifier/modifier_resolver/call_modify.rs
+++ b/tket/src/modifier/modifier_resolver/call_modify.rs
@@ -210,6 +210,16 @@ impl<N: HugrNode> ModifierResolver<N> {
         // Modify the function
         let modified_fn = match self.modify_fn_if_needed(h, func, &load.signature())? {
             Some(node) => node,
+            None if trace.len() == 1 => {
+                // If the function need not be modified, just copy the call as is.
+                *self.modifiers_mut() = modifiers;
+                let new_load = new_dfg.add_child_node(load);
+                self.call_map()
+                    .push((func, (new_load, IncomingPort::from(0))));
+                let new_call = self.add_node_no_modification(h, n, indir_call.clone(), new_dfg)?;
+                new_dfg.hugr_mut().connect(new_load, 0, new_call, 0);
+                return self.forget_node(h, targ);
+            }
             None => self.wrap_fn_with_controls(h, func, &load.type_args)?,
         };
 
diff --git a/tket/src/modifier/modifier_resolver/dfg_modify.rs b/tket/src/modifier/modifier_resolver/dfg_modify.rs
index e0ab950..f9d3761 100644
--- a/tket/src/modifier/modifier_resolver/dfg_modify.rs
+++ b/tket/src/modifier/modifier_resolver/dfg_modify.rs
@@ -382,6 +382,8 @@ impl<N: HugrNode> ModifierResolver<N> {
         };
 
         let mut poly_sig = fn_defn.signature().clone();
+        let call = Call::try_new(poly_sig.clone(), type_args.to_owned())
+            .map_err(|e| ModifierResolverErrors::BuildError(e.into()))?;
         self.modify_signature(poly_sig.body_mut(), false);
         let instantiate = poly_sig
             .instantiate(type_args)
@@ -393,21 +395,23 @@ impl<N: HugrNode> ModifierResolver<N> {
         let mut builder =
             FunctionBuilder::new(format!("__modified__{}", fn_defn.func_name()), instantiate)?;
         let [in_node, out_node] = builder.io();
-        let call = Call::try_new(poly_sig, type_args.to_owned())
-            .map_err(|e| ModifierResolverErrors::BuildError(e.into()))?;
         let call_port = call.called_function_port();
+        let (inputs, outputs) = (
+            call.signature().input_count(),
+            call.signature().output_count(),
+        );
         let call_node = builder.add_child_node(call);
 
         // connect wires
         for i in 0..offset {
             builder.hugr_mut().connect(in_node, i, out_node, i);
         }
-        for i in 0..builder.hugr().num_inputs(call_node) {
+        for i in 0..inputs {
             builder
                 .hugr_mut()
                 .connect(in_node, i + offset, call_node, i);
         }
-        for i in 0..builder.hugr().num_outputs(call_node) {
+        for i in 0..outputs {
             builder
                 .hugr_mut()
                 .connect(call_node, i, out_node, i + offset);
-- 
2.43.0


From 30a8de33d666dd9bbf57d7181bee690c8da68135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:00 +0000
Subject: [PATCH 45/45] fix: keep the port order of daggered nodes with
 classical inputs between qubits

---
 tket/src/modifier/modifier_resolver.rs | 52 +++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/tket/src/modifier/modifier_resolver.rs b/tket/src/modifier/modifier_resolver.rs
index 7ea4bd4..011a266 100644
--- a/tket/src/modifier/modifier_resolver.rs
+++ b/tket/src/modifier/modifier_resolver.rs
@@ -801,7 +801,9 @@ impl<N: HugrNode> ModifierResolver<N> {
     ///     So the `input_offset` is 1.
     /// * `new_offset`: the offset of the ports of the new node, especially the number of control qubits.
     ///
-    /// The order of the resulting ports is determined as follows:
+    /// If the quantum inputs and outputs have the same types, the resulting ports keep their order:
+    /// each quantum input is swapped with the quantum output of the same rank.
+    /// Otherwise the order of the resulting ports is determined as follows:
     /// - Every ports are devided into quantum ports and non-quantum ports.
     /// - Until the first quantum port is reached, the non-quantum ports are wired in order.
     /// - When a quantum port is reached for both inputs and outputs,
@@ -839,12 +841,58 @@ impl<N: HugrNode> ModifierResolver<N> {
         &mut self,
         (old_in, old_out): (N, N),
         (new_in, new_out): (Node, Node),
-        (mut inputs, mut outputs): (
+        (inputs, outputs): (
             impl Iterator<Item = &'a Type>,
             impl Iterator<Item = &'a Type>,
         ),
         (input_offset, output_offset, new_offset): (usize, usize, usize),
     ) -> Result<(), ModifierResolverErrors<N>> {
+        let inputs: Vec<&Type> = inputs.collect();
+        let outputs: Vec<&Type> = outputs.collect();
+        let quantum_ports = |types: &[&Type]| -> Vec<usize> {
+            (0..types.len())
+                .filter(|&i| self.qubit_finder.contains_element_type(types[i]))
+                .collect()
+        };
+        let (quantum_in, quantum_out) = (quantum_ports(&inputs), quantum_ports(&outputs));
+
+        // When the quantum inputs and outputs match one for one, the dagger keeps the signature
+        // and swaps each quantum input with the corresponding quantum output.
+        if self.modifiers.dagger
+            && (quantum_in.iter().map(|&i| inputs[i])).eq(quantum_out.iter().map(|&i| outputs[i]))
+        {
+            for i in 0..inputs.len() {
+                let old = (old_in, IncomingPort::from(i + input_offset)).into();
+                let new = match quantum_in.iter().position(|&q| q == i) {
+                    Some(k) => {
+                        let port = quantum_out[k] + output_offset + new_offset;
+                        (new_out, OutgoingPort::from(port)).into()
+                    }
+                    None => {
+                        let port = i + input_offset + new_offset;
+                        (new_in, IncomingPort::from(port)).into()
+                    }
+                };
+                self.map_insert(old, new)?;
+            }
+            for i in 0..outputs.len() {
+                let old = (old_out, OutgoingPort::from(i + output_offset)).into();
+                let new = match quantum_out.iter().position(|&q| q == i) {
+                    Some(k) => {
+                        let port = quantum_in[k] + input_offset + new_offset;
+                        (new_in, IncomingPort::from(port)).into()
+                    }
+                    None => {
+                        let port = i + output_offset + new_offset;
+                        (new_out, OutgoingPort::from(port)).into()
+                    }
+                };
+                self.map_insert(old, new)?;
+            }
+            return Ok(());
+        }
+
+        let (mut inputs, mut outputs) = (inputs.into_iter(), outputs.into_iter());
         let mut old_in_wire = (old_in, IncomingPort::from(input_offset)).into();
         let mut old_out_wire = (old_out, OutgoingPort::from(output_offset)).into();
         let mut new_in_wire = (new_in, IncomingPort::from(input_offset + new_offset)).into();
-- 
2.43.0

