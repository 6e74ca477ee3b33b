From 76081daf63e962a273f453c4865e15a9b50fcebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 01/37] fix: reject nodes that belong to another graph

`!id.graph == self.graph_id` is a bitwise not compared with the id, so the checks never fired.
---
 knaster_graph/src/graph.rs      | 14 +++++++-------
 knaster_graph/src/graph_edit.rs |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 57ae3e8..ff3a05a 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -504,13 +504,13 @@ impl<F: Float> Graph<F> {
     ) -> Result<(), GraphError> {
         let source = source.into();
         let sink = sink.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -572,7 +572,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
@@ -635,14 +635,14 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let source = source.into();
-        if !source.graph == self.graph_id {
+        if source.graph != self.graph_id {
             return Err(GraphError::WrongSourceNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: source.graph,
             });
         }
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -732,7 +732,7 @@ impl<F: Float> Graph<F> {
         additive: bool,
     ) -> Result<(), GraphError> {
         let sink = sink.into();
-        if !sink.graph == self.graph_id {
+        if sink.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: sink.graph,
@@ -1353,7 +1353,7 @@ impl<F: Float> Graph<F> {
         t: impl Into<Time>,
     ) -> Result<(), GraphError> {
         let node_id = node.into();
-        if !node_id.graph == self.graph_id {
+        if node_id.graph != self.graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: self.graph_id,
                 found_graph: node_id.graph,
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index f3e1202..8caabf8 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -160,7 +160,7 @@ impl<'b, F: Float> GraphEdit<'b, F> {
     pub fn free_node(&self, node: impl Into<NodeId>) -> Result<(), GraphError> {
         let node = node.into();
         let graph_id = self.graph.read().graph_id();
-        if !node.graph == graph_id {
+        if node.graph != graph_id {
             return Err(GraphError::WrongSinkNodeGraph {
                 expected_graph: graph_id,
                 found_graph: node.graph,
-- 
2.43.0


From 8cb7ccded92dadb06414079b00e1b59ed951e798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 02/37] fix: do not reuse the buffer of a node that feeds a
 graph output

Graph outputs were not counted as readers, so a later node could overwrite the block before it was
copied to the output.
---
 knaster_graph/src/graph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index ff3a05a..95fffc2 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1612,6 +1612,13 @@ impl<F: Float> Graph<F> {
                 (unsafe { &mut *self.nodes.get() })[edge.source].num_output_dependents += 1;
             }
         }
+        // Graph outputs are copied after all nodes have been processed, so their blocks are
+        // borrowed for the whole schedule and never returned.
+        for edge in self.output_edges.iter().filter_map(|e| *e) {
+            if let NodeKeyOrGraph::Node(source_key) = edge.source {
+                (unsafe { &mut *self.nodes.get() })[source_key].num_output_dependents += 1;
+            }
+        }
 
         let mut graph_input_pointers_to_nodes = Vec::new();
         // Assign buffers
-- 
2.43.0


From 713088b24b762366f888341c324843900a46f65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 03/37] fix: feedback connections read the signal of the sink
 one block later

The source of the pair was built as a second sink, so the fed back signal was whatever memory its
zero sized output happened to alias. The buffer to write now follows the block clock, so that the
delay does not depend on which half is processed first, and feedback edges order their nodes.
---
 knaster_graph/src/graph.rs | 53 ++++++++++++++------------------------
 1 file changed, 20 insertions(+), 33 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 95fffc2..9aabb9a 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -23,7 +23,6 @@ use crate::{
     node::{Node, NodeData},
     task::{ArParameterChange, BlockOrGraphInput, OutputTask, Task, TaskData},
 };
-use core::cell::Cell;
 use ecow::EcoString;
 use knaster_core::numeric_array::NumericArray;
 /// no_std_compat prelude import, supporting both std and no_std
@@ -884,18 +883,10 @@ impl<F: Float> Graph<F> {
             OwnedRawBuffer::new(self.block_size),
             OwnedRawBuffer::new(self.block_size),
         ]);
-        // We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-        // we can get away with using a `Cell` which is !Sync.
-        #[allow(clippy::arc_with_non_send_sync)]
-        let bufnum = Arc::new(Cell::new(0));
         let sink = FeedbackSink {
             buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
-        };
-        let source = FeedbackSink {
-            buffers: buffers.clone(),
-            bufnum: bufnum.clone(),
         };
+        let source = FeedbackSource { buffers };
         // TODO: We don't need a full handle here
         let sink_handle = self.push_internal(sink);
         let sink_node = sink_handle.raw_handle.node.key;
@@ -1956,14 +1947,14 @@ impl<F: Float> Graph<F> {
             // There is probably room for optimisation here by managing to
             // not iterate the edges multiple times.
             for edge in input_edges.iter().filter_map(|e| *e) {
-                if !edge.is_feedback {
-                    if let NodeKeyOrGraph::Node(source) = edge.source {
-                        if !visited.contains(&source) {
-                            nodes_to_process.push(source);
-                            visited.insert(source);
-                            found_unvisited = true;
-                            break;
-                        }
+                // Feedback edges go through a pair of feedback nodes which break the cycle, so every
+                // edge is a dependency within the block.
+                if let NodeKeyOrGraph::Node(source) = edge.source {
+                    if !visited.contains(&source) {
+                        nodes_to_process.push(source);
+                        visited.insert(source);
+                        found_unvisited = true;
+                        break;
                     }
                 }
             }
@@ -2361,18 +2352,19 @@ impl From<u16> for Channels<U1> {
     }
 }
 
+/// The index of the feedback buffer which is written in the current block. The other buffer holds
+/// the previous block. Derived from the clock, so that the delay is exactly one block no matter if
+/// the sink or the source is processed first.
+fn feedback_write_buffer(ctx: &AudioCtx) -> usize {
+    ((ctx.frame_clock() / ctx.block_size() as u64) % 2) as usize
+}
+
 /// The sink for a feedback connection, i.e. the UGen that stores data to be read by the other node
 ///
 /// Highly unsafe. The allocation of buffers is done separately instead of using the init function.
 /// Should only be used from inside the Graph. Assumes that a single Graph is always run
 pub(crate) struct FeedbackSink<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    ///
-    /// We currently guarantee that the two instances of this Arc are on the same thread, and therefore
-    /// we can get away with using a `Cell` which is !Sync.
-    bufnum: Arc<Cell<usize>>,
 }
 impl<F: Float> UGen for FeedbackSink<F> {
     type Sample = F;
@@ -2391,7 +2383,7 @@ impl<F: Float> UGen for FeedbackSink<F> {
     }
     fn process_block<InBlock, OutBlock>(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         _flags: &mut knaster_core::UGenFlags,
         input: &InBlock,
         _output: &mut OutBlock,
@@ -2399,7 +2391,7 @@ impl<F: Float> UGen for FeedbackSink<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
+        let bufnum = feedback_write_buffer(ctx);
         let input = input.channel_as_slice(0);
         unsafe { self.buffers[bufnum].as_slice_mut().copy_from_slice(input) }
     }
@@ -2424,9 +2416,6 @@ impl<F: Float> UGen for FeedbackSink<F> {
 /// Should only be used from inside the Graph.
 pub(crate) struct FeedbackSource<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
-    /// We promise that all nodes within a Graph will be processed sequentially and not
-    /// concurrently. If that changes, this has to be changed into something like Arc<AtomicUsize>
-    bufnum: Arc<Cell<usize>>,
 }
 impl<F: Float> UGen for FeedbackSource<F> {
     type Sample = F;
@@ -2445,7 +2434,7 @@ impl<F: Float> UGen for FeedbackSource<F> {
     }
     fn process_block<InBlock, OutBlock>(
         &mut self,
-        _ctx: &mut AudioCtx,
+        ctx: &mut AudioCtx,
         _flags: &mut knaster_core::UGenFlags,
         _input: &InBlock,
         output: &mut OutBlock,
@@ -2453,9 +2442,7 @@ impl<F: Float> UGen for FeedbackSource<F> {
         InBlock: knaster_core::BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: knaster_core::Block<Sample = Self::Sample> + ?Sized,
     {
-        let bufnum = self.bufnum.get();
-        let prev_buffer = 1 - bufnum;
-        self.bufnum.set(prev_buffer);
+        let prev_buffer = 1 - feedback_write_buffer(ctx);
         let output = output.channel_as_slice_mut(0);
         unsafe { output.copy_from_slice(self.buffers[prev_buffer].as_slice_mut()) }
     }
-- 
2.43.0


From d74faa4c2d4bc63b8bf5842d5032c272595fa7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 04/37] fix: every node is processed after the nodes it reads
 from

With several connected outputs or nodes not connected to any output, a node could be placed before
its inputs.
---
 knaster_graph/src/graph.rs | 63 ++++++++------------------------------
 1 file changed, 12 insertions(+), 51 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 9aabb9a..e92f666 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1976,44 +1976,6 @@ impl<F: Float> Graph<F> {
         }
         node_order
     }
-    /// Looks for the deepest (furthest away from the graph output) node that is also an output node, i.e.
-    /// a node that is both an output node and an input to another node which is eventually connected to
-    /// an output is deeper than a node which is only connected to an output.
-    fn get_deepest_output_node(&self, start_node: NodeKey, visited: &HashSet<NodeKey>) -> NodeKey {
-        let mut last_connected_node_index = start_node;
-        let mut last_connected_output_node_index = start_node;
-        loop {
-            let mut found_later_node = false;
-            for (key, input_edges) in &self.node_input_edges {
-                for input_edge in input_edges.iter().filter_map(|e| *e) {
-                    if let NodeKeyOrGraph::Node(source) = input_edge.source {
-                        if source == last_connected_node_index && !visited.contains(&source) {
-                            last_connected_node_index = key;
-                            found_later_node = true;
-
-                            // check if it's an output node
-                            for edge in self.output_edges.iter().filter_map(|e| *e) {
-                                if let NodeKeyOrGraph::Node(source) = edge.source {
-                                    if last_connected_node_index == source {
-                                        last_connected_output_node_index =
-                                            last_connected_node_index;
-                                    }
-                                }
-                            }
-                            break;
-                        }
-                    }
-                }
-                if found_later_node {
-                    break;
-                }
-            }
-            if !found_later_node {
-                break;
-            }
-        }
-        last_connected_output_node_index
-    }
     /// Calculate the node order of the graph based on the outputs
     /// Post-ordered depth first search
     /// NB: Not real-time safe
@@ -2025,22 +1987,18 @@ impl<F: Float> Graph<F> {
         for edge in self.output_edges.iter().filter_map(|e| *e) {
             if let NodeKeyOrGraph::Node(source) = edge.source {
                 // The same source node may be present in multiple output edges
-                // e.g. for stereo so we need to check if visited. The input to
-                // one graph output may also depend on the input to another
-                // graph output. Therefore we need to make sure to start with
-                // the deepest output nodes only.
-                let deepest_node = self.get_deepest_output_node(source, &visited);
-                if !visited.contains(&deepest_node) {
-                    nodes_to_process.push(deepest_node);
-                    visited.insert(deepest_node);
+                // e.g. for stereo so we need to check if visited. Each search has to finish before
+                // the next one starts, since an output node may depend on another output node.
+                if visited.insert(source) {
+                    nodes_to_process.push(source);
+                    let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
+                    self.node_order.extend(stack);
                 }
             }
         }
 
-        let stack = self.depth_first_search(&mut visited, &mut nodes_to_process);
-        self.node_order.extend(stack);
-
-        // Add all remaining nodes. These are not currently connected to anything.
+        // Add all remaining nodes. These are not currently connected to any output, but they may
+        // be connected to each other.
         let mut remaining_nodes = vec![];
         for (node_key, _node) in self.get_nodes() {
             if !visited.contains(&node_key)
@@ -2049,7 +2007,10 @@ impl<F: Float> Graph<F> {
                     .iter()
                     .any(|(key, _)| key == &node_key)
             {
-                remaining_nodes.push(node_key);
+                visited.insert(node_key);
+                nodes_to_process.push(node_key);
+                remaining_nodes
+                    .extend(self.depth_first_search(&mut visited, &mut nodes_to_process));
             }
         }
         self.node_order.extend(remaining_nodes.iter());
-- 
2.43.0


From 384f9d7524cc8b18bad070644ca489765b4bd114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 05/37] fix: nodes without outputs do not take a buffer

Their empty block had the same offset as the block allocated after it, so returning that block
decremented the wrong borrow count (an underflow panic in debug builds), and an empty block at the
very end of the allocation had no valid pointer.
---
 knaster_graph/src/buffer_allocator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/knaster_graph/src/buffer_allocator.rs b/knaster_graph/src/buffer_allocator.rs
index 2b4de1e..f8408ae 100644
--- a/knaster_graph/src/buffer_allocator.rs
+++ b/knaster_graph/src/buffer_allocator.rs
@@ -109,6 +109,11 @@ impl<F: Float> BufferAllocator<F> {
         block_size: usize,
         num_borrows: usize,
     ) -> usize {
+        if num_channels == 0 {
+            // Nothing will be written or read, so no block is needed. An empty block would share its
+            // offset with the next one.
+            return 0;
+        }
         let len = num_channels * block_size;
         // 1. Try to use an existing allocated block in order of return. If only
         // part of a block is needed, split it.
-- 
2.43.0


From b24eb0872ff3667ca32e33421573e56ac73c988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 06/37] fix: removing an input of an addition node with an
 unconnected graph output

The rewiring unwrapped every graph output edge and panicked when one of them was not connected.
---
 knaster_graph/src/graph.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index e92f666..3daa95c 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1107,8 +1107,7 @@ impl<F: Float> Graph<F> {
                                 }
                             }
                         }
-                        for edge in &mut self.output_edges {
-                            let edge = edge.as_mut().unwrap();
+                        for edge in self.output_edges.iter_mut().flatten() {
                             if let NodeKeyOrGraph::Node(source) = &edge.source {
                                 if *source == key {
                                     *edge = input_edge;
-- 
2.43.0


From 5fc962be95c1371cbf08406070123292d4ae35f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 07/37] fix: disconnecting a graph output takes effect at the
 next commit

---
 knaster_graph/src/graph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 3daa95c..a582edc 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1081,6 +1081,7 @@ impl<F: Float> Graph<F> {
                         self.evaluate_if_node_should_be_removed(source_node);
                     }
                 }
+                self.recalculation_required = true;
             }
         }
         Ok(())
-- 
2.43.0


From f87140a45c79fd307dbb0ac1bf2ed49d571ac793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 08/37] fix: disconnecting a graph input leaves the graph
 outputs alone

The output edge with the same channel number was removed, whatever its source, and the index
panicked for a graph with fewer outputs than inputs.
---
 knaster_graph/src/graph.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index a582edc..74eb628 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1013,11 +1013,6 @@ impl<F: Float> Graph<F> {
                 if source_channel >= self.num_inputs {
                     return Err(GraphError::GraphInputOutOfBounds(source_channel));
                 }
-                if let Some(edge) = self.output_edges[source_channel as usize].take() {
-                    if let NodeKeyOrGraph::Node(source_node) = edge.source {
-                        self.evaluate_if_node_should_be_removed(source_node);
-                    }
-                }
             }
         }
         let source: NodeKeyOrGraph = source.into();
-- 
2.43.0


From 8097b49ebb4d3a68ffc5a900eae6770d955e2b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 09/37] fix: report the expected and the found graph the right
 way around when disconnecting

---
 knaster_graph/src/graph.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 74eb628..779476b 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -994,9 +994,9 @@ impl<F: Float> Graph<F> {
         match source {
             NodeOrGraph::Node(source_node) => {
                 if source_node.graph != self.graph_id {
-                    return Err(GraphError::WrongSinkNodeGraph {
-                        expected_graph: source_node.graph,
-                        found_graph: self.graph_id,
+                    return Err(GraphError::WrongSourceNodeGraph {
+                        expected_graph: self.graph_id,
+                        found_graph: source_node.graph,
                     });
                 }
                 let nodes = self.get_nodes();
@@ -1047,8 +1047,8 @@ impl<F: Float> Graph<F> {
             NodeOrGraph::Node(sink_node) => {
                 if sink_node.graph != self.graph_id {
                     return Err(GraphError::WrongSinkNodeGraph {
-                        expected_graph: sink_node.graph,
-                        found_graph: self.graph_id,
+                        expected_graph: self.graph_id,
+                        found_graph: sink_node.graph,
                     });
                 }
                 let nodes = self.get_nodes();
-- 
2.43.0


From e1ac1b735543692a18878c3d86939e473f7f02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 10/37] fix: reject unknown nodes and parameter indices when
 connecting to a parameter

A sink that is no longer in the graph panicked, an index past the last parameter was passed on to
the audio thread, and an index above u16::MAX wrapped around to another parameter.
---
 knaster_graph/src/graph.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 779476b..261e0c3 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -648,10 +648,17 @@ impl<F: Float> Graph<F> {
             });
         }
         let nodes = self.get_nodes();
-        let sink_node = &nodes[sink.key()];
+        let Some(sink_node) = nodes.get(sink.key()) else {
+            return Err(GraphError::NodeNotFound);
+        };
         let param = parameter.into();
         let param_index = match param {
-            Param::Index(param_index) => param_index as u16,
+            Param::Index(param_index) => {
+                if param_index >= sink_node.data.parameters as usize {
+                    return Err(GraphError::ParameterIndexOutOfBounds(param_index));
+                }
+                param_index as u16
+            }
             Param::Desc(desc) => {
                 if let Some(index) = sink_node.parameter_descriptions().position(|s| s == desc) {
                     index as u16
@@ -1351,7 +1358,7 @@ impl<F: Float> Graph<F> {
         };
         let param_index = match param.into() {
             knaster_core::Param::Index(param_i) => {
-                if param_i as u16 >= node.data.parameters {
+                if param_i >= node.data.parameters as usize {
                     return Err(ParameterError::ParameterIndexOutOfBounds.into());
                 } else {
                     param_i
-- 
2.43.0


From 067f7e16eee16188753fec7ff12f1a028379d02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 11/37] fix: a parameter connection takes effect at the next
 commit

---
 knaster_graph/src/graph.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 261e0c3..58c06e4 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -682,6 +682,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
 
+        self.recalculation_required = true;
         let edges = self
             .node_parameter_edges
             .get_mut(sink.key())
-- 
2.43.0


From 909c68ef640d4a5c635b6bc751494430e3cb2b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 12/37] fix: a parameter connection cannot create a cycle

Parameter edges were not followed when looking for a path, and not checked when connecting.
---
 knaster_graph/src/graph.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 58c06e4..8ec3f3b 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -682,6 +682,9 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
 
+        if self.has_path(sink, source) {
+            return Err(GraphError::CircularConnection);
+        }
         self.recalculation_required = true;
         let edges = self
             .node_parameter_edges
@@ -1470,6 +1473,9 @@ impl<F: Float> Graph<F> {
                         }
                     }
                 }
+                if let Some(edges) = self.node_parameter_edges.get(node) {
+                    stack.extend(edges.iter().map(|edge| edge.source));
+                }
             }
         }
 
-- 
2.43.0


From 90047cdd5b512ddc7cf7dbf393581a9babd6e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 13/37] fix: reject nodes that have been freed but are not yet
 removed

The node stays in the slotmap until the audio thread has let go of it, but its edge lists are gone,
so connecting it passed the check and then panicked.
---
 knaster_graph/src/graph.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 8ec3f3b..0bb3f47 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -517,13 +517,13 @@ impl<F: Float> Graph<F> {
         }
 
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.node_input_edges.contains_key(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
             return Err(GraphError::OutputOutOfBounds(source_channel));
         }
-        if !nodes.contains_key(sink.key()) {
+        if !self.node_input_edges.contains_key(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -581,7 +581,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphOutputOutOfBounds(sink_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.node_input_edges.contains_key(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -648,9 +648,10 @@ impl<F: Float> Graph<F> {
             });
         }
         let nodes = self.get_nodes();
-        let Some(sink_node) = nodes.get(sink.key()) else {
+        if !self.node_input_edges.contains_key(sink.key()) {
             return Err(GraphError::NodeNotFound);
-        };
+        }
+        let sink_node = &nodes[sink.key()];
         let param = parameter.into();
         let param_index = match param {
             Param::Index(param_index) => {
@@ -675,7 +676,7 @@ impl<F: Float> Graph<F> {
             }
         };
         let nodes = self.get_nodes();
-        if !nodes.contains_key(source.key()) {
+        if !self.node_input_edges.contains_key(source.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if source_channel >= nodes[source.key()].data.outputs {
@@ -752,7 +753,7 @@ impl<F: Float> Graph<F> {
             return Err(GraphError::GraphInputOutOfBounds(source_channel));
         }
         let nodes = self.get_nodes();
-        if !nodes.contains_key(sink.key()) {
+        if !self.node_input_edges.contains_key(sink.key()) {
             return Err(GraphError::NodeNotFound);
         }
         if sink_channel >= nodes[sink.key()].data.inputs {
@@ -1011,7 +1012,7 @@ impl<F: Float> Graph<F> {
                     });
                 }
                 let nodes = self.get_nodes();
-                if !nodes.contains_key(source_node.key()) {
+                if !self.node_input_edges.contains_key(source_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let key = source_node.key();
@@ -1062,8 +1063,7 @@ impl<F: Float> Graph<F> {
                         found_graph: sink_node.graph,
                     });
                 }
-                let nodes = self.get_nodes();
-                if !nodes.contains_key(sink_node.key()) {
+                if !self.node_input_edges.contains_key(sink_node.key()) {
                     return Err(GraphError::NodeNotFound);
                 }
                 let edges = &mut self.node_input_edges[sink_node.key()];
-- 
2.43.0


From 922476753312c977cc99442a5ad39ce8ea448cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 14/37] fix: freeing a node removes the parameter connections
 it is the source of

The edges were left behind, so the schedule kept reading the output of the freed node and the next
commit panicked on the missing key. The receiving parameter is told to stop reading the buffer.
---
 knaster_core/src/ugen.rs                      |  3 +-
 .../src/wrappers_core/audio_rate.rs           |  2 +-
 knaster_graph/src/graph.rs                    | 29 +++++++++++++++++++
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/knaster_core/src/ugen.rs b/knaster_core/src/ugen.rs
index 6d0d186..899e88d 100644
--- a/knaster_core/src/ugen.rs
+++ b/knaster_core/src/ugen.rs
@@ -317,7 +317,8 @@ pub trait UGen {
     /// # Safety
     /// The caller guarantees that the pointer will point to a
     /// contiguous allocation of at least block size until it is replaced,
-    /// disabled, or the inner struct is dropped.
+    /// disabled, or the inner struct is dropped. A null pointer disables the
+    /// audio rate control of the parameter.
     #[allow(unused)]
     unsafe fn set_ar_param_buffer(
         &mut self,
diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 603b225..9096bac 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -80,7 +80,7 @@ impl<T: UGen> UGen for WrArParams<T> {
         buffer: *const T::Sample,
     ) {
         debug_assert!(index < T::Parameters::USIZE);
-        self.buffers[index] = Some(buffer);
+        self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
 }
 
diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 0bb3f47..62bc54f 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -174,6 +174,8 @@ pub struct Graph<F: Float> {
     /// Edges which control a parameter of a node through the output of another
     /// node. These can be in addition to audio input edges.
     node_parameter_edges: SecondaryMap<NodeKey, Vec<ParameterEdge>>,
+    /// Parameters which have lost their audio rate input since the last commit
+    ar_parameters_to_disable: Vec<(NodeKey, u16)>,
     /// If a node can be freed or not. A node can be made immortal to avoid accidentally removing it.
     node_mortality: SecondaryMap<NodeKey, bool>,
     node_order: Vec<NodeKey>,
@@ -244,6 +246,7 @@ impl<F: Float> Graph<F> {
             nodes,
             node_input_edges,
             node_parameter_edges,
+            ar_parameters_to_disable: vec![],
             node_mortality: SecondaryMap::with_capacity(DEFAULT_NUM_NODES),
             node_order: Vec::with_capacity(DEFAULT_NUM_NODES),
             disconnected_nodes: vec![],
@@ -1558,6 +1561,21 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        for (key, parameter_index) in crate::core::mem::take(&mut self.ar_parameters_to_disable) {
+            let Some(edges) = self.node_parameter_edges.get(key) else {
+                continue;
+            };
+            if edges.iter().any(|e| e.parameter_index == parameter_index) {
+                continue;
+            }
+            if let Some(node) = self.node_order.iter().position(|k| *k == key) {
+                apc.push(ArParameterChange {
+                    node,
+                    parameter_index: parameter_index as usize,
+                    buffer: crate::core::ptr::null(),
+                })
+            }
+        }
         apc
     }
 
@@ -1776,6 +1794,17 @@ impl<F: Float> Graph<F> {
                 }
             }
         }
+        // Remove all edges leading from the node to parameters
+        for (key, edges) in &mut self.node_parameter_edges {
+            edges.retain(|edge| {
+                let keep = edge.source != node_key;
+                if !keep {
+                    self.ar_parameters_to_disable
+                        .push((key, edge.parameter_index));
+                }
+                keep
+            });
+        }
         // Remove all edges leading from the node to the Graph output
         {
             let mut i = 0;
-- 
2.43.0


From f8805fb1f5d53954a501961cfd3ea0fa7ad5c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 15/37] fix: disconnecting all edges of an output includes
 parameter connections

---
 knaster_graph/src/graph.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 62bc54f..3a12bdf 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1048,6 +1048,16 @@ impl<F: Float> Graph<F> {
                 *edge = None;
             }
         }
+        for (key, edges) in &mut self.node_parameter_edges {
+            edges.retain(|edge| {
+                let keep = edge.channel_in_source != source_channel || source != edge.source.into();
+                if !keep {
+                    self.ar_parameters_to_disable
+                        .push((key, edge.parameter_index));
+                }
+                keep
+            });
+        }
 
         self.recalculation_required = true;
         Ok(())
-- 
2.43.0


From 1ee96daf36aebd5e2906380cbfad18c995bb83c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 16/37] fix: an addition node that is removed keeps its
 remaining input connected to a parameter

---
 knaster_graph/src/graph.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 3a12bdf..5297e9c 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1134,6 +1134,14 @@ impl<F: Float> Graph<F> {
                                 }
                             }
                         }
+                        if let NodeKeyOrGraph::Node(input_node) = input_edge.source {
+                            for (_k, edges) in &mut self.node_parameter_edges {
+                                for edge in edges.iter_mut().filter(|e| e.source == key) {
+                                    edge.source = input_node;
+                                    edge.channel_in_source = input_edge.channel_in_source;
+                                }
+                            }
+                        }
                         self.free_node_from_key(key).ok();
                     }
                     (None, None) => {
-- 
2.43.0


From 575c068a710a46b1fc70c7a2a673870bd85a9f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 17/37] fix: keep the changes for the next commit when the
 channel to the audio thread is full

The generated task data was dropped together with the UGens of new nodes, and the nodes marked as
living on the audio thread.
---
 knaster_graph/src/graph.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 5297e9c..bb2bc37 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1752,6 +1752,13 @@ impl<F: Float> Graph<F> {
         self.free_old();
         self.graph_gen_communicator.free_old_task_data();
         if self.recalculation_required {
+            if self.graph_gen_communicator.new_task_data_producer.is_full() {
+                // Generating the task data moves UGens into it, they must not be lost. The changes
+                // are kept for the next commit.
+                return Err(GraphError::SendToGraphGen(
+                    "the audio thread has not received earlier changes".into(),
+                ));
+            }
             self.calculate_node_order();
             let graph_input_pointers_to_nodes = self.allocate_node_buffers();
 
-- 
2.43.0


From 286abedc2cd2f74011d54805b8ef0456cc37963c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 18/37] fix: inspection reports feedback edges and subgraph
 nodes

---
 knaster_graph/src/graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index bb2bc37..976234a 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -1882,7 +1882,7 @@ impl<F: Float> Graph<F> {
                         },
                         from_index: edge.channel_in_source,
                         to_index: input_channel_index as u16,
-                        is_feedback: false,
+                        is_feedback: edge.is_feedback,
                     });
                 }
             }
@@ -1896,7 +1896,7 @@ impl<F: Float> Graph<F> {
                 parameter_descriptions: node.parameter_descriptions().collect(),
                 parameter_hints: node.parameter_hints().collect(),
                 unconnected: self.disconnected_nodes.contains(&node_key),
-                is_graph: None,
+                is_graph: node.is_graph,
             });
             node_key_processed.push(node_key);
         }
-- 
2.43.0


From 482283784319925adefde7183e2a8f354a4a6d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 19/37] fix: naming a node and setting its mortality checks
 which graph the node is in

The key of a node in another graph changed whichever node has the same key here, or panicked.
---
 knaster_graph/src/graph.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 976234a..0ffa880 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -435,7 +435,14 @@ impl<F: Float> Graph<F> {
     ///
     /// The name can be used to recover a handle to the node and will be displayed in any [`GraphInspection`]
     pub fn set_name(&mut self, node_id: NodeId, name: EcoString) {
-        self.get_nodes_mut()[node_id.key()].name = name;
+        if node_id.graph != self.graph_id {
+            log::error!("Cannot set the name of a node in another graph.");
+            return;
+        }
+        match self.get_nodes_mut().get_mut(node_id.key()) {
+            Some(node) => node.name = name,
+            None => log::error!("Cannot set the name of a node that does not exist."),
+        }
     }
 
     /// If any node matches `name`, return its [`NodeId`]
@@ -2107,6 +2114,12 @@ impl<F: Float> Graph<F> {
         mortality: bool,
     ) -> Result<(), GraphError> {
         let node = node.into();
+        if node.graph != self.graph_id {
+            return Err(GraphError::WrongSinkNodeGraph {
+                expected_graph: self.graph_id,
+                found_graph: node.graph,
+            });
+        }
         if let Some(m) = self.node_mortality.get_mut(node.key()) {
             *m = mortality;
             Ok(())
-- 
2.43.0


From b830976c94bebfaa09b1ad70182545af69ba0276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 20/37] fix: wrappers forward parameter delays and audio rate
 parameter buffers

---
 .../src/wrappers_core/audio_rate.rs           | 19 +++++++++++++++++++
 .../src/wrappers_core/smooth_params.rs        | 14 ++++++++++++++
 knaster_graph/src/wrappers_graph/done.rs      | 18 ++++++++++++++++++
 3 files changed, 51 insertions(+)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 9096bac..4570d22 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -82,6 +82,11 @@ impl<T: UGen> UGen for WrArParams<T> {
         debug_assert!(index < T::Parameters::USIZE);
         self.buffers[index] = (!buffer.is_null()).then_some(buffer);
     }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 /// Adds an audio input channel and uses that channel to set a parameter every
@@ -168,4 +173,18 @@ where
     fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
         self.ugen.param_apply(ctx, index, value);
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 5d9e4d3..7804f0e 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -242,6 +242,20 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
             }
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        self.ugen
+            .set_delay_within_block_for_param(ctx, index, delay);
+    }
 }
 
 #[derive(Copy, Clone, Debug)]
diff --git a/knaster_graph/src/wrappers_graph/done.rs b/knaster_graph/src/wrappers_graph/done.rs
index e0160b8..c3134b2 100644
--- a/knaster_graph/src/wrappers_graph/done.rs
+++ b/knaster_graph/src/wrappers_graph/done.rs
@@ -118,4 +118,22 @@ where
             self.ugen.param_apply(ctx, index, value);
         }
     }
+
+    unsafe fn set_ar_param_buffer(
+        &mut self,
+        ctx: &mut AudioCtx,
+        index: usize,
+        buffer: *const T::Sample,
+    ) {
+        if index < T::Parameters::USIZE {
+            unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }
+        }
+    }
+
+    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
+        if index < T::Parameters::USIZE {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
+    }
 }
-- 
2.43.0


From abca4c2e902bc4dc7cac58a286217792feb9733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 21/37] fix: a delay set for a parameter change does not delay
 changes in later blocks

---
 knaster_core_dsp/src/wrappers_core/precise_timing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/wrappers_core/precise_timing.rs b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
index 8388b7a..8393a78 100644
--- a/knaster_core_dsp/src/wrappers_core/precise_timing.rs
+++ b/knaster_core_dsp/src/wrappers_core/precise_timing.rs
@@ -60,6 +60,8 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
                 self.ugen.param_apply(ctx, index, value);
             }
         }
+        self.next_delay_i = 0;
+        self.next_delay = NumericArray::default();
         self.ugen.process(ctx, flags, input)
     }
     fn process_block<InBlock, OutBlock>(
@@ -109,8 +111,9 @@ impl<T: UGen, const DELAYED_CHANGES_PER_BLOCK: usize> UGen
             block_i += local_frames_to_process;
         }
         ctx.block = org_block;
-        //
+        // A delay is only valid within the block for which it was set
         self.next_delay_i = 0;
+        self.next_delay = NumericArray::default();
     }
 
     type Parameters = T::Parameters;
-- 
2.43.0


From 42af1811f461f559683e3dc597f3ad13309400eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 22/37] fix: audio rate parameter smoothing advances every
 frame and leaves the block context as it was

---
 .../src/wrappers_core/smooth_params.rs        | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 7804f0e..b87f8e2 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -137,16 +137,12 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
         InBlock: BlockRead<Sample = Self::Sample> + ?Sized,
         OutBlock: Block<Sample = Self::Sample> + ?Sized,
     {
-        let mut there_is_an_ar_parameter = false;
         let org_block = ctx.block;
-        // TODO: set the Rate  of a parameter
-        for p in &self.parameters {
-            there_is_an_ar_parameter = there_is_an_ar_parameter || matches!(*p, Rate::AudioRate);
-        }
+        let there_is_an_ar_parameter = self.smoothing_state.iter().any(|p| p.has_new_ar_value());
         if there_is_an_ar_parameter {
             //  run sample by sample for as long as needed
             let mut i = 0;
-            while i < ctx.frames_to_process() {
+            while i < org_block.frames_to_process() {
                 let mut there_is_a_new_smoothing_value = false;
 
                 for p in &self.smoothing_state {
@@ -155,7 +151,7 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                 }
                 if there_is_a_new_smoothing_value {
                     for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                        if let Some(new_value) = state.next_value(ctx.block_size(), i) {
+                        if let Some(new_value) = state.next_value(org_block.frames_to_process(), i) {
                             self.ugen
                                 .param_apply(ctx, j, ParameterValue::Float(new_value))
                         }
@@ -168,18 +164,20 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                     i += 1;
                 } else {
                     // Process the full block
-                    let input = PartialBlock::from_block(input, i, input.block_size() - i);
-                    let mut output = output.partial_mut(i, output.block_size() - i);
-                    let partial_ctx = org_block.make_partial(i, ctx.block_size() - i);
+                    let remaining = org_block.frames_to_process() - i;
+                    let input = PartialBlock::from_block(input, i, remaining);
+                    let mut output = output.partial_mut(i, remaining);
+                    let partial_ctx = org_block.make_partial(i, remaining);
                     ctx.block = partial_ctx;
                     self.ugen.process_block(ctx, flags, &input, &mut output);
                     break;
                 }
             }
+            ctx.block = org_block;
         } else {
             // We only have potentially block rate parameters, run the whole block
             for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                if let Some(new_value) = state.next_value(ctx.block_size(), 0) {
+                if let Some(new_value) = state.next_value(org_block.frames_to_process(), 0) {
                     self.ugen
                         .param_apply(ctx, j, ParameterValue::Float(new_value))
                 }
-- 
2.43.0


From 9969af94b656393a7cd731407a476d25e4e0b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 23/37] fix: parameter smoothing starts from the current value
 and always reaches its target

---
 .../src/wrappers_core/smooth_params.rs        | 25 ++++++++++++-------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index b87f8e2..32ee00b 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -46,7 +46,7 @@ impl<T: UGen> WrSmoothParams<T> {
                     frames_elapsed,
                     ..
                 } => {
-                    let current_mix = (frames_elapsed) as PFloat / (duration_frames) as PFloat;
+                    let current_mix = mix(frames_elapsed, duration_frames);
                     let current_value = (end_value - start_value) * current_mix + start_value;
                     self.smoothing_state[index] = ParameterSmoothingState::None { current_value };
                 }
@@ -82,17 +82,16 @@ impl<T: UGen> WrSmoothParams<T> {
                                 done: true,
                             }
                         } else {
-                            let current_mix =
-                                (frames_elapsed) as PFloat / (duration_frames) as PFloat;
+                            let current_mix = mix(frames_elapsed, duration_frames);
                             let current_value =
                                 (end_value - start_value) * current_mix + start_value;
                             self.smoothing_state[index] = ParameterSmoothingState::Linear {
                                 start_value: current_value,
                                 end_value,
                                 duration_frames: new_duration_in_frames,
-                                frames_elapsed,
+                                frames_elapsed: 0,
                                 rate: new_rate,
-                                done: true,
+                                done: false,
                             }
                         }
                     }
@@ -208,7 +207,8 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                 // With an audio rate parameter, ignore other incoming parameter changes
                 if !matches!(self.parameters[index], Rate::AudioRate) {
                     match &mut self.smoothing_state[index] {
-                        ParameterSmoothingState::None { .. } => {
+                        ParameterSmoothingState::None { current_value } => {
+                            *current_value = float_value;
                             self.ugen.param_apply(ctx, index, value)
                         }
                         ParameterSmoothingState::Linear {
@@ -222,8 +222,7 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                             if *done {
                                 *start_value = *end_value;
                             } else {
-                                let current_mix =
-                                    (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
+                                let current_mix = mix(*frames_elapsed, *duration_frames);
                                 let current_value =
                                     (*end_value - *start_value) * current_mix + *start_value;
                                 *start_value = current_value;
@@ -290,7 +289,7 @@ impl ParameterSmoothingState {
                 if *done {
                     None
                 } else {
-                    let current_mix = (*frames_elapsed) as PFloat / (*duration_frames) as PFloat;
+                    let current_mix = mix(*frames_elapsed, *duration_frames);
                     let current_value = (*end_value - *start_value) * current_mix + *start_value;
                     if *frames_elapsed == *duration_frames {
                         *done = true;
@@ -321,6 +320,14 @@ impl ParameterSmoothingState {
         }
     }
 }
+/// How far a ramp has come, from 0.0 to 1.0. A ramp without duration is at its end immediately.
+fn mix(frames_elapsed: usize, duration_frames: usize) -> PFloat {
+    if duration_frames == 0 {
+        1.0
+    } else {
+        frames_elapsed as PFloat / duration_frames as PFloat
+    }
+}
 impl Default for ParameterSmoothingState {
     fn default() -> Self {
         ParameterSmoothingState::None { current_value: 0. }
-- 
2.43.0


From 083f9f42bb42b6d138fca80cf79f368e67c90102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 24/37] fix: input slices given to the audio processor hold at
 least one block

---
 knaster_core_dsp/src/wrappers_core/smooth_params.rs | 3 ++-
 knaster_graph/src/processor.rs                      | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/knaster_core_dsp/src/wrappers_core/smooth_params.rs b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
index 32ee00b..e21f8c5 100644
--- a/knaster_core_dsp/src/wrappers_core/smooth_params.rs
+++ b/knaster_core_dsp/src/wrappers_core/smooth_params.rs
@@ -150,7 +150,8 @@ impl<T: UGen> UGen for WrSmoothParams<T> {
                 }
                 if there_is_a_new_smoothing_value {
                     for (j, state) in self.smoothing_state.iter_mut().enumerate() {
-                        if let Some(new_value) = state.next_value(org_block.frames_to_process(), i) {
+                        if let Some(new_value) = state.next_value(org_block.frames_to_process(), i)
+                        {
                             self.ugen
                                 .param_apply(ctx, j, ParameterValue::Float(new_value))
                         }
diff --git a/knaster_graph/src/processor.rs b/knaster_graph/src/processor.rs
index 89f0634..02cd85b 100644
--- a/knaster_graph/src/processor.rs
+++ b/knaster_graph/src/processor.rs
@@ -119,6 +119,7 @@ impl<F: Float> AudioProcessor<F> {
     pub fn run(&mut self, inputs: &[&[F]]) {
         assert_eq!(inputs.len(), self.input_pointers.len());
         for (slice, ptr) in inputs.iter().zip(self.input_pointers.iter_mut()) {
+            assert!(slice.len() >= self.block_size);
             *ptr = slice.as_ptr();
         }
         self.ctx.block.set_frame_clock(self.frame_clock);
-- 
2.43.0


From aa76ebf28779f4949a6e0e31d7a19a6ad1eb2d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 25/37] fix: constants on the left of an arithmetics operator
 are the left operand

---
 knaster_graph/src/graph_edit.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 8caabf8..0340317 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -1038,6 +1038,10 @@ macro_rules! math_gen_fn_static_constant {
         fn $fn_name<F: Float, S0: Static, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
+            // The input channels of the arithmetics nodes that `s0` and `s1` are connected to, i.e. the
+            // order of the operands
+            s0_input: u16,
+            s1_input: u16,
             graph: &GraphRef<F>,
         ) -> ChannelsHandle<S0::Outputs> {
             let mut out_channels = ChannelIterBuilder::new();
@@ -1047,10 +1051,12 @@ macro_rules! math_gen_fn_static_constant {
             let c = g.push_internal(Constant::new(c));
             for s0 in Static::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(s0.0, s0.1, s0_input, NodeOrGraph::Node(mul.node_id())) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) =
+                    g.connect2(c.node_id(), 0, s1_input, NodeOrGraph::Node(mul.node_id()))
+                {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push(NodeOrGraph::Node(mul.node_id()), 0);
@@ -1112,6 +1118,10 @@ macro_rules! math_gen_fn_dynamic_constant {
         fn $fn_name<F: Float, S0: Dynamic, S1: Into<ConstantNumber>>(
             s0: S0,
             s1: S1,
+            // The input channels of the arithmetics nodes that `s0` and `s1` are connected to, i.e. the
+            // order of the operands
+            s0_input: u16,
+            s1_input: u16,
             graph: &GraphRef<F>,
         ) -> DynamicChannelsHandle {
             let mut out_channels = SmallVec::with_capacity(s0.outputs() as usize);
@@ -1120,10 +1130,12 @@ macro_rules! math_gen_fn_dynamic_constant {
             let c = g.push_internal(Constant::new(c));
             for s0 in Dynamic::iter_outputs(&s0) {
                 let mul = g.push_internal(MathUGen::<_, U1, $op>::new());
-                if let Err(e) = g.connect2(s0.0, s0.1, 0, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) = g.connect2(s0.0, s0.1, s0_input, NodeOrGraph::Node(mul.node_id())) {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
-                if let Err(e) = g.connect2(c.node_id(), 0, 1, NodeOrGraph::Node(mul.node_id())) {
+                if let Err(e) =
+                    g.connect2(c.node_id(), 0, s1_input, NodeOrGraph::Node(mul.node_id()))
+                {
                     log::error!("Failed to connect node to arithmetics node: {e}");
                 }
                 out_channels.push((NodeOrGraph::Node(mul.node_id()), 0));
@@ -1175,7 +1187,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: $ty) -> Self::Output {
                 let graph = self.graph;
                 SH {
-                    nodes: $fn_name(self.nodes, rhs, graph),
+                    nodes: $fn_name(self.nodes, rhs, 0, 1, graph),
                     graph: &self.graph,
                 }
             }
@@ -1186,7 +1198,7 @@ macro_rules! math_impl_static_constant_type {
             fn $op_lowercase(self, rhs: SH<'a, 'b, F, S0>) -> Self::Output {
                 let graph = rhs.graph;
                 SH {
-                    nodes: $fn_name(rhs.nodes, self, graph),
+                    nodes: $fn_name(rhs.nodes, self, 1, 0, graph),
                     graph: &rhs.graph,
                 }
             }
@@ -1382,7 +1394,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: $ty) -> Self::Output {
                 let graph = self.graph;
-                let handle = $fn_name(self.nodes, rhs, graph);
+                let handle = $fn_name(self.nodes, rhs, 0, 1, graph);
                 DH {
                     nodes: handle,
                     graph,
@@ -1394,7 +1406,7 @@ macro_rules! math_impl_dynamic_constant_type {
 
             fn $op_lowercase(self, rhs: DH<'a, 'b, F, S>) -> Self::Output {
                 let graph = rhs.graph;
-                let handle = $fn_name(rhs.nodes, self, graph);
+                let handle = $fn_name(rhs.nodes, self, 1, 0, graph);
                 DH {
                     nodes: handle,
                     graph,
-- 
2.43.0


From 157c76eb89c9ee6e8a475805900d2f26b251cf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 26/37] fix: an edit that cannot be sent to the audio thread
 yet does not panic

---
 knaster_graph/src/graph_edit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 0340317..1b69854 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -257,7 +257,9 @@ impl<'b, F: Float> GraphEdit<'b, F> {
 }
 impl<F: Float> Drop for GraphEdit<'_, F> {
     fn drop(&mut self) {
-        self.graph.write().commit_changes().unwrap();
+        if let Err(e) = self.graph.write().commit_changes() {
+            log::error!("Failed to apply the changes to the graph: {e}");
+        }
     }
 }
 
-- 
2.43.0


From 3a1e0fdb437125e5afaff85600acc56f7b0ba353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:52 +0000
Subject: [PATCH 27/37] fix: parameter changes scheduled more than a second
 ahead are kept until they are due

---
 knaster_graph/src/graph_gen.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index cd1b8ba..8aaea32 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -125,7 +125,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                     continue;
                 }
 
-                if let Some(unapplied) = apply_parameter_change(
+                if let Some((unapplied, due)) = apply_parameter_change(
                     event,
                     ctx.block_size() as u64,
                     ctx.sample_rate() as u64,
@@ -133,8 +133,9 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
                     keys,
                     tasks,
                 ) {
+                    // A change scheduled for later has not missed its time
                     self.waiting_parameter_changes
-                        .push_back((unapplied, num_blocks_waiting + 1));
+                        .push_back((unapplied, num_blocks_waiting + due as u32));
                 }
             }
         }
@@ -148,7 +149,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
             let keys = &self.current_task_data.node_task_order;
             let tasks = &mut self.current_task_data.tasks;
             for event in pm_chunk {
-                if let Some(event) = apply_parameter_change(
+                if let Some((event, _due)) = apply_parameter_change(
                     event,
                     ctx.block_size() as u64,
                     ctx.sample_rate() as u64,
@@ -265,6 +266,7 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
     }
 }
 
+/// Returns the change if it couldn't be applied yet, and if the time of the change has come.
 #[inline]
 fn apply_parameter_change<'a, F: Float>(
     mut event: SchedulingEvent,
@@ -274,7 +276,7 @@ fn apply_parameter_change<'a, F: Float>(
     // replace implicit 'static with 'b
     keys: &'a [NodeKey],
     tasks: &'a mut [Task<F>],
-) -> Option<SchedulingEvent> {
+) -> Option<(SchedulingEvent, bool)> {
     let mut ready_to_apply = event.token.as_ref().is_none_or(|t| t.is_activated());
     let mut delay_in_block = 0;
     if let Some(time) = &mut event.time {
@@ -301,7 +303,7 @@ fn apply_parameter_change<'a, F: Float>(
             }
         }
     }
-    Some(event)
+    Some((event, delay_in_block < block_size))
 }
 
 /// Safety: This impl of Send is required because of the Arc<UnsafeCell<...>> in
-- 
2.43.0


From 730f792ccd0d23f72c0d1d420a38cba4514fa0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 28/37] fix: replaced schedules always fit in the queue that
 returns them to the control thread

---
 knaster_graph/src/graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 0ffa880..590bfff 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -225,8 +225,10 @@ impl<F: Float> Graph<F> {
 
         let (new_task_data_producer, new_task_data_consumer) =
             RingBuffer::<TaskData<F>>::new(ring_buffer_size);
+        // One more than can wait to be received: the audio thread can return a full ring buffer of
+        // TaskData and one more, which was sent after it made room, before they are freed here.
         let (task_data_to_be_dropped_producer, task_data_to_be_dropped_consumer) =
-            RingBuffer::<TaskData<F>>::new(ring_buffer_size);
+            RingBuffer::<TaskData<F>>::new(ring_buffer_size + 1);
         let (scheduling_event_producer, scheduling_event_receiver) =
             rtrb::RingBuffer::new(ring_buffer_size);
 
-- 
2.43.0


From 1fe78782d5d2934fb8a46d784e8a6f7ae7eba09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 29/37] fix: a feedback connection reads the only channel of
 its feedback source

---
 knaster_graph/src/graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index 590bfff..a12611f 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -792,7 +792,7 @@ impl<F: Float> Graph<F> {
         &mut self,
         mut source: NodeKeyOrGraph,
         sink: NodeKey,
-        so_channel: u16,
+        mut so_channel: u16,
         si_channel: u16,
         additive: bool,
         feedback: bool,
@@ -806,6 +806,8 @@ impl<F: Float> Graph<F> {
                 is_feedback: true,
             });
             source = NodeKeyOrGraph::Node(fb_source);
+            // The feedback source node has a single output
+            so_channel = 0;
         }
         // Fast and common path
         if !additive {
-- 
2.43.0


From 904b0222860f45ca8133fceea25a97f491cc3ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:59 +0000
Subject: [PATCH 30/37] fix: integer constants keep their value in graphs of
 f64 samples

---
 knaster_graph/src/graph_edit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index 1b69854..e234093 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -990,7 +990,7 @@ impl ConstantNumber {
             ConstantNumber::F32(f) => F::new(f),
             ConstantNumber::F64(f) => F::new(f),
             ConstantNumber::Usize(u) => F::from_usize(u),
-            ConstantNumber::I32(i) => F::new(i as f32),
+            ConstantNumber::I32(i) => F::new(i as f64),
         }
     }
 }
-- 
2.43.0


From 23b18417c5d23388f7c035f564b1b0705ae265ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:59 +0000
Subject: [PATCH 31/37] fix: a wrapper's own parameter is not passed on to the
 wrapped node

---
 knaster_core_dsp/src/wrappers_core/math.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/math.rs b/knaster_core_dsp/src/wrappers_core/math.rs
index d9f5c17..ee017b4 100644
--- a/knaster_core_dsp/src/wrappers_core/math.rs
+++ b/knaster_core_dsp/src/wrappers_core/math.rs
@@ -102,13 +102,18 @@ where
         index: usize,
         buffer: *const T::Sample,
     ) {
-        unsafe {
-            self.ugen.set_ar_param_buffer(ctx, index, buffer);
+        // The last parameter belongs to the wrapper and is unknown to the wrapped UGen
+        if index < T::Parameters::USIZE {
+            unsafe {
+                self.ugen.set_ar_param_buffer(ctx, index, buffer);
+            }
         }
     }
     fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
-        self.ugen
-            .set_delay_within_block_for_param(ctx, index, delay);
+        if index < T::Parameters::USIZE {
+            self.ugen
+                .set_delay_within_block_for_param(ctx, index, delay);
+        }
     }
 }
 
-- 
2.43.0


From c85bb94fd1e11ea0d8c67428e32e5a3e2e7f652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:51 +0000
Subject: [PATCH 32/37] fix: a parameter index above 65535 was taken for a
 valid one of a dynamic handle

---
 knaster_graph/src/graph_edit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index e234093..cd64c56 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -862,7 +862,7 @@ impl<'a, 'b, F: Float> DH<'a, 'b, F, DynamicHandle3> {
         let p = p.into();
         match p {
             Param::Index(i) => {
-                if (i as u16) < self.nodes.data.parameters {
+                if i < self.nodes.data.parameters as usize {
                     Some(Parameter {
                         node: self.nodes.node_id,
                         param_index: i as u16,
-- 
2.43.0


From 1b3914b51ce0f83a4fd1af095fe01d0f5c0cc9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 33/37] fix: only nodes that can be sent to another thread can
 be pushed to a graph

---
 knaster_core_dsp/src/wrappers_core/audio_rate.rs |  2 +-
 knaster_graph/src/graph.rs                       | 15 ++++++++++++---
 knaster_graph/src/graph_edit.rs                  |  7 +++++--
 knaster_primitives/src/float.rs                  |  2 ++
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/knaster_core_dsp/src/wrappers_core/audio_rate.rs b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
index 4570d22..87f1ed8 100644
--- a/knaster_core_dsp/src/wrappers_core/audio_rate.rs
+++ b/knaster_core_dsp/src/wrappers_core/audio_rate.rs
@@ -15,7 +15,7 @@ pub struct WrArParams<T: UGen> {
     block_index: usize,
 }
 
-unsafe impl<T: UGen> Send for WrArParams<T> {}
+unsafe impl<T: UGen + Send> Send for WrArParams<T> {}
 
 impl<T: UGen> WrArParams<T> {
     #[allow(missing_docs)]
diff --git a/knaster_graph/src/graph.rs b/knaster_graph/src/graph.rs
index a12611f..8c492ec 100644
--- a/knaster_graph/src/graph.rs
+++ b/knaster_graph/src/graph.rs
@@ -371,10 +371,13 @@ impl<F: Float> Graph<F> {
 
     /// Push something implementing [`UGen`] to the graph.
     #[deprecated(note = "use `edit` instead")]
-    pub fn push<T: UGen<Sample = F> + 'static>(&mut self, ugen: T) -> Handle<T> {
+    pub fn push<T: UGen<Sample = F> + Send + 'static>(&mut self, ugen: T) -> Handle<T> {
         self.push_internal(ugen)
     }
-    pub(crate) fn push_internal<T: UGen<Sample = F> + 'static>(&mut self, ugen: T) -> Handle<T> {
+    pub(crate) fn push_internal<T: UGen<Sample = F> + Send + 'static>(
+        &mut self,
+        ugen: T,
+    ) -> Handle<T> {
         let name = crate::core::any::type_name::<T>();
         let name = shorten_name(name);
         let node = Node::new(name, ugen);
@@ -393,7 +396,7 @@ impl<F: Float> Graph<F> {
     }
     /// Push something implementing [`UGen`] to the graph, adding the [`WrDone`] wrapper. This
     /// enables the node to free itself if it marks itself as done or for removal using [`GenFlags`].
-    pub(crate) fn push_with_done_action<T: UGen<Sample = F> + 'static>(
+    pub(crate) fn push_with_done_action<T: UGen<Sample = F> + Send + 'static>(
         &mut self,
         ugen: T,
         default_done_action: Done,
@@ -2407,6 +2410,9 @@ fn feedback_write_buffer(ctx: &AudioCtx) -> usize {
 pub(crate) struct FeedbackSink<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
 }
+/// Safety: The buffers are only accessed by the feedback nodes of one graph, which always run on the
+/// same thread.
+unsafe impl<F: Float> Send for FeedbackSink<F> {}
 impl<F: Float> UGen for FeedbackSink<F> {
     type Sample = F;
     type Inputs = U1;
@@ -2458,6 +2464,9 @@ impl<F: Float> UGen for FeedbackSink<F> {
 pub(crate) struct FeedbackSource<F: Float> {
     buffers: Arc<[OwnedRawBuffer<F>; 2]>,
 }
+/// Safety: The buffers are only accessed by the feedback nodes of one graph, which always run on the
+/// same thread.
+unsafe impl<F: Float> Send for FeedbackSource<F> {}
 impl<F: Float> UGen for FeedbackSource<F> {
     type Sample = F;
     type Inputs = U0;
diff --git a/knaster_graph/src/graph_edit.rs b/knaster_graph/src/graph_edit.rs
index cd64c56..23941ef 100644
--- a/knaster_graph/src/graph_edit.rs
+++ b/knaster_graph/src/graph_edit.rs
@@ -85,7 +85,10 @@ impl<'b, F: Float> GraphEdit<'b, F> {
         }
     }
     /// Create a new node in the graph and return a handle to it.
-    pub fn push<'a, T: UGen<Sample = F> + 'static>(&'a self, ugen: T) -> SH<'a, 'b, F, Handle3<T>> {
+    pub fn push<'a, T: UGen<Sample = F> + Send + 'static>(
+        &'a self,
+        ugen: T,
+    ) -> SH<'a, 'b, F, Handle3<T>> {
         let handle = self.graph.write().push_internal(ugen);
         let node_id = handle.node_id();
         SH {
@@ -99,7 +102,7 @@ impl<'b, F: Float> GraphEdit<'b, F> {
 
     /// Push something implementing [`UGen`] to the graph, adding the [`WrDone`] wrapper. This
     /// enables the node to free itself if it marks itself as done or for removal using [`GenFlags`].
-    pub fn push_with_done_action<'a, T: UGen<Sample = F> + 'static>(
+    pub fn push_with_done_action<'a, T: UGen<Sample = F> + Send + 'static>(
         &'a self,
         ugen: T,
         default_done_action: Done,
diff --git a/knaster_primitives/src/float.rs b/knaster_primitives/src/float.rs
index 9703bb4..634d5e1 100644
--- a/knaster_primitives/src/float.rs
+++ b/knaster_primitives/src/float.rs
@@ -26,6 +26,7 @@ pub trait Float:
     + RemAssign
     + Sum
     + core::fmt::Debug
+    + Send
     + 'static
 {
     #[allow(missing_docs)]
@@ -74,6 +75,7 @@ pub trait Float:
     + RemAssign
     + Sum
     + core::fmt::Debug
+    + Send
     + core::simd::SimdElement
     + 'static
 {
-- 
2.43.0


From 70d2a1dcf03b213ee788737e7ef578c1f35ca180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:55 +0000
Subject: [PATCH 34/37] fix: samples outside of a buffer or wavetable are not
 read

---
 knaster_core_dsp/src/dsp/buffer.rs    | 23 +++++++++--------------
 knaster_core_dsp/src/dsp/wavetable.rs |  2 +-
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/knaster_core_dsp/src/dsp/buffer.rs b/knaster_core_dsp/src/dsp/buffer.rs
index a62615e..22776bd 100644
--- a/knaster_core_dsp/src/dsp/buffer.rs
+++ b/knaster_core_dsp/src/dsp/buffer.rs
@@ -81,18 +81,18 @@ impl<F: Float> Buffer<F> {
     pub fn buf_rate_scale(&self, server_sample_rate: u32) -> f64 {
         self.sample_rate / f64::from(server_sample_rate)
     }
+    /// The sample at an index into the interleaved samples, silence outside of them
+    #[inline]
+    fn sample(&self, index: usize) -> F {
+        self.buffer.get(index).copied().unwrap_or(F::ZERO)
+    }
     /// Linearly interpolate between the value in between to samples
     #[inline]
     pub fn get_linear_interp(&self, index: F, channel: usize) -> F {
         let mix = index.fract();
         let index_u = index.to_usize().unwrap() * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
-        }
+        self.sample(index_u) * (F::ONE - mix)
+            + self.sample((index_u + self.num_channels) % self.buffer.len()) * mix
     }
     /// Linearly interpolate between the value in between to samples using an f64 as an index. f64
     /// indexing is necessary for long buffers.
@@ -100,13 +100,8 @@ impl<F: Float> Buffer<F> {
     pub fn get_linear_interp_f64(&self, index: f64, channel: usize) -> F {
         let mix = F::new(index.fract());
         let index_u = index as usize * self.num_channels + channel;
-        unsafe {
-            *self.buffer.get_unchecked(index_u) * (F::ONE - mix)
-                + *self
-                    .buffer
-                    .get_unchecked((index_u + self.num_channels) % self.buffer.len())
-                    * mix
-        }
+        self.sample(index_u) * (F::ONE - mix)
+            + self.sample((index_u + self.num_channels) % self.buffer.len()) * mix
     }
     /// Get the samples for all channels at the index.
     #[inline]
diff --git a/knaster_core_dsp/src/dsp/wavetable.rs b/knaster_core_dsp/src/dsp/wavetable.rs
index e5a332e..24cfd82 100644
--- a/knaster_core_dsp/src/dsp/wavetable.rs
+++ b/knaster_core_dsp/src/dsp/wavetable.rs
@@ -320,7 +320,7 @@ mod wavetable_vec {
         #[inline]
         #[must_use]
         pub fn get(&self, phase: WavetablePhase) -> F {
-            unsafe { *self.buffer.get_unchecked(phase.integer_component()) }
+            self.buffer[phase.integer_component()]
         }
     }
 
-- 
2.43.0


From a6538b876978eb92c0152bb426b862c0c605194a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:04 +0000
Subject: [PATCH 35/37] fix: the output block of a processor cannot be swapped
 with that of another

---
 knaster_graph/src/processor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/knaster_graph/src/processor.rs b/knaster_graph/src/processor.rs
index 02cd85b..a40b9ab 100644
--- a/knaster_graph/src/processor.rs
+++ b/knaster_graph/src/processor.rs
@@ -7,7 +7,7 @@
 use knaster_core::Seconds;
 use knaster_core::log::ArLogReceiver;
 use knaster_core::typenum::U1;
-use knaster_core::{AudioCtx, Float, Size, UGenFlags, typenum::NonZero};
+use knaster_core::{AudioCtx, Block, Float, Size, UGenFlags, typenum::NonZero};
 
 use crate::SharedFrameClock;
 use crate::dynugen::DynUGen;
@@ -180,7 +180,10 @@ impl<F: Float> AudioProcessor<F> {
     }
     /// Get a mutable reference to the output block. This block holds the output of the last
     /// processed block.
-    pub fn output_block(&mut self) -> &mut RawContiguousBlock<F> {
+    ///
+    /// The type is not `Sized` so that the block cannot be swapped with that of another
+    /// [`AudioProcessor`], which may not live as long.
+    pub fn output_block(&mut self) -> &mut (impl Block<Sample = F> + ?Sized) {
         &mut self.output_block
     }
     /// Get the block size, i.e. how many frames are produced each time [`Self::run`] is called.
-- 
2.43.0


From 257ef9e40df2f2a42e1c10fddbe3eab4455c89a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:42 +0000
Subject: [PATCH 36/37] fix: a node cannot make the nodes after it run with
 another block size

---
 knaster_graph/src/graph_gen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/knaster_graph/src/graph_gen.rs b/knaster_graph/src/graph_gen.rs
index 8aaea32..bcba97d 100644
--- a/knaster_graph/src/graph_gen.rs
+++ b/knaster_graph/src/graph_gen.rs
@@ -197,6 +197,9 @@ impl<F: Float, Inputs: Size, Outputs: Size> UGen for GraphGen<F, Inputs, Outputs
         let mut new_flags = UGenFlags::default();
         // Run the tasks
         for task in tasks.iter_mut() {
+            // The buffers of the tasks have the block size of the graph, and a
+            // node that has run before may have replaced the context.
+            assert!(ctx.block_size() == self.block_size);
             task.run(ctx, &mut new_flags);
         }
 
-- 
2.43.0


From 2eaf3c7afafe433ee3b7ec432243ec0ea9fc0849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:05 +0000
Subject: [PATCH 37/37] fix: Multiply Seconds with Seconds exactly

Whole seconds and tesimals were multiplied separately, so that half a second
times half a second came out as 70560000 seconds.
---
 knaster_primitives/src/time.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/knaster_primitives/src/time.rs b/knaster_primitives/src/time.rs
index 3e91921..940af7e 100644
--- a/knaster_primitives/src/time.rs
+++ b/knaster_primitives/src/time.rs
@@ -179,13 +179,11 @@ impl ops::Mul<Seconds> for Seconds {
     type Output = Self;
 
     fn mul(self, rhs: Seconds) -> Self::Output {
-        let mut seconds = self.seconds * rhs.seconds;
-        let mut subsample_tesimals = self.subsecond_tesimals as u64 * rhs.subsecond_tesimals as u64;
-        if subsample_tesimals > SUBSECOND_TESIMALS_PER_SECOND as u64 {
-            seconds += (subsample_tesimals / SUBSECOND_TESIMALS_PER_SECOND as u64) as u32;
-            subsample_tesimals %= SUBSECOND_TESIMALS_PER_SECOND as u64;
-        }
-        Seconds::new(seconds, subsample_tesimals as u32)
+        // Both factors are counted in tesimals, so their product is counted in tesimals of a tesimal
+        let product = self.to_subsample_tesimals_u64() as u128
+            * rhs.to_subsample_tesimals_u64() as u128
+            / SUBSECOND_TESIMALS_PER_SECOND as u128;
+        Seconds::from_subsample_tesimals_u64(product as u64)
     }
 }
 impl ops::Mul<f64> for Seconds {
-- 
2.43.0

