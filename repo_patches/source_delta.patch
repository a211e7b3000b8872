From 253940db6c880093850257ca1ed5b4bb17c87637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:00 +0000
Subject: [PATCH 01/28] verification hook: include an external shim under
 cfg(ocg_mc)

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 9922c29..70f68d6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -47,3 +47,7 @@ pub mod pathutils;
 pub mod pixel;
 pub mod pixelblock;
 pub mod stream;
+
+// Verification hook: compiled only with '--cfg ocg_mc'.
+#[cfg(ocg_mc)]
+include!(env!("OCG_MC_SHIM"));
-- 
2.43.0


From e92974015204e04236ffda61c8619b76f6dc8033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:41 +0000
Subject: [PATCH 02/28] fix: cache accounting when a key is replaced and when
 an image exceeds the capacity

---
 src/cache.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index fa137e2..4d02456 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -133,11 +133,22 @@ impl CacheImpl {
 
         let value_bytes = value.size_bytes();
 
+        // The existing value with the same key is replaced, its
+        // memory is not used any more.
+        if let Some(old_value) = self.lru_hash_map.remove(&key) {
+            self.used_bytes -= old_value.size_bytes();
+            self.evictions += 1;
+        }
+
+        if value_bytes > self.capacity_bytes {
+            error!("Cannot insert into Cache; value is larger than the capacity.");
+            return;
+        }
+
         // Make space if necessary
         let expected_bytes = self.used_bytes + value_bytes;
-        if expected_bytes >= self.capacity_bytes {
-            let require_used = self.capacity_bytes - value_bytes;
-            let free_bytes_needed = self.used_bytes - require_used;
+        if expected_bytes > self.capacity_bytes {
+            let free_bytes_needed = expected_bytes - self.capacity_bytes;
             self.evict_bytes(free_bytes_needed);
         }
 
@@ -192,7 +203,7 @@ impl CacheImpl {
             false => self.used_bytes - n_bytes,
         };
 
-        while (self.used_bytes >= requested_capacity) && (self.lru_hash_map.len() > 0) {
+        while (self.used_bytes > requested_capacity) && (self.lru_hash_map.len() > 0) {
             self.evict();
         }
     }
-- 
2.43.0


From 51222bfa94c20a75b0c49a01fbacfdc8b08966b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:09 +0000
Subject: [PATCH 03/28] fix: graph edits of one input affected others, shared
 inputs and cycles broke execution

---
 src/graph.rs     | 134 +++++++++++++++++++++++++++--------------------
 src/graphiter.rs |  77 ---------------------------
 src/lib.rs       |   1 -
 3 files changed, 77 insertions(+), 135 deletions(-)
 delete mode 100644 src/graphiter.rs

diff --git a/src/graph.rs b/src/graph.rs
index e9fd9a3..e31d112 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -23,10 +23,11 @@ use anyhow::Result;
 use log::{debug, error, warn};
 use petgraph;
 use petgraph::dot::{Config, Dot};
+use petgraph::visit::DfsPostOrder;
 use petgraph::visit::EdgeRef;
+use petgraph::visit::Reversed;
 use petgraph::Direction;
-use rustc_hash::FxHashMap;
-use std::collections::VecDeque;
+use rustc_hash::{FxHashMap, FxHashSet};
 use std::rc::Rc;
 use std::time::Instant;
 
@@ -45,7 +46,6 @@ use crate::data::Identifier;
 use crate::data::NodeComputeMode;
 use crate::data::NodeIdx;
 use crate::data::NodeWeight;
-use crate::graphiter::UpstreamEvalSearch;
 use crate::node::NodeImpl;
 use crate::stream::StreamDataImpl;
 use crate::stream::StreamDataImplRc;
@@ -95,14 +95,18 @@ impl GraphImpl {
     /// Add a new node to the graph.
     pub fn add_node(&mut self, node_box: Box<NodeImpl>) -> usize {
         let id = node_box.get_id();
-        let nodes_index = self.nodes.len();
-        self.nodes.push(node_box);
-        self.ids.push(id);
-
         self.state = GraphState::Dirty;
         let index = self.graph.add_node(id).index();
         debug!("Add Node index={} id={}", index, id);
-        assert_eq!(index, nodes_index);
+        if index < self.nodes.len() {
+            // The index of a removed node is used again.
+            self.nodes[index] = node_box;
+            self.ids[index] = id;
+        } else {
+            assert_eq!(index, self.nodes.len());
+            self.nodes.push(node_box);
+            self.ids.push(id);
+        }
         index
     }
 
@@ -249,7 +253,10 @@ impl GraphImpl {
     /// Return a node index of the node with the given hash.
     fn find_node_index_from_id(&self, node_id: u64) -> Option<usize> {
         debug!("find_node_index_from_id {:?}.", node_id);
-        let maybe_node_idx = self.ids.iter().position(|&v| v == node_id);
+        // Removed nodes keep their entry until the index is re-used.
+        let maybe_node_idx = self.ids.iter().enumerate().position(|(i, &v)| {
+            v == node_id && self.graph.contains_node(petgraph::graph::NodeIndex::new(i))
+        });
         match maybe_node_idx {
             Some(value) => debug!("Node found: id={} index={}", node_id, value),
             None => warn!("Node NOT found: id={}", node_id),
@@ -278,21 +285,15 @@ impl GraphImpl {
         let incoming_edges = self.graph.edges_directed(dst_index, Direction::Incoming);
         let edges_existing: Vec<_> = incoming_edges
             .into_iter()
-            .take_while(|x| *x.weight() == input_num)
-            .map(|x| (x.source(), x.target()))
+            .filter(|x| *x.weight() == input_num)
+            .map(|x| x.id())
             .collect();
 
         // Remove the existing edges first.
-        for (edge_src_index, edge_dst_index) in edges_existing {
-            if let Some(edge_index) = self.graph.find_edge(edge_src_index, edge_dst_index) {
-                debug!(
-                    "Remove edge: src_index={:#?} dst_index={:#?} edge_index={:#?}",
-                    edge_src_index, edge_dst_index, edge_index
-                );
-                self.graph.remove_edge(edge_index);
-                self.state = GraphState::Dirty;
-                ()
-            }
+        for edge_index in edges_existing {
+            debug!("Remove edge: edge_index={:#?}", edge_index);
+            self.graph.remove_edge(edge_index);
+            self.state = GraphState::Dirty;
         }
     }
 
@@ -327,40 +328,45 @@ impl GraphImpl {
 
         self.disconnect_input(dst_node_id, input_num);
 
-        self.graph.update_edge(src_index, dst_index, input_num);
+        self.graph.add_edge(src_index, dst_index, input_num);
         self.state = GraphState::Dirty;
     }
 
     // Get the stack of indices to be computed, going upstream
-    // from the starting index.
-    fn find_all_upstream_nodes(&self, start_node_idx: GraphIdx) -> Vec<NodeIdx> {
+    // from the starting index. Each node comes before all of the
+    // nodes it depends on.
+    //
+    // Returns None if there is a cycle in the upstream graph.
+    fn find_all_upstream_nodes(&self, start_node_idx: GraphIdx) -> Option<Vec<NodeIdx>> {
         let mut node_indexes = Vec::<NodeIdx>::new();
-        let start_index = NodeIdx::new(start_node_idx);
-        let mut walker = UpstreamEvalSearch::new(&self.graph, start_index);
-
-        while let Some((node, _depth)) = walker.next(&self.graph) {
+        let mut found = FxHashSet::<NodeIdx>::default();
+        let upstream_graph = Reversed(&self.graph);
+        let mut walker = DfsPostOrder::new(upstream_graph, NodeIdx::new(start_node_idx));
+
+        while let Some(node) = walker.next(upstream_graph) {
+            for up_node in self.find_direct_upstream_nodes(node.index()) {
+                if !found.contains(&up_node) {
+                    return None;
+                }
+            }
+            found.insert(node);
             node_indexes.push(node);
         }
-        node_indexes
+        node_indexes.reverse();
+        Some(node_indexes)
     }
 
-    // Get the stack of indices to be computed, going upstream
-    // from the starting index.
+    // Get the node indices connected to the inputs of the starting
+    // index, in order of the input number.
     fn find_direct_upstream_nodes(&self, start_node_idx: GraphIdx) -> Vec<NodeIdx> {
-        let mut node_indexes = Vec::<NodeIdx>::new();
         let start_index = NodeIdx::new(start_node_idx);
-        let mut walker = UpstreamEvalSearch::new(&self.graph, start_index);
-        while let Some((node, depth)) = walker.next(&self.graph) {
-            if depth == 0 {
-                // Skip the current level.
-                continue;
-            }
-            if depth > 1 {
-                break;
-            }
-            node_indexes.push(node);
-        }
-        node_indexes
+        let mut edges: Vec<_> = self
+            .graph
+            .edges_directed(start_index, Direction::Incoming)
+            .map(|x| (*x.weight(), x.source()))
+            .collect();
+        edges.sort_unstable_by_key(|x| x.0);
+        edges.into_iter().map(|x| x.1).collect()
     }
 
     /// Get upstream parent inputs (so we can calculate the node
@@ -494,14 +500,15 @@ impl GraphImpl {
             hash_values.push(hash_value);
         }
 
-        // Validate node, start at node and walk up the graph.
-        let mut validated_node_indexes = Vec::new();
-        let mut node_stack = VecDeque::<(NodeIdx, NodeComputeMode)>::new();
-        let start_node_index = node_indexes[0];
-        let start_node_compute_mode = NodeComputeMode::ALL;
-        node_stack.push_front((start_node_index, start_node_compute_mode));
-        validated_node_indexes.push((start_node_index, start_node_compute_mode));
-        while let Some((node_index, node_compute_mode)) = node_stack.pop_front() {
+        // Validate node, start at node and walk up the graph. All
+        // nodes downstream of a node are visited before the node, so
+        // the compute modes they need are complete.
+        let mut compute_modes: FxHashMap<GraphIdx, NodeComputeMode> = node_indexes
+            .iter()
+            .map(|x| (x.index(), NodeComputeMode::NONE))
+            .collect();
+        compute_modes.insert(node_indexes[0].index(), NodeComputeMode::ALL);
+        for node_index in node_indexes.iter() {
             debug!("Validate Node: {:?}", node_index);
             let input_node_indexes = self.find_direct_upstream_nodes(node_index.index());
             let mut input_nodes = Vec::<&Box<NodeImpl>>::new();
@@ -513,6 +520,7 @@ impl GraphImpl {
 
             let node = &self.nodes[node_index.index()];
             let hash_value = hash_cache.get(&node_index.index()).unwrap();
+            let node_compute_mode = compute_modes[&node_index.index()];
             let node_compute_modes =
                 node.validate_inputs(node_compute_mode, *hash_value, &input_nodes);
 
@@ -520,14 +528,15 @@ impl GraphImpl {
                 input_node_indexes.iter().zip(node_compute_modes.iter())
             {
                 debug!("Validate Up Node: {:?}", up_node_index);
-                node_stack.push_front((*up_node_index, *up_node_compute_mode));
-                validated_node_indexes.push((*up_node_index, *up_node_compute_mode));
+                if let Some(value) = compute_modes.get_mut(&up_node_index.index()) {
+                    *value |= *up_node_compute_mode;
+                }
             }
         }
 
         // Start at upstream nodes to compute first.
         let mut stream_data_cache = FxHashMap::<GraphIdx, Rc<StreamDataImpl>>::default();
-        for (node_index, node_compute_mode) in validated_node_indexes.iter().rev() {
+        for node_index in node_indexes.iter().rev() {
             debug!("Compute Node: {:?}", node_index);
 
             let node_inputs =
@@ -536,7 +545,7 @@ impl GraphImpl {
                 &node_inputs,
                 node_index.index(),
                 frame,
-                *node_compute_mode,
+                compute_modes[&node_index.index()],
                 cache,
                 &mut stream_data_cache,
             )?;
@@ -575,7 +584,14 @@ impl GraphImpl {
                 return self.status;
             }
         };
-        let node_indexes = self.find_all_upstream_nodes(start_node_idx);
+        let node_indexes = match self.find_all_upstream_nodes(start_node_idx) {
+            Some(value) => value,
+            None => {
+                self.status = ExecuteStatus::Error;
+                error!("Upstream graph has a cycle: id={}", start_node_id);
+                return self.status;
+            }
+        };
 
         for frame in frames {
             debug!("Execute Frame: {}", *frame);
@@ -618,6 +634,10 @@ impl GraphImpl {
             Dot::with_config(&self.graph, &[Config::GraphContentOnly])
         );
         for (i, id) in self.ids.iter().enumerate() {
+            if self.find_node_index_from_id(*id) != Some(i) {
+                // The node was removed.
+                continue;
+            }
             let node_status = self.node_status(*id);
             let attrs = self.node_attrs_data_debug_string(*id);
             let line = format!(
diff --git a/src/graphiter.rs b/src/graphiter.rs
deleted file mode 100644
index e0afec6..0000000
--- a/src/graphiter.rs
+++ /dev/null
@@ -1,77 +0,0 @@
-/*
- * Copyright (C) 2020, 2021 David Cattermole.
- *
- * This file is part of OpenCompGraph.
- *
- * OpenCompGraph is free software: you can redistribute it and/or modify it
- * under the terms of the GNU Lesser General Public License as
- * published by the Free Software Foundation, either version 3 of the
- * License, or (at your option) any later version.
- *
- * OpenCompGraph is distributed in the hope that it will be useful,
- * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU Lesser General Public License for more details.
- *
- * You should have received a copy of the GNU Lesser General Public License
- * along with OpenCompGraph.  If not, see <https://www.gnu.org/licenses/>.
- * ====================================================================
- *
- */
-
-use petgraph;
-use petgraph::data::DataMap;
-use petgraph::visit::{EdgeRef, GraphRef, IntoEdgesDirected, VisitMap, Visitable};
-use petgraph::Direction;
-use std::collections::VecDeque;
-
-#[derive(Clone)]
-pub struct UpstreamEvalSearch<N, VM> {
-    pub stack: VecDeque<(N, u32)>, // The queue of nodes to visit
-    pub discovered: VM,            // The map of discovered nodes
-}
-
-impl<N, VM> UpstreamEvalSearch<N, VM>
-where
-    N: Copy + PartialEq,
-    VM: VisitMap<N>,
-{
-    // Create a new **UpstreamEvalSearch**, using the graph's visitor
-    // map, and put **start** in the stack of nodes to visit.
-    pub fn new<G>(graph: G, start: N) -> Self
-    where
-        G: GraphRef + Visitable<NodeId = N, Map = VM>,
-    {
-        let mut discovered = graph.visit_map();
-        discovered.visit(start);
-        let mut stack = VecDeque::new();
-        stack.push_front((start, 0));
-        UpstreamEvalSearch { stack, discovered }
-    }
-
-    // Return the next node in the breath-first-search, or **None** if
-    // the traversal is done.
-    pub fn next<G>(&mut self, graph: G) -> Option<(N, u32)>
-    where
-        G: IntoEdgesDirected<NodeId = N> + DataMap,
-        G::EdgeWeight: Ord,
-    {
-        let dir = Direction::Incoming;
-        if let Some((node, depth)) = self.stack.pop_front() {
-            let mut edges: Vec<_> = graph
-                .edges_directed(node, dir)
-                .map(|e_ref| (e_ref.id(), graph.edge_weight(e_ref.id()), e_ref.source()))
-                .collect();
-            edges.sort_unstable_by_key(|ewn| ewn.1);
-
-            for edge in edges {
-                let source_node = edge.2;
-                if self.discovered.visit(source_node) {
-                    self.stack.push_back((source_node, depth + 1));
-                }
-            }
-            return Some((node, depth));
-        }
-        None
-    }
-}
diff --git a/src/lib.rs b/src/lib.rs
index 70f68d6..61f3bf8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -34,7 +34,6 @@ pub mod deformer;
 pub mod deformutils;
 pub mod geom;
 pub mod graph;
-pub mod graphiter;
 pub mod hashutils;
 pub mod imagebuffer;
 pub mod imageio;
-- 
2.43.0


From 1ad2c06e8eab3a0f8fa7df0adfa9eec80e57828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:32 +0000
Subject: [PATCH 04/28] fix: reading and writing images: report failures, keep
 window placement, clamp channels, keep image metadata

---
 src/imageio.cpp         | 32 +++++++++++++++++++++++---------
 src/imageio.rs          |  9 ++++++---
 src/node/read_image.rs  | 33 ++++++++++++++++++++++++---------
 src/node/write_image.rs |  7 +++++--
 src/oiio_utils.cpp      |  8 ++++----
 5 files changed, 62 insertions(+), 27 deletions(-)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index 6b620e0..4c52250 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -68,7 +68,6 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
     int width = spec.width;
     int height = spec.height;
     int num_channels = spec.nchannels;
-    auto oiio_data_type = spec.format;
 
     // We do not support images with channels less than 3 (RGB) or
     // more than 4 (RGBA).
@@ -77,7 +76,13 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
             << "oiio_read_image: Cannot open image with less than 3 channels (RGB).\n";
         return false;
     }
-    std::max(num_channels, 4);
+    num_channels = std::min(num_channels, 4);
+
+    // Pixel data types we do not support are converted while reading.
+    auto oiio_data_type = OIIO::TypeDesc(spec.format);
+    if (oiio_format_to_ocg_format(oiio_data_type) == DataType::kUnknown) {
+        oiio_data_type = OIIO::TypeDesc(OIIO::TypeDesc::FLOAT);
+    }
 
     auto pixel_data_type = oiio_format_to_ocg_format(oiio_data_type);
     auto channel_num_bytes = channel_size_bytes(pixel_data_type);
@@ -85,7 +90,10 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
         static_cast<int32_t>(stride_num_channels(num_channels, pixel_data_type));
     auto pixel_size_bytes = padded_num_channels * channel_num_bytes;
 
-    bool ok = oiio_allocate_image(spec, image);
+    OIIO::ImageSpec allocate_spec(spec);
+    allocate_spec.nchannels = num_channels;
+    allocate_spec.format = oiio_data_type;
+    bool ok = oiio_allocate_image(allocate_spec, image);
 
     auto pixel_data = pixelblock_get_pixel_data_ptr_read_write(image.pixel_block);
     if (pixel_data == nullptr) {
@@ -148,14 +156,18 @@ bool oiio_read_image(const rust::String &file_path, ImageShared &image) {
     OIIO::stride_t xstride = pixel_size_bytes;
     OIIO::stride_t ystride = OIIO::AutoStride;
     OIIO::stride_t zstride = OIIO::AutoStride;
-    in->read_image(
+    ok = in->read_image(
         subimage, miplevel,
         chbegin, chend,
         oiio_data_type,
         pixel_data,
         xstride, ystride, zstride);
+    if (!ok) {
+        auto error_message = in->geterror();
+        std::cerr << "oiio_read_image: ERROR: " << error_message << '\n';
+    }
     in->close();
-    return true;
+    return ok;
 }
 
 bool name_has_suffix(std::string const &name, std::string const &suffix) {
@@ -312,14 +324,16 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
     // spec.attribute("Software", software);
 
     auto type_desc = ocg_format_to_oiio_format(pixel_data_type);
-    out->open(filename, spec);
-    ok = out->write_image(type_desc, pixel_data);
+    ok = out->open(filename, spec);
+    if (ok) {
+        ok = out->write_image(type_desc, pixel_data);
+        ok = out->close() && ok;
+    }
     if (!ok) {
         auto error_message = out->geterror();
         std::cerr << "oiio_write_image: ERROR: " << error_message << '\n';
     }
-    out->close();
-    return true;
+    return ok;
 }
 
 } // namespace internal
diff --git a/src/imageio.rs b/src/imageio.rs
index 52c305b..1645fc8 100644
--- a/src/imageio.rs
+++ b/src/imageio.rs
@@ -39,7 +39,9 @@ use crate::ops::imagecrop;
 use crate::pixelblock::dynimage::from_dynamic_image;
 use crate::pixelblock::pixelblock::PixelBlock;
 
-pub fn read_image(path: &String, num_threads: i32) -> ImageShared {
+/// Read the image from the file path. Returns None if the image cannot
+/// be read.
+pub fn read_image(path: &String, num_threads: i32) -> Option<ImageShared> {
     debug!("Reading... {:?}", path);
     debug!("num_threads: {:?}", num_threads);
     let start = Instant::now();
@@ -63,6 +65,7 @@ pub fn read_image(path: &String, num_threads: i32) -> ImageShared {
             oiio_set_thread_count(old_num_threads);
             if ok == false {
                 warn!("Reading image failed: {:?}", path);
+                return None;
             }
 
             image
@@ -84,7 +87,7 @@ pub fn read_image(path: &String, num_threads: i32) -> ImageShared {
     let duration = start.elapsed();
     debug!("Reading total time: {:?}", duration);
 
-    image
+    Some(image)
 }
 
 pub fn write_image(
@@ -109,7 +112,7 @@ pub fn write_image(
         pixel_block: Box::new(new_pixel_block),
         display_window: new_display_window,
         data_window: new_data_window,
-        spec: ImageSpec::new(),
+        spec: image.spec.clone(),
     };
 
     if crop_to_display_window == true {
diff --git a/src/node/read_image.rs b/src/node/read_image.rs
index 385f688..9f5a1eb 100644
--- a/src/node/read_image.rs
+++ b/src/node/read_image.rs
@@ -152,7 +152,14 @@ impl Operation for ReadImageOperation {
                         _ => {
                             debug!("Cache Miss");
                             let num_threads = 0;
-                            let img = imageio::read_image(&path_expanded, num_threads);
+                            let img = match imageio::read_image(&path_expanded, num_threads) {
+                                Some(value) => value,
+                                None => {
+                                    // The file is not an image we can read.
+                                    *output = std::rc::Rc::new(StreamDataImpl::new());
+                                    return NodeStatus::Warning;
+                                }
+                            };
                             let pixel_block_rc = Rc::new(*img.pixel_block);
                             let cached_img = CachedImage {
                                 pixel_block: pixel_block_rc.clone(),
@@ -172,7 +179,14 @@ impl Operation for ReadImageOperation {
                     false => {
                         debug!("From Disk");
                         let num_threads = 0;
-                        let img = imageio::read_image(&path_expanded, num_threads);
+                        let img = match imageio::read_image(&path_expanded, num_threads) {
+                            Some(value) => value,
+                            None => {
+                                // The file is not an image we can read.
+                                *output = std::rc::Rc::new(StreamDataImpl::new());
+                                return NodeStatus::Warning;
+                            }
+                        };
                         let pixel_block_rc = Rc::new(*img.pixel_block);
                         (
                             pixel_block_rc.clone(),
@@ -220,14 +234,15 @@ impl Operation for ReadImageOperation {
 
                 *output = std::rc::Rc::new(stream_data);
             } else {
-                let enable = attr_block.get_attr_i32("enable");
-                if enable != 1 {
-                    let mut stream_data = StreamDataImpl::new();
-                    stream_data.set_hash(hash_value);
-                    *output = std::rc::Rc::new(stream_data);
-                    return NodeStatus::Valid;
-                }
+                // The path is not a file (for example, a directory).
+                let stream_data = StreamDataImpl::new();
+                *output = std::rc::Rc::new(stream_data);
+                return NodeStatus::Warning;
             }
+        } else {
+            // The pixels are not needed.
+            let stream_data = StreamDataImpl::new();
+            *output = std::rc::Rc::new(stream_data);
         }
         NodeStatus::Valid
     }
diff --git a/src/node/write_image.rs b/src/node/write_image.rs
index cf58c6e..ce31f73 100644
--- a/src/node/write_image.rs
+++ b/src/node/write_image.rs
@@ -287,7 +287,10 @@ impl Operation for WriteImageOperation {
                     debug!("Success: {}", ok);
 
                     *output = inputs[0].clone();
-                    NodeStatus::Valid
+                    match ok {
+                        true => NodeStatus::Valid,
+                        false => NodeStatus::Error,
+                    }
                 }
             }
         }
@@ -297,7 +300,7 @@ impl Operation for WriteImageOperation {
 impl AttrBlock for WriteImageAttrs {
     fn attr_hash(&self, frame: FrameValue, state: &mut DefaultHasher) {
         self.enable.hash(state);
-        if self.enable == 1 {
+        if self.enable != 0 {
             let frame_num = frame.round().trunc() as i32;
             let path_expanded = pathutils::expand_string(self.file_path.to_string(), frame_num);
             path_expanded.hash(state);
diff --git a/src/oiio_utils.cpp b/src/oiio_utils.cpp
index 97f724a..dc0014e 100644
--- a/src/oiio_utils.cpp
+++ b/src/oiio_utils.cpp
@@ -118,10 +118,10 @@ bool oiio_allocate_image(
 
     // Ensure the display window corner starts at 0,0 by removing any
     // non-zero values and pushing the values into the data window.
-    image.data_window.min_x += image.display_window.min_x;
-    image.data_window.min_y += image.display_window.min_y;
-    image.data_window.max_x += image.display_window.min_x;
-    image.data_window.max_y += image.display_window.min_y;
+    image.data_window.min_x -= image.display_window.min_x;
+    image.data_window.min_y -= image.display_window.min_y;
+    image.data_window.max_x -= image.display_window.min_x;
+    image.data_window.max_y -= image.display_window.min_y;
     image.display_window.max_x -= image.display_window.min_x;
     image.display_window.max_y -= image.display_window.min_y;
     image.display_window.min_x = 0;
-- 
2.43.0


From 79744b875fca6b3a6d2814a350f86fd67ccff148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:54 +0000
Subject: [PATCH 05/28] fix: viewer: disabled viewer kept the previous output,
 baked images without upstream pixels, applied cached color twice

---
 src/node/viewer.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/node/viewer.rs b/src/node/viewer.rs
index 4e1a592..6019f26 100644
--- a/src/node/viewer.rs
+++ b/src/node/viewer.rs
@@ -35,6 +35,7 @@ use crate::cxxbridge::ffi::BakeOption;
 use crate::cxxbridge::ffi::DataType;
 use crate::cxxbridge::ffi::ImageShared;
 use crate::cxxbridge::ffi::ImageSpec;
+use crate::cxxbridge::ffi::Matrix4;
 use crate::cxxbridge::ffi::NodeStatus;
 use crate::cxxbridge::ffi::NodeType;
 use crate::data::FrameValue;
@@ -173,14 +174,11 @@ impl Operation for ViewerOperation {
         // debug!("Inputs: {:?}", inputs);
         // debug!("Output: {:?}", output);
 
-        let enable = attr_block.get_attr_i32("enable");
-        if enable != 1 {
-            return NodeStatus::Valid;
-        }
-
+        let mut status = NodeStatus::Valid;
         let mut stream_data = match inputs.len() {
             0 => {
                 // No input given, return an empty default stream.
+                status = NodeStatus::Warning;
                 StreamDataImpl::new()
             }
             _ => {
@@ -189,6 +187,12 @@ impl Operation for ViewerOperation {
             }
         };
 
+        let enable = attr_block.get_attr_i32("enable");
+        if enable != 1 {
+            *output = std::rc::Rc::new(stream_data);
+            return status;
+        }
+
         let bake_option_initial = BakeOption::from(attr_block.get_attr_i32("bake_option"));
         debug!("bake_option={:#?}", bake_option_initial);
 
@@ -255,15 +259,19 @@ impl Operation for ViewerOperation {
                 }
             };
 
-            // Ensure the stream does not double up on
-            // deformers if the image is expected to already
-            // have baked deformations in it.
+            // Ensure the stream does not double up on color
+            // operations and deformers if the image is expected to
+            // already have them baked in it.
             //
             // If the cached image was generated while baking
             // deformations to pixels, then we must remove
             // deformers from the stream so that we do not get
             // a double-deformation effect when reading from
             // the cache.
+            if bake_option == BakeOption::ColorSpaceAndGrade || bake_option == BakeOption::All {
+                stream_data.set_color_matrix(Matrix4::identity());
+                stream_data.clear_color_ops();
+            }
             if bake_option == BakeOption::All {
                 stream_data.clear_deformers();
             }
@@ -276,7 +284,7 @@ impl Operation for ViewerOperation {
         }
 
         *output = std::rc::Rc::new(stream_data);
-        NodeStatus::Valid
+        status
     }
 }
 
@@ -419,8 +427,7 @@ impl Validate for ViewerValidate {
                             & (NodeComputeMode::ALL
                                 - NodeComputeMode::COLOR_SPACE
                                 - NodeComputeMode::COLOR
-                                - NodeComputeMode::DEFORMER
-                                - NodeComputeMode::PIXEL),
+                                - NodeComputeMode::DEFORMER),
                     ),
                     _ => panic!("BakeOption is invalid value: {:#?}", bake_option),
                 }
-- 
2.43.0


From bc789bdf3ec39e42d7188a0c095c763250d76432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:39 +0000
Subject: [PATCH 06/28] fix: crop: cached images applied color and deformers
 twice, black outside aborted

---
 src/node/crop_image.rs | 27 +++++++++++++++++++++++----
 src/ops/imagecrop.rs   | 10 +++++++++-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/node/crop_image.rs b/src/node/crop_image.rs
index f2a39f1..79ee59b 100644
--- a/src/node/crop_image.rs
+++ b/src/node/crop_image.rs
@@ -32,6 +32,7 @@ use crate::cxxbridge::ffi::BBox2Di;
 use crate::cxxbridge::ffi::BakeOption;
 use crate::cxxbridge::ffi::DataType;
 use crate::cxxbridge::ffi::ImageShared;
+use crate::cxxbridge::ffi::Matrix4;
 use crate::cxxbridge::ffi::NodeStatus;
 use crate::cxxbridge::ffi::NodeType;
 use crate::data::FrameValue;
@@ -191,12 +192,13 @@ impl Operation for CropImageOperation {
 
         let mut status = NodeStatus::Valid;
         let use_cache = attr_block.get_attr_i32("use_cache") != 0;
-        let (pixel_block, data_window, display_window) = match use_cache {
+        let (pixel_block, image_spec, data_window, display_window) = match use_cache {
             true => match cache.get(&hash_value) {
                 Some(cached_img) => {
                     debug!("Cache Hit");
                     (
                         cached_img.pixel_block.clone(),
+                        cached_img.spec.clone(),
                         cached_img.data_window,
                         cached_img.display_window,
                     )
@@ -221,12 +223,17 @@ impl Operation for CropImageOperation {
                     let pixel_block_rc = Rc::new(*img.pixel_block);
                     let cached_img = CachedImage {
                         pixel_block: pixel_block_rc.clone(),
-                        spec: img.spec,
+                        spec: img.spec.clone(),
                         data_window: img.data_window,
                         display_window: img.display_window,
                     };
                     cache.insert(hash_value, cached_img);
-                    (pixel_block_rc.clone(), img.data_window, img.display_window)
+                    (
+                        pixel_block_rc.clone(),
+                        img.spec,
+                        img.data_window,
+                        img.display_window,
+                    )
                 }
             },
             false => {
@@ -243,14 +250,26 @@ impl Operation for CropImageOperation {
                 }
 
                 let pixel_block_rc = Rc::new(*img.pixel_block);
-                (pixel_block_rc.clone(), img.data_window, img.display_window)
+                (
+                    pixel_block_rc.clone(),
+                    img.spec,
+                    img.data_window,
+                    img.display_window,
+                )
             }
         };
 
+        // The (cached) pixels have the color operations and deformers
+        // of the stream baked in.
+        stream_data.set_color_matrix(Matrix4::identity());
+        stream_data.clear_color_ops();
+        stream_data.clear_deformers();
+
         stream_data.set_hash(hash_value);
         stream_data.set_data_window(data_window);
         stream_data.set_display_window(display_window);
         stream_data.set_pixel_block(pixel_block);
+        stream_data.set_image_spec(image_spec);
 
         *output = std::rc::Rc::new(stream_data);
         status
diff --git a/src/ops/imagecrop.rs b/src/ops/imagecrop.rs
index bc0708e..6efe0a1 100644
--- a/src/ops/imagecrop.rs
+++ b/src/ops/imagecrop.rs
@@ -104,11 +104,19 @@ pub fn crop_image_in_place(
         true => crop_window,
     };
 
-    let pixel_block_box = Box::new(PixelBlock::from_pixel_block(
+    let mut pixel_block_box = Box::new(PixelBlock::from_pixel_block(
         &src_pixel_block,
         src_data_window,
         crop_window,
     ));
+    if black_outside {
+        // Put the black edge pixels around the cropped pixels.
+        pixel_block_box = Box::new(PixelBlock::from_pixel_block(
+            &pixel_block_box,
+            crop_window,
+            new_data_window,
+        ));
+    }
 
     debug!("Display Window: {:?}", new_display_window);
     debug!("Data Window: {:?}", new_data_window);
-- 
2.43.0


From bac395aa8174f5c3331e9352d6c82e29589830e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:39 +0000
Subject: [PATCH 07/28] fix: merge: use the deformed data window of the
 background and keep its image spec

---
 src/node/merge_image.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/node/merge_image.rs b/src/node/merge_image.rs
index 59ad026..2578815 100644
--- a/src/node/merge_image.rs
+++ b/src/node/merge_image.rs
@@ -161,8 +161,8 @@ fn do_image_process(
     let pixel_block_b_box = Box::new(pixel_block_b);
     let image_b = ImageShared {
         pixel_block: pixel_block_b_box,
-        display_window: stream_data_b.display_window(),
-        data_window: stream_data_b.data_window(),
+        display_window: display_window_b,
+        data_window: data_window_b,
         spec: image_spec_b,
     };
 
@@ -236,12 +236,13 @@ impl Operation for MergeImageOperation {
         // Cache the results of the merge. If the input values do not
         // change we can easily look up the pixels again.
         let use_cache = attr_block.get_attr_i32("use_cache") != 0;
-        let (pixel_block, data_window, display_window) = match use_cache {
+        let (pixel_block, image_spec, data_window, display_window) = match use_cache {
             true => match cache.get(&hash_value) {
                 Some(cached_img) => {
                     debug!("Cache Hit");
                     (
                         cached_img.pixel_block.clone(),
+                        cached_img.spec.clone(),
                         cached_img.data_window,
                         cached_img.display_window,
                     )
@@ -254,18 +255,28 @@ impl Operation for MergeImageOperation {
                     let pixel_block_rc = Rc::new(*img.pixel_block);
                     let cached_img = CachedImage {
                         pixel_block: pixel_block_rc.clone(),
-                        spec: img.spec,
+                        spec: img.spec.clone(),
                         data_window: img.data_window,
                         display_window: img.display_window,
                     };
                     cache.insert(hash_value, cached_img);
-                    (pixel_block_rc.clone(), img.data_window, img.display_window)
+                    (
+                        pixel_block_rc.clone(),
+                        img.spec,
+                        img.data_window,
+                        img.display_window,
+                    )
                 }
             },
             false => {
                 let img = do_image_process(&mut stream_data_a, &mut stream_data_b, merge_mode, mix);
                 let pixel_block_rc = Rc::new(*img.pixel_block);
-                (pixel_block_rc.clone(), img.data_window, img.display_window)
+                (
+                    pixel_block_rc.clone(),
+                    img.spec,
+                    img.data_window,
+                    img.display_window,
+                )
             }
         };
 
@@ -301,6 +312,7 @@ impl Operation for MergeImageOperation {
         stream_data.set_display_window(display_window);
         stream_data.set_hash(hash_value);
         stream_data.set_pixel_block(pixel_block);
+        stream_data.set_image_spec(image_spec);
 
         *output = std::rc::Rc::new(stream_data);
         status
-- 
2.43.0


From 99dacf1a92237bc6b363de075701f5e462fbd35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:39 +0000
Subject: [PATCH 08/28] fix: resample: channel padding skewed pixels, failures
 were cached, large factors wrapped

---
 src/node/resample_image.rs | 17 +++++++++--------
 src/ops/imageresample.cpp  | 17 +++++++++++------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/node/resample_image.rs b/src/node/resample_image.rs
index d68e213..7f9d689 100644
--- a/src/node/resample_image.rs
+++ b/src/node/resample_image.rs
@@ -148,7 +148,6 @@ impl Operation for ResampleImageOperation {
             return NodeStatus::Valid;
         }
 
-        debug_assert!(inputs.len() == 1);
         let input = &inputs[0].clone();
         let mut stream_data = (**input).clone();
 
@@ -177,13 +176,15 @@ impl Operation for ResampleImageOperation {
                         }
 
                         let pixel_block_rc = Rc::new(*img.pixel_block);
-                        let cached_img = CachedImage {
-                            pixel_block: pixel_block_rc.clone(),
-                            spec: img.spec,
-                            data_window: img.data_window,
-                            display_window: img.display_window,
-                        };
-                        cache.insert(hash_value, cached_img);
+                        if ok {
+                            let cached_img = CachedImage {
+                                pixel_block: pixel_block_rc.clone(),
+                                spec: img.spec,
+                                data_window: img.data_window,
+                                display_window: img.display_window,
+                            };
+                            cache.insert(hash_value, cached_img);
+                        }
                         (pixel_block_rc.clone(), img.data_window, img.display_window)
                     }
                 },
diff --git a/src/ops/imageresample.cpp b/src/ops/imageresample.cpp
index 8429cf7..45f65cf 100644
--- a/src/ops/imageresample.cpp
+++ b/src/ops/imageresample.cpp
@@ -66,12 +66,12 @@ bool oiio_image_resample(
 
     // Calculate new image dimensions. New image cannot be more than
     // 16K, or less than 1 pixel.
-    auto new_width = static_cast<int32_t>(src_width * std::pow(2, factor_num));
-    auto new_height = static_cast<int32_t>(src_height * std::pow(2, factor_num));
-    new_width = std::max(1, new_width);
-    new_height = std::max(1, new_height);
-    new_width = std::min(16384, new_width);
-    new_height = std::min(16384, new_height);
+    auto new_width_real = src_width * std::pow(2.0, factor_num);
+    auto new_height_real = src_height * std::pow(2.0, factor_num);
+    auto new_width = static_cast<int32_t>(
+        std::min(16384.0, std::max(1.0, new_width_real)));
+    auto new_height = static_cast<int32_t>(
+        std::min(16384.0, std::max(1.0, new_height_real)));
 
     // Construct destination ImageSpec.
     OIIO::ImageSpec dst_spec;
@@ -89,6 +89,11 @@ bool oiio_image_resample(
     if (!ok) {
         return ok;
     }
+    // The number of channels must not be padded, it is expected to be
+    // the same as the source image.
+    dst_image.pixel_block->data_resize(
+        open_comp_graph::BlockSize{new_width, new_height, num_channels},
+        pixel_data_type);
     auto dst_pixel_data = pixelblock_get_pixel_data_ptr_read_write(
         dst_image.pixel_block);
     if (dst_pixel_data == nullptr) {
-- 
2.43.0


From aecb3c8fadcdb1454d3804f94994ce8e0c73f130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:02 +0000
Subject: [PATCH 09/28] fix: grade: reverse dropped the gamma, masked channels
 could become NaN

---
 src/ops/colorgrade.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ops/colorgrade.rs b/src/ops/colorgrade.rs
index 393a32b..6ff0f8d 100644
--- a/src/ops/colorgrade.rs
+++ b/src/ops/colorgrade.rs
@@ -72,12 +72,22 @@ fn grade_single(
                 a = 1.0;
             }
             b = -b * a;
-            value = pixel * a + b;
+            value = value * a + b;
         }
         value
     }
 }
 
+// Values that are masked out are never changed, even if the grade has
+// no defined value (NaN).
+fn blend_single(pixel: f32, value: f32, mask: f32) -> f32 {
+    if mask == 0.0 {
+        pixel
+    } else {
+        (value * mask) + (pixel * (1.0 - mask))
+    }
+}
+
 fn grade(
     pixel: Vector4f32,
     mask: Vector4f32,
@@ -150,10 +160,10 @@ fn grade(
         premult,
     );
     Vector4f32::new(
-        (r * mask.x) + (pixel.x * (1.0 - mask.x)),
-        (g * mask.y) + (pixel.y * (1.0 - mask.y)),
-        (b * mask.z) + (pixel.z * (1.0 - mask.z)),
-        (a * mask.w) + (pixel.w * (1.0 - mask.w)),
+        blend_single(pixel.x, r, mask.x),
+        blend_single(pixel.y, g, mask.y),
+        blend_single(pixel.z, b, mask.z),
+        blend_single(pixel.w, a, mask.w),
     )
 }
 
-- 
2.43.0


From 7c2e84aadf068befa82f98851906c4d4272c0a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:25 +0000
Subject: [PATCH 10/28] fix: frame padding of ten or more characters dropped
 the frame number

---
 src/pathutils.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/pathutils.rs b/src/pathutils.rs
index bf0f454..702e67c 100644
--- a/src/pathutils.rs
+++ b/src/pathutils.rs
@@ -71,21 +71,9 @@ fn create_expanded_string(
         index_range.start_index, index_range.end_index, index_range.padding_count
     );
 
-    // FIXME: Create a way to use the padding_count to dynamically
-    // change the number formatted into the string. "format!" is a
-    // compile time creation. This is a pretty bad hack.
     let frame_string = match index_range.padding_count {
         0 => "".to_string(),
-        1 => format!("{:01}", frame),
-        2 => format!("{:02}", frame),
-        3 => format!("{:03}", frame),
-        4 => format!("{:04}", frame),
-        5 => format!("{:05}", frame),
-        6 => format!("{:06}", frame),
-        7 => format!("{:07}", frame),
-        8 => format!("{:08}", frame),
-        9 => format!("{:09}", frame),
-        _ => "".to_string(),
+        width => format!("{:0width$}", frame, width = width),
     };
     expanded_string.replace_range(
         index_range.start_index..index_range.end_index,
-- 
2.43.0


From d59cf81a3c2757c7a460dd9ce7d6ec0b96bd7dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:25 +0000
Subject: [PATCH 11/28] fix: config: clamp the cache memory share, fall back to
 defaults if the file cannot be loaded

---
 src/config.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index f5dc195..3a92522 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -24,7 +24,7 @@
 /// OCG configuration has multiple levels with flexibility for a
 /// pipeline in mind.
 ///
-use log::debug;
+use log::{debug, warn};
 use serde::Deserialize;
 use std::default::Default;
 use std::env;
@@ -59,7 +59,7 @@ impl ConfigCache {
     }
 
     pub fn ram_capacity_percent(&self) -> f32 {
-        (self.ram_capacity_percent / 100.0).min(0.0).max(1.0)
+        (self.ram_capacity_percent / 100.0).max(0.0).min(1.0)
     }
 }
 
@@ -88,8 +88,8 @@ pub struct ConfigImpl {
     threading: ConfigThreading,
 }
 
-fn load_config(file_path: &str) -> Result<ConfigImpl, serde_yaml::Error> {
-    let contents = fs::read_to_string(file_path).expect("Something went wrong reading the file!");
+fn load_config(file_path: &str) -> anyhow::Result<ConfigImpl> {
+    let contents = fs::read_to_string(file_path)?;
     let deserialized: ConfigImpl = serde_yaml::from_str(&contents)?;
     Ok(deserialized)
 }
@@ -148,7 +148,13 @@ pub fn get_config(file_name: &str) -> ConfigImplShared {
     let path = get_config_path(&file_name, envvar_name);
     let config = match path.as_str() {
         "" => ConfigImpl::default(),
-        _ => load_config(&path).expect("Config file should exist."),
+        _ => match load_config(&path) {
+            Ok(value) => value,
+            Err(e) => {
+                warn!("Could not load config file: path={} cause={}", path, e);
+                ConfigImpl::default()
+            }
+        },
     };
     ConfigImplShared {
         inner: Box::new(config),
-- 
2.43.0


From 661982d02c68f8ed5214fa67d7ef36b6a9565201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:25 +0000
Subject: [PATCH 12/28] fix: lens distort direction was not part of the hash

---
 src/deformer/tde4_classic.rs | 1 +
 src/node/lens_distort.rs     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/deformer/tde4_classic.rs b/src/deformer/tde4_classic.rs
index 38d30a5..e247c49 100644
--- a/src/deformer/tde4_classic.rs
+++ b/src/deformer/tde4_classic.rs
@@ -83,6 +83,7 @@ impl hash::Hash for DeformerTde4Classic {
             return;
         }
 
+        self.direction.hash(state);
         HashableF32::new(self.focal_length).hash(state);
         HashableF32::new(self.film_back_width).hash(state);
         HashableF32::new(self.film_back_height).hash(state);
diff --git a/src/node/lens_distort.rs b/src/node/lens_distort.rs
index da2a418..6822b22 100644
--- a/src/node/lens_distort.rs
+++ b/src/node/lens_distort.rs
@@ -75,6 +75,7 @@ impl hash::Hash for LensDistortAttrs {
         if self.enable == 0 {
             return;
         }
+        self.direction.hash(state);
         HashableF32::new(self.lens_center_offset_x).hash(state);
         HashableF32::new(self.lens_center_offset_y).hash(state);
         HashableF32::new(self.distortion).hash(state);
-- 
2.43.0


From 93645039c8a81814a9f86827d42b83abca938874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:25 +0000
Subject: [PATCH 13/28] fix: transform: rotate center was ignored, translate
 used the wrong window size

---
 src/deformer/transform.rs | 7 +++----
 src/math/xform.rs         | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/deformer/transform.rs b/src/deformer/transform.rs
index bc5d7a2..3a9b057 100644
--- a/src/deformer/transform.rs
+++ b/src/deformer/transform.rs
@@ -33,7 +33,6 @@ use crate::cxxbridge::ffi::TransformationOrder;
 use crate::data::FrameValue;
 use crate::deformer::Deformer;
 use crate::hashutils::HashableF32;
-use crate::math::interp;
 use crate::math::xform;
 
 #[derive(Debug, Clone)]
@@ -97,9 +96,9 @@ fn _apply(
     image_window: BBox2Df,
     inverse: bool,
 ) -> (f32, f32) {
-    // Normalise the translate values between the image window.
-    let tx = interp::inverse_lerp(image_window.min_x, image_window.max_x, obj.translate_x);
-    let ty = interp::inverse_lerp(image_window.min_x, image_window.max_x, obj.translate_y);
+    // Normalise the translate values by the size of the image window.
+    let tx = obj.translate_x / (image_window.max_x - image_window.min_x);
+    let ty = obj.translate_y / (image_window.max_y - image_window.min_y);
     let transformation_order = TransformationOrder::SRT;
     let mut out_matrix = xform::create_transform_2d(
         transformation_order,
diff --git a/src/math/xform.rs b/src/math/xform.rs
index 0dfec13..23ddadc 100644
--- a/src/math/xform.rs
+++ b/src/math/xform.rs
@@ -54,13 +54,13 @@ fn create_rotate_2d(center_x: f32, center_y: f32, angle_degree: f32) -> na::Matr
     na::Matrix4::<f32>::new(
         c,
         -s,
-        center_x * (1.0 - c) + center_y * s,
         0.0,
+        center_x * (1.0 - c) + center_y * s,
         //
         s,
         c,
-        center_y * (1.0 - c) - center_x * s,
         0.0,
+        center_y * (1.0 - c) - center_x * s,
         //
         0.0,
         0.0,
-- 
2.43.0


From 80caafca637f62e15870337dac2873f85d138405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:25 +0000
Subject: [PATCH 14/28] fix: baked deformers were undone in the wrong order and
 sampled relative to the wrong window

---
 src/deformutils.rs    |  4 ++--
 src/ops/pixelremap.rs | 28 +++++++---------------------
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/src/deformutils.rs b/src/deformutils.rs
index cff5f19..e7e39cf 100644
--- a/src/deformutils.rs
+++ b/src/deformutils.rs
@@ -134,9 +134,9 @@ pub fn apply_deformers_to_pixels(
     let stride = 2;
     // Calculate the distortion in the opposite direction to what the
     // user has requested, so that we can map the destination to
-    // source.
+    // source. The last deformer must be undone first.
     let inverse = true;
-    for deformer in &enabled_deformers {
+    for deformer in enabled_deformers.iter().rev() {
         let buffer = pixel_coords.as_mut_slice();
         deformer.apply_slice_in_place(buffer, display_window_f32, inverse, stride);
     }
diff --git a/src/ops/pixelremap.rs b/src/ops/pixelremap.rs
index da43889..430dc5b 100644
--- a/src/ops/pixelremap.rs
+++ b/src/ops/pixelremap.rs
@@ -21,10 +21,8 @@
 
 use log::{debug, error};
 
-use crate::cxxbridge::ffi::BBox2Df;
 use crate::cxxbridge::ffi::BBox2Di;
 use crate::cxxbridge::ffi::DataType;
-use crate::math;
 use crate::pixel::get_pixel_rgb;
 use crate::pixel::get_pixel_rgba;
 use crate::pixelblock::pixelblock::PixelBlock;
@@ -42,9 +40,7 @@ pub fn pixels_remap_coords(
     assert_eq!(src_pixel_block.data_type(), DataType::Float32);
     assert_eq!(dst_pixel_block.data_type(), DataType::Float32);
 
-    let display_window_f32 = BBox2Df::from(display_window);
     debug!("display_window = {:?}", display_window);
-    debug!("display_window_f32 = {:?}", display_window_f32);
     debug!("display_window.width() = {}", display_window.width());
     debug!("display_window.height() = {}", display_window.height());
 
@@ -83,12 +79,12 @@ pub fn pixels_remap_coords(
         dst_pixels_max_index,
     );
 
-    let pixel_coords_max_index = ((dst_height * dst_width) + 1) as usize;
+    let pixel_coords_max_index = (dst_height * dst_width * 2) as usize;
     assert!(
         pixel_coords.len() >= pixel_coords_max_index,
         "pixel_coords.len()={} pixel_coords_max_index={}",
-        dst_pixels.len(),
-        dst_pixels_max_index,
+        pixel_coords.len(),
+        pixel_coords_max_index,
     );
 
     let mut pixel_coord_index = 0;
@@ -102,20 +98,10 @@ pub fn pixels_remap_coords(
             let x = pixel_coords[pixel_coord_index + 0];
             let y = pixel_coords[pixel_coord_index + 1];
 
-            let x = math::interp::remap(
-                display_window_f32.min_x,
-                display_window_f32.max_x,
-                src_data_window.min_x as f32,
-                (src_data_window.max_x - 1) as f32,
-                x,
-            );
-            let y = math::interp::remap(
-                display_window_f32.min_y,
-                display_window_f32.max_y,
-                src_data_window.min_y as f32,
-                (src_data_window.max_y - 1) as f32,
-                y,
-            );
+            // Convert to the pixel index of the source image, pixel
+            // centers are at half-pixel coordinates.
+            let x = x - (src_data_window.min_x as f32) - 0.5;
+            let y = y - (src_data_window.min_y as f32) - 0.5;
 
             if src_num_channels == 4 {
                 let (r, g, b, a) = get_pixel_rgba(
-- 
2.43.0


From f487c4de3f0c22fc1dca2fe24bb5950f5f4cf67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:52 +0000
Subject: [PATCH 15/28] fix: system memory size did not compile on Linux

---
 src/systemmemory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systemmemory.cpp b/src/systemmemory.cpp
index 76fe820..2054870 100644
--- a/src/systemmemory.cpp
+++ b/src/systemmemory.cpp
@@ -49,7 +49,7 @@ size_t get_total_system_memory_as_bytes() {
     // Use 'sysconf'.
     long pages = sysconf(_SC_PHYS_PAGES);
     long page_size = sysconf(_SC_PAGE_SIZE);
-    auto size = pages * page_size;
+    auto bytes = pages * page_size;
 
 #elif defined _WIN32  // Windows
     // Use the Windows API.
-- 
2.43.0


From afeffa2e7d626a4c4a923e80c8bdc545de117c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:52 +0000
Subject: [PATCH 16/28] fix: pixel values were truncated by type conversions,
 pixel buffers did not cover the image

---
 src/pixelblock/utils.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/pixelblock/utils.rs b/src/pixelblock/utils.rs
index f639306..41ef4bc 100644
--- a/src/pixelblock/utils.rs
+++ b/src/pixelblock/utils.rs
@@ -72,20 +72,20 @@ pub fn convert_datablock_enum_to_u16(data_block_enum: &DataBlockEnum) -> Vec<u16
     let mut new_pixels = Vec::<u16>::new();
     match &data_block_enum {
         DataBlockEnum::Float32(data) => {
-            let f = |x: f32| ((x as f32) * (u16::max_value() as f32)) as u16;
+            let f = |x: f32| ((x as f32) * (u16::max_value() as f32)).round() as u16;
             convert_pixel_data_value_types(&data[..], &mut new_pixels, f);
         }
         DataBlockEnum::Half16(data) => {
             let f = |x: f16| {
                 let v = f32::from(x);
-                (v * (u16::max_value() as f32)) as u16
+                (v * (u16::max_value() as f32)).round() as u16
             };
             convert_pixel_data_value_types(&data[..], &mut new_pixels, f);
         }
         DataBlockEnum::UInt8(data) => {
             let f = |x: u8| {
                 let v = (x as f32) / (u8::max_value() as f32);
-                (v * (u16::max_value() as f32)) as u16
+                (v * (u16::max_value() as f32)).round() as u16
             };
             convert_pixel_data_value_types(&data[..], &mut new_pixels, f);
         }
@@ -99,17 +99,17 @@ pub fn convert_datablock_enum_to_u8(data_block_enum: &DataBlockEnum) -> Vec<u8>
     let mut new_pixels = Vec::<u8>::new();
     match &data_block_enum {
         DataBlockEnum::Float32(data) => {
-            let f = |x: f32| ((x as f32) * (u8::max_value() as f32)) as u8;
+            let f = |x: f32| ((x as f32) * (u8::max_value() as f32)).round() as u8;
             convert_pixel_data_value_types(&data[..], &mut new_pixels, f);
         }
         DataBlockEnum::Half16(data) => {
-            let f = |x: f16| (f32::from(x) * (u8::max_value() as f32)) as u8;
+            let f = |x: f16| (f32::from(x) * (u8::max_value() as f32)).round() as u8;
             convert_pixel_data_value_types(&data[..], &mut new_pixels, f);
         }
         DataBlockEnum::UInt16(data) => {
             let f = |x: u16| {
                 let v = (x as f32) / (u16::max_value() as f32);
-                (v * (u8::max_value() as f32)) as u8
+                (v * (u8::max_value() as f32)).round() as u8
             };
             convert_pixel_data_value_types(&data[..], &mut new_pixels, f);
         }
@@ -193,7 +193,9 @@ pub fn get_pixel_index(
 /// aligned. u8 is 1-byte aligned which fits into 4-bytes evenly.
 #[inline]
 pub fn transmute_slice_f32_to_u8(pixel_slice: &[f32]) -> &[u8] {
-    let pixels_u8 = unsafe { std::mem::transmute::<&[f32], &[u8]>(pixel_slice) };
+    let num_bytes = std::mem::size_of_val(pixel_slice);
+    let pixels_u8 =
+        unsafe { std::slice::from_raw_parts(pixel_slice.as_ptr() as *const u8, num_bytes) };
     pixels_u8
 }
 
@@ -202,7 +204,9 @@ pub fn transmute_slice_f32_to_u8(pixel_slice: &[f32]) -> &[u8] {
 /// aligned. u8 is 1-byte aligned which fits into 4-bytes evenly.
 #[inline]
 pub fn transmute_slice_f16_to_u8(pixel_slice: &[f16]) -> &[u8] {
-    let pixels_u8 = unsafe { std::mem::transmute::<&[f16], &[u8]>(pixel_slice) };
+    let num_bytes = std::mem::size_of_val(pixel_slice);
+    let pixels_u8 =
+        unsafe { std::slice::from_raw_parts(pixel_slice.as_ptr() as *const u8, num_bytes) };
     pixels_u8
 }
 
@@ -211,7 +215,9 @@ pub fn transmute_slice_f16_to_u8(pixel_slice: &[f16]) -> &[u8] {
 /// aligned. u8 is 1-byte aligned which fits into 4-bytes evenly.
 #[inline]
 pub fn transmute_slice_u16_to_u8(pixel_slice: &[u16]) -> &[u8] {
-    let pixels_u8 = unsafe { std::mem::transmute::<&[u16], &[u8]>(pixel_slice) };
+    let num_bytes = std::mem::size_of_val(pixel_slice);
+    let pixels_u8 =
+        unsafe { std::slice::from_raw_parts(pixel_slice.as_ptr() as *const u8, num_bytes) };
     pixels_u8
 }
 
-- 
2.43.0


From 0969d430f18214e8b48659560cdfdf6ebd161de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:19 +0000
Subject: [PATCH 17/28] fix: resample aborted because the image specification
 had no depth

---
 src/oiio_utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oiio_utils.cpp b/src/oiio_utils.cpp
index dc0014e..24a621b 100644
--- a/src/oiio_utils.cpp
+++ b/src/oiio_utils.cpp
@@ -69,6 +69,8 @@ bool oiio_construct_spec(
         OIIO::ImageSpec &spec) {
     spec.width = data_width;
     spec.height = data_height;
+    spec.depth = 1;
+    spec.full_depth = 1;
     spec.nchannels = num_channels;
 
     auto type_desc = ocg_format_to_oiio_format(data_type);
-- 
2.43.0


From 0e8ab20e2f9db98b6b220e648c5216ad357bcdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:47 +0000
Subject: [PATCH 18/28] fix: write the same color space and windows whatever
 the case of the file extension

---
 src/node/write_image.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/node/write_image.rs b/src/node/write_image.rs
index ce31f73..ac4e983 100644
--- a/src/node/write_image.rs
+++ b/src/node/write_image.rs
@@ -152,14 +152,18 @@ fn do_image_process(
         _ => bake_pixel_data_type,
     };
 
+    // The file format is the same, regardless of the extension's
+    // upper or lower case.
+    let path_lower = path_expanded.to_lowercase();
+
     // The color space to write to.
-    let to_color_space = if path_expanded.ends_with(".jpg")
-        || path_expanded.ends_with(".png")
-        || path_expanded.ends_with(".jpeg")
-        || path_expanded.ends_with(".jpe")
-        || path_expanded.ends_with(".jif")
-        || path_expanded.ends_with(".jfif")
-        || path_expanded.ends_with(".jfi")
+    let to_color_space = if path_lower.ends_with(".jpg")
+        || path_lower.ends_with(".png")
+        || path_lower.ends_with(".jpeg")
+        || path_lower.ends_with(".jpe")
+        || path_lower.ends_with(".jif")
+        || path_lower.ends_with(".jfif")
+        || path_lower.ends_with(".jfi")
     {
         COLOR_SPACE_NAME_SRGB.to_string()
     } else {
@@ -198,7 +202,7 @@ fn do_image_process(
             // When If the image format does not support data
             // windows, then crop off the extra information outside
             // the display window.
-            let format_supports_data_window = path_expanded.ends_with(".exr");
+            let format_supports_data_window = path_lower.ends_with(".exr");
             !format_supports_data_window
         }
         _ => panic!("Invalid crop_on_write value: {:?}", crop_on_write),
-- 
2.43.0


From 9c151e9214ff547877d98bc7d0c3d1f91c885be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:43 +0000
Subject: [PATCH 19/28] fix: a crop window that ends before it starts aborted

---
 src/node/crop_image.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/node/crop_image.rs b/src/node/crop_image.rs
index 79ee59b..52be195 100644
--- a/src/node/crop_image.rs
+++ b/src/node/crop_image.rs
@@ -184,7 +184,13 @@ impl Operation for CropImageOperation {
         let window_min_y = attr_block.get_attr_i32("window_min_y");
         let window_max_x = attr_block.get_attr_i32("window_max_x");
         let window_max_y = attr_block.get_attr_i32("window_max_y");
-        let crop_window = BBox2Di::new(window_min_x, window_min_y, window_max_x, window_max_y);
+        // A window that ends before it starts is empty.
+        let crop_window = BBox2Di::new(
+            window_min_x,
+            window_min_y,
+            window_max_x.max(window_min_x),
+            window_max_y.max(window_min_y),
+        );
 
         let reformat = attr_block.get_attr_i32("reformat") == 1;
         let black_outside = attr_block.get_attr_i32("black_outside") == 1;
-- 
2.43.0


From 6d27720212c8d86e557fec7c3711e2db8364a353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:20 +0000
Subject: [PATCH 20/28] fix: different node names could have the same
 identifier

---
 src/hashutils.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hashutils.rs b/src/hashutils.rs
index fc53486..e8eb345 100644
--- a/src/hashutils.rs
+++ b/src/hashutils.rs
@@ -21,14 +21,16 @@
 
 use rand::rngs::SmallRng;
 use rand::{Rng, SeedableRng};
-use rustc_hash::FxHasher;
+use std::collections::hash_map::DefaultHasher;
 use std::hash::{Hash, Hasher};
 use std::mem;
 
 use crate::data::HashValue;
 
 pub fn calculate_hash<T: Hash>(t: &T) -> HashValue {
-    let mut s = FxHasher::default();
+    // Node identifiers must not collide; FxHasher gives names of 9 or
+    // more characters that differ in two places the same value.
+    let mut s = DefaultHasher::new();
     t.hash(&mut s);
     s.finish()
 }
-- 
2.43.0


From 3aee4ae9c7a9ead07db9877fd12568796b14d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:48 +0000
Subject: [PATCH 21/28] fix: a file path with a '$' before a non-ASCII
 character aborted

shellexpand 2.1 slices such a name inside the character. Environment
variable names start with an ASCII character, so keep other '$' as they
are.
---
 src/pathutils.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/pathutils.rs b/src/pathutils.rs
index 702e67c..63e97b0 100644
--- a/src/pathutils.rs
+++ b/src/pathutils.rs
@@ -82,8 +82,30 @@ fn create_expanded_string(
     expanded_string
 }
 
+/// Environment variable names start with an ASCII character (and
+/// shellexpand panics on any other), so keep all other '$' as they are.
+fn escape_non_variables(value: &str) -> String {
+    let mut escaped = String::with_capacity(value.len());
+    let mut chars = value.chars().peekable();
+    while let Some(c) = chars.next() {
+        escaped.push(c);
+        if c == '$' {
+            match chars.peek() {
+                Some('$') => {
+                    // Escaped already.
+                    escaped.push('$');
+                    chars.next();
+                }
+                Some(next) if !next.is_ascii() => escaped.push('$'),
+                _ => (),
+            }
+        }
+    }
+    escaped
+}
+
 fn expand_file_path(value: &str) -> String {
-    let expanded_path = match shellexpand::full(value) {
+    let expanded_path = match shellexpand::full(&escape_non_variables(value)) {
         Ok(v) => (*v).to_string(),
         Err(e) => {
             warn!(
-- 
2.43.0


From b9a5fd1b1fd0965b085ea587e8332547dd74fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:48 +0000
Subject: [PATCH 22/28] fix: images placed away from the origin could not be
 written to some formats

BMP refused them and SGI files could not be read again: both cannot
store an origin.
---
 src/imageio.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index 4c52250..577e0c8 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -229,6 +229,15 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
         return false;
     }
 
+    // Many file formats cannot store where an image starts, the display
+    // window must start at 0,0 for those.
+    if (!out->supports("origin")) {
+        spec.x -= spec.full_x;
+        spec.y -= spec.full_y;
+        spec.full_x = 0;
+        spec.full_y = 0;
+    }
+
     // Set the 'colorspace', and other metadata, so that the image
     // writing can correctly convert the data for the intended format.
     auto color_space_str = std::string(image.spec.color_space);
-- 
2.43.0


From 5762b9220832ebf3b489d8af350695967ce4f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:57 +0000
Subject: [PATCH 23/28] fix: an identity color matrix must not spread inf and
 NaN between channels

---
 src/ops/bake.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ops/bake.rs b/src/ops/bake.rs
index 08e5c19..10d71b3 100644
--- a/src/ops/bake.rs
+++ b/src/ops/bake.rs
@@ -105,7 +105,11 @@ pub fn do_process_colorgrade(
     let num_channels = pixel_block.num_channels();
     let pixels = &mut pixel_block.as_mut_slice_f32();
     let color_matrix = color_matrix.to_na_matrix();
-    ops::xformcolor::apply_color_matrix_inplace(pixels, num_channels, color_matrix);
+    // An identity matrix must not touch the pixels; an infinite or NaN
+    // channel would otherwise turn the other channels into NaN.
+    if !color_matrix.is_identity(0.0) {
+        ops::xformcolor::apply_color_matrix_inplace(pixels, num_channels, color_matrix);
+    }
 
     // Apply Color Operations (in linear color space)
     debug!("apply color operations: START");
-- 
2.43.0


From c68ba1ef943dfa835b15a0ed17d6ea77bc10831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:35 +0000
Subject: [PATCH 24/28] fix: name the channels of written images, RGBA Targa
 files lost brightness

---
 src/imageio.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index 577e0c8..35e4619 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -229,6 +229,10 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
         return false;
     }
 
+    // Name the channels, so that the file formats that must know which
+    // channel is the alpha can find it.
+    spec.default_channel_names();
+
     // Many file formats cannot store where an image starts, the display
     // window must start at 0,0 for those.
     if (!out->supports("origin")) {
-- 
2.43.0


From e2583c36bb931d0f252b64ac857aa3c07b7d471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:39 +0000
Subject: [PATCH 25/28] fix: a reader switched on by any value other than 1
 must hash its attributes

The reader evaluates its file whenever enable is not 0, but its hash
took the attributes into account only when enable was exactly 1: two
readers of different files shared a hash and, through the cache, the
image of whichever was read first.
---
 src/node/read_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/read_image.rs b/src/node/read_image.rs
index 9f5a1eb..b3ea3cc 100644
--- a/src/node/read_image.rs
+++ b/src/node/read_image.rs
@@ -251,7 +251,7 @@ impl Operation for ReadImageOperation {
 impl AttrBlock for ReadImageAttrs {
     fn attr_hash(&self, frame: FrameValue, state: &mut DefaultHasher) {
         self.enable.hash(state);
-        if self.enable == 1 {
+        if self.enable != 0 {
             let frame_num = frame.round().trunc() as i32;
             let path_expanded = pathutils::expand_string(self.file_path.to_string(), frame_num);
             path_expanded.hash(state);
-- 
2.43.0


From 3ae8468a4524a0e29805f4fa1ad8a984e69a4993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:39 +0000
Subject: [PATCH 26/28] fix: a 3D LUT image of a large edge must not get an
 extra row

The height was the quotient of two 32 bit floats rounded up; from an edge
of 413 on the rounding of the operands made it one more than the edge.
---
 src/colorlutimage.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/colorlutimage.rs b/src/colorlutimage.rs
index c4a358c..90aa7ee 100644
--- a/src/colorlutimage.rs
+++ b/src/colorlutimage.rs
@@ -58,8 +58,7 @@ fn get_3dlut_image_size(cube_size: i32, num_channels: i32) -> (i32, i32) {
         }
         3 => {
             let width = cube_size * cube_size;
-            let pixel_count: i32 = cube_size * cube_size * cube_size;
-            let height = ((pixel_count as f32) / (width as f32)).ceil() as i32;
+            let height = cube_size;
             (width, height)
         }
         _ => panic!("Unsupported LUT size."),
-- 
2.43.0


From 5d84505f1c7e0932d1c4b3c97e3ad34374694097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:01 +0000
Subject: [PATCH 27/28] fix: a fully masked grade must not blend in the
 ungraded pixel

The blend multiplied the ungraded pixel with zero, which is NaN for an
infinite pixel.
---
 src/ops/colorgrade.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ops/colorgrade.rs b/src/ops/colorgrade.rs
index 6ff0f8d..65911fe 100644
--- a/src/ops/colorgrade.rs
+++ b/src/ops/colorgrade.rs
@@ -83,6 +83,8 @@ fn grade_single(
 fn blend_single(pixel: f32, value: f32, mask: f32) -> f32 {
     if mask == 0.0 {
         pixel
+    } else if mask == 1.0 {
+        value
     } else {
         (value * mask) + (pixel * (1.0 - mask))
     }
-- 
2.43.0


From e4619c1789521aff442e36a2c4db4f64db20b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:01 +0000
Subject: [PATCH 28/28] fix: use the DWA compression level of a writer

OpenImageIO takes the level from CompressionQuality and ignores (and
overwrites) openexr:dwaCompressionLevel.
---
 src/imageio.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/imageio.cpp b/src/imageio.cpp
index 35e4619..6660480 100644
--- a/src/imageio.cpp
+++ b/src/imageio.cpp
@@ -296,9 +296,11 @@ bool oiio_write_image(const rust::String &file_path, const ImageShared &image,
             } else if (compress.exr_compression == open_comp_graph::ExrCompression::kDwaa) {
                 spec.attribute(exr_compress_name, "dwaa");
                 spec.attribute(exr_dwa_level_name, dwa_level);
+                spec.attribute("CompressionQuality", compress.exr_dwa_compression_level);
             } else if (compress.exr_compression == open_comp_graph::ExrCompression::kDwab) {
                 spec.attribute(exr_compress_name, "dwab");
                 spec.attribute(exr_dwa_level_name, dwa_level);
+                spec.attribute("CompressionQuality", compress.exr_dwa_compression_level);
             }
 
         } else if (name_has_suffix(filename_lower, ".png")) {
-- 
2.43.0

