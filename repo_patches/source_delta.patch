From 3958a86ce6e1eb38185f9427f54e9dd11cbcec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 01/17] fix: add_edge no longer counts an existing edge again

---
 src/graph_impl/graph_map/graph.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index ff18367..5c8bcb4 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -353,7 +353,9 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             nodemap.add_edge(start, label_id);
         }
 
-        self.num_of_edges += 1;
+        if result {
+            self.num_of_edges += 1;
+        }
 
         result
     }
-- 
2.43.0


From 4459d8824420c5e80f2a9d96a9bebb68b93fd286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 02/17] fix: remove_node handles a node with a self-loop

---
 src/graph_impl/graph_map/graph.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 5c8bcb4..3d906e7 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -299,23 +299,26 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
     fn remove_node(&mut self, id: Id) -> OwnedNodeType<Id, L> {
         match self.node_map.remove(&id) {
             Some(node) => {
+                // The other end of a self-loop is the removed node itself.
                 if self.is_directed() {
-                    for neighbor in node.neighbors_iter() {
+                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                         let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                         nodemap.remove_in_edge(id);
                     }
-                    for in_neighbor in node.in_neighbors_iter() {
+                    for in_neighbor in node.in_neighbors_iter().filter(|&n| n != id) {
                         let nodemap = self.node_map.get_mut(&in_neighbor).unwrap();
                         nodemap.remove_edge(id);
                     }
                 } else {
-                    for neighbor in node.neighbors_iter() {
+                    for neighbor in node.neighbors_iter().filter(|&n| n != id) {
                         let nodemap = self.node_map.get_mut(&neighbor).unwrap();
                         nodemap.remove_edge(id);
                     }
                 }
 
-                self.num_of_edges -= node.degree() + node.in_degree();
+                // A directed self-loop is both an out-edge and an in-edge.
+                let self_loops = if node.has_in_neighbor(id) { 1 } else { 0 };
+                self.num_of_edges -= node.degree() + node.in_degree() - self_loops;
 
                 OwnedNodeType::NodeMap(node)
             }
-- 
2.43.0


From f2c43626d7d682d8881502248f79aa078f86fe30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 03/17] fix: graph equality compares the node and edge counts

---
 src/graph_impl/graph_map/graph.rs    | 2 +-
 src/graph_impl/static_graph/graph.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 3d906e7..2abd4f2 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -90,7 +90,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedGraphMap<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedGraphMap<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 395b7d6..ac7a471 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -69,7 +69,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> Partial
     for TypedStaticGraph<Id, NL, EL, Ty, L>
 {
     fn eq(&self, other: &TypedStaticGraph<Id, NL, EL, Ty, L>) -> bool {
-        if !self.node_count() == other.node_count() || !self.edge_count() == other.edge_count() {
+        if self.node_count() != other.node_count() || self.edge_count() != other.edge_count() {
             return false;
         }
 
-- 
2.43.0


From 16cedefd15f411a4b783748e2610eb80436c4730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 04/17] fix: edges() of static graphs yields each edge with its
 own label

---
 src/graph_impl/static_graph/graph.rs           | 8 +++++---
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index ac7a471..ea29bac 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -548,9 +548,11 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
                     .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
             ))
         } else {
-            Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
-                EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
-            })))
+            // An undirected edge is stored twice but listed once, so that the labels
+            // have to be looked up instead of being paired up by position.
+            Iter::new(Box::new(
+                self.edge_indices().map(move |(s, t)| self.get_edge(s, t)),
+            ))
         }
     }
 
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 038cb26..4c9dd96 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -247,9 +247,11 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
                     .map(|i| EdgeType::Edge(Edge::new(i.0, i.1, None))),
             ))
         } else {
-            Iter::new(Box::new(self.edge_indices().zip(labels.iter()).map(|e| {
-                EdgeType::Edge(Edge::new_static((e.0).0, (e.0).1, *e.1))
-            })))
+            // An undirected edge is stored twice but listed once, so that the labels
+            // have to be looked up instead of being paired up by position.
+            Iter::new(Box::new(
+                self.edge_indices().map(move |(s, t)| self.get_edge(s, t)),
+            ))
         }
     }
 
-- 
2.43.0


From d4d7e46889f505bfa5a21940572bd7287b7f07e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:14 +0000
Subject: [PATCH 05/17] fix: StaticGraphMmap::has_edge answers false for an
 absent start node

---
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 4c9dd96..92620a8 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -187,11 +187,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn has_edge(&self, start: Id, target: Id) -> bool {
-        let neighbors = self.neighbors(start);
-        // The neighbors must be sorted anyway
-        let pos = neighbors.binary_search(&target);
-
-        pos.is_ok()
+        self.edges.has_edge(start, target)
     }
 
     #[inline]
-- 
2.43.0


From c1f78ffcba2155d2b5a646a9f0bf876f3849dddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 06/17] fix: dump_mmap removes files left by an earlier dump to
 the same prefix

---
 src/graph_impl/static_graph/edge_vec.rs |  4 ++--
 src/graph_impl/static_graph/graph.rs    |  8 +++++++-
 src/io/mmap.rs                          | 12 ++++++++++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index 2d425d5..a999dbf 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use generic::IdType;
-use io::mmap::dump;
+use io::mmap::{dump, remove_stale};
 use std::fs::File;
 use std::io::Result;
 
@@ -175,7 +175,7 @@ impl<Id: IdType, L: IdType> EdgeVec<Id, L> {
             if !self.get_labels().is_empty() {
                 dump(self.get_labels(), File::create(labels_file)?)
             } else {
-                Ok(())
+                remove_stale(labels_file)
             }
         }
     }
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index ea29bac..33357e0 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -35,7 +35,7 @@ use graph_impl::static_graph::node::StaticNode;
 use graph_impl::static_graph::static_edge_iter::StaticEdgeIndexIter;
 use graph_impl::static_graph::{EdgeVec, EdgeVecTrait};
 use graph_impl::{Edge, GraphImpl};
-use io::mmap::dump;
+use io::mmap::{dump, remove_stale};
 use io::serde::{Deserialize, Serialize, Serializer};
 use map::SetMap;
 
@@ -431,12 +431,18 @@ where
         self.edge_vec.dump_mmap(&edges_prefix)?;
         if let Some(ref in_edges) = self.in_edge_vec {
             in_edges.dump_mmap(&in_edges_prefix)?;
+        } else {
+            for ext in &["offsets", "edges", "labels"] {
+                remove_stale(format!("{}.{}", in_edges_prefix, ext))?;
+            }
         }
 
         if let Some(ref labels) = self.labels {
             unsafe {
                 dump(labels, ::std::fs::File::create(label_file)?)?;
             }
+        } else {
+            remove_stale(label_file)?;
         }
 
         let aux_file = StaticGraphMmapAux::new(
diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 8724817..60efe38 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -24,8 +24,8 @@
 
 extern crate memmap;
 
-use std::fs::File;
-use std::io::{BufWriter, Result, Write};
+use std::fs::{remove_file, File};
+use std::io::{BufWriter, ErrorKind, Result, Write};
 use std::marker::PhantomData;
 use std::mem;
 use std::ops;
@@ -105,6 +105,14 @@ pub fn typed_as_byte_slice<T: Copy>(slice: &[T]) -> &[u8] {
     }
 }
 
+/// Remove a file left behind by an earlier dump to the same path, if there is one.
+pub(crate) fn remove_stale<P: AsRef<Path>>(path: P) -> Result<()> {
+    match remove_file(path) {
+        Err(ref e) if e.kind() == ErrorKind::NotFound => Ok(()),
+        other => other,
+    }
+}
+
 pub unsafe fn dump<W: Write, T: Copy>(data: &[T], write: W) -> Result<()> {
     let mut writer = BufWriter::new(write);
     let mut slice = typed_as_byte_slice(data);
-- 
2.43.0


From e197038760d0f5cc4ba7f60a79444aa38f7ab223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 07/17] fix: TypedMemoryMap opens an empty file as an empty
 slice

---
 src/io/mmap.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 60efe38..4c20c40 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -45,8 +45,17 @@ impl<T: Copy> TypedMemoryMap<T> {
         let file = File::open(filename).expect("error opening file");
         let size = file.metadata().expect("error reading metadata").len() as usize;
         let type_len = mem::size_of::<T>();
+        // A memory map cannot be empty, an empty file is thus represented by an empty slice
+        // of some anonymous map.
+        let map = if size == 0 {
+            memmap::MmapMut::map_anon(1)
+                .and_then(|map| map.make_read_only())
+                .unwrap()
+        } else {
+            unsafe { memmap::Mmap::map(&file).unwrap() }
+        };
         TypedMemoryMap {
-            map: unsafe { memmap::Mmap::map(&file).unwrap() },
+            map,
             len: size / type_len,
             type_len,
             phn: PhantomData,
-- 
2.43.0


From 851eb5a281795a117348936d574c8ddeb95ca468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 08/17] fix: TypedMemoryMap checks the bounds of from- and
 to-ranges

---
 src/io/mmap.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/io/mmap.rs b/src/io/mmap.rs
index 4c20c40..2954a30 100644
--- a/src/io/mmap.rs
+++ b/src/io/mmap.rs
@@ -35,8 +35,6 @@ use std::slice;
 pub struct TypedMemoryMap<T: Copy> {
     pub map: memmap::Mmap,
     pub len: usize,
-    type_len: usize,
-    // in bytes (needed because map extends to full block)
     phn: PhantomData<T>,
 }
 
@@ -57,7 +55,6 @@ impl<T: Copy> TypedMemoryMap<T> {
         TypedMemoryMap {
             map,
             len: size / type_len,
-            type_len,
             phn: PhantomData,
         }
     }
@@ -68,7 +65,6 @@ impl<T: Copy> TypedMemoryMap<T> {
         Self {
             map,
             len: size / type_len,
-            type_len,
             phn: PhantomData,
         }
     }
@@ -86,13 +82,7 @@ impl<T: Copy> ops::Index<ops::RangeFrom<usize>> for TypedMemoryMap<T> {
     type Output = [T];
     #[inline]
     fn index(&self, _index: ops::RangeFrom<usize>) -> &[T] {
-        let index = _index.start;
-        unsafe {
-            slice::from_raw_parts(
-                self.map.as_ptr().add(index * self.type_len) as *const T,
-                self.len - index,
-            )
-        }
+        &self[..][_index]
     }
 }
 
@@ -100,7 +90,7 @@ impl<T: Copy> ops::Index<ops::RangeTo<usize>> for TypedMemoryMap<T> {
     type Output = [T];
     #[inline]
     fn index(&self, _index: ops::RangeTo<usize>) -> &[T] {
-        unsafe { slice::from_raw_parts(self.map.as_ptr() as *const T, _index.end) }
+        &self[..][_index]
     }
 }
 
-- 
2.43.0


From 94f308beefbab55a6ccbbaa4db232ee0db96881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 09/17] fix: export and the CSV writer report errors of the
 final flush

---
 src/io/csv/writer.rs | 4 +++-
 src/io/serde.rs      | 9 +++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/io/csv/writer.rs b/src/io/csv/writer.rs
index a4537aa..550f7bb 100644
--- a/src/io/csv/writer.rs
+++ b/src/io/csv/writer.rs
@@ -112,6 +112,8 @@ where
             wtr.serialize(NodeRecord::new(id, g.get_node_label(id)))?;
         }
 
+        wtr.flush()?;
+
         info!(
             "csv::Writer::write - Writing edges to {}",
             self.path_to_edges.as_path().to_str().unwrap()
@@ -129,6 +131,6 @@ where
             ))?;
         }
 
-        Ok(())
+        wtr.flush()
     }
 }
diff --git a/src/io/serde.rs b/src/io/serde.rs
index 58eea95..ca1ca57 100644
--- a/src/io/serde.rs
+++ b/src/io/serde.rs
@@ -19,7 +19,7 @@
  * under the License.
  */
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::Path;
 
 use serde::{de, ser};
@@ -59,7 +59,12 @@ impl Serializer {
     {
         let mut writer = BufWriter::new(File::create(path)?);
 
-        serialize_into(&mut writer, &obj)
+        serialize_into(&mut writer, &obj)?;
+
+        // Errors of the last write would be lost if the writer was just dropped.
+        writer.flush()?;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 86240d747745ce40766245eab2c1956222c2c37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 10/17] fix: into_static works for empty graphs and for ids up
 to the maximum

---
 src/graph_impl/graph_map/graph.rs               | 8 +++-----
 src/graph_impl/static_graph/static_edge_iter.rs | 5 +++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/graph_impl/graph_map/graph.rs b/src/graph_impl/graph_map/graph.rs
index 2abd4f2..2255c9a 100644
--- a/src/graph_impl/graph_map/graph.rs
+++ b/src/graph_impl/graph_map/graph.rs
@@ -862,8 +862,8 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             (None, None, None)
         };
 
-        let mut nid = Id::new(0);
-        let max_nid = self.node_indices().max().unwrap();
+        // Counting in `usize` as the successor of the maximum id may not fit in `Id`.
+        let node_range = self.node_indices().max().map_or(0, |max| max.id() + 1);
 
         offset_vec.push(offset);
 
@@ -871,7 +871,7 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             _in_offset_vec.push(_in_offset);
         }
 
-        while nid <= max_nid {
+        for nid in (0..node_range).map(Id::new) {
             if let Some(mut node) = self.node_map.remove(&nid) {
                 let neighbors = mem::replace(&mut node.neighbors, BTreeMap::new());
                 offset += neighbors.len();
@@ -913,8 +913,6 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
                 _in_offset_vec.push(_in_offset);
             }
 
-            nid = nid.increment();
-
             //shrink the map to save memory
             self.shrink_to_fit();
         }
diff --git a/src/graph_impl/static_graph/static_edge_iter.rs b/src/graph_impl/static_graph/static_edge_iter.rs
index 8906c7a..1351e21 100644
--- a/src/graph_impl/static_graph/static_edge_iter.rs
+++ b/src/graph_impl/static_graph/static_edge_iter.rs
@@ -49,7 +49,8 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
         let mut neighbors: &[Id];
 
         loop {
-            while self.edge_vec.has_node(Id::new(self.curr_node))
+            // Compared in `usize` as the number of nodes may not fit in `Id`.
+            while self.curr_node < self.edge_vec.num_nodes()
                 && self.curr_neighbor_index >= self.edge_vec.degree(Id::new(self.curr_node))
             {
                 self.curr_node += 1;
@@ -57,7 +58,7 @@ impl<'a, Id: IdType, L: IdType> Iterator for StaticEdgeIndexIter<'a, Id, L> {
             }
 
             node = self.curr_node;
-            if !self.edge_vec.has_node(Id::new(node)) {
+            if node >= self.edge_vec.num_nodes() {
                 return None;
             }
 
-- 
2.43.0


From fc52114fa353a63b81c818e5896530aaad464a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 11/17] fix: static graphs without nodes answer queries instead
 of underflowing

---
 src/graph_impl/static_graph/edge_vec.rs        | 2 +-
 src/graph_impl/static_graph/graph.rs           | 5 ++++-
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 5 ++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index a999dbf..faa2301 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -45,7 +45,7 @@ pub trait EdgeVecTrait<Id: IdType, L: IdType> {
 
     #[inline]
     fn num_nodes(&self) -> usize {
-        self.get_offsets().len() - 1
+        self.get_offsets().len().saturating_sub(1)
     }
 
     #[inline]
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 33357e0..86a4d4a 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -581,7 +581,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType> GraphTr
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        match self.node_count() {
+            0 => None,
+            n => Some(Id::new(n - 1)),
+        }
     }
 
     #[inline]
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index 92620a8..d0c5bc7 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -268,7 +268,10 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, L: IdType> GraphTrait<Id, L>
 
     #[inline]
     fn max_seen_id(&self) -> Option<Id> {
-        Some(Id::new(self.node_count() - 1))
+        match self.node_count() {
+            0 => None,
+            n => Some(Id::new(n - 1)),
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From 9e147044df7877b68a9cb79673830c4c5d042d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 12/17] fix: Dfs visits nodes in depth-first order

---
 src/algorithm/dfs.rs | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/algorithm/dfs.rs b/src/algorithm/dfs.rs
index ef3e342..5126022 100644
--- a/src/algorithm/dfs.rs
+++ b/src/algorithm/dfs.rs
@@ -58,7 +58,7 @@ use prelude::*;
 pub struct Dfs<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType = Id> {
     /// The stack of nodes to visit
     stack: Vec<Id>,
-    /// The map of discovered nodes
+    /// The map of nodes, in which the nodes not yet visited are set
     discovered: FixedBitSet,
     /// The reference to the graph that algorithm is running on
     graph: &'a GeneralGraph<Id, NL, EL, L>,
@@ -76,9 +76,14 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
     /// Create a `Dfs` from a vector and a map
     pub fn from_parts<G: GeneralGraph<Id, NL, EL, L>>(
         stack: Vec<Id>,
-        discovered: FixedBitSet,
+        mut discovered: FixedBitSet,
         graph: &'a G,
     ) -> Self {
+        // The nodes on the stack are still to be visited.
+        for id in &stack {
+            discovered.set(id.id(), true);
+        }
+
         Dfs {
             stack,
             discovered,
@@ -108,24 +113,29 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
 
     /// Return the next node in the Dfs, or **None** if the traversal is done.
     pub fn next(&mut self) -> Option<Id> {
-        if self.stack.len() == 0 {
-            if let Some(id) = self.next_unvisited_node() {
-                self.stack.push(id);
-                self.discovered.set(id.id(), false);
+        // A node is only marked when it is visited, and may be on the stack several times:
+        // it is to be visited from the latest visited node it is adjacent to.
+        let mut current = None;
+        while let Some(node) = self.stack.pop() {
+            if self.discovered.contains(node.id()) {
+                current = Some(node);
+                break;
             }
         }
 
-        if let Some(current_node) = self.stack.pop() {
-            for neighbour in self.graph.neighbors_iter(current_node) {
-                if self.discovered.contains(neighbour.id()) {
-                    self.discovered.set(neighbour.id(), false);
-                    self.stack.push(neighbour);
-                }
+        let current_node = match current.or_else(|| self.next_unvisited_node()) {
+            Some(node) => node,
+            None => return None,
+        };
+
+        self.discovered.set(current_node.id(), false);
+        for neighbour in self.graph.neighbors_iter(current_node) {
+            if self.discovered.contains(neighbour.id()) {
+                self.stack.push(neighbour);
             }
-            Some(current_node)
-        } else {
-            None
         }
+
+        Some(current_node)
     }
 
     /// Randomly pick a unvisited node from the map.
@@ -144,7 +154,6 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
             if !self.graph.has_node(start) {
                 panic!("Node {:?} is not in the graph.", start);
             } else {
-                self.discovered.set(start.id(), false);
                 self.stack.clear();
                 self.stack.push(start);
             }
@@ -153,7 +162,6 @@ impl<'a, Id: IdType, NL: Eq + Hash + 'a, EL: Eq + Hash + 'a, L: IdType> Dfs<'a,
                 panic!("Graph is empty")
             } else {
                 let id = self.graph.node_indices().next().unwrap();
-                self.discovered.set(id.id(), false);
                 self.stack.clear();
                 self.stack.push(id);
             }
-- 
2.43.0


From e24c1ebd63233bca3f3dc2fef83edf4e932bb4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 13/17] fix: connected components include isolated nodes and
 answer for unknown ones

---
 src/algorithm/conn_comp.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/algorithm/conn_comp.rs b/src/algorithm/conn_comp.rs
index e334750..08192d8 100644
--- a/src/algorithm/conn_comp.rs
+++ b/src/algorithm/conn_comp.rs
@@ -97,26 +97,31 @@ impl<Id: IdType> ConnComp<Id> {
         &mut self,
         graph: &GeneralGraph<Id, NL, EL, L>,
     ) {
+        for node in graph.node_indices() {
+            self.add_node(node);
+        }
+
         for edge in graph.edges() {
             self.process_new_edge(&edge);
         }
     }
 
+    /// Make a node known, as a component of its own at first
+    fn add_node(&mut self, node: Id) {
+        if !self.parent().contains_key(&node) {
+            self.mut_parent().insert(node, node);
+            self.count += 1;
+        }
+    }
+
     /// Update the root map based on a newly given edge
     /// Can be called at anytime after instantiating a ConnComp instance
     pub fn process_new_edge<L: IdType>(&mut self, edge: &EdgeTrait<Id, L>) {
         let x = edge.get_start();
         let y = edge.get_target();
 
-        if !self.parent().contains_key(&x) {
-            self.mut_parent().insert(x, x);
-            self.count += 1;
-        }
-
-        if !self.parent().contains_key(&y) {
-            self.mut_parent().insert(y, y);
-            self.count += 1;
-        }
+        self.add_node(x);
+        self.add_node(y);
 
         let x_root = self.get_root(x).unwrap();
         let y_root = self.get_root(y).unwrap();
@@ -138,6 +143,10 @@ impl<Id: IdType> ConnComp<Id> {
 
     /// Get the root of a node.
     pub fn get_root(&self, mut node: Id) -> Option<Id> {
+        if !self.parent().contains_key(&node) {
+            return None;
+        }
+
         while self.parent().get(&node) != Some(&node) {
             let p = self.parent()[&node];
             let pp = self.parent()[&p];
@@ -146,11 +155,7 @@ impl<Id: IdType> ConnComp<Id> {
             node = pp;
         }
 
-        if self.parent().get(&node) != None {
-            Some(node)
-        } else {
-            None
-        }
+        Some(node)
     }
 
     /// Check if two nodes are belong to the same component.
-- 
2.43.0


From 5a42e4404841761b14fc834257a466143af7fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 14/17] fix: SetMap equality takes the indices into account, as
 its hash does

---
 src/map/set_map.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/map/set_map.rs b/src/map/set_map.rs
index 7ea6271..b5512dc 100644
--- a/src/map/set_map.rs
+++ b/src/map/set_map.rs
@@ -29,7 +29,7 @@ use io::serde::{Deserialize, Serialize};
 use map::VecMap;
 
 /// More efficient but less compact.
-#[derive(Debug, PartialEq, Eq, Clone, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct SetMap<L: Hash + Eq> {
     labels: IndexSet<L>,
 }
@@ -131,6 +131,16 @@ impl<L: Hash + Eq> MutMapTrait<L> for SetMap<L> {
     }
 }
 
+/// Two maps are equal if they assign the same indices to the same items, which is also what
+/// the hash depends on.
+impl<L: Hash + Eq> PartialEq for SetMap<L> {
+    fn eq(&self, other: &SetMap<L>) -> bool {
+        self.len() == other.len() && self.labels.iter().eq(other.labels.iter())
+    }
+}
+
+impl<L: Hash + Eq> Eq for SetMap<L> {}
+
 impl<L: Hash + Eq> Hash for SetMap<L> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         for l in self.items() {
-- 
2.43.0


From 2a5ea45301e495b5c816016e876469c13a550406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 15/17] fix: the derived number of undirected edges counts
 self-loops

---
 src/graph_impl/static_graph/edge_vec.rs        | 8 ++++++++
 src/graph_impl/static_graph/graph.rs           | 6 ++++--
 src/graph_impl/static_graph/mmap/graph_mmap.rs | 3 ++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/graph_impl/static_graph/edge_vec.rs b/src/graph_impl/static_graph/edge_vec.rs
index faa2301..95f8074 100644
--- a/src/graph_impl/static_graph/edge_vec.rs
+++ b/src/graph_impl/static_graph/edge_vec.rs
@@ -53,6 +53,14 @@ pub trait EdgeVecTrait<Id: IdType, L: IdType> {
         self.get_edges().len()
     }
 
+    /// The number of edges from a node to itself.
+    fn num_self_loops(&self) -> usize {
+        (0..self.num_nodes())
+            .map(Id::new)
+            .filter(|&node| self.has_edge(node, node))
+            .count()
+    }
+
     #[inline]
     fn neighbors(&self, node: Id) -> &[Id] {
         assert!(self.has_node(node));
diff --git a/src/graph_impl/static_graph/graph.rs b/src/graph_impl/static_graph/graph.rs
index 86a4d4a..17cbc33 100644
--- a/src/graph_impl/static_graph/graph.rs
+++ b/src/graph_impl/static_graph/graph.rs
@@ -179,7 +179,8 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             if Ty::is_directed() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                // Every edge is stored twice, but a self-loop only once.
+                (edges.num_edges() + edges.num_self_loops()) >> 1
             }
         };
 
@@ -238,7 +239,8 @@ impl<Id: IdType, NL: Hash + Eq, EL: Hash + Eq, Ty: GraphType, L: IdType>
             if Ty::is_directed() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                // Every edge is stored twice, but a self-loop only once.
+                (edges.num_edges() + edges.num_self_loops()) >> 1
             }
         };
 
diff --git a/src/graph_impl/static_graph/mmap/graph_mmap.rs b/src/graph_impl/static_graph/mmap/graph_mmap.rs
index d0c5bc7..b5486a3 100644
--- a/src/graph_impl/static_graph/mmap/graph_mmap.rs
+++ b/src/graph_impl/static_graph/mmap/graph_mmap.rs
@@ -116,7 +116,8 @@ where
             let num_edge = if in_edges.is_some() {
                 edges.num_edges()
             } else {
-                edges.num_edges() >> 1
+                // Every edge is stored twice, but a self-loop only once.
+                (edges.num_edges() + edges.num_self_loops()) >> 1
             };
 
             StaticGraphMmapAux::empty(num_node, num_edge)
-- 
2.43.0


From aea2a2cbb150999146d2564bfb4a4c248a7191c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 16/17] fix: an empty label column means no label when reading
 CSV without headers

---
 src/io/csv/record.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/csv/record.rs b/src/io/csv/record.rs
index e2bc16e..648ccbe 100644
--- a/src/io/csv/record.rs
+++ b/src/io/csv/record.rs
@@ -114,7 +114,7 @@ where
                 let id = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(0, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq.next_element::<Option<N>>().unwrap_or(None).unwrap_or(None);
 
                 Ok(NodeRecord::new(id, label))
             }
@@ -205,7 +205,7 @@ where
                 let target = seq
                     .next_element()?
                     .ok_or_else(|| de::Error::invalid_length(1, &self))?;
-                let label = seq.next_element().unwrap_or(None);
+                let label = seq.next_element::<Option<E>>().unwrap_or(None).unwrap_or(None);
 
                 Ok(EdgeRecord::new(start, target, label))
             }
-- 
2.43.0


From 3847aa6e88789bd1e0c5c5cb484843bd5ddcca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:21 +0000
Subject: [PATCH 17/17] fix: LDBC loading takes only files whose whole name
 matches

---
 src/io/ldbc/node.rs     | 2 +-
 src/io/ldbc/relation.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/ldbc/node.rs b/src/io/ldbc/node.rs
index 371d9c8..efc8a74 100644
--- a/src/io/ldbc/node.rs
+++ b/src/io/ldbc/node.rs
@@ -41,7 +41,7 @@ impl Node {
             name: name.to_owned(),
             id_index,
             label_index,
-            file_name_start: Regex::new(&format!(r"^{}[_\d]*.csv", file_name_start)[..]).unwrap(),
+            file_name_start: Regex::new(&format!(r"^{}[_\d]*\.csv$", file_name_start)[..]).unwrap(),
         }
     }
 
diff --git a/src/io/ldbc/relation.rs b/src/io/ldbc/relation.rs
index 75f6782..7227acf 100644
--- a/src/io/ldbc/relation.rs
+++ b/src/io/ldbc/relation.rs
@@ -52,7 +52,7 @@ impl Relation {
             edge_label: edge_label.to_owned(),
             start_index,
             target_index,
-            file_name_start: Regex::new(&format!("{}{}", file_name_start, r"[_\d]*.csv")[..])
+            file_name_start: Regex::new(&format!(r"^{}[_\d]*\.csv$", file_name_start)[..])
                 .unwrap(),
         }
     }
-- 
2.43.0

