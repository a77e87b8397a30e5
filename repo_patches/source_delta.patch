From 81695acbe8ac224f5cdbc3b88446e660e56a04be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 01/29] fix: asking for the triples of predicate id 0 yields
 nothing

0 marks empty entries in the predicate wavelet tree; looking it up gave
arbitrary (and repeated) triples of other predicates.
---
 src/layer/internal/mod.rs | 7 +++++++
 src/storage/layer.rs      | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index dfb342f..7a18d36 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -372,6 +372,10 @@ impl InternalLayer {
         &self,
         predicate: u64,
     ) -> OptInternalLayerTriplePredicateIterator {
+        if predicate == 0 {
+            // 0 marks empty entries in the wavelet tree, it is never a predicate
+            return OptInternalLayerTriplePredicateIterator(None);
+        }
         match self.pos_predicate_wavelet_tree().lookup(predicate) {
             Some(lookup) => OptInternalLayerTriplePredicateIterator(Some(
                 InternalLayerTriplePredicateIterator::new(
@@ -389,6 +393,9 @@ impl InternalLayer {
         &self,
         predicate: u64,
     ) -> OptInternalLayerTriplePredicateIterator {
+        if predicate == 0 {
+            return OptInternalLayerTriplePredicateIterator(None);
+        }
         match (
             self.neg_predicate_wavelet_tree()
                 .and_then(|t| t.lookup(predicate)),
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 97c669d..1795f2d 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -2596,6 +2596,10 @@ pub(crate) async fn file_triple_iterator_by_predicate<F: FileLoad + FileStore>(
     let width = s_p_aj.nums().width();
     let wavelet_bits = predicate_wavelet_maps.into();
     let wtree = WaveletTree::from_parts(wavelet_bits, width);
+    if predicate == 0 {
+        // 0 marks empty entries in the wavelet tree, it is never a predicate
+        return Ok(OptInternalLayerTriplePredicateIterator(None));
+    }
     Ok(match wtree.lookup(predicate) {
         Some(lookup) => OptInternalLayerTriplePredicateIterator(Some(
             InternalLayerTriplePredicateIterator::new(lookup, subjects, s_p_aj, sp_o_aj),
-- 
2.43.0


From 383e9eaef3209ede761cd5e2fdb694224cacfd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 02/29] fix: changes by object yield nothing for objects a
 layer did not change

On a loaded layer, looking up an object without changes gave the changes
of the next higher object instead.
---
 src/layer/internal/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/layer/internal/mod.rs b/src/layer/internal/mod.rs
index 7a18d36..838e495 100644
--- a/src/layer/internal/mod.rs
+++ b/src/layer/internal/mod.rs
@@ -423,7 +423,8 @@ impl InternalLayer {
         Box::new(
             self.internal_triple_additions_by_object()
                 .seek_object(object)
-                .stop_at_boundary(true),
+                .stop_at_boundary(true)
+                .take_while(move |t| t.object == object),
         )
     }
 
@@ -444,7 +445,8 @@ impl InternalLayer {
         Box::new(
             self.internal_triple_removals_by_object()
                 .seek_object(object)
-                .stop_at_boundary(true),
+                .stop_at_boundary(true)
+                .take_while(move |t| t.object == object),
         )
     }
 
-- 
2.43.0


From e9e633dd9b2ebe901abd0160765d753e8723318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:13 +0000
Subject: [PATCH 03/29] fix: the predicate count of an uncached layer is not
 its value count

---
 src/storage/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/cache.rs b/src/storage/cache.rs
index f49565b..2cec0e7 100644
--- a/src/storage/cache.rs
+++ b/src/storage/cache.rs
@@ -197,7 +197,7 @@ impl LayerStore for CachedLayerStore {
             }
         }
 
-        self.inner.get_value_count(name).await
+        self.inner.get_predicate_count(name).await
     }
 
     async fn get_value_count(&self, name: [u32; 5]) -> io::Result<Option<u64>> {
-- 
2.43.0


From f5075e5e15135b49db848a934d98421f5e127713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 04/29] fix: layer_changes walks the history instead of
 repeating one layer

---
 src/storage/layer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 1795f2d..910d8d6 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -321,8 +321,8 @@ pub trait LayerStore: 'static + Packable + Send + Sync {
         let mut positives = Vec::new();
         let mut negatives = Vec::new();
         walk_backwards_from_disk!(self, name, current, {
-            positives.push(self.triple_additions(name).await?);
-            negatives.push(self.triple_removals(name).await?);
+            positives.push(self.triple_additions(current).await?);
+            negatives.push(self.triple_removals(current).await?);
         });
         positives.reverse();
         negatives.reverse();
-- 
2.43.0


From f85ea7640bb93483dba0382986208030ad371bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 05/29] fix: rolling up to an ancestor keeps the predicate ids

The id maps of loaded layers were merged from their node id maps, which
renumbered predicates of the rolled up layer.
---
 src/storage/delta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index 033c510..aa0e97b 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -195,7 +195,7 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
             layer
                 .immediate_layers_upto(memory_upto)
                 .into_iter()
-                .map(|l| l.node_value_id_map().clone()),
+                .map(|l| l.predicate_id_map().clone()),
         )
         .collect();
 
-- 
2.43.0


From 5b0dc554be5a6d86742980c233dd346a6be819f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 06/29] fix: a fully rolled up layer can be rolled up to an
 ancestor

Looking for an equivalent rollup read the parent file of the existing
rollup, which does not exist if that is a full rollup.
---
 src/storage/layer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 910d8d6..5d0ea9b 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1769,8 +1769,8 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
         if self.layer_has_rollup(layer.name()).await? {
             let rollup = self.read_rollup_file(layer.name()).await?;
 
-            // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            // get rollup parent (a full rollup has none). if it is the same as upto, we're requesting something equivalent.
+            if self.layer_parent(rollup).await? == Some(upto) {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
@@ -1804,8 +1804,8 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
         if self.layer_has_rollup(layer.name()).await? {
             let rollup = self.read_rollup_file(layer.name()).await?;
 
-            // get rollup parent. if it is the same as upto, we're requesting something equivalent.
-            if upto == self.read_parent_file(rollup).await? {
+            // get rollup parent (a full rollup has none). if it is the same as upto, we're requesting something equivalent.
+            if self.layer_parent(rollup).await? == Some(upto) {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
-- 
2.43.0


From 5e7deb685f3bb6e9aea43a40223c735a9f199670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:59 +0000
Subject: [PATCH 07/29] fix: a rolled up layer can be rolled up to an ancestor
 inside its rollup

When the loaded layer is a rollup that reaches below the requested
ancestor, there are no loaded layers in between and everything has to
come from disk; this panicked.
---
 src/storage/delta.rs | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index aa0e97b..6e0ea23 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -151,30 +151,33 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
     let disk_value_dicts = get_value_dicts_from_disk(store, memory_upto, upto).await?;
     let disk_node_value_idmaps = get_node_value_idmaps_from_disk(store, memory_upto, upto).await?;
     let disk_predicate_idmaps = get_predicate_idmaps_from_disk(store, memory_upto, upto).await?;
+    // if the loaded layer reaches below upto, everything comes from disk
+    let memory_layers = if layer.name() == memory_upto {
+        Vec::new()
+    } else {
+        layer.immediate_layers_upto(memory_upto)
+    };
     let node_dicts: Vec<_> = disk_node_dicts
         .into_iter()
         .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
+            memory_layers
+                .iter()
                 .map(|l| l.node_dictionary().clone()),
         )
         .collect();
     let predicate_dicts: Vec<_> = disk_predicate_dicts
         .into_iter()
         .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
+            memory_layers
+                .iter()
                 .map(|l| l.predicate_dictionary().clone()),
         )
         .collect();
     let value_dicts: Vec<_> = disk_value_dicts
         .into_iter()
         .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
+            memory_layers
+                .iter()
                 .map(|l| l.value_dictionary().clone()),
         )
         .collect();
@@ -182,9 +185,8 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
     let node_value_idmaps: Vec<_> = disk_node_value_idmaps
         .into_iter()
         .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
+            memory_layers
+                .iter()
                 .map(|l| l.node_value_id_map().clone()),
         )
         .collect();
@@ -192,9 +194,8 @@ async fn dictionary_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore
     let predicate_idmaps: Vec<_> = disk_predicate_idmaps
         .into_iter()
         .chain(
-            layer
-                .immediate_layers_upto(memory_upto)
-                .into_iter()
+            memory_layers
+                .iter()
                 .map(|l| l.predicate_id_map().clone()),
         )
         .collect();
@@ -396,9 +397,13 @@ pub async fn delta_rollup_upto<S: LayerStore, F: 'static + FileLoad + FileStore>
     .await?;
 
     let disk_changes = store.layer_changes_upto(bound, upto).await?;
-    let memory_changes =
-        InternalTripleStackIterator::from_layer_stack(layer, bound).expect("upto not found");
-    let changes = InternalTripleStackIterator::merge(vec![disk_changes, memory_changes]);
+    let changes = if layer.name() == bound {
+        disk_changes
+    } else {
+        let memory_changes =
+            InternalTripleStackIterator::from_layer_stack(layer, bound).expect("upto not found");
+        InternalTripleStackIterator::merge(vec![disk_changes, memory_changes])
+    };
     let additions = changes
         .clone()
         .filter(|(sort, _)| *sort == TripleChange::Addition)
-- 
2.43.0


From 2178b26cd2fb57cf1a97067d92f16fcb47bbe23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:12 +0000
Subject: [PATCH 08/29] fix: an imprecise rollup goes on top of the layer where
 it ends

The rollup holds the changes of the loaded layers. When these end at a
rollup that reaches below the requested ancestor, it was still placed on
top of that ancestor and lost or repeated the changes in between (or
panicked, when the layer itself was the rollup).
---
 src/storage/delta.rs |  2 +-
 src/storage/layer.rs | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/storage/delta.rs b/src/storage/delta.rs
index 6e0ea23..63ae157 100644
--- a/src/storage/delta.rs
+++ b/src/storage/delta.rs
@@ -5,7 +5,7 @@ use crate::layer::*;
 use crate::storage::*;
 use tdb_succinct::*;
 
-async fn safe_upto_bound<S: LayerStore>(
+pub(crate) async fn safe_upto_bound<S: LayerStore>(
     store: &S,
     layer: &InternalLayer,
     upto: [u32; 5],
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 5d0ea9b..58c6827 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1800,21 +1800,30 @@ impl<F: 'static + FileLoad + FileStore + Clone, T: 'static + PersistentLayerStor
             return Ok(layer.name());
         }
 
+        // what is rolled up are the loaded layers, and these may reach
+        // below upto if one of them is a rollup itself. The result goes
+        // on top of the layer where they end.
+        let bound = safe_upto_bound(self, &layer, upto).await?;
+        if bound == layer.name() || layer.parent_name() == Some(bound) {
+            return Ok(layer.name());
+        }
+
         // check if there's already an equivalent rollup
         if self.layer_has_rollup(layer.name()).await? {
             let rollup = self.read_rollup_file(layer.name()).await?;
 
             // get rollup parent (a full rollup has none). if it is the same as upto, we're requesting something equivalent.
-            if self.layer_parent(rollup).await? == Some(upto) {
+            let parent = self.layer_parent(rollup).await?;
+            if parent == Some(upto) || parent == Some(bound) {
                 // yup, equivalent. Let's just return the rollup we know about.
                 return Ok(rollup);
             }
         }
 
         let (layer_dir, _parent_layer, child_layer_files) = self
-            .create_child_layer_files_with_cache(upto, cache)
+            .create_child_layer_files_with_cache(bound, cache)
             .await?;
-        imprecise_delta_rollup_upto(self, &layer, upto, child_layer_files).await?;
+        imprecise_delta_rollup_upto(self, &layer, bound, child_layer_files).await?;
         self.finalize(layer_dir).await?;
         Ok(layer_dir)
     }
-- 
2.43.0


From 8f62354e7dc94841cfc4f96c106716ab964179bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:07 +0000
Subject: [PATCH 09/29] fix: importing a pack never panics and never leaves
 partial layers

The pack is read and checked as a whole before the store is touched,
layers appear complete or not at all, layers that exist already are left
alone, and requested layers that are not in the pack are ignored.
---
 src/storage/archive.rs   |  61 +++++++++-----
 src/storage/directory.rs |  79 ++++++++++++++----
 src/storage/layer.rs     |  24 ++++++
 src/storage/memory.rs    |  22 +++++
 src/storage/pack.rs      | 169 ++++++++++++++++++++++-----------------
 5 files changed, 247 insertions(+), 108 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index d12b42f..543656c 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1357,6 +1357,31 @@ impl<M, D> ArchiveLayerStore<M, D> {
 
 const PREFIX_DIR_SIZE: usize = 3;
 
+/// Build the archive that contains the given files.
+fn archive_bytes(mut files: Vec<(LayerFileEnum, Bytes)>) -> Bytes {
+    files.sort();
+    let presence_header =
+        ArchiveFilePresenceHeader::from_present(files.iter().map(|(t, _)| t).cloned());
+
+    let mut offsets = LateLogArrayBufBuilder::new(BytesMut::new());
+    let mut tally = 0;
+    for (_file_type, data) in files.iter() {
+        tally += data.len();
+        offsets.push(tally as u64);
+    }
+
+    let offsets_buf = offsets.finalize_header_first();
+
+    let mut data_buf = BytesMut::with_capacity(tally + 8 + offsets_buf.len());
+    data_buf.put_u64(presence_header.inner());
+    data_buf.extend(offsets_buf);
+    for (_file_type, data) in files {
+        data_buf.extend(data);
+    }
+
+    data_buf.freeze()
+}
+
 #[async_trait]
 impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> PersistentLayerStore
     for ArchiveLayerStore<M, D>
@@ -1473,33 +1498,33 @@ impl<M: ArchiveMetadataBackend + Unpin + 'static, D: ArchiveBackend + 'static> P
                 .expect("layer to be finalized was not found in construction map")
         };
 
-        let mut files: Vec<(_, _)> = files
+        let files: Vec<(_, _)> = files
             .into_iter()
             .filter(|(_file_type, file)| file.is_finalized())
             .map(|(file_type, file)| (file_type, file.finalized_buf()))
             .collect();
-        files.sort();
-        let presence_header =
-            ArchiveFilePresenceHeader::from_present(files.iter().map(|(t, _)| t).cloned());
-
-        let mut offsets = LateLogArrayBufBuilder::new(BytesMut::new());
-        let mut tally = 0;
-        for (_file_type, data) in files.iter() {
-            tally += data.len();
-            offsets.push(tally as u64);
-        }
 
-        let offsets_buf = offsets.finalize_header_first();
+        self.data_backend
+            .store_layer_file(directory, archive_bytes(files))
+            .await
+    }
 
-        let mut data_buf = BytesMut::with_capacity(tally + 8 + offsets_buf.len());
-        data_buf.put_u64(presence_header.inner());
-        data_buf.extend(offsets_buf);
-        for (_file_type, data) in files {
-            data_buf.extend(data);
+    async fn import_directory(
+        &self,
+        directory: [u32; 5],
+        files: Vec<(String, Bytes)>,
+    ) -> io::Result<()> {
+        if self.directory_exists(directory).await? {
+            return Ok(());
         }
 
+        let files = files
+            .into_iter()
+            .map(|(name, data)| (FILENAME_ENUM_MAP[name.as_str()], data))
+            .collect();
+
         self.data_backend
-            .store_layer_file(directory, data_buf.freeze())
+            .store_layer_file(directory, archive_bytes(files))
             .await
     }
 
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 723e8f1..9f69405 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -3,13 +3,14 @@
 use locking::*;
 use std::collections::HashMap;
 use std::io::{self, SeekFrom};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use tokio::fs;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tokio::sync::RwLock;
 
 use async_trait::async_trait;
+use bytes::Bytes;
 
 pub use tdb_succinct::storage::file::*;
 
@@ -61,6 +62,48 @@ impl PersistentLayerStore for DirectoryLayerStore {
         Ok(name)
     }
 
+    async fn import_directory(
+        &self,
+        directory: [u32; 5],
+        files: Vec<(String, Bytes)>,
+    ) -> io::Result<()> {
+        if self.directory_exists(directory).await? {
+            return Ok(());
+        }
+
+        let name = name_to_string(directory);
+        let prefix_path = self.path.join(&name[0..PREFIX_DIR_SIZE]);
+        let path = prefix_path.join(&name);
+        fs::create_dir_all(&prefix_path).await?;
+
+        // The files are collected in a temporary directory, which only
+        // gets the name of the layer when it is complete.
+        let temp = prefix_path.join(format!(".import-{}", name_to_string(rand::random())));
+        let result = async {
+            fs::create_dir(&temp).await?;
+            for (name, data) in files {
+                let mut writer = FileBackedStore::new(temp.join(name)).open_write().await?;
+                writer.write_all(&data).await?;
+                writer.flush().await?;
+                writer.sync_all().await?;
+            }
+            sync_directory(&temp).await?;
+            fs::rename(&temp, &path).await
+        }
+        .await;
+
+        if let Err(e) = result {
+            let _ = fs::remove_dir_all(&temp).await;
+            // someone else may have been faster
+            if !self.directory_exists(directory).await? {
+                return Err(e);
+            }
+        }
+
+        sync_directory(&prefix_path).await?;
+        sync_directory(&self.path).await
+    }
+
     async fn directory_exists(&self, name: [u32; 5]) -> io::Result<bool> {
         let mut p = self.path.clone();
         let name = name_to_string(name);
@@ -95,25 +138,29 @@ impl PersistentLayerStore for DirectoryLayerStore {
         }
     }
     async fn finalize(&self, directory: [u32; 5]) -> io::Result<()> {
-        if cfg!(unix) {
-            // ensure the underlying directory record is properly synchronized
-            let mut directory_path = self.path.clone();
-            let dir_name = name_to_string(directory);
-            directory_path.push(&dir_name[0..PREFIX_DIR_SIZE]);
-            directory_path.push(dir_name);
-
-            let mut options = tokio::fs::OpenOptions::new();
-            options.create(false);
-            options.read(true);
-            options.write(false);
-            let dir_fd = options.open(directory_path).await?;
-            dir_fd.sync_all().await?;
-        }
+        let mut directory_path = self.path.clone();
+        let dir_name = name_to_string(directory);
+        directory_path.push(&dir_name[0..PREFIX_DIR_SIZE]);
+        directory_path.push(dir_name);
 
-        Ok(())
+        sync_directory(&directory_path).await
     }
 }
 
+/// Ensure the underlying directory record is properly synchronized.
+async fn sync_directory(path: &Path) -> io::Result<()> {
+    if cfg!(unix) {
+        let mut options = tokio::fs::OpenOptions::new();
+        options.create(false);
+        options.read(true);
+        options.write(false);
+        let dir_fd = options.open(path).await?;
+        dir_fd.sync_all().await?;
+    }
+
+    Ok(())
+}
+
 #[derive(Clone)]
 pub struct DirectoryLabelStore {
     path: PathBuf,
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index 58c6827..c34dc4e 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -24,6 +24,7 @@ use tdb_succinct::TypedDict;
 use tdb_succinct::{util, AdjacencyList, BitIndex, LogArray, MonotonicLogArray, WaveletTree};
 
 use bitvec::prelude::*;
+use bytes::Bytes;
 use std::convert::TryInto;
 use std::io;
 use std::path::Path;
@@ -370,6 +371,29 @@ pub trait PersistentLayerStore: 'static + Send + Sync + Clone {
         Ok(())
     }
 
+    /// Add a complete directory with the given files.
+    ///
+    /// A directory that already exists is left as it is.
+    async fn import_directory(
+        &self,
+        directory: [u32; 5],
+        files: Vec<(String, Bytes)>,
+    ) -> io::Result<()> {
+        if self.directory_exists(directory).await? {
+            return Ok(());
+        }
+
+        self.create_named_directory(directory).await?;
+        for (name, data) in files {
+            let mut writer = self.get_file(directory, &name).await?.open_write().await?;
+            writer.write_all(&data).await?;
+            writer.flush().await?;
+            writer.sync_all().await?;
+        }
+
+        self.finalize(directory).await
+    }
+
     async fn layer_has_rollup(&self, name: [u32; 5]) -> io::Result<bool> {
         self.file_exists(name, FILENAMES.rollup).await
     }
diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index 0d8fbfc..43f41e9 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -4,6 +4,8 @@ use std::collections::HashMap;
 use std::io;
 
 use async_trait::async_trait;
+use bytes::Bytes;
+use tokio::io::AsyncWriteExt;
 
 use super::file::*;
 use super::label::*;
@@ -38,6 +40,26 @@ impl PersistentLayerStore for MemoryLayerStore {
         Ok(name)
     }
 
+    async fn import_directory(
+        &self,
+        directory: [u32; 5],
+        files: Vec<(String, Bytes)>,
+    ) -> io::Result<()> {
+        let mut layer = HashMap::with_capacity(files.len());
+        for (name, data) in files {
+            let file = MemoryBackedStore::new();
+            let mut writer = file.open_write().await?;
+            writer.write_all(&data).await?;
+            writer.sync_all().await?;
+            layer.insert(name, file);
+        }
+
+        // all files appear at once, but only if the layer is not there yet
+        self.layers.write().await.entry(directory).or_insert(layer);
+
+        Ok(())
+    }
+
     async fn directory_exists(&self, name: [u32; 5]) -> io::Result<bool> {
         let guard = self.layers.read().await;
         Ok(guard.contains_key(&name))
diff --git a/src/storage/pack.rs b/src/storage/pack.rs
index 88002a8..b6b2aba 100644
--- a/src/storage/pack.rs
+++ b/src/storage/pack.rs
@@ -1,10 +1,11 @@
 use std::collections::{HashMap, HashSet};
 use std::fmt::Display;
 use std::io::{self, Read};
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::time::{SystemTime, UNIX_EPOCH};
 
 use async_trait::async_trait;
+use bytes::Bytes;
 
 use super::cache::*;
 use super::consts::*;
@@ -15,7 +16,6 @@ use flate2::read::GzDecoder;
 use flate2::write::GzEncoder;
 use flate2::Compression;
 use tar::*;
-use tokio::io::AsyncWriteExt;
 
 #[async_trait]
 pub trait Packable {
@@ -65,72 +65,98 @@ impl<T: PersistentLayerStore> Packable for T {
         pack: &[u8],
         layer_ids: Box<dyn Iterator<Item = [u32; 5]> + Send>,
     ) -> io::Result<()> {
-        let mut layer_id_set = HashSet::new();
-        for id in layer_ids {
-            layer_id_set.insert(name_to_string(id));
-            self.create_named_directory(id).await?;
+        let layer_ids: HashSet<[u32; 5]> = layer_ids.collect();
+
+        // Read and check the whole pack before touching the store, so
+        // that a damaged pack never leaves a partial layer behind.
+        //
+        // TODO we actually need to validate that these layers, when extracted, will make for a valid store.
+        // In terminus-server we are currently already doing this validation. Due to time constraints, we're not implementing it here.
+        //
+        // This should definitely be done in the future though, to make this part of the library independently usable in a safe manner.
+        let layers = tokio::task::block_in_place(|| read_pack(pack, &layer_ids))?;
+
+        for (id, files) in layers {
+            self.import_directory(id, files.into_iter().collect())
+                .await?;
         }
 
-        let handle = tokio::runtime::Handle::current();
-        tokio::task::block_in_place(|| {
-            let cursor = io::Cursor::new(pack);
-            let tar = GzDecoder::new(cursor);
-            let mut archive = Archive::new(tar);
-
-            // TODO we actually need to validate that these layers, when extracted, will make for a valid store.
-            // In terminus-server we are currently already doing this validation. Due to time constraints, we're not implementing it here.
-            //
-            // This should definitely be done in the future though, to make this part of the library independently usable in a safe manner.
-            for e in archive.entries()? {
-                let mut entry = e?;
-                let path = entry.path()?;
-                let os_file_name = path.file_name().unwrap();
-                let file_name = os_file_name
-                    .to_str()
-                    .ok_or_else(|| {
-                        io::Error::new(
-                            io::ErrorKind::InvalidData,
-                            "unexpected non-utf8 directory name",
-                        )
-                    })?
-                    .to_owned();
-
-                // check if entry is prefixed with a layer id we are interested in
-                let layer_id = path.iter().next().and_then(|p| p.to_str()).unwrap_or("");
-
-                if layer_id_set.contains(layer_id) {
-                    // this conversion should always work cause we are
-                    // only able to match things that went through the
-                    // conversion in the opposite direction.
-                    let layer_id_arr = string_to_name(layer_id).unwrap();
-
-                    let header = entry.header();
-                    if !header.entry_type().is_file() {
-                        continue;
-                    }
-
-                    let mut content = Vec::with_capacity(header.size()? as usize);
-                    entry.read_to_end(&mut content)?;
-
-                    handle.block_on(async move {
-                        let file = self.get_file(layer_id_arr, &file_name).await?;
-                        let mut writer = file.open_write().await?;
-                        writer.write_all(&content).await?;
-                        writer.flush().await?;
-                        writer.sync_all().await?;
-
-                        Ok::<_, io::Error>(())
-                    })?;
-                }
-            }
+        Ok(())
+    }
+}
 
-            for layer_id in layer_id_set {
-                let layer_id_arr = string_to_name(&layer_id).unwrap();
-                handle.block_on(self.finalize_layer(layer_id_arr))?;
-            }
+type PackedFiles = HashMap<String, Bytes>;
+
+fn invalid_pack<E: Into<Box<dyn std::error::Error + Send + Sync>>>(e: E) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, e)
+}
+
+/// Read the files of those given layers that are in the pack.
+fn read_pack(
+    pack: &[u8],
+    layer_ids: &HashSet<[u32; 5]>,
+) -> io::Result<HashMap<[u32; 5], PackedFiles>> {
+    let mut archive = Archive::new(GzDecoder::new(io::Cursor::new(pack)));
+    let mut layers: HashMap<[u32; 5], PackedFiles> = HashMap::new();
+
+    for e in archive.entries()? {
+        let mut entry = e?;
+        let (id, file_name) = pack_entry_name(&entry.path()?)?;
+        // check if entry is prefixed with a layer id we are interested in
+        if !layer_ids.contains(&id) {
+            continue;
+        }
+
+        let files = layers.entry(id).or_default();
+        if !entry.header().entry_type().is_file() {
+            continue;
+        }
 
-            Ok(())
-        })
+        let file_name = file_name.ok_or_else(|| invalid_pack("unexpected file in pack"))?;
+        if !FILENAME_ENUM_MAP.contains_key(file_name.as_str()) {
+            return Err(invalid_pack(format!("unknown layer file {file_name}")));
+        }
+
+        let mut content = Vec::new();
+        entry.read_to_end(&mut content)?;
+        if content.len() as u64 != entry.header().size()? {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
+        files.insert(file_name, content.into());
+    }
+
+    // Reading up to the end verifies the checksum over the whole pack.
+    io::copy(&mut archive.into_inner(), &mut io::sink())?;
+
+    for files in layers.values() {
+        let specific: &[&str] = if files.contains_key(FILENAMES.parent) {
+            &CHILD_LAYER_REQUIRED_FILES
+        } else {
+            &BASE_LAYER_REQUIRED_FILES
+        };
+        let mut required = SHARED_REQUIRED_FILES.iter().chain(specific);
+        if !required.all(|f| files.contains_key(*f)) {
+            return Err(invalid_pack("incomplete layer in pack"));
+        }
+    }
+
+    Ok(layers)
+}
+
+/// Split the path of a pack entry into the layer it is for and the name of its file.
+fn pack_entry_name(path: &Path) -> io::Result<([u32; 5], Option<String>)> {
+    let mut components = Vec::new();
+    for component in path.iter() {
+        let component = component
+            .to_str()
+            .ok_or_else(|| invalid_pack("unexpected non-utf8 name in pack"))?;
+        components.push(component);
+    }
+
+    match components.as_slice() {
+        [id] => Ok((string_to_name(id)?, None)),
+        [id, file_name] => Ok((string_to_name(id)?, Some(file_name.to_string()))),
+        _ => Err(invalid_pack("unexpected path in pack")),
     }
 }
 
@@ -274,17 +300,9 @@ pub fn pack_layer_parents<R: io::Read>(
 
     for e in archive.entries()? {
         let mut entry = e?;
-        let path = entry.path()?;
+        let (id, file_name) = pack_entry_name(&entry.path()?)?;
 
-        let id = string_to_name(
-            path.iter()
-                .next()
-                .expect("expected path to have at least one component")
-                .to_str()
-                .expect("expected proper unicode path"),
-        )?;
-
-        if path.file_name().expect("expected path to have a filename") == "parent.hex" {
+        if file_name.as_deref() == Some(FILENAMES.parent) {
             // this is an element we want to know the parent of
             // lets read it
             let mut parent_id_bytes = [0u8; 40];
@@ -301,6 +319,9 @@ pub fn pack_layer_parents<R: io::Read>(
         }
     }
 
+    // Reading up to the end verifies the checksum over the whole pack.
+    io::copy(&mut archive.into_inner(), &mut io::sink())?;
+
     Ok(result_map)
 }
 
-- 
2.43.0


From ad4d02f800b2af000966cf761d185a9028724045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 10/29] fix: listing the layers of a directory or archive store

Both looked for layers at the top level of the store, where there are
only directories for the prefixes of the layer names.
---
 src/storage/archive.rs   | 28 ++++++++++++++++------------
 src/storage/directory.rs | 24 ++++++++++++++----------
 src/storage/layer.rs     |  2 +-
 3 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 543656c..24602e3 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -223,19 +223,23 @@ impl ArchiveBackend for DirectoryArchiveBackend {
 #[async_trait]
 impl ArchiveMetadataBackend for DirectoryArchiveBackend {
     async fn get_layer_names(&self) -> io::Result<Vec<[u32; 5]>> {
-        let mut stream = fs::read_dir(&self.path).await?;
+        // archives are kept in a directory for their name's prefix
         let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            let os_name = direntry.file_name();
-            let name = os_name.to_str().ok_or_else(|| {
-                io::Error::new(
-                    io::ErrorKind::InvalidData,
-                    "unexpected non-utf8 directory name",
-                )
-            })?;
-            if name.ends_with(".larch") && direntry.file_type().await?.is_file() {
-                let name_component = &name[..name.len() - 6];
-                result.push(string_to_name(name_component)?);
+        let mut prefixes = fs::read_dir(&self.path).await?;
+        while let Some(prefix) = prefixes.next_entry().await? {
+            if prefix.file_name().len() != PREFIX_DIR_SIZE || !prefix.file_type().await?.is_dir() {
+                continue;
+            }
+            let mut stream = fs::read_dir(prefix.path()).await?;
+            while let Some(direntry) = stream.next_entry().await? {
+                let os_name = direntry.file_name();
+                // anything else, such as a rollup file, is not a layer
+                let name = os_name.to_str().and_then(|n| n.strip_suffix(".larch"));
+                if let Some(name) = name.and_then(|n| string_to_name(n).ok()) {
+                    if direntry.file_type().await?.is_file() {
+                        result.push(name);
+                    }
+                }
             }
         }
 
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 9f69405..7897561 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -33,18 +33,22 @@ impl DirectoryLayerStore {
 impl PersistentLayerStore for DirectoryLayerStore {
     type File = FileBackedStore;
     async fn directories(&self) -> io::Result<Vec<[u32; 5]>> {
-        let mut stream = fs::read_dir(&self.path).await?;
+        // layer directories are kept in a directory for their name's prefix
         let mut result = Vec::new();
-        while let Some(direntry) = stream.next_entry().await? {
-            if direntry.file_type().await?.is_dir() {
+        let mut prefixes = fs::read_dir(&self.path).await?;
+        while let Some(prefix) = prefixes.next_entry().await? {
+            if prefix.file_name().len() != PREFIX_DIR_SIZE || !prefix.file_type().await?.is_dir() {
+                continue;
+            }
+            let mut stream = fs::read_dir(prefix.path()).await?;
+            while let Some(direntry) = stream.next_entry().await? {
                 let os_name = direntry.file_name();
-                let name = os_name.to_str().ok_or_else(|| {
-                    io::Error::new(
-                        io::ErrorKind::InvalidData,
-                        "unexpected non-utf8 directory name",
-                    )
-                })?;
-                result.push(string_to_name(name)?);
+                // anything else, such as an import in progress, is not a layer
+                if let Some(name) = os_name.to_str().and_then(|n| string_to_name(n).ok()) {
+                    if direntry.file_type().await?.is_dir() {
+                        result.push(name);
+                    }
+                }
             }
         }
 
diff --git a/src/storage/layer.rs b/src/storage/layer.rs
index c34dc4e..2e05476 100644
--- a/src/storage/layer.rs
+++ b/src/storage/layer.rs
@@ -1416,7 +1416,7 @@ pub fn name_to_string(name: [u32; 5]) -> String {
 }
 
 pub fn string_to_name(string: &str) -> Result<[u32; 5], std::io::Error> {
-    if string.len() != 40 {
+    if string.len() != 40 || !string.is_ascii() {
         return Err(io::Error::new(
             io::ErrorKind::Other,
             format!("string not len 40: {}", string),
-- 
2.43.0


From 8705aa562aed2535a8a46419ef0b73ad152fff95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 11/29] fix: the cached label store leaves no remains of a
 longer label

Clearing a label of a database left the end of the old contents in its
file, which could then no longer be read.
---
 src/storage/directory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 7897561..cdc59e0 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -480,6 +480,7 @@ impl LabelStore for CachedDirectoryLabelStore {
                 options.write(true);
                 let mut file = options.open(p).await?;
                 file.write_all(&contents).await?;
+                file.set_len(contents.len() as u64).await?;
                 file.flush().await?;
                 file.sync_data().await?;
 
-- 
2.43.0


From 2ba42bd1cfeb6b8be187e31e57ef96bd49d265d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 12/29] fix: setting a label in memory compares the whole label

As in the other label stores, the update only happens if the label is
still exactly as the caller expects, not just of the same version.
---
 src/storage/memory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/memory.rs b/src/storage/memory.rs
index 43f41e9..b32f0fe 100644
--- a/src/storage/memory.rs
+++ b/src/storage/memory.rs
@@ -152,7 +152,7 @@ impl LabelStore for MemoryLabelStore {
                 "label does not exist",
             )),
             Some(old_label) => {
-                if old_label.version + 1 != new_label.version {
+                if old_label != label {
                     Ok(None)
                 } else {
                     labels.insert(new_label.name.clone(), new_label.clone());
-- 
2.43.0


From 1c06bdad001979c22e6e50b3a0d4436202461f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:04 +0000
Subject: [PATCH 13/29] fix: label files are replaced as a whole

Labels were truncated and then written, and created empty and then
written. Concurrent readers could see an empty label, and a crash or an
abandoned call in between destroyed the label for good. Labels are now
written to a temporary file which is then put in place. A lock on a file
of its own orders these changes and deletions, which are made durable.
---
 src/storage/directory.rs | 237 +++++++++++++++++++++++++++------------
 src/storage/locking.rs   |  23 ++--
 2 files changed, 184 insertions(+), 76 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index cdc59e0..f697535 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -2,7 +2,7 @@
 
 use locking::*;
 use std::collections::HashMap;
-use std::io::{self, SeekFrom};
+use std::io;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 use tokio::fs;
@@ -230,20 +230,87 @@ async fn get_label_from_file<P: Into<PathBuf>>(path: P) -> io::Result<Label> {
     get_label_from_data(label, &data)
 }
 
-async fn get_label_from_exclusive_locked_file<P: Into<PathBuf>>(
-    path: P,
-) -> io::Result<(Label, ExclusiveLockedFile)> {
-    let path: PathBuf = path.into();
-    let label = path.file_stem().unwrap().to_str().unwrap().to_owned();
+/// Lock the labels in a directory for changes.
+async fn lock_labels(directory: &Path) -> io::Result<ExclusiveLockedFile> {
+    ExclusiveLockedFile::open_or_create(directory.join(".labels.lock")).await
+}
 
-    let mut file = ExclusiveLockedFile::open(path).await?;
-    let mut data = Vec::new();
-    file.read_to_end(&mut data).await?;
+/// Write label data into a new file next to the label files.
+///
+/// Label files themselves are never written to. They are put in place
+/// as a whole, so that they are complete at all times.
+async fn write_temporary_label_file(directory: &Path, contents: &[u8]) -> io::Result<PathBuf> {
+    let path = directory.join(format!(".{}.tmp", layer::name_to_string(rand::random())));
+    let result = async {
+        let mut options = fs::OpenOptions::new();
+        options.create_new(true);
+        options.write(true);
+        let mut file = options.open(&path).await?;
+        file.write_all(contents).await?;
+        file.flush().await?;
+        file.sync_all().await
+    }
+    .await;
+
+    match result {
+        Ok(()) => Ok(path),
+        Err(e) => {
+            let _ = fs::remove_file(&path).await;
+            Err(e)
+        }
+    }
+}
 
-    let label = get_label_from_data(label, &data)?;
-    file.seek(SeekFrom::Start(0)).await?;
+/// Put a label file with the given contents in place, unless the
+/// label is not (or no longer) the expected one, which is None for a
+/// label that doesn't exist. Returns true if this happened.
+async fn replace_label_file(
+    directory: &Path,
+    path: &Path,
+    expected: Option<&Label>,
+    contents: &[u8],
+) -> io::Result<bool> {
+    let temp = write_temporary_label_file(directory, contents).await?;
+    let result = async {
+        let _lock = lock_labels(directory).await?;
+        let current = match get_label_from_file(path).await {
+            Err(e) if e.kind() == io::ErrorKind::NotFound && expected.is_none() => None,
+            label => Some(label?),
+        };
+        if current.as_ref() != expected {
+            return Ok(false);
+        }
+        fs::rename(&temp, path).await?;
+        Ok(true)
+    }
+    .await;
 
-    Ok((label, file))
+    if !matches!(result, Ok(true)) {
+        let _ = fs::remove_file(&temp).await;
+        return result;
+    }
+
+    sync_directory(directory).await?;
+    Ok(true)
+}
+
+/// Remove a label file. Returns false if there is none.
+async fn delete_label_file(directory: &Path, path: &Path) -> io::Result<bool> {
+    // A concurrent update must not bring the file back.
+    let lock = lock_labels(directory).await?;
+    let result = fs::remove_file(path).await;
+    std::mem::drop(lock);
+
+    match result {
+        Ok(()) => {
+            sync_directory(directory).await?;
+            Ok(true)
+        }
+        Err(e) => match e.kind() {
+            io::ErrorKind::NotFound => Ok(false),
+            _ => Err(e),
+        },
+    }
 }
 
 #[async_trait]
@@ -281,12 +348,22 @@ impl LabelStore for DirectoryLabelStore {
             )),
             Err(e) => match e.kind() {
                 io::ErrorKind::NotFound => {
-                    let mut file = ExclusiveLockedFile::create_and_open(p).await?;
-                    file.write_all(&contents).await?;
-                    file.flush().await?;
-                    file.sync_all().await?;
-
-                    Ok(Label::new_empty(label))
+                    // This happens in a task of its own, so that it is
+                    // completed even if nobody waits for us anymore.
+                    let directory = self.path.clone();
+                    let created = tokio::spawn(async move {
+                        replace_label_file(&directory, &p, None, &contents).await
+                    })
+                    .await??;
+
+                    if created {
+                        Ok(Label::new_empty(label))
+                    } else {
+                        Err(io::Error::new(
+                            io::ErrorKind::InvalidInput,
+                            "database already exists",
+                        ))
+                    }
                 }
                 _ => Err(e),
             },
@@ -321,14 +398,16 @@ impl LabelStore for DirectoryLabelStore {
 
         let mut p = self.path.clone();
         p.push(format!("{}.label", label.name));
-        let (retrieved_label, mut file) = get_label_from_exclusive_locked_file(p).await?;
-        if retrieved_label == *label {
+        if get_label_from_file(p.clone()).await? == *label {
             // all good, let's a go
-            file.truncate().await?;
-            file.write_all(&contents).await?;
-            file.flush().await?;
-            file.sync_all().await?;
-            Ok(Some(new_label))
+            let directory = self.path.clone();
+            let label = label.clone();
+            let replaced = tokio::spawn(async move {
+                replace_label_file(&directory, &p, Some(&label), &contents).await
+            })
+            .await??;
+
+            Ok(replaced.then_some(new_label))
         } else {
             Ok(None)
         }
@@ -338,22 +417,8 @@ impl LabelStore for DirectoryLabelStore {
         let mut p = self.path.clone();
         p.push(format!("{}.label", name));
 
-        // We're not locking here to remove the file. The assumption
-        // is that any concurrent operation that is done on the label
-        // file will not matter. If it is a label read, a concurrent
-        // operation will simply get the label contents, which
-        // immediately afterwards become invalid. Similarly if it is
-        // for a write, the write will appear to be succesful even
-        // though the file will be gone afterwards. This is
-        // indistinguishable from the case where the read/write and
-        // the remove happened in reverse order.
-        match tokio::fs::remove_file(p).await {
-            Ok(()) => Ok(true),
-            Err(e) => match e.kind() {
-                io::ErrorKind::NotFound => Ok(false),
-                _ => Err(e),
-            },
-        }
+        let directory = self.path.clone();
+        tokio::spawn(async move { delete_label_file(&directory, &p).await }).await?
     }
 }
 
@@ -409,6 +474,20 @@ async fn get_all_labels_from_dir(p: &PathBuf) -> io::Result<HashMap<String, Labe
     Ok(result)
 }
 
+/// Bring the map up to date with what an attempted change of a label file left there.
+async fn refresh_label(labels: &mut HashMap<String, Label>, name: &str, path: &Path) {
+    match get_label_from_file(path).await {
+        Ok(label) => {
+            labels.insert(name.to_string(), label);
+        }
+        Err(e) => {
+            if e.kind() == io::ErrorKind::NotFound {
+                labels.remove(name);
+            }
+        }
+    }
+}
+
 #[async_trait]
 impl LabelStore for CachedDirectoryLabelStore {
     async fn labels(&self) -> io::Result<Vec<Label>> {
@@ -417,7 +496,7 @@ impl LabelStore for CachedDirectoryLabelStore {
     }
 
     async fn create_label(&self, label: &str) -> io::Result<Label> {
-        let mut labels = self.labels.write().await;
+        let mut labels = self.labels.clone().write_owned().await;
         if labels.contains_key(label) {
             return Err(io::Error::new(
                 io::ErrorKind::InvalidInput,
@@ -435,18 +514,25 @@ impl LabelStore for CachedDirectoryLabelStore {
             )),
             Err(e) => match e.kind() {
                 io::ErrorKind::NotFound => {
-                    let mut options = fs::OpenOptions::new();
-                    options.create_new(true);
-                    options.write(true);
-                    let mut file = options.open(p).await?;
-                    file.write_all(contents).await?;
-                    file.flush().await?;
-                    file.sync_all().await?;
-
+                    // In a task of its own, so that file and map stay
+                    // in step even if nobody waits for us anymore.
+                    let directory = self.path.clone();
                     let l = Label::new_empty(label);
-                    labels.insert(label.to_string(), l.clone());
-
-                    Ok(l)
+                    tokio::spawn(async move {
+                        let result = replace_label_file(&directory, &p, None, contents).await;
+                        if let Ok(true) = result {
+                            labels.insert(l.name.clone(), l.clone());
+                            return Ok(l);
+                        }
+
+                        refresh_label(&mut labels, &l.name, &p).await;
+                        result?;
+                        Err(io::Error::new(
+                            io::ErrorKind::Other,
+                            "label was not in cached map but was found on disk",
+                        ))
+                    })
+                    .await?
                 }
                 _ => Err(e),
             },
@@ -469,23 +555,26 @@ impl LabelStore for CachedDirectoryLabelStore {
             }
         };
 
-        let mut labels = self.labels.write().await;
+        let mut labels = self.labels.clone().write_owned().await;
         if let Some(retrieved_label) = labels.get(&label.name) {
             if retrieved_label == label {
                 // all good, let's a go
                 let mut p = self.path.clone();
                 p.push(format!("{}.label", label.name));
-                let mut options = fs::OpenOptions::new();
-                options.create(false);
-                options.write(true);
-                let mut file = options.open(p).await?;
-                file.write_all(&contents).await?;
-                file.set_len(contents.len() as u64).await?;
-                file.flush().await?;
-                file.sync_data().await?;
-
-                labels.insert(label.name.clone(), new_label.clone());
-                Ok(Some(new_label))
+                let directory = self.path.clone();
+                let label = label.clone();
+                tokio::spawn(async move {
+                    let result = replace_label_file(&directory, &p, Some(&label), &contents).await;
+                    if let Ok(true) = result {
+                        labels.insert(label.name, new_label.clone());
+                        return Ok(Some(new_label));
+                    }
+
+                    refresh_label(&mut labels, &label.name, &p).await;
+                    result?;
+                    Ok(None)
+                })
+                .await?
             } else {
                 Ok(None)
             }
@@ -495,13 +584,23 @@ impl LabelStore for CachedDirectoryLabelStore {
     }
 
     async fn delete_label(&self, name: &str) -> io::Result<bool> {
-        let mut labels = self.labels.write().await;
-        if labels.remove(name).is_some() {
+        let mut labels = self.labels.clone().write_owned().await;
+        if labels.contains_key(name) {
             let mut p = self.path.clone();
             p.push(format!("{}.label", name));
-            tokio::fs::remove_file(p).await?;
+            let directory = self.path.clone();
+            let name = name.to_string();
+            tokio::spawn(async move {
+                let result = delete_label_file(&directory, &p).await;
+                if result.is_ok() {
+                    labels.remove(&name);
+                } else {
+                    refresh_label(&mut labels, &name, &p).await;
+                }
 
-            Ok(true)
+                result
+            })
+            .await?
         } else {
             Ok(false)
         }
diff --git a/src/storage/locking.rs b/src/storage/locking.rs
index d55fe33..ac36d7e 100644
--- a/src/storage/locking.rs
+++ b/src/storage/locking.rs
@@ -184,13 +184,22 @@ impl ExclusiveLockedFile {
     }
 
     pub async fn open<P: 'static + AsRef<Path> + Send>(path: P) -> io::Result<Self> {
-        let file = fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .open(path)
-            .await?
-            .into_std()
-            .await;
+        Self::open_with(fs::OpenOptions::new().read(true).write(true), path).await
+    }
+
+    pub async fn open_or_create<P: 'static + AsRef<Path> + Send>(path: P) -> io::Result<Self> {
+        Self::open_with(
+            fs::OpenOptions::new().read(true).write(true).create(true),
+            path,
+        )
+        .await
+    }
+
+    async fn open_with<P: 'static + AsRef<Path> + Send>(
+        options: &fs::OpenOptions,
+        path: P,
+    ) -> io::Result<Self> {
+        let file = options.open(path).await?.into_std().await;
 
         let file = match file.try_lock_exclusive() {
             Ok(()) => file,
-- 
2.43.0


From 8ec19910686c72a66e39d78870f9f003892fa593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 14/29] fix: listing labels while one of them is deleted

---
 src/storage/directory.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index f697535..95fd546 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -328,8 +328,12 @@ impl LabelStore for DirectoryLabelStore {
                     )
                 })?;
                 if name.ends_with(".label") {
-                    let label = get_label_from_file(direntry.path()).await?;
-                    result.push(label);
+                    match get_label_from_file(direntry.path()).await {
+                        Ok(label) => result.push(label),
+                        // it has been deleted in the meantime
+                        Err(e) if e.kind() == io::ErrorKind::NotFound => (),
+                        Err(e) => return Err(e),
+                    }
                 }
             }
         }
-- 
2.43.0


From 929a61ad3f70f7e6983806c0a5f738000fcfc700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 15/29] fix: a label with an empty name can be used

---
 src/storage/directory.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 95fd546..6cf24f4 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -221,7 +221,9 @@ fn get_label_from_data(name: String, data: &[u8]) -> io::Result<Label> {
 
 async fn get_label_from_file<P: Into<PathBuf>>(path: P) -> io::Result<Label> {
     let path: PathBuf = path.into();
-    let label = path.file_stem().unwrap().to_str().unwrap().to_owned();
+    // not the file stem, which for the label with an empty name would be '.label'
+    let file_name = path.file_name().unwrap().to_str().unwrap();
+    let label = file_name.strip_suffix(".label").unwrap().to_owned();
 
     let mut file = LockedFile::open(path).await?;
     let mut data = Vec::new();
-- 
2.43.0


From a02fc7f3957e2c4817c9c91a30024fc4a944eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:34 +0000
Subject: [PATCH 16/29] fix: a layer archive is put in place as a whole

---
 src/storage/archive.rs   | 29 +++--------------
 src/storage/directory.rs | 69 ++++++++++++++++++++++++----------------
 2 files changed, 46 insertions(+), 52 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 24602e3..87be3f6 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -35,6 +35,7 @@ use tdb_succinct::{
 
 use super::{
     consts::{LayerFileEnum, FILENAME_ENUM_MAP},
+    directory::{replace_file, sync_directory},
     locking::{ExclusiveLockedFile, LockedFile},
     name_to_string, string_to_name, FileLoad, FileStore, PersistentLayerStore, SyncableFile,
 };
@@ -164,36 +165,16 @@ impl ArchiveBackend for DirectoryArchiveBackend {
         }
     }
 
-    async fn store_layer_file(&self, id: [u32; 5], mut bytes: Bytes) -> io::Result<()> {
+    async fn store_layer_file(&self, id: [u32; 5], bytes: Bytes) -> io::Result<()> {
         let path = self.path_for_layer(id);
         let mut directory_path = path.clone();
         directory_path.pop();
         fs::create_dir_all(&directory_path).await?;
 
-        let mut options = tokio::fs::OpenOptions::new();
-        options.create(true);
-        options.write(true);
-        let mut file = options.open(path).await?;
-        while bytes.remaining() > 0 {
-            let chunk = bytes.chunk();
-            let written = file.write(chunk).await?;
-            bytes.advance(written);
-        }
-
-        file.flush().await?;
-        file.sync_all().await?;
+        replace_file(&path, &bytes).await?;
 
-        if cfg!(unix) {
-            // ensure the underlying directory record is properly synchronized
-            let mut options = tokio::fs::OpenOptions::new();
-            options.create(false);
-            options.read(true);
-            options.write(false);
-            let dir_fd = options.open(directory_path).await?;
-            dir_fd.sync_all().await?;
-        }
-
-        Ok(())
+        // the directory the archive is in may be new itself
+        sync_directory(&self.path).await
     }
 
     async fn read_layer_structure_bytes_from(
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 6cf24f4..7fbc7c5 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -152,7 +152,7 @@ impl PersistentLayerStore for DirectoryLayerStore {
 }
 
 /// Ensure the underlying directory record is properly synchronized.
-async fn sync_directory(path: &Path) -> io::Result<()> {
+pub(super) async fn sync_directory(path: &Path) -> io::Result<()> {
     if cfg!(unix) {
         let mut options = tokio::fs::OpenOptions::new();
         options.create(false);
@@ -165,6 +165,45 @@ async fn sync_directory(path: &Path) -> io::Result<()> {
     Ok(())
 }
 
+/// Write data into a new file in the given directory.
+///
+/// Files that others may be reading, or that have to survive a crash,
+/// are never written to. They are put in place as a whole, so that
+/// they are complete at all times.
+async fn write_temporary_file(directory: &Path, contents: &[u8]) -> io::Result<PathBuf> {
+    let path = directory.join(format!(".{}.tmp", layer::name_to_string(rand::random())));
+    let result = async {
+        let mut options = fs::OpenOptions::new();
+        options.create_new(true);
+        options.write(true);
+        let mut file = options.open(&path).await?;
+        file.write_all(contents).await?;
+        file.flush().await?;
+        file.sync_all().await
+    }
+    .await;
+
+    match result {
+        Ok(()) => Ok(path),
+        Err(e) => {
+            let _ = fs::remove_file(&path).await;
+            Err(e)
+        }
+    }
+}
+
+/// Put a file with the given contents in place, as a whole.
+pub(super) async fn replace_file(path: &Path, contents: &[u8]) -> io::Result<()> {
+    let directory = path.parent().expect("expected path of a file");
+    let temp = write_temporary_file(directory, contents).await?;
+    if let Err(e) = fs::rename(&temp, path).await {
+        let _ = fs::remove_file(&temp).await;
+        return Err(e);
+    }
+
+    sync_directory(directory).await
+}
+
 #[derive(Clone)]
 pub struct DirectoryLabelStore {
     path: PathBuf,
@@ -237,32 +276,6 @@ async fn lock_labels(directory: &Path) -> io::Result<ExclusiveLockedFile> {
     ExclusiveLockedFile::open_or_create(directory.join(".labels.lock")).await
 }
 
-/// Write label data into a new file next to the label files.
-///
-/// Label files themselves are never written to. They are put in place
-/// as a whole, so that they are complete at all times.
-async fn write_temporary_label_file(directory: &Path, contents: &[u8]) -> io::Result<PathBuf> {
-    let path = directory.join(format!(".{}.tmp", layer::name_to_string(rand::random())));
-    let result = async {
-        let mut options = fs::OpenOptions::new();
-        options.create_new(true);
-        options.write(true);
-        let mut file = options.open(&path).await?;
-        file.write_all(contents).await?;
-        file.flush().await?;
-        file.sync_all().await
-    }
-    .await;
-
-    match result {
-        Ok(()) => Ok(path),
-        Err(e) => {
-            let _ = fs::remove_file(&path).await;
-            Err(e)
-        }
-    }
-}
-
 /// Put a label file with the given contents in place, unless the
 /// label is not (or no longer) the expected one, which is None for a
 /// label that doesn't exist. Returns true if this happened.
@@ -272,7 +285,7 @@ async fn replace_label_file(
     expected: Option<&Label>,
     contents: &[u8],
 ) -> io::Result<bool> {
-    let temp = write_temporary_label_file(directory, contents).await?;
+    let temp = write_temporary_file(directory, contents).await?;
     let result = async {
         let _lock = lock_labels(directory).await?;
         let current = match get_label_from_file(path).await {
-- 
2.43.0


From 0901f0f3de1d1e59fad8e017b31f9a571ba9daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:24 +0000
Subject: [PATCH 17/29] fix: dropping a locked file halfway an operation
 doesn't panic

---
 src/storage/locking.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/storage/locking.rs b/src/storage/locking.rs
index ac36d7e..fe53474 100644
--- a/src/storage/locking.rs
+++ b/src/storage/locking.rs
@@ -150,11 +150,10 @@ impl Drop for LockedFile {
     fn drop(&mut self) {
         let mut file = None;
         std::mem::swap(&mut file, &mut self.file);
-        if let Some(file) = file {
-            file.try_into_std()
-                .expect("could not convert tokio file into std")
-                .unlock()
-                .unwrap();
+        // This fails if we're dropped halfway an operation. The lock is
+        // then released when the file closes after that operation.
+        if let Some(Ok(file)) = file.map(|f| f.try_into_std()) {
+            let _ = file.unlock();
         }
     }
 }
@@ -286,11 +285,10 @@ impl Drop for ExclusiveLockedFile {
     fn drop(&mut self) {
         let mut file = None;
         std::mem::swap(&mut file, &mut self.file);
-        if let Some(file) = file {
-            file.try_into_std()
-                .expect("could not convert tokio file into std")
-                .unlock()
-                .unwrap();
+        // This fails if we're dropped halfway an operation. The lock is
+        // then released when the file closes after that operation.
+        if let Some(Ok(file)) = file.map(|f| f.try_into_std()) {
+            let _ = file.unlock();
         }
     }
 }
-- 
2.43.0


From c616d68332cf161f17494f1febced4160b0b0ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 18/29] fix: the directory of a new layer is itself
 synchronized

---
 src/storage/directory.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 7fbc7c5..ec9cf1d 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -142,12 +142,14 @@ impl PersistentLayerStore for DirectoryLayerStore {
         }
     }
     async fn finalize(&self, directory: [u32; 5]) -> io::Result<()> {
-        let mut directory_path = self.path.clone();
         let dir_name = name_to_string(directory);
-        directory_path.push(&dir_name[0..PREFIX_DIR_SIZE]);
-        directory_path.push(dir_name);
+        let prefix_path = self.path.join(&dir_name[0..PREFIX_DIR_SIZE]);
+        let directory_path = prefix_path.join(dir_name);
 
-        sync_directory(&directory_path).await
+        // these directories may all be new
+        sync_directory(&directory_path).await?;
+        sync_directory(&prefix_path).await?;
+        sync_directory(&self.path).await
     }
 }
 
-- 
2.43.0


From b1fbf08087e30ca28d9892b9b6b7e49a2efc408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:57 +0000
Subject: [PATCH 19/29] fix: rollup files are put in place as a whole

---
 src/storage/archive.rs   | 8 ++------
 src/storage/directory.rs | 9 +++++++++
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 87be3f6..ab9f256 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -24,7 +24,7 @@ use bytes::{Buf, BufMut, Bytes, BytesMut};
 use lru::LruCache;
 use tokio::{
     fs::{self, File},
-    io::{AsyncRead, AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt},
+    io::{AsyncRead, AsyncReadExt, AsyncSeekExt, AsyncWrite},
 };
 use tokio_util::either::Either;
 
@@ -316,12 +316,8 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
         data.extend_from_slice(b"1\n");
         data.extend_from_slice(name_to_string(rollup).as_bytes());
         data.extend_from_slice(b"\n");
-        let mut file = fs::File::create(path).await?;
-        file.write_all(&data).await?;
-        file.flush().await?;
-        file.sync_all().await?;
 
-        Ok(())
+        replace_file(&path, &data).await
     }
 
     async fn get_parent(&self, id: [u32; 5]) -> io::Result<Option<[u32; 5]>> {
diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index ec9cf1d..13f5a6b 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -151,6 +151,15 @@ impl PersistentLayerStore for DirectoryLayerStore {
         sync_directory(&prefix_path).await?;
         sync_directory(&self.path).await
     }
+
+    async fn write_rollup_file(&self, dir_name: [u32; 5], rollup_name: [u32; 5]) -> io::Result<()> {
+        let name = name_to_string(dir_name);
+        let path = self.path.join(&name[0..PREFIX_DIR_SIZE]).join(&name);
+        let contents = format!("{}\n{}\n", 1, name_to_string(rollup_name));
+
+        // others may be reading the previous rollup file
+        replace_file(&path.join(consts::FILENAMES.rollup), contents.as_bytes()).await
+    }
 }
 
 /// Ensure the underlying directory record is properly synchronized.
-- 
2.43.0


From cfc12f7f7a140762e2337f36e3b6c418698b08ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:15 +0000
Subject: [PATCH 20/29] fix: failing to look for a layer or a file doesn't mean
 that it isn't there

---
 src/storage/directory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 13f5a6b..53e4623 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -116,7 +116,8 @@ impl PersistentLayerStore for DirectoryLayerStore {
 
         match fs::metadata(p).await {
             Ok(m) => Ok(m.is_dir()),
-            Err(_) => Ok(false),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
         }
     }
 
@@ -138,7 +139,8 @@ impl PersistentLayerStore for DirectoryLayerStore {
 
         match fs::metadata(p).await {
             Ok(m) => Ok(m.is_file()),
-            Err(_) => Ok(false),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(false),
+            Err(e) => Err(e),
         }
     }
     async fn finalize(&self, directory: [u32; 5]) -> io::Result<()> {
-- 
2.43.0


From 24e716f8729af3b64e0ff11e4f8389b572d62436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 21/29] fix: failing to lock a file is an error rather than a
 panic

---
 src/storage/locking.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/storage/locking.rs b/src/storage/locking.rs
index fe53474..76a07e0 100644
--- a/src/storage/locking.rs
+++ b/src/storage/locking.rs
@@ -13,7 +13,7 @@ use tokio::task::{spawn_blocking, JoinHandle};
 
 pub struct LockedFileLockFuture {
     file: Option<std::fs::File>,
-    spawn: Option<JoinHandle<()>>,
+    spawn: Option<JoinHandle<io::Result<()>>>,
     exclusive: bool,
 }
 
@@ -41,36 +41,30 @@ impl Future for LockedFileLockFuture {
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<io::Result<std::fs::File>> {
         if self.file.is_some() {
             if self.spawn.is_none() {
-                let file = self
-                    .file
-                    .as_ref()
-                    .unwrap()
-                    .try_clone()
-                    .expect("file clone failed");
+                let file = match self.file.as_ref().unwrap().try_clone() {
+                    Ok(file) => file,
+                    Err(e) => return Poll::Ready(Err(e)),
+                };
                 let exclusive = self.exclusive;
                 self.spawn = Some(spawn_blocking(move || {
                     if exclusive {
                         file.lock_exclusive()
-                            .expect("failed to acquire exclusive lock")
+                    } else if !cfg!(feature = "noreadlock") {
+                        file.lock_shared()
                     } else {
-                        if !cfg!(feature = "noreadlock") {
-                            file.lock_shared()
-                                .expect("failed to acquire exclusive lock")
-                        }
+                        Ok(())
                     }
                 }));
             }
 
             match Pin::new(&mut self.spawn.as_mut().unwrap()).poll(cx) {
-                Poll::Ready(Ok(_)) => {
+                Poll::Ready(Ok(result)) => {
                     let mut file = None;
                     std::mem::swap(&mut file, &mut self.file);
-                    Poll::Ready(Ok(file.unwrap()))
+                    Poll::Ready(result.map(|()| file.unwrap()))
                 }
                 Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(_)) => {
-                    panic!("polled LockedFileLockFuture outside of a tokio context")
-                }
+                Poll::Ready(Err(e)) => Poll::Ready(Err(e.into())),
             }
         } else {
             panic!("polled LockedFileLockFuture after completion");
-- 
2.43.0


From 8425dba32a210cefc1586bfcdfd70f6c33de364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 22/29] fix: failing to read a rollup file is an error rather
 than a panic

---
 src/storage/archive.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index ab9f256..5396fbc 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -291,7 +291,7 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
             // no such layer - therefore no such rollup
             return Ok(None);
         }
-        let _layer_lock = layer_lock.unwrap();
+        let _layer_lock = layer_lock?;
 
         let path = self.path_for_rollup(id);
         let result = fs::read_to_string(path).await;
@@ -300,9 +300,12 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
             return Ok(None);
         }
         let data = result?;
-        let name = data.lines().skip(1).next().expect(
-            "Expected rollup file to have two lines but was unable to skip to the second line",
-        );
+        let name = data.lines().skip(1).next().ok_or_else(|| {
+            io::Error::new(
+                io::ErrorKind::InvalidData,
+                "Expected rollup file to have two lines but was unable to skip to the second line",
+            )
+        })?;
         Ok(Some(string_to_name(&name)?))
     }
 
-- 
2.43.0


From 02e1323debb93005bfdea347ab1a474b6513eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:37 +0000
Subject: [PATCH 23/29] fix: a failing read of an archive is not its end

---
 src/storage/archive.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 5396fbc..97c1a8d 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1008,13 +1008,18 @@ impl AsyncRead for ArchiveSliceReader {
 
         let before_len = buf.filled().len();
         let read = AsyncRead::poll_read(Pin::new(&mut self.file), cx, buf);
-        if let Poll::Pending = read {
-            return Poll::Pending;
+        if !matches!(read, Poll::Ready(Ok(()))) {
+            return read;
         }
 
         let after_len = buf.filled().len();
         let read_len = after_len - before_len;
 
+        if read_len == 0 && buf.remaining() != 0 {
+            // the archive is shorter than its header says
+            return Poll::Ready(Err(ErrorKind::UnexpectedEof.into()));
+        }
+
         if read_len > self.remaining {
             buf.set_filled(before_len + self.remaining);
             self.remaining = 0;
-- 
2.43.0


From 6bc23b5d2c4a541dd04c0cab40b65253a51ae14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:59 +0000
Subject: [PATCH 24/29] fix: cached labels follow their files even if those
 can't be synchronized

---
 src/storage/directory.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/storage/directory.rs b/src/storage/directory.rs
index 53e4623..45023c2 100644
--- a/src/storage/directory.rs
+++ b/src/storage/directory.rs
@@ -291,7 +291,8 @@ async fn lock_labels(directory: &Path) -> io::Result<ExclusiveLockedFile> {
 
 /// Put a label file with the given contents in place, unless the
 /// label is not (or no longer) the expected one, which is None for a
-/// label that doesn't exist. Returns true if this happened.
+/// label that doesn't exist. Returns true if this happened, in which
+/// case the directory is still to be synchronized.
 async fn replace_label_file(
     directory: &Path,
     path: &Path,
@@ -315,14 +316,13 @@ async fn replace_label_file(
 
     if !matches!(result, Ok(true)) {
         let _ = fs::remove_file(&temp).await;
-        return result;
     }
 
-    sync_directory(directory).await?;
-    Ok(true)
+    result
 }
 
-/// Remove a label file. Returns false if there is none.
+/// Remove a label file. Returns false if there is none. Otherwise the
+/// directory is still to be synchronized.
 async fn delete_label_file(directory: &Path, path: &Path) -> io::Result<bool> {
     // A concurrent update must not bring the file back.
     let lock = lock_labels(directory).await?;
@@ -330,10 +330,7 @@ async fn delete_label_file(directory: &Path, path: &Path) -> io::Result<bool> {
     std::mem::drop(lock);
 
     match result {
-        Ok(()) => {
-            sync_directory(directory).await?;
-            Ok(true)
-        }
+        Ok(()) => Ok(true),
         Err(e) => match e.kind() {
             io::ErrorKind::NotFound => Ok(false),
             _ => Err(e),
@@ -384,7 +381,9 @@ impl LabelStore for DirectoryLabelStore {
                     // completed even if nobody waits for us anymore.
                     let directory = self.path.clone();
                     let created = tokio::spawn(async move {
-                        replace_label_file(&directory, &p, None, &contents).await
+                        let created = replace_label_file(&directory, &p, None, &contents).await?;
+                        sync_directory(&directory).await?;
+                        io::Result::Ok(created)
                     })
                     .await??;
 
@@ -435,7 +434,9 @@ impl LabelStore for DirectoryLabelStore {
             let directory = self.path.clone();
             let label = label.clone();
             let replaced = tokio::spawn(async move {
-                replace_label_file(&directory, &p, Some(&label), &contents).await
+                let replaced = replace_label_file(&directory, &p, Some(&label), &contents).await?;
+                sync_directory(&directory).await?;
+                io::Result::Ok(replaced)
             })
             .await??;
 
@@ -450,7 +451,12 @@ impl LabelStore for DirectoryLabelStore {
         p.push(format!("{}.label", name));
 
         let directory = self.path.clone();
-        tokio::spawn(async move { delete_label_file(&directory, &p).await }).await?
+        tokio::spawn(async move {
+            let deleted = delete_label_file(&directory, &p).await?;
+            sync_directory(&directory).await?;
+            Ok(deleted)
+        })
+        .await?
     }
 }
 
@@ -554,6 +560,7 @@ impl LabelStore for CachedDirectoryLabelStore {
                         let result = replace_label_file(&directory, &p, None, contents).await;
                         if let Ok(true) = result {
                             labels.insert(l.name.clone(), l.clone());
+                            sync_directory(&directory).await?;
                             return Ok(l);
                         }
 
@@ -599,6 +606,7 @@ impl LabelStore for CachedDirectoryLabelStore {
                     let result = replace_label_file(&directory, &p, Some(&label), &contents).await;
                     if let Ok(true) = result {
                         labels.insert(label.name, new_label.clone());
+                        sync_directory(&directory).await?;
                         return Ok(Some(new_label));
                     }
 
@@ -626,6 +634,7 @@ impl LabelStore for CachedDirectoryLabelStore {
                 let result = delete_label_file(&directory, &p).await;
                 if result.is_ok() {
                     labels.remove(&name);
+                    sync_directory(&directory).await?;
                 } else {
                     refresh_label(&mut labels, &name, &p).await;
                 }
-- 
2.43.0


From 4efb5acf29e8d740217c086dda44508271f76c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 25/29] fix: reading from beyond the end of a part of an
 archive is an error

---
 src/storage/archive.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 97c1a8d..a7cf8ba 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -74,6 +74,18 @@ pub trait ArchiveMetadataBackend: Clone + Send + Sync {
     async fn get_parent(&self, id: [u32; 5]) -> io::Result<Option<[u32; 5]>>;
 }
 
+/// Check that an offset to read a file from is not beyond its end.
+fn check_offset(offset: usize, size: usize) -> io::Result<()> {
+    if offset > size {
+        return Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "offset is beyond end of file",
+        ));
+    }
+
+    Ok(())
+}
+
 pub struct BytesAsyncReader(Bytes);
 
 impl AsyncRead for BytesAsyncReader {
@@ -193,6 +205,7 @@ impl ArchiveBackend for DirectoryArchiveBackend {
             .range_for(file_type)
             .ok_or_else(|| io::Error::new(io::ErrorKind::NotFound, "slice not found in archive"))?;
 
+        check_offset(read_from, range.len())?;
         let remaining = range.len() - read_from;
         file.seek(SeekFrom::Current((range.start + read_from) as i64))
             .await?;
@@ -541,6 +554,7 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
                 .ok_or_else(|| {
                     io::Error::new(io::ErrorKind::NotFound, "slice not found in archive")
                 })?;
+            check_offset(read_from, bytes.len())?;
             bytes.advance(read_from);
 
             Ok(Either::Left(BytesAsyncReader(bytes)))
@@ -1104,6 +1118,7 @@ impl<M: ArchiveMetadataBackend> FileLoad for ArchiveRollupFile<M> {
 
     async fn open_read_from(&self, offset: usize) -> io::Result<Self::Read> {
         let mut bytes = self.map().await?;
+        check_offset(offset, bytes.len())?;
         bytes.advance(offset);
         Ok(BytesAsyncReader(bytes))
     }
-- 
2.43.0


From 9cef77d5d17342ce8d616fee951a0b7ab33e88f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 26/29] fix: the archive cache keeps within its limit and
 survives abandoned lookups

---
 src/storage/archive.rs | 261 +++++++++++++++++++++--------------------
 1 file changed, 134 insertions(+), 127 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index a7cf8ba..716f22f 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -10,7 +10,7 @@ use std::{
     ops::Range,
     path::PathBuf,
     pin::Pin,
-    sync::{Arc, RwLock},
+    sync::{Arc, Mutex, RwLock},
     task::Poll,
 };
 
@@ -351,168 +351,176 @@ impl ArchiveMetadataBackend for DirectoryArchiveBackend {
 
 #[derive(Clone)]
 pub struct LruArchiveBackend<M, D> {
-    cache: Arc<tokio::sync::Mutex<LruCache<[u32; 5], CacheEntry>>>,
+    cache: Arc<Mutex<ArchiveCache>>,
     limit: usize,
-    current: usize,
     metadata_origin: M,
     data_origin: D,
 }
 
+type ResolvedArchive = Option<Result<Bytes, io::ErrorKind>>;
+
 #[derive(Clone)]
 enum CacheEntry {
-    Resolving(Arc<tokio::sync::RwLock<Option<Result<Bytes, io::ErrorKind>>>>),
+    Resolving(Arc<tokio::sync::RwLock<ResolvedArchive>>),
     Resolved(Bytes),
 }
 
-impl CacheEntry {
-    fn is_resolving(&self) -> bool {
-        if let Self::Resolving(_) = self {
-            true
-        } else {
-            false
+/// The cached archives, which together never exceed the limit, and
+/// those that someone is looking up.
+struct ArchiveCache {
+    entries: LruCache<[u32; 5], CacheEntry>,
+    limit: usize,
+    current: usize,
+}
+
+impl ArchiveCache {
+    fn remove(&mut self, id: &[u32; 5]) {
+        if let Some(CacheEntry::Resolved(bytes)) = self.entries.pop(id) {
+            self.current -= bytes.len();
         }
     }
-}
 
-impl<M, D> LruArchiveBackend<M, D> {
-    pub fn new(metadata_origin: M, data_origin: D, limit: usize) -> Self {
-        let cache = Arc::new(tokio::sync::Mutex::new(LruCache::unbounded()));
+    /// Cache an archive. If it is too big for the cache, it is only
+    /// ensured that there is no other entry for it.
+    fn insert(&mut self, id: [u32; 5], bytes: Bytes) {
+        self.remove(&id);
+        if bytes.len() > self.limit {
+            return;
+        }
 
-        Self {
-            cache,
-            limit,
-            current: 0,
-            metadata_origin,
-            data_origin,
+        // make room, but not by dropping what is being looked up
+        while self.limit - self.current < bytes.len() {
+            let oldest = self
+                .entries
+                .iter()
+                .rev()
+                .find(|(_, entry)| matches!(entry, CacheEntry::Resolved(_)))
+                .map(|(id, _)| *id)
+                .expect("cache is empty but stored entries were expected");
+            self.remove(&oldest);
         }
-    }
 
-    fn limit_bytes(&self) -> usize {
-        self.limit * 1024 * 1024
+        self.current += bytes.len();
+        self.entries.put(id, CacheEntry::Resolved(bytes));
     }
 }
 
-impl<M: ArchiveMetadataBackend, D: ArchiveBackend> LruArchiveBackend<M, D> {
-    async fn layer_fits_in_cache(&self, id: [u32; 5]) -> io::Result<bool> {
-        let limit = self.limit_bytes();
-        Ok(limit != 0 && self.layer_size(id).await? as usize <= limit)
-    }
+/// A lookup of an archive that others may be waiting for. If it is
+/// dropped before it is completed, its entry is removed from the cache.
+struct ArchiveLookup<'a> {
+    cache: &'a Mutex<ArchiveCache>,
+    id: [u32; 5],
+    barrier: Arc<tokio::sync::RwLock<ResolvedArchive>>,
 }
 
-fn ensure_additional_cache_space(cache: &mut LruCache<[u32; 5], CacheEntry>, mut required: usize) {
-    if required == 0 {
-        return;
+impl<'a> ArchiveLookup<'a> {
+    /// Remove the entry of this lookup. Returns false if it isn't
+    /// there, as the archive was stored in the meantime.
+    fn remove_entry(&self, cache: &mut ArchiveCache) -> bool {
+        let found = match cache.entries.peek(&self.id) {
+            Some(CacheEntry::Resolving(barrier)) => Arc::ptr_eq(barrier, &self.barrier),
+            _ => false,
+        };
+        if found {
+            cache.remove(&self.id);
+        }
+
+        found
     }
 
-    loop {
-        let peek = cache
-            .peek_lru()
-            .expect("cache is empty but stored entries were expected");
-        if peek.1.is_resolving() {
-            // this is a resolving entry, we don't want to pop it.
-            let id = peek.0.clone();
-            cache.promote(&id);
-            continue;
+    fn complete(&self, bytes: Bytes) {
+        let mut cache = self.cache.lock().unwrap();
+        if self.remove_entry(&mut cache) {
+            cache.insert(self.id, bytes);
         }
-        // at this point the lru item is not resolving
-        let entry = cache
-            .pop_lru()
-            .expect("cache is empty but stored entries were expected")
-            .1;
-        if let CacheEntry::Resolved(entry) = entry {
-            if entry.len() >= required {
-                // done!
-                return;
-            }
+    }
+}
 
-            // more needs to be popped
-            required -= entry.len();
-        } else {
-            panic!("expected resolved entry but got a resolving");
-        }
+impl<'a> Drop for ArchiveLookup<'a> {
+    fn drop(&mut self) {
+        self.remove_entry(&mut self.cache.lock().unwrap());
     }
 }
 
-fn ensure_enough_cache_space(
-    cache: &mut LruCache<[u32; 5], CacheEntry>,
-    limit: usize,
-    current: usize,
-    required: usize,
-) -> bool {
-    if required > limit {
-        // this entry is too big for the cache
-        return false;
+impl<M, D> LruArchiveBackend<M, D> {
+    pub fn new(metadata_origin: M, data_origin: D, limit: usize) -> Self {
+        let cache = Arc::new(Mutex::new(ArchiveCache {
+            entries: LruCache::unbounded(),
+            limit: limit.saturating_mul(1024 * 1024),
+            current: 0,
+        }));
+
+        Self {
+            cache,
+            limit,
+            metadata_origin,
+            data_origin,
+        }
     }
 
-    let remaining = limit - current;
-    if remaining < required {
-        // we need to clean up some cache spacew to fit this entry
-        ensure_additional_cache_space(cache, required - remaining);
+    fn limit_bytes(&self) -> usize {
+        self.limit.saturating_mul(1024 * 1024)
     }
 
-    true
+    /// The bytes of a layer, if they are in the cache.
+    fn cached_layer(&self, id: [u32; 5]) -> Option<Bytes> {
+        match self.cache.lock().unwrap().entries.peek(&id) {
+            Some(CacheEntry::Resolved(bytes)) => Some(bytes.clone()),
+            _ => None,
+        }
+    }
 }
 
-fn drop_from_cache(cache: &mut LruCache<[u32; 5], CacheEntry>, id: [u32; 5]) {
-    assert!(cache.contains(&id));
-    cache.demote(&id);
-    cache.pop_lru();
+impl<M: ArchiveMetadataBackend, D: ArchiveBackend> LruArchiveBackend<M, D> {
+    async fn layer_fits_in_cache(&self, id: [u32; 5]) -> io::Result<bool> {
+        let limit = self.limit_bytes();
+        Ok(limit != 0 && self.layer_size(id).await? as usize <= limit)
+    }
 }
 
 #[async_trait]
 impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchiveBackend<M, D> {
     type Read = Either<BytesAsyncReader, D::Read>;
     async fn get_layer_bytes(&self, id: [u32; 5]) -> io::Result<Bytes> {
-        let mut cache = self.cache.lock().await;
-        let cached = cache.get(&id).cloned();
-
-        match cached {
-            Some(CacheEntry::Resolved(bytes)) => Ok(bytes),
-            Some(CacheEntry::Resolving(barrier)) => {
-                // someone is already looking up this layer. we'll wait for them to be done.
-                std::mem::drop(cache);
-                let guard = barrier.read().await;
-                match guard.as_ref().unwrap() {
-                    Ok(bytes) => Ok(bytes.clone()),
-                    Err(kind) => Err(io::Error::new(*kind, "layer resolve failed")),
-                }
-            }
-            None => {
-                // nobody is looking this up yet, it is up to us.
-                let barrier = Arc::new(tokio::sync::RwLock::new(None));
-                let mut result = barrier.write().await;
-                cache.get_or_insert(id, || CacheEntry::Resolving(barrier.clone()));
-
-                // drop the cache while doing the lookup
-                std::mem::drop(cache);
-                let lookup = self.data_origin.get_layer_bytes(id).await;
-
-                *result = Some(lookup.as_ref().map_err(|e| e.kind()).cloned());
-
-                // reacquire cache
-                let mut cache = self.cache.lock().await;
-                match lookup {
-                    Ok(bytes) => {
-                        if ensure_enough_cache_space(
-                            &mut *cache,
-                            self.limit_bytes(),
-                            self.current,
-                            bytes.len(),
-                        ) {
-                            let cached = cache
-                                .get_mut(&id)
-                                .expect("layer resolving entry not found in cache");
-                            *cached = CacheEntry::Resolved(bytes.clone());
-                        } else {
-                            // this entry is uncachable. Just remove the resolving entry
-                            drop_from_cache(&mut *cache, id);
-                        }
-                        Ok(bytes)
+        // If nobody is looking up this layer, it is up to us.
+        let own_barrier = Arc::new(tokio::sync::RwLock::new(None));
+        let mut result = own_barrier.write().await;
+
+        loop {
+            let cached = self
+                .cache
+                .lock()
+                .unwrap()
+                .entries
+                .get_or_insert(id, || CacheEntry::Resolving(own_barrier.clone()))
+                .clone();
+
+            match cached {
+                CacheEntry::Resolved(bytes) => return Ok(bytes),
+                CacheEntry::Resolving(barrier) if Arc::ptr_eq(&barrier, &own_barrier) => {
+                    let entry = ArchiveLookup {
+                        cache: &self.cache,
+                        id,
+                        barrier,
+                    };
+                    let lookup = self.data_origin.get_layer_bytes(id).await;
+
+                    *result = Some(lookup.as_ref().map_err(|e| e.kind()).cloned());
+                    if let Ok(bytes) = &lookup {
+                        entry.complete(bytes.clone());
                     }
-                    Err(e) => {
-                        drop_from_cache(&mut *cache, id);
 
-                        Err(e)
+                    return lookup;
+                }
+                CacheEntry::Resolving(barrier) => {
+                    // someone is already looking up this layer. we'll wait for them to be done.
+                    match barrier.read().await.as_ref() {
+                        Some(Ok(bytes)) => return Ok(bytes.clone()),
+                        Some(Err(kind)) => {
+                            return Err(io::Error::new(*kind, "layer resolve failed"))
+                        }
+                        // they gave up
+                        None => (),
                     }
                 }
             }
@@ -536,8 +544,7 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveBackend for LruArchive
     async fn store_layer_file(&self, id: [u32; 5], bytes: Bytes) -> io::Result<()> {
         self.data_origin.store_layer_file(id, bytes.clone()).await?;
 
-        let mut cache = self.cache.lock().await;
-        cache.get_or_insert(id, move || CacheEntry::Resolved(bytes));
+        self.cache.lock().unwrap().insert(id, bytes);
 
         Ok(())
     }
@@ -576,21 +583,21 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveMetadataBackend
         self.metadata_origin.get_layer_names().await
     }
     async fn layer_exists(&self, id: [u32; 5]) -> io::Result<bool> {
-        if let Some(CacheEntry::Resolved(_)) = self.cache.lock().await.peek(&id) {
+        if self.cached_layer(id).is_some() {
             Ok(true)
         } else {
             self.metadata_origin.layer_exists(id).await
         }
     }
     async fn layer_size(&self, id: [u32; 5]) -> io::Result<u64> {
-        if let Some(CacheEntry::Resolved(bytes)) = self.cache.lock().await.peek(&id) {
+        if let Some(bytes) = self.cached_layer(id) {
             Ok(bytes.len() as u64)
         } else {
             self.metadata_origin.layer_size(id).await
         }
     }
     async fn layer_file_exists(&self, id: [u32; 5], file_type: LayerFileEnum) -> io::Result<bool> {
-        if let Some(CacheEntry::Resolved(bytes)) = self.cache.lock().await.peek(&id) {
+        if let Some(bytes) = self.cached_layer(id) {
             let header = ArchiveFilePresenceHeader::new(bytes.clone().get_u64());
             Ok(header.is_present(file_type))
         } else {
@@ -602,7 +609,7 @@ impl<M: ArchiveMetadataBackend, D: ArchiveBackend> ArchiveMetadataBackend
         id: [u32; 5],
         file_type: LayerFileEnum,
     ) -> io::Result<usize> {
-        if let Some(CacheEntry::Resolved(bytes)) = self.cache.lock().await.peek(&id) {
+        if let Some(bytes) = self.cached_layer(id) {
             let (header, _) = ArchiveHeader::parse(bytes.clone());
 
             if let Some(size) = header.size_of(file_type) {
-- 
2.43.0


From 549742002b9c7c116828267d3c7d28a261864679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:09 +0000
Subject: [PATCH 27/29] fix: the size of the rollup file of an archive is the
 size of its contents

---
 src/storage/archive.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/storage/archive.rs b/src/storage/archive.rs
index 716f22f..a10ed19 100644
--- a/src/storage/archive.rs
+++ b/src/storage/archive.rs
@@ -1108,19 +1108,7 @@ impl<M: ArchiveMetadataBackend> FileLoad for ArchiveRollupFile<M> {
     }
 
     async fn size(&self) -> io::Result<usize> {
-        if self
-            .metadata_backend
-            .get_rollup(self.layer_id)
-            .await?
-            .is_some()
-        {
-            Ok(std::mem::size_of::<[u32; 5]>() + 2)
-        } else {
-            Err(io::Error::new(
-                io::ErrorKind::NotFound,
-                "layer has no rollup",
-            ))
-        }
+        Ok(self.map().await?.len())
     }
 
     async fn open_read_from(&self, offset: usize) -> io::Result<Self::Read> {
-- 
2.43.0


From 412ff4c8ab232b2436827a25816430c5a113f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 28/29] fix: applying changes to a builder that is committed is
 an error rather than ignored or a panic

---
 src/store/mod.rs | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/store/mod.rs b/src/store/mod.rs
index 9df6b32..fbad09e 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -169,58 +169,66 @@ impl StoreLayerBuilder {
         // first check what dictionary entries we don't know about, add those
         let triple_additions = delta.triple_additions().await?;
         let triple_removals = delta.triple_removals().await?;
-        rayon::join(
+        let (additions, removals) = rayon::join(
             move || {
-                triple_additions.par_bridge().for_each(|t| {
-                    delta
-                        .id_triple_to_string(&t)
-                        .map(|st| self.add_value_triple(st));
-                });
+                triple_additions.par_bridge().try_for_each(|t| {
+                    match delta.id_triple_to_string(&t) {
+                        Some(st) => self.add_value_triple(st),
+                        None => Ok(()),
+                    }
+                })
             },
             move || {
-                triple_removals.par_bridge().for_each(|t| {
-                    delta
-                        .id_triple_to_string(&t)
-                        .map(|st| self.remove_value_triple(st));
+                triple_removals.par_bridge().try_for_each(|t| {
+                    match delta.id_triple_to_string(&t) {
+                        Some(st) => self.remove_value_triple(st),
+                        None => Ok(()),
+                    }
                 })
             },
         );
 
-        Ok(())
+        additions.and(removals)
     }
 
     /// Apply the changes required to change our parent layer into the given layer.
     pub fn apply_diff(&self, other: &StoreLayer) -> Result<(), io::Error> {
         // create a child builder and use it directly
         // first check what dictionary entries we don't know about, add those
-        rayon::join(
+        let (removals, additions) = rayon::join(
             || {
                 if let Some(this) = self.parent() {
-                    this.triples().par_bridge().for_each(|t| {
+                    this.triples().par_bridge().try_for_each(|t| {
                         if let Some(st) = this.id_triple_to_string(&t) {
                             if !other.value_triple_exists(&st) {
-                                self.remove_value_triple(st).unwrap()
+                                self.remove_value_triple(st)?;
                             }
                         }
+
+                        Ok(())
                     })
-                };
+                } else {
+                    Ok(())
+                }
             },
             || {
-                other.triples().par_bridge().for_each(|t| {
+                other.triples().par_bridge().try_for_each(|t| {
                     if let Some(st) = other.id_triple_to_string(&t) {
                         if let Some(this) = self.parent() {
                             if !this.value_triple_exists(&st) {
-                                self.add_value_triple(st).unwrap()
+                                self.add_value_triple(st)?;
                             }
                         } else {
-                            self.add_value_triple(st).unwrap()
+                            self.add_value_triple(st)?;
                         };
                     }
+
+                    Ok(())
                 })
             },
         );
 
-        Ok(())
+        removals.and(additions)
     }
 }
 
-- 
2.43.0


From eb752382b1ea17bd5cd93b1d8869d6af3d947507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:16 +0000
Subject: [PATCH 29/29] fix: seeking a subject and predicate in a layer without
 that subject visits all predicates of later subjects

---
 src/layer/internal/subject_iterator.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/layer/internal/subject_iterator.rs b/src/layer/internal/subject_iterator.rs
index 09e41a1..c4fecdc 100644
--- a/src/layer/internal/subject_iterator.rs
+++ b/src/layer/internal/subject_iterator.rs
@@ -94,7 +94,13 @@ impl InternalLayerTripleSubjectIterator {
             self.sp_o_position = self.sp_o_adjacency_list.right_count() as u64;
         } else {
             let mut s_p_position = self.s_p_adjacency_list.offset_for(self.s_position + 1);
-            while self.s_p_adjacency_list.num_at_pos(s_p_position) < predicate {
+            // if the subject has no entry, we are at the start of a
+            // later subject, all predicates of which are to be visited.
+            let found_subject = match self.subjects.as_ref() {
+                None => true,
+                Some(subjects) => subjects.entry(self.s_position as usize) == subject,
+            };
+            while found_subject && self.s_p_adjacency_list.num_at_pos(s_p_position) < predicate {
                 s_p_position += 1;
 
                 if self.s_p_adjacency_list.bit_at_pos(s_p_position - 1) {
-- 
2.43.0

