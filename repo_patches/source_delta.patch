From 3a064f2de2ff0319a1a185ddf1bf5ee265ee4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 01/69] verif hook: library view of the crate and re-exports
 under cfg(nargun_verif)

---
 src/dht/mod.rs |  7 +++++++
 src/lib.rs     |  9 +++++++++
 src/verif.rs   | 30 ++++++++++++++++++++++++++++++
 3 files changed, 46 insertions(+)
 create mode 100644 src/lib.rs
 create mode 100644 src/verif.rs

diff --git a/src/dht/mod.rs b/src/dht/mod.rs
index d31fdae..0de9d30 100644
--- a/src/dht/mod.rs
+++ b/src/dht/mod.rs
@@ -38,3 +38,10 @@ pub async fn start_dht(
         }
     });
 }
+
+#[cfg(nargun_verif)]
+pub mod verif {
+    pub use super::connection::*;
+    pub use super::krpc_message::*;
+    pub use super::routing_table::*;
+}
diff --git a/src/lib.rs b/src/lib.rs
new file mode 100644
index 0000000..8290725
--- /dev/null
+++ b/src/lib.rs
@@ -0,0 +1,9 @@
+//! Library view of the crate for the verification harness (`--cfg nargun_verif`).
+//! Without that flag this library is empty; the program itself is `main.rs`.
+#![cfg(nargun_verif)]
+#![allow(dead_code, unused, macro_expanded_macro_exports_accessed_by_absolute_paths)]
+
+include!("main.rs");
+
+/// Re-exports for the harness.
+pub mod verif;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..7d9d2ab
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,30 @@
+//! Names the verification harness uses (compiled only with `--cfg nargun_verif`).
+
+pub mod data_structures {
+    pub use crate::data_structures::*;
+}
+pub mod fs {
+    pub use crate::fs::*;
+}
+pub mod peers {
+    pub use crate::peers::*;
+}
+pub mod shutdown {
+    pub use crate::shutdown::*;
+}
+pub mod transcoding {
+    pub use crate::transcoding::*;
+}
+pub mod capped_growing_interval {
+    pub use crate::capped_growing_interval::*;
+}
+pub mod torrent_manager {
+    pub use crate::torrent_manager::*;
+}
+pub mod tracker {
+    pub use crate::tracker::*;
+}
+pub mod dht {
+    pub use crate::dht::verif::*;
+    pub use crate::dht::*;
+}
-- 
2.43.0


From 067467d8009eb7b17805f7dabc91acd436d829d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 02/69] fix: order ids by their full 160-bit value, not only up
 to the first common one bit

---
 src/data_structures/id.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/data_structures/id.rs b/src/data_structures/id.rs
index dec4e36..f076e79 100644
--- a/src/data_structures/id.rs
+++ b/src/data_structures/id.rs
@@ -219,7 +219,6 @@ impl Ord for ID {
     fn cmp(&self, other: &Self) -> Ordering {
         for (self_bit, other_bit) in self.bit_iter().zip(other.bit_iter()) {
             match (self_bit, other_bit) {
-                (true, true) => return Ordering::Equal,
                 (true, false) => return Ordering::Greater,
                 (false, true) => return Ordering::Less,
                 _ => (),
-- 
2.43.0


From 57a6d538ab4358d04cd7e93669948069e8efa8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 03/69] fix: reject a bitfield with bits set beyond the last
 piece

---
 src/data_structures/bitmap.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/data_structures/bitmap.rs b/src/data_structures/bitmap.rs
index c1afbfc..aecc3d7 100644
--- a/src/data_structures/bitmap.rs
+++ b/src/data_structures/bitmap.rs
@@ -29,6 +29,12 @@ impl Bitmap {
             );
         }
 
+        let spare_bits = self.data.len() * 8 - self.len;
+        let spare_bit_filter = !(0xff_u8 << spare_bits);
+        if new_data.last().map_or(false, |last| last & spare_bit_filter > 0) {
+            bail!("bits beyond the last piece are set");
+        }
+
         for (i, d) in new_data.iter().enumerate() {
             self.data[i] = *d;
         }
-- 
2.43.0


From 5272c0792adc59524e2fc8fd060bac7533bf9a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:09 +0000
Subject: [PATCH 04/69] fix: store the last piece of a single file torrent when
 it has full length

---
 src/fs/single_file_rw.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 782fc41..9aed9f7 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -85,7 +85,8 @@ impl SingleFileRw {
         let file = self.files.get_write(&self.torrent_name).await?;
         file.seek(SeekFrom::Start(start as u64)).await?;
 
-        let mut remaining_bytes = (self.info.length() % self.info.piece_length) as usize;
+        let last_piece_length = self.info.length() as usize - start;
+        let mut remaining_bytes = last_piece_length;
         let mut block_iter = piece.data.iter();
 
         while remaining_bytes > 0 {
@@ -96,7 +97,7 @@ impl SingleFileRw {
                     "last piece (idx={}) has less data ({} blocks) than expected ({} bytes)",
                     piece.idx,
                     piece.data.len(),
-                    self.info.length() % self.info.piece_length
+                    last_piece_length
                 );
             };
 
-- 
2.43.0


From f2c55c8bee959d68ba79f52d0773c5dacbca2006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 05/69] fix: report a piece as stored only after its writes
 have completed

---
 src/fs/multi_file_rw.rs  | 2 ++
 src/fs/single_file_rw.rs | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index ed46083..481046b 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -130,6 +130,8 @@ async fn write_file_chunk_from_multi_file_piece(
         }
     }
 
+    file.flush().await?;
+
     Ok(())
 }
 
diff --git a/src/fs/single_file_rw.rs b/src/fs/single_file_rw.rs
index 9aed9f7..e05d8e6 100644
--- a/src/fs/single_file_rw.rs
+++ b/src/fs/single_file_rw.rs
@@ -76,6 +76,8 @@ impl SingleFileRw {
             file.write_all(&block).await?;
         }
 
+        file.flush().await?;
+
         Ok(())
     }
 
@@ -106,6 +108,8 @@ impl SingleFileRw {
             remaining_bytes -= bytes_to_write;
         }
 
+        file.flush().await?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 07f99582da43a72ec1893dbda242452253be428f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 06/69] fix: create empty files of multi file torrents instead
 of failing on them

---
 src/fs/multi_file_rw.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index 481046b..efc66fb 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -71,7 +71,11 @@ impl Fs for MultiFileRw {
         } = self;
 
         let piece_start = piece.idx * self.info.piece_length as usize;
-        let piece_end = (piece.idx + 1) * self.info.piece_length as usize;
+        let piece_end = if piece.idx + 1 == self.info.pieces.len() {
+            usize::MAX // so that empty files right after the last byte are created too
+        } else {
+            (piece.idx + 1) * self.info.piece_length as usize
+        };
 
         for file_info in FilesInBounds::new(file_infos, piece_start, piece_end) {
             let path = format!("{}/{}", self.torrent_name, file_info.file.path.join("/"));
@@ -98,9 +102,14 @@ async fn write_file_chunk_from_multi_file_piece(
     start_within_piece: usize,
     end_within_piece: usize,
 ) -> Result<()> {
+    let length = end_within_piece - start_within_piece;
+
+    if length == 0 {
+        return Ok(()); // nothing to write in an empty file
+    }
+
     file.seek(SeekFrom::Start(start_within_file as u64)).await?;
 
-    let length = end_within_piece - start_within_piece;
     let start_within_block = start_within_piece % BLOCK_SIZE;
     let end_within_block = if end_within_piece % BLOCK_SIZE == 0 {
         BLOCK_SIZE // 0 means full block because it ends at BLOCK_SIZE
-- 
2.43.0


From 7a4366bdb3a009f2a9121b507616a7d071920d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 07/69] fix: report blocks and pieces out of a multi file
 torrent's bounds as errors

---
 src/fs/multi_file_rw.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index efc66fb..901c99b 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -47,6 +47,10 @@ impl Fs for MultiFileRw {
         let block_start = piece_start + begin;
         let block_end = block_start + length;
 
+        if block_end > self.info.length() as usize {
+            bail!("block ends at {}, after the last byte", block_end);
+        }
+
         for file_info in FilesInBounds::new(&self.file_infos, block_start, block_end) {
             let file_in_block =
                 &mut buf[file_info.start_within_iter_bounds..file_info.end_within_iter_bounds];
@@ -66,6 +70,10 @@ impl Fs for MultiFileRw {
     }
 
     async fn write_piece(&mut self, piece: FinishedPiece) -> Result<()> {
+        if piece.idx >= self.info.pieces.len() {
+            bail!("piece {} is out of bounds", piece.idx)
+        }
+
         let Self {
             files, file_infos, ..
         } = self;
-- 
2.43.0


From 62a505257509f1230114066982633f2df65086ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 08/69] fix: open a file only when it is not in the file cache

---
 src/fs/file_cache.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/fs/file_cache.rs b/src/fs/file_cache.rs
index 6408118..e00e980 100644
--- a/src/fs/file_cache.rs
+++ b/src/fs/file_cache.rs
@@ -40,20 +40,29 @@ impl FileCache {
     }
 
     async fn get_entry(&mut self, path: &str) -> Result<&mut CacheEntry> {
-        if self.data.len() == FILE_CACHE_SIZE && !self.data.contains_key(path) {
-            self.evict();
-        }
+        if !self.data.contains_key(path) {
+            if self.data.len() == FILE_CACHE_SIZE {
+                self.evict();
+            }
 
-        Ok(self.data.entry(path.to_string()).or_insert(CacheEntry {
-            file: OpenOptions::new()
+            let file = OpenOptions::new()
                 .read(true)
                 .write(true)
                 .create(true)
                 .open(path)
-                .await?,
-            read: None,
-            write: None,
-        }))
+                .await?;
+
+            self.data.insert(
+                path.to_string(),
+                CacheEntry {
+                    file,
+                    read: None,
+                    write: None,
+                },
+            );
+        }
+
+        Ok(self.data.get_mut(path).unwrap())
     }
 
     fn evict(&mut self) {
-- 
2.43.0


From 86aae9ce48fe19e192d499f56ed93ade85083ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:37 +0000
Subject: [PATCH 09/69] fix: refuse torrents whose names could lead out of the
 download directory

---
 src/transcoding/metainfo.rs | 39 +++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index 9b7fa6b..12ea127 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -315,7 +315,7 @@ impl FromBencode for Info {
         while let Some(kv) = info.next_pair()? {
             match kv {
                 (b"name", value) => {
-                    name = Some(String::decode_bencode_object(value)?);
+                    name = Some(decode_path_component(value)?);
                 }
                 (b"pieces", value) => {
                     pieces = {
@@ -360,7 +360,7 @@ impl FromBencode for File {
         while let Some(kv) = file.next_pair()? {
             match kv {
                 (b"path", value) => {
-                    path = Some(Vec::<String>::decode_bencode_object(value)?);
+                    path = Some(decode_path(value)?);
                 }
                 (b"length", value) => {
                     length = Some(u64::decode_bencode_object(value)?);
@@ -376,6 +376,41 @@ impl FromBencode for File {
     }
 }
 
+fn decode_path(object: Object) -> Result<Vec<String>, bendy::decoding::Error> {
+    let mut path = Vec::new();
+
+    let mut list = object.try_into_list()?;
+    while let Some(component) = list.next_object()? {
+        path.push(decode_path_component(component)?);
+    }
+
+    if path.is_empty() {
+        return Err(bendy::decoding::Error::missing_field("path component"));
+    }
+
+    Ok(path)
+}
+
+// names come from the other side of the internet, they must not lead out of the download directory
+fn decode_path_component(object: Object) -> Result<String, bendy::decoding::Error> {
+    let component = String::decode_bencode_object(object)?;
+
+    match component.as_str() {
+        "" | "." | ".." => (),
+        c if c.contains(['/', '\0']) => (),
+        _ => return Ok(component),
+    }
+
+    Err(malformed(format!("{component:?} is not a file name")))
+}
+
+fn malformed(reason: String) -> bendy::decoding::Error {
+    bendy::decoding::Error::malformed_content(std::io::Error::new(
+        std::io::ErrorKind::InvalidData,
+        reason,
+    ))
+}
+
 fn deserialize_pieces_field(mut raw: Vec<u8>) -> Result<Vec<ID>, bendy::decoding::Error> {
     if raw.is_empty() || raw.len() % ID_LEN > 0 {
         return Err(bendy::decoding::Error::missing_field(format!(
-- 
2.43.0


From 0618192fbc32b809fc09843f91f441bba82fe8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 10/69] fix: refuse torrents whose pieces don't match the
 length of their files

---
 src/transcoding/metainfo.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/transcoding/metainfo.rs b/src/transcoding/metainfo.rs
index 12ea127..bfeb95d 100644
--- a/src/transcoding/metainfo.rs
+++ b/src/transcoding/metainfo.rs
@@ -234,6 +234,32 @@ impl Info {
             Mode::Multi { files } => files.iter().map(|file| file.length).sum(),
         }
     }
+
+    fn check_piece_count(&self) -> Result<(), bendy::decoding::Error> {
+        let length = match &self.mode {
+            Mode::Single { length } => Some(*length),
+            Mode::Multi { files } => files
+                .iter()
+                .try_fold(0u64, |sum, file| sum.checked_add(file.length)),
+        };
+
+        match length {
+            Some(length) if length > 0 && self.piece_length > 0 => {
+                let expected = unsigned_ceil_div!(length, self.piece_length);
+
+                if expected == self.pieces.len() as u64 {
+                    return Ok(());
+                }
+            }
+            _ => (),
+        }
+
+        Err(malformed(format!(
+            "{} pieces of {} bytes don't match the length of the files",
+            self.pieces.len(),
+            self.piece_length
+        )))
+    }
 }
 
 impl TrackerAddr {
@@ -340,12 +366,16 @@ impl FromBencode for Info {
             }
         }
 
-        Ok(Info {
+        let info = Info {
             piece_length: ok_or_missing_field!(piece_length)?,
             pieces: ok_or_missing_field!(pieces)?,
             name: ok_or_missing_field!(name)?,
             mode: ok_or_missing_field!(mode, "length or files")?,
-        })
+        };
+
+        info.check_piece_count()?;
+
+        Ok(info)
     }
 }
 
-- 
2.43.0


From 5c8ee7753eaebd9abfe05ebf5666c07e4095919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 11/69] fix: parse a DHT datagram from its own bytes only

---
 src/dht/connection/connection_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index 4359b83..cf2b0f4 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -57,8 +57,8 @@ impl ConnectionManager {
         loop {
             select! {
                 res = self.sock.recv_from(&mut buf) => {
-                    let (_ , from) = res.ok()?;
-                    self.handle_received_message(from, &buf).await;
+                    let (len, from) = res.ok()?;
+                    self.handle_received_message(from, &buf[..len]).await;
                 },
                 send_command = self.send_to_remote.recv() => {
                     self.send(send_command?).await;
-- 
2.43.0


From 598235dca36c451ccc8f9f2b83fa242e141b24ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 12/69] fix: report an id of the wrong length as a decoding
 error instead of panicking

---
 src/data_structures/id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data_structures/id.rs b/src/data_structures/id.rs
index f076e79..dc8cc9d 100644
--- a/src/data_structures/id.rs
+++ b/src/data_structures/id.rs
@@ -185,7 +185,8 @@ impl<'de> Deserialize<'de> for ID {
             where
                 E: serde::de::Error,
             {
-                Ok(v.try_into().unwrap())
+                v.try_into()
+                    .map_err(|_| serde::de::Error::invalid_length(v.len(), &self))
             }
         }
         Ok(ID(deserializer.deserialize_byte_buf(Visitor {})?))
-- 
2.43.0


From fb59b4aec17d7deed3c253e817a90f3ad958ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 13/69] fix: split the own bucket also for a node that differs
 right at its depth

---
 src/dht/routing_table/bucket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dht/routing_table/bucket.rs b/src/dht/routing_table/bucket.rs
index ed17a70..0c07f93 100644
--- a/src/dht/routing_table/bucket.rs
+++ b/src/dht/routing_table/bucket.rs
@@ -117,7 +117,7 @@ impl Bucket {
     pub fn id_within_bucket_range(&self, own_id: &ID, id: &ID) -> bool {
         match own_id.first_diff_bit_idx(id) {
             None => true,
-            Some(first_diff) => first_diff > self.depth,
+            Some(first_diff) => first_diff >= self.depth,
         }
     }
 
-- 
2.43.0


From 66fccf3a3c87439b9d699ed1ef7cd7e7eee91f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 14/69] fix: keep the own id out of the routing table

---
 src/dht/routing_table/table.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 29ea2c1..ede8f38 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -118,6 +118,10 @@ impl RoutingTable {
     }
 
     pub fn touch_node(&mut self, id: ID, addr: SocketAddrV4) {
+        if id == self.own_id {
+            return;
+        }
+
         let bucket = self.get_bucket_mut(&id);
 
         if let Some(node) = bucket.get_node_mut(&id) {
-- 
2.43.0


From f2a7477f32e1d6080d721512e0891a11041968d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 15/69] fix: answer the eight closest good nodes, not whole
 neighbouring buckets

---
 src/dht/routing_table/table.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index ede8f38..ee3a0f4 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -140,23 +140,15 @@ impl RoutingTable {
     }
 
     pub fn get_closest_nodes(&self, id: &ID) -> Option<Vec<Node>> {
-        let mut nodes = Vec::new();
-
-        let node_bucket_idx = self.find_bucket_idx_by_id(id);
-
-        for bucket in self.data[node_bucket_idx..]
+        let mut nodes: Vec<Node> = self
+            .data
             .iter()
-            .chain(self.data[..node_bucket_idx].iter().rev())
-        {
-            nodes.extend(bucket.iter_over_goods().cloned());
-
-            if nodes.len() >= K_NODE_PER_BUCKET {
-                break;
-            }
-        }
+            .flat_map(|bucket| bucket.iter_over_goods().cloned())
+            .collect();
 
         if !nodes.is_empty() {
             nodes.sort_by(|a, b| a.cmp_by_distance_to_id(b, id));
+            nodes.truncate(K_NODE_PER_BUCKET);
             Some(nodes)
         } else {
             warn!(
-- 
2.43.0


From fa0fedadfdc15743be177b67efe7ad9424e829eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 16/69] fix: replace the saved routing table atomically and
 report errors of saving it

---
 src/dht/routing_table/table.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index ee3a0f4..45a8156 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -5,7 +5,7 @@ use crate::dht::krpc_message::Nodes;
 use anyhow::{anyhow, Result};
 use serde::{Deserialize, Serialize};
 use std::net::SocketAddrV4;
-use tokio::fs::{DirBuilder, File};
+use tokio::fs::{rename, DirBuilder, File};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 use tracing::{error, warn};
 
@@ -46,20 +46,31 @@ impl RoutingTable {
     }
 
     pub async fn store(&self) {
-        let mut path = home::home_dir()
-            .ok_or(anyhow!("can't find home dir"))
-            .unwrap();
+        if let Err(e) = self.try_storing_to_disk().await {
+            error!(?e);
+        }
+    }
+
+    async fn try_storing_to_disk(&self) -> Result<()> {
+        let mut path = home::home_dir().ok_or(anyhow!("can't find home dir"))?;
         path.push(APP_DIR_NAME);
 
         let mut builder = DirBuilder::new();
-        builder.recursive(true).create(&path).await.unwrap();
+        builder.recursive(true).create(&path).await?;
 
-        let encoded = bincode::serialize(&self).unwrap();
+        let encoded = bincode::serialize(&self)?;
 
+        // complete the new file before it takes the place of the old one
+        let tmp_path = path.join(format!("{CACHED_DHT_FILE}.tmp"));
         path.push(CACHED_DHT_FILE);
-        let mut file = File::create(path).await.unwrap();
 
-        file.write_all(&encoded).await.unwrap();
+        let mut file = File::create(&tmp_path).await?;
+        file.write_all(&encoded).await?;
+        file.sync_all().await?;
+
+        rename(tmp_path, path).await?;
+
+        Ok(())
     }
 
     pub fn own_id(&self) -> &ID {
-- 
2.43.0


From f5e26d7deda5747ea3a46d79ee1ed327b067af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 17/69] fix: answer DHT queries also while no good node is
 known

---
 src/dht/dht_manager.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/dht/dht_manager.rs b/src/dht/dht_manager.rs
index 5347858..395ccf2 100644
--- a/src/dht/dht_manager.rs
+++ b/src/dht/dht_manager.rs
@@ -137,11 +137,15 @@ async fn process_find_node_query(
     routing_table: &mut RoutingTable,
     query_id: QueryId,
 ) -> Result<(), ConError> {
-    if let Some(nodes) = routing_table.find_node(&target) {
-        connection.resp_to_find_node(nodes, query_id).await?;
-    };
+    let nodes = find_nodes(&target, routing_table);
 
-    Ok(())
+    connection.resp_to_find_node(nodes, query_id).await
+}
+
+fn find_nodes(target: &ID, routing_table: &RoutingTable) -> Nodes {
+    routing_table
+        .find_node(target)
+        .unwrap_or_else(|| Nodes::Closest(Vec::new()))
 }
 
 async fn process_get_peers_query(
@@ -154,13 +158,9 @@ async fn process_get_peers_query(
 ) -> Result<(), ConError> {
     let values_or_nodes = match find_peers(info_hash, torrent_peers, dht_peer_map) {
         Some(peers) => ValuesOrNodes::Values { values: peers },
-        None => {
-            let Some(nodes) = routing_table.find_node(&info_hash) else {
-                return Ok(()); // TODO this is not Ok but it's not crash worthy. maybe I should use non-option rv? it won't ever be empty anyway.
-            };
-
-            ValuesOrNodes::Nodes { nodes }
-        }
+        None => ValuesOrNodes::Nodes {
+            nodes: find_nodes(&info_hash, routing_table),
+        },
     };
 
     connection
-- 
2.43.0


From 12930cea24fdc1287fec5d40db78d769fbeaa977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 18/69] fix: don't replace the saved routing table when writing
 the new one failed

---
 src/dht/routing_table/table.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 45a8156..10a4179 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -66,6 +66,7 @@ impl RoutingTable {
 
         let mut file = File::create(&tmp_path).await?;
         file.write_all(&encoded).await?;
+        file.flush().await?;
         file.sync_all().await?;
 
         rename(tmp_path, path).await?;
-- 
2.43.0


From 858476388dd91bdf8c38a6e3d832c37568ea6cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 19/69] fix: match a DHT response with its query's kind and
 target address

---
 src/dht/connection/connection_manager.rs | 11 ++++--
 src/dht/connection/pending.rs            | 49 ++++++++++++++++++++----
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index cf2b0f4..90b293e 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -75,8 +75,12 @@ impl ConnectionManager {
                 variant,
             } => {
                 let message = variant.into_message(&self.own_id);
-                self.pending
-                    .insert(message.tid().to_owned(), (&message).into(), resp_returner);
+                self.pending.insert(
+                    message.tid().to_owned(),
+                    (&message).into(),
+                    target,
+                    resp_returner,
+                );
 
                 (message, target)
             }
@@ -215,7 +219,8 @@ impl ConnectionManager {
         from: SocketAddrV4,
     ) {
         let Some(querying_task_channel) =
-            self.pending.get(&transaction_id, response.borrow().into())
+            self.pending
+                .get(&transaction_id, response.borrow().into(), from)
         else {
             warn!("resp not pending");
             return;
diff --git a/src/dht/connection/pending.rs b/src/dht/connection/pending.rs
index 2053f7f..4b7e1aa 100644
--- a/src/dht/connection/pending.rs
+++ b/src/dht/connection/pending.rs
@@ -3,14 +3,21 @@ use crate::{
     data_structures::SerializableBuf,
     dht::krpc_message::{Arguments, Message, Response},
 };
-use std::collections::HashMap;
+use std::{collections::HashMap, net::SocketAddrV4};
 use tokio::sync::mpsc;
 
 #[derive(Clone, Debug)]
-pub struct PendingRequests(HashMap<SerializableBuf, (RequestType, Requester)>);
+pub struct PendingRequests(HashMap<SerializableBuf, Request>);
 
 type Requester = mpsc::Sender<FromConResp>;
 
+#[derive(Clone, Debug)]
+struct Request {
+    target: SocketAddrV4,
+    req_type: RequestType,
+    requester: Requester,
+}
+
 #[derive(Clone, Debug, PartialEq)]
 pub enum RequestType {
     Ping,
@@ -24,18 +31,44 @@ impl PendingRequests {
         Self(HashMap::new())
     }
 
-    pub fn get(&mut self, tid: &SerializableBuf, response_type: RequestType) -> Option<Requester> {
-        let (requested_type, _) = self.0.get(tid)?;
+    pub fn get(
+        &mut self,
+        tid: &SerializableBuf,
+        response_type: RequestType,
+        from: SocketAddrV4,
+    ) -> Option<Requester> {
+        let request = self.0.get(tid)?;
 
-        if *requested_type == response_type {
-            self.0.remove(tid).map(|(_, requester)| requester)
+        if request.target == from && request.req_type.is_answered_by(&response_type) {
+            self.0.remove(tid).map(|request| request.requester)
         } else {
             None
         }
     }
 
-    pub fn insert(&mut self, tid: SerializableBuf, req_type: RequestType, requester: Requester) {
-        self.0.insert(tid, (req_type, requester));
+    pub fn insert(
+        &mut self,
+        tid: SerializableBuf,
+        req_type: RequestType,
+        target: SocketAddrV4,
+        requester: Requester,
+    ) {
+        self.0.insert(
+            tid,
+            Request {
+                target,
+                req_type,
+                requester,
+            },
+        );
+    }
+}
+
+impl RequestType {
+    fn is_answered_by(&self, response_type: &RequestType) -> bool {
+        // response to announce_peer carries only an id, it can't be told apart from response to ping
+        self == response_type
+            || (*self == RequestType::AnnouncePeer && *response_type == RequestType::Ping)
     }
 }
 
-- 
2.43.0


From 984488cab0910ec8584354de203cf7a668f66394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:01 +0000
Subject: [PATCH 20/69] fix: don't let a requester that doesn't take its
 responses block the DHT socket

---
 src/dht/connection/connection_handle.rs  |  2 +-
 src/dht/connection/connection_manager.rs | 46 +++++++++---------------
 2 files changed, 17 insertions(+), 31 deletions(-)

diff --git a/src/dht/connection/connection_handle.rs b/src/dht/connection/connection_handle.rs
index 169fb0e..5e46c38 100644
--- a/src/dht/connection/connection_handle.rs
+++ b/src/dht/connection/connection_handle.rs
@@ -83,7 +83,7 @@ impl QueryingConnection {
 
 impl Clone for QueryingConnection {
     fn clone(&self) -> Self {
-        let (response_receiver_channel_tx, response_receiver_channel_rx) = mpsc::channel(1 << 6);
+        let (response_receiver_channel_tx, response_receiver_channel_rx) = mpsc::channel(1 << 10);
         Self {
             send_message: self.send_message.clone(),
             response_receiver_channel_rx,
diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index 90b293e..c151e85 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -129,7 +129,7 @@ impl ConnectionManager {
                 transaction_id,
                 response,
                 ..
-            } => self.handle_resp(transaction_id, response, from).await,
+            } => self.handle_resp(transaction_id, response, from),
             Message::Error { .. } => (),
         }
     }
@@ -212,7 +212,7 @@ impl ConnectionManager {
         token == self.secret.hash_with_secret(&source_addr.ip().octets())
     }
 
-    async fn handle_resp(
+    fn handle_resp(
         &mut self,
         transaction_id: SerializableBuf,
         response: Response,
@@ -226,39 +226,25 @@ impl ConnectionManager {
             return;
         };
 
-        match response {
-            Response::Ping { id } => {
-                querying_task_channel
-                    .send(FromConResp::Touch { id, from })
-                    .await
-                    .unwrap();
-            }
-            Response::FindNode { nodes, id } => {
-                querying_task_channel
-                    .send(FromConResp::NewNodes { nodes, from, id })
-                    .await
-                    .unwrap();
+        let response = match response {
+            Response::Ping { id } | Response::AnnouncePeer { id } => {
+                FromConResp::Touch { id, from }
             }
+            Response::FindNode { nodes, id } => FromConResp::NewNodes { nodes, from, id },
             Response::GetPeers {
                 values_or_nodes,
                 token,
                 ..
-            } => {
-                querying_task_channel
-                    .send(FromConResp::GetPeers {
-                        from,
-                        token,
-                        v_or_n: values_or_nodes,
-                    })
-                    .await
-                    .unwrap();
-            }
-            Response::AnnouncePeer { id } => {
-                querying_task_channel
-                    .send(FromConResp::Touch { id, from })
-                    .await
-                    .unwrap();
-            }
+            } => FromConResp::GetPeers {
+                from,
+                token,
+                v_or_n: values_or_nodes,
+            },
+        };
+
+        // requester that's gone or too slow mustn't stop everyone else from using the socket
+        if let Err(e) = querying_task_channel.try_send(response) {
+            warn!(?e);
         }
     }
 }
-- 
2.43.0


From 2e45ce4b0ca838f33f6c8fede5fafe5ac58fe2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:43 +0000
Subject: [PATCH 21/69] fix: don't restart the growing interval whenever
 something else happens first

---
 src/capped_growing_interval.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/capped_growing_interval.rs b/src/capped_growing_interval.rs
index 3ec3e89..777b60c 100644
--- a/src/capped_growing_interval.rs
+++ b/src/capped_growing_interval.rs
@@ -1,9 +1,11 @@
 use std::time::Duration;
-use tokio::time::sleep;
+use tokio::time::{sleep_until, Instant};
+
 pub struct CappedGrowingInterval {
     growth_formula: fn(f64) -> f64,
     iter_count: usize,
     max: f64,
+    next_tick: Option<Instant>,
 }
 
 impl CappedGrowingInterval {
@@ -12,17 +14,30 @@ impl CappedGrowingInterval {
             growth_formula,
             iter_count: 0,
             max,
+            next_tick: None,
         }
     }
 
+    // cancellation safe: when this is dropped before the tick, the next call waits for the same tick
     pub async fn tick(&mut self) {
+        let next_tick = match self.next_tick {
+            Some(next_tick) => next_tick,
+            None => Instant::now() + self.sleep_duration(),
+        };
+
+        self.next_tick = Some(next_tick);
+        sleep_until(next_tick).await;
+
+        self.next_tick = None;
+        self.iter_count += 1;
+    }
+
+    fn sleep_duration(&self) -> Duration {
         let sleep_duration = [(self.growth_formula)(self.iter_count as f64), self.max]
             .into_iter()
             .min_by(|a, b| a.partial_cmp(b).unwrap())
             .unwrap();
 
-        sleep(Duration::from_secs_f64(sleep_duration)).await;
-
-        self.iter_count += 1;
+        Duration::from_secs_f64(sleep_duration)
     }
 }
-- 
2.43.0


From 15da4ff636fc0d8e34299125a1d46ff1b1bdf664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 22/69] fix: keep the status of a known peer when it's
 discovered again

---
 src/peers/active_peers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index 12228a6..aa3078c 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -31,7 +31,11 @@ impl Peers {
     }
 
     pub fn insert(&self, peer: Peer) {
-        self.data.lock().unwrap().insert(peer, Status::Unknown);
+        self.data
+            .lock()
+            .unwrap()
+            .entry(peer)
+            .or_insert(Status::Unknown);
     }
 
     // TODO this name is bad. `peers.serve(info_hash)` is clear but only seeing it here is laughably bad.
@@ -135,7 +139,9 @@ where
     fn extend<T: IntoIterator<Item = P>>(&mut self, iter: T) {
         let mut data = self.data.lock().unwrap();
 
-        data.extend(iter.into_iter().map(|peer| (peer.into(), Status::Unknown)));
+        for peer in iter {
+            data.entry(peer.into()).or_insert(Status::Unknown);
+        }
     }
 }
 
-- 
2.43.0


From 2594baed3863119c569e6d2a10b474cac7c6f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 23/69] fix: don't mark peers as active when they're only
 looked at

---
 src/peers/active_peers.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index aa3078c..4837435 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -62,9 +62,14 @@ impl Peers {
             Status::ChokedForTooLong,
         ];
 
-        let mut data = self.data.lock().unwrap();
-
-        let peers = self.activate_peers_in_locked_data(&mut data, limit, &status_priority_order);
+        let data = self.data.lock().unwrap();
+
+        let peers: Vec<Peer> = status_priority_order
+            .iter()
+            .flat_map(|cur_status| data.iter().filter(move |(_, status)| *status == cur_status))
+            .map(|(peer, _)| peer.to_owned())
+            .take(limit)
+            .collect();
 
         if peers.is_empty() {
             None
-- 
2.43.0


From 32c261a220f8f89feff5e0af9faa2faa3d8c8405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 24/69] fix: don't let the DHT manager and its connection wait
 for each other

---
 src/dht/connection/connection_handle.rs  | 10 +++++-----
 src/dht/connection/connection_manager.rs |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dht/connection/connection_handle.rs b/src/dht/connection/connection_handle.rs
index 5e46c38..5721bfa 100644
--- a/src/dht/connection/connection_handle.rs
+++ b/src/dht/connection/connection_handle.rs
@@ -11,13 +11,13 @@ pub const DHT_MTU: usize = 1300;
 #[derive(Debug)]
 pub struct Connection {
     querying_connection: QueryingConnection,
-    send_message: mpsc::Sender<ToCon>,
+    send_message: mpsc::UnboundedSender<ToCon>,
     query_listener: mpsc::Receiver<FromConQuery>,
 }
 
 #[derive(Debug)]
 pub struct QueryingConnection {
-    send_message: mpsc::Sender<ToCon>,
+    send_message: mpsc::UnboundedSender<ToCon>,
     response_receiver_channel_rx: mpsc::Receiver<FromConResp>,
     response_receiver_channel_tx: mpsc::Sender<FromConResp>,
 }
@@ -74,7 +74,6 @@ impl QueryingConnection {
 
         self.send_message
             .send(msg)
-            .await
             .map_err(|e| Error::ConDropped {
                 source: Some(Box::new(e)),
             })
@@ -94,7 +93,9 @@ impl Clone for QueryingConnection {
 
 impl Connection {
     pub fn new(own_id: ID) -> Self {
-        let (send_to_remote_command_tx, send_to_remote_command_rx) = mpsc::channel(1 << 10);
+        // unbounded because the connection manager might be waiting for whoever sends the commands to
+        // receive a query. if that one had to wait for the connection manager, both would be stuck
+        let (send_to_remote_command_tx, send_to_remote_command_rx) = mpsc::unbounded_channel();
         let (response_receiver_channel_tx, response_receiver_channel_rx) = mpsc::channel(1 << 10);
         let (query_listener_tx, query_listener_rx) = mpsc::channel(1 << 8);
 
@@ -166,7 +167,6 @@ impl Connection {
 
         self.send_message
             .send(msg)
-            .await
             .map_err(|e| Error::ConDropped {
                 source: Some(Box::new(e)),
             })
diff --git a/src/dht/connection/connection_manager.rs b/src/dht/connection/connection_manager.rs
index c151e85..501b9e5 100644
--- a/src/dht/connection/connection_manager.rs
+++ b/src/dht/connection/connection_manager.rs
@@ -14,7 +14,7 @@ pub const MTU: usize = 1300;
 pub struct ConnectionManager {
     own_id: ID,
     sock: UdpSocket,
-    send_to_remote: mpsc::Receiver<ToCon>,
+    send_to_remote: mpsc::UnboundedReceiver<ToCon>,
     query_listener: mpsc::Sender<FromConQuery>,
     pending: PendingRequests,
     secret: ID,
@@ -29,7 +29,7 @@ pub struct QueryId {
 impl ConnectionManager {
     pub fn start(
         own_id: ID,
-        send_to_remote: mpsc::Receiver<ToCon>,
+        send_to_remote: mpsc::UnboundedReceiver<ToCon>,
         query_listener: mpsc::Sender<FromConQuery>,
     ) {
         tokio::spawn(async move {
-- 
2.43.0


From 92c7dca5d7886dc8967638782f4fcf6f99f7af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:06 +0000
Subject: [PATCH 25/69] fix: keep the query of an announce URL that already has
 one

---
 src/tracker/announce.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracker/announce.rs b/src/tracker/announce.rs
index 74e4e62..0cc1424 100644
--- a/src/tracker/announce.rs
+++ b/src/tracker/announce.rs
@@ -25,7 +25,8 @@ impl Announce {
     pub fn as_url(&self) -> String {
         let mut s = self.tracker_url.clone();
 
-        s.push_str("?info_hash=");
+        s.push(if s.contains('?') { '&' } else { '?' });
+        s.push_str("info_hash=");
         s.push_str(urlencoding::encode_binary(self.info_hash.as_byte_ref()).as_ref());
 
         s.push_str("&peer_id=");
-- 
2.43.0


From 737089c1194fc13876231681713a6fa5180c8ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:09 +0000
Subject: [PATCH 26/69] fix: percent-encode the tracker id in announces

---
 src/tracker/announce.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/announce.rs b/src/tracker/announce.rs
index 0cc1424..169cd9d 100644
--- a/src/tracker/announce.rs
+++ b/src/tracker/announce.rs
@@ -63,7 +63,7 @@ impl Announce {
 
         if let Some(tracker_id) = &self.tracker_id {
             s.push_str("&trackerid=");
-            s.push_str(tracker_id);
+            s.push_str(urlencoding::encode(tracker_id).as_ref());
         }
 
         s
-- 
2.43.0


From af37fe1895c1396080f6a9fcff89d69a16b9497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 27/69] fix: accept tracker responses without the optional peer
 counts

---
 src/tracker/response.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tracker/response.rs b/src/tracker/response.rs
index 81105c8..b89335f 100644
--- a/src/tracker/response.rs
+++ b/src/tracker/response.rs
@@ -79,8 +79,8 @@ impl FromBencode for Response {
             interval: ok_or_missing_field!(interval)?,
             min_interval,
             tracker_id,
-            complete: ok_or_missing_field!(complete)?,
-            incomplete: ok_or_missing_field!(incomplete)?,
+            complete: complete.unwrap_or(0),
+            incomplete: incomplete.unwrap_or(0),
             peers: ok_or_missing_field!(peers)?,
         })
     }
-- 
2.43.0


From 37d6520d300664aa41d170b3b1f66b21c824de8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 28/69] fix: don't announce in a busy loop when the tracker's
 interval is zero

---
 src/tracker/tracker_manager.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 6ad9e8c..3db5377 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -14,6 +14,7 @@ use tracing::{instrument, trace, warn};
 
 const TIMEOUT_SECS: u64 = 1 << 7;
 const RETRY_SECS: u64 = 1 << 6;
+const MIN_INTERVAL_SECS: u64 = 1 << 3;
 
 pub fn spawn_tracker_managers(
     torrent: &Torrent,
@@ -97,7 +98,7 @@ async fn manage_http_tracker(
                 let _ = send_request(&announce.as_url()).await;
                 break;
             },
-            _ = sleep(Duration::from_secs(response.interval)) => {
+            _ = sleep(Duration::from_secs(response.interval.max(MIN_INTERVAL_SECS))) => {
                 announce.event = None;
             }
             downloaded = announce_event_message.recv() => {
-- 
2.43.0


From a497844c875d4fc52df9c6aa595b5b2b153beed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 29/69] fix: send the stopped event also when the shutdown
 interrupts an announce

---
 src/tracker/tracker_manager.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 3db5377..c3e98a7 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -82,7 +82,10 @@ async fn manage_http_tracker(
         tracker_id: None,
     };
 
+    let mut is_session_started = false;
+
     while let Some(response) = contact_tracker(&announce, &mut shutdown_rx).await {
+        is_session_started = true;
         peers.extend(&response.peers);
 
         if announce.tracker_id.is_none() && response.tracker_id.is_some() {
@@ -91,11 +94,6 @@ async fn manage_http_tracker(
 
         tokio::select! {
             _ = shutdown_rx.recv() => {
-                announce.event = Some(AnnounceEvent::Stopped);
-                announce.left = (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
-                // announce.uploaded = TODO
-                // announce.downloaded = TODO
-                let _ = send_request(&announce.as_url()).await;
                 break;
             },
             _ = sleep(Duration::from_secs(response.interval.max(MIN_INTERVAL_SECS))) => {
@@ -119,6 +117,14 @@ async fn manage_http_tracker(
         // announce.downloaded = TODO
     }
 
+    if is_session_started {
+        announce.event = Some(AnnounceEvent::Stopped);
+        announce.left = (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
+        // announce.uploaded = TODO
+        // announce.downloaded = TODO
+        let _ = send_request(&announce.as_url()).await;
+    }
+
     trace!("exit");
 }
 
-- 
2.43.0


From 5927278d892ce526ce9c59cf4ca3b156a0c1eacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 30/69] fix: keep announcing when the completion channel lags
 or closes

---
 src/tracker/tracker_manager.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index c3e98a7..98b1902 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -6,9 +6,10 @@ use crate::shutdown;
 use crate::transcoding::metainfo::Torrent;
 use anyhow::{anyhow, Result};
 use bendy::decoding::{Decoder, FromBencode};
+use std::future::pending;
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
-use tokio::sync::broadcast::{self, Receiver};
+use tokio::sync::broadcast::{self, error::RecvError, Receiver};
 use tokio::time::{sleep, Duration};
 use tracing::{instrument, trace, warn};
 
@@ -99,16 +100,8 @@ async fn manage_http_tracker(
             _ = sleep(Duration::from_secs(response.interval.max(MIN_INTERVAL_SECS))) => {
                 announce.event = None;
             }
-            downloaded = announce_event_message.recv() => {
-                match downloaded {
-                    Ok(_) => {
-                        announce.event = Some(AnnounceEvent::Completed);
-                    },
-                    Err(e) => {
-                        warn!(?e);
-                        break;
-                    },
-                }
+            _ = recv_completion(&mut announce_event_message) => {
+                announce.event = Some(AnnounceEvent::Completed);
             }
         }
 
@@ -128,6 +121,17 @@ async fn manage_http_tracker(
     trace!("exit");
 }
 
+// never resolves once there is nobody left who could report the completion
+async fn recv_completion(announce_event_message: &mut Receiver<()>) {
+    loop {
+        match announce_event_message.recv().await {
+            Ok(_) => return,
+            Err(RecvError::Lagged(_)) => (),
+            Err(RecvError::Closed) => pending().await,
+        }
+    }
+}
+
 async fn contact_tracker(
     announce: &Announce,
     shutdown_rx: &mut shutdown::Receiver,
-- 
2.43.0


From d0da00728953bf28ca31cabe531462b3c87f72e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 31/69] fix: announce the real number of bytes left, also with
 a short last piece

---
 src/tracker/tracker_manager.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 98b1902..6774798 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -30,7 +30,7 @@ pub fn spawn_tracker_managers(
         let tracker_url = http_tracker.clone();
         let info_hash = torrent.info_hash;
         let peer_id = *peer_id;
-        let piece_count = torrent.count_pieces() as u64;
+        let total_length = torrent.info.length();
         let piece_length = torrent.info.piece_length;
         let pieces_downloaded = pieces_downloaded.clone();
         let peers = peers.clone();
@@ -42,7 +42,7 @@ pub fn spawn_tracker_managers(
                 tracker_url,
                 info_hash,
                 peer_id,
-                piece_count,
+                total_length,
                 piece_length,
                 pieces_downloaded,
                 peers,
@@ -60,7 +60,7 @@ async fn manage_http_tracker(
     tracker_url: String,
     info_hash: ID,
     peer_id: ID,
-    piece_count: u64,
+    total_length: u64,
     piece_length: u64,
     pieces_downloaded: Arc<AtomicU64>,
     mut peers: Peers,
@@ -76,7 +76,7 @@ async fn manage_http_tracker(
         port: tcp_port,
         uploaded: 0,
         downloaded: 0,
-        left: (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length,
+        left: left(total_length, piece_length, &pieces_downloaded),
         compact: true,
         no_peer_id: true,
         event: Some(AnnounceEvent::Started),
@@ -105,14 +105,14 @@ async fn manage_http_tracker(
             }
         }
 
-        announce.left = (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
+        announce.left = left(total_length, piece_length, &pieces_downloaded);
         // announce.uploaded = TODO
         // announce.downloaded = TODO
     }
 
     if is_session_started {
         announce.event = Some(AnnounceEvent::Stopped);
-        announce.left = (piece_count - pieces_downloaded.load(Ordering::Relaxed)) * piece_length;
+        announce.left = left(total_length, piece_length, &pieces_downloaded);
         // announce.uploaded = TODO
         // announce.downloaded = TODO
         let _ = send_request(&announce.as_url()).await;
@@ -121,6 +121,15 @@ async fn manage_http_tracker(
     trace!("exit");
 }
 
+// the last piece can be shorter than the others
+fn left(total_length: u64, piece_length: u64, pieces_downloaded: &AtomicU64) -> u64 {
+    let downloaded_length = pieces_downloaded
+        .load(Ordering::Relaxed)
+        .saturating_mul(piece_length);
+
+    total_length.saturating_sub(downloaded_length)
+}
+
 // never resolves once there is nobody left who could report the completion
 async fn recv_completion(announce_event_message: &mut Receiver<()>) {
     loop {
-- 
2.43.0


From 14b97bed509022eb98ece76a256c3d1df6f313bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:09 +0000
Subject: [PATCH 32/69] fix: refuse peer messages whose length doesn't suit
 their id

---
 src/peers/connection/message.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/peers/connection/message.rs b/src/peers/connection/message.rs
index 2682213..0c1c515 100644
--- a/src/peers/connection/message.rs
+++ b/src/peers/connection/message.rs
@@ -108,6 +108,12 @@ impl Message {
         } else {
             let id = buf[ID_IDX];
             debug!(id);
+
+            if !Self::is_len_valid(id, len - BYTES_IN_LEN_PREFIX) {
+                warn!("message with id {} can't be {} bytes long", id, len);
+                return None;
+            }
+
             match id {
                 CHOKE_ID => Message::Choke,
                 UNCHOKE_ID => Message::Unchoke,
@@ -143,6 +149,24 @@ impl Message {
         Some(message)
     }
 
+    fn is_len_valid(id: u8, len: usize) -> bool {
+        let len = len as u32;
+
+        match id {
+            CHOKE_ID => len == CHOKE_LEN,
+            UNCHOKE_ID => len == UNCHOKE_LEN,
+            INTERESTED_ID => len == INTERESTED_LEN,
+            NOT_INTERESTED_ID => len == NOT_INTERESTED_LEN,
+            HAVE_ID => len == HAVE_LEN,
+            BITFIELD_ID => len >= BITFIELD_LEN,
+            REQUEST_ID => len == REQUEST_LEN,
+            PIECE_ID => len >= PIECE_LEN,
+            CANCEL_ID => len == CANCEL_LEN,
+            PORT_ID => len == PORT_LEN,
+            _ => true,
+        }
+    }
+
     pub fn into_bytes(self) -> Vec<u8> {
         bincode::DefaultOptions::new()
             .with_big_endian()
-- 
2.43.0


From 11d1702f653a2a013c9e039901324a7695e23879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 33/69] fix: skip only the bad message of a peer, not
 everything received after it

---
 src/peers/connection/connection_manager.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 1db4517..75e6d93 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -118,12 +118,7 @@ async fn manager_receiver(
             let message_len = Message::len(&buf[data_start..]) + BYTES_IN_LEN_PREFIX;
 
             if message_len <= data_len {
-                let Some(message) = Message::from_buf(&buf) else {
-                    error!("message_len <= data_len but buf can't be deserialize into message");
-                    data_start = 0;
-                    data_len = 0;
-                    break;
-                };
+                let message = Message::from_buf(&buf[data_start..data_start + message_len]);
 
                 data_start += message_len;
                 data_len -= message_len;
@@ -134,6 +129,11 @@ async fn manager_receiver(
 
                 data_start = 0;
 
+                let Some(message) = message else {
+                    error!("message_len <= data_len but buf can't be deserialize into message");
+                    continue;
+                };
+
                 handle_message(peer, message, &piece_handler, &dht_handler, &peer_handler).await;
             } else {
                 break;
-- 
2.43.0


From 591d7810ffbb2ee75b9e2b83c79004e22fd010b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:18 +0000
Subject: [PATCH 34/69] fix: end the connection at the end of the stream or at
 a message too long to receive

---
 src/peers/connection/connection_manager.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 75e6d93..693165d 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -107,6 +107,7 @@ async fn manager_receiver(
 
     loop {
         data_len += match stream.read(&mut buf[data_start + data_len..]).await {
+            Ok(0) => return,
             Ok(len) => len,
             Err(e) => {
                 error!(?e);
@@ -117,6 +118,11 @@ async fn manager_receiver(
         while data_len >= BYTES_IN_LEN_PREFIX {
             let message_len = Message::len(&buf[data_start..]) + BYTES_IN_LEN_PREFIX;
 
+            if message_len > MAX_MESSAGE_BYTES {
+                error!("message of {message_len} bytes is too long");
+                return;
+            }
+
             if message_len <= data_len {
                 let message = Message::from_buf(&buf[data_start..data_start + message_len]);
 
-- 
2.43.0


From 3a236b149bd8a4db8267a871768f91e62d7a7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:22 +0000
Subject: [PATCH 35/69] fix: report the end of a peer connection

---
 src/peers/connection/connection_manager.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 693165d..fa1a09f 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -70,10 +70,17 @@ async fn manage_tcp(
     let (read_stream, write_stream) = split(&mut stream);
 
     select! {
-        _ = shutdown_rx.recv() => {},
+        _ = shutdown_rx.recv() => return,
         _ = manager_sender(write_stream, send_rx) => {},
-        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, peer_handler) => {},
+        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, &peer_handler) => {},
     };
+
+    let _ = peer_handler
+        .send(ConnectionMessage {
+            peer,
+            message: ConMessageType::Disconnected,
+        })
+        .await;
 }
 
 async fn manager_sender(
@@ -90,6 +97,7 @@ async fn manager_sender(
 
         if let Err(e) = stream.write_all(message.into_bytes().as_ref()).await {
             error!(?e);
+            return;
         }
     }
 }
@@ -99,7 +107,7 @@ async fn manager_receiver(
     mut stream: ReadHalf<&mut TcpStream>,
     piece_handler: mpsc::Sender<Piece>,
     dht_handler: mpsc::Sender<SocketAddrV4>,
-    peer_handler: mpsc::Sender<ConnectionMessage>,
+    peer_handler: &mpsc::Sender<ConnectionMessage>,
 ) {
     let mut buf = vec![0u8; MAX_MESSAGE_BYTES];
     let mut data_start = 0;
@@ -140,7 +148,7 @@ async fn manager_receiver(
                     continue;
                 };
 
-                handle_message(peer, message, &piece_handler, &dht_handler, &peer_handler).await;
+                handle_message(peer, message, &piece_handler, &dht_handler, peer_handler).await;
             } else {
                 break;
             }
-- 
2.43.0


From d2c5b781c043d6bcefb681bfd3427ecb52ace1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 36/69] fix: let a peer be connected again after its connection
 ended

---
 src/peers/connection/connection_handle.rs  | 28 +++++++++++++++-------
 src/peers/connection/connection_manager.rs |  2 ++
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index a96dbbc..4e8bfbf 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -156,17 +156,27 @@ impl Connection {
 
     pub async fn recv(&mut self) -> ConnectionMessage {
         // None is impossible because one copy of tx is stored in self
-        let msg = self.rec.recv().await.unwrap();
-
-        if let Some(peer_con) = self.peers.get(&msg.peer) {
-            match &msg.message {
-                ConMessageType::Choke => peer_con.choker.choke(),
-                ConMessageType::Unchoke => peer_con.choker.unchoke(),
-                _ => (),
+        loop {
+            let msg = self.rec.recv().await.unwrap();
+
+            if let Occupied(entry) = self.peers.entry(msg.peer) {
+                match &msg.message {
+                    ConMessageType::Choke => entry.get().choker.choke(),
+                    ConMessageType::Unchoke => entry.get().choker.unchoke(),
+                    ConMessageType::Unreachable | ConMessageType::Disconnected => {
+                        // if it's open, this is an old message and peer is connected again
+                        if !entry.get().send_tx.is_closed() {
+                            continue;
+                        }
+
+                        entry.remove();
+                    }
+                    _ => (),
+                }
             }
-        }
 
-        msg
+            return msg;
+        }
     }
 
     pub async fn download_piece(
diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index fa1a09f..57d7372 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -57,6 +57,8 @@ async fn manage_tcp(
     mut shutdown_rx: shutdown::Receiver,
 ) {
     let Ok(mut stream) = initiate_handshake(&peer.into(), &info_hash, &own_peer_id).await else {
+        drop(send_rx);
+
         // I can ignore it because if rec is dead, there's not much to do other than shutting down
         let _ = peer_handler
             .send(ConnectionMessage {
-- 
2.43.0


From 6b0da2f120725a8f4eb480cd63237a3ef2631beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 37/69] fix: read the whole handshake of a peer, however it's
 split

---
 src/peers/connection/handshake.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/peers/connection/handshake.rs b/src/peers/connection/handshake.rs
index b9e8ef8..703849d 100644
--- a/src/peers/connection/handshake.rs
+++ b/src/peers/connection/handshake.rs
@@ -1,5 +1,5 @@
 use crate::data_structures::ID;
-use anyhow::{anyhow, bail, Result};
+use anyhow::{bail, Result};
 use std::mem::size_of;
 use std::net::SocketAddrV4;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
@@ -20,14 +20,10 @@ pub async fn initiate_handshake(
     stream.write_all(handshake.as_ref()).await?;
 
     let mut buf = [0_u8; HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL];
-    let received_byte_cnt = stream.read(&mut buf).await?;
+    stream.read_exact(&mut buf).await?;
 
-    if received_byte_cnt != HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL {
-        Err(anyhow!("can't connect to peer"))
-    } else {
-        Handshake::check_validity(buf.as_ref())?;
-        Ok(stream)
-    }
+    Handshake::check_validity(buf.as_ref())?;
+    Ok(stream)
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 7942f783b5f6b1db85413169d0595a04436aec84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:36 +0000
Subject: [PATCH 38/69] fix: refuse peers that answer the handshake with
 another info hash

---
 src/peers/connection/handshake.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/handshake.rs b/src/peers/connection/handshake.rs
index 703849d..001f6f8 100644
--- a/src/peers/connection/handshake.rs
+++ b/src/peers/connection/handshake.rs
@@ -1,4 +1,4 @@
-use crate::data_structures::ID;
+use crate::data_structures::{ID, ID_LEN};
 use anyhow::{bail, Result};
 use std::mem::size_of;
 use std::net::SocketAddrV4;
@@ -8,6 +8,7 @@ use tokio::net::TcpStream;
 const PSTRLEN: u8 = 19;
 const PSTR: &[u8] = b"BitTorrent protocol";
 const HANDSHAKE_LENGTH_FOR_BITTORRENT_PROTOCOL: usize = 68;
+const INFO_HASH_START: usize = 28;
 
 pub async fn initiate_handshake(
     sock_addr: &SocketAddrV4,
@@ -23,6 +24,11 @@ pub async fn initiate_handshake(
     stream.read_exact(&mut buf).await?;
 
     Handshake::check_validity(buf.as_ref())?;
+
+    if &buf[INFO_HASH_START..INFO_HASH_START + ID_LEN] != info_hash.as_byte_ref() {
+        bail!("peer answered with different info hash");
+    }
+
     Ok(stream)
 }
 
-- 
2.43.0


From a74284d44efad0d3f58e49404919f4aac9809bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:48 +0000
Subject: [PATCH 39/69] fix: give up on a peer that doesn't answer the
 handshake

---
 src/peers/connection/connection_manager.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 57d7372..0c6a170 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -11,7 +11,7 @@ use tokio::io::{split, AsyncReadExt, AsyncWriteExt, ReadHalf, WriteHalf};
 use tokio::net::TcpStream;
 use tokio::select;
 use tokio::sync::mpsc;
-use tokio::time::{interval, Duration};
+use tokio::time::{interval, timeout, Duration};
 use tracing::log::trace;
 use tracing::{error, instrument, warn};
 
@@ -19,6 +19,7 @@ pub const BLOCK_SIZE: usize = 1 << 14;
 pub const DESCRIPTIVE_DATA_SIZE: usize = 1 << 7;
 pub const MAX_MESSAGE_BYTES: usize = BLOCK_SIZE + DESCRIPTIVE_DATA_SIZE;
 pub const KEEP_ALIVE_INTERVAL_SECS: u64 = 100;
+const HANDSHAKE_TIMEOUT_SECS: u64 = 1 << 4;
 
 pub fn spawn_connection_manager(
     own_peer_id: ID,
@@ -56,7 +57,15 @@ async fn manage_tcp(
     send_rx: mpsc::Receiver<Message>,
     mut shutdown_rx: shutdown::Receiver,
 ) {
-    let Ok(mut stream) = initiate_handshake(&peer.into(), &info_hash, &own_peer_id).await else {
+    let handshake_result = select! {
+        _ = shutdown_rx.recv() => return,
+        result = timeout(
+            Duration::from_secs(HANDSHAKE_TIMEOUT_SECS),
+            initiate_handshake(peer.addr(), &info_hash, &own_peer_id),
+        ) => result,
+    };
+
+    let Ok(Ok(mut stream)) = handshake_result else {
         drop(send_rx);
 
         // I can ignore it because if rec is dead, there's not much to do other than shutting down
-- 
2.43.0


From ab4eacef53f47a0e8d9ad7f76c10917575364458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 40/69] fix: accept the last block of a piece that consists of
 full blocks

---
 src/peers/connection/pending_pieces.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 996df3a..32a5c67 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -201,7 +201,7 @@ impl PendingPieces {
         let last_block_in_piece = block_idx + 1 == self.blocks_per_piece;
 
         let block_size = if last_block_in_piece {
-            self.piece_length % BLOCK_SIZE
+            self.piece_length - block_idx * BLOCK_SIZE
         } else {
             BLOCK_SIZE
         };
-- 
2.43.0


From 6adb2ff0540d1545754ea054a2acb0b248504903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:54 +0000
Subject: [PATCH 41/69] fix: count every block of a piece once, however often
 it arrives

---
 src/peers/connection/pending_pieces.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 32a5c67..e1ea6bd 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -32,7 +32,6 @@ pub struct FinishedPiece {
 }
 
 struct Piece {
-    pending: usize,
     downloaded: usize,
     data: Vec<Block>,
 }
@@ -108,9 +107,13 @@ impl PendingPieces {
 
         let block = &mut piece.data[block_idx];
 
+        if let Block::Downloaded(_) = block {
+            error!("block {block_idx} of piece {piece_idx} is already stored");
+            return AddBlockRes::Failed;
+        }
+
         *block = Block::Downloaded(block_data);
         piece.downloaded += 1;
-        piece.pending -= 1;
 
         if self.blocks_per_piece == piece.downloaded {
             let finished_piece = data.remove(&piece_idx).unwrap();
@@ -228,7 +231,6 @@ impl Piece {
         let data = vec![Block::default(); piece_count];
 
         Self {
-            pending: 0,
             downloaded: 0,
             data,
         }
-- 
2.43.0


From 66adac038d3bff6c9a925d5442d97dbd16dfd066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:58 +0000
Subject: [PATCH 42/69] fix: don't take more blocks than the downloader has
 room for

---
 src/peers/connection/pending_pieces.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index e1ea6bd..9cacc9f 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -154,8 +154,10 @@ impl PendingPieces {
         let now = Instant::now();
 
         for filter in filters {
+            let free_slots = block_buf.capacity() - block_buf.len();
+
             for (block, block_address) in
-                Self::filtered_iter_over_blocks(&pieces, &mut data, filter)
+                Self::filtered_iter_over_blocks(&pieces, &mut data, filter).take(free_slots)
             {
                 *block = Block::Pending(PendingBlockDesc {
                     target: self.copy_owner.unwrap(), // TODO wtf is this? NO!
-- 
2.43.0


From 39225cff0831de05d232efb8e2fcc683b132bd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 43/69] fix: tell the downloader when its peer chokes or
 unchokes

---
 src/peers/connection/connection_handle.rs | 37 ++++++++---------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 4e8bfbf..5570f86 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -12,7 +12,7 @@ use std::collections::{
 };
 use std::net::SocketAddrV4;
 use std::sync::Arc;
-use tokio::sync::mpsc;
+use tokio::sync::{mpsc, watch};
 
 const MESSAGE_CHANNEL_BUFFER: usize = 1 << 5;
 
@@ -34,53 +34,42 @@ struct PeerConnection {
 }
 
 fn choke_lock() -> (ChokeLocker, UnchokeWaiter) {
-    let (tx, rx) = mpsc::channel(1 << 4);
+    let (tx, rx) = watch::channel(ChokingStatus::Choke);
 
-    (ChokeLocker { tx }, UnchokeWaiter { rx, choking: true })
+    (ChokeLocker { tx }, UnchokeWaiter { rx })
 }
 
+#[derive(PartialEq)]
 enum ChokingStatus {
     Choke,
     Unchoke,
 }
 
 struct ChokeLocker {
-    tx: mpsc::Sender<ChokingStatus>,
+    tx: watch::Sender<ChokingStatus>,
 }
 
 impl ChokeLocker {
     fn choke(&self) {
-        self.tx.send(ChokingStatus::Choke);
+        let _ = self.tx.send(ChokingStatus::Choke);
     }
 
     fn unchoke(&self) {
-        self.tx.send(ChokingStatus::Unchoke);
+        let _ = self.tx.send(ChokingStatus::Unchoke);
     }
 }
 
 pub struct UnchokeWaiter {
-    rx: mpsc::Receiver<ChokingStatus>,
-    choking: bool,
+    rx: watch::Receiver<ChokingStatus>,
 }
 
 impl UnchokeWaiter {
-    pub async fn wait_if_choking(&mut self) {
-        loop {
-            while self.choking {
-                match self.rx.recv().await.unwrap() {
-                    ChokingStatus::Choke => self.choking = true,
-                    ChokingStatus::Unchoke => self.choking = false,
-                }
-            }
+    pub fn is_choking(&self) -> bool {
+        *self.rx.borrow() == ChokingStatus::Choke
+    }
 
-            match self.rx.try_recv() {
-                Ok(m) => match m {
-                    ChokingStatus::Choke => self.choking = true,
-                    ChokingStatus::Unchoke => self.choking = false,
-                },
-                Err(_) => break,
-            }
-        }
+    pub async fn changed(&mut self) -> Result<()> {
+        Ok(self.rx.changed().await?)
     }
 }
 
-- 
2.43.0


From b4d9a2a3586d254195638302e72e2d666ec08d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 44/69] fix: keep the downloader going: no panics, delays or
 lost blocks while downloading

---
 src/peers/connection/downloader.rs     | 68 +++++++++++++++-----------
 src/peers/connection/pending_pieces.rs | 32 ++++++++++++
 2 files changed, 71 insertions(+), 29 deletions(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index 3a7c391..c3853d3 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -12,10 +12,11 @@ use crate::{
 };
 use anyhow::{bail, Result};
 use std::{collections::HashMap, time::Duration};
-use tokio::{select, sync::mpsc, time::sleep};
+use tokio::{select, sync::mpsc, time::interval};
 use tracing::warn;
 
 const ACTIVE_BLOCKS_PER_PEER: usize = 16;
+const REFRESH_INTERVAL_SECS: u64 = 1;
 
 #[derive(Debug)]
 pub enum PeerManagerCommand {
@@ -83,33 +84,41 @@ async fn manage_piece_downloader(
 ) {
     let mut current_pieces = HashMap::new();
     let mut current_blocks = Vec::with_capacity(ACTIVE_BLOCKS_PER_PEER);
+    let mut interval = interval(Duration::from_secs(REFRESH_INTERVAL_SECS));
 
-    let mut you_dont_need_to_lock_that_mutex_every_time_counter = 0;
+    pending_pieces.set_owner_peer(peer);
 
     loop {
         select! {
             _ = shutdown_rx.recv() => { return },
             block = downloaded_block_rx.recv() => {
-                foo(peer, block.unwrap(), &mut pending_pieces, &mut current_blocks, &current_pieces, &finished_piece_tx).await;
+                let Some(block) = block else {
+                    return;
+                };
+
+                if let Err(e) = foo(peer, block, &mut pending_pieces, &mut current_blocks, &mut current_pieces, &finished_piece_tx).await {
+                    warn!(?e);
+                }
             },
-            command = new_piece_rx.recv() => {
-                match command{
-                    Some(command) => match command{
-                        PeerManagerCommand::StartPiece((piece_hash, piece_idx)) => {current_pieces.insert(piece_idx, piece_hash);},
-                        PeerManagerCommand::StopPiece(piece_idx) => {current_pieces.remove(&piece_idx);},
-                    },
-                    None => todo!(),
+            Some(command) = new_piece_rx.recv() => {
+                match command {
+                    PeerManagerCommand::StartPiece((piece_hash, piece_idx)) => {current_pieces.insert(piece_idx, piece_hash);},
+                    PeerManagerCommand::StopPiece(piece_idx) => {current_pieces.remove(&piece_idx);},
                 }
             },
+            Ok(_) = unchoke_waiter.changed() => {},
+            _ = interval.tick() => {},
         };
 
-        if you_dont_need_to_lock_that_mutex_every_time_counter % (ACTIVE_BLOCKS_PER_PEER / 3) == 0 {
-            pending_pieces.take_not_good_blocks(
-                current_pieces.keys().into_iter().cloned().collect(),
-                &mut current_blocks,
-            );
+        if unchoke_waiter.is_choking() {
+            continue;
         }
 
+        pending_pieces.take_not_good_blocks(
+            current_pieces.keys().cloned().collect(),
+            &mut current_blocks,
+        );
+
         for queued_block in current_blocks
             .iter_mut()
             .filter(|block| block.status == BlockStatus::Queued)
@@ -118,12 +127,8 @@ async fn manage_piece_downloader(
                 warn!(?e);
             }
 
-            sleep(Duration::from_secs(10)).await;
-
             queued_block.status = BlockStatus::Requested;
         }
-
-        you_dont_need_to_lock_that_mutex_every_time_counter += 1;
     }
 }
 
@@ -132,7 +137,7 @@ async fn foo(
     block: Piece,
     pending_pieces: &mut PendingPieces,
     current_blocks: &mut Vec<BlockAddress>,
-    current_pieces: &HashMap<usize, ID>,
+    current_pieces: &mut HashMap<usize, ID>,
     finished_piece_tx: &mpsc::Sender<ConnectionMessage>,
 ) -> Result<()> {
     if block.begin as usize % BLOCK_SIZE > 0 {
@@ -146,29 +151,34 @@ async fn foo(
 
     let block_idx = block.begin as usize / BLOCK_SIZE;
 
-    let Some(idx) = current_blocks.iter().position(|block_addr| block_addr.block_idx == block_idx ) else {
-            bail!("current_blocks.iter().position(|block_addr| block_addr.block_idx == block_idx ) == None");
+    let Some(idx) = current_blocks.iter().position(|block_addr| {
+        block_addr.piece_idx == piece_idx && block_addr.block_idx == block_idx
+    }) else {
+            bail!("block {block_idx} of piece {piece_idx} is not requested");
         };
-    let mut removed_block_addr = current_blocks.remove(idx);
 
     match pending_pieces.add_block_data(piece_idx, block_idx, block.block.into_vec().into()) {
-        AddBlockRes::Added => todo!(),
-        AddBlockRes::Failed => {
-            removed_block_addr.status = BlockStatus::Queued;
-            current_blocks.push(removed_block_addr);
+        AddBlockRes::Added => {
+            current_blocks.remove(idx);
         }
+        // it's requested again when the request expires
+        AddBlockRes::Failed => (),
         AddBlockRes::AddedLast(finished_piece) => {
+            current_blocks.remove(idx);
+
             if Torrent::piece_hash(&finished_piece.data) != *piece_hash {
-                pending_pieces.add_piece(piece_idx);
+                pending_pieces.add_piece(piece_idx)?;
                 bail!("Torrent::piece_hash(&finished_piece.data) != *piece_hash");
             }
 
+            current_pieces.remove(&piece_idx);
+
             finished_piece_tx
                 .send(ConnectionMessage {
                     peer,
                     message: ConMessageType::FinishedPiece(finished_piece),
                 })
-                .await;
+                .await?;
         }
     }
 
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 9cacc9f..941f63c 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -153,6 +153,8 @@ impl PendingPieces {
 
         let now = Instant::now();
 
+        Self::refresh_taken_blocks(&mut data, &self.copy_owner.unwrap(), now, block_buf);
+
         for filter in filters {
             let free_slots = block_buf.capacity() - block_buf.len();
 
@@ -173,6 +175,36 @@ impl PendingPieces {
         }
     }
 
+    // forget the blocks that don't have to be downloaded anymore or are taken over by someone else,
+    // request again the ones that weren't received in time.
+    fn refresh_taken_blocks(
+        data: &mut HashMap<usize, Piece>,
+        owner: &Peer,
+        now: Instant,
+        block_buf: &mut Vec<BlockAddress>,
+    ) {
+        block_buf.retain_mut(|block_address| {
+            let Some(block) = data
+                .get_mut(&block_address.piece_idx)
+                .map(|piece| &mut piece.data[block_address.block_idx])
+                .filter(|block| block.is_expected_from(owner)) else {
+                    return false;
+                };
+
+            if block.is_expired_pending() {
+                *block = Block::Pending(PendingBlockDesc {
+                    target: *owner,
+                    time_sent: now,
+                });
+
+                *block_address =
+                    BlockAddress::new(block_address.piece_idx, block_address.block_idx);
+            }
+
+            true
+        });
+    }
+
     fn filtered_iter_over_blocks<'a>(
         piece_indexes: &'a [usize],
         data: &'a mut HashMap<usize, Piece>,
-- 
2.43.0


From c875d6cc9e49359a79264374540281c039af5b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:18 +0000
Subject: [PATCH 45/69] fix: request the short last piece and the last block of
 a piece in their real length

---
 src/peers/connection/connection_handle.rs |  3 +-
 src/peers/connection/downloader.rs        |  4 +-
 src/peers/connection/message.rs           |  2 +-
 src/peers/connection/pending_pieces.rs    | 91 ++++++++++++++---------
 src/torrent_manager.rs                    |  1 +
 5 files changed, 63 insertions(+), 38 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 5570f86..d88d752 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -78,6 +78,7 @@ impl Connection {
         own_peer_id: ID,
         info_hash: ID,
         piece_length: usize,
+        total_length: u64,
         dht_handler: mpsc::Sender<SocketAddrV4>,
     ) -> Self {
         let (rec_tx, rec) = mpsc::channel(MESSAGE_CHANNEL_BUFFER);
@@ -86,7 +87,7 @@ impl Connection {
             info_hash,
             own_peer_id,
             dht_handler,
-            pending_pieces: PendingPieces::new(piece_length),
+            pending_pieces: PendingPieces::new(piece_length, total_length),
             peers: HashMap::new(),
             rec,
             rec_tx,
diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index c3853d3..aa9911d 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -34,14 +34,16 @@ enum BlockStatus {
 pub struct BlockAddress {
     pub piece_idx: usize,
     pub block_idx: usize,
+    pub length: usize,
     status: BlockStatus,
 }
 
 impl BlockAddress {
-    pub fn new(piece_idx: usize, block_idx: usize) -> Self {
+    pub fn new(piece_idx: usize, block_idx: usize, length: usize) -> Self {
         Self {
             piece_idx,
             block_idx,
+            length,
             status: BlockStatus::Queued,
         }
     }
diff --git a/src/peers/connection/message.rs b/src/peers/connection/message.rs
index 0c1c515..3b4c769 100644
--- a/src/peers/connection/message.rs
+++ b/src/peers/connection/message.rs
@@ -278,7 +278,7 @@ impl From<BlockAddress> for Request {
         Self {
             index: value.piece_idx as u32,
             begin: (value.block_idx * BLOCK_SIZE) as u32,
-            length: BLOCK_SIZE as u32,
+            length: value.length as u32,
         }
     }
 }
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 941f63c..4012c31 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -20,7 +20,7 @@ const MAINLINE_TCP_REQUEST_TIMEOUT_SECS: u64 = 7;
 #[derive(Clone)]
 pub struct PendingPieces {
     piece_length: usize,
-    blocks_per_piece: usize,
+    total_length: u64,
     copy_owner: Option<Peer>,
     data: Arc<StdMutex<HashMap<usize, Piece>>>,
 }
@@ -32,6 +32,7 @@ pub struct FinishedPiece {
 }
 
 struct Piece {
+    length: usize,
     downloaded: usize,
     data: Vec<Block>,
 }
@@ -56,10 +57,10 @@ pub enum AddBlockRes {
 }
 
 impl PendingPieces {
-    pub fn new(piece_length: usize) -> Self {
+    pub fn new(piece_length: usize, total_length: u64) -> Self {
         Self {
             piece_length,
-            blocks_per_piece: unsigned_ceil_div!(piece_length, BLOCK_SIZE),
+            total_length,
             copy_owner: None,
             data: Arc::new(StdMutex::new(HashMap::with_capacity(
                 MAX_PIECES_DOWNLOADING,
@@ -82,22 +83,27 @@ impl PendingPieces {
             bail!("Pending is full");
         }
 
-        data.insert(idx, Piece::new(self.piece_length));
+        data.insert(idx, Piece::new(self.length_of_piece(idx)?));
 
         Ok(())
     }
 
+    // the last piece can be shorter than the others
+    fn length_of_piece(&self, idx: usize) -> Result<usize> {
+        let start = (idx as u64).checked_mul(self.piece_length as u64);
+
+        match start.and_then(|start| self.total_length.checked_sub(start)) {
+            None | Some(0) => bail!("piece index ({}) out of bounds", idx),
+            Some(remaining) => Ok(remaining.min(self.piece_length as u64) as usize),
+        }
+    }
+
     pub fn add_block_data(
         &mut self,
         piece_idx: usize,
         block_idx: usize,
         block_data: Vec<u8>,
     ) -> AddBlockRes {
-        if let Err(e) = self.check_block_bounds(block_idx, &block_data) {
-            error!(?e);
-            return AddBlockRes::Failed;
-        };
-
         let mut data = self.data.lock().unwrap();
 
         let Some(piece) = data.get_mut(&piece_idx) else {
@@ -105,6 +111,11 @@ impl PendingPieces {
             return AddBlockRes::Failed;
         };
 
+        if let Err(e) = piece.check_block_bounds(block_idx, &block_data) {
+            error!(?e);
+            return AddBlockRes::Failed;
+        };
+
         let block = &mut piece.data[block_idx];
 
         if let Block::Downloaded(_) = block {
@@ -115,7 +126,7 @@ impl PendingPieces {
         *block = Block::Downloaded(block_data);
         piece.downloaded += 1;
 
-        if self.blocks_per_piece == piece.downloaded {
+        if piece.data.len() == piece.downloaded {
             let finished_piece = data.remove(&piece_idx).unwrap();
             AddBlockRes::AddedLast(FinishedPiece {
                 data: finished_piece.data.into_iter().map(|b| b.into()).collect(),
@@ -197,8 +208,11 @@ impl PendingPieces {
                     time_sent: now,
                 });
 
-                *block_address =
-                    BlockAddress::new(block_address.piece_idx, block_address.block_idx);
+                *block_address = BlockAddress::new(
+                    block_address.piece_idx,
+                    block_address.block_idx,
+                    block_address.length,
+                );
             }
 
             true
@@ -212,36 +226,55 @@ impl PendingPieces {
     ) -> impl Iterator<Item = (&'a mut Block, BlockAddress)> + 'a {
         data.iter_mut()
             .filter_map(move |(piece_idx, piece)| {
+                let piece_length = piece.length;
+
                 piece_indexes.contains(piece_idx).then_some(
                     piece
                         .data
                         .iter_mut()
                         .enumerate()
                         .filter_map(move |(block_idx, block)| {
-                            filter_closure(block)
-                                .then_some((block, BlockAddress::new(*piece_idx, block_idx)))
+                            filter_closure(block).then_some((
+                                block,
+                                BlockAddress::new(
+                                    *piece_idx,
+                                    block_idx,
+                                    BLOCK_SIZE.min(piece_length - block_idx * BLOCK_SIZE),
+                                ),
+                            ))
                         }),
                 )
             })
             .flatten()
     }
+}
+
+impl Piece {
+    fn new(size: usize) -> Self {
+        let piece_count = unsigned_ceil_div!(size, BLOCK_SIZE);
+        let data = vec![Block::default(); piece_count];
+
+        Self {
+            length: size,
+            downloaded: 0,
+            data,
+        }
+    }
+
+    fn length_of_block(&self, block_idx: usize) -> usize {
+        BLOCK_SIZE.min(self.length - block_idx * BLOCK_SIZE)
+    }
 
     fn check_block_bounds(&self, block_idx: usize, data: &[u8]) -> Result<()> {
-        if block_idx >= self.blocks_per_piece {
+        if block_idx >= self.data.len() {
             bail!(
                 "block index ({}) out of bounds ({})",
                 block_idx,
-                self.blocks_per_piece
+                self.data.len()
             );
         }
 
-        let last_block_in_piece = block_idx + 1 == self.blocks_per_piece;
-
-        let block_size = if last_block_in_piece {
-            self.piece_length - block_idx * BLOCK_SIZE
-        } else {
-            BLOCK_SIZE
-        };
+        let block_size = self.length_of_block(block_idx);
 
         match block_size.cmp(&data.len()) {
             Ordering::Greater => Err(anyhow!(
@@ -259,18 +292,6 @@ impl PendingPieces {
     }
 }
 
-impl Piece {
-    fn new(size: usize) -> Self {
-        let piece_count = unsigned_ceil_div!(size, BLOCK_SIZE);
-        let data = vec![Block::default(); piece_count];
-
-        Self {
-            downloaded: 0,
-            data,
-        }
-    }
-}
-
 impl Default for Block {
     fn default() -> Self {
         Self::Unbegun
diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index d1b20e7..7b8be62 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -94,6 +94,7 @@ impl TorrentManager {
                     own_peer_id,
                     metainfo.info_hash,
                     metainfo.info.piece_length as usize,
+                    metainfo.info.length(),
                     dht_tx,
                 ),
                 fs: FS::new("/home/gvelesa/rust/narpath", metainfo.info.to_owned()).await,
-- 
2.43.0


From df3cd479519b2262b332045d0456ac5625b2a467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 46/69] fix: start a piece only if there's room for it among
 the pending ones

---
 src/peers/connection/connection_handle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index d88d752..38ddedf 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -178,12 +178,12 @@ impl Connection {
         match self.peers.get(&peer) {
             None => bail!("peer {:?} is not connected", peer),
             Some(peer_connection) => {
+                self.pending_pieces.add_piece(piece_idx)?;
+
                 peer_connection
                     .download_new_piece_tx
                     .send(PeerManagerCommand::StartPiece((piece_hash, piece_idx)))
                     .await?;
-
-                self.pending_pieces.add_piece(piece_idx);
             }
         }
 
-- 
2.43.0


From ccde27da8b3b6e87d302be3ef425747f2c751f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 47/69] fix: ignore pieces that don't exist in have messages

---
 src/torrent_manager.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 7b8be62..77924b0 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -283,6 +283,9 @@ impl TorrentManager {
                     .entry(peer)
                     .and_modify(|peer_info| peer_info.interested = false);
             }
+            ConMessageType::Have(piece_idx) if piece_idx as usize >= self.frequency_map.len() => {
+                warn!("{:?} has piece {} that doesn't exist", peer, piece_idx);
+            }
             ConMessageType::Have(piece_idx) => {
                 if let Occupied(mut peer_info) = self.active_peers.entry(peer) {
                     let old_have = peer_info.get_mut().haves.change(piece_idx as usize, true);
-- 
2.43.0


From aace27b8330c2fc2c9ca7a9f6c3a59eb731331ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 48/69] fix: store finished pieces and survive requests instead
 of panicking

---
 src/peers/connection/connection_handle.rs | 10 ++++++
 src/peers/connection/pending_pieces.rs    |  4 +++
 src/torrent_manager.rs                    | 42 +++++++++++++++++++----
 3 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 38ddedf..3616f61 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -190,6 +190,16 @@ impl Connection {
         Ok(())
     }
 
+    pub fn abandon_piece(&mut self, piece_idx: usize) {
+        self.pending_pieces.remove_piece(piece_idx);
+
+        for peer_connection in self.peers.values() {
+            let _ = peer_connection
+                .download_new_piece_tx
+                .try_send(PeerManagerCommand::StopPiece(piece_idx));
+        }
+    }
+
     pub async fn choke(&self, yn: bool, peer: Peer) -> Result<()> {
         let message = if yn { Message::Choke } else { Message::Unchoke };
 
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 4012c31..14d3fbb 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -88,6 +88,10 @@ impl PendingPieces {
         Ok(())
     }
 
+    pub fn remove_piece(&mut self, idx: usize) {
+        self.data.lock().unwrap().remove(&idx);
+    }
+
     // the last piece can be shorter than the others
     fn length_of_piece(&self, idx: usize) -> Result<usize> {
         let start = (idx as u64).checked_mul(self.piece_length as u64);
diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 77924b0..89a981f 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -1,8 +1,9 @@
 use crate::data_structures::{Bitmap, ID};
-use crate::fs::FS;
+use crate::fs::{Fs, FS};
 use crate::peers::active_peers::{Peers, Status as PeerStatus};
 use crate::peers::connection::connection_handle::Connection;
 use crate::peers::connection::connection_manager::{ConMessageType, ConnectionMessage};
+use crate::peers::connection::pending_pieces::FinishedPiece;
 use crate::peers::peer::Peer;
 use crate::transcoding::metainfo::Torrent;
 use crate::{shutdown, tracker};
@@ -120,7 +121,7 @@ impl TorrentManager {
 
         loop {
             select! {
-                msg = self.connection.recv() => { self.handle_command_tmp(msg) },
+                msg = self.connection.recv() => { self.handle_command_tmp(msg).await },
                 _ = interval.tick() => {
                     self.refresh_peer_list();
                     self.start_downloading_new_pieces().await;
@@ -254,7 +255,7 @@ impl TorrentManager {
         Some(peer)
     }
 
-    fn handle_command_tmp(&mut self, con_msg: ConnectionMessage) {
+    async fn handle_command_tmp(&mut self, con_msg: ConnectionMessage) {
         let ConnectionMessage { message, peer } = con_msg;
 
         match message {
@@ -297,12 +298,41 @@ impl TorrentManager {
             ConMessageType::Bitfield(bitfield) => {
                 self.accept_bitfield_if_its_first(bitfield.as_ref(), peer)
             }
-            ConMessageType::Request(_) => todo!(),
-            ConMessageType::FinishedPiece(_) => todo!(),
-            ConMessageType::Cancel(_) => todo!(),
+            // every peer is choked for now, their requests are discarded
+            ConMessageType::Request(_) => (),
+            ConMessageType::FinishedPiece(piece) => self.store_piece(piece).await,
+            ConMessageType::Cancel(_) => (),
         }
     }
 
+    async fn store_piece(&mut self, piece: FinishedPiece) {
+        let piece_idx = piece.idx;
+
+        self.release_piece(piece_idx);
+
+        if self.local_data.get(piece_idx) {
+            return;
+        }
+
+        match self.fs.write_piece(piece).await {
+            Ok(_) => {
+                self.local_data.change(piece_idx, true);
+            }
+            Err(e) => error!(?e),
+        }
+    }
+
+    fn release_piece(&mut self, piece_idx: usize) {
+        self.active_pieces.change(piece_idx, false);
+        self.assigned_peer_count[piece_idx] = 0;
+
+        for peer_info in self.active_peers.values_mut() {
+            peer_info.working.change(piece_idx, false);
+        }
+
+        self.connection.abandon_piece(piece_idx);
+    }
+
     fn mark_peer_as_inactive(&mut self, peer: Peer, status: PeerStatus) {
         if let Some(peer_info) = self.active_peers.remove(&peer) {
             self.inactive_peers.push((peer, status));
-- 
2.43.0


From e4590f64ac44299ab00750a3c32599273f6244ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 49/69] fix: keep track of which peers work on which pieces

---
 src/torrent_manager.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 89a981f..bf195e6 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -182,7 +182,10 @@ impl TorrentManager {
             .or_insert(PeerInfo::new(self.active_pieces.len()));
 
         self.active_pieces.change(piece_idx, true);
-        peer_info.working.change(piece_idx, true);
+
+        if !peer_info.working.change(piece_idx, true) {
+            self.assigned_peer_count[piece_idx] += 1;
+        }
     }
 
     fn select_piece(&mut self) -> Option<(Peer, usize, ID)> {
@@ -249,6 +252,7 @@ impl TorrentManager {
         let (peer, _) = self.active_peers.iter().find(|(_, peer_info)| {
             !peer_info.choking
                 && peer_info.haves.get(piece_idx)
+                && !peer_info.working.get(piece_idx)
                 && peer_info.working.weight() == pieces_per_peer
         })?;
 
@@ -341,7 +345,19 @@ impl TorrentManager {
                 .iter_mut()
                 .zip(peer_info.haves.iter())
                 .filter(|(_, peer_has_piece)| *peer_has_piece)
-                .for_each(|(frequency, _)| *frequency -= 1)
+                .for_each(|(frequency, _)| *frequency -= 1);
+
+            for (piece_idx, is_working) in peer_info.working.iter().enumerate() {
+                if !is_working {
+                    continue;
+                }
+
+                self.assigned_peer_count[piece_idx] -= 1;
+
+                if self.assigned_peer_count[piece_idx] == 0 {
+                    self.release_piece(piece_idx);
+                }
+            }
         }
     }
 
-- 
2.43.0


From ec1bf47654e2eb46d54aa2c4d53093f9c01d7551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 50/69] fix: look further when nobody offers the first
 remaining piece

---
 src/torrent_manager.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index bf195e6..42e7577 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -220,24 +220,23 @@ impl TorrentManager {
     fn sequential_select_piece(&self) -> Option<(Peer, usize)> {
         let iter = self.iter_over_remaining_downloadable_pieces();
 
-        let mut iter_clone = iter.clone();
-
         let mut iteration_count = 0;
         let mut peers_per_piece = 0;
         let mut pieces_per_peer = 0;
 
         loop {
-            let x = iter_clone.find(|(piece_idx, _, _)| {
-                self.assigned_peer_count[*piece_idx] as usize == peers_per_piece
-            });
-
-            if let Some((piece_idx, _, _)) = x {
-                if let Some(peer) = self.find_peer_with_piece(piece_idx, pieces_per_peer) {
-                    break Some((peer.to_owned(), piece_idx));
-                }
+            let x = iter
+                .clone()
+                .filter(|(_, _, assigned_peers)| *assigned_peers as usize == peers_per_piece)
+                .find_map(|(piece_idx, _, _)| {
+                    self.find_peer_with_piece(piece_idx, pieces_per_peer)
+                        .map(|peer| (peer.to_owned(), piece_idx))
+                });
+
+            if x.is_some() {
+                break x;
             }
 
-            iter_clone = iter.clone();
             iteration_count += 1;
             pieces_per_peer = iteration_count % MAX_PIECE_PER_PEER;
             peers_per_piece = iteration_count / MAX_PIECE_PER_PEER;
-- 
2.43.0


From c263fd4927a11b0265959fd11731095eb52f951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 51/69] verif hook: scheduled mutex for the peer table and the
 pending pieces under cfg(nargun_verif)

---
 src/peers/active_peers.rs              |  6 +-
 src/peers/connection/pending_pieces.rs |  6 +-
 src/verif.rs                           | 78 ++++++++++++++++++++++++++
 3 files changed, 88 insertions(+), 2 deletions(-)

diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index 4837435..1777cf5 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -1,8 +1,12 @@
 use super::peer::Peer;
 use crate::data_structures::ID;
+#[cfg(nargun_verif)]
+use crate::verif::sync::Mutex as StdMutex;
 use std::collections::HashMap;
 use std::mem::discriminant;
-use std::sync::{Arc, Mutex as StdMutex};
+use std::sync::Arc;
+#[cfg(not(nargun_verif))]
+use std::sync::Mutex as StdMutex;
 
 const ENOUGH_GOOD_PEERS: usize = 1 << 7;
 
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 14d3fbb..0ebd569 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -1,11 +1,15 @@
 use crate::peers::peer::Peer;
 use crate::unsigned_ceil_div;
+#[cfg(nargun_verif)]
+use crate::verif::sync::Mutex as StdMutex;
 use anyhow::{anyhow, bail, Result};
 use rand::seq::SliceRandom;
 use rand::thread_rng;
 use std::cmp::Ordering;
 use std::collections::HashMap;
-use std::sync::{Arc, Mutex as StdMutex};
+use std::sync::Arc;
+#[cfg(not(nargun_verif))]
+use std::sync::Mutex as StdMutex;
 use std::time::Duration;
 
 use tokio::time::Instant;
diff --git a/src/verif.rs b/src/verif.rs
index 7d9d2ab..d20dedc 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -28,3 +28,81 @@ pub mod dht {
     pub use crate::dht::verif::*;
     pub use crate::dht::*;
 }
+
+/// A mutex that tells the harness before it is locked and after it is unlocked.
+pub mod sync {
+    use std::ops::{Deref, DerefMut};
+    use std::sync::{LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
+
+    pub static HOOKS: OnceLock<(fn(usize), fn(usize))> = OnceLock::new();
+
+    #[derive(Debug, Default)]
+    pub struct Mutex<T>(std::sync::Mutex<T>);
+
+    pub struct MutexGuard<'a, T> {
+        guard: Option<std::sync::MutexGuard<'a, T>>,
+        id: usize,
+    }
+
+    impl<T> Mutex<T> {
+        pub fn new(t: T) -> Self {
+            Self(std::sync::Mutex::new(t))
+        }
+
+        fn id(&self) -> usize {
+            self as *const Self as *const u8 as usize
+        }
+
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            if let Some((before_lock, _)) = HOOKS.get() {
+                before_lock(self.id());
+            }
+
+            match self.0.lock() {
+                Ok(guard) => Ok(self.wrap(guard)),
+                Err(e) => Err(PoisonError::new(self.wrap(e.into_inner()))),
+            }
+        }
+
+        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+            match self.0.try_lock() {
+                Ok(guard) => Ok(self.wrap(guard)),
+                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
+                    self.wrap(e.into_inner()),
+                ))),
+            }
+        }
+
+        fn wrap<'a>(&self, guard: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+            MutexGuard {
+                guard: Some(guard),
+                id: self.id(),
+            }
+        }
+    }
+
+    impl<T> Deref for MutexGuard<'_, T> {
+        type Target = T;
+
+        fn deref(&self) -> &T {
+            self.guard.as_ref().unwrap()
+        }
+    }
+
+    impl<T> DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.guard.as_mut().unwrap()
+        }
+    }
+
+    impl<T> Drop for MutexGuard<'_, T> {
+        fn drop(&mut self) {
+            self.guard = None;
+
+            if let Some((_, after_unlock)) = HOOKS.get() {
+                after_unlock(self.id);
+            }
+        }
+    }
+}
-- 
2.43.0


From 48ccfa78e404367d22852fa0300cafa0704145a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 52/69] verif hook: let the program itself build with the hook
 enabled

---
 src/main.rs                            |  2 +
 src/peers/active_peers.rs              |  2 +-
 src/peers/connection/pending_pieces.rs |  2 +-
 src/verif.rs                           | 76 +------------------------
 src/verif_sync.rs                      | 77 ++++++++++++++++++++++++++
 5 files changed, 82 insertions(+), 77 deletions(-)
 create mode 100644 src/verif_sync.rs

diff --git a/src/main.rs b/src/main.rs
index 3a080ce..35fe0bc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -10,6 +10,8 @@ mod shutdown;
 mod torrent_manager;
 mod tracker;
 mod transcoding;
+#[cfg(nargun_verif)]
+mod verif_sync;
 
 use crate::peers::active_peers::Peers;
 use anyhow::Result;
diff --git a/src/peers/active_peers.rs b/src/peers/active_peers.rs
index 1777cf5..f23819d 100644
--- a/src/peers/active_peers.rs
+++ b/src/peers/active_peers.rs
@@ -1,7 +1,7 @@
 use super::peer::Peer;
 use crate::data_structures::ID;
 #[cfg(nargun_verif)]
-use crate::verif::sync::Mutex as StdMutex;
+use crate::verif_sync::Mutex as StdMutex;
 use std::collections::HashMap;
 use std::mem::discriminant;
 use std::sync::Arc;
diff --git a/src/peers/connection/pending_pieces.rs b/src/peers/connection/pending_pieces.rs
index 0ebd569..76fbf25 100644
--- a/src/peers/connection/pending_pieces.rs
+++ b/src/peers/connection/pending_pieces.rs
@@ -1,7 +1,7 @@
 use crate::peers::peer::Peer;
 use crate::unsigned_ceil_div;
 #[cfg(nargun_verif)]
-use crate::verif::sync::Mutex as StdMutex;
+use crate::verif_sync::Mutex as StdMutex;
 use anyhow::{anyhow, bail, Result};
 use rand::seq::SliceRandom;
 use rand::thread_rng;
diff --git a/src/verif.rs b/src/verif.rs
index d20dedc..200ea51 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -29,80 +29,6 @@ pub mod dht {
     pub use crate::dht::*;
 }
 
-/// A mutex that tells the harness before it is locked and after it is unlocked.
 pub mod sync {
-    use std::ops::{Deref, DerefMut};
-    use std::sync::{LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
-
-    pub static HOOKS: OnceLock<(fn(usize), fn(usize))> = OnceLock::new();
-
-    #[derive(Debug, Default)]
-    pub struct Mutex<T>(std::sync::Mutex<T>);
-
-    pub struct MutexGuard<'a, T> {
-        guard: Option<std::sync::MutexGuard<'a, T>>,
-        id: usize,
-    }
-
-    impl<T> Mutex<T> {
-        pub fn new(t: T) -> Self {
-            Self(std::sync::Mutex::new(t))
-        }
-
-        fn id(&self) -> usize {
-            self as *const Self as *const u8 as usize
-        }
-
-        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
-            if let Some((before_lock, _)) = HOOKS.get() {
-                before_lock(self.id());
-            }
-
-            match self.0.lock() {
-                Ok(guard) => Ok(self.wrap(guard)),
-                Err(e) => Err(PoisonError::new(self.wrap(e.into_inner()))),
-            }
-        }
-
-        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
-            match self.0.try_lock() {
-                Ok(guard) => Ok(self.wrap(guard)),
-                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
-                Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
-                    self.wrap(e.into_inner()),
-                ))),
-            }
-        }
-
-        fn wrap<'a>(&self, guard: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
-            MutexGuard {
-                guard: Some(guard),
-                id: self.id(),
-            }
-        }
-    }
-
-    impl<T> Deref for MutexGuard<'_, T> {
-        type Target = T;
-
-        fn deref(&self) -> &T {
-            self.guard.as_ref().unwrap()
-        }
-    }
-
-    impl<T> DerefMut for MutexGuard<'_, T> {
-        fn deref_mut(&mut self) -> &mut T {
-            self.guard.as_mut().unwrap()
-        }
-    }
-
-    impl<T> Drop for MutexGuard<'_, T> {
-        fn drop(&mut self) {
-            self.guard = None;
-
-            if let Some((_, after_unlock)) = HOOKS.get() {
-                after_unlock(self.id);
-            }
-        }
-    }
+    pub use crate::verif_sync::*;
 }
diff --git a/src/verif_sync.rs b/src/verif_sync.rs
new file mode 100644
index 0000000..0ca6f7f
--- /dev/null
+++ b/src/verif_sync.rs
@@ -0,0 +1,77 @@
+//! A mutex that tells the harness before it is locked and after it is unlocked
+//! (compiled only with `--cfg nargun_verif`).
+
+use std::ops::{Deref, DerefMut};
+use std::sync::{LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
+
+pub static HOOKS: OnceLock<(fn(usize), fn(usize))> = OnceLock::new();
+
+#[derive(Debug, Default)]
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+pub struct MutexGuard<'a, T> {
+    guard: Option<std::sync::MutexGuard<'a, T>>,
+    id: usize,
+}
+
+impl<T> Mutex<T> {
+    pub fn new(t: T) -> Self {
+        Self(std::sync::Mutex::new(t))
+    }
+
+    fn id(&self) -> usize {
+        self as *const Self as *const u8 as usize
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        if let Some((before_lock, _)) = HOOKS.get() {
+            before_lock(self.id());
+        }
+
+        match self.0.lock() {
+            Ok(guard) => Ok(self.wrap(guard)),
+            Err(e) => Err(PoisonError::new(self.wrap(e.into_inner()))),
+        }
+    }
+
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        match self.0.try_lock() {
+            Ok(guard) => Ok(self.wrap(guard)),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
+                self.wrap(e.into_inner()),
+            ))),
+        }
+    }
+
+    fn wrap<'a>(&self, guard: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
+        MutexGuard {
+            guard: Some(guard),
+            id: self.id(),
+        }
+    }
+}
+
+impl<T> Deref for MutexGuard<'_, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.guard.as_ref().unwrap()
+    }
+}
+
+impl<T> DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.guard.as_mut().unwrap()
+    }
+}
+
+impl<T> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        self.guard = None;
+
+        if let Some((_, after_unlock)) = HOOKS.get() {
+            after_unlock(self.id);
+        }
+    }
+}
-- 
2.43.0


From d7de0f0ae05f2f73faba1db5527718a89b1f1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:20 +0000
Subject: [PATCH 53/69] fix: don't report a locally disconnected peer as
 disconnected

---
 src/peers/connection/connection_manager.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 0c6a170..56743a3 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -81,6 +81,7 @@ async fn manage_tcp(
     let (read_stream, write_stream) = split(&mut stream);
 
     select! {
+        biased;
         _ = shutdown_rx.recv() => return,
         _ = manager_sender(write_stream, send_rx) => {},
         _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, &peer_handler) => {},
-- 
2.43.0


From ca63724792b545cb53e192af5fe9196238fafb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:25 +0000
Subject: [PATCH 54/69] fix: handle what a peer sent before the connection
 broke also when sending fails first

---
 src/peers/connection/connection_manager.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index 56743a3..a989ea0 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -109,9 +109,12 @@ async fn manager_sender(
 
         if let Err(e) = stream.write_all(message.into_bytes().as_ref()).await {
             error!(?e);
-            return;
+            break;
         }
     }
+    // receiver still has to handle what arrived before the connection broke, then it notices the end too
+    drop(send_rx);
+    std::future::pending().await
 }
 
 async fn manager_receiver(
-- 
2.43.0


From 6a4b07abeb839fc54770f04545a6f1ed88851c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:47 +0000
Subject: [PATCH 55/69] fix: let shutdown receivers cloned after the signal
 observe it too

---
 src/shutdown.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/shutdown.rs b/src/shutdown.rs
index f1aa3f1..2ba9a76 100644
--- a/src/shutdown.rs
+++ b/src/shutdown.rs
@@ -1,13 +1,14 @@
-use tokio::sync::{broadcast, mpsc};
+use std::future::pending;
+use tokio::sync::{mpsc, watch};
 
 pub fn channel() -> (Sender, Receiver) {
-    let (broadcast_tx, _) = broadcast::channel(1);
+    let (signal_tx, signal_rx) = watch::channel(false);
 
     let (tx, rx) = mpsc::channel(1);
     let waiter = AliveTaskWaiter(rx);
 
-    let s = Sender::new(broadcast_tx.clone(), waiter);
-    let r = Receiver::new(broadcast_tx, tx);
+    let s = Sender::new(signal_tx, waiter);
+    let r = Receiver::new(signal_rx, tx);
 
     (s, r)
 }
@@ -22,47 +23,49 @@ impl AliveTaskWaiter {
 }
 
 pub struct Sender {
-    sender: broadcast::Sender<()>,
+    sender: watch::Sender<bool>,
     waiter: AliveTaskWaiter,
 }
 
 impl Sender {
-    fn new(sender: broadcast::Sender<()>, waiter: AliveTaskWaiter) -> Self {
+    fn new(sender: watch::Sender<bool>, waiter: AliveTaskWaiter) -> Self {
         Self { sender, waiter }
     }
 
     pub fn send(self) -> AliveTaskWaiter {
-        let _ = self.sender.send(());
+        let _ = self.sender.send(true);
         self.waiter
     }
 }
 
 #[derive(Debug)]
 pub struct Receiver {
-    sender: broadcast::Sender<()>,
-    receiver: broadcast::Receiver<()>,
+    receiver: watch::Receiver<bool>,
     alive_marker: HolderStillAlive,
 }
 
 impl Receiver {
-    fn new(sender: broadcast::Sender<()>, alive_marker: HolderStillAlive) -> Self {
+    fn new(receiver: watch::Receiver<bool>, alive_marker: HolderStillAlive) -> Self {
         Self {
-            receiver: sender.subscribe(),
-            sender,
+            receiver,
             alive_marker,
         }
     }
 
     pub async fn recv(&mut self) {
-        self.receiver.recv().await.unwrap()
+        while !*self.receiver.borrow() {
+            if self.receiver.changed().await.is_err() {
+                // sender is gone without a signal, so there won't be any
+                pending().await
+            }
+        }
     }
 }
 
 impl Clone for Receiver {
     fn clone(&self) -> Self {
         Self {
-            sender: self.sender.clone(),
-            receiver: self.sender.subscribe(),
+            receiver: self.receiver.clone(),
             alive_marker: self.alive_marker.clone(),
         }
     }
-- 
2.43.0


From 1538629b81fec64217cf198d2f889b095b98f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 56/69] fix: start on a download directory that already exists
 and keep what is in it

---
 src/fs/multi_file_rw.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fs/multi_file_rw.rs b/src/fs/multi_file_rw.rs
index 901c99b..e007fc7 100644
--- a/src/fs/multi_file_rw.rs
+++ b/src/fs/multi_file_rw.rs
@@ -156,6 +156,7 @@ mod dir_builder {
     use crate::transcoding::metainfo;
     use anyhow::{bail, Result};
     use std::collections::HashSet;
+    use std::io::ErrorKind;
     use tokio::fs::{remove_dir_all, DirBuilder};
 
     pub async fn build_dir_tree(
@@ -173,11 +174,18 @@ mod dir_builder {
     async fn create_dirs(working_dir: &str, dirs: &[String]) -> Result<()> {
         let mut builder = DirBuilder::new();
 
-        builder.recursive(false).create(working_dir).await?;
+        // it may be there since an earlier session, with data that has to stay
+        let is_new = match builder.recursive(false).create(working_dir).await {
+            Ok(_) => true,
+            Err(e) if e.kind() == ErrorKind::AlreadyExists => false,
+            Err(e) => bail!(e),
+        };
 
         for dir in dirs.iter() {
-            if let Err(e) = builder.recursive(false).create(dir).await {
-                remove_dir_all(working_dir).await?;
+            if let Err(e) = builder.recursive(true).create(dir).await {
+                if is_new {
+                    remove_dir_all(working_dir).await?;
+                }
                 bail!(e);
             }
         }
-- 
2.43.0


From eb13e68d8e4bc3a7c753ad478bcd18360fc39856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 57/69] fix: tell the trackers about stored pieces and the
 completed download

---
 src/torrent_manager.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 42e7577..8bfc6ff 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -10,7 +10,7 @@ use crate::{shutdown, tracker};
 use std::collections::hash_map::Entry::Occupied;
 use std::collections::HashMap;
 use std::net::SocketAddrV4;
-use std::sync::atomic::AtomicU64;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::broadcast;
@@ -36,13 +36,20 @@ pub fn start_client(
         &torrent,
         &own_peer_id,
         &peers,
-        pieces_downloaded,
+        pieces_downloaded.clone(),
         tx,
         tcp_port,
         shutdown_rx,
     );
 
-    TorrentManager::spawn(torrent, own_peer_id, peers, dht_tx);
+    TorrentManager::spawn(
+        torrent,
+        own_peer_id,
+        peers,
+        dht_tx,
+        pieces_downloaded,
+        tx.clone(),
+    );
 }
 
 // TODO ideally this must have its own Torrent with its peers and shit. Currently, my dht assumes just one torrent.
@@ -60,6 +67,8 @@ pub struct TorrentManager {
     active_pieces: Bitmap,
     frequency_map: Vec<u16>,
     assigned_peer_count: Vec<u8>,
+    pieces_downloaded: Arc<AtomicU64>,
+    download_completed_tx: broadcast::Sender<()>,
 }
 
 struct PeerInfo {
@@ -86,6 +95,8 @@ impl TorrentManager {
         own_peer_id: ID,
         peers: Peers,
         dht_tx: mpsc::Sender<SocketAddrV4>,
+        pieces_downloaded: Arc<AtomicU64>,
+        download_completed_tx: broadcast::Sender<()>,
     ) {
         tokio::spawn(async move {
             // let metainfo = Arc::new(metainfo);
@@ -107,6 +118,8 @@ impl TorrentManager {
                 active_pieces: Bitmap::new(metainfo.count_pieces()),
                 frequency_map: vec![0; metainfo.count_pieces()],
                 assigned_peer_count: vec![0; metainfo.count_pieces()],
+                pieces_downloaded,
+                download_completed_tx,
                 metainfo,
             }
             .manage()
@@ -320,6 +333,12 @@ impl TorrentManager {
         match self.fs.write_piece(piece).await {
             Ok(_) => {
                 self.local_data.change(piece_idx, true);
+                self.pieces_downloaded.fetch_add(1, Ordering::Relaxed);
+
+                if self.local_data.weight() == self.local_data.len() {
+                    // error means that no tracker is interested
+                    let _ = self.download_completed_tx.send(());
+                }
             }
             Err(e) => error!(?e),
         }
-- 
2.43.0


From 22045682cfcdbcbc347de3a2663bda028922a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:31 +0000
Subject: [PATCH 58/69] fix: tell peers that have missing pieces that we're
 interested in them

---
 src/torrent_manager.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 8bfc6ff..160f301 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -74,6 +74,7 @@ pub struct TorrentManager {
 struct PeerInfo {
     choking: bool,
     interested: bool,
+    knows_own_interest: bool,
     haves: Bitmap,
     working: Bitmap,
 }
@@ -83,6 +84,7 @@ impl PeerInfo {
         Self {
             choking: true,
             interested: false,
+            knows_own_interest: false,
             haves: Bitmap::new(piece_count),
             working: Bitmap::new(piece_count),
         }
@@ -310,9 +312,12 @@ impl TorrentManager {
                         self.frequency_map[piece_idx as usize] += 1;
                     }
                 }
+
+                self.show_interest(peer).await;
             }
             ConMessageType::Bitfield(bitfield) => {
-                self.accept_bitfield_if_its_first(bitfield.as_ref(), peer)
+                self.accept_bitfield_if_its_first(bitfield.as_ref(), peer);
+                self.show_interest(peer).await;
             }
             // every peer is choked for now, their requests are discarded
             ConMessageType::Request(_) => (),
@@ -321,6 +326,31 @@ impl TorrentManager {
         }
     }
 
+    // peers unchoke only those who told them that they're interested
+    async fn show_interest(&mut self, peer: Peer) {
+        let Some(peer_info) = self.active_peers.get_mut(&peer) else {
+            return;
+        };
+
+        if peer_info.knows_own_interest {
+            return;
+        }
+
+        peer_info.knows_own_interest = peer_info
+            .haves
+            .iter()
+            .zip(self.local_data.iter())
+            .any(|(peer_has_it, stored)| peer_has_it && !stored);
+
+        if !peer_info.knows_own_interest {
+            return;
+        }
+
+        if let Err(e) = self.connection.interested(true, peer).await {
+            warn!(?e);
+        }
+    }
+
     async fn store_piece(&mut self, piece: FinishedPiece) {
         let piece_idx = piece.idx;
 
-- 
2.43.0


From 5d01724d557934018ba34db1a569b61514c0b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:46 +0000
Subject: [PATCH 59/69] fix: keep handling commands and blocks of a peer that
 doesn't take its requests

---
 src/peers/connection/downloader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/peers/connection/downloader.rs b/src/peers/connection/downloader.rs
index aa9911d..47dfd42 100644
--- a/src/peers/connection/downloader.rs
+++ b/src/peers/connection/downloader.rs
@@ -125,8 +125,10 @@ async fn manage_piece_downloader(
             .iter_mut()
             .filter(|block| block.status == BlockStatus::Queued)
         {
-            if let Err(e) = send_tx.send(Message::Request((*queued_block).into())).await {
+            // peer that doesn't take its messages mustn't keep commands and blocks from being handled
+            if let Err(e) = send_tx.try_send(Message::Request((*queued_block).into())) {
                 warn!(?e);
+                break;
             }
 
             queued_block.status = BlockStatus::Requested;
-- 
2.43.0


From e583aef01abea7a92c6dd5dad2cc80fd2fe21bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:23 +0000
Subject: [PATCH 60/69] fix: don't take an answer from another address for a
 sign of life of a known node

---
 src/dht/routing_table/table.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 10a4179..41c7a4f 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -136,8 +136,15 @@ impl RoutingTable {
 
         let bucket = self.get_bucket_mut(&id);
 
+        let is_live = bucket.iter_over_goods().any(|node| node.id == id);
+
         if let Some(node) = bucket.get_node_mut(&id) {
-            node.touch();
+            if node.addr == addr {
+                node.touch();
+            } else if !is_live {
+                // it fell silent at the old address
+                *node = Node::new_good(id, addr);
+            }
         } else {
             self.insert_new_good(id, addr);
         }
-- 
2.43.0


From 73bd1847686c5fa9c4b4ad2dce2c0993c3755eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:49 +0000
Subject: [PATCH 61/69] fix: search on from the nodes of a response that
 carries peers, too

---
 src/dht/krpc_message.rs |  1 +
 src/dht/peer_fetcher.rs | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/dht/krpc_message.rs b/src/dht/krpc_message.rs
index c5c30b6..44af99a 100644
--- a/src/dht/krpc_message.rs
+++ b/src/dht/krpc_message.rs
@@ -95,6 +95,7 @@ pub enum Error {
 #[derive(Debug, Deserialize, Serialize)]
 #[serde(untagged)]
 pub enum ValuesOrNodes {
+    ValuesAndNodes { values: Vec<Peer>, nodes: Nodes },
     Values { values: Vec<Peer> },
     Nodes { nodes: Nodes },
 }
diff --git a/src/dht/peer_fetcher.rs b/src/dht/peer_fetcher.rs
index 9b11eeb..3cfaf0b 100644
--- a/src/dht/peer_fetcher.rs
+++ b/src/dht/peer_fetcher.rs
@@ -99,6 +99,16 @@ async fn fetch_peers(
         };
 
         match values_or_nodes {
+            ValuesOrNodes::ValuesAndNodes { values, nodes } => {
+                peers.extend(values.into_iter());
+
+                *active_node = NodeCloseToInfoHash::HasPeers {
+                    id: active_node.id(),
+                    token,
+                };
+
+                get_peers_from_new_nodes(*info_hash, nodes, active_nodes, connection).await?;
+            }
             ValuesOrNodes::Values { values } => {
                 peers.extend(values.into_iter());
 
-- 
2.43.0


From fd0ded0ad2880db5e25f1cb5f875eb65db5cc35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:57 +0000
Subject: [PATCH 62/69] fix: accept bitfields of torrents with more than 130
 thousand pieces

---
 src/peers/connection/connection_handle.rs  |  3 +++
 src/peers/connection/connection_manager.rs | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/peers/connection/connection_handle.rs b/src/peers/connection/connection_handle.rs
index 3616f61..83ec393 100644
--- a/src/peers/connection/connection_handle.rs
+++ b/src/peers/connection/connection_handle.rs
@@ -19,6 +19,7 @@ const MESSAGE_CHANNEL_BUFFER: usize = 1 << 5;
 pub struct Connection {
     own_peer_id: ID,
     info_hash: ID,
+    piece_count: usize,
     pending_pieces: PendingPieces,
     peers: HashMap<Peer, PeerConnection>,
     rec: mpsc::Receiver<ConnectionMessage>,
@@ -85,6 +86,7 @@ impl Connection {
 
         Self {
             info_hash,
+            piece_count: (total_length as usize).div_ceil(piece_length),
             own_peer_id,
             dht_handler,
             pending_pieces: PendingPieces::new(piece_length, total_length),
@@ -117,6 +119,7 @@ impl Connection {
             self.own_peer_id,
             peer,
             self.info_hash,
+            self.piece_count,
             downloaded_block_tx,
             self.dht_handler.clone(),
             self.rec_tx.clone(),
diff --git a/src/peers/connection/connection_manager.rs b/src/peers/connection/connection_manager.rs
index a989ea0..c9bcbcc 100644
--- a/src/peers/connection/connection_manager.rs
+++ b/src/peers/connection/connection_manager.rs
@@ -17,14 +17,19 @@ use tracing::{error, instrument, warn};
 
 pub const BLOCK_SIZE: usize = 1 << 14;
 pub const DESCRIPTIVE_DATA_SIZE: usize = 1 << 7;
-pub const MAX_MESSAGE_BYTES: usize = BLOCK_SIZE + DESCRIPTIVE_DATA_SIZE;
 pub const KEEP_ALIVE_INTERVAL_SECS: u64 = 100;
 const HANDSHAKE_TIMEOUT_SECS: u64 = 1 << 4;
 
+// longest ones are piece with a whole block and, if the torrent has lots of pieces, bitfield
+fn max_message_bytes(piece_count: usize) -> usize {
+    std::cmp::max(BLOCK_SIZE, piece_count.div_ceil(u8::BITS as usize)) + DESCRIPTIVE_DATA_SIZE
+}
+
 pub fn spawn_connection_manager(
     own_peer_id: ID,
     peer: Peer,
     info_hash: ID,
+    piece_count: usize,
     piece_handler: mpsc::Sender<Piece>,
     dht_handler: mpsc::Sender<SocketAddrV4>,
     peer_handler: mpsc::Sender<ConnectionMessage>,
@@ -36,6 +41,7 @@ pub fn spawn_connection_manager(
             own_peer_id,
             peer,
             info_hash,
+            piece_count,
             piece_handler,
             dht_handler,
             peer_handler,
@@ -51,6 +57,7 @@ async fn manage_tcp(
     own_peer_id: ID,
     peer: Peer,
     info_hash: ID,
+    piece_count: usize,
     piece_handler: mpsc::Sender<Piece>,
     dht_handler: mpsc::Sender<SocketAddrV4>,
     peer_handler: mpsc::Sender<ConnectionMessage>,
@@ -84,7 +91,7 @@ async fn manage_tcp(
         biased;
         _ = shutdown_rx.recv() => return,
         _ = manager_sender(write_stream, send_rx) => {},
-        _ = manager_receiver(peer, read_stream, piece_handler, dht_handler, &peer_handler) => {},
+        _ = manager_receiver(peer, piece_count, read_stream, piece_handler, dht_handler, &peer_handler) => {},
     };
 
     let _ = peer_handler
@@ -119,12 +126,14 @@ async fn manager_sender(
 
 async fn manager_receiver(
     peer: Peer,
+    piece_count: usize,
     mut stream: ReadHalf<&mut TcpStream>,
     piece_handler: mpsc::Sender<Piece>,
     dht_handler: mpsc::Sender<SocketAddrV4>,
     peer_handler: &mpsc::Sender<ConnectionMessage>,
 ) {
-    let mut buf = vec![0u8; MAX_MESSAGE_BYTES];
+    let max_message_len = max_message_bytes(piece_count);
+    let mut buf = vec![0u8; max_message_len];
     let mut data_start = 0;
     let mut data_len = 0;
 
@@ -141,7 +150,7 @@ async fn manager_receiver(
         while data_len >= BYTES_IN_LEN_PREFIX {
             let message_len = Message::len(&buf[data_start..]) + BYTES_IN_LEN_PREFIX;
 
-            if message_len > MAX_MESSAGE_BYTES {
+            if message_len > max_message_len {
                 error!("message of {message_len} bytes is too long");
                 return;
             }
-- 
2.43.0


From 2147b728bd10a20e03e6b13ff1206c78ef6c7010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:34 +0000
Subject: [PATCH 63/69] fix: ask nodes that fell silent again, else the DHT
 stays lost after an outage

---
 src/dht/dht_manager.rs         | 17 ++++++++++++-----
 src/dht/routing_table/table.rs |  7 +++++++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/dht/dht_manager.rs b/src/dht/dht_manager.rs
index 395ccf2..d21cb23 100644
--- a/src/dht/dht_manager.rs
+++ b/src/dht/dht_manager.rs
@@ -87,6 +87,13 @@ async fn refresh_table(
     routing_table: &RoutingTable,
     connection: &Connection,
 ) -> Result<(), ConError> {
+    if routing_table.count_good_nodes() == 0 {
+        // nobody's left to ask for nodes, but those that fell silent might be back
+        for addr in routing_table.iter_nodes().map(|node| node.addr) {
+            connection.send_ping(addr).await?;
+        }
+    }
+
     for rand_id in routing_table.iter_over_ids_within_fillable_buckets() {
         if let Some(closest_node) = routing_table.get_closest_node(&rand_id) {
             connection
@@ -211,7 +218,7 @@ async fn process_resp(
         FromConResp::Touch { id, from } => routing_table.touch_node(id, from),
         FromConResp::NewNodes { nodes, from, id } => {
             routing_table.touch_node(id, from);
-            ping_unknown_nodes(nodes, connection, routing_table).await?
+            ping_nodes_not_known_good(nodes, connection, routing_table).await?
         }
         _ => warn!("received response to get_peers message, but it is never sent from here"),
     }
@@ -219,17 +226,17 @@ async fn process_resp(
     Ok(())
 }
 
-async fn ping_unknown_nodes(
+async fn ping_nodes_not_known_good(
     nodes: Nodes,
     connection: &Connection,
     routing_table: &RoutingTable,
 ) -> Result<(), ConError> {
-    let unknown_node_addresses: Vec<SocketAddrV4> = nodes
+    let node_addresses: Vec<SocketAddrV4> = nodes
         .iter()
-        .filter_map(|node| (!routing_table.contains_node(&node.id)).then_some(node.addr))
+        .filter_map(|node| (!routing_table.contains_good_node(&node.id)).then_some(node.addr))
         .collect();
 
-    for node_addr in unknown_node_addresses {
+    for node_addr in node_addresses {
         connection.send_ping(node_addr).await?;
     }
 
diff --git a/src/dht/routing_table/table.rs b/src/dht/routing_table/table.rs
index 41c7a4f..d99bbbd 100644
--- a/src/dht/routing_table/table.rs
+++ b/src/dht/routing_table/table.rs
@@ -150,6 +150,13 @@ impl RoutingTable {
         }
     }
 
+    pub fn contains_good_node(&self, id: &ID) -> bool {
+        self.get_bucket(id)
+            .iter_over_goods()
+            .any(|node| node.id == *id)
+    }
+
+    #[allow(dead_code)] // only tests look for any node, live or not
     pub fn contains_node(&self, id: &ID) -> bool {
         self.get_bucket(id).contains(id)
     }
-- 
2.43.0


From de164f5107dc8eea59dc7a9cf3b16cbcf5be7db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:58 +0000
Subject: [PATCH 64/69] fix: select pieces of torrents with lots of pieces in
 reasonable time

---
 src/torrent_manager.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/torrent_manager.rs b/src/torrent_manager.rs
index 160f301..e512824 100644
--- a/src/torrent_manager.rs
+++ b/src/torrent_manager.rs
@@ -240,11 +240,13 @@ impl TorrentManager {
         let mut pieces_per_peer = 0;
 
         loop {
+            let candidates = self.unchoking_peers_with_load(pieces_per_peer);
+
             let x = iter
                 .clone()
                 .filter(|(_, _, assigned_peers)| *assigned_peers as usize == peers_per_piece)
                 .find_map(|(piece_idx, _, _)| {
-                    self.find_peer_with_piece(piece_idx, pieces_per_peer)
+                    Self::find_peer_with_piece(&candidates, piece_idx)
                         .map(|peer| (peer.to_owned(), piece_idx))
                 });
 
@@ -262,12 +264,22 @@ impl TorrentManager {
         }
     }
 
-    fn find_peer_with_piece(&self, piece_idx: usize, pieces_per_peer: usize) -> Option<&Peer> {
-        let (peer, _) = self.active_peers.iter().find(|(_, peer_info)| {
-            !peer_info.choking
-                && peer_info.haves.get(piece_idx)
-                && !peer_info.working.get(piece_idx)
-                && peer_info.working.weight() == pieces_per_peer
+    // it depends on the number of pieces, doing it for each of them takes ages if there are many
+    fn unchoking_peers_with_load(&self, pieces_per_peer: usize) -> Vec<(&Peer, &PeerInfo)> {
+        self.active_peers
+            .iter()
+            .filter(|(_, peer_info)| {
+                !peer_info.choking && peer_info.working.weight() == pieces_per_peer
+            })
+            .collect()
+    }
+
+    fn find_peer_with_piece<'a>(
+        candidates: &[(&'a Peer, &PeerInfo)],
+        piece_idx: usize,
+    ) -> Option<&'a Peer> {
+        let (peer, _) = candidates.iter().find(|(_, peer_info)| {
+            peer_info.haves.get(piece_idx) && !peer_info.working.get(piece_idx)
         })?;
 
         Some(peer)
-- 
2.43.0


From a431b8dc53d8836613f5b54815aec427e32ba817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:29 +0000
Subject: [PATCH 65/69] verif hook: the file cache

---
 src/fs/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fs/mod.rs b/src/fs/mod.rs
index 7235d0f..f3a4147 100644
--- a/src/fs/mod.rs
+++ b/src/fs/mod.rs
@@ -3,6 +3,10 @@ mod multi_file_iter;
 mod multi_file_rw;
 mod single_file_rw;
 
+// the harness reads through the cache too, the program only writes
+#[cfg(nargun_verif)]
+pub use file_cache::FileCache;
+
 use crate::{peers::connection::pending_pieces::FinishedPiece, transcoding::metainfo::Info};
 
 #[async_trait::async_trait]
-- 
2.43.0


From 76c3fe60d88efbb92e97e661028e82f15eec4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:19 +0000
Subject: [PATCH 66/69] fix: a tracker reply with a failure reason counted as a
 successful one if it had peers

---
 src/tracker/response.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tracker/response.rs b/src/tracker/response.rs
index b89335f..0dde691 100644
--- a/src/tracker/response.rs
+++ b/src/tracker/response.rs
@@ -2,7 +2,7 @@ use crate::ok_or_missing_field;
 use crate::peers::peer::Peer;
 use crate::transcoding::{socketaddr_from_compact_bytes, COMPACT_SOCKADDR_LEN};
 use anyhow::Result;
-use bendy::decoding::{FromBencode, Object};
+use bendy::decoding::{Error, FromBencode, Object};
 use bendy::encoding::AsString;
 use tracing::warn;
 
@@ -20,7 +20,7 @@ pub struct Response {
 impl FromBencode for Response {
     const EXPECTED_RECURSION_DEPTH: usize = 2;
 
-    fn decode_bencode_object(object: Object) -> Result<Self, bendy::decoding::Error> {
+    fn decode_bencode_object(object: Object) -> Result<Self, Error> {
         let mut warning_message = None;
         let mut interval = None;
         let mut min_interval = None;
@@ -35,6 +35,14 @@ impl FromBencode for Response {
                 (b"warning message", value) => {
                     warning_message = Some(String::decode_bencode_object(value)?);
                 }
+                (b"failure reason", value) => {
+                    let reason = AsString::decode_bencode_object(value)?.0;
+
+                    return Err(Error::malformed_content(std::io::Error::other(format!(
+                        "tracker failed: {}",
+                        String::from_utf8_lossy(&reason)
+                    ))));
+                }
                 (b"interval", value) => {
                     interval = Some(u64::decode_bencode_object(value)?);
                 }
-- 
2.43.0


From ac5fb4bc97723e008f382dd960847cc933f12672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:25 +0000
Subject: [PATCH 67/69] fix: an HTTP error counted as a successful tracker
 reply if its body looked like one

---
 src/tracker/tracker_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/tracker_manager.rs b/src/tracker/tracker_manager.rs
index 6774798..20ea86a 100644
--- a/src/tracker/tracker_manager.rs
+++ b/src/tracker/tracker_manager.rs
@@ -174,7 +174,7 @@ async fn send_request(url: &str) -> Result<Response> {
         .timeout(Duration::from_secs(TIMEOUT_SECS))
         .build()?;
 
-    let response = client.get(url).send().await?;
+    let response = client.get(url).send().await?.error_for_status()?;
     let body = response.bytes().await?;
 
     let mut decoder = Decoder::new(body.as_ref());
-- 
2.43.0


From 7c0f9a63e108593ce113fda2ed915a7a95f43072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:11 +0000
Subject: [PATCH 68/69] verif hook: run main with stand-ins for the command
 line, the router and the interrupt key

---
 src/main.rs      |  9 ++++++++-
 src/verif.rs     | 10 ++++++++++
 src/verif_env.rs | 45 +++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 63 insertions(+), 1 deletion(-)
 create mode 100644 src/verif_env.rs

diff --git a/src/main.rs b/src/main.rs
index 35fe0bc..7378f67 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,6 +11,8 @@ mod torrent_manager;
 mod tracker;
 mod transcoding;
 #[cfg(nargun_verif)]
+mod verif_env;
+#[cfg(nargun_verif)]
 mod verif_sync;
 
 use crate::peers::active_peers::Peers;
@@ -35,16 +37,21 @@ use transcoding::metainfo::Torrent;
 // with
 // tokio::main
 
-#[tokio::main]
+#[cfg_attr(not(nargun_verif_main), tokio::main)]
 async fn main() -> Result<()> {
+    #[cfg(nargun_verif_main)]
+    use verif_env::{config, gateway_device, signal};
+    #[cfg(not(nargun_verif_main))]
     use tracing_subscriber::prelude::*;
 
     // spawn the console server in the background,
     // returning a `Layer`:
+    #[cfg(not(nargun_verif_main))]
     let console_layer = console_subscriber::spawn();
 
     // build a `Subscriber` by combining layers with a
     // `tracing_subscriber::Registry`:
+    #[cfg(not(nargun_verif_main))]
     tracing_subscriber::registry()
         // add the console layer to the subscriber
         .with(console_layer)
diff --git a/src/verif.rs b/src/verif.rs
index 200ea51..b2b13e5 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -32,3 +32,13 @@ pub mod dht {
 pub mod sync {
     pub use crate::verif_sync::*;
 }
+
+/// The whole program, with stand-ins for the command line, the router and the interrupt key.
+#[cfg(nargun_verif_main)]
+pub async fn main() -> anyhow::Result<()> {
+    crate::main().await
+}
+
+pub mod env {
+    pub use crate::verif_env::*;
+}
diff --git a/src/verif_env.rs b/src/verif_env.rs
new file mode 100644
index 0000000..3fa920a
--- /dev/null
+++ b/src/verif_env.rs
@@ -0,0 +1,45 @@
+//! What `main` meets outside the program: the command line, the router and the interrupt key
+//! (compiled only with `--cfg nargun_verif`).
+
+pub mod config {
+    pub struct Config {
+        pub file: String,
+    }
+
+    impl Config {
+        pub fn new() -> Config {
+            Config {
+                file: super::state(|s| s.file.clone()),
+            }
+        }
+    }
+}
+
+pub mod gateway_device {
+    pub fn open_any_port() -> anyhow::Result<(u16, u16)> {
+        Ok(super::state(|s| s.ports))
+    }
+}
+
+pub mod signal {
+    pub async fn ctrl_c() -> std::io::Result<()> {
+        let key = super::state(|s| s.interrupt.clone());
+        key.notified().await;
+        Ok(())
+    }
+}
+
+#[derive(Default)]
+pub struct State {
+    pub file: String,
+    pub ports: (u16, u16),
+    pub interrupt: std::sync::Arc<tokio::sync::Notify>,
+}
+
+thread_local! {
+    static STATE: std::cell::RefCell<State> = Default::default();
+}
+
+pub fn state<T>(f: impl FnOnce(&mut State) -> T) -> T {
+    STATE.with(|s| f(&mut s.borrow_mut()))
+}
-- 
2.43.0


From c58e36d1044ec43fad89d1ba60dd45194d0d55d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:47 +0000
Subject: [PATCH 69/69] verif hook: the scheduled mutex hands out the standard
 guard

---
 src/verif_sync.rs | 71 ++++++++++++-----------------------------------
 1 file changed, 18 insertions(+), 53 deletions(-)

diff --git a/src/verif_sync.rs b/src/verif_sync.rs
index 0ca6f7f..5e72bf0 100644
--- a/src/verif_sync.rs
+++ b/src/verif_sync.rs
@@ -1,77 +1,42 @@
-//! A mutex that tells the harness before it is locked and after it is unlocked
-//! (compiled only with `--cfg nargun_verif`).
+//! A mutex that asks the harness before it is locked (compiled only with `--cfg nargun_verif`).
 
-use std::ops::{Deref, DerefMut};
-use std::sync::{LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
+pub use std::sync::MutexGuard;
+use std::sync::{LockResult, OnceLock, TryLockError, TryLockResult};
 
-pub static HOOKS: OnceLock<(fn(usize), fn(usize))> = OnceLock::new();
+/// Called before a mutex is locked, with its address and a way to see whether it is free.
+pub static BEFORE_LOCK: OnceLock<fn(usize, &dyn Fn() -> bool)> = OnceLock::new();
 
 #[derive(Debug, Default)]
 pub struct Mutex<T>(std::sync::Mutex<T>);
 
-pub struct MutexGuard<'a, T> {
-    guard: Option<std::sync::MutexGuard<'a, T>>,
-    id: usize,
-}
-
 impl<T> Mutex<T> {
-    pub fn new(t: T) -> Self {
+    pub const fn new(t: T) -> Self {
         Self(std::sync::Mutex::new(t))
     }
 
-    fn id(&self) -> usize {
-        self as *const Self as *const u8 as usize
-    }
-
     pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
-        if let Some((before_lock, _)) = HOOKS.get() {
-            before_lock(self.id());
+        if let Some(before_lock) = BEFORE_LOCK.get() {
+            before_lock(self as *const Self as *const u8 as usize, &|| {
+                !matches!(self.0.try_lock(), Err(TryLockError::WouldBlock))
+            });
         }
 
-        match self.0.lock() {
-            Ok(guard) => Ok(self.wrap(guard)),
-            Err(e) => Err(PoisonError::new(self.wrap(e.into_inner()))),
-        }
+        self.0.lock()
     }
 
     pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
-        match self.0.try_lock() {
-            Ok(guard) => Ok(self.wrap(guard)),
-            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
-            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
-                self.wrap(e.into_inner()),
-            ))),
-        }
+        self.0.try_lock()
     }
 
-    fn wrap<'a>(&self, guard: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
-        MutexGuard {
-            guard: Some(guard),
-            id: self.id(),
-        }
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
     }
-}
 
-impl<T> Deref for MutexGuard<'_, T> {
-    type Target = T;
-
-    fn deref(&self) -> &T {
-        self.guard.as_ref().unwrap()
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
     }
-}
 
-impl<T> DerefMut for MutexGuard<'_, T> {
-    fn deref_mut(&mut self) -> &mut T {
-        self.guard.as_mut().unwrap()
-    }
-}
-
-impl<T> Drop for MutexGuard<'_, T> {
-    fn drop(&mut self) {
-        self.guard = None;
-
-        if let Some((_, after_unlock)) = HOOKS.get() {
-            after_unlock(self.id);
-        }
+    pub fn is_poisoned(&self) -> bool {
+        self.0.is_poisoned()
     }
 }
-- 
2.43.0

