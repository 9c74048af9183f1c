From 4385015d16091438fba8b7e3004e4566adce6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 01/38] fix: Labels of different lengths are never equal

---
 src/common/label.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/label.rs b/src/common/label.rs
index 47151f0..128c578 100644
--- a/src/common/label.rs
+++ b/src/common/label.rs
@@ -98,6 +98,9 @@ impl Eq for Labels {}
 
 impl PartialEq for Labels {
     fn eq(&self, other: &Self) -> bool {
+        if self.len() != other.len() {
+            return false;
+        }
         for i in 0..self.len() {
             if !self.0.get(i).unwrap().eq(other.0.get(i).unwrap()) {
                 return false;
-- 
2.43.0


From f62f88dc801acf590d8bd244a69a10a00934d724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 02/38] fix: TimePoint equality compares values from both sides

---
 src/common/time_point.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/time_point.rs b/src/common/time_point.rs
index 2150cd9..5a5d7f0 100644
--- a/src/common/time_point.rs
+++ b/src/common/time_point.rs
@@ -22,7 +22,8 @@ impl Eq for TimePoint {}
 impl PartialEq for TimePoint {
     fn eq(&self, other: &Self) -> bool {
         self.timestamp.eq(&other.timestamp)
-            && (self.value - other.value < F64_MARGIN || other.value - self.value < F64_MARGIN)
+            && self.value - other.value < F64_MARGIN
+            && other.value - self.value < F64_MARGIN
     }
 }
 
-- 
2.43.0


From b55567c0fac5c26b8f303dbb8a65d80bd8700aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 03/38] fix: Chunk::insert reports a failed append to an
 existing series

---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 5bfa9e9..c3f3efb 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -130,7 +130,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         } else {
             //only one, skip the choose process
             self.storage
-                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value);
+                .write_time_point(id.unwrap(), timepoint.timestamp, timepoint.value)?;
         }
 
         Ok(())
-- 
2.43.0


From a64fbdbbd8452fd50ceb85e42ef08bd7041d9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 04/38] fix: Chunk::query holds its read lock while it reads

---
 src/chunk/chunk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index c3f3efb..227f919 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -142,7 +142,8 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
         start_time: Timestamp,
         end_time: Timestamp,
     ) -> Result<Vec<TimeSeries>> {
-        self.mutex
+        let _m = self
+            .mutex
             .read()
             .expect("Poisoned mutex when try to read from chunk");
         if !is_duration_overlap(self.start_time, self.end_time, start_time, end_time) {
-- 
2.43.0


From 39cdfca749701243f61cfa7bed56ab134327b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:42 +0000
Subject: [PATCH 05/38] fix: a chunk accepts points on its own start and end
 time

---
 src/chunk/chunk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 227f919..b74ab31 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -172,7 +172,7 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
     }
 
     fn is_in_range(&self, timestamp: &Timestamp) -> bool {
-        return self.start_time < *timestamp && self.end_time > *timestamp;
+        return self.start_time <= *timestamp && self.end_time >= *timestamp;
     }
 }
 
-- 
2.43.0


From b27d7bb4e1fe35ed3e9c2dd4589ec5dc2a48b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 06/38] fix: a series without points in the range does not fail
 the whole chunk query

---
 src/chunk/chunk.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index b74ab31..991443c 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -153,7 +153,11 @@ impl<S: Storage, I: Indexer> Chunk<S, I> {
 
         let mut res = Vec::new();
         for (id, metadata) in candidates {
-            let data = self.storage.read_time_series(id, start_time, end_time)?;
+            let data = match self.storage.read_time_series(id, start_time, end_time) {
+                // this series has no point in the range
+                Err(MonolithErr::OutOfRangeErr(_, _)) | Err(MonolithErr::NotFoundErr) => continue,
+                data => data?,
+            };
             if data.len() == 0 {
                 continue; //skip empty series
             }
-- 
2.43.0


From 157ce5bc189575ed35093816e59c45a793f4bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:10 +0000
Subject: [PATCH 07/38] fix: chunk metadata is written completely or not at
 all, and errors are reported

---
 src/chunk/chunk.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 991443c..1c81d85 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -16,7 +16,7 @@ use std::sync::RwLock;
 use serde::{Deserialize, Serialize};
 use std::fs;
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 
 /// ChunkOps contains all options for chunk
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
@@ -47,9 +47,14 @@ impl ChunkOpts {
         // only write when start time and end time is not null
         if self.start_time.is_some() && self.end_time.is_some() {
             std::fs::create_dir_all(dir)?;
-            let file = File::create(dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)))?;
+            // write aside and rename, so that a crash cannot leave half a metadata file behind
+            let tmp_path = dir.join(PathBuf::from(format!("{}.tmp", CHUNK_METADATA_FILENAME)));
+            let file = File::create(&tmp_path)?;
             let mut writer = BufWriter::new(file);
-            serde_json::to_writer(&mut writer, &self.clone());
+            serde_json::to_writer(&mut writer, &self.clone())?;
+            writer.flush()?;
+            writer.get_ref().sync_all()?;
+            fs::rename(&tmp_path, dir.join(PathBuf::from(CHUNK_METADATA_FILENAME)))?;
         }
         Ok(())
     }
-- 
2.43.0


From 710a565ccdd3c6f0a5a9fed3149d79b2b8343f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 08/38] fix: database metadata is only created when missing,
 completely or not at all

---
 src/db.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 5208abb..4f0bdc9 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -16,7 +16,7 @@ use crate::option::DbOpts;
 use crate::storage::Storage;
 use crate::{Builder, MonolithErr, Result, Timestamp, DB_METADATA_FILENAME};
 use std::fs::File;
-use std::io::BufWriter;
+use std::io::{BufWriter, ErrorKind, Write};
 
 /// MonolithDb is thread-safe
 pub struct MonolithDb<S: Storage, I: Indexer>
@@ -105,19 +105,28 @@ where
     /// Check if there is a metadata file in base_dir. If it does, then read file and check if the existing Indexer and Storage
     /// is the same type. If it doesn't, then create one base on db_metadata
     fn read_or_create_metadata(base_dir: &Path, db_metadata: &DbMetadata) -> Result<()> {
-        let content = fs::read_to_string(base_dir.join(DB_METADATA_FILENAME));
+        let content = match fs::read_to_string(base_dir.join(DB_METADATA_FILENAME)) {
+            Ok(content) => Some(content),
+            // only a missing file means that this is a new database
+            Err(err) if err.kind() == ErrorKind::NotFound => None,
+            Err(err) => return Err(err.into()),
+        };
 
-        if content.is_ok() {
-            let metadata: DbMetadata = serde_json::from_str(content.unwrap().as_str())?;
+        if let Some(content) = content {
+            let metadata: DbMetadata = serde_json::from_str(content.as_str())?;
             if metadata.indexer_type != db_metadata.indexer_type
                 || metadata.storage_type != db_metadata.storage_type
             {
                 return Err(MonolithErr::OptionErr);
             }
         } else {
-            let file = File::create(base_dir.join(DB_METADATA_FILENAME))?;
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, db_metadata)?;
+            // write aside and rename, so that a crash cannot leave half a metadata file behind
+            let tmp_path = base_dir.join(format!("{}.tmp", DB_METADATA_FILENAME));
+            let mut writer = BufWriter::new(File::create(&tmp_path)?);
+            serde_json::to_writer(&mut writer, db_metadata)?;
+            writer.flush()?;
+            writer.get_ref().sync_all()?;
+            fs::rename(&tmp_path, base_dir.join(DB_METADATA_FILENAME))?;
         }
 
         Ok(())
-- 
2.43.0


From 5346cd14c63164a65a90e96a19852f2d9e5d29ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 09/38] fix: MonolithDb::query reports a chunk that could not
 be read

---
 src/db.rs | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 4f0bdc9..f9bccd6 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -220,15 +220,13 @@ where
         {
             //check current chunk
             let _c = &self.current_chuck.read().unwrap();
-            let _res = _c.query(labels.clone(), start_time, end_time);
-            if _res.is_ok() {
-                for ref t in _res.unwrap() {
+            if _c.is_with_range(start_time, end_time) {
+                for ref t in _c.query(labels.clone(), start_time, end_time)? {
                     res_ref.insert(
                         t.meta_data().clone(),
                         t.time_points().clone().into_iter().rev().collect(),
                     );
                 }
-            } else {
             }
         };
         {
@@ -236,25 +234,21 @@ where
             let chunks = &self.secondary_chunks.read().unwrap();
             for _c in chunks.iter().rev() {
                 if _c.is_with_range(start_time, end_time) {
-                    let _res = _c.query(labels.clone(), start_time, end_time);
-                    if _res.is_ok() {
-                        for ref t in _res.unwrap() {
-                            let mut current_val = t
-                                .time_points()
-                                .clone()
-                                .into_iter()
-                                .rev()
-                                .collect::<Vec<TimePoint>>();
-                            match res_ref.get_mut(t.meta_data()) {
-                                Some(val) => {
-                                    val.append(&mut current_val);
-                                }
-                                None => {
-                                    res_ref.insert(t.meta_data().clone(), current_val);
-                                }
-                            };
-                        }
-                    } else {
+                    for ref t in _c.query(labels.clone(), start_time, end_time)? {
+                        let mut current_val = t
+                            .time_points()
+                            .clone()
+                            .into_iter()
+                            .rev()
+                            .collect::<Vec<TimePoint>>();
+                        match res_ref.get_mut(t.meta_data()) {
+                            Some(val) => {
+                                val.append(&mut current_val);
+                            }
+                            None => {
+                                res_ref.insert(t.meta_data().clone(), current_val);
+                            }
+                        };
                     }
                 };
             }
-- 
2.43.0


From f950d140936ac48ceec6f2cf993338f0f25a8933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:55 +0000
Subject: [PATCH 10/38] fix: a chunk swap is one step for concurrent queries
 and writes

---
 src/db.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index f9bccd6..e6898e5 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -217,9 +217,11 @@ where
         let mut res = HashMap::<Labels, Vec<TimePoint>>::new();
         let res_ref = &mut res;
         //insert in reverse time order in order to quickly append vec
+        //keep the current chunk locked until the previous ones have been read, or a swap in between
+        //would show the same chunk twice
+        let _c = &self.current_chuck.read().unwrap();
         {
             //check current chunk
-            let _c = &self.current_chuck.read().unwrap();
             if _c.is_with_range(start_time, end_time) {
                 for ref t in _c.query(labels.clone(), start_time, end_time)? {
                     res_ref.insert(
@@ -306,15 +308,12 @@ where
         );
 
         let chunk = Chunk::<S, I>::new(storage, indexer, &chunk_opt);
-        {
-            let stale = self.current_chuck.read().unwrap();
-            self.secondary_chunks.write().unwrap().push(stale.clone());
-        }
         {
             let mut current = self.current_chuck.write().unwrap(); //will also block all read util swap finish
             let (_, end_time) = current.start_end_time();
             info!("The old chunk with end time {} is closing", end_time);
             current.close(); //close the stale one
+            self.secondary_chunks.write().unwrap().push(current.clone());
             *current = Arc::new(chunk); //crate new one
         }
         Ok(())
-- 
2.43.0


From 8e5b3477836df66bef25a40644e2e9b93326eb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 11/38] fix: opening a database reports builder errors and
 writes the indexer's config

---
 src/db.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index e6898e5..52ddd94 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -52,7 +52,7 @@ where
 
         // write custom config to db config
         storage_builder.write_config(&ops.base_dir)?;
-        storage_builder.write_config(&ops.base_dir)?;
+        indexer_builder.write_config(&ops.base_dir)?;
 
         let chunk_size = ops.chunk_size.as_millis() as Timestamp;
         let current_time = get_current_timestamp();
@@ -67,8 +67,8 @@ where
         ));
 
         //write metadata into chunk config
-        storage_builder.write_to_chunk(&chunk_dir);
-        indexer_builder.write_to_chunk(&chunk_dir);
+        storage_builder.write_to_chunk(&chunk_dir)?;
+        indexer_builder.write_to_chunk(&chunk_dir)?;
         if let Err(_) = chunk_opt.write_config_to_dir(chunk_dir.as_path()) {
             error!("Cannot create metadata file for chunk");
             return Err(MonolithErr::InternalErr(
-- 
2.43.0


From a0cfa888ebf716eb3a851d10671ac242715b8380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 12/38] fix: chunks are found under a base directory with
 non-ASCII characters

---
 src/db.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/db.rs b/src/db.rs
index 52ddd94..a5f1bbb 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -142,12 +142,7 @@ where
         for entry in fs::read_dir(dir)? {
             let path_str = entry?.path().into_os_string().into_string().unwrap();
             let _slash = path_str.rfind(std::path::MAIN_SEPARATOR).unwrap() + 1;
-            let dir_name = path_str.clone();
-            let dir_name = dir_name
-                .chars()
-                .skip(_slash)
-                .take(dir_name.len() - _slash)
-                .collect();
+            let dir_name = path_str[_slash..].to_string();
             match decode_chunk_dir(dir_name) {
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
-- 
2.43.0


From d2ec7d1cc4c3939d6e311a538b17d38b4f615251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:43 +0000
Subject: [PATCH 13/38] fix: a chunk directory left without metadata by a crash
 does not block reopening

---
 src/chunk/chunk.rs | 27 +++++++++++++++------------
 src/db.rs          |  6 +++++-
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/chunk/chunk.rs b/src/chunk/chunk.rs
index 1c81d85..04cf13f 100644
--- a/src/chunk/chunk.rs
+++ b/src/chunk/chunk.rs
@@ -16,7 +16,7 @@ use std::sync::RwLock;
 use serde::{Deserialize, Serialize};
 use std::fs;
 use std::fs::File;
-use std::io::{BufWriter, Write};
+use std::io::{BufWriter, ErrorKind, Write};
 
 /// ChunkOps contains all options for chunk
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
@@ -29,17 +29,20 @@ pub struct ChunkOpts {
 
 impl ChunkOpts {
     pub fn read_config_from_dir(dir: &Path) -> Result<Self> {
-        let content = fs::read_to_string(dir.join(CHUNK_METADATA_FILENAME));
-        return if content.is_ok() {
-            let opts: ChunkOpts = serde_json::from_str(content.unwrap().as_str())?;
-            Ok(opts)
-        } else {
-            error!(
-                "Cannot open option file from dir {}",
-                dir.as_os_str().to_str().unwrap_or("<unreadable path>")
-            );
-            Err(MonolithErr::NotFoundErr)
-        };
+        match fs::read_to_string(dir.join(CHUNK_METADATA_FILENAME)) {
+            Ok(content) => Ok(serde_json::from_str(content.as_str())?),
+            Err(err) => {
+                error!(
+                    "Cannot open option file from dir {}",
+                    dir.as_os_str().to_str().unwrap_or("<unreadable path>")
+                );
+                if err.kind() == ErrorKind::NotFound {
+                    Err(MonolithErr::NotFoundErr)
+                } else {
+                    Err(err.into())
+                }
+            }
+        }
     }
 
     /// Write config file into dir
diff --git a/src/db.rs b/src/db.rs
index a5f1bbb..f1ce82a 100644
--- a/src/db.rs
+++ b/src/db.rs
@@ -147,7 +147,11 @@ where
                 Ok((start_time, end_time)) => {
                     // Read Chunk Options from metadata.json
                     let path = PathBuf::from(path_str.clone());
-                    let mut chunk_opts = ChunkOpts::read_config_from_dir(&path)?;
+                    let mut chunk_opts = match ChunkOpts::read_config_from_dir(&path) {
+                        // the process died while it created this chunk, it holds no point yet
+                        Err(MonolithErr::NotFoundErr) => continue,
+                        chunk_opts => chunk_opts?,
+                    };
                     let current_time = get_current_timestamp();
                     chunk_opts.start_time = Some(start_time);
                     // reset end time is necessary
-- 
2.43.0


From 5c74a78a357907fb2cb0f54c31828f32e68959a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 14/38] fix: a request body that cannot be read or decompressed
 does not panic the server

---
 src/server.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 45f924a..a60b8b0 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -65,9 +65,20 @@ where
     fn _process(server: MonolithServer<S, I>, mut request: Request) {
         //Convert request content to protobuf coded format
         let mut content = Vec::new();
-        request.as_reader().read_to_end(&mut content).unwrap();
+        if let Err(err) = request.as_reader().read_to_end(&mut content) {
+            error!("Cannot read request body, {}", err);
+            request.respond(Response::empty(500));
+            return;
+        }
         let mut decoder = snap::raw::Decoder::new();
-        let _content = decoder.decompress_vec(content.as_slice()).unwrap();
+        let _content = match decoder.decompress_vec(content.as_slice()) {
+            Ok(_content) => _content,
+            Err(err) => {
+                error!("Cannot decompress request body, {}", err);
+                request.respond(Response::empty(500));
+                return;
+            }
+        };
         let mut _req_cur = Cursor::new(_content);
         let mut input_stream = CodedInputStream::new(&mut _req_cur);
 
-- 
2.43.0


From f0cdba27be1fbbeb271f94293fc4d704fdece0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 15/38] fix: a write request that is not a protobuf message is
 rejected

---
 src/error.rs  | 6 ++++++
 src/server.rs | 6 +++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 58c96d4..47ad7af 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -96,6 +96,12 @@ impl std::convert::From<tikv_client::Error> for MonolithErr {
     }
 }
 
+impl std::convert::From<protobuf::ProtobufError> for MonolithErr {
+    fn from(err: protobuf::ProtobufError) -> Self {
+        MonolithErr::InternalErr(err.to_string())
+    }
+}
+
 impl std::convert::From<serde_yaml::Error> for MonolithErr {
     fn from(err: serde_yaml::Error) -> Self {
         MonolithErr::SerdeYamlErr(err)
diff --git a/src/server.rs b/src/server.rs
index a60b8b0..657a959 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -4,7 +4,7 @@ use crate::common::label::{Label, Labels};
 use crate::common::time_series::TimeSeries;
 use crate::proto::{QueryResult, ReadRequest, ReadResponse, WriteRequest};
 use crate::storage::Storage;
-use crate::{Result, Timestamp};
+use crate::{MonolithErr, Result, Timestamp};
 use protobuf::{CodedInputStream, CodedOutputStream, Message, RepeatedField};
 use std::io::{Cursor, Read};
 use tiny_http::{Request, Response, Server};
@@ -124,8 +124,8 @@ where
             }
             (_, write_path) if write_path == server.write_path => {
                 let mut write_req = WriteRequest::new();
-                write_req.merge_from(&mut input_stream);
-                match server.write(write_req) {
+                let write = write_req.merge_from(&mut input_stream);
+                match write.map_err(MonolithErr::from).and_then(|_| server.write(write_req)) {
                     Ok(_) => {
                         request.respond(Response::empty(200));
                     }
-- 
2.43.0


From 22ff786b624c22e431c38e1211d9561d4af785cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 16/38] fix: a query that failed is answered with an error, not
 with an empty result

---
 src/server.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 657a959..56192b8 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -147,8 +147,9 @@ where
                 read_rq
                     .queries
                     .iter()
-                    .map(|q| {
-                        self.db
+                    .map(|q| -> Result<Vec<crate::proto::TimeSeries>> {
+                        Ok(self
+                            .db
                             .query(
                                 Labels::from_vec(
                                     q.matchers
@@ -158,21 +159,19 @@ where
                                 ),
                                 q.start_timestamp_ms as Timestamp,
                                 q.end_timestamp_ms as Timestamp,
-                            )
-                            .ok()
-                            .unwrap_or(Vec::new())
+                            )?
                             .iter()
                             .map(crate::proto::TimeSeries::from)
-                            .collect::<Vec<crate::proto::TimeSeries>>()
+                            .collect::<Vec<crate::proto::TimeSeries>>())
                     })
-                    .map(|v: Vec<crate::proto::TimeSeries>| -> QueryResult {
-                        QueryResult {
-                            timeseries: RepeatedField::from(v),
+                    .map(|v| -> Result<QueryResult> {
+                        Ok(QueryResult {
+                            timeseries: RepeatedField::from(v?),
                             unknown_fields: Default::default(),
                             cached_size: Default::default(),
-                        }
+                        })
                     })
-                    .collect::<Vec<crate::proto::QueryResult>>(),
+                    .collect::<Result<Vec<crate::proto::QueryResult>>>()?,
             ),
             unknown_fields: Default::default(),
             cached_size: Default::default(),
-- 
2.43.0


From 19b17ef01a19cc4cae4ce77022bdee9c00ffce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:44 +0000
Subject: [PATCH 17/38] fix: a query range that starts before the epoch is not
 turned into an empty one

---
 src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 56192b8..3bed3ad 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -157,8 +157,9 @@ where
                                         .map(Label::from_label_matcher)
                                         .collect::<Vec<Label>>(),
                                 ),
-                                q.start_timestamp_ms as Timestamp,
-                                q.end_timestamp_ms as Timestamp,
+                                // no point is older than the epoch
+                                q.start_timestamp_ms.max(0) as Timestamp,
+                                q.end_timestamp_ms.max(0) as Timestamp,
                             )?
                             .iter()
                             .map(crate::proto::TimeSeries::from)
-- 
2.43.0


From 7ae1d952fc713e6302e1ac8635d99a7286d4e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:09 +0000
Subject: [PATCH 18/38] fix: a label that no series has makes the label query
 empty, instead of being ignored

---
 src/indexer/sled_indexer.rs | 6 ++++--
 src/indexer/tikv_indexer.rs | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 0beeccc..555fac2 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -87,8 +87,10 @@ impl Indexer for SledIndexer {
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
         let mut ts_vec = Vec::new();
         for label in labels.vec() {
-            if let Some(ts) = self.get_id(label)? {
-                ts_vec.push(ts as Vec<TimeSeriesId>);
+            match self.get_id(label)? {
+                Some(ts) => ts_vec.push(ts as Vec<TimeSeriesId>),
+                // no time series has this label
+                None => return Ok(Vec::new()),
             }
         }
 
diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index c9b0449..c8f1f09 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -82,8 +82,8 @@ impl Indexer for TiKvIndexer {
             .map(|key| self.client.get(key)) //todo: error handling
             .filter(|res| res.is_ok())
             .map(|res| res.unwrap())
-            .filter(|res| res.is_some())
-            .map(|res| res.unwrap())
+            // a label that no time series has is an empty list of ids
+            .map(|res| res.unwrap_or(Vec::new()))
             .collect::<Vec<Vec<u8>>>();
         // convert into time series id
         let mut time_series_ids: Vec<Vec<TimeSeriesId>> = vec![];
-- 
2.43.0


From 3b5e1e0a0397596e33f95ec88b23b5c2afaaf2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 19/38] fix: the TiKv indexer reports lookups that failed

---
 src/indexer/tikv_indexer.rs | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index c8f1f09..51ec772 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -33,8 +33,7 @@ impl Indexer for TiKvIndexer {
         let ids = self.get_series_id_contains_labels(labels.clone())?;
 
         //todo: refactor this.
-        Ok(ids
-            .iter()
+        ids.iter()
             // Convert into keys
             .map(|id| {
                 (
@@ -48,23 +47,17 @@ impl Indexer for TiKvIndexer {
             })
             // Get raw value from db store
             .map(|(id, key)| (id, self.client.get(key)))
-            // Choose the valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap the valid one
-            .map(|(id, res)| (id, res.unwrap()))
+            // Convert the value, if there is one, into labels
+            .map(|(id, res)| match res? {
+                Some(raw) => {
+                    let labels = KvIndexerProcessor::decode_labels(String::from_utf8(raw)?, false)?;
+                    Ok(Some((id, labels)))
+                }
+                None => Ok(None),
+            })
             // Choose the one with value
-            .filter(|(_id, option)| option.is_some())
-            // Unwrap value
-            .map(|(id, option)| (id, option.unwrap()))
-            // Convert Vec<u8> into String
-            .map(|(id, raw)| (id, String::from_utf8_lossy(raw.as_slice()).to_string()))
-            // Convert String into labels
-            .map(|(id, raw)| (id, KvIndexerProcessor::decode_labels(raw, false)))
-            // Choose valid one
-            .filter(|(_id, res)| res.is_ok())
-            // Unwrap valid one
-            .map(|(id, res)| (id, res.unwrap()))
-            .collect())
+            .filter_map(Result::transpose)
+            .collect()
     }
 
     fn get_series_id_contains_labels(&self, labels: Labels) -> Result<Vec<TimeSeriesId>> {
@@ -79,12 +72,9 @@ impl Indexer for TiKvIndexer {
                         .as_mut(),
                 )
             })
-            .map(|key| self.client.get(key)) //todo: error handling
-            .filter(|res| res.is_ok())
-            .map(|res| res.unwrap())
             // a label that no time series has is an empty list of ids
-            .map(|res| res.unwrap_or(Vec::new()))
-            .collect::<Vec<Vec<u8>>>();
+            .map(|key| Ok(self.client.get(key)?.unwrap_or(Vec::new())))
+            .collect::<Result<Vec<Vec<u8>>>>()?;
         // convert into time series id
         let mut time_series_ids: Vec<Vec<TimeSeriesId>> = vec![];
         for val in query_res {
-- 
2.43.0


From 31a0f595d7d2374742c42ca8e8a7ff8f591c509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 20/38] fix: SledIndexer::create_index reports failed writes
 and never leaves half an index that looks complete

---
 src/indexer/sled_indexer.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/indexer/sled_indexer.rs b/src/indexer/sled_indexer.rs
index 555fac2..1bab7fa 100644
--- a/src/indexer/sled_indexer.rs
+++ b/src/indexer/sled_indexer.rs
@@ -119,13 +119,12 @@ impl Indexer for SledIndexer {
                 "Duplicate label => id pair found in storage".to_string(),
             ));
         }
-        tree.set(label_key, format!("{}", time_series_id).into_bytes());
 
         // from time series to label set
         tree.set(
             KvIndexerProcessor::encode_time_series_id(time_series_id),
             KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-        );
+        )?;
 
         // from label to time series ids
         let keys: Vec<String> = labels
@@ -141,10 +140,13 @@ impl Indexer for SledIndexer {
                     format!("{},{}", val_str, time_series_id)
                 }
             };
-            tree.set(&key, val.into_bytes());
-            tree.flush();
+            tree.set(&key, val.into_bytes())?;
         }
 
+        // last, as it marks that the whole index is present
+        tree.set(label_key, format!("{}", time_series_id).into_bytes())?;
+        tree.flush()?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 83da7c772a642fc753e2a8a926b79751a614e528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 21/38] fix: TiKvIndexer::create_index reports failed writes
 and never leaves half an index that looks complete

---
 src/indexer/tikv_indexer.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/indexer/tikv_indexer.rs b/src/indexer/tikv_indexer.rs
index 51ec772..ab8ea20 100644
--- a/src/indexer/tikv_indexer.rs
+++ b/src/indexer/tikv_indexer.rs
@@ -112,16 +112,7 @@ impl Indexer for TiKvIndexer {
             self.client.set(
                 self.add_indexer_id(key.into_bytes().as_mut()),
                 KvIndexerProcessor::encode_labels(&labels, false).into_bytes(),
-            );
-        }
-
-        {
-            //Create map between full label set to time series id
-            let key = KvIndexerProcessor::encode_labels(&labels, true);
-            self.client.set(
-                self.add_indexer_id(key.into_bytes().as_mut()),
-                Vec::from(&time_series_id.to_be_bytes()[..]),
-            );
+            )?;
         }
 
         {
@@ -137,18 +128,26 @@ impl Indexer for TiKvIndexer {
                     )
                 })
                 .map(|key| (key.clone(), self.client.get(key.to_vec())))
-                .filter(|(_key, res)| res.is_ok())
-                .map(|(key, res)| match res.unwrap() {
+                .map(|(key, res)| match res? {
                     Some(mut val) => {
                         val.append(Vec::from(&time_series_id.to_be_bytes()[..]).as_mut());
-                        self.client.set(key.clone(), val);
-                    }
-                    None => {
-                        self.client
-                            .set(key.clone(), Vec::from(&time_series_id.to_be_bytes()[..]));
+                        self.client.set(key.clone(), val)
                     }
+                    None => self
+                        .client
+                        .set(key.clone(), Vec::from(&time_series_id.to_be_bytes()[..])),
                 })
-                .collect::<Vec<()>>();
+                .collect::<Result<Vec<()>>>()?;
+        }
+
+        {
+            //Create map between full label set to time series id
+            //last, as it marks that the whole index is present
+            let key = KvIndexerProcessor::encode_labels(&labels, true);
+            self.client.set(
+                self.add_indexer_id(key.into_bytes().as_mut()),
+                Vec::from(&time_series_id.to_be_bytes()[..]),
+            )?;
         }
 
         Ok(())
-- 
2.43.0


From 49f2b6754c08fee690e2706ad0b8d8b23a4f8763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 22/38] fix: SledStorage reports a failed append

---
 src/storage/sled_storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index d03587a..2f7fe65 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -70,7 +70,7 @@ impl Storage for SledStorage {
         if let Some(current_val) = tree.get(key_name.clone())? {
             let mut current_val_bytes = current_val.to_vec();
             current_val_bytes.append(&mut value);
-            tree.set(key_name.clone(), current_val_bytes);
+            tree.set(key_name.clone(), current_val_bytes)?;
         } else {
             tree.set(key_name.clone(), value)?;
         }
-- 
2.43.0


From 397cd224c39ddd83f607c5fb2b2e71bbe08b6d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 23/38] fix: trimming a series neither panics nor loses points
 at the ends of the range

---
 src/storage/common.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/storage/common.rs b/src/storage/common.rs
index 1fbdead..21df2b0 100644
--- a/src/storage/common.rs
+++ b/src/storage/common.rs
@@ -34,17 +34,10 @@ pub trait Storage: Sized + HasTypeName {
         start_time: Timestamp,
         end_time: Timestamp,
     ) -> Result<Vec<TimePoint>> {
-        //series should already sorted
-        let left = match series.binary_search(&TimePoint::new(start_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx,
-        };
-        let right = match series.binary_search(&TimePoint::new(end_time, 0.0)) {
-            Ok(idx) => idx,
-            Err(idx) => idx - 1,
-        };
-        let res = &series[left..=right];
-        Ok(Vec::from(res))
+        Ok(series
+            .into_iter()
+            .filter(|point| point.timestamp >= start_time && point.timestamp <= end_time)
+            .collect())
     }
 }
 
-- 
2.43.0


From ef60a31388c1633800bd80b519919f0a153ec6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 24/38] fix: a sled series with points written out of order is
 read in time order

---
 src/storage/sled_storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage/sled_storage.rs b/src/storage/sled_storage.rs
index 2f7fe65..0e8deb1 100644
--- a/src/storage/sled_storage.rs
+++ b/src/storage/sled_storage.rs
@@ -49,6 +49,8 @@ impl SledStorage {
                 {
                     res.push(KvStorageProcessor::decode_time_point(timepoint_bytes)?);
                 }
+                // points may have been written out of order
+                res.sort_by_key(|point| point.timestamp);
 
                 return Ok(Some(res));
             }
-- 
2.43.0


From d48ee1227242919c72ea5ef9995b36df93bc9d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 25/38] fix: TiKv components get their own identifier, and
 their chunk's entry records it

---
 src/backend/tikv.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/backend/tikv.rs b/src/backend/tikv.rs
index 3771225..43fb05f 100644
--- a/src/backend/tikv.rs
+++ b/src/backend/tikv.rs
@@ -20,16 +20,17 @@ pub trait TiKvRawBackend: Send + Sync {
             id
         });
         if is_indexer {
-            let mut indexer_id = Uuid::new_v4().as_bytes().to_vec();
-            indexer_id.append(value[..16].to_vec().as_mut());
-            self.set(chunk_identifier.clone(), indexer_id.clone());
+            let indexer_id = Uuid::new_v4().as_bytes().to_vec();
+            let mut res = indexer_id.clone();
+            res.append(value[16..].to_vec().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(indexer_id)
         } else {
-            let mut storage_id = Uuid::new_v4().as_bytes().to_vec();
+            let storage_id = Uuid::new_v4().as_bytes().to_vec();
             let mut res = vec![];
-            res.append(value[16..].to_vec().as_mut());
-            res.append(storage_id.as_mut());
-            self.set(chunk_identifier.clone(), res);
+            res.append(value[..16].to_vec().as_mut());
+            res.append(storage_id.clone().as_mut());
+            self.set(chunk_identifier.clone(), res)?;
             Ok(storage_id)
         }
     }
-- 
2.43.0


From cac8fc1d0d3724d2657f7c2bc4e5a99e62f4933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 26/38] fix: Gorilla delta of deltas are only stored in a bit
 width that can hold them

---
 src/compaction/gorilla.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 90cbc1b..1ff80df 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -393,7 +393,7 @@ fn vec_with_len(len: usize) -> Vec<u8> {
 
 // Find if the timestamp's meaningful in the `nbit` range.
 fn in_bit_range(t: i64, nbits: u8) -> bool {
-    return -((1 << (nbits - 1)) - 1) as i64 <= t && t <= 1 << (nbits - 1) as i64;
+    return -(1i64 << (nbits - 1)) <= t && t < 1i64 << (nbits - 1);
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6b82e82d4cbf59e585f136aed58d94d026e6a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 27/38] fix: Gorilla values with more than 31 leading zeros are
 not corrupted

---
 src/compaction/gorilla.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index 1ff80df..fe7a18b 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -101,7 +101,8 @@ impl GorillaCompactor {
             } else {
                 // single one bit
                 self.bstream.write_one();
-                let leading: u8 = xord.leading_zeros() as u8;
+                // only 5 bits to store it
+                let leading: u8 = (xord.leading_zeros() as u8).min(31);
                 let trailing: u8 = xord.trailing_zeros() as u8;
                 if self.len > 1 && leading >= self.leading && trailing >= self.tailing {
                     self.bstream.write_zero(); // write 10
-- 
2.43.0


From 203fd4614737ca37892358c0af749cb1e0e63a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 28/38] fix: Gorilla values that differ in all 64 bits can be
 decompacted

---
 src/compaction/gorilla.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compaction/gorilla.rs b/src/compaction/gorilla.rs
index fe7a18b..512fae4 100644
--- a/src/compaction/gorilla.rs
+++ b/src/compaction/gorilla.rs
@@ -209,7 +209,11 @@ impl GorillaDecompactor {
             if l != 6 {
                 return None;
             }
-            let sig_len = u8::from_be_bytes((sigbits_len[0] >> 2).to_be_bytes());
+            let mut sig_len = u8::from_be_bytes((sigbits_len[0] >> 2).to_be_bytes());
+            if sig_len == 0 {
+                // 64 does not fit into 6 bits
+                sig_len = 64;
+            }
 
             let tailing = value_size as u8 - sig_len - leading;
 
-- 
2.43.0


From 7310e8a89f18542467583d64a03e28f7a54170c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:38 +0000
Subject: [PATCH 29/38] fix: Bstream::append keeps the number of free bits
 right when the last byte is already stored

---
 src/compaction/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index b3b3fcd..76bb478 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -265,14 +265,14 @@ impl Bstream {
                     first |= second;
                     self.data.push(first);
                 }
-                if self.remaining <= (8 - bstream.remaining) {
+                if self.remaining < (8 - bstream.remaining) {
                     // in this case, the last part in bstream is not empty, we need to add it
                     // if there is only one element in bstream.data, we already added it.
                     self.data
                         .push(bstream.data.last().unwrap().clone() << self.remaining);
                     self.remaining = bstream.remaining + self.remaining;
                 } else {
-                    self.remaining = (bstream.remaining as i8 - self.remaining as i8).abs() as u8;
+                    self.remaining = bstream.remaining + self.remaining - 8;
                 }
             }
         } else {
-- 
2.43.0


From 60659a8b16594dba25fe0650e631a0cbef44fb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 30/38] fix: Compactor::None stores the points given to
 compact_vec

---
 src/compaction/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index 76bb478..2989cda 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -100,10 +100,11 @@ impl Compactor {
                 vec.push(CompactType::Gorilla as u8);
                 vec
             }
-            &mut Compactor::None(ref _v) => {
-                let mut vec = _v.clone();
-                vec.push(CompactType::None as u8);
-                vec
+            &mut Compactor::None(_) => {
+                for tp in data {
+                    self.compact(&tp);
+                }
+                self.get_bytes_vec()
             }
         }
     }
-- 
2.43.0


From 72c558379d90b52e2f550c4ce98c72eac4e025c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 31/38] fix: Decompactor::None reads every record

---
 src/compaction/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compaction/mod.rs b/src/compaction/mod.rs
index 2989cda..25fce88 100644
--- a/src/compaction/mod.rs
+++ b/src/compaction/mod.rs
@@ -166,7 +166,7 @@ impl Decompactor {
             &mut Decompactor::Gorilla(ref decompactor) => Ok(Vec::from_iter(decompactor.clone())),
             &mut Decompactor::None(ref _v) => {
                 let timepoint_size =
-                    std::mem::size_of::<Timestamp>() * 8 + std::mem::size_of::<Value>();
+                    std::mem::size_of::<Timestamp>() + std::mem::size_of::<Value>();
                 let mut res = vec![];
                 for _b in _v.chunks(timepoint_size) {
                     let (timestamp_bytes, value_bytes) =
-- 
2.43.0


From 9a88258ba28f3f8292684d39be2224a5966093df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:22 +0000
Subject: [PATCH 32/38] fix: writing to a WAL segment that flushes by number of
 entries does not panic

---
 src/wal/segment.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index dd31035..77a7ff0 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -35,7 +35,7 @@ impl<W: Write> Write for Segment<W> {
             } => {
                 *idx = 0;
                 let _cache = cache.clone();
-                *cache = vec![Entry::default(); *size];
+                *cache = Vec::with_capacity(*size);
                 _cache
             }
             &mut FlushCache::TimeBased { .. } => {
@@ -117,9 +117,9 @@ impl<W> Segment<W>
                 ref mut idx,
                 ref mut cache,
             } => {
-                cache[*idx] = entry;
+                cache.push(entry);
                 *idx += 1;
-                if idx == size {
+                if *idx >= *size {
                     self.flush();
                 }
             }
-- 
2.43.0


From 9a3ad1c50df381389745bab60bba9d4cae1a8f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:28 +0000
Subject: [PATCH 33/38] fix: cached WAL entries are written in the same format
 as immediate ones

---
 src/wal/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 77a7ff0..db44b70 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -56,7 +56,7 @@ impl<W: Write> Write for Segment<W> {
 
         if remaining.len() > 0 {
             for entry in remaining {
-                self.write(entry.content.as_slice())?;
+                self.write(entry.get_bytes().as_slice())?;
             }
         }
 
-- 
2.43.0


From 062322ca902eb6e8d075cca69dce0308ce1ca0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 34/38] fix: closing or flushing a WAL segment writes the
 entries it has cached

---
 src/wal/segment.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index db44b70..3b19007 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -38,9 +38,8 @@ impl<W: Write> Write for Segment<W> {
                 *cache = Vec::with_capacity(*size);
                 _cache
             }
-            &mut FlushCache::TimeBased { .. } => {
-                // fixme and above
-                vec![]
+            &mut FlushCache::TimeBased { ref cache, .. } => {
+                std::mem::replace(&mut *cache.lock().unwrap(), vec![])
             }
             &mut FlushCache::SizeBased {
                 ref limit,
@@ -101,6 +100,7 @@ impl<W> Segment<W>
 
     /// flush all data and close the file
     pub fn close(&mut self) -> Result<()> {
+        self.flush()?; // entries still in cache
         let _crc = self.crc.finish();
         self.write(&_crc.to_be_bytes())?; // append crc result
         Ok(())
-- 
2.43.0


From 8b5a01b141c2d8e8c7be3524f5a4240394de37cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 35/38] fix: a WAL segment reports failed and completes partial
 writes

---
 src/wal/segment.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 3b19007..86c1e12 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -21,8 +21,9 @@ pub struct Segment<W: Write> {
 
 impl<W: Write> Write for Segment<W> {
     fn write(&mut self, bytes: &[u8]) -> std::io::Result<usize> {
-        self.crc.write(bytes); // update crc
-        self.writer.write(bytes)
+        let len = self.writer.write(bytes)?;
+        self.crc.write(&bytes[..len]); // update crc
+        Ok(len)
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
@@ -55,7 +56,7 @@ impl<W: Write> Write for Segment<W> {
 
         if remaining.len() > 0 {
             for entry in remaining {
-                self.write(entry.get_bytes().as_slice())?;
+                self.write_all(entry.get_bytes().as_slice())?;
             }
         }
 
@@ -69,8 +70,8 @@ impl<W> Segment<W>
 {
     pub fn new(flush_policy: FlushPolicy, mut writer: W) -> Result<Segment<W>> {
         // write magic number. Note that we don't include this when compute CRC
-        writer.write(&WAL_MAGIC_NUMBER.to_be_bytes()[..]);
-        writer.flush();
+        writer.write_all(&WAL_MAGIC_NUMBER.to_be_bytes()[..])?;
+        writer.flush()?;
 
         Ok(Segment {
             writer,
@@ -102,15 +103,16 @@ impl<W> Segment<W>
     pub fn close(&mut self) -> Result<()> {
         self.flush()?; // entries still in cache
         let _crc = self.crc.finish();
-        self.write(&_crc.to_be_bytes())?; // append crc result
+        self.write_all(&_crc.to_be_bytes())?; // append crc result
+        self.flush()?;
         Ok(())
     }
 
     pub fn write_entry(&mut self, entry: Entry) -> Result<()> {
         match &mut self.cache {
             &mut FlushCache::None => {
-                self.write(entry.get_bytes().as_slice())?;
-                self.flush();
+                self.write_all(entry.get_bytes().as_slice())?;
+                self.flush()?;
             }
             &mut FlushCache::NumBased {
                 limit: ref size,
@@ -120,7 +122,7 @@ impl<W> Segment<W>
                 cache.push(entry);
                 *idx += 1;
                 if *idx >= *size {
-                    self.flush();
+                    self.flush()?;
                 }
             }
             &mut FlushCache::TimeBased { ref mut cache, .. } => {
@@ -134,7 +136,7 @@ impl<W> Segment<W>
                 let entry_len = entry.len();
                 cache.push(entry);
                 if *size + entry_len >= *limit {
-                    self.flush();
+                    self.flush()?;
                 } else {
                     *size += entry_len;
                 }
-- 
2.43.0


From 98e9370b0e6a874981be4c841f782d43d2334a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 36/38] fix: a WAL entry whose length does not fit its length
 field is refused

---
 src/wal/mod.rs     | 2 +-
 src/wal/segment.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wal/mod.rs b/src/wal/mod.rs
index 5f3a12f..2467bc0 100644
--- a/src/wal/mod.rs
+++ b/src/wal/mod.rs
@@ -62,7 +62,7 @@ impl Entry {
     }
 
     pub fn len(&self) -> usize {
-        8 + 1 + self.content.len() + 4 // seq_id + entry_type + content + crc32
+        8 + 1 + 2 + self.content.len() + 4 // seq_id + entry_type + len + content + crc32
     }
 
     pub fn get_bytes(&self) -> Vec<u8> {
diff --git a/src/wal/segment.rs b/src/wal/segment.rs
index 86c1e12..1120009 100644
--- a/src/wal/segment.rs
+++ b/src/wal/segment.rs
@@ -1,5 +1,5 @@
 use crate::wal::{Entry, FlushCache, FlushPolicy, WalErr, WAL_MAGIC_NUMBER};
-use crate::Result;
+use crate::{MonolithErr, Result};
 use std::fs::File;
 use std::hash::Hasher;
 use std::io::Write;
@@ -109,6 +109,11 @@ impl<W> Segment<W>
     }
 
     pub fn write_entry(&mut self, entry: Entry) -> Result<()> {
+        if entry.content.len() > u16::max_value() as usize {
+            return Err(MonolithErr::WalErr(WalErr::InternalError(
+                "Entry is too long for its length field".to_string(),
+            )));
+        }
         match &mut self.cache {
             &mut FlushCache::None => {
                 self.write_all(entry.get_bytes().as_slice())?;
-- 
2.43.0


From 055231c8d7a569d624af5ad0b48a693e18ef9667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:24 +0000
Subject: [PATCH 37/38] fix: a query with a matcher that is not an equality is
 refused instead of evaluated as one

---
 src/server.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 3bed3ad..ceca574 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -2,7 +2,7 @@ use crate::MonolithDb;
 
 use crate::common::label::{Label, Labels};
 use crate::common::time_series::TimeSeries;
-use crate::proto::{QueryResult, ReadRequest, ReadResponse, WriteRequest};
+use crate::proto::{LabelMatcher_Type, QueryResult, ReadRequest, ReadResponse, WriteRequest};
 use crate::storage::Storage;
 use crate::{MonolithErr, Result, Timestamp};
 use protobuf::{CodedInputStream, CodedOutputStream, Message, RepeatedField};
@@ -148,6 +148,15 @@ where
                     .queries
                     .iter()
                     .map(|q| -> Result<Vec<crate::proto::TimeSeries>> {
+                        // the index can only answer equality matchers
+                        if q.matchers
+                            .iter()
+                            .any(|m| m.field_type != LabelMatcher_Type::EQ)
+                        {
+                            return Err(MonolithErr::InternalErr(
+                                "only equality matchers are supported".to_string(),
+                            ));
+                        }
                         Ok(self
                             .db
                             .query(
-- 
2.43.0


From 39c69215ede46915439fabfb960c7f50b1eece5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:03 +0000
Subject: [PATCH 38/38] fix: --tikv_config takes the path of the config file
 instead of being a flag

---
 src/bin/monolith-server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/monolith-server.rs b/src/bin/monolith-server.rs
index 4f327a2..cf74a16 100644
--- a/src/bin/monolith-server.rs
+++ b/src/bin/monolith-server.rs
@@ -54,7 +54,9 @@ fn main() {
             Arg::with_name(WORKER_NUM)
                 .long(WORKER_NUM)
                 .default_value(default_worker_num.as_str()),
-            Arg::with_name(TIKV_CONFIG).long(TIKV_CONFIG),
+            Arg::with_name(TIKV_CONFIG)
+                .long(TIKV_CONFIG)
+                .takes_value(true),
         ])
         .get_matches();
 
-- 
2.43.0

