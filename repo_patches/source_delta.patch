From 83748b49a846d13f5d774116bb205f68f3cebd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 01/32] fix: read uncompressed PBF blobs in the string reader

copy_from_slice into an empty buffer panics for every raw blob
---
 src/stringpbf/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 6e86e9f..e556543 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -38,7 +38,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     buf.clear();
     if let Some(raw) = &blob.raw {
         buf.reserve(raw.len());
-        buf.copy_from_slice(raw.as_slice());
+        buf.extend_from_slice(raw.as_slice());
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
-- 
2.43.0


From 4c559b50df19cc876c5fffded422d23af7e99858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 02/32] fix: refuse PBF blobs with an unsupported compression

The string reader silently skipped them, losing their objects
---
 src/stringpbf/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index e556543..e4951d5 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -42,6 +42,8 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
+    } else {
+        panic!("PBF blob has no data, or uses an unsupported compression");
     }
 }
 
-- 
2.43.0


From 36c58d4260a05f2f288516850859964a3068719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:44 +0000
Subject: [PATCH 03/32] fix: do not treat a failing source as the end of a PBF
 file

---
 src/arcpbf/mod.rs    | 6 +++++-
 src/stringpbf/mod.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index fcd9e96..88b42f6 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -57,7 +57,11 @@ impl<R: Read> FileReader<R> {
         loop {
             // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
             // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            let size = match self.reader.read_u32::<byteorder::BigEndian>() {
+                Ok(size) => size,
+                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return None,
+                Err(e) => panic!("Cannot read PBF blob header size: {}", e),
+            };
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index e4951d5..4a7695e 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -64,7 +64,11 @@ impl<R: Read> FileReader<R> {
         loop {
             // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
             // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            let size = match self.reader.read_u32::<byteorder::BigEndian>() {
+                Ok(size) => size,
+                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return None,
+                Err(e) => panic!("Cannot read PBF blob header size: {}", e),
+            };
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
-- 
2.43.0


From 94e694c2f4e99d01feb8e596c126e6540fcdc011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 04/32] fix: PBF ways and relations are visible unless marked
 otherwise

The string reader reported them as deleted when the optional visible flag is
missing (as in any non-history file), the arc reader panicked
---
 src/arcpbf/mod.rs    | 4 ++--
 src/stringpbf/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 88b42f6..7f25239 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -280,7 +280,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap(),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(
@@ -370,7 +370,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap(),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 4a7695e..c101ffa 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -269,7 +269,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap_or(false),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
@@ -353,7 +353,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap_or(false),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-- 
2.43.0


From 3353d0dde0c0e4574bf721545cbf5cd0446ac2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 05/32] fix: read PBF objects without (some of) the optional
 metadata

Every missing version, timestamp, changeset, uid or user was a panic
---
 src/arcpbf/mod.rs    | 72 +++++++++++++++++++++-----------------------
 src/stringpbf/mod.rs | 63 +++++++++++++++++++++-----------------
 2 files changed, 70 insertions(+), 65 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 7f25239..a88f4ab 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -196,28 +196,29 @@ fn decode_dense_nodes(
             )
         };
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
-        last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
-        assert!(uid_id < i32::MAX);
+        // All of the metadata is optional
+        let changeset_id = changesets.get(index).map(|c| c + last_changset);
+        last_changset = changeset_id.unwrap_or(last_changset);
+        let uid_id = uids.get(index).map(|u| u + last_uid);
+        last_uid = uid_id.unwrap_or(last_uid);
+        let user_sid = user_sids.get(index).map(|s| s + last_user_sid);
+        last_user_sid = user_sid.unwrap_or(last_user_sid);
+        let timestamp = timestamps.get(index).map(|t| {
+            last_timestamp = (*t as i32 + last_timestamp) * date_granularity;
+            TimestampFormat::EpochNumber(last_timestamp as i64)
+        });
+        assert!(last_uid < i32::MAX);
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone().unwrap()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id.map(|c| c as u32),
+            _uid: uid_id.map(|u| u as u32),
+            _user: user_sid.map(|s| stringtable[s as usize].clone().unwrap()),
+            _version: denseinfo.version.get(index).map(|&v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 
@@ -274,23 +275,21 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[way.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap()
-                    .clone(),
-            ),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|c| c as u32),
+            _uid: way.info.uid.map(|u| u as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|s| stringtable[s as usize].clone().unwrap()),
+            _version: way.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 }
@@ -364,22 +363,21 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[relation.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap(),
-            ),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|c| c as u32),
+            _uid: relation.info.uid.map(|u| u as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|s| stringtable[s as usize].clone().unwrap()),
+            _version: relation.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 }
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index c101ffa..07457bc 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -187,28 +187,29 @@ fn decode_dense_nodes(
             // FIXME infinite loop detection maybe?
         }
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
-        last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
-        assert!(uid_id < i32::MAX);
+        // All of the metadata is optional
+        let changeset_id = changesets.get(index).map(|c| c + last_changset);
+        last_changset = changeset_id.unwrap_or(last_changset);
+        let uid_id = uids.get(index).map(|u| u + last_uid);
+        last_uid = uid_id.unwrap_or(last_uid);
+        let user_sid = user_sids.get(index).map(|s| s + last_user_sid);
+        last_user_sid = user_sid.unwrap_or(last_user_sid);
+        let timestamp = timestamps.get(index).map(|t| {
+            last_timestamp = (*t as i32 + last_timestamp) * date_granularity;
+            TimestampFormat::EpochNumber(last_timestamp as i64)
+        });
+        assert!(last_uid < i32::MAX);
 
         results.push_back(StringOSMObj::Node(StringNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id.map(|c| c as u32),
+            _uid: uid_id.map(|u| u as u32),
+            _user: user_sid.map(|s| stringtable[s as usize].clone()),
+            _version: denseinfo.version.get(index).map(|&v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1
     }
@@ -263,18 +264,21 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|c| c as u32),
+            _uid: way.info.uid.map(|u| u as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|s| stringtable[s as usize].clone()),
+            _version: way.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
@@ -347,18 +351,21 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|c| c as u32),
+            _uid: relation.info.uid.map(|u| u as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|s| stringtable[s as usize].clone()),
+            _version: relation.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
-- 
2.43.0


From 1a4b9b5441a1f31904169ece60f3d8c56674ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:06 +0000
Subject: [PATCH 06/32] fix: read dense PBF nodes when none of them has tags

---
 src/stringpbf/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 07457bc..80abff9 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -169,8 +169,8 @@ fn decode_dense_nodes(
         internal_lon += internal_lon_offset as i32;
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
-        loop {
-            //assert!(keys_vals_index <= keys_vals.len());
+        // keys_vals is left out altogether if no node has tags
+        while keys_vals_index < keys_vals.len() {
             let next = keys_vals[keys_vals_index];
             keys_vals_index += 1;
             if next == 0 {
-- 
2.43.0


From f402c084036c7992e07fcd347c06156583512e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:11 +0000
Subject: [PATCH 07/32] fix: honour the date granularity of PBF blocks

Dense nodes added the next difference to an already scaled time stamp, in 32
bits, with the granularity truncated to seconds; ways and relations ignored it
---
 src/arcpbf/mod.rs    | 21 +++++++++++++--------
 src/stringpbf/mod.rs | 26 ++++++++++++++------------
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index a88f4ab..70c0ca3 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -132,7 +132,7 @@ fn decode_dense_nodes(
     let mut last_id: i64 = 0;
     let mut last_raw_lat: i32 = 0;
     let mut last_raw_lon: i32 = 0;
-    let mut last_timestamp = 0;
+    let mut last_timestamp: i64 = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
     let mut last_user_sid = 0;
@@ -204,8 +204,8 @@ fn decode_dense_nodes(
         let user_sid = user_sids.get(index).map(|s| s + last_user_sid);
         last_user_sid = user_sid.unwrap_or(last_user_sid);
         let timestamp = timestamps.get(index).map(|t| {
-            last_timestamp = (*t as i32 + last_timestamp) * date_granularity;
-            TimestampFormat::EpochNumber(last_timestamp as i64)
+            last_timestamp += t;
+            TimestampFormat::EpochNumber(last_timestamp * date_granularity as i64 / 1000)
         });
         assert!(last_uid < i32::MAX);
 
@@ -230,7 +230,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -275,7 +275,10 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(t * date_granularity as i64 / 1000));
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
@@ -299,7 +302,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -363,7 +366,10 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(t * date_granularity as i64 / 1000));
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
@@ -391,7 +397,6 @@ fn decode_primitive_group_to_objs(
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
-    let date_granularity = date_granularity / 1000;
     if !primitive_group.nodes.is_empty() {
         decode_nodes(
             primitive_group,
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 80abff9..fd994d0 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -139,7 +139,7 @@ fn decode_dense_nodes(
     let mut last_id: i64 = 0;
     let mut last_raw_lat: i32 = 0;
     let mut last_raw_lon: i32 = 0;
-    let mut last_timestamp = 0;
+    let mut last_timestamp: i64 = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
     let mut last_user_sid = 0;
@@ -195,8 +195,8 @@ fn decode_dense_nodes(
         let user_sid = user_sids.get(index).map(|s| s + last_user_sid);
         last_user_sid = user_sid.unwrap_or(last_user_sid);
         let timestamp = timestamps.get(index).map(|t| {
-            last_timestamp = (*t as i32 + last_timestamp) * date_granularity;
-            TimestampFormat::EpochNumber(last_timestamp as i64)
+            last_timestamp += t;
+            TimestampFormat::EpochNumber(last_timestamp * date_granularity as i64 / 1000)
         });
         assert!(last_uid < i32::MAX);
 
@@ -222,7 +222,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     results: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -264,7 +264,10 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(t * date_granularity as i64 / 1000));
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
@@ -273,10 +276,7 @@ fn decode_ways(
             _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: way.info.changeset.map(|c| c as u32),
             _uid: way.info.uid.map(|u| u as u32),
-            _user: way
-                .info
-                .user_sid
-                .map(|s| stringtable[s as usize].clone()),
+            _user: way.info.user_sid.map(|s| stringtable[s as usize].clone()),
             _version: way.info.version.map(|v| v as u32),
             _timestamp: timestamp,
         }));
@@ -290,7 +290,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -351,7 +351,10 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|t| TimestampFormat::EpochNumber(t * date_granularity as i64 / 1000));
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
@@ -383,7 +386,6 @@ fn decode_primitive_group_to_objs(
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
-    let date_granularity = date_granularity / 1000;
     let mut num_objects_written = 0;
     if !primitive_group.nodes.is_empty() && object_filter.0 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-- 
2.43.0


From ededea5c0f4ac7c6ffc8c0dd0804f380c62a549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 08/32] fix: compute PBF coordinates in nanodegrees, for any
 granularity and offset

The granularity was truncated to multiples of 100 (0 for 1..99), both offsets
were truncated on their own, and all of it overflowed in 32 bits
---
 src/arcpbf/mod.rs            | 29 +++++++++++++----------------
 src/stringpbf/mod.rs         | 29 +++++++++++++----------------
 src/stringpbf/node_id_pos.rs | 29 +++++++++++++----------------
 3 files changed, 39 insertions(+), 48 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 70c0ca3..f351b84 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -130,8 +130,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp: i64 = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -142,24 +142,21 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        // granularity and offsets from pbf are in nanodegrees
+        let internal_lat =
+            (lat_offset + granularity as i64 * raw_lat) / COORD_PRECISION_NANOS as i64;
+        let internal_lon =
+            (lon_offset + granularity as i64 * raw_lon) / COORD_PRECISION_NANOS as i64;
+        let internal_lat =
+            i32::try_from(internal_lat).expect("latitude was larger than the OSM precision allows");
+        let internal_lon =
+            i32::try_from(internal_lon).expect("longitude was larger than OSM precision allows");
 
         let tags = if !has_tags {
             None
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index fd994d0..b31f0f3 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -137,8 +137,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp: i64 = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -149,24 +149,21 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        // granularity and offsets from pbf are in nanodegrees
+        let internal_lat =
+            (lat_offset + granularity as i64 * raw_lat) / COORD_PRECISION_NANOS as i64;
+        let internal_lon =
+            (lon_offset + granularity as i64 * raw_lon) / COORD_PRECISION_NANOS as i64;
+        let internal_lat =
+            i32::try_from(internal_lat).expect("latitude was larger than the OSM precision allows");
+        let internal_lon =
+            i32::try_from(internal_lon).expect("longitude was larger than OSM precision allows");
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
         // keys_vals is left out altogether if no node has tags
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 6f2d07d..904004b 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -93,32 +93,29 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
 
             // NB it's important that these start at zero, makes the code easier later
             let mut last_id: i64 = 0;
-            let mut last_raw_lat: i32 = 0;
-            let mut last_raw_lon: i32 = 0;
+            let mut last_raw_lat: i64 = 0;
+            let mut last_raw_lon: i64 = 0;
 
             for index in 0..num_nodes {
                 // last_* start off 0
                 let id = ids[index] + last_id;
                 last_id = id;
 
-                let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-                    .expect("raw_lat was larger than the OSM precision allows");
+                let raw_lat = lats[index] + last_raw_lat;
                 last_raw_lat = raw_lat;
 
-                let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-                    .expect("raw_lon was larger than OSM precision allows");
+                let raw_lon = lons[index] + last_raw_lon;
                 last_raw_lon = raw_lon;
 
-                // granularity is in nanodegrees
-                let scale_factor = granularity / COORD_PRECISION_NANOS;
-                let mut internal_lat = raw_lat * scale_factor;
-                let mut internal_lon = raw_lon * scale_factor;
-
-                // Offsets from pbf are in nanodegrees
-                let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-                let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-                internal_lat += internal_lat_offset as i32;
-                internal_lon += internal_lon_offset as i32;
+                // granularity and offsets from pbf are in nanodegrees
+                let internal_lat =
+                    (*lat_offset + *granularity as i64 * raw_lat) / COORD_PRECISION_NANOS as i64;
+                let internal_lon =
+                    (*lon_offset + *granularity as i64 * raw_lon) / COORD_PRECISION_NANOS as i64;
+                let internal_lat = i32::try_from(internal_lat)
+                    .expect("latitude was larger than the OSM precision allows");
+                let internal_lon = i32::try_from(internal_lon)
+                    .expect("longitude was larger than OSM precision allows");
 
                 sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));
                 num_objects += 1;
-- 
2.43.0


From f195b63396a9126f67cad8fbfd715d2dd599be58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:53 +0000
Subject: [PATCH 09/32] fix: read PBF blocks with any number of groups, and
 groups without objects

The string reader only read blocks with exactly one group; the other two
readers panicked on a group without objects
---
 src/arcpbf/mod.rs            |  2 +-
 src/stringpbf/mod.rs         | 37 ++++++++++++++++++------------------
 src/stringpbf/node_id_pos.rs |  2 +-
 3 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index f351b84..443382b 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -435,7 +435,7 @@ fn decode_primitive_group_to_objs(
             results,
         );
     } else {
-        unreachable!();
+        // a group without any objects
     }
 }
 
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index b31f0f3..f0bf953 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -379,7 +379,7 @@ fn decode_primitive_group_to_objs(
     lat_offset: i64,
     lon_offset: i64,
     date_granularity: i32,
-    raw_stringtable: osmformat::StringTable,
+    raw_stringtable: &osmformat::StringTable,
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -403,8 +403,8 @@ fn decode_primitive_group_to_objs(
         );
     } else if primitive_group.dense.is_some() && object_filter.0 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
+        stringtable.extend(raw_stringtable.s.iter().map(|chars| {
+            SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
         }));
 
         num_objects_written += decode_dense_nodes(
@@ -418,8 +418,8 @@ fn decode_primitive_group_to_objs(
         );
     } else if !primitive_group.ways.is_empty() && object_filter.1 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
+        stringtable.extend(raw_stringtable.s.iter().map(|chars| {
+            SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
         }));
 
         num_objects_written += decode_ways(
@@ -433,8 +433,8 @@ fn decode_primitive_group_to_objs(
         );
     } else if !primitive_group.relations.is_empty() && object_filter.2 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
+        stringtable.extend(raw_stringtable.s.iter().map(|chars| {
+            SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
         }));
 
         num_objects_written += decode_relations(
@@ -467,17 +467,18 @@ fn decode_block_to_objs(
 
     let mut results = 0;
 
-    assert_eq!(block.primitivegroup.len(), 1);
-    results += decode_primitive_group_to_objs(
-        &block.primitivegroup[0],
-        granularity,
-        lat_offset,
-        lon_offset,
-        date_granularity,
-        raw_stringtable,
-        object_filter,
-        sink,
-    );
+    for primitive_group in block.primitivegroup.iter() {
+        results += decode_primitive_group_to_objs(
+            primitive_group,
+            granularity,
+            lat_offset,
+            lon_offset,
+            date_granularity,
+            &raw_stringtable,
+            object_filter,
+            sink,
+        );
+    }
 
     results
 }
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 904004b..04b0a05 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -121,7 +121,7 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
                 num_objects += 1;
             }
         } else {
-            unreachable!();
+            // a group without any objects
         }
     }
 
-- 
2.43.0


From e841faab985af43fb6cd71a07d4c9a25631d58cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 10/32] fix: a typed iteration of a PBF file does not filter
 later reads

nodes(), ways() and relations() left their filter set on the reader, for every
object read after them
---
 src/stringpbf/mod.rs | 68 ++++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index f0bf953..ae5fe6f 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -380,11 +380,10 @@ fn decode_primitive_group_to_objs(
     lon_offset: i64,
     date_granularity: i32,
     raw_stringtable: &osmformat::StringTable,
-    object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
     let mut num_objects_written = 0;
-    if !primitive_group.nodes.is_empty() && object_filter.0 {
+    if !primitive_group.nodes.is_empty() {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
         stringtable.extend(
             raw_stringtable.s.iter().map(|chars| {
@@ -401,11 +400,13 @@ fn decode_primitive_group_to_objs(
             &stringtable,
             sink,
         );
-    } else if primitive_group.dense.is_some() && object_filter.0 {
+    } else if primitive_group.dense.is_some() {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.iter().map(|chars| {
-            SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
+        stringtable.extend(
+            raw_stringtable.s.iter().map(|chars| {
+                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
+            }),
+        );
 
         num_objects_written += decode_dense_nodes(
             primitive_group,
@@ -416,11 +417,13 @@ fn decode_primitive_group_to_objs(
             &stringtable,
             sink,
         );
-    } else if !primitive_group.ways.is_empty() && object_filter.1 {
+    } else if !primitive_group.ways.is_empty() {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.iter().map(|chars| {
-            SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
+        stringtable.extend(
+            raw_stringtable.s.iter().map(|chars| {
+                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
+            }),
+        );
 
         num_objects_written += decode_ways(
             primitive_group,
@@ -431,11 +434,13 @@ fn decode_primitive_group_to_objs(
             &stringtable,
             sink,
         );
-    } else if !primitive_group.relations.is_empty() && object_filter.2 {
+    } else if !primitive_group.relations.is_empty() {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.iter().map(|chars| {
-            SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
+        stringtable.extend(
+            raw_stringtable.s.iter().map(|chars| {
+                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
+            }),
+        );
 
         num_objects_written += decode_relations(
             primitive_group,
@@ -447,7 +452,7 @@ fn decode_primitive_group_to_objs(
             sink,
         );
     } else {
-        // can happen if there is an object filter in operation
+        // a group without any objects
     }
 
     num_objects_written
@@ -467,6 +472,16 @@ fn decode_block_to_objs(
 
     let mut results = 0;
 
+    // Only skip whole blocks: the objects after the one this is looking for can be read later.
+    let wanted = block.primitivegroup.iter().any(|g| {
+        (object_filter.0 && (g.dense.is_some() || !g.nodes.is_empty()))
+            || (object_filter.1 && !g.ways.is_empty())
+            || (object_filter.2 && !g.relations.is_empty())
+    });
+    if !wanted {
+        return results;
+    }
+
     for primitive_group in block.primitivegroup.iter() {
         results += decode_primitive_group_to_objs(
             primitive_group,
@@ -475,7 +490,6 @@ fn decode_block_to_objs(
             lon_offset,
             date_granularity,
             &raw_stringtable,
-            object_filter,
             sink,
         );
     }
@@ -502,20 +516,30 @@ pub struct PBFReader<R: Read> {
 impl<R: Read> PBFReader<R> {
     /// Iterate over all the nodes in this source
     pub fn nodes(&mut self) -> impl Iterator<Item = StringNode> + '_ {
-        self.object_filter = (true, false, false);
-        self.objects().filter_map(|o| o.into_node())
+        self.objects_filtered((true, false, false))
+            .filter_map(|o| o.into_node())
     }
 
     /// Iterate over all the ways in this source
     pub fn ways(&mut self) -> impl Iterator<Item = StringWay> + '_ {
-        self.object_filter = (false, true, false);
-        self.objects().filter_map(|o| o.into_way())
+        self.objects_filtered((false, true, false))
+            .filter_map(|o| o.into_way())
     }
 
     /// Iterate over all the relations in this source
     pub fn relations(&mut self) -> impl Iterator<Item = StringRelation> + '_ {
-        self.object_filter = (false, false, true);
-        self.objects().filter_map(|o| o.into_relation())
+        self.objects_filtered((false, false, true))
+            .filter_map(|o| o.into_relation())
+    }
+
+    fn objects_filtered(&mut self, filter: ObjectFilter) -> impl Iterator<Item = StringOSMObj> {
+        std::iter::from_fn(move || {
+            // The filter is only for this object, any later call can want everything
+            self.object_filter = filter;
+            let obj = self.next();
+            self.object_filter = (true, true, true);
+            obj
+        })
     }
 }
 
-- 
2.43.0


From a71adf1e49badc6315450aa94594e0978d87712b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 11/32] fix: an XML element without position or usable id does
 not end reading

Deleted nodes have no position: the XML and OSC readers stopped at the first
one, hiding everything after it
---
 src/osc/mod.rs |  9 +++++++--
 src/xml/mod.rs | 15 ++++++++++-----
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index ad074b0..2852163 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -82,11 +82,16 @@ impl<R: Read> OSMReader for OSCReader<R> {
                 elements.push(el);
             }
             if should_break {
-                break;
+                if let Some(obj) = xml_elements_to_osm_obj(&mut elements) {
+                    return Some(obj);
+                }
+                // An element we cannot use is not the end of the file
+                elements.clear();
+                should_push = false;
             }
         }
 
-        xml_elements_to_osm_obj(&mut elements)
+        None
     }
 }
 
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index c7e142f..66c5f9a 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -124,11 +124,16 @@ impl<R: Read> OSMReader for XMLReader<R> {
                 elements.push(el);
             }
             if should_break {
-                break;
+                if let Some(obj) = xml_elements_to_osm_obj(&mut elements) {
+                    return Some(obj);
+                }
+                // An element we cannot use is not the end of the file
+                elements.clear();
+                should_push = false;
             }
         }
 
-        xml_elements_to_osm_obj(&mut elements)
+        None
     }
 }
 
@@ -262,11 +267,11 @@ fn node_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
         get_xml_attribute(attrs, "timestamp").map(|x| TimestampFormat::ISOString(x.to_owned()));
     let uid = get_xml_attribute(attrs, "uid").and_then(|x| x.parse().ok());
     let user = get_xml_attribute(attrs, "user");
-    let lat = get_xml_attribute(attrs, "lat")?.parse();
-    let lon = get_xml_attribute(attrs, "lon")?.parse();
+    let lat = get_xml_attribute(attrs, "lat").and_then(|x| x.parse().ok());
+    let lon = get_xml_attribute(attrs, "lon").and_then(|x| x.parse().ok());
 
     let lat_lon = match (lat, lon) {
-        (Ok(lat), Ok(lon)) => Some((lat, lon)),
+        (Some(lat), Some(lon)) => Some((lat, lon)),
         _errs => None,
     };
     let deleted = get_xml_attribute(attrs, "visible")
-- 
2.43.0


From 582cf0a6803c0a1e7f8a9e8f0109d1cfb57e90df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 12/32] fix: write objects without a version as XML and OSC

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 2852163..fb4371a 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -167,7 +167,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 66c5f9a..5211815 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -453,7 +453,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
-- 
2.43.0


From 15fe1eacec1ab5f4bd980e29719353a61365164a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 13/32] fix: dropping a writer whose sink fails does not panic

---
 src/osc/mod.rs | 3 ++-
 src/xml/mod.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index fb4371a..9a4a0e8 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -247,6 +247,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
 
 impl<W: Write> Drop for OSCWriter<W> {
     fn drop(&mut self) {
-        self.close().unwrap();
+        // A destructor cannot report an error, call close() to see it
+        let _ = self.close();
     }
 }
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 5211815..a00299e 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -533,7 +533,8 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
 impl<W: Write> Drop for XMLWriter<W> {
     fn drop(&mut self) {
-        self.close().unwrap();
+        // A destructor cannot report an error, call close() to see it
+        let _ = self.close();
     }
 }
 
-- 
2.43.0


From a95a3e33f9e90268daae856b1c835ce61e0678e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 14/32] fix: escape time stamps in written XML and OSC

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 9a4a0e8..f7ff105 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -182,7 +182,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_escaped(&mut self.writer, &timestamp.to_iso_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index a00299e..fa5f4e8 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -468,7 +468,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_escaped(&mut self.writer, &timestamp.to_iso_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
-- 
2.43.0


From 0e792a5d8889f110fa2f8fc077717a1af93b7f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:36 +0000
Subject: [PATCH 15/32] fix: keep line breaks and tabs of written XML attribute
 values

---
 src/osc/mod.rs | 14 +++++++-------
 src/xml/mod.rs | 24 ++++++++++++++++++------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index f7ff105..2a89721 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -7,7 +7,7 @@ use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
 use std::iter::Iterator;
 
-use crate::xml::{write_xml_escaped, xml_elements_to_osm_obj};
+use crate::xml::{write_xml_attr_escaped, xml_elements_to_osm_obj};
 
 use xml_rs::reader::{EventReader, Events, XmlEvent};
 
@@ -107,7 +107,7 @@ impl<W: Write> OSCWriter<W> {
 
             //for (k, v) in self.headers.iter() {
             //    write!(self.writer, " {}=\"", k)?;
-            //    write_xml_escaped(&mut self.writer, v)?;
+            //    write_xml_attr_escaped(&mut self.writer, v)?;
             //    write!(self.writer, "\"")?;
             //}
             write!(self.writer, ">")?;
@@ -172,7 +172,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attr_escaped(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -183,7 +183,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
         }
         if let Some(timestamp) = obj.timestamp() {
             write!(self.writer, " timestamp=\"")?;
-            write_xml_escaped(&mut self.writer, &timestamp.to_iso_string())?;
+            write_xml_attr_escaped(&mut self.writer, &timestamp.to_iso_string())?;
             write!(self.writer, "\"")?;
         }
 
@@ -214,7 +214,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attr_escaped(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -222,9 +222,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attr_escaped(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attr_escaped(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index fa5f4e8..4804885 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -70,6 +70,18 @@ pub(crate) fn write_xml_escaped(writer: &mut impl Write, s: &str) -> std::io::Re
     Ok(())
 }
 
+/// Write the value of an attribute. XML parsers turn white space in attributes into plain spaces,
+/// unless it is written as a character reference.
+pub(crate) fn write_xml_attr_escaped(writer: &mut impl Write, s: &str) -> std::io::Result<()> {
+    for c in s.chars() {
+        match c {
+            '\t' | '\n' | '\r' => write!(writer, "&#{};", c as u32)?,
+            c => write_xml_escaped(writer, c.encode_utf8(&mut [0; 4]))?,
+        }
+    }
+    Ok(())
+}
+
 impl<R: Read> OSMReader for XMLReader<R> {
     type R = R;
     type Obj = StringOSMObj;
@@ -385,7 +397,7 @@ impl<W: Write> XMLWriter<W> {
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-                write_xml_escaped(&mut self.writer, v)?;
+                write_xml_attr_escaped(&mut self.writer, v)?;
                 write!(self.writer, "\"")?;
             }
             write!(self.writer, ">")?;
@@ -458,7 +470,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attr_escaped(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -469,7 +481,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
         }
         if let Some(timestamp) = obj.timestamp() {
             write!(self.writer, " timestamp=\"")?;
-            write_xml_escaped(&mut self.writer, &timestamp.to_iso_string())?;
+            write_xml_attr_escaped(&mut self.writer, &timestamp.to_iso_string())?;
             write!(self.writer, "\"")?;
         }
 
@@ -500,7 +512,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attr_escaped(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -508,9 +520,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attr_escaped(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attr_escaped(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
-- 
2.43.0


From a5f6fe73ce8675a6d75ba82fea9454f941e5b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 16/32] fix: report objects in the delete sections of a change
 file as deleted

---
 src/osc/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 2a89721..6a555bd 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -2,7 +2,7 @@
 
 use super::version;
 use super::{Node, OSMObj, OSMObjectType, Relation, Way};
-use super::{OSMReader, OSMWriteError, OSMWriter};
+use super::{OSMObjBase, OSMReader, OSMWriteError, OSMWriter};
 use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
 use std::iter::Iterator;
@@ -13,6 +13,7 @@ use xml_rs::reader::{EventReader, Events, XmlEvent};
 
 pub struct OSCReader<R: Read> {
     parser: Events<BufReader<R>>,
+    in_delete: bool,
 }
 
 #[derive(PartialEq)]
@@ -35,6 +36,7 @@ impl<R: Read> OSMReader for OSCReader<R> {
     fn new(reader: R) -> Self {
         OSCReader {
             parser: EventReader::new(BufReader::new(reader)).into_iter(),
+            in_delete: false,
         }
     }
 
@@ -67,12 +69,14 @@ impl<R: Read> OSMReader for OSCReader<R> {
                     "node" | "way" | "relation" => {
                         should_push = true;
                     }
+                    "delete" => self.in_delete = true,
                     _ => {}
                 },
                 XmlEvent::EndElement { ref name, .. } => match name.local_name.as_str() {
                     "node" | "way" | "relation" => {
                         should_break = true;
                     }
+                    "delete" => self.in_delete = false,
                     _ => {}
                 },
                 _ => {}
@@ -82,7 +86,10 @@ impl<R: Read> OSMReader for OSCReader<R> {
                 elements.push(el);
             }
             if should_break {
-                if let Some(obj) = xml_elements_to_osm_obj(&mut elements) {
+                if let Some(mut obj) = xml_elements_to_osm_obj(&mut elements) {
+                    if self.in_delete {
+                        obj.set_deleted(true);
+                    }
                     return Some(obj);
                 }
                 // An element we cannot use is not the end of the file
-- 
2.43.0


From 5ebd1be0c686b4f4e270a7ffe5f320982a40267d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:20 +0000
Subject: [PATCH 17/32] fix: setting a header on a writer without headers is an
 error, not a panic

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1202d48..6dae11f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -730,7 +730,7 @@ pub trait OSMWriter<W: Write> {
     fn into_inner(self) -> W;
 
     fn set_header(&mut self, _key_value: (&str, &str)) -> Result<(), OSMWriteError> {
-        todo!("set_header not done yet")
+        Err(OSMWriteError::FormatDoesntSupportHeaders)
     }
 
     /// Create a new OSMWriter, consume all the objects from an OSMObj iterator source, and then
-- 
2.43.0


From dca2964f3fb1d949ac76f309e1ea591849b85324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:24 +0000
Subject: [PATCH 18/32] fix: do not write the version or generator attribute
 twice

Setting either as a header made a document no XML parser accepts
---
 src/xml/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 4804885..cf4ede6 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -389,11 +389,13 @@ impl<W: Write> XMLWriter<W> {
     fn ensure_header(&mut self) -> Result<(), OSMWriteError> {
         if self._state == State::Initial {
             writeln!(self.writer, "<?xml version=\"1.0\" encoding=\"utf-8\"?>")?;
-            write!(
-                self.writer,
-                "<osm version=\"0.6\" generator=\"osmio/{}\"",
-                version()
-            )?;
+            write!(self.writer, "<osm")?;
+            if !self.headers.contains_key("version") {
+                write!(self.writer, " version=\"0.6\"")?;
+            }
+            if !self.headers.contains_key("generator") {
+                write!(self.writer, " generator=\"osmio/{}\"", version())?;
+            }
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-- 
2.43.0


From dd2a79e5dc451ecee3acebacb7bc010cf6dfd4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:28 +0000
Subject: [PATCH 19/32] fix: do not loop forever if a changeset file ends
 within a changeset

---
 src/changesets.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index 81244de..1b4dea5 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -171,6 +171,7 @@ impl<R: Read> ChangesetReader<R> {
                     let mut buf = Vec::new();
                     loop {
                         match self.reader.read_event_into(&mut buf)? {
+                            Event::Eof => bail!("Unexpected end of file in a changeset"),
                             Event::End(ref e) => {
                                 if e.name().local_name().as_ref() == "changeset".as_bytes() {
                                     break;
-- 
2.43.0


From 839c8351bc0149a20686f8cb9bb802d14afc63d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 20/32] fix: do not mix up changesets in the tag reader

A changeset without id got the id of the one before; a changeset with a
malformed tag was returned without that tag, after the error
---
 src/changesets.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index 1b4dea5..b09f7de 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -359,6 +359,7 @@ impl<R: Read> ChangesetTagReader<R> {
                     }
                 }
                 Event::Start(ref e) if e.name().local_name().as_ref() == b"changeset" => {
+                    self.curr_id = None;
                     for attr in e.attributes() {
                         let attr = attr?;
                         if attr.key.local_name().as_ref() == b"id" {
@@ -403,6 +404,11 @@ impl<R: Read> Iterator for ChangesetTagReader<R> {
     type Item = Result<(u64, Vec<(String, String)>)>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.next_tag().transpose()
+        let result = self.next_tag();
+        if result.is_err() {
+            // The changeset we are in, if any, is not complete
+            self.curr_id = None;
+        }
+        result.transpose()
     }
 }
-- 
2.43.0


From 506d2198c4eae2f7717153295da00159c7737158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 21/32] fix: convert time stamps before 1970 and after 2038

---
 src/lib.rs   | 4 ++--
 src/utils.rs | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 6dae11f..8e88e25 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -255,13 +255,13 @@ impl TimestampFormat {
     pub fn to_iso_string(&self) -> String {
         match self {
             TimestampFormat::ISOString(s) => s.clone(),
-            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t as i32),
+            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t),
         }
     }
 
     pub fn to_epoch_number(&self) -> i64 {
         match self {
-            TimestampFormat::ISOString(s) => iso_to_epoch(s) as i64,
+            TimestampFormat::ISOString(s) => iso_to_epoch(s),
             &TimestampFormat::EpochNumber(t) => t,
         }
     }
diff --git a/src/utils.rs b/src/utils.rs
index d9bb19e..40ba51b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,15 +1,14 @@
 //! Misc local utilities
 use chrono::{DateTime, offset::Utc};
 
-pub fn epoch_to_iso(epoch: i32) -> String {
+pub fn epoch_to_iso(epoch: i64) -> String {
     // Chrono is a little silly and can't easily convert from epoch to utc timezone
-    let d: DateTime<Utc> =
-        DateTime::from_timestamp(epoch as i64, 0).expect("epoch timestamp too high");
+    let d: DateTime<Utc> = DateTime::from_timestamp(epoch, 0).expect("epoch timestamp too high");
     d.to_rfc3339_opts(chrono::SecondsFormat::Secs, true)
 }
 
-pub fn iso_to_epoch(iso: &str) -> u32 {
+pub fn iso_to_epoch(iso: &str) -> i64 {
     DateTime::parse_from_rfc3339(iso)
-        .map(|x| x.timestamp() as u32)
+        .map(|x| x.timestamp())
         .unwrap_or(0)
 }
-- 
2.43.0


From 9830b78f87db4ca9eab6f4a0ef188e9f78cf7372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 22/32] fix: compare ISO time stamps by the instant they denote

Comparing the texts is wrong for different UTC offsets, and inconsistent with
comparing either of them to an epoch number
---
 src/lib.rs   | 16 +++++++++++++---
 src/utils.rs |  4 ++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8e88e25..928c5ff 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -37,7 +37,7 @@ use std::io::{BufReader, Read, Write};
 use std::iter::{ExactSizeIterator, Iterator};
 use std::path::Path;
 use std::str::FromStr;
-use utils::{epoch_to_iso, iso_to_epoch};
+use utils::{epoch_to_iso, iso_to_epoch, iso_to_instant};
 
 use anyhow::Result;
 
@@ -296,7 +296,12 @@ impl fmt::Display for TimestampFormat {
 impl std::cmp::PartialOrd for TimestampFormat {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         match (self, other) {
-            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => a.partial_cmp(b),
+            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => {
+                match (iso_to_instant(a), iso_to_instant(b)) {
+                    (Some(a), Some(b)) => a.partial_cmp(&b),
+                    _ => a.partial_cmp(b),
+                }
+            }
             (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.partial_cmp(b),
             (a, b) => a.to_epoch_number().partial_cmp(&b.to_epoch_number()),
         }
@@ -305,7 +310,12 @@ impl std::cmp::PartialOrd for TimestampFormat {
 impl std::cmp::PartialEq for TimestampFormat {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
-            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => a.eq(b),
+            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => {
+                match (iso_to_instant(a), iso_to_instant(b)) {
+                    (Some(a), Some(b)) => a.eq(&b),
+                    _ => a.eq(b),
+                }
+            }
             (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.eq(b),
             (a, b) => a.to_epoch_number().eq(&b.to_epoch_number()),
         }
diff --git a/src/utils.rs b/src/utils.rs
index 40ba51b..c50b399 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -7,6 +7,10 @@ pub fn epoch_to_iso(epoch: i64) -> String {
     d.to_rfc3339_opts(chrono::SecondsFormat::Secs, true)
 }
 
+pub fn iso_to_instant(iso: &str) -> Option<DateTime<Utc>> {
+    DateTime::parse_from_rfc3339(iso).ok().map(|x| x.to_utc())
+}
+
 pub fn iso_to_epoch(iso: &str) -> i64 {
     DateTime::parse_from_rfc3339(iso)
         .map(|x| x.timestamp())
-- 
2.43.0


From e5e7dc82675d57ae52862413494b6e3155760e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 23/32] fix: do not accept NaN as latitude or longitude 0

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 928c5ff..cbb614c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -159,6 +159,7 @@ macro_rules! lat_lon_impl {
                 match (f64::from_str(s)? * COORD_SCALE_FACTOR).round() {
                     x if x > (i32::MAX as f64) => Err(ParseLatLonError::TooLarge(x)),
                     x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),
+                    x if x.is_nan() => Err(ParseLatLonError::TooLarge(x)),
                     x => Ok(Self(x as i32)),
                 }
             }
@@ -176,6 +177,7 @@ macro_rules! lat_lon_impl {
                 match (val * COORD_SCALE_FACTOR).round() {
                     x if x > (i32::MAX as f64) => Err(ParseLatLonError::TooLarge(x)),
                     x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),
+                    x if x.is_nan() => Err(ParseLatLonError::TooLarge(x)),
                     x => Ok(Self(x as i32)),
                 }
             }
-- 
2.43.0


From a3389e17bf8e8d659d9fa7318e222ea14e4c4c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 24/32] hook: constructors for the Rc object types under
 cfg(osmio_verif)

---
 src/obj_types/mod.rs   |  3 +++
 src/obj_types/verif.rs | 51 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)
 create mode 100644 src/obj_types/verif.rs

diff --git a/src/obj_types/mod.rs b/src/obj_types/mod.rs
index 964fe3a..17c8475 100644
--- a/src/obj_types/mod.rs
+++ b/src/obj_types/mod.rs
@@ -1,7 +1,10 @@
 //! Base OpenStreetMap object types
+#![allow(unexpected_cfgs)]
 mod arc_types;
 mod rc_types;
 mod string_types;
+#[cfg(osmio_verif)]
+mod verif;
 
 use crate::{Node, OSMObjBase, Relation, Way};
 
diff --git a/src/obj_types/verif.rs b/src/obj_types/verif.rs
new file mode 100644
index 0000000..11528dc
--- /dev/null
+++ b/src/obj_types/verif.rs
@@ -0,0 +1,51 @@
+//! Hooks for verification, only with `--cfg osmio_verif`: the Rc types have no public constructor.
+use super::{RcNode, RcRelation, RcWay};
+use crate::ObjId;
+
+impl RcNode {
+    pub fn verif_new(id: ObjId) -> Self {
+        RcNode {
+            _id: id,
+            _version: None,
+            _deleted: false,
+            _changeset_id: None,
+            _timestamp: None,
+            _uid: None,
+            _user: None,
+            _tags: None,
+            _lat_lon: None,
+        }
+    }
+}
+
+impl RcWay {
+    pub fn verif_new(id: ObjId) -> Self {
+        RcWay {
+            _id: id,
+            _version: None,
+            _deleted: false,
+            _changeset_id: None,
+            _timestamp: None,
+            _uid: None,
+            _user: None,
+            _tags: Vec::new(),
+            _nodes: Vec::new(),
+        }
+    }
+}
+
+impl RcRelation {
+    pub fn verif_new(id: ObjId) -> Self {
+        RcRelation {
+            _id: id,
+            _version: None,
+            _deleted: false,
+            _changeset_id: None,
+            _timestamp: None,
+            _uid: None,
+            _user: None,
+            _tags: Vec::new(),
+            _members: Vec::new(),
+        }
+    }
+}
-- 
2.43.0


From f71f9ac2ef2a55fb0066e54dbbf012c13cb34596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:35 +0000
Subject: [PATCH 25/32] fix: an escaped character in the open attribute of a
 changeset is not an error

---
 src/changesets.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index b09f7de..bca3c8c 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -137,11 +137,13 @@ impl<R: Read> ChangesetReader<R> {
                                 ));
                             }
                             b"open" => {
-                                changeset_builder.open(match attr.value.as_ref() {
-                                    b"true" => true,
-                                    b"false" => false,
-                                    _ => bail!("unknown value"),
-                                });
+                                changeset_builder.open(
+                                    match attr.normalized_value(XmlVersion::Implicit1_0)?.as_ref() {
+                                        "true" => true,
+                                        "false" => false,
+                                        _ => bail!("unknown value"),
+                                    },
+                                );
                             }
                             b"user" => {
                                 changeset_builder.user(
@@ -240,11 +242,13 @@ impl<R: Read> ChangesetReader<R> {
                                 ));
                             }
                             b"open" => {
-                                changeset_builder.open(match attr.value.as_ref() {
-                                    b"true" => true,
-                                    b"false" => false,
-                                    _ => bail!("unknown value"),
-                                });
+                                changeset_builder.open(
+                                    match attr.normalized_value(XmlVersion::Implicit1_0)?.as_ref() {
+                                        "true" => true,
+                                        "false" => false,
+                                        _ => bail!("unknown value"),
+                                    },
+                                );
                             }
                             b"user" => {
                                 changeset_builder.user(
-- 
2.43.0


From 7ffcd689b7196d97defdba21fa2d4b7a158c7bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:38 +0000
Subject: [PATCH 26/32] fix: reading changesets from a failing source ends

---
 src/changesets.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index bca3c8c..115fa78 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -82,6 +82,7 @@ impl Changeset {
 pub struct ChangesetReader<R: Read> {
     reader: quick_xml::Reader<BufReader<R>>,
     buf: Vec<u8>,
+    source_failed: bool,
 }
 
 impl<R: Read> ChangesetReader<R> {
@@ -92,6 +93,7 @@ impl<R: Read> ChangesetReader<R> {
         ChangesetReader {
             reader: quick_xml::Reader::from_reader(BufReader::new(reader)),
             buf: Vec::new(),
+            source_failed: false,
         }
     }
 
@@ -292,10 +294,20 @@ impl<R: Read> Iterator for ChangesetReader<R> {
     type Item = Result<Changeset>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.next_changeset().transpose()
+        if self.source_failed {
+            return None;
+        }
+        let result = self.next_changeset();
+        self.source_failed = is_source_failure(&result);
+        result.transpose()
     }
 }
 
+/// True iff reading failed because the underlying source did. It would fail again, for ever.
+fn is_source_failure<T>(result: &Result<T>) -> bool {
+    matches!(result, Err(e) if matches!(e.downcast_ref(), Some(quick_xml::Error::Io(_))))
+}
+
 impl ChangesetReader<bzip2::read::MultiBzDecoder<std::fs::File>> {
     pub fn from_filename(filename: &str) -> Result<Self> {
         let f = File::open(filename)?;
@@ -322,6 +334,7 @@ pub struct ChangesetTagReader<R: Read> {
     reader: quick_xml::Reader<BufReader<R>>,
     curr_id: Option<u64>,
     tags: Vec<(String, String)>,
+    source_failed: bool,
 }
 
 impl ChangesetTagReader<bzip2::read::MultiBzDecoder<std::fs::File>> {
@@ -340,6 +353,7 @@ impl<R: Read> ChangesetTagReader<R> {
             reader: quick_xml::Reader::from_reader(BufReader::new(reader)),
             curr_id: None,
             tags: Vec::new(),
+            source_failed: false,
         }
     }
 
@@ -408,7 +422,11 @@ impl<R: Read> Iterator for ChangesetTagReader<R> {
     type Item = Result<(u64, Vec<(String, String)>)>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.source_failed {
+            return None;
+        }
         let result = self.next_tag();
+        self.source_failed = is_source_failure(&result);
         if result.is_err() {
             // The changeset we are in, if any, is not complete
             self.curr_id = None;
-- 
2.43.0


From f1438e5b428cff46a450717ecdce905c2b9bd475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:05 +0000
Subject: [PATCH 27/32] fix: the export refuses changeset ids which the
 database cannot hold

---
 src/bin/osmio-changeset-tags-to-sqlite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/osmio-changeset-tags-to-sqlite.rs b/src/bin/osmio-changeset-tags-to-sqlite.rs
index 675bda0..4156b4b 100644
--- a/src/bin/osmio-changeset-tags-to-sqlite.rs
+++ b/src/bin/osmio-changeset-tags-to-sqlite.rs
@@ -109,7 +109,7 @@ fn main() -> Result<()> {
         tags_json.truncate(0);
         serde_json::to_writer(&mut tags_json, &tags)?;
 
-        stmt.execute(params![cid as i64, tags_json])?;
+        stmt.execute(params![i64::try_from(cid)?, tags_json])?;
         //txn.execute(
         //    //"INSERT INTO changeset_tags (id, imagery_used, locale, source, host, changesets_count, other_tags) VALUES (?1, ?2, ?3, ?4, ?5, ?6, ?7)",
         //    //params![cid, imagery_used, locale, source, host, changesets_count, tags_json],
-- 
2.43.0


From c536ca06252149d89a48eeb5d7ea8fe93efc0a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 28/32] fix: statistics that cannot be printed do not make a
 complete export fail

---
 src/bin/osmio-changeset-tags-to-sqlite.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/osmio-changeset-tags-to-sqlite.rs b/src/bin/osmio-changeset-tags-to-sqlite.rs
index 4156b4b..11f2f4e 100644
--- a/src/bin/osmio-changeset-tags-to-sqlite.rs
+++ b/src/bin/osmio-changeset-tags-to-sqlite.rs
@@ -11,6 +11,7 @@ use std::collections::HashMap;
 use anyhow::{Result, ensure};
 use osmio::changesets::ChangesetTagReader;
 use std::env::args;
+use std::io::Write;
 use std::path::PathBuf;
 
 fn main() -> Result<()> {
@@ -120,7 +121,10 @@ fn main() -> Result<()> {
     drop(stmt);
     txn.commit()?;
 
-    println!(
+    // The export is complete, whether or not anyone reads about it
+    let mut stdout = std::io::stdout();
+    let _ = writeln!(
+        stdout,
         "Inserted {} changesets, and got {} unique tags",
         num_changesets_with_tags,
         tag_popularity.len()
@@ -135,7 +139,8 @@ fn main() -> Result<()> {
         if num * 1000 < num_changesets_with_tags {
             break;
         }
-        println!(
+        let _ = writeln!(
+            stdout,
             "{:>8} {:>3}% tagged {}",
             num,
             (num * 100) / num_changesets_with_tags,
-- 
2.43.0


From 723720c67bb925ac0325f698427c26f718eeff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:59 +0000
Subject: [PATCH 29/32] fix: Nodes may have the largest user id in PBF files

---
 src/arcpbf/mod.rs    | 1 -
 src/stringpbf/mod.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 443382b..d38dbca 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -204,7 +204,6 @@ fn decode_dense_nodes(
             last_timestamp += t;
             TimestampFormat::EpochNumber(last_timestamp * date_granularity as i64 / 1000)
         });
-        assert!(last_uid < i32::MAX);
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: id as ObjId,
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index ae5fe6f..8a673c6 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -195,7 +195,6 @@ fn decode_dense_nodes(
             last_timestamp += t;
             TimestampFormat::EpochNumber(last_timestamp * date_granularity as i64 / 1000)
         });
-        assert!(last_uid < i32::MAX);
 
         results.push_back(StringOSMObj::Node(StringNode {
             _id: id as ObjId,
-- 
2.43.0


From 92a2261c6061c2f894bddace314b97caf67a8f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:02 +0000
Subject: [PATCH 30/32] fix: Read compressed PBF blobs which do not state their
 size (shared strings)

---
 src/arcpbf/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index d38dbca..c7c826a 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -31,7 +31,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob) -> Option<Vec<u8>> {
         Some(blob.take_raw())
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
-        let mut bytes = Vec::with_capacity(blob.raw_size.unwrap() as usize);
+        let mut bytes = Vec::with_capacity(blob.raw_size.unwrap_or(0) as usize);
         ZlibDecoder::new(cursor).read_to_end(&mut bytes).ok()?;
 
         Some(bytes)
-- 
2.43.0


From 39eb7cfadc4a8af91c476582c5fd4fded6c3ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:59 +0000
Subject: [PATCH 31/32] fix: a PBF file cut inside the size of a blob header
 was taken for a complete one

---
 src/arcpbf/mod.rs    | 12 +++++++-----
 src/stringpbf/mod.rs | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index c7c826a..8441436 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -55,11 +55,13 @@ impl<R: Read> FileReader<R> {
 
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
-            // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
-            // the failure and catching that?
-            let size = match self.reader.read_u32::<byteorder::BigEndian>() {
-                Ok(size) => size,
-                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return None,
+            // The file may only end before a blob, not inside the size of its header
+            let mut size_bytes = Vec::with_capacity(4);
+            let size = match self.reader.by_ref().take(4).read_to_end(&mut size_bytes) {
+                Ok(0) => return None,
+                Ok(_) => (&size_bytes[..])
+                    .read_u32::<byteorder::BigEndian>()
+                    .expect("PBF file ends inside a blob header size"),
                 Err(e) => panic!("Cannot read PBF blob header size: {}", e),
             };
             let mut header_bytes_vec = vec![0; size as usize];
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 8a673c6..ea6324a 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -62,11 +62,13 @@ impl<R: Read> FileReader<R> {
 
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
-            // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
-            // the failure and catching that?
-            let size = match self.reader.read_u32::<byteorder::BigEndian>() {
-                Ok(size) => size,
-                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return None,
+            // The file may only end before a blob, not inside the size of its header
+            let mut size_bytes = Vec::with_capacity(4);
+            let size = match self.reader.by_ref().take(4).read_to_end(&mut size_bytes) {
+                Ok(0) => return None,
+                Ok(_) => (&size_bytes[..])
+                    .read_u32::<byteorder::BigEndian>()
+                    .expect("PBF file ends inside a blob header size"),
                 Err(e) => panic!("Cannot read PBF blob header size: {}", e),
             };
             let mut header_bytes_vec = vec![0; size as usize];
-- 
2.43.0


From 89fd62320c2e329fe2cf0f457e245e5540dc645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:28 +0000
Subject: [PATCH 32/32] fix: nodes without tags are equal, whether read from a
 block with tags, changed or new

---
 src/arcpbf/mod.rs          | 2 ++
 src/obj_types/arc_types.rs | 4 ++++
 src/obj_types/rc_types.rs  | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 8441436..4249845 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -194,6 +194,8 @@ fn decode_dense_nodes(
                     .collect(),
             )
         };
+        // An untagged node is the same whether or not other nodes of its block have tags
+        let tags = tags.filter(|t: &Vec<_>| !t.is_empty());
 
         // All of the metadata is optional
         let changeset_id = changesets.get(index).map(|c| c + last_changset);
diff --git a/src/obj_types/arc_types.rs b/src/obj_types/arc_types.rs
index fd97482..ae08164 100644
--- a/src/obj_types/arc_types.rs
+++ b/src/obj_types/arc_types.rs
@@ -349,6 +349,10 @@ impl OSMObjBase for ArcNode {
             if let Some(i) = idx {
                 tags.remove(i);
             }
+            // No tags is always None, so that nodes with the same contents are equal
+            if tags.is_empty() {
+                self._tags = None;
+            }
         }
     }
 
diff --git a/src/obj_types/rc_types.rs b/src/obj_types/rc_types.rs
index 6177f4f..47aa78d 100644
--- a/src/obj_types/rc_types.rs
+++ b/src/obj_types/rc_types.rs
@@ -352,6 +352,10 @@ impl OSMObjBase for RcNode {
             if let Some(i) = idx {
                 tags.remove(i);
             }
+            // No tags is always None, so that nodes with the same contents are equal
+            if tags.is_empty() {
+                self._tags = None;
+            }
         }
     }
 
-- 
2.43.0

