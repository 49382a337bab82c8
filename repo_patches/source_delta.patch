From efba9016b0305d3d8588c01031bee61bad453d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 01/23] fix: XML/OSC writers no longer panic on an object
 without a version

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index ad074b0..4cde47d 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -162,7 +162,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index c7e142f..8fc1d80 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -448,7 +448,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
-- 
2.43.0


From dd18155f9fd7f66a418abae1bb7a0d5650449d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 02/23] fix: XML/OSC writers escape the timestamp, which can be
 any string

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 4cde47d..d824c3b 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -177,7 +177,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_escaped(&mut self.writer, &timestamp.to_iso_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 8fc1d80..9bb2c9f 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -463,7 +463,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_escaped(&mut self.writer, &timestamp.to_iso_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
-- 
2.43.0


From 880d89a1711bc2ec4309d19edbfbfeefb1f9d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 03/23] fix: set_header on a format without headers returns an
 error, not a panic

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1202d48..6dae11f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -730,7 +730,7 @@ pub trait OSMWriter<W: Write> {
     fn into_inner(self) -> W;
 
     fn set_header(&mut self, _key_value: (&str, &str)) -> Result<(), OSMWriteError> {
-        todo!("set_header not done yet")
+        Err(OSMWriteError::FormatDoesntSupportHeaders)
     }
 
     /// Create a new OSMWriter, consume all the objects from an OSMObj iterator source, and then
-- 
2.43.0


From c8926297402a083a040897fdb91ac907d78e4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:33 +0000
Subject: [PATCH 04/23] fix: XML/OSC readers accept nodes without a location
 (e.g. deleted ones)

---
 src/xml/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 9bb2c9f..f96e213 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -262,12 +262,12 @@ fn node_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
         get_xml_attribute(attrs, "timestamp").map(|x| TimestampFormat::ISOString(x.to_owned()));
     let uid = get_xml_attribute(attrs, "uid").and_then(|x| x.parse().ok());
     let user = get_xml_attribute(attrs, "user");
-    let lat = get_xml_attribute(attrs, "lat")?.parse();
-    let lon = get_xml_attribute(attrs, "lon")?.parse();
+    let lat = get_xml_attribute(attrs, "lat").and_then(|x| x.parse().ok());
+    let lon = get_xml_attribute(attrs, "lon").and_then(|x| x.parse().ok());
 
     let lat_lon = match (lat, lon) {
-        (Ok(lat), Ok(lon)) => Some((lat, lon)),
-        _errs => None,
+        (Some(lat), Some(lon)) => Some((lat, lon)),
+        _ => None,
     };
     let deleted = get_xml_attribute(attrs, "visible")
         .and_then(|val| match val.as_str() {
-- 
2.43.0


From e36c0519b11e7567980e72750c8e14bc0cb41c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 05/23] fix: XML/OSC readers no longer stop at the first
 element that is not a usable object

---
 src/osc/mod.rs | 9 +++++++--
 src/xml/mod.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index d824c3b..fe3826c 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -82,11 +82,16 @@ impl<R: Read> OSMReader for OSCReader<R> {
                 elements.push(el);
             }
             if should_break {
-                break;
+                if let Some(obj) = xml_elements_to_osm_obj(&mut elements) {
+                    return Some(obj);
+                }
+                // Not a usable object, carry on with the next one. None means end of input.
+                elements.clear();
+                should_push = false;
             }
         }
 
-        xml_elements_to_osm_obj(&mut elements)
+        None
     }
 }
 
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index f96e213..e411277 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -124,11 +124,16 @@ impl<R: Read> OSMReader for XMLReader<R> {
                 elements.push(el);
             }
             if should_break {
-                break;
+                if let Some(obj) = xml_elements_to_osm_obj(&mut elements) {
+                    return Some(obj);
+                }
+                // Not a usable object, carry on with the next one. None means end of input.
+                elements.clear();
+                should_push = false;
             }
         }
 
-        xml_elements_to_osm_obj(&mut elements)
+        None
     }
 }
 
-- 
2.43.0


From 9abcfdceb422a363bb023e31ed4958af2e0471a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 06/23] fix: implement inner() of the XML & OSC readers

---
 src/osc/mod.rs | 2 +-
 src/xml/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index fe3826c..f191d15 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -43,7 +43,7 @@ impl<R: Read> OSMReader for OSCReader<R> {
     }
 
     fn inner(&self) -> &R {
-        todo!("{} {} OSCReader inner()", file!(), line!());
+        self.parser.source().get_ref()
     }
 
     fn next(&mut self) -> Option<StringOSMObj> {
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index e411277..f6fadd1 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -85,7 +85,7 @@ impl<R: Read> OSMReader for XMLReader<R> {
     }
 
     fn inner(&self) -> &R {
-        todo!("{} {} XMLReader inner()", file!(), line!());
+        self.parser.source().get_ref()
     }
 
     fn next(&mut self) -> Option<StringOSMObj> {
-- 
2.43.0


From 4d8ec56c3d24bc3da4a8f21e5ac86cb973733bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 07/23] fix: OSC reader reports objects in a <delete> block as
 deleted

---
 src/osc/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index f191d15..fb98e2f 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -1,7 +1,7 @@
 //! OSC File format
 
 use super::version;
-use super::{Node, OSMObj, OSMObjectType, Relation, Way};
+use super::{Node, OSMObj, OSMObjBase, OSMObjectType, Relation, Way};
 use super::{OSMReader, OSMWriteError, OSMWriter};
 use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
@@ -13,6 +13,8 @@ use xml_rs::reader::{EventReader, Events, XmlEvent};
 
 pub struct OSCReader<R: Read> {
     parser: Events<BufReader<R>>,
+    /// True iff we are inside a `<delete>` block
+    in_delete: bool,
 }
 
 #[derive(PartialEq)]
@@ -35,6 +37,7 @@ impl<R: Read> OSMReader for OSCReader<R> {
     fn new(reader: R) -> Self {
         OSCReader {
             parser: EventReader::new(BufReader::new(reader)).into_iter(),
+            in_delete: false,
         }
     }
 
@@ -67,12 +70,18 @@ impl<R: Read> OSMReader for OSCReader<R> {
                     "node" | "way" | "relation" => {
                         should_push = true;
                     }
+                    "delete" => {
+                        self.in_delete = true;
+                    }
                     _ => {}
                 },
                 XmlEvent::EndElement { ref name, .. } => match name.local_name.as_str() {
                     "node" | "way" | "relation" => {
                         should_break = true;
                     }
+                    "delete" => {
+                        self.in_delete = false;
+                    }
                     _ => {}
                 },
                 _ => {}
@@ -82,7 +91,10 @@ impl<R: Read> OSMReader for OSCReader<R> {
                 elements.push(el);
             }
             if should_break {
-                if let Some(obj) = xml_elements_to_osm_obj(&mut elements) {
+                if let Some(mut obj) = xml_elements_to_osm_obj(&mut elements) {
+                    if self.in_delete {
+                        obj.set_deleted(true);
+                    }
                     return Some(obj);
                 }
                 // Not a usable object, carry on with the next one. None means end of input.
-- 
2.43.0


From f6bbf576eb3ace9fc76e913a2852860ca6bc0b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 08/23] fix: NaN is not a Lat/Lon (it was silently turned into
 0)

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 6dae11f..1d49b9c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -157,6 +157,7 @@ macro_rules! lat_lon_impl {
 
             fn from_str(s: &str) -> Result<Self, Self::Err> {
                 match (f64::from_str(s)? * COORD_SCALE_FACTOR).round() {
+                    x if x.is_nan() => Err(ParseLatLonError::TooLarge(x)),
                     x if x > (i32::MAX as f64) => Err(ParseLatLonError::TooLarge(x)),
                     x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),
                     x => Ok(Self(x as i32)),
@@ -174,6 +175,7 @@ macro_rules! lat_lon_impl {
             type Error = ParseLatLonError;
             fn try_from(val: f64) -> Result<$lat_or_lon, Self::Error> {
                 match (val * COORD_SCALE_FACTOR).round() {
+                    x if x.is_nan() => Err(ParseLatLonError::TooLarge(x)),
                     x if x > (i32::MAX as f64) => Err(ParseLatLonError::TooLarge(x)),
                     x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),
                     x => Ok(Self(x as i32)),
-- 
2.43.0


From 3a60a74b6ec3847ba8bf38df0506b5b1d77c35a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 09/23] fix: timestamps outside the 32 bit range are no longer
 truncated

---
 src/lib.rs   | 8 +++++---
 src/utils.rs | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1d49b9c..eac0587 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -37,7 +37,7 @@ use std::io::{BufReader, Read, Write};
 use std::iter::{ExactSizeIterator, Iterator};
 use std::path::Path;
 use std::str::FromStr;
-use utils::{epoch_to_iso, iso_to_epoch};
+use utils::epoch_to_iso;
 
 use anyhow::Result;
 
@@ -257,13 +257,15 @@ impl TimestampFormat {
     pub fn to_iso_string(&self) -> String {
         match self {
             TimestampFormat::ISOString(s) => s.clone(),
-            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t as i32),
+            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t),
         }
     }
 
     pub fn to_epoch_number(&self) -> i64 {
         match self {
-            TimestampFormat::ISOString(s) => iso_to_epoch(s) as i64,
+            TimestampFormat::ISOString(s) => {
+                chrono::DateTime::parse_from_rfc3339(s).map_or(0, |d| d.timestamp())
+            }
             &TimestampFormat::EpochNumber(t) => t,
         }
     }
diff --git a/src/utils.rs b/src/utils.rs
index d9bb19e..1134726 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,10 +1,10 @@
 //! Misc local utilities
 use chrono::{DateTime, offset::Utc};
 
-pub fn epoch_to_iso(epoch: i32) -> String {
+pub fn epoch_to_iso(epoch: impl Into<i64>) -> String {
     // Chrono is a little silly and can't easily convert from epoch to utc timezone
     let d: DateTime<Utc> =
-        DateTime::from_timestamp(epoch as i64, 0).expect("epoch timestamp too high");
+        DateTime::from_timestamp(epoch.into(), 0).expect("epoch timestamp too high");
     d.to_rfc3339_opts(chrono::SecondsFormat::Secs, true)
 }
 
-- 
2.43.0


From ed118f3e8133fcbb18ea0ad0aca4a5bff41acb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 10/23] fix: timestamp equality & order are consistent
 whichever way a timestamp is stored

---
 src/lib.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index eac0587..9dbf6ca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -269,6 +269,16 @@ impl TimestampFormat {
             &TimestampFormat::EpochNumber(t) => t,
         }
     }
+
+    /// What timestamps are compared by: the point in time, or the text if it isn't a valid one.
+    fn instant(&self) -> std::result::Result<i64, &str> {
+        match self {
+            TimestampFormat::ISOString(s) => chrono::DateTime::parse_from_rfc3339(s)
+                .map(|d| d.timestamp())
+                .map_err(|_| s.as_str()),
+            TimestampFormat::EpochNumber(t) => Ok(*t),
+        }
+    }
 }
 
 impl<T> From<T> for TimestampFormat
@@ -299,20 +309,12 @@ impl fmt::Display for TimestampFormat {
 
 impl std::cmp::PartialOrd for TimestampFormat {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        match (self, other) {
-            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => a.partial_cmp(b),
-            (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.partial_cmp(b),
-            (a, b) => a.to_epoch_number().partial_cmp(&b.to_epoch_number()),
-        }
+        Some(self.instant().cmp(&other.instant()))
     }
 }
 impl std::cmp::PartialEq for TimestampFormat {
     fn eq(&self, other: &Self) -> bool {
-        match (self, other) {
-            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => a.eq(b),
-            (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.eq(b),
-            (a, b) => a.to_epoch_number().eq(&b.to_epoch_number()),
-        }
+        self.instant() == other.instant()
     }
 }
 
-- 
2.43.0


From 3ce56fc9e775ff8ffab5547c26bb09dcc2f07925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 11/23] fix: PBF ways & relations without the visible flag are
 not deleted

---
 src/arcpbf/mod.rs    | 4 ++--
 src/stringpbf/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index fcd9e96..249da3f 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -276,7 +276,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap(),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(
@@ -366,7 +366,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap(),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 6e86e9f..fad36dc 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -263,7 +263,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap_or(false),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
@@ -347,7 +347,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap_or(false),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-- 
2.43.0


From 8333cbd8b5cdb2389df65142cb57461d970b24f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 12/23] fix: stringpbf can read uncompressed blobs

---
 src/stringpbf/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index fad36dc..744fa25 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -37,8 +37,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     // get lifetime errors with bytes not living long enough.
     buf.clear();
     if let Some(raw) = &blob.raw {
-        buf.reserve(raw.len());
-        buf.copy_from_slice(raw.as_slice());
+        buf.extend_from_slice(raw.as_slice());
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
-- 
2.43.0


From 6e66d9a58a4458850278fd12e33b7c885d5a27dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 13/23] fix: stringpbf no longer silently skips blobs with an
 unsupported compression

---
 src/stringpbf/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 744fa25..ce3ee80 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -41,6 +41,8 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
+    } else {
+        unimplemented!("PBF blob with an unsupported compression");
     }
 }
 
-- 
2.43.0


From 493d620df3d7528874d4061750a9a0b21a9ab34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 14/23] fix: stringpbf can read dense nodes when none of them
 has tags

---
 src/stringpbf/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index ce3ee80..384d3b4 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -164,7 +164,8 @@ fn decode_dense_nodes(
         internal_lon += internal_lon_offset as i32;
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
-        loop {
+        // it may be empty if no node in this block has tags
+        while !keys_vals.is_empty() {
             //assert!(keys_vals_index <= keys_vals.len());
             let next = keys_vals[keys_vals_index];
             keys_vals_index += 1;
-- 
2.43.0


From 141e67e5c834029cb3083328564383f364861ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 15/23] fix: stringpbf can read blocks with several groups

---
 src/stringpbf/mod.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 384d3b4..d2a9afc 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -457,17 +457,18 @@ fn decode_block_to_objs(
 
     let mut results = 0;
 
-    assert_eq!(block.primitivegroup.len(), 1);
-    results += decode_primitive_group_to_objs(
-        &block.primitivegroup[0],
-        granularity,
-        lat_offset,
-        lon_offset,
-        date_granularity,
-        raw_stringtable,
-        object_filter,
-        sink,
-    );
+    for primitive_group in block.primitivegroup.iter() {
+        results += decode_primitive_group_to_objs(
+            primitive_group,
+            granularity,
+            lat_offset,
+            lon_offset,
+            date_granularity,
+            raw_stringtable.clone(),
+            object_filter,
+            sink,
+        );
+    }
 
     results
 }
-- 
2.43.0


From 83c2b81543532607755a966ff297acdd65accfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:50 +0000
Subject: [PATCH 16/23] fix: PBF coordinates are right for every granularity &
 offset

---
 src/arcpbf/mod.rs            | 29 +++++++++++++----------------
 src/stringpbf/mod.rs         | 29 +++++++++++++----------------
 src/stringpbf/node_id_pos.rs | 29 +++++++++++++----------------
 3 files changed, 39 insertions(+), 48 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 249da3f..fff4469 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -126,8 +126,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -138,24 +138,21 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        // granularity & offsets are in nanodegrees
+        let internal_lat = i32::try_from(
+            (lat_offset + granularity as i64 * raw_lat) / COORD_PRECISION_NANOS as i64,
+        )
+        .expect("lat was larger than the OSM precision allows");
+        let internal_lon = i32::try_from(
+            (lon_offset + granularity as i64 * raw_lon) / COORD_PRECISION_NANOS as i64,
+        )
+        .expect("lon was larger than the OSM precision allows");
 
         let tags = if !has_tags {
             None
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index d2a9afc..9652e66 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -132,8 +132,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -144,24 +144,21 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        // granularity & offsets are in nanodegrees
+        let internal_lat = i32::try_from(
+            (lat_offset + granularity as i64 * raw_lat) / COORD_PRECISION_NANOS as i64,
+        )
+        .expect("lat was larger than the OSM precision allows");
+        let internal_lon = i32::try_from(
+            (lon_offset + granularity as i64 * raw_lon) / COORD_PRECISION_NANOS as i64,
+        )
+        .expect("lon was larger than the OSM precision allows");
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
         // it may be empty if no node in this block has tags
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 6f2d07d..002f266 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -93,32 +93,29 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
 
             // NB it's important that these start at zero, makes the code easier later
             let mut last_id: i64 = 0;
-            let mut last_raw_lat: i32 = 0;
-            let mut last_raw_lon: i32 = 0;
+            let mut last_raw_lat: i64 = 0;
+            let mut last_raw_lon: i64 = 0;
 
             for index in 0..num_nodes {
                 // last_* start off 0
                 let id = ids[index] + last_id;
                 last_id = id;
 
-                let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-                    .expect("raw_lat was larger than the OSM precision allows");
+                let raw_lat = lats[index] + last_raw_lat;
                 last_raw_lat = raw_lat;
 
-                let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-                    .expect("raw_lon was larger than OSM precision allows");
+                let raw_lon = lons[index] + last_raw_lon;
                 last_raw_lon = raw_lon;
 
-                // granularity is in nanodegrees
-                let scale_factor = granularity / COORD_PRECISION_NANOS;
-                let mut internal_lat = raw_lat * scale_factor;
-                let mut internal_lon = raw_lon * scale_factor;
-
-                // Offsets from pbf are in nanodegrees
-                let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-                let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-                internal_lat += internal_lat_offset as i32;
-                internal_lon += internal_lon_offset as i32;
+                // granularity & offsets are in nanodegrees
+                let internal_lat = i32::try_from(
+                    (*lat_offset + *granularity as i64 * raw_lat) / COORD_PRECISION_NANOS as i64,
+                )
+                .expect("lat was larger than the OSM precision allows");
+                let internal_lon = i32::try_from(
+                    (*lon_offset + *granularity as i64 * raw_lon) / COORD_PRECISION_NANOS as i64,
+                )
+                .expect("lon was larger than the OSM precision allows");
 
                 sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));
                 num_objects += 1;
-- 
2.43.0


From fa92848b9b8e310ceb1b58a22429f96b4a2fed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 17/23] fix: PBF date granularity is applied to every object,
 and only once

---
 src/arcpbf/mod.rs    | 21 +++++++++++++--------
 src/stringpbf/mod.rs | 21 +++++++++++++--------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index fff4469..75229b6 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -195,10 +195,10 @@ fn decode_dense_nodes(
         last_uid = uid_id;
         let user_sid = user_sids[index] + last_user_sid;
         last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
+        let timestamp = timestamps[index] + last_timestamp;
         last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
+        // date_granularity is in milliseconds
+        let timestamp = TimestampFormat::EpochNumber(timestamp * date_granularity as i64 / 1000);
         assert!(uid_id < i32::MAX);
 
         results.push(ArcOSMObj::Node(ArcNode {
@@ -222,7 +222,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -267,7 +267,10 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        // date_granularity is in milliseconds
+        let timestamp = TimestampFormat::EpochNumber(
+            way.info.timestamp.unwrap() * date_granularity as i64 / 1000,
+        );
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
@@ -293,7 +296,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -357,7 +360,10 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        // date_granularity is in milliseconds
+        let timestamp = TimestampFormat::EpochNumber(
+            relation.info.timestamp.unwrap() * date_granularity as i64 / 1000,
+        );
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
@@ -386,7 +392,6 @@ fn decode_primitive_group_to_objs(
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
-    let date_granularity = date_granularity / 1000;
     if !primitive_group.nodes.is_empty() {
         decode_nodes(
             primitive_group,
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 9652e66..0b59e02 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -186,10 +186,10 @@ fn decode_dense_nodes(
         last_uid = uid_id;
         let user_sid = user_sids[index] + last_user_sid;
         last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
+        let timestamp = timestamps[index] + last_timestamp;
         last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
+        // date_granularity is in milliseconds
+        let timestamp = TimestampFormat::EpochNumber(timestamp * date_granularity as i64 / 1000);
         assert!(uid_id < i32::MAX);
 
         results.push_back(StringOSMObj::Node(StringNode {
@@ -214,7 +214,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     results: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -256,7 +256,10 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        // date_granularity is in milliseconds
+        let timestamp = TimestampFormat::EpochNumber(
+            way.info.timestamp.unwrap() * date_granularity as i64 / 1000,
+        );
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
@@ -279,7 +282,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -340,7 +343,10 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        // date_granularity is in milliseconds
+        let timestamp = TimestampFormat::EpochNumber(
+            relation.info.timestamp.unwrap() * date_granularity as i64 / 1000,
+        );
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
@@ -369,7 +375,6 @@ fn decode_primitive_group_to_objs(
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
-    let date_granularity = date_granularity / 1000;
     let mut num_objects_written = 0;
     if !primitive_group.nodes.is_empty() && object_filter.0 {
         let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-- 
2.43.0


From dbc268fb93a388ff9b738688f789003133cdd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 18/23] fix: PBF objects without (some) metadata can be read

---
 src/arcpbf/mod.rs    | 89 ++++++++++++++++++++++++--------------------
 src/stringpbf/mod.rs | 80 +++++++++++++++++++++++----------------
 2 files changed, 96 insertions(+), 73 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 75229b6..3c017c3 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -189,28 +189,36 @@ fn decode_dense_nodes(
             )
         };
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] + last_timestamp;
-        last_timestamp = timestamp;
-        // date_granularity is in milliseconds
-        let timestamp = TimestampFormat::EpochNumber(timestamp * date_granularity as i64 / 1000);
-        assert!(uid_id < i32::MAX);
+        // every one of these is optional, and missing (for all nodes) if it's empty
+        let changeset_id = changesets.get(index).map(|delta| {
+            last_changset += delta;
+            last_changset as u32
+        });
+        let uid = uids.get(index).map(|delta| {
+            last_uid += delta;
+            assert!(last_uid < i32::MAX);
+            last_uid as u32
+        });
+        let user = user_sids.get(index).map(|delta| {
+            last_user_sid += delta;
+            stringtable[last_user_sid as usize].clone().unwrap()
+        });
+        let timestamp = timestamps.get(index).map(|delta| {
+            last_timestamp += delta;
+            // date_granularity is in milliseconds
+            TimestampFormat::EpochNumber(last_timestamp * date_granularity as i64 / 1000)
+        });
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone().unwrap()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id,
+            _uid: uid,
+            _user: user,
+            _version: denseinfo.version.get(index).map(|x| *x as u32),
+            _timestamp: timestamp,
         }));
     }
 
@@ -268,25 +276,24 @@ fn decode_ways(
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
         // date_granularity is in milliseconds
-        let timestamp = TimestampFormat::EpochNumber(
-            way.info.timestamp.unwrap() * date_granularity as i64 / 1000,
-        );
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|ts| TimestampFormat::EpochNumber(ts * date_granularity as i64 / 1000));
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[way.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap()
-                    .clone(),
-            ),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|x| x as u32),
+            _uid: way.info.uid.map(|x| x as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: way.info.version.map(|x| x as u32),
+            _timestamp: timestamp,
         }));
     }
 }
@@ -361,24 +368,24 @@ fn decode_relations(
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
         // date_granularity is in milliseconds
-        let timestamp = TimestampFormat::EpochNumber(
-            relation.info.timestamp.unwrap() * date_granularity as i64 / 1000,
-        );
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|ts| TimestampFormat::EpochNumber(ts * date_granularity as i64 / 1000));
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[relation.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap(),
-            ),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|x| x as u32),
+            _uid: relation.info.uid.map(|x| x as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: relation.info.version.map(|x| x as u32),
+            _timestamp: timestamp,
         }));
     }
 }
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 0b59e02..9174a7c 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -180,28 +180,36 @@ fn decode_dense_nodes(
             // FIXME infinite loop detection maybe?
         }
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] + last_timestamp;
-        last_timestamp = timestamp;
-        // date_granularity is in milliseconds
-        let timestamp = TimestampFormat::EpochNumber(timestamp * date_granularity as i64 / 1000);
-        assert!(uid_id < i32::MAX);
+        // every one of these is optional, and missing (for all nodes) if it's empty
+        let changeset_id = changesets.get(index).map(|delta| {
+            last_changset += delta;
+            last_changset as u32
+        });
+        let uid = uids.get(index).map(|delta| {
+            last_uid += delta;
+            assert!(last_uid < i32::MAX);
+            last_uid as u32
+        });
+        let user = user_sids.get(index).map(|delta| {
+            last_user_sid += delta;
+            stringtable[last_user_sid as usize].clone()
+        });
+        let timestamp = timestamps.get(index).map(|delta| {
+            last_timestamp += delta;
+            // date_granularity is in milliseconds
+            TimestampFormat::EpochNumber(last_timestamp * date_granularity as i64 / 1000)
+        });
 
         results.push_back(StringOSMObj::Node(StringNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id,
+            _uid: uid,
+            _user: user,
+            _version: denseinfo.version.get(index).map(|x| *x as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1
     }
@@ -257,20 +265,24 @@ fn decode_ways(
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
         // date_granularity is in milliseconds
-        let timestamp = TimestampFormat::EpochNumber(
-            way.info.timestamp.unwrap() * date_granularity as i64 / 1000,
-        );
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|ts| TimestampFormat::EpochNumber(ts * date_granularity as i64 / 1000));
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|x| x as u32),
+            _uid: way.info.uid.map(|x| x as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: way.info.version.map(|x| x as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
@@ -344,20 +356,24 @@ fn decode_relations(
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
         // date_granularity is in milliseconds
-        let timestamp = TimestampFormat::EpochNumber(
-            relation.info.timestamp.unwrap() * date_granularity as i64 / 1000,
-        );
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|ts| TimestampFormat::EpochNumber(ts * date_granularity as i64 / 1000));
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|x| x as u32),
+            _uid: relation.info.uid.map(|x| x as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: relation.info.version.map(|x| x as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
-- 
2.43.0


From c8227cbf1491a91382ccb2927589f2e5fa3af51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 19/23] fix: PBFReader: reading only one type does not hide the
 other types forever

---
 src/stringpbf/mod.rs | 64 +++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 9174a7c..206a1c0 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -504,26 +504,52 @@ pub struct PBFReader<R: Read> {
     filereader: FileReader<R>,
     buffer: VecDeque<StringOSMObj>,
     _sorted_assumption: bool,
-    object_filter: ObjectFilter,
 }
 
 impl<R: Read> PBFReader<R> {
     /// Iterate over all the nodes in this source
     pub fn nodes(&mut self) -> impl Iterator<Item = StringNode> + '_ {
-        self.object_filter = (true, false, false);
-        self.objects().filter_map(|o| o.into_node())
+        std::iter::from_fn(|| self.next_with_filter(&(true, false, false)))
+            .filter_map(|o| o.into_node())
     }
 
     /// Iterate over all the ways in this source
     pub fn ways(&mut self) -> impl Iterator<Item = StringWay> + '_ {
-        self.object_filter = (false, true, false);
-        self.objects().filter_map(|o| o.into_way())
+        std::iter::from_fn(|| self.next_with_filter(&(false, true, false)))
+            .filter_map(|o| o.into_way())
     }
 
     /// Iterate over all the relations in this source
     pub fn relations(&mut self) -> impl Iterator<Item = StringRelation> + '_ {
-        self.object_filter = (false, false, true);
-        self.objects().filter_map(|o| o.into_relation())
+        std::iter::from_fn(|| self.next_with_filter(&(false, false, true)))
+            .filter_map(|o| o.into_relation())
+    }
+
+    /// The next object, only decoding the types of object the filter wants. The buffer can still
+    /// have objects of other types, from before.
+    fn next_with_filter(&mut self, object_filter: &ObjectFilter) -> Option<StringOSMObj> {
+        let mut blob_data = Vec::new();
+        while self.buffer.is_empty() {
+            // get the next file block and fill up our buffer
+            // FIXME make this parallel
+
+            // get the next block
+            let mut blob = self.filereader.next()?;
+
+            blob_data.clear();
+            blob_raw_data(&mut blob, &mut blob_data, object_filter);
+            if blob_data.is_empty() {
+                // maybe the filter meant nothing was read
+                continue;
+            }
+            let block: osmformat::PrimitiveBlock =
+                osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
+
+            // Turn a block into OSM objects
+            decode_block_to_objs(block, object_filter, &mut self.buffer);
+        }
+
+        self.buffer.pop_front()
     }
 }
 
@@ -544,7 +570,6 @@ impl<R: Read> OSMReader for PBFReader<R> {
             filereader: FileReader::new(reader),
             buffer: VecDeque::new(),
             _sorted_assumption: false,
-            object_filter: (true, true, true),
         }
     }
 
@@ -564,27 +589,6 @@ impl<R: Read> OSMReader for PBFReader<R> {
     }
 
     fn next(&mut self) -> Option<StringOSMObj> {
-        let mut blob_data = Vec::new();
-        while self.buffer.is_empty() {
-            // get the next file block and fill up our buffer
-            // FIXME make this parallel
-
-            // get the next block
-            let mut blob = self.filereader.next()?;
-
-            blob_data.clear();
-            blob_raw_data(&mut blob, &mut blob_data, &self.object_filter);
-            if blob_data.is_empty() {
-                // maybe the filter meant nothing was read
-                continue;
-            }
-            let block: osmformat::PrimitiveBlock =
-                osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
-
-            // Turn a block into OSM objects
-            decode_block_to_objs(block, &self.object_filter, &mut self.buffer);
-        }
-
-        self.buffer.pop_front()
+        self.next_with_filter(&(true, true, true))
     }
 }
-- 
2.43.0


From dd7aac6c64fd3d061fa553022164d5291ec5f038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 20/23] fix: PBF: an I/O error is not the end of the file

---
 src/arcpbf/mod.rs    | 6 +++++-
 src/stringpbf/mod.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 3c017c3..a8a8430 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -57,7 +57,11 @@ impl<R: Read> FileReader<R> {
         loop {
             // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
             // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            let size = match self.reader.read_u32::<byteorder::BigEndian>() {
+                Ok(size) => size,
+                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return None,
+                Err(e) => panic!("error reading PBF: {}", e),
+            };
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 206a1c0..3583474 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -63,7 +63,11 @@ impl<R: Read> FileReader<R> {
         loop {
             // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
             // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            let size = match self.reader.read_u32::<byteorder::BigEndian>() {
+                Ok(size) => size,
+                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return None,
+                Err(e) => panic!("error reading PBF: {}", e),
+            };
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
-- 
2.43.0


From ef6884752d757a17d4b9f7d7cd73136a345d57d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 21/23] fix: ChangesetReader no longer loops forever on a
 truncated file

---
 src/changesets.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index 81244de..fd48ca8 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -204,6 +204,7 @@ impl<R: Read> ChangesetReader<R> {
                                 ensure!(v.is_some(), "No v for tag");
                                 tags.insert(k.unwrap(), v.unwrap());
                             }
+                            Event::Eof => bail!("end of file inside a changeset"),
                             _ => continue,
                         }
                     }
-- 
2.43.0


From 89776106dd9932b137e77dc057760cbd925ad300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:03 +0000
Subject: [PATCH 22/23] fix: ChangesetTagReader never reports the id of another
 changeset, nor hides a truncated file

---
 src/changesets.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index fd48ca8..1acf95a 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -346,19 +346,22 @@ impl<R: Read> ChangesetTagReader<R> {
         loop {
             match self.reader.read_event_into(&mut buf)? {
                 Event::Eof => {
+                    ensure!(
+                        self.curr_id.take().is_none(),
+                        "end of file inside a changeset"
+                    );
                     return Ok(None);
                 }
                 Event::End(ref e) => {
                     if e.name().local_name().as_ref() == b"changeset" {
-                        ensure!(self.curr_id.is_some(), "Should be an id set");
+                        let id = self.curr_id.take();
+                        ensure!(id.is_some(), "Should be an id set");
 
-                        return Ok(Some((
-                            self.curr_id.unwrap(),
-                            std::mem::take(&mut self.tags),
-                        )));
+                        return Ok(Some((id.unwrap(), std::mem::take(&mut self.tags))));
                     }
                 }
                 Event::Start(ref e) if e.name().local_name().as_ref() == b"changeset" => {
+                    self.curr_id = None;
                     for attr in e.attributes() {
                         let attr = attr?;
                         if attr.key.local_name().as_ref() == b"id" {
-- 
2.43.0


From b7b4b1d9cdd2c6c064d85670893fc2a68fdad032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:57 +0000
Subject: [PATCH 23/23] fix: a version or generator header was written in
 addition to the default one, repeating the attribute

---
 src/xml/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index f6fadd1..22d5c39 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -377,11 +377,14 @@ impl<W: Write> XMLWriter<W> {
     fn ensure_header(&mut self) -> Result<(), OSMWriteError> {
         if self._state == State::Initial {
             writeln!(self.writer, "<?xml version=\"1.0\" encoding=\"utf-8\"?>")?;
-            write!(
-                self.writer,
-                "<osm version=\"0.6\" generator=\"osmio/{}\"",
-                version()
-            )?;
+            write!(self.writer, "<osm")?;
+            // an attribute may only be there once
+            if !self.headers.contains_key("version") {
+                write!(self.writer, " version=\"0.6\"")?;
+            }
+            if !self.headers.contains_key("generator") {
+                write!(self.writer, " generator=\"osmio/{}\"", version())?;
+            }
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-- 
2.43.0

