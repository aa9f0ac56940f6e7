From 5f4c8d2e1f95b48a8f9f96bad438015b8eef29ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 01/25] fix: do not trust the length of unknown protobuf fields

A length close to 2^64 overflowed the reader position: a panic with overflow
checks, an endless loop or a misread without.
---
 src/pb.rs           | 12 +++++++++++-
 src/pb/merkledag.rs |  4 ++--
 src/pb/unixfs.rs    |  6 +++---
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pb.rs b/src/pb.rs
index 1206990..937dbeb 100644
--- a/src/pb.rs
+++ b/src/pb.rs
@@ -2,7 +2,7 @@ use alloc::borrow::Cow;
 use core::convert::TryFrom;
 use core::fmt;
 use core::ops::Range;
-use quick_protobuf::{errors::Result as ProtobufResult, Writer, WriterBackend};
+use quick_protobuf::{errors::Result as ProtobufResult, BytesReader, Writer, WriterBackend};
 
 pub(crate) mod merkledag;
 pub use merkledag::PBLink;
@@ -15,6 +15,16 @@ pub use unixfs::Data as UnixFs;
 /// DAG-PB multicodec code
 pub(crate) const DAG_PB: u64 = 0x70;
 
+/// Skips over an unknown field. `BytesReader::read_unknown` trusts the length of a length-delimited
+/// field, which overflows on a large enough length; `read_bytes` requires the field to be contained
+/// in the buffer.
+fn skip_unknown(r: &mut BytesReader, bytes: &[u8], tag: u32) -> ProtobufResult<()> {
+    match tag & 0x7 {
+        2 => r.read_bytes(bytes).map(|_| ()),
+        _ => r.read_unknown(bytes, tag),
+    }
+}
+
 /// Failure cases for nested serialization, which allows recovery of the outer `PBNode` when desired.
 #[derive(Debug)]
 pub enum ParsingFailed<'a> {
diff --git a/src/pb/merkledag.rs b/src/pb/merkledag.rs
index e55e5de..07df01d 100644
--- a/src/pb/merkledag.rs
+++ b/src/pb/merkledag.rs
@@ -30,7 +30,7 @@ impl<'a> MessageRead<'a> for PBLink<'a> {
                 Ok(18) => msg.Name = Some(r.read_string(bytes).map(Cow::Borrowed)?),
                 Ok(24) => msg.Tsize = Some(r.read_uint64(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -73,7 +73,7 @@ impl<'a> MessageRead<'a> for PBNode<'a> {
                 Ok(18) => msg.Links.push(r.read_message::<PBLink<'a>>(bytes)?),
                 Ok(10) => msg.Data = Some(r.read_bytes(bytes).map(Cow::Borrowed)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
diff --git a/src/pb/unixfs.rs b/src/pb/unixfs.rs
index 0027a29..1fda0f2 100644
--- a/src/pb/unixfs.rs
+++ b/src/pb/unixfs.rs
@@ -41,7 +41,7 @@ impl<'a> MessageRead<'a> for Data<'a> {
                 Ok(56) => msg.mode = Some(r.read_uint32(bytes)?),
                 Ok(66) => msg.mtime = Some(r.read_message::<UnixTime>(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -173,7 +173,7 @@ impl<'a> MessageRead<'a> for UnixTime {
                 Ok(8) => msg.Seconds = r.read_int64(bytes)?,
                 Ok(21) => msg.FractionalNanoseconds = Some(r.read_fixed32(bytes)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
@@ -206,7 +206,7 @@ impl<'a> MessageRead<'a> for Metadata<'a> {
             match r.next_tag(bytes) {
                 Ok(10) => msg.MimeType = Some(r.read_string(bytes).map(Cow::Borrowed)?),
                 Ok(t) => {
-                    r.read_unknown(bytes, t)?;
+                    skip_unknown(r, bytes, t)?;
                 }
                 Err(e) => return Err(e),
             }
-- 
2.43.0


From b20246bd6ce0de232e03cfc7bd0bf963f82bff8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 02/25] fix: report undefined UnixFS types instead of reading
 them as Raw

---
 src/pb/unixfs.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pb/unixfs.rs b/src/pb/unixfs.rs
index 1fda0f2..0b11c8d 100644
--- a/src/pb/unixfs.rs
+++ b/src/pb/unixfs.rs
@@ -32,7 +32,17 @@ impl<'a> MessageRead<'a> for Data<'a> {
         let mut msg = Self::default();
         while !r.is_eof() {
             match r.next_tag(bytes) {
-                Ok(8) => msg.Type = r.read_enum(bytes)?,
+                Ok(8) => {
+                    let raw = r.read_int32(bytes)?;
+                    msg.Type = raw.into();
+                    // the conversion defaults to Raw
+                    if i32::from(msg.Type) != raw {
+                        return Err(quick_protobuf::Error::Message(format!(
+                            "undefined UnixFS type: {}",
+                            raw
+                        )));
+                    }
+                }
                 Ok(18) => msg.Data = Some(r.read_bytes(bytes).map(Cow::Borrowed)?),
                 Ok(24) => msg.filesize = Some(r.read_uint64(bytes)?),
                 Ok(32) => msg.blocksizes.push(r.read_uint64(bytes)?),
-- 
2.43.0


From 755865c1aff5b35801963817a5955478dfffc634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:02 +0000
Subject: [PATCH 03/25] fix: read leaf blocks without filesize

The size defaults to the length of the data, as the code above already assumed.
---
 src/file/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index f23f419..668b248 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -148,7 +148,7 @@ impl<'a> FileReader<'a> {
                 data,
                 blocksizes: inner.data.blocksizes,
                 metadata,
-                file_size: inner.data.filesize.unwrap(),
+                file_size: inner.data.filesize.unwrap_or(data.len() as u64),
             })
         }
     }
-- 
2.43.0


From efa8cdfc4b7be7e5e0843e9de5b3782454d6b8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 04/25] fix: file sizes close to 2^64 overflow while reading a
 file

---
 src/file/reader.rs | 11 +++++++++--
 src/pb.rs          |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index 668b248..b2f2c51 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -130,13 +130,20 @@ impl<'a> FileReader<'a> {
                 .into());
             }
 
+            // the sizes are not trusted, they might add up to more than what fits
+            let end_of = |filesize: u64| {
+                offset
+                    .checked_add(filesize)
+                    .ok_or(FileError::TreeExpandsOnLinks)
+            };
+
             let end = if inner.links.is_empty() {
                 // can unwrap because `data` is all of the data
                 let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
-                Ending::Chunk(offset + filesize)
+                Ending::Chunk(end_of(filesize)?)
             } else {
                 match inner.data.filesize {
-                    Some(filesize) => Ending::TreeCoverage(offset + filesize),
+                    Some(filesize) => Ending::TreeCoverage(end_of(filesize)?),
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
             };
diff --git a/src/pb.rs b/src/pb.rs
index 937dbeb..0e58e04 100644
--- a/src/pb.rs
+++ b/src/pb.rs
@@ -199,8 +199,8 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|(link, blocksize)| {
             let returned_base = self.base;
-            self.base += blocksize;
-            (link, returned_base..(returned_base + blocksize))
+            self.base = self.base.saturating_add(blocksize);
+            (link, returned_base..self.base)
         })
     }
 
-- 
2.43.0


From 676609e5d0d04b6949ad568221a407063900be72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 05/25] fix: report link blocks whose links cover more than the
 file size

Only the first link was checked when continuing the visit, any later one could
reach outside and make the content longer than the reported file size.
---
 src/file/reader.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index b2f2c51..19fd23d 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -142,7 +142,17 @@ impl<'a> FileReader<'a> {
                 let filesize = inner.data.filesize.unwrap_or(data.len() as u64);
                 Ending::Chunk(end_of(filesize)?)
             } else {
+                let covered = inner
+                    .data
+                    .blocksizes
+                    .iter()
+                    .try_fold(0u64, |sum, size| sum.checked_add(*size));
+
                 match inner.data.filesize {
+                    Some(filesize) if covered.map(|sum| sum > filesize).unwrap_or(true) => {
+                        // only the first of the links would be noticed when continuing
+                        return Err(FileError::TreeExpandsOnLinks.into());
+                    }
                     Some(filesize) => Ending::TreeCoverage(end_of(filesize)?),
                     None => return Err(FileError::IntermediateNodeWithoutFileSize.into()),
                 }
-- 
2.43.0


From e3165860f23a93a7143f99e07d3d8b08a4d3805b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 06/25] fix: ranged visit panics on a block shorter than its
 range

---
 src/file/visit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 4d96275..589e2a6 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -273,7 +273,9 @@ fn target_slice<'a>(content: &'a [u8], block: &Range<u64>, target: &Range<u64>)
             end = start + (target.end - target.start) as usize;
         }
 
-        &content[start..end]
+        // the block might have less content than the link to it promised
+        let end = min(end, content.len());
+        &content[min(start, end)..end]
     }
 }
 
-- 
2.43.0


From c94b62f8a310c5281e137166f22f33a6e78c70b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 07/25] fix: end the file visit when a link block adds nothing
 to visit

The returned FileVisit had no pending links, and panicked when asked for them.
---
 src/file/visit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file/visit.rs b/src/file/visit.rs
index 589e2a6..0bc3ed1 100644
--- a/src/file/visit.rs
+++ b/src/file/visit.rs
@@ -189,6 +189,12 @@ impl FileVisit {
                 // reverse to keep the next link we need to traverse as last, where pop() operates.
                 (&mut self.pending[before..]).reverse();
 
+                if self.pending.is_empty() {
+                    // none of the links were in the target range
+                    *cache = Some(self.pending.into());
+                    return Ok((&[][..], None));
+                }
+
                 self.state = traversal;
                 Ok((&[][..], Some(self)))
             }
-- 
2.43.0


From 899543282e82df0cb41783a316671ae6bb804cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 08/25] fix: walk panics when a later block of a file cannot be
 parsed

---
 src/walk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index a3daa93..aff5f36 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -689,7 +689,8 @@ impl From<FileReadFailed> for Error {
         match e {
             File(e) => Error::File(e),
             UnexpectedType(ut) => Error::UnexpectedType(ut),
-            Read(_) => unreachable!("FileVisit does not parse any blocks"),
+            Read(Some(e)) => Error::DagPbParsingFailed(e),
+            Read(None) => Error::EmptyDagPbNode,
             InvalidCid(l) => Error::InvalidCid(l),
         }
     }
-- 
2.43.0


From ff3e12f89a095a952be069122c657c35a09736bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 09/25] fix: walk panics on or follows link names which are not
 path components

An empty name hit a todo!, one with a slash an assert, one with a character
across the shard prefix a slicing panic. ".." was pushed to the path as is.
---
 src/walk.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index aff5f36..81261a5 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -28,23 +28,28 @@ pub struct Walker {
     should_continue: bool,
 }
 
+/// Returns true if the name can be pushed to a path without escaping from or staying in the parent.
+fn is_path_component(name: &str) -> bool {
+    !name.is_empty() && name != "." && name != ".." && !name.contains('/')
+}
+
 /// Converts a link of specifically a Directory (and not a link of a HAMTShard).
 fn convert_link(
     nested_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
     let name = match link.Name {
-        Some(Cow::Borrowed(s)) if !s.is_empty() => s.to_owned(),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
+        Some(Cow::Borrowed(s)) if is_path_component(s) => s.to_owned(),
+        None => return Err(Error::InvalidLinkName(nth, String::new())),
+        Some(Cow::Borrowed(s)) => return Err(Error::InvalidLinkName(nth, s.to_owned())),
         Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
     };
-    assert!(!name.contains('/'));
     Ok((cid, name, nested_depth))
 }
 
@@ -54,19 +59,21 @@ fn convert_sharded_link(
     sibling_depth: usize,
     nth: usize,
     link: PBLink<'_>,
-) -> Result<(Cid, String, usize), InvalidCidInLink> {
+) -> Result<(Cid, String, usize), Error> {
     let hash = link.Hash.as_deref().unwrap_or_default();
     let cid = match Cid::try_from(hash) {
         Ok(cid) => cid,
-        Err(e) => return Err(InvalidCidInLink::from((nth, link, e))),
+        Err(e) => return Err(InvalidCidInLink::from((nth, link, e)).into()),
     };
     let (depth, name) = match link.Name {
-        Some(Cow::Borrowed(s)) if s.len() > 2 => (nested_depth, s[2..].to_owned()),
         Some(Cow::Borrowed(s)) if s.len() == 2 => (sibling_depth, String::from("")),
-        None | Some(Cow::Borrowed(_)) => todo!("link cannot be empty"),
+        Some(Cow::Borrowed(s)) => match s.get(2..) {
+            Some(name) if is_path_component(name) => (nested_depth, name.to_owned()),
+            _ => return Err(Error::InvalidLinkName(nth, s.to_owned())),
+        },
+        None => return Err(Error::InvalidLinkName(nth, String::new())),
         Some(Cow::Owned(_s)) => unreachable!("FlatUnixFs is never transformed to owned"),
     };
-    assert!(!name.contains('/'));
     Ok((cid, name, depth))
 }
 
@@ -656,6 +663,10 @@ pub enum Error {
     /// dag-pb link could not be converted to a Cid
     InvalidCid(InvalidCidInLink),
 
+    /// The nth (zero-based) dag-pb link of a directory has a name which cannot be used as a path
+    /// component
+    InvalidLinkName(usize, String),
+
     /// A File has an invalid structure
     File(FileError),
 
@@ -719,6 +730,9 @@ impl fmt::Display for Error {
             UnixFsParsingFailed(e) => write!(fmt, "failed to parse the inner UnixFs: {}", e),
             EmptyDagPbNode => write!(fmt, "failed to parse the inner UnixFs: no data"),
             InvalidCid(e) => write!(fmt, "link contained an invalid Cid: {}", e),
+            InvalidLinkName(nth, name) => {
+                write!(fmt, "link #{} has an invalid name: {:?}", nth, name)
+            }
             File(e) => write!(fmt, "invalid file: {}", e),
             UnsupportedDirectory(udp) => write!(fmt, "unsupported directory: {}", udp),
             UnsupportedHAMTShard(se) => write!(fmt, "unsupported hamtshard: {}", se),
-- 
2.43.0


From 85aceca8de95a4604c6a4c95d93d2222b72c18e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 10/25] fix: walk panics when a bucket is not a shard

---
 src/walk.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/walk.rs b/src/walk.rs
index 81261a5..cb5333b 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -160,6 +160,13 @@ impl Walker {
         let flat = FlatUnixFs::try_from(bytes)?;
         let metadata = Metadata::from(&flat.data);
 
+        if let (Some(_), Some((_, name, _))) = (&current, &next) {
+            // other than the root, only the buckets of a sharded directory are without a name
+            if name.is_empty() && flat.data.Type != UnixFsType::HAMTShard {
+                return Err(Error::UnexpectedType(flat.data.Type.into()));
+            }
+        }
+
         match flat.data.Type {
             UnixFsType::Directory => {
                 let flat = crate::dir::check_directory_supported(flat)?;
-- 
2.43.0


From de6bb729e237b05db90ae6d71ffe7ac2f4ca367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:34 +0000
Subject: [PATCH 11/25] fix: walk panics on a bucket following a directory

An empty directory can precede any other bucket of a sharded directory. The
first bucket below the root was also reported with the identifier of the root.
---
 src/walk.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/walk.rs b/src/walk.rs
index cb5333b..bc8e526 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -479,10 +479,7 @@ impl InnerEntry {
     fn as_bucket(&mut self, cid: Cid, name: &str, depth: usize) {
         use InnerKind::*;
         match self.kind {
-            BucketAtRoot => {
-                assert_eq!(self.depth, depth, "{:?}", self.path);
-            }
-            RootBucket | Bucket | File(None, _) | Symlink => {
+            BucketAtRoot | RootBucket | Bucket | Directory | File(None, _) | Symlink => {
                 self.cid = cid;
                 self.kind = Bucket;
 
-- 
2.43.0


From f2da557c79293379d3b6a227c427c3bb8e468051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 12/25] fix: walk with a root name of multiple components
 panics or loses them

---
 src/walk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index bc8e526..8a9eb6c 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -81,7 +81,7 @@ impl Walker {
     /// Returns a new instance of a walker, ready to start from the given `Cid`.
     pub fn new(cid: Cid, root_name: String) -> Walker {
         // 1 == Path::ancestors().count() for an empty path
-        let depth = if root_name.is_empty() { 1 } else { 2 };
+        let depth = Path::new(&root_name).ancestors().count();
         let next = Some((cid, root_name, depth));
 
         Walker {
-- 
2.43.0


From e369bcb972ee5402db99fe9b60e796fdc8fbb44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 13/25] fix: sharded lookup panics on names with a character
 across the prefix

---
 src/dir/sharded_lookup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dir/sharded_lookup.rs b/src/dir/sharded_lookup.rs
index 57aceb1..75a3e16 100644
--- a/src/dir/sharded_lookup.rs
+++ b/src/dir/sharded_lookup.rs
@@ -169,7 +169,7 @@ impl<'needle> ShardedLookup<'needle> {
         for (i, link) in iter.enumerate() {
             let name = link.Name.as_deref().unwrap_or_default();
 
-            if name.len() > 2 && &name[2..] == needle {
+            if name.len() > 2 && name.get(2..) == Some(needle) {
                 if let Some(first) = found.take() {
                     return Err(MultipleMatchingLinks::from((first, (i, link))).into());
                 } else {
-- 
2.43.0


From c9c65b26e720e1fc6b5102685a5dfee25ce136ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 14/25] fix: wrapping a block which ends in an empty data field
 panics

---
 src/dagpb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dagpb.rs b/src/dagpb.rs
index 6d24139..4671ef0 100644
--- a/src/dagpb.rs
+++ b/src/dagpb.rs
@@ -50,7 +50,7 @@ fn subslice_to_range(full: &[u8], sub: &[u8]) -> Option<Range<usize>> {
         //
         // if there are two slices of a continuous chunk, [A|B] we need to make sure B will not be
         // calculated as subslice of A
-        .and_then(|start| if start >= max { None } else { Some(start) })
+        .and_then(|start| if start > max - amt { None } else { Some(start) })
         .map(|start| start..(start + amt))
 }
 
-- 
2.43.0


From d26d618cc7b5078157595a2b462cf95626cb3018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 15/25] fix: FileVisit::file_size returns the size of the
 latest block

---
 src/file/reader.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file/reader.rs b/src/file/reader.rs
index 19fd23d..f55a855 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -96,7 +96,10 @@ impl<'a> FileReader<'a> {
             return Err(FileError::NonRootDefinesMetadata(metadata).into());
         }
 
-        Self::from_parts(inner, offset, traversal.metadata)
+        let mut reader = Self::from_parts(inner, offset, traversal.metadata)?;
+        // the size of the whole file is what the root block said, not the size of this block
+        reader.file_size = traversal.file_size;
+        Ok(reader)
     }
 
     fn from_parts(
-- 
2.43.0


From 43c010190e45944980876edae8cccc41381a1622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 16/25] fix: importing never ends with a branching factor of
 one

---
 src/file/adder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 3ab0384..1c90f8b 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -423,8 +423,12 @@ impl From<BalancedCollector> for Collector {
 
 impl BalancedCollector {
     /// Configure Balanced collector with the given branching factor.
+    ///
+    /// # Panics
+    ///
+    /// When the branching factor is less than two, as the number of links would never get smaller.
     pub fn with_branching_factor(branching_factor: usize) -> Self {
-        assert!(branching_factor > 0);
+        assert!(branching_factor > 1);
 
         Self {
             branching_factor,
-- 
2.43.0


From abdd7b59c1ecae9b956ecd7b8ea318b7a3a5e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 17/25] fix: large branching factors fail to allocate

---
 src/file/adder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 1c90f8b..256bda9 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -492,12 +492,14 @@ impl BalancedCollector {
         let mut reused_links = core::mem::take(&mut self.reused_links);
         let mut reused_blocksizes = core::mem::take(&mut self.reused_blocksizes);
 
-        if let Some(need) = self.branching_factor.checked_sub(reused_links.capacity()) {
+        // there will never be more links in a block than there are pending
+        let most_links = self.branching_factor.min(pending.len());
+
+        if let Some(need) = most_links.checked_sub(reused_links.capacity()) {
             reused_links.reserve(need);
         }
 
-        if let Some(need) = self
-            .branching_factor
+        if let Some(need) = most_links
             .checked_sub(reused_blocksizes.capacity())
         {
             reused_blocksizes.reserve(need);
-- 
2.43.0


From 0cf1afeea8ea8eabb7df21b9ed47fb5b1e63b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 18/25] fix: large chunk sizes fail to allocate

---
 src/file/adder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 256bda9..1c59495 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -179,8 +179,8 @@ impl FileAdder {
 
             if self.block_buffer.capacity() == 0 {
                 // delay the internal buffer creation until this point, as the caller clearly wants
-                // to use it.
-                self.block_buffer.reserve(self.size_hint());
+                // to use it. the limit is for not to allocate a lot for a large chunk size up front.
+                self.block_buffer.reserve(self.size_hint().min(1024 * 1024));
             }
 
             self.block_buffer.extend_from_slice(accepted);
-- 
2.43.0


From 153c0a7064757caa2949fdd411aaac49447f0e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 19/25] fix: builder refuses to modify its only root level
 entry

Without wrap_with_directory, set_metadata on the existing root level
directory failed with TooManyRootLevelEntries, as did putting a link on
it instead of failing with DuplicatePath.
---
 src/dir/builder/buffered.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dir/builder/buffered.rs b/src/dir/builder/buffered.rs
index 4ef7f94..25f82cb 100644
--- a/src/dir/builder/buffered.rs
+++ b/src/dir/builder/buffered.rs
@@ -127,7 +127,8 @@ impl BufferingTreeBuilder {
             if last {
                 let mut next_id = Some(*counter);
 
-                let ret = if full {
+                // an entry which is already there does not need any more room
+                let ret = if full && !dir_builder.nodes.contains_key(next) {
                     Err(TreeBuildingFailed::TooManyRootLevelEntries)
                 } else {
                     f(dir_builder, next.to_string(), &mut next_id)
-- 
2.43.0


From b352117d62f37753f1830fdb0ad40df7c3d53562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 20/25] fix: PostOrderIterator panics when continued after an
 error

The directories above the too large one were still pending, but could
not be rendered without the Cid of the failed one.
---
 src/dir/builder/iter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index ee18b25..e87edb3 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -235,7 +235,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the parents cannot be rendered without this directory
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
@@ -282,7 +286,11 @@ impl PostOrderIterator {
                         &self.opts.block_size_limit,
                     ) {
                         Ok(leaf) => leaf,
-                        Err(e) => return Some(Err(e)),
+                        Err(e) => {
+                            // the parents cannot be rendered without this directory
+                            self.pending.clear();
+                            return Some(Err(e));
+                        }
                     };
 
                     self.cid = Some(leaf.link);
-- 
2.43.0


From 167ae2a753abd180bb1280ad112e46bf37dd7309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:51 +0000
Subject: [PATCH 21/25] fix: content next to the links of a file is silently
 dropped

---
 src/file.rs        | 6 ++++++
 src/file/reader.rs | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/file.rs b/src/file.rs
index 60ba204..486f702 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -76,6 +76,8 @@ pub enum FileError {
     LinksAndBlocksizesMismatch,
     /// Errored when the filesize is non-zero.
     NoLinksNoContent,
+    /// Unsupported: there is content next to the links.
+    ContentBesideLinks,
     /// Unsupported: non-root block defines metadata.
     NonRootDefinesMetadata(Metadata),
     /// A non-leaf node in the tree has no filesize value which is used to determine the file range
@@ -115,6 +117,10 @@ impl fmt::Display for FileError {
                 fmt,
                 "filesize is non-zero while there are no links or content"
             ),
+            ContentBesideLinks => write!(
+                fmt,
+                "unsupported: both links and content in the same block"
+            ),
             NonRootDefinesMetadata(metadata) => {
                 write!(fmt, "unsupported: non-root defines {:?}", metadata)
             }
diff --git a/src/file/reader.rs b/src/file/reader.rs
index f55a855..6423bae 100644
--- a/src/file/reader.rs
+++ b/src/file/reader.rs
@@ -121,6 +121,9 @@ impl<'a> FileReader<'a> {
             Err(FileError::LinksAndBlocksizesMismatch.into())
         } else if empty_or_no_content && !is_zero_bytes && inner.links.is_empty() {
             Err(FileError::NoLinksNoContent.into())
+        } else if !empty_or_no_content && !inner.links.is_empty() {
+            // the content would be silently dropped
+            Err(FileError::ContentBesideLinks.into())
         } else {
             // raw and file seem to be same except the raw is preferred in trickle dag
             let data = inner.data.Data.unwrap_borrowed_or_empty();
-- 
2.43.0


From d7e1fe7b0e2595d2e4cd7c97287db0ceaca3f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 22/25] fix: directory metadata is never written

The metadata given to BufferingTreeBuilder::set_metadata was stored, but
dropped when the directory was rendered.
---
 src/dir/builder/dir_builder.rs |  2 +-
 src/dir/builder/iter.rs        | 17 +++++++++++++++--
 src/lib.rs                     |  9 +++++++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/dir/builder/dir_builder.rs b/src/dir/builder/dir_builder.rs
index 406b74e..12b7910 100644
--- a/src/dir/builder/dir_builder.rs
+++ b/src/dir/builder/dir_builder.rs
@@ -12,7 +12,7 @@ pub(super) struct DirBuilder {
     /// Immediate files, symlinks or directories in this directory
     pub nodes: BTreeMap<String, Entry>,
     /// Metadata for this directory
-    metadata: Metadata,
+    pub metadata: Metadata,
     /// Id of the parent; None for the root node
     pub parent_id: Option<u64>,
     /// Internal id, used for propagating Cids back from children during post order visit.
diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index e87edb3..67867f1 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -1,4 +1,5 @@
 use crate::pb::DAG_PB;
+use crate::Metadata;
 
 use super::{
     CustomFlatUnixFs, DirBuilder, Entry, Leaf, NamedLeaf, TreeConstructionFailed, TreeOptions,
@@ -58,9 +59,11 @@ enum Visited {
         /// Leaves will be stored directly in this field when there are no DirBuilder descendants,
         /// in the `PostOrderIterator::persisted_cids` otherwise.
         leaves: LeafStorage,
+        metadata: Metadata,
     },
     PostRoot {
         leaves: LeafStorage,
+        metadata: Metadata,
     },
 }
 
@@ -82,6 +85,7 @@ impl PostOrderIterator {
 
     fn render_directory(
         links: &[Option<NamedLeaf>],
+        metadata: &Metadata,
         buffer: &mut Vec<u8>,
         block_size_limit: &Option<u64>,
     ) -> Result<Leaf, TreeConstructionFailed> {
@@ -106,6 +110,8 @@ impl PostOrderIterator {
             links,
             data: UnixFs {
                 Type: UnixFsType::Directory,
+                mode: metadata.mode(),
+                mtime: metadata.to_unix_time(),
                 ..Default::default()
             },
         };
@@ -188,7 +194,10 @@ impl PostOrderIterator {
                         leaves.into()
                     };
 
-                    self.pending.push(Visited::PostRoot { leaves });
+                    self.pending.push(Visited::PostRoot {
+                        leaves,
+                        metadata: node.metadata,
+                    });
                     self.pending.append(children);
                 }
                 Visited::Descent {
@@ -214,6 +223,7 @@ impl PostOrderIterator {
                         name,
                         depth,
                         leaves,
+                        metadata: node.metadata,
                         index,
                     });
 
@@ -223,6 +233,7 @@ impl PostOrderIterator {
                     parent_id,
                     name,
                     leaves,
+                    metadata,
                     index,
                     ..
                 } => {
@@ -231,6 +242,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
@@ -271,7 +283,7 @@ impl PostOrderIterator {
                         block: &self.block_buffer,
                     }));
                 }
-                Visited::PostRoot { leaves } => {
+                Visited::PostRoot { leaves, metadata } => {
                     let leaves = leaves.into_inner(&mut self.persisted_cids);
 
                     if !self.opts.wrap_with_directory {
@@ -282,6 +294,7 @@ impl PostOrderIterator {
 
                     let leaf = match Self::render_directory(
                         &leaves,
+                        &metadata,
                         buffer,
                         &self.opts.block_size_limit,
                     ) {
diff --git a/src/lib.rs b/src/lib.rs
index 7a611b2..8ace248 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -164,6 +164,15 @@ impl Metadata {
         self.mtime()
             .map(|(seconds, nanos)| filetime::FileTime::from_unix_time(seconds, nanos))
     }
+
+    /// Returns the mtime as it is written into an UnixFs message.
+    fn to_unix_time(&self) -> Option<pb::unixfs::UnixTime> {
+        self.mtime.map(|(seconds, nanos)| pb::unixfs::UnixTime {
+            Seconds: seconds,
+            // zero is expected to be left out
+            FractionalNanoseconds: Some(nanos).filter(|nanos| *nanos != 0),
+        })
+    }
 }
 
 impl<'a> From<&'a UnixFs<'_>> for Metadata {
-- 
2.43.0


From 56a6bba5899768a870957e75d2c44be323731d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:23 +0000
Subject: [PATCH 23/25] fix: dropping a tree builder with a very long path
 overflows the stack

---
 src/dir/builder/dir_builder.rs | 18 ++++++++++++++++++
 src/dir/builder/iter.rs        | 14 ++++++++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/dir/builder/dir_builder.rs b/src/dir/builder/dir_builder.rs
index 12b7910..c745a1a 100644
--- a/src/dir/builder/dir_builder.rs
+++ b/src/dir/builder/dir_builder.rs
@@ -76,3 +76,21 @@ impl DirBuilder {
         self.metadata = metadata;
     }
 }
+
+impl Drop for DirBuilder {
+    /// Dropping the subdirectories recursively would need a stack as deep as the tree, which is as
+    /// deep as the longest path.
+    fn drop(&mut self) {
+        let mut pending = vec![core::mem::take(&mut self.nodes)];
+
+        while let Some(nodes) = pending.pop() {
+            for (_, entry) in nodes {
+                if let Entry::Directory(mut dir) = entry {
+                    if !dir.is_empty() {
+                        pending.push(core::mem::take(&mut dir.nodes));
+                    }
+                }
+            }
+        }
+    }
+}
diff --git a/src/dir/builder/iter.rs b/src/dir/builder/iter.rs
index 67867f1..462ebd1 100644
--- a/src/dir/builder/iter.rs
+++ b/src/dir/builder/iter.rs
@@ -182,9 +182,10 @@ impl PostOrderIterator {
             update_full_path((&mut self.full_path, &mut self.old_depth), name, depth);
 
             match visited {
-                Visited::DescentRoot(node) => {
+                Visited::DescentRoot(mut node) => {
                     let children = &mut self.reused_children;
-                    let leaves = partition_children_leaves(depth, node.nodes.into_iter(), children);
+                    let nodes = core::mem::take(&mut node.nodes);
+                    let leaves = partition_children_leaves(depth, nodes.into_iter(), children);
                     let any_children = !children.is_empty();
 
                     let leaves = if any_children {
@@ -196,18 +197,19 @@ impl PostOrderIterator {
 
                     self.pending.push(Visited::PostRoot {
                         leaves,
-                        metadata: node.metadata,
+                        metadata: core::mem::take(&mut node.metadata),
                     });
                     self.pending.append(children);
                 }
                 Visited::Descent {
-                    node,
+                    mut node,
                     name,
                     depth,
                     index,
                 } => {
                     let children = &mut self.reused_children;
-                    let leaves = partition_children_leaves(depth, node.nodes.into_iter(), children);
+                    let nodes = core::mem::take(&mut node.nodes);
+                    let leaves = partition_children_leaves(depth, nodes.into_iter(), children);
                     let any_children = !children.is_empty();
                     let parent_id = node.parent_id.expect("only roots parent_id is None");
 
@@ -223,7 +225,7 @@ impl PostOrderIterator {
                         name,
                         depth,
                         leaves,
-                        metadata: node.metadata,
+                        metadata: core::mem::take(&mut node.metadata),
                         index,
                     });
 
-- 
2.43.0


From 2561b6a3e248a364dc659d9190e3bcdbc80ccf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:55 +0000
Subject: [PATCH 24/25] fix: importing many chunks takes quadratic time

The links of the finished link blocks were searched through for every chunk
once there were more of them than the branching factor.
---
 src/file/adder.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/file/adder.rs b/src/file/adder.rs
index 1c59495..336c297 100644
--- a/src/file/adder.rs
+++ b/src/file/adder.rs
@@ -20,9 +20,6 @@ pub struct FileAdder {
     block_buffer: Vec<u8>,
     // all unflushed links as a flat vec; this is compacted as we grow and need to create a link
     // block for the last N blocks, as decided by the collector.
-    // FIXME: this is a cause of likely "accidentally quadratic" behavior visible when adding a
-    // large file and using a minimal chunk size. Could be that this must be moved to Collector to
-    // help collector (or layout) to decide how this should be persisted.
     unflushed_links: Vec<Link>,
 }
 
@@ -527,13 +524,15 @@ impl BalancedCollector {
             // blocks.
             let mut last_overwrite = None;
 
-            while let Some(mut first_at) = &pending[starting_point..]
-                .iter()
-                .position(|Link { depth, .. }| depth == &level)
-            {
-                // fix first_at as absolute index from being possible relative to the
-                // starting_point
-                first_at += starting_point;
+            // the links of higher levels come before the ones of this level, and can be many: look
+            // for the first one of this level without going through all of them for every chunk.
+            while starting_point < pending.len() {
+                let first_at = starting_point
+                    + pending[starting_point..].partition_point(|link| link.depth > level);
+
+                if first_at == pending.len() {
+                    break;
+                }
 
                 if !finishing && pending[first_at..].len() <= self.branching_factor {
                     if let Some(last_overwrite) = last_overwrite {
-- 
2.43.0


From ee55065a1be9ed2890b239d421adf5c1a9696c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:13 +0000
Subject: [PATCH 25/25] fix: errors of walks and lookups do not give their
 cause as source

---
 src/dir.rs                |  2 +-
 src/dir/sharded_lookup.rs |  1 +
 src/walk.rs               | 12 +++++++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/dir.rs b/src/dir.rs
index f1e782e..7a76830 100644
--- a/src/dir.rs
+++ b/src/dir.rs
@@ -133,7 +133,7 @@ impl std::error::Error for ResolveError {
         use ResolveError::*;
         match self {
             Read(e) => Some(e),
-            Lookup(LookupError::Read(Some(e))) => Some(e),
+            Lookup(e) => e.source(),
             _ => None,
         }
     }
diff --git a/src/dir/sharded_lookup.rs b/src/dir/sharded_lookup.rs
index 75a3e16..e2c4bd4 100644
--- a/src/dir/sharded_lookup.rs
+++ b/src/dir/sharded_lookup.rs
@@ -327,6 +327,7 @@ impl std::error::Error for LookupError {
     fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
         use LookupError::*;
         match self {
+            InvalidCid(e) => Some(e),
             Read(Some(e)) => Some(e),
             _ => None,
         }
diff --git a/src/walk.rs b/src/walk.rs
index 8a9eb6c..1c436d9 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -744,7 +744,17 @@ impl fmt::Display for Error {
     }
 }
 
-impl std::error::Error for Error {}
+impl std::error::Error for Error {
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use Error::*;
+
+        match self {
+            DagPbParsingFailed(e) | UnixFsParsingFailed(e) => Some(e),
+            InvalidCid(e) => Some(e),
+            _ => None,
+        }
+    }
+}
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0

