From 96b9a9d869c6be6b9543bc1b5a8d953aeee236a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 01/28] fix: round up the grid extent correctly

The extent was one too large for axes with chunks of length 1 and for axes one
element short of a multiple of the chunk length, so in_bounds accepted grid
positions outside the array and get_num_chunks overcounted.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1455ad4..a65ed50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -338,7 +338,7 @@ pub trait HierarchyWriter: HierarchyReader {
 }
 
 fn u64_ceil_div(a: u64, b: u64) -> u64 {
-    (a + 1) / b + (if a % b != 0 { 1 } else { 0 })
+    a / b + (if a % b != 0 { 1 } else { 0 })
 }
 
 /// Metadata for groups.
-- 
2.43.0


From 5f23b8ed637afc181c5781452f4b5e315cce50e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 02/28] fix: refuse paths that leave the hierarchy and come
 back

Only the total nesting was checked, so `../sibling` style keys resolved outside
of the base path.
---
 src/store/filesystem.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index de08f82..93b2f1d 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -177,16 +177,17 @@ impl FilesystemHierarchy {
                 Component::ParentDir => nest -= 1,
                 Component::Normal(_) => nest += 1,
             };
-        }
 
-        if nest < 0 {
-            Err(Error::new(
-                ErrorKind::NotFound,
-                "Path name is outside this Zarr filesystem",
-            ))
-        } else {
-            Ok(self.base_path.join(unrooted_path))
+            // The path must not leave the base path even if it later returns.
+            if nest < 0 {
+                return Err(Error::new(
+                    ErrorKind::NotFound,
+                    "Path name is outside this Zarr filesystem",
+                ));
+            }
         }
+
+        Ok(self.base_path.join(unrooted_path))
     }
 }
 
-- 
2.43.0


From d7c72fd6eb3845f5cfca29ea3cbd3ad8e146adc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 03/28] fix: serialize raw data types without trailing NULs

---
 src/data_type.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 54dce7a..b89df92 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -156,8 +156,10 @@ impl Serialize for DataType {
                 std::str::from_utf8(&buf[..3]).unwrap()
             }
             Raw { size } => {
-                write!(&mut buf[..], "r{}", size).expect("TODO");
-                std::str::from_utf8(&buf[..]).unwrap()
+                let mut rest = &mut buf[..];
+                write!(rest, "r{}", size).expect("TODO");
+                let len = 32 - rest.len();
+                std::str::from_utf8(&buf[..len]).unwrap()
             }
         };
         serializer.serialize_str(s)
-- 
2.43.0


From 2f1438bbd25df6738e3f3c07d8a17de889687cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:02 +0000
Subject: [PATCH 04/28] fix: return an error for malformed data type strings

Unknown byte orders, sizes and non-ASCII strings made deserialization panic.
---
 src/data_type.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index b89df92..d6a731d 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -208,27 +208,25 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
                 }
             }
             dtype if dtype.len() == 3 => {
+                let invalid =
+                    || serde::de::Error::invalid_value(serde::de::Unexpected::Str(value), &self);
                 let mut chars = dtype.chars();
-                let endian = Endian::deserial_char(chars.next().unwrap()).expect("TODO");
-                match chars.next().unwrap() {
+                let mut next_char = || chars.next().ok_or_else(invalid);
+                let endian = Endian::deserial_char(next_char()?).ok_or_else(invalid)?;
+                match next_char()? {
                     'i' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size = IntSize::deserial_char(next_char()?).ok_or_else(invalid)?;
                         DataType::Int { size, endian }
                     }
                     'u' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size = IntSize::deserial_char(next_char()?).ok_or_else(invalid)?;
                         DataType::UInt { size, endian }
                     }
                     'f' => {
-                        let size = FloatSize::deserial_char(chars.next().unwrap()).unwrap();
+                        let size = FloatSize::deserial_char(next_char()?).ok_or_else(invalid)?;
                         DataType::Float { size, endian }
                     }
-                    _ => {
-                        return Err(serde::de::Error::invalid_value(
-                            serde::de::Unexpected::Str(value),
-                            &self,
-                        ))
-                    }
+                    _ => return Err(invalid()),
                 }
             }
             _ => {
-- 
2.43.0


From 984ca63d0d90dbdb45407c6da4b8a9c6a7b3766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:02 +0000
Subject: [PATCH 05/28] fix: return an error for extended data types without a
 fallback

effective_type panicked although it returns a Result.
---
 src/data_type.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index d6a731d..4129d66 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -304,7 +304,9 @@ impl ExtensibleDataType {
             Extended {
                 fallback: Some(d), ..
             } => Ok(*d),
-            _ => todo!(),
+            Extended { type_string, .. } => {
+                Err(MetadataError::UnexpectedType(type_string.as_str().into()))
+            }
         }
     }
 }
-- 
2.43.0


From bd9455818154808c2e25057f4ceced0fcfa04c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:43 +0000
Subject: [PATCH 06/28] fix: list explicit nodes and nested keys

list_nodes removed the metadata suffix twice, so it panicked or returned
mangled names for explicit nodes, and failed for groups without children.
list_dir joined directory and entry names without a slash, so list and
list_prefix failed for every nested store.
---
 src/storage.rs          | 11 ++++++-----
 src/store/filesystem.rs |  8 +++++++-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 887f63b..7309e0b 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -315,6 +315,8 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
             crate::META_ROOT_PATH,
             crate::canonicalize_path(prefix_path)
         );
+        // Listed keys contain exactly one slash after the directory name.
+        let key_prefix = format!("{}/", key_prefix.trim_end_matches('/'));
         let (mut keys, mut prefixes) = self.list_dir(&key_prefix)?;
 
         // Find array and group metadata keys.
@@ -323,8 +325,8 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
             k.truncate(k.len() - self.get_entry_point_metadata().metadata_key_suffix.len())
         });
         keys.retain(|k| {
-            k.ends_with(&crate::ARRAY_METADATA_KEY_EXT)
-                || k.ends_with(&crate::GROUP_METADATA_KEY_EXT)
+            k.ends_with(&format!(".{}", crate::ARRAY_METADATA_KEY_EXT))
+                || k.ends_with(&format!(".{}", crate::GROUP_METADATA_KEY_EXT))
         });
         assert_eq!(
             crate::ARRAY_METADATA_KEY_EXT.len(),
@@ -332,9 +334,8 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
         );
 
         // Remove metadata extensions from keys to partially convert to node paths.
-        let suffix_len = self.get_entry_point_metadata().metadata_key_suffix.len()
-            + crate::ARRAY_METADATA_KEY_EXT.len()
-            + 1;
+        // The metadata key suffix has already been removed.
+        let suffix_len = crate::ARRAY_METADATA_KEY_EXT.len() + 1;
         keys.iter_mut()
             .for_each(|k| k.truncate(k.len() - suffix_len));
 
diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 93b2f1d..160df31 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -228,13 +228,19 @@ impl ListableStore for FilesystemHierarchy {
         let mut keys = vec![];
         let mut prefixes = vec![];
         let target = self.get_path(prefix)?;
+        let prefix = prefix.trim_end_matches('/');
+
+        // No keys have a prefix that is not a directory.
+        if !target.is_dir() {
+            return Ok((keys, prefixes));
+        }
 
         // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
         let entries = fs::read_dir(target)?.filter_map(|e| {
             e.and_then(|file| {
                 fs::metadata(file.path()).map(|f| f.file_type()).map(|t| {
                     (
-                        format!("{}{}", prefix, file.file_name().to_str().unwrap()),
+                        format!("{}/{}", prefix, file.file_name().to_str().unwrap()),
                         t,
                     )
                 })
-- 
2.43.0


From f3cf8e11c07796467959f42f5b49bf44a53bf53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:43 +0000
Subject: [PATCH 07/28] fix: remove the metadata of descendants of a removed
 node

Removing a group erased all chunk data below it but left the metadata of nested
groups and arrays in place.
---
 src/storage.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 7309e0b..346184c 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -4,6 +4,7 @@ use std::io::{
     Read,
     Write,
 };
+use std::path::PathBuf;
 
 use semver::VersionReq;
 use serde_json::Value;
@@ -446,10 +447,11 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         // TODO: needless allocs
         let metadata_key = self.group_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        let mut metadata_key = self.array_metadata_key(path_name);
+        let metadata_key = self.array_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        metadata_key.set_extension("");
-        metadata_key.set_extension("");
+        let metadata_prefix =
+            PathBuf::from(crate::META_ROOT_PATH).join(canonicalize_path(path_name));
+        self.erase_prefix(metadata_prefix.to_str().expect("TODO"))?;
         self.erase_prefix(self.data_path_key(path_name).to_str().expect("TODO"))?;
         Ok(())
     }
-- 
2.43.0


From 745f527b5788f44897cae96046e27d884fd24e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 08/28] fix: keep the stored chunk when a chunk write is
 rejected

write_chunk checked the data type and number of elements only after the store
had truncated or created the value, so a rejected write destroyed an existing
chunk, or left an empty, unreadable one where there was none.
---
 src/chunk.rs   | 33 ++++++++++++++++++++++-----------
 src/storage.rs |  2 ++
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index a0e5c29..4c66576 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -301,21 +301,32 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     }
 }
 
+/// Check that a chunk has the data type and number of elements of an array.
+pub(crate) fn check_chunk<T: ReflectedType, B: DataChunk<T>>(
+    array_meta: &ArrayMetadata,
+    chunk: &B,
+) -> Result<()> {
+    check_array_type::<T>(array_meta)?;
+
+    if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
+        return Err(Error::new(
+            ErrorKind::InvalidData,
+            format!(
+                "Can not write chunk with too few elements. Expected {} given {}",
+                array_meta.get_chunk_num_elements(),
+                chunk.get_num_elements()
+            ),
+        ));
+    }
+
+    Ok(())
+}
+
 /// Writes chunks to rust writers.
 pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + WriteableDataChunk> {
     fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
-        check_array_type::<T>(array_meta)?;
+        check_chunk::<T, B>(array_meta, chunk)?;
 
-        if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
-            return Err(Error::new(
-                ErrorKind::InvalidData,
-                format!(
-                    "Can not write chunk with too few elements. Expected {} given {}",
-                    array_meta.get_chunk_num_elements(),
-                    chunk.get_num_elements()
-                ),
-            ));
-        }
         let mut compressor = array_meta.compressor.encoder(buffer);
         chunk.write_data(&mut compressor, array_meta)?;
 
diff --git a/src/storage.rs b/src/storage.rs
index 346184c..842eaa2 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -464,6 +464,8 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
     ) -> Result<(), Error> {
         // TODO convert assert
         // assert!(array_meta.in_bounds(chunk.get_grid_position()));
+        // Reject invalid chunks before the store discards any existing value.
+        crate::chunk::check_chunk::<T, B>(array_meta, chunk)?;
         let chunk_key = get_chunk_key(path_name, array_meta, chunk.get_grid_position());
         self.set(&chunk_key, |writer| {
             <crate::chunk::DefaultChunk as crate::chunk::DefaultChunkWriter<T, _, _>>::write_chunk(
-- 
2.43.0


From c37a78d8c1902f150904dc7ae43a2fd0913943f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 09/28] fix: report errors when completing a write

Compressors and buffered writers write their remaining data when dropped, where
errors are ignored (or, for LZ4, a panic), so a write that failed for lack of
space could be reported as successful.
---
 src/chunk.rs            | 65 +++++++++++++++++++++++++++++++++++++++--
 src/storage.rs          | 15 ++++++----
 src/store/filesystem.rs |  6 ++--
 3 files changed, 76 insertions(+), 10 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 4c66576..24c4003 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -327,9 +327,70 @@ pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + Write
     fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
         check_chunk::<T, B>(array_meta, chunk)?;
 
-        let mut compressor = array_meta.compressor.encoder(buffer);
-        chunk.write_data(&mut compressor, array_meta)?;
+        let mut target = ErrorKeepingWriter::new(buffer);
+        {
+            // Compressors complete their stream when dropped.
+            let mut compressor = array_meta.compressor.encoder(&mut target);
+            chunk.write_data(&mut compressor, array_meta)?;
+        }
+
+        target.finish()
+    }
+}
+
+/// Writer that keeps the first error of its target until it is finished.
+///
+/// Compressors write the rest of their stream when dropped, where errors can
+/// not be returned and would be lost.
+struct ErrorKeepingWriter<W: Write> {
+    target: W,
+    error: Option<Error>,
+}
+
+impl<W: Write> ErrorKeepingWriter<W> {
+    fn new(target: W) -> Self {
+        ErrorKeepingWriter {
+            target,
+            error: None,
+        }
+    }
+
+    /// Flush the target, or return the first error if there was any.
+    fn finish(mut self) -> Result<()> {
+        match self.error.take() {
+            Some(e) => Err(e),
+            None => self.target.flush(),
+        }
+    }
+
+    fn keep_error(&mut self, error: Error) -> Result<()> {
+        if error.kind() == ErrorKind::Interrupted {
+            return Err(error);
+        }
+        self.error = Some(error);
+        Ok(())
+    }
+}
 
+impl<W: Write> Write for ErrorKeepingWriter<W> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        if self.error.is_none() {
+            match self.target.write(buf) {
+                Ok(0) if !buf.is_empty() => self.keep_error(ErrorKind::WriteZero.into())?,
+                Ok(n) => return Ok(n),
+                Err(e) => self.keep_error(e)?,
+            }
+        }
+        // Discard everything that follows an error.
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> Result<()> {
+        if self.error.is_none() {
+            if let Err(e) = self.target.flush() {
+                self.keep_error(e)?;
+            }
+        }
         Ok(())
     }
 }
diff --git a/src/storage.rs b/src/storage.rs
index 842eaa2..63b2239 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -392,8 +392,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
             }
         }
         if merged != existing {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &merged)?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, &merged)?;
+                writer.flush()
             })?;
         }
         Ok(())
@@ -415,8 +416,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         } else if self.exists(metadata_key.to_str().expect("TODO"))? {
             Ok(())
         } else {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &GroupMetadata::default())?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, &GroupMetadata::default())?;
+                writer.flush()
             })
         }
     }
@@ -437,8 +439,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
                 "Node already exists at array path",
             ))
         } else {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, array_meta)?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, array_meta)?;
+                writer.flush()
             })
         }
     }
diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 160df31..0930ade 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -10,6 +10,7 @@ use std::io::{
     Error,
     ErrorKind,
     Result,
+    Write,
 };
 use std::path::PathBuf;
 
@@ -97,8 +98,9 @@ impl FilesystemHierarchy {
                 .open(entry_point_path)?;
             file.lock_exclusive()?;
 
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, &metadata)?;
+            let mut writer = BufWriter::new(file);
+            serde_json::to_writer(&mut writer, &metadata)?;
+            writer.flush()?;
             metadata
         };
 
-- 
2.43.0


From b22ab5cdf38c1fd1b8a853ace36cc98d76eb4550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 10/28] fix: iterate over the chunks of empty boxes and rank 0
 arrays correctly

Reading or writing a box outside of the array panicked, writing an empty box
created a chunk, regions of zero-dimensional arrays were silently ignored, and
the exact length of an exhausted iterator underflowed.
---
 src/ndarray.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 1a05c34..22e219d 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -416,7 +416,11 @@ impl ArrayMetadata {
             .iter()
             .zip(&bbox.shape)
             .zip(self.chunk_grid.chunk_shape.iter().cloned().map(u64::from))
-            .map(|((&o, &s), cs)| (o + s + cs - 1) / cs)
+            .map(|((&o, &s), cs)| match s {
+                // No chunk intersects an empty box, even if it is not aligned.
+                0 => o / cs,
+                _ => (o + s + cs - 1) / cs,
+            })
             .collect();
 
         CoordIterator::floor_ceil(&floor_coord, &ceil_coord)
@@ -519,8 +523,13 @@ impl<T: Iterator<Item = Vec<u64>>> Iterator for CoordIterator<T> {
     type Item = Vec<u64>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.accumulator >= self.total_coords {
+            return None;
+        }
         self.accumulator += 1;
-        self.iter.next()
+        // A zero-dimensional grid has one coordinate, but a product of no
+        // ranges is empty.
+        Some(self.iter.next().unwrap_or_default())
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-- 
2.43.0


From 3138c33a23ecc02ee12bfeef6e514087b4170385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 11/28] fix: return an error for region write offsets of the
 wrong rank

---
 src/ndarray.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 22e219d..b08107a 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -287,7 +287,7 @@ pub trait ZarrNdarrayWriter: HierarchyWriter {
         A: ndarray::AsArray<'a, T, ndarray::Dim<ndarray::IxDynImpl>>,
     {
         let array = array.into();
-        if array.ndim() != array_meta.get_ndim() {
+        if array.ndim() != array_meta.get_ndim() || offset.len() != array_meta.get_ndim() {
             return Err(Error::new(
                 ErrorKind::InvalidData,
                 "Wrong number of dimensions",
-- 
2.43.0


From 56c098e27880924d06372dd6c74db9b367b3d38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 12/28] fix: use the default for invalid bzip2 and xz settings

---
 src/compression/bzip.rs | 16 ++++++++++++----
 src/compression/xz.rs   | 15 +++++++++++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/compression/bzip.rs b/src/compression/bzip.rs
index f2741d4..e51305a 100644
--- a/src/compression/bzip.rs
+++ b/src/compression/bzip.rs
@@ -20,6 +20,17 @@ pub struct Bzip2Compression {
     block_size: u8,
 }
 
+impl Bzip2Compression {
+    /// Use the default block size if the configured one is not in [1, 9].
+    fn get_effective_block_size(&self) -> BzCompression {
+        let block_size = match self.block_size {
+            1..=9 => self.block_size,
+            _ => default_bzip_block_size(),
+        };
+        BzCompression::new(u32::from(block_size))
+    }
+}
+
 fn default_bzip_block_size() -> u8 {
     9
 }
@@ -38,10 +49,7 @@ impl Compression for Bzip2Compression {
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-        Box::new(BzEncoder::new(
-            w,
-            BzCompression::new(u32::from(self.block_size)),
-        ))
+        Box::new(BzEncoder::new(w, self.get_effective_block_size()))
     }
 }
 
diff --git a/src/compression/xz.rs b/src/compression/xz.rs
index d2e13b5..b4e6617 100644
--- a/src/compression/xz.rs
+++ b/src/compression/xz.rs
@@ -19,6 +19,18 @@ pub struct XzCompression {
     preset: i32,
 }
 
+impl XzCompression {
+    /// Use the default preset if the configured one is not a level in [0, 9],
+    /// possibly with the flag for extreme compression (the sign bit).
+    fn get_effective_preset(&self) -> u32 {
+        let preset = match self.preset & i32::max_value() {
+            0..=9 => self.preset,
+            _ => default_xz_preset(),
+        };
+        preset as u32
+    }
+}
+
 fn default_xz_preset() -> i32 {
     6
 }
@@ -37,8 +49,7 @@ impl Compression for XzCompression {
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-        // TODO: check that preset is non-negative.s
-        Box::new(XzEncoder::new(w, self.preset as u32))
+        Box::new(XzEncoder::new(w, self.get_effective_preset()))
     }
 }
 
-- 
2.43.0


From da23f911e22d91c7efe4ad10d94025de2e671cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 13/28] fix: interpret fill values of floats of every width

---
 src/data_type.rs | 30 +++++++++++++++++++++++++++---
 src/lib.rs       |  2 +-
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 4129d66..2143c3b 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -468,6 +468,11 @@ pub trait ReflectedType:
             vec![Self::default(); num_el as usize],
         )
     }
+
+    /// Get the element specified by a metadata `fill_value`.
+    fn from_fill_value(value: &serde_json::Value) -> serde_json::Result<Self> {
+        serde_json::from_value(value.clone())
+    }
 }
 
 macro_rules! reflected_type {
@@ -478,6 +483,25 @@ macro_rules! reflected_type {
     };
 }
 
+/// Floating point types, whose `fill_value`s are numbers or one of the strings
+/// "NaN", "Infinity" and "-Infinity".
+macro_rules! reflected_float_type {
+    ($d_name:expr, $d_type:ty, $from_number:expr, $nan:expr, $inf:expr, $neg_inf:expr) => {
+        impl ReflectedType for $d_type {
+            const ZARR_TYPE: DataType = $d_name;
+
+            fn from_fill_value(value: &serde_json::Value) -> serde_json::Result<Self> {
+                match value.as_str() {
+                    Some("NaN") => Ok($nan),
+                    Some("Infinity") => Ok($inf),
+                    Some("-Infinity") => Ok($neg_inf),
+                    _ => serde_json::from_value(value.clone()).map($from_number),
+                }
+            }
+        }
+    };
+}
+
 #[rustfmt::skip] reflected_type!(DataType::Bool, bool);
 #[rustfmt::skip] reflected_type!(DataType::UInt {size: IntSize::B1, endian: NATIVE_ENDIAN}, u8);
 #[rustfmt::skip] reflected_type!(DataType::UInt {size: IntSize::B2, endian: NATIVE_ENDIAN}, u16);
@@ -487,9 +511,9 @@ macro_rules! reflected_type {
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B2, endian: NATIVE_ENDIAN}, i16);
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B4, endian: NATIVE_ENDIAN}, i32);
 #[rustfmt::skip] reflected_type!(DataType::Int {size: IntSize::B8, endian: NATIVE_ENDIAN}, i64);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B2, endian: NATIVE_ENDIAN}, f16);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B4, endian: NATIVE_ENDIAN}, f32);
-#[rustfmt::skip] reflected_type!(DataType::Float {size: FloatSize::B8, endian: NATIVE_ENDIAN}, f64);
+#[rustfmt::skip] reflected_float_type!(DataType::Float {size: FloatSize::B2, endian: NATIVE_ENDIAN}, f16, f16::from_f64, f16::NAN, f16::INFINITY, f16::NEG_INFINITY);
+#[rustfmt::skip] reflected_float_type!(DataType::Float {size: FloatSize::B4, endian: NATIVE_ENDIAN}, f32, |n: f32| n, std::f32::NAN, std::f32::INFINITY, std::f32::NEG_INFINITY);
+#[rustfmt::skip] reflected_float_type!(DataType::Float {size: FloatSize::B8, endian: NATIVE_ENDIAN}, f64, |n: f64| n, std::f64::NAN, std::f64::INFINITY, std::f64::NEG_INFINITY);
 
 // TODO: As example
 #[rustfmt::skip] reflected_type!(DataType::Raw {size: 8}, [u8; 1]);
diff --git a/src/lib.rs b/src/lib.rs
index a65ed50..3b0decc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -448,7 +448,7 @@ impl ArrayMetadata {
     pub fn get_effective_fill_value<T: ReflectedType>(&self) -> Result<T, Error> {
         Ok(self
             .get_fill_value()
-            .map(|v| serde_json::from_value(v.clone()))
+            .map(T::from_fill_value)
             .transpose()?
             .unwrap_or_else(T::default))
     }
-- 
2.43.0


From 57f32e7c69ca8ae33fbb4c5e32d1392ebd99a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:51 +0000
Subject: [PATCH 14/28] fix: report failures of existence tests and listings

---
 src/store/filesystem.rs | 103 +++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 38 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 0930ade..198f291 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -12,7 +12,10 @@ use std::io::{
     Result,
     Write,
 };
-use std::path::PathBuf;
+use std::path::{
+    Path,
+    PathBuf,
+};
 
 use fs2::FileExt;
 use serde_json::{
@@ -34,6 +37,25 @@ use crate::{
     MetadataError,
 };
 
+/// Get the metadata of a path, following symlinks, or `None` if there is
+/// nothing at the path.
+fn path_metadata(path: &Path) -> Result<Option<fs::Metadata>> {
+    match fs::metadata(path) {
+        Ok(metadata) => Ok(Some(metadata)),
+        Err(e) if is_absent(&e) => Ok(None),
+        Err(e) => Err(e),
+    }
+}
+
+/// Whether a path could not be accessed because there is nothing there, rather
+/// than because of a failure.
+fn is_absent(error: &Error) -> bool {
+    match error.kind() {
+        ErrorKind::NotFound | ErrorKind::NotADirectory => true,
+        _ => false,
+    }
+}
+
 /// A filesystem-backed Zarr hierarchy.
 #[derive(Clone, Debug)]
 pub struct FilesystemHierarchy {
@@ -86,7 +108,7 @@ impl FilesystemHierarchy {
         let base_path = PathBuf::from(base_path.as_ref());
         let entry_point_path = base_path.join(crate::ENTRY_POINT_KEY);
 
-        let entry_point_metadata = if entry_point_path.exists() {
+        let entry_point_metadata = if path_metadata(&entry_point_path)?.is_some() {
             Self::read_entry_point_metadata(&base_path)?
         } else {
             fs::create_dir_all(&base_path)?;
@@ -145,10 +167,7 @@ impl FilesystemHierarchy {
         // Note: cannot use `canonicalize` on both the constructed array path
         // and `base_path` and check `starts_with`, because `canonicalize` also
         // requires the path exist.
-        use std::path::{
-            Component,
-            Path,
-        };
+        use std::path::Component;
 
         // Normalize the path to be relative.
         let mut components = Path::new(key).components();
@@ -198,18 +217,21 @@ impl ReadableStore for FilesystemHierarchy {
 
     fn exists(&self, key: &str) -> Result<bool> {
         let target = self.get_path(key)?;
-        Ok(target.is_file())
+        Ok(path_metadata(&target)?.map_or(false, |m| m.is_file()))
     }
 
     fn get(&self, key: &str) -> Result<Option<Self::GetReader>> {
         let target = self.get_path(key)?;
-        if target.is_file() {
-            let file = File::open(target)?;
-            file.lock_shared()?;
-            Ok(Some(BufReader::new(file)))
-        } else {
-            Ok(None)
+        if !path_metadata(&target)?.map_or(false, |m| m.is_file()) {
+            return Ok(None);
         }
+        let file = match File::open(target) {
+            Ok(file) => file,
+            Err(e) if is_absent(&e) => return Ok(None),
+            Err(e) => return Err(e),
+        };
+        file.lock_shared()?;
+        Ok(Some(BufReader::new(file)))
     }
 
     fn uri(&self, key: &str) -> Result<String> {
@@ -232,25 +254,22 @@ impl ListableStore for FilesystemHierarchy {
         let target = self.get_path(prefix)?;
         let prefix = prefix.trim_end_matches('/');
 
-        // No keys have a prefix that is not a directory.
-        if !target.is_dir() {
-            return Ok((keys, prefixes));
-        }
-
-        // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
-        let entries = fs::read_dir(target)?.filter_map(|e| {
-            e.and_then(|file| {
-                fs::metadata(file.path()).map(|f| f.file_type()).map(|t| {
-                    (
-                        format!("{}/{}", prefix, file.file_name().to_str().unwrap()),
-                        t,
-                    )
-                })
-            })
-            .ok()
-        });
+        let entries = match fs::read_dir(target) {
+            Ok(entries) => entries,
+            // No keys have a prefix that is not a directory.
+            Err(e) if is_absent(&e) => return Ok((keys, prefixes)),
+            Err(e) => return Err(e),
+        };
 
-        for (key, t) in entries {
+        for entry in entries {
+            let entry = entry?;
+            let file_name = entry.file_name();
+            let (name, t) = match (file_name.to_str(), path_metadata(&entry.path())?) {
+                (Some(name), Some(m)) => (name, m.file_type()),
+                // No key has a name that is not unicode or a dangling symlink.
+                _ => continue,
+            };
+            let key = format!("{}/{}", prefix, name);
             if t.is_file() {
                 keys.push(key);
             } else {
@@ -291,19 +310,27 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase(&self, key: &str) -> Result<bool> {
         let path = self.get_path(key)?;
 
-        if path.exists() {
-            let file = File::open(&path)?;
-            file.lock_exclusive()?;
-            fs::remove_file(&path)?;
+        if path_metadata(&path)?.is_some() {
+            match File::open(&path) {
+                Ok(file) => {
+                    file.lock_exclusive()?;
+                    fs::remove_file(&path).or_else(|e| match is_absent(&e) {
+                        true => Ok(()),
+                        false => Err(e),
+                    })?;
+                }
+                Err(e) if is_absent(&e) => (),
+                Err(e) => return Err(e),
+            }
         }
 
-        Ok(!path.exists())
+        Ok(path_metadata(&path)?.is_none())
     }
 
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
         let path = self.get_path(key_prefix)?;
 
-        if path.exists() {
+        if path_metadata(&path)?.is_some() {
             for entry in WalkDir::new(&path).contents_first(true) {
                 let entry = entry?;
 
@@ -317,7 +344,7 @@ impl WriteableStore for FilesystemHierarchy {
             }
         }
 
-        Ok(!path.exists())
+        Ok(path_metadata(&path)?.is_none())
     }
 }
 
-- 
2.43.0


From 5ebacdd46eb42e0a7eb29b133084805d6548c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 15/28] fix: lock the file that is stored rather than an erased
 one

---
 src/store/filesystem.rs | 92 ++++++++++++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 28 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 198f291..22466a7 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -56,6 +56,43 @@ fn is_absent(error: &Error) -> bool {
     }
 }
 
+/// Open and lock the file at a path, or return `None` if there is none.
+fn open_locked<L: Fn(&File) -> Result<()>>(
+    path: &Path,
+    options: &fs::OpenOptions,
+    lock: L,
+) -> Result<Option<File>> {
+    loop {
+        let file = match options.open(path) {
+            Ok(file) => file,
+            Err(e) if is_absent(&e) => return Ok(None),
+            Err(e) => return Err(e),
+        };
+        lock(&file)?;
+
+        // The file may have been erased, or replaced by another, while waiting
+        // for the lock.
+        if is_file_at_path(&file, path)? {
+            return Ok(Some(file));
+        }
+    }
+}
+
+#[cfg(unix)]
+fn is_file_at_path(file: &File, path: &Path) -> Result<bool> {
+    use std::os::unix::fs::MetadataExt;
+
+    let opened = file.metadata()?;
+    Ok(path_metadata(path)?.map_or(false, |m| {
+        (m.dev(), m.ino()) == (opened.dev(), opened.ino())
+    }))
+}
+
+#[cfg(not(unix))]
+fn is_file_at_path(_: &File, _: &Path) -> Result<bool> {
+    Ok(true)
+}
+
 /// A filesystem-backed Zarr hierarchy.
 #[derive(Clone, Debug)]
 pub struct FilesystemHierarchy {
@@ -225,13 +262,12 @@ impl ReadableStore for FilesystemHierarchy {
         if !path_metadata(&target)?.map_or(false, |m| m.is_file()) {
             return Ok(None);
         }
-        let file = match File::open(target) {
-            Ok(file) => file,
-            Err(e) if is_absent(&e) => return Ok(None),
-            Err(e) => return Err(e),
-        };
-        file.lock_shared()?;
-        Ok(Some(BufReader::new(file)))
+        let file = open_locked(
+            &target,
+            fs::OpenOptions::new().read(true),
+            FileExt::lock_shared,
+        )?;
+        Ok(file.map(BufReader::new))
     }
 
     fn uri(&self, key: &str) -> Result<String> {
@@ -293,12 +329,12 @@ impl WriteableStore for FilesystemHierarchy {
             }
         }
 
-        let file = fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .create(true)
-            .open(target)?;
-        file.lock_exclusive()?;
+        let file = open_locked(
+            &target,
+            fs::OpenOptions::new().read(true).write(true).create(true),
+            FileExt::lock_exclusive,
+        )?
+        .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
         // Truncate after the lock is acquired, rather than on opening.
         file.set_len(0)?;
 
@@ -310,18 +346,13 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase(&self, key: &str) -> Result<bool> {
         let path = self.get_path(key)?;
 
-        if path_metadata(&path)?.is_some() {
-            match File::open(&path) {
-                Ok(file) => {
-                    file.lock_exclusive()?;
-                    fs::remove_file(&path).or_else(|e| match is_absent(&e) {
-                        true => Ok(()),
-                        false => Err(e),
-                    })?;
-                }
-                Err(e) if is_absent(&e) => (),
-                Err(e) => return Err(e),
-            }
+        let file = open_locked(
+            &path,
+            fs::OpenOptions::new().read(true),
+            FileExt::lock_exclusive,
+        )?;
+        if file.is_some() {
+            fs::remove_file(&path)?;
         }
 
         Ok(path_metadata(&path)?.is_none())
@@ -337,9 +368,14 @@ impl WriteableStore for FilesystemHierarchy {
                 if entry.file_type().is_dir() {
                     fs::remove_dir(entry.path())?;
                 } else {
-                    let file = File::open(entry.path())?;
-                    file.lock_exclusive()?;
-                    fs::remove_file(entry.path())?;
+                    let file = open_locked(
+                        entry.path(),
+                        fs::OpenOptions::new().read(true),
+                        FileExt::lock_exclusive,
+                    )?;
+                    if file.is_some() {
+                        fs::remove_file(entry.path())?;
+                    }
                 }
             }
         }
-- 
2.43.0


From 2efb98e5443370f251b115ab1683f4e12b7fd6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:08 +0000
Subject: [PATCH 16/28] fix: return an error for array metadata with an
 unusable chunk shape

---
 src/storage.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 63b2239..80b5996 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -168,6 +168,14 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         let value_reader = ReadableStore::get(self, &array_path.to_str().expect("TODO"))?
             .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
         let metadata: ArrayMetadata = serde_json::from_reader(value_reader)?;
+        if metadata.shape.len() != metadata.chunk_grid.chunk_shape.len()
+            || metadata.chunk_grid.chunk_shape.contains(&0)
+        {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Array metadata chunk shape does not match array shape or is zero",
+            ));
+        }
         // TODO: erring immediately when encountering unknown extensions, while
         // it may be more appropriate to do so only when doing chunk IO.
         if let Some(ext) = metadata.extensions.iter().find(|e| e.must_understand) {
-- 
2.43.0


From f2486dcdb095a56275747d573da2e4f1c7ceb1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 17/28] fix: write one frame per chunk with pure-Rust LZ4

---
 src/compression/lz_pure.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index e896e0c..649f830 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -15,16 +15,18 @@ use serde::{
 
 use super::Compression;
 
+// `lz-fear` only compresses whole frames at once, so collect the content and
+// write its frame on Drop.
 struct Wrapper<W: Write> {
     writer: W,
     settings: CompressionSettings<'static>,
+    content: Vec<u8>,
 }
 
 impl<W: Write> Write for Wrapper<W> {
     fn write(&mut self, buffer: &[u8]) -> Result<usize> {
-        let len = buffer.len();
-        self.settings.compress(buffer, &mut self.writer)?;
-        Ok(len)
+        self.content.extend_from_slice(buffer);
+        Ok(buffer.len())
     }
 
     fn flush(&mut self) -> Result<()> {
@@ -32,6 +34,15 @@ impl<W: Write> Write for Wrapper<W> {
     }
 }
 
+impl<W: Write> Drop for Wrapper<W> {
+    fn drop(&mut self) {
+        // Errors of the writer can not be returned here.
+        let _ = self
+            .settings
+            .compress(&self.content[..], &mut self.writer);
+    }
+}
+
 #[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
 #[serde(rename_all = "camelCase")]
 pub struct Lz4Compression {
@@ -65,7 +76,11 @@ impl Compression for Lz4Compression {
         settings
             .block_size(self.block_size as usize)
             .independent_blocks(true);
-        Box::new(Wrapper { writer, settings })
+        Box::new(Wrapper {
+            writer,
+            settings,
+            content: Vec::new(),
+        })
     }
 }
 
-- 
2.43.0


From e302d6d1a2321c79803f0253d468031817c95d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 18/28] fix: return an error for invalid pure-Rust LZ4 frame
 headers

---
 src/compression/lz_pure.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index 649f830..265a719 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -1,4 +1,6 @@
 use std::io::{
+    Error,
+    ErrorKind,
     Read,
     Result,
     Write,
@@ -43,6 +45,20 @@ impl<W: Write> Drop for Wrapper<W> {
     }
 }
 
+// Reader of a stream that does not start with a valid frame header.
+struct InvalidFrameReader {
+    error: Option<Error>,
+}
+
+impl Read for InvalidFrameReader {
+    fn read(&mut self, _: &mut [u8]) -> Result<usize> {
+        Err(self
+            .error
+            .take()
+            .unwrap_or_else(|| ErrorKind::InvalidData.into()))
+    }
+}
+
 #[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
 #[serde(rename_all = "camelCase")]
 pub struct Lz4Compression {
@@ -64,11 +80,12 @@ impl Default for Lz4Compression {
 
 impl Compression for Lz4Compression {
     fn decoder<'a, R: Read + 'a>(&self, r: R) -> Box<dyn Read + 'a> {
-        Box::new(
-            LZ4FrameReader::new(r)
-                .expect("TODO: LZ4 returns a result here")
-                .into_read(),
-        )
+        match LZ4FrameReader::new(r) {
+            Ok(frame_reader) => Box::new(frame_reader.into_read()),
+            Err(e) => Box::new(InvalidFrameReader {
+                error: Some(e.into()),
+            }),
+        }
     }
 
     fn encoder<'a, W: Write + 'a>(&self, writer: W) -> Box<dyn Write + 'a> {
-- 
2.43.0


From e9a8c027fecd66a7ffee7dfdc71b82b0fa0ad049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 19/28] fix: use supported block sizes with pure-Rust LZ4

---
 src/compression/lz_pure.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index 265a719..619c471 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -66,6 +66,20 @@ pub struct Lz4Compression {
     block_size: i32,
 }
 
+impl Lz4Compression {
+    /// LZ4 frames have one of four block sizes, so choose the smallest larger
+    /// size from those.
+    fn get_effective_block_size(&self) -> usize {
+        const KB: usize = 1024;
+        match self.block_size {
+            i32::MIN..=0x1_0000 => 64 * KB,
+            0x1_0001..=0x4_0000 => 256 * KB,
+            0x4_0001..=0x10_0000 => 1024 * KB,
+            _ => 4096 * KB,
+        }
+    }
+}
+
 fn default_lz4_block_size() -> i32 {
     65_536
 }
@@ -91,7 +105,7 @@ impl Compression for Lz4Compression {
     fn encoder<'a, W: Write + 'a>(&self, writer: W) -> Box<dyn Write + 'a> {
         let mut settings = CompressionSettings::default();
         settings
-            .block_size(self.block_size as usize)
+            .block_size(self.get_effective_block_size())
             .independent_blocks(true);
         Box::new(Wrapper {
             writer,
-- 
2.43.0


From 0e99d97058ac5f6f890813cda38ab90deabb153b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 20/28] fix: parse the codec name of pure-Rust LZ4

---
 src/compression/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compression/mod.rs b/src/compression/mod.rs
index a30945c..9d505ed 100644
--- a/src/compression/mod.rs
+++ b/src/compression/mod.rs
@@ -147,7 +147,7 @@ impl std::str::FromStr for CompressionType {
             #[cfg(feature = "xz")]
             "xz" => Ok(Self::new::<xz::XzCompression>()),
 
-            #[cfg(feature = "lz")]
+            #[cfg(any(feature = "lz", feature = "lz_pure"))]
             "lz4" => Ok(Self::new::<lz::Lz4Compression>()),
 
             _ => Err(std::io::ErrorKind::InvalidInput.into()),
-- 
2.43.0


From bd2f7e58d5b01031fc14386f18e19a8ea4b31427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 21/28] fix: refuse a hierarchy that declares no version

---
 src/storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 80b5996..b12d462 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -149,6 +149,8 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
             .zarr_format
             .rsplit('/')
             .next()
+            // Other requirements than versions, such as wildcards, match too much.
+            .filter(|vers_str| vers_str.starts_with(|c: char| c.is_ascii_digit()))
             .ok_or_else(|| {
                 Error::new(
                     ErrorKind::InvalidData,
-- 
2.43.0


From 9b7b7d577b49ac99f1b6db794183e9c775e585ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:36 +0000
Subject: [PATCH 22/28] fix: refuse metadata key suffixes with path separators

---
 src/store/filesystem.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 22466a7..1aac7fd 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -116,6 +116,15 @@ impl FilesystemHierarchy {
             // way around.
             return Err(MetadataError::UnknownRequiredExtension(ext.clone()).into());
         }
+        if metadata
+            .metadata_key_suffix
+            .contains(std::path::is_separator)
+        {
+            return Err(Error::new(
+                ErrorKind::InvalidData,
+                "Entry point metadata key suffix contains a path separator",
+            ));
+        }
         Ok(metadata)
     }
 
-- 
2.43.0


From ea290c4dcc3240c99580648491483398e440202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 23/28] fix: retry interrupted writes when a compressor is
 dropped

---
 src/chunk.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 24c4003..50045c3 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -363,22 +363,20 @@ impl<W: Write> ErrorKeepingWriter<W> {
         }
     }
 
-    fn keep_error(&mut self, error: Error) -> Result<()> {
-        if error.kind() == ErrorKind::Interrupted {
-            return Err(error);
-        }
+    fn keep_error(&mut self, error: Error) {
         self.error = Some(error);
-        Ok(())
     }
 }
 
 impl<W: Write> Write for ErrorKeepingWriter<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
-        if self.error.is_none() {
+        while self.error.is_none() {
             match self.target.write(buf) {
-                Ok(0) if !buf.is_empty() => self.keep_error(ErrorKind::WriteZero.into())?,
+                Ok(0) if !buf.is_empty() => self.keep_error(ErrorKind::WriteZero.into()),
                 Ok(n) => return Ok(n),
-                Err(e) => self.keep_error(e)?,
+                // Not left to the compressors, which do not retry when dropped.
+                Err(e) if e.kind() == ErrorKind::Interrupted => (),
+                Err(e) => self.keep_error(e),
             }
         }
         // Discard everything that follows an error.
@@ -386,9 +384,11 @@ impl<W: Write> Write for ErrorKeepingWriter<W> {
     }
 
     fn flush(&mut self) -> Result<()> {
-        if self.error.is_none() {
-            if let Err(e) = self.target.flush() {
-                self.keep_error(e)?;
+        while self.error.is_none() {
+            match self.target.flush() {
+                Ok(()) => return Ok(()),
+                Err(e) if e.kind() == ErrorKind::Interrupted => (),
+                Err(e) => self.keep_error(e),
             }
         }
         Ok(())
-- 
2.43.0


From 57ec27101edf0b1f8f3a6dd1eadd8170e50fe018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:46 +0000
Subject: [PATCH 24/28] fix: report storage failures of array existence tests

---
 src/lib.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b0decc..6044fd8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,7 +9,10 @@ doc_comment::doctest!("../README.md");
 #[macro_use]
 pub extern crate smallvec;
 
-use std::io::Error;
+use std::io::{
+    Error,
+    ErrorKind,
+};
 use std::path::PathBuf;
 use std::time::SystemTime;
 
@@ -97,7 +100,6 @@ pub enum MetadataError {
 
 impl From<MetadataError> for std::io::Error {
     fn from(e: MetadataError) -> std::io::Error {
-        use std::io::ErrorKind;
         use MetadataError::*;
 
         match e {
@@ -227,7 +229,21 @@ pub trait HierarchyReader: Hierarchy {
 
     /// Test whether an array exists.
     fn array_exists(&self, path_name: &str) -> Result<bool, Error> {
-        Ok(self.exists(path_name)? && self.get_array_metadata(path_name).is_ok())
+        if !self.exists(path_name)? {
+            return Ok(false);
+        }
+        match self.get_array_metadata(path_name) {
+            Ok(_) => Ok(true),
+            // The node has no array metadata or none that can be interpreted.
+            Err(e) => match e.kind() {
+                ErrorKind::NotFound | ErrorKind::InvalidData | ErrorKind::UnexpectedEof => {
+                    Ok(false)
+                }
+                _ if e.get_ref().map_or(false, |e| e.is::<MetadataError>()) => Ok(false),
+                // The metadata could not be read, so the array may exist.
+                _ => Err(e),
+            },
+        }
     }
 
     /// Get a URI string for a data chunk.
-- 
2.43.0


From 4d094ee0db6cd86acf9d3ab63a5ba01b5bd713ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:07 +0000
Subject: [PATCH 25/28] fix: count chunks up to the end of the coordinate range
 without overflow

---
 src/ndarray.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index b08107a..1bc2fcd 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -14,6 +14,7 @@ use ndarray::{
 };
 
 use crate::{
+    u64_ceil_div,
     ArrayMetadata,
     ChunkCoord,
     CoordVec,
@@ -393,7 +394,7 @@ impl ArrayMetadata {
             .get_shape()
             .iter()
             .zip(self.get_chunk_shape().iter())
-            .map(|(&d, &s)| (d + u64::from(s) - 1) / u64::from(s))
+            .map(|(&d, &s)| u64_ceil_div(d, u64::from(s)))
             .collect::<GridCoord>();
 
         CoordIterator::new(&coord_ceil)
@@ -419,7 +420,7 @@ impl ArrayMetadata {
             .map(|((&o, &s), cs)| match s {
                 // No chunk intersects an empty box, even if it is not aligned.
                 0 => o / cs,
-                _ => (o + s + cs - 1) / cs,
+                _ => u64_ceil_div(o + s, cs),
             })
             .collect();
 
-- 
2.43.0


From 36b30849b7f35db14fc61b343bd555c8e429c110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:28 +0000
Subject: [PATCH 26/28] fix: intersect boxes that overhang the coordinate range
 without overflow

---
 src/ndarray.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 1bc2fcd..25318c1 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -80,7 +80,9 @@ impl BoundingBox {
             .zip(other.offset.iter())
             .for_each(|(((s, o), os), oo)| {
                 let new_o = std::cmp::max(*oo, *o);
-                *s = std::cmp::min(*s + *o, *oo + *os).saturating_sub(new_o);
+                // The chunks at the end of the coordinate range may overhang it.
+                let end = std::cmp::min(s.saturating_add(*o), oo.saturating_add(*os));
+                *s = end.saturating_sub(new_o);
                 *o = new_o;
             });
     }
-- 
2.43.0


From 227cfa4cab9b8b999cfb54e57e994ef3e0d02d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:35 +0000
Subject: [PATCH 27/28] fix: refuse chunks of more elements than a chunk can
 hold

---
 src/chunk.rs   | 25 ++++++++++++++++++++-----
 src/ndarray.rs |  3 +++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index 50045c3..8d02a1a 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -265,6 +265,21 @@ fn check_array_type<T: ReflectedType>(array_meta: &ArrayMetadata) -> Result<()>
     }
 }
 
+/// Get the number of elements in the chunks of an array, or an error if they
+/// are more than a chunk can hold.
+pub(crate) fn chunk_num_elements(array_meta: &ArrayMetadata) -> Result<u32> {
+    array_meta
+        .get_chunk_shape()
+        .iter()
+        .try_fold(1_u32, |n, &d| n.checked_mul(d))
+        .ok_or_else(|| {
+            Error::new(
+                ErrorKind::InvalidData,
+                "Array chunks have too many elements",
+            )
+        })
+}
+
 /// Reads chunks from rust readers.
 pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     fn read_chunk(
@@ -277,8 +292,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     {
         check_array_type::<T>(array_meta)?;
 
-        let mut chunk =
-            T::create_data_chunk(&grid_position, array_meta.get_chunk_num_elements() as u32);
+        let mut chunk = T::create_data_chunk(&grid_position, chunk_num_elements(array_meta)?);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
 
@@ -293,7 +307,7 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     ) -> Result<()> {
         check_array_type::<T>(array_meta)?;
 
-        chunk.reinitialize(&grid_position, array_meta.get_chunk_num_elements() as u32);
+        chunk.reinitialize(&grid_position, chunk_num_elements(array_meta)?);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
 
@@ -308,12 +322,13 @@ pub(crate) fn check_chunk<T: ReflectedType, B: DataChunk<T>>(
 ) -> Result<()> {
     check_array_type::<T>(array_meta)?;
 
-    if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
+    let num_elements = chunk_num_elements(array_meta)?;
+    if chunk.get_num_elements() != num_elements {
         return Err(Error::new(
             ErrorKind::InvalidData,
             format!(
                 "Can not write chunk with too few elements. Expected {} given {}",
-                array_meta.get_chunk_num_elements(),
+                num_elements,
                 chunk.get_num_elements()
             ),
         ));
diff --git a/src/ndarray.rs b/src/ndarray.rs
index 25318c1..92219f7 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -14,6 +14,7 @@ use ndarray::{
 };
 
 use crate::{
+    chunk::chunk_num_elements,
     u64_ceil_div,
     ArrayMetadata,
     ChunkCoord,
@@ -301,6 +302,8 @@ pub trait ZarrNdarrayWriter: HierarchyWriter {
             shape: array.shape().iter().map(|n| *n as u64).collect(),
         };
         let fill_value: T = array_meta.get_effective_fill_value()?;
+        // Do not assemble chunks that can not be written.
+        chunk_num_elements(array_meta)?;
 
         let mut chunk_vec: Vec<T> = Vec::new();
         let mut existing_chunk_vec: Vec<T> = Vec::new();
-- 
2.43.0


From 42a34079ea2860748d81dfe79c1a3cb4caf185f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:15 +0000
Subject: [PATCH 28/28] fix: keep the implicit group test of get_attributes
 inside the hierarchy

---
 src/store/filesystem.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 1aac7fd..fcacd88 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -195,10 +195,11 @@ impl FilesystemHierarchy {
             let reader = BufReader::new(file);
             Ok(serde_json::from_reader(reader)?)
         } else {
-            let mut path = path;
             // TODO
-            path.set_extension("");
-            path.set_extension("");
+            // Strip extensions from the key before it is checked, as what is
+            // left may be outside the hierarchy.
+            let key = Path::new(key).with_extension("").with_extension("");
+            let path = self.get_path(key.to_str().expect("TODO"))?;
             // Check for implicit group.
             if path.exists() && path.is_file() {
                 Ok(json!({}))
-- 
2.43.0

