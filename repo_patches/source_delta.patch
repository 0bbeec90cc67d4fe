From d3c0fc24b02a236a7000e2dfd02db7eb671aaa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 01/28] hook: constructor for file entries over any stream (cfg
 volaris_mc)

---
 crates/volaris-tools/src/storage.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index 5a71a5f..e0f2f64 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -453,6 +453,24 @@ where
     }
 }
 
+/// Construction of file entries over an arbitrary stream, so that a [`Storage`] can be
+/// implemented outside of this crate. Only compiled for model checking (`--cfg volaris_mc`).
+#[allow(unexpected_cfgs)]
+mod mc_hooks {
+    #[cfg(volaris_mc)]
+    impl<RW> super::Entry<RW>
+    where
+        RW: std::io::Read + std::io::Write + std::io::Seek,
+    {
+        pub fn mc_file(path: std::path::PathBuf, stream: RW) -> Self {
+            super::Entry::File(super::FileData {
+                path,
+                stream: std::cell::RefCell::new(stream),
+            })
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 6e38b0d8c38f08a893d8b6bc00cb58901198e382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 02/28] fix: passphrase generation indexed one past the end of
 the word list

---
 crates/volaris-crypto/src/key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-crypto/src/key.rs b/crates/volaris-crypto/src/key.rs
index d921319..ec04b29 100644
--- a/crates/volaris-crypto/src/key.rs
+++ b/crates/volaris-crypto/src/key.rs
@@ -209,7 +209,7 @@ pub fn generate_passphrase(total_words: &i32) -> Protected<String> {
     let mut passphrase = String::new();
 
     for i in 0..*total_words {
-        let index = StdRng::from_entropy().gen_range(0..=words.len());
+        let index = StdRng::from_entropy().gen_range(0..words.len());
         let word = words[index];
         passphrase.push_str(word);
         if i < total_words - 1 {
-- 
2.43.0


From da1182bdb0c5ad8216a9f745d3f9fd51701b3b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 03/28] fix: overwrite passes wrote no random bytes

---
 crates/volaris-tools/src/overwrite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/overwrite.rs b/crates/volaris-tools/src/overwrite.rs
index 126cbb8..6725ea0 100644
--- a/crates/volaris-tools/src/overwrite.rs
+++ b/crates/volaris-tools/src/overwrite.rs
@@ -45,7 +45,7 @@ pub fn execute<W: Write + Seek>(req: Request<'_, W>) -> Result<(), Error> {
         blocks.push(req.buf_capacity % BLOCK_SIZE);
 
         for block_size in blocks.into_iter().take_while(|bs| *bs > 0) {
-            let mut block_buf = Vec::with_capacity(block_size);
+            let mut block_buf = vec![0u8; block_size];
             rand::thread_rng().fill_bytes(&mut block_buf);
             writer
                 .write_all(&block_buf)
-- 
2.43.0


From 017a0b503525e21fe253a6e91309c76a03709a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 04/28] fix: erase truncated the file before overwriting it

---
 crates/volaris-tools/src/erase.rs   |  2 +-
 crates/volaris-tools/src/storage.rs | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/erase.rs b/crates/volaris-tools/src/erase.rs
index 8dd6404..207cfcc 100644
--- a/crates/volaris-tools/src/erase.rs
+++ b/crates/volaris-tools/src/erase.rs
@@ -37,7 +37,7 @@ where
     RW: Read + Write + Seek,
     P: AsRef<Path>,
 {
-    let file = stor.write_file(req.path).map_err(|_| Error::OpenFile)?;
+    let file = stor.open_file(req.path).map_err(|_| Error::OpenFile)?;
     let buf_capacity = stor.file_len(&file).map_err(|_| Error::OpenFile)?;
 
     crate::overwrite::execute(crate::overwrite::Request {
diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index e0f2f64..bbdb3bc 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -67,6 +67,10 @@ where
     fn create_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn read_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
     fn write_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error>;
+    /// Opens an existing file for writing without discarding its content.
+    fn open_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<RW>, Error> {
+        self.write_file(path)
+    }
     fn flush_file(&self, file: &Entry<RW>) -> Result<(), Error>;
     fn file_len(&self, file: &Entry<RW>) -> Result<usize, Error>;
     fn remove_file(&self, file: Entry<RW>) -> Result<(), Error>;
@@ -124,6 +128,20 @@ impl Storage<fs::File> for FileStorage {
         }))
     }
 
+    fn open_file<P: AsRef<Path>>(&self, path: P) -> Result<Entry<fs::File>, Error> {
+        let path = path.as_ref().to_path_buf();
+        let file = fs::File::options()
+            .write(true)
+            .read(true)
+            .open(&path)
+            .map_err(|_| Error::OpenFile(FileMode::Write))?;
+
+        Ok(Entry::File(FileData {
+            path,
+            stream: RefCell::new(file),
+        }))
+    }
+
     fn flush_file(&self, file: &Entry<fs::File>) -> Result<(), Error> {
         file.try_writer()?
             .borrow_mut()
-- 
2.43.0


From 09338e4d01a9c1f492225dcec8027bcec7f2a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 05/28] fix: a short read ended stream encryption and
 decryption early

---
 crates/volaris-crypto/src/stream.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-crypto/src/stream.rs b/crates/volaris-crypto/src/stream.rs
index 99005ef..32d32db 100644
--- a/crates/volaris-crypto/src/stream.rs
+++ b/crates/volaris-crypto/src/stream.rs
@@ -60,6 +60,22 @@ pub enum DecryptionStreams {
     DeoxysII256(Box<DecryptorLE31<DeoxysII256>>),
 }
 
+/// Reads until the buffer is full or the end of the reader has been reached
+///
+/// A single `read()` may return fewer bytes even though more are to come
+fn read_block(reader: &mut impl Read, buffer: &mut [u8]) -> std::io::Result<usize> {
+    let mut filled = 0;
+    while filled < buffer.len() {
+        match reader.read(&mut buffer[filled..]) {
+            Ok(0) => break,
+            Ok(n) => filled += n,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(filled)
+}
+
 impl EncryptionStreams {
     /// This method can be used to quickly create an `EncryptionStreams` object
     ///
@@ -192,8 +208,7 @@ impl EncryptionStreams {
 
         let mut read_buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
         loop {
-            let read_count = reader
-                .read(&mut read_buffer)
+            let read_count = read_block(reader, &mut read_buffer)
                 .context("Unable to read from the reader")?;
             if read_count == BLOCK_SIZE {
                 // aad is just empty bytes normally
@@ -360,7 +375,7 @@ impl DecryptionStreams {
 
         let mut buffer = vec![0u8; BLOCK_SIZE + 16].into_boxed_slice();
         loop {
-            let read_count = reader.read(&mut buffer)?;
+            let read_count = read_block(reader, &mut buffer)?;
             if read_count == (BLOCK_SIZE + 16) {
                 let payload = Payload {
                     aad,
-- 
2.43.0


From c89077d1df6d3c6e050154c20e598d31ad0476a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 06/28] fix: a partial write left an incomplete header

---
 crates/volaris-crypto/src/header.rs | 2 +-
 crates/volaris-tools/src/encrypt.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/volaris-crypto/src/header.rs b/crates/volaris-crypto/src/header.rs
index 5c78a05..956940f 100644
--- a/crates/volaris-crypto/src/header.rs
+++ b/crates/volaris-crypto/src/header.rs
@@ -715,7 +715,7 @@ impl Header {
     pub fn write(&self, writer: &mut impl Write) -> Result<()> {
         let header_bytes = self.serialize()?;
         writer
-            .write(&header_bytes)
+            .write_all(&header_bytes)
             .context("Unable to write header")?;
 
         Ok(())
diff --git a/crates/volaris-tools/src/encrypt.rs b/crates/volaris-tools/src/encrypt.rs
index 1a3d1b9..368c1a3 100644
--- a/crates/volaris-tools/src/encrypt.rs
+++ b/crates/volaris-tools/src/encrypt.rs
@@ -120,7 +120,7 @@ where
         None => {
             req.writer
                 .borrow_mut()
-                .write(&header.serialize().map_err(|_| Error::WriteHeader)?)
+                .write_all(&header.serialize().map_err(|_| Error::WriteHeader)?)
                 .map_err(|_| Error::WriteHeader)?;
         }
         Some(header_writer) => {
@@ -131,7 +131,7 @@ where
 
             header_writer
                 .borrow_mut()
-                .write(&header.serialize().map_err(|_| Error::WriteHeader)?)
+                .write_all(&header.serialize().map_err(|_| Error::WriteHeader)?)
                 .map_err(|_| Error::WriteHeader)?;
         }
     }
-- 
2.43.0


From 454e567ea0ded64ad4653f092810cad8a5cf8e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 07/28] fix: header restore accepted targets without room for
 the header

---
 crates/volaris-tools/src/header/restore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/header/restore.rs b/crates/volaris-tools/src/header/restore.rs
index d07a747..ad87338 100644
--- a/crates/volaris-tools/src/header/restore.rs
+++ b/crates/volaris-tools/src/header/restore.rs
@@ -32,7 +32,7 @@ where
     ];
     req.writer
         .borrow_mut()
-        .read(&mut header_bytes)
+        .read_exact(&mut header_bytes)
         .map_err(|_| Error::Read)?;
 
     if !header_bytes.into_iter().all(|b| b == 0) {
-- 
2.43.0


From 5051716fafb005b540b68f2c283837d480065a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:42 +0000
Subject: [PATCH 08/28] fix: a short read ended hashing and packing early

---
 crates/volaris-tools/src/hash.rs | 14 +++++++-------
 crates/volaris-tools/src/pack.rs | 12 ++++++++----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/crates/volaris-tools/src/hash.rs b/crates/volaris-tools/src/hash.rs
index f171eca..26fb274 100644
--- a/crates/volaris-tools/src/hash.rs
+++ b/crates/volaris-tools/src/hash.rs
@@ -39,15 +39,15 @@ pub fn execute<R: Read + Seek>(mut hasher: impl Hasher, req: Request<R>) -> Resu
     let mut buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
 
     loop {
-        let read_count = req
-            .reader
-            .borrow_mut()
-            .read(&mut buffer)
-            .map_err(|_| Error::ReadData)?;
-        hasher.write(&buffer[..read_count]);
-        if read_count != BLOCK_SIZE {
+        let read_count = match req.reader.borrow_mut().read(&mut buffer) {
+            Ok(read_count) => read_count,
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+            Err(_) => return Err(Error::ReadData),
+        };
+        if read_count == 0 {
             break;
         }
+        hasher.write(&buffer[..read_count]);
     }
 
     Ok(hasher.finish())
diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index e07791e..0ebd923 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -90,13 +90,17 @@ where
                 let mut reader = f.try_reader().map_err(|_| Error::ReadData)?.borrow_mut();
                 let mut buffer = vec![0u8; BLOCK_SIZE].into_boxed_slice();
                 loop {
-                    let read_count = reader.read(&mut buffer).map_err(|_| Error::ReadData)?;
+                    let read_count = match reader.read(&mut buffer) {
+                        Ok(read_count) => read_count,
+                        Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                        Err(_) => return Err(Error::ReadData),
+                    };
+                    if read_count == 0 {
+                        break;
+                    }
                     zip_writer
                         .write_all(&buffer[..read_count])
                         .map_err(|_| Error::WriteData)?;
-                    if read_count != BLOCK_SIZE {
-                        break;
-                    }
                 }
             }
 
-- 
2.43.0


From 49d4224edf51cfa05549e77ead1458a7f2f77ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 09/28] fix: unpack silently skipped archive entries it could
 not read

---
 crates/volaris-tools/src/unpack.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 009ae31..aed8169 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -89,7 +89,10 @@ pub fn execute<RW: Read + Write + Seek>(
         // 4. prepare phase
         let entities = (0..archive.len())
             .filter_map(|i| {
-                let zip_file = archive.by_index(i).ok()?;
+                let zip_file = match archive.by_index(i) {
+                    Ok(zip_file) => zip_file,
+                    Err(_) => return Some(Err(Error::OpenArchivedFile)),
+                };
                 let mut full_path = output_dir.clone();
 
                 // Prevent zip slip attack
@@ -98,17 +101,14 @@ pub fn execute<RW: Read + Write + Seek>(
                 zip_file.enclosed_name().map(|path| {
                     full_path.push(path);
 
-                    (full_path, i, zip_file.is_dir())
+                    Ok((full_path, i, zip_file.is_dir()))
                 })
             })
-            .filter(|(full_path, ..)| {
-                if let Some(on_zip_file) = req.on_zip_file.as_ref() {
-                    on_zip_file(full_path.clone())
-                } else {
-                    true
-                }
+            .filter(|entity| match (entity, req.on_zip_file.as_ref()) {
+                (Ok((full_path, ..)), Some(on_zip_file)) => on_zip_file(full_path.clone()),
+                _ => true,
             })
-            .collect::<Vec<_>>();
+            .collect::<Result<Vec<_>, _>>()?;
 
         let files_count = entities.len();
         if let Some(on_archive_info) = req.on_archive_info {
-- 
2.43.0


From 7515b0e22875f2c5ee2cf4863f7d4e417a8e16d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 10/28] fix: pack and unpack left the plaintext temporary
 archive behind on failure

---
 crates/volaris-tools/src/erase.rs  | 28 +++++++++++++++++++++-
 crates/volaris-tools/src/pack.rs   | 37 +++++++++++++++++-------------
 crates/volaris-tools/src/unpack.rs | 31 +++++++++++++------------
 3 files changed, 64 insertions(+), 32 deletions(-)

diff --git a/crates/volaris-tools/src/erase.rs b/crates/volaris-tools/src/erase.rs
index 207cfcc..ef657d9 100644
--- a/crates/volaris-tools/src/erase.rs
+++ b/crates/volaris-tools/src/erase.rs
@@ -6,7 +6,7 @@ use std::io::{Read, Seek, Write};
 use std::path::Path;
 use std::sync::Arc;
 
-use crate::storage::Storage;
+use crate::storage::{Entry, Storage};
 
 #[derive(Debug)]
 pub enum Error {
@@ -54,6 +54,32 @@ where
     Ok(())
 }
 
+/// Overwrites a temporary file and removes it (which is attempted even if overwriting has failed)
+pub(crate) fn erase_temp_file<RW>(
+    stor: &impl Storage<RW>,
+    file: Entry<RW>,
+    passes: i32,
+) -> Result<(), Error>
+where
+    RW: Read + Write + Seek,
+{
+    let overwrite_res = stor
+        .file_len(&file)
+        .map_err(|_| Error::OpenFile)
+        .and_then(|buf_capacity| {
+            crate::overwrite::execute(crate::overwrite::Request {
+                writer: file.try_writer().map_err(|_| Error::OpenFile)?,
+                buf_capacity,
+                passes,
+            })
+            .map_err(Error::Overwrite)
+        });
+
+    stor.remove_file(file).map_err(|_| Error::RemoveFile)?;
+
+    overwrite_res
+}
+
 #[cfg(test)]
 mod tests {
     use std::path::PathBuf;
diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index 0ebd923..f636ec7 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -24,6 +24,7 @@ pub enum Error {
     ReadData,
     WriteData,
     Encrypt(crate::encrypt::Error),
+    EraseArchive(crate::erase::Error),
 }
 
 impl std::fmt::Display for Error {
@@ -36,6 +37,7 @@ impl std::fmt::Display for Error {
             Error::ReadData => f.write_str("Unable to read data"),
             Error::WriteData => f.write_str("Unable to write data"),
             Error::Encrypt(inner) => write!(f, "Unable to encrypt archive: {inner}"),
+            Error::EraseArchive(inner) => write!(f, "Unable to erase temporary archive: {inner}"),
         }
     }
 }
@@ -62,6 +64,23 @@ where
 {
     // 1. Create zip archive.
     let tmp_file = stor.create_temp_file().map_err(|_| Error::CreateArchive)?;
+
+    let pack_res = pack_and_encrypt(&tmp_file, req);
+
+    // 5. Finally erase zip archive with zeros.
+    let erase_res =
+        crate::erase::erase_temp_file(&*stor, tmp_file, 2).map_err(Error::EraseArchive);
+
+    pack_res.and(erase_res)
+}
+
+fn pack_and_encrypt<RW>(
+    tmp_file: &crate::storage::Entry<RW>,
+    req: Request<'_, RW>,
+) -> Result<(), Error>
+where
+    RW: Read + Write + Seek,
+{
     {
         let mut tmp_writer = tmp_file
             .try_writer()
@@ -111,10 +130,8 @@ where
         zip_writer.finish().map_err(|_| Error::FinishArchive)?;
     }
 
-    let buf_capacity = stor.file_len(&tmp_file).map_err(|_| Error::FinishArchive)?;
-
     // 4. Encrypt zip archive
-    let encrypt_res = crate::encrypt::execute(crate::encrypt::Request {
+    crate::encrypt::execute(crate::encrypt::Request {
         reader: tmp_file.try_reader().map_err(|_| Error::FinishArchive)?,
         writer: req.writer,
         header_writer: req.header_writer,
@@ -122,19 +139,7 @@ where
         header_type: req.header_type,
         hashing_algorithm: req.hashing_algorithm,
     })
-    .map_err(Error::Encrypt);
-
-    // 5. Finally erase zip archive with zeros.
-    crate::overwrite::execute(crate::overwrite::Request {
-        buf_capacity,
-        writer: tmp_file.try_writer().map_err(|_| Error::FinishArchive)?,
-        passes: 2,
-    })
-    .ok();
-
-    stor.remove_file(tmp_file).ok();
-
-    encrypt_res
+    .map_err(Error::Encrypt)
 }
 
 #[cfg(test)]
diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index aed8169..0b3b8b1 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -8,7 +8,7 @@ use std::path::PathBuf;
 use std::sync::Arc;
 
 use crate::storage::{self, Storage};
-use crate::{decrypt, overwrite};
+use crate::{decrypt, erase};
 use corecrypto::protected::Protected;
 
 #[derive(Debug)]
@@ -19,6 +19,7 @@ pub enum Error {
     ResetCursorPosition,
     Storage(storage::Error),
     Decrypt(decrypt::Error),
+    EraseArchive(erase::Error),
 }
 
 impl std::fmt::Display for Error {
@@ -30,6 +31,7 @@ impl std::fmt::Display for Error {
             Error::ResetCursorPosition => f.write_str("Unable to reset cursor position"),
             Error::Storage(inner) => write!(f, "Storage error: {inner}"),
             Error::Decrypt(inner) => write!(f, "Decrypt error: {inner}"),
+            Error::EraseArchive(inner) => write!(f, "Unable to erase temporary archive: {inner}"),
         }
     }
 }
@@ -59,6 +61,19 @@ pub fn execute<RW: Read + Write + Seek>(
     // 1. Create temp zip archive.
     let tmp_file = stor.create_temp_file().map_err(Error::Storage)?;
 
+    let unpack_res = decrypt_and_unpack(&stor, &tmp_file, req);
+
+    // 7. Finally eraze temp zip archive with zeros.
+    let erase_res = erase::erase_temp_file(&*stor, tmp_file, 1).map_err(Error::EraseArchive);
+
+    unpack_res.and(erase_res)
+}
+
+fn decrypt_and_unpack<RW: Read + Write + Seek>(
+    stor: &Arc<impl Storage<RW> + 'static>,
+    tmp_file: &storage::Entry<RW>,
+    req: Request<'_, RW>,
+) -> Result<(), Error> {
     // 2. Decrypt input file to temp zip archive.
     decrypt::execute(decrypt::Request {
         header_reader: req.header_reader,
@@ -71,8 +86,6 @@ pub fn execute<RW: Read + Write + Seek>(
     })
     .map_err(Error::Decrypt)?;
 
-    let buf_capacity = stor.file_len(&tmp_file).map_err(Error::Storage)?;
-
     // 3. Recover files from temp archive.
     {
         let mut reader = tmp_file
@@ -152,18 +165,6 @@ pub fn execute<RW: Read + Write + Seek>(
             })?;
     }
 
-    // 7. Finally eraze temp zip archive with zeros.
-    overwrite::execute(overwrite::Request {
-        buf_capacity,
-        writer: tmp_file
-            .try_writer()
-            .expect("We sure that file in write mode"),
-        passes: 1,
-    })
-    .ok();
-
-    stor.remove_file(tmp_file).ok();
-
     Ok(())
 }
 
-- 
2.43.0


From 2e69382cd0ecd714557f272fc561f64142444f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 11/28] fix: pack ignored a failure to write the end of its
 archive

---
 crates/volaris-tools/src/pack.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index f636ec7..7d4fad4 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -127,7 +127,11 @@ where
         })?;
 
         // 3. Close archive and switch writer to reader.
-        zip_writer.finish().map_err(|_| Error::FinishArchive)?;
+        zip_writer
+            .finish()
+            .map_err(|_| Error::FinishArchive)?
+            .flush()
+            .map_err(|_| Error::FinishArchive)?;
     }
 
     // 4. Encrypt zip archive
-- 
2.43.0


From 2491b5a897e78691776a62d09c37b89802db105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:36 +0000
Subject: [PATCH 12/28] fix: directories packed by absolute or parent path were
 lost on unpack

---
 crates/volaris-tools/src/pack.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/volaris-tools/src/pack.rs b/crates/volaris-tools/src/pack.rs
index 7d4fad4..767bcd1 100644
--- a/crates/volaris-tools/src/pack.rs
+++ b/crates/volaris-tools/src/pack.rs
@@ -6,6 +6,7 @@
 
 use std::cell::RefCell;
 use std::io::{BufWriter, Read, Seek, Write};
+use std::path::{Component, Path};
 use std::sync::Arc;
 
 use corecrypto::header::{HashingAlgorithm, HeaderType};
@@ -74,6 +75,24 @@ where
     pack_res.and(erase_res)
 }
 
+/// Returns the name of a file within the archive.
+///
+/// Names have to be relative and must not lead out of the target directory, as they would be
+/// skipped while unpacking otherwise.
+fn archive_name(path: &Path) -> Option<String> {
+    let mut names = Vec::new();
+    for component in path.components() {
+        match component {
+            Component::Normal(name) => names.push(name.to_str()?),
+            Component::ParentDir => {
+                names.pop();
+            }
+            Component::Prefix(_) | Component::RootDir | Component::CurDir => {}
+        }
+    }
+    Some(names.join("/"))
+}
+
 fn pack_and_encrypt<RW>(
     tmp_file: &crate::storage::Entry<RW>,
     req: Request<'_, RW>,
@@ -96,11 +115,14 @@ where
 
         // 2. Add files to the archive.
         req.compress_files.into_iter().try_for_each(|f| {
-            let file_path = f.path().to_str().ok_or(Error::ReadData)?;
+            let file_path = archive_name(f.path()).ok_or(Error::ReadData)?;
             if f.is_dir() {
-                zip_writer
-                    .add_directory(file_path, options)
-                    .map_err(|_| Error::AddDirToArchive)?;
+                // The target directory itself is always created.
+                if !file_path.is_empty() {
+                    zip_writer
+                        .add_directory(file_path + "/", options)
+                        .map_err(|_| Error::AddDirToArchive)?;
+                }
             } else {
                 zip_writer
                     .start_file(file_path, options)
-- 
2.43.0


From c9a0a7ca9f04617348de57294778957ef0a230db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 13/28] fix: unpack took files whose name ends with a backslash
 for directories

---
 crates/volaris-tools/src/unpack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 0b3b8b1..4c244f1 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -114,7 +114,8 @@ fn decrypt_and_unpack<RW: Read + Write + Seek>(
                 zip_file.enclosed_name().map(|path| {
                     full_path.push(path);
 
-                    Ok((full_path, i, zip_file.is_dir()))
+                    // `is_dir()` would also match files whose name ends with a backslash
+                    Ok((full_path, i, zip_file.name().ends_with('/')))
                 })
             })
             .filter(|entity| match (entity, req.on_zip_file.as_ref()) {
-- 
2.43.0


From 45c69715e2789dbd7783e494499ca0b7af8166a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 14/28] fix: decryption streams panicked on a nonce of the
 wrong length

---
 crates/volaris-crypto/src/stream.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/volaris-crypto/src/stream.rs b/crates/volaris-crypto/src/stream.rs
index 32d32db..c521d29 100644
--- a/crates/volaris-crypto/src/stream.rs
+++ b/crates/volaris-crypto/src/stream.rs
@@ -285,6 +285,10 @@ impl DecryptionStreams {
     ) -> anyhow::Result<Self> {
         let streams = match algorithm {
             Algorithm::Aes256Gcm => {
+                if nonce.len() != 8 {
+                    return Err(anyhow::anyhow!("Nonce is not the correct length"));
+                }
+
                 let cipher = Aes256Gcm::new_from_slice(key.expose())
                     .map_err(|_| anyhow::anyhow!("Unable to create cipher with hashed key."))?;
 
@@ -292,6 +296,10 @@ impl DecryptionStreams {
                 DecryptionStreams::Aes256Gcm(Box::new(stream))
             }
             Algorithm::XChaCha20Poly1305 => {
+                if nonce.len() != 20 {
+                    return Err(anyhow::anyhow!("Nonce is not the correct length"));
+                }
+
                 let cipher = XChaCha20Poly1305::new_from_slice(key.expose())
                     .map_err(|_| anyhow::anyhow!("Unable to create cipher with hashed key."))?;
 
@@ -299,6 +307,10 @@ impl DecryptionStreams {
                 DecryptionStreams::XChaCha20Poly1305(Box::new(stream))
             }
             Algorithm::DeoxysII256 => {
+                if nonce.len() != 11 {
+                    return Err(anyhow::anyhow!("Nonce is not the correct length"));
+                }
+
                 let cipher = DeoxysII256::new_from_slice(key.expose())
                     .map_err(|_| anyhow::anyhow!("Unable to create cipher with hashed key."))?;
 
-- 
2.43.0


From 4eed206f88a974eff62f6f2cd4c3571489d7d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 15/28] fix: encrypting with a key hash the header version
 cannot record lost the data or panicked

---
 crates/volaris-crypto/src/header.rs | 32 +++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/crates/volaris-crypto/src/header.rs b/crates/volaris-crypto/src/header.rs
index 956940f..1228cda 100644
--- a/crates/volaris-crypto/src/header.rs
+++ b/crates/volaris-crypto/src/header.rs
@@ -524,30 +524,44 @@ impl Header {
     /// This is a private function (called by `serialize()`)
     ///
     /// It serializes V3 headers
-    fn serialize_v3(&self, tag: &HeaderTag) -> Vec<u8> {
+    fn serialize_v3(&self, tag: &HeaderTag) -> Result<Vec<u8>> {
+        let salt = self
+            .salt
+            .ok_or_else(|| anyhow::anyhow!("Missing salt within the header!"))?;
         let padding =
             vec![0u8; 26 - get_nonce_len(&self.header_type.algorithm, &self.header_type.mode)];
         let mut header_bytes = Vec::<u8>::new();
         header_bytes.extend_from_slice(&tag.version);
         header_bytes.extend_from_slice(&tag.algorithm);
         header_bytes.extend_from_slice(&tag.mode);
-        header_bytes.extend_from_slice(&self.salt.unwrap());
+        header_bytes.extend_from_slice(&salt);
         header_bytes.extend_from_slice(&[0; 16]);
         header_bytes.extend_from_slice(&self.nonce);
         header_bytes.extend_from_slice(&padding);
-        header_bytes
+        Ok(header_bytes)
     }
 
     /// This is a private function (called by `serialize()`)
     ///
     /// It serializes V4 headers
-    fn serialize_v4(&self, tag: &HeaderTag) -> Vec<u8> {
+    fn serialize_v4(&self, tag: &HeaderTag) -> Result<Vec<u8>> {
         let padding =
             vec![0u8; 26 - get_nonce_len(&self.header_type.algorithm, &self.header_type.mode)];
         let padding2 =
             vec![0u8; 32 - get_nonce_len(&self.header_type.algorithm, &Mode::MemoryMode)];
 
-        let keyslot = self.keyslots.clone().unwrap();
+        let keyslot = self.keyslots.clone().unwrap_or_default();
+
+        // there is no room for the hashing algorithm, decryption assumes this one
+        match keyslot.first().map(|k| k.hash_algorithm) {
+            Some(HashingAlgorithm::Blake3Balloon(4)) => {}
+            Some(_) => {
+                return Err(anyhow::anyhow!(
+                    "The hashing algorithm is not supported on header version V4."
+                ))
+            }
+            None => return Err(anyhow::anyhow!("Unable to find a keyslot!")),
+        }
 
         let mut header_bytes = Vec::<u8>::new();
         header_bytes.extend_from_slice(&tag.version);
@@ -559,7 +573,7 @@ impl Header {
         header_bytes.extend_from_slice(&keyslot[0].encrypted_key);
         header_bytes.extend_from_slice(&keyslot[0].nonce);
         header_bytes.extend_from_slice(&padding2);
-        header_bytes
+        Ok(header_bytes)
     }
 
     /// This is a private function (called by `serialize()`)
@@ -626,8 +640,8 @@ impl Header {
             HeaderVersion::V2 => Err(anyhow::anyhow!(
                 "Serializing V2 headers has been deprecated"
             )),
-            HeaderVersion::V3 => Ok(self.serialize_v3(&tag)),
-            HeaderVersion::V4 => Ok(self.serialize_v4(&tag)),
+            HeaderVersion::V3 => self.serialize_v3(&tag),
+            HeaderVersion::V4 => self.serialize_v4(&tag),
             HeaderVersion::V5 => Ok(self.serialize_v5(&tag)),
         }
     }
@@ -657,7 +671,7 @@ impl Header {
             HeaderVersion::V2 => Err(anyhow::anyhow!(
                 "Serializing V2 headers has been deprecated"
             )),
-            HeaderVersion::V3 => Ok(self.serialize_v3(&tag)),
+            HeaderVersion::V3 => self.serialize_v3(&tag),
             HeaderVersion::V4 => {
                 let padding =
                     vec![
-- 
2.43.0


From be0b47197d812447a63d06ce858d647869078b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 16/28] fix: erasing a directory destroyed files outside of it
 through symbolic links

---
 crates/volaris-tools/src/erase_dir.rs | 3 ++-
 crates/volaris-tools/src/storage.rs   | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-tools/src/erase_dir.rs b/crates/volaris-tools/src/erase_dir.rs
index b8f3e3b..676b4c3 100644
--- a/crates/volaris-tools/src/erase_dir.rs
+++ b/crates/volaris-tools/src/erase_dir.rs
@@ -51,7 +51,8 @@ where
     #[allow(clippy::needless_collect)] // 🚫 we have to collect in order to propertly join threads!
     let handlers = files
         .into_iter()
-        .filter(|f| !f.is_dir())
+        // links are removed along with the directory, but the files they lead to aren't part of it
+        .filter(|f| !f.is_dir() && !stor.is_symlink(f))
         .map(|f| {
             let file_path = f.path().to_path_buf();
             let stor = stor.clone();
diff --git a/crates/volaris-tools/src/storage.rs b/crates/volaris-tools/src/storage.rs
index bbdb3bc..a35b8b0 100644
--- a/crates/volaris-tools/src/storage.rs
+++ b/crates/volaris-tools/src/storage.rs
@@ -75,6 +75,10 @@ where
     fn file_len(&self, file: &Entry<RW>) -> Result<usize, Error>;
     fn remove_file(&self, file: Entry<RW>) -> Result<(), Error>;
     fn remove_dir_all(&self, file: Entry<RW>) -> Result<(), Error>;
+    /// Returns whether the path of the entry is a symbolic link.
+    fn is_symlink(&self, _file: &Entry<RW>) -> bool {
+        false
+    }
     // TODO(pleshevskiy): return iterator instead of Vector
     fn read_dir(&self, file: &Entry<RW>) -> Result<Vec<Entry<RW>>, Error>;
 }
@@ -176,6 +180,10 @@ impl Storage<fs::File> for FileStorage {
         fs::remove_dir_all(file.path()).map_err(|_| Error::RemoveDir)
     }
 
+    fn is_symlink(&self, file: &Entry<fs::File>) -> bool {
+        file.path().is_symlink()
+    }
+
     fn read_dir(&self, file: &Entry<fs::File>) -> Result<Vec<Entry<fs::File>>, Error> {
         if !file.is_dir() {
             return Err(Error::FileAccess);
-- 
2.43.0


From 731f41030daa0a94cff3243fdcb00f39eefa82c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 17/28] fix: command line flags and optional values were
 misread (inputs erased, passphrases generated and file names consumed
 unasked, decrypt and unpack crashed)

---
 crates/volaris-cli/src/cli.rs               | 35 +++++++++++++++++----
 crates/volaris-cli/src/global/parameters.rs | 23 ++++++++------
 crates/volaris-cli/src/global/states.rs     |  4 ++-
 3 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/crates/volaris-cli/src/cli.rs b/crates/volaris-cli/src/cli.rs
index 5e54c05..a13cb5f 100644
--- a/crates/volaris-cli/src/cli.rs
+++ b/crates/volaris-cli/src/cli.rs
@@ -1,4 +1,4 @@
-use clap::{Arg, Command};
+use clap::{Arg, ArgAction, Command};
 
 pub mod prompt;
 
@@ -30,27 +30,31 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("erase")
                 .long("erase")
                 .value_name("# of passes")
+                .num_args(0..=1)
                 .require_equals(true)
                 .help("Securely erase the input file once complete (default is 1 pass)")
-                .default_value("1"),
+                .default_missing_value("1"),
         )
         .arg(
             Arg::new("hash")
                 .short('H')
                 .long("hash")
+                .action(ArgAction::SetTrue)
                 .help("Return a BLAKE3 hash of the encrypted file"),
         )
         .arg(
             Arg::new("argon")
                 .long("argon")
+                .action(ArgAction::SetTrue)
                 .help("Use argon2id for password hashing"),
         )
         .arg(
             Arg::new("autogenerate")
                 .long("auto")
                 .value_name("# of words")
+                .num_args(0..=1)
                 .require_equals(true)
-                .default_value("7")
+                .default_missing_value("7")
                 .help("Autogenerate a passphrase (default is 7 words)")
                 .conflicts_with("keyfile"),
         )
@@ -64,11 +68,13 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("force")
                 .short('f')
                 .long("force")
+                .action(ArgAction::SetTrue)
                 .help("Force all actions"),
         )
         .arg(
             Arg::new("aes")
                 .long("aes")
+                .action(ArgAction::SetTrue)
                 .help("Use AES-256-GCM for encryption"),
         );
 
@@ -104,20 +110,23 @@ pub fn get_matches() -> clap::ArgMatches {
             Arg::new("erase")
                 .long("erase")
                 .value_name("# of passes")
+                .num_args(0..=1)
                 .require_equals(true)
                 .help("Securely erase the input file once complete (default is 1 pass)")
-                .default_value("1"),
+                .default_missing_value("1"),
         )
         .arg(
             Arg::new("hash")
                 .short('H')
                 .long("hash")
+                .action(ArgAction::SetTrue)
                 .help("Return a BLAKE3 hash of the encrypted file"),
         )
         .arg(
             Arg::new("force")
                 .short('f')
                 .long("force")
+                .action(ArgAction::SetTrue)
                 .help("Force all actions"),
         );
 
@@ -142,6 +151,7 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .action(ArgAction::SetTrue)
                         .help("Force all actions"),
                 )
                 .arg(
@@ -184,25 +194,29 @@ pub fn get_matches() -> clap::ArgMatches {
                 .arg(
                     Arg::new("erase")
                         .long("erase")
+                        .action(ArgAction::SetTrue)
                         .help("Securely erase every file from the source directory, before deleting the directory"),
                 )
                 .arg(
                     Arg::new("argon")
                         .long("argon")
+                        .action(ArgAction::SetTrue)
                         .help("Use argon2id for password hashing"),
                 )
                 .arg(
                     Arg::new("verbose")
                         .short('v')
                         .long("verbose")
+                        .action(ArgAction::SetTrue)
                         .help("Show a detailed output"),
                 )
                 .arg(
                     Arg::new("autogenerate")
                         .long("auto")
                         .value_name("# of words")
+                        .num_args(0..=1)
                         .require_equals(true)
-                        .default_value("7")
+                        .default_missing_value("7")
                         .help("Autogenerate a passphrase (default is 7 words)")
                         .conflicts_with("keyfile"),
                 )
@@ -216,12 +230,14 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("zstd")
                         .short('z')
                         .long("zstd")
+                        .action(ArgAction::SetTrue)
                         .help("Use ZSTD compression"),
                 )
                 .arg(
                     Arg::new("recursive")
                         .short('r')
                         .long("recursive")
+                        .action(ArgAction::SetTrue)
                         .help("Index files and folders within other folders (index recursively)"),
                 )
                 .arg(
@@ -235,17 +251,20 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("hash")
                         .short('H')
                         .long("hash")
+                        .action(ArgAction::SetTrue)
                         .help("Return a BLAKE3 hash of the encrypted file"),
                 )
                 .arg(
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .action(ArgAction::SetTrue)
                         .help("Force all actions"),
                 )
                 .arg(
                     Arg::new("aes")
                         .long("aes")
+                        .action(ArgAction::SetTrue)
                         .help("Use AES-256-GCM for encryption"),
                 ),
         )
@@ -282,26 +301,30 @@ pub fn get_matches() -> clap::ArgMatches {
                     Arg::new("erase")
                         .long("erase")
                         .value_name("# of passes")
+                        .num_args(0..=1)
                         .require_equals(true)
                         .help("Securely erase the input file once complete (default is 1 pass)")
-                        .default_value("1"),
+                        .default_missing_value("1"),
                 )
                 .arg(
                     Arg::new("verbose")
                         .short('v')
                         .long("verbose")
+                        .action(ArgAction::SetTrue)
                         .help("Show a detailed output"),
                 )
                 .arg(
                     Arg::new("hash")
                         .short('H')
                         .long("hash")
+                        .action(ArgAction::SetTrue)
                         .help("Return a BLAKE3 hash of the encrypted file"),
                 )
                 .arg(
                     Arg::new("force")
                         .short('f')
                         .long("force")
+                        .action(ArgAction::SetTrue)
                         .help("Force all actions"),
                 ),
         )
diff --git a/crates/volaris-cli/src/global/parameters.rs b/crates/volaris-cli/src/global/parameters.rs
index 9600692..717b12a 100644
--- a/crates/volaris-cli/src/global/parameters.rs
+++ b/crates/volaris-cli/src/global/parameters.rs
@@ -27,10 +27,15 @@ pub fn get_param(name: &str, sub_matches: &ArgMatches) -> Result<String> {
     Ok(value)
 }
 
+// not every subcommand defines every flag
+pub fn get_flag(name: &str, sub_matches: &ArgMatches) -> bool {
+    matches!(sub_matches.try_get_one::<bool>(name), Ok(Some(true)))
+}
+
 pub fn parameter_handler(sub_matches: &ArgMatches) -> Result<CryptoParams> {
     let key = Key::init(sub_matches, &KeyParams::default(), "keyfile")?;
 
-    let hash_mode = if sub_matches.contains_id("hash") {
+    let hash_mode = if get_flag("hash", sub_matches) {
         HashMode::CalculateHash
     } else {
         HashMode::NoHash
@@ -73,7 +78,7 @@ pub fn parameter_handler(sub_matches: &ArgMatches) -> Result<CryptoParams> {
 }
 
 pub fn hashing_algorithm(sub_matches: &ArgMatches) -> HashingAlgorithm {
-    if sub_matches.contains_id("argon") {
+    if get_flag("argon", sub_matches) {
         HashingAlgorithm::Argon2id(ARGON2ID_LATEST)
     } else {
         HashingAlgorithm::Blake3Balloon(BLAKE3BALLOON_LATEST)
@@ -81,7 +86,7 @@ pub fn hashing_algorithm(sub_matches: &ArgMatches) -> HashingAlgorithm {
 }
 
 pub fn algorithm(sub_matches: &ArgMatches) -> Algorithm {
-    if sub_matches.contains_id("aes") {
+    if get_flag("aes", sub_matches) {
         Algorithm::Aes256Gcm
     } else {
         Algorithm::XChaCha20Poly1305
@@ -113,7 +118,7 @@ pub fn erase_params(sub_matches: &ArgMatches) -> Result<(i32, ForceMode)> {
 pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams)> {
     let key = Key::init(sub_matches, &KeyParams::default(), "keyfile")?;
 
-    let hash_mode = if sub_matches.contains_id("hash") {
+    let hash_mode = if get_flag("hash", sub_matches) {
         HashMode::CalculateHash
     } else {
         HashMode::NoHash
@@ -140,25 +145,25 @@ pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams
         hashing_algorithm,
     };
 
-    let print_mode = if sub_matches.contains_id("verbose") {
+    let print_mode = if get_flag("verbose", sub_matches) {
         PrintMode::Verbose
     } else {
         PrintMode::Quiet
     };
 
-    let dir_mode = if sub_matches.contains_id("recursive") {
+    let dir_mode = if get_flag("recursive", sub_matches) {
         DirectoryMode::Recursive
     } else {
         DirectoryMode::Singular
     };
 
-    let erase_source = if sub_matches.contains_id("erase") {
+    let erase_source = if get_flag("erase", sub_matches) {
         EraseSourceDir::Erase
     } else {
         EraseSourceDir::Retain
     };
 
-    let compression = if sub_matches.contains_id("zstd") {
+    let compression = if get_flag("zstd", sub_matches) {
         Compression::Zstd
     } else {
         Compression::None
@@ -175,7 +180,7 @@ pub fn pack_params(sub_matches: &ArgMatches) -> Result<(CryptoParams, PackParams
 }
 
 pub fn forcemode(sub_matches: &ArgMatches) -> ForceMode {
-    if sub_matches.contains_id("force") {
+    if get_flag("force", sub_matches) {
         ForceMode::Force
     } else {
         ForceMode::Prompt
diff --git a/crates/volaris-cli/src/global/states.rs b/crates/volaris-cli/src/global/states.rs
index 48b5d92..8f2387d 100644
--- a/crates/volaris-cli/src/global/states.rs
+++ b/crates/volaris-cli/src/global/states.rs
@@ -134,7 +134,9 @@ impl Key {
             )
         } else if std::env::var("VOLARIS_KEY").is_ok() && params.env {
             Key::Env
-        } else if sub_matches.contains_id("autogenerate") && params.autogenerate {
+        } else if matches!(sub_matches.try_contains_id("autogenerate"), Ok(true))
+            && params.autogenerate
+        {
             let result = sub_matches
                 .get_one::<String>("autogenerate")
                 .context("No amount of words specified")?
-- 
2.43.0


From 1c8bcd5edd0accc5f1d6b950b64b6820f12f87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 18/28] fix: unpack ignored --erase

---
 crates/volaris-cli/src/subcommands/unpack.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index f308530..239555a 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -6,7 +6,7 @@ use anyhow::Result;
 use tools::storage::Storage;
 
 use crate::global::{
-    states::{HeaderLocation, PasswordState, PrintMode},
+    states::{EraseMode, HeaderLocation, PasswordState, PrintMode},
     structs::CryptoParams,
 };
 use crate::{info, warn};
@@ -77,5 +77,9 @@ pub fn unpack(
         super::hashing::hash_stream(&[input.to_string()])?;
     }
 
+    if let EraseMode::EraseFile(passes) = params.erase {
+        super::erase::secure_erase(input, passes, params.force)?;
+    }
+
     Ok(())
 }
-- 
2.43.0


From caae41e778b96cb0e33dad75056182828896edd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 19/28] fix: the output was already emptied when the user
 declined to overwrite the header file

---
 crates/volaris-cli/src/subcommands/encrypt.rs | 10 ++++++----
 crates/volaris-cli/src/subcommands/pack.rs    | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/encrypt.rs b/crates/volaris-cli/src/subcommands/encrypt.rs
index 87a0164..ad8ded7 100644
--- a/crates/volaris-cli/src/subcommands/encrypt.rs
+++ b/crates/volaris-cli/src/subcommands/encrypt.rs
@@ -32,6 +32,12 @@ pub fn stream_mode(
         exit(0);
     }
 
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        if !overwrite_check(path, params.force)? {
+            exit(0);
+        }
+    }
+
     let input_file = stor.read_file(input)?;
     let raw_key = params.key.get_secret(&PasswordState::Validate)?;
     let output_file = stor
@@ -41,10 +47,6 @@ pub fn stream_mode(
     let header_file = match &params.header_location {
         HeaderLocation::Embedded => None,
         HeaderLocation::Detached(path) => {
-            if !overwrite_check(path, params.force)? {
-                exit(0);
-            }
-
             Some(stor.create_file(path).or_else(|_| stor.write_file(path))?)
         }
     };
diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index 594079b..19d44cb 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -50,6 +50,12 @@ pub fn execute(req: &Request) -> Result<()> {
         exit(0);
     }
 
+    if let HeaderLocation::Detached(path) = &req.crypto_params.header_location {
+        if !overwrite_check(path, req.crypto_params.force)? {
+            exit(0);
+        }
+    }
+
     let input_files = req
         .input_file
         .iter()
@@ -63,10 +69,6 @@ pub fn execute(req: &Request) -> Result<()> {
     let header_file = match &req.crypto_params.header_location {
         HeaderLocation::Embedded => None,
         HeaderLocation::Detached(path) => {
-            if !overwrite_check(path, req.crypto_params.force)? {
-                exit(0);
-            }
-
             Some(stor.create_file(path).or_else(|_| stor.write_file(path))?)
         }
     };
-- 
2.43.0


From f00d6bea020dafd9c1191a34d62e29a64fd9b834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 20/28] fix: an output or header file naming the input (or the
 other) differently destroyed it

---
 crates/volaris-cli/src/global.rs              |  1 +
 crates/volaris-cli/src/global/paths.rs        | 31 ++++++++++++++++
 crates/volaris-cli/src/subcommands/decrypt.rs | 11 +++++-
 crates/volaris-cli/src/subcommands/encrypt.rs | 13 ++++++-
 crates/volaris-cli/src/subcommands/pack.rs    | 37 ++++++++++++++++++-
 5 files changed, 89 insertions(+), 4 deletions(-)
 create mode 100644 crates/volaris-cli/src/global/paths.rs

diff --git a/crates/volaris-cli/src/global.rs b/crates/volaris-cli/src/global.rs
index 3198e9c..e15341e 100644
--- a/crates/volaris-cli/src/global.rs
+++ b/crates/volaris-cli/src/global.rs
@@ -1,4 +1,5 @@
 pub mod parameters;
+pub mod paths;
 pub mod states;
 pub mod structs;
 
diff --git a/crates/volaris-cli/src/global/paths.rs b/crates/volaris-cli/src/global/paths.rs
new file mode 100644
index 0000000..85dba8e
--- /dev/null
+++ b/crates/volaris-cli/src/global/paths.rs
@@ -0,0 +1,31 @@
+use std::path::{Path, PathBuf};
+
+// this resolves links and relative parts of a path, even if the file itself doesn't exist (yet)
+pub fn resolve(path: &Path) -> Option<PathBuf> {
+    if let Ok(resolved) = std::fs::canonicalize(path) {
+        return Some(resolved);
+    }
+
+    let parent = match path.parent()? {
+        parent if parent.as_os_str().is_empty() => Path::new("."),
+        parent => parent,
+    };
+    Some(std::fs::canonicalize(parent).ok()?.join(path.file_name()?))
+}
+
+// this checks if both paths lead to the same file, however they are spelt
+pub fn is_same_file(a: &Path, b: &Path) -> bool {
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::MetadataExt;
+
+        if let (Ok(a), Ok(b)) = (std::fs::metadata(a), std::fs::metadata(b)) {
+            return a.dev() == b.dev() && a.ino() == b.ino();
+        }
+    }
+
+    match (resolve(a), resolve(b)) {
+        (Some(a), Some(b)) => a == b,
+        _ => a == b,
+    }
+}
diff --git a/crates/volaris-cli/src/subcommands/decrypt.rs b/crates/volaris-cli/src/subcommands/decrypt.rs
index 61c80ae..ba12983 100644
--- a/crates/volaris-cli/src/subcommands/decrypt.rs
+++ b/crates/volaris-cli/src/subcommands/decrypt.rs
@@ -2,6 +2,7 @@ use std::process::exit;
 use std::sync::Arc;
 
 use crate::cli::prompt::overwrite_check;
+use crate::global::paths::is_same_file;
 use crate::global::states::{EraseMode, HashMode, HeaderLocation, PasswordState};
 use crate::global::structs::CryptoParams;
 
@@ -19,12 +20,20 @@ pub fn stream_mode(input: &str, output: &str, params: &CryptoParams) -> Result<(
     let stor = Arc::new(tools::storage::FileStorage);
 
     // 1. validate and prepare options
-    if input == output {
+    if is_same_file(input.as_ref(), output.as_ref()) {
         return Err(anyhow::anyhow!(
             "Input and output files cannot have the same name."
         ));
     }
 
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        if is_same_file(path.as_ref(), output.as_ref()) {
+            return Err(anyhow::anyhow!(
+                "Header file cannot have the same name as another file."
+            ));
+        }
+    }
+
     if !overwrite_check(output, params.force)? {
         exit(0);
     }
diff --git a/crates/volaris-cli/src/subcommands/encrypt.rs b/crates/volaris-cli/src/subcommands/encrypt.rs
index ad8ded7..dec27d5 100644
--- a/crates/volaris-cli/src/subcommands/encrypt.rs
+++ b/crates/volaris-cli/src/subcommands/encrypt.rs
@@ -1,4 +1,5 @@
 use crate::cli::prompt::overwrite_check;
+use crate::global::paths::is_same_file;
 use crate::global::states::{EraseMode, HashMode, HeaderLocation, PasswordState};
 use crate::global::structs::CryptoParams;
 use anyhow::Result;
@@ -22,12 +23,22 @@ pub fn stream_mode(
     let stor = Arc::new(tools::storage::FileStorage);
 
     // 1. validate and prepare options
-    if input == output {
+    if is_same_file(input.as_ref(), output.as_ref()) {
         return Err(anyhow::anyhow!(
             "Input and output files cannot have the same name."
         ));
     }
 
+    if let HeaderLocation::Detached(path) = &params.header_location {
+        if is_same_file(path.as_ref(), output.as_ref())
+            || is_same_file(path.as_ref(), input.as_ref())
+        {
+            return Err(anyhow::anyhow!(
+                "Header file cannot have the same name as another file."
+            ));
+        }
+    }
+
     if !overwrite_check(output, params.force)? {
         exit(0);
     }
diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index 19d44cb..fdc2bb0 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -1,4 +1,4 @@
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::process::exit;
 use std::sync::Arc;
 
@@ -6,6 +6,7 @@ use anyhow::Result;
 use corecrypto::header::{HeaderType, HEADER_VERSION};
 use corecrypto::primitives::{Algorithm, Mode};
 
+use crate::global::paths::{is_same_file, resolve};
 use crate::global::states::{HashMode, HeaderLocation, PasswordState};
 use crate::{
     global::states::EraseSourceDir,
@@ -36,12 +37,39 @@ pub fn execute(req: &Request) -> Result<()> {
     let stor = Arc::new(tools::storage::FileStorage);
 
     // 1. validate and prepare options
-    if req.input_file.iter().any(|f| f == req.output_file) {
+    if req
+        .input_file
+        .iter()
+        .any(|f| is_same_file(f.as_ref(), req.output_file.as_ref()))
+    {
         return Err(anyhow::anyhow!(
             "Input and output files cannot have the same name."
         ));
     }
 
+    let mut target_files = vec![Path::new(req.output_file)];
+    if let HeaderLocation::Detached(path) = &req.crypto_params.header_location {
+        if is_same_file(path.as_ref(), req.output_file.as_ref()) {
+            return Err(anyhow::anyhow!(
+                "Header file cannot have the same name as another file."
+            ));
+        }
+        target_files.push(Path::new(path));
+    }
+
+    if req.pack_params.erase_source == EraseSourceDir::Erase {
+        for input in req.input_file {
+            let input_dir = resolve(input.as_ref());
+            if target_files.iter().any(|target| {
+                matches!((resolve(target), &input_dir), (Some(t), Some(dir)) if t.starts_with(dir))
+            }) {
+                return Err(anyhow::anyhow!(
+                    "Output files cannot be inside of a directory that gets erased."
+                ));
+            }
+        }
+    }
+
     if req.input_file.iter().any(|f| PathBuf::from(f).is_file()) {
         return Err(anyhow::anyhow!("Input path cannot be a file."));
     }
@@ -86,6 +114,11 @@ pub fn execute(req: &Request) -> Result<()> {
                 vec![Ok(file)]
             }
         })
+        // the output may be inside of an input directory, but isn't part of it
+        .filter(|file| match file {
+            Ok(file) => !target_files.iter().any(|t| is_same_file(t, file.path())),
+            Err(_) => true,
+        })
         .collect::<Result<Vec<_>, _>>()?;
 
     let compression_method = match req.pack_params.compression {
-- 
2.43.0


From 54285d6332f4a691b259756f3b93041155eef839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 21/28] fix: unpack crashed on unreadable answers, leaving the
 plaintext temporary archive behind

---
 crates/volaris-cli/src/subcommands/unpack.rs | 22 +++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/unpack.rs b/crates/volaris-cli/src/subcommands/unpack.rs
index 239555a..1c84ed9 100644
--- a/crates/volaris-cli/src/subcommands/unpack.rs
+++ b/crates/volaris-cli/src/subcommands/unpack.rs
@@ -1,4 +1,6 @@
 use crate::{cli::prompt::get_answer, global::states::HashMode};
+use std::cell::RefCell;
+use std::rc::Rc;
 use std::sync::Arc;
 
 use anyhow::Result;
@@ -34,6 +36,10 @@ pub fn unpack(
 
     let raw_key = params.key.get_secret(&PasswordState::Direct)?;
 
+    // the callback can neither fail nor panic, as the temporary file has to be erased
+    let answer_error = Rc::new(RefCell::new(None));
+    let answer_error_cb = answer_error.clone();
+
     tools::unpack::execute(
         stor,
         tools::unpack::Request {
@@ -46,18 +52,20 @@ pub fn unpack(
             on_zip_file: Some(Box::new(move |file_path| {
                 let file_name = file_path
                     .file_name()
-                    .expect("Unable to convert file name to OsStr")
-                    .to_str()
-                    .expect("Unable to convert file name's OsStr to &str")
+                    .unwrap_or(file_path.as_os_str())
+                    .to_string_lossy()
                     .to_string();
 
-                if std::fs::metadata(file_path).is_ok() {
+                if std::fs::metadata(&file_path).is_ok() {
                     let answer = get_answer(
                         &format!("{} already exists, would you like to overwrite?", file_name),
                         true,
                         params.force,
                     )
-                    .expect("Unable to read answer");
+                    .unwrap_or_else(|err| {
+                        *answer_error_cb.borrow_mut() = Some(err);
+                        false
+                    });
                     if !answer {
                         warn!("Skipping {}", file_name);
                         return false;
@@ -73,6 +81,10 @@ pub fn unpack(
         },
     )?;
 
+    if let Some(err) = answer_error.borrow_mut().take() {
+        return Err(err);
+    }
+
     if params.hash_mode == HashMode::CalculateHash {
         super::hashing::hash_stream(&[input.to_string()])?;
     }
-- 
2.43.0


From 9f98f4d6e6b590ad8f9777fb7ae31eb33829e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:39 +0000
Subject: [PATCH 22/28] fix: payloads shorter than a header with a detached
 header did not decrypt from in-memory readers

---
 crates/volaris-tools/src/decrypt.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/crates/volaris-tools/src/decrypt.rs b/crates/volaris-tools/src/decrypt.rs
index be3c6d7..7c78cb1 100644
--- a/crates/volaris-tools/src/decrypt.rs
+++ b/crates/volaris-tools/src/decrypt.rs
@@ -67,19 +67,14 @@ where
             #[allow(clippy::cast_possible_truncation)]
             let mut header_bytes = vec![0u8; header.get_size() as usize];
 
-            req.reader
-                .borrow_mut()
-                .read_exact(&mut header_bytes)
-                .or_else(|e| {
-                    if e.kind() == std::io::ErrorKind::UnexpectedEof {
-                        Ok(())
-                    } else {
-                        Err(e)
-                    }
-                })
-                .map_err(|_| Error::ReadEncryptedData)?;
+            let header_space = match req.reader.borrow_mut().read_exact(&mut header_bytes) {
+                Ok(()) => header_bytes.into_iter().all(|b| b == 0),
+                // Too short for a header, whatever the buffer holds now.
+                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => false,
+                Err(_) => return Err(Error::ReadEncryptedData),
+            };
 
-            if !header_bytes.into_iter().all(|b| b == 0) {
+            if !header_space {
                 // And return the cursor position to the start if it wasn't found
                 req.reader
                     .borrow_mut()
-- 
2.43.0


From 4dc44ded4fb5ddb16b38007f9816d7fda92c786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:28 +0000
Subject: [PATCH 23/28] fix: unpack and erasing a directory crashed when a
 thread could not be started, leaving the plaintext temporary archive behind

---
 crates/volaris-tools/src/erase_dir.rs | 26 ++++++++++++++------------
 crates/volaris-tools/src/unpack.rs    |  6 ++++--
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/crates/volaris-tools/src/erase_dir.rs b/crates/volaris-tools/src/erase_dir.rs
index 676b4c3..58883bc 100644
--- a/crates/volaris-tools/src/erase_dir.rs
+++ b/crates/volaris-tools/src/erase_dir.rs
@@ -56,21 +56,23 @@ where
         .map(|f| {
             let file_path = f.path().to_path_buf();
             let stor = stor.clone();
-            std::thread::spawn(move || -> Result<(), Error> {
-                crate::erase::execute(
-                    stor,
-                    crate::erase::Request {
-                        path: file_path,
-                        passes: req.passes,
-                    },
-                )
-                .map_err(Error::EraseFile)?;
-                Ok(())
-            })
+            std::thread::Builder::new()
+                .spawn(move || -> Result<(), Error> {
+                    crate::erase::execute(
+                        stor,
+                        crate::erase::Request {
+                            path: file_path,
+                            passes: req.passes,
+                        },
+                    )
+                    .map_err(Error::EraseFile)?;
+                    Ok(())
+                })
+                .map_err(|_| Error::EraseFile(crate::erase::Error::OpenFile))
         })
         .collect::<Vec<_>>();
 
-    handlers.into_iter().try_for_each(|h| h.join().unwrap())?;
+    handlers.into_iter().try_for_each(|h| h?.join().unwrap())?;
 
     stor.remove_dir_all(req.entry).map_err(|_| Error::RemoveDir)
 }
diff --git a/crates/volaris-tools/src/unpack.rs b/crates/volaris-tools/src/unpack.rs
index 4c244f1..0a30252 100644
--- a/crates/volaris-tools/src/unpack.rs
+++ b/crates/volaris-tools/src/unpack.rs
@@ -139,13 +139,15 @@ fn decrypt_and_unpack<RW: Read + Write + Seek>(
             .map(|full_path| {
                 let stor = stor.clone();
                 let full_path = full_path.clone();
-                std::thread::spawn(move || stor.create_dir_all(full_path).map_err(Error::Storage))
+                std::thread::Builder::new()
+                    .spawn(move || stor.create_dir_all(full_path).map_err(Error::Storage))
+                    .map_err(|_| Error::Storage(storage::Error::CreateDir))
             })
             .collect::<Vec<_>>();
 
         create_dirs_jobs
             .into_iter()
-            .try_for_each(|th| th.join().unwrap())?;
+            .try_for_each(|th| th?.join().unwrap())?;
 
         // 6. create files
         entities
-- 
2.43.0


From 143e65bf36a87b3acac1f3556b5640fe50c8cd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 24/28] fix: the memory balloon hashing works in, which ends
 with the derived key, was released unwiped

---
 crates/volaris-crypto/src/key.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-crypto/src/key.rs b/crates/volaris-crypto/src/key.rs
index ec04b29..0d57d63 100644
--- a/crates/volaris-crypto/src/key.rs
+++ b/crates/volaris-crypto/src/key.rs
@@ -122,10 +122,16 @@ pub fn balloon_hash(
     };
 
     let mut key = [0u8; 32];
+    let mut memory = vec![Default::default(); params.s_cost.get() as usize];
     let balloon = Balloon::<blake3::Hasher>::new(balloon_hash::Algorithm::Balloon, params, None);
-    let result = balloon.hash_into(raw_key.expose(), salt, &mut key);
+    let result = balloon.hash_into_with_memory(raw_key.expose(), salt, &mut memory, &mut key);
     drop(raw_key);
 
+    // the last block is the derived key
+    for block in &mut memory {
+        block.as_mut_slice().zeroize();
+    }
+
     if result.is_err() {
         return Err(anyhow::anyhow!("Error while hashing your key"));
     }
-- 
2.43.0


From 60e8753df273d6747822e4146072cef47db6eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 25/28] fix: pack ignored --verbose

---
 crates/volaris-cli/src/subcommands/pack.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index fdc2bb0..af677b7 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -7,13 +7,14 @@ use corecrypto::header::{HeaderType, HEADER_VERSION};
 use corecrypto::primitives::{Algorithm, Mode};
 
 use crate::global::paths::{is_same_file, resolve};
-use crate::global::states::{HashMode, HeaderLocation, PasswordState};
+use crate::global::states::{HashMode, HeaderLocation, PasswordState, PrintMode};
 use crate::{
     global::states::EraseSourceDir,
     global::{
         states::Compression,
         structs::{CryptoParams, PackParams},
     },
+    info,
 };
 use tools::storage::Storage;
 
@@ -121,6 +122,12 @@ pub fn execute(req: &Request) -> Result<()> {
         })
         .collect::<Result<Vec<_>, _>>()?;
 
+    if req.pack_params.print_mode == PrintMode::Verbose {
+        for file in &compress_files {
+            info!("Packing {}", file.path().display());
+        }
+    }
+
     let compression_method = match req.pack_params.compression {
         Compression::None => zip::CompressionMethod::Stored,
         Compression::Zstd => zip::CompressionMethod::Zstd,
-- 
2.43.0


From a049b18f524d150ff63450be506277b4d2455ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 26/28] fix: a VOLARIS_KEY that is not valid Unicode was
 silently ignored

---
 crates/volaris-cli/src/global/states.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/volaris-cli/src/global/states.rs b/crates/volaris-cli/src/global/states.rs
index 8f2387d..5956866 100644
--- a/crates/volaris-cli/src/global/states.rs
+++ b/crates/volaris-cli/src/global/states.rs
@@ -132,7 +132,7 @@ impl Key {
                     .context("No keyfile/invalid text provided")?
                     .to_string(),
             )
-        } else if std::env::var("VOLARIS_KEY").is_ok() && params.env {
+        } else if std::env::var_os("VOLARIS_KEY").is_some() && params.env {
             Key::Env
         } else if matches!(sub_matches.try_contains_id("autogenerate"), Ok(true))
             && params.autogenerate
-- 
2.43.0


From 32bdbad53035f40831bc414cdac892351133a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 27/28] fix: outputs named by a link to a file that did not
 exist yet were not recognised as the same file or as erased

---
 crates/volaris-cli/src/global/paths.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/crates/volaris-cli/src/global/paths.rs b/crates/volaris-cli/src/global/paths.rs
index 85dba8e..6261858 100644
--- a/crates/volaris-cli/src/global/paths.rs
+++ b/crates/volaris-cli/src/global/paths.rs
@@ -2,15 +2,25 @@ use std::path::{Path, PathBuf};
 
 // this resolves links and relative parts of a path, even if the file itself doesn't exist (yet)
 pub fn resolve(path: &Path) -> Option<PathBuf> {
-    if let Ok(resolved) = std::fs::canonicalize(path) {
-        return Some(resolved);
+    let mut path = path.to_path_buf();
+
+    // the file may be named by a link (to a link) to where it will be created
+    for _ in 0..40 {
+        if let Ok(resolved) = std::fs::canonicalize(&path) {
+            return Some(resolved);
+        }
+
+        let parent = match path.parent()? {
+            parent if parent.as_os_str().is_empty() => Path::new("."),
+            parent => parent,
+        };
+        path = match std::fs::read_link(&path) {
+            Ok(target) => parent.join(target),
+            Err(_) => return Some(std::fs::canonicalize(parent).ok()?.join(path.file_name()?)),
+        };
     }
 
-    let parent = match path.parent()? {
-        parent if parent.as_os_str().is_empty() => Path::new("."),
-        parent => parent,
-    };
-    Some(std::fs::canonicalize(parent).ok()?.join(path.file_name()?))
+    None
 }
 
 // this checks if both paths lead to the same file, however they are spelt
-- 
2.43.0


From 6ab5aaac0bc84314fb30176e28ba958bcf85a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 28/28] fix: pack with --erase erased its own output if that
 was a hard link to a packed file

---
 crates/volaris-cli/src/subcommands/pack.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/volaris-cli/src/subcommands/pack.rs b/crates/volaris-cli/src/subcommands/pack.rs
index af677b7..4de8ce5 100644
--- a/crates/volaris-cli/src/subcommands/pack.rs
+++ b/crates/volaris-cli/src/subcommands/pack.rs
@@ -115,13 +115,20 @@ pub fn execute(req: &Request) -> Result<()> {
                 vec![Ok(file)]
             }
         })
-        // the output may be inside of an input directory, but isn't part of it
-        .filter(|file| match file {
-            Ok(file) => !target_files.iter().any(|t| is_same_file(t, file.path())),
-            Err(_) => true,
-        })
         .collect::<Result<Vec<_>, _>>()?;
 
+    // the output may be inside of an input directory, but isn't part of it
+    let (own_files, compress_files): (Vec<_>, Vec<_>) = compress_files
+        .into_iter()
+        .partition(|file| target_files.iter().any(|t| is_same_file(t, file.path())));
+
+    // hard links aren't noticed earlier
+    if req.pack_params.erase_source == EraseSourceDir::Erase && !own_files.is_empty() {
+        return Err(anyhow::anyhow!(
+            "Output files cannot be inside of a directory that gets erased."
+        ));
+    }
+
     if req.pack_params.print_mode == PrintMode::Verbose {
         for file in &compress_files {
             info!("Packing {}", file.path().display());
-- 
2.43.0

