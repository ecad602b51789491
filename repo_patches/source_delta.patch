From d0331bcf1d19fc504c83151945e8001ceffcf708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 01/14] fix: write the right footer when progress is printed

Progress::done() asks for the total hash before the inner writer does.
Getting it reset the digest, so the footer was a hash of an empty string.
---
 src/v1/threaded_writer.rs | 3 ++-
 src/v1/writer.rs          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index 61b479e..f4b8f7e 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -157,7 +157,8 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     }
     fn get_hash(&mut self) -> Result<Self::TotalHash, Error> {
         self.wait_queue()?;
-        Ok(self.file.digest.total_hash())
+        // hash a copy, so the footer is the same if we are called again
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index 484a78d..afe5c7a 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -77,7 +77,8 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
         Ok(())
     }
     fn get_hash(&mut self) -> Result<H::Output, Error> {
-        Ok(self.file.digest.total_hash())
+        // hash a copy, so the footer is the same if we are called again
+        Ok(self.file.digest.clone().total_hash())
     }
     fn done(mut self) -> Result<(), Error>
     {
-- 
2.43.0


From 652e0f68f4a291b60a93bcb70593c35aff2de8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 02/14] fix: end the footer of emitted blake3 index with a
 newline

Also don't lose a part of the footer on a short write.
---
 src/v1/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1/emitter.rs b/src/v1/emitter.rs
index a111027..cd4386c 100644
--- a/src/v1/emitter.rs
+++ b/src/v1/emitter.rs
@@ -157,7 +157,7 @@ impl HashTrait for blake3::Hasher {
         self.update(data);
     }
     fn write_hash(&mut self, out: &mut dyn Write) -> io::Result<()> {
-        out.write(self.finalize().to_hex().as_str().as_bytes()).map(|_| ())
+        writeln!(out, "{}", self.finalize().to_hex().as_str())
     }
 }
 
-- 
2.43.0


From 83c952ecd3f124dbb217e08385b8c45141c8ea7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 03/14] fix: don't add a hash of an empty block in
 Hashes::hash_file

The number of hashes is ceil(size / block_size).
---
 src/v1/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index bd330cb..424a15f 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -435,6 +435,9 @@ impl Hashes {
         let mut size = 0;
         loop {
             let (bs, hash) = h.hash_and_size(&mut f, block_size)?;
+            if bs == 0 {
+                break;
+            }
             buf.extend(hash.result());
             size += bs;
             if bs < block_size {
-- 
2.43.0


From 46d66563790ad27693eb7e49059937bacafea905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 04/14] fix: report failure to write the footer as a write
 error

---
 src/v1/threaded_writer.rs | 2 +-
 src/v1/writer.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index f4b8f7e..d9ccd79 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -163,7 +163,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
diff --git a/src/v1/writer.rs b/src/v1/writer.rs
index afe5c7a..26f58a2 100644
--- a/src/v1/writer.rs
+++ b/src/v1/writer.rs
@@ -83,7 +83,7 @@ impl<F: io::Write, H: Hash> Writer for SyncWriter<F, H> {
     fn done(mut self) -> Result<(), Error>
     {
         let hash = self.get_hash()?;
-        write!(&mut self.file.file, "{:x}\n", hash).map_err(EFile)
+        write!(&mut self.file.file, "{:x}\n", hash).map_err(EWrite)
     }
 }
 
-- 
2.43.0


From 9c36b81fdb02a3479dcc5839ad822bd924eae185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:00 +0000
Subject: [PATCH 05/14] fix: don't panic or abort on huge file sizes and zero
 block size

A row of few bytes could overflow, divide by zero or allocate
terabytes of memory while parsing.
---
 src/v1/parser.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 424a15f..999f042 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -2,7 +2,7 @@ use std;
 use std::fmt;
 use std::borrow::Cow;
 use std::cmp::Ordering;
-use std::convert::From;
+use std::convert::{From, TryFrom};
 use std::ffi::{OsStr, OsString};
 use std::os::unix::ffi::{OsStrExt, OsStringExt};
 use std::io::{self, BufRead};
@@ -295,8 +295,9 @@ impl Header {
                 },
                 Some(_) => {
                     match block_size_kv.next() {
-                        Some(v) => u64::from_str_radix(v, 10)
-                            .map_err(|_| ParseRowError::InvalidBlockSize(
+                        Some(v) => u64::from_str_radix(v, 10).ok()
+                            .filter(|&size| size > 0)
+                            .ok_or_else(|| ParseRowError::InvalidBlockSize(
                                 v.to_string()))?,
                         None => return Err(ParseRowError::MissingBlockSize),
                     }
@@ -524,7 +525,10 @@ impl Entry {
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
-                let hashes_num = ((file_size + block_size - 1) / block_size) as usize;
+                let hashes_num = usize::try_from(file_size / block_size
+                    + (file_size % block_size > 0) as u64)
+                    .map_err(|_| ParseRowError::InvalidLine(
+                        format!("File is too large: {}", file_size)))?;
                 let (hashes_data, row) = parse_hashes(row, hash_type, hashes_num)?;
                 let hashes = Hashes::new(hashes_data, hash_type, block_size);
                 (Entry::File {
@@ -823,7 +827,9 @@ fn parse_hashes<'a>(data: &'a [u8], hash_type: HashType, hashes_num: usize)
     let hash_len = digest_len * 2;
 
     let mut i = 0;
-    let mut buf = Vec::with_capacity(hashes_num * digest_len);
+    // hashes_num comes from a file, so only trust it if there is enough data
+    let max_hashes = data.len() / hash_len;
+    let mut buf = Vec::with_capacity(hashes_num.min(max_hashes) * digest_len);
     loop {
         if i == hashes_num {
             break;
-- 
2.43.0


From cf79463a9c2aff88cba7d3c0e8a70ce7c49e68be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:28 +0000
Subject: [PATCH 06/14] fix: refuse entries outside of a directory and names
 with slashes

Such entries made advance() and merge panic in comparison of entry kinds,
and could place a file outside of the directory it is listed in.
---
 src/v1/parser.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 999f042..22a15f7 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -520,8 +520,16 @@ impl Entry {
             (Entry::Dir(path), row)
         } else if row.starts_with(b"  ") {
             let row = &row[2..];
-            let (path, row) = parse_path(row)?;
-            let path = current_dir.join(&path);
+            let (name, row) = parse_path(row)?;
+            if current_dir.as_os_str().is_empty() {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Entry before any directory")));
+            }
+            if !is_file_name(name.as_os_str().as_bytes()) {
+                return Err(ParseRowError::InvalidLine(
+                    format!("Invalid file name: {:?}", name)));
+            }
+            let path = current_dir.join(&name);
             let (file_type, row) = parse_os_str(row)?;
             if file_type == "f" || file_type == "x" {
                 let (file_size, row) = parse_u64(row)?;
@@ -859,6 +867,10 @@ fn parse_hashes<'a>(data: &'a [u8], hash_type: HashType, hashes_num: usize)
     Ok((buf, data))
 }
 
+fn is_file_name(name: &[u8]) -> bool {
+    !name.is_empty() && name != b"." && name != b".." && !name.contains(&b'/')
+}
+
 fn unescape_hex(s: &OsStr) -> Cow<'_, OsStr> {
     let (mut i, has_escapes) = {
         let bytes = s.as_bytes();
-- 
2.43.0


From 5b5eb1758abf18b11ba9696a3e1e04442b2a21a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 07/14] fix: report each malformed row once, with its number,
 and stop at the end

Reading a truncated index returned errors forever, advance() returned the
same error again and again, parsed a row cut in the middle on the second
try, and counted the row it stopped at twice.
---
 src/v1/parser.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 22a15f7..e8b2493 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -672,10 +672,14 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
         if self.exhausted {
             return Ok(None);
         }
-        self.current_row_num += 1;
         if self.current_row.is_empty() {
-            read_line(self.reader.by_ref(), &mut self.current_row)
-                .context(self.current_row_num)?;
+            self.current_row_num += 1;
+            if let Err(e) = read_line(self.reader.by_ref(),
+                                      &mut self.current_row)
+            {
+                self.exhausted = true;
+                return Err(ErrorEnum::Parse(e, self.current_row_num));
+            }
         }
         let row = &self.current_row[..];
         let entry = Entry::parse(
@@ -683,6 +687,8 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
             .context(self.current_row_num)?;
         match entry {
             None => {
+                // nothing is valid after the footer
+                self.exhausted = true;
                 let _footer = Footer::parse(row, self.hash_type)
                     .context(self.current_row_num)?;
                 let mut test_buf = [0; 1];
@@ -692,7 +698,6 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                             format!("Found extra lines after the footer")),
                         self.current_row_num));
                 }
-                self.exhausted = true;
                 Ok(None)
             },
             Some(entry) => {
@@ -732,7 +737,10 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                     }
                 },
                 Ok(None) => return None,
-                Err(e) => return Some(Err(e)),
+                Err(e) => {
+                    self.current_row.clear();
+                    return Some(Err(e));
+                }
             }
         }
     }
-- 
2.43.0


From 1f142c6a53db6f528caa05bf325b6e12dc3fee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 08/14] fix: retry interrupted reads when checking for the end
 of a file

---
 src/v1/parser.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index e8b2493..0578105 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -467,11 +467,7 @@ impl Hashes {
                 return Ok(false);
             }
         }
-        let mut test_buf = [0; 1];
-        if f.read(&mut test_buf)? != 0 {
-            return Ok(false);
-        }
-        Ok(true)
+        at_eof(&mut f)
     }
 }
 
@@ -691,8 +687,7 @@ impl<'a, R: BufRead> EntryIterator<'a, R> {
                 self.exhausted = true;
                 let _footer = Footer::parse(row, self.hash_type)
                     .context(self.current_row_num)?;
-                let mut test_buf = [0; 1];
-                if self.reader.read(&mut test_buf)? != 0 {
+                if !at_eof(self.reader.by_ref())? {
                     return Err(ErrorEnum::Parse(
                         ParseRowError::InvalidLine(
                             format!("Found extra lines after the footer")),
@@ -772,6 +767,17 @@ fn read_line<R: BufRead>(reader: &mut R, mut buf: &mut Vec<u8>)
     Ok(())
 }
 
+fn at_eof<R: io::Read>(reader: &mut R) -> io::Result<bool> {
+    let mut test_buf = [0; 1];
+    loop {
+        match reader.read(&mut test_buf) {
+            Ok(n) => return Ok(n == 0),
+            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+}
+
 fn parse_path<'a>(data: &'a [u8])
     -> Result<(Cow<'_, Path>, &'a [u8]), ParseRowError>
 {
-- 
2.43.0


From 1662fc69c4d92ce147eaee1ee9bf19ddc230bc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:03 +0000
Subject: [PATCH 09/14] fix: don't rely on a single read filling the buffer in
 get_hash

---
 src/read.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/read.rs b/src/read.rs
index c993da0..43490d9 100644
--- a/src/read.rs
+++ b/src/read.rs
@@ -12,6 +12,20 @@ fn hex_to_digit(v: u8) -> Option<u8> {
     }
 }
 
+/// Read until the buffer is full or the end of file is reached
+fn read_full<F: Read>(f: &mut F, buf: &mut [u8]) -> Result<usize, io::Error> {
+    let mut filled = 0;
+    while filled < buf.len() {
+        match f.read(&mut buf[filled..]) {
+            Ok(0) => break,
+            Ok(n) => filled += n,
+            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e),
+        }
+    }
+    Ok(filled)
+}
+
 /// Get a hash from an index file
 ///
 /// That hash is a last line of the index file. It may serve either as a
@@ -19,7 +33,7 @@ fn hex_to_digit(v: u8) -> Option<u8> {
 pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     let einval = io::ErrorKind::InvalidData;
     let mut signature = [0u8; 32];
-    f.read(&mut signature)?;
+    read_full(f, &mut signature)?;
     if &signature[..16] != b"DIRSIGNATURE.v1 " {
         return Err(einval.into());
     }
@@ -32,7 +46,7 @@ pub fn get_hash<F: Read+Seek>(f: &mut F) -> Result<Vec<u8>, io::Error> {
     f.seek(SeekFrom::End(- (nbytes as i64)))?;
     let mut buf = [0u8; 100];
     assert!(buf.len() >= nbytes);
-    if f.read(&mut buf)? != nbytes {
+    if read_full(f, &mut buf)? != nbytes {
         return Err(io::ErrorKind::UnexpectedEof.into());
     }
     if buf[0] != b'\n' || buf[nbytes-1] != b'\n' {
-- 
2.43.0


From 7c5f11b4528120fa5337af7bac2feb839bead7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:04 +0000
Subject: [PATCH 10/14] fix: fail if the end of the index file can't be written

The index tool ignored errors on flushing of the buffered output file.
---
 src/bin/index.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/index.rs b/src/bin/index.rs
index da0f502..e75ff01 100644
--- a/src/bin/index.rs
+++ b/src/bin/index.rs
@@ -107,7 +107,9 @@ pub fn run() -> i32 {
                 return 1;
             }
         };
-        v1::scan(&cfg, &mut io::BufWriter::new(file))
+        let mut file = io::BufWriter::new(file);
+        v1::scan(&cfg, &mut file)
+            .and_then(|()| file.flush().map_err(v1::Error::WriteError))
     } else {
         v1::scan(&cfg, &mut io::stdout())
     };
-- 
2.43.0


From 5119627e460a20c99f7b069f3cd3c5ec20160c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:04 +0000
Subject: [PATCH 11/14] fix: parse PREFIX:DIR arguments of the index tool

---
 src/bin/index.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/index.rs b/src/bin/index.rs
index e75ff01..7b19479 100644
--- a/src/bin/index.rs
+++ b/src/bin/index.rs
@@ -87,7 +87,7 @@ pub fn run() -> i32 {
                not implemented properly yet");
     }
     for dir in dirs.iter() {
-        let mut seq = dir.splitn(1, ':');
+        let mut seq = dir.splitn(2, ':');
         let (prefix, path) = match (seq.next().unwrap(), seq.next()) {
             (prefix, Some(dir)) => (Path::new(prefix), Path::new(dir)),
             (dir, None) => (Path::new("/"), Path::new(dir)),
-- 
2.43.0


From 747bb074ee742d87b495770359a2e8a11310745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:05 +0000
Subject: [PATCH 12/14] fix: respect the queue_size setting of ScannerConfig

---
 src/v1/mod.rs             | 1 +
 src/v1/threaded_writer.rs | 7 ++++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/v1/mod.rs b/src/v1/mod.rs
index 6392f8a..5bab355 100644
--- a/src/v1/mod.rs
+++ b/src/v1/mod.rs
@@ -67,6 +67,7 @@ fn add_threads<O, H: Hash>(config: &ScannerConfig, hash: H, out: &mut O)
     if config.threads > 1 {
         add_progress(config, threaded_writer::ThreadedWriter::new(
             config.threads,
+            config.queue_size.unwrap_or(config.threads*16),
             out, hash, config.block_size)?)
     } else {
         add_progress(config, SyncWriter::new(out, hash, config.block_size)?)
diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index d9ccd79..e78802c 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -38,7 +38,8 @@ pub struct ThreadedWriter<F, H: Hash> {
 }
 
 impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
-    pub fn new(threads: usize, mut f: F, hash: H, block_size: u64)
+    pub fn new(threads: usize, queue_limit: usize, mut f: F, hash: H,
+        block_size: u64)
         -> Result<ThreadedWriter<F, H>, Error>
     {
         writeln!(&mut f,
@@ -52,8 +53,8 @@ impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
             file: HashWriter { file: f, digest: hash.clone() },
             block_size: block_size,
             hash: hash,
-            queue_limit: threads*16,
-            queue: VecDeque::with_capacity(threads*16),
+            queue_limit: queue_limit,
+            queue: VecDeque::new(),
             pool: CpuPool::new(threads),
         })
     }
-- 
2.43.0


From 1c64b0470bf2f5e2bf5c10882bcd4a16a809cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 13/14] fix: refuse symlinks without a destination

---
 src/v1/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v1/parser.rs b/src/v1/parser.rs
index 0578105..d6797a4 100644
--- a/src/v1/parser.rs
+++ b/src/v1/parser.rs
@@ -543,6 +543,10 @@ impl Entry {
                  row)
             } else if file_type == "s" {
                 let (dest, row) = parse_path_buf(row)?;
+                if dest.as_os_str().is_empty() {
+                    return Err(ParseRowError::InvalidLine(
+                        format!("Missing symlink destination")));
+                }
                 (Entry::Link(path, dest), row)
             } else {
                 return Err(ParseRowError::InvalidFileType(
-- 
2.43.0


From 29702c92d33917748f0f93ac4284e2cc8cb6759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 14/14] fix: don't allocate by the size a file claims before it
 is read

A worker reserved memory for the digests of the whole file up front. The
size of a (sparse) file may be anything up to 2^63-1, so that the
multiplication overflowed or the allocation aborted the process.
---
 src/v1/threaded_writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v1/threaded_writer.rs b/src/v1/threaded_writer.rs
index e78802c..8421b13 100644
--- a/src/v1/threaded_writer.rs
+++ b/src/v1/threaded_writer.rs
@@ -134,7 +134,7 @@ impl<F: io::Write, H: Hash> Writer for ThreadedWriter<F, H> {
             let mut f = dir.open_file(&entry).map_err(EFile)?;
             let meta = f.metadata().map_err(EFile)?;
             let mut n = meta.len();
-            let mut buf = String::with_capacity((33*n/block_size) as usize);
+            let mut buf = String::new();
             while n > 0 {
                 let h = hash.hash_file(&mut f, block_size).map_err(EFile)?;
                 write!(&mut buf, " {:x}", h).unwrap();
-- 
2.43.0

