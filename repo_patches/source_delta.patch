From 35e26187b5efb229c809a3a487b19c33aab6ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 01/25] fix: refuse pkt-line headers containing ':' or 'g'

Neither is a hexadecimal digit, and with 'g' the sum of the digits could
overflow.
---
 scutiger-core/src/pktline.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 21ef9b9..554016e 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -109,8 +109,8 @@ impl<R: io::Read> Reader<R> {
             .enumerate()
             .map(|(i, x)| {
                 let v = match *x {
-                    b'0'...b':' => x - b'0',
-                    b'a'...b'g' => x - b'a' + 10,
+                    b'0'...b'9' => x - b'0',
+                    b'a'...b'f' => x - b'a' + 10,
                     _ => return Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
                 };
                 Ok((v as u16) << ((3 - i) * 4))
-- 
2.43.0


From 3f42c35626b38e5304f559fc67f7d78b8017300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:36 +0000
Subject: [PATCH 02/25] fix: enforce the maximum packet length in read_packet
 as well

The stream interface already refused these lengths.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 554016e..49300da 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -95,6 +95,9 @@ impl<R: io::Read> Reader<R> {
             0 => Ok(Packet::new(PacketType::Flush, b"")),
             1 => Ok(Packet::new(PacketType::Delim, b"")),
             2 | 3 => Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
+            n if n > Self::MAX_PACKET_LEN + 4 => {
+                Err(Error::new_simple(ErrorKind::BadPktlineHeader))
+            }
             _ => {
                 let mut v = vec![0u8; size - 4];
                 self.rdr.read_exact(&mut v)?;
-- 
2.43.0


From 08f27a891dc85db1eaadec4de7cb8affb594782f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:37 +0000
Subject: [PATCH 03/25] fix: don't drop buffered packet data on an empty read

A read into an empty buffer while data was buffered read another packet
over that data.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 49300da..7bb4bdf 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -129,6 +129,9 @@ impl<R: io::Read> Reader<R> {
 
 impl<R: io::Read> io::Read for Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let n = cmp::min(self.len - self.off, buf.len());
         if n > 0 {
             buf[0..n].copy_from_slice(&self.buf[self.off..self.off + n]);
-- 
2.43.0


From 20de0ec2a81ccead268dc3e59ed6e164bba065b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 04/25] fix: refuse to write a packet that is too long

Its length did not fit the four digits of the header.
---
 scutiger-core/src/pktline.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 7bb4bdf..0a98e54 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -180,6 +180,9 @@ impl<W: io::Write> Writer<W> {
     }
 
     fn write_one(writer: &mut W, buf: &[u8]) -> Result<usize, Error> {
+        if buf.len() > Self::MAX_PACKET_LEN {
+            return Err(Error::new_simple(ErrorKind::InvalidPacket));
+        }
         let header = format!("{:04x}", buf.len() + 4);
         writer.write_all(header.as_bytes())?;
         writer.write_all(buf)?;
-- 
2.43.0


From 7d5cf87cbd6a7176611217d8dad6c5df62fc81d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 05/25] fix: look up only valid lock IDs

An ID such as '../config' or an absolute path made unlock read files outside
of the lock directory, and temporary files were listed as locks.
---
 scutiger-lfs/src/backend/local.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 9ec1dbb..fd63c83 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -363,6 +363,11 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
     }
 
     fn from_id(&self, id: &str) -> Result<Option<Box<dyn Lock>>, Error> {
+        // Lock IDs have the same form as SHA-256 LFS object IDs.  Anything else might name a
+        // temporary file or a file outside of the lock directory.
+        if !Oid::valid(id.as_bytes()) {
+            return Ok(None);
+        }
         let mut filename = self.lock_path.clone();
         filename.push(id);
         let mut f = match fs::OpenOptions::new().read(true).open(&filename) {
-- 
2.43.0


From 56a77357c7833dfb16ceaa4d412fe4ffab529a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:22 +0000
Subject: [PATCH 06/25] fix: use a unique temporary file for each attempt to
 lock

When two processes tried to lock the same path, one of them could find the
other's temporary file but no lock and then panic, and it removed that
temporary file.  A temporary file left over by a crash made it impossible to
lock the path at all.
---
 scutiger-lfs/src/backend/local.rs | 45 +++++++++++++------------------
 scutiger-lfs/src/processor.rs     | 11 +++-----
 2 files changed, 22 insertions(+), 34 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index fd63c83..ad866f4 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -149,40 +149,39 @@ impl<'a> Backend for LocalBackend<'a> {
 
 struct LockFile {
     path: PathBuf,
-    temp: PathBuf,
+    temp: NamedTempFile,
 }
 
 impl LockFile {
     fn new(path: &Path) -> Result<LockFile, Error> {
-        let mut temp = path.to_owned();
-        temp.set_extension("lock");
+        // The name of the temporary file is unique so that a process which is creating the same
+        // lock or which died doing so doesn't affect us.  Unlike with the default for temporary
+        // files, the umask applies as usual because other users must be able to read the lock.
+        let dir = path.parent().unwrap_or_else(|| Path::new("."));
+        let temp = Builder::new()
+            .prefix(path.file_name().unwrap_or_default())
+            .suffix(".lock")
+            .make_in(dir, |temp| {
+                fs::OpenOptions::new()
+                    .write(true)
+                    .create_new(true)
+                    .open(temp)
+            })?;
         Ok(LockFile {
             path: path.to_owned(),
             temp,
         })
     }
 
-    fn write(&self, data: &[u8]) -> Result<(), Error> {
-        let mut f = match fs::OpenOptions::new()
-            .write(true)
-            .create_new(true)
-            .open(&self.temp)
-        {
-            Ok(f) => f,
-            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
-                return Err(Error::new_simple(ErrorKind::Conflict))
-            }
-            Err(e) => return Err(e.into()),
-        };
+    fn write(&mut self, data: &[u8]) -> Result<(), Error> {
+        let f = self.temp.as_file_mut();
         f.write_all(data)?;
         f.flush()?;
-        drop(f);
         Ok(())
     }
 
-    #[allow(unused_must_use)]
     fn persist(self) -> Result<(), Error> {
-        match fs::hard_link(&self.temp, &self.path) {
+        match fs::hard_link(self.temp.path(), &self.path) {
             Ok(()) => Ok(()),
             Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
                 Err(Error::new_simple(ErrorKind::Conflict))
@@ -192,14 +191,6 @@ impl LockFile {
     }
 }
 
-impl Drop for LockFile {
-    #[allow(unused_must_use)]
-    fn drop(&mut self) {
-        // We don't care if the file removal failed.  We did the best we could.
-        fs::remove_file(&self.temp);
-    }
-}
-
 struct LocalBackendLock {
     root: PathBuf,
     path_name: Bytes,
@@ -333,7 +324,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
-        let lock = LockFile::new(&filename)?;
+        let mut lock = LockFile::new(&filename)?;
         lock.write(&b)?;
         lock.persist()?;
         let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 220acaf..499f97f 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -538,16 +538,13 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             }
         };
         let lock_backend = self.backend.lock_backend();
-        let mut retried = false;
-        while !retried {
+        for _ in 0..2 {
             let (ok, lock) = match lock_backend.create(path) {
                 Ok(l) => (true, l),
                 Err(e) if e.kind() == ErrorKind::Conflict => match lock_backend.from_path(path) {
                     Ok(Some(l)) => (false, l),
-                    Ok(None) => {
-                        retried = true;
-                        continue;
-                    }
+                    // Somebody removed the lock in the mean time, so try again.
+                    Ok(None) => continue,
                     Err(e) => return Err(e),
                 },
                 Err(e) => return Err(e),
@@ -562,7 +559,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 ))
             };
         }
-        unreachable!()
+        Err(Error::new_simple(ErrorKind::Conflict))
     }
 
     fn list_locks_for_path(
-- 
2.43.0


From 2174b776f565ead20e203df734d1ee1704ec5e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 07/25] fix: report the recorded time when creating a lock

The clock was read a second time for the reply, so it could differ from the
time recorded.
---
 scutiger-lfs/src/backend/local.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index ad866f4..a452b18 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -320,7 +320,8 @@ impl<'a> LocalLockBackend<'a> {
 impl<'a> LockBackend for LocalLockBackend<'a> {
     fn create(&self, path: &Bytes) -> Result<Box<dyn Lock>, Error> {
         let id = LocalBackendLock::hash_for(path);
-        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, self.timestamp()).into();
+        let time = self.timestamp();
+        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, time).into();
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
@@ -331,7 +332,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         Ok(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: path.clone(),
-            time: self.timestamp(),
+            time,
             ownername: user,
         }))
     }
-- 
2.43.0


From 30cef4f2d706bd9d421326a82ea141e4bc9019c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:25 +0000
Subject: [PATCH 08/25] fix: treat a lock with an unrepresentable time as
 corrupt

Formatting its time panicked.
---
 scutiger-lfs/src/backend/local.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index a452b18..cdd0a05 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -216,6 +216,8 @@ impl LocalBackendLock {
         }
         let s: String = String::from_utf8(v[1].clone()).ok()?;
         let time = s.parse().ok()?;
+        // Reject times which we could not format.
+        Utc.timestamp_opt(time, 0).single()?;
         Some((time, v[2].clone().into()))
     }
 
-- 
2.43.0


From 020c2d4035d120bdaabd680cb0b0d3d678e56bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 09/25] fix: set the permissions of an object before moving it
 into place

A crash in between left the object unreadable for other users for good.
---
 scutiger-lfs/src/backend/local.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index cdd0a05..72c70db 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -94,14 +94,11 @@ impl<'a> Backend for LocalBackend<'a> {
         if let Some(parent) = dest_path.parent() {
             fs::create_dir_all(parent)?;
         }
-        state
-            .tempfile
-            .take()
-            .unwrap()
-            .into_temp_path()
+        let temp_path = state.tempfile.take().unwrap().into_temp_path();
+        self.fix_permissions(&temp_path)?;
+        temp_path
             .persist(&dest_path)
             .map_err(|e| Error::new(ErrorKind::IOError, Some(e)))?;
-        self.fix_permissions(&dest_path)?;
         Ok(())
     }
 
-- 
2.43.0


From 97db4972045b0c723c19ecbae03d54931040345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 10/25] fix: don't carry out a request which was cut off

The end of the input was treated like the flush packet which ends a request,
so that a truncated request was carried out with the arguments received so
far.  Also, a request lacking a delimiter packet swallowed the next one.
---
 scutiger-lfs/src/processor.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 499f97f..21a1d2a 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -108,14 +108,19 @@ impl<R: io::Read, W: io::Write> PktLineHandler<R, W> {
     }
 
     pub fn read_to_type(&mut self, typ: pktline::PacketType) -> Result<Vec<Bytes>, Error> {
-        self.rdr
-            .iter()
-            .take_while(|pkt| match pkt {
-                Ok(pkt) if pkt.packet_type() == typ => false,
-                _ => true,
-            })
-            .map(|pkt| pkt.map(|p| p.data().unwrap_or(b"").into()))
-            .collect()
+        let mut data = vec![];
+        loop {
+            // If the input ends here, this is an error: the request is not complete.
+            let pkt = self.rdr.read_packet()?;
+            match pkt.packet_type() {
+                t if t == typ => return Ok(data),
+                // A flush packet always ends the request.
+                pktline::PacketType::Flush => {
+                    return Err(Error::new_simple(ErrorKind::UnexpectedPacket))
+                }
+                _ => data.push(pkt.data().unwrap_or(b"").into()),
+            }
+        }
     }
 
     pub fn read_to_delim(&mut self) -> Result<Vec<Bytes>, Error> {
-- 
2.43.0


From f56990a1bd4174721a54f30f5bbe8321f4ee7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 11/25] fix: skip the remainder of a request which failed

When a request was refused before all of it had been read, the remaining
packets, including the contents of an object being uploaded, were taken as
further requests.
---
 scutiger-core/src/pktline.rs  | 14 ++++++++++++++
 scutiger-lfs/src/processor.rs | 21 +++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 0a98e54..36e1766 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -55,6 +55,7 @@ pub struct Reader<R: io::Read> {
     buf: [u8; 65536],
     off: usize,
     len: usize,
+    last: Option<PacketType>,
 }
 
 impl<R: io::Read> Reader<R> {
@@ -66,6 +67,7 @@ impl<R: io::Read> Reader<R> {
             buf: [0u8; 65536],
             off: 0,
             len: 0,
+            last: None,
         }
     }
 
@@ -87,7 +89,18 @@ impl<R: io::Read> Reader<R> {
         }
     }
 
+    /// Returns the type of the last packet read, or `None` if reading it failed.
+    pub fn last_packet_type(&self) -> Option<PacketType> {
+        self.last
+    }
+
     pub fn read_packet(&mut self) -> Result<Packet, Error> {
+        let pkt = self.read_packet_internal();
+        self.last = pkt.as_ref().ok().map(|p| p.packet_type());
+        pkt
+    }
+
+    fn read_packet_internal(&mut self) -> Result<Packet, Error> {
         let mut hdr = [0u8; 4];
         self.rdr.read_exact(&mut hdr)?;
         let size = Self::parse_header(hdr)? as usize;
@@ -149,6 +162,7 @@ impl<R: io::Read> io::Read for Reader<R> {
             } else {
                 (Self::read_one(&mut self.rdr, &mut self.buf), true)
             };
+            self.last = r.as_ref().ok().copied();
             let n = match (r, copy) {
                 (Ok(PacketType::Delim), _) => return Ok(0),
                 (Ok(PacketType::Flush), _) => return Ok(0),
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 21a1d2a..be2e689 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -131,6 +131,24 @@ impl<R: io::Read, W: io::Write> PktLineHandler<R, W> {
         self.read_to_type(pktline::PacketType::Flush)
     }
 
+    /// Skips whatever remains of the current request, up to and including its flush packet.
+    ///
+    /// If reading the request failed, then we don't know where the next one starts.
+    pub fn finish_request(&mut self) -> Result<(), Error> {
+        loop {
+            match self.rdr.last_packet_type() {
+                Some(pktline::PacketType::Flush) => return Ok(()),
+                Some(_) => self.rdr.read_packet()?,
+                None => {
+                    return Err(Error::from_message(
+                        ErrorKind::BadPktlineHeader,
+                        "unable to find the end of the request",
+                    ))
+                }
+            };
+        }
+    }
+
     pub fn send(&mut self, msg: &[u8]) -> Result<(), Error> {
         self.wrtr.write_all(msg)?;
         Ok(())
@@ -668,6 +686,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             let msgs: Vec<_> = match pkt.data() {
                 Some(b"") => {
                     self.handler.send_error(400, "no command provided")?;
+                    self.handler.finish_request()?;
                     continue;
                 }
                 Some(bs) => {
@@ -680,6 +699,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 }
                 None => {
                     self.handler.send_error(400, "unknown command")?;
+                    self.handler.finish_request()?;
                     continue;
                 }
             };
@@ -726,6 +746,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     )),
                 },
             }?;
+            self.handler.finish_request()?;
         }
     }
 }
-- 
2.43.0


From f24a21df9691e12b516c64ae078439504c1522f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:28 +0000
Subject: [PATCH 12/25] fix: honor an octal mode in core.sharedRepository

Every number other than 0 is also true as a boolean value, so a mode such as
0600 or 0664 was taken to mean the same as 'group'.
---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 4465818..4a5c2b5 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -99,12 +99,15 @@ impl<'p> Program<'p> {
         let sval = config.get_string("core.sharedrepository");
         let tval = sval.as_ref().map(|s| s.as_str());
         let perms = match (config.get_bool("core.sharedrepository"), tval) {
+            (_, Ok("2")) => Some(0o664),
+            // Any other number, except for 0 and 1, is a mode.  This must come before looking at
+            // the boolean value because every number other than 0 is true.
+            (_, Ok(x)) if u16::from_str_radix(x, 8).map_or(false, |x| x > 1) => {
+                Some(u16::from_str_radix(x, 8).unwrap())
+            }
             (Ok(true), _) | (_, Ok("group")) => Some(0o660),
             (Ok(false), _) | (_, Ok("umask")) => None,
             (_, Ok("all")) | (_, Ok("world")) | (_, Ok("everybody")) => Some(0o664),
-            (_, Ok(x)) if u16::from_str_radix(x, 8).is_ok() => {
-                Some(u16::from_str_radix(x, 8).unwrap())
-            }
             (_, Err(e)) if e.code() == git2::ErrorCode::NotFound => None,
             (_, Err(e)) => return Err(git2::Error::new(e.code(), e.class(), e.message()).into()),
             _ => None,
-- 
2.43.0


From 7005f8b02fa808d3bfc6bdb240be8153e7cb5822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:21 +0000
Subject: [PATCH 13/25] fix: match only against the summary with --summary

The pattern was prefixed with an expression matching the start of the summary,
which applied to the first alternative only and didn't prevent the pattern
from matching text after the summary, or make '$' match at its end.
---
 scutiger-bin/src/bin/git-at.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 4d3258b..ecfbad9 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -76,7 +76,12 @@ impl<'a> Program<'a> {
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
             }
-            if regex.is_match(message)? {
+            let text = if self.summary {
+                message.split(|&b| b == b'\n').next().unwrap_or(message)
+            } else {
+                message
+            };
+            if regex.is_match(text)? {
                 return Ok(commit.id());
             }
         }
@@ -118,9 +123,6 @@ impl<'a> Program<'a> {
     }
 
     fn pattern(&self, pattern: &str) -> Result<Regex, Error> {
-        if self.summary {
-            return Ok(Regex::new(&format!("\\A[^\n]*{}", pattern))?);
-        }
         Ok(Regex::new(pattern)?)
     }
 }
-- 
2.43.0


From 2ae098584f0f684b07ec362d663da5cdc86a6b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 14/25] fix: list no more locks than the limit

The lock at the cursor belongs to the next page, but it was listed on both
pages.
---
 scutiger-lfs/src/processor.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index be2e689..dfaa9da 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -634,8 +634,12 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .take(limit + 1)
             .collect();
         let items = r?;
-        let lock_specs: Result<Vec<_>, _> =
-            items.iter().map(|l| l.as_lock_spec(use_owner_id)).collect();
+        // The item beyond the limit, if any, is the first one of the next page.
+        let lock_specs: Result<Vec<_>, _> = items
+            .iter()
+            .take(limit)
+            .map(|l| l.as_lock_spec(use_owner_id))
+            .collect();
         let lock_specs = lock_specs?.iter().flatten().cloned().collect();
         let next_cursor: Vec<Bytes> = if items.len() == limit + 1 {
             vec![format!("next-cursor={}\n", items[limit].id()).into()]
-- 
2.43.0


From 5f74e31a05a35459d65ccd673d27c8f835b86a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:29 +0000
Subject: [PATCH 15/25] fix: compare lock cursors the right way around

The comparison of a byte slice with a Bytes in bytes 0.4 is reversed, so
that listing the locks from a cursor started at the first lock that is not
beyond it and paging never came to an end.
---
 scutiger-lfs/src/processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index dfaa9da..a64b4a1 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -594,7 +594,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         match (self.backend.lock_backend().from_path(path), cursor) {
             (Err(e), _) => Err(e),
             (Ok(None), _) => self.error(404, "not found"),
-            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < id => self.error(404, "not found"),
+            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < &id[..] => self.error(404, "not found"),
             (Ok(Some(l)), _) => l.as_lock_spec(use_owner_id).map(Status::new_success),
         }
     }
@@ -628,7 +628,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .iter()
             .skip_while(|item| match (item, cursor) {
                 (Err(_), _) => false,
-                (Ok(l), Some(cursor)) => l.id().as_bytes() < cursor,
+                (Ok(l), Some(cursor)) => l.id().as_bytes() < &cursor[..],
                 (Ok(_), None) => false,
             })
             .take(limit + 1)
-- 
2.43.0


From 3e5ff4f81c1453439eacce4e80099f9f38cf4647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:25 +0000
Subject: [PATCH 16/25] fix: report a failure to look up an object in a batch

The object was reported as missing instead, so that a client would be told
to upload it or that it cannot be downloaded.
---
 scutiger-lfs/src/backend/local.rs |  2 +-
 scutiger-lfs/src/processor.rs     | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 72c70db..62069fb 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -53,7 +53,7 @@ impl<'a> Backend for LocalBackend<'a> {
     fn batch(&mut self, _mode: Mode, oids: &[(Oid, u64)]) -> Result<Vec<BatchItem>, Error> {
         oids.iter()
             .map(|(oid, batch_size)| {
-                let maybe_size = oid.size_at_path(self.lfs_path);
+                let maybe_size = oid.size_at_path(self.lfs_path)?;
                 Ok(BatchItem {
                     oid: oid.clone(),
                     size: maybe_size.unwrap_or(*batch_size),
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index a64b4a1..d671c20 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -254,8 +254,14 @@ impl Oid {
 
     /// Returns `Some(size)`, where `size` is the size of the file if the object with this ID
     /// exists a the given path, which should be a `.git/lfs` directory, or `None` otherwise.
-    pub fn size_at_path(&self, path: &Path) -> Option<u64> {
-        self.expected_path(path).metadata().ok().map(|x| x.len())
+    ///
+    /// If we cannot tell, returns an error.
+    pub fn size_at_path(&self, path: &Path) -> Result<Option<u64>, Error> {
+        match self.expected_path(path).metadata() {
+            Ok(x) => Ok(Some(x.len())),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(None),
+            Err(e) => Err(e.into()),
+        }
     }
 }
 
-- 
2.43.0


From 454cddf6d7c683eed7a634ab9a15ce045ac603a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 17/25] fix: git-recent-refs waits for its pager

The program exited as soon as it had written the listing, while the pager was
still showing it, so that the shell and the pager contended for the terminal.
As Git does, end only once the pager has.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 4 +++-
 scutiger-bin/src/bin/pager/mod.rs       | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 6db2085..4099e70 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -187,7 +187,9 @@ fn main() {
     let repo = repo();
     let prog = program(&repo, &matches);
     let mut pager = pager::Pager::new(&repo).expect("unable to spawn pager");
-    process::exit(prog.main(&mut pager.stdout(), &mut io::stderr()));
+    let status = prog.main(&mut pager.stdout(), &mut io::stderr());
+    pager.wait().expect("unable to wait for pager");
+    process::exit(status);
 }
 
 #[cfg(test)]
diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 7f8cfb3..3edb950 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -52,4 +52,12 @@ impl Pager {
             })
             .unwrap_or_else(|| Box::new(io::stdout()))
     }
+
+    /// Closes the pager's input, if there is a pager, and waits for it to finish.
+    pub fn wait(&mut self) -> io::Result<()> {
+        if let Some(mut process) = self.process.take() {
+            process.wait()?;
+        }
+        Ok(())
+    }
 }
-- 
2.43.0


From dd7099ba9a8b8480591a220bb62117cadaec9e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 18/25] fix: an empty pager means no pager

An empty GIT_PAGER, core.pager or PAGER was run as an empty shell command, which
reads nothing, so that the listing was lost.  Git pages through nothing then.
---
 scutiger-bin/src/bin/pager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 3edb950..055114a 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -36,7 +36,7 @@ impl Pager {
             .or(core_pager)
             .or_else(|| env::var_os("PAGER"))
             .unwrap_or_else(|| "less".into());
-        if pager == "cat" {
+        if pager == "cat" || pager.is_empty() {
             None
         } else {
             Some(pager)
-- 
2.43.0


From 51dbbcbe4b67579c9feb27f826c69433c09d610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 19/25] fix: a core.pager beginning with a tilde may be any
 command

The value was read as a path, which fails for one like ~user/bin/pager, so that
the setting was passed over.  It is a command for the shell: take it as it is.
---
 scutiger-bin/src/bin/pager/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 055114a..f5bc94d 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -3,6 +3,7 @@ use git2::Repository;
 use std::env;
 use std::ffi::OsString;
 use std::io;
+use std::os::unix::ffi::OsStringExt;
 use std::os::unix::io::AsRawFd;
 use std::process::{Child, Command, Stdio};
 
@@ -31,7 +32,11 @@ impl Pager {
         let core_pager: Option<OsString> = repo
             .config()
             .ok()
-            .and_then(|config| config.get_path("core.pager").ok().map(|val| val.into()));
+            .and_then(|mut config| config.snapshot().ok())
+            .and_then(|config| {
+                let val = config.get_bytes("core.pager").ok()?.to_vec();
+                Some(OsString::from_vec(val))
+            });
         let pager: OsString = env::var_os("GIT_PAGER")
             .or(core_pager)
             .or_else(|| env::var_os("PAGER"))
-- 
2.43.0


From 8d9e749c57f696284639ac56ff82efed589d5993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 20/25] fix: do not panic in git-at when the reader of its
 output is gone

The Rust runtime ignores SIGPIPE, so writing to a closed pipe failed with an
error, which was unwrapped.  Restore the default, as the other programs do.
---
 scutiger-bin/src/bin/git-at.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index ecfbad9..d8a21a3 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -180,8 +180,15 @@ fn repo() -> Repository {
     }
 }
 
-fn main() {
+fn setup() {
     libgit2::init();
+    unsafe {
+        libc::signal(libc::SIGPIPE, libc::SIG_DFL);
+    }
+}
+
+fn main() {
+    setup();
     let repo = repo();
     let app = parse_options();
     let matches = app.get_matches();
-- 
2.43.0


From 610f07df4ae17988789d553cc5eff6650d8407c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 21/25] fix: do not panic in git-at on arguments that are not
 UTF-8

Report a usage error instead.
---
 scutiger-bin/src/bin/git-at.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index d8a21a3..5eb975e 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -130,6 +130,7 @@ impl<'a> Program<'a> {
 fn parse_options<'a>() -> App<'a, 'a> {
     App::new("git-at")
         .setting(AppSettings::AllowMissingPositional)
+        .setting(AppSettings::StrictUtf8)
         .about("Find a commit based on commit message")
         .arg(
             Arg::with_name("summary")
-- 
2.43.0


From 17861fcf644fd1f8adcc7fd53931b666498d81d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:32 +0000
Subject: [PATCH 22/25] fix: do not panic in git-lfs-transfer on operations
 that are not UTF-8

Such an operation is as unknown as any other.
---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 4a5c2b5..9464574 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -173,7 +173,7 @@ fn parse_options<'a>() -> App<'a, 'a> {
 }
 
 fn program<'a>(r: &'a Repository, matches: &'a ArgMatches) -> Program<'a> {
-    Program::new(r, matches.value_of("operation").unwrap().into())
+    Program::new(r, matches.value_of_lossy("operation").unwrap().into())
 }
 
 fn repo<P: AsRef<Path>>(path: P) -> Repository {
-- 
2.43.0


From 4c2671e2b1da4dadfa019417aab46574a0ac7d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 23/25] fix: do not panic in git-recent-refs on an argument
 that is no option

There are no positional arguments, so none can be missing, and with this
setting the parser of the options subtracts one from their number.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 4099e70..3d1431e 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -16,7 +16,7 @@ mod pager;
 #[cfg(test)]
 pub mod fixtures;
 
-use clap::{App, AppSettings, Arg, ArgMatches};
+use clap::{App, Arg, ArgMatches};
 use git2::{Object, Reference, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
@@ -135,7 +135,6 @@ impl<'p> Program<'p> {
 
 fn parse_options<'a>() -> App<'a, 'a> {
     App::new("git-recent-refs")
-        .setting(AppSettings::AllowMissingPositional)
         .about("Find a commit based on commit message")
         .arg(
             Arg::with_name("sort")
-- 
2.43.0


From b1ffa31107ab0f4468740b1287a97ef83eca5758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 24/25] fix: report output which cannot be written, or git show
 which cannot be run, as a failure

---
 scutiger-bin/src/bin/git-at.rs          | 35 +++++++++++++------------
 scutiger-bin/src/bin/git-recent-refs.rs | 17 +++++++-----
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 5eb975e..2e991d3 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -94,23 +94,8 @@ impl<'a> Program<'a> {
     /// (corresponding logically to standard output and standard error) and returns an exit code.
     /// For programmatic execution, see `run`.
     fn main<O: io::Write, E: io::Write>(&self, output: &mut O, error: &mut E) -> i32 {
-        match self.run() {
-            Ok(oid) => {
-                if self.show {
-                    process::Command::new("git")
-                        .arg("show")
-                        .arg(format!("{}", oid))
-                        .spawn()
-                        .unwrap()
-                        .wait()
-                        .unwrap()
-                        .code()
-                        .unwrap_or(ExitStatus::ExternalProgramFailed as i32)
-                } else {
-                    writeln!(output, "{}", oid).unwrap();
-                    ExitStatus::Success as i32
-                }
-            }
+        match self.run().and_then(|oid| self.report(oid, output)) {
+            Ok(status) => status,
             Err(e) => {
                 match (e.fatal(), self.quiet) {
                     (true, _) | (false, false) => writeln!(error, "{}", e),
@@ -122,6 +107,22 @@ impl<'a> Program<'a> {
         }
     }
 
+    /// Print or show the specified commit and return an exit code.
+    fn report<O: io::Write>(&self, oid: Oid, output: &mut O) -> Result<i32, Error> {
+        if self.show {
+            Ok(process::Command::new("git")
+                .arg("show")
+                .arg(format!("{}", oid))
+                .spawn()?
+                .wait()?
+                .code()
+                .unwrap_or(ExitStatus::ExternalProgramFailed as i32))
+        } else {
+            writeln!(output, "{}", oid)?;
+            Ok(ExitStatus::Success as i32)
+        }
+    }
+
     fn pattern(&self, pattern: &str) -> Result<Regex, Error> {
         Ok(Regex::new(pattern)?)
     }
diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 3d1431e..ec4334d 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -112,19 +112,22 @@ impl<'p> Program<'p> {
         }
     }
 
+    /// Prints the references, one to a line.
+    fn report<O: io::Write>(&self, output: &mut O) -> Result<(), Error> {
+        for s in self.run(self.repo)? {
+            writeln!(output, "{}", s)?;
+        }
+        Ok(())
+    }
+
     /// Runs this main program and generate output and error codes.
     ///
     /// The program is run (as per `run`) with the specified output and error streams
     /// (corresponding logically to standard output and standard error) and returns an exit code.
     /// For programmatic execution, see `run`.
     fn main<O: io::Write, E: io::Write>(&self, output: &mut O, error: &mut E) -> i32 {
-        match self.run(self.repo) {
-            Ok(iter) => {
-                for s in iter {
-                    writeln!(output, "{}", s).unwrap();
-                }
-                ExitStatus::Success as i32
-            }
+        match self.report(output) {
+            Ok(()) => ExitStatus::Success as i32,
             Err(e) => {
                 writeln!(error, "{}", e).unwrap();
                 e.exit_status() as i32
-- 
2.43.0


From 486b763dd3c917402057e3d479d7a4e412d8715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:55 +0000
Subject: [PATCH 25/25] fix: do not panic when an error cannot be reported

---
 scutiger-bin/src/bin/git-at.rs           | 9 +++++----
 scutiger-bin/src/bin/git-recent-refs.rs  | 6 ++++--
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 6 ++++--
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 2e991d3..df6d2d5 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -17,6 +17,7 @@ use git2::{Oid, Repository};
 use pcre2::bytes::Regex;
 use scutiger_core::errors::{Error, ErrorKind, ExitStatus};
 use std::io;
+use std::io::Write;
 use std::process;
 
 /// The main program.
@@ -97,11 +98,11 @@ impl<'a> Program<'a> {
         match self.run().and_then(|oid| self.report(oid, output)) {
             Ok(status) => status,
             Err(e) => {
-                match (e.fatal(), self.quiet) {
+                // If the error can't be reported, there's nothing better we can do.
+                let _ = match (e.fatal(), self.quiet) {
                     (true, _) | (false, false) => writeln!(error, "{}", e),
                     (false, true) => Ok(()),
-                }
-                .unwrap();
+                };
                 e.exit_status() as i32
             }
         }
@@ -176,7 +177,7 @@ fn repo() -> Repository {
     match repo {
         Ok(r) => r,
         Err(e) => {
-            eprintln!("{}", e);
+            let _ = writeln!(io::stderr(), "{}", e);
             process::exit(4);
         }
     }
diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index ec4334d..55443ea 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -20,6 +20,7 @@ use clap::{App, Arg, ArgMatches};
 use git2::{Object, Reference, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
+use std::io::Write;
 use std::process;
 
 /// The types of sorting that can be provided.
@@ -129,7 +130,8 @@ impl<'p> Program<'p> {
         match self.report(output) {
             Ok(()) => ExitStatus::Success as i32,
             Err(e) => {
-                writeln!(error, "{}", e).unwrap();
+                // If the error can't be reported, there's nothing better we can do.
+                let _ = writeln!(error, "{}", e);
                 e.exit_status() as i32
             }
         }
@@ -169,7 +171,7 @@ fn repo() -> Repository {
     match repo {
         Ok(r) => r,
         Err(e) => {
-            eprintln!("{}", e);
+            let _ = writeln!(io::stderr(), "{}", e);
             process::exit(4);
         }
     }
diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 9464574..df4d015 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -29,6 +29,7 @@ use scutiger_lfs::backend::local::LocalBackend;
 use scutiger_lfs::processor::{Mode, PktLineHandler, Processor};
 use std::fs;
 use std::io;
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::process;
 
@@ -158,7 +159,8 @@ impl<'p> Program<'p> {
         match self.main_internal(input, output, error) {
             Ok(()) => ExitStatus::Success as i32,
             Err(e) => {
-                writeln!(error, "{}", e).unwrap();
+                // If the error can't be reported, there's nothing better we can do.
+                let _ = writeln!(error, "{}", e);
                 e.exit_status() as i32
             }
         }
@@ -181,7 +183,7 @@ fn repo<P: AsRef<Path>>(path: P) -> Repository {
     match repo {
         Ok(r) => r,
         Err(e) => {
-            eprintln!("{}", e);
+            let _ = writeln!(io::stderr(), "{}", e);
             process::exit(4);
         }
     }
-- 
2.43.0

