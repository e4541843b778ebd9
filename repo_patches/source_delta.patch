From cbca0c252f1461899400db0f9e106f50b746a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 01/39] fix: reject tinymist.getResources without a path
 instead of panicking

---
 crates/sync-lsp/src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index 08b48b4..e439d54 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -617,8 +617,11 @@ impl<M, Args: Initializer> LsDriver<M, Args> {
     pub fn get_resources(&mut self, req_id: RequestId, args: Vec<JsonValue>) -> ScheduledResult {
         let s = self.state.opt_mut().ok_or_else(not_initialized)?;
 
+        let path = args
+            .first()
+            .ok_or_else(|| invalid_params("missing resource path"))?;
         let path =
-            from_value::<PathBuf>(args[0].clone()).map_err(|e| invalid_params(e.to_string()))?;
+            from_value::<PathBuf>(path.clone()).map_err(|e| invalid_params(e.to_string()))?;
 
         let Some(handler) = self.resources.get(path.as_path()) else {
             log::error!("asked for unknown resource: {path:?}");
-- 
2.43.0


From 6557b5a3964c6b5639c0d3ef96110809962ebc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 02/39] fix: write out pending messages when the session ends
 with an error

---
 crates/sync-lsp/src/transport.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sync-lsp/src/transport.rs b/crates/sync-lsp/src/transport.rs
index 4a7cc4a..0a1a497 100644
--- a/crates/sync-lsp/src/transport.rs
+++ b/crates/sync-lsp/src/transport.rs
@@ -96,9 +96,13 @@ fn with_stdio_transport_impl(
         },
     };
 
-    f(connection)?;
+    let res = f(connection);
 
-    io_threads.join_write()?;
+    // Messages sent before the session failed must be written as well.
+    let written = io_threads.join_write();
+
+    res?;
+    written?;
 
     Ok(())
 }
-- 
2.43.0


From 22b3b0016b82f717872ddddc93c057fdb144680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:04 +0000
Subject: [PATCH 03/39] fix: stop reading instead of panicking once the session
 has ended

---
 crates/sync-lsp/src/transport.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/sync-lsp/src/transport.rs b/crates/sync-lsp/src/transport.rs
index 0a1a497..ce4fbcd 100644
--- a/crates/sync-lsp/src/transport.rs
+++ b/crates/sync-lsp/src/transport.rs
@@ -150,9 +150,10 @@ pub fn io_transport<I: BufRead, O: Write>(
             let is_exit = matches!(&msg, Message::Lsp(LspMessage::Notification(n)) if n.is_exit());
 
             log::trace!("sending message {msg:#?}");
-            reader_sender
-                .send(msg)
-                .expect("receiver was dropped, failed to send a message");
+            if reader_sender.send(msg).is_err() {
+                log::warn!("receiver was dropped, stop reading messages");
+                break;
+            }
 
             #[cfg(feature = "lsp")]
             if is_exit {
-- 
2.43.0


From deeceab5e2422a7e64518acf30676f3c96530225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:47 +0000
Subject: [PATCH 04/39] fix: do not allocate a frame's claimed length up front

---
 crates/sync-lsp/src/msg.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index 91bc037..400b6b6 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -2,7 +2,7 @@
 
 use std::{
     fmt,
-    io::{self, BufRead, Write},
+    io::{self, BufRead, Read, Write},
 };
 
 use serde::{Deserialize, Serialize};
@@ -230,9 +230,12 @@ pub(crate) fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>>
         }
     }
     let size: usize = size.ok_or_else(|| invalid_data_fmt!("no Content-Length"))?;
+    // The size is not to be trusted: only what really arrives is buffered.
     let mut buf = buf.into_bytes();
-    buf.resize(size, 0);
-    inp.read_exact(&mut buf)?;
+    buf.clear();
+    if inp.take(size as u64).read_to_end(&mut buf)? < size {
+        return Err(io::ErrorKind::UnexpectedEof.into());
+    }
     let buf = String::from_utf8(buf).map_err(invalid_data)?;
     log::debug!("< {buf}");
     Ok(Some(buf))
-- 
2.43.0


From fb3dfb8b7f465418414ce74d18afaadc18c9dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:17 +0000
Subject: [PATCH 05/39] fix: keep request ids beyond 32 bits

---
 crates/sync-lsp/src/msg.rs            | 14 ++++++++++----
 crates/sync-lsp/src/server.rs         |  6 +-----
 crates/sync-lsp/src/server/dap_srv.rs |  2 +-
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/sync-lsp/src/msg.rs b/crates/sync-lsp/src/msg.rs
index 400b6b6..2d69b87 100644
--- a/crates/sync-lsp/src/msg.rs
+++ b/crates/sync-lsp/src/msg.rs
@@ -21,7 +21,7 @@ impl RequestId {
     #[cfg(all(feature = "dap", feature = "server"))]
     pub(crate) fn dap(id: RequestId) -> i64 {
         match id.0 {
-            IdRepr::I32(it) => it as i64,
+            IdRepr::Int(it) => it,
             IdRepr::String(it) => panic!("unexpected string ID in DAP: {it}"),
         }
     }
@@ -30,13 +30,19 @@ impl RequestId {
 #[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 #[serde(untagged)]
 enum IdRepr {
-    I32(i32),
+    Int(i64),
     String(String),
 }
 
 impl From<i32> for RequestId {
     fn from(id: i32) -> RequestId {
-        RequestId(IdRepr::I32(id))
+        RequestId(IdRepr::Int(id.into()))
+    }
+}
+
+impl From<i64> for RequestId {
+    fn from(id: i64) -> RequestId {
+        RequestId(IdRepr::Int(id))
     }
 }
 
@@ -49,7 +55,7 @@ impl From<String> for RequestId {
 impl fmt::Display for RequestId {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match &self.0 {
-            IdRepr::I32(it) => fmt::Display::fmt(it, f),
+            IdRepr::Int(it) => fmt::Display::fmt(it, f),
             // Use debug here, to make it clear that `92` and `"92"` are
             // different, and to reduce WTF factor if the sever uses `" "` as an
             // ID.
diff --git a/crates/sync-lsp/src/server.rs b/crates/sync-lsp/src/server.rs
index e439d54..431b513 100644
--- a/crates/sync-lsp/src/server.rs
+++ b/crates/sync-lsp/src/server.rs
@@ -275,11 +275,7 @@ impl LspClient {
     #[cfg(feature = "dap")]
     pub fn complete_dap_request<S: Any>(&self, service: &mut S, response: dap::Response) {
         let mut req_queue = self.req_queue.lock();
-        let Some(handler) = req_queue
-            .outgoing
-            // todo: casting i64 to i32
-            .complete((response.request_seq as i32).into())
-        else {
+        let Some(handler) = req_queue.outgoing.complete(response.request_seq.into()) else {
             log::warn!("received response for unknown request");
             return;
         };
diff --git a/crates/sync-lsp/src/server/dap_srv.rs b/crates/sync-lsp/src/server/dap_srv.rs
index 463158e..6cecc7f 100644
--- a/crates/sync-lsp/src/server/dap_srv.rs
+++ b/crates/sync-lsp/src/server/dap_srv.rs
@@ -181,7 +181,7 @@ where
     /// Registers and handles a request. This should only be called once per
     /// incoming request.
     fn on_request(&mut self, request_received: Instant, req: dap::Request) {
-        let req_id = (req.seq as i32).into();
+        let req_id = req.seq.into();
         self.client
             .register_request(&req.command, &req_id, request_received);
 
-- 
2.43.0


From 05d0a104f5f7cb1951229e39fd352c40418d787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 06/39] fix: keep unresolvable .. components when normalizing a
 path

---
 crates/tinymist-std/src/fs/paths.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 0c43b6a..93a28a2 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -99,7 +99,14 @@ pub fn normalize_path(path: &Path) -> PathBuf {
             }
             Component::CurDir => {}
             Component::ParentDir => {
-                ret.pop();
+                if ret.ends_with(Component::ParentDir) {
+                    ret.push(Component::ParentDir);
+                } else {
+                    let popped = ret.pop();
+                    if !popped && !ret.has_root() {
+                        ret.push(Component::ParentDir);
+                    }
+                }
             }
             Component::Normal(c) => {
                 ret.push(c);
-- 
2.43.0


From dd2d804ab460f3ea461847af5ff3f7839746da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 07/39] fix: relative paths from bases further up, and of empty
 paths

---
 crates/tinymist-std/src/path.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-std/src/path.rs b/crates/tinymist-std/src/path.rs
index 424a2f9..6930aec 100644
--- a/crates/tinymist-std/src/path.rs
+++ b/crates/tinymist-std/src/path.rs
@@ -55,8 +55,9 @@ pub fn diff(fr: &Path, to: &Path) -> Option<PathBuf> {
     // Because of <https://github.com/Manishearth/pathdiff/issues/8>, we have to clean the path
     // before diff.
     fn clean_for_diff(p: &Path) -> Cow<'_, Path> {
-        if p.components()
-            .any(|c| matches!(c, Component::ParentDir | Component::CurDir))
+        if p.as_os_str().is_empty()
+            || p.components()
+                .any(|c| matches!(c, Component::ParentDir | Component::CurDir))
         {
             Cow::Owned(p.clean())
         } else {
@@ -64,7 +65,22 @@ pub fn diff(fr: &Path, to: &Path) -> Option<PathBuf> {
         }
     }
 
-    pathdiff::diff_paths(clean_for_diff(fr).as_ref(), clean_for_diff(to).as_ref())
+    fn leading_parents(p: &Path) -> usize {
+        p.components()
+            .take_while(|c| matches!(c, Component::ParentDir))
+            .count()
+    }
+
+    let fr = clean_for_diff(fr);
+    let to = clean_for_diff(to);
+
+    // If the base is further up than the path, the names of the directories to go down again are
+    // unknown. `pathdiff` doesn't notice that if the path ends first.
+    if fr.is_absolute() == to.is_absolute() && leading_parents(&to) > leading_parents(&fr) {
+        return None;
+    }
+
+    pathdiff::diff_paths(fr.as_ref(), to.as_ref())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 23495187098fb190023be774d00795a8381aa338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 08/39] fix: report an error when an atomic write names no file

---
 crates/tinymist-std/src/fs/paths.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 93a28a2..9bb05bc 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -194,6 +194,10 @@ pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(path: P, contents: C) -> Result<()>
 pub fn write_atomic<P: AsRef<Path>, C: AsRef<[u8]>>(path: P, contents: C) -> Result<()> {
     let path = path.as_ref();
 
+    let (Some(file_name), Some(parent)) = (path.file_name(), path.parent()) else {
+        anyhow::bail!("failed to write `{}`: not a file path", path.display());
+    };
+
     // On unix platforms, get the permissions of the original file. Copy only the
     // user/group/other read/write/execute permission bits. The tempfile lib
     // defaults to an initial mode of 0o600, and we'll set the proper
@@ -211,8 +215,8 @@ pub fn write_atomic<P: AsRef<Path>, C: AsRef<[u8]>>(path: P, contents: C) -> Res
     });
 
     let mut tmp = TempFileBuilder::new()
-        .prefix(path.file_name().unwrap())
-        .tempfile_in(path.parent().unwrap())?;
+        .prefix(file_name)
+        .tempfile_in(parent)?;
     tmp.write_all(contents.as_ref())?;
 
     // On unix platforms, set the permissions on the newly created file. We can use
-- 
2.43.0


From 2aa0de279a99c16077bd568013d27832d26cfa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:12 +0000
Subject: [PATCH 09/39] fix: do not hold a query's lock while it computes

---
 crates/tinymist-std/src/concepts/query.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-std/src/concepts/query.rs b/crates/tinymist-std/src/concepts/query.rs
index 3dd6979..1d87a25 100644
--- a/crates/tinymist-std/src/concepts/query.rs
+++ b/crates/tinymist-std/src/concepts/query.rs
@@ -45,7 +45,11 @@ impl<T, E: Clone, QC> QueryRef<T, E, QC> {
     /// Compute with context and return a checked reference guard.
     #[inline]
     pub fn compute_with_context<F: FnOnce(QC) -> Result<T, E>>(&self, f: F) -> Result<&T, E> {
-        let result = self.cell.get_or_init(|| f(self.ctx.lock().take().unwrap()));
+        let result = self.cell.get_or_init(|| {
+            // Releases the lock before the (possibly long) computation.
+            let ctx = self.ctx.lock().take().unwrap();
+            f(ctx)
+        });
         result.as_ref().map_err(Clone::clone)
     }
 
-- 
2.43.0


From 75c4a9411c0a82a64494122d132821c3f7dad599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:20 +0000
Subject: [PATCH 10/39] fix: do not change the permissions of what a link to be
 removed points to

---
 crates/tinymist-std/src/fs/paths.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/tinymist-std/src/fs/paths.rs b/crates/tinymist-std/src/fs/paths.rs
index 9bb05bc..29528b1 100644
--- a/crates/tinymist-std/src/fs/paths.rs
+++ b/crates/tinymist-std/src/fs/paths.rs
@@ -500,6 +500,13 @@ where
 }
 
 fn set_not_readonly(p: &Path) -> io::Result<bool> {
+    // On unix, changing the permissions of a symlink changes those of its target,
+    // which is not to be removed.
+    #[cfg(unix)]
+    if fs::symlink_metadata(p)?.is_symlink() {
+        return Ok(false);
+    }
+
     let mut perms = p.metadata()?.permissions();
     if !perms.readonly() {
         return Ok(false);
-- 
2.43.0


From ebbb99e03e7a3f6dde285cdd0480c6ab521c882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 11/39] fix: accept any shard size for a fingerprint map

---
 crates/tinymist-std/src/adt/fmap.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-std/src/adt/fmap.rs b/crates/tinymist-std/src/adt/fmap.rs
index 896c446..1529407 100644
--- a/crates/tinymist-std/src/adt/fmap.rs
+++ b/crates/tinymist-std/src/adt/fmap.rs
@@ -56,8 +56,9 @@ impl<V> Default for FingerprintMap<V> {
 impl<V> FingerprintMap<V> {
     /// Create a new `FingerprintMap` with the given shard size.
     pub fn new(shard_size: NonZeroU32) -> Self {
-        let shard_size = shard_size.get().next_power_of_two();
-        let shard_size = shard_size.min(MAX_SHARD_SIZE);
+        // Bounds the size first since there may be no next power of two in `u32`.
+        let shard_size = shard_size.get().min(MAX_SHARD_SIZE);
+        let shard_size = shard_size.next_power_of_two();
 
         assert!(
             shard_size.is_power_of_two(),
-- 
2.43.0


From d6709e8ccb09c774401e2e54aa86ed644f82eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 12/39] fix: report errors on malformed fingerprint texts
 instead of panicking

---
 crates/tinymist-std/src/hash.rs | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/crates/tinymist-std/src/hash.rs b/crates/tinymist-std/src/hash.rs
index f356f9f..1238c91 100644
--- a/crates/tinymist-std/src/hash.rs
+++ b/crates/tinymist-std/src/hash.rs
@@ -13,7 +13,7 @@ use siphasher::sip128::{Hasher128, SipHasher13};
 #[cfg(feature = "rkyv")]
 use rkyv::{Archive, Deserialize as rDeser, Serialize as rSer};
 
-use crate::error::prelude::Result;
+use crate::error::prelude::*;
 
 pub(crate) type FxBuildHasher = std::hash::BuildHasherDefault<FxHasher>;
 pub use rustc_hash::{FxHashMap, FxHashSet, FxHasher};
@@ -89,15 +89,28 @@ impl Fingerprint {
 
     /// Creates a new `Fingerprint` from a svg id that **doesn't have prefix**.
     pub fn try_from_str(s: &str) -> Result<Self> {
-        let bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[..11])
-            .expect("invalid base64 string");
-        let lo = u64::from_le_bytes(bytes.try_into().unwrap());
-        let mut bytes = base64::engine::general_purpose::STANDARD_NO_PAD
-            .decode(&s.as_bytes()[11..])
-            .expect("invalid base64 string");
-        bytes.resize(8, 0);
-        let hi = u64::from_le_bytes(bytes.try_into().unwrap());
+        let decode = |s: &[u8]| {
+            base64::engine::general_purpose::STANDARD_NO_PAD
+                .decode(s)
+                .map_err(map_string_err("invalid base64 string"))
+        };
+
+        let Some((lo, hi)) = s.as_bytes().split_at_checked(11) else {
+            bail!("too short fingerprint: {s:?}");
+        };
+        let lo = decode(lo)?;
+        let mut hi = decode(hi)?;
+        // The zero bytes are truncated when printing the higher 64 bits.
+        if hi.len() > 8 || hi.last() == Some(&0) {
+            bail!("invalid higher bits of fingerprint: {s:?}");
+        }
+        hi.resize(8, 0);
+
+        let (Ok(lo), Ok(hi)) = (lo.try_into(), hi.try_into()) else {
+            bail!("invalid length of fingerprint: {s:?}");
+        };
+        let lo = u64::from_le_bytes(lo);
+        let hi = u64::from_le_bytes(hi);
         Ok(Self::from_pair(lo, hi))
     }
 
-- 
2.43.0


From 4715d7579085c353bdf1d335ffc5721752b94234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 13/39] fix: claim a fast fingerprint atomically

---
 crates/tinymist-std/src/hash.rs | 35 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/crates/tinymist-std/src/hash.rs b/crates/tinymist-std/src/hash.rs
index 1238c91..69f2809 100644
--- a/crates/tinymist-std/src/hash.rs
+++ b/crates/tinymist-std/src/hash.rs
@@ -236,18 +236,27 @@ impl FingerprintBuilder {
 
 #[cfg(feature = "bi-hash")]
 impl FingerprintBuilder {
+    /// Resolve the fingerprint by the fast hash, if no other item owns it.
+    fn resolve_fast(&self, s: &FingerprintSipHasher) -> Option<Fingerprint> {
+        let (fingerprint, featured_data) = s.fast_hash();
+        let prev = self.fast_conflict_checker.get(&fingerprint);
+        let prev = prev.map(|prev_featured_data| *prev_featured_data == *featured_data);
+
+        // Claims the fast hash at once, as others may be resolving an item having the
+        // same one.
+        let owned = prev.unwrap_or_else(|| {
+            let entry = self.fast_conflict_checker.entry(fingerprint);
+            *entry.or_insert_with(|| featured_data.clone()) == *featured_data
+        });
+        owned.then(|| Fingerprint::from_pair(fingerprint as u64, 0))
+    }
+
     /// Resolve the fingerprint without checking the conflict.
     pub fn resolve_unchecked<T: Hash>(&self, item: &T) -> Fingerprint {
         let mut s = FingerprintSipHasher { data: Vec::new() };
         item.hash(&mut s);
-        let (fingerprint, featured_data) = s.fast_hash();
-        let Some(prev_featured_data) = self.fast_conflict_checker.get(&fingerprint) else {
-            self.fast_conflict_checker.insert(fingerprint, s.data);
-            return Fingerprint::from_pair(fingerprint as u64, 0);
-        };
-
-        if *prev_featured_data == *featured_data {
-            return Fingerprint::from_pair(fingerprint as u64, 0);
+        if let Some(fingerprint) = self.resolve_fast(&s) {
+            return fingerprint;
         }
 
         let (fingerprint, _featured_data) = s.finish_fingerprint();
@@ -259,14 +268,8 @@ impl FingerprintBuilder {
         let mut s = FingerprintSipHasher { data: Vec::new() };
         item.type_id().hash(&mut s);
         item.hash(&mut s);
-        let (fingerprint, featured_data) = s.fast_hash();
-        let Some(prev_featured_data) = self.fast_conflict_checker.get(&fingerprint) else {
-            self.fast_conflict_checker.insert(fingerprint, s.data);
-            return Fingerprint::from_pair(fingerprint as u64, 0);
-        };
-
-        if *prev_featured_data == *featured_data {
-            return Fingerprint::from_pair(fingerprint as u64, 0);
+        if let Some(fingerprint) = self.resolve_fast(&s) {
+            return fingerprint;
         }
 
         let (fingerprint, featured_data) = s.finish_fingerprint();
-- 
2.43.0


From 888b9dbb97f0e651a2f30a170f6061c6e26ee30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:04 +0000
Subject: [PATCH 14/39] fix: select the most specific locale ignoring the case
 of catalogues

---
 crates/tinymist-l10n/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 9eeaf4a..6073f6c 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -36,13 +36,15 @@ pub fn set_locale(locale: &str) -> Option<()> {
     let translations = ALL_TRANSLATIONS.get()?;
     let lower_locale = locale.to_lowercase();
     let locale = lower_locale.as_str();
-    let translations = translations.get(locale).or_else(|| {
-        // Tries s to find a language that starts with the locale and follow a hyphen.
-        translations
-            .iter()
-            .find(|(k, _)| locale.starts_with(*k) && locale.chars().nth(k.len()) == Some('-'))
-            .map(|(_, v)| v)
-    })?;
+    // Finds the language or, otherwise, the longest one that the locale starts with
+    // and follows by a hyphen.
+    let (_, translations) = translations
+        .iter()
+        .filter(|(k, _)| {
+            let suffix = locale.strip_prefix(k.to_lowercase().as_str());
+            suffix.is_some_and(|suffix| suffix.is_empty() || suffix.starts_with('-'))
+        })
+        .max_by_key(|(k, _)| k.len())?;
 
     *LOCALE_TRANSLATIONS.write().unwrap() = Some(translations);
 
-- 
2.43.0


From e1d59590f741181d426bb08ba4ba2a52adc16ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 15/39] fix: keep text around and unknown placeholders when
 formatting messages

---
 crates/tinymist-l10n/src/lib.rs | 45 ++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 6073f6c..37655de 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -235,31 +235,30 @@ pub fn t_with_args(
     //     }
     // }
 
-    let message_iter = &mut message.chars();
-    while let Some(c) = message_iter.next() {
-        if c == '{' {
-            let arg_index_str = message_iter.take_while(|c| *c != '}').collect::<String>();
-            message_iter.next();
-
-            let Some(arg) = args
-                .iter()
-                .find(|(k, _)| k == &arg_index_str)
-                .map(|(_, v)| v)
-            else {
-                result.push(c);
-                result.push_str(&arg_index_str);
-                continue;
-            };
-
-            match arg {
-                Arg::Str(s) => result.push_str(s.as_ref()),
-                Arg::Int(i) => result.push_str(&i.to_string()),
-                Arg::Float(f) => result.push_str(&f.to_string()),
-            }
-        } else {
-            result.push(c);
+    let mut rest = message;
+    while let Some(bracket_index) = rest.find('{') {
+        let (text, placeholder) = rest.split_at(bracket_index);
+        result.push_str(text);
+
+        let arg = placeholder[1..].split_once('}').and_then(|(name, rest)| {
+            let (_, arg) = args.iter().find(|(k, _)| *k == name)?;
+            Some((arg, rest))
+        });
+        let Some((arg, suffix)) = arg else {
+            // Keeps unknown placeholders.
+            result.push('{');
+            rest = &placeholder[1..];
+            continue;
+        };
+
+        match arg {
+            Arg::Str(s) => result.push_str(s.as_ref()),
+            Arg::Int(i) => result.push_str(&i.to_string()),
+            Arg::Float(f) => result.push_str(&f.to_string()),
         }
+        rest = suffix;
     }
+    result.push_str(rest);
 
     Cow::Owned(result)
 }
-- 
2.43.0


From 7c3226fde8f29a2c64ebcf5434d27f2f0dd10ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 16/39] fix: report malformed catalogues instead of panicking,
 and write keys without an English message

---
 crates/tinymist-l10n/src/lib.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/crates/tinymist-l10n/src/lib.rs b/crates/tinymist-l10n/src/lib.rs
index 37655de..b894131 100644
--- a/crates/tinymist-l10n/src/lib.rs
+++ b/crates/tinymist-l10n/src/lib.rs
@@ -1,6 +1,5 @@
 //! Tinymist's localization library.
 
-use core::panic;
 use std::{
     borrow::Cow,
     collections::HashSet,
@@ -54,16 +53,17 @@ pub fn set_locale(locale: &str) -> Option<()> {
 /// Loads a TOML string into a map of translations.
 pub fn load_translations(input: &str) -> anyhow::Result<TranslationMapSet> {
     let mut translations = deserialize(input, false)?;
-    translations.par_iter_mut().for_each(|(_, v)| {
-        v.par_iter_mut().for_each(|(_, v)| {
-            if !v.starts_with('"') {
-                return;
+    translations.par_iter_mut().try_for_each(|(_, v)| {
+        v.par_iter_mut().try_for_each(|(_, v)| {
+            if v.starts_with('"') {
+                *v = serde_json::from_str::<String>(v).map_err(|e| {
+                    anyhow::anyhow!("cannot parse translation message: {e}, message: {v}")
+                })?;
             }
 
-            *v = serde_json::from_str::<String>(v)
-                .unwrap_or_else(|e| panic!("cannot parse translation message: {e}, message: {v}"));
-        });
-    });
+            anyhow::Ok(())
+        })
+    })?;
 
     Ok(translations)
 }
@@ -121,8 +121,9 @@ pub fn serialize_translations(translations: TranslationMapSet) -> String {
     for (key, mut data) in translations {
         result.push_str(&format!("\n[{key}]\n"));
 
-        let en = data.remove("en").expect("en translation is missing");
-        result.push_str(&format!("en = {en}\n"));
+        if let Some(en) = data.remove("en") {
+            result.push_str(&format!("en = {en}\n"));
+        }
 
         // sort by lang
         let mut data = data.into_iter().collect::<Vec<_>>();
@@ -275,8 +276,11 @@ pub fn deserialize(input: &str, key_first: bool) -> anyhow::Result<TranslationMa
     let mut key = String::new();
 
     for line in lines {
-        if line.starts_with('[') {
-            key = line[1..line.len() - 1].to_string();
+        if let Some(section) = line.strip_prefix('[') {
+            let section = section.strip_suffix(']').ok_or_else(|| {
+                anyhow::anyhow!("cannot find closing bracket in translation line: {line}")
+            })?;
+            key = section.to_string();
         } else {
             let equal_index = line.find('=').map_or_else(
                 || {
-- 
2.43.0


From cb3b96797e6b074b173ad220bc6b12e7de87de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 17/39] fix: look up the cleaned root of a workspace, not the
 one given

A root spelled with .. or . got a new workspace id on every call: its files were never
the same file, and the ids ran out.
---
 crates/tinymist-vfs/src/path_mapper.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist-vfs/src/path_mapper.rs b/crates/tinymist-vfs/src/path_mapper.rs
index 80196d3..3139a08 100644
--- a/crates/tinymist-vfs/src/path_mapper.rs
+++ b/crates/tinymist-vfs/src/path_mapper.rs
@@ -178,12 +178,11 @@ impl WorkspaceResolver {
         // present, we would then need to recheck after acquiring a write lock,
         // which is probably not worth it.
         let mut interner = INTERNER.write();
-        if let Some(&id) = interner.to_id.get(root) {
+        let root = ImmutPath::from(root.clean());
+        if let Some(&id) = interner.to_id.get(&root) {
             return id;
         }
 
-        let root = ImmutPath::from(root.clean());
-
         // Create a new entry forever by leaking the pair. We can't leak more
         // than 2^16 pair (and typically will leak a lot less), so its not a
         // big deal.
-- 
2.43.0


From a93f6db33601457c7f9688dca989ed05676c43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:54 +0000
Subject: [PATCH 18/39] fix: notified paths that nobody read yet make a new
 revision

The view changed for snapshots of the same revision taken before and after: the same
revision gave different contents of a file. Likewise when the shadows are reset.
---
 crates/tinymist-vfs/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 8e8b3ed..4385202 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -503,6 +503,7 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
     /// Reset the shadowing files in [`OverlayAccessModel`].
     pub fn reset_shadow(&mut self) {
         for path in self.am().inner.inner.file_paths() {
+            self.view_changed = true;
             self.invalidate_path(&path);
         }
         for fid in self.am().file_paths() {
@@ -566,6 +567,9 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
     ///
     /// See [`NotifyAccessModel`] for more information.
     pub fn notify_fs_changes(&mut self, event: FileChangeSet) {
+        if !event.is_empty() {
+            self.view_changed = true;
+        }
         for path in &event.removes {
             self.invalidate_path(path);
         }
-- 
2.43.0


From 68b911ee5becad685107b2641d1322152cc4d70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 19/39] fix: a new revision of the vfs does not share slots
 that are still being read

A read begun on an older revision filled the slot the newer one shares, with what the
older one shows: the edit in between was lost.
---
 crates/tinymist-vfs/src/lib.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 4385202..6f4897d 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -340,7 +340,10 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
     }
 
     pub fn revise(&mut self) -> RevisingVfs<M> {
-        let managed = self.managed.lock().clone();
+        let mut managed = self.managed.lock().clone();
+        // Whoever still reads a file reads it for its own revision, so the next one
+        // must not share the slot.
+        managed.drop_unread();
         let paths = self.paths.lock().clone();
         let goal_revision = self.revision.checked_add(1).expect("revision overflowed");
 
@@ -609,6 +612,15 @@ impl EntryMap {
         }
     }
 
+    /// Drops the slots whose content is not read yet.
+    fn drop_unread(&mut self) {
+        let unread = self.entries.iter();
+        let unread = unread.filter(|(_, entry)| entry.bytes.get().is_none());
+        for id in unread.map(|(id, _)| *id).collect::<Vec<_>>() {
+            self.entries.remove_mut(&id);
+        }
+    }
+
     fn display(&self) -> DisplayEntryMap {
         DisplayEntryMap { map: self }
     }
-- 
2.43.0


From 88daf2914846bc1c43b7a965842f2fb04001574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 20/39] fix: a file that is read anew counts as changed

After the caches were reset, files that are read again had changed at revision 0, so
that compilations before the reset counted as clean whatever the files hold now.
---
 crates/tinymist-vfs/src/lib.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/tinymist-vfs/src/lib.rs b/crates/tinymist-vfs/src/lib.rs
index 6f4897d..b04b07b 100644
--- a/crates/tinymist-vfs/src/lib.rs
+++ b/crates/tinymist-vfs/src/lib.rs
@@ -362,17 +362,19 @@ impl<M: PathAccessModel + Sized> Vfs<M> {
 
     /// Reads a file.
     pub fn read(&self, fid: TypstFileId) -> FileResult<Bytes> {
-        let bytes = self.managed.lock().slot(fid, |entry| entry.bytes.clone());
+        let bytes = self
+            .managed
+            .lock()
+            .slot(fid, self.revision, |entry| entry.bytes.clone());
 
         self.read_content(&bytes, fid).clone()
     }
 
     /// Reads a source.
     pub fn source(&self, file_id: TypstFileId) -> FileResult<Source> {
-        let (bytes, source) = self
-            .managed
-            .lock()
-            .slot(file_id, |entry| (entry.bytes.clone(), entry.source.clone()));
+        let (bytes, source) = self.managed.lock().slot(file_id, self.revision, |entry| {
+            (entry.bytes.clone(), entry.source.clone())
+        });
 
         let source = source.get_or_init(|| {
             let content = self
@@ -496,8 +498,9 @@ impl<M: PathAccessModel + Sized> RevisingVfs<'_, M> {
 
     fn invalidate_file_id(&mut self, file_id: TypstFileId) {
         self.view_changed = true;
-        self.managed.slot(file_id, |e| {
-            e.changed_at = self.goal_revision.get();
+        let revision = self.goal_revision;
+        self.managed.slot(file_id, revision, |e| {
+            e.changed_at = revision.get();
             e.bytes = Arc::default();
             e.source = Arc::default();
         });
@@ -599,13 +602,22 @@ struct EntryMap {
 }
 
 impl EntryMap {
-    /// Read a slot.
+    /// Read a slot. What a slot held before it is made is unknown, so it counts
+    /// as changed at the revision that makes it.
     #[inline(always)]
-    fn slot<T>(&mut self, path: TypstFileId, f: impl FnOnce(&mut VfsEntry) -> T) -> T {
+    fn slot<T>(
+        &mut self,
+        path: TypstFileId,
+        rev: NonZeroUsize,
+        f: impl FnOnce(&mut VfsEntry) -> T,
+    ) -> T {
         if let Some(entry) = self.entries.get_mut(&path) {
             f(entry)
         } else {
-            let mut entry = VfsEntry::default();
+            let mut entry = VfsEntry {
+                changed_at: rev.get(),
+                ..VfsEntry::default()
+            };
             let res = f(&mut entry);
             self.entries.insert_mut(path, entry);
             res
-- 
2.43.0


From f8b3e69c837b861ad06a57c615ce657fb5d88f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 21/39] fix: an interrupt to a project that has been settled is
 ignored

---
 crates/tinymist-project/src/compiler.rs | 30 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 9fc301e..62a80cb 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -453,17 +453,22 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         }
     }
 
-    /// Find a project by id, but with less borrow checker restriction.
+    /// Find a project by id, but with less borrow checker restriction. The
+    /// project may be removed when an interrupt to it is still on the way.
     pub fn find_project<'a>(
         primary: &'a mut ProjectInsState<F, Ext>,
         dedicates: &'a mut [ProjectInsState<F, Ext>],
         id: &ProjectInsId,
-    ) -> &'a mut ProjectInsState<F, Ext> {
+    ) -> Option<&'a mut ProjectInsState<F, Ext>> {
         if id == &primary.id {
-            return primary;
+            return Some(primary);
         }
 
-        dedicates.iter_mut().find(|e| e.id == *id).unwrap()
+        let proj = dedicates.iter_mut().find(|e| e.id == *id);
+        if proj.is_none() {
+            log::warn!("ProjectCompiler: project not found {id:?}");
+        }
+        proj
     }
 
     /// Clear all dedicate projects.
@@ -524,7 +529,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
     fn process_inner(&mut self, intr: Interrupt<F>) {
         match intr {
             Interrupt::Compile(id) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    return;
+                };
                 // Increment the revision anyway.
                 proj.verse.increment_revision(|verse| {
                     verse.flush();
@@ -533,8 +541,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 proj.reason.see(reason_by_entry_change());
             }
             Interrupt::Compiled(artifact) => {
-                let proj =
-                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id());
+                let Some(proj) =
+                    Self::find_project(&mut self.primary, &mut self.dedicates, artifact.id())
+                else {
+                    return;
+                };
 
                 let processed = proj.process_compile(artifact);
 
@@ -552,7 +563,10 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 self.remove_dedicates(&id);
             }
             Interrupt::ChangeTask(id, change) => {
-                let proj = Self::find_project(&mut self.primary, &mut self.dedicates, &id);
+                let Some(proj) = Self::find_project(&mut self.primary, &mut self.dedicates, &id)
+                else {
+                    return;
+                };
                 proj.verse.increment_revision(|verse| {
                     if let Some(inputs) = change.inputs.clone() {
                         verse.set_inputs(inputs);
-- 
2.43.0


From dda22c9628d19cd6f016b90a42188645cc9f4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:38 +0000
Subject: [PATCH 22/39] fix: a delayed memory event has a logical tick of its
 own

---
 crates/tinymist-project/src/compiler.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 62a80cb..f9943f5 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -655,6 +655,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
 
                 // Otherwise, send upstream update event.
                 // Also, record the logical tick when shadow is dirty.
+                self.logical_tick += 1;
                 self.dirty_shadow_logical_tick = self.logical_tick;
                 let event = NotifyMessage::UpstreamUpdate(UpstreamUpdateEvent {
                     invalidates: files.into_iter().collect(),
-- 
2.43.0


From 53bab3f85004f112d67a43ba2972d1462a8f114f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 23/39] fix: the watcher tells of a removed or emptied file
 once it stays so

---
 crates/tinymist-project/src/watch.rs | 33 ++++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index cfe06da..dcf7f56 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -64,7 +64,7 @@ struct WatchedEntry {
     seen: bool,
     /// The state of the entry.
     state: WatchState,
-    /// Previous content of the file.
+    /// Previous content of the file, as last sent to the consumer.
     prev: Option<FileSnapshot>,
 }
 
@@ -378,12 +378,16 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                 // or truncating the file. They are possibly flushing the file
                 // but not finished yet.
                 WatchState::Stable => {
+                    // Ignores the error if the error is stable
+                    if it.as_ref().is_err_and(|it| it == err) {
+                        return None;
+                    }
+
                     if matches!(err.as_ref(), FileError::NotFound(..) | FileError::Other(..)) {
                         entry.state = WatchState::EmptyOrRemoval {
                             recheck_at: self.logical_tick,
-                            payload: file.clone(),
+                            payload: file,
                         };
-                        entry.prev = Some(file);
                         let event = UndeterminedNotifyEvent {
                             at_realtime: tinymist_std::time::Instant::now(),
                             at_logical_tick: self.logical_tick,
@@ -393,11 +397,6 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                         return None;
                     }
                     // Otherwise, we push the error to the consumer.
-
-                    // Ignores the error if the error is stable
-                    if it.as_ref().is_err_and(|it| it == err) {
-                        return None;
-                    }
                 }
 
                 // Very complicated case of check error sequence, so we simplify
@@ -412,10 +411,11 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
             (Some(Ok(prev_content)), Ok(next_content)) => {
                 // So far it is accurately no change for the file, skip it
                 if prev_content == next_content {
+                    entry.state = WatchState::Stable;
                     return None;
                 }
 
-                match entry.state {
+                match &mut entry.state {
                     // If the file is stable, check whether the editor is
                     // removing or truncating the file. They are possibly
                     // flushing the file but not finished yet.
@@ -423,9 +423,8 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                         if next_content.is_empty() {
                             entry.state = WatchState::EmptyOrRemoval {
                                 recheck_at: self.logical_tick,
-                                payload: file.clone(),
+                                payload: file,
                             };
-                            entry.prev = Some(file);
                             let event = UndeterminedNotifyEvent {
                                 at_realtime: tinymist_std::time::Instant::now(),
                                 at_logical_tick: self.logical_tick,
@@ -437,7 +436,10 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     }
 
                     // Still empty
-                    WatchState::EmptyOrRemoval { .. } if next_content.is_empty() => return None,
+                    WatchState::EmptyOrRemoval { payload, .. } if next_content.is_empty() => {
+                        *payload = file;
+                        return None;
+                    }
                     // Otherwise, we push the diff to the consumer.
                     WatchState::EmptyOrRemoval { .. } => {}
                 }
@@ -474,7 +476,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         let entry = self.watched_entries.get_mut(&event.path)?;
 
         // Check the state of the entry
-        match std::mem::take(&mut entry.state) {
+        match &entry.state {
             // If the entry is stable, we do nothing
             WatchState::Stable => {}
             // If the entry is not stable, and no other event is produced after
@@ -483,12 +485,15 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                 recheck_at,
                 payload,
             } => {
-                if recheck_at == event.at_logical_tick {
+                if *recheck_at == event.at_logical_tick {
                     log::debug!("notify event real happened {event:?}, state: {payload:?}");
 
+                    let payload = payload.clone();
+                    entry.state = WatchState::Stable;
                     if Some(&payload) == entry.prev.as_ref() {
                         return None;
                     }
+                    entry.prev = Some(payload.clone());
 
                     // Send the underlying change to the consumer
                     let mut changeset = FileChangeSet::default();
-- 
2.43.0


From f9f184209c87682b2335d13ead1de30bbc8db7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:08 +0000
Subject: [PATCH 24/39] fix: the watcher goes on watching the other files on an
 upstream update

---
 crates/tinymist-project/src/watch.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index dcf7f56..8ff957d 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -185,7 +185,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     self.invalidate_upstream(event);
                 }
                 ActorEvent::Message(Some(SyncDependency(paths))) => {
-                    if let Some(changeset) = self.update_watches(paths.as_ref()) {
+                    if let Some(changeset) = self.update_watches(paths.as_ref(), true) {
                         (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
                     }
                 }
@@ -206,8 +206,11 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
 
     /// Update the watches of corresponding invalidation
     fn invalidate_upstream(&mut self, event: UpstreamUpdateEvent) {
-        // Update watches of invalidated files.
-        let changeset = self.update_watches(&event.invalidates).unwrap_or_default();
+        // Update watches of invalidated files. They are not all the dependencies, so
+        // other files are still watched.
+        let changeset = self
+            .update_watches(&event.invalidates, false)
+            .unwrap_or_default();
 
         // Send the event to the consumer.
         (self.interrupted_by_events)(FilesystemEvent::UpstreamUpdate {
@@ -216,10 +219,13 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         });
     }
 
-    /// Update the watches of corresponding files.
-    fn update_watches(&mut self, paths: &dyn NotifyDeps) -> Option<FileChangeSet> {
+    /// Update the watches of corresponding files. If the files are all the
+    /// dependencies (`complete`), unwatches other files.
+    fn update_watches(&mut self, paths: &dyn NotifyDeps, complete: bool) -> Option<FileChangeSet> {
         // Increase the lifetime per external message.
-        self.lifetime += 1;
+        if complete {
+            self.lifetime += 1;
+        }
 
         let mut changeset = FileChangeSet::default();
 
@@ -286,7 +292,7 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
         // Note: since we have increased the lifetime, it is safe to remove the
         // old entries after updating the watched entries.
         self.watched_entries.retain(|path, entry| {
-            if !entry.seen && entry.watching {
+            if complete && !entry.seen && entry.watching {
                 log::debug!("unwatch {path:?}");
                 if let Some(watcher) = &mut self.watcher {
                     log_notify_error(watcher.0.unwatch(path), "failed to unwatch");
-- 
2.43.0


From 0505882ff7279f0e6fd98179541f4df48947fccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 25/39] fix: the watcher watches a file again that has been
 replaced

---
 crates/tinymist-project/src/watch.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/crates/tinymist-project/src/watch.rs b/crates/tinymist-project/src/watch.rs
index 8ff957d..7e8c483 100644
--- a/crates/tinymist-project/src/watch.rs
+++ b/crates/tinymist-project/src/watch.rs
@@ -312,13 +312,6 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
 
     /// Notify the event from the builtin watcher.
     fn notify_event(&mut self, event: notify::Event) {
-        // Account file updates.
-        let mut changeset = FileChangeSet::default();
-        for path in event.paths.iter() {
-            // todo: remove this clone: path.into()
-            changeset.may_insert(self.notify_entry_update(path.as_path().into()));
-        }
-
         // Workaround for notify-rs' implicit unwatch on remove/rename
         // (triggered by some editors when saving files) with the
         // inotify backend. By keeping track of the potentially
@@ -344,9 +337,27 @@ impl<F: FnMut(FilesystemEvent) + Send + Sync> NotifyActor<F> {
                     log_notify_error(watcher.0.unwatch(path), "failed to unwatch");
                 }
                 entry.watching = false;
+
+                // The file may be replaced already. If so, watches it again.
+                if let Some((watcher, _)) = &mut self.watcher {
+                    if path.is_file() {
+                        entry.watching = log_notify_error(
+                            watcher.watch(path, RecursiveMode::NonRecursive),
+                            "failed to watch",
+                        )
+                        .is_some();
+                    }
+                }
             }
         }
 
+        // Account file updates.
+        let mut changeset = FileChangeSet::default();
+        for path in event.paths.iter() {
+            // todo: remove this clone: path.into()
+            changeset.may_insert(self.notify_entry_update(path.as_path().into()));
+        }
+
         // Send file updates.
         if !changeset.is_empty() {
             (self.interrupted_by_events)(FilesystemEvent::Update(changeset));
-- 
2.43.0


From 6044ad5a5659640a897bfab66543b5fbeef97c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:45 +0000
Subject: [PATCH 26/39] fix: revisions of a restarted project go on, so that
 late compilations of the old one are ignored

---
 crates/tinymist-project/src/compiler.rs | 37 +++++++++++++++++--------
 crates/tinymist/src/project.rs          | 14 ++++++----
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index f9943f5..7b7f330 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -208,8 +208,9 @@ pub trait CompileHandler<F: CompilerFeat, Ext>: Send + Sync + 'static {
     // todo: notify project specific compile
     /// Called when a compilation is done.
     fn notify_compile(&self, res: &CompiledArtifact<F>);
-    /// Called when a project is removed.
-    fn notify_removed(&self, _id: &ProjectInsId) {}
+    /// Called when a project is removed. Its compilations may be still running,
+    /// but their revisions are all less than the given revision.
+    fn notify_removed(&self, _id: &ProjectInsId, _revision: usize) {}
     /// Called when the compilation status is changed.
     fn status(&self, revision: usize, rep: CompileReport);
 }
@@ -378,6 +379,8 @@ pub struct ProjectCompiler<F: CompilerFeat, Ext> {
     pub primary: ProjectInsState<F, Ext>,
     /// The states for dedicate tasks
     pub dedicates: Vec<ProjectInsState<F, Ext>>,
+    /// The revision that no removed project has reached.
+    removed_revision: usize,
     /// The project file dependencies.
     deps: ProjectDeps,
 }
@@ -413,6 +416,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             primary,
             deps: Default::default(),
             dedicates: vec![],
+            removed_revision: 0,
         }
     }
 
@@ -479,8 +483,9 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
     /// Restart a dedicate project.
     pub fn restart_dedicate(&mut self, group: &str, entry: EntryState) -> Result<ProjectInsId> {
         let id = ProjectInsId(group.into());
+        self.remove_dedicates(&id);
 
-        let verse = CompilerUniverse::<F>::new_raw(
+        let mut verse = CompilerUniverse::<F>::new_raw(
             entry,
             self.primary.verse.features.clone(),
             Some(self.primary.verse.inputs().clone()),
@@ -489,11 +494,14 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             self.primary.verse.font_resolver.clone(),
         );
 
+        // Goes on with the revisions, to tell the compilations of the removed project.
+        verse.revision = verse.revision.saturating_add(self.removed_revision);
+
         let mut proj =
             Self::create_project(id.clone(), verse, self.export_target, self.handler.clone());
+        proj.committed_revision = self.removed_revision;
         proj.reason.see(reason_by_entry_change());
 
-        self.remove_dedicates(&id);
         self.dedicates.push(proj);
 
         Ok(id)
@@ -502,13 +510,14 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
     fn remove_dedicates(&mut self, id: &ProjectInsId) {
         let proj = self.dedicates.iter().position(|e| e.id == *id);
         if let Some(idx) = proj {
+            let proj = self.dedicates.remove(idx);
+            // todo: kill compilations
+            self.removed_revision = self.removed_revision.max(proj.verse.revision.get() + 1);
+
             // Resets the handle state, e.g. notified revision
-            self.handler.notify_removed(id);
+            self.handler.notify_removed(id, self.removed_revision);
             self.deps.project_deps.remove_mut(id);
 
-            let _proj = self.dedicates.remove(idx);
-            // todo: kill compilations
-
             let res = self
                 .dep_tx
                 .send(NotifyMessage::SyncDependency(Box::new(self.deps.clone())));
@@ -886,12 +895,18 @@ impl<F: CompilerFeat, Ext: 'static> ProjectInsState<F, Ext> {
         }
     }
 
+    /// Whether the compilation is committed already, or of a removed project
+    /// with the same id.
+    pub fn is_outdated(&self, artifact: &CompiledArtifact<F>) -> bool {
+        self.committed_revision >= artifact.snap.world.revision().get()
+    }
+
     fn process_compile(&mut self, artifact: CompiledArtifact<F>) -> bool {
-        let world = &artifact.snap.world;
-        let compiled_revision = world.revision().get();
-        if self.committed_revision >= compiled_revision {
+        if self.is_outdated(&artifact) {
             return false;
         }
+        let world = &artifact.snap.world;
+        let compiled_revision = world.revision().get();
 
         // Update state.
         let doc = artifact.doc.clone();
diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 8218a10..0479de0 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -308,7 +308,9 @@ impl ProjectState {
 
     pub fn do_interrupt(compiler: &mut LspProjectCompiler, intr: Interrupt<LspCompilerFeat>) {
         if let Interrupt::Compiled(compiled) = &intr {
-            let proj = compiler.projects().find(|p| &p.id == compiled.id());
+            let proj = compiler
+                .projects()
+                .find(|p| &p.id == compiled.id() && !p.is_outdated(compiled));
             if let Some(proj) = proj {
                 proj.ext
                     .compiled(&proj.verse.revision, proj.handler.as_ref(), compiled);
@@ -580,16 +582,16 @@ impl CompileHandler<LspCompilerFeat, ProjectInsStateExt> for CompileHandlerImpl
         self.editor_tx.send(EditorRequest::Status(rep)).unwrap();
     }
 
-    fn notify_removed(&self, id: &ProjectInsId) {
-        let n_revs = &mut self.notified_revision.lock();
-        let last_rev = n_revs.remove(id).unwrap_or_default();
+    fn notify_removed(&self, id: &ProjectInsId, revision: usize) {
+        // Compilations may be still running, ignores their results and statuses.
+        self.notified_revision.lock().insert(id.clone(), revision);
+        self.status_revision.lock().insert(id.clone(), revision);
 
         let dv = ProjVersion {
             id: id.clone(),
-            revision: last_rev,
+            revision,
         };
 
-        // todo: race condition with notify_compile?
         // remove diagnostics
         self.push_diagnostics(dv, None);
     }
-- 
2.43.0


From 74b460d88c8132da1545f9bc08f0c97b1e727b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 27/39] fix: reloaded projects ignore what the old ones have
 still under way

---
 crates/tinymist-project/src/compiler.rs | 28 +++++++++++++++++++++++++
 crates/tinymist/src/project.rs          |  1 +
 2 files changed, 29 insertions(+)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 7b7f330..5a1b984 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -370,6 +370,8 @@ pub struct ProjectCompiler<F: CompilerFeat, Ext> {
 
     /// The current logical tick.
     logical_tick: usize,
+    /// The logical tick when this compiler took over from another one.
+    initial_logical_tick: usize,
     /// Last logical tick when invalidation is caused by shadow update.
     dirty_shadow_logical_tick: usize,
     /// Estimated latest set of shadow files.
@@ -409,6 +411,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
             export_target,
 
             logical_tick: 1,
+            initial_logical_tick: 0,
             dirty_shadow_logical_tick: 0,
 
             estimated_shadow_files: Default::default(),
@@ -420,6 +423,25 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
         }
     }
 
+    /// Takes over from an old compiler before doing anything. The revisions and
+    /// the logical ticks go on, so that what the old compiler has still under
+    /// way is ignored.
+    pub fn take_over(&mut self, old: &mut Self) {
+        let revisions = old.projects().map(|proj| proj.verse.revision.get() + 1);
+        let revision = revisions.fold(0, usize::max).max(old.removed_revision);
+        for proj in old.projects() {
+            proj.handler.notify_removed(&proj.id, revision);
+        }
+
+        self.removed_revision = revision;
+        let verse = &mut self.primary.verse;
+        verse.revision = verse.revision.saturating_add(revision);
+        self.primary.committed_revision = revision;
+
+        self.logical_tick = old.logical_tick;
+        self.initial_logical_tick = old.logical_tick;
+    }
+
     /// Creates a snapshot of the primary project.
     pub fn snapshot(&mut self) -> Arc<WorldComputeGraph<F>> {
         self.primary.snapshot()
@@ -682,6 +704,12 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                 // Apply file system changes.
                 let dirty_tick = &mut self.dirty_shadow_logical_tick;
                 let (changes, event) = event.split();
+                // The memory changes that the old compiler delayed are synchronized already.
+                let initial_tick = self.initial_logical_tick;
+                let event = event.filter(|event| {
+                    let event = event.opaque.downcast_ref::<TaggedMemoryEvent>();
+                    event.is_none_or(|event| event.logical_tick > initial_tick)
+                });
                 let changes = std::iter::repeat_n(changes, 1 + self.dedicates.len());
                 let proj = std::iter::once(&mut self.primary).chain(self.dedicates.iter_mut());
 
diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 0479de0..ff4cc2a 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -93,6 +93,7 @@ impl ServerState {
         );
 
         let mut old_project = std::mem::replace(&mut self.project, new_project);
+        self.project.compiler.take_over(&mut old_project.compiler);
 
         // todo: the old dedicate projects should be transferred.
 
-- 
2.43.0


From 73f985763ce16e452d6e33c0b6b12a1aceb92eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 28/39] fix: the editor actor ignores outdated diagnostics

---
 crates/tinymist/src/actor/editor.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/tinymist/src/actor/editor.rs b/crates/tinymist/src/actor/editor.rs
index b9a4533..f426e46 100644
--- a/crates/tinymist/src/actor/editor.rs
+++ b/crates/tinymist/src/actor/editor.rs
@@ -50,6 +50,9 @@ pub struct EditorActor {
     diagnostics: HashMap<Url, HashMap<ProjectInsId, EcoVec<Diagnostic>>>,
     /// The map from project ID to the affected files.
     affect_map: HashMap<ProjectInsId, Vec<Url>>,
+    /// The map from project ID to the latest revision that publishes or removes
+    /// the diagnostics.
+    diag_revisions: HashMap<ProjectInsId, usize>,
 }
 
 impl EditorActor {
@@ -64,6 +67,7 @@ impl EditorActor {
             editor_rx,
             diagnostics: HashMap::new(),
             affect_map: HashMap::new(),
+            diag_revisions: HashMap::new(),
             config: EditorActorConfig { notify_status },
         }
     }
@@ -91,6 +95,15 @@ impl EditorActor {
                         diagnostics.as_ref().map(|files| files.len())
                     );
 
+                    // The diagnostics may be late, e.g. the project is suspended or removed, or a
+                    // later compilation finishes earlier.
+                    let revision = self.diag_revisions.entry(version.id.clone()).or_default();
+                    if *revision > version.revision {
+                        log::info!("ignored outdated diagnostics from {version:?} < {revision}");
+                        continue;
+                    }
+                    *revision = version.revision;
+
                     self.publish(version.id, diagnostics).await;
                 }
                 EditorRequest::Status(compile_status) => {
-- 
2.43.0


From 14e3482fa3eec9765af3069b5b903c603d1ce678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:04 +0000
Subject: [PATCH 29/39] fix: a delayed memory event counts as an edit, not as a
 save

---
 crates/tinymist-project/src/compiler.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-project/src/compiler.rs b/crates/tinymist-project/src/compiler.rs
index 5a1b984..59f70ae 100644
--- a/crates/tinymist-project/src/compiler.rs
+++ b/crates/tinymist-project/src/compiler.rs
@@ -710,6 +710,7 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                     let event = event.opaque.downcast_ref::<TaggedMemoryEvent>();
                     event.is_none_or(|event| event.logical_tick > initial_tick)
                 });
+                let fs_changed = !changes.is_empty();
                 let changes = std::iter::repeat_n(changes, 1 + self.dedicates.len());
                 let proj = std::iter::once(&mut self.primary).chain(self.dedicates.iter_mut());
 
@@ -733,7 +734,11 @@ impl<F: CompilerFeat + Send + Sync + 'static, Ext: Default + 'static> ProjectCom
                         verse.vfs_changed()
                     });
 
-                    if vfs_changed {
+                    // Actual a delayed memory event.
+                    if vfs_changed && event.is_some() {
+                        proj.reason.see(reason_by_mem());
+                    }
+                    if vfs_changed && fs_changed {
                         proj.reason.see(reason_by_fs());
                     }
                 }
-- 
2.43.0


From 1d93750459c4883d5862ef998dbc074acd4d0272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:52 +0000
Subject: [PATCH 30/39] fix: the main file outlives a reload of the projects

Reloading makes new projects, the primary one with the entry the configuration tells. Whatever was focused or pinned was
forgotten: nothing was compiled, and no diagnostics shown, until the editor told another main file.
---
 crates/tinymist/src/project.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index ff4cc2a..7cb724e 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -110,6 +110,20 @@ impl ServerState {
         self.project
             .interrupt(Interrupt::Memory(MemoryEvent::Update(snapshot)));
 
+        // The main file stays the same, unless the configuration tells it.
+        let pinned =
+            self.pinning_by_user || (self.pinning_by_preview && !self.pinning_by_browsing_preview);
+        let old_entry = old_project.compiler.primary.verse.entry_file();
+        let old_entry = old_entry.and_then(|entry| Some(entry.to_err().ok()?.into()));
+        let entry = match old_entry {
+            Some(entry) if pinned => Some(entry),
+            _ if self.config.has_default_entry_path => None,
+            _ => self.focusing.clone(),
+        };
+        if entry.is_some() {
+            self.change_main_file(entry)?;
+        }
+
         rayon::spawn(move || {
             old_project.stop();
         });
-- 
2.43.0


From 51dfafa541e7ea0efc4fd8441a0b9b4bd9f09361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:39 +0000
Subject: [PATCH 31/39] fix: exports and word counts of different projects do
 not replace each other

All projects share a folder which keeps only the pending task with the highest revision, but the revisions of different
projects are unrelated: an export of the primary project was dropped while one of a preview's project was pending.
---
 crates/tinymist/src/task/export.rs |  4 ++--
 crates/tinymist/src/task/mod.rs    | 25 ++++++++++++-------------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/crates/tinymist/src/task/export.rs b/crates/tinymist/src/task/export.rs
index bc6a07a..a2178d1 100644
--- a/crates/tinymist/src/task/export.rs
+++ b/crates/tinymist/src/task/export.rs
@@ -82,7 +82,7 @@ impl ExportTask {
         }
 
         let rev = artifact.world().revision().get();
-        let fut = self.export_folder.spawn(rev, || {
+        let fut = self.export_folder.spawn(artifact.id(), rev, || {
             let task = config.task.clone();
             let artifact = artifact.clone();
             Box::pin(async move {
@@ -107,7 +107,7 @@ impl ExportTask {
 
         let editor_tx = self.editor_tx.clone()?;
         let rev = artifact.world().revision().get();
-        let fut = self.count_word_folder.spawn(rev, || {
+        let fut = self.count_word_folder.spawn(artifact.id(), rev, || {
             let artifact = artifact.clone();
             Box::pin(async move {
                 let id = artifact.id().clone();
diff --git a/crates/tinymist/src/task/mod.rs b/crates/tinymist/src/task/mod.rs
index 0c9cf8c..00f2182 100644
--- a/crates/tinymist/src/task/mod.rs
+++ b/crates/tinymist/src/task/mod.rs
@@ -10,7 +10,7 @@ pub use format::*;
 mod user_action;
 pub use user_action::*;
 
-use std::{ops::DerefMut, pin::Pin, sync::Arc};
+use std::{collections::VecDeque, ops::DerefMut, pin::Pin, sync::Arc};
 
 use futures::Future;
 use parking_lot::Mutex;
@@ -18,6 +18,8 @@ use rayon::Scope;
 use reflexo::TakeAs;
 use tinymist_std::error::prelude::*;
 
+use crate::project::ProjectInsId;
+
 /// Please uses this if you believe all mutations are fast
 #[derive(Clone, Default)]
 pub struct SyncTaskFactory<T>(Arc<std::sync::RwLock<Arc<T>>>);
@@ -46,7 +48,8 @@ type FoldFuture = Pin<Box<dyn Future<Output = Option<()>> + Send>>;
 #[derive(Default)]
 struct FoldingState {
     running: bool,
-    task: Option<(usize, FoldFuture)>,
+    /// The tasks to run, at most one for each project.
+    tasks: VecDeque<(ProjectInsId, usize, FoldFuture)>,
 }
 
 #[derive(Clone, Default)]
@@ -67,25 +70,21 @@ impl FutureFolder {
     #[must_use]
     fn spawn(
         &self,
+        id: &ProjectInsId,
         revision: usize,
         fut: impl FnOnce() -> FoldFuture,
     ) -> Option<impl Future<Output = ()> + Send + 'static> {
         let mut state = self.state.lock();
         let state = state.deref_mut();
 
-        match &mut state.task {
-            Some((prev_revision, prev)) => {
-                if *prev_revision < revision {
-                    *prev = fut();
-                    *prev_revision = revision;
-                }
-
+        // The revisions of different projects are not comparable.
+        if let Some(prev) = state.tasks.iter().position(|task| &task.0 == id) {
+            if state.tasks[prev].1 >= revision {
                 return None;
             }
-            next_update => {
-                *next_update = Some((revision, fut()));
-            }
+            state.tasks.remove(prev);
         }
+        state.tasks.push_back((id.clone(), revision, fut()));
 
         if state.running {
             return None;
@@ -98,7 +97,7 @@ impl FutureFolder {
             loop {
                 let fut = {
                     let mut state = state.lock();
-                    let Some((_, fut)) = state.task.take() else {
+                    let Some((_, _, fut)) = state.tasks.pop_front() else {
                         state.running = false;
                         return;
                     };
-- 
2.43.0


From b7e0f3550333a0599652d0bb97dc90a8a806a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:05 +0000
Subject: [PATCH 32/39] fix: exports under way outlive a reload in their order

---
 crates/tinymist/src/project.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/crates/tinymist/src/project.rs b/crates/tinymist/src/project.rs
index 7cb724e..c4ea6fc 100644
--- a/crates/tinymist/src/project.rs
+++ b/crates/tinymist/src/project.rs
@@ -84,10 +84,15 @@ impl ServerState {
         self.preview.stop_all();
         let editor_tx = self.editor_tx.clone();
 
-        let new_project = Self::project(
+        // Exports may be still running, which must not overwrite later ones.
+        let export = self.project.export.clone();
+        export.change_config(self.config.export());
+
+        let new_project = Self::project_with_export(
             &self.config,
             editor_tx,
             self.client.clone(),
+            export,
             #[cfg(feature = "preview")]
             self.preview.watchers.clone(),
         );
@@ -148,8 +153,6 @@ impl ServerState {
         client: TypedLspClient<ServerState>,
         #[cfg(feature = "preview")] preview: ProjectPreviewState,
     ) -> ProjectState {
-        let const_config = &config.const_config;
-
         // Run Export actors before preparing cluster to avoid loss of events
         let export = crate::task::ExportTask::new(
             client.handle.clone(),
@@ -157,6 +160,26 @@ impl ServerState {
             config.export(),
         );
 
+        Self::project_with_export(
+            config,
+            editor_tx,
+            client,
+            export,
+            #[cfg(feature = "preview")]
+            preview,
+        )
+    }
+
+    /// Create a fresh [`ProjectState`] with given export task.
+    fn project_with_export(
+        config: &Config,
+        editor_tx: mpsc::UnboundedSender<EditorRequest>,
+        client: TypedLspClient<ServerState>,
+        export: crate::task::ExportTask,
+        #[cfg(feature = "preview")] preview: ProjectPreviewState,
+    ) -> ProjectState {
+        let const_config = &config.const_config;
+
         // Create the compile handler for client consuming results.
         let periscope_args = config.periscope_args.clone();
         let handle = Arc::new(CompileHandlerImpl {
-- 
2.43.0


From c7f5171e39284f41f3d9baae097060f129b08305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:44 +0000
Subject: [PATCH 33/39] fix: columns are counted in bytes with the UTF-8
 encoding

---
 crates/tinymist-analysis/src/location.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/tinymist-analysis/src/location.rs b/crates/tinymist-analysis/src/location.rs
index a775ad4..44d73c0 100644
--- a/crates/tinymist-analysis/src/location.rs
+++ b/crates/tinymist-analysis/src/location.rs
@@ -80,9 +80,14 @@ pub fn to_typst_position(
 
     match lsp_position_encoding {
         PositionEncoding::Utf8 => {
-            let line_index = lsp_position.line as usize;
-            let column_index = lsp_position.character as usize;
-            typst_source.line_column_to_byte(line_index, column_index)
+            let line = typst_source.line_to_range(lsp_position.line as usize)?;
+            let line_text = typst_source.get(line.clone())?;
+
+            let mut column_index = (lsp_position.character as usize).min(line_text.len());
+            while !line_text.is_char_boundary(column_index) {
+                column_index -= 1;
+            }
+            Some(line.start + column_index)
         }
         PositionEncoding::Utf16 => {
             // We have a line number and a UTF-16 offset into that line. We want a byte
@@ -126,11 +131,11 @@ pub fn to_lsp_position(
     }
 
     let line_index = typst_source.byte_to_line(typst_offset).unwrap();
-    let column_index = typst_source.byte_to_column(typst_offset).unwrap();
+    let byte_line_offset = typst_source.line_to_byte(line_index).unwrap();
 
     let lsp_line = line_index as u32;
     let lsp_column = match lsp_position_encoding {
-        PositionEncoding::Utf8 => column_index as u32,
+        PositionEncoding::Utf8 => (typst_offset - byte_line_offset) as u32,
         PositionEncoding::Utf16 => {
             // See the implementation of `position_to_offset` for discussion
             // relevant to this function.
@@ -141,7 +146,6 @@ pub fn to_lsp_position(
 
             let utf16_offset = typst_source.byte_to_utf16(typst_offset).unwrap();
 
-            let byte_line_offset = typst_source.line_to_byte(line_index).unwrap();
             let utf16_line_offset = typst_source.byte_to_utf16(byte_line_offset).unwrap();
 
             let utf16_column_offset = utf16_offset - utf16_line_offset;
-- 
2.43.0


From 667e209858fa5776865c069725934af1e8349399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 34/39] fix: a position past the end of its line is that end

---
 crates/tinymist-analysis/src/location.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-analysis/src/location.rs b/crates/tinymist-analysis/src/location.rs
index 44d73c0..b4aeff8 100644
--- a/crates/tinymist-analysis/src/location.rs
+++ b/crates/tinymist-analysis/src/location.rs
@@ -78,11 +78,14 @@ pub fn to_typst_position(
         return Some(typst_source.len_bytes());
     }
 
+    let line = typst_source.line_to_range(lsp_position.line as usize)?;
+    let line_text = typst_source.get(line.clone())?;
+    // A character past the end of the line defaults back to the line length.
+    let line_text = line_text.strip_suffix('\n').unwrap_or(line_text);
+    let line_text = line_text.strip_suffix('\r').unwrap_or(line_text);
+
     match lsp_position_encoding {
         PositionEncoding::Utf8 => {
-            let line = typst_source.line_to_range(lsp_position.line as usize)?;
-            let line_text = typst_source.get(line.clone())?;
-
             let mut column_index = (lsp_position.character as usize).min(line_text.len());
             while !line_text.is_char_boundary(column_index) {
                 column_index -= 1;
@@ -108,12 +111,13 @@ pub fn to_typst_position(
             // we need   here. Submit a PR against `typst` to add it, then
             // update this if/when merged.
 
-            let line_index = lsp_position.line as usize;
-            let utf16_offset_in_line = lsp_position.character as usize;
+            let utf16_line_offset = typst_source.byte_to_utf16(line.start)?;
+            let utf16_offset = utf16_line_offset + lsp_position.character as usize;
 
-            let byte_line_offset = typst_source.line_to_byte(line_index)?;
-            let utf16_line_offset = typst_source.byte_to_utf16(byte_line_offset)?;
-            let utf16_offset = utf16_line_offset + utf16_offset_in_line;
+            let line_end = line.start + line_text.len();
+            if utf16_offset >= typst_source.byte_to_utf16(line_end)? {
+                return Some(line_end);
+            }
 
             typst_source.utf16_to_byte(utf16_offset)
         }
-- 
2.43.0


From 3cede169243d783339bd2e53e55fa708fd14e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:06 +0000
Subject: [PATCH 35/39] fix: the name of an untitled document is
 percent-encoded in its URL

---
 crates/tinymist-query/src/lsp_typst_boundary.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/tinymist-query/src/lsp_typst_boundary.rs b/crates/tinymist-query/src/lsp_typst_boundary.rs
index 912f4ff..73fbd3c 100644
--- a/crates/tinymist-query/src/lsp_typst_boundary.rs
+++ b/crates/tinymist-query/src/lsp_typst_boundary.rs
@@ -13,11 +13,25 @@ pub type LspRange = lsp_types::Range;
 pub use tinymist_analysis::location::*;
 
 const UNTITLED_ROOT: &str = "/untitled";
+/// The characters that are not literal in the path of a URL.
+const UNTITLED_PATH: &percent_encoding::AsciiSet = &percent_encoding::CONTROLS
+    .add(b' ')
+    .add(b'"')
+    .add(b'#')
+    .add(b'%')
+    .add(b'<')
+    .add(b'>')
+    .add(b'?')
+    .add(b'`')
+    .add(b'{')
+    .add(b'}');
 static EMPTY_URL: LazyLock<Url> = LazyLock::new(|| Url::parse("file://").unwrap());
 
 /// Convert a path to a URL.
 pub fn untitled_url(path: &Path) -> anyhow::Result<Url> {
-    Ok(Url::parse(&format!("untitled:{}", path.display()))?)
+    let path = path.display().to_string();
+    let path = percent_encoding::utf8_percent_encode(&path, UNTITLED_PATH);
+    Ok(Url::parse(&format!("untitled:{path}"))?)
 }
 
 /// Convert a path to a URL.
-- 
2.43.0


From a2261b171ce31bcf33c953bee99d6cddb41a056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:16 +0000
Subject: [PATCH 36/39] fix: read back resource paths that contain colons

---
 crates/tinymist-task/src/primitives.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index e1ba2ad..955aa69 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -270,14 +270,9 @@ impl FromStr for ResourcePath {
     type Err = &'static str;
 
     fn from_str(value: &str) -> Result<Self, Self::Err> {
-        let mut parts = value.split(':');
-        let scheme = parts.next().ok_or("missing scheme")?;
-        let path = parts.next().ok_or("missing path")?;
-        if parts.next().is_some() {
-            Err("too many colons")
-        } else {
-            Ok(ResourcePath(scheme.into(), path.to_string()))
-        }
+        // The path itself may contain colons.
+        let (scheme, path) = value.split_once(':').ok_or("missing path")?;
+        Ok(ResourcePath(scheme.into(), path.to_string()))
     }
 }
 
-- 
2.43.0


From 1ca6f00cbf64871e1c25da16d3026c655972cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:23 +0000
Subject: [PATCH 37/39] fix: a lock file's paths are relative to the directory
 it is in

---
 crates/tinymist-project/src/lock.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-project/src/lock.rs b/crates/tinymist-project/src/lock.rs
index 74cd273..9df7d75 100644
--- a/crates/tinymist-project/src/lock.rs
+++ b/crates/tinymist-project/src/lock.rs
@@ -242,13 +242,18 @@ impl LockFileUpdate {
         let id = Id::from_world(world)?;
 
         let root = ResourcePath::from_user_sys(Path::new("."));
-        let main = ResourcePath::from_user_sys(world.path_for_id(world.main()).ok()?.as_path());
+        // The paths in a lock file are relative to the directory it is in.
+        let lock_rel = |path: &Path| match tinymist_std::path::diff(path, &self.root) {
+            Some(path) => ResourcePath::from_user_sys(&path),
+            None => ResourcePath::from_user_sys(path),
+        };
+        let main = lock_rel(world.path_for_id(world.main()).ok()?.as_path());
 
         let font_resolver = &world.font_resolver;
         let font_paths = font_resolver
             .font_paths()
             .iter()
-            .map(|p| ResourcePath::from_user_sys(p))
+            .map(|p| lock_rel(p))
             .collect::<Vec<_>>();
 
         // let system_font = font_resolver.system_font();
-- 
2.43.0


From 099475222855e624f32f4ec8509d3da280b66d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:05 +0000
Subject: [PATCH 38/39] fix: an output path pattern's variables are replaced at
 once, and $dir/ is never the file system's root

---
 crates/tinymist-task/src/primitives.rs | 27 ++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/tinymist-task/src/primitives.rs b/crates/tinymist-task/src/primitives.rs
index 955aa69..af74600 100644
--- a/crates/tinymist-task/src/primitives.rs
+++ b/crates/tinymist-task/src/primitives.rs
@@ -157,13 +157,28 @@ impl PathPattern {
         let w = root.to_string_lossy();
         let f = file_name.to_string_lossy();
 
-        // replace all $root
-        let mut path = self.0.replace("$root", &w);
-        if let Some(dir) = dir {
-            let d = dir.to_string_lossy();
-            path = path.replace("$dir", &d);
+        // A file directly in the root is in the directory `.`, so that `$dir/` doesn't
+        // become `/`.
+        let d = match dir {
+            Some(dir) if !dir.as_os_str().is_empty() => dir.to_string_lossy(),
+            _ => ".".into(),
+        };
+
+        // Replaces all variables at once, as their values may contain dollars, too.
+        let vars = [("$root", w), ("$dir", d), ("$name", f)];
+        let mut path = String::new();
+        let mut rest = self.0.as_str();
+        while let Some(at) = rest.find('$') {
+            path.push_str(&rest[..at]);
+            rest = &rest[at..];
+            let (skip, value) = vars
+                .iter()
+                .find(|(var, _)| rest.starts_with(var))
+                .map_or((1, "$"), |(var, value)| (var.len(), value.as_ref()));
+            path.push_str(value);
+            rest = &rest[skip..];
         }
-        path = path.replace("$name", &f);
+        path.push_str(rest);
 
         Some(Path::new(path.as_str()).clean().into())
     }
-- 
2.43.0


From 8b8415df49fd078681d16b915f5074c27c01ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:05 +0000
Subject: [PATCH 39/39] fix: the root of a document outside of the workspace is
 the same when asked for again

---
 crates/tinymist-project/src/entry.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tinymist-project/src/entry.rs b/crates/tinymist-project/src/entry.rs
index 8ca75c0..478276e 100644
--- a/crates/tinymist-project/src/entry.rs
+++ b/crates/tinymist-project/src/entry.rs
@@ -64,11 +64,11 @@ impl EntryResolver {
             match typst_toml_cache.get(entry).map(|r| r.clone()) {
                 // In the case that the file is out of workspace, it is believed to not edited
                 // frequently. When we check the package root of such files and didn't find it
-                // previously, we quickly return None to avoid heavy IO frequently.
+                // previously, we quickly return the same as then to avoid heavy IO frequently.
                 //
                 // todo: we avoid heavy io for the case when no root is set, but people should
                 // restart the server to refresh the cache
-                Some(None) => return None,
+                Some(None) => return entry.parent().map(ImmutPath::from),
                 Some(Some(cached)) => {
                     let cached = cached.clone();
                     if cached.join("typst.toml").exists() {
-- 
2.43.0

