From b43c3b7b0d5e12ba67dd119d2bdb7fd4d395c98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 01/29] fix: rekey: sync the data and key file before erasing
 the log

A power loss after a successful rekey could lose the new key file and
the new spill records although the log was already gone.
---
 include/nudb/impl/rekey.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 82cebf5..19fba80 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -235,6 +235,14 @@ rekey(
             return;
     }
     dw.flush(ec);
+    if(ec)
+        return;
+    // The log is what makes an interrupted rekey recoverable,
+    // everything must be on disk before it is removed.
+    df.sync(ec);
+    if(ec)
+        return;
+    kf.sync(ec);
     if(ec)
         return;
     lf.close();
-- 
2.43.0


From 7efab4d24565eda1a5e0738fdd921c1648420522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 02/29] fix: rekey: always create at least one bucket

With an item count of zero the key file had no bucket, it could not be
opened and every key was lost from the index.
---
 include/nudb/impl/rekey.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 19fba80..c3b22e5 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -83,9 +83,10 @@ rekey(
     kh.block_size = blockSize;
     kh.load_factor = std::min<std::size_t>(
         static_cast<std::size_t>(65536.0f * loadFactor), 65535);
-    kh.buckets = static_cast<std::size_t>(
-        std::ceil(itemCount /(
-            bucket_capacity(kh.block_size) * loadFactor)));
+    kh.buckets = std::max<std::size_t>(1,
+        static_cast<std::size_t>(
+            std::ceil(itemCount /(
+                bucket_capacity(kh.block_size) * loadFactor))));
     kh.modulus = ceil_pow2(kh.buckets);
     // Create key file
     File kf{args...};
-- 
2.43.0


From 1998de02ba125522c9f56e1c60cb5f3bddcfa3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 03/29] fix: recover: make the rollback of a rekey restartable

The key file was erased before the log. A crash in between left a log
without a key file, which neither recover nor rekey nor open accepts.
---
 include/nudb/impl/recover.ipp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index e449c36..35c7fe4 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -77,6 +77,7 @@ recover(
     }
 
     // Open log file
+    bool eraseKey = false;
     File lf{args...};
     lf.open(file_mode::append, log_path, ec);
     if(ec == errc::no_such_file_or_directory)
@@ -104,7 +105,10 @@ recover(
     if(ec)
         return;
     if(lh.key_file_size == 0)
+    {
+        eraseKey = true;
         goto trunc_files;
+    }
     {
         // Read key file header
         key_file_header kh;
@@ -186,8 +190,13 @@ trunc_files:
     }
     else
     {
-        kf.close();
-        File::erase(key_path, ec);
+        // Make the partial key file unusable, then remove the
+        // log and last the key file. An interruption at any point
+        // leaves files from which recovery can be run again.
+        kf.trunc(0, ec);
+        if(ec)
+            return;
+        kf.sync(ec);
         if(ec)
             return;
     }
@@ -202,6 +211,13 @@ clear_log:
     File::erase(log_path, ec);
     if(ec)
         return;
+    if(eraseKey)
+    {
+        kf.close();
+        File::erase(key_path, ec);
+        if(ec)
+            return;
+    }
 }
 
 } // nudb
-- 
2.43.0


From 14e7d91e5e0bd2e8daac3b5c06c00679a2991e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 04/29] fix: visit: report a data record that cannot be read

A short or failed read of the record was followed by a callback on an
empty stream.
---
 include/nudb/impl/visit.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nudb/impl/visit.ipp b/include/nudb/impl/visit.ipp
index 4d57b95..60af810 100644
--- a/include/nudb/impl/visit.ipp
+++ b/include/nudb/impl/visit.ipp
@@ -68,6 +68,8 @@ visit(
             is = r.prepare(
                 dh.key_size +           // Key
                 size, ec);              // Data
+            if(ec)
+                return;
             std::uint8_t const* const key =
                 is.data(dh.key_size);
             callback(key, dh.key_size,
-- 
2.43.0


From f1f48e3d322cbf6d7cf1d4adfb72f47f3ed5b866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 05/29] fix: recover: report read errors and oversized buckets
 in the log

A failed read of a log record was ignored and the previous bucket was
written in its place. A bucket count above the capacity overflowed the
buffer.
---
 include/nudb/detail/bucket.hpp | 5 +++++
 include/nudb/impl/recover.ipp  | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/nudb/detail/bucket.hpp b/include/nudb/detail/bucket.hpp
index 8a8efbf..4f96fcd 100644
--- a/include/nudb/detail/bucket.hpp
+++ b/include/nudb/detail/bucket.hpp
@@ -378,6 +378,11 @@ read(bulk_reader<File>& r, error_code& ec)
         return;
     detail::read<std::uint16_t>(is, size_); // Count
     detail::read<uint48_t>(is, spill_);     // Spill
+    if(size_ > bucket_capacity(block_size_))
+    {
+        ec = error::invalid_bucket_size;
+        return;
+    }
     update();
     // Excludes empty bucket entries
     auto const w = size_ * (
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 35c7fe4..cd59e8f 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -157,12 +157,14 @@ recover(
                 ec = {};
                 break;
             }
+            if(ec)
+                return;
             if(b.spill() && b.spill() + bucketSize > dataFileSize)
             {
                 ec = error::invalid_log_spill;
                 return;
             }
-            if(n > kh.buckets)
+            if(n >= kh.buckets)
             {
                 ec = error::invalid_log_index;
                 return;
-- 
2.43.0


From 3c9ed2947cc4e2fcd5a7ae11c93e87d5ce1ec5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 06/29] fix: recover: refuse the rekey log of another database

The data file was truncated to the size found in a log that does not
belong to it.
---
 include/nudb/impl/recover.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index cd59e8f..d086a6a 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -106,6 +106,14 @@ recover(
         return;
     if(lh.key_file_size == 0)
     {
+        if(lh.uid != dh.uid)
+            ec = error::uid_mismatch;
+        else if(lh.appnum != dh.appnum)
+            ec = error::appnum_mismatch;
+        else if(lh.key_size != dh.key_size)
+            ec = error::key_size_mismatch;
+        if(ec)
+            return;
         eraseKey = true;
         goto trunc_files;
     }
-- 
2.43.0


From 1f3b38ecd5cdfe339eb1548dc6d86a5d0beb1b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 07/29] fix: create: never produce a database that cannot be
 opened

A key size that does not fit its field was truncated and a tiny load
factor was stored as zero, which open rejects. The overload without uid
ignored the File type.
---
 include/nudb/impl/create.ipp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index ee560c6..3881a4c 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -63,7 +63,8 @@ create(
         "File requirements not met");
 
     using namespace detail;
-    if(key_size < 1)
+    if(key_size < 1 ||
+        key_size > field<std::uint16_t>::max)
     {
         ec = error::invalid_key_size;
         return;
@@ -118,9 +119,10 @@ create(
         kh.salt = salt;
         kh.pepper = pepper<Hasher>(salt);
         kh.block_size = blockSize;
-        kh.load_factor = std::min<std::size_t>(
-            static_cast<std::size_t>(
-                65536.0f * load_factor), 65535);
+        kh.load_factor = std::max<std::size_t>(1,
+            std::min<std::size_t>(
+                static_cast<std::size_t>(
+                    65536.0f * load_factor), 65535));
         write(df, dh, ec);
         if(ec)
             goto fail;
@@ -173,7 +175,7 @@ create(
     error_code& ec,
     Args&&... args)
 {
-    create<Hasher>(dat_path, key_path, log_path,
+    create<Hasher, File>(dat_path, key_path, log_path,
             appnum, make_uid(), salt, key_size, blockSize,
             load_factor, ec, args...);
 }
-- 
2.43.0


From f40900d9dd83ad3be305393cd1ebb3e2e3b66c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 08/29] fix: basic_store: do not commit again after a failed
 commit

flush and close wrote later inserts on top of the files of a failed
commit, so later inserts could survive while earlier ones were lost, and
changed the reported error while other threads read it.
---
 include/nudb/impl/basic_store.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 8d61a95..4de3654 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -196,7 +196,7 @@ close(error_code& ec)
     {
         open_ = false;
         ctx_->erase(*this);
-        if(! s_->p1.empty())
+        if(! ecb_ && ! s_->p1.empty())
         {
             std::size_t work;
             detail::unique_lock_type m{m_};
@@ -765,6 +765,10 @@ flush()
 #if NUDB_DEBUG_LOG
     beast::unit_test::dstream dout{std::cout};
 #endif
+    // After a failed commit the files are left
+    // alone until recovery has rolled them back.
+    if(ecb_)
+        return;
     {
         unique_lock_type m{m_};
         s_->when = clock_type::now();
-- 
2.43.0


From 0f7f7570bdf43086137cdd2c2695ad4d74d42608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 09/29] fix: basic_store: release the files when close reports
 an error

The descriptors and the memory stayed allocated until the store was
opened again or destroyed.
---
 include/nudb/impl/basic_store.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 4de3654..4cbbaff 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -204,13 +204,14 @@ close(error_code& ec)
             if (ec_)
                 ecb_.store(true);
         }
+        // Release files and memory in all cases
+        s_->lf.close();
+        state s{std::move(*s_)};
         if(ecb_)
         {
             ec = ec_;
             return;
         }
-        s_->lf.close();
-        state s{std::move(*s_)};
         File::erase(s.lp, ec_);
         if(ec_)
             ec = ec_;
-- 
2.43.0


From 4690ef98e55a325a706c3eadc6b54f088bd470d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 10/29] fix: basic_store: leave no log file behind when open
 fails

---
 include/nudb/impl/basic_store.ipp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 4cbbaff..1c8ae07 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -144,11 +144,6 @@ open(
     kf.open(file_mode::write, key_path, ec);
     if(ec)
         return;
-    lf.create(file_mode::append, log_path, ec);
-    if(ec)
-        return;
-    // VFALCO TODO Erase empty log file if this
-    //             function subsequently fails.
     dat_file_header dh;
     read(df, dh, ec);
     if(ec)
@@ -164,6 +159,11 @@ open(
     if(ec)
         return;
     verify<Hasher>(dh, kh, ec);
+    if(ec)
+        return;
+    // Last, so that no log file is
+    // left behind when open fails.
+    lf.create(file_mode::append, log_path, ec);
     if(ec)
         return;
     boost::optional<state> s;
-- 
2.43.0


From ff359f29b7be564cba1d26dd89aee320f0437b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 11/29] fix: basic_store: turn an allocation failure during
 commit into an error

The exception ended the process on a context thread. On a manual flush it
left the store in the intermediate state, so that close waited forever.
---
 include/nudb/impl/basic_store.ipp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 1c8ae07..d042c51 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -13,6 +13,7 @@
 #include <boost/assert.hpp>
 #include <cmath>
 #include <memory>
+#include <new>
 
 #ifndef NUDB_DEBUG_LOG
 #define NUDB_DEBUG_LOG 0
@@ -200,7 +201,14 @@ close(error_code& ec)
         {
             std::size_t work;
             detail::unique_lock_type m{m_};
-            commit(m, work, ec_);
+            try
+            {
+                commit(m, work, ec_);
+            }
+            catch(std::bad_alloc const&)
+            {
+                ec_ = make_error_code(errc::not_enough_memory);
+            }
             if (ec_)
                 ecb_.store(true);
         }
@@ -776,7 +784,14 @@ flush()
         if(! s_->p1.empty())
         {
             std::size_t work;
-            commit(m, work, ec_);
+            try
+            {
+                commit(m, work, ec_);
+            }
+            catch(std::bad_alloc const&)
+            {
+                ec_ = make_error_code(errc::not_enough_memory);
+            }
             if(ec_)
             {
                 ecb_.store(true);
-- 
2.43.0


From b96b06535b6a5b53dc370c494d922dd0a1d58d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:18 +0000
Subject: [PATCH 12/29] fix: verify: accept every spill record a legal history
 can leave

The fast algorithm rejected the spill records of small block sizes and
summed the size of an unrelated bucket, and both rejected the records
left behind by a rekey to another block size.
---
 include/nudb/impl/verify.ipp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index b10b3e6..c66a293 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -24,6 +24,17 @@ namespace nudb {
 
 namespace detail {
 
+// Returns `true` for the size of a full bucket of any block size.
+// Spill records written before a rekey keep their size.
+inline
+bool
+valid_spill_size(std::size_t size)
+{
+    return size >= bucket_size(1) &&
+        (size - bucket_size(0)) %
+            (bucket_size(1) - bucket_size(0)) == 0;
+}
+
 // Normal verify that does not require a buffer
 //
 template<
@@ -155,14 +166,12 @@ verify_normal(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);  // Size
-                if(size != info.bucket_size)
+                if(! valid_spill_size(size))
                 {
                     ec = error::invalid_spill_size;
                     return;
                 }
-                if(ec)
-                    return;
-                b.read(r, ec);                  // Bucket
+                r.prepare(size, ec);            // Bucket
                 if(ec == error::short_read)
                 {
                     ec = error::short_spill;
@@ -174,7 +183,7 @@ verify_normal(
                 info.spill_bytes_tot +=
                     field<uint48_t>::size +     // Zero
                     field<uint16_t>::size +     // Size
-                    b.actual_size();            // Bucket
+                    size;                       // Bucket
             }
             progress(work + offset, nwork);
         }
@@ -469,8 +478,7 @@ verify_fast(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);      // Size
-                if(bucket_size(
-                    bucket_capacity(size)) != size)
+                if(! valid_spill_size(size))
                 {
                     ec = error::invalid_spill_size;
                     return;
@@ -489,7 +497,7 @@ verify_fast(
                     info.spill_bytes_tot +=
                         field<uint48_t>::size +     // Zero
                         field<uint16_t>::size +     // Size
-                        tmp.actual_size();          // Bucket
+                        size;                       // Bucket
                 }
             }
             progress(work + offset, nwork);
-- 
2.43.0


From 3745973eb49b9dc9574662e897c138e184888463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:17 +0000
Subject: [PATCH 13/29] fix: rekey: clear the log before erasing it

The removal of a file is not durable by itself. When a power loss brought
the log back, recovery rolled the successful rekey back and erased the key
file.
---
 include/nudb/impl/rekey.ipp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index c3b22e5..937f0e7 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -244,6 +244,14 @@ rekey(
     if(ec)
         return;
     kf.sync(ec);
+    if(ec)
+        return;
+    // An empty log is ignored if the
+    // removal does not reach the disk.
+    lf.trunc(0, ec);
+    if(ec)
+        return;
+    lf.sync(ec);
     if(ec)
         return;
     lf.close();
-- 
2.43.0


From fc52accf2bb3c3cb4c1b005e1bffa640e6380e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 14/29] fix: visit, verify, rekey: a damaged record size ends
 in an error

A size field with more than 32 bits tripped an assertion, or was silently
truncated in release builds so that part of a record was taken for all of it.
---
 include/nudb/detail/field.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nudb/detail/field.hpp b/include/nudb/detail/field.hpp
index e3101b1..7265095 100644
--- a/include/nudb/detail/field.hpp
+++ b/include/nudb/detail/field.hpp
@@ -171,8 +171,9 @@ read_size48(istream& is, std::size_t& u)
 {
     std::uint64_t v;
     read<uint48_t>(is, v);
-    BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
-    u = static_cast<std::uint32_t>(v);
+    // A damaged file can hold any value here. Keep all of
+    // it, so that the caller finds the record too long.
+    u = static_cast<std::size_t>(v);
 }
 
 // write field to ostream
-- 
2.43.0


From e50ac1c92982dd0812b86f653eb08c74b6e159a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 15/29] fix: verify: the fast algorithm checks the size in
 index entries

---
 include/nudb/impl/verify.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index c66a293..2b47133 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -435,7 +435,14 @@ verify_fast(
                         if(item.hash != h)
                             break;
                         if(item.offset == offset)
+                        {
+                            if(item.size != size)
+                            {
+                                ec = error::size_mismatch;
+                                return;
+                            }
                             goto found;
+                        }
                         ++fetches;
                     }
                     auto const spill = b.spill();
-- 
2.43.0


From 4bdf48311d87230130e90a603bbad838c6244a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 16/29] fix: verify: the fast algorithm rejects an oversized
 bucket

An item count larger than the capacity made it read past its buffer.
---
 include/nudb/impl/verify.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 2b47133..157f182 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -353,6 +353,11 @@ verify_fast(
         {
             bucket b{kh.block_size,
                 buf.get() + i * kh.block_size};
+            if(b.size() > kh.capacity)
+            {
+                ec = error::invalid_bucket_size;
+                return;
+            }
             nkeys[i] = b.size();
             std::size_t nspill = 0;
             auto spill = b.spill();
-- 
2.43.0


From 6746f0dbc5a87ae90822e90f2e4e45d58ab3ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 17/29] fix: verify: report a spill chain that forms a loop

Verification never ended on such a file.
---
 include/nudb/impl/verify.ipp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 157f182..a0f2f1d 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -35,6 +35,15 @@ valid_spill_size(std::size_t size)
             (bucket_size(1) - bucket_size(0)) == 0;
 }
 
+// Returns an upper bound on the number of spill records in a
+// data file. A chain which is longer goes in circles.
+inline
+std::uint64_t
+max_spills(std::uint64_t dat_file_size, nkey_t capacity)
+{
+    return dat_file_size / bucket_size(capacity);
+}
+
 // Normal verify that does not require a buffer
 //
 template<
@@ -83,6 +92,8 @@ verify_normal(
     buffer buf{kh.block_size + dh_len};
     bucket b{kh.block_size, buf.get()};
     std::uint8_t* pd = buf.get() + kh.block_size;
+    auto const maxSpill =
+        max_spills(info.dat_file_size, kh.capacity);
     {
         bulk_reader<File> r{df, dat_file_header::size,
             info.dat_file_size, readSize};
@@ -120,7 +131,7 @@ verify_normal(
                     return;
                 work += kh.block_size;
                 ++fetches;
-                for(;;)
+                for(std::uint64_t nspill = 0;; ++nspill)
                 {
                     for(auto i = b.lower_bound(h);
                         i < b.size(); ++i)
@@ -133,7 +144,7 @@ verify_normal(
                         ++fetches;
                     }
                     auto const spill = b.spill();
-                    if(! spill)
+                    if(! spill || nspill > maxSpill)
                     {
                         ec = error::orphaned_value;
                         return;
@@ -245,7 +256,11 @@ verify_normal(
                 if(ec)
                     return;
                 spill = true;
-                ++nspill;
+                if(++nspill > maxSpill)
+                {
+                    ec = error::invalid_spill_size;
+                    return;
+                }
                 ++info.spill_count;
                 info.spill_bytes +=
                     field<uint48_t>::size + // Zero
@@ -329,6 +344,8 @@ verify_fast(
         passes * info.dat_file_size + info.key_file_size;
     progress(0, nwork);
 
+    auto const maxSpill =
+        max_spills(info.dat_file_size, kh.capacity);
     std::uint64_t fetches = 0;
     buffer buf{(chunkSize + 1) * kh.block_size};
     bucket tmp{kh.block_size,
@@ -373,7 +390,11 @@ verify_fast(
                     return;
                 nkeys[i] += tmp.size();
                 spill = tmp.spill();
-                ++nspill;
+                if(++nspill > maxSpill)
+                {
+                    ec = error::invalid_spill_size;
+                    return;
+                }
                 ++info.spill_count;
                 info.spill_bytes +=
                     field<uint48_t>::size + // Zero
-- 
2.43.0


From 6590a0c7dc0e12fa8dfd8bbab4fbc1efbfdea659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:33 +0000
Subject: [PATCH 18/29] fix: verify: progress never exceeds the total

The total of the normal algorithm is an estimate made from the load
factor. Keep the reported amount from passing it.
---
 include/nudb/impl/verify.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index a0f2f1d..a46c873 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -196,7 +196,7 @@ verify_normal(
                     field<uint16_t>::size +     // Size
                     size;                       // Bucket
             }
-            progress(work + offset, nwork);
+            progress((std::min)(work + offset, nwork), nwork);
         }
         work += info.dat_file_size;
     }
@@ -270,7 +270,7 @@ verify_normal(
             if(nspill >= info.hist.size())
                 nspill = info.hist.size() - 1;
             ++info.hist[nspill];
-            progress(work, nwork);
+            progress((std::min)(work, nwork), nwork);
         }
     }
     float sum = 0;
-- 
2.43.0


From e59d0d41a9809695f9e4bb16f59892176c51ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:32 +0000
Subject: [PATCH 19/29] fix: seconds clock: do not spin at the end of every
 second

The clock thread waited until 900 ms after the start of the current
second. In the last 100 ms of every second that point was in the past,
so the thread polled the clock without sleeping.
---
 include/nudb/_experimental/basic_seconds_clock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/_experimental/basic_seconds_clock.hpp b/include/nudb/_experimental/basic_seconds_clock.hpp
index f78a40a..c317ddc 100644
--- a/include/nudb/_experimental/basic_seconds_clock.hpp
+++ b/include/nudb/_experimental/basic_seconds_clock.hpp
@@ -96,7 +96,7 @@ public:
             clock_type::time_point const when(
                 floor <seconds>(
                     clock_type::now().time_since_epoch()) +
-                        milliseconds(900));
+                        seconds(1));
 
             if(cond_.wait_until(lock, when, [this]{ return stop_; }))
                 return;
-- 
2.43.0


From 771fdc81fed44550238f12d37403e6771175e4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:17 +0000
Subject: [PATCH 20/29] fix: context: calls to flush do not overlap

A call returned at once while another one was flushing a store, although
values inserted before it were not part of that flush.
---
 include/nudb/context.hpp      | 1 +
 include/nudb/impl/context.ipp | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/include/nudb/context.hpp b/include/nudb/context.hpp
index 1e5526f..114dfe9 100644
--- a/include/nudb/context.hpp
+++ b/include/nudb/context.hpp
@@ -137,6 +137,7 @@ private:
         store_base* tail_ = nullptr;
     };
 
+    std::mutex m_flush_; // serializes calls to flush
     std::mutex m_;
     list waiting_;
     std::condition_variable cv_w_;
diff --git a/include/nudb/impl/context.ipp b/include/nudb/impl/context.ipp
index beb7058..a2697ed 100644
--- a/include/nudb/impl/context.ipp
+++ b/include/nudb/impl/context.ipp
@@ -123,6 +123,10 @@ void
 context::
 flush()
 {
+    // A store which another call is flushing could
+    // have received inserts since that flush began.
+    std::lock_guard<std::mutex> flush_lock(m_flush_);
+
     {
         std::lock_guard<std::mutex> lock(m_);
 
-- 
2.43.0


From 2010ec61088629b9ca1c35e86761e74124e0c34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:35 +0000
Subject: [PATCH 21/29] fix: context: stop_all waits for a stop in progress

A call made while another call was stopping the threads returned at once,
with threads still running, although stop_all is documented to block until
all threads have stopped.
---
 include/nudb/impl/context.ipp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/nudb/impl/context.ipp b/include/nudb/impl/context.ipp
index a2697ed..9b3595d 100644
--- a/include/nudb/impl/context.ipp
+++ b/include/nudb/impl/context.ipp
@@ -36,7 +36,15 @@ stop_all()
 {
     std::unique_lock<std::mutex> lock(m_);
     if(stop_)
+    {
+        // Another call is stopping the threads
+        cv_w_.wait(lock,
+            [&]
+            {
+                return ! stop_;
+            });
         return;
+    }
     stop_ = true;
     cv_f_.notify_all();
     cv_w_.notify_all();
@@ -52,6 +60,7 @@ stop_all()
         lock.lock();
     }
     stop_ = false;
+    cv_w_.notify_all();
 }
 
 void
-- 
2.43.0


From 40ac8cf7abf33962d58ccf031dfeb74b5b11de71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:01 +0000
Subject: [PATCH 22/29] fix: recover: report a log record with an index above
 32 bits

It failed an assertion instead of being reported as invalid_log_index.
---
 include/nudb/impl/recover.ipp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index d086a6a..5ef3167 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -151,14 +151,9 @@ recover(
             }
             if(ec)
                 return;
-            nsize_t n;
-            {
-                std::uint64_t v;
-                // VFALCO This should have been a uint32_t
-                read<std::uint64_t>(is, v); // Index
-                BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
-                n = static_cast<nsize_t>(v);
-            }
+            // VFALCO This should have been a uint32_t
+            std::uint64_t n;
+            read<std::uint64_t>(is, n);     // Index
             b.read(r, ec);                  // Bucket
             if(ec == error::short_read)
             {
-- 
2.43.0


From f8519ac9d83b9791d8fec1fd7a494f21a3bc0499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:01 +0000
Subject: [PATCH 23/29] fix: create: refuse a load factor that is not a number

---
 include/nudb/impl/create.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index 3881a4c..96ceb03 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -74,7 +74,7 @@ create(
         ec = error::invalid_block_size;
         return;
     }
-    if(load_factor <= 0.f || load_factor >= 1.f)
+    if(! (load_factor > 0.f && load_factor < 1.f))
     {
         ec = error::invalid_load_factor;
         return;
-- 
2.43.0


From baab7721c39e7224b6dd886098b4923f47d48023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:01 +0000
Subject: [PATCH 24/29] fix: rekey: refuse invalid block sizes and load factors

A block size which does not fit the header field or a bucket, and a load
factor of zero or less, overflowed a buffer or gave a key file that could
not be opened, with success reported.
---
 include/nudb/impl/rekey.ipp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 937f0e7..24a59fb 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -44,6 +44,17 @@ rekey(
     static_assert(is_Progress<Progress>::value,
         "Progress requirements not met");
     using namespace detail;
+    if(blockSize > field<std::uint16_t>::max ||
+        bucket_capacity(static_cast<nsize_t>(blockSize)) < 1)
+    {
+        ec = error::invalid_block_size;
+        return;
+    }
+    if(! (loadFactor > 0.f))
+    {
+        ec = error::invalid_load_factor;
+        return;
+    }
     auto const readSize = 1024 * block_size(dat_path);
     auto const writeSize = 16 * block_size(key_path);
 
@@ -81,8 +92,9 @@ rekey(
     kh.salt = make_salt();
     kh.pepper = pepper<Hasher>(kh.salt);
     kh.block_size = blockSize;
-    kh.load_factor = std::min<std::size_t>(
-        static_cast<std::size_t>(65536.0f * loadFactor), 65535);
+    kh.load_factor = std::max<std::size_t>(1,
+        std::min<std::size_t>(
+            static_cast<std::size_t>(65536.0f * loadFactor), 65535));
     kh.buckets = std::max<std::size_t>(1,
         static_cast<std::size_t>(
             std::ceil(itemCount /(
-- 
2.43.0


From fbf722d78fab8e7bb861c5c37ecb30094c92480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:36 +0000
Subject: [PATCH 25/29] fix: posix_file: report a failed posix_fadvise and
 leave no file behind

---
 include/nudb/impl/posix_file.ipp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/nudb/impl/posix_file.ipp b/include/nudb/impl/posix_file.ipp
index cb33b82..ea23b60 100644
--- a/include/nudb/impl/posix_file.ipp
+++ b/include/nudb/impl/posix_file.ipp
@@ -64,8 +64,14 @@ create(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // The error is returned, errno is not set
+    auto const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        ::unlink(path.c_str());
+        return err(ev, ec);
+    }
 #endif
 }
 
@@ -80,8 +86,13 @@ open(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // The error is returned, errno is not set
+    auto const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        return err(ev, ec);
+    }
 #endif
 }
 
-- 
2.43.0


From 101bb1a1f543a6d27ee299066a50cc8aa3c2a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:54 +0000
Subject: [PATCH 26/29] fix: create: remove the files when memory runs out

---
 include/nudb/impl/create.ipp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index 96ceb03..eecc45d 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -89,6 +89,17 @@ create(
     bool edf = false;
     bool ekf = false;
     bool elf = false;
+    auto const cleanup =
+        [&]
+        {
+            if(edf)
+                erase_file(dat_path);
+            if(ekf)
+                erase_file(key_path);
+            if(elf)
+                erase_file(log_path);
+        };
+    try
     {
         File df(args...);
         File kf(args...);
@@ -148,13 +159,13 @@ create(
         // Success
         return;
     }
+    catch(...)
+    {
+        cleanup();
+        throw;
+    }
 fail:
-    if(edf)
-        erase_file(dat_path);
-    if(ekf)
-        erase_file(key_path);
-    if(elf)
-        erase_file(log_path);
+    cleanup();
 }
 
 template<
-- 
2.43.0


From 7adaea0b7e26f26cd00aac793e825b50e4ac4faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:03 +0000
Subject: [PATCH 27/29] fix: erase_file, create, recover: erase through the
 File type

---
 include/nudb/impl/create.ipp  | 6 +++---
 include/nudb/impl/recover.ipp | 2 +-
 include/nudb/native_file.hpp  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index eecc45d..513d1f4 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -93,11 +93,11 @@ create(
         [&]
         {
             if(edf)
-                erase_file(dat_path);
+                erase_file<File>(dat_path);
             if(ekf)
-                erase_file(key_path);
+                erase_file<File>(key_path);
             if(elf)
-                erase_file(log_path);
+                erase_file<File>(log_path);
         };
     try
     {
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 5ef3167..a6a0a62 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -66,7 +66,7 @@ recover(
     if(keyFileSize <= key_file_header::size)
     {
         kf.close();
-        erase_file(log_path, ec);
+        erase_file<File>(log_path, ec);
         if(ec)
             return;
         File::erase(key_path, ec);
diff --git a/include/nudb/native_file.hpp b/include/nudb/native_file.hpp
index 241119a..13cb885 100644
--- a/include/nudb/native_file.hpp
+++ b/include/nudb/native_file.hpp
@@ -46,7 +46,7 @@ inline
 void
 erase_file(path_type const& path, error_code& ec)
 {
-    native_file::erase(path, ec);
+    File::erase(path, ec);
     if(ec == errc::no_such_file_or_directory)
         ec = {};
 }
-- 
2.43.0


From cbf9314ede34045f9b360e51076c7944781e3aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:32 +0000
Subject: [PATCH 28/29] fix: posix_file: retry an interrupted open

open(2) can fail with EINTR on network and user space file systems, like
the other calls this class already retries.
---
 include/nudb/impl/posix_file.ipp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/posix_file.ipp b/include/nudb/impl/posix_file.ipp
index ea23b60..4d0d9e4 100644
--- a/include/nudb/impl/posix_file.ipp
+++ b/include/nudb/impl/posix_file.ipp
@@ -60,7 +60,9 @@ create(file_mode mode, path_type const& path, error_code& ec)
 {
     auto const result = flags(mode);
     BOOST_ASSERT(! is_open());
-    fd_ = ::open(path.c_str(), result.first | O_CREAT | O_EXCL, 0644);
+    do
+        fd_ = ::open(path.c_str(), result.first | O_CREAT | O_EXCL, 0644);
+    while(fd_ == -1 && errno == EINTR);
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
@@ -82,7 +84,9 @@ open(file_mode mode, path_type const& path, error_code& ec)
 {
     BOOST_ASSERT(! is_open());
     auto const result = flags(mode);
-    fd_ = ::open(path.c_str(), result.first);
+    do
+        fd_ = ::open(path.c_str(), result.first);
+    while(fd_ == -1 && errno == EINTR);
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-- 
2.43.0


From 287f3091a4950641b492e69687ace69549c52f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:53 +0000
Subject: [PATCH 29/29] fix: context: a thread that arrives during a stop does
 not take part

run() counted the calling thread before it looked at the stop. A thread
that arrived while stop_all was ending was counted as the first one and
left again; a start in between made the new thread a second one, and no
thread moved the databases to the list of those to flush any more.
---
 include/nudb/impl/context.ipp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/nudb/impl/context.ipp b/include/nudb/impl/context.ipp
index 9b3595d..791f163 100644
--- a/include/nudb/impl/context.ipp
+++ b/include/nudb/impl/context.ipp
@@ -67,11 +67,15 @@ void
 context::
 run()
 {
-    bool const first = [&]
+    bool first;
     {
         std::lock_guard<std::mutex> lock(m_);
-        return ++num_threads_ == 1;
-    }();
+        // A thread that arrives during a stop is not counted. Otherwise
+        // no thread would be the first after the context starts again.
+        if(stop_)
+            return;
+        first = ++num_threads_ == 1;
+    }
 
     auto when = clock_type::now();
     for(;;)
-- 
2.43.0

