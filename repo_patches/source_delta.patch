From 85ded937e2ac00e643863d92f79d0a05d996b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 01/12] fix: SkipList::RandomHeight asserted height < 0, so
 every Insert aborted

---
 db/skiplist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/skiplist.h b/db/skiplist.h
index 9b17dd4..bb4cc5a 100644
--- a/db/skiplist.h
+++ b/db/skiplist.h
@@ -246,7 +246,7 @@ int SkipList<Key, Comparator>::RandomHeight() {
   while (height < kMaxHeight && ((rnd_.Next() % kBranching) == 0)) {
     height++;
   }
-  assert(height < 0);
+  assert(height > 0);
   assert(height <= kMaxHeight);
   return height;
 }
-- 
2.43.0


From d63ad3d261ec6435db52ff5044af7100b08c1ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 02/12] fix: InMemoryEnv::NewAppendableFile never stored a new
 file under its name

---
 helpers/memenv/memenv.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index cbcd91f..516aad0 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -282,6 +282,7 @@ class InMemoryEnv : public EnvWapper {
     if (file == nullptr) {
       file = new FileState();
       file->Ref();
+      *sptr = file;
     }
     *result = new WritableFileImpl(file);
     return Status::OK();
-- 
2.43.0


From 80090aa71cfa0bf4b4a6cc48ac5db5c62d29d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 03/12] fix: InMemoryEnv::RenameFile deleted a file renamed to
 itself

---
 helpers/memenv/memenv.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 516aad0..035e0d1 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -350,6 +350,9 @@ class InMemoryEnv : public EnvWapper {
     if (file_map_.find(src) == file_map_.end()) {
       return Status::IOError(src, "File not found");
     }
+    if (src == target) {
+      return Status::OK();
+    }
 
     RemoveFileInternal(target);
     file_map_[target] = file_map_[src];
-- 
2.43.0


From b685bee1a157b1abf57362e562db87a3db3353ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 04/12] fix: InMemoryEnv returned IOError, not NotFound, when
 opening a missing file for reading

---
 helpers/memenv/memenv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 035e0d1..8723dff 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -235,7 +235,7 @@ class InMemoryEnv : public EnvWapper {
     MutexLock lock(&mutex_);
     if (file_map_.find(filename) == file_map_.end()) {
       *result = nullptr;
-      return Status::IOError(filename, "File not found");
+      return Status::NotFound(filename, "File not found");
     }
 
     *result = new SequentialFileImpl(file_map_[filename]);
@@ -247,7 +247,7 @@ class InMemoryEnv : public EnvWapper {
     MutexLock lock(&mutex_);
     if (file_map_.find(filename) == file_map_.end()) {
       *result = nullptr;
-      return Status::IOError(filename, "File not found");
+      return Status::NotFound(filename, "File not found");
     }
 
     *result = new RandomAccessFileImpl(file_map_[filename]);
-- 
2.43.0


From 9716a558176217f63b60c69919970c3009f9564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 05/12] fix: a failed second LockFile dropped the holder's
 fcntl lock

---
 util/env_posix.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 509fcf6..06478ed 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -633,16 +633,19 @@ class PosixEnv : public Env {
   Status LockFile(const std::string& filename, FileLock** lock) override {
     *lock = nullptr;
 
-    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
-    if (fd < 0) {
-      return PosixError(filename, errno);
-    }
-
+    // Reserve the name before opening the file: closing any descriptor of a
+    // file drops the fcntl() locks this process holds on it.
     if (!locks_.Insert(filename)) {
-      ::close(fd);
       return Status::IOError("lock " + filename, "already held by process");
     }
 
+    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
+    if (fd < 0) {
+      int open_errno = errno;
+      locks_.Remove(filename);
+      return PosixError(filename, open_errno);
+    }
+
     if (LockOrUnlock(fd, true) == -1) {
       int lock_errno = errno;
       ::close(fd);
-- 
2.43.0


From 039f4f3aae0dcbc5218dd38b12f286b56c9914cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 06/12] fix: UnlockFile released the name before closing the
 descriptor

---
 util/env_posix.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 06478ed..6339dbc 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -665,8 +665,10 @@ class PosixEnv : public Env {
     if (LockOrUnlock(posix_file_lock->fd(), false) == -1) {
       return PosixError("unlock " + posix_file_lock->filename(), errno);
     }
-    locks_.Remove(posix_file_lock->filename());
+    // Close before the name becomes available: a later close() would drop the
+    // fcntl() lock of the next holder in this process.
     ::close(posix_file_lock->fd());
+    locks_.Remove(posix_file_lock->filename());
     delete posix_file_lock;
     return Status::OK();
   }
-- 
2.43.0


From 9e0ab81f56cab8b93448000bac3c02ea2c7a170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 07/12] fix: PosixMmapReadableFile::Read range check overflowed

---
 util/env_posix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 6339dbc..e82c058 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -227,7 +227,7 @@ class PosixMmapReadableFile final : public RandomAccessFile {
 
   Status Read(uint64_t offset, size_t n, Slice* result,
               char* scratch) const override {
-    if (offset + n > length_) {
+    if (offset > length_ || n > length_ - offset) {
       *result = Slice();
       return PosixError(filename_, EINVAL);
     }
-- 
2.43.0


From 58ed6fd0b83d0ac6b58eefab9f7a883a8c76e27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 08/12] fix: Env::NewAppendableFile left *result unset

---
 util/env.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/env.cc b/util/env.cc
index ff7a9b3..6be7b6f 100644
--- a/util/env.cc
+++ b/util/env.cc
@@ -21,6 +21,7 @@ Env::Env() = default;
 Env::~Env() = default;
 
 Status Env::NewAppendableFile(const std::string &filename, WritableFile **result) {
+  *result = nullptr;
   return Status::NotSupported("NewAppendableFile", filename);
 }
 
-- 
2.43.0


From c965977ecac652fe90c712a979e79b1d7883d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 09/12] fix: GetChildren reported success when readdir failed

---
 util/env_posix.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index e82c058..dc43176 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -585,10 +585,16 @@ class PosixEnv : public Env {
       return PosixError(directory_path, errno);
     }
     struct ::dirent* entry;
+    errno = 0;
     while ((entry = ::readdir(dir)) != nullptr) {
       result->emplace_back(entry->d_name);
+      errno = 0;
     }
+    int readdir_errno = errno;
     ::closedir(dir);
+    if (readdir_errno != 0) {
+      return PosixError(directory_path, readdir_errno);
+    }
     return Status::OK();
   }
 
-- 
2.43.0


From de932f4f6b7e8c811313e6cb25c6e9bcae972e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 10/12] fix: PosixSequentialFile::Skip moved backwards for
 distances beyond off_t

---
 util/env_posix.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index dc43176..dd6744a 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -127,6 +127,10 @@ class PosixSequentialFile final : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
+    if (n > static_cast<uint64_t>(std::numeric_limits<off_t>::max())) {
+      // As an off_t the distance would be negative and move backwards.
+      return PosixError(filename_, EINVAL);
+    }
     if (::lseek(fd_, n, SEEK_CUR) == static_cast<off_t>(-1)) {
       return PosixError(filename_, errno);
     }
-- 
2.43.0


From e376a660db744c0be3e1e2cceb6f545a510b7d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:07 +0000
Subject: [PATCH 11/12] fix: clamp the read-only descriptor budget to the range
 of int

---
 util/env_posix.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index dd6744a..1535981 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -794,7 +794,8 @@ int MaxOpenFiles() {
     g_open_read_only_file_limit = std::numeric_limits<int>::max();
   } else {
     // Allow use of 20% of available file descriptors for read-only files.
-    g_open_read_only_file_limit = rlim.rlim_cur / 5;
+    g_open_read_only_file_limit = static_cast<int>(std::min<::rlim_t>(
+        rlim.rlim_cur / 5, std::numeric_limits<int>::max()));
   }
   return g_open_read_only_file_limit;
 }
-- 
2.43.0


From a4c51d99f180b3266f344bf1d9c1892216fceb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:28 +0000
Subject: [PATCH 12/12] fix: memenv SequentialFile::Skip reads the size once,
 so a concurrent truncation cannot make it skip past the end

---
 helpers/memenv/memenv.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 8723dff..7b102be 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -165,10 +165,12 @@ class SequentialFileImpl : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
-    if (pos_ > file_->Size()) {
+    // Another thread may truncate the file: look at its size only once.
+    const uint64_t size = file_->Size();
+    if (pos_ > size) {
       return Status::IOError("pos_ > file_->Slice()");
     }
-    const uint64_t available = file_->Size() - pos_;
+    const uint64_t available = size - pos_;
     if (n > available) {
       n = available;
     }
-- 
2.43.0

