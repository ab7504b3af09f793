From 3f5b1ed9b5aaab9d91dd471a15f75acd6311ff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 01/25] store: let a simulator set the size limits (URKEL_SIM)

---
 src/store.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/store.c b/src/store.c
index 24af568..f31aa08 100644
--- a/src/store.c
+++ b/src/store.c
@@ -34,6 +34,30 @@
 #define CACHE_HASH(k) urkel_murmur3(k, URKEL_HASH_SIZE, 0)
 #define CACHE_EQUAL(a, b) (memcmp(a, b, URKEL_HASH_SIZE) == 0)
 
+#ifdef URKEL_SIM
+/* Deterministic simulation: limits are set at run time (0 = default). */
+extern unsigned long urkel_sim_max_file_size;
+extern unsigned long urkel_sim_max_open_files;
+extern unsigned long urkel_sim_write_buffer;
+extern unsigned long urkel_sim_read_buffer;
+
+static const unsigned long urkel_sim_defaults[4] = {
+  MAX_FILE_SIZE, MAX_OPEN_FILES, WRITE_BUFFER, READ_BUFFER
+};
+
+#define SIM_LIMIT(name, i) \
+  (urkel_sim_##name ? urkel_sim_##name : urkel_sim_defaults[i])
+
+#undef MAX_FILE_SIZE
+#undef MAX_OPEN_FILES
+#undef WRITE_BUFFER
+#undef READ_BUFFER
+#define MAX_FILE_SIZE SIM_LIMIT(max_file_size, 0)
+#define MAX_OPEN_FILES SIM_LIMIT(max_open_files, 1)
+#define WRITE_BUFFER SIM_LIMIT(write_buffer, 2)
+#define READ_BUFFER SIM_LIMIT(read_buffer, 3)
+#endif /* URKEL_SIM */
+
 /*
  * Structs
  */
-- 
2.43.0


From e778be84ac93850074f8b3962934afd28bb3b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 02/25] fix: keep all bits of a value's size when it is saved

Values of 256 bytes or more were stored with the low 8 bits of their
size, so they came back truncated after a commit.
---
 src/nodes.c | 2 +-
 src/nodes.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nodes.c b/src/nodes.c
index 149db46..c428df7 100644
--- a/src/nodes.c
+++ b/src/nodes.c
@@ -201,7 +201,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size) {
+                uint16_t size) {
   urkel_leaf_t *leaf = &node->u.leaf;
 
   CHECK(node->type == URKEL_NODE_LEAF);
diff --git a/src/nodes.h b/src/nodes.h
index 3e4a1b3..0f84491 100644
--- a/src/nodes.h
+++ b/src/nodes.h
@@ -111,7 +111,7 @@ void
 urkel_node_save(urkel_node_t *node,
                 uint16_t index,
                 uint32_t pos,
-                uint8_t size);
+                uint16_t size);
 
 void
 urkel_node_to_hash(const urkel_node_t *node, urkel_node_t *out);
-- 
2.43.0


From 0191b938e8a2ea7d044f68e03d676697cb3b5f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 03/25] fix: do not clear an uninitialised node when a root is
 not found

---
 src/store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index f31aa08..8589bd1 100644
--- a/src/store.c
+++ b/src/store.c
@@ -892,7 +892,8 @@ urkel_store_has_history(data_store_t *store, const unsigned char *root_hash) {
 
   ret = urkel_store_read_history(store, &root, root_hash);
 
-  urkel_node_clear(&root);
+  if (ret)
+    urkel_node_clear(&root);
 
   return ret;
 }
-- 
2.43.0


From 807d39bd9f3cfcbfc6f69f1cf64fa2e4c171d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 04/25] fix: keep commit records aligned when they move to a
 new file

Padding that no longer fits the current file was written to the start
of the next one, in front of the record. Recovery only looks at aligned
offsets: it missed the record and dropped the commit.
---
 src/store.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index 8589bd1..39ae697 100644
--- a/src/store.c
+++ b/src/store.c
@@ -788,7 +788,9 @@ urkel_store_write_meta(data_store_t *store,
   if (slab->file_pos % META_SIZE) {
     size_t size = META_SIZE - (slab->file_pos % META_SIZE);
 
-    urkel_slab_write(slab, padding, size);
+    /* The record itself is moved to the next file, which starts aligned. */
+    if (slab->file_pos + size <= MAX_FILE_SIZE)
+      urkel_slab_write(slab, padding, size);
   }
 
   urkel_meta_write(state, raw, store->key);
-- 
2.43.0


From a1fcaed64fc21842acce6f29fe313954dbc7fa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 05/25] fix: keep the transaction's tree valid when a commit
 fails

---
 src/tree.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f0ec649..debf699 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -553,25 +553,26 @@ urkel_tree_write(tree_db_t *tree, urkel_node_t *node) {
   }
 }
 
-static urkel_node_t *
-urkel_tree_commit(tree_db_t *tree, urkel_node_t *node) {
-  urkel_node_t *root = urkel_tree_write(tree, node);
+static int
+urkel_tree_commit(tree_db_t *tree, urkel_node_t **node) {
+  urkel_node_t *root = urkel_tree_write(tree, *node);
 
+  /* On failure, the caller still owns a valid tree. */
   if (root == NULL) {
-    urkel_node_destroy(node, 1);
     urkel_errno = URKEL_EBADWRITE;
-    return NULL;
+    return 0;
   }
 
+  *node = root;
+
   if (!urkel_store_commit(tree->store, root)) {
-    urkel_node_destroy(root, 0);
     urkel_errno = URKEL_EBADWRITE;
-    return NULL;
+    return 0;
   }
 
   memcpy(tree->hash, root->hash, URKEL_HASH_SIZE);
 
-  return root;
+  return 1;
 }
 
 /*
@@ -1067,20 +1068,17 @@ urkel_tx_prove(tree_tx_t *tx,
 
 int
 urkel_tx_commit(tree_tx_t *tx) {
-  urkel_node_t *root;
+  int ret;
 
   urkel_rwlock_wrlock(tx->lock);
   urkel_rwlock_wrlock(tx->tree->lock);
 
-  root = urkel_tree_commit(tx->tree, tx->root);
-
-  if (root != NULL)
-    tx->root = root;
+  ret = urkel_tree_commit(tx->tree, &tx->root);
 
   urkel_rwlock_wrunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
 
-  return root != NULL;
+  return ret;
 }
 
 /*
-- 
2.43.0


From a6173f0cbbffee1ccfd6a2b28d77e1a28da23eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 06/25] fix: keep appends aligned after a failed write

---
 src/io_posix.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/io_posix.c b/src/io_posix.c
index fd06cb7..b1440b2 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1153,9 +1153,20 @@ urkel_file_pread(const urkel_file_t *file,
 
 int
 urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
+  struct stat st;
+
   if (len == 0)
     return 1;
 
+  /* Drop whatever an earlier failed write left behind. */
+  if (fstat(file->fd, &st) != 0)
+    return 0;
+
+  if ((uint64_t)st.st_size != file->size) {
+    if (ftruncate(file->fd, file->size) != 0)
+      return 0;
+  }
+
 #ifdef HAVE_MMAP
   if (file->base != NULL) {
     if (munmap(file->base, file->size) != 0)
@@ -1174,10 +1185,9 @@ urkel_file_write(urkel_file_t *file, const void *src, size_t len) {
   if (file->mapped) {
     void *base = mmap(NULL, file->size, PROT_READ, MAP_SHARED, file->fd, 0);
 
-    if (base == MAP_FAILED)
-      return 0;
-
-    file->base = base;
+    /* The data is written: fall back to reading through the descriptor. */
+    if (base != MAP_FAILED)
+      file->base = base;
   }
 #endif
 
-- 
2.43.0


From 4861915c5b1e8f8e7b6b2b85e60e667a9c42be43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 07/25] fix: do not delete data files that recovery failed to
 read

---
 src/store.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/store.c b/src/store.c
index 39ae697..3cff20f 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1010,13 +1010,14 @@ urkel_store_find_meta(const data_store_t *store,
                       const char *path,
                       unsigned char *slab) {
   urkel_stat_t st;
-  int ret = 0;
+  int ret = -1;
   int fd;
 
+  /* Returns -1 on a failure: the file may still hold commits. */
   fd = urkel_fs_open(path, URKEL_O_RDWR | URKEL_O_RANDOM, 0);
 
   if (fd == -1)
-    return 0;
+    return -1;
 
   if (!urkel_fs_fstat(fd, &st))
     goto done;
@@ -1040,13 +1041,14 @@ urkel_store_find_meta(const data_store_t *store,
       *off -= META_SIZE;
 
       if (urkel_meta_read(meta, slab + size, store->key)) {
-        urkel_fs_ftruncate(fd, *off + META_SIZE);
-        ret = 1;
+        if (urkel_fs_ftruncate(fd, *off + META_SIZE))
+          ret = 1;
         goto done;
       }
     }
   }
 
+  ret = 0;
 done:
   urkel_fs_close(fd);
   return ret;
@@ -1066,9 +1068,16 @@ urkel_store_recover_state(const data_store_t *store,
   urkel_meta_init(meta);
 
   while (*index >= 1) {
+    int found;
+
     urkel_store_path_index(store, path, *index);
 
-    if (urkel_store_find_meta(store, meta, &off, path, slab)) {
+    found = urkel_store_find_meta(store, meta, &off, path, slab);
+
+    if (found < 0)
+      goto fail;
+
+    if (found) {
       *state = *meta;
       state->meta_ptr.index = *index;
       state->meta_ptr.pos = off;
-- 
2.43.0


From 54ae5e64500e1766e8283d763f63435c4200f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 08/25] fix: never replace or half-create the key of a database

---
 src/io.c    |  5 ++++-
 src/store.c | 43 ++++++++++++++++++++++++++++++++++---------
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/io.c b/src/io.c
index 0741548..66f62f2 100644
--- a/src/io.c
+++ b/src/io.c
@@ -36,7 +36,7 @@ urkel_fs_write_file(const char *name,
                     uint32_t mode,
                     const void *dst,
                     size_t len) {
-  int flags = URKEL_O_WRONLY | URKEL_O_CREAT | URKEL_O_TRUNC;
+  int flags = URKEL_O_WRONLY | URKEL_O_CREAT | URKEL_O_EXCL;
   int fd = urkel_fs_open(name, flags, mode);
   int ret = 0;
 
@@ -46,6 +46,9 @@ urkel_fs_write_file(const char *name,
   if (!urkel_fs_write(fd, dst, len))
     goto fail;
 
+  if (!urkel_fs_fsync(fd))
+    goto fail;
+
   ret = 1;
 fail:
   urkel_fs_close(fd);
diff --git a/src/store.c b/src/store.c
index 3cff20f..4165878 100644
--- a/src/store.c
+++ b/src/store.c
@@ -944,13 +944,36 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 }
 
 static int
-urkel_store_init_meta(data_store_t *store) {
+urkel_store_init_meta(data_store_t *store, uint32_t index) {
+  /* File lock is held. */
   char path[URKEL_PATH_MAX + 1];
+  urkel_stat_t st;
+  int fd;
 
   urkel_store_path(store, path, "meta");
 
-  if (urkel_fs_exists(path))
-    return urkel_fs_read_file(path, store->key, URKEL_HASH_SIZE);
+  fd = urkel_fs_open(path, URKEL_O_RDONLY | URKEL_O_SEQUENTIAL, 0);
+
+  if (fd != -1) {
+    int ret = urkel_fs_fstat(fd, &st);
+    int torn = ret && st.st_size < URKEL_HASH_SIZE;
+
+    if (ret && !torn)
+      ret = urkel_fs_read(fd, store->key, URKEL_HASH_SIZE);
+
+    urkel_fs_close(fd);
+
+    if (!torn)
+      return ret;
+  }
+
+  /* Never replace the key of existing data. */
+  if (index != 0)
+    return 0;
+
+  /* The creation of the database was interrupted. */
+  if (fd != -1 && !urkel_fs_unlink(path))
+    return 0;
 
   urkel_random_bytes(store->key, URKEL_HASH_SIZE);
 
@@ -1109,21 +1132,20 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   if (!urkel_store_init_prefix(store, prefix))
     return 0;
 
-  if (!urkel_store_init_meta(store))
+  if (!urkel_store_init_lock(store))
     return 0;
 
   if (!urkel_store_find_index(store, &index))
-    return 0;
+    goto fail;
 
-  if (!urkel_store_init_lock(store))
-    return 0;
+  if (!urkel_store_init_meta(store, index))
+    goto fail;
 
   if (!urkel_store_recover_state(store,
                                  &store->state,
                                  &store->last_meta,
                                  &index)) {
-    urkel_fs_close_lock(store->lock_fd);
-    return 0;
+    goto fail;
   }
 
   urkel_slab_init(&store->slab);
@@ -1149,6 +1171,9 @@ urkel_store_init(data_store_t *store, const char *prefix) {
   }
 
   return 1;
+fail:
+  urkel_fs_close_lock(store->lock_fd);
+  return 0;
 }
 
 static void
-- 
2.43.0


From c3f9abaf517e32e95bbe25927af47416bf76b101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 09/25] fix: let at most one handle own a database

---
 src/io.c       | 44 +++++++++++++++++++++++++++++++++++++-------
 src/io.h       |  2 +-
 src/io_posix.c | 12 ++++++++++++
 src/store.c    | 21 ++++++++++++---------
 4 files changed, 62 insertions(+), 17 deletions(-)

diff --git a/src/io.c b/src/io.c
index 66f62f2..c566843 100644
--- a/src/io.c
+++ b/src/io.c
@@ -58,21 +58,51 @@ fail:
 int
 urkel_fs_open_lock(const char *name, uint32_t mode) {
   int flags = URKEL_O_RDWR | URKEL_O_CREAT | URKEL_O_TRUNC;
-  int fd = urkel_fs_open(name, flags, mode);
+  int tries = 10;
 
-  if (fd == -1)
-    return -1;
+  while (tries--) {
+    int fd = urkel_fs_open(name, flags, mode);
+
+    if (fd == -1)
+      return -1;
+
+    if (!urkel_fs_flock(fd, URKEL_LOCK_EX)) {
+      urkel_fs_close(fd);
+      return -1;
+    }
+
+#if defined(_WIN32) || defined(__wasi__) || defined(__EMSCRIPTEN__)
+    return fd;
+#else
+    /* The last owner may have removed the file before we locked it. */
+    {
+      urkel_stat_t a, b;
+
+      if (urkel_fs_fstat(fd, &a)
+          && urkel_fs_stat(name, &b)
+          && a.st_dev == b.st_dev
+          && a.st_ino == b.st_ino) {
+        return fd;
+      }
+    }
 
-  if (!urkel_fs_flock(fd, URKEL_LOCK_EX)) {
     urkel_fs_close(fd);
-    return -1;
+#endif
   }
 
-  return fd;
+  return -1;
 }
 
 void
-urkel_fs_close_lock(int fd) {
+urkel_fs_close_lock(const char *name, int fd) {
+#if defined(_WIN32)
+  urkel_fs_flock(fd, URKEL_LOCK_UN);
+  urkel_fs_close(fd);
+  urkel_fs_unlink(name);
+#else
+  /* Once the lock is released, the file may be someone else's. */
+  urkel_fs_unlink(name);
   urkel_fs_flock(fd, URKEL_LOCK_UN);
   urkel_fs_close(fd);
+#endif
 }
diff --git a/src/io.h b/src/io.h
index ae704ce..58b5341 100644
--- a/src/io.h
+++ b/src/io.h
@@ -320,6 +320,6 @@ int
 urkel_fs_open_lock(const char *name, uint32_t mode);
 
 void
-urkel_fs_close_lock(int fd);
+urkel_fs_close_lock(const char *name, int fd);
 
 #endif /* URKEL_IO_H_ */
diff --git a/src/io_posix.c b/src/io_posix.c
index b1440b2..1c23a3b 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1058,6 +1058,18 @@ urkel_fs_flock(int fd, int operation) {
   fl.l_start = 0;
   fl.l_len = 0;
 
+#if defined(__linux__)
+#ifndef F_OFD_SETLK
+#define F_OFD_SETLK 37
+#endif
+  /* Process-associated locks do not exclude handles of one process. */
+  if (fcntl(fd, F_OFD_SETLK, &fl) == 0)
+    return 1;
+
+  if (errno != EINVAL)
+    return 0;
+#endif
+
   return fcntl(fd, F_SETLK, &fl) == 0;
 #else
   (void)fd;
diff --git a/src/store.c b/src/store.c
index 4165878..edeb67b 100644
--- a/src/store.c
+++ b/src/store.c
@@ -1026,6 +1026,15 @@ urkel_store_init_lock(data_store_t *store) {
   return 1;
 }
 
+static void
+urkel_store_close_lock(data_store_t *store) {
+  char path[URKEL_PATH_MAX + 1];
+
+  urkel_store_path(store, path, "lock");
+
+  urkel_fs_close_lock(path, store->lock_fd);
+}
+
 static int
 urkel_store_find_meta(const data_store_t *store,
                       urkel_meta_t *meta,
@@ -1172,22 +1181,17 @@ urkel_store_init(data_store_t *store, const char *prefix) {
 
   return 1;
 fail:
-  urkel_fs_close_lock(store->lock_fd);
+  urkel_store_close_lock(store);
   return 0;
 }
 
 static void
 urkel_store_clear(data_store_t *store) {
-  char path[URKEL_PATH_MAX + 1];
-
-  urkel_store_path(store, path, "lock");
-
   urkel_slab_clear(&store->slab);
   urkel_filemap_clear(&store->files);
   urkel_cache_clear(&store->cache);
   urkel_rng_clear(&store->rng);
-  urkel_fs_close_lock(store->lock_fd);
-  urkel_fs_unlink(path);
+  urkel_store_close_lock(store);
 
   memset(store, 0, sizeof(*store));
 }
@@ -1260,8 +1264,7 @@ fail:
   if (fd != -1) {
     memcpy(path + path_len, "lock", 5);
 
-    urkel_fs_close_lock(fd);
-    urkel_fs_unlink(path);
+    urkel_fs_close_lock(path, fd);
   }
 
   if (ret)
-- 
2.43.0


From dcd391b9227d1a5501124b802b19f8472338e362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 10/25] fix: let concurrent readers open the same file

---
 src/store.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/store.c b/src/store.c
index edeb67b..2fc1b1d 100644
--- a/src/store.c
+++ b/src/store.c
@@ -282,7 +282,7 @@ fail:
   return file;
 }
 
-static void
+static urkel_file_t *
 urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
   urkel_rwlock_wrlock(fm->lock);
 
@@ -297,12 +297,22 @@ urkel_filemap_insert(urkel_filemap_t *fm, urkel_file_t *file) {
       fm->items[fm->len++] = NULL;
   }
 
-  CHECK(!fm->items[file->index]);
+  if (fm->items[file->index] != NULL) {
+    /* Another reader opened it first. */
+    urkel_file_t *other = fm->items[file->index];
+
+    urkel_rwlock_wrunlock(fm->lock);
+    urkel_file_close(file);
+
+    return other;
+  }
 
   fm->items[file->index] = file;
   fm->size += 1;
 
   urkel_rwlock_wrunlock(fm->lock);
+
+  return file;
 }
 
 static urkel_file_t *
@@ -509,9 +519,7 @@ urkel_store_open_file(data_store_t *store, uint32_t index, int flags) {
     urkel_store_evict(store);
   }
 
-  urkel_filemap_insert(&store->files, file);
-
-  return file;
+  return urkel_filemap_insert(&store->files, file);
 }
 
 static void
-- 
2.43.0


From 37a66ee1a244cbbaee96b70817c52d444114ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 11/25] fix: acquire locks in one order when proving

---
 src/tree.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index debf699..2aaabe9 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1029,7 +1029,6 @@ urkel_tx_prove(tree_tx_t *tx,
   int write_lock, ret;
 
   urkel_rwlock_rdlock(tx->lock);
-  urkel_rwlock_rdlock(tx->tree->lock);
 
   write_lock = (tx->root->type != URKEL_NODE_NULL
              && tx->root->type != URKEL_NODE_HASH);
@@ -1040,6 +1039,9 @@ urkel_tx_prove(tree_tx_t *tx,
     urkel_rwlock_wrlock(tx->lock);
   }
 
+  /* Always acquired after the transaction's lock. */
+  urkel_rwlock_rdlock(tx->tree->lock);
+
   urkel_proof_init(&proof);
 
   ret = urkel_tree_prove(tx->tree, &proof, tx->root, key, 0);
-- 
2.43.0


From 7aa6103142b618b42b7b7eb9a7bf42e333e4b5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 12/25] fix: let iterators reach the bottom of any tree

---
 src/tree.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 2aaabe9..bbd5027 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -15,6 +15,13 @@
 #include "store.h"
 #include "util.h"
 
+/*
+ * Defines
+ */
+
+/* A hash node and the node it resolves to, for every level. */
+#define ITER_STACK_SIZE ((URKEL_KEY_BITS + 1) * 2)
+
 /*
  * Structs
  */
@@ -45,7 +52,7 @@ typedef struct urkel_iter_s {
   urkel_mutex_t *lock;
   urkel_node_t *root;
   urkel_node_t *node;
-  urkel_state_t stack[URKEL_KEY_BITS];
+  urkel_state_t stack[ITER_STACK_SIZE];
   size_t stack_len;
   int done;
   int transient;
@@ -1138,7 +1145,7 @@ urkel_iter_push(tree_iter_t *iter,
                 int resolved) {
   urkel_state_t *state;
 
-  CHECK(iter->stack_len < URKEL_KEY_BITS);
+  CHECK(iter->stack_len < ITER_STACK_SIZE);
 
   state = &iter->stack[iter->stack_len++];
 
-- 
2.43.0


From 1e5dea8b1299e2685bc99e8c9ac6f19a28fb094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 13/25] fix: release memory when opening or verifying fails

---
 src/tree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tree.c b/src/tree.c
index bbd5027..617fd63 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -594,6 +594,7 @@ urkel_open(const char *prefix) {
   tree->store = urkel_store_open(prefix);
 
   if (tree->store == NULL) {
+    free(tree);
     urkel_errno = URKEL_EBADOPEN;
     return NULL;
   }
@@ -795,6 +796,7 @@ urkel_verify(int *exists,
   }
 
   if (!urkel_proof_read(&proof, proof_raw, proof_len)) {
+    urkel_proof_clear(&proof);
     urkel_errno = URKEL_EINVAL;
     return 0;
   }
-- 
2.43.0


From 5188f128034fd51b13b90b1584b5e7828caab1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 14/25] fix: clear a transaction to the tree's current root

---
 src/tree.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 617fd63..c0c1e85 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -892,14 +892,27 @@ urkel_tx_destroy(tree_tx_t *tx) {
 
 void
 urkel_tx_clear(tree_tx_t *tx) {
+  tree_db_t *tree = tx->tree;
+  urkel_node_t *root = NULL;
+
   urkel_rwlock_wrlock(tx->lock);
-  urkel_rwlock_rdlock(tx->tree->lock);
+  urkel_rwlock_rdlock(tree->lock);
+
+  /* An injected root is not the last committed one. */
+  if (tree->revert)
+    root = urkel_store_get_history(tree->store, tree->hash);
+  else
+    root = urkel_store_get_root(tree->store);
+
+  /* It was found when it was injected, and is cached since:
+     the lookup reads nothing and writes nothing. */
+  CHECK(root != NULL);
 
   urkel_node_destroy(tx->root, 1);
 
-  tx->root = urkel_store_get_root(tx->tree->store);
+  tx->root = root;
 
-  urkel_rwlock_rdunlock(tx->tree->lock);
+  urkel_rwlock_rdunlock(tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
 }
 
-- 
2.43.0


From f88cdb8e4456bda5e42710b26734cb6033114cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 15/25] fix: do not lose concurrent inserts and removals

---
 src/tree.c | 52 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index c0c1e85..e25ea22 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -28,6 +28,7 @@
 
 typedef struct urkel_s {
   urkel_store_t *store;
+  urkel_mutex_t *writer; /* Held first: orders changes to `hash`. */
   urkel_rwlock_t *lock;
   unsigned char hash[URKEL_HASH_SIZE];
   int revert;
@@ -586,6 +587,9 @@ urkel_tree_commit(tree_db_t *tree, urkel_node_t **node) {
  * Database
  */
 
+static int
+urkel_tx_write(tree_tx_t *tx);
+
 tree_db_t *
 urkel_open(const char *prefix) {
   tree_db_t *tree = checked_malloc(sizeof(tree_db_t));
@@ -599,6 +603,7 @@ urkel_open(const char *prefix) {
     return NULL;
   }
 
+  tree->writer = urkel_mutex_create();
   tree->lock = urkel_rwlock_create();
 
   root = urkel_store_root_hash(tree->store);
@@ -616,6 +621,7 @@ urkel_close(tree_db_t *tree) {
   urkel_store_close(tree->store);
   urkel_rwlock_wrunlock(tree->lock);
   urkel_rwlock_destroy(tree->lock);
+  urkel_mutex_destroy(tree->writer);
 
   free(tree);
 }
@@ -656,6 +662,7 @@ int
 urkel_inject(tree_db_t *tree, const unsigned char *hash) {
   int ret = 0;
 
+  urkel_mutex_lock(tree->writer);
   urkel_rwlock_wrlock(tree->lock);
 
   if (!urkel_store_has_history(tree->store, hash)) {
@@ -670,6 +677,7 @@ urkel_inject(tree_db_t *tree, const unsigned char *hash) {
   ret = 1;
 fail:
   urkel_rwlock_wrunlock(tree->lock);
+  urkel_mutex_unlock(tree->writer);
   return ret;
 }
 
@@ -716,41 +724,54 @@ urkel_insert(tree_db_t *tree,
              const unsigned char *key,
              const unsigned char *value,
              size_t size) {
-  tree_tx_t *tx = urkel_tx_create(tree, NULL);
+  tree_tx_t *tx;
   int ret = 0;
 
+  /* No other change may come between our root and our commit. */
+  urkel_mutex_lock(tree->writer);
+
+  tx = urkel_tx_create(tree, NULL);
+
   if (tx == NULL)
-    return 0;
+    goto done;
 
   if (!urkel_tx_insert(tx, key, value, size))
     goto fail;
 
-  if (!urkel_tx_commit(tx))
+  if (!urkel_tx_write(tx))
     goto fail;
 
   ret = 1;
 fail:
   urkel_tx_destroy(tx);
+done:
+  urkel_mutex_unlock(tree->writer);
   return ret;
 }
 
 int
 urkel_remove(tree_db_t *tree, const unsigned char *key) {
-  tree_tx_t *tx = urkel_tx_create(tree, NULL);
+  tree_tx_t *tx;
   int ret = 0;
 
+  urkel_mutex_lock(tree->writer);
+
+  tx = urkel_tx_create(tree, NULL);
+
   if (tx == NULL)
-    return 0;
+    goto done;
 
   if (!urkel_tx_remove(tx, key))
     goto fail;
 
-  if (!urkel_tx_commit(tx))
+  if (!urkel_tx_write(tx))
     goto fail;
 
   ret = 1;
 fail:
   urkel_tx_destroy(tx);
+done:
+  urkel_mutex_unlock(tree->writer);
   return ret;
 }
 
@@ -1090,8 +1111,9 @@ urkel_tx_prove(tree_tx_t *tx,
   return ret;
 }
 
-int
-urkel_tx_commit(tree_tx_t *tx) {
+static int
+urkel_tx_write(tree_tx_t *tx) {
+  /* Writer mutex is held. */
   int ret;
 
   urkel_rwlock_wrlock(tx->lock);
@@ -1105,6 +1127,20 @@ urkel_tx_commit(tree_tx_t *tx) {
   return ret;
 }
 
+int
+urkel_tx_commit(tree_tx_t *tx) {
+  tree_db_t *tree = tx->tree;
+  int ret;
+
+  urkel_mutex_lock(tree->writer);
+
+  ret = urkel_tx_write(tx);
+
+  urkel_mutex_unlock(tree->writer);
+
+  return ret;
+}
+
 /*
  * Iterator
  */
-- 
2.43.0


From 8cf7c3771cb4ed8ba53dcf02ae72d9593cdffaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 16/25] fix: leave room for the separator in the longest path

---
 src/store.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/store.c b/src/store.c
index 2fc1b1d..77ec5d2 100644
--- a/src/store.c
+++ b/src/store.c
@@ -934,7 +934,7 @@ urkel_store_init_prefix(data_store_t *store, const char *prefix) {
 
   len = strlen(path);
 
-  if (len + 10 > URKEL_PATH_MAX) {
+  if (len + 11 > URKEL_PATH_MAX) {
     free(path);
     return 0;
   }
@@ -1237,7 +1237,7 @@ urkel_store_destroy(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
@@ -1299,7 +1299,7 @@ urkel_store__corrupt(const char *prefix) {
 
   path_len = strlen(prefix_);
 
-  if (path_len + 10 > URKEL_PATH_MAX)
+  if (path_len + 11 > URKEL_PATH_MAX)
     goto fail;
 
   memcpy(path, prefix_, path_len + 1);
-- 
2.43.0


From 7a7e95b99167176bc5e7599e64a1fdfd7f750f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 17/25] fix: fail a removal whose sibling cannot be read

---
 src/tree.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index e25ea22..4ac221d 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -315,7 +315,12 @@ urkel_tree_remove(tree_db_t *tree,
         if (side->type == URKEL_NODE_HASH) {
           side = urkel_store_resolve(tree->store, side);
 
-          CHECK(side != NULL);
+          /* Nothing has been changed yet. */
+          if (side == NULL) {
+            urkel_node_destroy(z, 0);
+            urkel_errno = URKEL_ECORRUPTION;
+            return NULL;
+          }
 
           resolved = 1;
         }
@@ -338,6 +343,7 @@ urkel_tree_remove(tree_db_t *tree,
         if (resolved)
           urkel_node_destroy(y, 0);
 
+        urkel_node_destroy(x, 1);
         urkel_node_destroy(z, 0);
 
         return out;
@@ -357,8 +363,7 @@ urkel_tree_remove(tree_db_t *tree,
         return NULL;
       }
 
-      urkel_node_destroy(node, 0);
-
+      /* The caller destroys the leaf once it no longer needs it. */
       return urkel_node_create_null();
     }
 
@@ -373,7 +378,8 @@ urkel_tree_remove(tree_db_t *tree,
 
       ret = urkel_tree_remove(tree, rn, key, depth);
 
-      if (ret != NULL)
+      /* A removed leaf is replaced with a null node. */
+      if (ret != NULL && ret->type != URKEL_NODE_NULL)
         urkel_node_destroy(node, 0);
       else
         urkel_node_destroy(rn, 1);
@@ -1054,8 +1060,13 @@ urkel_tx_remove(tree_tx_t *tx, const unsigned char *key) {
 
   root = urkel_tree_remove(tx->tree, tx->root, key, 0);
 
-  if (root != NULL)
+  if (root != NULL) {
+    /* The last leaf is ours to destroy. */
+    if (root->type == URKEL_NODE_NULL)
+      urkel_node_destroy(tx->root, 1);
+
     tx->root = root;
+  }
 
   urkel_rwlock_rdunlock(tx->tree->lock);
   urkel_rwlock_wrunlock(tx->lock);
-- 
2.43.0


From eac0b985d32819cea44e11327a4c0e7957cce0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 18/25] fix: keep the directory list when it cannot grow

---
 src/io_posix.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/io_posix.c b/src/io_posix.c
index 1c23a3b..0a7cccf 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -609,6 +609,7 @@ urkel_fs_scandir(const char *name, urkel_dirent_t ***out, size_t *count) {
   * [2] https://github.com/cjihrig/uvwasi/issues/148
   */
   urkel_dirent_t **list = NULL;
+  urkel_dirent_t **tmp;
   urkel_dirent_t *item = NULL;
   __wasi_dirent_t entry;
   __wasi_fd_t fd = -1;
@@ -647,10 +648,12 @@ urkel_fs_scandir(const char *name, urkel_dirent_t ***out, size_t *count) {
 
     if (i == size) {
       size = (size * 3) / 2;
-      list = realloc(list, size * sizeof(urkel_dirent_t *));
+      tmp = realloc(list, size * sizeof(urkel_dirent_t *));
 
-      if (list == NULL)
+      if (tmp == NULL)
         goto fail;
+
+      list = tmp;
     }
 
     item->d_ino = entry.d_ino;
@@ -725,6 +728,7 @@ fail:
   return 0;
 #else /* !__wasi__ */
   urkel_dirent_t **list = NULL;
+  urkel_dirent_t **tmp;
   urkel_dirent_t *item = NULL;
   struct dirent *entry;
   size_t size = 8;
@@ -769,10 +773,12 @@ fail:
 
     if (i == size) {
       size = (size * 3) / 2;
-      list = realloc(list, size * sizeof(urkel_dirent_t *));
+      tmp = realloc(list, size * sizeof(urkel_dirent_t *));
 
-      if (list == NULL)
+      if (tmp == NULL)
         goto fail;
+
+      list = tmp;
     }
 
     item->d_ino = entry->d_ino;
-- 
2.43.0


From 6b9110fc7c8b3f723079cc4305002fd5634ec009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 19/25] fix: do not report an unreadable history as a missing
 root

---
 src/store.c | 22 ++++++++++++++--------
 src/store.h |  6 ++++--
 src/tree.c  | 21 +++++++++++++--------
 3 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/store.c b/src/store.c
index 77ec5d2..d4aaaf9 100644
--- a/src/store.c
+++ b/src/store.c
@@ -845,6 +845,7 @@ urkel_store_read_meta(data_store_t *store,
   return urkel_meta_read(meta, data, store->key);
 }
 
+/* Returns -1 if the search failed. */
 int
 urkel_store_read_history(data_store_t *store,
                          urkel_node_t *root,
@@ -877,12 +878,12 @@ urkel_store_read_history(data_store_t *store,
       return 0;
 
     if (!urkel_store_read_meta(store, &meta, meta_ptr))
-      return 0;
+      return -1;
 
     root_ptr = &meta.root_ptr;
 
     if (!urkel_store_read_root(store, &node, root_ptr))
-      return 0;
+      return -1;
 
     store->last_meta = meta;
 
@@ -902,22 +903,27 @@ urkel_store_has_history(data_store_t *store, const unsigned char *root_hash) {
 
   ret = urkel_store_read_history(store, &root, root_hash);
 
-  if (ret)
+  if (ret > 0)
     urkel_node_clear(&root);
 
   return ret;
 }
 
-urkel_node_t *
-urkel_store_get_history(data_store_t *store, const unsigned char *root_hash) {
+int
+urkel_store_get_history(data_store_t *store,
+                        urkel_node_t **out,
+                        const unsigned char *root_hash) {
   urkel_node_t *root = checked_malloc(sizeof(urkel_node_t));
+  int ret = urkel_store_read_history(store, root, root_hash);
 
-  if (!urkel_store_read_history(store, root, root_hash)) {
+  if (ret <= 0) {
     free(root);
-    return NULL;
+    root = NULL;
   }
 
-  return root;
+  *out = root;
+
+  return ret;
 }
 
 /*
diff --git a/src/store.h b/src/store.h
index bf3848a..d536a2a 100644
--- a/src/store.h
+++ b/src/store.h
@@ -67,7 +67,9 @@ urkel_store_commit(urkel_store_t *store, const urkel_node_t *root);
 int
 urkel_store_has_history(urkel_store_t *store, const unsigned char *root_hash);
 
-urkel_node_t *
-urkel_store_get_history(urkel_store_t *store, const unsigned char *root_hash);
+int
+urkel_store_get_history(urkel_store_t *store,
+                        urkel_node_t **out,
+                        const unsigned char *root_hash);
 
 #endif /* _URKEL_STORE_H */
diff --git a/src/tree.c b/src/tree.c
index 4ac221d..6f2d83d 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -667,12 +667,15 @@ urkel_root(tree_db_t *tree, unsigned char *hash) {
 int
 urkel_inject(tree_db_t *tree, const unsigned char *hash) {
   int ret = 0;
+  int found;
 
   urkel_mutex_lock(tree->writer);
   urkel_rwlock_wrlock(tree->lock);
 
-  if (!urkel_store_has_history(tree->store, hash)) {
-    urkel_errno = URKEL_ENOTFOUND;
+  found = urkel_store_has_history(tree->store, hash);
+
+  if (found <= 0) {
+    urkel_errno = found < 0 ? URKEL_ECORRUPTION : URKEL_ENOTFOUND;
     goto fail;
   }
 
@@ -868,6 +871,7 @@ urkel_iterate(tree_db_t *tree, const unsigned char *root) {
 tree_tx_t *
 urkel_tx_create(tree_db_t *tree, const unsigned char *hash) {
   tree_tx_t *tx = checked_malloc(sizeof(tree_tx_t));
+  int found = 1;
   int write_lock;
 
   urkel_rwlock_rdlock(tree->lock);
@@ -884,16 +888,16 @@ urkel_tx_create(tree_db_t *tree, const unsigned char *hash) {
   tx->tree = tree;
 
   if (hash != NULL)
-    tx->root = urkel_store_get_history(tree->store, hash);
+    found = urkel_store_get_history(tree->store, &tx->root, hash);
   else if (tree->revert)
-    tx->root = urkel_store_get_history(tree->store, tree->hash);
+    found = urkel_store_get_history(tree->store, &tx->root, tree->hash);
   else
     tx->root = urkel_store_get_root(tree->store);
 
   tx->lock = urkel_rwlock_create();
 
   if (tx->root == NULL) {
-    urkel_errno = URKEL_ENOTFOUND;
+    urkel_errno = found < 0 ? URKEL_ECORRUPTION : URKEL_ENOTFOUND;
     urkel_rwlock_destroy(tx->lock);
     free(tx);
     tx = NULL;
@@ -927,7 +931,7 @@ urkel_tx_clear(tree_tx_t *tx) {
 
   /* An injected root is not the last committed one. */
   if (tree->revert)
-    root = urkel_store_get_history(tree->store, tree->hash);
+    urkel_store_get_history(tree->store, &root, tree->hash);
   else
     root = urkel_store_get_root(tree->store);
 
@@ -969,18 +973,19 @@ urkel_tx_root(tree_tx_t *tx, unsigned char *hash) {
 int
 urkel_tx_inject(tree_tx_t *tx, const unsigned char *hash) {
   urkel_node_t *root;
+  int found;
 
   urkel_rwlock_wrlock(tx->lock);
   urkel_rwlock_wrlock(tx->tree->lock);
 
-  root = urkel_store_get_history(tx->tree->store, hash);
+  found = urkel_store_get_history(tx->tree->store, &root, hash);
 
   if (root != NULL) {
     urkel_node_destroy(tx->root, 1);
 
     tx->root = root;
   } else {
-    urkel_errno = URKEL_ENOTFOUND;
+    urkel_errno = found < 0 ? URKEL_ECORRUPTION : URKEL_ENOTFOUND;
   }
 
   urkel_rwlock_wrunlock(tx->tree->lock);
-- 
2.43.0


From 44030087b24b5ae13737feb015f9bb11286544e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 20/25] fix: do not skip keys after an iterator's read failed

---
 src/tree.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 6f2d83d..4d692c9 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -55,6 +55,7 @@ typedef struct urkel_iter_s {
   urkel_node_t *node;
   urkel_state_t stack[ITER_STACK_SIZE];
   size_t stack_len;
+  int retry; /* The last step failed and is to be repeated. */
   int done;
   int transient;
 } tree_iter_t;
@@ -1174,6 +1175,7 @@ urkel_iter_create(tree_tx_t *tx) {
   iter->root = tx->root;
   iter->node = NULL;
   iter->stack_len = 0;
+  iter->retry = 0;
   iter->done = 0;
   iter->transient = 0;
 
@@ -1245,7 +1247,9 @@ urkel_iter_seek(tree_iter_t *iter) {
     return 0;
   }
 
-  if (iter->stack_len == 0) {
+  if (iter->retry) {
+    iter->retry = 0;
+  } else if (iter->stack_len == 0) {
     urkel_iter_push(iter, iter->root, 0, 0);
   } else {
     urkel_state_t *state = urkel_iter_pop(iter);
@@ -1298,15 +1302,16 @@ urkel_iter_seek(tree_iter_t *iter) {
         if (parent->child >= 0)
           return 1;
 
-        parent->child += 1;
-
         rn = urkel_store_resolve(tree->store, node);
 
         if (rn == NULL) {
+          iter->retry = 1;
           urkel_errno = URKEL_ECORRUPTION;
           return 0;
         }
 
+        parent->child += 1;
+
         urkel_iter_push(iter, rn, depth, 1);
 
         break;
@@ -1341,6 +1346,7 @@ urkel_iter_next(tree_iter_t *iter,
 
     if (value != NULL && size != NULL) {
       if (!urkel_store_retrieve(tree->store, iter->node, value, size)) {
+        iter->retry = 1;
         urkel_errno = URKEL_ECORRUPTION;
         goto fail;
       }
-- 
2.43.0


From cb445f5d40e807bab8af8e0c4e32b3d942a2af80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 21/25] fix: do not open the next data file for reading

---
 src/store.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index d4aaaf9..52b4ec3 100644
--- a/src/store.c
+++ b/src/store.c
@@ -497,7 +497,9 @@ urkel_store_open_file(data_store_t *store, uint32_t index, int flags) {
   char path[URKEL_PATH_MAX + 1];
   urkel_file_t *file;
 
-  if (index == 0 || index > store->index + 1)
+  /* Only a rollover may touch the next file: a descriptor
+     opened for reading would be in the way of writing it. */
+  if (index == 0 || index > store->index + (flags == WRITE_FLAGS))
     return NULL;
 
   file = urkel_filemap_lookup(&store->files, index);
-- 
2.43.0


From dfe7b97d77e848f12661e3c74c76aed72b78ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:43 +0000
Subject: [PATCH 22/25] fix: keep nothing of a record whose checksum is wrong

---
 src/store.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/store.c b/src/store.c
index 52b4ec3..e0f1bcd 100644
--- a/src/store.c
+++ b/src/store.c
@@ -159,15 +159,18 @@ urkel_meta_read(urkel_meta_t *meta,
   if (magic != META_MAGIC)
     return 0;
 
-  urkel_pointer_read(&meta->meta_ptr, data);
-  data += URKEL_PTR_SIZE;
-
-  urkel_pointer_read(&meta->root_ptr, data);
-  data += URKEL_PTR_SIZE;
+  data += URKEL_PTR_SIZE * 2;
 
   urkel_checksum(expect, start, data - start, key);
 
-  return memcmp(data, expect, 20) == 0;
+  /* Leave the output alone if this is not a record of ours. */
+  if (memcmp(data, expect, 20) != 0)
+    return 0;
+
+  urkel_pointer_read(&meta->meta_ptr, start + 4);
+  urkel_pointer_read(&meta->root_ptr, start + 4 + URKEL_PTR_SIZE);
+
+  return 1;
 }
 
 /*
-- 
2.43.0


From d0177d4bd4403a8be539b2335cddf8ee62ff224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 23/25] fix: force an inherited key to disk before relying on
 it

A key that a killed process had written, but not yet synced, was used
as is: losing power afterwards lost the key, and with it every commit,
including those that had been forced to disk.
---
 src/store.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/store.c b/src/store.c
index e0f1bcd..c3a34d3 100644
--- a/src/store.c
+++ b/src/store.c
@@ -967,11 +967,16 @@ urkel_store_init_meta(data_store_t *store, uint32_t index) {
   /* File lock is held. */
   char path[URKEL_PATH_MAX + 1];
   urkel_stat_t st;
+  int flags = URKEL_O_RDONLY;
   int fd;
 
   urkel_store_path(store, path, "meta");
 
-  fd = urkel_fs_open(path, URKEL_O_RDONLY | URKEL_O_SEQUENTIAL, 0);
+  /* Without data, the key might not have reached the disk. */
+  if (index == 0)
+    flags = URKEL_O_RDWR;
+
+  fd = urkel_fs_open(path, flags | URKEL_O_SEQUENTIAL, 0);
 
   if (fd != -1) {
     int ret = urkel_fs_fstat(fd, &st);
@@ -980,6 +985,9 @@ urkel_store_init_meta(data_store_t *store, uint32_t index) {
     if (ret && !torn)
       ret = urkel_fs_read(fd, store->key, URKEL_HASH_SIZE);
 
+    if (ret && !torn && index == 0)
+      ret = urkel_fs_fsync(fd);
+
     urkel_fs_close(fd);
 
     if (!torn)
-- 
2.43.0


From 4f285d5b89d43653031bd8c6679a8d523863c64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 24/25] Let GCC warn about line comments instead of rejecting
 them

The library is built with -std=c90, under which GCC refuses // comments.
Diagnostics only: the generated code is unchanged.
---
 src/internal.h | 9 +++++++++
 src/io.h       | 9 +++++++++
 src/urkel.c    | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/internal.h b/src/internal.h
index e5345d1..7e4d63b 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -28,6 +28,15 @@
 #  define URKEL_GNUC_PREREQ(maj, min) 0
 #endif
 
+/*
+ * GCC rejects line comments in C90 mode outright. Have it
+ * warn instead, as clang does (this affects nothing else).
+ */
+
+#if defined(__GNUC__) && __GNUC__ >= 5 && !defined(__clang__)
+#  pragma GCC diagnostic warning "-Wc90-c99-compat"
+#endif
+
 /*
  * Builtins
  */
diff --git a/src/io.h b/src/io.h
index 58b5341..d160d65 100644
--- a/src/io.h
+++ b/src/io.h
@@ -10,6 +10,15 @@
 #include <stddef.h>
 #include <stdint.h>
 
+/*
+ * GCC rejects line comments in C90 mode outright. Have it
+ * warn instead, as clang does (this affects nothing else).
+ */
+
+#if defined(__GNUC__) && __GNUC__ >= 5 && !defined(__clang__)
+#  pragma GCC diagnostic warning "-Wc90-c99-compat"
+#endif
+
 /*
  * Defines
  */
diff --git a/src/urkel.c b/src/urkel.c
index 90d9110..1993469 100644
--- a/src/urkel.c
+++ b/src/urkel.c
@@ -10,6 +10,15 @@
 #include <string.h>
 #include <urkel.h>
 
+/*
+ * GCC rejects line comments in C90 mode outright. Have it
+ * warn instead, as clang does (this affects nothing else).
+ */
+
+#if defined(__GNUC__) && __GNUC__ >= 5 && !defined(__clang__)
+#  pragma GCC diagnostic warning "-Wc90-c99-compat"
+#endif
+
 /*
  * Helpers
  */
-- 
2.43.0


From 0b688133c9cb2b85198d730cd4f7ce08f3a40021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:16 +0000
Subject: [PATCH 25/25] fix: do not lose the resolved path when it cannot be
 shrunk

---
 src/io_posix.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io_posix.c b/src/io_posix.c
index 0a7cccf..92d9622 100644
--- a/src/io_posix.c
+++ b/src/io_posix.c
@@ -1343,7 +1343,7 @@ urkel_path_resolve(const char *path) {
   size_t plen = path != NULL ? strlen(path) : 0;
   size_t max = 8192;
   size_t olen;
-  char *out;
+  char *out, *ret;
 
   if (plen > 0 && path[0] == '/') {
     out = malloc(plen + 1);
@@ -1378,7 +1378,10 @@ urkel_path_resolve(const char *path) {
 
   olen = urkel_path_normalize(out);
 
-  return realloc(out, olen + 1);
+  ret = realloc(out, olen + 1);
+
+  /* The path is as good without being shrunk. */
+  return ret != NULL ? ret : out;
 }
 
 /*
-- 
2.43.0

