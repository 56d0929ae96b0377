From c51d81aade96404eda7033f321a52367d5b0516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:36 +0000
Subject: [PATCH 001/140] fix: path normalization treats every name starting
 with '..' as a parent reference

---
 src/evfs_path.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index b36e66d..c11bd99 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -301,7 +301,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
 
     // Skip '.' segments
     if(!(range_size(&token) == 1 && *token.start == '.')) {
-      if(!strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
+      if(range_size(&token) == 2 && !strncmp(token.start, "..", 2)) { // Token is '..', Remove previous segment
         // Search back through mask for most recent kept segment and remove it
         // We preserve ".." segments if no preceding non-".." segment is found
         found_prev_dir = false;
@@ -423,7 +423,7 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
     // Add tokens except for '.'
     if(!(range_size(&token) == 1 && *token.start == '.')) {
       // Pop stack if token is '..' unless the stack is empty
-      if(!strncmp(token.start, "..", 2)) {
+      if(range_size(&token) == 2 && !strncmp(token.start, "..", 2)) {
         if(stack_head > preserved_parent_ref+1) {
           stack_head--;
         } else if(!is_absolute) { // Relative paths need leading ".." preserved
-- 
2.43.0


From 5338d3b6f92988562eaa5cb6c830bc999dca727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:36 +0000
Subject: [PATCH 002/140] fix: path normalization writes a NUL past an empty
 output range

---
 src/evfs_path.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index c11bd99..ebfb006 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -368,7 +368,10 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
   }
 
   // Add NUL
-  *norm_r.start = '\0';
+  if(norm_r.start < norm_r.end)
+    *norm_r.start = '\0';
+  else
+    truncated = true;
 
   if(truncated)
     THROW(EVFS_ERR_OVERFLOW);
@@ -462,7 +465,10 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
   }
 
   // Add NUL
-  *normalized->start = '\0';
+  if(normalized->start < normalized->end)
+    *normalized->start = '\0';
+  else
+    truncated = true;
 
   evfs_free(tok_stack);
 
-- 
2.43.0


From 7fe424aa2a7fc6dd857cb5848b7b41f0abe70b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:36 +0000
Subject: [PATCH 003/140] fix: range append functions write one byte past an
 empty range

---
 src/util/range_strings.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 2980afd..5330ff6 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -211,7 +211,7 @@ int range_copy_str(AppendRange *rng, const char *str, bool truncate) {
       *dest = '\0';
       rval = -(rval-1);
     } else {
-      if(rng->start)
+      if(rng->start < rng->end)
         *rng->start = '\0'; // Wipe partial string
       rval = -(rval + strlen(src)); // Add uncopied bytes
     }
@@ -321,7 +321,7 @@ int range_cat_str(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -361,7 +361,7 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strlen(src)); // Add uncopied bytes
   }
@@ -410,7 +410,7 @@ int range_cat_range(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest-1;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
@@ -459,7 +459,7 @@ int range_cat_range_no_nul(AppendRange *rng, StringRange *src_rng) {
   if(done) {
     rng->start = dest;
   } else { // Truncated
-    if(rng->start)
+    if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
     rval = -(rval + strnlen(src, src_rng->end - src)); // Add uncopied bytes
   }
-- 
2.43.0


From 5636324fddd2b1377a343761d2410d8461dea57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 004/140] fix: basename of an empty path reads and returns the
 byte before it

---
 src/evfs_path.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index ebfb006..df3c516 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -95,15 +95,12 @@ Returns:
 int evfs_path_basename(const char *path, StringRange *tail) {
   if(PTR_CHECK(path) || PTR_CHECK(tail)) return EVFS_ERR_BAD_ARG;
   const char *end = (char *)path + strlen(path);
-  const char *pos = end - 1;
+  const char *pos = end;
 
   // Look for rightmost delimiter
-  while(pos > path && !char_match(*pos, EVFS_PATH_SEPS)) // Skip basename
+  while(pos > path && !char_match(*(pos-1), EVFS_PATH_SEPS)) // Skip basename
     pos--;
 
-  if(char_match(*pos, EVFS_PATH_SEPS))
-    pos++;
-
   range_init(tail, pos, end-pos);
 
   return EVFS_OK;
-- 
2.43.0


From e6d033175b3eeb6514028c95e3330e1de24f5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 005/140] fix: extname reports an extension for names with
 multiple leading periods

---
 src/evfs_path.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index df3c516..6b9e766 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -126,16 +126,21 @@ int evfs_path_extname(const char *path, StringRange *ext) {
   evfs_path_basename(path, ext);
   const char *pos = ext->end;
 
+  // Leading periods are part of the name
+  const char *name = ext->start;
+  while(name < ext->end && *name == '.')
+    name++;
+
   if(range_size(ext) > 0) {
     // Scan back for first period
-    while(pos > ext->start) {
+    while(pos > name) {
       if(*pos == '.')
         break;
       pos--;
     }
   }
 
-  if(pos > ext->start) { // Extension found
+  if(pos > name) { // Extension found
     ext->start = pos;
   } else { // Return empty range
     ext->start = ext->end;
-- 
2.43.0


From d59045f503855132e256899793d1975d2cdf5591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 006/140] fix: dirname keeps redundant separators and drops a
 relative drive prefix

---
 src/evfs_path.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 6b9e766..6852f58 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -152,20 +152,18 @@ int evfs_path_extname(const char *path, StringRange *ext) {
 
 int evfs_vfs_path_dirname(Evfs *vfs, const char *path, StringRange *head) {
   if(PTR_CHECK(vfs) || PTR_CHECK(path) || PTR_CHECK(head)) return EVFS_ERR_BAD_ARG;
-  const char *end = (char *)path + strlen(path) + 1;
-  const char *pos = end - 1;
+  const char *pos = (char *)path + strlen(path);
 
-  // Look for rightmost delimiter
-  while(pos > path && !char_match(*pos, EVFS_PATH_SEPS)) // Skip basename
-    pos--;
-
-  // If this is a root path we keep a trailing slash
   // We could have multiple root separators. Keep them all
   StringRange root;
   vfs->m_path_root_component(vfs, path, &root);
-  if(pos == path + range_size(&root)-1 && char_match(*pos, EVFS_PATH_SEPS)) {
-    pos++;
-  }
+
+  while(pos > root.end && !char_match(*(pos-1), EVFS_PATH_SEPS)) // Skip basename
+    pos--;
+
+  // Remove the separators after the dirname
+  while(pos > root.end && char_match(*(pos-1), EVFS_PATH_SEPS))
+    pos--;
 
   range_init(head, path, pos - path);
 
-- 
2.43.0


From 0479a9b44a12381887ac73e4b6b289c9c8f0f401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:28 +0000
Subject: [PATCH 007/140] fix: path join drops the tail when it just fails to
 fit and reads past an unterminated head

---
 src/evfs_path.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 6852f58..12b9c10 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -204,19 +204,21 @@ int evfs_vfs_path_join(Evfs *vfs, StringRange *head, StringRange *tail, StringRa
   if(ASSERT(joined_len <= (size_t)range_size(&joined_a), "joined string too long")) return EVFS_ERR_OVERFLOW;
 
 
-  range_cat_range(&joined_a, head);
+  const char *joined_head = joined_a.start;
+  if(range_cat_range(&joined_a, head) < 0) return EVFS_ERR_OVERFLOW;
 
   // Join with the separator
   // If head is empty no separator
   // If head is only a root component we don't need to add an extra separator
+  // The head range may not be terminated so we look at its copy
   StringRange root;
-  vfs->m_path_root_component(vfs, head->start, &root);
+  vfs->m_path_root_component(vfs, joined_head, &root);
 
   if(head_len > 0 && head_len != (size_t)range_size(&root))
-    range_cat_char(&joined_a, EVFS_DIR_SEP);
+    if(range_cat_char(&joined_a, EVFS_DIR_SEP) < 0) return EVFS_ERR_OVERFLOW;
 
   if(tail_len > 0)
-    range_cat_range(&joined_a, tail);
+    if(range_cat_range(&joined_a, tail) < 0) return EVFS_ERR_OVERFLOW;
 
   range_terminate(&joined_a);
 
-- 
2.43.0


From cd24a61fe84eedb964e12cb88b2a21770226af5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 008/140] fix: hash table reads, writes and swaps past the
 caller's value when its size is not pointer aligned

---
 include/evfs/util/dhash.h |  3 ++-
 src/util/dhash.c          | 13 ++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/evfs/util/dhash.h b/include/evfs/util/dhash.h
index e432506..821196b 100644
--- a/include/evfs/util/dhash.h
+++ b/include/evfs/util/dhash.h
@@ -108,7 +108,8 @@ typedef struct dhash {
 #endif
 
   // Configuration
-  size_t          value_size;   // Bytes per entry value
+  size_t          value_size;   // Bytes of bucket storage per entry value (item_size padded for alignment)
+  size_t          item_size;    // Bytes per entry value as seen by the user
   size_t          max_storage;  // Max bytes to use for bucket array
 
   // Callbacks
diff --git a/src/util/dhash.c b/src/util/dhash.c
index 1a57bf2..6d29ed5 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -391,6 +391,7 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
       .prime_ix     = prime_ix,
 #endif
       .value_size   = value_size,
+      .item_size    = config->value_size,
       .max_storage  = config->max_storage,
       .ctx          = ctx,
       .destroy_item = config->destroy_item,
@@ -701,7 +702,7 @@ bool dh_lookup(dhash *hash, dhKey key, void *value) {
 
   if(entry && !WAS_DELETED(entry)) { // Found match
     if(value)
-      memcpy(value, &entry->value_obj, hash->value_size);
+      memcpy(value, &entry->value_obj, hash->item_size);
     return true;
   }
 
@@ -947,7 +948,13 @@ bool dh_insert(dhash *hash, dhKey key, void *value) {
     if(!dh__grow(hash, 0)) return false;
   }
 
-  return dh__insert(hash, key, value);
+  // Evicted entries are swapped through the value object while probing so we
+  // need a padded copy to work with rather than altering the caller's data.
+  uintptr_t temp_value[hash->value_size / sizeof(uintptr_t) + 1];
+  if(hash->item_size > 0)
+    memcpy(temp_value, value, hash->item_size);
+
+  return dh__insert(hash, key, temp_value);
 }
 
 
@@ -974,7 +981,7 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     // Return removed value if caller wants to manage it, otherwise destroy it
     // after we finish internal bookkeeping.
     if(value)
-      memcpy(value, &entry->value_obj, hash->value_size);
+      memcpy(value, &entry->value_obj, hash->item_size);
 
 #ifdef DH_USE_MEMOIZED_HASH
     entry->ikey = 0;
-- 
2.43.0


From 1f04a89152bf3356b7c3816356669150a66f4fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 009/140] fix: absolute path conversion overruns a small output
 range and misses partial overlaps

---
 src/evfs_path.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 12b9c10..a458c0b 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -545,7 +545,7 @@ int evfs_vfs_path_absolute(Evfs *vfs, const char *path, StringRange *absolute) {
 
   // Test for overlap
   const char *path_end = path + strlen(path)+1;
-  if(absolute->start < path_end && absolute->end >= path_end) // Overlap with absolute
+  if(absolute->start < path_end && absolute->end > path) // Overlap with absolute
     return path_absolute_from_rel_overlap(vfs, path, absolute);
 
 
@@ -562,8 +562,10 @@ int evfs_vfs_path_absolute(Evfs *vfs, const char *path, StringRange *absolute) {
   size_t root_len = range_size(&root);
   path_start += root_len;
 
-  if(range_size(&root) > 0) // Add any relative root prefix from path now
-    range_cat_range((AppendRange *)&joined_r, &root);
+  if(range_size(&root) > 0) { // Add any relative root prefix from path now
+    if(range_cat_range((AppendRange *)&joined_r, &root) < 0)
+      return EVFS_ERR_OVERFLOW;
+  }
 
   // Get current directory
   rval = vfs->m_get_cur_dir(vfs, &joined_r);
@@ -652,10 +654,10 @@ static int path_absolute_from_rel_overlap(Evfs *vfs, const char *path, StringRan
   We don't want to deal with this scenario below so just move path to align
   with absolute.
   */
-  if(path != absolute->start) {
-    if(path_len+1 > (size_t)range_size(absolute)) // Give up if we can't fit
-      return EVFS_ERR_OVERFLOW;
+  if(path_len+1 > (size_t)range_size(absolute)) // Give up if we can't fit
+    return EVFS_ERR_OVERFLOW;
 
+  if(path != absolute->start) {
     memmove((char *)absolute->start, path, path_len+1);
     path = absolute->start;
   }
-- 
2.43.0


From 2e0b9b1664be6f8be8e41ab34280bb47620148e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 010/140] fix: current directory query reports a truncated
 result as success

---
 src/romfs_fs.c    | 5 +++--
 src/shim_jail.c   | 5 +++--
 src/tar_fs.c      | 5 +++--
 src/tar_rsrc_fs.c | 5 +++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 279cf7c..a49a3f6 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -430,8 +430,9 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   return EVFS_OK;
 }
 
diff --git a/src/shim_jail.c b/src/shim_jail.c
index 70f3b2d..deb6c1c 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -401,8 +401,9 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   JailData *fs_data = (JailData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
   
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   return EVFS_OK;
 }
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 9311e12..7ce879d 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -440,8 +440,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   return EVFS_OK;
 }
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 15854db..4c289a9 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -461,8 +461,9 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
+  if(range_cat_str(&r, fs_data->cur_dir) < 0)
+    return EVFS_ERR_OVERFLOW;
+
   return EVFS_OK;
 }
 
-- 
2.43.0


From e38ce5e15c5acf0449b0bbc4342d67bf83dca822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 011/140] fix: inserting into a hash table can match a removed
 entry and lose the new one

---
 src/util/dhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 6d29ed5..ba442e9 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -789,7 +789,7 @@ static inline bool dh__insert_ex(dhash *hash, dhKey key, void *value, dhIKey ike
       return true;
     }
 
-    if(
+    if(!WAS_DELETED(entry) &&
 #ifdef DH_USE_MEMOIZED_HASH
         entry->ikey == ikey &&
 #endif
-- 
2.43.0


From f39de66b31718523f8f5c2866ad4d188aba14251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:58 +0000
Subject: [PATCH 012/140] fix: removing a hash table entry destroys it with an
 empty key

---
 src/util/dhash.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index ba442e9..6bd65f9 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -983,6 +983,8 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     if(value)
       memcpy(value, &entry->value_obj, hash->item_size);
 
+    dhKey removed_key = entry->key;
+
 #ifdef DH_USE_MEMOIZED_HASH
     entry->ikey = 0;
 #endif
@@ -994,7 +996,7 @@ bool dh_remove(dhash *hash, dhKey key, void *value) {
     hash->used_buckets--;
 
     if(!value)
-      hash->destroy_item(entry->key, &entry->value_obj, hash->ctx);
+      hash->destroy_item(removed_key, &entry->value_obj, hash->ctx);
 
     memset(&entry->value_obj, 0, hash->value_size);
 
-- 
2.43.0


From ecc4a48fbcd492d5e3459a3a6d45031435298a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 013/140] fix: hash table overruns caller-supplied storage that
 is smaller than the minimum table

---
 src/util/dhash.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 6bd65f9..59094d1 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -414,10 +414,15 @@ static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_h
       hash->prime_ix = get_closest_prime_index_below(ext_buckets);
       hash->num_buckets = get_prime(hash->prime_ix);
 #else
-      hash->num_buckets = prev_po2(ext_buckets);
+      hash->num_buckets = ext_buckets > 0 ? prev_po2(ext_buckets) : 1;
 #endif
       hash->static_buckets = true;
 
+      if((size_t)hash->num_buckets > ext_buckets) { // Storage is too small
+        hash->buckets = NULL;
+        return false;
+      }
+
       //printf("## EXT SIZE: %d  bsz: %d  num: %d\n", config->max_storage, bucket_size, ext_buckets);
       //printf("## EXT HASH STORE: %d  %ld\n", hash->num_buckets, get_prime(hash->prime_ix));
 
-- 
2.43.0


From 8cf1e837c5cf58f1c3d388951c48a0622a1d96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 014/140] fix: set_cur_dir stores unnormalized or truncated
 directories and ignores join failures

---
 src/romfs_fs.c    | 49 ++++++++++++++--------------------------------
 src/shim_jail.c   | 46 ++++++++++++++-----------------------------
 src/tar_fs.c      | 50 +++++++++++++++++------------------------------
 src/tar_rsrc_fs.c | 50 +++++++++++++++++------------------------------
 4 files changed, 66 insertions(+), 129 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index a49a3f6..4a7a46f 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -441,46 +441,27 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
+  // Note: evfs__vfs_existing_dir() below is going to take the lock so we have to malloc a buffer
+  char *new_dir = evfs_malloc(EVFS_MAX_PATH);
+  if(MEM_CHECK(new_dir)) return EVFS_ERR_ALLOC;
 
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
+  StringRange new_dir_r;
+  range_init(&new_dir_r, new_dir, EVFS_MAX_PATH);
 
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
+  // Relative paths are joined to the existing directory
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
 
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // We must normalize now because the fast index can't handle denormal paths
-    range_init(&joined, joined_path, joined_size);
-    evfs_vfs_path_normalize(vfs, joined_path, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  // Confirm the path exists
+  if(status == EVFS_OK && !evfs__vfs_existing_dir(vfs, new_dir))
+    status = EVFS_ERR_NO_PATH;
 
-    // Overwrite old cur_dir
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_cat_str((AppendRange *)&head, joined_path);
+  // Overwrite old cur_dir
+  if(status == EVFS_OK)
+    strcpy(fs_data->cur_dir, new_dir);
 
-    evfs_free(joined_path);
-  }
+  evfs_free(new_dir);
 
-  return EVFS_OK;
+  return status;
 }
 
 
diff --git a/src/shim_jail.c b/src/shim_jail.c
index deb6c1c..3e78595 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -412,43 +412,27 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int jail__set_cur_dir(Evfs *vfs, const char *path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
+  // Note: evfs__vfs_existing_dir() below is going to take the lock so we have to malloc a buffer
+  char *new_dir = evfs_malloc(EVFS_MAX_PATH);
+  if(MEM_CHECK(new_dir)) return EVFS_ERR_ALLOC;
 
-    strlcpy(shim_data->cur_dir, path, sizeof(shim_data->cur_dir));
-    shim_data->cur_dir[sizeof(shim_data->cur_dir)-1] = '\0';
+  StringRange new_dir_r;
+  range_init(&new_dir_r, new_dir, EVFS_MAX_PATH);
 
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
+  // Relative paths are joined to the existing directory
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
 
-    range_init(&head, shim_data->cur_dir, sizeof(shim_data->cur_dir));
-    range_init(&tail, (char *)path, strlen(path));
+  // Confirm the path exists
+  if(status == EVFS_OK && !evfs__vfs_existing_dir(vfs, new_dir))
+    status = EVFS_ERR_NO_PATH;
 
-    // Note: evfs__vfs_existing_dir() below is going to take the lock (via jail__stat) so
-    //       we have to malloc a buffer.
-    size_t joined_size = strlen(shim_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
+  // Overwrite old cur_dir
+  if(status == EVFS_OK)
+    strcpy(shim_data->cur_dir, new_dir);
 
-    range_init(&joined, joined_path, joined_size);
+  evfs_free(new_dir);
 
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
-
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
-
-    evfs_free(joined_path);
-  }
-
-  return EVFS_OK;
+  return status;
 }
 
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 7ce879d..61adf80 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -451,41 +451,27 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  // Note: evfs__vfs_existing_dir() below is going to take the lock so we have to malloc a buffer
+  char *new_dir = evfs_malloc(EVFS_MAX_PATH);
+  if(MEM_CHECK(new_dir)) return EVFS_ERR_ALLOC;
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+  StringRange new_dir_r;
+  range_init(&new_dir_r, new_dir, EVFS_MAX_PATH);
 
-    evfs_free(joined_path);
-  }
+  // Relative paths are joined to the existing directory
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
 
-  return EVFS_OK;
+  // Confirm the path exists
+  if(status == EVFS_OK && !evfs__vfs_existing_dir(vfs, new_dir))
+    status = EVFS_ERR_NO_PATH;
+
+  // Overwrite old cur_dir
+  if(status == EVFS_OK)
+    strcpy(fs_data->cur_dir, new_dir);
+
+  evfs_free(new_dir);
+
+  return status;
 }
 
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 4c289a9..353eab4 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -472,41 +472,27 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, EVFS_MAX_PATH-1);
-    fs_data->cur_dir[EVFS_MAX_PATH-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, EVFS_MAX_PATH);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  // Note: evfs__vfs_existing_dir() below is going to take the lock so we have to malloc a buffer
+  char *new_dir = evfs_malloc(EVFS_MAX_PATH);
+  if(MEM_CHECK(new_dir)) return EVFS_ERR_ALLOC;
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+  StringRange new_dir_r;
+  range_init(&new_dir_r, new_dir, EVFS_MAX_PATH);
 
-    evfs_free(joined_path);
-  }
+  // Relative paths are joined to the existing directory
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
 
-  return EVFS_OK;
+  // Confirm the path exists
+  if(status == EVFS_OK && !evfs__vfs_existing_dir(vfs, new_dir))
+    status = EVFS_ERR_NO_PATH;
+
+  // Overwrite old cur_dir
+  if(status == EVFS_OK)
+    strcpy(fs_data->cur_dir, new_dir);
+
+  evfs_free(new_dir);
+
+  return status;
 }
 
 
-- 
2.43.0


From 2dd873787bfffc1f1794d54bce52acc9c20b91c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 015/140] fix: failed path conversion in tar and romfs leaves
 the lock held or leaks the buffer

---
 src/romfs_fs.c    | 12 +++++++++++-
 src/tar_fs.c      | 12 +++++++++++-
 src/tar_rsrc_fs.c | 12 +++++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 4a7a46f..320451a 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -118,9 +118,19 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
 
+  } else { // FREE_ABS() won't be called
+#ifdef EVFS_USE_ROMFS_SHARED_BUFFER
+    if(abs_path == fs_data->abs_path) {
+      UNLOCK();
+      abs_path = NULL;
+    }
+#endif
+    evfs_free(abs_path);
+  }
+
   return status;
 }
 
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 61adf80..993e75b 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -123,9 +123,19 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
 
+  } else { // FREE_ABS() won't be called
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+    if(abs_path == fs_data->abs_path) {
+      UNLOCK();
+      abs_path = NULL;
+    }
+#endif
+    evfs_free(abs_path);
+  }
+
   return status;
 }
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 353eab4..b75202c 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -133,9 +133,19 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
 
+  } else { // FREE_ABS() won't be called
+#ifdef EVFS_USE_TARFS_SHARED_BUFFER
+    if(abs_path == fs_data->abs_path) {
+      UNLOCK();
+      abs_path = NULL;
+    }
+#endif
+    evfs_free(abs_path);
+  }
+
   return status;
 }
 
-- 
2.43.0


From 2eadacfed9c2b2802e434673dc2ed93e0a631330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:26 +0000
Subject: [PATCH 016/140] fix: jail uses a truncated path for the underlying
 file system when conversion fails

---
 src/shim_jail.c | 50 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/shim_jail.c b/src/shim_jail.c
index 3e78595..4b6474a 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -81,17 +81,19 @@ typedef struct JailDir_s {
 
 
 // Convert a jailed path into a real path on the base VFS
-static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
+static int unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   JailData *shim_data = (JailData *)vfs->fs_data;
 
   AppendRange real_r = *(AppendRange *)real_path;
 
   // Start with jail root
-  range_cat_str(&real_r, shim_data->jail_root);
-  range_cat_char(&real_r, EVFS_DIR_SEP);
+  if(range_cat_str(&real_r, shim_data->jail_root) < 0 || range_cat_char(&real_r, EVFS_DIR_SEP) < 0)
+    return EVFS_ERR_OVERFLOW;
 
   // Convert path to absolute within the jail subtree
-  evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&real_r);
+  if(status != EVFS_OK)
+    return status;
 
 //  DPRINT("Unjail: '%.*s'", RANGE_FMT(real_path));
 
@@ -106,6 +108,7 @@ static void unjail_path(Evfs *vfs, const char *path, StringRange *real_path) {
   }
 
 //  DPRINT("\t\t'%.*s'", RANGE_FMT(real_path));
+  return EVFS_OK;
 }
 
 
@@ -276,9 +279,10 @@ static int jail__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open(base_vfs, shim_data->tmp_path, fil->base_file, flags);
   UNLOCK();
   
   if(status == EVFS_OK) {
@@ -304,9 +308,10 @@ static int jail__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
+  if(status == EVFS_OK)
+    status = base_vfs->m_stat(base_vfs, shim_data->tmp_path, info);
   UNLOCK();
 
   return status;
@@ -320,9 +325,10 @@ static int jail__delete(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_delete(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -335,13 +341,15 @@ static int jail__rename(Evfs *vfs, const char *old_path, const char *new_path) {
 
   LOCK();
   StringRange real_old_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, old_path, &real_old_path_r);
+  int status = unjail_path(vfs, old_path, &real_old_path_r);
 
   char real_new_path[EVFS_MAX_PATH];
   StringRange real_new_path_r = RANGE_FROM_ARRAY(real_new_path);
-  unjail_path(vfs, new_path, &real_new_path_r);
+  if(status == EVFS_OK)
+    status = unjail_path(vfs, new_path, &real_new_path_r);
 
-  int status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_rename(base_vfs, shim_data->tmp_path, real_new_path);
   UNLOCK();
 
   return status;
@@ -354,9 +362,10 @@ static int jail__make_dir(Evfs *vfs, const char *path) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
+  if(status == EVFS_OK)
+    status = base_vfs->m_make_dir(base_vfs, shim_data->tmp_path);
   UNLOCK();
 
   return status;
@@ -374,9 +383,10 @@ static int jail__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   LOCK();
   StringRange real_path_r = RANGE_FROM_ARRAY(shim_data->tmp_path);
-  unjail_path(vfs, path, &real_path_r);
+  int status = unjail_path(vfs, path, &real_path_r);
 
-  int status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
+  if(status == EVFS_OK)
+    status = base_vfs->m_open_dir(base_vfs, shim_data->tmp_path, dir->base_dir);
   UNLOCK();
 
   if(status == EVFS_OK) {
@@ -480,7 +490,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const char *jail_root, bool default_vfs) {
-  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(vfs_name) || PTR_CHECK(old_vfs_name) || PTR_CHECK(jail_root)) return EVFS_ERR_BAD_ARG;
 
   Evfs *base_vfs, *shim_vfs;
   JailData *shim_data;
@@ -491,7 +501,9 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
   // Convert jail root to absolute
   char abs_root[EVFS_MAX_PATH];
   StringRange abs_root_r = RANGE_FROM_ARRAY(abs_root);
-  evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  int status = evfs_vfs_path_absolute(base_vfs, jail_root, &abs_root_r);
+  if(status != EVFS_OK)
+    return status;
 
   // Construct a new VFS
   // We have four objects allocated together [Evfs][JailData][char[]][char[]]
-- 
2.43.0


From 865eb8b20b171981a5c50c9c0ba1c96863c2a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 017/140] fix: tar iterators follow sizes outside the archive
 and read past its end

---
 src/tar_iter.c      | 27 ++++++++++++++++++++++++---
 src/tar_iter_rsrc.c | 39 ++++++++++++++++++++++++++++++++++-----
 2 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/src/tar_iter.c b/src/tar_iter.c
index b00db91..cae7629 100644
--- a/src/tar_iter.c
+++ b/src/tar_iter.c
@@ -61,12 +61,32 @@ static bool tar__valid_header(TarHeader *header) {
 
   // Validate  
   // Only supporting NUL terminated octal with '0' padding
-  uint32_t orig_checksum_value = strtol((const char *)&header->checksum, NULL, 8);
+  char checksum_str[sizeof(header->checksum)+1]; // The field may not be NUL terminated
+  memcpy(checksum_str, header->checksum, sizeof(header->checksum));
+  checksum_str[sizeof(header->checksum)] = '\0';
+  uint32_t orig_checksum_value = strtol(checksum_str, NULL, 8);
 
   return orig_checksum_value == checksum;
 }
 
 
+// Get the size field
+// Only supporting octal with '0' padding
+// Returns false if the file data isn't contained within the archive
+static bool tar__file_size(TarHeader *header, evfs_off_t archive_size, evfs_off_t header_offset, evfs_off_t *file_size) {
+  char size_str[sizeof(header->size)+1]; // The field may not be NUL terminated
+  memcpy(size_str, header->size, sizeof(header->size));
+  size_str[sizeof(header->size)] = '\0';
+
+  long long size = strtoll(size_str, NULL, 8);
+  if(size < 0 || size > (long long)archive_size - TAR_BLOCK_SIZE - (long long)header_offset)
+    return false;
+
+  *file_size = size;
+  return true;
+}
+
+
 static bool tar__get_header(TarFileIterator *tar_it, TarHeader *header) {
   tar_it->header_offset = evfs_file_tell(tar_it->fd);
 
@@ -79,8 +99,9 @@ static bool tar__get_header(TarFileIterator *tar_it, TarHeader *header) {
       goto fail;
 
     // Extract fields
-    // Only supporting NUL terminated octal with '0' padding
-    tar_it->file_size = strtol((const char *)header->size, NULL, 8);
+    if(!tar__file_size(header, evfs_file_size(tar_it->fd), tar_it->header_offset, &tar_it->file_size))
+      goto fail;
+
     return true;
   }
 
diff --git a/src/tar_iter_rsrc.c b/src/tar_iter_rsrc.c
index b3120a7..4d6e5aa 100644
--- a/src/tar_iter_rsrc.c
+++ b/src/tar_iter_rsrc.c
@@ -57,15 +57,38 @@ static bool tar__valid_header(TarHeader *header) {
 
   // Validate  
   // Only supporting NUL terminated octal with '0' padding
-  uint32_t orig_checksum_value = strtol((const char *)&header->checksum, NULL, 8);
+  char checksum_str[sizeof(header->checksum)+1]; // The field may not be NUL terminated
+  memcpy(checksum_str, header->checksum, sizeof(header->checksum));
+  checksum_str[sizeof(header->checksum)] = '\0';
+  uint32_t orig_checksum_value = strtol(checksum_str, NULL, 8);
 
   return orig_checksum_value == checksum;
 }
 
 
+// Get the size field
+// Only supporting octal with '0' padding
+// Returns false if the file data isn't contained within the archive
+static bool tar__file_size(TarHeader *header, size_t archive_size, size_t header_offset, size_t *file_size) {
+  char size_str[sizeof(header->size)+1]; // The field may not be NUL terminated
+  memcpy(size_str, header->size, sizeof(header->size));
+  size_str[sizeof(header->size)] = '\0';
+
+  long long size = strtoll(size_str, NULL, 8);
+  if(size < 0 || size > (long long)archive_size - TAR_BLOCK_SIZE - (long long)header_offset)
+    return false;
+
+  *file_size = size;
+  return true;
+}
+
+
 static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
   tar_it->header_offset = tar_it->read_pos - tar_it->resource;
 
+  if(tar_it->resource_len < TAR_BLOCK_SIZE || tar_it->header_offset > tar_it->resource_len - TAR_BLOCK_SIZE)
+    goto fail;
+
   tar_it->cur_header = (TarHeader *)tar_it->read_pos;
   tar_it->read_pos += TAR_HEADER_SIZE;
   if(tar__valid_header(tar_it->cur_header)) {
@@ -73,11 +96,13 @@ static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
     tar_it->read_pos += TAR_BLOCK_SIZE - TAR_HEADER_SIZE;
 
     // Extract fields
-    // Only supporting NUL terminated octal with '0' padding
-    tar_it->file_size = strtol((const char *)tar_it->cur_header->size, NULL, 8);
+    if(!tar__file_size(tar_it->cur_header, tar_it->resource_len, tar_it->header_offset, &tar_it->file_size))
+      goto fail;
+
     return true;
   }
 
+fail:
   tar_it->cur_header = NULL;
   tar_it->header_offset = 0;
   tar_it->file_size = 0;
@@ -87,6 +112,9 @@ static bool tar__rsrc_get_header(TarRsrcIterator *tar_it) {
 
 
 bool tar_rsrc_iter_seek(TarRsrcIterator *tar_it, evfs_off_t offset) {
+  if(offset < 0 || (size_t)offset > tar_it->resource_len)
+    return false;
+
   tar_it->read_pos = tar_it->resource + offset;
 
   return tar__rsrc_get_header(tar_it);
@@ -98,10 +126,11 @@ bool tar_rsrc_iter_next(TarRsrcIterator *tar_it) {
   size_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
   size_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
 
-  tar_it->read_pos = tar_it->resource + next_header;
-  if((size_t)(tar_it->read_pos - tar_it->resource) >= tar_it->resource_len)
+  if(next_header >= tar_it->resource_len)
     return false;
 
+  tar_it->read_pos = tar_it->resource + next_header;
+
   return tar__rsrc_get_header(tar_it);
 }
 
-- 
2.43.0


From d354642c596c5b2a3f92d08123728b071f10a936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 018/140] fix: tar index mishandles prefixes, full-length names
 and directory names

---
 src/tar_fs.c      | 37 +++++++++++++++++++++++++++----------
 src/tar_rsrc_fs.c | 35 ++++++++++++++++++++++++++---------
 2 files changed, 53 insertions(+), 19 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 993e75b..616da6b 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -189,6 +189,22 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 }
 
 
+// Append the path of the current archive entry
+static void tarfs__cat_entry_path(AppendRange *path_r, TarHeader *header) {
+  // The fields are only NUL terminated when they aren't filled
+  StringRange prefix_r, name_r;
+  range_init(&prefix_r, (char *)header->file_prefix, TAR_FILE_PREFIX_LEN);
+  range_init(&name_r, (char *)header->file_name, TAR_FILE_NAME_LEN);
+
+  if(range_strlen(&prefix_r) > 0) {
+    range_cat_range(path_r, &prefix_r);
+    range_cat_char(path_r, '/');
+  }
+
+  range_cat_range(path_r, &name_r);
+}
+
+
 static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   if(!tar_iter_begin(tar_it)) return EVFS_ERR;
 
@@ -201,8 +217,9 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header.type_flag != TAR_TYPE_DIRECTORY) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header.file_name) +
-                      strlen((char *)tar_it->cur_header.file_prefix) + 1;
+    // Space for prefix, separator, name, and NUL
+    total_path_len += strnlen((char *)tar_it->cur_header.file_prefix, TAR_FILE_PREFIX_LEN) + 1 +
+                      strnlen((char *)tar_it->cur_header.file_name, TAR_FILE_NAME_LEN) + 1;
 
   } while(tar_iter_next(tar_it));
 
@@ -226,13 +243,12 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 
     dhKey key;
 
-    key.data = keys_r.start;
-    key.length = 0;
-    if(tar_it->cur_header.file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_prefix);
-// FIXME: Add path sep
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header.file_name);
-    range_cat_char(&keys_r,'\0');
+    char *path = keys_r.start;
+    tarfs__cat_entry_path(&keys_r, &tar_it->cur_header);
+
+    key.data = path;
+    key.length = keys_r.start - path;
+    keys_r.start++; // Preserve NUL
 
     EvfsTarEntry entry;
 
@@ -244,7 +260,8 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
       entry.file_size = -1;
 
       // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
+      if(key.length > 0 && path[key.length-1] == '/')
+        path[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry))
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index b75202c..2fa048a 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -199,6 +199,22 @@ static void tarfs__index_hash_free(EvfsTarIndex *ht) {
 }
 
 
+// Append the path of the current archive entry
+static void tarfs__cat_entry_path(AppendRange *path_r, TarHeader *header) {
+  // The fields are only NUL terminated when they aren't filled
+  StringRange prefix_r, name_r;
+  range_init(&prefix_r, (char *)header->file_prefix, TAR_FILE_PREFIX_LEN);
+  range_init(&name_r, (char *)header->file_name, TAR_FILE_NAME_LEN);
+
+  if(range_strlen(&prefix_r) > 0) {
+    range_cat_range(path_r, &prefix_r);
+    range_cat_char(path_r, '/');
+  }
+
+  range_cat_range(path_r, &name_r);
+}
+
+
 static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
   if(!tar_rsrc_iter_begin(tar_it)) return EVFS_ERR;
 
@@ -211,8 +227,9 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
        tar_it->cur_header->type_flag != TAR_TYPE_DIRECTORY) continue;
 
     total_files++;
-    total_path_len += strlen((char *)tar_it->cur_header->file_name) +
-                      strlen((char *)tar_it->cur_header->file_prefix) + 1;
+    // Space for prefix, separator, name, and NUL
+    total_path_len += strnlen((char *)tar_it->cur_header->file_prefix, TAR_FILE_PREFIX_LEN) + 1 +
+                      strnlen((char *)tar_it->cur_header->file_name, TAR_FILE_NAME_LEN) + 1;
 
   } while(tar_rsrc_iter_next(tar_it));
 
@@ -236,13 +253,12 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
 
     dhKey key;
 
-    key.data = keys_r.start;
-    key.length = 0;
-    if(tar_it->cur_header->file_prefix[0] != '\0')
-      key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_prefix);
+    char *path = keys_r.start;
+    tarfs__cat_entry_path(&keys_r, tar_it->cur_header);
 
-    key.length += range_cat_str(&keys_r, (char *)tar_it->cur_header->file_name);
-    range_cat_char(&keys_r,'\0');
+    key.data = path;
+    key.length = keys_r.start - path;
+    keys_r.start++; // Preserve NUL
 
     EvfsTarEntry entry;
 
@@ -254,7 +270,8 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
       entry.file_size = -1;
 
       // Removing trailing slash
-      ((char *)key.data)[--key.length] = '\0';
+      if(key.length > 0 && path[key.length-1] == '/')
+        path[--key.length] = '\0';
     }
 
     if(!dh_insert(&ht->hash_table, key, &entry))
-- 
2.43.0


From 5b4c675ab33bfdf6083a5990eb878141dff598d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 019/140] fix: tar lookups miss unnormalized paths and the root
 and use an unset entry for missing names

---
 src/tar_fs.c      | 40 +++++++++++++++++++++-------------------
 src/tar_rsrc_fs.c | 40 +++++++++++++++++++++-------------------
 2 files changed, 42 insertions(+), 38 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 616da6b..29a7b9a 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -277,6 +277,12 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTarEntry *entry) {
   if(path[0] != '/') return false; // All paths must be absolute
 
+  if(path[1] == '\0') { // The root directory isn't necessarily in the archive
+    entry->header_offset = -1;
+    entry->file_size = -1;
+    return true;
+  }
+
   dhKey key;
 
   key.data = &path[1];
@@ -286,6 +292,17 @@ static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTa
 }
 
 
+// Find a path in any spelling
+static int tarfs__find_entry(Evfs *vfs, const char *path, EvfsTarEntry *entry) {
+  TarfsData *fs_data = (TarfsData *)vfs->fs_data;
+
+  MAKE_ABS(path, abs_path);
+  int err = tarfs__lookup_path(&fs_data->tar_index, abs_path, entry) ? EVFS_OK : EVFS_ERR;
+  FREE_ABS(abs_path);
+
+  return err;
+}
+
 
 // ******************** File access methods ********************
 
@@ -407,16 +424,9 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     return EVFS_ERR_NO_SUPPORT;
 
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  err = tarfs__find_entry(vfs, path, &entry);
 
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
@@ -435,17 +445,9 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
 
 static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
-  TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   EvfsTarEntry entry;
-  int err;
-
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+
+  int err = tarfs__find_entry(vfs, path, &entry);
 
   memset(info, 0, sizeof(*info));
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 2fa048a..7ccb2c1 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -287,6 +287,12 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
 static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTarEntry *entry) {
   if(path[0] != '/') return false; // All paths must be absolute
 
+  if(path[1] == '\0') { // The root directory isn't necessarily in the archive
+    entry->header_offset = -1;
+    entry->file_size = -1;
+    return true;
+  }
+
   dhKey key;
 
   key.data = &path[1];
@@ -296,6 +302,17 @@ static inline bool tarfs__lookup_path(EvfsTarIndex *ht, const char *path, EvfsTa
 }
 
 
+// Find a path in any spelling
+static int tarfs__find_entry(Evfs *vfs, const char *path, EvfsTarEntry *entry) {
+  TarfsData *fs_data = (TarfsData *)vfs->fs_data;
+
+  MAKE_ABS(path, abs_path);
+  int err = tarfs__lookup_path(&fs_data->tar_index, abs_path, entry) ? EVFS_OK : EVFS_ERR;
+  FREE_ABS(abs_path);
+
+  return err;
+}
+
 
 // ******************** File access methods ********************
 
@@ -428,16 +445,9 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     return EVFS_ERR_NO_SUPPORT;
 
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+  err = tarfs__find_entry(vfs, path, &entry);
 
-  if(entry.header_offset < 0)
+  if(err == EVFS_OK && entry.header_offset < 0)
     err = EVFS_ERR_IS_DIR;
 
   if(err == EVFS_OK) {
@@ -456,17 +466,9 @@ static int tarfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
 
 static int tarfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
-  TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   EvfsTarEntry entry;
-  int err;
-
-  if(evfs_vfs_path_is_absolute(vfs, path)) {  
-    err = tarfs__lookup_path(&fs_data->tar_index, path, &entry) ? EVFS_OK : EVFS_ERR;
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    err = tarfs__lookup_path(&fs_data->tar_index, abs_path, &entry) ? EVFS_OK : EVFS_ERR;
-    FREE_ABS(abs_path);
-  }
+
+  int err = tarfs__find_entry(vfs, path, &entry);
 
   memset(info, 0, sizeof(*info));
 
-- 
2.43.0


From edfbfecacc4d8f35d4a521d0b683b1583770da15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:27 +0000
Subject: [PATCH 020/140] fix: tar reads advance the position past data that
 could not be read

---
 src/tar_fs.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 29a7b9a..5421fc5 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -326,15 +326,18 @@ static ptrdiff_t tarfs__file_read(EvfsFile *fh, void *buf, size_t size) {
   evfs_off_t remaining = fil->file_size - fil->read_pos;
   if(remaining <= 0) return 0;
 
-  if((evfs_off_t)size > remaining)
+  if(size > (size_t)remaining)
     size = remaining;
 
   LOCK();
-  evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos, EVFS_SEEK_TO);
-  fil->read_pos += size;
-  ptrdiff_t rval = evfs_file_read(fs_data->tar_file, buf, size);
+  ptrdiff_t rval = evfs_file_seek(fs_data->tar_file, fil->header_offset + TAR_BLOCK_SIZE + fil->read_pos, EVFS_SEEK_TO);
+  if(rval == EVFS_OK)
+    rval = evfs_file_read(fs_data->tar_file, buf, size);
   UNLOCK();
 
+  if(rval > 0)
+    fil->read_pos += rval;
+
   return rval;
 }
 
-- 
2.43.0


From 451957ec6c39c853f26ad1ea52441bf677a60b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:29 +0000
Subject: [PATCH 021/140] fix: files in tar archives made relative to '.' or
 '/' can't be opened

---
 src/tar_fs.c      | 11 +++++++++++
 src/tar_rsrc_fs.c | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/tar_fs.c b/src/tar_fs.c
index 5421fc5..807ec30 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -264,6 +264,17 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
         path[--key.length] = '\0';
     }
 
+    // Entries are looked up relative to the root
+    while(path[0] == '/' || (path[0] == '.' && path[1] == '/')) {
+      path++;
+      key.length--;
+    }
+    key.data = path;
+
+    // The root itself isn't indexed
+    if(key.length == 0 || (key.length == 1 && path[0] == '.'))
+      continue;
+
     if(!dh_insert(&ht->hash_table, key, &entry))
       return EVFS_ERR;
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 7ccb2c1..b8b035b 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -274,6 +274,17 @@ static int tarfs__build_index(TarRsrcIterator *tar_it, EvfsTarIndex *ht) {
         path[--key.length] = '\0';
     }
 
+    // Entries are looked up relative to the root
+    while(path[0] == '/' || (path[0] == '.' && path[1] == '/')) {
+      path++;
+      key.length--;
+    }
+    key.data = path;
+
+    // The root itself isn't indexed
+    if(key.length == 0 || (key.length == 1 && path[0] == '.'))
+      continue;
+
     if(!dh_insert(&ht->hash_table, key, &entry))
       return EVFS_ERR;
 
-- 
2.43.0


From c9bf98e580359120be656e02ae34d512c765d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 022/140] fix: tar registration ignores a failure to index the
 archive

---
 include/evfs/tar_iter.h |  2 ++
 src/tar_fs.c            | 13 +++++++++++--
 src/tar_iter.c          | 28 +++++++++++++++++++++++-----
 src/tar_rsrc_fs.c       |  8 +++++++-
 4 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/include/evfs/tar_iter.h b/include/evfs/tar_iter.h
index dade3a0..b04ea24 100644
--- a/include/evfs/tar_iter.h
+++ b/include/evfs/tar_iter.h
@@ -13,6 +13,8 @@ typedef struct TarFileIterator {
   evfs_off_t header_offset;  // Offset within tar file
   evfs_off_t file_size;      // Size of current archived file
 
+  bool io_error;             // Iteration stopped by a failed file operation
+
 } TarFileIterator;
 
 #ifdef __cplusplus
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 807ec30..6ee2fe3 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -223,6 +223,8 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 
   } while(tar_iter_next(tar_it));
 
+  if(tar_it->io_error) return EVFS_ERR_IO; // Don't mistake this for the end of the archive
+
 
   // Prepare the hash index
   int err = tarfs__index_hash_init(ht, total_files, total_path_len);
@@ -233,7 +235,7 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
   range_init(&keys_r, ht->keys, total_path_len);
 
   // Build the index
-  tar_iter_begin(tar_it);
+  if(!tar_iter_begin(tar_it)) return EVFS_ERR;
 
   do {
     // Only index plain files and directories
@@ -280,6 +282,7 @@ static int tarfs__build_index(TarFileIterator *tar_it, EvfsTarIndex *ht) {
 
   } while(tar_iter_next(tar_it));
 
+  if(tar_it->io_error) return EVFS_ERR_IO;
 
   return EVFS_OK;
 }
@@ -592,7 +595,12 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
   TarFileIterator tar_it;
   tar_iter_init(&tar_it, fs_data->tar_file);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int status = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(status != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
+    evfs_free(new_vfs);
+    return status;
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -611,6 +619,7 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
diff --git a/src/tar_iter.c b/src/tar_iter.c
index cae7629..643139b 100644
--- a/src/tar_iter.c
+++ b/src/tar_iter.c
@@ -90,16 +90,26 @@ static bool tar__file_size(TarHeader *header, evfs_off_t archive_size, evfs_off_
 static bool tar__get_header(TarFileIterator *tar_it, TarHeader *header) {
   tar_it->header_offset = evfs_file_tell(tar_it->fd);
 
-  if(evfs_file_read(tar_it->fd, header, TAR_HEADER_SIZE) != TAR_HEADER_SIZE)
+  ptrdiff_t read = evfs_file_read(tar_it->fd, header, TAR_HEADER_SIZE);
+  if(read < 0 || tar_it->header_offset < 0)
+    tar_it->io_error = true;
+
+  if(read != TAR_HEADER_SIZE)
     goto fail;
 
   if(tar__valid_header(header)) {
     // Seek to start of next 512 byte TAR block for file data
-    if(evfs_file_seek(tar_it->fd, TAR_BLOCK_SIZE - TAR_HEADER_SIZE, EVFS_SEEK_REL) != EVFS_OK)
+    if(evfs_file_seek(tar_it->fd, TAR_BLOCK_SIZE - TAR_HEADER_SIZE, EVFS_SEEK_REL) != EVFS_OK) {
+      tar_it->io_error = true;
       goto fail;
+    }
 
     // Extract fields
-    if(!tar__file_size(header, evfs_file_size(tar_it->fd), tar_it->header_offset, &tar_it->file_size))
+    evfs_off_t archive_size = evfs_file_size(tar_it->fd);
+    if(archive_size < 0)
+      tar_it->io_error = true;
+
+    if(!tar__file_size(header, archive_size, tar_it->header_offset, &tar_it->file_size))
       goto fail;
 
     return true;
@@ -114,8 +124,12 @@ fail:
 
 
 bool tar_iter_seek(TarFileIterator *tar_it, evfs_off_t offset) {
-  if(evfs_file_seek(tar_it->fd, offset, EVFS_SEEK_TO) != EVFS_OK)
+  tar_it->io_error = false;
+
+  if(evfs_file_seek(tar_it->fd, offset, EVFS_SEEK_TO) != EVFS_OK) {
+    tar_it->io_error = true;
     return false;
+  }
 
   return tar__get_header(tar_it, &tar_it->cur_header);
 }
@@ -126,8 +140,12 @@ bool tar_iter_next(TarFileIterator *tar_it) {
   evfs_off_t file_blocks = (tar_it->file_size + TAR_BLOCK_SIZE-1) / TAR_BLOCK_SIZE;
   evfs_off_t next_header = tar_it->header_offset + (file_blocks+1) * TAR_BLOCK_SIZE;
 
-  if(evfs_file_seek(tar_it->fd, next_header, EVFS_SEEK_TO) != EVFS_OK)
+  tar_it->io_error = false;
+
+  if(evfs_file_seek(tar_it->fd, next_header, EVFS_SEEK_TO) != EVFS_OK) {
+    tar_it->io_error = true;
     return false;
+  }
 
   return tar__get_header(tar_it, &tar_it->cur_header);
 }
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index b8b035b..5c9dc8f 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -613,7 +613,12 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
   TarRsrcIterator tar_it;
   tar_rsrc_iter_init(&tar_it, resource, resource_len);
-  tarfs__build_index(&tar_it, &fs_data->tar_index);
+  int status = tarfs__build_index(&tar_it, &fs_data->tar_index);
+  if(status != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
+    evfs_free(new_vfs);
+    return status;
+  }
 
   // Init VFS
   new_vfs->vfs_file_size = sizeof(TarfsFile);
@@ -632,6 +637,7 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
 
 #ifdef USE_TARFS_LOCK
   if(evfs__lock_init(&fs_data->tfs_lock) != EVFS_OK) {
+    tarfs__index_hash_free(&fs_data->tar_index);
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
-- 
2.43.0


From a77993e9992174d4ab20c0c26aec1a7ac822dc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 023/140] fix: romfs trusts offsets, sizes and links in the
 image and ignores failures to index it

---
 include/evfs/romfs_common.h |   2 +
 src/romfs_common.c          | 332 ++++++++++++++++++------------------
 2 files changed, 167 insertions(+), 167 deletions(-)

diff --git a/include/evfs/romfs_common.h b/include/evfs/romfs_common.h
index 0fcc3d7..cd01859 100644
--- a/include/evfs/romfs_common.h
+++ b/include/evfs/romfs_common.h
@@ -13,6 +13,7 @@
 #define FILE_EX_MASK    0x08
 
 #define FILE_OFFSET(hdr) ((hdr)->offset & ~0xF)
+#define SPEC_OFFSET(hdr) ((hdr)->spec_info & ~0xF)
 #define FILE_TYPE(hdr) ((hdr)->offset & FILE_TYPE_MASK)
 #define FILE_MODE(hdr) ((hdr)->offset & FILE_MODE_MASK)
 
@@ -88,6 +89,7 @@ int romfs_init(Romfs *fs, RomfsConfig *cfg);
 
 
 bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr);
+int romfs_resolve_link(Romfs *fs, RomfsFileHead *hdr);
 
 
 static inline ptrdiff_t romfs_read(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
diff --git a/src/romfs_common.c b/src/romfs_common.c
index 0e163f1..023a427 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -24,50 +24,96 @@ static inline int file_header_len(RomfsFileHead *hdr) {
 }
 
 
-// Read Romfs file header from image
-bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
+// Read Romfs file header from image with error status
+static int romfs__read_header(Romfs *fs, evfs_off_t hdr_pos, RomfsFileHead *hdr) {
   memset(hdr, 0, sizeof(*hdr));
 
+  if(hdr_pos < 0 || hdr_pos >= fs->total_size)
+    return EVFS_ERR_INVALID;
+
   ptrdiff_t buf_len = romfs_read(fs, hdr_pos, hdr, sizeof(*hdr));
+  if(buf_len < 0)
+    return EVFS_ERR_IO;
+
   if(buf_len < ROMFS_MIN_HEADER_SIZE)
-    return false;
+    return EVFS_ERR_INVALID;
 
   int header_len = file_header_len(hdr);
 
   // Verify checksum
-  int32_t checksum = 0;
+  uint32_t checksum = 0;
   for(int i = 0; i < header_len / 4; i++) {
     checksum += get_unaligned_be(&((uint32_t *)hdr)[i]);
   }
 
   if(checksum != 0)
-    return false;
+    return EVFS_ERR_INVALID;
+
+  hdr->file_name[EVFS_ROMFS_MAX_NAME_LEN-1] = '\0';
 
   hdr->offset       = get_unaligned_be(&hdr->offset);
   hdr->spec_info    = get_unaligned_be(&hdr->spec_info);
   hdr->size         = get_unaligned_be(&hdr->size);
   hdr->header_len   = header_len; // Overwrite checksum
 
-  return true;
+  // Directory entries are stored in order
+  // Anything else could put us in an endless loop
+  if(FILE_OFFSET(hdr) != 0 && FILE_OFFSET(hdr) <= (uint32_t)hdr_pos)
+    return EVFS_ERR_INVALID;
+
+  // File data must be within the image
+  if(FILE_TYPE(hdr) == FILE_TYPE_REGULAR_FILE &&
+     (int64_t)hdr_pos + header_len + (int64_t)hdr->size > fs->total_size)
+    return EVFS_ERR_INVALID;
+
+  return EVFS_OK;
 }
 
+
+// Read Romfs file header from image
+bool romfs_read_file_header(Romfs *fs, long hdr_pos, RomfsFileHead *hdr) {
+  return romfs__read_header(fs, hdr_pos, hdr) == EVFS_OK;
+}
+
+
+// Replace a hard link with the header of its target
+int romfs_resolve_link(Romfs *fs, RomfsFileHead *hdr) {
+  if(FILE_TYPE(hdr) != FILE_TYPE_HARD_LINK)
+    return EVFS_OK;
+
+  evfs_off_t target = SPEC_OFFSET(hdr);
+  int status = romfs__read_header(fs, target, hdr);
+
+  if(status == EVFS_OK && FILE_TYPE(hdr) == FILE_TYPE_HARD_LINK) // Links only refer to real files
+    status = EVFS_ERR_INVALID;
+
+  if(status == EVFS_OK)
+    hdr->offset = target | FILE_MODE(hdr); // Replace with offset of the target
+
+  return status;
+}
+
+
 // Scan a directory for file from a path
-static bool romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
+static int romfs__find_path_elem(Romfs *fs, evfs_off_t dir_pos, StringRange *element, RomfsFileHead *hdr) {
   evfs_off_t cur_hdr = dir_pos;
 
   while(cur_hdr != 0) {
-    if(!romfs_read_file_header(fs, cur_hdr, hdr))
+    int status = romfs__read_header(fs, cur_hdr, hdr);
+    if(status == EVFS_ERR_IO)
+      return status;
+    if(status != EVFS_OK)
       break;
 
     if(range_eq(element, hdr->file_name)) {
       hdr->offset = cur_hdr | FILE_MODE(hdr); // Replace with offset of the element
-      return true;
+      return EVFS_OK;
     }
 
     cur_hdr = FILE_OFFSET(hdr);
   }
 
-  return false;
+  return EVFS_ERR_NO_PATH;
 }
 
 #ifdef EVFS_USE_ROMFS_FAST_INDEX
@@ -82,10 +128,12 @@ static int romfs__fast_lookup_abs_path(Romfs *fs, const char *path, RomfsFileHea
 
   alignas(uintptr_t) evfs_off_t entry;
   if(dh_lookup(&fs->fast_index.hash_table, key, &entry)) {
-    romfs_read_file_header(fs, entry, hdr);
+    status = romfs__read_header(fs, entry, hdr);
     //DPRINT("## FAST LOOKUP: @ %08X %08X %s -> '%s'", entry, FILE_OFFSET(hdr), path, hdr->file_name);
-    hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
-    status = EVFS_OK;
+    if(status == EVFS_OK) {
+      hdr->offset = entry | FILE_MODE(hdr); // Replace with offset of the element
+      status = romfs_resolve_link(fs, hdr);
+    }
   } else {
     status = EVFS_ERR_NO_PATH;
   }
@@ -123,37 +171,25 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
   bool end_scan;
 
   if(status != EVFS_OK) { // Assume this is the root path
-    return romfs_read_file_header(fs, dir_pos, hdr) ? EVFS_OK : EVFS_ERR_NO_PATH;
+    status = romfs__read_header(fs, dir_pos, hdr);
+    hdr->offset = dir_pos | FILE_MODE(hdr);
+    return status;
   }
 
   while(status == EVFS_OK) {
-    int file_type = -1;
     end_scan = false;
 
-    if(romfs__find_path_elem(fs, dir_pos, &element, hdr)) {
-      file_type = FILE_TYPE(hdr);
-      switch(file_type) {
+    int elem_status = romfs__find_path_elem(fs, dir_pos, &element, hdr);
+    if(elem_status == EVFS_OK)
+      elem_status = romfs_resolve_link(fs, hdr);
 
-      case FILE_TYPE_HARD_LINK:
-        dir_pos = hdr->spec_info;  // Follow link dest
-        romfs_read_file_header(fs, dir_pos, hdr); // Reparse header (should never fail)
-        dir_pos = hdr->spec_info; // First file in dir
-        //DPRINT("FOLLOW LINK: %08X", dir_pos);
-        break;
+    if(elem_status != EVFS_OK) // No match for element
+      return elem_status;
 
-      case FILE_TYPE_DIRECTORY:
-        dir_pos = hdr->spec_info; // First file in dir
-        //DPRINT("FOLLOW DIR: %.*s  %08X --> %08X", RANGE_FMT(&element), FILE_OFFSET(hdr), dir_pos);
-        break;
-
-      default: // Should be last element of path
-        end_scan = true;
-        break;
-      }
-
-    } else { // No match for element
-      return EVFS_ERR_NO_PATH;
-    }
+    if(FILE_TYPE(hdr) == FILE_TYPE_DIRECTORY)
+      dir_pos = SPEC_OFFSET(hdr); // First file in dir
+    else
+      end_scan = true; // Should be last element of path
 
     status = romfs__scan_path(NULL, &element); // Get next element in path
 
@@ -161,7 +197,7 @@ static int romfs__lookup_abs_path(Romfs *fs, const char *path, RomfsFileHead *hd
       // If we terminated path on last element then status should be EVFS_ERR
       return (status == EVFS_ERR) ? EVFS_OK : EVFS_ERR_NO_PATH;
 
-    } else { // A directory or link
+    } else { // A directory
       if(status == EVFS_ERR) // If path scan terminated we are done
         return EVFS_OK;
     }
@@ -189,11 +225,11 @@ static int romfs__validate(Romfs *fs) {
   if(get_unaligned_le(&buf[0]) == 0x6D6F722D && get_unaligned_le(&buf[1]) == 0x2D736631) {
     uint32_t fs_bytes = get_unaligned_be(&buf[2]);
 
-    if(ASSERT((evfs_off_t)fs_bytes <= fs->total_size, "Invalid Romfs size"))
+    if(ASSERT((int64_t)fs_bytes <= fs->total_size, "Invalid Romfs size"))
       return EVFS_ERR_INVALID;
 
     // Iterate over chunks to verify checksum
-    int32_t checksum = 0;
+    uint32_t checksum = 0;
 
     for(int c = 0; c < SUPERBLOCK_LEN / CHUNK_LEN; c++) {
       buf_len /= 4;
@@ -210,7 +246,10 @@ static int romfs__validate(Romfs *fs) {
     if(checksum == 0) { // Valid superblock
       // Read first chunk again
       chunk_pos = 0;
+      memset(buf, 0, sizeof(buf));
       buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
+      if(buf_len < ROMFS_MIN_HEADER_SIZE)
+        return EVFS_ERR_IO;
 
       char *vol_name = (char *)&buf[4];
       //DPRINT("VOLUME: '%s'", vol_name);
@@ -261,165 +300,104 @@ static void romfs__fast_index_free(RomfsIndex *ht) {
 
 
 
-static int romfs__get_next_file(Romfs *fs, RomfsFileHead *cur_file, evfs_off_t *cur_file_offset) {
-  *cur_file_offset = FILE_OFFSET(cur_file);
-  if(*cur_file_offset == 0)
-    return EVFS_DONE;
-
-  return romfs_read_file_header(fs, *cur_file_offset, cur_file) ? EVFS_OK : EVFS_ERR;
+static inline bool romfs__is_dots(RomfsFileHead *hdr) {
+  return !strcmp(hdr->file_name, ".") || !strcmp(hdr->file_name, "..");
 }
 
 
-static int romfs__get_dir(Romfs *fs, const char *path, RomfsFileHead *hdr,
-                                evfs_off_t *cur_file_offset, evfs_off_t *dir_pos) {
-
-  StringRange element;
-  int status = romfs__scan_path(path, &element); // Get first element in path
-  bool is_root = status != EVFS_OK; // Assume this is the root path if scan failed
-
-  status = fs->lookup_abs_path(fs, path, hdr);
-
+// Build path for an entry within a directory
+static char *romfs__join_path(const char *dir_path, size_t path_len, const char *file_name) {
+  char *path = evfs_malloc(path_len+1);
+  if(MEM_CHECK(path)) return NULL;
 
-  if(dir_pos)
-    *dir_pos = is_root ? (uint32_t)fs->root_dir : FILE_OFFSET(hdr); // Offset to the dir entry
+  AppendRange path_r;
+  range_init(&path_r, path, path_len+1);
+  range_cat_fmt(&path_r, "%s/%s", dir_path, file_name);
 
-  //DPRINT("romfs__get_dir('%s') --> %d %02X  @ %u", path, status, FILE_MODE(hdr), FILE_OFFSET(hdr));
-  if(status == EVFS_OK && FILE_TYPE(hdr) != FILE_TYPE_DIRECTORY) {
-    status = EVFS_ERR_NO_PATH;
-  }
-
-  if(status == EVFS_OK) {
-    // Get first file in directory
-    romfs_read_file_header(fs, hdr->spec_info, hdr) ? EVFS_OK : EVFS_ERR;
-
-    // Skip hard link entries
-    romfs__get_next_file(fs, hdr, cur_file_offset);
-
-    status = romfs__get_next_file(fs, hdr, cur_file_offset);
-  }
-
-  return status;
+  return path;
 }
 
 
-
-
 // Recursively scan the filesystem and collect stats on all paths
-static size_t scan_dir_tree(Romfs *fs, const char *path, size_t prefix_len, int *total_files) {
+static int scan_dir_tree(Romfs *fs, evfs_off_t entry_pos, size_t prefix_len,
+                         int *total_files, size_t *total_path_len) {
   RomfsFileHead cur_file;
-  evfs_off_t    cur_file_offset;
-  int status;
 
-  size_t total_path_len = 0;
+  while(entry_pos != 0) {
+    int status = romfs__read_header(fs, entry_pos, &cur_file);
+    if(status == EVFS_ERR_IO)
+      return status;
+    if(status != EVFS_OK) // Ignore what we can't access
+      break;
 
-  status = romfs__get_dir(fs, path, &cur_file, &cur_file_offset, NULL);
-  //DPRINT("OPEN DIR: %s %d", path, status);
+    if(!romfs__is_dots(&cur_file)) {
+      // Directories sharing their entries would make the tree grow without bounds
+      if(++(*total_files) > fs->total_size / ROMFS_MIN_HEADER_SIZE)
+        return EVFS_ERR_INVALID;
 
-  do {
-    if(status == EVFS_OK) {
-      //DPRINT("  '%s'  %08X  %08X", cur_file.file_name, cur_file_offset, FILE_OFFSET(&cur_file));
-      (*total_files)++;
+      size_t path_len = prefix_len + 1 + strlen(cur_file.file_name);
+      *total_path_len += path_len; // No leading slash but with NUL
 
       if(FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY) {
-        // Build path to sub directory
-        size_t new_prefix_len = prefix_len + 1 + strlen(cur_file.file_name);
-        total_path_len += new_prefix_len; // Entry for the directory
-
-        char *sub_path = malloc(new_prefix_len+1);
-        if(MEM_CHECK(sub_path)) return 0;
-
-        AppendRange sub_path_r;
-        range_init(&sub_path_r, sub_path, new_prefix_len+1);
-        range_cat_str(&sub_path_r, path);
-        range_cat_char(&sub_path_r, '/');
-        range_cat_str(&sub_path_r, cur_file.file_name);
-
-        //DPRINT("SUB PATH: '%s'  %08X", sub_path, cur_file_offset);
-        total_path_len += scan_dir_tree(fs, sub_path, new_prefix_len, total_files);
-        free(sub_path);
-
-      } else { // Normal file
-        total_path_len += prefix_len + 1 + strlen(cur_file.file_name);
+        status = scan_dir_tree(fs, SPEC_OFFSET(&cur_file), path_len, total_files, total_path_len);
+        if(status != EVFS_OK)
+          return status;
       }
-
-      status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
     }
-  } while(status == EVFS_OK);
 
-  return total_path_len;
+    entry_pos = FILE_OFFSET(&cur_file);
+  }
+
+  return EVFS_OK;
 }
 
 
 // Recursively scan the filesystem to add hash table indices
-static int index_dir_tree(Romfs *fs, const char *path, size_t prefix_len, RomfsIndex *ht, AppendRange *keys_r) {
+static int index_dir_tree(Romfs *fs, evfs_off_t entry_pos, const char *dir_path, RomfsIndex *ht, AppendRange *keys_r) {
   RomfsFileHead cur_file;
-  evfs_off_t    cur_file_offset = 0;
-  int status;
   dhKey key;
   alignas(uintptr_t) evfs_off_t entry;
 
-  status = romfs__get_dir(fs, path, &cur_file, &cur_file_offset, &entry);
-  //DPRINT("INDEX, OPEN DIR: %s %d", path, status);
-
-  // Prepare key
-  key.data = keys_r->start;
-  key.length = 0;
-
-  if(prefix_len > 0)
-    key.length += range_cat_str(keys_r, &path[1]); // Skip leading '/'
-  else
-    key.length += range_cat_str(keys_r, "");
-  range_cat_char(keys_r,'\0');
-
-  if(!dh_insert(&ht->hash_table, key, &entry))
-    return EVFS_ERR;
-
-  //DPRINT("## INDEX DIR: '%s' @ %08X", key.data, entry);
-
-  do {
-    if(status == EVFS_OK) {
-      //DPRINT("  '%s'", cur_file.file_name);
-
-      if(FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY) {
-        // Build path to sub directory
-        size_t new_prefix_len = prefix_len + 1 + strlen(cur_file.file_name);
-
-        char *sub_path = malloc(new_prefix_len+1);
-        if(MEM_CHECK(sub_path)) return EVFS_ERR_ALLOC;
+  while(entry_pos != 0) {
+    int status = romfs__read_header(fs, entry_pos, &cur_file);
+    if(status == EVFS_ERR_IO)
+      return status;
+    if(status != EVFS_OK)
+      break;
 
-        AppendRange sub_path_r;
-        range_init(&sub_path_r, sub_path, new_prefix_len+1);
-        range_cat_str(&sub_path_r, path);
-        range_cat_char(&sub_path_r, '/');
-        range_cat_str(&sub_path_r, cur_file.file_name);
+    if(!romfs__is_dots(&cur_file)) {
+      size_t path_len = strlen(dir_path) + 1 + strlen(cur_file.file_name);
+      if(path_len > range_size((StringRange *)keys_r))
+        return EVFS_ERR_OVERFLOW;
 
-        //DPRINT("SUB PATH: '%s'", sub_path);
+      char *path = romfs__join_path(dir_path, path_len, cur_file.file_name);
+      if(!path)
+        return EVFS_ERR_ALLOC;
 
-        index_dir_tree(fs, sub_path, new_prefix_len, ht, keys_r);
-        free(sub_path);
+      // Prepare key
+      key.data = keys_r->start;
+      key.length = path_len - 1;
+      memcpy(keys_r->start, &path[1], path_len); // Skip leading '/'
+      keys_r->start += path_len;
 
-      } else { // Normal file
-        // Prepare key
-        key.data = keys_r->start;
-        key.length = 0;
+      // The first of any repeated names is the one in use
+      entry = entry_pos;
+      if(!dh_exists(&ht->hash_table, key) && !dh_insert(&ht->hash_table, key, &entry))
+        status = EVFS_ERR;
 
-        if(prefix_len > 0) {
-          key.length += range_cat_str(keys_r, &path[1]); // Skip leading '/'
-          key.length += range_cat_char(keys_r,'/');
-        }
-        key.length += range_cat_str(keys_r, cur_file.file_name);
-        range_cat_char(keys_r,'\0');
+      //DPRINT("## INDEX: %s @ %08X", key.data, entry);
 
-        entry = cur_file_offset;
-        if(!dh_insert(&ht->hash_table, key, &entry))
-          return EVFS_ERR;
+      if(status == EVFS_OK && FILE_TYPE(&cur_file) == FILE_TYPE_DIRECTORY)
+        status = index_dir_tree(fs, SPEC_OFFSET(&cur_file), path, ht, keys_r);
 
-        //DPRINT("## INDEX FIL: %s @ %08X", key.data, entry);
-      }
+      evfs_free(path);
 
-      status = romfs__get_next_file(fs, &cur_file, &cur_file_offset);
+      if(status != EVFS_OK)
+        return status;
     }
-  } while(status == EVFS_OK);
+
+    entry_pos = FILE_OFFSET(&cur_file);
+  }
 
   return EVFS_OK;
 }
@@ -432,7 +410,15 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
   size_t total_path_len = 0;
   int total_files = 0;
 
-  total_path_len = scan_dir_tree(fs, "", 0, &total_files);
+  RomfsFileHead root;
+  status = romfs__read_header(fs, fs->root_dir, &root);
+  if(status != EVFS_OK)
+    return status;
+
+  status = scan_dir_tree(fs, SPEC_OFFSET(&root), 0, &total_files, &total_path_len);
+  if(status != EVFS_OK)
+    return status;
+
   // Add space for root entry
   total_files++;
   total_path_len += 1;
@@ -443,12 +429,24 @@ static int romfs__build_index(Romfs *fs, RomfsIndex *ht) {
     AppendRange keys_r;
     range_init(&keys_r, ht->keys, total_path_len);
 
-    status = index_dir_tree(fs, "", 0, ht, &keys_r);
+    // Root entry
+    alignas(uintptr_t) evfs_off_t entry = fs->root_dir;
+    dhKey key = {.data = keys_r.start, .length = 0};
+    *keys_r.start++ = '\0';
+
+    if(!dh_insert(&ht->hash_table, key, &entry))
+      status = EVFS_ERR;
+
+    if(status == EVFS_OK)
+      status = index_dir_tree(fs, SPEC_OFFSET(&root), "", ht, &keys_r);
     //dump_array((uint8_t *)ht->keys, total_path_len);
 
     fs->lookup_abs_path = romfs__fast_lookup_abs_path;
   }
 
+  if(status != EVFS_OK)
+    romfs__fast_index_free(ht);
+
   return status;
 }
 
@@ -468,7 +466,7 @@ int romfs_init(Romfs *fs, RomfsConfig *cfg) {
 
 #ifdef EVFS_USE_ROMFS_FAST_INDEX
   if(status == EVFS_OK) {
-    romfs__build_index(fs, &fs->fast_index);
+    status = romfs__build_index(fs, &fs->fast_index);
   }
 #endif
 
-- 
2.43.0


From 83e90873c52b44115067dbd5f50f61f26b1d52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 024/140] fix: romfs reads advance the position past data that
 could not be read

---
 src/romfs_fs.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 320451a..6488734 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -194,13 +194,14 @@ static ptrdiff_t romfs__file_read(EvfsFile *fh, void *buf, size_t size) {
   evfs_off_t remaining = fil->hdr.size - fil->read_pos;
   if(remaining <= 0) return 0;
 
-  if((evfs_off_t)size > remaining)
+  if(size > (size_t)remaining)
     size = remaining;
 
   LOCK();
   evfs_off_t data_offset = FILE_OFFSET(&fil->hdr) + fil->hdr.header_len + fil->read_pos;
   ptrdiff_t rval = romfs_read(&fs_data->romfs, data_offset, buf, size);
-  fil->read_pos += size;
+  if(rval > 0)
+    fil->read_pos += rval;
   UNLOCK();
 
   //DPRINT("## READ: @ %ld,  %ld  '%02X'", fil->read_pos-size, size, *((uint8_t *)buf));
@@ -588,7 +589,10 @@ static void romfs_unmount_image(Romfs *fs) {
 
 static ptrdiff_t romfs_read_image(Romfs *fs, evfs_off_t offset, void *buf, size_t size) {
   EvfsFile *image = (EvfsFile *)fs->ctx;
-  evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  int status = evfs_file_seek(image, offset, EVFS_SEEK_TO);
+  if(status != EVFS_OK)
+    return status;
+
   return evfs_file_read(image, buf, size);
 }
 
@@ -630,7 +634,7 @@ ptrdiff_t romfs_read_rsrc(Romfs *fs, evfs_off_t offset, void *buf, size_t size)
     return EVFS_ERR_OVERFLOW;
 
   evfs_off_t remain = fs->total_size - offset;
-  size = MIN((evfs_off_t)size, remain);
+  size = MIN(size, (size_t)remain);
 
   memcpy(buf, fs_base + offset, size);
 
-- 
2.43.0


From 00d9bc64bda04640565a64c3119e25b86495af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 025/140] fix: romfs directory listing reports links to files
 as directories and errors as the end

---
 src/romfs_fs.c | 55 +++++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 6488734..c2a5d43 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -80,7 +80,7 @@ typedef struct RomfsDir {
   RomfsData    *fs_data;
 
   evfs_off_t    dir_pos;
-  evfs_off_t    cur_file_offset; // Iterator position
+  evfs_off_t    cur_file_offset; // Iterator position (next entry)
   RomfsFileHead cur_file;
   bool          is_reset;
 } RomfsDir;
@@ -284,42 +284,51 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   RomfsDir *dir = (RomfsDir *)dh;
   RomfsData *fs_data = (RomfsData *)dir->fs_data;
 
-  int status;
-  evfs_off_t next_entry;
+  int status = EVFS_OK;
+  RomfsFileHead hdr;
 
   // Advance to next directory
   if(dir->is_reset) { // Init iterator
-    romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &dir->cur_file);
-    next_entry = dir->cur_file.spec_info;
-    dir->is_reset = false;
-
-    if(fs_data->cfg_no_dir_dots) { // Skip over hard links
-      romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file); // Skip "."
-      romfs_read_file_header(&fs_data->romfs, FILE_OFFSET(&dir->cur_file), &dir->cur_file); // Skip ".."
-      next_entry = FILE_OFFSET(&dir->cur_file);
+    if(romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &hdr)) {
+      dir->cur_file_offset = SPEC_OFFSET(&hdr);
+      dir->is_reset = false;
+    } else {
+      status = EVFS_ERR_IO;
     }
-
-  } else { // Already initialized
-    next_entry = FILE_OFFSET(&dir->cur_file);
   }
 
-  if(next_entry > 0) {
-    dir->cur_file_offset = next_entry;
-    status = romfs_read_file_header(&fs_data->romfs, next_entry, &dir->cur_file) ? EVFS_OK : EVFS_DONE;
+  while(status == EVFS_OK) {
+    if(dir->cur_file_offset == 0) { // Iteration complete
+      status = EVFS_DONE;
 
-  } else { // Iteration complete
-    status = EVFS_DONE;
-  }
+    } else if(!romfs_read_file_header(&fs_data->romfs, dir->cur_file_offset, &hdr)) {
+      status = EVFS_ERR_IO;
+
+    } else {
+      // Skip over hard links
+      bool skip = fs_data->cfg_no_dir_dots && (!strcmp(hdr.file_name, ".") || !strcmp(hdr.file_name, ".."));
+
+      if(!skip) {
+        dir->cur_file = hdr;
+        if(romfs_resolve_link(&fs_data->romfs, &hdr) != EVFS_OK)
+          status = EVFS_ERR_IO;
+      }
+
+      if(status == EVFS_OK)
+        dir->cur_file_offset = skip ? FILE_OFFSET(&hdr) : FILE_OFFSET(&dir->cur_file);
 
+      if(!skip)
+        break;
+    }
+  }
 
   memset(info, 0, sizeof(*info));
 
   if(status == EVFS_OK) {
     info->name = dir->cur_file.file_name;
-    info->size = dir->cur_file.size;
+    info->size = hdr.size;
 
-    int file_type = FILE_TYPE(&dir->cur_file);
-    if(file_type == FILE_TYPE_DIRECTORY || file_type == FILE_TYPE_HARD_LINK)
+    if(FILE_TYPE(&hdr) == FILE_TYPE_DIRECTORY)
       info->type |= EVFS_FILE_DIR;
   }
 
-- 
2.43.0


From f02114e46501fda4478b7f9bbc10aa16a111df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 026/140] fix: romfs lookups miss unnormalized absolute paths
 and hide why they failed

---
 src/romfs_fs.c | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index c2a5d43..1ee99b8 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -358,16 +358,9 @@ static EvfsDirMethods s_romfs_dir_methods = {
 
 static inline int romfs__lookup_path(Evfs *vfs, RomfsData *fs_data, const char *path,
                                     RomfsFileHead *hdr) {
-  int status;
-
-  if(evfs_vfs_path_is_absolute(vfs, path)) {
-    status = romfs_lookup_abs_path(&fs_data->romfs, path, hdr);
-
-  } else { // Convert relative path
-    MAKE_ABS(path, abs_path);
-    status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr);
-    FREE_ABS(abs_path);
-  }
+  MAKE_ABS(path, abs_path);
+  int status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr);
+  FREE_ABS(abs_path);
 
   return status;
 }
@@ -389,10 +382,8 @@ static int romfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   int status = romfs__lookup_path(vfs, fs_data, path, &fil->hdr);
 
   // Must be a plain file
-  int file_type = FILE_TYPE(&fil->hdr);
-  if(file_type != FILE_TYPE_REGULAR_FILE) {
+  if(status == EVFS_ERR_NO_PATH || (status == EVFS_OK && FILE_TYPE(&fil->hdr) != FILE_TYPE_REGULAR_FILE))
     status = EVFS_ERR_NO_FILE;
-  }
 
   return status;
 }
@@ -410,8 +401,7 @@ static int romfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   if(status >= 0) {
     info->size = hdr.size;
 
-    int file_type = FILE_TYPE(&hdr);
-    if(file_type == FILE_TYPE_DIRECTORY || file_type == FILE_TYPE_HARD_LINK)
+    if(FILE_TYPE(&hdr) == FILE_TYPE_DIRECTORY)
       info->type |= EVFS_FILE_DIR;
   }
 
@@ -432,8 +422,7 @@ static int romfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   int status = romfs__lookup_path(vfs, fs_data, path, &hdr);
 
-  int file_type = FILE_TYPE(&hdr);
-  if(status == EVFS_OK && file_type != FILE_TYPE_DIRECTORY) {
+  if(status == EVFS_OK && FILE_TYPE(&hdr) != FILE_TYPE_DIRECTORY) {
     status = EVFS_ERR_NO_PATH;
   }
 
-- 
2.43.0


From 7876353d9069ee77b29fdcdfb012f4485ba330a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:47 +0000
Subject: [PATCH 027/140] fix: failed romfs registration leaks the file system
 object

---
 src/romfs_fs.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 1ee99b8..7ff9002 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -571,8 +571,13 @@ static int evfs__register_romfs_cfg(const char *vfs_name, RomfsConfig *cfg, bool
     .unmount    = romfs_unmount_image
   };*/
   int status = romfs_init(&fs_data->romfs, cfg);
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
+#ifdef USE_ROMFS_LOCK
+    evfs__lock_destroy(&fs_data->romfs_lock);
+#endif
+    evfs_free(new_vfs);
     return status;
+  }
 
   return evfs_register(new_vfs, default_vfs);
 }
-- 
2.43.0


From 8573fbc66346b9fd9469b6f9a8d864bf140aa5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:23 +0000
Subject: [PATCH 028/140] fix: relative seeks overflow the offset and take a
 failed size query as an offset

---
 src/evfs.c        | 13 +++++++++++--
 src/fatfs_fs.c    |  1 +
 src/shim_rotate.c |  4 +++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 8c3d0aa..182a754 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -170,17 +170,26 @@ bool evfs__vfs_existing_dir(Evfs *vfs, const char *path) {
 
 // Common offset conversion routine for implementations of m_file_seek()
 evfs_off_t evfs__absolute_offset(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
+  const evfs_off_t off_max = sizeof(evfs_off_t) == sizeof(int64_t) ? (evfs_off_t)INT64_MAX : INT32_MAX;
+  evfs_off_t base;
+
   // Compute absolute offset from start of file
   switch(origin) {
     case EVFS_SEEK_TO: // No change
       break;
 
     case EVFS_SEEK_REL:
-      offset += evfs_file_tell(fh);
+      base = evfs_file_tell(fh);
+      if(base < 0) return base;
+
+      offset = (offset > 0 && base > off_max - offset) ? off_max : base + offset;
       break;
 
     case EVFS_SEEK_REV:
-      offset = evfs_file_size(fh) - offset;
+      base = evfs_file_size(fh);
+      if(base < 0) return base;
+
+      offset = (offset < 0 && base > off_max + offset) ? off_max : base - offset;
       break;
 
     default:
diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index e5c15cb..b09dfb6 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -199,6 +199,7 @@ static int fatfs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
   FatfsFile *fil = (FatfsFile *)fh;
 
   offset = evfs__absolute_offset(fh, offset, origin);
+  if(offset < 0) return offset;
 
 /*  // Compute absolute offset from start of file
   switch(origin) {
diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 8d6f611..0bbce61 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1140,7 +1140,9 @@ static int rotate__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin
     evfs_off_t new_off = evfs__absolute_offset(fh, offset, origin);
 
     // Only allow seeks up to the end of the file
-    if(new_off <= rs->base.total_size)
+    if(new_off < 0)
+      status = new_off;
+    else if(new_off <= rs->base.total_size)
       rs->base.file_pos = new_off;
     else
       status = EVFS_ERR_OVERFLOW;
-- 
2.43.0


From a25ff48ca75b58dd24e4c1dc6f75ad3bbf1146d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:52 +0000
Subject: [PATCH 029/140] fix: normalization merges a relative drive prefix
 into the first segment

---
 src/evfs_path.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index a458c0b..8e31277 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -285,8 +285,7 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
   const char *path_start = path;
   StringRange root;
   bool is_absolute = vfs->m_path_root_component(vfs, path, &root);
-  if(is_absolute)
-    path_start += range_size(&root);
+  path_start += range_size(&root); // Relative paths can have a drive letter too
 
   // Iterate over each segment of path
   StringRange token;
@@ -338,8 +337,8 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
 
   bool truncated = false;
 
-  // If absolute path add root prefix
-  if(is_absolute) {
+  // Add root prefix
+  if(range_size(&root) > 0) {
 
     // Copy the un-normalized root
     if(append_normalized_root(vfs, &norm_r, &root))
@@ -399,8 +398,7 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
   const char *path_start = path;
   StringRange root;
   bool is_absolute = vfs->m_path_root_component(vfs, path, &root);
-  if(is_absolute)
-    path_start += range_size(&root);
+  path_start += range_size(&root); // Relative paths can have a drive letter too
 
 
   // Iterate over each segment of path
@@ -448,8 +446,8 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
   // Assemble the stacked tokens into a path
   bool truncated = false;
 
-  // If absolute path add root prefix
-  if(is_absolute) {
+  // Add root prefix
+  if(range_size(&root) > 0) {
     if(append_normalized_root(vfs, normalized, &root))
       truncated = true;
   }
-- 
2.43.0


From b39188b6307ef68b134deec8681ec24eafb4c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:09 +0000
Subject: [PATCH 030/140] fix: root component query with no file system reports
 an error code as an absolute path

---
 src/evfs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 182a754..4951544 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -970,9 +970,9 @@ Returns:
   true when the path is absolute
 */
 bool evfs_path_root_component_ex(const char *path, StringRange *root, const char *vfs_name) {
-  if(PTR_CHECK(path) || PTR_CHECK(root)) return EVFS_ERR_BAD_ARG;
+  if(PTR_CHECK(path) || PTR_CHECK(root)) return false;
   Evfs *vfs = evfs__get_vfs(vfs_name);
-  if(!vfs) THROW(EVFS_ERR_NO_VFS);
+  if(!vfs) return false;
 
   return vfs->m_path_root_component(vfs, path, root);
 }
-- 
2.43.0


From 8a0128fb5d433681e165c4b87f7a27de6d084983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:35 +0000
Subject: [PATCH 031/140] fix: the end of a full rotating log is taken for its
 start, so reads repeat and writes overwrite the oldest chunk

---
 src/shim_rotate.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 0bbce61..803359c 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -372,8 +372,10 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
 
   ChunkPos pos;
   // Offset by start of logical file and wrap to upper bound
-  pos.chunk_num.chunk = (raw_chunk + rs->start_chunk.chunk) % rs->cfg.max_chunks;
-  pos.chunk_num.gen = (pos.chunk_num.chunk < rs->start_chunk.chunk) ?
+  // The chunk after the last one of a full container is the start chunk of the next generation
+  raw_chunk += rs->start_chunk.chunk;
+  pos.chunk_num.chunk = raw_chunk % rs->cfg.max_chunks;
+  pos.chunk_num.gen = (raw_chunk >= rs->cfg.max_chunks) ?
                               1 - rs->start_chunk.gen : rs->start_chunk.gen;
   pos.offset = offset;
   return pos;
-- 
2.43.0


From 93f2cb9ffba139691886b291a46a1c8279549633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:35 +0000
Subject: [PATCH 032/140] fix: writes to a rotating log count overwritten bytes
 as growth, add chunks in mid file and never end when the chunk cannot be
 written

---
 src/shim_rotate.c | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 803359c..61a63f1 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -962,7 +962,7 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
       // If the chunk doesn't exist we need to create it
       if(!chunk_exists(base_vfs, &rs->base, wpos.chunk_num, NULL)) {
         status = append_new_chunk(base_vfs, rs, &new_chunk);
-        if(status != EVFS_OK) return status;
+        if(status != EVFS_OK) break;
 
         // Set new active chunk
         deactivate_chunk(&rs->base);
@@ -972,11 +972,12 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
 
       if(wpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
         status = activate_chunk(base_vfs, &rs->base, wpos.chunk_num);
-        if(status != EVFS_OK) return status;
+        if(status != EVFS_OK) break;
       }
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      status = evfs_file_seek(rs->base.active_chunk_fh, wpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) break;
 
       evfs_off_t free_space = rs->cfg.chunk_size - wpos.offset;
       if(ASSERT(free_space != 0, "No free space to write in chunk")) // This shouldn't happen
@@ -986,24 +987,23 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
 
       ptrdiff_t wrote_chunk = evfs_file_write(rs->base.active_chunk_fh, cbuf, write_size);
       if(wrote_chunk > 0) {
+        // Only data past the end makes the file grow
+        evfs_off_t write_end = cur_write_pos(&rs->base) + wrote_chunk;
+        incr_write_pos(&rs->base, wrote_chunk);
+        if(write_end > rs->base.total_size)
+          rs->base.total_size = write_end;
+
         cbuf += wrote_chunk;
         size -= wrote_chunk;
-        incr_write_pos(&rs->base, wrote_chunk);
         wrote += wrote_chunk;
-        rs->base.total_size += wrote_chunk;
-      }
-
-      // Check if we have more chunks to write
-      if(size > 0) {
-        status = append_new_chunk(base_vfs, rs, &new_chunk);
-        if(status != EVFS_OK) return status;
-        deactivate_chunk(&rs->base);
-        rs->base.active_chunk = wpos.chunk_num;
-        rs->base.active_chunk_fh = new_chunk;
+      } else { // Nothing more can be written
+        status = wrote_chunk < 0 ? wrote_chunk : EVFS_ERR_IO;
+        break;
       }
     }
 
-    if(status != EVFS_OK)
+    // Data written before an error is reported as a short write
+    if(status != EVFS_OK && wrote == 0)
       wrote = status;
   }
 
-- 
2.43.0


From 40de67cc3a3e9a8c77d34d8e77e846494b5d934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 033/140] fix: a rotating log loses track of its chunks when
 the oldest can not be removed or the next can not be created

---
 src/shim_rotate.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 61a63f1..b6ab173 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -493,7 +493,8 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 
     // Remove the old start chunk on wrap around
     if(next.chunk == rs->start_chunk.chunk) {
-      evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+      int status = evict_chunk(base_vfs, &rs->base, rs->start_chunk, NULL);
+      if(status != EVFS_OK) return status;
 
       incr_chunk(rs, &rs->start_chunk);
 
@@ -503,8 +504,6 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
       else
         rs->base.file_pos = 0;
     }
-
-    rs->end_chunk = next;
   }
 
   //DPRINT("ROT: Append new chunk: %d_%d", rs->end_chunk.chunk, rs->end_chunk.gen);
@@ -527,6 +526,9 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 
   UNLOCK(rs->base.buf);
 
+  if(status == EVFS_OK)
+    rs->end_chunk = next;
+
   return status;
 }
 
-- 
2.43.0


From 4e3266337b983e0e48c8e8978364eaeb0f957a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 034/140] fix: a rotating log deletes its chunk file while it
 still holds it open

---
 src/shim_rotate.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index b6ab173..ac4afbb 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -383,9 +383,23 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
 
 
 
+static inline void deactivate_chunk(MultipartState *ms) {
+  // Shutdown current active chunk
+  if(ms->active_chunk_fh) {
+    evfs_file_close(ms->active_chunk_fh);
+    ms->active_chunk_fh = NULL;
+    ms->active_chunk.chunk = -1;
+  }
+}
+
+
 static int evict_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
   //DPRINT("EVICT: %d_%d", chunk_num.chunk, chunk_num.gen);
 
+  // An open chunk can't be deleted on all filesystems
+  if(ms->active_chunk.chunk == chunk_num.chunk)
+    deactivate_chunk(ms);
+
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
   char *joined = ms->buf->tmp_path;
@@ -431,16 +445,6 @@ static inline ChunkId next_chunk(RotateState *rs) {
 }
 
 
-static inline void deactivate_chunk(MultipartState *ms) {
-  // Shutdown current active chunk
-  if(ms->active_chunk_fh) {
-    evfs_file_close(ms->active_chunk_fh);
-    ms->active_chunk_fh = NULL;
-    ms->active_chunk.chunk = -1;
-  }
-}
-
-
 static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num) {
   //DPRINT("ROT Activate chunk: %d_%d", chunk_num.chunk, chunk_num.gen);
 
-- 
2.43.0


From e44c0a4dfe41bd0600e8c1a338a77448db35d190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 035/140] fix: trimming a rotating log takes negative sizes for
 huge ones, fails on an empty log and drops chunks it could not remove

---
 src/shim_rotate.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index ac4afbb..c2dc230 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -753,10 +753,13 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   Evfs *base_vfs = shim_data->base_vfs;
 
   int status = EVFS_OK;
+
+  if(trim_bytes < 0) return EVFS_ERR_BAD_ARG;
+
   // We need to round down to the nearest chunk size
   int trim_chunks = trim_bytes / rs->cfg.chunk_size;
 
-  if(trim_chunks == 0) // No change
+  if(trim_chunks == 0 || rs->base.total_size == 0) // No change
     return 0;
 
   ChunkId trim_start, trim_end;
@@ -783,7 +786,7 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   // Delete chunks
   while(1) {
     status = evict_chunk(base_vfs, &rs->base, cur_chunk, &chunk_size);
-    if(status != EVFS_OK)
+    if(status != EVFS_OK) // This chunk is the new start
       break;
 
     trimmed_size += chunk_size;
@@ -795,14 +798,15 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   }
 
   // Fix up state
-  if(cur_chunk.chunk == rs->end_chunk.chunk) { // All chunks removed
+  if(status == EVFS_OK && cur_chunk.chunk == rs->end_chunk.chunk) { // All chunks removed
     rs->base.total_size = 0; // Just to be sure this is correct
     rs->start_chunk = (ChunkId){0,0};
     rs->end_chunk = (ChunkId){0,0};
     rs->base.file_pos = 0;
 
   } else { // Partial trim
-    incr_chunk(rs, &cur_chunk);
+    if(status == EVFS_OK)
+      incr_chunk(rs, &cur_chunk);
     rs->start_chunk = cur_chunk;
 
     if(rs->base.file_pos > trimmed_size)
-- 
2.43.0


From f130ba693e3877b7dedc16aefbd79a982ffed06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 036/140] fix: truncating a rotating log corrupts its state for
 negative sizes and when the last chunk can not be truncated

---
 src/shim_rotate.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index c2dc230..3178b84 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1034,6 +1034,9 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     RotateData *shim_data = fil->shim_data;
     Evfs *base_vfs = shim_data->base_vfs;
 
+    if(size < 0)
+      return EVFS_ERR_BAD_ARG;
+
     if(size >= rs->base.total_size) // Do nothing if larger
       return EVFS_OK;
 
@@ -1082,8 +1085,9 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
       if(ASSERT(delete_bytes < chunk_size, "Truncation error; Excess remainder"))
         return EVFS_ERR_CORRUPTION;
 
-      evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
-      rs->base.total_size -= delete_bytes;
+      status = evfs_file_truncate(rs->base.active_chunk_fh, chunk_size - delete_bytes);
+      if(status == EVFS_OK)
+        rs->base.total_size -= delete_bytes;
     }
 
     if(rs->base.total_size == 0) { // Restart chunk sequence
@@ -1092,10 +1096,10 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     }
 
     // Adjust position
-    if(rs->base.file_pos > size)
-      rs->base.file_pos = size;
+    if(rs->base.file_pos > rs->base.total_size)
+      rs->base.file_pos = rs->base.total_size;
 
-    if(ASSERT(size == rs->base.total_size, "failed truncation: size=%ld  total=%ld", size, rs->base.total_size))
+    if(status == EVFS_OK && ASSERT(size == rs->base.total_size, "failed truncation: size=%ld  total=%ld", size, rs->base.total_size))
       status = EVFS_ERR_CORRUPTION;
 
   }
-- 
2.43.0


From 2fb6ab877d9baa17e30253f196744902c2cbed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 037/140] fix: ordinary files opened through the rotate shim
 use an uninitialized container pointer

---
 src/shim_rotate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 3178b84..0bc4f13 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1264,6 +1264,7 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   Evfs *base_vfs = shim_data->base_vfs;
 
   fil->shim_data = shim_data;
+  fil->rot_state = NULL; // Only set for containers
 
   fil->base_file = (EvfsFile *)NEXT_OBJ(fil);  // We have two objects allocated together [RotateFile][<base VFS file size>]
 
-- 
2.43.0


From bd76fa20683150779785d3c89385cfeffbf17d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 038/140] fix: opening a rotating log ignores the open flags

---
 src/shim_rotate.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 0bc4f13..584e236 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -242,6 +242,11 @@ static void incr_write_pos(MultipartState *ms, evfs_off_t offset) {
 
 
 
+static bool is_writable(MultipartState *ms) {
+  return ms->flags & (EVFS_WRITE | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND);
+}
+
+
 // Method
 static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig *cfg) {
   // Create the multipart container directory
@@ -468,7 +473,7 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
 #endif
   build_chunk_path(base_vfs, ms, chunk_num, &joined_r);
 
-  int status = evfs_vfs_open(base_vfs, joined, &fh, EVFS_RDWR);
+  int status = evfs_vfs_open(base_vfs, joined, &fh, is_writable(ms) ? EVFS_RDWR : EVFS_READ);
 
   UNLOCK(ms->buf);
 
@@ -755,6 +760,7 @@ static int trim_start_chunks(RotateFile *fil, evfs_off_t trim_bytes) {
   int status = EVFS_OK;
 
   if(trim_bytes < 0) return EVFS_ERR_BAD_ARG;
+  if(!is_writable(&rs->base)) return EVFS_ERR_AUTH;
 
   // We need to round down to the nearest chunk size
   int trim_chunks = trim_bytes / rs->cfg.chunk_size;
@@ -962,6 +968,8 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
     EvfsFile *new_chunk;
     int status = EVFS_OK;
 
+    if(!is_writable(&rs->base)) return EVFS_ERR_AUTH;
+
     //DPRINT("ROT: write  %d", size);
 
     // We may have more than one chunk's worth of data to write
@@ -1037,6 +1045,8 @@ static int rotate__file_truncate(EvfsFile *fh, evfs_off_t size) {
     if(size < 0)
       return EVFS_ERR_BAD_ARG;
 
+    if(!is_writable(&rs->base)) return EVFS_ERR_AUTH;
+
     if(size >= rs->base.total_size) // Do nothing if larger
       return EVFS_OK;
 
@@ -1280,12 +1290,26 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   } else {
     // Open or create a container
     status = EVFS_OK;
-    if(!exists) // Create new container
-      status = init_rotate_container(base_vfs, path, &shim_data->cfg);
+    if(!exists) { // Create new container
+      // Write only access implies a new file
+      if((flags & (EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) ||
+         (flags & EVFS_RDWR) == EVFS_WRITE)
+        status = init_rotate_container(base_vfs, path, &shim_data->cfg);
+      else
+        status = EVFS_ERR_NO_FILE;
+
+    } else if(flags & EVFS_NO_EXIST) {
+      status = EVFS_ERR_EXISTS;
+    }
 
     if(status == EVFS_OK)
       status = open_rotate_container(vfs, path, fil, flags);
 
+    if(status == EVFS_OK && (flags & EVFS_OVERWRITE)) { // Discard existing content
+      status = rotate__file_truncate(fh, 0);
+      if(status != EVFS_OK)
+        rotate__file_close(fh);
+    }
   }
 
   if(status == EVFS_OK) {
-- 
2.43.0


From 9fafe7bd2a540ab52f092b15f585c2deb1ce9e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 039/140] fix: foreign file names in a rotating log container
 index past the generation table

---
 src/shim_rotate.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 584e236..89dbb56 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -545,7 +545,9 @@ static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
 static ChunkId parse_chunk_name(const char *name) {
   ChunkId id = {-1,0};
 
-  if(strlen(name) == 12) {
+  // Format is "cNNNNN_G.cnk"
+  if(strlen(name) == 12 && strspn(&name[1], "0123456789") == 5 && name[6] == '_' &&
+     (name[7] == '0' || name[7] == '1')) {
     id.chunk = strtol(&name[1], NULL, 10);
     id.gen = name[7] - '0';
 
@@ -582,6 +584,9 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
     EvfsInfo info;
     while(evfs_dir_find(dh, "c*.cnk", &info) == EVFS_OK) {
       ChunkId id = parse_chunk_name(info.name);
+      if(id.chunk < 0 || id.chunk >= (int)rs->cfg.max_chunks) // Not one of our chunks
+        continue;
+
       bool exists = chunk_exists(base_vfs, &rs->base, id, &chunk_size);
 
       // It's possible a 0-length chunk was leftover from a previous
-- 
2.43.0


From 6322417fbf33202370f7cdbe77241c11b98ed71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 040/140] fix: opening a rotating log takes chunks it failed to
 list for missing

---
 src/shim_rotate.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 89dbb56..9eda2b0 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -580,9 +580,10 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
 
   // Scan chunks
   EvfsDir *dh;
-  if(evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh) == EVFS_OK) {
+  status = evfs_vfs_open_dir(base_vfs, rs->base.container_path, &dh);
+  if(status == EVFS_OK) {
     EvfsInfo info;
-    while(evfs_dir_find(dh, "c*.cnk", &info) == EVFS_OK) {
+    while((status = evfs_dir_find(dh, "c*.cnk", &info)) == EVFS_OK) {
       ChunkId id = parse_chunk_name(info.name);
       if(id.chunk < 0 || id.chunk >= (int)rs->cfg.max_chunks) // Not one of our chunks
         continue;
@@ -610,8 +611,13 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
 
     }
     evfs_dir_close(dh);
+    if(status == EVFS_DONE)
+      status = EVFS_OK;
   }
 
+  // Without the full sequence we would overwrite existing chunks
+  if(status != EVFS_OK) return status;
+
   if(gen_span[0].end >= 0 || gen_span[1].end >= 0) { // Found chunk files
     if(gen_span[0].end >= 0 && gen_span[1].end >= 0) { // Both generations present
       if(gen_span[0].start < gen_span[1].start) { // Gen 0 is newer
@@ -729,7 +735,8 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
 
   status = discover_chunk_sequence(base_vfs, rs);
 
-  fh->rot_state = rs;
+  if(status == EVFS_OK)
+    fh->rot_state = rs;
 
 cleanup2:
   evfs_file_close(dat_fh);
-- 
2.43.0


From 635bb1f58e1cbd8fd63dd05c359f6b2ba181eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:26 +0000
Subject: [PATCH 041/140] fix: rotating logs accept a damaged geometry file and
 geometries whose size overflows file offsets

---
 src/shim_rotate.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 9eda2b0..f8e4b20 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -247,6 +247,12 @@ static bool is_writable(MultipartState *ms) {
 }
 
 
+static bool valid_geometry(uint32_t chunk_size, uint32_t max_chunks) {
+  return max_chunks >= 2 && max_chunks <= MULTIPART_MAX_CHUNK && chunk_size >= MULTIPART_MIN_CHUNK_SIZE &&
+         chunk_size <= INT32_MAX / max_chunks; // Logical offsets have to be representable
+}
+
+
 // Method
 static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig *cfg) {
   // Create the multipart container directory
@@ -709,6 +715,11 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
     goto cleanup2;
   }
 
+  if(!valid_geometry(geom.chunk_size, geom.max_chunks)) {
+    status = EVFS_ERR_INVALID;
+    goto cleanup2;
+  }
+
   // Copy geometry fields
   rs->cfg.chunk_size = geom.chunk_size;
   rs->cfg.max_chunks = geom.max_chunks;
@@ -751,9 +762,7 @@ cleanup1:
 
 static int set_rotate_config(Evfs *vfs, RotateConfig *cfg) {
   // Validate the config settings
-  if(cfg->max_chunks < 2
-    || cfg->max_chunks > MULTIPART_MAX_CHUNK
-    || cfg->chunk_size < MULTIPART_MIN_CHUNK_SIZE)
+  if(!valid_geometry(cfg->chunk_size, cfg->max_chunks))
     return EVFS_ERR_INVALID;
 
   RotateData *shim_data = (RotateData *)vfs->fs_data; 
-- 
2.43.0


From 63b5f67bbe58a912a6297c332297de3c39483017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:26 +0000
Subject: [PATCH 042/140] fix: deleting a rotating log never ends on a listing
 error and leaves an undeletable directory when a file can not be removed

---
 src/shim_rotate.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index f8e4b20..b9e5311 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -302,17 +302,28 @@ static int clear_container(Evfs *base_vfs, const char *path) {
   int status = evfs_vfs_open_dir(base_vfs, path, &dh);
   if(status != EVFS_OK) return status;
 
-  while(evfs_dir_read(dh, &info) != EVFS_DONE) {
+  char joined[EVFS_MAX_PATH];
+  StringRange joined_r = RANGE_FROM_ARRAY(joined);
+
+  while((status = evfs_dir_read(dh, &info)) == EVFS_OK) {
     // Check for dir dots
-    if(info.name[0] == '.') continue;
+    if(!strcmp(info.name, ".") || !strcmp(info.name, "..")) continue;
 
-    char joined[EVFS_MAX_PATH];
-    StringRange joined_r = RANGE_FROM_ARRAY(joined);
-    evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r);
-    base_vfs->m_delete(base_vfs, joined);
+    // The geometry file has to be last so that a partially cleared directory remains a container
+    if(!strcmp(info.name, MULTIPART_GEOMETRY_FILE)) continue;
+
+    status = evfs_vfs_path_join_str(base_vfs, path, info.name, &joined_r);
+    if(status == EVFS_OK)
+      status = base_vfs->m_delete(base_vfs, joined);
+    if(status != EVFS_OK) break;
   }
 
   evfs_dir_close(dh);
+  if(status != EVFS_DONE) return status;
+
+  status = evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  if(status == EVFS_OK)
+    status = base_vfs->m_delete(base_vfs, joined);
 
   return status;
 }
@@ -1366,8 +1377,9 @@ static int rotate__delete(Evfs *vfs, const char *path) {
     status = base_vfs->m_delete(base_vfs, path);
 
   } else { // This is a rotate container
-    clear_container(base_vfs, path);
-    status = base_vfs->m_delete(base_vfs, path);
+    status = clear_container(base_vfs, path);
+    if(status == EVFS_OK)
+      status = base_vfs->m_delete(base_vfs, path);
   }
 
   return status;
-- 
2.43.0


From 4aa8c9c32166bf1d540afbe137b2b94de34df85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:26 +0000
Subject: [PATCH 043/140] fix: failing to create a rotating log leaves an
 unusable container behind

---
 src/shim_rotate.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index b9e5311..159c5f9 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -255,18 +255,22 @@ static bool valid_geometry(uint32_t chunk_size, uint32_t max_chunks) {
 
 // Method
 static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig *cfg) {
+  char joined[EVFS_MAX_PATH];
+  StringRange joined_r = RANGE_FROM_ARRAY(joined);
+  int status = evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  if(status != EVFS_OK) return status;
+
   // Create the multipart container directory
-  int status = base_vfs->m_make_dir(base_vfs, path);
+  status = base_vfs->m_make_dir(base_vfs, path);
   if(status != EVFS_OK) return status;
 
   // Add dat file
-  char joined[EVFS_MAX_PATH];
-  StringRange joined_r = RANGE_FROM_ARRAY(joined);
-  evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
-
   EvfsFile *dat_fh;
   status = evfs_vfs_open(base_vfs, joined, &dat_fh, EVFS_WRITE | EVFS_OVERWRITE);
-  if(status != EVFS_OK) return status;
+  if(status != EVFS_OK) {
+    base_vfs->m_delete(base_vfs, path);
+    return status;
+  }
 
   // Write header
   MultipartHeader hdr = {
@@ -277,7 +281,7 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
 
   status = evfs_file_write(dat_fh, &hdr, sizeof(hdr));
 
-  if(status > 0) {
+  if(status == sizeof(hdr)) {
     // Write geometry
     RotateGeometry geom = {
       .chunk_size = cfg->chunk_size,
@@ -285,12 +289,21 @@ static int init_rotate_container(Evfs *base_vfs, const char *path, RotateConfig
     };
 
     status = evfs_file_write(dat_fh, &geom, sizeof(geom));
-
+    status = status == sizeof(geom) ? EVFS_OK : EVFS_ERR_IO;
+  } else {
+    status = EVFS_ERR_IO;
   }
 
-  evfs_file_close(dat_fh);
+  int close_status = evfs_file_close(dat_fh);
+  if(status == EVFS_OK)
+    status = close_status;
 
-  return status == sizeof(RotateGeometry) ? EVFS_OK : EVFS_ERR;
+  if(status != EVFS_OK) { // Don't leave an unusable container behind
+    base_vfs->m_delete(base_vfs, joined);
+    base_vfs->m_delete(base_vfs, path);
+  }
+
+  return status;
 }
 
 
-- 
2.43.0


From 4e4390abe438f68a90724ba722a61c99893ae922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:12 +0000
Subject: [PATCH 044/140] fix: the capacity limit of rotating logs ignores the
 configured offset type

---
 src/shim_rotate.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 159c5f9..391a0a8 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -248,8 +248,12 @@ static bool is_writable(MultipartState *ms) {
 
 
 static bool valid_geometry(uint32_t chunk_size, uint32_t max_chunks) {
-  return max_chunks >= 2 && max_chunks <= MULTIPART_MAX_CHUNK && chunk_size >= MULTIPART_MIN_CHUNK_SIZE &&
-         chunk_size <= INT32_MAX / max_chunks; // Logical offsets have to be representable
+  if(max_chunks < 2 || max_chunks > MULTIPART_MAX_CHUNK || chunk_size < MULTIPART_MIN_CHUNK_SIZE)
+    return false;
+
+  // Logical offsets have to be representable
+  uint64_t capacity = (uint64_t)chunk_size * max_chunks;
+  return (evfs_off_t)capacity > 0 && (uint64_t)(evfs_off_t)capacity == capacity;
 }
 
 
-- 
2.43.0


From f059cfb1388b8361666310d9485ffea05d744c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:12 +0000
Subject: [PATCH 045/140] fix: rotating logs take a chunk they failed to query
 for missing and overwrite it

---
 src/shim_rotate.c | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 391a0a8..eb18ba9 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -373,7 +373,8 @@ static int build_chunk_path(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_nu
 }
 
 
-static bool chunk_exists(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
+// Returns EVFS_OK when the chunk exists, EVFS_ERR_NO_FILE when it doesn't or another error
+static int find_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num, evfs_off_t *chunk_size) {
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   LOCK(ms->buf);
@@ -393,7 +394,7 @@ static bool chunk_exists(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num,
   if(chunk_size)
     *chunk_size = (status == EVFS_OK) ? info.size : 0;
 
-  return status == EVFS_OK;
+  return status;
 }
 
 
@@ -522,10 +523,15 @@ static int activate_chunk(Evfs *base_vfs, MultipartState *ms, ChunkId chunk_num)
 
 // Method
 static int append_new_chunk(Evfs *base_vfs, RotateState *rs, EvfsFile **fh) {
-  bool is_empty = rs->start_chunk.chunk == rs->end_chunk.chunk &&
-                  !chunk_exists(base_vfs, &rs->base, rs->end_chunk, NULL);
+  bool is_empty = false;
   ChunkId next = rs->end_chunk;
 
+  if(rs->start_chunk.chunk == rs->end_chunk.chunk) {
+    int status = find_chunk(base_vfs, &rs->base, rs->end_chunk, NULL);
+    if(status != EVFS_OK && status != EVFS_ERR_NO_FILE) return status;
+    is_empty = (status == EVFS_ERR_NO_FILE);
+  }
+
   //DPRINT("ROT append  empty:%c", is_empty ? 'T':'f');
 
   if(!is_empty) {
@@ -622,7 +628,9 @@ static int discover_chunk_sequence(Evfs *base_vfs, RotateState *rs) {
       if(id.chunk < 0 || id.chunk >= (int)rs->cfg.max_chunks) // Not one of our chunks
         continue;
 
-      bool exists = chunk_exists(base_vfs, &rs->base, id, &chunk_size);
+      status = find_chunk(base_vfs, &rs->base, id, &chunk_size);
+      if(status != EVFS_OK && status != EVFS_ERR_NO_FILE) break;
+      bool exists = (status == EVFS_OK);
 
       // It's possible a 0-length chunk was leftover from a previous
       // power failure. We'll clean it up now. This should just leave
@@ -964,19 +972,25 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
 
       // If the chunk doesn't exist we are out of chunks to read
       evfs_off_t chunk_size;
-      if(!chunk_exists(base_vfs, &rs->base, rpos.chunk_num, &chunk_size))
+      status = find_chunk(base_vfs, &rs->base, rpos.chunk_num, &chunk_size);
+      if(status == EVFS_ERR_NO_FILE) {
+        status = EVFS_OK;
         break;
+      }
+      if(status != EVFS_OK) break;
 
       if(rpos.chunk_num.chunk != rs->base.active_chunk.chunk) {
         status = activate_chunk(base_vfs, &rs->base, rpos.chunk_num);
-        if(status != EVFS_OK) return status;
+        if(status != EVFS_OK) break;
       }
 
       if(rpos.offset >= chunk_size) // Nothing left to read
         break;
 
       // Seek into this chunk
-      evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
+      status = evfs_file_seek(rs->base.active_chunk_fh, rpos.offset, EVFS_SEEK_TO);
+      if(status != EVFS_OK) break;
+
       evfs_off_t remain_space = chunk_size - rpos.offset;
       size_t read_size = MIN((evfs_off_t)size, remain_space);
 
@@ -987,12 +1001,14 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
         rs->base.file_pos += read_chunk;
         read += read_chunk;
       } else { // Chunk is prematurely empty
-        return EVFS_ERR_IO;
+        status = EVFS_ERR_IO;
+        break;
       }
 
     }
 
-    if(status != EVFS_OK)
+    // Data read before an error is reported as a short read
+    if(status != EVFS_OK && read == 0)
       read = status;
 
   }
@@ -1027,7 +1043,10 @@ static ptrdiff_t rotate__file_write(EvfsFile *fh, const void *buf, size_t size)
       ChunkPos wpos = get_chunk_pos(rs, cur_write_pos(&rs->base));
 
       // If the chunk doesn't exist we need to create it
-      if(!chunk_exists(base_vfs, &rs->base, wpos.chunk_num, NULL)) {
+      status = find_chunk(base_vfs, &rs->base, wpos.chunk_num, NULL);
+      if(status != EVFS_OK && status != EVFS_ERR_NO_FILE) break;
+
+      if(status == EVFS_ERR_NO_FILE) {
         status = append_new_chunk(base_vfs, rs, &new_chunk);
         if(status != EVFS_OK) break;
 
-- 
2.43.0


From fa04857d72dedbca505374b4478e5184ed03aa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 046/140] fix: an open rotating log opened by a relative path
 follows changes of the current directory

---
 src/shim_rotate.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index eb18ba9..4992aaf 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -1356,9 +1356,20 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   if(exists && !is_rotate_file(base_vfs, path)) {
     status = base_vfs->m_open(base_vfs, path, fil->base_file, flags);
   } else {
+    // The chunks have to be reachable after a change of the current directory
+    char abs_path[EVFS_MAX_PATH];
+    StringRange abs_path_r = RANGE_FROM_ARRAY(abs_path);
+    status = evfs_vfs_path_absolute(base_vfs, path, &abs_path_r);
+    if(status == EVFS_OK)
+      path = abs_path;
+    else if(status == EVFS_ERR_NO_SUPPORT)
+      status = EVFS_OK;
+
     // Open or create a container
-    status = EVFS_OK;
-    if(!exists) { // Create new container
+    if(status != EVFS_OK) {
+      // No usable path
+
+    } else if(!exists) { // Create new container
       // Write only access implies a new file
       if((flags & (EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) ||
          (flags & EVFS_RDWR) == EVFS_WRITE)
-- 
2.43.0


From fd15efb70b0ef6d9c19136d7fa99eca8abace461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:44 +0000
Subject: [PATCH 047/140] fix: rotating logs with long paths operate on chunk
 paths that were never built

---
 src/shim_rotate.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 4992aaf..e248f08 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -357,7 +357,8 @@ static bool is_rotate_file(Evfs *base_vfs, const char *path) {
   // Multipart info file needs to exist
   char joined[EVFS_MAX_PATH];
   StringRange joined_r = RANGE_FROM_ARRAY(joined);
-  evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r);
+  if(evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r) != EVFS_OK)
+    return false;
 
   status = base_vfs->m_stat(base_vfs, joined, &info);
   return status == EVFS_OK;
@@ -1365,6 +1366,10 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
     else if(status == EVFS_ERR_NO_SUPPORT)
       status = EVFS_OK;
 
+    // All chunk paths have to fit
+    if(status == EVFS_OK && strlen(path) + COUNT_OF("/c00000_0.cnk") > EVFS_MAX_PATH)
+      status = EVFS_ERR_TOO_LONG;
+
     // Open or create a container
     if(status != EVFS_OK) {
       // No usable path
-- 
2.43.0


From b91d72e240d4cee0d0348172429b68ed699e9988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:12 +0000
Subject: [PATCH 048/140] fix: data just written to a rotating log can not be
 read back when the file system updates sizes late

---
 src/shim_rotate.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index e248f08..87a69e5 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -985,6 +985,9 @@ static ptrdiff_t rotate__file_read(EvfsFile *fh, void *buf, size_t size) {
         if(status != EVFS_OK) break;
       }
 
+      // The directory entry may not reflect data written to the open chunk
+      chunk_size = evfs_file_size(rs->base.active_chunk_fh);
+
       if(rpos.offset >= chunk_size) // Nothing left to read
         break;
 
-- 
2.43.0


From 5608e61f292b61089d8bfe7ec54f9603ef3e7af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 049/140] fix: a star in a glob pattern can match a directory
 separator

---
 src/util/glob.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/glob.c b/src/util/glob.c
index efda6d7..aef49e7 100644
--- a/src/util/glob.c
+++ b/src/util/glob.c
@@ -187,7 +187,8 @@ bool glob_match(const char *pattern, const char *str, const char *dir_separators
     }
 
     // Mismatch; Recover with backtracking or fail
-    if(pat_star && s_ch != '\0' && !char_match(s_ch, dir_separators)) {
+    // The char consumed by the star can't be a directory separator
+    if(pat_star && str_star[-1] != '\0' && !char_match(str_star[-1], dir_separators)) {
       str_pos = str_star;
       pat_pos = pat_star;
       continue;
-- 
2.43.0


From 71c41686d2cb668332f5e749d62f7baf11d5f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 050/140] fix: an inverted glob set matches the end of the
 string and matching reads past it

---
 src/util/glob.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/glob.c b/src/util/glob.c
index aef49e7..1e2b3a3 100644
--- a/src/util/glob.c
+++ b/src/util/glob.c
@@ -168,7 +168,7 @@ bool glob_match(const char *pattern, const char *str, const char *dir_separators
       case '[': // Character range
         memset(&cs, 0, sizeof(cs));
         pat_pos = parse_range_def(pat_pos, &cs);
-        if(CHAR_IS_IN_SET(&cs, s_ch)) {
+        if(s_ch != '\0' && CHAR_IS_IN_SET(&cs, s_ch)) {
           str_pos++;
           pat_pos++;
           continue;
-- 
2.43.0


From a0a1d460cd67e4d4af0374449e2959c60b499e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 051/140] fix: glob spans ending in the last character value
 never finish

---
 src/util/glob.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/glob.c b/src/util/glob.c
index 1e2b3a3..92ffe16 100644
--- a/src/util/glob.c
+++ b/src/util/glob.c
@@ -62,13 +62,13 @@ typedef struct {
   uint32_t chars[8]; // 256 bits
 } CharSet;
 
-#define ADD_TO_SET(cs, c)      ((cs)->chars[((uint8_t)(c)) / 32] |= (1 << ( ((uint8_t)(c)) % 32)) )
-#define CHAR_IS_IN_SET(cs, c)  ((cs)->chars[((uint8_t)(c)) / 32] & (1 << ( ((uint8_t)(c)) % 32)) )
+#define ADD_TO_SET(cs, c)      ((cs)->chars[((uint8_t)(c)) / 32] |= (1u << ( ((uint8_t)(c)) % 32)) )
+#define CHAR_IS_IN_SET(cs, c)  ((cs)->chars[((uint8_t)(c)) / 32] & (1u << ( ((uint8_t)(c)) % 32)) )
 #define COUNT_OF(a)            (sizeof(a) / sizeof(*a))
 
 static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
   const char *rng_pos;
-  char ch, end_ch;
+  unsigned ch, end_ch;
   bool invert = false;
 
   if(*(pat_pos+1) == '!') {
@@ -79,13 +79,13 @@ static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
   // Scan until end of range
   for(rng_pos = pat_pos+1; *rng_pos != '\0' && *rng_pos != ']'; rng_pos++) {
     if(*(rng_pos+1) == '-') { // Span of chars: <b>-<e>
-      end_ch = *(rng_pos+2);
+      end_ch = (unsigned char)*(rng_pos+2);
       if(end_ch == ']' || end_ch == '\0') { // Syntax error: Missing end of span
         rng_pos = rng_pos+2;
         break;
       }
 
-      for(ch = *rng_pos; ch <= end_ch; ch++) { // Add all chars in span
+      for(ch = (unsigned char)*rng_pos; ch <= end_ch; ch++) { // Add all chars in span
         ADD_TO_SET(cs, ch);
       }
       rng_pos += 2;
-- 
2.43.0


From 149fae4ac087a1ba88d41791e99ad46aae589320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 052/140] fix: matching an unterminated glob set reads past the
 end of the pattern

---
 src/util/glob.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/glob.c b/src/util/glob.c
index 92ffe16..a894498 100644
--- a/src/util/glob.c
+++ b/src/util/glob.c
@@ -100,6 +100,9 @@ static const char *parse_range_def(const char *pat_pos, CharSet *cs) {
     }
   }
 
+  if(*rng_pos == '\0') // Syntax error: Missing end of range
+    rng_pos--;         // Caller steps over the final char and stops on NUL
+
   return rng_pos;
 }
 
-- 
2.43.0


From dec95b34c897330ee244c56b25cde52460b8d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 053/140] fix: range_copy_str() writes before an empty range
 and hides truncation to nothing

---
 src/util/range_strings.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 5330ff6..da8c564 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -207,9 +207,12 @@ int range_copy_str(AppendRange *rng, const char *str, bool truncate) {
 
   if(!done) { // Truncated
     if(truncate) {
-      dest--;
-      *dest = '\0';
-      rval = -(rval-1);
+      if(rng->start < rng->end) { // Replace last char with NUL
+        dest--;
+        *dest = '\0';
+        rval--;
+      }
+      rval = -rval - 1;
     } else {
       if(rng->start < rng->end)
         *rng->start = '\0'; // Wipe partial string
-- 
2.43.0


From f983f4f53f96af404acfae969c7e5ce635ca3732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 054/140] fix: formatting into an empty range reports success

---
 src/util/range_strings.c | 52 +++++++++++++---------------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index da8c564..bbe8037 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -242,51 +242,31 @@ Returns:
 */
 int range_cat_fmt(AppendRange *rng, const char *fmt, ...) {
   va_list args;
-  int rval = 0;
-
-  if(rng->start < rng->end) { // Range is valid?
-    va_start(args, fmt);
-    size_t len = range_size(rng);
-    if(len <= 1)  // Force single byte range to zero for formatted length query
-      len = 0;
-    rval = vsnprintf(rng->start, len, fmt, args);
-    va_end(args);
-
-    if(rval > 0) {
-      if(rval < range_size(rng)) { // Success
-        rng->start += rval;
-      } else { // Truncated
-        if(rng->start)
-          *rng->start = '\0'; // Wipe partial string
-        rval = -rval;
-      }
-    }
+  int rval;
 
-  }
+  va_start(args, fmt);
+  rval = range_cat_vfmt(rng, fmt, args);
+  va_end(args);
 
   return rval;
 }
 
 
 int range_cat_vfmt(AppendRange *rng, const char *fmt, va_list args) {
-  int rval = 0;
+  int rval;
+  size_t len = (rng->start < rng->end) ? range_size(rng) : 0;
 
-  if(rng->start < rng->end) { // Range is valid?
-    size_t len = range_size(rng);
-    if(len <= 1)  // Force single byte range to zero for formatted length query
-      len = 0;
-    rval = vsnprintf(rng->start, len, fmt, args);
-
-    if(rval > 0) {
-      if(rval < range_size(rng)) { // Success
-        rng->start += rval;
-      } else { // Truncated
-        if(rng->start)
-          *rng->start = '\0'; // Wipe partial string
-        rval = -rval;
-      }
-    }
+  // Force empty and single byte ranges to zero for formatted length query
+  rval = vsnprintf(len > 1 ? rng->start : NULL, len > 1 ? len : 0, fmt, args);
 
+  if(rval >= 0 && (size_t)rval < len) { // Success
+    rng->start += rval;
+    *rng->start = '\0';
+  } else { // Truncated or failed
+    if(len > 0)
+      *rng->start = '\0'; // Wipe partial string
+    if(rval > 0)
+      rval = -rval;
   }
 
   return rval;
-- 
2.43.0


From 3ffb2a57fc5fdf1ea0ff516ca608b1ac31e56ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 055/140] fix: range_cat_str_no_nul() drops the last character
 on the next append

---
 src/util/range_strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index bbe8037..c1fc8a8 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -342,7 +342,7 @@ int range_cat_str_no_nul(AppendRange *rng, const char *str) {
   rval = src - str; // Number of bytes copied
 
   if(done) {
-    rng->start = dest-1;
+    rng->start = dest;
   } else { // Truncated
     if(rng->start < rng->end)
       *rng->start = '\0'; // Wipe partial string
-- 
2.43.0


From c4224f74e973c3f84e5ccb3b9b96ea2949571aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 056/140] fix: range_cat_int() can not format INT_MIN and
 leaves a stray sign when the number does not fit

---
 src/util/range_strings.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index c1fc8a8..669a502 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -507,7 +507,7 @@ Returns:
 */
 int range_cat_uint(AppendRange *rng, uint32_t n) {
   if(n == 0)
-    return range_cat_char(rng, '0');
+    return range_cat_str(rng, "0");
 
   char buf[10+1]; // log10(2^32) --> 10 digits max
   char *pos = &buf[9];
@@ -539,17 +539,16 @@ Returns:
   Number of bytes needed if negative
 */
 int range_cat_int(AppendRange *rng, int32_t n) {
-  int s_chars = 0;
-  if(n < 0) {
-    n = -n; // NOTE: Does not work with INT_MIN
-    s_chars = range_cat_char(rng, '-');
-  }
+  if(n >= 0)
+    return range_cat_uint(rng, n);
 
-  int n_chars = range_cat_uint(rng, n);
-  if(n_chars < 0 && s_chars > 0)
-    s_chars = -s_chars;
+  // Format into a temp buffer so the sign isn't left behind when the digits don't fit
+  char buf[1+10+1];
+  AppendRange buf_r = RANGE_FROM_ARRAY(buf);
+  range_cat_char(&buf_r, '-');
+  range_cat_uint(&buf_r, 0u - (uint32_t)n);
 
-  return s_chars + n_chars;
+  return range_cat_str(rng, buf);
 }
 
 
-- 
2.43.0


From 6fe39890e4b1c197b84a49b7935889e4bac985ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 057/140] fix: terminating or padding an empty range writes
 outside of it

---
 src/util/range_strings.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 669a502..d9c8b1b 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -783,6 +783,9 @@ Returns:
   Number of pad bytes written
 */
 int range_pad_right(StringRange *rng, char pad) {
+  if(rng->start >= rng->end)
+    return 0;
+
   size_t width = range_size(rng) - 1;
 
   size_t pad_num = 0;
@@ -859,7 +862,7 @@ void range_terminate(AppendRange *rng) {
   size_t maxlen = range_size(rng);
   size_t rlen = strnlen(rng->start, maxlen);
 
-  if(rlen == maxlen) { // No NUL found
+  if(maxlen > 0 && rlen == maxlen) { // No NUL found
     *(rng->end-1) = '\0';
   }
 }
-- 
2.43.0


From 575fb48744c496919526084dfde37ce9a2bf8795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 058/140] fix: ranges with a terminator before their end never
 compare equal

---
 src/util/range_strings.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index d9c8b1b..b0ecc99 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -927,13 +927,13 @@ bool range_eq(StringRange *rng, const char *str) {
   const char *rpos = rng->start;
   const char *spos = str;
 
-  while(rpos < rng->end && *spos != '\0') {
+  while(rpos < rng->end && *rpos != '\0' && *spos != '\0') {
     if(*rpos != *spos) return false;
     rpos++;
     spos++;
   }
 
-  return (rpos == rng->end && *spos == '\0');
+  return ((rpos == rng->end || *rpos == '\0') && *spos == '\0');
 }
 
 
@@ -941,20 +941,20 @@ bool range_eq_range(StringRange *rng, StringRange *rng2) {
   const char *rpos = rng->start;
   const char *r2pos = rng2->start;
 
-  while(rpos < rng->end && r2pos < rng2->end) {
+  while(rpos < rng->end && *rpos != '\0' && r2pos < rng2->end) {
     if(*rpos != *r2pos) return false;
     rpos++;
     r2pos++;
   }
 
-  return (rpos == rng->end && r2pos == rng2->end);
+  return (rpos == rng->end || *rpos == '\0') && (r2pos == rng2->end || *r2pos == '\0');
 }
 
 
 bool range_is_int(StringRange *rng) {
   const char *rpos = rng->start;
 
-  while(rpos < rng->end) {
+  while(rpos < rng->end && *rpos != '\0') {
     if(!isdigit((unsigned char)*rpos)) return false;
     rpos++;
   }
-- 
2.43.0


From 13cc8060b0a4f51c641169072917bff3c790935c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 059/140] fix: range_token_limit() reads past its limit and
 returns empty tokens there

---
 src/util/range_strings.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index b0ecc99..3beddfe 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -1039,25 +1039,20 @@ bool range_token_limit(const char *str, const char *delim, StringRange *token, s
 
 
   // Skip leading delimiters
-  size_t consumed = strspn(str, delim);
-  str += consumed;
-  if(*str == '\0') // No more tokens
+  while(*limit > 0 && *str != '\0' && strchr(delim, *str)) {
+    str++;
+    (*limit)--;
+  }
+  if(*limit == 0 || *str == '\0') // No more tokens
     return false;
 
   // Get token length
-  size_t tok_len = strcspn(str, delim);
-  if(consumed + tok_len > *limit) {// Truncate token
-    if(consumed <= *limit)
-      tok_len = *limit - consumed;
-    else
-      tok_len = 0;
+  size_t tok_len = 0;
+  while(tok_len < *limit && str[tok_len] != '\0' && !strchr(delim, str[tok_len])) {
+    tok_len++;
   }
-  consumed += tok_len;
-
-  if(consumed > *limit)
-    consumed = *limit;
 
-  *limit -= consumed;
+  *limit -= tok_len;
 
   // Save token
   token->start = (char *)str;
-- 
2.43.0


From 86ac8ae1d6e7aca8ef5d8b4fd638f0db3dab005c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:33 +0000
Subject: [PATCH 060/140] fix: strxcpy() and strlcat() read one character past
 the given size

---
 src/util/bsd_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/bsd_string.c b/src/util/bsd_string.c
index 354aa91..2d40de5 100644
--- a/src/util/bsd_string.c
+++ b/src/util/bsd_string.c
@@ -83,7 +83,7 @@ size_t strxcpy(char *dst, const char *src, size_t size) {
 
   if(size > 0) {
     size--;
-    while(*src != '\0' && copied < size) {
+    while(copied < size && *src != '\0') {
       *dst++ = *src++;
       copied++;
     }
@@ -113,7 +113,7 @@ size_t strlcat(char *dst, const char *src, size_t size) {
   size_t cat_len = 0;
 
   if(size > 0) {
-    while(*dst != '\0' && cat_len < size) {
+    while(cat_len < size && *dst != '\0') {
       dst++;
       cat_len++;
     }
-- 
2.43.0


From 494674262e4cefed94815f36412117c46d41b12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 061/140] fix: justified fixed point numbers are padded wrongly
 and left half written when they do not fit

---
 src/util/range_strings.c | 160 +++++++++++----------------------------
 1 file changed, 44 insertions(+), 116 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 3beddfe..b90d03c 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -552,6 +552,44 @@ int range_cat_int(AppendRange *rng, int32_t n) {
 }
 
 
+// Append a formatted number with justification padding. Nothing is added if the padded number doesn't fit.
+__attribute__((format(printf, 3, 4)))
+static int cat_padded(AppendRange *rng, signed pad_digits, const char *fmt, ...) {
+  va_list args;
+
+  // Get length of formatted string
+  va_start(args, fmt);
+  int len = vsnprintf(NULL, 0, fmt, args);
+  va_end(args);
+
+  int pad_num = (pad_digits < 0 ? -pad_digits : pad_digits) - len;
+  if(pad_num < 0)
+    pad_num = 0;
+
+  if(rng->start >= rng->end || len + pad_num >= range_size(rng)) { // Won't fit
+    if(rng->start < rng->end)
+      *rng->start = '\0';
+    return -(len + pad_num);
+  }
+
+  if(pad_digits > 0) { // Right justify by padding on left
+    for(int i = 0; i < pad_num; i++)
+      range_cat_char(rng, ' ');
+  }
+
+  va_start(args, fmt);
+  range_cat_vfmt(rng, fmt, args);
+  va_end(args);
+
+  if(pad_digits < 0) { // Left justify by padding on right
+    for(int i = 0; i < pad_num; i++)
+      range_cat_char(rng, ' ');
+  }
+
+  return len + pad_num;
+}
+
+
 /*
 Concatenate an unsigned fixed point integer to a range
 
@@ -570,8 +608,6 @@ int range_cat_ufixed_padded(AppendRange *rng, unsigned value, unsigned scale, un
                             signed pad_digits) {
   unsigned integer = value / scale;
   unsigned frac = value % scale;
-  int status = 0;
-  int len;
 
   // Give ourselves an extra digit for initial rounding
   unsigned scale_b10_digits = base10_digits(scale) + 1;
@@ -612,66 +648,15 @@ int range_cat_ufixed_padded(AppendRange *rng, unsigned value, unsigned scale, un
       }
     }
 
-    status = 0;
-    if(pad_digits > 0) { // Handle right justification here
-      // Get length of formatted string
-      len = snprintf(NULL, 0, "%u.%0*u", integer, frac_digits, frac);
-
-      if(pad_digits > len) {
-        pad_digits -= len;
-
-        for(int i = 0; i < pad_digits; i++) {
-          if(range_cat_char(rng, ' ') < 0) {
-            status = -pad_digits;
-            break;
-          }
-          status++;
-        }
-      }
-    }
-
-    if(status >= 0) { // Padding was ok
-      len = range_cat_fmt(rng, "%u.%0*u", integer, frac_digits, frac);
-      if(len >= 0)
-        status += len;
-      else // Won't fit
-        status = -status + len;
-    }
+    return cat_padded(rng, pad_digits, "%u.%0*u", integer, frac_digits, frac);
 
   } else {  // places == 0; No fraction part
     // Check for rounding into integer
     if(frac + scale_b10/2 >= scale_b10)  // Round up in 1/10ths place
       integer++;
 
-    // Handle right justification here
-    int justify = (pad_digits < 0) ? 0 : pad_digits;
-    status = range_cat_fmt(rng, "%*u", justify, integer);
+    return cat_padded(rng, pad_digits, "%u", integer);
   }
-
-  if(pad_digits < 0) {
-    if(status >= 0) {  // Left justify by padding on right
-      len = 0;
-      for(int i = pad_digits; i < 0; i++) {
-        if(range_cat_char(rng, ' ') < 0) {
-          len = pad_digits;
-          break;
-        }
-
-        len++;
-      }
-
-      if(len >= 0)
-        status += len;
-      else  // Won't fit
-        status = -status + len;
-
-    } else { // Number didn't fit
-      if(pad_digits < status) // Both are negative
-        status = pad_digits;
-    }
-  }
-
-  return status;
 }
 
 
@@ -707,68 +692,11 @@ int range_cat_fixed_padded(AppendRange *rng, long value, unsigned fp_scale, int
     scale_b10 *= 10;
   }
 
-  int status = 0;
-  int len;
-
-  // Apply justification padding
-  if(frac_digits > 0) {
-    status = 0;
-    if(pad_digits > 0) { // Handle right justification here (Padding on left side)
-      // Get length of formatted string
-      len = snprintf(NULL, 0, "%ld.%0*ld", integer, frac_digits, frac);
-
-      if(pad_digits > len) {
-        pad_digits -= len;
-
-        for(int i = 0; i < pad_digits; i++) { // Add padding
-          if(range_cat_char(rng, ' ') < 0) {
-            status = -pad_digits;
-            break;
-          }
-          status++;
-        }
-      }
-    }
-
-    if(status >= 0) { // Left padding was ok
-      len = range_cat_fmt(rng, "%ld.%0*ld", integer, frac_digits, frac);
-      if(len >= 0)
-        status += len;
-      else // Won't fit
-        status = -status + len;
-    }
-
-  } else {  // No fraction part
-    // Handle right justification here (Padding on left side)
-    int justify = (pad_digits < 0) ? 0 : pad_digits;
-    status = range_cat_fmt(rng, "%*ld", justify, integer);
-  }
-
-  if(pad_digits < 0) {
-    pad_digits = -pad_digits;
-    if(status >= 0 && pad_digits > status) {  // Left justify by padding on right
-      len = 0;
-      for(int i = status - pad_digits; i < 0; i++) {
-        if(range_cat_char(rng, ' ') < 0) {
-          len = status - pad_digits;
-          break;
-        }
-
-        len++;
-      }
-
-      if(len >= 0)
-        status += len;
-      else  // Won't fit
-        status = -status + len;
-
-    } else { // Number didn't fit
-      if(pad_digits < status) // Both are negative
-        status = pad_digits;
-    }
-  }
+  if(frac_digits > 0)
+    return cat_padded(rng, pad_digits, "%ld.%0*ld", integer, frac_digits, frac);
 
-  return status;
+  // No fraction part
+  return cat_padded(rng, pad_digits, "%ld", integer);
 }
 
 
-- 
2.43.0


From 694bdf3884340fea49668b1dbdc57543e07a2dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:51 +0000
Subject: [PATCH 062/140] fix: evfs_copy_to_file() ignores the buffer passed to
 it

---
 include/evfs.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/evfs.h b/include/evfs.h
index c687258..19ffc8f 100644
--- a/include/evfs.h
+++ b/include/evfs.h
@@ -348,7 +348,7 @@ static inline int evfs_vfs_ctrl(int op, void *arg) {
 int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size, const char *vfs_name);
 
 static inline int evfs_copy_to_file(const char *dest_path, EvfsFile *fh, char *buf, size_t buf_size) {
-  return evfs_copy_to_file_ex(dest_path, fh, NULL, 0, NULL);
+  return evfs_copy_to_file_ex(dest_path, fh, buf, buf_size, NULL);
 }
 
 
-- 
2.43.0


From 58066d73621880e20d5ee280e5ded45023cfa85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:51 +0000
Subject: [PATCH 063/140] fix: copying reports success when closing the
 destination fails

---
 src/evfs.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index 4951544..0990a2a 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -943,7 +943,11 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
     evfs_free(buf);
 
 cleanup:
-  evfs_file_close(dest_fh);
+  { // Buffered data can still fail to be written on close
+    int err = evfs_file_close(dest_fh);
+    if(rval == EVFS_OK)
+      rval = err;
+  }
 
   return rval;
 }
-- 
2.43.0


From a82d7413addb5ee748161e441a63160e238287b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:51 +0000
Subject: [PATCH 064/140] fix: copying an open file that is not at its start
 fails after copying everything

---
 src/evfs.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index 0990a2a..ac399d2 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -919,7 +919,15 @@ int evfs_copy_to_file_ex(const char *dest_path, EvfsFile *fh, char *buf, size_t
     alloc_buf = true;
   }
 
-  size_t copy_size = evfs_file_size(fh);
+  // Copy from the current position to the end
+  evfs_off_t file_size = evfs_file_size(fh);
+  evfs_off_t file_pos = evfs_file_tell(fh);
+  size_t copy_size = 0;
+
+  if(file_size < 0 || file_pos < 0)
+    rval = file_size < 0 ? file_size : file_pos;
+  else if(file_pos < file_size)
+    copy_size = file_size - file_pos;
 
   while(copy_size > 0) {
     size_t read_size = MIN(copy_size, buf_size);
-- 
2.43.0


From 288cce9ab1fc01c03d68959e391c8571f7e6ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:51 +0000
Subject: [PATCH 065/140] fix: evfs_file_printf() stops at a NUL character in
 its output

---
 src/evfs.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/evfs.c b/src/evfs.c
index ac399d2..79e55fa 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -1452,6 +1452,13 @@ int evfs_file_printf(EvfsFile *fh, const char *fmt, ...) {
   va_list args;
   char *buf;
 
+  // The output can contain NULs from "%c" so its length has to come from the format
+  va_start(args, fmt);
+  int len = vsnprintf(NULL, 0, fmt, args);
+  va_end(args);
+  if(len < 0)
+    return EVFS_ERR_BAD_ARG;
+
   // Print into malloc'ed buffer
   va_start(args, fmt);
   buf = evfs__vmprintf(fmt, args);
@@ -1459,7 +1466,7 @@ int evfs_file_printf(EvfsFile *fh, const char *fmt, ...) {
 
   int status = EVFS_ERR_ALLOC;
   if(buf) {
-    status = evfs_file_write(fh, buf, strlen(buf));
+    status = evfs_file_write(fh, buf, len);
     evfs_free(buf);
   }
 
-- 
2.43.0


From 7bb7ae04982ccb9d4ddee39acaf2a2ccf08b5d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 066/140] fix: small FAT images can not be formatted because
 the erase block size is reported in bytes

---
 src/fatfs_image.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 914fbd1..3896b07 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -205,8 +205,8 @@ DRESULT disk_ioctl(BYTE pdrv, BYTE cmd, void* buff) {
 
   case GET_BLOCK_SIZE:    // Get erase block size (needed at FF_USE_MKFS == 1)
     {
-      WORD *ss = (WORD *)buff;
-      *ss = FF_MAX_SS;
+      DWORD *block_size = (DWORD *)buff;
+      *block_size = 1; // Size in sectors
       return RES_OK;
     }
     break;
-- 
2.43.0


From 1cd4a3baac0275af563cac1f8c0c1444188765dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 067/140] fix: evfs_make_path_range() changes the caller's
 range and looks for a root past its end

---
 src/evfs.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index 79e55fa..526c2ed 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -694,7 +694,7 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
   Evfs *vfs = evfs__get_vfs(vfs_name);
   if(!vfs) THROW(EVFS_ERR_NO_VFS);
 
-  size_t path_len = range_size(path);
+  size_t path_len = range_strlen(path);
   int rval = EVFS_OK;
 
   char *cur_path = evfs_malloc(path_len+1); // Buffer to hold sub-paths
@@ -704,22 +704,28 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
   AppendRange cur_path_r;
   range_init(&cur_path_r, cur_path, path_len+1);
 
+  const char *segments = path->start;
   size_t limit = path_len;
 
   // Add root separator for absolute paths
+  // The path may not be terminated so look for the root in a copy of it
+  memcpy(cur_path, path->start, path_len);
+  cur_path[path_len] = '\0';
+
   StringRange root;
-  bool is_absolute = vfs->m_path_root_component(vfs, path->start, &root);
+  bool is_absolute = vfs->m_path_root_component(vfs, cur_path, &root);
   if(is_absolute) {
     // Skip over the root component
-    path->start += range_size(&root);
+    segments += range_size(&root);
     limit -= range_size(&root);
-    range_cat_range(&cur_path_r, &root); // Add root component to the buffer
+    cur_path_r.start += range_size(&root); // Keep root component in the buffer
   }
+  *cur_path_r.start = '\0';
 
 
   // Iterate over each segment of path creating any non-existant directories
   StringRange token;
-  bool new_tok = range_token_limit(path->start, EVFS_PATH_SEPS, &token, &limit);
+  bool new_tok = range_token_limit(segments, EVFS_PATH_SEPS, &token, &limit);
   while(new_tok) {
     range_cat_range(&cur_path_r, &token); // Append new token
     EvfsInfo info;
-- 
2.43.0


From e541c332835bb5356cb84e04b02339ba51488950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:45 +0000
Subject: [PATCH 068/140] fix: evfs_make_path() reports success when the path
 names a regular file

---
 src/evfs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/evfs.c b/src/evfs.c
index 526c2ed..d645452 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -740,6 +740,9 @@ int evfs_make_path_range_ex(StringRange *path, const char *vfs_name) {
     } else if(err != EVFS_OK) { // Can't get status of segment
       rval = err;
       goto cleanup;
+    } else if(!(info.type & EVFS_FILE_DIR)) { // Segment is not a directory
+      rval = EVFS_ERR_NO_PATH;
+      goto cleanup;
     }
 
     range_cat_char(&cur_path_r, EVFS_DIR_SEP);
-- 
2.43.0


From e628c9e4b0d678da7c1a05f519ff69a0ce8a3057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 069/140] fix: failed reads and writes of host files are
 reported as the end of the file or an empty write

---
 src/stdio_fs.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index b9b8f56..77d65be 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -102,9 +102,25 @@ static int stdio__file_close(EvfsFile *fh) {
   return EVFS_OK;
 }
 
+// Get the error for a transfer that moved nothing
+static ptrdiff_t stream_error(FILE *fp) {
+#ifdef EVFS_USE_STDIO_POSIX
+  int err = translate_error(errno);
+#else
+  int err = EVFS_ERR_IO;
+#endif
+  clearerr(fp);
+  return err < 0 ? err : EVFS_ERR_IO;
+}
+
 static ptrdiff_t stdio__file_read(EvfsFile *fh, void *buf, size_t size) {
   StdioFile *fil = (StdioFile *)fh;
-  return (ptrdiff_t)fread(buf, 1, size, fil->fp);
+
+  size_t read = fread(buf, 1, size, fil->fp);
+  if(read == 0 && ferror(fil->fp))
+    return stream_error(fil->fp);
+
+  return (ptrdiff_t)read;
 }
 
 static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
@@ -113,8 +129,11 @@ static ptrdiff_t stdio__file_write(EvfsFile *fh, const void *buf, size_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  size_t wrote = fwrite(buf, 1, size, fil->fp);
+  if(wrote == 0 && ferror(fil->fp))
+    return stream_error(fil->fp);
 
-  return (ptrdiff_t)fwrite(buf, 1, size, fil->fp);
+  return (ptrdiff_t)wrote;
 }
 
 static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
-- 
2.43.0


From 41656c8105c8c4c62dd3dea8658d643d23a52dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 070/140] fix: closing a host file reports success when its
 data could not be written

---
 src/stdio_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 77d65be..9d15e64 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -97,9 +97,9 @@ static int stdio__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int stdio__file_close(EvfsFile *fh) {
   StdioFile *fil = (StdioFile *)fh;
-  fclose(fil->fp);
+  int status = simple_error(fclose(fil->fp));
   fil->fp = NULL;
-  return EVFS_OK;
+  return status;
 }
 
 // Get the error for a transfer that moved nothing
-- 
2.43.0


From 3c48175f7f84364c9b53430fde08aa03ea9c3a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 071/140] fix: EVFS_SEEK_REV on host files goes past the end
 instead of back from it

---
 src/stdio_fs.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 9d15e64..65c821b 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -178,17 +178,11 @@ static evfs_off_t stdio__file_size(EvfsFile *fh) {
 
 static int stdio__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
   StdioFile *fil = (StdioFile *)fh;
-  int sorg = SEEK_SET;
-
-  switch(origin) {
-    case EVFS_SEEK_TO:   sorg = SEEK_SET; break;
-    case EVFS_SEEK_REL:  sorg = SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = SEEK_END; break;
-    default:
-      break;
-  }
 
-  return simple_error(fseek(fil->fp, offset, sorg));
+  offset = evfs__absolute_offset(fh, offset, origin);
+  if(offset < 0) return offset;
+
+  return simple_error(fseek(fil->fp, offset, SEEK_SET));
 }
 
 static evfs_off_t stdio__file_tell(EvfsFile *fh) {
-- 
2.43.0


From f79923bb3e4fb03b0152f0668aa0ee9ffa1cdcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 072/140] fix: truncating a host file leaves buffered data to
 be written past the new end

---
 src/stdio_fs.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 65c821b..a7b4e01 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -143,7 +143,11 @@ static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
-  return simple_error(ftruncate(fileno(fil->fp), size));
+  // Pending writes would extend the file again and buffered reads be outdated
+  if(fflush(fil->fp) != 0) return translate_error(errno);
+
+  if(ftruncate(fileno(fil->fp), size) != 0) return translate_error(errno);
+  return EVFS_OK;
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
 #endif
-- 
2.43.0


From 0aedd65c55e5000e5b42384f043b395307fa05c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 073/140] fix: a failed size query on a host file reports an
 empty file

---
 src/stdio_fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index a7b4e01..17890b0 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -165,7 +165,7 @@ static evfs_off_t stdio__file_size(EvfsFile *fh) {
   struct stat s;
 
   if(fstat(fileno(fil->fp), &s) != 0)
-    return 0;
+    return translate_error(errno);
 
   return s.st_size;
 #else
-- 
2.43.0


From 1bb74ca1cf549e98ed69e44dde7975a6225ec93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 074/140] fix: opening a host file with EVFS_WRITE |
 EVFS_OPEN_OR_NEW erases it and creating flags with EVFS_READ give an
 unreadable file

---
 src/stdio_fs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 17890b0..46ea3a7 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -308,12 +308,14 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   if(flags & EVFS_APPEND)
     mode[mode_pos++] = 'a';
-  else if((flags & EVFS_OVERWRITE) || (flags & EVFS_NO_EXIST) || ((flags & EVFS_WRITE) && !(flags & EVFS_READ)))
+  else if((flags & EVFS_OVERWRITE) || (flags & EVFS_NO_EXIST) ||
+          ((flags & EVFS_WRITE) && !(flags & (EVFS_READ | EVFS_OPEN_OR_NEW))))
     mode[mode_pos++] = 'w';
   else // Default to reading
     mode[mode_pos++] = 'r';
 
-  if((flags & EVFS_WRITE) && (flags & EVFS_READ))
+  // "r" needs an update mode to write and the others to read
+  if(flags & (mode[0] == 'r' ? EVFS_WRITE : EVFS_READ))
     mode[mode_pos++] = '+';
 
   mode[mode_pos++] = 'b'; // Always use binary mode
-- 
2.43.0


From 4090f60a1eaa291eab86d3901f2380ac61afe02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 075/140] fix: opening a host file for appending ignores
 EVFS_NO_EXIST and EVFS_OVERWRITE

---
 src/stdio_fs.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 46ea3a7..ec22a07 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -342,6 +342,23 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 #endif
   }
 
+  // "a" neither refuses nor truncates existing files
+  if(mode[0] == 'a' && (flags & (EVFS_NO_EXIST | EVFS_OVERWRITE))) {
+#if(__STDC_VERSION__ >= 201112L)
+    fil->fp = fopen(path, (flags & EVFS_NO_EXIST) ? "wbx" : "wb");
+#else
+    fil->fp = fopen(path, "wb");
+#endif
+    if(fil->fp)
+      fclose(fil->fp);
+    else
+#ifdef EVFS_USE_STDIO_POSIX
+      return translate_error(errno);
+#else
+      return EVFS_ERR;
+#endif
+  }
+
   fil->fs_data = fs_data;
   fil->fp = fopen(path, mode);
 
-- 
2.43.0


From 0dae8693e1fccdb7fc81f7e6c11e2c72ec7e1441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 076/140] fix: failed delete, rename, open_dir and set_cur_dir
 on host files hide why they failed

---
 src/stdio_fs.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index ec22a07..60a41d6 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -404,7 +404,12 @@ static int stdio__delete(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+#ifdef EVFS_USE_STDIO_POSIX
+  if(remove(path) != 0) return translate_error(errno);
+  return EVFS_OK;
+#else
   return simple_error(remove(path));
+#endif
 }
 
 
@@ -413,7 +418,12 @@ static int stdio__rename(Evfs *vfs, const char *old_path, const char *new_path)
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+#ifdef EVFS_USE_STDIO_POSIX
+  if(rename(old_path, new_path) != 0) return translate_error(errno);
+  return EVFS_OK;
+#else
   return simple_error(rename(old_path, new_path));
+#endif
 }
 
 
@@ -439,7 +449,7 @@ static int stdio__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
   dir->dp = opendir(path);
 
-  return dir->dp ? EVFS_OK : EVFS_ERR;
+  return dir->dp ? EVFS_OK : translate_error(errno);
 }
 
 
@@ -452,7 +462,8 @@ static int stdio__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 }
 
 static int stdio__set_cur_dir(Evfs *vfs, const char *path) {
-  return simple_error(chdir(path));
+  if(chdir(path) != 0) return translate_error(errno);
+  return EVFS_OK;
 }
 
 #endif
-- 
2.43.0


From d2257ea74a8163c2f0330810b9a1482c0968a74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 077/140] fix: an error while listing a host directory is
 reported as its end

---
 src/stdio_fs.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index 60a41d6..db631ba 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -233,6 +233,7 @@ static int stdio__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   struct dirent *posix_entry;
 
+  errno = 0;
   posix_entry = readdir(dir->dp);
 
   // Skip over dir dots if configured
@@ -252,7 +253,9 @@ static int stdio__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->name = NULL;
   }
 
-  return posix_entry ? EVFS_OK : EVFS_DONE;
+  if(posix_entry) return EVFS_OK;
+
+  return errno == 0 ? EVFS_DONE : translate_error(errno);
 }
 
 
-- 
2.43.0


From 55eba0056957ad943cd6b9f49f05f34ebf20ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 078/140] fix: opening with EVFS_NO_EXIST creates files on a
 read-only host or FAT file system

---
 src/fatfs_fs.c | 2 +-
 src/stdio_fs.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index b09dfb6..05cf240 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -343,7 +343,7 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_fatfs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   BYTE fs_flags = 0;
diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index db631ba..d916c9f 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -302,7 +302,7 @@ static int stdio__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_stdio_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   // Build mode string from flags
-- 
2.43.0


From d0d28008e8fc2587dff5697bd42c73b92879b75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:07 +0000
Subject: [PATCH 079/140] fix: data added by growing a host file can not be
 read after its end was reached

---
 src/stdio_fs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index d916c9f..a926931 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -147,6 +147,8 @@ static int stdio__file_truncate(EvfsFile *fh, evfs_off_t size) {
   if(fflush(fil->fp) != 0) return translate_error(errno);
 
   if(ftruncate(fileno(fil->fp), size) != 0) return translate_error(errno);
+
+  clearerr(fil->fp); // The position may not be at the end anymore
   return EVFS_OK;
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
-- 
2.43.0


From 09a5f5f1bbbc4590b87002db4fce4a58c4f1d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:41 +0000
Subject: [PATCH 080/140] fix: truncating a FAT file to its size or more drops
 its last byte

---
 src/fatfs_fs.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 05cf240..f097c6d 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -156,12 +156,14 @@ static int fatfs__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  if(size < 0) return EVFS_ERR_BAD_ARG;
+
   evfs_off_t cur_pos = f_tell(&fil->fil);
 
   // f_lseek() can grow files in write mode which we don't want to do here.
   evfs_off_t file_size = f_size(&fil->fil);
-  if(size >= file_size)
-    size = file_size-1;
+  if(size > file_size)
+    size = file_size;
 
   if(cur_pos > size)
     cur_pos = size;
-- 
2.43.0


From a842580151da8e8338f1b94b4132f25320359f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:41 +0000
Subject: [PATCH 081/140] fix: making, mounting or unmounting a FAT image
 always works on volume 0

---
 src/fatfs_image.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 3896b07..938308d 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -72,7 +72,7 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
       char drive_path[3];
       char buf[FF_MAX_SS*4];
 
-      snprintf(drive_path, 2, "%hhu", pdrv);
+      snprintf(drive_path, sizeof(drive_path), "%u:", pdrv);
 
       FRESULT err = f_mkfs(drive_path, NULL, buf, COUNT_OF(buf));
       status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
@@ -111,7 +111,7 @@ int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
 
 
   char drive_path[3];
-  snprintf(drive_path, 2, "%hhu", pdrv);
+  snprintf(drive_path, sizeof(drive_path), "%u:", pdrv);
 
   FRESULT err = f_mount(&img->fs, drive_path, 1);
   status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
@@ -135,7 +135,7 @@ void fatfs_unmount_image(uint8_t pdrv) {
   FatfsImage *img = get_image_data(pdrv);
 
   char drive_path[3];
-  snprintf(drive_path, 2, "%hhu", pdrv);
+  snprintf(drive_path, sizeof(drive_path), "%u:", pdrv);
   f_unmount(drive_path);
 
   evfs_file_close(img->fh);
-- 
2.43.0


From 772a261a1b9816cbd35164330632f93f4b4e6f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 082/140] fix: EVFS_APPEND on FAT files overwrites data after a
 seek

---
 src/fatfs_fs.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index f097c6d..d73cf1f 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -42,6 +42,7 @@ typedef struct FatfsFile_s {
   EvfsFile base;
   FatfsData *fs_data;
   uint8_t pdrv;
+  bool append;
   FIL fil;
 } FatfsFile;
 
@@ -137,7 +138,14 @@ static ptrdiff_t fatfs__file_write(EvfsFile *fh, const void *buf, size_t size) {
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
   UINT wrote = 0;
-  FRESULT status = f_write(&fil->fil, buf, size, &wrote);
+  FRESULT status = FR_OK;
+
+  // FatFs only moves to the end once when opening
+  if(fil->append)
+    status = f_lseek(&fil->fil, f_size(&fil->fil));
+
+  if(status == FR_OK)
+    status = f_write(&fil->fil, buf, size, &wrote);
   ptrdiff_t rval = translate_error(status);
 
   if(rval == EVFS_OK && wrote > 0)
@@ -359,6 +367,7 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 
   fil->fs_data = fs_data;
   fil->pdrv = fs_data->pdrv;
+  fil->append = (flags & EVFS_APPEND) != 0;
   
   FRESULT status;
   status = f_open(&fil->fil, path, fs_flags);
-- 
2.43.0


From 23440281616a09a81ca094f1c967ff1eb5e7db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:47 +0000
Subject: [PATCH 083/140] fix: a VFS registered for FAT volume 1 operates on
 volume 0

---
 src/fatfs_fs.c | 47 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index d73cf1f..4db7f0e 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -86,6 +86,16 @@ static int translate_error(int err) {
 #define simple_error(e)  ((e) == FR_OK ? EVFS_OK : EVFS_ERR)
 
 
+// Paths without a drive prefix refer to the current FatFs drive
+static FRESULT select_volume(Evfs *vfs) {
+  FatfsData *fs_data = (FatfsData *)vfs->fs_data;
+
+  char drive_path[4];
+  snprintf(drive_path, sizeof(drive_path), "%u:", fs_data->pdrv);
+  return f_chdrive(drive_path);
+}
+
+
 static bool fatfs__path_root_component(Evfs *vfs, const char *path, StringRange *root) {
   // Handle DOS style drive paths
   const char *pos = path;
@@ -369,8 +379,9 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
   fil->pdrv = fs_data->pdrv;
   fil->append = (flags & EVFS_APPEND) != 0;
   
-  FRESULT status;
-  status = f_open(&fil->fil, path, fs_flags);
+  FRESULT status = select_volume(vfs);
+  if(status == FR_OK)
+    status = f_open(&fil->fil, path, fs_flags);
 
   return translate_error(status);
 }
@@ -379,9 +390,9 @@ static int fatfs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
 static int fatfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   FatfsData *fs_data = (FatfsData *)vfs->fs_data;
 
-  FRESULT status;
-
-  status = f_stat(path, &fs_data->info);
+  FRESULT status = select_volume(vfs);
+  if(status == FR_OK)
+    status = f_stat(path, &fs_data->info);
 
   memset(info, 0, sizeof(*info));
 
@@ -405,7 +416,9 @@ static int fatfs__delete(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
-  status = f_unlink(path);
+  status = select_volume(vfs);
+  if(status == FR_OK)
+    status = f_unlink(path);
   return translate_error(status);
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
@@ -420,7 +433,9 @@ static int fatfs__rename(Evfs *vfs, const char *old_path, const char *new_path)
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
-  status = f_rename(old_path, new_path);
+  status = select_volume(vfs);
+  if(status == FR_OK)
+    status = f_rename(old_path, new_path);
   return translate_error(status);
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
@@ -436,7 +451,9 @@ static int fatfs__make_dir(Evfs *vfs, const char *path) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
-  status = f_mkdir(path);
+  status = select_volume(vfs);
+  if(status == FR_OK)
+    status = f_mkdir(path);
   return translate_error(status);
 #else
   THROW(EVFS_ERR_NO_SUPPORT);
@@ -453,9 +470,9 @@ static int fatfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
   //dir->fs = fs_data->fs;
   dir->pdrv = fs_data->pdrv;
 
-  FRESULT status;
-
-  status = f_opendir(&dir->dir, path);
+  FRESULT status = select_volume(vfs);
+  if(status == FR_OK)
+    status = f_opendir(&dir->dir, path);
   return translate_error(status);
 
 }
@@ -463,12 +480,16 @@ static int fatfs__open_dir(Evfs *vfs, const char *path, EvfsDir *dh) {
 
 
 static int fatfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
-  FRESULT status = f_getcwd((char *)cur_dir->start, range_size(cur_dir));
+  FRESULT status = select_volume(vfs);
+  if(status == FR_OK)
+    status = f_getcwd((char *)cur_dir->start, range_size(cur_dir));
   return translate_error(status);
 }
 
 static int fatfs__set_cur_dir(Evfs *vfs, const char *path) {
-  FRESULT status = f_chdir(path);
+  FRESULT status = select_volume(vfs);
+  if(status == FR_OK)
+    status = f_chdir(path);
   return translate_error(status);
 }
 
-- 
2.43.0


From 3e68256a7c1b6fa3df887fe074b575096b1f2a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:37 +0000
Subject: [PATCH 084/140] fix: the root of a FAT volume does not exist for stat

---
 src/fatfs_fs.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 4db7f0e..da9d246 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -394,6 +394,18 @@ static int fatfs__stat(Evfs *vfs, const char *path, EvfsInfo *info) {
   if(status == FR_OK)
     status = f_stat(path, &fs_data->info);
 
+  // The root has no directory entry that could be reported
+  if(status == FR_INVALID_NAME) {
+    DIR root;
+    if(f_opendir(&root, path) == FR_OK) {
+      f_closedir(&root);
+      memset(&fs_data->info, 0, sizeof(fs_data->info));
+      fs_data->info.fname[0] = EVFS_DIR_SEP;
+      fs_data->info.fattrib = AM_DIR;
+      status = FR_OK;
+    }
+  }
+
   memset(info, 0, sizeof(*info));
 
   if(status == FR_OK) {
-- 
2.43.0


From 0b883042e3574917fbaaf310d3333d6d9e633b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:39 +0000
Subject: [PATCH 085/140] fix: moving a FAT directory below itself loses it and
 everything in it

---
 src/fatfs_fs.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index da9d246..81c169f 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -438,6 +438,38 @@ static int fatfs__delete(Evfs *vfs, const char *path) {
 }
 
 
+#if FF_FS_READONLY == 0
+// FatFs doesn't prevent a directory from being moved below itself which loses all of it
+static FRESULT check_dir_move(Evfs *vfs, const char *old_path, const char *new_path) {
+  DIR dir;
+  if(f_opendir(&dir, old_path) != FR_OK) return FR_OK; // Not a directory
+
+  DWORD old_cluster = dir.obj.sclust;
+  f_closedir(&dir);
+
+  char parent[EVFS_MAX_PATH];
+  StringRange parent_r = RANGE_FROM_ARRAY(parent);
+  if(evfs_vfs_path_absolute(vfs, new_path, &parent_r) != EVFS_OK)
+    return FR_INVALID_NAME;
+
+  StringRange root;
+  fatfs__path_root_component(vfs, parent, &root);
+
+  // Look for the directory among all parents of the new path
+  char *sep;
+  while((sep = strrchr(parent, EVFS_DIR_SEP)) && sep >= root.end) {
+    *sep = '\0';
+    if(f_opendir(&dir, parent) == FR_OK) {
+      DWORD cluster = dir.obj.sclust;
+      f_closedir(&dir);
+      if(cluster == old_cluster) return FR_DENIED;
+    }
+  }
+
+  return FR_OK;
+}
+#endif
+
 static int fatfs__rename(Evfs *vfs, const char *old_path, const char *new_path) {
 #if FF_FS_READONLY == 0
   FRESULT status;
@@ -446,6 +478,8 @@ static int fatfs__rename(Evfs *vfs, const char *old_path, const char *new_path)
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
   status = select_volume(vfs);
+  if(status == FR_OK)
+    status = check_dir_move(vfs, old_path, new_path);
   if(status == FR_OK)
     status = f_rename(old_path, new_path);
   return translate_error(status);
-- 
2.43.0


From b8f8dd1521461d978b82356e930f34d5d28bc8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 086/140] fix: closing a FAT file reports success when its data
 could not be written

---
 src/fatfs_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 81c169f..c794ca2 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -123,8 +123,8 @@ static int fatfs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int fatfs__file_close(EvfsFile *fh) {
   FatfsFile *fil = (FatfsFile *)fh;
-  f_close(&fil->fil);
-  return EVFS_OK;
+  FRESULT status = f_close(&fil->fil); // Flushes cached data
+  return translate_error(status);
 }
 
 static ptrdiff_t fatfs__file_read(EvfsFile *fh, void *buf, size_t size) {
-- 
2.43.0


From 578f33f25158ceeee9fdfeb42da3ddbbb7cb435c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 087/140] fix: FAT sectors are written to the wrong place of
 the image after a failed seek

---
 src/fatfs_image.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 938308d..b22ae1f 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -161,7 +161,9 @@ DSTATUS disk_status(BYTE pdrv) {
 DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
+  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+    return RES_ERROR;
+
   ptrdiff_t read = evfs_file_read(img->fh, buff, count * FF_MAX_SS);
 
   return read == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
@@ -170,7 +172,9 @@ DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
 DRESULT disk_write(BYTE pdrv, const BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO);
+  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+    return RES_ERROR;
+
   ptrdiff_t wrote = evfs_file_write(img->fh, buff, count * FF_MAX_SS);
 
   return wrote == (count * FF_MAX_SS) ? RES_OK : RES_ERROR;
-- 
2.43.0


From 6b496ef77199adae0873feaf6bf546d04179caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 088/140] fix: a failed read of a FAT directory looks like its
 end

---
 src/fatfs_fs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index c794ca2..bf26420 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -335,6 +335,9 @@ static int fatfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->name = NULL;
   }
 
+  if(status != FR_OK)
+    return translate_error(status);
+
   return info->name ? EVFS_OK : EVFS_DONE;
 }
 
-- 
2.43.0


From 1b577d48576903401ef7cbb6eb869b88eda0d020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 089/140] fix: FAT image functions corrupt memory when given a
 volume number that does not exist

---
 src/fatfs_image.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index b22ae1f..4203bc6 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -29,7 +29,7 @@ Embedded Virtual Filesystem
 static FatfsImage s_fatfs_image_data[FF_VOLUMES] = {0};
 
 static inline FatfsImage *get_image_data(BYTE pdrv) {
-  return &s_fatfs_image_data[pdrv];
+  return pdrv < FF_VOLUMES ? &s_fatfs_image_data[pdrv] : NULL;
 }
 
 
@@ -103,6 +103,7 @@ Returns:
 int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
   if(PTR_CHECK(img_path)) return EVFS_ERR_BAD_ARG;
   FatfsImage *img = get_image_data(pdrv);
+  if(PTR_CHECK(img)) return EVFS_ERR_BAD_ARG;
 
   // Open the image
   int status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
@@ -133,6 +134,7 @@ Args:
 */
 void fatfs_unmount_image(uint8_t pdrv) {
   FatfsImage *img = get_image_data(pdrv);
+  if(PTR_CHECK(img)) return;
 
   char drive_path[3];
   snprintf(drive_path, sizeof(drive_path), "%u:", pdrv);
-- 
2.43.0


From 15c032faf9ac474c2d8ae9c8712b3e72eb0b6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 090/140] fix: a FAT volume stays usable with a closed image
 after a failed mount, and unmounting twice closes it twice

---
 src/fatfs_image.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 4203bc6..264ef74 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -117,8 +117,11 @@ int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
   FRESULT err = f_mount(&img->fs, drive_path, 1);
   status = (err == FR_OK) ? EVFS_OK : EVFS_ERR;
 
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
+    f_unmount(drive_path);
     evfs_file_close(img->fh);
+    img->fh = NULL;
+  }
 
   return status;
 }
@@ -140,7 +143,9 @@ void fatfs_unmount_image(uint8_t pdrv) {
   snprintf(drive_path, sizeof(drive_path), "%u:", pdrv);
   f_unmount(drive_path);
 
-  evfs_file_close(img->fh);
+  if(img->fh)
+    evfs_file_close(img->fh);
+  img->fh = NULL;
 }
 
 
-- 
2.43.0


From 15698fa54a27f9d059a971466d2ca64f2c28e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 091/140] fix: making a FAT image reports success when its file
 can not be sized, closed or opened again

---
 src/fatfs_image.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 264ef74..2444c0f 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -58,16 +58,24 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
 
   if(status == EVFS_OK) {
     // Expand image file to match configuration data
-    evfs_file_seek(img->fh, img_size - 1, EVFS_SEEK_TO);
+    status = evfs_file_seek(img->fh, img_size - 1, EVFS_SEEK_TO);
+
+    if(status == EVFS_OK) {
+      char force_data[] = "\0";
+      status = evfs_file_write(img->fh, force_data, sizeof(char));
+      if(status == 0)
+        status = EVFS_ERR_IO;
+    }
 
-    char force_data[] = "\0";
-    status = evfs_file_write(img->fh, force_data, sizeof(char));
     if(status > 0) {
 #if FF_FS_READONLY == 0
       // Reopen for formatting
-      evfs_file_close(img->fh);
-      evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
-
+      status = evfs_file_close(img->fh);
+      img->fh = NULL;
+      if(status == EVFS_OK)
+        status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+      if(status != EVFS_OK)
+        return status;
 
       char drive_path[3];
       char buf[FF_MAX_SS*4];
@@ -81,7 +89,9 @@ int fatfs_make_image(const char *img_path, uint8_t pdrv, evfs_off_t img_size) {
 #endif
     }
 
-    evfs_file_close(img->fh);
+    int close_status = evfs_file_close(img->fh);
+    if(status == EVFS_OK)
+      status = close_status;
   }
 
   img->fh = NULL;
-- 
2.43.0


From c343e4606e2352d721a4af719ec30650ec612c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:12 +0000
Subject: [PATCH 092/140] fix: trace reports show wrong offsets and sizes when
 they are negative

---
 src/shim_trace.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shim_trace.c b/src/shim_trace.c
index 497dbb5..75c2447 100644
--- a/src/shim_trace.c
+++ b/src/shim_trace.c
@@ -185,7 +185,7 @@ static int trace__file_truncate(EvfsFile *fh, evfs_off_t size) {
   TraceFile *fil = (TraceFile *)fh;
   TraceData *shim_data = fil->shim_data;
 
-  trace_printf(shim_data, TP("%s.m_truncate(" HL_NAME ", size=%ld)"), shim_data->vfs_name, fil->filename, size);
+  trace_printf(shim_data, TP("%s.m_truncate(" HL_NAME ", size=%ld)"), shim_data->vfs_name, fil->filename, (long)size);
   int status = fil->base_file->methods->m_truncate(fil->base_file, size);
   trace_print_result(shim_data, evfs_err_name(status), status);
 
@@ -231,7 +231,7 @@ static int trace__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
   }
 
   trace_printf(shim_data, TP("%s.m_seek(" HL_NAME ", offset=%ld, origin=%s)"),
-               shim_data->vfs_name, fil->filename, offset, org_name);
+               shim_data->vfs_name, fil->filename, (long)offset, org_name);
   int status = fil->base_file->methods->m_seek(fil->base_file, offset, origin);
   trace_print_result(shim_data, evfs_err_name(status), status);
 
-- 
2.43.0


From 1935747ac8dc82c391364706f536c94f6c4dbc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:00 +0000
Subject: [PATCH 093/140] fix: a log that can not be opened after its creation
 leaves an empty container behind

---
 src/shim_rotate.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 87a69e5..418f695 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -346,6 +346,17 @@ static int clear_container(Evfs *base_vfs, const char *path) {
 }
 
 
+// Remove a container that has no chunks yet
+static void remove_new_container(Evfs *base_vfs, const char *path) {
+  char joined[EVFS_MAX_PATH];
+  StringRange joined_r = RANGE_FROM_ARRAY(joined);
+
+  if(evfs_vfs_path_join_str(base_vfs, path, MULTIPART_GEOMETRY_FILE, &joined_r) == EVFS_OK)
+    base_vfs->m_delete(base_vfs, joined);
+  base_vfs->m_delete(base_vfs, path);
+}
+
+
 static bool is_rotate_file(Evfs *base_vfs, const char *path) {
   // Container directory has to exist
   EvfsInfo info;
@@ -1389,9 +1400,13 @@ static int rotate__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags) {
       status = EVFS_ERR_EXISTS;
     }
 
-    if(status == EVFS_OK)
+    if(status == EVFS_OK) {
       status = open_rotate_container(vfs, path, fil, flags);
 
+      if(status != EVFS_OK && !exists) // Don't leave a container the caller never got access to
+        remove_new_container(base_vfs, path);
+    }
+
     if(status == EVFS_OK && (flags & EVFS_OVERWRITE)) { // Discard existing content
       status = rotate__file_truncate(fh, 0);
       if(status != EVFS_OK)
-- 
2.43.0


From a613662c26842cc1c7ad61cbcecbc92e8f379f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:43 +0000
Subject: [PATCH 094/140] fix: normalizing a path with a long root succeeds
 with an unnormalized root when memory runs out

---
 src/evfs_path.c | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/evfs_path.c b/src/evfs_path.c
index 8e31277..13eda20 100644
--- a/src/evfs_path.c
+++ b/src/evfs_path.c
@@ -46,8 +46,8 @@ static bool normalize_root_component(Evfs *vfs, char *path, StringRange *root) {
 }
 
 
-static bool append_normalized_root(Evfs *vfs, AppendRange *dest, StringRange *root) {
-  bool truncated = false;
+static int append_normalized_root(Evfs *vfs, AppendRange *dest, StringRange *root) {
+  int status = EVFS_OK;
 
   // Copy the un-normalized root
   if(range_size(root) < 16) {
@@ -55,14 +55,12 @@ static bool append_normalized_root(Evfs *vfs, AppendRange *dest, StringRange *ro
     strncpy(root_buf, root->start, range_size(root));
     normalize_root_component(vfs, root_buf, root);
     if(range_cat_range_no_nul(dest, root) < 0)
-      truncated = true;
+      status = EVFS_ERR_OVERFLOW;
 
   } else { // Fallback to malloc
     char *root_norm = evfs_malloc(range_size(root)+1);
     if(MEM_CHECK(root_norm)) { // Failed malloc
-      // Just append the root without normalization
-      if(range_cat_range_no_nul(dest, root) < 0)
-        truncated = true;
+      status = EVFS_ERR_ALLOC;
 
     } else { // Success
       memset(root_norm, 0, range_size(root)+1);
@@ -70,13 +68,13 @@ static bool append_normalized_root(Evfs *vfs, AppendRange *dest, StringRange *ro
       normalize_root_component(vfs, root_norm, root);
 
       if(range_cat_range_no_nul(dest, root) < 0)
-        truncated = true;
+        status = EVFS_ERR_OVERFLOW;
 
       evfs_free(root_norm);
     }
   }
 
-  return truncated;
+  return status;
 }
 
 
@@ -341,9 +339,11 @@ int evfs_vfs_path_normalize(Evfs *vfs, const char *path, StringRange *normalized
   if(range_size(&root) > 0) {
 
     // Copy the un-normalized root
-    if(append_normalized_root(vfs, &norm_r, &root))
-      truncated = true;
+    int status = append_normalized_root(vfs, &norm_r, &root);
+    if(status == EVFS_ERR_ALLOC)
+      return status;
 
+    truncated = status != EVFS_OK;
   }
 
   if(last_seg >= 0) {
@@ -448,8 +448,13 @@ static int path_normalize_long(Evfs *vfs, const char *path, AppendRange *normali
 
   // Add root prefix
   if(range_size(&root) > 0) {
-    if(append_normalized_root(vfs, normalized, &root))
-      truncated = true;
+    int status = append_normalized_root(vfs, normalized, &root);
+    if(status == EVFS_ERR_ALLOC) {
+      evfs_free(tok_stack);
+      return status;
+    }
+
+    truncated = status != EVFS_OK;
   }
 
   // It's possible that the path and normalized range overlap so we defer inserting
-- 
2.43.0


From f5e19a26d00a65933b4ad196a11fe1c58735953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 095/140] fix: concurrent registration, default lookup and
 unregistering of everything access the VFS list without its lock

---
 src/evfs.c | 58 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/evfs.c b/src/evfs.c
index d645452..ebc47b4 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -252,6 +252,22 @@ static bool default__path_root_component(Evfs *vfs, const char *path, StringRang
 // ******************** VFS registration ********************
 
 
+// Search for a VFS with the library lock held
+static Evfs *evfs__find_locked(const char *vfs_name) {
+  Evfs *rval = NULL;
+  Evfs *cur_vfs = s_vfs_list;
+
+  while(cur_vfs) {
+    if(!strcmp(cur_vfs->vfs_name, vfs_name))
+      rval = cur_vfs;
+
+    cur_vfs = cur_vfs->next;
+  }
+
+  return rval;
+}
+
+
 /*
 Search for a VFS by name
 
@@ -263,17 +279,9 @@ Returns:
 */
 Evfs *evfs_find_vfs(const char *vfs_name) {
   if(PTR_CHECK(vfs_name)) return NULL;
-  Evfs *rval = NULL;
 
   LOCK();
-  Evfs *cur_vfs = s_vfs_list;
-
-  while(cur_vfs) {
-    if(!strcmp(cur_vfs->vfs_name, vfs_name))
-      rval = cur_vfs;
-
-    cur_vfs = cur_vfs->next;
-  }
+  Evfs *rval = evfs__find_locked(vfs_name);
   UNLOCK();
 
   return rval;
@@ -287,8 +295,11 @@ static Evfs *evfs__get_vfs(const char *vfs_name) {
   if(vfs_name)
     vfs = evfs_find_vfs(vfs_name);
 
-  if(!vfs) // No name provided or not found in registered list
+  if(!vfs) { // No name provided or not found in registered list
+    LOCK();
     vfs = s_default_vfs;
+    UNLOCK();
+  }
 
   return vfs;
 }
@@ -346,11 +357,11 @@ int evfs_register(Evfs *vfs, bool make_default) {
   if(!s_evfs_initialized) THROW(EVFS_ERR_INIT);
 
 
+  LOCK();
   if(s_vfs_list) { // Prepend entry to existing list
     // Check if this VFS is already registered
-    Evfs *existing_vfs = evfs_find_vfs(vfs->vfs_name);
+    Evfs *existing_vfs = evfs__find_locked(vfs->vfs_name);
 
-    LOCK();
     if(!existing_vfs) { // Add a New VFS
       vfs->next = s_vfs_list;
       s_vfs_list = vfs;
@@ -376,12 +387,7 @@ int evfs_register(Evfs *vfs, bool make_default) {
         s_default_vfs = vfs;
     }
 
-    if(!new_vfs) {
-      UNLOCK();
-    }
-
   } else { // First VFS entry
-    LOCK();
     s_default_vfs = vfs; // First entry must be the default
     s_vfs_list = vfs;
 
@@ -402,8 +408,8 @@ int evfs_register(Evfs *vfs, bool make_default) {
     if(!vfs->m_vfs_ctrl)     vfs->m_vfs_ctrl = default__vfs_ctrl;
 
     if(!vfs->m_path_root_component) vfs->m_path_root_component = default__path_root_component;
-    UNLOCK();
   }
+  UNLOCK();
 
   return EVFS_OK;
 }
@@ -465,14 +471,16 @@ int evfs_unregister(Evfs *vfs) {
 Unregister all registered VFS objects
 */
 void evfs_unregister_all(void) {
-  Evfs *cur_vfs = s_vfs_list;
-  Evfs *next_vfs;
+  Evfs *cur_vfs;
 
-  while(cur_vfs) {
-    next_vfs = cur_vfs->next;
-    evfs_unregister(cur_vfs);
-    cur_vfs = next_vfs;
-  }
+  do {
+    LOCK();
+    cur_vfs = s_vfs_list;
+    UNLOCK();
+
+    if(cur_vfs)
+      evfs_unregister(cur_vfs);
+  } while(cur_vfs);
 }
 
 
-- 
2.43.0


From 573629c889df8c836bcfe069dd6894e039f4d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 096/140] fix: the current directory of jail, tar and romfs
 instances is read while another thread changes it

---
 src/romfs_fs.c    | 47 ++++++++++++++++++++++++++++++++++++---------
 src/shim_jail.c   | 30 +++++++++++++++++++++++++----
 src/tar_fs.c      | 49 +++++++++++++++++++++++++++++++++++++++++------
 src/tar_rsrc_fs.c | 49 +++++++++++++++++++++++++++++++++++++++++------
 4 files changed, 150 insertions(+), 25 deletions(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 7ff9002..729b350 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -31,8 +31,8 @@ Embedded Virtual Filesystem
 
 ///////////////////////////////////////////////////////////////////////////////////
 
-// Shared buffer needs lock if threading is enabled
-#if defined EVFS_USE_ROMFS_SHARED_BUFFER && defined EVFS_USE_THREADING
+// The image and the shared buffer need a lock if threading is enabled
+#if defined EVFS_USE_THREADING
 #  define USE_ROMFS_LOCK
 #endif
 
@@ -45,6 +45,16 @@ Embedded Virtual Filesystem
 #  define UNLOCK()
 #endif
 
+// Relative paths are resolved while the main lock is held so the current directory needs its own
+#ifdef USE_ROMFS_LOCK
+#  define LOCK_CWD(data)    evfs__lock(&(data)->cwd_lock)
+#  define UNLOCK_CWD(data)  evfs__unlock(&(data)->cwd_lock)
+#else
+#  define LOCK_CWD(data)
+#  define UNLOCK_CWD(data)
+#endif
+
+
 
 
 
@@ -56,7 +66,8 @@ typedef struct RomfsData {
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
 #endif
 #ifdef USE_ROMFS_LOCK
-  EvfsLock  romfs_lock; // Serialize access to shared abs_path buffer
+  EvfsLock  romfs_lock; // Serialize access to the image and shared abs_path buffer
+  EvfsLock  cwd_lock;   // Serialize access to cur_dir
 #endif
 
   Romfs romfs;
@@ -107,8 +118,14 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
     abs_size = strlen(path) + 1;
     *absolute = NULL;
 
-    if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+    if(!evfs_vfs_path_is_absolute(vfs, path)) { // Need space for join with cur_dir
+      abs_size += COUNT_OF(fs_data->cur_dir); // It can change before it is joined
+
+#ifndef ALLOW_LONG_PATHS
+      if(abs_size > EVFS_MAX_PATH) // Longer paths can't be joined
+        abs_size = EVFS_MAX_PATH;
+#endif
+    }
 
     abs_path = evfs_malloc(abs_size);
     if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
@@ -439,10 +456,11 @@ static int romfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   RomfsData *fs_data = (RomfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  if(range_cat_str(&r, fs_data->cur_dir) < 0)
-    return EVFS_ERR_OVERFLOW;
+  LOCK_CWD(fs_data);
+  int status = range_cat_str(&r, fs_data->cur_dir) < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
+  UNLOCK_CWD(fs_data);
 
-  return EVFS_OK;
+  return status;
 }
 
 
@@ -465,8 +483,11 @@ static int romfs__set_cur_dir(Evfs *vfs, const char *path) {
     status = EVFS_ERR_NO_PATH;
 
   // Overwrite old cur_dir
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
+    LOCK_CWD(fs_data);
     strcpy(fs_data->cur_dir, new_dir);
+    UNLOCK_CWD(fs_data);
+  }
 
   evfs_free(new_dir);
 
@@ -483,6 +504,7 @@ static int romfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
       romfs_unmount(&fs_data->romfs);
 #ifdef USE_ROMFS_LOCK
       evfs__lock_destroy(&fs_data->romfs_lock);
+      evfs__lock_destroy(&fs_data->cwd_lock);
 #endif
 
       evfs_free(vfs);
@@ -561,6 +583,12 @@ static int evfs__register_romfs_cfg(const char *vfs_name, RomfsConfig *cfg, bool
     evfs_free(new_vfs);
     THROW(EVFS_ERR_INIT);
   }
+
+  if(evfs__lock_init(&fs_data->cwd_lock) != EVFS_OK) {
+    evfs__lock_destroy(&fs_data->romfs_lock);
+    evfs_free(new_vfs);
+    THROW(EVFS_ERR_INIT);
+  }
 #endif
 
 
@@ -574,6 +602,7 @@ static int evfs__register_romfs_cfg(const char *vfs_name, RomfsConfig *cfg, bool
   if(status != EVFS_OK) {
 #ifdef USE_ROMFS_LOCK
     evfs__lock_destroy(&fs_data->romfs_lock);
+    evfs__lock_destroy(&fs_data->cwd_lock);
 #endif
     evfs_free(new_vfs);
     return status;
diff --git a/src/shim_jail.c b/src/shim_jail.c
index 4b6474a..0bdb365 100644
--- a/src/shim_jail.c
+++ b/src/shim_jail.c
@@ -46,6 +46,16 @@ Embedded Virtual Filesystem
 #  define UNLOCK()
 #endif
 
+// Relative paths are resolved while the main lock is held so the current directory needs its own
+#ifdef USE_JAIL_LOCK
+#  define LOCK_CWD(data)    evfs__lock(&(data)->cwd_lock)
+#  define UNLOCK_CWD(data)  evfs__unlock(&(data)->cwd_lock)
+#else
+#  define LOCK_CWD(data)
+#  define UNLOCK_CWD(data)
+#endif
+
+
 
 
 // Access objects allocated in a single block of memory
@@ -63,6 +73,7 @@ typedef struct JailData_s {
   char        tmp_path[EVFS_MAX_PATH]; // Shared buffer for unjailed paths
 #ifdef USE_JAIL_LOCK
   EvfsLock    jail_lock; // Serialize access to shared tmp_path buffer
+  EvfsLock    cwd_lock;  // Serialize access to cur_dir
 #endif
 } JailData;
 
@@ -411,10 +422,11 @@ static int jail__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   JailData *fs_data = (JailData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
   
-  if(range_cat_str(&r, fs_data->cur_dir) < 0)
-    return EVFS_ERR_OVERFLOW;
+  LOCK_CWD(fs_data);
+  int status = range_cat_str(&r, fs_data->cur_dir) < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
+  UNLOCK_CWD(fs_data);
 
-  return EVFS_OK;
+  return status;
 }
 
 
@@ -437,8 +449,11 @@ static int jail__set_cur_dir(Evfs *vfs, const char *path) {
     status = EVFS_ERR_NO_PATH;
 
   // Overwrite old cur_dir
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
+    LOCK_CWD(shim_data);
     strcpy(shim_data->cur_dir, new_dir);
+    UNLOCK_CWD(shim_data);
+  }
 
   evfs_free(new_dir);
 
@@ -456,6 +471,7 @@ static int jail__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
   if(cmd == EVFS_CMD_UNREGISTER) {
 #ifdef USE_JAIL_LOCK
       evfs__lock_destroy(&shim_data->jail_lock);
+      evfs__lock_destroy(&shim_data->cwd_lock);
 #endif
       evfs_free(vfs); // Free this trace VFS
       return EVFS_OK;
@@ -547,6 +563,12 @@ int evfs_register_jail(const char *vfs_name, const char *old_vfs_name, const cha
     evfs_free(shim_vfs);
     THROW(EVFS_ERR_INIT);
   }
+
+  if(evfs__lock_init(&shim_data->cwd_lock) != EVFS_OK) {
+    evfs__lock_destroy(&shim_data->jail_lock);
+    evfs_free(shim_vfs);
+    THROW(EVFS_ERR_INIT);
+  }
 #endif
 
   return evfs_register(shim_vfs, default_vfs);
diff --git a/src/tar_fs.c b/src/tar_fs.c
index 6ee2fe3..bbd7956 100644
--- a/src/tar_fs.c
+++ b/src/tar_fs.c
@@ -46,6 +46,16 @@ Embedded Virtual Filesystem
 #  define UNLOCK()
 #endif
 
+// Relative paths are resolved while the main lock is held so the current directory needs its own
+#ifdef EVFS_USE_THREADING
+#  define LOCK_CWD(data)    evfs__lock(&(data)->cwd_lock)
+#  define UNLOCK_CWD(data)  evfs__unlock(&(data)->cwd_lock)
+#else
+#  define LOCK_CWD(data)
+#  define UNLOCK_CWD(data)
+#endif
+
+
 
 typedef struct EvfsTarEntry {
   evfs_off_t header_offset;
@@ -73,6 +83,9 @@ typedef struct TarfsData {
 #ifdef USE_TARFS_LOCK
   EvfsLock  tfs_lock; // Serialize access to shared abs_path buffer
 #endif
+#ifdef EVFS_USE_THREADING
+  EvfsLock  cwd_lock; // Serialize access to cur_dir
+#endif
 
 } TarfsData;
 
@@ -111,8 +124,14 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
     abs_size = strlen(path) + 1;
     *absolute = NULL;
 
-    if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+    if(!evfs_vfs_path_is_absolute(vfs, path)) { // Need space for join with cur_dir
+      abs_size += COUNT_OF(fs_data->cur_dir); // It can change before it is joined
+
+#ifndef ALLOW_LONG_PATHS
+      if(abs_size > EVFS_MAX_PATH) // Longer paths can't be joined
+        abs_size = EVFS_MAX_PATH;
+#endif
+    }
 
     abs_path = evfs_malloc(abs_size);
     if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
@@ -486,10 +505,11 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  if(range_cat_str(&r, fs_data->cur_dir) < 0)
-    return EVFS_ERR_OVERFLOW;
+  LOCK_CWD(fs_data);
+  int status = range_cat_str(&r, fs_data->cur_dir) < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
+  UNLOCK_CWD(fs_data);
 
-  return EVFS_OK;
+  return status;
 }
 
 
@@ -512,8 +532,11 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     status = EVFS_ERR_NO_PATH;
 
   // Overwrite old cur_dir
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
+    LOCK_CWD(fs_data);
     strcpy(fs_data->cur_dir, new_dir);
+    UNLOCK_CWD(fs_data);
+  }
 
   evfs_free(new_dir);
 
@@ -532,6 +555,9 @@ static int tarfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
       tarfs__index_hash_free(&fs_data->tar_index);
 #ifdef USE_TARFS_LOCK
       evfs__lock_destroy(&fs_data->tfs_lock);
+#endif
+#ifdef EVFS_USE_THREADING
+      evfs__lock_destroy(&fs_data->cwd_lock);
 #endif
       evfs_free(vfs);
       return EVFS_OK; break;
@@ -625,6 +651,17 @@ int evfs_register_tar_fs(const char *vfs_name, EvfsFile *tar_file, bool default_
   }
 #endif
 
+#ifdef EVFS_USE_THREADING
+  if(evfs__lock_init(&fs_data->cwd_lock) != EVFS_OK) {
+#  ifdef USE_TARFS_LOCK
+    evfs__lock_destroy(&fs_data->tfs_lock);
+#  endif
+    tarfs__index_hash_free(&fs_data->tar_index);
+    evfs_free(new_vfs);
+    THROW(EVFS_ERR_INIT);
+  }
+#endif
+
   return evfs_register(new_vfs, default_vfs);
 }
 
diff --git a/src/tar_rsrc_fs.c b/src/tar_rsrc_fs.c
index 5c9dc8f..553986c 100644
--- a/src/tar_rsrc_fs.c
+++ b/src/tar_rsrc_fs.c
@@ -54,6 +54,16 @@ Embedded Virtual Filesystem
 #  define UNLOCK()
 #endif
 
+// Relative paths are resolved while the main lock is held so the current directory needs its own
+#ifdef EVFS_USE_THREADING
+#  define LOCK_CWD(data)    evfs__lock(&(data)->cwd_lock)
+#  define UNLOCK_CWD(data)  evfs__unlock(&(data)->cwd_lock)
+#else
+#  define LOCK_CWD(data)
+#  define UNLOCK_CWD(data)
+#endif
+
+
 
 typedef struct EvfsTarEntry {
   ptrdiff_t header_offset;
@@ -83,6 +93,9 @@ typedef struct TarfsData {
 #ifdef USE_TARFS_LOCK
   EvfsLock  tfs_lock; // Serialize access to shared abs_path buffer
 #endif
+#ifdef EVFS_USE_THREADING
+  EvfsLock  cwd_lock; // Serialize access to cur_dir
+#endif
 
 } TarfsData;
 
@@ -121,8 +134,14 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
     abs_size = strlen(path) + 1;
     *absolute = NULL;
 
-    if(!evfs_vfs_path_is_absolute(vfs, path)) // Need space for join with cur_dir
-      abs_size += strlen(fs_data->cur_dir) + 1;
+    if(!evfs_vfs_path_is_absolute(vfs, path)) { // Need space for join with cur_dir
+      abs_size += COUNT_OF(fs_data->cur_dir); // It can change before it is joined
+
+#ifndef ALLOW_LONG_PATHS
+      if(abs_size > EVFS_MAX_PATH) // Longer paths can't be joined
+        abs_size = EVFS_MAX_PATH;
+#endif
+    }
 
     abs_path = evfs_malloc(abs_size);
     if(MEM_CHECK(abs_path)) return EVFS_ERR_ALLOC;
@@ -501,10 +520,11 @@ static int tarfs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   TarfsData *fs_data = (TarfsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  if(range_cat_str(&r, fs_data->cur_dir) < 0)
-    return EVFS_ERR_OVERFLOW;
+  LOCK_CWD(fs_data);
+  int status = range_cat_str(&r, fs_data->cur_dir) < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
+  UNLOCK_CWD(fs_data);
 
-  return EVFS_OK;
+  return status;
 }
 
 
@@ -527,8 +547,11 @@ static int tarfs__set_cur_dir(Evfs *vfs, const char *path) {
     status = EVFS_ERR_NO_PATH;
 
   // Overwrite old cur_dir
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
+    LOCK_CWD(fs_data);
     strcpy(fs_data->cur_dir, new_dir);
+    UNLOCK_CWD(fs_data);
+  }
 
   evfs_free(new_dir);
 
@@ -546,6 +569,9 @@ static int tarfs__vfs_ctrl(Evfs *vfs, int cmd, void *arg) {
       tarfs__index_hash_free(&fs_data->tar_index);
 #ifdef USE_TARFS_LOCK
       evfs__lock_destroy(&fs_data->tfs_lock);
+#endif
+#ifdef EVFS_USE_THREADING
+      evfs__lock_destroy(&fs_data->cwd_lock);
 #endif
       evfs_free(vfs);
       return EVFS_OK; break;
@@ -643,6 +669,17 @@ int evfs_register_tar_rsrc_fs(const char *vfs_name, uint8_t *resource, size_t re
   }
 #endif
 
+#ifdef EVFS_USE_THREADING
+  if(evfs__lock_init(&fs_data->cwd_lock) != EVFS_OK) {
+#  ifdef USE_TARFS_LOCK
+    evfs__lock_destroy(&fs_data->tfs_lock);
+#  endif
+    tarfs__index_hash_free(&fs_data->tar_index);
+    evfs_free(new_vfs);
+    THROW(EVFS_ERR_INIT);
+  }
+#endif
+
   return evfs_register(new_vfs, default_vfs);
 }
 
-- 
2.43.0


From b56432805ecb6c39a6c07c688fb44210795b11b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 097/140] fix: reading romfs directories, and looking up paths
 without the shared buffer, races with other users of the image

---
 src/romfs_fs.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/romfs_fs.c b/src/romfs_fs.c
index 729b350..d890cd2 100644
--- a/src/romfs_fs.c
+++ b/src/romfs_fs.c
@@ -304,6 +304,7 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
   int status = EVFS_OK;
   RomfsFileHead hdr;
 
+  LOCK(); // Other threads can move the position in the image
   // Advance to next directory
   if(dir->is_reset) { // Init iterator
     if(romfs_read_file_header(&fs_data->romfs, dir->dir_pos, &hdr)) {
@@ -338,6 +339,7 @@ static int romfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
         break;
     }
   }
+  UNLOCK();
 
   memset(info, 0, sizeof(*info));
 
@@ -375,8 +377,14 @@ static EvfsDirMethods s_romfs_dir_methods = {
 
 static inline int romfs__lookup_path(Evfs *vfs, RomfsData *fs_data, const char *path,
                                     RomfsFileHead *hdr) {
-  MAKE_ABS(path, abs_path);
+  MAKE_ABS(path, abs_path); // This takes the lock when the path is in the shared buffer
+#ifndef EVFS_USE_ROMFS_SHARED_BUFFER
+  LOCK();
+#endif
   int status = romfs_lookup_abs_path(&fs_data->romfs, abs_path, hdr);
+#ifndef EVFS_USE_ROMFS_SHARED_BUFFER
+  UNLOCK();
+#endif
   FREE_ABS(abs_path);
 
   return status;
-- 
2.43.0


From 5db18550a03fb08d2ed8f3b2734f1e359e54448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 098/140] fix: reserving a number of dhash entries does not
 make room for all of them, and a number too large for the table is accepted

---
 src/util/dhash.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/dhash.c b/src/util/dhash.c
index 59094d1..35d8924 100644
--- a/src/util/dhash.c
+++ b/src/util/dhash.c
@@ -347,6 +347,10 @@ static bool dh__alloc_buckets(dhash *hash, size_t new_num_buckets) {
 // Initialize or grow a hash table
 static inline bool dh__init(dhash *hash, dhConfig *config, void *ctx, bool new_hash) {
 #ifndef DH_USE_2X_GROWTH
+  // There is no prime for larger hashes
+  if(config->init_buckets > (size_t)get_prime(PRIME_LIST_LEN-1))
+    return false;
+
   // Find closest prime to init_buckets
   dhBucketIndex prime_ix    = get_closest_prime_index(config->init_buckets);
   dhBucketIndex num_buckets = get_prime(prime_ix);
@@ -1089,9 +1093,13 @@ bool dh_reserve_capacity(dhash *hash, size_t add_capacity) {
 
   add_capacity -= free_buckets;
 
+  // The number of buckets has to be representable
+  if(add_capacity > SIZE_MAX / 256UL - hash_capacity)
+    return false;
+
   // Add space for extra buckets
   const size_t lfactor = MAX_LOAD_FACTOR(128UL); // Get the numerator
-  size_t new_buckets = (hash_capacity + add_capacity) * 128UL / lfactor;
+  size_t new_buckets = ((hash_capacity + add_capacity) * 128UL + lfactor - 1) / lfactor; // Round up
 
   return dh__grow(hash, new_buckets);
 }
-- 
2.43.0


From d1274ac8aa9ff966a270601f2bf92bb459681a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 099/140] fix: signed fixed point numbers lose their sign below
 1, and are rounded to the wrong value when digits are dropped

---
 src/util/intmath.c       | 27 +++++++++++++++++++--------
 src/util/range_strings.c | 10 +++-------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index d5eb0d0..5ad8f14 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -232,6 +232,8 @@ int fixed_to_int(int fp_value, unsigned fp_scale) {
 
 
 
+#define MAX_FRAC_DIGITS   9   // Largest power of 10 that fits in 32-bits
+
 /*
 Convert a fixed point number in any base to integer and fractional parts in base-10
 
@@ -252,22 +254,29 @@ int to_fixed_base10_parts(long value, unsigned long fp_scale, long *integer, lon
   }
 
   long vi = value / (long)fp_scale;
-  int vf = value % (long)fp_scale;
+  long long vf = value % (long)fp_scale;
 
   if(vf < 0)  vf = -vf; // Remove sign on fraction to simplify rounding
 
   // If fp_scale is already a power of 10 we don't want to grow by an extra digit so
   // decrement when taking log.
   unsigned frac_digits = base10_digits(fp_scale-1);
+  if(frac_digits > MAX_FRAC_DIGITS)
+    frac_digits = MAX_FRAC_DIGITS;
 
   // get 10 ^ base10_digits(fp_scale)
-  int scale_b10 = 1;
+  long scale_b10 = 1;
   for(unsigned i = 0; i < frac_digits; i++) {
     scale_b10 *= 10;
   }
 
   // Convert fraction to base-10 rounded to +/- infinity
-  vf = ((long long)vf * scale_b10 + fp_scale/2) / (long)fp_scale;
+  vf = (vf * scale_b10 + fp_scale/2) / (long)fp_scale;
+
+  if(vf >= scale_b10) { // Rounded into integer
+    vf -= scale_b10;
+    vi += (value < 0) ? -1 : 1;
+  }
 
   if(value < 0) vf = -vf; // Restore sign on fraction
   *integer  = vi;
@@ -293,6 +302,7 @@ Returns:
 int fixed_base10_adjust(long *integer, long *frac, int frac_digits, int frac_places) {
   long vi = *integer;
   long vf = *frac;
+  bool negative = vi < 0 || vf < 0;
 
   if(vf < 0)  vf = -vf; // Remove sign on fraction to simplify rounding
 
@@ -307,14 +317,15 @@ int fixed_base10_adjust(long *integer, long *frac, int frac_digits, int frac_pla
     // Reduce digits if fraction is larger than requested decimal places
     while(frac_digits > frac_places+1) { // Initial scale down without rounding
       vf /= 10;
+      scale_b10 /= 10;
       frac_digits--;
     }
 
     if(frac_digits > frac_places) { // Final adjust with rounding
       vf += 5;  // Start round to +/- infinity in last decimal place
 
-      if(vf > scale_b10) { // Rounded into integer
-        vi++;
+      if(vf >= scale_b10) { // Rounded into integer
+        vi += (negative ? -1 : 1);
         vf = 0; // No fraction part
         frac_digits = 0;
 
@@ -327,7 +338,7 @@ int fixed_base10_adjust(long *integer, long *frac, int frac_digits, int frac_pla
   } else if(frac_places == 0) { // No fraction part
     // Check for rounding into integer
     if(vf + scale_b10/2 >= scale_b10)  // Round up in 1/10ths place
-      vi += (vi < 0 ? -1 : 1);  // Overflow into integer
+      vi += (negative ? -1 : 1);  // Overflow into integer
 
     vf = 0;
     frac_digits = 0;
@@ -335,7 +346,7 @@ int fixed_base10_adjust(long *integer, long *frac, int frac_digits, int frac_pla
 
   *integer = vi;
 
-  if(vi < 0) vf = -vf; // Restore sign on fraction
+  if(negative) vf = -vf; // Restore sign on fraction
   *frac = vf;
   return frac_digits;
 }
@@ -362,7 +373,7 @@ long to_fixed_base10(long value, unsigned long fp_scale, int frac_places, int *b
     frac_digits = fixed_base10_adjust(&integer, &frac, frac_digits, frac_places);
 
   // Convert exponent to scaling
-  int scale_b10 = 1;
+  long scale_b10 = 1;
   for(int i = 0; i < frac_digits; i++) {
     scale_b10 *= 10;
   }
diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index b90d03c..3545d3b 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -684,16 +684,12 @@ int range_cat_fixed_padded(AppendRange *rng, long value, unsigned fp_scale, int
   if(frac_places >= 0)  // Rescale
     frac_digits = fixed_base10_adjust(&integer, &frac, frac_digits, frac_places);
 
+  // The sign has to be added when it isn't part of the integer
+  const char *sign = (integer == 0 && frac < 0) ? "-" : "";
   if(frac < 0) frac = -frac;
 
-  // Convert exponent to scaling
-  int scale_b10 = 1;
-  for(int i = 0; i < frac_digits; i++) {
-    scale_b10 *= 10;
-  }
-
   if(frac_digits > 0)
-    return cat_padded(rng, pad_digits, "%ld.%0*ld", integer, frac_digits, frac);
+    return cat_padded(rng, pad_digits, "%s%ld.%0*ld", sign, integer, frac_digits, frac);
 
   // No fraction part
   return cat_padded(rng, pad_digits, "%ld", integer);
-- 
2.43.0


From c6d3ce46fe7d3b97205d944bfb4793b0d733c414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 100/140] fix: unsigned fixed point numbers have wrong digits
 when the scale is not a power of 10, and when they are rounded

---
 src/util/range_strings.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/util/range_strings.c b/src/util/range_strings.c
index 3545d3b..81c4c4d 100644
--- a/src/util/range_strings.c
+++ b/src/util/range_strings.c
@@ -609,35 +609,37 @@ int range_cat_ufixed_padded(AppendRange *rng, unsigned value, unsigned scale, un
   unsigned integer = value / scale;
   unsigned frac = value % scale;
 
-  // Give ourselves an extra digit for initial rounding
-  unsigned scale_b10_digits = base10_digits(scale) + 1;
+  // Enough digits for the precision of scale, within what fits in 32-bits
+  unsigned frac_digits = base10_digits(scale-1);
+  if(frac_digits > 9)
+    frac_digits = 9;
 
-  // get 10 ^ (base10_digits(scale)+1)
+  // get 10 ^ frac_digits
   unsigned scale_b10 = 1;
-  for(unsigned i = 0; i < scale_b10_digits-1; i++) {
+  for(unsigned i = 0; i < frac_digits; i++) {
     scale_b10 *= 10;
   }
 
-  // Convert fraction to base-10
-  frac = frac * scale_b10 / scale;
+  // Convert fraction to base-10 with rounding
+  frac = ((uint64_t)frac * scale_b10 + scale/2) / scale;
 
-  // Round up and remove extra digit
-  frac = (frac + 5) / 10;
-  scale_b10 /= 10;  // Set to true base-10 scale
-
-  unsigned frac_digits = scale_b10_digits - 2;  // Remove extra digit for round
+  if(frac >= scale_b10) { // Rounded into integer
+    frac -= scale_b10;
+    integer++;
+  }
 
   if(places > 0) {
     // Reduce digits if fraction is larger than requested decimal places
     while(frac_digits > places+1) { // Initial scale down without rounding
       frac /= 10;
+      scale_b10 /= 10;
       frac_digits--;
     }
 
     if(frac_digits > places) { // Final adjust with rounding
       frac += 5;  // Start round up in last decimal place
 
-      if(frac > scale_b10) { // Rounded into integer
+      if(frac >= scale_b10) { // Rounded into integer
         integer++;
         frac = 0; // No fraction part
         frac_digits = 1;
-- 
2.43.0


From 864b68f6ae1055317362c9ad2045c0ebc3941c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 101/140] fix: rounding a fixed point number to an integer
 overflows for large numbers

---
 src/util/intmath.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index 5ad8f14..40a93e2 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -209,8 +209,10 @@ Returns:
   Integral part of fp_value with rounded up fraction removed
 */
 unsigned ufixed_to_uint(unsigned fp_value, unsigned fp_scale) {
-  fp_value += fp_scale/2;  // Round up
-  return fp_value / fp_scale;
+  unsigned integer = fp_value / fp_scale;
+  if(fp_value % fp_scale >= fp_scale - fp_scale/2)  // Round up
+    integer++;
+  return integer;
 }
 
 
@@ -225,9 +227,17 @@ Returns:
   Integral part of fp_value with rounded up fraction removed
 */
 int fixed_to_int(int fp_value, unsigned fp_scale) {
-  int half = (int)fp_scale/2;
-  fp_value += (fp_value < 0) ? -half : half; // Round to +/- infinity
-  return fp_value / (int)fp_scale;
+  int integer = fp_value / (int)fp_scale;
+  int frac = fp_value % (int)fp_scale;
+  int half = (int)fp_scale - (int)fp_scale/2;
+
+  // Round to +/- infinity
+  if(frac >= half)
+    integer++;
+  else if(frac <= -half)
+    integer--;
+
+  return integer;
 }
 
 
-- 
2.43.0


From b07f8a9894803cd7185bedfcadc7ed9153275700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 102/140] fix: numbers with a negative exponent that is not a
 multiple of three get the wrong SI prefix

---
 src/util/intmath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index 40a93e2..0f9054e 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -418,7 +418,7 @@ long to_fixed_si(long value, int value_exp, unsigned fp_scale, char *si_prefix,
 
   const char *prefix_pos;
 
-  int value_exp_si = (value_exp / 3) * 3; // Pick nearest prefix below the value exponent
+  int value_exp_si = ((value_exp < 0 ? value_exp - 2 : value_exp) / 3) * 3; // Pick nearest prefix below the value exponent
   // Need to prescale by 10x or 100x if exponent not already a multiple of 3
   for(int i = 0; i < (value_exp - value_exp_si); i++) {
     value *= 10;
-- 
2.43.0


From 8e943a4ecff922544978a3e3ef1d9a37870f092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 103/140] fix: ceil_pow2() of 1 depends on an undefined bit
 count

---
 src/util/intmath.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index 0f9054e..7f67261 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -58,6 +58,8 @@ static int clz(unsigned x) {
 #endif
 
 uint32_t ceil_pow2(uint32_t x) {
+  if(x <= 1) // clz() is undefined for 0
+    return 1;
   return 1ul << (32 - clz(x - 1));
 }
 
-- 
2.43.0


From 67427de7405abda73dc9c4e73a80a800c62b52a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 104/140] fix: log2_fixed() of 1 shifts by the full width of
 the number

---
 src/util/intmath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index 7f67261..bdbd763 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -110,7 +110,7 @@ int32_t log2_fixed(uint32_t n, unsigned fp_exp) {
   int32_t l2_int = -zeros;
 
   // Extract fraction scaled by 2^32 so it is left justified
-  uint32_t frac = n << (zeros + 1);
+  uint32_t frac = n << zeros << 1; // Two steps since all 32 bits are shifted off for 1
   int ix = frac >> ((8*sizeof frac) - LOG2_TABLE_BITS); // Index into table with upper bits of fraction
   int32_t l2_frac = log2_table[ix];
 
-- 
2.43.0


From 03b63ae29f8b155cd4cf78c8812d1dd5bee38e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 105/140] fix: get_unaligned_u64() returns only 32 bits

---
 include/evfs/util/unaligned_access.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/evfs/util/unaligned_access.h b/include/evfs/util/unaligned_access.h
index abaf28b..9e38bb7 100644
--- a/include/evfs/util/unaligned_access.h
+++ b/include/evfs/util/unaligned_access.h
@@ -268,7 +268,7 @@ static inline void set_unaligned_s32le(int32_t value, void *dest) {
 
 // ******************** uint64_t ********************
 
-static inline uint32_t get_unaligned_u64(const void *data) {
+static inline uint64_t get_unaligned_u64(const void *data) {
   const uint8_t *bdata = (const uint8_t *)data; // Don't allow any assumed alignment 
   uint64_t val;
 
-- 
2.43.0


From 3b99a6353883d8f13497673e046b2feba73c0740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 106/140] fix: after a missing option argument getopt_r()
 continues beyond the end of the arguments

---
 src/util/getopt_r.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index dd79602..a13f8b6 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -284,6 +284,7 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
               state->optarg = CUR_OPT;
             } else { // Exhausted all options without finding an argument
               state->optarg = NULL;
+              state->optind--;  // Revert to this option's arg position
 
               if(state->report_errors)
                 fprintf(stderr, "ERROR: getopt_r() Missing required argument to option '-%c'\n",
-- 
2.43.0


From f477b2581ee76289503263ec1d24fc4ee84d03fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 107/140] fix: getopt_r() accepts the colons in the option
 definitions as an option

---
 src/util/getopt_r.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index a13f8b6..f9804a0 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -268,7 +268,8 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
     rval = state->optopt;
 
     // Search optstring for the current option
-    const char *opt_def = strchr(optstring, state->optopt);
+    // The colons only qualify other options
+    const char *opt_def = (state->optopt != ':') ? strchr(optstring, state->optopt) : NULL;
 
     if(opt_def) {
 
-- 
2.43.0


From 47083dec2c3403126e0871f53e202256c04af60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 108/140] fix: getopt_r() takes a skipped operand as the
 argument of an option that precedes it in a group

---
 src/util/getopt_r.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index f9804a0..2846c6d 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -329,8 +329,13 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
   }
 
   // Permute non-options
-  if(non_opts > 0)
-    permute_args((char **)argv, non_opts, non_opt_start, state);
+  if(non_opts > 0) {
+    // Within a group of options they must stay in place so they aren't taken as an argument
+    if(state->next_char && *state->next_char != '\0')
+      state->optind -= non_opts;
+    else
+      permute_args((char **)argv, non_opts, non_opt_start, state);
+  }
 
   return rval;
 }
-- 
2.43.0


From 7a5ce3076e5b89bc2a8b18ee76c7e09fd9eee497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 109/140] fix: getopt_r() loses the skipped operands when it
 stops at a long option it has no definitions for

---
 src/util/getopt_r.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index 2846c6d..d8b6908 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -174,8 +174,11 @@ int getopt_long_r(char * const argv[], const char *optstring, const struct optio
   if(CUR_OPT[1] == '-') {  // Parse long option
     state->next_char = NULL;
 
-    if(!long_options)
+    if(!long_options) {
+      if(non_opts > 0)  // Correct optind so it points to first non-option
+        state->optind -= non_opts;
       return -1;
+    }
 
     char *long_opt = &CUR_OPT[2];
     state->optind++;
-- 
2.43.0


From 984fc97c9843c61cade6ee4f814c12289073dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 110/140] fix: errors from closing a chunk of a log are not
 reported, so data lost by them goes unnoticed

---
 src/shim_rotate.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/shim_rotate.c b/src/shim_rotate.c
index 418f695..1142630 100644
--- a/src/shim_rotate.c
+++ b/src/shim_rotate.c
@@ -174,6 +174,7 @@ typedef struct MultipartState {
   evfs_off_t  file_pos;     // Logical position for reads and writes in non-append mode
   ChunkId     active_chunk;
   EvfsFile   *active_chunk_fh;
+  int         close_status; // First error from closing a chunk
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   SharedBuffer *buf;
@@ -438,7 +439,11 @@ static ChunkPos get_chunk_pos(RotateState *rs, evfs_off_t logical_off) {
 static inline void deactivate_chunk(MultipartState *ms) {
   // Shutdown current active chunk
   if(ms->active_chunk_fh) {
-    evfs_file_close(ms->active_chunk_fh);
+    // Buffered data can still fail to be written on close. Keep the error for the next sync or close
+    int status = evfs_file_close(ms->active_chunk_fh);
+    if(status != EVFS_OK && ms->close_status == EVFS_OK)
+      ms->close_status = status;
+
     ms->active_chunk_fh = NULL;
     ms->active_chunk.chunk = -1;
   }
@@ -787,6 +792,7 @@ static int open_rotate_container(Evfs *vfs, const char *path, RotateFile *fh, in
   rs->base.active_chunk.chunk = -1;
   rs->base.active_chunk.gen = 0;
   rs->base.active_chunk_fh = NULL;
+  rs->base.close_status = EVFS_OK;
 
 #ifdef EVFS_USE_ROTATE_SHARED_BUFFER
   rs->base.buf = &shim_data->buf;
@@ -940,16 +946,12 @@ static int rotate__file_close(EvfsFile *fh) {
     RotateState *rs = fil->rot_state;
 
     // Shutdown current active chunk
-    if(rs->base.active_chunk_fh) {
-      evfs_file_close(rs->base.active_chunk_fh);
-      rs->base.active_chunk_fh = NULL;
-      rs->base.active_chunk.chunk = -1;
-    }
+    deactivate_chunk(&rs->base);
+    status = rs->base.close_status;
 
     evfs_free(rs);
 
     fil->rot_state = NULL;
-    status = EVFS_OK;
   }
 
 
@@ -1214,6 +1216,9 @@ static int rotate__file_sync(EvfsFile *fh) {
     if(rs->base.active_chunk_fh)
       status = evfs_file_sync(rs->base.active_chunk_fh);
 
+    // Earlier chunks were closed when they were left
+    if(status == EVFS_OK)
+      status = rs->base.close_status;
   }
 
   return status;
-- 
2.43.0


From 0fc8fa7623025ee5f023c78cd2204f5b20fe271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:23 +0000
Subject: [PATCH 111/140] fix: mounting a FAT image on a volume in use loses
 the image mounted before

---
 src/fatfs_image.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 2444c0f..3f0d073 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -116,10 +116,13 @@ int fatfs_mount_image(const char *img_path, uint8_t pdrv) {
   if(PTR_CHECK(img)) return EVFS_ERR_BAD_ARG;
 
   // Open the image
-  int status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+  EvfsFile *fh;
+  int status = evfs_open(img_path, &fh, EVFS_READ | EVFS_WRITE);
   if(status != EVFS_OK)
     return status;
 
+  fatfs_unmount_image(pdrv); // Replace any image already mounted here
+  img->fh = fh;
 
   char drive_path[3];
   snprintf(drive_path, sizeof(drive_path), "%u:", pdrv);
-- 
2.43.0


From b9d3ec8a73a8d487338f03780f8ee6bdc2a3b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 112/140] fix: a failed read while a FAT file is moved can go
 unnoticed

---
 src/fatfs_fs.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index bf26420..ab1b6ab 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -445,7 +445,9 @@ static int fatfs__delete(Evfs *vfs, const char *path) {
 // FatFs doesn't prevent a directory from being moved below itself which loses all of it
 static FRESULT check_dir_move(Evfs *vfs, const char *old_path, const char *new_path) {
   DIR dir;
-  if(f_opendir(&dir, old_path) != FR_OK) return FR_OK; // Not a directory
+  FRESULT status = f_opendir(&dir, old_path);
+  if(status == FR_DISK_ERR) return status;
+  if(status != FR_OK) return FR_OK; // Not a directory
 
   DWORD old_cluster = dir.obj.sclust;
   f_closedir(&dir);
@@ -462,7 +464,9 @@ static FRESULT check_dir_move(Evfs *vfs, const char *old_path, const char *new_p
   char *sep;
   while((sep = strrchr(parent, EVFS_DIR_SEP)) && sep >= root.end) {
     *sep = '\0';
-    if(f_opendir(&dir, parent) == FR_OK) {
+    status = f_opendir(&dir, parent);
+    if(status == FR_DISK_ERR) return status;
+    if(status == FR_OK) {
       DWORD cluster = dir.obj.sclust;
       f_closedir(&dir);
       if(cluster == old_cluster) return FR_DENIED;
-- 
2.43.0


From 2376a0092322e08feea97405e2ef936169481361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 113/140] fix: every entry looks like a file on host
 filesystems that do not report types in directory listings

---
 src/stdio_fs.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/stdio_fs.c b/src/stdio_fs.c
index a926931..546aaaa 100644
--- a/src/stdio_fs.c
+++ b/src/stdio_fs.c
@@ -36,6 +36,7 @@ Embedded Virtual Filesystem
 # include <unistd.h>
 # include <dirent.h>
 # include <errno.h>
+# include <fcntl.h>
 #endif
 
 typedef struct StdioData_s {
@@ -249,7 +250,15 @@ static int stdio__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   if(posix_entry) {
     info->name = posix_entry->d_name;
-    if(posix_entry->d_type == DT_DIR)
+    bool is_dir = posix_entry->d_type == DT_DIR;
+
+    if(posix_entry->d_type == DT_UNKNOWN) { // Not every filesystem reports the type here
+      struct stat s;
+      if(fstatat(dirfd(dir->dp), posix_entry->d_name, &s, AT_SYMLINK_NOFOLLOW) == 0)
+        is_dir = S_ISDIR(s.st_mode);
+    }
+
+    if(is_dir)
        info->type |= EVFS_FILE_DIR;
   } else {
     info->name = NULL;
-- 
2.43.0


From c919bcede892617fe06f7c3b76592db6dcd7089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 114/140] fix: FAT timestamps are an hour off during daylight
 saving time

---
 src/fatfs_fs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index ab1b6ab..9afa2e4 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -328,6 +328,7 @@ static int fatfs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     dir->info.ftime >>= 6;
 
     mtime.tm_hour = dir->info.ftime & 0x1F;
+    mtime.tm_isdst = -1; // Timestamps are local time; DST depends on the date
 
     info->mtime = mktime(&mtime);
 
-- 
2.43.0


From a5736d52fe17e1d340747041c910cbd6a66e709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 115/140] fix: interpolating between distant points overflows

---
 src/util/intmath.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index bdbd763..7364120 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -518,7 +518,7 @@ unsigned long isqrt_fixed(unsigned long fp_value, unsigned fp_exp) {
 
 // Linear interpolate between two points in Q1.15 format. Interpolant is in Q0.16
 static inline int16_t lin_interp(int16_t a0, int16_t a1, uint16_t t) {
-  return a0 + (((int32_t)t * (int32_t)(a1 - a0)) >> 16);
+  return a0 + (((int64_t)t * (int32_t)(a1 - a0)) >> 16);
 }
 
 
-- 
2.43.0


From dc80f57531d4399ad54d74188d81a75676b914e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 116/140] fix: evaluating quadratic curves overflows when their
 points are far apart or at the ends of the range

---
 src/util/intmath.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index 7364120..134274e 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -561,14 +561,15 @@ Returns:
   The quadratic polynomial value at point t
 */
 int16_t quadratic_eval(int16_t a, int16_t b, int16_t c, uint16_t t) {
-  int32_t q;
+  int64_t q;
 
   q = (int32_t)a - 2*(int32_t)b + (int32_t)c;
-  q = (((q * (int32_t)t) >> 16) * (int32_t)t) >> 16;
-  q += (2*(int32_t)(b - a) * (int32_t)t) >> 16;
+  q = (((q * t) >> 16) * t) >> 16;
+  q += (2*(int64_t)(b - a) * t) >> 16;
   q += a;
 
-  return (int16_t)q;
+  // Truncation can leave the result just outside its range
+  return q < INT16_MIN ? INT16_MIN : q > INT16_MAX ? INT16_MAX : (int16_t)q;
 }
 
 
-- 
2.43.0


From 94f847019396ace9e0dcc8b0c8eaec7cbfe9416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 117/140] fix: the root of a quadratic without a square term
 divides by zero, and others overflow

---
 src/util/intmath.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index 134274e..b5c22ac 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -630,10 +630,17 @@ uint16_t quadratic_solve(int32_t a, int32_t b, int32_t c, int16_t x) {
   det = sqrt(b^2 - 4ac)
   root = (-b + det) / 2a
 */
-  // b is not negative for our use case so we do an unsigned multiply to support 64K*64K > 2^31
-  int32_t b_sq = ((uint32_t)b * (uint32_t)b) >> 15;
-  int32_t f_ac = 4 * ((a * c) >> 15);
-  int32_t det = b_sq - f_ac;
+  if(a == 0) { // Linear
+    if(b == 0)
+      return 0;
+
+    int64_t root = (-(int64_t)c * 65536) / b;
+    return root < 0 ? 0 : root > UINT16_MAX ? UINT16_MAX : (uint16_t)root;
+  }
+
+  int64_t b_sq = ((int64_t)b * b) >> 15;
+  int64_t f_ac = 4 * (((int64_t)a * c) >> 15);
+  int64_t det = b_sq - f_ac;
 //  printf("# det: %d (%1.3f)", det, (double)det / INT16_MAX);
   //int32_t det = ((b * b) >> 15) - 4 * ((a * c) >> 15);
   if(det < 0)
@@ -649,7 +656,7 @@ uint16_t quadratic_solve(int32_t a, int32_t b, int32_t c, int16_t x) {
   // Root is (det-b)/2a
   // We're converting from signed Q1.15 to unsigned Q0.16 format for the result so the
   // fixed-point adjustment has an extra 2x scaling (/2a --> /a).
-  int32_t root = ((det - b) << 15) / a;
+  int64_t root = ((det - b) * 32768) / a;
   return root < 0 ? 0 : root > UINT16_MAX ? UINT16_MAX : (uint16_t)root;
 }
 
-- 
2.43.0


From 93e92fcb10385182e3dc57e237c6f7374034b5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 118/140] fix: searching a curve for a position outside of it
 never ends

---
 src/util/intmath.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/intmath.c b/src/util/intmath.c
index b5c22ac..81cc7f8 100644
--- a/src/util/intmath.c
+++ b/src/util/intmath.c
@@ -709,12 +709,12 @@ Returns:
 uint16_t bezier_search_t(Point16 p0, Point16 p1, Point16 p2, int16_t x) {
   // Binary search for t parameter that corresponds to the requested X-axis location
   // Points must be monotonic along X-axis
-  uint16_t low = 0;
-  uint16_t high = UINT16_MAX;
+  int32_t low = 0;
+  int32_t high = UINT16_MAX;
 
   while(low <= high) {
-    uint16_t mid = low + (high - low)/2;
-    int16_t delta = quadratic_eval(p0.x, p1.x, p2.x, mid) - x;
+    int32_t mid = low + (high - low)/2;
+    int32_t delta = quadratic_eval(p0.x, p1.x, p2.x, mid) - x;
     if(delta > -5 && delta < 5) { // Does not converge near endpoints so allow small margin
       return mid;
     } else if(delta > 0) {
@@ -724,6 +724,6 @@ uint16_t bezier_search_t(Point16 p0, Point16 p1, Point16 p2, int16_t x) {
     }
   }
 
-  return low;
+  return low > UINT16_MAX ? UINT16_MAX : low;
 }
 
-- 
2.43.0


From 5108c39008bb1e4b336f74885d590e5368452e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 119/140] fix: generated search functions truncate the result
 of the comparison

---
 include/evfs/util/search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/evfs/util/search.h b/include/evfs/util/search.h
index d8f8084..af6cb76 100644
--- a/include/evfs/util/search.h
+++ b/include/evfs/util/search.h
@@ -91,7 +91,7 @@ of code:
 \
     while(low <= high) { \
       ptrdiff_t mid = low + (high-low)/2; \
-      int delta = compare(key, base + mid*item_size); \
+      ptrdiff_t delta = compare(key, base + mid*item_size); \
       if(delta < 0) { \
         high = mid-1; \
       } else if(delta > 0) { \
-- 
2.43.0


From df1b516b767a1fddee76cbbe59f4da533c140bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 120/140] fix: evfs_file_ctrl() is the only file call that does
 not check its handle

---
 src/evfs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/evfs.c b/src/evfs.c
index ebc47b4..d82cb32 100644
--- a/src/evfs.c
+++ b/src/evfs.c
@@ -1179,6 +1179,7 @@ Returns:
   EVFS_OK on success
 */
 int evfs_file_ctrl(EvfsFile *fh, int cmd, void *arg) {
+  if(PTR_CHECK(fh)) return EVFS_ERR_BAD_ARG;
   return fh->methods->m_ctrl(fh, cmd, arg);
 }
 
-- 
2.43.0


From d37b0d91b786e148cedf453932aacb3956067f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 121/140] fix: a long ROM image volume name is read past the
 buffer

---
 src/romfs_common.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/romfs_common.c b/src/romfs_common.c
index 023a427..5221d6e 100644
--- a/src/romfs_common.c
+++ b/src/romfs_common.c
@@ -244,18 +244,18 @@ static int romfs__validate(Romfs *fs) {
     }
 
     if(checksum == 0) { // Valid superblock
-      // Read first chunk again
-      chunk_pos = 0;
-      memset(buf, 0, sizeof(buf));
-      buf_len = romfs_read(fs, chunk_pos, buf, 4*COUNT_OF(buf));
+      // Read the start again for the volume name. It has the layout of a file header
+      // and can be longer than a chunk.
+      RomfsFileHead vol;
+      memset(&vol, 0, sizeof(vol));
+      buf_len = romfs_read(fs, 0, &vol, sizeof(vol));
       if(buf_len < ROMFS_MIN_HEADER_SIZE)
         return EVFS_ERR_IO;
 
-      char *vol_name = (char *)&buf[4];
-      //DPRINT("VOLUME: '%s'", vol_name);
+      //DPRINT("VOLUME: '%s'", vol.file_name);
 
       // Root dir starts at first file header
-      fs->root_dir = (16 + strnlen(vol_name, EVFS_ROMFS_MAX_NAME_LEN-1)+1 + 15) & ~0xF;
+      fs->root_dir = file_header_len(&vol);
       return EVFS_OK;
     }
   }
-- 
2.43.0


From aa88f819be33f72f735702a9d2f11efbbdb3cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 122/140] fix: sectors of a FAT image beyond 4 GiB are read and
 written at its start

---
 src/fatfs_image.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fatfs_image.c b/src/fatfs_image.c
index 3f0d073..ed866c7 100644
--- a/src/fatfs_image.c
+++ b/src/fatfs_image.c
@@ -32,6 +32,17 @@ static inline FatfsImage *get_image_data(BYTE pdrv) {
   return pdrv < FF_VOLUMES ? &s_fatfs_image_data[pdrv] : NULL;
 }
 
+// Seek to a sector in an image. The byte offset doesn't fit into an LBA_t on large volumes.
+static int seek_sector(FatfsImage *img, LBA_t sector) {
+  uint64_t pos = (uint64_t)sector * FF_MAX_SS;
+  evfs_off_t offset = (evfs_off_t)pos;
+
+  if(offset < 0 || (uint64_t)offset != pos)
+    return EVFS_ERR_OVERFLOW;
+
+  return evfs_file_seek(img->fh, offset, EVFS_SEEK_TO);
+}
+
 
 /*
 Make a FatFs image file if it doesn't exist
@@ -181,7 +192,7 @@ DSTATUS disk_status(BYTE pdrv) {
 DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+  if(seek_sector(img, sector) != EVFS_OK)
     return RES_ERROR;
 
   ptrdiff_t read = evfs_file_read(img->fh, buff, count * FF_MAX_SS);
@@ -192,7 +203,7 @@ DRESULT disk_read(BYTE pdrv, BYTE* buff, LBA_t sector, UINT count) {
 DRESULT disk_write(BYTE pdrv, const BYTE* buff, LBA_t sector, UINT count) {
   FatfsImage *img = get_image_data(pdrv);
 
-  if(evfs_file_seek(img->fh, sector * FF_MAX_SS, EVFS_SEEK_TO) != EVFS_OK)
+  if(seek_sector(img, sector) != EVFS_OK)
     return RES_ERROR;
 
   ptrdiff_t wrote = evfs_file_write(img->fh, buff, count * FF_MAX_SS);
-- 
2.43.0


From 6e58e49a3d13820211fbba76e15aacccb5110d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:15 +0000
Subject: [PATCH 123/140] fix: seeking a FAT file beyond 4 GiB ends up at its
 start

---
 src/fatfs_fs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fatfs_fs.c b/src/fatfs_fs.c
index 9afa2e4..665dd16 100644
--- a/src/fatfs_fs.c
+++ b/src/fatfs_fs.c
@@ -240,6 +240,9 @@ static int fatfs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin)
 
   if(ASSERT(offset >= 0, "Invalid offset")) return EVFS_ERR;
 
+  // FatFs can have a smaller offset type
+  if((uint64_t)offset != (FSIZE_t)offset) return EVFS_ERR_OVERFLOW;
+
   return translate_error(f_lseek(&fil->fil, offset));
 }
 
-- 
2.43.0


From 1a18e26a3434227999b7626e834a06f7483dd9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 124/140] fix: command usage crashes when out of memory

---
 src/util/getopt_r.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index d8b6908..2c12341 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -509,7 +509,7 @@ void print_command_usage(const char *app_name, const char *optstring, const stru
       }
     }
   }
-  if(strlen(buf) > 0)
+  if(buf && strlen(buf) > 0)
     puts(buf);
   free(buf);
   puts("");
-- 
2.43.0


From cb4fb425ac9790370ecb1152aeaedbafb505de1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 125/140] fix: options wider than a line are left out of the
 usage summary

---
 src/util/getopt_r.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index 2c12341..f909ed7 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -407,7 +407,16 @@ static void append_option(char *buf, AppendRange *buf_r, int indent, int max_col
       // Retry
       va_end(args);
       va_start(args, fmt);
-      range_cat_vfmt(buf_r, fmt, args);
+      if(range_cat_vfmt(buf_r, fmt, args) < 0) {  // Wider than a line
+        fputs(buf, stdout);
+        va_end(args);
+        va_start(args, fmt);
+        vprintf(fmt, args);
+
+        // Nothing more fits on this line
+        buf[0] = '\0';
+        range_init(buf_r, buf, 0);
+      }
     }
 
     va_end(args);
-- 
2.43.0


From 42233476cf755ad49f1380ec8228a227af8eec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:41 +0000
Subject: [PATCH 126/140] fix: help of operands with long names is out of line
 in the command usage

---
 src/util/getopt_r.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index f909ed7..dad36a5 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -554,6 +554,19 @@ void print_command_usage(const char *app_name, const char *optstring, const stru
     max_prefix = (prefix_len > max_prefix) ? prefix_len : max_prefix;
   }
 
+  // Find the longest positional arg + arg name combo
+  if(positional_args) {
+    for(int i = 0; positional_args[i][0] != '\0'; i++) {
+      int prefix_len = 2 + strlen(positional_args[i]);
+
+      const OptionHelp *help = find_help(positional_args[i], opt_help);
+      if(help && help->arg_name)
+        prefix_len += strlen(help->arg_name) + 1;
+
+      max_prefix = (prefix_len > max_prefix) ? prefix_len : max_prefix;
+    }
+  }
+
 
   // Print detailed long options
   if(long_options) {
-- 
2.43.0


From ad0fccd4b8d1df0230048a3e00816442c9435118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:47 +0000
Subject: [PATCH 127/140] fix: command usage lines can be two columns too wide

---
 src/util/getopt_r.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index dad36a5..31e1818 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -368,7 +368,7 @@ static const struct option *find_long_option(char short_opt, const struct option
 static void print_help_detail(const OptionHelp *help, unsigned opt_len, unsigned max_prefix,
                               unsigned  max_columns, bool long_opt) {
   int prefix_len = opt_len;
-  bool break_line = max_prefix + strlen(help->help) > max_columns; // Check if it fits
+  bool break_line = max_prefix + 2 + strlen(help->help) > max_columns; // Check if it fits
 
 #define LINE_BREAK_INDENT   16
 
-- 
2.43.0


From d537595e640338e51bc110fba2c3c1e38de821e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:09 +0000
Subject: [PATCH 128/140] fix: command usage crashes on long options with
 values beyond a character

---
 src/util/getopt_r.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/getopt_r.c b/src/util/getopt_r.c
index 31e1818..d348f59 100644
--- a/src/util/getopt_r.c
+++ b/src/util/getopt_r.c
@@ -65,6 +65,7 @@ colon in the optstring:
 #include <string.h>
 #include <stdlib.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "util/range_strings.h"
 #include "util/getopt_r.h"
@@ -365,6 +366,12 @@ static const struct option *find_long_option(char short_opt, const struct option
 }
 
 
+// Long option values outside the character range have no short option
+static bool has_short_option(const struct option *opt) {
+  return !opt->flag && opt->val > 0 && opt->val <= UCHAR_MAX && isgraph(opt->val);
+}
+
+
 static void print_help_detail(const OptionHelp *help, unsigned opt_len, unsigned max_prefix,
                               unsigned  max_columns, bool long_opt) {
   int prefix_len = opt_len;
@@ -475,7 +482,7 @@ void print_command_usage(const char *app_name, const char *optstring, const stru
         bool required = help && (help->flags & OPT_REQUIRED);
 
         const char *fmt;
-        if(!long_options[lo].flag && isgraph(long_options[lo].val)) { // Have short option
+        if(has_short_option(&long_options[lo])) { // Have short option
           fmt = required ? " -%c|--%s%s" : " [-%c|--%s%s]";
           append_option(buf, &buf_r, indent, max_columns,
                         fmt, long_options[lo].val, long_options[lo].name,
@@ -571,7 +578,7 @@ void print_command_usage(const char *app_name, const char *optstring, const stru
   // Print detailed long options
   if(long_options) {
     for(int lo = 0; long_options[lo].name; lo++) {
-      if(!long_options[lo].flag && isgraph(long_options[lo].val)) {  // Have short option
+      if(has_short_option(&long_options[lo])) {  // Have short option
         printf("  -%c, --%s", long_options[lo].val, long_options[lo].name);
       } else { // No short option
         printf("      --%s", long_options[lo].name);
-- 
2.43.0


From 3fb1f8e4ed11a23a87179e56cb13470f03b0d024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 129/140] fix: littlefs aborts when a file is read or written
 without that access

---
 src/littlefs_fs.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index d84866a..2b34096 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -60,6 +60,7 @@ typedef struct LittlefsFile_s {
   LittlefsData *fs_data;
   lfs_t *lfs;
   lfs_file_t fil;
+  int lfs_flags; // Access mode
 } LittlefsFile;
 
 
@@ -169,6 +170,10 @@ static int littlefs__file_close(EvfsFile *fh) {
 
 static ptrdiff_t littlefs__file_read(EvfsFile *fh, void *buf, size_t size) {
   LittlefsFile *fil = (LittlefsFile *)fh;
+
+  // Littlefs asserts that files are opened for reading
+  if(!(fil->lfs_flags & LFS_O_RDONLY)) return EVFS_ERR_AUTH;
+
   lfs_ssize_t read = lfs_file_read(fil->lfs, &fil->fil, buf, size);
   return translate_error(read);
 }
@@ -179,6 +184,9 @@ static ptrdiff_t littlefs__file_write(EvfsFile *fh, const void *buf, size_t size
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  // Littlefs asserts that files are opened for writing
+  if(!(fil->lfs_flags & LFS_O_WRONLY)) return EVFS_ERR_AUTH;
+
   lfs_ssize_t wrote = lfs_file_write(fil->lfs, &fil->fil, buf, size);
   return translate_error(wrote);
 }
@@ -189,6 +197,9 @@ static int littlefs__file_truncate(EvfsFile *fh, evfs_off_t size) {
 
   if(fs_data->cfg_readonly) return EVFS_ERR_DISABLED;
 
+  // Littlefs asserts that files are opened for writing
+  if(!(fil->lfs_flags & LFS_O_WRONLY)) return EVFS_ERR_AUTH;
+
   return simple_error(lfs_file_truncate(fil->lfs, &fil->fil, size));
 }
 
@@ -324,6 +335,7 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
 
   fil->fs_data = fs_data;
   fil->lfs = fs_data->lfs;
+  fil->lfs_flags = lfs_flags;
   
   int status;
   
-- 
2.43.0


From 8d58dc3ba2c6c867daf52eb8bf50cbe01c161a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 130/140] fix: littlefs EVFS_NO_EXIST and EVFS_APPEND never
 create a file

---
 src/littlefs_fs.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 2b34096..dc85599 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -321,7 +321,7 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
   memset(fil, 0, sizeof(*fil));
   fh->methods = &s_littlefs_methods;
 
-  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
+  if((flags & (EVFS_WRITE | EVFS_OPEN_OR_NEW | EVFS_NO_EXIST | EVFS_OVERWRITE | EVFS_APPEND)) && fs_data->cfg_readonly)
     return EVFS_ERR_DISABLED;
 
   int lfs_flags = 0;
@@ -329,9 +329,9 @@ static int littlefs__open(Evfs *vfs, const char *path, EvfsFile *fh, int flags)
   if(flags & EVFS_READ)        lfs_flags |= LFS_O_RDONLY; 
   if(flags & EVFS_WRITE)       lfs_flags |= LFS_O_WRONLY;
   if(flags & EVFS_OPEN_OR_NEW) lfs_flags |= LFS_O_CREAT;
-  if(flags & EVFS_NO_EXIST)    lfs_flags |= LFS_O_EXCL;
+  if(flags & EVFS_NO_EXIST)    lfs_flags |= (LFS_O_EXCL | LFS_O_CREAT);
   if(flags & EVFS_OVERWRITE)   lfs_flags |= (LFS_O_TRUNC | LFS_O_CREAT);
-  if(flags & EVFS_APPEND)      lfs_flags |= LFS_O_APPEND;
+  if(flags & EVFS_APPEND)      lfs_flags |= (LFS_O_APPEND | LFS_O_CREAT);
 
   fil->fs_data = fs_data;
   fil->lfs = fs_data->lfs;
-- 
2.43.0


From 040e324fbb472363ab9c65df457a7ef14960653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 131/140] fix: littlefs seeks from the end go past it instead
 of back

---
 src/littlefs_fs.c | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index dc85599..73245b3 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -216,17 +216,15 @@ static evfs_off_t littlefs__file_size(EvfsFile *fh) {
 
 static int littlefs__file_seek(EvfsFile *fh, evfs_off_t offset, EvfsSeekDir origin) {
   LittlefsFile *fil = (LittlefsFile *)fh;
-  int sorg = LFS_SEEK_SET;
-
-  switch(origin) {
-    case EVFS_SEEK_TO:   sorg = LFS_SEEK_SET; break;
-    case EVFS_SEEK_REL:  sorg = LFS_SEEK_CUR; break;
-    case EVFS_SEEK_REV:  sorg = LFS_SEEK_END; break;
-    default:
-      break;
-  }
 
-  return simple_error(lfs_file_seek(fil->lfs, &fil->fil, offset, sorg));
+  offset = evfs__absolute_offset(fh, offset, origin);
+  if(offset < 0) return offset;
+
+  // Littlefs can have a smaller offset type
+  if((uint64_t)offset > LFS_FILE_MAX) return EVFS_ERR_OVERFLOW;
+
+  lfs_soff_t pos = lfs_file_seek(fil->lfs, &fil->fil, offset, LFS_SEEK_SET);
+  return pos >= 0 ? EVFS_OK : translate_error(pos);
 }
 
 static evfs_off_t littlefs__file_tell(EvfsFile *fh) {
-- 
2.43.0


From b4472dd580f9d3c918d273fbefa1565d77c028a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 132/140] fix: littlefs truncation wraps sizes that do not fit

---
 src/littlefs_fs.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 73245b3..c4c1989 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -200,7 +200,12 @@ static int littlefs__file_truncate(EvfsFile *fh, evfs_off_t size) {
   // Littlefs asserts that files are opened for writing
   if(!(fil->lfs_flags & LFS_O_WRONLY)) return EVFS_ERR_AUTH;
 
-  return simple_error(lfs_file_truncate(fil->lfs, &fil->fil, size));
+  if(size < 0) return EVFS_ERR_BAD_ARG;
+
+  // Littlefs can have a smaller offset type
+  if((uint64_t)size > LFS_FILE_MAX) return EVFS_ERR_OVERFLOW;
+
+  return translate_error(lfs_file_truncate(fil->lfs, &fil->fil, size));
 }
 
 static int littlefs__file_sync(EvfsFile *fh) {
-- 
2.43.0


From e35facc6b431e118b9e3c8b74edbb63c57c55e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 133/140] fix: littlefs errors while closing files and reading
 directories are lost

---
 src/littlefs_fs.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index c4c1989..1bb0279 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -164,8 +164,7 @@ static int littlefs__file_ctrl(EvfsFile *fh, int cmd, void *arg) {
 
 static int littlefs__file_close(EvfsFile *fh) {
   LittlefsFile *fil = (LittlefsFile *)fh;
-  lfs_file_close(fil->lfs, &fil->fil);
-  return EVFS_OK;
+  return translate_error(lfs_file_close(fil->lfs, &fil->fil)); // Flushes cached data
 }
 
 static ptrdiff_t littlefs__file_read(EvfsFile *fh, void *buf, size_t size) {
@@ -277,7 +276,7 @@ static int littlefs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   // Skip over dir dots if configured
   if(status >= 0 && fs_data->cfg_no_dir_dots) {
-    while(status >= 0 && (!strcmp(dir->info.name, ".") || !strcmp(dir->info.name, ".."))) {
+    while(status > 0 && (!strcmp(dir->info.name, ".") || !strcmp(dir->info.name, ".."))) {
       status = lfs_dir_read(dir->fs_data->lfs, &dir->dir, &dir->info);
     }
   }
@@ -285,7 +284,7 @@ static int littlefs__dir_read(EvfsDir *dh, EvfsInfo *info) {
 
   memset(info, 0, sizeof(*info));
 
-  if(status >= 0) {
+  if(status > 0) {
     info->name = dir->info.name;
     info->size = dir->info.size;
 
@@ -295,14 +294,16 @@ static int littlefs__dir_read(EvfsDir *dh, EvfsInfo *info) {
     info->name = NULL;
   }
 
+  if(status < 0)
+    return translate_error(status);
+
   return status > 0 ? EVFS_OK : EVFS_DONE;
 }
 
 
 static int littlefs__dir_rewind(EvfsDir *dh) {
   LittlefsDir *dir = (LittlefsDir *)dh;
-  lfs_dir_rewind(dir->fs_data->lfs, &dir->dir);
-  return EVFS_OK;
+  return translate_error(lfs_dir_rewind(dir->fs_data->lfs, &dir->dir));
 }
 
 
-- 
2.43.0


From e85d84c70ff894f3c4da01d69ebf7d5a9f498ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 134/140] fix: littlefs delete and rename report a general
 error for every cause

---
 src/littlefs_fs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 1bb0279..0641469 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -395,7 +395,7 @@ static int littlefs__delete(Evfs *vfs, const char *path) {
     FREE_ABS(abs_path);
   }
 
-  return simple_error(status);
+  return translate_error(status);
 }
 
 
@@ -424,7 +424,7 @@ static int littlefs__rename(Evfs *vfs, const char *old_path, const char *new_pat
     evfs_free(abs_new_path);
   }
 
-  return simple_error(status);
+  return translate_error(status);
 }
 
 
-- 
2.43.0


From e3a1e8f0ad50bd7051cd436bf23460b206404abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 135/140] fix: littlefs leaks the buffer and lock of paths that
 can not be made absolute

---
 src/littlefs_fs.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 0641469..fb59fb6 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -133,9 +133,19 @@ static int make_absolute_path(Evfs *vfs, const char *path, char **absolute, bool
   range_init(&abs_path_r, abs_path, abs_size);
 
   int status = evfs_vfs_path_absolute(vfs, path, (StringRange *)&abs_path_r);
-  if(status == EVFS_OK)
+  if(status == EVFS_OK) {
     *absolute = abs_path;
 
+  } else { // FREE_ABS() won't be called
+#ifdef EVFS_USE_LITTLEFS_SHARED_BUFFER
+    if(abs_path == fs_data->abs_path) {
+      UNLOCK();
+      abs_path = NULL;
+    }
+#endif
+    evfs_free(abs_path);
+  }
+
   return status;
 }
 
-- 
2.43.0


From 53243fb671c32a6fab22c9ea330229459dc1ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 136/140] fix: littlefs cuts off long current directories

---
 src/littlefs_fs.c | 56 +++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index fb59fb6..9ea043e 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -42,7 +42,7 @@ Embedded Virtual Filesystem
 typedef struct LittlefsData_s {
   lfs_t    *lfs;
   struct lfs_info info;
-  char      cur_dir[LFS_NAME_MAX];
+  char      cur_dir[EVFS_MAX_PATH];
 #ifdef EVFS_USE_LITTLEFS_SHARED_BUFFER
   char      abs_path[EVFS_MAX_PATH]; // Shared buffer for building absolute paths
 #endif
@@ -487,9 +487,7 @@ static int littlefs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
   LittlefsData *fs_data = (LittlefsData *)vfs->fs_data;
   AppendRange r = *(AppendRange *)cur_dir;
 
-  range_cat_str(&r, fs_data->cur_dir);
-  range_terminate(&r);
-  return EVFS_OK;
+  return range_cat_str(&r, fs_data->cur_dir) < 0 ? EVFS_ERR_OVERFLOW : EVFS_OK;
 }
 
 
@@ -497,41 +495,27 @@ static int littlefs__get_cur_dir(Evfs *vfs, StringRange *cur_dir) {
 static int littlefs__set_cur_dir(Evfs *vfs, const char *path) {
   LittlefsData *fs_data = (LittlefsData *)vfs->fs_data;
 
-  if(evfs_vfs_path_is_absolute(vfs, path)) { // Just assign absolute paths
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, path))
-      return EVFS_ERR_NO_PATH;
-  
-    strncpy(fs_data->cur_dir, path, LFS_NAME_MAX-1);
-    fs_data->cur_dir[LFS_NAME_MAX-1] = '\0';
-
-  } else { // Path is relative: Join it to the existing directory
-    StringRange head, tail, joined;
-    
-    range_init(&head, fs_data->cur_dir, LFS_NAME_MAX);
-    range_init(&tail, (char *)path, strlen(path));
-    
-    size_t joined_size = strlen(fs_data->cur_dir) + 1 + strlen(path) + 1;
-    char *joined_path = evfs_malloc(joined_size);
-    if(MEM_CHECK(joined_path)) return EVFS_ERR_ALLOC;
-
-    range_init(&joined, joined_path, joined_size);
-
-    evfs_vfs_path_join(vfs, &head, &tail, &joined);
-
-    // Confirm the path exists
-    if(!evfs__vfs_existing_dir(vfs, joined_path)) {
-      evfs_free(joined_path);
-      return EVFS_ERR_NO_PATH;
-    }
+  // Note: evfs__vfs_existing_dir() below can take the lock so we have to malloc a buffer
+  char *new_dir = evfs_malloc(EVFS_MAX_PATH);
+  if(MEM_CHECK(new_dir)) return EVFS_ERR_ALLOC;
 
-    // Overwrite old cur_dir
-    evfs_vfs_path_normalize(vfs, joined_path, &head);
+  StringRange new_dir_r;
+  range_init(&new_dir_r, new_dir, EVFS_MAX_PATH);
 
-    evfs_free(joined_path);
-  }
+  // Relative paths are joined to the existing directory
+  int status = evfs_vfs_path_absolute(vfs, path, &new_dir_r);
 
-  return EVFS_OK;
+  // Confirm the path exists
+  if(status == EVFS_OK && !evfs__vfs_existing_dir(vfs, new_dir))
+    status = EVFS_ERR_NO_PATH;
+
+  // Overwrite old cur_dir
+  if(status == EVFS_OK)
+    strcpy(fs_data->cur_dir, new_dir);
+
+  evfs_free(new_dir);
+
+  return status;
 }
 
 
-- 
2.43.0


From ca5f0dfda476bf8de2c88c76aa0aeb487c617430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 137/140] fix: littlefs image mounting accepts null arguments
 and keeps closed handles

---
 src/littlefs_image.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index 2e395ed..8ce581f 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -79,8 +79,12 @@ Returns:
   EVFS_OK on success
 */
 int littlefs_mount_image(const char *img_path, struct lfs_config *cfg, lfs_t *lfs) {
+  if(PTR_CHECK(img_path) || PTR_CHECK(cfg) || PTR_CHECK(lfs)) return EVFS_ERR_BAD_ARG;
+
   LittlefsImage *img = (LittlefsImage *)cfg->context;
 
+  if(PTR_CHECK(img)) return EVFS_ERR_BAD_ARG;
+
   // Open the image
   int status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
   if(status != EVFS_OK)
@@ -90,14 +94,17 @@ int littlefs_mount_image(const char *img_path, struct lfs_config *cfg, lfs_t *lf
   evfs_off_t expect_size = cfg->block_size * cfg->block_count;
   if(evfs_file_size(img->fh) != expect_size) {
     evfs_file_close(img->fh);
+    img->fh = NULL;
     return EVFS_ERR;
   }
 
   status = lfs_mount(lfs, cfg); // Mount the filesystem
   status = (status == LFS_ERR_OK) ? EVFS_OK : EVFS_ERR;
 
-  if(status != EVFS_OK)
+  if(status != EVFS_OK) {
     evfs_file_close(img->fh);
+    img->fh = NULL;
+  }
 
   return status;
 }
@@ -115,6 +122,7 @@ void littlefs_unmount_image(lfs_t *lfs) {
 
   lfs_unmount(lfs);
   evfs_file_close(img->fh);
+  img->fh = NULL;
 }
 
 
-- 
2.43.0


From a64c8db2cbd6ca5c4aa59b19e4b0eca4bdd52ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 138/140] fix: littlefs image making ignores failures and uses
 files that did not open

---
 src/littlefs_image.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index 8ce581f..04d8137 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -44,21 +44,31 @@ int littlefs_make_image(const char *img_path, struct lfs_config *cfg) {
 
   if(status == EVFS_OK) {
     // Expand image file to match configuration data
-    evfs_file_seek(img->fh, cfg->block_size*cfg->block_count - 1, EVFS_SEEK_TO);
+    status = evfs_file_seek(img->fh, cfg->block_size*cfg->block_count - 1, EVFS_SEEK_TO);
+
+    if(status == EVFS_OK) {
+      char force_data[] = "\0";
+      status = evfs_file_write(img->fh, force_data, sizeof(char));
+      if(status == 0)
+        status = EVFS_ERR_IO;
+    }
 
-    char force_data[] = "\0";
-    status = evfs_file_write(img->fh, force_data, sizeof(char));
     if(status > 0) {
       // Reopen for formatting
-      evfs_file_close(img->fh);
-      status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+      status = evfs_file_close(img->fh);
+      img->fh = NULL;
+      if(status == EVFS_OK)
+        status = evfs_open(img_path, &img->fh, EVFS_READ | EVFS_WRITE);
+      if(status != EVFS_OK)
+        return status;
 
       lfs_t lfs;
       status = (lfs_format(&lfs, cfg) == LFS_ERR_OK) ? EVFS_OK : EVFS_ERR;
     }
 
-    evfs_file_close(img->fh);
-
+    int close_status = evfs_file_close(img->fh);
+    if(status == EVFS_OK)
+      status = close_status;
   }
 
   img->fh = NULL;
-- 
2.43.0


From 57252dbc6fa5b746903f278b03e78ece307360a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:21 +0000
Subject: [PATCH 139/140] fix: littlefs image access ignores failed seeks and
 wraps large offsets

---
 src/littlefs_image.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/littlefs_image.c b/src/littlefs_image.c
index 04d8137..54ab015 100644
--- a/src/littlefs_image.c
+++ b/src/littlefs_image.c
@@ -20,6 +20,18 @@ Embedded Virtual Filesystem
 #include "evfs_internal.h"
 #include "evfs/littlefs_image.h"
 
+// Seek to a position in a block. The byte offset doesn't fit into an lfs_off_t on large volumes.
+static int seek_block(const struct lfs_config *cfg, lfs_block_t block, lfs_off_t off) {
+  LittlefsImage *img = cfg->context;
+  uint64_t pos = (uint64_t)block * cfg->block_size + off;
+  evfs_off_t offset = (evfs_off_t)pos;
+
+  if(offset < 0 || (uint64_t)offset != pos)
+    return EVFS_ERR_OVERFLOW;
+
+  return evfs_file_seek(img->fh, offset, EVFS_SEEK_TO);
+}
+
 
 /*
 Make a Littlefs image file if it doesn't exist
@@ -44,7 +56,7 @@ int littlefs_make_image(const char *img_path, struct lfs_config *cfg) {
 
   if(status == EVFS_OK) {
     // Expand image file to match configuration data
-    status = evfs_file_seek(img->fh, cfg->block_size*cfg->block_count - 1, EVFS_SEEK_TO);
+    status = seek_block(cfg, cfg->block_count - 1, cfg->block_size - 1);
 
     if(status == EVFS_OK) {
       char force_data[] = "\0";
@@ -101,8 +113,9 @@ int littlefs_mount_image(const char *img_path, struct lfs_config *cfg, lfs_t *lf
     return status;
 
   // Confirm the image size matches the config
-  evfs_off_t expect_size = cfg->block_size * cfg->block_count;
-  if(evfs_file_size(img->fh) != expect_size) {
+  uint64_t expect_size = (uint64_t)cfg->block_size * cfg->block_count;
+  evfs_off_t img_size = evfs_file_size(img->fh);
+  if(img_size < 0 || (uint64_t)img_size != expect_size) {
     evfs_file_close(img->fh);
     img->fh = NULL;
     return EVFS_ERR;
@@ -146,7 +159,9 @@ int littlefs_image_read(const struct lfs_config *cfg, lfs_block_t block,
 
   LittlefsImage *img = cfg->context;
 
-  evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO);
+  if(seek_block(cfg, block, off) != EVFS_OK)
+    return LFS_ERR_IO;
+
   ptrdiff_t read = evfs_file_read(img->fh, buffer, size);
 
   return read == size ? LFS_ERR_OK : LFS_ERR_IO;
@@ -157,7 +172,8 @@ int littlefs_image_prog(const struct lfs_config *cfg, lfs_block_t block,
 
   LittlefsImage *img = cfg->context;
 
-  evfs_file_seek(img->fh, block * cfg->block_size + off, EVFS_SEEK_TO);
+  if(seek_block(cfg, block, off) != EVFS_OK)
+    return LFS_ERR_IO;
 
   ptrdiff_t wrote = evfs_file_write(img->fh, buffer, size);
   return wrote == size ? LFS_ERR_OK : LFS_ERR_IO;
-- 
2.43.0


From fdd7155e5fb27adf9465edb63be5a4589bb610d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:38 +0000
Subject: [PATCH 140/140] fix: littlefs appends past the end of a file after
 seeking

---
 src/littlefs_fs.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/littlefs_fs.c b/src/littlefs_fs.c
index 9ea043e..549aa2d 100644
--- a/src/littlefs_fs.c
+++ b/src/littlefs_fs.c
@@ -196,6 +196,12 @@ static ptrdiff_t littlefs__file_write(EvfsFile *fh, const void *buf, size_t size
   // Littlefs asserts that files are opened for writing
   if(!(fil->lfs_flags & LFS_O_WRONLY)) return EVFS_ERR_AUTH;
 
+  // Littlefs doesn't move back to the end
+  if(fil->lfs_flags & LFS_O_APPEND) {
+    lfs_soff_t pos = lfs_file_seek(fil->lfs, &fil->fil, 0, LFS_SEEK_END);
+    if(pos < 0) return translate_error(pos);
+  }
+
   lfs_ssize_t wrote = lfs_file_write(fil->lfs, &fil->fil, buf, size);
   return translate_error(wrote);
 }
-- 
2.43.0

