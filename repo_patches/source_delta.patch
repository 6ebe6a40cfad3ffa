From 37d9ead6fc82714d2bbfe1686ed0d4bebcb7f7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:44 +0000
Subject: [PATCH 01/49] fix: initialise the archive subpath of files found by
 the traversal

process_file() left file->subpath uninitialised, so with -t every later
stage dereferenced whatever the pool memory contained.
---
 src/ft_traverse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 129dfc4..b6dfabf 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -66,6 +66,7 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
     if (finfo->size >= conf->minsize && (conf->maxsize == 0 || finfo->size <= conf->maxsize)) {
         ft_file_t *file = apr_palloc(conf->pool, sizeof(struct ft_file_t));
         file->path = apr_pstrdup(conf->pool, filename);
+        file->subpath = NULL;
         file->size = finfo->size;
         file->mtime = finfo->mtime;
         file->prioritized = ((conf->p_path) && (strlen(filename) >= conf->p_path_len) &&
-- 
2.43.0


From 36732f6e8c852d2949b23d304f97688d3e6cd9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:46 +0000
Subject: [PATCH 02/49] fix: do not add the same name twice to the ignore list

Repeating a name in -i filled one hash bucket with equal keys, which no
rebuild can spread: the table was doubled for ever.
---
 src/ft_config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 3c0e8ee..7adf046 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -155,8 +155,9 @@ static void ft_hash_add_ignore_list(napr_hash_t *hash, const char *file_list)
         else {
             tmp = apr_pstrdup(pool, filename);
         }
-        napr_hash_search(hash, tmp, strlen(tmp), &hash_value);
-        napr_hash_set(hash, tmp, hash_value);
+        if (NULL == napr_hash_search(hash, tmp, strlen(tmp), &hash_value)) {
+            napr_hash_set(hash, tmp, hash_value);
+        }
 
         if (NULL != end) {
             filename = end + 1;
-- 
2.43.0


From c015f91aae6293bdb0f6faaff40fe6f195012f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:47 +0000
Subject: [PATCH 03/49] fix: apply the whitelist regex to files, not to
 directories

-w (and -I, which sets an extension whitelist) also rejected every
subdirectory not matching the regex, so files below were never seen,
contrary to the documented examples.
---
 src/ft_traverse.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index b6dfabf..be9bf7c 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -93,8 +93,7 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
 static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
 {
     int ovector[MATCH_VECTOR_SIZE];
-    if ((conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) ||
-        (conf->wl_regex && pcre_exec(conf->wl_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0)) {
+    if (conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) {
         return APR_SUCCESS;
     }
 
@@ -153,6 +152,7 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
 
 static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, apr_pool_t *gc_pool, struct stats const *stats, ft_ignore_context_t *parent_ctx)
 {
+    int ovector[MATCH_VECTOR_SIZE];
     apr_finfo_t finfo;
     apr_status_t status = get_file_info(filename, &finfo, conf, gc_pool);
 
@@ -169,6 +169,10 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     if (finfo.filetype == APR_DIR) {
         return process_directory(filename, conf, gc_pool, stats, parent_ctx);
     }
+    /* The whitelist selects files: it must not keep us from descending into directories. */
+    if (stats != NULL && conf->wl_regex && pcre_exec(conf->wl_regex, NULL, filename, (int) strlen(filename), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0) {
+        return APR_SUCCESS;
+    }
     if (finfo.filetype == APR_REG || (finfo.filetype == APR_LNK && is_option_set(conf->mask, OPTION_FSYML))) {
         return process_file(filename, &finfo, conf);
     }
-- 
2.43.0


From a1b47df9a8d598fdb71822d733400a352f1b8115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:17 +0000
Subject: [PATCH 04/49] fix: skip dangling symbolic links with -f

get_file_info() looked at the uninitialised result of the failed stat to
recognise a dangling link, and on success let the caller use it: one
dangling link made the whole run fail.
---
 src/ft_traverse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index be9bf7c..58ca59a 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -25,7 +25,9 @@ static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_c
     apr_status_t status = apr_stat(finfo, filename, statmask, pool);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
-        if (is_option_set(conf->mask, OPTION_FSYML) && (finfo->filetype & APR_LNK)) {
+        apr_finfo_t link_info;
+        if (is_option_set(conf->mask, OPTION_FSYML) && APR_SUCCESS == apr_stat(&link_info, filename, APR_FINFO_TYPE | APR_FINFO_LINK, pool) && link_info.filetype == APR_LNK) {
+            memset(finfo, 0, sizeof(*finfo));   /* nothing behind the link: neither a file nor a directory */
             if (is_option_set(conf->mask, OPTION_VERBO)) {
                 (void) fprintf(stderr, "Skipping : [%s] (broken link)\n", filename);
             }
-- 
2.43.0


From d8bdcd91e25231ebb7415f74dc28293bbaaad261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:18 +0000
Subject: [PATCH 05/49] fix: one unreadable or vanished entry must not abort
 the whole scan

A subdirectory that can be entered but not listed, or an entry removed
between the listing and its stat, made ftwin fail without reporting
anything about the rest of the tree.
---
 src/ft_traverse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 58ca59a..385506e 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -108,7 +108,8 @@ static apr_status_t process_directory_entry(const char *fullname, const apr_finf
         char errbuf[ERR_BUF_SIZE];
         DEBUG_ERR("error recursively calling traverse_recursive: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
     }
-    return status;
+    /* An entry that vanished or can not be read is skipped, it does not end the scan. */
+    return APR_SUCCESS;
 }
 
 static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *parent_ctx)
-- 
2.43.0


From 364b3c0643f0fb558546ef9041f83497022c1d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:20 +0000
Subject: [PATCH 06/49] fix: with -f, do not follow links back into a directory
 being scanned

A link to an ancestor directory was followed until the kernel gave up
(ELOOP), and a linked directory was entered even with -R. Use the chain of
ancestors, which the traversal already carried, to stop.
---
 src/ft_traverse.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 385506e..b37ce6c 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -17,7 +17,7 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
 
 static apr_status_t get_file_info(const char *filename, apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *pool)
 {
-    apr_int32_t statmask = APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT;
+    apr_int32_t statmask = APR_FINFO_IDENT | APR_FINFO_SIZE | APR_FINFO_MTIME | APR_FINFO_TYPE | APR_FINFO_USER | APR_FINFO_GROUP | APR_FINFO_UPROT | APR_FINFO_GPROT;
     if (!is_option_set(conf->mask, OPTION_FSYML)) {
         statmask |= APR_FINFO_LINK;
     }
@@ -92,18 +92,14 @@ static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo,
     return APR_SUCCESS;
 }
 
-static apr_status_t process_directory_entry(const char *fullname, const apr_finfo_t *finfo, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
+static apr_status_t process_directory_entry(const char *fullname, ft_conf_t *conf, apr_pool_t *gc_pool, const struct stats *stats, ft_ignore_context_t *current_ctx)
 {
     int ovector[MATCH_VECTOR_SIZE];
     if (conf->ig_regex && pcre_exec(conf->ig_regex, NULL, fullname, (int) strlen(fullname), 0, 0, ovector, MATCH_VECTOR_SIZE) >= 0) {
         return APR_SUCCESS;
     }
 
-    struct stats child;
-    child.parent = stats;
-    child.stat = *finfo;
-
-    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, &child, current_ctx);
+    apr_status_t status = traverse_recursive(conf, fullname, gc_pool, stats, current_ctx);
     if (status != APR_SUCCESS) {
         char errbuf[ERR_BUF_SIZE];
         DEBUG_ERR("error recursively calling traverse_recursive: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
@@ -143,7 +139,7 @@ static apr_status_t process_directory(const char *filename, ft_conf_t *conf, apr
         }
 
         char *fullname = apr_pstrcat(gc_pool, filename, (filename[strlen(filename) - 1] == '/') ? "" : "/", finfo.name, NULL);
-        status = process_directory_entry(fullname, &finfo, conf, gc_pool, stats, current_ctx);
+        status = process_directory_entry(fullname, conf, gc_pool, stats, current_ctx);
         if (status != APR_SUCCESS) {
             break;
         }
@@ -170,7 +166,20 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     }
 
     if (finfo.filetype == APR_DIR) {
-        return process_directory(filename, conf, gc_pool, stats, parent_ctx);
+        struct stats current;
+
+        if (stats != NULL && !is_option_set(conf->mask, OPTION_RECSD)) {
+            return APR_SUCCESS;
+        }
+        /* A followed link may lead back to a directory we are already in. */
+        for (struct stats const *ancestor = stats; ancestor != NULL; ancestor = ancestor->parent) {
+            if (ancestor->stat.inode == finfo.inode && ancestor->stat.device == finfo.device) {
+                return APR_SUCCESS;
+            }
+        }
+        current.parent = stats;
+        current.stat = finfo;
+        return process_directory(filename, conf, gc_pool, &current, parent_ctx);
     }
     /* The whitelist selects files: it must not keep us from descending into directories. */
     if (stats != NULL && conf->wl_regex && pcre_exec(conf->wl_regex, NULL, filename, (int) strlen(filename), 0, 0, ovector, MATCH_VECTOR_SIZE) < 0) {
-- 
2.43.0


From 0a90a6218ad38fa859b1b72dc24d358e72f54dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:52 +0000
Subject: [PATCH 07/49] fix: do not report a file as a duplicate of itself

Giving the same path twice, or a directory and something below it, put
the file twice in the candidates: it was then listed as its own twin, and
cleaning up from such a report removes the only copy.
---
 src/ft_config.c   |  1 +
 src/ft_config.h   |  1 +
 src/ft_traverse.c | 12 ++++++++++++
 3 files changed, 14 insertions(+)

diff --git a/src/ft_config.c b/src/ft_config.c
index 7adf046..946450b 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -229,6 +229,7 @@ ft_conf_t *ft_config_create(apr_pool_t *pool)
     conf->pool = pool;
     conf->heap = napr_heap_make(pool, ft_file_cmp);
     conf->ig_files = napr_hash_str_make(pool, HASH_STR_BUCKET_SIZE, HASH_STR_MAX_ENTRIES);
+    conf->seen_paths = napr_hash_str_make(pool, HASH_SIZE_BUCKET_SIZE, HASH_SIZE_MAX_ENTRIES);
 
     napr_hash_create_args_t hash_args = {
         .pool = pool,
diff --git a/src/ft_config.h b/src/ft_config.h
index 8eec0b0..20350cf 100644
--- a/src/ft_config.h
+++ b/src/ft_config.h
@@ -100,6 +100,7 @@ typedef struct ft_conf_t
     napr_hash_t *sizes;
     napr_hash_t *gids;
     napr_hash_t *ig_files;
+    napr_hash_t *seen_paths;
     pcre *ig_regex;
     pcre *wl_regex;
     pcre *ar_regex;
diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index b37ce6c..458b209 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -66,6 +66,18 @@ static apr_status_t check_permissions(const apr_finfo_t *finfo, ft_conf_t *conf)
 static apr_status_t process_file(const char *filename, const apr_finfo_t *finfo, ft_conf_t *conf)
 {
     if (finfo->size >= conf->minsize && (conf->maxsize == 0 || finfo->size <= conf->maxsize)) {
+        apr_uint32_t path_hash = 0;
+        char *abs_path = NULL;
+
+        /* A file reached through several arguments is not a twin of itself. */
+        if (APR_SUCCESS != apr_filepath_merge(&abs_path, NULL, filename, 0, conf->pool)) {
+            abs_path = apr_pstrdup(conf->pool, filename);
+        }
+        if (napr_hash_search(conf->seen_paths, abs_path, strlen(abs_path), &path_hash) != NULL) {
+            return APR_SUCCESS;
+        }
+        napr_hash_set(conf->seen_paths, abs_path, path_hash);
+
         ft_file_t *file = apr_palloc(conf->pool, sizeof(struct ft_file_t));
         file->path = apr_pstrdup(conf->pool, filename);
         file->subpath = NULL;
-- 
2.43.0


From 430d1e997b89bac84915aa05970685fa6b3dd080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:54 +0000
Subject: [PATCH 08/49] fix: do not compare again files already reported as
 twins

With equal checksums and different contents interleaved (A B A), the inner
loop dereferenced the NULL that marks an already reported file.
---
 src/ft_report.c      | 3 +++
 src/ft_report_json.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ft_report.c b/src/ft_report.c
index a4099e4..55682ee 100644
--- a/src/ft_report.c
+++ b/src/ft_report.c
@@ -83,6 +83,9 @@ static apr_status_t process_and_report_duplicates_for_file(ft_conf_t *conf, ft_f
     for (j_index = index + 1; j_index < fsize->nb_files; j_index++) {
         /* If hashes match, perform a full comparison */
         if (0 == memcmp(&fsize->chksum_array[index].hash_value, &fsize->chksum_array[j_index].hash_value, sizeof(ft_hash_t))) {
+            if (NULL == fsize->chksum_array[j_index].file) {
+                continue;       /* Already reported as a twin of a previous file */
+            }
             if (compare_and_report_pair(conf, fsize, index, j_index, &already_printed, colors) != APR_SUCCESS) {
                 return APR_EGENERAL;
             }
diff --git a/src/ft_report_json.c b/src/ft_report_json.c
index b58eb61..947a904 100644
--- a/src/ft_report_json.c
+++ b/src/ft_report_json.c
@@ -145,6 +145,9 @@ static apr_status_t find_and_report_duplicates(ft_conf_t *conf, ft_fsize_t *fsiz
 
         for (size_t j = i + 1; j < fsize->nb_files; j++) {
             if (memcmp(&fsize->chksum_array[i].hash_value, &fsize->chksum_array[j].hash_value, sizeof(ft_hash_t)) == 0) {
+                if (fsize->chksum_array[j].file == NULL) {
+                    continue;   /* Already reported as a twin of a previous file */
+                }
                 status = perform_file_comparison(conf, &fsize->chksum_array[i], &fsize->chksum_array[j], fsize->val, &result);
                 if (status != APR_SUCCESS) {
                     return status;
-- 
2.43.0


From 3718e42f1a14502465c784578e40f43876994f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:15 +0000
Subject: [PATCH 09/49] fix: release the right resources when the second
 mapping fails

small_filecmp() closed the same descriptor twice, which can close another
thread's file, and leaked the first mapping.
---
 src/ft_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 9cd27c6..9909373 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -179,7 +179,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
     status = apr_mmap_create(&mm2, fd2, 0, size, APR_MMAP_READ, pool);
     if (APR_SUCCESS != status) {
         (void) apr_file_close(fd2);
-        (void) apr_file_close(fd2);
+        (void) apr_mmap_delete(mm1);
         (void) apr_file_close(fd1);
         return big_filecmp(pool, fname1, fname2, size, result_out);
     }
-- 
2.43.0


From 8a3722347c8f84d5e3a2e5ec161e27225bc21f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:17 +0000
Subject: [PATCH 10/49] fix: chunked comparison must not call shortened or
 unreadable files equal

big_filecmp() reported success and (stale or zero) equality when one file
ended early, when the two reads returned different lengths, and when one
read failed while the other hit the end of file.
---
 src/ft_file.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 9909373..1db5f8a 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -233,6 +233,7 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
     memset(errbuf, 0, sizeof(errbuf));
     apr_status_t status1 = APR_SUCCESS;
     apr_status_t status2 = APR_SUCCESS;
+    apr_off_t total = 0;
 
     if (0 == size) {
         *result_out = 0;
@@ -250,20 +251,23 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
         return status1;
     }
 
+    *result_out = 0;
     do {
-        rbytes1 = HUGE_LEN;
-        status1 = apr_file_read(fd1, data_chunk1, &rbytes1);
-        rbytes2 = rbytes1;
-        status2 = apr_file_read(fd2, data_chunk2, &rbytes2);
-        if ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (rbytes2 == rbytes1)) {
-            *result_out = memcmp(data_chunk1, data_chunk2, rbytes1);
+        status1 = apr_file_read_full(fd1, data_chunk1, HUGE_LEN, &rbytes1);
+        status2 = apr_file_read_full(fd2, data_chunk2, HUGE_LEN, &rbytes2);
+        if ((APR_SUCCESS != status1 && APR_EOF != status1) || (APR_SUCCESS != status2 && APR_EOF != status2)) {
+            DEBUG_ERR("1:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname1, rbytes1, apr_strerror(status1, errbuf, sizeof(errbuf)));
+            DEBUG_ERR("2:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname2, rbytes2, apr_strerror(status2, errbuf, sizeof(errbuf)));
+            (void) apr_file_close(fd2);
+            (void) apr_file_close(fd1);
+            return (APR_SUCCESS != status1 && APR_EOF != status1) ? status1 : status2;
         }
-    } while ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (0 == *result_out) && (rbytes2 == rbytes1));
+        *result_out = (rbytes1 == rbytes2) ? memcmp(data_chunk1, data_chunk2, rbytes1) : 1;
+        total += (apr_off_t) rbytes1;
+    } while ((APR_SUCCESS == status1) && (APR_SUCCESS == status2) && (0 == *result_out));
 
-    if ((APR_EOF != status1) && (APR_EOF != status2) && (0 == *result_out)) {
-        DEBUG_ERR("1:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname1, rbytes1, apr_strerror(status1, errbuf, sizeof(errbuf)));
-        DEBUG_ERR("2:unable to read %s (%" APR_SIZE_T_FMT "): %s", fname2, rbytes2, apr_strerror(status2, errbuf, sizeof(errbuf)));
-        return status1;
+    if ((0 == *result_out) && (total < size)) {
+        *result_out = 1;        /* shorter than when it was found: not compared in full */
     }
 
     status1 = apr_file_close(fd2);
-- 
2.43.0


From 3d2dfc261bf8d445e88a08f345fff71ba4928ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:34 +0000
Subject: [PATCH 11/49] fix: do not map a file beyond its end when it shrank
 since it was found

The whole run was killed by SIGBUS. Fall back to plain reads, which see
the end of the file.
---
 src/ft_file.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/ft_file.c b/src/ft_file.c
index 1db5f8a..c834d6e 100644
--- a/src/ft_file.c
+++ b/src/ft_file.c
@@ -43,6 +43,22 @@ static apr_status_t big_filecmp(apr_pool_t *pool, const char *fname1, const char
  */
 static const size_t HUGE_LEN = 64L * 1024L;
 
+/* Touching a mapping beyond the end of a file that shrank since it was found is fatal (SIGBUS). */
+static apr_status_t map_file(apr_mmap_t **memory_map, apr_file_t *file_descriptor, apr_off_t size, apr_pool_t *pool)
+{
+    apr_finfo_t finfo;
+    apr_status_t status = apr_file_info_get(&finfo, APR_FINFO_SIZE, file_descriptor);
+
+    if (APR_SUCCESS != status) {
+        return status;
+    }
+    if (finfo.size < size) {
+        return APR_EOF;
+    }
+
+    return apr_mmap_create(memory_map, file_descriptor, 0, (apr_size_t) size, APR_MMAP_READ, pool);
+}
+
 static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft_hash_t *hash_out, apr_pool_t *gc_pool)
 {
     char errbuf[CHAR_MAX_VAL];
@@ -56,7 +72,7 @@ static apr_status_t checksum_small_file(const char *filename, apr_off_t size, ft
         return status;
     }
 
-    status = apr_mmap_create(&memory_map, file_descriptor, 0, (apr_size_t) size, APR_MMAP_READ, gc_pool);
+    status = map_file(&memory_map, file_descriptor, size, gc_pool);
     if (APR_SUCCESS != status) {
         (void) apr_file_close(file_descriptor);
         return checksum_big_file(filename, size, hash_out, gc_pool);
@@ -163,7 +179,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
         return status;
     }
 
-    status = apr_mmap_create(&mm1, fd1, 0, (apr_size_t) size, APR_MMAP_READ, pool);
+    status = map_file(&mm1, fd1, size, pool);
     if (APR_SUCCESS != status) {
         (void) apr_file_close(fd1);
         return big_filecmp(pool, fname1, fname2, size, result_out);
@@ -176,7 +192,7 @@ static apr_status_t small_filecmp(apr_pool_t *pool, const char *fname1, const ch
         return status;
     }
 
-    status = apr_mmap_create(&mm2, fd2, 0, size, APR_MMAP_READ, pool);
+    status = map_file(&mm2, fd2, size, pool);
     if (APR_SUCCESS != status) {
         (void) apr_file_close(fd2);
         (void) apr_mmap_delete(mm1);
-- 
2.43.0


From 351cea9ca053cee8f425a78a3f0e20c436c9f6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:31 +0000
Subject: [PATCH 12/49] fix: patterns of the closest .gitignore take precedence

ft_ignore_match() went on to the parents after a match, so a negation in a
subdirectory lost against any matching pattern above it, the built-in ones
included.
---
 src/ft_ignore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 823cb51..f421f22 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -436,6 +436,11 @@ ft_ignore_match_result_t ft_ignore_match(ft_ignore_context_t *ctx, const char *f
                 /* Don't break - continue checking for later patterns */
             }
         }
+
+        /* The closest ignore file with an opinion overrides its parents */
+        if (result != FT_IGNORE_MATCH_NONE) {
+            break;
+        }
     }
 
     return result;
-- 
2.43.0


From c34ddfde236d92950a1257e467da84b7c310152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:32 +0000
Subject: [PATCH 13/49] fix: apply the built-in ignore patterns to relative
 paths too

'ftwin .' scanned .git, node_modules, *.o... because the context of the
built-in patterns was only valid for absolute paths.
---
 src/ft_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 946450b..4cdc5a3 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -265,7 +265,7 @@ ft_conf_t *ft_config_create(apr_pool_t *pool)
     conf->excess_size = (apr_off_t) EXCESS_SIZE_DEFAULT;
     conf->num_threads = ft_get_cpu_cores();     /* Default to number of CPU cores */
     conf->respect_gitignore = 1;        /* Respect .gitignore by default */
-    conf->global_ignores = ft_ignore_context_create(pool, NULL, "/");   /* Initialize global ignores */
+    conf->global_ignores = ft_ignore_context_create(pool, NULL, "");    /* Initialize global ignores, for absolute and relative paths */
     ft_load_defaults(conf);     /* Load default ignore patterns */
     conf->mask = OPTION_RECSD;
     conf->threshold = PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD;
-- 
2.43.0


From 29555d51a838079287e17289e2d880ace726fc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:33 +0000
Subject: [PATCH 14/49] fix: a directory pattern must not match directories
 below its target

'bin/' also matched the directory bin/x, so re-including bin did not
re-include its subdirectories.
---
 src/ft_ignore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index f421f22..494a5d3 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -289,7 +289,7 @@ static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int
     /* Set end anchor */
     if (*flags & FT_IGNORE_DIR_ONLY) {
         /* Match a directory with an optional trailing slash */
-        append_pcre_sequence(&result_cursor, "(/|$)");
+        append_pcre_sequence(&result_cursor, "/?$");
     }
     else {
         /* Match the end of the string */
-- 
2.43.0


From 5526282320619a33fa27d19dc6379b455e888dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:35 +0000
Subject: [PATCH 15/49] fix: anchor ignore patterns with an inner slash

As in git, 'a/b' only applies relative to the directory of the .gitignore
file, not to any x/a/b below.
---
 src/ft_ignore.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 494a5d3..1b70c5d 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -92,6 +92,12 @@ static const char *handle_negation_and_slashes(const char *pattern, unsigned int
         *flags |= FT_IGNORE_DIR_ONLY;
     }
 
+    /* A slash in the middle anchors the pattern, too */
+    const char *slash = strchr(pattern_cursor, '/');
+    if (slash != NULL && slash < end) {
+        *starts_with_slash = 1;
+    }
+
     return pattern_cursor;
 }
 
-- 
2.43.0


From 1c6b6f8f430977f7a0e5652a63c862c8f3fd2cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:36 +0000
Subject: [PATCH 16/49] fix: only a whole '**' component of an ignore pattern
 crosses directories

'a**b' matched across slashes; git treats such stars as a single '*'.
---
 src/ft_ignore.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 1b70c5d..e4be287 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -156,12 +156,16 @@ static void set_pcre_anchors(char **result_cursor, const struct pcre_anchor_para
  * @brief Handles the conversion of a glob star (`*`) or double-star (`**`)
  * into its PCRE equivalent.
  *
+ * @param pattern_start The beginning of the glob pattern.
  * @param pattern_cursor A pointer to the current position in the glob pattern.
  * @param result_cursor A pointer to the current position in the result buffer.
  */
-static void handle_star(const char **pattern_cursor, char **result_cursor)
+static void handle_star(const char *pattern_start, const char **pattern_cursor, char **result_cursor)
 {
-    if (*(*pattern_cursor + 1) == '*') {
+    int starts_component = (*pattern_cursor == pattern_start || *(*pattern_cursor - 1) == '/');
+    int spans_component = (*(*pattern_cursor + 1) == '*' && (*(*pattern_cursor + 2) == '/' || *(*pattern_cursor + 2) == '\0'));
+
+    if (starts_component && spans_component) {
         /* Double star: ** */
         if (*(*pattern_cursor + 2) == '/') {
             /* * *//* pattern: matches zero or more directory levels */
@@ -239,6 +243,8 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
  */
 static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result_cursor, unsigned int flags)
 {
+    const char *pattern_start = *pattern_cursor;
+
     while (**pattern_cursor) {
         /* Stop if we hit a trailing slash for a directory-only pattern */
         if (**pattern_cursor == '/' && (flags & FT_IGNORE_DIR_ONLY) && *(*pattern_cursor + 1) == '\0') {
@@ -254,7 +260,7 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
             *pattern_cursor += 2;
         }
         else if (**pattern_cursor == '*') {
-            handle_star(pattern_cursor, result_cursor);
+            handle_star(pattern_start, pattern_cursor, result_cursor);
         }
         else if (**pattern_cursor == '?') {
             handle_question_mark(pattern_cursor, result_cursor);
-- 
2.43.0


From c79df491816d3c3c14e16f0f6624b141a324c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:37 +0000
Subject: [PATCH 17/49] fix: a character class of an ignore pattern never
 matches a slash

---
 src/ft_ignore.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index e4be287..a03f4f6 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -205,6 +205,7 @@ static void handle_question_mark(const char **pattern_cursor, char **result_curs
  */
 static void handle_char_class(const char **pattern_cursor, char **result_cursor)
 {
+    append_pcre_sequence(result_cursor, "(?!/)");
     char *cursor = *result_cursor;
     *cursor++ = '[';
     (*pattern_cursor)++;        // Move past opening `[`
-- 
2.43.0


From 458724617b950886101050e3142985a6603dd4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:39 +0000
Subject: [PATCH 18/49] fix: an escaped letter or digit of an ignore pattern
 stands for itself

'\\d' became the PCRE class of digits.
---
 src/ft_ignore.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index a03f4f6..be9325d 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -217,7 +217,9 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
 
     while (**pattern_cursor && **pattern_cursor != ']') {
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
-            *cursor++ = '\\';
+            if (!isalnum((unsigned char) *(*pattern_cursor + 1))) {
+                *cursor++ = '\\';
+            }
             (*pattern_cursor)++;
         }
         *cursor++ = *(*pattern_cursor)++;
@@ -255,7 +257,9 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
             /* Handle escaped characters */
             char *cursor = *result_cursor;
-            *cursor++ = '\\';
+            if (!isalnum((unsigned char) *(*pattern_cursor + 1))) {
+                *cursor++ = '\\';
+            }
             *cursor++ = *(*pattern_cursor + 1);
             *result_cursor = cursor;
             *pattern_cursor += 2;
-- 
2.43.0


From e5a07719640947448c1dc9809f2abe5bd7c3a237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:40 +0000
Subject: [PATCH 19/49] fix: size the regex buffer of an ignore pattern after
 the pattern

A long line of '*' or '?' in a .gitignore overflowed the fixed buffer.
---
 src/ft_ignore.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index be9325d..e36d8d0 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -28,7 +28,9 @@
 
 enum
 {
-    INITIAL_PATTERNS_CAPACITY = 16
+    INITIAL_PATTERNS_CAPACITY = 16,
+    MAX_EXPANSION = 8,
+    ANCHORS_LEN = 16
 };
 
 /**
@@ -290,7 +292,8 @@ static void convert_glob_body_to_pcre(const char **pattern_cursor, char **result
 
 static char *ft_glob_to_pcre(const char *pattern, apr_pool_t *pool, unsigned int *flags)
 {
-    char *result = apr_pcalloc(pool, MAX_PATTERN_LEN);
+    /* No glob character becomes more than MAX_EXPANSION regex characters */
+    char *result = apr_pcalloc(pool, strlen(pattern) * MAX_EXPANSION + ANCHORS_LEN);
     char *result_cursor = result;
     struct pcre_anchor_params_t anchor_params = { 0 };
     const char *pattern_cursor = handle_negation_and_slashes(pattern, flags, &anchor_params.starts_with_slash);
-- 
2.43.0


From 79a4bc68d87802bc99a0217d08351b830a7251cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:42 +0000
Subject: [PATCH 20/49] fix: strip trailing whitespace from ignore patterns

'*.log ' matched nothing, and 'dir/ ' was a directory pattern that matched
nothing.
---
 src/ft_ignore.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index e36d8d0..15469c5 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -349,6 +349,13 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
         trimmed++;
     }
 
+    /* Trailing whitespace is not part of the pattern either, unless escaped */
+    apr_size_t len = strlen(trimmed);
+    while (len > 0 && isspace((unsigned char) trimmed[len - 1]) && !(len > 1 && trimmed[len - 2] == '\\')) {
+        len--;
+    }
+    trimmed = apr_pstrndup(ctx->pool, trimmed, len);
+
     /* Skip empty lines and comments */
     if (*trimmed == '\0' || *trimmed == '#') {
         return APR_SUCCESS;
-- 
2.43.0


From c66f0f14cdaf8d4ee262392fa1a634b8aaa420d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:58 +0000
Subject: [PATCH 21/49] fix: ignore patterns apply below the arguments, not to
 the arguments

'ftwin /home/me/build' or 'ftwin /tmp/a.o /tmp/b.o' reported nothing: what
is named explicitly must be scanned.
---
 src/ft_traverse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_traverse.c b/src/ft_traverse.c
index 458b209..8296b8b 100644
--- a/src/ft_traverse.c
+++ b/src/ft_traverse.c
@@ -170,7 +170,7 @@ static apr_status_t traverse_recursive(ft_conf_t *conf, const char *filename, ap
     if (status != APR_SUCCESS) {
         return status;
     }
-    if (conf->respect_gitignore && parent_ctx && ft_ignore_match(parent_ctx, filename, finfo.filetype == APR_DIR) == FT_IGNORE_MATCH_IGNORED) {
+    if (stats != NULL && conf->respect_gitignore && parent_ctx && ft_ignore_match(parent_ctx, filename, finfo.filetype == APR_DIR) == FT_IGNORE_MATCH_IGNORED) {
         return APR_SUCCESS;
     }
     if (check_permissions(&finfo, conf) != APR_SUCCESS) {
-- 
2.43.0


From 7291a28ca2eb02b725fe98f79cc667b012bf8c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:00 +0000
Subject: [PATCH 22/49] fix: refuse sizes with trailing garbage and sizes that
 are not a number

'-m 10Kfoo' was taken as 10K, '-M nan' or a huge value became an arbitrary
size, and the documented B suffix was refused.
---
 src/human_size.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/human_size.c b/src/human_size.c
index 896ce35..f12b509 100644
--- a/src/human_size.c
+++ b/src/human_size.c
@@ -11,6 +11,7 @@
 #include <apr_strings.h>
 
 static const double BYTES_IN_KIBIBYTE = 1024.0;
+static const double MAX_SIZE = 9223372036854775808.0;
 static const apr_off_t KIBIBYTE = 1024LL;
 static const apr_off_t MEBIBYTE = 1024LL * 1024LL;
 static const apr_off_t GIBIBYTE = 1024LL * 1024LL * 1024LL;
@@ -62,9 +63,23 @@ apr_off_t parse_human_size(const char *size_str)
         case 'K':
             multiplier = KIBIBYTE;
             break;
+        case 'B':
+            break;
         default:
             return -1;          // Invalid suffix
         }
+        /* "10M", "10MB" and "10MiB" are the same size */
+        if (multiplier > 1 && toupper((unsigned char) endptr[1]) == 'I' && toupper((unsigned char) endptr[2]) == 'B') {
+            endptr += 2;
+        }
+        else if (multiplier > 1 && toupper((unsigned char) endptr[1]) == 'B') {
+            endptr++;
+        }
+        endptr++;
+    }
+
+    if (*endptr != '\0' || !(size >= 0.0) || size * (double) multiplier >= MAX_SIZE) {
+        return -1;              // Trailing garbage, not a number, negative or not representable
     }
 
     return (apr_off_t) (size * (double) multiplier);
-- 
2.43.0


From 51cdc5f9356d37344bf5acc2e33697f1045d9652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:01 +0000
Subject: [PATCH 23/49] fix: waiting on the thread pool must survive any
 wake-up order

napr_threadpool_wait() trusted a single wake-up: a spurious one, or the
signal of a concurrent napr_threadpool_add(), made it return early and
drop the queued tasks, and that signal was lost for the workers. Waiting
twice without a new task could sleep for ever. Wait for the condition
itself, on a condition variable of its own.
---
 src/napr_threadpool.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index f464623..e8d25ed 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -163,6 +163,7 @@ struct napr_threadpool_t
     /* This mutex protects everything below in writing and reading */
     apr_thread_mutex_t *threadpool_mutex;
     apr_thread_cond_t *threadpool_update;
+    apr_thread_cond_t *threadpool_done;
     unsigned long nb_thread;
     unsigned long nb_waiting;
     napr_list_t *list;
@@ -221,6 +222,11 @@ extern apr_status_t napr_threadpool_init(napr_threadpool_t **threadpool, void *c
         DEBUG_ERR("error calling apr_thread_cond_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
+    status = apr_thread_cond_create(&((*threadpool)->threadpool_done), (*threadpool)->pool);
+    if (APR_SUCCESS != status) {
+        DEBUG_ERR("error calling apr_thread_cond_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+        return status;
+    }
     (*threadpool)->thread = (apr_thread_t **) apr_palloc((*threadpool)->pool, nb_thread * sizeof(apr_thread_t *));
     (*threadpool)->ctx = ctx;
     (*threadpool)->nb_thread = nb_thread;
@@ -272,7 +278,6 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
 {
     char errbuf[ERR_BUF_SIZE] = { 0 };
     apr_status_t status = APR_SUCCESS;
-    int list_size = 0;
 
     /* DEBUG_DBG("Called"); */
     status = apr_thread_mutex_lock(threadpool->threadpool_mutex);
@@ -280,8 +285,7 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
         DEBUG_ERR("error calling apr_thread_mutex_lock: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
         return status;
     }
-    list_size = (int) napr_list_size(threadpool->list);
-    if ((0 != list_size) || (threadpool->nb_waiting != threadpool->nb_thread)) {
+    while (!(threadpool->ended & 0x1) && ((0 != napr_list_size(threadpool->list)) || (threadpool->nb_waiting != threadpool->nb_thread))) {
         /* DEBUG_DBG("After lock before wait"); */
         /*
          * Because the caller of this function has added all data we are now
@@ -290,7 +294,7 @@ extern apr_status_t napr_threadpool_wait(napr_threadpool_t *threadpool)
          */
         threadpool->run |= 0x1;
 
-        status = apr_thread_cond_wait(threadpool->threadpool_update, threadpool->threadpool_mutex);
+        status = apr_thread_cond_wait(threadpool->threadpool_done, threadpool->threadpool_mutex);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling apr_thread_cond_wait: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
             return status;
@@ -355,7 +359,7 @@ static apr_status_t wait_for_task(napr_threadpool_t *threadpool)
 
     if (!(threadpool->ended & 0x1) && (threadpool->run & 0x1) && (threadpool->nb_waiting == threadpool->nb_thread)) {
         threadpool->ended |= 0x1;
-        status = apr_thread_cond_broadcast(threadpool->threadpool_update);
+        status = apr_thread_cond_broadcast(threadpool->threadpool_done);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling apr_thread_cond_broadcast: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
             return status;
-- 
2.43.0


From 21a2f63e030fbe5ce3fef04a8b7e0e5e9ac8598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:11 +0000
Subject: [PATCH 24/49] fix: a member name the locale can not express must not
 hide the other members

libarchive answers with a warning and possibly without a name for such a
member; extraction of every member behind it failed.
---
 src/ft_archive.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index bf5d8ea..519ddcb 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -105,12 +105,18 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
             DEBUG_ERR("subpath [%s] not found in archive [%s]", file->subpath, file->path);
             return NULL;
         }
-        if (result_value != ARCHIVE_OK) {
+        if (result_value < ARCHIVE_WARN) {
             DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
             return NULL;
         }
 
-        if (!strcmp(file->subpath, archive_entry_pathname(entry))) {
+        /* The current locale may not be able to express the name of a member. */
+        const char *pathname = archive_entry_pathname(entry);
+        if (NULL == pathname) {
+            pathname = archive_entry_pathname_utf8(entry);
+        }
+
+        if (NULL != pathname && !strcmp(file->subpath, pathname)) {
             mode_t current_mode = umask(S_IRWXG | S_IRWXO);
 
             /*
-- 
2.43.0


From 1a9df0200333bbd6c46a14d6cff75adc6615b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:12 +0000
Subject: [PATCH 25/49] fix: extract plain files only

A link or directory member replaced the temporary file by a link or a
directory, and the content of a hard link member went to whatever file of
that name existed outside the archive.
---
 src/ft_archive.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index 519ddcb..6ad3767 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -117,6 +117,11 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
         }
 
         if (NULL != pathname && !strcmp(file->subpath, pathname)) {
+            if (AE_IFREG != archive_entry_filetype(entry) || NULL != archive_entry_hardlink(entry)) {
+                DEBUG_ERR("subpath [%s] of archive [%s] is not a plain file", file->subpath, file->path);
+                return NULL;
+            }
+
             mode_t current_mode = umask(S_IRWXG | S_IRWXO);
 
             /*
-- 
2.43.0


From 0fd03e92b54a088b55c23e8337205f8df0ab12a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:14 +0000
Subject: [PATCH 26/49] fix: keep extracted members private and readable, and
 notice a failing write

The temporary file took the permissions recorded in the archive: it was
readable by everyone, or not even by its owner.
---
 src/ft_archive.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index 6ad3767..08ca639 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -139,10 +139,14 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
             close(result_value);
 
             archive_entry_copy_pathname(entry, tmpfile);
+            archive_entry_set_perm(entry, S_IRUSR | S_IWUSR);
 
             result_value = archive_write_header(ext, entry);
             if (result_value == ARCHIVE_OK) {
                 result_value = copy_data(archive_handle, ext);
+                if (result_value == ARCHIVE_OK) {
+                    result_value = archive_write_finish_entry(ext);
+                }
                 if (result_value != ARCHIVE_OK) {
                     DEBUG_ERR("error while copying data from archive (%s)", file->path);
                     (void) apr_file_remove(tmpfile, pool);
-- 
2.43.0


From d49b0e532e1bad96d97f38a51608bc60bfe5eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:00 +0000
Subject: [PATCH 27/49] fix: refuse image threshold levels of more than one
 character

"-T 12" was taken as "-T 1".
---
 src/ft_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_config.c b/src/ft_config.c
index 4cdc5a3..a536b01 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -498,7 +498,7 @@ static apr_status_t handle_image_options(int option, const char *optarg, ft_conf
         *wregex = apr_pstrdup(conf->pool, ".*\\.(gif|png|jpe?g)$");
         break;
     case 'T':
-        switch (*optarg) {
+        switch ('\0' == *optarg || '\0' == optarg[1] ? *optarg : '\0') {
         case '1':
             conf->threshold = PUZZLE_CVEC_SIMILARITY_LOWER_THRESHOLD;
             break;
-- 
2.43.0


From 52532a7c093d63bee2de900b0fc57bdf131574c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:27 +0000
Subject: [PATCH 28/49] fix: colliding hash values must not grow the table
 without end

A bucket that filled up always doubled the table, even when its keys had
equal hash values, so that ffactor keys with the same hash value (or the
same low bits) exhausted all memory.  Enlarge the bucket instead when the
table already has more buckets than elements.
---
 src/napr_hash.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/napr_hash.c b/src/napr_hash.c
index 4bbb70e..09b35d9 100644
--- a/src/napr_hash.c
+++ b/src/napr_hash.c
@@ -306,12 +306,19 @@ extern apr_status_t napr_hash_set(napr_hash_t *hash, void *data, apr_uint32_t ha
     if ((0 == nel) && (NULL == hash->table[bucket])) {
         hash->table[bucket] = (void **) apr_pcalloc(hash->own_pool, hash->ffactor * sizeof(void *));
     }
+    else if ((0 != nel) && (0 == nel % hash->ffactor)) {
+        /* more buckets could not split this one: its keys collide, enlarge it */
+        void **larger = (void **) apr_pcalloc(hash->own_pool, (nel + hash->ffactor) * sizeof(void *));
+        memcpy((void *) larger, (const void *) hash->table[bucket], nel * sizeof(void *));
+        hash->table[bucket] = larger;
+    }
     // DEBUG_DBG( "set data %.*s in bucket %u at nel %u", hash->datum_get_key_len(data), hash->datum_get_key(data), bucket, nel);
     hash->table[bucket][nel] = data;
     hash->filling_table[bucket]++;
     hash->nel++;
 
-    if (hash->ffactor <= hash->filling_table[bucket]) {
+    /* With fewer elements than buckets, the keys of a full bucket have (almost) equal hash values: growing would not help. */
+    if ((hash->ffactor <= hash->filling_table[bucket]) && (hash->size <= hash->nel)) {
         // int i;
         // DEBUG_DBG( "rebuilding hash table, because there's %u element in bucket %u ffactor is %u (total element = %u)", 
         //      hash->filling_table[bucket], bucket, hash->ffactor, hash->nel);
-- 
2.43.0


From f6f122655fb03ec972b800188648b848322aa883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:01 +0000
Subject: [PATCH 29/49] fix: keep every key reachable through page splits

A page was split in the middle of its entries whatever their sizes, without
compacting the left page; the new node could then still not fit and the put
failed half done, or the divider written to the parent did not bound the moved
keys. Choose a split point that leaves room, split the parent before the child
when the parent is full, and refuse keys and values that no page can hold before
anything is changed. The Free DB uses the same code.
---
 src/napr_db.c          | 765 +++++++++++++----------------------------
 src/napr_db_internal.h |  16 +-
 src/napr_db_tree.c     | 345 +++++++------------
 3 files changed, 362 insertions(+), 764 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 59b99cd..001ec8d 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -16,6 +16,7 @@
 #include <apr_proc_mutex.h>
 #include <apr_global_mutex.h>
 #include <apr_portable.h>
+#include <apr_strings.h>
 #include <string.h>
 #include <unistd.h>
 
@@ -773,153 +774,266 @@ static apr_status_t write_dirty_pages_to_disk(napr_db_txn_t *txn)
     return apr_file_sync(txn->env->file);
 }
 
-/* Forward declarations for Free DB helper functions */
-static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, DB_SplitPgnos pgnos);
-static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key, pgno_t *new_root_out);
-
 /**
- * @brief Populate the Free DB with freed pages from this transaction.
- *
- * This function inserts an entry into the Free DB mapping:
- * Key = current TXNID, Value = array of freed pgno_t values.
- *
- * The Free DB is a separate B+ tree that tracks which pages were freed
- * by which transaction. This enables safe page reclamation based on
- * the oldest active reader.
- *
- * @param txn The write transaction
- * @param new_free_db_root_out Output: the new Free DB root page number
- * @return APR_SUCCESS or an error code
+ * @brief Create an empty page in a write transaction.
+ * @param txn The transaction.
+ * @param flags Page type (P_LEAF or P_BRANCH).
+ * @param page_out Output: the new dirty page.
+ * @return APR_SUCCESS or an error code.
  */
-static apr_status_t initialize_empty_free_db(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t *new_root_pgno_out)
+static apr_status_t new_dirty_page(napr_db_txn_t *txn, uint16_t flags, DB_PageHeader **page_out)
 {
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    pgno_t new_root_pgno;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    DB_PageHeader *new_root;
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    pgno_t *pgno_key;
+    DB_PageHeader *page = NULL;
+    pgno_t *pgno_key = NULL;
+    pgno_t pgno = 0;
+    apr_status_t status = db_page_alloc(txn, 1, &pgno);
 
-    status = db_page_alloc(txn, 1, &new_root_pgno);
     if (status != APR_SUCCESS) {
         return status;
     }
 
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
+    page = apr_pcalloc(txn->pool, PAGE_SIZE);
+    pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
+    if (!page || !pgno_key) {
         return APR_ENOMEM;
     }
 
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_LEAF;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    status = db_page_insert(new_root, 0, key, data, 0);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
+    page->pgno = pgno;
+    page->flags = flags;
+    page->num_keys = 0;
+    page->lower = sizeof(DB_PageHeader);
+    page->upper = PAGE_SIZE;
 
-    pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-    *new_root_pgno_out = new_root_pgno;
+    *pgno_key = pgno;
+    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), page);
+    *page_out = page;
 
     return APR_SUCCESS;
 }
 
-static apr_status_t insert_into_free_db(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t *new_free_db_root_out)
+/**
+ * @brief Make dirty copies of all pages of a path (CoW).
+ * @param txn The transaction.
+ * @param path Page numbers from root to leaf.
+ * @param path_len Length of the path.
+ * @param leaf_page_out Output: the dirty copy of the last page of the path.
+ * @return APR_SUCCESS or an error code.
+ */
+static apr_status_t make_path_writable(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, DB_PageHeader **leaf_page_out)
 {
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    pgno_t path[MAX_TREE_DEPTH] = { 0 };
-    uint16_t path_len = 0;
-    DB_PageHeader *leaf_page = NULL;
-    uint16_t index = 0;
-    napr_db_val_t current_key = *key;
-    napr_db_val_t current_data = *data;
-    pgno_t right_child_pgno = 0;
-
-    status = db_find_leaf_page_with_path_in_tree(txn, txn->free_db_root_pgno, &current_key, path, &path_len, &leaf_page);
-    if (status != APR_SUCCESS) {
-        return initialize_empty_free_db(txn, key, data, new_free_db_root_out);
-    }
-
-    status = db_page_search(leaf_page, &current_key, &index);
-    if (status == APR_SUCCESS) {
-        return APR_EEXIST;
-    }
+    for (int idx = (int) path_len - 1; idx >= 0; idx--) {
+        pgno_t current_pgno = path[idx];
+        DB_PageHeader *dirty_page = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
 
-    for (int i = (int)path_len - 1; i >= 0; i--) {
-        pgno_t current_pgno = path[i];
-        DB_PageHeader *dirty_page = NULL;
-        DB_PageHeader *page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
-        if (page_to_cow) {
-            dirty_page = page_to_cow;
-        }
-        else {
+        if (!dirty_page) {
+            /* Page is in mmap - CoW it */
             DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
-            status = db_page_get_writable(txn, original_page, &dirty_page);
+            apr_status_t status = db_page_get_writable(txn, original_page, &dirty_page);
             if (status != APR_SUCCESS) {
                 return status;
             }
         }
-        if (i == (int) path_len - 1) {
-            leaf_page = dirty_page;
+
+        if (idx == (int) path_len - 1) {
+            *leaf_page_out = dirty_page;
         }
     }
 
-    status = db_page_insert(leaf_page, index, &current_key, &current_data, right_child_pgno);
-    if (status == APR_SUCCESS) {
-        *new_free_db_root_out = path[0];
-        return APR_SUCCESS;
+    return APR_SUCCESS;
+}
+
+/**
+ * @brief Make room for a node: split one page of a path and link its new right sibling into the parent.
+ *
+ * When the parent lacks the room for the new sibling, the parent is split instead. The tree is valid after every
+ * call; the caller searches its place again and retries.
+ *
+ * @param txn The transaction.
+ * @param root Root page number of the tree (updated when the root is split).
+ * @param path Page numbers from root to leaf, all of them dirty.
+ * @param level Level of the page that lacks the room.
+ * @param key Key of the node to make room for.
+ * @param node_size Size of this node.
+ * @return APR_SUCCESS or an error code.
+ */
+static apr_status_t make_room(napr_db_txn_t *txn, pgno_t *root, const pgno_t *path, uint16_t level, const napr_db_val_t *key, size_t node_size)
+{
+    apr_status_t status = APR_SUCCESS;
+    DB_PageHeader *page = apr_hash_get(txn->dirty_pages, &path[level], sizeof(pgno_t));
+    DB_PageHeader *parent = NULL;
+    DB_PageHeader *right_page = NULL;
+    napr_db_val_t divider = { 0 };
+    uint16_t split_point = 0;
+    uint16_t index = 0;
+
+    if (!page) {
+        return APR_EGENERAL;
     }
-    if (status != APR_ENOSPC) {
-        return status;
+
+    if (db_page_search(page, key, &index) == APR_SUCCESS) {
+        /* A value grows: part its node from the others */
+        split_point = (index > 0) ? index : 1;
+    }
+    else {
+        split_point = db_choose_split_point(page, index, node_size);
     }
 
-    DB_PageHeader *left_page = leaf_page;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
-    status = db_split_leaf(txn, left_page, &right_page, &divider_key);
-    if (status != APR_SUCCESS) {
-        return status;
+    /* The divider is the smallest key that belongs to the right page; a new last node gets that page for itself */
+    if (split_point == page->num_keys) {
+        divider = *key;
+    }
+    else if (page->flags & P_LEAF) {
+        DB_LeafNode *node = db_page_leaf_node(page, split_point);
+        divider.data = db_leaf_node_key(node);
+        divider.size = node->key_size;
+    }
+    else {
+        DB_BranchNode *node = db_page_branch_node(page, split_point);
+        divider.data = db_branch_node_key(node);
+        divider.size = node->key_size;
+    }
+    divider.data = apr_pmemdup(txn->pool, divider.data, divider.size);
+    if (!divider.data) {
+        return APR_ENOMEM;
     }
 
-    apr_status_t search_status = db_page_search(left_page, &current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, &current_key, &index);
-        status = db_page_insert(right_page, index, &current_key, &current_data, 0);
+    if (level == 0) {
+        /* The root is split: the tree grows a level, the first child takes all keys below the divider */
+        napr_db_val_t lowest = {.data = divider.data,.size = 0 };
+
+        status = new_dirty_page(txn, P_BRANCH, &parent);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        status = db_page_insert(parent, 0, &lowest, NULL, path[0]);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        index = 1;
     }
     else {
-        status = db_page_insert(left_page, index, &current_key, &current_data, 0);
+        size_t divider_size = sizeof(DB_BranchNode) + divider.size;
+
+        parent = apr_hash_get(txn->dirty_pages, &path[level - 1], sizeof(pgno_t));
+        if (!parent) {
+            return APR_EGENERAL;
+        }
+        if ((size_t) (parent->upper - parent->lower) < divider_size + sizeof(uint16_t)) {
+            return make_room(txn, root, path, level - 1, &divider, divider_size);
+        }
+        for (index = 0; index < parent->num_keys && db_page_branch_node(parent, index)->pgno != path[level]; index++) {
+            /* find the split page in its parent */
+        }
+        if (index == 0) {
+            /* The key of the first child bounds nothing, it must not exceed the divider */
+            db_page_branch_node(parent, 0)->key_size = 0;
+        }
+        index++;
     }
+
+    status = db_split_page(txn, page, split_point, &right_page);
     if (status != APR_SUCCESS) {
         return status;
     }
+    status = db_page_insert(parent, index, &divider, NULL, right_page->pgno);
+    if (status == APR_SUCCESS && level == 0) {
+        *root = parent->pgno;
+    }
 
-    right_child_pgno = right_page->pgno;
-    current_key = divider_key;
-    status = propagate_split_up_tree_in_tree(txn, path, path_len, &current_key, (DB_SplitPgnos) {
-                                             .right_child_pgno = &right_child_pgno,.new_root_out = new_free_db_root_out}
-    );
-    if (status == APR_INCOMPLETE) {
-        *new_free_db_root_out = path[0];
-        return APR_SUCCESS;
+    return status;
+}
+
+/**
+ * @brief Insert or replace a key in a tree.
+ *
+ * 1. Find the leaf page for the key
+ * 2. CoW the path from root to leaf
+ * 3. Replace or insert, splitting pages until there is room
+ *
+ * @param txn The write transaction.
+ * @param root Root page number of the tree, 0 for an empty tree (updated).
+ * @param key Key to store.
+ * @param data Value to store.
+ * @return APR_SUCCESS or an error code.
+ */
+static apr_status_t tree_put(napr_db_txn_t *txn, pgno_t *root, const napr_db_val_t *key, const napr_db_val_t *data)
+{
+    uint8_t copy[PAGE_SIZE];
+    napr_db_val_t key_copy = {.data = copy,.size = key->size };
+    napr_db_val_t data_copy = {.data = copy + key->size,.size = data->size };
+    apr_status_t status = APR_SUCCESS;
+
+    /* Key and value may lie on a page that is about to be rearranged */
+    if (key->size + data->size > sizeof(copy)) {
+        return APR_ENOSPC;
     }
-    if (status != APR_SUCCESS) {
-        return status;
+    memcpy(key_copy.data, key->data, key->size);
+    memcpy(data_copy.data, data->data, data->size);
+
+    if (*root == 0) {
+        DB_PageHeader *new_root = NULL;
+        status = new_dirty_page(txn, P_LEAF, &new_root);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        *root = new_root->pgno;
     }
 
-    return handle_root_split_in_tree(txn, path[0], right_child_pgno, &current_key, new_free_db_root_out);
+    while (1) {
+        pgno_t path[MAX_TREE_DEPTH] = { 0 };
+        uint16_t path_len = 0;
+        DB_PageHeader *leaf_page = NULL;
+        uint16_t index = 0;
+
+        status = db_find_leaf_page_with_path_in_tree(txn, *root, &key_copy, path, &path_len, &leaf_page);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        status = make_path_writable(txn, path, path_len, &leaf_page);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+
+        if (db_page_search(leaf_page, &key_copy, &index) == APR_SUCCESS) {
+            DB_LeafNode *node = db_page_leaf_node(leaf_page, index);
+            size_t available = (size_t) (leaf_page->upper - leaf_page->lower) + node->data_size;
+
+            if (available >= data_copy.size) {
+                status = db_page_delete(leaf_page, index);
+                if (status != APR_SUCCESS) {
+                    return status;
+                }
+                return db_page_insert(leaf_page, index, &key_copy, &data_copy, 0);
+            }
+        }
+        else {
+            status = db_page_insert(leaf_page, index, &key_copy, &data_copy, 0);
+            if (status != APR_ENOSPC) {
+                return status;
+            }
+        }
+
+        status = make_room(txn, root, path, path_len - 1, &key_copy, sizeof(DB_LeafNode) + key_copy.size + data_copy.size);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+    }
 }
 
+/**
+ * @brief Populate the Free DB with freed pages from this transaction.
+ *
+ * This function inserts an entry into the Free DB mapping:
+ * Key = current TXNID, Value = array of freed pgno_t values.
+ *
+ * The Free DB is a separate B+ tree that tracks which pages were freed
+ * by which transaction. This enables safe page reclamation based on
+ * the oldest active reader.
+ *
+ * @param txn The write transaction
+ * @param new_free_db_root_out Output: the new Free DB root page number
+ * @return APR_SUCCESS or an error code
+ */
 static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_root_out)
 {
     napr_db_val_t key = { 0 };
@@ -941,12 +1055,8 @@ static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_roo
     data.data = txn->freed_pages->elts;
     data.size = (apr_size_t) txn->freed_pages->nelts * txn->freed_pages->elt_size;
 
-    pgno_t max_valid_pgno = (txn->flags & NAPR_DB_RDONLY) ? txn->env->live_meta->last_pgno : txn->new_last_pgno;
-    if (txn->free_db_root_pgno == 0 || txn->free_db_root_pgno > max_valid_pgno) {
-        return initialize_empty_free_db(txn, &key, &data, new_free_db_root_out);
-    }
-
-    return insert_into_free_db(txn, &key, &data, new_free_db_root_out);
+    *new_free_db_root_out = (txn->free_db_root_pgno > txn->new_last_pgno) ? 0 : txn->free_db_root_pgno;
+    return tree_put(txn, new_free_db_root_out, &key, &data);
 }
 
 /**
@@ -1384,456 +1494,45 @@ apr_status_t napr_db_get(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
  * @param data Value to insert
  * @return APR_SUCCESS on success, APR_EEXIST if key exists, error code on failure
  */
-static apr_status_t handle_empty_tree_put(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data)
-{
-    pgno_t new_root_pgno = 0;
-    DB_PageHeader *new_root = NULL;
-    apr_status_t status = APR_SUCCESS;
-
-    /* Allocate the first leaf page */
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    /* Allocate dirty page in memory */
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
-
-    /* Initialize the new leaf page */
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_LEAF;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    /* Insert the first key */
-    status = db_page_insert(new_root, 0, key, data, 0);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    /* Store in dirty pages hash */
-    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-
-    /* Update transaction's root pointer */
-    txn->root_pgno = new_root_pgno;
-
-    return APR_SUCCESS;
-}
-
-static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, pgno_t *right_child_pgno);
-static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key);
-static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data);
-
 apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
 {
     pgno_t path[MAX_TREE_DEPTH] = { 0 };
     uint16_t path_len = 0;
     DB_PageHeader *leaf_page = NULL;
-    DB_PageHeader *dirty_page = NULL;
     uint16_t index = 0;
     apr_status_t status = APR_SUCCESS;
-    int idx = 0;
-
-    napr_db_val_t current_key;
-    napr_db_val_t current_data;
-    pgno_t right_child_pgno = 0;
 
     /* Validate inputs */
     if (!txn || !key || !data) {
         return APR_EINVAL;
     }
 
-    /* Key/data to insert at each level (may be updated during split propagation) */
-    current_key = *key;
-    current_data = *data;
-
     /* Ensure this is a write transaction */
     if (txn->flags & NAPR_DB_RDONLY) {
         return APR_EACCES;
     }
 
-    /* Special case: Empty tree (no root yet) */
-    if (txn->root_pgno == 0) {
-        return handle_empty_tree_put(txn, &current_key, &current_data);
-    }
-
-    /* Normal case: Tree exists, find the leaf page and record path */
-    status = db_find_leaf_page_with_path(txn, &current_key, path, &path_len, &leaf_page);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    /* Search within the leaf page to find insertion point */
-    apr_status_t search_status = db_page_search(leaf_page, &current_key, &index);
-
-    /* If key exists, check if this is a same-transaction duplicate or an MVCC update.
-     * Same-transaction duplicate: Leaf page is already dirty -> reject with APR_EEXIST
-     * MVCC update: Leaf page is NOT dirty -> allow via CoW */
-    if (search_status == APR_SUCCESS) {
-        pgno_t leaf_pgno = path[path_len - 1];
-        DB_PageHeader *check_dirty = apr_hash_get(txn->dirty_pages, &leaf_pgno, sizeof(pgno_t));
-        if (check_dirty) {
-            /* Same transaction - key already inserted, can't insert again */
-            return APR_EEXIST;
-        }
-        /* Different transaction - will CoW and update below */
-    }
-
-    /* CoW path propagation: Copy all pages from leaf to root */
-    for (idx = (int) path_len - 1; idx >= 0; idx--) {
-        pgno_t current_pgno = path[idx];
-        DB_PageHeader *page_to_cow = NULL;
-
-        /* Check if page is already dirty */
-        page_to_cow = apr_hash_get(txn->dirty_pages, &current_pgno, sizeof(pgno_t));
-
-        if (page_to_cow) {
-            dirty_page = page_to_cow;
-        }
-        else {
-            /* Page is in mmap - CoW it */
-            DB_PageHeader *original_page = (DB_PageHeader *) ((char *) txn->env->map_addr + (current_pgno * PAGE_SIZE));
-
-            status = db_page_get_writable(txn, original_page, &dirty_page);
-            if (status != APR_SUCCESS) {
-                return status;
-            }
-        }
-
-        /* Update leaf_page pointer if this is the leaf */
-        if (idx == (int) path_len - 1) {
-            leaf_page = dirty_page;
-        }
-    }
-
-    /* If key exists (MVCC update), delete the old entry before inserting new one */
-    if (search_status == APR_SUCCESS) {
-        status = db_page_delete(leaf_page, index);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-    }
-
-    /* Try to insert into the dirty leaf page */
-    status = db_page_insert(leaf_page, index, &current_key, &current_data, right_child_pgno);
-
-    /* If insertion succeeded, we're done */
-    if (status == APR_SUCCESS) {
-        return APR_SUCCESS;
-    }
-
-    /* If insertion failed due to insufficient space, handle split */
-    if (status != APR_ENOSPC) {
-        return status;          /* Other error */
-    }
-
-    return handle_page_split(txn, leaf_page, path, path_len, &current_key, &current_data);
-}
-
-static apr_status_t handle_page_split(napr_db_txn_t *txn, DB_PageHeader *leaf_page, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, napr_db_val_t *current_data)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    DB_PageHeader *left_page = leaf_page;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
-    uint16_t index = 0;
-
-    status = db_split_leaf(txn, left_page, &right_page, &divider_key);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    apr_status_t search_status = db_page_search(left_page, current_key, &index);
-    if (search_status == APR_NOTFOUND && index >= left_page->num_keys) {
-        (void) db_page_search(right_page, current_key, &index);
-        status = db_page_insert(right_page, index, current_key, current_data, 0);
-    }
-    else {
-        status = db_page_insert(left_page, index, current_key, current_data, 0);
-    }
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    pgno_t right_child_pgno = right_page->pgno;
-    *current_key = divider_key;
-
-    status = propagate_split_up_tree(txn, path, path_len, current_key, &right_child_pgno);
-    if (status == APR_INCOMPLETE) {
-        return APR_SUCCESS;
-    }
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    return handle_root_split(txn, path[0], right_child_pgno, current_key);
-}
-
-static apr_status_t propagate_split_up_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, pgno_t *right_child_pgno)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
-    uint16_t index = 0;
-    int idx = 0;
-
-    for (idx = (int) path_len - 2; idx >= 0; idx--) {
-        pgno_t parent_pgno = path[idx];
-        DB_PageHeader *parent_page = apr_hash_get(txn->dirty_pages, &parent_pgno, sizeof(pgno_t));
-        if (!parent_page) {
-            return APR_EGENERAL;
-        }
-
-        (void) db_page_search(parent_page, current_key, &index);
-
-        status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
-        if (status == APR_SUCCESS) {
-            /* Successfully inserted into this parent - split absorbed, no root split needed */
-            return APR_INCOMPLETE;
-        }
-        if (status != APR_ENOSPC) {
-            return status;
-        }
-
-        status = db_split_branch(txn, parent_page, &right_page, &divider_key);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
-            status = db_page_insert(right_page, index, current_key, NULL, *right_child_pgno);
-        }
-        else {
-            status = db_page_insert(parent_page, index, current_key, NULL, *right_child_pgno);
-        }
-
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        *right_child_pgno = right_page->pgno;
-        *current_key = divider_key;
-    }
-
-    /* Exited loop - split propagated all the way to root, need new root */
-    return APR_SUCCESS;
-}
-
-static apr_status_t handle_root_split(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key)
-{
-    pgno_t new_root_pgno = 0;
-    DB_PageHeader *new_root = NULL;
-    DB_PageHeader *old_root_page = NULL;
-    napr_db_val_t left_min_key = { 0 };
-    apr_status_t status = APR_SUCCESS;
-
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
-
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_BRANCH;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    old_root_page = apr_hash_get(txn->dirty_pages, &old_root_pgno, sizeof(pgno_t));
-    if (!old_root_page) {
-        return APR_EGENERAL;
-    }
-
-    if (old_root_page->flags & P_BRANCH) {
-        DB_BranchNode *left_first_node = db_page_branch_node(old_root_page, 0);
-        left_min_key.data = db_branch_node_key(left_first_node);
-        left_min_key.size = left_first_node->key_size;
-    }
-    else {
-        DB_LeafNode *left_first_leaf = db_page_leaf_node(old_root_page, 0);
-        left_min_key.data = db_leaf_node_key(left_first_leaf);
-        left_min_key.size = left_first_leaf->key_size;
-    }
-
-    status = db_page_insert(new_root, 0, &left_min_key, NULL, old_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    status = db_page_insert(new_root, 1, divider_key, NULL, right_child_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
+    /* Refuse what no page can hold before touching anything */
+    if (key->size > DB_MAX_KEY_SIZE || data->size > PAGE_SIZE || key->size + data->size > PAGE_SIZE - sizeof(DB_PageHeader) - sizeof(DB_LeafNode) - sizeof(uint16_t)) {
+        return APR_ENOSPC;
     }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-
-    txn->root_pgno = new_root_pgno;
 
-    return APR_SUCCESS;
-}
-
-/**
- * @brief Propagate a split up the tree, updating an arbitrary tree root.
- *
- * This is similar to propagate_split_up_tree() but accepts a root output parameter
- * instead of modifying txn->root_pgno. Used for Free DB operations.
- *
- * @param txn Transaction handle
- * @param path Array of page numbers from root to leaf
- * @param path_len Length of the path
- * @param current_key Key to insert at parent level (may be updated during splits)
- * @param pgnos The page numbers to update.
- * @return APR_SUCCESS if split propagated to root, APR_INCOMPLETE if absorbed, error otherwise
- */
-static apr_status_t propagate_split_up_tree_in_tree(napr_db_txn_t *txn, const pgno_t *path, uint16_t path_len, napr_db_val_t *current_key, DB_SplitPgnos pgnos)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    DB_PageHeader *right_page = NULL;
-    napr_db_val_t divider_key = { 0 };
-    uint16_t index = 0;
-    int idx = 0;
-
-    for (idx = (int) path_len - 2; idx >= 0; idx--) {
-        pgno_t parent_pgno = path[idx];
-        DB_PageHeader *parent_page = apr_hash_get(txn->dirty_pages, &parent_pgno, sizeof(pgno_t));
-        if (!parent_page) {
-            return APR_EGENERAL;
-        }
-
-        (void) db_page_search(parent_page, current_key, &index);
-
-        status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
-        if (status == APR_SUCCESS) {
-            /* Successfully inserted into this parent - split absorbed, no root split needed */
-            return APR_INCOMPLETE;
-        }
-        if (status != APR_ENOSPC) {
-            return status;
-        }
-
-        status = db_split_branch(txn, parent_page, &right_page, &divider_key);
+    if (txn->root_pgno != 0) {
+        status = db_find_leaf_page_with_path(txn, key, path, &path_len, &leaf_page);
         if (status != APR_SUCCESS) {
             return status;
         }
 
-        apr_status_t search_status = db_page_search(parent_page, current_key, &index);
-        if (search_status == APR_NOTFOUND && index >= parent_page->num_keys) {
-            (void) db_page_search(right_page, current_key, &index);
-            status = db_page_insert(right_page, index, current_key, NULL, *pgnos.right_child_pgno);
-        }
-        else {
-            status = db_page_insert(parent_page, index, current_key, NULL, *pgnos.right_child_pgno);
-        }
-
-        if (status != APR_SUCCESS) {
-            return status;
+        /* If key exists, check if this is a same-transaction duplicate or an MVCC update.
+         * Same-transaction duplicate: Leaf page is already dirty -> reject with APR_EEXIST
+         * MVCC update: Leaf page is NOT dirty -> allow via CoW */
+        if (db_page_search(leaf_page, key, &index) == APR_SUCCESS && apr_hash_get(txn->dirty_pages, &path[path_len - 1], sizeof(pgno_t))) {
+            /* Same transaction - key already inserted, can't insert again */
+            return APR_EEXIST;
         }
-
-        *pgnos.right_child_pgno = right_page->pgno;
-        *current_key = divider_key;
-    }
-
-    /* Exited loop - split propagated all the way to root, need new root */
-    return APR_SUCCESS;
-}
-
-/**
- * @brief Handle root split for an arbitrary tree.
- *
- * This is similar to handle_root_split() but accepts a root output parameter
- * instead of modifying txn->root_pgno. Used for Free DB operations.
- *
- * @param txn Transaction handle
- * @param old_root_pgno Old root page number
- * @param right_child_pgno Right child page number from split
- * @param divider_key Key separating left and right children
- * @param new_root_out Output: New root page number
- * @return APR_SUCCESS on success, error code on failure
- */
-static apr_status_t handle_root_split_in_tree(napr_db_txn_t *txn, pgno_t old_root_pgno, pgno_t right_child_pgno, const napr_db_val_t *divider_key, pgno_t *new_root_out)
-{
-    pgno_t new_root_pgno = 0;
-    DB_PageHeader *new_root = NULL;
-    DB_PageHeader *old_root_page = NULL;
-    napr_db_val_t left_min_key = { 0 };
-    apr_status_t status = APR_SUCCESS;
-
-    status = db_page_alloc(txn, 1, &new_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
     }
 
-    new_root = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!new_root) {
-        return APR_ENOMEM;
-    }
-
-    new_root->pgno = new_root_pgno;
-    new_root->flags = P_BRANCH;
-    new_root->num_keys = 0;
-    new_root->lower = sizeof(DB_PageHeader);
-    new_root->upper = PAGE_SIZE;
-
-    old_root_page = apr_hash_get(txn->dirty_pages, &old_root_pgno, sizeof(pgno_t));
-    if (!old_root_page) {
-        return APR_EGENERAL;
-    }
-
-    if (old_root_page->flags & P_BRANCH) {
-        DB_BranchNode *left_first_node = db_page_branch_node(old_root_page, 0);
-        left_min_key.data = db_branch_node_key(left_first_node);
-        left_min_key.size = left_first_node->key_size;
-    }
-    else {
-        DB_LeafNode *left_first_leaf = db_page_leaf_node(old_root_page, 0);
-        left_min_key.data = db_leaf_node_key(left_first_leaf);
-        left_min_key.size = left_first_leaf->key_size;
-    }
-
-    status = db_page_insert(new_root, 0, &left_min_key, NULL, old_root_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    status = db_page_insert(new_root, 1, divider_key, NULL, right_child_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    pgno_t *pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = new_root_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), new_root);
-
-    /* Update output parameter instead of txn->root_pgno */
-    *new_root_out = new_root_pgno;
-
-    return APR_SUCCESS;
+    return tree_put(txn, &txn->root_pgno, key, data);
 }
 
 /**
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 2693387..85a899c 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -42,13 +42,6 @@ typedef struct DB_CommitPgnos
     pgno_t new_free_db_root_pgno;   /**< New root page number for Free DB */
 } DB_CommitPgnos;
 
-/** @brief Structure for passing page numbers to propagate_split_up_tree_in_tree */
-typedef struct DB_SplitPgnos
-{
-    pgno_t *right_child_pgno;   /**< Right child page number */
-    pgno_t *new_root_out;       /**< New root page number */
-} DB_SplitPgnos;
-
 /*
  * MVCC Reader Tracking
  */
@@ -117,6 +110,9 @@ typedef struct DB_ReaderSlot
 #define DB_LEAFNODE_DATA_SIZE_OFFSET 2
 #define DB_LEAFNODE_KV_DATA_OFFSET 4
 
+/* Largest key: two branch nodes with such keys fit in one page, so that a full branch page can always be split */
+#define DB_MAX_KEY_SIZE ((PAGE_SIZE - DB_PAGEHEADER_SIZE) / 2 - DB_BRANCHNODE_BASE_SIZE - sizeof(uint16_t))
+
 /* Freed Pages default array size  */
 #define DB_FREED_PAGES_DFLT_SIZE 16
 
@@ -589,6 +585,12 @@ apr_status_t db_page_delete(DB_PageHeader *page, uint16_t index);
 apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out);
 apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out);
 
+/** Choose the split point of a page that lacks the room for a new node */
+uint16_t db_choose_split_point(DB_PageHeader *page, uint16_t index, size_t node_size);
+
+/** Move the entries from split_point onwards to a new right sibling */
+apr_status_t db_split_page(napr_db_txn_t *txn, DB_PageHeader *left_page, uint16_t split_point, DB_PageHeader **right_page_out);
+
 /**
  * @brief Get the oldest active reader TXNID from the reader tracking table.
  *
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 89865aa..33a0fa8 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -22,7 +22,7 @@
  * @param key2_size Size of second key
  * @return <0 if key1 < key2, 0 if equal, >0 if key1 > key2
  */
-static int db_key_compare(const uint8_t *key1_data, uint16_t key1_size, const uint8_t *key2_data, uint16_t key2_size)
+static int db_key_compare(const uint8_t *key1_data, size_t key1_size, const uint8_t *key2_data, size_t key2_size)
 {
     /* Compare the common length */
     size_t min_size = (key1_size < key2_size) ? key1_size : key2_size;
@@ -91,13 +91,13 @@ apr_status_t db_page_search(DB_PageHeader *page, const napr_db_val_t *key, uint1
             /* Branch page */
             DB_BranchNode *node = db_page_branch_node(page, mid);
             uint8_t *node_key = db_branch_node_key(node);
-            cmp = db_key_compare(key->data, (uint16_t) key->size, node_key, node->key_size);
+            cmp = db_key_compare(key->data, key->size, node_key, node->key_size);
         }
         else if (page->flags & P_LEAF) {
             /* Leaf page */
             DB_LeafNode *node = db_page_leaf_node(page, mid);
             uint8_t *node_key = db_leaf_node_key(node);
-            cmp = db_key_compare(key->data, (uint16_t) key->size, node_key, node->key_size);
+            cmp = db_key_compare(key->data, key->size, node_key, node->key_size);
         }
         else {
             /* Invalid page type */
@@ -398,8 +398,8 @@ apr_status_t db_page_get_writable(napr_db_txn_t *txn, DB_PageHeader *original_pa
 apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_val_t *key, const napr_db_val_t *data, pgno_t child_pgno)
 {
     uint16_t *slots = NULL;
-    uint16_t node_size = 0;
-    uint16_t free_space = 0;
+    size_t node_size = 0;
+    size_t free_space = 0;
     uint16_t new_offset = 0;
     uint16_t idx = 0;
 
@@ -413,11 +413,11 @@ apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_v
         if (!data) {
             return APR_EINVAL;
         }
-        node_size = (uint16_t) (sizeof(DB_LeafNode) + key->size + data->size);
+        node_size = sizeof(DB_LeafNode) + key->size + data->size;
     }
     else if (page->flags & P_BRANCH) {
         /* Branch node: DB_BranchNode + key */
-        node_size = (uint16_t) (sizeof(DB_BranchNode) + key->size);
+        node_size = sizeof(DB_BranchNode) + key->size;
     }
     else {
         return APR_EINVAL;
@@ -438,7 +438,7 @@ apr_status_t db_page_insert(DB_PageHeader *page, uint16_t index, const napr_db_v
     }
 
     /* Allocate space for new node (grows downward from upper) */
-    new_offset = page->upper - node_size;
+    new_offset = (uint16_t) (page->upper - node_size);
 
     /* Create the new node */
     if (page->flags & P_LEAF) {
@@ -535,38 +535,83 @@ apr_status_t db_page_delete(DB_PageHeader *page, uint16_t index)
 }
 
 /**
- * @brief Split a leaf page when it becomes full.
+ * @brief Size in bytes of the node at an index of a page, without its slot.
+ */
+static size_t db_node_size(DB_PageHeader *page, uint16_t index)
+{
+    if (page->flags & P_LEAF) {
+        DB_LeafNode *node = db_page_leaf_node(page, index);
+        return sizeof(DB_LeafNode) + node->key_size + node->data_size;
+    }
+    return sizeof(DB_BranchNode) + db_page_branch_node(page, index)->key_size;
+}
+
+/**
+ * @brief Choose where to split a page that lacks the room for a new node.
  *
- * This function implements the B+ tree leaf split operation:
- * 1. Allocate a new page for the right sibling
- * 2. Find the split point (median)
- * 3. Move upper half of entries to the new page
- * 4. Update both page headers
- * 5. Return the divider key (first key of right page)
+ * Entries before the returned split point stay on the left page. The new node belongs to the left page when its
+ * index is not above the split point, except that a node appended behind the last entry (split point = number of
+ * entries) gets the right page for itself.
+ *
+ * @param page The full page
+ * @param index Index at which the new node belongs
+ * @param node_size Size of the new node, without its slot
+ * @return The most balanced split point that leaves enough room for the new node; index when there is none (a
+ *         second split will then make room).
+ */
+uint16_t db_choose_split_point(DB_PageHeader *page, uint16_t index, size_t node_size)
+{
+    const size_t capacity = PAGE_SIZE - sizeof(DB_PageHeader);
+    size_t total = node_size + sizeof(uint16_t);
+    size_t moved = 0;
+    size_t best_diff = SIZE_MAX;
+    uint16_t best = index;
+
+    for (uint16_t idx = 0; idx < page->num_keys; idx++) {
+        total += db_node_size(page, idx) + sizeof(uint16_t);
+    }
+
+    for (uint16_t point = 0; point <= page->num_keys; point++) {
+        int append = (point == page->num_keys);
+        int new_goes_left = !append && (index <= point);
+        size_t left = moved + (new_goes_left ? node_size + sizeof(uint16_t) : 0);
+        size_t right = total - left;
+        size_t diff = (left > right) ? left - right : right - left;
+
+        if ((!append || index == point) && left > 0 && left <= capacity && right <= capacity && diff < best_diff) {
+            best = point;
+            best_diff = diff;
+        }
+        if (!append) {
+            moved += db_node_size(page, point) + sizeof(uint16_t);
+        }
+    }
+
+    return best;
+}
+
+/**
+ * @brief Move the entries of a page from split_point onwards to a new right sibling.
+ *
+ * The left page is compacted, so that the space of the moved entries becomes available.
  *
  * @param txn Write transaction handle
- * @param left_page The original full page (modified in-place)
+ * @param left_page The page to split (modified in-place)
+ * @param split_point Index of the first entry to move, up to the number of entries
  * @param right_page_out Output: newly allocated right sibling page
- * @param divider_key_out Output: divider key for parent insertion
  * @return APR_SUCCESS on success, error code on failure
  */
-apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out)
+apr_status_t db_split_page(napr_db_txn_t *txn, DB_PageHeader *left_page, uint16_t split_point, DB_PageHeader **right_page_out)
 {
     apr_status_t status = APR_SUCCESS;
     DB_PageHeader *right_page = NULL;
+    DB_PageHeader *dest_page = NULL;
     pgno_t right_pgno = 0;
     pgno_t *pgno_key = NULL;
-    uint16_t split_point = 0;
-    uint16_t idx = 0;
-    uint16_t *right_slots = NULL;
-    DB_LeafNode *first_right_node = NULL;
-
-    if (!txn || !left_page || !right_page_out || !divider_key_out) {
-        return APR_EINVAL;
-    }
+    uint8_t source[PAGE_SIZE];
+    DB_PageHeader *source_page = (DB_PageHeader *) source;
 
-    /* Verify this is a leaf page */
-    if (!(left_page->flags & P_LEAF)) {
+    if (!txn || !left_page || !right_page_out || split_point > left_page->num_keys) {
         return APR_EINVAL;
     }
 
@@ -581,243 +626,95 @@ apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Page
         return status;
     }
 
-    /* Allocate memory for the right page */
     right_page = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!right_page) {
+    pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
+    if (!right_page || !pgno_key) {
         return APR_ENOMEM;
     }
 
-    /* Initialize the right page header */
     right_page->pgno = right_pgno;
-    right_page->flags = P_LEAF;
-    right_page->num_keys = 0;
+    right_page->flags = left_page->flags;
     right_page->lower = sizeof(DB_PageHeader);
     right_page->upper = PAGE_SIZE;
-    right_page->padding = 0;
-
-    /* Determine split point (median) */
-    split_point = left_page->num_keys / 2;
 
-    /* Get right page slot array */
-    right_slots = db_page_slots(right_page);
+    /* Distribute the entries of a copy of the page, so that both pages end up compact */
+    memcpy(source, left_page, PAGE_SIZE);
+    left_page->num_keys = 0;
+    left_page->lower = sizeof(DB_PageHeader);
+    left_page->upper = PAGE_SIZE;
 
-    /* Move entries from split_point onwards to the right page */
-    for (idx = split_point; idx < left_page->num_keys; idx++) {
-        DB_LeafNode *src_node = db_page_leaf_node(left_page, idx);
-        uint16_t node_size = sizeof(DB_LeafNode) + src_node->key_size + src_node->data_size;
-        uint16_t new_offset = 0;
-        DB_LeafNode *dest_node = NULL;
-        uint16_t right_idx = idx - split_point;
+    for (uint16_t idx = 0; idx < source_page->num_keys; idx++) {
+        size_t node_size = db_node_size(source_page, idx);
 
-        /* Allocate space in right page (grows downward from upper) */
-        new_offset = right_page->upper - node_size;
-        dest_node = (DB_LeafNode *) ((char *) right_page + new_offset);
-
-        /* Copy the node */
-        memcpy(dest_node, src_node, node_size);
-
-        /* Update right page slot array */
-        right_slots[right_idx] = new_offset;
-
-        /* Update right page header */
-        right_page->num_keys++;
-        right_page->lower += sizeof(uint16_t);
-        right_page->upper = new_offset;
-    }
-
-    /* Update left page header to reflect the reduced number of keys */
-    left_page->num_keys = split_point;
-    left_page->lower = sizeof(DB_PageHeader) + (split_point * sizeof(uint16_t));
-
-    /* CRITICAL BUG FIX: Recalculate upper pointer to reflect only remaining entries
-     * After moving entries [split_point..end] to right page, their data is still
-     * in left page's data area. We need to find the minimum offset among entries
-     * [0..split_point-1] to reclaim that space.
-     */
-    {
-        uint16_t *left_slots = db_page_slots(left_page);
-        uint16_t min_offset = PAGE_SIZE;
-        for (uint16_t i = 0; i < split_point; i++) {
-            uint16_t offset = left_slots[i];
-            if (offset < min_offset) {
-                min_offset = offset;
-            }
-        }
-        left_page->upper = min_offset;
+        dest_page = (idx < split_point) ? left_page : right_page;
+        dest_page->upper = (uint16_t) (dest_page->upper - node_size);
+        memcpy((char *) dest_page + dest_page->upper, source + db_page_slot_offset(source_page, idx), node_size);
+        db_page_slots(dest_page)[dest_page->num_keys] = dest_page->upper;
+        dest_page->num_keys++;
+        dest_page->lower += sizeof(uint16_t);
     }
 
     /* Store the right page in dirty pages hash */
-    pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
     *pgno_key = right_pgno;
     apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), right_page);
 
-    /* Set divider key (first key of right page) */
-    first_right_node = db_page_leaf_node(right_page, 0);
-    divider_key_out->data = db_leaf_node_key(first_right_node);
-    divider_key_out->size = first_right_node->key_size;
-
-    /* Return the right page */
     *right_page_out = right_page;
-
     return APR_SUCCESS;
 }
 
 /**
- * @brief Split a branch page when it becomes full.
- *
- * This function implements the B+ tree branch split operation:
- * 1. Allocate a new page for the right sibling
- * 2. Find the split point (median)
- * 3. Move upper half of entries to the new page
- * 4. CRITICAL: The divider key is "pushed up" to the parent, NOT copied to right page
- * 5. Update both page headers
+ * @brief Split a leaf page in the middle.
  *
  * @param txn Write transaction handle
  * @param left_page The original full page (modified in-place)
  * @param right_page_out Output: newly allocated right sibling page
- * @param divider_key_out Output: divider key for parent insertion (pushed up)
+ * @param divider_key_out Output: divider key for parent insertion (first key of the right page)
  * @return APR_SUCCESS on success, error code on failure
  */
-apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out)
+apr_status_t db_split_leaf(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out)
 {
     apr_status_t status = APR_SUCCESS;
-    DB_PageHeader *right_page = NULL;
-    pgno_t right_pgno = 0;
-    pgno_t *pgno_key = NULL;
-    uint16_t split_point = 0;
-    uint16_t idx = 0;
-    uint16_t *right_slots = NULL;
-    DB_BranchNode *divider_node = NULL;
-
-    if (!txn || !left_page || !right_page_out || !divider_key_out) {
-        return APR_EINVAL;
-    }
-
-    /* Verify this is a branch page */
-    if (!(left_page->flags & P_BRANCH)) {
-        return APR_EINVAL;
-    }
 
-    /* Verify this is a write transaction */
-    if (txn->flags & NAPR_DB_RDONLY) {
+    if (!left_page || !right_page_out || !divider_key_out || !(left_page->flags & P_LEAF) || left_page->num_keys == 0) {
         return APR_EINVAL;
     }
 
-    /* Allocate a new page for the right sibling */
-    status = db_page_alloc(txn, 1, &right_pgno);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    /* Allocate memory for the right page */
-    right_page = apr_pcalloc(txn->pool, PAGE_SIZE);
-    if (!right_page) {
-        return APR_ENOMEM;
+    status = db_split_page(txn, left_page, left_page->num_keys / 2, right_page_out);
+    if (status == APR_SUCCESS) {
+        DB_LeafNode *first_right_node = db_page_leaf_node(*right_page_out, 0);
+        divider_key_out->data = db_leaf_node_key(first_right_node);
+        divider_key_out->size = first_right_node->key_size;
     }
+    return status;
+}
 
-    /* Initialize the right page header */
-    right_page->pgno = right_pgno;
-    right_page->flags = P_BRANCH;
-    right_page->num_keys = 0;
-    right_page->lower = sizeof(DB_PageHeader);
-    right_page->upper = PAGE_SIZE;
-    right_page->padding = 0;
-
-    /* Determine split point (median) */
-    split_point = left_page->num_keys / 2;
-
-    /* Get right page slot array */
-    right_slots = db_page_slots(right_page);
-
-    /* Move entries from split_point onwards to the right page
-     * CRITICAL: In a B+ tree with "minimum key" semantics, we must preserve
-     * all child pointers. The entry at split_point is included in the RIGHT page.
-     * Its key will also be used as the divider pushed to the parent.
-     */
-    for (idx = split_point; idx < left_page->num_keys; idx++) {
-        DB_BranchNode *src_node = db_page_branch_node(left_page, idx);
-        uint16_t node_size = sizeof(DB_BranchNode) + src_node->key_size;
-        uint16_t new_offset = 0;
-        DB_BranchNode *dest_node = NULL;
-        uint16_t right_idx = idx - split_point;
-
-        /* Allocate space in right page (grows downward from upper) */
-        new_offset = right_page->upper - node_size;
-        dest_node = (DB_BranchNode *) ((char *) right_page + new_offset);
-
-        /* Copy the node */
-        memcpy(dest_node, src_node, node_size);
-
-        /* Update right page slot array */
-        right_slots[right_idx] = new_offset;
-
-        /* Update right page header */
-        right_page->num_keys++;
-        right_page->lower += sizeof(uint16_t);
-        right_page->upper = new_offset;
-    }
-
-    /* Update left page header to reflect the reduced number of keys
-     * CRITICAL: For B+tree branches with "minimum key" semantics:
-     * - Left page gets entries [0..split_point-1]
-     * - Right page gets entries [split_point+1..end]
-     * - Entry at split_point is NOT in either page - its key becomes the divider,
-     *   and its child pointer is LOST (which is the bug!)
-     *
-     * TODO: Fix this properly by including split_point in one of the pages
-     */
-    left_page->num_keys = split_point;
-    left_page->lower = sizeof(DB_PageHeader) + (split_point * sizeof(uint16_t));
+/**
+ * @brief Split a branch page in the middle.
+ *
+ * Each entry holds a lower bound of the keys below its child: all child pointers are preserved, and the first key of
+ * the right page is also the divider for the parent.
+ *
+ * @param txn Write transaction handle
+ * @param left_page The original full page (modified in-place)
+ * @param right_page_out Output: newly allocated right sibling page
+ * @param divider_key_out Output: divider key for parent insertion
+ * @return APR_SUCCESS on success, error code on failure
+ */
+apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_PageHeader **right_page_out, napr_db_val_t *divider_key_out)
+{
+    apr_status_t status = APR_SUCCESS;
 
-    /* CRITICAL BUG FIX: Recalculate upper pointer to reflect only remaining entries
-     * After moving entries [split_point..end] to right page, their data is still
-     * in left page's data area. We need to find the minimum offset among entries
-     * [0..split_point-1] to reclaim that space.
-     */
-    if (split_point > 0) {
-        uint16_t *left_slots = db_page_slots(left_page);
-        uint16_t min_offset = PAGE_SIZE;
-        for (uint16_t i = 0; i < split_point; i++) {
-            uint16_t offset = left_slots[i];
-            if (offset < min_offset) {
-                min_offset = offset;
-            }
-        }
-        left_page->upper = min_offset;
-    }
-    else {
-        /* Edge case: all entries moved to right */
-        left_page->upper = PAGE_SIZE;
+    if (!left_page || !right_page_out || !divider_key_out || !(left_page->flags & P_BRANCH) || left_page->num_keys == 0) {
+        return APR_EINVAL;
     }
 
-    /* Set divider key = minimum key of right page (right[0].key)
-     * This will be pushed up to the parent to guide searches.
-     */
-    if (right_page->num_keys > 0) {
-        divider_node = db_page_branch_node(right_page, 0);
+    status = db_split_page(txn, left_page, left_page->num_keys / 2, right_page_out);
+    if (status == APR_SUCCESS) {
+        DB_BranchNode *divider_node = db_page_branch_node(*right_page_out, 0);
         divider_key_out->data = db_branch_node_key(divider_node);
         divider_key_out->size = divider_node->key_size;
     }
-    else {
-        /* This shouldn't happen in a proper split, but handle it */
-        return APR_EGENERAL;
-    }
-
-    /* Store the right page in dirty pages hash */
-    pgno_key = apr_palloc(txn->pool, sizeof(pgno_t));
-    if (!pgno_key) {
-        return APR_ENOMEM;
-    }
-    *pgno_key = right_pgno;
-    apr_hash_set(txn->dirty_pages, pgno_key, sizeof(pgno_t), right_page);
-
-    /* Return the right page */
-    *right_page_out = right_page;
-
-    return APR_SUCCESS;
+    return status;
 }
 
 /**
-- 
2.43.0


From a13f242dc3907828de60181b6160c5a3a5ed2e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:45 +0000
Subject: [PATCH 30/49] fix: update a key whatever else its page went through

A put of a stored key was refused with APR_EEXIST whenever another change of the
same transaction had touched its page. Refuse only what this transaction itself
inserted; the cache, which promises to insert or update, replaces that too.
---
 src/napr_cache.c | 11 ++++++++++-
 src/napr_db.c    | 28 +++++++++++-----------------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/napr_cache.c b/src/napr_cache.c
index 0ad38c8..f729169 100644
--- a/src/napr_cache.c
+++ b/src/napr_cache.c
@@ -332,6 +332,7 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
 {
     napr_db_val_t key;
     napr_db_val_t value;
+    apr_status_t status = APR_SUCCESS;
 
     if (!cache || !path || !entry) {
         return APR_EINVAL;
@@ -350,7 +351,15 @@ apr_status_t napr_cache_upsert_in_txn(napr_cache_t *cache, const char *path, con
     value.size = sizeof(napr_cache_entry_t);
 
     /* Insert or update in database */
-    return napr_db_put(cache->active_txn, &key, &value);
+    status = napr_db_put(cache->active_txn, &key, &value);
+    if (status == APR_EEXIST) {
+        /* Inserted earlier in this transaction: replace */
+        status = napr_db_del(cache->active_txn, &key, NULL);
+        if (status == APR_SUCCESS) {
+            status = napr_db_put(cache->active_txn, &key, &value);
+        }
+    }
+    return status;
 }
 
 /* ========================================================================
diff --git a/src/napr_db.c b/src/napr_db.c
index 001ec8d..e8b3c12 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1492,15 +1492,12 @@ apr_status_t napr_db_get(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
  * @param txn Write transaction handle
  * @param key Key to insert
  * @param data Value to insert
- * @return APR_SUCCESS on success, APR_EEXIST if key exists, error code on failure
+ * @return APR_SUCCESS on success, APR_EEXIST if this transaction inserted the key, error code on failure
  */
 apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
 {
-    pgno_t path[MAX_TREE_DEPTH] = { 0 };
-    uint16_t path_len = 0;
-    DB_PageHeader *leaf_page = NULL;
-    uint16_t index = 0;
-    apr_status_t status = APR_SUCCESS;
+    napr_db_txn_t snapshot;
+    napr_db_val_t found = { 0 };
 
     /* Validate inputs */
     if (!txn || !key || !data) {
@@ -1517,17 +1514,14 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         return APR_ENOSPC;
     }
 
-    if (txn->root_pgno != 0) {
-        status = db_find_leaf_page_with_path(txn, key, path, &path_len, &leaf_page);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-
-        /* If key exists, check if this is a same-transaction duplicate or an MVCC update.
-         * Same-transaction duplicate: Leaf page is already dirty -> reject with APR_EEXIST
-         * MVCC update: Leaf page is NOT dirty -> allow via CoW */
-        if (db_page_search(leaf_page, key, &index) == APR_SUCCESS && apr_hash_get(txn->dirty_pages, &path[path_len - 1], sizeof(pgno_t))) {
-            /* Same transaction - key already inserted, can't insert again */
+    /* If key exists, check if this is a same-transaction duplicate or an MVCC update.
+     * Same-transaction duplicate: the key is not in the snapshot of this transaction -> reject with APR_EEXIST
+     * MVCC update: the key is in the snapshot -> allow via CoW */
+    if (napr_db_get(txn, key, &found) == APR_SUCCESS) {
+        snapshot = *txn;
+        snapshot.flags |= NAPR_DB_RDONLY;
+        snapshot.root_pgno = txn->env->live_meta->root;
+        if (napr_db_get(&snapshot, key, &found) != APR_SUCCESS) {
             return APR_EEXIST;
         }
     }
-- 
2.43.0


From b2dd41ed96032eb7bdad21c5edf3ce62c2455d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:46 +0000
Subject: [PATCH 31/49] fix: delete a key with a value only if the value
 matches

napr_db.h documents it, but the value was ignored.
---
 src/napr_db.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index e8b3c12..cc5c090 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1543,7 +1543,7 @@ apr_status_t napr_db_put(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
  *
  * @param txn Write transaction handle
  * @param key Key to delete
- * @param data Currently unused (reserved for conditional delete)
+ * @param data If not NULL, delete only if the value matches
  * @return APR_SUCCESS on success, APR_NOTFOUND if key doesn't exist, error otherwise
  */
 apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_val_t *data)
@@ -1554,8 +1554,6 @@ apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
     uint16_t index = 0;
     apr_status_t status = APR_SUCCESS;
 
-    (void) data;                /* Reserved for future use (conditional delete) */
-
     if (!txn || !key || (txn->flags & NAPR_DB_RDONLY)) {
         return APR_EINVAL;
     }
@@ -1577,6 +1575,13 @@ apr_status_t napr_db_del(napr_db_txn_t *txn, const napr_db_val_t *key, napr_db_v
         return APR_NOTFOUND;
     }
 
+    if (data) {
+        DB_LeafNode *node = db_page_leaf_node(leaf_page, index);
+        if (node->data_size != data->size || memcmp(db_leaf_node_value(node), data->data, data->size) != 0) {
+            return APR_NOTFOUND;
+        }
+    }
+
     /* CoW: Make dirty copies of all pages in the path */
     for (int idx = (int)path_len - 1; idx >= 0; idx--) {
         pgno_t current_pgno = path[idx];
-- 
2.43.0


From cab40f6f3f90cfa7af24c30d8b92da8533ac4d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:16 +0000
Subject: [PATCH 32/49] fix: let cursors pass pages emptied by deletions

A leaf emptied by deletions ended an iteration early, and NAPR_DB_SET_RANGE gave
up at the end of a page although the next key was on the following one. A cursor
that failed to find a key stayed on an unrelated one.
---
 src/napr_db_cursor.c | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/napr_db_cursor.c b/src/napr_db_cursor.c
index 1c31956..c2819c3 100644
--- a/src/napr_db_cursor.c
+++ b/src/napr_db_cursor.c
@@ -165,16 +165,13 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
     case NAPR_DB_SET:
         status = db_page_search(page, key, &index);
         if (status != APR_SUCCESS) {
+            cursor->eof = 1;
             return status;
         }
         break;
     case NAPR_DB_SET_RANGE:
         status = db_page_search(page, key, &index);
         /* If exact match or insertion point is found, it's valid */
-        if (index >= page->num_keys) {
-            /* TODO: Handle NEXT logic to find next page */
-            return APR_NOTFOUND;
-        }
         break;
     case NAPR_DB_NEXT:
     case NAPR_DB_PREV:
@@ -183,12 +180,13 @@ static apr_status_t db_cursor_seek(napr_db_cursor_t *cursor, const napr_db_val_t
         return APR_EINVAL;
     }
 
-    if (page->num_keys == 0) {
-        cursor->eof = 1;
-        return APR_NOTFOUND;
+    cursor->stack[cursor->top - 1].index = index;
+
+    if (index >= page->num_keys) {
+        /* Nothing here (or the page was emptied by deletions): the key wanted is on a neighbour page */
+        return (operation == NAPR_DB_LAST) ? db_cursor_prev(cursor) : db_cursor_next(cursor);
     }
 
-    cursor->stack[cursor->top - 1].index = index;
     return APR_SUCCESS;
 }
 
@@ -264,12 +262,11 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
                 }
 
                 if (page->flags & P_LEAF) {
-                    /* Reached leaf - push it with index 0 */
-                    cursor_push(cursor, page, 0);
                     if (page->num_keys == 0) {
-                        cursor->eof = 1;
-                        return APR_NOTFOUND;
+                        break;  /* Emptied by deletions - go on with its next sibling */
                     }
+                    /* Reached leaf - push it with index 0 */
+                    cursor_push(cursor, page, 0);
                     return APR_SUCCESS;
                 }
 
@@ -277,6 +274,7 @@ static apr_status_t db_cursor_next(napr_db_cursor_t *cursor)
                 cursor_push(cursor, page, 0);
                 child_pgno = db_page_branch_node(page, 0)->pgno;
             }
+            continue;
         }
 
         /* This parent also exhausted - ascend further */
@@ -317,19 +315,15 @@ static apr_status_t descend_rightmost(napr_db_cursor_t *cursor, pgno_t pgno)
             return APR_EGENERAL;
         }
 
+        if (page->num_keys == 0) {
+            return APR_NOTFOUND;        /* Emptied by deletions */
+        }
+
         if (page->flags & P_LEAF) {
-            if (page->num_keys == 0) {
-                cursor->eof = 1;
-                return APR_NOTFOUND;
-            }
             cursor_push(cursor, page, page->num_keys - 1);
             return APR_SUCCESS;
         }
 
-        if (page->num_keys == 0) {
-            cursor->eof = 1;
-            return APR_NOTFOUND;
-        }
         cursor_push(cursor, page, page->num_keys - 1);
         pgno = db_page_branch_node(page, page->num_keys - 1)->pgno;
     }
@@ -339,6 +333,7 @@ static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
 {
     DB_PageHeader *page = NULL;
     uint16_t index = 0;
+    apr_status_t status = APR_SUCCESS;
 
     if (!cursor || cursor->top == 0 || cursor->eof) {
         return APR_NOTFOUND;
@@ -366,7 +361,11 @@ static apr_status_t db_cursor_prev(napr_db_cursor_t *cursor)
         if (index > 0) {
             index--;
             cursor->stack[cursor->top - 1].index = index;
-            return descend_rightmost(cursor, db_page_branch_node(page, index)->pgno);
+            status = descend_rightmost(cursor, db_page_branch_node(page, index)->pgno);
+            if (status != APR_NOTFOUND) {
+                return status;
+            }
+            continue;           /* Go on with the previous sibling of the empty page */
         }
 
         cursor->top--;
-- 
2.43.0


From 91774e072bd2d511933c29c732068572de6469b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:08 +0000
Subject: [PATCH 33/49] fix: write changed pages to fresh locations

Commit overwrote the changed pages in place. Readers saw the changes in the
middle of their snapshot, a crash during a commit mixed two states, and the pages
recorded as free were in use. Give every copied page a new location, reuse pages
through a list kept by the transaction, and take reclaimed entries out of the
Free DB.
---
 src/napr_db.c          | 375 +++++++++++++++++++++++++----------------
 src/napr_db_internal.h |  10 ++
 src/napr_db_tree.c     |   2 +-
 3 files changed, 243 insertions(+), 144 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index cc5c090..dd92ec6 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -557,7 +557,8 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
 
         /* Create array for tracking freed pages */
         txn_handle->freed_pages = apr_array_make(txn_pool, DB_FREED_PAGES_DFLT_SIZE, sizeof(pgno_t));
-        if (!txn_handle->freed_pages) {
+        txn_handle->reclaimed_pages = apr_array_make(txn_pool, DB_FREED_PAGES_DFLT_SIZE, sizeof(pgno_t));
+        if (!txn_handle->freed_pages || !txn_handle->reclaimed_pages) {
             db_writer_unlock(env);
             apr_pool_destroy(txn_pool);
             return APR_ENOMEM;
@@ -659,17 +660,25 @@ static apr_status_t build_pgno_map(napr_db_txn_t *txn, apr_hash_t **pgno_map_ptr
  * @brief Update pointers in dirty pages to point to new page locations.
  * @param txn The transaction.
  * @param pgno_map The mapping from old to new page numbers.
- * @param new_root_pgno_ptr Pointer to store the new root page number.
+ * @param pgnos Output: the new root page numbers of both trees.
  */
-static void update_dirty_page_pointers(napr_db_txn_t *txn, apr_hash_t *pgno_map, pgno_t *new_root_pgno_ptr)
+static void update_dirty_page_pointers(napr_db_txn_t *txn, apr_hash_t *pgno_map, DB_CommitPgnos *pgnos)
 {
     apr_hash_index_t *h_index = NULL;
     pgno_t *mapped_root = apr_hash_get(pgno_map, &txn->root_pgno, sizeof(pgno_t));
     if (mapped_root) {
-        *new_root_pgno_ptr = *mapped_root;
+        pgnos->new_root_pgno = *mapped_root;
     }
     else {
-        *new_root_pgno_ptr = txn->root_pgno;
+        pgnos->new_root_pgno = txn->root_pgno;
+    }
+
+    mapped_root = apr_hash_get(pgno_map, &txn->free_db_root_pgno, sizeof(pgno_t));
+    if (mapped_root) {
+        pgnos->new_free_db_root_pgno = *mapped_root;
+    }
+    else {
+        pgnos->new_free_db_root_pgno = txn->free_db_root_pgno;
     }
 
     for (h_index = apr_hash_first(txn->pool, txn->dirty_pages); h_index; h_index = apr_hash_next(h_index)) {
@@ -1021,42 +1030,235 @@ static apr_status_t tree_put(napr_db_txn_t *txn, pgno_t *root, const napr_db_val
 }
 
 /**
- * @brief Populate the Free DB with freed pages from this transaction.
- *
- * This function inserts an entry into the Free DB mapping:
- * Key = current TXNID, Value = array of freed pgno_t values.
+ * @brief Delete an entry of the Free DB.
+ * @param txn The write transaction
+ * @param key Key of the entry
+ * @return APR_SUCCESS, APR_NOTFOUND or an error code
+ */
+static apr_status_t delete_from_free_db(napr_db_txn_t *txn, const napr_db_val_t *key)
+{
+    apr_status_t status = APR_SUCCESS;
+    pgno_t saved_root = txn->root_pgno;
+
+    txn->root_pgno = txn->free_db_root_pgno;
+    status = napr_db_del(txn, key, NULL);
+    txn->root_pgno = saved_root;
+
+    return status;
+}
+
+/**
+ * @brief Take pages from the Free DB based on MVCC safety rules.
  *
- * The Free DB is a separate B+ tree that tracks which pages were freed
- * by which transaction. This enables safe page reclamation based on
- * the oldest active reader.
+ * This function searches the Free DB for entries with TXNID older than the
+ * oldest active reader, and moves them to the reclaimed pages of the transaction.
  *
  * @param txn The write transaction
- * @param new_free_db_root_out Output: the new Free DB root page number
+ * @param wanted Number of reclaimed pages after which to stop
+ * @param entry_minimum Leave out entries with fewer pages than this
+ * @param minimum Take nothing when there are fewer pages than this
  * @return APR_SUCCESS or an error code
  */
-static apr_status_t populate_free_db(napr_db_txn_t *txn, pgno_t *new_free_db_root_out)
+static apr_status_t reclaim_pages(napr_db_txn_t *txn, int wanted, apr_size_t entry_minimum, int minimum)
 {
+    apr_status_t status = APR_SUCCESS;
+    apr_array_header_t *pages = NULL;
+    apr_array_header_t *keys = NULL;
+    napr_db_cursor_t *cursor = NULL;
     napr_db_val_t key = { 0 };
     napr_db_val_t data = { 0 };
-    txnid_t txnid_key = 0;
+    txnid_t oldest_reader_txnid = 0;
+    pgno_t saved_root = txn->root_pgno;
 
-    if (!txn || !new_free_db_root_out) {
-        return APR_EINVAL;
+    if (txn->free_db_root_pgno == 0) {
+        return APR_SUCCESS;
+    }
+
+    status = db_get_oldest_reader_txnid(txn->env, &oldest_reader_txnid);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+    if (oldest_reader_txnid == 0) {
+        oldest_reader_txnid = txn->txnid;
+    }
+
+    pages = apr_array_copy(txn->pool, txn->reclaimed_pages);
+    keys = apr_array_make(txn->pool, DB_FREED_PAGES_DFLT_SIZE, sizeof(napr_db_val_t));
+
+    txn->root_pgno = txn->free_db_root_pgno;
+    status = napr_db_cursor_open(txn, &cursor);
+    if (status == APR_SUCCESS) {
+        status = napr_db_cursor_get(cursor, &key, &data, NAPR_DB_FIRST);
+        while (status == APR_SUCCESS && pages->nelts < wanted) {
+            txnid_t entry_txnid = txn->txnid;
+
+            if (key.size >= sizeof(txnid_t)) {
+                memcpy(&entry_txnid, key.data, sizeof(txnid_t));
+            }
+            if (entry_txnid < oldest_reader_txnid && data.size % sizeof(pgno_t) == 0 && data.size >= entry_minimum * sizeof(pgno_t)) {
+                napr_db_val_t *entry_key = apr_array_push(keys);
+
+                entry_key->size = key.size;
+                entry_key->data = apr_pmemdup(txn->pool, key.data, key.size);
+                for (size_t offset = 0; offset < data.size; offset += sizeof(pgno_t)) {
+                    memcpy(apr_array_push(pages), (char *) data.data + offset, sizeof(pgno_t));
+                }
+            }
+            status = napr_db_cursor_get(cursor, &key, &data, NAPR_DB_NEXT);
+        }
+        napr_db_cursor_close(cursor);
     }
+    txn->root_pgno = saved_root;
 
-    *new_free_db_root_out = txn->free_db_root_pgno;
-    if (!txn->freed_pages || txn->freed_pages->nelts == 0) {
+    if (status != APR_SUCCESS && status != APR_NOTFOUND) {
+        return status;
+    }
+    if (pages->nelts < minimum) {
         return APR_SUCCESS;
     }
 
-    txnid_key = txn->txnid;
-    key.data = &txnid_key;
-    key.size = sizeof(txnid_t);
-    data.data = txn->freed_pages->elts;
-    data.size = (apr_size_t) txn->freed_pages->nelts * txn->freed_pages->elt_size;
+    for (int idx = 0; idx < keys->nelts; idx++) {
+        status = delete_from_free_db(txn, &APR_ARRAY_IDX(keys, idx, napr_db_val_t));
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+    }
+    txn->reclaimed_pages = pages;
+
+    return APR_SUCCESS;
+}
+
+/**
+ * @brief Try to reclaim a page from the Free DB based on MVCC safety rules.
+ *
+ * @param txn The write transaction requesting a page allocation.
+ * @param reclaimed_pgno_out Output parameter for the reclaimed page number.
+ * @return APR_SUCCESS if a page was reclaimed, APR_NOTFOUND if no safe pages available.
+ */
+apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, pgno_t *reclaimed_pgno_out)
+{
+    if (!txn || !reclaimed_pgno_out) {
+        return APR_EINVAL;
+    }
+
+    if (txn->reclaimed_pages->nelts == 0 && !txn->reclaim_done) {
+        apr_status_t status = reclaim_pages(txn, 1, 1, 1);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        if (txn->reclaimed_pages->nelts == 0) {
+            txn->reclaim_done = 1;
+        }
+    }
+    if (txn->reclaimed_pages->nelts == 0) {
+        return APR_NOTFOUND;
+    }
+
+    *reclaimed_pgno_out = *(pgno_t *) apr_array_pop(txn->reclaimed_pages);
+    return APR_SUCCESS;
+}
+
+/**
+ * @brief Write this transaction's entries of the Free DB.
+ *
+ * The entries hold the pages freed by this transaction and what is left of the pages taken from older entries. The
+ * first entry's key is the TXNID, the following ones append their number to it.
+ *
+ * @param txn The write transaction
+ * @param num_entries In: number of entries written before, out: number of entries written now
+ * @return APR_SUCCESS or an error code
+ */
+static apr_status_t write_free_db_entries(napr_db_txn_t *txn, uint16_t *num_entries)
+{
+    apr_status_t status = APR_SUCCESS;
+    apr_array_header_t *pages = apr_array_append(txn->pool, txn->freed_pages, txn->reclaimed_pages);
+    uint8_t key_data[sizeof(txnid_t) + sizeof(uint16_t)];
+    napr_db_val_t key = {.data = key_data,.size = sizeof(txnid_t) };
+    uint16_t entry = 0;
+    int first = 0;
+
+    memcpy(key_data, &txn->txnid, sizeof(txnid_t));
+
+    for (first = 0; first < pages->nelts || entry < *num_entries; first += DB_FREE_ENTRY_PAGES) {
+        if (entry > 0) {
+            memcpy(key_data + sizeof(txnid_t), &entry, sizeof(uint16_t));
+            key.size = sizeof(key_data);
+        }
+        if (first < pages->nelts) {
+            int count = (pages->nelts - first < DB_FREE_ENTRY_PAGES) ? pages->nelts - first : DB_FREE_ENTRY_PAGES;
+            napr_db_val_t data = {.data = pages->elts + (size_t) first * sizeof(pgno_t),.size = (apr_size_t) count * sizeof(pgno_t) };
+            status = tree_put(txn, &txn->free_db_root_pgno, &key, &data);
+        }
+        else {
+            status = delete_from_free_db(txn, &key);
+        }
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        entry++;
+    }
+
+    *num_entries = (uint16_t) ((pages->nelts + DB_FREE_ENTRY_PAGES - 1) / DB_FREE_ENTRY_PAGES);
+    return APR_SUCCESS;
+}
+
+/**
+ * @brief Give new locations to the pages changed by this transaction and record the old ones in the Free DB.
+ *
+ * A page that readers (or a recovery after a crash) may still need is never overwritten: each copied page is written
+ * to a fresh location, and its old page number is recorded in the Free DB with Key = current TXNID, Value = array of
+ * freed pgno_t values. This enables safe page reclamation based on the oldest active reader.
+ *
+ * Recording changes the Free DB, which copies and allocates pages in turn: repeat until nothing changes any more.
+ *
+ * @param txn The write transaction
+ * @return APR_SUCCESS or an error code
+ */
+static apr_status_t relocate_pages(napr_db_txn_t *txn)
+{
+    apr_status_t status = APR_SUCCESS;
+    uint16_t num_entries = 0;
+    int relocated = 0;
+    int num_freed = 0;
+    int num_reclaimed = 0;
+    int wanted = txn->freed_pages->nelts + txn->freed_pages->nelts / DB_RECLAIM_MIN + 2 * DB_RECLAIM_MIN;
+
+    if (!txn->reclaim_done) {
+        /* Small entries are left alone until they add up to something */
+        status = reclaim_pages(txn, wanted, DB_RECLAIM_ENTRY_MIN, 1);
+        if (status == APR_SUCCESS) {
+            status = reclaim_pages(txn, wanted, 1, DB_RECLAIM_MIN);
+        }
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+        txn->reclaim_done = 1;
+    }
 
-    *new_free_db_root_out = (txn->free_db_root_pgno > txn->new_last_pgno) ? 0 : txn->free_db_root_pgno;
-    return tree_put(txn, new_free_db_root_out, &key, &data);
+    do {
+        for (; relocated < txn->freed_pages->nelts; relocated++) {
+            DB_PageHeader *dirty_page = apr_hash_get(txn->dirty_pages, &APR_ARRAY_IDX(txn->freed_pages, relocated, pgno_t), sizeof(pgno_t));
+            pgno_t new_pgno = 0;
+
+            if (!dirty_page) {
+                return APR_EGENERAL;
+            }
+            status = db_page_alloc(txn, 1, &new_pgno);
+            if (status != APR_SUCCESS) {
+                return status;
+            }
+            dirty_page->pgno = new_pgno;
+        }
+
+        num_freed = txn->freed_pages->nelts;
+        num_reclaimed = txn->reclaimed_pages->nelts;
+        status = write_free_db_entries(txn, &num_entries);
+        if (status != APR_SUCCESS) {
+            return status;
+        }
+    } while (num_freed != txn->freed_pages->nelts || num_reclaimed != txn->reclaimed_pages->nelts);
+
+    return APR_SUCCESS;
 }
 
 /**
@@ -1126,116 +1328,6 @@ apr_status_t read_from_free_db(napr_db_txn_t *txn, txnid_t txnid, pgno_t **freed
     return APR_SUCCESS;
 }
 
-static apr_status_t find_reclaimable_entry(napr_db_txn_t *txn, txnid_t oldest_reader_txnid, napr_db_cursor_t *cursor, napr_db_val_t *key, napr_db_val_t *data)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    txnid_t entry_txnid = 0;
-
-    status = napr_db_cursor_get(cursor, key, data, NAPR_DB_FIRST);
-    while (status == APR_SUCCESS) {
-        if (key->size != sizeof(txnid_t)) {
-            status = napr_db_cursor_get(cursor, key, data, NAPR_DB_NEXT);
-            continue;
-        }
-
-        memcpy(&entry_txnid, key->data, sizeof(txnid_t));
-
-        if (entry_txnid < oldest_reader_txnid) {
-            if (data->size % sizeof(pgno_t) == 0 && data->size > 0) {
-                return APR_SUCCESS;
-            }
-        }
-
-        status = napr_db_cursor_get(cursor, key, data, NAPR_DB_NEXT);
-    }
-
-    return APR_NOTFOUND;
-}
-
-// NOLINTNEXTLINE(bugprone-easily-swappable-parameters)
-static apr_status_t update_or_delete_reclaimed_entry(napr_db_txn_t *txn, const napr_db_val_t *key, const napr_db_val_t *data)
-{
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    apr_status_t status;
-    size_t num_pages = data->size / sizeof(pgno_t);
-
-    if (num_pages == 1) {
-        return napr_db_del(txn, key, NULL);
-    }
-
-    pgno_t *freed_pages = (pgno_t *) data->data;
-    pgno_t *remaining_pages = apr_palloc(txn->pool, (num_pages - 1) * sizeof(pgno_t));
-    if (!remaining_pages) {
-        return APR_ENOMEM;
-    }
-    memcpy(remaining_pages, &freed_pages[1], (num_pages - 1) * sizeof(pgno_t));
-
-    napr_db_val_t new_data = {.data = remaining_pages,.size = (num_pages - 1) * sizeof(pgno_t) };
-
-    status = napr_db_del(txn, key, NULL);
-    if (status != APR_SUCCESS) {
-        return status;
-    }
-
-    return napr_db_put(txn, key, &new_data);
-}
-
-/**
- * @brief Try to reclaim a page from the Free DB based on MVCC safety rules.
- *
- * This function searches the Free DB for entries with TXNID older than the
- * oldest active reader. If found, it reclaims one page from that entry.
- *
- * @param txn The write transaction requesting a page allocation.
- * @param reclaimed_pgno_out Output parameter for the reclaimed page number.
- * @return APR_SUCCESS if a page was reclaimed, APR_NOTFOUND if no safe pages available.
- */
-apr_status_t db_reclaim_page_from_free_db(napr_db_txn_t *txn, pgno_t *reclaimed_pgno_out)
-{
-    if (!txn || !reclaimed_pgno_out) {
-        return APR_EINVAL;
-    }
-    if (txn->free_db_root_pgno == 0) {
-        return APR_NOTFOUND;
-    }
-
-    txnid_t oldest_reader_txnid = 0;
-    apr_status_t status = db_get_oldest_reader_txnid(txn->env, &oldest_reader_txnid);
-    if (status != APR_SUCCESS) {
-        return APR_NOTFOUND;
-    }
-    if (oldest_reader_txnid == 0) {
-        oldest_reader_txnid = txn->txnid;
-    }
-
-    pgno_t saved_root = txn->root_pgno;
-    txn->root_pgno = txn->free_db_root_pgno;
-
-    napr_db_cursor_t *cursor = NULL;
-    status = napr_db_cursor_open(txn, &cursor);
-    if (status != APR_SUCCESS) {
-        txn->root_pgno = saved_root;
-        return status;
-    }
-
-    napr_db_val_t key = { 0 };
-    napr_db_val_t data = { 0 };
-    status = find_reclaimable_entry(txn, oldest_reader_txnid, cursor, &key, &data);
-
-    napr_db_cursor_close(cursor);
-
-    if (status == APR_SUCCESS) {
-        pgno_t *freed_pages = (pgno_t *) data.data;
-        *reclaimed_pgno_out = freed_pages[0];
-
-        status = update_or_delete_reclaimed_entry(txn, &key, &data);
-    }
-
-    txn->root_pgno = saved_root;
-    return status;
-}
-
 /**
  * @brief Atomically update the meta page to commit the transaction.
  * @param txn The transaction.
@@ -1296,7 +1388,7 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
     apr_status_t status = APR_SUCCESS;
     int is_write = 0;
     apr_hash_t *pgno_map = NULL;
-    pgno_t new_root_pgno = 0;
+    DB_CommitPgnos pgnos = { 0 };
 
     if (!txn) {
         return APR_EINVAL;
@@ -1335,8 +1427,7 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 
     /* Populate the Free DB with freed pages from this transaction FIRST
      * so that Free DB pages are added to dirty_pages before we update pointers */
-    pgno_t new_free_db_root = 0;
-    status = populate_free_db(txn, &new_free_db_root);
+    status = relocate_pages(txn);
     if (status != APR_SUCCESS) {
         goto cleanup;
     }
@@ -1346,7 +1437,7 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
         goto cleanup;
     }
 
-    update_dirty_page_pointers(txn, pgno_map, &new_root_pgno);
+    update_dirty_page_pointers(txn, pgno_map, &pgnos);
 
     status = extend_database_file(txn);
     if (status != APR_SUCCESS) {
@@ -1358,9 +1449,7 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
         goto cleanup;
     }
 
-    status = commit_meta_page(txn, (DB_CommitPgnos) {
-                              .new_root_pgno = new_root_pgno,.new_free_db_root_pgno = new_free_db_root}
-    );
+    status = commit_meta_page(txn, pgnos);
     if (status != APR_SUCCESS) {
         goto cleanup;
     }
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 85a899c..241e878 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -116,6 +116,13 @@ typedef struct DB_ReaderSlot
 /* Freed Pages default array size  */
 #define DB_FREED_PAGES_DFLT_SIZE 16
 
+/* Page numbers per Free DB entry: two entries fit in a page */
+#define DB_FREE_ENTRY_PAGES 250
+
+/* A commit takes pages from the Free DB when it finds this many in one entry, or this many overall */
+#define DB_RECLAIM_ENTRY_MIN 3
+#define DB_RECLAIM_MIN 16
+
 /*
  * Constants
  */
@@ -328,6 +335,9 @@ typedef struct __attribute__((packed))
          /* Free space tracking for write transactions */
          apr_array_header_t *freed_pages;
                                       /**< Array of pgno_t freed during this transaction */
+         apr_array_header_t *reclaimed_pages;
+                                      /**< Array of pgno_t taken from the Free DB and not yet used */
+         int reclaim_done;      /**< Flag: 1 once no more pages are taken from the Free DB */
      };
 
 /**
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 33a0fa8..561199f 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -310,7 +310,7 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
  *
  * The dirty copy is stored in the transaction's dirty_pages hash table,
  * keyed by the original page number. On commit, dirty pages are written
- * to their original locations in the file.
+ * to fresh locations in the file.
  *
  * @param txn Write transaction handle
  * @param original_page Pointer to the original page in the memory map
-- 
2.43.0


From 9af1979d9d3cdb2f8db26a5ae1f8575819a2c177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:10 +0000
Subject: [PATCH 34/49] fix: register a reader together with capturing its
 snapshot

A commit between the two could reuse the pages of the snapshot before the reader
was in the table, and the fields of two meta pages could be mixed. A read
transaction ended by another thread than the one that began it kept its slot.
---
 src/napr_db.c          | 63 +++++++++++++++++++-----------------------
 src/napr_db_internal.h |  1 +
 2 files changed, 29 insertions(+), 35 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index dd92ec6..80735c0 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -533,6 +533,17 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
     txn_handle->pool = txn_pool;
     txn_handle->flags = flags;
 
+    txn_handle->reader_slot = -1;
+
+    /* A reader captures its snapshot and registers it in one step: no commit comes in between */
+    if (!is_write) {
+        status = apr_thread_mutex_lock(env->reader_table_mutex);
+        if (status != APR_SUCCESS) {
+            apr_pool_destroy(txn_pool);
+            return status;
+        }
+    }
+
     /* Capture snapshot from current live meta page */
     txn_handle->txnid = env->live_meta->txnid;
     txn_handle->root_pgno = env->live_meta->root;
@@ -569,28 +580,21 @@ apr_status_t napr_db_txn_begin(napr_db_env_t *env, unsigned int flags, napr_db_t
         apr_os_proc_t pid = getpid();
         apr_os_thread_t tid = apr_os_thread_current();
         int slot_idx = 0;
-        int found_slot = 0;
 
-        status = apr_thread_mutex_lock(env->reader_table_mutex);
-        if (status != APR_SUCCESS) {
-            apr_pool_destroy(txn_pool);
-            return status;
-        }
-
-        /* Find an empty slot (txnid == 0) */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
+        /* Find an empty slot (txnid == 0); the empty database of TXNID 0 needs none */
+        for (slot_idx = 0; slot_idx < MAX_READERS && txn_handle->txnid != 0; slot_idx++) {
             if (env->reader_table[slot_idx].txnid == 0) {
                 env->reader_table[slot_idx].pid = pid;
                 env->reader_table[slot_idx].tid = tid;
                 env->reader_table[slot_idx].txnid = txn_handle->txnid;
-                found_slot = 1;
+                txn_handle->reader_slot = slot_idx;
                 break;
             }
         }
 
         apr_thread_mutex_unlock(env->reader_table_mutex);
 
-        if (!found_slot) {
+        if (txn_handle->reader_slot < 0 && txn_handle->txnid != 0) {
             apr_pool_destroy(txn_pool);
             return APR_ENOMEM;  /* Too many concurrent readers */
         }
@@ -1377,8 +1381,11 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
         return status;
     }
 
+    /* Readers capture their snapshot under the same mutex */
+    apr_thread_mutex_lock(txn->env->reader_table_mutex);
     memcpy(stale_meta, &updated_meta, sizeof(DB_MetaPage));
     txn->env->live_meta = stale_meta;
+    apr_thread_mutex_unlock(txn->env->reader_table_mutex);
 
     return APR_SUCCESS;
 }
@@ -1398,20 +1405,13 @@ apr_status_t napr_db_txn_commit(napr_db_txn_t *txn)
 
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
-        apr_os_proc_t pid = getpid();
-        apr_os_thread_t tid = apr_os_thread_current();
-        int slot_idx = 0;
-
         apr_thread_mutex_lock(txn->env->reader_table_mutex);
 
-        /* Find and clear our slot */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
-            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
-                txn->env->reader_table[slot_idx].txnid = 0;
-                txn->env->reader_table[slot_idx].pid = 0;
-                txn->env->reader_table[slot_idx].tid = 0;
-                break;
-            }
+        /* Clear our slot, whichever thread ends the transaction */
+        if (txn->reader_slot >= 0) {
+            txn->env->reader_table[txn->reader_slot].txnid = 0;
+            txn->env->reader_table[txn->reader_slot].pid = 0;
+            txn->env->reader_table[txn->reader_slot].tid = 0;
         }
 
         apr_thread_mutex_unlock(txn->env->reader_table_mutex);
@@ -1481,20 +1481,13 @@ apr_status_t napr_db_txn_abort(napr_db_txn_t *txn)
 
     /* Unregister read-only transaction from reader table */
     if (!is_write) {
-        apr_os_proc_t pid = getpid();
-        apr_os_thread_t tid = apr_os_thread_current();
-        int slot_idx = 0;
-
         apr_thread_mutex_lock(txn->env->reader_table_mutex);
 
-        /* Find and clear our slot */
-        for (slot_idx = 0; slot_idx < MAX_READERS; slot_idx++) {
-            if (txn->env->reader_table[slot_idx].txnid == txn->txnid && txn->env->reader_table[slot_idx].pid == pid && txn->env->reader_table[slot_idx].tid == tid) {
-                txn->env->reader_table[slot_idx].txnid = 0;
-                txn->env->reader_table[slot_idx].pid = 0;
-                txn->env->reader_table[slot_idx].tid = 0;
-                break;
-            }
+        /* Clear our slot, whichever thread ends the transaction */
+        if (txn->reader_slot >= 0) {
+            txn->env->reader_table[txn->reader_slot].txnid = 0;
+            txn->env->reader_table[txn->reader_slot].pid = 0;
+            txn->env->reader_table[txn->reader_slot].tid = 0;
         }
 
         apr_thread_mutex_unlock(txn->env->reader_table_mutex);
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 241e878..263d867 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -326,6 +326,7 @@ typedef struct __attribute__((packed))
          pgno_t free_db_root_pgno;
                                 /**< Root page number for Free DB snapshot */
          unsigned int flags;    /**< Transaction flags (RDONLY, etc.) */
+         int reader_slot;       /**< Slot in the reader table (-1 = none) */
 
          /* Copy-on-Write tracking for write transactions */
          apr_hash_t *dirty_pages;
-- 
2.43.0


From 42d0d7677544f5a9bf395a59f5738c7d56cf9336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:12 +0000
Subject: [PATCH 35/49] fix: open a database whose creation was interrupted

After a crash between creating the file and writing its meta pages, the file
could never be opened again (or opening it ended in SIGBUS, being empty).
---
 src/napr_db.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 80735c0..1d8cb64 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -189,12 +189,15 @@ static apr_status_t db_file_open(napr_db_env_t *env, const char *path, int *is_n
         return status;
     }
 
-    if (status == APR_SUCCESS) {
+    if (status == APR_SUCCESS && (finfo.size > 0 || !(env->flags & NAPR_DB_CREATE))) {
         *is_new_file = 0;
+        if (finfo.size < (apr_off_t) 2 * PAGE_SIZE) {
+            return APR_EINVAL;  /* No room for the meta pages: not a database */
+        }
         return apr_file_open(&env->file, path, file_flags, APR_OS_DEFAULT, env->pool);
     }
 
-    /* File doesn't exist */
+    /* File doesn't exist, or is empty because its creation was interrupted */
     if (!(env->flags & NAPR_DB_CREATE)) {
         return APR_ENOENT;
     }
@@ -251,6 +254,12 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
     env->meta0 = (DB_MetaPage *) env->map_addr;
     env->meta1 = (DB_MetaPage *) ((char *) env->map_addr + PAGE_SIZE);
 
+    if (!is_new_file && (env->flags & NAPR_DB_CREATE) && !(env->flags & NAPR_DB_RDONLY)) {
+        /* Blank meta pages: the creation of the file was interrupted */
+        const char *bytes = env->map_addr;
+        is_new_file = (bytes[0] == 0 && memcmp(bytes, bytes + 1, (size_t) 2 * PAGE_SIZE - 1) == 0);
+    }
+
     if (is_new_file) {
         init_meta_page(env->meta0, 0);
         init_meta_page(env->meta1, 1);
-- 
2.43.0


From 8ee182a135522ebe6b32ec61110d298d906674f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:13 +0000
Subject: [PATCH 36/49] fix: take back the meta page of a failed commit

When writing or synchronising the meta page failed, commit reported the failure
but left the new meta page in the file: reopening showed the failed transaction,
or one mixed with the pages of the next.
---
 src/napr_db.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 1d8cb64..9a363f4 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -1351,6 +1351,7 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
 {
     apr_status_t status = APR_SUCCESS;
     DB_MetaPage updated_meta;
+    DB_MetaPage previous_meta;
     DB_MetaPage *stale_meta = NULL;
     pgno_t meta_pgno = 0;
     apr_off_t meta_offset = 0;
@@ -1380,13 +1381,17 @@ static apr_status_t commit_meta_page(napr_db_txn_t *txn, DB_CommitPgnos pgnos)
         return status;
     }
 
+    memcpy(&previous_meta, stale_meta, sizeof(DB_MetaPage));
+
     status = apr_file_write_full(txn->env->file, &updated_meta, meta_bytes, NULL);
-    if (status != APR_SUCCESS) {
-        return status;
+    if (status == APR_SUCCESS) {
+        status = apr_file_sync(txn->env->file);
     }
-
-    status = apr_file_sync(txn->env->file);
     if (status != APR_SUCCESS) {
+        /* The failed commit must not come to life when the database is opened again */
+        if (apr_file_seek(txn->env->file, APR_SET, &meta_offset) == APR_SUCCESS && apr_file_write_full(txn->env->file, &previous_meta, meta_bytes, NULL) == APR_SUCCESS) {
+            (void) apr_file_sync(txn->env->file);
+        }
         return status;
     }
 
-- 
2.43.0


From 275b2c9da7198fec20e8a366cb65e0c999cc6308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:15 +0000
Subject: [PATCH 37/49] fix: refuse to grow the database beyond its memory map

Pages beyond the map were committed and then read past its end.
---
 src/napr_db.c      | 5 +++++
 src/napr_db_tree.c | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 9a363f4..0a3ece4 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -955,6 +955,11 @@ static apr_status_t make_room(napr_db_txn_t *txn, pgno_t *root, const pgno_t *pa
 
     status = db_split_page(txn, page, split_point, &right_page);
     if (status != APR_SUCCESS) {
+        if (level == 0) {
+            /* Give the page of the new root back */
+            APR_ARRAY_PUSH(txn->reclaimed_pages, pgno_t) = parent->pgno;
+            apr_hash_set(txn->dirty_pages, &parent->pgno, sizeof(pgno_t), NULL);
+        }
         return status;
     }
     status = db_page_insert(parent, index, &divider, NULL, right_page->pgno);
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 561199f..a117943 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -293,7 +293,10 @@ apr_status_t db_page_alloc(napr_db_txn_t *txn, uint32_t count, pgno_t *pgno_out)
         /* If reclamation failed (APR_NOTFOUND or error), fall through to file extension */
     }
 
-    /* Fall back to extending the file (original behavior) */
+    /* Fall back to extending the file (original behavior), as far as the memory map reaches */
+    if ((txn->new_last_pgno + count + 1) * PAGE_SIZE > txn->env->mapsize) {
+        return APR_ENOSPC;
+    }
     first_pgno = txn->new_last_pgno + 1;
     txn->new_last_pgno += count;
 
-- 
2.43.0


From 17978b4ad8249346a0baba4a013337e7f7ac20b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:49 +0000
Subject: [PATCH 38/49] fix: never leave a branch page without children when
 splitting it

A divider that belongs behind the last entry of a full branch page split
that page at its end: the right page stayed empty, and a search that came
through it read a page number from before its slots (or the insertion
never terminated).  Branch pages keep a child on either side.
---
 src/napr_db_tree.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index a117943..52eae7c 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -559,8 +559,8 @@ static size_t db_node_size(DB_PageHeader *page, uint16_t index)
  * @param page The full page
  * @param index Index at which the new node belongs
  * @param node_size Size of the new node, without its slot
- * @return The most balanced split point that leaves enough room for the new node; index when there is none (a
- *         second split will then make room).
+ * @return The most balanced split point that leaves enough room for the new node; the nearest to index when there is
+ *         none (a second split will then make room).
  */
 uint16_t db_choose_split_point(DB_PageHeader *page, uint16_t index, size_t node_size)
 {
@@ -568,13 +568,25 @@ uint16_t db_choose_split_point(DB_PageHeader *page, uint16_t index, size_t node_
     size_t total = node_size + sizeof(uint16_t);
     size_t moved = 0;
     size_t best_diff = SIZE_MAX;
+    uint16_t first = 0;
+    uint16_t last = page->num_keys;
     uint16_t best = index;
 
+    if (page->flags & P_BRANCH) {
+        /* A branch page needs a child on either side */
+        first = 1;
+        last = page->num_keys - 1;
+        best = (index < first) ? first : (index > last) ? last : index;
+    }
+
     for (uint16_t idx = 0; idx < page->num_keys; idx++) {
         total += db_node_size(page, idx) + sizeof(uint16_t);
     }
+    for (uint16_t idx = 0; idx < first; idx++) {
+        moved += db_node_size(page, idx) + sizeof(uint16_t);
+    }
 
-    for (uint16_t point = 0; point <= page->num_keys; point++) {
+    for (uint16_t point = first; point <= last; point++) {
         int append = (point == page->num_keys);
         int new_goes_left = !append && (index <= point);
         size_t left = moved + (new_goes_left ? node_size + sizeof(uint16_t) : 0);
-- 
2.43.0


From be9c86a31493d7cacf481f124d43339bf56fec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:59 +0000
Subject: [PATCH 39/49] fix: a thread pool whose workers cannot all be started
 stops those it started

---
 src/napr_threadpool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/napr_threadpool.c b/src/napr_threadpool.c
index e8d25ed..3c95e5a 100644
--- a/src/napr_threadpool.c
+++ b/src/napr_threadpool.c
@@ -241,6 +241,9 @@ extern apr_status_t napr_threadpool_init(napr_threadpool_t **threadpool, void *c
         status = apr_thread_create(&((*threadpool)->thread[idx]), NULL, napr_threadpool_loop, (*threadpool), (*threadpool)->pool);
         if (APR_SUCCESS != status) {
             DEBUG_ERR("error calling apr_thread_create: %s", apr_strerror(status, errbuf, ERR_BUF_SIZE));
+            /* Nobody could stop the threads already created once the caller gives up on this pool. */
+            (*threadpool)->nb_thread = idx;
+            (void) napr_threadpool_shutdown(*threadpool);
             return status;
         }
     }
-- 
2.43.0


From 2a85907f58657abc2fd4b89e71ea7c47b974a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:01 +0000
Subject: [PATCH 40/49] fix: ignore patterns treat a newline in a name like any
 other character

---
 src/ft_ignore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 15469c5..7adaafd 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -365,7 +365,7 @@ apr_status_t ft_ignore_add_pattern_str(ft_ignore_context_t *ctx, const char *pat
     regex_str = ft_glob_to_pcre(trimmed, ctx->pool, &flags);
 
     /* Compile regex */
-    regex = pcre_compile(regex_str, 0, &error, &erroffset, NULL);
+    regex = pcre_compile(regex_str, PCRE_DOLLAR_ENDONLY | PCRE_DOTALL, &error, &erroffset, NULL);
     if (!regex) {
         DEBUG_ERR("Failed to compile pattern '%s': %s", trimmed, error);
         return APR_EGENERAL;
-- 
2.43.0


From 27f266baef731671e939fb8a5705fbd7daa31519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:47 +0000
Subject: [PATCH 41/49] fix: a line of an ignore file longer than the read
 buffer is one pattern, not several

The end of a comment or pattern of 4096 characters or more was taken for a pattern of its own.
---
 src/ft_ignore.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 7adaafd..c60d931 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -388,6 +388,7 @@ apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
     apr_file_t *file = NULL;
     apr_status_t status = APR_SUCCESS;
     char line[MAX_PATTERN_LEN];
+    char *text = "";
 
     status = apr_file_open(&file, filepath, APR_READ, APR_OS_DEFAULT, ctx->pool);
     if (status != APR_SUCCESS) {
@@ -395,17 +396,29 @@ apr_status_t ft_ignore_load_file(ft_ignore_context_t *ctx, const char *filepath)
     }
 
     while (apr_file_gets(line, (int) sizeof(line), file) == APR_SUCCESS) {
-        /* Remove newline */
         apr_size_t len = strlen(line);
-        if (len > 0 && line[len - 1] == '\n') {
-            line[len - 1] = '\0';
+
+        /* A line longer than the buffer comes in several parts */
+        text = apr_pstrcat(ctx->pool, text, line, NULL);
+        if (len == sizeof(line) - 1 && line[len - 1] != '\n') {
+            continue;
+        }
+
+        /* Remove newline */
+        len = strlen(text);
+        if (len > 0 && text[len - 1] == '\n') {
+            text[len - 1] = '\0';
             len--;
         }
-        if (len > 0 && line[len - 1] == '\r') {
-            line[len - 1] = '\0';
+        if (len > 0 && text[len - 1] == '\r') {
+            text[len - 1] = '\0';
         }
 
-        ft_ignore_add_pattern_str(ctx, line);
+        ft_ignore_add_pattern_str(ctx, text);
+        text = "";
+    }
+    if (*text != '\0') {
+        ft_ignore_add_pattern_str(ctx, text);
     }
 
     (void) apr_file_close(file);
-- 
2.43.0


From 3c7fe99b3bae57ae69ea107b857744457fbe5a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:50 +0000
Subject: [PATCH 42/49] fix: a closing bracket right after the opening one
 belongs to the class in ignore patterns

---
 src/ft_ignore.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index c60d931..9d9badb 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -217,6 +217,12 @@ static void handle_char_class(const char **pattern_cursor, char **result_cursor)
         (*pattern_cursor)++;
     }
 
+    if (**pattern_cursor == ']') {
+        /* Right at the beginning it is a member of the class, not its end */
+        append_pcre_sequence(&cursor, "\\]");
+        (*pattern_cursor)++;
+    }
+
     while (**pattern_cursor && **pattern_cursor != ']') {
         if (**pattern_cursor == '\\' && *(*pattern_cursor + 1)) {
             if (!isalnum((unsigned char) *(*pattern_cursor + 1))) {
-- 
2.43.0


From 2e8d66269e004a41f733b3a08e914ddae5d26c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:46 +0000
Subject: [PATCH 43/49] fix: a final double star before the trailing slash of
 an ignore pattern matches every directory

---
 src/ft_ignore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ft_ignore.c b/src/ft_ignore.c
index 9d9badb..1cef4cf 100644
--- a/src/ft_ignore.c
+++ b/src/ft_ignore.c
@@ -169,13 +169,13 @@ static void handle_star(const char *pattern_start, const char **pattern_cursor,
 
     if (starts_component && spans_component) {
         /* Double star: ** */
-        if (*(*pattern_cursor + 2) == '/') {
+        if (*(*pattern_cursor + 2) == '/' && *(*pattern_cursor + 3) != '\0') {
             /* * *//* pattern: matches zero or more directory levels */
             append_pcre_sequence(result_cursor, "(.*/)?");
             *pattern_cursor += 3;
         }
         else {
-            /* ** at the end: matches everything */
+            /* ** at the end (before the slash for directories, if any): matches everything */
             append_pcre_sequence(result_cursor, ".*");
             *pattern_cursor += 2;
         }
-- 
2.43.0


From 39ca0ad399694f6ce69a25eef06d45183b85b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:51 +0000
Subject: [PATCH 44/49] fix: keep the tree of the database shallow whatever the
 order of long keys

A full branch page was split before the divider that did not fit was
inserted, and the divider then filled one of the halves again.  With keys of
1350 bytes and more, which leave a branch page two children, ascending
insertion so added a level for every other key, and the 67th key was refused
because the tree was too deep.  The new divider now takes part in the split,
and the key of a page's first child, which bounds nothing, is not stored.
---
 src/napr_db.c          | 132 ++++++++++++++++++++++++-----------------
 src/napr_db_internal.h |   7 ++-
 src/napr_db_tree.c     | 102 ++++++++++++++++++++++++++-----
 3 files changed, 170 insertions(+), 71 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 0a3ece4..c71d1fc 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -865,33 +865,80 @@ static apr_status_t make_path_writable(napr_db_txn_t *txn, const pgno_t *path, u
 }
 
 /**
- * @brief Make room for a node: split one page of a path and link its new right sibling into the parent.
+ * @brief Make sure that the next allocations of single pages succeed.
+ * @param txn The transaction.
+ * @param count Number of pages.
+ * @return APR_SUCCESS or an error code.
+ */
+static apr_status_t reserve_pages(napr_db_txn_t *txn, int count)
+{
+    apr_status_t status = APR_SUCCESS;
+    pgno_t pages[MAX_TREE_DEPTH + 1] = { 0 };
+    int taken = 0;
+
+    while (taken < count && status == APR_SUCCESS) {
+        status = db_page_alloc(txn, 1, &pages[taken]);
+        taken += (status == APR_SUCCESS);
+    }
+    while (taken > 0) {
+        APR_ARRAY_PUSH(txn->reclaimed_pages, pgno_t) = pages[--taken];
+    }
+
+    return status;
+}
+
+/**
+ * @brief Make room for a node: split a leaf page and link its new right sibling into the parent.
  *
- * When the parent lacks the room for the new sibling, the parent is split instead. The tree is valid after every
- * call; the caller searches its place again and retries.
+ * A parent that lacks the room for the sibling is split as well, up to the root. The pages this takes are reserved
+ * first, so that the tree is changed completely or not at all; the caller searches its place again and retries.
  *
  * @param txn The transaction.
  * @param root Root page number of the tree (updated when the root is split).
  * @param path Page numbers from root to leaf, all of them dirty.
- * @param level Level of the page that lacks the room.
+ * @param path_len Length of the path.
  * @param key Key of the node to make room for.
  * @param node_size Size of this node.
  * @return APR_SUCCESS or an error code.
  */
-static apr_status_t make_room(napr_db_txn_t *txn, pgno_t *root, const pgno_t *path, uint16_t level, const napr_db_val_t *key, size_t node_size)
+static apr_status_t make_room(napr_db_txn_t *txn, pgno_t *root, const pgno_t *path, uint16_t path_len, const napr_db_val_t *key, size_t node_size)
 {
     apr_status_t status = APR_SUCCESS;
-    DB_PageHeader *page = apr_hash_get(txn->dirty_pages, &path[level], sizeof(pgno_t));
-    DB_PageHeader *parent = NULL;
+    DB_PageHeader *page = apr_hash_get(txn->dirty_pages, &path[path_len - 1], sizeof(pgno_t));
     DB_PageHeader *right_page = NULL;
     napr_db_val_t divider = { 0 };
     uint16_t split_point = 0;
     uint16_t index = 0;
+    int level = path_len - 1;
+    int count = 1;
 
     if (!page) {
         return APR_EGENERAL;
     }
 
+    /* One page for the leaf, one for each parent that may lack the room, one for a new root */
+    for (level = path_len - 1; level > 0; level--) {
+        DB_PageHeader *parent = apr_hash_get(txn->dirty_pages, &path[level - 1], sizeof(pgno_t));
+
+        if (!parent) {
+            return APR_EGENERAL;
+        }
+        if ((size_t) (parent->upper - parent->lower) >= sizeof(DB_BranchNode) + DB_MAX_KEY_SIZE + sizeof(uint16_t)) {
+            break;
+        }
+        count++;
+    }
+    if (level == 0) {
+        if (path_len >= MAX_TREE_DEPTH) {
+            return APR_ENOSPC;
+        }
+        count++;
+    }
+    status = reserve_pages(txn, count);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
     if (db_page_search(page, key, &index) == APR_SUCCESS) {
         /* A value grows: part its node from the others */
         split_point = (index > 0) ? index : 1;
@@ -904,67 +951,46 @@ static apr_status_t make_room(napr_db_txn_t *txn, pgno_t *root, const pgno_t *pa
     if (split_point == page->num_keys) {
         divider = *key;
     }
-    else if (page->flags & P_LEAF) {
+    else {
         DB_LeafNode *node = db_page_leaf_node(page, split_point);
         divider.data = db_leaf_node_key(node);
         divider.size = node->key_size;
     }
-    else {
-        DB_BranchNode *node = db_page_branch_node(page, split_point);
-        divider.data = db_branch_node_key(node);
-        divider.size = node->key_size;
-    }
     divider.data = apr_pmemdup(txn->pool, divider.data, divider.size);
-    if (!divider.data) {
-        return APR_ENOMEM;
-    }
+    status = db_split_page(txn, page, split_point, &right_page);
 
-    if (level == 0) {
-        /* The root is split: the tree grows a level, the first child takes all keys below the divider */
-        napr_db_val_t lowest = {.data = divider.data,.size = 0 };
+    for (level = path_len - 2; status == APR_SUCCESS && level >= 0; level--) {
+        DB_PageHeader *parent = apr_hash_get(txn->dirty_pages, &path[level], sizeof(pgno_t));
 
-        status = new_dirty_page(txn, P_BRANCH, &parent);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-        status = db_page_insert(parent, 0, &lowest, NULL, path[0]);
-        if (status != APR_SUCCESS) {
-            return status;
-        }
-        index = 1;
-    }
-    else {
-        size_t divider_size = sizeof(DB_BranchNode) + divider.size;
-
-        parent = apr_hash_get(txn->dirty_pages, &path[level - 1], sizeof(pgno_t));
-        if (!parent) {
-            return APR_EGENERAL;
-        }
-        if ((size_t) (parent->upper - parent->lower) < divider_size + sizeof(uint16_t)) {
-            return make_room(txn, root, path, level - 1, &divider, divider_size);
-        }
-        for (index = 0; index < parent->num_keys && db_page_branch_node(parent, index)->pgno != path[level]; index++) {
+        for (index = 0; index < parent->num_keys && db_page_branch_node(parent, index)->pgno != path[level + 1]; index++) {
             /* find the split page in its parent */
         }
         if (index == 0) {
             /* The key of the first child bounds nothing, it must not exceed the divider */
             db_page_branch_node(parent, 0)->key_size = 0;
         }
-        index++;
+        status = db_page_insert(parent, index + 1, &divider, NULL, right_page->pgno);
+        if (status != APR_ENOSPC) {
+            return status;
+        }
+        status = db_split_branch_insert(txn, parent, index + 1, &divider, right_page->pgno, &right_page);
     }
 
-    status = db_split_page(txn, page, split_point, &right_page);
-    if (status != APR_SUCCESS) {
-        if (level == 0) {
-            /* Give the page of the new root back */
-            APR_ARRAY_PUSH(txn->reclaimed_pages, pgno_t) = parent->pgno;
-            apr_hash_set(txn->dirty_pages, &parent->pgno, sizeof(pgno_t), NULL);
+    if (status == APR_SUCCESS) {
+        /* The root is split: the tree grows a level, the first child takes all keys below the divider */
+        napr_db_val_t lowest = {.data = divider.data,.size = 0 };
+        DB_PageHeader *new_root = NULL;
+
+        status = new_dirty_page(txn, P_BRANCH, &new_root);
+        if (status == APR_SUCCESS) {
+            status = db_page_insert(new_root, 0, &lowest, NULL, path[0]);
+        }
+        if (status == APR_SUCCESS) {
+            status = db_page_insert(new_root, 1, &divider, NULL, right_page->pgno);
+        }
+        if (status == APR_SUCCESS) {
+            *root = new_root->pgno;
         }
-        return status;
-    }
-    status = db_page_insert(parent, index, &divider, NULL, right_page->pgno);
-    if (status == APR_SUCCESS && level == 0) {
-        *root = parent->pgno;
     }
 
     return status;
@@ -1040,7 +1066,7 @@ static apr_status_t tree_put(napr_db_txn_t *txn, pgno_t *root, const napr_db_val
             }
         }
 
-        status = make_room(txn, root, path, path_len - 1, &key_copy, sizeof(DB_LeafNode) + key_copy.size + data_copy.size);
+        status = make_room(txn, root, path, path_len, &key_copy, sizeof(DB_LeafNode) + key_copy.size + data_copy.size);
         if (status != APR_SUCCESS) {
             return status;
         }
diff --git a/src/napr_db_internal.h b/src/napr_db_internal.h
index 263d867..53f524d 100644
--- a/src/napr_db_internal.h
+++ b/src/napr_db_internal.h
@@ -110,8 +110,8 @@ typedef struct DB_ReaderSlot
 #define DB_LEAFNODE_DATA_SIZE_OFFSET 2
 #define DB_LEAFNODE_KV_DATA_OFFSET 4
 
-/* Largest key: two branch nodes with such keys fit in one page, so that a full branch page can always be split */
-#define DB_MAX_KEY_SIZE ((PAGE_SIZE - DB_PAGEHEADER_SIZE) / 2 - DB_BRANCHNODE_BASE_SIZE - sizeof(uint16_t))
+/* Largest key: two such keys fit in one branch page besides its first child, so that splits leave two children */
+#define DB_MAX_KEY_SIZE ((PAGE_SIZE - DB_PAGEHEADER_SIZE - DB_BRANCHNODE_BASE_SIZE - sizeof(uint16_t)) / 2 - DB_BRANCHNODE_BASE_SIZE - sizeof(uint16_t))
 
 /* Freed Pages default array size  */
 #define DB_FREED_PAGES_DFLT_SIZE 16
@@ -602,6 +602,9 @@ uint16_t db_choose_split_point(DB_PageHeader *page, uint16_t index, size_t node_
 /** Move the entries from split_point onwards to a new right sibling */
 apr_status_t db_split_page(napr_db_txn_t *txn, DB_PageHeader *left_page, uint16_t split_point, DB_PageHeader **right_page_out);
 
+/** Insert a child into a full branch page, splitting the page */
+apr_status_t db_split_branch_insert(napr_db_txn_t *txn, DB_PageHeader *left_page, uint16_t index, napr_db_val_t *divider, pgno_t child, DB_PageHeader **right_page_out);
+
 /**
  * @brief Get the oldest active reader TXNID from the reader tracking table.
  *
diff --git a/src/napr_db_tree.c b/src/napr_db_tree.c
index 52eae7c..ff2ef43 100644
--- a/src/napr_db_tree.c
+++ b/src/napr_db_tree.c
@@ -7,6 +7,7 @@
  */
 
 #include "napr_db_internal.h"
+#include <apr_strings.h>
 #include <string.h>
 #include <stdlib.h>
 #include <apr_hash.h>
@@ -550,7 +551,7 @@ static size_t db_node_size(DB_PageHeader *page, uint16_t index)
 }
 
 /**
- * @brief Choose where to split a page that lacks the room for a new node.
+ * @brief Choose where to split a leaf page that lacks the room for a new node.
  *
  * Entries before the returned split point stay on the left page. The new node belongs to the left page when its
  * index is not above the split point, except that a node appended behind the last entry (split point = number of
@@ -559,8 +560,8 @@ static size_t db_node_size(DB_PageHeader *page, uint16_t index)
  * @param page The full page
  * @param index Index at which the new node belongs
  * @param node_size Size of the new node, without its slot
- * @return The most balanced split point that leaves enough room for the new node; the nearest to index when there is
- *         none (a second split will then make room).
+ * @return The most balanced split point that leaves enough room for the new node; index when there is none (a
+ *         second split will then make room).
  */
 uint16_t db_choose_split_point(DB_PageHeader *page, uint16_t index, size_t node_size)
 {
@@ -568,25 +569,13 @@ uint16_t db_choose_split_point(DB_PageHeader *page, uint16_t index, size_t node_
     size_t total = node_size + sizeof(uint16_t);
     size_t moved = 0;
     size_t best_diff = SIZE_MAX;
-    uint16_t first = 0;
-    uint16_t last = page->num_keys;
     uint16_t best = index;
 
-    if (page->flags & P_BRANCH) {
-        /* A branch page needs a child on either side */
-        first = 1;
-        last = page->num_keys - 1;
-        best = (index < first) ? first : (index > last) ? last : index;
-    }
-
     for (uint16_t idx = 0; idx < page->num_keys; idx++) {
         total += db_node_size(page, idx) + sizeof(uint16_t);
     }
-    for (uint16_t idx = 0; idx < first; idx++) {
-        moved += db_node_size(page, idx) + sizeof(uint16_t);
-    }
 
-    for (uint16_t point = first; point <= last; point++) {
+    for (uint16_t point = 0; point <= page->num_keys; point++) {
         int append = (point == page->num_keys);
         int new_goes_left = !append && (index <= point);
         size_t left = moved + (new_goes_left ? node_size + sizeof(uint16_t) : 0);
@@ -732,6 +721,87 @@ apr_status_t db_split_branch(napr_db_txn_t *txn, DB_PageHeader *left_page, DB_Pa
     return status;
 }
 
+/**
+ * @brief Insert a child into a branch page that lacks the room for it, splitting the page.
+ *
+ * The entries, the new one among them, are shared out evenly, with at least two children on either side where there
+ * are enough, so that the height of the tree stays logarithmic. The key of the first child of the right page bounds
+ * nothing there: it becomes the divider.
+ *
+ * @param txn Write transaction handle
+ * @param left_page The full branch page (modified in-place)
+ * @param index Index at which the new child belongs
+ * @param divider In: key of the new child, out: key of the right page
+ * @param child Page number of the new child
+ * @param right_page_out Output: newly allocated right sibling page
+ * @return APR_SUCCESS on success, error code on failure
+ */
+apr_status_t db_split_branch_insert(napr_db_txn_t *txn, DB_PageHeader *left_page, uint16_t index, napr_db_val_t *divider, pgno_t child, DB_PageHeader **right_page_out)
+{
+    const size_t capacity = PAGE_SIZE - sizeof(DB_PageHeader);
+    const size_t overhead = sizeof(DB_BranchNode) + sizeof(uint16_t);
+    apr_status_t status = APR_SUCCESS;
+    uint8_t source[PAGE_SIZE];
+    DB_PageHeader *source_page = (DB_PageHeader *) source;
+    napr_db_val_t new_divider = { 0 };
+    uint16_t num = left_page->num_keys + 1;
+    uint16_t fewest = (num < 4) ? 1 : 2;
+    uint16_t split_point = 0;
+    size_t best_diff = SIZE_MAX;
+    size_t total = overhead + divider->size;
+    size_t left = 0;
+
+    memcpy(source, left_page, PAGE_SIZE);
+    for (uint16_t idx = 0; idx < source_page->num_keys; idx++) {
+        total += overhead + db_page_branch_node(source_page, idx)->key_size;
+    }
+    for (uint16_t idx = 0; idx < num; idx++) {
+        DB_BranchNode *node = (idx == index) ? NULL : db_page_branch_node(source_page, idx - (idx > index));
+        size_t key_size = node ? node->key_size : divider->size;
+        size_t right = total - left - key_size;
+        size_t diff = (left > right) ? left - right : right - left;
+
+        if (idx >= fewest && idx <= num - fewest && left <= capacity && right <= capacity && diff < best_diff) {
+            best_diff = diff;
+            split_point = idx;
+        }
+        left += overhead + key_size;
+    }
+    if (split_point == 0) {
+        return APR_EGENERAL;
+    }
+
+    /* All entries leave the page, and come back to either page */
+    status = db_split_page(txn, left_page, 0, right_page_out);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+    (*right_page_out)->num_keys = 0;
+    (*right_page_out)->lower = sizeof(DB_PageHeader);
+    (*right_page_out)->upper = PAGE_SIZE;
+
+    for (uint16_t idx = 0; idx < num && status == APR_SUCCESS; idx++) {
+        DB_BranchNode *node = (idx == index) ? NULL : db_page_branch_node(source_page, idx - (idx > index));
+        napr_db_val_t key = {.data = node ? db_branch_node_key(node) : divider->data,.size = node ? node->key_size : divider->size };
+        pgno_t pgno = node ? node->pgno : child;
+
+        if (idx < split_point) {
+            status = db_page_insert(left_page, idx, &key, NULL, pgno);
+        }
+        else {
+            if (idx == split_point) {
+                new_divider.size = key.size;
+                new_divider.data = apr_pmemdup(txn->pool, key.data, key.size);
+                key.size = 0;
+            }
+            status = db_page_insert(*right_page_out, idx - split_point, &key, NULL, pgno);
+        }
+    }
+    *divider = new_divider;
+
+    return status;
+}
+
 /**
  * @brief Find the leaf page for a key in a specific tree and record the path (for CoW).
  *
-- 
2.43.0


From 67e64c4cf08a46155f2d0707f7bb18494d58388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:31 +0000
Subject: [PATCH 45/49] fix: release the archive handles when an extraction
 fails

Every failed extraction leaked its libarchive handle, the archive's file
descriptor and the temporary file's; after enough of them every later
extraction failed too.
---
 src/ft_archive.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/ft_archive.c b/src/ft_archive.c
index 08ca639..eb2c332 100644
--- a/src/ft_archive.c
+++ b/src/ft_archive.c
@@ -64,6 +64,15 @@ static int copy_data(struct archive *archive_read, struct archive *archive_write
     }
 }
 
+/* Releases what a failed extraction holds: neither file descriptors nor memory may run out. */
+static char *give_up(struct archive *archive_handle, struct archive *ext)
+{
+    (void) archive_write_free(ext);
+    (void) archive_read_free(archive_handle);
+
+    return NULL;
+}
+
 char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
 {
     struct archive *archive_handle = NULL;
@@ -80,34 +89,34 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
     result_value = archive_read_support_filter_all(archive_handle);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_support_filter_all(): %s", archive_error_string(archive_handle));
-        return NULL;
+        return give_up(archive_handle, ext);
     }
     result_value = archive_read_support_format_all(archive_handle);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_support_format_all(): %s", archive_error_string(archive_handle));
-        return NULL;
+        return give_up(archive_handle, ext);
     }
     result_value = archive_read_open_filename(archive_handle, file->path, ARCHIVE_BLOCK_SIZE);
     if (0 != result_value) {
         DEBUG_ERR("error calling archive_read_open_filename(%s): %s", file->path, archive_error_string(archive_handle));
-        return NULL;
+        return give_up(archive_handle, ext);
     }
 
     ext = archive_write_disk_new();
     if (NULL == ext) {
         DEBUG_ERR("error calling archive_write_disk_new()");
-        return NULL;
+        return give_up(archive_handle, ext);
     }
 
     for (;;) {
         result_value = archive_read_next_header(archive_handle, &entry);
         if (result_value == ARCHIVE_EOF) {
             DEBUG_ERR("subpath [%s] not found in archive [%s]", file->subpath, file->path);
-            return NULL;
+            return give_up(archive_handle, ext);
         }
         if (result_value < ARCHIVE_WARN) {
             DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
-            return NULL;
+            return give_up(archive_handle, ext);
         }
 
         /* The current locale may not be able to express the name of a member. */
@@ -119,7 +128,7 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
         if (NULL != pathname && !strcmp(file->subpath, pathname)) {
             if (AE_IFREG != archive_entry_filetype(entry) || NULL != archive_entry_hardlink(entry)) {
                 DEBUG_ERR("subpath [%s] of archive [%s] is not a plain file", file->subpath, file->path);
-                return NULL;
+                return give_up(archive_handle, ext);
             }
 
             mode_t current_mode = umask(S_IRWXG | S_IRWXO);
@@ -133,7 +142,7 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
             result_value = mkstemp(tmpfile);
             if (result_value < 0) {
                 DEBUG_ERR("error creating tmpfile %s", tmpfile);
-                return NULL;
+                return give_up(archive_handle, ext);
             }
             umask(current_mode);
             close(result_value);
@@ -150,13 +159,13 @@ char *ft_archive_untar_file(ft_file_t *file, apr_pool_t *pool)
                 if (result_value != ARCHIVE_OK) {
                     DEBUG_ERR("error while copying data from archive (%s)", file->path);
                     (void) apr_file_remove(tmpfile, pool);
-                    return NULL;
+                    return give_up(archive_handle, ext);
                 }
             }
             else {
                 DEBUG_ERR("error in archive (%s): %s", file->path, archive_error_string(archive_handle));
                 (void) apr_file_remove(tmpfile, pool);
-                return NULL;
+                return give_up(archive_handle, ext);
             }
 
             break;
-- 
2.43.0


From 53ac334e0c42d8cbdaa7034da66a98dc278c3a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:32 +0000
Subject: [PATCH 46/49] fix: refuse unknown options and missing or unwanted
 option arguments

The option loop stopped at the first option it could not parse and the rest
of the command line was silently treated as paths.
---
 src/ft_config.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ft_config.c b/src/ft_config.c
index a536b01..d84184d 100644
--- a/src/ft_config.c
+++ b/src/ft_config.c
@@ -621,6 +621,12 @@ apr_status_t ft_config_parse_args(ft_conf_t *conf, int argc, const char **argv,
         }
     }
 
+    if (APR_EOF != status) {
+        /* Unknown option, missing or unwanted argument: apr_getopt_long has told which. */
+        print_usage_and_exit(argv[0], opt_option, NULL, NULL);
+        return APR_EGENERAL;
+    }
+
     if (argc - opt_state->ind < 1) {
         print_usage_and_exit(argv[0], opt_option, "Please submit at least one file or directory to process.", "");
         return APR_EGENERAL;
-- 
2.43.0


From f0cbb0212b6170379d72863f9c7c156acd995642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:44 +0000
Subject: [PATCH 47/49] fix: a read-only open must not leave an empty file
 behind

With NAPR_DB_CREATE as well the missing file was created before its extension
failed.
---
 src/napr_db.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index c71d1fc..18b9325 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -198,7 +198,7 @@ static apr_status_t db_file_open(napr_db_env_t *env, const char *path, int *is_n
     }
 
     /* File doesn't exist, or is empty because its creation was interrupted */
-    if (!(env->flags & NAPR_DB_CREATE)) {
+    if (!(env->flags & NAPR_DB_CREATE) || (env->flags & NAPR_DB_RDONLY)) {
         return APR_ENOENT;
     }
 
-- 
2.43.0


From 96a87395120abfc2be843a82f4fabbad3c2b41b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:46 +0000
Subject: [PATCH 48/49] fix: refuse to open a database that is truncated or
 larger than the map

Reading it ended in a segmentation fault or bus error.
---
 src/napr_db.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index 18b9325..cd416ae 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -251,6 +251,12 @@ static apr_status_t db_mmap_file(napr_db_env_t *env)
  */
 static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
 {
+    apr_finfo_t finfo;
+    apr_status_t status = apr_file_info_get(&finfo, APR_FINFO_SIZE, env->file);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
     env->meta0 = (DB_MetaPage *) env->map_addr;
     env->meta1 = (DB_MetaPage *) ((char *) env->map_addr + PAGE_SIZE);
 
@@ -264,7 +270,7 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
         init_meta_page(env->meta0, 0);
         init_meta_page(env->meta1, 1);
 
-        apr_status_t status = apr_file_sync(env->file);
+        status = apr_file_sync(env->file);
         if (status != APR_SUCCESS) {
             return status;
         }
@@ -272,7 +278,17 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
         return APR_SUCCESS;
     }
 
-    return select_live_meta(env);
+    status = select_live_meta(env);
+    if (status != APR_SUCCESS) {
+        return status;
+    }
+
+    /* Pages beyond the map or beyond the end of a truncated file can not be accessed */
+    if (env->live_meta->last_pgno >= env->mapsize / PAGE_SIZE || env->live_meta->last_pgno >= (pgno_t) finfo.size / PAGE_SIZE) {
+        return APR_EINVAL;
+    }
+
+    return APR_SUCCESS;
 }
 
 /**
@@ -312,8 +328,8 @@ apr_status_t napr_db_env_open(napr_db_env_t *env, const char *path, unsigned int
         return APR_EINVAL;
     }
 
-    if (env->mapsize == 0) {
-        return APR_EINVAL;      /* Must call set_mapsize first */
+    if (env->mapsize < (apr_size_t) 2 * PAGE_SIZE) {
+        return APR_EINVAL;      /* Must call set_mapsize first, with room for the meta pages */
     }
 
     env->flags = flags;
-- 
2.43.0


From d42ebd96dd11f08850b9a0959bc0811419ee221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:48 +0000
Subject: [PATCH 49/49] fix: only a file of two blank pages is an interrupted
 creation

A longer file that begins with zeroes is somebody else's and was overwritten.
---
 src/napr_db.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/napr_db.c b/src/napr_db.c
index cd416ae..ac53503 100644
--- a/src/napr_db.c
+++ b/src/napr_db.c
@@ -260,7 +260,7 @@ static apr_status_t db_init_meta(napr_db_env_t *env, int is_new_file)
     env->meta0 = (DB_MetaPage *) env->map_addr;
     env->meta1 = (DB_MetaPage *) ((char *) env->map_addr + PAGE_SIZE);
 
-    if (!is_new_file && (env->flags & NAPR_DB_CREATE) && !(env->flags & NAPR_DB_RDONLY)) {
+    if (!is_new_file && finfo.size == (apr_off_t) 2 * PAGE_SIZE && (env->flags & NAPR_DB_CREATE) && !(env->flags & NAPR_DB_RDONLY)) {
         /* Blank meta pages: the creation of the file was interrupted */
         const char *bytes = env->map_addr;
         is_new_file = (bytes[0] == 0 && memcmp(bytes, bytes + 1, (size_t) 2 * PAGE_SIZE - 1) == 0);
-- 
2.43.0

