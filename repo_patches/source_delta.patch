From e1bdca99912801096dd2b45a1a9cf2c9f4aeba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 01/42] verification hook: smaller block and open-file limits
 under DRPM_VERIF

---
 src/drpm_block.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index c5607da..23d70b0 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -39,6 +39,21 @@
 
 #define BLOCK_SIZE (1 << 13)
 
+#ifdef DRPM_VERIF /* verification builds: smaller limits, so that eviction, paging and refetching are within reach */
+#ifdef DRPM_VERIF_MAX_OPEN_FILES
+#undef MAX_OPEN_FILES
+#define MAX_OPEN_FILES DRPM_VERIF_MAX_OPEN_FILES
+#endif
+#ifdef DRPM_VERIF_MAX_CORE_BLOCKS
+#undef MAX_CORE_BLOCKS
+#define MAX_CORE_BLOCKS DRPM_VERIF_MAX_CORE_BLOCKS
+#endif
+#ifdef DRPM_VERIF_BLOCK_SIZE
+#undef BLOCK_SIZE
+#define BLOCK_SIZE DRPM_VERIF_BLOCK_SIZE
+#endif
+#endif
+
 #define BLK_FREE 0
 #define BLK_CORE 1
 #define BLK_CORE_NOPAGE 2
-- 
2.43.0


From 1a49cf62dc1b2539c7367928b88bb49776ebfd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 02/42] fix: apply rpm-only identity deltas to the archive as
 it is

Such a delta carries no diff: the archive of the old package is taken over
unchanged.  It was decompressed on reading and written out uncompressed,
so that applying one failed for every compressed payload.
---
 src/drpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 204ab79..7e83921 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -501,6 +501,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     struct deltarpm delta = {0};
     const bool from_rpm = (old_rpm_name != NULL);
     bool rpm_only;
+    bool no_diff;
     struct rpm *old_rpm = NULL;
     struct rpm *patched_rpm = NULL;
     unsigned char oldsig_md5[MD5_DIGEST_LENGTH];
@@ -550,10 +551,14 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
         goto cleanup;
     rpm_only = (delta.type == DRPM_TYPE_RPMONLY);
     no_full_md5 = (memcmp(empty_md5, delta.tgt_md5, MD5_DIGEST_LENGTH) == 0);
+    no_diff = (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
+               delta.int_copies_count == 0 && delta.ext_copies_count == 0);
 
     if (from_rpm) {
-        /* reading old RPM */
-        if ((error = rpm_read(&old_rpm, old_rpm_name, RPM_ARCHIVE_READ_DECOMP, NULL, NULL, NULL)) != DRPM_ERR_OK)
+        /* reading old RPM (no-diff DeltaRPMs take over the archive as it is) */
+        if ((error = rpm_read(&old_rpm, old_rpm_name,
+                              no_diff ? RPM_ARCHIVE_READ_UNCOMP : RPM_ARCHIVE_READ_DECOMP,
+                              NULL, NULL, NULL)) != DRPM_ERR_OK)
             goto cleanup;
         if (rpm_only) {
             /* comparing signature MD5 with DeltaRPM sequence */
@@ -604,8 +609,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     if ((error = rpm_replace_lead_and_signature(patched_rpm, delta.tgt_leadsig, delta.tgt_leadsig_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
-        delta.int_copies_count == 0 && delta.ext_copies_count == 0) {
+    if (no_diff) {
     /* no-diff DeltaRPM, no need for reconstruction */
         if ((error = rpm_write(patched_rpm, new_rpm_name, true, md5_digest, !no_full_md5)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From 924365553e1faf60837625a7560b51fb25699c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:43 +0000
Subject: [PATCH 03/42] fix: recompress to the recorded level when applying
 version 1 deltas

Version 1 deltas do not store the compression level of the target, so the
default level was always used and packages compressed with any other level
could never be reconstructed.  The level is in the header, which the delta
contains.
---
 src/drpm_read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 6e2ffea..41df7a7 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -420,6 +420,8 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     /* reading target compression from header (used for older delta versions) */
     if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK)
         return error;
+    if (rpm_get_comp_level(rpmst, &delta->tgt_comp_level) != DRPM_ERR_OK)
+        delta->tgt_comp_level = DRPM_COMP_LEVEL_DEFAULT;
 
     if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1)
         return DRPM_ERR_IO;
-- 
2.43.0


From faed7b3643ba4f41ca5488303a752bde8c0c8a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 04/42] fix: refuse compression levels the compressor does not
 accept

Failures to set up gzip, bzip2 and lzma compression because of the level
(which a delta or package may give as anything up to 99) were ignored, and
using the unset stream crashed or never ended.
---
 src/drpm_compstrm.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 758dea1..0a29077 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -301,6 +301,10 @@ int init_bzip2(struct compstrm *strm, int level)
     case BZ_MEM_ERROR:
         BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
+    case BZ_OK:
+        break;
+    default:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -326,6 +330,10 @@ int init_gzip(struct compstrm *strm, int level)
     case Z_MEM_ERROR:
         deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
+    case Z_OK:
+        break;
+    default:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -343,7 +351,8 @@ int init_lzma(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 2;
 
-    lzma_lzma_preset(&options, level);
+    if (lzma_lzma_preset(&options, level))
+        return DRPM_ERR_FORMAT;
 
     switch (lzma_alone_encoder(&strm->stream.lzma, &options)) {
     case LZMA_OK:
-- 
2.43.0


From a9769ae4b6d4a0d33b1c117b40a42e900aa91ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 05/42] fix: look up open files by their position in the
 archive

open_files and open_new_file() are indexed by position in cpio_files, but
fillblock_filesystem() passed the file's index in the header: with skipped
or reordered files the wrong file was read, or memory past the table.
---
 src/drpm_block.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 23d70b0..d99c18e 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -991,15 +991,15 @@ int fillblock_filesystem(struct blocks *blks, struct block *blk, size_t id, size
                     strncpy((char *)buf_ptr, blks->linkto + file_off, read_len);
             } else if (file_off < blks->files[cpio->index].size) {
                 read_len = MIN(len, blks->files[cpio->index].size - file_off);
-                file = get_open_file(blks, cpio->index);
+                file = get_open_file(blks, cpio - blks->cpio_files);
                 if (file == NULL) {
-                    if ((error = open_new_file(blks, &prelinked, cpio->index)) != DRPM_ERR_OK)
+                    if ((error = open_new_file(blks, &prelinked, cpio - blks->cpio_files)) != DRPM_ERR_OK)
                         break;
                     if (prelinked) {
                         blks->cpio_files_index = -1;
                         return fillblock_prelink(blks, blk, id, copy_cnt, cpio);
                     }
-                    file = get_open_file(blks, cpio->index);
+                    file = get_open_file(blks, cpio - blks->cpio_files);
                 }
                 if (file->offset != (off_t)file_off && lseek(file->filedesc, file_off, SEEK_SET) != (off_t)file_off) {
                     error = DRPM_ERR_IO;
-- 
2.43.0


From b7254ea414f94b080aae3f176f4991c844f7511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 06/42] fix: forget a file that was closed to open another one

The slot of the evicted file kept pointing to the list entry that now
belongs to the newly opened file, which was then read in its place.
---
 src/drpm_block.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index d99c18e..181188f 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -68,6 +68,7 @@ struct open_file {
     int filedesc;
     const char *name;
     off_t offset;
+    size_t index;
 };
 
 /* a block */
@@ -626,11 +627,13 @@ int open_new_file(struct blocks *blks, bool *prelinked, size_t index)
         else
             files_head->prev = NULL;
         close(new->filedesc);
+        blks->rpm_files.from_filesytem.open_files[new->index] = NULL;
     }
 
     new->filedesc = filedesc;
     new->name = file.name;
     new->offset = 0;
+    new->index = index;
     new->prev = NULL;
     new->next = NULL;
 
-- 
2.43.0


From 5ac3ef7085c29be777a09c66842565be68ee83a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 07/42] fix: own the header taken from the rpm database, and
 free its export

The exported copy was never freed, and on failure the header was freed
although it belongs to the iterator, which frees it again.
---
 src/drpm_rpm.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index a39510a..93a273c 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1015,14 +1015,16 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if (rpmst == NULL || nevr == NULL)
         return DRPM_ERR_PROG;
 
-    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL ||
-        (str = malloc(strlen(nevr) + 1)) == NULL) {
+    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL)
+        return DRPM_ERR_MEMORY;
+
+    rpm_init(*rpmst);
+
+    if ((str = malloc(strlen(nevr) + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
     }
 
-    rpm_init(*rpmst);
-
     strcpy(str, nevr);
     release = strrchr(str, '-');
     if (release == NULL || release == str) {
@@ -1068,10 +1070,12 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
         error = DRPM_ERR_NOINSTALL;
         goto cleanup_fail;
     }
+    headerLink((*rpmst)->header);
 
     if ((error = rpm_export_header(*rpmst, &header, &header_size)) != DRPM_ERR_OK)
         goto cleanup_fail;
 
+    headerFree((*rpmst)->header);
     if (((*rpmst)->header = headerImport(header + sizeof(rpm_header_magic), 0, HEADERIMPORT_COPY)) == NULL) {
         error = DRPM_ERR_OTHER;
         goto cleanup_fail;
@@ -1089,6 +1093,7 @@ cleanup_fail:
 cleanup:
     rpmdbFreeIterator(iter);
     rpmtsFree(trans);
+    free(header);
     free(str);
 
     return error;
-- 
2.43.0


From 4bf1540a9bf95261d34d36df78537aab625437fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:39 +0000
Subject: [PATCH 08/42] fix: refuse a sequence that names a file past the end
 of the list

The bounds were off by one: a sequence with one file too many, or with the
index just past the last file, was written and read out of bounds.
---
 src/drpm_apply.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index fc6e032..ee05ef7 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -146,7 +146,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
         }
 
         while (number-- > 0) {
-            if (positions_len > file_count || pos > file_count) {
+            if (positions_len >= file_count || pos >= file_count) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup_fail;
             }
-- 
2.43.0


From 38e58396cc4cce44b2afeed261f255a6e7f04563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 09/42] fix: refuse a sequence identifier with an odd number of
 digits

The last character was dropped, whatever it was, and the check went on
with what was left. Only the line break of a sequence file may be.
---
 src/drpm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 7e83921..52dc930 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -844,6 +844,7 @@ int drpm_check_sequence(const char *old_rpm_name, const char *sequence, int chec
     char *nevr = NULL;
     unsigned char *seq = NULL;
     size_t seq_len;
+    size_t hex_len;
     char *ptr;
     ptrdiff_t nevr_len;
     struct rpm *old_rpm = NULL;
@@ -868,8 +869,10 @@ int drpm_check_sequence(const char *old_rpm_name, const char *sequence, int chec
     if (ptr == NULL || ptr == sequence)
         return DRPM_ERR_FORMAT;
     nevr_len = ptr - sequence;
-    seq_len = (strlen(++ptr)) / 2;
-    if (seq_len < MD5_DIGEST_LENGTH) {
+    hex_len = strcspn(++ptr, "\n"); // may still have its line break
+    seq_len = hex_len / 2;
+    if (seq_len < MD5_DIGEST_LENGTH || hex_len % 2 != 0 ||
+        (ptr[hex_len] != '\0' && ptr[hex_len + 1] != '\0')) {
         error = DRPM_ERR_FORMAT;
         goto cleanup;
     }
-- 
2.43.0


From 771ab05a9347ba3989b84b4e1f928ec3a189580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:53 +0000
Subject: [PATCH 10/42] fix: refuse numbers in a sequence that do not fit

Digits were shifted by as much as the sequence asked for, also beyond the
width of the number.
---
 src/drpm_apply.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index ee05ef7..bd4df27 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -115,6 +115,10 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
             i++;
         }
         even = !even;
+        if (shift > sizeof(num) * 8 - 4) {
+            error = DRPM_ERR_FORMAT;
+            goto cleanup_fail;
+        }
         if ((num_buf & (1 << 3)) != 0) {
             num_buf ^= 1 << 3;
             if (shift)
-- 
2.43.0


From 4e5fed08feaa4da2919a8d80cfd24123d0486115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 11/42] fix: keep lengths and counts read from a delta from
 overflowing

Twice or eight times a 32-bit count, and a 32-bit length plus one, were
computed in 32 bits, so that less memory was allocated than was filled.
---
 src/drpm_read.c  | 23 ++++++++++++++++++-----
 src/drpm_write.c |  2 +-
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 41df7a7..8a99aa8 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -35,6 +35,9 @@
 #define MAGIC_DLT(x) (((x) >> 8) == 0x444C54)
 #define MAGIC_DLT3(x) ((x) == 0x444C5433)
 
+// pairs of 4-byte integers whose size in bytes still fits in 32 bits
+#define MAX_ELEMS (UINT32_MAX / 8)
+
 static int readdelta_rest(int, struct deltarpm *);
 static int readdelta_rpmonly(int, struct deltarpm *);
 static int readdelta_standard(int, struct deltarpm *);
@@ -121,7 +124,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     if ((error = decompstrm_read_be32(stream, &src_nevr_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if ((delta->src_nevr = malloc(src_nevr_len + 1)) == NULL) {
+    if ((delta->src_nevr = malloc((size_t)src_nevr_len + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
@@ -190,6 +193,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
                 (error = decompstrm_read_be32(stream, &delta->offadj_elems_count)) != DRPM_ERR_OK)
                 goto cleanup;
 
+            if (delta->offadj_elems_count > MAX_ELEMS) {
+                error = DRPM_ERR_OVERFLOW;
+                goto cleanup;
+            }
+
             if (delta->offadj_elems_count > 0) {
                 offadj_elems_size = delta->offadj_elems_count * 2;
                 if ((delta->offadj_elems = malloc(offadj_elems_size * 4)) == NULL) {
@@ -240,6 +248,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
         (error = decompstrm_read_be32(stream, &delta->ext_copies_count)) != DRPM_ERR_OK)
         goto cleanup;
 
+    if (delta->int_copies_count > MAX_ELEMS || delta->ext_copies_count > MAX_ELEMS) {
+        error = DRPM_ERR_OVERFLOW;
+        goto cleanup;
+    }
+
     int_copies_size = delta->int_copies_count * 2;
     ext_copies_size = delta->ext_copies_count * 2;
 
@@ -379,7 +392,7 @@ int readdelta_rpmonly(int filedesc, struct deltarpm *delta)
 
     /* reading target NEVR */
 
-    if ((delta->head.tgt_nevr = malloc(tgt_nevr_len + 1)) == NULL)
+    if ((delta->head.tgt_nevr = malloc((size_t)tgt_nevr_len + 1)) == NULL)
         return DRPM_ERR_MEMORY;
 
     if ((bytes_read = read(filedesc, delta->head.tgt_nevr, tgt_nevr_len)) < 0)
@@ -508,11 +521,11 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
     dst->ext_copies_size = src->ext_copies_count * 2;
 
     if ((dst->filename = malloc(strlen(src->filename) + 1)) == NULL ||
-        (dst->sequence = malloc(src->sequence_len * 2 + 1)) == NULL ||
+        (dst->sequence = malloc((size_t)src->sequence_len * 2 + 1)) == NULL ||
         (dst->src_nevr = malloc(strlen(src->src_nevr) + 1)) == NULL ||
         (src->tgt_comp_param_len > 0 &&
-         (dst->tgt_comp_param = malloc(src->tgt_comp_param_len * 2 + 1)) == NULL) ||
-        (dst->tgt_leadsig = malloc(src->tgt_leadsig_len * 2 + 1)) == NULL ||
+         (dst->tgt_comp_param = malloc((size_t)src->tgt_comp_param_len * 2 + 1)) == NULL) ||
+        (dst->tgt_leadsig = malloc((size_t)src->tgt_leadsig_len * 2 + 1)) == NULL ||
         (dst->offadj_elems_size > 0 &&
          (dst->offadj_elems = malloc(dst->offadj_elems_size * 4)) == NULL) ||
         (dst->int_copies_size > 0 &&
diff --git a/src/drpm_write.c b/src/drpm_write.c
index 87da972..cc4152e 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -280,7 +280,7 @@ int write_seqfile(struct deltarpm *delta, const char *filename)
     if ((file = fopen(filename, "w")) == NULL)
         return DRPM_ERR_IO;
 
-    if ((sequence = malloc(delta->sequence_len * 2 + 1)) == NULL) {
+    if ((sequence = malloc((size_t)delta->sequence_len * 2 + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
-- 
2.43.0


From 8c788d436feeb6ae3f0c628441173ae774b73418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:58 +0000
Subject: [PATCH 12/42] fix: leave no freed blocks behind when setting them up
 fails

The caller's pointer kept the freed structure, which was then destroyed
again; the old header and the table of open files were lost.
---
 src/drpm_block.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 181188f..8aca264 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -175,6 +175,8 @@ int blocks_create(struct blocks **blks_ret,
     if (blks_ret == NULL)
         return DRPM_ERR_PROG;
 
+    *blks_ret = NULL;
+
     if (block_count >= UINT32_MAX)
         return DRPM_ERR_OVERFLOW;
 
@@ -239,6 +241,11 @@ int blocks_create(struct blocks **blks_ret,
 
 cleanup:
     free(*blks_ret);
+    *blks_ret = NULL;
+    if (blks.from_rpm)
+        free(blks.rpm_files.from_rpm.old_header);
+    else
+        free(blks.rpm_files.from_filesytem.open_files);
     free(blks.blocks_table);
     free(blks.blocks_max);
     free(blks.cpio_buffer);
-- 
2.43.0


From f720075bb9ae4dae4fabfbd7c3481233e80a4b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:58 +0000
Subject: [PATCH 13/42] fix: import no more of a signature than there is in the
 delta

The size of the signature was taken from the signature itself, and as
much was read whatever the length of the buffer.
---
 src/drpm_rpm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 93a273c..b00978e 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -550,6 +550,7 @@ cleanup:
 int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, size_t leadsig_len)
 {
     const size_t skip = RPMLEAD_SIZE + sizeof(rpm_header_magic);
+    size_t sig_len;
 
     if (rpmst == NULL || leadsig == NULL || leadsig_len < RPM_LEADSIG_MIN_LEN)
         return DRPM_ERR_PROG;
@@ -557,11 +558,16 @@ int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, si
     if (memcmp(leadsig + RPMLEAD_SIZE, rpm_header_magic, 4) != 0)
         return DRPM_ERR_FORMAT;
 
+    /* signature: number of index entries (16 bytes each), size of data, index, data */
+    sig_len = 8 + 16 * (size_t)parse_be32(leadsig + skip) + parse_be32(leadsig + skip + 4);
+    if (sig_len > leadsig_len - skip)
+        return DRPM_ERR_FORMAT;
+
     memcpy(rpmst->lead, leadsig, RPMLEAD_SIZE);
 
     headerFree(rpmst->signature);
 
-    if ((rpmst->signature = headerImport(leadsig + skip, 0, HEADERIMPORT_COPY)) == NULL)
+    if ((rpmst->signature = headerImport(leadsig + skip, sig_len, HEADERIMPORT_COPY)) == NULL)
         return DRPM_ERR_FORMAT;
 
     return DRPM_ERR_OK;
-- 
2.43.0


From 943a461e7f451d7dc7f40c8c531264ca6dd660b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 14/42] fix: refuse archive entries that have no room for a
 name

---
 src/drpm_block.c | 5 +++++
 src/drpm_make.c  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 8aca264..abb14fd 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -802,6 +802,11 @@ int fillblock_rpm_standard(struct blocks *blks, struct block *blk, size_t id, si
             c_filesize = cpio_hdr.filesize;
             c_filesize += CPIO_PADDING(c_filesize);
 
+            if (c_namesize == 0) {
+                error = DRPM_ERR_FORMAT;
+                break;
+            }
+
             if (c_namesize > name_buffer_len) {
                 if ((name_buffer_tmp = realloc(name_buffer, c_namesize)) == NULL) {
                     error = DRPM_ERR_MEMORY;
diff --git a/src/drpm_make.c b/src/drpm_make.c
index 00d2f10..37940e7 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -353,6 +353,11 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
         c_filesize = cpio_hdr.filesize;
         c_namesize = cpio_hdr.namesize;
 
+        if (c_namesize == 0) {
+            error = DRPM_ERR_FORMAT;
+            goto cleanup_fail;
+        }
+
         if (c_namesize > name_buffer_len) {
             if ((name_buffer_tmp = realloc(name_buffer, c_namesize)) == NULL) {
                 error = DRPM_ERR_MEMORY;
-- 
2.43.0


From ec127376da2b5a938ba2fb7cdce49eeec452d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:09 +0000
Subject: [PATCH 15/42] fix: report a corrupt or incomplete payload instead of
 taking it for the end

---
 src/drpm_decompstrm.c | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index ec3115e..184d124 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -70,6 +70,8 @@ struct decompstrm {
     MD5_CTX *md5;
     const unsigned char *buffer;
     size_t buffer_len;
+    bool input_end; // nothing left to read
+    bool complete; // the compressed data ended where it should
 };
 
 static void finish_bzip2(struct decompstrm *);
@@ -290,6 +292,8 @@ int decompstrm_init(struct decompstrm **strm, int filedesc, unsigned short *comp
     (*strm)->md5 = md5;
     (*strm)->buffer = buffer;
     (*strm)->buffer_len = buffer_len;
+    (*strm)->input_end = false;
+    (*strm)->complete = false;
 
     if (MAGIC_GZIP(magic)) {
         if (comp != NULL)
@@ -330,6 +334,7 @@ int decompstrm_init(struct decompstrm **strm, int filedesc, unsigned short *comp
             *comp = DRPM_COMP_NONE;
         (*strm)->read_chunk = readchunk;
         (*strm)->finish = NULL;
+        (*strm)->complete = true;
     }
 
     return DRPM_ERR_OK;
@@ -424,7 +429,9 @@ int decompstrm_read_until_eof(struct decompstrm *strm,
         switch ((error = strm->read_chunk(strm))) {
         case DRPM_ERR_OK:
             break;
-        case DRPM_ERR_FORMAT: // nothing more to read
+        case DRPM_ERR_FORMAT: // corrupt, or nothing more to read
+            if (!strm->input_end || !strm->complete)
+                return DRPM_ERR_FORMAT;
             eof = true;
             break;
         default:
@@ -466,8 +473,10 @@ int readchunk(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->input_end = true;
         return DRPM_ERR_FORMAT;
+    }
 
     if ((data_tmp = realloc(strm->data, strm->data_len + in_len)) == NULL)
         return DRPM_ERR_MEMORY;
@@ -502,8 +511,10 @@ int readchunk_bzip2(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->input_end = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.bzip2.next_in = in_buffer;
     strm->stream.bzip2.avail_in = in_len;
@@ -517,6 +528,9 @@ int readchunk_bzip2(struct decompstrm *strm)
             return DRPM_ERR_FORMAT;
         case BZ_MEM_ERROR:
             return DRPM_ERR_MEMORY;
+        case BZ_STREAM_END:
+            strm->complete = true;
+            break;
         }
         out_len = CHUNK_SIZE - strm->stream.bzip2.avail_out;
         if (out_len == 0)
@@ -555,8 +569,10 @@ int readchunk_gzip(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->input_end = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.gzip.next_in = in_buffer;
     strm->stream.gzip.avail_in = in_len;
@@ -571,6 +587,9 @@ int readchunk_gzip(struct decompstrm *strm)
             return DRPM_ERR_FORMAT;
         case Z_MEM_ERROR:
             return DRPM_ERR_MEMORY;
+        case Z_STREAM_END:
+            strm->complete = true;
+            break;
         }
         out_len = CHUNK_SIZE - strm->stream.gzip.avail_out;
         if (out_len == 0)
@@ -609,8 +628,10 @@ int readchunk_lzma(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->input_end = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.lzma.next_in = in_buffer;
     strm->stream.lzma.avail_in = in_len;
@@ -620,7 +641,9 @@ int readchunk_lzma(struct decompstrm *strm)
         strm->stream.lzma.avail_out = CHUNK_SIZE;
         switch (lzma_code(&strm->stream.lzma, LZMA_RUN)) {
         case LZMA_OK:
+            break;
         case LZMA_STREAM_END:
+            strm->complete = true;
             break;
         case LZMA_FORMAT_ERROR:
         case LZMA_OPTIONS_ERROR:
@@ -664,8 +687,10 @@ int readchunk_lzip(struct decompstrm *strm)
     int wr;
     int rd;
 
-    if (strm->lzip_eof)
+    if (strm->lzip_eof) {
+        strm->input_end = true;
         return DRPM_ERR_FORMAT;
+    }
 
     if (strm->filedesc < 0) {
         in_len = MIN(CHUNK_SIZE, strm->buffer_len);
@@ -694,6 +719,7 @@ int readchunk_lzip(struct decompstrm *strm)
             memcpy(strm->data + strm->data_len, out_buffer, out_len);
             strm->data_len += out_len;
         } while (!LZ_decompress_finished(strm->stream.lzip));
+        strm->complete = true;
     } else {
         while (written < in_len) {
             if (LZ_decompress_write_size(strm->stream.lzip) > 0) {
@@ -746,8 +772,10 @@ int readchunk_zstd(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->input_end = true;
         return DRPM_ERR_FORMAT;
+    }
 
     size_t const buffOutSize = ZSTD_DStreamOutSize();
     void* const buffOut = malloc(buffOutSize);
@@ -761,6 +789,7 @@ int readchunk_zstd(struct decompstrm *strm)
         size_t const ret = ZSTD_decompressStream(strm->stream.zstd_context, &output , &input);
         if (ZSTD_isError(ret))
             return DRPM_ERR_OTHER;
+        strm->complete = (ret == 0);
         if (output.pos == 0)
             continue;
         if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
-- 
2.43.0


From b29467017327cb238ef8d632172d5defd2ca243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:51 +0000
Subject: [PATCH 16/42] fix: parse no digest longer than the room for it

---
 src/drpm_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_utils.c b/src/drpm_utils.c
index 6ef0f2f..229e975 100644
--- a/src/drpm_utils.c
+++ b/src/drpm_utils.c
@@ -146,12 +146,14 @@ ssize_t parse_hexnum(const char *str, size_t size)
 
 bool parse_md5(unsigned char *dest, const char *source)
 {
-    return parse_hex(dest, source) == MD5_DIGEST_LENGTH;
+    return strlen(source) == MD5_DIGEST_LENGTH * 2 &&
+           parse_hex(dest, source) == MD5_DIGEST_LENGTH;
 }
 
 bool parse_sha256(unsigned char *dest, const char *source)
 {
-    return parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
+    return strlen(source) == SHA256_DIGEST_LENGTH * 2 &&
+           parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
 }
 
 /* Reallocates memory for <*buffer> <threshold> bytes at a time>. */
-- 
2.43.0


From 32a10cc9d94a61e4c80fa3c3a3966223a0f915f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:50 +0000
Subject: [PATCH 17/42] fix: have rpmlib make file names only from tags that
 fit together

---
 src/drpm_rpm.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index b00978e..dee4b45 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -55,6 +55,7 @@ static void rpm_free(struct rpm *);
 static int rpm_export_header(struct rpm *, unsigned char **, size_t *);
 static int rpm_export_signature(struct rpm *, unsigned char **, size_t *);
 static void rpm_header_unload_region(struct rpm *, rpmTagVal);
+static bool rpm_has_valid_filenames(struct rpm *);
 static int rpm_read_archive(struct rpm *, const char *, off_t, bool,
                             unsigned short *, MD5_CTX *, MD5_CTX *);
 
@@ -726,6 +727,38 @@ int rpm_patch_payload_format(struct rpm *rpmst, const char *new_payfmt)
     return DRPM_ERR_OK;
 }
 
+/* Checks that the tags which rpmlib makes file names from fit together;
+ * rpmlib itself takes this for granted. */
+bool rpm_has_valid_filenames(struct rpm *rpmst)
+{
+    rpmtd basenames = rpmtdNew();
+    rpmtd dirnames = rpmtdNew();
+    rpmtd dirindexes = rpmtdNew();
+    const uint32_t *dirindex;
+    bool valid = true;
+
+    if (headerGet(rpmst->header, RPMTAG_BASENAMES, basenames, HEADERGET_MINMEM | HEADERGET_RAW) == 1) {
+        valid = headerGet(rpmst->header, RPMTAG_DIRNAMES, dirnames, HEADERGET_MINMEM | HEADERGET_RAW) == 1 &&
+                headerGet(rpmst->header, RPMTAG_DIRINDEXES, dirindexes, HEADERGET_MINMEM | HEADERGET_RAW) == 1 &&
+                rpmtdType(basenames) == RPM_STRING_ARRAY_TYPE &&
+                rpmtdType(dirnames) == RPM_STRING_ARRAY_TYPE &&
+                rpmtdType(dirindexes) == RPM_INT32_TYPE &&
+                rpmtdCount(basenames) == rpmtdCount(dirindexes);
+        while (valid && (dirindex = rpmtdNextUint32(dirindexes)) != NULL)
+            valid = *dirindex < rpmtdCount(dirnames);
+    }
+
+    rpmtdFreeData(basenames);
+    rpmtdFreeData(dirnames);
+    rpmtdFreeData(dirindexes);
+
+    rpmtdFree(basenames);
+    rpmtdFree(dirnames);
+    rpmtdFree(dirindexes);
+
+    return valid;
+}
+
 /* Fetches a list of file information from the header. */
 int rpm_get_file_info(struct rpm *rpmst, struct file_info **files_ret,
                       size_t *count_ret, bool *colors_ret)
@@ -757,6 +790,9 @@ int rpm_get_file_info(struct rpm *rpmst, struct file_info **files_ret,
     if (rpmst == NULL || files_ret == NULL || count_ret == NULL)
         return DRPM_ERR_PROG;
 
+    if (!rpm_has_valid_filenames(rpmst))
+        return DRPM_ERR_FORMAT;
+
     filenames = rpmtdNew();
     fileflags = rpmtdNew();
     filemd5s = rpmtdNew();
-- 
2.43.0


From 5fe791ae2c4640b2ca54893829737503b05a993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 18/42] fix: read lists of patched files as they are written

---
 src/drpm_make.c | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 37940e7..870e32e 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -654,6 +654,7 @@ int rpml_get_uint32(int filedesc, uint32_t *ret)
 int rpml_get_string(int filedesc, char **ret)
 {
     uint8_t len;
+    char skipped[UINT8_MAX];
 
     if (read(filedesc, &len, 1) != 1)
         return DRPM_ERR_FORMAT;
@@ -663,9 +664,13 @@ int rpml_get_string(int filedesc, char **ret)
             return DRPM_ERR_MEMORY;
         if (read(filedesc, *ret, len) != len) {
             free(*ret);
+            *ret = NULL;
             return DRPM_ERR_FORMAT;
         }
         (*ret)[len] = '\0';
+    } else {
+        if (read(filedesc, skipped, len) != len)
+            return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -692,6 +697,9 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
 
     off = buf[0];
 
+    if (off > ((filename == NULL) ? 0 : strlen(filename)))
+        return DRPM_ERR_FORMAT;
+
     if (buf[1] == 0xFF) {
         if ((error = rpml_get_uint16(filedesc, &len)) != DRPM_ERR_OK)
             return error;
@@ -707,14 +715,14 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
         filename_len = new_filename_len;
     }
 
+    *filename_ret = filename;
+    *filename_len_ret = filename_len;
+
     if (read(filedesc, filename + off, len) != len)
         return DRPM_ERR_FORMAT;
 
     filename[off + len] = '\0';
 
-    *filename_ret = filename;
-    *filename_len_ret = filename_len;
-
     return DRPM_ERR_OK;
 }
 
@@ -729,7 +737,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
 {
     int error = DRPM_ERR_OK;
     char *filename = NULL;
-    uint32_t filename_len;
+    uint32_t filename_len = 0;
     const char *fname;
     uint32_t magic;
     char *name = NULL;
@@ -740,6 +748,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
     uint8_t num2;
     unsigned char buf[4];
     uint8_t read_bytes;
+    struct patch_file *file;
 
     if (!skip_magic) {
         if ((error = rpml_get_uint32(filedesc, &magic)) != DRPM_ERR_OK)
@@ -753,7 +762,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
         goto cleanup;
 
     if ((patch->nevr = malloc(strlen(name) + strlen(evr) + 2)) == NULL) {
-        error = DRPM_ERR_FORMAT;
+        error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
 
@@ -777,10 +786,11 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                 error = DRPM_ERR_MEMORY;
                 goto cleanup;
             }
-            if ((error = rpml_get_filename(filedesc, &filename, &filename_len)))
+            if ((error = rpml_get_filename(filedesc, &filename, &filename_len)) != DRPM_ERR_OK)
                 goto cleanup;
             if ((patch->files[patch->file_count].name = malloc(strlen(filename) + 1)) == NULL) {
                 error = DRPM_ERR_MEMORY;
+                goto cleanup;
             }
             strcpy(patch->files[patch->file_count].name, filename);
             patch->files[patch->file_count].mode = S_IFREG;
@@ -809,13 +819,16 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             goto cleanup;
         }
 
+        strcpy(patch->files[patch->file_count].name, fname);
         patch->files[patch->file_count].flags = RPMFILE_NONE;
         memset(patch->files[patch->file_count].md5, 0, MD5_DIGEST_LENGTH);
+        patch->file_count++;
+        file = patch->files + patch->file_count - 1;
 
-        if ((error = rpml_get_uint16(filedesc, &patch->files[patch->file_count].mode)) != DRPM_ERR_OK)
+        if ((error = rpml_get_uint16(filedesc, &file->mode)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if (patch->files[patch->file_count].mode != 0) {
+        if (file->mode != 0) {
             if (read(filedesc, &num, 1) != 1) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup;
@@ -836,23 +849,21 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                     goto cleanup;
             }
 
-            if ((S_ISCHR(patch->files[patch->file_count].mode) || S_ISBLK(patch->files[patch->file_count].mode)) &&
+            if ((S_ISCHR(file->mode) || S_ISBLK(file->mode)) &&
                 (error = rpml_get_uint32(filedesc, NULL)) != DRPM_ERR_OK) // rdev
                 goto cleanup;
 
-            if (S_ISREG(patch->files[patch->file_count].mode) || S_ISLNK(patch->files[patch->file_count].mode)) {
+            if (S_ISREG(file->mode) || S_ISLNK(file->mode)) {
                 read_bytes = (num % 4) + 1;
                 memset(buf, 0, 4);
-                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes &&
-                    parse_be32(buf) > 0 &&
-                    read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH) {
+                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes ||
+                    (parse_be32(buf) > 0 &&
+                     read(filedesc, file->md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
                     error = DRPM_ERR_FORMAT;
                     goto cleanup;
                 }
             }
         }
-
-        patch->file_count++;
     }
 
 cleanup:
@@ -885,7 +896,7 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
         return DRPM_ERR_OK;
     }
 
-    if ((*patches = malloc(sizeof(struct rpm_patches))) == NULL)
+    if ((*patches = calloc(1, sizeof(struct rpm_patches))) == NULL)
         return DRPM_ERR_MEMORY;
 
     rpmprint = &(*patches)->rpmprint;
-- 
2.43.0


From e2bf3337df59b3f60e105dff7f19314ffd226090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 19/42] fix: give every file of a package with patch
 information its room

---
 src/drpm_make.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 870e32e..b079440 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -883,8 +883,8 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
     struct patch_info *patchrpm;
     uint32_t magic;
     struct rpm *rpmst = NULL;
-    struct file_info *files;
-    size_t file_count;
+    struct file_info *files = NULL;
+    size_t file_count = 0;
     char *fname;
 
     if (patches == NULL)
@@ -926,11 +926,11 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             (error = rpm_get_nevr(rpmst, &rpmprint->nevr)) != DRPM_ERR_OK ||
             (error = rpm_get_file_info(rpmst, &files, &file_count, NULL)) != DRPM_ERR_OK)
             goto cleanup_fail;
-        if ((rpmprint->files = malloc(file_count)) == NULL) {
+        if (file_count > 0 &&
+            (rpmprint->files = malloc(file_count * sizeof(struct patch_file))) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup_fail;
         }
-        rpmprint->file_count = file_count;
         for (size_t i = 0; i < file_count; i++) {
             fname = files[i].name;
             if (fname[0] == '/')
@@ -939,13 +939,12 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
                 error = DRPM_ERR_MEMORY;
                 goto cleanup_fail;
             }
+            rpmprint->file_count++;
             strcpy(rpmprint->files[i].name, fname);
             rpmprint->files[i].mode = files[i].mode;
             rpmprint->files[i].flags = files[i].flags;
-            if (!parse_md5(rpmprint->files[i].md5, files[i].md5)) {
-                error = DRPM_ERR_FORMAT;
-                goto cleanup_fail;
-            }
+            if (!parse_md5(rpmprint->files[i].md5, files[i].md5)) // none for directories, links...
+                memset(rpmprint->files[i].md5, 0, MD5_DIGEST_LENGTH);
         }
         break;
     case MAGIC_RPML:
@@ -963,7 +962,15 @@ cleanup_fail:
     patches_destroy(patches);
 
 cleanup:
-    close(filedesc);
+    for (size_t i = 0; i < file_count; i++) {
+        free(files[i].name);
+        free(files[i].md5);
+        free(files[i].linkto);
+    }
+    free(files);
+    rpm_destroy(&rpmst);
+    if (filedesc >= 0)
+        close(filedesc);
 
     return error;
 }
-- 
2.43.0


From b92ab6ac6054367b7395ac0a77c774fd03f63c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:38 +0000
Subject: [PATCH 20/42] fix: take the print for the print and the patch for the
 patch

---
 src/drpm_make.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index b079440..e780718 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -902,17 +902,17 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
     rpmprint = &(*patches)->rpmprint;
     patchrpm = &(*patches)->patchrpm;
 
-    if ((filedesc = open(oldpatchrpm, O_RDONLY)) < 0) {
+    if ((filedesc = open(oldrpmprint, O_RDONLY)) < 0) {
         error = DRPM_ERR_IO;
         goto cleanup_fail;
     }
 
-    if ((error = read_rpmlist(filedesc, patchrpm, false)) != DRPM_ERR_OK)
+    if ((error = read_rpmlist(filedesc, rpmprint, false)) != DRPM_ERR_OK)
         goto cleanup_fail;
 
     close(filedesc);
 
-    if ((filedesc = open(oldrpmprint, O_RDONLY)) < 0) {
+    if ((filedesc = open(oldpatchrpm, O_RDONLY)) < 0) {
         error = DRPM_ERR_IO;
         goto cleanup_fail;
     }
@@ -922,12 +922,12 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
 
     switch (magic) {
     case MAGIC_RPM:
-        if ((error = rpm_read(&rpmst, oldrpmprint, RPM_ARCHIVE_DONT_READ, NULL, NULL, NULL)) != DRPM_ERR_OK ||
-            (error = rpm_get_nevr(rpmst, &rpmprint->nevr)) != DRPM_ERR_OK ||
+        if ((error = rpm_read(&rpmst, oldpatchrpm, RPM_ARCHIVE_DONT_READ, NULL, NULL, NULL)) != DRPM_ERR_OK ||
+            (error = rpm_get_nevr(rpmst, &patchrpm->nevr)) != DRPM_ERR_OK ||
             (error = rpm_get_file_info(rpmst, &files, &file_count, NULL)) != DRPM_ERR_OK)
             goto cleanup_fail;
         if (file_count > 0 &&
-            (rpmprint->files = malloc(file_count * sizeof(struct patch_file))) == NULL) {
+            (patchrpm->files = malloc(file_count * sizeof(struct patch_file))) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup_fail;
         }
@@ -935,20 +935,20 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             fname = files[i].name;
             if (fname[0] == '/')
                 fname++;
-            if ((rpmprint->files[i].name = malloc(strlen(fname) + 1)) == NULL) {
+            if ((patchrpm->files[i].name = malloc(strlen(fname) + 1)) == NULL) {
                 error = DRPM_ERR_MEMORY;
                 goto cleanup_fail;
             }
-            rpmprint->file_count++;
-            strcpy(rpmprint->files[i].name, fname);
-            rpmprint->files[i].mode = files[i].mode;
-            rpmprint->files[i].flags = files[i].flags;
-            if (!parse_md5(rpmprint->files[i].md5, files[i].md5)) // none for directories, links...
-                memset(rpmprint->files[i].md5, 0, MD5_DIGEST_LENGTH);
+            patchrpm->file_count++;
+            strcpy(patchrpm->files[i].name, fname);
+            patchrpm->files[i].mode = files[i].mode;
+            patchrpm->files[i].flags = files[i].flags;
+            if (!parse_md5(patchrpm->files[i].md5, files[i].md5)) // none for directories, links...
+                memset(patchrpm->files[i].md5, 0, MD5_DIGEST_LENGTH);
         }
         break;
     case MAGIC_RPML:
-        if ((error = read_rpmlist(filedesc, rpmprint, true)) != DRPM_ERR_OK)
+        if ((error = read_rpmlist(filedesc, patchrpm, true)) != DRPM_ERR_OK)
             goto cleanup_fail;
         break;
     default:
@@ -1016,22 +1016,22 @@ bool is_unpatched(const struct rpm_patches *patches, const char *name,
     size_t i;
     char patch_md5[MD5_DIGEST_LENGTH * 2 + 1];
 
-    for (i = 0; i < patches->rpmprint.file_count; i++)
-        if (strcmp(name, patches->rpmprint.files[i].name) == 0)
+    for (i = 0; i < patches->patchrpm.file_count; i++)
+        if (strcmp(name, patches->patchrpm.files[i].name) == 0)
             break;
 
-    if (i == patches->rpmprint.file_count ||
-        !(patches->rpmprint.files[i].flags & RPMFILE_UNPATCHED))
+    if (i == patches->patchrpm.file_count ||
+        !(patches->patchrpm.files[i].flags & RPMFILE_UNPATCHED))
         return false;
 
-    for (i = 0; i < patches->patchrpm.file_count; i++)
-        if (strcmp(name, patches->patchrpm.files[i].name) == 0)
+    for (i = 0; i < patches->rpmprint.file_count; i++)
+        if (strcmp(name, patches->rpmprint.files[i].name) == 0)
             break;
 
-    if (i == patches->patchrpm.file_count) // shouldn't happen
+    if (i == patches->rpmprint.file_count) // shouldn't happen
         return true;
 
-    dump_hex(patch_md5, patches->patchrpm.files[i].md5, MD5_DIGEST_LENGTH);
+    dump_hex(patch_md5, patches->rpmprint.files[i].md5, MD5_DIGEST_LENGTH);
 
     return (strcmp(rpm_md5, patch_md5) != 0);
 }
-- 
2.43.0


From 829a2430b2e2cd26dd06aad22b989d2a46b2d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 21/42] fix: search no match in less data than is hashed at
 once

---
 src/drpm_search.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/drpm_search.c b/src/drpm_search.c
index 008b7f8..7de1315 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -231,20 +231,20 @@ size_t hash_search(struct hash *hsh,
 
     uint32_t key;
     uint32_t key2;
-    uint32_t prekey = (scan <= new_len - HSIZE) ? buzhash(new + scan) : 0;
+    uint32_t prekey = (scan + HSIZE <= new_len) ? buzhash(new + scan) : 0;
     uint32_t xprekey;
 
     hash_table = hsh->hash_table;
     ht_len = hsh->ht_len;
     scan_start = scan;
     old_score = old_score_num = old_score_start = 0;
-    prekey = (scan <= new_len - HSIZE) ? buzhash(new + scan) : 0;
+    prekey = (scan + HSIZE <= new_len) ? buzhash(new + scan) : 0;
     pos = 0;
     len = 0;
     last_pos = last_scan = last_len = 0;
 
     while (true) {
-        if (scan >= new_len - HSIZE) {
+        if (scan + HSIZE >= new_len) {
             if (last_len >= 32)
                 goto gotit;
             break;
@@ -353,7 +353,7 @@ gotit:
         last_len = 0;
     }
 
-    if (scan >= new_len - HSIZE) {
+    if (scan + HSIZE >= new_len) {
       scan = new_len;
       pos = 0;
       len = 0;
-- 
2.43.0


From de54f32eca19c5ec96a06bcae706cfed024135f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 22/42] fix: tell an incomplete lzip payload from one decoded
 to the end

---
 src/drpm_decompstrm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index 184d124..9bf8f54 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -718,7 +718,11 @@ int readchunk_lzip(struct decompstrm *strm)
             strm->data = data_tmp;
             memcpy(strm->data + strm->data_len, out_buffer, out_len);
             strm->data_len += out_len;
-        } while (!LZ_decompress_finished(strm->stream.lzip));
+        } while ((rd = LZ_decompress_finished(strm->stream.lzip)) == 0);
+        if (rd < 0) {
+            error = lzip_error(strm);
+            return error == DRPM_ERR_OK ? DRPM_ERR_OTHER : error;
+        }
         strm->complete = true;
     } else {
         while (written < in_len) {
-- 
2.43.0


From 683f12578b50e8bcfe320880e1c2ba9674132d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 23/42] fix: copy no more of a link's target than is left of it

---
 src/drpm_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index abb14fd..b305d6f 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1141,7 +1141,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
             } else if (S_ISLNK(blks->files[cpio->index].mode)) {
                 file_off = off - (cpio->offset + cpio->header_len);
                 linkto = blks->files[cpio->index].linkto;
-                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto));
+                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto) - file_off);
                 if (read_len) {
                     memcpy(buf_ptr, linkto + file_off, read_len);
                     buf_ptr += read_len;
-- 
2.43.0


From 08541bbd083881a8fad332814a0034fb9712aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 24/42] fix: free no part of the section table when it names no
 string table

---
 src/drpm_apply.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index bd4df27..6d615e6 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -530,6 +530,7 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
     int i;
     int stridx;
     unsigned char *sects = NULL;
+    const unsigned char *strhdr;
     unsigned char *strsect = NULL;
     unsigned slen;
     unsigned o;
@@ -583,14 +584,14 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    strsect = sects + stridx * ssiz;
-    if (elf32(strsect + 4, le) != 3) {
+    strhdr = sects + stridx * ssiz;
+    if (elf32(strhdr + 4, le) != 3) {
         is_prelinked = false;
         goto cleanup;
     }
 
-    soff = elf64(is64 ? strsect + 24 : strsect + 16, le, is64);
-    slen = elf64(is64 ? strsect + 32 : strsect + 20, le, is64);
+    soff = elf64(is64 ? strhdr + 24 : strhdr + 16, le, is64);
+    slen = elf64(is64 ? strhdr + 32 : strhdr + 20, le, is64);
     if (soff == (off_t)~0 || slen == (unsigned)~0 || (int)slen < 0) {
         is_prelinked = false;
         goto cleanup;
-- 
2.43.0


From f9ec3457c90d80ade4b79e155b225f3235cf0765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 25/42] fix: keep a page block that is in the list when it
 cannot be written

---
 src/drpm_block.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index b305d6f..35b78f1 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -494,6 +494,11 @@ int write_page_block(struct blocks *blks, const struct block *blk, size_t copy_c
             break;
 
     if (new == NULL) {
+        if (blks->page_filedesc < 0) {
+            if ((blks->page_filedesc = mkstemp(template)) < 0)
+                return DRPM_ERR_IO;
+            unlink(template);
+        }
         if ((new = malloc(sizeof(struct block))) == NULL)
             return DRPM_ERR_MEMORY;
         new->type = BLK_PAGE;
@@ -501,21 +506,12 @@ int write_page_block(struct blocks *blks, const struct block *blk, size_t copy_c
         new->next = blks->page_blocks;
         blks->page_blocks = new;
         blks->page_blocks_count++;
-        if (blks->page_filedesc < 0) {
-            if ((blks->page_filedesc = mkstemp(template)) < 0) {
-                free(new);
-                return DRPM_ERR_IO;
-            }
-            unlink(template);
-        }
     }
 
     new->id = blk->id;
 
-    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE) {
-        free(new);
+    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE)
         return DRPM_ERR_IO;
-    }
 
     blks->blocks_table[new->id] = new;
 
-- 
2.43.0


From b6c188b2949d1050372ec88f8a79f37a415df40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 26/42] fix: report a failure to close the file written

---
 src/drpm.c       | 3 ++-
 src/drpm_rpm.c   | 3 ++-
 src/drpm_write.c | 9 ++++++---
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 52dc930..d0553d4 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -760,7 +760,8 @@ final_check:
 
 cleanup:
 
-    close(filedesc);
+    if (close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     for (size_t i = 0; i < file_count; i++) {
         free(files[i].name);
diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index dee4b45..f9df785 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -540,7 +540,8 @@ int rpm_write(struct rpm *rpmst, const char *filename, bool include_archive, uns
     }
 
 cleanup:
-    Fclose(file);
+    if (Fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
     free(signature);
     free(header);
 
diff --git a/src/drpm_write.c b/src/drpm_write.c
index cc4152e..c5d00f6 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -266,7 +266,8 @@ cleanup:
 
     free(header);
     free(strm_data);
-    close(filedesc);
+    if (!(filedesc < 0) && close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
@@ -287,11 +288,13 @@ int write_seqfile(struct deltarpm *delta, const char *filename)
 
     dump_hex(sequence, delta->sequence, delta->sequence_len);
 
-    fprintf(file, "%s-%s\n", delta->src_nevr, sequence);
+    if (fprintf(file, "%s-%s\n", delta->src_nevr, sequence) < 0)
+        error = DRPM_ERR_IO;
 
 cleanup:
     free(sequence);
-    fclose(file);
+    if (fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
-- 
2.43.0


From abc2430bb7320004407830501ae8952c38274242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 27/42] fix: end a compressor together with its stream,
 finished or not

---
 src/drpm_compstrm.c | 134 ++++++++++++++++++++++++++------------------
 1 file changed, 80 insertions(+), 54 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 0a29077..f9d0a9d 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -55,9 +55,13 @@ struct compstrm {
     } stream;
     int (*write_chunk)(struct compstrm *, size_t, const void *);
     int (*finish)(struct compstrm *);
+    void (*end)(struct compstrm *);
     bool finished;
 };
 
+static void end_bzip2(struct compstrm *);
+static void end_gzip(struct compstrm *);
+static void end_lzma(struct compstrm *);
 static int finish_bzip2(struct compstrm *);
 static int finish_gzip(struct compstrm *);
 static int finish_lzma(struct compstrm *);
@@ -71,6 +75,7 @@ static int writechunk_gzip(struct compstrm *, size_t, const void *);
 static int writechunk_lzma(struct compstrm *, size_t, const void *);
 
 #ifdef HAVE_LZLIB_DEVEL
+static void end_lzip(struct compstrm *);
 static int finish_lzip(struct compstrm *);
 static int init_lzip(struct compstrm *, int);
 static int writechunk_lzip(struct compstrm *, size_t, const void *);
@@ -92,16 +97,47 @@ static int lzip_error(struct compstrm *strm)
 #endif
 
 #ifdef WITH_ZSTD
+static void end_zstd(struct compstrm *);
 static int finish_zstd(struct compstrm *);
 static int init_zstd(struct compstrm *, int);
 static int writechunk_zstd(struct compstrm *, size_t, const void *);
 #endif
 
+/* Functions for releasing the compressors of individual methods. */
+
+void end_bzip2(struct compstrm *strm)
+{
+    BZ2_bzCompressEnd(&strm->stream.bzip2);
+}
+
+void end_gzip(struct compstrm *strm)
+{
+    deflateEnd(&strm->stream.gzip);
+}
+
+void end_lzma(struct compstrm *strm)
+{
+    lzma_end(&strm->stream.lzma);
+}
+
+#ifdef HAVE_LZLIB_DEVEL
+void end_lzip(struct compstrm *strm)
+{
+    LZ_compress_close(strm->stream.lzip);
+}
+#endif
+
+#ifdef WITH_ZSTD
+void end_zstd(struct compstrm *strm)
+{
+    ZSTD_freeCCtx(strm->stream.zstd_context);
+}
+#endif
+
 /* Functions for finishing compression for individual methods. */
 
 int finish_bzip2(struct compstrm *strm)
 {
-    int error = DRPM_ERR_OK;
     int ret;
     unsigned char *data_tmp;
     char out_buffer[CHUNK_SIZE];
@@ -117,24 +153,18 @@ int finish_bzip2(struct compstrm *strm)
         out_len = CHUNK_SIZE - strm->stream.bzip2.avail_out;
         if (out_len == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL) {
-            error = DRPM_ERR_MEMORY;
-            goto cleanup;
-        }
+        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL)
+            return DRPM_ERR_MEMORY;
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, out_buffer, out_len);
         strm->data_len += out_len;
     } while (ret != BZ_STREAM_END);
 
-cleanup:
-    BZ2_bzCompressEnd(&strm->stream.bzip2);
-
-    return error;
+    return DRPM_ERR_OK;
 }
 
 int finish_gzip(struct compstrm *strm)
 {
-    int error = DRPM_ERR_OK;
     unsigned char *data_tmp;
     unsigned char out_buffer[CHUNK_SIZE];
     size_t out_len;
@@ -149,24 +179,18 @@ int finish_gzip(struct compstrm *strm)
         out_len = CHUNK_SIZE - strm->stream.gzip.avail_out;
         if (out_len == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL) {
-            error = DRPM_ERR_MEMORY;
-            goto cleanup;
-        }
+        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL)
+            return DRPM_ERR_MEMORY;
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, out_buffer, out_len);
         strm->data_len += out_len;
     } while (strm->stream.gzip.avail_out == 0);
 
-cleanup:
-    deflateEnd(&strm->stream.gzip);
-
-    return error;
+    return DRPM_ERR_OK;
 }
 
 int finish_lzma(struct compstrm *strm)
 {
-    int error = DRPM_ERR_OK;
     int ret;
     unsigned char *data_tmp;
     unsigned char out_buffer[CHUNK_SIZE];
@@ -183,34 +207,27 @@ int finish_lzma(struct compstrm *strm)
         case LZMA_STREAM_END:
             break;
         case LZMA_MEM_ERROR:
-            error = DRPM_ERR_MEMORY;
-            goto cleanup;
+            return DRPM_ERR_MEMORY;
         default:
-            error = DRPM_ERR_FORMAT;
-            goto cleanup;
+            return DRPM_ERR_FORMAT;
         }
         out_len = CHUNK_SIZE - strm->stream.lzma.avail_out;
         if (out_len == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL) {
-            error = DRPM_ERR_MEMORY;
-            goto cleanup;
-        }
+        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL)
+            return DRPM_ERR_MEMORY;
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, out_buffer, out_len);
         strm->data_len += out_len;
     } while (ret != LZMA_STREAM_END);
 
-cleanup:
-    lzma_end(&strm->stream.lzma);
-
-    return error;
+    return DRPM_ERR_OK;
 }
 
 #ifdef HAVE_LZLIB_DEVEL
 int finish_lzip(struct compstrm *strm)
 {
-    int error = DRPM_ERR_OK;
+    int error;
     int rd;
     unsigned char *data_tmp;
     unsigned char out_buffer[CHUNK_SIZE];
@@ -221,26 +238,19 @@ int finish_lzip(struct compstrm *strm)
     do {
         if ((rd = LZ_compress_read(strm->stream.lzip, out_buffer, CHUNK_SIZE)) < 0) {
             error = lzip_error(strm);
-            if (error == DRPM_ERR_OK)
-                error = DRPM_ERR_OTHER;
-            goto cleanup;
+            return error == DRPM_ERR_OK ? DRPM_ERR_OTHER : error;
         }
         out_len = rd;
         if (out_len == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL) {
-            error = DRPM_ERR_MEMORY;
-            goto cleanup;
-        }
+        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL)
+            return DRPM_ERR_MEMORY;
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, out_buffer, out_len);
         strm->data_len += out_len;
     } while (!LZ_compress_finished(strm->stream.lzip));
 
-cleanup:
-    LZ_compress_close(strm->stream.lzip);
-
-    return error;
+    return DRPM_ERR_OK;
 }
 #endif
 
@@ -259,20 +269,23 @@ int finish_zstd(struct compstrm *strm)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_end);
-        if (ZSTD_isError(remaining))
+        if (ZSTD_isError(remaining)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
     } while(remaining != 0);
 
     free(buffOut);
-    ZSTD_freeCCtx(strm->stream.zstd_context);
     return DRPM_ERR_OK;
 }
 
@@ -284,6 +297,7 @@ int init_bzip2(struct compstrm *strm, int level)
 {
     strm->write_chunk = writechunk_bzip2;
     strm->finish = finish_bzip2;
+    strm->end = end_bzip2;
 
     strm->stream.bzip2.bzalloc = NULL;
     strm->stream.bzip2.bzfree = NULL;
@@ -296,10 +310,8 @@ int init_bzip2(struct compstrm *strm, int level)
 
     switch (BZ2_bzCompressInit(&strm->stream.bzip2, level, 0, 0)) {
     case BZ_CONFIG_ERROR:
-        BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_CONFIG;
     case BZ_MEM_ERROR:
-        BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
     case BZ_OK:
         break;
@@ -314,6 +326,7 @@ int init_gzip(struct compstrm *strm, int level)
 {
     strm->write_chunk = writechunk_gzip;
     strm->finish = finish_gzip;
+    strm->end = end_gzip;
 
     strm->stream.gzip.zalloc = Z_NULL;
     strm->stream.gzip.zfree = Z_NULL;
@@ -325,10 +338,8 @@ int init_gzip(struct compstrm *strm, int level)
     switch (deflateInit2(&strm->stream.gzip, level, Z_DEFLATED,
             16 + MAX_WBITS, 8, Z_DEFAULT_STRATEGY)) {
     case Z_VERSION_ERROR:
-        deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_CONFIG;
     case Z_MEM_ERROR:
-        deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
     case Z_OK:
         break;
@@ -346,6 +357,7 @@ int init_lzma(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzma;
     strm->finish = finish_lzma;
+    strm->end = end_lzma;
     strm->stream.lzma = stream;
 
     if (level == DRPM_COMP_LEVEL_DEFAULT)
@@ -372,6 +384,7 @@ int init_xz(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzma;
     strm->finish = finish_lzma;
+    strm->end = end_lzma;
     strm->stream.lzma = stream;
     memset(&strm->stream.lzma, 0, sizeof(lzma_stream));
 
@@ -397,6 +410,7 @@ int init_lzip(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzip;
     strm->finish = finish_lzip;
+    strm->end = end_lzip;
 
     if ((strm->stream.lzip = LZ_compress_open(65535, 16, SIZE_MAX)) == NULL)
         return DRPM_ERR_MEMORY;
@@ -417,11 +431,14 @@ int init_zstd(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 19;
 
-    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level)))
+    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level))) {
+        ZSTD_freeCCtx(strm->stream.zstd_context);
         return DRPM_ERR_OTHER;
+    }
 
     strm->write_chunk = writechunk_zstd;
     strm->finish = finish_zstd;
+    strm->end = end_zstd;
 
     return DRPM_ERR_OK;
 }
@@ -433,6 +450,9 @@ int compstrm_destroy(struct compstrm **strm)
     if (strm == NULL || *strm == NULL)
         return DRPM_ERR_PROG;
 
+    if ((*strm)->end != NULL)
+        (*strm)->end(*strm);
+
     free((*strm)->data);
     free(*strm);
     *strm = NULL;
@@ -463,6 +483,7 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
     case DRPM_COMP_NONE:
         (*strm)->write_chunk = writechunk;
         (*strm)->finish = NULL;
+        (*strm)->end = NULL;
         break;
     case DRPM_COMP_GZIP:
         if ((error = init_gzip(*strm, level)) != DRPM_ERR_OK)
@@ -493,7 +514,8 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
         break;
 #endif
     default:
-        return DRPM_ERR_PROG;
+        error = DRPM_ERR_PROG;
+        goto cleanup_fail;
     }
 
     return DRPM_ERR_OK;
@@ -753,13 +775,17 @@ int writechunk_zstd(struct compstrm *strm, size_t in_len, const void *in_buffer)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_continue);
-        if (ZSTD_isError(remaining))
+        if (ZSTD_isError(remaining)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
-- 
2.43.0


From c716489ab6da7b9b1b423d6933d2939204403e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 28/42] fix: end no decompressor that was never set up

---
 src/drpm_decompstrm.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index 9bf8f54..0c1f2d8 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -158,10 +158,8 @@ int init_bzip2(struct decompstrm *strm)
 
     switch (BZ2_bzDecompressInit(&strm->stream.bzip2, 0, 1)) {
     case BZ_CONFIG_ERROR:
-        BZ2_bzDecompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_CONFIG;
     case BZ_MEM_ERROR:
-        BZ2_bzDecompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
     }
 
@@ -180,10 +178,8 @@ int init_gzip(struct decompstrm *strm)
 
     switch (inflateInit2(&strm->stream.gzip, 16 + MAX_WBITS)) {
     case Z_VERSION_ERROR:
-        inflateEnd(&strm->stream.gzip);
         return DRPM_ERR_CONFIG;
     case Z_MEM_ERROR:
-        inflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
     }
 
@@ -791,24 +787,29 @@ int readchunk_zstd(struct decompstrm *strm)
     while (input.pos < input.size) {
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const ret = ZSTD_decompressStream(strm->stream.zstd_context, &output , &input);
-        if (ZSTD_isError(ret))
+        if (ZSTD_isError(ret)) {
+            free(buffOut);
             return DRPM_ERR_OTHER;
+        }
         strm->complete = (ret == 0);
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            free(buffOut);
             return DRPM_ERR_MEMORY;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
     }
 
+    free(buffOut);
+
     strm->comp_size += in_len;
 
     if (strm->md5 != NULL && MD5_Update(strm->md5, in_buffer, in_len) != 1)
         return DRPM_ERR_OTHER;
 
-    free(buffOut);
     return DRPM_ERR_OK;
 }
 #endif
-- 
2.43.0


From ce56f20e4997d250b507981d69972267b90ff707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 29/42] fix: release everything when a delta cannot be written

---
 src/drpm_write.c | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index c5d00f6..99e47f7 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -209,28 +209,34 @@ int write_deltarpm(struct deltarpm *delta)
     switch (delta->type) {
     case DRPM_TYPE_STANDARD:
         if ((error = rpm_fetch_header(delta->head.tgt_rpm, &header, &header_size)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
         if (MD5_Init(&md5) != 1 ||
             MD5_Update(&md5, header, header_size) != 1 ||
             MD5_Update(&md5, strm_data, strm_data_len) != 1 ||
-            MD5_Final(md5_digest, &md5) != 1)
-            return DRPM_ERR_OTHER;
+            MD5_Final(md5_digest, &md5) != 1) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
 
         if ((error = rpm_signature_empty(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_size(delta->head.tgt_rpm, header_size + strm_data_len)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_md5(delta->head.tgt_rpm, md5_digest)) != DRPM_ERR_OK ||
             (error = rpm_signature_reload(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_write(delta->head.tgt_rpm, delta->filename, false, NULL, false)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
-        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
         break;
 
     case DRPM_TYPE_RPMONLY:
-        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
 
         if (write(filedesc, "drpm", 4) != 4 ||
             write(filedesc, version, 4) != 4) {
@@ -381,6 +387,7 @@ int compstrm_wrapper_finish(struct compstrm_wrapper *csw, unsigned char **data,
 
     if ((data_tmp = realloc(*data, csw->uncomp_len + *data_len)) == NULL) {
         free(*data);
+        *data = NULL;
         return DRPM_ERR_MEMORY;
     }
 
-- 
2.43.0


From ea4ae93029987b97af609aab008db7da08453a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 30/42] fix: leave nothing behind when a package cannot be read

---
 src/drpm_read.c | 4 ++--
 src/drpm_rpm.c  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 8a99aa8..2015707 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -430,6 +430,8 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     if ((error = rpm_read(&rpmst, delta->filename, RPM_ARCHIVE_DONT_READ, NULL, NULL, NULL)) != DRPM_ERR_OK)
         return error;
 
+    delta->head.tgt_rpm = rpmst;
+
     /* reading target compression from header (used for older delta versions) */
     if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK)
         return error;
@@ -439,8 +441,6 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1)
         return DRPM_ERR_IO;
 
-    delta->head.tgt_rpm = rpmst;
-
     return DRPM_ERR_OK;
 }
 
diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index f9df785..71120fc 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -286,8 +286,10 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     rpm_init(*rpmst);
 
     // hack: extra '\0' to prevent rpmlib from compressing (see rpmio.c)
-    if ((file = Fopen(filename, "rb\0")) == NULL)
+    if ((file = Fopen(filename, "rb\0")) == NULL) {
+        rpm_destroy(rpmst);
         return DRPM_ERR_IO;
+    }
 
     if (Fread((*rpmst)->lead, 1, RPMLEAD_SIZE, file) != RPMLEAD_SIZE ||
         memcmp((*rpmst)->lead, magic_rpm, 4) != 0 ||
@@ -343,7 +345,7 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     goto cleanup;
 
 cleanup_fail:
-    rpm_free(*rpmst);
+    rpm_destroy(rpmst);
 
 cleanup:
     free(signature);
-- 
2.43.0


From 04c052d7a348d0da17f84cc1e3285bbf05d71e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 31/42] fix: free the description of a delta that cannot be
 filled in

---
 src/drpm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drpm.c b/src/drpm.c
index d0553d4..2bcff93 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -79,8 +79,10 @@ int drpm_read(struct drpm **delta_ret, const char *filename)
         goto cleanup;
     }
 
-    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK)
+    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK) {
+        free(*delta_ret);
         goto cleanup;
+    }
 
 cleanup:
     free_deltarpm(&delta);
-- 
2.43.0


From cab601447abf8c4e0695f6b5ee78470eccb3f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 32/42] fix: report that options cannot be copied, and change
 none of them then

---
 src/drpm.c         | 10 +++---
 src/drpm_options.c | 82 +++++++++++++++++++++++++++-------------------
 2 files changed, 53 insertions(+), 39 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 2bcff93..eb2f935 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -328,13 +328,13 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
     if (alone)
         solo_rpm_name = (old_rpm_name == NULL) ? new_rpm_name : old_rpm_name;
 
+    if (rpm_only && user_opts->version < 3)
+        return DRPM_ERR_ARGS;
+
     if (user_opts == NULL)
         drpm_make_options_defaults(&opts);
-    else
-        drpm_make_options_copy(&opts, user_opts);
-
-    if (rpm_only && opts.version < 3)
-        return DRPM_ERR_ARGS;
+    else if ((error = drpm_make_options_copy(&opts, user_opts)) != DRPM_ERR_OK)
+        return error;
 
     delta.filename = deltarpm_name;
     delta.type = rpm_only ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
diff --git a/src/drpm_options.c b/src/drpm_options.c
index 7df5af4..5812f85 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -25,6 +25,22 @@
 #include <string.h>
 #include <limits.h>
 
+/* Copies a string that may be missing. */
+static bool copy_string(char **dst, const char *src)
+{
+    *dst = NULL;
+
+    if (src == NULL)
+        return true;
+
+    if ((*dst = malloc(strlen(src) + 1)) == NULL)
+        return false;
+
+    strcpy(*dst, src);
+
+    return true;
+}
+
 int drpm_make_options_init(struct drpm_make_options **opts)
 {
     const struct drpm_make_options init = {0};
@@ -44,7 +60,7 @@ int drpm_make_options_init(struct drpm_make_options **opts)
 
 int drpm_make_options_destroy(struct drpm_make_options **opts)
 {
-    if (opts == NULL)
+    if (opts == NULL || *opts == NULL)
         return DRPM_ERR_ARGS;
 
     free((*opts)->seqfile);
@@ -83,9 +99,25 @@ int drpm_make_options_defaults(struct drpm_make_options *opts)
 
 int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm_make_options *opts_src)
 {
+    char *seqfile = NULL;
+    char *oldrpmprint = NULL;
+    char *oldpatchrpm = NULL;
+
     if (opts_dst == NULL || opts_src == NULL)
         return DRPM_ERR_ARGS;
 
+    if (opts_dst == opts_src)
+        return DRPM_ERR_OK;
+
+    if (!copy_string(&seqfile, opts_src->seqfile) ||
+        !copy_string(&oldrpmprint, opts_src->oldrpmprint) ||
+        !copy_string(&oldpatchrpm, opts_src->oldpatchrpm)) {
+        free(seqfile);
+        free(oldrpmprint);
+        free(oldpatchrpm);
+        return DRPM_ERR_MEMORY;
+    }
+
     opts_dst->rpm_only = opts_src->rpm_only;
     opts_dst->version = opts_src->version;
     opts_dst->comp_from_rpm = opts_src->comp_from_rpm;
@@ -99,27 +131,9 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
     free(opts_dst->seqfile);
     free(opts_dst->oldrpmprint);
     free(opts_dst->oldpatchrpm);
-    opts_dst->seqfile = NULL;
-    opts_dst->oldrpmprint = NULL;
-    opts_dst->oldpatchrpm = NULL;
-
-    if (opts_src->seqfile != NULL) {
-        if ((opts_dst->seqfile = malloc(strlen(opts_src->seqfile) + 1)) == NULL)
-            return DRPM_ERR_OK;
-        strcpy(opts_dst->seqfile, opts_src->seqfile);
-    }
-
-    if (opts_src->oldrpmprint != NULL) {
-        if ((opts_dst->oldrpmprint = malloc(strlen(opts_src->oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_OK;
-        strcpy(opts_dst->oldrpmprint, opts_src->oldrpmprint);
-    }
-
-    if (opts_src->oldpatchrpm != NULL) {
-        if ((opts_dst->oldpatchrpm = malloc(strlen(opts_src->oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_OK;
-        strcpy(opts_dst->oldpatchrpm, opts_src->oldpatchrpm);
-    }
+    opts_dst->seqfile = seqfile;
+    opts_dst->oldrpmprint = oldrpmprint;
+    opts_dst->oldpatchrpm = oldpatchrpm;
 
     return DRPM_ERR_OK;
 }
@@ -251,24 +265,24 @@ int drpm_make_options_set_seqfile(struct drpm_make_options *opts, const char *se
 
 int drpm_make_options_add_patches(struct drpm_make_options *opts, const char *oldrpmprint, const char *oldpatchrpm)
 {
-    char *tmp;
+    char *print_tmp;
+    char *patch_tmp;
 
     if (opts == NULL || oldrpmprint == NULL || oldpatchrpm == NULL)
         return DRPM_ERR_ARGS;
 
-    if (opts->oldrpmprint == NULL || strlen(opts->oldrpmprint) < strlen(oldrpmprint)) {
-        if ((tmp = realloc(opts->oldrpmprint, strlen(oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_MEMORY;
-        opts->oldrpmprint = tmp;
-    }
-    if (opts->oldpatchrpm == NULL || strlen(opts->oldpatchrpm) < strlen(oldpatchrpm)) {
-        if ((tmp = realloc(opts->oldpatchrpm, strlen(oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_MEMORY;
-        opts->oldpatchrpm = tmp;
+    if (!copy_string(&print_tmp, oldrpmprint))
+        return DRPM_ERR_MEMORY;
+
+    if (!copy_string(&patch_tmp, oldpatchrpm)) {
+        free(print_tmp);
+        return DRPM_ERR_MEMORY;
     }
 
-    strcpy(opts->oldrpmprint, oldrpmprint);
-    strcpy(opts->oldpatchrpm, oldpatchrpm);
+    free(opts->oldrpmprint);
+    free(opts->oldpatchrpm);
+    opts->oldrpmprint = print_tmp;
+    opts->oldpatchrpm = patch_tmp;
 
     return DRPM_ERR_OK;
 }
-- 
2.43.0


From b47d813c1032900a015b3d99a2a1825b7e30daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 33/42] fix: release everything once when no delta can be made

---
 src/drpm.c      | 19 +++++++++++++++----
 src/drpm_make.c |  8 +++++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index eb2f935..a5b99c9 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -419,12 +419,16 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
             (error = rpm_fetch_archive(new_rpm, &new_cpio, &new_cpio_len)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL ||
-            (new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
         old_cpio = old_cpio_tmp;
+
+        if ((new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            goto cleanup;
+        }
         new_cpio = new_cpio_tmp;
 
         memmove(old_cpio + old_header_len, old_cpio, old_cpio_len);
@@ -475,11 +479,18 @@ write_files:
 
 cleanup:
 
+    if (!rpm_only && delta.head.tgt_rpm != NULL) { // preventing double free
+        if (alone)
+            solo_rpm = NULL;
+        else
+            new_rpm = NULL;
+    }
+
     free_deltarpm(&delta);
 
+    rpm_destroy(&solo_rpm);
     rpm_destroy(&old_rpm);
-    if (rpm_only) // preventing double free (delta.head.tgt_rpm)
-        rpm_destroy(&new_rpm);
+    rpm_destroy(&new_rpm);
 
     free(old_cpio);
     free(new_cpio);
diff --git a/src/drpm_make.c b/src/drpm_make.c
index e780718..9d7f0e0 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -101,6 +101,7 @@ bool seq_append(struct files_seq *seq, unsigned val)
 {
     size_t len = 1;
     unsigned tmp = val;
+    unsigned char *data_tmp;
 
     while (tmp >= (1<<3)) {
         tmp >>= 3;
@@ -108,8 +109,9 @@ bool seq_append(struct files_seq *seq, unsigned val)
     }
 
     if (SEQ_BYTE_LEN(seq->index + len) > seq->alloc_len) {
-        if ((seq->data = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
+        if ((data_tmp = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
             return false;
+        seq->data = data_tmp;
         seq->alloc_len += SEQ_ALLOC_SIZE;
     }
 
@@ -618,7 +620,7 @@ cleanup:
     }
     free(files);
     free(name_buffer);
-    free(seq_files);
+    free(seq.data);
 
     return error;
 }
@@ -1043,7 +1045,7 @@ bool is_unpatched(const struct rpm_patches *patches, const char *name,
 int fill_nodiff_deltarpm(struct deltarpm *delta, const char *rpm_filename,
                          bool comp_not_set)
 {
-    struct rpm *solo_rpm;
+    struct rpm *solo_rpm = NULL;
     char *nevr = NULL;
     int error = DRPM_ERR_OK;
 
-- 
2.43.0


From 28ba7866b1c2984cad2325b3f61b058c41694acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 34/42] fix: free nothing twice when comparing archives fails

---
 src/drpm_diff.c   | 10 ++++++----
 src/drpm_search.c |  5 +++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 8de8bf8..2be8dc6 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -86,13 +86,13 @@ int make_diff(const unsigned char *old, size_t old_len,
 
     const bool addblk = (add_block_ret != NULL && add_block_len_ret != NULL);
     size_t add_block_len;
-    struct compstrm *stream;
+    struct compstrm *stream = NULL;
 
     struct diff_copy *diff_copies = NULL;
     size_t diff_copies_len = 0;
 
     //struct sfxsrt *suffix;
-    struct hash *hashtab;
+    struct hash *hashtab = NULL;
 
     size_t old_pos = 0;
     size_t new_pos = 0;
@@ -221,7 +221,7 @@ int make_diff(const unsigned char *old, size_t old_len,
 
         if (!resize32((void **)&diff_copies, diff_copies_len, sizeof(struct diff_copy))) {
             error = DRPM_ERR_MEMORY;
-            goto cleanup;
+            goto cleanup_fail;
         }
 
         diff_copies[diff_copies_len].new_off = new_pos_prev + len_forward;
@@ -261,8 +261,10 @@ int make_diff(const unsigned char *old, size_t old_len,
     goto cleanup;
 
 cleanup_fail:
-    if (addblk)
+    if (addblk) {
         free(*add_block_ret);
+        *add_block_ret = NULL;
+    }
 
 cleanup:
     free(diff_copies);
diff --git a/src/drpm_search.c b/src/drpm_search.c
index 7de1315..1944f9c 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -178,6 +178,7 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
     if ((hash_table = calloc(ht_len, sizeof(size_t))) == NULL) {
         free(*hsh);
+        *hsh = NULL;
         return DRPM_ERR_MEMORY;
     }
 
@@ -201,8 +202,12 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
 void hash_free(struct hash **hsh)
 {
+    if (*hsh == NULL)
+        return;
+
     free((*hsh)->hash_table);
     free(*hsh);
+    *hsh = NULL;
 }
 
 size_t hash_search(struct hash *hsh,
-- 
2.43.0


From ee7232d793f45f315860be454cda91ff026cb01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 35/42] fix: close the file and free the delta when refusing to
 apply it

---
 src/drpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index a5b99c9..25bfd63 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -588,11 +588,15 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
         }
     } else {
         // rpm-only deltarpms do not work from filesystem
-        if (rpm_only)
-            return DRPM_ERR_ARGS;
+        if (rpm_only) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         // cannot reconstruct source RPMs from filesystem
-        if (rpm_is_sourcerpm(delta.head.tgt_rpm))
-            return DRPM_ERR_ARGS;
+        if (rpm_is_sourcerpm(delta.head.tgt_rpm)) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         /* reading old RPM header from database */
         if ((error = rpm_read_header(&old_rpm, delta.src_nevr, NULL)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From 4a451e140d9eded916f623ed6930f9e0817a3a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 36/42] fix: leave no descriptor or temporary file when looking
 at prelinked files fails

---
 src/drpm_apply.c | 13 +++++++++----
 src/drpm_block.c |  1 +
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 6d615e6..88b1ff3 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -306,8 +306,10 @@ int check_filesize(const char *filename, unsigned short digest_algo,
         if ((filedesc = open(filename, O_RDONLY)) < 0)
             return DRPM_ERR_IO;
         if ((read_len = read(filedesc, buf, 128)) > 0) {
-            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
+            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK) {
+                close(filedesc);
                 return error;
+            }
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
@@ -349,7 +351,7 @@ int check_full(const char *filename, unsigned short digest_algo,
     if (stats.st_size > (off_t)filesize) {
         if ((read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
             if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
-                return error;
+                goto cleanup;
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
@@ -645,6 +647,7 @@ int prelink_open(const char *filename, int *filedesc)
 
     pid = fork();
     if (pid == (pid_t)-1) {
+        unlink(template);
         return DRPM_ERR_OTHER;
     }
     if (pid == 0) {
@@ -654,11 +657,13 @@ int prelink_open(const char *filename, int *filedesc)
 
     while (waitpid(pid, &status, 0) == (pid_t)-1);
 
-    if ((fd = open(template, O_RDONLY)) < 0)
-        return DRPM_ERR_IO;
+    fd = open(template, O_RDONLY);
 
     unlink(template);
 
+    if (fd < 0)
+        return DRPM_ERR_IO;
+
     *filedesc = fd;
 
     return DRPM_ERR_OK;
diff --git a/src/drpm_block.c b/src/drpm_block.c
index 35b78f1..3125837 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1170,6 +1170,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
                                 goto cleanup;
                             if (prelinked) {
                                 close(filedesc);
+                                filedesc = -1;
                                 if ((error = prelink_open(blks->files[cpio->index].name, &filedesc)) != DRPM_ERR_OK)
                                     goto cleanup;
                             }
-- 
2.43.0


From 6f612b7147e297df0cec9bf7bfb5aa37261f7e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 37/42] fix: report a print or patch that cannot be read as
 such

---
 src/drpm_make.c | 59 ++++++++++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 9d7f0e0..6687303 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -92,6 +92,7 @@ static int rpml_get_uint16(int, uint16_t *);
 static int rpml_get_uint32(int, uint32_t *);
 static int rpml_get_string(int, char **);
 static int rpml_get_filename(int, char **, uint32_t *);
+static int rpml_read(int, void *, size_t);
 static int rpml_skip(int, off_t);
 static int seq_add(struct files_seq *, unsigned);
 static bool seq_append(struct files_seq *, unsigned);
@@ -627,12 +628,24 @@ cleanup:
 
 /* RPM patches */
 
+/* Reads exactly len bytes. */
+int rpml_read(int filedesc, void *buf, size_t len)
+{
+    const ssize_t read_len = read(filedesc, buf, len);
+
+    if (read_len < 0)
+        return DRPM_ERR_IO;
+
+    return (size_t)read_len == len ? DRPM_ERR_OK : DRPM_ERR_FORMAT;
+}
+
 int rpml_get_uint16(int filedesc, uint16_t *ret)
 {
+    int error;
     unsigned char buf[2];
 
-    if (read(filedesc, buf, 2) != 2)
-        return DRPM_ERR_FORMAT;
+    if ((error = rpml_read(filedesc, buf, 2)) != DRPM_ERR_OK)
+        return error;
 
     if (ret != NULL)
         *ret = parse_be16(buf);
@@ -642,10 +655,11 @@ int rpml_get_uint16(int filedesc, uint16_t *ret)
 
 int rpml_get_uint32(int filedesc, uint32_t *ret)
 {
+    int error;
     unsigned char buf[4];
 
-    if (read(filedesc, buf, 4) != 4)
-        return DRPM_ERR_FORMAT;
+    if ((error = rpml_read(filedesc, buf, 4)) != DRPM_ERR_OK)
+        return error;
 
     if (ret != NULL)
         *ret = parse_be32(buf);
@@ -655,24 +669,25 @@ int rpml_get_uint32(int filedesc, uint32_t *ret)
 
 int rpml_get_string(int filedesc, char **ret)
 {
+    int error;
     uint8_t len;
     char skipped[UINT8_MAX];
 
-    if (read(filedesc, &len, 1) != 1)
-        return DRPM_ERR_FORMAT;
+    if ((error = rpml_read(filedesc, &len, 1)) != DRPM_ERR_OK)
+        return error;
 
     if (ret != NULL) {
         if ((*ret = malloc(len + 1)) == NULL)
             return DRPM_ERR_MEMORY;
-        if (read(filedesc, *ret, len) != len) {
+        if ((error = rpml_read(filedesc, *ret, len)) != DRPM_ERR_OK) {
             free(*ret);
             *ret = NULL;
-            return DRPM_ERR_FORMAT;
+            return error;
         }
         (*ret)[len] = '\0';
     } else {
-        if (read(filedesc, skipped, len) != len)
-            return DRPM_ERR_FORMAT;
+        if ((error = rpml_read(filedesc, skipped, len)) != DRPM_ERR_OK)
+            return error;
     }
 
     return DRPM_ERR_OK;
@@ -694,8 +709,8 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
     filename = *filename_ret;
     filename_len = *filename_len_ret;
 
-    if (read(filedesc, buf, 2) != 2)
-        return DRPM_ERR_FORMAT;
+    if ((error = rpml_read(filedesc, buf, 2)) != DRPM_ERR_OK)
+        return error;
 
     off = buf[0];
 
@@ -720,8 +735,8 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
     *filename_ret = filename;
     *filename_len_ret = filename_len;
 
-    if (read(filedesc, filename + off, len) != len)
-        return DRPM_ERR_FORMAT;
+    if ((error = rpml_read(filedesc, filename + off, len)) != DRPM_ERR_OK)
+        return error;
 
     filename[off + len] = '\0';
 
@@ -831,17 +846,13 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             goto cleanup;
 
         if (file->mode != 0) {
-            if (read(filedesc, &num, 1) != 1) {
-                error = DRPM_ERR_FORMAT;
+            if ((error = rpml_read(filedesc, &num, 1)) != DRPM_ERR_OK)
                 goto cleanup;
-            }
 
             if (num == 0xFF) {
-                if (read(filedesc, &num2, 1) != 1 ||
-                    read(filedesc, &num, 1) != 1) {
-                    error = DRPM_ERR_FORMAT;
+                if ((error = rpml_read(filedesc, &num2, 1)) != DRPM_ERR_OK ||
+                    (error = rpml_read(filedesc, &num, 1)) != DRPM_ERR_OK)
                     goto cleanup;
-                }
                 if (((num2 > 0) && (error = rpml_skip(filedesc, num2 + 1)) != DRPM_ERR_OK) ||
                     ((num & 0xFC) && (error = rpml_skip(filedesc, (num >> 2 & 0x3F) + 1)) != DRPM_ERR_OK))
                     goto cleanup;
@@ -858,12 +869,10 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             if (S_ISREG(file->mode) || S_ISLNK(file->mode)) {
                 read_bytes = (num % 4) + 1;
                 memset(buf, 0, 4);
-                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes ||
+                if ((error = rpml_read(filedesc, buf + (4 - read_bytes), read_bytes)) != DRPM_ERR_OK ||
                     (parse_be32(buf) > 0 &&
-                     read(filedesc, file->md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
-                    error = DRPM_ERR_FORMAT;
+                     (error = rpml_read(filedesc, file->md5, MD5_DIGEST_LENGTH)) != DRPM_ERR_OK))
                     goto cleanup;
-                }
             }
         }
     }
-- 
2.43.0


From 1d524f64da35dddbe046b7e42655b048c3d42f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 38/42] fix: report an installed file that got shorter as
 changed, and one that cannot be read as such

---
 src/drpm_block.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 3125837..8606aaa 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -949,6 +949,7 @@ int fillblock_filesystem(struct blocks *blks, struct block *blk, size_t id, size
     size_t i;
     size_t file_off;
     size_t read_len;
+    ssize_t bytes_read;
     struct open_file *file;
     bool prelinked;
 
@@ -1016,8 +1017,8 @@ int fillblock_filesystem(struct blocks *blks, struct block *blk, size_t id, size
                     error = DRPM_ERR_IO;
                     break;
                 }
-                if (read(file->filedesc, buf_ptr, read_len) != (ssize_t)read_len) {
-                    error = DRPM_ERR_FORMAT;
+                if ((bytes_read = read(file->filedesc, buf_ptr, read_len)) != (ssize_t)read_len) {
+                    error = (bytes_read < 0) ? DRPM_ERR_IO : DRPM_ERR_MISMATCH; // shorter than recorded
                     break;
                 }
                 file->offset = file_off + read_len;
-- 
2.43.0


From a012aaee9777f89c82334936fce4fa5d8d798cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:27 +0000
Subject: [PATCH 39/42] fix: report a file that cannot be read when checking it
 as such

---
 src/drpm_apply.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 88b1ff3..601bc4d 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -333,7 +333,7 @@ int check_full(const char *filename, unsigned short digest_algo,
     unsigned char buf[BUFFER_SIZE];
     struct checksum chsm;
     unsigned char chsm_digest[MAX(MD5_DIGEST_LENGTH, SHA256_DIGEST_LENGTH)];
-    ssize_t read_len;
+    ssize_t read_len = 0;
     struct stat stats;
     bool prelink;
 
@@ -372,6 +372,11 @@ int check_full(const char *filename, unsigned short digest_algo,
         filesize -= read_len;
     }
 
+    if (read_len < 0) {
+        error = DRPM_ERR_IO;
+        goto cleanup;
+    }
+
     if ((error = checksum_final(&chsm, chsm_digest)) != DRPM_ERR_OK)
         goto cleanup;
 
-- 
2.43.0


From 9132f603f5270e555869769ec2eaaccd102964d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 40/42] fix: position after a copy of 2 GiB or more

When a copy had to be divided, the position after its first part was taken
from the previous copy rather than from where the part was: unless the copy
began just there, all following copies were off, and the delta could not be
applied.
---
 src/drpm_diff.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 2be8dc6..ec2baa3 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -331,7 +331,8 @@ int create_diff_copies(const struct diff_copy *diff_copies, size_t diff_copies_l
                 if (old_len >= (uint32_t)INT32_MIN) {
                     ext_copies[ext_copies_count++ * 2 + 1] = INT32_MAX;
                     old_len -= INT32_MAX;
-                    old_off = offset += INT32_MAX;
+                    old_off += INT32_MAX;
+                    offset = old_off;
                     continue;
                 }
 
-- 
2.43.0


From 96bb4831773317f729effdc4b7d3211c69c8a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:25 +0000
Subject: [PATCH 41/42] fix: read deltas for packages that are not compressed

---
 src/drpm_read.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 2015707..be39742 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -432,9 +432,10 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
 
     delta->head.tgt_rpm = rpmst;
 
-    /* reading target compression from header (used for older delta versions) */
-    if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK)
-        return error;
+    /* reading target compression from header (used for older delta versions),
+     * which doesn't mention any if the payload isn't compressed */
+    if (rpm_get_comp(rpmst, &delta->tgt_comp) != DRPM_ERR_OK)
+        delta->tgt_comp = DRPM_COMP_NONE;
     if (rpm_get_comp_level(rpmst, &delta->tgt_comp_level) != DRPM_ERR_OK)
         delta->tgt_comp_level = DRPM_COMP_LEVEL_DEFAULT;
 
-- 
2.43.0


From 4aa5cce5ea5545a9deee155f013a9c60624b0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:14 +0000
Subject: [PATCH 42/42] fix: do not wait for ever for prelink when SIGCHLD is
 ignored

waitpid() then reports ECHILD once the child has ended, and the loop never
left. Only an interrupted wait is repeated now.
---
 src/drpm_apply.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 601bc4d..48507e0 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -27,6 +27,7 @@
 #include <stdbool.h>
 #include <string.h>
 #include <fcntl.h>
+#include <errno.h>
 #include <unistd.h>
 #include <sys/stat.h>
 #include <sys/wait.h>
@@ -660,7 +661,7 @@ int prelink_open(const char *filename, int *filedesc)
         _exit(1);
     }
 
-    while (waitpid(pid, &status, 0) == (pid_t)-1);
+    while (waitpid(pid, &status, 0) == (pid_t)-1 && errno == EINTR);
 
     fd = open(template, O_RDONLY);
 
-- 
2.43.0

