From bfb085592123218f158ce7ff5562d8c244698393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:48 +0000
Subject: [PATCH 01/26] verif hook: allow scaling MAX_DELTA_CMD with
 RS_VERIF_MAX_DELTA_CMD

---
 src/job.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/job.h b/src/job.h
index fb22461..7b9d86b 100644
--- a/src/job.h
+++ b/src/job.h
@@ -41,7 +41,11 @@
 /** Max length of a singled delta command is including command bytes.
  *
  * This is used to constrain and set the internal buffer sizes. */
-#  define MAX_DELTA_CMD (1<<16)
+#  ifdef RS_VERIF_MAX_DELTA_CMD
+#    define MAX_DELTA_CMD RS_VERIF_MAX_DELTA_CMD
+#  else
+#    define MAX_DELTA_CMD (1<<16)
+#  endif
 
 /** The contents of this structure are private. */
 struct rs_job {
-- 
2.43.0


From 8e17a35d07fd16acfc471e84f54ceb1d49f1fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 02/26] fix: rs_format_stats() wrote past a buffer too small
 for the text

Once the text was truncated, the next snprintf() got an out of bounds
pointer and an underflowed size. Stop when the buffer is full.
---
 src/stats.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/stats.c b/src/stats.c
index 5fabb8d..0644f43 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -47,6 +47,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
         op = "noop";
 
     len = snprintf(buf, size, "%s statistics: ", op);
+    if ((size_t)len >= size)
+        return buf;             /* truncated */
 
     if (stats->lit_cmds) {
         len +=
@@ -54,6 +56,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      "literal[%d cmds, " FMT_LONG " bytes, " FMT_LONG
                      " cmdbytes] ", stats->lit_cmds, stats->lit_bytes,
                      stats->lit_cmdbytes);
+        if ((size_t)len >= size)
+            return buf;         /* truncated */
     }
 
     if (stats->sig_cmds) {
@@ -61,6 +65,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
             snprintf(buf + len, size - (size_t)len,
                      "in-place-signature[" FMT_LONG " cmds, " FMT_LONG
                      " bytes] ", stats->sig_cmds, stats->sig_bytes);
+        if ((size_t)len >= size)
+            return buf;         /* truncated */
     }
 
     if (stats->copy_cmds || stats->false_matches) {
@@ -70,6 +76,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      " cmdbytes, %d false]", stats->copy_cmds,
                      stats->copy_bytes, stats->copy_cmdbytes,
                      stats->false_matches);
+        if ((size_t)len >= size)
+            return buf;         /* truncated */
     }
 
     if (stats->sig_blocks) {
@@ -77,6 +85,8 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
             snprintf(buf + len, size - (size_t)len,
                      "signature[" FMT_LONG " blocks, " FMT_SIZE
                      " bytes per block]", stats->sig_blocks, stats->block_len);
+        if ((size_t)len >= size)
+            return buf;         /* truncated */
     }
 
     sec = (int)(stats->end - stats->start);
-- 
2.43.0


From 53d7f248cd659e640ab0525b7763a8f07327683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 03/26] fix: rs_unbase64() returned one byte too many

For data whose length is not a multiple of 3 the leftover padding bits
were counted as another decoded byte.
---
 src/base64.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index 873746e..6df62cf 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -31,11 +31,11 @@ size_t rs_unbase64(char *s)
 {
     char const *b64 =
         "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-    int bit_offset, byte_offset, idx, i, n;
+    int bit_offset, byte_offset, idx, i;
     unsigned char *d = (unsigned char *)s;
     char *p;
 
-    n = i = 0;
+    i = 0;
 
     while (*s && (p = strchr(b64, *s))) {
         idx = (int)(p - b64);
@@ -44,16 +44,15 @@ size_t rs_unbase64(char *s)
         d[byte_offset] &= (unsigned char)~((1 << (8 - bit_offset)) - 1);
         if (bit_offset < 3) {
             d[byte_offset] |= (unsigned char)(idx << (2 - bit_offset));
-            n = byte_offset + 1;
         } else {
             d[byte_offset] |= (unsigned char)(idx >> (bit_offset - 2));
             d[byte_offset + 1] = (unsigned char)(idx << (8 - (bit_offset - 2)));
-            n = byte_offset + 2;
         }
         s++;
         i++;
     }
-    return n;
+    /* Only complete bytes were encoded, leftover bits are padding. */
+    return (size_t)(i * 6) / 8;
 }
 
 /** Encode a buffer as base64 - simple and slow algorithm. */
-- 
2.43.0


From 1bd63383ddb7c90dbc8a047e3688d40febdf16c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 04/26] fix: rdiff exited 0 when closing or flushing its output
 failed

Stdio buffers the end of the output, so running out of space was often
only detected by fclose(), or at exit for stdout, and then ignored.
---
 src/fileutil.c | 5 ++++-
 src/rdiff.c    | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fileutil.c b/src/fileutil.c
index 676d2d0..863ce6c 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -119,8 +119,11 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
 
 int rs_file_close(FILE *f)
 {
-    if ((f == stdin) || (f == stdout))
+    if (f == stdin)
         return 0;
+    /* Not closed, but make sure everything reached it. */
+    if (f == stdout)
+        return fflush(f);
     return fclose(f);
 }
 
diff --git a/src/rdiff.c b/src/rdiff.c
index 29ca892..5175215 100644
--- a/src/rdiff.c
+++ b/src/rdiff.c
@@ -223,7 +223,8 @@ static rs_result rdiff_sig(poptContext opcon)
         rs_sig_file(basis_file, sig_file, block_len, strong_len, sig_magic,
                     &stats);
 
-    rs_file_close(sig_file);
+    if (rs_file_close(sig_file) && result == RS_DONE)
+        result = RS_IO_ERROR;
     rs_file_close(basis_file);
     if (result != RS_DONE)
         return result;
@@ -266,7 +267,8 @@ static rs_result rdiff_delta(poptContext opcon)
 
     result = rs_delta_file(sumset, new_file, delta_file, &stats);
 
-    rs_file_close(delta_file);
+    if (rs_file_close(delta_file) && result == RS_DONE)
+        result = RS_IO_ERROR;
     rs_file_close(new_file);
     rs_file_close(sig_file);
 
@@ -302,7 +304,8 @@ static rs_result rdiff_patch(poptContext opcon)
 
     result = rs_patch_file(basis_file, delta_file, new_file, &stats);
 
-    rs_file_close(new_file);
+    if (rs_file_close(new_file) && result == RS_DONE)
+        result = RS_IO_ERROR;
     rs_file_close(delta_file);
     rs_file_close(basis_file);
 
-- 
2.43.0


From 96a039ff0bccb45b74f2619d2ec063b5e26244e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 05/26] fix: read error followed by end of file was taken as
 end of file

fread() returns the data read before an error, and the next call may
report end of file. Without looking at ferror() the input was silently
truncated.
---
 src/buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 4dcfb72..79327ea 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -85,7 +85,7 @@ rs_result rs_infilebuf_fill(rs_job_t *job, rs_buffers_t *buf, void *opaque)
     buf->next_in = fb->buf;
     len = fread(fb->buf + buf->avail_in, 1, fb->buf_len - buf->avail_in, f);
     if (len == 0) {
-        if ((buf->eof_in = feof(f))) {
+        if ((buf->eof_in = feof(f) && !ferror(f))) {
             rs_trace("seen end of file on input");
             return RS_DONE;
         } else {
-- 
2.43.0


From 450156fb1efd4f3d5fdc33cf12eacd7b10fc31c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 06/26] fix: existing unreadable file was overwritten without
 force

A file that exists but cannot be opened for reading looked like it did
not exist.
---
 src/fileutil.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fileutil.c b/src/fileutil.c
index 863ce6c..c450d1f 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -105,6 +105,10 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
             rs_error("File exists \"%s\", aborting!", filename);
             fclose(f);
             exit(RS_IO_ERROR);
+        } else if (errno != ENOENT) {
+            // File may exist, but we cannot tell
+            rs_error("Error checking \"%s\": %s", filename, strerror(errno));
+            exit(RS_IO_ERROR);
         }
     }
 
-- 
2.43.0


From 974d59b993510543bc912c2f8f157bc1d22b38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 07/26] fix: signature cut inside a weak sum was accepted

One to three trailing bytes were ignored and loading reported success.
---
 src/readsums.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/readsums.c b/src/readsums.c
index 61ba84a..2c33e24 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -57,8 +57,8 @@ static rs_result rs_loadsig_s_weak(rs_job_t *job)
     rs_result result;
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE) {
-        if (result == RS_INPUT_ENDED)   /* ending here is OK */
-            return RS_DONE;
+        if (result == RS_INPUT_ENDED && !rs_scoop_avail(job))
+            return RS_DONE;     /* ending here is OK */
         return result;
     }
     job->weak_sig = l;
-- 
2.43.0


From 8f38205b3a0c25a0cf82510c04190da05cbf99b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 08/26] fix: signature with zero strong sum length was accepted

The zero was taken as a request for the default length, misreading the
entries that follow.
---
 src/readsums.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readsums.c b/src/readsums.c
index 2c33e24..861926b 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -86,7 +86,7 @@ static rs_result rs_loadsig_s_stronglen(rs_job_t *job)
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
-    if (l < 0 || l > RS_MAX_STRONG_SUM_LENGTH) {
+    if (l < 1 || l > RS_MAX_STRONG_SUM_LENGTH) {
         rs_error("strong sum length %d is implausible", l);
         return RS_CORRUPT;
     }
-- 
2.43.0


From 8d4be44335511bd35a6ed313e61be6fcf324f184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 09/26] fix: signature with zero magic was accepted

The zero was taken as a request for the recommended signature type.
---
 src/readsums.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/readsums.c b/src/readsums.c
index 861926b..3a6e1c5 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -126,6 +126,10 @@ static rs_result rs_loadsig_s_magic(rs_job_t *job)
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
+    if (!l) {
+        rs_error("signature magic of zero is bogus");
+        return RS_BAD_MAGIC;
+    }
     rs_trace("got signature magic %#x", l);
     job->sig_magic = l;
     job->statefn = rs_loadsig_s_blocklen;
-- 
2.43.0


From 450c92b64b439c2a75697ae3354158b759d1895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 10/26] fix: patch looped forever if copy_cb returned no data

A callback that reports RS_DONE with zero bytes, as at the end of the
basis, was called again and again.
---
 src/patch.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/patch.c b/src/patch.c
index 7e353d9..a619e08 100644
--- a/src/patch.c
+++ b/src/patch.c
@@ -178,6 +178,10 @@ static rs_result rs_patch_s_copying(rs_job_t *job)
         return result;
     }
     rs_trace("got " FMT_SIZE " bytes back from basis callback", len);
+    if (!len) {
+        rs_error("unexpected end of basis file");
+        return RS_INPUT_ENDED;
+    }
     /* Actual copied length cannot be greater than requested length. */
     assert(len <= req);
     /* Backwards-compatible defensively handle this for NDEBUG builds. */
-- 
2.43.0


From 93dc65ef82d13d7b9d8674cfae4b935af51d67af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 11/26] fix: slack delta was corrupt for 2 GiB or more of input
 in one call

The literal length was truncated to an int.
---
 src/delta.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index de65a8c..d1dadda 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -90,6 +90,7 @@
 
 #include "config.h"             /* IWYU pragma: keep */
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "librsync.h"
 #include "job.h"
@@ -368,6 +369,8 @@ static rs_result rs_delta_s_slack(rs_job_t *job)
 {
     size_t avail = rs_scoop_avail(job);
 
+    if (avail > INT_MAX)
+        avail = INT_MAX;
     if (avail) {
         rs_trace("emit slack delta for " FMT_SIZE " available bytes", avail);
         rs_emit_literal_cmd(job, (int)avail);
-- 
2.43.0


From 5e5b35f307b98f015f7e696eadb2099715ea77a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 12/26] fix: whole file functions failed for block lengths of
 512 MiB and more

The buffer size was calculated in an int, which overflowed.
---
 src/whole.c | 13 +++++++------
 src/whole.h |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/whole.c b/src/whole.c
index ebce253..c703423 100644
--- a/src/whole.c
+++ b/src/whole.c
@@ -41,15 +41,15 @@
 LIBRSYNC_EXPORT int rs_inbuflen = 0, rs_outbuflen = 0;
 
 rs_result rs_whole_run(rs_job_t *job, FILE *in_file, FILE *out_file,
-                       int inbuflen, int outbuflen)
+                       size_t inbuflen, size_t outbuflen)
 {
     rs_buffers_t buf;
     rs_result result;
     rs_filebuf_t *in_fb = NULL, *out_fb = NULL;
 
     /* Override buffer sizes if rs_inbuflen or rs_outbuflen are set. */
-    inbuflen = rs_inbuflen ? rs_inbuflen : inbuflen;
-    outbuflen = rs_outbuflen ? rs_outbuflen : outbuflen;
+    inbuflen = rs_inbuflen ? (size_t)rs_inbuflen : inbuflen;
+    outbuflen = rs_outbuflen ? (size_t)rs_outbuflen : outbuflen;
     if (in_file)
         in_fb = rs_filebuf_new(in_file, inbuflen);
     if (out_file)
@@ -78,8 +78,8 @@ rs_result rs_sig_file(FILE *old_file, FILE *sig_file, size_t block_len,
         return r;
     job = rs_sig_begin(block_len, strong_len, sig_magic);
     /* Size inbuf for 4 blocks, outbuf for header + 4 blocksums. */
-    r = rs_whole_run(job, old_file, sig_file, 4 * (int)block_len,
-                     12 + 4 * (4 + (int)strong_len));
+    r = rs_whole_run(job, old_file, sig_file, 4 * block_len,
+                     12 + 4 * (4 + strong_len));
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
     rs_job_free(job);
@@ -114,7 +114,8 @@ rs_result rs_delta_file(rs_signature_t *sig, FILE *new_file, FILE *delta_file,
     job = rs_delta_begin(sig);
     /* Size inbuf for 4*(CMD + 1 block), outbuf for 4*CMD. */
     r = rs_whole_run(job, new_file, delta_file,
-                     4 * (MAX_DELTA_CMD + sig->block_len), 4 * MAX_DELTA_CMD);
+                     4 * (MAX_DELTA_CMD + (size_t)sig->block_len),
+                     4 * MAX_DELTA_CMD);
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
     rs_job_free(job);
diff --git a/src/whole.h b/src/whole.h
index e872bc1..0f4d15e 100644
--- a/src/whole.h
+++ b/src/whole.h
@@ -45,6 +45,6 @@
  *
  * \return RS_DONE if the job completed, or otherwise an error result. */
 rs_result rs_whole_run(rs_job_t *job, FILE *in_file, FILE *out_file,
-                       int inbuflen, int outbuflen);
+                       size_t inbuflen, size_t outbuflen);
 
 #endif                          /* !WHOLE_H */
-- 
2.43.0


From 5960411fa7552b4660b1b1bc037adb0a5554b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 13/26] fix: rs_delta_file() crashed without a signature

rs_delta_begin() documents that a NULL signature gives a slack delta.
---
 src/whole.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/whole.c b/src/whole.c
index c703423..edf7062 100644
--- a/src/whole.c
+++ b/src/whole.c
@@ -114,7 +114,7 @@ rs_result rs_delta_file(rs_signature_t *sig, FILE *new_file, FILE *delta_file,
     job = rs_delta_begin(sig);
     /* Size inbuf for 4*(CMD + 1 block), outbuf for 4*CMD. */
     r = rs_whole_run(job, new_file, delta_file,
-                     4 * (MAX_DELTA_CMD + (size_t)sig->block_len),
+                     4 * (MAX_DELTA_CMD + (sig ? (size_t)sig->block_len : 0)),
                      4 * MAX_DELTA_CMD);
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
-- 
2.43.0


From 5fc4a631d1a7d37b465662cc4133c5210c7b9edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 14/26] fix: rs_strerror() had no description of RS_PARAM_ERROR

---
 src/msg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/msg.c b/src/msg.c
index 1d9e1f5..304b90a 100644
--- a/src/msg.c
+++ b/src/msg.c
@@ -68,6 +68,8 @@ char const *rs_strerror(rs_result r)
         return "bad command line syntax";
     case RS_INTERNAL_ERROR:
         return "library internal error";
+    case RS_PARAM_ERROR:
+        return "bad parameter";
 
     default:
         return "unexplained problem";
-- 
2.43.0


From c0cb0ebf246bc3be3076a338a6009f7b6688c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 15/26] fix: block and strong lengths over INT_MAX were
 silently truncated

Reject them with RS_PARAM_ERROR instead.
---
 src/job.h    | 4 ++--
 src/mksum.c  | 4 ++--
 src/sumset.c | 5 +++++
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/job.h b/src/job.h
index 7b9d86b..e1a7cbb 100644
--- a/src/job.h
+++ b/src/job.h
@@ -65,8 +65,8 @@ struct rs_job {
     /* Arguments for initializing the signature used by mksum.c and readsums.c.
      */
     int sig_magic;
-    int sig_block_len;
-    int sig_strong_len;
+    size_t sig_block_len;
+    size_t sig_strong_len;
 
     /** The size of the signature file if available. Used by loadsums.c when
      * initializing the signature to preallocate memory. */
diff --git a/src/mksum.c b/src/mksum.c
index a7bcf84..04d5243 100644
--- a/src/mksum.c
+++ b/src/mksum.c
@@ -116,7 +116,7 @@ rs_job_t *rs_sig_begin(size_t block_len, size_t strong_len,
     job->signature = rs_alloc_struct(rs_signature_t);
     job->job_owns_sig = 1;
     job->sig_magic = sig_magic;
-    job->sig_block_len = (int)block_len;
-    job->sig_strong_len = (int)strong_len;
+    job->sig_block_len = block_len;
+    job->sig_strong_len = strong_len;
     return job;
 }
diff --git a/src/sumset.c b/src/sumset.c
index 5a87261..86dff07 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -21,6 +21,7 @@
  */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "librsync.h"
@@ -146,6 +147,10 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
     }
     if (*block_len == 0)
         *block_len = rec_block_len;
+    else if (*block_len > INT_MAX) {
+        rs_error("invalid block_len=" FMT_SIZE, *block_len);
+        return RS_PARAM_ERROR;
+    }
     /* The recommended strong_len assumes the worst case new_fsize = old_fsize
        + 16MB with no matches. This results in comparing a block at every byte
        offset against all the blocks in the signature, or new_fsize*block_num
-- 
2.43.0


From 7ae8bc8b029078033e8cd173b307f15859c26f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 16/26] fix: rs_sig_args() minimum strong_len could exceed the
 maximum

For MD4 and huge files the minimum was more than 16 bytes, and explicit
values between the two were accepted with only a warning.
---
 src/sumset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index 86dff07..6c8174c 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -168,6 +168,8 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
             2 + (rs_long_ln2(old_fsize + ((rs_long_t)1 << 24)) +
                  rs_long_ln2(old_fsize / *block_len + 1) + 7) / 8;
     }
+    if (min_strong_len > max_strong_len)
+        min_strong_len = max_strong_len;
     if (*strong_len == 0)
         *strong_len = max_strong_len;
     else if (*strong_len == -1)
-- 
2.43.0


From 70ef1707b47ab2380885f1741d30cdc3cfc799be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:38 +0000
Subject: [PATCH 17/26] fix: rs_sig_args() overflowed for file sizes near the
 maximum

It looped forever or returned bogus values.
---
 src/sumset.c | 2 +-
 src/util.c   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sumset.c b/src/sumset.c
index 6c8174c..c0a2ec4 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -165,7 +165,7 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
         min_strong_len = RS_DEFAULT_MIN_STRONG_LEN;
     } else {
         min_strong_len =
-            2 + (rs_long_ln2(old_fsize + ((rs_long_t)1 << 24)) +
+            2 + (rs_long_ln2(old_fsize / 2 + ((rs_long_t)1 << 23)) + 1 +
                  rs_long_ln2(old_fsize / *block_len + 1) + 7) / 8;
     }
     if (min_strong_len > max_strong_len)
diff --git a/src/util.c b/src/util.c
index f1e5550..1d270c6 100644
--- a/src/util.c
+++ b/src/util.c
@@ -24,6 +24,7 @@
                                  */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "librsync.h"
@@ -87,8 +88,8 @@ int rs_long_sqrt(rs_long_t v)
         /* Set the bit in the answer n. */
         n |= b;
         /* If n^2 is too big, clear the bit. */
-        if (n * n > v)
+        if (n > v / n)
             n ^= b;
     }
-    return (int)n;
+    return n > INT_MAX ? INT_MAX : (int)n;
 }
-- 
2.43.0


From 8781e43c2ca86f3a8606193253c40ef979bb0dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:39 +0000
Subject: [PATCH 18/26] fix: patch trusted a huge length returned by copy_cb

A copy_cb claiming more than SSIZE_MAX bytes passed the defensive length
check because the value was converted to a negative rs_long_t, moving the
output pointer out of the caller's buffer in NDEBUG builds.
---
 src/patch.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch.c b/src/patch.c
index a619e08..43e097d 100644
--- a/src/patch.c
+++ b/src/patch.c
@@ -185,7 +185,7 @@ static rs_result rs_patch_s_copying(rs_job_t *job)
     /* Actual copied length cannot be greater than requested length. */
     assert(len <= req);
     /* Backwards-compatible defensively handle this for NDEBUG builds. */
-    if ((rs_long_t)len > req) {
+    if (len > (size_t)req) {
         rs_warn("copy_cb() returned more than the requested length");
         len = (size_t)req;
     }
-- 
2.43.0


From a0f2095022442f031b3447ba3ff40bcdbc7f0553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:08 +0000
Subject: [PATCH 19/26] fix: base64 helpers overflowed for data of 256 MiB and
 more

The position arithmetic was done in int.
---
 src/base64.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/base64.c b/src/base64.c
index 6df62cf..90f2403 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -31,7 +31,8 @@ size_t rs_unbase64(char *s)
 {
     char const *b64 =
         "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-    int bit_offset, byte_offset, idx, i;
+    size_t bit_offset, byte_offset, i;
+    int idx;
     unsigned char *d = (unsigned char *)s;
     char *p;
 
@@ -52,7 +53,7 @@ size_t rs_unbase64(char *s)
         i++;
     }
     /* Only complete bytes were encoded, leftover bits are padding. */
-    return (size_t)(i * 6) / 8;
+    return (i * 6) / 8;
 }
 
 /** Encode a buffer as base64 - simple and slow algorithm. */
@@ -60,21 +61,21 @@ void rs_base64(unsigned char const *buf, int n, char *out)
 {
     char const *b64 =
         "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
-    int bytes, i;
+    size_t bytes, i;
 
     /* work out how many bytes of output there are */
-    bytes = ((n * 8) + 5) / 6;
+    bytes = n < 0 ? 0 : (((size_t)n * 8) + 5) / 6;
 
     for (i = 0; i < bytes; i++) {
-        int byte = (i * 6) / 8;
-        int bit = (i * 6) % 8;
+        size_t byte = (i * 6) / 8;
+        int bit = (int)((i * 6) % 8);
 
         if (bit < 3) {
-            if (byte >= n)
+            if (byte >= (size_t)n)
                 abort();
             *out = b64[(buf[byte] >> (2 - bit)) & 0x3F];
         } else {
-            if (byte + 1 == n) {
+            if (byte + 1 == (size_t)n) {
                 *out = b64[(buf[byte] << (bit - 2)) & 0x3F];
             } else {
                 *out =
-- 
2.43.0


From f79fa876cec80213b590d793766e965ada1420de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:18 +0000
Subject: [PATCH 20/26] fix: hash table size overflowed for more than 214
 million blocks

It became a two-bucket table (most blocks were never found), or looped
forever for even larger signatures.
---
 src/hashtable.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hashtable.c b/src/hashtable.c
index ff3f29c..b87a5fb 100644
--- a/src/hashtable.c
+++ b/src/hashtable.c
@@ -19,6 +19,7 @@
  * Foundation, Inc., 675 Mass Ave, Cambridge, MA 02139, USA.
  */
 #include <assert.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include "hashtable.h"
 
@@ -38,8 +39,14 @@ hashtable_t *_hashtable_new(int size)
     hashtable_t *t;
     unsigned size2, bits2;
 
+    /* Fail if the adjusted size below would need more than 2^30 buckets. */
+    if (size >= (1 << 30) / HASHTABLE_LOADFACTOR_DEN * HASHTABLE_LOADFACTOR_NUM)
+        return NULL;
     /* Adjust requested size to account for max load factor. */
-    size = 1 + size * HASHTABLE_LOADFACTOR_DEN / HASHTABLE_LOADFACTOR_NUM;
+    size =
+        (int)(1 +
+              (int64_t)size * HASHTABLE_LOADFACTOR_DEN /
+              HASHTABLE_LOADFACTOR_NUM);
     /* Use next power of 2 larger than the requested size and get mask bits. */
     for (size2 = 2, bits2 = 1; (int)size2 < size; size2 <<= 1, bits2++) ;
     if (!(t = calloc(1, sizeof(hashtable_t)+ size2 * sizeof(unsigned))))
-- 
2.43.0


From 1eca4b6140ce5a0ff2d074357c42b6b7f9991cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:11 +0000
Subject: [PATCH 21/26] fix: rs_sig_args() looped forever for the largest file
 size

The number of one-byte blocks of a file of INT64_MAX bytes, plus one, is
negative as an rs_long_t.
---
 src/util.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/util.c b/src/util.c
index 1d270c6..5025552 100644
--- a/src/util.c
+++ b/src/util.c
@@ -25,6 +25,7 @@
 
 #include "config.h"             /* IWYU pragma: keep */
 #include <limits.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include "librsync.h"
@@ -70,10 +71,11 @@ void *rs_realloc(void *ptr, size_t size, char const *name)
 
 int rs_long_ln2(rs_long_t v)
 {
+    uintmax_t u = (uintmax_t)v; /* Arithmetic shifts never zero negatives. */
     int n;
 
-    /* Count the number of shifts to zero v. */
-    for (n = 0; (v >>= 1); n++) ;
+    /* Count the number of shifts to zero u. */
+    for (n = 0; (u >>= 1); n++) ;
     return n;
 }
 
-- 
2.43.0


From 697fbc2b8da3e30050b165f91c417862e7996ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:13 +0000
Subject: [PATCH 22/26] fix: blocks with weak sums 0 and 0xffffffff were
 confused

The hashtable maps both to the same key, so a truncated strong sum alone
decided a match, and only the first of such a pair was indexed.
---
 src/sumset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index c0a2ec4..475dca0 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -64,6 +64,9 @@ static void rs_block_match_init(rs_block_match_t *match, rs_signature_t *sig,
 static inline int rs_block_match_cmp(rs_block_match_t *match,
                                      const rs_block_sig_t *block_sig)
 {
+    /* The hashtable uses the same key for weak sums 0 and -1. */
+    if (match->block_sig.weak_sum != block_sig->weak_sum)
+        return 1;
     /* If buf is not NULL, the strong sum is yet to be calculated. */
     if (match->buf) {
 #ifndef HASHTABLE_NSTATS
-- 
2.43.0


From efcc0bed090bb71749373abe8e7473943084441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:13 +0000
Subject: [PATCH 23/26] fix: rs_build_hash_table() leaked the old table when
 called again

---
 src/sumset.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sumset.c b/src/sumset.c
index 475dca0..2397678 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -283,14 +283,17 @@ void rs_signature_log_stats(rs_signature_t const *sig)
 
 rs_result rs_build_hash_table(rs_signature_t *sig)
 {
+    hashtable_t *t;
     rs_block_match_t m;
     rs_block_sig_t *b;
     int i;
 
     rs_signature_check(sig);
-    sig->hashtable = hashtable_new(sig->count);
-    if (!sig->hashtable)
+    if (!(t = hashtable_new(sig->count)))
         return RS_MEM_ERROR;
+    /* Release any table from a previous call. */
+    hashtable_free(sig->hashtable);
+    sig->hashtable = t;
     for (i = 0; i < sig->count; i++) {
         b = rs_block_sig_ptr(sig, i);
         rs_block_match_init(&m, sig, b->weak_sum, &b->strong_sum, NULL, 0);
-- 
2.43.0


From 25c354fdae9df46558ae2a5a7a45ee00e82d8d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:43 +0000
Subject: [PATCH 24/26] fix: rdiff --help and --version exited 0 when the text
 could not be written

---
 src/rdiff.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/rdiff.c b/src/rdiff.c
index 5175215..e1285f8 100644
--- a/src/rdiff.c
+++ b/src/rdiff.c
@@ -147,6 +147,17 @@ static void rdiff_show_version(void)
            (long)(8 * sizeof(rs_long_t)), zlib, bzlib, trace);
 }
 
+/** Exit after printing information, reporting if that failed. */
+static void rdiff_exit_info(void)
+{
+    rs_result result =
+        fflush(stdout) || ferror(stdout) ? RS_IO_ERROR : RS_DONE;
+
+    if (result != RS_DONE)
+        fprintf(stderr, "rdiff: Failed, %s.\n", rs_strerror(result));
+    exit(result);
+}
+
 static void rdiff_options(poptContext opcon)
 {
     int c;
@@ -156,10 +167,12 @@ static void rdiff_options(poptContext opcon)
         switch (c) {
         case 'h':
             help();
-            exit(RS_DONE);
+            rdiff_exit_info();
+            break;
         case 'V':
             rdiff_show_version();
-            exit(RS_DONE);
+            rdiff_exit_info();
+            break;
         case 'v':
             if (!rs_supports_trace()) {
                 fprintf(stderr, "rdiff: Library does not support trace.\n");
-- 
2.43.0


From dae340d09b329aa45e924959ac5c8e4660cd66a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:20 +0000
Subject: [PATCH 25/26] fix: delta reported an internal error when a match
 after blocked output filled the input

A match found while the literal data before it could not all be written is
left unprocessed in the input. With a block length over 64 KiB the input can
then be enough to scan without copying it to the scoop but too little to scan
any further, and the next call made no progress and failed with
RS_INTERNAL_ERROR. Process the match as soon as the output has caught up.
---
 src/delta.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index d1dadda..fcaef23 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -134,6 +134,9 @@ static rs_result rs_delta_s_scan(rs_job_t *job)
     /* read the input into the scoop */
     if ((result = rs_getinput(job, block_len)) != RS_DONE)
         return result;
+    /* process a match that could not be processed while output was blocked */
+    if (job->basis_len && job->scan_pos)
+        result = rs_processmatch(job);
     /* while output is not blocked and there is a block of data */
     while ((result == RS_DONE) && ((job->scan_pos + block_len) < job->scan_len)) {
         /* check if this block matches */
-- 
2.43.0


From 2f6cbaf31ba76e69b87b3751c7cd3539251675cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 26/26] fix: delta memory grew with the input when it arrived
 faster than output was taken

While data was held in the scoop every scan copied all the input available
into it, although it stops at the first command that cannot be output, so the
scoop could grow to the size of the whole file.  Take only what is needed.
---
 src/delta.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/delta.c b/src/delta.c
index fcaef23..037d7f4 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -157,6 +157,9 @@ static rs_result rs_delta_s_scan(rs_job_t *job)
         if (job->stream->eof_in) {
             job->statefn = rs_delta_s_flush;
             return RS_RUNNING;
+        } else if (rs_scoop_avail(job) > job->scan_len) {
+            /* there is more input we have not taken yet */
+            return RS_RUNNING;
         } else {
             /* we are blocked waiting for more data */
             return RS_BLOCKED;
@@ -216,8 +219,16 @@ static inline rs_result rs_getinput(rs_job_t *job, size_t block_len)
     size_t min_len = block_len + MAX_DELTA_CMD;
 
     job->scan_len = rs_scoop_avail(job);
-    if (job->scan_len < min_len && !job->stream->eof_in)
-        job->scan_len = min_len;
+    if (!job->stream->eof_in) {
+        if (job->scan_len < min_len) {
+            job->scan_len = min_len;
+        } else if (job->scoop_avail) {
+            /* Input has to be copied into the scoop, so take only as much as
+               is needed or the scoop could grow without limit. */
+            job->scan_len =
+                job->scoop_avail < min_len ? min_len : job->scoop_avail;
+        }
+    }
     return rs_scoop_readahead(job, job->scan_len, (void **)&job->scan_buf);
 }
 
-- 
2.43.0

