From 5a6d0694f08256fb1167e714b47574bdbea5782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 01/70] fix: mark the attribute set dirty when an attribute is
 removed

The removal was lost unless another attribute was set before the flush.
---
 src/bigfile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 61fc839..5682b24 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1703,6 +1703,7 @@ attrset_remove_attr(BigAttrSet * attrset, const char * attrname)
     memmove(&attrset->attrlist[ind], &attrset->attrlist[ind + 1],
         (attrset->listused - ind - 1) * sizeof(BigAttr));
     attrset->listused -= 1;
+    attrset->dirty = 1;
 
     return 0;
 
-- 
2.43.0


From aaf9bb520d63543876244bacce0d6a079f52d668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 02/70] fix: do not swap the byte order of the source of a
 conversion in place

Writing, setting or reading attributes and formatting modified the caller's
buffer or the stored attribute when its type was not in machine byte order.
---
 src/bigfile.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 5682b24..6644c84 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1265,15 +1265,39 @@ int
 _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
 {
     /* cast buf2 of dtype2 into buf1 of dtype1 */
+    BigArrayIter iter1 = *dst;
+    BigArrayIter iter2 = *src;
+
     /* match src to machine endianness */
     if(src->array->dtype[0] != MACHINE_ENDIANNESS) {
-        BigArrayIter iter = *src;
-        byte_swap(&iter, nmemb);
-    }
+        /* src belongs to the caller and must stay as it is: swap a private, contiguous copy. */
+        size_t elsize = big_file_dtype_itemsize(src->array->dtype);
+        char * swapped = malloc(nmemb * elsize + 1);
+        BigArray array;
+        BigArrayIter iter;
+        size_t i;
+
+        RAISEIF(swapped == NULL,
+            ex_malloc,
+            "Not enough memory for swapping byte order");
 
-    BigArrayIter iter1 = *dst;
-    BigArrayIter iter2 = *src;
+        for(i = 0; i < nmemb; i ++) {
+            memcpy(swapped + i * elsize, iter2.dataptr, elsize);
+            big_array_iter_advance(&iter2);
+        }
+
+        big_array_init(&array, swapped, src->array->dtype, 1, &nmemb, NULL);
+        big_array_iter_init(&iter, &array);
+        byte_swap(&iter, nmemb);
 
+        big_array_iter_init(&iter, &array);
+        int rt = cast(&iter1, &iter, nmemb);
+        free(swapped);
+        if(0 != rt) {
+            /* cast is not supported */
+            return -1;
+        }
+    } else
     if(0 != cast(&iter1, &iter2, nmemb)) {
         /* cast is not supported */
         return -1;
@@ -1287,6 +1311,9 @@ _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
     *dst = iter1;
     *src = iter2;
     return 0;
+
+ex_malloc:
+    return -1;
 }
 
 
-- 
2.43.0


From 69bf8b700d7de4e79680ce5a4ad387b2cb5e6522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 03/70] fix: swap the two parts of a complex number separately

Reversing the whole element exchanged the real and the imaginary part.
---
 src/bigfile.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 6644c84..8018709 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1323,17 +1323,22 @@ byte_swap(BigArrayIter * iter, size_t nmemb)
     /* swap a buffer in-place */
     int elsize = big_file_dtype_itemsize(iter->array->dtype);
     if(elsize == 1) return;
+    /* the real and imaginary parts of a complex number are swapped separately */
+    int nparts = iter->array->dtype[1] == 'c' ? 2 : 1;
+    int partsize = elsize / nparts;
     /* need byte swap; do it now on buf2 */
     /* XXX: this may still be wrong. */
     ptrdiff_t i;
-    int half = elsize >> 1;
+    int half = partsize >> 1;
     for(i = 0; i < nmemb; i ++) {
-        int j;
-        char * ptr = iter->dataptr;
-        for(j = 0; j < half; j ++) {
-            char tmp = ptr[j];
-            ptr[j] = ptr[elsize - j - 1];
-            ptr[elsize - j - 1] = tmp;
+        int j, k;
+        for(k = 0; k < nparts; k ++) {
+            char * ptr = (char*) iter->dataptr + k * partsize;
+            for(j = 0; j < half; j ++) {
+                char tmp = ptr[j];
+                ptr[j] = ptr[partsize - j - 1];
+                ptr[partsize - j - 1] = tmp;
+            }
         }
         big_array_iter_advance(iter);
     }
-- 
2.43.0


From d376d5cd657c48d48bb56c3a6741af9aa144aeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 04/70] fix: let the I/O buffer hold at least one row

With a buffer smaller than a row, writing never ended and reading failed.
---
 src/bigfile.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 8018709..c3a69b5 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -797,11 +797,12 @@ ex_seek:
 int
 big_block_read(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 {
-    char * chunkbuf = malloc(CHUNK_BYTES);
-
     int nmemb = bb->nmemb ? bb->nmemb : 1;
-    int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
-    size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    size_t felsize = (size_t) big_file_dtype_itemsize(bb->dtype) * nmemb;
+    /* the buffer holds at least one row */
+    size_t chunkbytes = CHUNK_BYTES > felsize ? CHUNK_BYTES : felsize;
+    char * chunkbuf = malloc(chunkbytes);
+    size_t CHUNK_SIZE = chunkbytes / felsize;
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -893,10 +894,12 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
     if(array->size == 0) return 0;
     /* the file header is modified */
     bb->dirty = 1;
-    char * chunkbuf = malloc(CHUNK_BYTES);
     int nmemb = bb->nmemb ? bb->nmemb : 1;
-    int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
-    size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    size_t felsize = (size_t) big_file_dtype_itemsize(bb->dtype) * nmemb;
+    /* the buffer holds at least one row */
+    size_t chunkbytes = CHUNK_BYTES > felsize ? CHUNK_BYTES : felsize;
+    char * chunkbuf = malloc(chunkbytes);
+    size_t CHUNK_SIZE = chunkbytes / felsize;
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -910,7 +913,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 
     RAISEIF(chunkbuf == NULL,
             ex_malloc,
-            "not enough memory for chunkbuf of size %d bytes", CHUNK_BYTES);
+            "not enough memory for chunkbuf of size %td bytes", chunkbytes);
 
     big_array_init(&chunk_array, chunkbuf, bb->dtype, 2, dims, NULL);
     big_array_iter_init(&array_iter, array);
-- 
2.43.0


From 76f4f486eb9f55bb8b744d05765f30dc5c5e912b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 05/70] fix: error messages of any length and content

A long file name overflowed the message buffer, a percent sign in a name was
expanded when an error was raised again, and raising in several threads used
messages after another thread had freed them.
---
 src/bigfile.c | 64 ++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index c3a69b5..1932b40 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -100,11 +100,11 @@ char * big_file_get_error_message() {
     return ERRORSTR;
 }
 
-void
-big_file_set_error_message(char * msg)
+/* replace the message by msg, taking its ownership, and giving the ownership of the old message to the caller */
+static char *
+_big_file_swap_error_message(char * msg)
 {
     char * errorstr;
-    if(msg != NULL) msg = _strdup(msg);
 
 #if __STDC_VERSION__ >= 201112L && !defined(__STDC_NO_ATOMICS__)
     errorstr = atomic_exchange(&ERRORSTR, msg);
@@ -121,7 +121,14 @@ big_file_set_error_message(char * msg)
     #warning "enable -std=c11 or -std=gnu11, or luse gcc for thread friendly error handling"
 #endif
 
-    if(errorstr) free(errorstr);
+    return errorstr;
+}
+
+void
+big_file_set_error_message(char * msg)
+{
+    if(msg != NULL) msg = _strdup(msg);
+    free(_big_file_swap_error_message(msg));
 }
 
 
@@ -156,26 +163,41 @@ _big_file_path_is_block(const char * basename)
 void
 _big_file_raise(const char * msg, const char * file, const int line, ...)
 {
-    if(!msg) {
-        if(ERRORSTR) {
-            msg = ERRORSTR;
+    /* the current message is the text of an earlier error, not a format;
+     * it is taken out, such that no other thread frees it meanwhile. */
+    char * old = msg ? NULL : _big_file_swap_error_message(NULL);
+    const char * text = old ? old : "UNKNOWN ERROR";
+    char empty[1];
+    int len;
+    va_list va;
+
+    if(msg) {
+        va_start(va, line);
+        len = vsnprintf(empty, 1, msg, va);
+        va_end(va);
+    } else {
+        len = strlen(text);
+    }
+    if(len < 0) len = 0;
+
+    size_t size = (size_t) len + strlen(file) + 64;
+    char * errorstr = malloc(size);
+    if(errorstr) {
+        errorstr[0] = 0;
+        if(msg) {
+            va_start(va, line);
+            vsnprintf(errorstr, len + 1, msg, va);
+            va_end(va);
         } else {
-            msg = "UNKNOWN ERROR";
+            strcpy(errorstr, text);
         }
-    }
+        size_t used = strlen(errorstr);
+        snprintf(errorstr + used, size - used, " @(%s:%d)", file, line);
 
-    size_t len = strlen(msg) + strlen(file) + 512;
-    char * errorstr = malloc(len);
-
-    char * fmtstr = alloca(len);
-    sprintf(fmtstr, "%s @(%s:%d)", msg, file, line);
-    va_list va;
-    va_start(va, line);
-    vsprintf(errorstr, fmtstr, va);
-    va_end(va);
-
-    big_file_set_error_message(errorstr);
-    free(errorstr);
+        errorstr = _big_file_swap_error_message(errorstr);
+        free(errorstr);
+    }
+    free(old);
 }
 
 /* BigFile */
-- 
2.43.0


From 8315e338feb6a3962f921912a973403461f3bf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 06/70] fix: a group or block with the name header does not
 make its parent a block

---
 src/bigfile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 1932b40..63255ae 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -152,11 +152,14 @@ static int
 _big_file_path_is_block(const char * basename)
 {
     FILE * fheader = _big_file_open_a_file(basename, FILEID_HEADER, "r", 0);
+    struct stat st;
     if(fheader == NULL) {
         return 0;
     }
+    /* a directory can be opened for reading, too; it is a group or block of that name. */
+    int isblock = 0 == fstat(fileno(fheader), &st) && !S_ISDIR(st.st_mode);
     fclose(fheader);
-    return 1;
+    return isblock;
 }
 
 
-- 
2.43.0


From 19c408f33c1fb6090cbfa1f43c9b924c843197d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 07/70] fix: report failures of writing the header and the
 attributes

The files are buffered; on a full device the data is only refused by fclose,
whose return value was ignored. Unwritten attributes stay dirty.
---
 src/bigfile.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 63255ae..0542ae5 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -628,7 +628,10 @@ big_block_flush(BigBlock * block)
             RAISEIF(0 > fprintf(fheader, EXT_DATA ": %td : %u : %u\n", i, block->fsize[i], block->fchecksum[i], checksum),
                 ex_fprintf, "Writing file information to header");
         }
-        fclose(fheader);
+        /* buffered data may fail to be written only now */
+        RAISEIF(0 != fclose(fheader),
+            ex_fileio,
+            "Failed to write the header of block `%s' (%s)", block->basename, strerror(errno));
         block->dirty = 0;
     }
     if(block->attrset->dirty) {
@@ -1621,7 +1624,6 @@ static int
 attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
 {
     static char conv[] = "0123456789ABCDEF";
-    attrset->dirty = 0;
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "w", 1);
     RAISEIF(fattr == NULL,
@@ -1681,7 +1683,11 @@ attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
             ex_write,
             "Failed to write to file");
     } 
-    fclose(fattr);
+    /* buffered data may fail to be written only now */
+    RAISEIF(0 != fclose(fattr),
+        ex_open,
+        "Failed to write the attributes of block `%s' (%s)", basename, strerror(errno));
+    attrset->dirty = 0;
     return 0;
 ex_write:
     fclose(fattr);
-- 
2.43.0


From e40938d8c4bbd9a2a1048d305605e44b0461b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 08/70] fix: limit the length of the type read from a header

A longer word overflowed the dtype of the block.
---
 src/bigfile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 0542ae5..eba2208 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -362,7 +362,7 @@ _big_block_open(BigBlock * bb, const char * basename)
                 NULL);
 
         RAISEIF(
-               (1 != fscanf(fheader, " DTYPE: %s", bb->dtype)) ||
+               (1 != fscanf(fheader, " DTYPE: %7s", bb->dtype)) ||
                (1 != fscanf(fheader, " NMEMB: %d", &(bb->nmemb))) ||
                (1 != fscanf(fheader, " NFILE: %d", &(bb->Nfile))),
                ex_fscanf,
-- 
2.43.0


From 641f465c3c1b88cd30479de1369a945bd9c16a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 09/70] fix: refuse headers with negative file sizes

They were taken as huge unsigned sizes, and the offsets of the rows overflowed.
---
 src/bigfile.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index eba2208..8b1980e 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -388,7 +388,7 @@ _big_block_open(BigBlock * bb, const char * basename)
                 "Failed to alloc memory `%s'", bb->basename);
         int i;
         for(i = 0; i < bb->Nfile; i ++) {
-            int fid; 
+            int fid = -1;
             size_t size;
             unsigned int cksum;
             unsigned int sysv;
@@ -398,12 +398,16 @@ _big_block_open(BigBlock * bb, const char * basename)
                     strerror(errno));
             RAISEIF(fid < 0 || fid >= bb->Nfile, ex_fscanf1,
                     "Non-existent file referenced: `%s' (%d)", bb->basename, fid);
+            RAISEIF(size > PTRDIFF_MAX, ex_fscanf1,
+                    "Unreasonable size of file in header of block `%s' (%td)", bb->basename, size);
             bb->fsize[fid] = size;
             bb->fchecksum[fid] = cksum;
         }
         bb->foffset[0] = 0;
         for(i = 0; i < bb->Nfile; i ++) {
             bb->foffset[i + 1] = bb->foffset[i] + bb->fsize[i];
+            RAISEIF(bb->foffset[i + 1] > PTRDIFF_MAX, ex_fscanf1,
+                    "Unreasonable size in header of block `%s'", bb->basename);
         }
         bb->size = bb->foffset[bb->Nfile];
 
-- 
2.43.0


From 0cf47918d9059cf483efaf6e143f83c65a5e1ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 10/70] fix: parse attribute files within their bounds

A line that is cut short or has too few words made the parser run over the end
of the buffer, and negative counts, long types and non-hexadecimal data were
accepted.
---
 src/bigfile.c | 46 ++++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 8b1980e..c1fe959 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1545,8 +1545,14 @@ ex_fread:
     return -1;
 }
 
-static int _isblank(int ch) {
-    return ch == ' ' || ch == '\t';
+/* cut the next blank separated word off the line at p; empty if there are no more */
+static char *
+_next_word(char ** p)
+{
+    char * word = *p + strspn(*p, " \t");
+    *p = word + strcspn(word, " \t");
+    if(**p) *((*p)++) = 0;
+    return word;
 }
 
 static int
@@ -1573,28 +1579,32 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
     buffer[size] = 0;
 
     /* now parse the v2 attr file.*/
-    long i = 0;
-    #define ATTRV2_EXPECT(variable) while(_isblank(buffer[i])) i++; \
-                    char * variable = buffer + i; \
-                    while(!_isblank(buffer[i])) i++; buffer[i] = 0; i++;
-    while(buffer[i]) {
-        ATTRV2_EXPECT(name);
-        ATTRV2_EXPECT(dtype);
-        ATTRV2_EXPECT(rawlength);
-        ATTRV2_EXPECT(rawdata);
+    char * line = buffer;
+    while(*line) {
+        char * p = line;
+        line += strcspn(line, "\n");
+        if(*line) *(line++) = 0;
+
+        char * name = _next_word(&p);
+        char * dtype = _next_word(&p);
+        char * rawlength = _next_word(&p);
+        char * rawdata = _next_word(&p);
         /* skip the reset of the line */
-        while(buffer[i] != '\n' && buffer[i]) i ++;
-        if(buffer[i] == '\n') i++;
 
-        int nmemb = atoi(rawlength);
-        int itemsize = big_file_dtype_itemsize(dtype);
+        long nmemb = strtol(rawlength, &p, 10);
+        RAISEIF(rawlength[0] == 0 || *p != 0 || nmemb < 0 || nmemb > INT_MAX || strlen(dtype) > 7,
+            ex_parse_attr,
+            "Malformed line for attribute `%s'", name);
 
-        RAISEIF(nmemb * itemsize * 2!= strlen(rawdata),
+        long itemsize = big_file_dtype_itemsize(dtype);
+
+        RAISEIF(itemsize <= 0 || nmemb * itemsize * 2 != strlen(rawdata)
+             || strspn(rawdata, "0123456789abcdefABCDEF") != strlen(rawdata),
             ex_parse_attr,
-            "NMEMB and data mismiatch: %d x %d (%s) * 2 != %d",
+            "NMEMB and data mismiatch: %ld x %ld (%s) * 2 != %td",
             nmemb, itemsize, dtype, strlen(rawdata));
 
-        int j, k;
+        long j, k;
         for(k = 0, j = 0; k < nmemb * itemsize; k ++, j += 2) {
             char buf[3];
             buf[0] = rawdata[j];
-- 
2.43.0


From cee5f59d05a5f3c8fa8dec1c0804339b8a522440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 11/70] fix: read back attributes without members

The comment after the empty data was taken as the data, and the block could not
be opened any more.
---
 src/bigfile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index c1fe959..c1a5d28 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1598,6 +1598,9 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
 
         long itemsize = big_file_dtype_itemsize(dtype);
 
+        /* there is no data without members; the word is the comment already */
+        if(nmemb == 0) rawdata = "";
+
         RAISEIF(itemsize <= 0 || nmemb * itemsize * 2 != strlen(rawdata)
              || strspn(rawdata, "0123456789abcdefABCDEF") != strlen(rawdata),
             ex_parse_attr,
-- 
2.43.0


From ecc20c256f1723440621e325a54264a5f83d1092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 12/70] fix: refuse empty attribute names

The block could not be opened any more.
---
 src/bigfile.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index c1a5d28..650ed6f 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1810,9 +1810,10 @@ attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data,
     RAISEIF (
          strchr(attrname, ' ')
       || strchr(attrname, '\t')
-      || strchr(attrname, '\n'),
+      || strchr(attrname, '\n')
+      || attrname[0] == 0,
       ex_name,
-      "Attribute name cannot contain blanks (space, tab or newline)"
+      "Attribute name `%s' cannot be empty or contain blanks (space, tab or newline)", attrname
     );
 
     /* Remove it if it exists*/
-- 
2.43.0


From 3ecd01b5c6de15efc2d74a4acad0cf4c36005133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 13/70] fix: do not trust the sizes in version 1 attribute
 files

They were allocated on the stack, whatever they were.
---
 src/bigfile.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 650ed6f..2bc83fc 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1510,8 +1510,8 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
     int nmemb;
     int lname;
     char dtype[9]={0};
-    char * data;
-    char * name;
+    char * data = NULL;
+    char * name = NULL;
     while(!feof(fattr)) {
         if(1 != fread(&nmemb, sizeof(int), 1, fattr)) break;
         RAISEIF(
@@ -1521,12 +1521,20 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
             ex_fread,
             "Failed to read from file"
                 )
-        int ldata = big_file_dtype_itemsize(dtype) * nmemb;
-        data = alloca(ldata);
-        name = alloca(lname + 1);
+        RAISEIF(nmemb < 0 || lname <= 0 || lname == INT_MAX,
+            ex_fread,
+            "Malformed attribute file of `%s'", basename);
+        size_t ldata = (size_t) big_file_dtype_itemsize(dtype) * nmemb;
+        free(data);
+        free(name);
+        data = malloc(ldata + 1);
+        name = malloc(lname + 1);
+        RAISEIF(data == NULL || name == NULL,
+            ex_fread,
+            "Not enough memory for the attributes of `%s'", basename);
         RAISEIF(
-            (1 != fread(name, lname, 1, fattr)) ||
-            (1 != fread(data, ldata, 1, fattr)),
+            (lname != fread(name, 1, lname, fattr)) ||
+            (ldata != fread(data, 1, ldata, fattr)),
             ex_fread,
             "Failed to read from file");
 
@@ -1537,11 +1545,15 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
     }
     attrset->dirty = 0;
     fclose(fattr);
+    free(data);
+    free(name);
     return 0;
 ex_set_attr:
 ex_fread:
     attrset->dirty = 0;
     fclose(fattr);
+    free(data);
+    free(name);
     return -1;
 }
 
-- 
2.43.0


From b19f501a90470f5b185eefa86f34b6ce5059373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 14/70] fix: refuse to create blocks of types that cannot be
 opened again

---
 src/bigfile.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 2bc83fc..fe1abc0 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -526,6 +526,8 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
         }
         /* always use normalized dtype in files. */
         _dtype_normalize(bb->dtype, dtype);
+        RAISEIF(!dtype_isvalid(bb->dtype), ex_dtype,
+                "Cannot create block `%s' of unsupported dtype (%s)", bb->basename, dtype);
 
         bb->Nfile = Nfile;
         bb->nmemb = nmemb;
@@ -577,6 +579,10 @@ ex_flush2:
         return -1;
     }
 
+ex_dtype:
+    attrset_free(bb->attrset);
+    free(bb->basename);
+    memset(bb, 0, sizeof(bb[0]));
 ex_name:
     return -1;
 }
@@ -1081,6 +1087,9 @@ dtype_isvalid(const char * dtype)
     int width = atoi(&dtype[2]);
     if(width > 16 || width <= 0)
         return 0;
+    /* nothing but the width follows the kind */
+    if(strspn(&dtype[2], "0123456789") != strlen(&dtype[2]))
+        return 0;
     return 1;
 }
 
-- 
2.43.0


From 8ccf6a84c7d85aa3e4ea54097914147431a6d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 15/70] fix: report text that cannot be parsed as a number

The value was made from uninitialized memory.
---
 src/bigfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index fe1abc0..112bb04 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1268,12 +1268,12 @@ big_file_dtype_parse(const char * buffer, const char * dtype, void * data, const
 #define PARSE1(dtype, defaultfmt) \
     if(0 == strcmp(ndtype + 1, # dtype)) { \
         if(fmt == NULL) fmt = defaultfmt; \
-        sscanf(buffer, fmt, p.dtype); \
+        if(1 != sscanf(buffer, fmt, p.dtype)) return -1; \
     }
 #define PARSE2(dtype, defaultfmt) \
     if(0 == strcmp(ndtype + 1, # dtype)) { \
         if(fmt == NULL) fmt = defaultfmt; \
-        sscanf(buffer, fmt, &p.dtype->r, &p.dtype->i); \
+        if(2 != sscanf(buffer, fmt, &p.dtype->r, &p.dtype->i)) return -1; \
     }
     PARSE1(a1, "%c") else
     PARSE1(i8, "%ld") else
-- 
2.43.0


From 503a85bd95445839f16621e80b3d6320b6b6b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 16/70] fix: negative start and count in big_block_read_simple

The sums were compared as unsigned numbers: a count of -1 at row 0 read the
whole block, and some starts from the end read beyond it.
---
 src/bigfile.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 112bb04..d51916f 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -802,17 +802,20 @@ big_block_read_simple(BigBlock * bb, ptrdiff_t start, ptrdiff_t size, BigArray *
     void * buffer;
     size_t dims[2];
 
+    RAISEIF(size < 0,
+       ex_seek,
+       "Cannot read %td rows", size
+    );
     RAISEIF(0 != big_block_seek(bb, &ptr, start),
        ex_seek,
        "failed to seek"       
     );
+    /* as seek does, count negatives from the end */
+    if(start < 0) start += bb->size;
 
-    if(start + size > bb->size){
+    if(size > bb->size - start){
         size = bb->size - start;
     }
-    RAISEIF(size < 0,
-            ex_seek,
-            "failed to seek");
 
     buffer = malloc(size * big_file_dtype_itemsize(dtype) * bb->nmemb);
 
-- 
2.43.0


From 3df2c3a95e4298da7b23cb7da8c76cbf8c550d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 17/70] fix: seeking to before the first row relative to the
 position

It ended up at a row counted from the end of the block.
---
 src/bigfile.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index d51916f..a8a48dc 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -772,7 +772,14 @@ int
 big_block_seek_rel(BigBlock * bb, BigBlockPtr * ptr, ptrdiff_t rel)
 {
     ptrdiff_t abs = bb->foffset[ptr->fileid] + ptr->roffset + rel;
+    /* seek counts negatives from the end */
+    RAISEIF(abs < 0,
+            ex_eof,
+            "Before the start of file %td of %td",
+            abs, bb->size);
     return big_block_seek(bb, ptr, abs);
+ex_eof:
+    return -1;
 }
 
 int
-- 
2.43.0


From 56cfd80e94b9b6ac944c905d2f48a0ec12e2c8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 18/70] fix: refuse to seek, read and write the meta block
 instead of crashing

The block of a directory has attributes only; it has no files and no row size.
---
 src/bigfile.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index a8a48dc..036175d 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -740,7 +740,7 @@ big_block_seek(BigBlock * bb, BigBlockPtr * ptr, ptrdiff_t offset)
         return 0;
     }
     /* handle negatives */
-    if(offset < 0) offset += bb->foffset[bb->Nfile];
+    if(offset < 0) offset += bb->size;
 
     RAISEIF(offset > bb->size, 
             ex_eof,
@@ -771,7 +771,8 @@ ex_eof:
 int
 big_block_seek_rel(BigBlock * bb, BigBlockPtr * ptr, ptrdiff_t rel)
 {
-    ptrdiff_t abs = bb->foffset[ptr->fileid] + ptr->roffset + rel;
+    /* the meta block has no files */
+    ptrdiff_t abs = (bb->foffset ? bb->foffset[ptr->fileid] : 0) + ptr->roffset + rel;
     /* seek counts negatives from the end */
     RAISEIF(abs < 0,
             ex_eof,
@@ -785,6 +786,7 @@ ex_eof:
 int
 big_block_eof(BigBlock * bb, BigBlockPtr * ptr)
 {
+    if(bb->foffset == NULL) return 1; /* the meta block has no files */
     ptrdiff_t abs = bb->foffset[ptr->fileid] + ptr->roffset;
     return abs >= bb->size;
 }
@@ -847,6 +849,9 @@ big_block_read(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 {
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     size_t felsize = (size_t) big_file_dtype_itemsize(bb->dtype) * nmemb;
+    RAISEIF(felsize == 0,
+            ex_malloc,
+            "Block `%s' of dtype `%s' has no rows", bb->basename, bb->dtype);
     /* the buffer holds at least one row */
     size_t chunkbytes = CHUNK_BYTES > felsize ? CHUNK_BYTES : felsize;
     char * chunkbuf = malloc(chunkbytes);
@@ -940,10 +945,11 @@ int
 big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 {
     if(array->size == 0) return 0;
-    /* the file header is modified */
-    bb->dirty = 1;
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     size_t felsize = (size_t) big_file_dtype_itemsize(bb->dtype) * nmemb;
+    RAISEIF(felsize == 0,
+            ex_malloc,
+            "Block `%s' of dtype `%s' has no rows", bb->basename, bb->dtype);
     /* the buffer holds at least one row */
     size_t chunkbytes = CHUNK_BYTES > felsize ? CHUNK_BYTES : felsize;
     char * chunkbuf = malloc(chunkbytes);
@@ -974,6 +980,9 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
                 "Writing beyond the block `%s` at (%d:%td)",
                 bb->basename, ptr->fileid, ptr->roffset * felsize);
 
+    /* the file header is modified */
+    bb->dirty = 1;
+
     while(towrite > 0 && ! big_block_eof(bb, ptr)) {
         size_t chunk_size = CHUNK_SIZE;
         /* remaining items in the file */
-- 
2.43.0


From 40ea9b1a1a263228acfb270f277fa85e526923ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 19/70] fix: bigfile-check exits nonzero if a check failed

It always exited with zero, also when a block could not be read, and was always
verbose.
---
 utils/bigfile-check | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/utils/bigfile-check b/utils/bigfile-check
index b777019..878913b 100755
--- a/utils/bigfile-check
+++ b/utils/bigfile-check
@@ -1,16 +1,19 @@
 #! /bin/bash
 
+# the status of a pipeline is that of the failing command
+set -o pipefail
+
 usage() {
     echo 'Usage: bigfile-check file [block ...]' >&2
     exit;
 }
 
 fail () {
-    exit;
+    exit 1;
 }
 
 
-VERBOSE=0
+VERBOSE=
 while getopts ":v" opt; do
     case $opt in 
         v )
@@ -66,9 +69,11 @@ for block in $BLOCKS ; do
     ( check $block ) &
     JOBS="$JOBS $!"
 done
+STATUS=0
 for job in $JOBS ; do
     wait $job
     if [ $? != 0 ]; then
-       fail
+       STATUS=1
     fi
 done
+exit $STATUS
-- 
2.43.0


From 5b76401944709a78183c82717113d8911c3cdedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 20/70] fix: bigfile-ls exits nonzero if the block cannot be
 opened

---
 utils/bigfile-ls.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/bigfile-ls.c b/utils/bigfile-ls.c
index 5c2d3a5..e705ba4 100644
--- a/utils/bigfile-ls.c
+++ b/utils/bigfile-ls.c
@@ -119,6 +119,7 @@ int main(int argc, char * argv[]) {
         }
         if(0 != listbigblock(&bf, argv[2])) {
             fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
+            exit(1);
         }
         big_file_close(&bf);
     }
-- 
2.43.0


From f186974b3620db932eb337c4ba11795f5590d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 21/70] fix: report attribute files that exist but cannot be
 opened or read

---
 src/bigfile.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 036175d..b1f03d6 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1533,6 +1533,9 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR, "r", 0);
     if(fattr == NULL) {
+        RAISEIF(errno != ENOENT,
+            ex_open,
+            "Failed to open the attributes of `%s' (%s)", basename, strerror(errno));
         return 0;
     }
     int nmemb;
@@ -1571,6 +1574,9 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
             ex_set_attr,
             NULL);
     }
+    RAISEIF(ferror(fattr),
+        ex_fread,
+        "Failed to read the attributes of `%s' (%s)", basename, strerror(errno));
     attrset->dirty = 0;
     fclose(fattr);
     free(data);
@@ -1582,6 +1588,7 @@ ex_fread:
     fclose(fattr);
     free(data);
     free(name);
+ex_open:
     return -1;
 }
 
@@ -1602,11 +1609,14 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "r", 0);
     if(fattr == NULL) {
+        RAISEIF(errno != ENOENT,
+            ex_open,
+            "Failed to open the attributes of `%s' (%s)", basename, strerror(errno));
         return 0;
     }
-    fseek(fattr, 0, SEEK_END);
+    /*fseek and ftell may fail*/
+    RAISEIF(0 != fseek(fattr, 0, SEEK_END), ex_init, "fseek error: %s",strerror(errno));
     long size = ftell(fattr);
-    /*ftell may fail*/
     RAISEIF(size < 0, ex_init, "ftell error: %s",strerror(errno));
     char * buffer = (char*) malloc(size + 1);
     RAISEIF(!buffer, ex_init, "Could not allocate memory for buffer: %ld bytes",size+1);
@@ -1675,6 +1685,7 @@ ex_data:
     free(buffer);
 ex_init:
     fclose(fattr);
+ex_open:
     return -1;
 }
 static int
-- 
2.43.0


From 680cd77e5f91860998e012b32874609c150c8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 22/70] fix: do not count checksums once per rank in collective
 flushes

---
 src/bigfile-mpi.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 4bdde18..eb9e815 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -235,13 +235,26 @@ big_block_mpi_grow(BigBlock * bb,
 
     BCAST_AND_RAISEIF(rt, comm);
 
+    int i;
+    unsigned int * fchecksum = NULL;
     if(rank != 0) {
+        /* keep the contribution of this rank since the last flush */
+        fchecksum = calloc(oldNfile + 1, sizeof(fchecksum[0]));
+        for(i = 0; i < oldNfile; i ++) {
+            fchecksum[i] = bb->fchecksum[i];
+        }
         /* closed on non-root because we will bcast.*/
         _big_block_close_internal(bb);
     }
     big_block_mpi_broadcast(bb, 0, comm);
 
-    int i;
+    if(rank != 0) {
+        for(i = 0; i < oldNfile; i ++) {
+            bb->fchecksum[i] = fchecksum[i];
+        }
+        free(fchecksum);
+    }
+
     for(i = (size_t) Nfile_grow * rank / NTask; i < (size_t) Nfile_grow * (rank + 1) / NTask; i ++) {
         FILE * fp = _big_file_open_a_file(bb->basename, i + oldNfile, "w", 1);
         if(fp == NULL) {
@@ -294,6 +307,11 @@ big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
         }
         rt = big_block_flush(block);
     } else {
+        int i;
+        /* the contribution of this rank is now on the root rank. */
+        for(i = 0; i < block->Nfile; i ++) {
+            block->fchecksum[i] = 0;
+        }
         rt = 0;
     }
 
@@ -378,6 +396,11 @@ big_block_mpi_broadcast(BigBlock * bb, int root, MPI_Comm comm)
 
     if(rank != root) {
         _big_block_unpack(bb, buf);
+        /* flush adds up the checksums of all ranks; those so far are counted on the root rank. */
+        int i;
+        for(i = 0; i < bb->Nfile; i ++) {
+            bb->fchecksum[i] = 0;
+        }
     }
     free(buf);
     return 0;
-- 
2.43.0


From 15a09469f3320cd9aa163e724f9b65a3678c142e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 23/70] fix: report failed conversions and seeks in collective
 reads and writes

---
 src/bigfile-mpi.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index eb9e815..6ad3696 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -547,20 +547,30 @@ _aggregated(
     }
 
     if(action == big_block_write) {
-        _dtype_convert(ilarray, iarray, localsize * block->nmemb);
+        e = _dtype_convert(ilarray, iarray, localsize * block->nmemb);
+        if(0 != (e = big_file_mpi_broadcast_anyerror(e, comm))) {
+            /* nothing is written if a rank has no data to write */
+            goto ex_convert;
+        }
         MPI_Gatherv(lbuf, recvcounts[rank], mpidtype,
                     gbuf, recvcounts, recvdispls, mpidtype, root, comm);
     }
     if(rank == root) {
-        big_block_seek_rel(block, ptr1, offset);
-        e = action(block, ptr1, garray);
+        e = big_block_seek_rel(block, ptr1, offset);
+        if(e == 0) {
+            e = action(block, ptr1, garray);
+        }
     }
     if(action == big_block_read) {
         MPI_Scatterv(gbuf, recvcounts, recvdispls, mpidtype,
                     lbuf, localsize, mpidtype, root, comm);
-        _dtype_convert(iarray, ilarray, localsize * block->nmemb);
+        if(0 != _dtype_convert(iarray, ilarray, localsize * block->nmemb)) {
+            e = -1;
+        }
     }
+    e = big_file_mpi_broadcast_anyerror(e, comm);
 
+ex_convert:
     if(rank == root) {
         free(gbuf);
     }
@@ -568,7 +578,7 @@ _aggregated(
 
     MPI_Type_free(&mpidtype);
 
-    return big_file_mpi_broadcast_anyerror(e, comm);
+    return e;
 }
 
 int
-- 
2.43.0


From e713c87dc852a5b349cabf16798e2e3d782644ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 24/70] fix: collective open and create of the meta block use
 the same path as the serial ones

The name . led to the header path//. / instead of the block itself.
---
 src/bigfile-internal.h |  3 +++
 src/bigfile-mpi.c      | 14 ++++++++------
 src/bigfile.c          |  2 +-
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/bigfile-internal.h b/src/bigfile-internal.h
index 837964e..53717f0 100644
--- a/src/bigfile-internal.h
+++ b/src/bigfile-internal.h
@@ -1,4 +1,7 @@
 
+/* joins two parts of a path; the caller frees the result. */
+char * _path_join(const char * part1, const char * part2);
+
 int _big_file_mksubdir_r(const char * pathname, const char * subdir);
 
 int _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb);
diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 6ad3696..b592b0b 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -88,9 +88,10 @@ static int _big_block_mpi_open(BigBlock * bb, const char * basename, MPI_Comm co
 int big_file_mpi_open_block(BigFile * bf, BigBlock * block, const char * blockname, MPI_Comm comm) {
     if(comm == MPI_COMM_NULL) return 0;
     if(!bf || !bf->basename || !blockname) return 1;
-    char * basename = alloca(strlen(bf->basename) + strlen(blockname) + 128);
-    sprintf(basename, "%s/%s/", bf->basename, blockname);
-    return _big_block_mpi_open(block, basename, comm);
+    char * basename = _path_join(bf->basename, blockname);
+    int rt = _big_block_mpi_open(block, basename, comm);
+    free(basename);
+    return rt;
 }
 
 int
@@ -136,9 +137,10 @@ _big_file_mpi_create_block(BigFile * bf,
 
     BCAST_AND_RAISEIF(rt, comm);
 
-    char * basename = alloca(strlen(bf->basename) + strlen(blockname) + 128);
-    sprintf(basename, "%s/%s/", bf->basename, blockname);
-    return _big_block_mpi_create(block, basename, dtype, nmemb, Nfile, fsize, comm);
+    char * basename = _path_join(bf->basename, blockname);
+    rt = _big_block_mpi_create(block, basename, dtype, nmemb, Nfile, fsize, comm);
+    free(basename);
+    return rt;
 }
 
 int big_file_mpi_close(BigFile * bf, MPI_Comm comm) {
diff --git a/src/bigfile.c b/src/bigfile.c
index b1f03d6..33e7943 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -132,7 +132,7 @@ big_file_set_error_message(char * msg)
 }
 
 
-static char * _path_join(const char * part1, const char * part2)
+char * _path_join(const char * part1, const char * part2)
 {
     size_t l1 = part1?strlen(part1):0;
     size_t l2 = strlen(part2);
-- 
2.43.0


From 059e7f9779b92a8478d8177c92c8dcaf3bd1cd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 25/70] fix: number of rows of arrays of any shape in
 collective reads and writes

The first dimension was taken as the number of rows; a one dimensional array
of a block with several members then overflowed the conversion buffer.
---
 src/bigfile-mpi.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index b592b0b..6c74e88 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -438,7 +438,8 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
     }
 
     size_t avgsegsize;
-    size_t localsize = array->dims[0];
+    /* number of rows, as in big_block_write and big_block_read */
+    size_t localsize = array->size / (block->nmemb ? block->nmemb : 1);
     size_t myoffset;
     size_t * sizes = malloc(sizeof(sizes[0]) * NTask);
 
-- 
2.43.0


From 0d8847a9da4f4d3909583944ec818a2536e8855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 26/70] fix: formatting a type that is larger than the
 conversion buffer

---
 src/bigfile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 33e7943..4b5ec19 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1239,6 +1239,11 @@ big_file_dtype_format(char * buffer, const char * dtype, const void * data, cons
     _dtype_normalize(ndtype2, dtype);
     ndtype2[0] = '=';
     _dtype_normalize(ndtype, ndtype2);
+    if((size_t) big_file_dtype_itemsize(ndtype) > sizeof(converted)) {
+        /* not a type that can be formatted */
+        sprintf(buffer, "<%s>", ndtype);
+        return;
+    }
     dtype_convert_simple(converted, ndtype, data, dtype, 1);
 
     p.v = converted;
-- 
2.43.0


From 03b3e342fca475697927ed5680442e395d5765cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 27/70] fix: bigfile-check exits nonzero if the file cannot be
 listed

---
 utils/bigfile-check | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bigfile-check b/utils/bigfile-check
index 878913b..503bfb9 100755
--- a/utils/bigfile-check
+++ b/utils/bigfile-check
@@ -60,7 +60,7 @@ check() {
     fi
 }
 if [ -z $1 ]; then
-    BLOCKS=`$ROOT/bigfile-ls $FILE`
+    BLOCKS=`$ROOT/bigfile-ls $FILE` || fail
 else
     BLOCKS="$*"
 fi
-- 
2.43.0


From 2bbf50c35473528f01493223ceacd146c12557de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 28/70] fix: bigfile-repartition without -v, and its exit
 status

---
 utils/bigfile-repartition | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/utils/bigfile-repartition b/utils/bigfile-repartition
index 840b6d9..4d99692 100755
--- a/utils/bigfile-repartition
+++ b/utils/bigfile-repartition
@@ -6,11 +6,11 @@ usage() {
 }
 
 fail () {
-    exit;
+    exit 1;
 }
 
 
-VERBOSE=0
+VERBOSE=
 while getopts ":v" opt; do
     case $opt in 
         v )
@@ -42,12 +42,18 @@ repart() {
     $ROOT/bigfile-rm $FILE ${BLOCK}-REPBAK ||fail
 }
 if [ -z $1 ]; then
-    BLOCKS=`$ROOT/bigfile-ls $FILE`
+    BLOCKS=`$ROOT/bigfile-ls $FILE` || fail
 else
     BLOCKS="$*"
 fi
 
+JOBS=
 for block in $BLOCKS ; do
     ( repart $block ) &
+    JOBS="$JOBS $!"
+done
+STATUS=0
+for job in $JOBS ; do
+    wait $job || STATUS=1
 done
-wait
+exit $STATUS
-- 
2.43.0


From cf1d046bd84ee18a98374fdd48d2fa3eb86fc584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 29/70] fix: bigfile-rename does not move a block into an
 existing one

---
 utils/bigfile-rename | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-rename b/utils/bigfile-rename
index d79ed0e..20315bb 100755
--- a/utils/bigfile-rename
+++ b/utils/bigfile-rename
@@ -11,4 +11,14 @@ fi;
 
 FILE=$1
 shift
-mv  $FILE/$1 $FILE/$2
+if [ -z "$1" ] || [ -z "$2" ]; then
+    usage;
+    exit 1
+fi;
+
+# mv would move the block into an existing one
+if [ -e "$FILE/$2" ]; then
+    echo "bigfile-rename: $FILE/$2 exists" >&2
+    exit 1
+fi;
+mv -- "$FILE/$1" "$FILE/$2"
-- 
2.43.0


From 174dc116cee08947107333961927a5c3dc1f193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 30/70] fix: bigfile-rm takes names literally and reports every
 failure

---
 utils/bigfile-rm | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-rm b/utils/bigfile-rm
index 9d29aa7..3254582 100755
--- a/utils/bigfile-rm
+++ b/utils/bigfile-rm
@@ -11,6 +11,11 @@ fi;
 
 FILE=$1
 shift
-for i in $*; do
-    rm -r $FILE/$i;
+STATUS=0
+for i in "$@"; do
+    if [ -z "$i" ]; then
+        continue
+    fi;
+    rm -r -- "$FILE/$i" || STATUS=1
 done
+exit $STATUS
-- 
2.43.0


From 55a6fb2fa6e397dbb531f36d928f8a130547ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 31/70] fix: bigfile-check and bigfile-repartition take names
 literally

---
 utils/bigfile-check       | 29 +++++++++++++++--------------
 utils/bigfile-repartition | 31 ++++++++++++++++---------------
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/utils/bigfile-check b/utils/bigfile-check
index 503bfb9..fb8671d 100755
--- a/utils/bigfile-check
+++ b/utils/bigfile-check
@@ -26,8 +26,8 @@ while getopts ":v" opt; do
 done
 
 shift $(($OPTIND-1))
-ROOT=`dirname $0`
-FILE=$1
+ROOT=`dirname "$0"`
+FILE="$1"
 shift
 
 if [ "x$FILE" == "x" ]; then
@@ -36,37 +36,38 @@ fi;
 
 check() {
     local BLOCK
-    BLOCK=$1
+    BLOCK="$1"
     
 
-    if [ $VERBOSE ]; then
-        echo checking $BLOCK >&2
+    if [ "$VERBOSE" ]; then
+        echo "checking $BLOCK" >&2
     fi;
     local sumreal
     local sumheader
-    sum=`$ROOT/bigfile-cat -b $FILE $BLOCK | sum -s | awk '{print $1}'`
+    sum=`$ROOT/bigfile-cat -b "$FILE" "$BLOCK" | sum -s | awk '{print $1}'`
     if [ $? != 0 ]; then
         echo cat failed
         fail
     fi
-    expectedsum=`$ROOT/bigfile-ls -l $FILE $BLOCK | awk '{print $5}'`
+    expectedsum=`$ROOT/bigfile-ls -l "$FILE" "$BLOCK" | awk '{print $5}'`
     if [ $? != 0 ]; then
         echo ls failed
         fail
     fi
     if [ $sum -ne $expectedsum ]; then
-        echo check sum failed $BLOCK $sum  $expectedsum
+        echo check sum failed "$BLOCK" $sum  $expectedsum
         fail
     fi
 }
-if [ -z $1 ]; then
-    BLOCKS=`$ROOT/bigfile-ls $FILE` || fail
-else
-    BLOCKS="$*"
+if [ -z "$1" ]; then
+    BLOCKS=`$ROOT/bigfile-ls "$FILE"` || fail
+    # names are taken literally
+    set -f
+    set -- $BLOCKS
 fi
 JOBS=
-for block in $BLOCKS ; do
-    ( check $block ) &
+for block in "$@" ; do
+    ( check "$block" ) &
     JOBS="$JOBS $!"
 done
 STATUS=0
diff --git a/utils/bigfile-repartition b/utils/bigfile-repartition
index 4d99692..f564c41 100755
--- a/utils/bigfile-repartition
+++ b/utils/bigfile-repartition
@@ -23,33 +23,34 @@ while getopts ":v" opt; do
 done
 
 shift $(($OPTIND-1))
-ROOT=`dirname $0`
-FILE=$1
+ROOT=`dirname "$0"`
+FILE="$1"
 shift
-NFILE=$1
+NFILE="$1"
 shift
 
 repart() {
     local BLOCK
-    BLOCK=$1
+    BLOCK="$1"
     
 
-    if [ $VERBOSE ]; then
-        echo Repartitioning $BLOCK >&2
+    if [ "$VERBOSE" ]; then
+        echo "Repartitioning $BLOCK" >&2
     fi;
-    $ROOT/bigfile-rename $FILE $BLOCK ${BLOCK}-REPBAK || fail
-    $ROOT/bigfile-copy $VERBOSE -n $NFILE $FILE ${BLOCK}-REPBAK ${BLOCK} ||fail
-    $ROOT/bigfile-rm $FILE ${BLOCK}-REPBAK ||fail
+    $ROOT/bigfile-rename "$FILE" "$BLOCK" "${BLOCK}-REPBAK" || fail
+    $ROOT/bigfile-copy $VERBOSE -n $NFILE "$FILE" "${BLOCK}-REPBAK" "${BLOCK}" ||fail
+    $ROOT/bigfile-rm "$FILE" "${BLOCK}-REPBAK" ||fail
 }
-if [ -z $1 ]; then
-    BLOCKS=`$ROOT/bigfile-ls $FILE` || fail
-else
-    BLOCKS="$*"
+if [ -z "$1" ]; then
+    BLOCKS=`$ROOT/bigfile-ls "$FILE"` || fail
+    # names are taken literally
+    set -f
+    set -- $BLOCKS
 fi
 
 JOBS=
-for block in $BLOCKS ; do
-    ( repart $block ) &
+for block in "$@" ; do
+    ( repart "$block" ) &
     JOBS="$JOBS $!"
 done
 STATUS=0
-- 
2.43.0


From f6403885130cdc4f4f90ed63bd5ac4408eb285d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 32/70] fix: bigfile-cat prints the requested rows for every
 buffer size

---
 utils/bigfile-cat.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-cat.c b/utils/bigfile-cat.c
index 82e1f37..b97d1ef 100644
--- a/utils/bigfile-cat.c
+++ b/utils/bigfile-cat.c
@@ -82,14 +82,18 @@ int main(int argc, char * argv[]) {
 
     ptrdiff_t end = start + size;
 
-    size_t chunksize = buffersize / (bb.nmemb * big_file_dtype_itemsize(bb.dtype));
+    size_t rowsize = (size_t) bb.nmemb * big_file_dtype_itemsize(bb.dtype);
+    /* rows without members, or a block without a type, have nothing to print */
+    size_t chunksize = rowsize ? buffersize / rowsize : 1;
+    if(chunksize == 0) chunksize = 1;
+    if(rowsize == 0) end = start;
     BigBlockPtr ptr;
     BigBlockPtr ptrnew;
     ptrdiff_t offset;
     BigArray array;
 
     for(offset = start; offset < end; ) {
-        if(chunksize > size) chunksize = size;
+        if(chunksize > end - offset) chunksize = end - offset;
         if(0 != big_block_read_simple(&bb, offset, chunksize, &array, NULL)) {
             fprintf(stderr, "failed to read original: %s\n", big_file_get_error_message());
             exit(1);
-- 
2.43.0


From e59975b7c2ab919bcff2d27ac988712d6b59f31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 33/70] fix: bigfile-cat -f %f of large numbers overflowed a
 buffer

---
 utils/bigfile-cat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bigfile-cat.c b/utils/bigfile-cat.c
index b97d1ef..085ff4e 100644
--- a/utils/bigfile-cat.c
+++ b/utils/bigfile-cat.c
@@ -102,7 +102,7 @@ int main(int argc, char * argv[]) {
         if(!humane) {
             fwrite(array.data, big_file_dtype_itemsize(bb.dtype), array.size, stdout);
         } else {
-            char str[300];
+            char str[4096]; /* %f of a complex number can have more than 600 characters */
             BigArrayIter iter;
             big_array_iter_init(&iter, &array);
             size_t i;
-- 
2.43.0


From 4afec0875e44bcf1c0294063a0205376ed7c7f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 34/70] fix: bigfile-cat reports failures of writing its output

---
 utils/bigfile-cat.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/bigfile-cat.c b/utils/bigfile-cat.c
index 085ff4e..f997a6a 100644
--- a/utils/bigfile-cat.c
+++ b/utils/bigfile-cat.c
@@ -120,6 +120,10 @@ int main(int argc, char * argv[]) {
         offset += array.dims[0];
         countin += array.dims[0];
     }
+    if(0 != fflush(stdout) || ferror(stdout)) {
+        fprintf(stderr, "failed to write to standard output\n");
+        exit(1);
+    }
     big_block_close(&bb);
     big_file_close(&bf);
     return 0;
-- 
2.43.0


From e9b6a9b143b30ec7e7edb187de85c35bb4a7fdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 35/70] fix: bigfile-create with buffers smaller than a row and
 rows without members

---
 utils/bigfile-create.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/utils/bigfile-create.c b/utils/bigfile-create.c
index 036bc2c..883f5d2 100644
--- a/utils/bigfile-create.c
+++ b/utils/bigfile-create.c
@@ -48,6 +48,9 @@ int main(int argc, char * argv[]) {
     if(argc - optind != 3) {
         usage();
     }
+    if(nmemb <= 0) {
+        usage();
+    }
     argv += optind - 1;
     if(0 != big_file_create(&bf, argv[1])) {
         fprintf(stderr, "failed to open: %s: %s\n", argv[1], big_file_get_error_message());
@@ -63,14 +66,20 @@ int main(int argc, char * argv[]) {
 
     signal(SIGUSR1, usr1);
 
-    size_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
+    size_t rowsize = (size_t) bb.nmemb * dtype_itemsize(bb.dtype);
+    size_t chunksize = buffersize / rowsize;
+    if(chunksize == 0) chunksize = 1;
     BigBlockPtr ptr;
     BigArray array;
 
-    char * buffer = malloc(buffersize);
+    char * buffer = malloc(chunksize * rowsize);
+    if(buffer == NULL) {
+        fprintf(stderr, "not enough memory for a buffer of %td bytes\n", chunksize * rowsize);
+        exit(1);
+    }
     ptrdiff_t offset = 0;
     while(!feof(stdin)) {
-        size_t nread = fread(buffer, bb.nmemb * dtype_itemsize(bb.dtype), chunksize, stdin);
+        size_t nread = fread(buffer, rowsize, chunksize, stdin);
         size_t dims[2] = {nread, bb.nmemb};
         big_array_init(&array, buffer, bb.dtype, 2, dims, NULL);
         big_block_seek(&bb, &ptr, offset);
-- 
2.43.0


From fcbef37146a30c31e5361d2b232cd793884fc07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 36/70] fix: bigfile-create reports failures, and creates empty
 blocks of empty input

---
 utils/bigfile-create.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/utils/bigfile-create.c b/utils/bigfile-create.c
index 883f5d2..d57c97e 100644
--- a/utils/bigfile-create.c
+++ b/utils/bigfile-create.c
@@ -78,18 +78,28 @@ int main(int argc, char * argv[]) {
         exit(1);
     }
     ptrdiff_t offset = 0;
-    while(!feof(stdin)) {
+    while(!feof(stdin) && !ferror(stdin)) {
         size_t nread = fread(buffer, rowsize, chunksize, stdin);
         size_t dims[2] = {nread, bb.nmemb};
         big_array_init(&array, buffer, bb.dtype, 2, dims, NULL);
-        big_block_seek(&bb, &ptr, offset);
-        big_block_write(&bb, &ptr, &array);
+        if(0 != big_block_seek(&bb, &ptr, offset) || 0 != big_block_write(&bb, &ptr, &array)) {
+            fprintf(stderr, "failed to write: %s\n", big_file_get_error_message());
+            exit(1);
+        }
         offset += nread;
         countin += nread;
     }
+    if(ferror(stdin)) {
+        fprintf(stderr, "failed to read from standard input\n");
+        exit(1);
+    }
     bb.size = offset;
     bb.fsize[0] = offset;
-    big_block_close(&bb);
+    bb.dirty = 1;
+    if(0 != big_block_close(&bb)) {
+        fprintf(stderr, "failed to close: %s\n", big_file_get_error_message());
+        exit(1);
+    }
     big_file_close(&bf);
     return 0;
 }
-- 
2.43.0


From 3f8706f4104ed181b2d015bf7d47b5963d2765fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 37/70] fix: bigfile-copy with buffers smaller than a row and
 with less than one file

---
 utils/bigfile-copy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/bigfile-copy.c b/utils/bigfile-copy.c
index f87efab..7f6666c 100644
--- a/utils/bigfile-copy.c
+++ b/utils/bigfile-copy.c
@@ -28,6 +28,7 @@ int main(int argc, char * argv[]) {
                 break;
             case 'n':
                 Nfile = atoi(optarg);
+                if(Nfile <= 0) usage();
                 break;
             case 'B':
                 sscanf(optarg, "%td", &buffersize);
@@ -90,6 +91,7 @@ int main(int argc, char * argv[]) {
     if(bb.nmemb > 0 && bb.size > 0) {
         /* copy data */
         size_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
+        if(chunksize == 0) chunksize = 1;
         BigBlockPtr ptrnew;
         ptrdiff_t offset;
         BigArray array;
-- 
2.43.0


From aa1611958e4d2c0b42aed13af68b2e7534ecb191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 38/70] fix: bigfile-copy refuses to copy a block onto itself
 and reports failed attributes

---
 utils/bigfile-copy.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-copy.c b/utils/bigfile-copy.c
index 7f6666c..df06d08 100644
--- a/utils/bigfile-copy.c
+++ b/utils/bigfile-copy.c
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <stddef.h>
 #include <unistd.h>
+#include <sys/stat.h>
 #include "bigfile.h"
 
 void usage() {
@@ -60,6 +61,17 @@ int main(int argc, char * argv[]) {
         fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
         exit(1);
     }
+    /* creating the new block would truncate the one that is copied */
+    BigBlock existing = {0};
+    if(0 == big_file_open_block(&bfnew, &existing, argv[3])) {
+        struct stat st1, st2;
+        if(0 == stat(bb.basename, &st1) && 0 == stat(existing.basename, &st2)
+        && st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino) {
+            fprintf(stderr, "cannot copy the block `%s' onto itself\n", bb.basename);
+            exit(1);
+        }
+        big_block_close(&existing);
+    }
     if(Nfile == -1 || bb.Nfile == 0) {
         Nfile = bb.Nfile;
     }
@@ -85,7 +97,10 @@ int main(int argc, char * argv[]) {
     BigAttr * attrs = big_block_list_attrs(&bb, &nattr);
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to set attribute: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
     
     if(bb.nmemb > 0 && bb.size > 0) {
-- 
2.43.0


From c5380b0cef17636e49152aa250ea17a063eec38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 39/70] fix: bigfile-set-attr wrote beyond its buffer and did
 not report failures

---
 utils/bigfile-set-attr.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/utils/bigfile-set-attr.c b/utils/bigfile-set-attr.c
index 291741d..021cb61 100644
--- a/utils/bigfile-set-attr.c
+++ b/utils/bigfile-set-attr.c
@@ -66,9 +66,22 @@ int main(int argc, char * argv[]) {
             nmemb = attr->nmemb;
         }
     }
-    char * data = malloc(big_file_dtype_itemsize(dtype) * nmemb);
-
-    memset(data, 0, big_file_dtype_itemsize(dtype) * nmemb);
+    if(dtype == NULL) {
+        fprintf(stderr, "the dtype of a new attribute is needed\n");
+        exit(1);
+    }
+    if(big_file_dtype_itemsize(dtype) <= 0) {
+        fprintf(stderr, "unknown dtype `%s`\n", dtype);
+        exit(1);
+    }
+    /* room for the string or all of the values, however many are expected. */
+    size_t nitems = argc - optind;
+    if(nitems < strlen(argv[4]) + 1) nitems = strlen(argv[4]) + 1;
+    char * data = calloc(nitems, big_file_dtype_itemsize(dtype));
+    if(data == NULL) {
+        fprintf(stderr, "not enough memory for the attribute\n");
+        exit(1);
+    }
 
     if(big_file_dtype_kind(dtype) == 'S') {
         if (nmemb == 0) nmemb = strlen(argv[4]) + 1;
@@ -86,16 +99,22 @@ int main(int argc, char * argv[]) {
         for(i = 4; i < argc - optind + 1; i ++) {
             char * p = data + (i - 4) * big_file_dtype_itemsize(dtype);
             if(0 != big_file_dtype_parse(argv[i], dtype, p, NULL)) {
-                fprintf(stderr, "failed to parse the data `%s`\n", p);
+                fprintf(stderr, "failed to parse the data `%s`\n", argv[i]);
                 exit(1);
             }
         }
     }
 
-    big_block_set_attr(&bb, argv[3], data, dtype, nmemb);
+    if(0 != big_block_set_attr(&bb, argv[3], data, dtype, nmemb)) {
+        fprintf(stderr, "failed to set attribute: %s\n", big_file_get_error_message());
+        exit(1);
+    }
 
     free(data);
-    big_block_close(&bb);
+    if(0 != big_block_close(&bb)) {
+        fprintf(stderr, "failed to close block: %s\n", big_file_get_error_message());
+        exit(1);
+    }
     big_file_close(&bf);
     return 0;
 }
-- 
2.43.0


From 5f43be7b33a270c6615e707b2c4f36c4b462d201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 40/70] fix: bigfile-get-attr prints strings

---
 utils/bigfile-get-attr.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-get-attr.c b/utils/bigfile-get-attr.c
index 4ce5370..783c322 100644
--- a/utils/bigfile-get-attr.c
+++ b/utils/bigfile-get-attr.c
@@ -29,8 +29,13 @@ static void print_attr(BigAttr * attr, int brief) {
         } else {
             endl = "";
         }
-        big_file_dtype_format(buffer, attr->dtype, data, NULL);
-        printf("%s%s", buffer, endl);
+        if(attr->dtype[1] == 'S') {
+            /* strings are padded with zeros */
+            printf("%.*s", dtype_itemsize(attr->dtype), data);
+        } else {
+            big_file_dtype_format(buffer, attr->dtype, data, NULL);
+            printf("%s%s", buffer, endl);
+        }
         data += dtype_itemsize(attr->dtype);
     }
     if(!brief || longfmt) {
-- 
2.43.0


From 167971787209133a8645764bea0e6f2fdafd1fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 41/70] fix: negative indices, empty slices and index types in
 Python

---
 bigfile/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 9326613..7ee2925 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -7,6 +7,7 @@ from .pyxbigfile import set_buffer_size
 from . import pyxbigfile
 
 import os
+import operator
 import numpy
 from functools import wraps
 
@@ -31,14 +32,16 @@ def _enhance_slicefunc(getitem, returns_none):
         elif index is Ellipsis:
             return getitem(self, slice(None, None, None), *args)
         elif numpy.isscalar(index):
-            index = slice(index, index + 1)
+            index = operator.index(index)
+            # index + 1 of the last item is 0, the start
+            index = slice(index, index + 1 if index != -1 else None)
             if returns_none:
                return getitem(self, index, *args)
             else:
                return getitem(self, index, *args)[0]
         else:
             raise TypeError("Expecting a slice or a scalar, got a `%s`" %
-                    str(type(sl)))
+                    str(type(index)))
     return enhanced
 
 def _enhance_getslice(getitem):
@@ -70,7 +73,7 @@ class Column(ColumnLowLevelAPI):
             start, end, stop = sl.indices(self.size)
             if stop != 1:
                 raise ValueError('must request a contiguous chunk')
-            return self.read(start, end-start)
+            return self.read(start, max(end - start, 0))
         else:
             raise TypeError('Expecting a slice, got a `%s`' % str(type(sl)))
 
@@ -364,6 +367,7 @@ class Dataset(pyxbigfile.Dataset):
                     str(type(sl)))
         start, end, stop = sl.indices(self.size)
         assert stop == 1
+        end = max(start, end)
         result = numpy.empty(end - start, dtype=self.dtype)
         return self.read(start, end - start, result)
 
@@ -375,7 +379,7 @@ class Dataset(pyxbigfile.Dataset):
         start, end, stop = sl.indices(self.size)
         assert stop == 1
         assert value.dtype == self.dtype
-        assert len(value) == end - start
+        assert len(value) == max(end - start, 0)
         return self.write(start, value)
 
     def __getitem__(self, sl):
-- 
2.43.0


From d58f85aacf21d1cf228b6d7359093a6bdee5dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 42/70] fix: assigning to a slice of a Column wrote beyond the
 slice

---
 bigfile/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 7ee2925..364519d 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -85,6 +85,8 @@ class Column(ColumnLowLevelAPI):
             start, end, stop = sl.indices(self.size)
             if stop != 1:
                 raise ValueError('must request a contiguous chunk')
+            if value.size != max(end - start, 0) * int(numpy.prod(self.dtype.shape)):
+                raise ValueError('the value does not have the length of the slice')
             self.write(start, value)
         else:
             raise TypeError('Expecting a slice, got a `%s`' % str(type(sl)))
-- 
2.43.0


From 65aaca0a41a5bc9dbb4d433430f555b0dc040766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 43/70] fix: create_from_array with memory limits of less than
 1024 items

---
 bigfile/__init__.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 364519d..5de08cf 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -186,7 +186,10 @@ class File(FileBase):
 
         # write memorylimit bytes at most (256M bytes)
         # round to 1024 items
-        itemlimit = memorylimit // dtype.itemsize // 1024 * 1024
+        itemlimit = memorylimit // dtype.itemsize
+        if itemlimit > 1024:
+            itemlimit = itemlimit // 1024 * 1024
+        itemlimit = max(itemlimit, 1)
 
         with self.create(blockname, dtype, size, Nfile) as b:
             for i in range(0, len(array), itemlimit):
@@ -316,7 +319,10 @@ class FileMPI(FileBase):
 
         # write memorylimit bytes at most (256M bytes)
         # round to 1024 items
-        itemlimit = memorylimit // dtype.itemsize // 1024 * 1024
+        itemlimit = memorylimit // dtype.itemsize
+        if itemlimit > 1024:
+            itemlimit = itemlimit // 1024 * 1024
+        itemlimit = max(itemlimit, 1)
 
         with self.create(blockname, dtype, size, Nfile) as b:
             for i in range(0, len(array), itemlimit):
-- 
2.43.0


From d07d9721c92d37c09dbc6b9e71c9f52e3c433c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 44/70] fix: writing strided arrays to a Dataset, and its shape
 after appending

---
 bigfile/pyxbigfile.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 62b27fd..3f73aec 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -657,6 +657,7 @@ cdef class Dataset:
         if rt != 0:
             raise Error()
         self.size = self.size + size
+        self.shape = (self.size, )
 
     def append(self, numpy.ndarray buf, numpy.intp_t Nfile=1):
         assert buf.dtype == self.dtype
@@ -668,6 +669,8 @@ cdef class Dataset:
     def write(self, numpy.intp_t start, numpy.ndarray buf):
         assert buf.dtype == self.dtype
         assert buf.ndim == 1
+        # records are written from contiguous memory
+        buf = numpy.ascontiguousarray(buf)
         with nogil:
             rt = big_file_write_records(&self.file.bf, &self.rtype, start, buf.shape[0], buf.data)
         if rt != 0:
-- 
2.43.0


From e12f0d87cc7b9d87bc4d01a26b608ac29d89079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 45/70] fix: empty text attributes in Python

---
 bigfile/pyxbigfile.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 3f73aec..7424d37 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -252,7 +252,7 @@ cdef class AttrSet:
 
         if isstr(value):
             dtype = b'a1'
-            value = numpy.array(str(value).encode()).ravel().view(dtype='S1').ravel()
+            value = numpy.frombuffer(str(value).encode(), dtype='S1')
         else:
             value = numpy.array(value).ravel()
 
-- 
2.43.0


From 836044f1f39d4472a612ce4749d3e5b1de6732e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 46/70] fix: unpickling a File that cannot be opened raises

---
 bigfile/pyxbigfile.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 7424d37..819f037 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -175,8 +175,12 @@ cdef class FileLowLevelAPI:
         self._deallocated = deallocated
 
         if not deallocated:
+            self._deallocated = True
             with nogil:
                 rt = big_file_open(&self.bf, filenameptr)
+            if rt != 0:
+                raise Error()
+            self._deallocated = False
 
     property basename:
         def __get__(self):
-- 
2.43.0


From 8516fdb1829efa6c48d1b09134c15d2d38b6310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:52 +0000
Subject: [PATCH 47/70] fix: opening or creating another block with the same
 Column

---
 bigfile/pyxbigfile.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 819f037..11ca6fa 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -357,6 +357,7 @@ cdef class ColumnLowLevelAPI:
     def open(self, FileLowLevelAPI f, blockname):
         blockname = blockname.encode()
         cdef char * blocknameptr = blockname
+        self._release()
         with nogil:
             rt = big_file_open_block(&f.bf, &self.bb, blocknameptr)
         if rt != 0:
@@ -374,6 +375,7 @@ cdef class ColumnLowLevelAPI:
         cdef char * blocknameptr
 
         blocknameptr = blockname
+        self._release()
         if dtype is None:
             with nogil:
                 rt = big_file_create_block(&f.bf, &self.bb, blocknameptr, NULL,
@@ -578,6 +580,12 @@ cdef class ColumnLowLevelAPI:
         # only need to flush; memory management is done at dealloc
         self._MPI_flush()
 
+    def _release(self):
+        # a failed open or create leaves nothing to close.
+        if not self._deallocated:
+            self._deallocated = True
+            big_block_close(&self.bb)
+
     def __dealloc__(self):
         if not self._deallocated:
             big_block_close(&self.bb)
-- 
2.43.0


From 134f49e88a56bdf59f02d6c46c6c6033e0b89081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 48/70] fix: a group or block named attr is not an attribute
 file

---
 src/bigfile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 4b5ec19..e5ab451 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1543,6 +1543,12 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
             "Failed to open the attributes of `%s' (%s)", basename, strerror(errno));
         return 0;
     }
+    /* a directory can be opened for reading, too; it is a group or block of that name. */
+    struct stat st;
+    if(0 == fstat(fileno(fattr), &st) && S_ISDIR(st.st_mode)) {
+        fclose(fattr);
+        return 0;
+    }
     int nmemb;
     int lname;
     char dtype[9]={0};
-- 
2.43.0


From 10e790ced90b1d9044e2407de42a9fc08ee75bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 49/70] fix: empty strings in lists of text attributes read as
 NUL

---
 bigfile/pyxbigfile.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 11ca6fa..b55c40c 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -236,7 +236,7 @@ cdef class AttrSet:
             attr[0].nmemb)):
             raise Error()
         if attr[0].dtype[1] == 'S':
-            return [i.tostring().decode() for i in result]
+            return [i.decode() for i in result]
         if attr[0].dtype[1] == 'a':
             return result.tostring().decode()
         return result
-- 
2.43.0


From 8993f465a58f25258ebcd23470e72418771bc6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 50/70] fix: an unpacked block does not write out the state of
 its original

---
 src/bigfile.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index e5ab451..41ab272 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -2046,6 +2046,10 @@ _big_block_unpack(BigBlock * block, void * buf)
         memcpy(block->fchecksum, ptr, (Nfile + 1) * sizeof(block->fchecksum[0]));
     ptr += (Nfile + 1) * sizeof(block->fchecksum[0]);
     block->attrset = _big_attrset_unpack(ptr);
+
+    /* what is not flushed yet is up to the original. */
+    block->dirty = 0;
+    block->attrset->dirty = 0;
 }
 
 
-- 
2.43.0


From b243c9f2cf64d735ec753f9aadbb23a6867661f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:06 +0000
Subject: [PATCH 51/70] fix: bigfile-set-attr stored the type of another
 attribute

---
 utils/bigfile-set-attr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-set-attr.c b/utils/bigfile-set-attr.c
index 021cb61..40fd213 100644
--- a/utils/bigfile-set-attr.c
+++ b/utils/bigfile-set-attr.c
@@ -60,7 +60,9 @@ int main(int argc, char * argv[]) {
     attr = big_block_lookup_attr(&bb, argv[3]);
     if(attr) {
         if(dtype == NULL) {
-            dtype = attr->dtype;
+            /* setting the attribute moves the others around */
+            memcpy(ndtype, attr->dtype, 8);
+            dtype = ndtype;
         }
         if(nmemb == 0) {
             nmemb = attr->nmemb;
-- 
2.43.0


From c98c551b000c9c0fe005d046773e575f28be6f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 52/70] fix: bigfile-copy-mpi finishes, and reports failures,
 with any number of ranks and buffer sizes

---
 utils/bigfile-copy-mpi.c | 60 ++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/utils/bigfile-copy-mpi.c b/utils/bigfile-copy-mpi.c
index 38451ec..773715b 100644
--- a/utils/bigfile-copy-mpi.c
+++ b/utils/bigfile-copy-mpi.c
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <stddef.h>
 #include <unistd.h>
+#include <sys/stat.h>
 #include "bigfile-mpi.h"
 
 void usage() {
@@ -27,7 +28,7 @@ size_t buffersize = 256 * 1024 * 1024;
 int ThisTask, NTask;
 char * newfilepath = NULL;
 void slave(void);
-void server(void);
+int server(void);
 
 int main(int argc, char * argv[]) {
 
@@ -45,6 +46,7 @@ int main(int argc, char * argv[]) {
             case 'N':
             case 'n':
                 Nfile = atoi(optarg);
+                if(Nfile <= 0) usage();
                 break;
             case 'b':
                 sscanf(optarg, "%td", &buffersize);
@@ -63,6 +65,11 @@ int main(int argc, char * argv[]) {
         usage();
     }
     argv += optind - 1;
+    if(NTask < 2) {
+        /* rank 0 hands out the work to the others */
+        fprintf(stderr, "at least two ranks are needed\n");
+        exit(1);
+    }
     if(0 != big_file_mpi_open(&bf, argv[1], MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
         exit(1);
@@ -81,6 +88,19 @@ int main(int argc, char * argv[]) {
         fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
         exit(1);
     }
+    /* creating the new block would truncate the one that is copied */
+    BigBlock existing = {0};
+    if(0 == big_file_mpi_open_block(&bfnew, &existing, argv[3], MPI_COMM_WORLD)) {
+        struct stat st1, st2;
+        int same = 0 == stat(bb.basename, &st1) && 0 == stat(existing.basename, &st2)
+            && st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino;
+        MPI_Bcast(&same, 1, MPI_INT, 0, MPI_COMM_WORLD);
+        if(same) {
+            fprintf(stderr, "cannot copy the block `%s' onto itself\n", bb.basename);
+            exit(1);
+        }
+        big_block_mpi_close(&existing, MPI_COMM_WORLD);
+    }
     if(0 != big_file_mpi_create_block(&bfnew, &bbnew, argv[3], bb.dtype, bb.nmemb, Nfile, bb.size, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to create temp: %s\n", big_file_get_error_message());
         exit(1);
@@ -96,17 +116,22 @@ int main(int argc, char * argv[]) {
     int i;
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to set attribute: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
 
+    int rt = 0;
     if(bb.nmemb > 0 && bb.size > 0) {
     /* copy data */
         if(ThisTask == 0) {
-            server();
+            rt = server();
         } else {
             slave();
         }
     }
+    MPI_Bcast(&rt, 1, MPI_INT, 0, MPI_COMM_WORLD);
     if(0 != big_block_mpi_close(&bbnew, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to close new: %s\n", big_file_get_error_message());
         exit(1);
@@ -114,20 +139,30 @@ int main(int argc, char * argv[]) {
     big_block_mpi_close(&bb, MPI_COMM_WORLD);
     big_file_mpi_close(&bf, MPI_COMM_WORLD);
     big_file_mpi_close(&bfnew, MPI_COMM_WORLD);
-    return 0;
+    MPI_Finalize();
+    return rt ? 1 : 0;
 }
 
-void server() {
+int server() {
     int64_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
-    int64_t offset;
-    int64_t work[2];
-    for(offset = 0; offset < bb.size; ) {
+    int64_t offset = 0;
+    int64_t work[2] = {0};
+    int active = NTask - 1;
+    int rt = 0;
+    if(chunksize == 0) chunksize = 1;
+    while(active > 0) {
         MPI_Status status;
         int result = 0;
         MPI_Recv(&result, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD,
                 &status);
         if(status.MPI_TAG == ERROR_TAG) {
-            break;
+            rt = -1;
+        }
+        if(rt != 0 || offset >= bb.size) {
+            /* nothing more to do for this task */
+            MPI_Send(work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, DIE_TAG, MPI_COMM_WORLD);
+            active --;
+            continue;
         }
 
         /* never read beyond my end (read_simple caps at EOF) */
@@ -143,12 +178,7 @@ void server() {
             fprintf(stderr, "%ld / %td done (%0.4g%%)\r", offset, bb.size, (100. / bb.size) * offset);
         }
     }
-    int i;
-    for(i = 1; i < NTask; i ++) {
-        int64_t work[2];
-        MPI_Send(work, 1, MPI_TYPE_WORK, i, DIE_TAG, MPI_COMM_WORLD);
-    }
-
+    return rt;
 }
 void slave() {
     int result = 0;
-- 
2.43.0


From f766d69efbc5391d33dc4f3c20246d7e68316741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 53/70] fix: bigfile-sample-mpi finishes, reports failures, and
 selects no more rows than there are

---
 utils/bigfile-sample-mpi.c | 62 +++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/utils/bigfile-sample-mpi.c b/utils/bigfile-sample-mpi.c
index 3dcf31b..987bd4b 100644
--- a/utils/bigfile-sample-mpi.c
+++ b/utils/bigfile-sample-mpi.c
@@ -4,6 +4,7 @@
 #include <stdint.h>
 #include <stddef.h>
 #include <unistd.h>
+#include <sys/stat.h>
 #include <math.h>
 #include "bigfile-mpi.h"
 #include <gsl/gsl_rng.h>
@@ -30,7 +31,7 @@ size_t CHUNKSIZE = 1 * 1024 * 1024;
 int ThisTask, NTask;
 char * newfilepath = NULL;
 void slave(void);
-void server(void);
+int server(void);
 
 double ratio = 1.0;
 struct work {
@@ -58,10 +59,12 @@ int main(int argc, char * argv[]) {
         switch(ch) {
             case 'r':
                 ratio = atof(optarg);
+                if(!(ratio >= 0 && ratio <= 1)) usage();
                 break;
             case 'N':
             case 'n':
                 Nfile = atoi(optarg);
+                if(Nfile <= 0) usage();
                 break;
             case 'f':
                 newfilepath = optarg;
@@ -77,6 +80,11 @@ int main(int argc, char * argv[]) {
         usage();
     }
     argv += optind - 1;
+    if(NTask < 2) {
+        /* rank 0 hands out the work to the others */
+        fprintf(stderr, "at least two ranks are needed\n");
+        exit(1);
+    }
     if(0 != big_file_mpi_open(&bf, argv[1], MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
         exit(1);
@@ -95,6 +103,19 @@ int main(int argc, char * argv[]) {
         fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
         exit(1);
     }
+    /* creating the new block would truncate the one that is copied */
+    BigBlock existing = {0};
+    if(0 == big_file_mpi_open_block(&bfnew, &existing, argv[3], MPI_COMM_WORLD)) {
+        struct stat st1, st2;
+        int same = 0 == stat(bb.basename, &st1) && 0 == stat(existing.basename, &st2)
+            && st1.st_dev == st2.st_dev && st1.st_ino == st2.st_ino;
+        MPI_Bcast(&same, 1, MPI_INT, 0, MPI_COMM_WORLD);
+        if(same) {
+            fprintf(stderr, "cannot copy the block `%s' onto itself\n", bb.basename);
+            exit(1);
+        }
+        big_block_mpi_close(&existing, MPI_COMM_WORLD);
+    }
     size_t newsize = filesize();
     if(0 != big_file_mpi_create_block(&bfnew, &bbnew, argv[3], bb.dtype, bb.nmemb, Nfile, newsize, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to create temp: %s\n", big_file_get_error_message());
@@ -107,17 +128,22 @@ int main(int argc, char * argv[]) {
     int i;
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to set attribute: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
 
+    int rt = 0;
     if(bb.nmemb > 0 && bb.size > 0) {
     /* copy data */
         if(ThisTask == 0) {
-            server();
+            rt = server();
         } else {
             slave();
         }
     }
+    MPI_Bcast(&rt, 1, MPI_INT, 0, MPI_COMM_WORLD);
     if(0 != big_block_mpi_close(&bbnew, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to close new: %s\n", big_file_get_error_message());
         exit(1);
@@ -125,7 +151,8 @@ int main(int argc, char * argv[]) {
     big_block_mpi_close(&bb, MPI_COMM_WORLD);
     big_file_mpi_close(&bf, MPI_COMM_WORLD);
     big_file_mpi_close(&bfnew, MPI_COMM_WORLD);
-    return 0;
+    MPI_Finalize();
+    return rt ? 1 : 0;
 }
 static size_t filesize() {
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_mt19937);
@@ -149,6 +176,8 @@ static size_t filesize() {
             work.nsel = chunksize;
         } else {
             work.nsel = gsl_ran_poisson(rng, chunksize * ratio);
+            /* there are no more rows to select from */
+            if(work.nsel > chunksize) work.nsel = chunksize;
         }
 
         offset += chunksize;
@@ -156,20 +185,28 @@ static size_t filesize() {
     }
     return offsetnew;
 }
-void server() {
+int server() {
     int64_t offset = 0;
     int64_t offsetnew = 0;
-    struct work work;
+    struct work work = {0};
+    int active = NTask - 1;
+    int rt = 0;
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_mt19937);
     gsl_rng_set(rng, 1984);
-    for(offset = 0; offset < bb.size; ) {
+    while(active > 0) {
         int64_t chunksize = CHUNKSIZE;
         MPI_Status status;
         int result = 0;
         MPI_Recv(&result, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD,
                 &status);
         if(status.MPI_TAG == ERROR_TAG) {
-            break;
+            rt = -1;
+        }
+        if(rt != 0 || offset >= bb.size) {
+            /* nothing more to do for this task */
+            MPI_Send(&work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, DIE_TAG, MPI_COMM_WORLD);
+            active --;
+            continue;
         }
 
         /* never read beyond my end (read_simple caps at EOF) */
@@ -185,6 +222,8 @@ void server() {
             work.nsel = chunksize;
         } else {
             work.nsel = gsl_ran_poisson(rng, chunksize * ratio);
+            /* there are no more rows to select from */
+            if(work.nsel > chunksize) work.nsel = chunksize;
         }
         MPI_Send(&work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, WORK_TAG, MPI_COMM_WORLD);
 
@@ -194,12 +233,7 @@ void server() {
             fprintf(stderr, "%td / %td done (%0.4g%%)\r", offset, bb.size, (100. / bb.size) * offset);
         }
     }
-    int i;
-    for(i = 1; i < NTask; i ++) {
-        struct work work;
-        MPI_Send(&work, 1, MPI_TYPE_WORK, i, DIE_TAG, MPI_COMM_WORLD);
-    }
-
+    return rt;
 }
 void slave() {
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_mt19937);
-- 
2.43.0


From 4c4740e49af9ef676460e58f02aa91fb514c16ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 54/70] fix: subfile of a FileMPI takes the same keys as that
 of a File

---
 bigfile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 5de08cf..11ad3ea 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -277,7 +277,7 @@ class FileMPI(FileBase):
         return block
 
     def subfile(self, key):
-        return FileMPI(self.comm, os.path.join(self.basename, key))
+        return FileMPI(self.comm, os.path.join(self.basename, key.lstrip('/')))
 
     def create(self, blockname, dtype=None, size=None, Nfile=1):
         block = ColumnMPI(self.comm)
-- 
2.43.0


From d0a2e871b5d0e67ecdec159ed03ca0e9722088c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 55/70] fix: a failure to create a ColumnMPI raises on every
 rank instead of hanging

---
 bigfile/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 11ad3ea..3feaf62 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -209,9 +209,17 @@ class ColumnMPI(Column):
         if not check_unique(blockname, self.comm):
             raise BigFileError("blockname is inconsistent between ranks")
 
+        error = None
         if self.comm.rank == 0:
-            super(ColumnMPI, self).create(f, blockname, dtype, size, Nfile)
-            super(ColumnMPI, self).close()
+            try:
+                super(ColumnMPI, self).create(f, blockname, dtype, size, Nfile)
+                super(ColumnMPI, self).close()
+            except Exception as e:
+                error = e
+        if self.comm.bcast(error is not None):
+            if error is not None:
+                raise error
+            raise BigFileError("create failed on the root rank")
         return self.open(f, blockname)
 
     @_enhance_getslice
-- 
2.43.0


From aab648230a9bb52a921bebe986e30a09123bc577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 56/70] fix: raise an Error if opening a ColumnMPI failed on
 another rank

---
 bigfile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 3feaf62..e558ade 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -238,7 +238,7 @@ class ColumnMPI(Column):
         finally:
             error = self.comm.allgather(error)
         if any(error):
-            raise RuntimeException("open failed on other rank(s)")
+            raise BigFileError("open failed on other rank(s)")
         return r
 
     def close(self):
-- 
2.43.0


From f43d5db74ee166c0559f2ef2ea7b05f2fc9fee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 57/70] fix: do not multiply checksums by the number of ranks
 in flushes of a ColumnMPI

---
 bigfile/__init__.py    | 2 ++
 bigfile/pyxbigfile.pyx | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index e558ade..7cef4cc 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -239,6 +239,8 @@ class ColumnMPI(Column):
             error = self.comm.allgather(error)
         if any(error):
             raise BigFileError("open failed on other rank(s)")
+        # the checksums so far are counted on the root rank.
+        self._MPI_broadcast(root=0, comm=self.comm)
         return r
 
     def close(self):
diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index b55c40c..4fcd01d 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -534,6 +534,9 @@ cdef class ColumnLowLevelAPI:
         if comm.rank != root:
             _big_block_close_internal(&self.bb)
             _big_block_unpack(&self.bb, container.data)
+            # flush adds up the checksums of all ranks; those so far are counted on the root rank.
+            for i in range(self.bb.Nfile):
+                self.bb.fchecksum[i] = 0
 
         if comm.rank == root:
             free(buf)
-- 
2.43.0


From 3e51c30c60d2a0f86a2284a764d27d17c6f514bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:19 +0000
Subject: [PATCH 58/70] fix: opening a FileMPI that fails on one rank raises on
 every rank instead of hanging

---
 bigfile/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 7cef4cc..74eb534 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -265,7 +265,14 @@ class FileMPI(FileBase):
             # if create failed, the next open will fail, collectively
 
         comm.barrier()
-        FileBase.__init__(self, filename, create=False)
+        try:
+            error = True
+            FileBase.__init__(self, filename, create=False)
+            error = False
+        finally:
+            error = comm.allgather(error)
+        if any(error):
+            raise BigFileError("open failed on other rank(s)")
         self.comm = comm
         self.refresh()
 
-- 
2.43.0


From db95758f4d53cd78d0cdf8397391593ab4a025b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:19 +0000
Subject: [PATCH 59/70] fix: a failure to list the blocks of a FileMPI raises
 on every rank instead of hanging

---
 bigfile/__init__.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 74eb534..7d90c02 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -282,11 +282,18 @@ class FileMPI(FileBase):
 
     def refresh(self):
         """ Refresh the list of blocks to the disk, collectively """
+        blocks = None
+        error = None
         if self.comm.rank == 0:
-            self._blocks = self.list_blocks()
-        else:
-            self._blocks = None
-        self._blocks = self.comm.bcast(self._blocks)
+            try:
+                blocks = self.list_blocks()
+            except Exception as e:
+                error = e
+        if self.comm.bcast(error is not None):
+            if error is not None:
+                raise error
+            raise BigFileError("listing the blocks failed on the root rank")
+        self._blocks = self.comm.bcast(blocks)
 
     def open(self, blockname):
         block = ColumnMPI(self.comm)
-- 
2.43.0


From 837b92a348a7ae0875c9bb335523caf7e6e4195e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:08:03 +0000
Subject: [PATCH 60/70] fix: bigfile-iosim reports failures in its exit status
 and stops at them

---
 utils/bigfile-iosim.c | 55 ++++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/utils/bigfile-iosim.c b/utils/bigfile-iosim.c
index 625b8f5..1e9aa5c 100644
--- a/utils/bigfile-iosim.c
+++ b/utils/bigfile-iosim.c
@@ -55,9 +55,18 @@ size_t size = 1024;
 int mode = MODE_CREATE;
 int purge = 0;
 
-static void
+/* report a failure, which is collective. */
+static int
+failed(void)
+{
+    info("Error occured: %s\n", big_file_get_error_message());
+    return -1;
+}
+
+static int
 iosim(char * filename)
 {
+    int rt = 0;
     size_t elsize = 8;
     size_t start;
     size_t localsize;
@@ -92,14 +101,18 @@ iosim(char * filename)
         case MODE_CREATE:
             info("Creating BigFile\n");
             t0 = MPI_Wtime();
-            big_file_mpi_create(&bf, filename, MPI_COMM_WORLD);
+            if(0 != big_file_mpi_create(&bf, filename, MPI_COMM_WORLD)) {
+                return failed();
+            }
             t1 = MPI_Wtime();
             trank.create += t1 - t0;
             info("Created BigFile\n");
 
             info("Creating BigBlock\n");
             t0 = MPI_Wtime();
-            big_file_mpi_create_block(&bf, &bb, "TestBlock", "i8", nmemb, Nfile, size, MPI_COMM_WORLD);
+            if(0 != big_file_mpi_create_block(&bf, &bb, "TestBlock", "i8", nmemb, Nfile, size, MPI_COMM_WORLD)) {
+                return failed();
+            }
             t1 = MPI_Wtime();
             trank.create += t1 - t0;
             info("Created BigBlock\n");
@@ -110,8 +123,7 @@ iosim(char * filename)
             info("Opening BigFile\n");
             t0 = MPI_Wtime();
             if(0 != big_file_mpi_open(&bf, filename, MPI_COMM_WORLD)) {
-                printf("%s\n", big_file_get_error_message()); 
-                return;
+                return failed();
             }
             t1 = MPI_Wtime();
             trank.open += t1 - t0;
@@ -119,7 +131,9 @@ iosim(char * filename)
 
             info("Opening BigBlock\n");
             t0 = MPI_Wtime();
-            big_file_mpi_open_block(&bf, &bb, "TestBlock", MPI_COMM_WORLD);
+            if(0 != big_file_mpi_open_block(&bf, &bb, "TestBlock", MPI_COMM_WORLD)) {
+                return failed();
+            }
             t1 = MPI_Wtime();
             trank.open += t1 - t0;
             info("Opened BigBlock\n");
@@ -132,8 +146,7 @@ iosim(char * filename)
             info("Growing BigFile\n");
             t0 = MPI_Wtime();
             if (0 != big_file_mpi_open(&bf, filename, MPI_COMM_WORLD)) {
-                printf("%s\n", big_file_get_error_message()); 
-                return;
+                return failed();
             }
             t1 = MPI_Wtime();
             trank.open += t1 - t0;
@@ -141,9 +154,13 @@ iosim(char * filename)
 
             info("Opening BigBlock\n");
             t0 = MPI_Wtime();
-            big_file_mpi_open_block(&bf, &bb, "TestBlock", MPI_COMM_WORLD);
+            if(0 != big_file_mpi_open_block(&bf, &bb, "TestBlock", MPI_COMM_WORLD)) {
+                return failed();
+            }
             oldsize = bb.size;
-            big_block_mpi_grow_simple(&bb, Nfile, size, MPI_COMM_WORLD);
+            if(0 != big_block_mpi_grow_simple(&bb, Nfile, size, MPI_COMM_WORLD)) {
+                return failed();
+            }
             t1 = MPI_Wtime();
             trank.open += t1 - t0;
             info("Opened BigBlock\n");
@@ -197,7 +214,7 @@ iosim(char * filename)
             info("Writing BigBlock\n");
             t0 = MPI_Wtime();
             if(0 != big_block_mpi_write(&bb, &ptr, &array, Nwriter, MPI_COMM_WORLD)) {
-                info("Error occured: %s\n", big_file_get_error_message());
+                rt = failed();
             }
             t1 = MPI_Wtime();
             trank.write += t1 - t0;
@@ -209,11 +226,13 @@ iosim(char * filename)
 
             t0 = MPI_Wtime();
             if(0 != big_block_mpi_read(&bb, &ptr, &array, Nwriter, MPI_COMM_WORLD)) {
-                info("Error occured: %s\n", big_file_get_error_message());
+                rt = failed();
             }
             t1 = MPI_Wtime();
             trank.read += t1 - t0;
             info("Reading took %f seconds\n", trank.read);
+            /* nothing to compare without data */
+            if(rt != 0) break;
             info("Initializing FakeData\n");
             for(i = 0; i < localsize; i ++) {
                 int j;
@@ -234,7 +253,9 @@ iosim(char * filename)
 
     info("Closing BigBlock\n");
     t0 = MPI_Wtime();
-    big_block_mpi_close(&bb, MPI_COMM_WORLD);
+    if(0 != big_block_mpi_close(&bb, MPI_COMM_WORLD)) {
+        rt = failed();
+    }
     t1 = MPI_Wtime();
     trank.close += t1 - t0;
     info("Closed BigBlock\n");
@@ -271,9 +292,10 @@ iosim(char * filename)
                     i, times[i].create, times[i].open, times[i].write, times[i].read, times[i].close);
             }
         }
-        fclose(fp);
+        if(fp) fclose(fp);
     }
     free(times);
+    return rt;
 }
 
 char * getoptstr = "hf:n:s:w:m:Ap";
@@ -303,6 +325,7 @@ int main(int argc, char * argv[]) {
     MPI_Comm_size(MPI_COMM_WORLD, &NTask);
     
     int i;
+    int rt = 0;
     int ch;
     char * filename = alloca(1500);
     
@@ -372,7 +395,7 @@ int main(int argc, char * argv[]) {
         Nfile = Nwriter;
     }
 
-    iosim(filename);
+    rt = iosim(filename);
 
     if (purge) {
         if(ThisTask == 0) {
@@ -384,5 +407,5 @@ int main(int argc, char * argv[]) {
 //+++++++++++++++++ Writing Time Log +++++++++++++++++
 byebye:
     MPI_Finalize();
-    return 0;
+    return rt ? 1 : 0;
 }
-- 
2.43.0


From c10536a884c0f52694dd5eb95464533e401d86c3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:08:04 +0000
Subject: [PATCH 61/70] fix: bigfile-iosim read takes a grown block for
 corrupted

---
 utils/bigfile-iosim.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-iosim.c b/utils/bigfile-iosim.c
index 1e9aa5c..33aca1d 100644
--- a/utils/bigfile-iosim.c
+++ b/utils/bigfile-iosim.c
@@ -207,7 +207,8 @@ iosim(char * filename)
             for(i = 0; i < localsize; i ++) {
                 int j;
                 for(j = 0; j < nmemb; j ++) {
-                    fakedata[i * nmemb + j] = start + i;
+                    /* the row in the block, as checked after reading */
+                    fakedata[i * nmemb + j] = oldsize + start + i;
                 }
             }
             info("Initialized FakeData\n");
-- 
2.43.0


From 851e320ac289e1099cf5fa03340d89818c00ea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:40 +0000
Subject: [PATCH 62/70] fix: refuse attribute types whose string does not fit

The type string of an attribute holds seven characters; that of a longer one, such as of
strings of 100000 characters, was cut and the attribute stored with a narrower type and
the better part of its data missing.
---
 src/bigfile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 41ab272..28cb057 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1877,6 +1877,12 @@ attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data,
       ex_name,
       "Attribute name `%s' cannot be empty or contain blanks (space, tab or newline)", attrname
     );
+    /* the byte order, unless given, takes a character, too */
+    RAISEIF (
+         strlen(dtype) > (strchr("<>|=", dtype[0]) ? 7 : 6),
+      ex_name,
+      "The type `%s' of attribute `%s' is too long", dtype, attrname
+    );
 
     /* Remove it if it exists*/
     attr = attrset_lookup_attr(attrset, attrname);
-- 
2.43.0


From 2c11aa87fa88e9437e05f47fde04d6fb4c5341e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:37 +0000
Subject: [PATCH 63/70] fix: bigfile-iosim does not hang when its log cannot be
 written

Only the root rank writes the log, and info() is collective: the root rank waited for
the others when the log could not be opened, for example reading a file of somebody else.
---
 utils/bigfile-iosim.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-iosim.c b/utils/bigfile-iosim.c
index 33aca1d..7806565 100644
--- a/utils/bigfile-iosim.c
+++ b/utils/bigfile-iosim.c
@@ -280,7 +280,8 @@ iosim(char * filename)
         sprintf(timelog, "%s/%s-timelog", filename, MODES[mode]);
         FILE * fp = fopen(timelog, "a+");
         if (!fp){
-            info("iosim.c: Couldn't open file %s for writting!\n", timelog);
+            /* not with info, which is collective */
+            printf("iosim.c: Couldn't open file %s for writting!\n", timelog);
         }
         else{
             fprintf(fp, "# mode\tNfile\tranks\twriters\titems\tnmemb\n"
-- 
2.43.0


From f3feecb8bf09f22e96aa01f16aa1a95c780e9431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:37 +0000
Subject: [PATCH 64/70] fix: bigfile-iosim takes file names of any length

Names of more than 1500 characters were written beyond the end of the buffers.
---
 utils/bigfile-iosim.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/bigfile-iosim.c b/utils/bigfile-iosim.c
index 7806565..65a0c3f 100644
--- a/utils/bigfile-iosim.c
+++ b/utils/bigfile-iosim.c
@@ -276,7 +276,7 @@ iosim(char * filename)
     MPI_Gather(&trank, sizeof(trank), MPI_BYTE, times, sizeof(trank), MPI_BYTE, 0, MPI_COMM_WORLD);
 
     if (ThisTask == 0){
-        char timelog[4096];
+        char timelog[strlen(filename) + 100];
         sprintf(timelog, "%s/%s-timelog", filename, MODES[mode]);
         FILE * fp = fopen(timelog, "a+");
         if (!fp){
@@ -329,7 +329,7 @@ int main(int argc, char * argv[]) {
     int i;
     int rt = 0;
     int ch;
-    char * filename = alloca(1500);
+    char * filename;
     
     while(-1 != (ch = getopt(argc, argv, getoptstr))) {
         switch(ch) {
@@ -384,7 +384,7 @@ int main(int argc, char * argv[]) {
 
     optind++;
 
-    sprintf(filename, "%s", argv[optind]);
+    filename = argv[optind];
 
     if (Nwriter > NTask || Nwriter == 0) {
         info("############## CAUTION: you chose %d ranks and %d writers! ##############\n"
@@ -401,7 +401,7 @@ int main(int argc, char * argv[]) {
 
     if (purge) {
         if(ThisTask == 0) {
-            char buffer[1500];
+            char buffer[strlen(filename) + 100];
             sprintf(buffer, "rm -rf %s/TestBlock", filename);
             system(buffer);
         }
-- 
2.43.0


From 40c4cbaf74b737c63d7b9346361ddf5a07e41af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:37 +0000
Subject: [PATCH 65/70] fix: bigfile-iosim purges the block of exactly the file
 it was given

The name of the file went through the shell: a blank in it made the purge remove another
file, and other characters ran commands. A purge that failed was not reported.
---
 utils/bigfile-iosim.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-iosim.c b/utils/bigfile-iosim.c
index 65a0c3f..31154e0 100644
--- a/utils/bigfile-iosim.c
+++ b/utils/bigfile-iosim.c
@@ -1,9 +1,12 @@
+#define _GNU_SOURCE /* nftw */
 #include <stdio.h>
 #include <stdlib.h>
 #include <stdarg.h>
 #include <stdint.h>
 #include <alloca.h>
 #include <string.h>
+#include <errno.h>
+#include <ftw.h>
 
 #include <mpi.h>
 #include <unistd.h>
@@ -300,6 +303,12 @@ iosim(char * filename)
     return rt;
 }
 
+static int
+remove_one(const char * path, const struct stat * st, int type, struct FTW * ftw)
+{
+    return remove(path);
+}
+
 char * getoptstr = "hf:n:s:w:m:Ap";
 static void 
 usage() 
@@ -402,8 +411,11 @@ int main(int argc, char * argv[]) {
     if (purge) {
         if(ThisTask == 0) {
             char buffer[strlen(filename) + 100];
-            sprintf(buffer, "rm -rf %s/TestBlock", filename);
-            system(buffer);
+            sprintf(buffer, "%s/TestBlock", filename);
+            if(0 != nftw(buffer, remove_one, 16, FTW_DEPTH | FTW_PHYS) && errno != ENOENT) {
+                printf("Failed to remove %s (%s)\n", buffer, strerror(errno));
+                rt = -1;
+            }
         }
     }
 //+++++++++++++++++ Writing Time Log +++++++++++++++++
-- 
2.43.0


From 2dbb28f86137fb0ba62a66e10d9daf88aae794d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:48 +0000
Subject: [PATCH 66/70] fix: bigfile-iosim fails on a command line it does not
 understand

It exited with 0 without doing anything, and took a missing file name for "(null)".
---
 utils/bigfile-iosim.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-iosim.c b/utils/bigfile-iosim.c
index 31154e0..ab69d0d 100644
--- a/utils/bigfile-iosim.c
+++ b/utils/bigfile-iosim.c
@@ -351,35 +351,44 @@ int main(int argc, char * argv[]) {
             case 'w':
                 if(1 != sscanf(optarg, "%d", &nmemb)) {
                     usage();
+                    rt = -1;
                     goto byebye;
                 }
                 break;
             case 'f':
                 if(1 != sscanf(optarg, "%d", &Nfile)) {
                     usage();
+                    rt = -1;
                     goto byebye;
                 }
                 break;
             case 'n':
                 if(1 != sscanf(optarg, "%d", &Nwriter)) {
                     usage();
+                    rt = -1;
                     goto byebye;
                 }
                 break;
             case 's':
                 if(1 != sscanf(optarg, "%td", &size)) {
                     usage();
+                    rt = -1;
                     goto byebye;
                 }
                 break;
             case 'h':
+                usage();
+                goto byebye;
             default:
                 usage();
+                rt = -1;
                 goto byebye;
         }    
     }
-    if(optind == argc) {
+    /* the command and the file */
+    if(argc - optind < 2) {
         usage();
+        rt = -1;
         goto byebye;
     }
 
@@ -388,7 +397,9 @@ int main(int argc, char * argv[]) {
         if(0 == strcmp(MODES[mode], smode)) break;
     }
     if(mode == 4) {
-        usage(); goto byebye;
+        usage();
+        rt = -1;
+        goto byebye;
     }
 
     optind++;
-- 
2.43.0


From 61165ba66e7cc80d64ad9923c38439192f662141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:02 +0000
Subject: [PATCH 67/70] fix: bigfile-repartition puts the block back when it
 fails

A number of files that bigfile-copy does not accept, or a copy that fails, left the block
under the name it was moved to, and the incomplete copy in its place.
---
 utils/bigfile-repartition | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/utils/bigfile-repartition b/utils/bigfile-repartition
index f564c41..8b737a3 100755
--- a/utils/bigfile-repartition
+++ b/utils/bigfile-repartition
@@ -38,7 +38,15 @@ repart() {
         echo "Repartitioning $BLOCK" >&2
     fi;
     $ROOT/bigfile-rename "$FILE" "$BLOCK" "${BLOCK}-REPBAK" || fail
-    $ROOT/bigfile-copy $VERBOSE -n $NFILE "$FILE" "${BLOCK}-REPBAK" "${BLOCK}" ||fail
+    $ROOT/bigfile-copy $VERBOSE -n $NFILE "$FILE" "${BLOCK}-REPBAK" "${BLOCK}"
+    if [ $? != 0 ]; then
+        # put the block back in the place of what has been copied
+        if [ -e "$FILE/$BLOCK" ]; then
+            $ROOT/bigfile-rm "$FILE" "$BLOCK"
+        fi
+        $ROOT/bigfile-rename "$FILE" "${BLOCK}-REPBAK" "$BLOCK"
+        fail
+    fi
     $ROOT/bigfile-rm "$FILE" "${BLOCK}-REPBAK" ||fail
 }
 if [ -z "$1" ]; then
-- 
2.43.0


From b5648748696b9c6c6232f1b7eb9eaae9d6c31963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:02 +0000
Subject: [PATCH 68/70] fix: bigfile-check and bigfile-repartition fail on
 wrong command lines

They exited with 0 without checking or changing anything.
---
 utils/bigfile-check       | 2 +-
 utils/bigfile-repartition | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-check b/utils/bigfile-check
index fb8671d..277d808 100755
--- a/utils/bigfile-check
+++ b/utils/bigfile-check
@@ -5,7 +5,7 @@ set -o pipefail
 
 usage() {
     echo 'Usage: bigfile-check file [block ...]' >&2
-    exit;
+    exit 1;
 }
 
 fail () {
diff --git a/utils/bigfile-repartition b/utils/bigfile-repartition
index 8b737a3..4012d98 100755
--- a/utils/bigfile-repartition
+++ b/utils/bigfile-repartition
@@ -2,7 +2,7 @@
 
 usage() {
     echo 'Usage: bigfile-repartition file Nfile block ...' >&2
-    exit;
+    exit 1;
 }
 
 fail () {
@@ -24,6 +24,9 @@ done
 
 shift $(($OPTIND-1))
 ROOT=`dirname "$0"`
+if [ $# -lt 2 ]; then
+    usage
+fi;
 FILE="$1"
 shift
 NFILE="$1"
-- 
2.43.0


From fceb30efe35413718369c866aafd7bbc251fc24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:27 +0000
Subject: [PATCH 69/70] fix: refuse headers that list a physical file twice

A header with two lines for one file and none for another was accepted; the file without a line was taken as empty and its rows disappeared.
---
 src/bigfile.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 28cb057..076f1e5 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -387,6 +387,9 @@ _big_block_open(BigBlock * bb, const char * basename)
                 ex_fchecksum,
                 "Failed to alloc memory `%s'", bb->basename);
         int i;
+        for(i = 0; i < bb->Nfile; i ++) {
+            bb->fsize[i] = SIZE_MAX; /* no line for this file yet */
+        }
         for(i = 0; i < bb->Nfile; i ++) {
             int fid = -1;
             size_t size;
@@ -400,6 +403,8 @@ _big_block_open(BigBlock * bb, const char * basename)
                     "Non-existent file referenced: `%s' (%d)", bb->basename, fid);
             RAISEIF(size > PTRDIFF_MAX, ex_fscanf1,
                     "Unreasonable size of file in header of block `%s' (%td)", bb->basename, size);
+            RAISEIF(bb->fsize[fid] != SIZE_MAX, ex_fscanf1,
+                    "File listed twice in header of block `%s' (%d)", bb->basename, fid);
             bb->fsize[fid] = size;
             bb->fchecksum[fid] = cksum;
         }
-- 
2.43.0


From ad08b44d8623ee635a48d091e032f731330211f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:25 +0000
Subject: [PATCH 70/70] fix: report a data file that cannot be closed

Some file systems report only when a file is closed that the data was not stored (see close(2)); big_block_write ignored it and lost the rows silently.
---
 src/bigfile.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 076f1e5..123472b 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1019,7 +1019,11 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
                 ex_write,
                 "Failed to write in block `%s' at (%d:%td) (%s)",
                 bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
-        fclose(fp);
+        /* some file systems report only now that the data was not stored */
+        RAISEIF(0 != fclose(fp),
+                ex_close,
+                "Failed to write in block `%s' at (%d:%td) (%s)",
+                bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
 
         towrite -= chunk_size;
         RAISEIF(0 != big_block_seek_rel(bb, ptr, chunk_size),
@@ -1030,6 +1034,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 ex_write:
 ex_seek:
     fclose(fp);
+ex_close:
 ex_convert:
 ex_open:
 ex_blockseek:
-- 
2.43.0

