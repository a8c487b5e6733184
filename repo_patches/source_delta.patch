From 0f0a4f8fef31acdcaa64e42d8658596e529db501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:47 +0000
Subject: [PATCH 01/94] fix: visit each referring record once when maintaining
 index entries along backlinks

---
 Db/dbdata.c | 266 ++++++++++++++++++++++++----------------------------
 1 file changed, 125 insertions(+), 141 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 66c3c3a..dd21115 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -76,11 +76,11 @@ static struct tm * localtime_r (const time_t *timer, struct tm *result);
 
 /* ======= Private protos ================ */
 
-#ifdef USE_BACKLINKING
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
 static gint remove_backlink_index_entries(void *db, gint *record,
-  gint value, gint depth);
+  gint fieldnr);
 static gint restore_backlink_index_entries(void *db, gint *record,
-  gint value, gint depth);
+  gint fieldnr);
 #endif
 
 static int isleap(unsigned yr);
@@ -460,118 +460,129 @@ void *wg_get_next_parent(void* db, void* record, void *parent) {
 }
 
 
-/* ------------ backlink chain recursive functions ------------------- */
+/* ------------ backlink chain index maintenance ------------------- */
 
-#ifdef USE_BACKLINKING
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
 
-/** Remove index entries in backlink chain recursively.
- *  Needed for index maintenance when records are compared by their
- *  contens, as change in contents also changes the value of the entire
- *  record and thus affects it's placement in the index.
+/** Rewrite the index entries that depend on the contents of a record.
+ *  Records are compared by their contents, so updating a field in a
+ *  record changes the value of all the records that refer to it, up to
+ *  the recursive comparison depth. Such records may be reached through
+ *  several fields and along several paths (the references may also form
+ *  a cycle), but each of them is processed once.
+ *  If add is nonzero, the entries are (re-)created, otherwise removed.
  *  Returns 0 for success
  *  Returns -1 in case of errors.
  */
-static gint remove_backlink_index_entries(void *db, gint *record,
-  gint value, gint depth) {
-  gint col, length, err = 0;
+static gint update_backlink_index_entries(void *db, gint *record,
+  gint fieldnr, int add) {
   db_memsegment_header *dbh = dbmemsegh(db);
-
-  if(!is_special_record(record)) {
-    /* Find all fields in the record that match value (which is actually
-     * a reference to a child record in encoded form) and remove it from
-     * indexes. It will be recreated in the indexes by wg_set_field() later.
-     */
-    length = getusedobjectwantedgintsnr(*record) - RECORD_HEADER_GINTS;
-    if(length > MAX_INDEXED_FIELDNR)
-      length = MAX_INDEXED_FIELDNR + 1;
-
-    for(col=0; col<length; col++) {
-      if(*(record + RECORD_HEADER_GINTS + col) == value) {
-        /* Changed value is always a WG_RECORDDTYPE field, therefore
-         * we don't need to deal with index templates here
-         * (record links are not allowed in templates).
-         */
-        if(dbh->index_control_area_header.index_table[col]) {
-          if(wg_index_del_field(db, record, col) < -1)
-            return -1;
+  gint *queue, *tmp, val, offset;
+  gint qsize = 64, head = 0, tail = 0, levelend = 1, depth = 0;
+  gint err = -1;
+  void *visited;
+
+  if(!dbh->index_control_area_header.number_of_indexes)
+    return 0; /* nothing to maintain */
+
+  queue = (gint *) malloc(qsize * sizeof(gint));
+  visited = wg_ginthash_init(db);
+  if(!queue || !visited)
+    goto done;
+
+  /* Find the record and the ones that refer to it, level by level */
+  queue[tail++] = ptrtooffset(db, record);
+  if(wg_ginthash_addkey(db, visited, queue[0], 0))
+    goto done;
+  while(head < tail && depth < WG_COMPARE_REC_DEPTH) {
+    gint cell = *((gint *) offsettoptr(db, queue[head]) +\
+      RECORD_BACKLINKS_POS);
+    while(cell) {
+      offset = ((gcell *) offsettoptr(db, cell))->car;
+      if(wg_ginthash_getkey(db, visited, offset, &val)) {
+        if(tail >= qsize) {
+          if(!(tmp = (gint *) realloc(queue, 2 * qsize * sizeof(gint))))
+            goto done;
+          queue = tmp;
+          qsize *= 2;
         }
+        queue[tail++] = offset;
+        if(wg_ginthash_addkey(db, visited, offset, 0))
+          goto done;
       }
+      cell = ((gcell *) offsettoptr(db, cell))->cdr;
+    }
+    if(++head == levelend) {
+      levelend = tail;
+      depth++;
     }
   }
 
-  /* If recursive depth is not exchausted, continue with the parents
-   * of this record.
+  /* Update all the fields that contain a link to one of these records.
+   * Changed value is always a WG_RECORDTYPE field, therefore we don't
+   * need to deal with index templates here (record links are not allowed
+   * in templates). The field that is being written is handled by
+   * the caller.
    */
-  if(depth > 0) {
-    gint backlink_list = *(record + RECORD_BACKLINKS_POS);
-    if(backlink_list) {
-      gcell *next = (gcell *) offsettoptr(db, backlink_list);
-      for(;;) {
-        err = remove_backlink_index_entries(db,
-          (gint *) offsettoptr(db, next->car),
-          wg_encode_record(db, record), depth-1);
-        if(err)
-          return err;
-        if(!next->cdr)
-          break;
-        next = (gcell *) offsettoptr(db, next->cdr);
-      }
+  for(head=0; head<tail; head++) {
+    gint *rec = (gint *) offsettoptr(db, queue[head]);
+    gint col, length;
+    int processed = (rec == record); /* the caller updates fieldnr */
+
+    if(is_special_record(rec))
+      continue;
+    length = getusedobjectwantedgintsnr(*rec) - RECORD_HEADER_GINTS;
+    if(length > MAX_INDEXED_FIELDNR)
+      length = MAX_INDEXED_FIELDNR + 1;
+
+    for(col=0; col<length; col++) {
+      gint data = *(rec + RECORD_HEADER_GINTS + col);
+      if(!dbh->index_control_area_header.index_table[col])
+        continue;
+      if(rec == record && col == fieldnr)
+        continue;
+      if(!isptr(data) || !isdatarec(data) ||
+        wg_ginthash_getkey(db, visited, decode_datarec_offset(data), &val))
+        continue;
+      /* An index on several columns may already have the record, if
+       * this is not the first field we're processing.
+       */
+      if((!add || processed) && wg_index_del_field(db, rec, col) < -1)
+        goto done;
+      if(add && wg_index_add_field(db, rec, col) < -1)
+        goto done;
+      processed = 1;
     }
   }
+  err = 0;
 
-  return 0;
+done:
+  if(visited)
+    wg_ginthash_free(db, visited);
+  if(queue)
+    free(queue);
+  return err;
 }
 
-/** Add index entries in backlink chain recursively.
- *  Called after doing remove_backling_index_entries() and updating
- *  data in the record that originated the call. This recreates the
- *  entries in the indexes for all the records that were affected.
+/** Remove index entries of the records that refer to this record.
+ *  Called before the contents of the record are updated.
  *  Returns 0 for success
  *  Returns -1 in case of errors.
  */
-static gint restore_backlink_index_entries(void *db, gint *record,
-  gint value, gint depth) {
-  gint col, length, err = 0;
-  db_memsegment_header *dbh = dbmemsegh(db);
-
-  if(!is_special_record(record)) {
-    /* Find all fields in the record that match value (which is actually
-     * a reference to a child record in encoded form) and add it back to
-     * indexes.
-     */
-    length = getusedobjectwantedgintsnr(*record) - RECORD_HEADER_GINTS;
-    if(length > MAX_INDEXED_FIELDNR)
-      length = MAX_INDEXED_FIELDNR + 1;
-
-    for(col=0; col<length; col++) {
-      if(*(record + RECORD_HEADER_GINTS + col) == value) {
-        if(dbh->index_control_area_header.index_table[col]) {
-          if(wg_index_add_field(db, record, col) < -1)
-            return -1;
-        }
-      }
-    }
-  }
-
-  /* Continue to the parents until depth==0 */
-  if(depth > 0) {
-    gint backlink_list = *(record + RECORD_BACKLINKS_POS);
-    if(backlink_list) {
-      gcell *next = (gcell *) offsettoptr(db, backlink_list);
-      for(;;) {
-        err = restore_backlink_index_entries(db,
-          (gint *) offsettoptr(db, next->car),
-          wg_encode_record(db, record), depth-1);
-        if(err)
-          return err;
-        if(!next->cdr)
-          break;
-        next = (gcell *) offsettoptr(db, next->cdr);
-      }
-    }
-  }
+static gint remove_backlink_index_entries(void *db, gint *record,
+  gint fieldnr) {
+  return update_backlink_index_entries(db, record, fieldnr, 0);
+}
 
-  return 0;
+/** Add index entries of the records that refer to this record.
+ *  Called after doing remove_backlink_index_entries() and updating
+ *  data in the record that originated the call.
+ *  Returns 0 for success
+ *  Returns -1 in case of errors.
+ */
+static gint restore_backlink_index_entries(void *db, gint *record,
+  gint fieldnr) {
+  return update_backlink_index_entries(db, record, fieldnr, 1);
 }
 
 #endif
@@ -616,7 +627,6 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* strptr;
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
-  gint rec_enc = WG_ILLEGAL;    /** this record as encoded value. */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
@@ -666,20 +676,8 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
   if(backlink_list) {
-    gint err;
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    rec_enc = wg_encode_record(db, record);
-    for(;;) {
-      err = remove_backlink_index_entries(db,
-        (gint *) offsettoptr(db, next->car),
-        rec_enc, WG_COMPARE_REC_DEPTH-1);
-      if(err) {
-        return -4; /* override the error code, for now. */
-      }
-      if(!next->cdr)
-        break;
-      next = (gcell *) offsettoptr(db, next->cdr);
-    }
+    if(remove_backlink_index_entries(db, (gint *) record, fieldnr))
+      return -4; /* override the error code, for now. */
   }
 #endif
 
@@ -781,19 +779,8 @@ setfld_backlink_removed:
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   /* Create new entries in indexes in all referring records */
   if(backlink_list) {
-    gint err;
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    for(;;) {
-      err = restore_backlink_index_entries(db,
-        (gint *) offsettoptr(db, next->car),
-        rec_enc, WG_COMPARE_REC_DEPTH-1);
-      if(err) {
-        return -4;
-      }
-      if(!next->cdr)
-        break;
-      next = (gcell *) offsettoptr(db, next->cdr);
-    }
+    if(restore_backlink_index_entries(db, (gint *) record, fieldnr))
+      return -4;
   }
 #endif
 
@@ -861,6 +848,19 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     return -2;
   }
 #endif
+
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  /* Update the indexes of all referring records. Normal
+   * usage scenario would be that the record is also new, so that
+   * there are no backlinks, however this is not guaranteed.
+   */
+  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
+  if(backlink_list) {
+    if(remove_backlink_index_entries(db, (gint *) record, fieldnr))
+      return -4;
+  }
+#endif
+
   (*fieldadr)=data;
 
 #ifdef USE_CHILD_DB
@@ -909,26 +909,10 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #endif
 
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  /* Create new entries in indexes in all referring records. Normal
-   * usage scenario would be that the record is also new, so that
-   * there are no backlinks, however this is not guaranteed.
-   */
-  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
+  /* Create new entries in indexes in all referring records */
   if(backlink_list) {
-    gint err;
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    gint rec_enc = wg_encode_record(db, record);
-    for(;;) {
-      err = restore_backlink_index_entries(db,
-        (gint *) offsettoptr(db, next->car),
-        rec_enc, WG_COMPARE_REC_DEPTH-1);
-      if(err) {
-        return -4;
-      }
-      if(!next->cdr)
-        break;
-      next = (gcell *) offsettoptr(db, next->cdr);
-    }
+    if(restore_backlink_index_entries(db, (gint *) record, fieldnr))
+      return -4;
   }
 #endif
 
-- 
2.43.0


From 61fc630d562a28dae6016238e303b7e46f7da4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:08 +0000
Subject: [PATCH 02/94] fix: wg_get_all_indexes overflowed its array with
 multi-column indexes

---
 Db/dbindex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 65b9ddc..5f20f7e 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2599,7 +2599,12 @@ void * wg_get_all_indexes(void *db, gint *count) {
     while(*ilist) {
       gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
       if(ilistelem->car) {
-        res[(*count)++] = ilistelem->car;
+        /* Multi-column indexes are present in the list of each of
+         * their columns, add them once. */
+        wg_index_header *hdr = \
+          (wg_index_header *) offsettoptr(db, ilistelem->car);
+        if(hdr->rec_field_index[0] == column)
+          res[(*count)++] = ilistelem->car;
       }
       ilist = &ilistelem->cdr;
     }
-- 
2.43.0


From c477361d8954cf33a6d20395c6f29ca402045202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 03/94] fix: implement dropping of hash indexes

---
 Db/dbindex.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 5f20f7e..84b43ef 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1676,8 +1676,32 @@ static gint create_hash_index(void *db, gint index_id){
  * piece if necessary).
  */
 static gint drop_hash_index(void *db, gint index_id){
-  show_index_error(db, "Cannot drop hash index: not implemented");
-  return -1;
+  wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
+  db_hash_area_header *ha = HASHIDX_ARRAYP(hdr);
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint i;
+
+  /* Free the buckets and the record lists. The hash array itself
+   * is not returned to the free memory of the segment.
+   */
+  for(i=0; i<ha->arraylength; i++) {
+    gint head_offset = (ha->arraystart)+(sizeof(gint) * i);
+    gint bucket = dbfetch(db, head_offset);
+    while(bucket) {
+      gint next = dbfetch(db, bucket + HASHIDX_HASHCHAIN_POS*sizeof(gint));
+      gint reclist = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
+      while(reclist) {
+        gint cdr = ((gcell *) offsettoptr(db, reclist))->cdr;
+        wg_free_listcell(db, reclist);
+        reclist = cdr;
+      }
+      wg_free_object(db, &(dbh->indexhash_area_header), bucket);
+      bucket = next;
+    }
+    dbstore(db, head_offset, 0);
+  }
+
+  return 0;
 }
 
 /* -------------- Hash index public functions -------------- */
-- 
2.43.0


From ff907983a4a3b6a5bdc8e200459fabe9e772cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 04/94] fix: do not index records that lack some of the columns
 when creating a multi-column hash index

---
 Db/dbindex.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 84b43ef..fc7589e 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1611,7 +1611,7 @@ static gint create_hash_index(void *db, gint index_id){
   void *rec;
   wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint type = hdr->type;
-  gint firstcol = hdr->rec_field_index[0];
+  gint lastcol = hdr->rec_field_index[hdr->fields - 1];
   gint i;
 
   /* Initialize the hash table (0 - use default size) */
@@ -1623,7 +1623,8 @@ static gint create_hash_index(void *db, gint index_id){
   rowsprocessed = 0;
 
   while(rec != NULL) {
-    if(firstcol >= wg_get_record_len(db, rec)) {
+    if(lastcol >= wg_get_record_len(db, rec)) {
+      /* too short, some of the indexed columns are not present */
       rec=wg_get_next_record(db,rec);
       continue;
     }
-- 
2.43.0


From e115033675dce03f662ea0204d7e0c62e8a80121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 05/94] fix: hash the entire integer value in hash indexes

---
 Db/dbhash.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 3051bc0..c98a795 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -312,9 +312,9 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &ptrdata;
       break;
     case WG_INTTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_int(db, enc);
-      bytedata = (char *) &intdata;
+      len = sizeof(gint);
+      ptrdata = wg_decode_int(db, enc);
+      bytedata = (char *) &ptrdata;
       break;
     case WG_DOUBLETYPE:
       len = sizeof(double);
@@ -358,9 +358,9 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &intdata;
       break;
     case WG_VARTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_var(db, enc);
-      bytedata = (char *) &intdata;
+      len = sizeof(gint);
+      ptrdata = wg_decode_var(db, enc);
+      bytedata = (char *) &ptrdata;
       break;
     case WG_ANONCONSTTYPE:
       /* Ignore anonconst */
-- 
2.43.0


From 955b03f15017467eb1342d0ce388d49ccb851363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 06/94] fix: hash the equal values 0.0 and -0.0 alike

---
 Db/dbhash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index c98a795..7565572 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -319,6 +319,8 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
     case WG_DOUBLETYPE:
       len = sizeof(double);
       doubledata = wg_decode_double(db, enc);
+      if(doubledata == 0.0)
+        doubledata = 0.0; /* negative zero is an equal value */
       bytedata = (char *) &doubledata;
       break;
     case WG_FIXPOINTTYPE:
-- 
2.43.0


From d31c3e9a95e24b96c94461d718579be3cb0ae0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 07/94] fix: blob values could not be stored in columns that
 have a hash index

---
 Db/dbhash.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 7565572..bb7ce4f 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -287,8 +287,8 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
  *
  * NOTE: to differentiate between identical byte strings
  * the value is prefixed with a type identifier.
- * TODO: For values with varying length that can contain
- * '\0' bytes, add length to the prefix.
+ * Values with varying length that can contain '\0' bytes have
+ * the length in the prefix.
  */
 gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
   gint len;
@@ -344,6 +344,17 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       exdata = wg_decode_xmlliteral_xsdtype(db, enc);
       CONCAT_FOR_HASHING(db, bytedata, exdata, len, buf, enc)
       break;
+    case WG_BLOBTYPE:
+      /* may contain '\0' bytes, the length is included */
+      ptrdata = wg_decode_blob_len(db, enc);
+      len = sizeof(gint) + ptrdata;
+      buf = malloc(len);
+      if(!buf)
+        return 0;
+      memcpy(buf, &ptrdata, sizeof(gint));
+      memcpy(buf + sizeof(gint), wg_decode_blob(db, enc), ptrdata);
+      bytedata = buf;
+      break;
     case WG_CHARTYPE:
       len = sizeof(int);
       intdata = wg_decode_char(db, enc);
-- 
2.43.0


From 6b2610ff2e2d3e241f6be2edf8367ea3cb798d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 08/94] fix: wg_get_next_parent looped endlessly if a parent
 refers to the record twice

---
 Db/dbdata.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index dd21115..dd3d289 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -446,13 +446,26 @@ void *wg_get_next_parent(void* db, void* record, void *parent) {
 #endif
   backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
   if(backlink_list) {
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
+    gint parent_offset = ptrtooffset(db, parent);
+    gcell *head = (gcell *) offsettoptr(db, backlink_list);
+    gcell *next = head, *prev;
+
+    /* Find the first occurrence of the parent */
+    while(next->car != parent_offset) {
+      if(!next->cdr)
+        return NULL;
+      next = (gcell *) offsettoptr(db, next->cdr);
+    }
+
+    /* Skip the parents that are already present earlier in the chain.
+     * They refer to the record from several fields.
+     */
     while(next->cdr) {
-      void *pp = (void *) offsettoptr(db, next->car);
       next = (gcell *) offsettoptr(db, next->cdr);
-      if(pp == parent && next->car) {
+      for(prev = head; prev != next && prev->car != next->car;
+        prev = (gcell *) offsettoptr(db, prev->cdr));
+      if(prev == next)
         return (void *) offsettoptr(db, next->car);
-      }
     }
   }
 #endif /* USE_BACKLINKING */
-- 
2.43.0


From 1943d99e11d2e8117201d417f8c1b5a007675f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 09/94] fix: wg_delete_record refused an external record only
 after changing indexes and the journal

---
 Db/dbdata.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index dd3d289..5c71a56 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -214,6 +214,15 @@ gint wg_delete_record(void* db, void *rec) {
   }
 #endif
 
+  offset = ptrtooffset(db, rec);
+#if defined(CHECK) && defined(USE_CHILD_DB)
+  /* Check if it's a local record */
+  if(!is_local_offset(db, offset)) {
+    show_data_error(db, "not deleting an external record");
+    return -2;
+  }
+#endif
+
 #ifdef USE_BACKLINKING
   if(*((gint *) rec + RECORD_BACKLINKS_POS))
     return -1;
@@ -233,15 +242,6 @@ gint wg_delete_record(void* db, void *rec) {
       return -3; /* index error */
   }
 
-  offset = ptrtooffset(db, rec);
-#if defined(CHECK) && defined(USE_CHILD_DB)
-  /* Check if it's a local record */
-  if(!is_local_offset(db, offset)) {
-    show_data_error(db, "not deleting an external record");
-    return -2;
-  }
-#endif
-
   /* Loop over fields, freeing them */
   dendptr = (gint *) (((char *) rec) + datarec_size_bytes(*((gint *)rec)));
   for(dptr=(gint *)rec+RECORD_HEADER_GINTS; dptr<dendptr; dptr++) {
-- 
2.43.0


From 7548dd64cf43f863a97542e8a1954d5196574e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 10/94] fix: check the arguments of wg_set_field and
 wg_set_new_field before changing indexes and the journal

---
 Db/dbdata.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 5c71a56..a23e04c 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -650,6 +650,17 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
+#ifdef USE_CHILD_DB
+  /* Get the offset owner */
+  if(isptr(data)) {
+    offset_owner = get_ptr_owner(db, data);
+    if(!offset_owner) {
+      show_data_error(db, "External reference not recognized");
+      return -5;
+    }
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
@@ -694,17 +705,6 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-#ifdef USE_CHILD_DB
-  /* Get the offset owner */
-  if(isptr(data)) {
-    offset_owner = get_ptr_owner(db, data);
-    if(!offset_owner) {
-      show_data_error(db, "External reference not recognized");
-      return -5;
-    }
-  }
-#endif
-
 #ifdef USE_BACKLINKING
   /* Is the old field value a record pointer? If so, remove the backlink.
    * XXX: this can be optimized to use a custom macro instead of
@@ -834,11 +834,11 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
-#ifdef USE_DBLOG
-  /* Do not proceed before we've logged the operation */
-  if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
-      return -6; /* journal error, cannot write */
+  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
+#ifdef CHECK
+  if(*fieldadr) {
+    show_data_error(db,"wg_set_new_field called on field that contains data");
+    return -2;
   }
 #endif
 
@@ -853,12 +853,11 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-  /* Write new value */
-  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
-#ifdef CHECK
-  if(*fieldadr) {
-    show_data_error(db,"wg_set_new_field called on field that contains data");
-    return -2;
+#ifdef USE_DBLOG
+  /* Do not proceed before we've logged the operation */
+  if(dbh->logging.active) {
+    if(wg_log_set_field(db,record,fieldnr,data))
+      return -6; /* journal error, cannot write */
   }
 #endif
 
@@ -874,6 +873,7 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+  /* Write new value */
   (*fieldadr)=data;
 
 #ifdef USE_CHILD_DB
-- 
2.43.0


From 450c24845c290450e79d633a2744ba1b90e4f907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 11/94] fix: decide by the old value of the field whether a
 backlink needs to be removed

---
 Db/dbdata.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index a23e04c..d08ec2d 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -713,7 +713,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #ifdef USE_CHILD_DB
   /* Only touch local records */
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
+    is_local_offset(db, decode_datarec_offset(fielddata))) {
 #else
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE) {
 #endif
-- 
2.43.0


From 0c19452fe32237036376e82f72dd9823df9c1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 12/94] fix: setting a record field without space for the
 backlink overwrote the database header

---
 Db/dbdata.c | 98 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 67 insertions(+), 31 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index d08ec2d..3fd3afd 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -640,6 +640,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* strptr;
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
+  gint new_backlink = 0;        /** list cell for a new backlink */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
@@ -650,6 +651,15 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
+  /* Read the old encoded value */
+  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
+  fielddata=*fieldadr;
+
+  /* Skip changes if the value does not change */
+  if(fielddata == data) {
+    return 0;
+  }
+
 #ifdef USE_CHILD_DB
   /* Get the offset owner */
   if(isptr(data)) {
@@ -661,23 +671,38 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+#ifdef USE_BACKLINKING
+  /* Storing a record pointer needs storage for a backlink. Get it first,
+   * as we can still fail without side effects.
+   */
+#ifdef USE_CHILD_DB
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
+    offset_owner == dbmemseg(db)) {
+#else
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+#endif
+    new_backlink = wg_alloc_fixlen_object(db,
+      &(dbmemsegh(db)->listcell_area_header));
+    if(!new_backlink) {
+      show_data_error(db, "Failed to allocate a backlink");
+      return -4;
+    }
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
+    if(wg_log_set_field(db,record,fieldnr,data)) {
+#ifdef USE_BACKLINKING
+      if(new_backlink)
+        wg_free_listcell(db, new_backlink);
+#endif
       return -6; /* journal error, cannot write */
+    }
   }
 #endif
 
-  /* Read the old encoded value */
-  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
-  fielddata=*fieldadr;
-
-  /* Skip changes if the value does not change */
-  if(fielddata == data) {
-    return 0;
-  }
-
   /* Update index(es) while the old value is still in the db */
 #ifdef USE_INDEX_TEMPLATE
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
@@ -769,23 +794,16 @@ setfld_backlink_removed:
 
 #ifdef USE_BACKLINKING
   /* Is the new field value a record pointer? If so, add a backlink */
-#ifdef USE_CHILD_DB
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
-#else
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
-#endif
+  if(new_backlink) {
     gint *rec = (gint *) wg_decode_record(db, data);
     gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
-    gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
+    gcell *new_cell = (gcell *) offsettoptr(db, new_backlink);
 
     while(*next_offset)
       next_offset = &(((gcell *) offsettoptr(db, *next_offset))->cdr);
     new_cell->car = ptrtooffset(db, record);
     new_cell->cdr = 0;
-    *next_offset = new_offset;
+    *next_offset = new_backlink;
   }
 #endif
 
@@ -824,6 +842,7 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* strptr;
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
+  gint new_backlink = 0;        /** list cell for a new backlink */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
@@ -853,11 +872,35 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
+#ifdef USE_BACKLINKING
+  /* Storing a record pointer needs storage for a backlink. Get it first,
+   * as we can still fail without side effects.
+   */
+#ifdef USE_CHILD_DB
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
+    offset_owner == dbmemseg(db)) {
+#else
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+#endif
+    new_backlink = wg_alloc_fixlen_object(db,
+      &(dbmemsegh(db)->listcell_area_header));
+    if(!new_backlink) {
+      show_data_error(db, "Failed to allocate a backlink");
+      return -4;
+    }
+  }
+#endif
+
 #ifdef USE_DBLOG
   /* Do not proceed before we've logged the operation */
   if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
+    if(wg_log_set_field(db,record,fieldnr,data)) {
+#ifdef USE_BACKLINKING
+      if(new_backlink)
+        wg_free_listcell(db, new_backlink);
+#endif
       return -6; /* journal error, cannot write */
+    }
   }
 #endif
 
@@ -901,23 +944,16 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 
 #ifdef USE_BACKLINKING
   /* Is the new field value a record pointer? If so, add a backlink */
-#ifdef USE_CHILD_DB
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
-#else
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
-#endif
+  if(new_backlink) {
     gint *rec = (gint *) wg_decode_record(db, data);
     gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
-    gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
+    gcell *new_cell = (gcell *) offsettoptr(db, new_backlink);
 
     while(*next_offset)
       next_offset = &(((gcell *) offsettoptr(db, *next_offset))->cdr);
     new_cell->car = ptrtooffset(db, record);
     new_cell->cdr = 0;
-    *next_offset = new_offset;
+    *next_offset = new_backlink;
   }
 #endif
 
-- 
2.43.0


From 20f2ca8fcf5a54e52c9ab9d45dea80930bebeb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:05 +0000
Subject: [PATCH 13/94] fix: adding to a hash index without space for a list
 cell overwrote the database header

---
 Db/dbhash.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index bb7ce4f..6426c7a 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -498,6 +498,14 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
   /* Add the record offset to the list. */
   rec_head = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
   rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
+  if(!rec_offset) {
+    if(!rec_head) {
+      /* new bucket at the head of the chain, not needed */
+      dbstore(db, ((ha->arraystart)+(sizeof(gint) * hash)), head);
+      wg_free_object(db, &(dbh->indexhash_area_header), bucket);
+    }
+    return -1;
+  }
   rec_cell = (gcell *) offsettoptr(db, rec_offset);
   rec_cell->car = offset;
   rec_cell->cdr = rec_head;
-- 
2.43.0


From d00211aed9ceca2a6ad5f6caf9d6d9557ffcfc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 14/94] fix: match records of index templates were added to the
 existing indexes and restored as data by the journal

---
 Db/dbindex.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index fc7589e..deac4ed 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -45,6 +45,7 @@ extern "C" {
 #include "dbindex.h"
 #include "dbcompare.h"
 #include "dbhash.h"
+#include "dblog.h"
 #include "dbutil.h"
 
 
@@ -1847,16 +1848,25 @@ nextelem:
     ilist = &ilistelem->cdr;
   }
 
-  /* Create the new match record */
+  /* Create the new match record. It is marked as special right away,
+   * so that it is never added to the existing indexes.
+   */
   rec = wg_create_raw_record(db, reclen);
   if(!rec)
     return 0;
+  meta = ((gint *) rec + RECORD_META_POS);
+#ifdef USE_DBLOG
+  if(dbh->logging.active) {
+    if(wg_log_set_meta(db, rec,
+      *meta | (RECORD_META_NOTDATA | RECORD_META_MATCH)))
+      return 0;
+  }
+#endif
+  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
   for(i=0; i<reclen; i++) {
     if(wg_set_new_field(db, rec, i, matchrec[i]) < 0)
       return 0;
   }
-  meta = ((gint *) rec + RECORD_META_POS);
-  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
-- 
2.43.0


From e8b22ebd1c59728f9f6005da087cc4956bdc76fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:01 +0000
Subject: [PATCH 15/94] fix: refuse invalid index types and negative columns
 before creating the index header

---
 Db/dbindex.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index deac4ed..ea8ac91 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2127,19 +2127,27 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
     return -1;
   }
 
-  if(sort_columns(sorted_cols, columns, col_count) < col_count) {
-    show_index_error(db, "Duplicate columns not allowed");
+  if(type != WG_INDEX_TYPE_TTREE && type != WG_INDEX_TYPE_HASH &&\
+    type != WG_INDEX_TYPE_HASH_JSON) {
+    /* WG_INDEX_TYPE_TTREE_JSON also causes an error, until
+     * proper implementation exists */
+    show_index_error(db, "Invalid index type");
     return -1;
   }
 
   for(i=0; i<col_count; i++) {
-    if(sorted_cols[i] > MAX_INDEXED_FIELDNR) {
+    if(columns[i] < 0 || columns[i] > MAX_INDEXED_FIELDNR) {
       show_index_error_nr(db, "Max allowed column number",
         MAX_INDEXED_FIELDNR);
       return -1;
     }
   }
 
+  if(sort_columns(sorted_cols, columns, col_count) < col_count) {
+    show_index_error(db, "Duplicate columns not allowed");
+    return -1;
+  }
+
 #ifdef USE_INDEX_TEMPLATE
   /* Handle the template */
   if(matchrec) {
@@ -2259,8 +2267,6 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
       if(create_hash_index(db, index_id))
         return -1;
       break;
-    case WG_INDEX_TYPE_TTREE_JSON:
-      /* Return an error, until proper implementation exists */
     default:
       show_index_error(db, "Invalid index type");
       return -1;
-- 
2.43.0


From 47360b8a15cba6cc1c11eab4d55a3ef9f13e06ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 16/94] fix: looking up an index on a negative column read
 outside the index table

---
 Db/dbindex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index ea8ac91..5e677cc 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2487,7 +2487,7 @@ gint wg_multi_column_to_index_id(void *db, gint *columns, gint col_count,
   }
 
   for(i=0; i<col_count; i++) {
-    if(sorted_cols[i] > MAX_INDEXED_FIELDNR) {
+    if(sorted_cols[i] < 0 || sorted_cols[i] > MAX_INDEXED_FIELDNR) {
       show_index_error_nr(db, "Max allowed column number",
         MAX_INDEXED_FIELDNR);
       return -1;
-- 
2.43.0


From 65ac8fcdf09378c521f19cf2f56e1b7806ac7c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:53 +0000
Subject: [PATCH 17/94] fix: clean up when creating an index fails, do not lose
 list contents or write through failed allocations

---
 Db/dbindex.c | 165 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 103 insertions(+), 62 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 5e677cc..e47805e 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -97,6 +97,7 @@ static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
 
 static gint create_hash_index(void *db, gint index_id);
 static gint drop_hash_index(void *db, gint index_id);
+static gint remove_index(void *db, gint index_id);
 
 static gint sort_columns(gint *sorted_cols, gint *columns, gint col_count);
 
@@ -1381,6 +1382,8 @@ static gint create_ttree_index(void *db, gint index_id){
   /* allocate (+ init) root node for new index tree and save
    * the offset into index_array */
   node = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+  if(!node)
+    return -1;
   nodest =(struct wg_tnode *)offsettoptr(db,node);
   nodest->parent_offset = 0;
   nodest->left_subtree_height = 0;
@@ -1411,7 +1414,8 @@ static gint create_ttree_index(void *db, gint index_id){
       continue;
     }
     if(MATCH_TEMPLATE(db, hdr, rec)) {
-      ttree_add_row(db, index_id, rec);
+      if(ttree_add_row(db, index_id, rec))
+        return -1;
       rowsprocessed++;
     }
     rec=wg_get_next_record(db,rec);
@@ -1635,12 +1639,14 @@ static gint create_hash_index(void *db, gint index_id){
          * from the rows that point to them.
          */
         if(is_plain_record(rec)) {
-          hash_add_row(db, index_id, rec);
+          if(hash_add_row(db, index_id, rec))
+            return -1;
           rowsprocessed++;
         }
       } else {
         /* Add all rows normally */
-        hash_add_row(db, index_id, rec);
+        if(hash_add_row(db, index_id, rec))
+          return -1;
         rowsprocessed++;
       }
     }
@@ -1744,15 +1750,15 @@ gint wg_search_hash(void *db, gint index_id, gint *values, gint count) {
  */
 static gint insert_into_list(void *db, gint *head, gint value) {
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint old = *head;
+  gint cell = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
 
-  *head = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
-  if(*head) {
-    gcell *listelem = (gcell *) offsettoptr(db, *head);
+  if(cell) {
+    gcell *listelem = (gcell *) offsettoptr(db, cell);
     listelem->car = value;
-    listelem->cdr = old;
+    listelem->cdr = *head;
+    *head = cell;
   }
-  return *head;
+  return cell;
 }
 
 /** Delete from list
@@ -1864,19 +1870,29 @@ nextelem:
 #endif
   *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
   for(i=0; i<reclen; i++) {
-    if(wg_set_new_field(db, rec, i, matchrec[i]) < 0)
+    if(wg_set_new_field(db, rec, i, matchrec[i]) < 0) {
+      wg_delete_record(db, rec);
       return 0;
+    }
   }
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
+  if(!template_offset) {
+    wg_delete_record(db, rec);
+    return 0;
+  }
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
+  tmpl->refcount = 0;
 
   /* Insert it into the template list */
-  if(!insert_into_list(db, ilist, template_offset))
+  if(!insert_into_list(db, ilist, template_offset)) {
+    wg_free_fixlen_object(db, &dbh->indextmpl_area_header, template_offset);
+    wg_delete_record(db, rec);
     return 0;
+  }
 
   return template_offset;
 }
@@ -2178,6 +2194,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
     }
     tmpl = (wg_index_template *) offsettoptr(db, template_offset);
     fixed_columns = tmpl->fixed_columns;
+    tmpl->refcount++;
   }
 #endif
 
@@ -2212,6 +2229,10 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
         }
         if(match) {
           show_index_error(db, "Identical index already exists on the column");
+#ifdef USE_INDEX_TEMPLATE
+          if(tmpl)
+            tmpl->refcount--;
+#endif
           return -1;
         }
       }
@@ -2236,20 +2257,18 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
   /* Add new index header */
   index_id = wg_alloc_fixlen_object(db, &dbh->indexhdr_area_header);
-
-  for(i=0; i<col_count; i++) {
-    if(!insert_into_list(db, ilist[i], index_id)) {
-      if(i) {
-        /* XXX: need to clean up the earlier inserts :-( */
-        return -1;
-      } else {
-        return -1;
-      }
-    }
+  if(!index_id) {
+    show_index_error(db, "Failed to allocate index header");
+#ifdef USE_INDEX_TEMPLATE
+    if(tmpl && !(--(tmpl->refcount)))
+      remove_index_template(db, template_offset);
+#endif
+    return -1;
   }
 
   /* Set up the header */
   hdr = (wg_index_header *) offsettoptr(db, index_id);
+  memset(hdr, 0, sizeof(wg_index_header));
   hdr->type = type;
   hdr->fields = col_count;
   for(i=0; i < col_count; i++) {
@@ -2257,26 +2276,24 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   }
   hdr->template_offset = template_offset;
 
+  for(i=0; i<col_count; i++) {
+    if(!insert_into_list(db, ilist[i], index_id))
+      goto failed;
+  }
+
   /* create the actual index */
   switch(hdr->type) {
     case WG_INDEX_TYPE_TTREE:
-      create_ttree_index(db, index_id);
+      if(create_ttree_index(db, index_id))
+        goto failed;
       break;
     case WG_INDEX_TYPE_HASH:
     case WG_INDEX_TYPE_HASH_JSON:
       if(create_hash_index(db, index_id))
-        return -1;
+        goto failed;
       break;
-    default:
-      show_index_error(db, "Invalid index type");
-      return -1;
   }
 
-  /* Add to master list */
-  if(!insert_into_list(db,
-     &dbh->index_control_area_header.index_list ,index_id))
-    return -1;
-
 #ifdef USE_INDEX_TEMPLATE
   if(hdr->template_offset) {
     int i;
@@ -2289,54 +2306,42 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
         if(!insert_into_list(db,
           &(dbh->index_control_area_header.index_template_table[i]),
           index_id))
-          return 0;
+          goto failed;
       }
     }
   }
 #endif
 
+  /* Add to master list */
+  if(!insert_into_list(db,
+     &dbh->index_control_area_header.index_list ,index_id))
+    goto failed;
+
   /* increase index counter */
   dbh->index_control_area_header.number_of_indexes++;
-#ifdef USE_INDEX_TEMPLATE
-  if(tmpl)
-    tmpl->refcount++;
-#endif
 
   return 0;
+
+failed:
+  show_index_error(db, "Failed to create the index");
+  remove_index(db, index_id);
+  return -1;
 }
 
 
-/** Drop index by index id
-*
-*  returns:
-*  0 - on success
-*  -1 - error
-*/
-gint wg_drop_index(void *db, gint index_id){
+/*
+ * Remove an index that is not in the master list (any more): take it out
+ * of the column lists and free the storage.
+ * Returns 0 on success
+ * Returns -1 on error
+ */
+static gint remove_index(void *db, gint index_id) {
   int i;
-  wg_index_header *hdr = NULL;
+  wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint *ilist;
   gcell *ilistelem;
   db_memsegment_header* dbh = dbmemsegh(db);
 
-  /* Locate the header */
-  ilist = &dbh->index_control_area_header.index_list;
-  while(*ilist) {
-    ilistelem = (gcell *) offsettoptr(db, *ilist);
-    if(ilistelem->car == index_id) {
-      hdr = (wg_index_header *) offsettoptr(db, index_id);
-      /* Delete current element */
-      delete_from_list(db, ilist);
-      break;
-    }
-    ilist = &ilistelem->cdr;
-  }
-
-  if(!hdr) {
-    show_index_error_nr(db, "Invalid index for delete", index_id);
-    return -1;
-  }
-
   /* Remove the index from index table */
   for(i=0; i<hdr->fields; i++) {
     int column = hdr->rec_field_index[i];
@@ -2406,6 +2411,42 @@ gint wg_drop_index(void *db, gint index_id){
   /* Now free the header */
   wg_free_fixlen_object(db, &dbh->indexhdr_area_header, index_id);
 
+  return 0;
+}
+
+/** Drop index by index id
+*
+*  returns:
+*  0 - on success
+*  -1 - error
+*/
+gint wg_drop_index(void *db, gint index_id){
+  wg_index_header *hdr = NULL;
+  gint *ilist;
+  gcell *ilistelem;
+  db_memsegment_header* dbh = dbmemsegh(db);
+
+  /* Locate the header */
+  ilist = &dbh->index_control_area_header.index_list;
+  while(*ilist) {
+    ilistelem = (gcell *) offsettoptr(db, *ilist);
+    if(ilistelem->car == index_id) {
+      hdr = (wg_index_header *) offsettoptr(db, index_id);
+      /* Delete current element */
+      delete_from_list(db, ilist);
+      break;
+    }
+    ilist = &ilistelem->cdr;
+  }
+
+  if(!hdr) {
+    show_index_error_nr(db, "Invalid index for delete", index_id);
+    return -1;
+  }
+
+  if(remove_index(db, index_id))
+    return -1;
+
   /* decrement index counter */
   dbh->index_control_area_header.number_of_indexes--;
 
-- 
2.43.0


From 8698ec7aed3fac9363500109ca6a675c87394e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:49 +0000
Subject: [PATCH 18/94] fix: update each index once per referring record when a
 referenced record changes

---
 Db/dbdata.c  |  27 ++++++--------
 Db/dbindex.c | 100 +++++++++++++++++++++++++++++++++++++++++++++++++++
 Db/dbindex.h |   4 +++
 3 files changed, 115 insertions(+), 16 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 3fd3afd..cee9e00 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -539,8 +539,8 @@ static gint update_backlink_index_entries(void *db, gint *record,
    */
   for(head=0; head<tail; head++) {
     gint *rec = (gint *) offsettoptr(db, queue[head]);
-    gint col, length;
-    int processed = (rec == record); /* the caller updates fieldnr */
+    gint col, length, count = 0;
+    gint cols[MAX_INDEXED_FIELDNR + 1];
 
     if(is_special_record(rec))
       continue;
@@ -550,21 +550,16 @@ static gint update_backlink_index_entries(void *db, gint *record,
 
     for(col=0; col<length; col++) {
       gint data = *(rec + RECORD_HEADER_GINTS + col);
-      if(!dbh->index_control_area_header.index_table[col])
-        continue;
-      if(rec == record && col == fieldnr)
-        continue;
-      if(!isptr(data) || !isdatarec(data) ||
-        wg_ginthash_getkey(db, visited, decode_datarec_offset(data), &val))
-        continue;
-      /* An index on several columns may already have the record, if
-       * this is not the first field we're processing.
-       */
-      if((!add || processed) && wg_index_del_field(db, rec, col) < -1)
-        goto done;
-      if(add && wg_index_add_field(db, rec, col) < -1)
+      if(dbh->index_control_area_header.index_table[col] &&
+        isptr(data) && isdatarec(data) &&
+        !wg_ginthash_getkey(db, visited, decode_datarec_offset(data), &val))
+        cols[count++] = col;
+    }
+    if(count) {
+      gint skip = (rec == record ? fieldnr : -1);
+      if((add ? wg_index_add_fields(db, rec, cols, count, skip) :
+        wg_index_del_fields(db, rec, cols, count, skip)) < -1)
         goto done;
-      processed = 1;
     }
   }
   err = 0;
diff --git a/Db/dbindex.c b/Db/dbindex.c
index e47805e..42eeb88 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2820,6 +2820,75 @@ gint wg_index_add_field(void *db, void *rec, gint column) {
   return 0;
 }
 
+/*
+ * Check if the index is on any of the columns.
+ */
+static int index_uses_columns(wg_index_header *hdr, gint *columns,
+  gint col_count) {
+  gint i, j;
+  for(i=0; i<hdr->fields; i++) {
+    for(j=0; j<col_count; j++) {
+      if(hdr->rec_field_index[i] == columns[j])
+        return 1;
+    }
+  }
+  return 0;
+}
+
+/*
+ * Check if the contents of the index depend on the column, either because
+ * it is indexed or because it has a fixed value in the template.
+ */
+static int index_depends_on(void *db, wg_index_header *hdr, gint column) {
+  if(column < 0)
+    return 0;
+  if(index_uses_columns(hdr, &column, 1))
+    return 1;
+#ifdef USE_INDEX_TEMPLATE
+  if(hdr->template_offset) {
+    wg_index_template *tmpl = \
+      (wg_index_template *) offsettoptr(db, hdr->template_offset);
+    void *matchrec = offsettoptr(db, tmpl->offset_matchrec);
+    if(column < wg_get_record_len(db, matchrec) &&\
+      wg_get_encoded_type(db, wg_get_field(db, matchrec, column)) !=\
+        WG_VARTYPE)
+      return 1;
+  }
+#endif
+  return 0;
+}
+
+/** Add data of several fields in all indexes
+ * Similar to wg_index_add_field(), but an index that covers more than one
+ * of the given columns is updated once. Indexes that depend on skipcolumn
+ * are not touched (use -1 if there is no such column).
+ * returns 0 for success
+ * returns -2 for error (index is no longer consistent)
+ */
+gint wg_index_add_fields(void *db, void *rec, gint *columns, gint col_count,
+  gint skipcolumn) {
+  gint ilist;
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint reclen = wg_get_record_len(db, rec);
+
+  ilist = dbh->index_control_area_header.index_list;
+  while(ilist) {
+    gcell *ilistelem = (gcell *) offsettoptr(db, ilist);
+    wg_index_header *hdr = \
+      (wg_index_header *) offsettoptr(db, ilistelem->car);
+    if(reclen > hdr->rec_field_index[hdr->fields - 1] &&\
+      index_uses_columns(hdr, columns, col_count) &&\
+      !index_depends_on(db, hdr, skipcolumn)) {
+      if(MATCH_TEMPLATE(db, hdr, rec)) {
+        INDEX_ADD_ROW(db, hdr, ilistelem->car, rec)
+      }
+    }
+    ilist = ilistelem->cdr;
+  }
+
+  return 0;
+}
+
 /** Add data of one record to all indexes
  * Convinience function to add an entire record into
  * all indexes in the database.
@@ -2983,6 +3052,37 @@ gint wg_index_del_field(void *db, void *rec, gint column) {
   return 0;
 }
 
+/** Delete data of several fields in all indexes
+ * Similar to wg_index_del_field(), but an index that covers more than one
+ * of the given columns is updated once. Indexes that depend on skipcolumn
+ * are not touched (use -1 if there is no such column).
+ * returns 0 for success
+ * returns -2 for error (index is no longer consistent)
+ */
+gint wg_index_del_fields(void *db, void *rec, gint *columns, gint col_count,
+  gint skipcolumn) {
+  gint ilist;
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint reclen = wg_get_record_len(db, rec);
+
+  ilist = dbh->index_control_area_header.index_list;
+  while(ilist) {
+    gcell *ilistelem = (gcell *) offsettoptr(db, ilist);
+    wg_index_header *hdr = \
+      (wg_index_header *) offsettoptr(db, ilistelem->car);
+    if(reclen > hdr->rec_field_index[hdr->fields - 1] &&\
+      index_uses_columns(hdr, columns, col_count) &&\
+      !index_depends_on(db, hdr, skipcolumn)) {
+      if(MATCH_TEMPLATE(db, hdr, rec)) {
+        INDEX_REMOVE_ROW(db, hdr, ilistelem->car, rec)
+      }
+    }
+    ilist = ilistelem->cdr;
+  }
+
+  return 0;
+}
+
 /* Delete data of one record from all indexes
  * Should be called from wg_delete_record()
  * returns 0 for success
diff --git a/Db/dbindex.h b/Db/dbindex.h
index cbb46f2..4d4a1f4 100644
--- a/Db/dbindex.h
+++ b/Db/dbindex.h
@@ -143,8 +143,12 @@ gint wg_match_template(void *db, wg_index_template *tmpl, void *rec);
 #endif
 
 gint wg_index_add_field(void *db, void *rec, gint column);
+gint wg_index_add_fields(void *db, void *rec, gint *columns, gint col_count,
+  gint skipcolumn);
 gint wg_index_add_rec(void *db, void *rec);
 gint wg_index_del_field(void *db, void *rec, gint column);
+gint wg_index_del_fields(void *db, void *rec, gint *columns, gint col_count,
+  gint skipcolumn);
 gint wg_index_del_rec(void *db, void *rec);
 
 
-- 
2.43.0


From 4c1b04e117098154e6b6930e8af0eb0f8eb8577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:56 +0000
Subject: [PATCH 19/94] fix: adding a storage area could change the length of a
 small object

---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 2e9bf9b..7abf2a6 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -665,7 +665,7 @@ gint init_subarea_freespace(void* db, void* area_header, gint arrayindex) {
       nextobj = dv + dvsize;
       nextobjhead = dbfetch(db, nextobj);
       if( isnormalusedobject(nextobjhead) )
-        dbstore(db, nextobj, makeusedobjectsizeprevfree(getusedobjectsize(nextobjhead)));
+        dbstore(db, nextobj, makeusedobjectsizeprevfree(nextobjhead));
       if (freelist!=0) dbstore(db,freelist+2*sizeof(gint),dv); // update prev ptr
       dbstore(db,dv+sizeof(gint),freelist); // store previous freelist
       dbstore(db,dv+2*sizeof(gint),dbaddr(db,&freebuckets[dvindex])); // store ptr to previous
-- 
2.43.0


From d3109d1ff1cf4f241602a60e070fe4737fc4b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:31 +0000
Subject: [PATCH 20/94] fix: queries with contradicting bounds on an indexed
 column returned garbage

---
 Db/dbquery.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index f533691..54bf216 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -715,7 +715,7 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
   }
 
   if(index_id > 0) {
-    int start_inclusive = 0, end_inclusive = 0;
+    int start_inclusive = 0, end_inclusive = 0, is_empty = 0;
     gint start_bound = WG_ILLEGAL; /* encoded values */
     gint end_bound = WG_ILLEGAL;
 
@@ -812,18 +812,18 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
       }
     }
 
-    /* Simple sanity check. Is start_bound greater than end_bound? */
-    if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
-      WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
-      /* return empty query */
-      query->argc = 0;
-      query->arglist = NULL;
-      free(full_arglist);
-      return query;
+    /* Simple sanity check. Is the range between start_bound and end_bound
+     * empty? In that case the query has no starting node and returns no rows.
+     */
+    if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL) {
+      gint cmp = WG_COMPARE(db, start_bound, end_bound);
+      if(cmp == WG_GREATER ||\
+        (cmp == WG_EQUAL && !(start_inclusive && end_inclusive)))
+        is_empty = 1;
     }
 
     /* Now find the bounding nodes for the query */
-    if(find_ttree_bounds(db, index_id, col,
+    if(!is_empty && find_ttree_bounds(db, index_id, col,
         start_bound, end_bound, start_inclusive, end_inclusive,
         &query->curr_offset, &query->curr_slot, &query->end_offset,
         &query->end_slot)) {
-- 
2.43.0


From 78a57c85840eb3b20ed4954d03d53f8c72792e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:03 +0000
Subject: [PATCH 21/94] fix: long companion strings could detach other strings
 from the string hash or leak on failure

---
 Db/dbdata.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index cee9e00..3b950c0 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2621,6 +2621,7 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
   gint lenrest;
   char* lstrptr;
   gint old=0;
+  gint extra=0;
   int hash;
   gint hasharrel;
   gint res;
@@ -2643,6 +2644,16 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     //printf("str not found in hash\n");
     //printf("hasharrel 1 %d \n",hasharrel);
     // equal string not found in hash
+    // if extrastr exists, encode it first: it may itself be stored
+    // in the same bucket of the hash
+    if (extrastr!=NULL) {
+      extra=wg_encode_str(db,extrastr,NULL);
+      if (extra==WG_ILLEGAL) {
+        //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
+        return 0;
+      }
+      hasharrel=dbfetch(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash));
+    }
     // allocate a new string
     lengints=length/sizeof(gint);  // 7/4=1, 8/4=2, 9/4=2,
     lenrest=length%sizeof(gint);  // 7%4=3, 8%4=0, 9%4=1,
@@ -2652,6 +2663,7 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
                     lengints+LONGSTR_HEADER_GINTS);
     if (!offset) {
       //show_data_error_nr(db,"cannot create a data string/blob of size ",length);
+      if (extra) wg_free_encoded(db,extra);
       return 0;
     }
     lstrptr=(char*)(offsettoptr(db,offset));
@@ -2662,21 +2674,12 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
 /*    for(i=0;i<lenrest;i++) {*/
       *(lstrptr+length+(LONGSTR_HEADER_GINTS*sizeof(gint))+i)=0;
     }
-    // if extrastr exists, encode extrastr and store ptr to longstr record field
-    if (extrastr!=NULL) {
-      tmp=wg_encode_str(db,extrastr,NULL);
-      if (tmp==WG_ILLEGAL) {
-        //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
-        return 0;
-      }
-      dbstore(db,offset+LONGSTR_EXTRASTR_POS*sizeof(gint),tmp);
-      // increase extrastr refcount
-      if(islongstr(tmp)) {
-        gint *strptr = (gint *) offsettoptr(db,decode_longstr_offset(tmp));
-        ++(*(strptr+LONGSTR_REFCOUNT_POS));
-      }
-    } else {
-      dbstore(db,offset+LONGSTR_EXTRASTR_POS*sizeof(gint),0); // no extrastr ptr
+    // store ptr to extrastr (0 if there is none) to longstr record field
+    dbstore(db,offset+LONGSTR_EXTRASTR_POS*sizeof(gint),extra);
+    // increase extrastr refcount
+    if(extra && islongstr(extra)) {
+      gint *strptr = (gint *) offsettoptr(db,decode_longstr_offset(extra));
+      ++(*(strptr+LONGSTR_REFCOUNT_POS));
     }
     // store metainfo: full obj len and str len difference, plus type
     tmp=(getusedobjectsize(*((gint*)lstrptr))-length)<<LONGSTR_META_LENDIFSHFT;
-- 
2.43.0


From 2bc419cac56d0fadbd79f6d3d38c11d188a2d040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 22/94] fix: journal encoded blobs, empty companion strings,
 and companion strings as part of the value

---
 Db/dbdata.c | 80 ++++++++++++++++++++++++++++++++---------------------
 Db/dblog.c  |  9 ++++--
 2 files changed, 54 insertions(+), 35 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 3b950c0..a13c58f 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -90,6 +90,7 @@ static long ymd_to_scalar (unsigned yr, unsigned mo, unsigned day);
 static void scalar_to_ymd (long scalar, unsigned *yr, unsigned *mo, unsigned *day);
 
 static gint free_field_encoffset(void* db,gint encoffset);
+static gint encode_unistr(void* db, const char* str, const char* lang, gint type);
 static gint find_create_longstr(void* db, const char* data, const char* extrastr, gint type, gint length);
 
 #ifdef USE_CHILD_DB
@@ -2510,6 +2511,32 @@ Universal funs for string, xmlliteral, uri, blob
 
 
 gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
+  gint res;
+
+#ifdef USE_DBLOG
+  /* Log before allocating. */
+  if(dbmemsegh(db)->logging.active) {
+    gint extlen = 0;
+    /* include the terminating 0, so that an empty string is not lost */
+    if(lang) extlen = strlen(lang) + 1;
+    if(wg_log_encode(db, type, str, strlen(str), lang, extlen))
+      return WG_ILLEGAL;
+  }
+#endif
+  res=encode_unistr(db,str,lang,type);
+#ifdef USE_DBLOG
+  if(dbmemsegh(db)->logging.active) {
+    if(wg_log_encval(db, res))
+      return WG_ILLEGAL; /* journal error */
+  }
+#endif
+  return res;
+}
+
+/** Store an universal string without logging it.
+*
+*/
+static gint encode_unistr(void* db, const char* str, const char* lang, gint type) {
   gint offset;
   gint len;
 #ifdef USETINYSTR
@@ -2520,15 +2547,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
   char* dendptr;
 
   len=(gint)(strlen(str));
-#ifdef USE_DBLOG
-  /* Log before allocating. */
-  if(dbmemsegh(db)->logging.active) {
-    gint extlen = 0;
-    if(lang) extlen = strlen(lang);
-    if(wg_log_encode(db, type, str, len, lang, extlen))
-      return WG_ILLEGAL;
-  }
-#endif
 #ifdef USETINYSTR
 /* XXX: add tinystr support to logging */
 #ifdef USE_DBLOG
@@ -2550,11 +2568,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     offset=alloc_shortstr(db);
     if (!offset) {
       show_data_error_str(db,"cannot store a string in wg_encode_unistr",str);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
     // loop over bytes, storing them starting from offset
@@ -2567,31 +2580,14 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     for(sptr=(char *) str; (*dptr=*sptr)!=0; sptr++, dptr++) {}; // copy string
     for(dptr++; dptr<dendptr; dptr++) { *dptr=0; }; // zero the rest
     // store offset to field
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_shortstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
-#endif
     return encode_shortstr_offset(offset);
     //dbstore(db,ptrtoffset(record)+RECORD_HEADER_GINTS+fieldnr,encode_shortstr_offset(offset));
   } else {
     offset=find_create_longstr(db,str,lang,type,len+1);
     if (!offset) {
       show_data_error_nr(db,"cannot create a string of size ",len);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_longstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
-#endif
     return encode_longstr_offset(offset);
   }
 }
@@ -2602,11 +2598,31 @@ gint wg_encode_uniblob(void* db, const char* str, const char* lang, gint type, g
 
   if (0) {
   } else {
+#ifdef USE_DBLOG
+    /* Log before allocating. */
+    if(dbmemsegh(db)->logging.active) {
+      gint extlen = 0;
+      if(lang) extlen = strlen(lang) + 1;
+      if(wg_log_encode(db, type, str, len, lang, extlen))
+        return WG_ILLEGAL;
+    }
+#endif
     offset=find_create_longstr(db,str,lang,type,len);
     if (!offset) {
       show_data_error_nr(db,"cannot create a blob of size ",len);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        wg_log_encval(db, WG_ILLEGAL);
+      }
+#endif
       return WG_ILLEGAL;
     }
+#ifdef USE_DBLOG
+    if(dbmemsegh(db)->logging.active) {
+      if(wg_log_encval(db, encode_longstr_offset(offset)))
+        return WG_ILLEGAL; /* journal error */
+    }
+#endif
     return encode_longstr_offset(offset);
   }
 }
@@ -2647,7 +2663,7 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     // if extrastr exists, encode it first: it may itself be stored
     // in the same bucket of the hash
     if (extrastr!=NULL) {
-      extra=wg_encode_str(db,extrastr,NULL);
+      extra=encode_unistr(db,extrastr,NULL,WG_STRTYPE);
       if (extra==WG_ILLEGAL) {
         //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
         return 0;
diff --git a/Db/dblog.c b/Db/dblog.c
index b9c5a47..ffa1837 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -552,7 +552,7 @@ gint recover_encode(void *db, FILE *f, gint type)
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       GET_LOG_VARINT(db, f, length, WG_ILLEGAL)
       GET_LOG_VARINT(db, f, extlength, WG_ILLEGAL)
@@ -587,7 +587,10 @@ gint recover_encode(void *db, FILE *f, gint type)
         extbuf = NULL;
       }
 
-      enc = wg_encode_unistr(db, strbuf, extbuf, type);
+      if(type == WG_BLOBTYPE)
+        enc = wg_encode_uniblob(db, strbuf, extbuf, type, length);
+      else
+        enc = wg_encode_unistr(db, strbuf, extbuf, type);
       free(strbuf);
       if(extbuf)
         free(extbuf);
@@ -1100,7 +1103,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       buflen = 1 + 2*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
-- 
2.43.0


From 3683f1ce5f806170b27889b9a5694c032ca5680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 23/94] fix: large integers were cut to 32 bits or left out in
 the journal

---
 Db/dblog.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index ffa1837..c6fe060 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -532,12 +532,12 @@ gint recover_encode(void *db, FILE *f, gint type)
 {
   char *strbuf, *extbuf;
   gint length = 0, extlength = 0, enc;
-  int intval;
+  gint intval;
   double doubleval;
 
   switch(type) {
     case WG_INTTYPE:
-      if(fread((char *) &intval, sizeof(int), 1, f) != 1) {
+      if(fread((char *) &intval, sizeof(gint), 1, f) != 1) {
         show_log_error(db, "Failed to read log entry");
         return WG_ILLEGAL;
       }
@@ -1082,14 +1082,14 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       return 0;
       break;
     case WG_INTTYPE:
-      /* int argument */
-      if(fits_smallint(*((int *) data))) {
+      /* gint argument */
+      if(fits_smallint(*((gint *) data))) {
         return 0; /* self-contained, don't log */
       } else {
-        buflen = 1 + sizeof(int);
+        buflen = 1 + sizeof(gint);
         buf = (unsigned char *) malloc(buflen);
         optr = buf + 1;
-        *((int *) optr) = *((int *) data);
+        memcpy(optr, data, sizeof(gint));
       }
       break;
     case WG_DOUBLETYPE:
@@ -1097,7 +1097,7 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       buflen = 1 + sizeof(double);
       buf = (unsigned char *) malloc(buflen);
       optr = buf + 1;
-      *((double *) optr) = *((double *) data);
+      memcpy(optr, data, sizeof(double));
       break;
     case WG_STRTYPE:
     case WG_URITYPE:
-- 
2.43.0


From 1b0a4a3a768d67448917411ddb43fbf82573842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 24/94] fix: replaying a journal mixed up storage that was
 reused during the session

---
 Db/dbhash.c |  8 ++++++++
 Db/dblog.c  | 18 ++++++++----------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 6426c7a..ffb7890 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -615,6 +615,7 @@ void *wg_ginthash_init(void *db) {
 }
 
 /** Add a key/value pair to the hash table.
+ *  If the key exists already, the value is replaced.
  *  tbl should be created with wg_ginthash_init()
  *  Returns 0 on success
  *  Returns -1 on failure
@@ -635,6 +636,13 @@ gint wg_ginthash_addkey(void *db, void *tbl, gint key, gint val) {
     ((ext_ginthash *)tbl)->directory[hash] = bucket;
   }
   else {
+    int i;
+    for(i=0; i<bucket->fill; i++) {
+      if(bucket->key[i] == key) {
+        bucket->value[i] = val;
+        return 0;
+      }
+    }
     add_to_bucket(bucket, key, val);
     while(bucket->fill > GINTHASH_BUCKETCAP) {
       ginthash_bucket *newb;
diff --git a/Db/dblog.c b/Db/dblog.c
index c6fe060..2abe11b 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -625,11 +625,11 @@ static gint recover_journal(void *db, FILE *f, void *table)
             return show_log_error(db, "Failed to create a new record");
           }
           newoffset = ptrtooffset(db, rec);
-          if(newoffset != offset) {
-            if(add_tran_offset(db, table, offset, newoffset)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          /* Always add the translation, an earlier one may exist
+           * if the storage was reused. */
+          if(add_tran_offset(db, table, offset, newoffset)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
@@ -650,11 +650,9 @@ static gint recover_journal(void *db, FILE *f, void *table)
           if(newenc == WG_ILLEGAL) {
             return -1;
           }
-          if(newenc != enc) {
-            if(add_tran_enc(db, table, enc, newenc)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          if(add_tran_enc(db, table, enc, newenc)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
-- 
2.43.0


From 6dd343f74e3ec0f97cb7631c3169898fe1e10c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 25/94] fix: operations that failed during the session were
 carried out when replaying the journal

---
 Db/dblog.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 2abe11b..1333202 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -618,9 +618,8 @@ static gint recover_journal(void *db, FILE *f, void *table)
       case WG_JOURNAL_ENTRY_CRE:
         GET_LOG_VARINT(db, f, length, -1)
         GET_LOG_VARINT(db, f, offset, -1)
-        rec = wg_create_record(db, length);
-        if(offset != 0) {
-          /* XXX: should we have even tried if this failed earlier? */
+        if(offset != 0) { /* creation may have failed earlier */
+          rec = wg_create_record(db, length);
           if(!rec) {
             return show_log_error(db, "Failed to create a new record");
           }
@@ -645,7 +644,10 @@ static gint recover_journal(void *db, FILE *f, void *table)
         newenc = recover_encode(db, f,
           (unsigned char) c & WG_JOURNAL_ENTRY_TYPEMASK);
         GET_LOG_VARINT(db, f, enc, -1)
-        if(enc != WG_ILLEGAL) {
+        if(enc == WG_ILLEGAL) {
+          if(newenc != WG_ILLEGAL)
+            wg_free_encoded(db, newenc);
+        } else {
           /* Encode was supposed to succeed */
           if(newenc == WG_ILLEGAL) {
             return -1;
-- 
2.43.0


From 4949b3a7d9167872ea42b3b25cc2d859533d735c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 26/94] fix: restoring record metadata from the journal left
 records in indexes they do not belong to

---
 Db/dblog.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dblog.c b/Db/dblog.c
index 1333202..b16d94f 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -59,6 +59,7 @@ extern "C" {
 #include "dballoc.h"
 #include "dbdata.h"
 #include "dbhash.h"
+#include "dbindex.h"
 
 /* ====== Private headers and defs ======== */
 
@@ -674,7 +675,12 @@ static gint recover_journal(void *db, FILE *f, void *table)
         GET_LOG_VARINT(db, f, meta, -1)
         newoffset = translate_offset(db, table, offset);
         rec = offsettoptr(db, newoffset);
+        /* The metadata decides which indexes the record belongs to */
+        if(!is_special_record(rec) && wg_index_del_rec(db, rec) < -1)
+          return show_log_error(db, "Failed to update indexes");
         *((gint *) rec + RECORD_META_POS) = meta;
+        if(!is_special_record(rec) && wg_index_add_rec(db, rec) < -1)
+          return show_log_error(db, "Failed to update indexes");
         break;
       default:
         return show_log_error(db, "Invalid log entry");
-- 
2.43.0


From 902c7db371fe5550ec87984537cb8844a6b11270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 27/94] fix: triples created as query parameters became data
 when replaying the journal

---
 Db/dbschema.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index 58575d8..b826755 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -68,11 +68,18 @@ static gint show_schema_error(void *db, char *errmsg);
  */
 void *wg_create_triple(void *db, gint subj, gint prop, gint ob, gint isparam) {
   void *rec = wg_create_raw_record(db, WG_SCHEMA_TRIPLE_SIZE);
-  gint *meta;
+  gint *metap, meta;
   if(rec) {
-    meta = ((gint *) rec + RECORD_META_POS);
+    metap = ((gint *) rec + RECORD_META_POS);
     if(isparam) {
-      *meta |= (RECORD_META_NOTDATA|RECORD_META_MATCH);
+      meta = *metap | (RECORD_META_NOTDATA|RECORD_META_MATCH);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        if(wg_log_set_meta(db, rec, meta))
+          return NULL;
+      }
+#endif
+      *metap = meta;
     } else if(wg_index_add_rec(db, rec) < -1) {
       return NULL; /* index error */
     }
-- 
2.43.0


From 7a83d2f57b795816b9d1a4a169990a83e376f4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 28/94] fix: do not write to a closed file descriptor after
 failing to write the journal

---
 Db/dblog.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index b16d94f..796b34f 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -991,8 +991,10 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
 #else
   if(_write(ld->fd, (char *) buf, buflen) != buflen) {
 #endif
+    int fd = ld->fd;
+    ld->fd = -1; /* the descriptor number may be reused */
     show_log_error(db, "Error writing to log file");
-    JOURNAL_FAIL(ld->fd, -5)
+    JOURNAL_FAIL(fd, -5)
   }
 
   return 0;
-- 
2.43.0


From c7bf5aa48fc2ad29d40395daea4d0b4175417e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 29/94] fix: file descriptor leak when a replayed file is not a
 journal

---
 Db/dblog.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index 796b34f..9817b67 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -895,8 +895,12 @@ gint wg_replay_log(void *db, char *filename)
   }
 
   if(check_journal(db, fd)) {
-    err = -1;
-    goto abort2;
+#ifndef _WIN32
+    close(fd);
+#else
+    _close(fd);
+#endif
+    return -1;
   }
 
   active = dbh->logging.active;
@@ -913,6 +917,7 @@ gint wg_replay_log(void *db, char *filename)
   tran_tbl = wg_ginthash_init(db);
   if(!tran_tbl) {
     show_log_error(db, "Failed to create log translation table");
+    dbh->logging.active = active;
     err = -1;
     goto abort1;
   }
@@ -929,7 +934,6 @@ abort0:
 abort1:
   fclose(f);
 
-abort2:
   if(!err && active) {
     if(wg_start_logging(db)) {
       show_log_error(db, "Log restored but failed to reactivate logging");
-- 
2.43.0


From 1710d669c19ee9416d66cb9a5d91999e8265cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:50 +0000
Subject: [PATCH 30/94] fix: wg_dump reported success for incomplete dumps and
 leaked the file handle

---
 Db/dbdump.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index ecab351..7fbb371 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -85,7 +85,7 @@ gint wg_dump(void * db,char fileName[]) {
 gint wg_dump_internal(void * db, char fileName[], int locking) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = dbh->free; /* first unused offset - 0 = db size */
+  gint dbsize;
 #ifdef USE_DBLOG
   gint active;
 #endif
@@ -96,6 +96,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
 #ifdef CHECK
   if(dbh->extdbs.count != 0) {
     show_dump_error(db, "Database contains external references");
+    return -1;
   }
 #endif
 
@@ -115,6 +116,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_rlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -124,6 +126,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_wlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -134,6 +137,9 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
+  /* The size may change up to the moment we acquire the lock */
+  dbsize = dbh->free; /* first unused offset - 0 = db size */
+
   /* Compute the CRC32 of the used area */
   crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
 
@@ -146,6 +152,10 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     }
   }
 
+  /* The dump is complete only if all of the data has been written out */
+  if(fclose(f))
+    err = -1;
+
   if(err)
     show_dump_error(db, "Error writing file");
 
@@ -160,7 +170,8 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
 #else
   /* restart logging */
   if(active) {
-    dbh->logging.dirty = 0;
+    if(!err)
+      dbh->logging.dirty = 0; /* otherwise continue the current journal */
     if(wg_start_logging(db)) {
       err = -2; /* Failed to re-initialize log */
     }
@@ -174,9 +185,6 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  fflush(f);
-  fclose(f);
-
   return err;
 }
 
-- 
2.43.0


From 87572d99a27a40ad8bc1c932f7efa5d5c02588fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:11 +0000
Subject: [PATCH 31/94] fix: import verifies the dump before overwriting the
 database and keeps the identity of the segment

---
 Db/dbdump.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 7fbb371..726ecfc 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -288,12 +288,18 @@ gint wg_import_dump(void * db,char fileName[]) {
   db_memsegment_header* dumph;
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = -1, newsize;
+  gint dbsize = -1, maxsize;
+  gint newsize, newkey, newadr;
   gint err = -1;
 #ifdef USE_DBLOG
   gint active = dbh->logging.active;
+  gint serial = dbh->logging.serial;
 #endif
 
+  /* Do not touch the database unless the dump file is known to be intact. */
+  if(wg_check_dump(db, fileName, &dbsize, &maxsize))
+    return -1;
+  dbsize = -1;
 
   /* Attempt to open the dump file */
 #ifdef _WIN32
@@ -305,10 +311,7 @@ gint wg_import_dump(void * db,char fileName[]) {
     return -1;
   }
 
-  /* Examine the dump header. We only read the size, it is
-   * implied that the integrity and compatibility were verified
-   * earlier.
-   */
+  /* Examine the dump header. */
   dumph = (db_memsegment_header *) malloc(sizeof(db_memsegment_header));
   if(!dumph) {
     show_dump_error(db, "malloc error in wg_import_dump");
@@ -320,7 +323,7 @@ gint wg_import_dump(void * db,char fileName[]) {
     dbsize = dumph->free;
     if(dumph->extdbs.count != 0) {
       show_dump_error(db, "Dump contains external references");
-      goto abort;
+      dbsize = -1;
     }
   }
   if(dumph) free(dumph);
@@ -331,8 +334,12 @@ gint wg_import_dump(void * db,char fileName[]) {
   if(dbh->size < dbsize) {
     show_dump_error(db, "Data does not fit in shared memory area");
   } else if(dbsize > 0) {
-    /* We have a compatible dump file. */
+    /* We have a compatible dump file. Some of the header
+     * fields describe the segment and not its contents.
+     */
     newsize = dbh->size;
+    newkey = dbh->key;
+    newadr = dbh->initialadr;
     fseek(f, 0, SEEK_SET);
     if(fread(dbmemseg(db), dbsize, 1, f) != 1) {
       show_dump_error(db, "Error reading dump file");
@@ -340,11 +347,12 @@ gint wg_import_dump(void * db,char fileName[]) {
     } else {
       err = 0;
       dbh->size = newsize;
+      dbh->key = newkey;
+      dbh->initialadr = newadr;
       dbh->checksum = 0;
     }
   }
 
-abort:
   fclose(f);
 
   /* any errors up to now? */
@@ -355,6 +363,7 @@ abort:
   /* restart logging */
   dbh->logging.dirty = 0;
   dbh->logging.active = 0;
+  dbh->logging.serial = serial; /* known to the open handles */
   if(active) { /* state inherited from memory */
     if(wg_start_logging(db)) {
       return -2; /* Failed to re-initialize log */
-- 
2.43.0


From 840a48a91b5259daf56a859ab74ed94ec41250b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:07 +0000
Subject: [PATCH 32/94] fix: dropping a T-tree index without chained nodes
 never freed its nodes

---
 Db/dbindex.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 42eeb88..d452e47 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1429,6 +1429,19 @@ static gint create_ttree_index(void *db, gint index_id){
   return 0;
 }
 
+#ifndef TTREE_CHAINED_NODES
+/** Free the nodes of a (sub)tree, children first.
+ */
+static void free_ttree_nodes(void *db, gint offset) {
+  struct wg_tnode *node;
+  if(!offset) return;
+  node = (struct wg_tnode *) offsettoptr(db, offset);
+  free_ttree_nodes(db, node->left_child_offset);
+  free_ttree_nodes(db, node->right_child_offset);
+  wg_free_tnode(db, offset);
+}
+#endif
+
 /** Drop T-tree index by id
 *  Frees the memory in the T-node area
 *  returns:
@@ -1436,7 +1449,9 @@ static gint create_ttree_index(void *db, gint index_id){
 *  -1 - error
 */
 static gint drop_ttree_index(void *db, gint index_id){
+#ifdef TTREE_CHAINED_NODES
   struct wg_tnode *node;
+#endif
   wg_index_header *hdr;
 
   hdr = (wg_index_header *) offsettoptr(db, index_id);
@@ -1447,8 +1462,8 @@ static gint drop_ttree_index(void *db, gint index_id){
    * traversal often runs down and up parent-child chains, which means
    * that some parents cannot be deleted before their children.
    */
-  node = NULL;
 #ifdef TTREE_CHAINED_NODES
+  node = NULL;
   if(TTREE_MIN_NODE(hdr))
     node = (struct wg_tnode *) offsettoptr(db, TTREE_MIN_NODE(hdr));
   else if(TTREE_ROOT_NODE(hdr)) /* normally this does not happen */
@@ -1462,8 +1477,7 @@ static gint drop_ttree_index(void *db, gint index_id){
     wg_free_tnode(db, deleteme);
   }
 #else
-  /* XXX: not implemented */
-  show_index_error(db, "Warning: T-node memory cannot be deallocated");
+  free_ttree_nodes(db, TTREE_ROOT_NODE(hdr));
 #endif
 
   return 0;
-- 
2.43.0


From 7e28fc49123d9ce2a4dd966ae3f0e19c4c1822fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:48 +0000
Subject: [PATCH 33/94] fix: dates and times that do not exist were accepted
 and stored as other ones

---
 Db/dbdata.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index a13c58f..6f45fe5 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -87,6 +87,7 @@ static int isleap(unsigned yr);
 static unsigned months_to_days (unsigned month);
 static long years_to_days (unsigned yr);
 static long ymd_to_scalar (unsigned yr, unsigned mo, unsigned day);
+static int checked_ymd_to_scalar (int yr, int mo, int day);
 static void scalar_to_ymd (long scalar, unsigned *yr, unsigned *mo, unsigned *day);
 
 static gint free_field_encoffset(void* db,gint encoffset);
@@ -1817,8 +1818,8 @@ int wg_strp_iso_date(void* db, const char* inbuf) {
   int res;
 
   sres=sscanf(inbuf,"%4d-%2d-%2d",&yr,&mo,&day);
-  if (sres<3 || yr<0 || mo<1 || mo>12 || day<1 || day>31) return -1;
-  res=ymd_to_scalar(yr,mo,day);
+  if (sres<3) return -1;
+  res=checked_ymd_to_scalar(yr,mo,day);
   return res;
 }
 
@@ -1831,20 +1832,20 @@ int wg_strp_iso_time(void* db, const char* inbuf) {
   int prt=0;
 
   sres=sscanf(inbuf,"%2d:%2d:%2d.%2d",&hr,&min,&sec,&prt);
-  if (sres<3 || hr<0 || hr>24 || min<0 || min>60 || sec<0 || sec>60 || prt<0 || prt>99) return -1;
-  return hr*(60*60*100)+min*(60*100)+sec*100+prt;
+  if (sres<3) return -1;
+  return wg_hms_to_time(db,hr,min,sec,prt);
 }
 
 
 int wg_ymd_to_date(void* db, int yr, int mo, int day) {
-  if (yr<0 || mo<1 || mo>12 || day<1 || day>31) return -1;
-  return ymd_to_scalar(yr,mo,day);
+  return checked_ymd_to_scalar(yr,mo,day);
 }
 
 
 int wg_hms_to_time(void* db, int hr, int min, int sec, int prt) {
-  if (hr<0 || hr>24 || min<0 || min>60 || sec<0 || sec>60 || prt<0 || prt>99)
+  if (hr<0 || hr>24 || min<0 || min>59 || sec<0 || sec>60 || prt<0 || prt>99)
     return -1;
+  if (hr==24 && (min || sec || prt)) return -1; /* 24:00:00 ends the day */
   return hr*(60*60*100)+min*(60*100)+sec*100+prt;
 }
 
@@ -2964,6 +2965,16 @@ static long ymd_to_scalar (unsigned yr, unsigned mo, unsigned day) {
   return scalar;
 }
 
+/* Returns -1 if there is no such day or it does not fit in a date value */
+static int checked_ymd_to_scalar (int yr, int mo, int day) {
+  static const int mdays[] = {31,29,31,30,31,30,31,31,30,31,30,31};
+  long scalar;
+  if (yr<1 || mo<1 || mo>12 || day<1 || day>mdays[mo-1]) return -1;
+  if (mo==2 && day==29 && !isleap(yr)) return -1;
+  scalar = ymd_to_scalar(yr,mo,day);
+  return fits_date(scalar) ? (int)scalar : -1;
+}
+
 static void scalar_to_ymd (long scalar, unsigned *yr, unsigned *mo, unsigned *day) {
   unsigned n;                /* compute inverse of years_to_days() */
 
-- 
2.43.0


From 28350a2e577b7317250e4b706602278bbf50c9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:48 +0000
Subject: [PATCH 34/94] fix: date, time and length decoders did not return -1
 on errors as documented

---
 Db/dbdata.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 6f45fe5..dd5cc5a 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1697,12 +1697,12 @@ int wg_decode_date(void* db, wg_int data) {
 #ifdef CHECK
   if (!dbcheck(db)) {
     show_data_error(db,"wrong database pointer given to wg_decode_date");
-    return 0;
+    return -1;
   }
 #endif
   if (isdate(data)) return decode_date(data);
   show_data_error_nr(db,"data given to wg_decode_date is not an encoded date: ",data);
-  return 0;
+  return -1;
 }
 
 wg_int wg_encode_time(void* db, int data) {
@@ -1733,12 +1733,12 @@ int wg_decode_time(void* db, wg_int data) {
 #ifdef CHECK
   if (!dbcheck(db)) {
     show_data_error(db,"wrong database pointer given to wg_decode_time");
-    return 0;
+    return -1;
   }
 #endif
   if (istime(data)) return decode_time(data);
   show_data_error_nr(db,"data given to wg_decode_time is not an encoded time: ",data);
-  return 0;
+  return -1;
 }
 
 int wg_current_utcdate(void* db) {
@@ -2343,6 +2343,10 @@ wg_int wg_decode_blob_len(void* db, wg_int data) {
     return -1;
   }
 #endif
+  if (!islongstr(data)) {
+    show_data_error(db,"data given to wg_decode_blob_len is not an encoded blob");
+    return -1;
+  }
   return wg_decode_unistr_len(db,data,WG_BLOBTYPE)+1;
 }
 
@@ -2813,7 +2817,7 @@ gint wg_decode_unistr_len(void* db, gint data, gint type) {
     return strsize-1;
   }
   show_data_error(db,"data given to wg_decode_unistr_len is not an encoded string");
-  return 0;
+  return -1;
 }
 
 /**
-- 
2.43.0


From 56f9872813fc39e0e9079ac66adf93ca539211b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:48 +0000
Subject: [PATCH 35/94] fix: comparing with a NaN gave a different answer when
 the operands were swapped

---
 Db/dbcompare.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dbcompare.c b/Db/dbcompare.c
index c8ddbac..924f8c8 100644
--- a/Db/dbcompare.c
+++ b/Db/dbcompare.c
@@ -176,6 +176,12 @@ gint wg_compare(void *db, gint a, gint b, int depth) {
         deca = wg_decode_double(db, a);
         decb = wg_decode_double(db, b);
         if(deca==decb) return WG_EQUAL; /* decoded doubles can be equal */
+        if(deca!=deca || decb!=decb) {
+          /* NaN: equal to itself and smaller than any number, so that
+           * there is a consistent order */
+          if(deca!=deca && decb!=decb) return WG_EQUAL;
+          return (decb!=decb ? WG_GREATER : WG_LESSTHAN);
+        }
         return (deca>decb ? WG_GREATER : WG_LESSTHAN);
       }
     }
-- 
2.43.0


From 86d0c307ccac0da70a8ce5b23e47539acf6ef6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:13 +0000
Subject: [PATCH 36/94] fix: nested documents that the JSON parser accepts
 could not be deleted or found from their records

---
 Db/dbschema.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index b826755..41a171c 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -47,6 +47,15 @@ extern "C" {
 #include "dbschema.h"
 #include "dblog.h"
 
+/* The parsed documents can contain two levels of records per each level
+ * of nesting (an object refers to its values through key-value triples).
+ */
+#ifdef USE_BACKLINKING
+#define MAX_DOCUMENT_DEPTH (2*WG_COMPARE_REC_DEPTH)
+#else
+#define MAX_DOCUMENT_DEPTH 99
+#endif
+
 /* ======== Data ========================= */
 
 /* ======= Private protos ================ */
@@ -174,7 +183,7 @@ void *wg_find_document(void *db, void *rec) {
   show_schema_error(db, "Backlinks are required to find complete documents");
   return NULL;
 #else
-  return find_document_recursive(db, (gint *) rec, WG_COMPARE_REC_DEPTH-1);
+  return find_document_recursive(db, (gint *) rec, MAX_DOCUMENT_DEPTH-1);
 #endif
 }
 
@@ -226,11 +235,7 @@ gint wg_delete_document(void *db, void *document) {
     return show_schema_error(db, "wg_delete_document: not a document");
   }
 #endif
-#ifndef USE_BACKLINKING
-  return delete_record_recursive(db, document, 99);
-#else
-  return delete_record_recursive(db, document, WG_COMPARE_REC_DEPTH);
-#endif
+  return delete_record_recursive(db, document, MAX_DOCUMENT_DEPTH);
 }
 
 /*
-- 
2.43.0


From 43acc4dbaf18128335b516cc34195cf1caa40a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:42 +0000
Subject: [PATCH 37/94] fix: a record that could not be journaled was reported
 as not created but stayed in the database

---
 Db/dbdata.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index dd5cc5a..ec11560 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -186,8 +186,11 @@ void* wg_create_raw_record(void* db, wg_int length) {
 #ifdef USE_DBLOG
   /* Append the created offset to log */
   if(dbmemsegh(db)->logging.active) {
-    if(wg_log_encval(db, offset))
-      return 0; /* journal error */
+    if(wg_log_encval(db, offset)) {
+      /* journal error, do not leave a record nobody knows about */
+      wg_free_object(db, &(dbmemsegh(db)->datarec_area_header), offset);
+      return 0;
+    }
   }
 #endif
 
-- 
2.43.0


From 5f0faf268b7c518e692d1f8ef1ad1fc5bfa34f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:06 +0000
Subject: [PATCH 38/94] fix: dropping an index with a template was journaled,
 so that a replay destroyed the template of an index still in use

---
 Db/dbindex.c | 84 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 60 insertions(+), 24 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index d452e47..de77c6b 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -45,7 +45,6 @@ extern "C" {
 #include "dbindex.h"
 #include "dbcompare.h"
 #include "dbhash.h"
-#include "dblog.h"
 #include "dbutil.h"
 
 
@@ -82,6 +81,8 @@ static gint drop_ttree_index(void *db, gint column);
 static gint insert_into_list(void *db, gint *head, gint value);
 static void delete_from_list(void *db, gint *head);
 #ifdef USE_INDEX_TEMPLATE
+static void *create_match_record(void *db, gint *matchrec, gint reclen);
+static void delete_match_record(void *db, void *rec);
 static gint add_index_template(void *db, gint *matchrec, gint reclen);
 static gint find_index_template(void *db, gint *matchrec, gint reclen);
 static gint remove_index_template(void *db, gint template_offset);
@@ -1792,6 +1793,58 @@ static void delete_from_list(void *db, gint *head) {
 
 #ifdef USE_INDEX_TEMPLATE
 
+/** Create the match record of a template
+ *
+ * The record is marked as special right away, so that it is never added
+ * to the existing indexes. Like the indexes themselves, the match records
+ * are not journaled: the index they belong to does not exist (or has not
+ * been dropped) in the database where the journal is replayed.
+ */
+static void *create_match_record(void *db, gint *matchrec, gint reclen) {
+  void *rec;
+  int i;
+#ifdef USE_DBLOG
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint active = dbh->logging.active;
+  dbh->logging.active = 0;
+#endif
+
+  rec = wg_create_raw_record(db, reclen);
+  if(rec) {
+    *((gint *) rec + RECORD_META_POS) |= \
+      (RECORD_META_NOTDATA | RECORD_META_MATCH);
+    for(i=0; i<reclen; i++) {
+      if(wg_set_new_field(db, rec, i, matchrec[i]) < 0) {
+        wg_delete_record(db, rec);
+        rec = NULL;
+        break;
+      }
+    }
+  }
+
+#ifdef USE_DBLOG
+  dbh->logging.active = active;
+#endif
+  return rec;
+}
+
+/** Delete the match record of a template
+ *
+ */
+static void delete_match_record(void *db, void *rec) {
+#ifdef USE_DBLOG
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint active = dbh->logging.active;
+  dbh->logging.active = 0;
+#endif
+
+  wg_delete_record(db, rec);
+
+#ifdef USE_DBLOG
+  dbh->logging.active = active;
+#endif
+}
+
 /** Add index template
  *
  * Takes a gint array that represents an template for records
@@ -1802,7 +1855,7 @@ static void delete_from_list(void *db, gint *head) {
  * Returns 0 on error.
  */
 static gint add_index_template(void *db, gint *matchrec, gint reclen) {
-  gint *ilist, *meta;
+  gint *ilist;
   void *rec;
   db_memsegment_header* dbh = dbmemsegh(db);
   wg_index_template *tmpl;
@@ -1868,32 +1921,15 @@ nextelem:
     ilist = &ilistelem->cdr;
   }
 
-  /* Create the new match record. It is marked as special right away,
-   * so that it is never added to the existing indexes.
-   */
-  rec = wg_create_raw_record(db, reclen);
+  /* Create the new match record */
+  rec = create_match_record(db, matchrec, reclen);
   if(!rec)
     return 0;
-  meta = ((gint *) rec + RECORD_META_POS);
-#ifdef USE_DBLOG
-  if(dbh->logging.active) {
-    if(wg_log_set_meta(db, rec,
-      *meta | (RECORD_META_NOTDATA | RECORD_META_MATCH)))
-      return 0;
-  }
-#endif
-  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
-  for(i=0; i<reclen; i++) {
-    if(wg_set_new_field(db, rec, i, matchrec[i]) < 0) {
-      wg_delete_record(db, rec);
-      return 0;
-    }
-  }
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
   if(!template_offset) {
-    wg_delete_record(db, rec);
+    delete_match_record(db, rec);
     return 0;
   }
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
@@ -1904,7 +1940,7 @@ nextelem:
   /* Insert it into the template list */
   if(!insert_into_list(db, ilist, template_offset)) {
     wg_free_fixlen_object(db, &dbh->indextmpl_area_header, template_offset);
-    wg_delete_record(db, rec);
+    delete_match_record(db, rec);
     return 0;
   }
 
@@ -1997,7 +2033,7 @@ static gint remove_index_template(void *db, gint template_offset) {
 
   /* Delete the database record */
   rec = offsettoptr(db, tmpl->offset_matchrec);
-  wg_delete_record(db, rec);
+  delete_match_record(db, rec);
 
   /* Remove from template list */
   ilist = &dbh->index_control_area_header.index_template_list;
-- 
2.43.0


From d03e6e3a61c6f416befc7518516e8cee84959ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:16 +0000
Subject: [PATCH 39/94] fix: an interrupted or spurious wakeup let a process
 proceed without the queued lock

---
 Db/dblock.c | 70 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 24 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 29ced95..4eae1b1 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -144,7 +144,7 @@ typedef int (kernel_cmpxchg_t) (int oldval, int newval, int *ptr);
 
 #define INIT_QLOCK_TIMEOUT(t, ts) \
   ts.tv_sec = t / 1000; \
-  ts.tv_nsec = t % 1000;
+  ts.tv_nsec = (t % 1000) * 1000000;
 
 #define ALLOC_LOCK(d, l) \
   l = alloc_lock(d); \
@@ -191,8 +191,7 @@ static void free_lock(void * db, gint node);
 #ifndef USE_LOCK_TIMEOUT
 static void futex_wait(volatile gint *addr1, int val1);
 #endif
-static int futex_trywait(volatile gint *addr1, int val1,
-  struct timespec *timeout);
+static int futex_trywait(volatile gint *addr1, int val1, gint timeout);
 static void futex_wake(volatile gint *addr1, int val1);
 #endif
 #endif
@@ -984,11 +983,6 @@ static void unlock_queue(void * db) {
 gint db_tfqueue_wlock(void * db, gint timeout) {
 #else
 gint db_tfqueue_wlock(void * db) {
-#endif
-#ifdef _WIN32
-  int ts;
-#else
-  struct timespec ts;
 #endif
   gint lock, prev;
   lock_queue_node *lockp;
@@ -1027,8 +1021,7 @@ gint db_tfqueue_wlock(void * db) {
   if(lockp->waiting) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
-    INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+    if(futex_trywait(&lockp->waiting, 1, timeout) == ETIMEDOUT) {
       lock_queue(db);
       DEQUEUE_LOCK(db, dbh, lock, lockp)
       free_lock(db, lock);
@@ -1096,11 +1089,6 @@ gint db_tfqueue_wulock(void * db, gint lock) {
 gint db_tfqueue_rlock(void * db, gint timeout) {
 #else
 gint db_tfqueue_rlock(void * db) {
-#endif
-#ifdef _WIN32
-  int ts;
-#else
-  struct timespec ts;
 #endif
   gint lock, prev;
   lock_queue_node *lockp;
@@ -1144,8 +1132,7 @@ gint db_tfqueue_rlock(void * db) {
     volatile gint *syn_addr = NULL;
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
-    INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
+    if(futex_trywait(&lockp->waiting, 1, timeout) == ETIMEDOUT) {
       lock_queue(db);
       DEQUEUE_LOCK(db, dbh, lock, lockp)
       free_lock(db, lock);
@@ -1404,17 +1391,52 @@ static void free_lock(void * db, gint node) {
 #ifndef USE_LOCK_TIMEOUT
 static void futex_wait(volatile gint *addr1, int val1)
 {
-  syscall(SYS_futex, (void *) addr1, FUTEX_WAIT, val1, NULL);
+  /* may also return because of a signal or an unrelated wakeup */
+  while(*addr1 == val1)
+    syscall(SYS_futex, (void *) addr1, FUTEX_WAIT, val1, NULL);
 }
 #endif
 
-static int futex_trywait(volatile gint *addr1, int val1,
-  struct timespec *timeout)
+/** Wait until the value at addr1 is no longer val1.
+ *   Returns 0 if the value has changed.
+ *   Returns ETIMEDOUT if it did not change before the timeout (in msec)
+ */
+static int futex_trywait(volatile gint *addr1, int val1, gint timeout)
 {
-  if(syscall(SYS_futex, (void *) addr1, FUTEX_WAIT, val1, timeout) == -1)
-    return errno; /* On Linux, this is thread-safe. Caution needed however */
-  else
-    return 0;
+  struct timespec start, now, ts;
+  gint nsec;
+
+  INIT_QLOCK_TIMEOUT(timeout, ts)
+  clock_gettime(CLOCK_MONOTONIC, &start);
+
+  while(*addr1 == val1) {
+    if(syscall(SYS_futex, (void *) addr1, FUTEX_WAIT, val1, &ts) == -1 &&
+      errno == ETIMEDOUT)
+      return ETIMEDOUT;
+
+    /* Interrupted by a signal, woken up for no reason or by a late wakeup
+     * meant for an earlier user of the same lock node. None of these
+     * means that the value has changed: continue with the remaining time.
+     */
+    if(*addr1 == val1) {
+      clock_gettime(CLOCK_MONOTONIC, &now);
+      INIT_QLOCK_TIMEOUT(timeout, ts)
+      ts.tv_sec -= now.tv_sec - start.tv_sec;
+      nsec = (gint) ts.tv_nsec - (now.tv_nsec - start.tv_nsec);
+      while(nsec < 0) {
+        nsec += 1000000000;
+        ts.tv_sec--;
+      }
+      while(nsec >= 1000000000) {
+        nsec -= 1000000000;
+        ts.tv_sec++;
+      }
+      ts.tv_nsec = nsec;
+      if(ts.tv_sec < 0)
+        return ETIMEDOUT;
+    }
+  }
+  return 0;
 }
 
 static void futex_wake(volatile gint *addr1, int val1)
-- 
2.43.0


From 4e2a1133576c3cecd0b227575ad41328486848db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:16 +0000
Subject: [PATCH 40/94] fix: a lock granted at the moment of the timeout was
 lost together with the wakeup of the waiters behind it

---
 Db/dblock.c | 53 +++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 4eae1b1..d4a9784 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -974,6 +974,43 @@ static void unlock_queue(void * db) {
   *gl = 0;
 }
 
+#ifdef USE_LOCK_TIMEOUT
+/** Give up waiting for a lock after a timeout
+ *   Returns 1 if the lock was removed from the queue.
+ *   Returns 0 if the lock was granted before it could be removed.
+ */
+static gint cancel_lock(void * db, gint lock) {
+  lock_queue_node *lockp = (lock_queue_node *) offsettoptr(db, lock);
+  db_memsegment_header* dbh = dbmemsegh(db);
+  volatile gint *syn_addr = NULL;
+
+  lock_queue(db);
+  if(!lockp->waiting) {
+    unlock_queue(db);
+    return 0;
+  }
+  DEQUEUE_LOCK(db, dbh, lock, lockp)
+
+  /* A reader that was queued behind us may now share the lock with the
+   * readers that were ahead of us.
+   */
+  if(lockp->next && lockp->prev) {
+    lock_queue_node *nextp = offsettoptr(db, lockp->next);
+    lock_queue_node *prevp = offsettoptr(db, lockp->prev);
+    if(nextp->class == LOCKQ_READ && nextp->waiting &&
+      prevp->class == LOCKQ_READ && !prevp->waiting) {
+      nextp->waiting = 0;
+      syn_addr = &nextp->waiting;
+    }
+  }
+  free_lock(db, lock);
+  unlock_queue(db);
+  if(syn_addr)
+    futex_wake(syn_addr, 1);
+  return 1;
+}
+#endif
+
 /** Acquire database level exclusive lock (task-fair queued lock)
  *   Blocks until lock is acquired.
  *   If USE_LOCK_TIMEOUT is defined, may return without locking
@@ -1022,11 +1059,9 @@ gint db_tfqueue_wlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     if(futex_trywait(&lockp->waiting, 1, timeout) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+      if(cancel_lock(db, lock))
+        return 0;
+      /* otherwise the lock was granted after all */
     }
 #else
     futex_wait(&lockp->waiting, 1);
@@ -1133,11 +1168,9 @@ gint db_tfqueue_rlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     if(futex_trywait(&lockp->waiting, 1, timeout) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+      if(cancel_lock(db, lock))
+        return 0;
+      /* otherwise the lock was granted after all */
     }
 #else
     futex_wait(&lockp->waiting, 1);
-- 
2.43.0


From 6ab4c4cdc7a5a44d1d5ae435d4cde20c2f7f1358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:19 +0000
Subject: [PATCH 41/94] fix: atomic addition to an int field truncated the sum
 to 32 bits

---
 Db/dbdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index ec11560..26cfd7d 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1139,8 +1139,8 @@ wg_int wg_set_atomic_field(void* db, void* record, wg_int fieldnr, wg_int data)
 
 wg_int wg_add_int_atomic_field(void* db, void* record, wg_int fieldnr, int data) {
   gint* fieldadr;
-  gint old,nxt,r;
-  int i,sum;
+  gint old,nxt,r,sum;
+  int i;
 #ifdef _WIN32
   int ts=1;
 #else
-- 
2.43.0


From 7e73a97d2d835e7d26da6288467eeb9a6a0bd51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:18 +0000
Subject: [PATCH 42/94] fix: readers queued behind a reader that was granted
 the lock before it slept were not admitted with it

---
 Db/dblock.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index d4a9784..32e3250 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -1125,7 +1125,7 @@ gint db_tfqueue_rlock(void * db, gint timeout) {
 #else
 gint db_tfqueue_rlock(void * db) {
 #endif
-  gint lock, prev;
+  gint lock, prev, waiting;
   lock_queue_node *lockp;
   db_memsegment_header* dbh;
 
@@ -1161,9 +1161,13 @@ gint db_tfqueue_rlock(void * db) {
   } else {
     lockp->waiting = 0;
   }
+  /* Readers that queue up behind us while we are waiting depend on us to
+   * wake them up, even if we're granted the lock before getting to sleep.
+   */
+  waiting = lockp->waiting;
   unlock_queue(db);
 
-  if(lockp->waiting) {
+  if(waiting) {
     volatile gint *syn_addr = NULL;
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
-- 
2.43.0


From 7c9c2b82baa2c451860961e3b5a27bc8233a5bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:09 +0000
Subject: [PATCH 43/94] fix: atomic field updates of a record referred to by an
 indexed field left the index out of order

---
 Db/dbdata.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 26cfd7d..b43b629 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -488,7 +488,9 @@ void *wg_get_next_parent(void* db, void* record, void *parent) {
  *  the recursive comparison depth. Such records may be reached through
  *  several fields and along several paths (the references may also form
  *  a cycle), but each of them is processed once.
- *  If add is nonzero, the entries are (re-)created, otherwise removed.
+ *  If add is 1, the entries are (re-)created, if 0, removed.
+ *  If add is -1, nothing is changed and the result is 1 if there are
+ *  any such entries.
  *  Returns 0 for success
  *  Returns -1 in case of errors.
  */
@@ -562,6 +564,10 @@ static gint update_backlink_index_entries(void *db, gint *record,
     }
     if(count) {
       gint skip = (rec == record ? fieldnr : -1);
+      if(add < 0) {
+        err = 1;
+        goto done;
+      }
       if((add ? wg_index_add_fields(db, rec, cols, count, skip) :
         wg_index_del_fields(db, rec, cols, count, skip)) < -1)
         goto done;
@@ -1031,7 +1037,8 @@ wg_int wg_set_rec_field(void* db, void* record, wg_int fieldnr, void* data) {
  *  returns -10 if new value non-immediate
  *  returns -11 if old value non-immediate
  *  returns -12 if cannot fetch old data
- *  returns -13 if the field has an index
+ *  returns -13 if the field has an index or the record is referred to
+ *    by an indexed field
  *  returns -14 if logging is active
  *  returns -15 if the field value has been changed from old_data
  *  may return other field-setting error codes from wg_set_new_field
@@ -1061,6 +1068,13 @@ wg_int wg_update_atomic_field(void* db, void* record, wg_int fieldnr, wg_int dat
 #endif
     return -13;
   }
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  // index entries of the referring records depend on the field, too
+  if(*((gint *) record + RECORD_BACKLINKS_POS) &&\
+    update_backlink_index_entries(db, (gint *) record, fieldnr, -1)) {
+    return -13;
+  }
+#endif
   // check that no logging is used
 #ifdef USE_DBLOG
   if(dbh->logging.active) {
-- 
2.43.0


From 5a0ed85056c66b202b9a90912add9b753e3f537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:43 +0000
Subject: [PATCH 44/94] fix: JSON files of a multiple of 16384 bytes were not
 stored

When the file ended exactly at the end of a chunk the following empty read
made wg_parse_json_file() return success without storing anything. An empty
file was reported as success as well.
---
 Db/dbjson.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index b80c020..ef97e1e 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -220,8 +220,9 @@ gint wg_parse_json_file(void *db, const char *filename) {
       if(!feof(f)) {
         show_json_error_byte(db, "Read error", count);
         result = -1;
+        goto done;
       }
-      goto done;
+      break; /* the previous chunk was the last one */
     }
     if(yajl_parse(hand, (unsigned char *) &buf[count], rd) != yajl_status_ok) {
       unsigned char *errtxt = yajl_get_error(hand, 1,
-- 
2.43.0


From 38246ccff71e506b19944c9d1e17bbb33ec7903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:43 +0000
Subject: [PATCH 45/94] fix: JSON validation accepted numbers the parser
 refuses

Integers and floating point numbers out of range passed the validation pass
and made the insertion pass fail half way, leaving a part of the document in
the database.
---
 Db/dbjson.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index ef97e1e..1216840 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -118,6 +118,8 @@ static gint run_json_parser(void *db, const char *buf,
   yajl_callbacks *cb, int isparam, int isdocument, void **document);
 static int check_push_cb(void* cb_ctx);
 static int check_pop_cb(void* cb_ctx);
+static int check_integer_cb(void* cb_ctx, long long intval);
+static int check_double_cb(void* cb_ctx, double doubleval);
 static int array_begin_cb(void* cb_ctx);
 static int array_end_cb(void* cb_ctx);
 static int object_begin_cb(void* cb_ctx);
@@ -141,8 +143,8 @@ static gint show_json_error_byte(void *db, const char *errmsg, int byte);
 yajl_callbacks validate_cb = {
     NULL,
     NULL,
-    NULL,
-    NULL,
+    check_integer_cb,
+    check_double_cb,
     NULL,
     NULL,
     check_push_cb,
@@ -439,6 +441,19 @@ static int check_pop_cb(void* cb_ctx)
   return 1;
 }
 
+/* The parser checks the range of numbers only if there are callbacks
+ * to receive them.
+ */
+static int check_integer_cb(void* cb_ctx, long long intval)
+{
+  return 1;
+}
+
+static int check_double_cb(void* cb_ctx, double doubleval)
+{
+  return 1;
+}
+
 /**
  * Push an object or an array on the stack.
  */
-- 
2.43.0


From f36e0953d338a313ca59bc1ba75870ff33f711ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:43 +0000
Subject: [PATCH 46/94] fix: JSON keys longer than 79 characters were cut

Two long keys with the same beginning became the same key, and a key could be
cut in the middle of a UTF-8 character. Also frees the elements collected so
far when parsing fails.
---
 Db/dbjson.c | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 1216840..092931d 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -92,7 +92,7 @@ typedef struct {
   stack_entry_t type;
   stack_entry_elem *head;
   stack_entry_elem *tail;
-  char last_key[80];
+  char *last_key;
   int size;
 } stack_entry;
 
@@ -109,6 +109,7 @@ typedef struct {
 /* ======= Private protos ================ */
 
 static int push(parser_context *ctx, stack_entry_t type);
+static void free_stack_entry(stack_entry *e);
 static int pop(parser_context *ctx);
 static int add_elem(parser_context *ctx, gint enc);
 static int add_key(parser_context *ctx, char *key);
@@ -420,6 +421,12 @@ static gint run_json_parser(void *db, const char *buf,
   }
 
 done:
+  /* parsing may have stopped inside nested structures */
+  while(ctx.stack_ptr >= 0) {
+    if(ctx.stack_ptr < MAX_DEPTH)
+      free_stack_entry(&ctx.stack[ctx.stack_ptr]);
+    ctx.stack_ptr--;
+  }
   if(hand) yajl_free(hand);
   return result;
 }
@@ -467,9 +474,28 @@ static int push(parser_context *ctx, stack_entry_t type)
   e->type = type;
   e->head = NULL;
   e->tail = NULL;
+  e->last_key = NULL;
   return 1;
 }
 
+/**
+ * Free the memory used by a stack entry.
+ */
+static void free_stack_entry(stack_entry *e)
+{
+  while(e->head) {
+    stack_entry_elem *tmp = e->head;
+    e->head = e->head->next;
+    free(tmp);
+  }
+  e->tail = NULL;
+  e->size = 0;
+  if(e->last_key) {
+    free(e->last_key);
+    e->last_key = NULL;
+  }
+}
+
 /**
  * Pop an object or an array from the stack.
  * If this is not the top level in the document, the object is also added
@@ -519,13 +545,7 @@ static int pop(parser_context *ctx)
   }
 
   /* free the elements */
-  while(e->head) {
-    stack_entry_elem *tmp = e->head;
-    e->head = e->head->next;
-    free(tmp);
-  }
-  e->tail = NULL;
-  e->size = 0;
+  free_stack_entry(e);
 
   /* is it an element of something? */
   if(!istoplevel && rec && ret) {
@@ -569,13 +589,18 @@ static int add_elem(parser_context *ctx, gint enc)
 static int add_key(parser_context *ctx, char *key)
 {
   stack_entry *e;
+  size_t len = strlen(key);
 
   if(ctx->stack_ptr < 0 || ctx->stack_ptr >= MAX_DEPTH)
     return 0; /* paranoia */
 
   e = &ctx->stack[ctx->stack_ptr];
-  strncpy(e->last_key, key, 80);
-  e->last_key[79] = '\0';
+  if(e->last_key)
+    free(e->last_key);
+  e->last_key = malloc(len + 1);
+  if(!e->last_key)
+    return 0;
+  memcpy(e->last_key, key, len + 1);
   return 1;
 }
 
-- 
2.43.0


From 2046081317b9f0fc0066e4a1c878132cdccf9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:43 +0000
Subject: [PATCH 47/94] fix: printing JSON lost the digits of floating point
 numbers

Numbers were printed with six decimals (1e-9 became 0.000000) and large ones
were cut at 78 digits.
---
 Db/dbjson.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 092931d..088d120 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -884,14 +884,18 @@ static int pretty_print_jsonval(void *db, yajl_gen *g, gint enc)
         return show_json_error(db, "Formatter failure");
       }
     }
+  } else if(type == WG_DOUBLETYPE) {
+    if(yajl_gen_double(*g, wg_decode_double(db, enc)) !=\
+      yajl_gen_status_ok) {
+      return show_json_error(db, "Formatter failure");
+    }
   } else {
     /* other literal value */
     size_t len;
     char buf[80];
     wg_snprint_value(db, enc, buf, 79);
     len = strlen(buf);
-    if(type == WG_INTTYPE || type == WG_DOUBLETYPE ||\
-      type == WG_FIXPOINTTYPE) {
+    if(type == WG_INTTYPE || type == WG_FIXPOINTTYPE) {
       if(yajl_gen_number(*g, buf, len) != yajl_gen_status_ok) {
         return show_json_error(db, "Formatter failure");
       }
-- 
2.43.0


From f6faa86b051b6d54e737cd0f7c7b2c82ce04fa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:43 +0000
Subject: [PATCH 48/94] fix: signed overflow when parsing JSON integers just
 out of range

---
 json/yajl_all.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/yajl_all.c b/json/yajl_all.c
index d7b3a56..f6fe59d 100644
--- a/json/yajl_all.c
+++ b/json/yajl_all.c
@@ -1534,7 +1534,7 @@ yajl_lex_get_error(yajl_lexer lexer)
     return lexer->error;
 }
 
-#define MAX_VALUE_TO_MULTIPLY ((LLONG_MAX / 10) + (LLONG_MAX % 10))
+#define MAX_VALUE_TO_MULTIPLY (LLONG_MAX / 10)
 
  /* same semantics as strtol */
 static long long
-- 
2.43.0


From 37f693ffe6aec4576468ba87dc73cddd3952247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:43 +0000
Subject: [PATCH 49/94] fix: null values in JSON documents were dropped

[1, null, 2] was stored as an array of two elements, although array records
have the same length as the array, and {"a": null} as an empty object.
---
 Db/dbjson.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 088d120..793fa50 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -125,6 +125,7 @@ static int array_begin_cb(void* cb_ctx);
 static int array_end_cb(void* cb_ctx);
 static int object_begin_cb(void* cb_ctx);
 static int object_end_cb(void* cb_ctx);
+static int elem_null_cb(void* cb_ctx);
 static int elem_integer_cb(void* cb_ctx, long long intval);
 static int elem_double_cb(void* cb_ctx, double doubleval);
 static int object_key_cb(void* cb_ctx, const unsigned char * strval,
@@ -156,7 +157,7 @@ yajl_callbacks validate_cb = {
 };
 
 yajl_callbacks input_cb = {
-    NULL,
+    elem_null_cb,
     NULL,
     elem_integer_cb,
     elem_double_cb,
@@ -679,6 +680,14 @@ static int object_end_cb(void* cb_ctx)
   return 1;
 }
 
+static int elem_null_cb(void* cb_ctx)
+{
+  parser_context *ctx = (parser_context *) cb_ctx;
+  if(!add_literal(ctx, wg_encode_null(ctx->db, 0)))
+    return 0;
+  return 1;
+}
+
 static int elem_integer_cb(void* cb_ctx, long long intval)
 {
 /*  int i;*/
@@ -884,6 +893,10 @@ static int pretty_print_jsonval(void *db, yajl_gen *g, gint enc)
         return show_json_error(db, "Formatter failure");
       }
     }
+  } else if(type == WG_NULLTYPE) {
+    if(yajl_gen_null(*g) != yajl_gen_status_ok) {
+      return show_json_error(db, "Formatter failure");
+    }
   } else if(type == WG_DOUBLETYPE) {
     if(yajl_gen_double(*g, wg_decode_double(db, enc)) !=\
       yajl_gen_status_ok) {
-- 
2.43.0


From d3b3379c834c85f7461a51f237080c8bddfa0d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:07 +0000
Subject: [PATCH 50/94] fix: a JSON file with a zero byte in a comment was
 stored in part

The validation pass saw the whole file, the insertion pass only the text up
to the zero byte and failed half way.
---
 Db/dbjson.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 793fa50..573e139 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -263,6 +263,15 @@ gint wg_parse_json_file(void *db, const char *filename) {
 #endif
 
 
+  /* The validated text would be cut here (zero bytes may hide
+   * in comments).
+   */
+  if(memchr(buf, 0, count)) {
+    show_json_error(db, "Zero byte in JSON input");
+    result = -1;
+    goto done;
+  }
+
   buf[count] = '\0';
   result = wg_parse_json_document(db, buf, NULL);
 
-- 
2.43.0


From 05209cd29bab200dd764d30993d89432a08791c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:07 +0000
Subject: [PATCH 51/94] fix: JSON strings and keys with \u0000 were silently
 cut

A string in the database ends at the first zero character. Text with such
characters is now refused, by the validity check as well.
---
 Db/dbjson.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 573e139..69aaf4c 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -121,6 +121,8 @@ static int check_push_cb(void* cb_ctx);
 static int check_pop_cb(void* cb_ctx);
 static int check_integer_cb(void* cb_ctx, long long intval);
 static int check_double_cb(void* cb_ctx, double doubleval);
+static int check_string_cb(void* cb_ctx, const unsigned char * strval,
+                           size_t strl);
 static int array_begin_cb(void* cb_ctx);
 static int array_end_cb(void* cb_ctx);
 static int object_begin_cb(void* cb_ctx);
@@ -148,9 +150,9 @@ yajl_callbacks validate_cb = {
     check_integer_cb,
     check_double_cb,
     NULL,
-    NULL,
+    check_string_cb,
     check_push_cb,
-    NULL,
+    check_string_cb,
     check_pop_cb,
     check_push_cb,
     check_pop_cb
@@ -471,6 +473,15 @@ static int check_double_cb(void* cb_ctx, double doubleval)
   return 1;
 }
 
+/* Strings in the database end at the first zero character, so a string
+ * or a key that contains one (as \u0000) cannot be stored.
+ */
+static int check_string_cb(void* cb_ctx, const unsigned char * strval,
+                           size_t strl)
+{
+  return (strl == 0 || !memchr(strval, 0, strl));
+}
+
 /**
  * Push an object or an array on the stack.
  */
@@ -733,7 +744,10 @@ static int object_key_cb(void* cb_ctx, const unsigned char * strval,
 /*  int i;*/
   int res = 1;
   parser_context *ctx = (parser_context *) cb_ctx;
-  char *buf = malloc(strl + 1);
+  char *buf;
+  if(!check_string_cb(NULL, strval, strl))
+    return 0;
+  buf = malloc(strl + 1);
   if(!buf)
     return 0;
   strncpy(buf, (char *) strval, strl);
@@ -755,7 +769,10 @@ static int elem_string_cb(void* cb_ctx, const unsigned char * strval,
   int res = 1;
   gint val;
   parser_context *ctx = (parser_context *) cb_ctx;
-  char *buf = malloc(strl + 1);
+  char *buf;
+  if(!check_string_cb(NULL, strval, strl))
+    return 0;
+  buf = malloc(strl + 1);
   if(!buf)
     return 0;
   strncpy(buf, (char *) strval, strl);
-- 
2.43.0


From 295bd189daf974b56dbd81ebb12e99612dce65c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:04 +0000
Subject: [PATCH 52/94] fix: printing and CSV export cut integers to 32 bits

wg_snprint_value(), JSON printing and CSV export went through an int, so
2147483648 came out as -2147483648.
---
 Db/dbutil.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 5716487..bf74dc0 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -246,8 +246,7 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
         snprint_record(db, (wg_int*)ptrdata, buf+len, buflen-len);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%lld", (long long) wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -354,8 +353,7 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       snprintf(buf, buflen, "\"<record offset %d>\"", intdata);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%lld", (long long) wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
-- 
2.43.0


From acb8d5d42ed22bd5f00a54e0b2e8be80b30b6366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:04 +0000
Subject: [PATCH 53/94] fix: JSON queries failed when a record outside of
 documents matched

A plain record or a record of a JSON fragment with the key and value in the
right columns made wg_make_json_query() return NULL instead of the matching
documents.
---
 Db/dbquery.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 54bf216..efbfbfe 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1598,8 +1598,8 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
 /* Note the non-conventional return code values:
  * -1 adding the document failed
  * 1 adding the document succeeded
- * (0 is reserved for using this macro in a recursive function
- * to differentiate between matches and non-matches)
+ * 0 the record is not a part of a document (also used in a recursive
+ * function to differentiate between matches and non-matches)
  */
 #define ADD_DOC_TO_RESULTSET(db, rec, ns, rc) \
   void *doc = wg_find_document(db, rec); \
@@ -1609,7 +1609,7 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
     else \
       rc = -1; \
   } else { \
-    rc = show_query_error(db, "Failed to retrieve the document"); \
+    rc = 0; \
   }
 
 #define IF_ERR_CLEAN_UP(db, cr, ns, al, rc) \
-- 
2.43.0


From 93be3904902de76b649b1b3027e31af29e3f1119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:31 +0000
Subject: [PATCH 54/94] fix: JSON text followed by an unfinished token was
 accepted

An unterminated string, comment or number after the document (`[1] "x`) was
treated as the end of the text.
---
 json/yajl_all.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/json/yajl_all.c b/json/yajl_all.c
index f6fe59d..9405296 100644
--- a/json/yajl_all.c
+++ b/json/yajl_all.c
@@ -1693,8 +1693,24 @@ yajl_do_finish(yajl_handle hand)
         case yajl_state_parse_error:
         case yajl_state_lexical_error:
             return yajl_status_error;
-        case yajl_state_got_value:
         case yajl_state_parse_complete:
+            /* the text may have ended inside of a token after the value.
+             * Only a one-line comment is complete at that point. */
+            if (!(hand->flags & yajl_allow_trailing_garbage) &&
+                hand->lexer->bufInUse)
+            {
+                const unsigned char * rest = yajl_buf_data(hand->lexer->buf);
+                size_t len = yajl_buf_len(hand->lexer->buf);
+                if (len > 0 &&
+                    !(len > 1 && rest[0] == '/' && rest[1] == '/'))
+                {
+                    yajl_bs_set(hand->stateStack, yajl_state_parse_error);
+                    hand->parseError = "trailing garbage";
+                    return yajl_status_error;
+                }
+            }
+            return yajl_status_ok;
+        case yajl_state_got_value:
             return yajl_status_ok;
         default:
             if (!(hand->flags & yajl_allow_partial_values))
-- 
2.43.0


From 41db11e3c1339cab3afe898b771e017d056a336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:45 +0000
Subject: [PATCH 55/94] fix: JSON queries failed on deeply nested documents

Each level of nesting of a document takes two levels of records (the object
and its key-value pairs), but the scan of a document gave up, and made the
whole query fail, after WG_COMPARE_REC_DEPTH levels of records.
---
 Db/dbquery.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index efbfbfe..287ef63 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1965,7 +1965,7 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
           rec, &arglist[i], next_set, 99);
 #else
         gint rc = check_and_merge_recursively(db,
-          rec, &arglist[i], next_set, WG_COMPARE_REC_DEPTH);
+          rec, &arglist[i], next_set, 2*WG_COMPARE_REC_DEPTH);
 #endif
         IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, rc)
       }
-- 
2.43.0


From 4d3601229648a179f57aaa90c5fc2cde3e9fa772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:45 +0000
Subject: [PATCH 56/94] fix: JSON queries took array elements for key-value
 pairs

An array whose second and third elements equal the key and the value, like
[0, "a", 1] for a=1, was taken for a key-value pair and its document returned.
---
 Db/dbquery.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 287ef63..f2229dd 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1655,6 +1655,8 @@ static gint check_and_merge_by_kv(void *db, void *rec,
 {
   gint rc = 0;
   gint reclen = wg_get_record_len(db, rec);
+  if(is_schema_array(rec))
+    return 0; /* not a key-value pair */
   if(reclen > WG_SCHEMA_VALUE_OFFSET) { /* XXX: assume key
                                          * before value */
 #ifndef JSON_SCAN_UNWRAP_ARRAY
@@ -1694,6 +1696,8 @@ static gint check_and_merge_by_key(void *db, void *rec,
 {
   gint rc = 0;
   gint reclen = wg_get_record_len(db, rec);
+  if(is_schema_array(rec))
+    return 0; /* not a key-value pair */
   if(reclen > WG_SCHEMA_VALUE_OFFSET) {
 #ifndef JSON_SCAN_UNWRAP_ARRAY
     if(WG_COMPARE(db, wg_get_field(db, rec, WG_SCHEMA_VALUE_OFFSET),
@@ -1899,9 +1903,13 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
         gint *nextoffset = &reclist_offset;
         while(*nextoffset) {
           gcell *rec_cell = (gcell *) offsettoptr(db, *nextoffset);
+          void *rec = offsettoptr(db, rec_cell->car);
           gint rc = -1;
-          ADD_DOC_TO_RESULTSET(db, offsettoptr(db, rec_cell->car),
-            next_set, rc)
+          if(is_schema_array(rec)) { /* not a key-value pair */
+            nextoffset = &(rec_cell->cdr);
+            continue;
+          }
+          ADD_DOC_TO_RESULTSET(db, rec, next_set, rc)
           IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, rc)
           nextoffset = &(rec_cell->cdr);
         }
-- 
2.43.0


From b1cac6d1ec2fba1f62848fcc30d4d9ccfa4269f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 57/94] fix: numbers were parsed as strings after an unrelated
 error

The result of converting a number was judged by errno, which successful
calls leave alone: an ERANGE or EINVAL set by any earlier call made numbers
parse as strings.
---
 Db/dbutil.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index bf74dc0..4728595 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -609,14 +609,16 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
       if(decsep==1) {
         char tmp = *decptr;
         *decptr = '.'; /* ignore locale, force conversion by plain atof() */
+        errno = 0; /* may be left over from an earlier call */
         *doubledata = atof(numbuf);
         if(errno!=ERANGE && errno!=EINVAL) {
           type = WG_DOUBLETYPE;
         } else {
-          errno = 0; /* Under Win32, successful calls don't do this? */
+          errno = 0;
         }
         *decptr = tmp; /* conversion might have failed, restore string */
       } else if(!decsep) {
+        errno = 0;
         *intdata = atol(numbuf);
         if(errno!=ERANGE && errno!=EINVAL) {
           type = WG_INTTYPE;
-- 
2.43.0


From d0b48444d816277506e0469dbf911c333fe6978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 58/94] fix: numbers of more than 79 characters were parsed
 from their first part

A text starting with 79 digits was taken for an integer whatever followed,
and doubles of 1e72 and above did not survive a CSV export and import.
---
 Db/dbutil.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 4728595..9adee28 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -584,10 +584,19 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
        * and int, then convert using atol()/atof(). sscanf() tends to
        * be too optimistic about the conversion, especially under Win32.
        */
-      char numbuf[80];
+      char shortbuf[80], *numbuf = shortbuf;
       const char *ptr = buf;
-      char *wptr = numbuf, *decptr = NULL;
+      char *wptr, *decptr = NULL;
       int decsep = 0;
+      size_t buflen = strspn(buf, "-.,0123456789") + 2;
+      if(buflen > sizeof(shortbuf)) {
+        numbuf = (char *) malloc(buflen);
+        if(!numbuf) {
+          show_io_error(db, "Failed to allocate memory");
+          return 0;
+        }
+      }
+      wptr = numbuf;
       while(*ptr) {
         if(*ptr == CSV_DECIMAL_SEPARATOR) {
           decsep++;
@@ -601,8 +610,6 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
           break;
         }
         *(wptr++) = *(ptr++);
-        if((int) (wptr - numbuf) >= 79)
-          break;
       }
       *wptr = '\0';
 
@@ -626,6 +633,8 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
           errno = 0;
         }
       }
+      if(numbuf != shortbuf)
+        free(numbuf);
     }
   }
 
-- 
2.43.0


From 1f9001ec63359e62fb881afbbca2b1cd5a7b6d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 59/94] fix: texts that only start with a date or time lost the
 rest

"2010-05-06T12:30:00" or "2010-05-06 report" was parsed and imported from CSV
as the date alone, "12:30:45 UTC" as the time.
---
 Db/dbutil.c | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 9adee28..a5fa570 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -94,6 +94,8 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen);
 #if 0
 static gint parse_and_encode_uri(void *db, char *buf);
 #endif
+static int is_iso_date(const char *buf);
+static int is_iso_time(const char *buf);
 static gint parse_input_type(void *db, const char *buf, gint *intdata,
                                         double *doubledata, gint *datetime);
 static gint fread_csv(void *db, FILE *f);
@@ -532,6 +534,39 @@ gint wg_parse_and_encode_param(void *db, const char *buf) {
   return encoded;
 }
 
+/** Check that the entire buf consists of groups of digits that are separated
+ *  by the characters in sep. Each group has at most the number of digits that
+ *  maxdigits (a digit for each group) says.
+ *  Returns the number of separators found, or -1.
+ */
+static int match_digit_groups(const char *buf, const char *sep,
+  const char *maxdigits) {
+  int n = 0;
+  for(;;) {
+    int digits = strspn(buf, "0123456789");
+    if(digits < 1 || digits > maxdigits[n] - '0')
+      return -1;
+    buf += digits;
+    if(*buf == 0)
+      return n;
+    if(*buf++ != sep[n]) /* also when no more separators are expected */
+      return -1;
+    n++;
+  }
+}
+
+/** Check that nothing precedes or follows the date in the buffer
+ */
+static int is_iso_date(const char *buf) {
+  return match_digit_groups(buf, "--", "422") == 2;
+}
+
+/** Check that nothing precedes or follows the time in the buffer
+ */
+static int is_iso_time(const char *buf) {
+  return match_digit_groups(buf, "::.", "2229") >= 2;
+}
+
 /** Detect the type of input data in string format.
  *
  *  Supports following data types:
@@ -575,9 +610,10 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
   else if((c >= '0' && c <= '9') ||\
    (c == '-' && buf[1] >= '0' && buf[1] <= '9')) {
     /* This could be one of int, double, date or time */
-    if(c != '-' && (*datetime = wg_strp_iso_date(db, buf)) >= 0) {
+    if(is_iso_date(buf) && (*datetime = wg_strp_iso_date(db, buf)) >= 0) {
       type = WG_DATETYPE;
-    } else if(c != '-' && (*datetime = wg_strp_iso_time(db, buf)) >= 0) {
+    } else if(is_iso_time(buf) &&\
+      (*datetime = wg_strp_iso_time(db, buf)) >= 0) {
       type = WG_TIMETYPE;
     } else {
       /* Examine the field contents to distinguish between float
-- 
2.43.0


From 5fd67e56c4dfb4722a1b184ee6a737e9c3676bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 60/94] fix: a single digit fraction of a second was read as
 hundredths

wg_strp_iso_time() read "12:30:45.5" as 12:30:45.05.
---
 Db/dbdata.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index b43b629..f54c174 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1847,9 +1847,13 @@ int wg_strp_iso_time(void* db, const char* inbuf) {
   int min=0;
   int sec=0;
   int prt=0;
+  int prtpos=0;
 
-  sres=sscanf(inbuf,"%2d:%2d:%2d.%2d",&hr,&min,&sec,&prt);
+  sres=sscanf(inbuf,"%2d:%2d:%2d.%n%2d",&hr,&min,&sec,&prtpos,&prt);
   if (sres<3) return -1;
+  if (sres==4 && inbuf[prtpos]>='0' && inbuf[prtpos]<='9' &&
+    !(inbuf[prtpos+1]>='0' && inbuf[prtpos+1]<='9'))
+    prt*=10; /* single digit: tenths */
   return wg_hms_to_time(db,hr,min,sec,prt);
 }
 
-- 
2.43.0


From 3f08cc39bc3065d12af9d943848c22b26a2a9216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 61/94] fix: printing into an almost full buffer read past its
 end

With room for one byte only wg_snprint_value() stored nothing, not even the
terminator. Printing nested records, which goes on in the rest of the buffer,
then looked for the end of the text beyond the buffer.
---
 Db/dbutil.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index a5fa570..7c7281a 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -235,6 +235,9 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
   double doubledata;
   char strbuf[80];
 
+  if(buflen < 1)
+    return;
+  *buf = '\0';
   buflen--; /* snprintf adds '\0' */
   switch(wg_get_encoded_type(db, enc)) {
     case WG_NULLTYPE:
-- 
2.43.0


From 14bfffd88b0762f0f5468c8b63d0f0f942b423dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 62/94] fix: URIs without a prefix were exported to CSV as
 "(null)"

Part of the URI itself was cut off to make room.
---
 Db/dbutil.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 7c7281a..0f6b842 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -346,7 +346,7 @@ static void csv_escaped_str(void *db, char *iptr, char *buf, int buflen) {
 static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
   int intdata, ilen;
   double doubledata;
-  char strbuf[80], *ibuf;
+  char strbuf[80], *ibuf, *exdata;
 
   buflen--; /* snprintf adds '\0' */
   switch(wg_get_encoded_type(db, enc)) {
@@ -378,15 +378,17 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       /* More efficient solutions are possible, but here we simply allocate
        * enough storage to concatenate the URI before encoding it for CSV.
        */
+      exdata = wg_decode_uri_prefix(db, enc);
       ilen = wg_decode_uri_len(db, enc);
-      ilen += wg_decode_uri_prefix_len(db, enc);
+      if(exdata)
+        ilen += strlen(exdata);
       ibuf = (char *) malloc(ilen + 1);
       if(!ibuf) {
         show_io_error(db, "Failed to allocate memory");
         return;
       }
       snprintf(ibuf, ilen+1, "%s%s",
-        wg_decode_uri_prefix(db, enc), wg_decode_uri(db, enc));
+        exdata ? exdata : "", wg_decode_uri(db, enc));
       csv_escaped_str(db, ibuf, buf, buflen);
       free(ibuf);
       break;
-- 
2.43.0


From e443a991501eca5fb6abb82d145e574ad8fc3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 63/94] fix: characters like ',' and '"' broke the rows of
 exported CSV files

Values of type char were written without quotes.
---
 Db/dbutil.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 0f6b842..b69e0ea 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -393,8 +393,9 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       free(ibuf);
       break;
     case WG_CHARTYPE:
-      intdata = wg_decode_char(db, enc);
-      snprintf(buf, buflen, "%c", (char) intdata);
+      strbuf[0] = (char) wg_decode_char(db, enc);
+      strbuf[1] = '\0';
+      csv_escaped_str(db, strbuf, buf, buflen);
       break;
     case WG_DATETYPE:
       intdata = wg_decode_date(db, enc);
-- 
2.43.0


From 7fa4f6a7f615c6ef8fb304547caf304d4d415a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:34 +0000
Subject: [PATCH 64/94] fix: strings of more than 4 KB were cut in CSV export
 and import

---
 Db/dbutil.c | 63 +++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 56 insertions(+), 7 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index b69e0ea..4acd183 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -58,7 +58,7 @@ extern "C" {
 #define atol(s) strtol(s, NULL, 10)
 #endif
 
-#define CSV_FIELD_BUF 4096      /** max size of csv I/O field */
+#define CSV_FIELD_BUF 4096      /** initial size of csv I/O buffer */
 #define CSV_FIELD_SEPARATOR ',' /** field separator, comma or semicolon */
 #define CSV_DECIMAL_SEPARATOR '.'   /** comma or dot */
 #define CSV_ENCDATA_BUF 10      /** initial storage for encoded (gint) data */
@@ -687,6 +687,33 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
   return type;
 }
 
+/** Size of the buffer that is needed to print a value in CSV format
+ *
+ */
+static size_t csv_field_size(void *db, gint enc) {
+  size_t len = 0;
+  char *exdata;
+
+  switch(wg_get_encoded_type(db, enc)) {
+    case WG_STRTYPE:
+      len = wg_decode_str_len(db, enc);
+      break;
+    case WG_XMLLITERALTYPE:
+      len = wg_decode_xmlliteral_len(db, enc);
+      break;
+    case WG_URITYPE:
+      len = wg_decode_uri_len(db, enc);
+      exdata = wg_decode_uri_prefix(db, enc);
+      if(exdata)
+        len += strlen(exdata);
+      break;
+    default:
+      break;
+  }
+  /* all characters may need escaping */
+  return (2*len + 8 > CSV_FIELD_BUF ? 2*len + 8 : CSV_FIELD_BUF);
+}
+
 /** Write single record to stream in CSV format
  *
  */
@@ -695,6 +722,7 @@ void wg_fprint_record_csv(void *db, wg_int* rec, FILE *f) {
   wg_int len, enc;
   int i;
   char *strbuf;
+  size_t strbuf_sz = CSV_FIELD_BUF;
 
   if(rec==NULL) {
     show_io_error(db, "null record pointer");
@@ -711,7 +739,17 @@ void wg_fprint_record_csv(void *db, wg_int* rec, FILE *f) {
   for(i=0; i<len; i++) {
     if(i) fprintf(f, "%c", CSV_FIELD_SEPARATOR);
     enc = wg_get_field(db, rec, i);
-    snprint_value_csv(db, enc, strbuf, CSV_FIELD_BUF-1);
+    if(csv_field_size(db, enc) > strbuf_sz) {
+      char *tmp;
+      strbuf_sz = csv_field_size(db, enc);
+      tmp = (char *) realloc(strbuf, strbuf_sz);
+      if(tmp==NULL) {
+        show_io_error(db, "Failed to allocate memory");
+        break;
+      }
+      strbuf = tmp;
+    }
+    snprint_value_csv(db, enc, strbuf, strbuf_sz-1);
     fprintf(f, "%s", strbuf);
   }
 
@@ -759,6 +797,7 @@ static gint fread_csv(void *db, FILE *f) {
   gint commit_strbuf, commit_record;
   gint reclen;
   gint encdata_sz = CSV_ENCDATA_BUF;
+  size_t strbuf_sz = CSV_FIELD_BUF;
 
   strbuf = (char *) malloc(CSV_FIELD_BUF);
   if(strbuf==NULL) {
@@ -792,6 +831,19 @@ static gint fread_csv(void *db, FILE *f) {
 
     char c = (char) fgetc(f);
 
+    if((size_t) (ptr - strbuf) + 1 >= strbuf_sz) {
+      /* Make room for one more character and the terminator */
+      char *tmp = (char *) realloc(strbuf, strbuf_sz * 2);
+      if(tmp==NULL) {
+        err = -3;
+        show_io_error(db, "Failed to allocate memory");
+        break;
+      }
+      ptr = tmp + (ptr - strbuf);
+      strbuf = tmp;
+      strbuf_sz *= 2;
+    }
+
     if(quoted_field) {
       /* We're parsing a quoted field. Anything we get is added to
        * strbuf unless it's a quote character.
@@ -810,9 +862,7 @@ static gint fread_csv(void *db, FILE *f) {
         }
       } else {
         esc_quote = 0;
-        /* read the character. It's simply ignored if the buffer is full */
-        if(((gint) ptr - (gint) strbuf) < CSV_FIELD_BUF-1)
-          *ptr++ = c;
+        *ptr++ = c;
       }
     } else if(uq_field) {
       /* In case of an unquoted field, terminator can be the field
@@ -829,8 +879,7 @@ static gint fread_csv(void *db, FILE *f) {
         commit_strbuf = 1;
         commit_record = 1;
       } else {
-        if(((gint) ptr - (gint) strbuf) < CSV_FIELD_BUF-1)
-          *ptr++ = c;
+        *ptr++ = c;
       }
     } else {
       /* We are currently not parsing anything. Four things can happen:
-- 
2.43.0


From 6c0ebbaaa65a684fba42533da4a6421790522d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:34 +0000
Subject: [PATCH 65/94] fix: CSV import lost the last line if the file did not
 end with a newline

The end of the file was taken for the character 0xFF and the record was
never stored.
---
 Db/dbutil.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 4acd183..bfa3a61 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -818,7 +818,7 @@ static gint fread_csv(void *db, FILE *f) {
   commit_strbuf = commit_record = 0;
   ptr = strbuf;
 
-  while(!feof(f)) {
+  for(;;) {
     /* Parse cycle consists:
      * 1. read character from stream. This can either:
      *   - change the state of the parser
@@ -829,7 +829,13 @@ static gint fread_csv(void *db, FILE *f) {
      *   - store the record in the database
      */
 
-    char c = (char) fgetc(f);
+    int c = fgetc(f);
+
+    if(c == EOF) {
+      if(quoted_field || !(uq_field || eat_sep || reclen))
+        break;
+      c = 10; /* the last line does not need a line end */
+    }
 
     if((size_t) (ptr - strbuf) + 1 >= strbuf_sz) {
       /* Make room for one more character and the terminator */
@@ -849,8 +855,8 @@ static gint fread_csv(void *db, FILE *f) {
        * strbuf unless it's a quote character.
        */
       if(!esc_quote && c == '"') {
-        char nextc = (char) fgetc(f);
-        ungetc((int) nextc, f);
+        int nextc = fgetc(f);
+        ungetc(nextc, f); /* does nothing if nextc is EOF */
 
         if(nextc!='"') {
           /* Field ends. Note that even EOF is acceptable here */
-- 
2.43.0


From 8364f095a1d20fb4fac9df3672e71617cd7aa5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:34 +0000
Subject: [PATCH 66/94] fix: CSV import leaked the values of records that could
 not be stored

The storage of values already parsed for a record was not returned when the
record could not be created or the file ended within it.
---
 Db/dbutil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index bfa3a61..fd07e2e 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -984,6 +984,8 @@ static gint fread_csv(void *db, FILE *f) {
         if(wg_set_field(db, rec, i, encdata[i])) {
           err = -2;
           show_io_error(db, "Failed to save field data");
+          for(i++; i<reclen; i++)
+            wg_free_encoded(db, encdata[i]);
           break;
         }
       }
@@ -993,6 +995,9 @@ static gint fread_csv(void *db, FILE *f) {
     }
   }
 
+  /* Values of an unfinished record */
+  while(reclen > 0)
+    wg_free_encoded(db, encdata[--reclen]);
   free(encdata);
   free(strbuf);
   return err;
-- 
2.43.0


From 83d1761694150e0711abcdceeac4d8d3854b38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:45 +0000
Subject: [PATCH 67/94] fix: a failed attach left the memory segment attached

When an existing segment was refused (too small, no journal, not compatible)
or could not be initialized, it stayed mapped into the process with no handle
to detach it by, and was kept in memory after the database was deleted.
---
 Db/dbmem.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index 453efe9..37ecf55 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -98,6 +98,7 @@ static gint show_memory_error_nr(char* errmsg, int nr);
         wg_print_code_version(); \
         wg_print_header_version(dbmemsegh(shmx), 1); \
       } \
+      wg_detach_database(shmx); \
       return NULL; \
     } \
   }
@@ -225,6 +226,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
      */
     if(!dbcheckh(shm)) {
       show_memory_error("Existing segment header is invalid");
+      detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
       free_dbhandle(dbhandle);
 #endif
@@ -238,6 +240,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(((db_memsegment_header *) shm)->size < minsize) {
         show_memory_error("Existing segment is too small");
+        detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
 #endif
@@ -253,6 +256,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(!((db_memsegment_header *) shm)->logging.active) {
         show_memory_error("Existing memory segment has no journal");
+        detach_shared_memory(shm);
         free_dbhandle(dbhandle);
         return NULL;
       }
@@ -264,6 +268,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
     omode = wg_memmode(dbhandle);
     if(omode == -1) {
       show_memory_error("Failed to get the access mode of the segment");
+      detach_shared_memory(shm);
       free_dbhandle(dbhandle);
       return NULL;
     }
@@ -321,6 +326,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
 #endif
       if(err) {
         show_memory_error("Database initialization failed");
+        detach_shared_memory(shm);
         free_shared_memory(key);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
-- 
2.43.0


From effc859f7da08fdc0916c5722de104deaefa6335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:54 +0000
Subject: [PATCH 68/94] fix: a refused registration of an external database
 reported success

When the table of external databases was full, wg_register_external_db()
printed an error and returned 0.
---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 7abf2a6..fb1fc9b 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1417,7 +1417,7 @@ gint wg_register_external_db(void *db, void *extdb) {
       "Database has indexes, external references not allowed");
   }
   if(dbh->extdbs.count >= MAX_EXTDB) {
-    show_dballoc_error(db, "cannot register external database");
+    return show_dballoc_error(db, "cannot register external database");
   } else {
     dbh->extdbs.offset[dbh->extdbs.count] = ptrtooffset(db, dbmemsegh(extdb));
     dbh->extdbs.size[dbh->extdbs.count++] = \
-- 
2.43.0


From da7bd02b57673e4049f59e4ce75628a2c671199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:54 +0000
Subject: [PATCH 69/94] fix: prefix, language or type of an external string was
 read from the wrong place

The companion string of a string stored in another database is encoded
relative to that database; it was decoded relative to the referring one,
which also made comparisons of such strings read arbitrary memory.
---
 Db/dbdata.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index f54c174..4811ce1 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2794,6 +2794,15 @@ char* wg_decode_unistr_lang(void* db, gint data, gint type) {
     fldptr=((gint*)objptr)+LONGSTR_EXTRASTR_POS;
     fldval=*fldptr;
     if (fldval==0) return NULL;
+#ifdef USE_CHILD_DB
+    /* The companion of an external string is encoded relative to
+     * the database where the string is stored. */
+    {
+      void *owner = get_ptr_owner(db, data);
+      if(owner && owner != dbmemseg(db))
+        fldval = wg_translate_hdroffset(db, owner, fldval);
+    }
+#endif
     res=wg_decode_unistr(db,fldval,type);
     return res;
   }
-- 
2.43.0


From c11bcbf5e76b739022ce901ee9c280fb64ea5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:13 +0000
Subject: [PATCH 70/94] fix: external match record was read relative to the
 wrong database

A query matching against a record of a registered external database took
the field values of that record as if they were encoded in the referring
database.
---
 Db/dbquery.c | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index f2229dd..b3fab48 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -91,6 +91,7 @@ static gint most_restricting_column(void *db,
   wg_query_arg *arglist, gint argc, gint *index_id);
 static gint check_arglist(void *db, void *rec, wg_query_arg *arglist,
   gint argc);
+static gint matchrec_value(void *db, void *parent, gint value);
 static gint prepare_params(void *db, void *matchrec, gint reclen,
   wg_query_arg *arglist, gint argc,
   wg_query_arg **farglist, gint *fargc);
@@ -332,6 +333,16 @@ static gint check_arglist(void *db, void *rec, wg_query_arg *arglist,
   return 1;
 }
 
+/** Translate a match record value, if the record is external
+ */
+static gint matchrec_value(void *db, void *parent, gint value) {
+#ifdef USE_CHILD_DB
+  if(parent)
+    return wg_translate_hdroffset(db, parent, value);
+#endif
+  return value;
+}
+
 /** Prepare query parameters
  *
  * - Validates matchrec and arglist
@@ -351,6 +362,8 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
   wg_query_arg *arglist, gint argc,
   wg_query_arg **farglist, gint *fargc) {
   int i;
+  gint value;
+  void *parent = NULL;
 
   if(matchrec) {
     /* Get the correct length of matchrec data area and the pointer
@@ -358,6 +371,12 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
      * local memory (indicated by NON-zero reclen) we will skip this step.
      */
     if(!reclen) {
+#ifdef USE_CHILD_DB
+      /* Data of an external record is relative to its own database */
+      parent = wg_get_rec_owner(db, matchrec);
+      if(parent == dbmemseg(db))
+        parent = NULL;
+#endif
       reclen = wg_get_record_len(db, matchrec);
       matchrec = wg_get_record_dataarray(db, matchrec);
     }
@@ -386,7 +405,8 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
   *fargc = argc;
   if(matchrec) {
     for(i=0; i<reclen; i++) {
-      if(wg_get_encoded_type(db, ((gint *) matchrec)[i]) != WG_VARTYPE)
+      value = matchrec_value(db, parent, ((gint *) matchrec)[i]);
+      if(wg_get_encoded_type(db, value) != WG_VARTYPE)
         (*fargc)++;
     }
   }
@@ -418,10 +438,11 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
     if(matchrec) {
       int j;
       for(i=0, j=argc; i<reclen; i++) {
-        if(wg_get_encoded_type(db, ((gint *) matchrec)[i]) != WG_VARTYPE) {
+        value = matchrec_value(db, parent, ((gint *) matchrec)[i]);
+        if(wg_get_encoded_type(db, value) != WG_VARTYPE) {
           tmp[j].column = i;
           tmp[j].cond = WG_COND_EQUAL;
-          tmp[j++].value = ((gint *) matchrec)[i];
+          tmp[j++].value = value;
         }
       }
     }
-- 
2.43.0


From d90f11ecb37e09ab27a0d7d5a678c12dc92129f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 71/94] fix: Python: a string that cannot be encoded crashed,
 an encoded one was leaked

---
 Python/wgdbmodule.c | 161 +++++++++++++++++++++++++-------------------
 1 file changed, 91 insertions(+), 70 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index a80d6c9..0cd4b79 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -105,6 +105,7 @@ static PyObject *wgdb_is_record(PyObject *self, PyObject *args);
 static PyObject *wgdb_delete_record(PyObject *self, PyObject *args);
 
 static wg_int pytype_to_wgtype(PyObject *data, wg_int ftype);
+static PyObject *encode_pystring(PyObject *data, char **s);
 static wg_int encode_pyobject_null(wg_database *db);
 static wg_int encode_pyobject_record(wg_database *db, PyObject *data);
 static wg_int encode_pyobject_int(wg_database *db, PyObject *data, int param);
@@ -892,6 +893,42 @@ static wg_int pytype_to_wgtype(PyObject *data, wg_int ftype) {
   return ftype;
 }
 
+/** Convert a Python string to the form that is stored in the database.
+ *  Returns a new reference to the object that owns the text pointed
+ *  to by *s. Returns NULL with an exception set if there is no such form.
+ */
+static PyObject *encode_pystring(PyObject *data, char **s) {
+  PyObject *bytes;
+
+#ifndef PYTHON3
+  if(!PyString_Check(data)) {
+    PyErr_SetString(PyExc_TypeError, "Expected a string.");
+    return NULL;
+  }
+  bytes = data;
+  Py_INCREF(bytes);
+  *s = PyString_AsString(bytes);
+#else
+  if(!PyUnicode_Check(data)) {
+    PyErr_SetString(PyExc_TypeError, "Expected a string.");
+    return NULL;
+  }
+#ifdef HAVE_LOCALEENC
+  bytes = PyUnicode_EncodeLocale(data, ENCODEERR);
+#else
+  bytes = PyUnicode_AsEncodedString(data, NULL, ENCODEERR);
+#endif
+  if(!bytes)
+    return NULL;
+  *s = PyBytes_AsString(bytes);
+#endif
+  if(!*s) {
+    Py_DECREF(bytes);
+    return NULL;
+  }
+  return bytes;
+}
+
 /** Encode an atomic value of type WG_NULLTYPE
  *  Always succeeds.
  */
@@ -948,24 +985,21 @@ static wg_int encode_pyobject_double(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_str(wg_database *db, PyObject *data,
   char *ext_str, int param) {
+  wg_int enc;
   char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
-  /* wg_encode_str is not guaranteed to check for NULL pointer */
-  if(s) {
-    if(!param) {
-      return wg_encode_str(db->db, s, ext_str);
-    } else {
-      return wg_encode_query_param_str(db->db, s, ext_str);
-    }
-  } else {
+  PyObject *bytes = encode_pystring(data, &s);
+
+  /* The object could not be converted, error has been set */
+  if(!bytes)
     return WG_ILLEGAL;
+
+  if(!param) {
+    enc = wg_encode_str(db->db, s, ext_str);
+  } else {
+    enc = wg_encode_query_param_str(db->db, s, ext_str);
   }
+  Py_DECREF(bytes);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_URITYPE
@@ -975,24 +1009,21 @@ static wg_int encode_pyobject_str(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_uri(wg_database *db, PyObject *data,
   char *ext_str, int param) {
+  wg_int enc;
   char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
-  /* wg_encode_str is not guaranteed to check for NULL pointer */
-  if(s) {
-    if(!param) {
-      return wg_encode_uri(db->db, s, ext_str);
-    } else {
-      return wg_encode_query_param_uri(db->db, s, ext_str);
-    }
-  } else {
+  PyObject *bytes = encode_pystring(data, &s);
+
+  /* The object could not be converted, error has been set */
+  if(!bytes)
     return WG_ILLEGAL;
+
+  if(!param) {
+    enc = wg_encode_uri(db->db, s, ext_str);
+  } else {
+    enc = wg_encode_query_param_uri(db->db, s, ext_str);
   }
+  Py_DECREF(bytes);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_XMLLITERALTYPE
@@ -1002,24 +1033,21 @@ static wg_int encode_pyobject_uri(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_xmlliteral(wg_database *db, PyObject *data,
   char *ext_str, int param) {
+  wg_int enc;
   char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
-  /* wg_encode_str is not guaranteed to check for NULL pointer */
-  if(s) {
-    if(!param) {
-      return wg_encode_xmlliteral(db->db, s, ext_str);
-    } else {
-      return wg_encode_query_param_xmlliteral(db->db, s, ext_str);
-    }
-  } else {
+  PyObject *bytes = encode_pystring(data, &s);
+
+  /* The object could not be converted, error has been set */
+  if(!bytes)
     return WG_ILLEGAL;
+
+  if(!param) {
+    enc = wg_encode_xmlliteral(db->db, s, ext_str);
+  } else {
+    enc = wg_encode_query_param_xmlliteral(db->db, s, ext_str);
   }
+  Py_DECREF(bytes);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_CHARTYPE
@@ -1028,24 +1056,21 @@ static wg_int encode_pyobject_xmlliteral(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_char(wg_database *db, PyObject *data,
   int param) {
+  wg_int enc;
   char *s;
-#ifndef PYTHON3
-  s = PyString_AsString(data);
-#elif defined(HAVE_LOCALEENC)
-  s = PyBytes_AsString(PyUnicode_EncodeLocale(data, ENCODEERR));
-#else
-  s = PyBytes_AsString(PyUnicode_AsEncodedString(data, NULL, ENCODEERR));
-#endif
-  /* wg_encode_str is not guaranteed to check for NULL pointer */
-  if(s) {
-    if(!param) {
-      return wg_encode_char(db->db, s[0]);
-    } else {
-      return wg_encode_query_param_char(db->db, s[0]);
-    }
-  } else {
+  PyObject *bytes = encode_pystring(data, &s);
+
+  /* The object could not be converted, error has been set */
+  if(!bytes)
     return WG_ILLEGAL;
+
+  if(!param) {
+    enc = wg_encode_char(db->db, s[0]);
+  } else {
+    enc = wg_encode_query_param_char(db->db, s[0]);
   }
+  Py_DECREF(bytes);
+  return enc;
 }
 
 /** Encode an atomic value of type WG_FIXPOINTTYPE
@@ -1177,6 +1202,7 @@ static wg_int encode_pyobject(wg_database *db, PyObject *data,
 static wg_int encode_pyobject_ext(PyObject *self,
                             wg_database *db, PyObject *obj, int param) {
   PyObject *data;
+  PyObject *ext_bytes = NULL;
   wg_int enc, ftype = 0;
   char *ext_str = NULL;
 
@@ -1205,16 +1231,8 @@ static wg_int encode_pyobject_ext(PyObject *self,
     }
 
     if(extargs > 2) {
-#ifndef PYTHON3
-      ext_str = PyString_AsString(PyTuple_GetItem(obj, 2));
-#elif defined(HAVE_LOCALEENC)
-      ext_str = PyBytes_AsString(
-        PyUnicode_EncodeLocale(PyTuple_GetItem(obj, 2), ENCODEERR));
-#else
-      ext_str = PyBytes_AsString(
-        PyUnicode_AsEncodedString(PyTuple_GetItem(obj, 2), NULL, ENCODEERR));
-#endif
-      if(!ext_str) {
+      ext_bytes = encode_pystring(PyTuple_GetItem(obj, 2), &ext_str);
+      if(!ext_bytes) {
         /* Error has been set in conversion */
         return WG_ILLEGAL;
       }
@@ -1228,16 +1246,19 @@ static wg_int encode_pyobject_ext(PyObject *self,
   if(ftype == -1) {
     PyErr_SetString(PyExc_TypeError,
       "Requested encoding is not supported.");
+    Py_XDECREF(ext_bytes);
     return WG_ILLEGAL;
   }
   else if(ftype == -2) {
     PyErr_SetString(PyExc_TypeError,
       "Value is of unsupported type.");
+    Py_XDECREF(ext_bytes);
     return WG_ILLEGAL;
   }
 
   /* Now encode the given obj using the selected type */
   enc = encode_pyobject(db, data, ftype, ext_str, param);
+  Py_XDECREF(ext_bytes);
   if(enc==WG_ILLEGAL)
     wgdb_error_setstring(self, "Value encoding error.");
 
-- 
2.43.0


From 3bcac9f5d82506763a22d7260b278f0fb3811ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 72/94] fix: Python: integers that do not fit were stored as
 something else

---
 Python/wgdbmodule.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 0cd4b79..a5ff278 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -955,6 +955,8 @@ static wg_int encode_pyobject_int(wg_database *db, PyObject *data, int param) {
 #else
   intdata = (wg_int) PyLong_AsLong(data);
 #endif
+  if(intdata == -1 && PyErr_Occurred())
+    return WG_ILLEGAL; /* does not fit */
 
   if(!param) {
     return wg_encode_int(db->db, intdata);
@@ -1136,12 +1138,14 @@ static wg_int encode_pyobject_time(wg_database *db, PyObject *data,
  */
 static wg_int encode_pyobject_var(wg_database *db, PyObject *data,
   int param) {
-  int intdata;
+  wg_int intdata;
 #ifndef PYTHON3
-  intdata = (int) PyInt_AsLong(data);
+  intdata = (wg_int) PyInt_AsLong(data);
 #else
-  intdata = (int) PyLong_AsLong(data);
+  intdata = (wg_int) PyLong_AsLong(data);
 #endif
+  if(intdata == -1 && PyErr_Occurred())
+    return WG_ILLEGAL; /* does not fit */
 
   if(!param) {
     return wg_encode_var(db->db, intdata);
@@ -1223,6 +1227,10 @@ static wg_int encode_pyobject_ext(PyObject *self,
 #else
       ftype = (wg_int) PyLong_AsLong(PyTuple_GetItem(obj, 1));
 #endif
+      if(ftype == -1 && PyErr_Occurred()) {
+        /* Not an integer or does not fit */
+        return WG_ILLEGAL;
+      }
       if(ftype<0) {
         PyErr_SetString(PyExc_ValueError,
           "Invalid field type for value.");
@@ -1503,8 +1511,8 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
      * however this approach preserves consistency in handling the type
      * conversions.
      */
-    int ddata = wg_decode_var(((wg_database *) db)->db, fdata);
-    return Py_BuildValue("(i,i)", ddata, WG_VARTYPE);
+    wg_int ddata = wg_decode_var(((wg_database *) db)->db, fdata);
+    return Py_BuildValue("(n,i)", ddata, WG_VARTYPE);
   }
   else {
     char buf[80];
-- 
2.43.0


From 79bfb6e91d4b4f473cf1af34f6bef1be2b36fcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 73/94] fix: Python: record objects returned by reading
 functions were never freed

---
 Python/wgdbmodule.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index a5ff278..040e5e9 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -711,7 +711,6 @@ static PyObject * wgdb_get_first_record(PyObject *self, PyObject *args) {
     return NULL;
   }
 
-  Py_INCREF(rec);
   return (PyObject *) rec;
 }
 
@@ -739,7 +738,6 @@ static PyObject * wgdb_get_next_record(PyObject *self, PyObject *args) {
     return NULL;
   }
 
-  Py_INCREF(rec);
   return (PyObject *) rec;
 }
 
@@ -1442,7 +1440,6 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
       wg_record_type.tp_free(ddata);
       return NULL;
     }
-    Py_INCREF(ddata);
     return (PyObject *) ddata;
   }
   else if(ftype==WG_INTTYPE) {
@@ -1824,7 +1821,6 @@ static PyObject * wgdb_fetch(PyObject *self, PyObject *args) {
     return NULL;
   }
 
-  Py_INCREF(rec);
   return (PyObject *) rec;
 }
 
@@ -1975,6 +1971,7 @@ static PyObject *wg_query_get_res_count(wg_query_ob *obj, void *closure) {
     if(obj->query->qtype == WG_QTYPE_PREFETCH) {
       return Py_BuildValue("K", (unsigned PY_LONG_LONG) obj->query->res_count);
     } else {
+      Py_INCREF(Py_None);
       return Py_None;
     }
   } else {
-- 
2.43.0


From 4855e3c02a185c0fed0de853307eb08b7d62b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 74/94] fix: Python: strings were not read back in the encoding
 they are written in

---
 Python/wgdbmodule.c | 40 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 040e5e9..2a2aa0c 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -106,6 +106,7 @@ static PyObject *wgdb_delete_record(PyObject *self, PyObject *args);
 
 static wg_int pytype_to_wgtype(PyObject *data, wg_int ftype);
 static PyObject *encode_pystring(PyObject *data, char **s);
+static PyObject *decode_pystring(char *s);
 static wg_int encode_pyobject_null(wg_database *db);
 static wg_int encode_pyobject_record(wg_database *db, PyObject *data);
 static wg_int encode_pyobject_int(wg_database *db, PyObject *data, int param);
@@ -927,6 +928,25 @@ static PyObject *encode_pystring(PyObject *data, char **s) {
   return bytes;
 }
 
+/** Convert text stored in the database to a Python string. This is
+ *  the reverse of encode_pystring().
+ */
+static PyObject *decode_pystring(char *s) {
+#ifndef PYTHON3
+  return Py_BuildValue("s", s);
+#else
+  if(!s) {
+    Py_INCREF(Py_None);
+    return Py_None;
+  }
+#ifdef HAVE_LOCALEENC
+  return PyUnicode_DecodeLocale(s, ENCODEERR);
+#else
+  return PyUnicode_Decode(s, strlen(s), NULL, ENCODEERR);
+#endif
+#endif
+}
+
 /** Encode an atomic value of type WG_NULLTYPE
  *  Always succeeds.
  */
@@ -1453,7 +1473,7 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
   else if(ftype==WG_STRTYPE) {
     char *ddata = wg_decode_str(((wg_database *) db)->db, fdata);
     /* Data is copied here, no leaking */
-    return Py_BuildValue("s", ddata);
+    return decode_pystring(ddata);
   }
   else if(ftype==WG_URITYPE) {
     char *ddata = wg_decode_uri(((wg_database *) db)->db, fdata);
@@ -1462,20 +1482,30 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
 #ifndef PYTHON3
       return PyString_FromFormat("%s%s", ext_str, ddata);
 #else
-      return PyUnicode_FromFormat("%s%s", ext_str, ddata);
+      PyObject *prefix, *uri = NULL;
+      PyObject *suffix = decode_pystring(ddata);
+      if(!suffix)
+        return NULL;
+      prefix = decode_pystring(ext_str);
+      if(prefix) {
+        uri = PyUnicode_Concat(prefix, suffix);
+        Py_DECREF(prefix);
+      }
+      Py_DECREF(suffix);
+      return uri;
 #endif
     }
-    else return Py_BuildValue("s", ddata);
+    else return decode_pystring(ddata);
   }
   else if(ftype==WG_XMLLITERALTYPE) {
     char *ddata = wg_decode_xmlliteral(((wg_database *) db)->db, fdata);
-    return Py_BuildValue("s", ddata);
+    return decode_pystring(ddata);
   }
   else if(ftype==WG_CHARTYPE) {
     char ddata[2];
     ddata[0] = wg_decode_char(((wg_database *) db)->db, fdata);
     ddata[1] = '\0';
-    return Py_BuildValue("s", ddata); /* treat as single-character string */
+    return decode_pystring(ddata); /* treat as single-character string */
   }
   else if(ftype==WG_FIXPOINTTYPE) {
     double ddata = wg_decode_fixpoint(((wg_database *) db)->db, fdata);
-- 
2.43.0


From f3f4f32ff5319f8345331251f2397d65a6413677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 75/94] fix: Python: using a detached database crashed

---
 Python/wgdbmodule.c | 60 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 2a2aa0c..ecd898c 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -159,6 +159,7 @@ static PyObject *wg_query_repr(wg_query_ob *obj);
 static PyObject *wg_query_get_res_count(wg_query_ob *obj, void *closure);
 static int wg_query_set_res_count(wg_query_ob *obj,
                                       PyObject *value, void *closure);
+static int check_attached(PyObject *self, PyObject *db);
 static void wgdb_error_setstring(PyObject *self, char *err);
 
 /* ============= Private vars ============ */
@@ -497,6 +498,8 @@ static PyObject * wgdb_dump(PyObject *self, PyObject *args) {
   char * fname = NULL;
   if(!PyArg_ParseTuple(args, "O!s", &wg_database_type, &db, &fname))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
   if (wg_dump(((wg_database*)db)->db, fname) == 0) {
     Py_INCREF(Py_None);
     return Py_None;
@@ -512,6 +515,8 @@ static PyObject * wgdb_load(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!s", &wg_database_type, &db, &fname))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
   if (wg_import_dump(((wg_database*)db)->db, fname) == 0) {
     Py_INCREF(Py_None);
     return Py_None;
@@ -528,6 +533,8 @@ static PyObject * wgdb_replay_log(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!s", &wg_database_type, &db, &fname))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
   res = wg_replay_log(((wg_database*)db)->db, fname);
   if (res == 0 || res == -1) {
     Py_INCREF(Py_None);
@@ -544,6 +551,8 @@ static PyObject * wgdb_start_logging(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
   res = wg_start_logging(((wg_database*)db)->db);
   if (res == 0 || res == -1) {
     Py_INCREF(Py_None);
@@ -560,6 +569,8 @@ static PyObject * wgdb_stop_logging(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
   res = wg_stop_logging(((wg_database*)db)->db);
   if (res == 0 || res == -1) {
     Py_INCREF(Py_None);
@@ -578,6 +589,8 @@ static PyObject * wgdb_size(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
   res = wg_database_size(((wg_database*)db)->db);
   return PyLong_FromUnsignedLong((unsigned long)res);
 }
@@ -588,6 +601,8 @@ static PyObject * wgdb_freesize(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
   res = wg_database_freesize(((wg_database*)db)->db);
   return PyLong_FromUnsignedLong((unsigned long)res);
 }
@@ -600,6 +615,8 @@ static PyObject * wgdb_createindex(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &fld))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
   res = wg_create_index(((wg_database*)db)->db,
     fld, WG_INDEX_TYPE_TTREE, NULL, 0);
   if (res == 0) {
@@ -621,6 +638,8 @@ static PyObject * wgdb_indexid(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &fld))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
   res = wg_column_to_index_id(((wg_database*)db)->db,
     fld, WG_INDEX_TYPE_TTREE, NULL, 0);
   if(res == -1) {
@@ -649,6 +668,8 @@ static PyObject * wgdb_create_record(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &length))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   /* Build a new record object */
   rec = (wg_record *) wg_record_type.tp_alloc(&wg_record_type, 0);
@@ -676,6 +697,8 @@ static PyObject * wgdb_create_raw_record(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &length))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   /* Build a new record object */
   rec = (wg_record *) wg_record_type.tp_alloc(&wg_record_type, 0);
@@ -700,6 +723,8 @@ static PyObject * wgdb_get_first_record(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   /* Build a new record object */
   rec = (wg_record *) wg_record_type.tp_alloc(&wg_record_type, 0);
@@ -726,6 +751,8 @@ static PyObject * wgdb_get_next_record(PyObject *self, PyObject *args) {
   if(!PyArg_ParseTuple(args, "O!O!", &wg_database_type, &db,
       &wg_record_type, &prev))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   /* Build a new record object */
   rec = (wg_record *) wg_record_type.tp_alloc(&wg_record_type, 0);
@@ -753,6 +780,8 @@ static PyObject * wgdb_get_record_len(PyObject *self, PyObject *args) {
   if(!PyArg_ParseTuple(args, "O!O!", &wg_database_type, &db,
       &wg_record_type, &rec))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   len = wg_get_record_len(((wg_database *) db)->db,
     ((wg_record *) rec)->rec);
@@ -793,6 +822,8 @@ static PyObject * wgdb_delete_record(PyObject *self, PyObject *args) {
   if(!PyArg_ParseTuple(args, "O!O!", &wg_database_type, &db,
       &wg_record_type, &rec))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   err = wg_delete_record(((wg_database *) db)->db,
     ((wg_record *) rec)->rec);
@@ -1318,6 +1349,8 @@ static PyObject *wgdb_set_field(PyObject *self, PyObject *args,
       &wg_database_type, &db, &wg_record_type, &rec,
       &fieldnr, &data, &ftype, &ext_str))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   /* Determine the argument type. If the optional encoding
    * argument is not supplied, default encoding for the Python type
@@ -1376,6 +1409,8 @@ static PyObject *wgdb_set_new_field(PyObject *self, PyObject *args,
       &wg_database_type, &db, &wg_record_type, &rec,
       &fieldnr, &data, &ftype, &ext_str))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   ftype = pytype_to_wgtype(data, ftype);
   if(ftype == -1) {
@@ -1426,6 +1461,8 @@ static PyObject *wgdb_get_field(PyObject *self, PyObject *args) {
   if(!PyArg_ParseTuple(args, "O!O!n", &wg_database_type, &db,
       &wg_record_type, &rec, &fieldnr))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   /* First retrieve the field data. The information about
    * the field type is encoded inside the field.
@@ -1568,6 +1605,8 @@ static PyObject * wgdb_start_write(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   lock_id = wg_start_write(((wg_database *) db)->db);
   if(!lock_id) {
@@ -1589,6 +1628,8 @@ static PyObject * wgdb_end_write(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &lock_id))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   if(!wg_end_write(((wg_database *) db)->db, lock_id)) {
     wgdb_error_setstring(self, "Failed to release write lock.");
@@ -1610,6 +1651,8 @@ static PyObject * wgdb_start_read(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!", &wg_database_type, &db))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   lock_id = wg_start_read(((wg_database *) db)->db);
   if(!lock_id) {
@@ -1631,6 +1674,8 @@ static PyObject * wgdb_end_read(PyObject *self, PyObject *args) {
 
   if(!PyArg_ParseTuple(args, "O!n", &wg_database_type, &db, &lock_id))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   if(!wg_end_read(((wg_database *) db)->db, lock_id)) {
     wgdb_error_setstring(self, "Failed to release read lock.");
@@ -1662,6 +1707,8 @@ static int parse_query_params(PyObject *self, PyObject *args,
   if(!PyArg_ParseTupleAndKeywords(args, kwds, "O!|OO", kwlist,
       &wg_database_type, &db, &matchrec, &arglist))
     return 0;
+  if(!check_attached(self, db))
+    return 0;
 
   Py_INCREF(db);  /* Make sure we don't lose database connection */
   query->db = (wg_database *) db;
@@ -1838,6 +1885,8 @@ static PyObject * wgdb_fetch(PyObject *self, PyObject *args) {
   if(!PyArg_ParseTuple(args, "O!O!", &wg_database_type, &db,
       &wg_query_type, &query))
     return NULL;
+  if(!check_attached(self, db))
+    return NULL;
 
   /* Build a new record object */
   rec = (wg_record *) wg_record_type.tp_alloc(&wg_record_type, 0);
@@ -2019,6 +2068,17 @@ static int wg_query_set_res_count(wg_query_ob *obj,
   return -1;
 }
 
+/** Check that the database has not been detached.
+ *  Returns 1 if it is usable, otherwise sets the exception and returns 0.
+ */
+static int check_attached(PyObject *self, PyObject *db) {
+  if(!((wg_database *) db)->db) {
+    wgdb_error_setstring(self, "Database is detached.");
+    return 0;
+  }
+  return 1;
+}
+
 /** Set module exception.
  *
  */
-- 
2.43.0


From 5cf1ed17d29c5c890099dc5ccbe0c036b301b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 76/94] fix: Python: a query was used after it had been freed

---
 Python/wgdbmodule.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index ecd898c..fc16740 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1887,6 +1887,10 @@ static PyObject * wgdb_fetch(PyObject *self, PyObject *args) {
     return NULL;
   if(!check_attached(self, db))
     return NULL;
+  if(!((wg_query_ob *) query)->query) {
+    PyErr_SetString(PyExc_ValueError, "Invalid query object");
+    return NULL;
+  }
 
   /* Build a new record object */
   rec = (wg_record *) wg_record_type.tp_alloc(&wg_record_type, 0);
@@ -1942,8 +1946,10 @@ static void free_query(wg_query_ob *obj) {
      * XXX: this is hacky. db pointer may become significant
      * in the future, which makes this a timebomb.
      */
-    if(obj->query)
+    if(obj->query) {
       wg_free_query(obj->db->db, obj->query);
+      obj->query = NULL;
+    }
 
     if(obj->arglist) {
       if(obj->db->db) {
-- 
2.43.0


From 1255f9401a94d94d943501f614348087693666a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 77/94] fix: Python: record, query and database objects without
 contents could be made

---
 Python/wgdbmodule.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index fc16740..48936cd 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -2116,15 +2116,15 @@ PyMODINIT_FUNC PyInit_wgdb(void)
   PyObject *m;
   struct module_state *st;
 
-  wg_database_type.tp_new = PyType_GenericNew;
+  /* None of the types has tp_new, because instances that are not made
+   * by the functions of this module would have no valid pointers.
+   */
   if (PyType_Ready(&wg_database_type) < 0)
     INITERROR
 
-  wg_record_type.tp_new = PyType_GenericNew;
   if (PyType_Ready(&wg_record_type) < 0)
     INITERROR
 
-  wg_query_type.tp_new = PyType_GenericNew;
   if (PyType_Ready(&wg_query_type) < 0)
     INITERROR
 
-- 
2.43.0


From 4035c6aa9ab5cbdf3b7668bc4863d7309a934b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 78/94] fix: Python: a field value that was refused stayed
 allocated in the database

---
 Python/wgdbmodule.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 48936cd..4995641 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1381,6 +1381,8 @@ static PyObject *wgdb_set_field(PyObject *self, PyObject *args,
   err = wg_set_field(((wg_database *) db)->db,
     ((wg_record *) rec)->rec, fieldnr, fdata);
   if(err < 0) {
+    if(err == -1 || err == -2) /* refused, the value is not in use */
+      wg_free_encoded(((wg_database *) db)->db, fdata);
     wgdb_error_setstring(self, "Failed to set field value.");
     return NULL;
   }
@@ -1433,6 +1435,8 @@ static PyObject *wgdb_set_new_field(PyObject *self, PyObject *args,
   err = wg_set_new_field(((wg_database *) db)->db,
     ((wg_record *) rec)->rec, fieldnr, fdata);
   if(err < 0) {
+    if(err == -1 || err == -2) /* refused, the value is not in use */
+      wg_free_encoded(((wg_database *) db)->db, fdata);
     wgdb_error_setstring(self, "Failed to set field value.");
     return NULL;
   }
-- 
2.43.0


From eafd3627277e21bc2afb586f20c09c517e71463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 79/94] fix: Python: query arguments that failed to convert
 crashed, were leaked or truncated

---
 Python/wgdbmodule.c | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index 4995641..b2657f2 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -1720,12 +1720,14 @@ static int parse_query_params(PyObject *self, PyObject *args,
   /* Determine type of arglist */
   query->argc = 0;
   if(arglist && arglist!=Py_None) {
-    int len, i;
+    Py_ssize_t len, i;
     if(!PySequence_Check(arglist)) {
       PyErr_SetString(PyExc_TypeError, "Query arglist must be a sequence.");
       return 0;
     }
-    len = (int) PySequence_Size(arglist);
+    len = PySequence_Size(arglist);
+    if(len < 0)
+      return 0; /* error has been set */
 
     /* Argument list was present. Extract the individual arguments. */
     if(len > 0) {
@@ -1738,10 +1740,12 @@ static int parse_query_params(PyObject *self, PyObject *args,
 
       /* Now copy all the parameters. */
       for(i=0; i<len; i++) {
-        int col, cond;
+        wg_int col, cond;
         wg_int enc;
-        PyObject *t = PySequence_GetItem(arglist, (Py_ssize_t) i);
+        PyObject *t = PySequence_GetItem(arglist, i);
 
+        if(!t)
+          return 0; /* error has been set */
         if(!PyTuple_Check(t) || PyTuple_Size(t) != 3) {
           PyErr_SetString(PyExc_ValueError,
             "Query arglist item must be a 3-tuple.");
@@ -1804,9 +1808,11 @@ static int parse_query_params(PyObject *self, PyObject *args,
       query->matchrec = ((wg_record *) matchrec)->rec;
     }
     else if(PySequence_Check(matchrec)) {
-      int len = (int) PySequence_Size(matchrec);
+      Py_ssize_t len = PySequence_Size(matchrec);
+      if(len < 0)
+        return 0; /* error has been set */
       if(len) {
-        int i;
+        Py_ssize_t i;
 
         /* Construct the record. */
         query->matchrec = malloc(len * sizeof(wg_int));
@@ -1818,10 +1824,19 @@ static int parse_query_params(PyObject *self, PyObject *args,
 
         for(i=0; i<len; i++) {
           PyObject *sg_t = PySequence_GetItem(matchrec, i);
-          wg_int enc = encode_pyobject_ext(self, query->db, sg_t, 1);
-          Py_DECREF(sg_t);
+          wg_int enc = WG_ILLEGAL;
+          if(sg_t) {
+            enc = encode_pyobject_ext(self, query->db, sg_t, 1);
+            Py_DECREF(sg_t);
+          }
           if(enc==WG_ILLEGAL) {
-            /* Error set by encode function */
+            /* Error has been set. A record with no fields encoded
+             * yet is not seen by free_query().
+             */
+            if(!query->reclen) {
+              free(query->matchrec);
+              query->matchrec = NULL;
+            }
             return 0;
           }
 
-- 
2.43.0


From 5f08944163d7f04d6c6b4768e64c0e212818facf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:58 +0000
Subject: [PATCH 80/94] fix: Python: an insert that failed left a partial
 record in the database

---
 Python/whitedb.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/Python/whitedb.py b/Python/whitedb.py
index 6211f61..3e96ede 100644
--- a/Python/whitedb.py
+++ b/Python/whitedb.py
@@ -203,17 +203,25 @@ and record accessing functions."""
             self.start_write()
         try:
             r = wgdb.create_raw_record(self._db, l)
-            for i in range(l):
-                if type(fields[i]) == tupletype:
-                    data = fields[i][0]
-                    extarg = fields[i][1:]
-                else:
-                    data = fields[i]
-                    extarg = ()
-                if isinstance(data, Record):
-                    data = data.get__rec()
-                fargs = (self._db, r, i, data) + extarg
-                wgdb.set_new_field(*fargs)
+            i = 0
+            try:
+                for i in range(l):
+                    if type(fields[i]) == tupletype:
+                        data = fields[i][0]
+                        extarg = fields[i][1:]
+                    else:
+                        data = fields[i]
+                        extarg = ()
+                    if isinstance(data, Record):
+                        data = data.get__rec()
+                    fargs = (self._db, r, i, data) + extarg
+                    wgdb.set_new_field(*fargs)
+            except:
+                # do not leave a partial record behind
+                for j in range(i, l):
+                    wgdb.set_new_field(self._db, r, j, None)
+                wgdb.delete_record(self._db, r)
+                raise
         finally:
             if self.locking:
                 self.end_write()
-- 
2.43.0


From ed671706e98d63debee8e4aceeacaa9654932827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:19 +0000
Subject: [PATCH 81/94] fix: Python: a log replay that failed was reported as
 done

---
 Python/wgdbmodule.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Python/wgdbmodule.c b/Python/wgdbmodule.c
index b2657f2..9448e0a 100644
--- a/Python/wgdbmodule.c
+++ b/Python/wgdbmodule.c
@@ -536,7 +536,7 @@ static PyObject * wgdb_replay_log(PyObject *self, PyObject *args) {
   if(!check_attached(self, db))
     return NULL;
   res = wg_replay_log(((wg_database*)db)->db, fname);
-  if (res == 0 || res == -1) {
+  if (res == 0) {
     Py_INCREF(Py_None);
     return Py_None;
   } else {
-- 
2.43.0


From 7a70737203e0499abb05e10b5e41f10abd812615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:19 +0000
Subject: [PATCH 82/94] fix: creating a record too long for any database
 corrupted memory

---
 Db/dballoc.c | 7 ++++++-
 Db/dbdata.c  | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index fb1fc9b..696c733 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -883,8 +883,13 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
   db_area_header* areah;
 
   areah=(db_area_header*)area_header;
+  // cannot allocate negative sizes or sizes that no freelist can hold
+  if (nr<0 || wg_freebuckets_index(db,nr)<0 ||
+      wg_freebuckets_index(db,nr*sizeof(gint))<0) {
+    show_dballoc_error_nr(db," cannot allocate an object of gints: ",nr);
+    return 0;
+  }
   wantedbytes=nr*sizeof(gint); // object sizes are stored in bytes
-  if (wantedbytes<0) return 0; // cannot allocate negative or zero sizes
   if (wantedbytes<=MIN_VARLENOBJ_SIZE) usedbytes=MIN_VARLENOBJ_SIZE;
   /* XXX: modifying the next line breaks encode_query_param_unistr().
    * Rewrite this using macros to reduce the chance of accidental breakage */
diff --git a/Db/dbdata.c b/Db/dbdata.c
index 4811ce1..e4caea2 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -165,7 +165,7 @@ void* wg_create_raw_record(void* db, wg_int length) {
 
   offset=wg_alloc_gints(db,
                      &(dbmemsegh(db)->datarec_area_header),
-                    length+RECORD_HEADER_GINTS);
+                    (gint)((size_t) length+RECORD_HEADER_GINTS));
   if (!offset) {
     show_data_error_nr(db,"cannot create a record of size ",length);
 #ifdef USE_DBLOG
-- 
2.43.0


From 12757016e8f5cc09eeab63f73ef7728027770036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:47 +0000
Subject: [PATCH 83/94] fix: a query on a negative column read outside of the
 records

---
 Db/dbquery.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index b3fab48..197cda1 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -399,6 +399,13 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
   }
 #endif
 
+  for(i=0; i<argc; i++) {
+    if(arglist[i].column < 0) {
+      show_query_error(db, "Invalid column number in query argument");
+      return -1;
+    }
+  }
+
   /* Determine total number of query parameters (number of arguments
    * in arglist and non-wildcard fields of matchrec).
    */
-- 
2.43.0


From 7db9a608a88b2e7a01dafa89f9dcb25358ea10fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:15 +0000
Subject: [PATCH 84/94] fix: a very large field number passed the check and was
 read or written outside of the record

---
 Db/dbdata.c | 4 ++--
 Db/dbdata.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index e4caea2..630f380 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1200,7 +1200,7 @@ wg_int wg_get_field(void* db, void* record, wg_int fieldnr) {
     show_data_error_nr(db,"wrong database pointer given to wg_get_field",fieldnr);
     return WG_ILLEGAL;
   }
-  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))<=fieldnr+RECORD_HEADER_GINTS)) {
+  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))-RECORD_HEADER_GINTS<=fieldnr)) {
     show_data_error_nr(db,"wrong field number given to wg_get_field",fieldnr);\
     return WG_ILLEGAL;
   }
@@ -1218,7 +1218,7 @@ wg_int wg_get_field_type(void* db, void* record, wg_int fieldnr) {
     show_data_error_nr(db,"wrong database pointer given to wg_get_field_type",fieldnr);\
     return 0;
   }
-  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))<=fieldnr+RECORD_HEADER_GINTS)) {
+  if (fieldnr<0 || (getusedobjectwantedgintsnr(*((gint*)record))-RECORD_HEADER_GINTS<=fieldnr)) {
     show_data_error_nr(db,"wrong field number given to wg_get_field_type",fieldnr);\
     return 0;
   }
diff --git a/Db/dbdata.h b/Db/dbdata.h
index 988db22..d25957f 100644
--- a/Db/dbdata.h
+++ b/Db/dbdata.h
@@ -636,7 +636,7 @@ gint usage from start:
     show_data_error_str(db,"wrong database pointer given to ",opname);\
     return -1;\
   }\
-  if (fieldnr<0 || getusedobjectwantedgintsnr(*((gint*)record))<=fieldnr+RECORD_HEADER_GINTS) {\
+  if (fieldnr<0 || getusedobjectwantedgintsnr(*((gint*)record))-RECORD_HEADER_GINTS<=fieldnr) {\
     show_data_error_str(db,"wrong field number given to ",opname);\
     return -2;\
   }\
-- 
2.43.0


From 6d5a04d51777b4a31368e8f5367b64efb71eaf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:15 +0000
Subject: [PATCH 85/94] fix: a value that wg_set_int_field and others could not
 store stayed allocated

---
 Db/dbdata.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 630f380..cfa96ad 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -974,12 +974,21 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   return 0;
 }
 
+/** Store a value that was encoded for this field only. If the field
+ *  was not written at all, the storage of the value is given back.
+ */
+static wg_int set_encoded_field(void* db, void* record, wg_int fieldnr, wg_int fielddata) {
+  wg_int rc=wg_set_field(db,record,fieldnr,fielddata);
+  if (rc==-1 || rc==-2 || rc==-6) wg_free_encoded(db,fielddata);
+  return rc;
+}
+
 wg_int wg_set_int_field(void* db, void* record, wg_int fieldnr, gint data) {
   gint fielddata;
   fielddata=wg_encode_int(db,data);
   //printf("wg_set_int_field data %d encoded %d\n",data,fielddata);
   if (fielddata==WG_ILLEGAL) return -1;
-  return wg_set_field(db,record,fieldnr,fielddata);
+  return set_encoded_field(db,record,fieldnr,fielddata);
 }
 
 wg_int wg_set_double_field(void* db, void* record, wg_int fieldnr, double data) {
@@ -987,7 +996,7 @@ wg_int wg_set_double_field(void* db, void* record, wg_int fieldnr, double data)
 
   fielddata=wg_encode_double(db,data);
   if (fielddata==WG_ILLEGAL) return -1;
-  return wg_set_field(db,record,fieldnr,fielddata);
+  return set_encoded_field(db,record,fieldnr,fielddata);
 }
 
 wg_int wg_set_str_field(void* db, void* record, wg_int fieldnr, char* data) {
@@ -995,7 +1004,7 @@ wg_int wg_set_str_field(void* db, void* record, wg_int fieldnr, char* data) {
 
   fielddata=wg_encode_str(db,data,NULL);
   if (fielddata==WG_ILLEGAL) return -1;
-  return wg_set_field(db,record,fieldnr,fielddata);
+  return set_encoded_field(db,record,fieldnr,fielddata);
 }
 
 wg_int wg_set_rec_field(void* db, void* record, wg_int fieldnr, void* data) {
@@ -1003,7 +1012,7 @@ wg_int wg_set_rec_field(void* db, void* record, wg_int fieldnr, void* data) {
 
   fielddata=wg_encode_record(db,data);
   if (fielddata==WG_ILLEGAL) return -1;
-  return wg_set_field(db,record,fieldnr,fielddata);
+  return set_encoded_field(db,record,fieldnr,fielddata);
 }
 
 /** Special case of updating a field value without a write-lock.
-- 
2.43.0


From 2471b9ebcae4d676bf386f29a863c018a2bedc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:03 +0000
Subject: [PATCH 86/94] fix: searching a negative column read outside of the
 records

---
 Db/dbquery.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 197cda1..805144b 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -2080,6 +2080,11 @@ void *wg_find_record(void *db, gint fieldnr, gint cond, gint data,
     void* lastrecord) {
   gint index_id = -1;
 
+  if(fieldnr < 0) {
+    show_query_error(db, "Invalid column number");
+    return NULL;
+  }
+
   /* find index on colum */
   if(cond != WG_COND_NOT_EQUAL) {
     index_id = wg_multi_column_to_index_id(db, &fieldnr, 1,
-- 
2.43.0


From 02169b6888b6c7eab57d609c81c8d16448ceb753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:03 +0000
Subject: [PATCH 87/94] fix: a blob of negative length was hashed and written
 to the journal

---
 Db/dbdata.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index cfa96ad..1c53fd7 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2631,7 +2631,9 @@ static gint encode_unistr(void* db, const char* str, const char* lang, gint type
 gint wg_encode_uniblob(void* db, const char* str, const char* lang, gint type, gint len) {
   gint offset;
 
-  if (0) {
+  if (len<0) {
+    show_data_error_nr(db,"cannot create a blob of size ",len);
+    return WG_ILLEGAL;
   } else {
 #ifdef USE_DBLOG
     /* Log before allocating. */
-- 
2.43.0


From 70f85f74ef1b425bfcb9c09edc066bd20dd796f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:43 +0000
Subject: [PATCH 88/94] fix: journaling a value crashed when out of memory

---
 Db/dblog.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dblog.c b/Db/dblog.c
index 9817b67..360931d 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -1100,6 +1100,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       } else {
         buflen = 1 + sizeof(gint);
         buf = (unsigned char *) malloc(buflen);
+        if(!buf)
+          return show_log_error(db, "Failed to allocate memory");
         optr = buf + 1;
         memcpy(optr, data, sizeof(gint));
       }
@@ -1108,6 +1110,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       /* double precision argument */
       buflen = 1 + sizeof(double);
       buf = (unsigned char *) malloc(buflen);
+      if(!buf)
+        return show_log_error(db, "Failed to allocate memory");
       optr = buf + 1;
       memcpy(optr, data, sizeof(double));
       break;
@@ -1119,6 +1123,8 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       /* strings with extdata */
       buflen = 1 + 2*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
+      if(!buf)
+        return show_log_error(db, "Failed to allocate memory");
 
       /* data and extdata length */
       optr = buf + 1;
-- 
2.43.0


From 145d879981db03e396596685a5e86814eadbe211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:43 +0000
Subject: [PATCH 89/94] fix: a hash table that could not be created left memory
 allocated

---
 Db/dbhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index ffb7890..4dc8537 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -608,7 +608,7 @@ void *wg_ginthash_init(void *db) {
 
   memset(tbl, 0, sizeof(ext_ginthash));
   if(grow_ginthash(db, tbl)) { /* initial level is set to 1 */
-    free(tbl);
+    wg_ginthash_free(db, tbl);
     return NULL;
   }
   return tbl;
-- 
2.43.0


From 7dce81d4e6d4c66a9e0dec9c0df3db629282eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:44 +0000
Subject: [PATCH 90/94] fix: the handle of a local database that could not be
 allocated was not freed

---
 Db/dbmem.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index 37ecf55..7615d3e 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -392,6 +392,9 @@ void* wg_attach_local_database(gint size) {
   shm = (void *) malloc(size);
   if (shm==NULL) {
     show_memory_error("malloc failed");
+#ifdef USE_DATABASE_HANDLE
+    free_dbhandle(dbhandle);
+#endif
     return NULL;
   } else {
     /* key=0 - no shared memory associated */
-- 
2.43.0


From 94be9606f1c8743c7886a1da79af8904629fc5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:44 +0000
Subject: [PATCH 91/94] fix: a row stayed in a hash index when out of memory

---
 Db/dbhash.c  |  7 ++++---
 Db/dbindex.c | 11 +++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 4dc8537..fa25553 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -271,7 +271,7 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
     gint xl = wg_decode_xmlliteral_xsdtype_len(d, en); \
     bb = malloc(xl + l + 1); \
     if(!bb) \
-      return 0; \
+      return -1; \
     memcpy(bb, e, xl); \
     bb[xl] = '\0'; \
     memcpy(bb + xl + 1, b, l); \
@@ -284,6 +284,7 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
  * It should be freed afterwards.
  * returns the number of bytes in the array.
  * returns 0 if the decode failed.
+ * returns -1 if memory could not be allocated.
  *
  * NOTE: to differentiate between identical byte strings
  * the value is prefixed with a type identifier.
@@ -350,7 +351,7 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       len = sizeof(gint) + ptrdata;
       buf = malloc(len);
       if(!buf)
-        return 0;
+        return -1;
       memcpy(buf, &ptrdata, sizeof(gint));
       memcpy(buf + sizeof(gint), wg_decode_blob(db, enc), ptrdata);
       bytedata = buf;
@@ -389,7 +390,7 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
     *decbytes = outbuf;
   } else {
     /* Indicate failure */
-    len = 0;
+    len = -1;
   }
 
   if(buf)
diff --git a/Db/dbindex.c b/Db/dbindex.c
index de77c6b..e9dca50 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1531,6 +1531,7 @@ static gint hash_remove_row(void *db, gint index_id, void *rec) {
  * returns:
  * 0 - on success
  * -1 - on error
+ * -3 - if memory could not be allocated
  */
 static gint hash_recurse(void *db, wg_index_header *hdr, char *prefix,
   gint prefixlen, gint *values, gint count, void *rec, gint op, gint expand) {
@@ -1591,6 +1592,10 @@ static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
   gint newlen, fldlen, retv;
 
   fldlen = wg_decode_for_hashing(db, nextval, &fldbytes);
+  if(fldlen < 0) {
+    show_index_error(db, "Failed to allocate memory");
+    return -3;
+  }
   if(fldlen < 1) {
     show_index_error(db,"Failed to decode a field value for hash");
     return -1;
@@ -1606,7 +1611,7 @@ static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
   if(!newprefix) {
     free(fldbytes);
     show_index_error(db, "Failed to allocate memory");
-    return -1;
+    return -3;
   }
   if(prefix) {
     memcpy(newprefix, prefix, prefixlen);
@@ -1739,6 +1744,7 @@ static gint drop_hash_index(void *db, gint index_id){
  */
 gint wg_search_hash(void *db, gint index_id, gint *values, gint count) {
   wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
+  gint retv;
 #ifdef CHECK
   gint type = wg_get_index_type(db, index_id); /* also validates the id */
   if(type < 0)
@@ -1750,8 +1756,9 @@ gint wg_search_hash(void *db, gint index_id, gint *values, gint count) {
     return -1;
   }
 #endif
-  return hash_recurse(db, hdr, NULL, 0, values, count, NULL,
+  retv = hash_recurse(db, hdr, NULL, 0, values, count, NULL,
     HASHIDX_OP_FIND, 0);
+  return (retv < 0 ? -1 : retv);
 }
 
 
-- 
2.43.0


From 9cc8b5a5a2a66f3bd71fe62d224349e489bc4d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:59 +0000
Subject: [PATCH 92/94] fix: the CSV export wrote memory that was not set when
 out of memory

---
 Db/dbutil.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index fd07e2e..6b74aa8 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -348,6 +348,7 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
   double doubledata;
   char strbuf[80], *ibuf, *exdata;
 
+  *buf = '\0';
   buflen--; /* snprintf adds '\0' */
   switch(wg_get_encoded_type(db, enc)) {
     case WG_NULLTYPE:
-- 
2.43.0


From ca1c58a16240794905282328f2363a2f709c2be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:59 +0000
Subject: [PATCH 93/94] fix: a query that ran out of memory left memory
 allocated

---
 Db/dbquery.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 805144b..1a53f33 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -947,6 +947,7 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
           wg_alloc_mpool(db, query->mpool, sizeof(query_result_page));
         if(!currpage) {
           show_query_error(db, "Failed to allocate a resultset row");
+          wg_free_mpool(db, query->mpool);
           wg_free_query(db, query);
           return NULL;
         }
@@ -1912,6 +1913,7 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
     if(!next_set) {
       if(curr_res)
         free_resultset(db, curr_res);
+      ARGLIST_CLEANUP(sorted_arglist)
       return NULL;
     }
 
-- 
2.43.0


From edc43d94e9a48f28bdda8bbcc2eac45b3fe0ee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:59 +0000
Subject: [PATCH 94/94] fix: a JSON query found nothing when the hash index
 could not be searched

---
 Db/dbquery.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 1a53f33..cc9c05a 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1928,6 +1928,7 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
       values[0] = arglist[i].key;
       values[1] = arglist[i].value;
       reclist_offset = wg_search_hash(db, index_id, values, 2);
+      IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, reclist_offset)
 
       if(reclist_offset > 0) {
         gint *nextoffset = &reclist_offset;
-- 
2.43.0

