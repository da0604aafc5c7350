From 8f7b7774b55456430fe5da91bc52c63741db88d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:47 +0000
Subject: [PATCH 01/90] fix: queued lock taken without being granted after an
 interrupted or timed out wait

A wait that ended early (signal, spurious or stale wake-up) was taken for a
granted lock. A request granted while it was timing out dequeued itself
without passing the lock on, and a reader queued behind a timed out writer
was not woken.
---
 Db/dblock.c | 65 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 14 deletions(-)

diff --git a/Db/dblock.c b/Db/dblock.c
index 29ced95..aa281c3 100644
--- a/Db/dblock.c
+++ b/Db/dblock.c
@@ -975,6 +975,41 @@ static void unlock_queue(void * db) {
   *gl = 0;
 }
 
+#if defined(USE_LOCK_TIMEOUT) && defined(__linux__)
+/** Withdraw a lock request that has timed out.
+ *   Returns 0 if the request was removed from the queue.
+ *   Returns 1 if the lock was granted in the meantime.
+ */
+static gint withdraw_lock(void * db, gint lock) {
+  db_memsegment_header* dbh = dbmemsegh(db);
+  lock_queue_node *lockp = (lock_queue_node *) offsettoptr(db, lock);
+  volatile gint *syn_addr = NULL;
+
+  lock_queue(db);
+  if(!lockp->waiting) {
+    unlock_queue(db);
+    return 1;
+  }
+  DEQUEUE_LOCK(db, dbh, lock, lockp)
+  if(lockp->prev && lockp->next) {
+    lock_queue_node *prevp = (lock_queue_node *) offsettoptr(db, lockp->prev);
+    lock_queue_node *nextp = (lock_queue_node *) offsettoptr(db, lockp->next);
+    /* a reader that was queued behind this request may now follow
+     * the active readers. */
+    if(nextp->waiting && nextp->class == LOCKQ_READ &&
+      prevp->class == LOCKQ_READ && !prevp->waiting) {
+      nextp->waiting = 0;
+      syn_addr = &nextp->waiting;
+    }
+  }
+  free_lock(db, lock);
+  unlock_queue(db);
+  if(syn_addr)
+    futex_wake(syn_addr, 1);
+  return 0;
+}
+#endif
+
 /** Acquire database level exclusive lock (task-fair queued lock)
  *   Blocks until lock is acquired.
  *   If USE_LOCK_TIMEOUT is defined, may return without locking
@@ -1028,15 +1063,16 @@ gint db_tfqueue_wlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* The wait may be interrupted or end without cause, the lock is
+     * ours only after the waiting flag has been cleared. */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT &&
+        !withdraw_lock(db, lock))
+        return 0;
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
@@ -1145,15 +1181,16 @@ gint db_tfqueue_rlock(void * db) {
 #ifdef __linux__
 #ifdef USE_LOCK_TIMEOUT
     INIT_QLOCK_TIMEOUT(timeout, ts)
-    if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT) {
-      lock_queue(db);
-      DEQUEUE_LOCK(db, dbh, lock, lockp)
-      free_lock(db, lock);
-      unlock_queue(db);
-      return 0;
+    /* The wait may be interrupted or end without cause, the lock is
+     * ours only after the waiting flag has been cleared. */
+    while(lockp->waiting) {
+      if(futex_trywait(&lockp->waiting, 1, &ts) == ETIMEDOUT &&
+        !withdraw_lock(db, lock))
+        return 0;
     }
 #else
-    futex_wait(&lockp->waiting, 1);
+    while(lockp->waiting)
+      futex_wait(&lockp->waiting, 1);
 #endif
 #else
 /* XXX: add support for other platforms */
-- 
2.43.0


From 3f737f2ccdab6d069d634e51add6cd4af6a2f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 02/90] fix: hash index entry creation leaked or half linked a
 bucket when the segment was full

The list cell is allocated first and its failure is noticed, so that a
bucket without a record never becomes part of the hash chain.
---
 Db/dbhash.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 3051bc0..ff1d9c2 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -440,6 +440,13 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
   gint rec_head, rec_offset;
   gcell *rec_cell;
 
+  /* The record list cell is always needed, allocate it first so that
+   * nothing is changed if there is no space for it. */
+  rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
+  if(!rec_offset) {
+    return -1;
+  }
+
   hash = hash_bytes(db, data, length, ha->arraylength);
   head_offset = (ha->arraystart)+(sizeof(gint) * hash);
   head = dbfetch(db, head_offset);
@@ -461,6 +468,7 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
          &(dbh->indexhash_area_header),
         lengints + HASHIDX_HEADER_SIZE);
     if(!bucket) {
+      wg_free_listcell(db, rec_offset);
       return -1;
     }
 
@@ -484,7 +492,6 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
 
   /* Add the record offset to the list. */
   rec_head = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
-  rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
   rec_cell = (gcell *) offsettoptr(db, rec_offset);
   rec_cell->car = offset;
   rec_cell->cdr = rec_head;
-- 
2.43.0


From 1b9e0104904bad38e4763f28b9a28680779a5134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 03/90] fix: hash indexes mixed up large integers and could not
 hold blobs

Integers were cut to 32 bits, so that a lookup also found other numbers,
-0.0 was not found when searching 0.0, and rows with a blob were not indexed.
---
 Db/dbhash.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index ff1d9c2..862face 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -312,13 +312,15 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       bytedata = (char *) &ptrdata;
       break;
     case WG_INTTYPE:
-      len = sizeof(int);
-      intdata = wg_decode_int(db, enc);
-      bytedata = (char *) &intdata;
+      len = sizeof(gint);
+      ptrdata = wg_decode_int(db, enc); /* all of it, not just an int */
+      bytedata = (char *) &ptrdata;
       break;
     case WG_DOUBLETYPE:
       len = sizeof(double);
       doubledata = wg_decode_double(db, enc);
+      if(doubledata == 0.0)
+        doubledata = 0.0; /* -0.0 equals 0.0 */
       bytedata = (char *) &doubledata;
       break;
     case WG_FIXPOINTTYPE:
@@ -342,6 +344,10 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
       exdata = wg_decode_xmlliteral_xsdtype(db, enc);
       CONCAT_FOR_HASHING(db, bytedata, exdata, len, buf, enc)
       break;
+    case WG_BLOBTYPE:
+      len = wg_decode_blob_len(db, enc);
+      bytedata = wg_decode_blob(db, enc);
+      break;
     case WG_CHARTYPE:
       len = sizeof(int);
       intdata = wg_decode_char(db, enc);
-- 
2.43.0


From 20c75281d838b84c2a631da7474730fcfdfbc483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:09 +0000
Subject: [PATCH 04/90] fix: long string lost from the string hash or leaked
 with its extra string

The extra string (language, xsd type, URI prefix) is encoded before the
string itself: otherwise it disappeared from the hash chain when both had
the same hash, and the string leaked when the segment was full.
---
 Db/dbdata.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 66c3c3a..86bcbbb 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2593,6 +2593,7 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
   gint lenrest;
   char* lstrptr;
   gint old=0;
+  gint extra=0;
   int hash;
   gint hasharrel;
   gint res;
@@ -2615,6 +2616,15 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     //printf("str not found in hash\n");
     //printf("hasharrel 1 %d \n",hasharrel);
     // equal string not found in hash
+    // if extrastr exists, encode it first: this may change the hash chain
+    if (extrastr!=NULL) {
+      extra=wg_encode_str(db,extrastr,NULL);
+      if (extra==WG_ILLEGAL) {
+        //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
+        return 0;
+      }
+      hasharrel=dbfetch(db,((dbh->strhash_area_header).arraystart)+(sizeof(gint)*hash));
+    }
     // allocate a new string
     lengints=length/sizeof(gint);  // 7/4=1, 8/4=2, 9/4=2,
     lenrest=length%sizeof(gint);  // 7%4=3, 8%4=0, 9%4=1,
@@ -2624,6 +2634,7 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
                     lengints+LONGSTR_HEADER_GINTS);
     if (!offset) {
       //show_data_error_nr(db,"cannot create a data string/blob of size ",length);
+      if (extrastr!=NULL) wg_free_encoded(db,extra);
       return 0;
     }
     lstrptr=(char*)(offsettoptr(db,offset));
@@ -2634,17 +2645,12 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
 /*    for(i=0;i<lenrest;i++) {*/
       *(lstrptr+length+(LONGSTR_HEADER_GINTS*sizeof(gint))+i)=0;
     }
-    // if extrastr exists, encode extrastr and store ptr to longstr record field
+    // if extrastr exists, store ptr to longstr record field
     if (extrastr!=NULL) {
-      tmp=wg_encode_str(db,extrastr,NULL);
-      if (tmp==WG_ILLEGAL) {
-        //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
-        return 0;
-      }
-      dbstore(db,offset+LONGSTR_EXTRASTR_POS*sizeof(gint),tmp);
+      dbstore(db,offset+LONGSTR_EXTRASTR_POS*sizeof(gint),extra);
       // increase extrastr refcount
-      if(islongstr(tmp)) {
-        gint *strptr = (gint *) offsettoptr(db,decode_longstr_offset(tmp));
+      if(islongstr(extra)) {
+        gint *strptr = (gint *) offsettoptr(db,decode_longstr_offset(extra));
         ++(*(strptr+LONGSTR_REFCOUNT_POS));
       }
     } else {
-- 
2.43.0


From fef8b4172c88731f1f71cb5c10fe8a0daf950bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:10 +0000
Subject: [PATCH 05/90] fix: T-tree lost a row when no new node could be
 allocated

The node is allocated before the tree is changed.
---
 Db/dbindex.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 65b9ddc..22559e2 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -500,6 +500,23 @@ static gint ttree_add_row(void *db, gint index_id, void *rec) {
       //get the minimum element from this node
       int i, j;
       gint cr, minvalue, minvaluerowoffset;
+      gint newnode = 0;
+      struct wg_tnode *glbnode = node;
+
+      /* If the node that receives the minimum is full, a new node is needed.
+       * Allocate it before anything is changed. */
+      if(node->left_child_offset != 0){
+#ifndef TTREE_CHAINED_NODES
+        glbnode = (struct wg_tnode *)offsettoptr(db,
+          wg_ttree_find_glb_node(db,node->left_child_offset));
+#else
+        glbnode = (struct wg_tnode *)offsettoptr(db, node->pred_offset);
+#endif
+      }
+      if(glbnode->number_of_elements >= WG_TNODE_ARRAY_SIZE){
+        newnode = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+        if(newnode == 0)return -1;
+      }
 
       minvalue = node->current_min;
       minvaluerowoffset = node->array_of_values[0];
@@ -539,14 +556,7 @@ static gint ttree_add_row(void *db, gint index_id, void *rec) {
       }
 
       //proceed to the node that holds greatest lower bound - must be leaf (can be the initial bounding node)
-      if(node->left_child_offset != 0){
-#ifndef TTREE_CHAINED_NODES
-        gint greatestlb = wg_ttree_find_glb_node(db,node->left_child_offset);
-#else
-        gint greatestlb = node->pred_offset;
-#endif
-        node = (struct wg_tnode *)offsettoptr(db, greatestlb);
-      }
+      node = glbnode;
       //if the greatest lower bound node has room, insert value
       //otherwise make the new node as right child and put the value there
       if(node->number_of_elements < WG_TNODE_ARRAY_SIZE){
@@ -558,8 +568,6 @@ static gint ttree_add_row(void *db, gint index_id, void *rec) {
       }else{
         //create, initialize and save first value
         struct wg_tnode *leaf;
-        gint newnode = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
-        if(newnode == 0)return -1;
         leaf =(struct wg_tnode *)offsettoptr(db,newnode);
         leaf->parent_offset = ptrtooffset(db,node);
         leaf->left_subtree_height = 0;
-- 
2.43.0


From a20f3b05ea86ac3d894216f70e319c472d6f0469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:52 +0000
Subject: [PATCH 06/90] fix: wg_get_all_indexes listed a multi-column index
 once per column

---
 Db/dbindex.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 22559e2..09004a9 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2607,7 +2607,13 @@ void * wg_get_all_indexes(void *db, gint *count) {
     while(*ilist) {
       gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
       if(ilistelem->car) {
-        res[(*count)++] = ilistelem->car;
+        /* A multi-column index is listed under each of its columns,
+         * count it once. */
+        wg_index_header *hdr = \
+          (wg_index_header *) offsettoptr(db, ilistelem->car);
+        if(hdr->rec_field_index[0] == column) {
+          res[(*count)++] = ilistelem->car;
+        }
       }
       ilist = &ilistelem->cdr;
     }
-- 
2.43.0


From 68d278733b2bf3c2bedc276dfebeffe47496c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 07/90] fix: wg_drop_index half dropped a hash index before
 refusing it

---
 Db/dbindex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 09004a9..9f1f65d 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2292,6 +2292,11 @@ gint wg_drop_index(void *db, gint index_id){
     ilistelem = (gcell *) offsettoptr(db, *ilist);
     if(ilistelem->car == index_id) {
       hdr = (wg_index_header *) offsettoptr(db, index_id);
+      if(hdr->type == WG_INDEX_TYPE_HASH ||\
+        hdr->type == WG_INDEX_TYPE_HASH_JSON) {
+        /* refuse before anything is changed */
+        return drop_hash_index(db, index_id);
+      }
       /* Delete current element */
       delete_from_list(db, ilist);
       break;
-- 
2.43.0


From 5c4095eb981cbfad94632122b5fb040dfb348364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 08/90] fix: record references: index entries of referring
 records and failures in wg_set_field

Updating the indexes above a changed record visited a referring record once
per reference, so that its rows were removed and added several times when it
refers to the record twice, over two paths or in a cycle.  A parent with two
references was reported twice as the next parent.  Storage for the reference
list is now allocated before anything is changed or journalled, and a
reference to a foreign record is rejected first.
---
 Db/dbdata.c  | 339 ++++++++++++++++++++++++---------------------------
 Db/dbdata.h  |   1 +
 Db/dbindex.c |  80 ++++++++++++
 Db/dbindex.h |   2 +
 4 files changed, 241 insertions(+), 181 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 86bcbbb..4599703 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -78,9 +78,9 @@ static struct tm * localtime_r (const time_t *timer, struct tm *result);
 
 #ifdef USE_BACKLINKING
 static gint remove_backlink_index_entries(void *db, gint *record,
-  gint value, gint depth);
+  gint skipcol, gint depth);
 static gint restore_backlink_index_entries(void *db, gint *record,
-  gint value, gint depth);
+  gint skipcol, gint depth);
 #endif
 
 static int isleap(unsigned yr);
@@ -447,11 +447,19 @@ void *wg_get_next_parent(void* db, void* record, void *parent) {
   backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
   if(backlink_list) {
     gcell *next = (gcell *) offsettoptr(db, backlink_list);
+    int found = 0;
     while(next->cdr) {
-      void *pp = (void *) offsettoptr(db, next->car);
+      if((void *) offsettoptr(db, next->car) == parent)
+        found = 1;
       next = (gcell *) offsettoptr(db, next->cdr);
-      if(pp == parent && next->car) {
-        return (void *) offsettoptr(db, next->car);
+      if(found && next->car) {
+        /* A parent that refers to the record several times is in the list
+         * several times. Return it on the first occasion only. */
+        gcell *prev = (gcell *) offsettoptr(db, backlink_list);
+        while(prev != next && prev->car != next->car)
+          prev = (gcell *) offsettoptr(db, prev->cdr);
+        if(prev == next)
+          return (void *) offsettoptr(db, next->car);
       }
     }
   }
@@ -468,54 +476,37 @@ void *wg_get_next_parent(void* db, void* record, void *parent) {
  *  Needed for index maintenance when records are compared by their
  *  contens, as change in contents also changes the value of the entire
  *  record and thus affects it's placement in the index.
+ *
+ *  The record to be changed is the first one this is called for. It's
+ *  field skipcol is left alone, wg_set_field() takes care of it. A record
+ *  may be reached more than once (several links between two records,
+ *  several paths, loops), the META bit ensures that it's entries
+ *  are removed and later recreated just once.
+ *
  *  Returns 0 for success
  *  Returns -1 in case of errors.
  */
 static gint remove_backlink_index_entries(void *db, gint *record,
-  gint value, gint depth) {
-  gint col, length, err = 0;
-  db_memsegment_header *dbh = dbmemsegh(db);
+  gint skipcol, gint depth) {
+  gint *meta = record + RECORD_META_POS;
 
-  if(!is_special_record(record)) {
-    /* Find all fields in the record that match value (which is actually
-     * a reference to a child record in encoded form) and remove it from
-     * indexes. It will be recreated in the indexes by wg_set_field() later.
-     */
-    length = getusedobjectwantedgintsnr(*record) - RECORD_HEADER_GINTS;
-    if(length > MAX_INDEXED_FIELDNR)
-      length = MAX_INDEXED_FIELDNR + 1;
-
-    for(col=0; col<length; col++) {
-      if(*(record + RECORD_HEADER_GINTS + col) == value) {
-        /* Changed value is always a WG_RECORDDTYPE field, therefore
-         * we don't need to deal with index templates here
-         * (record links are not allowed in templates).
-         */
-        if(dbh->index_control_area_header.index_table[col]) {
-          if(wg_index_del_field(db, record, col) < -1)
-            return -1;
-        }
-      }
-    }
+  if(!is_special_record(record) && !(*meta & RECORD_META_UNLISTED)) {
+    if(wg_index_del_recrefs(db, record, skipcol))
+      return -1;
+    *meta |= RECORD_META_UNLISTED;
   }
 
   /* If recursive depth is not exchausted, continue with the parents
    * of this record.
    */
   if(depth > 0) {
-    gint backlink_list = *(record + RECORD_BACKLINKS_POS);
-    if(backlink_list) {
-      gcell *next = (gcell *) offsettoptr(db, backlink_list);
-      for(;;) {
-        err = remove_backlink_index_entries(db,
-          (gint *) offsettoptr(db, next->car),
-          wg_encode_record(db, record), depth-1);
-        if(err)
-          return err;
-        if(!next->cdr)
-          break;
-        next = (gcell *) offsettoptr(db, next->cdr);
-      }
+    gint next_offset = *(record + RECORD_BACKLINKS_POS);
+    while(next_offset) {
+      gcell *next = (gcell *) offsettoptr(db, next_offset);
+      if(remove_backlink_index_entries(db,
+        (gint *) offsettoptr(db, next->car), -1, depth-1))
+        return -1;
+      next_offset = next->cdr;
     }
   }
 
@@ -530,44 +521,24 @@ static gint remove_backlink_index_entries(void *db, gint *record,
  *  Returns -1 in case of errors.
  */
 static gint restore_backlink_index_entries(void *db, gint *record,
-  gint value, gint depth) {
-  gint col, length, err = 0;
-  db_memsegment_header *dbh = dbmemsegh(db);
+  gint skipcol, gint depth) {
+  gint *meta = record + RECORD_META_POS;
 
-  if(!is_special_record(record)) {
-    /* Find all fields in the record that match value (which is actually
-     * a reference to a child record in encoded form) and add it back to
-     * indexes.
-     */
-    length = getusedobjectwantedgintsnr(*record) - RECORD_HEADER_GINTS;
-    if(length > MAX_INDEXED_FIELDNR)
-      length = MAX_INDEXED_FIELDNR + 1;
-
-    for(col=0; col<length; col++) {
-      if(*(record + RECORD_HEADER_GINTS + col) == value) {
-        if(dbh->index_control_area_header.index_table[col]) {
-          if(wg_index_add_field(db, record, col) < -1)
-            return -1;
-        }
-      }
-    }
+  if(*meta & RECORD_META_UNLISTED) {
+    *meta &= ~RECORD_META_UNLISTED;
+    if(wg_index_add_recrefs(db, record, skipcol))
+      return -1;
   }
 
   /* Continue to the parents until depth==0 */
   if(depth > 0) {
-    gint backlink_list = *(record + RECORD_BACKLINKS_POS);
-    if(backlink_list) {
-      gcell *next = (gcell *) offsettoptr(db, backlink_list);
-      for(;;) {
-        err = restore_backlink_index_entries(db,
-          (gint *) offsettoptr(db, next->car),
-          wg_encode_record(db, record), depth-1);
-        if(err)
-          return err;
-        if(!next->cdr)
-          break;
-        next = (gcell *) offsettoptr(db, next->cdr);
-      }
+    gint next_offset = *(record + RECORD_BACKLINKS_POS);
+    while(next_offset) {
+      gcell *next = (gcell *) offsettoptr(db, next_offset);
+      if(restore_backlink_index_entries(db,
+        (gint *) offsettoptr(db, next->car), -1, depth-1))
+        return -1;
+      next_offset = next->cdr;
     }
   }
 
@@ -616,7 +587,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* strptr;
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
-  gint rec_enc = WG_ILLEGAL;    /** this record as encoded value. */
+  gint new_backlink = 0;        /** list cell for the new backlink */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
@@ -627,11 +598,14 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
-#ifdef USE_DBLOG
-  /* Do not proceed before we've logged the operation */
-  if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
-      return -6; /* journal error, cannot write */
+#ifdef USE_CHILD_DB
+  /* Get the offset owner */
+  if(isptr(data)) {
+    offset_owner = get_ptr_owner(db, data);
+    if(!offset_owner) {
+      show_data_error(db, "External reference not recognized");
+      return -5;
+    }
   }
 #endif
 
@@ -644,6 +618,35 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     return 0;
   }
 
+#ifdef USE_BACKLINKING
+  /* Is the new field value a record pointer? If so, get the storage for
+   * the backlink before anything is changed. */
+#ifdef USE_CHILD_DB
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
+    offset_owner == dbmemseg(db)) {
+#else
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+#endif
+    new_backlink = wg_alloc_fixlen_object(db,
+      &(dbmemsegh(db)->listcell_area_header));
+    if(!new_backlink)
+      return -4;
+  }
+#endif
+
+#ifdef USE_DBLOG
+  /* Do not proceed before we've logged the operation */
+  if(dbh->logging.active) {
+    if(wg_log_set_field(db,record,fieldnr,data)) {
+#ifdef USE_BACKLINKING
+      if(new_backlink)
+        wg_free_listcell(db, new_backlink);
+#endif
+      return -6; /* journal error, cannot write */
+    }
+  }
+#endif
+
   /* Update index(es) while the old value is still in the db */
 #ifdef USE_INDEX_TEMPLATE
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
@@ -666,31 +669,9 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
   backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
   if(backlink_list) {
-    gint err;
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    rec_enc = wg_encode_record(db, record);
-    for(;;) {
-      err = remove_backlink_index_entries(db,
-        (gint *) offsettoptr(db, next->car),
-        rec_enc, WG_COMPARE_REC_DEPTH-1);
-      if(err) {
-        return -4; /* override the error code, for now. */
-      }
-      if(!next->cdr)
-        break;
-      next = (gcell *) offsettoptr(db, next->cdr);
-    }
-  }
-#endif
-
-#ifdef USE_CHILD_DB
-  /* Get the offset owner */
-  if(isptr(data)) {
-    offset_owner = get_ptr_owner(db, data);
-    if(!offset_owner) {
-      show_data_error(db, "External reference not recognized");
-      return -5;
-    }
+    if(remove_backlink_index_entries(db, (gint *) record, fieldnr,
+      WG_COMPARE_REC_DEPTH))
+      return -4; /* override the error code, for now. */
   }
 #endif
 
@@ -702,7 +683,7 @@ wg_int wg_set_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 #ifdef USE_CHILD_DB
   /* Only touch local records */
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
+    is_local_offset(db, decode_datarec_offset(fielddata))) {
 #else
   if(wg_get_encoded_type(db, fielddata) == WG_RECORDTYPE) {
 #endif
@@ -743,6 +724,15 @@ setfld_backlink_removed:
   }
   (*fieldadr)=data; // store data to field
 
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  /* Create new entries in indexes in all referring records */
+  if(backlink_list) {
+    if(restore_backlink_index_entries(db, (gint *) record, fieldnr,
+      WG_COMPARE_REC_DEPTH))
+      return -4;
+  }
+#endif
+
   /* Update index after new value is written */
 #ifdef USE_INDEX_TEMPLATE
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
@@ -758,42 +748,16 @@ setfld_backlink_removed:
 
 #ifdef USE_BACKLINKING
   /* Is the new field value a record pointer? If so, add a backlink */
-#ifdef USE_CHILD_DB
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
-#else
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
-#endif
+  if(new_backlink) {
     gint *rec = (gint *) wg_decode_record(db, data);
     gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
-    gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
+    gcell *new_cell = (gcell *) offsettoptr(db, new_backlink);
 
     while(*next_offset)
       next_offset = &(((gcell *) offsettoptr(db, *next_offset))->cdr);
     new_cell->car = ptrtooffset(db, record);
     new_cell->cdr = 0;
-    *next_offset = new_offset;
-  }
-#endif
-
-#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  /* Create new entries in indexes in all referring records */
-  if(backlink_list) {
-    gint err;
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    for(;;) {
-      err = restore_backlink_index_entries(db,
-        (gint *) offsettoptr(db, next->car),
-        rec_enc, WG_COMPARE_REC_DEPTH-1);
-      if(err) {
-        return -4;
-      }
-      if(!next->cdr)
-        break;
-      next = (gcell *) offsettoptr(db, next->cdr);
-    }
+    *next_offset = new_backlink;
   }
 #endif
 
@@ -824,6 +788,7 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   gint* strptr;
 #ifdef USE_BACKLINKING
   gint backlink_list;           /** start of backlinks for this record */
+  gint new_backlink = 0;        /** list cell for the new backlink */
 #endif
   db_memsegment_header *dbh = dbmemsegh(db);
 #ifdef USE_CHILD_DB
@@ -834,11 +799,11 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   recordcheck(db,record,fieldnr,"wg_set_field");
 #endif
 
-#ifdef USE_DBLOG
-  /* Do not proceed before we've logged the operation */
-  if(dbh->logging.active) {
-    if(wg_log_set_field(db,record,fieldnr,data))
-      return -6; /* journal error, cannot write */
+  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
+#ifdef CHECK
+  if(*fieldadr) {
+    show_data_error(db,"wg_set_new_field called on field that contains data");
+    return -2;
   }
 #endif
 
@@ -853,14 +818,48 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   }
 #endif
 
-  /* Write new value */
-  fieldadr=((gint*)record)+RECORD_HEADER_GINTS+fieldnr;
-#ifdef CHECK
-  if(*fieldadr) {
-    show_data_error(db,"wg_set_new_field called on field that contains data");
-    return -2;
+#ifdef USE_BACKLINKING
+  /* Is the new field value a record pointer? If so, get the storage for
+   * the backlink before anything is changed. */
+#ifdef USE_CHILD_DB
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
+    offset_owner == dbmemseg(db)) {
+#else
+  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
+#endif
+    new_backlink = wg_alloc_fixlen_object(db,
+      &(dbmemsegh(db)->listcell_area_header));
+    if(!new_backlink)
+      return -4;
+  }
+#endif
+
+#ifdef USE_DBLOG
+  /* Do not proceed before we've logged the operation */
+  if(dbh->logging.active) {
+    if(wg_log_set_field(db,record,fieldnr,data)) {
+#ifdef USE_BACKLINKING
+      if(new_backlink)
+        wg_free_listcell(db, new_backlink);
+#endif
+      return -6; /* journal error, cannot write */
+    }
+  }
+#endif
+
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  /* Normally the record is new, so that there are no backlinks, however
+   * this is not guaranteed. See wg_set_field().
+   */
+  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
+  if(backlink_list) {
+    if(remove_backlink_index_entries(db, (gint *) record, fieldnr,
+      WG_COMPARE_REC_DEPTH))
+      return -4;
   }
 #endif
+
+  /* Write new value */
   (*fieldadr)=data;
 
 #ifdef USE_CHILD_DB
@@ -873,6 +872,15 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
     ++(*(strptr+LONGSTR_REFCOUNT_POS));
   }
 
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  /* Create new entries in indexes in all referring records */
+  if(backlink_list) {
+    if(restore_backlink_index_entries(db, (gint *) record, fieldnr,
+      WG_COMPARE_REC_DEPTH))
+      return -4;
+  }
+#endif
+
   /* Update index after new value is written */
 #ifdef USE_INDEX_TEMPLATE
   if(!is_special_record(record) && fieldnr<=MAX_INDEXED_FIELDNR &&\
@@ -888,47 +896,16 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
 
 #ifdef USE_BACKLINKING
   /* Is the new field value a record pointer? If so, add a backlink */
-#ifdef USE_CHILD_DB
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE &&
-    offset_owner == dbmemseg(db)) {
-#else
-  if(wg_get_encoded_type(db, data) == WG_RECORDTYPE) {
-#endif
+  if(new_backlink) {
     gint *rec = (gint *) wg_decode_record(db, data);
     gint *next_offset = rec + RECORD_BACKLINKS_POS;
-    gint new_offset = wg_alloc_fixlen_object(db,
-      &(dbmemsegh(db)->listcell_area_header));
-    gcell *new_cell = (gcell *) offsettoptr(db, new_offset);
+    gcell *new_cell = (gcell *) offsettoptr(db, new_backlink);
 
     while(*next_offset)
       next_offset = &(((gcell *) offsettoptr(db, *next_offset))->cdr);
     new_cell->car = ptrtooffset(db, record);
     new_cell->cdr = 0;
-    *next_offset = new_offset;
-  }
-#endif
-
-#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
-  /* Create new entries in indexes in all referring records. Normal
-   * usage scenario would be that the record is also new, so that
-   * there are no backlinks, however this is not guaranteed.
-   */
-  backlink_list = *((gint *) record + RECORD_BACKLINKS_POS);
-  if(backlink_list) {
-    gint err;
-    gcell *next = (gcell *) offsettoptr(db, backlink_list);
-    gint rec_enc = wg_encode_record(db, record);
-    for(;;) {
-      err = restore_backlink_index_entries(db,
-        (gint *) offsettoptr(db, next->car),
-        rec_enc, WG_COMPARE_REC_DEPTH-1);
-      if(err) {
-        return -4;
-      }
-      if(!next->cdr)
-        break;
-      next = (gcell *) offsettoptr(db, next->cdr);
-    }
+    *next_offset = new_backlink;
   }
 #endif
 
diff --git a/Db/dbdata.h b/Db/dbdata.h
index 988db22..5e364b4 100644
--- a/Db/dbdata.h
+++ b/Db/dbdata.h
@@ -263,6 +263,7 @@ wg_int wg_decode_var(void* db, wg_int data);
 /* Record meta bits. */
 #define RECORD_META_NOTDATA 0x1 /** Record is a "special" record (not data) */
 #define RECORD_META_MATCH 0x2   /** "match" record (needs NOTDATA as well) */
+#define RECORD_META_UNLISTED 0x4 /** record links temporarily not indexed */
 #define RECORD_META_DOC 0x10    /** schema bits: top-level document */
 #define RECORD_META_OBJECT 0x20 /** schema bits: object */
 #define RECORD_META_ARRAY 0x40  /** schema bits: array */
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 9f1f65d..5f1ad8e 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -3001,6 +3001,86 @@ nexttmpl2:
   return 0;
 }
 
+/*
+ * Check if the template of an index has a fixed value on a column.
+ * returns 1 if it does, 0 if not (or if the column is -1)
+ */
+static int in_template_list(void *db, gint column, gint index_id) {
+#ifdef USE_INDEX_TEMPLATE
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint ilist;
+
+  if(column < 0 || column > MAX_INDEXED_FIELDNR)
+    return 0;
+  ilist = dbh->index_control_area_header.index_template_table[column];
+  while(ilist) {
+    gcell *ilistelem = (gcell *) offsettoptr(db, ilist);
+    if(ilistelem->car == index_id)
+      return 1;
+    ilist = ilistelem->cdr;
+  }
+#endif
+  return 0;
+}
+
+/*
+ * Common part of wg_index_add_recrefs() and wg_index_del_recrefs()
+ */
+static gint update_recrefs(void *db, void *rec, gint skipcol, int add) {
+  gint i;
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint reclen = wg_get_record_len(db, rec);
+
+  if(reclen > MAX_INDEXED_FIELDNR)
+    reclen = MAX_INDEXED_FIELDNR + 1;
+
+  for(i=0; i<reclen; i++) {
+    gint ilist = dbh->index_control_area_header.index_table[i];
+
+    if(i == skipcol || !ilist ||\
+      wg_get_encoded_type(db, wg_get_field(db, rec, i)) != WG_RECORDTYPE)
+      continue;
+    while(ilist) {
+      gcell *ilistelem = (gcell *) offsettoptr(db, ilist);
+      wg_index_header *hdr = \
+        (wg_index_header *) offsettoptr(db, ilistelem->car);
+      if(hdr->type == WG_INDEX_TYPE_TTREE &&\
+        !in_template_list(db, skipcol, ilistelem->car) &&\
+        MATCH_TEMPLATE(db, hdr, rec)) {
+        if(add) {
+          if(ttree_add_row(db, ilistelem->car, rec))
+            return -2;
+        } else {
+          if(ttree_remove_row(db, ilistelem->car, rec) < -2)
+            return -2;
+        }
+      }
+      ilist = ilistelem->cdr;
+    }
+  }
+  return 0;
+}
+
+/** Add the record links in one record to the indexes
+ * Only concerns the indexes that order records by their contents.
+ * The indexes that depend on the value of the field skipcol itself
+ * (those on the field or with a template value for it) are not included.
+ * returns 0 on success, -2 on error
+ */
+gint wg_index_add_recrefs(void *db, void *rec, gint skipcol) {
+  return update_recrefs(db, rec, skipcol, 1);
+}
+
+/** Remove the record links in one record from the indexes
+ * Must be called before the contents of the linked records change.
+ * The indexes that depend on the value of the field skipcol itself
+ * (those on the field or with a template value for it) are not included.
+ * returns 0 on success, -2 on error
+ */
+gint wg_index_del_recrefs(void *db, void *rec, gint skipcol) {
+  return update_recrefs(db, rec, skipcol, 0);
+}
+
 /* --------------- error handling ------------------------------*/
 
 /** called with err msg
diff --git a/Db/dbindex.h b/Db/dbindex.h
index cbb46f2..5cf1f73 100644
--- a/Db/dbindex.h
+++ b/Db/dbindex.h
@@ -146,6 +146,8 @@ gint wg_index_add_field(void *db, void *rec, gint column);
 gint wg_index_add_rec(void *db, void *rec);
 gint wg_index_del_field(void *db, void *rec, gint column);
 gint wg_index_del_rec(void *db, void *rec);
+gint wg_index_add_recrefs(void *db, void *rec, gint skipcol);
+gint wg_index_del_recrefs(void *db, void *rec, gint skipcol);
 
 
 #endif /* DEFINED_DBINDEX_H */
-- 
2.43.0


From 09f2487f6b98709e97230b2b99530757e4f1be05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 09/90] fix: index creation ignored failures and index
 templates were indexed and journalled

Creating an index now fails, leaving nothing behind, when a row cannot be
inserted; template records are no longer put in indexes or in the journal.
---
 Db/dbindex.c | 247 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 182 insertions(+), 65 deletions(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 5f1ad8e..47f84d2 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -83,7 +83,8 @@ static void delete_from_list(void *db, gint *head);
 #ifdef USE_INDEX_TEMPLATE
 static gint add_index_template(void *db, gint *matchrec, gint reclen);
 static gint find_index_template(void *db, gint *matchrec, gint reclen);
-static gint remove_index_template(void *db, gint template_offset);
+static void remove_index_template(void *db, gint template_offset,
+  int free_values);
 #endif
 
 static gint hash_add_row(void *db, gint index_id, void *rec);
@@ -95,6 +96,7 @@ static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
   gint expand);
 
 static gint create_hash_index(void *db, gint index_id);
+static void clear_hash_index(void *db, gint index_id);
 static gint drop_hash_index(void *db, gint index_id);
 
 static gint sort_columns(gint *sorted_cols, gint *columns, gint col_count);
@@ -1388,6 +1390,8 @@ static gint create_ttree_index(void *db, gint index_id){
   /* allocate (+ init) root node for new index tree and save
    * the offset into index_array */
   node = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+  if(!node)
+    return -1;
   nodest =(struct wg_tnode *)offsettoptr(db,node);
   nodest->parent_offset = 0;
   nodest->left_subtree_height = 0;
@@ -1418,7 +1422,8 @@ static gint create_ttree_index(void *db, gint index_id){
       continue;
     }
     if(MATCH_TEMPLATE(db, hdr, rec)) {
-      ttree_add_row(db, index_id, rec);
+      if(ttree_add_row(db, index_id, rec))
+        return -1;
       rowsprocessed++;
     }
     rec=wg_get_next_record(db,rec);
@@ -1619,7 +1624,7 @@ static gint create_hash_index(void *db, gint index_id){
   void *rec;
   wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
   gint type = hdr->type;
-  gint firstcol = hdr->rec_field_index[0];
+  gint lastcol = hdr->rec_field_index[hdr->fields - 1];
   gint i;
 
   /* Initialize the hash table (0 - use default size) */
@@ -1631,7 +1636,7 @@ static gint create_hash_index(void *db, gint index_id){
   rowsprocessed = 0;
 
   while(rec != NULL) {
-    if(firstcol >= wg_get_record_len(db, rec)) {
+    if(lastcol >= wg_get_record_len(db, rec)) {
       rec=wg_get_next_record(db,rec);
       continue;
     }
@@ -1641,12 +1646,14 @@ static gint create_hash_index(void *db, gint index_id){
          * from the rows that point to them.
          */
         if(is_plain_record(rec)) {
-          hash_add_row(db, index_id, rec);
+          if(hash_add_row(db, index_id, rec))
+            return -1;
           rowsprocessed++;
         }
       } else {
         /* Add all rows normally */
-        hash_add_row(db, index_id, rec);
+        if(hash_add_row(db, index_id, rec))
+          return -1;
         rowsprocessed++;
       }
     }
@@ -1674,6 +1681,29 @@ static gint create_hash_index(void *db, gint index_id){
   return 0;
 }
 
+/** Free all the entries of a hash index
+ *  The main hash table itself cannot be returned to the segment.
+ */
+static void clear_hash_index(void *db, gint index_id){
+  db_memsegment_header* dbh = dbmemsegh(db);
+  wg_index_header *hdr = (wg_index_header *) offsettoptr(db, index_id);
+  db_hash_area_header *ha = HASHIDX_ARRAYP(hdr);
+  gint i;
+
+  for(i=0; i<ha->arraylength; i++) {
+    gint *chain = (gint *) offsettoptr(db, ha->arraystart + i*sizeof(gint));
+    while(*chain) {
+      gint bucket = *chain;
+      gint *reclist = (gint *) offsettoptr(db,
+        bucket + HASHIDX_RECLIST_POS*sizeof(gint));
+      while(*reclist)
+        delete_from_list(db, reclist);
+      *chain = dbfetch(db, bucket + HASHIDX_HASHCHAIN_POS*sizeof(gint));
+      wg_free_object(db, &dbh->indexhash_area_header, bucket);
+    }
+  }
+}
+
 /** Drop a hash index by id
  *  returns:
  *  0 - on success
@@ -1726,15 +1756,15 @@ gint wg_search_hash(void *db, gint index_id, gint *values, gint count) {
  */
 static gint insert_into_list(void *db, gint *head, gint value) {
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint old = *head;
+  gint cell = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
 
-  *head = wg_alloc_fixlen_object(db, &dbh->listcell_area_header);
-  if(*head) {
-    gcell *listelem = (gcell *) offsettoptr(db, *head);
+  if(cell) {
+    gcell *listelem = (gcell *) offsettoptr(db, cell);
     listelem->car = value;
-    listelem->cdr = old;
+    listelem->cdr = *head;
+    *head = cell;
   }
-  return *head;
+  return cell;
 }
 
 /** Delete from list
@@ -1752,8 +1782,74 @@ static void delete_from_list(void *db, gint *head) {
     ptrtooffset(db, listelem));
 }
 
+/** Delete a value from list
+ *
+ * helper function to find the first element that holds the given
+ * value and delete it. Returns 1 if there was one, otherwise 0.
+ */
+static gint remove_from_list(void *db, gint *head, gint value) {
+  while(*head) {
+    gcell *listelem = (gcell *) offsettoptr(db, *head);
+    if(listelem->car == value) {
+      delete_from_list(db, head);
+      return 1;
+    }
+    head = &listelem->cdr;
+  }
+  return 0;
+}
+
 #ifdef USE_INDEX_TEMPLATE
 
+/** Create the match record of an index template
+ *
+ * Match records are not data: they are neither journaled nor indexed
+ * themselves, so the regular record functions cannot be used here.
+ * Returns NULL on error.
+ */
+static void *create_match_record(void *db, gint *matchrec, gint reclen) {
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint i, offset;
+
+  offset = wg_alloc_gints(db, &dbh->datarec_area_header,
+    reclen + RECORD_HEADER_GINTS);
+  if(!offset)
+    return NULL;
+  dbstore(db, offset + RECORD_META_POS*sizeof(gint),
+    RECORD_META_NOTDATA | RECORD_META_MATCH);
+  dbstore(db, offset + RECORD_BACKLINKS_POS*sizeof(gint), 0);
+  for(i=0; i<reclen; i++) {
+    dbstore(db, offset + (RECORD_HEADER_GINTS + i)*sizeof(gint), matchrec[i]);
+    if(islongstr(matchrec[i])) {
+      gint *strptr = (gint *) offsettoptr(db,
+        decode_longstr_offset(matchrec[i]));
+      ++(*(strptr + LONGSTR_REFCOUNT_POS));
+    }
+  }
+  return offsettoptr(db, offset);
+}
+
+/** Delete the match record of an index template
+ *
+ * The values are freed too if free_values is set, otherwise they
+ * remain the property of the caller.
+ */
+static void delete_match_record(void *db, void *rec, int free_values) {
+  db_memsegment_header* dbh = dbmemsegh(db);
+  gint i, reclen = wg_get_record_len(db, rec);
+
+  for(i=0; i<reclen; i++) {
+    gint enc = wg_get_field(db, rec, i);
+    if(islongstr(enc)) {
+      gint *strptr = (gint *) offsettoptr(db, decode_longstr_offset(enc));
+      --(*(strptr + LONGSTR_REFCOUNT_POS));
+    }
+    if(free_values)
+      wg_free_encoded(db, enc);
+  }
+  wg_free_object(db, &dbh->datarec_area_header, ptrtooffset(db, rec));
+}
+
 /** Add index template
  *
  * Takes a gint array that represents an template for records
@@ -1764,7 +1860,7 @@ static void delete_from_list(void *db, gint *head) {
  * Returns 0 on error.
  */
 static gint add_index_template(void *db, gint *matchrec, gint reclen) {
-  gint *ilist, *meta;
+  gint *ilist;
   void *rec;
   db_memsegment_header* dbh = dbmemsegh(db);
   wg_index_template *tmpl;
@@ -1831,25 +1927,27 @@ nextelem:
   }
 
   /* Create the new match record */
-  rec = wg_create_raw_record(db, reclen);
+  rec = create_match_record(db, matchrec, reclen);
   if(!rec)
     return 0;
-  for(i=0; i<reclen; i++) {
-    if(wg_set_new_field(db, rec, i, matchrec[i]) < 0)
-      return 0;
-  }
-  meta = ((gint *) rec + RECORD_META_POS);
-  *meta |= (RECORD_META_NOTDATA | RECORD_META_MATCH);
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
+  if(!template_offset) {
+    delete_match_record(db, rec, 0);
+    return 0;
+  }
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
+  tmpl->refcount = 0;
 
   /* Insert it into the template list */
-  if(!insert_into_list(db, ilist, template_offset))
+  if(!insert_into_list(db, ilist, template_offset)) {
+    wg_free_fixlen_object(db, &dbh->indextmpl_area_header, template_offset);
+    delete_match_record(db, rec, 0);
     return 0;
+  }
 
   return template_offset;
 }
@@ -1930,8 +2028,8 @@ nextelem:
  * Caller should make sure that the template is no longer
  * referenced by any indexes before calling this.
  */
-static gint remove_index_template(void *db, gint template_offset) {
-  gint *ilist;
+static void remove_index_template(void *db, gint template_offset,
+  int free_values) {
   void *rec;
   db_memsegment_header* dbh = dbmemsegh(db);
   wg_index_template *tmpl;
@@ -1940,23 +2038,14 @@ static gint remove_index_template(void *db, gint template_offset) {
 
   /* Delete the database record */
   rec = offsettoptr(db, tmpl->offset_matchrec);
-  wg_delete_record(db, rec);
+  delete_match_record(db, rec, free_values);
 
   /* Remove from template list */
-  ilist = &dbh->index_control_area_header.index_template_list;
-  while(*ilist) {
-    gcell *ilistelem = (gcell *) offsettoptr(db, *ilist);
-    if(ilistelem->car == template_offset) {
-      delete_from_list(db, ilist);
-      break;
-    }
-    ilist = &ilistelem->cdr;
-  }
+  remove_from_list(db, &dbh->index_control_area_header.index_template_list,
+    template_offset);
 
   /* Free the template */
   wg_free_fixlen_object(db, &dbh->indextmpl_area_header, template_offset);
-
-  return 0;
 }
 
 /** Check if a record matches a template
@@ -2056,8 +2145,8 @@ gint wg_create_index(void *db, gint column, gint type,
 gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   gint *matchrec, gint reclen)
 {
-  gint index_id, template_offset = 0, i;
-  wg_index_header *hdr;
+  gint index_id = 0, template_offset = 0, i;
+  wg_index_header *hdr = NULL;
 #ifdef USE_INDEX_TEMPLATE
   wg_index_template *tmpl = NULL;
   gint fixed_columns = 0;
@@ -2113,6 +2202,14 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
     }
   }
 
+  if(type != WG_INDEX_TYPE_TTREE && type != WG_INDEX_TYPE_HASH &&\
+    type != WG_INDEX_TYPE_HASH_JSON) {
+    /* WG_INDEX_TYPE_TTREE_JSON is also an error, until proper
+     * implementation exists */
+    show_index_error(db, "Invalid index type");
+    return -1;
+  }
+
 #ifdef USE_INDEX_TEMPLATE
   /* Handle the template */
   if(matchrec) {
@@ -2158,7 +2255,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
       if(!ilistelem->car) {
         show_index_error(db, "Invalid header in index list");
-        return -1;
+        goto create_failed;
       }
       hdr = (wg_index_header *) offsettoptr(db, ilistelem->car);
 
@@ -2177,7 +2274,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
         }
         if(match) {
           show_index_error(db, "Identical index already exists on the column");
-          return -1;
+          goto create_failed;
         }
       }
 
@@ -2201,20 +2298,12 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
   /* Add new index header */
   index_id = wg_alloc_fixlen_object(db, &dbh->indexhdr_area_header);
-
-  for(i=0; i<col_count; i++) {
-    if(!insert_into_list(db, ilist[i], index_id)) {
-      if(i) {
-        /* XXX: need to clean up the earlier inserts :-( */
-        return -1;
-      } else {
-        return -1;
-      }
-    }
-  }
+  if(!index_id)
+    goto create_failed;
 
   /* Set up the header */
   hdr = (wg_index_header *) offsettoptr(db, index_id);
+  memset(hdr, 0, sizeof(wg_index_header));
   hdr->type = type;
   hdr->fields = col_count;
   for(i=0; i < col_count; i++) {
@@ -2222,27 +2311,28 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   }
   hdr->template_offset = template_offset;
 
+  for(i=0; i<col_count; i++) {
+    if(!insert_into_list(db, ilist[i], index_id))
+      goto create_failed;
+  }
+
   /* create the actual index */
   switch(hdr->type) {
     case WG_INDEX_TYPE_TTREE:
-      create_ttree_index(db, index_id);
+      if(create_ttree_index(db, index_id))
+        goto create_failed;
       break;
     case WG_INDEX_TYPE_HASH:
     case WG_INDEX_TYPE_HASH_JSON:
       if(create_hash_index(db, index_id))
-        return -1;
+        goto create_failed;
       break;
-    case WG_INDEX_TYPE_TTREE_JSON:
-      /* Return an error, until proper implementation exists */
-    default:
-      show_index_error(db, "Invalid index type");
-      return -1;
   }
 
   /* Add to master list */
   if(!insert_into_list(db,
      &dbh->index_control_area_header.index_list ,index_id))
-    return -1;
+    goto create_failed;
 
 #ifdef USE_INDEX_TEMPLATE
   if(hdr->template_offset) {
@@ -2256,7 +2346,7 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
         if(!insert_into_list(db,
           &(dbh->index_control_area_header.index_template_table[i]),
           index_id))
-          return 0;
+          goto create_failed;
       }
     }
   }
@@ -2270,6 +2360,38 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 #endif
 
   return 0;
+
+create_failed:
+  /* Undo everything that was done so far */
+  if(index_id) {
+    for(i=0; i<col_count; i++) {
+      remove_from_list(db,
+        &dbh->index_control_area_header.index_table[sorted_cols[i]],
+        index_id);
+    }
+#ifdef USE_INDEX_TEMPLATE
+    if(tmpl) {
+      for(i=0; i<reclen; i++) {
+        remove_from_list(db,
+          &(dbh->index_control_area_header.index_template_table[i]),
+          index_id);
+      }
+    }
+#endif
+    remove_from_list(db,
+      &dbh->index_control_area_header.index_list, index_id);
+    if(type == WG_INDEX_TYPE_TTREE) {
+      drop_ttree_index(db, index_id);
+    } else if(HASHIDX_ARRAYP(hdr)->arraystart) {
+      clear_hash_index(db, index_id);
+    }
+    wg_free_fixlen_object(db, &dbh->indexhdr_area_header, index_id);
+  }
+#ifdef USE_INDEX_TEMPLATE
+  if(tmpl && !tmpl->refcount)
+    remove_index_template(db, template_offset, 0);
+#endif
+  return -1;
 }
 
 
@@ -2356,11 +2478,6 @@ gint wg_drop_index(void *db, gint index_id){
       if(drop_ttree_index(db, index_id))
         return -1;
       break;
-    case WG_INDEX_TYPE_HASH:
-    case WG_INDEX_TYPE_HASH_JSON:
-      if(drop_hash_index(db, index_id))
-        return -1;
-      break;
     default:
       show_index_error(db, "Invalid index type");
       return -1;
@@ -2371,7 +2488,7 @@ gint wg_drop_index(void *db, gint index_id){
     wg_index_template *tmpl = \
       (wg_index_template *) offsettoptr(db, hdr->template_offset);
     if(!(--(tmpl->refcount)))
-      remove_index_template(db, hdr->template_offset);
+      remove_index_template(db, hdr->template_offset, 1);
   }
 #endif
 
-- 
2.43.0


From 5f819ba6876df49a5689b98a6d3ea796612497d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:23 +0000
Subject: [PATCH 10/90] fix: a replay that could not begin left journaling
 switched off

---
 Db/dblog.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index b9c5a47..464b63b 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -886,8 +886,7 @@ gint wg_replay_log(void *db, char *filename)
   }
 
   if(check_journal(db, fd)) {
-    err = -1;
-    goto abort2;
+    JOURNAL_FAIL(fd, -1)
   }
 
   active = dbh->logging.active;
@@ -899,11 +898,17 @@ gint wg_replay_log(void *db, char *filename)
 #else
   f = _fdopen(fd, "rb");
 #endif
+  if(!f) {
+    show_log_error(db, "Error opening log file");
+    dbh->logging.active = active; /* nothing was done */
+    JOURNAL_FAIL(fd, -1)
+  }
   /* XXX: may consider fcntl-locking here */
   /* restore the log contents */
   tran_tbl = wg_ginthash_init(db);
   if(!tran_tbl) {
     show_log_error(db, "Failed to create log translation table");
+    dbh->logging.active = active; /* nothing was done */
     err = -1;
     goto abort1;
   }
@@ -920,7 +925,6 @@ abort0:
 abort1:
   fclose(f);
 
-abort2:
   if(!err && active) {
     if(wg_start_logging(db)) {
       show_log_error(db, "Log restored but failed to reactivate logging");
-- 
2.43.0


From f14bd47e071dde0987d225f7eef89613dd4f25fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:23 +0000
Subject: [PATCH 11/90] fix: journal entries were written in parts, before the
 outcome was known, and lost wide ints and blobs

---
 Db/dbdata.c | 154 ++++++++++++++++++++++------------------------------
 Db/dblog.c  | 117 ++++++++++++++++++++++++++-------------
 Db/dblog.h  |   6 +-
 3 files changed, 149 insertions(+), 128 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 4599703..8fb2e64 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -90,7 +90,9 @@ static long ymd_to_scalar (unsigned yr, unsigned mo, unsigned day);
 static void scalar_to_ymd (long scalar, unsigned *yr, unsigned *mo, unsigned *day);
 
 static gint free_field_encoffset(void* db,gint encoffset);
-static gint find_create_longstr(void* db, const char* data, const char* extrastr, gint type, gint length);
+static gint encode_unistr(void* db, const char* str, const char* lang,
+  gint type, gint *isnew);
+static gint find_create_longstr(void* db, const char* data, const char* extrastr, gint type, gint length, gint *isnew);
 
 #ifdef USE_CHILD_DB
 static void *get_ptr_owner(void *db, gint encoded);
@@ -153,24 +155,11 @@ void* wg_create_raw_record(void* db, wg_int length) {
   }
 #endif
 
-#ifdef USE_DBLOG
-  /* Log first, modify shared memory next */
-  if(dbmemsegh(db)->logging.active) {
-    if(wg_log_create_record(db, length))
-      return 0;
-  }
-#endif
-
   offset=wg_alloc_gints(db,
                      &(dbmemsegh(db)->datarec_area_header),
                     length+RECORD_HEADER_GINTS);
   if (!offset) {
     show_data_error_nr(db,"cannot create a record of size ",length);
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      wg_log_encval(db, 0);
-    }
-#endif
     return 0;
   }
 
@@ -182,10 +171,12 @@ void* wg_create_raw_record(void* db, wg_int length) {
   }
 
 #ifdef USE_DBLOG
-  /* Append the created offset to log */
+  /* Log the operation, undo it if that fails */
   if(dbmemsegh(db)->logging.active) {
-    if(wg_log_encval(db, offset))
+    if(wg_log_create_record(db, length, offset)) {
+      wg_free_object(db, &(dbmemsegh(db)->datarec_area_header), offset);
       return 0; /* journal error */
+    }
   }
 #endif
 
@@ -214,6 +205,15 @@ gint wg_delete_record(void* db, void *rec) {
   }
 #endif
 
+  offset = ptrtooffset(db, rec);
+#if defined(CHECK) && defined(USE_CHILD_DB)
+  /* Check if it's a local record */
+  if(!is_local_offset(db, offset)) {
+    show_data_error(db, "not deleting an external record");
+    return -2;
+  }
+#endif
+
 #ifdef USE_BACKLINKING
   if(*((gint *) rec + RECORD_BACKLINKS_POS))
     return -1;
@@ -233,14 +233,6 @@ gint wg_delete_record(void* db, void *rec) {
       return -3; /* index error */
   }
 
-  offset = ptrtooffset(db, rec);
-#if defined(CHECK) && defined(USE_CHILD_DB)
-  /* Check if it's a local record */
-  if(!is_local_offset(db, offset)) {
-    show_data_error(db, "not deleting an external record");
-    return -2;
-  }
-#endif
 
   /* Loop over fields, freeing them */
   dendptr = (gint *) (((char *) rec) + datarec_size_bytes(*((gint *)rec)));
@@ -1450,30 +1442,20 @@ wg_int wg_encode_int(void* db, wg_int data) {
   if (fits_smallint(data)) {
     return encode_smallint(data);
   } else {
-#ifdef USE_DBLOG
-    /* Log before allocating. Note this call is skipped when
-     * we have a small int.
-     */
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encode(db, WG_INTTYPE, &data, 0, NULL, 0))
-        return WG_ILLEGAL;
-    }
-#endif
     offset=alloc_word(db);
     if (!offset) {
       show_data_error_nr(db,"cannot store an integer in wg_set_int_field: ",data);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
     dbstore(db,offset,data);
 #ifdef USE_DBLOG
+    /* Note this call is skipped when we have a small int. */
     if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_fullint_offset(offset)))
+      if(wg_log_encode(db, WG_INTTYPE, &data, 0, NULL, 0,
+        encode_fullint_offset(offset))) {
+        wg_free_encoded(db, encode_fullint_offset(offset));
         return WG_ILLEGAL; /* journal error */
+      }
     }
 #endif
     return encode_fullint_offset(offset);
@@ -1533,13 +1515,6 @@ wg_int wg_encode_double(void* db, double data) {
     show_data_error(db,"wrong database pointer given to wg_encode_double");
     return WG_ILLEGAL;
   }
-#endif
-#ifdef USE_DBLOG
-  /* Log before allocating. */
-  if(dbmemsegh(db)->logging.active) {
-    if(wg_log_encode(db, WG_DOUBLETYPE, &data, 0, NULL, 0))
-      return WG_ILLEGAL;
-  }
 #endif
   if (0) {
     // possible future case for tiny floats
@@ -1547,18 +1522,16 @@ wg_int wg_encode_double(void* db, double data) {
     offset=alloc_doubleword(db);
     if (!offset) {
       show_data_error_double(db,"cannot store a double in wg_set_double_field: ",data);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
     *((double*)(offsettoptr(db,offset)))=data;
 #ifdef USE_DBLOG
     if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_fulldouble_offset(offset)))
+      if(wg_log_encode(db, WG_DOUBLETYPE, &data, 0, NULL, 0,
+        encode_fulldouble_offset(offset))) {
+        wg_free_encoded(db, encode_fulldouble_offset(offset));
         return WG_ILLEGAL; /* journal error */
+      }
     }
 #endif
     return encode_fulldouble_offset(offset);
@@ -2459,6 +2432,27 @@ Universal funs for string, xmlliteral, uri, blob
 
 
 gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
+  gint isnew = 0;
+  gint enc = encode_unistr(db, str, lang, type, &isnew);
+#ifdef USE_DBLOG
+  /* Log the operation, undo it if that fails */
+  if(enc != WG_ILLEGAL && dbmemsegh(db)->logging.active) {
+    if(wg_log_encode(db, type, str, strlen(str),
+      lang, (lang ? strlen(lang) : 0), enc)) {
+      if(isnew)
+        wg_free_encoded(db, enc);
+      return WG_ILLEGAL; /* journal error */
+    }
+  }
+#endif
+  return enc;
+}
+
+/** Encode a string without logging it.
+ *  isnew is set if storage was allocated (not for an existing equal string).
+ */
+static gint encode_unistr(void* db, const char* str, const char* lang,
+  gint type, gint *isnew) {
   gint offset;
   gint len;
 #ifdef USETINYSTR
@@ -2469,15 +2463,6 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
   char* dendptr;
 
   len=(gint)(strlen(str));
-#ifdef USE_DBLOG
-  /* Log before allocating. */
-  if(dbmemsegh(db)->logging.active) {
-    gint extlen = 0;
-    if(lang) extlen = strlen(lang);
-    if(wg_log_encode(db, type, str, len, lang, extlen))
-      return WG_ILLEGAL;
-  }
-#endif
 #ifdef USETINYSTR
 /* XXX: add tinystr support to logging */
 #ifdef USE_DBLOG
@@ -2499,13 +2484,9 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     offset=alloc_shortstr(db);
     if (!offset) {
       show_data_error_str(db,"cannot store a string in wg_encode_unistr",str);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
+    *isnew=1;
     // loop over bytes, storing them starting from offset
     dptr = (char *) offsettoptr(db,offset);
     dendptr=dptr+SHORTSTR_SIZE;
@@ -2516,31 +2497,14 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
     for(sptr=(char *) str; (*dptr=*sptr)!=0; sptr++, dptr++) {}; // copy string
     for(dptr++; dptr<dendptr; dptr++) { *dptr=0; }; // zero the rest
     // store offset to field
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_shortstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
-#endif
     return encode_shortstr_offset(offset);
     //dbstore(db,ptrtoffset(record)+RECORD_HEADER_GINTS+fieldnr,encode_shortstr_offset(offset));
   } else {
-    offset=find_create_longstr(db,str,lang,type,len+1);
+    offset=find_create_longstr(db,str,lang,type,len+1,isnew);
     if (!offset) {
       show_data_error_nr(db,"cannot create a string of size ",len);
-#ifdef USE_DBLOG
-      if(dbmemsegh(db)->logging.active) {
-        wg_log_encval(db, WG_ILLEGAL);
-      }
-#endif
       return WG_ILLEGAL;
     }
-#ifdef USE_DBLOG
-    if(dbmemsegh(db)->logging.active) {
-      if(wg_log_encval(db, encode_longstr_offset(offset)))
-        return WG_ILLEGAL; /* journal error */
-    }
-#endif
     return encode_longstr_offset(offset);
   }
 }
@@ -2548,20 +2512,32 @@ gint wg_encode_unistr(void* db, const char* str, const char* lang, gint type) {
 
 gint wg_encode_uniblob(void* db, const char* str, const char* lang, gint type, gint len) {
   gint offset;
+  gint isnew = 0;
 
   if (0) {
   } else {
-    offset=find_create_longstr(db,str,lang,type,len);
+    offset=find_create_longstr(db,str,lang,type,len,&isnew);
     if (!offset) {
       show_data_error_nr(db,"cannot create a blob of size ",len);
       return WG_ILLEGAL;
     }
+#ifdef USE_DBLOG
+    /* Log the operation, undo it if that fails */
+    if(dbmemsegh(db)->logging.active) {
+      if(wg_log_encode(db, type, str, len,
+        lang, (lang ? strlen(lang) : 0), encode_longstr_offset(offset))) {
+        if(isnew)
+          wg_free_encoded(db, encode_longstr_offset(offset));
+        return WG_ILLEGAL; /* journal error */
+      }
+    }
+#endif
     return encode_longstr_offset(offset);
   }
 }
 
 
-static gint find_create_longstr(void* db, const char* data, const char* extrastr, gint type, gint length) {
+static gint find_create_longstr(void* db, const char* data, const char* extrastr, gint type, gint length, gint *isnew) {
   db_memsegment_header* dbh = dbmemsegh(db);
   gint offset;
   size_t i;
@@ -2571,6 +2547,7 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
   char* lstrptr;
   gint old=0;
   gint extra=0;
+  gint extranew=0;
   int hash;
   gint hasharrel;
   gint res;
@@ -2595,7 +2572,7 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
     // equal string not found in hash
     // if extrastr exists, encode it first: this may change the hash chain
     if (extrastr!=NULL) {
-      extra=wg_encode_str(db,extrastr,NULL);
+      extra=encode_unistr(db,extrastr,NULL,WG_STRTYPE,&extranew);
       if (extra==WG_ILLEGAL) {
         //show_data_error_nr(db,"cannot create an (extra)string of size ",strlen(extrastr));
         return 0;
@@ -2611,9 +2588,10 @@ static gint find_create_longstr(void* db, const char* data, const char* extrastr
                     lengints+LONGSTR_HEADER_GINTS);
     if (!offset) {
       //show_data_error_nr(db,"cannot create a data string/blob of size ",length);
-      if (extrastr!=NULL) wg_free_encoded(db,extra);
+      if (extranew) wg_free_encoded(db,extra);
       return 0;
     }
+    *isnew=1;
     lstrptr=(char*)(offsettoptr(db,offset));
     // store string contents
     memcpy(lstrptr+(LONGSTR_HEADER_GINTS*sizeof(gint)),data,length);
diff --git a/Db/dblog.c b/Db/dblog.c
index 464b63b..f247d60 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -533,6 +533,7 @@ gint recover_encode(void *db, FILE *f, gint type)
   char *strbuf, *extbuf;
   gint length = 0, extlength = 0, enc;
   int intval;
+  gint gintval;
   double doubleval;
 
   switch(type) {
@@ -542,6 +543,12 @@ gint recover_encode(void *db, FILE *f, gint type)
         return WG_ILLEGAL;
       }
       return wg_encode_int(db, intval);
+    case WG_JOURNAL_TYPE_GINT:
+      if(fread((char *) &gintval, sizeof(gint), 1, f) != 1) {
+        show_log_error(db, "Failed to read log entry");
+        return WG_ILLEGAL;
+      }
+      return wg_encode_int(db, gintval);
     case WG_DOUBLETYPE:
       if(fread((char *) &doubleval, sizeof(double), 1, f) != 1) {
         show_log_error(db, "Failed to read log entry");
@@ -552,10 +559,15 @@ gint recover_encode(void *db, FILE *f, gint type)
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
       GET_LOG_VARINT(db, f, length, WG_ILLEGAL)
       GET_LOG_VARINT(db, f, extlength, WG_ILLEGAL)
+      if(length < 0 || length > dbmemsegh(db)->size ||\
+        extlength < 0 || extlength > dbmemsegh(db)->size) {
+        show_log_error(db, "Invalid log entry");
+        return WG_ILLEGAL;
+      }
 
       strbuf = (char *) malloc(length + 1);
       if(!strbuf) {
@@ -587,7 +599,10 @@ gint recover_encode(void *db, FILE *f, gint type)
         extbuf = NULL;
       }
 
-      enc = wg_encode_unistr(db, strbuf, extbuf, type);
+      if(type == WG_BLOBTYPE)
+        enc = wg_encode_uniblob(db, strbuf, extbuf, type, length);
+      else
+        enc = wg_encode_unistr(db, strbuf, extbuf, type);
       free(strbuf);
       if(extbuf)
         free(extbuf);
@@ -947,6 +962,7 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
   db_memsegment_header* dbh = dbmemsegh(db);
   db_handle_logdata *ld = \
     (db_handle_logdata *) (((db_handle *) db)->logdata);
+  int written = 0;
 
   if(ld->fd >= 0 && ld->serial != dbh->logging.serial) {
     /* Stale file descriptor, get a new one */
@@ -981,13 +997,43 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
   /* Always mark log as dirty when writing something */
   dbh->logging.dirty = 1;
 
+  /* Write the whole entry */
+  while(written < buflen) {
+    int cnt;
 #ifndef _WIN32
-  if(write(ld->fd, (char *) buf, buflen) != buflen) {
+    cnt = write(ld->fd, (char *) buf + written, buflen - written);
 #else
-  if(_write(ld->fd, (char *) buf, buflen) != buflen) {
+    cnt = _write(ld->fd, (char *) buf + written, buflen - written);
 #endif
+    if(cnt < 0 && errno == EINTR)
+      continue;
+    if(cnt <= 0)
+      break;
+    written += cnt;
+  }
+
+  if(written < buflen) {
     show_log_error(db, "Error writing to log file");
-    JOURNAL_FAIL(ld->fd, -5)
+    if(written > 0) {
+      /* Remove the partial entry, what follows it would be unreadable */
+#ifndef _WIN32
+      off_t end = lseek(ld->fd, 0, SEEK_END);
+      if(end < written || ftruncate(ld->fd, end - written)) {
+#else
+      long end = _lseek(ld->fd, 0, SEEK_END);
+      if(end < written || _chsize_s(ld->fd, end - written)) {
+#endif
+        show_log_error(db, "Journal is damaged, logging stopped");
+        dbh->logging.active = 0;
+      }
+    }
+#ifndef _WIN32
+    close(ld->fd);
+#else
+    _close(ld->fd);
+#endif
+    ld->fd = -1;
+    return -5;
   }
 
   return 0;
@@ -1009,17 +1055,19 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
  */
 
 /** Log the creation of a record.
- *  This call should always be followed by wg_log_encval()
+ *  Called when the record has been allocated. An entry is always written
+ *  as a whole, so that a failure leaves nothing in the journal.
  *
  *  We assume that dbh->logging.active flag is checked before calling this.
  */
-gint wg_log_create_record(void *db, gint length)
+gint wg_log_create_record(void *db, gint length, gint offset)
 {
 #ifdef USE_DBLOG
-  unsigned char buf[1 + VARINT_SIZE], *optr;
+  unsigned char buf[1 + 2*VARINT_SIZE], *optr;
   buf[0] = WG_JOURNAL_ENTRY_CRE;
   optr = &buf[1];
   optr += enc_varint(optr, (wg_uint) length);
+  optr += enc_varint(optr, (wg_uint) offset);
   return write_log_buffer(db, (void *) buf, optr - buf);
 #else
   return show_log_error(db, "Logging is disabled");
@@ -1042,29 +1090,15 @@ gint wg_log_delete_record(void *db, gint enc)
 #endif /* USE_DBLOG */
 }
 
-/** Log the result of an encode operation. Also handles records.
- *
- *  If the encode function or record creation failed, call this
- *  with WG_ILLEGAL to indicate the failure of the operation.
- */
-gint wg_log_encval(void *db, gint enc)
-{
-#ifdef USE_DBLOG
-  unsigned char buf[VARINT_SIZE];
-  size_t buflen = enc_varint(buf, (wg_uint) enc);
-  return write_log_buffer(db, (void *) buf, buflen);
-#else
-  return show_log_error(db, "Logging is disabled");
-#endif /* USE_DBLOG */
-}
-
 /** Log an encode operation.
+ *  Called when the storage for the value has been allocated, enc is the
+ *  encoded value.
  *
  * This is the most expensive log operation as we need to write the
  * chunk of data to be encoded.
  */
 gint wg_log_encode(void *db, gint type, const void *data, gint length,
-  const void *extdata, gint extlength)
+  const void *extdata, gint extlength, gint enc)
 {
 #ifdef USE_DBLOG
   unsigned char *buf, *optr, *oend, *iptr;
@@ -1084,36 +1118,43 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       break;
     case WG_INTTYPE:
       /* int argument */
-      if(fits_smallint(*((int *) data))) {
+      if(fits_smallint(*((gint *) data))) {
         return 0; /* self-contained, don't log */
-      } else {
-        buflen = 1 + sizeof(int);
-        buf = (unsigned char *) malloc(buflen);
-        optr = buf + 1;
-        *((int *) optr) = *((int *) data);
       }
+      type = WG_JOURNAL_TYPE_GINT; /* full width */
+      buflen = 1 + sizeof(gint) + VARINT_SIZE;
+      buf = (unsigned char *) malloc(buflen);
+      if(!buf)
+        return show_log_error(db, "Failed to allocate buffers");
+      optr = buf + 1;
+      memcpy(optr, data, sizeof(gint));
+      optr += sizeof(gint);
       break;
     case WG_DOUBLETYPE:
       /* double precision argument */
-      buflen = 1 + sizeof(double);
+      buflen = 1 + sizeof(double) + VARINT_SIZE;
       buf = (unsigned char *) malloc(buflen);
+      if(!buf)
+        return show_log_error(db, "Failed to allocate buffers");
       optr = buf + 1;
-      *((double *) optr) = *((double *) data);
+      memcpy(optr, data, sizeof(double));
+      optr += sizeof(double);
       break;
     case WG_STRTYPE:
     case WG_URITYPE:
     case WG_XMLLITERALTYPE:
     case WG_ANONCONSTTYPE:
-    case WG_BLOBTYPE: /* XXX: no encode func for this yet */
+    case WG_BLOBTYPE:
       /* strings with extdata */
-      buflen = 1 + 2*VARINT_SIZE + length + extlength;
+      buflen = 1 + 3*VARINT_SIZE + length + extlength;
       buf = (unsigned char *) malloc(buflen);
+      if(!buf)
+        return show_log_error(db, "Failed to allocate buffers");
 
       /* data and extdata length */
       optr = buf + 1;
       optr += enc_varint(optr, (wg_uint) length);
       optr += enc_varint(optr, (wg_uint) extlength);
-      buflen -= 1 + 2*VARINT_SIZE - (optr - buf); /* actual size known */
 
       /* data */
       oend = optr + length;
@@ -1129,8 +1170,10 @@ gint wg_log_encode(void *db, gint type, const void *data, gint length,
       return show_log_error(db, "Unsupported data type");
   }
 
-  /* Add a fixed prefix */
+  /* Add a fixed prefix and the result */
   buf[0] = WG_JOURNAL_ENTRY_ENC | type;
+  optr += enc_varint(optr, (wg_uint) enc);
+  buflen = optr - buf; /* actual size known */
 
   err = write_log_buffer(db, (void *) buf, buflen);
   free(buf);
diff --git a/Db/dblog.h b/Db/dblog.h
index cf72c83..27042d6 100644
--- a/Db/dblog.h
+++ b/Db/dblog.h
@@ -46,6 +46,7 @@
 #define WG_JOURNAL_ENTRY_META ((unsigned char) 0x20)
 #define WG_JOURNAL_ENTRY_CMDMASK (0xe0)
 #define WG_JOURNAL_ENTRY_TYPEMASK (0x1f)
+#define WG_JOURNAL_TYPE_GINT (0x1f) /* integer of full width */
 
 
 /* ====== data structures ======== */
@@ -68,11 +69,10 @@ gint wg_start_logging(void *db);
 gint wg_stop_logging(void *db);
 gint wg_replay_log(void *db, char *filename);
 
-gint wg_log_create_record(void *db, gint length);
+gint wg_log_create_record(void *db, gint length, gint offset);
 gint wg_log_delete_record(void *db, gint enc);
-gint wg_log_encval(void *db, gint enc);
 gint wg_log_encode(void *db, gint type, const void *data, gint length,
-  const void *extdata, gint extlength);
+  const void *extdata, gint extlength, gint enc);
 gint wg_log_set_field(void *db, void *rec, gint col, gint data);
 gint wg_log_set_meta(void *db, void *rec, gint meta);
 
-- 
2.43.0


From 1c2d3f270f78e0bacb893213dfefea9bb015ec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:23 +0000
Subject: [PATCH 12/90] fix: journal replay used stale translations of reused
 offsets

---
 Db/dbhash.c | 8 ++++++++
 Db/dblog.c  | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 862face..2b5ec25 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -607,6 +607,7 @@ void *wg_ginthash_init(void *db) {
 }
 
 /** Add a key/value pair to the hash table.
+ *  If the key is present already, its value is replaced.
  *  tbl should be created with wg_ginthash_init()
  *  Returns 0 on success
  *  Returns -1 on failure
@@ -627,6 +628,13 @@ gint wg_ginthash_addkey(void *db, void *tbl, gint key, gint val) {
     ((ext_ginthash *)tbl)->directory[hash] = bucket;
   }
   else {
+    int i;
+    for(i=0; i<bucket->fill; i++) {
+      if(bucket->key[i] == key) {
+        bucket->value[i] = val;
+        return 0;
+      }
+    }
     add_to_bucket(bucket, key, val);
     while(bucket->fill > GINTHASH_BUCKETCAP) {
       ginthash_bucket *newb;
diff --git a/Db/dblog.c b/Db/dblog.c
index f247d60..c443fa6 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -444,7 +444,8 @@ static int fget_varint(void *db, FILE *f, wg_uint *val) {
 }
 
 /** Add a log recovery translation entry
- *  Uses extendible gint hashtable internally.
+ *  Uses extendible gint hashtable internally. The latest entry counts:
+ *  storage at the same offset may have been freed and reused.
  */
 static gint add_tran_offset(void *db, void *table, gint old, gint new)
 {
-- 
2.43.0


From c2c372af952c148dccd6bb542e4547dadc5c9a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:23 +0000
Subject: [PATCH 13/90] fix: journal replay dereferenced whatever offsets the
 file contained

---
 Db/dblog.c | 109 +++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 94 insertions(+), 15 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index c443fa6..3817af9 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -118,6 +118,10 @@ static gint add_tran_offset(void *db, void *table, gint old, gint new);
 static gint add_tran_enc(void *db, void *table, gint old, gint new);
 static gint translate_offset(void *db, void *table, gint offset);
 static gint translate_encoded(void *db, void *table, gint enc);
+static gint valid_object(void *db, db_area_header *areah, gint offset);
+static gint valid_fixlen(void *db, db_area_header *areah, gint offset);
+static gint valid_record(void *db, gint offset);
+static gint valid_encoded(void *db, gint enc);
 static gint recover_encode(void *db, FILE *f, gint type);
 static gint recover_journal(void *db, FILE *f, void *table);
 
@@ -526,6 +530,77 @@ static gint translate_encoded(void *db, void *table, gint enc)
   return enc;
 }
 
+/** Check that an offset is that of an object in an area with
+ *  objects of varying length.
+ */
+static gint valid_object(void *db, db_area_header *areah, gint offset)
+{
+  gint i;
+  if(offset <= 0 || (offset & NORMALPTRMASK))
+    return 0;
+  for(i=0; i<=areah->last_subarea_index; i++) {
+    db_subarea_header *sah = &(areah->subarea_array[i]);
+    gint start = sah->alignedoffset, end = sah->offset + sah->size;
+    if(offset > start && offset < end) {
+      gint head = dbfetch(db, offset);
+      return isnormalusedobject(head) &&\
+        head >= RECORD_HEADER_GINTS * (gint) sizeof(gint) &&\
+        getusedobjectsize(head) <= end - offset;
+    }
+  }
+  return 0;
+}
+
+/** Check that an offset lies in an area with objects of fixed length.
+ */
+static gint valid_fixlen(void *db, db_area_header *areah, gint offset)
+{
+  gint i;
+  for(i=0; i<=areah->last_subarea_index; i++) {
+    db_subarea_header *sah = &(areah->subarea_array[i]);
+    if(offset >= sah->alignedoffset &&\
+      offset + areah->objlength <= sah->offset + sah->size)
+      return !((offset - sah->alignedoffset) % areah->objlength);
+  }
+  return 0;
+}
+
+/** Check a record offset read from the log
+ */
+static gint valid_record(void *db, gint offset)
+{
+  return valid_object(db, &(dbmemsegh(db)->datarec_area_header), offset);
+}
+
+/** Check an encoded value read from the log
+ */
+static gint valid_encoded(void *db, gint enc)
+{
+  db_memsegment_header* dbh = dbmemsegh(db);
+  if(isptr(enc)) {
+    switch(enc & NORMALPTRMASK) {
+      case DATARECBITS:
+        return valid_record(db, decode_datarec_offset(enc));
+      case LONGSTRBITS:
+        return valid_object(db, &(dbh->longstr_area_header),
+          decode_longstr_offset(enc));
+      case SHORTSTRBITS:
+        return valid_fixlen(db, &(dbh->shortstr_area_header),
+          decode_shortstr_offset(enc));
+      case FULLDOUBLEBITS:
+        return valid_fixlen(db, &(dbh->doubleword_area_header),
+          decode_fulldouble_offset(enc));
+      case FULLINTBITSV0:
+      case FULLINTBITSV1:
+        return valid_fixlen(db, &(dbh->word_area_header),
+          decode_fullint_offset(enc));
+      default:
+        return 0;
+    }
+  }
+  return !enc || wg_get_encoded_type(db, enc) > 0;
+}
+
 /** Parse an encode entry from the log.
  *
  */
@@ -612,7 +687,8 @@ gint recover_encode(void *db, FILE *f, gint type)
       break;
   }
 
-  return show_log_error(db, "Unsupported data type");
+  show_log_error(db, "Unsupported data type");
+  return WG_ILLEGAL;
 }
 
 /** Parse the journal file. Used internally only.
@@ -631,24 +707,25 @@ static gint recover_journal(void *db, FILE *f, void *table)
       case WG_JOURNAL_ENTRY_CRE:
         GET_LOG_VARINT(db, f, length, -1)
         GET_LOG_VARINT(db, f, offset, -1)
-        rec = wg_create_record(db, length);
-        if(offset != 0) {
-          /* XXX: should we have even tried if this failed earlier? */
+        if(offset != 0) { /* 0 if it failed earlier */
+          if(length < 0 || length > dbmemsegh(db)->size)
+            return show_log_error(db, "Invalid log entry");
+          rec = wg_create_record(db, length);
           if(!rec) {
             return show_log_error(db, "Failed to create a new record");
           }
           newoffset = ptrtooffset(db, rec);
-          if(newoffset != offset) {
-            if(add_tran_offset(db, table, offset, newoffset)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          if(add_tran_offset(db, table, offset, newoffset)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
       case WG_JOURNAL_ENTRY_DEL:
         GET_LOG_VARINT(db, f, offset, -1)
         newoffset = translate_offset(db, table, offset);
+        if(!valid_record(db, newoffset))
+          return show_log_error(db, "Invalid log entry");
         rec = offsettoptr(db, newoffset);
         if(wg_delete_record(db, rec) < -1) {
           return show_log_error(db, "Failed to delete a record");
@@ -663,11 +740,9 @@ static gint recover_journal(void *db, FILE *f, void *table)
           if(newenc == WG_ILLEGAL) {
             return -1;
           }
-          if(newenc != enc) {
-            if(add_tran_enc(db, table, enc, newenc)) {
-              return show_log_error(db, "Failed to parse log "\
-                "(out of translation memory)");
-            }
+          if(add_tran_enc(db, table, enc, newenc)) {
+            return show_log_error(db, "Failed to parse log "\
+              "(out of translation memory)");
           }
         }
         break;
@@ -676,8 +751,10 @@ static gint recover_journal(void *db, FILE *f, void *table)
         GET_LOG_VARINT(db, f, col, -1)
         GET_LOG_VARINT(db, f, enc, -1)
         newoffset = translate_offset(db, table, offset);
-        rec = offsettoptr(db, newoffset);
         newenc = translate_encoded(db, table, enc);
+        if(!valid_record(db, newoffset) || !valid_encoded(db, newenc))
+          return show_log_error(db, "Invalid log entry");
+        rec = offsettoptr(db, newoffset);
         if(wg_set_field(db, rec, col, newenc)) {
           return show_log_error(db, "Failed to set field data");
         }
@@ -686,6 +763,8 @@ static gint recover_journal(void *db, FILE *f, void *table)
         GET_LOG_VARINT(db, f, offset, -1)
         GET_LOG_VARINT(db, f, meta, -1)
         newoffset = translate_offset(db, table, offset);
+        if(!valid_record(db, newoffset))
+          return show_log_error(db, "Invalid log entry");
         rec = offsettoptr(db, newoffset);
         *((gint *) rec + RECORD_META_POS) = meta;
         break;
-- 
2.43.0


From 23fb4ac4c5c82fec192645b60bbdde1a296ad5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:47 +0000
Subject: [PATCH 14/90] fix: wg_dump lost the journal when the dump failed and
 could write a checksum that did not match

---
 Db/dbdump.c | 67 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index ecab351..eb2efcc 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -30,6 +30,7 @@
 
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #ifdef _WIN32
 #define WIN32_LEAN_AND_MEAN
@@ -57,6 +58,8 @@ extern "C" {
 #include "dbdump.h"
 #include "crc1.h"
 
+#define DUMP_CHUNK 8192 /* bytes written to the dump file at a time */
+
 /* ======= Private protos ================ */
 
 
@@ -85,13 +88,14 @@ gint wg_dump(void * db,char fileName[]) {
 gint wg_dump_internal(void * db, char fileName[], int locking) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
-  gint dbsize = dbh->free; /* first unused offset - 0 = db size */
+  gint dbsize, pos, len;
 #ifdef USE_DBLOG
   gint active;
 #endif
   gint err = -1;
   gint lock_id = 0;
-  gint32 crc;
+  gint32 crc = 0;
+  char buf[DUMP_CHUNK];
 
 #ifdef CHECK
   if(dbh->extdbs.count != 0) {
@@ -99,16 +103,6 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  /* Open the dump file */
-#ifdef _WIN32
-  if(fopen_s(&f, fileName, "wb")) {
-#else
-  if(!(f = fopen(fileName, "wb"))) {
-#endif
-    show_dump_error(db, "Error opening file");
-    return -1;
-  }
-
 #ifndef USE_DBLOG
   /* Get shared lock on the db */
   if(locking) {
@@ -128,26 +122,44 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     }
   }
 
+  /* The logging flag is off in the dump */
   active = dbh->logging.active;
-  if(active) {
-    wg_stop_logging(db);
-  }
+  dbh->logging.active = 0;
 #endif
 
-  /* Compute the CRC32 of the used area */
-  crc = update_crc32(dbmemsegbytes(db), dbsize, 0x0);
+  dbsize = dbh->free; /* first unused offset - 0 = db size */
 
-  /* Now, write the memory area to file */
-  if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
+  /* Open the dump file */
+#ifdef _WIN32
+  if(fopen_s(&f, fileName, "wb")) {
+#else
+  if(!(f = fopen(fileName, "wb"))) {
+#endif
+    show_dump_error(db, "Error opening file");
+  } else {
+    /* Now, write the memory area to file. The CRC32 is computed from what
+     * is written, as the lock area may change while we're doing it.
+     */
+    for(pos=0; pos<dbsize; pos+=len) {
+      len = (dbsize - pos < DUMP_CHUNK ? dbsize - pos : DUMP_CHUNK);
+      memcpy(buf, dbmemsegbytes(db) + pos, len);
+      crc = update_crc32(buf, len, crc);
+      if(fwrite(buf, len, 1, f) != 1)
+        break;
+    }
     /* Overwrite checksum field */
-    fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET);
-    if(fwrite(&crc, sizeof(gint32), 1, f) == 1) {
+    if(pos >= dbsize &&\
+      !fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET) &&\
+      fwrite(&crc, sizeof(gint32), 1, f) == 1) {
       err = 0;
     }
-  }
+    /* The journal is still needed if this fails */
+    if(fclose(f))
+      err = -1;
 
-  if(err)
-    show_dump_error(db, "Error writing file");
+    if(err)
+      show_dump_error(db, "Error writing file");
+  }
 
 #ifndef USE_DBLOG
   /* We're done writing */
@@ -159,7 +171,9 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #else
   /* restart logging */
-  if(active) {
+  if(err) {
+    dbh->logging.active = active; /* continue the same journal */
+  } else if(active) {
     dbh->logging.dirty = 0;
     if(wg_start_logging(db)) {
       err = -2; /* Failed to re-initialize log */
@@ -174,9 +188,6 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  fflush(f);
-  fclose(f);
-
   return err;
 }
 
-- 
2.43.0


From 5d0614044e1086d84909c363370a2b3e449f6e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 15/90] fix: wg_import_dump took over the database key and
 journal serial of the dump; dumps with external references

---
 Db/dbdump.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index eb2efcc..622d443 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -100,6 +100,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
 #ifdef CHECK
   if(dbh->extdbs.count != 0) {
     show_dump_error(db, "Database contains external references");
+    return -1; /* can't be imported */
   }
 #endif
 
@@ -292,9 +293,11 @@ gint wg_import_dump(void * db,char fileName[]) {
   FILE *f;
   db_memsegment_header* dbh = dbmemsegh(db);
   gint dbsize = -1, newsize;
+  gint32 key;
   gint err = -1;
 #ifdef USE_DBLOG
   gint active = dbh->logging.active;
+  gint serial = dbh->logging.serial;
 #endif
 
 
@@ -323,6 +326,7 @@ gint wg_import_dump(void * db,char fileName[]) {
     dbsize = dumph->free;
     if(dumph->extdbs.count != 0) {
       show_dump_error(db, "Dump contains external references");
+      free(dumph);
       goto abort;
     }
   }
@@ -336,6 +340,7 @@ gint wg_import_dump(void * db,char fileName[]) {
   } else if(dbsize > 0) {
     /* We have a compatible dump file. */
     newsize = dbh->size;
+    key = dbh->key;
     fseek(f, 0, SEEK_SET);
     if(fread(dbmemseg(db), dbsize, 1, f) != 1) {
       show_dump_error(db, "Error reading dump file");
@@ -343,6 +348,7 @@ gint wg_import_dump(void * db,char fileName[]) {
     } else {
       err = 0;
       dbh->size = newsize;
+      dbh->key = key; /* the dump may be of another database */
       dbh->checksum = 0;
     }
   }
@@ -358,6 +364,7 @@ abort:
   /* restart logging */
   dbh->logging.dirty = 0;
   dbh->logging.active = 0;
+  dbh->logging.serial = serial; /* inherited from memory, see below */
   if(active) { /* state inherited from memory */
     if(wg_start_logging(db)) {
       return -2; /* Failed to re-initialize log */
-- 
2.43.0


From d1dd5ef683ec9746e1c2800bb00622b43af8bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 16/90] fix: open journal handles survived the start of a new
 journal

---
 Db/dblog.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dblog.c b/Db/dblog.c
index 3817af9..b95429d 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -904,6 +904,7 @@ gint wg_start_logging(void *db)
       show_log_error(db, "Error initializing log file");
       JOURNAL_FAIL(fd, -3)
     }
+    dbh->logging.serial++; /* new journal file, even if there was none */
   } else {
     /* check the magic header */
     if(check_journal(db, fd)) {
-- 
2.43.0


From 2866d41166a9492919b5a3bc01bf59dd5940d6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 17/90] fix: a journal stopped before a dump or damaged beyond
 repair was continued by the next start

---
 Db/dbdump.c | 6 +++---
 Db/dblog.c  | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 622d443..cae128e 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -174,9 +174,9 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   /* restart logging */
   if(err) {
     dbh->logging.active = active; /* continue the same journal */
-  } else if(active) {
-    dbh->logging.dirty = 0;
-    if(wg_start_logging(db)) {
+  } else {
+    dbh->logging.dirty = 0; /* also if logging is started later */
+    if(active && wg_start_logging(db)) {
       err = -2; /* Failed to re-initialize log */
     }
   }
diff --git a/Db/dblog.c b/Db/dblog.c
index b95429d..e7ed633 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -1106,6 +1106,7 @@ static gint write_log_buffer(void *db, void *buf, int buflen)
 #endif
         show_log_error(db, "Journal is damaged, logging stopped");
         dbh->logging.active = 0;
+        dbh->logging.dirty = 0; /* a restart begins a new file */
       }
     }
 #ifndef _WIN32
-- 
2.43.0


From cc469645caaaf0838eefc103214fa5503090951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:22 +0000
Subject: [PATCH 18/90] fix: an existing journal was overwritten when it could
 not be examined

---
 Db/dblog.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Db/dblog.c b/Db/dblog.c
index e7ed633..5464708 100644
--- a/Db/dblog.c
+++ b/Db/dblog.c
@@ -187,6 +187,7 @@ static int backup_journal(void *db, char *journal_fn) {
         logidx = i;
         break;
       }
+      return -1; /* don't guess, it may be a journal */
     } else if(!oldest || oldest > tmp.st_mtime) {
       oldest = tmp.st_mtime;
       logidx = i;
@@ -235,13 +236,18 @@ static int open_journal(void *db, int create) {
     struct _stat tmp;
     addflags |= _O_CREAT;
 #endif
+    if(!dbh->logging.dirty) {
 #ifndef _WIN32
-    if(!dbh->logging.dirty && !stat(journal_fn, &tmp)) {
+      if(!stat(journal_fn, &tmp)) {
 #else
-    if(!dbh->logging.dirty && !_stat(journal_fn, &tmp)) {
+      if(!_stat(journal_fn, &tmp)) {
 #endif
-      if(backup_journal(db, journal_fn)) {
-        show_log_error(db, "Failed to back up the existing journal.");
+        if(backup_journal(db, journal_fn)) {
+          show_log_error(db, "Failed to back up the existing journal.");
+          goto abort;
+        }
+      } else if(errno != ENOENT) {
+        show_log_error(db, "Failed to check for an existing journal.");
         goto abort;
       }
     }
-- 
2.43.0


From 644303ab6b65d0914b4a27c7c31e6af058bbe6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:05 +0000
Subject: [PATCH 19/90] fix: wg_import_dump accepted files of an incompatible
 format

---
 Db/dbdump.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index cae128e..905d751 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -311,9 +311,8 @@ gint wg_import_dump(void * db,char fileName[]) {
     return -1;
   }
 
-  /* Examine the dump header. We only read the size, it is
-   * implied that the integrity and compatibility were verified
-   * earlier.
+  /* Examine the dump header. It is implied that the integrity
+   * was verified earlier.
    */
   dumph = (db_memsegment_header *) malloc(sizeof(db_memsegment_header));
   if(!dumph) {
@@ -322,6 +321,9 @@ gint wg_import_dump(void * db,char fileName[]) {
   else if(fread(dumph, sizeof(db_memsegment_header), 1, f) != 1) {
     show_dump_error(db, "Error reading dump header");
   }
+  else if(wg_check_header_compat(dumph)) {
+    show_dump_error_str(db, "Incompatible dump file", fileName);
+  }
   else {
     dbsize = dumph->free;
     if(dumph->extdbs.count != 0) {
-- 
2.43.0


From ae3282c5bd271e5fac5d5ba2cf5b22324d7d9738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:53 +0000
Subject: [PATCH 20/90] fix: wg_ginthash_init leaked the directory when the
 bucket pool could not be allocated

---
 Db/dbhash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 2b5ec25..744b1ce 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -600,7 +600,7 @@ void *wg_ginthash_init(void *db) {
 
   memset(tbl, 0, sizeof(ext_ginthash));
   if(grow_ginthash(db, tbl)) { /* initial level is set to 1 */
-    free(tbl);
+    wg_ginthash_free(db, tbl);
     return NULL;
   }
   return tbl;
-- 
2.43.0


From c7a2a8cdbc2f6310474ed405b43534652f574516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:30 +0000
Subject: [PATCH 21/90] fix: wg_add_int_atomic_field computed the sum in an
 int, which destroyed larger values

---
 Db/dbdata.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 8fb2e64..7f64490 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1075,8 +1075,8 @@ wg_int wg_set_atomic_field(void* db, void* record, wg_int fieldnr, wg_int data)
 
 wg_int wg_add_int_atomic_field(void* db, void* record, wg_int fieldnr, int data) {
   gint* fieldadr;
-  gint old,nxt,r;
-  int i,sum;
+  gint old,nxt,sum,r;
+  int i;
 #ifdef _WIN32
   int ts=1;
 #else
-- 
2.43.0


From 2c47fb00ea54bba8c0119aef83d22e54a1757556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:49 +0000
Subject: [PATCH 22/90] fix: atomic field updates disordered indexes on
 references to the record

---
 Db/dbdata.c | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 7f64490..b220959 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -81,6 +81,7 @@ static gint remove_backlink_index_entries(void *db, gint *record,
   gint skipcol, gint depth);
 static gint restore_backlink_index_entries(void *db, gint *record,
   gint skipcol, gint depth);
+static gint has_indexed_backlinks(void *db, gint *record, gint depth);
 #endif
 
 static int isleap(unsigned yr);
@@ -537,6 +538,31 @@ static gint restore_backlink_index_entries(void *db, gint *record,
   return 0;
 }
 
+/** Check whether an index depends on the contents of a record.
+ *  This is the case when the record is referred to, directly or through
+ *  other records, from a field that has an index.
+ */
+static gint has_indexed_backlinks(void *db, gint *record, gint depth) {
+  gint *index_table = dbmemsegh(db)->index_control_area_header.index_table;
+  gint next_offset = *(record + RECORD_BACKLINKS_POS);
+  gint enc = wg_encode_record(db, record);
+
+  while(next_offset) {
+    gcell *next = (gcell *) offsettoptr(db, next_offset);
+    gint *parent = (gint *) offsettoptr(db, next->car);
+    gint i, reclen = wg_get_record_len(db, parent);
+
+    for(i=0; i<reclen && i<=MAX_INDEXED_FIELDNR; i++) {
+      if(index_table[i] && *(parent + RECORD_HEADER_GINTS + i) == enc)
+        return 1;
+    }
+    if(depth > 1 && has_indexed_backlinks(db, parent, depth-1))
+      return 1;
+    next_offset = next->cdr;
+  }
+  return 0;
+}
+
 #endif
 
 /* ------------ field handling: data storage and fetching ---------------- */
@@ -967,7 +993,8 @@ wg_int wg_set_rec_field(void* db, void* record, wg_int fieldnr, void* data) {
  *  returns -10 if new value non-immediate
  *  returns -11 if old value non-immediate
  *  returns -12 if cannot fetch old data
- *  returns -13 if the field has an index
+ *  returns -13 if the field has an index, or the record is referred to
+ *    from a field that has one
  *  returns -14 if logging is active
  *  returns -15 if the field value has been changed from old_data
  *  may return other field-setting error codes from wg_set_new_field
@@ -997,6 +1024,14 @@ wg_int wg_update_atomic_field(void* db, void* record, wg_int fieldnr, wg_int dat
 #endif
     return -13;
   }
+#if defined(USE_BACKLINKING) && (WG_COMPARE_REC_DEPTH > 0)
+  // records in an index are ordered by their contents
+  if(*((gint*)record + RECORD_BACKLINKS_POS) &&\
+    dbh->index_control_area_header.number_of_indexes > 0 &&\
+    has_indexed_backlinks(db, (gint*)record, WG_COMPARE_REC_DEPTH)) {
+    return -13;
+  }
+#endif
   // check that no logging is used
 #ifdef USE_DBLOG
   if(dbh->logging.active) {
-- 
2.43.0


From 61ab4cd6cac2d47738d9781e66725bf21812e2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:47 +0000
Subject: [PATCH 23/90] fix: failed attaches left the segment attached, an
 unusable segment or the handle behind

---
 Db/dbmem.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Db/dbmem.c b/Db/dbmem.c
index 453efe9..6c0563d 100644
--- a/Db/dbmem.c
+++ b/Db/dbmem.c
@@ -98,6 +98,7 @@ static gint show_memory_error_nr(char* errmsg, int nr);
         wg_print_code_version(); \
         wg_print_header_version(dbmemsegh(shmx), 1); \
       } \
+      wg_detach_database(shmx); \
       return NULL; \
     } \
   }
@@ -225,6 +226,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
      */
     if(!dbcheckh(shm)) {
       show_memory_error("Existing segment header is invalid");
+      detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
       free_dbhandle(dbhandle);
 #endif
@@ -238,6 +240,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(((db_memsegment_header *) shm)->size < minsize) {
         show_memory_error("Existing segment is too small");
+        detach_shared_memory(shm);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
 #endif
@@ -253,6 +256,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
        */
       if(!((db_memsegment_header *) shm)->logging.active) {
         show_memory_error("Existing memory segment has no journal");
+        detach_shared_memory(shm);
         free_dbhandle(dbhandle);
         return NULL;
       }
@@ -264,6 +268,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
     omode = wg_memmode(dbhandle);
     if(omode == -1) {
       show_memory_error("Failed to get the access mode of the segment");
+      detach_shared_memory(shm);
       free_dbhandle(dbhandle);
       return NULL;
     }
@@ -321,6 +326,7 @@ void* wg_attach_memsegment(const char* dbasename, gint minsize,
 #endif
       if(err) {
         show_memory_error("Database initialization failed");
+        detach_shared_memory(shm);
         free_shared_memory(key);
 #ifdef USE_DATABASE_HANDLE
         free_dbhandle(dbhandle);
@@ -386,6 +392,9 @@ void* wg_attach_local_database(gint size) {
   shm = (void *) malloc(size);
   if (shm==NULL) {
     show_memory_error("malloc failed");
+#ifdef USE_DATABASE_HANDLE
+    free_dbhandle(dbhandle);
+#endif
     return NULL;
   } else {
     /* key=0 - no shared memory associated */
@@ -790,6 +799,7 @@ static void* create_shared_memory(int key, gint size, int mode) {
   shm=shmat(shmid,NULL,0);
   if (shm==(char *) -1) {
     show_memory_error("attaching shared memory segment failed");
+    shmctl(shmid, IPC_RMID, NULL); /* it is not usable for anyone */
     return NULL;
   }
   return (void*) shm;
-- 
2.43.0


From cda49178870db208f48624cd96512ca0d0f880ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:54 +0000
Subject: [PATCH 24/90] fix: printing a record reference into a nearly full
 buffer read an unwritten buffer

---
 Db/dbutil.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 5716487..7c49f60 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -174,8 +174,11 @@ static void snprint_record(void *db, wg_int* rec, char *buf, int buflen) {
     snprintf(buf, buflen, "<null rec pointer>\n");
     return;
   }
-  if(buflen < 2)
+  if(buflen < 3) {
+    /* no room for any value, not even the brackets */
+    *buf = '\0';
     return;
+  }
 
   *buf++ = '[';
   buflen--;
-- 
2.43.0


From 0a80b5e75a7a052de2683b9a7d4c94af63b6d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:25 +0000
Subject: [PATCH 25/90] fix: a JSON file ending at a read buffer boundary was
 reported as stored but ignored

---
 Db/dbjson.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index b80c020..4d4fdfd 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -215,13 +215,14 @@ gint wg_parse_json_file(void *db, const char *filename) {
   yajl_config(hand, yajl_allow_comments, 1);
 
   while(!feof(f)) {
-    int rd = fread((void *) &buf[count], 1, WG_JSON_INPUT_CHUNK, f);
+    int rd = fread((void *) &buf[count], 1, bufsize - count, f);
     if(rd == 0) {
       if(!feof(f)) {
         show_json_error_byte(db, "Read error", count);
         result = -1;
+        goto done;
       }
-      goto done;
+      break; /* the input ended at a chunk boundary */
     }
     if(yajl_parse(hand, (unsigned char *) &buf[count], rd) != yajl_status_ok) {
       unsigned char *errtxt = yajl_get_error(hand, 1,
-- 
2.43.0


From ea4582210c958fe3f65cc8ce6f63ffc6824c2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:45 +0000
Subject: [PATCH 26/90] fix: documents with deeply nested objects could be
 stored but not deleted or found

---
 Db/dbschema.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index 58575d8..b2ad17e 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -49,6 +49,15 @@ extern "C" {
 
 /* ======== Data ========================= */
 
+/* Each level of nesting in a JSON document may take two records: the
+ * object and its key-value pair.
+ */
+#ifndef USE_BACKLINKING
+#define MAX_DOC_REC_DEPTH (2*99)
+#else
+#define MAX_DOC_REC_DEPTH (2*WG_COMPARE_REC_DEPTH)
+#endif
+
 /* ======= Private protos ================ */
 
 #ifdef USE_BACKLINKING
@@ -167,7 +176,7 @@ void *wg_find_document(void *db, void *rec) {
   show_schema_error(db, "Backlinks are required to find complete documents");
   return NULL;
 #else
-  return find_document_recursive(db, (gint *) rec, WG_COMPARE_REC_DEPTH-1);
+  return find_document_recursive(db, (gint *) rec, MAX_DOC_REC_DEPTH-1);
 #endif
 }
 
@@ -219,11 +228,7 @@ gint wg_delete_document(void *db, void *document) {
     return show_schema_error(db, "wg_delete_document: not a document");
   }
 #endif
-#ifndef USE_BACKLINKING
-  return delete_record_recursive(db, document, 99);
-#else
-  return delete_record_recursive(db, document, WG_COMPARE_REC_DEPTH);
-#endif
+  return delete_record_recursive(db, document, MAX_DOC_REC_DEPTH);
 }
 
 /*
-- 
2.43.0


From e6c9691a9bf8fd0ee46618f81c5a479db53b39f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:45 +0000
Subject: [PATCH 27/90] fix: integers that do not fit into an int were printed
 and exported wrong

---
 Db/dbutil.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 7c49f60..3c2b523 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -249,8 +249,7 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
         snprint_record(db, (wg_int*)ptrdata, buf+len, buflen-len);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%td", wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -357,8 +356,7 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       snprintf(buf, buflen, "\"<record offset %d>\"", intdata);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%td", wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
-- 
2.43.0


From 02bfd290a6d35abca39896ea9c728fca562a9eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:45 +0000
Subject: [PATCH 28/90] fix: large doubles were cut off when a JSON document
 was printed

---
 Db/dbjson.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 4d4fdfd..bfbc1e7 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -847,8 +847,8 @@ static int pretty_print_jsonval(void *db, yajl_gen *g, gint enc)
   } else {
     /* other literal value */
     size_t len;
-    char buf[80];
-    wg_snprint_value(db, enc, buf, 79);
+    char buf[400]; /* the largest double takes 317 characters */
+    wg_snprint_value(db, enc, buf, 399);
     len = strlen(buf);
     if(type == WG_INTTYPE || type == WG_DOUBLETYPE ||\
       type == WG_FIXPOINTTYPE) {
-- 
2.43.0


From 39edc7da2610a994a34ee92fa7d7c4ddabf9ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:09 +0000
Subject: [PATCH 29/90] fix: JSON keys longer than 79 bytes were stored cut off

---
 Db/dbjson.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index bfbc1e7..3705b40 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -92,7 +92,7 @@ typedef struct {
   stack_entry_t type;
   stack_entry_elem *head;
   stack_entry_elem *tail;
-  char last_key[80];
+  char *last_key;
   int size;
 } stack_entry;
 
@@ -110,6 +110,7 @@ typedef struct {
 
 static int push(parser_context *ctx, stack_entry_t type);
 static int pop(parser_context *ctx);
+static void free_entry(stack_entry *e);
 static int add_elem(parser_context *ctx, gint enc);
 static int add_key(parser_context *ctx, char *key);
 static int add_literal(parser_context *ctx, gint val);
@@ -452,6 +453,7 @@ static int push(parser_context *ctx, stack_entry_t type)
   e->type = type;
   e->head = NULL;
   e->tail = NULL;
+  e->last_key = NULL;
   return 1;
 }
 
@@ -503,7 +505,21 @@ static int pop(parser_context *ctx)
     ret = 0;
   }
 
-  /* free the elements */
+  free_entry(e);
+
+  /* is it an element of something? */
+  if(!istoplevel && rec && ret) {
+    gint enc = wg_encode_record(ctx->db, rec);
+    ret = add_literal(ctx, enc);
+  }
+  return ret;
+}
+
+/**
+ * Free the elements and the key of a stack entry.
+ */
+static void free_entry(stack_entry *e)
+{
   while(e->head) {
     stack_entry_elem *tmp = e->head;
     e->head = e->head->next;
@@ -511,13 +527,10 @@ static int pop(parser_context *ctx)
   }
   e->tail = NULL;
   e->size = 0;
-
-  /* is it an element of something? */
-  if(!istoplevel && rec && ret) {
-    gint enc = wg_encode_record(ctx->db, rec);
-    ret = add_literal(ctx, enc);
+  if(e->last_key) {
+    free(e->last_key);
+    e->last_key = NULL;
   }
-  return ret;
 }
 
 /**
@@ -549,7 +562,8 @@ static int add_elem(parser_context *ctx, gint enc)
 }
 
 /**
- * Store a key in the current stack entry.
+ * Store a key in the current stack entry. If successful, the entry
+ * owns the (malloc-ed) key.
  */
 static int add_key(parser_context *ctx, char *key)
 {
@@ -559,8 +573,9 @@ static int add_key(parser_context *ctx, char *key)
     return 0; /* paranoia */
 
   e = &ctx->stack[ctx->stack_ptr];
-  strncpy(e->last_key, key, 80);
-  e->last_key[79] = '\0';
+  if(e->last_key)
+    free(e->last_key);
+  e->last_key = key;
   return 1;
 }
 
@@ -682,11 +697,11 @@ static int object_key_cb(void* cb_ctx, const unsigned char * strval,
   buf[strl] = '\0';
 
   if(!add_key(ctx, buf)) {
+    free(buf);
     res = 0;
   }
 /*  OUT_INDENT(ctx->stack_ptr+1, i, stdout)
   printf("KEY: %s\n", buf);*/
-  free(buf);
   return res;
 }
 
-- 
2.43.0


From 48ef0da45c19d8f0afdb8c9bac2b853d0030a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:10 +0000
Subject: [PATCH 30/90] fix: parsing an invalid JSON document leaked the
 elements read so far

---
 Db/dbjson.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 3705b40..ef9d417 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -419,6 +419,12 @@ static gint run_json_parser(void *db, const char *buf,
   }
 
 done:
+  /* after an error, some entries may remain */
+  if(ctx.stack_ptr >= MAX_DEPTH)
+    ctx.stack_ptr = MAX_DEPTH - 1;
+  while(ctx.stack_ptr >= 0) {
+    free_entry(&ctx.stack[ctx.stack_ptr--]);
+  }
   if(hand) yajl_free(hand);
   return result;
 }
-- 
2.43.0


From 7b1129516497f53fee89fa9a33f76fafedef83a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:10 +0000
Subject: [PATCH 31/90] fix: JSON strings with \u0000 were stored cut off at
 that character

---
 Db/dbjson.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index ef9d417..7f65597 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -696,7 +696,10 @@ static int object_key_cb(void* cb_ctx, const unsigned char * strval,
 /*  int i;*/
   int res = 1;
   parser_context *ctx = (parser_context *) cb_ctx;
-  char *buf = malloc(strl + 1);
+  char *buf;
+  if(memchr(strval, 0, strl))
+    return 0; /* strings in the database cannot contain zero bytes */
+  buf = malloc(strl + 1);
   if(!buf)
     return 0;
   strncpy(buf, (char *) strval, strl);
@@ -718,7 +721,10 @@ static int elem_string_cb(void* cb_ctx, const unsigned char * strval,
   int res = 1;
   gint val;
   parser_context *ctx = (parser_context *) cb_ctx;
-  char *buf = malloc(strl + 1);
+  char *buf;
+  if(memchr(strval, 0, strl))
+    return 0; /* strings in the database cannot contain zero bytes */
+  buf = malloc(strl + 1);
   if(!buf)
     return 0;
   strncpy(buf, (char *) strval, strl);
-- 
2.43.0


From 1b7b4823069395d0a6985504e22cfc1e94dae215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:10 +0000
Subject: [PATCH 32/90] fix: null values in JSON documents were silently
 dropped

---
 Db/dbjson.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/Db/dbjson.c b/Db/dbjson.c
index 7f65597..1af72cd 100644
--- a/Db/dbjson.c
+++ b/Db/dbjson.c
@@ -123,6 +123,7 @@ static int array_begin_cb(void* cb_ctx);
 static int array_end_cb(void* cb_ctx);
 static int object_begin_cb(void* cb_ctx);
 static int object_end_cb(void* cb_ctx);
+static int elem_null_cb(void* cb_ctx);
 static int elem_integer_cb(void* cb_ctx, long long intval);
 static int elem_double_cb(void* cb_ctx, double doubleval);
 static int object_key_cb(void* cb_ctx, const unsigned char * strval,
@@ -154,7 +155,7 @@ yajl_callbacks validate_cb = {
 };
 
 yajl_callbacks input_cb = {
-    NULL,
+    elem_null_cb,
     NULL,
     elem_integer_cb,
     elem_double_cb,
@@ -660,6 +661,12 @@ static int object_end_cb(void* cb_ctx)
   return 1;
 }
 
+static int elem_null_cb(void* cb_ctx)
+{
+  parser_context *ctx = (parser_context *) cb_ctx;
+  return add_literal(ctx, wg_encode_null(ctx->db, 0));
+}
+
 static int elem_integer_cb(void* cb_ctx, long long intval)
 {
 /*  int i;*/
@@ -871,6 +878,10 @@ static int pretty_print_jsonval(void *db, yajl_gen *g, gint enc)
         return show_json_error(db, "Formatter failure");
       }
     }
+  } else if(type == WG_NULLTYPE) {
+    if(yajl_gen_null(*g) != yajl_gen_status_ok) {
+      return show_json_error(db, "Formatter failure");
+    }
   } else {
     /* other literal value */
     size_t len;
-- 
2.43.0


From b4be042979198d288975cc12be604853b817a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:12 +0000
Subject: [PATCH 33/90] fix: the key-value pairs of JSON parameters became data
 when a journal was replayed

---
 Db/dbschema.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Db/dbschema.c b/Db/dbschema.c
index b2ad17e..862bde4 100644
--- a/Db/dbschema.c
+++ b/Db/dbschema.c
@@ -77,11 +77,18 @@ static gint show_schema_error(void *db, char *errmsg);
  */
 void *wg_create_triple(void *db, gint subj, gint prop, gint ob, gint isparam) {
   void *rec = wg_create_raw_record(db, WG_SCHEMA_TRIPLE_SIZE);
-  gint *meta;
+  gint *metap, meta;
   if(rec) {
-    meta = ((gint *) rec + RECORD_META_POS);
+    metap = ((gint *) rec + RECORD_META_POS);
     if(isparam) {
-      *meta |= (RECORD_META_NOTDATA|RECORD_META_MATCH);
+      meta = *metap | (RECORD_META_NOTDATA|RECORD_META_MATCH);
+#ifdef USE_DBLOG
+      if(dbmemsegh(db)->logging.active) {
+        if(wg_log_set_meta(db, rec, meta))
+          return NULL;
+      }
+#endif
+      *metap = meta;
     } else if(wg_index_add_rec(db, rec) < -1) {
       return NULL; /* index error */
     }
-- 
2.43.0


From e82b926c819e778f03af70b7d9a3e8a85a5aa2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:09 +0000
Subject: [PATCH 34/90] fix: an unfinished token after a JSON document was
 accepted and silently ignored

---
 json/yajl_all.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/json/yajl_all.c b/json/yajl_all.c
index d7b3a56..ec39781 100644
--- a/json/yajl_all.c
+++ b/json/yajl_all.c
@@ -1695,6 +1695,20 @@ yajl_do_finish(yajl_handle hand)
             return yajl_status_error;
         case yajl_state_got_value:
         case yajl_state_parse_complete:
+            /* a token that was started after the value but not finished
+             * (a comment to the end of the line needs no newline) */
+            if (!(hand->flags & yajl_allow_trailing_garbage) &&
+                hand->lexer->bufInUse)
+            {
+                const unsigned char * rest = yajl_buf_data(hand->lexer->buf);
+                size_t len = yajl_buf_len(hand->lexer->buf);
+                if (len > 0 && (len < 2 || rest[0] != '/' || rest[1] != '/'))
+                {
+                    yajl_bs_set(hand->stateStack, yajl_state_parse_error);
+                    hand->parseError = "trailing garbage";
+                    return yajl_status_error;
+                }
+            }
             return yajl_status_ok;
         default:
             if (!(hand->flags & yajl_allow_partial_values))
-- 
2.43.0


From a7f35a72e79f1ad414c074cf5196a63da5e46a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:23 +0000
Subject: [PATCH 35/90] fix: CSV export of URIs without a prefix and of
 separator characters

---
 Db/dbutil.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 3c2b523..1cd11db 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -344,7 +344,7 @@ static void csv_escaped_str(void *db, char *iptr, char *buf, int buflen) {
 static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
   int intdata, ilen;
   double doubledata;
-  char strbuf[80], *ibuf;
+  char strbuf[80], *ibuf, *prefix;
 
   buflen--; /* snprintf adds '\0' */
   switch(wg_get_encoded_type(db, enc)) {
@@ -376,21 +376,26 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       /* More efficient solutions are possible, but here we simply allocate
        * enough storage to concatenate the URI before encoding it for CSV.
        */
+      prefix = wg_decode_uri_prefix(db, enc);
       ilen = wg_decode_uri_len(db, enc);
-      ilen += wg_decode_uri_prefix_len(db, enc);
+      if(prefix)
+        ilen += strlen(prefix);
       ibuf = (char *) malloc(ilen + 1);
       if(!ibuf) {
         show_io_error(db, "Failed to allocate memory");
+        buf[0] = '\0'; /* do not repeat the previous field */
         return;
       }
       snprintf(ibuf, ilen+1, "%s%s",
-        wg_decode_uri_prefix(db, enc), wg_decode_uri(db, enc));
+        (prefix ? prefix : ""), wg_decode_uri(db, enc));
       csv_escaped_str(db, ibuf, buf, buflen);
       free(ibuf);
       break;
     case WG_CHARTYPE:
+      /* quoted, as it may be a separator, quote or newline */
       intdata = wg_decode_char(db, enc);
-      snprintf(buf, buflen, "%c", (char) intdata);
+      snprintf(strbuf, 80, "%c", (char) intdata);
+      csv_escaped_str(db, strbuf, buf, buflen);
       break;
     case WG_DATETYPE:
       intdata = wg_decode_date(db, enc);
-- 
2.43.0


From 15199ba254c26ffa6a40efef08de4282000b8a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:24 +0000
Subject: [PATCH 36/90] fix: parsing a number depended on an old errno and cut
 off long input

---
 Db/dbutil.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 1cd11db..e710583 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -592,7 +592,7 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
        * and int, then convert using atol()/atof(). sscanf() tends to
        * be too optimistic about the conversion, especially under Win32.
        */
-      char numbuf[80];
+      char numbuf[400]; /* holds any double printed with %f */
       const char *ptr = buf;
       char *wptr = numbuf, *decptr = NULL;
       int decsep = 0;
@@ -609,14 +609,17 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
           break;
         }
         *(wptr++) = *(ptr++);
-        if((int) (wptr - numbuf) >= 79)
+        if((int) (wptr - numbuf) >= 399 && *ptr) {
+          decsep = 2; /* Too long for a number */
           break;
+        }
       }
       *wptr = '\0';
 
       if(decsep==1) {
         char tmp = *decptr;
         *decptr = '.'; /* ignore locale, force conversion by plain atof() */
+        errno = 0;
         *doubledata = atof(numbuf);
         if(errno!=ERANGE && errno!=EINVAL) {
           type = WG_DOUBLETYPE;
@@ -625,6 +628,7 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
         }
         *decptr = tmp; /* conversion might have failed, restore string */
       } else if(!decsep) {
+        errno = 0;
         *intdata = atol(numbuf);
         if(errno!=ERANGE && errno!=EINVAL) {
           type = WG_INTTYPE;
-- 
2.43.0


From 74f265e68b64960255077388b9a5a7ed4a4bc810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 37/90] fix: text that only begins like a date or time was
 parsed as one, dropping the rest

---
 Db/dbutil.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index e710583..4ee7f97 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -583,9 +583,16 @@ static gint parse_input_type(void *db, const char *buf, gint *intdata,
   else if((c >= '0' && c <= '9') ||\
    (c == '-' && buf[1] >= '0' && buf[1] <= '9')) {
     /* This could be one of int, double, date or time */
-    if(c != '-' && (*datetime = wg_strp_iso_date(db, buf)) >= 0) {
+    int dend = 0, tend = 0, fend = 0; /* where a date or time would end */
+    sscanf(buf, "%*4d-%*2d-%*2d%n", &dend);
+    sscanf(buf, "%*2d:%*2d:%*2d%n.%*2d%n", &tend, &fend);
+    if(fend > tend)
+      tend = fend + strspn(buf + fend, "0123456789");
+    if(c != '-' && dend > 0 && buf[dend] == 0 &&
+      (*datetime = wg_strp_iso_date(db, buf)) >= 0) {
       type = WG_DATETYPE;
-    } else if(c != '-' && (*datetime = wg_strp_iso_time(db, buf)) >= 0) {
+    } else if(c != '-' && tend > 0 && buf[tend] == 0 &&
+      (*datetime = wg_strp_iso_time(db, buf)) >= 0) {
       type = WG_TIMETYPE;
     } else {
       /* Examine the field contents to distinguish between float
-- 
2.43.0


From cb8366efc04aba75047a38f0c92bcee189424fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 38/90] fix: CSV import never ended after a read error and lost
 a last line without a newline

---
 Db/dbutil.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 4ee7f97..8a746ac 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -723,7 +723,7 @@ static gint fread_csv(void *db, FILE *f) {
   gint err = 0;
   gint uq_field, quoted_field, esc_quote, eat_sep; /** State flags */
   gint commit_strbuf, commit_record;
-  gint reclen;
+  gint reclen, at_end = 0;
   gint encdata_sz = CSV_ENCDATA_BUF;
 
   strbuf = (char *) malloc(CSV_FIELD_BUF);
@@ -745,7 +745,7 @@ static gint fread_csv(void *db, FILE *f) {
   commit_strbuf = commit_record = 0;
   ptr = strbuf;
 
-  while(!feof(f)) {
+  while(!at_end) {
     /* Parse cycle consists:
      * 1. read character from stream. This can either:
      *   - change the state of the parser
@@ -756,15 +756,38 @@ static gint fread_csv(void *db, FILE *f) {
      *   - store the record in the database
      */
 
-    char c = (char) fgetc(f);
+    int nextc = fgetc(f);
+    char c = (char) nextc;
+
+    if(nextc == EOF) {
+      if(ferror(f)) {
+        err = -1;
+        show_io_error(db, "Failed to read the file");
+        break;
+      }
+      if(quoted_field) {
+        err = -1;
+        show_io_error(db, "Quoted field is not terminated");
+        break;
+      }
+      /* The last line does not need to end with a newline. */
+      at_end = 1;
+      c = 10;
+    }
 
     if(quoted_field) {
       /* We're parsing a quoted field. Anything we get is added to
        * strbuf unless it's a quote character.
        */
       if(!esc_quote && c == '"') {
-        char nextc = (char) fgetc(f);
-        ungetc((int) nextc, f);
+        nextc = fgetc(f);
+        if(nextc != EOF) {
+          ungetc(nextc, f);
+        } else if(ferror(f)) {
+          err = -1;
+          show_io_error(db, "Failed to read the file");
+          break;
+        }
 
         if(nextc!='"') {
           /* Field ends. Note that even EOF is acceptable here */
-- 
2.43.0


From 28925d90cde0e403b1cca1a1731dc61a9f84d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:23 +0000
Subject: [PATCH 39/90] fix: CSV import hid values it could not store and
 leaked the values of failed records

---
 Db/dbutil.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 8a746ac..88a7352 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -761,12 +761,12 @@ static gint fread_csv(void *db, FILE *f) {
 
     if(nextc == EOF) {
       if(ferror(f)) {
-        err = -1;
+        if(!err) err = -1;
         show_io_error(db, "Failed to read the file");
         break;
       }
       if(quoted_field) {
-        err = -1;
+        if(!err) err = -1;
         show_io_error(db, "Quoted field is not terminated");
         break;
       }
@@ -784,7 +784,7 @@ static gint fread_csv(void *db, FILE *f) {
         if(nextc != EOF) {
           ungetc(nextc, f);
         } else if(ferror(f)) {
-          err = -1;
+          if(!err) err = -1;
           show_io_error(db, "Failed to read the file");
           break;
         }
@@ -894,6 +894,7 @@ static gint fread_csv(void *db, FILE *f) {
       enc = wg_parse_and_encode(db, strbuf);
       if(enc == WG_ILLEGAL) {
         show_io_error_str(db, "Warning: failed to parse", strbuf);
+        err = -2; /* the value is lost */
         enc = 0; /* continue anyway */
       }
       encdata[reclen++] = enc;
@@ -921,12 +922,21 @@ static gint fread_csv(void *db, FILE *f) {
           break;
         }
       }
+      for(; i<reclen; i++) {
+        /* free the values that were not stored */
+        if(wg_get_field(db, rec, i) != encdata[i])
+          wg_free_encoded(db, encdata[i]);
+      }
 
       /* Reset record data */
       reclen = 0;
     }
   }
 
+  /* A record that was not completed is not stored */
+  while(reclen > 0)
+    wg_free_encoded(db, encdata[--reclen]);
+
   free(encdata);
   free(strbuf);
   return err;
-- 
2.43.0


From 20b57fb42b4744a42caf673aa8f985c5d2963f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:32 +0000
Subject: [PATCH 40/90] fix: registering too many external databases reported
 success

---
 Db/dballoc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 2e9bf9b..1944f78 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1418,6 +1418,7 @@ gint wg_register_external_db(void *db, void *extdb) {
   }
   if(dbh->extdbs.count >= MAX_EXTDB) {
     show_dballoc_error(db, "cannot register external database");
+    return -1;
   } else {
     dbh->extdbs.offset[dbh->extdbs.count] = ptrtooffset(db, dbmemsegh(extdb));
     dbh->extdbs.size[dbh->extdbs.count++] = \
-- 
2.43.0


From b733fa77fb9e1dcad9b3f444a495dcea3629e533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:32 +0000
Subject: [PATCH 41/90] fix: language, prefix or type of external values was
 decoded relative to the wrong database

---
 Db/dbdata.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index b220959..15495a9 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -2717,6 +2717,14 @@ char* wg_decode_unistr_lang(void* db, gint data, gint type) {
     fldptr=((gint*)objptr)+LONGSTR_EXTRASTR_POS;
     fldval=*fldptr;
     if (fldval==0) return NULL;
+#ifdef USE_CHILD_DB
+    {
+      /* the extra string is encoded relative to the owner of the data */
+      void *owner = get_ptr_owner(db, data);
+      if(owner && owner != dbmemseg(db))
+        fldval = wg_translate_hdroffset(db, owner, fldval);
+    }
+#endif
     res=wg_decode_unistr(db,fldval,type);
     return res;
   }
-- 
2.43.0


From da1143983d6076b7a038107256561ceba2bf5036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:53 +0000
Subject: [PATCH 42/90] fix: dserve used uninitialised thread data and
 configuration lists

---
 Server/dserve.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index aa5ee37..6253395 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -370,9 +370,9 @@ static void setup_globals(void) {
   int i;
   
   // set up global data
-  globalptr=malloc(sizeof(struct dserve_global));
+  globalptr=calloc(1,sizeof(struct dserve_global));
   if (globalptr==NULL) {errprint(CANNOT_ALLOC_ERR,NULL); exit(-1);}
-  globalptr->conf=malloc(sizeof(struct dserve_conf));
+  globalptr->conf=calloc(1,sizeof(struct dserve_conf));
   if (globalptr->conf==NULL) {errprint(CANNOT_ALLOC_ERR,NULL); exit(-1);}
   globalptr->maxthreads=MAX_THREADS;
   for(i=0;i<globalptr->maxthreads;i++) {
-- 
2.43.0


From 292e060e5d1f9831a7c8aab2298bccd9022ba57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:51 +0000
Subject: [PATCH 43/90] fix: dserve kept the request line, query and result of
 the previous connection

---
 Server/dserve_net.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index 8424ac2..3cd2c54 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -422,6 +422,9 @@ void *handle_http(void *targ) {
 #endif
 #endif
     }
+    // nothing is left over from the previous connection
+    uri=NULL; version=NULL; query=NULL; res=NULL; len=0;
+    tdata->inbuf=NULL;
     // who is calling?
     alen = sizeof addr;
     getpeername(connsd, (struct sockaddr*)&addr, &alen);
@@ -454,7 +457,7 @@ void *handle_http(void *targ) {
 #endif
       // accepted connection: read and process
       // read and parse request line
-      readlineb(connsd,buf,MAXLINE,ssl);
+      if (readlineb(connsd,buf,MAXLINE,ssl)<=0) buf[0]='\0'; // nothing was read
       method=buf;
       for(i=0,bp=buf; *bp!='\0' && i<2; bp++) {
         if (*bp==' ') {
-- 
2.43.0


From d8bbdef68045d71ada8d6cb718457b723397be36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:51 +0000
Subject: [PATCH 44/90] fix: dserve dropped connections without closing them
 when the queue was full

---
 Server/dserve_net.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index 3cd2c54..e43a330 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -183,12 +183,19 @@ int run_server(int port, dserve_global_p globalptr) {
       // now we have a connection: add to queue
       next=common->tail+1;
       next=(next==common->queue_size) ? 0 : next;
-      do {
-        if(common->count==common->queue_size) { // full?
-          //fprintf(stderr, "queue full\n");
-          nanosleep(&tim , &tim2);
-          break; //continue;
+      while(common->count==common->queue_size && !common->shutdown) { // full?
+        // let the threads take something from the queue
+        if(pthread_mutex_unlock(&(common->mutex)) != 0) {
+          errprint(THREADPOOL_UNLOCK_ERR,NULL);
+          exit(ERR_EX_UNAVAILABLE);
+        }
+        nanosleep(&tim , &tim2);
+        if(pthread_mutex_lock(&(common->mutex)) != 0) {
+          errprint(THREADPOOL_LOCK_ERR,NULL);
+          exit(ERR_EX_UNAVAILABLE);
         }
+      }
+      do {
         if(common->shutdown) { 
           warnprint(SHUTDOWN_WARN,NULL);
           break;
-- 
2.43.0


From 822276ddc4494776e00da0e1a19342e79fe945bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:51 +0000
Subject: [PATCH 45/90] fix: dserve authorized a caller of unknown address by
 the address of an earlier one

---
 Server/dserve_net.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index e43a330..6d529f6 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -434,8 +434,11 @@ void *handle_http(void *targ) {
     tdata->inbuf=NULL;
     // who is calling?
     alen = sizeof addr;
-    getpeername(connsd, (struct sockaddr*)&addr, &alen);
-    if (addr.ss_family == AF_INET) {
+    ipstr[0]='\0'; // matches no address in the configuration
+    port=0;
+    if (getpeername(connsd, (struct sockaddr*)&addr, &alen)<0) {
+      // unknown caller
+    } else if (addr.ss_family == AF_INET) {
       s4 = (struct sockaddr_in *)&addr;
       port = ntohs(s4->sin_port);
 #if _MSC_VER
-- 
2.43.0


From 4a18a3944fddbd2fa8660af1c87136817d3e6750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:51 +0000
Subject: [PATCH 46/90] fix: dserve read past the end of posted data and did
 not free it when it was empty

---
 Server/dserve_net.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index 6d529f6..b9754ca 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -524,6 +524,8 @@ void *handle_http(void *targ) {
         }
       }
       //printf("res: %s\n",res);
+      // free posted data which was not processed
+      if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
       // make header
       if (res==NULL) len=0;
       else len=strlen(res);
@@ -646,7 +648,7 @@ static char* get_post_data(int connsd,char* buf,void* ssl,thread_data_p tdata) {
   // start reading line by line until empty line is hit
   for(j=0;j<MAXLINES;j++) {
     k=readlineb(connsd,bufp,MAXLINE,ssl);
-    if (k<0) { warnprint(READING_FAILED_WARN,NULL); return NULL; }
+    if (k<=0) { warnprint(READING_FAILED_WARN,NULL); return NULL; }
     //printf("line %d:%s",j,bufp);
     // content length handling
     chk=strncmp(bufp,"Content-Length:",clenlen);
@@ -690,6 +692,7 @@ static char* get_post_data(int connsd,char* buf,void* ssl,thread_data_p tdata) {
     warnprint(READING_FAILED_WARN,NULL);
     return NULL;
   }
+  buffer[len]='\0';
   tdata->inbuf=buffer;
   tdata->intype=type;
   //printf("query:\n%s\n",buffer);
-- 
2.43.0


From 9307b91bc5348482f469debd375bb4a45c2e2b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 47/90] fix: dserve did not free the output buffer when
 creating or dropping a database failed

---
 Server/dserve.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 6253395..0de3983 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -1012,7 +1012,7 @@ static char* create(thread_data_p tdata, char* inparams[], char* invalues[], int
   //db=wg_attach_existing_database(database);
   //if (db!=NULL) return errhalt(DB_EXISTS_ALREADY_ERR,tdata);      
   db=op_create_database(tdata,database,size);
-  if (db==NULL) return errhalt(DB_CREATE_ERR,tdata); 
+  if (db==NULL) return err_clear_detach_halt(DB_CREATE_ERR,tdata); 
   tdata->db=db;
   // created successfully 
   if(!str_guarantee_space(tdata,MIN_STRLEN)) 
@@ -1070,12 +1070,12 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
         break;
       }
     }
-    if (!found) return errhalt(DB_AUTHORIZE_ERR,tdata);
+    if (!found) return err_clear_detach_halt(DB_AUTHORIZE_ERR,tdata);
   }
   // first try to attach to an existing database 
   db=op_attach_database(tdata,database,ADMIN_LEVEL);
   if (db==NULL) {
-    return errhalt(DB_NOT_EXISTS_ERR,tdata);
+    return err_clear_detach_halt(DB_NOT_EXISTS_ERR,tdata);
   } else {  
     // database exists, take lock
     if (tdata->realthread && tdata->common->shutdown) return NULL; // for multithreading only
-- 
2.43.0


From c01a78c481bbbe625184b591280a9c29c7501008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 48/90] fix: dserve left a database locked for ever when
 dropping it failed

---
 Server/dserve.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 0de3983..2ec1128 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -1034,7 +1034,7 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
   int i,tmp;
   void* db=NULL; // actual database pointer
   char *res;
-  int lock_id=0;
+  wg_int lock_id=0;
   int found=0;
   char errbuf[ERRBUF_LEN];  
   
@@ -1084,14 +1084,14 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
     tdata->lock_id=lock_id;
     tdata->lock_type=WRITE_LOCK_TYPE;
     if (!lock_id) return err_clear_detach_halt(LOCK_ERR,tdata); 
-    tmp=wg_detach_database(db); // detaches a database: returns 0 if OK
-    if (tmp) return err_clear_detach_halt(DB_DROP_ERR,tdata);
+    // mark for deletion first: the memory goes away after the last detach
     tmp=wg_delete_database(database);    
-    if (tmp) return errhalt(DB_DROP_ERR,tdata);
+    if (tmp) return err_clear_detach_halt(DB_DROP_ERR,tdata);
+    wg_end_write(db, lock_id); // others may still be attached
+    tdata->lock_id=0;
+    op_detach_database(tdata,db);
   }  
   // deleted successfully 
-  tdata->db=NULL;
-  tdata->lock_id=0;
   if(!str_guarantee_space(tdata,MIN_STRLEN)) 
       return err_clear_detach_halt(MALLOC_ERR,tdata);
   strcpy(tdata->bufptr,"1");
-- 
2.43.0


From 3da7d3e39c70243212ed83679ba1f0dfefc30568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 49/90] fix: dserve stayed attached when no output buffer could
 be allocated for a search

---
 Server/dserve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 2ec1128..4f106d9 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -663,7 +663,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   // database attached OK
   // create output string buffer (may be reallocated later)  
   tdata->buf=str_new(INITIAL_MALLOC);
-  if (tdata->buf==NULL) return errhalt(MALLOC_ERR,tdata);
+  if (tdata->buf==NULL) return err_clear_detach_halt(MALLOC_ERR,tdata);
   tdata->bufsize=INITIAL_MALLOC;
   tdata->bufptr=tdata->buf; 
   // check printing depth
-- 
2.43.0


From f1c793acdadc6f32081aded579de798e26af9e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 50/90] fix: dserve deleted records while it only had the read
 lock

---
 Server/dserve.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 4f106d9..5fbfb98 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -677,9 +677,14 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   handlecount=0; // actual nr of records handled
   // get lock
   if (tdata->realthread && tdata->common->shutdown) return NULL; // for multithreading only
-  lock_id = wg_start_read(db); // get read lock
+  if (opcode==DELETE_CODE || opcode==UPDATE_CODE) {
+    lock_id = wg_start_write(db); // get write lock
+    tdata->lock_type=WRITE_LOCK_TYPE;
+  } else {
+    lock_id = wg_start_read(db); // get read lock
+    tdata->lock_type=READ_LOCK_TYPE;
+  }
   tdata->lock_id=lock_id;
-  tdata->lock_type=READ_LOCK_TYPE;
   if (!lock_id) return err_clear_detach_halt(LOCK_ERR,tdata);
   // handle one of the cases
   if (searchtype==0) {
@@ -803,7 +808,9 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     tdata->bufptr+=itmp;
   }
   // release locks and detach
-  if (!wg_end_read(db, lock_id)) {  // release read lock
+  if (opcode==DELETE_CODE || opcode==UPDATE_CODE) itmp=wg_end_write(db, lock_id);
+  else itmp=wg_end_read(db, lock_id);
+  if (!itmp) {  // release lock
     return err_clear_detach_halt(LOCK_RELEASE_ERR,tdata);
   }
   tdata->lock_id=0;
-- 
2.43.0


From 26cd021fac0859bfe96fe29794b69b54585c3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 51/90] fix: dserve ignored count=0 when searching by field

---
 Server/dserve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 5fbfb98..c935f23 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -779,6 +779,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     while((rec = wg_fetch(db, wgquery))) {
       if (rcount>=from) {
         gcount++;                           
+        if (gcount>count) break;
         if (opcode==COUNT_CODE) handlecount++;
         else if (opcode==SEARCH_CODE) {
           itmp=op_print_record(tdata,rec,gcount);
@@ -793,7 +794,6 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
         }
       }  
       rcount++;
-      if (gcount>=count) break;    
     }   
     // free query datastructure, 
     for(i=0;i<fcount;i++) wg_free_query_param(db, wgargs[i].value);
-- 
2.43.0


From 8d746684dd67ecbd3684eea6a3b829b95e329316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 52/90] fix: dserve used an uninitialised counter for set
 fields

---
 Server/dserve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index c935f23..4a998c6 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -568,7 +568,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
   char* sfields[MAXPARAMS]; // set / selected fields
   char* svalues[MAXPARAMS]; // set field values
   char* stypes[MAXPARAMS];  // set field types  
-  int sfcount; // array el counters for above              
+  int sfcount=0; // array el counters for above              
   int from=0;             
   unsigned long count,rcount,gcount,handlecount;
   void* db=NULL; // actual database pointer
-- 
2.43.0


From b9fed4a36fbc7e6c244ff77b0020a00a3f086e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 53/90] fix: dserve did not free the query and its parameters
 when a search failed

---
 Server/dserve.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 4a998c6..b9554fb 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -550,6 +550,18 @@ void print_final(char* str, thread_data_p tdata) {
 /* ============== operations: query parsing and handling ===================== */
 
 
+/* error in a search by fields: frees the n encoded parameters and 
+   the query, if already made, before the normal error processing */
+
+static char* search_halt(char* errstr, thread_data_p tdata, wg_query_arg* wgargs,
+                         int n, wg_query* wgquery) {
+  int i;
+
+  for(i=0;i<n;i++) wg_free_query_param(tdata->db, wgargs[i].value);
+  if (wgquery!=NULL) wg_free_query(tdata->db,wgquery);
+  return err_clear_detach_halt(errstr,tdata);
+}
+
 /* search from the database, combined with update and delete */  
   
 static char* search(thread_data_p tdata, char* inparams[], char* invalues[], 
@@ -754,25 +766,25 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     // create a query list datastructure    
     for(i=0;i<fcount;i++) {   
       // field num    
-      if (!isint(fields[i])) return err_clear_detach_halt(NO_FIELD_ERR,tdata);
+      if (!isint(fields[i])) return search_halt(NO_FIELD_ERR,tdata,wgargs,i,NULL);
       itmp=atoi(fields[i]);
-      if(itmp<0) return err_clear_detach_halt(NO_FIELD_ERR,tdata);
+      if(itmp<0) return search_halt(NO_FIELD_ERR,tdata,wgargs,i,NULL);
       // column to compare
       wgargs[i].column = itmp;    
       // comparison op: default equal
       wgargs[i].cond = encode_incomp(db,compares[i]);
-      if (wgargs[i].cond==BAD_WG_VALUE) return err_clear_detach_halt(COND_ERR,tdata);    
+      if (wgargs[i].cond==BAD_WG_VALUE) return search_halt(COND_ERR,tdata,wgargs,i,NULL);    
       // valuetype: default guess from value later
       type=encode_intype(db,types[i]); 
-      if (type==BAD_WG_VALUE) return err_clear_detach_halt(INTYPE_ERR,tdata);
+      if (type==BAD_WG_VALUE) return search_halt(INTYPE_ERR,tdata,wgargs,i,NULL);
       // encode value to compare with   
       wgargs[i].value =  encode_invalue(db,values[i],type);        
-      if (wgargs[i].value==WG_ILLEGAL) return err_clear_detach_halt(INTYPE_ERR,tdata);
+      if (wgargs[i].value==WG_ILLEGAL) return search_halt(INTYPE_ERR,tdata,wgargs,i,NULL);
     }   
     
     // make the query structure       
     wgquery = wg_make_query(db, NULL, 0, wgargs, i);
-    if (!wgquery) return err_clear_detach_halt(QUERY_ERR,tdata);
+    if (!wgquery) return search_halt(QUERY_ERR,tdata,wgargs,i,NULL);
     
     // actually perform the query           
     if (tdata->maxdepth>MAX_DEPTH_HARD) tdata->maxdepth=MAX_DEPTH_HARD;
@@ -783,7 +795,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
         if (opcode==COUNT_CODE) handlecount++;
         else if (opcode==SEARCH_CODE) {
           itmp=op_print_record(tdata,rec,gcount);
-          if (!itmp) return err_clear_detach_halt(MALLOC_ERR,tdata);
+          if (!itmp) return search_halt(MALLOC_ERR,tdata,wgargs,fcount,wgquery);
         } else if (opcode==UPDATE_CODE) {
           itmp=op_update_record(tdata,db,rec,0,0);
           if (!itmp) handlecount++;          
-- 
2.43.0


From 1afe26ff589d90004aaf777c2bc0b4c164cccbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:23 +0000
Subject: [PATCH 54/90] fix: dserve answered CSV searches without rows with
 uninitialised memory

---
 Server/dserve_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 7839cae..8fa7047 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -601,6 +601,7 @@ char* str_new(int len) {
   res = (char*) malloc(len*sizeof(char));
   if (res==NULL) return NULL;  
   else {
+    res[0]='\0'; // nothing printed yet
     res[len-1]='\0';  
     return res;
   }
-- 
2.43.0


From e7b5dea4a41b11c7f89cebf146217d2a92eca4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:23 +0000
Subject: [PATCH 55/90] fix: dserve decoded lower case hexadecimal digits in
 queries wrong

---
 Server/dserve_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 8fa7047..83a8201 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -137,10 +137,10 @@ char* urldecode(char *indst, char *src) {
     if ((*src == '%') && (src+2<endptr) &&
         ((a = src[1]) && (b = src[2])) &&
         (isxdigit(a) && isxdigit(b))) {
-      if (a >= 'a') a -= 'A'-'a';
+      if (a >= 'a') a -= 'a'-'A';
       if (a >= 'A') a -= ('A' - 10);
       else a -= '0';
-      if (b >= 'a') b -= 'A'-'a';
+      if (b >= 'a') b -= 'a'-'A';
       if (b >= 'A') b -= ('A' - 10);
       else b -= '0';
       *dst++ = 16*a+b;
-- 
2.43.0


From db80410cb632a81f6fa3d0766d4137f2b9e88850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:23 +0000
Subject: [PATCH 56/90] fix: dserve wrote past the end of the output buffer and
 freed it twice

---
 Server/dserve_util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 83a8201..f7ec9da 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -629,8 +629,9 @@ int str_guarantee_space(thread_data_p tdata, int needed) {
 
   if (needed>(*strlenadr-(int)((*ptr)-(*stradr)))) {  
     used=(int)((*ptr)-(*stradr));
+    if (needed>MAX_MALLOC) return 0;
     newlen=(*strlenadr)*2;
-    if (newlen<needed) newlen=needed;
+    if (newlen<used+needed) newlen=used+needed;
     if (newlen>MAX_MALLOC) {
       //if (*stradr!=NULL) free(*stradr);
       //err_clear_detach_halt(MALLOC_ERR);
@@ -639,8 +640,7 @@ int str_guarantee_space(thread_data_p tdata, int needed) {
     //printf("needed %d oldlen %d used %d newlen %d \n",needed,*strlenadr,used,newlen);
     tmp=realloc(*stradr,newlen);
     if (tmp==NULL) {
-      if (*stradr!=NULL) free(*stradr);
-      //err_clear_detach_halt(MALLOC_ERR);
+      // the old buffer is freed by the caller in err_clear_detach_halt
       return 0;
     }     
     tmp[newlen-1]=0;   // set last byte to 0  
-- 
2.43.0


From 10a0b334456ecca8cc26265bf9887256d45fc257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:23 +0000
Subject: [PATCH 57/90] fix: dserve wrote past the output buffer for a long
 jsonp parameter

---
 Server/dserve.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index b9554fb..8895e00 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -1225,14 +1225,15 @@ static char* handle_fld_param(thread_data_p tdata,char* key,char* value,
 // return 1 if successful, 0 if fails
 
 static int op_print_data_start(thread_data_p tdata, int listflag) {
-  int itmp;
+  int itmp, limit=MIN_STRLEN;
   
-  if(!str_guarantee_space(tdata,MIN_STRLEN)) return 0;
+  if (tdata->jsonp!=NULL) limit+=strlen(tdata->jsonp);
+  if(!str_guarantee_space(tdata,limit)) return 0;
   if (tdata->format!=0) {
     // json
     if (tdata->jsonp!=NULL) {
-      if (listflag) itmp=snprintf(tdata->bufptr,MIN_STRLEN,"%s([\n",tdata->jsonp);
-      else itmp=snprintf(tdata->bufptr,MIN_STRLEN,"%s(",tdata->jsonp);
+      if (listflag) itmp=snprintf(tdata->bufptr,limit,"%s([\n",tdata->jsonp);
+      else itmp=snprintf(tdata->bufptr,limit,"%s(",tdata->jsonp);
       tdata->bufptr+=itmp;
     } else {
       if (listflag) { 
-- 
2.43.0


From 2c2741afd028af54dbc0a92813c3a72f273f0c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:23 +0000
Subject: [PATCH 58/90] fix: dserve used posted data in error messages after
 freeing it

---
 Server/dserve_util.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index f7ec9da..5d9031e 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -985,21 +985,24 @@ void errprint(char* fmt, char* param) {
 
 char* errhalt(char* str, thread_data_p tdata) {
   char buf[HTTP_ERR_BUFSIZE];
+  char *errstr;
   
   if (tdata==NULL) {
     errprint("tdata was NULL in errhalt\n",NULL);
     terminate();
   }
   if (tdata->isserver) {
+    errstr=make_http_errstr(str,tdata);
+    // the jsonp parameter is a part of the input buffer
     if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
-    return make_http_errstr(str,tdata);
+    return errstr;
   } else {
-    // freeing tdata->inbuf here is not really necessary
-    if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
     if (tdata->jsonp==NULL)
       snprintf(buf,HTTP_ERR_BUFSIZE,NORMAL_ERR_FORMAT,str);
     else
       snprintf(buf,HTTP_ERR_BUFSIZE,JSONP_ERR_FORMAT,tdata->jsonp,str); 
+    // freeing tdata->inbuf here is not really necessary
+    if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
     print_final(buf,tdata);
 #if _MSC_VER    
 #ifdef SERVEROPTION    
-- 
2.43.0


From 0f86c46d74f5088fe5934185e1aac2dd99c46306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:23 +0000
Subject: [PATCH 59/90] fix: dserve never printed nested records and could
 recurse without limit

---
 Server/dserve.c      | 2 +-
 Server/dserve_util.c | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 8895e00..e861872 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -424,7 +424,7 @@ char* process_query(char* inquery, thread_data_p tdata) {
   tdata->jsonp=NULL;
   tdata->format=1;
   tdata->showid=0;
-  tdata->depth=MAX_DEPTH_DEFAULT;
+  tdata->depth=0; // increases while printing nested records
   tdata->maxdepth=MAX_DEPTH_DEFAULT;
   tdata->strenc=2;
   tdata->buf=NULL;
diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 5d9031e..50d1024 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -306,7 +306,7 @@ int sprint_record(void *db, wg_int *rec, thread_data_p tdata) {
 
 char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
   wg_int *ptrdata;
-  int intdata,strl,strl1,strl2;
+  int i,intdata,strl,strl1,strl2;
   char *strdata, *exdata;
   double doubledata;
   char strbuf[80]; // tmp area for dates
@@ -331,7 +331,10 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
         // recursive print
         ptrdata = wg_decode_record(db, enc);
         if(ptrdata==0) return NULL;
-        sprint_record(db,ptrdata,tdata);
+        tdata->depth++;
+        i=sprint_record(db,ptrdata,tdata);
+        tdata->depth--;
+        if (!i) return NULL;
         **bptr='\0';                 
         return *bptr;
       }      
-- 
2.43.0


From 24faecd9f8bd2e003668f2583f586ee92d81cbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:24 +0000
Subject: [PATCH 60/90] fix: dserve printed integers, languages, prefixes,
 types, characters and blobs wrong

---
 Server/dserve_util.c | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 50d1024..3db26db 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -303,12 +303,26 @@ int sprint_record(void *db, wg_int *rec, thread_data_p tdata) {
   
 */
 
+// print two strings inside one pair of quotes, with sep between them;
+// the second may be NULL
+
+static void sprint_joined(char* bptr, char* str1, char sep, char* str2, int strenc) {
+  if (str1==NULL) str1="";
+  sprint_string(bptr,strlen(str1),str1,strenc);
+  if (str2!=NULL) {
+    bptr+=strlen(bptr)-1; // closing quote
+    sprint_string(bptr,strlen(str2),str2,strenc);
+    *bptr=sep;
+  }
+}
+
 
 char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
   wg_int *ptrdata;
   int i,intdata,strl,strl1,strl2;
   char *strdata, *exdata;
   double doubledata;
+  wg_int longdata;
   char strbuf[80]; // tmp area for dates
   int limit=MIN_STRLEN;
   char **bptr=&(tdata->bufptr);                   
@@ -340,9 +354,9 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       }      
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
+      longdata = wg_decode_int(db, enc);
       if (!str_guarantee_space(tdata, MIN_STRLEN)) return NULL;
-      snprintf(*bptr, limit, "%d", intdata);
+      snprintf(*bptr, limit, "%td", longdata);
       return *bptr+strlen(*bptr);
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -362,10 +376,7 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       if (exdata!=NULL) strl2=strlen(exdata);      
       else strl2=0; 
       if (!str_guarantee_space(tdata, MIN_STRLEN+STRLEN_FACTOR*(strl1+strl2))) return NULL;
-      sprint_string(*bptr,(strl1+strl2),strdata,tdata->strenc);      
-      if (exdata!=NULL) {
-        snprintf(*bptr+strl1+1,limit,"@%s\"", exdata);
-      }     
+      sprint_joined(*bptr,strdata,'@',exdata,tdata->strenc);
       return *bptr+strlen(*bptr);
     case WG_URITYPE:
       strdata = wg_decode_uri(db, enc);
@@ -377,9 +388,9 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       limit=MIN_STRLEN+STRLEN_FACTOR*(strl1+strl2);
       if(!str_guarantee_space(tdata, limit)) return NULL;
       if (exdata==NULL)
-        snprintf(*bptr, limit, "\"%s\"", strdata);
+        sprint_joined(*bptr,strdata,':',NULL,tdata->strenc);
       else
-        snprintf(*bptr, limit, "\"%s:%s\"", exdata, strdata);
+        sprint_joined(*bptr,exdata,':',strdata,tdata->strenc);
       return *bptr+strlen(*bptr);
     case WG_XMLLITERALTYPE:
       strdata = wg_decode_xmlliteral(db, enc);
@@ -390,12 +401,13 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
       else strl2=0; 
       limit=MIN_STRLEN+STRLEN_FACTOR*(strl1+strl2);      
       if(!str_guarantee_space(tdata, limit)) return NULL;      
-      snprintf(*bptr, limit, "\"%s:%s\"", exdata, strdata);
+      sprint_joined(*bptr,exdata,':',strdata,tdata->strenc);
       return *bptr+strlen(*bptr);
     case WG_CHARTYPE:
-      intdata = wg_decode_char(db, enc);
+      strbuf[0] = wg_decode_char(db, enc);
+      strbuf[1] = '\0';
       if(!str_guarantee_space(tdata, MIN_STRLEN)) return NULL;
-      snprintf(*bptr, limit, "\"%c\"", (char) intdata);
+      sprint_string(*bptr,1,strbuf,tdata->strenc);
       return *bptr+strlen(*bptr);
     case WG_DATETYPE:
       intdata = wg_decode_date(db, enc);
@@ -418,7 +430,7 @@ char* sprint_value(void *db, wg_int enc, thread_data_p tdata) {
     case WG_BLOBTYPE:
       strdata = wg_decode_blob(db, enc);
       strl=wg_decode_blob_len(db, enc);
-      limit=MIN_STRLEN+STRLEN_FACTOR*strlen(strdata);
+      limit=MIN_STRLEN+STRLEN_FACTOR*strl;
       if(!str_guarantee_space(tdata, limit)) return NULL;
       sprint_blob(*bptr,strl,strdata,tdata->strenc);
       return *bptr+strlen(*bptr);
@@ -566,11 +578,7 @@ int sprint_blob(char* bptr, int limit, char* strdata, int strenc) {
   // non-ascii chars and % and " urlencoded
   for(i=0;i<limit;i++) {
     c=*sptr++;
-    if (c=='\0') { 
-      *bptr++='"';
-      *bptr='\0';  
-      return 1; 
-    } else if (c < ' ' || c=='%' || c=='"' || (int)c>126) {
+    if (c < ' ' || c=='%' || c=='"' || (int)c>126) {
       *bptr++='%';
       *bptr++=hex_chars[c >> 4];
       *bptr++=hex_chars[c & 0xf];
-- 
2.43.0


From 3350e980c508d33f2517c873b09fe80b1d256f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 61/90] fix: dserve ran without any access restrictions when
 reading its configuration failed

---
 Server/dserve.c      | 4 ++--
 Server/dserve_util.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index e861872..377787a 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -264,7 +264,7 @@ int main(int argc, char **argv) {
 #endif    
       if (inpath!=NULL) {
         // process conf file
-        load_configuration(inpath,globalptr->conf);
+        if (load_configuration(inpath,globalptr->conf)) exit(ERR_EX_CONFIG);
         //print_conf(globalptr->conf);
       }
       run_server(port,globalptr);
@@ -299,7 +299,7 @@ int main(int argc, char **argv) {
 #endif
     if (inpath!=NULL) {
       // process conf file
-      load_configuration(inpath,globalptr->conf);
+      if (load_configuration(inpath,globalptr->conf)) exit(ERR_EX_CONFIG);
       //print_conf(globalptr->conf);
     }
     // setup a single tdata block
diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 3db26db..15dad00 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -686,7 +686,7 @@ int load_configuration(char* path, dserve_conf_p conf) {
     buf=malloc(bufsize);
     if (buf==NULL) {errprint(CONF_MALLOC_ERR,NULL);  return 3;}
     n=fread(buf,1,bufsize,fp);
-    if (n<=0) {errprint(CONF_READ_ERR,path); free(buf); return 3;}
+    if (ferror(fp)) {errprint(CONF_READ_ERR,path); free(buf); return 3;}
     if (n>=bufsize) {
       // did not manage to read all
       free(buf);
-- 
2.43.0


From fc81a714c7dccf424d564921cbb2a0c592148031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 62/90] fix: dserve read and freed configuration memory it did
 not own

---
 Server/dserve_util.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 15dad00..a3f9579 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -681,7 +681,7 @@ int load_configuration(char* path, dserve_conf_p conf) {
   // read configuration file
   fp=fopen(path,READ);
   if (fp==NULL) {errprint(CONF_OPEN_ERR,path);  exit(ERR_EX_NOINPUT);}    
-  for(i=0;i<10;i++) {
+  for(i=0;;i++) {
     //printf("i %d bufsize %d\n",i,bufsize);
     buf=malloc(bufsize);
     if (buf==NULL) {errprint(CONF_MALLOC_ERR,NULL);  return 3;}
@@ -692,12 +692,14 @@ int load_configuration(char* path, dserve_conf_p conf) {
       free(buf);
       rewind(fp);
       bufsize=bufsize*2;
-      if (bufsize>MAX_CONF_BUF_SIZE) {errprint(CONF_SIZE_ERR,path); free(buf); return 4;}
+      if (bufsize>MAX_CONF_BUF_SIZE) {errprint(CONF_SIZE_ERR,path); fclose(fp); return 4;}
     } else {
       // reading successful
       break;
     }      
   }
+  fclose(fp);
+  buf[n]='\0';
   // parse configuration file
   bp=buf;
   bend=buf+n;
@@ -710,7 +712,7 @@ int load_configuration(char* path, dserve_conf_p conf) {
       // skip whitespace
       for(bp2=bp;bp2<bend && *bp2!='\n' && (*bp2==' ' || *bp2=='\t' || *bp2=='\r'); bp2++);
       if (*bp2=='#') { for(bp=bp2;bp<bend && *bp!='\n'; bp++); }
-      else if (*bp2=='\n') {bp=bp2;} // was an empty line
+      else if (bp2>=bend || *bp2=='\n') {bp=bp2;} // was an empty line
       else {
         // go to end of line or first whitespace or #
         for(bp3=bp2+1; bp3<bend && *bp3!='\n' && *bp3!='#' && *bp3!=' ' && *bp3!='\t' && *bp3!='\r';bp3++);
-- 
2.43.0


From 212e8e36cea9132b1754df9c61906e846890f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 63/90] fix: dserve wrote past the buffer for the longest query
 on the command line

---
 Server/dserve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 377787a..e749427 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -404,7 +404,7 @@ static void setup_globals(void) {
 char* process_query(char* inquery, thread_data_p tdata) {  
   int i=0;
   char *query;
-  char querybuf[MAXQUERYLEN];  
+  char querybuf[MAXQUERYLEN+1];  
   int pcount=0;
   int ql,found;  
   char* res=NULL;
-- 
2.43.0


From b9ab09a2a6eb640f6888f47c68d4ca2cc15ee6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 64/90] fix: dserve executed incomplete or unterminated posted
 queries as a CGI program

---
 Server/dserve.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index e749427..1699d9c 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -357,9 +357,8 @@ static char* get_cgi_query(thread_data_p tdata, char* inmethod) {
     }
     n=fread(inquery,1,len,stdin);
     if (n<=0) { return NULL; }
-    if (n<len) {
-      // read less than content-length
-    }
+    if (n<len) { return NULL; } // read less than content-length
+    inquery[n]='\0';
     return inquery; 
   } else {
     return NULL;
-- 
2.43.0


From 6937927178de6a854bd2a4e9cb45ebcd7058c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:29 +0000
Subject: [PATCH 65/90] fix: dserve cut off error messages after a long jsonp
 parameter

---
 Server/dserve_util.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index a3f9579..eff7291 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -1074,13 +1074,15 @@ char* err_clear_detach_halt(char* errstr, thread_data_p tdata) {
 
 char* make_http_errstr(char* str, thread_data_p tdata) {
   char *errstr;
+  int size=HTTP_ERR_BUFSIZE;
   
-  errstr=malloc(HTTP_ERR_BUFSIZE);
+  if(tdata!=NULL && tdata->jsonp!=NULL) size+=strlen(tdata->jsonp);
+  errstr=malloc(size);
   if (!errstr) return NULL;
   if(tdata!=NULL && tdata->jsonp!=NULL)
-    snprintf(errstr,HTTP_ERR_BUFSIZE,JSONP_ERR_FORMAT,tdata->jsonp,str);
+    snprintf(errstr,size,JSONP_ERR_FORMAT,tdata->jsonp,str);
   else    
-    snprintf(errstr,HTTP_ERR_BUFSIZE,NORMAL_ERR_FORMAT,str);
+    snprintf(errstr,size,NORMAL_ERR_FORMAT,str);
   return errstr;
 }
 
-- 
2.43.0


From 694356911fa32f3f3f2ef5f8d685c3aa318acb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:19 +0000
Subject: [PATCH 66/90] fix: dserve executed a request with wrong parameters
 when its error message could not be allocated

---
 Server/dserve.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 1699d9c..556a23f 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -621,7 +621,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     } else if (strncmp(inparams[i],"fld",MAXQUERYLEN)==0) {
       res=handle_fld_param(tdata,inparams[i],invalues[i],
                            &sfields[sfcount],&svalues[sfcount],&stypes[sfcount],sfcount,errbuf);
-      if (res!=NULL) return res; // return error string
+      if (res!=NULL) return errhalt(res,tdata);
       sfcount++;     
     } else if (strncmp(inparams[i],"field",MAXQUERYLEN)==0) {
       fields[fcount++]=invalues[i];       
@@ -638,7 +638,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     } else {  
       // handle generic parameters for all queries: at end of param check
       res=handle_generic_param(tdata,inparams[i],invalues[i],&token,errbuf);      
-      if (res!=NULL) return res;  // return error string
+      if (res!=NULL) return errhalt(res,tdata);
     }      
   }
   // authorization
@@ -871,7 +871,7 @@ static char* insert(thread_data_p tdata, char* inparams[], char* invalues[], int
     } else {  
       // handle generic parameters for all queries: at end of param check
       res=handle_generic_param(tdata,inparams[i],invalues[i],&token,errbuf);      
-      if (res!=NULL) return res;  // return error string
+      if (res!=NULL) return errhalt(res,tdata);
     }    
   }
   if (json==NULL || strlen(json)==0) {
@@ -1009,7 +1009,7 @@ static char* create(thread_data_p tdata, char* inparams[], char* invalues[], int
     else {  
       // handle generic parameters for all queries: at end of param check
       res=handle_generic_param(tdata,inparams[i],invalues[i],&token,errbuf);      
-      if (res!=NULL) return res;  // return error string
+      if (res!=NULL) return errhalt(res,tdata);
     }    
   }  
   // authorization
@@ -1066,7 +1066,7 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
     } else {  
       // handle generic parameters for all queries: at end of param check
       res=handle_generic_param(tdata,inparams[i],invalues[i],&token,errbuf);      
-      if (res!=NULL) return res;  // return error string
+      if (res!=NULL) return errhalt(res,tdata);
     }    
   }  
   // authorization
@@ -1155,7 +1155,7 @@ static int op_delete_record(thread_data_p tdata,void* rec) {
 /* ******** query preparation and ending utilities ******** */
 
 
-// return NULL if parsing ok, errstr otherwise
+// return NULL if parsing ok, error message for errhalt otherwise
 
 static char* handle_generic_param(thread_data_p tdata,char* key,char* value,
                                   char** token,char* errbuf) {
@@ -1169,14 +1169,14 @@ static char* handle_generic_param(thread_data_p tdata,char* key,char* value,
     else if (strncmp(value,"no",MAXQUERYLEN)==0) tdata->showid=0;
     else {
       snprintf(errbuf,ERRBUF_LEN,UNKNOWN_PARAM_VALUE_ERR,value,key);
-      return errhalt(errbuf,tdata);
+      return errbuf;
     }                                                                        
   } else if (strncmp(key,"format",MAXQUERYLEN)==0) {      
     if (strncmp(value,"csv",MAXQUERYLEN)==0) tdata->format=0;
     else if (strncmp(value,"json",MAXQUERYLEN)==0) tdata->format=1;
     else {
       snprintf(errbuf,ERRBUF_LEN,UNKNOWN_PARAM_VALUE_ERR,value,key);
-      return errhalt(errbuf,tdata);
+      return errbuf;
     }
   } else if (strncmp(key,"escape",MAXQUERYLEN)==0) {      
     if (strncmp(value,"no",MAXQUERYLEN)==0) tdata->strenc=0;
@@ -1184,7 +1184,7 @@ static char* handle_generic_param(thread_data_p tdata,char* key,char* value,
     else if (strncmp(value,"json",MAXQUERYLEN)==0) tdata->strenc=2;
     else {
       snprintf(errbuf,ERRBUF_LEN,UNKNOWN_PARAM_VALUE_ERR,value,key);
-      return errhalt(errbuf,tdata);
+      return errbuf;
     }            
   } else if (strncmp(key,"token",MAXQUERYLEN)==0) {
     *token=value;   
@@ -1201,7 +1201,7 @@ static char* handle_generic_param(thread_data_p tdata,char* key,char* value,
 #ifdef ALLOW_UNKNOWN_PARAMS      
 #else          
     snprintf(errbuf,ERRBUF_LEN,UNKNOWN_PARAM_ERR,key);
-    return errhalt(errbuf,tdata);
+    return errbuf;
 #endif      
   }
   return NULL;
-- 
2.43.0


From e6ca0055c50ab28afc82bb16e9eb136aa20c0d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:14 +0000
Subject: [PATCH 67/90] fix: dserve printed urlencoded strings and blobs with a
 backslash as broken JSON

---
 Server/dserve_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index eff7291..0f87a87 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -511,7 +511,7 @@ int sprint_string(char* bptr, int limit, char* strdata, int strenc) {
         *bptr++='"';
         *bptr='\0';  
         return 1; 
-      } else if (c < ' ' || c=='%' || c=='"' || (int)c>126) {
+      } else if (c < ' ' || c=='%' || c=='"' || c=='\\' || (int)c>126) {
         *bptr++='%';
         *bptr++=hex_chars[c >> 4];
         *bptr++=hex_chars[c & 0xf];
@@ -578,7 +578,7 @@ int sprint_blob(char* bptr, int limit, char* strdata, int strenc) {
   // non-ascii chars and % and " urlencoded
   for(i=0;i<limit;i++) {
     c=*sptr++;
-    if (c < ' ' || c=='%' || c=='"' || (int)c>126) {
+    if (c < ' ' || c=='%' || c=='"' || c=='\\' || (int)c>126) {
       *bptr++='%';
       *bptr++=hex_chars[c >> 4];
       *bptr++=hex_chars[c & 0xf];
-- 
2.43.0


From 878b1e729e2e446f1d6462ca65ade3b1f1062f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:14 +0000
Subject: [PATCH 68/90] fix: dserve crashed when the task queue could not be
 allocated

---
 Server/dserve_net.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index b9754ca..e73dd8d 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -120,6 +120,10 @@ int run_server(int port, dserve_global_p globalptr) {
 #endif    
     // prepare threads
     common=(struct common_data *)malloc(sizeof(struct common_data));
+    if (common==NULL) {
+      errprint(CANNOT_ALLOC_ERR,NULL);
+      exit(ERR_EX_UNAVAILABLE);
+    }
     tid=0;
     tcount=0;
     maxtid=0;
@@ -131,6 +135,10 @@ int run_server(int port, dserve_global_p globalptr) {
     }        
     common->threads = threads;
     common->queue = (common_task_t *)malloc(sizeof(common_task_t) * QUEUE_SIZE);
+    if (common->queue==NULL) {
+      errprint(CANNOT_ALLOC_ERR,NULL);
+      exit(ERR_EX_UNAVAILABLE);
+    }
     common->thread_count = 0;
     common->queue_size = QUEUE_SIZE;
     common->head = common->tail = common->count = 0;
-- 
2.43.0


From 0a63ddc9376d86b93e03af7396ed9e49b6741ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:08 +0000
Subject: [PATCH 69/90] fix: dserve lost the start of an answer when the output
 buffer could not be enlarged

---
 Server/dserve.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 556a23f..8b4f028 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -904,7 +904,7 @@ static char* insert(thread_data_p tdata, char* inparams[], char* invalues[], int
   if (tdata->buf==NULL) return errhalt(MALLOC_ERR,tdata);
   tdata->bufsize=INITIAL_MALLOC;
   tdata->bufptr=tdata->buf;
-  op_print_data_start(tdata,1);  
+  if(!op_print_data_start(tdata,1)) return err_clear_detach_halt(MALLOC_ERR,tdata);
   
   // initialize yajl
   /*
@@ -1022,7 +1022,7 @@ static char* create(thread_data_p tdata, char* inparams[], char* invalues[], int
   if (tdata->buf==NULL) return errhalt(MALLOC_ERR,tdata);
   tdata->bufsize=INITIAL_MALLOC;
   tdata->bufptr=tdata->buf;
-  op_print_data_start(tdata,0);      
+  if(!op_print_data_start(tdata,0)) return err_clear_detach_halt(MALLOC_ERR,tdata);
   // indicate no lock
   if (tdata->realthread && tdata->common->shutdown) return NULL; // for multithreading only
   tdata->lock_id=0;
@@ -1079,7 +1079,7 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[], int i
   if (tdata->buf==NULL) return errhalt(MALLOC_ERR,tdata);
   tdata->bufsize=INITIAL_MALLOC;
   tdata->bufptr=tdata->buf;
-  op_print_data_start(tdata,0);
+  if(!op_print_data_start(tdata,0)) return err_clear_detach_halt(MALLOC_ERR,tdata);
   // check if access allowed in the conf file
   if (database!=NULL && (tdata->global)->conf->dbases.used>0) {
     for(i=0;i<(tdata->global)->conf->dbases.used;i++) {
-- 
2.43.0


From 00543cc09568bd326f028c5d74aaf5220631f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:02 +0000
Subject: [PATCH 70/90] fix: dserve corrupted the database when given record
 ids that do not exist (any more)

---
 Server/dserve.c | 54 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index 8b4f028..edae64e 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -107,6 +107,7 @@ static char* drop(thread_data_p tdata, char* inparams[], char* invalues[],
 
 static int op_print_record(thread_data_p tdata,void* rec,int gcount);
 static int op_delete_record(thread_data_p tdata,void* rec);
+static void clear_bad_ids(void* db, wg_int* ids, int n, int unique);
 
 static char* handle_generic_param(thread_data_p tdata,char* key,char* value,
                                   char** token,char* errbuf);
@@ -729,9 +730,11 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
     }   
   } else if (searchtype==1) {
     // ------------ search by record ids: ------------               
-    for(j=0; ids[j]!=0 && j<MAXIDS; j++) {    
-      x=wg_get_encoded_type(db,ids[j]);
-      if (x!=WG_RECORDTYPE) continue;
+    for(x=0; x<MAXIDS && ids[x]!=0; x++);
+    clear_bad_ids(db,ids,x,opcode==DELETE_CODE);
+    itmp=x;
+    for(j=0; j<itmp; j++) {    
+      if (ids[j]==0) continue;
       rec=wg_decode_record(db,ids[j]);    
       if (rec==NULL) continue;
       x=wg_get_record_len(db,rec);
@@ -740,23 +743,15 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
       if (gcount>count) break; 
       if (opcode==COUNT_CODE) handlecount++;
       else if (opcode==SEARCH_CODE) {
-        itmp=op_print_record(tdata,rec,gcount);
-        if (!itmp) return err_clear_detach_halt(MALLOC_ERR,tdata);
+        x=op_print_record(tdata,rec,gcount);
+        if (!x) return err_clear_detach_halt(MALLOC_ERR,tdata);
       } else if (opcode==UPDATE_CODE) {
-          itmp=op_update_record(tdata,db,rec,0,0);
-          if (!itmp) handlecount++;         
+          x=op_update_record(tdata,db,rec,0,0);
+          if (!x) handlecount++;         
       } else if (opcode==DELETE_CODE) {
-        // test that db is not null, otherwise we may corrupt the database
-        oldrec=wg_get_first_record(db);
-        if (oldrec!=NULL) {
-          //wg_int objecthead=dbfetch((void*)db,(void*)rec);
-          //printf("isfreeobject %d\n",isfreeobject((int)objecthead));
-          wg_print_record(db,rec);
-          itmp=op_delete_record(tdata,rec);
-          //printf("deletion result %d\n",itmp);
-          if (!itmp) handlecount++;
-          //else return err_clear_detach_halt(DELETE_ERR,tdata);        
-        }  
+        x=op_delete_record(tdata,rec);
+        if (!x) handlecount++;
+        //else return err_clear_detach_halt(DELETE_ERR,tdata);        
       }      
     }           
   } else if (searchtype==2) {
@@ -1145,6 +1140,29 @@ static int op_print_record(thread_data_p tdata,void* rec,int gcount) {
   return 1;
 }  
 
+// set to 0 all the n passed record ids which are not ids of existing records
+// and, if unique is set, also the repeated ones: any number may be passed
+
+static void clear_bad_ids(void* db, wg_int* ids, int n, int unique) {
+  char found[MAXIDS];
+  void* rec;
+  wg_int id;
+  int i;
+  
+  memset(found,0,sizeof(found));
+  for(rec=wg_get_first_record(db); rec!=NULL; rec=wg_get_next_record(db,rec)) {
+    id=wg_encode_record(db,rec);
+    for(i=0;i<n;i++) {
+      if (ids[i]!=id) continue;
+      found[i]=1;
+      if (unique) break; 
+    }
+  }
+  for(i=0;i<n;i++) {
+    if (!found[i]) ids[i]=0;
+  }
+}
+
 // delete a record
 // return 0 if ok, 1 if fails (contrary to print above)
 
-- 
2.43.0


From bf9f5b4d3ed9ceb36a29ee14adff1bd679023459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:02 +0000
Subject: [PATCH 71/90] fix: dserve cut off error messages on the command line
 after a long jsonp parameter

---
 Server/dserve_util.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/Server/dserve_util.c b/Server/dserve_util.c
index 0f87a87..b16a5a0 100644
--- a/Server/dserve_util.c
+++ b/Server/dserve_util.c
@@ -997,7 +997,6 @@ void errprint(char* fmt, char* param) {
 */
 
 char* errhalt(char* str, thread_data_p tdata) {
-  char buf[HTTP_ERR_BUFSIZE];
   char *errstr;
   
   if (tdata==NULL) {
@@ -1010,13 +1009,11 @@ char* errhalt(char* str, thread_data_p tdata) {
     if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
     return errstr;
   } else {
-    if (tdata->jsonp==NULL)
-      snprintf(buf,HTTP_ERR_BUFSIZE,NORMAL_ERR_FORMAT,str);
-    else
-      snprintf(buf,HTTP_ERR_BUFSIZE,JSONP_ERR_FORMAT,tdata->jsonp,str); 
-    // freeing tdata->inbuf here is not really necessary
+    errstr=make_http_errstr(str,tdata);
+    // freeing here is not really necessary
     if (tdata->inbuf!=NULL) { free(tdata->inbuf); tdata->inbuf=NULL; }
-    print_final(buf,tdata);
+    print_final(errstr,tdata);
+    if (errstr!=NULL) free(errstr);
 #if _MSC_VER    
 #ifdef SERVEROPTION    
     WSACleanup();
-- 
2.43.0


From 551e80f962705d175af5f2f1151aa4f63292796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:33 +0000
Subject: [PATCH 72/90] fix: dserve ignored the from parameter when deleting
 without search fields

---
 Server/dserve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Server/dserve.c b/Server/dserve.c
index edae64e..7f73de0 100644
--- a/Server/dserve.c
+++ b/Server/dserve.c
@@ -718,7 +718,7 @@ static char* search(thread_data_p tdata, char* inparams[], char* invalues[],
       }
       oldrec=rec;
       rec=wg_get_next_record(db,rec);
-      if (opcode==DELETE_CODE) {
+      if (opcode==DELETE_CODE && rcount>=from) {
         x=wg_get_record_len(db,oldrec);
         if (x>0) {
           itmp=op_delete_record(tdata,oldrec);
-- 
2.43.0


From 39b860983cb92b35b9d6d746ca768bbba092dad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:05 +0000
Subject: [PATCH 73/90] fix: a JSON query failed when a record outside of any
 document matched

---
 Db/dbquery.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index f533691..8867cec 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1609,7 +1609,7 @@ static query_result_set *unique_resultset(void *db, query_result_set *set)
     else \
       rc = -1; \
   } else { \
-    rc = show_query_error(db, "Failed to retrieve the document"); \
+    rc = 0; /* an ordinary record or a fragment, not in any document */ \
   }
 
 #define IF_ERR_CLEAN_UP(db, cr, ns, al, rc) \
-- 
2.43.0


From 8674753f172e5781e1ed0d8acd1a1daac374001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:31 +0000
Subject: [PATCH 74/90] fix: a JSON query leaked its arguments or went on
 without them when memory ran out

---
 Db/dbquery.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 8867cec..ba486f3 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1859,8 +1859,9 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
   /* Sort the argument list. This also checks for usable indexes, so
    * we're calling it even if we have just one argument.
    */
-  prepare_json_arglist(db, arglist, &sorted_arglist, argc,
-    &index_id, &vindex_id, &kindex_id);
+  if(prepare_json_arglist(db, arglist, &sorted_arglist, argc,
+    &index_id, &vindex_id, &kindex_id))
+    return NULL;
   /* HACK: this way, the following code does not need to care
    * whether we sorted the argument list or not.
    */
@@ -1880,6 +1881,7 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
     if(!next_set) {
       if(curr_res)
         free_resultset(db, curr_res);
+      ARGLIST_CLEANUP(sorted_arglist)
       return NULL;
     }
 
-- 
2.43.0


From a849cba7c90f024d77ef45dbb703ee747063d2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:31 +0000
Subject: [PATCH 75/90] fix: a failed lookup in the index made a JSON query
 return an incomplete result

---
 Db/dbquery.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index ba486f3..e734778 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1896,6 +1896,7 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
       values[0] = arglist[i].key;
       values[1] = arglist[i].value;
       reclist_offset = wg_search_hash(db, index_id, values, 2);
+      IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, reclist_offset)
 
       if(reclist_offset > 0) {
         gint *nextoffset = &reclist_offset;
-- 
2.43.0


From 192eb156fc81e71da1bb90254e1251f5f1954963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:54 +0000
Subject: [PATCH 76/90] fix: a JSON query with several arguments failed on
 deeply nested documents

---
 Db/dbquery.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index e734778..7134f53 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1968,7 +1968,8 @@ wg_query *wg_make_json_query(void *db, wg_json_query_arg *arglist, gint argc) {
           rec, &arglist[i], next_set, 99);
 #else
         gint rc = check_and_merge_recursively(db,
-          rec, &arglist[i], next_set, WG_COMPARE_REC_DEPTH);
+          rec, &arglist[i], next_set, 2*WG_COMPARE_REC_DEPTH); /* an object
+                                        * nests as two levels of records */
 #endif
         IF_ERR_CLEAN_UP(db, curr_res, next_set, sorted_arglist, rc)
       }
-- 
2.43.0


From 01716af6beec467f5406089c614c9699f07c5496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:01 +0000
Subject: [PATCH 77/90] fix: changing an element of an array left the JSON hash
 index behind

---
 Db/dbindex.c | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 47f84d2..f9fffb1 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -3140,6 +3140,29 @@ static int in_template_list(void *db, gint column, gint index_id) {
   return 0;
 }
 
+/*
+ * Check if a JSON hash index has to be updated in update_recrefs().
+ * returns 1 if col is the first of the indexed columns that contains a
+ * record (each index is handled just once) and skipcol is not indexed.
+ */
+static int is_first_hash_recref(void *db, wg_index_header *hdr, void *rec,
+  gint col, gint skipcol) {
+  gint i;
+
+  if(!is_plain_record(rec) ||\
+    wg_get_record_len(db, rec) <= hdr->rec_field_index[hdr->fields - 1])
+    return 0;
+  for(i=0; i<hdr->fields; i++) {
+    gint c = hdr->rec_field_index[i];
+    if(c == skipcol)
+      return 0;
+    if(c < col &&\
+      wg_get_encoded_type(db, wg_get_field(db, rec, c)) == WG_RECORDTYPE)
+      return 0;
+  }
+  return 1;
+}
+
 /*
  * Common part of wg_index_add_recrefs() and wg_index_del_recrefs()
  */
@@ -3172,6 +3195,19 @@ static gint update_recrefs(void *db, void *rec, gint skipcol, int add) {
             return -2;
         }
       }
+      else if(hdr->type == WG_INDEX_TYPE_HASH_JSON &&\
+        is_first_hash_recref(db, hdr, rec, i, skipcol) &&\
+        !in_template_list(db, skipcol, ilistelem->car) &&\
+        MATCH_TEMPLATE(db, hdr, rec)) {
+        /* the elements of an array are indexed with the record */
+        if(add) {
+          if(hash_add_row(db, ilistelem->car, rec))
+            return -2;
+        } else {
+          if(hash_remove_row(db, ilistelem->car, rec) < -2)
+            return -2;
+        }
+      }
       ilist = ilistelem->cdr;
     }
   }
@@ -3179,7 +3215,8 @@ static gint update_recrefs(void *db, void *rec, gint skipcol, int add) {
 }
 
 /** Add the record links in one record to the indexes
- * Only concerns the indexes that order records by their contents.
+ * Only concerns the indexes that order records by their contents or
+ * contain the elements of arrays.
  * The indexes that depend on the value of the field skipcol itself
  * (those on the field or with a template value for it) are not included.
  * returns 0 on success, -2 on error
-- 
2.43.0


From 27d5eee6382025d977545fc67ca5bb22fca52704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:24 +0000
Subject: [PATCH 78/90] fix: a JSON query took the elements of an array for a
 key and a value

---
 Db/dbquery.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 7134f53..be04d55 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -1655,6 +1655,10 @@ static gint check_and_merge_by_kv(void *db, void *rec,
 {
   gint rc = 0;
   gint reclen = wg_get_record_len(db, rec);
+  if(!is_plain_record(rec)) {
+    return 0; /* arrays and objects are not key-value pairs. Like the JSON
+               * hash index, only use the rows that point to them */
+  }
   if(reclen > WG_SCHEMA_VALUE_OFFSET) { /* XXX: assume key
                                          * before value */
 #ifndef JSON_SCAN_UNWRAP_ARRAY
@@ -1694,6 +1698,9 @@ static gint check_and_merge_by_key(void *db, void *rec,
 {
   gint rc = 0;
   gint reclen = wg_get_record_len(db, rec);
+  if(!is_plain_record(rec)) {
+    return 0; /* not a key-value pair */
+  }
   if(reclen > WG_SCHEMA_VALUE_OFFSET) {
 #ifndef JSON_SCAN_UNWRAP_ARRAY
     if(WG_COMPARE(db, wg_get_field(db, rec, WG_SCHEMA_VALUE_OFFSET),
-- 
2.43.0


From f073c6a842eb07dd1531b0d1f9e34063d9155efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:17 +0000
Subject: [PATCH 79/90] fix: the row count of a query with contradicting
 conditions was undefined

---
 Db/dbquery.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index be04d55..6bd61c4 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -818,6 +818,13 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
       /* return empty query */
       query->argc = 0;
       query->arglist = NULL;
+      if(flags & QUERY_FLAGS_PREFETCH) {
+        query->qtype = WG_QTYPE_PREFETCH;
+        query->curr_page = NULL;
+        query->curr_pidx = 0;
+        query->res_count = 0;
+        query->mpool = NULL;
+      }
       free(full_arglist);
       return query;
     }
-- 
2.43.0


From 405ff2b4b78a78d475ed4272e07afbbf6e204998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:18 +0000
Subject: [PATCH 80/90] fix: a query leaked its result rows when memory ran out

---
 Db/dbquery.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 6bd61c4..24de770 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -926,6 +926,7 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
           wg_alloc_mpool(db, query->mpool, sizeof(query_result_page));
         if(!currpage) {
           show_query_error(db, "Failed to allocate a resultset row");
+          wg_free_mpool(db, query->mpool);
           wg_free_query(db, query);
           return NULL;
         }
-- 
2.43.0


From 8c65711eb0c8400ac299fc1493f32935cf75e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:45 +0000
Subject: [PATCH 81/90] fix: wg_set_int_field, wg_set_double_field and
 wg_set_str_field leaked the value they could not store

---
 Db/dbdata.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index 15495a9..f6e7fab 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -930,12 +930,22 @@ wg_int wg_set_new_field(void* db, void* record, wg_int fieldnr, wg_int data) {
   return 0;
 }
 
+/** Common part of the functions below. Releases the value if it could
+ *  not be stored.
+ */
+static wg_int set_own_field(void* db, void* record, wg_int fieldnr, gint data) {
+  wg_int err = wg_set_field(db,record,fieldnr,data);
+  if (err && wg_get_field(db,record,fieldnr)!=data)
+    wg_free_encoded(db,data);
+  return err;
+}
+
 wg_int wg_set_int_field(void* db, void* record, wg_int fieldnr, gint data) {
   gint fielddata;
   fielddata=wg_encode_int(db,data);
   //printf("wg_set_int_field data %d encoded %d\n",data,fielddata);
   if (fielddata==WG_ILLEGAL) return -1;
-  return wg_set_field(db,record,fieldnr,fielddata);
+  return set_own_field(db,record,fieldnr,fielddata);
 }
 
 wg_int wg_set_double_field(void* db, void* record, wg_int fieldnr, double data) {
@@ -943,7 +953,7 @@ wg_int wg_set_double_field(void* db, void* record, wg_int fieldnr, double data)
 
   fielddata=wg_encode_double(db,data);
   if (fielddata==WG_ILLEGAL) return -1;
-  return wg_set_field(db,record,fieldnr,fielddata);
+  return set_own_field(db,record,fieldnr,fielddata);
 }
 
 wg_int wg_set_str_field(void* db, void* record, wg_int fieldnr, char* data) {
@@ -951,7 +961,7 @@ wg_int wg_set_str_field(void* db, void* record, wg_int fieldnr, char* data) {
 
   fielddata=wg_encode_str(db,data,NULL);
   if (fielddata==WG_ILLEGAL) return -1;
-  return wg_set_field(db,record,fieldnr,fielddata);
+  return set_own_field(db,record,fieldnr,fielddata);
 }
 
 wg_int wg_set_rec_field(void* db, void* record, wg_int fieldnr, void* data) {
-- 
2.43.0


From 526a783e393749e00d812573acc556fcbd77b950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:34 +0000
Subject: [PATCH 82/90] fix: wgdb add: a row that cannot be stored completely
 is not left in the database

---
 Main/wgdb.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index 26a0a69..3664697 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -959,9 +959,15 @@ int add_row(void *db, char **argv, int argc) {
     encoded = wg_parse_and_encode(db, argv[i]);
     if(encoded == WG_ILLEGAL) {
       fprintf(stderr, "Parsing or encoding error\n");
+      wg_delete_record(db, rec);
+      return -1;
+    }
+    if(wg_set_field(db, rec, i, encoded)) {
+      fprintf(stderr, "Failed to store the row\n");
+      wg_free_encoded(db, encoded);
+      wg_delete_record(db, rec);
       return -1;
     }
-    wg_set_field(db, rec, i, encoded);
   }
 
   return 0;
-- 
2.43.0


From 68ff0e59b83ec766eed5f9a553ba7415632d5c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:34 +0000
Subject: [PATCH 83/90] fix: wgdb query, del and findjson report when they fail

---
 Main/wgdb.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index 3664697..7ed278d 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -774,8 +774,10 @@ wg_query_arg *make_arglist(void *db, char **argv, int argc, int *sz) {
   qargc = argc / 3;
   *sz = qargc;
   arglist = (wg_query_arg *) malloc(qargc * sizeof(wg_query_arg));
-  if(!arglist)
+  if(!arglist) {
+    fprintf(stderr, "Failed to allocate memory\n");
     return NULL;
+  }
 
   for(i=0,j=0; i<qargc; i++) {
     arglist[i].value = WG_ILLEGAL;
@@ -851,8 +853,10 @@ void query(void *db, char **argv, int argc) {
   }
 
   q = wg_make_query(db, NULL, 0, arglist, qargc);
-  if(!q)
+  if(!q) {
+    fprintf(stderr, "Query failed\n");
     goto abrt2;
+  }
 
 /*  printf("query col: %d type: %d\n", q->column, q->qtype); */
   rec = wg_fetch(db, q);
@@ -890,8 +894,10 @@ void del(void *db, char **argv, int argc) {
   }
 
   q = wg_make_query(db, NULL, 0, arglist, qargc);
-  if(!q)
+  if(!q) {
+    fprintf(stderr, "Query failed\n");
     goto abrt2;
+  }
 
   if(q->res_count > 0) {
     gint errc = 0;
@@ -983,8 +989,10 @@ wg_json_query_arg *make_json_arglist(void *db, char *json, int *sz,
   void *document;
   gint i, reclen;
 
-  if(wg_check_json(db, json) || wg_parse_json_param(db, json, &document))
+  if(wg_check_json(db, json) || wg_parse_json_param(db, json, &document)) {
+    fprintf(stderr, "Failed to parse the JSON query\n");
     return NULL;
+  }
 
   if(!is_schema_object(document)) {
     fprintf(stderr, "Invalid input JSON (must be an object)\n");
@@ -1005,6 +1013,7 @@ wg_json_query_arg *make_json_arglist(void *db, char *json, int *sz,
     gint key = wg_get_field(db, rec, WG_SCHEMA_KEY_OFFSET);
     gint value = wg_get_field(db, rec, WG_SCHEMA_VALUE_OFFSET);
     if(key == WG_ILLEGAL || value == WG_ILLEGAL) {
+      fprintf(stderr, "Invalid input JSON\n");
       free(arglist);
       wg_delete_document(db, document);
       return NULL;
@@ -1031,8 +1040,10 @@ void findjson(void *db, char *json) {
     return;
 
   q = wg_make_json_query(db, arglist, qargc);
-  if(!q)
+  if(!q) {
+    fprintf(stderr, "Query failed\n");
     goto abort;
+  }
 
   rec = wg_fetch(db, q);
   while(rec) {
-- 
2.43.0


From a9c9f7ed1281449abe680717462a31c8c86e43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:34 +0000
Subject: [PATCH 84/90] fix: wgdb index commands check their arguments and
 report failures

---
 Main/wgdb.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/Main/wgdb.c b/Main/wgdb.c
index 7ed278d..8ff8098 100644
--- a/Main/wgdb.c
+++ b/Main/wgdb.c
@@ -683,44 +683,55 @@ int main(int argc, char **argv) {
     }
     else if(argc>(i+1) && !strcmp(argv[i], "createindex")) {
       int col;
+      if(sscanf(argv[i+1], "%d", &col) != 1) {
+        fprintf(stderr, "Invalid column.\n");
+        exit(1);
+      }
       shmptr = (void *) wg_attach_database(shmname, shmsize);
       if(!shmptr) {
         fprintf(stderr, "Failed to attach to database.\n");
         exit(1);
       }
-      sscanf(argv[i+1], "%d", &col);
       WLOCK(shmptr, wlock);
-      wg_create_index(shmptr, col, WG_INDEX_TYPE_TTREE, NULL, 0);
+      if(wg_create_index(shmptr, col, WG_INDEX_TYPE_TTREE, NULL, 0))
+        fprintf(stderr, "Failed to create index.\n");
       WULOCK(shmptr, wlock);
       break;
     }
     else if(argc>(i+1) && !strcmp(argv[i], "createhash")) {
       gint cols[MAX_INDEX_FIELDS], col_count, j;
-      shmptr = (void *) wg_attach_database(shmname, shmsize);
-      if(!shmptr) {
-        fprintf(stderr, "Failed to attach to database.\n");
-        exit(1);
-      }
       col_count = 0;
       for(j = i+1; j<argc; j++) {
         int col;
-        sscanf(argv[j], "%d", &col);
+        if(col_count >= MAX_INDEX_FIELDS || sscanf(argv[j], "%d", &col) != 1) {
+          fprintf(stderr, "Invalid column list.\n");
+          exit(1);
+        }
         cols[col_count++] = col;
       }
+      shmptr = (void *) wg_attach_database(shmname, shmsize);
+      if(!shmptr) {
+        fprintf(stderr, "Failed to attach to database.\n");
+        exit(1);
+      }
       WLOCK(shmptr, wlock);
-      wg_create_multi_index(shmptr, cols, col_count,
-        WG_INDEX_TYPE_HASH_JSON, NULL, 0);
+      if(wg_create_multi_index(shmptr, cols, col_count,
+        WG_INDEX_TYPE_HASH_JSON, NULL, 0))
+        fprintf(stderr, "Failed to create index.\n");
       WULOCK(shmptr, wlock);
       break;
     }
     else if(argc>(i+1) && !strcmp(argv[i], "dropindex")) {
       int index_id;
+      if(sscanf(argv[i+1], "%d", &index_id) != 1) {
+        fprintf(stderr, "Invalid index id.\n");
+        exit(1);
+      }
       shmptr = (void *) wg_attach_database(shmname, shmsize);
       if(!shmptr) {
         fprintf(stderr, "Failed to attach to database.\n");
         exit(1);
       }
-      sscanf(argv[i+1], "%d", &index_id);
       WLOCK(shmptr, wlock);
       if(wg_drop_index(shmptr, index_id))
         fprintf(stderr, "Failed to drop index.\n");
-- 
2.43.0


From 6ec173f5f096c1bb8174a2102f66c013e34cd5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:34 +0000
Subject: [PATCH 85/90] fix: queries on negative column numbers are refused

---
 Db/dbquery.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 24de770..948089d 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -378,6 +378,12 @@ static gint prepare_params(void *db, void *matchrec, gint reclen,
     show_query_error(db, "Invalid argument list (NULL)");
     return -1;
   }
+  for(i=0; i<argc; i++) {
+    if(arglist[i].column < 0) {
+      show_query_error(db, "Invalid column number in argument list");
+      return -1;
+    }
+  }
 #endif
 
   /* Determine total number of query parameters (number of arguments
-- 
2.43.0


From dd27d63000e5fa08ddc08abda6b32c0aaa226b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:44 +0000
Subject: [PATCH 86/90] fix: wg_export_db_csv reports a file that could not be
 written completely

---
 Db/dbutil.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Db/dbutil.c b/Db/dbutil.c
index 88a7352..cfaa390 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -708,7 +708,12 @@ void wg_export_db_csv(void *db, const char *filename) {
     rec = wg_get_next_record(db, rec);
   };
 
-  fclose(f);
+  if(ferror(f)) {
+    show_io_error_str(db, "failed to write file", filename);
+    fclose(f);
+  } else if(fclose(f)) {
+    show_io_error_str(db, "failed to write file", filename);
+  }
 }
 
 /** Read CSV stream and convert it to database records.
-- 
2.43.0


From 2a32bd99ee03cbf64f99ac1575d18454be2c9b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:08 +0000
Subject: [PATCH 87/90] fix: a hash index entry that could not be removed for
 lack of memory was left behind and the removal reported as done

---
 Db/dbhash.c  | 5 +++--
 Db/dbindex.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/Db/dbhash.c b/Db/dbhash.c
index 744b1ce..000a6d5 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -271,7 +271,7 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
     gint xl = wg_decode_xmlliteral_xsdtype_len(d, en); \
     bb = malloc(xl + l + 1); \
     if(!bb) \
-      return 0; \
+      return -1; \
     memcpy(bb, e, xl); \
     bb[xl] = '\0'; \
     memcpy(bb + xl + 1, b, l); \
@@ -284,6 +284,7 @@ gint wg_remove_from_strhash(void* db, gint longstr) {
  * It should be freed afterwards.
  * returns the number of bytes in the array.
  * returns 0 if the decode failed.
+ * returns -1 if there was not enough memory.
  *
  * NOTE: to differentiate between identical byte strings
  * the value is prefixed with a type identifier.
@@ -382,7 +383,7 @@ gint wg_decode_for_hashing(void *db, gint enc, char **decbytes) {
     *decbytes = outbuf;
   } else {
     /* Indicate failure */
-    len = 0;
+    len = -1;
   }
 
   if(buf)
diff --git a/Db/dbindex.c b/Db/dbindex.c
index f9fffb1..8e5d2b8 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1524,6 +1524,7 @@ static gint hash_remove_row(void *db, gint index_id, void *rec) {
  * returns:
  * 0 - on success
  * -1 - on error
+ * -3 - not enough memory, nothing was found out about the entry
  */
 static gint hash_recurse(void *db, wg_index_header *hdr, char *prefix,
   gint prefixlen, gint *values, gint count, void *rec, gint op, gint expand) {
@@ -1586,7 +1587,7 @@ static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
   fldlen = wg_decode_for_hashing(db, nextval, &fldbytes);
   if(fldlen < 1) {
     show_index_error(db,"Failed to decode a field value for hash");
-    return -1;
+    return (fldlen < 0 ? -3 : -1);
   }
 
   if(prefix && prefixlen) {
@@ -1599,7 +1600,7 @@ static gint hash_extend_prefix(void *db, wg_index_header *hdr, char *prefix,
   if(!newprefix) {
     free(fldbytes);
     show_index_error(db, "Failed to allocate memory");
-    return -1;
+    return -3;
   }
   if(prefix) {
     memcpy(newprefix, prefix, prefixlen);
-- 
2.43.0


From efde04462fcaa261306f4c965434452a4202df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:15 +0000
Subject: [PATCH 88/90] fix: server without a thread pool: a thread that cannot
 be created lost the connection and its slot for good, memory failure at start
 crashed

---
 Server/dserve_net.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Server/dserve_net.c b/Server/dserve_net.c
index e73dd8d..8baf036 100644
--- a/Server/dserve_net.c
+++ b/Server/dserve_net.c
@@ -245,6 +245,10 @@ int run_server(int port, dserve_global_p globalptr) {
 #endif    
     // prepare common block
     common=(struct common_data *)malloc(sizeof(struct common_data));     
+    if (common==NULL) {
+      errprint(CANNOT_ALLOC_ERR,NULL);
+      exit(ERR_EX_UNAVAILABLE);
+    }
     common->shutdown=0;           
     // mark thread data blocks free
     for(i=0;i<MAX_THREADS;i++) {
@@ -315,6 +319,12 @@ int run_server(int port, dserve_global_p globalptr) {
       }       
 #else
       rc=pthread_create(&threads[tid], &attr, handle_http, (void *) &tdata[tid]);
+      if (rc) {
+        // no thread for this connection: serve it here
+        warnprint(THREAD_CREATE_ERR,strerror(rc));
+        tdata[tid].realthread=0;
+        handle_http((void *) &tdata[tid]);
+      }
 #endif
     }
     return 0; // never come to this
-- 
2.43.0


From f98dccb91aac501785d76644a63a72be840e4e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:12 +0000
Subject: [PATCH 89/90] fix: the current UTC time is right after January 2038

wg_current_utctime() kept the seconds since 1970 in an int.
---
 Db/dbdata.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Db/dbdata.c b/Db/dbdata.c
index f6e7fab..6987be9 100644
--- a/Db/dbdata.c
+++ b/Db/dbdata.c
@@ -1728,17 +1728,17 @@ int wg_current_localdate(void* db) {
 
 int wg_current_utctime(void* db) {
   struct timeb tstruct;
-  int esecs;
-  int days;
+  time_t esecs;
+  time_t days;
   int secs;
   int milli;
   int secsday=24*60*60;
 
   ftime(&tstruct);
-  esecs=(int)(tstruct.time);
+  esecs=tstruct.time;
   milli=tstruct.millitm;
   days=esecs/secsday;
-  secs=esecs-(days*secsday);
+  secs=(int)(esecs-(days*secsday));
   return (secs*100)+(milli/10);
 }
 
-- 
2.43.0


From 6ab788a70c31bc0f550e1ff8a6d38e228447d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:58 +0000
Subject: [PATCH 90/90] fix: looking up an index by a negative column number
 read outside the index table

---
 Db/dbindex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dbindex.c b/Db/dbindex.c
index 8e5d2b8..c945d4c 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -2577,6 +2577,10 @@ gint wg_multi_column_to_index_id(void *db, gint *columns, gint col_count,
   }
 
   for(i=0; i<col_count; i++) {
+    if(sorted_cols[i] < 0) {
+      show_index_error(db, "Invalid column number");
+      return -1;
+    }
     if(sorted_cols[i] > MAX_INDEXED_FIELDNR) {
       show_index_error_nr(db, "Max allowed column number",
         MAX_INDEXED_FIELDNR);
-- 
2.43.0

