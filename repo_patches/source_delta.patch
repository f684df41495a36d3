From 268716882ce7b64eafd691258161d169d603b224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 001/212] fix: do not write beyond the error message buffer for
 long error messages

---
 src/utils/err.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/utils/err.c b/src/utils/err.c
index b815d03..2576561 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -184,6 +184,10 @@ static char *errlevel_names[] = {
 };
 
 
+/* Position in the message buffer to continue writing at, when `n` characters
+   have been (or would have been, if the buffer was large enough) written. */
+#define MSGPOS(n) (((size_t)(n) < errsize) ? (size_t)(n) : errsize - 1)
+
 /* Reports the error and returns `eval`.  Args:
  *  errlevel : error level
  *  eval     : error value that is returned or passed exit()
@@ -236,7 +240,7 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     case errOverrideAppend:
       n = strlen(errmsg);
       tls->err_record->pos = n;
-      n += snprintf(errmsg + n, errsize - n, "%s", err_append_sep);
+      n += snprintf(errmsg + MSGPOS(n), errsize - MSGPOS(n), "%s", err_append_sep);
       break;
     case errOverrideWarnOld:
       if (stream) fprintf(stream, "Warning: Overriding old error: '%s'\n",
@@ -267,29 +271,30 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     Globals *g = tls->globals;
 
     if (g->err_prefix && *g->err_prefix)
-      n += snprintf(errmsg + n, errsize - n, "%s: ", g->err_prefix);
+      n += snprintf(errmsg + MSGPOS(n), errsize - MSGPOS(n), "%s: ", g->err_prefix);
 
     if (debug_mode >= 1)
-      n += snprintf(errmsg + n, errsize - n, "%s: ", file);
+      n += snprintf(errmsg + MSGPOS(n), errsize - MSGPOS(n), "%s: ", file);
     if (debug_mode >= 2)
-      n += snprintf(errmsg + n, errsize - n, "in %s(): ", func);
+      n += snprintf(errmsg + MSGPOS(n), errsize - MSGPOS(n), "in %s(): ", func);
 
     if (eval) {
       if (nameconv)
-        n += snprintf(errmsg + n, errsize - n, "%s%s: ", nameconv(eval),
+        n += snprintf(errmsg + MSGPOS(n), errsize - MSGPOS(n), "%s%s: ",
+                      nameconv(eval),
                       (errlevel_name && *errlevel_name) ?
                       errlevel_name : "");
       else
-        n += snprintf(errmsg + n, errsize - n, "%s %d: ",
+        n += snprintf(errmsg + MSGPOS(n), errsize - MSGPOS(n), "%s %d: ",
                       (errlevel_name && *errlevel_name) ?
                       errlevel_name : "Errval", eval);
     } else if (errlevel_name && *errlevel_name) {
-      n += snprintf(errmsg + n, errsize - n, "%s: ", errlevel_name);
+      n += snprintf(errmsg + MSGPOS(n), errsize - MSGPOS(n), "%s: ", errlevel_name);
     }
     if (msg && *msg)
-      n += vsnprintf(errmsg + n, errsize - n, msg, ap);
+      n += vsnprintf(errmsg + MSGPOS(n), errsize - MSGPOS(n), msg, ap);
     if (errnum)
-      n += snprintf(errmsg + n, errsize - n, ": %s", strerror(errnum));
+      n += snprintf(errmsg + MSGPOS(n), errsize - MSGPOS(n), ": %s", strerror(errnum));
     if (n >= (int)errsize && stream)
       fprintf(stream,
               "Warning: error %d truncated due to full message buffer: %s",
-- 
2.43.0


From d922781f3092d6341dffe1885f437da7a019f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 002/212] fix: storage hotlist was shrunk to too few bytes when
 removing storages

---
 src/dlite-storage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index f08a21c..b36da02 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -559,7 +559,7 @@ int dlite_storage_hotlist_remove(const DLiteStorage *s)
   assert(length > h->nmemb);
   if (h->length > length) {
     const DLiteStorage **storages = realloc((DLiteStorage **)h->storages,
-                                            length);
+                                            length*sizeof(DLiteStorage *));
     assert(storages);  // redusing allocated memory should always be successful
     h->length = length;
     h->storages = storages;
-- 
2.43.0


From 33907fe40c1ed60f585652b9920e011632cb8835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 003/212] fix: dlite_store_load() treated successfully added
 instances as failures

---
 src/dlite-store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-store.c b/src/dlite-store.c
index 234dacc..b28b6b9 100644
--- a/src/dlite-store.c
+++ b/src/dlite-store.c
@@ -69,7 +69,7 @@ DLiteStore *dlite_store_load(DLiteStorage *s)
   if (!(store = dlite_store_create())) goto fail;
   for (p=uuids; *p; p++) {
     if (!(inst = dlite_instance_load(s, *p))) goto fail;
-    if (!dlite_store_add_new(store, inst)) goto fail;
+    if (dlite_store_add_new(store, inst)) goto fail;
   }
   retval = store;
  fail:
-- 
2.43.0


From 81298837715032e30d3d2e573295d8da28ae9595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 004/212] fix: infinite loop when scanning an unsigned integer
 with leading blanks

---
 src/dlite-type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 39cb890..66e95bf 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1003,7 +1003,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
 
   case dliteUInt:
     v = 0;
-    while (isblank(src[v])) m++;
+    while (isblank(src[v])) v++;
     if (src[v] == '0' && (src[v+1] == 'x' || src[v+1] == 'X')) {
       switch (size) {
 #ifdef HAVE_INTTYPES_H
-- 
2.43.0


From 30b6c9ca3747347ca9634054faae428d693e28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 005/212] fix: error mask for error codes whose bit number
 exceeds 31

---
 src/dlite-misc.c | 4 ++--
 src/dlite-misc.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 926a8a1..5b5111f 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -1008,7 +1008,7 @@ void _dlite_err_mask_set(DLiteErrMask mask)
 void dlite_err_ignored_set(DLiteErrCode code, int value)
 {
   DLiteErrMask *mask = _dlite_err_mask_get();
-  int bit = DLITE_ERRBIT(code);
+  DLiteErrMask bit = DLITE_ERRBIT(code);
   if (mask) {
     if (value)
       *mask |= bit;
@@ -1023,7 +1023,7 @@ int dlite_err_ignored_get(DLiteErrCode code)
   DLiteErrMask *mask = _dlite_err_mask_get();
   if (!mask) return 0;
   if (code > 0 && (*mask & DLITE_ERRBIT(dliteUnknownError))) return 1;
-  return (int)(*mask) & DLITE_ERRBIT(code);
+  return (*mask & DLITE_ERRBIT(code)) ? 1 : 0;
 }
 
 
diff --git a/src/dlite-misc.h b/src/dlite-misc.h
index 714109a..de38fc0 100644
--- a/src/dlite-misc.h
+++ b/src/dlite-misc.h
@@ -471,7 +471,7 @@ DLiteErrMask *_dlite_err_mask_get(void);
 void _dlite_err_mask_set(DLiteErrMask mask);
 
 #define DLITE_ERRBIT(code)                                              \
-  ((int)1<<(int)((code >= 0) ? 0 : (code <= dliteLastError) ? -dliteLastError : -code))
+  ((DLiteErrMask)1<<(int)((code >= 0) ? 0 : (code <= dliteLastError) ? -dliteLastError : -code))
 
 #define DLITE_NOERR(mask)                                       \
   do {                                                          \
-- 
2.43.0


From 4dd842e88f304e852fe59da4347a658ded6aef71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 006/212] fix: the hash of a collection depended only on its
 last relation

---
 src/dlite-collection.c | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 1d78f8e..2e0d1cf 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -60,7 +60,7 @@ int dlite_collection_deinit(DLiteInstance *inst)
 /* Help function for dlite_collection_gethash().
    Returns 1 if a > b, 0 if a == b and -1 if a < b. */
 int _cmp_triple(const void *a, const void *b) {
-  const Triple *t1=*(Triple **)a, *t2=*(Triple **)b;
+  const Triple *t1=a, *t2=b;
   int v;
   if ((v = strcmp(t1->s, t2->s))) return v;
   if ((v = strcmp(t1->p, t2->p))) return v;
@@ -90,8 +90,9 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   const uint8_t *buf;
   unsigned bitsize = hashsize * 8;
   TripleState state;
-  const Triple *t, **triples=NULL;
-  size_t i=0, n=triplestore_length(coll->rstore);
+  const Triple *t;
+  Triple *triples=NULL;
+  size_t i=0, m=0, n=triplestore_length(coll->rstore);
   int retval=1;
 
   /* Initiate calculation of hash */
@@ -106,37 +107,41 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
 
   /* Calculate the hash of a sorted copy of the relations */
   triplestore_init_state(coll->rstore, &state);
-  if (!(triples = malloc(n * sizeof(Triple *))))
+  if (!(triples = malloc((n + 1) * sizeof(Triple))))
     FAILCODE(dliteMemoryError, "allocation failure");
   while ((t = triplestore_next(&state))) {
-    triples[i++] = t;
+    assert(m < n);
+    /* The triple returned by triplestore_next() is only valid until next
+       call. */
+    if (!triple_copy(triples + m, t)) goto fail;
+    m++;
   }
-  assert(i == n);
-  qsort((void *)triples, n, sizeof(Triple *), _cmp_triple);
+  assert(m == n);
+  qsort((void *)triples, n, sizeof(Triple), _cmp_triple);
   for (i=0; i<n; i++) {
-    if (strcmp(triples[i]->p, "_has-hash") == 0) continue;
-    if (strcmp(triples[i]->p, "_has-uuid") == 0) {
+    if (strcmp(triples[i].p, "_has-hash") == 0) continue;
+    if (strcmp(triples[i].p, "_has-uuid") == 0) {
       if ((t = triplestore_find_first(coll->rstore,
-                                      triples[i]->s, "_has-hash", NULL,
+                                      triples[i].s, "_has-hash", NULL,
                                       NULL))) {
         _sha3_update_triple(&c, t);
       } else {
         uint8_t hash[DLITE_HASH_SIZE];
         DLiteInstance * inst;
         char hex[2*DLITE_HASH_SIZE+1];
-        if (!(inst = dlite_instance_get(triples[i]->o))) goto fail;
+        if (!(inst = dlite_instance_get(triples[i].o))) goto fail;
         if (dlite_instance_get_hash(inst, hash, DLITE_HASH_SIZE))
           FAILCODE1(dliteValueError,
-                    "error calculating hash of instance '%s'", triples[i]->o);
+                    "error calculating hash of instance '%s'", triples[i].o);
         if (strhex_encode(hex, sizeof(hex), hash, DLITE_HASH_SIZE) < 0)
           FAILCODE1(dliteValueError,
-                    "failed hex-encoding hash of '%s'", triples[i]->o);
-        sha3_Update(&c, triples[i]->s, strlen(triples[i]->s));
+                    "failed hex-encoding hash of '%s'", triples[i].o);
+        sha3_Update(&c, triples[i].s, strlen(triples[i].s));
         sha3_Update(&c, "_has-hash", 9);
         sha3_Update(&c, hex, 2*DLITE_HASH_SIZE);
       }
     }
-    _sha3_update_triple(&c, triples[i]);
+    _sha3_update_triple(&c, triples + i);
   }
 
   buf = sha3_Finalize(&c);
@@ -144,7 +149,8 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   retval = 0;
  fail:
   triplestore_deinit_state(&state);
-  free((void *)triples);
+  for (i=0; i<m; i++) triple_clean(triples + i);
+  free(triples);
   return retval;
 }
 
-- 
2.43.0


From f829c8f427bb4d044d75fbb4dbaf2e5337956834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 007/212] fix: calculating the hash of a collection leaked
 references to its instances

---
 src/dlite-collection.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 2e0d1cf..2c94043 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -128,9 +128,12 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
       } else {
         uint8_t hash[DLITE_HASH_SIZE];
         DLiteInstance * inst;
+        int stat;
         char hex[2*DLITE_HASH_SIZE+1];
         if (!(inst = dlite_instance_get(triples[i].o))) goto fail;
-        if (dlite_instance_get_hash(inst, hash, DLITE_HASH_SIZE))
+        stat = dlite_instance_get_hash(inst, hash, DLITE_HASH_SIZE);
+        dlite_instance_decref(inst);
+        if (stat)
           FAILCODE1(dliteValueError,
                     "error calculating hash of instance '%s'", triples[i].o);
         if (strhex_encode(hex, sizeof(hex), hash, DLITE_HASH_SIZE) < 0)
-- 
2.43.0


From 3807235e441a75aa24c351d073ff0bf1dde94f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 008/212] fix: copying a relation dropped its datatype, copying
 dimensions without description crashed

---
 src/dlite-type.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 66e95bf..1074272 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -588,7 +588,7 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
       DLiteDimension *d=dest;
       const DLiteDimension *s=src;
       d->name = strdup(s->name);
-      d->description = strdup(s->description);
+      d->description = (s->description) ? strdup(s->description) : NULL;
     }
     break;
   case dliteProperty:
@@ -598,7 +598,7 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
       d->name = strdup(s->name);
       d->type = s->type;
       d->size = s->size;
-      if (s->ref) d->ref = strdup(s->ref);
+      d->ref = (s->ref) ? strdup(s->ref) : NULL;
       d->ndims = s->ndims;
       if (d->ndims) {
         int i;
@@ -620,6 +620,7 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
       d->s = strdup(s->s);
       d->p = strdup(s->p);
       d->o = strdup(s->o);
+      d->d = (s->d) ? strdup(s->d) : NULL;
       d->id = (s->id) ? strdup(s->id) : NULL;
     }
     break;
-- 
2.43.0


From edd244266b874f103668c37cd03ace570069b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 009/212] fix: copying references did not count them, causing
 use after free when copying instances with references

---
 src/dlite-entity.c | 5 +++--
 src/dlite-type.c   | 9 ++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 958978e..bd6fcb7 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1336,13 +1336,14 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
       size_t n;
       DLiteInstance **q = (DLiteInstance **)ptr;
       for (n=0; n<nmemb; n++, q++) {
-        const char *ref = (*q)->meta->uri;
+        const char *ref = (*q) ? (*q)->meta->uri : p->ref;
         if (strcmp(ref, p->ref))
           return err(dliteValueError, "Invalid reference. Expected %s, but got %s",
                      p->ref, ref);
       }
     } else {
-      const char *ref = (*(DLiteInstance **)ptr)->meta->uri;
+      const DLiteInstance *q = *(DLiteInstance **)ptr;
+      const char *ref = (q) ? q->meta->uri : p->ref;
       if (strcmp(ref, p->ref))
         return err(dliteValueError, "Invalid reference. Expected %s, but got %s",
                    p->ref, ref);
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 1074272..22182ad 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -565,9 +565,16 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
   case dliteUInt:
   case dliteFloat:
   case dliteFixString:
-  case dliteRef:
     memcpy(dest, src, size);
     break;
+  case dliteRef:
+    {
+      DLiteInstance **d = dest, *old = *d, *s = *(DLiteInstance **)src;
+      if (s) dlite_instance_incref(s);
+      *d = s;
+      if (old) dlite_instance_decref(old);
+    }
+    break;
   case dliteStringPtr:
     {
       char *s = *((char **)src);
-- 
2.43.0


From 8dd45d959dbdbe176e335afea3b1d078f8d9349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 010/212] fix: accessing an unset reference from Python crashed

---
 bindings/python/dlite-python.i | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 223df59..867d580 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -644,6 +644,7 @@ obj_t *dlite_swig_get_scalar(DLiteType type, size_t size, void *data)
   case dliteRef:
     {
       DLiteInstance *inst = *(DLiteInstance **)data;
+      if (!inst) Py_RETURN_NONE;
       if (!(obj = dlite_pyembed_from_instance(inst->uuid))) goto fail;
     }
     break;
-- 
2.43.0


From 7100669f22c8da7ef557be65e6c15e40c3096fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 011/212] fix: dlite_instance_get_dimension_size() failed for
 metadata with more dimensions than properties

---
 src/dlite-entity.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index bd6fcb7..7c9f72c 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1437,7 +1437,6 @@ int dlite_instance_get_dimension_size(const DLiteInstance *inst,
   if (!inst->meta)
     return errx(dliteMissingMetadataError, "no metadata available");
   if ((i = dlite_meta_get_dimension_index(inst->meta, name)) < 0) return -1;
-  assert(i < (int)inst->meta->_nproperties);
   return dlite_instance_get_dimension_size_by_index(inst, i);
 }
 
-- 
2.43.0


From bc4a0436f06ec23092aa022f6470531b34d7db6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 012/212] fix: accessing array properties by negative index
 used the shape of another property

---
 bindings/python/dlite-python.i | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 867d580..da5fea0 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -1067,7 +1067,7 @@ obj_t *dlite_swig_get_property_by_index(DLiteInstance *inst, int i)
     for (j=0; j<p->ndims; j++) {
       if (!p->shape[j])
         FAIL2("missing dimension %d of property %d", j, i);
-      shape[j] = (int)DLITE_PROP_DIM(inst, i, j);
+      shape[j] = (int)DLITE_PROP_DIM(inst, n, j);
     }
     obj = dlite_swig_get_array(inst, p->ndims, shape, p->type, p->size, *ptr);
   }
@@ -1100,7 +1100,7 @@ int dlite_swig_set_property_by_index(DLiteInstance *inst, int i, obj_t *obj)
     for (j=0; j<p->ndims; j++) {
       if (!p->shape[j])
         FAIL2("missing dimension %d of property %d", j, i);
-      shape[j] = (int)DLITE_PROP_DIM(inst, i, j);
+      shape[j] = (int)DLITE_PROP_DIM(inst, n, j);
     }
     if (dlite_swig_set_array(ptr, p->ndims, shape, p->type, p->size, obj))
       goto fail;
-- 
2.43.0


From fe146c9d6d2629ea501acf8fb94ec8d9e851098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 013/212] fix: setting properties and dimensions by index did
 not check the index

---
 src/dlite-entity.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 7c9f72c..e3cae45 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1322,6 +1322,10 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
   size_t nmemb=1;
   int j;
 
+  if (i >= meta->_nproperties)
+    return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
+                (int)i, (int)meta->_nproperties, meta->uri);
+
   if (inst->_flags & dliteImmutable)
     return err(1, "cannot set property on immutable instance: %s",
                (inst->uri) ? inst->uri : inst->uuid);
@@ -1870,7 +1874,10 @@ int dlite_instance_set_dimension_size_by_index(DLiteInstance *inst,
 {
   size_t j;
   int retval;
-  int *dims = malloc(inst->meta->_ndimensions * sizeof(int));
+  int *dims;
+  if (i >= inst->meta->_ndimensions)
+    return errx(dliteIndexError, "invalid dimension index %d", (int)i);
+  dims = malloc(inst->meta->_ndimensions * sizeof(int));
   if (!dims) return err(dliteMemoryError, "allocation failure");
   for (j=0; j < inst->meta->_ndimensions; j++) dims[j] = -1;
   dims[i] = size;
@@ -2868,6 +2875,8 @@ const DLiteDimension *dlite_meta_get_dimension(const DLiteMeta *meta,
 const DLiteProperty *
 dlite_meta_get_property_by_index(const DLiteMeta *meta, size_t i)
 {
+  if (i >= meta->_nproperties)
+    return errx(dliteIndexError, "invalid property index %d", (int)i), NULL;
   return meta->_properties + i;
 }
 
-- 
2.43.0


From a1e0c43464ec0c3740bfdbf1f10ef28d184250d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 014/212] fix: instances with empty arrays could not be copied
 and their properties not be printed

---
 src/dlite-entity.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index e3cae45..7cc06ed 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1309,6 +1309,18 @@ void *dlite_instance_get_property_by_index(const DLiteInstance *inst, size_t i)
 }
 
 
+/*
+  Returns non-zero if property `i` is an array with no elements.  The data
+  pointer of such properties is NULL.
+*/
+static int is_empty_array(const DLiteInstance *inst, size_t i)
+{
+  int j;
+  for (j=0; j < inst->meta->_properties[i].ndims; j++)
+    if (DLITE_PROP_DIM(inst, i, j) == 0) return 1;
+  return 0;
+}
+
 /*
   Copies memory pointed to by `ptr` to property `i`.
   Returns non-zero on error.
@@ -1590,8 +1602,9 @@ int dlite_instance_print_property_by_index(char *dest, size_t n,
   if (i >= inst->meta->_nproperties)
     return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
                 (int)i, (int)inst->meta->_nproperties, inst->meta->uri);
-  if (!(ptr = dlite_instance_get_property_by_index(inst, i))) return -1;
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return -1;
+  if (!(ptr = dlite_instance_get_property_by_index(inst, i)) &&
+      !is_empty_array(inst, i)) return -1;
   shape = DLITE_PROP_DIMS(inst, i);
   assert(shape);
   return dlite_property_print(dest, n, ptr, p, shape, width, prec, flags);
@@ -1633,8 +1646,9 @@ int dlite_instance_aprint_property_by_index(char **dest, size_t *n,
   if (i >= inst->meta->_nproperties)
     return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
                 (int)i, (int)inst->meta->_nproperties, inst->meta->uri);
-  if (!(ptr = dlite_instance_get_property_by_index(inst, i))) return -1;
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return -1;
+  if (!(ptr = dlite_instance_get_property_by_index(inst, i)) &&
+      !is_empty_array(inst, i)) return -1;
   shape = DLITE_PROP_DIMS(inst, i);
   assert(shape);
   return dlite_property_aprint(dest, n, pos, ptr, p, shape, width, prec,
@@ -1672,8 +1686,9 @@ int dlite_instance_scan_property_by_index(const char *src,
   if (i >= inst->meta->_nproperties)
     return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
                 (int)i, (int)inst->meta->_nproperties, inst->meta->uri);
-  if (!(ptr = dlite_instance_get_property_by_index(inst, i))) return -1;
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return -1;
+  if (!(ptr = dlite_instance_get_property_by_index(inst, i)) &&
+      !is_empty_array(inst, i)) return -1;
   shape = DLITE_PROP_DIMS(inst, i);
   assert(shape);
   return dlite_property_scan(src, ptr, p, shape, flags);
@@ -1926,7 +1941,7 @@ DLiteInstance *dlite_instance_copy(const DLiteInstance *inst, const char *newid)
   }
   for (i=0; i < inst->meta->_nproperties; i++) {
     void *src = dlite_instance_get_property_by_index(inst, i);
-    assert(src);
+    if (!src && !is_empty_array(inst, i)) goto fail;
     if (dlite_instance_set_property_by_index(new, i, src)) goto fail;
   }
   return new;
-- 
2.43.0


From 8327784b8dac5732da254d11fca9ef9141e1f786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 015/212] fix: dlite_property_aprint() dereferenced NULL buffer

---
 src/dlite-entity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 7cc06ed..4adc45a 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3192,7 +3192,7 @@ int dlite_property_aprint(char **dest, size_t *n, size_t pos, const void *ptr,
   int m;
   void *q;
   size_t newsize;
-  if (!dest && !*dest) *n = 0;
+  if (!*dest) *n = 0;
   m = dlite_property_print(*dest + pos, PDIFF(*n, pos), ptr, p, shape,
                            width, prec, flags);
   if (m < 0) return m;  /* failure */
-- 
2.43.0


From 115b014a89490b80d9e3568dfc1926d65a11df2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 016/212] fix: count references when assigning reference
 properties (not in dlite_type_copy())

---
 src/dlite-entity.c | 12 +++++++++++-
 src/dlite-type.c   |  9 +--------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 4adc45a..10782b4 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1367,7 +1367,17 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
   }
 
   /* Copy */
-  if (p->ndims > 0) {
+  if (p->type == dliteRef) {
+    size_t n;
+    DLiteInstance **q = (DLiteInstance **)ptr, **d = DLITE_PROP(inst, i);
+    if (p->ndims > 0) d = *(DLiteInstance ***)d;
+    for (n=0; n<nmemb; n++) {
+      DLiteInstance *old = d[n];
+      if (q[n]) dlite_instance_incref(q[n]);
+      d[n] = q[n];
+      if (old) dlite_instance_decref(old);
+    }
+  } else if (p->ndims > 0) {
     size_t n;
     dest = *((void **)DLITE_PROP(inst, i));
     if (dlite_type_is_allocated(p->type)) {
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 22182ad..1074272 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -565,15 +565,8 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
   case dliteUInt:
   case dliteFloat:
   case dliteFixString:
-    memcpy(dest, src, size);
-    break;
   case dliteRef:
-    {
-      DLiteInstance **d = dest, *old = *d, *s = *(DLiteInstance **)src;
-      if (s) dlite_instance_incref(s);
-      *d = s;
-      if (old) dlite_instance_decref(old);
-    }
+    memcpy(dest, src, size);
     break;
   case dliteStringPtr:
     {
-- 
2.43.0


From 75bfba3315668a886b797f1174033615662f4fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 017/212] fix: floats were serialised to JSON and RDF with only
 6 significant digits

---
 src/dlite-entity.c       |  6 ++++--
 src/dlite-entity.h       |  6 ++++--
 src/dlite-json.c         |  2 +-
 src/dlite-type.c         | 35 ++++++++++++++++++++++++++++++++++-
 src/dlite-type.h         |  3 ++-
 storages/rdf/dlite-rdf.c |  2 +-
 6 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 10782b4..92d803e 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1576,7 +1576,8 @@ int dlite_instance_is_metameta(const DLiteInstance *inst)
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.
+  effect, set `width` to zero or `prec` to -2.  If `prec` is -3, floats
+  are written with as many digits as needed to read back the same value.
 
   The `flags` provides some format options.  If zero (default) bools
   and strings are expected to be quoted.
@@ -3166,7 +3167,8 @@ static int writedim(int d, char *dest, size_t n, const void **pptr,
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.
+  effect, set `width` to zero or `prec` to -2.  If `prec` is -3, floats
+  are written with as many digits as needed to read back the same value.
 
   The `flags` provides some format options.  If zero (default) bools
   and strings are quoted.
diff --git a/src/dlite-entity.h b/src/dlite-entity.h
index bae0254..2e14014 100644
--- a/src/dlite-entity.h
+++ b/src/dlite-entity.h
@@ -793,7 +793,8 @@ int dlite_instance_is_metameta(const DLiteInstance *inst);
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.
+  effect, set `width` to zero or `prec` to -2.  If `prec` is -3, floats
+  are written with as many digits as needed to read back the same value.
 
   The `flags` provides some format options.  If zero (default) bools
   and strings are expected to be quoted.
@@ -1428,7 +1429,8 @@ int dlite_property_add_dim(DLiteProperty *prop, const char *expr);
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.
+  effect, set `width` to zero or `prec` to -2.  If `prec` is -3, floats
+  are written with as many digits as needed to read back the same value.
 
   Returns number of bytes written to `dest`.  If the output is
   truncated because it exceeds `n`, the number of bytes that would
diff --git a/src/dlite-json.c b/src/dlite-json.c
index 45c4040..7d84e6d 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -108,7 +108,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       void *ptr = dlite_instance_get_property_by_index(inst, i);
       size_t *shape= DLITE_PROP_DIMS(inst, i);
       PRINT2("%s    \"%s\": ", in, p->name);
-      m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -2, f);
+      m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -3, f);
       if (m < 0) return -1;
       n += m;
       PRINT1("%s\n", c);
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 1074272..45e7fb9 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -698,6 +698,37 @@ static StrquoteFlags as_qflags(DLiteType dtype, DLiteTypeFlag flags)
 /* Expands to `a - b` if `a > b` else to `0`. */
 #define PDIFF(a, b) (((size_t)(a) > (size_t)(b)) ? (a) - (b) : 0)
 
+/* Returns the smallest precision of at least 6 that `%g` needs to represent
+   the float of size `size` pointed to by `p` without loss. */
+static int float_precision(const void *p, size_t size)
+{
+  char buf[64];
+  int prec = 6;
+  if (size == sizeof(float)) {
+    float v, w;
+    memcpy(&v, p, sizeof(v));
+    for (; prec < 9; prec++) {
+      snprintf(buf, sizeof(buf), "%.*g", prec, v);
+      if (sscanf(buf, "%f", &w) == 1 && v == w) break;
+    }
+  } else if (size == sizeof(double)) {
+    double v, w;
+    memcpy(&v, p, sizeof(v));
+    for (; prec < 17; prec++) {
+      snprintf(buf, sizeof(buf), "%.*g", prec, v);
+      if (sscanf(buf, "%lf", &w) == 1 && v == w) break;
+    }
+  } else if (size == sizeof(long double)) {
+    long double v, w;
+    memcpy(&v, p, sizeof(v));
+    for (; prec < 21; prec++) {
+      snprintf(buf, sizeof(buf), "%.*Lg", prec, v);
+      if (sscanf(buf, "%Lf", &w) == 1 && v == w) break;
+    }
+  }
+  return prec;
+}
+
 /*
   Serialises data of type `dtype` and size `size` pointed to by `p`.
   The string representation is written to `dest`.  No more than
@@ -706,7 +737,8 @@ static StrquoteFlags as_qflags(DLiteType dtype, DLiteTypeFlag flags)
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.
+  effect, set `width` to zero or `prec` to -2.  If `prec` is -3, floats
+  are written with as many digits as needed to read back the same value.
 
   Returns number of bytes written to `dest`.  If the output is
   truncated because it exceeds `n`, the number of bytes that would
@@ -786,6 +818,7 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
   case dliteFloat:
     if (w == -1) w = 12;
     if (r == -1) r = 6;
+    if (r == -3) r = float_precision(p, size);
     switch (size) {
     case 4:  m = snprintf(dest, n, "%*.*g",  w, r, *((float32_t *)p)); break;
     case 8:  m = snprintf(dest, n, "%*.*g",  w, r, *((float64_t *)p)); break;
diff --git a/src/dlite-type.h b/src/dlite-type.h
index f2ffc54..2229600 100644
--- a/src/dlite-type.h
+++ b/src/dlite-type.h
@@ -231,7 +231,8 @@ void *dlite_type_clear(void *p, DLiteType dtype, size_t size);
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.
+  effect, set `width` to zero or `prec` to -2.  If `prec` is -3, floats
+  are written with as many digits as needed to read back the same value.
 
   Returns number of bytes written to `dest`.  If the output is
   truncated because it exceeds `n`, the number of bytes that would
diff --git a/storages/rdf/dlite-rdf.c b/storages/rdf/dlite-rdf.c
index cf6a4e9..62392b2 100644
--- a/storages/rdf/dlite-rdf.c
+++ b/storages/rdf/dlite-rdf.c
@@ -658,7 +658,7 @@ int rdf_save_instance(DLiteStorage *storage, const DLiteInstance *inst)
       triplestore_add_uri(ts, b1, "rdf:type", "owl:NamedIndividual");
       triplestore_add_uri(ts, b1, "rdf:type", _P ":PropertyValue");
       triplestore_add(ts, b1, _P ":hasLabel", name, "xsd:Name");
-      dlite_property_aprint(&buf, &bufsize, 0, ptr, p, shape, 0, -2,
+      dlite_property_aprint(&buf, &bufsize, 0, ptr, p, shape, 0, -3,
                             dliteFlagRaw | dliteFlagStrip);
       triplestore_add(ts, b1, _P ":hasValue", buf, "rdf:PlainLiteral");
       free(b1);
-- 
2.43.0


From 28d34ec66134b8e73b3559f16bce59d53be5b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 018/212] fix: quotes, backslashes, control characters and null
 strings were corrupted in JSON

---
 src/dlite-entity.c   | 36 +++++++++++++----
 src/dlite-json.c     | 77 ++++++++++++++++++++++++-----------
 src/dlite-type.c     | 24 ++++++-----
 src/dlite-type.h     |  3 +-
 src/utils/jsmnx.c    | 16 ++++++++
 src/utils/jsmnx.h    |  6 +++
 src/utils/strutils.c | 96 +++++++++++++++++++++++++++++++++++++-------
 src/utils/strutils.h |  3 +-
 8 files changed, 204 insertions(+), 57 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 92d803e..c4c470f 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3222,6 +3222,28 @@ int dlite_property_aprint(char **dest, size_t *n, size_t pos, const void *ptr,
 }
 
 
+/*
+  Scan one value described by `p` from JSON token `t` into `ptr`.  By default
+  (if `flags` is zero), escape sequences in JSON strings are decoded.
+
+  Returns number of characters consumed or a negative number on error.
+*/
+static int scantoken(const char *src, const jsmntok_t *t, void *ptr,
+                     const DLiteProperty *p, DLiteTypeFlag flags)
+{
+  int len = t->end - t->start;
+  if (p->type == dliteStringPtr && t->type == JSMN_PRIMITIVE &&
+      len == 4 && strncmp(src + t->start, "null", 4) == 0) {
+    char **s = ptr;
+    free(*s);
+    *s = NULL;
+    return len;
+  }
+  if (flags == dliteFlagDefault && t->type == JSMN_STRING)
+    flags = dliteFlagUnescape;
+  return dlite_type_scan(src + t->start, len, ptr, p->type, p->size, flags);
+}
+
 /*
   Recursive help function for dlite_property_scan() for handling
   n-dimensional arrays.
@@ -3253,8 +3275,7 @@ static int scandim(int d, const char *src, void **pptr,
       if (scandim(d+1, src, pptr, p, shape, flags, t)) goto fail;
     }
   } else {
-    if ((m = dlite_type_scan(src+(*t)->start, (*t)->end-(*t)->start, *pptr,
-                             p->type, p->size, flags)) < 0) return m;
+    if ((m = scantoken(src, *t, *pptr, p, flags)) < 0) return m;
     *((char **)pptr) += p->size;
     *t += jsmn_count(*t);
   }
@@ -3298,7 +3319,7 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
         if (dim->description) free(dim->description);
         memset(dim, 0, sizeof(DLiteDimension));
         dim->name = strndup(key, keylen);
-        dim->description = strndup(val, len);
+        dim->description = jsmn_strdup(src, item);
       } else if (item->type == JSMN_OBJECT) {
         int i;
         for (i=0; i < item->size; i++, dim++) {
@@ -3308,7 +3329,7 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
           if (dim->description) free(dim->description);
           memset(dim, 0, sizeof(DLiteDimension));
           dim->name = strndup(src + k->start, k->end - k->start);
-          dim->description = strndup(src + v->start, v->end - v->start);
+          dim->description = jsmn_strdup(src, v);
         }
       } else
         return err(dliteValueError,
@@ -3379,10 +3400,10 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
         }
 
         if ((t = jsmn_item(src, v, "unit")))
-          prop->unit = strndup(src + t->start, t->end - t->start);
+          prop->unit = jsmn_strdup(src, t);
 
         if ((t = jsmn_item(src, v, "description")))
-          prop->description = strndup(src + t->start, t->end - t->start);
+          prop->description = jsmn_strdup(src, t);
 
         v += jsmn_count(v) + 1;
       }
@@ -3477,8 +3498,7 @@ int dlite_property_jscan(const char *src, const jsmntok_t *item,
     }
     return len;
   } else {
-    return dlite_type_scan(src + item->start, item->end - item->start,
-                           ptr, p->type, p->size, flags);
+    return scantoken(src, item, ptr, p, flags);
   }
 }
 
diff --git a/src/dlite-json.c b/src/dlite-json.c
index 7d84e6d..b0566b8 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -52,6 +52,15 @@
   } while (0)
 
 
+/* Prints `s` as a quoted and escaped JSON string. */
+#define PRINTSTR(s)                                     \
+  do {                                                  \
+    int m = strquote(dest+n, PDIFF(size, n), s);        \
+    if (m < 0) goto fail;                               \
+    n += m;                                             \
+  } while (0)
+
+
 /* Forward declarations */
 static const jsmntok_t *nexttok(DLiteJsonIter *iter, int *length);
 
@@ -82,8 +91,11 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
   in[indent] = '\0';
 
   PRINT1("%s{\n", in);
-  if (inst->uri)
-    PRINT2("%s  \"uri\": \"%s\",\n", in, inst->uri);
+  if (inst->uri) {
+    PRINT1("%s  \"uri\": ", in);
+    PRINTSTR(inst->uri);
+    PRINT(",\n");
+  }
   if (flags & dliteJsonWithUuid)
     PRINT2("%s  \"uuid\": \"%s\",\n", in, inst->uuid);
   if (flags & dliteJsonWithMeta ||
@@ -119,8 +131,11 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     DLiteMeta *met = (DLiteMeta *)inst;
     char *description =
       *((char **)dlite_instance_get_property(inst, "description"));
-    if (description)
-      PRINT2("%s  \"description\": \"%s\",\n", in, description);
+    if (description) {
+      PRINT1("%s  \"description\": ", in);
+      PRINTSTR(description);
+      PRINT(",\n");
+    }
 
     PRINT1("%s  \"dimensions\": [\n", in);
     for (i=0; i < met->_ndimensions; i++) {
@@ -128,8 +143,11 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       DLiteDimension *d = met->_dimensions + i;
       PRINT1("%s    {\n", in);
       PRINT2("%s      \"name\": \"%s\"", in, d->name);
-      if (d->description)
-        PRINT2(",\n%s      \"description\": \"%s\"\n", in, d->description);
+      if (d->description) {
+        PRINT1(",\n%s      \"description\": ", in);
+        PRINTSTR(d->description);
+        PRINT("\n");
+      }
       PRINT2("%s    }%s\n", in, c);
     }
     PRINT1("%s  ],\n", in);
@@ -153,10 +171,14 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
         }
         PRINT("]");
       }
-      if (p->unit && *p->unit)
-        PRINT2(",\n%s      \"unit\": \"%s\"", in, p->unit);
-      if (p->description && *p->description)
-        PRINT2(",\n%s      \"description\": \"%s\"", in, p->description);
+      if (p->unit && *p->unit) {
+        PRINT1(",\n%s      \"unit\": ", in);
+        PRINTSTR(p->unit);
+      }
+      if (p->description && *p->description) {
+        PRINT1(",\n%s      \"description\": ", in);
+        PRINTSTR(p->description);
+      }
       PRINT2("\n%s    }%s\n", in, c);
     }
     PRINT1("%s  ]\n", in);
@@ -189,14 +211,19 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     char *description =
       *((char **)dlite_instance_get_property(inst, "description"));
 
-    if (description)
-      PRINT2("%s  \"description\": \"%s\",\n", in, description);
+    if (description) {
+      PRINT1("%s  \"description\": ", in);
+      PRINTSTR(description);
+      PRINT(",\n");
+    }
 
     PRINT1("%s  \"dimensions\": {\n", in);
     for (i=0; i < met->_ndimensions; i++) {
       char *c = (i < met->_ndimensions - 1) ? "," : "";
       DLiteDimension *d = met->_dimensions + i;
-      PRINT4("%s    \"%s\": \"%s\"%s\n", in, d->name, d->description, c);
+      PRINT2("%s    \"%s\": ", in, d->name);
+      PRINTSTR((d->description) ? d->description : "");
+      PRINT1("%s\n", c);
     }
     PRINT1("%s  },\n", in);
 
@@ -218,10 +245,14 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
         }
         PRINT("]");
       }
-      if (p->unit && *p->unit)
-        PRINT2(",\n%s      \"unit\": \"%s\"", in, p->unit);
-      if (p->description && *p->description)
-        PRINT2(",\n%s      \"description\": \"%s\"", in, p->description);
+      if (p->unit && *p->unit) {
+        PRINT1(",\n%s      \"unit\": ", in);
+        PRINTSTR(p->unit);
+      }
+      if (p->description && *p->description) {
+        PRINT1(",\n%s      \"description\": ", in);
+        PRINTSTR(p->description);
+      }
       PRINT2("\n%s    }%s\n", in, c);
     }
     PRINT1("%s  }\n", in);
@@ -293,8 +324,9 @@ int dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     memset(in, ' ', indent);
     in[indent] = '\0';
     PRINT1("%s{\n", in);
-    PRINT2("%s  \"%s\":", in,
-           (flags & dliteJsonUriKey && inst->uri) ? inst->uri : inst->uuid);
+    PRINT1("%s  ", in);
+    PRINTSTR((flags & dliteJsonUriKey && inst->uri) ? inst->uri : inst->uuid);
+    PRINT(":");
     if ((m = _dlite_json_sprint(dest+n, PDIFF(size, n), inst, indent+2, flags)) < 0)
       goto fail;
     n += m;
@@ -490,9 +522,9 @@ static char *get_uri(const char *src, const jsmntok_t *obj)
 {
   const jsmntok_t *t, *t1, *t2, *t3;
   if ((t = jsmn_item(src, obj, "uri")))
-    return strndup(src + t->start, t->end - t->start);
+    return jsmn_strdup(src, t);
   if ((t = jsmn_item(src, obj, "identity")))
-    return strndup(src + t->start, t->end - t->start);
+    return jsmn_strdup(src, t);
   if ((t1 = jsmn_item(src, obj, "name")) &&
       (t2 = jsmn_item(src, obj, "version")) &&
       (t3 = jsmn_item(src, obj, "namespace"))) {
@@ -718,8 +750,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
         } else {
           if (!ptr)
             FAIL1("cannot assign property with NULL destination: %s", p->name);
-          if (dlite_type_scan(src+t->start, t->end - t->start, ptr, p->type,
-                              p->size, 0) < 0)
+          if (dlite_property_jscan(src, t, NULL, ptr, p, pdims, 0) < 0)
             goto fail;
         }
       } else if (dlite_instance_is_meta(inst)) {
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 45e7fb9..641207a 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -688,6 +688,7 @@ static StrquoteFlags as_qflags(DLiteType dtype, DLiteTypeFlag flags)
   UNUSED(dtype);
   int flg=0;
   if (flags == dliteFlagDefault) return strquoteRaw;
+  if (flags & dliteFlagUnescape) return strquoteInitialBlanks | strquoteNoQuote;
   if (flags & dliteFlagRaw)    flg |= strquoteRaw;
   if (flags & dliteFlagQuoted) flg |= 0;
   if (flags & dliteFlagStrip)  flg |= strquoteNoQuote | strquoteNoEscape;
@@ -862,9 +863,11 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
     break;
 
   case dliteDimension:
-    m = snprintf(dest, n, "{\"name\": \"%s\", \"description\": \"%s\"}",
-                 ((DLiteDimension *)p)->name,
-                 ((DLiteDimension *)p)->description);
+    m = snprintf(dest, n, "{\"name\": \"%s\", \"description\": ",
+                 ((DLiteDimension *)p)->name);
+    m += strquote(dest+m, PDIFF(n, m), (((DLiteDimension *)p)->description) ?
+                  ((DLiteDimension *)p)->description : "");
+    m += snprintf(dest+m, PDIFF(n, m), "}");
     break;
 
   case dliteProperty:
@@ -887,10 +890,11 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
         m += snprintf(dest+m, PDIFF(n, m), "]");
       }
       if (prop->unit && *prop->unit)
-        m += snprintf(dest+m, PDIFF(n, m), ", \"unit\": \"%s\"", prop->unit);
+        m += snprintf(dest+m, PDIFF(n, m), ", \"unit\": "),
+          m += strquote(dest+m, PDIFF(n, m), prop->unit);
       if (prop->description && *prop->description)
-        m += snprintf(dest+m, PDIFF(n, m), ", \"description\": \"%s\"",
-                      prop->description);
+        m += snprintf(dest+m, PDIFF(n, m), ", \"description\": "),
+          m += strquote(dest+m, PDIFF(n, m), prop->description);
       m += snprintf(dest+m, PDIFF(n, m), "}");
     }
     break;
@@ -1109,7 +1113,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       assert(n >= 0);
       if (!(q = realloc(*((char **)p), n+1)))
         return err(dliteMemoryError, "allocation failure");
-      n = strunquote(q, n+1, src, NULL, qflags);
+      n = strnunquote(q, n+1, src, len, NULL, qflags);
       assert(n >= 0);
       *(char **)p = q;
     }
@@ -1165,7 +1169,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
         return err(dliteValueError, "missing dimension name: '%s'", src);
       dim->name = strndup(src + t->start, t->end - t->start);
       if ((t = jsmn_item(src, tokens, "description")))
-        dim->description = strndup(src + t->start, t->end - t->start);
+        dim->description = jsmn_strdup(src, t);
     }
     break;
 
@@ -1223,10 +1227,10 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       }
 
       if ((t = jsmn_item(src, tokens, "unit")))
-        prop->unit = strndup(src + t->start, t->end - t->start);
+        prop->unit = jsmn_strdup(src, t);
 
       if ((t = jsmn_item(src, tokens, "description")))
-        prop->description = strndup(src + t->start, t->end - t->start);
+        prop->description = jsmn_strdup(src, t);
     }
     break;
 
diff --git a/src/dlite-type.h b/src/dlite-type.h
index 2229600..cc5a635 100644
--- a/src/dlite-type.h
+++ b/src/dlite-type.h
@@ -111,7 +111,8 @@ typedef enum _DLiteTypeFlag {
   dliteFlagRaw=1,        /*!< Raw unquoted input/output */
   dliteFlagQuoted=2,     /*!< Quoted input/output */
   dliteFlagStrip=4,      /*!< Strip initial and final spaces */
-  dliteFlagCompactRel=8  /*!< Write relations with no newlines */
+  dliteFlagCompactRel=8, /*!< Write relations with no newlines */
+  dliteFlagUnescape=16   /*!< Unquoted input with JSON escape sequences */
 } DLiteTypeFlag;
 
 
diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index aa3831a..83ae176 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -10,6 +10,7 @@
 #include <string.h>
 
 #include "err.h"
+#include "strutils.h"
 
 /* Include the jsmn.h header without defining JSMN_HEADER defined.
    This defines all functions in jsmn. */
@@ -185,3 +186,18 @@ const char *jsmn_strerror(int r)
     return "unknown error";
   }
 }
+
+
+/*
+  Returns a newly allocated copy of the text of JSON token `t`, with JSON
+  escape sequences decoded.  Returns NULL on error.
+*/
+char *jsmn_strdup(const char *js, const jsmntok_t *t)
+{
+  char *s=NULL;
+  size_t size=0;
+  if (strnput_unquote(&s, &size, 0, js + t->start, t->end - t->start, NULL,
+                      strquoteInitialBlanks | strquoteNoQuote) < 0)
+    return NULL;
+  return s;
+}
diff --git a/src/utils/jsmnx.h b/src/utils/jsmnx.h
index ce494d1..d4c2a0a 100644
--- a/src/utils/jsmnx.h
+++ b/src/utils/jsmnx.h
@@ -119,5 +119,11 @@ const jsmntok_t *jsmn_element(const char *js, const jsmntok_t *t, int i);
  */
 const char *jsmn_strerror(int r);
 
+/**
+  Returns a newly allocated copy of the text of JSON token `t`, with JSON
+  escape sequences decoded.  Returns NULL on error.
+*/
+char *jsmn_strdup(const char *js, const jsmntok_t *t);
+
 
 #endif /* JSMNX_H */
diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 414010f..533ed5b 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -14,6 +14,7 @@
 #include "integers.h"
 #include "compat.h"
 #include "clp2.h"
+#include "unicode.h"
 #include "strutils.h"
 
 
@@ -246,7 +247,8 @@ int strnput_escape(char **destp, size_t *sizep, size_t pos,
 /*
   Double-quote input string `s` and write it to `dest`.
 
-  Embedded double-quotes are escaped with backslash. At most `size`
+  Embedded double-quotes, backslashes and control characters are
+  escaped with backslash as in JSON. At most `size`
   characters are written to `dest` (including terminating NUL).
 
   If `s` is NULL, this function will behave similarly to snprintf(),
@@ -284,14 +286,26 @@ int strnquote(char *dest, size_t size, const char *s, int n,
        If `n` is positive, consume at most `n` characters from `s`. */
     while (s[j] && (n < 0 || (int)j < n)) {
 
-      /* Add backslash (escape) in front of double-quote characters
-         when copying to `dest` */
-      if (s[j] == '"' && !(flags & strquoteNoEscape)) {
-        if (size > i) dest[i] = '\\';
-        i++;
+      /* Escape double-quotes, backslashes and control characters (as in
+         JSON) when copying to `dest` */
+      char esc[8] = {s[j], '\0'};
+      const char *q = esc;
+      if (!(flags & strquoteNoEscape)) {
+        switch (s[j]) {
+        case '"':  q = "\\\"";  break;
+        case '\\': q = "\\\\";  break;
+        case '\b': q = "\\b";  break;
+        case '\f': q = "\\f";  break;
+        case '\n': q = "\\n";  break;
+        case '\r': q = "\\r";  break;
+        case '\t': q = "\\t";  break;
+        default:
+          if ((unsigned char)s[j] < 0x20)
+            snprintf(esc, sizeof(esc), "\\u%04x", (unsigned char)s[j]);
+        }
       }
-      if (size > i) dest[i] = s[j];
-      i++;
+      for (; *q; q++, i++)
+        if (size > i) dest[i] = *q;
       j++;
     }
 
@@ -343,6 +357,53 @@ int strunquote(char *dest, size_t size, const char *s,
 }
 
 
+/*
+  Reads the `n` hex digits in `s`.  Returns -1 if they are not all hex digits.
+*/
+static long hexdigits(const char *s, size_t n)
+{
+  long v=0;
+  size_t i;
+  for (i=0; i<n; i++) {
+    if (!isxdigit((unsigned char)s[i])) return -1;
+    v = v*16 + (isdigit((unsigned char)s[i]) ? s[i] - '0' :
+                tolower((unsigned char)s[i]) - 'a' + 10);
+  }
+  return v;
+}
+
+/*
+  Decodes the (JSON) escape sequence that `s` starts with.  No more than `n`
+  characters are read from `s`.
+
+  The (UTF-8 encoded) decoded bytes are written to `dest` and their number to
+  `len`.  Returns the number of characters consumed from `s`.  An unknown
+  escape sequence stands for itself.
+*/
+static size_t unescape(char dest[8], size_t *len, const char *s, size_t n)
+{
+  static const char codes[]="\"\\/bfnrt", values[]="\"\\/\b\f\n\r\t";
+  const char *p;
+  long v, w;
+  size_t m=6;
+  *len = 1;
+  dest[0] = s[0];
+  if (n < 2 || !s[1]) return 1;
+  if ((p = strchr(codes, s[1]))) {
+    dest[0] = values[p - codes];
+    return 2;
+  }
+  if (s[1] != 'u' || n < 6 || (v = hexdigits(s+2, 4)) <= 0) return 1;
+  if (v >= 0xD800 && v < 0xE000) {  // surrogate pair
+    if (v >= 0xDC00 || n < 12 || s[6] != '\\' || s[7] != 'u') return 1;
+    if ((w = hexdigits(s+8, 4)) < 0xDC00 || w >= 0xE000) return 1;
+    v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
+    m = 12;
+  }
+  *len = utf8encode(v, dest);
+  return m;
+}
+
 /*
   Like strunquote(), but if `n` is non-negative, at most `n` bytes are
   read from `s`.
@@ -353,18 +414,25 @@ int strunquote(char *dest, size_t size, const char *s,
 int strnunquote(char *dest, size_t size, const char *s, int n,
                int *consumed, StrquoteFlags flags)
 {
-  size_t i=0, j=0;
+  size_t i=0, j=0, k, m;
   if (!dest) size = 0;
   if (!size) dest = NULL;
   if (!(flags && strquoteInitialBlanks))
     while (isspace(s[j])) j++;
   if (!(flags & strquoteNoQuote) && s[j++] != '"') return -1;
   while (s[j] && ((flags & strquoteNoQuote) || s[j] != '"')) {
-    if (!(flags & strquoteNoEscape) && s[j] == '\\' && s[j+1] == '"') j++;
-    if (n >= 0 && (int)j >= n) break;
-    if (dest && size > i) dest[i] = s[j];
-    i++;
-    j++;
+    char c[8];
+    size_t left = (n >= 0) ? PDIFF(n, j) : strnlen(s+j, 12);
+    if (!left) break;
+    if (!(flags & strquoteNoEscape) && s[j] == '\\') {
+      m = unescape(c, &k, s+j, left);
+    } else {
+      c[0] = s[j];
+      k = m = 1;
+    }
+    j += m;
+    for (m=0; m<k; m++, i++)
+      if (dest && size > i) dest[i] = c[m];
   }
   if (dest) dest[(size > i) ? i : size-1] = '\0';
   if (!(flags & strquoteNoQuote) && s[j++] != '"') return -2;
diff --git a/src/utils/strutils.h b/src/utils/strutils.h
index bfce51a..4ce4604 100644
--- a/src/utils/strutils.h
+++ b/src/utils/strutils.h
@@ -143,7 +143,8 @@ int strnput_escape(char **destp, size_t *sizep, size_t pos,
 /**
   Double-quote input string `s` and write it to `dest`.
 
-  Embedded double-quotes are escaped with backslash. At most size
+  Embedded double-quotes, backslashes and control characters are
+  escaped with backslash as in JSON. At most size
   characters are written to `dest` (including terminating NUL).
 
   Returns number of characters written to `dest` (excluding
-- 
2.43.0


From 4ca48e98f334ee58cebad2b46febc8378880654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 019/212] fix: abbreviated type names were accepted as
 arbitrary types

---
 src/dlite-type.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 641207a..efdf624 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -494,7 +494,8 @@ int dlite_type_set_dtype_and_size(const char *typename,
 
   /* Check if typename is a fixed-sized type listed in the type table */
   for (i=0; type_table[i].typename; i++) {
-    if (strncmp(typename, type_table[i].typename, len) == 0) {
+    if (strlen(type_table[i].typename) == len &&
+        strncmp(typename, type_table[i].typename, len) == 0) {
       *dtype = type_table[i].dtype;
       *size = type_table[i].size;
       return 0;
-- 
2.43.0


From d24f971b5dfed26d49c6bc0a202550332d9f0262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 020/212] fix: strtob() did not set endptr for empty strings

---
 src/utils/strtob.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/strtob.c b/src/utils/strtob.c
index 7d4d47e..21d02a6 100644
--- a/src/utils/strtob.c
+++ b/src/utils/strtob.c
@@ -16,7 +16,10 @@ int strtob(const char *ptr, char **endptr)
   char *falsevals[] = {"0", "false", ".false.", "no", "off", NULL};
   char **q, *p = (char *)ptr;
 
-  if (!p || !*p) return 0;
+  if (!p || !*p) {
+    if (endptr) *endptr = p;
+    return 0;
+  }
   p += strspn(p, " \t\n\v\f\r");
   for (q=truevals; *q; q++) {
     size_t n = strlen(*q);
-- 
2.43.0


From e26328cb1b3ffedc1042dd7859f3c2998972e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 021/212] fix: UUIDs were not recognised as reference types
 (length passed as 0)

---
 src/dlite-type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index efdf624..952b483 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -108,7 +108,7 @@ static int is_metaref(const char *dtypename)
        strncmp(dtypename, "https://", 8) == 0 ||
        strncmp(dtypename, "ftp://", 6) == 0) &&
       dlite_split_meta_uri(dtypename, NULL, NULL, NULL) == 0) return 1;
-  if (uuid_from_string(NULL, dtypename, 0) == 0) return 1;
+  if (strlen(dtypename) == DLITE_UUID_LENGTH && isuuid(dtypename)) return 1;
   return 0;
 }
 
-- 
2.43.0


From f6b00c54576c0786b7f376428e9391becd3a341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 022/212] fix: errors in all but the last shape expression of a
 property, and negative sizes, were ignored

---
 src/dlite-entity.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index c4c470f..a8ee10a 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -394,10 +394,14 @@ static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
     DLiteProperty *p = meta->_properties + i;
     int j;
     char errmsg[256] = "";
-    for (j=0; j < p->ndims; j++)
-      propdims[n++] = infixcalc(p->shape[j], vars, meta->_ndimensions,
-                                errmsg, sizeof(errmsg));
-    if (errmsg[0]) FAILCODE1(dliteSyntaxError, "invalid property dimension expression: %s", errmsg);
+    for (j=0; j < p->ndims; j++) {
+      int size = infixcalc(p->shape[j], vars, meta->_ndimensions,
+                           errmsg, sizeof(errmsg));
+      if (errmsg[0]) FAILCODE1(dliteSyntaxError, "invalid property dimension expression: %s", errmsg);
+      if (size < 0) FAILCODE3(dliteValueError, "negative size of property \"%s\": %s = %d",
+                              p->name, p->shape[j], size);
+      propdims[n++] = size;
+    }
   }
   assert(n == meta->_npropdims);
 
-- 
2.43.0


From aac1af3df40af8f5125859b7a514a0be7c03e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 023/212] fix: failing to create an existing instance with
 other dimensions leaked a reference, other metadata was accepted

---
 src/dlite-entity.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index a8ee10a..377828d 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -428,17 +428,22 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
   /* Check if we are trying to create an instance with an already
      existing id. */
   if (lookup && id && *id && (inst = _instance_store_get(id))) {
-    dlite_instance_incref(inst);
-    warn("trying to create new instance with id '%s' - creates a new "
-        "reference instead (refcount=%d)", id, inst->_refcount);
+
+    /* Check that the existing instance has the same metadata. */
+    if (strcmp(inst->meta->uuid, meta->uuid))
+      return err(dliteValueError, "trying to create instance with id '%s' of metadata %s "
+                 "but existing instance has metadata %s", id, meta->uri, inst->meta->uri), NULL;
 
     /* Check that `dims` corresponds to the dims of the existing instance. */
     for (i=0; i < meta->_ndimensions; i++) {
       if (dims[i] != dlite_instance_get_dimension_size_by_index(inst, i))
-        FAILCODE3(dliteIndexError, "mismatch of dimension %d. Trying to create with size %d "
+        return err(dliteIndexError, "mismatch of dimension %d. Trying to create with size %d "
               "but existing instance has size %d", (int)i, (int)dims[i],
-              (int)dlite_instance_get_dimension_size_by_index(inst, i));
+              (int)dlite_instance_get_dimension_size_by_index(inst, i)), NULL;
     }
+    dlite_instance_incref(inst);
+    warn("trying to create new instance with id '%s' - creates a new "
+        "reference instead (refcount=%d)", id, inst->_refcount);
     return inst;
   }
 
-- 
2.43.0


From f0cf80c1a9ced442e9f8fcd8536f33788a42d919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 024/212] fix: loading instances leaked references to metadata
 on errors and to the source when mapping

---
 src/dlite-entity.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 377828d..0c29b2a 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -916,7 +916,7 @@ DLiteInstance *dlite_instance_load_url(const char *url)
 DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
                                      const char *metaid, int lookup)
 {
-  DLiteMeta *meta;
+  DLiteMeta *meta=NULL;
   DLiteInstance *inst=NULL, *instance=NULL;
   DLiteDataModel *d=NULL;
   size_t i, *dims=NULL;
@@ -936,9 +936,11 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   /* check if storage implements the instance api */
   if (s->api->loadInstance) {
     if (!(inst = dlite_storage_load(s, id))) goto fail;
-    if (metaid)
-      return dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
-    else
+    if (metaid) {
+      instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
+      dlite_instance_decref(inst);
+      return instance;
+    } else
       return inst;
   }
 
@@ -953,7 +955,7 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
 
   /* ...otherwise try to load it from storage */
   if (!meta) {
-    char uuid[DLITE_UUID_LENGTH];
+    char uuid[DLITE_UUID_LENGTH+1];
     dlite_get_uuid(uuid, uri);
     meta = (DLiteMeta *)dlite_instance_load(s, uuid);
   }
@@ -988,10 +990,11 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
    */
   if (!(inst = _instance_create(meta, dims, id, lookup))) goto fail;
   dlite_meta_decref(meta);
+  meta = NULL;
 
   /* assign properties */
-  for (i=0; i<meta->_nproperties; i++) {
-    DLiteProperty *p = (DLiteProperty *)meta->_properties + i;
+  for (i=0; i<inst->meta->_nproperties; i++) {
+    DLiteProperty *p = (DLiteProperty *)inst->meta->_properties + i;
     void *ptr = (void *)dlite_instance_get_property_by_index(inst, i);
     size_t *pdims = DLITE_PROP_DIMS(inst, i);
     if (dlite_datamodel_get_property(d, p->name, ptr, p->type, p->size,
@@ -1023,12 +1026,15 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   }
 
   /* cast if `metaid` is not NULL */
-  if (inst && metaid)
+  if (inst && metaid) {
     instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
-  else
+    dlite_instance_decref(inst);
+    inst = instance;
+  } else
     instance = inst;
 
  fail:
+  if (meta) dlite_meta_decref(meta);
   if (!inst && !err_geteval())
     err(dliteIOError, "cannot load id '%s' from storage '%s'", id, s->location);
   if (!instance && inst) dlite_instance_decref(inst);
-- 
2.43.0


From ba851acfa0a593f223de50ad0f3bb845aecb5d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 025/212] fix: resizing to sizes that overflow or cannot be
 allocated corrupted the instance

---
 src/dlite-entity.c | 102 +++++++++++++++++++++++++--------------------
 1 file changed, 57 insertions(+), 45 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 0c29b2a..871440f 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -412,6 +412,26 @@ static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
 }
 
 
+/*
+  Help function that returns the number of members of property `i`.  Sets
+  `*overflow` to non-zero if the size of the property cannot be represented.
+ */
+static size_t _prop_nmemb(const DLiteInstance *inst, size_t i, int *overflow)
+{
+  DLiteProperty *p = DLITE_PROP_DESCR(inst, i);
+  size_t nmemb=1, max = (p->size) ? PTRDIFF_MAX / p->size : PTRDIFF_MAX;
+  int j;
+  for (j=0; j<p->ndims; j++)
+    if (DLITE_PROP_DIM(inst, i, j) == 0) return 0;
+  for (j=0; j<p->ndims; j++) {
+    size_t n = DLITE_PROP_DIM(inst, i, j);
+    if (nmemb > max / n) *overflow = 1;
+    nmemb *= n;
+  }
+  return nmemb;
+}
+
+
 /*
   Help function for dlite_instance_create().  If `lookup` is true,
   a check will be done to see if the instance already exists.
@@ -423,7 +443,7 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
   char uuid[DLITE_UUID_LENGTH+1];
   size_t i, size;
   DLiteInstance *inst=NULL;
-  int j, idtype;
+  int idtype;
 
   /* Check if we are trying to create an instance with an already
      existing id. */
@@ -476,11 +496,11 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
     DLiteProperty *p = DLITE_PROP_DESCR(inst, i);
     void **ptr = DLITE_PROP(inst, i);
     if (p->ndims > 0 && p->shape) {
-      size_t nmemb=1, size=p->size;
-      for (j=0; j<p->ndims; j++)
-        nmemb *= DLITE_PROP_DIM(inst, i, j);
+      int overflow=0;
+      size_t nmemb = _prop_nmemb(inst, i, &overflow);
       if (nmemb > 0) {
-        if (!(*ptr = calloc(nmemb, size))) goto fail;
+        if (overflow || !(*ptr = calloc(nmemb, p->size)))
+          FAILCODE1(dliteMemoryError, "cannot allocate property \"%s\"", p->name);
       } else {
         *ptr = NULL;
       }
@@ -1813,11 +1833,11 @@ int dlite_instance_sync_from_properties(DLiteInstance *inst)
  */
 int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
 {
-  int retval=1, i;
-  size_t n;
+  int retval=1, overflow=0, grow;
+  size_t i, n;
   size_t *xdims=NULL;
   size_t *oldpropdims=NULL;
-  int *oldmembs=NULL;
+  size_t *oldmembs=NULL;
 
   if (inst->_flags & dliteImmutable)
     return err(1, "cannot set property on immutable instance: %s",
@@ -1841,51 +1861,43 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
   memcpy(oldpropdims, DLITE_PROP_DIMS(inst, 0),
          inst->meta->_npropdims * sizeof(size_t));
 
-  if (!(oldmembs = calloc(inst->meta->_nproperties, sizeof(int))))
+  if (!(oldmembs = calloc(inst->meta->_nproperties, sizeof(size_t))))
     FAILCODE(dliteMemoryError, "Allocation failure");
-  for (n=0; n < inst->meta->_nproperties; n++) {
-    DLiteProperty *p = inst->meta->_properties + n;
-    oldmembs[n] = 1;
-    for (i=0; i < p->ndims; i++)
-      oldmembs[n] *= DLITE_PROP_DIM(inst, n, i);
-  }
+  for (n=0; n < inst->meta->_nproperties; n++)
+    oldmembs[n] = _prop_nmemb(inst, n, &overflow);
 
   /* evaluate new propdims */
   if (_instance_propdims_eval(inst, xdims)) goto fail;
 
-  /* reallocate properties */
-  for (n=0; n < inst->meta->_nproperties; n++) {
-    DLiteProperty *p = inst->meta->_properties + n;
-    int newmembs=1, oldsize, newsize;
-    void **ptr = DLITE_PROP(inst, n);
-    if (p->ndims <= 0) continue;
-    for (i=0; i < p->ndims; i++)
-      newmembs *= DLITE_PROP_DIM(inst, n, i);
-
-    oldsize = oldmembs[n] * p->size;
-    newsize = newmembs * p->size;
-    if (newmembs == oldmembs[n]) {
-      continue;
-    } else if (newmembs > 0) {
-      void **q;
-      if (newmembs < oldmembs[n])
+  /* reallocate properties - first those that grow, such that the instance is
+     unchanged if there is not enough memory, then those that shrink */
+  for (grow=1; grow >= 0; grow--) {
+    for (n=0; n < inst->meta->_nproperties; n++) {
+      DLiteProperty *p = inst->meta->_properties + n;
+      size_t newmembs, oldsize, newsize;
+      void *q, **ptr = DLITE_PROP(inst, n);
+      if (p->ndims <= 0) continue;
+
+      newmembs = _prop_nmemb(inst, n, &overflow);
+      oldsize = oldmembs[n] * p->size;
+      newsize = newmembs * p->size;
+      if (newmembs == oldmembs[n] || grow != (newmembs > oldmembs[n])) {
+        continue;
+      } else if (grow) {
+        if (overflow || !(q = realloc(*ptr, newsize)))
+          FAILCODE1(dliteMemoryError, "cannot reallocate property \"%s\"", p->name);
+        *ptr = q;
+        memset((char *)(*ptr) + oldsize, 0, newsize - oldsize);
+      } else {
         for (i=newmembs; i < oldmembs[n]; i++)
           dlite_type_clear((char *)(*ptr) + i*p->size, p->type, p->size);
-      if (!(q = realloc(*ptr, newsize))) {
-        free(*ptr);
-        return err(dliteMemoryError, "error reallocating '%s' to size %d", p->name, newsize);
+        if (newmembs == 0) {
+          free(*ptr);
+          *ptr = NULL;
+        } else if ((q = realloc(*ptr, newsize))) {
+          *ptr = q;
+        }
       }
-      *ptr = q;
-
-      if (newmembs > oldmembs[n])
-        memset((char *)(*ptr) + oldsize, 0, newsize - oldsize);
-    } else if (*ptr) {
-      for (i=0; i < oldmembs[n]; i++)
-        dlite_type_clear((char *)(*ptr) + i*p->size, p->type, p->size);
-      free(*ptr);
-      *ptr = NULL;
-    } else {
-      assert(oldsize == 0);
     }
   }
 
-- 
2.43.0


From de83c605df37b9a9b8e12be8c1b55eaae914b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 026/212] fix: replacing a value in a metadata model wrote and
 read beyond its array of values

---
 src/dlite-entity.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 871440f..6c1fc5c 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3684,7 +3684,7 @@ int dlite_metamodel_set_value(DLiteMetaModel *model, const char *name,
     if (!(model->values = realloc(model->values,
                                   sizeof(Value)*(model->nvalues+1))))
       FAILCODE(dliteMemoryError, "allocation failure");
-    v = model->values + model->nvalues;
+    v = model->values + model->nvalues++;
   }
   memset(v, 0, sizeof(Value));
 
@@ -3692,7 +3692,6 @@ int dlite_metamodel_set_value(DLiteMetaModel *model, const char *name,
     FAILCODE(dliteMemoryError, "allocation failure");
   v->data = (void *)value;
 
-  model->nvalues++;
   return 0;
  fail:
   return 1;
-- 
2.43.0


From 8807df4dac0ba2d76f3a1495a050722028e92959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 027/212] fix: freeing a metadata model leaked its dimensions
 and properties

---
 src/dlite-entity.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 6c1fc5c..06256ac 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3612,6 +3612,10 @@ void dlite_metamodel_free(DLiteMetaModel *model)
     }
   }
   if (model->values) free(model->values);
+  for (i=0; i < model->ndims; i++)
+    dlite_type_clear(model->dims + i, dliteDimension, sizeof(DLiteDimension));
+  for (i=0; i < model->nprops; i++)
+    dlite_type_clear(model->props + i, dliteProperty, sizeof(DLiteProperty));
   if (model->dims) free(model->dims);
   if (model->props) free(model->props);
   if (model->rels) free(model->rels);
-- 
2.43.0


From c95c97e3c65178c6ae751c62fb64498634723c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 028/212] fix: failing to create already existing metadata
 dropped a reference to the existing metadata

---
 src/dlite-entity.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 06256ac..b81e214 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2618,14 +2618,14 @@ dlite_meta_create(const char *uri, const char *description,
   if ((e = dlite_instance_has(uri, 0))) {
     DLiteMeta *meta = (DLiteMeta *)e;
     if (!dlite_instance_is_meta(e))
-      FAILCODE1(dliteMetadataExistError,
-                "cannot create metadata \"%s\" since it already exists as a "
-                "non-metadata instance", uri);
+      return err(dliteMetadataExistError,
+                 "cannot create metadata \"%s\" since it already exists as a "
+                 "non-metadata instance", uri), NULL;
     if (meta->_ndimensions != ndimensions ||
         meta->_nproperties != nproperties)
-      FAILCODE1(dliteMetadataExistError,
-                "cannot create metadata \"%s\" since it already exists with "
-                "different number of dimensions and/or properties", uri);
+      return err(dliteMetadataExistError,
+                 "cannot create metadata \"%s\" since it already exists with "
+                 "different number of dimensions and/or properties", uri), NULL;
     // TODO: check that dimensions and properties matches
     dlite_meta_incref(meta);
     return meta;
-- 
2.43.0


From eaf1f1339686f29a17ebc2dd1c391bd6f13a1f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 029/212] fix: dlite_type_ndcast() shared allocated elements,
 read strides out of bounds and wrote to empty arrays

---
 src/dlite-type.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 952b483..63ad94b 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1473,13 +1473,14 @@ int dlite_type_ndcast(int ndims,
   size_t *sidx=NULL, *didx=NULL;
   size_t j, n, N=1;
 
-  assert(src);
-  assert(dest);
   if (!castfun) castfun = dlite_type_copy_cast;
 
   /* Scalar */
-  if (ndims == 0)
+  if (ndims == 0) {
+    assert(src);
+    assert(dest);
     return castfun(dest, dest_type, dest_size, src, src_type, src_size);
+  }
 
   assert(src_dims);
   assert(dest_dims);
@@ -1492,6 +1493,9 @@ int dlite_type_ndcast(int ndims,
   if (n != N)
     return err(dliteIndexError, "incompatible sizes of dimension %d for source (%lu) and dest (%lu)", i,
                (unsigned long)N, (unsigned long)n);
+  if (N == 0) return 0;
+  assert(src);
+  assert(dest);
 
   /* Default source strides */
   if (!src_strides) {
@@ -1515,8 +1519,10 @@ int dlite_type_ndcast(int ndims,
     dest_strides = dstrides;
   }
 
-  /* -- check that source and dest have same layout */
+  /* -- check that source and dest have same layout and that their elements
+        do not own allocated memory, which has to be copied */
   if (dest_type != src_type || dest_size != src_size) samelayout = 0;
+  if (dlite_type_is_allocated(src_type) && src_type != dliteRef) samelayout = 0;
   if (samelayout) {
     for (i=0; i<ndims; i++)
       if (dest_dims[i] != src_dims[i] || dest_strides[i] != src_strides[i]) {
@@ -1527,11 +1533,8 @@ int dlite_type_ndcast(int ndims,
   if (samelayout) {
     /* -- check that source is contiguous */
     int size = src_size;
-    for (i=0; i<ndims; i++) {
-      int iscont=0;
-      for (j=0; j < src_dims[j]; j++)
-        if (src_strides[j] == size) { iscont = 1; break; }
-      if (!iscont) { samelayout = 0; break; }
+    for (i=ndims-1; i>=0; i--) {
+      if (src_strides[i] != size) { samelayout = 0; break; }
       size *= src_dims[i];
     }
   }
-- 
2.43.0


From de2d100157702a410b491c58b0980cc0b80fab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 030/212] fix: scanning, assigning and Python setters modified
 frozen instances

---
 bindings/python/dlite-python.i | 4 ++++
 src/dlite-entity.c             | 9 ++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index da5fea0..226e8bd 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -1090,6 +1090,10 @@ int dlite_swig_set_property_by_index(DLiteInstance *inst, int i, obj_t *obj)
   if (n < 0) n += (int)inst->meta->_nproperties;
   if (n < 0 || n >= (int)inst->meta->_nproperties)
     FAIL2("Property index %d is out or range: %s", i, inst->meta->uri);
+  if (dlite_instance_is_frozen(inst))
+    FAILCODE1(dliteUnsupportedError,
+              "cannot set property on frozen instance: %s",
+              (inst->uri) ? inst->uri : inst->uuid);
   ptr = DLITE_PROP(inst, n);
   p = inst->meta->_properties + n;
 
diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index b81e214..593ce8e 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1732,6 +1732,9 @@ int dlite_instance_scan_property_by_index(const char *src,
   if (i >= inst->meta->_nproperties)
     return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
                 (int)i, (int)inst->meta->_nproperties, inst->meta->uri);
+  if (inst->_flags & dliteImmutable)
+    return err(-1, "cannot set property on immutable instance: %s",
+               (inst->uri) ? inst->uri : inst->uuid);
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return -1;
   if (!(ptr = dlite_instance_get_property_by_index(inst, i)) &&
       !is_empty_array(inst, i)) return -1;
@@ -2159,9 +2162,13 @@ int dlite_instance_assign_casted_property_by_index(const DLiteInstance *inst,
                                                    const void *src,
                                                    DLiteTypeCast castfun)
 {
-  void *dest = dlite_instance_get_property_by_index(inst, i);
+  void *dest;
   DLiteProperty *p = inst->meta->_properties + i;
   size_t *dims = DLITE_PROP_DIMS(inst, i);
+  if (inst->_flags & dliteImmutable)
+    return err(1, "cannot set property on immutable instance: %s",
+               (inst->uri) ? inst->uri : inst->uuid);
+  dest = dlite_instance_get_property_by_index(inst, i);
   return dlite_type_ndcast(p->ndims,
                            dest, p->type, p->size, dims, NULL,
                            src, type, size, shape, strides,
-- 
2.43.0


From 40bf51eec2395cd533e25fa8edf988429eaf8383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 031/212] fix: property arrays of empty properties and too
 large dimension sizes

---
 src/dlite-arrays.c | 1 +
 src/dlite-entity.c | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 3a9f105..ad6a2ce 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -70,6 +70,7 @@ DLiteArray *dlite_array_create_order(void *data, DLiteType type, size_t size,
     dlite_array_free(arr);
     return arr2;
   default:
+    dlite_array_free(arr);
     return err(1, "invalid order '%c', should be either 'C' or 'F'",
                order), NULL;
   }
diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 593ce8e..b6d0a4b 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1,4 +1,5 @@
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <stddef.h>
 #include <string.h>
@@ -1933,6 +1934,9 @@ int dlite_instance_set_dimension_size_by_index(DLiteInstance *inst,
   int *dims;
   if (i >= inst->meta->_ndimensions)
     return errx(dliteIndexError, "invalid dimension index %d", (int)i);
+  if (size > INT_MAX)
+    return errx(dliteValueError, "too large dimension size: %lu",
+                (unsigned long)size);
   dims = malloc(inst->meta->_ndimensions * sizeof(int));
   if (!dims) return err(dliteMemoryError, "allocation failure");
   for (j=0; j < inst->meta->_ndimensions; j++) dims[j] = -1;
@@ -2014,7 +2018,8 @@ dlite_instance_get_property_array_by_index(const DLiteInstance *inst,
   size_t dim=1, *shape=&dim;
   DLiteProperty *p = DLITE_PROP_DESCR(inst, i);
   DLiteArray *arr = NULL;
-  if (!(ptr = dlite_instance_get_property_by_index(inst, i))) goto fail;
+  if (!(ptr = dlite_instance_get_property_by_index(inst, i)) &&
+      !is_empty_array(inst, i)) goto fail;
   if (p->ndims > 0) {
     int j;
     if (!(shape = malloc(p->ndims*sizeof(size_t)))) goto fail;
-- 
2.43.0


From 5ee22414df488c917bae2c14e98c64f1630c3c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 032/212] fix: invalid values assigned from Python corrupted
 the property or memory

---
 bindings/python/dlite-python.i | 56 +++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 226e8bd..2a13ed0 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -234,7 +234,7 @@ int dlite_swig_read_python_blob(PyObject *src, uint8_t *dest, size_t n)
   } else if (PyObject_CheckBuffer(src)) {
     Py_buffer view;
     if (PyObject_GetBuffer(src, &view, PyBUF_SIMPLE)) goto fail;
-    memcpy(dest, view.buf, n);
+    memcpy(dest, view.buf, ((size_t)view.len < n) ? (size_t)view.len : n);
     retval = (int)(view.len);
     PyBuffer_Release(&view);
   } else {
@@ -360,8 +360,12 @@ static int dlite_swig_setitem(PyObject *obj, int ndims, int *shape,
 {
   int i;
   if (d < ndims) {
-    PyArrayObject *arr = (PyArrayObject *)obj;
-    assert(!PyArray_Check(obj) || PyArray_DIM(arr, d) == shape[d]);
+    Py_ssize_t len = PyObject_Length(obj);
+    if (len < 0)
+      return dlite_err(1, "expected a sequence for dimension %d", d);
+    if (len != shape[d])
+      return dlite_err(1, "expected length of dimension %d to be %d, got %ld",
+                       d, shape[d], (long)len);
     for (i=0; i<shape[d]; i++) {
       int stat;
       PyObject *key = PyLong_FromLong(i);
@@ -427,6 +431,11 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
   case dliteFixString:  /* must be NUL-terminated */
     {
       char *itemptr = PyArray_DATA(arr);
+      for (i=0; i<n; i++)
+        if (strnlen(itemptr + i*PyArray_ITEMSIZE(arr),
+                    PyArray_ITEMSIZE(arr)) >= size)
+          FAIL1("length of string exceeds available size: %lu",
+                (unsigned long)size);
       char *p = *((char **)ptr);
       size_t len = ((size_t)PyArray_ITEMSIZE(arr) < size) ?
         (size_t)PyArray_ITEMSIZE(arr) : size;
@@ -447,6 +456,7 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
         PyObject *s = PyArray_GETITEM(arr, itemptr);
         if (s == Py_None) {
           if (p[i]) free(p[i]);
+          p[i] = NULL;
         } else if (PyUnicode_Check(s)) {
           assert(s);
           Py_ssize_t len;
@@ -455,8 +465,8 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
           p[i] = realloc(p[i], len+1);
           memcpy(p[i], str, len+1);
         } else {
+          Py_XDECREF(s);
           FAIL("expected None or unicode elements");
-          Py_DECREF(s);
         }
         if (s) Py_DECREF(s);
       }
@@ -475,6 +485,9 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
     break;
 
   default:
+    if ((size_t)PyArray_ITEMSIZE(arr) != size)
+      FAIL2("expected array elements of size %lu, got %lu",
+            (unsigned long)size, (unsigned long)PyArray_ITEMSIZE(arr));
     memcpy(*((void **)ptr), PyArray_DATA(arr), n*size);
   }
 
@@ -720,6 +733,9 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
 #endif
       if (overflow) FAIL("overflow when converting to int");
       if (PyErr_Occurred()) FAIL("cannot convert to int");
+      if (size < 8 && (value < -(1LL << (8*size - 1)) ||
+                       value >= (1LL << (8*size - 1))))
+        FAIL("overflow when converting to int");
       switch (size) {
       case 1: *((int8_t *)ptr)  =  (int8_t)value; break;
       case 2: *((int16_t *)ptr) = (int16_t)value; break;
@@ -738,6 +754,8 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
       unsigned long value = PyLong_AsUnsignedLong(obj);
 #endif
       if (PyErr_Occurred()) FAIL("cannot convert to unsigned int");
+      if (size < 8 && value >= (1ULL << (8*size)))
+        FAIL("overflow when converting to unsigned int");
       switch (size) {
       case 1: *((uint8_t *)ptr)  =  (uint8_t)value;  break;
       case 2: *((uint16_t *)ptr) = (uint16_t)value; break;
@@ -791,7 +809,13 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
     {
       char *p;
       Py_ssize_t n;
-      PyObject *str = PyObject_Str(obj);
+      PyObject *str;
+      if (obj == Py_None) {
+        free(*(char **)ptr);
+        *(char **)ptr = NULL;
+        break;
+      }
+      str = PyObject_Str(obj);
       const char *s = PyUnicode_AsUTF8AndSize(str, &n);
       if (!s) {
         Py_DECREF(str);
@@ -1083,7 +1107,8 @@ obj_t *dlite_swig_get_property_by_index(DLiteInstance *inst, int i)
 int dlite_swig_set_property_by_index(DLiteInstance *inst, int i, obj_t *obj)
 {
   int j, *shape=NULL, status=-1, n=i;
-  void *ptr;
+  size_t k, nmemb=1;
+  void *ptr, *tmp=NULL;
   DLiteProperty *p;
 
   PyErr_Clear();
@@ -1097,8 +1122,13 @@ int dlite_swig_set_property_by_index(DLiteInstance *inst, int i, obj_t *obj)
   ptr = DLITE_PROP(inst, n);
   p = inst->meta->_properties + n;
 
+  /* Convert to newly allocated memory, such that the property is unchanged
+     if the conversion fails */
+  for (j=0; j<p->ndims; j++) nmemb *= DLITE_PROP_DIM(inst, n, j);
+  if (!(tmp = calloc((nmemb) ? nmemb : 1, p->size)))
+    FAIL("allocation failure");
   if (p->ndims == 0) {
-    if (dlite_swig_set_scalar(ptr, p->type, p->size, obj)) goto fail;
+    if (dlite_swig_set_scalar(tmp, p->type, p->size, obj)) goto fail;
   } else {
     if (!(shape = malloc(p->ndims*sizeof(int)))) FAIL("allocation failure");
     for (j=0; j<p->ndims; j++) {
@@ -1106,13 +1136,23 @@ int dlite_swig_set_property_by_index(DLiteInstance *inst, int i, obj_t *obj)
         FAIL2("missing dimension %d of property %d", j, i);
       shape[j] = (int)DLITE_PROP_DIM(inst, n, j);
     }
-    if (dlite_swig_set_array(ptr, p->ndims, shape, p->type, p->size, obj))
+    if (dlite_swig_set_array(&tmp, p->ndims, shape, p->type, p->size, obj))
       goto fail;
+    ptr = *(void **)ptr;
   }
+  for (k=0; k<nmemb; k++)
+    dlite_type_clear((char *)ptr + k*p->size, p->type, p->size);
+  if (nmemb) memcpy(ptr, tmp, nmemb*p->size);
+  nmemb = 0;
   if (dlite_instance_sync_from_properties(inst)) goto fail;
 
   status = 0;
  fail:
+  if (tmp) {
+    for (k=0; k<nmemb; k++)
+      dlite_type_clear((char *)tmp + k*p->size, p->type, p->size);
+    free(tmp);
+  }
   if (shape) free(shape);
   return status;
 }
-- 
2.43.0


From 53ca1f0eb627d6a1525536319867dd091f8bac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 033/212] fix: dimension expressions: overflow, division by
 zero and unbalanced parenthesis

---
 src/utils/infixcalc.c | 71 +++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 23 deletions(-)

diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index a394f92..572a4ff 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -5,6 +5,8 @@
  * Distributed under terms of the MIT license.
  */
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
@@ -183,28 +185,40 @@ static int poll(Stack *stack)
 }
 
 
-static int binary_eval(Operator op, int arg1, int arg2)
+/* Evaluates binary operator `op` and assigns the value to `*result`.
+   Returns NULL on success and an error message on error. */
+static const char *binary_eval(Operator op, int arg1, int arg2, int *result)
 {
+  long long v=0;
   switch (op) {
-  case '|':  return arg1 || arg2;
-  case '&':  return arg1 && arg2;
-  case '=':  return arg1 == arg2;
-  case '!':  return arg1 != arg2;
-  case '>':  return arg1 > arg2;
-  case '<':  return arg1 < arg2;
-  case '+':  return arg1 + arg2;
-  case '-':  return arg1 - arg2;
-  case '*':  return arg1 * arg2;
-  case '/':  return arg1 / arg2;
-  case '%':  return arg1 % arg2;
+  case '|':  v = arg1 || arg2;  break;
+  case '&':  v = arg1 && arg2;  break;
+  case '=':  v = arg1 == arg2;  break;
+  case '!':  v = arg1 != arg2;  break;
+  case '>':  v = arg1 > arg2;  break;
+  case '<':  v = arg1 < arg2;  break;
+  case '+':  v = (long long)arg1 + arg2;  break;
+  case '-':  v = (long long)arg1 - arg2;  break;
+  case '*':  v = (long long)arg1 * arg2;  break;
+  case '/':
+  case '%':
+    if (!arg2) return "division by zero";
+    v = (op == '/') ? (long long)arg1 / arg2 : (long long)arg1 % arg2;
+    break;
   case '^':
-    {
-      int i, v=1;
-      for (i=0; i<arg2; i++) v *= arg1;
-      return v;
+    if (arg2 < 0) return "negative exponent";
+    if (arg1 >= -1 && arg1 <= 1 && arg2 > 2) arg2 = 2 - arg2 % 2;
+    for (v=1; arg2 > 0; arg2--) {
+      v *= arg1;
+      if (v < INT_MIN || v > INT_MAX) break;
     }
-  default:   return 0;
+    break;
+  default:
+    break;
   }
+  if (v < INT_MIN || v > INT_MAX) return "integer overflow";
+  *result = (int)v;
+  return NULL;
 }
 
 /* Parses a token from `str` and returns the number of characters consumed.
@@ -221,8 +235,12 @@ static int parse_token(const char *str, TokenValue *val,
 
   if (isdigit(str[0])) {
     char *endptr;
+    long v;
+    errno = 0;
+    v = strtol(str, &endptr, 0);
+    if (errno || v > INT_MAX) return -1;
     val->type = typeVal;
-    val->u.val = strtol(str, &endptr, 0);
+    val->u.val = (int)v;
     return (int)(endptr - str);
 
   } else if ((opinfo = get_opinfo(str[0]))) {
@@ -254,7 +272,11 @@ static int eval(Operator op, Stack *vstack, char *err, size_t errlen)
   if (opinfo->nargs == 2) {
     int arg2 = pop(vstack);
     int arg1 = pop(vstack);
-    value = binary_eval(op, arg1, arg2);
+    const char *msg = binary_eval(op, arg1, arg2, &value);
+    if (msg) {
+      snprintf(err, errlen, "%s when evaluating operator '%c'", msg, op);
+      return -1;
+    }
   } else {
     snprintf(err, errlen, "%lu-ary operators are not implemented",
              (unsigned long)opinfo->nargs);
@@ -285,7 +307,8 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
   Operator op;
   int result=INT_MIN;
 
-  if (err && errlen) err[0] = '\0';
+  if (!err) errlen = 0;
+  if (errlen) err[0] = '\0';
   memset(&vstack, 0, sizeof(vstack));
   memset(&ostack, 0, sizeof(ostack));
 
@@ -309,14 +332,15 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
         push(&ostack, token.u.op);
         break;
       case ')':
-        while ((op = pop(&ostack)) != '(') {
+        do {
           if (!ostack.len) {
             snprintf(err, errlen,
                      "missing start parenthesis in expression \"%s\"", expr);
             goto fail;
           }
-          if (eval(op, &vstack, err, errlen)) goto fail;
-        }
+          op = pop(&ostack);
+          if (op != '(' && eval(op, &vstack, err, errlen)) goto fail;
+        } while (op != '(');
         break;
       default:
         opinfo = get_opinfo(token.u.op);
@@ -364,6 +388,7 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
 int infixcalc_depend(const char *expr, const char *varname)
 {
   const char *p = expr;
+  if (!*varname) return 0;
   while ((p = strstr(p, varname))) {
     const char *q = p;
     p += strlen(varname);
-- 
2.43.0


From 96aec0e4dddcc480668afd66a47e8d1a2037f856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 034/212] fix: type casts wrote to the source, beyond the
 destination or wrong values

---
 src/dlite-type-cast.c | 100 +++++++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 35 deletions(-)

diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index fc76355..75fa8b7 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -4,6 +4,8 @@
 #include "config.h"
 
 #include <assert.h>
+#include <errno.h>
+#include <stdlib.h>
 #include <string.h>
 #include <stddef.h>
 #ifdef HAVE_INTTYPES_H
@@ -88,8 +90,8 @@ static int istrue(const void *src, DLiteType type, size_t size)
 
   case dliteBlob:
     q = (uint8_t *)src;
-    for (i=0; i<size; i++, q++) if (*q) return 0;
-    return 1;
+    for (i=0; i<size; i++, q++) if (*q) return 1;
+    return 0;
 
   case dliteBool:
     return *((bool *)src);
@@ -152,16 +154,17 @@ static int istrue(const void *src, DLiteType type, size_t size)
 #define toBool                                          \
   do {                                                  \
     switch (istrue(src, src_type, src_size)) {          \
-    case 0: *((bool *)src) = 0; return 0;               \
-    case 1: *((bool *)src) = 1; return 0;               \
+    case 0: *((bool *)dest) = 0; return 0;              \
+    case 1: *((bool *)dest) = 1; return 0;              \
     default: goto fail;                                 \
     }                                                   \
   } while (0)
 
 #define toFixString                                                     \
   do {                                                                  \
+    memset(dest, 0, dest_size);                                         \
     if (dlite_type_print(dest, dest_size, src, src_type, src_size,      \
-                         0, -2, 0) < 0) goto fail;                      \
+                         0, -3, 0) < 0) goto fail;                      \
     return 0;                                                           \
   } while (0)
 
@@ -171,12 +174,12 @@ static int istrue(const void *src, DLiteType type, size_t size)
     char *p;                                                            \
     UNUSED(m);  /* m is unused if NDEBUG is non-zero */                 \
     if ((n = dlite_type_print(NULL, 0, src, src_type, src_size,         \
-                              0, -2, 0)) < 0) goto fail;                \
+                              0, -3, 0)) < 0) goto fail;                \
     if (!(p = realloc(*(char **)dest, n + 1)))                          \
       FAILCODE(dliteMemoryError, "reallocation failure");                                     \
     *(char **)dest = p;                                                 \
     m = dlite_type_print(*(char **)dest, n+1, src, src_type, src_size,  \
-                         0, -2, 0);                                     \
+                         0, -3, 0);                                     \
     assert(m == n);                                                     \
     return 0;                                                           \
   } while (0)
@@ -196,6 +199,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
 {
   char *p, *endptr;
   long long int vi;
+  unsigned long long int vu;
   long double vf;
   char stype[32], dtype[32];
 
@@ -203,8 +207,9 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
 
   case dliteBlob:
     switch (dest_type) {
-    case dliteBlob:
     case dliteBool:
+      toBool;
+    case dliteBlob:
     case dliteInt:
     case dliteUInt:
     case dliteFloat:
@@ -229,32 +234,32 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       toBool;
     case dliteUInt:
       switch (dest_size) {
-      case 1: *((bool *)dest) = (*((uint8_t *)src)) ? 1 : 0;  return 0;
-      case 2: *((bool *)dest) = (*((uint16_t *)src)) ? 1 : 0; return 0;
-      case 4: *((bool *)dest) = (*((uint32_t *)src)) ? 1 : 0; return 0;
-      case 8: *((bool *)dest) = (*((uint64_t *)src)) ? 1 : 0; return 0;
+      case 1: *((uint8_t *)dest) = *((bool *)src);  return 0;
+      case 2: *((uint16_t *)dest) = *((bool *)src); return 0;
+      case 4: *((uint32_t *)dest) = *((bool *)src); return 0;
+      case 8: *((uint64_t *)dest) = *((bool *)src); return 0;
       default: goto fail;
       }
     case dliteInt:
       switch (dest_size) {
-      case 1: *((bool *)dest) = (*((int8_t *)src)) ? 1 : 0;  return 0;
-      case 2: *((bool *)dest) = (*((int16_t *)src)) ? 1 : 0; return 0;
-      case 4: *((bool *)dest) = (*((int32_t *)src)) ? 1 : 0; return 0;
-      case 8: *((bool *)dest) = (*((int64_t *)src)) ? 1 : 0; return 0;
+      case 1: *((int8_t *)dest) = *((bool *)src);  return 0;
+      case 2: *((int16_t *)dest) = *((bool *)src); return 0;
+      case 4: *((int32_t *)dest) = *((bool *)src); return 0;
+      case 8: *((int64_t *)dest) = *((bool *)src); return 0;
       default: goto fail;
       }
     case dliteFloat:
       switch (dest_size) {
-      case 4: *((bool *)dest) = (*((float32_t *)src)) ? 1 : 0;   return 0;
-      case 8: *((bool *)dest) = (*((float64_t *)src)) ? 1 : 0;   return 0;
+      case 4: *((float32_t *)dest) = *((bool *)src);   return 0;
+      case 8: *((float64_t *)dest) = *((bool *)src);   return 0;
 #ifdef HAVE_FLOAT80
-      case 10: *((bool *)dest) = (*((float80_t *)src)) ? 1 : 0;  return 0;
+      case 10: *((float80_t *)dest) = *((bool *)src);  return 0;
 #endif
 #ifdef HAVE_FLOAT96
-      case 12: *((bool *)dest) = (*((float96_t *)src)) ? 1 : 0;  return 0;
+      case 12: *((float96_t *)dest) = *((bool *)src);  return 0;
 #endif
 #ifdef HAVE_FLOAT128
-      case 16: *((bool *)dest) = (*((float128_t *)src)) ? 1 : 0; return 0;
+      case 16: *((float128_t *)dest) = *((bool *)src); return 0;
 #endif
       default: goto fail;
       }
@@ -735,7 +740,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       case 16:
         switch (src_size) {
         case 4: *((float128_t *)dest) = *((float32_t *)src);   return 0;
-        case 8: *((float|18_t *)dest) = *((float64_t *)src);   return 0;
+        case 8: *((float128_t *)dest) = *((float64_t *)src);   return 0;
 #ifdef HAVE_FLOAT80
         case 10: *((float128_t *)dest) = *((float80_t *)src);  return 0;
 #endif
@@ -765,10 +770,10 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
     switch (dest_type) {
     case dliteBlob:
       memset(dest, 0, dest_size);
-      memcpy(dest, p, strlen(p));
+      if (p) memcpy(dest, p, MIN(strlen(p), dest_size));
       return 0;
     case dliteBool:
-      *(bool *)src = (p && *p) ? 1 : 0;
+      *(bool *)dest = (p && *p) ? 1 : 0;
       return 0;
     case dliteUInt:
       switch (isnegative(src, src_type, src_size)) {
@@ -777,19 +782,26 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
                          "uint%lu_t", p, (unsigned long)(dest_size*8));
       default: goto fail;
       }
-      vi = strtoll(p, &endptr, 0);
-      if (*endptr) return err(1, "cannot cast string \"%s\" to uint", p);
-      if (vi < 0) return err(1, "cannot cast string \"%s\" to uint", p);
+      errno = 0;
+      vu = strtoull(p, &endptr, 0);
+      if (endptr == p || *endptr || errno ||
+          (dest_size < 8 && vu >> 8*dest_size))
+        return err(1, "cannot cast string \"%s\" to uint", p);
       switch (dest_size) {
-      case 1: *((uint8_t *)dest) = vi;  return 0;
-      case 2: *((uint16_t *)dest) = vi; return 0;
-      case 4: *((uint32_t *)dest) = vi; return 0;
-      case 8: *((uint64_t *)dest) = vi; return 0;
+      case 1: *((uint8_t *)dest) = vu;  return 0;
+      case 2: *((uint16_t *)dest) = vu; return 0;
+      case 4: *((uint32_t *)dest) = vu; return 0;
+      case 8: *((uint64_t *)dest) = vu; return 0;
       default: goto fail;
       }
     case dliteInt:
+      if (!p) goto fail;
+      errno = 0;
       vi = strtoll(p, &endptr, 0);
-      if (*endptr) return err(1, "cannot cast string \"%s\" to int", p);
+      if (endptr == p || *endptr || errno ||
+          (dest_size < 8 && (vi < -(1LL << (8*dest_size - 1)) ||
+                             vi >= 1LL << (8*dest_size - 1))))
+        return err(1, "cannot cast string \"%s\" to int", p);
       switch (dest_size) {
       case 1: *((int8_t *)dest) = vi;  return 0;
       case 2: *((int16_t *)dest) = vi; return 0;
@@ -798,11 +810,12 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       default: goto fail;
       }
     case dliteFloat:
+      if (!p) goto fail;
       vf = strtold(p, &endptr);
-      if (*endptr) return err(1, "cannot cast string \"%s\" to float", p);
+      if (endptr == p || *endptr) return err(1, "cannot cast string \"%s\" to float", p);
       switch (dest_size) {
-      case 4: *((float32_t *)dest) = vf;   return 0;
-      case 8: *((float64_t *)dest) = vf;   return 0;
+      case 4: *((float32_t *)dest) = strtof(p, NULL);   return 0;
+      case 8: *((float64_t *)dest) = strtod(p, NULL);   return 0;
 #ifdef HAVE_FLOAT80
       case 10: *((float80_t *)dest) = vf;  return 0;
 #endif
@@ -815,8 +828,17 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       default: goto fail;
       }
     case dliteFixString:
+      if (!p) {
+        memset(dest, 0, dest_size);
+        return 0;
+      }
       toFixString;
     case dliteStringPtr:
+      if (!p) {
+        free(*(char **)dest);
+        *(char **)dest = NULL;
+        return 0;
+      }
       toStringPtr;
     default:
       goto fail;
@@ -847,6 +869,14 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
     }
     goto fail;
 
+  case dliteRef:
+    if (dest_type == dliteRef) {
+      assert(dest_size == src_size);
+      if (!dlite_type_copy(dest, src, dest_type, dest_size)) goto fail;
+      return 0;
+    }
+    goto fail;
+
   default:
     goto fail;
   }
-- 
2.43.0


From 41d4cacfd43cd400c8336487ebfa3e08c1bf5749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 035/212] fix: copying dimensions, properties and relations
 leaked or crashed on unset fields

---
 bindings/python/dlite-python.i |  2 +-
 src/dlite-type-cast.c          |  1 +
 src/dlite-type.c               | 18 ++++++++++++------
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 2a13ed0..6ebc369 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -485,7 +485,7 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
     break;
 
   default:
-    if ((size_t)PyArray_ITEMSIZE(arr) != size)
+    if (n && (size_t)PyArray_ITEMSIZE(arr) != size)
       FAIL2("expected array elements of size %lu, got %lu",
             (unsigned long)size, (unsigned long)PyArray_ITEMSIZE(arr));
     memcpy(*((void **)ptr), PyArray_DATA(arr), n*size);
diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index 75fa8b7..c34ecbd 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -812,6 +812,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
     case dliteFloat:
       if (!p) goto fail;
       vf = strtold(p, &endptr);
+      UNUSED(vf);  /* only used for long doubles */
       if (endptr == p || *endptr) return err(1, "cannot cast string \"%s\" to float", p);
       switch (dest_size) {
       case 4: *((float32_t *)dest) = strtof(p, NULL);   return 0;
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 63ad94b..983ad79 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -588,7 +588,9 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
     {
       DLiteDimension *d=dest;
       const DLiteDimension *s=src;
-      d->name = strdup(s->name);
+      if (d == s) break;
+      dlite_type_clear(d, dtype, size);
+      d->name = (s->name) ? strdup(s->name) : NULL;
       d->description = (s->description) ? strdup(s->description) : NULL;
     }
     break;
@@ -596,7 +598,9 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
     {
       DLiteProperty *d=dest;
       const DLiteProperty *s=src;
-      d->name = strdup(s->name);
+      if (d == s) break;
+      dlite_type_clear(d, dtype, size);
+      d->name = (s->name) ? strdup(s->name) : NULL;
       d->type = s->type;
       d->size = s->size;
       d->ref = (s->ref) ? strdup(s->ref) : NULL;
@@ -606,7 +610,7 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
         if (!(d->shape = malloc(d->ndims*sizeof(char *))))
           return err(dliteMemoryError, "allocation failure"), NULL;
         for (i=0; i<d->ndims; i++)
-          d->shape[i] = strdup(s->shape[i]);
+          d->shape[i] = (s->shape[i]) ? strdup(s->shape[i]) : NULL;
       } else {
         d->shape = NULL;
       }
@@ -618,9 +622,11 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
     {
       DLiteRelation *d=dest;
       const DLiteRelation *s=src;
-      d->s = strdup(s->s);
-      d->p = strdup(s->p);
-      d->o = strdup(s->o);
+      if (d == s) break;
+      dlite_type_clear(d, dtype, size);
+      d->s = (s->s) ? strdup(s->s) : NULL;
+      d->p = (s->p) ? strdup(s->p) : NULL;
+      d->o = (s->o) ? strdup(s->o) : NULL;
       d->d = (s->d) ? strdup(s->d) : NULL;
       d->id = (s->id) ? strdup(s->id) : NULL;
     }
-- 
2.43.0


From bbd550e2450a831f1409d228f6a0f40d039902bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:20 +0000
Subject: [PATCH 036/212] fix: failed creation of instances: too large
 dimensions, wrong error code and cleanup

---
 src/dlite-entity.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index b6d0a4b..0cb6dd8 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -359,7 +359,7 @@ char** dlite_istore_get_uuids(int* nuuids)
 
  fail:
   if (uuids) {
-    for (i=0; uuid[i]; i++) free(uuids[i]);
+    for (i=0; uuids[i]; i++) free(uuids[i]);
     free(uuids);
   }
   return NULL;
@@ -387,6 +387,9 @@ static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
   if (!(vars = calloc(meta->_ndimensions, sizeof(InfixCalcVariable))))
     FAILCODE(dliteMemoryError, "allocation failure");
   for (i=0; i < meta->_ndimensions; i++) {
+    if (dims[i] > INT_MAX)
+      FAILCODE2(dliteValueError, "too large size of dimension \"%s\": %lu",
+                meta->_dimensions[i].name, (unsigned long)dims[i]);
     vars[i].name = meta->_dimensions[i].name;
     vars[i].value = dims[i];
   }
@@ -587,15 +590,18 @@ DLiteInstance *dlite_instance_create_from_id(const char *metaid,
 static int dlite_instance_free(DLiteInstance *inst)
 {
   size_t i, nprops;
-  int stat;
+  int stat=0;
   const DLiteMeta *meta = inst->meta;
+  DLiteInstance **q;
   assert(meta);
 
   /* Additional deinitialisation */
   if (meta->_deinit) meta->_deinit(inst);
 
-  /* Remove from instance cache */
-  stat = _instance_store_remove(inst->uuid);
+  /* Remove from instance cache.  A not fully created instance may not have
+     been added to the cache. */
+  if ((q = map_get(_instance_store(), inst->uuid)) && *q == inst)
+    stat = _instance_store_remove(inst->uuid);
 
   /* For transactions, decrease refcount of parent */
   if (inst->_parent) {
@@ -1020,7 +1026,7 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
     size_t *pdims = DLITE_PROP_DIMS(inst, i);
     if (dlite_datamodel_get_property(d, p->name, ptr, p->type, p->size,
 				     p->ndims, pdims)) {
-      dlite_type_clear(ptr, p->type, p->size);
+      if (ptr) dlite_type_clear(ptr, p->type, p->size);
       goto fail;
     }
   }
-- 
2.43.0


From 2d51198016de6d8dda47244c341599880a6873f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 037/212] fix: invalid arguments to Instance() aborted Python;
 verify_hash(), to_bytes() and asdict() of references

---
 bindings/python/dlite-entity-python.i |  4 ++--
 bindings/python/dlite-entity.i        | 15 +++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index d1cc80e..02c69f8 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -251,7 +251,7 @@ def get_instance(
             d['name'] = self.name
         d['type'] = self.get_type()
         if self.ref:
-            d['ref'] = self.ref
+            d['$ref'] = self.ref
         if self.ndims:
             d['shape' if soft7 else 'dims'] = self.shape.tolist()
         if self.unit:
@@ -328,7 +328,7 @@ def get_instance(
         """Returns a dict representation of self."""
         d = dict(s=self.s, p=self.p, o=self.o)
         if self.id:
-            d[id] = self.id
+            d['id'] = self.id
         return d
 
     def asstrings(self):
diff --git a/bindings/python/dlite-entity.i b/bindings/python/dlite-entity.i
index 065ec1b..98a7b1e 100644
--- a/bindings/python/dlite-entity.i
+++ b/bindings/python/dlite-entity.i
@@ -380,9 +380,9 @@ struct _DLiteInstance {
       if (inst) dlite_errclr();
       return (DLiteInstance *)inst;
     } else {
-      dlite_err(1, "invalid arguments to Instance()");
+      dlite_err(dliteValueError, "invalid arguments to Instance()");
     }
-    abort();  // should never be reached
+    return NULL;
   }
 
   ~_DLiteInstance() {
@@ -461,8 +461,10 @@ Call signatures:
       dlite_err(dliteMemoryError, "allocation failure");
       return;
     }
-    if ((m = dlite_instance_memsave(driver, buf, n+1, $self, options)) < 0)
+    if ((m = dlite_instance_memsave(driver, buf, n+1, $self, options)) < 0) {
+      free(buf);
       return;
+    }
     assert (m == n);
     *ARGOUT_BYTES = buf;
     *LEN = n;
@@ -503,10 +505,11 @@ Call signatures:
            ) verify_hash;
   void verify_hash(const char *hash=NULL, bool recursive=false) {
     uint8_t *hashp = NULL;
+    uint8_t data[DLITE_HASH_SIZE];
     if (hash) {
-      uint8_t data[DLITE_HASH_SIZE];
-      if (strhex_decode(data, sizeof(data), hash, (int)strlen(hash)) < 0) {
-        dlite_err(1, "cannot decode hash: %s\n", hash);
+      if (strlen(hash) != 2*DLITE_HASH_SIZE ||
+          strhex_decode(data, sizeof(data), hash, (int)strlen(hash)) < 0) {
+        dlite_err(dliteVerifyError, "cannot decode hash: %s\n", hash);
         return;
       }
       hashp = data;
-- 
2.43.0


From 4ddda57e868532560e84e1a8ea5935779711a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 038/212] fix: copying to an existing id, set_parent() with
 current parent, leaked references to snapshots

---
 bindings/python/dlite-entity.i | 4 ++--
 src/dlite-entity.c             | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/bindings/python/dlite-entity.i b/bindings/python/dlite-entity.i
index 98a7b1e..62387f2 100644
--- a/bindings/python/dlite-entity.i
+++ b/bindings/python/dlite-entity.i
@@ -555,7 +555,7 @@ Call signatures:
            "This function may pull snapshots back into memory. Use\n"
            "`dlite_instance_pull()` if you know the storage where the snapshots "
            "are stored.") get_snapshot;
-  %newobject get_snapshop;
+  %newobject get_snapshot;
   struct _DLiteInstance *get_snapshot(int n=1) {
     DLiteInstance *inst =
       (DLiteInstance *)dlite_instance_get_snapshot($self, n);
@@ -571,7 +571,7 @@ Call signatures:
            "counts backward.  Hence, `n=0` returns the current instance,\n"
            "`n=1` returns its parent, etc... "
            ) pull_snapshot;
-  %newobject get_snapshop;
+  %newobject pull_snapshot;
   struct _DLiteInstance *pull_snapshot(struct _DLiteStorage *storage, int n) {
     DLiteInstance *inst =
       (DLiteInstance *)dlite_instance_pull_snapshot($self, storage, n);
diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 0cb6dd8..d7edd6a 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1981,6 +1981,9 @@ DLiteInstance *dlite_instance_copy(const DLiteInstance *inst, const char *newid)
   DLiteInstance *new=NULL;
   size_t i;
   if (dlite_instance_sync_to_properties((DLiteInstance *)inst)) return NULL;
+  if (newid && *newid && dlite_instance_has(newid, false))
+    return err(dliteValueError, "cannot copy to already existing id: '%s'",
+               newid), NULL;
   if (!(new = dlite_instance_create(inst->meta, DLITE_DIMS(inst), newid)))
     return NULL;
   if (inst->_parent) {
@@ -2489,17 +2492,18 @@ int dlite_instance_set_parent(DLiteInstance *inst, const DLiteInstance *parent)
   if (dlite_instance_get_hash(parent, hash, DLITE_HASH_SIZE))
     return err(-1, "Error calculating hash of parent instance \"%s\"",
                (parent->uri) ? parent->uri : parent->uuid);
+  dlite_instance_incref((DLiteInstance *)parent);
   if (p) {
     if (p->parent) dlite_instance_decref((DLiteInstance *)p->parent);
   } else {
     if (!(p = calloc(1, sizeof(DLiteParent))))
-      return err(-1, "Allocation failure");
+      return dlite_instance_decref((DLiteInstance *)parent),
+        err(-1, "Allocation failure");
     inst->_parent = p;
   }
   p->parent = parent;
   strncpy(p->uuid, parent->uuid, DLITE_UUID_LENGTH+1);
   memcpy(p->hash, hash, DLITE_HASH_SIZE);
-  dlite_instance_incref((DLiteInstance *)p->parent);
   return 0;
 }
 
-- 
2.43.0


From 31cb646613d0f0a620365e6a8209b4aa56f566e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 039/212] fix: leaked reference from Instance.from_bytes()

---
 bindings/python/dlite-entity.i | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/python/dlite-entity.i b/bindings/python/dlite-entity.i
index 62387f2..8fd4976 100644
--- a/bindings/python/dlite-entity.i
+++ b/bindings/python/dlite-entity.i
@@ -867,6 +867,7 @@ void dlite_swig_set_property(struct _DLiteInstance *inst, const char *name,
 bool dlite_instance_has_property(struct _DLiteInstance *inst, const char *name);
 
 %rename(_from_bytes) dlite_instance_memload;
+%newobject dlite_instance_memload;
 %feature("docstring", "Loads instance from string.") dlite_instance_memload;
 struct _DLiteInstance *
          dlite_instance_memload(const char *driver,
-- 
2.43.0


From 5be06ba1e8b10e47306b978db74689472b09a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 040/212] fix: malformed JSON: use-after-free and aborts when
 parsing instances, inconsistent tokens, overwritten files

---
 src/dlite-json.c                   | 44 ++++++++++++++++++++----------
 src/utils/jsmnx.c                  | 42 +++++++++++++++++++++++++++-
 storages/json/dlite-json-storage.c | 10 ++++++-
 3 files changed, 79 insertions(+), 17 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index b0566b8..29b1e36 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -121,7 +121,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       size_t *shape= DLITE_PROP_DIMS(inst, i);
       PRINT2("%s    \"%s\": ", in, p->name);
       m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -3, f);
-      if (m < 0) return -1;
+      if (m < 0) goto fail;
       n += m;
       PRINT1("%s\n", c);
     }
@@ -365,7 +365,7 @@ int dlite_json_asprint(char **dest, size_t *size, size_t pos,
 
   if (!dest || !*dest || !*size) {
     /* Just count number of bytes to write */
-    m = dlite_json_sprint(*dest, 0, inst, indent, flags);
+    m = dlite_json_sprint(NULL, 0, inst, indent, flags);
     if (m < 0) return m;
   } else {
     /* Try to write to existing buffer */
@@ -483,7 +483,7 @@ int dlite_json_append(char **s, size_t *size, const DLiteInstance *inst,
 
   errno = 0;
   jsmn_init(&parser);
-  if ((r = jsmn_parse_alloc(&parser, *s, *size, &tokens, &ntokens)) < 0)
+  if ((r = jsmn_parse_alloc(&parser, *s, strlen(*s), &tokens, &ntokens)) < 0)
     FAIL1("error parsing json: %s", jsmn_strerror(r));
   if (r == 0) FAIL("cannot append to empty json string");
   if (tokens[0].type != JSMN_OBJECT)
@@ -571,7 +571,7 @@ static int get_uuid(char uuid[DLITE_UUID_LENGTH+1], const char *src,
   if (!(item = jsmn_item(src, (jsmntok_t *)obj, "uuid"))) return 1;
   if (item->end - item->start != DLITE_UUID_LENGTH)
     return err(dliteParseError, "UUID should have length %d, got %d",
-               item->end - item->start, DLITE_UUID_LENGTH);
+               DLITE_UUID_LENGTH, item->end - item->start);
   if (dlite_get_uuidn(uuid, src+item->start, item->end-item->start) < 0)
     return -1;
   return 0;
@@ -604,7 +604,7 @@ static int get_meta_uuid(char uuid[DLITE_UUID_LENGTH+1], const char *src,
 static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
                                      const char *id)
 {
-  int ok=0;
+  int ok=0, nref=0;
   const jsmntok_t *item, *t;
   char *buf=NULL, *uri=NULL, *metauri=NULL, uuid[DLITE_UUID_LENGTH+1];
   size_t i, *dims=NULL;
@@ -613,7 +613,9 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   jsmntype_t dimtype = 0;
   char *name=NULL, *version=NULL, *namespace=NULL;
 
-  assert(obj->type == JSMN_OBJECT);
+  if (obj->type != JSMN_OBJECT)
+    return errx(dliteParseError, "json representation of instance %s should "
+                "be an object", (id) ? id : ""), NULL;
 
   /* If instance already exists, return it immediately */
   if (id && dlite_instance_has(id, 0))
@@ -621,9 +623,9 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
 
   /* Get uri and uuid */
   uri = get_uri(src, obj);
-  if (!uri && (item = jsmn_item(src, obj, "uuid"))) {
-    strncpy(uuid, src + item->start, DLITE_UUID_LENGTH);
-    uuid[DLITE_UUID_LENGTH] = '\0';
+  if (!uri && jsmn_item(src, obj, "uuid")) {
+    if (get_uuid(uuid, src, obj)) goto fail;
+    if (!id) id = uuid;
   } else {
     if (dlite_get_uuid(uuid, (uri) ? uri : id) < 0) goto fail;
   }
@@ -636,11 +638,20 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
       dlite_warn("Instance \"%s\" include an URI \"%s\" whos UUID (%s) is "
                  "inconsistent with the instance UUID (%s). "
                  "This may be due to the namespacedID behavior change. "
-                 "Ignoring the URI.", id, uri, uuid, uuid2);
+                 "Ignoring the URI.", id, (uri) ? uri : "", uuid, uuid2);
+      free(uri);
       uri = NULL;
     }
   }
   if (uri) id = uri;
+  if (!id) id = uuid;
+
+  /* If the id was inferred, the instance may still exist */
+  if (dlite_instance_has(id, 0)) {
+    inst = dlite_instance_get(id);
+    ok = 1;
+    goto fail;
+  }
 
   /* Get metadata */
   if ((item = jsmn_item(src, obj, "meta"))) {
@@ -684,7 +695,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
           DLiteDimension *d = meta->_dimensions + i;
           if (!(t = jsmn_item(src, item, d->name)))
             FAIL2("missing dimension \"%s\" in %s", d->name, id);
-          if (t->type == JSMN_PRIMITIVE)
+          if (t->type == JSMN_PRIMITIVE && isdigit(src[t->start]))
             dims[i] = atoi(src + t->start);
           else
             FAIL3("value '%.*s' of dimension should be an integer: %s",
@@ -698,6 +709,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
 
   /* Create instance */
   if (!(inst = dlite_instance_create(meta, dims, id))) goto fail;
+  nref = inst->_refcount;
 
   /* Parse properties */
   if (meta->_nproperties > 0) {
@@ -715,7 +727,8 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
     //  base = obj;
     //else
     //  FAIL1("\"properties\" must be object or array: %s", id);
-    assert(base->type == JSMN_OBJECT);
+    if (base->type != JSMN_OBJECT)
+      FAIL1("\"properties\" of data instance must be a json object: %s", id);
 
     /* -- infer name, version and namespace */
     if (dlite_instance_is_meta(inst)) {
@@ -782,8 +795,9 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   if (uri) free(uri);
   if (metauri) free(metauri);
   if (!ok && inst) {
-    /* Metadata has an extra refcount, so loop until refcount is zero */
-    while (inst->_refcount)
+    /* Metadata has an extra refcount, so release all references that the
+       instance was created with */
+    while (nref-- > 0)
       dlite_instance_decref(inst);
     inst = NULL;
   }
@@ -867,7 +881,7 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
   if (metaid) {
     char uuid[DLITE_UUID_LENGTH + 1];
     if (dlite_get_uuid(uuid, metaid) < 0 ||
-        (strcmp(metaid, uuid) != 0 && strcmp(metaid, inst->meta->uri) != 0)) {
+        strcmp(inst->meta->uuid, uuid) != 0) {
       if (!id) id = inst->uuid;
       err(1, "instance '%s' has meta id '%s' but '%s' is expected",
           id, inst->meta->uri, metaid);
diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index 83ae176..dec6e7b 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -20,6 +20,43 @@
 #include "jsmn.h"
 #include "jsmnx.h"
 
+/*
+  Help function for jsmn_parse_alloc().  The jsmn parser accepts some
+  malformed input, like `{"a"}`, `{"a" "b"}` and `["a": 1]`, for which the
+  functions below would misinterpret the tokens.
+
+  Checks that the value starting at token number `n` is well-formed.  `ntokens`
+  is the total number of tokens.
+
+  Returns the number of the token following the value or JSMN_ERROR_INVAL
+  if it is malformed.
+ */
+static int jsmn_check_value(const jsmntok_t *tokens, int ntokens, int n)
+{
+  int i, size;
+  const jsmntok_t *t = tokens + n;
+  if (n >= ntokens) return JSMN_ERROR_INVAL;
+  size = t->size;
+  switch (t->type) {
+  case JSMN_STRING:
+  case JSMN_PRIMITIVE:
+    return (size == 0) ? n + 1 : JSMN_ERROR_INVAL;
+  case JSMN_OBJECT:
+    for (i=0, n++; i < size; i++) {
+      if (n >= ntokens || tokens[n].type != JSMN_STRING || tokens[n].size != 1)
+        return JSMN_ERROR_INVAL;
+      if ((n = jsmn_check_value(tokens, ntokens, n + 1)) < 0) return n;
+    }
+    return n;
+  case JSMN_ARRAY:
+    for (i=0, n++; i < size; i++)
+      if ((n = jsmn_check_value(tokens, ntokens, n)) < 0) return n;
+    return n;
+  default:
+    return JSMN_ERROR_INVAL;
+  }
+}
+
 /*
   Like jsmn_parse(), but realloc's the buffer pointed to by `tokens_ptr`
   if it is too small.  `num_tokens_ptr` should point to the number of
@@ -33,7 +70,7 @@
 int jsmn_parse_alloc(jsmn_parser *parser, const char *js, const size_t len,
                      jsmntok_t **tokens_ptr, unsigned int *num_tokens_ptr)
 {
-  int ntokens;
+  int n, ntokens;
   jsmntok_t *tokens=NULL;
   assert(tokens_ptr);
   assert(num_tokens_ptr);
@@ -51,6 +88,8 @@ int jsmn_parse_alloc(jsmn_parser *parser, const char *js, const size_t len,
     jsmn_parser saved_parser;
     memcpy(&saved_parser, parser, sizeof(saved_parser));
     ntokens = jsmn_parse(parser, js, len, *tokens_ptr, *num_tokens_ptr);
+    if (ntokens > 0 && (n = jsmn_check_value(*tokens_ptr, ntokens, 0)) < 0)
+      return n;
     if (ntokens != JSMN_ERROR_NOMEM) return ntokens;
 
     // Try to handle JSMN_ERROR_NOMEM by reallocating
@@ -66,6 +105,7 @@ int jsmn_parse_alloc(jsmn_parser *parser, const char *js, const size_t len,
 
   ntokens = jsmn_parse(parser, js, len, tokens, ntokens);
   assert(ntokens != JSMN_ERROR_NOMEM);
+  if (ntokens > 0 && (n = jsmn_check_value(tokens, ntokens, 0)) < 0) return n;
   return ntokens;
 }
 
diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 035aabb..09b68d9 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -30,7 +30,7 @@ typedef struct {
 
 
 /** Returns default mode:
-    - 'w': if we can't open `uri`
+    - 'w': if `uri` doesn't exist or is empty
     - 'r': if `uri` is in single-entity format
     - 'a': otherwise
 */
@@ -50,6 +50,14 @@ static int default_mode(const char *uri, const unsigned char *buf, size_t size)
 
   mode = (stat) ? 'w' : (jstore_get(js, "properties")) ? 'r' : 'a';
   jstore_close(js);
+
+  /* Don't overwrite an existing file because its content is invalid.  Opening
+     it in append mode will produce a proper error message. */
+  if (stat && uri) {
+    FILE *fp = fopen(uri, "r");
+    if (fp && fgetc(fp) != EOF) mode = 'a';
+    if (fp) fclose(fp);
+  }
   return mode;
 }
 
-- 
2.43.0


From 63c7abd28ee3578285d8342e68c77bdfdf12b320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 041/212] fix: assigning an invalid reference from Python
 silently cleared it

---
 bindings/python/dlite-python.i | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 6ebc369..4f0a823 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -848,6 +848,8 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
         DLiteInstance **q = ptr;
         if (*q) dlite_instance_decref(*q);
         *q = inst;
+      } else {
+        FAIL("cannot convert Python object to instance reference");
       }
     }
     break;
-- 
2.43.0


From 0a2d9eda90b63f9479590d5a3846ff2562b84e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:36 +0000
Subject: [PATCH 042/212] fix: asdict() of instances without uri lost the
 identity in single-entity format

---
 bindings/python/dlite-entity-python.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index 02c69f8..adc1158 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -1002,7 +1002,7 @@ def get_instance(
             single = self.is_meta
 
         if uuid is None:
-            uuid = single and self.uri
+            uuid = single and not self.uri
 
         if not single:
             d = {}
-- 
2.43.0


From 03ffa8dd025816ed5d750210a5f00e508f3b608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 043/212] fix: references to instances added several times to a
 store were leaked

---
 src/dlite-store.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dlite-store.c b/src/dlite-store.c
index b28b6b9..944cfba 100644
--- a/src/dlite-store.c
+++ b/src/dlite-store.c
@@ -51,7 +51,8 @@ void dlite_store_free(DLiteStore *store)
   while ((uuid = map_next(&store->map, &iter))) {
     item_t *item = (item_t *)map_get(&store->map, uuid);
     assert(item);
-    dlite_instance_decref(item->inst);
+    while (item->refcount-- > 0)
+      dlite_instance_decref(item->inst);
   }
   map_deinit(&store->map);
   free(store);
@@ -168,6 +169,9 @@ DLiteInstance *dlite_store_pop_all(DLiteStore *store, const char *id)
   if (!(item = (item_t *)map_get(&store->map, uuid)))
     FAIL1("id '%s' is not in store", id);
   inst = item->inst;
+  /* the caller gets one of the references owned by the store */
+  while (--item->refcount > 0)
+    dlite_instance_decref(inst);
   map_remove(&store->map, uuid);
   return inst;
  fail:
-- 
2.43.0


From ef04f697b83c390ed0c372eafc6f3565d86b142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 044/212] fix: string values and empty keys were misread by the
 JSON store

---
 src/utils/jstore.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utils/jstore.c b/src/utils/jstore.c
index 8f0aa97..1e35ce6 100644
--- a/src/utils/jstore.c
+++ b/src/utils/jstore.c
@@ -218,9 +218,10 @@ int jstore_update_from_jsmn(JStore *js, const char *src, jsmntok_t *tok)
   if (tok->type != JSMN_OBJECT) return err(1, "jsmn token must be an object");
   for (i=0; i < tok->size; i++) {
     jsmntok_t *tv = tk+1;
-    if (jstore_addn(js,
-                    src + tk->start, tk->end - tk->start,
-                    src + tv->start, tv->end - tv->start)) return 1;
+    int klen = tk->end - tk->start;
+    int q = (tv->type == JSMN_STRING) ? 1 : 0;  // the value includes the quotes
+    if (jstore_addn(js, (klen) ? src + tk->start : "", klen,
+                    src + tv->start - q, tv->end - tv->start + 2*q)) return 1;
     tk += jsmn_count(tv) + 2;
   }
   return 0;
@@ -297,6 +298,7 @@ char *jstore_to_string(JStore *js)
   n += m;
   return buf;
  fail:
+  if (buf) free(buf);
   return err(1, "error creating json string"), NULL;
 }
 
-- 
2.43.0


From 9a4c67aff791d13b47498879f26628e3b3017407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:38 +0000
Subject: [PATCH 045/212] fix: the default session was a copy sharing (and
 double freeing) the states of the session it was set to

---
 src/utils/session.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/utils/session.c b/src/utils/session.c
index b32af67..f08f456 100644
--- a/src/utils/session.c
+++ b/src/utils/session.c
@@ -37,6 +37,9 @@ static map_session_t _sessions;
 /* Number of sessions */
 static int _sessions_count=0;
 
+/* Session set with session_set_default() or NULL */
+static Session *_default_session=NULL;
+
 /* Returns pointer to `_sessions`.  Initialise it if needed. */
 static map_session_t *get_sessions(void)
 {
@@ -92,6 +95,7 @@ void session_free(Session *s)
   }
   s->freeing = 0;
   map_deinit(&s->states);
+  if (s == _default_session) _default_session = NULL;
 
   if (id) {
     map_remove(sessions, id);
@@ -141,7 +145,8 @@ const char *session_get_id(Session *s)
 Session *session_get_default(void)
 {
   map_session_t *sessions = get_sessions();
-  Session *s = map_get(sessions, DEFAULT_SESSION_ID);
+  Session *s = _default_session;
+  if (!s) s = map_get(sessions, DEFAULT_SESSION_ID);
   if (!s) s = session_create(DEFAULT_SESSION_ID);
   return s;
 }
@@ -157,10 +162,11 @@ Session *session_get_default(void)
 int session_set_default(Session *s)
 {
   map_session_t *sessions = get_sessions();
-  Session *s2 = map_get(sessions, DEFAULT_SESSION_ID);
+  Session *s2 = _default_session;
+  if (!s2) s2 = map_get(sessions, DEFAULT_SESSION_ID);
   if (s2 && s2 != s)
     return errx(-3, "a default session has already been set");
-  map_set(sessions, DEFAULT_SESSION_ID, *s);
+  _default_session = s;
   return 0;
 }
 
-- 
2.43.0


From a52b9729483f8991198e77cd97150bd350032f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 046/212] fix: clp2() and flp2() were wrong for numbers larger
 than 256

---
 src/utils/clp2.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/utils/clp2.c b/src/utils/clp2.c
index 7cbbacf..694d256 100644
--- a/src/utils/clp2.c
+++ b/src/utils/clp2.c
@@ -8,17 +8,14 @@ size_t clp2(size_t n)
   n |= n >> 1;
   n |= n >> 2;
   n |= n >> 4;
-#if SIZEOF_SIZE_TYPE > 1
+#if SIZEOF_SIZE_T > 1
   n |= n >> 8;
 #endif
-#if SIZEOF_SIZE_TYPE > 2
+#if SIZEOF_SIZE_T > 2
   n |= n >> 16;
 #endif
-#if SIZEOF_SIZE_TYPE > 4
+#if SIZEOF_SIZE_T > 4
   n |= n >> 32;
-#endif
-#if SIZEOF_SIZE_TYPE > 8
-  n |= n >> 64;
 #endif
   return ++n;
 }
@@ -30,17 +27,14 @@ size_t flp2(size_t n)
   n |= n >> 1;
   n |= n >> 2;
   n |= n >> 4;
-#if SIZEOF_SIZE_TYPE > 1
+#if SIZEOF_SIZE_T > 1
   n |= n >> 8;
 #endif
-#if SIZEOF_SIZE_TYPE > 2
+#if SIZEOF_SIZE_T > 2
   n |= n >> 16;
 #endif
-#if SIZEOF_SIZE_TYPE > 4
+#if SIZEOF_SIZE_T > 4
   n |= n >> 32;
-#endif
-#if SIZEOF_SIZE_TYPE > 8
-  n |= n >> 64;
 #endif
   return n - (n >> 1);
 }
-- 
2.43.0


From 5e8eca782b3a86cb09654697a5d70f92acefb841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 047/212] fix: appending a 32nd element to a string list
 aborted

---
 src/utils/strutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 533ed5b..493a6b1 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -737,7 +737,7 @@ static char **_strlst_insert(char **strlst, size_t *n, const char *s, int i,
   if (!strlst || !*n) {
     m = CHUNK_SIZE;
     if (!(q = calloc(m, sizeof(char *)))) goto fail;
-  } else if (m < len+1) {
+  } else if (m < len+2) {
     m += CHUNK_SIZE;
     if (!(q = realloc(strlst, m*sizeof(char *)))) goto fail;
   }
-- 
2.43.0


From 71f78cb3ef2c1fa82f550795f857aa33fc01792e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 048/212] fix: strnput_escape() aborted when writing an empty
 string to a NULL buffer

---
 src/utils/strutils.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 493a6b1..5c705a0 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -214,6 +214,13 @@ int strnput_escape(char **destp, size_t *sizep, size_t pos,
   int escape_size = esclen + 3;
   if (unescaped >= strcatOther) return -1;
   if (len < 0) len = strlen(src);
+  if (size < n+1) {
+    size = n+1;
+    if (!(p = realloc(p, size))) return -1;
+    *destp = p;
+    *sizep = size;
+  }
+  p[n] = '\0';
 
   while (i < len && src[i]) {
     if (size < n+escape_size) {
-- 
2.43.0


From 9fe8c24a76c0237acf2961dafdf832b5a4de6467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:18 +0000
Subject: [PATCH 049/212] fix: strnquote() and strnunquote() read past their
 input, and strunquote() skipped initial blanks only without flags

---
 src/dlite-type.c     |  5 +++--
 src/utils/strutils.c | 10 +++++-----
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 983ad79..e285b17 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -698,7 +698,7 @@ static StrquoteFlags as_qflags(DLiteType dtype, DLiteTypeFlag flags)
   if (flags & dliteFlagUnescape) return strquoteInitialBlanks | strquoteNoQuote;
   if (flags & dliteFlagRaw)    flg |= strquoteRaw;
   if (flags & dliteFlagQuoted) flg |= 0;
-  if (flags & dliteFlagStrip)  flg |= strquoteNoQuote | strquoteNoEscape;
+  if (flags & dliteFlagStrip)  flg |= strquoteRaw;
   return flg;
 }
 
@@ -977,7 +977,8 @@ int dlite_type_aprint(char **dest, size_t *n, size_t pos, const void *p,
    relation. */
 #define SET_RELATION(target, buf, bufsize, t, src)                      \
   if (strnput_unquote(&buf, &bufsize, 0, src + t->start,                \
-                      t->end - t->start, NULL, strquoteNoQuote) < 0)    \
+                      t->end - t->start, NULL,                            \
+                      strquoteInitialBlanks | strquoteNoQuote) < 0)     \
     return -1;                                                          \
   target = (buf[0]) ? strndup(buf, t->end - t->start) : NULL;
 
diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 5c705a0..0774e0d 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -291,7 +291,7 @@ int strnquote(char *dest, size_t size, const char *s, int n,
 
     /* Loop over each character in source `s` and copy it to `dest`.
        If `n` is positive, consume at most `n` characters from `s`. */
-    while (s[j] && (n < 0 || (int)j < n)) {
+    while ((n < 0 || (int)j < n) && s[j]) {
 
       /* Escape double-quotes, backslashes and control characters (as in
          JSON) when copying to `dest` */
@@ -424,13 +424,13 @@ int strnunquote(char *dest, size_t size, const char *s, int n,
   size_t i=0, j=0, k, m;
   if (!dest) size = 0;
   if (!size) dest = NULL;
-  if (!(flags && strquoteInitialBlanks))
-    while (isspace(s[j])) j++;
+  if (!(flags & strquoteInitialBlanks))
+    while ((n < 0 || (int)j < n) && isspace((unsigned char)s[j])) j++;
   if (!(flags & strquoteNoQuote) && s[j++] != '"') return -1;
-  while (s[j] && ((flags & strquoteNoQuote) || s[j] != '"')) {
+  while ((n < 0 || (int)j < n) && s[j] &&
+         ((flags & strquoteNoQuote) || s[j] != '"')) {
     char c[8];
     size_t left = (n >= 0) ? PDIFF(n, j) : strnlen(s+j, 12);
-    if (!left) break;
     if (!(flags & strquoteNoEscape) && s[j] == '\\') {
       m = unescape(c, &k, s+j, left);
     } else {
-- 
2.43.0


From bd7a333befe929b005a6af9342021abd2fc4530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 050/212] fix: strhex_encode() of no data left the destination
 unterminated

---
 src/utils/strutils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 0774e0d..8452b5a 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -504,6 +504,7 @@ int strhex_encode(char *hex, size_t hexsize, const unsigned char *data,
 {
   int n, m=0;
   size_t i;
+  if (hexsize) hex[0] = '\0';
   for (i=0; i<size; i++) {
     if ((n = snprintf(hex+m, PDIFF(hexsize, m), "%02x", data[i])) < 0) return n;
     if (n == 2 && m == (int)hexsize-2) hex[m] = '\0';
-- 
2.43.0


From 64c13381c62b0067b81e02123e7b160ef1d1cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 051/212] fix: natoi() read past its input and overflowed

---
 src/utils/strutils.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 8452b5a..e9e29ce 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -10,6 +10,7 @@
 #include <stdarg.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "integers.h"
 #include "compat.h"
@@ -877,18 +878,19 @@ char *strlst_pop(char **strlst, int i)
  */
 int natoi(const char *s, int n)
 {
-  int x=0, sign=1;
-  while (isspace(*s)) s++, n--;
-  if (*s == '-') {
-    sign = -1;
+  long long x=0;
+  int sign=1;
+  while (n > 0 && isspace((unsigned char)*s)) s++, n--;
+  if (n > 0 && (*s == '-' || *s == '+')) {
+    if (*s == '-') sign = -1;
     s++, n--;
   }
-  if (*s == '+') s++;
-  while(isdigit(*s) && n-- > 0) {
+  while (n-- > 0 && isdigit((unsigned char)*s)) {
     x = 10*x + (*s - '0');
+    if (x > INT_MAX) return (sign > 0) ? INT_MAX : INT_MIN;
     s++;
   }
-  return sign*x;
+  return sign*(int)x;
 }
 
 
-- 
2.43.0


From 8b2ecf084d4febbdff36ae939d3303ff6b3648b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 052/212] fix: strnchk_semver() read past its input and
 accepted numeric pre-releases with leading zeros

---
 src/utils/strutils.c | 81 ++++++++++++++++++++++++++++----------------
 1 file changed, 51 insertions(+), 30 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index e9e29ce..18e4d3c 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -908,6 +908,35 @@ int strchk_semver(const char *v)
   return m;
 }
 
+/*
+  Returns the length of the (possible empty) semantic version identifier that
+  `s` starts with.  At most `n` bytes are read.
+
+  If `digits` is not NULL, it is assigned the number of initial digits.
+*/
+static size_t identifier_length(const char *s, size_t n, size_t *digits)
+{
+  size_t m=0;
+  if (digits) {
+    while (m < n && isdigit((unsigned char)s[m])) m++;
+    *digits = m;
+  }
+  while (m < n && (isalnum((unsigned char)s[m]) || s[m] == '-')) m++;
+  return m;
+}
+
+/*
+  Compares the numbers written with the `n1` and `n2` digits in `s1` and `s2`.
+*/
+static int compare_digits(const char *s1, size_t n1, const char *s2, size_t n2)
+{
+  while (n1 > 0 && *s1 == '0') s1++, n1--;
+  while (n2 > 0 && *s2 == '0') s2++, n2--;
+  if (n1 != n2) return (n1 < n2) ? -1 : 1;
+  return memcmp(s1, s2, n1);
+}
+
+
 /*
   Check if the initial part of `v` is a valid semantic version 2.0.0 number.
 
@@ -919,42 +948,34 @@ int strchk_semver(const char *v)
 int strnchk_semver(const char *v, size_t n)
 {
   size_t m=0;
-  /* Major number */
-  if (n < 5) return -1;
-  if (!isdigit(v[m])) return -1;
-  if (v[0] == '0' && isdigit(v[1])) return -1;
-  while (isdigit(v[m]) && m < n) m++;
-  /* Minor number */
-  if (v[m] != '.') return -1;
-  if (m < n) m++;
-  if (!isdigit(v[m])) return -1;
-  if (n >= m+2 && v[m] == '0' && isdigit(v[m+1])) return -1;
-  while (isdigit(v[m]) && m < n) m++;
-  /* Patch number */
-  if (v[m] != '.') return -1;
-  if (m < n) m++;
-  if (!isdigit(v[m])) return -1;
-  if (n >= m+2 && v[m] == '0' && isdigit(v[m+1])) return -1;
-  while (isdigit(v[m]) && m < n) m++;
+  int i;
+  n = strnlen(v, n);
+  /* Major, minor and patch number */
+  for (i=0; i<3; i++) {
+    size_t start;
+    if (i > 0 && (m >= n || v[m++] != '.')) return -1;
+    start = m;
+    while (m < n && isdigit((unsigned char)v[m])) m++;
+    if (m == start || (v[start] == '0' && m > start+1)) return -1;
+  }
   /* Pre-release */
-  if (m == n) return m;
-  if (v[m] == '-') {
+  if (m < n && v[m] == '-') {
     do {
-      if (n <= ++m) return -1;
-      if (!isalnum(v[m]) && v[m] != '-') return -1;
-      while ((isalnum(v[m]) || v[m] == '-') && m < n) m++;
-    } while (v[m] == '.');
+      size_t start = ++m, digits;
+      m += identifier_length(v+m, n-m, &digits);
+      if (m == start) return -1;
+      if (v[start] == '0' && m > start+1 && digits == m-start) return -1;
+    } while (m < n && v[m] == '.');
   }
   /* Build */
-  if (m == n) return m;
-  if (v[m] == '+') {
+  if (m < n && v[m] == '+') {
     do {
-      if (n <= ++m ) return -1;
-      if (!isalnum(v[m]) && v[m] != '-') return -1;
-      while ((isalnum(v[m]) || v[m] == '-') && m < n) m++;
-    } while (v[m] == '.');
+      size_t start = ++m;
+      m += identifier_length(v+m, n-m, NULL);
+      if (m == start) return -1;
+    } while (m < n && v[m] == '.');
   }
-  if (m < n && v[m]) return -1;
+  if (m < n) return -1;
   return m;
 }
 
-- 
2.43.0


From 4775ddcee4e847edd5dc62eef8f910296b5f894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 053/212] fix: strncmp_semver() misordered pre-releases and
 large numbers and read past its input

---
 src/utils/strutils.c | 84 +++++++++++++++++++++-----------------------
 1 file changed, 40 insertions(+), 44 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 18e4d3c..54000ff 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -1005,53 +1005,49 @@ int strcmp_semver(const char *v1, const char *v2)
 */
 int strncmp_semver(const char *v1, const char *v2, size_t n)
 {
-  int d, pr1=0, pr2=0;
-  size_t m, n1=0, n2=0;
-  /* Compare major number */
-  d = natoi(v1, n) - natoi(v2, n);
-  if (d) return (d < 0) ? -1 : 1;
-  while (isdigit(v1[n1]) && n1 < n) n1++;
-  while (isdigit(v2[n2]) && n2 < n) n2++;
-  /* Compare minor number */
-  if (n1 < n) n1++;
-  if (n2 < n) n2++;
-  d = natoi(v1+n1, n-n1) - natoi(v2+n2, n-n2);
-  if (d) return (d < 0) ? -1 : 1;
-  while (isdigit(v1[n1]) && n1 < n) n1++;
-  while (isdigit(v2[n2]) && n2 < n) n2++;
-  /* Compare patch number */
-  if (n1 < n) n1++;
-  if (n2 < n) n2++;
-  d = natoi(v1+n1, n-n1) - natoi(v2+n2, n-n2);
-  if (d) return (d < 0) ? -1 : 1;
-  while (isdigit(v1[n1]) && n1 < n) n1++;
-  while (isdigit(v2[n2]) && n2 < n) n2++;
-  assert(n1 == n2);
-  m = n1;
+  int d, i, pr1, pr2;
+  size_t n1=0, n2=0;
+
+  /* Compare major, minor and patch numbers */
+  for (i=0; i<3; i++) {
+    size_t m1, m2;
+    if (i > 0 && n1 < n && v1[n1]) n1++;
+    if (i > 0 && n2 < n && v2[n2]) n2++;
+    for (m1=n1; m1 < n && isdigit((unsigned char)v1[m1]); m1++);
+    for (m2=n2; m2 < n && isdigit((unsigned char)v2[m2]); m2++);
+    d = compare_digits(v1+n1, m1-n1, v2+n2, m2-n2);
+    if (d) return (d < 0) ? -1 : 1;
+    n1 = m1;
+    n2 = m2;
+  }
+
   /* Compare pre-release */
-  if (m > n) return 0;
-  if (v1[m] == '-') pr1 = 1;
-  if (v2[m] == '-') pr2 = 1;
+  pr1 = (v1[n1] == '-');
+  pr2 = (v2[n2] == '-');
   if (!pr1 && pr2) return -1;
   if (pr1 && !pr2) return 1;
-  if (pr1 && pr2) {
-    do {
-      size_t d1, d2;
-      if (m < n) m++;
-      for (n1=m; (isalnum(v1[n1]) || v1[n1] == '-') && n1 < n; n1++);
-      for (n2=m; (isalnum(v2[n2]) || v2[n2] == '-') && n2 < n; n2++);
-      for (d1=m; (isdigit(v1[d1])) && d1 < n; d1++);
-      for (d2=m; (isdigit(v2[d2])) && d2 < n; d2++);
-      if (d1 == n1 && d2 == n2) {
-        d = natoi(v1+m, n-m) - natoi(v2+m, n-m);
-      } else {
-        d = strncmp(v1+m, v2+m, MIN(n1, n2)-m);
-        if (d == 0) d = n1 - n2;
-      }
-      if (d) return (d < 0) ? -1 : 1;
-      assert(n1 == n2);
-      m = n1;
-    } while (v1[n1] == '.' && v2[n2] == '.');
+  while (pr1 && pr2) {
+    size_t m1, m2, d1, d2;
+    if (n1 < n) n1++;
+    if (n2 < n) n2++;
+    m1 = identifier_length(v1+n1, n-n1, &d1);
+    m2 = identifier_length(v2+n2, n-n2, &d2);
+    if (m1 && m2 && d1 == m1 && d2 == m2) {
+      d = compare_digits(v1+n1, m1, v2+n2, m2);
+    } else if (m1 && m2 && d1 == m1) {
+      d = -1;  // numeric identifiers have lower precedence
+    } else if (m1 && m2 && d2 == m2) {
+      d = 1;
+    } else {
+      d = strncmp(v1+n1, v2+n2, MIN(m1, m2));
+      if (d == 0 && m1 != m2) d = (m1 < m2) ? -1 : 1;
+    }
+    if (d) return (d < 0) ? -1 : 1;
+    n1 += m1;
+    n2 += m2;
+    pr1 = (n1 < n && v1[n1] == '.');
+    pr2 = (n2 < n && v2[n2] == '.');
+    if (pr1 != pr2) return (pr2) ? -1 : 1;
   }
   return 0;
 }
-- 
2.43.0


From b5089203f64df19fdc633bfe5e4868618e960d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 054/212] fix: strsets() and strsetn() of an empty string left
 the destination unterminated

---
 src/utils/strutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 54000ff..1e07715 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -123,6 +123,7 @@ int strsetc(char *dest, long size, int c)
 int strsets(char *dest, long size, const char *src)
 {
   int n=0;
+  if (size > 0) dest[0] = '\0';
   while (*src)
     n += strsetc(dest+n, size-n, *(src++));
   return n;
@@ -134,6 +135,7 @@ int strsets(char *dest, long size, const char *src)
 int strsetn(char *dest, long size, const char *src, int len)
 {
   int i, n=0;
+  if (size > 0) dest[0] = '\0';
   if (len < 0) len = strlen(src);
   for (i=0; i<len; i++)
     n += strsetc(dest+n, size-n, src[i]);
-- 
2.43.0


From ac9e3027f3693760a185887c88939c8c1adeff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 055/212] fix: dlite_split_meta_uri() read before an uri
 starting with its only slash

---
 src/dlite-misc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 5b5111f..0b99623 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -321,6 +321,8 @@ int dlite_split_meta_uri(const char *uri, char **name, char **version,
 
   if (!(p = strrchr(uri, '/')))
     FAIL1("invalid metadata uri: '%s'", uri);
+  if (p == uri)
+    FAIL1("invalid metadata uri: '%s'", uri);
   q = p-1;
   while (*q != '/' && q > uri) q--;
   if (q == uri)
-- 
2.43.0


From 5a0f7740008e511e073aeed45bea9e6a21d36822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 056/212] fix: urlsplitn() parsed beyond the given length

---
 src/utils/urlsplit.c | 62 +++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/utils/urlsplit.c b/src/utils/urlsplit.c
index c3b8e68..fdcca96 100644
--- a/src/utils/urlsplit.c
+++ b/src/utils/urlsplit.c
@@ -77,25 +77,8 @@ int isurln(const char *url, int len)
   pointer and length information of the different components of `url`.
  */
 int urlsplit(const char *url, UrlComponents *components)
-{
-  return urlsplitn(url, -1, components);
-}
-
-
-/*
-  Like urlsplit(), but takes an extra argument `len`.
-
-  If `len` is positive, the `len` first characters of `url` must be a
-  valid URL (in which case `len` is returned), otherwise zero is returned.
-
-  A negative `len` means that the whole length of `url` is parsed
-  (equivalent to ``len=strlen(url)``).
- */
-int urlsplitn(const char *url, int len, UrlComponents *components)
 {
   int n=0;
-  if (len == 0) return 0;
-  if (len < 0) len = (int)strlen(url);
   if (components) memset(components, 0, sizeof(UrlComponents));
 
   /* check scheme */
@@ -104,12 +87,11 @@ int urlsplitn(const char *url, int len, UrlComponents *components)
   if (!n) return 0;
   n += jspn(url+n, strcatDigit, 0, "+.-");
   if (url[n++] != ':') return 0;
-  if (len && n > len) return 0;
   if (components) components->scheme_len = n-1;
 
   if (components) components->path = url+n;  // path must always be defined:
                                              // set now - update later
-  if (n == len) return n;
+  if (!url[n]) return n;
 
   /* check authority */
   if (url[n] == '/' && url[n+1] == '/') {
@@ -160,24 +142,19 @@ int urlsplitn(const char *url, int len, UrlComponents *components)
        character. */
     if (url[n] && !strchr("/?#", url[n])) return 0;
   }
-  if (len && len < n) return 0;
 
   /* check path */
   if (url[n] == '/' && url[n+1] == '/') return 0;  // must not start with "//"
   if (components) components->path = url+n;
   n += jspn(url+n, strcatSubDelims, 1, "/:@");
-  if (len > 0 && n >= len) n = len;
   if (components) components->path_len = (int)(url+n - components->path);
-  if (len > 0 && n >= len) return len;
 
   /* check query */
   if (url[n] == '?') {
     n++;
     if (components) components->query = url+n;
     n += jspn(url+n, strcatSubDelims, 1, "/?:@");
-    if (len > 0 && n >= len) n = len;
     if (components) components->query_len = (int)(url+n - components->query);
-    if (len > 0 && n >= len) return len;
   }
 
   /* check fragment */
@@ -185,17 +162,48 @@ int urlsplitn(const char *url, int len, UrlComponents *components)
     n++;
     if (components) components->fragment = url+n;
     n += jspn(url+n, strcatSubDelims, 1, "/?:@");
-    if (len > 0 && n >= len) n = len;
     if (components) components->fragment_len =
                       (int)(url+n - components->fragment);
-    if (len > 0 && n >= len) return len;
   }
 
-  if (len <= 0 && url[n]) return 0;
   return n;
 }
 
 
+/*
+  Like urlsplit(), but takes an extra argument `len`.
+
+  If `len` is positive, the `len` first characters of `url` must be a
+  valid URL (in which case `len` is returned), otherwise zero is returned.
+
+  A negative `len` means that the whole length of `url` is parsed
+  (equivalent to ``len=strlen(url)``).
+ */
+int urlsplitn(const char *url, int len, UrlComponents *components)
+{
+  int i, n;
+  char *copy;
+  if (len < 0 || (int)strnlen(url, len) < len)
+    return urlsplit(url, components);
+
+  /* Only the first `len` bytes of `url` can be read. Split a copy and let
+     the components refer to `url`. */
+  if (!(copy = strndup(url, len))) return 0;
+  n = urlsplit(copy, components);
+  if (components) {
+    const char **ptrs[] = {
+      &components->scheme, &components->authority, &components->userinfo,
+      &components->host, &components->port, &components->path,
+      &components->query, &components->fragment
+    };
+    for (i=0; i < (int)(sizeof(ptrs)/sizeof(ptrs[0])); i++)
+      if (*ptrs[i]) *ptrs[i] = url + (*ptrs[i] - copy);
+  }
+  free(copy);
+  return (n == len) ? len : 0;
+}
+
+
 /*
   Join URL components `components` and write them to buffer `buf`.
 
-- 
2.43.0


From 312a7b04db6515a2e90a02f4bdcc75382493eb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 057/212] fix: valid URLs with empty path segments, mapped IPv6
 hosts and long IPvFuture versions were rejected

---
 src/utils/urlsplit.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/urlsplit.c b/src/utils/urlsplit.c
index fdcca96..d1b5b66 100644
--- a/src/utils/urlsplit.c
+++ b/src/utils/urlsplit.c
@@ -115,12 +115,13 @@ int urlsplit(const char *url, UrlComponents *components)
       if (url[n] == 'v' || url[n] == 'V') {
         /* IPvFuture */
         if (!isxdigit(url[n+1])) return 0;
-        if (url[n+2] != '.') return 0;
-        n += 3;
+        n++;
+        while (isxdigit(url[n])) n++;
+        if (url[n++] != '.') return 0;
         n += jspn(url+n, strcatSubDelims, 1, ":");
       } else {
         /* IPv6 host */
-        while (isxdigit(url[n]) || url[n] == ':') n++;
+        while (isxdigit(url[n]) || url[n] == ':' || url[n] == '.') n++;
       }
       if (url[n++] != ']') return 0;
     } else {
@@ -144,7 +145,6 @@ int urlsplit(const char *url, UrlComponents *components)
   }
 
   /* check path */
-  if (url[n] == '/' && url[n+1] == '/') return 0;  // must not start with "//"
   if (components) components->path = url+n;
   n += jspn(url+n, strcatSubDelims, 1, "/:@");
   if (components) components->path_len = (int)(url+n - components->path);
-- 
2.43.0


From 97cbeaaa806597d7d8599822e7acb841794086d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 058/212] fix: urljoin() encoded percent-encodings and IP
 literals again and dropped empty components

---
 src/utils/urlsplit.c | 58 ++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/utils/urlsplit.c b/src/utils/urlsplit.c
index d1b5b66..8894b94 100644
--- a/src/utils/urlsplit.c
+++ b/src/utils/urlsplit.c
@@ -204,6 +204,26 @@ int urlsplitn(const char *url, int len, UrlComponents *components)
 }
 
 
+/*
+  Like pct_xencode(), but leaves percent-encoded characters in `src` as they
+  are.
+ */
+static int encode_component(char *buf, long size, const char *src, long len,
+                            StrCategory maxcat, const char *accepted)
+{
+  int m, n=0;
+  long i=0, j;
+  while (i < len) {
+    for (j=i; j < len && !(j+2 < len && percent_encoded(src+j)); j++);
+    if ((m = pct_xencode(buf+n, size-n, src+i, j-i, maxcat, accepted)) < 0)
+      return -1;
+    n += m;
+    for (i=j; i < len && i < j+3; i++)
+      n += strsetc(buf+n, size-n, src[i]);
+  }
+  return n;
+}
+
 /*
   Join URL components `components` and write them to buffer `buf`.
 
@@ -229,49 +249,51 @@ int urljoin(char *buf, long size, UrlComponents *components)
   n += strsetc(buf+n, size-n, ':');
 
   /* authority */
-  if (c->host && c->host_len > 0) {
+  if (c->host && (c->host_len > 0 || c->authority)) {
     n += strsets(buf+n, size-n, "//");
-    if (c->userinfo && c->userinfo_len > 0) {
-      if ((m = pct_xencode(buf+n, size-n, c->userinfo, c->userinfo_len,
-                           strcatSubDelims, ":")) < 0)
+    if (c->userinfo) {
+      if ((m = encode_component(buf+n, size-n, c->userinfo, c->userinfo_len,
+                                strcatSubDelims, ":")) < 0)
         return -1;
       n += m;
       n += strsetc(buf+n, size-n, '@');
     }
-    if ((m = pct_xencode(buf+n, size-n, c->host, c->host_len,
-                         strcatSubDelims, ":")) < 0) return -1;
+    if ((m = encode_component(buf+n, size-n, c->host, c->host_len,
+                              strcatSubDelims,
+                              (c->host_len && c->host[0] == '[') ?
+                              ":[]" : ":")) < 0) return -1;
     n += m;
-    if (c->port && c->port_len) {
+    if (c->port) {
       n += strsetc(buf+n, size-n, ':');
       n += strsetn(buf+n, size-n, c->port, c->port_len);
     }
-  } else if (c->authority && c->authority_len) {
+  } else if (c->authority) {
     n += strsets(buf+n, size-n, "//");
-    if ((m = pct_xencode(buf+n, size-n, c->authority, c->authority_len,
-                         strcatSubDelims, ":@")) < 0)
+    if ((m = encode_component(buf+n, size-n, c->authority, c->authority_len,
+                              strcatSubDelims, ":@[]")) < 0)
       return -1;
     n += m;
   }
 
   /* path */
-  if ((m = pct_xencode(buf+n, size-n, c->path, c->path_len,
-                       strcatSubDelims, "/:@")) < 0) return -1;
+  if ((m = encode_component(buf+n, size-n, c->path, c->path_len,
+                            strcatSubDelims, "/:@")) < 0) return -1;
   n += m;
 
   /* query */
-  if (c->query && c->query_len) {
+  if (c->query) {
     n += strsetc(buf+n, size-n, '?');
-    if ((m = pct_xencode(buf+n, size-n, c->query, c->query_len,
-                         strcatSubDelims, "/:@?")) < 0)
+    if ((m = encode_component(buf+n, size-n, c->query, c->query_len,
+                              strcatSubDelims, "/:@?")) < 0)
       return -1;
     n += m;
   }
 
   /* fragment */
-  if (c->fragment && c->fragment_len) {
+  if (c->fragment) {
     n += strsetc(buf+n, size-n, '#');
-    if ((m = pct_xencode(buf+n, size-n, c->fragment, c->fragment_len,
-                         strcatSubDelims, "/:@?")) < 0)
+    if ((m = encode_component(buf+n, size-n, c->fragment, c->fragment_len,
+                              strcatSubDelims, "/:@?")) < 0)
       return -1;
     n += m;
   }
-- 
2.43.0


From 11bae0bd064deeeb19ff0de5ee619657e9fcf2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 059/212] fix: percent-encoding left empty output unterminated
 and decoding read past its input

---
 src/utils/urlsplit.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/utils/urlsplit.c b/src/utils/urlsplit.c
index 8894b94..60b2dc5 100644
--- a/src/utils/urlsplit.c
+++ b/src/utils/urlsplit.c
@@ -363,6 +363,7 @@ int pct_xencode(char *buf, long size, const char *src, long len,
 {
   int n=0;
   long i;
+  if (size > 0) buf[0] = '\0';
   if (len < 0) len = (long)strlen(src);
   for (i=0; i<len; i++) {
     if (strcategory(src[i]) <= maxcat ||
@@ -405,16 +406,14 @@ int pct_ndecode(char *buf, long size, const char *encoded, long len)
 {
   int n=0;
   long i=0;
+  if (size > 0) buf[0] = '\0';
   if (len < 0) len = (long)strlen(encoded);
-  while (encoded[i] && i < len) {
+  while (i < len && encoded[i]) {
     if (encoded[i] == '%') {
       if (i+2 >= len || !isxdigit(encoded[i+1]) || !isxdigit(encoded[i+2]))
         return -1;
-      unsigned int c;
-      int m = sscanf(encoded+i+1, "%2x", &c);
-      if (m < 0) return -1;
-      assert(m == 1);
-      n += strsetc(buf+n, size-n, c);
+      char hex[3] = {encoded[i+1], encoded[i+2], '\0'};
+      n += strsetc(buf+n, size-n, (int)strtol(hex, NULL, 16));
       i += 3;
     } else
       n += strsetc(buf+n, size-n, encoded[i++]);
-- 
2.43.0


From 55b9e7473f5c49a89e274839a809d5efe8cf894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 060/212] fix: tgen_buf_append_fmt() read past its buffer for
 output longer than 127 bytes

---
 src/utils/tgen.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index fecfa11..dd0abf2 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -582,17 +582,18 @@ int tgen_buf_append_fmt(TGenBuf *s, const char *fmt, ...)
  */
 int tgen_buf_append_vfmt(TGenBuf *s, const char *fmt, va_list ap)
 {
-  int n, retval;
+  int n, retval=-1;
   char buf[128], *src=buf;
   va_list ap2;
   va_copy(ap2, ap);
 
   /* First try to write to a stack-allocated buffer instead of allocating
      with malloc().  Resort to malloc if this fails... */
-  if ((n = vsnprintf(buf, sizeof(buf), fmt, ap)) < 1)
+  if ((n = vsnprintf(buf, sizeof(buf), fmt, ap)) < 0)
     FAIL1(TGenFormatError, "invalid format string \"%s\"", fmt);
-  if (n <= (int)sizeof(buf)) {
-    src = malloc(n + 1);
+  if (n >= (int)sizeof(buf)) {
+    if (!(src = malloc(n + 1)))
+      FAIL(TGenAllocationError, "allocation failure");
     if ((vsnprintf(src, n+1, fmt, ap2)) != n)
       FAIL1(TGenFormatError, "invalid format string \"%s\"", fmt);
   }
-- 
2.43.0


From 22e3a89fa3b05f1bc7533028bc2acb316b2e62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:58 +0000
Subject: [PATCH 061/212] fix: dlite_join_url() converted backslashes in its
 arguments as escape sequences

---
 src/dlite-misc.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 0b99623..e9532f4 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -451,13 +451,13 @@ int dlite_option_parse(char *options, DLiteOpt *opts, DLiteOptFlag flags)
 char *dlite_join_url(const char *driver, const char *location,
                      const char *options, const char *fragment)
 {
-  TGenBuf s;
-  tgen_buf_init(&s);
-  if (driver) tgen_buf_append_fmt(&s, "%s://", driver);
-  tgen_buf_append(&s, location, -1);
-  if (options) tgen_buf_append_fmt(&s, "?%s", options);
-  if (fragment) tgen_buf_append_fmt(&s, "#%s", fragment);
-  return tgen_buf_steal(&s);
+  char *url = aprintf("%s%s%s%s%s%s%s",
+                      (driver) ? driver : "", (driver) ? "://" : "",
+                      location,
+                      (options) ? "?" : "", (options) ? options : "",
+                      (fragment) ? "#" : "", (fragment) ? fragment : "");
+  if (!url) err(dliteMemoryError, "allocation failure");
+  return url;
 }
 
 
-- 
2.43.0


From bf304bea33891c45a0231086aabc4f92ed5bb4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 062/212] fix: a warning reported after an error reset the
 pending error value

---
 src/utils/err.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/utils/err.c b/src/utils/err.c
index 2576561..3038711 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -213,6 +213,7 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
   int ignore_new_error = 0;
   ErrHandler handler = err_get_handler();
   ErrNameConv nameconv = err_get_nameconv();
+  ErrLevel pending_level = errLevelSuccess;
 
   /* Skip low error levels */
   if (errlevel < err_get_level())
@@ -261,10 +262,16 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     }
   }
 
-  /* Update the current error record */
+  /* Update the current error record.  Messages that are not errors must not
+     reset a pending error, unless new messages overwrite old errors. */
+  if (eval || !tls->err_record->eval ||
+      override == errOverrideOld || override == errOverrideWarnOld) {
+    tls->err_record->eval = eval;
+    tls->err_record->errnum = errnum;
+  } else {
+    pending_level = tls->err_record->level;
+  }
   tls->err_record->level = errlevel;
-  tls->err_record->eval = eval;
-  tls->err_record->errnum = errnum;
 
   /* Write error message */
   if (!ignore_new_error) {
@@ -303,7 +310,7 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
 
   /* If this error occured after the try clause in an ErrTry handler,
      we mark this error to be reraised after leaving the handler. */
-  if (errlevel >= errLevelError && tls->err_record->state)
+  if (eval && errlevel >= errLevelError && tls->err_record->state)
     tls->err_record->reraise = eval;
 
   /* Call error handler */
@@ -336,6 +343,9 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     if (handler) handler(tls->err_record);
   }
 
+  /* Restore the level of a pending error */
+  if (pending_level > errlevel) tls->err_record->level = pending_level;
+
   /* Clear errno */
   errno = 0;
 
-- 
2.43.0


From 24109d8f0a36dcbab56b32d028873d70cb2fc756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 063/212] fix: propagating a long error message out of an
 ErrTry block overflowed the message buffer

---
 src/utils/err.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utils/err.c b/src/utils/err.c
index 3038711..0ac74ac 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -886,6 +886,7 @@ void _err_unlink_record(ErrRecord *record)
   if (record->reraise || (record->eval && !record->handled)) {
     int eval = (record->reraise) ? record->reraise : record->eval;
     ErrAbortMode abort_mode = err_get_abort_mode();
+    size_t errsize = sizeof(tls->err_record->msg);
     int ignore_new = 0;
     int n = 0;
 
@@ -894,8 +895,7 @@ void _err_unlink_record(ErrRecord *record)
       case errOverrideEnv:
       case errOverrideAppend:
         n = strlen(tls->err_record->msg);
-        strncat(tls->err_record->msg+n, err_append_sep, ERR_MSGSIZE-n);
-        n += strlen(err_append_sep);
+        n += snprintf(tls->err_record->msg+n, errsize-n, "%s", err_append_sep);
         break;
       case errOverrideWarnOld:
         fprintf(stderr, "** Warning: overwriting old error: %s\n",
@@ -915,7 +915,9 @@ void _err_unlink_record(ErrRecord *record)
     tls->err_record->level = record->level;
     tls->err_record->eval = eval;
     tls->err_record->errnum = record->errnum;
-    if (!ignore_new) strncpy(tls->err_record->msg+n, record->msg, ERR_MSGSIZE-n);
+    if (!ignore_new)
+      snprintf(tls->err_record->msg + MSGPOS(n), errsize - MSGPOS(n), "%s",
+               record->msg);
 
     if (record->level == errLevelException && tls->err_record->prev)
       longjmp(tls->err_record->env, eval);
-- 
2.43.0


From 7ac48d33e04f75944c9a14598b62a0566c8d9188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 064/212] fix: error leaving an ErrTry block nested in a clause
 after the try clause was swallowed

---
 src/utils/err.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/err.c b/src/utils/err.c
index 0ac74ac..4d7fd40 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -919,6 +919,11 @@ void _err_unlink_record(ErrRecord *record)
       snprintf(tls->err_record->msg + MSGPOS(n), errsize - MSGPOS(n), "%s",
                record->msg);
 
+    /* If the outer ErrTry block has left its try clause, the propagated error
+       must be reraised when leaving that block. */
+    if (record->level >= errLevelError && tls->err_record->state)
+      tls->err_record->reraise = eval;
+
     if (record->level == errLevelException && tls->err_record->prev)
       longjmp(tls->err_record->env, eval);
 
-- 
2.43.0


From 7549408c90e0a12e7c1c3308a45d6ea1229d3797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 065/212] fix: dlite_err_set_file() sent all errors to stdout

---
 src/dlite-misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index e9532f4..b8010ee 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -1123,9 +1123,9 @@ void dlite_err_set_file(const char *filename)
   FILE *fp;
   if (!filename || !*filename)
     err_set_stream(NULL);
-  else if (strcmp(filename, "<stdout>"))
+  else if (strcmp(filename, "<stdout>") == 0)
     err_set_stream(stdout);
-  else if (strcmp(filename, "<stderr>"))
+  else if (strcmp(filename, "<stderr>") == 0)
     err_set_stream(stderr);
   else if ((fp = fopen(filename, "a")))
     err_set_stream(fp);
-- 
2.43.0


From 349c73ec76312f9e7a1847275af8969a5c06cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 066/212] fix: errctl() failed for hide=False and show=False

---
 bindings/python/dlite-misc-python.i | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/python/dlite-misc-python.i b/bindings/python/dlite-misc-python.i
index 982b641..0f5cb0c 100644
--- a/bindings/python/dlite-misc-python.i
+++ b/bindings/python/dlite-misc-python.i
@@ -38,13 +38,13 @@ class errctl():
 
         if hide is True or show is False:
             self.hide = allcodes
-        elif hide is not False:
-            self.hide = self._as_codes(hide)
+        else:
+            self.hide = self._as_codes(() if hide is False else hide)
 
         if show is True or hide is False:
             self.show = allcodes
-        elif show is not False:
-            self.show = self._as_codes(show)
+        else:
+            self.show = self._as_codes(() if show is False else show)
 
         self.filename = filename
 
-- 
2.43.0


From dfbf88afd0836c50416b9490b1cc2bae038e48f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:34 +0000
Subject: [PATCH 067/212] fix: seeding the random generators with zero left
 them unseeded

---
 src/utils/rng.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/rng.c b/src/utils/rng.c
index a5e98c7..99c9353 100644
--- a/src/utils/rng.c
+++ b/src/utils/rng.c
@@ -116,7 +116,7 @@ static uint32_t mwc_upper = 362436069, mwc_lower = 521288629;
 
 int srand_mwc(uint32_t seed)
 {
-  if (seed == 0) return random_seed(&seed, sizeof(seed));
+  if (seed == 0 && random_seed(&seed, sizeof(seed))) return 1;
   mwc_lower = seed | 521288629;   /* Can't seed with 0 */
   mwc_upper = seed | 362436069;
   return 0;
@@ -132,7 +132,7 @@ uint32_t rand_mwc(void)
 
 int srand_mwc_r(MWCState *state, uint32_t seed)
 {
-  if (seed == 0) return random_seed(&seed, sizeof(seed));
+  if (seed == 0 && random_seed(&seed, sizeof(seed))) return 1;
   state->mwc_lower = seed | 521288629;   /* Can't seed with 0 */
   state->mwc_upper = seed | 362436069;
   return 0;
@@ -217,7 +217,7 @@ double drand_msws32_r(MSWS32State *s)
 
 int srand_msws32_r(MSWS32State *s, uint64_t seed)
 {
-  if (seed == 0) return random_seed(&seed, sizeof(seed));
+  if (seed == 0 && random_seed(&seed, sizeof(seed))) return 1;
   s->x = s->w = s->s = rand_digits(seed);
   return 0;
 }
-- 
2.43.0


From 679dfa2bfdccb5e3834235f92ec7a0bb0b3e4d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:34 +0000
Subject: [PATCH 068/212] fix: random_seed() without a system random source
 overflowed its buffer

---
 src/utils/rng.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/utils/rng.c b/src/utils/rng.c
index 99c9353..0b55b40 100644
--- a/src/utils/rng.c
+++ b/src/utils/rng.c
@@ -28,15 +28,17 @@
 /* Fill `buf` of size `size` with random bytes using seed. */
 static void random_bytes(void *buf, size_t size, uint32_t seed)
 {
-  uint32_t *p = buf;
+  unsigned char *p = buf;
   MSWS32State state;
-  srand_msws32_r(&state, seed);
+  srand_msws32_r(&state, (seed) ? seed : 1);
 
-  do {
+  while (size > 0) {
     uint32_t v = rand_msws32_r(&state);
-    memcpy(p++, &v, MIN(sizeof(uint32_t), size));
-    size -= sizeof(uint32_t);
-  } while (size > 0);
+    size_t n = MIN(sizeof(uint32_t), size);
+    memcpy(p, &v, n);
+    p += n;
+    size -= n;
+  }
 }
 
 
-- 
2.43.0


From bbc4066e93a895d21aaf5248d156324dbb0dd1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:34 +0000
Subject: [PATCH 069/212] fix: uuid_from_string() accepted or crashed on
 strings that are not UUIDs

---
 src/utils/uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/uuid.c b/src/utils/uuid.c
index c1cd472..5f826a5 100644
--- a/src/utils/uuid.c
+++ b/src/utils/uuid.c
@@ -202,7 +202,7 @@ int uuid_from_string(uuid_s *uuid, const char *s, size_t len)
 {
   uuid_s u;
   int i, n;
-  if (len != 36)
+  if (len != 36 || !isuuid(s))
     return 1;
 
   if (sscanf(s, "%8x-%4hx-%4hx-%n",
-- 
2.43.0


From a0d3b54a98ae495ce687f1b5f20512da0598719a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:30 +0000
Subject: [PATCH 070/212] fix: pathshash() leaked its iterator for an invalid
 hash size

---
 src/pathshash.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pathshash.c b/src/pathshash.c
index 29326f5..e22b651 100644
--- a/src/pathshash.c
+++ b/src/pathshash.c
@@ -24,8 +24,10 @@ int pathshash(unsigned char *hash, int hashsize, const FUPaths *paths,
   const char *path;
   if (!(iter = fu_startmatch(pattern, paths)))
     return err(1, "cannot initiate paths iterator (%d)", (paths) ? (int)paths->n : -1);
-  if (sha3_Init(&c, bitsize))
+  if (sha3_Init(&c, bitsize)) {
+    fu_endmatch(iter);
     return err(1, "invalid hash size: %d bytes", hashsize);
+  }
   while ((path = fu_nextmatch(iter)))
     sha3_Update(&c, path, strlen(path));
   buf = sha3_Finalize(&c);
-- 
2.43.0


From 6ba7df80fbf48a69933bbbe0005c7b0e3d9707eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 071/212] fix: globmatch() accessed memory outside its
 character table for non-ASCII characters and took ']' for part of every class

---
 src/utils/globmatch.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/utils/globmatch.c b/src/utils/globmatch.c
index 6197335..4fe744d 100644
--- a/src/utils/globmatch.c
+++ b/src/utils/globmatch.c
@@ -36,9 +36,9 @@
 #include "globmatch.h"
 
 # define CHECK_BIT( tab, bit ) ( tab[ (bit)/8 ] & (1<<( (bit)%8 )) )
-# define BITLISTSIZE 16 /* bytes used for [chars] in compiled expr */
+# define BITLISTSIZE 32 /* bytes used for [chars] in compiled expr */
 
-static void globchars();
+static void globchars(const char *s, const char *e, char *b);
 
 /*
  * globmatch() - match a string against a simple pattern
@@ -75,7 +75,7 @@ int globmatch(const char *pattern, const char *string)
 
                 /* build character class bitlist */
 
-                globchars( here, c, bitlist );
+                globchars( here, c - 1, bitlist );
 
                 if( !CHECK_BIT( bitlist, *(unsigned char *)s ) )
                         return 1;
@@ -127,8 +127,7 @@ int globmatch(const char *pattern, const char *string)
  */
 
 static void
-globchars( s, e, b )
-char *s, *e, *b;
+globchars( const char *s, const char *e, char *b )
 {
         int neg = 0;
 
@@ -143,11 +142,11 @@ char *s, *e, *b;
 
                 if( s+2 < e && s[1] == '-' )
                 {
-                        for( c = s[0]; c <= s[2]; c++ )
+                        for( c = (unsigned char)s[0]; c <= (unsigned char)s[2]; c++ )
                                 b[ c/8 ] |= (1<<(c%8));
                         s += 3;
                 } else {
-                        c = *s++;
+                        c = (unsigned char)*s++;
                         b[ c/8 ] |= (1<<(c%8));
                 }
         }
-- 
2.43.0


From 7b20f9abf9a9f81f654287aae7c08495d010ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 072/212] fix: fu_nextpath() read past the end of a string
 ending with repeated path separators

---
 src/utils/fileutils.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 467feae..0a0e6ae 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -446,9 +446,7 @@ const char *fu_nextpath(const char *paths, char **endptr, const char *pathsep)
     p = *endptr + 1;
 
   /* ignore repeated path separators */
-  if (*p) {
-    while (strchr((pathsep) ? pathsep : ";:", *p)) p++;
-  }
+  while (*p && strchr((pathsep) ? pathsep : ";:", *p)) p++;
 
   if (pathsep) {
     *endptr = p + strcspn(p, pathsep);
-- 
2.43.0


From e69a0d6e20703a1547dd0fc279a6db76076941a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 073/212] fix: fu_winpath() and fu_unixpath() left stale
 characters after repeated separators, changed URLs and overflowed short
 buffers

---
 src/utils/fileutils.c | 73 ++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 0a0e6ae..5ce5565 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -47,9 +47,6 @@
 #define FAIL1(msg, a1) do { \
     err(1, msg, a1); goto fail; } while (0)
 
-/* Expands to `a`, if `a` is positive, otherwise to zero. */
-#define POS(a) (((a) > 0) ? (a) : 0)
-
 
 /* Paths iterator */
 struct _FUIter {
@@ -499,35 +496,41 @@ const char *fu_nextpath(const char *paths, char **endptr, const char *pathsep)
  */
 char *fu_winpath(const char *path, char *dest, size_t size, const char *pathsep)
 {
-  char *q, *d, *endptr=NULL;
+  char *q, *d, *buf, *endptr=NULL;
   const char *p;
+  size_t bufsize = strlen(path) + 3;
   int n=0;
-  if (!dest) {
-    size = strlen(path) + 3;
-    for (p=path; *p; p++) if (strchr(";:", *p)) size += 2;
-    if (!(dest = malloc(size))) return err(1, "allocation failure"), NULL;
-  }
+  for (p=path; *p; p++) if (strchr(";:", *p)) bufsize += 2;
+  if (!(buf = malloc(bufsize))) return err(1, "allocation failure"), NULL;
+  buf[0] = '\0';
   while ((p = fu_nextpath(path, &endptr, pathsep))) {
     int len = endptr - p;
     if (!fu_iswinpath(p, len) && isurln(p, len)) {
-      n += snprintf(dest+n, POS(size-n), "%.*s", len, p);
+      n += snprintf(buf+n, bufsize-n, "%.*s", len, p);
     } else {
-      if (globmatch("/[a-zA-Z]/*", p) == 0) {
-        n += snprintf(dest+n, POS(size-n), "%c:\\%.*s", toupper(p[1]),
+      char *start = buf + n;
+      if (len >= 3 && globmatch("/[a-zA-Z]/*", p) == 0) {
+        n += snprintf(buf+n, bufsize-n, "%c:\\%.*s", toupper(p[1]),
                       len-3, p+3);
       } else {
-        n += snprintf(dest+n, POS(size-n), "%.*s", len, p);
+        n += snprintf(buf+n, bufsize-n, "%.*s", len, p);
+      }
+      for (q=start; *q; q++) if (*q == '/') *q = '\\';
+
+      /* Remove repeated dirsep's */
+      for (d=q=start; *q; d++, q++) {
+        while (*q == '\\' && *(q+1) == '\\') q++;
+        *d = *q;
       }
-      if (*endptr) n += snprintf(dest+n, POS(size-n), ";");
-      for (q=dest; *q; q++) if (*q == '/') *q = '\\';
+      *d = '\0';
+      n = d - buf;
     }
+    if (*endptr) n += snprintf(buf+n, bufsize-n, ";");
   }
 
-  /* Remove repeated dirsep's */
-  for (d=q=dest; *q; d++, q++) {
-    while (*q == '\\' && *(q+1) == '\\') q++;
-    *d = *q;
-  }
+  if (!dest) return buf;
+  snprintf(dest, size, "%s", buf);
+  free(buf);
   return dest;
 }
 
@@ -550,44 +553,48 @@ char *fu_winpath(const char *path, char *dest, size_t size, const char *pathsep)
 char *fu_unixpath(const char *path, char *dest, size_t size,
                   const char *pathsep)
 {
-  char *endptr=NULL;
+  char *buf, *endptr=NULL;
   const char *p;
+  size_t bufsize = strlen(path) + 1;
   char sep = (pathsep) ? (strchr(pathsep, ':')) ? ':' : pathsep[0] : ':';
 
   int n=0;
-  if (!dest) {
-    size = strlen(path) + 1;
-    if (!(dest = malloc(size))) return err(1, "allocation failure"), NULL;
-  }
+  if (!(buf = malloc(bufsize))) return err(1, "allocation failure"), NULL;
+  buf[0] = '\0';
   while ((p = fu_nextpath(path, &endptr, pathsep))) {
     int len = endptr - p;
 
     if (isurln(p, len)) {
-      n += snprintf(dest+n, POS(size-n), "%.*s", len, p);
+      n += snprintf(buf+n, bufsize-n, "%.*s", len, p);
     } else {
-      char *start=dest+n, *q, *d;
+      char *start=buf+n, *q, *d;
       if (len > 3 && isalpha(p[0]) && p[1] == ':' && strchr("\\/", p[2])) {
-        n += snprintf(dest+n, POS(size-n), "/%c/%.*s", tolower(p[0]),
+        n += snprintf(buf+n, bufsize-n, "/%c/%.*s", tolower(p[0]),
                       len-3, p+3);
       } else if (len > 2 && isalpha(p[0]) && p[1] == ':' &&
                  !strchr("\\/", p[2])) {
         warn("relative path prefixed with drive: '%s'. Drive is ignored, "
              "please use absolute paths in combination with drive", p);
-        n +=snprintf(dest+n, POS(size-n), "%.*s", len-2, p+2);
+        n +=snprintf(buf+n, bufsize-n, "%.*s", len-2, p+2);
       } else {
-        n += snprintf(dest+n, POS(size-n), "%.*s", len, p);
+        n += snprintf(buf+n, bufsize-n, "%.*s", len, p);
       }
       /* Convert backward to forward slashes and remove repeated dirsep's */
       for (q=start; *q; q++) if (*q == '\\') *q = '/';
-      for (d=q=dest; *q; d++, q++) {
-        while (*q == '/' && *(q+1) == '/') q++, n--;
+      for (d=q=start; *q; d++, q++) {
+        while (*q == '/' && *(q+1) == '/') q++;
         *d = *q;
       }
+      *d = '\0';
+      n = d - buf;
     }
     /* add separator */
-    if (*endptr) n += snprintf(dest+n, POS(size-n), "%c", sep);
+    if (*endptr) n += snprintf(buf+n, bufsize-n, "%c", sep);
   }
 
+  if (!dest) return buf;
+  snprintf(dest, size, "%s", buf);
+  free(buf);
   return dest;
 }
 
-- 
2.43.0


From 95dfd3791dec6d3928ca4eb05fde6ba5b18306d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 074/212] fix: fu_join() turned an empty first component into
 an absolute path and repeated separators

---
 src/utils/fileutils.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 5ce5565..9eb714c 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -268,7 +268,6 @@ char *fu_vjoin_sep(int sep, const char *a, va_list ap)
     assert(len > n);
     strncpy(path, a, n);
     pos += n;
-    path[pos++] = sep;
     arg0++;
   }
   for (i=0; i<arg0-1; i++)
@@ -277,11 +276,11 @@ char *fu_vjoin_sep(int sep, const char *a, va_list ap)
     p = va_arg(aq, char *);
     n = strlen(p);
     assert(len-pos > n);
+    if (pos > 0 && path[pos-1] != sep) path[pos++] = sep;
     strncpy(path+pos, p, n);
     pos += n;
-    path[pos++] = sep;
   }
-  path[len-1] = '\0';
+  path[pos] = '\0';
 
   va_end(aq);
   return path;
-- 
2.43.0


From ba2651d2622f5eea7d7a6271994fb05117274390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 075/212] fix: fu_dirname() of a file in the root directory and
 fu_stem() of a bare file name returned their argument

---
 src/utils/fileutils.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 9eb714c..675ac98 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -309,7 +309,7 @@ char *fu_dirname(const char *path)
   char *p, *q;
   assert(path);
   if (!(p = strdup(path))) return err(1, "allocation failure"), NULL;
-  if ((q = fu_lastsep(p)) && q > p) *q = '\0';
+  if ((q = fu_lastsep(p))) q[(q > p) ? 0 : 1] = '\0';
   if (!q) *p = '\0';
   return p;
 }
@@ -330,14 +330,11 @@ char *fu_basename(const char *path)
 */
 char *fu_stem(const char *path)
 {
-  char *p;
-  if ((p = fu_lastsep(path)) && *p) {
-    p++;
-    const char *ext = fu_fileext(p);
-    if (ext && *ext) return strndup(p, ext - p - 1);
-    return strdup(p);
-  }
-  return strdup(path);
+  const char *ext, *p = fu_lastsep(path);
+  p = (p) ? p + 1 : path;
+  ext = fu_fileext(p);
+  if (ext && *ext) return strndup(p, ext - p - 1);
+  return strdup(p);
 }
 
 /*
-- 
2.43.0


From 3ad4dbbaee75851dbf270c4d2cd145fba7c3b0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 076/212] fix: path lists accepted removal past their end and
 returned wrong counts and platforms

---
 src/utils/fileutils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 675ac98..824dab7 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -829,7 +829,7 @@ int fu_paths_init_sep(FUPaths *paths, const char *envvar, const char *pathsep)
   paths->platform = fu_native_platform();
   while ((p = fu_nextpath(s, &endptr, pathsep)))
     fu_paths_appendn(paths, p, endptr - p);
-  return 0;
+  return paths->n;
 }
 
 /*
@@ -846,7 +846,7 @@ FUPlatform fu_paths_set_platform(FUPaths *paths, FUPlatform platform)
   if (platform == fuNative)
     platform = fu_native_platform();
   if (platform == paths->platform)
-    return 0;
+    return prev;
   paths->platform = platform;
   if (paths->pathsep) free((void *)paths->pathsep);
   paths->pathsep = strdup(fu_pathsep(platform));
@@ -1103,7 +1103,7 @@ int fu_paths_extend_prefix(FUPaths *paths, const char *prefix,
  */
 int fu_paths_remove_index(FUPaths *paths, int index)
 {
-  if (index < -(int)(paths->n) || index >= (int)paths->n+1)
+  if (index < -(int)(paths->n) || index >= (int)paths->n)
     return err(-1, "path index out of range: %d", index);
   if (index < 0) index += paths->n;
   assert(paths->paths[index]);
-- 
2.43.0


From 4f589a171ac28fc379b16151ccd296b3af914bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 077/212] fix: file matching failed for empty path lists,
 leaked paths of file URLs and took other schemes for file URLs

---
 src/utils/fileutils.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 824dab7..ae433c4 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -1187,7 +1187,8 @@ FUIter *fu_startmatch(const char *pattern, const FUPaths *paths)
   iter->i = 0;
   iter->paths = paths;
   iter->origlen = paths->n;
-  if (!(iter->origpaths = strlist_copy(paths->paths))) goto fail;
+  if (paths->paths && !(iter->origpaths = strlist_copy(paths->paths)))
+    goto fail;
   iter->filename = NULL;
   iter->path = NULL;
   iter->pathsize = 0;
@@ -1230,7 +1231,7 @@ const char *fu_nextmatch(FUIter *iter)
     tmppath = NULL;
 
     if (!(iswin && fu_iswinpath(path, -1)) && urlsplit(path, &comp)) {
-      if (strncmp(comp.scheme, "file", comp.scheme_len) == 0) {
+      if (comp.scheme_len == 4 && strncmp(comp.scheme, "file", 4) == 0) {
         if (!(tmppath = strndup(comp.path, comp.path_len)))
           FAIL("allocation failure");
         path = (const char *)tmppath;
@@ -1272,6 +1273,7 @@ const char *fu_nextmatch(FUIter *iter)
         strcat(iter->path, dirsep);
         strcat(iter->path, filename);
         fu_friendly_dirsep(iter->path);
+        if (tmppath) free(tmppath);
         if (iter->path[0] == '.' && iter->path[1] == iter->dirsep)
           return iter->path+2;
         else
@@ -1298,7 +1300,7 @@ int fu_endmatch(FUIter *iter)
   int status = 0;
   if (iter->path) free(iter->path);
   if (iter->dir) fu_closedir(iter->dir);
-  status |= strlist_free(iter->origpaths);
+  if (iter->origpaths) status |= strlist_free(iter->origpaths);
   free(iter);
   return status;
 }
@@ -1328,7 +1330,7 @@ FUIter *fu_pathsiter_init(const FUPaths *paths, const char *pattern)
   iter->pattern = pattern;
   iter->dirsep = DIRSEP[0];
   iter->origlen = paths->n;
-  if (!(iter->origpaths = (paths->paths) ? strlist_copy(paths->paths) : NULL))
+  if (paths->paths && !(iter->origpaths = strlist_copy(paths->paths)))
     goto fail;
   return iter;
  fail:
@@ -1449,7 +1451,7 @@ int fu_pathsiter_deinit(FUIter *iter)
   if (iter->path) free(iter->path);
   if (iter->dir) status |= fu_closedir(iter->dir);
   if (iter->globiter) status |= fu_globend(iter->globiter);
-  status |= strlist_free(iter->origpaths);
+  if (iter->origpaths) status |= strlist_free(iter->origpaths);
   free(iter);
   return status;
 }
@@ -1475,7 +1477,7 @@ FUIter *fu_glob(const char *pattern, const char *pathsep)
   if (!(paths = malloc(sizeof(FUPaths)))) FAIL("allocation failure");
   fu_paths_init_sep(paths, NULL, pathsep);
   if (!fu_iswinpath(pattern, len) && urlsplitn(pattern, len, &comp) == len) {
-    if (strncmp(comp.scheme, "file", comp.scheme_len) == 0) {
+    if (comp.scheme_len == 4 && strncmp(comp.scheme, "file", 4) == 0) {
       if (!(basename = fu_basename(comp.path))) goto fail;
       if (!(dirname = fu_dirname(comp.path))) goto fail;
     } else {
-- 
2.43.0


From 9f60bcabd164080463964636559aede1a579788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 078/212] fix: tmpfileplus_f() crashed when no temporary file
 could be created and nameless temporary files were left behind

---
 src/utils/tmpfileplus.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils/tmpfileplus.c b/src/utils/tmpfileplus.c
index 54c325e..d675352 100644
--- a/src/utils/tmpfileplus.c
+++ b/src/utils/tmpfileplus.c
@@ -294,6 +294,8 @@ FILE *tmpfileplus(const char *dir, const char *prefix, char **pathname,
     int ntempdirs = 0;
     int i;
 
+    if (!pathname) keep = 0;
+
     /* Set up a list of temp directories we will try in order */
     i = 0;
     tempdirs[i++] = (char *)dir;
@@ -341,7 +343,11 @@ FILE *tmpfileplus_f(const char *dir, const char *prefix, char *pathnamebuf,
     }
     /* Call with a temporary buffer */
     fp = tmpfileplus(dir, prefix, &tmpbuf, keep);
-    if (fp && strlen(tmpbuf) > pathsize - 1) {
+    if (!fp) {
+        pathnamebuf[0] = 0;
+        return NULL;
+    }
+    if (strlen(tmpbuf) > pathsize - 1) {
         /* Succeeded but not enough room in output buffer, so clean up
            and return an error */
         pathnamebuf[0] = 0;
-- 
2.43.0


From 128e6ad2fb81001ec89cb56ba712b829af4c1131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 079/212] fix: path lists broke URLs and Windows paths by
 splitting each added path

---
 src/utils/fileutils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index ae433c4..add2026 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -854,9 +854,9 @@ FUPlatform fu_paths_set_platform(FUPaths *paths, FUPlatform platform)
   for (i=0; i < paths->n; i++) {
     const char *p = paths->paths[i];
     if (platform == fuUnix || platform == fuApple)
-      paths->paths[i] = fu_unixpath(p, NULL, 0, ":");
+      paths->paths[i] = fu_unixpath(p, NULL, 0, "");
     else if (platform == fuWindows)
-      paths->paths[i] = fu_winpath(p, NULL, 0, ";");
+      paths->paths[i] = fu_winpath(p, NULL, 0, "");
     else {
       warn("unsupported platform: %s", fu_platform_name(platform));
       paths->paths[i] = strdup(p);
@@ -986,9 +986,9 @@ int fu_paths_insertn(FUPaths *paths, const char *path, size_t len, int n)
   switch (platform) {
   case fuUnix:
   case fuApple:
-    p = fu_unixpath(path, NULL, 0, paths->pathsep);
+    p = fu_unixpath(path, NULL, 0, "");
     break;
-  case fuWindows:  p = fu_winpath(path, NULL, 0, paths->pathsep);   break;
+  case fuWindows:  p = fu_winpath(path, NULL, 0, "");   break;
   default: assert(0);  // should never happen
   }
   if (!p) FAIL("allocation failure");
-- 
2.43.0


From a209f1ee81d486ec8eacac2d44e2a67a6d71411d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 080/212] fix: iterating over a one-dimensional array skipped
 everything and a zero-dimensional one wrote before its index

---
 src/dlite-arrays.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index ad6a2ce..7536a04 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -148,9 +148,9 @@ int dlite_array_iter_init(DLiteArrayIter *iter, const DLiteArray *arr)
 {
   memset(iter, 0, sizeof(DLiteArrayIter));
   iter->arr = arr;
-  if (!(iter->ind = calloc(arr->ndims, sizeof(int))))
+  if (!(iter->ind = calloc(arr->ndims + 1, sizeof(int))))
     return err(dliteMemoryError, "allocation failure");
-  iter->ind[arr->ndims-1]--;
+  if (arr->ndims > 0) iter->ind[arr->ndims-1]--;
   return 0;
 }
 
@@ -170,7 +170,9 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
 {
   int n;
   DLiteArray *arr = (DLiteArray *)iter->arr;
-  if (iter->ind[0] < 0) return NULL;  /* check stop indicator */
+  if (arr->ndims == 0)  /* zero-dimensional arrays have a single element */
+    return (iter->ind[0]++) ? NULL : arr->data;
+  if (iter->ind[arr->ndims]) return NULL;  /* check stop indicator */
   for (n=arr->ndims-1; n>=0; n--)
     if (arr->shape[n] <= 0) return NULL;  /* check that all dimensions has
 					    positive length */
@@ -179,7 +181,7 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
     iter->ind[n] = 0;
   }
   if (n < 0) {
-    iter->ind[0] = -1;  /* stop indicator */
+    iter->ind[arr->ndims] = 1;  /* stop indicator */
     return NULL;
   }
   return dlite_array_index(arr, iter->ind);
@@ -365,13 +367,19 @@ void *dlite_array_make_continuous(DLiteArray *arr)
 int dlite_array_printf(FILE *fp, const DLiteArray *arr, int width, int prec)
 {
   void *p;
-  int i, N=arr->ndims-1, NN=arr->shape[N]-1;
+  int i, N=arr->ndims-1, NN=(N >= 0) ? (int)arr->shape[N]-1 : 0;
   DLiteArrayIter iter;
   char buf[80];
   dlite_array_iter_init(&iter, arr);
   while ((p = dlite_array_iter_next(&iter))) {
-    char *sep = (iter.ind[N] < NN) ? " " : "";
+    char *sep = (N >= 0 && iter.ind[N] < NN) ? " " : "";
     int m=0;
+    if (N < 0) {
+      dlite_type_print(buf, sizeof(buf), p, arr->type, arr->size,
+                       width, prec, 0);
+      fprintf(fp, "%s\n", buf);
+      continue;
+    }
     for (i=arr->ndims-1; i >= 0 && iter.ind[i] == 0; i--) m++;
     if (iter.ind[N] == 0)
       for (; i >= 0; i--) fprintf(fp, " ");
-- 
2.43.0


From c17e9ab2b393ce3c5f3e6842d373b84451630450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 081/212] fix: dlite_array_compare() ignored elements of
 reversed slices and read outside strided arrays

---
 src/dlite-arrays.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 7536a04..30a68ad 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -194,17 +194,28 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
 int dlite_array_compare(const DLiteArray *a, const DLiteArray *b)
 {
   int i;
+  int retval=1;
+  void *p, *q;
+  DLiteArrayIter ia, ib;
   /* check whether the array structures are equal */
   if (a->type != b->type) return 0;
   if (a->size != b->size) return 0;
   if (a->ndims != b->ndims) return 0;
-  for (i=0; i < a->ndims; i++) {
+  for (i=0; i < a->ndims; i++)
     if (a->shape[i] != b->shape[i]) return 0;
-    if (a->strides[i] != b->strides[i]) return 0;
+
+  /* check whether the array elements are equal */
+  if (dlite_array_iter_init(&ia, a)) return 0;
+  if (dlite_array_iter_init(&ib, b)) {
+    dlite_array_iter_deinit(&ia);
+    return 0;
   }
-  /* check whether the array data are equal */
-  if (memcmp(a->data, b->data, dlite_array_size(a))) return 0;
-  return 1;
+  while (retval && (p = dlite_array_iter_next(&ia)) &&
+         (q = dlite_array_iter_next(&ib)))
+    if (memcmp(p, q, a->size)) retval = 0;
+  dlite_array_iter_deinit(&ia);
+  dlite_array_iter_deinit(&ib);
+  return retval;
 }
 
 
-- 
2.43.0


From 062880f074484860b8d1b3e4eaa1fcae382f8afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 082/212] fix: dlite_array_slice() gave wrong elements for
 negative and zero limits, steps and already strided arrays

---
 src/dlite-arrays.c | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 30a68ad..91e4677 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -267,21 +267,30 @@ DLiteArray *dlite_array_slice(const DLiteArray *arr,
   if (!(new = dlite_array_create(arr->data, arr->type, arr->size,
 				 arr->ndims, arr->shape))) return NULL;
   for (n = arr->ndims-1; n >= 0; n--) {
-    int s1, s2;
+    int s1, s2, len;
+    int dim = arr->shape[n];
     int d = (step) ? step[n] : 1;
-    if (d == 0) return err(1, "dim %d: slice step cannot be zero", n), NULL;
-    if (d > 0) {
-      s1 = (start) ? start[n] % arr->shape[n] : 0;
-      s2 = (stop) ? stop[n] % arr->shape[n] - 1 : arr->shape[n] - 1;
-    } else {
-      s1 = (start) ? start[n] % arr->shape[n] - 1 : arr->shape[n] - 1;
-      s2 = (stop) ? stop[n] % arr->shape[n] : 0;
+    if (d == 0) {
+      dlite_array_free(new);
+      return err(1, "dim %d: slice step cannot be zero", n), NULL;
     }
-    if (s1 < 0) s1 += arr->shape[n];
-    if (s2 < 0) s2 += arr->shape[n];
-    offset += s1 * arr->strides[n];
-    new->shape[n] = (abs(s2 - s1) + 1 + d/2) / abs(d);
-    new->strides[n] *= d;
+    s1 = (start) ? start[n] : (d > 0) ? 0 : dim;
+    s2 = (stop) ? stop[n] : (d > 0) ? dim : 0;
+
+    /* Negative values count from the back. Like in Python, limits outside
+       the array are moved to its ends. */
+    if (s1 < 0) s1 += dim;
+    if (s2 < 0) s2 += dim;
+    if (s1 < 0) s1 = 0;
+    if (s2 < 0) s2 = 0;
+    if (s1 > dim) s1 = dim;
+    if (s2 > dim) s2 = dim;
+
+    len = (d > 0) ? s2 - s1 : s1 - s2;
+    if (len < 0) len = 0;
+    if (len > 0) offset += ((d > 0) ? s1 : s1 - 1) * arr->strides[n];
+    new->shape[n] = (len + abs(d) - 1) / abs(d);
+    new->strides[n] = arr->strides[n] * d;
   }
   new->data = ((char *)arr->data) + offset;
   return new;
-- 
2.43.0


From 8352b946f0cce5e91ffc9779e18efd2ff49062d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 083/212] fix: dlite_array_reshape() accepted incompatible
 shapes whose size overflows an int

---
 src/dlite-arrays.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 91e4677..19325a8 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -307,11 +307,16 @@ DLiteArray *dlite_array_slice(const DLiteArray *arr,
 DLiteArray *dlite_array_reshape(const DLiteArray *arr,
                                 int ndims, const size_t *shape)
 {
-  int i, prod1=1, prod2=1;;
+  int i;
+  size_t prod1=1, prod2=1;
   if (!dlite_array_is_continuous(arr))
     return err(1, "can only reshape C-continuous arrays"), NULL;
   for (i=0; i < arr->ndims; i++) prod1 *= arr->shape[i];
-  for (i=0; i < ndims; i++) prod2 *= shape[i];
+  for (i=0; i < ndims; i++) {
+    if (shape[i] && prod2 > (size_t)-1 / shape[i])
+      return err(1, "cannot reshape to an incompatible shape"), NULL;
+    prod2 *= shape[i];
+  }
   if (prod1 != prod2)
     return err(1, "cannot reshape to an incompatible shape"), NULL;
   return dlite_array_create(arr->data, arr->type, arr->size, ndims, shape);
-- 
2.43.0


From c166d0b2bcdd5a420ec58378fc9aae4cbdd2e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 084/212] fix: dlite_array_make_continuous() did not update
 continuous arrays

---
 src/dlite-arrays.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 19325a8..43505b9 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -358,7 +358,11 @@ void *dlite_array_make_continuous(DLiteArray *arr)
   DLiteArrayIter iter;
   for (n=0; n < arr->ndims; n++) size *= arr->shape[n];
   if (!(data = malloc(size))) return err(dliteMemoryError, "allocation failure"), NULL;
-  if (dlite_array_is_continuous(arr)) return memcpy(data, arr->data, size);
+  if (dlite_array_is_continuous(arr)) {
+    if (size > 0) memcpy(data, arr->data, size);
+    arr->data = data;
+    return data;
+  }
 
   q = data;
   dlite_array_iter_init(&iter, arr);
-- 
2.43.0


From 1cfe801f0d7fcb87f82b8d327b5a1dbe3c45cffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 085/212] fix: dlite_copy_to_nested() wrote to its source after
 the first row

---
 src/dlite-datamodel.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dlite-datamodel.c b/src/dlite-datamodel.c
index d74d2df..fad4072 100644
--- a/src/dlite-datamodel.c
+++ b/src/dlite-datamodel.c
@@ -231,7 +231,7 @@ int dlite_copy_to_flat(void *dst, const void *src, size_t size,
     if (++ind[ndims-1] >= ((shape) ? (int)shape[ndims-1] : 1)) {
       ind[ndims-1] = 0;
       for (i=ndims-2; i>=0; i--) {
-        if (++ind[i] < ((shape) ? (int)shape[i] : i))
+        if (++ind[i] < ((shape) ? (int)shape[i] : 1))
           break;
         else
           ind[i] = 0;
@@ -269,12 +269,12 @@ int dlite_copy_to_nested(void *dst, const void *src, size_t size,
     if (++ind[ndims-1] >= ((shape) ? (int)shape[ndims-1] : 1)) {
       ind[ndims-1] = 0;
       for (i=ndims-2; i>=0; i--) {
-        if (++ind[i] < ((shape) ? (int)shape[i] : i))
+        if (++ind[i] < ((shape) ? (int)shape[i] : 1))
           break;
         else
           ind[i] = 0;
       }
-      for (i=0, p=(void **)src; i<(int)ndims-1; i++) p = p[ind[i]];
+      for (i=0, p=dst; i<(int)ndims-1; i++) p = p[ind[i]];
     }
   }
   retval = 0;
-- 
2.43.0


From ce3eddaa0948153564fd125f7c4c75c2ff496d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:15 +0000
Subject: [PATCH 086/212] fix: copying and assigning properties in column-major
 order moved elements of non-square arrays to wrong places

---
 src/dlite-entity.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index d7edd6a..4b83e64 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2065,6 +2065,28 @@ DLiteArray *dlite_instance_get_property_array(const DLiteInstance *inst,
 }
 
 
+/*
+  Help function that changes array `arr` of order `order` such that it
+  describes the same elements at C-ordered indices, but stored in memory
+  with order `order`.
+ */
+static void set_memory_order(DLiteArray *arr, int order)
+{
+  int i;
+  size_t size = arr->size;
+  if (order != 'F') return;
+  for (i=0; i < arr->ndims / 2; i++) {
+    size_t tmp = arr->shape[i];
+    arr->shape[i] = arr->shape[arr->ndims - 1 - i];
+    arr->shape[arr->ndims - 1 - i] = tmp;
+  }
+  for (i=0; i < arr->ndims; i++) {
+    arr->strides[i] = size;
+    size *= arr->shape[i];
+  }
+}
+
+
 /*
   Copy value of property `name` to memory pointed to by `dest`.  It must be
   large enough to hole all the data.  The order argument `order` has the
@@ -2094,6 +2116,7 @@ int dlite_instance_copy_property_by_index(const DLiteInstance *inst, int i,
   DLiteProperty *p = inst->meta->_properties + i;
   DLiteArray *arr = dlite_instance_get_property_array(inst, p->name, order);
   if (!arr) return 1;
+  set_memory_order(arr, order);
   retval = dlite_instance_cast_property_by_index(inst, i, p->type, p->size,
                                                  arr->shape, arr->strides,
                                                  dest, NULL);
@@ -2149,6 +2172,7 @@ int dlite_instance_assign_property(const DLiteInstance *inst, const char *name,
   p = inst->meta->_properties + i;
   if (!(arr = dlite_instance_get_property_array(inst, p->name, order)))
     return 1;
+  set_memory_order(arr, order);
   retval =
     dlite_instance_assign_casted_property_by_index(inst, i, p->type, p->size,
                                                    arr->shape, arr->strides,
-- 
2.43.0


From 0255acc798744cf414737d8b884acc1c2b363949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 087/212] fix: triple_set_default_namespace() crashed when
 called first

---
 src/triple.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/triple.c b/src/triple.c
index 6914707..b37b55c 100644
--- a/src/triple.c
+++ b/src/triple.c
@@ -26,11 +26,24 @@ static void free_globals(void *globals)
   free(g);
 }
 
-/* Sets default namespace to be prepended to triple id's. */
-void triple_set_default_namespace(const char *namespace)
+/* Returns pointer to global variables or NULL on error. */
+static TripleGlobals *get_globals(void)
 {
   Session *s = session_get_default();
   TripleGlobals *g = session_get_state(s, TRIPLE_GLOBALS_ID);
+  if (!g) {
+    if (!(g = calloc(1, sizeof(TripleGlobals))))
+      return err(1, "allocation failure"), NULL;
+    session_add_state(s, TRIPLE_GLOBALS_ID, g, free_globals);
+  }
+  return g;
+}
+
+/* Sets default namespace to be prepended to triple id's. */
+void triple_set_default_namespace(const char *namespace)
+{
+  TripleGlobals *g = get_globals();
+  if (!g) return;
   if (g->default_namespace)
     free(g->default_namespace);
   if (namespace)
@@ -42,14 +55,8 @@ void triple_set_default_namespace(const char *namespace)
 /* Returns default namespace. */
 const char *triple_get_default_namespace(void)
 {
-  Session *s = session_get_default();
-  TripleGlobals *g = session_get_state(s, TRIPLE_GLOBALS_ID);
-  if (!g) {
-    if (!(g = calloc(1, sizeof(TripleGlobals))))
-      return err(1, "allocation failure"), NULL;
-    session_add_state(s, TRIPLE_GLOBALS_ID, g, free_globals);
-  }
-  return (const char *)g->default_namespace;
+  TripleGlobals *g = get_globals();
+  return (g) ? (const char *)g->default_namespace : NULL;
 }
 
 
-- 
2.43.0


From f04861e8bf0258f6ee7d80a4d2dd48e8e91d705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 088/212] fix: builtin triplestore lost the positions of its
 triples and leaked removed ones

---
 src/triplestore-builtin.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/triplestore-builtin.c b/src/triplestore-builtin.c
index 455be0b..e6b9528 100644
--- a/src/triplestore-builtin.c
+++ b/src/triplestore-builtin.c
@@ -89,10 +89,12 @@ void triplestore_free(TripleStore *ts)
 {
   assert(ts->freed == 0 || ts->niter == 0);
   triplestore_clear(ts);
-  if (ts->niter > 0)
+  if (ts->niter > 0) {
     ts->freed = 1;
-  else
+  } else {
+    if (ts->ns) free((char *)ts->ns);
     free(ts);
+  }
 }
 
 
@@ -163,7 +165,7 @@ int triplestore_add_triples(TripleStore *ts, const Triple *triples,
       t->id = id;
       ts->length++;
       ts->true_length++;
-      map_set(&ts->map, id, i);
+      map_set(&ts->map, id, ts->true_length - 1);
     } else {
       free(id);
     }
@@ -193,8 +195,11 @@ static int _remove_by_index(TripleStore *ts, size_t n)
     assert(ts->length == ts->true_length);
     triple_clean(t);
     ts->length--;
-    if (t < ts->triples + ts->length)
+    if (t < ts->triples + ts->length) {
       memcpy(t, &ts->triples[ts->length], sizeof(Triple));
+      map_set(&ts->map, t->id, n);
+    }
+    memset(&ts->triples[ts->length], 0, sizeof(Triple));
     ts->true_length = ts->length;
   }
   return 0;
@@ -244,13 +249,14 @@ void triplestore_clear(TripleStore *ts)
 {
   int n=ts->true_length;
   int niter=ts->niter;
+  const char *ns=ts->ns;
   while (--n >= 0)
-    if (ts->triples[n].id) _remove_by_index(ts, n);
+    triple_clean(ts->triples + n);
   if (ts->triples) free(ts->triples);
   map_deinit(&ts->map);
   memset(ts, 0, sizeof(TripleStore));
   ts->niter = niter;
-  if (ts->ns) free((char *)ts->ns);
+  ts->ns = ns;
 }
 
 
@@ -319,8 +325,10 @@ void triplestore_deinit_state(TripleState *state)
   }
 
   if (ts->niter == 0 && ts->true_length > ts->length) {
-    for (i=ts->true_length-1; i>=0 && !ts->triples[i].id; i--)
+    for (i=ts->true_length-1; i>=0 && !ts->triples[i].id; i--) {
+      triple_clean(ts->triples + i);
       ts->true_length--;
+    }
     for (i=ts->true_length-1; i>=0; i--) {
       Triple *t = ts->triples + i;
       if (!t->id) {
@@ -328,12 +336,18 @@ void triplestore_deinit_state(TripleState *state)
         assert(t < tt);
         triple_clean(t);
         memcpy(t, tt, sizeof(Triple));
+        memset(tt, 0, sizeof(Triple));
+        map_set(&ts->map, t->id, i);
       }
     }
     assert(ts->true_length == ts->length);
     if (ts->size > ts->length + TRIPLESTORE_CHUNKSIZE) {
-      ts->size = ts->length + ts->length % TRIPLESTORE_CHUNKSIZE;
-      ts->triples = realloc(ts->triples, ts->size*sizeof(Triple));
+      size_t size = (ts->length / TRIPLESTORE_CHUNKSIZE + 1) * TRIPLESTORE_CHUNKSIZE;
+      void *ptr = realloc(ts->triples, size*sizeof(Triple));
+      if (ptr) {
+        ts->triples = ptr;
+        ts->size = size;
+      }
     }
   }
 }
-- 
2.43.0


From 61685d5d63ffda863af328ec59d5cafdb7b2ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 089/212] fix: builtin triplestore could not remove or find
 first of the triples with an IRI object

---
 src/triplestore-builtin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triplestore-builtin.c b/src/triplestore-builtin.c
index e6b9528..485ccf6 100644
--- a/src/triplestore-builtin.c
+++ b/src/triplestore-builtin.c
@@ -233,7 +233,7 @@ int triplestore_remove(TripleStore *ts, const char *s, const char *p,
     if ((!s || strcmp(s, t->s) == 0) &&
         (!p || strcmp(p, t->p) == 0) &&
         (!o || strcmp(o, t->o) == 0) &&
-        (!d || (t->d && strcmp(d, t->d) == 0))) {
+        (!d || (!d[0] && !t->d) || (t->d && strcmp(d, t->d) == 0))) {
       if (_remove_by_index(ts, i) == 0) n++;
     }
   }
@@ -289,7 +289,7 @@ const Triple *triplestore_find_first(const TripleStore *ts, const char *s,
         (!s || strcmp(s, t->s) == 0) &&
         (!p || strcmp(p, t->p) == 0) &&
         (!o || strcmp(o, t->o) == 0) &&
-        (!d || (t->d && strcmp(d, t->d) == 0)))
+        (!d || (!d[0] && !t->d) || (t->d && strcmp(d, t->d) == 0)))
       return t;
   }
   return NULL;
-- 
2.43.0


From c49dde03531f7de14c3863eacff4ad9c005d826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 090/212] fix: triplestore_set_default_storage() never returned
 for other storages than the first and kept the caller's pointer

---
 src/triplestore-redland.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/triplestore-redland.c b/src/triplestore-redland.c
index 99ecb21..fec7dbe 100644
--- a/src/triplestore-redland.c
+++ b/src/triplestore-redland.c
@@ -375,10 +375,10 @@ librdf_model *triplestore_get_model(TripleStore *ts)
 int triplestore_set_default_storage(const char *name)
 {
   char **p = storage_module_names;
-  while (p) {
+  for (; *p; p++) {
     if (strcasecmp(name, *p) == 0) {
       Globals *g = get_globals();
-      g->default_storage_name = name;
+      g->default_storage_name = *p;
       return 0;
     }
   }
-- 
2.43.0


From 204f26b7eb3b4501f276048b89c391b3df585190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:09 +0000
Subject: [PATCH 091/212] fix: iterating over a collection that is not referred
 to elsewhere used freed memory

---
 bindings/python/dlite-collection.i | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index 1d0527d..5a968f6 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -144,12 +144,14 @@ struct _DLiteCollection {
     iter->o = (o) ? strdup(o) : NULL;
     iter->d = (d) ? strdup(d) : NULL;
     iter->rettype = rettype;
+    dlite_collection_incref(coll);
     dlite_collection_init_state(coll, &iter->state);
     return iter;
   }
 
   ~_CollectionIter(void) {
     dlite_collection_deinit_state(&$self->state);
+    dlite_collection_decref($self->coll);
     if ($self->s) free($self->s);
     if ($self->p) free($self->p);
     if ($self->o) free($self->o);
-- 
2.43.0


From a5674a6147c458c3a500f3385444e6ca9f3d78d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:09 +0000
Subject: [PATCH 092/212] fix: loading another instance as a collection crashed

---
 bindings/python/dlite-collection.i |  4 +++-
 src/dlite-collection.c             | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index 5a968f6..2d1ccb5 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -11,8 +11,10 @@ struct _DLiteCollection *_get_collection(const char *id)
   struct _DLiteInstance *inst = dlite_instance_get(id);
   if (!inst) return dlite_err(dliteTypeError,
                               "no instance with this id: %s", id), NULL;
-  if (strcmp(inst->meta->uri, DLITE_COLLECTION_ENTITY) != 0)
+  if (strcmp(inst->meta->uri, DLITE_COLLECTION_ENTITY) != 0) {
+    dlite_instance_decref(inst);
     return dlite_err(1, "not a collection: %s", id), NULL;
+  }
   return (DLiteCollection *)inst;
 }
 
diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 2c94043..56d2c73 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -260,7 +260,7 @@ void dlite_collection_decref(DLiteCollection *coll)
  */
 DLiteCollection *dlite_collection_from_instance(DLiteInstance *inst)
 {
-  if (strcmp(inst->meta->uuid, DLITE_COLLECTION_ENTITY) != 0)
+  if (strcmp(inst->meta->uri, DLITE_COLLECTION_ENTITY) != 0)
     return errx(dliteTypeError,
                 "cannot cast instance %s to a collection", inst->uuid), NULL;
   return (DLiteCollection *)inst;
@@ -285,12 +285,17 @@ DLiteInstance *dlite_collection_to_instance(DLiteCollection *coll)
 DLiteCollection *dlite_collection_load(DLiteStorage *s, const char *id,
                                        int lazy)
 {
+  DLiteInstance *inst;
   DLiteCollection *coll;
   DLiteCollectionState state;
   const Triple *t, *t2;
 
-  if (!(coll = (DLiteCollection *)dlite_instance_load(s, id)))
+  if (!(inst = dlite_instance_load(s, id)))
+    return NULL;
+  if (!(coll = dlite_collection_from_instance(inst))) {
+    dlite_instance_decref(inst);
     return NULL;
+  }
 
   if (lazy) {
     //dlite_storage_paths_append(s->location);
@@ -330,10 +335,14 @@ DLiteCollection *dlite_collection_load_url(const char *url, int lazy)
 {
   char *str=NULL, *driver=NULL, *location=NULL, *options=NULL, *id=NULL;
   DLiteStorage *s=NULL;
+  DLiteInstance *inst=NULL;
   DLiteCollection *coll=NULL;
   if (!(str = strdup(url))) FAILCODE(dliteMemoryError, "allocation failure");
   if (dlite_split_url(str, &driver, &location, &options, &id)) goto fail;
-  if (!id || !(coll = (DLiteCollection *)dlite_instance_get(id))) {
+  if (id && (inst = dlite_instance_get(id))) {
+    if (!(coll = dlite_collection_from_instance(inst)))
+      dlite_instance_decref(inst);
+  } else {
     err_clear();
     if (!(s = dlite_storage_open(driver, location, options))) goto fail;
     if (!(coll = dlite_collection_load(s, id, lazy))) goto fail;
-- 
2.43.0


From 46bc3c700414f664ac34f4374dbdd24ce3d27613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:09 +0000
Subject: [PATCH 093/212] fix: non-lazy loading of collections leaked a
 reference to each instance

---
 src/dlite-collection.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 56d2c73..c05770f 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -310,11 +310,14 @@ DLiteCollection *dlite_collection_load(DLiteStorage *s, const char *id,
       FAILCODE1(dliteInconsistentDataError,
                 "collection inconsistency - no \"_has-meta\" relation for "
                 "instance: %s", t->s);
-    if (strcmp(t2->o, DLITE_COLLECTION_ENTITY) == 0) {
-      if (!dlite_collection_load(s, t->o, 0)) goto fail;
-    } else {
-      if (!dlite_instance_load(s, t->o)) goto fail;
-    }
+    if (strcmp(t2->o, DLITE_COLLECTION_ENTITY) == 0)
+      inst = (DLiteInstance *)dlite_collection_load(s, t->o, 0);
+    else
+      inst = dlite_instance_load(s, t->o);
+    if (!inst) goto fail;
+
+    /* The collection already has its own references. */
+    dlite_instance_decref(inst);
   }
   dlite_collection_deinit_state(&state);
   return coll;
-- 
2.43.0


From 72ffc534e3175c44d24c0407f41ad97c6d549e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:09 +0000
Subject: [PATCH 094/212] fix: adding an instance with an invalid label to a
 collection succeeded and leaked it

---
 src/dlite-collection.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index c05770f..2de072c 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -510,10 +510,16 @@ int dlite_collection_add_new(DLiteCollection *coll, const char *label,
                 "instance with label '%s' is already in the collection",
                 label);
 
-  dlite_collection_add_relation(coll, label, "_is-a", "Instance", NULL);
-  dlite_collection_add_relation(coll, label, "_has-uuid", inst->uuid,
-                                "xsd:anyURI");
-  dlite_collection_add_relation(coll, label, "_has-meta", inst->meta->uri, NULL);
+  if (dlite_collection_add_relation(coll, label, "_is-a", "Instance", NULL))
+    return 1;
+  if (dlite_collection_add_relation(coll, label, "_has-uuid", inst->uuid,
+                                    "xsd:anyURI") ||
+      dlite_collection_add_relation(coll, label, "_has-meta", inst->meta->uri,
+                                    NULL)) {
+    dlite_collection_remove_relations(coll, label, "_is-a", "Instance", NULL);
+    dlite_collection_remove_relations(coll, label, "_has-uuid", NULL, NULL);
+    return 1;
+  }
   return 0;
 }
 
-- 
2.43.0


From bf6f6b469894ec65425c5e5fdf8b2b3b8095d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:09 +0000
Subject: [PATCH 095/212] fix: removing labels without an instance from a
 collection crashed

---
 src/dlite-collection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 2de072c..5bf57e9 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -545,6 +545,7 @@ int dlite_collection_remove(DLiteCollection *coll, const char *label)
   DLiteCollectionState state;
   DLiteInstance *inst;
   const DLiteRelation *r;
+  if (!label || !dlite_collection_has(coll, label)) return 1;
   if (dlite_collection_remove_relations(coll, label, "_is-a", "Instance", NULL) > 0) {
     r = dlite_collection_find(coll, NULL, label, "_has-uuid", NULL, NULL);
     assert(r);
-- 
2.43.0


From 365edd600dee2f2a5db8e3b6579639ac34ba3d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:09 +0000
Subject: [PATCH 096/212] fix: dlite_collection_get_id() returned a new
 reference instead of the documented borrowed one

---
 bindings/python/dlite-collection.i | 17 ++++++++++++-----
 src/dlite-collection.c             |  8 ++++++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index 2d1ccb5..96801be 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -18,6 +18,15 @@ struct _DLiteCollection *_get_collection(const char *id)
   return (DLiteCollection *)inst;
 }
 
+/* Returns a new reference to the instance in `coll` with given id. */
+struct _DLiteInstance *_collection_get_id(const struct _DLiteCollection *coll,
+                                          const char *id)
+{
+  const DLiteInstance *inst = dlite_collection_get_id(coll, id);
+  if (inst) dlite_instance_incref((DLiteInstance *)inst);
+  return (DLiteInstance *)inst;
+}
+
 char *_collection_value(DLiteInstance *inst,
                         const char *s, const char *p,
                         const char *o, const char *d,
@@ -60,11 +69,9 @@ struct _DLiteInstance *
 dlite_collection_get_new(const struct _DLiteCollection *coll,
                          const char *label, const char *metaid);
 
-// Although dlite_collection_get_id() returns a borrowed reference in C,
-// we create a new object in Python that must be properly deallocated.
-%newobject dlite_collection_get_id;
-const struct _DLiteInstance *
-  dlite_collection_get_id(const struct _DLiteCollection *coll, const char *id);
+%newobject _collection_get_id;
+struct _DLiteInstance *
+  _collection_get_id(const struct _DLiteCollection *coll, const char *id);
 
 int dlite_collection_has(const struct _DLiteCollection *coll,
                          const char *label);
diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 5bf57e9..956ec6c 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -611,8 +611,12 @@ const DLiteInstance *dlite_collection_get_id(const DLiteCollection *coll,
   const DLiteRelation *r;
   char uuid[DLITE_UUID_LENGTH+1];
   if (dlite_get_uuid(uuid, id) < 0) return NULL;
-  if ((r = dlite_collection_find(coll, NULL, NULL, "_has-uuid", uuid, NULL)))
-    return dlite_instance_get(id);
+  if ((r = dlite_collection_find(coll, NULL, NULL, "_has-uuid", uuid, NULL))) {
+    DLiteInstance *inst = dlite_instance_get(uuid);
+    /* The collection keeps its own reference, see dlite_collection_get(). */
+    if (inst && inst->_refcount >= 2) dlite_instance_decref(inst);
+    return inst;
+  }
   return NULL;
 }
 
-- 
2.43.0


From 85b9f3eb42033e57f7cca08f0888f9b6c51b08c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 097/212] fix: non-lazy loading of collections loaded the
 metadata instead of the instances

---
 src/dlite-collection.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 956ec6c..3a68f37 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -305,15 +305,19 @@ DLiteCollection *dlite_collection_load(DLiteStorage *s, const char *id,
   dlite_collection_init_state(coll, &state);
   while ((t = dlite_collection_find(coll, &state, NULL, "_has-uuid", NULL,
                                     NULL))) {
+    /* The triple is overwritten by the next search, so keep a copy of the id */
+    char uuid[DLITE_UUID_LENGTH+1];
+    strncpy(uuid, t->o, sizeof(uuid) - 1);
+    uuid[DLITE_UUID_LENGTH] = '\0';
     if (!(t2 = dlite_collection_find_first(coll, t->s, "_has-meta", NULL,
                                            NULL)))
       FAILCODE1(dliteInconsistentDataError,
                 "collection inconsistency - no \"_has-meta\" relation for "
-                "instance: %s", t->s);
+                "instance: %s", uuid);
     if (strcmp(t2->o, DLITE_COLLECTION_ENTITY) == 0)
-      inst = (DLiteInstance *)dlite_collection_load(s, t->o, 0);
+      inst = (DLiteInstance *)dlite_collection_load(s, uuid, 0);
     else
-      inst = dlite_instance_load(s, t->o);
+      inst = dlite_instance_load(s, uuid);
     if (!inst) goto fail;
 
     /* The collection already has its own references. */
-- 
2.43.0


From f9e931e489e3bff9b3d43e72de7ebdc8833fd9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 098/212] fix: datatypes of relations were left out when
 exporting collections from Python

---
 bindings/python/dlite-collection-python.i | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/dlite-collection-python.i b/bindings/python/dlite-collection-python.i
index 325b252..5dc2212 100644
--- a/bindings/python/dlite-collection-python.i
+++ b/bindings/python/dlite-collection-python.i
@@ -146,7 +146,9 @@ class Collection(Instance):
         doc='SWIG-internal representation of this collection.')
 
     properties = property(
-        lambda self: {'relations': list(self.get_relations())},
+        lambda self: {'relations': [
+            r if r[3] is not None else r[:3]
+            for r in self.get_relations(rettype='T')]},
         doc='Dictionary with property name-value pairs.')
 
     def __repr__(self):
-- 
2.43.0


From 7b4828bb221a5340eaca159af1ec02ed85ac00fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:36 +0000
Subject: [PATCH 099/212] fix: copied metadata was not initialised, instances
 created from it overflowed their memory

---
 src/dlite-entity.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 4b83e64..63834bc 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1998,6 +1998,8 @@ DLiteInstance *dlite_instance_copy(const DLiteInstance *inst, const char *newid)
     if (!src && !is_empty_array(inst, i)) goto fail;
     if (dlite_instance_set_property_by_index(new, i, src)) goto fail;
   }
+  if (dlite_instance_is_meta(new) && dlite_meta_init((DLiteMeta *)new))
+    goto fail;
   return new;
  fail:
   if (new) dlite_instance_decref(new);
-- 
2.43.0


From fa55d5786ce6576bebd91a2d5f9f2c5a55d03f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 100/212] fix: frozen collections could be modified

---
 src/dlite-collection.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 3a68f37..2394e28 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -410,7 +410,11 @@ int dlite_collection_save_url(DLiteCollection *coll, const char *url)
 int dlite_collection_add_relation(DLiteCollection *coll, const char *s,
                                   const char *p, const char *o, const char *d)
 {
-  int stat = triplestore_add(coll->rstore, s, p, o, d);
+  int stat;
+  if (coll->_flags & dliteImmutable)
+    return err(1, "cannot add relation to immutable collection: %s",
+               (coll->uri) ? coll->uri : coll->uuid);
+  stat = triplestore_add(coll->rstore, s, p, o, d);
   if (!stat)
     DLITE_PROP_DIM(coll, 0, 0) = coll->nrelations;
   return stat;
@@ -425,7 +429,11 @@ int dlite_collection_remove_relations(DLiteCollection *coll, const char *s,
                                       const char *p, const char *o,
                                       const char *d)
 {
-  int retval = triplestore_remove(coll->rstore, s, p, o, d);
+  int retval;
+  if (coll->_flags & dliteImmutable)
+    return err(-1, "cannot remove relations from immutable collection: %s",
+               (coll->uri) ? coll->uri : coll->uuid);
+  retval = triplestore_remove(coll->rstore, s, p, o, d);
   if (retval > -1)
     DLITE_PROP_DIM(coll, 0, 0) = coll->nrelations;
   return retval;
-- 
2.43.0


From ab8f39a645ca7ed1d761c74990fd7f8ba9e446b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 101/212] fix: hash depended on the bytes after the terminator
 of fixed-size strings

---
 src/dlite-entity.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 63834bc..6071a0a 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2281,6 +2281,14 @@ int dlite_instance_get_hash(const DLiteInstance *inst,
               p->name, (inst->uri) ? inst->uri : inst->uuid);
           break;
         }
+    } else if (p->type == dliteFixString) {
+      /* whatever follows the terminator is not content, it counts as zeros */
+      const char *v = ptr;
+      for (j=0; j<len; j++, v+=p->size) {
+        size_t k, m = strnlen(v, p->size);
+        sha3_Update(&c, v, m);
+        for (k=m; k<p->size; k++) sha3_Update(&c, "", 1);
+      }
     } else {
       sha3_Update(&c, ptr, len*p->size);
     }
-- 
2.43.0


From 4ddd8d386c7a8aecc0e2fc0726c11e56f2d9be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 102/212] fix: hash ignored the metadata that properties refer
 to and the datatype of relations

---
 src/dlite-type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index e285b17..f9ccb54 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1362,6 +1362,7 @@ int dlite_type_update_sha3(sha3_context *c, const void *ptr,
       sha3_Update(c, &p->ndims, sizeof(int));
       for (i=0; i<p->ndims; i++)
         sha3_Update(c, p->shape[i], strlen(p->shape[i]));
+      if (p->ref) sha3_Update(c, p->ref, strlen(p->ref));
       if (p->unit) sha3_Update(c, p->unit, strlen(p->unit));
       if (p->description)
         sha3_Update(c, p->description, strlen(p->description));
@@ -1374,6 +1375,7 @@ int dlite_type_update_sha3(sha3_context *c, const void *ptr,
       if (rel->s) sha3_Update(c, rel->s, strlen(rel->s));
       if (rel->p) sha3_Update(c, rel->p, strlen(rel->p));
       if (rel->o) sha3_Update(c, rel->o, strlen(rel->o));
+      if (rel->d) sha3_Update(c, rel->d, strlen(rel->d));
     }
     break;
 
-- 
2.43.0


From d0870689fc2d6d810de72e7073610cace98b1c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:44 +0000
Subject: [PATCH 103/212] fix: asdict() gave bytes for arrays of fixed-size
 strings, which could not be read back

---
 bindings/python/dlite-entity-python.i | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index adc1158..8ce1973 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -138,6 +138,8 @@ def standardise(v, prop, asdict=False):
         else:
             return ''.join(f'{c:02x}' for c in v)
     elif hasattr(v, 'tolist'):
+        if v.dtype.kind == 'S':  # fixed-size strings
+            v = np.char.decode(v, 'utf-8')
         return [conv(x) for x in v.tolist()]
     else:
         return conv(v)
-- 
2.43.0


From b2382beeb9130d6b60d0e1f68faac8bce9bc6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 104/212] fix: frozen collections and metadata could not be
 casted to their Python class

---
 bindings/python/dlite-entity-python.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index 8ce1973..abdca7b 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -936,7 +936,7 @@ def get_instance(
         return value
 
     def __setattr__(self, name, value):
-        if name == 'this':
+        if name in ('this', '__class__'):
             object.__setattr__(self, name, value)
         elif self.is_frozen():
             raise _dlite.DLiteUnsupportedError(
-- 
2.43.0


From 4da36756639276c4010e115fc909df5628b2c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 105/212] fix: Instance.get_property() gave writable arrays of
 frozen instances

---
 bindings/python/dlite-python.i | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 4f0a823..839b4da 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -1096,6 +1096,8 @@ obj_t *dlite_swig_get_property_by_index(DLiteInstance *inst, int i)
       shape[j] = (int)DLITE_PROP_DIM(inst, n, j);
     }
     obj = dlite_swig_get_array(inst, p->ndims, shape, p->type, p->size, *ptr);
+    if (obj && PyArray_Check(obj) && dlite_instance_is_frozen(inst))
+      PyArray_CLEARFLAGS((PyArrayObject *)obj, NPY_ARRAY_WRITEABLE);
   }
  fail:
   if (shape) free(shape);
-- 
2.43.0


From c416fffd164b7e42476bfb3ca66e30f0ab27454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 106/212] fix: bson_scan_bool() rejected booleans,
 bson_begin_binary() read the document when the buffer is too small

---
 src/utils/bson.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/bson.c b/src/utils/bson.c
index 886d5fd..80a7a82 100644
--- a/src/utils/bson.c
+++ b/src/utils/bson.c
@@ -401,9 +401,9 @@ int bson_end_subdoc(unsigned char *doc, int bufsize, BsonType type)
 int bson_begin_binary(unsigned char *doc, int bufsize, const char *ename,
                       unsigned char **subdoc)
 {
-  int docsize=bson_docsize(doc), elen=strlen(ename), esize=elen+6;
-  if ((docsize) < 0) return docsize;
+  int docsize, elen=strlen(ename), esize=elen+6;
   if (bufsize < esize) return esize;
+  if ((docsize = bson_docsize(doc)) < 0) return docsize;
   if (doc[docsize-1]) return errx(bsonInconsistentDataError,
                                   "expect BSON document to end with NUL");
 
@@ -738,7 +738,7 @@ bool bson_scan_bool(const unsigned char *doc, const char *ename,
       *errcode = bsonKeyError;
     }
     return 0;
-  } else if (type != bsonString) {
+  } else if (type != bsonBool) {
     errx(bsonTypeError,
          "expected element '%s' to be boolean, got %s",
          ename, bson_typename(type));
-- 
2.43.0


From 9cb470a2db933fb09d03c59f6b5e2610ad202e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:02 +0000
Subject: [PATCH 107/212] fix: parsing bson documents with inconsistent sizes
 or unsupported types read outside the document

---
 src/utils/bson.c | 86 ++++++++++++++++++++++++++++--------------------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/src/utils/bson.c b/src/utils/bson.c
index 80a7a82..5e71721 100644
--- a/src/utils/bson.c
+++ b/src/utils/bson.c
@@ -113,37 +113,11 @@ int bson_docsize(const unsigned char *doc)
  */
 int bson_nelements(const unsigned char *doc)
 {
-  int type, docsize=bson_docsize(doc), n=4, nelements=0;
-  while ((type = doc[n++])) {
-    n += strlen((char *)doc+n) + 1;
-    switch (type) {
-    case bsonDouble:     n += 8;  break;
-    case bsonBool:       n++;     break;
-    case bsonNull:                break;
-    case bsonInt32:      n += 4;  break;
-#ifdef HAVE_INT64
-    case bsonUInt64:     n += 8;  break;
-    case bsonInt64:      n += 8;  break;
-#endif
-#ifdef HAVE_FLOAT128
-    case bsonDecimal128: n += 16; break;
-#endif
-    case bsonDocument:
-    case bsonArray:
-      n += le32toh(*((int32_t *)(doc+n)));
-      break;
-    case bsonString:
-      n += le32toh(*((int32_t *)(doc+n))) + 4;
-      break;
-    case bsonBinary:
-      n += le32toh(*((int32_t *)(doc+n))) + 5;
-      break;
-    }
+  int type, nelements=0;
+  unsigned char *endptr=NULL;
+  while ((type = bson_parse(doc, NULL, NULL, NULL, &endptr)) > 0)
     nelements++;
-    if (n > docsize)
-      return errx(bsonInconsistentDataError, "inconsistent bson document");
-  }
-  return nelements;
+  return (type < 0) ? type : nelements;
 }
 
 
@@ -474,6 +448,30 @@ int bson_end_binary(unsigned char *doc, int bufsize)
 }
 
 
+/* Returns the minimum number of bytes after the name of an element of
+   the given type. */
+static int bson_minsize(BsonType type)
+{
+  switch (type) {
+  case bsonDouble:     return 8;
+  case bsonString:     return 5;
+  case bsonDocument:   return 5;
+  case bsonArray:      return 5;
+  case bsonBinary:     return 5;
+  case bsonBool:       return 1;
+  case bsonInt32:      return 4;
+#ifdef HAVE_INT64
+  case bsonUInt64:     return 8;
+  case bsonInt64:      return 8;
+#endif
+#ifdef HAVE_FLOAT128
+  case bsonDecimal128: return 16;
+#endif
+  default:             return 0;
+  }
+}
+
+
 /*
   Parses next element in a BSON document.
 
@@ -503,15 +501,24 @@ int bson_end_binary(unsigned char *doc, int bufsize)
 int bson_parse(const unsigned char *doc, char **ename, void **data,
                int *datasize, unsigned char **endptr)
 {
-  const unsigned char *p = (endptr && *endptr) ? *endptr : doc + 4;
-  BsonType type = *(p++);
+  const unsigned char *end, *p = (endptr && *endptr) ? *endptr : doc + 4;
+  BsonType type;
   char *_ename;
   void *_data;
-  int _datasize;
-  if (!type) return 0;
+  int _datasize, docsize;
+
+  /* All elements must be within the document, whos last byte is NUL */
+  if ((docsize = bson_docsize(doc)) < 0) return docsize;
+  end = doc + docsize - 1;
+  if (p > end || *end)
+    return errx(bsonInconsistentDataError, "inconsistent bson document");
+
+  if (!(type = *(p++))) return 0;
 
   _ename = (char *)p;
   p += strlen(_ename) + 1;
+  if (p > end || bson_minsize(type) > end - p)
+    return errx(bsonInconsistentDataError, "inconsistent bson document");
 
   switch (type) {
   case bsonDouble:
@@ -531,20 +538,27 @@ int bson_parse(const unsigned char *doc, char **ename, void **data,
     p += _datasize;
     break;
   case bsonString:
-    _datasize = le32toh(*((int32_t *)p)) - 1;
+    _datasize = le32toh(*((int32_t *)p));
     p += 4;
+    if (_datasize < 1 || _datasize > end - p || p[_datasize-1])
+      return errx(bsonInconsistentDataError, "inconsistent bson string");
+    _datasize--;
     _data = (void *)p;
     p += _datasize + 1;
     break;
   case bsonDocument:
   case bsonArray:
     _datasize = le32toh(*((int32_t *)p));
+    if (_datasize < 5 || _datasize > end - p || p[_datasize-1])
+      return errx(bsonInconsistentDataError, "inconsistent bson sub-document");
     _data = (void *)p;
     p += _datasize;
     break;
   case bsonBinary:
     _datasize = le32toh(*((int32_t *)p));
     p += 4;
+    if (_datasize < 0 || _datasize >= end - p)
+      return errx(bsonInconsistentDataError, "inconsistent bson binary data");
     if (*p != '\x00')
       return errx(bsonParseError,
                   "unsupported binary bson subtype: %02x", *p);
@@ -552,6 +566,8 @@ int bson_parse(const unsigned char *doc, char **ename, void **data,
     _data = (void *)p;
     p += _datasize;
     break;
+  default:
+    return errx(bsonParseError, "unsupported bson type: 0x%02x", (int)type);
   }
 
   if (endptr) *endptr = (unsigned char *)p;
-- 
2.43.0


From dbc3a88f141bfb65c884c675e80cb2db1cc4cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:37 +0000
Subject: [PATCH 108/212] fix: floats were truncated to integers when loaded
 from bson

---
 src/dlite-bson.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 68ae99c..0660105 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -652,8 +652,10 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
     break;
 
   case dliteFloat:
-    if (btype == bsonDouble)
-      f64 = le64toh(*((float64_t *)data));
+    if (btype == bsonDouble) {
+      u64 = le64toh(*((uint64_t *)data));
+      memcpy(&f64, &u64, sizeof(f64));
+    }
 #ifdef HAVE_FLOAT128
     else if (btype == bsonDecimal128)
       f128 = le128toh(*((float128_t *)data));
-- 
2.43.0


From e15826cc4591710aa7d6ebfc61304fb0c20f5758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:37 +0000
Subject: [PATCH 109/212] fix: null strings, string arrays, references and
 relations crashed or were lost in bson

---
 src/dlite-bson.c | 198 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 148 insertions(+), 50 deletions(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 0660105..006fbbf 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -22,6 +22,16 @@
     n += m;                                                             \
   } while (0)
 
+/* Append string or null, if `s` is NULL */
+#define APPEND_STRING(buf, ename, s)                                    \
+  do {                                                                  \
+    const char *_s = (s);                                               \
+    if (_s)                                                             \
+      APPEND(buf, bsonString, ename, -1, _s);                           \
+    else                                                                \
+      APPEND(buf, bsonNull, ename, 0, NULL);                            \
+  } while (0)
+
 #define APPEND_PROPERTY(buf, p, shape, ptr)                              \
   do {                                                                  \
     int m = append_property(buf, bufsize-n, p, shape, ptr);              \
@@ -76,6 +86,25 @@ static BsonType bsontype(DLiteType dtype, size_t size)
 }
 
 
+/*
+  Append relation to BSON document.  Returns number of bytes appended (or
+  would have been appended) to `buf`.
+ */
+static int append_relation(unsigned char *buf, int bufsize, const char *ename,
+                           const DLiteRelation *rel)
+{
+  int n=0;
+  unsigned char *subdoc=NULL;
+  BEGIN_SUBDOC(buf, ename, &subdoc);
+  APPEND_STRING(subdoc, "s", rel->s);
+  APPEND_STRING(subdoc, "p", rel->p);
+  APPEND_STRING(subdoc, "o", rel->o);
+  if (rel->d) APPEND(subdoc, bsonString, "d", -1, rel->d);
+  END_SUBDOC(buf, bsonDocument);
+  return n;
+}
+
+
 /*
   Append DLite property to BSON document.
 
@@ -130,6 +159,7 @@ static int append_property(unsigned char *buf, int bufsize,
         n += m;
         for (i=0; i<nmemb; i++) {
           char *s = ((char **)ptr)[i];
+          if (!s) s = "";
           if ((m = bson_append_binary(subdoc, bufsize-n, strlen(s)+1, s)) < 0)
             return m;
           n += m;
@@ -146,7 +176,10 @@ static int append_property(unsigned char *buf, int bufsize,
           return m;
         n += m;
         for (i=0; i<nmemb; i++) {
-          char *uuid = ((DLiteInstance **)ptr)[i]->uuid;
+          DLiteInstance *ref = ((DLiteInstance **)ptr)[i];
+          char uuid[DLITE_UUID_LENGTH+1];
+          memset(uuid, 0, sizeof(uuid));
+          if (ref) memcpy(uuid, ref->uuid, sizeof(uuid));
           if ((m = bson_append_binary(subdoc, bufsize-n, DLITE_UUID_LENGTH+1,
                                       uuid)) < 0) return m;
           n += m;
@@ -161,14 +194,18 @@ static int append_property(unsigned char *buf, int bufsize,
                   dlite_type_get_dtypename(p->type));
 
     case dliteRelation:
-      for (i=0; i<nmemb; i++) {
-        unsigned char *subdoc;
-        DLiteRelation rel = *((DLiteRelation *)ptr + i);
-        BEGIN_SUBDOC(buf, p->name, &subdoc);
-        APPEND(subdoc, bsonString, "s", -1, rel.s);
-        APPEND(subdoc, bsonString, "p", -1, rel.p);
-        APPEND(subdoc, bsonString, "o", -1, rel.o);
-        END_SUBDOC(buf, bsonDocument);
+      {
+        unsigned char *arr=NULL;
+        BEGIN_SUBDOC(buf, p->name, &arr);
+        for (i=0; i<nmemb; i++) {
+          int m;
+          char index[20];
+          snprintf(index, sizeof(index), "%d", i);
+          if ((m = append_relation(arr, bufsize-n, index,
+                                   (DLiteRelation *)ptr + i)) < 0) return m;
+          n += m;
+        }
+        END_SUBDOC(buf, bsonArray);
       }
       break;
     }
@@ -240,17 +277,18 @@ static int append_property(unsigned char *buf, int bufsize,
       break;
 
     case dliteFixString:
-      APPEND(buf, bsonString, p->name, p->size, ptr);
+      APPEND(buf, bsonString, p->name, strnlen(ptr, p->size), ptr);
       break;
 
     case dliteStringPtr:
-      APPEND(buf, bsonString, p->name,
-             strlen(*((char **)ptr)), *((char **)ptr));
+      APPEND_STRING(buf, p->name, *((char **)ptr));
       break;
 
     case dliteRef:
-      APPEND(buf, bsonString, p->name, p->size,
-             (*((DLiteInstance **)ptr))->uuid);
+      {
+        DLiteInstance *ref = *((DLiteInstance **)ptr);
+        APPEND_STRING(buf, p->name, (ref) ? ref->uuid : NULL);
+      }
       break;
 
     case dliteDimension:
@@ -260,13 +298,9 @@ static int append_property(unsigned char *buf, int bufsize,
 
     case dliteRelation:
       {
-        unsigned char *subdoc;
-        DLiteRelation rel = *((DLiteRelation *)ptr);
-        BEGIN_SUBDOC(buf, p->name, &subdoc);
-        APPEND(subdoc, bsonString, "s", -1, rel.s);
-        APPEND(subdoc, bsonString, "p", -1, rel.p);
-        APPEND(subdoc, bsonString, "o", -1, rel.o);
-        END_SUBDOC(buf, bsonDocument);
+        int m = append_relation(buf, bufsize-n, p->name, ptr);
+        if (m < 0) return m;
+        n += m;
       }
     }
   }
@@ -295,6 +329,8 @@ int dlite_bson_append_instance(unsigned char *buf, int bufsize,
   int n=0, ismeta=dlite_instance_is_meta(inst);
   unsigned char *subdoc, byteordering[]="\x01\x02\x03\x04";
 
+  if (dlite_instance_sync_to_properties((DLiteInstance *)inst)) return -1;
+
   APPEND(buf, bsonString, "uuid", DLITE_UUID_LENGTH, inst->uuid);
   if (inst->uri)
     APPEND(buf, bsonString, "uri", -1, inst->uri);
@@ -422,7 +458,31 @@ unsigned char *dlite_bson_from_instance(const DLiteInstance *inst,
                "', got '%s'", bson_typename(type))
 
 
-/* Read relations from `subdoc` and write them to `d` of length `len`.
+/* Read relation from `subdoc` and write it to `rel`.
+   Returns non-zero on error. */
+static int parse_relation(const unsigned char *subdoc, DLiteRelation *rel)
+{
+  unsigned char *endptr=NULL;
+  char *ename, *value;
+  int type;
+  while ((type = bson_parse(subdoc, &ename, (void **)&value, NULL,
+                            &endptr)) > 0) {
+    char **q;
+    if      (strcmp(ename, "s") == 0) q = &rel->s;
+    else if (strcmp(ename, "p") == 0) q = &rel->p;
+    else if (strcmp(ename, "o") == 0) q = &rel->o;
+    else if (strcmp(ename, "d") == 0) q = &rel->d;
+    else continue;
+    if (type == bsonNull) continue;
+    TYPECHECK("relation", bsonString);
+    free(*q);
+    if (!(*q = strdup(value)))
+      return err(dliteMemoryError, "allocation failure");
+  }
+  return type;
+}
+
+/* Read relations from `subdoc` and write them to `rel` of length `len`.
    Returns non-zero on error. */
 static int parse_relations(const unsigned char *subdoc, DLiteRelation *rel,
                             int len)
@@ -430,24 +490,17 @@ static int parse_relations(const unsigned char *subdoc, DLiteRelation *rel,
   unsigned char *buf, *endptr=NULL;
   char *ename;
   int type, i=0;
-  while ((type = bson_parse(subdoc, &ename, (void **)&buf, NULL, &endptr))) {
+  while ((type = bson_parse(subdoc, &ename, (void **)&buf, NULL,
+                            &endptr)) > 0) {
     if (i++ >= len)
       return err(dliteIndexError, "too many relations in bson, expected %d",
                  len);
     if (type != bsonDocument)
       return err(dliteTypeError, "bson relations should be document, got %s",
                  bson_typename(type));
-    unsigned char *ep=NULL;
-    int e;
-    char *s, *p, *o;
-    if ((e = bson_parse(buf, NULL, (void **)&s, NULL, &ep)) < 0) return e;
-    if ((e = bson_parse(buf, NULL, (void **)&p, NULL, &ep)) < 0) return e;
-    if ((e = bson_parse(buf, NULL, (void **)&o, NULL, &ep)) < 0) return e;
-    rel->s = strdup(s);
-    rel->p = strdup(p);
-    rel->o = strdup(o);
-    rel++;
+    if (parse_relation(buf, rel++)) return 1;
   }
+  if (type < 0) return type;
   if (i != len) return err(dliteIndexError, "too few relations in bson, "
                            "got  %d, expected %d", i, len);
   return 0;
@@ -527,13 +580,13 @@ static int set_meta_dimensions(DLiteMeta *meta, unsigned char *subdoc)
 
 
 /*
-  Set array property `idx` of `inst` from `data`.
+  Set array property `idx` of `inst` from `data` of size `datasize`.
   If `byteswap` is non-zero, the data will by byteswapped.
 
   Returns non-zero on error.
  */
 static int set_array_property(DLiteInstance *inst, int idx, void *data,
-                              int byteswap)
+                              int datasize, int byteswap)
 {
    int i, stat, nmemb=1;
   void *ptr = dlite_instance_get_property_by_index(inst, idx);
@@ -545,15 +598,17 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
   case dliteBlob:
   case dliteBool:
   case dliteFixString:
-  case dliteRef:
-    dlite_instance_set_property_by_index(inst, idx, data);
-    break;
-
   case dliteInt:
   case dliteUInt:
   case dliteFloat:
+    if (datasize < 0 || (size_t)datasize != nmemb*p->size)
+      return err(dliteInconsistentDataError, "expected %lu bytes in bson for "
+                 "property '%s', got %d", (unsigned long)(nmemb*p->size),
+                 p->name, datasize);
+    if (!nmemb) break;
     dlite_instance_set_property_by_index(inst, idx, data);
-    if (byteswap) {
+    if (byteswap && p->type != dliteBlob && p->type != dliteBool &&
+        p->type != dliteFixString) {
       char *q = ptr;
       for (i=0; i<nmemb; i++, q += p->size) {
         switch (p->size) {
@@ -572,13 +627,34 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
     }
     break;
 
+  case dliteRef:
+    {
+      DLiteInstance **v = ptr;
+      char *s = data;
+      if (datasize < 0 || datasize != nmemb*(DLITE_UUID_LENGTH+1))
+        return err(dliteInconsistentDataError, "inconsistent bson data for "
+                   "property: %s", p->name);
+      for (i=0; i < nmemb; i++, s += DLITE_UUID_LENGTH+1) {
+        if (!*s) continue;
+        if (s[DLITE_UUID_LENGTH])
+          return err(dliteInconsistentDataError, "invalid uuid in bson for "
+                     "property: %s", p->name);
+        if (!(v[i] = dlite_instance_get(s))) return 1;
+      }
+    }
+    break;
+
   case dliteStringPtr:
     {
       char **v = ptr;
-      char *s = *((char **)data);
+      char *s = data, *end = s + datasize;
       for (i=0; i < nmemb; i++) {
-        int n = strlen(s);
-        v[i] = strdup(s);
+        int n = strnlen(s, end - s);
+        if (s + n >= end)
+          return err(dliteInconsistentDataError, "too few strings in bson for "
+                     "property: %s", p->name);
+        if (!(v[i] = strdup(s)))
+          return err(dliteMemoryError, "allocation failure");
         s += n+1;
       }
     }
@@ -599,12 +675,12 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
 
 
 /*
-  Set scalar property `idx` of `inst` from `data` (of BSON type `btype`).
-  If `byteswap` is non-zero, the data will by byteswapped.
+  Set scalar property `idx` of `inst` from `data` of size `datasize`.
 
   Returns non-zero on error.
  */
-static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
+static int set_scalar_property(DLiteInstance *inst, int idx, void *data,
+                               int datasize)
 {
   int stat;
   int32_t i32;
@@ -619,10 +695,26 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
   int btype = bsontype(p->type, p->size);
   switch (p->type) {
   case dliteBlob:
+    if (datasize < 0 || (size_t)datasize != p->size)
+      return err(dliteInconsistentDataError, "expected %d bytes in bson for "
+                 "property '%s', got %d", (int)p->size, p->name, datasize);
+    memcpy(ptr, data, p->size);
+    break;
+
   case dliteBool:
+    *((bool *)ptr) = (*((unsigned char *)data)) ? 1 : 0;
+    break;
+
   case dliteFixString:
+    if (datasize < 0 || (size_t)datasize >= p->size)
+      return err(dliteInconsistentDataError, "bson string too long for "
+                 "property '%s': %d", p->name, datasize);
+    memset(ptr, 0, p->size);
+    memcpy(ptr, data, datasize);
+    break;
+
   case dliteRef:
-    dlite_instance_set_property_by_index(inst, idx, data);
+    if (!(*((DLiteInstance **)ptr) = dlite_instance_get(data))) return 1;
     break;
 
   case dliteInt:
@@ -694,7 +786,7 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
                "have a property of type: %s",
                dlite_type_get_enum_name(p->type));
   case dliteRelation:
-    if ((stat = parse_relations(data, ptr, 1))) return stat;
+    if ((stat = parse_relation(data, ptr))) return stat;
     break;
   }
   return 0;
@@ -780,14 +872,20 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
       DLiteProperty *p = DLITE_PROP_DESCR(inst, idx);
       int btype = bsontype(p->type, p->size);
       if (p->ndims) {
-        if (set_array_property(inst, idx, data, byteswap)) goto fail;
+        int atype = (p->type == dliteRelation) ? bsonArray : bsonBinary;
+        if (type != atype)
+          FAILCODE3(dliteInconsistentDataError, "expected bson type '%s', "
+                    "got '%s' for property: %s", bson_typename(atype),
+                    bson_typename(type), ename);
+        if (set_array_property(inst, idx, data, datasize, byteswap)) goto fail;
       } else {
         if (type != btype)
           FAILCODE3(dliteInconsistentDataError, "expected bson type '%s', "
                     "got '%s' for property: %s", bson_typename(btype),
                     bson_typename(type), ename);
-        if (set_scalar_property(inst, idx, data)) goto fail;
+        if (set_scalar_property(inst, idx, data, datasize)) goto fail;
       }
+      if (inst->meta->_loadprop && inst->meta->_loadprop(inst, idx)) goto fail;
     }
   }
 
-- 
2.43.0


From e3d2c2602d046014038bc0e3d9187094f290f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:37 +0000
Subject: [PATCH 110/212] fix: name, description, references and null
 descriptions of metadata were lost in bson, errors were not handled

---
 src/dlite-bson.c | 130 ++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 105 insertions(+), 25 deletions(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 006fbbf..aa74071 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -364,7 +364,7 @@ int dlite_bson_append_instance(unsigned char *buf, int bufsize,
     BEGIN_SUBDOC(buf, "dimensions", &subdoc);
     for (i=0; i < meta->_ndimensions; i++) {
       DLiteDimension *d = meta->_dimensions + i;
-      APPEND(subdoc, bsonString, d->name, -1, d->description);
+      APPEND_STRING(subdoc, d->name, d->description);
     }
     END_SUBDOC(buf, bsonDocument);
 
@@ -515,15 +515,22 @@ static int set_meta_dimensions(DLiteMeta *meta, unsigned char *subdoc)
   int type;
   size_t ndims=0;
   DLiteDimension *d = meta->_dimensions;
-  while ((type = bson_parse(subdoc, &ename, (void **)&val, NULL, &endptr))) {
-    TYPECHECK("dimension", bsonString);
+  while ((type = bson_parse(subdoc, &ename, (void **)&val, NULL,
+                            &endptr)) > 0) {
+    if (type == bsonNull)
+      val = NULL;
+    else
+      TYPECHECK("dimension", bsonString);
     if (ndims++ >= meta->_ndimensions)
       return err(dliteIndexError, "too many dimensions in bson, expected %d",
                  (int)meta->_ndimensions);
+    free(d->name);
+    free(d->description);
     d->name = strdup(ename);
-    d->description = strdup(val);
+    d->description = (val) ? strdup(val) : NULL;
     d++;
   }
+  if (type < 0) return type;
   if (ndims != meta->_ndimensions)
     return err(dliteIndexError, "too few dimensions in bson, got  %d, "
                "expected %d", (int)ndims, (int)meta->_ndimensions);
@@ -538,44 +545,74 @@ static int set_meta_dimensions(DLiteMeta *meta, unsigned char *subdoc)
   int type;
   size_t nprops=0;
   DLiteProperty *p = meta->_properties;
-  while ((type = bson_parse(subdoc, &ename, (void **)&buf, NULL, &endptr))) {
+  while ((type = bson_parse(subdoc, &ename, (void **)&buf, NULL,
+                            &endptr)) > 0) {
     unsigned char *bufptr=NULL;
     char *value;
+    int hastype=0;
     TYPECHECK("property", bsonDocument);
     if (nprops++ >= meta->_nproperties)
       return err(dliteIndexError, "too many properties in bson, expected %d",
                  (int)meta->_nproperties);
     p->name = strdup(ename);
-    while ((type = bson_parse(buf, &ename, (void **)&value, NULL, &bufptr))) {
+    while ((type = bson_parse(buf, &ename, (void **)&value, NULL,
+                              &bufptr)) > 0) {
       if (strcmp(ename, "type") == 0) {
         TYPECHECK("type", bsonString);
-        dlite_type_set_dtype_and_size(value, &(p->type), &(p->size));
+        if (dlite_type_set_dtype_and_size(value, &(p->type), &(p->size)))
+          return 1;
+        hastype = 1;
+      } else if (strcmp(ename, "$ref") == 0) {
+        TYPECHECK("$ref", bsonString);
+        free(p->ref);
+        p->ref = strdup(value);
       } else if (strcmp(ename, "shape") == 0) {
         unsigned char *b=(unsigned char *)value, *ep=NULL;
         char *v;
         int ndims, i=0;
         TYPECHECK("shape", bsonArray);
+        if (p->shape)
+          return err(dliteInconsistentDataError,
+                     "duplicated \"shape\" in bson for property: %s", p->name);
         if ((ndims = bson_nelements(b)) < 0) return ndims;
-        p->shape = calloc(ndims, sizeof(char *));
-        while ((type = bson_parse(b, NULL, (void **)&v, NULL, &ep)))
-          p->shape[i++] = strdup(v);
+        if (!(p->shape = calloc((ndims) ? ndims : 1, sizeof(char *))))
+          return err(dliteMemoryError, "allocation failure");
         p->ndims = ndims;
+        while ((type = bson_parse(b, NULL, (void **)&v, NULL, &ep)) > 0) {
+          TYPECHECK("shape", bsonString);
+          p->shape[i++] = strdup(v);
+        }
       } else if (strcmp(ename, "unit") == 0) {
         TYPECHECK("unit", bsonString);
+        free(p->unit);
         p->unit = strdup(value);
       } else if (strcmp(ename, "description") == 0) {
         TYPECHECK("description", bsonString);
+        free(p->description);
         p->description = strdup(value);
       }
     }
+    if (type < 0) return type;
+    if (!hastype)
+      return err(dliteInconsistentDataError,
+                 "missing \"type\" in bson for property: %s", p->name);
     p++;
   }
-  dlite_meta_init(meta);
+  if (type < 0) return type;
 
   if (nprops != meta->_nproperties)
     return err(dliteIndexError, "too few properties in bson, got  %d, "
                "expected %d", (int)nprops, (int)meta->_nproperties);
-  return 0;
+  return dlite_meta_init(meta);
+}
+
+/* Assign string property `name` of metadata `inst` if it exists.  Return
+   non-zero on error. */
+static int set_meta_string(DLiteInstance *inst, const char *name,
+                           const char *value)
+{
+  if (!value || !dlite_meta_has_property(inst->meta, name)) return 0;
+  return dlite_instance_set_property(inst, name, &value);
 }
 
 
@@ -805,8 +842,11 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
   unsigned char *subdoc, *endptr;
   char *ename;
   void *data;
+  char *name=NULL, *version=NULL, *namespace=NULL;
+  int ok=0, nref=0;
   size_t *dims=NULL;
   DLiteInstance *inst=NULL;
+  DLiteMeta *meta=NULL;
   if (!(metaid = bson_scan_string(doc, "meta", NULL))) goto fail;
   uuid = bson_scan_string(doc, "uuid", NULL);
   uri = bson_scan_string(doc, "uri", NULL);
@@ -831,16 +871,20 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
     FAILCODE1(dliteKeyError, "expected dimension values to be a bson "
               "document, got %s", bson_typename(type));
   if ((ndims = bson_nelements(subdoc)) < 0) goto fail;
-  if (!(dims = calloc(ndims, sizeof(size_t))))
+  if (!(dims = calloc((ndims) ? ndims : 1, sizeof(size_t))))
     FAILCODE(dliteMemoryError, "allocation failure");
   endptr = NULL;
   i = 0;
-  while ((type = bson_parse(subdoc, &ename, &data, NULL, &endptr))) {
+  while ((type = bson_parse(subdoc, &ename, &data, NULL, &endptr)) > 0) {
     if (type != bsonInt32)
       FAILCODE1(dliteTypeError, "expected dimension values to be bsonInt32, "
                 "got %s", bson_typename(type));
-    dims[i++] = *((int32_t *)data);
+    int32_t v = le32toh(*((int32_t *)data));
+    if (v < 0)
+      FAILCODE1(dliteValueError, "negative dimension value in bson: %s", ename);
+    dims[i++] = v;
   }
+  if (type < 0) goto fail;
   if (i != ndims)
     FAILCODE2(dliteInconsistentDataError, "expected %d dimensions, got %d",
               ndims, i);
@@ -848,15 +892,41 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
   /* Create instance */
   if (!(id = (uri) ? uri : (uuid) ? uuid : NULL))
     FAILCODE(dliteKeyError, "bson data is missing uri and/or uuid");
-  if (!(inst = dlite_instance_create_from_id(metaid, dims, id))) goto fail;
+  if (dlite_instance_has(id, 0)) {
+    /* The instance already exists */
+    inst = dlite_instance_get(id);
+    ok = 1;
+    goto fail;
+  }
+  if (!(meta = dlite_meta_get(metaid)))
+    FAILCODE1(dliteMissingMetadataError, "cannot find metadata '%s'", metaid);
+  if ((size_t)ndims != meta->_ndimensions)
+    FAILCODE3(dliteInconsistentDataError, "metadata '%s' has %d dimensions, "
+              "got %d in bson", metaid, (int)meta->_ndimensions, ndims);
+  if (!(inst = dlite_instance_create(meta, dims, id))) goto fail;
+  nref = inst->_refcount;
 
   if (dlite_instance_is_meta(inst)) {
     /* Metadata */
-    if ((type = bson_scan(doc, "dimensions", (void **)&subdoc, NULL)) < 0 ||
-        set_meta_dimensions((DLiteMeta *)inst, subdoc)) goto fail;
+    if (uri && dlite_split_meta_uri(uri, &name, &version, &namespace))
+      goto fail;
+    if (set_meta_string(inst, "name", name) ||
+        set_meta_string(inst, "version", version) ||
+        set_meta_string(inst, "namespace", namespace) ||
+        set_meta_string(inst, "description",
+                        bson_scan_string(doc, "description", NULL))) goto fail;
 
-    if ((type = bson_scan(doc, "properties", (void **)&subdoc, NULL)) < 0 ||
-        set_meta_properties((DLiteMeta *)inst, subdoc)) goto fail;
+    if ((type = bson_scan(doc, "dimensions", (void **)&subdoc, NULL)) < 0)
+      goto fail;
+    if (type != bsonDocument)
+      FAILCODE(dliteTypeError, "expected dimensions to be a bson document");
+    if (set_meta_dimensions((DLiteMeta *)inst, subdoc)) goto fail;
+
+    if ((type = bson_scan(doc, "properties", (void **)&subdoc, NULL)) < 0)
+      goto fail;
+    if (type != bsonDocument)
+      FAILCODE(dliteTypeError, "expected properties to be a bson document");
+    if (set_meta_properties((DLiteMeta *)inst, subdoc)) goto fail;
   } else {
     /* Data */
     if ((type = bson_scan(doc, "properties", (void **)&subdoc, NULL)) < 0)
@@ -865,7 +935,8 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
       FAILCODE1(dliteTypeError, "expected properties to be a bson document, "
                 "got %s", bson_typename(type));
     endptr = NULL;
-    while ((type = bson_parse(subdoc, &ename, &data, &datasize, &endptr))) {
+    while ((type = bson_parse(subdoc, &ename, &data, &datasize,
+                              &endptr)) > 0) {
       if ((idx = dlite_meta_get_property_index(inst->meta, ename)) < 0)
         goto fail;
       if (type == bsonNull) continue;
@@ -887,12 +958,21 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
       }
       if (inst->meta->_loadprop && inst->meta->_loadprop(inst, idx)) goto fail;
     }
+    if (type < 0) goto fail;
   }
 
-  if (dims) free(dims);
-  return inst;
+  ok = 1;
  fail:
-  if (inst) dlite_instance_decref(inst);
+  if (!ok && inst) {
+    /* Metadata has an extra refcount, so release all references that the
+       instance was created with */
+    while (nref-- > 0) dlite_instance_decref(inst);
+    inst = NULL;
+  }
+  if (meta) dlite_meta_decref(meta);
   if (dims) free(dims);
-  return NULL;
+  if (name) free(name);
+  if (version) free(version);
+  if (namespace) free(namespace);
+  return inst;
 }
-- 
2.43.0


From 82e41cb1a8f40bb25c4517272572c66864ea0042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:53 +0000
Subject: [PATCH 111/212] fix: Instance.from_bson() read outside bson input
 that is too short

---
 bindings/python/dlite-entity-python.i | 3 +++
 bindings/python/dlite-python.i        | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index abdca7b..5e95c7d 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -597,6 +597,9 @@ def get_instance(
     @classmethod
     def from_bson(cls, bsoninput):
         """Load the instance from bson input."""
+        if (len(bsoninput) < 5
+                or int.from_bytes(bsoninput[:4], "little") > len(bsoninput)):
+            raise _dlite.DLiteParseError("inconsistent size of bson input")
         errclr()  # Clear internal error before calling Instance()
         inst = Instance(
             bsoninput=bsoninput,
diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 839b4da..ab9dcd3 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -1382,7 +1382,7 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
 /* Bytes object (without explicit length) */
 %typemap("doc") unsigned char *INPUT_BYTES "bytes"
 %typemap(in) unsigned char *INPUT_BYTES {
-  $1 = (unsigned char *)PyBytes_AsString($input);
+  if (!($1 = (unsigned char *)PyBytes_AsString($input))) SWIG_fail;
 }
 
 /* ---------------
-- 
2.43.0


From 1d0f708c4b2aa496d9eb98adedb9dbebca97f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:30 +0000
Subject: [PATCH 112/212] fix: size of bson documents with string or reference
 arrays was too small

---
 src/dlite-bson.c | 2 ++
 src/utils/bson.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index aa74071..0426b1d 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -165,6 +165,7 @@ static int append_property(unsigned char *buf, int bufsize,
           n += m;
         }
         if ((m = bson_end_binary(buf, bufsize-n)) < 0) return m;
+        n += m;
       }
       break;
 
@@ -185,6 +186,7 @@ static int append_property(unsigned char *buf, int bufsize,
           n += m;
         }
         if ((m = bson_end_binary(buf, bufsize-n)) < 0) return m;
+        n += m;
       }
       break;
 
diff --git a/src/utils/bson.c b/src/utils/bson.c
index 5e71721..5d2507f 100644
--- a/src/utils/bson.c
+++ b/src/utils/bson.c
@@ -231,7 +231,7 @@ int bson_append(unsigned char *doc, int bufsize, BsonType type,
     *((int32_t *)(doc+n)) = htole32(size);
     n += 4;
     doc[n++] = '\x00';
-    memcpy(doc+n, data, size);
+    if (size) memcpy(doc+n, data, size);
     n += size;
     break;
   case bsonBool:
-- 
2.43.0


From 9a79d2ba2ab3a2f532edd8fbd38b24c8ddce17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:51 +0000
Subject: [PATCH 113/212] fix: uint32 values were not loaded from bson

---
 src/dlite-bson.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 0426b1d..34cd283 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -777,7 +777,7 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data,
     switch (p->size) {
     case 1: *((uint8_t *)ptr)  = i32; break;
     case 2: *((uint16_t *)ptr) = i32; break;
-    case 4: *((uint32_t *)ptr) = i32; break;
+    case 4: *((uint32_t *)ptr) = u64; break;
     case 8: *((uint64_t *)ptr) = u64; break;
     }
     break;
-- 
2.43.0


From ce6eac268704c9a160bcc5189fc8da3660f83694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:51 +0000
Subject: [PATCH 114/212] fix: no error for bson documents that refer to
 missing instances

---
 src/dlite-bson.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 34cd283..d0ba6c1 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -678,7 +678,9 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
         if (s[DLITE_UUID_LENGTH])
           return err(dliteInconsistentDataError, "invalid uuid in bson for "
                      "property: %s", p->name);
-        if (!(v[i] = dlite_instance_get(s))) return 1;
+        if (!(v[i] = dlite_instance_get(s)))
+          return err(dliteMissingInstanceError, "cannot find instance '%s' "
+                     "referred to by property: %s", s, p->name);
       }
     }
     break;
@@ -753,7 +755,9 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data,
     break;
 
   case dliteRef:
-    if (!(*((DLiteInstance **)ptr) = dlite_instance_get(data))) return 1;
+    if (!(*((DLiteInstance **)ptr) = dlite_instance_get(data)))
+      return err(dliteMissingInstanceError, "cannot find instance '%s' "
+                 "referred to by property: %s", (char *)data, p->name);
     break;
 
   case dliteInt:
-- 
2.43.0


From 9e66929a5d09e92e50f8b6edac65e33a88605772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 115/212] fix: collections could not be loaded from bson

---
 src/dlite-bson.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index d0ba6c1..7da787b 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -628,7 +628,7 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
                               int datasize, int byteswap)
 {
    int i, stat, nmemb=1;
-  void *ptr = dlite_instance_get_property_by_index(inst, idx);
+  void *ptr = *(void **)DLITE_PROP(inst, idx);
   DLiteProperty *p = DLITE_PROP_DESCR(inst, idx);
   assert(p->ndims);
  size_t *shape = DLITE_PROP_DIMS(inst, idx);
-- 
2.43.0


From 6d2eddb6956bf495f52cfdbf9207524d0f4b90b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:01 +0000
Subject: [PATCH 116/212] fix: empty strings and zero dimensions could not be
 loaded from RDF

---
 bindings/python/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/rdf.py b/bindings/python/rdf.py
index 2a6a65c..7b55302 100644
--- a/bindings/python/rdf.py
+++ b/bindings/python/rdf.py
@@ -46,7 +46,7 @@ def _value(graph, subject=None, predicate=None, object=None, **kwargs):
     value = graph.value(
         subject=subject, predicate=predicate, object=object, **kwargs
     )
-    if not value:
+    if value is None:
         raise ValueError(
             f"missing value for subject={subject}, predicate={predicate}, "
             f"object={object}"
-- 
2.43.0


From 8d613f07539d6ecfca6463f2c4fe3e2b0ec7a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:01 +0000
Subject: [PATCH 117/212] fix: to_bytes() and option include_meta of the pyrdf
 storage

---
 .../python/python-storage-plugins/pyrdf.py    | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/storages/python/python-storage-plugins/pyrdf.py b/storages/python/python-storage-plugins/pyrdf.py
index 1e0cfac..4852eef 100644
--- a/storages/python/python-storage-plugins/pyrdf.py
+++ b/storages/python/python-storage-plugins/pyrdf.py
@@ -84,7 +84,7 @@ class pyrdf(dlite.DLiteStorageBase):
             base_uri=self.options.get("base_uri"),
             base_prefix=self.options.get("base_prefix"),
             include_meta=(
-                dlite.asbool(self.options)
+                dlite.asbool(self.options.include_meta)
                 if "include_meta" in self.options
                 else None
             ),
@@ -124,21 +124,27 @@ class pyrdf(dlite.DLiteStorageBase):
             New instance.
         """
         opts = Options(options)
-        return from_rdf(data=buffer, id=id, format=opts.get("format"))
+        return from_rdf(data=buffer, id=id, format=opts.get("format", "turtle"))
 
     @classmethod
-    def to_bytes(cls, inst):
+    def to_bytes(cls, inst, options=None):
         """Save instance `inst` to bytes (or bytearray) object.
 
         Arguments:
             inst: Instance to save.
+            options: Options:
+                - `format`: File format to write.  Default is "turtle".
+                - `base_uri`: Base URI that is prepended to the instance
+                  UUID or URI (if it is not already a valid URI).
+                - `base_prefix`: Optional namespace prefix for `base_uri`.
 
         Returns:
             The bytes (or bytearray) object with serialised RDF.
         """
+        opts = Options(options)
         return to_rdf(
             inst,
-            format=self.options.get("format"),
-            base_uri=self.options.get("base_uri"),
-            base_prefix=self.options.get("base_prefix"),
-        )
+            format=opts.get("format", "turtle"),
+            base_uri=opts.get("base_uri", ""),
+            base_prefix=opts.get("base_prefix"),
+        ).encode()
-- 
2.43.0


From 47632f1882b8f7515f71b38bceffd38081a887b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:01 +0000
Subject: [PATCH 118/212] fix: bson storage left corrupt files if the content
 could not be encoded or became shorter

---
 storages/python/python-storage-plugins/bson.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/storages/python/python-storage-plugins/bson.py b/storages/python/python-storage-plugins/bson.py
index e9a36fb..897b6fe 100644
--- a/storages/python/python-storage-plugins/bson.py
+++ b/storages/python/python-storage-plugins/bson.py
@@ -79,8 +79,12 @@ class bson(dlite.DLiteStorageBase):
                             props[key] = props[key].hex()
                     self._data[uuid]["properties"] = props
 
+            # Encode before opening, such that the existing content is kept on
+            # failure
+            bson_data = pybson.encode(self._data)
             with open(self.uri, mode) as handle:
-                handle.write(pybson.encode(self._data))
+                handle.write(bson_data)
+                handle.truncate()
 
     def load(self, uuid: str) -> dlite.Instance:
         """Load `uuid` from current storage and return it as a new instance.
-- 
2.43.0


From 4726c8fd7d06708864e0f3bd19dfab1a887376cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:36 +0000
Subject: [PATCH 119/212] fix: RDF serialisation truncated floats and could not
 read back arrays of strings

---
 bindings/python/rdf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/python/rdf.py b/bindings/python/rdf.py
index 7b55302..6241e41 100644
--- a/bindings/python/rdf.py
+++ b/bindings/python/rdf.py
@@ -105,6 +105,8 @@ def to_graph(
             graph.add((dim, DM.hasValue, Literal(v)))
         for k in inst.properties:
             prop = URIRef(this + sep + k)
+            # Strings in arrays must be quoted to be readable
+            flags = 0 if inst.meta.getprop(k).ndims else 1
             graph.add((this, DM.hasProperty, prop))
             # Add type (PropertyInstance)?
             graph.add((prop, DM.instanceOf, URIRef(f"{inst.meta.uri}#{k}")))
@@ -113,7 +115,9 @@ def to_graph(
                 (
                     prop,
                     DM.hasValue,
-                    Literal(inst.get_property_as_string(k, flags=1)),
+                    Literal(
+                        inst.get_property_as_string(k, prec=-3, flags=flags)
+                    ),
                 )
             )
     else:
@@ -312,7 +316,8 @@ def from_graph(graph, id=None):
         for prop in properties:
             label = _value(graph, prop, DM.hasLabel)
             value = _value(graph, prop, DM.hasValue)
-            inst.set_property_from_string(label, value, flags=1)
+            flags = 0 if meta.getprop(str(label)).ndims else 1
+            inst.set_property_from_string(label, value, flags=flags)
 
     return inst
 
-- 
2.43.0


From 176ec181de5b640316f8c8e10404bfc0ee6249ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:36 +0000
Subject: [PATCH 120/212] fix: arrays of strings could not be read back by the
 rdf driver

---
 storages/rdf/dlite-rdf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storages/rdf/dlite-rdf.c b/storages/rdf/dlite-rdf.c
index 62392b2..ee0d116 100644
--- a/storages/rdf/dlite-rdf.c
+++ b/storages/rdf/dlite-rdf.c
@@ -426,7 +426,8 @@ DLiteInstance *rdf_load_instance(const DLiteStorage *storage, const char *id)
     p = meta->_properties + j;
     pdims = DLITE_PROP_DIMS(inst, j);
     ptr = dlite_instance_get_property_by_index(inst, j);
-    if (dlite_property_scan(val, ptr, p, pdims, dliteFlagRaw) < 0) goto fail;
+    if (dlite_property_scan(val, ptr, p, pdims, (p->ndims) ?
+                            dliteFlagDefault : dliteFlagRaw) < 0) goto fail;
     n++;
     free(prop);
   }
@@ -658,7 +659,9 @@ int rdf_save_instance(DLiteStorage *storage, const DLiteInstance *inst)
       triplestore_add_uri(ts, b1, "rdf:type", "owl:NamedIndividual");
       triplestore_add_uri(ts, b1, "rdf:type", _P ":PropertyValue");
       triplestore_add(ts, b1, _P ":hasLabel", name, "xsd:Name");
+      /* strings in arrays must be quoted to be readable */
       dlite_property_aprint(&buf, &bufsize, 0, ptr, p, shape, 0, -3,
+                            (p->ndims) ? dliteFlagDefault :
                             dliteFlagRaw | dliteFlagStrip);
       triplestore_add(ts, b1, _P ":hasValue", buf, "rdf:PlainLiteral");
       free(b1);
-- 
2.43.0


From a0eff8c24b608329931b0aea3cb3cb956d841794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:12 +0000
Subject: [PATCH 121/212] fix: null strings were read back as "null" from RDF

---
 bindings/python/rdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bindings/python/rdf.py b/bindings/python/rdf.py
index 6241e41..e15839a 100644
--- a/bindings/python/rdf.py
+++ b/bindings/python/rdf.py
@@ -111,6 +111,8 @@ def to_graph(
             # Add type (PropertyInstance)?
             graph.add((prop, DM.instanceOf, URIRef(f"{inst.meta.uri}#{k}")))
             graph.add((prop, DM.hasLabel, Literal(k)))
+            if inst[k] is None:
+                continue  # unset property
             graph.add(
                 (
                     prop,
@@ -315,7 +317,9 @@ def from_graph(graph, id=None):
         inst = dlite.Instance.from_metaid(meta.uri, dims, id=dlite_id)
         for prop in properties:
             label = _value(graph, prop, DM.hasLabel)
-            value = _value(graph, prop, DM.hasValue)
+            value = graph.value(prop, DM.hasValue)
+            if value is None:
+                continue  # unset property
             flags = 0 if meta.getprop(str(label)).ndims else 1
             inst.set_property_from_string(label, value, flags=flags)
 
-- 
2.43.0


From 69b1fd31535e6c1f5d76d94bc6b0d60ff202dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:12 +0000
Subject: [PATCH 122/212] fix: null strings were read back as "null" by the rdf
 driver

---
 storages/rdf/dlite-rdf.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/storages/rdf/dlite-rdf.c b/storages/rdf/dlite-rdf.c
index ee0d116..151a028 100644
--- a/storages/rdf/dlite-rdf.c
+++ b/storages/rdf/dlite-rdf.c
@@ -422,8 +422,14 @@ DLiteInstance *rdf_load_instance(const DLiteStorage *storage, const char *id)
     j = dlite_meta_get_property_index(meta, name);
     if (!(name = getobj(s, prop, _P ":hasLabel", 1))) goto fail;
     if ((j = dlite_meta_get_property_index(meta, name)) < 0) goto fail;
-    if (!(val = getobj(s, prop, _P ":hasValue", 1))) goto fail;
     p = meta->_properties + j;
+    if (p->type == dliteStringPtr && !p->ndims) {
+      if (!(val = getobj(s, prop, _P ":hasValue", 0))) {
+        n++;  /* null string - no value */
+        free(prop);
+        continue;
+      }
+    } else if (!(val = getobj(s, prop, _P ":hasValue", 1))) goto fail;
     pdims = DLITE_PROP_DIMS(inst, j);
     ptr = dlite_instance_get_property_by_index(inst, j);
     if (dlite_property_scan(val, ptr, p, pdims, (p->ndims) ?
@@ -659,6 +665,10 @@ int rdf_save_instance(DLiteStorage *storage, const DLiteInstance *inst)
       triplestore_add_uri(ts, b1, "rdf:type", "owl:NamedIndividual");
       triplestore_add_uri(ts, b1, "rdf:type", _P ":PropertyValue");
       triplestore_add(ts, b1, _P ":hasLabel", name, "xsd:Name");
+      if (p->type == dliteStringPtr && !p->ndims && !*(char **)ptr) {
+        free(b1);  /* null string - no value */
+        continue;
+      }
       /* strings in arrays must be quoted to be readable */
       dlite_property_aprint(&buf, &bufsize, 0, ptr, p, shape, 0, -3,
                             (p->ndims) ? dliteFlagDefault :
-- 
2.43.0


From b77d2533b5ae637a394c2ce9fb582906fb6865c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:21 +0000
Subject: [PATCH 123/212] fix: endless recursion when a pyrdf storage is in the
 storage path

---
 bindings/python/rdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/rdf.py b/bindings/python/rdf.py
index e15839a..954d8b0 100644
--- a/bindings/python/rdf.py
+++ b/bindings/python/rdf.py
@@ -263,7 +263,9 @@ def from_graph(graph, id=None):
     else:
         uuid = dlite.get_uuid(dlite_id)
 
-    if dlite.has_instance(uuid):
+    # Do not check storages here, since that may end up calling this function
+    # again if the graph is loaded from a storage in the storage path
+    if dlite.has_instance(uuid, check_storages=False):
         return dlite.get_instance(uuid)
 
     metaid = _value(graph, rdfid, DM.instanceOf)
-- 
2.43.0


From f9afa9d4d4cf0503868a9fb07fda836ceddd497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:21 +0000
Subject: [PATCH 124/212] fix: instance uris were changed by the rdf driver

---
 storages/rdf/dlite-rdf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storages/rdf/dlite-rdf.c b/storages/rdf/dlite-rdf.c
index 151a028..d76090b 100644
--- a/storages/rdf/dlite-rdf.c
+++ b/storages/rdf/dlite-rdf.c
@@ -580,7 +580,7 @@ int rdf_save_instance(DLiteStorage *storage, const DLiteInstance *inst)
   triplestore_add(ts, inst->uuid, _P ":hasUUID", inst->uuid, "xsd:anyURI");
   triplestore_add(ts, inst->uuid, _P ":hasMeta", inst->meta->uri, NULL);
   if (inst->uri)
-    triplestore_add(ts, inst->uuid, _P ":hasURI", inst->uri, NULL);
+    triplestore_add(ts, inst->uuid, _P ":hasURI", inst->uri, "xsd:anyURI");
 
   /* Describe metadata with spesialised properties */
   if (meta && s->fmtflags & fmtMetaAnnot) {
-- 
2.43.0


From 58a33daed9f58c11f3d6452341bd15aaa4595f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:21 +0000
Subject: [PATCH 125/212] fix: tables written with the csv driver could not be
 read back

---
 storages/python/python-storage-plugins/csv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/storages/python/python-storage-plugins/csv.py b/storages/python/python-storage-plugins/csv.py
index 4f54ae7..28d0ff3 100644
--- a/storages/python/python-storage-plugins/csv.py
+++ b/storages/python/python-storage-plugins/csv.py
@@ -106,6 +106,8 @@ class csv(dlite.DLiteStorageBase):
 
         writer = getattr(data, f"to_{self.format}")
         pdopts = optstring2keywords(self.options.get("pandas_opts", ""))
+        if self.format in ("csv", "excel"):
+            pdopts.setdefault("index", False)  # would be read as a property
         writer(self.uri, **pdopts)
 
 
-- 
2.43.0


From c9be23ead9023d258b7ef676084dcb8230026f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:35 +0000
Subject: [PATCH 126/212] fix: instances obtained from a JStore were never
 released in Python

---
 bindings/python/dlite-jstore.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/dlite-jstore.i b/bindings/python/dlite-jstore.i
index 43bf05e..7b775cd 100644
--- a/bindings/python/dlite-jstore.i
+++ b/bindings/python/dlite-jstore.i
@@ -76,7 +76,7 @@ struct _JStore {};
            "Return instance with given `id` from store. "
            "If `id` is None and there is exactly one instance in the store, "
            "return the instance.  Otherwise raise an DLiteLookupError.") get;
-  %newobject get;
+  %newobject _get;
   struct _DLiteInstance *_get(const char *id=NULL) {
     if (!id && !(id = _single_id($self))) return NULL;
     return dlite_jstore_get($self, id);
-- 
2.43.0


From 7d5563616c9b03935524968028870b28093f1334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:35 +0000
Subject: [PATCH 127/212] fix: string returned by Collection.value() leaked

---
 bindings/python/dlite-collection.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index 96801be..7d2f56f 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -211,7 +211,7 @@ struct _DLiteCollection {
 struct _DLiteCollection *_get_collection(const char *id);
 
 %feature("docstring", "Return the value for a pair of two criteria.") _value;
-%newobject _value;
+%newobject _collection_value;
 char *_collection_value(struct _DLiteInstance *inst,
                         const char *s=NULL, const char *p=NULL,
                         const char *o=NULL, const char *d=NULL,
-- 
2.43.0


From e44aba02a0e4d51b20658aa328dacfda4b3ed1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:35 +0000
Subject: [PATCH 128/212] fix: memcpy() to NULL when measuring the size of
 to_bytes()

---
 storages/python/dlite-plugins-python.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storages/python/dlite-plugins-python.c b/storages/python/dlite-plugins-python.c
index 7bb89ea..76c8ef7 100644
--- a/storages/python/dlite-plugins-python.c
+++ b/storages/python/dlite-plugins-python.c
@@ -425,7 +425,8 @@ int memsaver(const DLiteStoragePlugin *api, unsigned char *buf, size_t size,
     goto fail;
   }
   assert(length > 0);
-  memcpy(buf, buffer, (size > (size_t)length) ? (size_t)length : size);
+  if (buf)
+    memcpy(buf, buffer, (size > (size_t)length) ? (size_t)length : size);
   retval = (int)length;
  fail:
   Py_XDECREF(pyinst);
-- 
2.43.0


From c8144901e50f0ddd947131de5a148d364eb7bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:48 +0000
Subject: [PATCH 129/212] fix: use after free in dlite_instance_has() when the
 instance was found in a storage

---
 src/dlite-entity.c | 7 ++++++-
 src/dlite-entity.h | 4 ++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 6071a0a..5d1bb71 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -685,6 +685,10 @@ int dlite_instance_decref(DLiteInstance *inst)
 
   Returns a pointer to the instance (borrowed reference) if it exists
   or NULL otherwise.
+
+  Note that the returned pointer only can be dereferenced if someone
+  else holds a reference to the instance.  If the instance had to be
+  loaded from a storage, it should only be compared to NULL.
  */
 DLiteInstance *dlite_instance_has(const char *id, bool check_storages)
 {
@@ -692,8 +696,9 @@ DLiteInstance *dlite_instance_has(const char *id, bool check_storages)
   if (!(inst = _instance_store_get(id)) && check_storages) {
     ErrTry:
       if ((inst = dlite_instance_get(id))) {
+        /* Do not access `inst` after this point.  It is free'ed if it is
+           a data instance that has just been loaded from a storage. */
         dlite_instance_decref(inst);
-        assert(inst->_refcount > 0);
       }
     ErrOther:
       break;
diff --git a/src/dlite-entity.h b/src/dlite-entity.h
index 2e14014..c1fa293 100644
--- a/src/dlite-entity.h
+++ b/src/dlite-entity.h
@@ -518,6 +518,10 @@ int dlite_instance_decref(DLiteInstance *inst);
 
   Returns a pointer to the instance (borrowed reference) if it exists
   or NULL otherwise.
+
+  Note that the returned pointer only can be dereferenced if someone
+  else holds a reference to the instance.  If the instance had to be
+  loaded from a storage, it should only be compared to NULL.
  */
 DLiteInstance *dlite_instance_has(const char *id, bool check_storages);
 
-- 
2.43.0


From ba24043b2a83feed42ebf2b073f62bae73a91505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:20 +0000
Subject: [PATCH 130/212] fix: endless recursion when a bson storage is in the
 storage path

---
 storages/python/python-storage-plugins/bson.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/storages/python/python-storage-plugins/bson.py b/storages/python/python-storage-plugins/bson.py
index 897b6fe..6e257df 100644
--- a/storages/python/python-storage-plugins/bson.py
+++ b/storages/python/python-storage-plugins/bson.py
@@ -97,7 +97,12 @@ class bson(dlite.DLiteStorageBase):
 
         """
         if uuid in self._data:
-            return instance_from_dict(self._data[uuid])
+            # Do not search for the instance in the storage path - it may
+            # include this storage
+            return instance_from_dict(
+                self._data[uuid],
+                check_storages=False,
+            )
         raise KeyError(f"Instance with ID '{uuid}' not found")
 
     def save(self, inst: dlite.Instance) -> None:
-- 
2.43.0


From 1a76153a24da57c14a281b2f4f55ff09b9e23eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:10 +0000
Subject: [PATCH 131/212] fix: metadata without description could not be loaded
 from RDF

---
 bindings/python/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/rdf.py b/bindings/python/rdf.py
index 954d8b0..ac45867 100644
--- a/bindings/python/rdf.py
+++ b/bindings/python/rdf.py
@@ -307,7 +307,7 @@ def from_graph(graph, id=None):
             uri=dlite_id,
             dimensions=dims,
             properties=props,
-            description=graph.value(rdfid, DM.hasDescription),
+            description=graph.value(rdfid, DM.hasDescription, default=""),
         )
     else:
         dims = {
-- 
2.43.0


From 47806651da19f5df88b12e25992e4e6410196b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:37 +0000
Subject: [PATCH 132/212] fix: instances obtained by iterating over a storage
 were never released

---
 bindings/python/dlite-storage.i | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/bindings/python/dlite-storage.i b/bindings/python/dlite-storage.i
index b6293d7..4c42854 100644
--- a/bindings/python/dlite-storage.i
+++ b/bindings/python/dlite-storage.i
@@ -50,12 +50,8 @@ Returns next instance or None if exhausted.") next;
   %newobject next;
   struct _DLiteInstance *next(void) {
     char uuid[DLITE_UUID_LENGTH+1];
-    if (dlite_storage_iter_next($self->s, $self->state, uuid) == 0) {
-      DLiteInstance *inst = dlite_instance_load($self->s, uuid);
-      // Why isn't the refcount already increased?
-      if (inst) dlite_instance_incref(inst);
-      return inst;
-    }
+    if (dlite_storage_iter_next($self->s, $self->state, uuid) == 0)
+      return dlite_instance_load($self->s, uuid);
     return NULL;
   }
 
-- 
2.43.0


From 06db291121ec6b70a288a278a8e01c40fef02ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:37 +0000
Subject: [PATCH 133/212] fix: hdf5 storages opened in "rw" mode were not
 writable

---
 storages/hdf5/dh5lite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storages/hdf5/dh5lite.c b/storages/hdf5/dh5lite.c
index b656221..202c517 100644
--- a/storages/hdf5/dh5lite.c
+++ b/storages/hdf5/dh5lite.c
@@ -455,7 +455,7 @@ dh5_open(const DLiteStoragePlugin *api, const char *uri, const char *options)
   } else if (strcmp(*mode, "rw") == 0) {
     s->root = H5Fopen(uri, H5F_ACC_RDWR, H5P_DEFAULT);
     s->flags |= dliteReadable;
-    s->flags &= ~dliteWritable;
+    s->flags |= dliteWritable;
   } else if (strcmp(*mode, "w") == 0) {
     s->root = H5Fcreate(uri, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     s->flags &= ~dliteReadable;
-- 
2.43.0


From ffaead030788d2f7987d61b7cfa28a649e282f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:46 +0000
Subject: [PATCH 134/212] fix: use after free when loading an instance twice
 from the same storage

---
 src/dlite-storage-plugins.h |  2 +-
 src/dlite-storage.c         | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dlite-storage-plugins.h b/src/dlite-storage-plugins.h
index 04140bd..34ce77a 100644
--- a/src/dlite-storage-plugins.h
+++ b/src/dlite-storage-plugins.h
@@ -47,7 +47,7 @@
   const DLiteStoragePlugin *api;  /*!< Pointer to plugin api */            \
   char *location;           /*!< Location passed to dlite_storage_open() */\
   char *options;            /*!< Options passed to dlite_storage_open() */ \
-  DLiteMapInstance cache;   /*!< Map to loaded instances */                \
+  DLiteMapInstance cache;   /*!< Map to instances being loaded */          \
   DLiteStorageFlags flags;  /*!< Storage flags */                          \
   DLiteIDFlag idflag;       /*!< How to handle instance id's */            \
   int refcount;             /*!< Number of references to this storage */
diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index b36da02..962e93d 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -244,16 +244,19 @@ void dlite_storage_iter_free(DLiteStorage *s, void *iter)
 DLiteInstance *dlite_storage_load(const DLiteStorage *s, const char *id)
 {
   char uuid[DLITE_UUID_LENGTH+1];
-  DLiteInstance **ptr, *inst=NULL;
+  DLiteInstance *inst=NULL;
   if (dlite_get_uuid(uuid, id) < 0) return NULL;
-  if ((ptr = map_get(&(((DLiteStorage *)s)->cache), uuid))) return *ptr;
+  if (map_get(&(((DLiteStorage *)s)->cache), uuid)) return NULL;
 
   if (s->api->loadInstance) {
     /* Add NULL to cache to mark that we are about to load the instance and
-       break recursive calls */
+       break recursive calls.
+
+       The loaded instance itself must not be kept in the cache - it may be
+       released and free'ed before the next time it is loaded. */
     map_set(&(((DLiteStorage *)s)->cache), uuid, NULL);
     inst = s->api->loadInstance(s, id);
-    map_set(&(((DLiteStorage *)s)->cache), uuid, inst);
+    map_remove(&(((DLiteStorage *)s)->cache), uuid);
   }
   return inst;
 }
-- 
2.43.0


From 22cec5b4b3da651d644d742487bbbcdffbb9296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 135/212] fix: failing to save or load left empty instances in
 hdf5 storages

---
 storages/hdf5/dh5lite.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/storages/hdf5/dh5lite.c b/storages/hdf5/dh5lite.c
index 202c517..4af7d66 100644
--- a/storages/hdf5/dh5lite.c
+++ b/storages/hdf5/dh5lite.c
@@ -35,6 +35,8 @@ typedef struct {
   hid_t meta;         /* h5 group identifier to metadata */
   hid_t dimensions;   /* h5 group identifier to dimensions */
   hid_t properties;   /* h5 group identifier to properties */
+  int created;        /* whether the instance group was created by us */
+  int failed;         /* whether writing to the instance group has failed */
 } DH5DataModel;
 
 
@@ -520,6 +522,7 @@ DLiteDataModel *dh5_datamodel(const DLiteStorage *s, const char *uuid)
 
   } else {
     /* Instance `uuid` does not exists: create new group structure */
+    d->created = 1;
     if (!(s->flags & dliteWritable))
       FAILCODE2(dliteIOError, "cannot create new instance '%s' in read-only storage %s",
             uuid, sh5->location);
@@ -556,6 +559,13 @@ int dh5_datamodel_free(DLiteDataModel *d)
 {
   DH5DataModel *dh5=(DH5DataModel *)d;
   int nerr=0;
+
+  /* Do not leave an incomplete new instance in the storage if it could not
+     be written or if the datamodel was created for looking up an instance
+     that doesn't exist. */
+  int incomplete = dh5->created &&
+    (dh5->failed || H5Lexists(dh5->meta, "name", H5P_DEFAULT) <= 0);
+
   if (H5Gclose(dh5->properties) < 0)
     nerr += err(dliteIOError, "cannot close /%s/properties in %s",
                 d->uuid, d->s->location);
@@ -566,6 +576,10 @@ int dh5_datamodel_free(DLiteDataModel *d)
     nerr += err(dliteIOError, "cannot close /%s/meta in %s", d->uuid, d->s->location);
   if (H5Gclose(dh5->instance) < 0)
     nerr += err(dliteIOError, "cannot close /%s in %s", d->uuid, d->s->location);
+  if (incomplete && H5Ldelete(((DH5Storage *)d->s)->root, d->uuid,
+                              H5P_DEFAULT) < 0)
+    nerr += err(dliteIOError, "cannot remove incomplete /%s from %s",
+                d->uuid, d->s->location);
   return nerr;
 }
 
@@ -662,8 +676,10 @@ int dh5_set_dimension_size(DLiteDataModel *d, const char *name, size_t size)
   size_t shape[1]={1};
   int64_t dsize=size;
 
-  return set_data(d, dh5->dimensions, name, &dsize, dliteInt,
-                  sizeof(int64_t), 1, shape);
+  int stat = set_data(d, dh5->dimensions, name, &dsize, dliteInt,
+                      sizeof(int64_t), 1, shape);
+  if (stat) dh5->failed = 1;
+  return stat;
 }
 
 
@@ -676,7 +692,9 @@ int dh5_set_property(DLiteDataModel *d, const char *name, const void *ptr,
                      size_t ndims, const size_t *shape)
 {
   DH5DataModel *dh5 = (DH5DataModel *)d;
-  return set_data(d, dh5->properties, name, ptr, type, size, ndims, shape);
+  int stat = set_data(d, dh5->properties, name, ptr, type, size, ndims, shape);
+  if (stat) dh5->failed = 1;
+  return stat;
 }
 
 
-- 
2.43.0


From ec1a3abcf415f3421a81c6e075e59e122a04b8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 136/212] fix: bson storages could not be created in append
 mode

---
 storages/python/python-storage-plugins/bson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/storages/python/python-storage-plugins/bson.py b/storages/python/python-storage-plugins/bson.py
index 6e257df..92225c7 100644
--- a/storages/python/python-storage-plugins/bson.py
+++ b/storages/python/python-storage-plugins/bson.py
@@ -49,7 +49,7 @@ class bson(dlite.DLiteStorageBase):
         self.generic = True
         self.uri = uri
         self._data = {}
-        if self.mode in ("rb", "rb+"):
+        if self.mode in ("rb", "rb+") and os.path.exists(uri):
             with open(uri, self.mode) as handle:
                 bson_data = handle.read()
 
-- 
2.43.0


From 10f3023d909813750ffae628a4657cf314c4bc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 137/212] fix: pyrdf storages could not be created in append
 mode

---
 storages/python/python-storage-plugins/pyrdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storages/python/python-storage-plugins/pyrdf.py b/storages/python/python-storage-plugins/pyrdf.py
index 4852eef..7e7d1d3 100644
--- a/storages/python/python-storage-plugins/pyrdf.py
+++ b/storages/python/python-storage-plugins/pyrdf.py
@@ -1,4 +1,5 @@
 """DLite Python storage plugin for RDF."""
+import os
 from typing import TYPE_CHECKING
 
 import rdflib
@@ -52,7 +53,9 @@ class pyrdf(dlite.DLiteStorageBase):
             else guess_format(location)
         )
         self.graph = rdflib.Graph()
-        if self.options.mode in "ra":
+        if self.options.mode == "r" or (
+            self.options.mode == "a" and os.path.exists(location)
+        ):
             self.graph.parse(location, format=self.format, publicID=PUBLIC_ID)
 
     def close(self) -> None:
-- 
2.43.0


From e27c23094c3cd8a53d7e236efffbb8eef2044b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 138/212] fix: saving an instance that already exists in a
 pyrdf storage mixed old and new content

---
 storages/python/python-storage-plugins/pyrdf.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/storages/python/python-storage-plugins/pyrdf.py b/storages/python/python-storage-plugins/pyrdf.py
index 7e7d1d3..d456224 100644
--- a/storages/python/python-storage-plugins/pyrdf.py
+++ b/storages/python/python-storage-plugins/pyrdf.py
@@ -81,6 +81,15 @@ class pyrdf(dlite.DLiteStorageBase):
         Parameters:
             inst: A DLite Instance to store in the RDF storage.
         """
+        # Remove existing version of `inst` from the graph
+        for subject in list(
+            self.graph.subjects(DM.hasUUID, rdflib.Literal(inst.uuid))
+        ):
+            for pred in DM.hasDimension, DM.hasProperty:
+                for obj in list(self.graph.objects(subject, pred)):
+                    self.graph.remove((obj, None, None))
+            self.graph.remove((subject, None, None))
+
         to_graph(
             inst,
             self.graph,
-- 
2.43.0


From 3d1688c974b1fad022e5fd211ddd3f240cd42016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 139/212] fix: saving both metadata and data to a json storage
 lost one of them

---
 storages/json/dlite-json-storage.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 09b68d9..5dc20b5 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -296,8 +296,11 @@ int json_save(DLiteStorage *s, const DLiteInstance *inst)
     FAILCODE1(dliteStorageSaveError,
               "storage \"%s\" is not writable", s->location);
 
-  /* If single/multi format is not given, infer it from `inst` */
-  if (!js->fmt_given && dlite_instance_is_meta(inst))
+  /* If single/multi format is not given, infer it from `inst`.
+
+     Use the multi-entity format if we already have other content, since it
+     otherwise would be lost. */
+  if (!js->fmt_given && dlite_instance_is_meta(inst) && !js->jstore)
     jflags |= dliteJsonSingle;
 
   if (jflags & dliteJsonSingle) {
@@ -308,6 +311,10 @@ int json_save(DLiteStorage *s, const DLiteInstance *inst)
     int n = dlite_json_printfile(s->location, inst, jflags);
     stat = (n > 0) ? 0 : 1;
   } else {
+    if (!js->jstore && js->changed)
+      FAILCODE1(dliteStorageSaveError,
+                "Trying to add an instance to single-entity format: %s",
+                s->location);
     if (!js->jstore && !(js->jstore = jstore_open())) goto fail;
     stat = dlite_jstore_add(js->jstore, inst, jflags);
   }
-- 
2.43.0


From 3bc40aa11bf3a94bd73aac6d556f5c593fbb791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:20 +0000
Subject: [PATCH 140/212] fix: storages were never closed after iterating over
 them in Python

---
 bindings/python/dlite-storage-python.i | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/bindings/python/dlite-storage-python.i b/bindings/python/dlite-storage-python.i
index 2acd8ac..66cb94f 100644
--- a/bindings/python/dlite-storage-python.i
+++ b/bindings/python/dlite-storage-python.i
@@ -89,17 +89,14 @@
           _dlite.StorageIterator_swiginit(
               self, _dlite.new_StorageIterator(s, pattern))
 
-          # Keep a reference to self, such that it is not garbage-collected
-          # before end of iterations
-          if not hasattr(_dlite, "_storage_iters"):
-              _dlite._storage_iters = {}
-          _dlite._storage_iters[id(self.state)] = self
+      # Override default __iter__(), which returns a proxy that does not keep
+      # the iterator alive
+      def __iter__(self):
+          return self
 
       def __next__(self):
           inst = self.next()
           if not inst:
-              # Delete reference to iterator object stored away in __init__()
-              _dlite._storage_iters.pop(id(self.this), None)
               raise StopIteration()
           return instance_cast(inst)
   %}
@@ -112,17 +109,15 @@
           """Iterator over loaded storage plugins."""
           _dlite.StoragePluginIter_swiginit(
               self, _dlite.new_StoragePluginIter())
-          # Keep a reference to self, such that it is not garbage-collected
-          # before end of iterations
-          if not hasattr(_dlite, "_storage_iters"):
-              _dlite._storage_iters = {}
-          _dlite._storage_iters[id(self.iter)] = self
+
+      # Override default __iter__(), which returns a proxy that does not keep
+      # the iterator alive
+      def __iter__(self):
+          return self
 
       def __next__(self):
           name = self.next()
           if not name:
-              # Delete reference to iterator object stored away in __init__()
-              _dlite._storage_iters.pop(id(self.this), None)
               raise StopIteration()
           return name
   %}
-- 
2.43.0


From b92cec6905aa5ad9a9e34aed4045a6c8afb74156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:04 +0000
Subject: [PATCH 141/212] fix: references assigned by
 dlite_instance_assign_property() were not counted

---
 src/dlite-entity.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 5d1bb71..1ab6c6c 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2214,6 +2214,29 @@ int dlite_instance_assign_casted_property_by_index(const DLiteInstance *inst,
     return err(1, "cannot set property on immutable instance: %s",
                (inst->uri) ? inst->uri : inst->uuid);
   dest = dlite_instance_get_property_by_index(inst, i);
+
+  if (p->type == dliteRef && type == dliteRef) {
+    /* References are counted and may only refer to instances of the
+       declared metadata.  Cast to a temporary buffer and let
+       dlite_instance_set_property_by_index() do the assignment. */
+    int j, retval;
+    size_t nmemb=1;
+    void *buf;
+    for (j=0; j < p->ndims; j++) nmemb *= dims[j];
+    if (!nmemb) return 0;
+    if (!(buf = calloc(nmemb, p->size)))
+      return err(dliteMemoryError, "allocation failure");
+    retval = dlite_type_ndcast(p->ndims,
+                               buf, p->type, p->size, dims, NULL,
+                               src, type, size, shape, strides,
+                               castfun);
+    if (!retval)
+      retval = dlite_instance_set_property_by_index((DLiteInstance *)inst, i,
+                                                    buf);
+    free(buf);
+    return retval;
+  }
+
   return dlite_type_ndcast(p->ndims,
                            dest, p->type, p->size, dims, NULL,
                            src, type, size, shape, strides,
-- 
2.43.0


From 0f80b607cad87bc8929f0e4c840429fe324706d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:14 +0000
Subject: [PATCH 142/212] fix: looking up an empty id returned some instance
 found in the storages

---
 src/dlite-entity.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 1ab6c6c..4553318 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -727,6 +727,11 @@ DLiteInstance *dlite_instance_get(const char *id)
   DLiteStoragePathIter *iter;
   const char *url;
 
+  /* An empty id denotes no instance.  Do not pass it on to the storages,
+     for which it means the only instance they contain. */
+  if (!id || !*id)
+    return err(dliteValueError, "cannot get instance with empty id"), NULL;
+
   /* check if instance `id` is already instantiated... */
   if ((inst = _instance_store_get(id))) {
     dlite_instance_incref(inst);
-- 
2.43.0


From d3a2e91ea3709e2c270161286ac9a9dd53f175c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:51 +0000
Subject: [PATCH 143/212] fix: references in instances were not converted by
 asdict(), such that they could not be stored in bson

Also let infer_dimensions() accept references represented by strings, on which it recursed infinitely.
---
 bindings/python/dlite-entity-python.i | 14 +++++++++-----
 bindings/python/utils.py              |  1 +
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index 5e95c7d..2ef551e 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -123,10 +123,14 @@ def standardise(v, prop, asdict=False):
     """Represent property value `v` as a standard python type.
     If `asdict` is true, dimensions, properties and relations will be
     represented with a dict, otherwise as a list of strings."""
-    if asdict:
-        conv = lambda x: x.asdict() if hasattr(x, 'asdict') else x
-    else:
-        conv = lambda x: list(x.asstrings()) if hasattr(x, 'asstrings') else x
+    def conv(x):
+        if isinstance(x, list):
+            return [conv(e) for e in x]
+        if prop.dtype == RefType:
+            return x.uuid if x is not None else None
+        if asdict:
+            return x.asdict() if hasattr(x, 'asdict') else x
+        return list(x.asstrings()) if hasattr(x, 'asstrings') else x
 
     if prop.dtype == BlobType:
         if prop.ndims:
@@ -140,7 +144,7 @@ def standardise(v, prop, asdict=False):
     elif hasattr(v, 'tolist'):
         if v.dtype.kind == 'S':  # fixed-size strings
             v = np.char.decode(v, 'utf-8')
-        return [conv(x) for x in v.tolist()]
+        return conv(v.tolist())
     else:
         return conv(v)
 
diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index 5c9df6e..6d67136 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -505,6 +505,7 @@ def infer_dimensions(meta, values, strict=True):
                         for item in arr:
                             result.append(
                                 like(item) if isinstance(item, Sequence)
+                                and not isinstance(item, str)
                                 else None
                             )
                         return result
-- 
2.43.0


From cb42a77f6cc66fabd0bddeb946667897bffdf98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:42 +0000
Subject: [PATCH 144/212] fix: relations, dimensions and properties obtained
 from an instance in Python dangled when the instance was changed or freed

---
 bindings/python/dlite-python.i | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index ab9dcd3..2a70364 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -563,6 +563,27 @@ void *dlite_swig_copy_array(int ndims, int *shape, DLiteType type,
 }
 
 
+/* Returns a new proxy object owning a copy of `data`, such that it stays valid
+   when the instance holding `data` is changed or freed.  `swigtype` is the SWIG
+   type of the new object.  Returns NULL on error. */
+static obj_t *new_owned_copy(DLiteType type, size_t size, const void *data,
+                             swig_type_info *swigtype)
+{
+  obj_t *obj;
+  void *p = calloc(1, size);
+  if (!p) return dlite_err(dliteMemoryError, "allocation failure"), NULL;
+  if (!dlite_type_copy(p, data, type, size)) {
+    free(p);
+    return NULL;
+  }
+  if (!(obj = SWIG_NewPointerObj(p, swigtype, SWIG_POINTER_OWN))) {
+    dlite_type_clear(p, type, size);
+    free(p);
+  }
+  return obj;
+}
+
+
 /* Returns a new scalar object for the target language or NULL on error.
 
    `type` : Type of the data.
@@ -663,20 +684,17 @@ obj_t *dlite_swig_get_scalar(DLiteType type, size_t size, void *data)
     break;
 
   case dliteDimension:
-    if (!(obj = SWIG_NewPointerObj(SWIG_as_voidptr(data),
-                                   SWIGTYPE_p__DLiteDimension, 0)))
+    if (!(obj = new_owned_copy(type, size, data, SWIGTYPE_p__DLiteDimension)))
       FAIL("cannot create dimension");
     break;
 
   case dliteProperty:
-    if (!(obj = SWIG_NewPointerObj(SWIG_as_voidptr(data),
-                                   SWIGTYPE_p__DLiteProperty, 0)))
+    if (!(obj = new_owned_copy(type, size, data, SWIGTYPE_p__DLiteProperty)))
       FAIL("cannot create property");
     break;
 
   case dliteRelation:
-    if (!(obj = SWIG_NewPointerObj(SWIG_as_voidptr(data),
-                                   SWIGTYPE_p__Triple, 0)))
+    if (!(obj = new_owned_copy(type, size, data, SWIGTYPE_p__Triple)))
       FAIL("cannot create relation");
     break;
 
-- 
2.43.0


From e356c3f4e7d85a1570256376b9e66eb062dc6fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:58 +0000
Subject: [PATCH 145/212] fix: random UUIDs generated concurrently by different
 threads raced and could coincide

---
 src/utils/uuid4.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/uuid4.c b/src/utils/uuid4.c
index e044368..4c0a1bf 100644
--- a/src/utils/uuid4.c
+++ b/src/utils/uuid4.c
@@ -5,6 +5,8 @@
  * under the terms of the MIT license. See LICENSE for details.
  */
 
+#include "config.h"
+
 #include <stdio.h>
 #include <time.h>
 
@@ -26,20 +28,22 @@
 int uuid4_generate(char *dst) {
   static const char *template = "xxxxxxxx-xxxx-4xxx-yxxx-xxxxxxxxxxxx";
   static const char *chars = "0123456789abcdef";
-  static int seeded = 0;
+  /* The state is thread local, such that two threads never get the same uuid */
+  static _thread_local MSWS64State state;
+  static _thread_local int seeded = 0;
   union { unsigned char b[16]; uint64_t word[2]; } s;
   const char *p;
   int i, n;
 
   /* seed? */
   if (!seeded) {
-    srand_msws64(0);
+    srand_msws64_r(&state, 0);
     seeded = 1;
   }
 
   /* get random */
-  s.word[0] = rand_msws64();
-  s.word[1] = rand_msws64();
+  s.word[0] = rand_msws64_r(&state);
+  s.word[1] = rand_msws64_r(&state);
 
   /* build string */
   p = template;
-- 
2.43.0


From 66c5c28a753e8d61951c579038056796833246a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:59 +0000
Subject: [PATCH 146/212] fix: tgen aborted on templates with unmatched braces

---
 src/utils/tgen.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index dd0abf2..bbfcefa 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -1023,7 +1023,9 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
     tgen_buf_append(s, t, len);
     t += len;
     if (t - template == (long)tlen) return 0;
-    assert(t < template + tlen);
+    if (t - template > (long)tlen)
+      return err(TGenSyntaxError, "line %d: unmatched braces in template",
+                 tgen_lineno(template, t));
 
     switch (*(t++)) {
 
@@ -1198,7 +1200,10 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
             return -1;
         }
         len = strcspn(t, "}");
-        assert(t[len]);
+        if (!t[len])
+          return err(TGenSyntaxError, "line %d: missing '}' after "
+                     "substitution for '%s'", tgen_lineno(template, t),
+                     sub->var);
         t += len + 1;
       }
       break;
-- 
2.43.0


From 5db80c998544034918002743c624b099ab849b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:59 +0000
Subject: [PATCH 147/212] fix: invalid boolean values in bson arrays were
 stored as is

---
 src/dlite-bson.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 7da787b..deeffef 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -645,6 +645,11 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
                  "property '%s', got %d", (unsigned long)(nmemb*p->size),
                  p->name, datasize);
     if (!nmemb) break;
+    if (p->type == dliteBool) {
+      for (i=0; i<nmemb; i++)
+        ((bool *)ptr)[i] = (((unsigned char *)data)[i]) ? 1 : 0;
+      break;
+    }
     dlite_instance_set_property_by_index(inst, idx, data);
     if (byteswap && p->type != dliteBlob && p->type != dliteBool &&
         p->type != dliteFixString) {
-- 
2.43.0


From 767d6cf2eec68087b53f4f8c51166264aaba3d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:24 +0000
Subject: [PATCH 148/212] fix: instances whose content couldn't be loaded from
 JSON were leaked

---
 src/dlite-json.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 29b1e36..6a31954 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -781,10 +781,11 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
         FAIL2("missing property \"%s\" in %s", p->name, id);
       }
 
-      if (meta->_loadprop) meta->_loadprop(inst, i);
+      if (meta->_loadprop && meta->_loadprop(inst, i)) goto fail;
     }
   }
-  if (dlite_instance_is_meta(inst)) dlite_meta_init((DLiteMeta *)inst);
+  if (dlite_instance_is_meta(inst) && dlite_meta_init((DLiteMeta *)inst))
+    goto fail;
   ok = 1;
  fail:
   if (name) free(name);
-- 
2.43.0


From a1b4b222d11842ee9339c8ed338ea2fbb99ddf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:31 +0000
Subject: [PATCH 149/212] fix: tgen read past the end of templates with
 unterminated tags

---
 src/utils/tgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index bbfcefa..6c431d0 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -90,7 +90,7 @@ static int length_to_endbrace(const char *p)
       abort();  /* should never be reached */
     }
   }
-  return q - p;
+  return (*q) ? q - p : -1;
 }
 
 /* Returns the number of bytes from the position in a template that is
-- 
2.43.0


From 62b96fe47d14ab23ce4d4bc10333382fd38d3c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:58 +0000
Subject: [PATCH 150/212] fix: template conditions with single-quoted or too
 many strings, or negative numbers

---
 src/utils/tgen.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 6c431d0..b2a11f6 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -137,12 +137,13 @@ static int eval_string_expression(const char *s, int len)
     if (s[i] == '\\') {
       i++;
     } else if (!instring && strchr("\"'", s[i])) {
+      if (nstrings >= 2) return -1;
       instring = s[i];
       start[nstrings] = i;
     } else if (instring && s[i] == instring) {
         instring = 0;
         length[nstrings] = i - start[nstrings] - 1;
-        if (++nstrings > 2) return -1;
+        nstrings++;
     }
   }
   if (instring) return -1;
@@ -157,7 +158,6 @@ static int eval_string_expression(const char *s, int len)
     op = p++;
     p += strspn(p, " ");
     if (p != s + start[1]) return -1;
-    assert(*p == '"');
     if (*op == '=') {
       if (length[0] != length[1]) return 0;
       return (strncmp(s + start[0] + 1, s + start[1] + 1, length[0])) ? 0 : 1;
@@ -193,6 +193,8 @@ static int evaluate_cond(const char *cond, int len, TGenSubs *subs,
     if (errmsg[0])
       retval = errx(-1, "invalid condition \"%.*s\" --> \"%s\": %s",
                     len, cond, s.buf, errmsg);
+    else
+      retval = (retval) ? 1 : 0;
   }
  fail:
   tgen_buf_deinit(&s);
-- 
2.43.0


From a90f16b58502a40a984ab472c75017750577b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:57 +0000
Subject: [PATCH 151/212] fix: instances with empty id read from JSON were
 leaked

---
 src/dlite-json.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 6a31954..673fb89 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -617,12 +617,19 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
     return errx(dliteParseError, "json representation of instance %s should "
                 "be an object", (id) ? id : ""), NULL;
 
+  /* An empty id is the same as no id */
+  if (id && !*id) id = NULL;
+
   /* If instance already exists, return it immediately */
   if (id && dlite_instance_has(id, 0))
       return dlite_instance_get(id);
 
   /* Get uri and uuid */
   uri = get_uri(src, obj);
+  if (uri && !*uri) {
+    free(uri);
+    uri = NULL;
+  }
   if (!uri && jsmn_item(src, obj, "uuid")) {
     if (get_uuid(uuid, src, obj)) goto fail;
     if (!id) id = uuid;
@@ -631,7 +638,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   }
 
   /* Check id */
-  if (id && *id) {
+  if (id) {
     char uuid2[DLITE_UUID_LENGTH+1];
     if (dlite_get_uuid(uuid2, id) < 0) goto fail;
     if (strcmp(uuid, uuid2) != 0) {
-- 
2.43.0


From 7a3a2c134fb83e9dd6159458dbff7b98b715b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:39 +0000
Subject: [PATCH 152/212] fix: crash when a collection with too many relations
 cannot be allocated

---
 src/dlite-collection.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 2394e28..8bdcef5 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -40,6 +40,9 @@ int dlite_collection_deinit(DLiteInstance *inst)
   DLiteInstance *inst2;
   const DLiteRelation *r;
 
+  /* The collection was never initialised */
+  if (!coll->rstore) return 0;
+
   /* Release references to all instances. */
   dlite_collection_init_state(coll, &state);
   while ((r=dlite_collection_find(coll,&state, NULL, "_has-uuid", NULL,
-- 
2.43.0


From ed1dddaeecfc0191ca0aa721755a5d224a62f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:18 +0000
Subject: [PATCH 153/212] fix: strnunquote() read past the given number of
 bytes

---
 src/utils/strutils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 1e07715..45a3810 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -429,7 +429,8 @@ int strnunquote(char *dest, size_t size, const char *s, int n,
   if (!size) dest = NULL;
   if (!(flags & strquoteInitialBlanks))
     while ((n < 0 || (int)j < n) && isspace((unsigned char)s[j])) j++;
-  if (!(flags & strquoteNoQuote) && s[j++] != '"') return -1;
+  if (!(flags & strquoteNoQuote) &&
+      ((n >= 0 && (int)j >= n) || s[j++] != '"')) return -1;
   while ((n < 0 || (int)j < n) && s[j] &&
          ((flags & strquoteNoQuote) || s[j] != '"')) {
     char c[8];
@@ -445,7 +446,8 @@ int strnunquote(char *dest, size_t size, const char *s, int n,
       if (dest && size > i) dest[i] = c[m];
   }
   if (dest) dest[(size > i) ? i : size-1] = '\0';
-  if (!(flags & strquoteNoQuote) && s[j++] != '"') return -2;
+  if (!(flags & strquoteNoQuote) &&
+      ((n >= 0 && (int)j >= n) || s[j++] != '"')) return -2;
   if (consumed) *consumed = (n >= 0 && (int)j >= n) ? n : (int)j;
   return i;
 }
-- 
2.43.0


From be2cb1d6d1781c3ecfb5e40c0140f24b608a16b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:40 +0000
Subject: [PATCH 154/212] fix: overflow when accessing empty arrays with large
 dimensions from Python

---
 bindings/python/dlite-python.i | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 2a70364..00580b9 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -296,14 +296,13 @@ obj_t *dlite_swig_get_array(DLiteInstance *inst, int ndims, int *shape,
   case dliteProperty:
   case dliteRelation:
     { /* Special handling of object types */
-      int n=1;
-      npy_intp itemsize;
+      npy_intp n, itemsize;
       char *itemptr;
       PyArrayObject *arr;
-      for (i=0; i<ndims; i++) n *= shape[i];
       if (!(obj = PyArray_EMPTY(ndims, d, typecode, 0)))
         FAIL("not able to create numpy array");
       arr = (PyArrayObject *)obj;
+      n = PyArray_SIZE(arr);
       itemsize = PyArray_ITEMSIZE(arr);
       itemptr = PyArray_DATA(arr);
       char *ptr = data;
@@ -400,13 +399,13 @@ static int dlite_swig_setitem(PyObject *obj, int ndims, int *shape,
 int dlite_swig_set_array(void *ptr, int ndims, int *shape,
                          DLiteType type, size_t size, obj_t *obj)
 {
-  int i, n=1, retval=-1;
+  int i, retval=-1;
+  npy_intp n=1;
   int typecode = npy_type(type, size);
   PyArrayObject *arr = NULL;
   int ndim_max=ndims;
 
   if (typecode < 0) goto fail;
-  for (i=0; i<ndims; i++) n *= shape[i];
   if (!(arr = (PyArrayObject *)PyArray_ContiguousFromAny(obj, typecode,
                                                          ndims, ndims))) {
     /* Clear the error and try to convert object as-is */
@@ -425,6 +424,7 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
     if (PyArray_DIM(arr, i) != shape[i])
       FAIL3("expected length of dimension %d to be %d, got %ld",
             i, shape[i], (long)PyArray_DIM(arr, i));
+  for (i=0; i<ndims; i++) n *= shape[i];
 
   /* Assign memory */
   switch(type) {
-- 
2.43.0


From 2261dbce21fdc1bfec6a97335f1019ff0412ce8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:12 +0000
Subject: [PATCH 155/212] fix: parsing malformed dimensions, properties and
 relations used uninitialised tokens

---
 src/dlite-type.c  |  8 +++++---
 src/utils/jsmnx.c | 12 ++++++++++++
 src/utils/jsmnx.h |  8 ++++++++
 3 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index f9ccb54..7047af8 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1166,7 +1166,8 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
 
       if (len < 0) len = strlen(src);
       jsmn_init(&parser);
-      if ((r = jsmn_parse(&parser, src, len, tokens,MAX_DIMENSION_TOKENS)) < 0)
+      if ((r = jsmn_parse_checked(&parser, src, len, tokens,
+                                  MAX_DIMENSION_TOKENS)) < 0)
         return err(dliteParseError, "cannot parse dimension: %s: '%s'",
                    jsmn_strerror(r), src);
       if (tokens->type != JSMN_OBJECT)
@@ -1193,7 +1194,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
 
       if (len < 0) len = strlen(src);
       jsmn_init(&parser);
-      r = jsmn_parse(&parser, src, len, tokens, MAX_PROPERTY_TOKENS);
+      r = jsmn_parse_checked(&parser, src, len, tokens, MAX_PROPERTY_TOKENS);
       if (r == JSMN_ERROR_NOMEM)
         return err(dliteIndexError, "too many dimensions.  Increase MAX_PROPERTY_TOKENS "
                    "in dlite-type.c and recompile.");
@@ -1258,7 +1259,8 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
 
       if (len < 0) len = strlen(src);
       jsmn_init(&parser);
-      if ((r = jsmn_parse(&parser, src, len, tokens, MAX_RELATION_TOKENS)) < 0)
+      if ((r = jsmn_parse_checked(&parser, src, len, tokens,
+                                  MAX_RELATION_TOKENS)) < 0)
         return err(dliteParseError, "cannot parse relation: %s: '%s'",
                    jsmn_strerror(r), src);
       if (tokens->size < 3 || tokens->size > 5)
diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index dec6e7b..dc46027 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -57,6 +57,18 @@ static int jsmn_check_value(const jsmntok_t *tokens, int ntokens, int n)
   }
 }
 
+/*
+  Like jsmn_parse(), but checks that `js` contains a well-formed JSON value.
+ */
+int jsmn_parse_checked(jsmn_parser *parser, const char *js, const size_t len,
+                       jsmntok_t *tokens, const unsigned int num_tokens)
+{
+  int n, ntokens = jsmn_parse(parser, js, len, tokens, num_tokens);
+  if (ntokens < 0) return ntokens;
+  if ((n = jsmn_check_value(tokens, ntokens, 0)) < 0) return n;
+  return ntokens;
+}
+
 /*
   Like jsmn_parse(), but realloc's the buffer pointed to by `tokens_ptr`
   if it is too small.  `num_tokens_ptr` should point to the number of
diff --git a/src/utils/jsmnx.h b/src/utils/jsmnx.h
index d4c2a0a..4ed6fca 100644
--- a/src/utils/jsmnx.h
+++ b/src/utils/jsmnx.h
@@ -69,6 +69,14 @@ int jsmn_parse(jsmn_parser *parser, const char *js, const size_t len,
                jsmntok_t *tokens, const unsigned int num_tokens);
 
 
+/**
+  Like jsmn_parse(), but checks that `js` contains a well-formed JSON value.
+
+  Returns number of tokens used by the parser or a negative error code.
+ */
+int jsmn_parse_checked(jsmn_parser *parser, const char *js, const size_t len,
+                       jsmntok_t *tokens, const unsigned int num_tokens);
+
 /**
  * Like jsmn_parse(), but realloc's the buffer pointed to by `tokens_ptr`
  * if it is too small.  `num_tokens_ptr` should point to the number of
-- 
2.43.0


From 687dc0e0c5676e4c78751b372e9bb52efb261524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:52 +0000
Subject: [PATCH 156/212] fix: loading a collection from JSON must not require
 its instances

---
 src/dlite-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 673fb89..01668c5 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -788,7 +788,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
         FAIL2("missing property \"%s\" in %s", p->name, id);
       }
 
-      if (meta->_loadprop && meta->_loadprop(inst, i)) goto fail;
+      if (meta->_loadprop) meta->_loadprop(inst, i);
     }
   }
   if (dlite_instance_is_meta(inst) && dlite_meta_init((DLiteMeta *)inst))
-- 
2.43.0


From 5eda5ada65286634f9d51b6e646c51a0c7a82699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:52 +0000
Subject: [PATCH 157/212] fix: accept strings limited to the given number of
 bytes in strnunquote()

---
 src/utils/strutils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 45a3810..ece54d6 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -446,8 +446,8 @@ int strnunquote(char *dest, size_t size, const char *s, int n,
       if (dest && size > i) dest[i] = c[m];
   }
   if (dest) dest[(size > i) ? i : size-1] = '\0';
-  if (!(flags & strquoteNoQuote) &&
-      ((n >= 0 && (int)j >= n) || s[j++] != '"')) return -2;
+  if (!(flags & strquoteNoQuote) && (n < 0 || (int)j < n) &&
+      s[j++] != '"') return -2;
   if (consumed) *consumed = (n >= 0 && (int)j >= n) ? n : (int)j;
   return i;
 }
-- 
2.43.0


From 2e6937766211574a626d61426b253a2c49d19826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:54 +0000
Subject: [PATCH 158/212] fix: collections with invalid relations in JSON were
 leaked

---
 src/dlite-json.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 01668c5..f507474 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -788,7 +788,9 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
         FAIL2("missing property \"%s\" in %s", p->name, id);
       }
 
-      if (meta->_loadprop) meta->_loadprop(inst, i);
+      /* The instances referred to by a collection may be missing */
+      int stat = (meta->_loadprop) ? meta->_loadprop(inst, i) : 0;
+      if (stat && stat != dliteStorageLoadError) goto fail;
     }
   }
   if (dlite_instance_is_meta(inst) && dlite_meta_init((DLiteMeta *)inst))
-- 
2.43.0


From 65f3ccf1daa78b718af77aa2fc5d831af34d5051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:26 +0000
Subject: [PATCH 159/212] fix: scanning malformed arrays leaked memory

---
 src/dlite-entity.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 4553318..4fb2f91 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3560,7 +3560,10 @@ int dlite_property_scan(const char *src, void *ptr, const DLiteProperty *p,
     jsmn_parser parser;
     jsmn_init(&parser);
     r = jsmn_parse_alloc(&parser, src, strlen(src), &tokens, &ntokens);
-    if (r < 0) return err(dliteValueError, "error parsing input: %s", jsmn_strerror(r));
+    if (r < 0) {
+      if (tokens) free(tokens);
+      return err(dliteValueError, "error parsing input: %s", jsmn_strerror(r));
+    }
     t = tokens;
     r = scandim(0, src, &q, p, shape, flags, &t);
     n = tokens[0].end;
-- 
2.43.0


From 1c6e8b123c674a42507b7f041891cc3e774c9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:45 +0000
Subject: [PATCH 160/212] fix: crash when looking up dimensions or properties
 with a NULL name

---
 src/dlite-entity.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 4fb2f91..5400a43 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1288,6 +1288,7 @@ const char *dlite_instance_get_meta_uri(const DLiteInstance *inst)
 bool dlite_instance_has_dimension(DLiteInstance *inst, const char *name)
 {
   size_t i;
+  if (!name) return false;
   for (i=0; i < inst->meta->_ndimensions; i++)
     if (strcmp(inst->meta->_dimensions[i].name, name) == 0) return true;
   return false;
@@ -1550,6 +1551,7 @@ int dlite_instance_set_property(DLiteInstance *inst, const char *name,
 bool dlite_instance_has_property(const DLiteInstance *inst, const char *name)
 {
   size_t i;
+  if (!name) return false;
   for (i=0; i < inst->meta->_nproperties; i++)
     if (strcmp(inst->meta->_properties[i].name, name) == 0) return true;
   return false;
@@ -2962,6 +2964,7 @@ int dlite_meta_save_url(const char *url, const DLiteMeta *meta)
 int dlite_meta_get_dimension_index(const DLiteMeta *meta, const char *name)
 {
   size_t i;
+  if (!name) return errx(dliteIndexError, "missing dimension name");
   for (i=0; i<meta->_ndimensions; i++) {
     DLiteDimension *d = meta->_dimensions + i;
     if (strcmp(name, d->name) == 0) return i;
@@ -2976,6 +2979,7 @@ int dlite_meta_get_dimension_index(const DLiteMeta *meta, const char *name)
 int dlite_meta_get_property_index(const DLiteMeta *meta, const char *name)
 {
   size_t i;
+  if (!name) return errx(dliteAttributeError, "missing property name");
   for (i=0; i<meta->_nproperties; i++) {
     DLiteProperty *p = meta->_properties + i;
     if (strcmp(name, p->name) == 0) return i;
@@ -3068,6 +3072,7 @@ int dlite_meta_is_metameta(const DLiteMeta *meta)
 bool dlite_meta_has_dimension(const DLiteMeta *meta, const char *name)
 {
   size_t i;
+  if (!name) return false;
   for (i=0; i<meta->_ndimensions; i++) {
     DLiteDimension *d = meta->_dimensions + i;
     if (strcmp(name, d->name) == 0) return true;
@@ -3081,6 +3086,7 @@ bool dlite_meta_has_dimension(const DLiteMeta *meta, const char *name)
 bool dlite_meta_has_property(const DLiteMeta *meta, const char *name)
 {
   size_t i;
+  if (!name) return false;
   for (i=0; i<meta->_nproperties; i++) {
     DLiteProperty *p = meta->_properties + i;
     if (strcmp(name, p->name) == 0) return true;
-- 
2.43.0


From 6bda58b4014ce73c2c7cbb0d5bc4b61e4bcdfec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:44 +0000
Subject: [PATCH 161/212] fix: Python storage objects were leaked

---
 storages/python/dlite-plugins-python.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/storages/python/dlite-plugins-python.c b/storages/python/dlite-plugins-python.c
index 76c8ef7..58dfe49 100644
--- a/storages/python/dlite-plugins-python.c
+++ b/storages/python/dlite-plugins-python.c
@@ -108,10 +108,8 @@ opener(const DLiteStoragePlugin *api, const char *location,
 
   retval = (DLiteStorage *)s;
  fail:
-  if (s && !retval) {
-    Py_XDECREF(s->obj);
-    free(s);
-  }
+  if (s && !retval) free(s);
+  if (!retval) Py_XDECREF(obj);
   Py_XDECREF(v);
   Py_XDECREF(readable);
   Py_XDECREF(writable);
@@ -136,14 +134,14 @@ int closer(DLiteStorage *s)
   if (!(classname = dlite_pyembed_classname(class)))
     dlite_warnx("cannot get class name for storage plugin '%s'", s->api->name);
 
-  /* Return if close() is not defined */
-  if (!PyObject_HasAttrString(sp->obj, "close")) return retval;
-
-  v = PyObject_CallMethod(sp->obj, "close", "");
-  if (dlite_pyembed_err_check("calling close() in Python plugin '%s'%s",
-                              classname, failmsg()))
-    retval = 1;
-  Py_XDECREF(v);
+  /* Only call close() if it is defined */
+  if (PyObject_HasAttrString(sp->obj, "close")) {
+    v = PyObject_CallMethod(sp->obj, "close", "");
+    if (dlite_pyembed_err_check("calling close() in Python plugin '%s'%s",
+                                classname, failmsg()))
+      retval = 1;
+    Py_XDECREF(v);
+  }
   Py_DECREF(sp->obj);
   return retval;
 }
-- 
2.43.0


From e63c2e5139d693271ecef7ae67e5ebe4e1223e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 162/212] fix: strings in lists returned to Python were leaked

---
 bindings/python/dlite-python.i | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 00580b9..7b8e3fc 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -1496,7 +1496,9 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
   if ($1) {
     char **p;
     for (p=$1; *p; p++) {
-      PyList_Append($result, PyUnicode_FromString(*p));
+      PyObject *s = PyUnicode_FromString(*p);
+      if (s) PyList_Append($result, s);
+      Py_XDECREF(s);
       free(*p);
     }
     free($1);
@@ -1512,8 +1514,11 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
   $result = PyList_New(0);
   if ($1) {
     char **p;
-    for (p=$1; *p; p++)
-      PyList_Append($result, PyUnicode_FromString(*p));
+    for (p=$1; *p; p++) {
+      PyObject *s = PyUnicode_FromString(*p);
+      if (s) PyList_Append($result, s);
+      Py_XDECREF(s);
+    }
   }
 }
 
-- 
2.43.0


From c408964e94ddf89d061fb5bb210543c92540d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 163/212] fix: updating a JSON store from malformed JSON leaked
 memory

---
 src/utils/jstore.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/jstore.c b/src/utils/jstore.c
index 1e35ce6..c64c8e4 100644
--- a/src/utils/jstore.c
+++ b/src/utils/jstore.c
@@ -238,6 +238,7 @@ int jstore_update_from_string(JStore *js, const char *buf, int len)
   jsmn_init(&parser);
   r = jsmn_parse_alloc(&parser, buf, len, &tokens, &ntokens);
   if (r < 0) {
+    if (tokens) free(tokens);
     return err(1, "error parsing JSON buffer \"%.70s\": %s",
                buf, jsmn_strerror(r));
   }
-- 
2.43.0


From aae88fcb65bf03b2ced1d3e11313631fc32b84f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 164/212] fix: failing to open a rdf storage leaked memory

---
 storages/rdf/dlite-rdf.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/storages/rdf/dlite-rdf.c b/storages/rdf/dlite-rdf.c
index d76090b..0392f32 100644
--- a/storages/rdf/dlite-rdf.c
+++ b/storages/rdf/dlite-rdf.c
@@ -220,6 +220,12 @@ DLiteStorage *rdf_open(const DLiteStoragePlugin *api, const char *uri,
   if (optcopy) free(optcopy);
   if (!retval && s) {
     if (s->ts) triplestore_free(s->ts);
+    if (s->store) free(s->store);
+    if (s->base_uri) free(s->base_uri);
+    if (s->filename) free(s->filename);
+    if (s->format) free(s->format);
+    if (s->mime_type) free(s->mime_type);
+    if (s->type_uri) free(s->type_uri);
     free(s);
   }
   return retval;
-- 
2.43.0


From 4acfd024663946ee763e596b93677d2a52823f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 165/212] fix: comments and unknown tags in templates were
 taken for @error, @if or @endif

---
 src/utils/tgen.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index b2a11f6..1987224 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -113,7 +113,7 @@ static int length_to_var(const char *p, const char *var, int maxlen)
     } else {
       int len;
       size_t m = strcspn(q, "%:}");
-      if (strncmp(q, var, m) == 0)
+      if (m == strlen(var) && strncmp(q, var, m) == 0)
         return q - p - 1;
       else if ((len = length_to_endbrace(q)) >= 0)
         q += len;
@@ -1055,13 +1055,13 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
                      "substitution", tgen_lineno(template, t));
 
         /* parse special constructs */
-        if (strncmp(t, "@error", len) == 0) {  /* error */
+        if (len == 6 && strncmp(t, "@error", len) == 0) {  /* error */
           err_clear();
           return err(TGenUserError, "line %d: %.*s",
                      tgen_lineno(template, t), length_to_endbrace(t+len)-1,
                      t+len+1);
 
-        } else if (strncmp(t, "@if", len) == 0) {  /* conditional */
+        } else if (len == 3 && strncmp(t, "@if", len) == 0) {  /* conditional */
           if ((len = builtin_if(s, t, subs, context)) < 0)
             return err(TGenSyntaxError,
                        "line %d: invalid conditional: \"%.*s\"",
-- 
2.43.0


From 7f377a5283069638ab7c5f577cbbe99fa74251ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 166/212] fix: dangling replacement string after redefining a
 template variable as a function

---
 src/utils/tgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 1987224..2dd4414 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -856,7 +856,7 @@ int tgen_subs_setn(TGenSubs *subs, const char *var, int len,
   if ((ip = map_get((map_int_t *)&subs->map, name))) {
     s = subs->subs + *ip;
     if (s->repl) free(s->repl);
-    if (repl) s->repl = strdup(repl);
+    s->repl = (repl) ? strdup(repl) : NULL;
     s->func = func;
     free(name);
   } else {
-- 
2.43.0


From bb50cbd97fffb4f00407389e14cfdedf5c9184e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 167/212] fix: long replacement strings of template variables
 were truncated and empty ones rejected

---
 src/utils/tgen.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 2dd4414..cae5607 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -930,11 +930,12 @@ int tgen_subs_setn_vfmt(TGenSubs *subs, const char *var, int len,
 
   /* First try to write to a stack-allocated buffer instead of allocating
      with malloc().  Resort to malloc if this fails... */
-  if ((n = vsnprintf(buf, sizeof(buf), repl_fmt, ap)) < 1)
+  if ((n = vsnprintf(buf, sizeof(buf), repl_fmt, ap)) < 0)
     FAIL1(TGenFormatError, "error formatting replacement string \"%s\"",
           repl_fmt);
-  if (n <= (int)sizeof(buf)) {
-    repl = malloc(n + 1);
+  if (n >= (int)sizeof(buf)) {
+    if (!(repl = malloc(n + 1)))
+      FAIL(TGenAllocationError, "allocation failure");
     if ((vsnprintf(repl, n+1, repl_fmt, ap2)) != n)
       FAIL1(TGenFormatError, "error formatting replacement string \"%s\"",
             repl_fmt);
-- 
2.43.0


From 009fef7aee8e95963faae77a95bd006456bef94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 168/212] fix: alignment tags past the column added a space

---
 src/utils/tgen.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index cae5607..03770dc 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -686,10 +686,10 @@ int tgen_buf_unappend(TGenBuf *s, size_t n)
 int tgen_buf_calign(TGenBuf *s, int c, int n)
 {
   char str[] = {c, '\0'};
-  int retval, i = 0;
-  while (i<n && i <= (int)s->pos && s->buf[s->pos-i] != '\n') i++;
-  retval = n - i + 1;
-  while (i++ <= n) tgen_buf_append(s, str, 1);
+  int retval, col = 0;
+  while (col < n && col < (int)s->pos && s->buf[s->pos-col-1] != '\n') col++;
+  retval = n - col;
+  while (col++ < n) tgen_buf_append(s, str, 1);
   return retval;
 }
 
-- 
2.43.0


From cfc7e4e54356668a2dc9f2323bdfc820e5a5ae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 169/212] fix: converting empty strings to underscore, mixed
 case or identifier format

---
 src/utils/tgen.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 03770dc..d0f61c9 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -374,7 +374,9 @@ static int append_identifier(TGenBuf *buf, const char *s, int n, int strict)
   char *space = " \f\n\r\t\v";
   int i = strspn(s, space);
   if (n < 0) n = strlen(s);
-  while (strchr(space, s[n-1])) n--;
+  while (n > 0 && strchr(space, s[n-1])) n--;
+  if (i >= n)
+    return (strict) ? -1 : tgen_buf_append(buf, "", 0);
   if (s[i] == '_' || isalpha(s[i]))
     tgen_buf_append(buf, s+i, 1);
   else if (!strict)
@@ -410,7 +412,8 @@ static int append_underscore(TGenBuf *buf, const char *s, int n, int upper)
   char *space = " \f\n\r\t\v";
   char *sep = " _-\f\n\r\t\v";
   if (n < 0) n = strlen(s);
-  while (strchr(space, s[n-1])) n--;
+  while (n > 0 && strchr(space, s[n-1])) n--;
+  tgen_buf_append(buf, "", 0);
   for (i=strspn(s, space); i<n; i++) {
     mode = strchr(sep, s[i]) ? 0 : isupper(s[i]) ? 2 : 1;
     if ((prevmode && !mode) || (prevmode && mode == 2))
@@ -442,9 +445,10 @@ static int append_mixedcase(TGenBuf *buf, const char *s, int n, int upper)
   char *space = " \f\n\r\t\v";
   char *sep = " _-\f\n\r\t\v";
   if (n < 0) n = strlen(s);
+  tgen_buf_append(buf, "", 0);
   for (i=strspn(s, space); i<n; i++) {
     mode = strchr(sep, s[i]) ? 0 : islower(s[i]) ? 1 : isupper(s[i]) ? 2 : 3;
-    if (buf->pos == 0) {
+    if (buf->pos == startpos) {
       tgen_buf_append_fmt(buf, "%c", (upper) ? toupper(s[i]) : tolower(s[i]));
     } else if (prevmode == 0 || prevmode == 3) {
       if (mode) tgen_buf_append_fmt(buf, "%c", toupper(s[i]));
-- 
2.43.0


From 48b8b9a8893e4df1868778cf29099b8c44bfe4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 170/212] fix: templates producing no output returned NULL

---
 src/utils/tgen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index d0f61c9..c54f940 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -1003,6 +1003,7 @@ char *tgen(const char *template, TGenSubs *subs, void *context)
     if (s.buf) free(s.buf);
     return NULL;
   }
+  if (!s.buf) tgen_buf_append(&s, "", 0);
   return s.buf;
 }
 
-- 
2.43.0


From 284a7b7d14465a80e2b64384105e40e3c4bc35fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 171/212] fix: memory leak when generating code with invalid
 options

---
 src/dlite-codegen.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dlite-codegen.c b/src/dlite-codegen.c
index 7350387..a3c5d88 100644
--- a/src/dlite-codegen.c
+++ b/src/dlite-codegen.c
@@ -506,7 +506,7 @@ void dlite_codegen_path_free(void)
   Globals *g = get_globals();
   if (g->template_paths_initialised) {
     fu_paths_deinit(&g->template_paths);
-    g->template_paths_initialised = 1;
+    g->template_paths_initialised = 0;
   }
 }
 
@@ -537,7 +537,7 @@ char *dlite_codegen(const char *template, const DLiteInstance *inst,
                     const char *options)
 {
   TGenSubs subs;
-  char *text;
+  char *text=NULL;
   Context context;
 
   context.inst = inst;
@@ -545,9 +545,8 @@ char *dlite_codegen(const char *template, const DLiteInstance *inst,
   context.metameta = 0;
 
   tgen_subs_init(&subs);
-  if (dlite_instance_subs(&subs, inst)) return NULL;
-  if (dlite_option_subs(&subs, options)) return NULL;
-  text = tgen(template, &subs, &context);
+  if (!dlite_instance_subs(&subs, inst) && !dlite_option_subs(&subs, options))
+    text = tgen(template, &subs, &context);
   tgen_subs_deinit(&subs);
   return text;
 }
-- 
2.43.0


From f6607f62cfb2d8ef4f708872c84feed7fff3a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:18 +0000
Subject: [PATCH 172/212] fix: crash when generating code for metadata without
 descriptions

---
 src/dlite-codegen.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/dlite-codegen.c b/src/dlite-codegen.c
index a3c5d88..b820704 100644
--- a/src/dlite-codegen.c
+++ b/src/dlite-codegen.c
@@ -95,7 +95,7 @@ static int list_dimensions_helper(TGenBuf *s, const char *template, int len,
   for (i=0; i < m->_ndimensions; i++) {
     DLiteDimension *d = m->_dimensions + i;
     tgen_subs_set(&dsubs, "dim.name", d->name, NULL);
-    tgen_subs_set(&dsubs, "dim.descr", d->description, NULL);
+    tgen_subs_set(&dsubs, "dim.descr", (d->description) ? d->description : "", NULL);
     tgen_subs_set_fmt(&dsubs, "dim.value", NULL, "%lu", (unsigned long)
                       dlite_instance_get_dimension_size_by_index(inst, i));
     tgen_subs_set_fmt(&dsubs, "dim.i",     NULL, "%lu", (unsigned long)i);
@@ -128,7 +128,7 @@ static int list_relations(TGenBuf *s, const char *template, int len,
     tgen_subs_set(&rsubs, "rel.s",  r->s, NULL);
     tgen_subs_set(&rsubs, "rel.p",  r->p, NULL);
     tgen_subs_set(&rsubs, "rel.o",  r->o, NULL);
-    tgen_subs_set(&rsubs, "rel.id", r->id, NULL);
+    tgen_subs_set(&rsubs, "rel.id", (r->id) ? r->id : "", NULL);
     tgen_subs_set_fmt(&rsubs, "rel.i", NULL, "%lu", (unsigned long)i);
     tgen_subs_set(&rsubs, ",",  (i < meta->_nrelations-1) ? ","  : "", NULL);
     tgen_subs_set(&rsubs, ", ", (i < meta->_nrelations-1) ? ", " : "", NULL);
@@ -243,8 +243,11 @@ static int list_properties_helper(TGenBuf *s, const char *template, int len,
       if (p->ndims == 0 && p->type == dliteStringPtr) {
         char **ptr = dlite_instance_get_property((DLiteInstance *)meta,
                                                  p->name);
-        tgen_subs_set_fmt(&psubs, "prop.value",  NULL, "%s", *ptr);
-        tgen_subs_set_fmt(&psubs, "prop.cvalue", NULL, "\"%s\"", *ptr);
+        tgen_subs_set(&psubs, "prop.value", (*ptr) ? *ptr : "", NULL);
+        if (*ptr)
+          tgen_subs_set_fmt(&psubs, "prop.cvalue", NULL, "\"%s\"", *ptr);
+        else
+          tgen_subs_set(&psubs, "prop.cvalue", "NULL", NULL);
       } else {
         const TGenSub *sub;
         tgen_subs_set_fmt(&psubs, "prop.value", NULL, "%s_%s",
@@ -372,13 +375,14 @@ int dlite_instance_subs(TGenSubs *subs, const DLiteInstance *inst)
 
   /* About metadata */
   dlite_split_meta_uri(meta->uri, &name, &version, &namespace);
-  descr = dlite_instance_get_property((DLiteInstance *)meta, "description");
+  descr = (dlite_meta_has_property((DLiteMeta *)meta->meta, "description")) ?
+    dlite_instance_get_property((DLiteInstance *)meta, "description") : NULL;
   tgen_subs_set(subs, "meta.uuid",       meta->uuid, NULL);
   tgen_subs_set(subs, "meta.uri",        meta->uri,  NULL);
   tgen_subs_set(subs, "meta.name",       name,       NULL);
   tgen_subs_set(subs, "meta.version",    version,    NULL);
   tgen_subs_set(subs, "meta.namespace",  namespace,  NULL);
-  tgen_subs_set(subs, "meta.descr",      *descr,     NULL);
+  tgen_subs_set(subs, "meta.descr",      (descr && *descr) ? *descr : "", NULL);
   tgen_subs_set_fmt(subs, "meta._ndimensions", NULL, "%lu",
                     (unsigned long)meta->meta->_ndimensions);
   tgen_subs_set_fmt(subs, "meta._nproperties", NULL, "%lu",
@@ -399,12 +403,13 @@ int dlite_instance_subs(TGenSubs *subs, const DLiteInstance *inst)
   if (dlite_meta_is_metameta(inst->meta)) {
     DLiteMeta *meta = (DLiteMeta *)inst;
     dlite_split_meta_uri(inst->uri, &name, &version, &namespace);
-    descr = dlite_instance_get_property((DLiteInstance *)meta, "description");
+    descr = (dlite_meta_has_property((DLiteMeta *)meta->meta, "description")) ?
+      dlite_instance_get_property((DLiteInstance *)meta, "description") : NULL;
 
     tgen_subs_set(subs, "name",       name,       NULL);
     tgen_subs_set(subs, "version",    version,    NULL);
     tgen_subs_set(subs, "namespace",  namespace,  NULL);
-    tgen_subs_set(subs, "descr",      *descr,     NULL);
+    tgen_subs_set(subs, "descr",      (descr && *descr) ? *descr : "", NULL);
     free(name);
     free(version);
     free(namespace);
-- 
2.43.0


From 4732a252415d275ef35b0aeb789e0f0de6c7a3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:50 +0000
Subject: [PATCH 173/212] fix: C declarations of arrays of blobs and fixed-size
 strings declared arrays of pointers

---
 src/dlite-type.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 7047af8..3366ce2 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -382,8 +382,8 @@ int dlite_type_set_cdecl(DLiteType dtype, size_t size, const char *name,
 
   switch (dtype) {
   case dliteBlob:
-    m = snprintf(pcdecl, n, "uint8_t %s%s[%lu]", ref, name,
-                 (unsigned long)size);
+    m = snprintf(pcdecl, n, (nref) ? "uint8_t (%s%s)[%lu]" : "uint8_t %s%s[%lu]",
+                 ref, name, (unsigned long)size);
     break;
   case dliteBool:
     if (size != sizeof(bool))
@@ -413,7 +413,8 @@ int dlite_type_set_cdecl(DLiteType dtype, size_t size, const char *name,
                    (unsigned long)size*8, ref, name);
     break;
   case dliteFixString:
-    m = snprintf(pcdecl, n, "char %s%s[%lu]", ref, name, (unsigned long)size);
+    m = snprintf(pcdecl, n, (nref) ? "char (%s%s)[%lu]" : "char %s%s[%lu]",
+                 ref, name, (unsigned long)size);
     break;
   case dliteStringPtr:
     if (size != sizeof(char *))
-- 
2.43.0


From bb62f42f12753c0ab69961cdd1d404ef6c2ca50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:50 +0000
Subject: [PATCH 174/212] fix: C declarations of properties with long names
 were truncated in generated code

---
 src/dlite-codegen.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dlite-codegen.c b/src/dlite-codegen.c
index b820704..678606b 100644
--- a/src/dlite-codegen.c
+++ b/src/dlite-codegen.c
@@ -209,10 +209,15 @@ static int list_properties_helper(TGenBuf *s, const char *template, int len,
     char *descr = (p->description) ? p->description : "";
     size_t nref = (p->ndims > 0) ? 1 : 0;
     int isallocated = dlite_type_is_allocated(p->type);
-    char typename[32], pcdecl[64], ftype[25], isoctype[64];
+    size_t pcdecl_size = strlen(p->name) + 128;
+    char typename[32], *pcdecl, ftype[25], isoctype[64];
     dlite_type_set_typename(p->type, p->size, typename, sizeof(typename));
+    if (!(pcdecl = malloc(pcdecl_size))) {
+      retval = err(dliteMemoryError, "allocation failure");
+      goto fail;
+    }
     dlite_type_set_cdecl(p->type, p->size, p->name, nref, pcdecl,
-			 sizeof(pcdecl), g->use_native_typenames);
+			 pcdecl_size, g->use_native_typenames);
     dlite_type_set_ftype(p->type, p->size, ftype, sizeof(ftype));
     dlite_type_set_isoctype(p->type, p->size, isoctype, sizeof(isoctype));
 
@@ -225,6 +230,7 @@ static int list_properties_helper(TGenBuf *s, const char *template, int len,
     tgen_subs_set(&psubs, "prop.ftype",    ftype,    NULL);
     tgen_subs_set(&psubs, "prop.isoctype", isoctype, NULL);
     tgen_subs_set(&psubs, "prop.cdecl",    pcdecl,   NULL);
+    free(pcdecl);
     tgen_subs_set(&psubs, "prop.ref",      ref,      NULL);
     tgen_subs_set(&psubs, "prop.unit",     unit,     NULL);
     tgen_subs_set(&psubs, "prop.descr",    descr,    NULL);
-- 
2.43.0


From 65c46da5ac665555d61cbb30f5510c4be13c6eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:50 +0000
Subject: [PATCH 175/212] fix: generated C code for reference properties did
 not compile

---
 tools/templates/c-source.txt | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/templates/c-source.txt b/tools/templates/c-source.txt
index 70caacb..00d01c0 100644
--- a/tools/templates/c-source.txt
+++ b/tools/templates/c-source.txt
@@ -97,7 +97,11 @@ static DLiteProperty {name%u}_properties[] = {{
     "{prop.name}", {@40}/* name */
     {prop.dtype},  {@40}/* type */
     {prop.size},   {@40}/* size */
-    {prop.ref},    {@40}/* ref */
+{@if:"{prop.ref}"="NULL"}\
+    NULL,          {@40}/* ref */
+{@else}\
+    "{prop.ref}",  {@40}/* ref */
+{@endif}\
     {prop.ndims},  {@40}/* ndims */
 {@if:{prop.ndims}=0}\
     NULL,          {@40}/* shape */
-- 
2.43.0


From 21d6b5209707bd5dde59aacce6b9a5774e5b8ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:50 +0000
Subject: [PATCH 176/212] fix: the documented {@eval:EXPR} template tag was not
 implemented

---
 src/utils/tgen.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index c54f940..4bf921d 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -1075,6 +1075,27 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
           t += len;
           continue;
 
+        } else if (len == 5 && strncmp(t, "@eval:", len+1) == 0) {  /* expression */
+          TGenBuf ss;
+          char errmsg[256];
+          int v, n = length_to_endbrace(t+len+1);
+          tgen_buf_init(&ss);
+          if (n < 0 || tgen_append(&ss, t+len+1, n, subs, context)) {
+            tgen_buf_deinit(&ss);
+            return err(TGenSyntaxError,
+                       "line %d: invalid expression tag '%.*s'...",
+                       tgen_lineno(template, t), 30, t);
+          }
+          v = infixcalc((ss.buf) ? ss.buf : "", NULL, 0, errmsg, sizeof(errmsg));
+          tgen_buf_deinit(&ss);
+          if (errmsg[0])
+            return err(TGenSyntaxError,
+                       "line %d: invalid expression \"%.*s\": %s",
+                       tgen_lineno(template, t), n, t+len+1, errmsg);
+          tgen_buf_append_fmt(s, "%d", v);
+          t += len + 1 + n + 1;
+          continue;
+
         } else if ((l = is_identifier(t, '='))) {  /* assignment */
           TGenBuf ss;
           TGenSubs *parent = subs->parent;
-- 
2.43.0


From 7174bc3ba88977ad0c3c120a9267ded06edbc006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:32 +0000
Subject: [PATCH 177/212] fix: read past the end when converting an empty
 string to title case

---
 src/utils/tgen.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index 4bf921d..a3a1018 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -659,8 +659,9 @@ int tgen_buf_append_case(TGenBuf *s, const char *src, int n, int casemode)
     return append_identifier(s, src, n, 1);
   case 'T':
     if ((stat = tgen_buf_append(s, src, n)) < 0) return -1;
-    s->buf[startpos] = toupper(s->buf[startpos]);
-    for (p=s->buf+startpos+1; *p; p++) *p = tolower(*p);
+    p = s->buf + startpos;
+    if (*p) *p = toupper(*p);
+    if (*p) while (*(++p)) *p = tolower(*p);
     return stat;
   }
   return errx(-1, "invalid case conversion character: %c", casemode);
-- 
2.43.0


From 59dac69b693bb8b47578d381e63fe23c29f7eb64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:32 +0000
Subject: [PATCH 178/212] fix: generating code for entities with many
 dimensions reported errors

---
 src/dlite-codegen.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dlite-codegen.c b/src/dlite-codegen.c
index 678606b..0eeb236 100644
--- a/src/dlite-codegen.c
+++ b/src/dlite-codegen.c
@@ -96,8 +96,11 @@ static int list_dimensions_helper(TGenBuf *s, const char *template, int len,
     DLiteDimension *d = m->_dimensions + i;
     tgen_subs_set(&dsubs, "dim.name", d->name, NULL);
     tgen_subs_set(&dsubs, "dim.descr", (d->description) ? d->description : "", NULL);
-    tgen_subs_set_fmt(&dsubs, "dim.value", NULL, "%lu", (unsigned long)
-                      dlite_instance_get_dimension_size_by_index(inst, i));
+    if (i < meta->meta->_ndimensions)
+      tgen_subs_set_fmt(&dsubs, "dim.value", NULL, "%lu", (unsigned long)
+                        dlite_instance_get_dimension_size_by_index(inst, i));
+    else
+      tgen_subs_set(&dsubs, "dim.value", "", NULL);
     tgen_subs_set_fmt(&dsubs, "dim.i",     NULL, "%lu", (unsigned long)i);
     tgen_subs_set(&dsubs, ",",  (i < m->_ndimensions-1) ? ","  : "", NULL);
     tgen_subs_set(&dsubs, ", ", (i < m->_ndimensions-1) ? ", " : "", NULL);
-- 
2.43.0


From 89be6bd5712b434b2f9f7b845e8dbc773cba0a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:52 +0000
Subject: [PATCH 179/212] fix: crash when using a template variable that is
 assigned to nothing

---
 src/utils/tgen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index a3a1018..b0f3694 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -1108,6 +1108,7 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
                        "line %d: invalid assignment tag '%.*s'...",
                        tgen_lineno(template, t), 30, t);
           }
+          tgen_buf_append(&ss, "", 0);  /* ensure that ss.buf is allocated */
           tgen_subs_setn(subs, t, l, ss.buf, NULL);
           while (parent) {
             tgen_subs_setn(parent, t, l, ss.buf, NULL);
-- 
2.43.0


From 439f764d1066414814c9bb149616914cca30cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:23 +0000
Subject: [PATCH 180/212] fix: code generation options followed by a fragment
 were rejected

---
 src/dlite-codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-codegen.c b/src/dlite-codegen.c
index 0eeb236..e1a7e95 100644
--- a/src/dlite-codegen.c
+++ b/src/dlite-codegen.c
@@ -487,7 +487,7 @@ int dlite_option_subs(TGenSubs *subs, const char *options)
     vlen = strcspn(v, ";&#");
     tgen_subs_setn_fmt(subs, k, klen, NULL, "%.*s", (int)vlen, v);
     k = v + vlen;
-    if (*k) k++;
+    if (*k && *k != '#') k++;
   }
   return 0;
 }
-- 
2.43.0


From fc8c10f8b915b6a9165cabce587932f37d2fecbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:57 +0000
Subject: [PATCH 181/212] fix: nested subtemplates ending with a literal brace
 were cut

---
 src/utils/tgen.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index b0f3694..e033579 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -68,7 +68,7 @@ static int length_to_endbrace(const char *p)
 {
   const char *q = p;
   int depth = 0;
-  while (*q && *q != '}') {
+  while (*q && (depth > 0 || *q != '}')) {
     int n = strcspn(q, "{}");
     q += n;
     switch (*(q++)) {
@@ -79,6 +79,8 @@ static int length_to_endbrace(const char *p)
         q++;
       else if (*q != '}')
         depth++;
+      else
+        depth = 0;  /* "{}" is always terminating */
       break;
     case '}':
       if (*q == '}')
@@ -1182,7 +1184,7 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
           int depth = 0;
           const char *tt = t + len + 1;
           templ = tt;
-          while (*tt && *tt != '}') {
+          while (*tt && (depth > 0 || *tt != '}')) {
             int m = strcspn(tt, "{}");
             tt += m;
             switch (*(tt++)) {
@@ -1195,6 +1197,8 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
                 tt++;
               else if (*tt != '}')
                 depth++;
+              else
+                depth = 0;  /* "{}" is always terminating */
               break;
 
             case '}':
-- 
2.43.0


From 1d581f4367bc80edb1ccdd78d7904303d7b8d001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:41 +0000
Subject: [PATCH 182/212] fix: missing variable name in {?} tag is an error

---
 src/utils/tgen.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index e033579..d72fda9 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -1141,6 +1141,9 @@ int tgen_append(TGenBuf *s, const char *template, int tlen,
 
         /* parse VAR */
         if (t[len] == '?') {
+          if (len == 0)
+            return err(TGenVariableError, "line %d: missing variable before '?'",
+                       tgen_lineno(template, t));
           if (t[len+1] != '}')
             return err(TGenVariableError,
                        "line %d: expect '}' after '?' in var '%.*s'",
-- 
2.43.0


From dc5ed91360d8ad1f932521e0be69acbf8b2cf6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:17 +0000
Subject: [PATCH 183/212] fix: parse_query() failed on empty queries and keys
 without value

---
 bindings/python/options.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bindings/python/options.py b/bindings/python/options.py
index 94089fb..bd74fb2 100644
--- a/bindings/python/options.py
+++ b/bindings/python/options.py
@@ -69,9 +69,13 @@ def parse_query(query):
     """Parse URL query string `query` and return a dict."""
     d = {}
     for token in re.split("[;&]", query):
+        if not token:
+            continue
         k, v = token.split("=", 1) if "=" in token else (token, None)
         key = dlite.uridecode(k)
-        if v.startswith("%%"):
+        if v is None:
+            val = None
+        elif v.startswith("%%"):
             val = json.loads(dlite.uridecode(v[2:]))
         else:
             val = dlite.uridecode(v)
-- 
2.43.0


From efe756d3a49f5fc58d112e8a02cb39d56d944d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:17 +0000
Subject: [PATCH 184/212] fix: DictStore.add() failed for relations, identity
 and soft5 properties

---
 bindings/python/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index 6d67136..75dd4a8 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -108,7 +108,7 @@ class DictStore(dict):
         if "uuid" in d:
             uuid = d["uuid"]
         else:
-            uuid = dlite.get_uuid(d.get("uri", d.get("identiry")))
+            uuid = dlite.get_uuid(d.get("uri", d.get("identity")))
 
         if id and uuid and dlite.get_uuid(id) != uuid:
             raise dlite.DLiteInconsistentDataError(
@@ -149,8 +149,10 @@ class DictStore(dict):
         elif isinstance(d["properties"], Sequence):
             if not ismeta:
                 raise dlite.DLiteValueError("properties can only metadata ")
-            for k, v in d["properties"]:
-                dct["properties"][k] = v
+            for prop in d["properties"]:
+                dct["properties"][prop["name"]] = {
+                    k: v for k, v in prop.items() if k != "name"
+                }
         else:
             raise dlite.DLiteValueError(
                 "'properties' must be a mapping or sequence, got: "
@@ -158,7 +160,7 @@ class DictStore(dict):
             )
 
         if "relations" in d:
-            dct["relations"] = d["repations"].copy()
+            dct["relations"] = d["relations"].copy()
 
         self[uuid] = dct
 
-- 
2.43.0


From c55b9ccb0f5194b6f7b4824ce6986ecea3214a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:17 +0000
Subject: [PATCH 185/212] fix: wrong exception for pydantic properties that
 cannot be converted

---
 bindings/python/utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index 75dd4a8..21c062e 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -292,20 +292,22 @@ def pydantic_to_property(
         ptype = propdict["type"]
     elif "anyOf" in propdict:
         # 'anyOf' was introduced in Pydantic 2
-        typedicts = [d for d in propdict["anyOf"] if d["type"] != "null"]
+        typedicts = [
+            d for d in propdict["anyOf"] if d.get("type") != "null"
+        ]
         if not typedicts:
-            raise dlite.DliteValueError(
+            raise dlite.DLiteValueError(
                 "no non-null type in `propdict`. "
                 "Please add explicit type to `propdict`."
             )
         if len(typedicts) > 1:
-            raise dlite.DliteValueError(
+            raise dlite.DLiteValueError(
                 f"more than one type in `propdict`: {typedicts}. "
                 "Please add explicit type to `propdict`."
             )
         typedict = typedicts[0]
         if "type" not in typedict:
-            raise dlite.DliteValueError(
+            raise dlite.DLiteValueError(
                 "missing type in field 'anyOf' of `propdict`"
             )
         ptype = typedict["type"]
@@ -326,7 +328,7 @@ def pydantic_to_property(
         elif "anyOf" in propdict:
             subprop = pydantic_to_property("tmp", typedict["items"])
         else:
-            raise dlite.DliteSystemError(
+            raise dlite.DLiteSystemError(
                 f'`propdict` for arrays must have key "type" or "anyOf"'
             )
         shape = propdict.get("shape", [f"n{name}"])
-- 
2.43.0


From 6d6cfc8684f4b489e31cb34f3ec9232db6073ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:17 +0000
Subject: [PATCH 186/212] fix: infer_dimensions() counted dimension expressions
 as dimensions

---
 bindings/python/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index 21c062e..d2051b3 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -486,6 +486,7 @@ def infer_dimensions(meta, values, strict=True):
             )
 
     dims = {}
+    dimnames = {d.name for d in meta["dimensions"]}
     for prop in meta["properties"]:
         if prop.name in values and prop.ndims:
             with warnings.catch_warnings():
@@ -527,6 +528,8 @@ def infer_dimensions(meta, values, strict=True):
                     f"{len(v.shape)} was provided"
                 )
             for i, dimname in enumerate(prop.shape):
+                if dimname not in dimnames:
+                    continue  # dimension expression
                 if dimname in dims and v.shape[i] != dims[dimname]:
                     raise CannotInferDimensionError(
                         f'inconsistent assignment of dimension "{dimname}" '
@@ -534,9 +537,8 @@ def infer_dimensions(meta, values, strict=True):
                     )
                 dims[dimname] = v.shape[i]
 
-    dimnames = {d.name for d in meta["dimensions"]}
-    if len(dims) != len(meta["dimensions"]):
-        missing_dims = dimnames.difference(dims.keys())
+    missing_dims = dimnames.difference(dims.keys())
+    if missing_dims:
         raise CannotInferDimensionError(
             f"insufficient number of properties provided to infer dimensions: "
             f"{missing_dims} for metadata: {meta.uri}"
-- 
2.43.0


From f71160d4f34ccf42175d50b6a82afe054a3646e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:17 +0000
Subject: [PATCH 187/212] fix: get_referred_instances() failed for
 multi-dimensional references

---
 bindings/python/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index d2051b3..fb32c16 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -590,7 +590,7 @@ def _get_referred_instances(inst, include_meta, references):
         for prop in inst.meta.properties["properties"]:
             if prop.type == "ref":
                 if prop.ndims:
-                    for i in inst[prop.name]:
+                    for i in np.ravel(inst[prop.name]):
                         _get_referred_instances(
                             i, include_meta, references
                         )
-- 
2.43.0


From 4d5df98dd3938d9710eb3bf17d20f6ec9adc43e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:18 +0000
Subject: [PATCH 188/212] fix: factory failed for metadata without dimensions
 and dlite_load()

---
 bindings/python/factory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/factory.py b/bindings/python/factory.py
index 4b368cb..603ceec 100644
--- a/bindings/python/factory.py
+++ b/bindings/python/factory.py
@@ -141,7 +141,7 @@ class BaseExtension(metaclass=MetaExtension):
                                 f"{dims[n]} but got {array.shape[i]} for property "
                                 f"{prop.name!r}"
                             )
-        if min(dims) < 0:
+        if any(dim < 0 for dim in dims):
             raise ValueError("Cannot infer all dimensions")
         return dims
 
@@ -178,7 +178,7 @@ class BaseExtension(metaclass=MetaExtension):
         """Loads dlite instance from storage and assign self from it.
         The arguments `args` are passed to dlite.Instance.from_storage()."""
         inst = Instance.from_storage(*args)
-        self._dlite_assign(inst)
+        self.dlite_assign(inst)
 
 
 def instancefactory(theclass: type, inst: Instance) -> "Any":
-- 
2.43.0


From 3615d416e8f6ab0f5dbcf04e9dd591cda8aa0723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:18 +0000
Subject: [PATCH 189/212] fix: DataModel silently accepted schema of wrong type

---
 bindings/python/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/datamodel.py b/bindings/python/datamodel.py
index d193d22..76a3d6b 100644
--- a/bindings/python/datamodel.py
+++ b/bindings/python/datamodel.py
@@ -51,7 +51,7 @@ class DataModel:
         elif isinstance(schema, str):
             self._schema = dlite.get_instance(schema)
         else:
-            TypeError("`schema` must be a string or a DLite metadata schema.")
+            raise TypeError("`schema` must be a string or a DLite metadata schema.")
 
     def add_dimension(self, name, description):
         """Add dimension with given `name` and description to data model."""
-- 
2.43.0


From 3a88528481313300c87b866dce805fd37318d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:18 +0000
Subject: [PATCH 190/212] fix: dimensionless quantities were not converted to
 the property unit

---
 bindings/python/quantity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/quantity.py b/bindings/python/quantity.py
index fc9a4dc..da42dca 100644
--- a/bindings/python/quantity.py
+++ b/bindings/python/quantity.py
@@ -60,7 +60,9 @@ class QuantityHelper:
     def __setitem__(self, name: str, value: Any):
         p = self._get_property(name)
         q = self.parse(value)
-        self._instance[name] = q.m if q.units.dimensionless else q.to(p.unit).m
+        self._instance[name] = (
+            q.m if q.unitless else q.to(self._get_unit_as_string(p.unit)).m
+        )
 
     def __getattr__(self, name: str):
         if name in self.__dict__:
-- 
2.43.0


From 48d799cc15ac1a6c2f046f1ad9e914433533088c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:18 +0000
Subject: [PATCH 191/212] fix: inst.q referred to the instance last accessed
 via any other q

---
 bindings/python/quantity.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/bindings/python/quantity.py b/bindings/python/quantity.py
index da42dca..bd50cf2 100644
--- a/bindings/python/quantity.py
+++ b/bindings/python/quantity.py
@@ -1,4 +1,4 @@
-"""Define the singleton QuantityHelper to work with pint Quantity and dlite
+"""Define the class QuantityHelper to work with pint Quantity and dlite
 instance properties.
 """
 
@@ -15,11 +15,10 @@ DLITE_QUANTITY_TYPES = [
     'uint8', 'uint16', 'uint32', 'uint64',
     'float32', 'float64', 'float80', 'float96', 'float128'
 ]
-quantity_helper = None
 
 
 class QuantityHelper:
-    """Singleton class for working with pint Quantity and dlite instance
+    """Class for working with pint Quantity and dlite instance
     properties.
     """
 
@@ -178,7 +177,4 @@ class QuantityHelper:
 
 
 def get_quantity_helper(instance):
-    global quantity_helper
-    if quantity_helper is None:
-        quantity_helper = QuantityHelper()
-    return quantity_helper(instance)
+    return QuantityHelper()(instance)
-- 
2.43.0


From 06e466159db88bcbbd43879bf67c7d6f568ca90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:18 +0000
Subject: [PATCH 192/212] fix: undefined names in save_path() and archive_add()

---
 bindings/python/protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/python/protocol.py b/bindings/python/protocol.py
index c8dc071..0e0f4e5 100644
--- a/bindings/python/protocol.py
+++ b/bindings/python/protocol.py
@@ -302,7 +302,7 @@ def save_path(data, path, overwrite=False, include=None, exclude=None):
                         if not filepath.is_file():
                             raise OSError(
                                 "cannot write to existing non-file path: "
-                                f"{filename}"
+                                f"{filepath}"
                             )
                     fzip.extract(name, path=path)
         elif p.exists():
@@ -349,7 +349,8 @@ def archive_extract(data, name):
 def archive_add(data, name, content):
     """If `data` is an archieve, return a new bytes object with
     `content` added to `data` using the given name."""
-    with zipfile.ZipFile(file=archive_check(data), mode="a") as fzip:
+    buf = archive_check(data)
+    with zipfile.ZipFile(file=buf, mode="a") as fzip:
         with fzip.open(name, mode="w") as f:
             f.write(content.encode() if hasattr(content, "encode") else content)
     return buf.getvalue()
-- 
2.43.0


From 6e67e53518c47cb4838ae01e902a00ae1d35feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:18 +0000
Subject: [PATCH 193/212] fix: load_path() returned None for non-existing paths

---
 bindings/python/protocol.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/python/protocol.py b/bindings/python/protocol.py
index 0e0f4e5..02d8469 100644
--- a/bindings/python/protocol.py
+++ b/bindings/python/protocol.py
@@ -249,6 +249,9 @@ def load_path(
             iterdir(p)
         return buf.getvalue()
 
+    if not p.exists():
+        raise FileNotFoundError(f"no such file or directory: {path}")
+
     if p.is_socket():
         buf = []
         while True:
-- 
2.43.0


From 950b5390c7e6fc46faa53c249c45e662f1ead653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:18 +0000
Subject: [PATCH 194/212] fix: deleting a missing file from a directory copied
 the directory

---
 bindings/python/python-protocol-plugins/file.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/bindings/python/python-protocol-plugins/file.py b/bindings/python/python-protocol-plugins/file.py
index 49005d9..3393826 100644
--- a/bindings/python/python-protocol-plugins/file.py
+++ b/bindings/python/python-protocol-plugins/file.py
@@ -83,12 +83,6 @@ class file(dlite.DLiteProtocolBase):
         path = self.path/uuid
         if path.exists():
             path.unlink()
-        elif self.path.exists() and self.path.is_dir():
-            save_path(
-                data=load_path(self.path, exclude=uuid),
-                path=path,
-                overwrite=True,
-            )
         else:
             raise dlite.DLiteIOError(f"cannot delete {uuid} in: {self.path}")
 
-- 
2.43.0


From b495e425621d91056787d653321a37fffdbec5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:18 +0000
Subject: [PATCH 195/212] fix: compresslevel option of file protocol plugin
 failed when given as string

---
 bindings/python/python-protocol-plugins/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/python-protocol-plugins/file.py b/bindings/python/python-protocol-plugins/file.py
index 3393826..5f9bc63 100644
--- a/bindings/python/python-protocol-plugins/file.py
+++ b/bindings/python/python-protocol-plugins/file.py
@@ -57,12 +57,13 @@ class file(dlite.DLiteProtocolBase):
         """
         self._required_mode("r", "load")
         path = self.path/uuid if uuid else self.path
+        level = self.options.get("compresslevel")
         return load_path(
             path=path,
             include=self.options.get("include"),
             exclude=self.options.get("exclude"),
             compression=self.options.get("compression"),
-            compresslevel=self.options.get("compresslevel"),
+            compresslevel=None if level is None else int(level),
         )
 
     def save(self, data, uuid=None):
-- 
2.43.0


From 08fbfed163c4bb963f3dcf62e25f73bfbabd51b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:18 +0000
Subject: [PATCH 196/212] fix: DMTable failed for iterables of strings, special
 labels and empty cells

---
 bindings/python/table.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/python/table.py b/bindings/python/table.py
index 347b953..0fe68ca 100644
--- a/bindings/python/table.py
+++ b/bindings/python/table.py
@@ -1,5 +1,6 @@
 """Utilities for reading and writing DLite instances from and to tables."""
 import csv
+import io
 import re
 import warnings
 from pathlib import Path
@@ -97,7 +98,7 @@ class DMTable():
 
             # Parse datamodel mappings
             for k, i in datamodel_idict.items():
-                d[k] = row[i].strip()
+                d[k] = row[i].strip() if row[i] else ""
             if not re.match("^[a-z]+://", d["uri"]):
                 if not baseuri:
                     raise ValueError(
@@ -182,7 +183,7 @@ class DMTable():
         # name label from the bracket.
         brackets = []
         for h in header:
-            m = re.match(rf"^{typelabel}(\[[^]]*\])?$", h)
+            m = re.match(rf"^{re.escape(typelabel)}(\[[^]]*\])?$", h)
             if m:
                 bracket, = m.groups()
                 brackets.append("" if bracket is None else bracket)
@@ -267,6 +268,10 @@ class DMTable():
             with open(csvfile, mode="rt", encoding=encoding) as f:
                 table = read(f, dialect)
         else:
+            if not hasattr(csvfile, "read"):
+                csvfile = io.StringIO(
+                    "\n".join(line.rstrip("\r\n") for line in csvfile)
+                )
             table = read(csvfile, dialect)
 
         return DMTable(
-- 
2.43.0


From c1fcb5b9ed7bc208fd7c191cdd1c43241e6ae1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:00 +0000
Subject: [PATCH 197/212] fix: DictStore.add() dropped metadata, rejected id
 and soft5 dimensions

---
 bindings/python/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index fb32c16..c9da2ed 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -108,7 +108,7 @@ class DictStore(dict):
         if "uuid" in d:
             uuid = d["uuid"]
         else:
-            uuid = dlite.get_uuid(d.get("uri", d.get("identity")))
+            uuid = dlite.get_uuid(d.get("uri", d.get("identity", id)))
 
         if id and uuid and dlite.get_uuid(id) != uuid:
             raise dlite.DLiteInconsistentDataError(
@@ -128,11 +128,17 @@ class DictStore(dict):
             or "properties" in d.get("properties", ())
         )
 
-        dct = {}
+        dct = {
+            k: v for k, v in d.items()
+            if k not in ("dimensions", "properties", "relations")
+        }
         dct["dimensions"] = {}
         if "dimensions" in d:
             if isinstance(d["dimensions"], Mapping):
                 dct["dimensions"].update(d["dimensions"])
+            elif ismeta:
+                for dim in d["dimensions"]:
+                    dct["dimensions"][dim["name"]] = dim.get("description")
             elif isinstance(d["dimensions"], Sequence):
                 meta = dlite.get_instance(d.get("meta", dlite.ENTITY_SCHEMA))
                 for name, v in zip(meta.dimnames(), d["dimensions"]):
-- 
2.43.0


From 89cdb3b570918bf6a9b204844d9f2be462233e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:00 +0000
Subject: [PATCH 198/212] fix: iterable of csv lines without terminator on the
 last line

---
 bindings/python/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/table.py b/bindings/python/table.py
index 0fe68ca..01a8b27 100644
--- a/bindings/python/table.py
+++ b/bindings/python/table.py
@@ -270,7 +270,7 @@ class DMTable():
         else:
             if not hasattr(csvfile, "read"):
                 csvfile = io.StringIO(
-                    "\n".join(line.rstrip("\r\n") for line in csvfile)
+                    "".join(line.rstrip("\r\n") + "\n" for line in csvfile)
                 )
             table = read(csvfile, dialect)
 
-- 
2.43.0


From 678f7b0f8eb01b2cba14a9de9bfe2d7c6b59c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:02 +0000
Subject: [PATCH 199/212] fix: DictStore.add() ignored the ids of
 multi-instance dicts

---
 bindings/python/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index c9da2ed..d076226 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -101,8 +101,8 @@ class DictStore(dict):
         """
         if "properties" not in d:
             # `d` is in multi-instance format, add values separately
-            for v in d.values():
-                self.add(v)
+            for k, v in d.items():
+                self.add(v, id=k)
             return
 
         if "uuid" in d:
-- 
2.43.0


From 56fdee189a000243a791343e9b4f0382b030eea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:02 +0000
Subject: [PATCH 200/212] fix: Instance.load() with id failed for files

---
 bindings/python/python-protocol-plugins/file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/python-protocol-plugins/file.py b/bindings/python/python-protocol-plugins/file.py
index 5f9bc63..9787f06 100644
--- a/bindings/python/python-protocol-plugins/file.py
+++ b/bindings/python/python-protocol-plugins/file.py
@@ -54,9 +54,10 @@ class file(dlite.DLiteProtocolBase):
         """Return data loaded from file.
 
         If `location` is a directory, it is returned as a zip archive.
+        If `location` is a file, `uuid` is ignored.
         """
         self._required_mode("r", "load")
-        path = self.path/uuid if uuid else self.path
+        path = self.path/uuid if uuid and not self.path.is_file() else self.path
         level = self.options.get("compresslevel")
         return load_path(
             path=path,
-- 
2.43.0


From 4ac06bc00ed1841b55955a6a4a336d3900c2944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:31 +0000
Subject: [PATCH 201/212] fix: Instance.load() failed for plugins without
 from_bytes()

---
 bindings/python/dlite-entity-python.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index 2ef551e..6fee52f 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -495,7 +495,7 @@ def get_instance(
             return cls.from_bytes(
                 driver, buffer, id=id, options=options, metaid=metaid
             )
-        except _dlite.DLiteUnsupportedError:
+        except (_dlite.DLiteAttributeError, _dlite.DLiteUnsupportedError):
             pass
         tmpfile = None
         try:
-- 
2.43.0


From 4114bab20a937eb7d5a74bce4b61912b4a4e4eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:17 +0000
Subject: [PATCH 202/212] fix: yaml serialisation to bytes dropped the identity
 of instances without URI

---
 storages/python/python-storage-plugins/yaml.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/storages/python/python-storage-plugins/yaml.py b/storages/python/python-storage-plugins/yaml.py
index b81e965..56f87f4 100644
--- a/storages/python/python-storage-plugins/yaml.py
+++ b/storages/python/python-storage-plugins/yaml.py
@@ -153,19 +153,20 @@ class yaml(dlite.DLiteStorageBase):
             inst: Instance to save.
             options: Supported options:
             - `soft7`: Whether to structure metadata as SOFT7.
-            - `with_uuid`: Whether to include UUID in the output.
+            - `with_uuid`: Whether to include UUID in the output.  The default
+              is to include it for instances without URI.
             - `single`: Whether to include UUID in the output.
 
         Returns:
             The bytes (or bytearray) object that the instance is saved to.
         """
-        opts = Options(
-            options, defaults="soft7=true;with_uuid=false;single=true"
-        )
+        opts = Options(options, defaults="soft7=true;single=true")
+        # The UUID is needed to identify instances without URI
+        with_uuid = opts.get("with_uuid", "false" if inst.uri else "true")
         return pyyaml.safe_dump(
             inst.asdict(
                 soft7=dlite.asbool(opts.soft7),
-                uuid=dlite.asbool(opts.with_uuid),
+                uuid=dlite.asbool(with_uuid),
                 single=dlite.asbool(opts.single),
             ),
             default_flow_style=False,
-- 
2.43.0


From 5fb0557fad040a34c04dd7ff74aa51ab6d79eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:56 +0000
Subject: [PATCH 203/212] fix: mapping search aborted, missed cheapest routes
 and freed shared submappings twice

---
 src/dlite-mapping.c | 195 ++++++++++++++++++--------------------------
 src/dlite-mapping.h |   1 +
 2 files changed, 80 insertions(+), 116 deletions(-)

diff --git a/src/dlite-mapping.c b/src/dlite-mapping.c
index 5b3c0ca..88544e5 100644
--- a/src/dlite-mapping.c
+++ b/src/dlite-mapping.c
@@ -23,131 +23,97 @@ typedef map_t(DLiteMapping *) Mappings;
 
 
 /*
-  Recursive help function that removes all mappings found in `m` and its
-  submappings from `created`.
+  Returns the total cost of applying mapping plugin `api` or -1 if it
+  depends on inputs that are neither in `inputs` nor in `created`.
  */
-void mapping_remove_rec(DLiteMapping *m, Mappings *created)
+static int mapping_cost(const DLiteMappingPlugin *api, Instances *inputs,
+                        Mappings *created)
 {
-  int i;
-  if (!m) return;
-  map_remove(created, m->output_uri);
-  for (i=0; i < m->ninput; i++)
-    if (m->input_maps[i])
-      mapping_remove_rec((DLiteMapping *)m->input_maps[i], created);
+  int i, cost=api->cost;
+  for (i=0; i < api->ninput; i++) {
+    DLiteMapping **mp;
+    if (map_get(inputs, api->input_uris[i])) continue;
+    if (!(mp = map_get(created, api->input_uris[i]))) return -1;
+    cost += (*mp)->cost;
+  }
+  return cost;
 }
 
 /*
-  Recursive help function returning a mapping.
-
-  `inputs` set of input URIs (unused map value)
-  `visited` set of so far visited output URIs (unused map value)
-  `created` maps all created output URIs to corresponding mapping
-  `dead_ends` set of URIs that we cannot create a mapping to (unused map value)
+  Returns a new mapping applying `api` or NULL on error.
  */
-DLiteMapping *mapping_create_rec(const char *output_uri, Instances *inputs,
-                                 Mappings *visited, Mappings *created,
-                                 Mappings *dead_ends)
+static DLiteMapping *mapping_create_node(const DLiteMappingPlugin *api,
+                                         int cost, Instances *inputs,
+                                         Mappings *created)
 {
-  int i, lowest_cost=-1;
-  DLiteMapping *m=NULL, *retval=NULL;
-  const DLiteMappingPlugin *api, *cheapest=NULL;
-  DLiteMappingPluginIter iter;
-
-  dlite_mapping_plugin_init_iter(&iter);
-
-  /* Ensure that no input URI equals output URI */
-  assert(!map_get(inputs, output_uri));
-
-  /* Ensure that this not an already known dead end */
-  assert(!map_get(dead_ends, output_uri));
-
-  /* Add output_uri to visited */
-  assert(!map_get(visited, output_uri));
-  map_set(visited, output_uri, NULL);
-
-  /* Find cheapest mapping to output_api */
-  while ((api = dlite_mapping_plugin_next(&iter))) {
-    int ignore = 0;
-    int cost = api->cost;
-    if (strcmp(output_uri, api->output_uri) != 0) continue;
-
-    /* avoid infinite cyclic loops and known dead ends */
-    for (i=0; i < api->ninput; i++) {
-      if (map_get(visited, api->input_uris[i]) ||
-          map_get(dead_ends, api->input_uris[i])) {
-        ignore = 1;
-        break;
-      }
-    }
-    if (ignore) continue;
-
-    /* avoid mappings that depends on input that cannot be realised and
-       calculate cost */
-    for (i=0; i < api->ninput; i++) {
-      if (!map_get(inputs, api->input_uris[i])) {
-        DLiteMapping *mapping=NULL, **mappingp=NULL;
-        if (!(mappingp = map_get(created, api->input_uris[i])) &&
-            !(mapping = mapping_create_rec(api->input_uris[i], inputs,
-                                           visited, created, dead_ends))) {
-          ignore = 1;
-          break;
-        } else {
-          if (!mapping) mapping = *mappingp;
-          assert(mapping->cost >= 0);
-          cost += mapping->cost;
-        }
-      }
-    }
-    if (ignore) continue;
-
-    /*
-      FIXME: avoid memory leak
-      Implement dlite_mapping_plugin_free() and call it here.
-
-      Even better, implement caching in dlite_mapping_plugin_next()
-      such that it returns borrowed references to the api. Add a function
-      to clear the cache.
-    */
-    if (!cheapest || cost < lowest_cost) {
-      //dlite_mapping_plugin_free(cheapest);
-      cheapest = api;
-      lowest_cost = cost;
-    } else {
-      //dlite_mapping_plugin_free(api);
-    }
-  }
-  if (!(api = cheapest)) goto fail;
-
-  /* create mapping */
-  assert(strcmp(output_uri, api->output_uri) == 0);
+  int i;
+  DLiteMapping *m;
   if (!(m = calloc(1, sizeof(DLiteMapping))))
-   FAILCODE(dliteMemoryError, "allocation failure");
+    FAILCODE(dliteMemoryError, "allocation failure");
+  m->refcount = 1;
   m->name = api->name;
   m->output_uri = api->output_uri;
-  m->ninput = api->ninput;
-  if (!(m->input_maps = calloc(m->ninput, sizeof(DLiteMapping *))))
+  if (!(m->input_maps = calloc(api->ninput + 1, sizeof(DLiteMapping *))))
     FAILCODE(dliteMemoryError, "allocation failure");
-  if (!(m->input_uris = calloc(m->ninput, sizeof(char *))))
+  if (!(m->input_uris = calloc(api->ninput + 1, sizeof(char *))))
     FAILCODE(dliteMemoryError, "allocation failure");
   for (i=0; i < api->ninput; i++) {
-    if (!map_get(inputs, api->input_uris[i])) {
-      DLiteMapping **p = map_get(created, api->input_uris[i]);
-      assert(p);
-      m->input_maps[i] = *p;
-      assert(m->input_maps[i]);
-    } else
+    if (map_get(inputs, api->input_uris[i])) {
       m->input_uris[i] = api->input_uris[i];
+    } else {
+      DLiteMapping **mp = map_get(created, api->input_uris[i]);
+      assert(mp && *mp);
+      (*mp)->refcount++;
+      m->input_maps[i] = *mp;
+    }
+    m->ninput++;
   }
   m->api = (DLiteMappingPlugin *)api;
-  m->cost = lowest_cost;
+  m->cost = cost;
+  return m;
+ fail:
+  if (m) dlite_mapping_free(m);
+  return NULL;
+}
 
-  map_set(created, output_uri, m);
+/*
+  Help function returning a borrowed reference to the cheapest mapping
+  to `output_uri` or NULL if there are no such mapping.
 
-  retval = m;
- fail:
-  map_remove(visited, output_uri);
-  if (!retval) map_set(dead_ends, output_uri, NULL);
-  return retval;
+  `inputs` set of input URIs (unused map value)
+  `created` maps all created output URIs to corresponding mapping
+
+  In each round, the cheapest mapping to a not yet created output URI
+  is added to `created`.  Since costs are not negative, a later added
+  mapping can never provide a cheaper way to an already created output.
+ */
+static DLiteMapping *mapping_create_cheapest(const char *output_uri,
+                                             Instances *inputs,
+                                             Mappings *created)
+{
+  while (1) {
+    int cost, lowest_cost=-1;
+    DLiteMapping *m;
+    const DLiteMappingPlugin *api, *cheapest=NULL;
+    DLiteMappingPluginIter iter;
+
+    dlite_mapping_plugin_init_iter(&iter);
+    while ((api = dlite_mapping_plugin_next(&iter))) {
+      if (map_get(inputs, api->output_uri)) continue;
+      if (map_get(created, api->output_uri)) continue;
+      if ((cost = mapping_cost(api, inputs, created)) < 0) continue;
+      if (!cheapest || cost < lowest_cost) {
+        cheapest = api;
+        lowest_cost = cost;
+      }
+    }
+    if (!cheapest) return NULL;
+
+    if (!(m = mapping_create_node(cheapest, lowest_cost, inputs, created)))
+      return NULL;
+    map_set(created, m->output_uri, m);
+    if (strcmp(m->output_uri, output_uri) == 0) return m;
+  }
 }
 
 
@@ -157,19 +123,18 @@ DLiteMapping *mapping_create_rec(const char *output_uri, Instances *inputs,
  */
 DLiteMapping *mapping_create_base(const char *output_uri, Instances *inputs)
 {
-  Mappings visited, created, dead_ends;
+  Mappings created;
   DLiteMapping *m=NULL, *retval=NULL;
   map_iter_t iter;
   const char *key;
 
-  map_init(&visited);
   map_init(&created);
-  map_init(&dead_ends);
 
   if ((map_get(inputs, output_uri))) {
     /* The trivial case - one of the input URIs equals output URI. */
     if (!(m = calloc(1, sizeof(DLiteMapping))))
       FAILCODE(dliteMemoryError, "allocation failure");
+    m->refcount = 1;
     m->name = NULL;
     m->output_uri = output_uri;
     m->ninput = 1;
@@ -182,24 +147,21 @@ DLiteMapping *mapping_create_base(const char *output_uri, Instances *inputs)
     m->cost = 0;
 
   } else {
-    m = mapping_create_rec(output_uri, inputs, &visited, &created, &dead_ends);
+    if ((m = mapping_create_cheapest(output_uri, inputs, &created)))
+      m->refcount++;
   }
 
   retval = m;
  fail:
 
   /* Free all created mappings not in retval */
-  mapping_remove_rec(retval, &created);
   iter = map_iter(&created);
   while ((key = map_next(&created, &iter))) {
     DLiteMapping **mp = map_get(&created, key);
     assert(mp && *mp);
-    free(*mp);
+    dlite_mapping_free(*mp);
   }
-
-  map_deinit(&visited);
   map_deinit(&created);
-  map_deinit(&dead_ends);
   if (!retval && m) dlite_mapping_free(m);
   return retval;
 }
@@ -243,6 +205,7 @@ DLiteMapping *dlite_mapping_create(const char *output_uri,
 void dlite_mapping_free(DLiteMapping *m)
 {
   int i;
+  if (--m->refcount > 0) return;
   for (i=0; i < m->ninput; i++) {
     assert(m->input_maps[i] || m->input_uris[i]);
     assert(!(m->input_maps[i] && m->input_uris[i]));
diff --git a/src/dlite-mapping.h b/src/dlite-mapping.h
index d1fa5b0..1183fec 100644
--- a/src/dlite-mapping.h
+++ b/src/dlite-mapping.h
@@ -34,6 +34,7 @@ typedef struct _DLiteMapping {
   const char **input_uris; /*!< Array of input metadata URIs. Length: ninput */
   DLiteMappingPlugin *api; /*!< Mapping that performs this mapping. */
   int cost;                /*!< The total cost of this mapping.  */
+  int refcount;            /*!< Number of references to this mapping. */
 } DLiteMapping;
 
 
-- 
2.43.0


From 8eaa93139927754f3a95bf5c6428cfedfdd50fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:56 +0000
Subject: [PATCH 204/212] fix: mappings leaked or released instances too early

---
 bindings/python/dlite-mapping.i    |  5 --
 src/dlite-entity.c                 |  9 ++--
 src/dlite-mapping.c                | 79 +++++++++++-------------------
 src/pyembed/dlite-python-mapping.c |  1 -
 4 files changed, 35 insertions(+), 59 deletions(-)

diff --git a/bindings/python/dlite-mapping.i b/bindings/python/dlite-mapping.i
index b3dd2ad..37f8186 100644
--- a/bindings/python/dlite-mapping.i
+++ b/bindings/python/dlite-mapping.i
@@ -15,11 +15,6 @@ struct _DLiteInstance *swig_mapping(const char *output_uri,
                                     int ninstances)
 {
  DLiteInstance *inst=NULL;
- int i;
-
- /* Increate refcount to instances.
-    They are decreased again by mapper() */
- for (i=0; i<ninstances; i++) dlite_instance_incref(instances[i]);
 
  if (!(inst = dlite_mapping(output_uri, (const DLiteInstance **)instances,
                             ninstances)))
diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 5400a43..c29a1c8 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1197,9 +1197,12 @@ DLiteInstance *dlite_instance_memload(const char *driver,
 
   if (!(inst = api->memLoadInstance(api, buf, size, id, options)))
     return NULL;
-  if (metaid)
-    return dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
-  else
+  if (metaid) {
+    DLiteInstance *instance;
+    instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
+    dlite_instance_decref(inst);
+    return instance;
+  } else
     return inst;
 }
 
diff --git a/src/dlite-mapping.c b/src/dlite-mapping.c
index 88544e5..0881b20 100644
--- a/src/dlite-mapping.c
+++ b/src/dlite-mapping.c
@@ -219,12 +219,12 @@ void dlite_mapping_free(DLiteMapping *m)
 
 /*
   Recursive help function that performs the actual mapping and returns
-  a new instance (with metadata `m->output_uri`).
+  a borrowed reference to an instance (with metadata `m->output_uri`).
 
   `m`: mapping tree that descripes how the instance can be created.
   `instances`: maps metadata URI to an instance with this metadata.  The
        instance should be either an input instance or created by a
-       mapping.
+       mapping.  It owns one reference to each instance.
  */
 DLiteInstance *mapping_map_rec(const DLiteMapping *m, Instances *instances)
 {
@@ -232,19 +232,21 @@ DLiteInstance *mapping_map_rec(const DLiteMapping *m, Instances *instances)
   const DLiteInstance **insts=NULL;
   DLiteInstance *inst=NULL, **instp;
 
-  /* Trivial case - we already have an instance with metadata `m->output_uri` */
+  /* We already have an instance with metadata `m->output_uri` */
   if ((instp = map_get(instances, m->output_uri)))
     return *instp;
 
   /* Create `insts` array */
-  if (!(insts = calloc(m->ninput, sizeof(DLiteInstance))))
+  if (!(insts = calloc(m->ninput + 1, sizeof(DLiteInstance *))))
     FAILCODE(dliteMemoryError, "allocation failure");
   for (i=0; i < m->ninput; i++) {
     if (m->input_maps[i]) {
-      insts[i] = mapping_map_rec(m->input_maps[i], instances);
+      if (!(insts[i] = mapping_map_rec(m->input_maps[i], instances)))
+        goto fail;
     } else {
-      instp = map_get(instances, m->input_uris[i]);
-      assert(instp);
+      if (!(instp = map_get(instances, m->input_uris[i])))
+        FAILCODE1(dliteMappingError, "missing input instance of metadata: %s",
+                  m->input_uris[i]);
       insts[i] = *instp;
     }
   }
@@ -252,9 +254,14 @@ DLiteInstance *mapping_map_rec(const DLiteMapping *m, Instances *instances)
   /* Call the mapper function from plugin */
   if (!(inst = m->api->mapper(m->api, insts, m->ninput))) goto fail;
 
-  /* Add new instance to `instances` */
-  assert(strcmp(inst->meta->uri, m->output_uri) == 0);
-  dlite_instance_incref(inst);  // TODO: is this correct?
+  /* Let `instances` take over the ownership of the new instance */
+  if (strcmp(inst->meta->uri, m->output_uri) != 0) {
+    errx(dliteMappingError, "mapping '%s' returned an instance of '%s', "
+         "expected '%s'", m->name, inst->meta->uri, m->output_uri);
+    dlite_instance_decref(inst);
+    inst = NULL;
+    goto fail;
+  }
   map_set(instances, inst->meta->uri, inst);
 
  fail:
@@ -336,21 +343,6 @@ int decref_inputs(Instances *inputs)
 
 
 
-/* Recursive help function that removes all references to input instances
-   found in `m`, from `inputs`. */
-void remove_inputs_rec(const DLiteMapping *m, Instances *inputs)
-{
-  int i;
-  for (i=0; i < m->ninput; i++) {
-    if (m->input_maps[i])
-      remove_inputs_rec(m->input_maps[i], inputs);
-    else {
-      map_remove(inputs, m->input_uris[i]);
-    }
-  }
-  map_remove(inputs, m->output_uri);
-}
-
 /*
   Applies the mapping `m` on `instances` (array of length `n` of
   instance pointers) and returns a new instance.
@@ -358,43 +350,30 @@ void remove_inputs_rec(const DLiteMapping *m, Instances *inputs)
 DLiteInstance *dlite_mapping_map(const DLiteMapping *m,
                                  const DLiteInstance **instances, int n)
 {
-  int i;
-  const char *key;
   Instances inputs;
-  map_iter_t iter;
   DLiteInstance *inst=NULL, **instp;
 
   map_init(&inputs);
 
   /* Assign instances and check that the metadata of all instances are unique */
-  if (set_inputs(&inputs, instances, n)) {
-    map_deinit(&inputs);
-    return NULL;
-  }
+  if (set_inputs(&inputs, instances, n)) goto fail;
 
-  if ((instp = map_get(&inputs, m->output_uri))) {
-    /* The trivial case - one of the inputs has metadata output URI */
-    assert(!m->name);
-    inst = *instp;
-    assert(inst);
-    dlite_instance_incref(inst);
-  } else {
+  if (m->name) {
     /* Apply mapping */
-    assert(m->name);  /* trivial case is already handled */
     inst = mapping_map_rec(m, &inputs);
+  } else {
+    /* The trivial case - one of the inputs has metadata output URI */
+    if (!(instp = map_get(&inputs, m->output_uri)))
+      FAILCODE1(dliteMappingError, "missing input instance of metadata: %s",
+                m->output_uri);
+    inst = *instp;
   }
+  if (inst) dlite_instance_incref(inst);
 
-  /* Done - remove temporary created instances */
-  remove_inputs_rec(m, &inputs);
-  iter = map_iter(&inputs);
-  while ((key = map_next(&inputs, &iter))) {
-    DLiteInstance **ip = map_get(&inputs, key);
-    assert(ip && *ip);
-    dlite_instance_decref(*ip);
-  }
-
+ fail:
+  /* Done - release inputs and temporary created instances */
+  decref_inputs(&inputs);
   map_deinit(&inputs);
-  for (i=0; i<n; i++) dlite_instance_decref((DLiteInstance *)instances[i]);
   return inst;
 }
 
diff --git a/src/pyembed/dlite-python-mapping.c b/src/pyembed/dlite-python-mapping.c
index 19f6b27..66be677 100644
--- a/src/pyembed/dlite-python-mapping.c
+++ b/src/pyembed/dlite-python-mapping.c
@@ -267,7 +267,6 @@ static DLiteInstance *mapper(const DLiteMappingPlugin *api,
   Py_XDECREF(outinst);
   Py_XDECREF(insts);
   Py_XDECREF(map);
-  for (i=0; i<n; i++) dlite_instance_decref((DLiteInstance *)instances[i]);
   return inst;
 }
 
-- 
2.43.0


From eaa61f0bab049ca877e71daaec1f224741daab5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:56 +0000
Subject: [PATCH 205/212] fix: iterating over mapping plugins leaked all Python
 plugins

---
 src/dlite-mapping-plugins.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dlite-mapping-plugins.c b/src/dlite-mapping-plugins.c
index ed52c6b..109dfc7 100644
--- a/src/dlite-mapping-plugins.c
+++ b/src/dlite-mapping-plugins.c
@@ -197,15 +197,20 @@ dlite_mapping_plugin_next(DLiteMappingPluginIter *iter)
     return api;
 #ifdef WITH_PYTHON
   PluginInfo *info = (PluginInfo *)iter->iter.info;
-  if (!iter->stop) {
+  while (!iter->stop) {
     int n = iter->n;
     api = dlite_python_mapping_next(dlite_globals_get(), &iter->n);
-    if (api && !plugin_has_api(info, api->name))
-      plugin_register_api(info, (PluginAPI *)api);
     if (iter->n == n) iter->stop = 1;
+    if (!api) continue;
+    if (!plugin_has_api(info, api->name)) {
+      plugin_register_api(info, (PluginAPI *)api);
+      return api;
+    }
+    /* already visited */
+    api->freeapi((PluginAPI *)api);
   }
 #endif
-  return api;
+  return NULL;
 }
 
 
-- 
2.43.0


From 467b06239cb4d93f19ebaf4dcba5469323b9b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:13 +0000
Subject: [PATCH 206/212] fix: plugin_names() wrote outside its array for a
 multiple of 16 plugins and failed for none

---
 src/utils/plugin.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/plugin.c b/src/utils/plugin.c
index f5a6ddd..c7d1572 100644
--- a/src/utils/plugin.c
+++ b/src/utils/plugin.c
@@ -399,7 +399,7 @@ char **plugin_names(const PluginInfo *info)
   const PluginAPI *api;
   plugin_api_iter_init(&iter, info);
   while ((api = plugin_api_iter_next(&iter))) {
-    if (n >= size) {
+    if (n + 1 >= size) {
       void *ptr;
       size += 16;
       if (!(ptr = realloc(names, size * sizeof(char *)))) {
@@ -410,7 +410,9 @@ char **plugin_names(const PluginInfo *info)
     }
     names[n++] = strdup(api->name);
   }
-  if (names) names[n] = NULL;
+  if (!names && !(names = calloc(1, sizeof(char *))))
+    return err(1, "allocation failure"), NULL;
+  names[n] = NULL;
   return names;
 }
 
-- 
2.43.0


From d33d7ef6e49d47d44229f6f9ce582bf061809999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:13 +0000
Subject: [PATCH 207/212] fix: plugin library was unloaded while some of its
 APIs were registered

---
 src/utils/plugin.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/utils/plugin.c b/src/utils/plugin.c
index c7d1572..fd18882 100644
--- a/src/utils/plugin.c
+++ b/src/utils/plugin.c
@@ -196,14 +196,14 @@ const PluginAPI *plugin_load(PluginInfo *info, const char *name,
   PluginAPI *api=NULL, **apiptr;
   const void *loaded_api=NULL, *registered_api=NULL, *retval=NULL;
 
-  if (!(iter = fu_startmatch(pattern, &info->paths))) goto fail;
-
   /* Check if plugin is already loaded */
   if (name && (apiptr = map_get(&info->apis, name)))
     return *apiptr;
 
+  if (!(iter = fu_startmatch(pattern, &info->paths))) goto fail;
+
   while ((filepath = fu_nextmatch(iter))) {
-    int iter1=0, iter2=0;
+    int iter1=0, iter2=0, nregistered=0;
     err_clear();
 
     /* load plugin */
@@ -229,8 +229,10 @@ const PluginAPI *plugin_load(PluginInfo *info, const char *name,
       if (!map_get(&info->apis, api->name)) {  /* no plugin with this name */
         loaded_api = api;
         if (!name) {
-          if (!register_plugin(info, api, filepath, handle))
+          if (!register_plugin(info, api, filepath, handle)) {
             registered_api = api;
+            nregistered++;
+          }
         } else if (strcmp(api->name, name) == 0) {
           if (register_plugin(info, api, filepath, handle)) goto fail;
           registered_api = api;
@@ -248,7 +250,7 @@ const PluginAPI *plugin_load(PluginInfo *info, const char *name,
       warn("failure calling \"%s\" in plugin \"%s\": %s",
            info->symbol, filepath, dsl_error());
 
-    if (!registered_api && handle) {
+    if (!nregistered && handle) {
       if (handle && dsl_close(handle))
         err(1, "error closing \"%s\": %s", filepath, dsl_error());
       handle = NULL;
-- 
2.43.0


From d148663a4f387ce569523e04657181b5814854ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:13 +0000
Subject: [PATCH 208/212] fix: loading an already loaded instance ignored the
 requested metadata

---
 src/dlite-entity.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index c29a1c8..96dff69 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -967,6 +967,11 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
     dlite_instance_incref(inst);
     //warn("trying to load existing instance from storage \"%s\": %s"
     //     " - create a new reference", s->location, id);
+    if (metaid) {
+      instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
+      dlite_instance_decref(inst);
+      return instance;
+    }
     return inst;
   }
 
-- 
2.43.0


From 3baf95897c938ef0c3b33372a2ceafdea3cbbd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:13 +0000
Subject: [PATCH 209/212] fix: Python mapping plugin without cost left a
 pending exception

---
 src/pyembed/dlite-python-mapping.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyembed/dlite-python-mapping.c b/src/pyembed/dlite-python-mapping.c
index 66be677..6a6c69e 100644
--- a/src/pyembed/dlite-python-mapping.c
+++ b/src/pyembed/dlite-python-mapping.c
@@ -393,7 +393,9 @@ const DLiteMappingPlugin *get_dlite_mapping_api(void *state, int *iter)
   if (!PyCallable_Check(map))
     FAIL1("attribute 'map' of '%s' is not callable", classname);
 
-  if ((pcost = PyObject_GetAttrString(cls, "cost")) && PyLong_Check(pcost))
+  if (!(pcost = PyObject_GetAttrString(cls, "cost")))
+    PyErr_Clear();
+  else if (PyLong_Check(pcost))
     cost = PyLong_AsLong(pcost);
 
   if (!(api = calloc(1, sizeof(DLiteMappingPlugin))))
-- 
2.43.0


From 8b146627b2af20e9d645abe1c6d1f28ec3b252b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:43 +0000
Subject: [PATCH 210/212] fix: errors when opening or closing Python storages
 were lost when the storage object was released

---
 storages/python/dlite-plugins-python.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/storages/python/dlite-plugins-python.c b/storages/python/dlite-plugins-python.c
index 58dfe49..7438871 100644
--- a/storages/python/dlite-plugins-python.c
+++ b/storages/python/dlite-plugins-python.c
@@ -13,6 +13,7 @@
 #include "Python.h"
 
 #include "utils/boolean.h"
+#include "utils/err.h"
 #include "dlite.h"
 #include "dlite-macros.h"
 #include "dlite-behavior.h"
@@ -42,6 +43,20 @@ static char *failmsg()
 }
 
 
+/*
+  Releases our reference to Python storage object `obj`.
+
+  The destruction of DLite objects owned by `obj` clears the current
+  error.  Hence, keep it out of the way.
+ */
+static void release_object(PyObject *obj)
+{
+  ErrTry:
+    Py_XDECREF(obj);
+  ErrEnd;
+}
+
+
 /*
   Opens `location` and returns a newly created storage for it.
 
@@ -109,7 +124,7 @@ opener(const DLiteStoragePlugin *api, const char *location,
   retval = (DLiteStorage *)s;
  fail:
   if (s && !retval) free(s);
-  if (!retval) Py_XDECREF(obj);
+  if (!retval) release_object(obj);
   Py_XDECREF(v);
   Py_XDECREF(readable);
   Py_XDECREF(writable);
@@ -142,7 +157,7 @@ int closer(DLiteStorage *s)
       retval = 1;
     Py_XDECREF(v);
   }
-  Py_DECREF(sp->obj);
+  release_object(sp->obj);
   return retval;
 }
 
-- 
2.43.0


From 32ab69d234d4d7e42adf931225401ab8cea5c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:43 +0000
Subject: [PATCH 211/212] fix: Python mapping plugins could be visited several
 times when iterating over mapping plugins

---
 src/dlite-mapping-plugins.c | 7 +++++--
 src/dlite-mapping-plugins.h | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dlite-mapping-plugins.c b/src/dlite-mapping-plugins.c
index 109dfc7..faed2c1 100644
--- a/src/dlite-mapping-plugins.c
+++ b/src/dlite-mapping-plugins.c
@@ -193,8 +193,11 @@ const DLiteMappingPlugin *
 dlite_mapping_plugin_next(DLiteMappingPluginIter *iter)
 {
   const DLiteMappingPlugin *api;
-  if ((api = (const DLiteMappingPlugin *)plugin_api_iter_next(&iter->iter)))
-    return api;
+  if (!iter->done) {
+    if ((api = (const DLiteMappingPlugin *)plugin_api_iter_next(&iter->iter)))
+      return api;
+    iter->done = 1;  /* we register Python plugins below */
+  }
 #ifdef WITH_PYTHON
   PluginInfo *info = (PluginInfo *)iter->iter.info;
   while (!iter->stop) {
diff --git a/src/dlite-mapping-plugins.h b/src/dlite-mapping-plugins.h
index 554f623..6f9c0ec 100644
--- a/src/dlite-mapping-plugins.h
+++ b/src/dlite-mapping-plugins.h
@@ -37,6 +37,7 @@ typedef struct _DLiteMappingPlugin DLiteMappingPlugin;
 //typedef struct _PluginIter DLiteMappingPluginIter;
 typedef struct _DLiteMappingPluginIter {
   PluginIter iter;  /*!< plugin iterator */
+  int done;         /*!< set to non-zero if all registered plugins are visited */
   int n;            /*!< counter for python mappings */
   int stop;         /*!< set to non-zero if no more python mappings are
                          available */
-- 
2.43.0


From 976d7fd1806c16415dff81ee995eafd3e8cc5e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:51 +0000
Subject: [PATCH 212/212] fix: loading an instance in Python ignored the
 requested metadata and created a new instance

---
 bindings/python/dlite-entity.i | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/python/dlite-entity.i b/bindings/python/dlite-entity.i
index 8fd4976..a1f3f8b 100644
--- a/bindings/python/dlite-entity.i
+++ b/bindings/python/dlite-entity.i
@@ -320,7 +320,8 @@ struct _DLiteInstance {
                  struct _DLiteDimension *dimensions=NULL, int ndimensions=0,
                  struct _DLiteProperty *properties=NULL, int nproperties=0,
                  const char *description=NULL) {
-    if (dims && metaid) {
+    if (dims && metaid && !url && !storage && !location && !jsoninput &&
+        !bsoninput) {
       DLiteInstance *inst;
       DLiteMeta *meta;
       size_t i, *d, n=ndims;
@@ -361,7 +362,7 @@ struct _DLiteInstance {
       DLiteStorage *s;
       DLiteInstance *inst;
       if (!(s = dlite_storage_open(driver, location, options))) return NULL;
-      inst = dlite_instance_load(s, id);
+      inst = dlite_instance_load_casted(s, id, metaid);
       dlite_storage_close(s);
       if (inst) dlite_errclr();
       return inst;
-- 
2.43.0

