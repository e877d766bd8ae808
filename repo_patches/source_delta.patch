From da6c0e48d38e87ce848ff7328cef374c7d28c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 001/146] fix: add2array must not truncate indices to 32 bits
 before the range check

---
 aipy/utils/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index f2efa77..eca0815 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -56,7 +56,7 @@ template<typename T> struct AddStuff {
     static int addloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        long v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
@@ -73,7 +73,7 @@ template<typename T> struct AddStuff {
     static int caddloop(PyArrayObject *a, PyArrayObject *ind,
             PyArrayObject *data) {
         char *index = NULL;
-        int v;
+        long v;
         for (int i=0; i < DIM(ind,0); i++) {
             index = (char *) PyArray_DATA(a);
             for (int j=0; j < RANK(a); j++) {
-- 
2.43.0


From 2bd6c599fd007e3e8f8e0a0c4719e7bec5aa416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 002/146] fix: add2array must reject arguments that are not
 arrays instead of crashing

---
 aipy/utils/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/utils/utils.cpp b/aipy/utils/utils.cpp
index eca0815..1d68ad3 100644
--- a/aipy/utils/utils.cpp
+++ b/aipy/utils/utils.cpp
@@ -93,7 +93,8 @@ PyObject *add2array(PyObject *self, PyObject *args) {
     PyArrayObject *a, *ind, *data;
     int rv;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "OOO", &a, &ind, &data)) return NULL;
+    if (!PyArg_ParseTuple(args, "O!O!O!", &PyArray_Type, &a,
+            &PyArray_Type, &ind, &PyArray_Type, &data)) return NULL;
     CHK_ARRAY_RANK(ind, 2);
     CHK_ARRAY_RANK(data, 1);
     CHK_ARRAY_DIM(ind, 0, DIM(data,0));
-- 
2.43.0


From a749648cad23869be61cd021213c61188b6a3f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:34 +0000
Subject: [PATCH 003/146] fix: a recovered MIRIAD error must not abort and
 delete the other open datasets

---
 aipy/_miriad/mir/bug.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/aipy/_miriad/mir/bug.c b/aipy/_miriad/mir/bug.c
index 51d3fed..b78a526 100644
--- a/aipy/_miriad/mir/bug.c
+++ b/aipy/_miriad/mir/bug.c
@@ -113,6 +113,9 @@ void bug_c(char s,Const char *m)
 
   fprintf(stderr,"### %s:  %s\n",p,m);
   if(doabort){
+    /* A recovery handler does not return. The caller goes on, so the other
+       data-sets that are open must not be aborted (which deletes new ones). */
+    if (bug_cleanup) (*bug_cleanup)();
     reentrant = !reentrant;
     if(reentrant)habort_c();
 #ifdef vms
@@ -120,11 +123,6 @@ void bug_c(char s,Const char *m)
     lib$stop(SS$_ABORT);
 #else
 /*    fprintf(stderr,"### Program exiting with return code = 1 ###\n"); */
-    if (bug_cleanup) {
-        (*bug_cleanup)();       /* call it */
-        fprintf(stderr,"### bug_cleanup: code should not come here, goodbye\n");
-        /* and not it will fall through and exit the bug way */
-    }
     exit (1);
 #endif
   }
@@ -167,13 +165,9 @@ void bugv_c(char s,Const char *m, ...)
   va_end(ap);
 
   if(doabort){
+    if (bug_cleanup) (*bug_cleanup)();
     reentrant = !reentrant;
     if(reentrant)habort_c();
-    if (bug_cleanup) {
-        (*bug_cleanup)();       /* call it */
-        fprintf(stderr,"### bug_cleanup: code should not come here, goodbye\n");
-        /* and not it will fall through and exit the bug way */
-    }
     exit (1);
   }
 }
-- 
2.43.0


From bb316a782d93d1a193df24e8cb8f905e0b0923c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 004/146] fix: bound the MIRIAD uv error messages (a long path
 or name overran the buffer)

---
 aipy/_miriad/mir/uvio.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 0b18131..6cafd59 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -266,6 +266,7 @@
 #include <string.h>
 #include <math.h>
 #include <ctype.h>
+#include <stdarg.h>
 #include "io.h"
 #include "miriad.h"
 
@@ -326,8 +327,8 @@
 /*----------------------------------------------------------------------*/
 
 #define BUG(sev,a)   bug_c(sev,a)
-#define ERROR(sev,a) bug_c(sev,((void)sprintf a,message))
-#define CHECK(x,a) if(x) {  bug_c('w',((void)sprintf a,message)); \
+#define ERROR(sev,a) bug_c(sev,((void)uv_message a,message))
+#define CHECK(x,a) if(x) {  bug_c('w',((void)uv_message a,message)); \
 			    bugno_c('f',x);			 \
 			 }
 
@@ -502,6 +503,7 @@ static AMP noamp;
 static int first=TRUE;
 
 /* void uvputvr_c(); */
+private void uv_message(char *buf,const char *fmt,...);
 private void uvinfo_chan(UV *uv,double *data,int mode);
 private void uvinfo_variance(UV *uv,double *data);
 private void uvbasant_c(int baseline,int *i1,int *i2);
@@ -1012,6 +1014,18 @@ private void uv_freeuv(UV *uv)
   free((char *)uv);
 }
 /************************************************************************/
+private void uv_message(char *buf,const char *fmt,...)
+/*
+  Format a message, cutting it to the size of the message buffer.
+------------------------------------------------------------------------*/
+{
+  va_list ap;
+
+  va_start(ap,fmt);
+  (void)vsnprintf(buf,MAXLINE,fmt,ap);
+  va_end(ap);
+}
+/************************************************************************/
 private void uv_free_select(SELECT *sel)
 {
   OPERS *op;
-- 
2.43.0


From 4eaa9d5ffa7a15a21650a9223eb798e8d55efc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 005/146] fix: dataset paths: reject empty and over-long ones
 instead of overrunning the path buffers

---
 aipy/_miriad/mir/dio.c | 9 +++++++--
 aipy/_miriad/mir/hio.c | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/aipy/_miriad/mir/dio.c b/aipy/_miriad/mir/dio.c
index 4adad9d..6b1e1f2 100644
--- a/aipy/_miriad/mir/dio.c
+++ b/aipy/_miriad/mir/dio.c
@@ -88,6 +88,11 @@ void dtrans_c(char *inpath,char *outpath,int *iostat)
   char *s;
 
   *iostat = 0;
+
+/* Leave room for the slash and the name of an item (at most 8 characters). */
+
+  if(*inpath == 0){ *iostat = ENOENT; return; }
+  if(strlen(inpath) + 10 > MAXPATH){ *iostat = ENAMETOOLONG; return; }
   Strcpy(outpath,inpath);
   s = outpath + strlen(outpath) - 1;
   if(*s != '/')Strcat(outpath,"/");
@@ -310,8 +315,8 @@ void dreaddir_c(char *contxt,char *path,int length)
     *path = 0;
   else{
     Strcpy(path,dp->d_name);
+    if(strlen(d->path) + strlen(path) >= sizeof(npath)) return;
     Strcpy(npath,d->path);    Strcat(npath,path);
-    (void)stat(npath,&buf);
-    if(S_IFDIR & buf.st_mode)Strcat(path,"/");
+    if(stat(npath,&buf) == 0 && (S_IFDIR & buf.st_mode))Strcat(path,"/");
   }
 }
diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index f612bd1..1f6064d 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1347,7 +1347,7 @@ private void hdir_c(ITEM *item)
   ITEM *it;
   TREE *t;
 
-#define MINLENGTH 128
+#define MINLENGTH 260
 
 /* Mark this item as not cachable. */
 
-- 
2.43.0


From b475ae9e1ad7fbca83a22e41ff3ffbe24dcc0ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 006/146] fix: non-ASCII dataset and variable names indexed the
 hash tables negatively

---
 aipy/_miriad/mir/hio.c  | 4 ++--
 aipy/_miriad/mir/uvio.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 1f6064d..7e4d5e8 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -1450,7 +1450,7 @@ private ITEM *hcreate_item_c(TREE *tree,char *name)
   hash = nitem++;
   if(nitem > MAXITEM)
     bugv_c('f',"Item address table overflow, in hio; nitem=%d MAXITEM=%d",nitem,MAXITEM);
-  while(*s) hash += *s++;
+  while(*s) hash += (unsigned char)*s++;
   hash %= MAXITEM;
 
 /* Find a slot in the list of addresses, and allocate it. */
@@ -1497,7 +1497,7 @@ private TREE *hcreate_tree_c(char *name)
   hash = ntree++;
   if(ntree > MAXOPEN)
     bugv_c('f',"Tree address table overflow, in hio, ntree=%d MAXOPEN=%d",ntree,MAXOPEN);
-  while(*s) hash += *s++;
+  while(*s) hash += (unsigned char)*s++;
   hash %= MAXOPEN;
 
 /* Find a slot in the list of addresses, and allocate it. */
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 6cafd59..06e1bc0 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1262,7 +1262,7 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /* Add it to the hash table. */
 
   hashval = 0;
-  while(*name)hashval += *name++;
+  while(*name)hashval += (unsigned char)*name++;
   hashval %= HASHSIZE;
   v->fwd = uv->vhash[hashval];
   uv->vhash[hashval] = v;
@@ -1280,7 +1280,7 @@ private VARIABLE *uv_locvar(int tno,char *name)
   char *s;
 
   hashval = 0;
-  for(s=name; *s; s++) hashval += *s;
+  for(s=name; *s; s++) hashval += (unsigned char)*s;
 
   for(v = uvs[tno]->vhash[hashval%HASHSIZE]; v != NULL; v = v->fwd)
 	if(!strcmp(v->name,name))break;
-- 
2.43.0


From c107fecaa8befd04d47429719be805000b2a29fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 007/146] fix: a UV file that failed to open or to close kept
 its handles, or crashed on deletion

---
 aipy/_miriad/mir/hio.c       | 21 ++++++++++++++-------
 aipy/_miriad/mir/miriad.h    |  1 +
 aipy/_miriad/mir/uvio.c      | 18 ++++++++++++++++++
 aipy/_miriad/miriad_wrap.cpp | 18 ++++++++++++++++--
 4 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 7e4d5e8..32afb39 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -447,21 +447,23 @@ void hclose_c(int tno)
 {
   TREE *t;
   ITEM *item,*it1,*it2;
-  int iostat;
+  int iostat,stat;
 
-/* Close any open items. */
+/* Close any open items. An error is reported once all is released. */
 
+  stat = 0;
   t = hget_tree(tno);
-  for(item=t->itemlist; item != NULL; item = item->fwd){
+  for(item=t->itemlist; item != NULL; item = it2){
+    it2 = item->fwd;			/* hdaccess_c may release the item. */
     if(item->flags & ACCESS_MODE){
       bugv_c('w',"Closing item -- %s",item->name);
-      hdaccess_c(item->handle,&iostat);			check(iostat);
+      hdaccess_c(item->handle,&iostat);		if(!stat)stat = iostat;
     }
   }
 
 /* Flush out the header, if needed. */
 
-  hflush_c(tno,&iostat);				check(iostat);
+  hflush_c(tno,&iostat);			if(!stat)stat = iostat;
 
 /* Release all allocated stuff. */
 
@@ -475,6 +477,7 @@ void hclose_c(int tno)
   free(t->name);
   free((char *)t);
   ntree--;
+  check(stat);
 }
 /************************************************************************/
 void hdelete_c(int tno,Const char *keyword,int *iostat)
@@ -1448,8 +1451,10 @@ private ITEM *hcreate_item_c(TREE *tree,char *name)
 
   s = name;
   hash = nitem++;
-  if(nitem > MAXITEM)
+  if(nitem > MAXITEM){
+    nitem--;
     bugv_c('f',"Item address table overflow, in hio; nitem=%d MAXITEM=%d",nitem,MAXITEM);
+  }
   while(*s) hash += (unsigned char)*s++;
   hash %= MAXITEM;
 
@@ -1495,8 +1500,10 @@ private TREE *hcreate_tree_c(char *name)
 
   s = name;
   hash = ntree++;
-  if(ntree > MAXOPEN)
+  if(ntree > MAXOPEN){
+    ntree--;
     bugv_c('f',"Tree address table overflow, in hio, ntree=%d MAXOPEN=%d",ntree,MAXOPEN);
+  }
   while(*s) hash += (unsigned char)*s++;
   hash %= MAXOPEN;
 
diff --git a/aipy/_miriad/mir/miriad.h b/aipy/_miriad/mir/miriad.h
index c318be2..f6ff8d6 100644
--- a/aipy/_miriad/mir/miriad.h
+++ b/aipy/_miriad/mir/miriad.h
@@ -203,6 +203,7 @@ void dreaddir_c  (char *contxt, char *path, int length);
 
 void uvopen_c   (int *tno, Const char *name, Const char *status);
 void uvclose_c  (int tno);
+void uvabandon_c(int tno);
 void uvflush_c  (int tno);
 void uvnext_c   (int tno);
 void uvrewind_c (int tno);
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 06e1bc0..05d3e65 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -875,6 +875,24 @@ void uvclose_c(int tno)
   hclose_c(tno);
 }
 /************************************************************************/
+void uvabandon_c(int tno)
+/*
+  Release a uv data set which could not be opened completely, so that its
+  handles can be used again. Nothing is written to it.
+
+  Input:
+    tno		Handle set by UVOPEN, or -1 if there is none.
+------------------------------------------------------------------------*/
+{
+  UV *uv;
+
+  if(tno < 0 || tno >= MAXOPEN || uvs[tno] == NULL) return;
+  uv = uvs[tno];
+  uv_freeuv(uv);
+  uvs[tno] = NULL;
+  hclose_c(tno);
+}
+/************************************************************************/
 void uvflush_c(int tno)
 /**uvflush -- Flush buffers of a uv dataset to disk.			*/
 /*&rjs                                                                  */
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index c7c5e38..a3e7647 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -25,7 +25,19 @@ typedef struct {
 
 // Deallocate memory when Python object is deleted
 static void UVObject_dealloc(UVObject *self) {
-    if (self->tno != -1) uvclose_c(self->tno);
+    if (self->tno != -1) {
+        try {
+            uvclose_c(self->tno);
+        } catch (MiriadError &e) {
+            // An exception cannot leave a deallocator
+            try { uvabandon_c(self->tno); } catch (MiriadError &e2) {}
+            PyObject *et, *ev, *tb;
+            PyErr_Fetch(&et, &ev, &tb);
+            PyErr_Format(PyExc_RuntimeError, "%s (closing a UV file)", e.get_message());
+            PyErr_WriteUnraisable(NULL);
+            PyErr_Restore(et, ev, tb);
+        }
+    }
     Py_TYPE(self)->tp_free((PyObject*)self);
 }
 
@@ -34,6 +46,7 @@ static PyObject *UVObject_new(PyTypeObject *type,
         PyObject *args, PyObject *kwds) {
     UVObject *self;
     self = (UVObject *) type->tp_alloc(type, 0);
+    if (self != NULL) self->tno = -1; // Nothing to close until opened
     return (PyObject *) self;
 }
 
@@ -66,6 +79,8 @@ static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
         uvset_c(self->tno,"preamble","uvw/time/baseline",0,0.,0.,0.);
         uvset_c(self->tno,"corr",corrmode,0,0.,0.,0.);
     } catch (MiriadError &e) {
+        // Release whatever was opened, or its handle is never used again
+        try { uvabandon_c(self->tno); } catch (MiriadError &e2) {}
         self->tno = -1;
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return -1;
@@ -716,7 +731,6 @@ MOD_INIT(_miriad) {
 
     Py_Initialize();
 
-    UVType.tp_new = PyType_GenericNew;
     if (PyType_Ready(&UVType) < 0)
         return MOD_ERROR_VAL;
 
-- 
2.43.0


From 7555430abf310a485e80fd6f4cbef4eee287ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 008/146] fix: damaged datasets were read without checking
 lengths, variable numbers or names

---
 aipy/_miriad/mir/hio.c    | 18 ++++++++++++------
 aipy/_miriad/mir/maskio.c |  2 +-
 aipy/_miriad/mir/uvio.c   | 26 ++++++++++++++++++--------
 3 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/aipy/_miriad/mir/hio.c b/aipy/_miriad/mir/hio.c
index 32afb39..4e08fac 100644
--- a/aipy/_miriad/mir/hio.c
+++ b/aipy/_miriad/mir/hio.c
@@ -45,6 +45,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <errno.h>
 
 #include "hio.h"
 #include "miriad.h"
@@ -1285,11 +1286,10 @@ private void hcache_create_c(TREE *t,int *iostat)
 private void hcache_read_c(TREE *t,int *iostat)
 /*
   Read in all small items, which are stored in the file "header".
-  Errors should never happen when reading the cache. If they do,
-  abort completely.
+  If the cache is damaged, this is returned as an I/O error.
 ------------------------------------------------------------------------*/
 {
-  int offset;
+  int offset,length,stat;
   ITEM *item;
   char s[CACHE_ENT];
   int ihandle;
@@ -1301,19 +1301,25 @@ private void hcache_read_c(TREE *t,int *iostat)
   offset = 0;
   while(hreadb_c(ihandle,s,offset,CACHE_ENT,iostat),!*iostat){
     offset += CACHE_ENT;
+    length = (unsigned char)s[CACHE_ENT-1];
+    s[CACHE_ENT-1] = 0;
+    if(length > CACHESIZE || hname_check(s) ||
+       offset + length > hsize_c(ihandle)){ *iostat = EIO; break; }
     item = hcreate_item_c(t,s);
-    item->size = *(s+CACHE_ENT-1);
+    item->size = length;
     item->bsize = item->size;
     item->flags = ITEM_CACHE;
     item->io[0].offset = 0;
     item->io[0].length = item->size;
     item->io[0].state = IO_VALID;
     item->io[0].buf = Malloc(item->size);
-    hreadb_c(ihandle,item->io[0].buf,offset,item->size,iostat);	check(*iostat);
+    hreadb_c(ihandle,item->io[0].buf,offset,item->size,iostat);	if(*iostat)break;
     offset += mroundup(item->size,CACHE_ENT);
   }
-  if(*iostat != -1) bug_c('f',"hcache_read_c: Something wrong reading cache");
+  stat = (*iostat == -1 ? 0 : *iostat);
+  if(stat) bug_c('w',"hcache_read_c: Something wrong reading cache");
   hdaccess_c(ihandle,iostat);
+  if(stat) *iostat = stat;
 }
 /************************************************************************/
 private int hname_check(char *name)
diff --git a/aipy/_miriad/mir/maskio.c b/aipy/_miriad/mir/maskio.c
index 91342b3..ddafa0f 100644
--- a/aipy/_miriad/mir/maskio.c
+++ b/aipy/_miriad/mir/maskio.c
@@ -174,7 +174,7 @@ int mkread_c(char *handle,int mode,int *flags,off64_t offset,int n,int nsize)
       mask->offset = (offset/BITS_PER_INT)*BITS_PER_INT;
       mask->length = min(mask->size - mask->offset,BUFFERSIZE*BITS_PER_INT);
       mask->modified = FALSE;
-      if(mask->length == 0) BUG('f',"Read past end of mask file");
+      if(mask->length <= 0) BUG('f',"Read past end of mask file");
       hreadi_c(mask->item,mask->buf,
 		(mask->offset/BITS_PER_INT)*H_INT_SIZE,
 		(mask->length/BITS_PER_INT)*H_INT_SIZE,
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 05d3e65..87888ea 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -314,7 +314,6 @@
 /*									*/
 /*----------------------------------------------------------------------*/
 
-#define Sscanf (void)sscanf
 #define Sprintf (void)sprintf
 #define Malloc(x) malloc((unsigned)(x))
 #define Realloc(a,b) ((a)==NULL?malloc((unsigned)(b)):realloc((a),(unsigned)(b)))
@@ -1181,7 +1180,8 @@ private void uv_override(UV *uv)
   tno = uv->tno;
   haccess_c(uv->tno,&item,".","read",&iostat);
   CHECK(iostat,(message,"Error opening directory listing, in UVOPEN(override)"));
-  while(hreada_c(item,varname,MAXLINE,&iostat),iostat==0){
+  varname[MAXLINE-1] = 0;
+  while(hreada_c(item,varname,MAXLINE-1,&iostat),iostat==0){
     v = uv_locvar(tno,varname);
     if(v != NULL){
       hdprobe_c(tno,varname,descr,MAXLINE,vartype,&n);
@@ -1228,14 +1228,16 @@ private void uv_vartable_in(UV *uv)
 ------------------------------------------------------------------------*/
 {
   int item;
-  char line[MAXLINE],name[MAXNAM+1],ctype;
+  char line[MAXLINE],name[MAXLINE],ctype;
   int iostat,type = 0;
 
   haccess_c(uv->tno,&item,"vartable","read",&iostat);
   CHECK(iostat,(message,"Error opening vartable, in UVOPEN(vartable_in)"));
 
-  while(hreada_c(item,line,(int)sizeof(line),&iostat),!iostat){
-    Sscanf(line,"%c %s",&ctype,name);
+  line[MAXLINE-1] = 0;
+  while(hreada_c(item,line,MAXLINE-1,&iostat),!iostat){
+    if(sscanf(line,"%c %s",&ctype,name) != 2)
+      ERROR('f',(message,"Bad entry in vartable: %s",line));
     switch(ctype){
       case 'a': type = H_BYTE;	break;
       case 'j': type = H_INT2;	break;
@@ -1272,6 +1274,8 @@ private VARIABLE *uv_mkvar(int tno,char *name,int type)
 /* We are going to have to create it. */
 
   uv = uvs[tno];
+  if(uv->nvar >= MAXVAR)
+    ERROR('f',(message,"Too many variables (%d) to add %s, in UVPUTVR",MAXVAR,name));
   n = uv->nvar++;
   v = &uv->variable[n];
   Strcpy(v->name,name);
@@ -1918,7 +1922,9 @@ private int uv_scan(UV *uv, VARIABLE *vt)
 
     changed = FALSE;
     if(*(s+2) != VAR_EOR){
-      v = &uv->variable[(int) *s];       /*  warning: array subscript has type `char' */
+      if((unsigned char)*s >= uv->nvar)
+	ERROR('f',(message,"Unknown variable number %d, when scanning",(unsigned char)*s));
+      v = &uv->variable[(unsigned char)*s];
       intsize = internal_size[v->type];
       extsize = external_size[v->type];
     }
@@ -1929,7 +1935,7 @@ private int uv_scan(UV *uv, VARIABLE *vt)
      case VAR_SIZE:
       hreadi_c(uv->item,&v->flength,offset+UV_HDR_SIZE,H_INT_SIZE,&iostat);
       CHECK(iostat,(message,"Error reading a variable-length for %s, while UV scanning",v->name));
-      if(v->flength <= 0)
+      if(v->flength <= 0 || v->flength > uv->max_offset)
 	ERROR('f',(message,"Variable %s has length of %d, when scanning",
 			v->name,v->flength));
       if(v->flength % extsize)
@@ -1937,7 +1943,7 @@ private int uv_scan(UV *uv, VARIABLE *vt)
 	  "Non-integral no. elements in variable %s, when scanning",v->name));
       if(!(v->flags & UVF_OVERRIDE) || v->type != H_BYTE){
         v->length = v->flength;
-        v->buf = Realloc( v->buf, (v->flength * intsize)/extsize );
+        v->buf = Realloc( v->buf, (v->flength/extsize) * (size_t)intsize );
         if(v->flags & UVF_OVERRIDE && v->flength > extsize)
           for(i=1, b = v->buf + intsize; i < v->flength/extsize; i++,b += intsize)
 	    memcpy(b,v->buf,intsize);
@@ -1950,6 +1956,8 @@ private int uv_scan(UV *uv, VARIABLE *vt)
    of this variable, read it. */
      case VAR_DATA:
       offset += mroundup(UV_HDR_SIZE,extsize);
+      if(v->flength <= 0)
+	ERROR('f',(message,"Variable %s has no length, when scanning",v->name));
       if(!(v->flags & UVF_OVERRIDE)){
 	hread_c(uv->item,v->type,v->buf,offset,v->flength,&iostat);
 	CHECK(iostat,(message,"Error reading a variable value for %s, while UV scanning",v->name));
@@ -2936,6 +2944,8 @@ private void uvread_preamble(UV *uv, double *preamble)
     if(v == NULL){
       *preamble++ = 0;
     } else if(v == uv->coord){
+      if(VARLEN(uv->coord) < 2)
+	BUG('f',"Variable coord has less than 2 elements, in UVREAD");
       coord = (double *)(uv->coord->buf);
       uu = coord[0];
       vv = coord[1];
-- 
2.43.0


From 2d7371d6c24d7529913e2e28a5bbdb2c520b34f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 009/146] fix: variables of a UV file being written went stale
 after a few changes, so that copyvr() followed by write() left out changed
 times, baselines and coordinates

---
 aipy/_miriad/mir/uvio.c | 54 +++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 35 deletions(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 87888ea..8cfbaad 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1769,7 +1769,7 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     hwritei_c(uv->item,&v->length,uv->offset+UV_HDR_SIZE,H_INT_SIZE,&iostat);
     CHECK(iostat,(message,"Error writing variable-length for %s, in UVPUTVR",var));
     uv->offset += UV_ALIGN;
-    if( !(v->flags & UVF_NOCHECK) )
+    if( v != uv->corr && v != uv->wcorr )
       v->buf = Realloc(v->buf,n*internal_size[type]);
   }
 
@@ -1797,12 +1797,15 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     hwrite_c(uv->item,type,data,uv->offset,v->length,&iostat);
     CHECK(iostat,(message,"Error writing variable-value for %s, in UVPUTVR",var));
     uv->offset = mroundup( uv->offset+v->length, UV_ALIGN);
-    if(v->callno++ > CHECK_THRESH) {
-      v->flags |= UVF_NOCHECK;
-    } else if(!(v->flags & UVF_NOCHECK)){
+    if(v->callno++ > CHECK_THRESH) v->flags |= UVF_NOCHECK;
+
+/* Remember the value, which can be read back. The correlations are not
+   remembered (and v->buf is used to scale them). */
+
+    if( v != uv->corr && v != uv->wcorr && data != v->buf ){
       length = internal_size[type] * n;
       memcpy(v->buf,data,length);
-    } 
+    }
   } else {
     v->callno = 0;
   }
@@ -2062,29 +2065,16 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
     if( uv->coord == NULL ){
       uv->coord = uv_mkvar(tno,"coord",H_DBLE);
       uv->coord->flags |= UVF_NOCHECK;
-      if(uv->coord->buf == NULL){
-        uv->coord->buf = Malloc(3*sizeof(double));
-        d = (double *)(uv->coord->buf);
-        *d = *(preamble) + 1000;
-      }
     }
 
     if( uv->time == NULL ){
       uv->time = uv_mkvar(tno,"time",H_DBLE);
       uv->time->flags |= UVF_NOCHECK;
-      if(uv->time->buf == NULL){
-	uv->time->buf = Malloc(sizeof(double));
-	*(double *)(uv->time->buf) = *(preamble+2) + 1000;
-      }
     }
 
     if( uv->bl == NULL ){
       uv->bl = uv_mkvar(tno,"baseline",H_REAL);
       uv->bl->flags |= UVF_NOCHECK;
-      if(uv->bl->buf == NULL){
-	uv->bl->buf = Malloc(sizeof(float));
-	*(float *)(uv->bl->buf) = *(preamble + 3) + 1000;
-      }
     }
   }
 
@@ -2140,33 +2130,27 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
     uvputvrj_c(tno,v->name,(int *)v->buf,2*n);
   }
 
-/* Write out the preamble. */
+/* Write out the preamble, where it differs from the current values (which
+   uvputvr keeps, and other than uvwrite may have changed). */
 
-  d = (double *)(uv->coord->buf);
   nuvw = (uv->flags & UVF_DOW ? 3 : 2);
-  if( *d != *preamble || *(d+1) != *(preamble+1) || 
-      ( nuvw == 3 && *(d+2) != *(preamble+2) ) ){
+  d = (double *)(uv->coord->buf);
+  if( uv->coord->length != nuvw*H_DBLE_SIZE ||
+      *d != *preamble || *(d+1) != *(preamble+1) || 
+      ( nuvw == 3 && *(d+2) != *(preamble+2) ) )
     uvputvrd_c(tno,"coord",preamble,nuvw);
-    *d = *preamble;
-    *(d+1) = *(preamble+1);
-    if(nuvw == 3) *(d+2) = *(preamble+2);
-  }
   preamble += nuvw;
 
   dtemp = *preamble++;
-  if( dtemp != *(double *)(uv->time->buf) ){
+  if( uv->time->length != H_DBLE_SIZE || dtemp != *(double *)(uv->time->buf) )
     uvputvrd_c(tno,"time",&dtemp,1);
-    *(double *)(uv->time->buf) = dtemp;
-  }
 
   temp = *preamble++;
-  if( temp != *(float *)(uv->bl->buf) ){
-    itemp = temp;
-    uvbasant_c(itemp,&i1,&i2);
-    uv->flags |= ( i1 == i2 ? UVF_AUTO : UVF_CROSS);
+  itemp = temp;
+  uvbasant_c(itemp,&i1,&i2);
+  uv->flags |= ( i1 == i2 ? UVF_AUTO : UVF_CROSS);
+  if( uv->bl->length != H_REAL_SIZE || temp != *(float *)(uv->bl->buf) )
     uvputvrr_c(tno,"baseline",&temp,1);
-    *(float *)(uv->bl->buf) = temp;
-  }
 
 /* Write an end-of-record marker. */
 
-- 
2.43.0


From 9c0ecc716e309c68d20d9d48a3ad09b910d2cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 010/146] fix: UV strings: non-ASCII text lost bytes or used
 freed memory, and values came back with their terminator or type tag

---
 aipy/_common/aipy_compat.h   | 22 +++++++++-------------
 aipy/_miriad/miriad_wrap.cpp | 12 ++++++------
 aipy/miriad.py               |  9 +++++----
 3 files changed, 20 insertions(+), 23 deletions(-)

diff --git a/aipy/_common/aipy_compat.h b/aipy/_common/aipy_compat.h
index 20300da..0196cac 100644
--- a/aipy/_common/aipy_compat.h
+++ b/aipy/_common/aipy_compat.h
@@ -10,24 +10,20 @@
 # define PyInt_Check PyLong_Check
 # define PyString_FromString PyUnicode_FromString
 # define PyString_Check PyUnicode_Check
-# define PyString_Size PyUnicode_GET_LENGTH
 # define PyString_FromStringAndSize PyUnicode_FromStringAndSize
 
-static char *
+/* The UTF-8 form is kept by the string object; its size is in bytes. */
+static inline char *
 PyString_AsString(PyObject *ob)
 {
-    PyObject *enc;
-    char *cstr;
-
-    enc = PyUnicode_AsEncodedString(ob, "utf-8", "Error");
-    if (enc == NULL) {
-        PyErr_Format(PyExc_ValueError, "Cannot encode string");
-        return NULL;
-    }
+    return (char *) PyUnicode_AsUTF8(ob);
+}
 
-    cstr = PyBytes_AsString(enc);
-    Py_XDECREF(enc);
-    return cstr;
+static inline Py_ssize_t
+PyString_Size(PyObject *ob)
+{
+    Py_ssize_t n;
+    return PyUnicode_AsUTF8AndSize(ob, &n) == NULL ? -1 : n;
 }
 #endif
 
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index a3e7647..7eb138d 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -240,7 +240,7 @@ PyObject * UVObject_trackvr(UVObject *self, PyObject *args) {
  * output of uvgetvr_c into various python structures, and returns
  * arrays as numpy arrays. */
 PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
-    char *name, *type, value[MAXVAR];
+    char *name, *type, value[MAXVAR+1];
     int length, updated;
     npy_intp dims[1];
     PyArrayObject *rv;
@@ -287,6 +287,8 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         switch (type[0]) {
             case 'a':
                 uvgetvr_c(self->tno,H_BYTE,name,value,length+1);
+                // wrvr stores the terminating NULL, which is not part of the value
+                while (length > 0 && value[length-1] == '\0') length--;
                 return PyString_FromStringAndSize(value, length);
             case 'j':
                 uvgetvr_c(self->tno,H_INT2,name,value,length);
@@ -348,6 +350,7 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(wr_val);
                 st = PyString_AsString(wr_val);
+                if (st == NULL) return NULL;
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
@@ -523,6 +526,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
             case 'a':
                 CHK_STRING(val);
                 st = PyString_AsString(val);
+                if (st == NULL) return NULL;
                 in = PyString_Size(val); // # bytes to write
                 hwriteb_c(item_hdl, st, offset, in, &iostat);
                 CHK_IO(iostat);
@@ -596,11 +600,7 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
             case 'a':
                 hreadb_c(item_hdl, st, offset, H_BYTE_SIZE, &iostat);
                 CHK_IO(iostat);
-#if PY_MAJOR_VERSION >= 3
-                return Py_BuildValue("yi", st, H_BYTE_SIZE);
-#else
-                return Py_BuildValue("si", st, H_BYTE_SIZE);
-#endif
+                return Py_BuildValue("Ni", PyBytes_FromStringAndSize(st, H_BYTE_SIZE), H_BYTE_SIZE);
             case 'i':
                 hreadi_c(item_hdl, &in, offset, H_INT_SIZE, &iostat);
                 CHK_IO(iostat);
diff --git a/aipy/miriad.py b/aipy/miriad.py
index 671f5fb..1f10565 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -119,12 +119,13 @@ class UV(_miriad.UV):
             while True:
                 try: c, o = _miriad.hread(h, offset, itype)
                 except(IOError): break
-                if itype == 'a':
-                    try: c = str(c[:o], 'utf-8')
-                    except(TypeError): c = c[:o]
                 rv.append(c)
                 offset += o
-            if itype == 'a': rv = ''.join(rv)
+            if itype == 'a':
+                rv = b''.join(rv)
+                # Text written by Miriad itself starts with a type tag
+                if rv.startswith(b'\0\0\0\1'): rv = rv[4:]
+                if str is not bytes: rv = rv.decode('utf-8')
         else:
             t, offset = _miriad.hread_init(h); assert(t == 'b')
             for t in itype:
-- 
2.43.0


From abbdebe6716b893041d35e3aa170f3608559db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:08 +0000
Subject: [PATCH 011/146] fix: UV variables: integer, complex and strided
 arrays were stored from memory of the wrong layout, and integers out of range
 were cut short

---
 aipy/_miriad/miriad_wrap.cpp | 150 ++++++++++++++++++++++++-----------
 1 file changed, 102 insertions(+), 48 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 7eb138d..eb7aad4 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -249,15 +249,19 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     if (!PyArg_ParseTuple(args, "ss", &name, &type))
         return NULL;
 
-
-    uvprobvr_c(self->tno, name, value, &length, &updated);
+    try {
+        uvprobvr_c(self->tno, name, value, &length, &updated);
+    } catch (MiriadError &e) {
+        PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
+        return NULL;
+    }
 
     switch (type[0]) {
     case 'a':
         elem_size = 1;
         break;
     case 'j':
-        elem_size = 2;
+        elem_size = 4;
         break;
     case 'i':
         elem_size = 4;
@@ -276,7 +280,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
         return NULL;
     }
 
-    if (length * elem_size > MAXVAR) {
+    if (length > MAXVAR / elem_size) {
         PyErr_Format(PyExc_ValueError, "UV variable \"%s\" too big for aipy's "
                      "internal buffers", name);
         return NULL;
@@ -290,30 +294,23 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
                 // wrvr stores the terminating NULL, which is not part of the value
                 while (length > 0 && value[length-1] == '\0') length--;
                 return PyString_FromStringAndSize(value, length);
-            case 'j':
-                uvgetvr_c(self->tno,H_INT2,name,value,length);
-                if (length == 1)
-                    return PyInt_FromLong((long) ((short *)value)[0]);
-                rv = (PyArrayObject *) PyArray_SimpleNew(1, dims, NPY_INT);
-                CHK_NULL(rv);
-                for (int i=0; i < length; i++)
-                    IND1(rv,i,int) = ((short *)value)[i];
-                return PyArray_Return(rv);
+            case 'j': // 16 bits wide in the file only
+                RET_IA(H_INT2,PyInt_FromLong,long,int,NPY_INT);
             case 'i':
                 RET_IA(H_INT,PyInt_FromLong,long,int,NPY_INT);
             case 'r':
                 RET_IA(H_REAL,PyFloat_FromDouble,double,float,NPY_FLOAT);
             case 'd':
                 RET_IA(H_DBLE,PyFloat_FromDouble,double,double,NPY_DOUBLE);
-            case 'c':
-                if (length == 1) {
-                    uvgetvr_c(self->tno,H_CMPLX,name,value,length);
-                    return PyComplex_FromDoubles(((double *)value)[0],
-                                                 ((double *)value)[1]);
-                }
+            case 'c': // A MIRIAD complex is a pair of floats
+                uvgetvr_c(self->tno,H_CMPLX,name,value,length);
+                if (length == 1)
+                    return PyComplex_FromDoubles(((float *)value)[0],
+                                                 ((float *)value)[1]);
                 rv = (PyArrayObject *) PyArray_SimpleNew(1,dims,NPY_CDOUBLE);
                 CHK_NULL(rv);
-                uvgetvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(rv),length);
+                for (int k=0; k < 2*length; k++)
+                    ((double *)PyArray_DATA(rv))[k] = ((float *)value)[k];
                 return PyArray_Return(rv);
             default:
                 return NULL; /* can't happen with previous switch */
@@ -324,19 +321,72 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     }
 }
 
-#define STORE_IA(npy_type,htype,chk_type,type,pyconverter) \
-    if (PyArray_Check(wr_val)) { \
+// Convert an integer (or anything with __index__) that must lie within [lo,hi]
+static int as_int(PyObject *val, long lo, long hi, int *out) {
+    if (!PyInt_Check(val) && !PyIndex_Check(val)) {
+        PyErr_Format(PyExc_ValueError, "expected an int");
+        return -1;
+    }
+    long v;
+    PyObject *ix = PyNumber_Index(val);
+    if (ix == NULL) return -1;
+    v = PyInt_AsLong(ix);
+    Py_DECREF(ix);
+    if ((v == -1 && PyErr_Occurred()) || v < lo || v > hi) {
+        PyErr_Clear();
+        PyErr_Format(PyExc_ValueError, "integer does not fit in its MIRIAD type");
+        return -1;
+    }
+    *out = (int) v;
+    return 0;
+}
+
+// A contiguous copy (or a reference) of an array with elements of another type
+#define AS_CARRAY(a,npy_type) \
+    ((PyArrayObject *) PyArray_FROM_OTF((PyObject *)(a), npy_type, \
+        NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED | NPY_ARRAY_FORCECAST))
+
+// Release an array at the end of a scope, also when MIRIAD throws an error
+struct ArrayRef {
+    PyArrayObject *a;
+    ArrayRef(PyArrayObject *p) : a(p) {}
+    ~ArrayRef() { Py_XDECREF((PyObject *)a); }
+};
+
+// Write an array or a single float
+#define STORE_FA(npy_type,htype,type) \
+    if (wr_arr != NULL) { \
         CHK_ARRAY_TYPE(wr_arr,npy_type); \
-        uvputvr_c(self->tno,htype,name,(char *) PyArray_DATA(wr_arr),DIM(wr_arr,0)); \
+        ArrayRef ref(AS_CARRAY(wr_arr,npy_type)); \
+        if (ref.a == NULL) return NULL; \
+        uvputvr_c(self->tno,htype,name,(char *)PyArray_DATA(ref.a),DIM(ref.a,0)); \
+    } else { \
+        CHK_FLOAT(wr_val); \
+        type val = (type) PyFloat_AsDouble(wr_val); \
+        uvputvr_c(self->tno,htype,name,(char *)&val,1); }
+
+// Write an array or a single integer, which MIRIAD takes as int for both types
+#define STORE_IA(htype,lo,hi) \
+    if (wr_arr != NULL) { \
+        if (!PyArray_ISINTEGER(wr_arr)) { \
+            PyErr_Format(PyExc_ValueError, "expected an array of integers"); \
+            return NULL; } \
+        ArrayRef arr(AS_CARRAY(wr_arr,NPY_LONGLONG)), out(AS_CARRAY(wr_arr,NPY_INT)); \
+        if (arr.a == NULL || out.a == NULL) return NULL; \
+        for (npy_intp k=0; k < DIM(arr.a,0); k++) { \
+            if (IND1(arr.a,k,npy_longlong) < lo || IND1(arr.a,k,npy_longlong) > hi) { \
+                PyErr_Format(PyExc_ValueError, "integer does not fit in its MIRIAD type"); \
+                return NULL; } } \
+        uvputvr_c(self->tno,htype,name,(char *)PyArray_DATA(out.a),DIM(out.a,0)); \
     } else { \
-        chk_type(wr_val); \
-        ((type *)value)[0] = (type) pyconverter(wr_val); \
-        uvputvr_c(self->tno,htype,name,value,1); }
+        int val; \
+        if (as_int(wr_val,lo,hi,&val) != 0) return NULL; \
+        uvputvr_c(self->tno,htype,name,(char *)&val,1); }
 
 /* wrvr is the complement of rdvr that uses uvputvr_c to write variables of
  * various types.  Accepts numpy arrays for writing. */
 PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
-    char *name, *type, value[MAXVAR];
+    char *name, *type;
     char *st;
     PyObject *wr_val;
     PyArrayObject *wr_arr=NULL;
@@ -354,27 +404,32 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
                 uvputvr_c(self->tno,H_BYTE,name, st, PyString_Size(wr_val)+1);
                 break;
             case 'j':
-                STORE_IA(NPY_LONG,H_INT2,CHK_INT,short,PyInt_AsLong);
+                STORE_IA(H_INT2,-32768L,32767L);
                 break;
             case 'i':
-                STORE_IA(NPY_LONG,H_INT,CHK_INT,int,PyInt_AsLong);
+                STORE_IA(H_INT,-2147483648L,2147483647L);
                 break;
             case 'r':
-                STORE_IA(NPY_FLOAT,H_REAL,CHK_FLOAT,float,PyFloat_AsDouble);
+                STORE_FA(NPY_FLOAT,H_REAL,float);
                 break;
             case 'd':
-                STORE_IA(NPY_DOUBLE,H_DBLE,CHK_FLOAT,double,PyFloat_AsDouble);
+                STORE_FA(NPY_DOUBLE,H_DBLE,double);
                 break;
-            case 'c':
-                if (PyArray_Check(wr_val)) {
-                    CHK_ARRAY_TYPE(wr_arr,NPY_CDOUBLE);
-                    uvputvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(wr_arr),
-                        DIM(wr_arr,0));
+            case 'c': // A MIRIAD complex is a pair of floats
+                if (wr_arr != NULL) {
+                    if (TYPE(wr_arr) != NPY_CDOUBLE && TYPE(wr_arr) != NPY_CFLOAT) {
+                        PyErr_Format(PyExc_ValueError, "expected a complex array");
+                        return NULL;
+                    }
+                    ArrayRef ref(AS_CARRAY(wr_arr,NPY_CFLOAT));
+                    if (ref.a == NULL) return NULL;
+                    uvputvr_c(self->tno,H_CMPLX,name,(char *)PyArray_DATA(ref.a),DIM(ref.a,0));
                 } else {
                     CHK_COMPLEX(wr_val);
-                    ((double *)value)[0] = PyComplex_RealAsDouble(wr_val);
-                    ((double *)value)[1] = PyComplex_ImagAsDouble(wr_val);
-                    uvputvr_c(self->tno,H_CMPLX,name,value,1);
+                    float val[2];
+                    val[0] = (float) PyComplex_RealAsDouble(wr_val);
+                    val[1] = (float) PyComplex_ImagAsDouble(wr_val);
+                    uvputvr_c(self->tno,H_CMPLX,name,(char *)val,1);
                 }
                 break;
             default:
@@ -518,7 +573,7 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
     int item_hdl, offset, iostat;
     char *type;
     PyObject *val;
-    int in; short sh; long lg; float fl; double db; float cx[2]; char *st;
+    int in; long lg; float fl; double db; float cx[2]; char *st;
     if (!PyArg_ParseTuple(args, "iiOs", &item_hdl, &offset, &val, &type))
         return NULL;
     try {
@@ -533,22 +588,21 @@ PyObject * WRAP_hwrite(PyObject *self, PyObject *args) {
                 offset = H_BYTE_SIZE * in;
                 break;
             case 'i':
-                CHK_INT(val);
-                in = (int) PyInt_AsLong(val);
+                if (as_int(val, -2147483648L, 2147483647L, &in) != 0) return NULL;
                 hwritei_c(item_hdl, &in, offset, H_INT_SIZE, &iostat);
                 CHK_IO(iostat);
                 offset = H_INT_SIZE;
                 break;
             case 'j':
-                CHK_INT(val);
-                sh = (short) PyInt_AsLong(val);
-                hwritej_c(item_hdl, &sh, offset, H_INT2_SIZE, &iostat);
+                if (as_int(val, -32768L, 32767L, &in) != 0) return NULL;
+                hwritej_c(item_hdl, &in, offset, H_INT2_SIZE, &iostat);
                 CHK_IO(iostat);
                 offset = H_INT2_SIZE;
                 break;
             case 'l':
                 CHK_LONG(val);
                 lg = PyLong_AsLong(val);
+                if (lg == -1 && PyErr_Occurred()) return NULL;
                 hwritel_c(item_hdl, &lg, offset, H_INT8_SIZE, &iostat);
                 CHK_IO(iostat);
                 offset = H_INT8_SIZE;
@@ -592,7 +646,7 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
     int item_hdl, offset, iostat;
     char *type;
     PyObject *val, *rv;
-    int in; short sh; long lg; float fl; double db; float cx[2]; char st[2];
+    int in; long lg; float fl; double db; float cx[2]; char st[2];
     if (!PyArg_ParseTuple(args, "iis", &item_hdl, &offset, &type))
         return NULL;
     try {
@@ -606,9 +660,9 @@ PyObject * WRAP_hread(PyObject *self, PyObject *args) {
                 CHK_IO(iostat);
                 return Py_BuildValue("ii", in, H_INT_SIZE);
             case 'j':
-                hreadj_c(item_hdl, &sh, offset, H_INT2_SIZE, &iostat);
+                hreadj_c(item_hdl, &in, offset, H_INT2_SIZE, &iostat);
                 CHK_IO(iostat);
-                return Py_BuildValue("ii", sh, H_INT2_SIZE);
+                return Py_BuildValue("ii", in, H_INT2_SIZE);
             case 'l':
                 hreadl_c(item_hdl, &lg, offset, H_INT8_SIZE, &iostat);
                 CHK_IO(iostat);
-- 
2.43.0


From 9b0739a50bfa9d2969147fdfcaf2b80a5bd62423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 012/146] fix: UV.read returned garbage past the end of short
 records; UV.write failed on data without a mask array; read_files on a single
 name

---
 aipy/miriad.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index 1f10565..b175e46 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -129,7 +129,7 @@ class UV(_miriad.UV):
         else:
             t, offset = _miriad.hread_init(h); assert(t == 'b')
             for t in itype:
-                v, o = _miread.hread(h, offset, t)
+                v, o = _miriad.hread(h, offset, t)
                 rv.append(v); offset += o
         _miriad.hdaccess(h)
         if len(rv) == 1: return rv[0]
@@ -221,7 +221,8 @@ class UV(_miriad.UV):
         'raw' causes data and flags to be returned seperately."""
         preamble, data, flags, nread = self.raw_read(self.nchan)
         if nread == 0: raise IOError("No data read")
-        flags = np.logical_not(flags)
+        # Records may be shorter than nchan
+        data, flags = data[:nread], np.logical_not(flags[:nread])
         if raw: return preamble, data, flags
         return preamble, np.ma.array(data, mask=flags)
     def all(self, raw=False):
@@ -238,8 +239,8 @@ class UV(_miriad.UV):
         if data is None: return
         if not flags is None: flags = np.logical_not(flags)
         elif len(data.mask.shape) == 0:
-            flags = np.ones(data.shape)
-            data = data.unmask()
+            flags = np.logical_not(np.resize(data.mask, data.shape))
+            data = data.data
         else:
             flags = np.logical_not(data.mask)
             #data = data.filled(0)
@@ -326,7 +327,7 @@ def read_files(filenames, antstr, polstr, decimate=1, decphs=0, verbose=False, r
     from . import scripting, cal
     info = {'lsts':[], 'times':[]}
     data, flgs = {}, {}
-    if type(filenames) == 'str': filenames = [filenames]
+    if isinstance(filenames, str): filenames = [filenames]
     for filename in filenames:
         if verbose: print('   Reading', filename)
         uv = UV(filename)
-- 
2.43.0


From 11daed965e3e90ebff87f21f07205d7b6db674be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:06 +0000
Subject: [PATCH 013/146] fix: UV raw_read/raw_write/select: non-contiguous and
 wrongly typed arrays, antenna numbers with no baseline code, decimation by
 zero and unopened files were not rejected

---
 aipy/_miriad/miriad_wrap.cpp | 130 +++++++++++++++++++++--------------
 aipy/_miriad/miriad_wrap.h   |   3 +
 2 files changed, 82 insertions(+), 51 deletions(-)

diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index eb7aad4..2993f68 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -88,6 +88,43 @@ static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
     return 0;
 }
 
+// Convert an integer (or anything with __index__) that must lie within [lo,hi]
+static int as_int(PyObject *val, long lo, long hi, int *out) {
+    if (!PyInt_Check(val) && !PyIndex_Check(val)) {
+        PyErr_Format(PyExc_ValueError, "expected an int");
+        return -1;
+    }
+    long v;
+    PyObject *ix = PyNumber_Index(val);
+    if (ix == NULL) return -1;
+    v = PyInt_AsLong(ix);
+    Py_DECREF(ix);
+    if ((v == -1 && PyErr_Occurred()) || v < lo || v > hi) {
+        PyErr_Clear();
+        PyErr_Format(PyExc_ValueError, "integer does not fit in its MIRIAD type");
+        return -1;
+    }
+    *out = (int) v;
+    return 0;
+}
+
+// A contiguous copy (or a reference) of an array with elements of another type
+#define AS_CARRAY(a,npy_type) \
+    ((PyArrayObject *) PyArray_FROM_OTF((PyObject *)(a), npy_type, \
+        NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED | NPY_ARRAY_FORCECAST))
+
+// Release an array at the end of a scope, also when MIRIAD throws an error
+struct ArrayRef {
+    PyArrayObject *a;
+    ArrayRef(PyArrayObject *p) : a(p) {}
+    ~ArrayRef() { Py_XDECREF((PyObject *)a); }
+};
+
+#define CHK_OPEN(uv) \
+    if ((uv)->tno == -1) { \
+        PyErr_Format(PyExc_RuntimeError, "UV file is not open"); \
+        return NULL; }
+
 /* ___  _     _           _     __  __      _   _               _
   / _ \| |__ (_) ___  ___| |_  |  \/  | ___| |_| |__   ___   __| |___
  | | | | '_ \| |/ _ \/ __| __| | |\/| |/ _ \ __| '_ \ / _ \ / _` / __|
@@ -98,7 +135,13 @@ static int UVObject_init(UVObject *self, PyObject *args, PyObject *kwds) {
 
 // Thin wrapper over uvrewind_c
 PyObject * UVObject_rewind(UVObject *self) {
-    uvrewind_c(self->tno);
+    CHK_OPEN(self);
+    try {
+        uvrewind_c(self->tno);
+    } catch (MiriadError &e) {
+        PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
+        return NULL;
+    }
     self->intcnt = -1;
     self->curtime = -1;
     Py_INCREF(Py_None);
@@ -110,16 +153,19 @@ PyObject * UVObject_rewind(UVObject *self) {
  */
 PyObject * UVObject_read(UVObject *self, PyObject *args) {
     PyArrayObject *data, *flags, *uvw;
-    PyObject *rv;
     int nread, n2read, i, j;
-    double preamble[PREAMBLE_SIZE];
+    double preamble[PREAMBLE_SIZE] = {0};
     if (!PyArg_ParseTuple(args, "i", &n2read)) return NULL;
+    CHK_OPEN(self);
     // Make numpy arrays to hold the results
-    npy_intp data_dims[1] = {n2read};
+    npy_intp data_dims[1] = {n2read}, uvw_dims[1] = {3};
     data = (PyArrayObject *) PyArray_SimpleNew(1, data_dims, NPY_CFLOAT);
-    CHK_NULL(data);
+    ArrayRef data_ref(data);
     flags = (PyArrayObject *) PyArray_SimpleNew(1, data_dims, NPY_INT);
-    CHK_NULL(flags);
+    ArrayRef flags_ref(flags);
+    uvw = (PyArrayObject *) PyArray_SimpleNew(1, uvw_dims, NPY_DOUBLE);
+    ArrayRef uvw_ref(uvw);
+    if (data == NULL || flags == NULL || uvw == NULL) return NULL;
     while (1) {
         // Here is the MIRIAD call
         try {
@@ -138,20 +184,14 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
         }
     }
     // Now we build a return value of ((uvw,t,(i,j)), data, flags, nread)
-    npy_intp uvw_dims[1] = {3};
-    uvw = (PyArrayObject *) PyArray_SimpleNew(1, uvw_dims, NPY_DOUBLE);
-    CHK_NULL(uvw);
     IND1(uvw,0,double) = preamble[0];
     IND1(uvw,1,double) = preamble[1];
     IND1(uvw,2,double) = preamble[2];
     i = GETI(preamble[4]);
     j = GETJ(preamble[4]);
-    rv = Py_BuildValue("((Od(ii))OOi)",
+    return Py_BuildValue("((Od(ii))OOi)",
         (PyObject *)uvw, preamble[3], i, j,
         (PyObject *)data, (PyObject *)flags, nread);
-    CHK_NULL(rv);
-    Py_DECREF(uvw); Py_DECREF(data); Py_DECREF(flags);
-    return rv;
 }
 
 /* Wrapper over uvwrite_c to deal with numpy arrays, conversion of baseline
@@ -177,20 +217,29 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
     CHK_ARRAY_TYPE(data, NPY_CFLOAT);
     // Check for both int,long, b/c label of 32b number is platform dependent
     if (TYPE(flags) != NPY_INT && \
-            (sizeof(int) == sizeof(long) && TYPE(flags) != NPY_LONG)) {
+            !(sizeof(int) == sizeof(long) && TYPE(flags) == NPY_LONG)) {
         PyErr_Format(PyExc_ValueError, "type(flags) != NPY_LONG or NPY_INT");
         return NULL;
     }
+    // The baseline code has no room for others
+    if (i < 0 || j < 0 || i > MAXBLANT || j > MAXBLANT) {
+        PyErr_Format(PyExc_ValueError, "antenna numbers must be between 0 and %d", MAXBLANT);
+        return NULL;
+    }
+    CHK_OPEN(self);
+    ArrayRef uvw_ref(AS_CARRAY(uvw,NPY_DOUBLE)), data_ref(AS_CARRAY(data,NPY_CFLOAT)),
+        flags_ref(AS_CARRAY(flags,NPY_INT));
+    if (uvw_ref.a == NULL || data_ref.a == NULL || flags_ref.a == NULL) return NULL;
     // Fill up the preamble
-    preamble[0] = IND1(uvw,0,double);
-    preamble[1] = IND1(uvw,1,double);
-    preamble[2] = IND1(uvw,2,double);
+    preamble[0] = IND1(uvw_ref.a,0,double);
+    preamble[1] = IND1(uvw_ref.a,1,double);
+    preamble[2] = IND1(uvw_ref.a,2,double);
     preamble[3] = t;
     preamble[4] = MKBL(i,j);
     // Here is the MIRIAD call
     try {
-        uvwrite_c(self->tno, preamble,
-            (float *)PyArray_DATA(data), (int *)PyArray_DATA(flags), DIM(data,0));
+        uvwrite_c(self->tno, preamble, (float *)PyArray_DATA(data_ref.a),
+            (int *)PyArray_DATA(flags_ref.a), DIM(data,0));
     } catch (MiriadError &e) {
         PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
         return NULL;
@@ -203,6 +252,7 @@ PyObject * UVObject_write(UVObject *self, PyObject *args) {
 PyObject * UVObject_copyvr(UVObject *self, PyObject *args) {
     UVObject *uv;
     if (!PyArg_ParseTuple(args, "O!", &UVType, &uv)) return NULL;
+    CHK_OPEN(self); CHK_OPEN(uv);
     try {
         uvcopyvr_c(uv->tno, self->tno);
     } catch (MiriadError &e) {
@@ -217,6 +267,7 @@ PyObject * UVObject_copyvr(UVObject *self, PyObject *args) {
 PyObject * UVObject_trackvr(UVObject *self, PyObject *args) {
     char *name, *sw;
     if (!PyArg_ParseTuple(args, "ss", &name, &sw)) return NULL;
+    CHK_OPEN(self);
     try {
         uvtrack_c(self->tno, name, sw);
     } catch (MiriadError &e) {
@@ -248,6 +299,7 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
 
     if (!PyArg_ParseTuple(args, "ss", &name, &type))
         return NULL;
+    CHK_OPEN(self);
 
     try {
         uvprobvr_c(self->tno, name, value, &length, &updated);
@@ -321,38 +373,6 @@ PyObject * UVObject_rdvr(UVObject *self, PyObject *args) {
     }
 }
 
-// Convert an integer (or anything with __index__) that must lie within [lo,hi]
-static int as_int(PyObject *val, long lo, long hi, int *out) {
-    if (!PyInt_Check(val) && !PyIndex_Check(val)) {
-        PyErr_Format(PyExc_ValueError, "expected an int");
-        return -1;
-    }
-    long v;
-    PyObject *ix = PyNumber_Index(val);
-    if (ix == NULL) return -1;
-    v = PyInt_AsLong(ix);
-    Py_DECREF(ix);
-    if ((v == -1 && PyErr_Occurred()) || v < lo || v > hi) {
-        PyErr_Clear();
-        PyErr_Format(PyExc_ValueError, "integer does not fit in its MIRIAD type");
-        return -1;
-    }
-    *out = (int) v;
-    return 0;
-}
-
-// A contiguous copy (or a reference) of an array with elements of another type
-#define AS_CARRAY(a,npy_type) \
-    ((PyArrayObject *) PyArray_FROM_OTF((PyObject *)(a), npy_type, \
-        NPY_ARRAY_CARRAY_RO | NPY_ARRAY_NOTSWAPPED | NPY_ARRAY_FORCECAST))
-
-// Release an array at the end of a scope, also when MIRIAD throws an error
-struct ArrayRef {
-    PyArrayObject *a;
-    ArrayRef(PyArrayObject *p) : a(p) {}
-    ~ArrayRef() { Py_XDECREF((PyObject *)a); }
-};
-
 // Write an array or a single float
 #define STORE_FA(npy_type,htype,type) \
     if (wr_arr != NULL) { \
@@ -391,6 +411,7 @@ PyObject * UVObject_wrvr(UVObject *self, PyObject *args) {
     PyObject *wr_val;
     PyArrayObject *wr_arr=NULL;
     if (!PyArg_ParseTuple(args, "ssO", &name, &type, &wr_val)) return NULL;
+    CHK_OPEN(self);
     if (PyArray_Check(wr_val)) {
         wr_arr = (PyArrayObject *) wr_val;
         CHK_ARRAY_RANK(wr_arr,1);
@@ -450,7 +471,12 @@ PyObject * UVObject_select(UVObject *self, PyObject *args) {
     double n1, n2;
     int include;
     if (!PyArg_ParseTuple(args, "sddi", &name, &n1, &n2, &include)) return NULL;
+    CHK_OPEN(self);
     if (strncmp(name,"decimation",5) == 0) {
+        if (!(n1 >= 1 && n1 < 1e9 && n2 > -1e9 && n2 < 1e9)) {
+            PyErr_Format(PyExc_ValueError, "decimation must be by 1 or more");
+            return NULL;
+        }
         self->decimate = (long) n1;
         self->decphase = (long) n2;
     } else {
@@ -470,6 +496,7 @@ PyObject * UVObject_haccess(UVObject *self, PyObject *args) {
     char *name, *mode;
     int item_hdl, iostat;
     if (!PyArg_ParseTuple(args, "ss", &name, &mode)) return NULL;
+    CHK_OPEN(self);
     try {
         haccess_c(self->tno, &item_hdl, name, mode, &iostat);
         CHK_IO(iostat);
@@ -486,6 +513,7 @@ PyObject * WRAP_hdaccess(UVObject *self, PyObject *args) {
     if (!PyArg_ParseTuple(args, "i", &item_hdl)) return NULL;
     try {
         hdaccess_c(item_hdl, &iostat);
+        CHK_IO(iostat);
         Py_INCREF(Py_None);
         return Py_None;
     } catch (MiriadError &e) {
diff --git a/aipy/_miriad/miriad_wrap.h b/aipy/_miriad/miriad_wrap.h
index bd2fc1d..851e58c 100644
--- a/aipy/_miriad/miriad_wrap.h
+++ b/aipy/_miriad/miriad_wrap.h
@@ -14,6 +14,9 @@
 #define GETJ(bl) ( (int) (bl) > 65536 ? (((int) bl-65536)%2048 - 1 ) : (((int) bl & 255) - 1) )
 #define MKBL(i,j) ( i+1 < 256 && j+1 < 256 ? ((float) (((i+1)<<8) | (j+1))) : ((float) (((i+1)*2048) + (j+1+65536))))
 
+// Largest antenna number that a baseline code can hold
+#define MAXBLANT 2046
+
 #define CHK_IO(i) \
     if (i != 0) { \
         PyErr_Format(PyExc_IOError, "IO failed"); \
-- 
2.43.0


From 8bd2902d117971a6e018d2fd5e494fdec1c992d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 014/146] fix: appending to a UV file with auto- and
 cross-correlations forgot one of them in obstype

---
 aipy/_miriad/mir/uvio.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 8cfbaad..00ea4bb 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -816,6 +816,7 @@ void uvopen_c(int *tno,Const char *name,Const char *status)
     rdhda_c(*tno,"obstype",line,"",MAXLINE);
     if(!strcmp(line,"autocorrelation"))		uv->flags |= UVF_AUTO;
     else if(!strcmp(line,"crosscorrelation"))	uv->flags |= UVF_CROSS;
+    else if(!strcmp(line,"mixed-auto-cross"))	uv->flags |= UVF_AUTO|UVF_CROSS;
     {
         int8 n;
         rdhdl_c(*tno,"ncorr",&n,-1);
-- 
2.43.0


From 956c0d0f53c9efe6e182b3771cf43729492a128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:17 +0000
Subject: [PATCH 015/146] fix: init_from_uv failed on variables that first
 appear in a later record

---
 aipy/miriad.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/miriad.py b/aipy/miriad.py
index b175e46..ffa13a7 100644
--- a/aipy/miriad.py
+++ b/aipy/miriad.py
@@ -266,8 +266,10 @@ class UV(_miriad.UV):
                 self._wrvr(k, uv.vartable[k], override[k])
             else:
                 self.vartable[k] = uv.vartable[k]
-                self._wrvr(k, uv.vartable[k], uv[k])
                 uv.trackvr(k, 'c') # Set to copy when copyvr() called
+                try: val = uv[k]
+                except(RuntimeError): continue # No value before a later record
+                self._wrvr(k, uv.vartable[k], val)
     def pipe(self, uv, mfunc=echo, append2hist='', raw=False):
         """Pipe in data from another UV through the function
         mfunc(uv,preamble,data), which should return (preamble,data).  If
-- 
2.43.0


From 739811eb8221a1b4c0310589ada79c78cca040f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:26 +0000
Subject: [PATCH 016/146] fix: UV selection: dazim/delev were ignored after
 other ranges, a cleared visibility range still ended the file, reversed
 baselines matched another pair, and decimated records kept their variable
 changes from copyvr

---
 aipy/_miriad/mir/miriad.h    |  2 ++
 aipy/_miriad/mir/uvio.c      | 70 ++++++++++++++++++++++++------------
 aipy/_miriad/miriad_wrap.cpp |  5 ++-
 3 files changed, 54 insertions(+), 23 deletions(-)

diff --git a/aipy/_miriad/mir/miriad.h b/aipy/_miriad/mir/miriad.h
index f6ff8d6..b8062e1 100644
--- a/aipy/_miriad/mir/miriad.h
+++ b/aipy/_miriad/mir/miriad.h
@@ -208,6 +208,8 @@ void uvflush_c  (int tno);
 void uvnext_c   (int tno);
 void uvrewind_c (int tno);
 void uvcopyvr_c (int tin, int tout);
+int  uvgetmark_c (int tno);
+void uvsetmark_c (int tno, int mark);
 int  uvupdate_c (int tno);
 void uvvarini_c (int tno, int *vhan);
 void uvvarset_c (int vhan, Const char *var);
diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 00ea4bb..4b0c262 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -394,27 +394,27 @@ typedef struct varhand{
 
 #include "maxdimc.h"
 
-#define SEL_VIS   1
-#define SEL_TIME  2
-#define SEL_UVN   3
-#define SEL_POINT 4
-#define SEL_DRA	  5
-#define SEL_DDEC  6
-#define SEL_INC	  7
-#define SEL_RA	  8
-#define SEL_DEC	  9
-#define SEL_POL  10
-#define SEL_ON   11
-#define SEL_SRC  12
-#define SEL_UV   13
-#define SEL_FREQ 14
-#define SEL_SHADOW 15
-#define SEL_BIN  16
-#define SEL_HA   17
-#define SEL_LST  18
-#define SEL_ELEV 19
-#define SEL_DAZIM 20
-#define SEL_DELEV 21
+#define SEL_VIS     1
+#define SEL_TIME    2
+#define SEL_UVN     3
+#define SEL_POINT   4
+#define SEL_DAZIM   5
+#define SEL_DELEV   6
+#define SEL_DRA     7
+#define SEL_DDEC    8
+#define SEL_INC     9
+#define SEL_RA     10
+#define SEL_DEC    11
+#define SEL_POL    12
+#define SEL_ON     13
+#define SEL_SRC    14
+#define SEL_UV     15
+#define SEL_FREQ   16
+#define SEL_SHADOW 17
+#define SEL_BIN    18
+#define SEL_HA     19
+#define SEL_LST    20
+#define SEL_ELEV   21
 
 typedef struct {
 	int type,discard;
@@ -1404,6 +1404,31 @@ void uvcopyvr_c(int tin,int tout)
   }
 }
 /************************************************************************/
+int uvgetmark_c(int tno)
+/*
+  Return the call number since which variables count as having changed.
+------------------------------------------------------------------------*/
+{
+  return uvs[tno]->mark;
+}
+/************************************************************************/
+void uvsetmark_c(int tno,int mark)
+/*
+  Make the variables which changed since an earlier call number (as from
+  uvgetmark_c) count as having changed, because the records between were
+  skipped.
+------------------------------------------------------------------------*/
+{
+  UV *uv;
+  VARIABLE *v;
+  int i;
+
+  uv = uvs[tno];
+  uv->mark = mark;
+  for(i=0, v = uv->variable; i < uv->nvar; i++, v++)
+    if(v->callno >= mark) uv->flags |= v->flags & (UVF_UPDATED | UVF_COPY);
+}
+/************************************************************************/
 int uvupdate_c(int tno)
 /**uvupdate -- Check whether any "important" variables have changed.	*/
 /*&rjs                                                                  */
@@ -3197,6 +3222,7 @@ private int uvread_select(UV *uv)
     if(sel->selants){
       bl = *((float *)(uv->bl->buf)) + 0.5;
       uvbasant_c(bl,&i1,&i2);
+      if(i1 > i2){ i = i1; i1 = i2; i2 = i; }
       if(i1 < 1 || i2 > MAXANT){
 	ERROR('w',(message,"Discarded data with bad antenna numbers when selecting: (%d,%d) baseline number is %d\n",i1,i2,bl));
 	discard = TRUE;
@@ -3962,7 +3988,7 @@ private void uvread_init(int tno)
     
 /* Determine the max visibility that the user is interested in. */
 
-  if(uv->select != NULL) uv->maxvis = uvread_maxvis(uv->select);
+  uv->maxvis = (uv->select != NULL ? uvread_maxvis(uv->select) : 0);
 
 }
 /************************************************************************/
diff --git a/aipy/_miriad/miriad_wrap.cpp b/aipy/_miriad/miriad_wrap.cpp
index 2993f68..69f0ee1 100644
--- a/aipy/_miriad/miriad_wrap.cpp
+++ b/aipy/_miriad/miriad_wrap.cpp
@@ -153,7 +153,7 @@ PyObject * UVObject_rewind(UVObject *self) {
  */
 PyObject * UVObject_read(UVObject *self, PyObject *args) {
     PyArrayObject *data, *flags, *uvw;
-    int nread, n2read, i, j;
+    int nread, n2read, i, j, mark=-1;
     double preamble[PREAMBLE_SIZE] = {0};
     if (!PyArg_ParseTuple(args, "i", &n2read)) return NULL;
     CHK_OPEN(self);
@@ -175,6 +175,7 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
             PyErr_Format(PyExc_RuntimeError, "%s", e.get_message());
             return NULL;
         }
+        if (mark == -1) mark = uvgetmark_c(self->tno);
         if (preamble[3] != self->curtime) {
             self->intcnt += 1;
             self->curtime = preamble[3];
@@ -183,6 +184,8 @@ PyObject * UVObject_read(UVObject *self, PyObject *args) {
             break;
         }
     }
+    // Changes in records decimated away are for copyvr to copy, too
+    uvsetmark_c(self->tno, mark);
     // Now we build a return value of ((uvw,t,(i,j)), data, flags, nread)
     IND1(uvw,0,double) = preamble[0];
     IND1(uvw,1,double) = preamble[1];
-- 
2.43.0


From 3bc6826d1c028fd271565c5360f7d575d4c06e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 017/146] fix: uv_selector ignored the polarisations when all
 antennas were selected

---
 aipy/scripting.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/aipy/scripting.py b/aipy/scripting.py
index 2143787..b8178ad 100644
--- a/aipy/scripting.py
+++ b/aipy/scripting.py
@@ -109,22 +109,23 @@ def uv_selector(uv, ants=-1, pol_str=-1):
     """Call uv.select with appropriate options based on string argument for
     antennas (can be 'all', 'auto', 'cross', '0,1,2', or '0_1,0_2') and
     string for polarization ('xx','yy','xy','yx')."""
-    if ants != -1:
-        if type(ants) == str: ants = parse_ants(ants, uv['nants'])
-        for cnt,(bl,include,pol) in enumerate(ants):
-            if cnt > 0:
-                if include: uv.select('or',-1,-1)
-                else: uv.select('and',-1,-1)
-            if pol == -1: pol = pol_str # default to explicit pol parameter
-            if bl == 'auto': uv.select('auto', 0, 0, include=include)
-            else:
-                i,j = miriad.bl2ij(bl)
-                uv.select('antennae', i, j, include=include)
-            if pol != -1:
-                for p in pol.split(','):
-                    polopt = miriad.str2pol[p]
-                    uv.select('polarization', polopt, 0)
-    elif pol_str != -1:
+    if type(ants) == str: ants = parse_ants(ants, uv['nants'])
+    elif ants == -1: ants = []
+    for cnt,(bl,include,pol) in enumerate(ants):
+        if cnt > 0:
+            if include: uv.select('or',-1,-1)
+            else: uv.select('and',-1,-1)
+        if pol == -1: pol = pol_str # default to explicit pol parameter
+        if bl == 'auto': uv.select('auto', 0, 0, include=include)
+        else:
+            i,j = miriad.bl2ij(bl)
+            uv.select('antennae', i, j, include=include)
+        if pol != -1:
+            for p in pol.split(','):
+                polopt = miriad.str2pol[p]
+                uv.select('polarization', polopt, 0)
+    # 'all' parses as an empty list
+    if len(ants) == 0 and pol_str != -1:
         for p in pol_str.split(','):
             polopt = miriad.str2pol[p]
             uv.select('polarization', polopt, 0)
-- 
2.43.0


From 7cfd736411f3055e4c4796ffce43433a011ebfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:51 +0000
Subject: [PATCH 018/146] fix: writing to a dataset opened for reading was not
 always reported, and changed what was then read from it

---
 aipy/_miriad/mir/uvio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index 4b0c262..c8442b9 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -1778,6 +1778,8 @@ void uvputvr_c(int tno,int type,Const char *var,Const char *data,int n)
     return;
   }
   uv = uvs[tno];
+  if(!(uv->flags & (UVF_NEW|UVF_APPEND)))
+    BUG('f',"The dataset is not open for writing, in UVPUTVR");
   v = uv_mkvar(tno,(char *)var,type);
   if(v->type != type)
     ERROR('f',(message,"Variable %s has changed type, in UVPUTVR",var));
@@ -2056,6 +2058,8 @@ void uvwrite_c(int tno,Const double *preamble,Const float *data,
   VARIABLE *v;
 
   uv = uvs[tno];
+  if(!(uv->flags & (UVF_NEW|UVF_APPEND)))
+    BUG('f',"The dataset is not open for writing, in UVWRITE");
 
 /* Initialise things if this is the first call to uvwrite. */
 
-- 
2.43.0


From 806ff079ba8bb10a6f57bc18a070f35f11ff7aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:56 +0000
Subject: [PATCH 019/146] fix: reading went on half initialised, and crashed,
 after a selection failed for want of a variable

---
 aipy/_miriad/mir/uvio.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/_miriad/mir/uvio.c b/aipy/_miriad/mir/uvio.c
index c8442b9..d356f64 100644
--- a/aipy/_miriad/mir/uvio.c
+++ b/aipy/_miriad/mir/uvio.c
@@ -3769,7 +3769,6 @@ private void uvread_init(int tno)
   int n_win,n_or;
 
   uv = uvs[tno];
-  uv->flags |= UVF_INIT;
 
 /* Open the flagging file, if it is needed. */
 
@@ -3994,6 +3993,9 @@ private void uvread_init(int tno)
 
   uv->maxvis = (uv->select != NULL ? uvread_maxvis(uv->select) : 0);
 
+/* All is ready, unless there was an error. */
+
+  uv->flags |= UVF_INIT;
 }
 /************************************************************************/
 private int uvread_maxvis(SELECT *sel)
-- 
2.43.0


From 120cbbef4a3d46e090d3b22c0d8e69f5de6edbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 020/146] fix: coord: masked arrays without a mask failed, and
 eq2top_m on an array with a scalar

---
 aipy/coord.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/aipy/coord.py b/aipy/coord.py
index d3c3fda..30878f1 100644
--- a/aipy/coord.py
+++ b/aipy/coord.py
@@ -63,11 +63,9 @@ def xyz2thphi(xyz):
     phi = np.arctan2(y, x)
     th = np.arctan2(np.sqrt(x**2+y**2),z)
     if np.ma.isMA(x):
-        try:
-            return np.ma.array([th.filled(0),phi.filled(0)],
-                mask=[x.mask,x.mask], dtype=np.double)
-        except(np.core.ma.MAError):
-            return np.ma.array([th,phi], dtype=np.double)
+        mask = np.ma.getmaskarray(x)
+        return np.ma.array([th.filled(0),phi.filled(0)],
+            mask=[mask,mask], dtype=np.double)
     return np.array([th,phi], dtype=np.double)
 
 def thphi2xyz(th_phi):
@@ -78,11 +76,9 @@ def thphi2xyz(th_phi):
     r = np.sin(th)
     x,y = r*np.cos(phi), r*np.sin(phi)
     if np.ma.isMA(th):
-        try:
-            return np.ma.array([x.filled(),y.filled(),z.filled()],
-                mask=[th.mask, th.mask, th.mask], dtype=np.double)
-        except(np.core.ma.MAError):
-            return np.ma.array([x,y,z], dtype=np.double)
+        mask = np.ma.getmaskarray(th)
+        return np.ma.array([x.filled(),y.filled(),z.filled()],
+            mask=[mask,mask,mask], dtype=np.double)
     return np.array([x,y,z], dtype=np.double)
 
 def eq2radec(xyz):
@@ -127,9 +123,10 @@ def azalt2top(az_alt):
 def eq2top_m(ha, dec):
     """Return the 3x3 matrix converting equatorial coordinates to topocentric
     at the given hour angle (ha) and declination (dec)."""
+    ha, dec = np.broadcast_arrays(ha, dec)
     sin_H, cos_H = np.sin(ha), np.cos(ha)
     sin_d, cos_d = np.sin(dec), np.cos(dec)
-    zero = np.zeros_like(ha)
+    zero = np.zeros_like(sin_H)
     map =  np.array([[    sin_H    ,       cos_H  ,       zero  ],
                      [ -sin_d*cos_H,   sin_d*sin_H,      cos_d  ],
                      [  cos_d*cos_H,  -cos_d*sin_H,      sin_d  ]])
-- 
2.43.0


From 94d5dfcf31a760978e05728ba9d30eb8b8cf7ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:11 +0000
Subject: [PATCH 021/146] fix: SrcCatalog.get_srcs() returned None instead of
 all sources

---
 aipy/phs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aipy/phs.py b/aipy/phs.py
index 5d72478..c1ae61b 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -137,9 +137,8 @@ class SrcCatalog(dict):
     def get_srcs(self, *srcs):
         """Return list of all src objects in catalog."""
         if len(srcs) == 0: srcs = self.keys()
-        elif len(srcs) == 1 and type(srcs[0]) != str:
-            return [self[s] for s in srcs[0]]
-        else: return [self[s] for s in srcs]
+        elif len(srcs) == 1 and type(srcs[0]) != str: srcs = srcs[0]
+        return [self[s] for s in srcs]
     def compute(self, observer):
         """Call compute method of all objects in catalog."""
         for s in self: self[s].compute(observer)
-- 
2.43.0


From b15196f7347e16ba2c7dd67d8c587ce0545df71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 022/146] fix: set_ephemtime() left the projection matrix and
 simulation cache of amp arrays at the previous time

---
 aipy/amp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 9e19efc..b791fdd 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -288,9 +288,10 @@ class AntennaArray(phs.AntennaArray):
     def get_active_pol(self):
         if self.active_pol is None: raise RuntimeError('No active polarization set (use AntennaArray.set_active_pol)')
         return self.active_pol
-    def set_jultime(self, t=None):
-        """Set current time as a Julian date."""
-        phs.AntennaArray.set_jultime(self, t=t)
+    def set_ephemtime(self, t=None):
+        """Set current time as derived from the ephem package.  (Called by
+        set_jultime() too.)  Invalidates anything cached for simulation."""
+        phs.AntennaArray.set_ephemtime(self, t=t)
         self.eq2top_m = coord.eq2top_m(-self.sidereal_time(), self.lat)
         self._cache = None
     def passband(self, i, j):
-- 
2.43.0


From 41dd050ea5a012ee705a655584c0fac1264cdbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 023/146] fix: gen_phs() and sim() failed for many sources in
 one channel, or sources of one flux, and reshaped the arrays they were given

---
 aipy/amp.py |  3 +--
 aipy/phs.py | 23 ++++++++++-------------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index b791fdd..8ab81ff 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -374,8 +374,7 @@ class AntennaArray(phs.AntennaArray):
         E_sf = np.conjugate(self.gen_phs(s_eqs, i, j, mfreq=self._cache['mfreq'],
             srcshape=self._cache['s_shp'], ionref=self._cache['i_ref'],
             resolve_src=True))
-        try: E_sf.shape = I_sf.shape
-        except(AttributeError): pass
+        E_sf = np.reshape(E_sf, Bij_sf.shape)
         # Combine and sum over sources
         GBIE_sf = Gij_sf * Bij_sf * I_sf * E_sf
         Vij_f = GBIE_sf.sum(axis=0)
diff --git a/aipy/phs.py b/aipy/phs.py
index c1ae61b..a72ef9e 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -350,19 +350,21 @@ class AntennaArray(ArrayLocation):
             if srcshape is None:
                 try: srcshape = src.srcshape
                 except(AttributeError): pass
-            if not srcshape is None: phs *= self.resolve_src(u, v, srcshape=srcshape)
+            if not srcshape is None:
+                phs *= np.reshape(self.resolve_src(u, v, srcshape=srcshape), phs.shape)
         return phs.squeeze()
+    def _per_src(self, prm, u_sf):
+        """Shape a parameter given for each source (or for all of them) so as
+        to multiply u_sf, which has sources along the 1st axis."""
+        if np.ndim(prm) in (0, np.ndim(u_sf)): return prm
+        return np.reshape(prm, (-1,) + (1,) * (np.ndim(u_sf) - 1))
     def resolve_src(self, u, v, srcshape=(0,0,0)):
         """Adjust amplitudes to reflect resolution effects for a uniform
         elliptical disk characterized by srcshape:
         srcshape = (a1,a2,th) where a1,a2 are angular sizes along the
             semimajor, semiminor axes, and th is the angle (in radians) of
             the semimajor axis from E."""
-        a1,a2,th = srcshape
-        try:
-            if len(u.shape) > len(a1.shape):
-                a1.shape += (1,); a2.shape += (1,); th.shape += (1,)
-        except(AttributeError): pass
+        a1,a2,th = [self._per_src(p, u) for p in srcshape]
         ru = a1 * (u*np.cos(th) - v*np.sin(th))
         rv = a2 * (u*np.sin(th) + v*np.cos(th))
         x = 2 * np.pi * np.sqrt(ru**2 + rv**2)
@@ -379,14 +381,9 @@ class AntennaArray(ArrayLocation):
             change in w given angle offsets and the small angle approx.  Should
             be numpy arrays with sources (s) along the 1st axis and
             freqs (f) along the 2nd."""
-        dra,ddec = ionref
+        dra,ddec = [self._per_src(p, u_sf) for p in ionref]
+        mfreq = self._per_src(mfreq, u_sf)
         s,f = u_sf.shape
-        try: dra.shape = (s,1)
-        except(AttributeError): pass
-        try: ddec.shape = (s,1)
-        except(AttributeError): pass
-        try: mfreq.shape = (s,1)
-        except(AttributeError): pass
         f2 = self.get_afreqs()**2 ; f2.shape = (1, f)
         return (dra*u_sf + ddec*v_sf) * mfreq**2 / f2
     def phs2src(self, data, src, i, j, mfreq=.150, ionref=None, srcshape=None):
-- 
2.43.0


From 17e4b414e2eec5283ec3e20dd12aab38666034ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:02 +0000
Subject: [PATCH 024/146] fix: Beam2DGaussian responded NaN along its own axes,
 where rounding makes a component exceed 1

---
 aipy/amp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 8ab81ff..4dd2aab 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -135,7 +135,8 @@ class Beam2DGaussian(phs.Beam):
         coordinates: (x=E,y=N,z=UP). x,y,z may be arrays of multiple
         coordinates.  Returns 'x' linear polarization (rotate pi/2 for 'y')."""
         x,y,z = xyz
-        x,y = np.arcsin(x)/self.xwidth, np.arcsin(y)/self.ywidth
+        # Rounding may leave unit vectors that are just longer than 1
+        x,y = np.arcsin(np.clip(x,-1,1))/self.xwidth, np.arcsin(np.clip(y,-1,1))/self.ywidth
         resp = np.sqrt(np.exp(-0.5*(x**2 + y**2)))
         resp = np.resize(resp, (self.afreqs.size, resp.size))
         return resp
-- 
2.43.0


From 01ff55da776f0758a001c6d8e0deff04c99d35fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 025/146] fix: antennas built with the same (or default) phase
 offsets or passbands shared them, so that setting one antenna's parameters
 changed the others'

---
 aipy/amp.py | 8 +++++---
 aipy/fit.py | 2 +-
 aipy/phs.py | 5 +++--
 aipy/pol.py | 4 ++--
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index 4dd2aab..c435dab 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -5,6 +5,7 @@ Mostly, this means adding gain/amplitude information vs. frequency.
 
 from __future__ import print_function, division, absolute_import
 
+import copy
 import numpy as np
 import ephem
 from . import phs
@@ -235,9 +236,10 @@ class Antenna(phs.Antenna):
         pointing = antenna pointing (az,alt).  Default is zenith."""
         phs.Antenna.__init__(self, x,y,z, beam=beam, phsoff=phsoff)
         self.set_pointing(*pointing)
-        self.bp_r = bp_r
-        self.bp_i = bp_i
-        self.amp = amp
+        # These are dictionaries, set in place, for polarized antennas
+        self.bp_r = copy.deepcopy(bp_r)
+        self.bp_i = copy.deepcopy(bp_i)
+        self.amp = copy.deepcopy(amp)
         self._update_gain()
     def _update_gain(self):
         bp = np.polyval(self.bp_r, self.beam.afreqs) + \
diff --git a/aipy/fit.py b/aipy/fit.py
index f06e8ca..09c6cde 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -332,7 +332,7 @@ class Antenna(amp.Antenna):
         except(KeyError): pass
         try: self._phsoff[-1], changed = prms['off'], True
         except(KeyError): pass
-        try: self._phsoff, changed = prms['phsoff'], True
+        try: self._phsoff, changed = list(prms['phsoff']), True
         except(KeyError): pass
         try: self.bp_r, changed = prms['bp_r'], True
         except(KeyError): pass
diff --git a/aipy/phs.py b/aipy/phs.py
index a72ef9e..6bf2736 100644
--- a/aipy/phs.py
+++ b/aipy/phs.py
@@ -4,7 +4,7 @@ phasing information.
 """
 from __future__ import print_function, division, absolute_import
 
-import ephem, math, numpy as np
+import copy, ephem, math, numpy as np
 from . import coord
 from . import const
 from .miriad import ij2bl, bl2ij
@@ -194,7 +194,8 @@ class Antenna:
                  with freq is often called 'delay'."""
         self.pos = np.array((x,y,z), np.float64) # must be float64 for mir
         self.beam = beam
-        self._phsoff = phsoff
+        # Set in place by fit.Antenna, so it may not be shared between antennas
+        self._phsoff = copy.deepcopy(phsoff)
         self._update_phsoff()
     def select_chans(self, active_chans=None):
         """Select only the specified channels for use in future calculations."""
diff --git a/aipy/pol.py b/aipy/pol.py
index 01d621a..33fbc6d 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -95,7 +95,7 @@ class Antenna(fit.Antenna):
                 'off_'+p:self._phsoff[p][-1],
                 'phsoff_'+p:self._phsoff[p]})
             aprms['bp_r_'+p] = list(self.bp_r[p])
-            aprms['bp_i_'+p] = list(self.bp_i[p])
+            aprms['bp_i'+p] = list(self.bp_i[p])
             aprms['amp_'+p] = self.amp[p]
         aprms.update(self.beam.get_params(prm_list))
         prms = {}
@@ -119,7 +119,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self._phsoff[p][-1], changed = prms['off_'+p], True
             except(KeyError): pass
-            try: self._phsoff[p], changed = prms['phsoff_'+p], True
+            try: self._phsoff[p], changed = list(prms['phsoff_'+p]), True
             except(KeyError): pass
             try: self.bp_r[p], changed = prms['bp_r_'+p], True
             except(KeyError): pass
-- 
2.43.0


From e137e9adbec358ee6933837ad90404224c32fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 026/146] fix: pol.Antenna.set_params() ignored bp_i_x and
 bp_i_y

---
 aipy/pol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/pol.py b/aipy/pol.py
index 33fbc6d..b5b194d 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -95,7 +95,7 @@ class Antenna(fit.Antenna):
                 'off_'+p:self._phsoff[p][-1],
                 'phsoff_'+p:self._phsoff[p]})
             aprms['bp_r_'+p] = list(self.bp_r[p])
-            aprms['bp_i'+p] = list(self.bp_i[p])
+            aprms['bp_i_'+p] = list(self.bp_i[p])
             aprms['amp_'+p] = self.amp[p]
         aprms.update(self.beam.get_params(prm_list))
         prms = {}
@@ -123,7 +123,7 @@ class Antenna(fit.Antenna):
             except(KeyError): pass
             try: self.bp_r[p], changed = prms['bp_r_'+p], True
             except(KeyError): pass
-            try: self.bp_i[p], changed = prms['bp_i'+p], True
+            try: self.bp_i[p], changed = prms['bp_i_'+p], True
             except(KeyError): pass
             try: self.amp[p], changed = prms['amp_'+p], True
             except(KeyError): pass
-- 
2.43.0


From 322d9e07b69c8630681a78bb6578e46f27de3c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 027/146] fix: reconstruct_prms() turned lists of one parameter
 into numbers, and lost empty ones

---
 aipy/fit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 09c6cde..d68190e 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -32,7 +32,7 @@ def flatten_prms(prms, prm_list=None):
                 key_list[k] = (len(prm_list), len(prms[k]))
                 prm_list += list(prms[k])
             except(TypeError):
-                key_list[k] = (len(prm_list), 1)
+                key_list[k] = (len(prm_list), None) # not a list, even of length 1
                 prm_list.append(prms[k])
     return prm_list, key_list
 
@@ -45,8 +45,8 @@ def reconstruct_prms(prm_list, key_list):
         if type(v) == dict: prms[k] = reconstruct_prms(prm_list, v)
         else:
             i, L = v
-            if L > 1: prms[k] = prm_list[i:i+L]
-            else: prms[k] = prm_list[i]
+            if L is None: prms[k] = prm_list[i]
+            else: prms[k] = prm_list[i:i+L]
     return prms
 
 def print_params(prms, indent='', grad=None):
-- 
2.43.0


From fb81bae57df8e79fcbb318e59bb5d35d9131cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 028/146] fix: RadioFixedBody.set_params() ignored mfreq

---
 aipy/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/fit.py b/aipy/fit.py
index d68190e..c407bfd 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -131,6 +131,8 @@ class RadioFixedBody(amp.RadioFixedBody):
         except(KeyError): pass
         try: self.ionref[1] = prms['ddec']
         except(KeyError): pass
+        try: self.mfreq = prms['mfreq']
+        except(KeyError): pass
 
 #  ____           _ _      ____                  _       _
 # |  _ \ __ _  __| (_) ___/ ___| _ __   ___  ___(_) __ _| |
-- 
2.43.0


From 1743015b62490420b1fb194279502790e305964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 029/146] fix: BeamPolynomial.set_params() reshaped the array
 it was given and failed on lists; select_chans() needed an argument

---
 aipy/amp.py | 2 +-
 aipy/fit.py | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index c435dab..e0a2a37 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -152,7 +152,7 @@ class BeamPolynomial(phs.Beam):
         phs.Beam.__init__(self, freqs)
         self.poly = poly_azfreq
         self._update_sigma()
-    def select_chans(self, active_chans):
+    def select_chans(self, active_chans=None):
         """Select only enumerated channels to use for future calculations."""
         phs.Beam.select_chans(self, active_chans)
         self.update()
diff --git a/aipy/fit.py b/aipy/fit.py
index c407bfd..fe5e7ff 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -257,9 +257,7 @@ class BeamPolynomial(amp.BeamPolynomial):
         """Set all parameters from a dictionary."""
         changed = False
         try:
-            poly_azfreq = prms['bm_poly']
-            poly_azfreq.shape = self.poly.shape
-            self.poly = poly_azfreq
+            self.poly = np.array(prms['bm_poly']).reshape(self.poly.shape)
             changed = True
         except(KeyError): pass
         if changed: self.update()
-- 
2.43.0


From ae58656628cca047c9655b6fc7a0dc07224bb07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 030/146] fix: BeamAlm.get_params() numbered the coefficients
 in the reverse of set_params()

---
 aipy/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index fe5e7ff..4d8edaf 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -270,7 +270,7 @@ class BeamAlm(amp.BeamAlm):
     def get_params(self, prm_list=['*']):
         """Return all fitable parameters in a dictionary."""
         aprms = {}
-        for i, a in enumerate(self.alm):
+        for i, a in enumerate(reversed(self.alm)): # highest term comes first
             k = 'alm%d' % i
             data = a.get_data()
             aprms[k] = np.array([data.real, data.imag]).transpose().flatten()
-- 
2.43.0


From 7e4842a13577af34b196bb60d2ce590ee7eeded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 031/146] fix: HelmboldtFixedBody.get_params() failed without
 arguments

---
 aipy/_src/helm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index f19d5ba..0c335cf 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -20,7 +20,7 @@ class HelmboldtFixedBody(a.fit.RadioFixedBody):
         except(TypeError): B,C,D = (self.index,0,0)
         X = np.log10(afreqs / self.mfreq)
         self.jys = 10**(A + B*X + C*np.exp(D*X))
-    def get_params(self, prm_list=None):
+    def get_params(self, prm_list=['*']):
         """Return all fitable parameters in a dictionary."""
         aprms = {
             'jys':      float(self._jys),
-- 
2.43.0


From 1e9815bc874eceb459f0f66e0fe1f31d35ad8ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 032/146] fix: converting pixel numbers switched the map's own
 scheme, so that copying between schemes mislabelled the data

---
 aipy/healpix.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 9bb8c50..acc2040 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -40,7 +40,6 @@ class HealpixBase(object):
         """Translate an array of pixel numbers to index data in the scheme specified in 'scheme' ('NEST' or 'RING').  Returns px."""
         mode = {'RING':healpy.nest2ring, 'NEST':healpy.ring2nest}
         if scheme != self._scheme: px = mode[scheme](self._nside, px)
-        self._scheme = scheme
         return px
     def set_nside_scheme(self, nside=None, scheme=None):
         """Adjust Nside and Scheme ('RING' or 'NEST')."""
-- 
2.43.0


From db596f9121c78731c4440210379b8b12f8b5c153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:52 +0000
Subject: [PATCH 033/146] fix: from_hpm() left interpolation switched on in the
 map it copied from

---
 aipy/healpix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index acc2040..b16e862 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -267,6 +267,7 @@ class HealpixMap(HealpixBase):
             px = np.arange(self.npix())
             th,phi = self.px2crd(px, ncrd=2)
             self[px] = hpm[th,phi].astype(self.get_dtype())
+            hpm.set_interpol(interpol)
         elif hpm.nside() > self.nside():
             px = np.arange(hpm.npix())
             th,phi = hpm.px2crd(px, ncrd=2)
-- 
2.43.0


From f562a6f353c26f110de17d5786c7c48eee4cf3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:02 +0000
Subject: [PATCH 034/146] fix: from_alm() passed its scheme as the pixel window
 flag, so that maps came out smoothed

---
 aipy/healpix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index b16e862..5cf19fb 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -281,7 +281,7 @@ class HealpixMap(HealpixBase):
     def from_alm(self, alm):
         """Set data to the map generated by the spherical harmonic
         coefficients contained in alm."""
-        self.set_map(alm.to_map(self.nside(), self.scheme()))
+        self.set_map(alm.to_map(self.nside()))
     def to_alm(self, lmax, mmax, iter=1):
         """Return an Alm object containing the spherical harmonic components
         of a map (in RING mode) up to the specified lmax,mmax.  Greater
-- 
2.43.0


From 4dfeddd66c4725ef954fd2fb55cafad67e0b3668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:12 +0000
Subject: [PATCH 035/146] fix: Alm coefficients outside of lmax and mmax read
 and overwrote other coefficients

---
 aipy/healpix.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 5cf19fb..76df61e 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -109,13 +109,17 @@ class Alm(object):
     def mmax(self):
         """Return the maximum M."""
         return self._mmax
+    def _getidx(self, l, m):
+        if m < 0 or m > self._mmax or l < m or l > self._lmax:
+            raise IndexError('no coefficient with l=%d, m=%d' % (l, m))
+        return self._alm.getidx(self._lmax, l, m)
     def __getitem__(self, lm):
         l,m = lm
-        i = self._alm.getidx(self._lmax, l, m)
+        i = self._getidx(l, m)
         return self.data[i]
     def __setitem__(self, lm, val):
         l,m = lm
-        i = self._alm.getidx(self._lmax, l, m)
+        i = self._getidx(l, m)
         self.data[i] = val
     def to_map(self, nside, pixwin=False, fwhm=0.0, sigma=None, 
             pol=True, verbose=False):
-- 
2.43.0


From e6aa3b176c447cbe39fc81fddd36c86960493ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 036/146] fix: HealpixMap and Map could not be saved to or read
 from FITS files with a current astropy; NEST maps claimed a scheme that is no
 FITS keyword value

---
 aipy/healpix.py | 29 ++++++++++++++---------------
 aipy/map.py     |  4 ++--
 2 files changed, 16 insertions(+), 17 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index 76df61e..b0df03a 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -296,23 +296,22 @@ class HealpixMap(HealpixBase):
         return alm
     def from_fits(self, filename, hdunum=1, colnum=0):
         """Read a HealpixMap from the specified location in a fits file."""
-        hdu = pyfits.open(filename)[hdunum]
-        data = hdu.data.field(colnum)
-        if not data.dtype.isnative:
-            data.dtype = data.dtype.newbyteorder()
-            data.byteswap(True)
-        scheme= hdu.header['ORDERING'][:4]
+        with pyfits.open(filename) as hdulist:
+            hdu = hdulist[hdunum]
+            data = np.array(hdu.data.field(colnum))
+            scheme= hdu.header['ORDERING'][:4]
+        data = data.astype(data.dtype.newbyteorder('='))
         self.set_map(data, scheme=scheme)
     def _set_fits_header(self, hdr):
-        hdr.update('PIXTYPE', 'HEALPIX', 'HEALPIX pixelisation')
+        hdr['PIXTYPE'] = ('HEALPIX', 'HEALPIX pixelisation')
         scheme = self.scheme()
-        if scheme == 'NEST': scheme == 'NESTED'
-        hdr.update('ORDERING', scheme,
+        if scheme == 'NEST': scheme = 'NESTED'
+        hdr['ORDERING'] = (scheme,
             'Pixel ordering scheme, either RING or NESTED')
-        hdr.update('NSIDE', self.nside(), 'Resolution parameter for HEALPIX')
-        hdr.update('FIRSTPIX', 0, "First pixel # (0 based)")
-        hdr.update('LASTPIX', self.npix()-1, "Last pixel # (0 based)")
-        hdr.update('INDXSCHM', 'IMPLICIT', "Indexing: IMPLICIT or EXPLICIT")
+        hdr['NSIDE'] = (self.nside(), 'Resolution parameter for HEALPIX')
+        hdr['FIRSTPIX'] = (0, "First pixel # (0 based)")
+        hdr['LASTPIX'] = (self.npix()-1, "Last pixel # (0 based)")
+        hdr['INDXSCHM'] = ('IMPLICIT', "Indexing: IMPLICIT or EXPLICIT")
     def get_dtype(self):
         return self.map.dtype
     def to_fits(self, filename, format=None, clobber=True):
@@ -324,7 +323,7 @@ class HealpixMap(HealpixBase):
         hdu0 = pyfits.PrimaryHDU()
         col0 = pyfits.Column(name='signal', format=format, array=self.map)
         cols = pyfits.ColDefs([col0])
-        tbhdu = pyfits.new_table(cols)
+        tbhdu = pyfits.BinTableHDU.from_columns(cols)
         self._set_fits_header(tbhdu.header)
         hdulist = pyfits.HDUList([hdu0, tbhdu])
-        hdulist.writeto(filename,clobber=clobber)
+        hdulist.writeto(filename,overwrite=clobber)
diff --git a/aipy/map.py b/aipy/map.py
index 7cd8cfb..62a97f0 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -151,7 +151,7 @@ class Map(object):
         col_inds = [pyfits.Column(name='sp_index%d'%n,format=format,array=i.map)
             for n,i in enumerate(self.ind)]
         cols = pyfits.ColDefs([col0, col1] + col_inds)
-        tbhdu = pyfits.new_table(cols)
+        tbhdu = pyfits.BinTableHDU.from_columns(cols)
         self.map._set_fits_header(tbhdu.header)
         hdulist = pyfits.HDUList([hdu0, tbhdu])
         if history!='':
@@ -164,4 +164,4 @@ class Map(object):
                     else:
                         for subline in img.word_wrap(line,70,5,10,'#').split("\n"):
                             hdulist[0].header.add_history(subline)
-        hdulist.writeto(filename, clobber=clobber)
+        hdulist.writeto(filename, overwrite=clobber)
-- 
2.43.0


From 4504d17a96d6954ad287961b17be5147b3fbcd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 037/146] fix: Map read from a FITS file of a NEST map without
 weights had weights in RING order

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 62a97f0..4933d6f 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -128,7 +128,7 @@ class Map(object):
             self.wgt.from_fits(filename, hdunum=hdunum, colnum=1)
         except(IndexError):
             self.wgt = healpix.HealpixMap(*self.args, **self.kwargs)
-            self.wgt.set_map(np.ones_like(self.wgt.map))
+            self.wgt.set_map(np.ones_like(self.wgt.map), scheme=self.scheme())
         # Figure out how many cols there are (is there a better way?)
         hdu = pyfits.open(filename)[hdunum]
         nind = 0
-- 
2.43.0


From 3e4ac7ce44a9c9730e697de85af7b71b12c5bf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:50 +0000
Subject: [PATCH 038/146] fix: Map.from_fits() added the indices of the file to
 the ones the map had

---
 aipy/map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/map.py b/aipy/map.py
index 4933d6f..dd97935 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -138,6 +138,7 @@ class Map(object):
             nind += 1
         del(hdu)
         # Make a spectral index HPM for each additional col in fits file
+        self.ind = []
         for i in range(nind):
             h = healpix.HealpixMap(*self.args, **self.kwargs)
             h.from_fits(filename, hdunum=hdunum, colnum=2+i)
-- 
2.43.0


From 46e7b002f8d50eb53983bf377466733cdabc6da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:13 +0000
Subject: [PATCH 039/146] fix: Map.add() added what was in a pixel once more
 for every repetition of it, and added to the interpolated values when
 interpolation was on

---
 aipy/map.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index dd97935..21b2937 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -4,7 +4,7 @@ Module for mapping and modeling the entire sky.
 
 from __future__ import print_function, division, absolute_import
 
-from .  import healpix, coord, img
+from .  import healpix, coord, img, utils
 import numpy as np, random
 try:
     from astropy.io import fits as pyfits
@@ -99,9 +99,18 @@ class Map(object):
         if len(ind) == 0: return fluxes
         return (fluxes, ind)
     def add(self, crds, wgts, fluxes, inds=[]):
-        self.wgt[crds] += wgts
-        self.map[crds] += fluxes * wgts
-        for n,i in enumerate(inds): self.ind[n][crds] += i * wgts
+        self._accumulate(self.wgt, crds, wgts)
+        self._accumulate(self.map, crds, fluxes * wgts)
+        for n,i in enumerate(inds): self._accumulate(self.ind[n], crds, i * wgts)
+    def _accumulate(self, hpm, crds, val):
+        """Add val to the pixels of hpm at crds, repeated ones included."""
+        if type(crds) is tuple:
+            px = hpm.crd2px(*[healpix.mk_arr(c, dtype=np.double) for c in crds])
+        else: px = healpix.mk_arr(crds, dtype=np.int_)
+        val = healpix.mk_arr(val, dtype=hpm.get_dtype()).flatten()
+        val = np.resize(val, px.size) if val.size == 1 else val
+        hpm.map = hpm.map.copy()
+        utils.add2array(hpm.map, px.reshape(px.size,1), val)
     def put(self, crds, wgts, fluxes, inds=[]):
         self.wgt[crds] = wgts
         self.map[crds] = fluxes * wgts
-- 
2.43.0


From 215e9d1c19d0a6a19506c96b6c5278a8e44ef20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 040/146] fix: facet_centers() failed for more than one point,
 and pack_sphere() for many numbers of points

---
 aipy/map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index 21b2937..08950f4 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -21,10 +21,10 @@ def pack_sphere(N):
     """Clever formula for putting N points nearly equally spaced on
     the sphere.  Return xyz coordinates of each point in order from S to N."""
     dz = 2. / N
-    z = np.arange(-1+dz/2,1, dz)
+    z = -1 + dz/2 + dz * np.arange(N)
     r = np.sqrt(1-z**2)
     dL = np.pi * (3 - np.sqrt(5))
-    long = np.arange(0, dL * N, dL)
+    long = dL * np.arange(N)
     return np.array([r*np.cos(long), r*np.sin(long), z])
 
 def _bit_reverse(N, nbits=None):
@@ -34,7 +34,7 @@ def _bit_reverse(N, nbits=None):
     if nbits is None: nbits = int(np.floor(np.log2(N))) + 1
     ans = 0
     for bit in range(nbits):
-        ans += np.bitwise_and(N.astype('int64'), 2**bit) * 2**(nbits-2*bit-1)
+        ans += ((N.astype('int64') >> bit) & 1) << (nbits-bit-1)
     return ans
 
 def _bit_reverse_order(N):
-- 
2.43.0


From 13ab22455cfc1a5584b43b99ae849bc868dd3656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:35 +0000
Subject: [PATCH 041/146] fix: a Map could not be copied or pickled

---
 aipy/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/map.py b/aipy/map.py
index 08950f4..3548a8f 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -127,8 +127,8 @@ class Map(object):
         for i in range(min(len(self.ind), len(map.ind))):
             self.ind[i].from_hpm(map.ind[i])
     def __getattr__(self, attr):
-        try: object.__getatr__(self, attr)
-        except(AttributeError): return self.map.__getattribute__(attr)
+        if attr == 'map': raise AttributeError(attr)
+        return self.map.__getattribute__(attr)
     def from_fits(self, filename, hdunum=1):
         self.map.from_fits(filename, hdunum=hdunum, colnum=0)
         self.args = ()
-- 
2.43.0


From 8efec8c1ff3a144a1e1e2142dbd661f5f4a464f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:25 +0000
Subject: [PATCH 042/146] fix: Alm.to_map() with smoothing failed or took
 coefficients for others when mmax was below lmax

---
 aipy/healpix.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index b0df03a..c6aa897 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -150,9 +150,13 @@ class Alm(object):
         maps : array or list of arrays
           A Healpix map in RING scheme at nside or a list of T,Q,U maps (if
           polarized input)'''
-        return healpy.alm2map(self.get_data(), nside, 
-            lmax=self._lmax, mmax=self._mmax,
-            pixwin=pixwin, fwhm=fwhm, sigma=sigma, pol=pol
+        # alm2map smooths as if mmax were lmax
+        data = healpy.smoothalm(self.get_data(), fwhm=fwhm, sigma=sigma, 
+            pol=pol, mmax=self._mmax, inplace=False)
+        if pixwin:
+            data = healpy.almxfl(data, healpy.pixwin(nside), mmax=self._mmax)
+        return healpy.alm2map(data, nside, 
+            lmax=self._lmax, mmax=self._mmax, pol=pol
         )
     def from_map(self, data, iter=3, pol=True, use_weights=False, gal_cut=0):
         '''Set the coefficients of this Alm object (with its specified 
-- 
2.43.0


From 8e377303f11ffc20b2ccf4b6ad21b1d62ed39a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 043/146] fix: Map.reset_wgt() turned the weights into
 integers, so that weights added later were truncated

---
 aipy/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/map.py b/aipy/map.py
index 3548a8f..5c60535 100644
--- a/aipy/map.py
+++ b/aipy/map.py
@@ -119,7 +119,7 @@ class Map(object):
         w = np.where(self.wgt.map > 0, self.wgt.map, 1)
         self.map.map /= w
         for i in self.ind: i.map /= w
-        self.wgt.map = np.where(self.wgt.map > 0, wgt, 0)
+        self.wgt.map = np.where(self.wgt.map > 0, wgt, 0).astype(self.wgt.get_dtype())
     def from_map(self, map):
         """Initialize this Map with data from another."""
         self.map.from_hpm(map.map)
-- 
2.43.0


From e5f1d95e1d4b2131b540b135991accb22ae59da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 044/146] fix: gridding on rectangular grids put data in the
 wrong cells, or outside of the grid

---
 aipy/_dsp/grid/grid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_dsp/grid/grid.c b/aipy/_dsp/grid/grid.c
index 3ad8d1e..8633d85 100644
--- a/aipy/_dsp/grid/grid.c
+++ b/aipy/_dsp/grid/grid.c
@@ -59,8 +59,8 @@ int grid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             // XXX should really make sure wgts sum to 1
-            buf[2*(j1mod*buflen1+j2mod)]   += fwgt2 * fdatr;
-            buf[2*(j1mod*buflen1+j2mod)+1] += fwgt2 * fdati;
+            buf[2*(j1mod*buflen2+j2mod)]   += fwgt2 * fdatr;
+            buf[2*(j1mod*buflen2+j2mod)+1] += fwgt2 * fdati;
           }
         }
     }
@@ -87,8 +87,8 @@ int degrid2D_c(float *buf, long buflen1, long buflen2,
             fwgt2 *= fwgt2;
             fwgt2 = 0.63661977236758149 * exp(-2*(fwgt1+fwgt2)); // 2D Gaussian, sigx,y=0.5
             tot_wgt += fwgt2;
-            data[2*i] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)];
-            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen1+j2mod)+1];
+            data[2*i] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)];
+            data[2*i+1] += fwgt2 * buf[2*(j1mod*buflen2+j2mod)+1];
           }
         }
         data[2*i] /= tot_wgt;
-- 
2.43.0


From c603f6259c5a87b37f86231714f0b1fd20733efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:15 +0000
Subject: [PATCH 045/146] fix: gridding read its footprint as an int into a
 long

---
 aipy/_dsp/dsp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/_dsp/dsp.c b/aipy/_dsp/dsp.c
index 2c7dd67..2ca5bd7 100644
--- a/aipy/_dsp/dsp.c
+++ b/aipy/_dsp/dsp.c
@@ -7,7 +7,7 @@ PyObject *wrap_grid1D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 1);
@@ -44,7 +44,7 @@ PyObject *wrap_grid2D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind1, &PyArray_Type, &ind2, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 2);
@@ -85,7 +85,7 @@ PyObject *wrap_degrid2D_c(PyObject *self, PyObject *args) {
     int rv;
     long footprint=6;
     // Parse arguments and perform sanity check
-    if (!PyArg_ParseTuple(args, "O!O!O!O!|i", &PyArray_Type, &buf,
+    if (!PyArg_ParseTuple(args, "O!O!O!O!|l", &PyArray_Type, &buf,
             &PyArray_Type, &ind1, &PyArray_Type, &ind2, &PyArray_Type, &dat, &footprint))
         return NULL;
     CHK_ARRAY_RANK(buf, 2);
-- 
2.43.0


From d989072630b713f2212b2fa8ce862ac42cb6e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:11 +0000
Subject: [PATCH 046/146] fix: gridding ignored the memory layout of its
 arrays, reading and writing outside of strided ones

---
 aipy/_dsp/dsp.c | 39 +++++++++++++++++++++++++++++++--------
 aipy/_dsp/dsp.h |  8 ++++++++
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/aipy/_dsp/dsp.c b/aipy/_dsp/dsp.c
index 2ca5bd7..a74c692 100644
--- a/aipy/_dsp/dsp.c
+++ b/aipy/_dsp/dsp.c
@@ -20,10 +20,17 @@ PyObject *wrap_grid1D_c(PyObject *self, PyObject *args) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
     }
+    CHK_ARRAY_CARRAY(buf);
 
     Py_INCREF(buf);
-    Py_INCREF(ind);
-    Py_INCREF(dat);
+    ind = IN_ARRAY(ind);
+    dat = IN_ARRAY(dat);
+    if (ind == NULL || dat == NULL) {
+        Py_XDECREF(ind);
+        Py_XDECREF(dat);
+        Py_DECREF(buf);
+        return NULL;
+    }
     rv = grid1D_c((float *) PyArray_DATA(buf), (long) PyArray_DIM(buf,0),
                   (float *) PyArray_DATA(ind),
                   (float *) PyArray_DATA(dat), (long) PyArray_DIM(dat,0), footprint);
@@ -59,11 +66,19 @@ PyObject *wrap_grid2D_c(PyObject *self, PyObject *args) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
     }
+    CHK_ARRAY_CARRAY(buf);
 
     Py_INCREF(buf);
-    Py_INCREF(ind1);
-    Py_INCREF(ind2);
-    Py_INCREF(dat);
+    ind1 = IN_ARRAY(ind1);
+    ind2 = IN_ARRAY(ind2);
+    dat = IN_ARRAY(dat);
+    if (ind1 == NULL || ind2 == NULL || dat == NULL) {
+        Py_XDECREF(ind1);
+        Py_XDECREF(ind2);
+        Py_XDECREF(dat);
+        Py_DECREF(buf);
+        return NULL;
+    }
     rv = grid2D_c((float *) PyArray_DATA(buf), (long) PyArray_DIM(buf,0), (long) PyArray_DIM(buf,1),
                   (float *) PyArray_DATA(ind1), (float *) PyArray_DATA(ind2),
                   (float *) PyArray_DATA(dat), (long) PyArray_DIM(dat,0), footprint);
@@ -100,11 +115,19 @@ PyObject *wrap_degrid2D_c(PyObject *self, PyObject *args) {
         PyErr_Format(PyExc_ValueError, "Dimensions of ind and dat do not match");
         return NULL;
     }
+    CHK_ARRAY_CARRAY(dat);
 
-    Py_INCREF(buf);
-    Py_INCREF(ind1);
-    Py_INCREF(ind2);
     Py_INCREF(dat);
+    ind1 = IN_ARRAY(ind1);
+    ind2 = IN_ARRAY(ind2);
+    buf = IN_ARRAY(buf);
+    if (ind1 == NULL || ind2 == NULL || buf == NULL) {
+        Py_XDECREF(ind1);
+        Py_XDECREF(ind2);
+        Py_XDECREF(buf);
+        Py_DECREF(dat);
+        return NULL;
+    }
     // Being lazy.  should allocate data rather than take it as an argument
     rv = degrid2D_c((float *) PyArray_DATA(buf), (long) PyArray_DIM(buf,0), (long) PyArray_DIM(buf,1),
                   (float *) PyArray_DATA(ind1), (float *) PyArray_DATA(ind2),
diff --git a/aipy/_dsp/dsp.h b/aipy/_dsp/dsp.h
index 7b3f673..0d97520 100644
--- a/aipy/_dsp/dsp.h
+++ b/aipy/_dsp/dsp.h
@@ -22,5 +22,13 @@
         PyErr_Format(PyExc_ValueError, "rank(%s) != %s", \
         QUOTE(a), QUOTE(r)); \
         return NULL; }
+#define CHK_ARRAY_CARRAY(a) \
+    if (!PyArray_ISCARRAY(a)) { \
+        PyErr_Format(PyExc_ValueError, "%s must be a contiguous, writeable array", \
+        QUOTE(a)); \
+        return NULL; }
+// New reference to the data of an array, which may have any memory layout
+#define IN_ARRAY(a) ((PyArrayObject *) PyArray_FROM_OF((PyObject *) (a), \
+    NPY_ARRAY_IN_ARRAY | NPY_ARRAY_NOTSWAPPED))
 
 #endif
-- 
2.43.0


From 236d609c4206f0e7d115ae8f0656bcf6bfb75a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 047/146] fix: gridding at infinite coordinates never returned,
 and on an empty grid divided by zero

---
 aipy/_dsp/grid/grid.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/aipy/_dsp/grid/grid.c b/aipy/_dsp/grid/grid.c
index 8633d85..87122b3 100644
--- a/aipy/_dsp/grid/grid.c
+++ b/aipy/_dsp/grid/grid.c
@@ -1,9 +1,20 @@
 #include "grid.h"
 
+// Is there a grid to put data on, and are the positions on it numbers that
+// its cells can be counted from?  Data at NaN are left out.
+static int inds_ok(float *inds, long datalen, long buflen) {
+    long i;
+    for (i = 0; i < datalen; i++) {
+        if (buflen < 1 || fabsf(inds[i]) > 1e9) return 0;
+    }
+    return 1;
+}
+
 int grid1D_r(float *buf, long buflen, 
         float *inds, float *data, long datalen, long footprint) {
     long i, j, jmod;
     float find, fdat, fwgt;
+    if (!inds_ok(inds, datalen, buflen)) return 1;
     for (i = 0; i < datalen; i++) {
         find = inds[i];
         fdat = data[i];
@@ -22,6 +33,7 @@ int grid1D_c(float *buf, long buflen,
         float *inds, float *data, long datalen, long footprint) {
     long i, j, jmod;
     float find, fdatr, fdati, fwgt;
+    if (!inds_ok(inds, datalen, buflen)) return 1;
     for (i = 0; i < datalen; i++) {
         find = inds[i];
         fdatr = data[2*i];
@@ -42,6 +54,8 @@ int grid2D_c(float *buf, long buflen1, long buflen2,
         float *ind1, float *ind2, float *data, long datalen, long footprint) {
     long i, j1, j2, j1mod, j2mod;
     float find1, find2, fdatr, fdati, fwgt1, fwgt2;
+    if (!inds_ok(ind1, datalen, buflen1) || !inds_ok(ind2, datalen, buflen2))
+        return 1;
     for (i = 0; i < datalen; i++) {
         find1 = ind1[i];
         find2 = ind2[i];
@@ -71,6 +85,8 @@ int degrid2D_c(float *buf, long buflen1, long buflen2,
         float *ind1, float *ind2, float *data, long datalen, long footprint) {
     long i, j1, j2, j1mod, j2mod;
     float find1, find2, fwgt1, fwgt2, tot_wgt;
+    if (!inds_ok(ind1, datalen, buflen1) || !inds_ok(ind2, datalen, buflen2))
+        return 1;
     for (i = 0; i < datalen; i++) {
         find1 = ind1[i];
         find2 = ind2[i];
-- 
2.43.0


From 218491df4d061275afc8d6edd9501480ae1bbc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 048/146] fix: Img.get() read the grid transposed, at other
 coordinates than Img.put() puts data

---
 aipy/img.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 38f2ca0..57fadc3 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -166,8 +166,7 @@ class Img:
             data = self.uv[inds[:,0],inds[:,1]] / self.bm[0][inds[:,0],inds[:,1]]
             data = data.squeeze()
         else:
-            u,v = self.get_indices(-u,v)
-            u,v = -v,u # XXX necessary, but probably because of axis ordering in FITS files...
+            u,v = self.get_indices(u,v)
             uvdat = np.zeros(u.shape, dtype=np.complex64)
             bmdat = np.zeros(u.shape, dtype=np.complex64)
             _dsp.degrid2D_c(uv, u, v, uvdat)
-- 
2.43.0


From 4f44426db0e1985cab7047f6e1635f4324b876f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 049/146] fix: append_hermitian() changed the list of weights
 it was given

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index 57fadc3..e9e263a 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -185,7 +185,7 @@ class Img:
         if wgts is None: return np.array((u,v,w)), data
         if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
         assert(len(wgts) == len(self.bm))
-        for i,wgt in enumerate(wgts): wgts[i] = np.concatenate([wgt,wgt],axis=0)
+        wgts = [np.concatenate([wgt,wgt],axis=0) for wgt in wgts]
         return (u,v,w), data, wgts
     def _gen_img(self, data, center=(0,0)):
         """Return the inverse FFT of the provided data, with the 0,0 point
-- 
2.43.0


From 86f728ac56c5a3cd8311198402da47e96d6af0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 050/146] fix: gridding a single sample with its weight failed

---
 aipy/img.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index e9e263a..73a95f8 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -128,7 +128,8 @@ class Img:
             for i in range(len(self.bm)):
                 if i == 0: wgts.append(np.ones_like(data))
                 else: wgts.append(np.zeros_like(data))
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0):
+            wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         if apply: uv,bm = self.uv,self.bm
         else:
@@ -183,7 +184,8 @@ class Img:
         w = np.concatenate([w, -w], axis=0)
         data = np.concatenate([data, np.conj(data)], axis=0)
         if wgts is None: return np.array((u,v,w)), data
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0):
+            wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         wgts = [np.concatenate([wgt,wgt],axis=0) for wgt in wgts]
         return (u,v,w), data, wgts
@@ -239,7 +241,8 @@ class ImgW(Img):
             for i in range(len(self.bm)):
                 if i == 0: wgts.append(np.ones_like(data))
                 else: wgts.append(np.zeros_like(data))
-        if len(self.bm) == 1 and len(wgts) != 1: wgts = [wgts]
+        if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0):
+            wgts = [wgts]
         assert(len(wgts) == len(self.bm))
         # Sort uvw in order of w
         order = np.argsort(w)
-- 
2.43.0


From 655f4023e56cb97dfe1b25e35e677557cd54ff6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:52 +0000
Subject: [PATCH 051/146] fix: ImgW.get() failed for a single sample

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index 73a95f8..87531e9 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -275,7 +275,7 @@ class ImgW(Img):
     def get(self, uvw):
         u,v,w = uvw
         order = np.argsort(w.flat)
-        u_,v_,w_ = u.take(order).squeeze(), v.take(order).squeeze(), w.take(order).squeeze()
+        u_,v_,w_ = u.take(order), v.take(order), w.take(order)
         sqrt_w = np.sqrt(np.abs(w_)) * np.sign(w_)
         i, d_ = 0, []
         while True:
-- 
2.43.0


From 4911a9a88fda9993354ac8dbd142d3b275efaa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:04 +0000
Subject: [PATCH 052/146] fix: ImgW.get() returned data from before the last
 ImgW.put()

---
 aipy/img.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/img.py b/aipy/img.py
index 87531e9..8e98a13 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -244,6 +244,7 @@ class ImgW(Img):
         if len(self.bm) == 1 and (len(wgts) != 1 or np.ndim(wgts[0]) == 0):
             wgts = [wgts]
         assert(len(wgts) == len(self.bm))
+        self.wcache = {} # planes of the uv data so far
         # Sort uvw in order of w
         order = np.argsort(w)
         u = u.take(order)
-- 
2.43.0


From a3d49f0d3eaf01a962c0c1a9be18439c3d2d0afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 053/146] fix: images could not be saved to FITS files with a
 current astropy, and clobber was ignored

---
 aipy/img.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 8e98a13..f4ee513 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -394,7 +394,7 @@ def to_fits(filename, data, clobber=False,
                         phdu.header.add_history(subline)
     phdu.header['ORIGIN'] = (origin)
     phdu.header['DATE'] = (cur_date,'FILE WRITTEN ON DD/MM/YY')
-    pyfits.writeto(filename,phdu.data,phdu.header,clobber=True)
+    pyfits.writeto(filename,phdu.data,phdu.header,overwrite=clobber)
 
 def from_fits(filename):
     """Read (data,kwds) from a FITS file.  Matches to_fits() above.  Attempts
@@ -498,4 +498,4 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if len(line)>1:
             for subline in word_wrap(line,70,5,10,'#').split("\n"):
                 phdu.header.add_history(subline)
-    pyfits.writeto(outfile, data, phdu.header, clobber=True)
+    pyfits.writeto(outfile, data, phdu.header, overwrite=True)
-- 
2.43.0


From 70a015e2b956fe2854449d883fab211494908aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 054/146] fix: img.from_fits() did not read the galactic
 coordinates img.to_fits() writes

---
 aipy/img.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index f4ee513..fd1d3a5 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -425,8 +425,10 @@ def from_fits(filename):
             axes.append(ax)
             val = phdu.header['CRVAL%d' % (i+1)]
             delta = phdu.header['CDELT%d' % (i+1)]
-            if ax.startswith('ra'): kwds['ra'],kwds['d_ra'] = (val,delta)
-            elif ax.startswith('dec'): kwds['dec'],kwds['d_dec'] = (val,delta)
+            if ax.startswith('ra') or ax.startswith('glon'):
+                kwds['ra'],kwds['d_ra'] = (val,delta)
+            elif ax.startswith('dec') or ax.startswith('glat'):
+                kwds['dec'],kwds['d_dec'] = (val,delta)
             elif ax.startswith('freq'): kwds['freq'],kwds['d_freq']=(val,delta)
             elif ax.startswith('stokes'): pass
             else: pass
-- 
2.43.0


From 25b17793233a90dc108bf862cabadb9b90afe91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 055/146] fix: img.to_fits() stored the frequency of the first
 channel as that of the middle one

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index fd1d3a5..9b52893 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -374,7 +374,7 @@ def to_fits(filename, data, clobber=False,
         or ax.lower().startswith('glon') or ax.lower().startswith('glat'):
             phdu.header['CRPIX%d' % (i+1)] = (np.ceil(phdu.data.shape[-(i+1)]/2.))
         else:
-            phdu.header['CRPIX%d' % (i+1)] = (np.ceil(phdu.data.shape[-(i+1)]/2.))
+            phdu.header['CRPIX%d' % (i+1)] = (1)
         phdu.header['CRVAL%d' % (i+1)] = (val)
         if (ax.lower().startswith('ra') or ax.lower().startswith('glon')) and delta>0:
             phdu.header['CDELT%d' % (i+1)]= (delta*-1)
-- 
2.43.0


From 7e987b693a8625838a58b1c1b84269ad377b054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 056/146] fix: img.to_fits() failed for images with NaN or
 infinite pixels

---
 aipy/img.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 9b52893..30b3dc8 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -361,8 +361,10 @@ def to_fits(filename, data, clobber=False,
     phdu.header['BUNIT  '] = ('JY/BEAM ', 'UNITS OF FLUX')
     phdu.header['EQUINOX'] = (epoch,'EQUINOX OF RA DEC')
     phdu.header['EPOCH'] = (epoch,'Epoch of coordinate system')
-    phdu.header['DATAMAX'] = (data.max(), 'MAX PIXEL VALUE')
-    phdu.header['DATAMIN']= (data.min(), 'MIN PIXEL VALUE')
+    finite = data[np.isfinite(data)]
+    if finite.size > 0:
+        phdu.header['DATAMAX'] = (finite.max(), 'MAX PIXEL VALUE')
+        phdu.header['DATAMIN']= (finite.min(), 'MIN PIXEL VALUE')
     for i,ax in enumerate(axes):
         if ax.lower().startswith('ra') or ax.lower().startswith('glon'): val,delta = (ra, d_ra)
         elif ax.lower().startswith('dec') or ax.lower().startswith('glat'): val,delta = (dec, d_dec)
-- 
2.43.0


From d6d33e21485121a9081c5ac5b9a416c09d7f1884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 057/146] fix: from_fits_to_fits() failed on Python 3 and with
 a current astropy

---
 aipy/img.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 30b3dc8..f97df8e 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -490,9 +490,9 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         if not delta is None:
             phdu.header['CDELT%d' % (i+1)] = (delta)
         phdu.header['CROTA%d' % (i+1)] = (0)
-    for k,v in kwds.iteritems():
+    for k,v in kwds.items():
         try:
-            phdu.header.update(k,v)
+            phdu.header[k] = v
         except(ValueError):
             continue
     if history is None:
-- 
2.43.0


From a128c4f4d7d79be1776c15f03e7fa34b23328ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 058/146] fix: from_fits_to_fits() moved the reference pixel of
 images of odd size

---
 aipy/img.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index f97df8e..51629ee 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -481,10 +481,10 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
         else: val,delta = None,None
         phdu.header['CTYPE%d' % (i+1)] = (ax.upper())
         if ax.lower().startswith('ra') or ax.lower().startswith('dec'):
-            phdu.header['CRPIX%d' % (i+1)] = (round(data.shape[-(i+1)]/2.))
+            phdu.header['CRPIX%d' % (i+1)] = (np.ceil(data.shape[-(i+1)]/2.))
         else:
             phdu.header['CRPIX%d' % (i+1)] = (1)
-        print(ax,round(data.shape[-(i+1)]/2.))
+        print(ax,np.ceil(data.shape[-(i+1)]/2.))
         if not val is None:
             phdu.header['CRVAL%d' % (i+1)] = (val)
         if not delta is None:
-- 
2.43.0


From dfb59d58eca46fef93b8ca375248d810acf53541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:41 +0000
Subject: [PATCH 059/146] fix: from_fits_to_fits() moved the reference pixel of
 galactic images and ignored their coordinates

---
 aipy/img.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/img.py b/aipy/img.py
index 51629ee..3b79e38 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -469,10 +469,10 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
 #        data = phdu.data
     phdu.update_header()
     for i,ax in enumerate(axes):
-        if ax.lower().startswith('ra'):
+        if ax.lower().startswith(('ra','glon')):
              val   = kwds['ra'  ] if 'ra'   in kwds else None
              delta = kwds['d_ra'] if 'd_ra' in kwds else None
-        elif ax.lower().startswith('dec'):
+        elif ax.lower().startswith(('dec','glat')):
              val   = kwds['dec'  ] if 'dec'   in kwds else None
              delta = kwds['d_dec'] if 'd_dec' in kwds else None
         elif ax.lower().startswith('freq'):
@@ -480,7 +480,7 @@ def from_fits_to_fits(infile,outfile,data,kwds,history=None):
              delta = kwds['d_freq'] if 'd_freq' in kwds else None
         else: val,delta = None,None
         phdu.header['CTYPE%d' % (i+1)] = (ax.upper())
-        if ax.lower().startswith('ra') or ax.lower().startswith('dec'):
+        if ax.lower().startswith(('ra','dec','glon','glat')):
             phdu.header['CRPIX%d' % (i+1)] = (np.ceil(data.shape[-(i+1)]/2.))
         else:
             phdu.header['CRPIX%d' % (i+1)] = (1)
-- 
2.43.0


From 6c122cb8ca72d38da809b27259c6ac1379499e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 060/146] fix: clean() scaled its steps by the kernel inside of
 the area of the image, so that areas without its peak made it diverge or
 return NaN

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index eb5be9f..e000d8f 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -70,7 +70,7 @@ template<typename T> struct Clean {
             for (int n2=0; n2 < dim2; n2++) {
                 val = IND2(ker,n1,n2,T);
                 mval = val * val;
-                if (mval > mq && IND2(area,n1,n2,int)) {
+                if (mval > mq) {
                     mq = mval;
                     q = val;
                 }
@@ -176,7 +176,7 @@ template<typename T> struct Clean {
         for (int n=0; n < dim; n++) {
             val = IND1(ker,n,T);
             mval = val * val;
-            if (mval > mq && IND1(area,n,int)) {
+            if (mval > mq) {
                 mq = mval;
                 q = val;
             }
@@ -273,7 +273,7 @@ template<typename T> struct Clean {
                 valr = CIND2R(ker,n1,n2,T);
                 vali = CIND2I(ker,n1,n2,T);
                 mval = valr * valr + vali * vali;
-                if (mval > mq && IND2(area,n1,n2,int)) {
+                if (mval > mq) {
                     mq = mval;
                     qr = valr; qi = vali;
                 }
@@ -394,7 +394,7 @@ template<typename T> struct Clean {
             valr = CIND1R(ker,n,T);
             vali = CIND1I(ker,n,T);
             mval = valr * valr + vali * vali;
-            if (mval > mq && IND1(area,n,int)) {
+            if (mval > mq) {
                 mq = mval;
                 qr = valr;
                 qi = vali;
-- 
2.43.0


From 9ecafe38d5b3386d29a169de9d6d6e4162bb05b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 061/146] fix: clean() by a kernel of zeros returned NaN

---
 aipy/_deconv/deconv.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index e000d8f..cfe9091 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -76,7 +76,7 @@ template<typename T> struct Clean {
                 }
             }
         }
-        q = 1/q;
+        if (mq > 0) q = 1/q;
         // The clean loop
         for (int i=0; i < maxiter; i++) {
             nscore = 0;
@@ -181,7 +181,7 @@ template<typename T> struct Clean {
                 q = val;
             }
         }
-        q = 1/q;
+        if (mq > 0) q = 1/q;
         // The clean loop
         for (int i=0; i < maxiter; i++) {
             nscore = 0;
@@ -279,8 +279,10 @@ template<typename T> struct Clean {
                 }
             }
         }
-        qr /= mq;
-        qi = -qi / mq;
+        if (mq > 0) {
+            qr /= mq;
+            qi = -qi / mq;
+        }
         // The clean loop
         for (int i=0; i < maxiter; i++) {
             nscore = 0;
@@ -400,8 +402,10 @@ template<typename T> struct Clean {
                 qi = vali;
             }
         }
-        qr /= mq;
-        qi = -qi / mq;
+        if (mq > 0) {
+            qr /= mq;
+            qi = -qi / mq;
+        }
         // The clean loop
         for (int i=0; i < maxiter; i++) {
             nscore = 0;
-- 
2.43.0


From 673f77641c921a55ba87069fcdfc144477c7871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 062/146] fix: clean() without stop_if_div never returned once
 the residual stopped changing, or for images with NaN

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index cfe9091..2ec9c02 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -136,7 +136,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
@@ -231,7 +231,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
@@ -352,7 +352,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
@@ -467,7 +467,7 @@ template<typename T> struct Clean {
                 // We're done
                 if (best_mdl != NULL) { free(best_mdl); free(best_res); }
                 return i;
-            } else if (not stop_if_div && (best_score < 0 || nscore < best_score)) {
+            } else if (not stop_if_div && nscore < score && (best_score < 0 || nscore < best_score)) {
                 i = 0;  // Reset maxiter counter
             }
             score = nscore;
-- 
2.43.0


From ed464ee083401eae6d5f34a09e83ab087a2cf3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 063/146] fix: clean() read its area, an array of long, as int

---
 aipy/_deconv/deconv.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 2ec9c02..44a3e36 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -92,7 +92,7 @@ template<typename T> struct Clean {
                     val = IND2(res,wrap_n1,wrap_n2,T);
                     mval = val * val;
                     nscore += mval;
-                    if (mval > mmax && (pos_def == 0 || val > 0) && IND2(area,wrap_n1,wrap_n2,int)) {
+                    if (mval > mmax && (pos_def == 0 || val > 0) && IND2(area,wrap_n1,wrap_n2,long)) {
                         nargmax1 = wrap_n1; nargmax2 = wrap_n2;
                         max = val;
                         mmax = mval;
@@ -195,7 +195,7 @@ template<typename T> struct Clean {
                 val = IND1(res,wrap_n,T);
                 mval = val * val;
                 nscore += mval;
-                if (mval > mmax && (pos_def == 0 || val > 0) && IND1(area,wrap_n,int)) {
+                if (mval > mmax && (pos_def == 0 || val > 0) && IND1(area,wrap_n,long)) {
                     nargmax = wrap_n;
                     max = val;
                     mmax = mval;
@@ -304,7 +304,7 @@ template<typename T> struct Clean {
                     vali = CIND2I(res,wrap_n1,wrap_n2,T);
                     mval = valr * valr + vali * vali;
                     nscore += mval;
-                    if (mval > mmax && IND2(area,wrap_n1,wrap_n2,int)) {
+                    if (mval > mmax && IND2(area,wrap_n1,wrap_n2,long)) {
                         nargmax1 = wrap_n1; nargmax2 = wrap_n2;
                         maxr = valr; maxi = vali;
                         mmax = mval;
@@ -425,7 +425,7 @@ template<typename T> struct Clean {
                 vali = CIND1I(res,wrap_n,T);
                 mval = valr * valr + vali * vali;
                 nscore += mval;
-                if (mval > mmax && IND1(area,wrap_n,int)) {
+                if (mval > mmax && IND1(area,wrap_n,long)) {
                     nargmax = wrap_n;
                     maxr = valr;
                     maxi = vali;
-- 
2.43.0


From 303ac70da43179c0d9efab480e6897eaffbe6085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 064/146] fix: clean() with pos_def repeated its last step once
 nothing positive was left

---
 aipy/_deconv/deconv.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 44a3e36..cc498a1 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -82,6 +82,7 @@ template<typename T> struct Clean {
             nscore = 0;
             mmax = -1;
             step = (T) gain * max * q;
+            max = 0;  // nothing left to clean unless found below
             IND2(mdl,argmax1,argmax2,T) += step;
             // Take next step and compute score
             for (int n1=0; n1 < dim1; n1++) {
@@ -187,6 +188,7 @@ template<typename T> struct Clean {
             nscore = 0;
             mmax = -1;
             step = (T) gain * max * q;
+            max = 0;  // nothing left to clean unless found below
             IND1(mdl,argmax,T) += step;
             // Take next step and compute score
             for (int n=0; n < dim; n++) {
@@ -289,6 +291,7 @@ template<typename T> struct Clean {
             mmax = -1;
             stepr = (T) gain * (maxr * qr - maxi * qi);
             stepi = (T) gain * (maxr * qi + maxi * qr);
+            maxr = maxi = 0;  // nothing left to clean unless found below
             CIND2R(mdl,argmax1,argmax2,T) += stepr;
             CIND2I(mdl,argmax1,argmax2,T) += stepi;
             // Take next step and compute score
@@ -412,6 +415,7 @@ template<typename T> struct Clean {
             mmax = -1;
             stepr = (T) gain * (maxr * qr - maxi * qi);
             stepi = (T) gain * (maxr * qi + maxi * qr);
+            maxr = maxi = 0;  // nothing left to clean unless found below
             CIND1R(mdl,argmax,T) += stepr;
             CIND1I(mdl,argmax,T) += stepi;
             // Take next step and compute score
-- 
2.43.0


From e49d0ccad27e94ad54d2cfb53605b9685dcfe908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 065/146] fix: clean() took byte-swapped arrays for native ones
 and wrote to read-only ones

---
 aipy/_deconv/deconv.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index cc498a1..18525ef 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -530,6 +530,11 @@ PyObject *clean(PyObject *self, PyObject *args, PyObject *kwargs) {
         PyErr_Format(PyExc_ValueError, "area must by of type 'int'");
         return NULL;
     }
+    if (!PyArray_ISBEHAVED(res) || !PyArray_ISBEHAVED(mdl) ||
+            !PyArray_ISBEHAVED_RO(ker) || !PyArray_ISBEHAVED_RO(area)) {
+        PyErr_Format(PyExc_ValueError, "arrays must be aligned, in native byte order, and res and mdl writeable");
+        return NULL;
+    }
     Py_INCREF(res); Py_INCREF(ker); Py_INCREF(mdl);
     // Use template to implement data loops for all data types
     if (TYPE(res) == NPY_FLOAT) {
-- 
2.43.0


From 0ba9dc0ed6afed18d83f820f9a413b35702231be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 066/146] fix: clean() of images in another byte order, such as
 those read from FITS files

---
 aipy/deconv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/deconv.py b/aipy/deconv.py
index 76d6627..d822dd0 100644
--- a/aipy/deconv.py
+++ b/aipy/deconv.py
@@ -35,11 +35,13 @@ def clean(im, ker, mdl=None, area=None, gain=.1, maxiter=10000, tol=1e-3,
     gain: The fraction of a residual used in each iteration.  If this is too
         low, clean takes unnecessarily long.  If it is too high, clean does
         a poor job of deconvolving."""
+    im = im.astype(im.dtype.newbyteorder('='), copy=False)
+    ker = ker.astype(ker.dtype.newbyteorder('='), copy=False)
     if mdl is None:
         mdl = np.zeros(im.shape, dtype=im.dtype)
         res = im.copy()
     else:
-        mdl = mdl.copy()
+        mdl = mdl.astype(mdl.dtype.newbyteorder('='))
         if len(mdl.shape) == 1:
             res = im - np.fft.ifft(np.fft.fft(mdl) * \
                                   np.fft.fft(ker)).astype(im.dtype)
-- 
2.43.0


From 3d68bac96a113e4a708917243c0574394103a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 067/146] fix: clean() of arrays of other ranks than 1 and 2,
 and of empty ones, ran out of the arrays

---
 aipy/_deconv/deconv.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aipy/_deconv/deconv.cpp b/aipy/_deconv/deconv.cpp
index 18525ef..27ad2f1 100644
--- a/aipy/_deconv/deconv.cpp
+++ b/aipy/_deconv/deconv.cpp
@@ -521,6 +521,13 @@ PyObject *clean(PyObject *self, PyObject *args, PyObject *kwargs) {
         dim1 = DIM(res,0); dim2 = DIM(res,1);
         CHK_ARRAY_DIM(ker, 0, dim1); CHK_ARRAY_DIM(mdl, 0, dim1); CHK_ARRAY_DIM(area, 0, dim1);
         CHK_ARRAY_DIM(ker, 1, dim2); CHK_ARRAY_DIM(mdl, 1, dim2); CHK_ARRAY_DIM(area, 1, dim2);
+    } else {
+        PyErr_Format(PyExc_ValueError, "rank(res) must be 1 or 2");
+        return NULL;
+    }
+    if (PyArray_SIZE(res) == 0) {
+        PyErr_Format(PyExc_ValueError, "arrays must not be empty");
+        return NULL;
     }
     if (TYPE(res) != TYPE(ker) || TYPE(res) != TYPE(mdl)) {
         PyErr_Format(PyExc_ValueError, "array types must match");
-- 
2.43.0


From 42f8a8ce52677355aebd8d945cc5aed23479824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 068/146] fix: lsq(), maxent() and anneal() failed for
 maxiter=0

---
 aipy/deconv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/deconv.py b/aipy/deconv.py
index d822dd0..d8b9a83 100644
--- a/aipy/deconv.py
+++ b/aipy/deconv.py
@@ -112,7 +112,7 @@ def lsq(im, ker, mdl=None, area=None, gain=.1, tol=1e-3, maxiter=200,
         g_chi2 = -2*q*(diff)
         chi2 = np.abs(diff)**2
         return chi2, g_chi2
-    score = 0
+    score, i = 0, -1
     # Start the fit loop
     for i in range(maxiter):
         chi2, g_chi2 = f(x)
@@ -182,6 +182,7 @@ def maxent(im, ker, var0, mdl=None, gain=.1, tol=1e-3, maxiter=200,
     alpha = 0.
     b_i = m_i.copy()
     info = {'success':True, 'term':'maxiter', 'var0':var0, 'tol':tol}
+    score, i = np.nan, -1
     for i in range(maxiter):
         if verbose: print('Step %d:' % i)
         d_b_i, d_alpha, score = next_step(b_i, alpha, verbose=verbose)
@@ -261,6 +262,7 @@ def anneal(im, ker, mdl=None, maxiter=1000, lower=lo_clip_lev, upper=np.inf,
     score = np.average(dif**2)
     #info = {'success':True, 'term':'maxiter', 'speed':speed}
     info = {'success':True, 'term':'maxiter'}
+    i = -1
     for i in range(maxiter):
         delta = np.random.normal(scale=1., size=mdl.shape) * cooling(i, dif/q)
         n_mdl = np.clip(mdl + delta, lower, upper)
-- 
2.43.0


From 9aea200f820645b5d50b43e0a7ee754409623529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 069/146] fix: lsq() reported the score of an earlier model
 than the one it returned

---
 aipy/deconv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/deconv.py b/aipy/deconv.py
index d8b9a83..0c01087 100644
--- a/aipy/deconv.py
+++ b/aipy/deconv.py
@@ -129,6 +129,7 @@ def lsq(im, ker, mdl=None, area=None, gain=.1, tol=1e-3, maxiter=200,
         # This check makes lsq a little slower for most images, though...
         d_x = np.where(abs(g_chi2) > 0, -(1/g_chi2) * chi2, 0)
         x = np.clip(x + gain * d_x, lower, upper)
+    score = np.average(f(x)[0])
     info.update({'res':im - np.fft.ifft2(np.fft.fft2(x) * ker_i).real,
         'score': score, 'iter':i+1})
     return x, info
-- 
2.43.0


From 3a47f45f863f8563935f3d3010eee8db92ca33b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:53 +0000
Subject: [PATCH 070/146] fix: lsq() returned NaN where the fit became exact

---
 aipy/deconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/deconv.py b/aipy/deconv.py
index 0c01087..ff9c603 100644
--- a/aipy/deconv.py
+++ b/aipy/deconv.py
@@ -127,7 +127,7 @@ def lsq(im, ker, mdl=None, area=None, gain=.1, tol=1e-3, maxiter=200,
         score = n_score
         # For especially clean imgs, g_chi2 in some components can go to 0.
         # This check makes lsq a little slower for most images, though...
-        d_x = np.where(abs(g_chi2) > 0, -(1/g_chi2) * chi2, 0)
+        d_x = np.where(abs(g_chi2) > 0, -chi2 / g_chi2, 0)
         x = np.clip(x + gain * d_x, lower, upper)
     score = np.average(f(x)[0])
     info.update({'res':im - np.fft.ifft2(np.fft.fft2(x) * ker_i).real,
-- 
2.43.0


From 856dabb3c1c0356ade0f6037c7c7bda390f55b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:52 +0000
Subject: [PATCH 071/146] fix: maxent_findvar() without a variance failed on
 Python 3

---
 aipy/deconv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/deconv.py b/aipy/deconv.py
index ff9c603..67ad9b6 100644
--- a/aipy/deconv.py
+++ b/aipy/deconv.py
@@ -212,7 +212,7 @@ def maxent_findvar(im, ker, var=None, f_var0=.6, mdl=None, gain=.1, tol=1e-3,
     if var is None:
         # Get a starting estimate of variance to use via residual of lsq
         junk, info = lsq(im, ker, mdl=mdl, gain=gain, tol=tol,
-            maxiter=maxiter/4, lower=lower, upper=upper, verbose=False)
+            maxiter=maxiter//4, lower=lower, upper=upper, verbose=False)
         var = np.var(info['res'])
         if verbose: print('Using', f_var0, 'of LSQ estimate of var=', var)
         var *= f_var0
-- 
2.43.0


From 5348a63ec7ba1d62dfde4ce737389b7221321587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 072/146] fix: parse_ants() swapped the antennas of baselines
 such as 5x_2y, but not their polarizations

---
 aipy/scripting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/scripting.py b/aipy/scripting.py
index b8178ad..8a8b50e 100644
--- a/aipy/scripting.py
+++ b/aipy/scripting.py
@@ -98,6 +98,8 @@ def parse_ants(ant_str, nants):
                         pol = [ai[1]+aj[1]]
                     if not pol is None:
                         bl = miriad.ij2bl(abs(int(ai[0])),abs(int(aj[0])))
+                        # ij2bl puts the lower antenna first
+                        if int(ai[0]) > int(aj[0]): pol = [p[::-1] for p in pol]
                         for p in pol:
                             rv.append((bl,include,p))
                     else:
-- 
2.43.0


From 7627c9af501d671cd99da8ca2485dc4cf2a2ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 073/146] fix: parse_prms() ignored what follows a parameter it
 could parse

---
 aipy/scripting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aipy/scripting.py b/aipy/scripting.py
index 8a8b50e..8521a0c 100644
--- a/aipy/scripting.py
+++ b/aipy/scripting.py
@@ -186,6 +186,8 @@ def parse_prms(prm_str):
     prms = {}
     for prm in prm_str.split(','):
         m = prm_rgx.match(prm)
+        if m is None or m.end() != len(prm):
+            raise ValueError('Unparsible parameter argument "%s"' % prm)
         g = m.groups()
         if g[2]: obj = [g[2]]
         else: obj = g[3].split('/')
-- 
2.43.0


From 2a32dc74131329b1dfbbdd7891112cfa7be5dbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 074/146] fix: parse_ants() turned a group of antennas such as
 (0,1) into polarizations

---
 aipy/scripting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/scripting.py b/aipy/scripting.py
index 8521a0c..be9e661 100644
--- a/aipy/scripting.py
+++ b/aipy/scripting.py
@@ -63,7 +63,8 @@ def parse_ants(ant_str, nants):
             m = m.groups()
             cnt += len(m[0])
             if m[2] is None:
-                ais = [m[8]]
+                if m[9] is None: ais = [m[8]]
+                else: ais = m[9].split(',')
                 ajs = range(nants)
             else:
                 if m[3] is None: ais = [m[2]]
-- 
2.43.0


From 682e6a5cf377cef9eba2b51f09f4cf7b54bb2536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 075/146] fix: gen_rfi_thresh() used floats as number of bins
 and as indices

With true division every call raised TypeError.
---
 aipy/rfi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/rfi.py b/aipy/rfi.py
index 49855f2..1c9a350 100644
--- a/aipy/rfi.py
+++ b/aipy/rfi.py
@@ -26,14 +26,14 @@ def gen_rfi_thresh(data, nsig=2, cnt_per_bin=1000):
     try: data = data.compressed()
     except(AttributeError): pass
     data = np.log10(np.abs(data))
-    try: h, bvals = np.histogram(data, bins=data.size/cnt_per_bin)
+    try: h, bvals = np.histogram(data, bins=data.size//cnt_per_bin)
     except(ValueError): return None, None
     if h.size == 0: return None, None
     # Fit a gaussian to histogram (better than just std-dev of data)
     amp, sig, off = fit_gaussian(np.arange(h.size), h)
     sig = abs(sig)
-    hi_thresh = np.clip(np.round(off + nsig*sig), 0, len(bvals)-1)
-    lo_thresh = np.clip(np.round(off - nsig*sig), 0, len(bvals)-1)
+    hi_thresh = int(np.clip(np.round(off + nsig*sig), 0, len(bvals)-1))
+    lo_thresh = int(np.clip(np.round(off - nsig*sig), 0, len(bvals)-1))
     return 10**bvals[hi_thresh], 10**bvals[lo_thresh]
 
 def flag_by_int(preflagged_auto, nsig=1, raw=False):
-- 
2.43.0


From 53e8ee4e100ac5a38cb60d8964ddfaa359ed8ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 076/146] fix: remove_spikes() flagged the wrong samples once
 some were flagged

The outliers are positions among the unflagged samples, not in the data,
and they were added to the caller's mask.
---
 aipy/rfi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/rfi.py b/aipy/rfi.py
index 1c9a350..fe9c28e 100644
--- a/aipy/rfi.py
+++ b/aipy/rfi.py
@@ -66,7 +66,8 @@ def remove_spikes(data, mask=None, order=6, iter=3, return_poly=False):
     if iter != 0:
         residual = np.abs(ndata - np.polyval(p, nxs))
         sig = np.sqrt(np.average(residual**2))
-        mask.put(np.where(residual > sig), 1)
+        mask = mask.copy()
+        mask[nxs[residual > sig]] = 1
         p = remove_spikes(data, mask=mask, order=order,
             iter=iter-1, return_poly=True)
     if return_poly: return p
-- 
2.43.0


From 96e5f2cb433491e4dc36bae31d1dabe70e3a172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 077/146] fix: flag_by_int() failed without a threshold and
 unflagged integrations

Without flagged data the mask of the averages is a scalar, too few
integrations have no threshold, and a flagged integration always stays
flagged.
---
 aipy/rfi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aipy/rfi.py b/aipy/rfi.py
index fe9c28e..de0d49c 100644
--- a/aipy/rfi.py
+++ b/aipy/rfi.py
@@ -42,14 +42,14 @@ def flag_by_int(preflagged_auto, nsig=1, raw=False):
     (both positive and negative).  If 'raw' is specified, no smooth function
     is removed."""
     pwr_vs_t = np.ma.average(np.abs(preflagged_auto), axis=1)
-    mask = pwr_vs_t.mask
+    mask = np.ma.getmaskarray(pwr_vs_t)
     if raw:
         spikey_pwr_vs_t = pwr_vs_t
     else:
         spikey_pwr_vs_t = np.abs(pwr_vs_t - remove_spikes(pwr_vs_t, mask.copy()))
     hi_thr, lo_thr = gen_rfi_thresh(spikey_pwr_vs_t, cnt_per_bin=20, nsig=nsig)
-    spikey_pwr_vs_t = spikey_pwr_vs_t.filled(hi_thr)
-    mask = spikey_pwr_vs_t >= hi_thr
+    if hi_thr is not None:
+        mask = np.logical_or(mask, spikey_pwr_vs_t.filled(hi_thr) >= hi_thr)
     return mask.astype(np.int_)
 
 def remove_spikes(data, mask=None, order=6, iter=3, return_poly=False):
-- 
2.43.0


From fe8abd25fe98a2c3ca78dc8bde1168d44ae4b05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 078/146] fix: remove_spikes() failed for a single sample

A polynomial of higher order than the samples determine is not needed
to fit them, and with channel 0 alone numpy cannot find one.
---
 aipy/rfi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aipy/rfi.py b/aipy/rfi.py
index de0d49c..00c61e1 100644
--- a/aipy/rfi.py
+++ b/aipy/rfi.py
@@ -61,8 +61,9 @@ def remove_spikes(data, mask=None, order=6, iter=3, return_poly=False):
     im = np.logical_not(mask)
     nxs = xs.compress(im)
     ndata = data.compress(im)
-    if len(nxs) != 0: p = np.polyfit(nxs, ndata, deg=order)
-    else: p = np.polyfit(xs, data, deg=order)
+    # As many samples as coefficients determine the polynomial
+    if len(nxs) != 0: p = np.polyfit(nxs, ndata, deg=min(order,len(nxs)-1))
+    else: p = np.polyfit(xs, data, deg=min(order,len(xs)-1))
     if iter != 0:
         residual = np.abs(ndata - np.polyval(p, nxs))
         sig = np.sqrt(np.average(residual**2))
-- 
2.43.0


From 63176d543cf28cc98cc3cad019370d899cdbf368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 079/146] fix: interpolate() returned a sample too few for some
 factors

The number of points of a grid of floating-point steps depends on their
rounding, e.g. for a factor of 6.
---
 aipy/interp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aipy/interp.py b/aipy/interp.py
index 993474c..7b5ad35 100644
--- a/aipy/interp.py
+++ b/aipy/interp.py
@@ -47,10 +47,9 @@ def interpolate(ys, factor, filter=default_filter, order=4):
     Order should be even to make this an averaging filter.  Internally,
     ys is extended by 2nd degree polynomial in both directions to attempt
     a smooth boundary transition."""
-    step = 1./factor
     ys = polyextend(ys, order)
     ys_ss, wgts = subsample(ys, factor)
-    fir = filter(np.arange(-order,order+step,step))
+    fir = filter(np.arange(-order*factor,order*factor+1) / float(factor))
     ys_ss = np.convolve(ys_ss, fir, mode='valid')
     wgts = np.convolve(wgts, fir, mode='valid')
     return ys_ss / wgts
-- 
2.43.0


From 153586e107f3f4c0a36c3d73ad0df40944cd1358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 080/146] fix: interpolate() moved the data by a third of a
 sample

The window of the default filter was not centred on the filter.
---
 aipy/interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/interp.py b/aipy/interp.py
index 7b5ad35..a0ad499 100644
--- a/aipy/interp.py
+++ b/aipy/interp.py
@@ -37,7 +37,7 @@ def default_filter(xs, freq=.25):
     """A basic smoothing filter using a Hamming window and a sinc function
     of the specified frequency.  Input a sample grid [-x,x] to get the
     FIR coefficients used for smoothing."""
-    i = np.arange(xs.size, dtype=np.float64) / xs.size * 2*np.pi
+    i = np.arange(xs.size, dtype=np.float64) / (xs.size-1) * 2*np.pi
     return (1-np.cos(i)) * np.sinc(freq*xs)
 
 def interpolate(ys, factor, filter=default_filter, order=4):
-- 
2.43.0


From 9bca92f44bc49f1caed52bba706e3ed8d8b8461d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 081/146] fix: gen_window() returned a number instead of a
 window for 'none'

plot_uv.py adds a dimension to it.
---
 aipy/dsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/dsp.py b/aipy/dsp.py
index 2538600..94beea1 100644
--- a/aipy/dsp.py
+++ b/aipy/dsp.py
@@ -43,7 +43,7 @@ WINDOW_FUNC = {
     'hamming': lambda x,L: .54 - .46 * np.cos(2*np.pi*x/(L-1)),
     'hanning': lambda x,L: .5 - .5 * np.cos(2*np.pi*x/(L-1)),
     'parzen': lambda x,L: 1 - np.abs(L/2. - x) / (L/2.),
-    'none': lambda x,L: 1,
+    'none': lambda x,L: np.ones(L),
     'tukey': tukey,
     'barthann': barthann
     }
-- 
2.43.0


From 13171583abcf6d261929b49de567f67fcac91c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 082/146] fix: gen_window() returned NaN or two samples for a
 length of 1

---
 aipy/dsp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/dsp.py b/aipy/dsp.py
index 94beea1..c0d7f3a 100644
--- a/aipy/dsp.py
+++ b/aipy/dsp.py
@@ -50,4 +50,5 @@ WINDOW_FUNC = {
 
 def gen_window(L, window='hamming', **kwargs):
     '''Return the specified window (see WINDOW_FUNC) for a length L.'''
+    if L == 1: return np.ones(1)
     return np.fromfunction(lambda x: WINDOW_FUNC[window](x,L,**kwargs), (L,))
-- 
2.43.0


From 436d10fc41cc3839b32841239dffde5c5a4b0d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 083/146] fix: twodgauss.moments() measured widths about the
 wrong axis' centre

A row of the image has its centre at x, a column at y.
---
 aipy/twodgauss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/twodgauss.py b/aipy/twodgauss.py
index 285ed94..2a9682f 100644
--- a/aipy/twodgauss.py
+++ b/aipy/twodgauss.py
@@ -14,8 +14,8 @@ def moments(data):
     col = data[int(y),:]
     row = data[:,int(x)]
     #First moment.
-    width_x = np.sqrt(np.abs((np.arange(col.size)-y)*col).sum()/np.abs(col).sum())
-    width_y = np.sqrt(np.abs((np.arange(row.size)-x)*row).sum()/np.abs(row).sum())
+    width_x = np.sqrt(np.abs((np.arange(col.size)-x)*col).sum()/np.abs(col).sum())
+    width_y = np.sqrt(np.abs((np.arange(row.size)-y)*row).sum()/np.abs(row).sum())
     width = ( width_x + width_y ) / 2.
     height = np.median(data.ravel())
     amplitude = data.max() - height
-- 
2.43.0


From 79dc938f6b898fd0ba4b2a3c15069122910328db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 084/146] fix: twodgaussian() swapped the widths in x and y

moments() returns them in the same order as the centre's coordinates.
---
 aipy/twodgauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/twodgauss.py b/aipy/twodgauss.py
index 2a9682f..9509108 100644
--- a/aipy/twodgauss.py
+++ b/aipy/twodgauss.py
@@ -35,7 +35,7 @@ def twodgaussian(inpars,shape=None):
     amplitude = float(amplitude)
     center_x = float(center_x)
     center_y = float(center_y)
-    width_x,width_y = inpars.pop(0),inpars.pop(0)
+    width_y,width_x = inpars.pop(0),inpars.pop(0)
     rcen_x = center_x
     rcen_y = center_y
     if len(inpars) > 0:
-- 
2.43.0


From b696ee3b868ecad3077ad547e58b3439fb72c855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 085/146] fix: twodgaussian() raised NameError for too many
 parameters

---
 aipy/twodgauss.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aipy/twodgauss.py b/aipy/twodgauss.py
index 9509108..867b627 100644
--- a/aipy/twodgauss.py
+++ b/aipy/twodgauss.py
@@ -40,8 +40,7 @@ def twodgaussian(inpars,shape=None):
     rcen_y = center_y
     if len(inpars) > 0:
         raise ValueError("There are still input parameters:" + str(inpars) + \
-                        " and you've input: " + str(inpars_old) + \
-                        " circle=%d, rotate=%d, vheight=%d" % (circle,rotate,vheight) )
+                        " and you've input: " + str(inpars_old))
     def rotgauss(x,y):
         xp = x
         yp = y
-- 
2.43.0


From bc4fd5b3c9d587f52209630b3b6bf2957fe86a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 086/146] fix: calibration modules could not be loaded with
 Python 3

exec() does not define local variables, so get_aa() and get_catalog()
always raised NameError.
---
 aipy/cal.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/aipy/cal.py b/aipy/cal.py
index b763540..fd04ec7 100644
--- a/aipy/cal.py
+++ b/aipy/cal.py
@@ -26,8 +26,9 @@ def get_aa(*args):
         cal_key,sdf,sfreq,nchan = args
         freqs = get_freqs(sdf, sfreq, nchan)
     sys.path.append(os.getcwd())
-    exec('from %s import get_aa as _get_aa' % cal_key)
-    return _get_aa(freqs)
+    ns = {}
+    exec('from %s import get_aa as _get_aa' % cal_key, ns)
+    return ns['_get_aa'](freqs)
 
 def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
     '''Return the source catalog specified by cal_key, which should be the
@@ -38,6 +39,7 @@ def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
     specified srcs, cutoff.  If no such function is found, src.get_catalog()
     is called instead.'''
     sys.path.append(os.getcwd())
-    try: exec('from %s import get_catalog as _get_catalog' % cal_key)
-    except(ImportError): _get_catalog = src.get_catalog
-    return _get_catalog(srcs=srcs, cutoff=cutoff, catalogs=catalogs)
+    ns = {}
+    try: exec('from %s import get_catalog as _get_catalog' % cal_key, ns)
+    except(ImportError): ns['_get_catalog'] = src.get_catalog
+    return ns['_get_catalog'](srcs=srcs, cutoff=cutoff, catalogs=catalogs)
-- 
2.43.0


From 0e3321404a5c7df401a24ce4a1630ba3f9181a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:27 +0000
Subject: [PATCH 087/146] fix: get_catalog() raised SyntaxError without a
 calibration module

That is its default.
---
 aipy/cal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aipy/cal.py b/aipy/cal.py
index fd04ec7..6292e1c 100644
--- a/aipy/cal.py
+++ b/aipy/cal.py
@@ -40,6 +40,8 @@ def get_catalog(cal_key=None, srcs=None, cutoff=None, catalogs=['helm','misc']):
     is called instead.'''
     sys.path.append(os.getcwd())
     ns = {}
-    try: exec('from %s import get_catalog as _get_catalog' % cal_key, ns)
+    try:
+        if cal_key is None: raise ImportError('No calibration module')
+        exec('from %s import get_catalog as _get_catalog' % cal_key, ns)
     except(ImportError): ns['_get_catalog'] = src.get_catalog
     return ns['_get_catalog'](srcs=srcs, cutoff=cutoff, catalogs=catalogs)
-- 
2.43.0


From 57790557a70973a2747d490f10d783ad7ff31fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 088/146] fix: pull_ants.py failed writing its history and
 selected no antenna

Antenna numbers were compared to their names.
---
 scripts/pull_ants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/pull_ants.py b/scripts/pull_ants.py
index 2d0042c..0693029 100755
--- a/scripts/pull_ants.py
+++ b/scripts/pull_ants.py
@@ -26,7 +26,7 @@ for filename in args:
         print('File exists, skipping')
         continue
 
-    ants2use = opts.ants.split(',')
+    ants2use = [int(ant) for ant in opts.ants.split(',')]
 
     def mfunc(uv,p,d):
         uvw,t,(i,j) = p
@@ -36,7 +36,7 @@ for filename in args:
     uvi = a.miriad.UV(filename)
     uvo = a.miriad.UV(outfile,status='new')
     uvo.init_from_uv(uvi)
-    histstr = 'PULL ANTS: ants='%opts.refant
+    histstr = 'PULL ANTS: ants='
     for ant in ants2use:
         histstr += str(ant)+','
         if ant == ants2use[-1]: histstr += '\n'
-- 
2.43.0


From 299f0293f2be3df88acf5493b235b8b864c75be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 089/146] fix: combine_freqs.py used floats for numbers of
 channels

With true division the data could not be reshaped.
---
 scripts/combine_freqs.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scripts/combine_freqs.py b/scripts/combine_freqs.py
index 5530355..6b192db 100755
--- a/scripts/combine_freqs.py
+++ b/scripts/combine_freqs.py
@@ -32,8 +32,9 @@ for uvfile in args:
     print(uvfile,'->',uvfile+'m')
     uvi = a.miriad.UV(uvfile)
     sfreq,sdf,nchan = uvi['sfreq'], uvi['sdf'], uvi['nchan']
-    newsfreq = sfreq + ((nchan/opts.nchan) * sdf) / 2
-    newsdf = sdf * (nchan/opts.nchan)
+    navg = nchan // opts.nchan
+    newsfreq = sfreq + (navg * sdf) / 2
+    newsdf = sdf * navg
 
     if uvo is None:
         uvofile = uvfile+'m'
@@ -50,14 +51,14 @@ for uvfile in args:
     if nchan != opts.nchan:
         def mfunc(uv, p, d, f):
             d = np.where(f, 0, d)
-            d.shape = (opts.nchan, nchan/opts.nchan)
+            d.shape = (opts.nchan, navg)
             d = d.sum(axis=1)
-            f.shape = (opts.nchan, nchan/opts.nchan)
+            f.shape = (opts.nchan, navg)
             f = np.logical_not(f).astype(np.int_).sum(axis=1)
             d /= f.clip(1,np.inf)
-            if opts.careful_flag: f = np.where(f < nchan/opts.nchan, 1, 0)
+            if opts.careful_flag: f = np.where(f < navg, 1, 0)
             elif opts.dont_flag: f = np.where(f < 1, 1, 0)
-            else: f = np.where(f <= nchan/opts.nchan/2, 1, 0)
+            else: f = np.where(f <= navg/2, 1, 0)
             return p, np.where(f, 0, d), f
         uvo.pipe(uvi, mfunc=mfunc, raw=True,
             append2hist='COMB_FREQ: nchan=%d careful=%s dont=%s unify=%s\n' % \
-- 
2.43.0


From cf4253f9c2699d495bfd65148fc09ca77c71ad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 090/146] fix: combine_freqs.py labelled channels half a
 channel too high

sfreq is the centre of the first channel, so that of navg channels is
(navg-1)/2 channels above it.
---
 scripts/combine_freqs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_freqs.py b/scripts/combine_freqs.py
index 6b192db..b54afe6 100755
--- a/scripts/combine_freqs.py
+++ b/scripts/combine_freqs.py
@@ -33,7 +33,7 @@ for uvfile in args:
     uvi = a.miriad.UV(uvfile)
     sfreq,sdf,nchan = uvi['sfreq'], uvi['sdf'], uvi['nchan']
     navg = nchan // opts.nchan
-    newsfreq = sfreq + (navg * sdf) / 2
+    newsfreq = sfreq + ((navg-1) * sdf) / 2
     newsdf = sdf * navg
 
     if uvo is None:
-- 
2.43.0


From 851eee03d1007ce93d35a6ed919132d14ac1745a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 091/146] fix: combine_freqs.py --unify kept the variables of
 the first file

Only variables that are tracked are copied as they change, so that
polarizations, times and other variables of the files after the first
were lost.
---
 scripts/combine_freqs.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scripts/combine_freqs.py b/scripts/combine_freqs.py
index b54afe6..c5af84f 100755
--- a/scripts/combine_freqs.py
+++ b/scripts/combine_freqs.py
@@ -36,17 +36,20 @@ for uvfile in args:
     newsfreq = sfreq + ((navg-1) * sdf) / 2
     newsdf = sdf * navg
 
+    override = {}
+    if nchan != opts.nchan:
+        override = {'nchan':opts.nchan, 'sfreq':newsfreq, 'sdf':newsdf,
+            'nschan':opts.nchan, 'freq':newsfreq, 'nchan0':opts.nchan}
     if uvo is None:
         uvofile = uvfile+'m'
         if os.path.exists(uvofile):
             print(uvofile, 'exists, skipping.')
             continue
         uvo = a.miriad.UV(uvofile, status='new')
-        if nchan != opts.nchan:
-            uvo.init_from_uv(uvi, override={'nchan':opts.nchan,
-                'sfreq':newsfreq, 'sdf':newsdf, 'nschan':opts.nchan,
-                'freq':newsfreq, 'nchan0':opts.nchan, },)
-        else: uvo.init_from_uv(uvi)
+        uvo.init_from_uv(uvi, override=override)
+    else:
+        for k in uvi.vars():
+            if k != 'corr' and k not in override: uvi.trackvr(k, 'c')
 
     if nchan != opts.nchan:
         def mfunc(uv, p, d, f):
-- 
2.43.0


From 5cdd6915e183e41ede2b63682792c753926f97ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 092/146] fix: compress_uv.py passed file names to a shell

Names with spaces or other special characters archived, and with -d
deleted, other files.
---
 scripts/compress_uv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scripts/compress_uv.py b/scripts/compress_uv.py
index 1328c43..4b4eb3c 100755
--- a/scripts/compress_uv.py
+++ b/scripts/compress_uv.py
@@ -8,7 +8,7 @@ Date: 8/14/07
 
 from __future__ import print_function, division, absolute_import
 
-import sys, os
+import sys, os, shutil, subprocess
 from optparse import OptionParser
 
 p = OptionParser()
@@ -24,16 +24,16 @@ opts, args = p.parse_args(sys.argv[1:])
 for i in args:
     print(i)
     if opts.expand:
-        rv = os.system('tar xjf %s' % i)
+        rv = subprocess.call(['tar', 'xjf', i])
         if rv != 0: break
         continue
     cmp_name = i + '.tar.bz2'
     if os.path.exists(cmp_name):
         print(cmp_name, 'exists; skipping...')
         continue
-    rv = os.system('tar jcf %s %s' % (cmp_name, i))
+    rv = subprocess.call(['tar', 'jcf', cmp_name, i])
     # If tar fails, delete malformed tarball and then exit
     if rv != 0:
-        os.system('rm -rf %s' % (cmp_name))
+        if os.path.exists(cmp_name): os.remove(cmp_name)
         break
-    if opts.delete: os.system('rm -rf %s' % (i))
+    if opts.delete: shutil.rmtree(i)
-- 
2.43.0


From 654810bb0694d75461111ddafeb9680449ed3c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 093/146] fix: phs2src.py could not get the source from its
 catalog

A dictionary's values are not a list.
---
 scripts/phs2src.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/phs2src.py b/scripts/phs2src.py
index fbafc6a..99995b5 100755
--- a/scripts/phs2src.py
+++ b/scripts/phs2src.py
@@ -25,7 +25,8 @@ aa = a.cal.get_aa(opts.cal, uv['sdf'], uv['sfreq'], uv['nchan'])
 if not opts.src is None:
     if not opts.src.startswith('zen'):
         srclist,cutoff,catalogs = a.scripting.parse_srcs(opts.src, opts.cat)
-        src = a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs).values()[0]
+        src = a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs)
+        src = list(src.values())[0]
     else: src = 'z'
 else: src = None
 del(uv)
-- 
2.43.0


From b4d097a25bc61b4272657d98d1811572b7f3ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 094/146] fix: phs2src.py removed half of the phase offset

Offsets are in cycles, as in phs2src() of the array.
---
 scripts/phs2src.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/phs2src.py b/scripts/phs2src.py
index 99995b5..3fcce13 100755
--- a/scripts/phs2src.py
+++ b/scripts/phs2src.py
@@ -45,7 +45,7 @@ def phs(uv, p, d, f):
     if i == j: return p, d, f
     try:
         if opts.setphs: d = aa.unphs2src(np.abs(d), src, i, j)
-        elif src is None: d *= np.exp(-1j*np.pi*aa.get_phs_offset(i,j))
+        elif src is None: d *= np.exp(-2j*np.pi*aa.get_phs_offset(i,j))
         else: d = aa.phs2src(d, src, i, j)
         if opts.rot_uvw:
             uvw = aa.gen_uvw(i,j,src=src)
-- 
2.43.0


From db1222615f04fbcba2f56df890f55b8a515c9552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 095/146] fix: phs2src.py --rot_uvw wrote wavelengths per
 channel as uvw

The coordinates of a record are three numbers in nanoseconds.
---
 scripts/phs2src.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/phs2src.py b/scripts/phs2src.py
index 3fcce13..e2caf55 100755
--- a/scripts/phs2src.py
+++ b/scripts/phs2src.py
@@ -47,8 +47,8 @@ def phs(uv, p, d, f):
         if opts.setphs: d = aa.unphs2src(np.abs(d), src, i, j)
         elif src is None: d *= np.exp(-2j*np.pi*aa.get_phs_offset(i,j))
         else: d = aa.phs2src(d, src, i, j)
-        if opts.rot_uvw:
-            uvw = aa.gen_uvw(i,j,src=src)
+        if opts.rot_uvw and not src is None:
+            uvw = aa.get_baseline(i,j,src=src)
             p = (uvw,t,(i,j))
     except(a.phs.PointingError): d *= 0
     return p, d, f
-- 
2.43.0


From 55e1a939ae5e3eaab6e13dc7e2c2534ff0722666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 096/146] fix: srclist.py used methods dictionaries no longer
 have

---
 scripts/srclist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/srclist.py b/scripts/srclist.py
index 304b930..f86b718 100755
--- a/scripts/srclist.py
+++ b/scripts/srclist.py
@@ -71,7 +71,7 @@ else:
     aa.set_jultime(opts.juldate)
 
 for c in [cat, xcat, ccat]:
-    for s in c.keys():
+    for s in list(c.keys()):
         try: ephem.FixedBody.compute(c[s], date)
         except(TypeError):
             if opts.juldate is None: del(c[s])
@@ -112,8 +112,8 @@ else:
         prms = opts.prms.split(',')
         for s in srcs:
             p = cat.get_params({s:prms})
-            if p[s].has_key('ra'):  p[s]['ra'] = ephem.hours(p[s]['ra'])
-            if p[s].has_key('dec'): p[s]['dec'] = ephem.degrees(p[s]['dec'])
+            if 'ra' in p[s]:  p[s]['ra'] = ephem.hours(p[s]['ra'])
+            if 'dec' in p[s]: p[s]['dec'] = ephem.degrees(p[s]['dec'])
             a.fit.print_params(p)
     else:
         prms = opts.prms.split(',')
-- 
2.43.0


From 182985cfa04c8b110c124dbf4c10d86c31d9cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 097/146] fix: srclist.py --fitprms did not separate the last
 two sources

---
 scripts/srclist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/srclist.py b/scripts/srclist.py
index f86b718..22864dc 100755
--- a/scripts/srclist.py
+++ b/scripts/srclist.py
@@ -128,6 +128,6 @@ else:
             for i,prm in enumerate(p[s].keys()):
                 if i<pcnt-1: outstring += prm+"/"
                 else: outstring += prm
-            if scount<snum-1:outstring += "),"
+            if scount<snum:outstring += "),"
             else: outstring += ")"
         print(outstring)
-- 
2.43.0


From 51a26c302cd098868d1587a2cedc65053c691e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 098/146] fix: flux_cal.py could not get the source from its
 catalog

A dictionary's values are not a list.
---
 scripts/flux_cal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/flux_cal.py b/scripts/flux_cal.py
index 8dcc81f..5ef5042 100755
--- a/scripts/flux_cal.py
+++ b/scripts/flux_cal.py
@@ -34,7 +34,7 @@ del(uv)
 if opts.srcflux:
     srclist,cutoff,catalogs = a.scripting.parse_srcs(opts.src, opts.cat)
     cat = a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs)
-    s = cat.values()[0]
+    s = list(cat.values())[0]
     print('Calibrating for source with', end='')
     print('strength', s._jys, end='')
     print('measured at', s.mfreq, 'GHz', end='')
-- 
2.43.0


From 5bdf34c5ef437dbc6e72827f1148729e36404a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 099/146] fix: flux_cal.py --beam failed without --srcflux

The beam is that towards the source, too.
---
 scripts/flux_cal.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scripts/flux_cal.py b/scripts/flux_cal.py
index 5ef5042..de743da 100755
--- a/scripts/flux_cal.py
+++ b/scripts/flux_cal.py
@@ -31,7 +31,7 @@ freqs = a.cal.get_freqs(uv['sdf'], uv['sfreq'], uv['nchan'])
 aa = a.cal.get_aa(opts.cal, uv['sdf'], uv['sfreq'], uv['nchan'])
 del(uv)
 
-if opts.srcflux:
+if opts.srcflux or opts.beam:
     srclist,cutoff,catalogs = a.scripting.parse_srcs(opts.src, opts.cat)
     cat = a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs)
     s = list(cat.values())[0]
@@ -39,8 +39,7 @@ if opts.srcflux:
     print('strength', s._jys, end='')
     print('measured at', s.mfreq, 'GHz', end='')
     print('with index', s.index)
-    src_spec = None
-else: src_spec = 1
+src_spec = 1
 
 curtime = None
 def mfunc(uv, p, d, f):
@@ -51,9 +50,9 @@ def mfunc(uv, p, d, f):
     if t != curtime:
         curtime = t
         aa.set_jultime(t)
-        if opts.srcflux:
+        if opts.srcflux or opts.beam:
             s.compute(aa)
-            src_spec = s.get_jys()
+            if opts.srcflux: src_spec = s.get_jys()
             s_eq = cat.get_crds('eq', ncrd=3)
             aa.sim_cache(s_eq)
     if opts.passband:
-- 
2.43.0


From 10c83e38db802dcf4a7c1c42a95584d8938d754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 100/146] fix: filter_src.py failed for polarizations not
 selected

Their data are left as they are.
---
 scripts/filter_src.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/filter_src.py b/scripts/filter_src.py
index 8482a1c..cf7c258 100755
--- a/scripts/filter_src.py
+++ b/scripts/filter_src.py
@@ -150,6 +150,7 @@ for uvfile in args:
         uvw, t, (i,j) = p
         if i == j: return p, d
         pol = a.miriad.pol2str[uv['pol']]
+        if not pol in pols: return p, d
         aa.set_active_pol(pol)
         bl = a.miriad.ij2bl(i,j)
         data = phs_dat[pol][bl][cnt[pol][bl],:]
-- 
2.43.0


From ac01adee9dab5b7403ad86bc67e1faf32e3de12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 101/146] fix: xtalk3.py used methods dictionaries no longer
 have

---
 scripts/xtalk3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/xtalk3.py b/scripts/xtalk3.py
index ecdfecb..ecedad2 100755
--- a/scripts/xtalk3.py
+++ b/scripts/xtalk3.py
@@ -36,7 +36,7 @@ opts,args = o.parse_args(sys.argv[1:])
 assert(not opts.infile or not opts.outfile)
 
 if opts.reprocess:
-    chans = map(int, opts.chan.split('_'))
+    chans = [int(ch) for ch in opts.chan.split('_')]
     xsum, cnt, gain, times = {}, {}, {}, []
     for filename in args:
         uv = a.miriad.UV(filename)
@@ -51,7 +51,7 @@ if opts.reprocess:
         for bl in xtalk.files:
             dat = np.array(xtalk[bl])
             adat = np.ma.masked_equal(np.abs(dat), 0)
-            if not gain.has_key(bl): gain[bl] = []
+            if not bl in gain: gain[bl] = []
             gain[bl].append(np.average(adat[chans[0]:chans[1]]))
             dat /= gain[bl][-1]
             xsum[bl] = xsum.get(bl, 0) + dat
@@ -87,7 +87,7 @@ for filename in args:
         guess, cnt, xtalk = {}, {}, {}
         for (uvw,t,(i,j)),d,f in uv.all(raw=True):
             bl = str(a.pol.ijp2blp(i,j,uv['pol']))
-            if not guess.has_key(bl): guess[bl], cnt[bl] = 0, 0
+            if not bl in guess: guess[bl], cnt[bl] = 0, 0
             guess[bl] += np.where(f, 0, d)
             cnt[bl] += np.logical_not(f)
         del(uv)
-- 
2.43.0


From 9528565cac8a13d162b23958c4b4a30b91c98d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 102/146] fix: xrfi.py could not sort the times of its data

A dictionary's keys are not a list.
---
 scripts/xrfi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/xrfi.py b/scripts/xrfi.py
index a99ae48..e619ada 100755
--- a/scripts/xrfi.py
+++ b/scripts/xrfi.py
@@ -119,8 +119,7 @@ for uvfile in args:
           for bl in data[pol]:
             i, j = a.miriad.bl2ij(bl)
             if i != j: continue
-            data_times = data[pol][bl].keys()
-            data_times.sort()
+            data_times = sorted(data[pol][bl].keys())
             d = np.ma.array([data[pol][bl][t] for t in data_times],
                 mask=[mask[pol][bl][t] for t in data_times])
             bad_ints = a.rfi.flag_by_int(d, nsig=opts.nsig, raw=opts.raw)
-- 
2.43.0


From 345eaba3430b84197147fdef37652ac933f99462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 103/146] fix: xrfi.py --share combined dictionaries instead of
 masks

---
 scripts/xrfi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/xrfi.py b/scripts/xrfi.py
index e619ada..c986e2d 100755
--- a/scripts/xrfi.py
+++ b/scripts/xrfi.py
@@ -38,7 +38,7 @@ def share_mask(mask):
     for pol in mask:
       for bl in mask[pol]:
         for t in mask[pol][bl]:
-            m[t] = m.get(t,0) | mask[pol][bl]
+            m[t] = m.get(t,0) | mask[pol][bl][t]
     for pol in mask:
       for bl in mask[pol]:
         for t in mask[pol][bl]:
-- 
2.43.0


From 1ea08d5ab145bf659274e59aefb29b435462e5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 104/146] fix: xrfi.py failed for data too few for a threshold

---
 scripts/xrfi.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/xrfi.py b/scripts/xrfi.py
index c986e2d..255ddd6 100755
--- a/scripts/xrfi.py
+++ b/scripts/xrfi.py
@@ -99,7 +99,8 @@ for uvfile in args:
             d = np.ma.array([data[pol][bl][t] for t in data_times],
                 mask=[mask[pol][bl][t] for t in data_times])
             hi_thr, lo_thr = a.rfi.gen_rfi_thresh(d, nsig=opts.nsig)
-            m = np.where(np.abs(d) > hi_thr,1,0)
+            if hi_thr is None: m = np.zeros(d.shape, dtype=np.int_)
+            else: m = np.where(np.abs(d) > hi_thr,1,0)
             for i, t in enumerate(data_times): mask[pol][bl][t] |= m[i]
             # If more than ch_thresh of the data in a channel or
             # integration is flagged, flag the whole thing
-- 
2.43.0


From d49eb382582a2b74b7067e7729aad150acb9d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 105/146] fix: xrfi_simple.py used lists where dictionaries
 return views

---
 scripts/xrfi_simple.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scripts/xrfi_simple.py b/scripts/xrfi_simple.py
index 2e9b348..00d4f8f 100755
--- a/scripts/xrfi_simple.py
+++ b/scripts/xrfi_simple.py
@@ -74,8 +74,7 @@ for uvfile in args:
         for pol in data:
           for bl in data[pol]:
             i, j = a.miriad.bl2ij(bl)
-            data_times = data[pol][bl].keys()
-            data_times.sort()
+            data_times = sorted(data[pol][bl].keys())
             d = np.array([data[pol][bl][t] for t in data_times])
             m = np.array([mask[pol][bl][t] for t in data_times])
             if opts.df != None:
@@ -114,8 +113,8 @@ for uvfile in args:
     if opts.to_npz:
         print('    Writing flags to', opts.to_npz)
         m = {}
-        _m = mask.values()[0].values()[0]
-        times = np.array(_m.keys())
+        _m = list(list(mask.values())[0].values())[0]
+        times = np.array(list(_m.keys()))
         for cnt,t in enumerate(times): m[str(cnt)] = _m[t]
         m['times'] = times
         np.savez(opts.to_npz, **m)
@@ -125,7 +124,7 @@ for uvfile in args:
             uvw, t, (i,j) = preamble
             bl = a.miriad.ij2bl(i,j)
             if opts.combine:
-                try: m = mask.values()[0].values()[0][t]
+                try: m = list(list(mask.values())[0].values())[0][t]
                 except(KeyError): m = np.ones_like(flags) # default to flagging
             else: m = mask[uv['pol']][bl][t]
             return preamble, np.where(m, 0, data), m
-- 
2.43.0


From a431dee01aac01541770b82da905f53af40f8442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 106/146] fix: xrfi.py took --ch_thresh as a fraction of the
 most flagged channel

It is documented as that of the data in a channel: with few flags, a
single one flagged its channel at all times.
---
 scripts/xrfi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/xrfi.py b/scripts/xrfi.py
index 255ddd6..f3b9437 100755
--- a/scripts/xrfi.py
+++ b/scripts/xrfi.py
@@ -105,7 +105,7 @@ for uvfile in args:
             # If more than ch_thresh of the data in a channel or
             # integration is flagged, flag the whole thing
             ch_cnt = np.array([mask[pol][bl][t] for t in data_times]).sum(axis=0)
-            ch_msk = np.where(ch_cnt > ch_cnt.max()*opts.ch_thresh,1,0)
+            ch_msk = np.where(ch_cnt > len(data_times)*opts.ch_thresh,1,0)
             for t in mask[pol][bl]:
                 if mask[pol][bl][t].sum() > mask[pol][bl][t].size \
                         * opts.int_thresh:
-- 
2.43.0


From 5f0c4b6672b5bf53559b697e16d6f45ffe78b41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:27 +0000
Subject: [PATCH 107/146] fix: print_params() ran names and values together

The Python 2 print statement separated them with a space.
---
 aipy/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index 4d8edaf..af2312b 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -62,7 +62,7 @@ def print_params(prms, indent='', grad=None):
             if grad is None: print_params(v, indent + '  ')
             else: print_params(v, indent + '  ', grad[k])
         else:
-            print(indent, k, end='')
+            print(indent, k, end=' ')
             if grad is None:
                 if not type(v) is list:
                     try: v = [list(v)]
-- 
2.43.0


From 83837b3676c377e4ca26f9bc1d3ee12541a54162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 108/146] fix: xtalk3.py -r mixed up the gains when a crosstalk
 file was missing

The gains were numbered by the files found, and looked up by the
number of the UV file (IndexError, or another file's gain).
---
 scripts/xtalk3.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scripts/xtalk3.py b/scripts/xtalk3.py
index ecedad2..84e3c63 100755
--- a/scripts/xtalk3.py
+++ b/scripts/xtalk3.py
@@ -43,24 +43,25 @@ if opts.reprocess:
         (uvw,jd,(i,j)),d,f = uv.read(raw=True)
         xfile = '%f.xtalk.npz' % jd
         print(xfile)
-        times.append(jd)
         if not os.path.exists(xfile):
             print(xfile, 'does not exist.  Skipping...')
             continue
+        times.append(jd)
         xtalk = np.load(xfile)
         for bl in xtalk.files:
             dat = np.array(xtalk[bl])
             adat = np.ma.masked_equal(np.abs(dat), 0)
-            if not bl in gain: gain[bl] = []
-            gain[bl].append(np.average(adat[chans[0]:chans[1]]))
-            dat /= gain[bl][-1]
+            if not bl in gain: gain[bl] = {}
+            gain[bl][jd] = np.average(adat[chans[0]:chans[1]])
+            dat /= gain[bl][jd]
             xsum[bl] = xsum.get(bl, 0) + dat
             cnt[bl] = cnt.get(bl, 0) + np.logical_not(adat.mask).astype(np.int_)
     for bl in xsum: xsum[bl] /= np.where(cnt[bl] == 0, 1, cnt[bl])
-    for c, jd in enumerate(times):
+    for jd in times:
         repfile = '%f.xtalk.rep.npz' % jd
         xtalk = {}
-        for bl in xsum: xtalk[bl] = gain[bl][c] * xsum[bl]
+        for bl in xsum:
+            if jd in gain[bl]: xtalk[bl] = gain[bl][jd] * xsum[bl]
         print('Writing', repfile)
         np.savez(repfile, **xtalk)
     import sys; sys.exit(0)
-- 
2.43.0


From 6062d318b1eb0c499851500b03095f0aa825fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 109/146] fix: xrfi_simple.py raised KeyError for baselines not
 selected

By default only cross-correlations are looked at; records that were
not keep the flags they had.
---
 scripts/xrfi_simple.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/xrfi_simple.py b/scripts/xrfi_simple.py
index 00d4f8f..e57b5cc 100755
--- a/scripts/xrfi_simple.py
+++ b/scripts/xrfi_simple.py
@@ -126,7 +126,9 @@ for uvfile in args:
             if opts.combine:
                 try: m = list(list(mask.values())[0].values())[0][t]
                 except(KeyError): m = np.ones_like(flags) # default to flagging
-            else: m = mask[uv['pol']][bl][t]
+            else:
+                try: m = mask[uv['pol']][bl][t]
+                except(KeyError): m = flags # not selected: leave alone
             return preamble, np.where(m, 0, data), m
 
         uvi = a.miriad.UV(uvfile)
-- 
2.43.0


From 916cf74f6de2523ee034e4f5e8aa901993ddf50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 110/146] fix: filter_src.py -d -1 took phases for delays

get_phs_offset() returns the phase offset of each channel, of which
the last two were taken for the delay and offset of a baseline (for a
single channel this raised ValueError, whatever -d was).  The delay is
the slope of the phase, and delays that are positive lie at negative
bins of the inverse transform used here; ranges of bins that do not
include 0 were not recognised as such.
---
 scripts/filter_src.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scripts/filter_src.py b/scripts/filter_src.py
index cf7c258..6c914b2 100755
--- a/scripts/filter_src.py
+++ b/scripts/filter_src.py
@@ -20,7 +20,9 @@ def gen_skypass_delay(aa, sdf, nchan, pol, max_bl_frac=1.5):
         bl = aa.ij2bl(i,j)
         max_bl = aa.get_baseline(i,j)
         max_bl = max_bl_frac * np.sqrt(np.dot(max_bl, max_bl))
-        dly,off = aa.get_phs_offset(i,j)[-2:]
+        # A delay tau, as exp(2j*pi*tau*fq), is at -tau in the inverse FFT
+        off = aa.get_phs_offset(i,j)
+        dly = -(off[-1] - off[0]) / (sdf * max(nchan-1, 1))
         uthresh, lthresh = (dly + max_bl)/bin_dly + 1, (dly - max_bl)/bin_dly
         uthresh, lthresh = int(np.round(uthresh)), int(np.round(lthresh))
         filters[bl] = (uthresh,lthresh)
@@ -130,8 +132,11 @@ for uvfile in args:
             if opts.dw != -1:
                 y1, y2 = opts.dw, -opts.dw
                 if y2 == 0: y2 = d.shape[1]
-            else: y1, y2 = filters[pol][bl]
-            d[:,y1:y2] = 0
+                d[:,y1:y2] = 0
+            else:
+                y1, y2 = filters[pol][bl]
+                chans = np.arange(d.shape[1])
+                d[:,(chans - y2) % d.shape[1] >= y1 - y2] = 0
             if opts.drw != -1: d = np.fft.fft(d, axis=0)
             d = np.fft.fft(d, axis=1)
             # unpad the data
-- 
2.43.0


From 7178a8b1af6b3720a5cb80958118cc76d81150ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 111/146] fix: filter_src.py failed without a source with
 recent numpy

FFTs of complex64 data are now complex64, but clean() wants its image
and kernel to be of the same type.
---
 scripts/filter_src.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/filter_src.py b/scripts/filter_src.py
index 6c914b2..bed6e50 100755
--- a/scripts/filter_src.py
+++ b/scripts/filter_src.py
@@ -96,7 +96,7 @@ for uvfile in args:
             if opts.passband: flags *= aa.passband(i,j)
             gain = np.sqrt(np.average(flags**2))
             ker = np.fft.ifft(flags)
-            d = np.where(f, 0, d)
+            d = np.where(f, 0, d).astype(np.complex128)
             src_up = True
             d = np.fft.ifft(d)
             if not np.all(d == 0):
-- 
2.43.0


From f7634a8bc796891e6bafa7568bab95d9e1f7b826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 112/146] fix: filter_src.py -P failed for complex passbands

The passband of a baseline is complex, and cannot be multiplied into
real weights in place.
---
 scripts/filter_src.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/filter_src.py b/scripts/filter_src.py
index bed6e50..7b25b41 100755
--- a/scripts/filter_src.py
+++ b/scripts/filter_src.py
@@ -93,8 +93,8 @@ for uvfile in args:
             if not src is None:
                 d = aa.phs2src(d, src, i, j)
             # Put passband into kernel, where it gets divided out of the data
-            if opts.passband: flags *= aa.passband(i,j)
-            gain = np.sqrt(np.average(flags**2))
+            if opts.passband: flags = flags * aa.passband(i,j)
+            gain = np.sqrt(np.average(np.abs(flags)**2))
             ker = np.fft.ifft(flags)
             d = np.where(f, 0, d).astype(np.complex128)
             src_up = True
-- 
2.43.0


From 0b32bd74ea7dd5aa3fa7f981ec2167ac5d8f2cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 113/146] fix: filter_src.py -r wrote NaNs for baselines
 entirely flagged

There is nothing to transform, and no gain to divide by.
---
 scripts/filter_src.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/filter_src.py b/scripts/filter_src.py
index 7b25b41..79edd88 100755
--- a/scripts/filter_src.py
+++ b/scripts/filter_src.py
@@ -118,7 +118,7 @@ for uvfile in args:
             # effects of a delay-rate filter
             padlen = math.ceil(d.shape[0] * .1)
             d = np.concatenate([np.flipud(d[:padlen]), d, np.flipud(d[-padlen:])])
-            if opts.drw != -1:
+            if opts.drw != -1 and not np.all(d == 0):
                 flags = np.where(d[:,0] != 0, 1., 0.)
                 gain = np.sqrt(np.average(flags**2))
                 ker = np.fft.ifft(flags)
-- 
2.43.0


From c688d02c1415bee0c1612cf810a957b961e50c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 114/146] fix: mk_img.py --list_facets sorts a list, not a view

---
 scripts/mk_img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index 94f0618..ca5189c 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -84,7 +84,7 @@ else:
 
 if opts.list_facets:
     cat.compute(aa)
-    srcs = cat.keys(); srcs.sort()
+    srcs = sorted(cat.keys())
     for cnt, src in enumerate(cat.values()):
         cen = ephem.Equatorial(src.ra, src.dec, epoch=aa.epoch)
         cen = ephem.Equatorial(cen, epoch=ephem.J2000)
-- 
2.43.0


From 01c2e701c1371db2ccc90f6e7371344cc5ca5b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 115/146] fix: mk_img.py --snap: the first image had one
 integration too few

---
 scripts/mk_img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index ca5189c..d1c1efc 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -168,7 +168,7 @@ for srccnt, s in enumerate(cat.values()):
     print('Pointing (ra, dec):', s.ra, s.dec)
     src = a.fit.SrcCatalog([s])
     # Gather data
-    snapcnt,curtime = 0, None
+    snapcnt,curtime = -1, None
     # Read each file
     for filename in args:
       sys.stdout.write('.'); sys.stdout.flush()
-- 
2.43.0


From b3a5a9b556176aa7ce4e9fd625e57427487ce80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 116/146] fix: cl_img.py sorts the images to use and slices
 with integers

---
 scripts/cl_img.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scripts/cl_img.py b/scripts/cl_img.py
index 9d65f85..394f35a 100755
--- a/scripts/cl_img.py
+++ b/scripts/cl_img.py
@@ -38,8 +38,7 @@ opts, args = o.parse_args(sys.argv[1:])
 outputs = opts.output.split(',')
 keys = {}
 for arg in args: keys[arg[:-len('.dim.fits')]] = None
-keys = keys.keys()
-keys.sort()
+keys = sorted(keys.keys())
 
 # Define a quick function writing an image to a FITS file
 def to_fits(prefix,ftag,i,kwds):
@@ -126,7 +125,7 @@ for cnt, k in enumerate(keys):
     #Fit a 2d Gaussian to the dirty beam and convolve that with the clean components.
     dbm_fit = np.fft.fftshift(dbm)
     DIM = dbm.shape[0]
-    lo,hi = (DIM-30)/2,(DIM+30)/2
+    lo,hi = (DIM-30)//2,(DIM+30)//2
     dbm_fit = dbm_fit[lo:hi,lo:hi]
     if opts.deconv == 'none': # XXX this is a hack
         rim = info['res']
-- 
2.43.0


From 9dd8629fe5cccff0a8f1a90fcb581f775b89bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 117/146] fix: mk_map.py put images upside down into the map

---
 scripts/mk_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/mk_map.py b/scripts/mk_map.py
index 0151cdf..e738625 100755
--- a/scripts/mk_map.py
+++ b/scripts/mk_map.py
@@ -53,7 +53,8 @@ for i, filename in enumerate(args):
     if prev_dra != kwds['d_ra']:
         prev_dra = kwds['d_ra']
         DIM = img.shape[0]
-        RES = 1. / (kwds['d_ra'] * a.img.deg2rad * DIM)
+        # RA increases to the left, so FITS files have a negative d_ra
+        RES = 1. / (np.abs(kwds['d_ra']) * a.img.deg2rad * DIM)
         im = a.img.Img(DIM*RES, RES, mf_order=0)
         tx,ty,tz = im.get_top(center=(DIM/2,DIM/2))
         # Define a weighting for gridding data into the skymap
-- 
2.43.0


From 3a4aed7f41da996dc140e45b547b6a29c10080b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 118/146] fix: fitmdl.py used has_key, sorted views and
 SocketServer

---
 scripts/fitmdl.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/fitmdl.py b/scripts/fitmdl.py
index 2b0530c..fddf8e2 100755
--- a/scripts/fitmdl.py
+++ b/scripts/fitmdl.py
@@ -60,12 +60,12 @@ if opts.maxiter < 0: opts.maxiter = np.inf
 prms, prm_dict, shkeys = {}, {}, []
 # Handle shared parameters
 if opts.shprms:
-    shprms = map(a.scripting.parse_prms, opts.shprms.split(','))
+    shprms = list(map(a.scripting.parse_prms, opts.shprms.split(',')))
     for s in shprms:
-        keys = s.keys(); keys.sort()
+        keys = sorted(s.keys())
         k = keys[0]
         # Only enter one instance of shared parameters (indexed under first key)
-        if prms.has_key(k): prms[k].update(s[k])
+        if k in prms: prms[k].update(s[k])
         else: prms.update({k:s[k]})
         # Add an entry to shkeys for propagating variables to other objects
         shkeys.append((keys, s[k].keys()))
@@ -73,7 +73,7 @@ if opts.shprms:
 if opts.prms:
     pd = a.scripting.parse_prms(opts.prms)
     for k in pd:
-        if prms.has_key(k): prms[k].update(pd[k])
+        if k in prms: prms[k].update(pd[k])
         else: prms[k] = pd[k]
 for prm in prms: prm_dict[prm] = prms[prm].keys()
 start_prms = aa.get_params(prm_dict)
@@ -100,7 +100,7 @@ def fit_func(prms, filelist, decimate, decphs):
     for (skey,sprm) in shkeys:
         k = skey[0]
         for k2 in skey[1:]:
-            if not prms.has_key(k2): prms[k2] = {}
+            if not k2 in prms: prms[k2] = {}
             for sp in sprm:
                 prms[k2][sp] = prms[k][sp]
     if not opts.quiet:
@@ -121,8 +121,8 @@ def fit_func(prms, filelist, decimate, decphs):
             uv.select('decimate', decimate, decphs)
             for (uvw,t,(i,j)),d,f in uv.all(raw=True):
                 bl = a.miriad.ij2bl(i,j)
-                if not dbuf.has_key(t): dbuf[t] = {}
-                if not dbuf[t].has_key(bl): dbuf[t][bl] = {}
+                if not t in dbuf: dbuf[t] = {}
+                if not bl in dbuf[t]: dbuf[t][bl] = {}
                 if not opts.sim_autos and i == j: continue
                 if uvlen(aa.get_baseline(i,j))*0.15 < opts.minuv: continue
                 d = d.take(chans)
@@ -176,10 +176,10 @@ def fit_func(prms, filelist, decimate, decphs):
 
 # Call the optimizer
 if opts.daemon:
-    import SocketServer, struct
-    class TCPServer(SocketServer.TCPServer):
+    import socketserver, struct
+    class TCPServer(socketserver.TCPServer):
         allow_reuse_address = True
-    class FitHandler(SocketServer.BaseRequestHandler):
+    class FitHandler(socketserver.BaseRequestHandler):
         def setup(self): print(self.client_address, 'connected')
         def finish(self): print(self.client_address, 'disconnected')
         def handle(self):
-- 
2.43.0


From 476699beb6741427748f5778971af660965c391d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 119/146] fix: mk_img.py lost the image when all its data were
 already gridded

---
 scripts/mk_img.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index d1c1efc..bfeff5e 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -231,15 +231,15 @@ for srccnt, s in enumerate(cat.values()):
           d = d.compress(valid)
           if len(d) == 0: continue
           n_ints += 1
+          # If data buffer is full, grid data
+          if len(ds) * len(chans) > opts.buf_thresh:
+              grid_it(im,us,vs,ws,ds,wgts)
+              us,vs,ws,ds,wgts = [],[],[],[],[]
           ds.append(d)
           us.append(u.compress(valid))
           vs.append(v.compress(valid))
           ws.append(w.compress(valid))
           wgts.append(wgt.compress(valid))
-          # If data buffer is full, grid data
-          if len(ds) * len(chans) > opts.buf_thresh:
-              grid_it(im,us,vs,ws,ds,wgts)
-              us,vs,ws,ds,wgts = [],[],[],[],[]
 
     # Grid remaining data into UV matrix
     try:
-- 
2.43.0


From 22b4f778bb962dd5f887c9faccef79b747e5c1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 120/146] fix: cl_img.py --pos_def allowed negative components,
 and only it did

---
 scripts/cl_img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cl_img.py b/scripts/cl_img.py
index 394f35a..4ea2da7 100755
--- a/scripts/cl_img.py
+++ b/scripts/cl_img.py
@@ -115,7 +115,7 @@ for cnt, k in enumerate(keys):
     elif opts.deconv == 'cln':
         cim,info = a.deconv.clean(dim, dbm, gain=opts.gain,
             maxiter=opts.maxiter, stop_if_div=not opts.div,
-            verbose=True, tol=opts.tol,pos_def=not opts.pos_def)
+            verbose=True, tol=opts.tol,pos_def=bool(opts.pos_def))
     elif opts.deconv == 'ann':
         cim,info = a.deconv.anneal(dim, dbm, maxiter=opts.maxiter,
             cooling=lambda i,x: opts.tol*(1-np.cos(i/50.))*(x**2), verbose=True)
-- 
2.43.0


From eae0f15ceeff04a9ddb4c573cd61c45ba59a24a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 121/146] fix: modmap.py --oepoch precessed sources twice

---
 scripts/modmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/modmap.py b/scripts/modmap.py
index 1591691..ce93e53 100755
--- a/scripts/modmap.py
+++ b/scripts/modmap.py
@@ -84,7 +84,7 @@ if not opts.cal is None:
 else:
     cat = a.src.get_catalog(srclist, cutoff, catalogs)
 
-m = a.coord.convert_m('eq', opts.osys, oepoch=opts.oepoch)
+m = a.coord.convert_m('eq', opts.osys, iepoch=opts.oepoch, oepoch=opts.oepoch)
 ths,phis = h.px2crd(np.arange(h.npix()), ncrd=2)
 ras,decs = phis, np.pi/2 - ths
 afreq = np.array([opts.freq])
-- 
2.43.0


From 34080f10c007da296ab73ecbe7f76268518bd8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 122/146] fix: modmap.py put extended sources in the wrong
 place unless --osys was eq

---
 scripts/modmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/modmap.py b/scripts/modmap.py
index ce93e53..623db6c 100755
--- a/scripts/modmap.py
+++ b/scripts/modmap.py
@@ -85,8 +85,9 @@ else:
     cat = a.src.get_catalog(srclist, cutoff, catalogs)
 
 m = a.coord.convert_m('eq', opts.osys, iepoch=opts.oepoch, oepoch=opts.oepoch)
-ths,phis = h.px2crd(np.arange(h.npix()), ncrd=2)
-ras,decs = phis, np.pi/2 - ths
+# Equatorial coordinates of the pixels, in the epoch of the output map
+x,y,z = np.dot(m.T, h.px2crd(np.arange(h.npix()), ncrd=3))
+ras,decs = np.arctan2(y, x), np.arcsin(np.clip(z, -1, 1))
 afreq = np.array([opts.freq])
 for srcname in cat:
     src = cat[srcname]
-- 
2.43.0


From 859a3dbcc856f6f7c4bd41bf974c9bd0e3bc1afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 123/146] fix: modmap.py cut extended sources off at RA=0

---
 scripts/modmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/modmap.py b/scripts/modmap.py
index 623db6c..e57b323 100755
--- a/scripts/modmap.py
+++ b/scripts/modmap.py
@@ -97,6 +97,7 @@ for srcname in cat:
     # Account for size of source
     a1,a2,th = src.srcshape
     dras,ddecs = ras - ra, decs - dec
+    dras = (dras + np.pi) % (2*np.pi) - np.pi
     print('--------------------------------------------------')
     src.update_jys(afreq)
     strength = src.get_jys()[0] * opts.sscale
-- 
2.43.0


From 0ee76e08841da34a844159416959b302d7a7175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 124/146] fix: modmap.py could not add moving sources

---
 scripts/modmap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/modmap.py b/scripts/modmap.py
index e57b323..06633bd 100755
--- a/scripts/modmap.py
+++ b/scripts/modmap.py
@@ -91,7 +91,9 @@ ras,decs = np.arctan2(y, x), np.arcsin(np.clip(z, -1, 1))
 afreq = np.array([opts.freq])
 for srcname in cat:
     src = cat[srcname]
-    eq = e.Equatorial(src._ra, src._dec, epoch=e.J2000)
+    try: eq = e.Equatorial(src._ra, src._dec, epoch=e.J2000)
+    except(AttributeError): # A moving source, which has its current position
+        eq = e.Equatorial(src.ra, src.dec, epoch=aa.epoch)
     eq = e.Equatorial(eq, epoch=opts.oepoch)
     ra,dec = eq.get()
     # Account for size of source
-- 
2.43.0


From 7bcc6d4d6fb330e468f1f6e5b15f0c9486f52269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 125/146] fix: mk_img.py failed unless exactly one polarization
 was given

---
 scripts/mk_img.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index bfeff5e..d9fb8a3 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -61,7 +61,6 @@ chans = a.scripting.parse_chans(opts.chan, uv['nchan'])
 a.scripting.uv_selector(uv, opts.ant, opts.pol)
 aa = a.cal.get_aa(opts.cal, uv['sdf'], uv['sfreq'], uv['nchan'])
 aa.select_chans(chans)
-aa.set_active_pol(opts.pol)
 afreqs = aa[0].beam.afreqs
 cfreq = np.average(afreqs)
 aa.set_jultime(t)
-- 
2.43.0


From 9cbda079b26c3f2f148a1e608312f21f83a7bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 126/146] fix: mk_map.py used one image's coordinates for
 others of another size

---
 scripts/mk_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mk_map.py b/scripts/mk_map.py
index e738625..fe67d12 100755
--- a/scripts/mk_map.py
+++ b/scripts/mk_map.py
@@ -50,7 +50,7 @@ for i, filename in enumerate(args):
     print(kwds)
     print('Pointing (ra, dec):', ra, dec)
     print('Image Power:', np.abs(img).sum())
-    if prev_dra != kwds['d_ra']:
+    if prev_dra != kwds['d_ra'] or DIM != img.shape[0]:
         prev_dra = kwds['d_ra']
         DIM = img.shape[0]
         # RA increases to the left, so FITS files have a negative d_ra
-- 
2.43.0


From 27222ffaaa37f129a3494e40b446946723a2e4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 127/146] fix: find_axis returned a letter of the axis type,
 not the axis number

---
 aipy/img.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aipy/img.py b/aipy/img.py
index 3b79e38..ddf328a 100644
--- a/aipy/img.py
+++ b/aipy/img.py
@@ -443,7 +443,7 @@ def find_axis(phdu,name):
     for k in phdu.header.items():
         if k[0].lower().startswith('ctype'):
             if k[1].lower().startswith(name):
-                return int(k[1][5])
+                return int(k[0][5:])
 
 def from_fits_to_fits(infile,outfile,data,kwds,history=None):
     """
-- 
2.43.0


From f163275d3be5569b6c3091c5f3ab24fabc937ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:18 +0000
Subject: [PATCH 128/146] fix: parameters read from an antenna changed when it
 was set later

---
 aipy/fit.py | 2 +-
 aipy/pol.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/fit.py b/aipy/fit.py
index af2312b..2684815 100644
--- a/aipy/fit.py
+++ b/aipy/fit.py
@@ -307,7 +307,7 @@ class Antenna(amp.Antenna):
         """Return all fitable parameters in a dictionary."""
         x,y,z = self.pos
         aprms = {'x':x, 'y':y, 'z':z, 'dly':self._phsoff[-2],
-            'off':self._phsoff[-1], 'phsoff':self._phsoff}
+            'off':self._phsoff[-1], 'phsoff':list(self._phsoff)}
         aprms['bp_r'] = list(self.bp_r)
         aprms['bp_i'] = list(self.bp_i)
         aprms['amp'] = self.amp
diff --git a/aipy/pol.py b/aipy/pol.py
index b5b194d..e7392db 100644
--- a/aipy/pol.py
+++ b/aipy/pol.py
@@ -93,7 +93,7 @@ class Antenna(fit.Antenna):
             aprms.update({
                 'dly_'+p:self._phsoff[p][-2],
                 'off_'+p:self._phsoff[p][-1],
-                'phsoff_'+p:self._phsoff[p]})
+                'phsoff_'+p:list(self._phsoff[p])})
             aprms['bp_r_'+p] = list(self.bp_r[p])
             aprms['bp_i_'+p] = list(self.bp_i[p])
             aprms['amp_'+p] = self.amp[p]
-- 
2.43.0


From 24bf562ed44773fc5e58f0bfcd354daad65231f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:13 +0000
Subject: [PATCH 129/146] fix: measurements of Helmboldt sources were listed
 again for every catalogue read

---
 aipy/_src/helm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index 0c335cf..eb97130 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -65,8 +65,8 @@ class HelmboldtCatalog(a.fit.SrcCatalog):
         return self.ncomp
     def fromfile(self, posfile, fitfile):
         srcs = {}
-        rms = {}
-        ncomp = {}
+        # Not shared with (or added to those of) other catalogs
+        self.metadata, self.rms, self.ncomp = {}, {}, {}
         # Read RA/DEC
         srclines = [L for L in open(posfile).readlines() if L.startswith('J')]
         for line in srclines:
-- 
2.43.0


From f280f7484d56b449b55b6f98578a92fe08cdf7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:54 +0000
Subject: [PATCH 130/146] fix: the reference frequency of a Helmboldt source
 could be set but not read

---
 aipy/_src/helm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aipy/_src/helm.py b/aipy/_src/helm.py
index eb97130..1c0cfc7 100644
--- a/aipy/_src/helm.py
+++ b/aipy/_src/helm.py
@@ -31,6 +31,7 @@ class HelmboldtFixedBody(a.fit.RadioFixedBody):
             'th':       float(self.srcshape[2]),
             'dra':      float(self.ionref[0]),
             'ddec':     float(self.ionref[1]),
+            'mfreq':    float(self.mfreq),
         }
         try: aprms['index'] = list(self.index)
         except(TypeError): aprms['index'] = float(self.index)
-- 
2.43.0


From 6b5b23d35924d00abf230f405132adf519f6fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:14 +0000
Subject: [PATCH 131/146] fix: a source whose flux was not computed yet can be
 printed

---
 aipy/amp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aipy/amp.py b/aipy/amp.py
index e0a2a37..670c8b3 100644
--- a/aipy/amp.py
+++ b/aipy/amp.py
@@ -66,7 +66,8 @@ class RadioFixedBody(phs.RadioFixedBody, RadioBody):
         outstr += '\t'+str(self.mfreq)
         try: outstr = outstr +'\t'+ str(self.jys[0])
         except(AttributeError): outstr = outstr + '\t'
-        outstr += '\t'+str(self.afreqs[0])
+        try: outstr += '\t'+str(self.afreqs[0])
+        except(AttributeError): outstr += '\t'
         return outstr
     def compute(self, observer):
         phs.RadioFixedBody.compute(self, observer)
-- 
2.43.0


From 88a68cefa4443cc885afc96183bda161ea341363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 132/146] fix: zenith snapshots of mk_img were phased to the
 zenith of the integration before

---
 scripts/mk_img.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/mk_img.py b/scripts/mk_img.py
index d9fb8a3..9601843 100755
--- a/scripts/mk_img.py
+++ b/scripts/mk_img.py
@@ -200,6 +200,7 @@ for srccnt, s in enumerate(cat.values()):
                       else:
                           im = a.img.ImgW(opts.size, opts.res, mf_order=0, wres=opts.wres)
                       if opts.src == 'zen':
+                          aa.set_jultime(t)
                           s = a.phs.RadioFixedBody(aa.sidereal_time(),
                               aa.lat, name='zen')
                           src = a.fit.SrcCatalog([s])
-- 
2.43.0


From 5a019ad51d19ef48fce0557266f69f67e0f5278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:16 +0000
Subject: [PATCH 133/146] fix: srclist --sep failed where the Sun, the Moon or
 a planet was among the sources

---
 scripts/srclist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/srclist.py b/scripts/srclist.py
index 22864dc..99cd52b 100755
--- a/scripts/srclist.py
+++ b/scripts/srclist.py
@@ -83,7 +83,7 @@ if opts.sep != None:
     nsrcs = []
     for s1 in srcs:
         for s2 in ccat.keys():
-            if ephem.separation(cat[s1], ccat[s2]) <= opts.sep * a.img.deg2rad:
+            if ephem.separation((cat[s1].ra, cat[s1].dec), (ccat[s2].ra, ccat[s2].dec)) <= opts.sep * a.img.deg2rad:
                 nsrcs.append(s1)
                 break
     srcs = nsrcs
-- 
2.43.0


From d9429656e9501cb140242ac49cae2aac3c61d909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 134/146] fix: a refused ordering left a HEALPix map with the
 resolution it came with

---
 aipy/healpix.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aipy/healpix.py b/aipy/healpix.py
index c6aa897..dfd061f 100644
--- a/aipy/healpix.py
+++ b/aipy/healpix.py
@@ -46,10 +46,9 @@ class HealpixBase(object):
         if nside is not None:
             pow2 = np.log2(nside)
             assert(pow2 == np.around(pow2))
-            self._nside = nside
-        if scheme is not None:
-            assert(scheme in HEALPIX_MODES)
-            self._scheme = scheme
+        if scheme is not None: assert(scheme in HEALPIX_MODES)
+        if nside is not None: self._nside = nside
+        if scheme is not None: self._scheme = scheme
     def crd2px(self, c1, c2, c3=None, interpolate=False):
         """Convert 1 dimensional arrays of input coordinates to pixel indices. If only c1,c2 provided, then read them as th,phi.  If c1,c2,c3 provided, read them as x,y,z. If interpolate is False, return a single pixel coordinate.  If interpolate is True, return px,wgts where each entry in px contains the 4 pixels adjacent to the specified location, and wgt contains the 4 corresponding weights of those pixels."""
         is_nest = (self._scheme == 'NEST')
-- 
2.43.0


From a61f387161fef4c026a3d560f4fd54302d9bc4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 135/146] fix: plot_uv.py did not run under Python 3

---
 scripts/plot_uv.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/scripts/plot_uv.py b/scripts/plot_uv.py
index badd14e..f4daf12 100755
--- a/scripts/plot_uv.py
+++ b/scripts/plot_uv.py
@@ -15,6 +15,8 @@ Author: Aaron Parsons, Griffin Foster
 from __future__ import print_function, division, absolute_import
 
 import aipy as a, numpy as np, sys, optparse
+try: input = raw_input # Python 2
+except(NameError): pass
 from matplotlib import pylab as p
 
 o = optparse.OptionParser()
@@ -59,7 +61,7 @@ o.add_option('--window', dest='window', default='blackman-harris',
 def convert_arg_range(arg):
     """Split apart command-line lists/ranges into a list of numbers."""
     arg = arg.split(',')
-    return [map(float, option.split('_')) for option in arg]
+    return [list(map(float, option.split('_'))) for option in arg]
 
 def gen_times(timeopt, uv, coords, decimate):
     if timeopt == 'all':
@@ -100,8 +102,8 @@ opts, args = o.parse_args(sys.argv[1:])
 
 # Parse command-line options
 cmap = p.get_cmap(opts.cmap)
-if not opts.xlim == None: opts.xlim = map(float, opts.xlim.split('_'))
-if not opts.ylim == None: opts.ylim = map(float, opts.ylim.split('_'))
+if not opts.xlim == None: opts.xlim = list(map(float, opts.xlim.split('_')))
+if not opts.ylim == None: opts.ylim = list(map(float, opts.ylim.split('_')))
 uv = a.miriad.UV(args[0])
 a.scripting.uv_selector(uv, opts.ant, opts.pol)
 chans = a.scripting.parse_chans(opts.chan, uv['nchan'])
@@ -120,7 +122,7 @@ time_sel = gen_times(opts.time, uv, opts.time_axis, opts.decimate)
 inttime = uv['inttime'] * opts.decimate
 if not opts.src is None:
     srclist,cutoff,catalogs = a.scripting.parse_srcs(opts.src, opts.cat)
-    src = a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs).values()[0]
+    src = list(a.cal.get_catalog(opts.cal, srclist, cutoff, catalogs).values())[0]
 del(uv)
 
 # Loop through UV files collecting relevant data
@@ -188,17 +190,14 @@ for uvfile in args:
             d = np.fft.fftshift(d, axes=0)
         elif opts.unmask: d = d.data
         d.shape = (1,) + d.shape
-        if not plot_x.has_key(bl): plot_x[bl] = []
+        if bl not in plot_x: plot_x[bl] = []
         plot_x[bl].append(d)
     del(uv)
 
-bls = plot_x.keys()
-def sort_func(a, b):
-    ai,aj,pa = map(int, a.split(','))
-    bi,bj,pb = map(int, b.split(','))
-    if bi > ai or (bi == ai and bj > aj) or (bi == ai and bj == aj and pb < pa): return -1
-    return 1
-bls.sort(cmp=sort_func)
+def sort_key(bl):
+    i,j,pol = map(int, bl.split(','))
+    return i, j, -pol
+bls = sorted(plot_x.keys(), key=sort_key)
 if len(bls) == 0:
     print('No data to plot.')
     sys.exit(0)
@@ -265,7 +264,7 @@ for cnt, bl in enumerate(bls):
         if opts.delay:
             if opts.chan_axis == 'index':
                 step = 1
-                c1,c2 = len(chans)/2 - len(chans)-0.5*step, len(chans)/2-0.5*step
+                c1,c2 = len(chans)//2 - len(chans)-0.5*step, len(chans)//2-0.5*step
                 xlabel = 'Delay (bins)'
             else:
                 step = delays[1] - delays[0]
@@ -296,7 +295,7 @@ for cnt, bl in enumerate(bls):
     elif is_chan_range and not is_time_range:
         if opts.delay:
             if opts.chan_axis == 'index':
-                plot_chans = range(len(chans)/2 - len(chans), len(chans)/2)
+                plot_chans = range(len(chans)//2 - len(chans), len(chans)//2)
                 xlabel = 'Delay (bins)'
             else:
                 plot_chans = delays
@@ -377,7 +376,7 @@ else:
     def click(event):
         print([event.key])
         if event.key == 'm':
-            mode = raw_input('Enter new mode: ')
+            mode = input('Enter new mode: ')
             for k in plots:
                 try:
                     d = data_mode(plt_data[k], mode)
@@ -386,10 +385,10 @@ else:
                     print('Unrecognized plot mode')
             p.draw()
         elif event.key == 'd':
-            max = raw_input('Enter new max: ')
+            max = input('Enter new max: ')
             try: max = float(max)
             except(ValueError): max = None
-            drng = raw_input('Enter new drng: ')
+            drng = input('Enter new drng: ')
             try: drng = float(drng)
             except(ValueError): drng = None
             for k in plots:
-- 
2.43.0


From 81240c9219ad730f48096d566a44a60aa9e78a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 136/146] fix: plot_uv.py labelled the delays of an odd number
 of channels one bin off

---
 scripts/plot_uv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/plot_uv.py b/scripts/plot_uv.py
index f4daf12..c36b52f 100755
--- a/scripts/plot_uv.py
+++ b/scripts/plot_uv.py
@@ -264,7 +264,7 @@ for cnt, bl in enumerate(bls):
         if opts.delay:
             if opts.chan_axis == 'index':
                 step = 1
-                c1,c2 = len(chans)//2 - len(chans)-0.5*step, len(chans)//2-0.5*step
+                c1,c2 = -(len(chans)//2)-0.5*step, len(chans)-len(chans)//2-0.5*step
                 xlabel = 'Delay (bins)'
             else:
                 step = delays[1] - delays[0]
@@ -295,7 +295,7 @@ for cnt, bl in enumerate(bls):
     elif is_chan_range and not is_time_range:
         if opts.delay:
             if opts.chan_axis == 'index':
-                plot_chans = range(len(chans)//2 - len(chans), len(chans)//2)
+                plot_chans = range(-(len(chans)//2), len(chans)-len(chans)//2)
                 xlabel = 'Delay (bins)'
             else:
                 plot_chans = delays
-- 
2.43.0


From 8c0b318524cc6e50ef4ca4327bf4a5486c76a61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 137/146] fix: plot_uv.py -d accepted channels that are not
 contiguous

---
 scripts/plot_uv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_uv.py b/scripts/plot_uv.py
index c36b52f..5db7a5c 100755
--- a/scripts/plot_uv.py
+++ b/scripts/plot_uv.py
@@ -113,7 +113,7 @@ elif opts.plot_each == 'time': is_time_range = False
 freqs = a.cal.get_freqs(uv['sdf'], uv['sfreq'], uv['nchan'])
 freqs = freqs.take(chans)
 if opts.delay:
-    if freqs.size == freqs[-1] - freqs[0] + 1:
+    if np.any(np.diff(chans) != 1):
         # XXX someday could allow for equal spaced chans
         raise ValueError('Channels must be contiguous to do delay transform (chan=%s)' % (opts.chan))
     delays = np.fft.fftfreq(freqs.size, freqs[1]-freqs[0])
-- 
2.43.0


From be8f41a3373c1360b99e15c942d883d80bc7942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:01 +0000
Subject: [PATCH 138/146] fix: plot_uv.py -f drew two integrations over no
 height

---
 scripts/plot_uv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/plot_uv.py b/scripts/plot_uv.py
index 5db7a5c..e75e478 100755
--- a/scripts/plot_uv.py
+++ b/scripts/plot_uv.py
@@ -240,13 +240,12 @@ for cnt, bl in enumerate(bls):
         if opts.fringe:
             if opts.time_axis == 'index':
                 drates = np.fft.fftfreq(len(plot_t['cnt']), 1./len(plot_t['cnt']))
-                step = drates[1] - drates[0]
                 ylabel = 'Delay-Rate (bins)'
             else:
                 drates = np.fft.fftfreq(len(plot_t['cnt']), inttime) * 1e3 # mHz
-                step = drates[1] - drates[0]
                 ylabel = 'Delay-Rate (milliHz)'
             drates = np.fft.fftshift(drates)
+            step = drates[1] - drates[0]
             t1,t2 = drates[0]-0.5*step,drates[-1]+0.5*step
         else:
             if opts.time_axis == 'index':
-- 
2.43.0


From 00a843cd60ac4b8c349ab7f502328b55ec6093b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:44 +0000
Subject: [PATCH 139/146] fix: plot_img.py took channels and polarisations from
 the wrong axis

---
 scripts/plot_img.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scripts/plot_img.py b/scripts/plot_img.py
index 8eefc83..78cbec5 100755
--- a/scripts/plot_img.py
+++ b/scripts/plot_img.py
@@ -50,9 +50,12 @@ for cnt, filename in enumerate(args):
 
     # Parse command-line options
     compress_axes = []
-    ra_ax,dec_ax = (0,1)
+    dec_ax,ra_ax = (0,1)
+    transposed = a.img.pyfits.getheader(filename).get('TRANSPOS')
     try:
         for i,ax in enumerate(kwds['axes']):
+            # FITS lists the axes of an array from the last to the first
+            if not transposed: i = d.ndim - 1 - i
             if ax.startswith('ra'): ra_ax = i
             elif ax.startswith('dec'): dec_ax = i
             elif ax.startswith('freq'):
@@ -64,11 +67,10 @@ for cnt, filename in enumerate(args):
                 compress_axes.append(i)
     except(KeyError): pass
 
-    compress_axes.reverse()
-    for ax in compress_axes: d = np.average(d, axis=ax)
+    for ax in sorted(compress_axes, reverse=True): d = np.average(d, axis=ax)
 
-    # Put array in (ra,dec) order for plotting
-    d = d.transpose((ra_ax,dec_ax))
+    # Put array in (dec,ra) order for plotting
+    if ra_ax < dec_ax: d = d.transpose()
 
     # Generate plots
     if opts.fft:
-- 
2.43.0


From 0bebde3e0fd633ff090383aef404108cc706c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 140/146] fix: plot_map.py -p cyl drew the south pole along the
 top and the map half a pixel off

---
 scripts/plot_map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/plot_map.py b/scripts/plot_map.py
index 16877ab..3bc7eef 100755
--- a/scripts/plot_map.py
+++ b/scripts/plot_map.py
@@ -49,8 +49,8 @@ class Basemap:
         p.grid(True)
     def makegrid(self, dim1, dim2, returnxy=True):
         y,x = np.indices((dim2,dim1))
-        x = 4 * x.astype(np.float64)/dim1 - 2
-        y = 1 - 2 * y.astype(np.float64)/dim2
+        x = 4 * (x + .5)/dim1 - 2
+        y = 1 - 2 * (y + .5)/dim2
         lon,lat = self(x,y, inverse=True)
         if returnxy: return lon,lat, x,y
         else: return lon,lat
-- 
2.43.0


From 3598ad4468fe9d9aaf1d7968e5a8aa44183d1cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 141/146] fix: plot_map.py --src_mark failed without
 matplotlib-basemap

---
 scripts/plot_map.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/plot_map.py b/scripts/plot_map.py
index 3bc7eef..206c1f7 100755
--- a/scripts/plot_map.py
+++ b/scripts/plot_map.py
@@ -54,6 +54,8 @@ class Basemap:
         lon,lat = self(x,y, inverse=True)
         if returnxy: return lon,lat, x,y
         else: return lon,lat
+    def plot(self, *args, **kwargs):
+        return p.plot(*args, **kwargs)
     def imshow(self, *args, **kwargs):
         kwargs['extent'] = (-2,2,-1,1)
         return p.imshow(*args, **kwargs)
-- 
2.43.0


From b13faa23931057089ab1ea85abeaa316058fcd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 142/146] fix: plot_map.py failed to label a single source

---
 scripts/plot_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_map.py b/scripts/plot_map.py
index 206c1f7..bb9e2e0 100755
--- a/scripts/plot_map.py
+++ b/scripts/plot_map.py
@@ -174,7 +174,7 @@ if not opts.src is None:
     scrds = [ephem.Equatorial(s.ra,s.dec,epoch=o.epoch) for s in cat.values()]
     afreqs = np.array([.150])
     cat.update_jys(afreqs)
-    sflxs = cat.get_jys().squeeze()
+    sflxs = cat.get_jys()[:,0]
     snams = cat.keys()
     if opts.osys == 'ga':
         scrds = [ephem.Galactic(s, epoch=opts.oepoch) for s in scrds]
-- 
2.43.0


From c6155cd8db5e5d8f89f3f089e64a3970f11fbdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 143/146] fix: plot_map.py labelled sources on the wrong side
 of galactic and ecliptic maps

---
 scripts/plot_map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/plot_map.py b/scripts/plot_map.py
index bb9e2e0..63976bd 100755
--- a/scripts/plot_map.py
+++ b/scripts/plot_map.py
@@ -183,6 +183,7 @@ if not opts.src is None:
     slats = np.array([float(s.get()[1]) for s in scrds]) * a.img.rad2deg
     slons = np.array([float(s.get()[0]) for s in scrds]) * a.img.rad2deg
     if opts.osys == 'eq': slons = 360 - slons
+    else: slons = -slons
     slons = np.where(slons < -180, slons + 360, slons)
     slons = np.where(slons >= 180, slons - 360, slons)
 
-- 
2.43.0


From ec3cf2bfab6b4440f2d9cf49329a108b15c96bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 144/146] fix: plot_map.py labelled sources without precessing
 them to the epoch plotted

---
 scripts/plot_map.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/plot_map.py b/scripts/plot_map.py
index 63976bd..af8c8dd 100755
--- a/scripts/plot_map.py
+++ b/scripts/plot_map.py
@@ -176,7 +176,9 @@ if not opts.src is None:
     cat.update_jys(afreqs)
     sflxs = cat.get_jys()[:,0]
     snams = cat.keys()
-    if opts.osys == 'ga':
+    if opts.osys == 'eq':
+        scrds = [ephem.Equatorial(s, epoch=opts.oepoch) for s in scrds]
+    elif opts.osys == 'ga':
         scrds = [ephem.Galactic(s, epoch=opts.oepoch) for s in scrds]
     elif opts.osys == 'ec':
         scrds = [ephem.Ecliptic(s, epoch=opts.oepoch) for s in scrds]
-- 
2.43.0


From 38128981511f8bb024480c39a06ecddc2dc6a793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:27 +0000
Subject: [PATCH 145/146] fix: plot_map.py --nside failed for the resolution
 the map has

---
 scripts/plot_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_map.py b/scripts/plot_map.py
index af8c8dd..1b580ca 100755
--- a/scripts/plot_map.py
+++ b/scripts/plot_map.py
@@ -125,7 +125,7 @@ print('Reading %s' % args[0])
 h = a.map.Map(fromfits=args[0])
 print('SCHEME:', h.scheme())
 print('NSIDE:', h.nside())
-if not opts.nside is None:
+if not opts.nside is None and opts.nside != h.nside():
     nh = a.healpix.HealpixMap(nside=opts.nside)
     nh.from_hpm(h)
     h = nh
-- 
2.43.0


From 09e47c22d60a6ec76c3dae76fdc763d3dc07dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:23 +0000
Subject: [PATCH 146/146] fix: plot_uv.py conjugated baselines whose reverse is
 part of another selected baseline

---
 scripts/plot_uv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_uv.py b/scripts/plot_uv.py
index e75e478..99072e2 100755
--- a/scripts/plot_uv.py
+++ b/scripts/plot_uv.py
@@ -162,7 +162,7 @@ for uvfile in args:
                 plot_t['cnt'].append(len(times)-1)
         if not use_this_time: continue
         d = d.take(chans)
-        if opts.ant.find('%d_%d' % (j,i)) != -1: d = d.conj() # obey antenna ordering, if possible
+        if i != j and '%d_%d' % (j,i) in opts.ant.split(','): d = d.conj() # obey antenna ordering, if possible
         #apply cal phases
         if not opts.cal is None:
             aa.set_jultime(t)
-- 
2.43.0

