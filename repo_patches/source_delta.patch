From d0a73187165533a3d4e8cb62fb15371a72fd6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 01/90] Simulation hooks (POTION_SIM): collection points and
 front-end phases

---
 core/compile.c |  2 ++
 core/potion.h  | 19 +++++++++++++++++++
 core/syntax.y  |  2 ++
 3 files changed, 23 insertions(+)

diff --git a/core/compile.c b/core/compile.c
index 787668d..03e17ec 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -947,6 +947,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
 \code  (list (assign (expr (msg (x)) expr (msg (n ))),
         assign (expr (msg (y)) value (1 ))) \endcode */
 PN potion_sig_compile(Potion *P, vPN(Proto) f, PN src) {
+  POTION_SIM_QUIET;
   PN sig = PN_TUP0();
   vPN(Source) t = PN_SRC(src);
   if (t->part == AST_LIST && PN_S(t,0) != PN_NIL) {
@@ -1044,6 +1045,7 @@ PN potion_sig_compile(Potion *P, vPN(Proto) f, PN src) {
 ///\param sig     PNSource signature tree or PN_NIL or PNTuple in P2, parsed via yy_sig()
 ///\return PNProto a closure
 PN potion_source_compile(Potion *P, PN cl, PN self, PN source, PN sig) {
+  POTION_SIM_QUIET;
   vPN(Proto) f;
   vPN(Source) t = (struct PNSource *)self;
 
diff --git a/core/potion.h b/core/potion.h
index d9b8c66..e165d1c 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -697,6 +697,23 @@ unsigned long potion_rand_int();
 double potion_rand_double();
 
 /// quick inline allocation
+#ifdef POTION_SIM
+/* Hooks for deterministic simulation, off by default. The simulator decides at
+   which allocation or write barrier a collection (1 minor, 2 major) strikes, and
+   is told while the front end runs, which is documented not to be GC safe. */
+int potion_sim_gc(Potion *P, int siz, int site);
+int potion_sim_quiet(void);
+void potion_sim_unquiet(int *);
+#define POTION_SIM_QUIET \
+  int sim_quiet_ __attribute__((cleanup(potion_sim_unquiet))) = potion_sim_quiet()
+#define POTION_SIM_GC(siz, site) \
+  do { int k_ = potion_sim_gc(P, (siz), (site)); \
+    if (k_) potion_garbagecollect(P, (siz) + 4 * sizeof(double), k_ > 1); } while (0)
+#else
+#define POTION_SIM_QUIET
+#define POTION_SIM_GC(siz, site)
+#endif
+
 static inline void *potion_gc_alloc(Potion *P, PNType vt, int siz) {
   struct PNMemory *M = P->mem;
   struct PNObject *res = 0;
@@ -711,6 +728,7 @@ static inline void *potion_gc_alloc(Potion *P, PNType vt, int siz) {
   assert(M);
   assert(M->birth_cur);
   assert(M->birth_storeptr);
+  POTION_SIM_GC(siz, 0);
   if (M->dirty || (char *)M->birth_cur + siz >= (char *)M->birth_storeptr - 2)
     potion_garbagecollect(P, siz + 4 * sizeof(double), 0);
   res = (struct PNObject *)M->birth_cur;
@@ -733,6 +751,7 @@ static inline void potion_gc_update(Potion *P, PN x) {
       x == (PN)M->birth_storeptr[3])
        return;
   *(M->birth_storeptr--) = (void *)x;
+  POTION_SIM_GC(POTION_PAGESIZE, 1);
   if ((void **)M->birth_storeptr - 4 <= (void **)M->birth_cur)
     potion_garbagecollect(P, POTION_PAGESIZE, 0);
 }
diff --git a/core/syntax.y b/core/syntax.y
index c77bc0f..738c29a 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -380,6 +380,7 @@ arg-sep = '.' -         { SRC_TPL1(PN_NUM('.')) } #x,y... ignore rest
 %%
 
 PN potion_parse(Potion *P, PN code, char *filename) {
+  POTION_SIM_QUIET;
   GREG *G = YY_NAME(parse_new)(P);
   int oldyypos = P->yypos;
   PN oldinput = P->input;
@@ -438,6 +439,7 @@ PN potion_parse(Potion *P, PN code, char *filename) {
     arity: number of any non-default-value strings
  */
 PN potion_sig(Potion *P, char *fmt) {
+  POTION_SIM_QUIET;
   PN out = PN_NIL;
   if (fmt == NULL) return PN_NIL; // no signature, arg check off
   if (fmt[0] == '\0') return PN_FALSE; // empty signature, no args
-- 
2.43.0


From 0db767f6e4fec111bcf2d50b0fe46921aea5f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 02/90] fix: Table filter deleted from the copy at the
 original's bucket index

---
 core/table.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/table.c b/core/table.c
index cc4ed80..a3cd65d 100644
--- a/core/table.c
+++ b/core/table.c
@@ -275,8 +275,10 @@ PN potion_table_filter(Potion *P, PN cl, PN self, PN block) {
                                                       kh_val(PN, t, k));
       else
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
-      if (!PN_TEST(ret))
-        kh_del(PN, t2, k);
+      if (!PN_TEST(ret)) {
+        unsigned k2 = kh_get(PN, t2, kh_key(PN, t, k)); // the clone has its own layout
+        if (k2 != kh_end(t2)) kh_del(PN, t2, k2);
+      }
     }
   PN_TOUCH(t2);
   return (PN)t2;
-- 
2.43.0


From 6b0897de7f6c5988eaed6d73cd370e40fcd7b1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 03/90] fix: minor collection dropped live strings from the
 intern table

The table of interned strings was swept before the remembered set and the
Cheney loop had run, so a string reachable only through another object was
not yet copied and lost its entry; the next equal literal became a second,
different string.
---
 core/gc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/gc.c b/core/gc.c
index d610985..c769563 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -160,8 +160,6 @@ static int potion_gc_minor(Potion *P, int sz) {
 	(long)((void *)M->birth_hi - (void *)M->birth_storeptr));
   potion_mark_stack(P, 1);
 
-  GC_MINOR_STRINGS();
-
   wb = (void **)M->birth_storeptr;
   for (storead = wb; storead < (void **)M->birth_hi; storead++) {
     PN v = (PN)*storead;
@@ -174,6 +172,8 @@ static int potion_gc_minor(Potion *P, int sz) {
     scanptr = potion_mark_minor(P, scanptr);
   scanptr = 0;
 
+  GC_MINOR_STRINGS();
+
   sz += 2 * POTION_PAGESIZE;
   sz = max(sz, potion_birth_suggest(sz, M->old_lo, M->old_cur));
 
-- 
2.43.0


From ccdfb4e015d5aac932e59d2303a8d03e1b8a6fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 04/90] fix: minor collection did not scan the interpreter
 state

P->vts, P->input, P->source, P->line and P->unclosed may point to young
objects without any write barrier, and were left dangling by a minor
collection. Scan the state first, which also makes the type table usable
while the rest is copied.
---
 core/gc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/gc.c b/core/gc.c
index c769563..e5ba4bc 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -158,6 +158,7 @@ static int potion_gc_minor(Potion *P, int sz) {
 	M->birth_lo, M->birth_hi, (long)(M->birth_hi - M->birth_lo),
 	M->old_lo, M->old_hi, (long)(M->old_hi - M->old_lo),
 	(long)((void *)M->birth_hi - (void *)M->birth_storeptr));
+  potion_mark_minor(P, (const struct PNObject *)P);
   potion_mark_stack(P, 1);
 
   wb = (void **)M->birth_storeptr;
@@ -226,6 +227,7 @@ static int potion_gc_major(Potion *P, int siz) {
   M->old_cur = scanptr = newold + (sizeof(PN) * 2);
   DBG_G(P,"(new old: %p -> %p = %d)\n", newold, (char *)newold + newoldsiz, newoldsiz);
 
+  potion_mark_major(P, (const struct PNObject *)P);
   potion_mark_stack(P, 2);
 
   wb = (void **)M->birth_storeptr;
-- 
2.43.0


From 8ca40e440284e3adee01f7b53b0cde3144e65ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 05/90] fix: write barrier on a forwarded object lost the
 stores to its target

A reallocated old object is a forwarder. Touching it only looked at the
forwarding pointer, so when the target had been promoted already, the young
objects just stored there were not kept by the next minor collection.
---
 core/gc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/gc.c b/core/gc.c
index e5ba4bc..0397f66 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -164,8 +164,12 @@ static int potion_gc_minor(Potion *P, int sz) {
   wb = (void **)M->birth_storeptr;
   for (storead = wb; storead < (void **)M->birth_hi; storead++) {
     PN v = (PN)*storead;
-    if (PN_IS_PTR(v))
+    if (PN_IS_PTR(v)) {
       potion_mark_minor(P, (const struct PNObject *)v);
+      // touched through an outdated pointer: the stores went to its target
+      if (((struct PNFwd *)v)->fwd == POTION_FWD)
+        potion_mark_minor(P, (const struct PNObject *)potion_fwd(v));
+    }
   }
   storead = 0;
 
-- 
2.43.0


From 489927ac8a6eab594f1338eff13fb03f8e8045e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 06/90] fix: the collector did not know errors, nor the names
 of closures and protos

PN_TERROR had no size and no mark function, so an error that survived a
collection was cut to 16 bytes; the name of a closure or a proto was not
updated when the string moved.
---
 core/gc.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/core/gc.c b/core/gc.c
index 0397f66..c4d80b8 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -380,6 +380,9 @@ PN_SIZE potion_type_size(Potion *P, const struct PNObject *ptr) {
     case PN_TSTRINGS:
       sz = sizeof(struct PNTable) + kh_mem(str, ptr);
     break;
+    case PN_TERROR:
+      sz = sizeof(struct PNError);
+    break;
     case PN_TFLEX:
       sz = sizeof(PNFlex) + ((PNFlex *)ptr)->siz;
     break;
@@ -442,6 +445,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
     break;
     case PN_TCLOSURE:
       GC_MINOR_UPDATE(((struct PNClosure *)ptr)->sig);
+      GC_MINOR_UPDATE(((struct PNClosure *)ptr)->name);
       for (i = 0; i < ((struct PNClosure *)ptr)->extra; i++)
         GC_MINOR_UPDATE(((struct PNClosure *)ptr)->data[i]);
     break;
@@ -498,6 +502,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->debugs);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->tree);
       GC_MINOR_UPDATE(((struct PNProto *)ptr)->asmb);
+      GC_MINOR_UPDATE(((struct PNProto *)ptr)->name);
     break;
     case PN_TTABLE:
       GC_MINOR_UPDATE_TABLE(PN, (struct PNTable *)potion_fwd((PN)ptr), 1);
@@ -507,6 +512,11 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
       GC_MINOR_UPDATE(((struct PNLick *)ptr)->attr);
       GC_MINOR_UPDATE(((struct PNLick *)ptr)->inner);
     break;
+    case PN_TERROR:
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->parent);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->message);
+      GC_MINOR_UPDATE(((struct PNError *)ptr)->excerpt);
+    break;
     case PN_TFLEX:
       for (i = 0; i < PN_FLEX_SIZE(ptr); i++)
         GC_MINOR_UPDATE(PN_FLEX_AT(ptr, i));
@@ -548,6 +558,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
     break;
     case PN_TCLOSURE:
       GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->sig);
+      GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->name);
       for (i = 0; i < ((struct PNClosure *)ptr)->extra; i++)
         GC_MAJOR_UPDATE(((struct PNClosure *)ptr)->data[i]);
     break;
@@ -615,6 +626,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->debugs);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->tree);
       GC_MAJOR_UPDATE(((struct PNProto *)ptr)->asmb);
+      GC_MAJOR_UPDATE(((struct PNProto *)ptr)->name);
     break;
     case PN_TTABLE:
       GC_MAJOR_UPDATE_TABLE(PN, (struct PNTable *)potion_fwd((PN)ptr), 1);
@@ -624,6 +636,11 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
       GC_MAJOR_UPDATE(((struct PNLick *)ptr)->attr);
       GC_MAJOR_UPDATE(((struct PNLick *)ptr)->inner);
     break;
+    case PN_TERROR:
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->parent);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->message);
+      GC_MAJOR_UPDATE(((struct PNError *)ptr)->excerpt);
+    break;
     case PN_TFLEX:
       for (i = 0; i < PN_FLEX_SIZE(ptr); i++)
         GC_MAJOR_UPDATE(PN_FLEX_AT(ptr, i));
-- 
2.43.0


From 8cb1106557325b4b61f67fe499c345111b69aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 07/90] fix: the collector missed objects held only in
 callee-saved registers

The stack scan saw a register only if some frame happened to push it.
---
 core/gc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/gc.c b/core/gc.c
index c4d80b8..845f73d 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -272,6 +272,10 @@ static int potion_gc_major(Potion *P, int siz) {
 void potion_garbagecollect(Potion *P, int sz, int full) {
   struct PNMemory *M = P->mem;
   if (M->collecting) return;
+#if defined(__GNUC__)
+  // spill the callee-saved registers, the stack scan must see and update them
+  __builtin_unwind_init();
+#endif
 #ifdef DEBUG
   double time = mytime();
 #endif
-- 
2.43.0


From f0f289d88bac650a292969a2a84fa1a405df7ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 08/90] fix: a collection inside realloc truncated the new
 object

The write barrier of potion_gc_realloc could collect before the caller had
set the new size (n_buckets, siz, alloc), so the grown table, tuple or buffer
was copied with its old size and later writes ran over its neighbour.
---
 core/potion.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/potion.h b/core/potion.h
index e165d1c..f42bf4d 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -743,14 +743,22 @@ static inline void *potion_gc_calloc(Potion *P, PNType vt, int siz) {
   return potion_gc_alloc(P, vt, siz);
 }
 
-static inline void potion_gc_update(Potion *P, PN x) {
+/// remember an old object with stores to young ones, without collecting.
+/// each allocation leaves room for one such entry.
+static inline int potion_gc_remember(Potion *P, PN x) {
   struct PNMemory *M = P->mem;
   if ((x > (PN)M->birth_lo && x < (PN)M->birth_hi && (x < (PN)M || x >= (PN)M->protect)) ||
       x == (PN)M->birth_storeptr[1] ||
       x == (PN)M->birth_storeptr[2] ||
       x == (PN)M->birth_storeptr[3])
-       return;
+       return 0;
   *(M->birth_storeptr--) = (void *)x;
+  return 1;
+}
+
+static inline void potion_gc_update(Potion *P, PN x) {
+  struct PNMemory *M = P->mem;
+  if (!potion_gc_remember(P, x)) return;
   POTION_SIM_GC(POTION_PAGESIZE, 1);
   if ((void **)M->birth_storeptr - 4 <= (void **)M->birth_cur)
     potion_garbagecollect(P, POTION_PAGESIZE, 0);
@@ -772,7 +780,8 @@ static inline void *potion_gc_realloc(Potion *P, PNType vt, struct PNObject * vo
     ((struct PNFwd *)obj)->fwd = POTION_FWD;
     ((struct PNFwd *)obj)->siz = oldsz;
     ((struct PNFwd *)obj)->ptr = (PN)dst;
-    potion_gc_update(P, (PN)obj);
+    // no collection here, the caller has yet to set the new size
+    potion_gc_remember(P, (PN)obj);
   }
 
   return dst;
-- 
2.43.0


From 946c36260aff171eeb592cc414e2361d4b7e3022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:56 +0000
Subject: [PATCH 09/90] fix: a failed collection let the allocation run past
 its region

When no page could be mapped, or more than POTION_MAX_BIRTH_SIZE was asked
for, the collector only reported it (or returned with M->collecting set) and
the caller went on to use memory that was not there. Stop with the same
out of memory error as for the birth region.
---
 core/gc.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/core/gc.c b/core/gc.c
index 845f73d..6066ce4 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -223,10 +223,8 @@ static int potion_gc_major(Potion *P, int siz) {
   newoldsiz = (((char *)prevoldcur - (char *)prevoldlo) + siz + birthest +
     POTION_GC_THRESHOLD + 16 * POTION_PAGESIZE) + ((char *)M->birth_cur - (char *)M->birth_lo);
   newold = pngc_page_new(&newoldsiz, 0);
-  if (newold == NULL) {
-    fprintf(stderr, "** Out of memory\n");
+  if (newold == NULL)
     return POTION_NO_MEM;
-  }
 
   M->old_cur = scanptr = newold + (sizeof(PN) * 2);
   DBG_G(P,"(new old: %p -> %p = %d)\n", newold, (char *)newold + newoldsiz, newoldsiz);
@@ -287,10 +285,8 @@ void potion_garbagecollect(Potion *P, int sz, int full) {
     if (gensz < sz * 4)
       gensz = min(POTION_MAX_BIRTH_SIZE, PN_ALIGN(sz * 4, POTION_PAGESIZE));
     void *page = pngc_page_new(&gensz, 0);
-    if (page == NULL) {
-      fprintf(stderr, "** Out of memory\n");
-      return;
-    }
+    if (page == NULL)
+      potion_fatal("Out of memory");
     SET_GEN(old, page, gensz);
     full = 0;
   } else if ((char *) M->old_cur + sz + potion_birth_suggest(sz, M->old_lo, M->old_cur) +
@@ -301,10 +297,9 @@ void potion_garbagecollect(Potion *P, int sz, int full) {
     full = 1;
 #endif
 
-  if (full)
-    potion_gc_major(P, sz);
-  else
-    potion_gc_minor(P, sz);
+  // there is no room for the caller's object then
+  if ((full ? potion_gc_major(P, sz) : potion_gc_minor(P, sz)) == POTION_NO_MEM)
+    potion_fatal("Out of memory");
 
 #ifdef DEBUG
   M->time += mytime() - time;
-- 
2.43.0


From 67036d802d7665c7717934526b207b10d6b46273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 10/90] fix: class and method definitions lost to a collection

Types, metaclasses, method tables and class names were stored into objects a
collection may have promoted meanwhile, without a write barrier after the
store, so the next minor collection left them dangling.
---
 core/objmodel.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index a25e7cd..88ff1e7 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -191,17 +191,21 @@ PN potion_no_call(Potion *P, PN cl, PN self) {
 }
 
 void potion_add_metaclass(Potion *P, vPN(Vtable) vt) {
-  struct PNVtable *meta = vt->meta = PN_CALLOC_N(PN_TVTABLE, struct PNVtable, 0);
+  vPN(Vtable) meta = PN_CALLOC_N(PN_TVTABLE, struct PNVtable, 0);
+  vt->meta = meta;
+  PN_TOUCH(vt);
   meta->type = PN_FLEX_SIZE(P->vts) + PN_TNIL;
   PN_FLEX_NEEDS(1, P->vts, PN_TFLEX, PNFlex, TYPE_BATCH_SIZE);
   PN_FLEX_SIZE(P->vts)++;
   meta->name = PN_NIL;
   meta->parent = PN_TVTABLE;
-  meta->methods = (struct PNTable *)potion_table_empty(P);
-  meta->ctor = PN_FUNC(potion_no_call, 0);
-  PN_VTABLE(meta->type) = (PN)meta;
   meta->meta = NULL;
+  PN_VTABLE(meta->type) = (PN)meta;
   PN_TOUCH(P->vts);
+  meta->methods = (struct PNTable *)potion_table_empty(P);
+  PN_TOUCH(meta);
+  meta->ctor = PN_FUNC(potion_no_call, 0);
+  PN_TOUCH(meta);
 }
 /// create a non-user type, derived from self
 PN potion_type_new(Potion *P, PNType t, PN self) {
@@ -209,9 +213,12 @@ PN potion_type_new(Potion *P, PNType t, PN self) {
   vt->type = t;
   vt->name = PN_NIL;
   vt->parent = self ? ((struct PNVtable *)self)->type : 0;
+  PN_VTABLE(t) = (PN)vt;
+  PN_TOUCH(P->vts);
   vt->methods = (struct PNTable *)potion_table_empty(P);
+  PN_TOUCH(vt);
   vt->ctor = PN_FUNC(potion_no_call, 0);
-  PN_VTABLE(t) = (PN)vt;
+  PN_TOUCH(vt);
   potion_add_metaclass(P, vt);
   return (PN)vt;
 }
@@ -219,6 +226,7 @@ PN potion_type_new(Potion *P, PNType t, PN self) {
 PN potion_type_new2(Potion *P, PNType t, PN self, PN name) {
   vPN(Vtable) vt = (vPN(Vtable))potion_type_new(P, t, self);
   vt->name = name;
+  PN_TOUCH(vt);
   return (PN)vt;
 }
 /// sets the default call method of the PNVtable
@@ -266,6 +274,7 @@ PN potion_class(Potion *P, PN cl, PN self, PN ivars) {
   if (!PN_IS_CLOSURE(cl))
     cl = ((struct PNVtable *)parent)->ctor;
   ((struct PNVtable *)self)->ctor = cl;
+  PN_TOUCH(self);
 
   PN_TOUCH(P->vts);
   return self;
@@ -288,7 +297,7 @@ PNType potion_class_type(Potion *P, PN class) {
 }
 
 PN potion_ivars(Potion *P, PN cl, PN self, PN ivars) {
-  struct PNVtable *vt = (struct PNVtable *)self;
+  vPN(Vtable) vt = (struct PNVtable *)self;
 #ifdef POTION_JIT_TARGET
   // TODO: allocate assembled instructions together into single pages
   // since many times these tables are <100 bytes.
@@ -299,6 +308,7 @@ PN potion_ivars(Potion *P, PN cl, PN self, PN ivars) {
 #endif
   vt->ivlen = PN_TUPLE_LEN(ivars);
   vt->ivars = ivars;
+  PN_TOUCH(vt);
   return self;
 }
 
@@ -351,11 +361,13 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
   unsigned k = kh_put(PN, vt->methods, key, &ret);
   PN_QUICK_FWD(struct PNTable *, vt->methods);
   PN_TOUCH(vt->methods);
+  PN_TOUCH(vt);
 
   if (!PN_IS_CLOSURE(method)) {
     if (PN_IS_PROTO(method)) {
       cl = potion_closure_new(P, (PN_F)potion_proto_method, PN_PROTO(method)->sig, 1);
       PN_PROTO(method)->name = key;
+      PN_TOUCH(method);
     }
     else
       cl = potion_closure_new(P, (PN_F)potion_getter_method, PN_NIL, 1);
@@ -363,11 +375,13 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
     PN_CLOSURE(cl)->name = key;
     method = cl;
   }
-  else
+  else {
     PN_CLOSURE(method)->name = key;
+    PN_TOUCH(method);
+  }
 
   kh_val(PN, vt->methods, k) = method;
-  PN_TOUCH(self);
+  PN_TOUCH(vt->methods);
 
 #ifdef JIT_MCACHE
   // TODO: make JIT_MCACHE more flexible, store in fixed gc, see ivfunc TODO also
@@ -647,8 +661,11 @@ static void potion_init_class_reference(Potion *P, PN name, PN vt) {
   char meta_str[strlen("<metaclass: >") + PN_STR_LEN(name) + 1];
   potion_send(P->lobby, PN_def, name, vt);
   ((struct PNVtable *)vt)->name = name;
+  PN_TOUCH(vt);
   sprintf(meta_str, "<metaclass: %s>", PN_STR_PTR(name));
-  ((struct PNVtable *)vt)->meta->name = potion_str(P, meta_str);
+  name = potion_str(P, meta_str);
+  ((struct PNVtable *)vt)->meta->name = name;
+  PN_TOUCH(((struct PNVtable *)vt)->meta);
 }
 
 void potion_define_global(Potion *P, PN name, PN val) {
-- 
2.43.0


From 9c234e318f4c572d9ff59b2603e06fd207056123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:43 +0000
Subject: [PATCH 11/90] fix: strings and closures lost while their results are
 allocated

Slices, characters and formatted text were read through pointers into strings
which the allocation of the result may have moved, and the cells of captured
variables were stored into a promoted closure without a write barrier.
---
 core/string.c | 58 +++++++++++++++++++++++++++++++++++++--------------
 core/vm.c     |  4 +++-
 2 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/core/string.c b/core/string.c
index c246015..ed037b0 100644
--- a/core/string.c
+++ b/core/string.c
@@ -61,6 +61,22 @@ PN potion_str2(Potion *P, char *str, size_t len) {
   return exist;
 }
 
+/// part of a string, which may move while the result is allocated
+static PN potion_str_sub(Potion *P, PN str, size_t off, size_t len) {
+  PN exist = PN_NIL;
+  vPN(String) s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
+  s->len = (PN_SIZE)len;
+  PN_MEMCPY_N(s->chars, PN_STR_PTR(str) + off, char, len);
+  s->chars[len] = '\0';
+
+  exist = potion_lookup_str(P, s->chars);
+  if (exist == PN_NIL) {
+    potion_add_str(P, (PN)s);
+    exist = (PN)s;
+  }
+  return exist;
+}
+
 PN potion_strcat(Potion *P, char *str, char *str2) {
   PN exist = PN_NIL;
   int len = strlen(str);
@@ -81,17 +97,20 @@ PN potion_strcat(Potion *P, char *str, char *str2) {
 PN potion_str_format(Potion *P, const char *format, ...) {
   vPN(String) s;
   PN_SIZE len;
+  int rv;
+  char *buf;
   va_list args;
 
+  // format first, the arguments may point into strings which move
   va_start(args, format);
-  len = (PN_SIZE)vsnprintf(NULL, 0, format, args);
+  rv = vasprintf(&buf, format, args);
   va_end(args);
+  if (rv == -1) potion_allocation_error();
+  len = (PN_SIZE)rv;
   s = PN_ALLOC_N(PN_TSTRING, struct PNString, len + 1);
-
-  va_start(args, format);
-  vsnprintf(s->chars, len + 1, format, args);
-  va_end(args);
+  PN_MEMCPY_N(s->chars, buf, char, len + 1);
   s->len = len;
+  free(buf);
   return (PN)s;
 }
 
@@ -263,13 +282,17 @@ static PN potion_str_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     endoffset = potion_utf8char_offset(str,
                   PN_INT(potion_str_slice_index(end, len, len)));
   }
-  return potion_str2(P, str + startoffset, endoffset - startoffset);
+  return potion_str_sub(P, self, startoffset, endoffset - startoffset);
 }
 
 ///\memberof PNString
 /// "bytes" method. Convert PNString to PNBytes
 static PN potion_str_bytes(Potion *P, PN cl, PN self) {
-  return potion_byte_str2(P, PN_STR_PTR(self), PN_STR_LEN(self));
+  PN_SIZE len = PN_STR_LEN(self);
+  vPN(Bytes) s = (struct PNBytes *)potion_bytes(P, len);
+  PN_MEMCPY_N(s->chars, PN_STR_PTR(self), char, len);
+  s->chars[len] = '\0';
+  return (PN)s;
 }
 
 ///\memberof PNString
@@ -304,7 +327,7 @@ static PN potion_str_at(Potion *P, PN cl, PN self, PN index) {
   }
   startoffset = potion_utf8char_offset(str, start);
   endoffset = potion_utf8char_nextchar(str, startoffset);
-  return potion_str2(P, str + startoffset, endoffset - startoffset);
+  return potion_str_sub(P, self, startoffset, endoffset - startoffset);
 }
 
 ///\memberof PNString
@@ -360,12 +383,17 @@ PN potion_bytes_clone(Potion *P, PN cl, PN self) {
 
 PN_SIZE pn_printf(Potion *P, PN bytes, const char *format, ...) {
   PN_SIZE len;
+  int rv;
+  char *buf;
   va_list args;
   vPN(Bytes) s = (struct PNBytes *)potion_fwd(bytes);
 
+  // format first, the arguments may point into strings which move
   va_start(args, format);
-  len = (PN_SIZE)vsnprintf(NULL, 0, format, args);
+  rv = vasprintf(&buf, format, args);
   va_end(args);
+  if (rv == -1) potion_allocation_error();
+  len = (PN_SIZE)rv;
 
   if (s->len + len + 1 > s->siz) {
     size_t siz = BYTES_ALIGN(((s->len + len) * BYTES_FACTOR) + 1);
@@ -373,9 +401,8 @@ PN_SIZE pn_printf(Potion *P, PN bytes, const char *format, ...) {
     s->siz = (PN_SIZE)siz;
   }
 
-  va_start(args, format);
-  vsnprintf(s->chars + s->len, len + 1, format, args);
-  va_end(args);
+  PN_MEMCPY_N(s->chars + s->len, buf, char, len + 1);
+  free(buf);
 
   s->len += len;
   return len;
@@ -445,11 +472,10 @@ static PN potion_bytes_print(Potion *P, PN cl, PN self) {
 ///\param block=&
 ///\return PN_NIL
 static PN potion_bytes_each(Potion *P, PN cl, PN self, PN block) {
-  self = potion_fwd(self);
-  char *s = PN_STR_PTR(self);
   int i;
-  for (i = 0; i < PN_STR_LEN(self); i++) {
-    PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &s[i], 1));
+  for (i = 0; i < PN_STR_LEN(potion_fwd(self)); i++) {
+    char c = PN_STR_PTR(self)[i];
+    PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &c, 1));
   }
   return PN_NIL;
 }
diff --git a/core/vm.c b/core/vm.c
index 8c869ed..1d8153b 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -916,7 +916,9 @@ reentry:
           if (op.code == OP_GETUPVAL) {
             cl->data[i+1] = upvals[op.b];
           } else if (op.code == OP_GETLOCAL) {
-            cl->data[i+1] = locals[op.b] = (PN)potion_ref(P, locals[op.b]);
+            locals[op.b] = (PN)potion_ref(P, locals[op.b]);
+            cl->data[i+1] = locals[op.b];
+            PN_TOUCH(cl);
           } else {
             fprintf(stderr, "** missing an upval to proto %p\n", (void *)proto);
           }
-- 
2.43.0


From d2da2acc517a964acb2dd0b43c8ab66fd6335cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 12/90] fix: Bytes clone returned a buffer of zeros

---
 core/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/string.c b/core/string.c
index ed037b0..29a0995 100644
--- a/core/string.c
+++ b/core/string.c
@@ -378,6 +378,7 @@ PN potion_bytes_clone(Potion *P, PN cl, PN self) {
   vPN(Bytes) s = PN_ALLOC_N(PN_TBYTES, struct PNBytes, b->siz);
   s->siz = b->siz;
   s->len = b->len;
+  PN_MEMCPY_N(s->chars, b->chars, char, b->len + 1);
   return (PN)s;
 }
 
-- 
2.43.0


From 9958ad2452e913767f7d0882683427bf4480a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 13/90] fix: objects mapped below the first page passed for
 foreign pointers

PN_IS_FFIPTR compared with P->mem..birth_hi as if all pages lay between them,
so once a collection had moved the heap an optional argument of a closure
called from C was replaced by its default, depending on where pages are.
---
 core/potion.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/potion.h b/core/potion.h
index f42bf4d..0aaf1b7 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -178,7 +178,10 @@ struct PNVtable;
 #define PN_IS_PROTO(v)   (PN_IS_PTR(v) && (potion_ptr_type((PN)v) == PN_TPROTO))
 #define PN_IS_REF(v)     (PN_IS_PTR(v) && (potion_ptr_type((PN)v) == PN_TWEAK))
 #define PN_IS_METACLASS(v) (((struct PNVtable *)v)->meta == PN_NIL)
-#define PN_IS_FFIPTR(p)  ((PN_IS_PTR(p) && !(p >= (_PN)P->mem && p <= (_PN)P->mem->birth_hi)) \
+#define PN_IS_GCPTR(p)   ((p >= (_PN)P->mem && p < (_PN)P->mem->protect) \
+			  || (p > (_PN)P->mem->birth_lo && p < (_PN)P->mem->birth_hi) \
+			  || (p > (_PN)P->mem->old_lo && p < (_PN)P->mem->old_hi))
+#define PN_IS_FFIPTR(p)  ((PN_IS_PTR(p) && !PN_IS_GCPTR(p)) \
 			  || (!PN_IS_PTR(p) && p > (_PN)P->mem->birth_hi))
 
 #define PN_CHECK_STR(obj)  if (!PN_IS_STR(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "String")
-- 
2.43.0


From c05439755fbbf95b62517d6785a01b71bd78db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 14/90] fix: the JIT stored into closures and refs without a
 write barrier

OP_PROTO wrote upvals straight into the closure, SETLOCAL and SETUPVAL into
the ref. Either may have been promoted by the collection an earlier
instruction triggered, and a minor collection then lost the young value.
Store through helpers that touch the target.
---
 core/vm-x86.c | 64 +++++++++++++++++++++++++++++++--------------------
 core/vm.c     |  4 ++--
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index ed3fc7c..2e2fec2 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -519,24 +519,30 @@ void potion_x86_getlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatil
   X86_MOV_RBP(0x89, op.a); 		     // a: mov %eax %esp(A)
 }
 
+// store into a ref, which may be older than the value
+PN potion_f_setlocal(Potion *P, PN local, PN val) {
+  if (!PN_IS_REF(local)) return val;
+  PN_DEREF(local) = val;
+  PN_TOUCH(local);
+  return local;
+}
+
 // if (PN_IS_REF(locals[op.b])) PN_DEREF(locals[op.b])  = reg[op.a];
 // else locals[op.b] = reg[op.a];
-void potion_x86_setlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long regs) {
+void potion_x86_setlocal(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long regs, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   PN_HAS_UPVALS(up);
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a) 	// mov %rsp(A) %rdx
   if (up) { // upvals need to be deref'd
-    X86_MOV_RBP(0x8B, regs + op.b); 			// mov %rsp(B) %rax
-    ASMS("\xF6\xC0\x01" 				// test 0x1 %al
-	 "\x75"); ASM(X86C(19,20, 0,0)); 		// jnz a
-    ASMS("\xF7\xC0"); ASMI(PN_REF_MASK); 		// test REFMASK %eax
-    ASM(0x74); ASM(X86C(11,12, 0,0)); 			// jz a
-    ASMS("\x81\x38"); ASMI(PN_TWEAK); 			// cmpq WEAK (%rax) # 0x250004
-    ASM(0x75); ASM(X86C(3,4, 0,0)); 			// jnz a
-    X86_PRE(); ASM(0x89); ASM(0x50);
-               ASM(sizeof(struct PNObject)); 		// mov N(%rax) %rax
+    X86_ARGO(start - 3, 0);
+    X86_ARGO(regs + op.b, 1);
+    X86_ARGO(op.a, 2);
+    X86_PRE(); ASM(0xB8); ASMN(potion_f_setlocal); 	// mov &potion_f_setlocal %rax
+    ASM(0xFF); ASM(0xD0); 				// callq %rax
+    X86_MOV_RBP(0x89, regs + op.b); 			// mov %rax %rsp(B)
+  } else {
+    X86_MOV_RBP(0x8B, op.a); 				// mov %rsp(A) %rax
+    X86_MOV_RBP(0x89, regs + op.b); 			// mov %rax %rsp(B)
   }
-  X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x55, regs + op.b)// a: mov %rdx %rsp(B)
 }
 
 // reg[op.a] = PN_DEREF(upvals[op.b])
@@ -548,12 +554,13 @@ void potion_x86_getupval(Potion *P, struct PNProto * volatile f, PNAsm * volatil
 }
 
 // PN_DEREF(upvals[op.b]) = reg[op.a]
-// TODO: place the upval in the write barrier (or have stack scanning handle weak refs)
-void potion_x86_setupval(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long lregs) {
+void potion_x86_setupval(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long lregs, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, op.a) 		// mov -A(%rbp) %edx
-  X86_MOV_RBP(0x8B, lregs + op.b); 				// mov %rsp(B) %rax
-  X86_PRE(); ASM(0x89); ASM(0x50); ASM(sizeof(struct PNObject));// mov %rdx %rax.data
+  X86_ARGO(start - 3, 0);
+  X86_ARGO(lregs + op.b, 1);
+  X86_ARGO(op.a, 2);
+  X86_PRE(); ASM(0xB8); ASMN(potion_f_setlocal); 		// mov &potion_f_setlocal %rax
+  ASM(0xFF); ASM(0xD0); 					// callq %rax
 }
 
 void potion_x86_global(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
@@ -1044,6 +1051,13 @@ PN potion_f_protos(Potion *P, PN cl, PN i) {
   return (PN)c;
 }
 
+// hand an upval to a closure, which may have been promoted since potion_f_protos
+PN potion_f_upval(Potion *P, PN cl, PN ref, long i) {
+  PN_CLOSURE(cl)->data[i + 1] = ref;
+  PN_TOUCH(cl);
+  return cl;
+}
+
 /* OP_PROTO */
 void potion_x86_method(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE *pos, long lregs, long start, long regs) {
   PN_OP op = PN_OP_AT(f->asmb, *pos);
@@ -1057,26 +1071,26 @@ void potion_x86_method(Potion *P, struct PNProto * volatile f, PNAsm * volatile
   X86_MOV_RBP(0x89, op.a);
   X86_MOVQ(start - 3, P);
   PN_TUPLE_COUNT(PN_PROTO(proto)->upvals, i, {
-    int n;
+    long from;
     (*pos)++;
     PN_OP opp = PN_OP_AT(f->asmb, *pos);
+    from = (opp.code == OP_GETUPVAL ? lregs : regs) + opp.b;
     if (opp.code == OP_GETUPVAL) {
-      X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55, lregs + opp.b) // mov upval %rdx
     } else if (opp.code == OP_GETLOCAL) {
       X86_ARGO(start - 3, 0);
       X86_ARGO(regs + opp.b, 1);
       X86_PRE(); ASM(0xB8); ASMN(potion_ref); 	// mov &potion_ref %rax
       ASM(0xFF); ASM(0xD0);			// callq %rax
-      X86_PRE(); ASM(0x89); ASM(0xC2);		// mov %rax %rdx
       X86_MOV_RBP(0x89, regs + opp.b);		// mov %rax local
     } else {
       fprintf(stderr, "** missing an upval to proto %p\n", (void *)proto);
     }
-    X86_MOV_RBP(0x8B, opp.a);			// mov cl %rax
-    X86_PRE(); ASM(0x89);			// mov %rdx N(%rax)
-    n = sizeof(struct PNClosure) + (sizeof(PN) * (i + 1));
-    if (n >= 0x80) { ASM(0x90); ASMI(n); }
-    else { ASM(0x50); ASM(n); }
+    X86_ARGO(start - 3, 0);
+    X86_ARGO(opp.a, 1);
+    X86_ARGO(from, 2);
+    X86_ARGO_IMM(i, 3);
+    X86_PRE(); ASM(0xB8); ASMN(potion_f_upval); 	// mov &potion_f_upval %rax
+    ASM(0xFF); ASM(0xD0);			// callq %rax
   });
 }
 
diff --git a/core/vm.c b/core/vm.c
index 1d8153b..5dec9e6 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -304,9 +304,9 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
       CASE_OP(SELF, (P, f, &asmb, pos, need))   // prepare an object method for calling
 						// R[a+1] := R[b]; R[a] := R[b][RK[c]]
       CASE_OP(GETLOCAL, (P, f, &asmb, pos, regs))// read a local into a register
-      CASE_OP(SETLOCAL, (P, f, &asmb, pos, regs))// write a register value into a local
+      CASE_OP(SETLOCAL, (P, f, &asmb, pos, regs, need))// write a register value into a local
       CASE_OP(GETUPVAL, (P, f, &asmb, pos, lregs))// read an upvalue (upper scope)
-      CASE_OP(SETUPVAL, (P, f, &asmb, pos, lregs))// write to an upvalue
+      CASE_OP(SETUPVAL, (P, f, &asmb, pos, lregs, need))// write to an upvalue
       CASE_OP(GLOBAL, (P, f, &asmb, pos, need))	 // returns a global (for get or set)
       CASE_OP(NEWTUPLE, (P, f, &asmb, pos, need))// create tuple
       CASE_OP(GETTUPLE, (P, f, &asmb, pos, need))// get tuple key (fast and unsafe)
-- 
2.43.0


From fb22d00a6637b89254bf95bbce5d55169a2d2b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 15/90] fix: a new method's stale slot was scanned before it
 was set

def_method touched the method table between claiming the slot and storing
the method, and the collection this may trigger followed whatever the slot
held before. The library constructors also need a write barrier.
---
 core/objmodel.c | 1 +
 lib/buffile.c   | 1 +
 lib/database.c  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/core/objmodel.c b/core/objmodel.c
index 88ff1e7..faf8df0 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -360,6 +360,7 @@ PN potion_def_method(Potion *P, PN closure, PN self, PN key, PN method) {
   if (PN_TVTABLE != PN_TYPE(self)) return potion_type_error_want(P, "self.def_method", self, "VTable (a class)");
   unsigned k = kh_put(PN, vt->methods, key, &ret);
   PN_QUICK_FWD(struct PNTable *, vt->methods);
+  if (ret) kh_val(PN, vt->methods, k) = PN_NIL; // no stale value for the collector
   PN_TOUCH(vt->methods);
   PN_TOUCH(vt);
 
diff --git a/lib/buffile.c b/lib/buffile.c
index a596140..370a536 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -296,6 +296,7 @@ DLLEXPORT
 void Potion_Init_buffile(Potion *P) {
   PN ffile_vt = potion_type_new2(P, PN_TUSER, PN_VTABLE(PN_TFILE), PN_STR("BufFile"));
   potion_type_constructor_is(ffile_vt, PN_FUNC(potion_buffile_fopen, "path=S,mode=S"));
+  PN_TOUCH(ffile_vt);
   //potion_class_method(ffile_vt, "fd", potion_buffile_fdopen, "fd=N,mode=S");
   potion_method(P->lobby, "fopen", potion_buffile_fopen, "path=S,mode=S");
   potion_method(ffile_vt, "fdopen", potion_buffile_fdopen, "fd=N,mode=S");
diff --git a/lib/database.c b/lib/database.c
index 7ae9920..457aaf0 100644
--- a/lib/database.c
+++ b/lib/database.c
@@ -178,6 +178,7 @@ void Potion_Init_database(Potion *P) {
   potion_define_global(P, PN_STR("Database"), db_vt);
 
   potion_type_constructor_is(db_vt, PN_FUNC(potion_sqlite_new, "path=S"));
+  PN_TOUCH(db_vt);
   potion_method(db_vt, "exec", potion_sqlite_exec, "query=S|callback=o");
   potion_method(db_vt, "gettable", potion_sqlite_gettable, "query=S");
   potion_method(db_vt, "close", potion_sqlite_close, 0);
-- 
2.43.0


From fee7842119e94d13d89ff2a1ee58278f004d4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 16/90] fix: database queries and callbacks lost while a
 callback allocates

The callback object was opaque to the collector, so its closure was never
updated, and sqlite kept reading a query the collector had moved.
---
 lib/database.c | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/lib/database.c b/lib/database.c
index 457aaf0..b6e1eab 100644
--- a/lib/database.c
+++ b/lib/database.c
@@ -7,6 +7,8 @@
 #include "potion.h"
 #include <sqlite3.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 
 #define PN_ALLOC(V,T)        (T * volatile)potion_gc_alloc(P, V, sizeof(T))
 
@@ -18,17 +20,13 @@ struct PNDatabase {
   sqlite3 *db;
 };
 
+// lives on the C stack, where the collector sees and updates the closure
 struct PNCallback {
-  PN_OBJECT_HEADER;
-  PN_SIZE siz;
   Potion *P;
   PN     cb;
 };
 
-const int CallbackSize = sizeof(struct PNCallback) - sizeof(struct PNData);
-
 PN potion_sqlite_open(Potion *P, PN cl, PN self, PN path);
-PN potion_callback(Potion *P, PN closure);
 
 static int
 potion_database_callback(void *callback, int argc, char **argv, char **azColName) {
@@ -72,13 +70,16 @@ PN potion_sqlite_exec(Potion *P, PN cl, PN self, PN query, PN callback) {
   char *zErrMsg = 0;
   int rc;
   struct PNDatabase *db = (struct PNDatabase *)self;
-  struct PNCallback *cb = (struct PNCallback*)potion_callback(P, callback);
+  struct PNCallback cb = { P, callback };
   if (db->db == NULL) {
     //FIXME: Return a proper error
     return potion_io_error(P, "exec");
   }
-  rc = sqlite3_exec(db->db, PN_STR_PTR(query),
-                    potion_database_callback, cb, &zErrMsg);
+  // the callback allocates, which may move the query away from under sqlite
+  char *q = strdup(PN_STR_PTR(query));
+  if (!q) potion_allocation_error();
+  rc = sqlite3_exec(db->db, q, potion_database_callback, &cb, &zErrMsg);
+  free(q);
   if (rc != SQLITE_OK) {
     // Convert to potion string and return it as an error
     fprintf(stderr, "SQL error: %s\n", zErrMsg);
@@ -164,14 +165,6 @@ PN potion_sqlite_isopen(Potion *P, PN cl, PN self) {
   return db->db ? PN_TRUE : PN_FALSE;
 }
 
-PN potion_callback(Potion *P, PN closure) {
-  struct PNCallback *cb = (struct PNCallback *)potion_data_alloc(P, CallbackSize);
-  cb->siz = CallbackSize; // To help out GC
-  cb->P = P;
-  cb->cb = closure;
-  return (PN)cb;
-}
-
 void Potion_Init_database(Potion *P) {
   PN db_vt = potion_class(P, 0, 0, 0);
   PN_TDATABASE = potion_class_type(P, db_vt);
-- 
2.43.0


From 720e836f7ab49c8b8b389c5e19627cca29a89543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 17/90] fix: map stored its results into the new list without a
 write barrier

---
 core/table.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/table.c b/core/table.c
index a3cd65d..587d56b 100644
--- a/core/table.c
+++ b/core/table.c
@@ -111,6 +111,7 @@ PN potion_table_map(Potion *P, PN cl, PN self, PN block) {
       else
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
       t2->set[i++] = ret;
+      PN_TOUCH(t2); // the next call may collect
     }
   PN_TOUCH(t2);
   return (PN)t2;
@@ -461,6 +462,7 @@ PN potion_tuple_map(Potion *P, PN cl, PN self, PN block) {
   PN_TUPLE_EACH(self, i, v, {
     PN ret = PN_CLOSURE(block)->method(P, block, cl, v);
     SET(i, ret);
+    PN_TOUCH(t); // the next call may collect
   });
   return (PN)t;
 }
-- 
2.43.0


From a4755053f25f1ce369a4d9b3d80b7d552a0f4b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 18/90] fix: pop, shift and sort ran off an empty list, push
 overran one without room

---
 core/table.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/table.c b/core/table.c
index 587d56b..cdf5d40 100644
--- a/core/table.c
+++ b/core/table.c
@@ -314,8 +314,9 @@ PN potion_tuple_push(Potion *P, PN tuple, PN value) {
   vPN(Tuple) t = PN_GET_TUPLE(tuple);
   DBG_CHECK_TUPLE(t);
   if (t->len >= t->alloc) {
-    PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len * 2)); // overalloc by 2 times
-    t->alloc = t->len * 2;
+    PN_SIZE alloc = t->len ? t->len * 2 : 3; // overalloc by 2 times
+    PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * alloc);
+    t->alloc = alloc;
   }
   t->set[t->len] = value;
   t->len++;
@@ -564,6 +565,7 @@ PN potion_tuple_string(Potion *P, PN cl, PN self) {
 PN potion_tuple_pop(Potion *P, PN cl, PN self) {
   vPN(Tuple) t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
+  if (!t->len) return PN_NIL;
   PN obj = t->set[t->len - 1];
   PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len - 1));
   t->len--;
@@ -617,8 +619,9 @@ PN potion_tuple_unshift(Potion *P, PN cl, PN self, PN value) {
 PN potion_tuple_shift(Potion *P, PN cl, PN self) {
   vPN(Tuple) t = PN_GET_TUPLE(self);
   DBG_CHECK_TUPLE(t);
+  if (!t->len) return PN_NIL;
   PN obj = t->set[0];
-  PN_MEMMOVE_N(&t->set[0], &t->set[1], PN, t->len);
+  PN_MEMMOVE_N(&t->set[0], &t->set[1], PN, t->len - 1);
   PN_REALLOC(t, PN_TTUPLE, struct PNTuple, sizeof(PN) * (t->len - 1));
   t->len--;
   PN_TOUCH(self);
@@ -813,7 +816,7 @@ static PN potion_tuple_sort(Potion *P, PN cl,
   PN_SIZE len = PN_TUPLE_LEN(self);
   if (cmp != PN_NIL && !PN_IS_BOOL(cmp) && !PN_IS_CLOSURE(cmp))
     potion_fatal("sort: invalid cmp type");
-  potion_sort_internal(P, cl, data, 0, len-1, cmp);
+  if (len) potion_sort_internal(P, cl, data, 0, len-1, cmp);
   return data;
 }
  
-- 
2.43.0


From 4fd39d8bd1038e95fdab4a30aa82070189042f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 19/90] fix: list indexes out of range read and wrote past the
 list, remove dropped the last

---
 core/table.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/core/table.c b/core/table.c
index cdf5d40..4131234 100644
--- a/core/table.c
+++ b/core/table.c
@@ -370,7 +370,7 @@ PN potion_tuple_at(Potion *P, PN cl, PN self, PN index) {
   DBG_CHECK_TUPLE(self);
   long i = PN_INT(index), len = PN_TUPLE_LEN(self);
   if (i < 0) i += len;
-  if (i >= len) return PN_NIL;
+  if (i < 0 || i >= len) return PN_NIL;
   return PN_TUPLE_AT(self, i);
 }
 
@@ -424,10 +424,11 @@ PN potion_tuple_slice(Potion *P, PN cl, PN self, PN start, PN end) {
     l = e - i;
     if (l < 0) { i = e; l = labs(l) + 1; }
     else l++;
-    if (l > t1->len) l = t1->len; // permit overshoots
   }
   DBG_vt("; splice(i=%ld,len=%ld)\n", i, l);
-  if (!l || i >= t1->len) return PN_NIL;
+  if (i < 0) { l += i; i = 0; } // permit overshoots
+  if (l > (long)t1->len - i) l = (long)t1->len - i;
+  if (l <= 0) return PN_NIL;
   NEW_TUPLE(t2, l);
   PN_MEMCPY_N(&t2->set[0], &t1->set[i], PN, l);
   t2->alloc = l;
@@ -584,7 +585,7 @@ PN potion_tuple_put(Potion *P, PN cl, PN self, PN key, PN value) {
     DBG_CHECK_TUPLE(self);
     long i = PN_INT(key), len = PN_TUPLE_LEN(self);
     if (i < 0) i += len;
-    if (i < len) {
+    if (i >= 0 && i < len) {
       PN_TUPLE_AT(self, i) = value;
       PN_TOUCH(self);
       return self;
@@ -678,8 +679,8 @@ PN potion_tuple_remove(Potion *P, PN cl, PN self, PN index) {
     PN_SIZE i = PN_INT(index);
     PN data = potion_tuple_clone(P, cl, self);
     t = PN_GET_TUPLE(data);
-    if (i < t->len)
-      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i);
+    if (i >= t->len) return data;
+    PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i - 1);
     t->len--;
     //((struct PNFwd *)data)->ptr = (PN)t;
     PN_TOUCH(data);
@@ -697,8 +698,8 @@ PN potion_tuple_delete(Potion *P, PN cl, PN self, PN index) {
   DBG_CHECK_TUPLE(t);
   if (t->len) {
     PN_SIZE i = PN_INT(index);
-    if (i < t->len)
-      PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i);
+    if (i >= t->len) return self;
+    PN_MEMMOVE_N(&t->set[i], &t->set[i+1], PN, t->len - i - 1);
     t->len--;
     PN_TOUCH(self);
   }
-- 
2.43.0


From b48a2b298b4e94113394889862c6c5a5d09e81e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:59 +0000
Subject: [PATCH 20/90] fix: a list or table growing while it was iterated was
 read through its forwarding header

---
 core/potion.h | 4 ++--
 core/table.c  | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/potion.h b/core/potion.h
index 0aaf1b7..457ae3b 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -284,7 +284,7 @@ typedef _PN (*PN_F)(Potion *, PN, PN, ...);
     struct PNTuple * volatile __t##I = PN_GET_TUPLE(T); \
     if (__t##I->len != 0) { \
       PN_SIZE I; \
-      for (I = 0; I < __t##I->len; I++) B \
+      for (I = 0; I < (__t##I = PN_GET_TUPLE(__t##I))->len; I++) B \
     } \
   })
 ///\memberof PNTuple
@@ -292,7 +292,7 @@ typedef _PN (*PN_F)(Potion *, PN, PN, ...);
     struct PNTuple * volatile __t##V = PN_GET_TUPLE(T); \
     if (__t##V->len != 0) { \
       PN_SIZE I; \
-      for (I = 0; I < __t##V->len; I++) { \
+      for (I = 0; I < (__t##V = PN_GET_TUPLE(__t##V))->len; I++) { \
         PN V = __t##V->set[I]; \
         B \
       } \
diff --git a/core/table.c b/core/table.c
index 4131234..f1e0786 100644
--- a/core/table.c
+++ b/core/table.c
@@ -86,6 +86,7 @@ PN potion_table_each(Potion *P, PN cl, PN self, PN block) {
   for (k = kh_begin(t); k != kh_end(t); ++k)
     if (kh_exist(PN, t, k)) {
       PN_CLOSURE(block)->method(P, block, P->lobby, kh_key(PN, t, k), kh_val(PN, t, k));
+      t = (struct PNTable *)potion_fwd((PN)t); // the block may have grown it
     }
   return self;
 }
@@ -103,7 +104,7 @@ PN potion_table_map(Potion *P, PN cl, PN self, PN block) {
   DBG_CHECK_TYPE(t,PN_TTABLE);
   NEW_TUPLE(t2, kh_size(t));
   for (k = kh_begin(t); k != kh_end(t); ++k)
-    if (kh_exist(PN, t, k)) {
+    if (kh_exist(PN, t, k) && i < t2->len) {
       PN ret;
       if (with_val)
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k),
@@ -111,6 +112,7 @@ PN potion_table_map(Potion *P, PN cl, PN self, PN block) {
       else
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
       t2->set[i++] = ret;
+      t = (struct PNTable *)potion_fwd((PN)t); // the block may have grown it
       PN_TOUCH(t2); // the next call may collect
     }
   PN_TOUCH(t2);
@@ -276,6 +278,7 @@ PN potion_table_filter(Potion *P, PN cl, PN self, PN block) {
                                                       kh_val(PN, t, k));
       else
         ret = PN_CLOSURE(block)->method(P, block, cl, kh_key(PN, t, k));
+      t = (struct PNTable *)potion_fwd((PN)t); // the block may have grown it
       if (!PN_TEST(ret)) {
         unsigned k2 = kh_get(PN, t2, kh_key(PN, t, k)); // the clone has its own layout
         if (k2 != kh_end(t2)) kh_del(PN, t2, k2);
@@ -462,6 +465,7 @@ PN potion_tuple_map(Potion *P, PN cl, PN self, PN block) {
   PN_SIZE len = PN_TUPLE_LEN(self);
   NEW_TUPLE(t, len);
   PN_TUPLE_EACH(self, i, v, {
+    if (i >= len) break; // the block has grown it
     PN ret = PN_CLOSURE(block)->method(P, block, cl, v);
     SET(i, ret);
     PN_TOUCH(t); // the next call may collect
-- 
2.43.0


From 04f7a296c078dde699e6ee2a9fe16dbcac99cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 21/90] fix: the VM stopped the program at an operator of
 anything but numbers

---
 core/vm.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 5dec9e6..2e79f85 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -370,8 +370,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   if (PN_IS_INT(reg[op.a]) && PN_IS_INT(reg[op.b]))		  \
     reg[op.a] = PN_NUM(PN_INT(reg[op.a]) oper PN_INT(reg[op.b])); \
   else {                                                          \
-    PN_CHECK_NUM(reg[op.a]);                                      \
-    PN_CHECK_NUM(reg[op.b]);                                      \
+    if (PN_IS_NUM(reg[op.a])) PN_CHECK_NUM(reg[op.b]);            \
     reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);       \
   }
 
@@ -391,8 +390,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
       reg[op.a] = PN_NUM((long)val);                              \
   }                                                               \
   else {                                                          \
-    PN_CHECK_NUM(reg[op.a]);                                      \
-    PN_CHECK_NUM(reg[op.b]);                                      \
+    if (PN_IS_NUM(reg[op.a])) PN_CHECK_NUM(reg[op.b]);            \
     reg[op.a] = potion_obj_##name(P, reg[op.a], reg[op.b]);       \
   }
 #else
-- 
2.43.0


From cce297737b246c145aed5577b36901ec5b6dd5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 22/90] fix: the stack scan took the middle of objects, such as
 code being assembled, for objects

---
 core/asm.c | 12 ++++++------
 core/gc.c  |  3 ++-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/asm.c b/core/asm.c
index 46b4a9c..a27ee24 100644
--- a/core/asm.c
+++ b/core/asm.c
@@ -24,18 +24,18 @@ PNAsm *potion_asm_clear(Potion *P, PNAsm * volatile asmb) {
 }
 
 PNAsm *potion_asm_put(Potion *P, PNAsm * volatile asmb, PN val, size_t len) {
-  u8 *ptr;
   PN_FLEX_NEEDS(len, asmb, PN_TBYTES, PNAsm, ASM_UNIT);
-  ptr = asmb->ptr + asmb->len;
 
+  // no pointer variable into the code: a vtable number emitted there looks like
+  // an object to the stack scan
   if (len == sizeof(u8))
-    *ptr = (u8)val;
+    asmb->ptr[asmb->len] = (u8)val;
   else if (len == sizeof(int))
-    *((int *)ptr) = (int)val;
+    *((int *)(asmb->ptr + asmb->len)) = (int)val;
   else if (len == sizeof(PN))
-    *((PN *)ptr) = val;
+    *((PN *)(asmb->ptr + asmb->len)) = val;
   else if (len == 2)
-    *((short *)ptr) = (short)val;
+    *((short *)(asmb->ptr + asmb->len)) = (short)val;
 
   asmb->len += len;
   return asmb;
diff --git a/core/gc.c b/core/gc.c
index 6066ce4..8582dd9 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -64,7 +64,8 @@ static PN_SIZE pngc_mark_array(Potion *P, register _PN *x, register long n, int
 
   while (n--) {
     v = *x;
-    if (IS_GC_PROTECTED(v) || IN_BIRTH_REGION(v) || IN_OLDER_REGION(v)) {
+    if (!(v & 7) && // objects are aligned
+        (IS_GC_PROTECTED(v) || IN_BIRTH_REGION(v) || IN_OLDER_REGION(v))) {
       v = potion_fwd(v);
       switch (type) {
         case 0: // count only
-- 
2.43.0


From 153923e97e6bd608beef044be661646dd67edb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 23/90] fix: the JIT wrote past its jump and offset arrays in
 functions of over 1024 ops

---
 core/vm.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 2e79f85..77ab268 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -214,14 +214,13 @@ PN potion_vm_class(Potion *P, PN cl, PN self) {
 }
 
 #define STACK_MAX 4096
-#define JUMPS_MAX 1024
 
 #define CASE_OP(name, args) case OP_##name: target->op[OP_##name]args; break;
 
 PN_F potion_jit_proto(Potion *P, PN proto) {
   long regs = 0, lregs = 0, need = 0, rsp = 0, argx = 0, protoargs = 4;
   PN_SIZE pos;
-  PNJumps jmps[JUMPS_MAX]; size_t offs[JUMPS_MAX]; int jmpc = 0, jmpi = 0;
+  PNJumps *jmps; size_t *offs; int jmpc = 0, jmpi = 0;
   vPN(Proto) f = (struct PNProto *)proto;
   long upc = PN_TUPLE_LEN(f->upvals);
   PNAsm * volatile asmb = potion_asm_new(P);
@@ -288,6 +287,13 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   if (upc > 0)
     target->upvals(P, f, &asmb, lregs, need, upc);
 
+  // every op has an offset and can be a jump
+  pos = PN_FLEX_SIZE(f->asmb) / sizeof(PN_OP) + 1;
+  jmps = malloc(pos * sizeof(PNJumps));
+  offs = malloc(pos * sizeof(size_t));
+  if (jmps == NULL || offs == NULL)
+    potion_fatal("Out of memory");
+
   for (pos = 0; pos < PN_FLEX_SIZE(f->asmb) / sizeof(PN_OP); pos++) {
     offs[pos] = asmb->len;
     for (jmpi = 0; jmpi < jmpc; jmpi++) {
@@ -362,6 +368,8 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   }
 #endif
   PN_MEMCPY_N(fn, asmb->ptr, u8, asmb->len);
+  free(jmps);
+  free(offs);
 
   return f->jit = (PN_F)fn;
 }
-- 
2.43.0


From 9bfac1284613ea5679bf7bf926b83cae1168bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 24/90] fix: a collection during parsing or compiling lost the
 program, longer ones crashed

The parser's value stack was not scanned, nor its string buffer, and stores into
AST nodes and protos had no write barrier. A program of some 4 kB crashed.
---
 README.md      |  3 ---
 core/ast.c     |  1 +
 core/compile.c | 28 +++++++++++++++++-----------
 core/gc.c      | 15 +++++++++++----
 core/potion.h  |  2 ++
 core/syntax.y  | 24 +++++++++++++++++++++++-
 6 files changed, 54 insertions(+), 19 deletions(-)

diff --git a/README.md b/README.md
index 7d68026..c3f827a 100644
--- a/README.md
+++ b/README.md
@@ -86,9 +86,6 @@ However, some warnings:
    rather uninspired on the matter. Let's hear
    from you.
 
- * The parser is not GC safe. This affects eval.
-   Do not waste too much memory inside eval.
-
  * No OS threads yet.
 
 
diff --git a/core/ast.c b/core/ast.c
index dcc13c3..e5b86e4 100644
--- a/core/ast.c
+++ b/core/ast.c
@@ -40,6 +40,7 @@ PN potion_source(Potion *P, u8 p, PN a, PN b, PN c, int lineno, PN line) {
   t->loc.fileno = P->fileno; // only advanced by load/require
   t->loc.lineno = lineno;
   t->line = line;
+  t->a[0] = t->a[1] = t->a[2] = NULL;
 #if 1
   switch (size) {
   case 3: t->a[2] = PN_SRC(c);
diff --git a/core/compile.c b/core/compile.c
index 03e17ec..a91531b 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -23,8 +23,10 @@
 #include <dlfcn.h>
 #endif
 
-#define PN_ASM1(ins, _a)     f->asmb = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, 0)
-#define PN_ASM2(ins, _a, _b) f->asmb = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, (int)_b)
+#define PN_ASM1(ins, _a)     PN_ASM2(ins, _a, 0)
+#define PN_ASM2(ins, _a, _b) ({ \
+  f->asmb = (PN)potion_asm_op(P, (PNAsm *)f->asmb, (u8)ins, (int)_a, (int)_b); \
+  PN_TOUCH(f); })
 
 const struct {
   const char *name;
@@ -181,6 +183,8 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
   return PN_STR_B(out);
 }
 
+/// set a field of a proto, which may be older than the value
+#define PN_PROTO_SET(f, field, val) ({ (f)->field = (val); PN_TOUCH(f); })
 #define PN_REG(f, reg) \
   if (reg >= PN_INT(f->stack)) \
     f->stack = PN_NUM(reg + 1)
@@ -227,6 +231,7 @@ PN potion_proto_string(Potion *P, PN cl, PN self) {
         up = f; \
         while (depth--) { \
           up->upvals = PN_PUSH(up->upvals, name); \
+          PN_TOUCH(up); \
 	  DBG_c("upvals %s =>\n", AS_STR(name)); \
           up = (struct PNProto *)up->source; \
         } \
@@ -644,6 +649,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
           // TODO: a hack to make sure constructors always return self
           if (PN_S(blk, 0) == PN_NIL)
             blk->a[0] = PN_SRC(PN_AST(CODE, PN_NIL, blk->loc.lineno, blk->line));
+          PN_TOUCH(blk);
           PN ctor = PN_S(blk, 0);
           PN_PUSH(ctor, PN_AST(EXPR, PN_TUP(PN_AST(MSG,
 	    PN_STRN("self", 4), blk->loc.lineno, 0)),
@@ -1057,17 +1063,17 @@ PN potion_source_compile(Potion *P, PN cl, PN self, PN source, PN sig) {
   f = PN_ALLOC(PN_TPROTO, struct PNProto);
   f->source = source;
   f->stack = PN_NUM(1);
-  f->protos = PN_TUP0();
-  f->paths = PN_TUP0();
-  f->locals = PN_TUP0();
-  f->upvals = PN_TUP0();
-  f->values = PN_TUP0();
-  f->debugs = PN_TUP0();
   f->tree = self;
-  DBG_c("-- compile --\n");
-  f->sig = (sig == PN_NIL ? PN_TUP0() : potion_sig_compile(P, f, sig));
-  f->asmb = (PN)potion_asm_new(P);
   f->name = PN_NIL;
+  PN_PROTO_SET(f, protos, PN_TUP0());
+  PN_PROTO_SET(f, paths, PN_TUP0());
+  PN_PROTO_SET(f, locals, PN_TUP0());
+  PN_PROTO_SET(f, upvals, PN_TUP0());
+  PN_PROTO_SET(f, values, PN_TUP0());
+  PN_PROTO_SET(f, debugs, PN_TUP0());
+  DBG_c("-- compile --\n");
+  PN_PROTO_SET(f, sig, sig == PN_NIL ? PN_TUP0() : potion_sig_compile(P, f, sig));
+  PN_PROTO_SET(f, asmb, (PN)potion_asm_new(P));
 
   potion_source_asmb(P, f, NULL, 0, t, 0);
   PN_ASM1(OP_RETURN, 0);
diff --git a/core/gc.c b/core/gc.c
index 8582dd9..9fa538e 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -98,6 +98,7 @@ static PN_SIZE pngc_mark_array(Potion *P, register _PN *x, register long n, int
 ATTRIBUTE_NO_ADDRESS_SAFETY_ANALYSIS
 PN_SIZE potion_mark_stack(Potion *P, int type) {
   long n;
+  PN_SIZE found = 0;
   _PN *end, *start = P->mem->cstack;
   POTION_ESP(&end);
 #if POTION_STACK_DIR > 0
@@ -108,8 +109,14 @@ PN_SIZE potion_mark_stack(Potion *P, int type) {
   end = P->mem->cstack;
 #endif
   DBG_Gv(P,"mark_stack (%p -> %p = %ld, type=%d)\n", start, end, n, type);
-  if (n <= 0) return 0;
-  return pngc_mark_array(P, start, n, type);
+  if (P->mem->parser) { // the parser's value stack is on the heap
+    volatile PN *yy, *vals;
+    PN_SIZE len = potion_parser_values(P->mem->parser, &yy, &vals);
+    found += pngc_mark_array(P, (_PN *)yy, 1, type);
+    found += pngc_mark_array(P, (_PN *)vals, len, type);
+  }
+  if (n <= 0) return found;
+  return found + pngc_mark_array(P, start, n, type);
 }
 
 void *pngc_page_new(int *sz, const char exec) {
@@ -464,7 +471,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
       GC_MINOR_UPDATE(((Potion *)ptr)->callset);
       GC_MINOR_UPDATE(((Potion *)ptr)->input);
       GC_MINOR_UPDATE(((Potion *)ptr)->source);
-      //GC_MINOR_UPDATE(((Potion *)ptr)->pbuf);
+      GC_MINOR_UPDATE(((Potion *)ptr)->pbuf);
       GC_MINOR_UPDATE(((Potion *)ptr)->line);
       GC_MINOR_UPDATE(((Potion *)ptr)->unclosed);
       //GC_MINOR_UPDATE(((Potion *)ptr)->target);
@@ -585,7 +592,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
       //DBG_G(P,"   source\n");
       GC_MAJOR_UPDATE(((Potion *)ptr)->source);
       //DBG_G(P,"   pbuf\n");
-      //GC_MAJOR_UPDATE(((Potion *)ptr)->pbuf);
+      GC_MAJOR_UPDATE(((Potion *)ptr)->pbuf);
       //DBG_G(P,"   line\n");
       GC_MAJOR_UPDATE(((Potion *)ptr)->line);
       //DBG_G(P,"   unclosed\n");
diff --git a/core/potion.h b/core/potion.h
index 457ae3b..a036535 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -687,6 +687,7 @@ struct PNMemory {
   volatile int collecting, dirty, pass, majors, minors;
   void *cstack;  ///< machine stack start
   void *protect; ///< end of protected memory
+  struct _GREG *parser; ///< the running parser, its values are scanned
 #ifdef DEBUG
   double time;
 #endif
@@ -977,6 +978,7 @@ PN potion_gc_actual(Potion *, PN, PN);
 PN potion_gc_fixed(Potion *, PN, PN);
 
 PN potion_parse(Potion *, PN, char*);
+PN_SIZE potion_parser_values(struct _GREG *, volatile PN **, volatile PN **);
 PN potion_vm_proto(Potion *, PN, PN, ...);
 PN potion_vm_class(Potion *, PN, PN);
 PN potion_vm(Potion *, PN, PN, PN, PN_SIZE, PN * volatile);
diff --git a/core/syntax.y b/core/syntax.y
index 738c29a..17d450b 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -56,6 +56,9 @@
 #define SRC_TPL3(x,y,z)   P->source = PN_PUSH(PN_PUSH(PN_PUSH(P->source, x), y), z)
 
 static PN yylastline(struct _GREG *G, int pos);
+
+// a new value stack has no values yet
+#define YY_ALLOC(N, D) calloc(1, N)
 %}
 
 potion = -- s:statements end-of-file { $$ = P->source = PN_AST(CODE, s) }
@@ -145,7 +148,7 @@ atom = e:value | e:closure | e:list | e:extern | e:call
 
 call = (n:name { v = PN_NIL; b = PN_NIL; } (v:value | v:list)? (b:block | b:closure)? |
        (v:value | v:list) { n = PN_AST(MSG, PN_NIL); b = PN_NIL; } b:block?)
-         { $$ = n; PN_SRC(n)->a[1] = PN_SRC(v); PN_SRC(n)->a[2] = PN_SRC(b) }
+         { $$ = n; PN_SRC(n)->a[1] = PN_SRC(v); PN_SRC(n)->a[2] = PN_SRC(b); PN_TOUCH(n) }
 
 extern = "extern" - n:name list-start { P->source = PN_TUP0() } l:arg-list list-end
          { $$ = PN_AST2(MSG, PN_extern, PN_PUSH(PN_TUP(n), P->source)) }
@@ -379,9 +382,20 @@ arg-sep = '.' -         { SRC_TPL1(PN_NUM('.')) } #x,y... ignore rest
 
 %%
 
+/** the values on the stack of a running parser, for the garbage collector.
+    They are in malloced memory, and all what the parse has built so far hangs there.
+ */
+PN_SIZE potion_parser_values(struct _GREG *G, volatile PN **cur, volatile PN **vals) {
+  *cur = &G->ss;
+  *vals = G->vals;
+  return G->vals ? G->valslen : 0;
+}
+
 PN potion_parse(Potion *P, PN code, char *filename) {
   POTION_SIM_QUIET;
   GREG *G = YY_NAME(parse_new)(P);
+  GREG *oldparser = P->mem->parser;
+  PNAsm * volatile oldpbuf = P->pbuf;
   int oldyypos = P->yypos;
   PN oldinput = P->input;
   PN oldsource = P->source;
@@ -389,6 +403,7 @@ PN potion_parse(Potion *P, PN code, char *filename) {
   P->input = code;
   P->source = PN_NIL;
   P->pbuf = potion_asm_new(P);
+  P->mem->parser = G;
 #ifdef YY_DEBUG
   yydebug = P->flags;
 #endif
@@ -403,6 +418,8 @@ PN potion_parse(Potion *P, PN code, char *filename) {
     fprintf(stderr, "%s", s->chars);
     P->source = PN_NIL;
   }
+  P->mem->parser = oldparser;
+  P->pbuf = oldpbuf;
   YY_NAME(parse_free)(G);
 
   code = P->source;
@@ -445,6 +462,8 @@ PN potion_sig(Potion *P, char *fmt) {
   if (fmt[0] == '\0') return PN_FALSE; // empty signature, no args
 
   GREG *G = YY_NAME(parse_new)(P);
+  GREG *oldparser = P->mem->parser;
+  PNAsm * volatile oldpbuf = P->pbuf;
   int oldyypos = P->yypos;
   PN oldinput = P->input;
   PN oldsource = P->source;
@@ -452,12 +471,15 @@ PN potion_sig(Potion *P, char *fmt) {
   P->input = potion_byte_str(P, fmt);
   P->source = out = PN_TUP0();
   P->pbuf = NULL;
+  P->mem->parser = G;
 #ifdef YY_DEBUG
   yydebug = P->flags;
 #endif
 
   if (!YY_NAME(parse_from)(G, yy_sig))
     YY_ERROR("** Syntax error in signature");
+  P->mem->parser = oldparser;
+  P->pbuf = oldpbuf;
   YY_NAME(parse_free)(G);
 
   out = P->source;
-- 
2.43.0


From 5dc8c55678cefa1a26c9ed35af8efb9a72cf4082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 25/90] fix: a collection left an address past the old
 generation on the stack, later taken for an object

---
 core/gc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/gc.c b/core/gc.c
index 9fa538e..17269c7 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -297,8 +297,10 @@ void potion_garbagecollect(Potion *P, int sz, int full) {
       potion_fatal("Out of memory");
     SET_GEN(old, page, gensz);
     full = 0;
-  } else if ((char *) M->old_cur + sz + potion_birth_suggest(sz, M->old_lo, M->old_cur) +
-      ((char *) M->birth_hi - (char *) M->birth_lo) > (char *) M->old_hi)
+    // sizes only: an address past old_cur left on the stack looks like an object later
+  } else if (sz + potion_birth_suggest(sz, M->old_lo, M->old_cur) +
+      ((char *) M->birth_hi - (char *) M->birth_lo) >
+      (char *) M->old_hi - (char *) M->old_cur)
     full = 1;
 #if POTION_GC_PERIOD>0
   else if (M->pass % POTION_GC_PERIOD == POTION_GC_PERIOD)
-- 
2.43.0


From ddaed7cec6bc220945b7aa2dcfa997ba9b243fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:21 +0000
Subject: [PATCH 26/90] fix: the VM left an earlier call's captured variables
 in a function's locals

A closure made by a second call of the same function shared the first
call's variable, where the JIT gave each call its own.
---
 core/vm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 77ab268..fa75895 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -643,8 +643,9 @@ reentry:
 
   if (pos == 0) {
     reg[-1] = reg[0] = self;
-    //if (f->localsize)
-    //  memset((void*)locals, 0, sizeof(PN) * f->localsize);
+    // a ref left by an earlier call would be written through
+    if (f->localsize)
+      memset((void*)locals, 0, sizeof(PN) * f->localsize);
     if (upc > 0 && upargs != NULL) {
       PN_SIZE i;
       for (i = 0; i < upc; i++) {
-- 
2.43.0


From 2c43c1d59ed9446bdfae9b5c13488fe04ecbeaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:08 +0000
Subject: [PATCH 27/90] fix: a string literal of 33 bytes was compiled as a
 lick

The test for a lick did not check that the value is a syntax node, and a
string's length lies where a node keeps its kind.
---
 core/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/compile.c b/core/compile.c
index a91531b..812d3a5 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -359,7 +359,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
       PN_OP op; op.a = PN_S(t,0); // but 12bit only
       if (!PN_IS_PTR(a) && (PN)a == (PN)op.a) {
         PN_ASM2(OP_LOADPN, reg, PN_S(t,0));
-      } else if (a != PN_NIL && PN_IS_PTR(a)
+      } else if (PN_TYPE(a) == PN_TSOURCE
                  && PN_PART(a) == AST_LICK && PN_PART(a->a[0]) == AST_MSG) {
         vPN(Source) msg = a->a[0];
         PN tpl = PN_S(msg, 0);
-- 
2.43.0


From a16a0c83654d482c64cd538724764a0a3d87d310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 28/90] fix: a call near the end of the VM's stack lost its
 last argument

Recursion deeper than some 400 calls got nil for it, usually recursing
forever.
---
 core/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/vm.c b/core/vm.c
index fa75895..8c004f8 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -838,7 +838,7 @@ reentry:
             } else if (((reg - stack) + PN_INT(f->stack) + f->upvalsize + f->localsize + 8) >= STACK_MAX) {
 	      DBG_vt(" >stack");
               PN argt = potion_tuple_with_size(P, (op.b - op.a) - 1);
-              for (i = 2; i < op.b - op.a; i++)
+              for (i = 2; i <= op.b - op.a; i++)
                 PN_TUPLE_AT(argt, i - 2) = reg[op.a + i];
               reg[op.a] = potion_vm(P, cl->data[0], reg[op.a + 1], argt,
                 cl->extra - 1, &cl->data[1]);
-- 
2.43.0


From 2e2e1225f50b866229980310559240155772be73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 29/90] fix: saved bytecode overran its 8 KB buffer, a damaged
 one was read past its end

The writer grows its buffer and refuses what the format cannot count.
Doubles keep all their digits and are read back without the bytes after
them. The reader works on a copy, which no collection moves, checks every
length against what is left, and reports bytecode that ends early.
---
 core/compile.c | 292 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 182 insertions(+), 110 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 812d3a5..51ccf75 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1119,145 +1119,214 @@ PN potion_proto_clone(Potion *P, PN cl, PN self) {
   return (PN)n;
 }
 
-#define READ_U8(ptr) ({u8 rpu = *ptr; ptr += sizeof(u8); rpu;})
-#define READ_PN(pn, ptr) ({PN rpn = *(PN *)ptr; ptr += pn; rpn;})
-#define READ_CONST(pn, ptr) ({ \
-    PN val = READ_PN(pn, ptr); \
-    if (PN_IS_PTR(val)) { \
-      if (val & 2) { \
-        size_t len = ((val ^ 2) >> 4) - 1; \
-        val = potion_strtod(P, (char *)ptr, len); \
-        ptr += len; \
-      } else { \
-        size_t len = (val >> 4) - 1; \
-        val = PN_STRN((char *)ptr, len); \
-        ptr += len; \
-      } \
-    } \
-    val; \
-  })
-
-#define READ_TUPLE(ptr) \
-  long i = 0, count = READ_U8(ptr); \
-  PN tup = potion_tuple_with_size(P, (PN_SIZE)count); \
-  for (; i < count; i++)
-#define READ_VALUES(pn, ptr) ({ \
-    READ_TUPLE(ptr) PN_TUPLE_AT(tup, i) = READ_CONST(pn, ptr); \
-    tup; \
-  })
-#define READ_PROTOS(pn, ptr) ({ \
-    READ_TUPLE(ptr) PN_TUPLE_AT(tup, i) = potion_proto_load(P, (PN)f, pn, &(ptr)); \
-    tup; \
-  })
-
-// TODO: this byte string is volatile, need to avoid using ptr
-PN potion_proto_load(Potion *P, PN up, u8 pn, u8 **ptr) {
-  PN len = 0;
+/// bytecode being read. a copy, as the bytes may move
+typedef struct { const u8 *ptr, *end; u8 pn; } PNReader;
+
+/// \return the next len bytes, NULL when there are not as many
+static const u8 *pnb_take(PNReader *in, size_t len) {
+  const u8 *ptr = in->ptr;
+  if (len > (size_t)(in->end - ptr)) return NULL;
+  in->ptr += len;
+  return ptr;
+}
+
+static int pnb_pn(PNReader *in, PN *val) {
+  const u8 *ptr = pnb_take(in, in->pn);
+  if (ptr == NULL) return 0;
+  memcpy((void *)val, ptr, sizeof(PN));
+  return 1;
+}
+
+static int pnb_const(Potion *P, PNReader *in, PN *out) {
+  PN val;
+  if (!pnb_pn(in, &val)) return 0;
+  if (PN_IS_PTR(val)) {
+    size_t len = (size_t)(val >> 4) - 1;
+    const u8 *ptr = pnb_take(in, len);
+    if (ptr == NULL) return 0;
+    if (val & 2) {
+      char num[40];
+      if (len >= sizeof(num)) return 0;
+      memcpy(num, ptr, len);
+      num[len] = '\0';
+      val = potion_strtod(P, num, len);
+    } else
+      val = PN_STRN((char *)ptr, len);
+  }
+  *out = val;
+  return 1;
+}
+
+/// \return a list of constants, or PN_NIL
+static PN pnb_values(Potion *P, PNReader *in) {
+  PN_SIZE i, count;
+  PN tup, val;
+  const u8 *ptr = pnb_take(in, 1);
+  if (ptr == NULL) return PN_NIL;
+  count = *ptr;
+  tup = potion_tuple_with_size(P, count);
+  for (i = 0; i < count; i++) PN_TUPLE_AT(tup, i) = PN_NIL;
+  for (i = 0; i < count; i++) {
+    if (!pnb_const(P, in, &val)) return PN_NIL;
+    PN_TUPLE_AT(tup, i) = val;
+    PN_TOUCH(tup);
+  }
+  return tup;
+}
+
+#define PNB_VALUES(f, field) ({ \
+    PN _tup = pnb_values(P, in); \
+    if (_tup == PN_NIL) return PN_NIL; \
+    PN_PROTO_SET(f, field, _tup); })
+
+/// \return the proto, or PN_NIL if the bytecode ends before it
+static PN potion_proto_load(Potion *P, PN up, PNReader *in) {
+  PN val, tup, len = 0;
+  PN_SIZE i, count;
+  const u8 *ptr;
   PNAsm * volatile asmb = NULL;
   vPN(Proto) f = PN_ALLOC(PN_TPROTO, struct PNProto);
+  // the fields may be scanned before they are all read
+  memset((char *)f + sizeof(struct PNObject), 0, sizeof(struct PNProto) - sizeof(struct PNObject));
   // TODO extern protos
-  f->name = READ_CONST(pn, *ptr);
-  f->source = READ_CONST(pn, *ptr);
-  if (f->source == PN_NIL) f->source = up;
-  f->sig = READ_VALUES(pn, *ptr);
-  f->stack = READ_CONST(pn, *ptr);
-  f->values = READ_VALUES(pn, *ptr);
-  f->paths = READ_VALUES(pn, *ptr);
-  f->locals = READ_VALUES(pn, *ptr);
-  f->upvals = READ_VALUES(pn, *ptr);
-  f->protos = READ_PROTOS(pn, *ptr);
-  f->debugs = PN_TUP0();
-
-  len = READ_PN(pn, *ptr);
+  if (!pnb_const(P, in, &val)) return PN_NIL;
+  PN_PROTO_SET(f, name, val);
+  if (!pnb_const(P, in, &val)) return PN_NIL;
+  PN_PROTO_SET(f, source, val == PN_NIL ? up : val);
+  PNB_VALUES(f, sig);
+  if (!pnb_const(P, in, &val) || !PN_IS_INT(val)) return PN_NIL;
+  f->stack = val;
+  PNB_VALUES(f, values);
+  PNB_VALUES(f, paths);
+  PNB_VALUES(f, locals);
+  PNB_VALUES(f, upvals);
+  if ((ptr = pnb_take(in, 1)) == NULL) return PN_NIL;
+  count = *ptr;
+  tup = potion_tuple_with_size(P, count);
+  for (i = 0; i < count; i++) PN_TUPLE_AT(tup, i) = PN_NIL;
+  PN_PROTO_SET(f, protos, tup);
+  for (i = 0; i < count; i++) {
+    val = potion_proto_load(P, (PN)f, in);
+    if (val == PN_NIL) return PN_NIL;
+    PN_TUPLE_AT(tup, i) = val;
+    PN_TOUCH(tup);
+  }
+  PN_PROTO_SET(f, debugs, PN_TUP0());
+
+  if (!pnb_pn(in, &len) || (ptr = pnb_take(in, len)) == NULL) return PN_NIL;
   PN_FLEX_NEW(asmb, PN_TBYTES, PNAsm, len);
-  PN_MEMCPY_N(asmb->ptr, *ptr, u8, len);
+  PN_MEMCPY_N(asmb->ptr, ptr, u8, len);
   asmb->len = len;
 
-  f->asmb = (PN)asmb;
+  PN_PROTO_SET(f, asmb, (PN)asmb);
   f->localsize = PN_TUPLE_LEN(f->locals);
   f->upvalsize = PN_TUPLE_LEN(f->upvals);
   f->pathsize  = PN_TUPLE_LEN(f->paths);
-  *ptr += len;
   return (PN)f;
 }
 
 ///\memberof PNSource
 // TODO: "load" from a stream
+/// \return PNProto, PN_NIL if it is no bytecode, or PNError if it is damaged
 PN potion_source_load(Potion *P, PN cl, PN buf) {
-  u8 *ptr;
   vPN(BHeader) h = (struct PNBHeader *)PN_STR_PTR(buf);
+  size_t len = PN_STR_LEN(buf);
+  PNReader in;
+  PN f = PN_NIL;
+  u8 *copy;
   // check for compiled binary first
-  if ((size_t)PN_STR_LEN(buf) <= sizeof(struct PNBHeader) ||
+  if (len <= sizeof(struct PNBHeader) ||
       strncmp((char *)h->sig, POTION_SIG, 4) != 0)
     return PN_NIL;
 
-  ptr = h->proto;
-  return potion_proto_load(P, PN_NIL, h->pn, &ptr);
+  if ((copy = malloc(len)) == NULL) potion_allocation_error();
+  memcpy(copy, (void *)h, len);
+  in.ptr = ((struct PNBHeader *)copy)->proto;
+  in.end = copy + len;
+  in.pn = ((struct PNBHeader *)copy)->pn;
+  if (in.pn == sizeof(PN))
+    f = potion_proto_load(P, PN_NIL, &in);
+  free(copy);
+  if (f == PN_NIL)
+    return potion_error(P, potion_str(P, "damaged bytecode"), 0, 0, 0);
+  return f;
 }
 
-// TODO: switch to dump methods
-#define WRITE_U8(un, ptr) ({*ptr = (u8)un; ptr += sizeof(u8);})
-#define WRITE_PN(pn, ptr) ({*(PN *)ptr = pn; ptr += sizeof(PN);})
-#define WRITE_CONST(val, ptr) ({ \
-    if (PN_IS_STR(val)) { \
-      PN count = (PN_STR_LEN(val)+1) << 4; \
-      WRITE_PN(count, ptr); \
-      PN_MEMCPY_N(ptr, PN_STR_PTR(val), char, PN_STR_LEN(val)); \
-      ptr += PN_STR_LEN(val); \
-    } else if (PN_IS_DBL(val)) { \
-      PN str = potion_num_string(P, PN_NIL, val); \
-      PN count = ((PN_STR_LEN(str)+1) << 4) | 2; \
-      WRITE_PN(count, ptr); \
-      PN_MEMCPY_N(ptr, PN_STR_PTR(str), char, PN_STR_LEN(str)); \
-      ptr += PN_STR_LEN(str); \
-    } else { \
-      PN cval = (PN_IS_PTR(val) ? PN_NIL : val); \
-      WRITE_PN(cval, ptr); \
-    } \
-  })
-#define WRITE_TUPLE(tup, ptr) \
-  long i = 0, count = PN_TUPLE_LEN(tup); \
-  WRITE_U8(count, ptr); \
-  for (; i < count; i++)
-#define WRITE_VALUES(tup, ptr) ({ \
-    WRITE_TUPLE(tup, ptr) WRITE_CONST(PN_TUPLE_AT(tup, i), ptr); \
-  })
-#define WRITE_PROTOS(tup, ptr) ({ \
-    WRITE_TUPLE(tup, ptr) ptr += potion_proto_dumpbc(P, PN_TUPLE_AT(tup, i), \
-        out, (char *)ptr - PN_STR_PTR(out)); \
-  })
+/// bytecode being written
+typedef struct { u8 *ptr; size_t len, siz; } PNWriter;
+
+static void pnb_put(PNWriter *out, const void *ptr, size_t len) {
+  if (out->len + len > out->siz) {
+    out->siz = (out->len + len) * 2 + 1024;
+    out->ptr = realloc(out->ptr, out->siz);
+    if (out->ptr == NULL) potion_allocation_error();
+  }
+  memcpy(out->ptr + out->len, ptr, len);
+  out->len += len;
+}
+
+static void pnb_put_pn(PNWriter *out, PN val) {
+  pnb_put(out, (const void *)&val, sizeof(PN));
+}
+
+static int pnb_put_count(PNWriter *out, size_t len) {
+  u8 count = (u8)len;
+  if (len > 255) return 0;
+  pnb_put(out, &count, 1);
+  return 1;
+}
+
+static void pnb_put_const(PNWriter *out, PN val) {
+  if (PN_IS_STR(val)) {
+    pnb_put_pn(out, ((PN)PN_STR_LEN(val) + 1) << 4);
+    pnb_put(out, PN_STR_PTR(val), PN_STR_LEN(val));
+  } else if (PN_IS_DBL(val)) {
+    char num[40];
+    size_t len = snprintf(num, sizeof(num), "%.17g", ((struct PNDouble *)val)->value);
+    pnb_put_pn(out, ((len + 1) << 4) | 2);
+    pnb_put(out, num, len);
+  } else
+    pnb_put_pn(out, PN_IS_PTR(val) ? PN_NIL : val);
+}
+
+static int pnb_put_values(PNWriter *out, PN tup) {
+  PN_SIZE i, count = PN_TUPLE_LEN(tup);
+  if (!pnb_put_count(out, count)) return 0;
+  for (i = 0; i < count; i++)
+    pnb_put_const(out, PN_TUPLE_AT(tup, i));
+  return 1;
+}
 
 ///\memberof PNProto
-/// compile to bytecode
-///\param proto  PNProto
-///\param out    PNBytes output buffer
-///\param pos    long where to add at out
-///\return char* ptr - start
-long potion_proto_dumpbc(Potion *P, PN proto, PN out, long pos) {
+/// compile to bytecode. allocates no objects
+/// \return 0 if it has more constants or functions than the format can hold
+static int potion_proto_dumpbc(Potion *P, PN proto, PNWriter *out) {
   vPN(Proto) f = (struct PNProto *)proto;
-  char *start = PN_STR_PTR(out) + pos;
-  u8 *ptr = (u8 *)start;
+  PN_SIZE i, count;
   //TODO extern (by name)
-  WRITE_CONST(f->name, ptr);
-  WRITE_CONST(f->source, ptr);
-  WRITE_VALUES(f->sig, ptr);
-  WRITE_CONST(f->stack, ptr);
-  WRITE_VALUES(f->values, ptr);
-  WRITE_VALUES(f->paths, ptr);
-  WRITE_VALUES(f->locals, ptr);
-  WRITE_VALUES(f->upvals, ptr);
-  WRITE_PROTOS(f->protos, ptr);
-  WRITE_PN(PN_FLEX_SIZE(f->asmb), ptr);
-  PN_MEMCPY_N(ptr, ((PNFlex *)f->asmb)->ptr, u8, PN_FLEX_SIZE(f->asmb));
-  ptr += PN_FLEX_SIZE(f->asmb);
-  return (char *)ptr - start;
+  pnb_put_const(out, f->name);
+  pnb_put_const(out, f->source);
+  if (!pnb_put_values(out, f->sig)) return 0;
+  pnb_put_const(out, f->stack);
+  if (!pnb_put_values(out, f->values) ||
+      !pnb_put_values(out, f->paths) ||
+      !pnb_put_values(out, f->locals) ||
+      !pnb_put_values(out, f->upvals)) return 0;
+  count = PN_TUPLE_LEN(f->protos);
+  if (!pnb_put_count(out, count)) return 0;
+  for (i = 0; i < count; i++)
+    if (!potion_proto_dumpbc(P, PN_TUPLE_AT(f->protos, i), out)) return 0;
+  pnb_put_pn(out, PN_FLEX_SIZE(f->asmb));
+  pnb_put(out, (void *)((PNFlex *)f->asmb)->ptr, PN_FLEX_SIZE(f->asmb));
+  return 1;
 }
 
 ///\memberof PNSource
 /// dump to bytecode
 // Low TODO: dump to a stream (if we have not enough memory)
 PN potion_source_dumpbc(Potion *P, PN cl, PN proto, PN options) {
-  PN pnb = potion_bytes(P, 8192);
+  PN pnb = PN_NIL;
+  PNWriter out = { NULL, 0, 0 };
   struct PNBHeader h;
   DBG_c("compile bc\n");
   PN_MEMCPY_N(h.sig, POTION_SIG, u8, 4);
@@ -1265,9 +1334,12 @@ PN potion_source_dumpbc(Potion *P, PN cl, PN proto, PN options) {
   h.minor = POTION_MINOR;
   h.vmid = POTION_VMID;
   h.pn = (u8)sizeof(PN);
-  PN_MEMCPY(PN_STR_PTR(pnb), &h, struct PNBHeader); // coverity[uninit_use_in_call:FALSE]
-  PN_STR_LEN(pnb) = (long)sizeof(struct PNBHeader) +
-    potion_proto_dumpbc(P, proto, pnb, sizeof(struct PNBHeader));
+  pnb_put(&out, &h, sizeof(struct PNBHeader));
+  if (potion_proto_dumpbc(P, proto, &out))
+    pnb = potion_byte_str2(P, (char *)out.ptr, out.len);
+  else
+    fprintf(stderr, "** too many constants or functions for the bytecode format\n");
+  free(out.ptr);
   return pnb;
 }
 
-- 
2.43.0


From d6435e03f6d18483f4817495d8a2c5073d102fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 30/90] fix: load did not run a bytecode file

It returned nil without a word; a damaged one is now refused.
---
 core/load.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/load.c b/core/load.c
index 6736585..4af96ac 100644
--- a/core/load.c
+++ b/core/load.c
@@ -13,6 +13,12 @@
 #include "internal.h"
 #include "table.h"
 
+/// a .pnb file never holds source, not even when only its begin is left
+static int is_pnb(const char *filename) {
+  size_t len = strlen(filename);
+  return len > 4 && strcmp(filename + len - 4, ".pnb") == 0;
+}
+
 static PN potion_load_code(Potion *P, const char *filename) {
   PN buf, code;
   struct stat stats;
@@ -37,7 +43,11 @@ static PN potion_load_code(Potion *P, const char *filename) {
   if (read(fd, PN_STR_PTR(buf), stats.st_size) == stats.st_size) {
     PN_STR_PTR(buf)[stats.st_size] = '\0';
     code = potion_source_load(P, PN_NIL, buf);
-    if (!PN_IS_PROTO(code)) {
+    if (PN_IS_PROTO(code)) {
+      result = potion_run(P, code, POTION_JIT);
+    } else if (code != PN_NIL || is_pnb(filename)) {
+      fprintf(stderr, "** %s is damaged, or no bytecode.\n", filename);
+    } else {
       result = potion_run(P, potion_send(
 	  potion_parse(P, buf, (char *)filename),
           PN_compile, potion_str(P, filename), PN_NIL),
-- 
2.43.0


From ac4b7dc5e8c3cf35ac14490ccb2d0239dea0649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 31/90] fix: bytecode was reported saved before it was written,
 a damaged file ran as source

The message came before the file was closed, so a failed last write went
unnoticed.
---
 core/potion.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/core/potion.c b/core/potion.c
index 61b847b..c90e524 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -71,6 +71,12 @@ static void potion_cmd_version(Potion *P) {
     if (P->flags & (DEBUG_INSPECT|DEBUG_VERBOSE)) \
       potion_p(P, c)
 
+/// a .pnb file never holds source, not even when only its begin is left
+static int is_pnb(const char *filename) {
+  size_t len = strlen(filename);
+  return len > 4 && strcmp(filename + len - 4, ".pnb") == 0;
+}
+
 static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char *addcode) {
   exec_mode_t exec = (exec_mode_t)(P->flags & ((1<<EXEC_BITS)-1));
   int fd = -1;
@@ -119,6 +125,10 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
   code = potion_source_load(P, PN_NIL, buf);
   if (PN_IS_PROTO(code)) {
     DBG_v("\n-- loaded --\n");
+  } else if (code != PN_NIL || is_pnb(filename)) {
+    fprintf(stderr, "** %s is damaged, or no bytecode.\n", filename);
+    code = PN_NIL;
+    goto done;
   } else {
     code = potion_parse(P, buf, filename);
     if (!code || PN_TYPE(code) == PN_TERROR) {
@@ -170,7 +180,8 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
     FILE *pnb;
     PN opts;
     char *c_opts = NULL;
-    PN_SIZE written = 0;
+    size_t written = 0;
+    int saved;
     if (compile) { // --compile=c[,OPTS]
       if ((c_opts = strchr(compile,','))) {
 	c_opts[0] = '\0';
@@ -199,8 +210,12 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
       code = potion_source_dump(P, 0, code,
 				potion_str(P, compile),
 				opts ? opts : PN_NIL);
-    if (code &&
-	(written = fwrite(PN_STR_PTR(code), 1, PN_STR_LEN(code), pnb) == PN_STR_LEN(code))) {
+    if (code)
+      written = fwrite(PN_STR_PTR(code), 1, PN_STR_LEN(code), pnb);
+    saved = code && written == PN_STR_LEN(code);
+    // what is buffered still may fail
+    if (fclose(pnb) != 0) saved = 0;
+    if (saved) {
       printf("** compiled code saved to %s\n", outpath);
 
       if (!compile || !strcmp(compile, "bc"))
@@ -211,10 +226,10 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
       else if (!strcmp(compile, "exe"))
 	printf("** run it with: ./%s\n", outpath);
     } else {
-      fprintf(stderr, "** could not write all %s compiled code (%u/%u) to %s\n",
-	      compile?compile:"bytecode", written, code?PN_STR_LEN(code):0, outpath);
+      fprintf(stderr, "** could not write all %s compiled code (%lu/%lu) to %s\n",
+	      compile?compile:"bytecode", (unsigned long)written,
+	      (unsigned long)(code?PN_STR_LEN(code):0), outpath);
     }
-    fclose(pnb);
   }
 
 #if defined(DEBUG)
-- 
2.43.0


From e4e99c79da3972e7317657cdfa4bc8bbb31547d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 32/90] fix: the JIT divided and shifted integers as 32 bits,
 negative results came out positive

---
 core/vm-x86.c | 50 ++++++++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 2e2fec2..892399f 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -708,26 +708,24 @@ void potion_x86_mult(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 void potion_x86_div(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_div, {
-    ASMS("\xD1\xF8" 		// sar %rax
-	 "\xD1\xFA" 		// sar %edx
-	 "\x89\xD1" 		// mov %edx %ecx
-	 "\x89\xC2" 		// mov %eax %edx
-	 "\xC1\xFA\x1F" 	// sar 0x1f %edx
-	 "\xF7\xF9" 		// idiv %ecx
-	 "\x8D\x44\x00\x01");	// lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASM(0x99); 		// cqo (sign of %rax into %rdx)
+    X86_PRE(); ASMS("\xF7\xF9"); 	// idiv %rcx
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
 void potion_x86_rem(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_rem, {
-    ASMS("\xD1\xF8"	  	// sar %rax
-	 "\xD1\xFA" 		// sar %edx
-	 "\x89\xD1" 		// mov %edx %ecx
-	 "\x89\xC2" 		// mov %eax %edx
-	 "\xC1\xFA\x1F" 	// sar 0x1f %edx
-	 "\xF7\xF9" 		// idiv %ecx
-	 "\x8D\x44\x12\x01");   // lea 0x1(%edx,%edx,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASM(0x99); 		// cqo (sign of %rax into %rdx)
+    X86_PRE(); ASMS("\xF7\xF9"); 	// idiv %rcx
+    X86_PRE(); ASMS("\x8D\x44\x12\x01"); // lea 0x1(%rdx,%rdx,1),%rax
   });
 }
 
@@ -804,26 +802,22 @@ void potion_x86_bitn(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 void potion_x86_bitl(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_bitl, {
-      ASMS("\xD1\xF8" 		// sar %eax
-	   "\xD1\xFA" 		// sar %edx
-	   "\x89\xD1" 		// mov %edx %ecx
-	   "\x89\xC2" 		// mov %eax %edx
-	   "\xD3\xE0"); 	// sal %cl %eax
-      ASM(0x70); ASM(6);        // jo +6
-      ASMS("\x8D\x44\x00\x01"); // lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASMS("\xD3\xE0"); 	// sal %cl %rax
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
 void potion_x86_bitr(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_bitr, {
-    ASMS("\xD1\xF8" 		// sar %rax
-	 "\xD1\xFA"		// sar %edx
-	 "\x89\xD1"		// mov %edx %ecx
-	 "\x89\xC2"		// mov %eax %edx
-	 "\xD3\xF8");		// sar %cl %eax
-    ASM(0x70); ASM(6);          // jo +6
-    ASMS("\x8D\x44\x00\x01");	// lea 0x1(%eax,%eax,1),%eax
+    X86_PRE(); ASMS("\xD1\xF8"); 	// sar %rax
+    X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
+    X86_PRE(); ASMS("\x89\xD1"); 	// mov %rdx %rcx
+    X86_PRE(); ASMS("\xD3\xF8"); 	// sar %cl %rax
+    X86_PRE(); ASMS("\x8D\x44\x00\x01"); // lea 0x1(%rax,%rax,1),%rax
   });
 }
 
-- 
2.43.0


From 163d03a431805344873581a64fd89b994306176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 33/90] fix: ** of doubles, or with a large result, gave
 garbage in the VM

---
 core/vm.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 8c004f8..70e016a 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -757,8 +757,7 @@ reentry:
       CASE(MULT,PN_VM_MATH3(mult, *, smull))
       CASE(DIV, PN_VM_MATH2(div, /))
       CASE(REM, PN_VM_MATH2(rem, %))
-      CASE(POW, reg[op.a] = PN_NUM((int)pow((double)PN_INT(reg[op.a]),
-					    (double)PN_INT(reg[op.b]))))
+      CASE(POW, reg[op.a] = potion_num_pow(P, PN_NIL, reg[op.a], reg[op.b]))
 #ifdef P2
       CASE(NOT, reg[op.a] = PN_ZERO == reg[op.a] ? PN_TRUE : PN_BOOL(!PN_TEST(reg[op.a])))
 #else
-- 
2.43.0


From 49b8b3d8a6d6de833acafd5be72201117b1b39bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 34/90] fix: integer overflow in the JIT gave untagged garbage
 instead of a double

---
 core/number.c | 21 ++++++++++++++++++---
 core/vm-x86.c | 12 +++++++-----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/core/number.c b/core/number.c
index 2d674f9..4adbef6 100644
--- a/core/number.c
+++ b/core/number.c
@@ -50,6 +50,21 @@ static PN potion_num_sqrt(Potion *P, PN cl, PN self) {
   if (PN_IS_INT(self) && PN_IS_INT(num)) \
     return PN_NUM(PN_INT(self) math_op PN_INT(num)); \
   return potion_double(P, PN_DBL(self) math_op PN_DBL(num));
+/* as the VM does it: an integer overflow promotes to double */
+#if defined(__clang__) || (defined(__GNUC__) && __GNUC__ >= 5)
+#define PN_NUM_MATHOV(math_op, ov) { \
+  long val; \
+  DBG_CHECK_NUM(self); \
+  DBG_CHECK_NUM(num); \
+  if (PN_IS_INT(self) && PN_IS_INT(num) \
+      && !__builtin_##ov##_overflow(PN_INT(self), PN_INT(num), &val) \
+      && val <= PN_INT(LONG_MAX) && val >= PN_INT(LONG_MIN)) \
+    return PN_NUM(val); \
+  return potion_double(P, PN_DBL(self) math_op PN_DBL(num)); \
+}
+#else
+#define PN_NUM_MATHOV(math_op, ov) PN_NUM_MATH(math_op)
+#endif
 #define PN_INT_MATH(math_op) \
   DBG_CHECK_INT(self); \
   DBG_CHECK_INT(num); \
@@ -64,7 +79,7 @@ static PN potion_num_sqrt(Potion *P, PN cl, PN self) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_add(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(+)
+  PN_NUM_MATHOV(+, saddl)
 }
 
 /**\memberof PNNumber
@@ -72,7 +87,7 @@ static PN potion_num_add(Potion *P, PN cl, PN self, PN num) {
  \param num PNNumber
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_sub(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(-)
+  PN_NUM_MATHOV(-, ssubl)
 }
 
 /**\memberof PNNumber
@@ -80,7 +95,7 @@ static PN potion_num_sub(Potion *P, PN cl, PN self, PN num) {
  \param num PN_INT or PNDouble
  \return PNInteger (if both are INT) or PNDouble */
 static PN potion_num_mult(Potion *P, PN cl, PN self, PN num) {
-  PN_NUM_MATH(*)
+  PN_NUM_MATHOV(*, smull)
 }
 
 /**\memberof PNNumber
diff --git a/core/vm-x86.c b/core/vm-x86.c
index 892399f..9f58a05 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -102,7 +102,7 @@ the x86 and x86_64 jit.
 // TODO check num type for the dbl case
 // math binop for 2 numbers, int (inlined) or double (via call)
 #define X86_MATH(two, dbl_func, ops) ({ \
-        int dbl_a, dbl_a1, end_b;			\
+        int dbl_a, dbl_a1, end_b, ovf = 0;		\
         X86_MOV_RBP(0x8B, op.a); 					/* mov -A(%rbp) %eax */ \
         if (two) { X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55,op.b) }	/* mov -B(%rbp) %edx */	\
         ASM(0xF6); ASM(0xC0); ASM(0x01); 				/* test 0x1 %al */ \
@@ -112,6 +112,7 @@ the x86 and x86_64 jit.
         ops; /* add, sub, ... */ \
         TAG_PREP(end_b); ASM(0xEB); ASM(0); 				/* jmp [b] */ \
         TAG_LABEL(dbl_a); if (two) { TAG_LABEL(dbl_a1); }               \
+        if (ovf) { TAG_LABEL(ovf); }                                    \
         X86_ARGO(start - 3, 0); 				   /* [a]: mov &P  0(%esp) */ \
         X86_ARGO(op.a, 1);  					        /* mov &CL 1(%esp) */ \
         X86_ARGO(op.b, 2);  					        /* mov B   2(%esp) */ \
@@ -680,8 +681,9 @@ void potion_x86_setpath(Potion *P, struct PNProto * volatile f, PNAsm * volatile
 void potion_x86_add(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_add, {
-    X86_PRE(); ASMS("\x8D\x44\x10\xFF"); // lea -1(%eax,%edx,1),%eax
-    ASM(0x70); ASM(2);                   // jo +2
+    X86_PRE(); ASMS("\xFF\xC8");         // dec %eax
+    X86_PRE(); ASM(0x01); ASM(0xD0);     // add %edx %eax
+    TAG_PREP(ovf); ASM(0x70); ASM(0);    // jo [a]
   });
 }
 
@@ -689,7 +691,7 @@ void potion_x86_sub(Potion *P, struct PNProto * volatile f, PNAsm * volatile *as
   PN_OP op = PN_OP_AT(f->asmb, pos);
   X86_MATH(1, potion_obj_sub, {
     X86_PRE(); ASM(0x29); ASM(0xD0); // sub %edx %eax
-    ASM(0x70); ASM(X86_PRE_T + 4);   // jo +4
+    TAG_PREP(ovf); ASM(0x70); ASM(0); // jo [a]
     X86_PRE(); ASM(0xFF); ASM(0xC0); // inc %eax
   });
 }
@@ -700,7 +702,7 @@ void potion_x86_mult(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
     X86_PRE(); ASMS("\xD1\xFA"); 	// sar %rdx
     X86_PRE(); ASMS("\xFF\xC8"); 	// dec %rax
     X86_PRE(); ASMS("\x0F\xAF\xC2"); 	// imul %rdx %rax
-    ASM(0x70); ASM(X86_PRE_T + 4);      // jo +4
+    TAG_PREP(ovf); ASM(0x70); ASM(0);   // jo [a]
     X86_PRE(); ASMS("\xFF\xC0"); 	// inc %rax
   });
 }
-- 
2.43.0


From 466079c92176176ea5aabdbe983bfde84d168420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 35/90] fix: the VM compared negative integers as unsigned

---
 core/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/vm.c b/core/vm.c
index 70e016a..8faa424 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -410,7 +410,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
 // TODO: support str1 < str2, or list1 < list2? (i.e. call the cmp method)
 #define PN_VM_NUMCMP(cmp)					  \
   if (PN_IS_INT(reg[op.a]) && PN_IS_INT(reg[op.b]))		  \
-    reg[op.a] = PN_BOOL(reg[op.a] cmp reg[op.b]);		  \
+    reg[op.a] = PN_BOOL((long)reg[op.a] cmp (long)reg[op.b]);	  \
   else {                                                          \
     PN_CHECK_NUM(reg[op.a]);                                      \
     PN_CHECK_NUM(reg[op.b]);                                      \
-- 
2.43.0


From 34403a7fd1c3ad8bedabf2d0af0c7724c977858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 36/90] fix: printing a double with more than 22 digits before
 the point overran the stack

---
 core/number.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/number.c b/core/number.c
index 4adbef6..5f57b2d 100644
--- a/core/number.c
+++ b/core/number.c
@@ -254,7 +254,7 @@ static PN potion_dbl_div(Potion *P, PN cl, PN self, PN num) { PN_DBL_MATH(/) }
   "string" method, stringify
  \return PNString */
 PN potion_dbl_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[352]; // DBL_MAX has 309 digits
   int len = sprintf(ints, "%.16f", ((struct PNDouble *)self)->value);
   while (len > 0 && ints[len - 1] == '0') len--;
   if (ints[len - 1] == '.') len++;
@@ -265,7 +265,7 @@ PN potion_dbl_string(Potion *P, PN cl, PN self) {
   "string" method, stringify
  \return PNString */
 PN potion_num_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[352]; // DBL_MAX has 309 digits
   if (PN_IS_INT(self)) {
     sprintf(ints, "%ld", PN_INT(self));
   } else {
-- 
2.43.0


From c1419c56d9cf39f3cc9781378485dbc63c2b6a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 37/90] fix: in the JIT a nan was less than anything

---
 core/vm-x86.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 9f58a05..5d28d0d 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -123,8 +123,7 @@ the x86 and x86_64 jit.
 	  })
 // cmp 2 numbers, int or double. eq/neq/gt/ge/lt/le, both inlined (requires SSE)
 // iop: jl, jg, jle, jge, je, jne for normal cmp comparisons
-// xop: jb, jbe", jae, ja, ... for SSE ucomisd comparisons.
-// TODO we also need to check jp for PF (parity) if one number is nan, to force false.
+// xop: jae, ja for SSE ucomisd comparisons, false if one number is nan.
 // TODO optimize into seperate int and dbl variants
 // TODO probe cpu for sse2 at init, and fallback to math calls if not.
 //      maybe create seperate so's with and without sse. and load the best at init
@@ -767,15 +766,15 @@ void potion_x86_eq(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asm
 
 void potion_x86_lt(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_NUMCMP(0x7C, 0x72,  		// jl, jb
-             "\x66\x0F\x2e\xc1" 	// ucomisd %xmm1, %xmm0
+  X86_NUMCMP(0x7C, 0x77,  		// jl, ja. b > a, false with a nan
+             "\x66\x0F\x2e\xc8" 	// ucomisd %xmm0, %xmm1
              );
 }
 
 void potion_x86_lte(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
-  X86_NUMCMP(0x7E, 0x76,		// jle, jbe
-             "\x66\x0F\x2e\xc1" 	// ucomisd %xmm1, %xmm0
+  X86_NUMCMP(0x7E, 0x73,		// jle, jae. b >= a, false with a nan
+             "\x66\x0F\x2e\xc8" 	// ucomisd %xmm0, %xmm1
              );
 }
 
-- 
2.43.0


From 30d68f6553a6c3e12144a616c552f903966c71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 38/90] fix: a call with more than 3 arguments in the JIT
 clobbered the C caller's rbx

---
 core/vm-x86.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 5d28d0d..ed75fbe 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -397,15 +397,15 @@ static void potion_x86_c_arg(Potion *P, PNAsm * volatile *asmp, int out, int reg
     break;
     default: // can only pass max 6 arg via regs, rest on stack
       if (out) {
-	X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %rbx
+	ASM(0x4c); ASM(0x8B); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %r11
 	if (argn == 6) {
-	  X86_PRE(); ASMS("\x89\x1c\x24");    // mov %rbx (%rsp)
+	  ASMS("\x4c\x89\x1c\x24");           // mov %r11 (%rsp)
 	} else {
-	  X86_PRE(); ASMS("\x89\x5c\x24"); ASM((argn - 6) * sizeof(PN)); // mov %rbx N(%rsp)
+	  ASMS("\x4c\x89\x5c\x24"); ASM((argn - 6) * sizeof(PN)); // mov %r11 N(%rsp)
 	}
       } else {
-	X86_PRE(); ASM(0x8b); ASM(0x5d); ASM((argn - 4) * sizeof(PN));
-	X86_PRE(); ASM(0x89); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %rbx
+	ASM(0x4c); ASM(0x8b); ASM(0x5d); ASM((argn - 4) * sizeof(PN)); // rbx is the caller's
+	ASM(0x4c); ASM(0x89); ASM_MOV_EBP(0x5d,regn) // mov %r11 %rbp(A)
       }
     break;
   }
-- 
2.43.0


From 609276a97136141e191edcdae9283d8c71e80ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:33 +0000
Subject: [PATCH 39/90] fix: the JIT stored the results of calls and
 comparisons wrong from the 17th register on

---
 core/vm-x86.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index ed75fbe..efb3f18 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -131,7 +131,7 @@ the x86 and x86_64 jit.
 // TODO optimize j? true, set false, jmp true, set true
 //   => movzbl %al,edx;lea 0x2(,%rdx,4),%rdx;mov %rdx,-A(%rbp)
 #define X86_NUMCMP(iop, xop, xmms)                                         \
-        int dbl_a, dbl_b, cmp_dbl, true_1, true_2, false_;			\
+        int dbl_a, dbl_b, cmp_dbl, true_1, true_2, false_, end_;			\
         X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x55,op.a)	/* mov -A(%rbp) %rdx */ \
         X86_MOV_RBP(0x8B, op.b); 			/* mov -B(%rbp) %rax */ \
         ASMS("\xA8\x01");		 		/* test $1, %al */ \
@@ -165,9 +165,10 @@ the x86 and x86_64 jit.
 	TAG_LABEL(cmp_dbl); ASMS(xmms);			/* ucomisd xmm0<=>xmm1; */ \
         TAG_PREP(true_2); ASM(xop); ASM(0);        	/* j? [true] */   \
         TAG_LABEL(false_); X86_MOVQ(op.a, PN_FALSE); 	/* false: -A(%rbp) = FALSE */ \
-        ASM(0xEB); ASM(X86C(7,14, 1,op.a));		/* jmp [+true] */ \
+        TAG_PREP(end_); ASM(0xEB); ASM(0);		/* jmp [end] */ \
         TAG_LABEL(true_1); TAG_LABEL(true_2); \
-        X86_MOVQ(op.a, PN_TRUE);      			/* true: -A(%rbp) = TRUE */
+        X86_MOVQ(op.a, PN_TRUE);      			/* true: -A(%rbp) = TRUE */ \
+        TAG_LABEL(end_);
 
 #if 0
 // eq/neq: cmp 2 atoms. cmp the dbl value if both are double or the immediate words.
@@ -925,7 +926,7 @@ void potion_x86_named(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
 #else
   if (op.a + 2 > 15) {
     DBG_v("named: mov %%rdx -A=%d(%%rbp,%%rax,8)\n", op.a + 2); //!! +2 only XXX
-    X86_PRE(); ASM(0x89); ASM(0x94); ASM(0xC5); ASM(RBP(op.a + 2)); ASM(0xff); ASM(0xff);
+    X86_PRE(); ASM(0x89); ASM(0x94); ASM(0xC5); ASMI(RBPN(op.a + 2));
   } else {
     X86_PRE(); ASM(0x89); ASM(0x54); ASM(0xC5); ASM(RBP(op.a + 2)); // mov %rdx -A(%rbp,%rax,8)
   }
@@ -1015,7 +1016,7 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
 	}}}}
   DBG_t("\n");
   ASM(0xFF); ASM(0xD0); 				// callq *%rax
-  X86_PRE(); ASM(0x89); ASM(0x45); ASM(RBP(op.a)); 	// mov %rbp(A) %rax
+  X86_MOV_RBP(0x89, op.a); 				// mov %rax %rbp(A)
 }
 
 void potion_x86_callset(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
-- 
2.43.0


From 100638feb43a7570d01390bdd49082f1f4d610dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 40/90] fix: the JIT filled default arguments from whichever
 function came first, as 32 bits

---
 core/vm-x86.c | 60 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 18 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index efb3f18..0438a0d 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -5,6 +5,7 @@ the x86 and x86_64 jit.
 (c) 2008 why the lucky stiff, the freelance professor
 (c) 2013-2015 perl11 org */
 #include <stdio.h>
+#include <stddef.h>
 #include <stdlib.h>
 #include <math.h>
 #include "potion.h"
@@ -935,10 +936,28 @@ void potion_x86_named(Potion *P, struct PNProto * volatile f, PNAsm * volatile *
 }
 
 // TODO: check for bytecode nodes and jit them as well?
+// call a closure which takes more arguments than given.
+// regs are self and the arguments, downwards as in the frame
+PN potion_f_defaults(Potion *P, PN cl, long argc, PN *regs) {
+  PN argv[15]; // as potion_call
+  PN sig = PN_CLOSURE(cl)->sig;
+  long i, arity = PN_CLOSURE(cl)->arity;
+  if (arity > 14) arity = 14;
+  for (i = 0; i < argc && i <= arity; i++)
+    argv[i] = *(regs - i);
+  for (; i <= arity; i++) {
+    PN s = potion_sig_at(P, sig, i - 1);
+    argv[i] = !s ? PN_NIL : PN_TUPLE_LEN(s) == 3
+      ? PN_TUPLE_AT(s, 2)
+      : potion_type_default(PN_INT(PN_TUPLE_AT(s, 1)));
+  }
+  return potion_call(P, cl, arity + 1, argv);
+}
+
 void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
   PN_OP op = PN_OP_AT(f->asmb, pos);
   int argc = op.b - op.a; // including self
-  int i, tag_a1, tag_a2, tag_b, tag_c, tag_d;
+  int i, tag_a1, tag_a2, tag_b, tag_c, tag_d, tag_e, tag_f;
 
   // check type of the closure
   X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x45, op.a)		// mov %rbp(A) %rax
@@ -985,6 +1004,26 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
   // get the closure's function
   TAG_LABEL(tag_d);
   X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x45, op.a)      // d: mov %rbp(A) %rax
+
+  // takes more arguments than given: fill in the defaults
+  ASM(0x83); ASM(0x78); ASM((char)offsetof(struct PNClosure, arity));
+    ASM(argc - 1);					// cmp argc-1 N(%rax)
+  TAG_PREP(tag_f);
+  ASM(0x7E); ASM(0);					// jle [f]
+  X86_ARGO(start - 3, 0);
+  X86_ARGO(op.a, 1);
+  X86_ARGO_IMM(argc, 2);
+#if PN_SIZE_T != 8
+  ASM(0x8D); ASM_MOV_EBP(0x55, op.a + 1)		// lea -A(%ebp) %edx
+  ASMS("\x89\x54\x24"); ASM(3 * sizeof(PN));		// mov %edx 3(%esp)
+#else
+  X86_PRE(); ASM(0x8D); ASM_MOV_EBP(0x4D, op.a + 1)	// lea -A(%rbp) %rcx
+#endif
+  X86_PRE(); ASM(0xB8); ASMN(potion_f_defaults);	// mov &potion_f_defaults %rax
+  ASM(0xFF); ASM(0xD0); 				// callq *%rax
+  ASM(0xE9); TAG_PREP4(tag_e); ASMI(0);			// jmp [e]
+  TAG_LABEL(tag_f);				     // f:
+
   //[b]: got the method, call it (first special slot from PNClosure)
   TAG_LABEL(tag_b);
   X86_PRE(); ASM(0x8B); ASM(0x40);
@@ -998,25 +1037,10 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
     DBG_t("%d[%d] ", op.a + i - 1, i);
     X86_ARGO(op.a + i - 1, i);				// mov regn, i(%esp)
   }
-  // fill in defaults, arity from protos[0], not f
-  if (!PN_IS_EMPTY(f->protos)) {
-    vPN(Proto) c = (vPN(Proto)) PN_TUPLE_AT(f->protos, 0);
-    int arity = c->arity;
-    if (arity && (argc-1 < arity)) {
-      for (i = argc+1; i <= arity+1; i++) { //2: [0,1],2,3
-	PN sig = potion_sig_at(P, c->sig, i-2);
-	if (sig && PN_TUPLE_LEN(sig) == 3) {
-	  DBG_t(":=*%s[%d] ", AS_STR(PN_TUPLE_AT(sig, 2)), i+1);
-	  X86_ARGO_IMM(PN_TUPLE_AT(sig, 2), i+1); 	// mov $value, i(%esp) - default
-	} else if (sig) {
-	  DBG_t("|0 ");                                 // mov 0, i(%esp) - optional
-	  char type = (char)(PN_TUPLE_LEN(sig) > 1
-			     ? PN_INT(PN_TUPLE_AT(sig,1)) : 0);
-	  X86_ARGO_IMM(type ? potion_type_default(type) : 0, i+1);
-	}}}}
   DBG_t("\n");
   ASM(0xFF); ASM(0xD0); 				// callq *%rax
-  X86_MOV_RBP(0x89, op.a); 				// mov %rax %rbp(A)
+  TAG_LABEL4(tag_e);
+  X86_MOV_RBP(0x89, op.a); 			     // e: mov %rax %rbp(A)
 }
 
 void potion_x86_callset(Potion *P, struct PNProto * volatile f, PNAsm * volatile *asmp, PN_SIZE pos, long start) {
-- 
2.43.0


From 803c39a057df890e40e28cb35c83582d17a74d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 41/90] fix: each call with default arguments widened the VM
 frame, a large callee overran the VM's stack

---
 core/vm.c | 51 +++++++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/core/vm.c b/core/vm.c
index 8faa424..12b7017 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -214,6 +214,7 @@ PN potion_vm_class(Potion *P, PN cl, PN self) {
 }
 
 #define STACK_MAX 4096
+#define STACK_SPARE 264 // for default arguments
 
 #define CASE_OP(name, args) case OP_##name: target->op[OP_##name]args; break;
 
@@ -834,17 +835,9 @@ reentry:
                 }
               }
               reg[op.a] = potion_call(P, reg[op.a], op.b - op.a, reg + op.a + 1);
-            } else if (((reg - stack) + PN_INT(f->stack) + f->upvalsize + f->localsize + 8) >= STACK_MAX) {
-	      DBG_vt(" >stack");
-              PN argt = potion_tuple_with_size(P, (op.b - op.a) - 1);
-              for (i = 2; i <= op.b - op.a; i++)
-                PN_TUPLE_AT(argt, i - 2) = reg[op.a + i];
-              reg[op.a] = potion_vm(P, cl->data[0], reg[op.a + 1], argt,
-                cl->extra - 1, &cl->data[1]);
             } else {
-	      DBG_vt(" stack");
-              self = reg[op.a + 1];
-              args = &reg[op.a + 2];
+	      vPN(Proto) c = PN_PROTO(cl->data[0]);
+	      long top = PN_INT(f->stack);
               if (PN_IS_TUPLE(sig)) {
 		int arity = cl->arity;
 		PN err = potion_sig_check(P, cl, arity, numargs);
@@ -855,20 +848,34 @@ reentry:
                     reg[op.a + i + 2] = PN_TUPLE_LEN(s) == 3
 		      ? PN_TUPLE_AT(s, 2)
 		      : potion_type_default(PN_INT(PN_TUPLE_AT(s,1)));
-                  f->stack = PN_NUM(PN_INT(f->stack)+1);
                   op.b++;
                 }
+		if (op.b + 1 > top) top = op.b + 1; // keep them below the callee's frame
+              }
+              if (((reg - stack) + top + 3 + c->upvalsize + c->localsize + 1
+		   + PN_INT(c->stack) + STACK_SPARE) >= STACK_MAX) {
+	        DBG_vt(" >stack");
+                PN argt = potion_tuple_with_size(P, (op.b - op.a) - 1);
+                for (i = 2; i <= op.b - op.a; i++)
+                  PN_TUPLE_AT(argt, i - 2) = reg[op.a + i];
+                reg[op.a] = potion_vm(P, cl->data[0], reg[op.a + 1], argt,
+                  cl->extra - 1, &cl->data[1]);
+              } else {
+	        DBG_vt(" stack");
+                self = reg[op.a + 1];
+                args = &reg[op.a + 2];
+                upc = cl->extra - 1;
+                upargs = &cl->data[1];
+                current = reg + top + 3;
+                current[-3] = (PN)top;
+                current[-2] = (PN)f;
+                current[-1] = (PN)pos;
+
+                f = PN_PROTO(cl->data[0]);
+                pos = 0;
+	        DBG_t("\t; %s\n", STRINGIFY(reg[op.a]));
+                goto reentry;
               }
-              upc = cl->extra - 1;
-              upargs = &cl->data[1];
-              current = reg + PN_INT(f->stack) + 2;
-              current[-2] = (PN)f;
-              current[-1] = (PN)pos;
-
-              f = PN_PROTO(cl->data[0]);
-              pos = 0;
-	      DBG_t("\t; %s\n", STRINGIFY(reg[op.a]));
-              goto reentry;
             }
 	  }
           break;
@@ -897,7 +904,7 @@ reentry:
           pos = (PN_SIZE)current[-1];
           op = PN_OP_AT(f->asmb, pos);
 
-          reg = current - (PN_INT(f->stack) + 2);
+          reg = current - ((long)current[-3] + 3);
           current = reg - (f->localsize + f->upvalsize + 1);
           reg[op.a] = val;
           pos++;
-- 
2.43.0


From 0b558f349f7b6efabef9e42fcc3959e61a742f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 42/90] fix: load cut the name it was given at a dot, and built
 garbage paths for modules in directories

---
 core/load.c | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/core/load.c b/core/load.c
index 4af96ac..04e9fa9 100644
--- a/core/load.c
+++ b/core/load.c
@@ -133,17 +133,13 @@ char *potion_find_file(Potion *P, char *str, PN_SIZE str_len) {
   PN_TUPLE_EACH(pn_loader_path, i, prefix, {
     PN_SIZE prefix_len = PN_STR_LEN(prefix);
     char dirname[prefix_len + 1 + str_len + 1];
-    char *str_pos = dirname + prefix_len + 1;
     char *dot;
     const char *ext;
-    memcpy(str_pos, str, str_len);
-    dot = memchr(str, '.', str_len);
-    if (dot == NULL)
-      dirname[sizeof(dirname) - 1] = '\0';
-    else
-      *dot = '\0';
     memcpy(dirname, PN_STR_PTR(prefix), prefix_len);
     dirname[prefix_len] = '/';
+    memcpy(dirname + prefix_len + 1, str, str_len);
+    dirname[sizeof(dirname) - 1] = '\0';
+    dot = memchr(str, '.', str_len);
     if (stat(dirname, &st) == 0 && S_ISREG(st.st_mode)) {
       if (asprintf(&r, "%s", dirname) == -1) potion_allocation_error();
       break;
@@ -151,20 +147,21 @@ char *potion_find_file(Potion *P, char *str, PN_SIZE str_len) {
       if (asprintf(&r, "%s%s", dirname, ext) == -1) potion_allocation_error();
       break;
     } else {
-      char *file;
-      if ((file = strrchr(str, '/')) == NULL)
-        file = str;
-      else
-        file++;
-      if (asprintf(&r, "%s/%s", dirname, file) == -1) potion_allocation_error();
-      if (stat(r, &st) != 0 || !S_ISREG(st.st_mode)) {
-        int r_len = prefix_len + 1 + str_len * 2 + 1;
-        if ((ext = find_extension(r)) == NULL) { free(r); r = NULL; continue; }
-        r = realloc(r, r_len + strlen(ext));
-        if (r == NULL) potion_allocation_error();
-        strcpy(r + r_len, ext);
+      char *end = dot ? dot : str + str_len;
+      char *file = end;
+      char *base;
+      while (file > str && file[-1] != '/') file--;
+      if (asprintf(&base, "%s/%.*s", dirname, (int)(end - file), file) == -1)
+	potion_allocation_error();
+      if (stat(base, &st) == 0 && S_ISREG(st.st_mode)) {
+	r = base;
+	break;
       }
-      break;
+      ext = find_extension(base);
+      if (ext != NULL && asprintf(&r, "%s%s", base, ext) == -1)
+	potion_allocation_error();
+      free(base);
+      if (ext != NULL) break;
     }
   });
   return r;
-- 
2.43.0


From c0ce40ac2803037975b400b36e0f991f80885d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:21 +0000
Subject: [PATCH 43/90] fix: a short text in a C buffer beside a stale
 reference was taken for a reference and altered

---
 core/compile.c |  2 +-
 core/file.c    |  2 +-
 core/number.c  | 11 ++++++-----
 core/string.c  | 11 ++++++-----
 lib/buffile.c  |  2 +-
 5 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 51ccf75..a69a36e 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -1145,7 +1145,7 @@ static int pnb_const(Potion *P, PNReader *in, PN *out) {
     const u8 *ptr = pnb_take(in, len);
     if (ptr == NULL) return 0;
     if (val & 2) {
-      char num[40];
+      char num[40] = "";
       if (len >= sizeof(num)) return 0;
       memcpy(num, ptr, len);
       num[len] = '\0';
diff --git a/core/file.c b/core/file.c
index 700bfb7..deccb67 100644
--- a/core/file.c
+++ b/core/file.c
@@ -181,7 +181,7 @@ PN potion_file_string(Potion *P, PN cl, pn_file self) {
   global "read" method, read next line from stdin via fgets()
   \return PNString or or PN_NIL */
 PN potion_lobby_read(Potion *P, PN cl, PN self) {
-  char line[1024];
+  char line[1024] = ""; // cleared: stale references beside the text would be traced
   if (fgets(line, 1024, stdin) != NULL)
     return potion_str(P, line);
   return PN_NIL;
diff --git a/core/number.c b/core/number.c
index 5f57b2d..9303aa8 100644
--- a/core/number.c
+++ b/core/number.c
@@ -200,7 +200,7 @@ static PN potion_int_bitr(Potion *P, PN cl, PN self, PN num) {
   "string" method, stringify
  \return PNString */
 PN potion_int_string(Potion *P, PN cl, PN self) {
-  char ints[40];
+  char ints[40] = ""; // cleared: stale references beside the text would be traced
   sprintf(ints, "%ld", PN_INT(self));
   return potion_str(P, ints);
 }
@@ -254,7 +254,7 @@ static PN potion_dbl_div(Potion *P, PN cl, PN self, PN num) { PN_DBL_MATH(/) }
   "string" method, stringify
  \return PNString */
 PN potion_dbl_string(Potion *P, PN cl, PN self) {
-  char ints[352]; // DBL_MAX has 309 digits
+  char ints[352] = ""; // DBL_MAX has 309 digits
   int len = sprintf(ints, "%.16f", ((struct PNDouble *)self)->value);
   while (len > 0 && ints[len - 1] == '0') len--;
   if (ints[len - 1] == '.') len++;
@@ -265,7 +265,7 @@ PN potion_dbl_string(Potion *P, PN cl, PN self) {
   "string" method, stringify
  \return PNString */
 PN potion_num_string(Potion *P, PN cl, PN self) {
-  char ints[352]; // DBL_MAX has 309 digits
+  char ints[352] = ""; // DBL_MAX has 309 digits
   if (PN_IS_INT(self)) {
     sprintf(ints, "%ld", PN_INT(self));
   } else {
@@ -346,9 +346,10 @@ static PN potion_int_step(Potion *P, PN cl, PN self, PN end, PN step, PN block)
   "chr" of int only, no UTF-8 multi-byte sequence yet.
  \return PNString one char <255 */
 static PN potion_int_chr(Potion *P, PN cl, PN self) {
-  char c = PN_INT(self);
+  union { PN word; char c; } u = { 0 }; // no stale reference around the char
+  u.c = PN_INT(self);
   DBG_CHECK_INT(self);
-  return PN_STRN(&c, 1);
+  return PN_STRN(&u.c, 1);
 }
 /**\memberof PNNumber
   "number?"
diff --git a/core/string.c b/core/string.c
index 29a0995..c0dd5a1 100644
--- a/core/string.c
+++ b/core/string.c
@@ -475,8 +475,9 @@ static PN potion_bytes_print(Potion *P, PN cl, PN self) {
 static PN potion_bytes_each(Potion *P, PN cl, PN self, PN block) {
   int i;
   for (i = 0; i < PN_STR_LEN(potion_fwd(self)); i++) {
-    char c = PN_STR_PTR(self)[i];
-    PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &c, 1));
+    union { PN word; char c; } u = { 0 }; // no stale reference around the char
+    u.c = PN_STR_PTR(self)[i];
+    PN_CLOSURE(block)->method(P, block, P->lobby, potion_byte_str2(P, &u.c, 1));
   }
   return PN_NIL;
 }
@@ -486,13 +487,13 @@ static PN potion_bytes_each(Potion *P, PN cl, PN self, PN block) {
 ///\param index PNInteger
 ///\return PNString substring index .. index+1
 static PN potion_bytes_at(Potion *P, PN cl, PN self, PN index) {
-  char c;
+  union { PN word; char c; } u = { 0 }; // no stale reference around the char
   self = potion_fwd(self);
   index = PN_INT(index);
   if (index >= PN_STR_LEN(self) || (signed long)index < 0)
     return PN_NIL;
-  c = PN_STR_PTR(self)[index];
-  return potion_byte_str2(P, &c, 1);
+  u.c = PN_STR_PTR(self)[index];
+  return potion_byte_str2(P, &u.c, 1);
 }
 
 /**\memberof PNString
diff --git a/lib/buffile.c b/lib/buffile.c
index 370a536..1866c09 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -140,7 +140,7 @@ PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
   \see potion_lobby_read() and potion_file_read()
   \return PNBytes or PN_NIL */
 PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
-  char line[1024];
+  char line[1024] = ""; // cleared: stale references beside the text would be traced
   if (fgets(line, 1024, self->file) != NULL)
     return potion_byte_str(P, line);
   return PN_NIL;
-- 
2.43.0


From 47e341f31ec3e088c709f894f6d517867b39c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:20 +0000
Subject: [PATCH 44/90] fix: -Ldirectory was not recognised, and a final -L
 read past the arguments

---
 core/potion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/potion.c b/core/potion.c
index c90e524..6a4e787 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -303,7 +303,7 @@ int main(int argc, char *argv[]) {
     if (!strcmp(argv[i], "--")) { i++; break; }
     if (!strcmp(argv[i], "-I") || !strcmp(argv[i], "--inspect")) {
       P->flags |= DEBUG_INSPECT; continue; }
-    if (!strcmp(argv[i], "-L")) {
+    if (!strncmp(argv[i], "-L", 2)) {
 #ifdef SANDBOX
     potion_fatal("-L disabled in SANDBOX");
 #else
@@ -311,7 +311,7 @@ int main(int argc, char *argv[]) {
       if (*extra_path)
 	potion_loader_add(P, potion_str(P, extra_path));
       else {
-	if (i == argc) {
+	if (i + 1 == argc) {
 	    fprintf(stderr, "-L missing directory\n");
 	    goto END;
 	}
-- 
2.43.0


From 5990d6c80a794d1269593584d2a4a5251f12281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 45/90] fix: a collection lost the last words of a
 continuation's stack

---
 core/callcc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/callcc.c b/core/callcc.c
index 564ef22..a22e771 100644
--- a/core/callcc.c
+++ b/core/callcc.c
@@ -125,7 +125,7 @@ PN potion_callcc(Potion *P, PN cl, PN self) {
     return 0;
   }
   cc = PN_ALLOC_N(PN_TCONT, struct PNCont, sizeof(PN) * (n + 3 + PN_SAVED_REGS));
-  cc->len = n + 3;
+  cc->len = n + 3 + PN_SAVED_REGS; // all of it moves and is traced
   cc->stack[0] = (PN)sp1;
   cc->stack[1] = (PN)sp2;
   cc->stack[2] = (PN)sp3;
-- 
2.43.0


From aecd4e62bb0b37e0c20a6d6f203f1a960f4a5991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 46/90] fix: File read kept its buffer on the stack (overrun by
 large or negative lengths) and took 0 bytes for the end of the file

---
 core/file.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/core/file.c b/core/file.c
index deccb67..e91f657 100644
--- a/core/file.c
+++ b/core/file.c
@@ -97,18 +97,25 @@ PN potion_file_close(Potion *P, PN cl, pn_file self) {
  \param n PNInteger
  \return n PNBytes or nil or PNError */
 PN potion_file_read(Potion *P, PN cl, pn_file self, PN n) {
+  char *buf;
+  long r;
+  PN bytes;
+  if (!PN_IS_INT(n)) return potion_type_error(P, n);
   n = PN_INT(n);
-  char buf[n];
-  int r = read(self->fd, buf, n);
-  if (r == -1) {
+  if ((long)n < 0) {
+    errno = EINVAL;
     return potion_io_error(P, "read");
-    //perror("read");
-    // TODO: error
-    //return PN_NUM(-1);
-  } else if (r == 0) {
-    return PN_NIL;
   }
-  return potion_byte_str2(P, buf, r);
+  if (n == 0) return potion_bytes(P, 0); // nil is for the end of the file
+  buf = malloc(n);
+  if (buf == NULL) potion_allocation_error();
+  r = read(self->fd, buf, n);
+  if (r == -1)
+    bytes = potion_io_error(P, "read");
+  else
+    bytes = r == 0 ? PN_NIL : potion_byte_str2(P, buf, r);
+  free(buf);
+  return bytes;
 }
 
 /**\memberof PNFile
-- 
2.43.0


From 2a65bb680192c925fb96a891d2bdc4887d1be796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:51 +0000
Subject: [PATCH 47/90] fix: File write of bytes wrote past them, of an integer
 wrote its tagged double

---
 core/file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/file.c b/core/file.c
index e91f657..40b8377 100644
--- a/core/file.c
+++ b/core/file.c
@@ -130,7 +130,7 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   if (!PN_IS_PTR(obj)) {
     if (!obj) return PN_NIL; //silent
     else if (PN_IS_INT(obj)) {
-      tmp.l = PN_NUM(obj); len = sizeof(tmp); ptr = (char *)&tmp.l;
+      tmp.l = PN_INT(obj); len = sizeof(tmp); ptr = (char *)&tmp.l;
     }
     else if (PN_IS_BOOL(obj)) {
       tmp.c = (obj == PN_TRUE) ? 1 : 0; len = 1; ptr = (char *)&tmp.c;
@@ -141,7 +141,7 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   } else {
     switch (PN_TYPE(obj)) {
       case PN_TSTRING: len = PN_STR_LEN(obj); ptr = PN_STR_PTR(obj); break;
-      case PN_TBYTES:  len = potion_send(obj, PN_STR("length")); ptr = PN_STR_PTR(obj); break;
+      case PN_TBYTES:  len = PN_STR_LEN(obj); ptr = PN_STR_PTR(obj); break;
       case PN_TNUMBER: {
         tmp.d = PN_DBL(obj); len = sizeof(tmp); ptr = (char *)&tmp.d;
         break;
-- 
2.43.0


From 96d54cd38c0b9e888867e6c06e5a817ca71be735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:25 +0000
Subject: [PATCH 48/90] fix: File print reported success when only a part was
 written

---
 core/file.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/file.c b/core/file.c
index 40b8377..9c5df44 100644
--- a/core/file.c
+++ b/core/file.c
@@ -106,7 +106,7 @@ PN potion_file_read(Potion *P, PN cl, pn_file self, PN n) {
     errno = EINVAL;
     return potion_io_error(P, "read");
   }
-  if (n == 0) return potion_bytes(P, 0); // nil is for the end of the file
+  if (n == 0) return potion_byte_str2(P, "", 0); // nil is for the end of the file
   buf = malloc(n);
   if (buf == NULL) potion_allocation_error();
   r = read(self->fd, buf, n);
@@ -141,7 +141,7 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   } else {
     switch (PN_TYPE(obj)) {
       case PN_TSTRING: len = PN_STR_LEN(obj); ptr = PN_STR_PTR(obj); break;
-      case PN_TBYTES:  len = PN_STR_LEN(obj); ptr = PN_STR_PTR(obj); break;
+      case PN_TBYTES:  obj = potion_fwd(obj); len = PN_STR_LEN(obj); ptr = PN_STR_PTR(obj); break;
       case PN_TNUMBER: {
         tmp.d = PN_DBL(obj); len = sizeof(tmp); ptr = (char *)&tmp.d;
         break;
@@ -161,8 +161,15 @@ PN potion_file_write(Potion *P, PN cl, pn_file self, PN obj) {
   \param obj any
   \return "" or PNError */
 PN potion_file_print(Potion *P, PN cl, pn_file self, PN obj) {
-  PN r = potion_file_write(P, cl, self, potion_send(obj, PN_string));
-  return PN_IS_INT(r) ? PN_STR0 : r;
+  PN str = potion_fwd(potion_send(obj, PN_string));
+  long done = 0;
+  if (!PN_IS_STR(str) && PN_TYPE(str) != PN_TBYTES) return potion_type_error(P, str);
+  while (done < PN_STR_LEN(str)) { // the system may take a part only
+    long r = write(self->fd, PN_STR_PTR(str) + done, PN_STR_LEN(str) - done);
+    if (r == -1) return potion_io_error(P, "write");
+    done += r;
+  }
+  return PN_STR0;
 }
 
 /**\memberof PNFile
-- 
2.43.0


From e33eb8df549f3e396c202c663233215e7279c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:34 +0000
Subject: [PATCH 49/90] fix: the first optional argument after an untyped one
 lost its name

---
 core/compile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/compile.c b/core/compile.c
index a69a36e..9ba5edd 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -999,7 +999,7 @@ PN potion_sig_compile(Potion *P, vPN(Proto) f, PN src) {
 	  //x|y=o => (assign (pipe (expm x) (expm y)) (expm o))
 	  SIG_EXPR_MSG(name, lhs->a[0]);
 	  sig = PN_PUSH(sig, PN_NUM('|'));
-	  rhs = lhs->a[1];
+	  SIG_EXPR_MSG(name, lhs->a[1]);
 	  DBG_c("; (%s | ", AS_STR(name));
 	} else {
 	  potion_syntax_error(P, t, "in signature: unexpected AST %s", AS_STR(lhs));
-- 
2.43.0


From 124fca1a67c69d6ff7067e961491403b97033867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:55 +0000
Subject: [PATCH 50/90] fix: a default argument of 58 or 124 was taken for the
 mark of a default or optional argument

---
 core/compile.c  | 2 +-
 core/objmodel.c | 7 +++----
 core/vm.c       | 3 ++-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/compile.c b/core/compile.c
index 9ba5edd..90a72aa 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -68,7 +68,7 @@ PN potion_sig_string(Potion *P, PN cl, PN sig) {
       PN_SIZE i, comma=0;
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
-	if (PN_IS_INT(v)) {
+	if (PN_IS_INT(v) && !nextdef) {
           // currently types are still encoded as NUM, TODO: support VTABLE also
 	  int c = PN_INT(v); comma=0;
 	  if (c == '.')      // is end
diff --git a/core/objmodel.c b/core/objmodel.c
index faf8df0..5c9cec1 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -89,8 +89,7 @@ int potion_sig_arity(Potion *P, PN sig) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++; // names
-	// but not string default values
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	if (v == PN_NUM(':')) i++; // but not default values
       }
     }
     return count;
@@ -138,7 +137,7 @@ PN potion_sig_at(Potion *P, PN sig, int index) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++;
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	if (v == PN_NUM(':')) i++; // not the default value
 	if (count == index) {
 	  result = potion_tuple_new(P, v);
 	  if (i+1 < t->len && PN_IS_INT((PN)t->set[i+1])) {
@@ -171,7 +170,7 @@ PN potion_sig_name_at(Potion *P, PN sig, int index) {
       for (i = 0; i < t->len; i++) {
 	PN v = (PN)t->set[i];
 	if (PN_IS_STR(v)) count++;
-	if (PN_IS_INT(v) && v == PN_NUM(':') && PN_IS_STR((PN)t->set[i+1])) count--;
+	if (v == PN_NUM(':')) i++; // not the default value
 	if (count == index)
 	  return v;
       }
diff --git a/core/vm.c b/core/vm.c
index 12b7017..644609e 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -273,7 +273,8 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
     for (i=0; i < t->len; i++) {
       PN v = (PN)t->set[i];
       // arg names, except string default
-      if (PN_IS_STR(v) && !(i>0 && PN_IS_INT(t->set[i-1]) && t->set[i-1] == PN_NUM(':'))) {
+      if (v == PN_NUM(':')) i++;
+      else if (PN_IS_STR(v)) {
         PN_SIZE num = PN_GET(f->locals, v);
         if (num != PN_NONE)
           target->local(P, f, &asmb, regs + num, argx);
-- 
2.43.0


From a812db626dc90d47398d3efb728a5e3c10c3031d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:27 +0000
Subject: [PATCH 51/90] fix: the stack scan took the middle of code being
 assembled for a huge object

---
 core/gc.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/core/gc.c b/core/gc.c
index 17269c7..5042a23 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -56,6 +56,13 @@ PN_SIZE potion_stack_len(Potion *P, _PN **p) {
 
 #define HAS_REAL_TYPE(v) (P->vts == NULL || (((struct PNFwd *)v)->fwd == POTION_COPIED || PN_TYPECHECK(PN_VTYPE(v))))
 
+/// what begins past the middle of an object has a random size mostly
+static inline int pngc_fits(Potion *P, _PN v) {
+  struct PNMemory *M = P->mem;
+  _PN end = (_PN)(IN_BIRTH_REGION(v) ? M->birth_hi : M->old_hi);
+  return potion_type_size(P, (const struct PNObject *)v) <= end - v;
+}
+
 ATTRIBUTE_NO_ADDRESS_SAFETY_ANALYSIS
 static PN_SIZE pngc_mark_array(Potion *P, register _PN *x, register long n, int type) {
   _PN v;
@@ -75,14 +82,15 @@ static PN_SIZE pngc_mark_array(Potion *P, register _PN *x, register long n, int
 	  }
         break;
         case 1: // minor
-          if (!IS_GC_PROTECTED(v) && IN_BIRTH_REGION(v) && HAS_REAL_TYPE(v)) {
+          if (!IS_GC_PROTECTED(v) && IN_BIRTH_REGION(v) && HAS_REAL_TYPE(v) && pngc_fits(P, v)) {
             GC_FORWARD(x, v);
             i++;
             DBG_Gv(P,"GC mark minor %p -> 0x%lx %6x\n", x, v, PN_TYPE(*x));
           }
         break;
         case 2: // major
-          if (!IS_GC_PROTECTED(v) && (IN_BIRTH_REGION(v) || IN_OLDER_REGION(v)) && HAS_REAL_TYPE(v)) {
+          if (!IS_GC_PROTECTED(v) && (IN_BIRTH_REGION(v) || IN_OLDER_REGION(v)) &&
+              HAS_REAL_TYPE(v) && pngc_fits(P, v)) {
             GC_FORWARD(x, v);
             i++;
             DBG_Gv(P,"GC mark major %p -> 0x%lx %6x\n", x, v, PN_TYPE(*x));
-- 
2.43.0


From a97ad47cccc28ab8e9bdf66da564bcb3b88cf5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:49 +0000
Subject: [PATCH 52/90] fix: a BufFile used its stream after it was closed

---
 lib/buffile.c | 49 ++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 1866c09..2f1c101 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -9,7 +9,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <unistd.h>
-//#include <errno.h>
+#include <errno.h>
 #include "potion.h"
 
 #ifndef SANDBOX
@@ -34,6 +34,10 @@ struct PNBufFile {
 typedef vPN(BufFile) pn_ffile;
 const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
 
+// stdio must not see a stream which is closed already
+#define BUFFILE_CHECK(self, msg) \
+  if (!(self)->file) { errno = EBADF; return potion_io_error(P, msg); }
+
 /**\memberof PNBufFile
   opens a buffered stream
   \param path PNString
@@ -91,13 +95,20 @@ PN potion_buffile_fdopen(Potion *P, PN cl, pn_ffile self, PN fd, PN modestr) {
   \returns PNBufFile or PNError */
 PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr, pn_ffile stream) {
   FILE *file;
-  if ((PN_TYPE(stream) != PN_TUSER) ||
-     !(file = freopen(PN_STR_PTR(path), PN_STR_PTR(modestr), stream->file))) {
+  if (PN_TYPE(stream) != PN_TUSER)
+    return potion_type_error(P, (PN)stream);
+  BUFFILE_CHECK(stream, "freopen");
+  if (!(file = freopen(PN_STR_PTR(path), PN_STR_PTR(modestr), stream->file))) {
+    stream->file = NULL; // it is closed even if the new file cannot be opened
     return potion_io_error(P, "freopen");
   }
+  if (self != stream) {
+    stream->file = NULL;
+    if (self->file) fclose(self->file);
+  }
   self->siz = BufFileSize;
   self->file = file;
-  self->path = stream->path;
+  self->path = path;
   return (PN)self;
 }
 
@@ -127,12 +138,17 @@ PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   \c flush and \c close a PNBufFile.
   \return PNInteger (0 or EOF) */
 PN potion_buffile_fclose(Potion *P, PN cl, pn_ffile self) {
-  return PN_NUM(fclose(self->file));
+  FILE *file;
+  BUFFILE_CHECK(self, "close");
+  file = self->file;
+  self->file = NULL;
+  return PN_NUM(fclose(file));
 }
 /**\memberof PNBufFile
   \c read the next character from a PNBufFile
   \return PNInteger */
 PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
+  BUFFILE_CHECK(self, "fgetc");
   return PN_NUM(fgetc(self->file));
 }
 /**\memberof PNBufFile
@@ -141,6 +157,7 @@ PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
   \return PNBytes or PN_NIL */
 PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
   char line[1024] = ""; // cleared: stale references beside the text would be traced
+  BUFFILE_CHECK(self, "fgets");
   if (fgets(line, 1024, self->file) != NULL)
     return potion_byte_str(P, line);
   return PN_NIL;
@@ -152,6 +169,7 @@ PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
   \param nitems PNInteger
   \return PNInteger of read items or PNError */
 PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
+  BUFFILE_CHECK(self, "fread");
   int r = fread(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fread");
@@ -164,6 +182,7 @@ PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nit
   \param nitems PNInteger, default 1
   \return PNInteger of written items or PNError */
 PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
+  BUFFILE_CHECK(self, "fwrite");
   if (!size && (!nitems || PN_INT(nitems) == 1)) {
     size = potion_send(buf, PN_STR("length"));
     nitems = PN_NUM(1);
@@ -184,6 +203,7 @@ PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN ni
   \param byte PNInteger
   \return PNInteger */
 PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
+  BUFFILE_CHECK(self, "fputc");
   return PN_NUM(fputc(PN_INT(byte), self->file));
 }
 /**\memberof PNBufFile
@@ -192,6 +212,7 @@ PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
   \return PNInteger or PNError */
 PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
   int r;
+  BUFFILE_CHECK(self, "fputs");
   if (!(r=fputs(PN_STR_PTR(str), self->file)))
     return potion_io_error(P, "fputs");
   return PN_NUM(r);
@@ -200,6 +221,7 @@ PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
    \c "fflush"
    \return true or PNError */
 PN potion_buffile_fflush(Potion *P, PN cl, pn_ffile self) {
+  BUFFILE_CHECK(self, "fflush");
   if (fflush(self->file))
     return potion_io_error(P, "fflush");
   return PN_TRUE;
@@ -210,6 +232,7 @@ PN potion_buffile_fflush(Potion *P, PN cl, pn_ffile self) {
   \param whence PNInteger
   \return true or PNError */
 PN potion_buffile_fseek(Potion *P, PN cl, pn_ffile self, PN offset, PN whence) {
+  BUFFILE_CHECK(self, "fseek");
   if (fseek(self->file, PN_INT(offset), PN_INT(whence)))
     return potion_io_error(P, "fseek");
   return PN_TRUE;
@@ -219,6 +242,7 @@ PN potion_buffile_fseek(Potion *P, PN cl, pn_ffile self, PN offset, PN whence) {
    beginning of the file.
   \return PNInteger */
 PN potion_buffile_ftell(Potion *P, PN cl, pn_ffile self) {
+  BUFFILE_CHECK(self, "ftell");
   long r = ftell(self->file);
   if (r == -1)
     return potion_io_error(P, "ftell");
@@ -228,19 +252,23 @@ PN potion_buffile_ftell(Potion *P, PN cl, pn_ffile self) {
    \c "feof" tests the end-of-file indicator for the stream.
    \return true or false */
 PN potion_buffile_feof(Potion *P, PN cl, pn_ffile self) {
+  BUFFILE_CHECK(self, "feof");
   int r = feof(self->file);
   return r ? PN_TRUE : PN_FALSE;
 }
 /**\memberof PNBufFile
    \c "fileno" \returns its integer file descriptor. */
 PN potion_buffile_fileno(Potion *P, PN cl, pn_ffile self) {
-  return PN_NUM(fileno(self->file));
+  return PN_NUM(self->file ? fileno(self->file) : -1);
 }
 /**\memberof PNBufFile
    \c "unlink" the PNBufFile. close it if open.
    \return true or nil */
 PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
-  if (fileno(self->file) != -1) fclose(self->file);
+  if (self->file) {
+    fclose(self->file);
+    self->file = NULL;
+  }
   if (!self->path || unlink(PN_STR_PTR(self->path))) {
     return potion_io_error(P, "unlink");
   }
@@ -250,17 +278,20 @@ PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
 /**\memberof PNBufFile
    acquire for a thread ownership of a PNBufFile object */
 PN potion_buffile_flockfile(Potion *P, PN cl, pn_ffile self) {
+  BUFFILE_CHECK(self, "flockfile");
   flockfile(self->file); return PN_TRUE;
 }
 /**\memberof PNBufFile
    non-blocking version of \see potion_buffile_flockfile().
   \returns 0 for success */
 PN potion_buffile_ftrylockfile(Potion *P, PN cl, pn_ffile self) {
+  BUFFILE_CHECK(self, "ftrylockfile");
   return PN_NUM(ftrylockfile(self->file));
 }
 /**\memberof PNBufFile
    relinquish the ownership granted to the thread of a PNBufFile object */
 PN potion_buffile_funlockfile(Potion *P, PN cl, pn_ffile self) {
+  BUFFILE_CHECK(self, "funlockfile");
   funlockfile(self->file); return PN_TRUE;
 }
 #endif
@@ -276,7 +307,7 @@ PN potion_buffile_fprintf(Potion *P, PN cl, pn_ffile self, PN fmt, ...) {
 /**\memberof PNBufFile
   \c "string" method. some internal descr */
 PN potion_buffile_string(Potion *P, PN cl, pn_ffile self) {
-  int fd = fileno(self->file), rv;
+  int fd = self->file ? fileno(self->file) : -1, rv;
   char *buf;
   PN str;
   if (self->path != PN_NIL && fd != -1) {
@@ -284,7 +315,7 @@ PN potion_buffile_string(Potion *P, PN cl, pn_ffile self) {
   } else if (fd != -1) {
     rv = asprintf(&buf, "<buffile %p fd: %d>", self->file, fd);
   } else {
-    rv = asprintf(&buf, "<closed buffile %p>", self->file);
+    rv = asprintf(&buf, "<closed buffile %p>", (void *)self);
   }
   if (rv == -1) potion_allocation_error();
   str = potion_str(P, buf);
-- 
2.43.0


From 3ed7c9e583681833b4d890951d156975130dc216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 53/90] fix: the path of a BufFile dangled after a collection

---
 lib/buffile.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 2f1c101..346070c 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -8,6 +8,7 @@
 #define __USE_XOPEN2K8
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include <unistd.h>
 #include <errno.h>
 #include "potion.h"
@@ -29,7 +30,7 @@ struct PNBufFile {
   PN_OBJECT_HEADER;
   PN_SIZE siz;
   FILE * file;
-  PN     path;
+  char * path; // a copy: the collector does not trace this object
 };
 typedef vPN(BufFile) pn_ffile;
 const int BufFileSize = sizeof(struct PNBufFile) - sizeof(struct PNData);
@@ -51,7 +52,7 @@ PN potion_buffile_fopen(Potion *P, PN cl, PN ign, PN path, PN modestr) {
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
   self->siz = BufFileSize;
   self->file = file;
-  self->path = path;
+  self->path = strdup(PN_STR_PTR(path));
   return (PN)self;
 }
 /**\memberof Lobby
@@ -65,7 +66,7 @@ PN potion_buffile_tmpfile(Potion *P, PN cl, PN ign) {
   self->file = tmpfile(); // CID 32134
   if (!self->file)
     return potion_io_error(P, "tmpfile");
-  self->path = PN_NIL;
+  self->path = NULL;
   return (PN)self;
 }
 /**\memberof PNBufFile
@@ -80,7 +81,7 @@ PN potion_buffile_fdopen(Potion *P, PN cl, pn_ffile self, PN fd, PN modestr) {
     return potion_io_error(P, "fdopen");
   self->siz = BufFileSize;
   self->file = file;
-  self->path = PN_NIL;
+  self->path = NULL;
   return (PN)self;
 }
 
@@ -108,7 +109,8 @@ PN potion_buffile_freopen(Potion *P, PN cl, pn_ffile self, PN path, PN modestr,
   }
   self->siz = BufFileSize;
   self->file = file;
-  self->path = path;
+  free(self->path);
+  self->path = strdup(PN_STR_PTR(path));
   return (PN)self;
 }
 
@@ -129,7 +131,7 @@ PN potion_buffile_fmemopen(Potion *P, PN cl, PN buf, PN modestr) {
   self = (struct PNBufFile *)potion_data_alloc(P, sizeof(struct PNBufFile));
   self->siz = BufFileSize;
   self->file = file;
-  self->path = PN_NIL;
+  self->path = NULL;
   return (PN)self;
 }
 #endif
@@ -269,7 +271,7 @@ PN potion_buffile_unlink(Potion *P, PN cl, pn_ffile self) {
     fclose(self->file);
     self->file = NULL;
   }
-  if (!self->path || unlink(PN_STR_PTR(self->path))) {
+  if (!self->path || unlink(self->path)) {
     return potion_io_error(P, "unlink");
   }
   return PN_TRUE;
@@ -310,8 +312,8 @@ PN potion_buffile_string(Potion *P, PN cl, pn_ffile self) {
   int fd = self->file ? fileno(self->file) : -1, rv;
   char *buf;
   PN str;
-  if (self->path != PN_NIL && fd != -1) {
-    rv = asprintf(&buf, "<buffile %s fd: %d>", PN_STR_PTR(self->path), fd);
+  if (self->path && fd != -1) {
+    rv = asprintf(&buf, "<buffile %s fd: %d>", self->path, fd);
   } else if (fd != -1) {
     rv = asprintf(&buf, "<buffile %p fd: %d>", self->file, fd);
   } else {
-- 
2.43.0


From c5112d4411fdb629f7d3106d65f7bbb4a37e4588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:47 +0000
Subject: [PATCH 54/90] fix: BufFile fread wrote beyond its buffer, and failed
 at the end of file

---
 lib/buffile.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 346070c..c5b5e2d 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -164,16 +164,30 @@ PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
     return potion_byte_str(P, line);
   return PN_NIL;
 }
+/** are there nitems of size in buf? */
+static int buffile_fits(PN buf, long size, long nitems) {
+  long len = PN_STR_LEN(potion_fwd(buf));
+  if (size < 0 || nitems < 0) return 0;
+  return !size || nitems <= len / size;
+}
 /**\memberof PNBufFile
   \c read nitems of size from the stream into the PNBytes buf
   \param buf PNBytes
   \param size PNInteger
   \param nitems PNInteger
-  \return PNInteger of read items or PNError */
+  \return PNInteger of read items, fewer at the end of file, or PNError */
 PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
   BUFFILE_CHECK(self, "fread");
-  int r = fread(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
-  if (r < PN_INT(nitems))
+  long r;
+  if (PN_TYPE(buf) != PN_TBYTES)
+    return potion_type_error(P, buf);
+  if (!buffile_fits(buf, PN_INT(size), PN_INT(nitems))) {
+    errno = EINVAL;
+    return potion_io_error(P, "fread");
+  }
+  clearerr(self->file);
+  r = fread(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
+  if (r < PN_INT(nitems) && ferror(self->file))
     return potion_io_error(P, "fread");
   return PN_NUM(r);
 }
-- 
2.43.0


From 120643e8113d19e0fd87f7b63b57fc8c61522d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:59 +0000
Subject: [PATCH 55/90] fix: BufFile write without a size failed, took chars
 for bytes and could read beyond its buffer

---
 lib/buffile.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index c5b5e2d..12133bd 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -194,22 +194,28 @@ PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nit
 /**\memberof PNBufFile
   \c write nitems of size starting at the pointer pointing to buf to the stream.
   \param buf PNBytes or PNString
-  \param size PNInteger or if PN_NIL the length of buf
+  \param size PNInteger or if PN_NIL or 0 the length of buf
   \param nitems PNInteger, default 1
   \return PNInteger of written items or PNError */
 PN potion_buffile_fwrite(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nitems) {
   BUFFILE_CHECK(self, "fwrite");
-  if (!size && (!nitems || PN_INT(nitems) == 1)) {
-    size = potion_send(buf, PN_STR("length"));
-    nitems = PN_NUM(1);
-  }
+  long r;
   switch (PN_TYPE(buf)) {
     case PN_TSTRING:
     case PN_TBYTES: break;
     case PN_NIL:    return PN_NIL;
     default: return potion_type_error(P, buf);
   }
-  int r = fwrite(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
+  if (!nitems) nitems = PN_NUM(1);
+  if ((!size || size == PN_ZERO) && PN_INT(nitems) == 1) {
+    size = PN_NUM(PN_STR_LEN(potion_fwd(buf))); // in bytes, not chars
+    if (size == PN_ZERO) return PN_NUM(1);
+  }
+  if (!buffile_fits(buf, PN_INT(size), PN_INT(nitems))) {
+    errno = EINVAL;
+    return potion_io_error(P, "fwrite");
+  }
+  r = fwrite(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems))
     return potion_io_error(P, "fwrite");
   return PN_NUM(r);
-- 
2.43.0


From 26cd80c86469c71a1b9e705dae2745efaf1e8bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 56/90] fix: BufFile fputs took a failed write for a written
 line

---
 lib/buffile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index 12133bd..e7c6eac 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -235,7 +235,7 @@ PN potion_buffile_fputc(Potion *P, PN cl, pn_ffile self, PN byte) {
 PN potion_buffile_fputs(Potion *P, PN cl, pn_ffile self, PN str) {
   int r;
   BUFFILE_CHECK(self, "fputs");
-  if (!(r=fputs(PN_STR_PTR(str), self->file)))
+  if ((r=fputs(PN_STR_PTR(str), self->file)) == EOF)
     return potion_io_error(P, "fputs");
   return PN_NUM(r);
 }
-- 
2.43.0


From 94ad0cf8b04fa58342880475e30e113602cbac72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:24 +0000
Subject: [PATCH 57/90] fix: BufFile fgets lost what followed a zero byte in
 the line

---
 lib/buffile.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/buffile.c b/lib/buffile.c
index e7c6eac..d7f383c 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -159,10 +159,15 @@ PN potion_buffile_fgetc(Potion *P, PN cl, pn_ffile self) {
   \return PNBytes or PN_NIL */
 PN potion_buffile_fgets(Potion *P, PN cl, pn_ffile self) {
   char line[1024] = ""; // cleared: stale references beside the text would be traced
+  int c = 0, n = 0;
   BUFFILE_CHECK(self, "fgets");
-  if (fgets(line, 1024, self->file) != NULL)
-    return potion_byte_str(P, line);
-  return PN_NIL;
+  while (n < 1023 && (c = getc(self->file)) != EOF) {
+    line[n++] = c;
+    if (c == '\n') break;
+  }
+  if (!n || (c == EOF && !feof(self->file)))
+    return PN_NIL;
+  return potion_byte_str2(P, line, n); // may hold \0
 }
 /** are there nitems of size in buf? */
 static int buffile_fits(PN buf, long size, long nitems) {
-- 
2.43.0


From 77e9deb94bcb3e8af101410c4fd0bc2c0782ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:05 +0000
Subject: [PATCH 58/90] fix: else ran too when the last thing in the if body
 was an if that did not apply

---
 core/compile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/compile.c b/core/compile.c
index 90a72aa..f02a54e 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -619,6 +619,8 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         if (!t->a[2])
           return potion_syntax_error(P, t, "Missing if body");
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
+        PN_REG(f, breg);
+        PN_ASM2(OP_LOADPN, breg, PN_TRUE); // for else: the body overwrote it
         PN_OP_AT(f->asmb, jmp).b = (PN_OP_LEN(f->asmb) - jmp) - 1;
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_elsif) {
         int jmp1 = PN_OP_LEN(f->asmb), jmp2; breg++;
@@ -631,6 +633,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         if (!t->a[2])
           return potion_syntax_error(P, t, "Missing elsif body");
         potion_source_asmb(P, f, loop, 0, t->a[2], reg);
+        PN_ASM2(OP_LOADPN, breg, PN_TRUE); // for else: the body overwrote it
         PN_OP_AT(f->asmb, jmp1).b = (PN_OP_LEN(f->asmb) - jmp1) - 1;
         PN_OP_AT(f->asmb, jmp2).b = (PN_OP_LEN(f->asmb) - jmp2) - 1;
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_else) {
-- 
2.43.0


From deb639802a2dcbcd1b3dc6feab8c9a7f9a3771bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 59/90] fix: BufFile fread of nothing forgot that the end of
 file was met

---
 lib/buffile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/buffile.c b/lib/buffile.c
index d7f383c..fa02ed0 100644
--- a/lib/buffile.c
+++ b/lib/buffile.c
@@ -190,6 +190,8 @@ PN potion_buffile_fread(Potion *P, PN cl, pn_ffile self, PN buf, PN size, PN nit
     errno = EINVAL;
     return potion_io_error(P, "fread");
   }
+  if (size == PN_ZERO || nitems == PN_ZERO)
+    return PN_ZERO;
   clearerr(self->file);
   r = fread(PN_STR_PTR(buf), PN_INT(size), PN_INT(nitems), self->file);
   if (r < PN_INT(nitems) && ferror(self->file))
-- 
2.43.0


From 37ccca98d6da97765b8a4818b37169eb560401fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 60/90] fix: the JIT left too little stack for a call with many
 arguments

---
 core/vm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/vm.c b/core/vm.c
index 644609e..ae38ce3 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -250,6 +250,13 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
     }
   }
 
+  // and the calls made here may pass more
+  for (pos = 0; pos < PN_OP_LEN(f->asmb); pos++) {
+    PN_OP op = PN_OP_AT(f->asmb, pos);
+    if (op.code == OP_CALL && op.b - op.a + 2 > protoargs)
+      protoargs = op.b - op.a + 2;
+  }
+
   regs = PN_INT(f->stack);
   lregs = regs + PN_TUPLE_LEN(f->locals);
   need = lregs + upc + 3;
-- 
2.43.0


From 9de8d313121d323a4032f2a8cab537445d81b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:06 +0000
Subject: [PATCH 61/90] fix: tables with mostly deleted entries doubled on
 every rehash

A table that sees keys put and removed, and the table of all strings, grew
for ever although few entries are live. Rehash into the same size then.
---
 core/khash.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/khash.h b/core/khash.h
index b18b0b7..a4e14e4 100644
--- a/core/khash.h
+++ b/core/khash.h
@@ -78,7 +78,9 @@ static const double __kh_HASH_UPPER = 0.77;
     uint32_t *new_flags = 0;						\
     khint_t j = 1;							\
     {									\
-      new_n_buckets = h->n_buckets? h->n_buckets<<1 : 4;		\
+      /* deleted entries only: the same size again */			\
+      if (h->n_buckets && new_n_buckets < h->n_buckets) new_n_buckets = h->n_buckets; \
+      else new_n_buckets = h->n_buckets? h->n_buckets<<1 : 4;		\
       if (h->size >= (khint_t)(new_n_buckets * __kh_HASH_UPPER + 0.5)) j = 0; \
       else {								\
         nft = PN_DALLOC_N(uint32_t, __ac_fsize(new_n_buckets));		\
-- 
2.43.0


From fd2d6b15f84c45e15643558a475978b544828ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 62/90] fix: memory refused to the parser, the JIT or an ivar
 table crashed

The parser's buffers, the page for a compiled function and the page for a
class' ivar lookup were used without a check. Stop with the usual report.
---
 core/objmodel.c | 1 +
 core/syntax.y   | 8 +++++++-
 core/vm.c       | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/objmodel.c b/core/objmodel.c
index 5c9cec1..d048bf6 100644
--- a/core/objmodel.c
+++ b/core/objmodel.c
@@ -303,6 +303,7 @@ PN potion_ivars(Potion *P, PN cl, PN self, PN ivars) {
   PNAsm * volatile asmb = potion_asm_new(P);
   P->target.ivars(P, ivars, &asmb);
   vt->ivfunc = (PN_IVAR_FUNC)PN_ALLOC_FUNC(asmb->len);
+  if (vt->ivfunc == NULL) potion_allocation_error();
   PN_MEMCPY_N(vt->ivfunc, asmb->ptr, u8, asmb->len);
 #endif
   vt->ivlen = PN_TUPLE_LEN(ivars);
diff --git a/core/syntax.y b/core/syntax.y
index 17d450b..2c2d8ee 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -58,7 +58,13 @@
 static PN yylastline(struct _GREG *G, int pos);
 
 // a new value stack has no values yet
-#define YY_ALLOC(N, D) calloc(1, N)
+static void *yy_mem(void *p) {
+  if (p == NULL) potion_allocation_error();
+  return p;
+}
+#define YY_ALLOC(N, D) yy_mem(calloc(1, N))
+#define YY_CALLOC(N, S, D) yy_mem(calloc(N, S))
+#define YY_REALLOC(B, N, D) yy_mem(realloc(B, N))
 %}
 
 potion = -- s:statements end-of-file { $$ = P->source = PN_AST(CODE, s) }
diff --git a/core/vm.c b/core/vm.c
index ae38ce3..268235c 100644
--- a/core/vm.c
+++ b/core/vm.c
@@ -371,6 +371,7 @@ PN_F potion_jit_proto(Potion *P, PN proto) {
   target->finish(P, f, &asmb);
 
   fn = (u8*)PN_ALLOC_FUNC(asmb->len);
+  if (fn == NULL) potion_allocation_error();
 #if defined(JIT_DEBUG)
   if (P->flags & DEBUG_JIT) {
     #include "vm-dis.c"
-- 
2.43.0


From 59d9bacce71b0934674c193054f5913e11cb275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 63/90] fix: compiling a file with a long path overflowed the
 output path

---
 core/potion.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/potion.c b/core/potion.c
index 6a4e787..df01d02 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -176,7 +176,8 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
     potion_fatal("fatal: stack corruption (exec > MAX_EXEC)\n");
 
   if (exec == EXEC_COMPILE) { // needs an inputfile. TODO: -e"" -ofile
-    char outpath[255];
+    char *outpath;
+    const char *ext = "b"; // .pnb
     FILE *pnb;
     PN opts;
     char *c_opts = NULL;
@@ -189,12 +190,12 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
 	//TODO check -o for outpath
       }
     }
-    if (!compile || !strcmp(compile, "bc"))
-      sprintf(outpath, "%sb", filename);  // .pnb
-    else if (!strcmp(compile, "c"))
-      sprintf(outpath, "%s.c", filename); // .pn.c
-    else if (!strcmp(compile, "exe"))
-      sprintf(outpath, "%s.out", filename); // TODO: strip ext
+    if (compile && !strcmp(compile, "c"))
+      ext = ".c"; // .pn.c
+    else if (compile && !strcmp(compile, "exe"))
+      ext = ".out"; // TODO: strip ext
+    if (asprintf(&outpath, "%s%s", filename, ext) == -1)
+      potion_allocation_error();
     opts = c_opts
       ? pn_printf(P, potion_bytes(P,0), "%s,-o%s", c_opts, outpath)
       : potion_strcat(P, "-o", outpath);
@@ -202,6 +203,7 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
     pnb = fopen(outpath, "wb");
     if (!pnb) {
       fprintf(stderr, "** could not open %s for writing. check permissions.\n", outpath);
+      free(outpath);
       goto done;
     }
     if (!compile)
@@ -230,6 +232,7 @@ static PN potion_cmd_exec(Potion *P, PN buf, char *filename, char *compile, char
 	      compile?compile:"bytecode", (unsigned long)written,
 	      (unsigned long)(code?PN_STR_LEN(code):0), outpath);
     }
+    free(outpath);
   }
 
 #if defined(DEBUG)
-- 
2.43.0


From a6cafceb388a7930f8c65822f86d800c92c194b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:23 +0000
Subject: [PATCH 64/90] fix: parallel interpreters overwrote each other's
 method names and load path

---
 core/internal.c  | 12 ++++++------
 core/load.c      |  2 +-
 core/mt19937ar.c |  8 ++++----
 core/potion.h    | 13 +++++++------
 lib/aio.c        |  2 +-
 5 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/core/internal.c b/core/internal.c
index 8eca187..fb7dadf 100644
--- a/core/internal.c
+++ b/core/internal.c
@@ -11,16 +11,16 @@
 #include "table.h"
 #include "gc.h"
 
-PN PN_allocate, PN_break, PN_call, PN_class, PN_compile, PN_continue, PN_def,
+PN_THREAD PN PN_allocate, PN_break, PN_call, PN_class, PN_compile, PN_continue, PN_def,
    PN_delegated, PN_else, PN_elsif, PN_if, PN_lookup, PN_loop, PN_print,
    PN_return, PN_self, PN_string, PN_while;
-PN PN_add, PN_sub, PN_mult, PN_div, PN_rem, PN_bitn, PN_bitl, PN_bitr;
-PN PN_cmp, PN_number, PN_name, PN_length, PN_size, PN_STR0;
-PN PN_extern, PN_integer;
+PN_THREAD PN PN_add, PN_sub, PN_mult, PN_div, PN_rem, PN_bitn, PN_bitl, PN_bitr;
+PN_THREAD PN PN_cmp, PN_number, PN_name, PN_length, PN_size, PN_STR0;
+PN_THREAD PN PN_extern, PN_integer;
 #ifdef P2
-PN PN_use, PN_no;
+PN_THREAD PN PN_use, PN_no;
 #endif
-PN pn_filenames;
+PN_THREAD PN pn_filenames;
 
 PN potion_allocate(Potion *P, PN cl, PN self, PN len) {
   struct PNData *obj = PN_ALLOC_N(PN_TUSER, struct PNData, PN_INT(len));
diff --git a/core/load.c b/core/load.c
index 04e9fa9..8db00ae 100644
--- a/core/load.c
+++ b/core/load.c
@@ -101,7 +101,7 @@ static PN potion_load_dylib(Potion *P, const char *filename) {
   return PN_INT(handle);
 }
 
-static PN pn_loader_path;
+static PN_THREAD PN pn_loader_path;
 static const char *pn_loader_extensions[] = {
   ".pnb"
   , ".pn"
diff --git a/core/mt19937ar.c b/core/mt19937ar.c
index 516fa78..b3800d7 100644
--- a/core/mt19937ar.c
+++ b/core/mt19937ar.c
@@ -57,10 +57,10 @@
 #define MIXBITS(u,v) ( ((u) & UMASK) | ((v) & LMASK) )
 #define TWIST(u,v) ((MIXBITS(u,v) >> 1) ^ ((v)&1UL ? MATRIX_A : 0UL))
 
-static unsigned long state[N]; /* the array for the state vector  */
-static int left = 1;
-static int initf = 0;
-static unsigned long *next;
+static __thread unsigned long state[N]; /* the array for the state vector  */
+static __thread int left = 1;
+static __thread int initf = 0;
+static __thread unsigned long *next;
 
 /* initializes state[N] with a seed */
 void init_genrand(unsigned long s) {
diff --git a/core/potion.h b/core/potion.h
index a036535..20754bf 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -823,15 +823,16 @@ static inline struct PNData *potion_data_alloc(Potion *P, int siz) {
 #define potion_class_method(RCV, MSG, FN, SIG) \
   potion_send(((struct PNVtable *)(RCV))->meta, PN_def, potion_str(P, MSG), PN_FUNC(FN, SIG))
 
-/// common method names in GC protected area
-extern PN PN_allocate, PN_break, PN_call, PN_class, PN_compile,
+/// common method names in GC protected area. each thread has an interpreter of its own
+#define PN_THREAD __thread
+extern PN_THREAD PN PN_allocate, PN_break, PN_call, PN_class, PN_compile,
   PN_continue, PN_def, PN_delegated, PN_else, PN_elsif, PN_if,
   PN_lookup, PN_loop, PN_print, PN_return, PN_self, PN_string,
   PN_while;
-extern PN PN_add, PN_sub, PN_mult, PN_div, PN_rem, PN_bitn, PN_bitl, PN_bitr;
-extern PN PN_cmp, PN_number, PN_name, PN_length, PN_size, PN_STR0;
-extern PN PN_extern, PN_integer;
-extern PN pn_filenames;
+extern PN_THREAD PN PN_add, PN_sub, PN_mult, PN_div, PN_rem, PN_bitn, PN_bitl, PN_bitr;
+extern PN_THREAD PN PN_cmp, PN_number, PN_name, PN_length, PN_size, PN_STR0;
+extern PN_THREAD PN PN_extern, PN_integer;
+extern PN_THREAD PN pn_filenames;
 
 /// zero values per type
 static inline PN potion_type_default(char type) {
diff --git a/lib/aio.c b/lib/aio.c
index bc4e4d9..7ba0c00 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -20,7 +20,7 @@
 # include "potion.h"
 #endif
 
-PNType aio_type, aio_tcp_type, aio_udp_type, aio_loop_type, aio_tty_type, aio_pipe_type, /*aio_poll_type,*/ aio_prepare_type,
+PN_THREAD PNType aio_type, aio_tcp_type, aio_udp_type, aio_loop_type, aio_tty_type, aio_pipe_type, /*aio_poll_type,*/ aio_prepare_type,
   aio_idle_type, aio_async_type, aio_timer_type, aio_fs_poll_type, aio_signal_type, aio_fs_event_type, aio_mutex_type,
   aio_rwlock_type, aio_sem_type, aio_cond_type, aio_barrier_type, aio_check_type,
   aio_handle_type, aio_process_options_type, aio_process_type, aio_stream_type, aio_req_type, aio_connect_type, aio_write_type, aio_shutdown_type,
-- 
2.43.0


From 9b56777b380f4af908cfd12d2865679b65dc9729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 65/90] fix: a string literal of 496 or 1008 bytes was one byte
 too long

---
 core/asm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/asm.c b/core/asm.c
index a27ee24..6b0e592 100644
--- a/core/asm.c
+++ b/core/asm.c
@@ -56,9 +56,10 @@ PNAsm *potion_asm_op(Potion *P, PNAsm * volatile asmb, u8 ins, int _a, int _b) {
 
 PNAsm *potion_asm_write(Potion *P, PNAsm * volatile asmb, char *str, size_t len) {
   char *ptr;
-  PN_FLEX_NEEDS(len, asmb, PN_TBYTES, PNAsm, ASM_UNIT);
+  PN_FLEX_NEEDS(len + 1, asmb, PN_TBYTES, PNAsm, ASM_UNIT);
   ptr = (char *)asmb->ptr + asmb->len;
   PN_MEMCPY_N(ptr, str, char, len);
+  ptr[len] = '\0'; // a string literal ends here
   asmb->len += len;
   return asmb;
 }
-- 
2.43.0


From 6a0966831d6feadd0383ef5f0add8f7e4f9d7c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:53 +0000
Subject: [PATCH 66/90] fix: the value of loading a library was a wild pointer

---
 core/load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/load.c b/core/load.c
index 8db00ae..7f6d7c7 100644
--- a/core/load.c
+++ b/core/load.c
@@ -98,7 +98,7 @@ static PN potion_load_dylib(Potion *P, const char *filename) {
   }
   free(init_func_name);
   func(P);
-  return PN_INT(handle);
+  return PN_NUM(handle);
 }
 
 static PN_THREAD PN pn_loader_path;
-- 
2.43.0


From 9635570dc9a7bd55f0e4ed4f651a3ed0c2dd5a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:03 +0000
Subject: [PATCH 67/90] fix: closing a database from a row callback lost the
 connection, still open

---
 lib/database.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/database.c b/lib/database.c
index b6e1eab..f073b02 100644
--- a/lib/database.c
+++ b/lib/database.c
@@ -137,7 +137,9 @@ PN potion_sqlite_gettable(Potion *P, PN cl, PN self, PN query) {
 PN potion_sqlite_close(Potion *P, PN cl, PN self) {
   struct PNDatabase *db = (struct PNDatabase *)self;
   if (db->db) {
-    sqlite3_close(db->db);
+    // busy while a statement runs: closing from its callback
+    if (sqlite3_close(db->db) != SQLITE_OK)
+      return potion_io_error(P, "close");
     db->db = NULL;
   }
   return self;
@@ -150,7 +152,8 @@ PN potion_sqlite_open(Potion *P, PN cl, PN self, PN path) {
     return PN_NIL;
   }
   if (db->db) {
-    potion_sqlite_close(P, cl, self);
+    PN closed = potion_sqlite_close(P, cl, self);
+    if (closed != self) return closed;
   }
   sqlite3 *sdb;
   int rc = sqlite3_open(PN_STR_PTR(path), &sdb);
-- 
2.43.0


From 4de43381cf65fc9e3b4241f032271b8e6eec6d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:45 +0000
Subject: [PATCH 68/90] fix: refreshing the line looped forever on a terminal
 of unknown width

---
 lib/readline/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index f66f676..c7e5a7a 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -367,7 +367,7 @@ static int getColumns(void) {
 #else
     struct winsize ws;
 
-    if (ioctl(1, TIOCGWINSZ, &ws) == -1) return 80;
+    if (ioctl(1, TIOCGWINSZ, &ws) == -1 || ws.ws_col == 0) return 80;
     return ws.ws_col;
 #endif
 }
-- 
2.43.0


From b64ee91b5d270c0daa0f7aedd40f8200a5af84e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:22 +0000
Subject: [PATCH 69/90] fix: end of input on a terminal gave empty lines for
 ever

---
 lib/readline/linenoise.c | 46 +++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index c7e5a7a..46261ef 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -439,6 +439,20 @@ static void freeCompletions(linenoiseCompletions *lc) {
         free(lc->cvec);
 }
 
+/* Returns 1, 0 at the end of the input, or -1. */
+static int readByte(int fd, char *c) {
+    int nread;
+
+    do nread = (int)read(fd,c,1); while (nread == -1 && errno == EINTR);
+    return nread;
+}
+
+/* The line being edited is the latest history entry until it is entered. */
+static void dropCurrentEntry(void) {
+    history_len--;
+    free(history[history_len]);
+}
+
 static int completeLine(int fd, const char *prompt, char *buf, size_t buflen, size_t *len, size_t *pos, size_t cols) {
     linenoiseCompletions lc = { 0, NULL };
     int nread, nwritten;
@@ -460,7 +474,7 @@ static int completeLine(int fd, const char *prompt, char *buf, size_t buflen, si
                 refreshLine(fd,prompt,buf,*len,*pos,cols);
             }
 
-            nread = read(fd,&c,1);
+            nread = readByte(fd,&c);
             if (nread <= 0) {
                 freeCompletions(&lc);
                 return -1;
@@ -520,7 +534,10 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
 #ifdef _WIN32
     if (!WriteConsole(hOut, prompt, (DWORD)plen, &foo, NULL)) return -1;
 #else
-    if (write(fd,prompt,plen) == -1) return -1;
+    if (write(fd,prompt,plen) == -1) {
+        dropCurrentEntry();
+        return -1;
+    }
 #endif
     while(1) {
         char c;
@@ -530,9 +547,13 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
 #ifdef _WIN32
         nread = win32read(&c);
 #else
-        nread = read(fd,&c,1);
+        nread = readByte(fd,&c);
 #endif
-        if (nread <= 0) return (int)len;
+        if (nread <= 0) {
+            /* the line so far, if there is one */
+            dropCurrentEntry();
+            return len > 0 ? (int)len : -1;
+        }
 
         /* Only autocomplete when the callback is set. It returns < 0 when
          * there was an error reading from fd. Otherwise it will return the
@@ -540,17 +561,20 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
         if (c == 9 && completionCallback != NULL) {
             c = completeLine(fd,prompt,buf,buflen,&len,&pos,cols);
             /* Return on errors */
-            if (c < 0) return (int)len;
+            if (c < 0) {
+                dropCurrentEntry();
+                return len > 0 ? (int)len : -1;
+            }
             /* Read next character when 0 */
             if (c == 0) continue;
         }
 
         switch(c) {
         case 13:    /* enter */
-            history_len--;
-            free(history[history_len]);
+            dropCurrentEntry();
             return (int)len;
         case 3:     /* ctrl-c */
+            dropCurrentEntry();
             errno = EAGAIN;
             return -1;
         case 127:   /* backspace */
@@ -581,8 +605,7 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
                 buf[len] = '\0';
                 refreshLine(fd,prompt,buf,len,pos,cols);
             } else if (len == 0) {
-                history_len--;
-                free(history[history_len]);
+                dropCurrentEntry();
                 return -1;
             }
             break;
@@ -671,7 +694,10 @@ up_down_arrow:
 #ifdef _WIN32
                         if (!WriteConsole(hOut, &c, 1, &foo, NULL)) return -1;
 #else
-                        if (write(fd,&c,1) == -1) return -1;
+                        if (write(fd,&c,1) == -1) {
+                            dropCurrentEntry();
+                            return -1;
+                        }
 #endif
                     } else {
                         refreshLine(fd,prompt,buf,len,pos,cols);
-- 
2.43.0


From c1bfdefd485f1bd63cf3d2cb03ad7571806098b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 70/90] fix: an escape sequence that arrived in pieces, or with
 keys behind it, was taken for other keys

---
 lib/readline/linenoise.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index 46261ef..f9bb077 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -542,7 +542,7 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
     while(1) {
         char c;
         int nread;
-        char seq[2], seq2[2];
+        char seq[2], seq2;
 
 #ifdef _WIN32
         nread = win32read(&c);
@@ -630,7 +630,10 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
             goto up_down_arrow;
             break;
         case 27:    /* escape sequence */
-            if (read(fd,seq,2) == -1) break;
+            /* the sequence may arrive in pieces, or with more keys behind it */
+            if (readByte(fd,&seq[0]) <= 0) break;
+            if (seq[0] != 91 && seq[0] != 79) break;
+            if (readByte(fd,&seq[1]) <= 0) break;
             if (seq[0] == 91 && seq[1] == 68) {
 left_arrow:
                 /* left arrow */
@@ -667,10 +670,12 @@ up_down_arrow:
                     len = pos = strlen(buf);
                     refreshLine(fd,prompt,buf,len,pos,cols);
                 }
-            } else if (seq[0] == 91 && seq[1] > 48 && seq[1] < 55) {
+            } else if (seq[0] == 91 && seq[1] >= 48 && seq[1] <= 57) {
                 /* extended escape */
-                if (read(fd,seq2,2) == -1) break;
-                if (seq[1] == 51 && seq2[0] == 126) {
+                do {
+                    if (readByte(fd,&seq2) <= 0) seq2 = 0;
+                } while (seq2 >= 48 && seq2 <= 59);
+                if (seq[1] == 51 && seq2 == 126) {
                     /* delete */
                     if (len > 0 && pos < len) {
                         memmove(buf+pos,buf+pos+1,len-pos-1);
-- 
2.43.0


From c0c52797e78e7b3aa45c08508a7e6759d93ded96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:34 +0000
Subject: [PATCH 71/90] fix: ctrl-d did not delete the last character of the
 line

---
 lib/readline/linenoise.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index f9bb077..a83c74e 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -599,7 +599,7 @@ static int linenoisePrompt(int fd, char *buf, size_t buflen, const char *prompt)
             }
             break;
         case 4:     /* ctrl-d, remove char at right of cursor */
-            if (len > 1 && pos < (len-1)) {
+            if (pos < len) {
                 memmove(buf+pos,buf+pos+1,len-pos);
                 len--;
                 buf[len] = '\0';
-- 
2.43.0


From 25a88b3508d423abeacd303c19871dfac7859a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:11 +0000
Subject: [PATCH 72/90] fix: a failed or interrupted save lost the line history

---
 lib/readline/linenoise.c | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index a83c74e..d81065c 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -88,6 +88,7 @@
   #include <termios.h>
   #include <unistd.h>
   #include <sys/ioctl.h>
+  #include <sys/stat.h>
 #endif
 #include <stdlib.h>
 #include <stdio.h>
@@ -863,18 +864,41 @@ int linenoiseHistorySetMaxLen(int len) {
 /* Save the history in the specified file. On success 0 is returned
  * otherwise -1 is returned. */
 int linenoiseHistorySave(char *filename) {
+    /* written beside the old one, which stays until the new one is whole */
+    char *tmp = malloc(strlen(filename)+5);
+    FILE *fp;
+    int j, failed;
+#ifndef _WIN32
+    struct stat st;
+#endif
+    
+    if (tmp == NULL) return -1;
+    sprintf(tmp,"%s.tmp",filename);
 #ifdef _WIN32
-    FILE *fp = fopen(filename,"wb");
+    fp = fopen(tmp,"wb");
 #else
-    FILE *fp = fopen(filename,"w");
+    fp = fopen(tmp,"w");
+#endif
+    if (fp == NULL) {
+        free(tmp);
+        return -1;
+    }
+#ifndef _WIN32
+    if (stat(filename,&st) == 0) fchmod(fileno(fp),st.st_mode & 0777);
 #endif
-    int j;
-    
-    if (fp == NULL) return -1;
     for (j = 0; j < history_len; j++)
         fprintf(fp,"%s\n",history[j]);
-    fclose(fp);
-    return 0;
+    failed = ferror(fp);
+    if (fclose(fp) != 0) failed = 1;
+#ifdef _WIN32
+    if (!failed) remove(filename);
+#endif
+    if (failed || rename(tmp,filename) != 0) {
+        remove(tmp);
+        failed = 1;
+    }
+    free(tmp);
+    return failed ? -1 : 0;
 }
 
 /* Load the history from the specified file. If the file does not exist
-- 
2.43.0


From 3f68785bb00bfaec9d38831acc669f7e7e375a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:49 +0000
Subject: [PATCH 73/90] fix: each line entered doubled the history, an
 unreadable one was replaced

---
 lib/readline/linenoise.c | 35 +++++++++++++++++++++++++++--------
 lib/readline/readline.c  | 10 +++++++---
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index d81065c..0fe882b 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -908,18 +908,37 @@ int linenoiseHistorySave(char *filename) {
  * on error -1 is returned. */
 int linenoiseHistoryLoad(char *filename) {
     FILE *fp = fopen(filename,"r");
-    char buf[LINENOISE_MAX_LINE];
+    char chunk[LINENOISE_MAX_LINE], *text = NULL, *line, *next, *p;
+    size_t len = 0, n;
+    int failed = 0;
     
     if (fp == NULL) return -1;
 
-    while (fgets(buf,LINENOISE_MAX_LINE,fp) != NULL) {
-        char *p;
-        
-        p = strchr(buf,'\r');
-        if (!p) p = strchr(buf,'\n');
-        if (p) *p = '\0';
-        linenoiseHistoryAdd(buf);
+    while (!failed && (n = fread(chunk,1,sizeof(chunk),fp)) > 0) {
+        p = realloc(text,len+n+1);
+        if (p == NULL) {
+            failed = ENOMEM;
+            break;
+        }
+        text = p;
+        memcpy(text+len,chunk,n);
+        len += n;
+        text[len] = 0;
     }
+    if (ferror(fp)) failed = EIO;
     fclose(fp);
+    /* all of it or nothing */
+    for (line = text; !failed && line && line < text+len; line = next) {
+        next = strchr(line,'\n');
+        if (next) *next++ = 0; else next = text+len;
+        p = strchr(line,'\r');
+        if (p) *p = 0;
+        linenoiseHistoryAdd(line);
+    }
+    free(text);
+    if (failed) {
+        errno = failed;
+        return -1;
+    }
     return 0;
 }
diff --git a/lib/readline/readline.c b/lib/readline/readline.c
index 920d595..6033b06 100644
--- a/lib/readline/readline.c
+++ b/lib/readline/readline.c
@@ -1,16 +1,20 @@
 #include <stdlib.h>
 #include <stdio.h>
+#include <errno.h>
 #include <potion.h>
 #include "linenoise.h"
 
 PN pn_readline(Potion *P, PN cl, PN self, PN start) {
-  char *line = linenoise(PN_STR_PTR(start));
+  static int loaded = 0;
+  char *line;
   PN r;
+  if (!loaded) // a history that could not be read is not replaced
+    loaded = linenoiseHistoryLoad("history.txt") == 0 || errno == ENOENT;
+  line = linenoise(PN_STR_PTR(start));
   if (line == NULL) return PN_NIL;
 
-  linenoiseHistoryLoad("history.txt");
   linenoiseHistoryAdd(line);
-  linenoiseHistorySave("history.txt");
+  if (loaded) linenoiseHistorySave("history.txt");
   r = potion_str(P, line);
   free(line);
   return r;
-- 
2.43.0


From 67f39494dfcf2b70f1ab8116e9bc74cd7f002337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:26 +0000
Subject: [PATCH 74/90] fix: the terminal was left in raw mode after a refused
 or interrupted mode change

---
 lib/readline/linenoise.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/readline/linenoise.c b/lib/readline/linenoise.c
index 0fe882b..efd4f37 100644
--- a/lib/readline/linenoise.c
+++ b/lib/readline/linenoise.c
@@ -278,7 +278,8 @@ static int enableRawMode(int fd) {
         atexit(linenoiseAtExit);
         atexit_registered = 1;
     }
-    if (tcgetattr(fd,&orig_termios) == -1) goto fatal;
+    /* still raw, if an earlier mode could not be put back */
+    if (!rawmode && tcgetattr(fd,&orig_termios) == -1) goto fatal;
 
     raw = orig_termios;  /* modify the original mode */
     /* input modes: no break, no CR to NL, no parity check, no strip char,
@@ -296,7 +297,8 @@ static int enableRawMode(int fd) {
     raw.c_cc[VMIN] = 1; raw.c_cc[VTIME] = 0; /* 1 byte, no timer */
 
     /* put terminal in raw mode after flushing */
-    if (tcsetattr(fd,TCSAFLUSH,&raw) < 0) goto fatal;
+    while (tcsetattr(fd,TCSAFLUSH,&raw) < 0)
+        if (errno != EINTR) goto fatal;
     rawmode = 1;
 #else
     NOTUSED(fd);
@@ -342,8 +344,12 @@ static void disableRawMode(int fd) {
     rawmode = 0;
 #else
     /* Don't even check the return value as it's too late. */
-    if (rawmode && tcsetattr(fd,TCSAFLUSH,&orig_termios) != -1)
-        rawmode = 0;
+    while (rawmode) {
+        if (tcsetattr(fd,TCSAFLUSH,&orig_termios) != -1)
+            rawmode = 0;
+        else if (errno != EINTR)
+            break;
+    }
 #endif
 }
 
-- 
2.43.0


From 9ead78d066d9324adb13d31275e256546985051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:42 +0000
Subject: [PATCH 75/90] fix: evaluating a text that does not parse ended the
 program

---
 core/syntax.y | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/core/syntax.y b/core/syntax.y
index 2c2d8ee..ae12324 100644
--- a/core/syntax.y
+++ b/core/syntax.y
@@ -397,6 +397,16 @@ PN_SIZE potion_parser_values(struct _GREG *G, volatile PN **cur, volatile PN **v
   return G->vals ? G->valslen : 0;
 }
 
+// unlike yyerror this does not look for the rest of the line on stdin
+static void parse_error(GREG *G, const char *message) {
+  fputs(message, stderr);
+  if (G->text[0]) fprintf(stderr, " near token '%s'", G->text);
+  fprintf(stderr, " before text \"");
+  while (G->pos < G->limit && G->buf[G->pos] && G->buf[G->pos] != '\n' && G->buf[G->pos] != '\r')
+    fputc(G->buf[G->pos++], stderr);
+  fprintf(stderr, "\" at %s:%d\n", G->filename, G->lineno);
+}
+
 PN potion_parse(Potion *P, PN code, char *filename) {
   POTION_SIM_QUIET;
   GREG *G = YY_NAME(parse_new)(P);
@@ -418,10 +428,9 @@ PN potion_parse(Potion *P, PN code, char *filename) {
   P->fileno = PN_PUT(pn_filenames, PN_STR(filename));
 
   if (!YY_NAME(parse)(G) || ((struct PNSource *)(P->source))->part != AST_CODE) {
-    vPN(Bytes) s = (vPN(Bytes)) code;
-    YY_ERROR("** Syntax error");
-    if (s->len > 80) s->chars[80] = '\0';
-    fprintf(stderr, "%s", s->chars);
+    parse_error(G, "** Syntax error");
+    // a program is given up, an evaluated text is nil
+    if (strcmp(filename, "<eval>")) exit(1);
     P->source = PN_NIL;
   }
   P->mem->parser = oldparser;
-- 
2.43.0


From 25686468ef9f0713dd2b8bb5bdf542c9f02b34ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:57 +0000
Subject: [PATCH 76/90] fix: the register of a constructor or a block argument
 was not counted, the JIT lost it

---
 core/compile.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/compile.c b/core/compile.c
index f02a54e..656bb8d 100644
--- a/core/compile.c
+++ b/core/compile.c
@@ -421,6 +421,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
         }
         DBG_c("; call %d %d VALUE\n", reg, breg);
         PN_ASM2(OP_CALL, reg, breg);
+        PN_REG(f, breg);
       }
     }
     break;
@@ -661,6 +662,7 @@ void potion_source_asmb(Potion *P, struct PNProto * volatile f, struct PNLoop *l
           PN_BLOCK(breg, (PN)blk, PN_S(t,1));
         }
         PN_ASM2(OP_CLASS, reg, breg);
+        PN_REG(f, breg);
 #ifdef WITH_EXTERN
       } else if (t->part == AST_MSG && PN_S(t,0) == PN_extern) { // ffi
         //u8 breg = reg;
-- 
2.43.0


From 9a505003dc6f920f6ca81424c1069b9851024ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:02 +0000
Subject: [PATCH 77/90] fix: the collector freed or moved event-loop handles,
 requests and their callbacks

---
 lib/aio.c | 108 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 71 insertions(+), 37 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index 7ba0c00..274ad20 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -34,7 +34,7 @@ typedef struct aio_##T##_s aio_##T##_t; \
 struct aio_##T##_s {     \
   struct uv_##H##_s r;   \
   Potion *P;             \
-  struct PNClosure *cb;	 \
+  PN cb; /* slot of the closure, see aio_cb */ \
 }
 //without
 #define DEF_AIO_HANDLE_WRAP(T) \
@@ -42,7 +42,7 @@ typedef struct aio_##T##_s aio_##T##_t; \
 struct aio_##T##_s {     \
   uv_##T##_t h;          \
   Potion *P;             \
-  struct PNClosure *cb;	 \
+  PN cb; /* slot of the closure, see aio_cb */ \
 }
 typedef uv_buf_t aio_buf_t;
 DEF_AIO_CB_WRAP(write);
@@ -90,6 +90,24 @@ DEF_AIO_HANDLE_WRAP(rwlock);
 #undef DEF_AIO_HANDLE_WRAP
 #undef DEF_AIO_CB_WRAP1
 
+// the collector does not trace the handles: their closures are kept in a global list
+static PN aio_cbs(Potion *P) {
+  return potion_message(P, P->lobby, PN_STR("Aio_callbacks"));
+}
+static void aio_cb_set(Potion *P, PN *slot, PN cb) {
+  PN cbs = aio_cbs(P);
+  if (*slot) {
+    PN_TUPLE_AT(cbs, PN_INT(*slot)) = cb;
+    PN_TOUCH(cbs);
+  } else {
+    *slot = PN_NUM(PN_TUPLE_LEN(cbs));
+    PN_PUSH(cbs, cb);
+  }
+}
+static struct PNClosure *aio_cb(Potion *P, PN slot) {
+  return slot ? PN_CLOSURE(PN_TUPLE_AT(aio_cbs(P), PN_INT(slot))) : NULL;
+}
+
 #ifndef SANDBOX
 /**\memberof Aio_fs_event
   The aio_fs_event callback will receive the following arguments:
@@ -100,13 +118,22 @@ DEF_AIO_HANDLE_WRAP(rwlock);
 static void
 aio_fs_event_cb(uv_fs_event_t* handle, const char* filename, int events, int status) {
   struct aio_fs_event_s* wrap = (struct aio_fs_event_s*)handle;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb(wrap->P, wrap->cb);
   char *data = (char*)(&wrap - sizeof(struct PNData) + sizeof(char*));
   if (cb) cb->method(wrap->P, (PN)cb, (PN)data, potion_str(wrap->P, filename),
 		     PN_NUM(events), PN_NUM(status));
 }
 #endif
 
+/// libuv keeps the address of its handles and requests, so they must not move
+static struct PNData *aio_data_alloc(Potion *P, int siz) {
+  struct PNData *data = calloc(1, sizeof(struct PNData) + siz);
+  if (data == NULL) potion_allocation_error();
+  data->vt = PN_TUSER;
+  data->siz = siz;
+  return data;
+}
+
 static PN aio_error(Potion *P, char *name, int status) {
   return potion_error(P, potion_str_format(P, "Error %s: %s", name,
                                            uv_strerror(status)), 0, 0, 0);
@@ -114,7 +141,7 @@ static PN aio_error(Potion *P, char *name, int status) {
 
 #define DEF_AIO_NEW(T)                          \
   uv_##T##_t *handle;				\
-  struct PNData * volatile data = potion_data_alloc(P, sizeof(aio_##T##_t)); \
+  struct PNData * volatile data = aio_data_alloc(P, sizeof(aio_##T##_t)); \
   data->vt = aio_##T##_type;			\
   handle = (uv_##T##_t*)PN_DATA(data);          \
   ((aio_##T##_t*)handle)->P = P
@@ -132,7 +159,7 @@ static PN aio_error(Potion *P, char *name, int status) {
 #define AIO_CB_SET(T,ARG)	\
   uv_##T##_cb T##_cb;		\
   if (PN_IS_CLOSURE(cb)) {	\
-    (ARG)->cb = PN_CLOSURE(cb); \
+    aio_cb_set(P, &(ARG)->cb, cb); \
     T##_cb = aio_##T##_cb;	\
   }				\
   else if (PN_IS_FFIPTR(cb))    \
@@ -141,7 +168,7 @@ static PN aio_error(Potion *P, char *name, int status) {
 #define AIO_CB_SET_CAST(T,ARG)  \
   uv_##T##_cb T##_cb;		\
   if (PN_IS_CLOSURE(cb)) {	\
-    ((aio_##T##_t*)ARG)->cb = PN_CLOSURE(cb); \
+    aio_cb_set(P, &((aio_##T##_t*)ARG)->cb, cb); \
     T##_cb = aio_##T##_cb;	\
   }				\
   else if (PN_IS_FFIPTR(cb))    \
@@ -199,14 +226,14 @@ static PN aio_error(Potion *P, char *name, int status) {
 //cb wrappers
 #define DEF_AIO_CB(T)				       \
   aio_##T##_t* wrap = (aio_##T##_t*)req;	       \
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);              \
+  vPN(Closure) cb = aio_cb(wrap->P, wrap->cb);              \
   PN data = (PN)((char*)wrap - sizeof(struct PNData)); \
   Potion *P = wrap->P;    \
   FATAL_AIO_TYPE(data,T); \
   if (cb) cb->method(P, (PN)cb, data, PN_NUM(status))
 #define DEF_AIO_CB_NOSTATUS(T)			       \
   aio_##T##_t* wrap = (aio_##T##_t*)req;	       \
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);              \
+  vPN(Closure) cb = aio_cb(wrap->P, wrap->cb);              \
   PN data = (PN)((char*)wrap - sizeof(struct PNData)); \
   Potion *P = wrap->P;    \
   FATAL_AIO_TYPE(data,T); \
@@ -215,7 +242,7 @@ static PN aio_error(Potion *P, char *name, int status) {
 static void
 aio_getaddrinfo_cb(uv_getaddrinfo_t* req, int status, struct addrinfo* res) {
   aio_getaddrinfo_t* wrap = (aio_getaddrinfo_t*)req;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   FATAL_AIO_TYPE(data,getaddrinfo);
@@ -235,7 +262,7 @@ static PN aio_tcp_new(Potion *P, PN cl, PN self, PN loop) {
   int r;
   uv_loop_t* l;
   uv_tcp_t *handle;
-  struct PNData * volatile data = potion_data_alloc(P, sizeof(aio_tcp_t));
+  struct PNData * volatile data = aio_data_alloc(P, sizeof(aio_tcp_t));
   data->vt = aio_tcp_type;
   handle = (uv_tcp_t*)PN_DATA(data);
   ((aio_tcp_t*)handle)->P = P;
@@ -259,7 +286,7 @@ static PN aio_udp_new(Potion *P, PN cl, PN self, PN loop) {
   int r;
   uv_loop_t* l;
   uv_udp_t *handle;
-  struct PNData * volatile data = potion_data_alloc(P, sizeof(aio_udp_t));
+  struct PNData * volatile data = aio_data_alloc(P, sizeof(aio_udp_t));
   data->vt = aio_udp_type;
   handle = (uv_udp_t*)PN_DATA(data);
   ((aio_udp_t*)handle)->P = P;
@@ -621,7 +648,7 @@ aio_async_cb(uv_async_t* req) {
 }
 static PN aio_async_new(Potion *P, PN cl, PN self, PN cb, PN loop) {
   DEF_AIO_NEW_LOOP(async);
-  AIO_CB_SET(async,(aio_tcp_t*)data);
+  AIO_CB_SET(async,(aio_async_t*)handle);
   int r = uv_async_init(l, handle, async_cb);
   if (r) return aio_error(P, "Aio_async", r);
   return (PN)data;
@@ -655,7 +682,7 @@ aio_connect_cb(uv_connect_t* req, int status) {
   DEF_AIO_CB(connect);
 #else
   aio_connect_t* wrap = (aio_connect_t*)req;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   //FATAL_AIO_TYPE(data,connect); //=>
@@ -707,7 +734,7 @@ aio_signal_cb(uv_signal_t* req, int status) { //signum really
 static void
 aio_fs_poll_cb(uv_fs_poll_t* handle, int status, const uv_stat_t* prev, const uv_stat_t* curr) {
   aio_fs_poll_t* wrap = (aio_fs_poll_t*)handle;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   CHECK_AIO_TYPE(data,fs_poll);
@@ -721,7 +748,7 @@ aio_fs_poll_cb(uv_fs_poll_t* handle, int status, const uv_stat_t* prev, const uv
 static void
 aio_fs_cb(uv_fs_t* req) {
   aio_fs_t* wrap = (aio_fs_t*)req;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   FATAL_AIO_TYPE(data,fs);
@@ -732,7 +759,7 @@ aio_fs_cb(uv_fs_t* req) {
 static void
 aio_read_cb(uv_stream_t* stream, ssize_t nread, const uv_buf_t* buf) {
   aio_stream_t* wrap = (aio_stream_t*)stream;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   FATAL_AIO_STREAM(data);
@@ -743,7 +770,7 @@ aio_read_cb(uv_stream_t* stream, ssize_t nread, const uv_buf_t* buf) {
 static void
 aio_walk_cb(uv_handle_t* handle, void *arg) {
   aio_handle_t* wrap = (aio_handle_t*)handle;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   FATAL_AIO_TYPE(data,handle);
@@ -752,7 +779,7 @@ aio_walk_cb(uv_handle_t* handle, void *arg) {
 static void
 aio_close_cb(uv_handle_t* handle) {
   aio_handle_t* wrap = (aio_handle_t*)handle;
-  vPN(Closure) cb = PN_CLOSURE(wrap->cb);
+  vPN(Closure) cb = aio_cb(wrap->P, wrap->cb);
   PN data = (PN)((char*)wrap - sizeof(struct PNData));
   Potion *P = wrap->P;
   FATAL_AIO_TYPE(data,handle);
@@ -1810,13 +1837,15 @@ void Potion_Init_aio(Potion *P) {
   PN aio_vt = potion_class(P, 0, 0, 0);
   aio_type = potion_class_type(P, aio_vt);
   potion_define_global(P, PN_STR("Aio"), aio_vt);
+  potion_define_global(P, PN_STR("Aio_callbacks"), PN_TUP0());
 #define DEF_AIO__VT(T,paren) \
   PN aio_##T##_vt = potion_class(P, 0, paren##_vt, 0);	\
   aio_##T##_type = potion_class_type(P, aio_##T##_vt); \
   potion_define_global(P, PN_STR("Aio_" _XSTR(T)), aio_##T##_vt); \
   potion_method(aio_##T##_vt, ""_XSTR(T), aio_##T##_new, 0)
 #define DEF_AIO_CTOR(T) \
-  potion_type_constructor_is(aio_##T##_vt, PN_FUNC(aio_##T##_new, 0));
+  potion_type_constructor_is(aio_##T##_vt, PN_FUNC(aio_##T##_new, 0)); \
+  PN_TOUCH(aio_##T##_vt)
 #define DEF_AIO_VT(T,paren) \
   PN aio_##T##_vt = potion_class(P, 0, paren##_vt, 0);	\
   aio_##T##_type = potion_class_type(P, aio_##T##_vt); \
@@ -1826,6 +1855,7 @@ void Potion_Init_aio(Potion *P) {
 #define DEF_AIO_GLOBAL_VT(T,paren,args) \
   DEF_AIO__VT(T,paren); \
   potion_type_constructor_is(aio_##T##_vt, PN_FUNC(aio_##T##_new, args)); \
+  PN_TOUCH(aio_##T##_vt); \
   potion_method(P->lobby, "Aio_"_XSTR(T), aio_##T##_new, args)
 #define DEF_AIO_NUM_GLOBAL(name) \
   potion_define_global(P, PN_STR("AIO_"_XSTR(name)), PN_NUM(UV_##name))
@@ -1900,46 +1930,50 @@ void Potion_Init_aio(Potion *P) {
   DEF_AIO_VT(stream,aio);
   DEF_AIO_GLOBAL_VT(tcp,aio_stream,"|loop=o");
   //DEF_AIO_GLOBAL_VT(udp,aio_stream,"|loop=o");
-  PN udp_ivars = potion_tuple_with_size(P, 5); //sorted list of path names
-  int i = 0;
-  vPN(Tuple) t = PN_GET_TUPLE(udp_ivars);
-  t->set[i++] = PN_STR("broadcast");
-  t->set[i++] = PN_STR("membership");
-  t->set[i++] = PN_STR("multicast_loop");
-  t->set[i++] = PN_STR("multicast_ttl");
-  t->set[i++] = PN_STR("ttl");
+  PN udp_ivars = PN_TUP0(); //sorted list of path names
+  udp_ivars = PN_PUSH(udp_ivars, PN_STR("broadcast"));
+  udp_ivars = PN_PUSH(udp_ivars, PN_STR("membership"));
+  udp_ivars = PN_PUSH(udp_ivars, PN_STR("multicast_loop"));
+  udp_ivars = PN_PUSH(udp_ivars, PN_STR("multicast_ttl"));
+  udp_ivars = PN_PUSH(udp_ivars, PN_STR("ttl"));
   PN aio_udp_vt = potion_class(P, 0, aio_stream_vt, udp_ivars);
   aio_udp_type = potion_class_type(P, aio_udp_vt);
   potion_define_global(P, PN_STR("Aio_udp"), aio_udp_vt);
   //potion_method(aio_udp_vt, "udp", aio_udp_new, 0);
   potion_type_call_is(aio_udp_vt, PN_FUNC(aio_udp_get, "key=S"));
+  PN_TOUCH(aio_udp_vt);
   potion_type_callset_is(aio_udp_vt, PN_FUNC(aio_udp_set, "key=S,value=o"));
+  PN_TOUCH(aio_udp_vt);
   potion_type_constructor_is(aio_udp_vt, PN_FUNC(aio_udp_new, "|loop=o"));
+  PN_TOUCH(aio_udp_vt);
   potion_method(P->lobby, "Aio_udp", aio_udp_new, "|loop=o");
 
 #ifndef SANDBOX
-  PN po_ivars = potion_tuple_with_size(P, 5); //sorted list of path names
-  t = PN_GET_TUPLE(po_ivars); i = 0;
-  t->set[i++] = PN_STR("args");
-  t->set[i++] = PN_STR("cwd");
-  t->set[i++] = PN_STR("env");
-  t->set[i++] = PN_STR("exit_cb");
-  t->set[i++] = PN_STR("flags");
-  t->set[i++] = PN_STR("gid");
-  t->set[i++] = PN_STR("stdio");
-  t->set[i++] = PN_STR("uid");
+  PN po_ivars = PN_TUP0(); //sorted list of path names
+  po_ivars = PN_PUSH(po_ivars, PN_STR("args"));
+  po_ivars = PN_PUSH(po_ivars, PN_STR("cwd"));
+  po_ivars = PN_PUSH(po_ivars, PN_STR("env"));
+  po_ivars = PN_PUSH(po_ivars, PN_STR("exit_cb"));
+  po_ivars = PN_PUSH(po_ivars, PN_STR("flags"));
+  po_ivars = PN_PUSH(po_ivars, PN_STR("gid"));
+  po_ivars = PN_PUSH(po_ivars, PN_STR("stdio"));
+  po_ivars = PN_PUSH(po_ivars, PN_STR("uid"));
   PN aio_po_vt = potion_class(P, 0, aio_vt, po_ivars);
   aio_process_options_type = potion_class_type(P, aio_po_vt);
   potion_define_global(P, PN_STR("Aio_process_options"), aio_po_vt);
   potion_type_call_is(aio_po_vt, PN_FUNC(aio_process_options_get, "key=S"));
+  PN_TOUCH(aio_po_vt);
   potion_type_callset_is(aio_po_vt, PN_FUNC(aio_process_options_set, "key=S,value=o"));
+  PN_TOUCH(aio_po_vt);
   potion_type_constructor_is(aio_po_vt, PN_FUNC(aio_process_options, 0));
+  PN_TOUCH(aio_po_vt);
   potion_method(P->lobby, "Aio_process_options", aio_process_options, 0);
 
   PN aio_process_vt = potion_class(P, 0, aio_vt, 0); // with spawn as ctor
   aio_process_type = potion_class_type(P, aio_process_vt);
   potion_define_global(P, PN_STR("Aio_process"), aio_process_vt);
   potion_type_constructor_is(aio_process_vt, PN_FUNC(aio_spawn, "options=o|loop=o"));
+  PN_TOUCH(aio_process_vt);
   potion_method(P->lobby, "aio_spawn", aio_spawn, "options=o|loop=o");
   DEF_AIO_GLOBAL_VT(fs_event,aio,"|loop=o"); //"filename=S,cb=o,flags=N");
   DEF_AIO_GLOBAL_VT(fs_poll,aio,"|loop=o");
-- 
2.43.0


From 625a683c1922da8e0569fc5cce6d44a08f5f3705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 78/90] fix: the check for a string or bytes refused both, no
 stream could be written to

---
 core/potion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/potion.h b/core/potion.h
index 20754bf..36e3b21 100644
--- a/core/potion.h
+++ b/core/potion.h
@@ -185,7 +185,7 @@ struct PNVtable;
 			  || (!PN_IS_PTR(p) && p > (_PN)P->mem->birth_hi))
 
 #define PN_CHECK_STR(obj)  if (!PN_IS_STR(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "String")
-#define PN_CHECK_STRB(obj) if (!PN_IS_STR(obj) || (PN_TYPE(obj) != PN_TBYTES)) return potion_type_error_want(P, ""#obj, (PN)obj, "String or Bytes")
+#define PN_CHECK_STRB(obj) if (!PN_IS_STR(obj) && (PN_TYPE(obj) != PN_TBYTES)) return potion_type_error_want(P, ""#obj, (PN)obj, "String or Bytes")
 #define PN_CHECK_NUM(obj)  if (!PN_IS_NUM(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "Number")
 #define PN_CHECK_INT(obj)  if (!PN_IS_INT(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "Integer")
 #define PN_CHECK_DBL(obj)  if (!PN_IS_DBL(obj)) return potion_type_error_want(P, ""#obj, (PN)obj, "Double")
-- 
2.43.0


From de0d6d68d068638bf0f20823b9a8b1f1af85bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:22 +0000
Subject: [PATCH 79/90] fix: a read handed over the whole buffer, written
 strings moved before they were sent

---
 lib/aio.c | 51 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index 274ad20..3207ce9 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -674,6 +674,8 @@ static PN aio_rwlock_new(Potion *P, PN cl, PN self) {
 
 static void
 aio_write_cb(uv_write_t* req, int status) {
+  free(req->data); // the written bytes, see aio_write_buf
+  req->data = NULL;
   DEF_AIO_CB(write);
 }
 static void
@@ -765,7 +767,8 @@ aio_read_cb(uv_stream_t* stream, ssize_t nread, const uv_buf_t* buf) {
   FATAL_AIO_STREAM(data);
   if (cb)
     cb->method(P, (PN)cb, (PN)data, PN_NUM(nread),
-               potion_byte_str2(wrap->P, buf->base, buf->len));
+               potion_byte_str2(wrap->P, buf->base, nread > 0 ? nread : 0));
+  free(buf->base);
 }
 static void
 aio_walk_cb(uv_handle_t* handle, void *arg) {
@@ -1095,9 +1098,9 @@ aio_udp_send6(Potion *P, PN cl, PN udp, PN req, PN buf, PN bufcnt, PN addr, PN p
 
 static void
 aio_alloc_cb(uv_handle_t* handle, size_t suggested_size, uv_buf_t *buf) {
-  aio_handle_t* wrap = (aio_handle_t*)handle;
-  struct PNBytes *b = potion_gc_alloc(wrap->P, PN_TBYTES, suggested_size);
-  *buf = uv_buf_init(b->chars, suggested_size);
+  // not from the collected heap: the read callback allocates while it copies
+  char *base = malloc(suggested_size);
+  *buf = uv_buf_init(base, base ? suggested_size : 0);
 }
 
 /**\memberof Aio_udp
@@ -1118,12 +1121,14 @@ aio_udp_recv_cb(uv_udp_t* handle, ssize_t nread, const uv_buf_t* buf,
     const struct sockaddr* addr, unsigned flags)
 {
   struct aio_udp_s* wrap = (struct aio_udp_s*)handle;
-  char ip[46];
-  int port;
+  char ip[46] = "";
+  int port = 0;
   struct sockaddr_in* addr_in = (struct sockaddr_in*)addr;
-  vPN(Closure) cb = PN_CLOSURE(wrap->r.recv_cb);
-  char *data = (char*)(wrap - sizeof(struct PNData));
-  if (addr_in->sin_family == AF_INET6) {
+  vPN(Closure) cb = aio_cb(wrap->P, wrap->cb);
+  PN data = (PN)((char*)wrap - sizeof(struct PNData));
+  Potion *P = wrap->P;
+  if (!addr) ; // nothing was received
+  else if (addr_in->sin_family == AF_INET6) {
     uv_ip6_name((struct sockaddr_in6*)addr, ip, 46);
     port = ((struct sockaddr_in6*)addr)->sin6_port;
   } else {
@@ -1133,9 +1138,10 @@ aio_udp_recv_cb(uv_udp_t* handle, ssize_t nread, const uv_buf_t* buf,
   //TODO: maybe reuse PNBytes with buf structure
   if (cb)
     cb->method(wrap->P, (PN)cb, (PN)data, PN_NUM(nread),
-	       potion_byte_str2(wrap->P, buf->base, buf->len),
+	       potion_byte_str2(wrap->P, buf->base, nread > 0 ? nread : 0),
 	       potion_byte_str(wrap->P, ip),
 	       PN_NUM(port), PN_NUM(flags));
+  free(buf->base);
 }
 
 ///\memberof Aio_udp
@@ -1277,6 +1283,17 @@ aio_shutdown(Potion *P, PN cl, PN stream, PN req, PN cb) {
   return r ? aio_error(P, "shutdown", r) : stream;
 }
 
+// libuv may write later, when the collector has moved the string: give it a copy
+static aio_buf_t
+aio_write_buf(uv_write_t *req, PN buf) {
+  size_t len = PN_STR_LEN(potion_fwd(buf));
+  char *base = malloc(len + 1);
+  if (base == NULL) potion_allocation_error();
+  memcpy(base, PN_STR_PTR(potion_fwd(buf)), len);
+  req->data = base;
+  return uv_buf_init(base, len);
+}
+
 /**\memberof Aio_stream
    PNString buf
    TODO: buf should be PNBytes, not PNData wrapping uv_buf_t
@@ -1288,10 +1305,13 @@ aio_write(Potion *P, PN cl, PN stream, PN req, PN buf, PN bufcnt, PN cb) {
   aio_write_t *request = AIO_DATA(write,req);
   aio_buf_t bufs;
   PN_CHECK_STRB(buf);
-  bufs.base = PN_STR_PTR(buf);
-  bufs.len = PN_STR_LEN(buf);
   AIO_CB_SET(write,request);
+  bufs = aio_write_buf(&request->r, buf);
   int r = uv_write(&request->r, &stm->r, &bufs, PN_INT(bufcnt), write_cb);
+  if (r) {
+    free(request->r.data);
+    request->r.data = NULL;
+  }
   return r ? aio_error(P, "write", r) : stream;
 }
 ///\memberof Aio_stream
@@ -1358,10 +1378,13 @@ aio_write2(Potion *P, PN cl, PN stream, PN req, PN buf, PN bufcnt, PN send_handl
   aio_buf_t bufs;
   PN_CHECK_INT(bufcnt);
   PN_CHECK_STRB(buf);
-  bufs.base = PN_STR_PTR(buf);
-  bufs.len = PN_STR_LEN(buf);
   AIO_CB_SET(write,request);
+  bufs = aio_write_buf(&request->r, buf);
   int r = uv_write2(&request->r, &stm->r, &bufs, PN_INT(bufcnt), &handle->r, write_cb);
+  if (r) {
+    free(request->r.data);
+    request->r.data = NULL;
+  }
   return r ? aio_error(P, "write", r) : stream;
 }
 /** \memberof Aio_stream
-- 
2.43.0


From 780508c163edb190636afedfa3cf5340f219993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:55 +0000
Subject: [PATCH 80/90] fix: ord of bytes that had grown took their old length

---
 core/string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index c0dd5a1..418432c 100644
--- a/core/string.c
+++ b/core/string.c
@@ -336,7 +336,8 @@ static PN potion_str_at(Potion *P, PN cl, PN self, PN index) {
 ///\param index int (optional, default: 0)
 ///\return PNInteger
 static PN potion_str_ord(Potion *P, PN cl, PN self, PN index) {
-  const char *str = PN_STR_PTR(potion_fwd(self));
+  self = potion_fwd(self);
+  const char *str = PN_STR_PTR(self);
   if (PN_STR_LEN(self) > 255) goto slow;
   else {
     long len = potion_cp_strlen_utf8(str);
-- 
2.43.0


From 4e7065fcb1d6b2aa675c6a0cfd769c8935ee3711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:53 +0000
Subject: [PATCH 81/90] fix: ord took the rest of the string for one character

---
 core/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/string.c b/core/string.c
index 418432c..288ca43 100644
--- a/core/string.c
+++ b/core/string.c
@@ -231,6 +231,7 @@ static unsigned long potion_utf8char_decode(const char *s) {
       byte = (byte ^ (uint8_t)(data << 4));
     }
     unic = (unic << 6) | byte;
+    if ((*s & 0xC0) != 0x80) break; // the next character
   }
   return unic;
 }
-- 
2.43.0


From 77ce6e7f40bf4f81f1fb62f4c94dfb0510b45b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:17 +0000
Subject: [PATCH 82/90] fix: ord of bytes read an index that it was not given

---
 core/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/string.c b/core/string.c
index 288ca43..d623bfa 100644
--- a/core/string.c
+++ b/core/string.c
@@ -540,6 +540,6 @@ void potion_str_init(Potion *P) {
   potion_method(byt_vt, "print", potion_bytes_print, 0);
   potion_method(byt_vt, "string", potion_bytes_string, 0);
   potion_method(byt_vt, "clone", potion_bytes_clone, 0);
-  potion_method(byt_vt, "ord", potion_str_ord, 0);
+  potion_method(byt_vt, "ord", potion_str_ord, "|index=N");
   potion_method(byt_vt, "each", potion_bytes_each, "block=&");
 }
-- 
2.43.0


From 4f2f570fa4defa873ec4f510f2fd751116d24fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:45 +0000
Subject: [PATCH 83/90] fix: a stack word that only looks like a vtable crashed
 the collector

---
 core/gc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/gc.c b/core/gc.c
index 5042a23..5856085 100644
--- a/core/gc.c
+++ b/core/gc.c
@@ -491,7 +491,7 @@ void *potion_mark_minor(Potion *P, const struct PNObject *ptr) {
       GC_MINOR_UPDATE(((struct PNFile *)ptr)->path);
     break;
     case PN_TVTABLE:
-      if (((struct PNVtable *)ptr)->parent)
+      if (PN_TYPECHECK(((struct PNVtable *)ptr)->parent)) // not if it only looks like a vtable
         GC_MINOR_UPDATE(PN_VTABLE(((struct PNVtable *)ptr)->parent));
       GC_MINOR_UPDATE(((struct PNVtable *)ptr)->name);
       GC_MINOR_UPDATE(((struct PNVtable *)ptr)->ivars);
@@ -615,7 +615,7 @@ void *potion_mark_major(Potion *P, const struct PNObject *ptr) {
       GC_MAJOR_UPDATE(((struct PNFile *)ptr)->path);
     break;
     case PN_TVTABLE:
-      if (((struct PNVtable *)ptr)->parent)
+      if (PN_TYPECHECK(((struct PNVtable *)ptr)->parent)) // not if it only looks like a vtable
         GC_MAJOR_UPDATE(PN_VTABLE(((struct PNVtable *)ptr)->parent));
       GC_MAJOR_UPDATE(((struct PNVtable *)ptr)->name);
       GC_MAJOR_UPDATE(((struct PNVtable *)ptr)->ivars);
-- 
2.43.0


From 8373a242ba5a2589573003b5b24e67e9f156b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:59 +0000
Subject: [PATCH 84/90] fix: making a table of a grown list hid it from the
 list's other names

---
 core/table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/table.c b/core/table.c
index f1e0786..4b9e7d1 100644
--- a/core/table.c
+++ b/core/table.c
@@ -48,6 +48,7 @@ PN potion_table_cast(Potion *P, PN self) {
   if (PN_IS_TUPLE(self)) {
     int ret; unsigned k;
     vPN(Table) t = PN_ALLOC(PN_TTABLE, struct PNTable);
+    self = potion_fwd(self); // a grown list: all its names have to find the table
     PN_TUPLE_EACH(self, i, v, {
       k = kh_put(PN, t, PN_NUM(i), &ret);
       PN_QUICK_FWD(struct PNTable *, t);
-- 
2.43.0


From bbf544b0695a5074498f67151b3eead26d576ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:01 +0000
Subject: [PATCH 85/90] fix: sort with a block crashed in the VM, and sorted
 backwards

---
 core/table.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/table.c b/core/table.c
index 4b9e7d1..41e0c7f 100644
--- a/core/table.c
+++ b/core/table.c
@@ -789,7 +789,9 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
     } else {
       vPN(Closure) c = PN_CLOSURE(cmp);
       for (i=from; i < to; i++) { // call cmp
-	if (PN_INT(c->method(P, cl, cmp, GET(i), pivot)) > 0)
+	PN less = c->method(P, (PN)c, self, GET(i), pivot);
+	t = PN_GET_TUPLE(self); // moved
+	if (PN_INT(less) < 0)
 	  { SWAP(i, index); index++; }
       }
     }
@@ -854,7 +856,10 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
       c = PN_CLOSURE(cmp);
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && PN_INT(c->method(P, cl, cmp, GET(j-1), GET(j))) > 0) {
+	while (j > 0) {
+	  PN more = c->method(P, (PN)c, self, GET(j-1), GET(j));
+	  t = PN_GET_TUPLE(self); // moved
+	  if (PN_INT(more) <= 0) break;
 	  SWAP(j, j-1);
 	  j--;
 	}
-- 
2.43.0


From 812c9b60d61939e522c4dc17785eaff29f24eece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:12 +0000
Subject: [PATCH 86/90] fix: udp bind and send used arguments they were not
 given, and sent strings that moved

---
 lib/aio.c | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/lib/aio.c b/lib/aio.c
index 3207ce9..af69f76 100644
--- a/lib/aio.c
+++ b/lib/aio.c
@@ -716,6 +716,8 @@ aio_connection_cb(uv_stream_t* req, int status) {
 }
 static void
 aio_udp_send_cb(uv_udp_send_t* req, int status) {
+  free(req->data); // the sent bytes, see aio_write_buf
+  req->data = NULL;
   DEF_AIO_CB(udp_send);
 }
 static void
@@ -1056,6 +1058,17 @@ aio_udp_set_ttl(Potion *P, PN cl, PN udp, PN ttl) {
   return r ? aio_error(P, "udp set_ttl", r) : udp;
 }
 
+// libuv may write or send later, when the collector has moved the string: give it a copy
+static aio_buf_t
+aio_write_buf(uv_req_t *req, PN buf) {
+  size_t len = PN_STR_LEN(potion_fwd(buf));
+  char *base = malloc(len + 1);
+  if (base == NULL) potion_allocation_error();
+  memcpy(base, PN_STR_PTR(potion_fwd(buf)), len);
+  req->data = base;
+  return uv_buf_init(base, len);
+}
+
 ///\memberof Aio_udp
 static PN
 aio_udp_send(Potion *P, PN cl, PN udp, PN req, PN buf, PN bufcnt, PN addr, PN port, PN cb) {
@@ -1064,15 +1077,18 @@ aio_udp_send(Potion *P, PN cl, PN udp, PN req, PN buf, PN bufcnt, PN addr, PN po
   aio_buf_t bufs;
   struct sockaddr_in ip4;
   PN_CHECK_STRB(buf);
-  bufs.base = PN_STR_PTR(buf);
-  bufs.len = PN_STR_LEN(buf);
   PN_CHECK_INT(bufcnt);
   PN_CHECK_STR(addr);
   PN_CHECK_INT(port);
   if (uv_ip4_addr(PN_STR_PTR(addr), PN_INT(port), &ip4))
     return aio_error(P, "ip_addr", 89); //EDESTADDRREQ
   AIO_CB_SET(udp_send,request);
-  int r = uv_udp_send(&request->r, &handle->r, &bufs, bufcnt, (const struct sockaddr*) &ip4, udp_send_cb);
+  bufs = aio_write_buf((uv_req_t*)&request->r, buf);
+  int r = uv_udp_send(&request->r, &handle->r, &bufs, PN_INT(bufcnt), (const struct sockaddr*) &ip4, udp_send_cb);
+  if (r) {
+    free(request->r.data);
+    request->r.data = NULL;
+  }
   return r ? aio_error(P, "udp send", r) : udp;
 }
 ///\memberof Aio_udp
@@ -1084,15 +1100,18 @@ aio_udp_send6(Potion *P, PN cl, PN udp, PN req, PN buf, PN bufcnt, PN addr, PN p
   aio_buf_t bufs;
   struct sockaddr_in6 ip6;
   PN_CHECK_STRB(buf);
-  bufs.base = PN_STR_PTR(buf);
-  bufs.len = PN_STR_LEN(buf);
   PN_CHECK_INT(bufcnt);
   PN_CHECK_STR(addr);
   PN_CHECK_INT(port);
   if (uv_ip6_addr(PN_STR_PTR(addr), PN_INT(port), &ip6))
     return aio_error(P, "ip6_addr", 89); //EDESTADDRREQ
   AIO_CB_SET(udp_send,request);
-  int r = uv_udp_send(&request->r, &handle->r, &bufs, bufcnt, (const struct sockaddr*) &ip6, udp_send_cb);
+  bufs = aio_write_buf((uv_req_t*)&request->r, buf);
+  int r = uv_udp_send(&request->r, &handle->r, &bufs, PN_INT(bufcnt), (const struct sockaddr*) &ip6, udp_send_cb);
+  if (r) {
+    free(request->r.data);
+    request->r.data = NULL;
+  }
   return r ? aio_error(P, "udp send6", r) : udp;
 }
 
@@ -1283,17 +1302,6 @@ aio_shutdown(Potion *P, PN cl, PN stream, PN req, PN cb) {
   return r ? aio_error(P, "shutdown", r) : stream;
 }
 
-// libuv may write later, when the collector has moved the string: give it a copy
-static aio_buf_t
-aio_write_buf(uv_write_t *req, PN buf) {
-  size_t len = PN_STR_LEN(potion_fwd(buf));
-  char *base = malloc(len + 1);
-  if (base == NULL) potion_allocation_error();
-  memcpy(base, PN_STR_PTR(potion_fwd(buf)), len);
-  req->data = base;
-  return uv_buf_init(base, len);
-}
-
 /**\memberof Aio_stream
    PNString buf
    TODO: buf should be PNBytes, not PNData wrapping uv_buf_t
@@ -1306,7 +1314,7 @@ aio_write(Potion *P, PN cl, PN stream, PN req, PN buf, PN bufcnt, PN cb) {
   aio_buf_t bufs;
   PN_CHECK_STRB(buf);
   AIO_CB_SET(write,request);
-  bufs = aio_write_buf(&request->r, buf);
+  bufs = aio_write_buf((uv_req_t*)&request->r, buf);
   int r = uv_write(&request->r, &stm->r, &bufs, PN_INT(bufcnt), write_cb);
   if (r) {
     free(request->r.data);
@@ -1379,7 +1387,7 @@ aio_write2(Potion *P, PN cl, PN stream, PN req, PN buf, PN bufcnt, PN send_handl
   PN_CHECK_INT(bufcnt);
   PN_CHECK_STRB(buf);
   AIO_CB_SET(write,request);
-  bufs = aio_write_buf(&request->r, buf);
+  bufs = aio_write_buf((uv_req_t*)&request->r, buf);
   int r = uv_write2(&request->r, &stm->r, &bufs, PN_INT(bufcnt), &handle->r, write_cb);
   if (r) {
     free(request->r.data);
@@ -2054,7 +2062,7 @@ void Potion_Init_aio(Potion *P) {
   potion_method(aio_tcp_vt, "connect", aio_tcp_connect, "req=o,addr=S,port=N|connect_cb=&");
   potion_method(aio_tcp_vt, "connect6", aio_tcp_connect6, "req=o,addr=S,port=N|connect_cb=&");
   potion_method(aio_udp_vt, "open", aio_udp_open, "sockfd=N");
-  potion_method(aio_udp_vt, "bind", aio_udp_bind, "addr=S,port=N");
+  potion_method(aio_udp_vt, "bind", aio_udp_bind, "addr=S,port=N|flags:=0");
   potion_method(aio_udp_vt, "bind6", aio_udp_bind6, "addr=S,port=N|ipv6only:=0");
   potion_method(aio_udp_vt, "getsockname", aio_udp_getsockname, 0);
   potion_method(aio_udp_vt, "set_membership", aio_udp_set_membership, "mcaddr=S,ifaddr=S,memb=N");
-- 
2.43.0


From dfe52bac93624577277f5bdbab7bdc6a45ed32c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:22 +0000
Subject: [PATCH 87/90] fix: sort left an element out, and took negative
 numbers for large ones

---
 core/table.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/table.c b/core/table.c
index 41e0c7f..c9c5d44 100644
--- a/core/table.c
+++ b/core/table.c
@@ -772,18 +772,18 @@ void potion_sort_internal(Potion *P, PN cl, PN self, ///< sort data
     // inclusively, by moving all elements less than pivot before
     // the pivot, and the equal or greater elements after it.
     if (cmp == PN_NIL) { // default: sort by uniq, not value
-      for (i=from; i < to-1; i++) { // from ≤ i < to
+      for (i=from; i < to; i++) { // from ≤ i < to
 	if (PN_UNIQ(GET(i)) <= PN_UNIQ(pivot)) { SWAP(i, index); index++; }
       }
     } else if (cmp == PN_TRUE) { // sort by ascending number
       for (i=from; i < to; i++) {
-	if (GET(i) <= pivot) {
+	if ((long)GET(i) <= (long)pivot) {
 	  SWAP(i, index); index++;
 	}
       }
     } else if (cmp == PN_FALSE) { // sort by descending number
       for (i=from; i < to; i++) {
-	if (GET(i) > pivot) { SWAP(i, index); index++;
+	if ((long)GET(i) > (long)pivot) { SWAP(i, index); index++;
 	}
       }
     } else {
@@ -868,7 +868,7 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
     else if (cmp == PN_TRUE) {
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && GET(j-1) > GET(j)) {
+	while (j > 0 && (long)GET(j-1) > (long)GET(j)) {
 	  SWAP(j, j-1);
 	  j--;
 	}
@@ -877,7 +877,7 @@ PN potion_tuple_ins_sort(Potion *P, PN cl, PN self, PN cmp) {
     else if (cmp == PN_FALSE) {
       for (i = 1; i < t->len; i++) {
 	j = i;
-	while (j > 0 && GET(j-1) < GET(j)) {
+	while (j > 0 && (long)GET(j-1) < (long)GET(j)) {
 	  SWAP(j, j-1);
 	  j--;
 	}
-- 
2.43.0


From 8901c457025daf4dd9c180b26d34db623536d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:26 +0000
Subject: [PATCH 88/90] fix: a stale pointer into a vtable was taken for an
 object by the collector

---
 core/table.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/table.h b/core/table.h
index 15cc0b1..f693411 100644
--- a/core/table.h
+++ b/core/table.h
@@ -23,10 +23,12 @@ typedef PN (*PN_IVAR_FUNC)(PNUniq hash);
 /// \see objmodel.c
 struct PNVtable {
   PN_OBJECT_HEADER;  ///< PNType vt; PNUniq uniq
+  // no word may begin with a type: a stale pointer on the stack would make it an object
+  unsigned int pad;  ///< this word is lost when the vtable is moved, but ivlen is needed then
   PNType parent;     ///< parent type, default: for P->lobby: PN_VTABLE(PN_TOBJECT)
-  PNType type;       ///< current type
   PN name;           ///< classes/types need to be found by name. \see potion_class_find
   int ivlen;         ///< PN_TUPLE_LEN(ivars)
+  PNType type;       ///< current type
   PN ivars;          ///< PNTuple of all our or the parents inherited vars
   vPN(Table) methods;///< methods hash, PNTable: name => closures
   vPN(Vtable) meta;  /// meta PNVtable
-- 
2.43.0


From 9d02ec03969d17cd8218f5ff420009a5f1e058c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:39 +0000
Subject: [PATCH 89/90] fix: calls with many arguments in compiled code

---
 core/vm-x86.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/vm-x86.c b/core/vm-x86.c
index 0438a0d..c68de10 100644
--- a/core/vm-x86.c
+++ b/core/vm-x86.c
@@ -402,11 +402,18 @@ static void potion_x86_c_arg(Potion *P, PNAsm * volatile *asmp, int out, int reg
 	ASM(0x4c); ASM(0x8B); ASM_MOV_EBP(0x5d,regn) // mov %rbp(A) %r11
 	if (argn == 6) {
 	  ASMS("\x4c\x89\x1c\x24");           // mov %r11 (%rsp)
-	} else {
+	} else if ((argn - 6) * sizeof(PN) < 0x80) {
 	  ASMS("\x4c\x89\x5c\x24"); ASM((argn - 6) * sizeof(PN)); // mov %r11 N(%rsp)
+	} else {
+	  ASMS("\x4c\x89\x9c\x24"); ASMI((argn - 6) * sizeof(PN)); // mov %r11 N(%rsp)
 	}
       } else {
-	ASM(0x4c); ASM(0x8b); ASM(0x5d); ASM((argn - 4) * sizeof(PN)); // rbx is the caller's
+	// rbx is the caller's
+	if ((argn - 4) * sizeof(PN) < 0x80) {
+	  ASM(0x4c); ASM(0x8b); ASM(0x5d); ASM((argn - 4) * sizeof(PN)); // mov N(%rbp) %r11
+	} else {
+	  ASM(0x4c); ASM(0x8b); ASM(0x9d); ASMI((argn - 4) * sizeof(PN)); // mov N(%rbp) %r11
+	}
 	ASM(0x4c); ASM(0x89); ASM_MOV_EBP(0x5d,regn) // mov %r11 %rbp(A)
       }
     break;
@@ -1006,8 +1013,9 @@ void potion_x86_call(Potion *P, struct PNProto * volatile f, PNAsm * volatile *a
   X86_PRE(); ASM(0x8B); ASM_MOV_EBP(0x45, op.a)      // d: mov %rbp(A) %rax
 
   // takes more arguments than given: fill in the defaults
-  ASM(0x83); ASM(0x78); ASM((char)offsetof(struct PNClosure, arity));
-    ASM(argc - 1);					// cmp argc-1 N(%rax)
+  ASM(argc - 1 < 0x80 ? 0x83 : 0x81); ASM(0x78); ASM((char)offsetof(struct PNClosure, arity));
+    if (argc - 1 < 0x80) { ASM(argc - 1); }		// cmp argc-1 N(%rax)
+    else { ASMI(argc - 1); }
   TAG_PREP(tag_f);
   ASM(0x7E); ASM(0);					// jle [f]
   X86_ARGO(start - 3, 0);
-- 
2.43.0


From 43b700d5bd05df5cc588998ce1db305573c04d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:44 +0000
Subject: [PATCH 90/90] fix: of several -M modules only the last was loaded

---
 core/potion.c | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/core/potion.c b/core/potion.c
index df01d02..ed2e2ee 100644
--- a/core/potion.c
+++ b/core/potion.c
@@ -268,20 +268,18 @@ done:
   return code;
 }
 
+/// appends the loading of a module to the code to run before the script
 char * addmodule(Potion *P, char *result, char *prefix, char *name) {
-  char *args = strchr(name, '=');
-  PN out = potion_bytes(P, 0);
+  char *args = strchr(name, '='), *out;
+  size_t len = result ? strlen(result) : 0, siz;
   if (args) *args++ = '\0';
-  if (prefix) {
-    pn_printf(P, out, "load \"%s/%s\"\n", prefix, name);
-  } else {
-    pn_printf(P, out, "load \"%s\"\n", name);
-  }
-  if (args)
-    pn_printf(P, out, "%s(%s)\n", name, args);
-  else
-    pn_printf(P, out, "%s()\n", name);
-  return PN_STR_PTR(out);
+  siz = 2 * strlen(name) + (prefix ? strlen(prefix) : 0) + (args ? strlen(args) : 0)
+    + sizeof("load \"/\"\n()\n");
+  // not an object: nothing but this pointer refers to it
+  if ((out = realloc(result, len + siz)) == NULL) potion_allocation_error();
+  snprintf(out + len, siz, "load \"%s%s%s\"\n%s(%s)\n",
+	   prefix ? prefix : "", prefix ? "/" : "", name, name, args ? args : "");
+  return out;
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0

