From 4b91f0b7f74bf94a538817233ec87f897ba8719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 001/106] fix: aa_mem_region_tmprealloc read the old chunk
 after growing freed it

---
 src/mem.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index 8fd4ce2..74ef1ec 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -190,15 +190,19 @@ void *aa_mem_region_tmpalloc( aa_mem_region_t *region, size_t size ) {
 
 AA_API void *aa_mem_region_tmprealloc( aa_mem_region_t *region, size_t size )
 {
-    void *old_ptr = region->head;
-    size_t old_size = (size_t)(region->node->end - region->head);
-    void *new_ptr = aa_mem_region_tmpalloc(region, size);
+    size_t old_size = aa_mem_region_freesize(region);
 
-    if( old_ptr != new_ptr ) {
-        memcpy( new_ptr, old_ptr, old_size );
+    if( size > old_size ) {
+        // Growing may free the chunk that holds the temporary data,
+        // so save that data first.
+        void *save = malloc(old_size);
+        memcpy( save, region->head, old_size );
+        aa_mem_region_grow(region, size);
+        memcpy( region->head, save, old_size );
+        free(save);
     }
 
-    return new_ptr;
+    return region->head;
 }
 
 void *aa_mem_region_alloc( aa_mem_region_t *region, size_t size ) {
-- 
2.43.0


From 1ed1eccc21c797d61535e57659f9845f4dcf7a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:33 +0000
Subject: [PATCH 002/106] fix: aa_mem_region_pop freed live chunks when popping
 to the end of a full chunk

---
 src/mem.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index 74ef1ec..fee6979 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -129,7 +129,8 @@ size_t aa_mem_region_freesize( aa_mem_region_t *region ) {
 }
 
 static inline int aa_mem_region_pop_in_node( uint8_t *ptr, struct aa_mem_region_node *node ) {
-    return ptr >= node->d  && ptr < node->end;
+    // When a chunk is full, the next pointer is the (aligned) chunk end.
+    return ptr >= node->d  && ptr <= aa_mem_region_alignptr(node->end);
 }
 
 
@@ -147,10 +148,10 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
             n += (p->end - p->d);
             p = aa_mem_region_node_free( p );
         }
-        assert( !p || (ptr8 >= p->d && ptr8 <= p->end));
+        assert( !p || aa_mem_region_pop_in_node(ptr8, p) );
         // now realloc a replacement node
         // how much of the last chunk is now unused
-        ptrdiff_t popsize = p ? (p->end  - ptr8) : 0;
+        ptrdiff_t popsize = (p && ptr8 < p->end) ? (p->end  - ptr8) : 0;
         assert( ( !p || ptr8 > p->d ) ?
                 // popped in middle of chunk, keep it
                 (!p || popsize < p->end - p->d ) :
-- 
2.43.0


From 9f4b3749f052f757e4f21201564d62d281798d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:27 +0000
Subject: [PATCH 003/106] fix: aa_mem_region_pop freed live chunks after the
 chunk holding the popped pointer was replaced

---
 src/mem.c | 59 ++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index fee6979..6e531e9 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -62,11 +62,25 @@ AA_API void aa_flexbuf_free(aa_flexbuf_t *p) {
 
 
 
+/// Private data stored before each chunk
+struct aa_mem_region_prefix {
+    /// start of the discarded chunk that this chunk replaces, or NULL
+    uint8_t *alias;
+    uint8_t pad[AA_MEMREG_ALIGN - sizeof(uint8_t*)];
+};
+
+static inline uint8_t **aa_mem_region_alias( struct aa_mem_region_node *p ) {
+    return & ((struct aa_mem_region_prefix*)p - 1)->alias;
+}
+
 static struct aa_mem_region_node  *aa_mem_region_node_alloc(size_t n,
                                                     struct aa_mem_region_node *next) {
     // FIXME: maybe we should use mmap instead of malloc()
-    struct aa_mem_region_node *p =
-        (struct aa_mem_region_node*)malloc(sizeof(struct aa_mem_region_node) + n + AA_MEMREG_ALIGN);
+    struct aa_mem_region_prefix *prefix =
+        (struct aa_mem_region_prefix*)malloc(sizeof(struct aa_mem_region_prefix) +
+                                             sizeof(struct aa_mem_region_node) + n + AA_MEMREG_ALIGN);
+    prefix->alias = NULL;
+    struct aa_mem_region_node *p = (struct aa_mem_region_node*)(prefix + 1);
     p->end = p->d + n + AA_MEMREG_ALIGN;
     p->next = next;
     p->next = next;
@@ -77,7 +91,7 @@ static struct aa_mem_region_node  *aa_mem_region_node_alloc(size_t n,
 static struct aa_mem_region_node  *aa_mem_region_node_free(struct aa_mem_region_node *p)
 {
     struct aa_mem_region_node *n = p->next;
-    free(p);
+    free((struct aa_mem_region_prefix*)p - 1);
     return n;
 }
 
@@ -130,15 +144,38 @@ size_t aa_mem_region_freesize( aa_mem_region_t *region ) {
 
 static inline int aa_mem_region_pop_in_node( uint8_t *ptr, struct aa_mem_region_node *node ) {
     // When a chunk is full, the next pointer is the (aligned) chunk end.
-    return ptr >= node->d  && ptr <= aa_mem_region_alignptr(node->end);
+    return (ptr >= node->d  && ptr <= aa_mem_region_alignptr(node->end))
+        || (ptr && ptr == *aa_mem_region_alias(node));
 }
 
+/// Allocate a chunk on top of p.
+///
+/// If ptr is the start of p, then p is unused and the new chunk replaces
+/// it.  Callers may still pop to the start of p, so when there are older
+/// chunks, the new chunk remembers that address.
+static struct aa_mem_region_node *
+aa_mem_region_node_replace( size_t n, struct aa_mem_region_node *p, uint8_t *ptr )
+{
+    int unused = p && aa_mem_region_alignptr(p->d) == ptr;
+    struct aa_mem_region_node *node;
+    if( unused && NULL == p->next ) {
+        node = aa_mem_region_node_alloc( n, aa_mem_region_node_free(p) );
+    } else if( unused && NULL == *aa_mem_region_alias(p) ) {
+        // allocate before freeing, so the chunks do not share addresses
+        node = aa_mem_region_node_alloc( n, p->next );
+        *aa_mem_region_alias(node) = ptr;
+        aa_mem_region_node_free(p);
+    } else {
+        node = aa_mem_region_node_alloc( n, p );
+    }
+    return node;
+}
 
 AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
     uint8_t *ptr8 = (uint8_t*)ptr;
     if( aa_mem_region_pop_in_node( ptr8, reg->node ) ){
         // fast path, in the top node
-        aa_mem_region_align( reg, ptr8 );
+        aa_mem_region_align( reg, ptr8 == *aa_mem_region_alias(reg->node) ? reg->node->d : ptr8 );
     } else {
         // ugly case, iterate through nodes
         ptrdiff_t n = reg->node->end - reg->node->d;
@@ -149,6 +186,7 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
             p = aa_mem_region_node_free( p );
         }
         assert( !p || aa_mem_region_pop_in_node(ptr8, p) );
+        if( p && ptr8 == *aa_mem_region_alias(p) ) ptr8 = aa_mem_region_alignptr(p->d);
         // now realloc a replacement node
         // how much of the last chunk is now unused
         ptrdiff_t popsize = (p && ptr8 < p->end) ? (p->end  - ptr8) : 0;
@@ -158,10 +196,7 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
                 // poppsed start of chunk, realloc it
                 ( (ptr8 == p->d) &&
                   (popsize == p->end - p->d) ) );
-        reg->node =
-            aa_mem_region_node_alloc( (size_t)(n+popsize),
-                                  (p && aa_mem_region_alignptr(p->d) == ptr8) ?
-                                  aa_mem_region_node_free(p) : p );
+        reg->node = aa_mem_region_node_replace( (size_t)(n+popsize), p, ptr8 );
         reg->head = aa_mem_region_alignptr(reg->node->d);
     }
 }
@@ -170,11 +205,7 @@ static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size ) {
     size_t nsize = AA_MAX(2*(size_t)(reg->node->end - reg->node->d),
                           size + AA_MEMREG_ALIGN);
     // this growth strategy creates worst-case O(n) memory waste
-    reg->node =
-        aa_mem_region_node_alloc( nsize,
-                              /* free unused chunk */
-                              (aa_mem_region_alignptr(reg->node->d) == reg->head) ?
-                              aa_mem_region_node_free(reg->node) : reg->node );
+    reg->node = aa_mem_region_node_replace( nsize, reg->node, reg->head );
     aa_mem_region_align(reg, reg->node->d);
     assert( aa_mem_region_freesize(reg) >= size );
     assert( ! ((uintptr_t)reg->head%16) );
-- 
2.43.0


From 94f67eeb1687cc9160c65a2db7ce5a67c516f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:36 +0000
Subject: [PATCH 004/106] fix: aa_bits_and, aa_bits_or and aa_bits_xor never
 terminated

---
 include/amino/mem.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/amino/mem.h b/include/amino/mem.h
index 83ba975..fdefc4a 100644
--- a/include/amino/mem.h
+++ b/include/amino/mem.h
@@ -698,7 +698,7 @@ static inline void
 aa_bits_and( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] &= b[n_words];
     }
 }
@@ -710,7 +710,7 @@ static inline void
 aa_bits_or( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] |= b[n_words];
     }
 }
@@ -722,7 +722,7 @@ static inline void
 aa_bits_xor( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] ^= b[n_words];
     }
 }
-- 
2.43.0


From 5f3eeb7772c7b0999025ad15e2b8aa4967a05aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 005/106] fix: adding a frame with a NULL rotation or
 translation dereferenced NULL

---
 src/rx/scenegraph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index ba1a517..684eb43 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -69,8 +69,8 @@ SceneFrame::SceneFrame(
 {
     AA_MEM_CPY(E+AA_TF_QUTR_Q, q ? q : aa_tf_quat_ident, 4);
     AA_MEM_CPY(E+AA_TF_QUTR_V, v ? v : aa_tf_vec_ident, 3);
-    aa_tf_quat2rotmat(q,R);
-    aa_tf_qv2duqu(q,v,S);
+    aa_tf_quat2rotmat(E+AA_TF_QUTR_Q,R);
+    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,E+AA_TF_QUTR_V,S);
 }
 
 SceneFrame::~SceneFrame( )
-- 
2.43.0


From e3060011d7ec478f53be968804b134aaf49521e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 006/106] fix: SceneFrameFixed::tfmat_rel copied nine elements
 into the translation

---
 src/rx/scenegraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 684eb43..4a2757c 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -164,7 +164,7 @@ void SceneFrameFixed::tfmat_rel( const double *q, double _T[12] )
 {
     (void)q;
     AA_MEM_CPY(_T + AA_TF_TFMAT_R, this->R, 9);
-    AA_MEM_CPY(_T + AA_TF_TFMAT_V, this->E + AA_TF_QUTR_T, 9);
+    AA_MEM_CPY(_T + AA_TF_TFMAT_V, this->E + AA_TF_QUTR_T, 3);
 }
 
 void SceneFrameFixed::duqu_rel( const double *q, double _S[8] )
-- 
2.43.0


From bb56dc58e48e46d8829318288fa55e9396ec5083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 007/106] fix: prismatic frames ignored their rotation in
 aa_rx_sg_tfmat and never wrote the aa_rx_sg_duqu result

---
 src/rx/scenegraph.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 4a2757c..7098a22 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -191,22 +191,17 @@ void SceneFramePrismatic::tf_rel( const double *q, double _E[7] )
 
 void SceneFramePrismatic::tfmat_rel( const double *q, double _T[12] )
 {
-    double qo = q[this->config_index] + this->offset;
+    double _E[7];
+    this->tf_rel(q, _E);
     AA_MEM_CPY( _T+AA_TF_TFMAT_R, R, 9 );
-
-    for( size_t i = 0; i < 3; i ++ ) {
-        _T[AA_TF_TFMAT_V+i] = E[AA_TF_QUTR_V+i] + qo*this->axis[i];
-    }
+    AA_MEM_CPY( _T+AA_TF_TFMAT_V, _E+AA_TF_QUTR_V, 3 );
 }
 
 void SceneFramePrismatic::duqu_rel( const double *q, double _S[8] )
 {
-    double qo = q[this->config_index] + this->offset;
-    double v[3];
-    for( size_t i = 0; i < 3; i ++ ) {
-        v[i] = E[AA_TF_QUTR_V+i] + qo*this->axis[i];
-    }
-    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,v,S);
+    double _E[7];
+    this->tf_rel(q, _E);
+    aa_tf_qv2duqu(_E+AA_TF_QUTR_Q, _E+AA_TF_QUTR_V, _S);
 }
 
 void SceneFrameRevolute::tf_rel( const double *q, double _E[7] )
-- 
2.43.0


From 7f22cf66e088c00878481e9e8aca9dab0bdc80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 008/106] fix: reparenting a frame left its old matrix and dual
 quaternion in place

---
 src/rx/sg_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index ed58a4b..b167264 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -733,6 +733,8 @@ AA_API void aa_rx_sg_reparent_name (const struct aa_rx_sg *scene_graph,
                   : new_parent );
 
     AA_MEM_CPY(f->E, E1, 7);
+    aa_tf_quat2rotmat(f->E+AA_TF_QUTR_Q, f->R);
+    aa_tf_qv2duqu(f->E+AA_TF_QUTR_Q, f->E+AA_TF_QUTR_V, f->S);
 
     scene_graph->sg->dirty_indices = 1;
 }
-- 
2.43.0


From 0702822ed7c23223e9a2679a40e18b6320285f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 009/106] fix: a new scene graph had an uninitialized
 configuration count and dirty flags

---
 src/rx/scenegraph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 7098a22..fc7c814 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -262,8 +262,12 @@ void SceneFrameRevolute::tfmat_rel( const double *q, double _T[12] )
 // }
 
 SceneGraph::SceneGraph()
-    : dirty_indices(0),
-      destructor(NULL)
+    : config_size(0),
+      destructor(NULL),
+      destructor_context(NULL),
+      dirty_indices(0),
+      dirty_collision(0),
+      dirty_gl(0)
 {}
 
 SceneGraph::~SceneGraph()
-- 
2.43.0


From b407ffcb311fd2a8ea4a529276cfdaa9474b8678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 010/106] fix: aa_rx_sg_config_name read past the configuration
 names

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index b167264..85f113f 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -140,7 +140,7 @@ aa_rx_sg_config_name (
         case AA_RX_CONFIG_MULTI: return "MULTI";
         default:
             if (id < 0 ||
-                id >= (aa_rx_config_id)aa_rx_sg_frame_count(scene_graph)) {
+                id >= (aa_rx_config_id)aa_rx_sg_config_count(scene_graph)) {
                 return "NONE";
             }
             return scene_graph->sg->config_rmap[(size_t)id];
-- 
2.43.0


From 4b1b179062f9987529bd61ebae9efdd60587f884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 011/106] fix: aa_rx_sg_init accepted or aborted on cyclic
 frames instead of returning an error

---
 src/rx/scenegraph.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index fc7c814..d463fa3 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -326,6 +326,17 @@ int SceneGraph::index()
         sort_frame_helper( list, visited, frame_map, f->name );
     }
 
+    // Check cycles: every parent must precede its children
+    {
+        std::set<std::string> sorted;
+        for( SceneFrame *f : list ) {
+            if( ! f->in_global() && sorted.end() == sorted.find(f->parent) ) {
+                return AA_RX_INVALID_FRAME;
+            }
+            sorted.insert(f->name);
+        }
+    }
+
     // Index names and configs
     frames.resize( frame_map.size() );
     {
-- 
2.43.0


From 36bb1e6f437f24b2b60d027c91e01d9480574862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 012/106] fix: limits first set after aa_rx_sg_init were
 ignored

---
 src/rx/sg_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 85f113f..5471ed5 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -554,6 +554,11 @@ get_limits( struct aa_rx_sg *scenegraph,
     if( NULL == l ) {
         l = AA_NEW0(struct aa_rx_config_limits);
         sg->limits_map[config_name] = l;
+        // keep an existing index consistent
+        auto itr = sg->config_map.find(config_name);
+        if( !sg->dirty_indices && sg->config_map.end() != itr ) {
+            sg->limits[(size_t)itr->second] = l;
+        }
     }
 
     return l;
-- 
2.43.0


From ac6581344c04d75bcb2ad480a1e05a5700842067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 013/106] fix: aa_rx_sg_copy allocated limits with new, which
 the scene graph frees with free

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 5471ed5..eede27f 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -791,7 +791,7 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
     // set limits
     for( auto &pair : orig->sg->limits_map ) {
         if ( pair.second ) {
-            aa_rx_config_limits * nl = new aa_rx_config_limits();
+            aa_rx_config_limits * nl = AA_NEW(struct aa_rx_config_limits);
             *nl = *pair.second;
             dest->sg->limits_map[pair.first] = nl;
         }else{
-- 
2.43.0


From 90ed1ce24fe07029fa560b3b977e80a7d942d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 014/106] fix: aa_rx_sg_copy dropped the inertial parameters

---
 src/rx/sg_api.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index eede27f..37cdd1d 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -785,6 +785,7 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
             } break;
         }
         assert(f_new);
+        if( f->inertial ) f_new->inertial = AA_MEM_DUP(struct aa_rx_inertial, f->inertial, 1);
         dest->sg->add(f_new);
     }
 
-- 
2.43.0


From fc2b349f05597821c8933578789f63db2f43b88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 015/106] fix: aa_rx_fk_get_abs_qutr accepted an id one past
 the last frame

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 37cdd1d..8b6f676 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -904,7 +904,7 @@ aa_rx_fk_ref(const struct aa_rx_fk *fk, aa_rx_frame_id id)
 AA_API void
 aa_rx_fk_get_abs_qutr(const struct aa_rx_fk *fk, aa_rx_frame_id id, double E[7] )
 {
-    if( id < 0 || (size_t)id > aa_rx_fk_cnt(fk) ) {
+    if( id < 0 || (size_t)id >= aa_rx_fk_cnt(fk) ) {
         fprintf(stderr, "ERROR: Invalid frame id %d\n", id);
         abort();
         exit(EXIT_FAILURE);
-- 
2.43.0


From 18125061997f909a55c943a9e75c14c68a155424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 016/106] fix: aa_rx_fk_all ignored the increment of the
 configuration vector

---
 src/rx/sg_api.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 8b6f676..fd67002 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -972,13 +972,21 @@ aa_rx_fk_all( struct aa_rx_fk *fk,
 
     amino::SceneGraph *sg = scenegraph->sg;
 
+    // frames index into a contiguous configuration
+    std::vector<double> qp;
+    const double *qdata = q->data;
+    if( 1 != q->inc ) {
+        for( size_t i = 0; i < q->len; i ++ ) qp.push_back(AA_DVEC_REF(q,i));
+        qdata = qp.data();
+    }
+
     double E_rel[AA_RX_TF_LEN], *E_abs = fk->TF_abs;
     for( size_t i_frame = 0;
          i_frame < sg->frames.size();
          i_frame++, E_abs += AA_RX_FK_LD )
     {
         amino::SceneFrame *f = sg->frames[i_frame];
-        f->tf_rel( q->data, E_rel );
+        f->tf_rel( qdata, E_rel );
         aa_rx_fk_set_rel(fk,i_frame,E_rel);
     }
 }
-- 
2.43.0


From 677e717103e17f3e220a6510eebb066569a77c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 017/106] fix: allowed collisions kept dangling frame names and
 stale frame ids after frames were edited

---
 include/amino/rx/scenegraph_internal.h |  2 +-
 src/rx/amino_fcl.cpp                   |  4 ++--
 src/rx/collision_set.cpp               | 10 +++++-----
 src/rx/sg_api.cpp                      | 20 +++++++++++++-------
 4 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index e89eba4..84ae1ff 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -201,7 +201,7 @@ struct SceneGraph  {
     size_t config_size;
 
     /** Set of allowable collision frames by name */
-    std::set<std::pair<const char*,const char*> > allowed;
+    std::set<std::pair<std::string,std::string> > allowed;
 
     /** List of allowable collisions by indices */
     std::vector<size_t> allowed_indices1;
diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 64dc5e1..2596851 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -230,8 +230,8 @@ void aa_rx_sg_cl_init( struct aa_rx_sg *scene_graph )
     sg->allowed_indices2.clear();
 
     for (auto it = sg->allowed.begin(); it!= sg->allowed.end(); it++){
-        sg->allowed_indices1.push_back(aa_rx_sg_frame_id(scene_graph, it->first));
-        sg->allowed_indices2.push_back(aa_rx_sg_frame_id(scene_graph, it->second));
+        sg->allowed_indices1.push_back(aa_rx_sg_frame_id(scene_graph, it->first.c_str()));
+        sg->allowed_indices2.push_back(aa_rx_sg_frame_id(scene_graph, it->second.c_str()));
     }
 
     aa_rx_sg_clean_collision(scene_graph);
diff --git a/src/rx/collision_set.cpp b/src/rx/collision_set.cpp
index 2a86c3b..870ec40 100644
--- a/src/rx/collision_set.cpp
+++ b/src/rx/collision_set.cpp
@@ -116,11 +116,11 @@ aa_rx_cl_set_get( const struct aa_rx_cl_set *cl_set,
 
 AA_API void
 aa_rx_sg_cl_set_copy(const struct aa_rx_sg* sg, struct aa_rx_cl_set * set){
-    for (size_t i=0; i<sg->sg->allowed_indices1.size(); i++){
-        aa_rx_cl_set_set(set,
-                         (aa_rx_frame_id)sg->sg->allowed_indices1[i],
-                         (aa_rx_frame_id)sg->sg->allowed_indices2[i],
-                         1);
+    // Frame ids may have changed since aa_rx_sg_cl_init(), so look up names
+    for (auto &pair : sg->sg->allowed){
+        aa_rx_frame_id i = aa_rx_sg_frame_id(sg, pair.first.c_str());
+        aa_rx_frame_id j = aa_rx_sg_frame_id(sg, pair.second.c_str());
+        if( i >= 0 && j >= 0 ) aa_rx_cl_set_set(set, i, j, 1);
     }
 }
 
diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index fd67002..77c1575 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -209,6 +209,12 @@ AA_API void aa_rx_sg_rm_frame
     }
 
     sg->frame_map.erase(name);
+
+    // allowed collisions end with the frame
+    for( auto a = sg->allowed.begin(); a != sg->allowed.end(); ) {
+        if( a->first == name || a->second == name ) a = sg->allowed.erase(a);
+        else ++a;
+    }
 }
 
 // AA_API void
@@ -808,7 +814,7 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
 
     // set allowed collision
     for (auto &pair : orig->sg->allowed){
-        aa_rx_sg_allow_collision_name(dest, pair.first, pair.second, 1);
+        aa_rx_sg_allow_collision_name(dest, pair.first.c_str(), pair.second.c_str(), 1);
     }
 
     // initialize sg
@@ -832,15 +838,15 @@ aa_rx_sg_allow_collision_name( struct aa_rx_sg *scene_graph,
                                const char* frame0, const char* frame1, const int allowed )
 {
     bool order = strcmp(frame0, frame1) <0;
-    const char *string0, *string1;
+    std::string string0, string1;
     if (strcmp(frame0, frame1)<0){
-        string0 = scene_graph->sg->frame_map[frame0]->name.c_str();
-        string1 = scene_graph->sg->frame_map[frame1]->name.c_str();
+        string0 = frame0;
+        string1 = frame1;
     } else {
-        string0 = scene_graph->sg->frame_map[frame1]->name.c_str();
-        string1 = scene_graph->sg->frame_map[frame0]->name.c_str();
+        string0 = frame1;
+        string1 = frame0;
     }
-    std::pair<const char*, const char*> p(string0, string1);
+    std::pair<std::string, std::string> p(string0, string1);
     if (allowed){
         scene_graph->sg->allowed.insert(p);
     } else {
-- 
2.43.0


From 0f3621af8c224dcdffbb3b2ed1e020a8783acbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 018/106] fix: aa_rx_cl_set_fill overwrote entries that are
 false in the source

---
 src/rx/collision_set.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rx/collision_set.cpp b/src/rx/collision_set.cpp
index 870ec40..d5d71f1 100644
--- a/src/rx/collision_set.cpp
+++ b/src/rx/collision_set.cpp
@@ -102,8 +102,9 @@ AA_API void
 aa_rx_cl_set_fill( struct aa_rx_cl_set *dst,
                    const struct aa_rx_cl_set *src )
 {
-    dst->v->assign( src->v->begin(),
-                    src->v->end() );
+    for( size_t i = 0; i < dst->v->size() && i < src->v->size(); i ++ ) {
+        if( (*src->v)[i] ) (*dst->v)[i] = true;
+    }
 }
 
 AA_API int
-- 
2.43.0


From 591feed2332dd49a1c75d69488d9837d6f1ec29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:13 +0000
Subject: [PATCH 019/106] fix: sub-scenegraphs over several end-effectors were
 always empty and had uninitialized end-effectors

---
 src/rx/scene_kin.c   | 5 ++++-
 src/rx/scene_sub.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rx/scene_kin.c b/src/rx/scene_kin.c
index d52f811..bbac42d 100644
--- a/src/rx/scene_kin.c
+++ b/src/rx/scene_kin.c
@@ -359,7 +359,7 @@ aa_rx_sg_multiple_chain_create( const struct aa_rx_sg *sg,
     ssg->frame_count = aa_rx_sg_chain_multiple_frames( sg, root, n_tips,
                                                        tips, tmp, tmp_arr);
     ssg->frames = AA_MEM_DUP(aa_rx_frame_id, tmp_arr, ssg->frame_count);
-
+    free(tmp_arr);
 
     ssg->config_count = aa_rx_sg_chain_config_count( sg,
                                                      ssg->frame_count,
@@ -368,6 +368,9 @@ aa_rx_sg_multiple_chain_create( const struct aa_rx_sg *sg,
     aa_rx_sg_chain_configs( sg, ssg->frame_count, ssg->frames,
                             ssg->config_count, ssg->configs );
 
+    ssg->ees = AA_MEM_DUP(aa_rx_frame_id, tips, n_tips);
+    ssg->ee_count = n_tips;
+
     return ssg;
 }
 
diff --git a/src/rx/scene_sub.cpp b/src/rx/scene_sub.cpp
index 3edcb76..248b559 100644
--- a/src/rx/scene_sub.cpp
+++ b/src/rx/scene_sub.cpp
@@ -112,7 +112,7 @@ aa_rx_sg_chain_multiple_frames( const struct aa_rx_sg *sg,
     for(size_t i=0; i < n_tips; i ++){
 	aa_rx_frame_id tip = tips[i];
 	while( tip !=root && tip != AA_RX_FRAME_ROOT ){
-	    if (frames.find(tip) == frames.end()) break;
+	    if (frames.find(tip) != frames.end()) break;
 	    enum aa_rx_frame_type ft = aa_rx_sg_frame_type( sg, tip );
 	    switch(ft) {
 	    case AA_RX_FRAME_FIXED:
-- 
2.43.0


From f268d3e042b1bcd4f7bd25407fcc0556426ff44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:39 +0000
Subject: [PATCH 020/106] fix: rotation vector of the quaternion -1 is zero,
 not NaN

---
 src/tf/conv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tf/conv.c b/src/tf/conv.c
index 5c7737e..e0fdb06 100644
--- a/src/tf/conv.c
+++ b/src/tf/conv.c
@@ -245,8 +245,10 @@ aa_tf_quat2rotvec( const double q[AA_RESTRICT 4], double r[AA_RESTRICT 3] )
     double a;
     if (theta < sqrt(sqrt(DBL_EPSILON))) {
         a = 2*aa_tf_invsinc_series(theta);
-    } else {
+    } else if (qs > 0) {
         a = 2*theta/qs;
+    } else {
+        a = 0; /* q = -1 is also the identity rotation */
     }
 
     FOR_VEC(i) r[i] = a*q_v[i];
-- 
2.43.0


From 452d4995354c836f0732a2fb6daada397793b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:49 +0000
Subject: [PATCH 021/106] fix: normalizing the axis-angle identity does not
 divide by zero

---
 src/tf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tf.c b/src/tf.c
index 2788a71..9f5abf8 100644
--- a/src/tf.c
+++ b/src/tf.c
@@ -155,7 +155,8 @@ AA_API void aa_tf_axang_normalize( double _a[AA_RESTRICT 4] )
         n *= -1;
         a->angle *= -1;
     }
-    FOR_VEC(i) v[i] /= n;
+    /* the identity rotation has a zero axis (see aa_tf_quat2axang) */
+    if( n != 0 ) FOR_VEC(i) v[i] /= n;
 }
 
 AA_API void aa_tf_axang_rot( const double _a[AA_RESTRICT 4],
-- 
2.43.0


From 68b3a3a7d239ba48b6d428c8409f0bd5778088a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:48 +0000
Subject: [PATCH 022/106] fix: ZYX Euler angles of rotations at gimbal lock
 reproduce the rotation

---
 src/tf.c      | 15 +++++++++++----
 src/tf/conv.c | 10 +++++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/tf.c b/src/tf.c
index 9f5abf8..5b4e348 100644
--- a/src/tf.c
+++ b/src/tf.c
@@ -424,10 +424,17 @@ void aa_tf_rotmat2eulerzyx( const double R[restrict 9],
                sqrt( aa_fsq( AA_MATREF(R,3,0,0) ) +
                      aa_fsq( AA_MATREF(R,3,1,0) ) ) );
     cb = cos(b);
-    a = atan2( AA_MATREF( R,3,1,0) / cb,
-               AA_MATREF( R,3,0,0) / cb );
-    g = atan2( AA_MATREF( R,3,2,1) / cb,
-               AA_MATREF( R,3,2,2) / cb );
+    if( cb < sqrt(DBL_EPSILON) ) {
+        /* gimbal lock: only the sum or difference of a and g is determined */
+        a = 0;
+        g = atan2( -AA_MATREF( R,3,1,2),
+                   AA_MATREF( R,3,1,1) );
+    } else {
+        a = atan2( AA_MATREF( R,3,1,0) / cb,
+                   AA_MATREF( R,3,0,0) / cb );
+        g = atan2( AA_MATREF( R,3,2,1) / cb,
+                   AA_MATREF( R,3,2,2) / cb );
+    }
     e[0] = a;
     e[1] = b;
     e[2] = g;
diff --git a/src/tf/conv.c b/src/tf/conv.c
index e0fdb06..f280e0d 100644
--- a/src/tf/conv.c
+++ b/src/tf/conv.c
@@ -227,7 +227,15 @@ void aa_tf_quat2eulerzyx( const double q[restrict 4],
     /* roll*/
     e[2] = atan2( 2.0*(w*x + y*z), 1.0 - 2.0*(x*x + y*y) );
     /* pitch*/
-    e[1] = asin( 2.0*(w*y - x*z) );
+    double sp = 2.0*(w*y - x*z);
+    if( fabs(sp) >= 1 - 4*DBL_EPSILON ) {
+        /* gimbal lock: only the sum or difference of roll and yaw is determined */
+        e[1] = copysign( M_PI_2, sp );
+        e[2] = atan2( 2.0*(w*x - y*z), 1.0 - 2.0*(x*x + z*z) );
+        e[0] = 0;
+        return;
+    }
+    e[1] = asin( sp );
     /* yaw*/
     e[0] = atan2( 2*(w*z + x*y), 1.0 - 2.0*(y*y+z*z) );
 }
-- 
2.43.0


From 58b476c9791f87969607347416fba8c32f1fb5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:48 +0000
Subject: [PATCH 023/106] fix: rotation between two vectors does not depend on
 their length

---
 src/tf/quat_ord.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 255db03..eab059b 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -957,7 +957,8 @@ aa_tf_vecs2quat( const double u[AA_RESTRICT 3],
 
     double cc = aa_tf_vdot(&q[AA_TF_QUAT_X],&q[AA_TF_QUAT_X]);
 
-    if( cc / nuv < sqrt_epsilon ) {
+    /* Only opposite vectors need an arbitrary axis */
+    if( uv < 0 && cc < DBL_EPSILON*nu*nv ) {
 
         /* Find a differently-pointed vector */
         double fx=fabs(u[0]);
@@ -986,7 +987,7 @@ aa_tf_vecs2quat( const double u[AA_RESTRICT 3],
         FOR_VEC(i) q[AA_TF_QUAT_X+i] = au[i]+av[i];
 
         /* Get the euclidean angle */
-        double theta = atan2(cc,uv); /* euclidean angle */
+        double theta = atan2(sqrt(cc),uv); /* euclidean angle */
         double qtheta = theta/2;
 
         double s = sin( qtheta );
-- 
2.43.0


From e0714a16e320cd17819f6d420cc5b95b6ffc9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:22 +0000
Subject: [PATCH 024/106] fix: small-angle series of (1-cos)/theta^2 in the
 matrix exponentials

---
 src/tf/tfmatrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tf/tfmatrix.c b/src/tf/tfmatrix.c
index f95979c..d5b1435 100644
--- a/src/tf/tfmatrix.c
+++ b/src/tf/tfmatrix.c
@@ -269,7 +269,7 @@ aa_tf_rotmat_expv( const double rv[AA_RESTRICT 4], double E[9] )
 
     if( theta2*theta2 < DBL_EPSILON ) {
         sc = aa_tf_sinc_series2(theta2);
-        cc = theta * aa_horner3( theta2, 1./2, -1./24, 1./720 );
+        cc = aa_horner3( theta2, 1./2, -1./24, 1./720 );
     } else {
         double s = sin(theta), c = cos(theta);
         sc = s/theta;
@@ -703,7 +703,7 @@ aa_tf_tfmat_expv( const double v[AA_RESTRICT 6],
     double sc, cc, ssc;
     if( theta2*theta2 < DBL_EPSILON ) {
         sc = aa_tf_sinc_series2(theta2);
-        cc = theta * aa_horner3( theta2, 1./2, -1./24, 1./720 );
+        cc = aa_horner3( theta2, 1./2, -1./24, 1./720 );
         ssc = aa_horner3( theta2, 1./6, -1./120, 1./5040 );
     } else {
         double s = sin(theta), c = cos(theta);
-- 
2.43.0


From 9917773b8805eb04f5a77f8ba4450d3057c25043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:22 +0000
Subject: [PATCH 025/106] fix: Jacobian of the unit quaternion logarithm at the
 identity

---
 src/tf/quat_ord.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index eab059b..2101b2e 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -681,6 +681,12 @@ static void qjuln(
 
     double s2 = aa_tf_vdot(q,q);
     double s = sqrt(s2);
+    if( s2 < DBL_EPSILON*DBL_EPSILON && w > 0 ) {
+        /* limit at the identity */
+        for( size_t i = 0; i < 12; i++ ) J[i] = (0 == i % 4 ) ? 1 : 0;
+        J[9] = -x; J[10] = -y; J[11] = -z;
+        return;
+    }
     double phi = atan2(s, w); // always positive
     double isc = phi/s;
     double a = isc/s2;
-- 
2.43.0


From 3afbdc3f9513be00a25fb1cd1fd71f77581a870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:10 +0000
Subject: [PATCH 026/106] fix: collision cylinders were offset by their
 unscaled height

---
 src/rx/amino_fcl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 2596851..e514276 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -401,7 +401,8 @@ s_update_tf( const struct aa_rx_cl *cl,
          */
         if( AA_RX_CYLINDER == shape_type ) {
             struct aa_rx_shape_cylinder *shape = (struct aa_rx_shape_cylinder *)  shape_;
-            double E[7] = {0,0,0,1, 0,0, shape->height/2};
+            double scale = aa_rx_geom_opt_get_scale(aa_rx_geom_get_opt(geom));
+            double E[7] = {0,0,0,1, 0,0, scale*shape->height/2};
             double E1[7];
             aa_tf_qutr_mul(TF_obj, E, E1);
             obj->setTransform(amino::fcl::qutr2fcltf(E1));
-- 
2.43.0


From 3299176cbb4898f36950f25815247af8c045ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:22 +0000
Subject: [PATCH 027/106] fix: separation distances of parallel boxes and
 cylinders were overestimated by the libccd solver

---
 src/rx/amino_fcl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index e514276..71fac7e 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -658,6 +658,8 @@ cl_dist_callback( ::amino::fcl::CollisionObject *o1,
     struct dist_ent *ent = s_get_dist_ent(data, id1, id2);
 
     ::amino::fcl::DistanceRequest request(true);
+    /* The libccd solver may stop at vertices of parallel boxes */
+    request.gjk_solver_type = ::fcl::GST_INDEP;
     ::amino::fcl::DistanceResult result;
     ::fcl::distance(o1, o2, request, result);
 
-- 
2.43.0


From 71bdc63db7533f5d1c2c5d5228299ec7b5bd119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:37 +0000
Subject: [PATCH 028/106] fix: aa_dmat_inc of square views overran the columns
 instead of following the leading dimension

---
 src/mat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat.c b/src/mat.c
index fc75de6..9233732 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -504,7 +504,7 @@ aa_dmat_inc( struct aa_dmat *A, double alpha )
     size_t m=A->rows, n=A->cols, ld=A->ld;
     double *x = A->data;
 
-    if( m == n ) {
+    if( m == ld ) {
         s_inc(m*n, alpha, x, 1);
     } else {
         for( double *e = x + n*ld; x < e; x+=ld ) {
-- 
2.43.0


From 53a277b13da3f03a1d3fd33d837fba0d484888dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:37 +0000
Subject: [PATCH 029/106] fix: aa_dmat_gemm ignored transposition when checking
 and passing sizes

---
 src/mat.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mat.c b/src/mat.c
index 9233732..f1b7de8 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -396,9 +396,16 @@ aa_dmat_gemm( AA_CBLAS_TRANSPOSE transA, AA_CBLAS_TRANSPOSE transB,
               const struct aa_dmat *B,
               double beta, struct aa_dmat *C )
 {
-    aa_la_check_size( A->rows, C->rows );
-    aa_la_check_size( A->cols, B->rows );
-    aa_la_check_size( B->cols, C->cols );
+    /* dimensions of op(A) and op(B) */
+    const int ta = (CblasNoTrans != transA), tb = (CblasNoTrans != transB);
+    const size_t m  = ta ? A->cols : A->rows;
+    const size_t ka = ta ? A->rows : A->cols;
+    const size_t kb = tb ? B->cols : B->rows;
+    const size_t n  = tb ? B->rows : B->cols;
+
+    aa_la_check_size( m, C->rows );
+    aa_la_check_size( ka, kb );
+    aa_la_check_size( n, C->cols );
 
     assert( A->rows <= A->ld );
     assert( B->rows <= B->ld );
@@ -406,7 +413,7 @@ aa_dmat_gemm( AA_CBLAS_TRANSPOSE transA, AA_CBLAS_TRANSPOSE transB,
 
     cblas_dgemm( CblasColMajor,
                  transA, transB,
-                 MAT_ROWS(A), MAT_COLS(B), MAT_COLS(A),
+                 (int)m, (int)n, (int)ka,
                  alpha, AA_MAT_ARGS(A),
                  AA_MAT_ARGS(B),
                  beta, AA_MAT_ARGS(C) );
-- 
2.43.0


From 6ce3f020774cdaa0a815f849142c78bcbcd3b635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:37 +0000
Subject: [PATCH 030/106] fix: pseudoinverses into a strided matrix wrote
 outside its columns

---
 src/mat.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mat.c b/src/mat.c
index f1b7de8..fcf3a30 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -648,12 +648,11 @@ aa_dmat_pinv( const struct aa_dmat *A, double tol, struct aa_dmat *As )
 
     // \sum 1/s_i * v_i * u_i^T
     aa_dmat_zero(As);
-    double *Asd = As->data;
     for( size_t i = 0; i < kmin && S[i] > tol; i ++ ) {
         cblas_dger( CblasColMajor, ni, mi, 1/S[i],
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    AA_MAT_ARGS(As)
             );
     }
 
@@ -832,7 +831,6 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
 
     // \sum s_i/(s_i**2+k) * v_i * u_i^T
     aa_dmat_zero(As);
-    double *Asd = As->data;
     size_t i = 0;
 
     // Undamped parts
@@ -840,7 +838,7 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
         cblas_dger( CblasColMajor, ni, mi, 1/S[i],
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    AA_MAT_ARGS(As)
             );
     }
 
@@ -850,7 +848,7 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
         cblas_dger( CblasColMajor, ni, mi, S[i]/s2,
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    AA_MAT_ARGS(As)
             );
     }
 
-- 
2.43.0


From 94946eebbb27bbab7489db2f0142655160fd6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:26 +0000
Subject: [PATCH 031/106] fix: aa_dmat_gemv checked untransposed sizes for
 conjugate transposes

---
 src/mat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat.c b/src/mat.c
index fcf3a30..6907e27 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -373,7 +373,7 @@ aa_dmat_gemv( AA_CBLAS_TRANSPOSE trans,
               const struct aa_dvec *x,
               double beta, struct aa_dvec *y )
 {
-    if( CblasTrans == trans ) {
+    if( CblasNoTrans != trans ) {
         aa_la_check_size( A->rows, x->len );
         aa_la_check_size( A->cols, y->len );
     } else {
-- 
2.43.0


From ba7c25897d6902ee15e37e21e3b84f80122f5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:42 +0000
Subject: [PATCH 032/106] fix: SVD of a strided matrix read its packed copy
 with the stride of the original

---
 src/la_impl.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 5d8fcd2..4f8b418 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -544,7 +544,7 @@ AA_API int AA_NAME(la,svd)
         int *iwork = AA_MEM_REGION_NEW_N(reg, int, 8*mn);
         LA_WORK( reg, work, lwork,
                  info = AA_CLA_NAME(gesdd) (jobz, mi, ni,
-                                            Ap, (int)lda,
+                                            Ap, mi,
                                             S, U, (int)ldu,
                                             Vt, (int)ldvt,
                                             work, lwork, iwork) );
@@ -552,12 +552,14 @@ AA_API int AA_NAME(la,svd)
         /* Simple */
         const char *jobu = (U && ldu > 0) ? "A" : "N";
         const char *jobvt = (Vt && ldvt > 0) ? "A" : "N";
+        int ldui = (U && ldu > 0) ? (int)ldu : 1;
+        int ldvti = (Vt && ldvt > 0) ? (int)ldvt : 1;
 
         LA_WORK( reg, work, lwork,
                  AA_LAPACK_NAME(gesvd)( jobu, jobvt, &mi, &ni,
                                         Ap, &mi,
-                                        S, U, &mi,
-                                        Vt, &ni,
+                                        S, U, &ldui,
+                                        Vt, &ldvti,
                                         &work[0], &lwork, &info ) );
     }
 
-- 
2.43.0


From 7e709e4c94e3149d9e69b15d0cf4b1b9c8c5335d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:42 +0000
Subject: [PATCH 033/106] fix: QR of a strided matrix read its packed copy with
 the stride of the original

---
 src/la_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 4f8b418..7aa176e 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -506,14 +506,14 @@ AA_API int AA_NAME(la,qr)
         AA_CLA_NAME(laset)('L', mi, ni,
                            0, 0,
                            R, (int)ldr );
-        AA_CLA_NAME(lacpy)('U', mn, ni, Ap, (int)lda,
+        AA_CLA_NAME(lacpy)('U', mn, ni, Ap, mi,
                            R, (int)ldr);
 
     }
 
     if( Q ) {
         /* Fill Q */
-        AA_CLA_NAME(lacpy)('L', mi, ni, Ap, (int)lda,
+        AA_CLA_NAME(lacpy)('L', mi, ni, Ap, mi,
                            Q, (int)ldq);
         LA_WORK( reg, work, lwork,
                  AA_CLA_NAME(orgqr)(mi, mi, mn,
-- 
2.43.0


From ed4a3e367e716c6ef0d4cc948434cb174672ea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:54 +0000
Subject: [PATCH 034/106] fix: eigenvalues of a strided matrix read its packed
 copy with the stride of the original

---
 src/la_impl.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 7aa176e..4733181 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -579,7 +579,6 @@ AA_API int AA_NAME(la,eev)
 {
     int info = -1;
     int ni = (int)n;
-    int ldai = (int)lda;
     struct aa_mem_region *reg = aa_mem_region_local_get();
 
 
@@ -592,7 +591,7 @@ AA_API int AA_NAME(la,eev)
 
     LA_WORK( reg, work, lwork,
              AA_LAPACK_NAME(geev)( jobvl, jobvr,
-                                   &ni, Ap, &ldai,
+                                   &ni, Ap, &ni,
                                    wr, wi,
                                    Vl, &ldvli,
                                    Vr, &ldvri,
-- 
2.43.0


From d5f9e9182a6477c2bb6bb40c4300bc150985112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:16 +0000
Subject: [PATCH 035/106] fix: aa_la_trace summed the absolute values of the
 diagonal

---
 src/la.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/la.c b/src/la.c
index 6b41f8c..94db184 100644
--- a/src/la.c
+++ b/src/la.c
@@ -187,7 +187,10 @@ AA_API void aa_la_transpose( size_t n, double *A  ) {
 }
 
 double aa_la_trace( size_t n, const double *A ) {
-    return cblas_dasum( (int)n, A, (int)(n+1) );
+    double a = 0;
+    for( size_t i = 0; i < n; i ++ )
+        a += AA_MATREF(A,n,i,i);
+    return a;
 }
 
 double aa_la_wdot( size_t n,
-- 
2.43.0


From 51ce426eb172040b9827b750f729959eb62fc01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:16 +0000
Subject: [PATCH 036/106] fix: derivative of quadratic interpolation

---
 src/la.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/la.c b/src/la.c
index 94db184..a4e4ffb 100644
--- a/src/la.c
+++ b/src/la.c
@@ -485,12 +485,10 @@ AA_API void aa_la_quadterp_dx( size_t n,
     double M12 = -(t1+t0)/((t2-t0)*(t2-t1));
     double M22 = 1/((t2-t0)*(t2-t1));
 
-    double ti_2 = ti/2;
-
     for( size_t i = 0; i < n; i ++ ) {
         double b = M10*X0[i] + M11*X1[i] + M12*X2[i];
         double c = M20*X0[i] + M21*X1[i] + M22*X2[i];
-        dXi[i] = b + c*ti_2;
+        dXi[i] = b + 2*c*ti;
     }
 }
 
-- 
2.43.0


From 2a84c6a121896f49fc19b57c44806c64eee34cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:17 +0000
Subject: [PATCH 037/106] fix: single precision medians compared elements as
 doubles

---
 src/la_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 4733181..b30df07 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -629,8 +629,8 @@ AA_API int AA_NAME(la,sysv)
 
 int AA_NAME(la,compar)( const void *_a, const void *_b )
 {
-    double a = *(double*)_a;
-    double b = *(double*)_b;
+    AA_TYPE a = *(const AA_TYPE*)_a;
+    AA_TYPE b = *(const AA_TYPE*)_b;
     if( a < b ) return -1;
     if( a > b ) return 1;
     return 0;
-- 
2.43.0


From 3365834c4270707a53891965b3d455c43fe7a29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:17 +0000
Subject: [PATCH 038/106] fix: column covariance ignored the leading dimension
 of its result

---
 src/la_impl.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index b30df07..42ce654 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -422,13 +422,15 @@ void AA_NAME(la,colcov)
                             (int)m, 1.0, t, 1,
                             E, (int)lde );
     }
-    AA_CBLAS_NAME(scal) ( (int)(m*m),
-                          (AA_TYPE)1.0/(AA_TYPE)(n-1),
-                          E, 1 );
+    for( size_t j = 0; j < m*lde; j+=lde ) {
+        AA_CBLAS_NAME(scal) ( (int)m,
+                              (AA_TYPE)1.0/(AA_TYPE)(n-1),
+                              E+j, 1 );
+    }
     /* fill lower half */
     for( size_t i = 0; i < m; i ++ ) {
         for( size_t j = i+1; j < m; j ++ ) {
-            AA_MATREF(E, m, j, i) = AA_MATREF(E, m, i, j);
+            AA_MATREF(E, lde, j, i) = AA_MATREF(E, lde, i, j);
         }
     }
 }
-- 
2.43.0


From 709db13237f6708a6413c550e6cac29be97bc965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:14 +0000
Subject: [PATCH 039/106] fix: assignment stopped its alternating path at a
 star above the last one

---
 src/la_impl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/la_impl.c b/src/la_impl.c
index 42ce654..2bdc4b9 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -227,6 +227,7 @@ static void AA_NAME(la,opt_hungarian) (
                                     break;
                                 }
                             }
+                            break; // continue from the new column
                         }
                     }
                 }
-- 
2.43.0


From 29a33ff8952427c18ca501f27890c762c31e5d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:14 +0000
Subject: [PATCH 040/106] fix: assignment did not terminate when every cost is
 small or negative

---
 src/la_impl.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 2bdc4b9..9db70da 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -77,8 +77,6 @@ static void AA_NAME(la,opt_hungarian) (
     ssize_t *mask = (ssize_t*)aa_mem_region_local_alloc(sizeof(ssize_t)*n*n);      // length n*n
     ssize_t *path = (ssize_t*)aa_mem_region_local_alloc(sizeof(ssize_t)*2*n*n);    // length 2*n*n
 
-    const AA_TYPE max_cost =
-        AA_NAME(la,mat_max)(n,n,A,lda,NULL,NULL);
     //int mask[n*n];
     size_t zerorc[2] = {0};
     memset(mask,0,n*n*sizeof(mask[0]));
@@ -257,7 +255,7 @@ static void AA_NAME(la,opt_hungarian) (
         case 6: ;
             assert( 6 == step );
             // find smallest uncovered value in cost
-            AA_TYPE minval = max_cost;
+            AA_TYPE minval = (AA_TYPE)HUGE_VAL;
             for( size_t j = 0; j < n; j ++ ) {
                 for( size_t i = 0; i < n; i ++ ) {
                     if( 0 == row_cover[i] &&
-- 
2.43.0


From 6c9c5c373572ddf49aac8a269b20a22fbbd48abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:18 +0000
Subject: [PATCH 041/106] fix: Dormand-Prince evaluated its fifth stage at the
 start of the step

---
 src/sigsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index e592b72..82db3d6 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -481,7 +481,7 @@ void aa_odestep_dorpri45( size_t n, aa_sys_fun sys, const void *cx,
         {35.0/384,       11.0/84.0,     500.0/1113,    125.0/192,  -2187.0/6784}
     };
 
-    static const double c[] = {1.0/5, 3.0/10, 4.0/5, 8/9, 1, 1};
+    static const double c[] = {1.0/5, 3.0/10, 4.0/5, 8.0/9, 1, 1};
 
     // k0 already has dx at x0
 
-- 
2.43.0


From 11e9c9cc5fee0773b17e54e151d5d905de3da825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:18 +0000
Subject: [PATCH 042/106] fix: adaptive integration never advanced time

---
 src/sigsys.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sigsys.c b/src/sigsys.c
index 82db3d6..d6101db 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -650,7 +650,9 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
         sys( sys_cx, t0, x0, k );
 
         for(;;) {
+            double dt_step; /* size of the accepted step */
             for(;;) { /* adaptive loop */
+                dt_step = dt;
                 adaptive_integrator( n, sys, sys_cx,
                                      t, dt,
                                      px0, k, px1, px2 );
@@ -665,6 +667,8 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
                 break;
             }
 
+            t += dt_step;
+
             /* Check if complete */
             if( (check_result = check( check_cx, t, px2, kn)) ) {
                 AA_MEM_CPY(x1, px2, n);
-- 
2.43.0


From 4caf21af538ee7f5e7586b7ed2da78c3d79d63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:18 +0000
Subject: [PATCH 043/106] fix: adaptive integration started steps from the
 derivative of another state

---
 src/sigsys.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index d6101db..1900754 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -668,6 +668,9 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
             }
 
             t += dt_step;
+            /* The last column of k is not the derivative at the
+             * accepted state */
+            sys( sys_cx, t, px2, kn );
 
             /* Check if complete */
             if( (check_result = check( check_cx, t, px2, kn)) ) {
@@ -675,7 +678,7 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
                 break;
             } else {
                 double *tmp = px0; px0 = px2; px2 = tmp;
-                AA_MEM_CPY(k, kn, n); // extract dx to k0
+                sys( sys_cx, t, px0, k ); // check() may have changed the state
             }
         }
     } else {
-- 
2.43.0


From 878e8aaad20e0bf5a2d23ce0b3140e6ac76df877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:14 +0000
Subject: [PATCH 044/106] fix: Cash-Karp swapped the weights of its last two
 stages

---
 src/sigsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index 1900754..613c41b 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -441,7 +441,7 @@ void aa_odestep_rkck45( size_t n, aa_sys_fun sys, const void *cx,
                  dt, k, (int)n,
                  v1, 1,
                  1, x4, 1 );
-    static const double v2[] = { 2825.0/27648, 277.0/14336, 18575.0/48384, 13525.0/55296, 1.0/4};
+    static const double v2[] = { 2825.0/27648, 1.0/4, 18575.0/48384, 13525.0/55296, 277.0/14336};
     cblas_dgemv( CblasColMajor, CblasNoTrans,
                  (int)n, (int)5,
                  dt, k, (int)n,
-- 
2.43.0


From 7fbe9351029b9684bf32641f02b84dce302cbb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:14 +0000
Subject: [PATCH 045/106] fix: planar arm IK failed for targets on the x axis

---
 src/kin.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/kin.c b/src/kin.c
index 8b61f70..d3d8b91 100644
--- a/src/kin.c
+++ b/src/kin.c
@@ -52,13 +52,16 @@ AA_API int aa_kin_planar2_ik_theta2( const double l[2],
     // help out the optimizer
     const double x1=x[0], x2=x[1], l1=l[0], l2=l[1];
 
-    theta_a[0] = atan2((x2*x2*x2*x2+x2*x2*x1*x1+x1*sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2))-l2*l2*x2*x2+x2*x2*l1*l1)/(x2*x2+x1*x1)/x2/l1, (x2*x2*x1+x1*x1*x1-l2*l2*x1+x1*l1*l1-sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2)))/(x2*x2+x1*x1)/l1);
+    // law of cosines, theta_a and theta_b are the two elbow solutions
+    const double r2 = x1*x1 + x2*x2;
+    const double h = copysign( sqrt( ((l1+l2)*(l1+l2) - r2) * (r2 - (l1-l2)*(l1-l2)) ), x2 );
+    const double k1 = r2 + l1*l1 - l2*l2;
+    const double k2 = r2 + l2*l2 - l1*l1;
 
-    theta_b[0] = atan2((x2*x2*x2*x2+x2*x2*x1*x1-x1*sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2))-l2*l2*x2*x2+x2*x2*l1*l1)/(x2*x2+x1*x1)/x2/l1, (x2*x2*x1+x1*x1*x1-l2*l2*x1+x1*l1*l1+sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2)))/(x2*x2+x1*x1)/l1);
-
-      theta_a[1] = atan2((x2*x2*x1*x1-x1*sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2))+l2*l2*x2*x2+x2*x2*x2*x2-x2*x2*l1*l1)/(x2*x2+x1*x1)/l2/x2, (l2*l2*x1-x1*l1*l1+x2*x2*x1+x1*x1*x1+sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2)))/(x2*x2+x1*x1)/l2);
-
-      theta_b[1] = atan2((x2*x2*x1*x1+x1*sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2))+l2*l2*x2*x2+x2*x2*x2*x2-x2*x2*l1*l1)/(x2*x2+x1*x1)/l2/x2, (l2*l2*x1-x1*l1*l1+x2*x2*x1+x1*x1*x1-sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2)))/(x2*x2+x1*x1)/l2);
+    theta_a[0] = atan2( (x2*k1 + x1*h)/r2/l1, (x1*k1 - x2*h)/r2/l1 );
+    theta_b[0] = atan2( (x2*k1 - x1*h)/r2/l1, (x1*k1 + x2*h)/r2/l1 );
+    theta_a[1] = atan2( (x2*k2 - x1*h)/r2/l2, (x1*k2 + x2*h)/r2/l2 );
+    theta_b[1] = atan2( (x2*k2 + x1*h)/r2/l2, (x1*k2 - x2*h)/r2/l2 );
 
       return
           !( aa_feq( l1*cos(theta_a[0]) + l2*cos(theta_a[1]), x1, .001 ) &&
-- 
2.43.0


From 20495349f0a06613b08635da7d1a85b5730accac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:30 +0000
Subject: [PATCH 046/106] fix: segment lists could only be evaluated at
 increasing times

---
 src/ct/traj.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index c8847c4..918b003 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -209,20 +209,24 @@ AA_API int
 aa_ct_seg_list_eval(struct aa_ct_seg_list *list, struct aa_ct_state *state,
                     double t)
 {
-    if (!list->it_on) {
-        list->it = list->list.begin();
-        list->it_on = 1;
+    /* Start from the most recently used segment, since evaluation
+     * times usually increase. */
+    if (list->it_on) {
+        for (; list->it != list->list.end(); list->it++) {
+            int r = (*list->it)->eval(*list->it, state, t);
+            if (r)
+                return r;
+        }
     }
 
-    do {
-        struct aa_ct_seg *seg = *list->it;
-
-        int r;
-        if ((r = seg->eval(seg, state, t)))
+    /* Time may precede the most recently used segment, so search from
+     * the beginning. */
+    list->it_on = 1;
+    for (list->it = list->list.begin(); list->it != list->list.end(); list->it++) {
+        int r = (*list->it)->eval(*list->it, state, t);
+        if (r)
             return r;
-
-        list->it++;
-    } while (list->it != list->list.end());
+    }
 
     list->it_on = 0;
     return AA_CT_SEG_OUT;
-- 
2.43.0


From d6c68bc48de781662b7117ddec147c18c3efead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:30 +0000
Subject: [PATCH 047/106] fix: trapezoidal trajectories accelerated away from
 the goal

---
 src/ct/traj.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 918b003..fbac0a2 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -501,8 +501,8 @@ static int aa_ct_seg_ddq_eval( struct aa_ct_seg *seg,
             dq  = cx->dq0[i];
             q   =  cx->q0[i];
 
-            state->dq[i] = dq - tt * ddq;
-            state->q[i] = q + tt * dq - tt * tt * ddq/2;
+            state->dq[i] = dq + tt * ddq;
+            state->q[i] = q + tt * dq + tt * tt * ddq/2;
         }
         return AA_CT_SEG_IN;
     } else {
-- 
2.43.0


From 4076db767add5b3777e4c86d231793f91ffdbfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:30 +0000
Subject: [PATCH 048/106] fix: multi-joint trapezoidal trajectories exceeded
 velocity limits

---
 src/ct/traj.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index fbac0a2..5d45876 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -524,7 +524,7 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
 {
 
     /* Compute segment time */
-    double dt = 0;
+    double tc = 0; /* longest cruise plus ramp of any configuration */
     double ta = 0;
     size_t n_q = AA_MIN(state0->n_q, state1->n_q);
     double dqmax, ddqmax, dti, q0, q1;
@@ -561,10 +561,16 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
             dti = 2*tai;
         }
 
-        dt = AA_MAX(dt, dti);
+        tc = AA_MAX(tc, dti - tai);
         ta = AA_MAX(ta, tai);
     }
 
+    /* All configurations share the segment and ramp times.  The
+     * velocity is (q1-q0)/(dt-ta) and the acceleration is that over
+     * ta, so both dt-ta and ta must be at least what each
+     * configuration needs. */
+    double dt = ta + tc;
+
     /* Allocate */
     /* Accelearation segment */
     struct aa_ct_seg_ddq *a_cx = AA_MEM_REGION_NEW(reg,struct aa_ct_seg_ddq);
-- 
2.43.0


From 39f026f440b70596ef60439a4d8d60add39867f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:30 +0000
Subject: [PATCH 049/106] fix: evaluating configurations alone crashed on unset
 velocities

---
 src/ct/traj.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 5d45876..1a6e17f 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -369,9 +369,11 @@ static int aa_ct_seg_dq_eval( struct aa_ct_seg *seg,
 
         return AA_CT_SEG_IN;
     } else {
-        tt = cx->t1 - cx->t0;
-        for( size_t i = 0; i < n; i++ ) {
-            state->q[i] = cx->q0[i] + cx->dq[i] * tt;
+        if( state->q ) {
+            tt = cx->t1 - cx->t0;
+            for( size_t i = 0; i < n; i++ ) {
+                state->q[i] = cx->q0[i] + cx->dq[i] * tt;
+            }
         }
         return AA_CT_SEG_OUT;
     }
@@ -501,8 +503,8 @@ static int aa_ct_seg_ddq_eval( struct aa_ct_seg *seg,
             dq  = cx->dq0[i];
             q   =  cx->q0[i];
 
-            state->dq[i] = dq + tt * ddq;
-            state->q[i] = q + tt * dq + tt * tt * ddq/2;
+            if( state->dq ) state->dq[i] = dq + tt * ddq;
+            if( state->q ) state->q[i] = q + tt * dq + tt * tt * ddq/2;
         }
         return AA_CT_SEG_IN;
     } else {
@@ -743,19 +745,25 @@ aa_ct_tj_pb_eval(struct aa_ct_seg *seg, struct aa_ct_state *state, double t)
         for (size_t i = 0; i < c_cx->n_q; i++) {
             double p_dq = (p_cx) ? p_cx->dq[i] : 0;
 
-            state->q[i] = c_cx->q[i] + p_dq * dt + \
-                c_cx->ddq[i] * pow((dt + c_cx->b / 2), 2) / 2;
-            state->dq[i] = p_dq + c_cx->ddq[i] * (dt + c_cx->b / 2);
-            state->ddq[i] = c_cx->ddq[i];
+            if (state->q)
+                state->q[i] = c_cx->q[i] + p_dq * dt + \
+                    c_cx->ddq[i] * pow((dt + c_cx->b / 2), 2) / 2;
+            if (state->dq)
+                state->dq[i] = p_dq + c_cx->ddq[i] * (dt + c_cx->b / 2);
+            if (state->ddq)
+                state->ddq[i] = c_cx->ddq[i];
         }
 
     } else if (n_cx && ((c_cx->t + c_cx->b / 2) <= t
                         && t <= (c_cx->t + c_cx->dt - n_cx->b / 2))) {
         // Linear region
         for (size_t i = 0; i < c_cx->n_q; i++) {
-            state->q[i] = c_cx->q[i] + c_cx->dq[i] * dt;
-            state->dq[i] = c_cx->dq[i];
-            state->ddq[i] = 0;
+            if (state->q)
+                state->q[i] = c_cx->q[i] + c_cx->dq[i] * dt;
+            if (state->dq)
+                state->dq[i] = c_cx->dq[i];
+            if (state->ddq)
+                state->ddq[i] = 0;
         }
 
     } else {
-- 
2.43.0


From 8d297cc6de52660cd4fce3d6787be0e1eb6d5b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:16 +0000
Subject: [PATCH 050/106] fix: SLERP trajectories were always out of range and
 used freed points

---
 include/amino/ct/traj_internal.hpp |  2 ++
 src/ct/traj.cpp                    | 10 ++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/amino/ct/traj_internal.hpp b/include/amino/ct/traj_internal.hpp
index de2eb1f..762ee61 100644
--- a/include/amino/ct/traj_internal.hpp
+++ b/include/amino/ct/traj_internal.hpp
@@ -114,6 +114,8 @@ struct aa_ct_seg_list {
     {
         aa_mem_region_init(&reg, 512);
         it_on = 0;
+        n_q = 0;
+        duration = 0;
     }
 
     ~aa_ct_seg_list(void) {
diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 1a6e17f..9b199e4 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1169,8 +1169,8 @@ static int aa_ct_seg_slerp_eval( struct aa_ct_seg *seg,
         if( state->dX ) AA_MEM_CPY( state->dX, cx->dx, 6 );
     }
     if( state->ddX ) AA_MEM_ZERO(state->ddX,6);
-    if( state->eff ) AA_MEM_ZERO(state->eff,6);
-    return 0;
+    if( state->eff ) AA_MEM_ZERO(state->eff,state->n_q);
+    return (t >= 0 && t <= cx->dt) ? AA_CT_SEG_IN : AA_CT_SEG_OUT;
 }
 
 struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
@@ -1186,10 +1186,12 @@ struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
         // TODO: non-unit time
         s->dt = 1;
 
+        /* Copy, since the point list may be destroyed before the
+         * trajectory is evaluated. */
         auto itr = list->list.begin();
-        s->E0 = (*itr)->state.X;
+        s->E0 = AA_MEM_REGION_DUP(reg, double, (*itr)->state.X, 7);
         itr++;
-        s->E1 = (*itr)->state.X;
+        s->E1 = AA_MEM_REGION_DUP(reg, double, (*itr)->state.X, 7);
 
         // omega
         double qt[4], ql[4];
-- 
2.43.0


From 8b272ebb244ce0f69ac5f9d331bff31c775a9760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:16 +0000
Subject: [PATCH 051/106] fix: trajectory states allocated one number per frame
 and dumped accelerations as efforts

---
 src/ct/state.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ct/state.c b/src/ct/state.c
index 833c634..514fcce 100644
--- a/src/ct/state.c
+++ b/src/ct/state.c
@@ -63,8 +63,8 @@ aa_ct_state_alloc(struct aa_mem_region *reg, size_t n_q, size_t n_tf )
     s->dX = AA_MEM_REGION_NEW_N(reg, double, 6);
     s->ddX = AA_MEM_REGION_NEW_N(reg, double, 6);
 
-    s->TF_abs = AA_MEM_REGION_NEW_N(reg, double, s->n_tf);
-    s->TF_rel = AA_MEM_REGION_NEW_N(reg, double, s->n_tf);
+    s->TF_abs = AA_MEM_REGION_NEW_N(reg, double, 7*s->n_tf);
+    s->TF_rel = AA_MEM_REGION_NEW_N(reg, double, 7*s->n_tf);
 
     return s;
 }
@@ -99,9 +99,9 @@ aa_ct_state_clone(struct aa_mem_region *reg, struct aa_ct_state *dest,
 
     dest->eff = state_clone_helper(reg, src->eff, src->n_q);
 
-    dest->TF_abs = state_clone_helper(reg, src->TF_abs, src->n_tf);
+    dest->TF_abs = state_clone_helper(reg, src->TF_abs, 7*src->n_tf);
 
-    dest->TF_rel = state_clone_helper(reg, src->TF_rel, src->n_tf);
+    dest->TF_rel = state_clone_helper(reg, src->TF_rel, 7*src->n_tf);
 }
 
 // TODO: Finish this
@@ -125,7 +125,7 @@ aa_ct_state_dump(FILE *stream, struct aa_ct_state *state)
 
     if (state->eff) {
         fputs("eff: ", stream);
-        aa_dump_vec(stream, state->ddq, state->n_q);
+        aa_dump_vec(stream, state->eff, state->n_q);
     }
 
     if (state->X) {
-- 
2.43.0


From a426232cfc728eb5111a88b39cd81cc1d04d46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:16 +0000
Subject: [PATCH 052/106] fix: continuity check rejected trapezoidal
 trajectories and left the region unbalanced

---
 src/ct/traj.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 9b199e4..a7aad3c 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1059,6 +1059,7 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
     size_t n_q = aa_ct_seg_list_n_q(segs);
     struct aa_ct_state *state0 = aa_ct_state_alloc(reg, n_q, 0);
     struct aa_ct_state *state1 = aa_ct_state_alloc(reg, n_q, 0);
+    void *top = state0;
     struct aa_ct_state *temp;
 
     aa_ct_seg_list_eval(segs, state1, dt);
@@ -1077,6 +1078,7 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
             fprintf(stderr, "WARNING: trajectory is not continious for seg type: %f, %f\n", state_diff, tol);
             fprintf(stderr, "Vels: dq %f, %f ...\n", state0->dq[0], state0->dq[1]);
             fprintf(stderr, "Times: t0: %f, t1: %f\n", t0, t1);
+            aa_mem_region_pop(reg, top);
             return 1;
         }
 
@@ -1091,12 +1093,18 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
     {
         if (c_seg->type == AA_CT_LIN_SEG)
         {
-            struct aa_ct_seg_dq *p_cx, *c_cx, *n_cx;
-            aa_ct_tj_dq_nbrs(c_seg, &p_cx, &c_cx, &n_cx);
+            // The next segment starts when this one ends.
+            struct aa_ct_seg_dq *c_cx = (struct aa_ct_seg_dq *)c_seg->cx;
             c_seg->eval(c_seg, state0, c_cx->t1);
-            c_seg->next->eval(c_seg->next, state1, n_cx->t0);
+            c_seg->next->eval(c_seg->next, state1, c_cx->t1);
 
         }
+        else if (c_seg->type == AA_CT_ACCL_SEG)
+        {
+            struct aa_ct_seg_ddq *c_cx = (struct aa_ct_seg_ddq *)c_seg->cx;
+            c_seg->eval(c_seg, state0, c_cx->t1);
+            c_seg->next->eval(c_seg->next, state1, c_cx->t1);
+        }
         else if (c_seg->type == AA_CT_PB_SEG)
         {
             struct aa_ct_seg_pb_cx *p_cx, *c_cx, *n_cx;
@@ -1107,6 +1115,7 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
         else
         {
             // Why does the segment have a weird type?
+            aa_mem_region_pop(reg, top);
             return 3;
         }
         double state_diff = 0.0;
@@ -1120,12 +1129,12 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
             // Max distance between two segment endpoints exceed the given epsilon.
             fprintf(stderr, "WARNING: trajectory segment endpoints don't match for seg type %d: "
                     "%f, %f.\n", c_seg->type, state_diff, eps);
+            aa_mem_region_pop(reg, top);
             return 2;
         }
     }
 
-    aa_mem_region_pop(reg, state0);
-    aa_mem_region_pop(reg, state1);
+    aa_mem_region_pop(reg, top);
 
     // All good!
     return 0;
-- 
2.43.0


From 1426c716ed4cc0b604804dc3ad5b3520c5bdd064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:16 +0000
Subject: [PATCH 053/106] fix: absent scene graph limits were reported as zero

---
 src/rx/rx_ct.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/rx/rx_ct.c b/src/rx/rx_ct.c
index 9ed0ab7..21fbc6f 100644
--- a/src/rx/rx_ct.c
+++ b/src/rx/rx_ct.c
@@ -299,14 +299,18 @@ aa_rx_ct_sg_limits( struct aa_mem_region *region, const struct aa_rx_sg *sg )
     lim->max = aa_ct_state_alloc(region, n_q, 0);
 
     for( size_t i = 0; i < n_q; i ++ ) {
-        aa_rx_sg_get_limit_pos(sg, (aa_rx_config_id)i,
-                               lim->min->q+i, lim->max->q+i);
-        aa_rx_sg_get_limit_vel(sg, (aa_rx_config_id)i,
-                               lim->min->dq+i, lim->max->dq+i);
-        aa_rx_sg_get_limit_acc(sg, (aa_rx_config_id)i,
-                               lim->min->ddq+i, lim->max->ddq+i);
-        aa_rx_sg_get_limit_eff(sg, (aa_rx_config_id)i,
-                               lim->min->eff+i, lim->max->eff+i);
+        if( aa_rx_sg_get_limit_pos(sg, (aa_rx_config_id)i,
+                                   lim->min->q+i, lim->max->q+i) )
+            set_inf( lim->min->q+i, lim->max->q+i );
+        if( aa_rx_sg_get_limit_vel(sg, (aa_rx_config_id)i,
+                                   lim->min->dq+i, lim->max->dq+i) )
+            set_inf( lim->min->dq+i, lim->max->dq+i );
+        if( aa_rx_sg_get_limit_acc(sg, (aa_rx_config_id)i,
+                                   lim->min->ddq+i, lim->max->ddq+i) )
+            set_inf( lim->min->ddq+i, lim->max->ddq+i );
+        if( aa_rx_sg_get_limit_eff(sg, (aa_rx_config_id)i,
+                                   lim->min->eff+i, lim->max->eff+i) )
+            set_inf( lim->min->eff+i, lim->max->eff+i );
     }
 
     return lim;
-- 
2.43.0


From 0179671c6bcf6b5ca1629e3feba694faaeee55e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:16 +0000
Subject: [PATCH 054/106] fix: trajectory segments without motion had undefined
 velocity

---
 src/ct/traj.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index a7aad3c..e79c713 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -420,9 +420,9 @@ aa_ct_seg_dq_new( struct aa_mem_region *reg,
         }
     }
 
-    /* Compute velocity */
+    /* Compute velocity, which is zero when there is no motion */
     for( size_t i = 0; i < cx->n_q; i ++ ) {
-        cx->dq[i] /= dt;
+        if( dt > 0 ) cx->dq[i] /= dt;
     }
     cx->t1 = cx->t0 + dt;
 
@@ -642,7 +642,7 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
         double q_diff = (q1-q0);
         double denom = ta * ta + ta * ( dt - 2 * ta );
 
-        double ddq = q_diff/denom;
+        double ddq = (denom > 0) ? q_diff/denom : 0;
 
         a_cx->ddq[i] = ddq;
 
-- 
2.43.0


From 51cfd46559a1e378e335ff07ca97009f5a7e7b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:16 +0000
Subject: [PATCH 055/106] fix: trapezoidal trajectories leaked; first list
 elements read past an empty list

---
 src/ct/traj.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index e79c713..f9457a0 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -60,7 +60,7 @@ aa_ct_list_add(T *list, U *el)
     if (list->list.size())
         list->list.back()->next = el;
 
-    el->prev = list->list.back();
+    el->prev = list->list.size() ? list->list.back() : NULL;
     list->list.push_back(el);
 }
 
@@ -79,7 +79,7 @@ aa_ct_list_add_front(T *list, U *el)
         list->list.front()->prev = el;
     }
 
-    el->next = list->list.front();
+    el->next = list->list.size() ? list->list.front() : NULL;
     list->list.insert(list->list.begin(), el);
 }
 
@@ -676,7 +676,7 @@ struct aa_ct_seg_list *aa_ct_tjq_trap_generate( struct aa_mem_region *reg,
             fprintf(stderr,
                     "WARNING: mistmactched confiuration count during trajectory generation.\n");
         }
-        struct aa_ct_seg **seg_arr = AA_NEW_AR(aa_ct_seg*, 3);
+        struct aa_ct_seg *seg_arr[3];
 
         aa_ct_seg_trap_new( reg, segs->duration,
                             &(*itr0)->state, &(*itr1)->state,
-- 
2.43.0


From 25dcb925f0a20cef128ba440c4779d39e4cf07cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:10 +0000
Subject: [PATCH 056/106] fix: dumping empty vectors and matrices read out of
 bounds

---
 src/debug.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/debug.c b/src/debug.c
index 6a631e4..0f16e09 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -66,35 +66,39 @@ aa_tock(void) {
 
 AA_API void
 aa_dump_vec( FILE *file, const double *v, size_t n ) {
-    for( size_t i = 0; i < n-1; i ++ )
+    for( size_t i = 0; i + 1 < n; i ++ )
         fprintf(file, "%f\t", v[i] );
-    fprintf(file, "%f\n", v[n-1]);
+    if( n ) fprintf(file, "%f", v[n-1]);
+    fputc('\n', file);
 }
 
 AA_API void
 aa_dump_vecf( FILE *file, const float *v, size_t n ) {
-    for( size_t i = 0; i < n-1; i ++ )
+    for( size_t i = 0; i + 1 < n; i ++ )
         fprintf(file, "%f\t", v[i] );
-    fprintf(file, "%f\n", v[n-1]);
+    if( n ) fprintf(file, "%f", v[n-1]);
+    fputc('\n', file);
 }
 
 AA_API void
 aa_dump_mat( FILE *file, const double *A, size_t m, size_t n  ) {
     for( size_t i = 0; i < m; i ++ ) {
-        for( size_t j = 0; j < n-1; j ++ ) {
+        for( size_t j = 0; j + 1 < n; j ++ ) {
             fprintf(file, "%f\t", AA_MATREF(A, m,i,j));
         }
-        fprintf(file, "%f\n", AA_MATREF(A, m, i, n-1) );
+        if( n ) fprintf(file, "%f", AA_MATREF(A, m, i, n-1) );
+        fputc('\n', file);
     }
 }
 
 AA_API void
 aa_dump_matf( FILE *file, const float *A, size_t m, size_t n  ) {
     for( size_t i = 0; i < m; i ++ ) {
-        for( size_t j = 0; j < n-1; j ++ ) {
+        for( size_t j = 0; j + 1 < n; j ++ ) {
             fprintf(file, "%f\t", AA_MATREF(A, m,i,j));
         }
-        fprintf(file, "%f\n", AA_MATREF(A, m, i, n-1) );
+        if( n ) fprintf(file, "%f", AA_MATREF(A, m, i, n-1) );
+        fputc('\n', file);
     }
 }
 
-- 
2.43.0


From 76cbc2cab6a56af7e9b03109c7c00e7d21972143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:40 +0000
Subject: [PATCH 057/106] fix: give aa_opt_lp_clp its declared C linkage

---
 src/opt/opt_clp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index 28e3473..6b61291 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -347,7 +347,7 @@ AA_API struct aa_opt_cx* aa_opt_clp_crscreate (
 
 
 
-int aa_opt_lp_clp (
+AA_API int aa_opt_lp_clp (
     size_t m, size_t n,
     const double *A, size_t ldA,
     const double *b_lower, const double *b_upper,
-- 
2.43.0


From 160403278f7728b76f42938d921c4805b4914996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:40 +0000
Subject: [PATCH 058/106] fix: report infeasible and unbounded programs with
 GLPK

---
 src/opt/opt_glpk.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 58e16b2..8169ea8 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -69,14 +69,18 @@ static int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     int nb = glp_get_num_bin(lp);
     int ni = glp_get_num_int(lp);
     if( nb + ni > 0 ) {
-        glp_simplex( lp, NULL );
-        r = glp_intopt( lp, NULL );
+        r = glp_simplex( lp, NULL );
+        if( 0 == r ) r = glp_intopt( lp, NULL );
+        if( 0 == r && GLP_OPT != glp_mip_status(lp) ) r = -1;
         /* Result */
         for( int j = 0; j < (int)n; j ++ ) {
             x[j] = glp_mip_col_val( lp, j+1 );
         }
     } else {
         r = glp_simplex( lp, NULL );
+        /* The solver also terminates successfully on infeasible and
+         * unbounded problems */
+        if( 0 == r && GLP_OPT != glp_get_status(lp) ) r = -1;
         /* Result */
         for( int j = 0; j < (int)n; j ++ ) {
             x[j] = glp_get_col_prim( lp, j+1 );
-- 
2.43.0


From 5363ff31a2fb55f08b3902c1a7cfda6be59bdba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:40 +0000
Subject: [PATCH 059/106] fix: do not leak a context in aa_opt_glpk_crscreate

---
 src/opt/opt_glpk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 8169ea8..73c17fb 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -351,7 +351,7 @@ aa_opt_glpk_crscreate (
     }
 
 
-    return cx_finish( &s_vtab, lp );
+    return cx;
 }
 
 
-- 
2.43.0


From 1caa26393a2c3625ceeec4dd5376423e54675f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:20 +0000
Subject: [PATCH 060/106] fix: handle free, equality and ranged rows with
 LP-Solve

---
 src/opt/opt_lpsolve.c | 128 ++++++++++++------------------------------
 1 file changed, 35 insertions(+), 93 deletions(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 809d496..d3455f2 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -180,28 +180,36 @@ s_set_bnd( struct aa_opt_cx *cx, size_t n,
     return 0;
 }
 
-static int s_count_rows( size_t m,
-                         const double *b_lower, const double *b_upper )
+/* Each constraint is one (possibly ranged) row, so that the bounds of
+ * an existing problem may change arbitrarily. */
+static int s_set_row_bnd( lprec *lp, int ilp, double l, double u )
 {
-    int row_count = 0;
-    /* Count constraints */
-    for( size_t i = 0; i < m; i ++ ) {
-        int lb = aa_opt_is_lbound(b_lower[i]);
-        int ub = aa_opt_is_ubound(b_upper[i]);
-        if( !aa_opt_is_free(lb, ub) ) {
-            if( aa_opt_is_bound(lb,ub) ) {
-                row_count += 2;
-            } else {
-                row_count ++;
-            }
-        }
+    int lb = aa_opt_is_lbound(l);
+    int ub = aa_opt_is_ubound(u);
+
+    if( aa_opt_is_eq(l,u) ) {
+        // equality
+        return set_constr_type( lp, ilp, EQ ) && set_rh( lp, ilp, u );
+    } else if( aa_opt_is_geq(lb,ub) ) {
+        // greater than
+        return set_constr_type( lp, ilp, GE ) && set_rh( lp, ilp, l );
+    } else if( aa_opt_is_leq(lb,ub) ) {
+        // less than
+        return set_constr_type( lp, ilp, LE ) && set_rh( lp, ilp, u );
+    } else if( aa_opt_is_bound(lb,ub) ) {
+        // range
+        return set_constr_type( lp, ilp, LE ) && set_rh( lp, ilp, u ) &&
+            set_rh_range( lp, ilp, u - l );
+    } else {
+        // free
+        return set_constr_type( lp, ilp, LE ) &&
+            set_rh( lp, ilp, get_infinite(lp) );
     }
-    return row_count;
 }
 
-static int s_set_row( lprec *lp, int con_type,
+static int s_set_row( lprec *lp,
                       size_t n, const double *A, size_t incA,
-                      int ilp, double val )
+                      int ilp, double l, double u )
 {
     // fill row
     for( size_t j = 0; j < n; j ++ ) {
@@ -210,8 +218,7 @@ static int s_set_row( lprec *lp, int con_type,
         set_mat( lp, ilp, col, v );
     }
     // set cstr
-    set_rh(lp,ilp,val);
-    return  set_constr_type( lp, ilp, con_type );
+    return s_set_row_bnd( lp, ilp, l, u );
 }
 
 
@@ -222,60 +229,16 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
                const double *b_lower, const double *b_upper )
 {
     lprec *lp = (lprec*)cx->data;
-    int row_count = s_count_rows(m, b_lower, b_upper);
-
 
-    int ilp = 1;
     for( size_t i = 0; i < m; i ++ ) {
-        double rh = 0;
-        int con_type = 0;
-        {
-            double l=b_lower[i], u=b_upper[i];
-            int lb = aa_opt_is_lbound(l);
-            int ub = aa_opt_is_ubound(u);
-            if( !aa_opt_is_free(lb,ub) ) {
-                if( aa_feq(l,u,0) ) {
-                    // equality
-                    rh = u;
-                    con_type = EQ;
-                } else if ( aa_opt_is_leq(lb,ub) ) {
-                    // less than
-                    rh = u;
-                    con_type = LE;
-                } else if ( aa_opt_is_geq(lb,ub) ) {
-                    // greater than
-                    rh = l;
-                    con_type = GE;
-                } else if (aa_opt_is_bound(lb,ub) ) {
-                    // leq
-                    if( ! s_set_row( lp, LE,
-                                     n, A+i, ldA,
-                                     ilp, u ) ) {
-                        goto ERROR;
-                    }
-                    ilp++;
-                    // ge
-                    rh = l;
-                    con_type = GE;
-                } else {
-                    assert(0);
-                    goto ERROR;
-                }
-            }
-        }
-        if( ! s_set_row( lp, con_type,
+        if( ! s_set_row( lp,
                          n, A+i, ldA,
-                         ilp, rh ) ) {
-            goto ERROR;
+                         1+(int)i, b_lower[i], b_upper[i] ) ) {
+            return -1;
         }
-        ilp++;
     }
-    assert( ilp == row_count + 1 );
 
     return 0;
-
-ERROR:
-    return -1;
 }
 
 
@@ -325,8 +288,7 @@ AA_API struct aa_opt_cx* aa_opt_lpsolve_gmcreate (
     //int mi = (int)m;
     int ni = (int)n;
 
-    int row_count = s_count_rows(m, b_lower, b_upper);
-    lprec *lp = make_lp(row_count, ni);
+    lprec *lp = make_lp((int)m, ni);
     if( NULL == lp ) goto ERROR;
     set_verbose(lp, 1);
 
@@ -371,7 +333,7 @@ aa_opt_lpsolve_crscreate (
     /* A, b_l, b_u */
     set_add_rowmode(lp, TRUE);
     for( int i = 0; i < mi; i ++ ) {
-        double l=b_lower[i], u=b_upper[i];
+        double u=b_upper[i];
         int start = A_row_ptr[i];
         int end = A_row_ptr[i + 1];
         int count = end - start;
@@ -381,32 +343,12 @@ aa_opt_lpsolve_crscreate (
         for( int j = 0; j < count; j ++ ) {
             inds[j] = raw_inds[j] + 1;
         }
-        double rh;
-        int con_type;
-        if( aa_feq(l,u,0) ) {
-            // equality
-            con_type = EQ;
-            rh = u;
-        } else {
-            int lb = aa_opt_is_lbound(l);
-            int ub = aa_opt_is_ubound(u);
-            if ( aa_opt_is_leq(lb,ub) )  {
-                // less than
-                con_type = LE;
-                rh = u;
-            } else if ( aa_opt_is_geq(lb,ub) )  {
-                rh = l;
-                con_type = GE;
-            } else {
-                // leq
-                add_constraintex(lp, count, vals, inds, LE, u);
-                con_type = GE;
-                rh = l;
-            }
-        }
-        add_constraintex(lp, count, vals, inds, con_type, rh);
+        add_constraintex(lp, count, vals, inds, LE, u);
     }
     set_add_rowmode(lp, FALSE);
+    for( int i = 0; i < mi; i ++ ) {
+        s_set_row_bnd( lp, 1+i, b_lower[i], b_upper[i] );
+    }
 
     return s_finish(m,n,lp,
                     c, x_lower, x_upper);
-- 
2.43.0


From cdc69b0e5a4baaad4ced5b19c09934c04f38b05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 061/106] fix: report empty unbounded columns as unbounded with
 LP-Solve

---
 src/opt/opt_lpsolve.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index d3455f2..ef03f22 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -91,6 +91,11 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     int r = solve(lp);
     assert((int)n == get_Ncolumns(lp));
 
+    /* LP-Solve reports an unbounded empty column as optimal */
+    if( OPTIMAL == r && is_infinite(lp, get_objective(lp)) ) {
+        r = UNBOUNDED;
+    }
+
     /* result */
     get_variables(lp,x);
 
-- 
2.43.0


From ee77768f2e5cf9752badf4e7cb00557bc4150809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:39 +0000
Subject: [PATCH 062/106] fix: do not warm start GLPK from the basis of another
 matrix

---
 src/opt/opt_glpk.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 73c17fb..b653f5e 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -249,6 +249,10 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
 {
     s_set_cstr_mat_gm( cx, m, n, A, ldA );
     s_set_cstr_bnd( cx, m, b_lower, b_upper );
+
+    /* The basis of the previous constraint matrix may be singular now;
+     * GLPK aborts when a basic column became empty. */
+    glp_std_basis( (glp_prob*)(cx->data) );
     return 0;
 }
 
-- 
2.43.0


From ddf32277eddde65c458295f7adfa5424d785cad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:21 +0000
Subject: [PATCH 063/106] fix: do not warm start LP-Solve from a basis for
 other bounds

---
 src/opt/opt_lpsolve.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index ef03f22..492035c 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -88,6 +88,10 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
 {
 
     lprec *lp = (lprec*)cx->data;
+
+    /* The final basis of a previous solve may be invalid for modified
+     * bounds */
+    default_basis(lp);
     int r = solve(lp);
     assert((int)n == get_Ncolumns(lp));
 
-- 
2.43.0


From 6fbd62065877d9485cce70efc14e8bda6bbc82f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:49 +0000
Subject: [PATCH 064/106] fix: recognise scaled unbounded columns with LP-Solve

---
 src/opt/opt_lpsolve.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 492035c..e0956da 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -95,8 +95,9 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     int r = solve(lp);
     assert((int)n == get_Ncolumns(lp));
 
-    /* LP-Solve reports an unbounded empty column as optimal */
-    if( OPTIMAL == r && is_infinite(lp, get_objective(lp)) ) {
+    /* LP-Solve reports an unbounded empty column as optimal, at its
+     * infinity divided by the scale of the column */
+    if( OPTIMAL == r && fabs(get_objective(lp)) >= 1e-6*get_infinite(lp) ) {
         r = UNBOUNDED;
     }
 
-- 
2.43.0


From d8ca5a713af36f07e67b06f7a8e69c1aed7b5096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:59 +0000
Subject: [PATCH 065/106] fix: CLP back end reported unbounded programs as
 optimal

The presolver behind initialSolve() may drop the unbounded ray; confirm
its optimal status with the primal simplex.
---
 src/opt/opt_clp.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index 6b61291..497ccc8 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -56,6 +56,9 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
 
     try {
         r = M->initialSolve();
+        /* The presolver may report unbounded problems as optimal:
+         * have the simplex confirm the result. */
+        if( 0 == r ) r = M->primal();
     } catch (CoinError e) {
         e.print();
         return -1;
-- 
2.43.0


From cb244f402ada22a18fb6e79c79ac1e7787fb3a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 066/106] fix: aa_rx_ik_parm_set_algo() was declared but not
 defined

---
 src/rx/ik_opt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rx/ik_opt.c b/src/rx/ik_opt.c
index 6154efd..2c0c998 100644
--- a/src/rx/ik_opt.c
+++ b/src/rx/ik_opt.c
@@ -98,6 +98,13 @@ aa_rx_ik_parm_destroy( struct aa_rx_ik_parm *opts)
 
 AA_DEF_SETTER( aa_rx_ik_parm, enum aa_rx_ik_algo, ik_algo )
 
+AA_API void
+aa_rx_ik_parm_set_algo( struct aa_rx_ik_parm *parm,
+                        enum aa_rx_ik_algo algo )
+{
+    parm->ik_algo = algo;
+}
+
 AA_DEF_SETTER( aa_rx_ik_parm, double, dt )
 AA_DEF_SETTER( aa_rx_ik_parm, double, tol_angle )
 AA_DEF_SETTER( aa_rx_ik_parm, double, tol_trans )
-- 
2.43.0


From facbf0385314e1b3a2a7343f49f4d2f6b14f4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 067/106] fix: quaternion IK error took the dual quaternion
 logarithm

---
 src/rx/ik_nlopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/ik_nlopt.c b/src/rx/ik_nlopt.c
index 376b593..11022e1 100644
--- a/src/rx/ik_nlopt.c
+++ b/src/rx/ik_nlopt.c
@@ -323,7 +323,7 @@ static double s_nlobj_qv_fd_helper( void *vcx, const struct aa_dvec *x)
 
     double q_ln[4];
     aa_tf_qminimize(q_err);
-    aa_tf_duqu_ln(q_err, q_ln);
+    aa_tf_qln(q_err, q_ln);
 
     for(size_t i = 0; i < 3; i ++ ) v_err[i] = v_act[i] - v_ref[i];
 
-- 
2.43.0


From 3a6d7dccc5e46c6a8d871e11b698bf55d4da6c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 068/106] fix: restarted IK attempts had no iterations left

---
 src/rx/scene_ik.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index 69de973..ee26c60 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -258,6 +258,7 @@ aa_rx_ik_solve( const struct aa_rx_ik_cx *context,
             aa_dump_vec(stderr, q->data, q->len);
         }
         restart = 0;
+        kcx->iteration = 0;
         switch(context->opts->ik_algo) {
         case AA_RX_IK_JPINV:
             assert(q->inc == 1);
-- 
2.43.0


From 45360a1744259676d9d661c320a07fe13b9b934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 069/106] fix: aa_rx_ik_solve() leaked from the local region on
 invalid targets

---
 src/rx/scene_ik.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index ee26c60..47a5876 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -223,6 +223,7 @@ aa_rx_ik_solve( const struct aa_rx_ik_cx *context,
 {
     if( aa_rx_sg_sub_config_count(context->ssg) != q->len
         || AA_RX_TF_LEN != TF->rows
+        || 1 != TF->cols /* only chains */
         )
     {
         return AA_RX_INVALID_PARAMETER;
@@ -232,10 +233,6 @@ aa_rx_ik_solve( const struct aa_rx_ik_cx *context,
     struct kin_solve_cx *kcx = s_kin_solve_cx_alloc( context,
                                                      aa_mem_region_local_get() );
 
-    if( 1 != TF->cols )
-    {   /* only chains */
-        return AA_RX_INVALID_PARAMETER;
-    }
     kcx->TF_ref = TF;
 
     /* aa_rx_sg_tf( kcx->ssg->scenegraph, */
-- 
2.43.0


From 83d66e3ec9b8750c4649ae3a58faba86386c6a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 070/106] fix: aa_rx_ik_check() used uninitialised frame poses

---
 src/rx/scene_ik.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index 47a5876..6401831 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -396,6 +396,7 @@ aa_rx_ik_check( const struct aa_rx_ik_cx *cx,
     aa_rx_sg_sub_config_scatter( cx->ssg, q_sub, q_all );
 
     struct aa_rx_fk *fk = aa_rx_fk_alloc(aa_rx_sg_sub_sg(cx->ssg), reg);
+    aa_rx_fk_cpy(fk, cx->fk);
     aa_rx_fk_sub(fk, cx->ssg, q_sub);
     double *E_act = aa_rx_fk_ref(fk, cx->frames[0]); // TODO: fix for multiple EEs
 
-- 
2.43.0


From 2be4127eed927af55b018bae5449c55c6e43ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 071/106] fix: IK from seeds outside of the joint limits did
 not optimize

---
 src/rx/ik_nlopt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/ik_nlopt.c b/src/rx/ik_nlopt.c
index 11022e1..a6fb8f0 100644
--- a/src/rx/ik_nlopt.c
+++ b/src/rx/ik_nlopt.c
@@ -616,6 +616,8 @@ s_ik_nlopt( struct kin_solve_cx *cx,
                 lb[i] = -DBL_MAX;
                 ub[i] = DBL_MAX;
             }
+            /* The optimizer refuses initial points out of bounds */
+            cx->q_sub->data[i] = aa_fclamp( cx->q_sub->data[i], lb[i], ub[i] );
         }
     }
 
-- 
2.43.0


From 89b9f2c71253cc131eadecbcf5cfcbebabe4556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 072/106] fix: aa_rx_ik_parm_destroy() leaked the seed

---
 src/rx/ik_opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/ik_opt.c b/src/rx/ik_opt.c
index 2c0c998..fede5aa 100644
--- a/src/rx/ik_opt.c
+++ b/src/rx/ik_opt.c
@@ -93,6 +93,7 @@ aa_rx_ik_parm_destroy( struct aa_rx_ik_parm *opts)
 {
     if( opts->dq_dt_data ) free( opts->dq_dt_data );
     if( opts->q_ref_data ) free( opts->q_ref_data );
+    if( opts->q_all_seed_data ) free( opts->q_all_seed_data );
     free(opts);
 }
 
-- 
2.43.0


From 2c822de4f4886191bf2e678cea176dbb376364c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 073/106] fix: LC3 null-space motion used the workspace size

---
 src/rx/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/lc3.c b/src/rx/lc3.c
index 549ebd8..d179ff3 100644
--- a/src/rx/lc3.c
+++ b/src/rx/lc3.c
@@ -347,7 +347,7 @@ aa_rx_wk_dx2dq_lc3( const struct aa_rx_wk_lc3_cx *cx,
                      1.0, AA_VEC_ARGS(dq) );
 
         // Nullspace Projection
-        cblas_daxpy( (int)n_x,
+        cblas_daxpy( (int)n_q,
                      opt_x[n_x], A+(n_x*n_q), 1,
                      AA_VEC_ARGS(dq) );
 
-- 
2.43.0


From b9e34546adcdebe345c17442d49593e1c6965500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 074/106] fix: centering velocity of locked joints was not a
 number

---
 src/rx/scene_wk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scene_wk.c b/src/rx/scene_wk.c
index 6be8d5c..9ee172e 100644
--- a/src/rx/scene_wk.c
+++ b/src/rx/scene_wk.c
@@ -161,7 +161,7 @@ aa_rx_wk_dqcenter( const struct aa_rx_sg_sub *ssg,
             *xdq_r =  0;
         } else {
             double c = (max + min)/2;
-            double d = (c - *xq) / (max - min);
+            double d = (max > min) ? (c - *xq) / (max - min) : 0;
             *xdq_r =  opts->gain_np * d;// * fabs(d);
         }
     }
-- 
2.43.0


From 7e98b8c433048e93ac1120e65f6e597018e50026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:32 +0000
Subject: [PATCH 075/106] fix: LP-Solve back end ignored contradictory bounds

---
 src/opt/opt_internal.h |  2 ++
 src/opt/opt_lpsolve.c  | 33 ++++++++++++++++++++++++++-------
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/opt/opt_internal.h b/src/opt/opt_internal.h
index 7a7937c..a0f8a24 100644
--- a/src/opt/opt_internal.h
+++ b/src/opt/opt_internal.h
@@ -133,6 +133,7 @@ struct aa_opt_vtab {
 struct aa_opt_cx {
     struct aa_opt_vtab *vtab;
     void *data;
+    int cstr_empty;    ///< some constraint has no solution
 };
 
 static inline struct aa_opt_cx* cx_finish ( struct aa_opt_vtab *vtab, void *p )
@@ -141,6 +142,7 @@ static inline struct aa_opt_cx* cx_finish ( struct aa_opt_vtab *vtab, void *p )
         struct aa_opt_cx *cx = AA_NEW(struct aa_opt_cx);
         cx->vtab = vtab;
         cx->data = p;
+        cx->cstr_empty = 0;
         return cx;
     } else {
         return NULL;
diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index e0956da..97f0101 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -89,6 +89,9 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
 
     lprec *lp = (lprec*)cx->data;
 
+    /* LP-Solve takes the magnitude of the range of a row */
+    if( cx->cstr_empty ) return INFEASIBLE;
+
     /* The final basis of a previous solve may be invalid for modified
      * bounds */
     default_basis(lp);
@@ -179,13 +182,19 @@ s_set_obj( struct aa_opt_cx *cx, size_t n, const double * c)
     return 0;
 }
 
+/* set_bounds() ignores bounds that no value satisfies */
+static int s_set_col_bnd( lprec *lp, int jlp, double l, double u )
+{
+    return set_lowbo( lp, jlp, l ) && set_upbo( lp, jlp, u );
+}
+
 static int
 s_set_bnd( struct aa_opt_cx *cx, size_t n,
            const double * x_lower, const double *x_upper)
 {
     lprec *lp = (lprec*)cx->data;
     for( size_t j = 0; j < n; j ++ ) {
-        set_bounds( lp, 1+(int)j, x_lower[j], x_upper[j] );
+        s_set_col_bnd( lp, 1+(int)j, x_lower[j], x_upper[j] );
     }
     return 0;
 }
@@ -217,6 +226,15 @@ static int s_set_row_bnd( lprec *lp, int ilp, double l, double u )
     }
 }
 
+/* Is there a row that no value satisfies? */
+static int s_rows_empty( size_t m, const double *l, const double *u )
+{
+    for( size_t i = 0; i < m; i ++ ) {
+        if( l[i] > u[i] ) return 1;
+    }
+    return 0;
+}
+
 static int s_set_row( lprec *lp,
                       size_t n, const double *A, size_t incA,
                       int ilp, double l, double u )
@@ -240,6 +258,7 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
 {
     lprec *lp = (lprec*)cx->data;
 
+    cx->cstr_empty = s_rows_empty( m, b_lower, b_upper );
     for( size_t i = 0; i < m; i ++ ) {
         if( ! s_set_row( lp,
                          n, A+i, ldA,
@@ -278,7 +297,7 @@ s_finish (
 
     /* l/u */
     for( size_t j = 0; j < n; j ++ ) {
-        set_bounds( lp, 1+(int)j, x_lower[j], x_upper[j] );
+        s_set_col_bnd( lp, 1+(int)j, x_lower[j], x_upper[j] );
     }
 
     return cx_finish( &vtab, lp );
@@ -311,9 +330,7 @@ AA_API struct aa_opt_cx* aa_opt_lpsolve_gmcreate (
     s_set_obj(cx, n, c );
     s_set_cstr_gm( cx, m, n, A, ldA, b_lower, b_upper );
 
-
-    return s_finish(m,n,lp,
-                    c, x_lower, x_upper);
+    return cx;
 
 ERROR:
     if( lp ) {
@@ -360,6 +377,8 @@ aa_opt_lpsolve_crscreate (
         s_set_row_bnd( lp, 1+i, b_lower[i], b_upper[i] );
     }
 
-    return s_finish(m,n,lp,
-                    c, x_lower, x_upper);
+    struct aa_opt_cx *cx = s_finish(m,n,lp,
+                                    c, x_lower, x_upper);
+    if( cx ) cx->cstr_empty = s_rows_empty( m, b_lower, b_upper );
+    return cx;
 }
-- 
2.43.0


From 190e7d1706b34c7c1f96bf6adc16a4076a548b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:13 +0000
Subject: [PATCH 076/106] fix: motion planner kept allowing a disallowed
 collision

---
 src/rx/mp/scene_state_validity_checker.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_state_validity_checker.cpp b/src/rx/mp/scene_state_validity_checker.cpp
index 1ad7daf..396db50 100644
--- a/src/rx/mp/scene_state_validity_checker.cpp
+++ b/src/rx/mp/scene_state_validity_checker.cpp
@@ -95,7 +95,16 @@ void sgStateValidityChecker::set_start( size_t n_q, double *q_initial)
 
 void sgStateValidityChecker::allow( )
 {
-    aa_rx_cl_allow_set( cl, getTypedStateSpace()->allowed );
+    /* Make the checker agree with the allowed set, including pairs
+     * that are no longer allowed */
+    sgStateSpace *space = getTypedStateSpace();
+    aa_rx_frame_id n_f = (aa_rx_frame_id)space->frame_count();
+    for( aa_rx_frame_id i = 0; i < n_f; i ++ ) {
+        for( aa_rx_frame_id j = 0; j < i; j ++ ) {
+            aa_rx_cl_allow( cl, i, j,
+                            aa_rx_cl_set_get(space->allowed, i, j) );
+        }
+    }
 }
 
 } /* namespace amino */
-- 
2.43.0


From fea4c15c7546a0d9b85dbb5adc007b8ec4af22a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:13 +0000
Subject: [PATCH 077/106] fix: joint goal after workspace goal used freed
 memory

---
 src/rx/mp/scene_ompl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 6e0acd9..67ad3b7 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -165,6 +165,7 @@ aa_rx_mp_set_goal( struct aa_rx_mp *mp,
     mp->validity_checker->allow();
     if( si->isValid( state.get() ) ) {
         mp->problem_definition->setGoalState(state);
+        mp->lazy_samples = NULL; /* the workspace goal is gone */
         return AA_RX_OK;
     } else {
         return AA_RX_INVALID_STATE;
-- 
2.43.0


From 510c381dd905e88dd531a157c67a9df04421cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:13 +0000
Subject: [PATCH 078/106] fix: motion planner returned paths of an earlier
 problem

---
 src/rx/mp/scene_ompl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 67ad3b7..cd89f1a 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -221,6 +221,10 @@ aa_rx_mp_plan( struct aa_rx_mp *mp,
         ompl::base::PlannerPtr(new ompl::geometric::RRTConnect(si)) :
         mp->planner;
 
+    /* Forget earlier solutions and search trees */
+    pdef->clearSolutionPaths();
+    planner->clear();
+
     planner->setProblemDefinition(pdef);
     try {
         if( mp->lazy_samples ) {
-- 
2.43.0


From 98fdcc460c6a532395a3ab8f56276272a5a75695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:13 +0000
Subject: [PATCH 079/106] fix: a new start state did not replace the old one

---
 src/rx/mp/scene_ompl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index cd89f1a..4450eaa 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -110,13 +110,13 @@ aa_rx_mp_set_start( struct aa_rx_mp *mp,
     /* Assume the start state is valid */
     aa_rx_mp_allow_config(mp, n_all, q_all);
 
-    // FIXME: Seems that there are problems if this is called repeatedly
     amino::sgSpaceInformation::Ptr &si = mp->space_information;
     amino::sgStateSpace *ss = si->getTypedStateSpace();
 
     /* Add Start State */
     amino::sgSpaceInformation::ScopedStateType state(si);
     ss->extract_state( q_all, state.get() );
+    mp->problem_definition->clearStartStates();
     mp->problem_definition->addStartState(state);
 
 
-- 
2.43.0


From 3ee1897172707cf369152ace0a2db622944d6c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:13 +0000
Subject: [PATCH 080/106] fix: allowing a configuration replaced the planner's
 start

---
 src/rx/mp/scene_ompl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 4450eaa..ae3cc1f 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -109,6 +109,7 @@ aa_rx_mp_set_start( struct aa_rx_mp *mp,
 {
     /* Assume the start state is valid */
     aa_rx_mp_allow_config(mp, n_all, q_all);
+    mp->validity_checker->set_start(n_all, q_all);
 
     amino::sgSpaceInformation::Ptr &si = mp->space_information;
     amino::sgStateSpace *ss = si->getTypedStateSpace();
@@ -134,7 +135,7 @@ aa_rx_mp_allow_config( struct aa_rx_mp *mp,
     amino::sgStateSpace *ss = si->getTypedStateSpace();
     ss->allow_config(q_all);
 
-    mp->validity_checker->set_start(n_all, q_all);
+    mp->validity_checker->allow();
 }
 
 
-- 
2.43.0


From 1b1758462161ffc41a2d5905a889fe0dff83a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:13 +0000
Subject: [PATCH 081/106] fix: validity checker read uninitialized
 configurations

---
 src/rx/mp/scene_state_validity_checker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_state_validity_checker.cpp b/src/rx/mp/scene_state_validity_checker.cpp
index 396db50..a9314c3 100644
--- a/src/rx/mp/scene_state_validity_checker.cpp
+++ b/src/rx/mp/scene_state_validity_checker.cpp
@@ -52,7 +52,7 @@ namespace amino {
 sgStateValidityChecker::sgStateValidityChecker(sgSpaceInformation *si)
     :
     TypedStateValidityChecker(si),
-    q_all(new double[getTypedStateSpace()->config_count_all()]),
+    q_all(new double[getTypedStateSpace()->config_count_all()]()),
     cl(aa_rx_cl_create(getTypedStateSpace()->scene_graph)),
     collisions(NULL)
 {
-- 
2.43.0


From 74959b2b7af12b98c6342090b47f881b1ac2108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:13 +0000
Subject: [PATCH 082/106] fix: goal distance raced with the sampling thread

---
 src/rx/mp/workspace_goal.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rx/mp/workspace_goal.cpp b/src/rx/mp/workspace_goal.cpp
index 38176af..fb4b947 100644
--- a/src/rx/mp/workspace_goal.cpp
+++ b/src/rx/mp/workspace_goal.cpp
@@ -49,6 +49,7 @@
 
 
 #include "amino/rx/ompl/scene_workspace_goal.h"
+#include "amino/rx/ompl/scene_state_validity_checker.h"
 #include "amino/rx/ompl/scene_ompl_internal.h"
 
 namespace ob = ::ompl::base;
@@ -165,6 +166,13 @@ double sgWorkspaceGoal::distanceGoal (const ompl::base::State *state) const
 {
     amino::sgStateSpace *space = typed_si->getTypedStateSpace();
     const struct aa_dvec *q_start = aa_rx_ik_get_start(this->ik_cx);
+
+    /* The space's memory region is shared with the validity checker,
+     * which the sampling thread also calls */
+    sgStateValidityChecker *vc =
+        static_cast<sgStateValidityChecker*>(typed_si->getStateValidityChecker().get());
+    std::lock_guard<std::mutex> lock(vc->mutex);
+
     double *TF_abs = space->get_tf_abs(state,
                                        q_start->data);
 
-- 
2.43.0


From b7fc4f626a3531f9ca0abca72fc8e2747e01631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:01 +0000
Subject: [PATCH 083/106] fix: goal outside the joint limits was accepted

---
 src/rx/mp/scene_ompl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index ae3cc1f..635e6dc 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -164,7 +164,7 @@ aa_rx_mp_set_goal( struct aa_rx_mp *mp,
     ss->copy_state( q_subset, state.get() );
 
     mp->validity_checker->allow();
-    if( si->isValid( state.get() ) ) {
+    if( si->satisfiesBounds( state.get() ) && si->isValid( state.get() ) ) {
         mp->problem_definition->setGoalState(state);
         mp->lazy_samples = NULL; /* the workspace goal is gone */
         return AA_RX_OK;
-- 
2.43.0


From 80d9c757ec83f3f8781120bf1b4adf77e8a78347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:33 +0000
Subject: [PATCH 084/106] fix: workspace goal rejected its own samples

---
 src/rx/mp/workspace_goal.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rx/mp/workspace_goal.cpp b/src/rx/mp/workspace_goal.cpp
index fb4b947..3292163 100644
--- a/src/rx/mp/workspace_goal.cpp
+++ b/src/rx/mp/workspace_goal.cpp
@@ -131,6 +131,11 @@ sgWorkspaceGoal::sgWorkspaceGoal (const sgSpaceInformation::Ptr &si,
                    E_arg, (int)ldE,
                    this->E, 7 );
 
+    /* Goal distance at which samples within the IK tolerances count
+     * as having reached the goal */
+    setThreshold( (double)n_e * ( weight_orientation * ko->tol_angle +
+                                  weight_translation * ko->tol_trans ) );
+
     /* These settings should be optional */
     // aa_rx_ik_parm_center_seed(ko, ssg);
     // aa_rx_ik_parm_center_configs(ko, ssg, .1);
-- 
2.43.0


From 109c9b4b4e3794791129ee50d4c43cb0bd326f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 085/106] fix: wavefront: parse exponents and long fractions

---
 src/wavefront/wf_obj.c | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index 2438538..515073b 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -120,29 +120,32 @@ aa_rx_wf_parse_float( const char *str )
     /* skip blanks */
     while( *str &&  isblank(*str) ) str++;
 
-    char *e, *g;
-    double r = (double)strtol( str, &e, 10 );
-    long f = ('.' == *e)
-        ? strtol( e+1, &g, 10 )
-        : 0;
-
-    if( f ) {
-        long k = g - e - 1;
-        if( k ) {
-            double x = (double)f;
-            while(k--) x/=10;
-            if( r < 0 || ('-' == *str) )
-                r -= x;
-            else
-                r += x;
+    int neg = ('-' == *str);
+    if( neg ) str++;
+
+    double r = 0;
+    long k = 0; // decimal exponent
+
+    while( isdigit((unsigned char)*str) ) r = 10*r + (*str++ - '0');
+
+    if( '.' == *str ) {
+        str++;
+        while( isdigit((unsigned char)*str) ) {
+            r = 10*r + (*str++ - '0');
+            k--;
         }
     }
 
-    /* printf("t: %s\n", str); */
-    /* printf("r: %f\n", r); */
-    /* printf("a: %f\n", atof(str)); */
+    /* Exponent, separated by any of the characters the scanners accept */
+    if( 'e' == *str || 'd' == *str || 's' == *str ) {
+        k += strtol( str+1, NULL, 10 );
+    }
+
+    if( 0 != r && 0 != k ) {
+        r *= pow(10, (double)k);
+    }
 
-    return r;
+    return neg ? -r : r;
 }
 
 AA_API void
-- 
2.43.0


From 48d5a42b14018cc32c95958aa613681da202a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 086/106] fix: wavefront: reject material properties before
 newmtl

---
 src/wavefront/mtl.l | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index 30f22ce..1bdc452 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -60,6 +60,14 @@
 #include "amino.h"
 #include "wavefront_internal.h"
 
+/* Properties belong to the material that was named last */
+#define REQUIRE_MATERIAL                                                \
+    if( NULL == WF_MTL_CURRENT ) {                                      \
+        fprintf(stderr, "Material property before newmtl (%s:%d)\n",    \
+                yyextra->mtl->filename, yylineno);                      \
+        return -1;                                                      \
+    }
+
 %}
 
 %x EOL
@@ -119,6 +127,7 @@ START {MAYBE_BLANKS}
 
     /* Specular Weight */
 {START}"Ns"{BLANKS} {
+    REQUIRE_MATERIAL;
     BEGIN(NS);
 }
 
@@ -129,6 +138,7 @@ START {MAYBE_BLANKS}
 }
     /* Index of Refraction */
 {START}"Ni"{BLANKS} {
+    REQUIRE_MATERIAL;
     BEGIN(NI);
 }
 
@@ -157,6 +167,7 @@ START {MAYBE_BLANKS}
 
     /* Ambient */
 {START}"Ka"{BLANKS} {
+    REQUIRE_MATERIAL;
     yyextra->v = WF_MTL_CURRENT->ambient;
     BEGIN(KA);
     yy_push_state(V0, yyscanner );
@@ -170,6 +181,7 @@ START {MAYBE_BLANKS}
 
     /* Diffuse */
 {START}"Kd"{BLANKS} {
+    REQUIRE_MATERIAL;
     yyextra->v = WF_MTL_CURRENT->diffuse;
     BEGIN(KD);
     yy_push_state(V0, yyscanner );
@@ -182,6 +194,7 @@ START {MAYBE_BLANKS}
 
     /* Specular */
 {START}"Ks"{BLANKS} {
+    REQUIRE_MATERIAL;
     yyextra->v = WF_MTL_CURRENT->specular;
     BEGIN(KS);
     yy_push_state(V0, yyscanner );
@@ -195,6 +208,7 @@ START {MAYBE_BLANKS}
 
     /* Emission */
 {START}"Ke"{BLANKS} {
+    REQUIRE_MATERIAL;
     yyextra->v = WF_MTL_CURRENT->emission;
     BEGIN(KE);
     yy_push_state(V0, yyscanner );
@@ -209,6 +223,7 @@ START {MAYBE_BLANKS}
 
     /* alpha */
 {START}"d"{BLANKS} {
+    REQUIRE_MATERIAL;
     BEGIN(D);
 }
 
-- 
2.43.0


From 03594a288588a1624519443387e8d6e54c51c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 087/106] fix: wavefront: statements end with the line

---
 src/wavefront/mtl.l       | 2 +-
 src/wavefront/wavefront.l | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index 1bdc452..f948aa6 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -244,7 +244,7 @@ START {MAYBE_BLANKS}
     /* Error */
     /* This rule needs to be last */
 
-<*>. {
+<*>.|\n {
     fprintf(stderr, "Unrecognized character: %s (%s:%d)\n", yytext, yyextra->mtl->filename, yylineno);
     return -1;
 }
diff --git a/src/wavefront/wavefront.l b/src/wavefront/wavefront.l
index 0f62478..99d3077 100644
--- a/src/wavefront/wavefront.l
+++ b/src/wavefront/wavefront.l
@@ -313,7 +313,7 @@ START {MAYBE_BLANKS}
     /* Error */
     /* This rule needs to be last */
 
-<*>. {
+<*>.|\n {
     fprintf(stderr, "Unrecognized character: %s (%s:%d)\n",
                     yytext,
                     aa_rx_wf_obj_get_filename(yyextra->wf_obj),
-- 
2.43.0


From a931cfed7e5e98dd021b081ad8ca58a66f79448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 088/106] fix: wavefront: accept last lines without newline,
 reject truncated statements

---
 src/wavefront/mtl.l       | 38 ++++++++++++++++++++++++++++++++++++--
 src/wavefront/wavefront.l | 18 ++++++++++++++++--
 2 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index f948aa6..923cec0 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -115,6 +115,9 @@ START {MAYBE_BLANKS}
     BEGIN(INITIAL);
 }
 
+    /* Trailing blanks and comments of a last line without newline */
+<INITIAL,EOL,KA,KD,KS,KE>{BLANKS}|{MAYBE_BLANKS}"#".* { }
+
 
 {START}"newmtl"{BLANKS} {
     BEGIN(NEWMTL);
@@ -178,6 +181,11 @@ START {MAYBE_BLANKS}
     BEGIN(INITIAL);
 }
 
+<KA><<EOF>> {
+    WF_MTL_CURRENT->has_ambient = 1;
+    yyterminate();
+}
+
 
     /* Diffuse */
 {START}"Kd"{BLANKS} {
@@ -192,6 +200,11 @@ START {MAYBE_BLANKS}
     BEGIN(INITIAL);
 }
 
+<KD><<EOF>> {
+    WF_MTL_CURRENT->has_diffuse = 1;
+    yyterminate();
+}
+
     /* Specular */
 {START}"Ks"{BLANKS} {
     REQUIRE_MATERIAL;
@@ -205,6 +218,11 @@ START {MAYBE_BLANKS}
     BEGIN(INITIAL);
 }
 
+<KS><<EOF>> {
+    WF_MTL_CURRENT->has_specular = 1;
+    yyterminate();
+}
+
 
     /* Emission */
 {START}"Ke"{BLANKS} {
@@ -220,6 +238,11 @@ START {MAYBE_BLANKS}
     BEGIN(INITIAL);
 }
 
+<KE><<EOF>> {
+    WF_MTL_CURRENT->has_emission = 1;
+    yyterminate();
+}
+
 
     /* alpha */
 {START}"d"{BLANKS} {
@@ -233,11 +256,11 @@ START {MAYBE_BLANKS}
     BEGIN(EOL);
 }
 
-{START}"illum".*{END} {
+{START}"illum".* {
     /* TODO */
 }
 
-{START}"map_Kd".*{END} {
+{START}"map_Kd".* {
     /* TODO */
 }
 
@@ -249,6 +272,17 @@ START {MAYBE_BLANKS}
     return -1;
 }
 
+<INITIAL,EOL><<EOF>> {
+    yyterminate();
+}
+
+<<EOF>> {
+    fprintf(stderr, "Unexpected end of file: %s:%d\n",
+                    yyextra->mtl->filename,
+                    yylineno);
+    return -1;
+}
+
 %%
 
 AA_API struct aa_rx_wf_mtl *
diff --git a/src/wavefront/wavefront.l b/src/wavefront/wavefront.l
index 99d3077..a2df848 100644
--- a/src/wavefront/wavefront.l
+++ b/src/wavefront/wavefront.l
@@ -116,6 +116,9 @@ START {MAYBE_BLANKS}
     BEGIN(INITIAL);
 }
 
+    /* Trailing blanks and comments of a last line without newline */
+<INITIAL,EOL>{BLANKS}|{MAYBE_BLANKS}"#".* { }
+
     /* MTLLIB */
 
 {START}"mtllib"{BLANKS} {
@@ -298,11 +301,11 @@ START {MAYBE_BLANKS}
     BEGIN(FN2);
 }
 
-<FN2>{INT}{END} {
+<FN2>{INT}{MAYBE_BLANKS} {
     /* Normal 2 */
     SET_WF_FACE(n[2]);
     aa_rx_wf_obj_push_face(yyextra->wf_obj, &yyextra->face);
-    BEGIN(INITIAL);
+    BEGIN(EOL);
 }
 
 
@@ -321,6 +324,17 @@ START {MAYBE_BLANKS}
     return -1;
 }
 
+<INITIAL,EOL><<EOF>> {
+    yyterminate();
+}
+
+<<EOF>> {
+    fprintf(stderr, "Unexpected end of file: %s:%d\n",
+                    aa_rx_wf_obj_get_filename(yyextra->wf_obj),
+                    yylineno);
+    return -1;
+}
+
 %%
 
 struct aa_rx_wf_obj *
-- 
2.43.0


From 1ba8484dbfd219f7d5b05fef4548072d42ab96c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 089/106] fix: wavefront: material library getters read one
 past the end

---
 src/wavefront/wf_obj.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index 515073b..e8dd676 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -242,7 +242,7 @@ aa_rx_wf_obj_mtl_count( struct aa_rx_wf_obj *obj )
 AA_API const char *
 aa_rx_wf_obj_get_mtl_filename( struct aa_rx_wf_obj *obj, size_t i )
 {
-    if( i <= obj->mtl_files.size ) {
+    if( i < obj->mtl_files.size ) {
         return obj->mtl_files.data[i];
     } else {
         return NULL;
@@ -252,7 +252,7 @@ aa_rx_wf_obj_get_mtl_filename( struct aa_rx_wf_obj *obj, size_t i )
 AA_API const struct aa_rx_wf_mtl *
 aa_rx_wf_obj_get_mtl( struct aa_rx_wf_obj *obj, size_t i )
 {
-    if( i <= obj->mtl.size ) {
+    if( i < obj->mtl.size ) {
         return obj->mtl.data[i];
     } else {
         return NULL;
-- 
2.43.0


From 160a612fb68cb65eb01c98b7813cd21e1c67f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:00 +0000
Subject: [PATCH 090/106] fix: wavefront: release texture vertices

---
 src/wavefront/wf_obj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index e8dd676..9415096 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -153,6 +153,7 @@ aa_rx_wf_obj_destroy( struct aa_rx_wf_obj * obj)
 {
     free( obj->vertex.data );
     free( obj->normal.data );
+    free( obj->texture_vertex.data );
     free( obj->vertex_indices.data );
     free( obj->normal_indices.data );
     free( obj->uv_indices.data );
-- 
2.43.0


From 0e0568cb866910bbd0bb36c7925467249f516945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 091/106] fix: green and blue were swapped in the geometry
 option getters

---
 include/amino/rx/scene_geom.h |  2 +-
 python/amino/scenegraph.py    | 12 ++++++------
 src/rx/geom_opt.c             |  8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/amino/rx/scene_geom.h b/include/amino/rx/scene_geom.h
index 182186f..30bbeb4 100644
--- a/include/amino/rx/scene_geom.h
+++ b/include/amino/rx/scene_geom.h
@@ -136,7 +136,7 @@ aa_rx_geom_opt_get_specular_green ( const struct aa_rx_geom_opt *opt );
 AA_API void
 aa_rx_geom_opt_set_color3 (
     struct aa_rx_geom_opt *opt,
-    double red, double blue, double green );
+    double red, double green, double blue );
 
 /**
  * Set alpha (transparency) option
diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 7b850ce..905810a 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -128,17 +128,17 @@ class GeomOpt:
 
     @property
     def color(self):
-        """Three floats, between 0 and 1, for color in red-blue-green order."""
+        """Three floats, between 0 and 1, for color in red-green-blue order."""
         return self._get_val3(libamino.aa_rx_geom_opt_get_color_red,
-                              libamino.aa_rx_geom_opt_get_color_blue,
-                              libamino.aa_rx_geom_opt_get_color_green)
+                              libamino.aa_rx_geom_opt_get_color_green,
+                              libamino.aa_rx_geom_opt_get_color_blue)
 
     @property
     def specular(self):
-        """Three floats, between 0 and 1, for color in red-blue-green order."""
+        """Three floats, between 0 and 1, for color in red-green-blue order."""
         return self._get_val3(libamino.aa_rx_geom_opt_get_specular_red,
-                              libamino.aa_rx_geom_opt_get_specular_blue,
-                              libamino.aa_rx_geom_opt_get_specular_green)
+                              libamino.aa_rx_geom_opt_get_specular_green,
+                              libamino.aa_rx_geom_opt_get_specular_blue)
 
     @visual.setter
     def visual(self, value):
diff --git a/src/rx/geom_opt.c b/src/rx/geom_opt.c
index 57fa5eb..ec81e00 100644
--- a/src/rx/geom_opt.c
+++ b/src/rx/geom_opt.c
@@ -107,12 +107,12 @@ aa_rx_geom_opt_get_color_red ( const struct aa_rx_geom_opt *opt )
 AA_API double
 aa_rx_geom_opt_get_color_blue ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->color[1];
+    return opt->color[2];
 }
 AA_API double
 aa_rx_geom_opt_get_color_green ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->color[2];
+    return opt->color[1];
 }
 AA_API double
 aa_rx_geom_opt_get_alpha ( const struct aa_rx_geom_opt *opt )
@@ -128,12 +128,12 @@ aa_rx_geom_opt_get_specular_red ( const struct aa_rx_geom_opt *opt )
 AA_API double
 aa_rx_geom_opt_get_specular_blue ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->specular[1];
+    return opt->specular[2];
 }
 AA_API double
 aa_rx_geom_opt_get_specular_green ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->specular[2];
+    return opt->specular[1];
 }
 
 AA_API void
-- 
2.43.0


From c6b957103ace34a711a3c37d4221a59b38b4a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 092/106] fix: mesh set_texture leaked the previous texture
 coordinates

---
 src/rx/scene_geom.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scene_geom.c b/src/rx/scene_geom.c
index f1cc395..124b759 100644
--- a/src/rx/scene_geom.c
+++ b/src/rx/scene_geom.c
@@ -431,7 +431,7 @@ void aa_rx_mesh_set_texture (
     aa_rx_mesh_set_rgba( mesh, 1, 1, rgba, 1 );
 
     // indices
-    /* if( mesh->uv_data ) free(mesh->uv_data); */
+    if( mesh->uv_data ) free(mesh->uv_data);
     mesh->uv = mesh->uv_data = AA_NEW0_AR(float, 2*mesh->n_vertices);
 }
 
-- 
2.43.0


From c3a07a2eb62828a01c9dcdf3f170db2b3b60a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 093/106] fix: octree leaves became boxes of the wrong size

---
 src/rx/sg_octree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/sg_octree.cpp b/src/rx/sg_octree.cpp
index 9abf481..890317c 100644
--- a/src/rx/sg_octree.cpp
+++ b/src/rx/sg_octree.cpp
@@ -67,8 +67,8 @@ AA_API void aa_rx_sg_add_octree(
                                      aa_tf_quat_ident, v);
 
             if ( opt ){
-                double s_len = cbrt(it.getSize());
-                static const double dimension[3] = {s_len, s_len, s_len};
+                const double s_len = it.getSize();
+                const double dimension[3] = {s_len, s_len, s_len};
                 struct aa_rx_geom* geom = aa_rx_geom_box(opt, dimension);
 
                 aa_rx_geom_attach(scene_graph, sub_name, geom);
-- 
2.43.0


From 3abdd3fad1cdd891813796f8a3d854364a557dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 094/106] fix: octree geometry was created through a null
 pointer

---
 include/amino/rx/octree_geom.hpp       |  5 -----
 include/amino/rx/scene_geom_internal.h |  5 +++++
 src/octree_gl.cpp                      |  4 ++--
 src/rx/octree_geom.cpp                 | 10 +++++-----
 src/rx/scene_geom.c                    | 11 +++++++++++
 5 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/amino/rx/octree_geom.hpp b/include/amino/rx/octree_geom.hpp
index 396e8c9..252bdd6 100644
--- a/include/amino/rx/octree_geom.hpp
+++ b/include/amino/rx/octree_geom.hpp
@@ -7,11 +7,6 @@
 #include <octomap/OcTreeIterator.hxx>
 #include <octomap/AbstractOcTree.h>
 
-struct aa_rx_geom_octree {
-    struct aa_rx_geom *base;
-    struct aa_rx_octree *shape;
-};
-
 struct aa_rx_octree {
   octomap::OcTree* otree;
 };
diff --git a/include/amino/rx/scene_geom_internal.h b/include/amino/rx/scene_geom_internal.h
index 2d41c0b..c4ab965 100644
--- a/include/amino/rx/scene_geom_internal.h
+++ b/include/amino/rx/scene_geom_internal.h
@@ -112,6 +112,11 @@ struct aa_rx_geom_mesh {
     struct aa_rx_mesh *shape;
 };
 
+struct aa_rx_geom_octree {
+    struct aa_rx_geom base;
+    struct aa_rx_octree *shape;
+};
+
 
 
 struct aa_rx_mesh {
diff --git a/src/octree_gl.cpp b/src/octree_gl.cpp
index c952c69..a1b2400 100644
--- a/src/octree_gl.cpp
+++ b/src/octree_gl.cpp
@@ -177,9 +177,9 @@ void init_octree ( struct aa_rx_geom_octree *geom )
     fprintf(stderr,"set indicies\n");
 
 
-    aa_rx_mesh_set_texture(mesh, &geom->base->opt);
+    aa_rx_mesh_set_texture(mesh, &geom->base.opt);
     fprintf(stderr,"set texture\n");
-    tri_mesh( geom->base, mesh );
+    tri_mesh( &geom->base, mesh );
     aa_rx_mesh_destroy(mesh);
 
 }
diff --git a/src/rx/octree_geom.cpp b/src/rx/octree_geom.cpp
index 5cc871b..35d4ef2 100644
--- a/src/rx/octree_geom.cpp
+++ b/src/rx/octree_geom.cpp
@@ -52,10 +52,10 @@
 
 #define ALLOC_GEOM(TYPE, var, type_value, geom_opt )            \
     TYPE *var = AA_NEW0(TYPE);                                  \
-    AA_MEM_CPY(&g->base->opt, geom_opt, 1);                      \
-    var->base->type = type_value;                                \
-    var->base->gl_buffers = NULL;                                \
-    var->base->refcount = 1;
+    AA_MEM_CPY(&g->base.opt, geom_opt, 1);                      \
+    var->base.type = type_value;                                \
+    var->base.gl_buffers = NULL;                                \
+    var->base.refcount = 1;
 
 
 struct aa_rx_geom *
@@ -66,7 +66,7 @@ aa_rx_geom_octree (
   ALLOC_GEOM( struct aa_rx_geom_octree, g,
               AA_RX_OCTREE, opt);
   g->shape = octree;
-  return g->base;
+  return &g->base;
 }
 
 AA_API struct aa_rx_octree* aa_rx_geom_read_octree_from_file( const char* file)
diff --git a/src/rx/scene_geom.c b/src/rx/scene_geom.c
index 124b759..516cbd6 100644
--- a/src/rx/scene_geom.c
+++ b/src/rx/scene_geom.c
@@ -229,6 +229,13 @@ aa_rx_geom_modify_opt( struct aa_rx_geom *src, struct aa_rx_geom_opt *opt )
                                    shape->major_radius, shape->minor_radius );
     }
         break;
+    case AA_RX_OCTREE: {
+        ALLOC_GEOM( struct aa_rx_geom_octree, g,
+                    AA_RX_OCTREE, opt );
+        g->shape = (struct aa_rx_octree *)vshape;
+        result = &g->base;
+    }
+        break;
     }
 
     if( NULL == result ) {
@@ -296,6 +303,9 @@ aa_rx_geom_shape ( const struct aa_rx_geom *g,
     case AA_RX_TORUS:
         shape = &((struct aa_rx_geom_torus*)g)->shape;
         break;
+    case AA_RX_OCTREE:
+        shape = ((struct aa_rx_geom_octree*)g)->shape;
+        break;
     }
     if( shape_type ) *shape_type = g->type;
     return shape;
@@ -447,6 +457,7 @@ aa_rx_geom_shape_str( enum aa_rx_geom_shape shape )
     case AA_RX_CONE: return "cone";
     case AA_RX_GRID: return "grid";
     case AA_RX_TORUS: return "torus";
+    case AA_RX_OCTREE: return "octree";
     }
     return "?";
 }
-- 
2.43.0


From bf82389f7c48ecc5fe5fc1ba35182dd047be3f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:17 +0000
Subject: [PATCH 095/106] fix: reading a bad octree file returned an octree
 without tree

---
 src/rx/octree_geom.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rx/octree_geom.cpp b/src/rx/octree_geom.cpp
index 35d4ef2..23b7b59 100644
--- a/src/rx/octree_geom.cpp
+++ b/src/rx/octree_geom.cpp
@@ -74,6 +74,11 @@ AA_API struct aa_rx_octree* aa_rx_geom_read_octree_from_file( const char* file)
 
     octomap::AbstractOcTree* tree = octomap::AbstractOcTree::read(file);
     octomap::OcTree* oTree = dynamic_cast<octomap::OcTree*>(tree);
+    if( NULL == oTree ) {
+        /* not a readable file, or another kind of tree */
+        delete tree;
+        return NULL;
+    }
 
     aa_rx_octree *aa_oct = new aa_rx_octree;
     aa_oct->otree = oTree;
-- 
2.43.0


From fb9e5aeb6ccc56b26cbc2b721f8f17f63f56f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 096/106] fix: workspace blend trajectory leaked its joint
 points

---
 src/ct/traj.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index f9457a0..b44c563 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1021,6 +1021,9 @@ aa_ct_tjX_pb_generate(struct aa_mem_region *reg, struct aa_ct_pt_list *pt_list,
     struct aa_ct_seg_list *Xseg_list =
         aa_ct_tjq_pb_generate(reg, Xpt_list, &Xlimits);
 
+    /* The segments hold copies of the points */
+    aa_ct_pt_list_destroy(Xpt_list);
+
     struct aa_ct_seg *c_seg = Xseg_list->list.front();
     for (; c_seg != NULL; c_seg = c_seg->next) {
         c_seg->eval = aa_ct_tjX_pb_eval;
-- 
2.43.0


From c0bab651f573aa97ef863ae3f1acc41474853a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 097/106] fix: destroying a sequence of plans leaked its
 elements

---
 src/rx/mp_seq.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/mp_seq.cpp b/src/rx/mp_seq.cpp
index e81d68b..f17938c 100644
--- a/src/rx/mp_seq.cpp
+++ b/src/rx/mp_seq.cpp
@@ -70,6 +70,7 @@ aa_rx_mp_seq_destroy( struct aa_rx_mp_seq * obj)
 {
     for( struct aa_rx_mp_seq_elt *elt : obj->data ) {
         free( elt->path );
+        free( elt );
     }
     delete obj;
 }
-- 
2.43.0


From b9e78e2a91a5e23aec0f05e0d24a04d313b97545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:53 +0000
Subject: [PATCH 098/106] fix: LC3 contexts could not be released

---
 include/amino/rx/scene_wk.h | 5 +++++
 src/rx/lc3.c                | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/include/amino/rx/scene_wk.h b/include/amino/rx/scene_wk.h
index f48593b..4dd0e40 100644
--- a/include/amino/rx/scene_wk.h
+++ b/include/amino/rx/scene_wk.h
@@ -135,6 +135,11 @@ AA_API  struct aa_rx_wk_lc3_cx *
 aa_rx_wk_lc3_create ( const struct aa_rx_sg_sub *ssg,
                       const struct aa_rx_wk_opts * opts );
 
+/**
+ * Destroy an LC3 context.
+ */
+AA_API void
+aa_rx_wk_lc3_destroy ( struct aa_rx_wk_lc3_cx * cx );
 
 AA_API int
 aa_rx_wk_dx2dq_lc3( const struct aa_rx_wk_lc3_cx *lc3,
diff --git a/src/rx/lc3.c b/src/rx/lc3.c
index d179ff3..11b74e0 100644
--- a/src/rx/lc3.c
+++ b/src/rx/lc3.c
@@ -284,6 +284,13 @@ aa_rx_wk_lc3_create ( const struct aa_rx_sg_sub *ssg,
     return cx;
 }
 
+AA_API void
+aa_rx_wk_lc3_destroy ( struct aa_rx_wk_lc3_cx * cx )
+{
+    if( cx->opt_cx ) aa_opt_destroy( cx->opt_cx );
+    free( cx );
+}
+
 
 AA_API int
 aa_rx_wk_dx2dq_lc3( const struct aa_rx_wk_lc3_cx *cx,
-- 
2.43.0


From 5ceb1efafe56a743a860543c081e9f2026241ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 099/106] fix: creating a collision context wrote to geometry
 that other threads use

---
 src/rx/amino_fcl.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 71fac7e..5cce483 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -88,6 +88,24 @@ aa_rx_cl_geom_destroy( struct aa_rx_cl_geom *cl_geom ) {
 }
 
 
+/* FCL recomputes the bounds of a geometry for every collision object that
+ * uses it.  Compute them only once, since collision contexts of different
+ * threads may use the same geometry. */
+template<class T>
+struct cl_bounded : public T {
+    using T::T;
+
+    void computeLocalAABB() override {
+        if( ! bounded ) {
+            T::computeLocalAABB();
+            bounded = true;
+        }
+    }
+
+private:
+    bool bounded = false;
+};
+
 static ::amino::fcl::CollisionGeometry *
 cl_init_mesh( double scale, const struct aa_rx_mesh *mesh )
 {
@@ -132,7 +150,7 @@ cl_init_mesh( double scale, const struct aa_rx_mesh *mesh )
     }
     //printf("filled tris\n");
 
-    auto model = new(fcl::BVHModel<::amino::fcl::OBBRSS>);
+    auto model = new(cl_bounded<fcl::BVHModel<::amino::fcl::OBBRSS>>);
     model->beginModel();
     model->addSubModel(vertices, triangles);
     model->endModel();
@@ -180,19 +198,19 @@ static void cl_init_helper( void *cx, aa_rx_frame_id frame_id, struct aa_rx_geom
     }
     case AA_RX_BOX: {
         struct aa_rx_shape_box *shape = (struct aa_rx_shape_box *)  shape_;
-        ptr = new ::amino::fcl::Box(scale*shape->dimension[0],
-                                    scale*shape->dimension[1],
-                                    scale*shape->dimension[2]);
+        ptr = new cl_bounded<::amino::fcl::Box>(scale*shape->dimension[0],
+                                                scale*shape->dimension[1],
+                                                scale*shape->dimension[2]);
         break;
     }
     case AA_RX_SPHERE: {
         struct aa_rx_shape_sphere *shape = (struct aa_rx_shape_sphere *)  shape_;
-        ptr = new ::amino::fcl::Sphere(scale*shape->radius);
+        ptr = new cl_bounded<::amino::fcl::Sphere>(scale*shape->radius);
         break;
     }
     case AA_RX_CYLINDER: {
         struct aa_rx_shape_cylinder *shape = (struct aa_rx_shape_cylinder *)  shape_;
-        ptr = new ::amino::fcl::Cylinder(scale*shape->radius, scale*shape->height);
+        ptr = new cl_bounded<::amino::fcl::Cylinder>(scale*shape->radius, scale*shape->height);
         break;
     }
     case AA_RX_CONE: {
@@ -206,6 +224,7 @@ static void cl_init_helper( void *cx, aa_rx_frame_id frame_id, struct aa_rx_geom
     }
 
     if(ptr) {
+        ptr->computeLocalAABB();
         struct aa_rx_cl_geom *cl_geom = new aa_rx_cl_geom(ptr);
         cl_geom->ptr->setUserData(geom); // FCL user data is the amino geometry object
         aa_rx_geom_set_collision(geom, cl_geom); // Set the amino geometry collision object
-- 
2.43.0


From a19ffb1ab5e533eb375e8bd8d431df69f74ebc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:15 +0000
Subject: [PATCH 100/106] fix: aa_io_getline() lost lines that exactly filled a
 region chunk

---
 src/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 722c6db..405b5cf 100644
--- a/src/io.c
+++ b/src/io.c
@@ -68,7 +68,8 @@ char *aa_io_getline( FILE *fin, struct aa_mem_region *reg )
             return str;
         }
         n++;
-        char *ptr = (char*)aa_mem_region_tmprealloc(reg, n);
+        // leave room for the terminator, so the final alloc does not move
+        char *ptr = (char*)aa_mem_region_tmprealloc(reg, n+1);
         ptr[n-1] = (char)i;
     } while(1);
 }
-- 
2.43.0


From fd5fdc431870b406b28683449e3ff06e3815a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:16 +0000
Subject: [PATCH 101/106] fix: aa_io_fread_matrix_heap() overflowed small
 initial buffers

---
 src/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 405b5cf..6f3b2b8 100644
--- a/src/io.c
+++ b/src/io.c
@@ -192,7 +192,7 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
 
         // maybe realloc
         if( *elts < read_elts + n ) {
-            *elts *= 2;
+            *elts = AA_MAX( 2*(*elts), read_elts + n );
             *A = (double*) realloc(*A, *elts * sizeof(double) );
         }
 
-- 
2.43.0


From f88d12c04911f052aa90f5989b664f6c4b0ffb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:16 +0000
Subject: [PATCH 102/106] fix: aa_io_fread_matrix_heap() left skipped and bad
 lines on the scratch region

---
 src/io.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/io.c b/src/io.c
index 6f3b2b8..2467e2f 100644
--- a/src/io.c
+++ b/src/io.c
@@ -188,7 +188,10 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
         if( NULL == line ) continue;
 
         char *line2 = aa_io_skipblank(line);
-        if('\0' == *line2 || AA_IO_ISCOMMENT(*line2)) continue;
+        if('\0' == *line2 || AA_IO_ISCOMMENT(*line2)) {
+            aa_mem_region_pop(reg, line);
+            continue;
+        }
 
         // maybe realloc
         if( *elts < read_elts + n ) {
@@ -198,11 +201,10 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
 
         // parse
         size_t i = aa_io_parsevector( line2, n, (*A)+read_elts, 1, NULL );
+        aa_mem_region_pop(reg, line);
         if( i != n ) return -(ssize_t)lineno;
 
         read_elts += i;
-
-        aa_mem_region_pop(reg, line);
     }
     return (ssize_t)(read_elts / n);
 }
-- 
2.43.0


From 44580bea1d01ab2f70a64ee21aa964d712104d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:57 +0000
Subject: [PATCH 103/106] fix: aa_stat_circ_std() was NaN for equal angles

Rounding could make the mean resultant length exceed one, so that the
standard deviation became the square root of a negative number; the
excluding variant then excluded every angle.
---
 src/math.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/math.c b/src/math.c
index e4f6df7..95f0fe0 100644
--- a/src/math.c
+++ b/src/math.c
@@ -121,6 +121,14 @@ AA_API double aa_stat_circ_mean( size_t n, const double *x) {
     return atan2( as/(double)n, ac/(double)n );
 }
 
+/* Circular standard deviation from the mean sine and cosine.
+ * Rounding may make the mean resultant length of (nearly) equal angles
+ * slightly larger than one. */
+static double s_circ_std( double as, double ac ) {
+    double r = (as*as + ac*ac);
+    return (r > 1) ? 0 : sqrt( -2 * log(r) );
+}
+
 AA_API double aa_stat_circ_std( size_t n, const double *x) {
     double as = 0, ac = 0;
     for( size_t i = 0; i < n; i++ ) {
@@ -131,8 +139,7 @@ AA_API double aa_stat_circ_std( size_t n, const double *x) {
     }
     as = as / (double)n;
     ac = ac / (double)n;
-    double r = (as*as + ac*ac);
-    return sqrt( -2 * log(r) );
+    return s_circ_std( as, ac );
 }
 
 
@@ -197,8 +204,7 @@ AA_API size_t aa_stat_excluded_circ_mean_std( size_t n, const double *x,
         as /= (double)j;
         ac /= (double)j;
         mu = atan2(as,ac);
-        double r = (as*as + ac*ac);
-        sigma = sqrt( -2 * log(r) );
+        sigma = s_circ_std( as, ac );
     } while(jj != j && ++iter < max_iterations ) ;
     *pmu = mu;
     *psigma = sigma;
-- 
2.43.0


From 90b927fa131c39f18d7613cf271ec2922c2a5ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:17 +0000
Subject: [PATCH 104/106] fix: aa_stat_circ_std() used the squared resultant
 length

The circular standard deviation is sqrt(-2 log(R)); the squared mean
resultant length was used for R, so that the result was larger by a
factor of sqrt(2), and disagreed with aa_stat_std() for angles close
together.
---
 src/math.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math.c b/src/math.c
index 95f0fe0..e8a6aa7 100644
--- a/src/math.c
+++ b/src/math.c
@@ -125,8 +125,9 @@ AA_API double aa_stat_circ_mean( size_t n, const double *x) {
  * Rounding may make the mean resultant length of (nearly) equal angles
  * slightly larger than one. */
 static double s_circ_std( double as, double ac ) {
-    double r = (as*as + ac*ac);
-    return (r > 1) ? 0 : sqrt( -2 * log(r) );
+    double r2 = (as*as + ac*ac);
+    /* sqrt( -2 log(r) ) */
+    return (r2 > 1) ? 0 : sqrt( -log(r2) );
 }
 
 AA_API double aa_stat_circ_std( size_t n, const double *x) {
-- 
2.43.0


From fe92e3ebcd9199053b356ae2ac794c5438da189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 105/106] fix: aa_rx_ik_parm_center_configs() gave locked
 joints an infinite gain

A joint with equal position limits divided by a range of zero.
---
 src/rx/ik_opt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/ik_opt.c b/src/rx/ik_opt.c
index fede5aa..f48e2d9 100644
--- a/src/rx/ik_opt.c
+++ b/src/rx/ik_opt.c
@@ -177,7 +177,7 @@ aa_rx_ik_parm_center_configs( struct aa_rx_ik_parm *opts,
         double min=0 ,max=0;
         aa_rx_config_id config_id = aa_rx_sg_sub_config(ssg, i);
         int r = aa_rx_sg_get_limit_pos( ssg->scenegraph, config_id, &min, &max );
-        if( 0 == r ) {
+        if( 0 == r && max > min ) {
             q_gain[i] = gain * (2*M_PI) / (max - min); // scale gain based on range
         } else {
             q_gain[i] = 0;
-- 
2.43.0


From 3f8cbe8ca22ab07e4f320a96d9243180a3962489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:00 +0000
Subject: [PATCH 106/106] fix: aa_rx_ct_tjx_path() released paths allocated
 from the local region

---
 src/rx/rx_ct.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rx/rx_ct.c b/src/rx/rx_ct.c
index 21fbc6f..bbcc564 100644
--- a/src/rx/rx_ct.c
+++ b/src/rx/rx_ct.c
@@ -197,7 +197,10 @@ aa_rx_ct_tjx_path( struct aa_mem_region *region,
 
     assert( aa_rx_sg_sub_all_config_count(ssg) == n_q_all );
 
-    struct aa_mem_region *local_region = aa_mem_region_local_get();
+    /* The path must survive the temporaries */
+    int is_local = (aa_mem_region_local_get() == region);
+    struct aa_mem_region *local_region =
+        is_local ? aa_mem_region_create(4096) : aa_mem_region_local_get();
 
     struct path_cx *cx = AA_MEM_REGION_NEW( local_region, struct path_cx );
     {
@@ -275,7 +278,11 @@ aa_rx_ct_tjx_path( struct aa_mem_region *region,
                            cx->limits->max->q[config_id]);
         }
     }
-    aa_mem_region_pop(local_region, cx);
+    if( is_local ) {
+        aa_mem_region_destroy(local_region);
+    } else {
+        aa_mem_region_pop(local_region, cx);
+    }
 
 
     return r;
-- 
2.43.0

