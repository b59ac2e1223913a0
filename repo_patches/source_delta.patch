From f4b3772c3aaf3a1e120020f5af238dfe99e7c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 001/146] fix: keep live chunks when popping a region to a mark
 at a chunk boundary

---
 src/mem.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index 8fd4ce2..e027f97 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -65,6 +65,8 @@ AA_API void aa_flexbuf_free(aa_flexbuf_t *p) {
 static struct aa_mem_region_node  *aa_mem_region_node_alloc(size_t n,
                                                     struct aa_mem_region_node *next) {
     // FIXME: maybe we should use mmap instead of malloc()
+    // keep the end of the chunk aligned, so the head never passes it
+    n = AA_ALIGN2( n, (size_t)(AA_MEMREG_ALIGN) );
     struct aa_mem_region_node *p =
         (struct aa_mem_region_node*)malloc(sizeof(struct aa_mem_region_node) + n + AA_MEMREG_ALIGN);
     p->end = p->d + n + AA_MEMREG_ALIGN;
@@ -129,7 +131,8 @@ size_t aa_mem_region_freesize( aa_mem_region_t *region ) {
 }
 
 static inline int aa_mem_region_pop_in_node( uint8_t *ptr, struct aa_mem_region_node *node ) {
-    return ptr >= node->d  && ptr < node->end;
+    // a mark taken when the chunk was full points to the end
+    return ptr >= node->d  && ptr <= node->end;
 }
 
 
@@ -157,9 +160,11 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
                 // poppsed start of chunk, realloc it
                 ( (ptr8 == p->d) &&
                   (popsize == p->end - p->d) ) );
+        // Other marks may point to the start of an unused chunk, so it
+        // can only be freed when nothing live is below it
         reg->node =
             aa_mem_region_node_alloc( (size_t)(n+popsize),
-                                  (p && aa_mem_region_alignptr(p->d) == ptr8) ?
+                                  (p && !p->next && aa_mem_region_alignptr(p->d) == ptr8) ?
                                   aa_mem_region_node_free(p) : p );
         reg->head = aa_mem_region_alignptr(reg->node->d);
     }
@@ -171,8 +176,9 @@ static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size ) {
     // this growth strategy creates worst-case O(n) memory waste
     reg->node =
         aa_mem_region_node_alloc( nsize,
-                              /* free unused chunk */
-                              (aa_mem_region_alignptr(reg->node->d) == reg->head) ?
+                              /* free unused chunk, unless marks to it
+                               * must still find the chunks below */
+                              (!reg->node->next && aa_mem_region_alignptr(reg->node->d) == reg->head) ?
                               aa_mem_region_node_free(reg->node) : reg->node );
     aa_mem_region_align(reg, reg->node->d);
     assert( aa_mem_region_freesize(reg) >= size );
-- 
2.43.0


From 9c8caa558f588d6c9e78461dae596fa30bb2b67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:24 +0000
Subject: [PATCH 002/146] fix: region tmprealloc copied from a freed chunk or
 with a negative size

---
 src/mem.c | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/mem.c b/src/mem.c
index e027f97..7022cb2 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -170,17 +170,19 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
     }
 }
 
-static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size ) {
+/* Add a chunk with room for size bytes, copying ncopy temporary bytes from the old head. */
+static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size, size_t ncopy ) {
+    struct aa_mem_region_node *old = reg->node;
+    uint8_t *old_head = reg->head;
+    /* free unused chunk, unless marks to it must still find the chunks below */
+    int unused = !old->next && aa_mem_region_alignptr(old->d) == old_head;
     size_t nsize = AA_MAX(2*(size_t)(reg->node->end - reg->node->d),
                           size + AA_MEMREG_ALIGN);
     // this growth strategy creates worst-case O(n) memory waste
-    reg->node =
-        aa_mem_region_node_alloc( nsize,
-                              /* free unused chunk, unless marks to it
-                               * must still find the chunks below */
-                              (!reg->node->next && aa_mem_region_alignptr(reg->node->d) == reg->head) ?
-                              aa_mem_region_node_free(reg->node) : reg->node );
+    reg->node = aa_mem_region_node_alloc( nsize, unused ? NULL : old );
     aa_mem_region_align(reg, reg->node->d);
+    if( ncopy ) memcpy( reg->head, old_head, ncopy );
+    if( unused ) aa_mem_region_node_free( old );
     assert( aa_mem_region_freesize(reg) >= size );
     assert( ! ((uintptr_t)reg->head%16) );
 }
@@ -188,7 +190,7 @@ static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size ) {
 void *aa_mem_region_tmpalloc( aa_mem_region_t *region, size_t size ) {
     if( region->head + size > region->node->end ) {
         // slow path
-        aa_mem_region_grow(region, size );
+        aa_mem_region_grow(region, size, 0);
     }
     // fast path
     return region->head;
@@ -196,22 +198,18 @@ void *aa_mem_region_tmpalloc( aa_mem_region_t *region, size_t size ) {
 
 AA_API void *aa_mem_region_tmprealloc( aa_mem_region_t *region, size_t size )
 {
-    void *old_ptr = region->head;
-    size_t old_size = (size_t)(region->node->end - region->head);
-    void *new_ptr = aa_mem_region_tmpalloc(region, size);
-
-    if( old_ptr != new_ptr ) {
-        memcpy( new_ptr, old_ptr, old_size );
+    if( region->head + size > region->node->end ) {
+        // the old temporary buffer is everything after the head
+        aa_mem_region_grow(region, size, aa_mem_region_freesize(region));
     }
-
-    return new_ptr;
+    return region->head;
 }
 
 void *aa_mem_region_alloc( aa_mem_region_t *region, size_t size ) {
     uint8_t *nhead = region->head + size;
     if( nhead > region->node->end ) {
         // slow path
-        aa_mem_region_grow(region, size);
+        aa_mem_region_grow(region, size, 0);
         nhead = region->head + size;
     }
     // fast path
-- 
2.43.0


From 945894c29dc69927cbc77516ff3cf02907e8db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 003/146] fix: bit vector and/or/xor never terminated and
 skipped word zero

---
 include/amino/mem.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/amino/mem.h b/include/amino/mem.h
index 83ba975..fdefc4a 100644
--- a/include/amino/mem.h
+++ b/include/amino/mem.h
@@ -698,7 +698,7 @@ static inline void
 aa_bits_and( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] &= b[n_words];
     }
 }
@@ -710,7 +710,7 @@ static inline void
 aa_bits_or( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] |= b[n_words];
     }
 }
@@ -722,7 +722,7 @@ static inline void
 aa_bits_xor( aa_bits *a, const aa_bits *b, size_t n_bits )
 {
     size_t n_words = aa_bits_words(n_bits);
-    while( n_words ) {
+    while( n_words-- ) {
         a[n_words] ^= b[n_words];
     }
 }
-- 
2.43.0


From ee3e0b18f9a05b4f660e61b96b2e74366d25c084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 004/146] fix: undefined signed shift when setting the top bit
 of a bit vector word

---
 include/amino/mem.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/amino/mem.h b/include/amino/mem.h
index fdefc4a..bc0b421 100644
--- a/include/amino/mem.h
+++ b/include/amino/mem.h
@@ -684,10 +684,11 @@ aa_bits_set( aa_bits *b, size_t i, int val )
 {
     size_t j,k;
     AA_BITS_JK(i,j,k);
+    aa_bits mask = (aa_bits)(1u<<k);
     if( val ) {
-        b[j] |=  0x1<<k;
+        b[j] |=  mask;
     } else {
-        b[j] &= ~ ( 0x1<<k );
+        b[j] &= ~mask;
     }
 }
 
-- 
2.43.0


From 259f7edbac0c0eb013965db77eea5980b439dab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:45 +0000
Subject: [PATCH 005/146] fix: memory swap made misaligned accesses

---
 include/amino/mem.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/amino/mem.h b/include/amino/mem.h
index bc0b421..314117a 100644
--- a/include/amino/mem.h
+++ b/include/amino/mem.h
@@ -742,16 +742,17 @@ typedef long aa_memswap_type;
 static inline void aa_memswap( void *AA_RESTRICT a, void *AA_RESTRICT b, size_t size )
 {
 
-    // TODO: consider alignment
-    aa_memswap_type *la = (aa_memswap_type*)a, *lb = (aa_memswap_type*)b;
-    for( size_t i = 0; i < size/sizeof(*la); i++ ) {
-        aa_memswap_type tmp = la[i];
-        la[i] = lb[i];
-        lb[i] = tmp;
-    }
-
+    // a and b may not be aligned for aa_memswap_type
     uint8_t *ca = (uint8_t*)a, *cb = (uint8_t*)b;
-    for( size_t i = size - size%sizeof(*la); i < size; i ++ ) {
+    const size_t n = sizeof(aa_memswap_type);
+    for( size_t i = 0; i + n <= size; i += n ) {
+        aa_memswap_type ta, tb;
+        memcpy( &ta, ca+i, n );
+        memcpy( &tb, cb+i, n );
+        memcpy( ca+i, &tb, n );
+        memcpy( cb+i, &ta, n );
+    }
+    for( size_t i = size - size%n; i < size; i ++ ) {
         uint8_t tmp = ca[i];
         ca[i] = cb[i];
         cb[i] = tmp;
-- 
2.43.0


From 1f93350a4731f6e77d54c6d69df65fd7011d51cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 006/146] fix: matrix product ignored the transpose flags when
 sizing its operands

---
 src/mat.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mat.c b/src/mat.c
index fc75de6..6d911bc 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -396,9 +396,15 @@ aa_dmat_gemm( AA_CBLAS_TRANSPOSE transA, AA_CBLAS_TRANSPOSE transB,
               const struct aa_dmat *B,
               double beta, struct aa_dmat *C )
 {
-    aa_la_check_size( A->rows, C->rows );
-    aa_la_check_size( A->cols, B->rows );
-    aa_la_check_size( B->cols, C->cols );
+    /* dimensions of op(A) and op(B) */
+    const int nta = (CblasNoTrans == transA), ntb = (CblasNoTrans == transB);
+    const size_t m  = nta ? A->rows : A->cols;
+    const size_t ka = nta ? A->cols : A->rows;
+    const size_t kb = ntb ? B->rows : B->cols;
+    const size_t n  = ntb ? B->cols : B->rows;
+    aa_la_check_size( m, C->rows );
+    aa_la_check_size( ka, kb );
+    aa_la_check_size( n, C->cols );
 
     assert( A->rows <= A->ld );
     assert( B->rows <= B->ld );
@@ -406,7 +412,7 @@ aa_dmat_gemm( AA_CBLAS_TRANSPOSE transA, AA_CBLAS_TRANSPOSE transB,
 
     cblas_dgemm( CblasColMajor,
                  transA, transB,
-                 MAT_ROWS(A), MAT_COLS(B), MAT_COLS(A),
+                 (int)m, (int)n, (int)ka,
                  alpha, AA_MAT_ARGS(A),
                  AA_MAT_ARGS(B),
                  beta, AA_MAT_ARGS(C) );
-- 
2.43.0


From a9b32d382ef161edc9f98ce4f1d099de24ca0e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 007/146] fix: incrementing a square matrix block wrote outside
 the block

---
 src/mat.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mat.c b/src/mat.c
index 6d911bc..10a4f8e 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -510,7 +510,7 @@ aa_dmat_inc( struct aa_dmat *A, double alpha )
     size_t m=A->rows, n=A->cols, ld=A->ld;
     double *x = A->data;
 
-    if( m == n ) {
+    if( m == ld ) {
         s_inc(m*n, alpha, x, 1);
     } else {
         for( double *e = x + n*ld; x < e; x+=ld ) {
-- 
2.43.0


From f5487ef935e94bc8a1747cfacde82e38f5257582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 008/146] fix: pseudo-inverse ignored the leading dimension of
 its result

---
 src/mat.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mat.c b/src/mat.c
index 10a4f8e..bf1d35c 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -652,7 +652,7 @@ aa_dmat_pinv( const struct aa_dmat *A, double tol, struct aa_dmat *As )
         cblas_dger( CblasColMajor, ni, mi, 1/S[i],
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)As->ld
             );
     }
 
@@ -839,7 +839,7 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
         cblas_dger( CblasColMajor, ni, mi, 1/S[i],
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)As->ld
             );
     }
 
@@ -849,7 +849,7 @@ aa_dmat_dzdpinv(  const struct aa_dmat *A, double s_min, struct aa_dmat *As)
         cblas_dger( CblasColMajor, ni, mi, S[i]/s2,
                     Vt + i, ni,
                     U + m*i, 1,
-                    Asd, ni
+                    Asd, (int)As->ld
             );
     }
 
-- 
2.43.0


From cdd61a0b85031052a6a5bcbc77217caef8bd5898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:42 +0000
Subject: [PATCH 009/146] fix: strided vector slice dropped its last element

---
 src/mat.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mat.c b/src/mat.c
index bf1d35c..e723ec2 100644
--- a/src/mat.c
+++ b/src/mat.c
@@ -110,7 +110,8 @@ aa_dvec_slice( const struct aa_dvec *src,
     if( stop > src->len || stop < start ) {
         aa_la_err("Slice out-of-bounds\n");
     }
-    *dst = AA_DVEC_INIT( (stop - start) / step,
+    // a partial final step still includes its first element
+    *dst = AA_DVEC_INIT( (stop - start + step - 1) / step,
                          src->data + src->inc*start,
                          src->inc*step );
 }
-- 
2.43.0


From d81c0c6d7c40e2e05a0549704b7015f55f8967f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 010/146] fix: QR, SVD and eigenvalues overran their copy of a
 strided matrix

---
 src/la_impl.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 5d8fcd2..b335cbe 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -506,14 +506,14 @@ AA_API int AA_NAME(la,qr)
         AA_CLA_NAME(laset)('L', mi, ni,
                            0, 0,
                            R, (int)ldr );
-        AA_CLA_NAME(lacpy)('U', mn, ni, Ap, (int)lda,
+        AA_CLA_NAME(lacpy)('U', mn, ni, Ap, mi,
                            R, (int)ldr);
 
     }
 
     if( Q ) {
         /* Fill Q */
-        AA_CLA_NAME(lacpy)('L', mi, ni, Ap, (int)lda,
+        AA_CLA_NAME(lacpy)('L', mi, ni, Ap, mi,
                            Q, (int)ldq);
         LA_WORK( reg, work, lwork,
                  AA_CLA_NAME(orgqr)(mi, mi, mn,
@@ -544,7 +544,7 @@ AA_API int AA_NAME(la,svd)
         int *iwork = AA_MEM_REGION_NEW_N(reg, int, 8*mn);
         LA_WORK( reg, work, lwork,
                  info = AA_CLA_NAME(gesdd) (jobz, mi, ni,
-                                            Ap, (int)lda,
+                                            Ap, mi,
                                             S, U, (int)ldu,
                                             Vt, (int)ldvt,
                                             work, lwork, iwork) );
@@ -552,12 +552,14 @@ AA_API int AA_NAME(la,svd)
         /* Simple */
         const char *jobu = (U && ldu > 0) ? "A" : "N";
         const char *jobvt = (Vt && ldvt > 0) ? "A" : "N";
+        int ldui = ldu > 0 ? (int)ldu : 1;
+        int ldvti = ldvt > 0 ? (int)ldvt : 1;
 
         LA_WORK( reg, work, lwork,
                  AA_LAPACK_NAME(gesvd)( jobu, jobvt, &mi, &ni,
                                         Ap, &mi,
-                                        S, U, &mi,
-                                        Vt, &ni,
+                                        S, U, &ldui,
+                                        Vt, &ldvti,
                                         &work[0], &lwork, &info ) );
     }
 
@@ -577,7 +579,6 @@ AA_API int AA_NAME(la,eev)
 {
     int info = -1;
     int ni = (int)n;
-    int ldai = (int)lda;
     struct aa_mem_region *reg = aa_mem_region_local_get();
 
 
@@ -590,7 +591,7 @@ AA_API int AA_NAME(la,eev)
 
     LA_WORK( reg, work, lwork,
              AA_LAPACK_NAME(geev)( jobvl, jobvr,
-                                   &ni, Ap, &ldai,
+                                   &ni, Ap, &ni,
                                    wr, wi,
                                    Vl, &ldvli,
                                    Vr, &ldvri,
-- 
2.43.0


From b41801c79039dc7bbedd6cd82229cb2542c012d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 011/146] fix: column covariance ignored the leading dimension
 of its result

---
 src/la_impl.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index b335cbe..2fa3c87 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -422,13 +422,15 @@ void AA_NAME(la,colcov)
                             (int)m, 1.0, t, 1,
                             E, (int)lde );
     }
-    AA_CBLAS_NAME(scal) ( (int)(m*m),
-                          (AA_TYPE)1.0/(AA_TYPE)(n-1),
-                          E, 1 );
+    for( size_t j = 0; j < m*lde; j+=lde ) {
+        AA_CBLAS_NAME(scal) ( (int)m,
+                              (AA_TYPE)1.0/(AA_TYPE)(n-1),
+                              E+j, 1 );
+    }
     /* fill lower half */
     for( size_t i = 0; i < m; i ++ ) {
         for( size_t j = i+1; j < m; j ++ ) {
-            AA_MATREF(E, m, j, i) = AA_MATREF(E, m, i, j);
+            AA_MATREF(E, lde, j, i) = AA_MATREF(E, lde, i, j);
         }
     }
 }
-- 
2.43.0


From 0e447d91a90fa02d57b21c9ae7ebb93ba72121aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 012/146] fix: single-precision comparison read
 double-precision values

---
 src/la_impl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 2fa3c87..474ac55 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -631,8 +631,8 @@ AA_API int AA_NAME(la,sysv)
 
 int AA_NAME(la,compar)( const void *_a, const void *_b )
 {
-    double a = *(double*)_a;
-    double b = *(double*)_b;
+    AA_TYPE a = *(const AA_TYPE*)_a;
+    AA_TYPE b = *(const AA_TYPE*)_b;
     if( a < b ) return -1;
     if( a > b ) return 1;
     return 0;
-- 
2.43.0


From dd618632d0fe33e008d1e34869df1344ff0a488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:13 +0000
Subject: [PATCH 013/146] fix: assignment solver did not terminate for
 non-positive costs

---
 src/la_impl.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/la_impl.c b/src/la_impl.c
index 474ac55..52f5e01 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -77,8 +77,6 @@ static void AA_NAME(la,opt_hungarian) (
     ssize_t *mask = (ssize_t*)aa_mem_region_local_alloc(sizeof(ssize_t)*n*n);      // length n*n
     ssize_t *path = (ssize_t*)aa_mem_region_local_alloc(sizeof(ssize_t)*2*n*n);    // length 2*n*n
 
-    const AA_TYPE max_cost =
-        AA_NAME(la,mat_max)(n,n,A,lda,NULL,NULL);
     //int mask[n*n];
     size_t zerorc[2] = {0};
     memset(mask,0,n*n*sizeof(mask[0]));
@@ -256,7 +254,7 @@ static void AA_NAME(la,opt_hungarian) (
         case 6: ;
             assert( 6 == step );
             // find smallest uncovered value in cost
-            AA_TYPE minval = max_cost;
+            AA_TYPE minval = (AA_TYPE)HUGE_VAL;
             for( size_t j = 0; j < n; j ++ ) {
                 for( size_t i = 0; i < n; i ++ ) {
                     if( 0 == row_cover[i] &&
-- 
2.43.0


From 90828e2b11a7bb229fa0746b5fb55c954817321a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:13 +0000
Subject: [PATCH 014/146] fix: assignment solver cut alternating paths short

---
 src/la_impl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/la_impl.c b/src/la_impl.c
index 52f5e01..d0774d4 100644
--- a/src/la_impl.c
+++ b/src/la_impl.c
@@ -225,6 +225,8 @@ static void AA_NAME(la,opt_hungarian) (
                                     break;
                                 }
                             }
+                            // continue from the new column
+                            break;
                         }
                     }
                 }
-- 
2.43.0


From 612cdfdcf9df3d4e6fe215f8cbb4dcfca3ea88c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:13 +0000
Subject: [PATCH 015/146] fix: matrix trace summed absolute values

---
 src/la.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/la.c b/src/la.c
index 6b41f8c..bf8fb08 100644
--- a/src/la.c
+++ b/src/la.c
@@ -187,7 +187,10 @@ AA_API void aa_la_transpose( size_t n, double *A  ) {
 }
 
 double aa_la_trace( size_t n, const double *A ) {
-    return cblas_dasum( (int)n, A, (int)(n+1) );
+    double a = 0;
+    for( size_t i = 0; i < n; i++ )
+        a += AA_MATREF(A,n,i,i);
+    return a;
 }
 
 double aa_la_wdot( size_t n,
-- 
2.43.0


From 66bc4e16050c9a8d111a7cd39e7b61a79a30e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:13 +0000
Subject: [PATCH 016/146] fix: derivative of the quadratic interpolation

---
 src/la.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/la.c b/src/la.c
index bf8fb08..294177a 100644
--- a/src/la.c
+++ b/src/la.c
@@ -485,7 +485,7 @@ AA_API void aa_la_quadterp_dx( size_t n,
     double M12 = -(t1+t0)/((t2-t0)*(t2-t1));
     double M22 = 1/((t2-t0)*(t2-t1));
 
-    double ti_2 = ti/2;
+    double ti_2 = 2*ti;
 
     for( size_t i = 0; i < n; i ++ ) {
         double b = M10*X0[i] + M11*X1[i] + M12*X2[i];
-- 
2.43.0


From e3b84edae0bd33dbca7f4980dcff975093a68e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:02 +0000
Subject: [PATCH 017/146] fix: popping a region to the start of a replaced
 chunk released live chunks

---
 include/amino/mem.h |  2 ++
 src/mem.c           | 63 ++++++++++++++++++++++++++++-----------------
 2 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/include/amino/mem.h b/include/amino/mem.h
index 314117a..43c088c 100644
--- a/include/amino/mem.h
+++ b/include/amino/mem.h
@@ -171,6 +171,8 @@ struct aa_mem_region_node {
     //size_t n;                    ///< size of this chunk
     uint8_t *end;                ///< pointer to end of this chunk
     struct aa_mem_region_node *next; ///< pointer to next chunk node
+    struct aa_mem_region_node *retired; ///< replaced chunks, marks may still point to their start
+    struct aa_mem_region_node *pad; ///< preserves alignment of d
     uint8_t d[];           ///< data array
 };
 
diff --git a/src/mem.c b/src/mem.c
index 7022cb2..cb21d8e 100644
--- a/src/mem.c
+++ b/src/mem.c
@@ -71,7 +71,7 @@ static struct aa_mem_region_node  *aa_mem_region_node_alloc(size_t n,
         (struct aa_mem_region_node*)malloc(sizeof(struct aa_mem_region_node) + n + AA_MEMREG_ALIGN);
     p->end = p->d + n + AA_MEMREG_ALIGN;
     p->next = next;
-    p->next = next;
+    p->retired = NULL;
     return p;
 }
 
@@ -79,7 +79,11 @@ static struct aa_mem_region_node  *aa_mem_region_node_alloc(size_t n,
 static struct aa_mem_region_node  *aa_mem_region_node_free(struct aa_mem_region_node *p)
 {
     struct aa_mem_region_node *n = p->next;
-    free(p);
+    while( p ) {
+        struct aa_mem_region_node *r = p->retired;
+        free(p);
+        p = r;
+    }
     return n;
 }
 
@@ -130,15 +134,35 @@ size_t aa_mem_region_freesize( aa_mem_region_t *region ) {
         0 : (size_t)(region->node->end - region->head);
 }
 
-static inline int aa_mem_region_pop_in_node( uint8_t *ptr, struct aa_mem_region_node *node ) {
+/* Replace the unused chunk old with a new chunk.
+ *
+ * Marks may still point to the start of old, so keep it until the new chunk is freed.
+ */
+static struct aa_mem_region_node *
+aa_mem_region_node_replace( size_t n, struct aa_mem_region_node *old )
+{
+    struct aa_mem_region_node *p = aa_mem_region_node_alloc( n, old->next );
+    p->retired = old;
+    return p;
+}
+
+/* Where does ptr point to in the chunk? NULL if it is not in the chunk */
+static inline uint8_t *
+aa_mem_region_pop_in_node( uint8_t *ptr, struct aa_mem_region_node *node )
+{
     // a mark taken when the chunk was full points to the end
-    return ptr >= node->d  && ptr <= node->end;
+    if( ptr >= node->d  && ptr <= node->end ) return ptr;
+    for( struct aa_mem_region_node *r = node->retired; r; r = r->retired ) {
+        if( ptr == r->d || ptr == aa_mem_region_alignptr(r->d) )
+            return aa_mem_region_alignptr(node->d);
+    }
+    return NULL;
 }
 
 
 AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
-    uint8_t *ptr8 = (uint8_t*)ptr;
-    if( aa_mem_region_pop_in_node( ptr8, reg->node ) ){
+    uint8_t *ptr8 = aa_mem_region_pop_in_node( (uint8_t*)ptr, reg->node );
+    if( ptr8 ) {
         // fast path, in the top node
         aa_mem_region_align( reg, ptr8 );
     } else {
@@ -146,26 +170,19 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
         ptrdiff_t n = reg->node->end - reg->node->d;
         struct aa_mem_region_node *p = aa_mem_region_node_free( reg->node );
         // free old nodes
-        while( p && !aa_mem_region_pop_in_node(ptr8, p) ) {
+        while( p && !(ptr8 = aa_mem_region_pop_in_node((uint8_t*)ptr, p)) ) {
             n += (p->end - p->d);
             p = aa_mem_region_node_free( p );
         }
-        assert( !p || (ptr8 >= p->d && ptr8 <= p->end));
         // now realloc a replacement node
         // how much of the last chunk is now unused
         ptrdiff_t popsize = p ? (p->end  - ptr8) : 0;
-        assert( ( !p || ptr8 > p->d ) ?
-                // popped in middle of chunk, keep it
-                (!p || popsize < p->end - p->d ) :
-                // poppsed start of chunk, realloc it
-                ( (ptr8 == p->d) &&
-                  (popsize == p->end - p->d) ) );
-        // Other marks may point to the start of an unused chunk, so it
-        // can only be freed when nothing live is below it
         reg->node =
-            aa_mem_region_node_alloc( (size_t)(n+popsize),
-                                  (p && !p->next && aa_mem_region_alignptr(p->d) == ptr8) ?
-                                  aa_mem_region_node_free(p) : p );
+            ( p && ptr8 <= aa_mem_region_alignptr(p->d) ) ?
+            // popped start of chunk, replace it
+            aa_mem_region_node_replace( (size_t)(n+popsize), p ) :
+            // popped in middle of chunk, keep it
+            aa_mem_region_node_alloc( (size_t)(n+popsize), p );
         reg->head = aa_mem_region_alignptr(reg->node->d);
     }
 }
@@ -174,15 +191,15 @@ AA_API void aa_mem_region_pop( aa_mem_region_t *reg, void *ptr ) {
 static void aa_mem_region_grow( aa_mem_region_t *reg, size_t size, size_t ncopy ) {
     struct aa_mem_region_node *old = reg->node;
     uint8_t *old_head = reg->head;
-    /* free unused chunk, unless marks to it must still find the chunks below */
-    int unused = !old->next && aa_mem_region_alignptr(old->d) == old_head;
     size_t nsize = AA_MAX(2*(size_t)(reg->node->end - reg->node->d),
                           size + AA_MEMREG_ALIGN);
     // this growth strategy creates worst-case O(n) memory waste
-    reg->node = aa_mem_region_node_alloc( nsize, unused ? NULL : old );
+    reg->node = ( old_head <= aa_mem_region_alignptr(old->d) ) ?
+        /* unused chunk */
+        aa_mem_region_node_replace( nsize, old ) :
+        aa_mem_region_node_alloc( nsize, old );
     aa_mem_region_align(reg, reg->node->d);
     if( ncopy ) memcpy( reg->head, old_head, ncopy );
-    if( unused ) aa_mem_region_node_free( old );
     assert( aa_mem_region_freesize(reg) >= size );
     assert( ! ((uintptr_t)reg->head%16) );
 }
-- 
2.43.0


From 3f76dcde8564ab6f5524950c81ec48b1a6093144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:11 +0000
Subject: [PATCH 018/146] fix: small-angle exponential of rotation and
 transformation matrices

The Taylor series of (1-cos(theta))/theta^2 had a spurious factor theta,
losing half the digits of small rotations and the translation of small
twists.
---
 src/tf/tfmatrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tf/tfmatrix.c b/src/tf/tfmatrix.c
index f95979c..d5b1435 100644
--- a/src/tf/tfmatrix.c
+++ b/src/tf/tfmatrix.c
@@ -269,7 +269,7 @@ aa_tf_rotmat_expv( const double rv[AA_RESTRICT 4], double E[9] )
 
     if( theta2*theta2 < DBL_EPSILON ) {
         sc = aa_tf_sinc_series2(theta2);
-        cc = theta * aa_horner3( theta2, 1./2, -1./24, 1./720 );
+        cc = aa_horner3( theta2, 1./2, -1./24, 1./720 );
     } else {
         double s = sin(theta), c = cos(theta);
         sc = s/theta;
@@ -703,7 +703,7 @@ aa_tf_tfmat_expv( const double v[AA_RESTRICT 6],
     double sc, cc, ssc;
     if( theta2*theta2 < DBL_EPSILON ) {
         sc = aa_tf_sinc_series2(theta2);
-        cc = theta * aa_horner3( theta2, 1./2, -1./24, 1./720 );
+        cc = aa_horner3( theta2, 1./2, -1./24, 1./720 );
         ssc = aa_horner3( theta2, 1./6, -1./120, 1./5040 );
     } else {
         double s = sin(theta), c = cos(theta);
-- 
2.43.0


From 48bda815bacb9441163d4319c87d027de9dffa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:11 +0000
Subject: [PATCH 019/146] fix: rotation vector of the negative identity
 quaternion was NaN

---
 src/tf/conv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tf/conv.c b/src/tf/conv.c
index 5c7737e..b6da02e 100644
--- a/src/tf/conv.c
+++ b/src/tf/conv.c
@@ -245,8 +245,11 @@ aa_tf_quat2rotvec( const double q[AA_RESTRICT 4], double r[AA_RESTRICT 3] )
     double a;
     if (theta < sqrt(sqrt(DBL_EPSILON))) {
         a = 2*aa_tf_invsinc_series(theta);
-    } else {
+    } else if (qs > 0) {
         a = 2*theta/qs;
+    } else {
+        /* q = -1: a full turn, about no particular axis */
+        a = 0;
     }
 
     FOR_VEC(i) r[i] = a*q_v[i];
-- 
2.43.0


From 1b14f822ca236baa7575b40dbe4dde68aa7c9612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:10 +0000
Subject: [PATCH 020/146] fix: Jacobian of the dual quaternion logarithm lost
 all precision at small angles

---
 src/tf/quat_pde.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tf/quat_pde.c b/src/tf/quat_pde.c
index e7efbd3..b9c3681 100644
--- a/src/tf/quat_pde.c
+++ b/src/tf/quat_pde.c
@@ -82,7 +82,7 @@ aa_tf_qln_jac(const double q[4], struct aa_dmat *J )
     double theta = atan2(v_norm,w);
 
     double eta, zeta;
-    if( theta < DBL_EPSILON )  {
+    if( theta < sqrt(sqrt(DBL_EPSILON)) )  {
         eta = aa_tf_invsinc_series2(theta*theta)/q_norm;
         zeta = aa_horner3( theta*theta, -2.0/3.0, -1.0/5.0, -17.0/420.0 ) / q3;
     } else {
@@ -132,7 +132,7 @@ aa_tf_duqu_ln_jac(const double S[8], struct aa_dmat *J )
     double theta = atan2(v_norm,w);
 
     double zeta, eta, mu;
-    if( theta < DBL_EPSILON )  {
+    if( theta < sqrt(sqrt(DBL_EPSILON)) )  {
         double q3 = qq*q_norm;
         double q5 = q4*q_norm;
         eta = aa_tf_invsinc_series2(theta*theta)/q_norm;
-- 
2.43.0


From 7dd66cdb893c32abe9d0379359138f03a101c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:10 +0000
Subject: [PATCH 021/146] fix: interpolating between nearly opposite unit
 quaternions gave non-unit results

---
 src/tf/quat_ord.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 255db03..3c251d2 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -568,11 +568,12 @@ aa_tf_qslerp_param( const double q1[AA_RESTRICT 4], const double q2[AA_RESTRICT
                     double *theta, double *d1, double *d2 )
 {
     *theta = fabs(aa_tf_quhypangle2(q1,q2));
-    *d1 = sin(*theta);
     if( *theta > M_PI_2 ) {
         *theta = M_PI - *theta;
+        *d1 = sin(*theta);
         *d2 = -*d1;
     } else {
+        *d1 = sin(*theta);
         *d2 = *d1;
     }
 }
-- 
2.43.0


From 0837d164b499e88099a019d7e93366009bb9ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:18 +0000
Subject: [PATCH 022/146] fix: derivative of quaternion interpolation with
 moving end points

---
 src/tf/quat_ord.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index 3c251d2..c4c53bb 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -890,8 +890,12 @@ AA_API void aa_tf_qslerpchaindiff(
     // TODO: test case
     double theta, d1, d2;
     aa_tf_qslerp_param(q1, q2, &theta, &d1, &d2);
+    /* derivative of the dot product of q1 and q2 */
+    const double dc = aa_tf_qdot(q1, dq2) + aa_tf_qdot(dq1, q2);
+    const double sgn = aa_tf_qdot(q1,q2) < 0 ? -1 : 1;
+
     if( aa_feq(theta, 0, 0) ) {
-        AA_MEM_ZERO(dq, 4);
+        FOR_QUAT(i) dq[i] = (1-u)*dq1[i] + u*sgn*dq2[i];
         AA_MEM_CPY(q, q1, 4);
         return;
     }
@@ -902,17 +906,17 @@ AA_API void aa_tf_qslerpchaindiff(
     const double sb = sin(u*theta);
     const double cb = cos(u*theta);
 
-    const double dtheta_c = aa_tf_qdot(q1, dq2) + aa_tf_qdot(dq1, q2);
-    const double dtheta =  dtheta_c / c;
+    /* cos(theta) = sgn * dot(q1,q2) */
+    const double dtheta =  -sgn*dc / d1;
 
     const double a = sa / d1;
     const double b = sb / d2;
 
     const double da = ( ca * (dtheta*(1-u) - du*theta) ) / d1
-        - ( dtheta_c * sa ) / (d1*d1);
+        - ( c*dtheta * a ) / d1;
 
     const double db = ( (dtheta*u + theta*du) * cb ) / d2
-        - ( dtheta_c * b ) / d1;
+        - ( c*dtheta * b ) / d1;
 
     FOR_QUAT(i) {
         q[i] = q1[i]*a + q2[i]*b;
-- 
2.43.0


From aee1444ba25b28dd5210dfa8ddc8cfd5e3a6fc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:03 +0000
Subject: [PATCH 023/146] fix: rotation between nearly parallel or short
 vectors was wrong

---
 src/tf/quat_ord.c | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/src/tf/quat_ord.c b/src/tf/quat_ord.c
index c4c53bb..ca01bd0 100644
--- a/src/tf/quat_ord.c
+++ b/src/tf/quat_ord.c
@@ -962,7 +962,8 @@ aa_tf_vecs2quat( const double u[AA_RESTRICT 3],
 
     double cc = aa_tf_vdot(&q[AA_TF_QUAT_X],&q[AA_TF_QUAT_X]);
 
-    if( cc / nuv < sqrt_epsilon ) {
+    if( uv < 0 && cc <= DBL_EPSILON * nu * nv ) {
+        /* Opposite vectors: half turn about any orthogonal axis */
 
         /* Find a differently-pointed vector */
         double fx=fabs(u[0]);
@@ -978,29 +979,9 @@ aa_tf_vecs2quat( const double u[AA_RESTRICT 3],
             (fx > fz ? a_z : a_x);
 
         /* Get the quaternion axis */
-        /* TODO: verify axis direction */
-        double au[3];
-        double av[3];
-        aa_tf_cross( u, ar, au);
-        if( uv > 0 ) {
-            aa_tf_cross( v, ar, av);
-        } else {
-            aa_tf_cross( ar, v, av);
-        }
-        /* average axis from u and v */
-        FOR_VEC(i) q[AA_TF_QUAT_X+i] = au[i]+av[i];
-
-        /* Get the euclidean angle */
-        double theta = atan2(cc,uv); /* euclidean angle */
-        double qtheta = theta/2;
-
-        double s = sin( qtheta );
-        double m = s / sqrt(aa_tf_vdot(&q[AA_TF_QUAT_X],&q[AA_TF_QUAT_X]));
-
-        /* scale axis by sign / magnitude */
-        FOR_VEC(i) q[AA_TF_QUAT_X+i] *= m;
-
-        q[AA_TF_QUAT_W] = cos(qtheta);
+        aa_tf_cross( u, ar, &q[AA_TF_QUAT_X] );
+        aa_tf_vnormalize( &q[AA_TF_QUAT_X] );
+        q[AA_TF_QUAT_W] = 0;
 
     } else {
         q[AA_TF_QUAT_W] = uv + nuv;
-- 
2.43.0


From af85c8bc13ba326b43102cceddc494a73c607301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:35 +0000
Subject: [PATCH 024/146] fix: Euler angles of a gimbal-locked quaternion could
 be NaN

---
 src/tf/conv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tf/conv.c b/src/tf/conv.c
index b6da02e..79bb689 100644
--- a/src/tf/conv.c
+++ b/src/tf/conv.c
@@ -227,7 +227,7 @@ void aa_tf_quat2eulerzyx( const double q[restrict 4],
     /* roll*/
     e[2] = atan2( 2.0*(w*x + y*z), 1.0 - 2.0*(x*x + y*y) );
     /* pitch*/
-    e[1] = asin( 2.0*(w*y - x*z) );
+    e[1] = asin( fmax(-1.0, fmin(1.0, 2.0*(w*y - x*z))) ); /* roundoff may exceed 1 */
     /* yaw*/
     e[0] = atan2( 2*(w*z + x*y), 1.0 - 2.0*(y*y+z*z) );
 }
-- 
2.43.0


From 140f3965ee568cf3a581dc7d333da02e9ad4f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 025/146] fix: frames with a default (NULL) rotation or
 translation

The matrix and dual quaternion forms of the fixed transform were computed
from the NULL arguments instead of the stored defaults.
---
 src/rx/scenegraph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index ba1a517..684eb43 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -69,8 +69,8 @@ SceneFrame::SceneFrame(
 {
     AA_MEM_CPY(E+AA_TF_QUTR_Q, q ? q : aa_tf_quat_ident, 4);
     AA_MEM_CPY(E+AA_TF_QUTR_V, v ? v : aa_tf_vec_ident, 3);
-    aa_tf_quat2rotmat(q,R);
-    aa_tf_qv2duqu(q,v,S);
+    aa_tf_quat2rotmat(E+AA_TF_QUTR_Q,R);
+    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,E+AA_TF_QUTR_V,S);
 }
 
 SceneFrame::~SceneFrame( )
-- 
2.43.0


From 2d19cf5515f3c87f011db07e1fff206f785c6e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 026/146] fix: overrun in the matrix transform of fixed frames

The translation has 3 elements, not 9.
---
 src/rx/scenegraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 684eb43..4a2757c 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -164,7 +164,7 @@ void SceneFrameFixed::tfmat_rel( const double *q, double _T[12] )
 {
     (void)q;
     AA_MEM_CPY(_T + AA_TF_TFMAT_R, this->R, 9);
-    AA_MEM_CPY(_T + AA_TF_TFMAT_V, this->E + AA_TF_QUTR_T, 9);
+    AA_MEM_CPY(_T + AA_TF_TFMAT_V, this->E + AA_TF_QUTR_T, 3);
 }
 
 void SceneFrameFixed::duqu_rel( const double *q, double _S[8] )
-- 
2.43.0


From ec770fe8e616f8c488c37797b2aaa449d6c6f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 027/146] fix: matrix and dual quaternion transforms of
 prismatic frames

The joint axis is in the frame's own coordinates, so it must be rotated
into the parent, as tf_rel() does.  The dual quaternion result was
written to the frame instead of the output.
---
 src/rx/scenegraph.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 4a2757c..7098a22 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -191,22 +191,17 @@ void SceneFramePrismatic::tf_rel( const double *q, double _E[7] )
 
 void SceneFramePrismatic::tfmat_rel( const double *q, double _T[12] )
 {
-    double qo = q[this->config_index] + this->offset;
+    double _E[7];
+    this->tf_rel(q, _E);
     AA_MEM_CPY( _T+AA_TF_TFMAT_R, R, 9 );
-
-    for( size_t i = 0; i < 3; i ++ ) {
-        _T[AA_TF_TFMAT_V+i] = E[AA_TF_QUTR_V+i] + qo*this->axis[i];
-    }
+    AA_MEM_CPY( _T+AA_TF_TFMAT_V, _E+AA_TF_QUTR_V, 3 );
 }
 
 void SceneFramePrismatic::duqu_rel( const double *q, double _S[8] )
 {
-    double qo = q[this->config_index] + this->offset;
-    double v[3];
-    for( size_t i = 0; i < 3; i ++ ) {
-        v[i] = E[AA_TF_QUTR_V+i] + qo*this->axis[i];
-    }
-    aa_tf_qv2duqu(E+AA_TF_QUTR_Q,v,S);
+    double _E[7];
+    this->tf_rel(q, _E);
+    aa_tf_qv2duqu(_E+AA_TF_QUTR_Q, _E+AA_TF_QUTR_V, _S);
 }
 
 void SceneFrameRevolute::tf_rel( const double *q, double _E[7] )
-- 
2.43.0


From 4e9b2d0f043f0c68827057ad766c32d5728fb04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 028/146] fix: initialize all scene graph members

---
 src/rx/scenegraph.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index 7098a22..b4eb935 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -262,8 +262,12 @@ void SceneFrameRevolute::tfmat_rel( const double *q, double _T[12] )
 // }
 
 SceneGraph::SceneGraph()
-    : dirty_indices(0),
-      destructor(NULL)
+    : config_size(0),
+      destructor(NULL),
+      destructor_context(NULL),
+      dirty_indices(0),
+      dirty_collision(1),
+      dirty_gl(1)
 {}
 
 SceneGraph::~SceneGraph()
-- 
2.43.0


From 5512fbc03558cf2e058a3e54fdbd98b017ca8964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 029/146] fix: report cyclic frames when indexing a scene graph

---
 src/rx/scenegraph.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index b4eb935..df16b48 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -346,6 +346,10 @@ int SceneGraph::index()
                 f->parent_id = AA_RX_FRAME_ROOT;
             } else {
                 f->parent_id = frame_map[f->parent]->frame_id;
+                if( AA_RX_FRAME_NONE == f->parent_id ) {
+                    // parent does not come first: there is a cycle
+                    return AA_RX_INVALID_FRAME;
+                }
             }
             assert( f->parent_id < f->frame_id );
             switch( f->type ) {
-- 
2.43.0


From 7a9a5af433ac943dca985c261932bcbc68e81a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 030/146] fix: bound of the configuration id in
 aa_rx_sg_config_name

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index ed58a4b..b9844d7 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -140,7 +140,7 @@ aa_rx_sg_config_name (
         case AA_RX_CONFIG_MULTI: return "MULTI";
         default:
             if (id < 0 ||
-                id >= (aa_rx_config_id)aa_rx_sg_frame_count(scene_graph)) {
+                id >= (aa_rx_config_id)aa_rx_sg_config_count(scene_graph)) {
                 return "NONE";
             }
             return scene_graph->sg->config_rmap[(size_t)id];
-- 
2.43.0


From 8c0fee28992e2e41720fa1f2f25dbf2a822b9783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 031/146] fix: allocate copied limits the way they are freed

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index b9844d7..18f5b49 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -784,7 +784,7 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
     // set limits
     for( auto &pair : orig->sg->limits_map ) {
         if ( pair.second ) {
-            aa_rx_config_limits * nl = new aa_rx_config_limits();
+            aa_rx_config_limits * nl = AA_NEW(struct aa_rx_config_limits);
             *nl = *pair.second;
             dest->sg->limits_map[pair.first] = nl;
         }else{
-- 
2.43.0


From 240037ae6c2d75f71930ff7d680231244387d3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 032/146] fix: copy the inertial parameters with the scene
 graph

---
 src/rx/sg_api.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 18f5b49..1227256 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -778,6 +778,10 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
             } break;
         }
         assert(f_new);
+        if( f->inertial ) {
+            f_new->inertial = AA_NEW(struct aa_rx_inertial);
+            *f_new->inertial = *f->inertial;
+        }
         dest->sg->add(f_new);
     }
 
-- 
2.43.0


From d62afa46b47a5971a05f42d54431a0877cc9c424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 033/146] fix: keep all forms of the fixed transform when
 reparenting

---
 src/rx/sg_api.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 1227256..e6ba259 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -733,6 +733,8 @@ AA_API void aa_rx_sg_reparent_name (const struct aa_rx_sg *scene_graph,
                   : new_parent );
 
     AA_MEM_CPY(f->E, E1, 7);
+    aa_tf_quat2rotmat(f->E+AA_TF_QUTR_Q, f->R);
+    aa_tf_qv2duqu(f->E+AA_TF_QUTR_Q, f->E+AA_TF_QUTR_V, f->S);
 
     scene_graph->sg->dirty_indices = 1;
 }
-- 
2.43.0


From 2e9f56d95fb65176bca92f1b71286684f4ee6918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 034/146] fix: make limits set after indexing visible

---
 src/rx/sg_api.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index e6ba259..e4207af 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -554,6 +554,10 @@ get_limits( struct aa_rx_sg *scenegraph,
     if( NULL == l ) {
         l = AA_NEW0(struct aa_rx_config_limits);
         sg->limits_map[config_name] = l;
+        auto itr = sg->config_map.find(config_name);
+        if( ! sg->dirty_indices && itr != sg->config_map.end() ) {
+            sg->limits[(size_t)itr->second] = l;
+        }
     }
 
     return l;
-- 
2.43.0


From d97ab27b8d9f4bd9ac01ce2a2a418164a6149bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 035/146] fix: removing a frame by its own name string

---
 src/rx/sg_api.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index e4207af..f6a8495 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -205,10 +205,9 @@ AA_API void aa_rx_sg_rm_frame
     auto itr = sg->frame_map.find(name);
     if( sg->frame_map.end() != itr ) {
         amino::SceneFrame *f = itr->second;
+        sg->frame_map.erase(itr);
         delete f;
     }
-
-    sg->frame_map.erase(name);
 }
 
 // AA_API void
-- 
2.43.0


From e0e16af32ef9ccbfcfbb30b773c58b2b56a1dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 036/146] fix: bound of the frame id in aa_rx_fk_get_abs_qutr

---
 src/rx/sg_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index f6a8495..3fcb96a 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -905,7 +905,7 @@ aa_rx_fk_ref(const struct aa_rx_fk *fk, aa_rx_frame_id id)
 AA_API void
 aa_rx_fk_get_abs_qutr(const struct aa_rx_fk *fk, aa_rx_frame_id id, double E[7] )
 {
-    if( id < 0 || (size_t)id > aa_rx_fk_cnt(fk) ) {
+    if( id < 0 || (size_t)id >= aa_rx_fk_cnt(fk) ) {
         fprintf(stderr, "ERROR: Invalid frame id %d\n", id);
         abort();
         exit(EXIT_FAILURE);
-- 
2.43.0


From 1e73b9dd00863adc02b633f79f72b775ba489467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:00 +0000
Subject: [PATCH 037/146] fix: allowed collisions must follow frames by name

The pairs pointed into the names of frames, which dangle once a frame is
removed or replaced, and their indices were not updated when the frames
were indexed again.
---
 include/amino/rx/scenegraph_internal.h |  6 +-----
 src/rx/amino_fcl.cpp                   |  9 ---------
 src/rx/collision_set.cpp               | 10 +++++-----
 src/rx/sg_api.cpp                      | 14 +++-----------
 4 files changed, 9 insertions(+), 30 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index e89eba4..94ef05f 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -201,11 +201,7 @@ struct SceneGraph  {
     size_t config_size;
 
     /** Set of allowable collision frames by name */
-    std::set<std::pair<const char*,const char*> > allowed;
-
-    /** List of allowable collisions by indices */
-    std::vector<size_t> allowed_indices1;
-    std::vector<size_t> allowed_indices2;
+    std::set<std::pair<std::string,std::string> > allowed;
 
     void (*destructor)(void *);
     void *destructor_context;
diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 64dc5e1..93da184 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -225,15 +225,6 @@ void aa_rx_sg_cl_init( struct aa_rx_sg *scene_graph )
 
     aa_rx_sg_map_geom( scene_graph, &cl_init_helper, scene_graph );
 
-    amino::SceneGraph *sg = scene_graph->sg;
-    sg->allowed_indices1.clear();
-    sg->allowed_indices2.clear();
-
-    for (auto it = sg->allowed.begin(); it!= sg->allowed.end(); it++){
-        sg->allowed_indices1.push_back(aa_rx_sg_frame_id(scene_graph, it->first));
-        sg->allowed_indices2.push_back(aa_rx_sg_frame_id(scene_graph, it->second));
-    }
-
     aa_rx_sg_clean_collision(scene_graph);
 }
 
diff --git a/src/rx/collision_set.cpp b/src/rx/collision_set.cpp
index 2a86c3b..b34f58b 100644
--- a/src/rx/collision_set.cpp
+++ b/src/rx/collision_set.cpp
@@ -116,11 +116,11 @@ aa_rx_cl_set_get( const struct aa_rx_cl_set *cl_set,
 
 AA_API void
 aa_rx_sg_cl_set_copy(const struct aa_rx_sg* sg, struct aa_rx_cl_set * set){
-    for (size_t i=0; i<sg->sg->allowed_indices1.size(); i++){
-        aa_rx_cl_set_set(set,
-                         (aa_rx_frame_id)sg->sg->allowed_indices1[i],
-                         (aa_rx_frame_id)sg->sg->allowed_indices2[i],
-                         1);
+    for( auto &pair : sg->sg->allowed ) {
+        aa_rx_frame_id i = aa_rx_sg_frame_id(sg, pair.first.c_str());
+        aa_rx_frame_id j = aa_rx_sg_frame_id(sg, pair.second.c_str());
+        // the pair may name frames that were removed
+        if( i >= 0 && j >= 0 ) aa_rx_cl_set_set(set, i, j, 1);
     }
 }
 
diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 3fcb96a..8bf6d41 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -809,7 +809,7 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
 
     // set allowed collision
     for (auto &pair : orig->sg->allowed){
-        aa_rx_sg_allow_collision_name(dest, pair.first, pair.second, 1);
+        aa_rx_sg_allow_collision_name(dest, pair.first.c_str(), pair.second.c_str(), 1);
     }
 
     // initialize sg
@@ -832,16 +832,8 @@ AA_API void
 aa_rx_sg_allow_collision_name( struct aa_rx_sg *scene_graph,
                                const char* frame0, const char* frame1, const int allowed )
 {
-    bool order = strcmp(frame0, frame1) <0;
-    const char *string0, *string1;
-    if (strcmp(frame0, frame1)<0){
-        string0 = scene_graph->sg->frame_map[frame0]->name.c_str();
-        string1 = scene_graph->sg->frame_map[frame1]->name.c_str();
-    } else {
-        string0 = scene_graph->sg->frame_map[frame1]->name.c_str();
-        string1 = scene_graph->sg->frame_map[frame0]->name.c_str();
-    }
-    std::pair<const char*, const char*> p(string0, string1);
+    std::pair<std::string, std::string> p(frame0, frame1);
+    if( p.second < p.first ) std::swap(p.first, p.second);
     if (allowed){
         scene_graph->sg->allowed.insert(p);
     } else {
-- 
2.43.0


From 56914d61fd4c865f7c51d2f752810bdf48116137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:00 +0000
Subject: [PATCH 038/146] fix: strided configurations in aa_rx_fk_all

---
 src/rx/sg_api.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 8bf6d41..2faec66 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -965,6 +965,14 @@ aa_rx_fk_all( struct aa_rx_fk *fk,
 
     amino::SceneGraph *sg = scenegraph->sg;
 
+    struct aa_mem_region *reg = aa_mem_region_local_get();
+    void *ptrtop = aa_mem_region_ptr(reg);
+    if( 1 != q->inc ) {
+        struct aa_dvec *qp = aa_dvec_alloc(reg,q->len);
+        aa_dvec_copy(q,qp);
+        q = qp;
+    }
+
     double E_rel[AA_RX_TF_LEN], *E_abs = fk->TF_abs;
     for( size_t i_frame = 0;
          i_frame < sg->frames.size();
@@ -974,6 +982,8 @@ aa_rx_fk_all( struct aa_rx_fk *fk,
         f->tf_rel( q->data, E_rel );
         aa_rx_fk_set_rel(fk,i_frame,E_rel);
     }
+
+    aa_mem_region_pop(reg, ptrtop);
 }
 
 
-- 
2.43.0


From 4b45ca90fa0d5f0c1df539b1d1a3c447a8b847aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:45 +0000
Subject: [PATCH 039/146] fix: multiple chains must contain the frames of each
 chain

The walk stopped at frames which were not visited yet instead of those
already visited, so the result was always empty.
---
 src/rx/scene_sub.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scene_sub.cpp b/src/rx/scene_sub.cpp
index 3edcb76..248b559 100644
--- a/src/rx/scene_sub.cpp
+++ b/src/rx/scene_sub.cpp
@@ -112,7 +112,7 @@ aa_rx_sg_chain_multiple_frames( const struct aa_rx_sg *sg,
     for(size_t i=0; i < n_tips; i ++){
 	aa_rx_frame_id tip = tips[i];
 	while( tip !=root && tip != AA_RX_FRAME_ROOT ){
-	    if (frames.find(tip) == frames.end()) break;
+	    if (frames.find(tip) != frames.end()) break;
 	    enum aa_rx_frame_type ft = aa_rx_sg_frame_type( sg, tip );
 	    switch(ft) {
 	    case AA_RX_FRAME_FIXED:
-- 
2.43.0


From cdd0a5822e4dd1d54b838692ca67c90b1ea2edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:45 +0000
Subject: [PATCH 040/146] fix: set the end-effectors of multiple chains and
 free the temporary

---
 src/rx/scene_kin.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rx/scene_kin.c b/src/rx/scene_kin.c
index d52f811..bbac42d 100644
--- a/src/rx/scene_kin.c
+++ b/src/rx/scene_kin.c
@@ -359,7 +359,7 @@ aa_rx_sg_multiple_chain_create( const struct aa_rx_sg *sg,
     ssg->frame_count = aa_rx_sg_chain_multiple_frames( sg, root, n_tips,
                                                        tips, tmp, tmp_arr);
     ssg->frames = AA_MEM_DUP(aa_rx_frame_id, tmp_arr, ssg->frame_count);
-
+    free(tmp_arr);
 
     ssg->config_count = aa_rx_sg_chain_config_count( sg,
                                                      ssg->frame_count,
@@ -368,6 +368,9 @@ aa_rx_sg_multiple_chain_create( const struct aa_rx_sg *sg,
     aa_rx_sg_chain_configs( sg, ssg->frame_count, ssg->frames,
                             ssg->config_count, ssg->configs );
 
+    ssg->ees = AA_MEM_DUP(aa_rx_frame_id, tips, n_tips);
+    ssg->ee_count = n_tips;
+
     return ssg;
 }
 
-- 
2.43.0


From ff58ac1ff4038027f0fae2a00b088a5ffe8f0aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:00 +0000
Subject: [PATCH 041/146] fix: report frames that are their own parent

---
 src/rx/scenegraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index df16b48..e34e9a0 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -346,7 +346,7 @@ int SceneGraph::index()
                 f->parent_id = AA_RX_FRAME_ROOT;
             } else {
                 f->parent_id = frame_map[f->parent]->frame_id;
-                if( AA_RX_FRAME_NONE == f->parent_id ) {
+                if( AA_RX_FRAME_NONE == f->parent_id || f->parent_id == f->frame_id ) {
                     // parent does not come first: there is a cycle
                     return AA_RX_INVALID_FRAME;
                 }
-- 
2.43.0


From 8447cd5bd31893c2b5e0a8c4fbeef9fa8c2ca721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:51 +0000
Subject: [PATCH 042/146] fix: Jacobians of empty chains read before the frame
 array

---
 src/rx/scene_kin.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rx/scene_kin.c b/src/rx/scene_kin.c
index bbac42d..0584ceb 100644
--- a/src/rx/scene_kin.c
+++ b/src/rx/scene_kin.c
@@ -472,15 +472,17 @@ aa_rx_sg_sub_jac_vel_fill2( const struct aa_rx_sg_sub *ssg,
     size_t n_frames = aa_rx_sg_sub_frame_count(ssg);
     size_t n_configs = aa_rx_sg_sub_config_count(ssg);
 
-    aa_rx_frame_id frame_ee = ssg->frames[n_frames-1];
-    double *E_ee = aa_rx_fk_ref(fk,frame_ee);
-    const double *pe = E_ee + AA_TF_QUTR_T;
-
     aa_la_check_size(3, Jr->rows);
     aa_la_check_size(3, Jp->rows);
     aa_la_check_size(n_configs, Jr->cols);
     aa_la_check_size(n_configs, Jp->cols);
 
+    if( 0 == n_frames ) return;
+
+    aa_rx_frame_id frame_ee = ssg->frames[n_frames-1];
+    double *E_ee = aa_rx_fk_ref(fk,frame_ee);
+    const double *pe = E_ee + AA_TF_QUTR_T;
+
     aa_rx_frame_id *frames = aa_rx_sg_sub_frames(ssg);
     const struct aa_rx_sg *sg = aa_rx_sg_sub_sg(ssg);
 
@@ -570,6 +572,8 @@ aa_rx_sg_chain_jacobian( const struct aa_rx_sg *sg,
 {
     (void)chain_configs; /* Use these for multivariate frame support */
 
+    if( 0 == n_frames ) return;
+
     aa_rx_frame_id frame_ee = chain_frames[n_frames-1];
     const double *pe = &TF_abs[(size_t)frame_ee * ld_TF] + AA_TF_QUTR_T;
 
-- 
2.43.0


From 8b25b4bd54205c783051e79933f4cbb30323f2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:22 +0000
Subject: [PATCH 043/146] fix: Dormand-Prince node 8/9 was computed by integer
 division

---
 src/sigsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index e592b72..82db3d6 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -481,7 +481,7 @@ void aa_odestep_dorpri45( size_t n, aa_sys_fun sys, const void *cx,
         {35.0/384,       11.0/84.0,     500.0/1113,    125.0/192,  -2187.0/6784}
     };
 
-    static const double c[] = {1.0/5, 3.0/10, 4.0/5, 8/9, 1, 1};
+    static const double c[] = {1.0/5, 3.0/10, 4.0/5, 8.0/9, 1, 1};
 
     // k0 already has dx at x0
 
-- 
2.43.0


From 367261d4de12b9ee9f6d2622b455da33124a782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:22 +0000
Subject: [PATCH 044/146] fix: adaptive aa_ode_sol advances time and restarts
 from the derivative at the accepted state

---
 src/sigsys.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index 82db3d6..29cbe64 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -659,19 +659,25 @@ AA_API int aa_ode_sol( enum aa_ode_integrator integrator,
                 if( err > opts->adapt_tol_dec ) {
                     dt *= opts->adapt_factor_dec;
                     continue;
-                } else if ( err < opts->adapt_tol_inc ) {
+                }
+                // accept the step
+                t += dt;
+                if ( err < opts->adapt_tol_inc ) {
                     dt *= opts->adapt_factor_inc;
                 }
                 break;
             }
 
+            /* Derivative at the end of the step */
+            sys( sys_cx, t, px2, kn );
+
             /* Check if complete */
             if( (check_result = check( check_cx, t, px2, kn)) ) {
                 AA_MEM_CPY(x1, px2, n);
                 break;
             } else {
                 double *tmp = px0; px0 = px2; px2 = tmp;
-                AA_MEM_CPY(k, kn, n); // extract dx to k0
+                sys( sys_cx, t, px0, k ); // dx for k0, check may modify x
             }
         }
     } else {
-- 
2.43.0


From 6bb6163a826416bd4824cf5b3939cbfb6617cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:59 +0000
Subject: [PATCH 045/146] fix: Cash-Karp fourth-order weights were applied to
 the wrong stages and the two results were exchanged

---
 src/sigsys.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sigsys.c b/src/sigsys.c
index 29cbe64..6dcedcb 100644
--- a/src/sigsys.c
+++ b/src/sigsys.c
@@ -440,13 +440,14 @@ void aa_odestep_rkck45( size_t n, aa_sys_fun sys, const void *cx,
                  (int)n, (int)4,
                  dt, k, (int)n,
                  v1, 1,
-                 1, x4, 1 );
-    static const double v2[] = { 2825.0/27648, 277.0/14336, 18575.0/48384, 13525.0/55296, 1.0/4};
+                 1, x5, 1 );
+    // column 1 of k is the stage at 7/8, column 4 the stage at 1
+    static const double v2[] = { 2825.0/27648, 1.0/4, 18575.0/48384, 13525.0/55296, 277.0/14336};
     cblas_dgemv( CblasColMajor, CblasNoTrans,
                  (int)n, (int)5,
                  dt, k, (int)n,
                  v2, 1,
-                 1, x5, 1 );
+                 1, x4, 1 );
 
 }
 
-- 
2.43.0


From 09bcb26d2ae2381c6fce46f2d77e4bf815eb85c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:19 +0000
Subject: [PATCH 046/146] fix: define aa_rx_ik_parm_set_algo, which the
 interface declares

---
 src/rx/ik_opt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rx/ik_opt.c b/src/rx/ik_opt.c
index 6154efd..f2a4cf6 100644
--- a/src/rx/ik_opt.c
+++ b/src/rx/ik_opt.c
@@ -98,6 +98,12 @@ aa_rx_ik_parm_destroy( struct aa_rx_ik_parm *opts)
 
 AA_DEF_SETTER( aa_rx_ik_parm, enum aa_rx_ik_algo, ik_algo )
 
+AA_API void
+aa_rx_ik_parm_set_algo( struct aa_rx_ik_parm *parm, enum aa_rx_ik_algo algo )
+{
+    parm->ik_algo = algo;
+}
+
 AA_DEF_SETTER( aa_rx_ik_parm, double, dt )
 AA_DEF_SETTER( aa_rx_ik_parm, double, tol_angle )
 AA_DEF_SETTER( aa_rx_ik_parm, double, tol_trans )
-- 
2.43.0


From 731dc3d29f275489aed5f2265406768b41fa7a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:19 +0000
Subject: [PATCH 047/146] fix: free the seed owned by IK parameters

---
 src/rx/ik_opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/ik_opt.c b/src/rx/ik_opt.c
index f2a4cf6..7d65047 100644
--- a/src/rx/ik_opt.c
+++ b/src/rx/ik_opt.c
@@ -93,6 +93,7 @@ aa_rx_ik_parm_destroy( struct aa_rx_ik_parm *opts)
 {
     if( opts->dq_dt_data ) free( opts->dq_dt_data );
     if( opts->q_ref_data ) free( opts->q_ref_data );
+    if( opts->q_all_seed_data ) free( opts->q_all_seed_data );
     free(opts);
 }
 
-- 
2.43.0


From 265c609df34cddcc752672d28b964fc3ae21346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:19 +0000
Subject: [PATCH 048/146] fix: IK with several targets left its context on the
 local region

---
 src/rx/scene_ik.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index 69de973..4281f70 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -223,6 +223,7 @@ aa_rx_ik_solve( const struct aa_rx_ik_cx *context,
 {
     if( aa_rx_sg_sub_config_count(context->ssg) != q->len
         || AA_RX_TF_LEN != TF->rows
+        || 1 != TF->cols /* only chains */
         )
     {
         return AA_RX_INVALID_PARAMETER;
@@ -232,10 +233,6 @@ aa_rx_ik_solve( const struct aa_rx_ik_cx *context,
     struct kin_solve_cx *kcx = s_kin_solve_cx_alloc( context,
                                                      aa_mem_region_local_get() );
 
-    if( 1 != TF->cols )
-    {   /* only chains */
-        return AA_RX_INVALID_PARAMETER;
-    }
     kcx->TF_ref = TF;
 
     /* aa_rx_sg_tf( kcx->ssg->scenegraph, */
-- 
2.43.0


From d9b920f295a6e1f30b043e796db0c0fa6ed4f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:19 +0000
Subject: [PATCH 049/146] fix: aa_rx_ik_check used uninitialized frames outside
 the sub-scenegraph

---
 src/rx/scene_ik.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index 4281f70..c32dc31 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -395,6 +395,7 @@ aa_rx_ik_check( const struct aa_rx_ik_cx *cx,
     aa_rx_sg_sub_config_scatter( cx->ssg, q_sub, q_all );
 
     struct aa_rx_fk *fk = aa_rx_fk_alloc(aa_rx_sg_sub_sg(cx->ssg), reg);
+    aa_rx_fk_cpy(fk, cx->fk);
     aa_rx_fk_sub(fk, cx->ssg, q_sub);
     double *E_act = aa_rx_fk_ref(fk, cx->frames[0]); // TODO: fix for multiple EEs
 
-- 
2.43.0


From 068e71bb454235533cdb320669d4fc07e19dd13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:19 +0000
Subject: [PATCH 050/146] fix: finite-difference pose error took the dual
 quaternion logarithm of a quaternion

---
 src/rx/ik_nlopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/ik_nlopt.c b/src/rx/ik_nlopt.c
index 376b593..11022e1 100644
--- a/src/rx/ik_nlopt.c
+++ b/src/rx/ik_nlopt.c
@@ -323,7 +323,7 @@ static double s_nlobj_qv_fd_helper( void *vcx, const struct aa_dvec *x)
 
     double q_ln[4];
     aa_tf_qminimize(q_err);
-    aa_tf_duqu_ln(q_err, q_ln);
+    aa_tf_qln(q_err, q_ln);
 
     for(size_t i = 0; i < 3; i ++ ) v_err[i] = v_act[i] - v_ref[i];
 
-- 
2.43.0


From bde10de51d68e7c545f22962698377206c16bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:26 +0000
Subject: [PATCH 051/146] fix: SQP IK ignored the maximum number of iterations
 and could run forever

---
 src/rx/ik_nlopt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rx/ik_nlopt.c b/src/rx/ik_nlopt.c
index 11022e1..ec764c2 100644
--- a/src/rx/ik_nlopt.c
+++ b/src/rx/ik_nlopt.c
@@ -47,6 +47,7 @@
  */
 
 #include <nlopt.h>
+#include <limits.h>
 #include "amino.h"
 #include "amino/diffeq.h"
 
@@ -605,6 +606,8 @@ s_ik_nlopt( struct kin_solve_cx *cx,
         nlopt_set_ftol_rel(opt, cx->opts->tol_obj_rel );
     if( cx->opts->tol_dq >= 0 )
         nlopt_set_xtol_rel(opt, cx->opts->tol_dq );
+    if( cx->opts->max_iterations > 0 )
+        nlopt_set_maxeval(opt, (int)AA_MIN(cx->opts->max_iterations, (size_t)INT_MAX));
 
     double *lb = AA_MEM_REGION_NEW_N(reg,double,n_sub);
     double *ub = AA_MEM_REGION_NEW_N(reg,double,n_sub);
-- 
2.43.0


From 039b820df4bef9193f728015dc40e352affff16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:46 +0000
Subject: [PATCH 052/146] fix: aa_opt_lp_clp had C++ linkage and could not be
 linked from C

---
 src/opt/opt_clp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index 28e3473..6b61291 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -347,7 +347,7 @@ AA_API struct aa_opt_cx* aa_opt_clp_crscreate (
 
 
 
-int aa_opt_lp_clp (
+AA_API int aa_opt_lp_clp (
     size_t m, size_t n,
     const double *A, size_t ldA,
     const double *b_lower, const double *b_upper,
-- 
2.43.0


From 54e32f44cab1e5ae597bae543747714b38e8586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:15 +0000
Subject: [PATCH 053/146] fix: LP-Solve backend miscounted equality and
 unbounded constraint rows

---
 src/opt/opt_lpsolve.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 809d496..a337401 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -189,7 +189,7 @@ static int s_count_rows( size_t m,
         int lb = aa_opt_is_lbound(b_lower[i]);
         int ub = aa_opt_is_ubound(b_upper[i]);
         if( !aa_opt_is_free(lb, ub) ) {
-            if( aa_opt_is_bound(lb,ub) ) {
+            if( aa_opt_is_bound(lb,ub) && !aa_feq(b_lower[i],b_upper[i],0) ) {
                 row_count += 2;
             } else {
                 row_count ++;
@@ -224,6 +224,17 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
     lprec *lp = (lprec*)cx->data;
     int row_count = s_count_rows(m, b_lower, b_upper);
 
+    // the number of rows depends on which bounds are finite
+    if( get_Nrows(lp) != row_count ) {
+        while( get_Nrows(lp) > row_count ) {
+            if( ! del_constraint(lp, get_Nrows(lp)) ) goto ERROR;
+        }
+        while( get_Nrows(lp) < row_count ) {
+            double val = 0;
+            int col = 1;
+            if( ! add_constraintex(lp, 1, &val, &col, LE, 0) ) goto ERROR;
+        }
+    }
 
     int ilp = 1;
     for( size_t i = 0; i < m; i ++ ) {
@@ -261,6 +272,8 @@ s_set_cstr_gm( struct aa_opt_cx *cx,
                     assert(0);
                     goto ERROR;
                 }
+            } else {
+                continue; // unconstrained
             }
         }
         if( ! s_set_row( lp, con_type,
-- 
2.43.0


From 4b07dca841762c5d56c30f88800741eed13bf19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:15 +0000
Subject: [PATCH 054/146] fix: LP contexts were allocated twice and one leaked

---
 src/opt/opt_glpk.c    | 2 +-
 src/opt/opt_lpsolve.c | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 58e16b2..4b81480 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -347,7 +347,7 @@ aa_opt_glpk_crscreate (
     }
 
 
-    return cx_finish( &s_vtab, lp );
+    return cx;
 }
 
 
diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index a337401..ddea472 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -353,8 +353,7 @@ AA_API struct aa_opt_cx* aa_opt_lpsolve_gmcreate (
     s_set_cstr_gm( cx, m, n, A, ldA, b_lower, b_upper );
 
 
-    return s_finish(m,n,lp,
-                    c, x_lower, x_upper);
+    return cx;
 
 ERROR:
     if( lp ) {
-- 
2.43.0


From 89f3da598346b83ececd89115de760d81bcfdec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:15 +0000
Subject: [PATCH 055/146] fix: empty and unconstrained rows of sparse linear
 programs

---
 src/opt/opt_glpk.c    | 2 +-
 src/opt/opt_lpsolve.c | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 4b81480..4b67d7c 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -339,7 +339,7 @@ aa_opt_glpk_crscreate (
         int count = end - start;
         const double *vals = A_values + start;
         const int *raw_inds = A_cols + start;
-        int inds[count];
+        int inds[count + 1];
         for( int j = 0; j < count; j ++ ) {
             inds[j] = raw_inds[j] + 1;
         }
diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index ddea472..480eb53 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -389,7 +389,7 @@ aa_opt_lpsolve_crscreate (
         int count = end - start;
         double *vals = (double*)A_values + start;
         int *raw_inds = (int*)A_cols + start;
-        int inds[count];
+        int inds[count + 1];
         for( int j = 0; j < count; j ++ ) {
             inds[j] = raw_inds[j] + 1;
         }
@@ -409,6 +409,8 @@ aa_opt_lpsolve_crscreate (
             } else if ( aa_opt_is_geq(lb,ub) )  {
                 rh = l;
                 con_type = GE;
+            } else if( aa_opt_is_free(lb,ub) ) {
+                continue; // unconstrained
             } else {
                 // leq
                 add_constraintex(lp, count, vals, inds, LE, u);
-- 
2.43.0


From eb4ce22aefe035cc808aa8304e334e9551c64e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:15 +0000
Subject: [PATCH 056/146] fix: GLPK backend reported success for infeasible and
 unbounded problems

---
 src/opt/opt_glpk.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 4b67d7c..6c809a0 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -69,14 +69,17 @@ static int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     int nb = glp_get_num_bin(lp);
     int ni = glp_get_num_int(lp);
     if( nb + ni > 0 ) {
-        glp_simplex( lp, NULL );
-        r = glp_intopt( lp, NULL );
+        r = glp_simplex( lp, NULL );
+        if( 0 == r && GLP_OPT != glp_get_status(lp) ) r = -1;
+        if( 0 == r ) r = glp_intopt( lp, NULL );
+        if( 0 == r && GLP_OPT != glp_mip_status(lp) ) r = -1;
         /* Result */
         for( int j = 0; j < (int)n; j ++ ) {
             x[j] = glp_mip_col_val( lp, j+1 );
         }
     } else {
         r = glp_simplex( lp, NULL );
+        if( 0 == r && GLP_OPT != glp_get_status(lp) ) r = -1;
         /* Result */
         for( int j = 0; j < (int)n; j ++ ) {
             x[j] = glp_get_col_prim( lp, j+1 );
-- 
2.43.0


From 5d7e9e79da7b20d3057f9125f894bd707d729219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:01 +0000
Subject: [PATCH 057/146] fix: GLPK aborted when the constraint matrix of a
 solved problem was changed

---
 src/opt/opt_glpk.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/opt/opt_glpk.c b/src/opt/opt_glpk.c
index 6c809a0..3c10886 100644
--- a/src/opt/opt_glpk.c
+++ b/src/opt/opt_glpk.c
@@ -234,6 +234,9 @@ s_set_cstr_mat_gm( struct aa_opt_cx *cx,
                          rows-1, AA_MATCOL(A,ldA,(size_t)j) - 1 );
     }
 
+    /* The basis of the previous matrix may be singular for this one,
+     * which aborts GLPK. */
+    glp_std_basis(lp);
 
     return 0;
 }
-- 
2.43.0


From 282eb284b282b6c11342ae55161eab5a558c6e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:42 +0000
Subject: [PATCH 058/146] fix: LP-Solve backend reported success for some
 unbounded problems

---
 src/opt/opt_lpsolve.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index 480eb53..e0cff96 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -94,6 +94,14 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
     /* result */
     get_variables(lp,x);
 
+    /* LP-Solve reports variables that appear in no constraint and have
+     * no bound as optimal at infinity. */
+    if( OPTIMAL == r || SUBOPTIMAL == r ) {
+        for( size_t j = 0; j < n; j ++ ) {
+            if( is_infinite(lp, x[j]) ) return UNBOUNDED;
+        }
+    }
+
     return r;
 }
 int s_destroy( struct aa_opt_cx *cx )
-- 
2.43.0


From 016a22aa8ee5dd1b0f4dcbeb2b238913633ceae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:15 +0000
Subject: [PATCH 059/146] fix: LP-Solve backend gave wrong solutions after the
 problem changed

---
 src/opt/opt_lpsolve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opt/opt_lpsolve.c b/src/opt/opt_lpsolve.c
index e0cff96..0b479b9 100644
--- a/src/opt/opt_lpsolve.c
+++ b/src/opt/opt_lpsolve.c
@@ -88,6 +88,8 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
 {
 
     lprec *lp = (lprec*)cx->data;
+    /* The previous basis may be singular or at bounds that no longer exist */
+    default_basis(lp);
     int r = solve(lp);
     assert((int)n == get_Ncolumns(lp));
 
-- 
2.43.0


From 0da3ad4c61bcea0d1bf8d547229121c7d1043077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:38 +0000
Subject: [PATCH 060/146] fix: CLP backend reported optima of the scaled
 problem that are not feasible or bounded

---
 src/opt/opt_clp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index 6b61291..81ca289 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -56,6 +56,8 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
 
     try {
         r = M->initialSolve();
+        // Optimal only for the scaled problem: continue without presolve
+        if( 0 == r && M->secondaryStatus() ) r = M->primal();
     } catch (CoinError e) {
         e.print();
         return -1;
-- 
2.43.0


From 78c01997af0582cb6843c29ce0878bce5458b5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:47 +0000
Subject: [PATCH 061/146] fix: CLP backend gave wrong results after a solved
 problem was modified

---
 src/opt/opt_clp.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index 81ca289..ee6ab67 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -55,9 +55,16 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
 
 
     try {
-        r = M->initialSolve();
+        // Solve a copy: state kept by a previous solve would give wrong
+        // results after the problem is modified.
+        SolverType S(*M);
+        r = S.initialSolve();
         // Optimal only for the scaled problem: continue without presolve
-        if( 0 == r && M->secondaryStatus() ) r = M->primal();
+        int ss = S.secondaryStatus();
+        if( 0 == r && 2 <= ss && ss <= 4 ) r = S.primal();
+
+        /* Result */
+        AA_MEM_CPY( x, S.getColSolution(), n );
     } catch (CoinError e) {
         e.print();
         return -1;
@@ -65,9 +72,6 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
         return -1;
     }
 
-    /* Result */
-    AA_MEM_CPY( x, M->getColSolution(), n );
-
     return r;
 }
 int s_destroy( struct aa_opt_cx *cx )
-- 
2.43.0


From b5c41e49fa9444bb341a355f7f974c8c1df69304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:14 +0000
Subject: [PATCH 062/146] fix: CLP backend reported an optimum of the presolved
 problem when the original is unbounded

---
 src/opt/opt_clp.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/opt/opt_clp.cpp b/src/opt/opt_clp.cpp
index ee6ab67..9424bef 100644
--- a/src/opt/opt_clp.cpp
+++ b/src/opt/opt_clp.cpp
@@ -59,9 +59,9 @@ int s_solve( struct aa_opt_cx *cx, size_t n, double *x )
         // results after the problem is modified.
         SolverType S(*M);
         r = S.initialSolve();
-        // Optimal only for the scaled problem: continue without presolve
-        int ss = S.secondaryStatus();
-        if( 0 == r && 2 <= ss && ss <= 4 ) r = S.primal();
+        // The result may be optimal only for the scaled or presolved
+        // problem: confirm it for the original problem.
+        if( 0 == r && S.getNumElements() > 0 ) r = S.primal();
 
         /* Result */
         AA_MEM_CPY( x, S.getColSolution(), n );
-- 
2.43.0


From 772d0fd9ca8cdb9613bf1752a0b1d971dcb74f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:21 +0000
Subject: [PATCH 063/146] fix: LC3 null-space term was applied to the wrong
 number of joints

---
 src/rx/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/lc3.c b/src/rx/lc3.c
index 549ebd8..d179ff3 100644
--- a/src/rx/lc3.c
+++ b/src/rx/lc3.c
@@ -347,7 +347,7 @@ aa_rx_wk_dx2dq_lc3( const struct aa_rx_wk_lc3_cx *cx,
                      1.0, AA_VEC_ARGS(dq) );
 
         // Nullspace Projection
-        cblas_daxpy( (int)n_x,
+        cblas_daxpy( (int)n_q,
                      opt_x[n_x], A+(n_x*n_q), 1,
                      AA_VEC_ARGS(dq) );
 
-- 
2.43.0


From 4a98196afae3b67eaeaf2ed10aa9c83f88295352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:28 +0000
Subject: [PATCH 064/146] fix: trajectories could not be evaluated at a time
 before the previous one

---
 src/ct/traj.cpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index c8847c4..b85b75f 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -60,7 +60,7 @@ aa_ct_list_add(T *list, U *el)
     if (list->list.size())
         list->list.back()->next = el;
 
-    el->prev = list->list.back();
+    el->prev = list->list.size() ? list->list.back() : NULL;
     list->list.push_back(el);
 }
 
@@ -79,7 +79,7 @@ aa_ct_list_add_front(T *list, U *el)
         list->list.front()->prev = el;
     }
 
-    el->next = list->list.front();
+    el->next = list->list.size() ? list->list.front() : NULL;
     list->list.insert(list->list.begin(), el);
 }
 
@@ -209,23 +209,27 @@ AA_API int
 aa_ct_seg_list_eval(struct aa_ct_seg_list *list, struct aa_ct_state *state,
                     double t)
 {
-    if (!list->it_on) {
-        list->it = list->list.begin();
-        list->it_on = 1;
-    }
-
-    do {
-        struct aa_ct_seg *seg = *list->it;
+    /* Continue from the previous segment, and start over from the
+     * first segment when the time is not in any later segment. */
+    for (;;) {
+        int resumed = list->it_on && list->it != list->list.begin();
+
+        if (!list->it_on) {
+            list->it = list->list.begin();
+            list->it_on = 1;
+        }
 
-        int r;
-        if ((r = seg->eval(seg, state, t)))
-            return r;
+        for (; list->it != list->list.end(); list->it++) {
+            struct aa_ct_seg *seg = *list->it;
 
-        list->it++;
-    } while (list->it != list->list.end());
+            int r;
+            if ((r = seg->eval(seg, state, t)))
+                return r;
+        }
 
-    list->it_on = 0;
-    return AA_CT_SEG_OUT;
+        list->it_on = 0;
+        if (!resumed) return AA_CT_SEG_OUT;
+    }
 }
 
 int aa_ct_seg_list_eval_q(struct aa_ct_seg_list *list, double t, size_t n, double *q)
-- 
2.43.0


From a8c4a3dc627ccc9985929b82368c2ee56008e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:28 +0000
Subject: [PATCH 065/146] fix: trajectory segments used the wrong acceleration
 sign and required every array of the state

---
 src/ct/traj.cpp | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index b85b75f..9ea1967 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -298,6 +298,7 @@ aa_ct_seg_list_plot(struct aa_ct_seg_list *list, size_t n_q, double dt)
 
     struct aa_ct_state state;
     double q[n_q], dq[n_q];
+    AA_MEM_ZERO(&state,1);
     state.n_q = n_q;
     state.q = q;
     state.dq = dq;
@@ -366,12 +367,17 @@ static int aa_ct_seg_dq_eval( struct aa_ct_seg *seg,
         if( state->dq ) {
             AA_MEM_CPY(state->dq, cx->dq, n);
         }
+        if( state->ddq ) {
+            AA_MEM_ZERO(state->ddq, n);
+        }
 
         return AA_CT_SEG_IN;
     } else {
         tt = cx->t1 - cx->t0;
-        for( size_t i = 0; i < n; i++ ) {
-            state->q[i] = cx->q0[i] + cx->dq[i] * tt;
+        if( state->q ) {
+            for( size_t i = 0; i < n; i++ ) {
+                state->q[i] = cx->q0[i] + cx->dq[i] * tt;
+            }
         }
         return AA_CT_SEG_OUT;
     }
@@ -495,14 +501,14 @@ static int aa_ct_seg_ddq_eval( struct aa_ct_seg *seg,
     if( t >= cx->t0 && t <= cx->t1 ) {
         size_t n = AA_MIN( cx->n_q, state->n_q );
         double tt = t - cx->t0;
-        double q, dq, ddq, q0, dq0;
         for( size_t i = 0; i < n; i ++ ) {
-            ddq = cx->ddq[i];
-            dq  = cx->dq0[i];
-            q   =  cx->q0[i];
+            double ddq = cx->ddq[i];
+            double dq  = cx->dq0[i];
+            double q   = cx->q0[i];
 
-            state->dq[i] = dq - tt * ddq;
-            state->q[i] = q + tt * dq - tt * tt * ddq/2;
+            if( state->ddq ) state->ddq[i] = ddq;
+            if( state->dq ) state->dq[i] = dq + tt * ddq;
+            if( state->q ) state->q[i] = q + tt * dq + tt * tt * ddq/2;
         }
         return AA_CT_SEG_IN;
     } else {
@@ -737,19 +743,25 @@ aa_ct_tj_pb_eval(struct aa_ct_seg *seg, struct aa_ct_state *state, double t)
         for (size_t i = 0; i < c_cx->n_q; i++) {
             double p_dq = (p_cx) ? p_cx->dq[i] : 0;
 
-            state->q[i] = c_cx->q[i] + p_dq * dt + \
-                c_cx->ddq[i] * pow((dt + c_cx->b / 2), 2) / 2;
-            state->dq[i] = p_dq + c_cx->ddq[i] * (dt + c_cx->b / 2);
-            state->ddq[i] = c_cx->ddq[i];
+            if (state->q)
+                state->q[i] = c_cx->q[i] + p_dq * dt + \
+                    c_cx->ddq[i] * pow((dt + c_cx->b / 2), 2) / 2;
+            if (state->dq)
+                state->dq[i] = p_dq + c_cx->ddq[i] * (dt + c_cx->b / 2);
+            if (state->ddq)
+                state->ddq[i] = c_cx->ddq[i];
         }
 
     } else if (n_cx && ((c_cx->t + c_cx->b / 2) <= t
                         && t <= (c_cx->t + c_cx->dt - n_cx->b / 2))) {
         // Linear region
         for (size_t i = 0; i < c_cx->n_q; i++) {
-            state->q[i] = c_cx->q[i] + c_cx->dq[i] * dt;
-            state->dq[i] = c_cx->dq[i];
-            state->ddq[i] = 0;
+            if (state->q)
+                state->q[i] = c_cx->q[i] + c_cx->dq[i] * dt;
+            if (state->dq)
+                state->dq[i] = c_cx->dq[i];
+            if (state->ddq)
+                state->ddq[i] = 0;
         }
 
     } else {
-- 
2.43.0


From d9c5e477cd9112ef40d43c104a97d028b0638bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:28 +0000
Subject: [PATCH 066/146] fix: trapezoidal trajectories exceeded the velocity
 limits of synchronized joints

---
 src/ct/traj.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 9ea1967..93d16e6 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -532,6 +532,7 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
     /* Compute segment time */
     double dt = 0;
     double ta = 0;
+    double tc = 0;
     size_t n_q = AA_MIN(state0->n_q, state1->n_q);
     double dqmax, ddqmax, dti, q0, q1;
     double sign;
@@ -567,9 +568,12 @@ aa_ct_seg_trap_new( struct aa_mem_region *reg,
             dti = 2*tai;
         }
 
-        dt = AA_MAX(dt, dti);
+        /* Acceleration is qdiff/(ta*tc) and velocity is qdiff/tc, so
+         * both times must be at least what each joint needs. */
         ta = AA_MAX(ta, tai);
+        tc = AA_MAX(tc, dti - tai);
     }
+    dt = ta + tc;
 
     /* Allocate */
     /* Accelearation segment */
@@ -674,7 +678,7 @@ struct aa_ct_seg_list *aa_ct_tjq_trap_generate( struct aa_mem_region *reg,
             fprintf(stderr,
                     "WARNING: mistmactched confiuration count during trajectory generation.\n");
         }
-        struct aa_ct_seg **seg_arr = AA_NEW_AR(aa_ct_seg*, 3);
+        struct aa_ct_seg *seg_arr[3];
 
         aa_ct_seg_trap_new( reg, segs->duration,
                             &(*itr0)->state, &(*itr1)->state,
-- 
2.43.0


From 324dbdd55b80195e0b514a4ca6a1089aaee260dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:28 +0000
Subject: [PATCH 067/146] fix: SLERP trajectories reported every time as
 outside and wrote past short effort arrays

---
 src/ct/traj.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 93d16e6..f373659 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -199,6 +199,7 @@ void aa_ct_seg_list_add_cx( struct aa_ct_seg_list *list,
                             void *cx )
 {
     struct aa_ct_seg *seg = AA_MEM_REGION_NEW(&list->reg, aa_ct_seg);
+    AA_MEM_ZERO(seg,1);
     seg->cx = cx;
     seg->eval = eval;
     aa_ct_seg_list_add( list, seg );
@@ -1140,8 +1141,8 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
 
 // TODO: non-unit time
 struct aa_ct_slerp_seg {
-    double *E0;
-    double *E1;
+    double E0[7];
+    double E1[7];
     double dx[6];
     double dt;
 };
@@ -1171,8 +1172,8 @@ static int aa_ct_seg_slerp_eval( struct aa_ct_seg *seg,
         if( state->dX ) AA_MEM_CPY( state->dX, cx->dx, 6 );
     }
     if( state->ddX ) AA_MEM_ZERO(state->ddX,6);
-    if( state->eff ) AA_MEM_ZERO(state->eff,6);
-    return 0;
+    if( state->eff ) AA_MEM_ZERO(state->eff,state->n_q);
+    return (t >= 0 && t <= cx->dt) ? AA_CT_SEG_IN : AA_CT_SEG_OUT;
 }
 
 struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
@@ -1189,9 +1190,9 @@ struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
         s->dt = 1;
 
         auto itr = list->list.begin();
-        s->E0 = (*itr)->state.X;
+        AA_MEM_CPY(s->E0, (*itr)->state.X, 7);
         itr++;
-        s->E1 = (*itr)->state.X;
+        AA_MEM_CPY(s->E1, (*itr)->state.X, 7);
 
         // omega
         double qt[4], ql[4];
@@ -1211,6 +1212,7 @@ struct aa_ct_seg_list *aa_ct_tjx_slerp_generate(struct aa_mem_region *reg,
 
     struct aa_ct_seg_list *segs  = new(reg) aa_ct_seg_list(reg);
     aa_ct_seg_list_add_cx(segs, aa_ct_seg_slerp_eval,  s);
+    segs->n_q = 0;
     segs->duration = 1;
 
     return segs;
-- 
2.43.0


From d8615eaf5b413e61a53d1395e8c521f6b5991859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 068/146] fix: trajectory continuity check corrupted the
 scratch region and rejected trapezoidal trajectories

---
 src/ct/traj.cpp | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index f373659..d624ef2 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1062,9 +1062,8 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
     size_t n_q = aa_ct_seg_list_n_q(segs);
     struct aa_ct_state *state0 = aa_ct_state_alloc(reg, n_q, 0);
     struct aa_ct_state *state1 = aa_ct_state_alloc(reg, n_q, 0);
-    struct aa_ct_state *temp;
+    int r = 0;
 
-    aa_ct_seg_list_eval(segs, state1, dt);
     for( double t0 = 0, t1 = dt; aa_ct_seg_list_eval(segs, state1, t1); t0 += dt, t1 += dt )
     {
         aa_ct_seg_list_eval(segs, state0, t0);
@@ -1078,40 +1077,45 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
         {
             // The max distance between two steps exceeded to given tolerance.
             fprintf(stderr, "WARNING: trajectory is not continious for seg type: %f, %f\n", state_diff, tol);
-            fprintf(stderr, "Vels: dq %f, %f ...\n", state0->dq[0], state0->dq[1]);
+            fprintf(stderr, "Vels: dq %f, ...\n", state0->dq[0]);
             fprintf(stderr, "Times: t0: %f, t1: %f\n", t0, t1);
-            return 1;
+            r = 1;
+            break;
         }
-
-        // Swap state0 to become state1, next loop will overwrite the old state0.
-        temp = state0;
-        state0 = state1;
-        state1 = temp;
     }
 
-    struct aa_ct_seg *c_seg = segs->list.front();
-    for (; c_seg->next != NULL; c_seg = c_seg->next)
+    struct aa_ct_seg *c_seg = segs->list.size() ? segs->list.front() : NULL;
+    for (; 0 == r && c_seg && c_seg->next != NULL; c_seg = c_seg->next)
     {
+        // Time of the boundary between this segment and the next
+        double t;
         if (c_seg->type == AA_CT_LIN_SEG)
         {
             struct aa_ct_seg_dq *p_cx, *c_cx, *n_cx;
             aa_ct_tj_dq_nbrs(c_seg, &p_cx, &c_cx, &n_cx);
-            c_seg->eval(c_seg, state0, c_cx->t1);
-            c_seg->next->eval(c_seg->next, state1, n_cx->t0);
-
+            t = c_cx->t1;
+        }
+        else if (c_seg->type == AA_CT_ACCL_SEG)
+        {
+            struct aa_ct_seg_ddq *p_cx, *c_cx, *n_cx;
+            aa_ct_tj_ddq_nbrs(c_seg, &p_cx, &c_cx, &n_cx);
+            t = c_cx->t1;
         }
         else if (c_seg->type == AA_CT_PB_SEG)
         {
             struct aa_ct_seg_pb_cx *p_cx, *c_cx, *n_cx;
             aa_ct_tj_pb_nbrs(c_seg, &p_cx, &c_cx, &n_cx);
-            c_seg->eval(c_seg, state0, c_cx->t + c_cx->dt - n_cx->b / 2);
-            c_seg->next->eval(c_seg->next, state1, n_cx->t - n_cx->b / 2);
+            t = c_cx->t + c_cx->dt - n_cx->b / 2;
         }
         else
         {
             // Why does the segment have a weird type?
-            return 3;
+            r = 3;
+            break;
         }
+        c_seg->eval(c_seg, state0, t);
+        c_seg->next->eval(c_seg->next, state1, t);
+
         double state_diff = 0.0;
         for (size_t i = 0; i < n_q; i++)
         {
@@ -1123,15 +1127,13 @@ int aa_ct_seg_list_check_c0( struct aa_ct_seg_list * segs, double dt,
             // Max distance between two segment endpoints exceed the given epsilon.
             fprintf(stderr, "WARNING: trajectory segment endpoints don't match for seg type %d: "
                     "%f, %f.\n", c_seg->type, state_diff, eps);
-            return 2;
+            r = 2;
         }
     }
 
     aa_mem_region_pop(reg, state0);
-    aa_mem_region_pop(reg, state1);
 
-    // All good!
-    return 0;
+    return r;
 }
 
 
-- 
2.43.0


From f4e5c9bef22d6fc124dcd3ca858a789d51dc0189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 069/146] fix: state dump printed accelerations as efforts

---
 src/ct/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ct/state.c b/src/ct/state.c
index 833c634..de0cda3 100644
--- a/src/ct/state.c
+++ b/src/ct/state.c
@@ -125,7 +125,7 @@ aa_ct_state_dump(FILE *stream, struct aa_ct_state *state)
 
     if (state->eff) {
         fputs("eff: ", stream);
-        aa_dump_vec(stream, state->ddq, state->n_q);
+        aa_dump_vec(stream, state->eff, state->n_q);
     }
 
     if (state->X) {
-- 
2.43.0


From a8663d3056de9372036211e1df93ea0e0920d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:02 +0000
Subject: [PATCH 070/146] fix: joints without position limits were clamped to
 zero in workspace paths

---
 src/rx/rx_ct.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/rx/rx_ct.c b/src/rx/rx_ct.c
index 9ed0ab7..21fbc6f 100644
--- a/src/rx/rx_ct.c
+++ b/src/rx/rx_ct.c
@@ -299,14 +299,18 @@ aa_rx_ct_sg_limits( struct aa_mem_region *region, const struct aa_rx_sg *sg )
     lim->max = aa_ct_state_alloc(region, n_q, 0);
 
     for( size_t i = 0; i < n_q; i ++ ) {
-        aa_rx_sg_get_limit_pos(sg, (aa_rx_config_id)i,
-                               lim->min->q+i, lim->max->q+i);
-        aa_rx_sg_get_limit_vel(sg, (aa_rx_config_id)i,
-                               lim->min->dq+i, lim->max->dq+i);
-        aa_rx_sg_get_limit_acc(sg, (aa_rx_config_id)i,
-                               lim->min->ddq+i, lim->max->ddq+i);
-        aa_rx_sg_get_limit_eff(sg, (aa_rx_config_id)i,
-                               lim->min->eff+i, lim->max->eff+i);
+        if( aa_rx_sg_get_limit_pos(sg, (aa_rx_config_id)i,
+                                   lim->min->q+i, lim->max->q+i) )
+            set_inf( lim->min->q+i, lim->max->q+i );
+        if( aa_rx_sg_get_limit_vel(sg, (aa_rx_config_id)i,
+                                   lim->min->dq+i, lim->max->dq+i) )
+            set_inf( lim->min->dq+i, lim->max->dq+i );
+        if( aa_rx_sg_get_limit_acc(sg, (aa_rx_config_id)i,
+                                   lim->min->ddq+i, lim->max->ddq+i) )
+            set_inf( lim->min->ddq+i, lim->max->ddq+i );
+        if( aa_rx_sg_get_limit_eff(sg, (aa_rx_config_id)i,
+                                   lim->min->eff+i, lim->max->eff+i) )
+            set_inf( lim->min->eff+i, lim->max->eff+i );
     }
 
     return lim;
-- 
2.43.0


From 16df95bedc364359754de3c86782bc1e5f3e341c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:22 +0000
Subject: [PATCH 071/146] fix: workspace parabolic blends left the workspace
 velocity unset

---
 src/ct/traj.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index d624ef2..28a1be3 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -965,10 +965,17 @@ aa_ct_tjX_pb_eval(struct aa_ct_seg *seg, struct aa_ct_state *state, double t)
     int r = aa_ct_tj_pb_eval(seg, state, t);
 
     if (r) {
-        aa_tf_rotvec2quat(&state->q[3], state->X);
-        state->X[4] = state->q[0];
-        state->X[5] = state->q[1];
-        state->X[6] = state->q[2];
+        if (state->X) {
+            aa_tf_rotvec2quat(&state->q[3], state->X);
+            state->X[4] = state->q[0];
+            state->X[5] = state->q[1];
+            state->X[6] = state->q[2];
+        }
+        if (state->dX) {
+            AA_MEM_CPY(state->dX + AA_TF_DX_V, state->dq, 3);
+            aa_tf_rotvec_diff2vel(&state->q[3], &state->dq[3],
+                                  state->dX + AA_TF_DX_W);
+        }
     }
 
     state->q = tq;
-- 
2.43.0


From e4c945783927165afc1dd6195e7b5fc32d325c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:21 +0000
Subject: [PATCH 072/146] fix: dumping an empty vector read out of bounds

---
 src/debug.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/debug.c b/src/debug.c
index 6a631e4..c76442f 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -66,16 +66,18 @@ aa_tock(void) {
 
 AA_API void
 aa_dump_vec( FILE *file, const double *v, size_t n ) {
-    for( size_t i = 0; i < n-1; i ++ )
+    for( size_t i = 0; i + 1 < n; i ++ )
         fprintf(file, "%f\t", v[i] );
-    fprintf(file, "%f\n", v[n-1]);
+    if( n ) fprintf(file, "%f", v[n-1]);
+    fputc('\n', file);
 }
 
 AA_API void
 aa_dump_vecf( FILE *file, const float *v, size_t n ) {
-    for( size_t i = 0; i < n-1; i ++ )
+    for( size_t i = 0; i + 1 < n; i ++ )
         fprintf(file, "%f\t", v[i] );
-    fprintf(file, "%f\n", v[n-1]);
+    if( n ) fprintf(file, "%f", v[n-1]);
+    fputc('\n', file);
 }
 
 AA_API void
-- 
2.43.0


From 8184cd0501c3b5b85280afcb65cac5f98d248a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:43 +0000
Subject: [PATCH 073/146] fix: text IO and heap functions could not be linked
 from C++

---
 include/amino/heap.h |  6 +++---
 include/amino/io.h   | 18 +++++++++---------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/amino/heap.h b/include/amino/heap.h
index 6ab1cd4..cdb4b55 100644
--- a/include/amino/heap.h
+++ b/include/amino/heap.h
@@ -60,14 +60,14 @@ typedef int (*aa_compar_fun)(const void *a, const void *b);
  *
  * Manipulates the tree rooted at index i so that it becomes a heap.
  */
-void aa_aheap_heapify(uint8_t *base, size_t nmemb, size_t size,  size_t i, aa_compar_fun compar );
+AA_API void aa_aheap_heapify(uint8_t *base, size_t nmemb, size_t size,  size_t i, aa_compar_fun compar );
 
 /**
  * Perform heapsort.
  */
-void aa_aheap_sort(void *base, size_t nmemb, size_t size,  aa_compar_fun compar );
+AA_API void aa_aheap_sort(void *base, size_t nmemb, size_t size,  aa_compar_fun compar );
 
 /**
  * Build a heap from an array.
  */
-void aa_aheap_build(uint8_t *base, size_t nmemb, size_t size,  aa_compar_fun compar );
+AA_API void aa_aheap_build(uint8_t *base, size_t nmemb, size_t size,  aa_compar_fun compar );
diff --git a/include/amino/io.h b/include/amino/io.h
index 06cba2f..cea4a04 100644
--- a/include/amino/io.h
+++ b/include/amino/io.h
@@ -50,24 +50,24 @@ AA_API ssize_t aa_read_realloc(int fd, void **buf, size_t off, size_t *max);
 #define AA_IO_ISCOMMENT(x) ('#' == (x))
 
 /** Read line from file, storing in memory region. */
-char *aa_io_getline( FILE *fin, struct aa_mem_region *reg );
+AA_API char *aa_io_getline( FILE *fin, struct aa_mem_region *reg );
 
 /** Parse line into doubles, storing in memory region */
-size_t aa_io_d_parse( const char *str, struct aa_mem_region *reg, double **X, char **lendptr );
+AA_API size_t aa_io_d_parse( const char *str, struct aa_mem_region *reg, double **X, char **lendptr );
 
 /** Skip leading blank characters */
-char *aa_io_skipblank( const char *str );
+AA_API char *aa_io_skipblank( const char *str );
 
 /** Parse vector from a line */
-size_t aa_io_parsevector( const char *str, size_t n, double *X, size_t incx, char **endptr );
+AA_API size_t aa_io_parsevector( const char *str, size_t n, double *X, size_t incx, char **endptr );
 
 /** Read a vector from a line in the file */
-size_t aa_io_getvector( FILE *fin, struct aa_mem_region *reg, size_t n, double *X, size_t incx );
+AA_API size_t aa_io_getvector( FILE *fin, struct aa_mem_region *reg, size_t n, double *X, size_t incx );
 
 /** Read a fixed size matrix from file.
  *  Returns number of items read.
  */
-size_t aa_io_fread_matrix_fix( FILE *fin, size_t m, size_t n,
+AA_API size_t aa_io_fread_matrix_fix( FILE *fin, size_t m, size_t n,
                                double *A, size_t lda );
 
 /** Read a fixed size matrix from file.
@@ -82,7 +82,7 @@ size_t aa_io_fread_matrix_fix( FILE *fin, size_t m, size_t n,
  * @param A, pointer to matrix buffer
  * @param elts, pointer to number of elements in A
  */
-ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
+AA_API ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
                                  double **A, size_t *elts );
 /** Vector print.
  *
@@ -91,7 +91,7 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
  * @param x vector to write
  * @param incx increment between elements of x
  */
-ssize_t aa_io_d_print( FILE *fout, size_t n,
+AA_API ssize_t aa_io_d_print( FILE *fout, size_t n,
                        const double *x, size_t incx );
 
 /** General matrix print.
@@ -103,7 +103,7 @@ ssize_t aa_io_d_print( FILE *fout, size_t n,
  * @param m rows in A
  * @param n cols in A
  */
-ssize_t aa_io_d_gemp( FILE *fout, AA_CBLAS_ORDER file_order, size_t m, size_t n,
+AA_API ssize_t aa_io_d_gemp( FILE *fout, AA_CBLAS_ORDER file_order, size_t m, size_t n,
                       const double *A, size_t lda );
 
 #endif //AMINO_IO_H
-- 
2.43.0


From 04c4e96cef3a0a5f895dfea24efdfd4924c861d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 074/146] fix: reading a line that exactly fills a memory
 region chunk lost the line

---
 src/io.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 722c6db..27daeac 100644
--- a/src/io.c
+++ b/src/io.c
@@ -63,8 +63,12 @@ char *aa_io_getline( FILE *fin, struct aa_mem_region *reg )
     do {
         int i = fgetc(fin);
         if( '\n' == i || EOF == i ) {
-            char * str = (char*)aa_mem_region_alloc( reg, n+1 );
+            // tmprealloc preserves the line if it moves to a new chunk
+            char * str = (char*)aa_mem_region_tmprealloc( reg, n+1 );
             str[n] = '\0';
+            void *ptr = aa_mem_region_alloc( reg, n+1 );
+            assert( ptr == str );
+            (void)ptr;
             return str;
         }
         n++;
-- 
2.43.0


From 355f5847c9e75a7f53e4943ea8e983184a896ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 075/146] fix: reading a matrix leaked blank, comment and bad
 lines in the local region

---
 src/io.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/io.c b/src/io.c
index 27daeac..912447e 100644
--- a/src/io.c
+++ b/src/io.c
@@ -191,7 +191,10 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
         if( NULL == line ) continue;
 
         char *line2 = aa_io_skipblank(line);
-        if('\0' == *line2 || AA_IO_ISCOMMENT(*line2)) continue;
+        if('\0' == *line2 || AA_IO_ISCOMMENT(*line2)) {
+            aa_mem_region_pop(reg, line);
+            continue;
+        }
 
         // maybe realloc
         if( *elts < read_elts + n ) {
@@ -201,11 +204,10 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
 
         // parse
         size_t i = aa_io_parsevector( line2, n, (*A)+read_elts, 1, NULL );
+        aa_mem_region_pop(reg, line);
         if( i != n ) return -(ssize_t)lineno;
 
         read_elts += i;
-
-        aa_mem_region_pop(reg, line);
     }
     return (ssize_t)(read_elts / n);
 }
-- 
2.43.0


From 3c7c2e13513553d7e5760b95685fa6574d48c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 076/146] fix: reading a matrix into a small buffer overran it

---
 src/io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 912447e..d865ab7 100644
--- a/src/io.c
+++ b/src/io.c
@@ -198,7 +198,7 @@ ssize_t aa_io_fread_matrix_heap( FILE *fin, size_t n,
 
         // maybe realloc
         if( *elts < read_elts + n ) {
-            *elts *= 2;
+            *elts = AA_MAX( 2*(*elts), read_elts + n );
             *A = (double*) realloc(*A, *elts * sizeof(double) );
         }
 
-- 
2.43.0


From 82b55612a5d7149d5befe17715611eda2bea1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:04 +0000
Subject: [PATCH 077/146] fix: dumping a matrix without columns read before the
 array

---
 src/debug.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/debug.c b/src/debug.c
index c76442f..0f16e09 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -83,20 +83,22 @@ aa_dump_vecf( FILE *file, const float *v, size_t n ) {
 AA_API void
 aa_dump_mat( FILE *file, const double *A, size_t m, size_t n  ) {
     for( size_t i = 0; i < m; i ++ ) {
-        for( size_t j = 0; j < n-1; j ++ ) {
+        for( size_t j = 0; j + 1 < n; j ++ ) {
             fprintf(file, "%f\t", AA_MATREF(A, m,i,j));
         }
-        fprintf(file, "%f\n", AA_MATREF(A, m, i, n-1) );
+        if( n ) fprintf(file, "%f", AA_MATREF(A, m, i, n-1) );
+        fputc('\n', file);
     }
 }
 
 AA_API void
 aa_dump_matf( FILE *file, const float *A, size_t m, size_t n  ) {
     for( size_t i = 0; i < m; i ++ ) {
-        for( size_t j = 0; j < n-1; j ++ ) {
+        for( size_t j = 0; j + 1 < n; j ++ ) {
             fprintf(file, "%f\t", AA_MATREF(A, m,i,j));
         }
-        fprintf(file, "%f\n", AA_MATREF(A, m, i, n-1) );
+        if( n ) fprintf(file, "%f", AA_MATREF(A, m, i, n-1) );
+        fputc('\n', file);
     }
 }
 
-- 
2.43.0


From b5533975fe7db7583f84347c7cf6459cfa8423cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:26 +0000
Subject: [PATCH 078/146] fix: wavefront numbers lost their exponent and digits
 after the eighteenth

---
 src/wavefront/wf_obj.c | 43 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index 2438538..efb0061 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -120,24 +120,37 @@ aa_rx_wf_parse_float( const char *str )
     /* skip blanks */
     while( *str &&  isblank(*str) ) str++;
 
-    char *e, *g;
-    double r = (double)strtol( str, &e, 10 );
-    long f = ('.' == *e)
-        ? strtol( e+1, &g, 10 )
-        : 0;
-
-    if( f ) {
-        long k = g - e - 1;
-        if( k ) {
-            double x = (double)f;
-            while(k--) x/=10;
-            if( r < 0 || ('-' == *str) )
-                r -= x;
-            else
-                r += x;
+    int neg = ('-' == *str);
+    if( neg ) str++;
+
+    /* mantissa digits, and the power of ten of the last of them */
+    double r = 0;
+    long p = 0;
+    while( isdigit((unsigned char)*str) ) {
+        r = 10*r + (*str - '0');
+        str++;
+    }
+    if( '.' == *str ) {
+        str++;
+        while( isdigit((unsigned char)*str) ) {
+            r = 10*r + (*str - '0');
+            p--;
+            str++;
         }
     }
 
+    /* exponent */
+    if( 'e' == *str || 'd' == *str || 's' == *str ) {
+        p += strtol( str+1, NULL, 10 );
+    }
+
+    if( p < 0 )
+        r /= pow(10, (double)-p);
+    else if( p > 0 )
+        r *= pow(10, (double)p);
+
+    if( neg ) r = -r;
+
     /* printf("t: %s\n", str); */
     /* printf("r: %f\n", r); */
     /* printf("a: %f\n", atof(str)); */
-- 
2.43.0


From 3b6ea7904b938704d0a44e13279407adab18fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:26 +0000
Subject: [PATCH 079/146] fix: material file accessors read past the last file

---
 src/wavefront/wf_obj.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index efb0061..344ddbe 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -252,7 +252,7 @@ aa_rx_wf_obj_mtl_count( struct aa_rx_wf_obj *obj )
 AA_API const char *
 aa_rx_wf_obj_get_mtl_filename( struct aa_rx_wf_obj *obj, size_t i )
 {
-    if( i <= obj->mtl_files.size ) {
+    if( i < obj->mtl_files.size ) {
         return obj->mtl_files.data[i];
     } else {
         return NULL;
@@ -262,7 +262,7 @@ aa_rx_wf_obj_get_mtl_filename( struct aa_rx_wf_obj *obj, size_t i )
 AA_API const struct aa_rx_wf_mtl *
 aa_rx_wf_obj_get_mtl( struct aa_rx_wf_obj *obj, size_t i )
 {
-    if( i <= obj->mtl.size ) {
+    if( i < obj->mtl.size ) {
         return obj->mtl.data[i];
     } else {
         return NULL;
-- 
2.43.0


From 171f22f2f0bfa9601179f3173bd8c1e0be8e4323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:26 +0000
Subject: [PATCH 080/146] fix: texture vertices of wavefront objects leaked

---
 src/wavefront/wf_obj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wavefront/wf_obj.c b/src/wavefront/wf_obj.c
index 344ddbe..601ef6e 100644
--- a/src/wavefront/wf_obj.c
+++ b/src/wavefront/wf_obj.c
@@ -163,6 +163,7 @@ aa_rx_wf_obj_destroy( struct aa_rx_wf_obj * obj)
 {
     free( obj->vertex.data );
     free( obj->normal.data );
+    free( obj->texture_vertex.data );
     free( obj->vertex_indices.data );
     free( obj->normal_indices.data );
     free( obj->uv_indices.data );
-- 
2.43.0


From 6d52e5fed5477b0fed2b80437f96a9426d4c960c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:26 +0000
Subject: [PATCH 081/146] fix: material properties before the first material
 dereferenced NULL

---
 src/wavefront/mtl.l | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index 30f22ce..4d1fec5 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -60,6 +60,14 @@
 #include "amino.h"
 #include "wavefront_internal.h"
 
+/* Properties must follow the material they describe */
+#define WF_MTL_CHECK                                                    \
+    if( NULL == WF_MTL_CURRENT ) {                                      \
+        fprintf(stderr, "Property without material (%s:%d)\n",          \
+                yyextra->mtl->filename, yylineno);                      \
+        return -1;                                                      \
+    }
+
 %}
 
 %x EOL
@@ -119,6 +127,7 @@ START {MAYBE_BLANKS}
 
     /* Specular Weight */
 {START}"Ns"{BLANKS} {
+    WF_MTL_CHECK;
     BEGIN(NS);
 }
 
@@ -129,6 +138,7 @@ START {MAYBE_BLANKS}
 }
     /* Index of Refraction */
 {START}"Ni"{BLANKS} {
+    WF_MTL_CHECK;
     BEGIN(NI);
 }
 
@@ -157,6 +167,7 @@ START {MAYBE_BLANKS}
 
     /* Ambient */
 {START}"Ka"{BLANKS} {
+    WF_MTL_CHECK;
     yyextra->v = WF_MTL_CURRENT->ambient;
     BEGIN(KA);
     yy_push_state(V0, yyscanner );
@@ -170,6 +181,7 @@ START {MAYBE_BLANKS}
 
     /* Diffuse */
 {START}"Kd"{BLANKS} {
+    WF_MTL_CHECK;
     yyextra->v = WF_MTL_CURRENT->diffuse;
     BEGIN(KD);
     yy_push_state(V0, yyscanner );
@@ -182,6 +194,7 @@ START {MAYBE_BLANKS}
 
     /* Specular */
 {START}"Ks"{BLANKS} {
+    WF_MTL_CHECK;
     yyextra->v = WF_MTL_CURRENT->specular;
     BEGIN(KS);
     yy_push_state(V0, yyscanner );
@@ -195,6 +208,7 @@ START {MAYBE_BLANKS}
 
     /* Emission */
 {START}"Ke"{BLANKS} {
+    WF_MTL_CHECK;
     yyextra->v = WF_MTL_CURRENT->emission;
     BEGIN(KE);
     yy_push_state(V0, yyscanner );
@@ -209,6 +223,7 @@ START {MAYBE_BLANKS}
 
     /* alpha */
 {START}"d"{BLANKS} {
+    WF_MTL_CHECK;
     BEGIN(D);
 }
 
-- 
2.43.0


From 5461030c14d4de772cee9afc54f9ea9ae8304eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 082/146] fix: incomplete lines of wavefront files were
 accepted as partial elements

---
 src/wavefront/mtl.l       | 9 +++++++++
 src/wavefront/wavefront.l | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index 4d1fec5..cc1953e 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -241,6 +241,15 @@ START {MAYBE_BLANKS}
     /* TODO */
 }
 
+    /* Incomplete line */
+
+<NEWMTL,NS,NI,V0,V1,V2,D>"\n" |
+<NEWMTL,NS,NI,V0,V1,V2,D><<EOF>> {
+    fprintf(stderr, "Incomplete line (%s:%d)\n",
+            yyextra->mtl->filename, yylineno);
+    return -1;
+}
+
     /* Error */
     /* This rule needs to be last */
 
diff --git a/src/wavefront/wavefront.l b/src/wavefront/wavefront.l
index 0f62478..0c39a0a 100644
--- a/src/wavefront/wavefront.l
+++ b/src/wavefront/wavefront.l
@@ -310,6 +310,15 @@ START {MAYBE_BLANKS}
 "l"{BLANKS}.* {
 }
 
+    /* Incomplete line */
+
+<MTLLIB,USEMTL,OBJECT,V0,V1,V2,VT0,VT1,VN0,VN1,VN2,FV0,FT0,FN0,FV1,FT1,FN1,FV2,FT2,FN2>"\n" |
+<MTLLIB,USEMTL,OBJECT,V0,V1,V2,VT0,VT1,VN0,VN1,VN2,FV0,FT0,FN0,FV1,FT1,FN1,FV2,FT2,FN2><<EOF>> {
+    fprintf(stderr, "Incomplete line (%s:%d)\n",
+            aa_rx_wf_obj_get_filename(yyextra->wf_obj), yylineno);
+    return -1;
+}
+
     /* Error */
     /* This rule needs to be last */
 
-- 
2.43.0


From ce3a9673ea606dab6e7653c4e082a3e2fdda9629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:13 +0000
Subject: [PATCH 083/146] fix: a colour on the last, unterminated line of a
 material file was dropped

---
 src/wavefront/mtl.l | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index cc1953e..c62ce52 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -169,12 +169,12 @@ START {MAYBE_BLANKS}
 {START}"Ka"{BLANKS} {
     WF_MTL_CHECK;
     yyextra->v = WF_MTL_CURRENT->ambient;
+    WF_MTL_CURRENT->has_ambient = 1;
     BEGIN(KA);
     yy_push_state(V0, yyscanner );
 }
 
 <KA>{END} {
-    WF_MTL_CURRENT->has_ambient = 1;
     BEGIN(INITIAL);
 }
 
@@ -183,12 +183,12 @@ START {MAYBE_BLANKS}
 {START}"Kd"{BLANKS} {
     WF_MTL_CHECK;
     yyextra->v = WF_MTL_CURRENT->diffuse;
+    WF_MTL_CURRENT->has_diffuse = 1;
     BEGIN(KD);
     yy_push_state(V0, yyscanner );
 }
 
 <KD>{END} {
-    WF_MTL_CURRENT->has_diffuse = 1;
     BEGIN(INITIAL);
 }
 
@@ -196,12 +196,12 @@ START {MAYBE_BLANKS}
 {START}"Ks"{BLANKS} {
     WF_MTL_CHECK;
     yyextra->v = WF_MTL_CURRENT->specular;
+    WF_MTL_CURRENT->has_specular = 1;
     BEGIN(KS);
     yy_push_state(V0, yyscanner );
 }
 
 <KS>{END} {
-    WF_MTL_CURRENT->has_specular = 1;
     BEGIN(INITIAL);
 }
 
@@ -210,13 +210,13 @@ START {MAYBE_BLANKS}
 {START}"Ke"{BLANKS} {
     WF_MTL_CHECK;
     yyextra->v = WF_MTL_CURRENT->emission;
+    WF_MTL_CURRENT->has_emission = 1;
     BEGIN(KE);
     yy_push_state(V0, yyscanner );
 
 }
 
 <KE>{END} {
-    WF_MTL_CURRENT->has_emission = 1;
     BEGIN(INITIAL);
 }
 
-- 
2.43.0


From 5636d1c9bfc9958dc31e264485162f3d86bb422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:58 +0000
Subject: [PATCH 084/146] fix: update the bounding boxes of collision objects
 with their transforms

---
 src/rx/amino_fcl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 93da184..5b92250 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -399,6 +399,8 @@ s_update_tf( const struct aa_rx_cl *cl,
         } else {
             obj->setTransform( amino::fcl::qutr2fcltf(TF_obj) );
         }
+        // the broad phase uses the bounding box
+        obj->computeAABB();
     }
     cl->manager->update();
 
-- 
2.43.0


From 5b54a759ca0499874f7faa4d745653a1bf1bec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 085/146] fix: scale the offset of cylinders in collision
 checks

---
 src/rx/amino_fcl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index 5b92250..e912139 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -392,7 +392,8 @@ s_update_tf( const struct aa_rx_cl *cl,
          */
         if( AA_RX_CYLINDER == shape_type ) {
             struct aa_rx_shape_cylinder *shape = (struct aa_rx_shape_cylinder *)  shape_;
-            double E[7] = {0,0,0,1, 0,0, shape->height/2};
+            double scale = aa_rx_geom_opt_get_scale(aa_rx_geom_get_opt(geom));
+            double E[7] = {0,0,0,1, 0,0, scale*shape->height/2};
             double E1[7];
             aa_tf_qutr_mul(TF_obj, E, E1);
             obj->setTransform(amino::fcl::qutr2fcltf(E1));
-- 
2.43.0


From 8658b40f8989ea2ae591f35393a1a134baed3269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 086/146] fix: filling a collision set keeps the pairs it
 already has

---
 src/rx/amino_fcl.cpp     | 1 +
 src/rx/collision_set.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index e912139..b1327f9 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -300,6 +300,7 @@ AA_API void
 aa_rx_cl_allow_set( struct aa_rx_cl *cl,
                     const struct aa_rx_cl_set *set )
 {
+    aa_rx_cl_set_clear( cl->allowed );
     aa_rx_cl_set_fill( cl->allowed, set );
 }
 
diff --git a/src/rx/collision_set.cpp b/src/rx/collision_set.cpp
index b34f58b..4886f25 100644
--- a/src/rx/collision_set.cpp
+++ b/src/rx/collision_set.cpp
@@ -102,8 +102,10 @@ AA_API void
 aa_rx_cl_set_fill( struct aa_rx_cl_set *dst,
                    const struct aa_rx_cl_set *src )
 {
-    dst->v->assign( src->v->begin(),
-                    src->v->end() );
+    assert( dst->n == src->n );
+    for( size_t i = 0; i < src->v->size(); i ++ ) {
+        if( (*src->v)[i] ) (*dst->v)[i] = true;
+    }
 }
 
 AA_API int
-- 
2.43.0


From 5089e04c2304a725d769d333b97b2eeebf951e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 087/146] fix: green and blue of geometry options were
 exchanged in the getters

---
 include/amino/rx/scene_geom.h |  2 +-
 python/amino/scenegraph.py    | 12 ++++++------
 src/rx/geom_opt.c             |  8 ++++----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/amino/rx/scene_geom.h b/include/amino/rx/scene_geom.h
index 182186f..30bbeb4 100644
--- a/include/amino/rx/scene_geom.h
+++ b/include/amino/rx/scene_geom.h
@@ -136,7 +136,7 @@ aa_rx_geom_opt_get_specular_green ( const struct aa_rx_geom_opt *opt );
 AA_API void
 aa_rx_geom_opt_set_color3 (
     struct aa_rx_geom_opt *opt,
-    double red, double blue, double green );
+    double red, double green, double blue );
 
 /**
  * Set alpha (transparency) option
diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 7b850ce..905810a 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -128,17 +128,17 @@ class GeomOpt:
 
     @property
     def color(self):
-        """Three floats, between 0 and 1, for color in red-blue-green order."""
+        """Three floats, between 0 and 1, for color in red-green-blue order."""
         return self._get_val3(libamino.aa_rx_geom_opt_get_color_red,
-                              libamino.aa_rx_geom_opt_get_color_blue,
-                              libamino.aa_rx_geom_opt_get_color_green)
+                              libamino.aa_rx_geom_opt_get_color_green,
+                              libamino.aa_rx_geom_opt_get_color_blue)
 
     @property
     def specular(self):
-        """Three floats, between 0 and 1, for color in red-blue-green order."""
+        """Three floats, between 0 and 1, for color in red-green-blue order."""
         return self._get_val3(libamino.aa_rx_geom_opt_get_specular_red,
-                              libamino.aa_rx_geom_opt_get_specular_blue,
-                              libamino.aa_rx_geom_opt_get_specular_green)
+                              libamino.aa_rx_geom_opt_get_specular_green,
+                              libamino.aa_rx_geom_opt_get_specular_blue)
 
     @visual.setter
     def visual(self, value):
diff --git a/src/rx/geom_opt.c b/src/rx/geom_opt.c
index 57fa5eb..ec81e00 100644
--- a/src/rx/geom_opt.c
+++ b/src/rx/geom_opt.c
@@ -107,12 +107,12 @@ aa_rx_geom_opt_get_color_red ( const struct aa_rx_geom_opt *opt )
 AA_API double
 aa_rx_geom_opt_get_color_blue ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->color[1];
+    return opt->color[2];
 }
 AA_API double
 aa_rx_geom_opt_get_color_green ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->color[2];
+    return opt->color[1];
 }
 AA_API double
 aa_rx_geom_opt_get_alpha ( const struct aa_rx_geom_opt *opt )
@@ -128,12 +128,12 @@ aa_rx_geom_opt_get_specular_red ( const struct aa_rx_geom_opt *opt )
 AA_API double
 aa_rx_geom_opt_get_specular_blue ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->specular[1];
+    return opt->specular[2];
 }
 AA_API double
 aa_rx_geom_opt_get_specular_green ( const struct aa_rx_geom_opt *opt )
 {
-    return opt->specular[2];
+    return opt->specular[1];
 }
 
 AA_API void
-- 
2.43.0


From 5bff2df5f0b0f5ef7d547e0ffb516baa7e26aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 088/146] fix: set the result types of the geometry option and
 collision getters in Python

---
 python/amino/collision.py  |  4 ++--
 python/amino/scenegraph.py | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/amino/collision.py b/python/amino/collision.py
index 4f594fd..e293db1 100644
--- a/python/amino/collision.py
+++ b/python/amino/collision.py
@@ -106,7 +106,7 @@ LIBAMINOCL.aa_rx_cl_set_destroy.argtypes = [ctypes.POINTER(RxClSet)]
 LIBAMINOCL.aa_rx_cl_set_get.argtypes = [
     ctypes.POINTER(RxClSet), ctypes.c_int, ctypes.c_int
 ]
-LIBAMINOCL.aa_rx_cl_set_get.restypes = ctypes.c_int
+LIBAMINOCL.aa_rx_cl_set_get.restype = ctypes.c_int
 
 LIBAMINOCL.aa_rx_cl_set_set.argtypes = [
     ctypes.POINTER(RxClSet), ctypes.c_int, ctypes.c_int, ctypes.c_int
@@ -204,7 +204,7 @@ LIBAMINOCL.aa_rx_cl_check.argtypes = [
     ctypes.POINTER(ctypes.c_double), ctypes.c_size_t,
     ctypes.POINTER(RxClSet)
 ]
-LIBAMINOCL.aa_rx_cl_check.restypes = ctypes.c_int
+LIBAMINOCL.aa_rx_cl_check.restype = ctypes.c_int
 
 
 class RxClDist(ctypes.Structure):
diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 905810a..de8933c 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -272,28 +272,28 @@ libamino.aa_rx_geom_opt_set_scale.argtypes = [
 ]
 
 libamino.aa_rx_geom_opt_get_scale.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_scale.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_scale.restype = ctypes.c_double
 
 libamino.aa_rx_geom_opt_get_alpha.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_alpha.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_alpha.restype = ctypes.c_double
 
 libamino.aa_rx_geom_opt_get_color_red.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_color_red.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_color_red.restype = ctypes.c_double
 libamino.aa_rx_geom_opt_get_color_blue.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_color_blue.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_color_blue.restype = ctypes.c_double
 libamino.aa_rx_geom_opt_get_color_green.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_color_green.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_color_green.restype = ctypes.c_double
 
 libamino.aa_rx_geom_opt_get_specular_red.argtypes = [ctypes.POINTER(RxGeomOpt)]
-libamino.aa_rx_geom_opt_get_specular_red.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_specular_red.restype = ctypes.c_double
 libamino.aa_rx_geom_opt_get_specular_blue.argtypes = [
     ctypes.POINTER(RxGeomOpt)
 ]
-libamino.aa_rx_geom_opt_get_specular_blue.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_specular_blue.restype = ctypes.c_double
 libamino.aa_rx_geom_opt_get_specular_green.argtypes = [
     ctypes.POINTER(RxGeomOpt)
 ]
-libamino.aa_rx_geom_opt_get_specular_green.restypes = ctypes.c_double
+libamino.aa_rx_geom_opt_get_specular_green.restype = ctypes.c_double
 
 libamino.aa_rx_geom_box.argtypes = [
     ctypes.POINTER(RxGeomOpt), ctypes.POINTER(Vec3)
-- 
2.43.0


From 67409916e91ee2f263e64bc269b7f20e521563ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 089/146] fix: setting the texture of a mesh leaked its texture
 coordinates

---
 src/rx/scene_geom.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/scene_geom.c b/src/rx/scene_geom.c
index f1cc395..eab12c4 100644
--- a/src/rx/scene_geom.c
+++ b/src/rx/scene_geom.c
@@ -430,8 +430,8 @@ void aa_rx_mesh_set_texture (
     for( size_t i = 0; i < 4; i ++ ) rgba[i] = (uint8_t)(opt->color[i] * 255);
     aa_rx_mesh_set_rgba( mesh, 1, 1, rgba, 1 );
 
-    // indices
-    /* if( mesh->uv_data ) free(mesh->uv_data); */
+    // texture coordinates
+    if( mesh->uv_data ) free(mesh->uv_data);
     mesh->uv = mesh->uv_data = AA_NEW0_AR(float, 2*mesh->n_vertices);
 }
 
-- 
2.43.0


From af45124ade35be4abab7f7db7976cb153c222127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:26 +0000
Subject: [PATCH 090/146] fix: boxes of octree voxels have the size of their
 own voxel

---
 src/rx/sg_octree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/sg_octree.cpp b/src/rx/sg_octree.cpp
index 9abf481..c1c2e2b 100644
--- a/src/rx/sg_octree.cpp
+++ b/src/rx/sg_octree.cpp
@@ -67,8 +67,8 @@ AA_API void aa_rx_sg_add_octree(
                                      aa_tf_quat_ident, v);
 
             if ( opt ){
-                double s_len = cbrt(it.getSize());
-                static const double dimension[3] = {s_len, s_len, s_len};
+                double s_len = it.getSize();
+                const double dimension[3] = {s_len, s_len, s_len};
                 struct aa_rx_geom* geom = aa_rx_geom_box(opt, dimension);
 
                 aa_rx_geom_attach(scene_graph, sub_name, geom);
-- 
2.43.0


From 7cb8d5e8e3524544599d8549c28ed244f1c3cda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:56 +0000
Subject: [PATCH 091/146] fix: octree geometries dereferenced a missing base
 object

---
 include/amino/rx/octree_geom.hpp       |  5 -----
 include/amino/rx/scene_geom_internal.h |  5 +++++
 src/octree_gl.cpp                      |  4 ++--
 src/rx/octree_geom.cpp                 | 10 +++++-----
 src/rx/scene_geom.c                    | 11 +++++++++++
 5 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/amino/rx/octree_geom.hpp b/include/amino/rx/octree_geom.hpp
index 396e8c9..252bdd6 100644
--- a/include/amino/rx/octree_geom.hpp
+++ b/include/amino/rx/octree_geom.hpp
@@ -7,11 +7,6 @@
 #include <octomap/OcTreeIterator.hxx>
 #include <octomap/AbstractOcTree.h>
 
-struct aa_rx_geom_octree {
-    struct aa_rx_geom *base;
-    struct aa_rx_octree *shape;
-};
-
 struct aa_rx_octree {
   octomap::OcTree* otree;
 };
diff --git a/include/amino/rx/scene_geom_internal.h b/include/amino/rx/scene_geom_internal.h
index 2d41c0b..c4ab965 100644
--- a/include/amino/rx/scene_geom_internal.h
+++ b/include/amino/rx/scene_geom_internal.h
@@ -112,6 +112,11 @@ struct aa_rx_geom_mesh {
     struct aa_rx_mesh *shape;
 };
 
+struct aa_rx_geom_octree {
+    struct aa_rx_geom base;
+    struct aa_rx_octree *shape;
+};
+
 
 
 struct aa_rx_mesh {
diff --git a/src/octree_gl.cpp b/src/octree_gl.cpp
index c952c69..a1b2400 100644
--- a/src/octree_gl.cpp
+++ b/src/octree_gl.cpp
@@ -177,9 +177,9 @@ void init_octree ( struct aa_rx_geom_octree *geom )
     fprintf(stderr,"set indicies\n");
 
 
-    aa_rx_mesh_set_texture(mesh, &geom->base->opt);
+    aa_rx_mesh_set_texture(mesh, &geom->base.opt);
     fprintf(stderr,"set texture\n");
-    tri_mesh( geom->base, mesh );
+    tri_mesh( &geom->base, mesh );
     aa_rx_mesh_destroy(mesh);
 
 }
diff --git a/src/rx/octree_geom.cpp b/src/rx/octree_geom.cpp
index 5cc871b..35d4ef2 100644
--- a/src/rx/octree_geom.cpp
+++ b/src/rx/octree_geom.cpp
@@ -52,10 +52,10 @@
 
 #define ALLOC_GEOM(TYPE, var, type_value, geom_opt )            \
     TYPE *var = AA_NEW0(TYPE);                                  \
-    AA_MEM_CPY(&g->base->opt, geom_opt, 1);                      \
-    var->base->type = type_value;                                \
-    var->base->gl_buffers = NULL;                                \
-    var->base->refcount = 1;
+    AA_MEM_CPY(&g->base.opt, geom_opt, 1);                      \
+    var->base.type = type_value;                                \
+    var->base.gl_buffers = NULL;                                \
+    var->base.refcount = 1;
 
 
 struct aa_rx_geom *
@@ -66,7 +66,7 @@ aa_rx_geom_octree (
   ALLOC_GEOM( struct aa_rx_geom_octree, g,
               AA_RX_OCTREE, opt);
   g->shape = octree;
-  return g->base;
+  return &g->base;
 }
 
 AA_API struct aa_rx_octree* aa_rx_geom_read_octree_from_file( const char* file)
diff --git a/src/rx/scene_geom.c b/src/rx/scene_geom.c
index eab12c4..52ffc35 100644
--- a/src/rx/scene_geom.c
+++ b/src/rx/scene_geom.c
@@ -229,6 +229,13 @@ aa_rx_geom_modify_opt( struct aa_rx_geom *src, struct aa_rx_geom_opt *opt )
                                    shape->major_radius, shape->minor_radius );
     }
         break;
+    case AA_RX_OCTREE: {
+        ALLOC_GEOM( struct aa_rx_geom_octree, g,
+                    AA_RX_OCTREE, opt );
+        g->shape = (struct aa_rx_octree *)vshape;
+        result = &g->base;
+    }
+        break;
     }
 
     if( NULL == result ) {
@@ -296,6 +303,9 @@ aa_rx_geom_shape ( const struct aa_rx_geom *g,
     case AA_RX_TORUS:
         shape = &((struct aa_rx_geom_torus*)g)->shape;
         break;
+    case AA_RX_OCTREE:
+        shape = ((struct aa_rx_geom_octree*)g)->shape;
+        break;
     }
     if( shape_type ) *shape_type = g->type;
     return shape;
@@ -447,6 +457,7 @@ aa_rx_geom_shape_str( enum aa_rx_geom_shape shape )
     case AA_RX_CONE: return "cone";
     case AA_RX_GRID: return "grid";
     case AA_RX_TORUS: return "torus";
+    case AA_RX_OCTREE: return "octree";
     }
     return "?";
 }
-- 
2.43.0


From 897fcd026c968b728963fb202275b36952615ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:27 +0000
Subject: [PATCH 092/146] fix: rendered octree voxels have their own size

---
 src/octree_gl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/octree_gl.cpp b/src/octree_gl.cpp
index a1b2400..9b4187f 100644
--- a/src/octree_gl.cpp
+++ b/src/octree_gl.cpp
@@ -153,7 +153,7 @@ void init_octree ( struct aa_rx_geom_octree *geom )
     {
         if (it->getOccupancy() > 0.5){
             fprintf(stderr,"adding value %ld out of %ld\n", x, num_nodes);
-            GLfloat d = (GLfloat) cbrt(it.getSize());
+            GLfloat d = (GLfloat) it.getSize();
             GLfloat c[3] = {(GLfloat) it.getX(),(GLfloat) it.getY(),(GLfloat) it.getZ()};
 
             size_t idx = x*num_val/2;
-- 
2.43.0


From 5987f43133d7e21340c1e05a9243db78e4a9a209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:08 +0000
Subject: [PATCH 093/146] fix: declare aa_stat_mahalanobis with C linkage

The declaration lacked AA_API, so C++ programs could not link with it.
---
 include/amino/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/math.h b/include/amino/math.h
index 1b3c03d..3f7c5a9 100644
--- a/include/amino/math.h
+++ b/include/amino/math.h
@@ -289,7 +289,7 @@ AA_API void aa_stat_vmean_cov( size_t m, size_t n, const double *X,
 
 
 /** Mahalanobis distance. */
-double aa_stat_mahalanobis( size_t m, const double *x,
+AA_API double aa_stat_mahalanobis( size_t m, const double *x,
                             const double *mu, const double *E_inv);
 
 /**********/
-- 
2.43.0


From bb69137314528673cad13e9920f6055913d3b986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 094/146] fix: integer modulo overflowed for large divisors

AA_MODULO computed ((a % b) + b) % b, whose sum overflows when a % b and b
are large and of equal sign.
---
 include/amino/math.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/amino/math.h b/include/amino/math.h
index 3f7c5a9..02a38b2 100644
--- a/include/amino/math.h
+++ b/include/amino/math.h
@@ -125,7 +125,11 @@ static inline double aa_fsq( double a ) {
 }
 
 /// Fortran modulo, Ada mod
-#define AA_MODULO(a,b) (((a) % (b)) + (b)) % (b);
+#define AA_MODULO(a,b) \
+    ({ const __typeof__(b) aa_$_mod_b = (b); \
+       const __typeof__((a) % (b)) aa_$_mod_r = (a) % aa_$_mod_b; \
+       (aa_$_mod_r != 0 && ((aa_$_mod_r < 0) != (aa_$_mod_b < 0))) \
+           ? aa_$_mod_r + aa_$_mod_b : aa_$_mod_r; })
 
 /// Fortran modulo, Ada mod
 static inline int aa_imodulo( int a, int b ) {
-- 
2.43.0


From 09fc5ba2b2bf49333bccbbf308cfa86bce2b5851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 095/146] fix: time normalization overflowed for the most
 negative nanoseconds

---
 include/amino/time.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/time.h b/include/amino/time.h
index 3a59e28..d2595b1 100644
--- a/include/amino/time.h
+++ b/include/amino/time.h
@@ -78,7 +78,7 @@ aa_tm_make( time_t sec, long nsec ) {
 static inline struct timespec
 aa_tm_make_norm( time_t sec, long nsec ) {
     long nsp = aa_lmodulo( nsec, AA_IBILLION );
-    return aa_tm_make( sec + (nsec - nsp)/AA_IBILLION, nsp );
+    return aa_tm_make( sec + nsec/AA_IBILLION - (nsec % AA_IBILLION < 0), nsp );
 }
 
 /// add two times: a + b
-- 
2.43.0


From 48dce63b14d1b14eee52baf2e93c248e4e9edfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 096/146] fix: circular standard deviation was too large by a
 factor of sqrt(2)

The definition is sqrt(-2 ln R) with R the mean resultant length; the code
used the square of R.
---
 src/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.c b/src/math.c
index e4f6df7..19bdd0c 100644
--- a/src/math.c
+++ b/src/math.c
@@ -131,7 +131,7 @@ AA_API double aa_stat_circ_std( size_t n, const double *x) {
     }
     as = as / (double)n;
     ac = ac / (double)n;
-    double r = (as*as + ac*ac);
+    double r = sqrt(as*as + ac*ac);
     return sqrt( -2 * log(r) );
 }
 
@@ -197,7 +197,7 @@ AA_API size_t aa_stat_excluded_circ_mean_std( size_t n, const double *x,
         as /= (double)j;
         ac /= (double)j;
         mu = atan2(as,ac);
-        double r = (as*as + ac*ac);
+        double r = sqrt(as*as + ac*ac);
         sigma = sqrt( -2 * log(r) );
     } while(jj != j && ++iter < max_iterations ) ;
     *pmu = mu;
-- 
2.43.0


From 093985059f57a1d7c327cc16321289b480b7d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 097/146] fix: vector validation accepted values that are not
 numbers

---
 src/validate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.c b/src/validate.c
index b3a4e82..2a4d7eb 100644
--- a/src/validate.c
+++ b/src/validate.c
@@ -53,10 +53,10 @@ AA_API int aa_valid_v( double *values, size_t n, double *min, double *max,
     }
     if( min || max ) {
         for( int i = 0; i < (int)n; i ++) {
-            if( min && min[i] > values[i] ) {
+            if( min && !(min[i] <= values[i]) ) {
                 return i+1;
             }
-            if( max && max[i] < values[i] ) {
+            if( max && !(max[i] >= values[i]) ) {
                 return i+1;
             }
         }
-- 
2.43.0


From c0d273ac47f347827e74dc47be487cfb7e7f83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:44 +0000
Subject: [PATCH 098/146] fix: planar inverse kinematics failed for targets on
 the x axis

The formula divided by the second coordinate of the target, so every reachable
target with a zero second coordinate was reported as unreachable.
---
 src/kin.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/kin.c b/src/kin.c
index 8b61f70..4e61d14 100644
--- a/src/kin.c
+++ b/src/kin.c
@@ -52,13 +52,20 @@ AA_API int aa_kin_planar2_ik_theta2( const double l[2],
     // help out the optimizer
     const double x1=x[0], x2=x[1], l1=l[0], l2=l[1];
 
-    theta_a[0] = atan2((x2*x2*x2*x2+x2*x2*x1*x1+x1*sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2))-l2*l2*x2*x2+x2*x2*l1*l1)/(x2*x2+x1*x1)/x2/l1, (x2*x2*x1+x1*x1*x1-l2*l2*x1+x1*l1*l1-sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2)))/(x2*x2+x1*x1)/l1);
+    // squared distance of the target
+    const double d = x1*x1 + x2*x2;
+    // 2*l_i * (distance) * cos(angle between link i and the target direction)
+    const double k1 = d + l1*l1 - l2*l2;
+    const double k2 = d + l2*l2 - l1*l1;
+    // 2*l_i * (distance) * sin(angle between link i and the target direction)
+    const double q2 = -(d - (l1-l2)*(l1-l2)) * (d - (l1+l2)*(l1+l2));
+    const double q = (x2 < 0 ? -1 : 1) * (q2 > 0 ? sqrt(q2) : 0);
 
-    theta_b[0] = atan2((x2*x2*x2*x2+x2*x2*x1*x1-x1*sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2))-l2*l2*x2*x2+x2*x2*l1*l1)/(x2*x2+x1*x1)/x2/l1, (x2*x2*x1+x1*x1*x1-l2*l2*x1+x1*l1*l1+sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2)))/(x2*x2+x1*x1)/l1);
+    theta_a[0] = atan2( (x2*k1 + x1*q)/l1, (x1*k1 - x2*q)/l1 );
+    theta_b[0] = atan2( (x2*k1 - x1*q)/l1, (x1*k1 + x2*q)/l1 );
 
-      theta_a[1] = atan2((x2*x2*x1*x1-x1*sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2))+l2*l2*x2*x2+x2*x2*x2*x2-x2*x2*l1*l1)/(x2*x2+x1*x1)/l2/x2, (l2*l2*x1-x1*l1*l1+x2*x2*x1+x1*x1*x1+sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2)))/(x2*x2+x1*x1)/l2);
-
-      theta_b[1] = atan2((x2*x2*x1*x1+x1*sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2))+l2*l2*x2*x2+x2*x2*x2*x2-x2*x2*l1*l1)/(x2*x2+x1*x1)/l2/x2, (l2*l2*x1-x1*l1*l1+x2*x2*x1+x1*x1*x1-sqrt(-x2*x2*(x2*x2+x1*x1-l1*l1+2.0*l2*l1-l2*l2)*(x2*x2+x1*x1-l1*l1-2.0*l2*l1-l2*l2)))/(x2*x2+x1*x1)/l2);
+    theta_a[1] = atan2( (x2*k2 - x1*q)/l2, (x1*k2 + x2*q)/l2 );
+    theta_b[1] = atan2( (x2*k2 + x1*q)/l2, (x1*k2 - x2*q)/l2 );
 
       return
           !( aa_feq( l1*cos(theta_a[0]) + l2*cos(theta_a[1]), x1, .001 ) &&
-- 
2.43.0


From 1ebed19963cb7c2b74cbe017734de00b58f21b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 099/146] fix: destroying a motion plan sequence leaked its
 elements

---
 src/rx/mp_seq.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/mp_seq.cpp b/src/rx/mp_seq.cpp
index e81d68b..f17938c 100644
--- a/src/rx/mp_seq.cpp
+++ b/src/rx/mp_seq.cpp
@@ -70,6 +70,7 @@ aa_rx_mp_seq_destroy( struct aa_rx_mp_seq * obj)
 {
     for( struct aa_rx_mp_seq_elt *elt : obj->data ) {
         free( elt->path );
+        free( elt );
     }
     delete obj;
 }
-- 
2.43.0


From efe318e7e8eeb9af45d6d000ab88d06b7b4ad0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 100/146] fix: planning used a destroyed workspace goal after a
 joint-space goal replaced it

---
 src/rx/mp/scene_ompl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 6e0acd9..4f9d683 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -165,6 +165,8 @@ aa_rx_mp_set_goal( struct aa_rx_mp *mp,
     mp->validity_checker->allow();
     if( si->isValid( state.get() ) ) {
         mp->problem_definition->setGoalState(state);
+        /* Any previous workspace goal is gone */
+        mp->lazy_samples = NULL;
         return AA_RX_OK;
     } else {
         return AA_RX_INVALID_STATE;
-- 
2.43.0


From 803a97d1373e178cc2935abd9926a4e91923c6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 101/146] fix: planning again with a new start or goal returned
 paths of the previous problem

---
 src/rx/mp/scene_ompl.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 4f9d683..529e48d 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -110,13 +110,13 @@ aa_rx_mp_set_start( struct aa_rx_mp *mp,
     /* Assume the start state is valid */
     aa_rx_mp_allow_config(mp, n_all, q_all);
 
-    // FIXME: Seems that there are problems if this is called repeatedly
     amino::sgSpaceInformation::Ptr &si = mp->space_information;
     amino::sgStateSpace *ss = si->getTypedStateSpace();
 
     /* Add Start State */
     amino::sgSpaceInformation::ScopedStateType state(si);
     ss->extract_state( q_all, state.get() );
+    mp->problem_definition->clearStartStates();
     mp->problem_definition->addStartState(state);
 
 
@@ -222,6 +222,10 @@ aa_rx_mp_plan( struct aa_rx_mp *mp,
         ompl::base::PlannerPtr(new ompl::geometric::RRTConnect(si)) :
         mp->planner;
 
+    /* Forget the results of any previous problem */
+    pdef->clearSolutionPaths();
+    planner->clear();
+
     planner->setProblemDefinition(pdef);
     try {
         if( mp->lazy_samples ) {
-- 
2.43.0


From 647bcd8e7d15944a74edb80fec367bbd8c3167e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 102/146] fix: planning to a workspace goal without a start
 configuration crashed

---
 src/rx/mp/scene_ompl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index 529e48d..a49f08d 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -216,6 +216,11 @@ aa_rx_mp_plan( struct aa_rx_mp *mp,
     *n_path = 0;
     *p_path_all = NULL;
 
+    /* Need somewhere to start from */
+    if( NULL == mp->config_start ) {
+        return AA_RX_NO_SOLUTION | AA_RX_NO_MP;
+    }
+
     ompl::base::ProblemDefinitionPtr &pdef = mp->problem_definition;
 
     ompl::base::PlannerPtr planner = (NULL == mp->planner.get()) ?
-- 
2.43.0


From 281832b0f0123ff6fe9568ca9f5db25feb343ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 103/146] fix: goal validity depended on uninitialized memory
 before a start was set

---
 src/rx/mp/scene_state_validity_checker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_state_validity_checker.cpp b/src/rx/mp/scene_state_validity_checker.cpp
index 1ad7daf..40f02c7 100644
--- a/src/rx/mp/scene_state_validity_checker.cpp
+++ b/src/rx/mp/scene_state_validity_checker.cpp
@@ -52,7 +52,7 @@ namespace amino {
 sgStateValidityChecker::sgStateValidityChecker(sgSpaceInformation *si)
     :
     TypedStateValidityChecker(si),
-    q_all(new double[getTypedStateSpace()->config_count_all()]),
+    q_all(new double[getTypedStateSpace()->config_count_all()]()),
     cl(aa_rx_cl_create(getTypedStateSpace()->scene_graph)),
     collisions(NULL)
 {
-- 
2.43.0


From ed1019fe9d3e29db3fe7a8d1aec66d31c83d5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 104/146] fix: allowing a configuration moved the joints
 outside the plan during collision checks

---
 src/rx/mp/scene_ompl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index a49f08d..b2c8c37 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -109,6 +109,7 @@ aa_rx_mp_set_start( struct aa_rx_mp *mp,
 {
     /* Assume the start state is valid */
     aa_rx_mp_allow_config(mp, n_all, q_all);
+    mp->validity_checker->set_start(n_all, q_all);
 
     amino::sgSpaceInformation::Ptr &si = mp->space_information;
     amino::sgStateSpace *ss = si->getTypedStateSpace();
@@ -134,7 +135,7 @@ aa_rx_mp_allow_config( struct aa_rx_mp *mp,
     amino::sgStateSpace *ss = si->getTypedStateSpace();
     ss->allow_config(q_all);
 
-    mp->validity_checker->set_start(n_all, q_all);
+    mp->validity_checker->allow();
 }
 
 
-- 
2.43.0


From 9c589ef94080982a562fed7e243126c26b92c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 105/146] fix: planner and goal sampling threads shared one
 memory region without locking

---
 include/amino/rx/ompl/scene_state_space.h | 4 +---
 src/rx/mp/scene_state_space.cpp           | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/amino/rx/ompl/scene_state_space.h b/include/amino/rx/ompl/scene_state_space.h
index b3776eb..a0c22e2 100644
--- a/include/amino/rx/ompl/scene_state_space.h
+++ b/include/amino/rx/ompl/scene_state_space.h
@@ -75,7 +75,6 @@ public:
      * Destroy the state space.
      */
     virtual ~sgStateSpace() {
-        aa_mem_region_destroy(&reg);
         aa_rx_cl_set_destroy(allowed);
     }
 
@@ -147,13 +146,12 @@ public:
     double * get_tf_abs( const ompl::base::State *state);
 
     void region_pop( void * ptr) {
-        aa_mem_region_pop(&this->reg, ptr);
+        aa_mem_region_local_pop(ptr);
     }
 
     const aa_rx_sg *scene_graph;
     const aa_rx_sg_sub *sub_scene_graph;
     struct aa_rx_cl_set *allowed;
-    struct aa_mem_region reg;
 };
 
 typedef ::ompl::base::TypedSpaceInformation<amino::sgStateSpace> sgSpaceInformation;
diff --git a/src/rx/mp/scene_state_space.cpp b/src/rx/mp/scene_state_space.cpp
index 0d6596a..020ca1a 100644
--- a/src/rx/mp/scene_state_space.cpp
+++ b/src/rx/mp/scene_state_space.cpp
@@ -56,8 +56,6 @@ sgStateSpace::sgStateSpace( const struct aa_rx_sg_sub *sub_sg ) :
         ompl::base::RealVectorStateSpace((unsigned)aa_rx_sg_sub_config_count(sub_sg)),
         allowed(aa_rx_cl_set_create(scene_graph)) {
 
-        aa_mem_region_init(&reg, 4000);
-
         // TODO: get actual bounds
         size_t n_configs = config_count_subset();
         ompl::base::RealVectorBounds vb( (unsigned int)n_configs );
@@ -110,7 +108,7 @@ double * sgStateSpace::get_tf_abs( const ompl::base::State *state_, const double
 
     // Find TFs
     double TF_rel[7*n_f];
-    double *TF_abs = AA_MEM_REGION_NEW_N(&this->reg, double, 7*n_f);
+    double *TF_abs = AA_MEM_REGION_LOCAL_NEW_N(double, 7*n_f);
     aa_rx_sg_tf( this->scene_graph, n_q, q,
                  n_f,
                  TF_rel, 7,
-- 
2.43.0


From 149ba033b28fc2cba197e17c3b0d44dc951e0dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:44 +0000
Subject: [PATCH 106/146] fix: a workspace goal was destroyed while its
 sampling thread could be running

---
 src/rx/mp/workspace_goal.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/mp/workspace_goal.cpp b/src/rx/mp/workspace_goal.cpp
index 38176af..917d395 100644
--- a/src/rx/mp/workspace_goal.cpp
+++ b/src/rx/mp/workspace_goal.cpp
@@ -139,6 +139,8 @@ sgWorkspaceGoal::sgWorkspaceGoal (const sgSpaceInformation::Ptr &si,
 
 sgWorkspaceGoal::~sgWorkspaceGoal ()
 {
+    /* The sampling thread uses the members released below */
+    this->stopSampling();
     typed_si->freeState(this->seed);
     aa_rx_ik_parm_destroy(this->ko);
     aa_rx_ik_cx_destroy(this->ik_cx);
-- 
2.43.0


From 30bcd78e4d857cd842ffca4fd823827855252c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:04 +0000
Subject: [PATCH 107/146] fix: joint-space goals outside the position limits
 were accepted and planned to

---
 src/rx/mp/scene_ompl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/mp/scene_ompl.cpp b/src/rx/mp/scene_ompl.cpp
index b2c8c37..7fda30c 100644
--- a/src/rx/mp/scene_ompl.cpp
+++ b/src/rx/mp/scene_ompl.cpp
@@ -164,7 +164,7 @@ aa_rx_mp_set_goal( struct aa_rx_mp *mp,
     ss->copy_state( q_subset, state.get() );
 
     mp->validity_checker->allow();
-    if( si->isValid( state.get() ) ) {
+    if( si->satisfiesBounds( state.get() ) && si->isValid( state.get() ) ) {
         mp->problem_definition->setGoalState(state);
         /* Any previous workspace goal is gone */
         mp->lazy_samples = NULL;
-- 
2.43.0


From e03cbd4cea6a6baaafba5ca0f997daa3ca25dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 108/146] fix: DVec::init from an iterator range could not be
 instantiated

---
 include/amino/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index 0bbdbb6..8d18a8d 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -428,7 +428,7 @@ public:
     template <typename A, typename X>
     static DVec init(A a, const X &first, const X &last) {
         DVec v = DVec::alloc(a, last - first);
-        DVec::assign(v, first, last);
+        DVec::assign(&v, first, last);
         return v;
     }
 
-- 
2.43.0


From 38cf2ba8be9c59833d557487de090d45795f5a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 109/146] fix: DVec::slice used the end index as the step

---
 include/amino/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index 8d18a8d..c012e53 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -452,7 +452,7 @@ public:
     // Slicing
     DVec slice(size_type start, size_type stop, size_type step = 1) {
         struct aa_dvec tmp;
-        aa_dvec_slice(this, start, stop, stop, &tmp);
+        aa_dvec_slice(this, start, stop, step, &tmp);
         return DVec(tmp);
     }
 
-- 
2.43.0


From f5e62a7d65fa348bb5badae1734b6e01ce238f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 110/146] fix: a DVec view of constant data ignored the
 increment

---
 include/amino/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/mat.hpp b/include/amino/mat.hpp
index c012e53..c353c0d 100644
--- a/include/amino/mat.hpp
+++ b/include/amino/mat.hpp
@@ -438,7 +438,7 @@ public:
     }
 
     static const DVec view(size_type len, const double *data, size_type inc = 1) {
-        return DVec::view(len, const_cast<double*>(data));
+        return DVec::view(len, const_cast<double*>(data), inc);
     }
 
     static DVec view(struct aa_dvec *x) {
-- 
2.43.0


From 72daae44730bef024f279d400c12ae3b36bf08ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 111/146] fix: QuatTran from a transformation matrix stored a
 dual quaternion past its end

---
 include/amino/tf/spatial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/tf/spatial.hpp b/include/amino/tf/spatial.hpp
index 608113c..473b3ba 100644
--- a/include/amino/tf/spatial.hpp
+++ b/include/amino/tf/spatial.hpp
@@ -978,7 +978,7 @@ struct QuatTran : aa_tf_qv {
     static aa_tf_qv from_tfmat(const double t[12])
     {
         aa_tf_qv qv;
-        aa_tf_tfmat2duqu(t, qv.data);
+        aa_tf_tfmat2qutr(t, qv.data);
         return qv;
     }
 
-- 
2.43.0


From a783725ef2a6aa49486019de08dd4e5ae0f5020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 112/146] fix: the default dual quaternion constructed itself
 without end

---
 include/amino/tf/spatial.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/amino/tf/spatial.hpp b/include/amino/tf/spatial.hpp
index 473b3ba..95c4d3d 100644
--- a/include/amino/tf/spatial.hpp
+++ b/include/amino/tf/spatial.hpp
@@ -749,7 +749,7 @@ struct DualQuat : aa_tf_duqu {
                                 double w_real, double x_dual, double y_dual,
                                 double z_dual, double w_dual)
     {
-        DualQuat S;
+        aa_tf_duqu S;
         S.real = Quat::from_xyzw(x_real, y_real, z_real, w_real);
         S.dual = Quat::from_xyzw(x_dual, y_dual, z_dual, w_dual);
         return S;
@@ -760,7 +760,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_duqu(const double s[8])
     {
-        DualQuat S;
+        aa_tf_duqu S;
         memcpy(S.data, s, 8 * sizeof(s[0]));
         return S;
     }
@@ -771,7 +771,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_qv(const double q[4], const double v[3])
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_qv2duqu(q, v, S.data);
         return S;
     }
@@ -781,7 +781,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_tfmat(const double T[12])
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_tfmat2duqu(T, S.data);
         return S;
     }
@@ -791,7 +791,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_xxyz(double theta, double x, double y, double z)
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_xxyz2duqu(theta, x, y, z, S.data);
         return S;
     }
@@ -801,7 +801,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_yxyz(double theta, double x, double y, double z)
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_yxyz2duqu(theta, x, y, z, S.data);
         return S;
     }
@@ -811,7 +811,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_zxyz(double theta, double x, double y, double z)
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_zxyz2duqu(theta, x, y, z, S.data);
         return S;
     }
@@ -822,7 +822,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_xyz(double x, double y, double z)
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_xyz2duqu(x, y, z, S.data);
         return S;
     }
@@ -833,7 +833,7 @@ struct DualQuat : aa_tf_duqu {
      */
     static aa_tf_duqu from_dx(double *s, double *dx)
     {
-        DualQuat S;
+        aa_tf_duqu S;
         aa_tf_duqu_vel2diff(s, dx, S.data);
         return S;
     }
-- 
2.43.0


From ff3d8f155a24e64c56d7eb11e559326c3eb24756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 113/146] fix: the default planar rotation angle was left
 uninitialised

---
 include/amino/tf/planar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/amino/tf/planar.hpp b/include/amino/tf/planar.hpp
index 9fcd9f1..a0613d6 100644
--- a/include/amino/tf/planar.hpp
+++ b/include/amino/tf/planar.hpp
@@ -136,7 +136,7 @@ struct Vec2 : BaseCmplx {
 /** A planar rotation angle. */
 struct AngleP {
     /** Zero rotation. */
-    AngleP() {}
+    AngleP() : angle_(0) {}
 
     /** Construct rotation of angle theta. */
     AngleP(double theta) : angle_(theta) {}
-- 
2.43.0


From 3e48c2d7c9c007d2a79619dd6ab840a4964bb733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 114/146] fix: python vector and matrix views of a temporary
 used freed memory

---
 python/amino/mat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index db5f909..54fc741 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -153,6 +153,7 @@ class DVec(ctypes.Structure, VecMixin):
             stop = self._size if key.stop is None else key.stop
             x = DVec()
             libamino.aa_dvec_slice(self, start, stop, step, x)
+            x._parent = self  # the view shares our data
             return x
         if key < 0 or key >= len(self):
             raise IndexError(key)
@@ -319,6 +320,7 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
         self._check_row(i)
         v = DVec()
         libamino.aa_dmat_row_vec(self, i, v)
+        v._parent = self  # the view shares our data
         return v
 
     def col_vec(self, j):
@@ -326,12 +328,14 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
         self._check_col(j)
         v = DVec()
         libamino.aa_dmat_col_vec(self, j, v)
+        v._parent = self  # the view shares our data
         return v
 
     def diag_vec(self):
         """Returns the diagonal as a DVec."""
         v = DVec()
         libamino.aa_dmat_diag_vec(self, v)
+        v._parent = self  # the view shares our data
         return v
 
     def transpose(self):
@@ -426,6 +430,7 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
                 raise IndexError()
             M = DMat()
             libamino.aa_dmat_block(self, i.start, j.start, i.stop, j.stop, M)
+            M._parent = self  # the view shares our data
             return M
         self._check_index(i, j)
         return self._data[i + j * self._ld]
-- 
2.43.0


From 1d05334dee19b00719b028e649df4ef6c28e8334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 115/146] fix: python matrix blocks with an open bound raised
 an error

---
 python/amino/mat.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index 54fc741..99f5a86 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -429,7 +429,12 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
             if not ((j.step is None) or j.step == 0):
                 raise IndexError()
             M = DMat()
-            libamino.aa_dmat_block(self, i.start, j.start, i.stop, j.stop, M)
+            row_start = 0 if i.start is None else i.start
+            row_stop = self._rows if i.stop is None else i.stop
+            col_start = 0 if j.start is None else j.start
+            col_stop = self._cols if j.stop is None else j.stop
+            libamino.aa_dmat_block(self, row_start, col_start, row_stop,
+                                   col_stop, M)
             M._parent = self  # the view shares our data
             return M
         self._check_index(i, j)
-- 
2.43.0


From d23bcddfcf8a02eea5fde8c44034f157ec57779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 116/146] fix: python gemv and gemm checked sizes without
 regard to transposition

---
 python/amino/mat.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index 99f5a86..ce2ec91 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -130,9 +130,12 @@ class DVec(ctypes.Structure, VecMixin):
         x -- a vector
         beta -- a scalar
         """
-        if A.rows != len(self):
+        rows, cols = A.rows, A.cols
+        if trans != CBLAS_NO_TRANS:
+            rows, cols = cols, rows
+        if rows != len(self):
             raise IndexError()
-        if A.cols != len(x):
+        if cols != len(x):
             raise IndexError()
         libamino.aa_dmat_gemv(trans, alpha, A, x, beta, self)
         return self
@@ -386,7 +389,13 @@ class DMat(ctypes.Structure, SSDEqMixin, DivCompatMixin, MatMixin):
             beta: scale factor for self
         """
         C = self
-        if (A.rows != C.rows or A.cols != B.rows or B.cols != C.cols):
+        m, k = A.rows, A.cols
+        if transA != CBLAS_NO_TRANS:
+            m, k = k, m
+        p, n = B.rows, B.cols
+        if transB != CBLAS_NO_TRANS:
+            p, n = n, p
+        if (m != C.rows or k != p or n != C.cols):
             raise IndexError()
         libamino.aa_dmat_gemm(transA, transB, alpha, A, B, beta, C)
         return C
-- 
2.43.0


From 6b522dbb13d6019b2d3e5de51100ff3888525a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 117/146] fix: in-place subtraction from a python vector view
 left the view unchanged

---
 python/amino/mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/mat.py b/python/amino/mat.py
index ce2ec91..53469d7 100644
--- a/python/amino/mat.py
+++ b/python/amino/mat.py
@@ -195,7 +195,7 @@ class DVec(ctypes.Structure, VecMixin):
         """Add a scalar or vector to self"""
         return DVec(self).__iadd__(other)
 
-    def __isub(self, other):
+    def __isub__(self, other):
         """Subtract a scalar or vector from self"""
         if isinstance(other, DVec):
             return self.axpy(-1, other)
-- 
2.43.0


From 4b1dd48abed298215d58bad58a829a7f9036449a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 118/146] fix: python geometry options could not be read

---
 python/amino/scenegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index de8933c..dc0567e 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -88,7 +88,7 @@ class GeomOpt:
         libamino.aa_rx_geom_opt_destroy(self._ptr)
 
     def _get_val(self, func):
-        return func(self._ptr).value
+        return func(self._ptr)
 
     def _get_val3(self, func0, func1, func2):
         return [
-- 
2.43.0


From 99c718216d53aa88831438bdae60338dcb40fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 119/146] fix: python ensure_config_name returned the name of a
 frame

---
 python/amino/scenegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index dc0567e..cfd23eb 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -519,7 +519,7 @@ class SceneGraph:
 
         if value >= self.config_count or value < 0:
             raise IndexError("Invalid config id: %d" % value)
-        return self.frame_name(value)
+        return self.config_name(value)
 
     def ensure_frame_id(self, value):
         """Ensures value is a frame id, converting strings if necessary.
-- 
2.43.0


From aacfb39df7cc31eb210b96d1fde9db8badeaf4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 120/146] fix: python SceneGraph.load ignored failure to load
 the scene

---
 python/amino/scenegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index cfd23eb..57da38d 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -436,7 +436,7 @@ class SceneGraph:
         name = ensure_cstring(name)
         filename = ensure_cstring(filename)
         r = libamino.aa_rx_dl_sg_at(filename, name, self._ptr, root)
-        if r is None:
+        if not r:
             raise LookupError("Could not load scene %s:%s" % (filename, name))
 
     def init(self):
-- 
2.43.0


From b005fa96ea243fbc81613e8e21d606b8316efea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 121/146] fix: python ensure_frame_id_actual raised TypeError
 for the root frame by name

---
 python/amino/scenegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index 57da38d..a27d3e5 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -550,7 +550,7 @@ class SceneGraph:
         """
         r = self.ensure_frame_id(value)
         if r < 0:
-            raise IndexError("Invalid frame id: %d" % value)
+            raise IndexError("Invalid frame id: %d" % r)
         return r
 
     def ensure_frame_name(self, value):
-- 
2.43.0


From 2c069d46ad6bb4123441612d45f50d35a57d96f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 122/146] fix: a python geometry attached twice was freed
 twice, an unattached one never

---
 python/amino/scenegraph.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/python/amino/scenegraph.py b/python/amino/scenegraph.py
index a27d3e5..463910b 100644
--- a/python/amino/scenegraph.py
+++ b/python/amino/scenegraph.py
@@ -190,6 +190,9 @@ class Geom:
     def __init__(self, _ptr):
         self._ptr = _ptr
 
+    def __del__(self):
+        libamino.aa_rx_geom_destroy(self._ptr)
+
     @staticmethod
     def box(opt, dimension):
         """Creates a box geometry object."""
@@ -295,6 +298,10 @@ libamino.aa_rx_geom_opt_get_specular_green.argtypes = [
 ]
 libamino.aa_rx_geom_opt_get_specular_green.restype = ctypes.c_double
 
+libamino.aa_rx_geom_copy.argtypes = [ctypes.POINTER(RxGeom)]
+libamino.aa_rx_geom_copy.restype = ctypes.POINTER(RxGeom)
+libamino.aa_rx_geom_destroy.argtypes = [ctypes.POINTER(RxGeom)]
+
 libamino.aa_rx_geom_box.argtypes = [
     ctypes.POINTER(RxGeomOpt), ctypes.POINTER(Vec3)
 ]
@@ -407,7 +414,9 @@ class SceneGraph:
         if geom is None:
             return
         if isinstance(geom, Geom):
-            libamino.aa_rx_geom_attach(self._ptr, name, geom._ptr)
+            # the scene takes over the reference it is given
+            libamino.aa_rx_geom_attach(self._ptr, name,
+                                       libamino.aa_rx_geom_copy(geom._ptr))
         elif isinstance(geom, (list, tuple)):
             for elt in geom:
                 self.attach_geom(name, elt)
-- 
2.43.0


From e24f52a5054a787c581ba9d92c95573679bf3f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 123/146] fix: python Euler angles could not be constructed
 from a quaternion

---
 python/amino/tf.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/amino/tf.py b/python/amino/tf.py
index 4d9cfc4..c8513ba 100644
--- a/python/amino/tf.py
+++ b/python/amino/tf.py
@@ -511,12 +511,16 @@ class Quat(ctypes.Structure, VecMixin):
         """Converts to an axis-angle and store in a"""
         libamino.aa_tf_quat2axang(self, a)
 
-    def to_eulerzyx(self):
-        """Converts to an euler zyx angle representation"""
+    def to_eulerzyx(self, e=None):
+        """Converts to an euler zyx angle representation, storing in e if given"""
+        if e is None:
+            e = EulerZYX()
         ang = (ctypes.c_double * 3)()
         libamino.aa_tf_quat2eulerzyx(self, ang)
-        x = [ang[0], ang[1], ang[2]]
-        return EulerZYX(x)
+        e.z = ang[0]
+        e.y = ang[1]
+        e.x = ang[2]
+        return e
 
     def vector(self):
         """Returns the vector (xyz) part"""
-- 
2.43.0


From d9245ee4cfde1b87a5e01b03b3eab438fab92e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 124/146] fix: python EulerRPY converted from other rotations
 mixed up pitch and yaw

---
 python/amino/tf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/amino/tf.py b/python/amino/tf.py
index c8513ba..077a1ff 100644
--- a/python/amino/tf.py
+++ b/python/amino/tf.py
@@ -352,6 +352,10 @@ class EulerRPY(EulerZYX):
             if len(arg) != 3:
                 raise IndexError()
             arg = (arg[2], arg[1], arg[0])
+        elif arg is not None:
+            # attribute y means yaw here, so convert to ZYX first
+            e = EulerZYX(arg)
+            arg = (e.z, e.y, e.x)
         super().__init__(arg)
 
     @property
-- 
2.43.0


From e8f667a8f00005ce6386225b1cbb7a2616fd2697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 125/146] fix: python velocities converted to vectors shared
 one vector

---
 python/amino/tf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/amino/tf.py b/python/amino/tf.py
index 077a1ff..872759f 100644
--- a/python/amino/tf.py
+++ b/python/amino/tf.py
@@ -1255,8 +1255,10 @@ class TfVec(ctypes.Structure):
         else:
             self._second()[key - 3] = item
 
-    def to_dvec(self, vec=DVec(6)):
+    def to_dvec(self, vec=None):
         """Copies self to a vec."""
+        if vec is None:
+            vec = DVec(6)
         vec.copy_from(self)
         return vec
 
-- 
2.43.0


From a1980c7fc68d71f3124296949add29d1e69f32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:36 +0000
Subject: [PATCH 126/146] fix: a python motion plan used the scene after it was
 freed

---
 python/amino/motionplanning.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/amino/motionplanning.py b/python/amino/motionplanning.py
index e3ccfa9..3217c0f 100644
--- a/python/amino/motionplanning.py
+++ b/python/amino/motionplanning.py
@@ -48,9 +48,10 @@ class RxMp(ctypes.Structure):
 class MotionPlan(object):
     """Context object for motion planning."""
 
-    __slots__ = ["_ptr"]
+    __slots__ = ["_ptr", "ssg"]
 
     def __init__(self, ssg):
+        self.ssg = ssg
         self._ptr = LIBAMINOMP.aa_rx_mp_create(ssg._ptr)
 
 
-- 
2.43.0


From efa3786faf92b25a403be031dd4357a2bbfbf271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:36 +0000
Subject: [PATCH 127/146] fix: python motion plans leaked the path

---
 python/amino/motionplanning.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/amino/motionplanning.py b/python/amino/motionplanning.py
index 3217c0f..8896d60 100644
--- a/python/amino/motionplanning.py
+++ b/python/amino/motionplanning.py
@@ -42,6 +42,11 @@ from amino.defaults import *
 
 LIBAMINOMP = ctypes.CDLL("libamino-planning.so")
 
+## C library, to free the paths
+LIBC = ctypes.CDLL(None)
+LIBC.free.argtypes = [ctypes.c_void_p]
+LIBC.free.restype = None
+
 class RxMp(ctypes.Structure):
     """Opaque type for struct aa_rx_mp"""
 
@@ -95,6 +100,7 @@ class MotionPlan(object):
             for j in range(0, len(start)):
                 cord.append(path[i+j])
             py_path.append(cord)
+        LIBC.free(path)
 
         return py_path
 
-- 
2.43.0


From ec177aa5b4882bfea577bedbe38d5844352eb263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 128/146] fix: allowing a set of collisions withdrew the
 permissions given before

---
 src/rx/amino_fcl.cpp                       |  1 -
 src/rx/mp/scene_state_validity_checker.cpp | 10 +++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rx/amino_fcl.cpp b/src/rx/amino_fcl.cpp
index b1327f9..e912139 100644
--- a/src/rx/amino_fcl.cpp
+++ b/src/rx/amino_fcl.cpp
@@ -300,7 +300,6 @@ AA_API void
 aa_rx_cl_allow_set( struct aa_rx_cl *cl,
                     const struct aa_rx_cl_set *set )
 {
-    aa_rx_cl_set_clear( cl->allowed );
     aa_rx_cl_set_fill( cl->allowed, set );
 }
 
diff --git a/src/rx/mp/scene_state_validity_checker.cpp b/src/rx/mp/scene_state_validity_checker.cpp
index 40f02c7..932ae05 100644
--- a/src/rx/mp/scene_state_validity_checker.cpp
+++ b/src/rx/mp/scene_state_validity_checker.cpp
@@ -95,7 +95,15 @@ void sgStateValidityChecker::set_start( size_t n_q, double *q_initial)
 
 void sgStateValidityChecker::allow( )
 {
-    aa_rx_cl_allow_set( cl, getTypedStateSpace()->allowed );
+    // allow exactly these pairs, also withdrawing earlier permissions
+    const struct aa_rx_cl_set *allowed = getTypedStateSpace()->allowed;
+    aa_rx_frame_id n = (aa_rx_frame_id)
+        aa_rx_sg_frame_count( getTypedStateSpace()->scene_graph );
+    for( aa_rx_frame_id i = 0; i < n; i ++ ) {
+        for( aa_rx_frame_id j = 0; j < i; j ++ ) {
+            aa_rx_cl_allow( cl, i, j, aa_rx_cl_set_get(allowed, i, j) );
+        }
+    }
 }
 
 } /* namespace amino */
-- 
2.43.0


From 27f12d9ff569c266cae2c5a115be13d85b7f616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:07 +0000
Subject: [PATCH 129/146] fix: keep a scene plugin loaded while copies of its
 graph share its meshes

---
 include/amino/rx/scenegraph_internal.h | 5 +++--
 src/rx/scenegraph.cpp                  | 7 -------
 src/rx/sg_api.cpp                      | 9 +++++++--
 3 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/include/amino/rx/scenegraph_internal.h b/include/amino/rx/scenegraph_internal.h
index 94ef05f..698b456 100644
--- a/include/amino/rx/scenegraph_internal.h
+++ b/include/amino/rx/scenegraph_internal.h
@@ -76,6 +76,7 @@ struct aa_rx_fk {
 
 #ifdef __cplusplus
 
+#include <memory>
 #include <vector>
 #include <string>
 #include <map>
@@ -203,8 +204,8 @@ struct SceneGraph  {
     /** Set of allowable collision frames by name */
     std::set<std::pair<std::string,std::string> > allowed;
 
-    void (*destructor)(void *);
-    void *destructor_context;
+    /** User destructors, run when this graph and its copies are gone */
+    std::vector<std::shared_ptr<void> > destructors;
 
     /** Are the indices invalid? */
     unsigned dirty_indices : 1;
diff --git a/src/rx/scenegraph.cpp b/src/rx/scenegraph.cpp
index e34e9a0..f30fb8e 100644
--- a/src/rx/scenegraph.cpp
+++ b/src/rx/scenegraph.cpp
@@ -263,8 +263,6 @@ void SceneFrameRevolute::tfmat_rel( const double *q, double _T[12] )
 
 SceneGraph::SceneGraph()
     : config_size(0),
-      destructor(NULL),
-      destructor_context(NULL),
       dirty_indices(0),
       dirty_collision(1),
       dirty_gl(1)
@@ -272,11 +270,6 @@ SceneGraph::SceneGraph()
 
 SceneGraph::~SceneGraph()
 {
-    /* User destructor(s) */
-    if( destructor ) {
-        destructor(destructor_context);
-    }
-
     /* Delete Frames */
     for( auto &pair : frame_map ) delete pair.second;
 
diff --git a/src/rx/sg_api.cpp b/src/rx/sg_api.cpp
index 2faec66..6b12259 100644
--- a/src/rx/sg_api.cpp
+++ b/src/rx/sg_api.cpp
@@ -677,8 +677,10 @@ aa_rx_sg_set_destructor(
     void (*destructor)(void*),
     void *context )
 {
-    scene_graph->sg->destructor = destructor;
-    scene_graph->sg->destructor_context = context;
+    if( destructor ) {
+        scene_graph->sg->destructors.push_back(
+            std::shared_ptr<void>(context, destructor) );
+    }
 }
 
 AA_API void aa_rx_sg_rel_tf (
@@ -812,6 +814,9 @@ AA_API  struct aa_rx_sg *  aa_rx_sg_copy( const struct aa_rx_sg * orig){
         aa_rx_sg_allow_collision_name(dest, pair.first.c_str(), pair.second.c_str(), 1);
     }
 
+    // the copy shares the geometry: keep what the destructors release
+    dest->sg->destructors = orig->sg->destructors;
+
     // initialize sg
     dest->sg->index();
 
-- 
2.43.0


From 7c9e30ecd567368839427081976768e7ecb7ad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 130/146] fix: masking a frame wrote past the mask of hidden
 frames

---
 src/amino_gl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amino_gl.c b/src/amino_gl.c
index bbe3f96..eca7f7e 100644
--- a/src/amino_gl.c
+++ b/src/amino_gl.c
@@ -1751,7 +1751,7 @@ aa_gl_globals_mask( struct aa_gl_globals *globals, size_t i, int value ) {
 
         globals->frame_mask_size = new_size;
         globals->frame_mask = (aa_bits*)realloc( globals->frame_mask, new_size );
-        memset( globals->frame_mask + old_size, 0, new_size - old_size );
+        memset( (char*)globals->frame_mask + old_size, 0, new_size - old_size );
     }
 
     aa_bits_set(globals->frame_mask, i, value);
-- 
2.43.0


From 474fb92650005762d008eac2a57bbe0b0f6b3633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 131/146] fix: destroying the OpenGL globals leaked the mask of
 hidden frames

---
 src/amino_gl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/amino_gl.c b/src/amino_gl.c
index eca7f7e..4c3ba7e 100644
--- a/src/amino_gl.c
+++ b/src/amino_gl.c
@@ -1555,6 +1555,7 @@ aa_gl_globals_create()
 void
 aa_gl_globals_destroy( struct aa_gl_globals *globals )
 {
+    aa_gl_globals_unmask_all(globals);
     free(globals);
 }
 
-- 
2.43.0


From 396bfaa44ab40aac6207ac95b3ee3a8af5d2d278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 132/146] fix: setting up a grid for OpenGL kept its indices on
 the local region

---
 src/amino_gl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amino_gl.c b/src/amino_gl.c
index 4c3ba7e..045fb64 100644
--- a/src/amino_gl.c
+++ b/src/amino_gl.c
@@ -883,7 +883,7 @@ AA_API void aa_geom_gl_buffers_init_grid (
 
     tri_mesh( &geom->base, mesh );
 
-    aa_mem_region_local_pop(values);
+    aa_mem_region_local_pop(indices);
     aa_rx_mesh_destroy(mesh);
 }
 
-- 
2.43.0


From 8b70f3055b0e1340126db7bb4811b3361098954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 133/146] fix: draw an octree as one cube of the voxel size per
 occupied voxel

---
 src/octree_gl.cpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/octree_gl.cpp b/src/octree_gl.cpp
index 9b4187f..003d785 100644
--- a/src/octree_gl.cpp
+++ b/src/octree_gl.cpp
@@ -57,17 +57,17 @@
 
 
 void add_box ( GLfloat* values, GLfloat* normals, unsigned* indices,
-               GLfloat s, GLfloat* c, size_t idx )
+               GLfloat s, GLfloat* c, unsigned nn )
 {
     GLfloat a[2] = {1,-1};
     size_t ii[4][2] = {{0,0}, {0,1}, {1,1}, {1,0}};
-    GLfloat d[3] = {s, s, s};
+    GLfloat h = s / 2;
+    GLfloat d[3] = {h, h, h};
 
 
 
     // Z
     size_t n = 0;
-    printf("before making z\n");
     for( size_t k = 0; k < 2; k ++ ) {
 
         for( size_t ell = 0; ell<4; ell++ ) {
@@ -83,7 +83,6 @@ void add_box ( GLfloat* values, GLfloat* normals, unsigned* indices,
         }
     }
     // X
-    printf("before making x\n");
     for( size_t k = 0; k < 2; k ++ ) {
         for( size_t ell = 0; ell<4; ell++ ) {
             size_t i = ii[ell][0];
@@ -98,7 +97,6 @@ void add_box ( GLfloat* values, GLfloat* normals, unsigned* indices,
         }
     }
     // Y
-    printf("before making y\n");
     for( size_t k = 0; k < 2; k ++ ) {
         for( size_t ell = 0; ell<4; ell++ ) {
             size_t i = ii[ell][0];
@@ -112,9 +110,8 @@ void add_box ( GLfloat* values, GLfloat* normals, unsigned* indices,
             n++;
         }
     }
-    printf("before making indicies: %ld\n", idx);
     {
-        unsigned nn = 0;
+        size_t idx = 0;
         for( unsigned axis = 0; axis < 3; axis ++ ) {
             for( size_t k = 0; k < 2; k ++ ) {
                 indices[idx++] = nn;
@@ -145,41 +142,34 @@ void init_octree ( struct aa_rx_geom_octree *geom )
     mesh->vertices=NULL;
     mesh->normals=NULL;
     mesh->indices=NULL;
-    fprintf(stderr,"created mesh\n");
 
     size_t x=0;
     for(octomap::OcTree::leaf_iterator it = tree->begin_leafs(),
             end=tree->end_leafs(); it!= end; ++it)
     {
         if (it->getOccupancy() > 0.5){
-            fprintf(stderr,"adding value %ld out of %ld\n", x, num_nodes);
             GLfloat d = (GLfloat) it.getSize();
             GLfloat c[3] = {(GLfloat) it.getX(),(GLfloat) it.getY(),(GLfloat) it.getZ()};
 
-            size_t idx = x*num_val/2;
             add_box(&values[num_val*x], &normals[num_val*x],
-                    &indices[num_val/2*x], d, c, idx);
+                    &indices[num_val/2*x], d, c, (unsigned)(num_val/3*x));
 
             x++;
         }
     }
-    fprintf(stderr,"filled values itr: %ld\n", x);
 
-
-    size_t num_vert = x*num_val;
-    fprintf(stderr,"before setting verticies x: %ld\n", num_vert);
+    size_t num_vert = x*num_val/3;
     aa_rx_mesh_set_vertices( mesh, num_vert, values, 0 );
-    fprintf(stderr,"set verticies\n");
     aa_rx_mesh_set_normals( mesh, num_vert, normals, 0 );
-    fprintf(stderr,"set normals\n");
     size_t num_idx = num_val/6*x;
     aa_rx_mesh_set_indices( mesh, num_idx, indices, 0 );
-    fprintf(stderr,"set indicies\n");
 
 
     aa_rx_mesh_set_texture(mesh, &geom->base.opt);
-    fprintf(stderr,"set texture\n");
     tri_mesh( &geom->base, mesh );
     aa_rx_mesh_destroy(mesh);
 
+    free(values);
+    free(normals);
+    free(indices);
 }
-- 
2.43.0


From 2be7c4b4d9488e3a6ce35f62ffc7fb082a5be06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 134/146] fix: no undefined shift for 3D mouse buttons 31 and
 above

---
 src/amino_sdl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/amino_sdl.c b/src/amino_sdl.c
index dea0fb9..8d67fcf 100644
--- a/src/amino_sdl.c
+++ b/src/amino_sdl.c
@@ -169,9 +169,9 @@ static void aa_spnav_poll(double dx[6])
             int64_t i = spnevent.button.bnum;
             int x = spnevent.button.press;
             if (x) {
-                spnav_button |= (1 << i);
+                spnav_button |= (INT64_C(1) << i);
             } else {
-                spnav_button &= ~(1 << i);
+                spnav_button &= ~(INT64_C(1) << i);
             }
             break;
         }
-- 
2.43.0


From 8bb26803c49ce924c64de73ecc50a1d337808098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 135/146] fix: free the configuration of a window when it is
 replaced or the window destroyed

---
 src/rx/sdl_win.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index ce8d2d6..c3095de 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -263,6 +263,7 @@ aa_rx_win_destroy( struct aa_rx_win *  win)
     aa_rx_win_set_display( win, NULL, NULL, NULL );
 
     aa_gl_globals_destroy( win->gl_globals );
+    aa_checked_free( win->q );
 
     /* TODO: free display_cx */
 
@@ -470,6 +471,7 @@ set_sg( struct aa_rx_win * win,
     cx->sg_sub = sg_sub;
     win->n_q = aa_rx_sg_config_count(sg);
     /* TODO: fill q with something reasonable */
+    aa_checked_free( win->q );
     win->q = AA_NEW0_AR( double, win->n_q );
 
     aa_rx_win_set_display( win, default_display, cx, destroy_default );
-- 
2.43.0


From 9525756ba7e022185e7865247263de6c0e76d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:40 +0000
Subject: [PATCH 136/146] fix: a window is running until its display loop has
 ended

---
 src/rx/sdl_win.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index c3095de..c4b60e5 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -929,9 +929,9 @@ AA_API int
 aa_rx_win_is_running( struct aa_rx_win * win )
 {
     aa_rx_win_lock(win);
-    int r = win->stop;
+    int r = win->running || !win->stop;
     aa_rx_win_unlock(win);
-    return !r;
+    return r;
 }
 
 AA_API void
-- 
2.43.0


From 649d7892537ccf557f249f77300a18a826f1d270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 137/146] fix: room for the dual quaternion of the reference
 pose in workspace control

---
 src/rx/sdl_win.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index c4b60e5..75da7c9 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -392,7 +392,7 @@ workspace_control(
 
         // position feedback
         {
-            double Sr[7], Sa[8];
+            double Sr[8], Sa[8];
             aa_tf_qutr2duqu(cx->E_ref, Sr);
             aa_tf_qutr2duqu(Ea, Sa);
 
-- 
2.43.0


From 05192340460c50241a237418e8268a70efa02acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:12 +0000
Subject: [PATCH 138/146] fix: workspace control corrects the pose of the
 end-effector frame itself

---
 src/rx/sdl_win.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 75da7c9..d81991d 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -368,7 +368,7 @@ workspace_control(
     aa_rx_sg_tf( sg, n_q, win->q,
                  n_f, TF_rel, 7, TF_abs, 7 );
 
-    aa_rx_frame_id id_ee = aa_rx_sg_sub_frame( ssg, n_sq - 1 );
+    aa_rx_frame_id id_ee = aa_rx_sg_sub_frame_ee( ssg );
     double *Ea = TF_abs + 7*id_ee;
 
     if( s_dx_enable ) {
-- 
2.43.0


From 5db4aceaee3fe27c3013918e44ed8c02ea73b046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:22 +0000
Subject: [PATCH 139/146] fix: a display loop started before its window exists
 begins when it is created

---
 src/rx/sdl_win.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index d81991d..5e10e78 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -237,6 +237,7 @@ aa_rx_win_create(
     s_lock();
     s_thread_win = pthread_self();
     s_win = win;
+    s_broadcast();
     s_unlock();
 
     return win;
-- 
2.43.0


From 3fbef0e04faade697d429a20813daa7313b36135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:22 +0000
Subject: [PATCH 140/146] fix: lock the window while its display function is
 replaced

---
 src/rx/sdl_win.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 5e10e78..06bcc68 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -566,12 +566,14 @@ aa_rx_win_set_display( struct aa_rx_win * win,
                        void *context,
                        void (*destructor)(void*) )
 {
+    aa_rx_win_lock(win);
     if( win->destroy_cx ) {
         win->destroy_cx( win->display_cx );
     }
     win->display = display;
     win->display_cx = context;
     win->destroy_cx = destructor;
+    aa_rx_win_unlock(win);
 }
 
 struct mp_seq_display_cx {
-- 
2.43.0


From f36871c749e354204dd2954e1aa61845b9236fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:13 +0000
Subject: [PATCH 141/146] fix: the display loop moves the camera under the lock
 of its window

---
 include/amino/rx/scene_gl_internal.h |  5 +++++
 src/amino_sdl.c                      | 20 ++++++++++++++++++++
 src/rx/sdl_win.c                     |  1 +
 3 files changed, 26 insertions(+)

diff --git a/include/amino/rx/scene_gl_internal.h b/include/amino/rx/scene_gl_internal.h
index 0857f78..ecb3553 100644
--- a/include/amino/rx/scene_gl_internal.h
+++ b/include/amino/rx/scene_gl_internal.h
@@ -38,6 +38,8 @@
 #ifndef AMINO_RX_SCENE_GL_INTERNAL_H
 #define AMINO_RX_SCENE_GL_INTERNAL_H
 
+#include <pthread.h>
+
 #include "amino/rx/scene_geom.h"
 
 
@@ -80,6 +82,9 @@ struct aa_gl_globals {
     aa_bits *frame_mask;
     size_t frame_mask_size;
 
+    /* Guards access by the display loop, or NULL */
+    pthread_mutex_t *mutex;
+
     /* Flags */
     unsigned show_visual : 1;
     unsigned show_collision : 1;
diff --git a/src/amino_sdl.c b/src/amino_sdl.c
index 8d67fcf..b14e1b7 100644
--- a/src/amino_sdl.c
+++ b/src/amino_sdl.c
@@ -474,6 +474,22 @@ void aa_sdl_scroll_event( struct aa_gl_globals * globals,
 /*     aa_sdl_unlock(); */
 /* } */
 
+static void globals_lock( struct aa_gl_globals * globals )
+{
+    if( globals->mutex && pthread_mutex_lock(globals->mutex) ) {
+        perror("pthread_mutex_lock");
+        abort();
+    }
+}
+
+static void globals_unlock( struct aa_gl_globals * globals )
+{
+    if( globals->mutex && pthread_mutex_unlock(globals->mutex) ) {
+        perror("pthread_mutex_unlock");
+        abort();
+    }
+}
+
 AA_API void aa_sdl_display_loop(
     SDL_Window* window,
     struct aa_gl_globals * globals,
@@ -524,7 +540,9 @@ AA_API void aa_sdl_display_loop(
             params.event = &e;
             if( r ) {
                 if( aa_sdl_handle_event( &e, &params) ) {
+                    globals_lock(globals);
                     aa_sdl_scroll_event(globals, &params.update, &e);
+                    globals_unlock(globals);
                 }
             }
         }
@@ -544,7 +562,9 @@ AA_API void aa_sdl_display_loop(
 
             /* Only use the spnav if focused */
             if( focus && f_key ) {
+                globals_lock(globals);
                 aa_spnav_scroll(spnav_axis, globals, &params.update);
+                globals_unlock(globals);
             }
 
             if( focus && x_key ) {
diff --git a/src/rx/sdl_win.c b/src/rx/sdl_win.c
index 06bcc68..fdcc3d9 100644
--- a/src/rx/sdl_win.c
+++ b/src/rx/sdl_win.c
@@ -212,6 +212,7 @@ aa_rx_win_create(
     }
 
     win->gl_globals = aa_gl_globals_create();
+    win->gl_globals->mutex = &win->mutex;
     aa_gl_globals_set_aspect( win->gl_globals, (double)width / (double)height );
 
     win->display = default_display;
-- 
2.43.0


From 39b567420c5fe42a2f22dfc82f2853ff0421a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:25 +0000
Subject: [PATCH 142/146] fix: inverse kinematics begins from the seed set in
 its parameters

---
 src/rx/scene_ik.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rx/scene_ik.c b/src/rx/scene_ik.c
index c32dc31..1de1c79 100644
--- a/src/rx/scene_ik.c
+++ b/src/rx/scene_ik.c
@@ -95,7 +95,13 @@ aa_rx_ik_cx_create(const struct aa_rx_sg_sub *ssg, const struct aa_rx_ik_parm *o
     cx->TF = aa_dmat_malloc( AA_RX_TF_LEN, aa_rx_sg_sub_all_frame_count(ssg) );
     cx->fk = aa_rx_fk_malloc(aa_rx_sg_sub_sg(ssg));
 
-    aa_rx_ik_set_seed_center(cx);
+    if( opts->q_all_seed ) {
+        struct aa_dvec q_all_seed;
+        aa_dvec_view( &q_all_seed, opts->n_all_seed, (double*)opts->q_all_seed, 1 );
+        aa_rx_sg_sub_config_gather( ssg, &q_all_seed, cx->q_seed );
+    } else {
+        aa_rx_ik_set_seed_center(cx);
+    }
     aa_rx_sg_fill_tf_abs( aa_rx_sg_sub_sg(cx->ssg), cx->q_start, cx->TF );
     aa_rx_fk_all( cx->fk, cx->q_start );
 
-- 
2.43.0


From 81948ffd5b777d6da45008eba2a69befac27e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:26 +0000
Subject: [PATCH 143/146] fix: restarted Jacobian inverse kinematics gets its
 full number of iterations

---
 src/rx/ik_jacobian.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rx/ik_jacobian.c b/src/rx/ik_jacobian.c
index 0685d93..f6b0d69 100644
--- a/src/rx/ik_jacobian.c
+++ b/src/rx/ik_jacobian.c
@@ -130,6 +130,9 @@ s_ik_jpinv( struct kin_solve_cx *cx,
         return AA_RX_INVALID_PARAMETER;
     }
 
+    /* each (re)start gets the full number of iterations */
+    cx->iteration = 0;
+
     struct aa_ode_sol_opts sol_opts;
     sol_opts.adapt_tol_dec = cx->opts->tol_dq / 16;
     sol_opts.adapt_tol_inc = cx->opts->tol_dq / 2;
-- 
2.43.0


From 181f06d6e7547597c2ef9f7854254fd76c9197ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:35 +0000
Subject: [PATCH 144/146] fix: aa_rx_errstr names the invalid state

---
 src/rx/errstr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rx/errstr.c b/src/rx/errstr.c
index b161df0..87d37a9 100644
--- a/src/rx/errstr.c
+++ b/src/rx/errstr.c
@@ -42,7 +42,8 @@ static const char *errstrs[] = {"no_solution",
                                 "no_inverse_kinematics",
                                 "no_motion_plan",
                                 "invalid_frame",
-                                "invalid_parameter" };
+                                "invalid_parameter",
+                                "invalid_state" };
 
 
 char *aa_rx_errstr( struct aa_mem_region *reg,
-- 
2.43.0


From 76878e78c0dbbcd6bd2a6e192ba416753a7e11b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:03 +0000
Subject: [PATCH 145/146] fix: aa_ct_tjX_pb_generate frees its temporary point
 list

---
 src/ct/traj.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ct/traj.cpp b/src/ct/traj.cpp
index 28a1be3..632e8b2 100644
--- a/src/ct/traj.cpp
+++ b/src/ct/traj.cpp
@@ -1030,6 +1030,7 @@ aa_ct_tjX_pb_generate(struct aa_mem_region *reg, struct aa_ct_pt_list *pt_list,
 
     struct aa_ct_seg_list *Xseg_list =
         aa_ct_tjq_pb_generate(reg, Xpt_list, &Xlimits);
+    aa_ct_pt_list_destroy(Xpt_list);
 
     struct aa_ct_seg *c_seg = Xseg_list->list.front();
     for (; c_seg != NULL; c_seg = c_seg->next) {
-- 
2.43.0


From 907e45e9468798b24bb728dc577a0d49ccbdc5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:30 +0000
Subject: [PATCH 146/146] fix: wavefront parsers reject unreadable files
 instead of exiting

---
 src/wavefront/mtl.l       | 10 ++++++++++
 src/wavefront/wavefront.l | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/wavefront/mtl.l b/src/wavefront/mtl.l
index c62ce52..42009b7 100644
--- a/src/wavefront/mtl.l
+++ b/src/wavefront/mtl.l
@@ -68,6 +68,12 @@
         return -1;                                                      \
     }
 
+/* An unreadable file, e.g., a directory, ends the input; ferror() tells */
+#define YY_INPUT(buf,result,max_size)                       \
+    do {                                                    \
+        result = (int)fread(buf, 1, (size_t)(max_size), yyin); \
+    } while(0)
+
 %}
 
 %x EOL
@@ -281,6 +287,10 @@ aa_rx_wf_mtl_parse(const char *filename)
     int r = aa_rx_wf_mtl_lex(scanner);
 
     aa_rx_wf_mtl_lex_destroy(scanner);
+    if( ferror(in) ) {
+        fprintf(stderr, "Could not read '%s'\n", filename);
+        r = -1;
+    }
     fclose(in);
 
     if( r < 0 ) {
diff --git a/src/wavefront/wavefront.l b/src/wavefront/wavefront.l
index 0c39a0a..0e5761c 100644
--- a/src/wavefront/wavefront.l
+++ b/src/wavefront/wavefront.l
@@ -58,6 +58,12 @@
 #include "amino.h"
 #include "wavefront_internal.h"
 
+/* An unreadable file, e.g., a directory, ends the input; ferror() tells */
+#define YY_INPUT(buf,result,max_size)                       \
+    do {                                                    \
+        result = (int)fread(buf, 1, (size_t)(max_size), yyin); \
+    } while(0)
+
 %}
 
 
@@ -354,6 +360,10 @@ aa_rx_wf_parse(const char *filename)
     int r = aa_rx_wf_lex(scanner);
 
     aa_rx_wf_lex_destroy(scanner);
+    if( ferror(in) ) {
+        fprintf(stderr, "Could not read '%s'\n", filename);
+        r = -1;
+    }
     fclose(in);
 
     if( r < 0 ) {
-- 
2.43.0

