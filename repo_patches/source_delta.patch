From 793b00964d7cee456041bd927468cfb016f91599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 01/34] fix: describe strided transfers exactly for strides
 that are not multiples of each other

ARMCII_Strided_to_dtype divided each stride by the previous one to build a
subarray, so with ARMCI_STRIDED_METHOD=DIRECT a stride that is not a multiple of
the previous stride (or is smaller) moved the wrong bytes or aborted, while the
IOV methods handled it.  Nest hvectors instead.
---
 src/strided.c | 46 ++++++++++------------------------------------
 1 file changed, 10 insertions(+), 36 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index 2f25954..320cf35 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -12,7 +12,7 @@
 #include <debug.h>
 
 
-/** Convert an ARMCI strided access description into an MPI subarray datatype.
+/** Convert an ARMCI strided access description into an MPI datatype.
   *
   * @param[in]  stride_array    Array of strides
   * @param[in]  count           Array of transfer counts
@@ -23,9 +23,6 @@
 void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*stride_levels+1*/],
                              int stride_levels, MPI_Datatype old_type, MPI_Datatype *new_type)
 {
-  int sizes   [stride_levels+1];
-  int subsizes[stride_levels+1];
-  int starts  [stride_levels+1];
   int i, old_type_size;
 
   MPI_Type_size(old_type, &old_type_size);
@@ -34,17 +31,6 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
   for (i = stride_levels+1; (i > 0) && (stride_levels > 0) && (count[i-1] == 1); i--)
     stride_levels--;
 
-  /* A correct strided spec should me monotonic increasing and stride_array[i+1] should
-     be a multiple of stride_array[i]. */
-  if (stride_levels > 0) {
-    for (i = 1; i < stride_levels; i++) {
-      ARMCII_Assert(stride_array[i] >= stride_array[i-1]);
-      /* This assertion is violated by what seems to be valid usage resulting from
-       * the new GA API call nga_strided_get during the stride test in GA 5.2.
-       * ARMCII_Assert((stride_array[i] % stride_array[i-1]) == 0); */
-    }
-  }
-
   /* Test for a contiguous transfer */
   if (stride_levels == 0) {
     int elem_count = count[0]/old_type_size;
@@ -53,32 +39,20 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
     MPI_Type_contiguous(elem_count, old_type, new_type);
   }
 
-  /* Transfer is non-contiguous */
+  /* Transfer is non-contiguous.  A subarray can only describe strides that are
+     multiples of each other, which valid usage does not guarantee (for example
+     nga_strided_get in the GA 5.2 stride test), so nest one hvector per level. */
   else {
+    MPI_Datatype inner;
 
-    for (i = 0; i < stride_levels+1; i++)
-      starts[i] = 0;
-
-    sizes   [stride_levels] = stride_array[0]/old_type_size;
-    subsizes[stride_levels] = count[0]/old_type_size;
-
-    ARMCII_Assert((stride_array[0] % old_type_size) == 0);
     ARMCII_Assert((count[0] % old_type_size) == 0);
+    MPI_Type_contiguous(count[0]/old_type_size, old_type, &inner);
 
-    for (i = 1; i < stride_levels; i++) {
-      /* Convert strides into dimensions by dividing out contributions from lower dims */
-      sizes   [stride_levels-i] = stride_array[i]/stride_array[i-1];
-      subsizes[stride_levels-i] = count[i];
-
-      /* This assertion is violated by what seems to be valid usage resulting from
-       * the new GA API call nga_strided_get during the stride test in GA 5.2.  
-       * ARMCII_Assert_msg((stride_array[i] % stride_array[i-1]) == 0, "Invalid striding"); */
+    for (i = 0; i < stride_levels; i++) {
+      MPI_Type_create_hvector(count[i+1], 1, (MPI_Aint) stride_array[i], inner, new_type);
+      MPI_Type_free(&inner);
+      inner = *new_type;
     }
-
-    sizes   [0] = count[stride_levels];
-    subsizes[0] = count[stride_levels];
-
-    MPI_Type_create_subarray(stride_levels+1, sizes, subsizes, starts, MPI_ORDER_C, old_type, new_type);
   }
 }
 
-- 
2.43.0


From 3e92c323d15f952294d6c4be8e08806889783ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 02/34] fix: look up the allocation of every segment in
 conservative vector operations

---
 src/vector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 850633a..4ccedf2 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -263,6 +263,12 @@ int ARMCII_Iov_op_batched(enum ARMCII_Op_e op, void **src, void **dst, int count
       gmr_flush(mreg, proc, flush_local);
     }
 
+    /* The conservative method also serves vectors that span several allocations. */
+    if (consrv && i > 0) {
+      mreg = gmr_lookup(op == ARMCII_OP_GET ? src[i] : dst[i], proc);
+      ARMCII_Assert_msg(mreg != NULL, "Invalid remote pointer");
+    }
+
     switch(op) {
       case ARMCII_OP_PUT:
         gmr_put(mreg, src[i], dst[i], elem_count, proc, handle);
-- 
2.43.0


From f8343ffe45f571b5c35803c1440b2d28e81649fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 03/34] fix: send vectors that an indexed datatype cannot
 describe segment by segment

---
 src/vector.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 4ccedf2..6183c12 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -352,8 +352,8 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
      *
      * indexed_block displacements are 32-bit element offsets.  For a scaled/guarded ACC each
      * origin segment is a separate MPI_Alloc_mem allocation (ARMCII_Buf_prepare_acc_vec) and
-     * can be arbitrarily far from the base, so assert the element offset fits in a 32-bit int
-     * rather than silently truncating it into a wild address. */
+     * can be arbitrarily far from the base, and segments need not be a whole number of
+     * elements apart.  Such vectors cannot be described, so they are sent segment by segment. */
     base_loc_ptr = buf_loc[0];
     MPI_Get_address(buf_loc[0], &base_loc);
     for (i = 0; i < count; i++) {
@@ -368,9 +368,9 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
       disp_rem[i]  = (target_rem - base_rem)/type_size;    /* element offset within the window */
       block_len[i] = elem_count;
 
-      ARMCII_Assert_msg((loc_addr[i] - base_loc) % type_size == 0, "Local transfer offset is not a multiple of type size");
-      ARMCII_Assert_msg(off_loc <= INT_MAX, "Local segment span exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
-      ARMCII_Assert_msg((target_rem - base_rem) % type_size == 0, "Transfer size is not a multiple of type size");
+      if ((loc_addr[i] - base_loc) % type_size != 0 || off_loc > INT_MAX || (target_rem - base_rem) % type_size != 0)
+        return ARMCII_Iov_op_batched(op, src, dst, count, elem_count, type, proc, 0 /* not consrv */, blocking, handle);
+
       ARMCII_Assert_msg(disp_rem[i] >= 0 && disp_rem[i] < dst_win_size, "Invalid remote pointer");
       ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i] <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
       disp_loc[i]  = (int)off_loc;
-- 
2.43.0


From 516cbe781999f9d973259dea658fcc0f91ade06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:40 +0000
Subject: [PATCH 04/34] fix: complete scaled non-blocking vector accumulates
 before releasing their temporary

---
 src/vector_nb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vector_nb.c b/src/vector_nb.c
index ed41c6c..5106bce 100644
--- a/src/vector_nb.c
+++ b/src/vector_nb.c
@@ -126,7 +126,8 @@ int PARMCI_NbAccV(int datatype, void *scale, armci_giov_t *iov, int iov_len, int
 {
   int blocking = 0;
 
-  if (ARMCII_GLOBAL_STATE.shr_buf_method != ARMCII_SHR_BUF_NOGUARD) {
+  /* Temporary source buffers (copied or scaled) must not be released before local completion. */
+  if (ARMCII_GLOBAL_STATE.shr_buf_method != ARMCII_SHR_BUF_NOGUARD || ARMCII_Buf_acc_is_scaled(datatype, scale)) {
       blocking = 1;
   }
 
-- 
2.43.0


From 2db006ad00de823ba7d3f667f494fcf53d0e3691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 05/34] fix: include the lower bound of the target type in the
 range check

---
 src/gmr.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/gmr.c b/src/gmr.c
index df96590..220c668 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -542,8 +542,8 @@ int gmr_put_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype src_type,
 
   // Perform checks
   MPI_Type_get_true_extent(dst_type, &lb, &extent);
-  ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size && disp + lb >= 0, "Invalid remote address");
+  ARMCII_Assert_msg(disp + lb + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
 
 #ifdef USE_RMA_REQUESTS
 
@@ -645,8 +645,8 @@ int gmr_get_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype src_type,
 
   // Perform checks
   MPI_Type_get_true_extent(src_type, &lb, &extent);
-  ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp + src_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size && disp + lb >= 0, "Invalid remote address");
+  ARMCII_Assert_msg(disp + lb + src_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
 
 #ifdef USE_RMA_REQUESTS
 
@@ -751,8 +751,8 @@ int gmr_accumulate_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype src
 
   // Perform checks
   MPI_Type_get_true_extent(dst_type, &lb, &extent);
-  ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size && disp + lb >= 0, "Invalid remote address");
+  ARMCII_Assert_msg(disp + lb + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
 
 #ifdef USE_RMA_REQUESTS
 
@@ -848,8 +848,8 @@ int gmr_get_accumulate_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype
 
   // Perform checks
   MPI_Type_get_true_extent(dst_type, &lb, &extent);
-  ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size && disp + lb >= 0, "Invalid remote address");
+  ARMCII_Assert_msg(disp + lb + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");
 
 #ifdef USE_RMA_REQUESTS
 
-- 
2.43.0


From 3316c8e69ec8f223e17c836772318d5fb5755bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 06/34] fix: check the range of contiguous transfers to the
 caller's own memory

---
 src/onesided.c    | 4 ++++
 src/onesided_nb.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/onesided.c b/src/onesided.c
index 490626a..05ecf91 100644
--- a/src/onesided.c
+++ b/src/onesided.c
@@ -99,6 +99,8 @@ int PARMCI_Get(void *src, void *dst, int size, int target) {
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+    ARMCII_Assert_msg((uint8_t*)src + size <= (uint8_t*)src_mreg->slices[target].base + src_mreg->slices[target].size,
+                      "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
 
@@ -162,6 +164,8 @@ int PARMCI_Put(void *src, void *dst, int size, int target) {
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+    ARMCII_Assert_msg((uint8_t*)dst + size <= (uint8_t*)dst_mreg->slices[target].base + dst_mreg->slices[target].size,
+                      "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
 
diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index fb3da2b..7fb4228 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -97,6 +97,8 @@ int PARMCI_NbPut(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+      ARMCII_Assert_msg((uint8_t*)dst + size <= (uint8_t*)dst_mreg->slices[target].base + dst_mreg->slices[target].size,
+                        "Transfer is out of range");
       ARMCI_Copy(src, dst, size);
   }
   else {
@@ -136,6 +138,8 @@ int PARMCI_NbGet(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+    ARMCII_Assert_msg((uint8_t*)src + size <= (uint8_t*)src_mreg->slices[target].base + src_mreg->slices[target].size,
+                      "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
   else {
-- 
2.43.0


From 7ad823b88df7e75f9421fd9833211b0a4cdeb782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 07/34] fix: check the whole range of a read-modify-write

---
 src/gmr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gmr.c b/src/gmr.c
index 220c668..8974a8c 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -905,7 +905,7 @@ int gmr_get_accumulate_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype
 int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
 		MPI_Datatype type, MPI_Op op, int proc)
 {
-  int        grp_proc;
+  int        grp_proc, type_size;
   gmr_size_t disp;
 
   grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
@@ -917,7 +917,8 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
 
   // Perform checks
   ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp <= mreg->slices[proc].size, "Transfer is out of range");
+  MPI_Type_size(type, &type_size);
+  ARMCII_Assert_msg(disp + type_size <= mreg->slices[proc].size, "Transfer is out of range");
 
   if (ARMCII_GLOBAL_STATE.use_request_atomics) {
 
-- 
2.43.0


From 4f8678619df35aecf2e4e89350fc287d06e6d989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 08/34] fix: complete a swap at the target on the fetch-and-op
 path

---
 src/gmr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gmr.c b/src/gmr.c
index 8974a8c..00c3a18 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -935,7 +935,8 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
   } else {
 
     MPI_Fetch_and_op(src, out, type, grp_proc, (MPI_Aint) disp, op, mreg->window);
-    if (ARMCII_GLOBAL_STATE.end_to_end_flush) {
+    /* As above: local completion does not make a SWAP visible at the target. */
+    if (op == MPI_REPLACE || ARMCII_GLOBAL_STATE.end_to_end_flush) {
       MPI_Win_flush(grp_proc, mreg->window);
     } else {
       MPI_Win_flush_local(grp_proc, mreg->window);
-- 
2.43.0


From 1b9c3b41f0a81fc221e508ce6938e74a61698ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 09/34] fix: allow fencing and waiting for a process outside of
 a group with allocations

---
 src/gmr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/gmr.c b/src/gmr.c
index 00c3a18..31ff1f4 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -991,7 +991,10 @@ int gmr_flush(gmr_t *mreg, int proc, int local_only) {
   int grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
   int grp_me   = ARMCII_Translate_absolute_to_group(&mreg->group, ARMCI_GROUP_WORLD.rank);
 
-  ARMCII_Assert(grp_proc >= 0 && grp_me >= 0);
+  /* A process outside of the region's group cannot be the target of any operation on it */
+  if (grp_proc < 0) return 0;
+
+  ARMCII_Assert(grp_me >= 0);
   ARMCII_Assert_msg(mreg->window != MPI_WIN_NULL, "A non-null mreg contains a null window.");
   ARMCII_Assert_msg(grp_proc < mreg->group.size, "grp_proc exceeds group size!");
 
-- 
2.43.0


From acb8abfde37f8900bb0041b18c887dd14c32774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 10/34] fix: report an inactive handle as complete from
 ARMCI_Test

---
 src/onesided_nb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index 7fb4228..2d6cd38 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -333,6 +333,7 @@ int PARMCI_Test(armci_hdl_t* handle)
   } else if (handle->batch_size == 0) {
 
     ARMCII_Warning("ARMCI_Test passed an inactive handle.\n");
+    flag = 1; /* nothing is outstanding */
 
   } else if (handle->batch_size == 1) {
 
-- 
2.43.0


From 1178021826b1fd92483d0f6b9ba5bb7c241825dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 11/34] fix: report success from ARMCI_PutS_flag

---
 src/strided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strided.c b/src/strided.c
index 320cf35..3d6fe71 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -635,7 +635,7 @@ int PARMCI_PutS_flag(void *src_ptr, int src_stride_ar[/*stride_levels*/],
   PARMCI_Fence(proc);
   PARMCI_Put(&value, flag, sizeof(int), proc);
 
-  return 1;
+  return 0;
 }
 
 
-- 
2.43.0


From 2fa771d35db3f71e5f556cd50f0aab20e38894f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 12/34] fix: take absolute values in a reduction over a single
 node

---
 src/message_gop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message_gop.c b/src/message_gop.c
index dd2f8d1..6855bca 100644
--- a/src/message_gop.c
+++ b/src/message_gop.c
@@ -204,7 +204,7 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
 
   // ABS MAX/MIN are unary as well as binary.  We need to also apply abs in the
   // single processor case when reduce would normally just be a no-op.
-  if (group->size == 1 && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
+  if ((group->size == 1 || comm == MPI_COMM_SELF) && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
     ARMCII_Absv_op(x_buf[0], x_buf[0], &n, &mpi_type);
   }
 
-- 
2.43.0


From f43e7fcd115c53429525ebccf5dac86e86addcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 13/34] fix: keep a selection packet in one piece in the
 reduction

---
 src/message.c | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/message.c b/src/message.c
index 2bcb5f5..91aa90e 100644
--- a/src/message.c
+++ b/src/message.c
@@ -300,12 +300,17 @@ MPI_Op ARMCI_MPI_SELMAX_OP;
   */
 void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
   sel_data_t *sd_1, *sd_2;
+  int         size;
+
+  /* The whole packet is one element of datatype, so MPI never splits it */
+  MPI_Type_size(*datatype, &size);
+  size *= *len;
 
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
 
   if (sd_1->contribute && !sd_2->contribute) {
-    ARMCI_Copy(data_in, data_inout, *len);
+    ARMCI_Copy(data_in, data_inout, size);
   }
   
   else if (sd_1->contribute && sd_2->contribute) {
@@ -318,19 +323,19 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 
     switch (sd_1->type) {
       case ARMCI_INT:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, int);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, int);
         break;
       case ARMCI_LONG:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, long);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, long);
         break;
       case ARMCI_LONG_LONG:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, long long);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, long long);
         break;
       case ARMCI_FLOAT:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, float);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, float);
         break;
       case ARMCI_DOUBLE:
-        MSG_SEL_MIN_OP(data_in, data_inout, *len, double);
+        MSG_SEL_MIN_OP(data_in, data_inout, size, double);
         break;
       default:
         ARMCII_Error("Invalid data type (%d)", sd_1->type);
@@ -347,12 +352,17 @@ void ARMCII_Msg_sel_min_op(void *data_in, void *data_inout, int *len, MPI_Dataty
   */
 void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Datatype *datatype) {
   sel_data_t *sd_1, *sd_2;
+  int         size;
+
+  /* The whole packet is one element of datatype, so MPI never splits it */
+  MPI_Type_size(*datatype, &size);
+  size *= *len;
 
   sd_1 = (sel_data_t*) data_in;
   sd_2 = (sel_data_t*) data_inout;
 
   if (sd_1->contribute && !sd_2->contribute) {
-    ARMCI_Copy(data_in, data_inout, *len);
+    ARMCI_Copy(data_in, data_inout, size);
   }
   
   else if (sd_1->contribute && sd_2->contribute) {
@@ -365,19 +375,19 @@ void ARMCII_Msg_sel_max_op(void *data_in, void *data_inout, int *len, MPI_Dataty
 
     switch (sd_1->type) {
       case ARMCI_INT:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, int);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, int);
         break;
       case ARMCI_LONG:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, long);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, long);
         break;
       case ARMCI_LONG_LONG:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, long long);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, long long);
         break;
       case ARMCI_FLOAT:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, float);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, float);
         break;
       case ARMCI_DOUBLE:
-        MSG_SEL_MAX_OP(data_in, data_inout, *len, double);
+        MSG_SEL_MAX_OP(data_in, data_inout, size, double);
         break;
       default:
         ARMCII_Error("Invalid data type (%d)", sd_1->type);
@@ -401,6 +411,7 @@ void armci_msg_sel(void *x, int n, char *op, int type, int contribute) {
   */
 void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int contribute) {
   MPI_Comm    sel_comm;
+  MPI_Datatype sel_type;
   sel_data_t *data_in, *data_out;
   void      **x_buf;
 
@@ -428,14 +439,19 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   if (contribute)
     ARMCI_Copy(x, data_in->data, n);
 
+  MPI_Type_contiguous(sizeof(sel_data_t)+n-1, MPI_BYTE, &sel_type);
+  MPI_Type_commit(&sel_type);
+
   if (strncmp(op, "min", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMIN_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMIN_OP, sel_comm);
   } else if (strncmp(op, "max", 3) == 0) {
-    MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMAX_OP, sel_comm);
+    MPI_Allreduce(data_in, data_out, 1, sel_type, ARMCI_MPI_SELMAX_OP, sel_comm);
   } else {
       ARMCII_Error("Invalid operation (%s)", op);
   }
 
+  MPI_Type_free(&sel_type);
+
   ARMCI_Copy(data_out->data, x, n);
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
-- 
2.43.0


From a798cfa0f3a2571a01378eaf4af3ce919ee737c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 14/34] fix: deliver the selected element into a global buffer

---
 src/message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.c b/src/message.c
index 91aa90e..42ac6f2 100644
--- a/src/message.c
+++ b/src/message.c
@@ -437,7 +437,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   data_in->type       = type;
 
   if (contribute)
-    ARMCI_Copy(x, data_in->data, n);
+    ARMCI_Copy(x_buf[0], data_in->data, n);
 
   MPI_Type_contiguous(sizeof(sel_data_t)+n-1, MPI_BYTE, &sel_type);
   MPI_Type_commit(&sel_type);
@@ -452,7 +452,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
 
   MPI_Type_free(&sel_type);
 
-  ARMCI_Copy(data_out->data, x, n);
+  ARMCI_Copy(data_out->data, x_buf[0], n);
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
 
-- 
2.43.0


From 5f6b6c67a77bf652cf0504f13888b7a233c7566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 15/34] fix: leave a receive buffer untouched beyond the
 message

---
 src/message.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/message.c b/src/message.c
index 42ac6f2..4487c91 100644
--- a/src/message.c
+++ b/src/message.c
@@ -202,14 +202,18 @@ void armci_msg_snd(int tag, void *buf_in, int nbytes, int dest) {
   */
 void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int src) {
   void     **buf;
+  int        nbytes;
   MPI_Status status;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, src, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  MPI_Get_count(&status, MPI_BYTE, &nbytes);
+
+  /* The buffer beyond the message is left as it was */
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes;
 }
 
 
@@ -223,14 +227,18 @@ void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int
   */
 int armci_msg_rcvany(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg) {
   void     **buf;
+  int        nbytes;
   MPI_Status status;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, MPI_ANY_SOURCE, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  MPI_Get_count(&status, MPI_BYTE, &nbytes);
+
+  /* The buffer beyond the message is left as it was */
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes;
 
   return status.MPI_SOURCE;
 }
-- 
2.43.0


From 29edbb1031a95d8c67e20458bf6c63630cee5b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:46 +0000
Subject: [PATCH 16/34] fix: describe a tree of one process in the scope of a
 node

---
 src/message.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 4487c91..5cc80ae 100644
--- a/src/message.c
+++ b/src/message.c
@@ -266,7 +266,8 @@ void armci_msg_bintree(int scope, int *root, int *up, int *left, int *right) {
   int me, nproc;
 
   if (scope == SCOPE_NODE) {
-    *root  = 0;
+    *root  = armci_msg_me();
+    *up    = -1;
     *left  = -1;
     *right = -1;
    
-- 
2.43.0


From 743dc856c92d8ad05abb073c11894dcb76090ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 17/34] fix: leave no garbage in the group of a process that is
 not a member

---
 src/groups.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/groups.c b/src/groups.c
index fb0b7f5..0b40230 100644
--- a/src/groups.c
+++ b/src/groups.c
@@ -37,6 +37,9 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
   else
     group->noncoll_pgroup_comm = MPI_COMM_NULL;
 
+  group->abs_to_grp = NULL;
+  group->grp_to_abs = NULL;
+
   /* Check if translation caching is enabled */
   if (ARMCII_GLOBAL_STATE.cache_rank_translation) {
     if (group->comm != MPI_COMM_NULL) {
@@ -64,12 +67,6 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
       free(ranks);
     }
   }
-  
-  /* Translation caching is disabled */
-  else {
-    group->abs_to_grp = NULL;
-    group->grp_to_abs = NULL;
-  }
 }
 
 
-- 
2.43.0


From 4eae260caaef44ccf95356f74c9e0ccd6566fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 18/34] fix: read the group settings before creating the world
 group

---
 src/init_finalize.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index e0f27fe..3c30c3b 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -199,6 +199,16 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
+  /* Group formation options - the world group needs them, too */
+
+#ifdef ARMCI_GROUP
+  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
+#endif
+  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
+    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
+  }
+  ARMCII_GLOBAL_STATE.cache_rank_translation = ARMCII_Getenv_bool("ARMCI_CACHE_RANK_TRANSLATION", 1);
+
   /* Setup groups and communicators - do this before ARMCII_Warning is called! */
 
   MPI_Comm_dup(comm, &ARMCI_GROUP_WORLD.comm);
@@ -283,16 +293,6 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
-  /* Group formation options */
-
-#ifdef ARMCI_GROUP
-  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
-#endif
-  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
-    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
-  }
-  ARMCII_GLOBAL_STATE.cache_rank_translation = ARMCII_Getenv_bool("ARMCI_CACHE_RANK_TRANSLATION", 1);
-
   /* Check for IOV and Strided flags */
 
   /* Relevant bugs:
-- 
2.43.0


From 94a1b307937ba2f9df5b267b0d13ae5064b87a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 19/34] fix: clamp integer settings before narrowing them

---
 src/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index 2229c77..540c52e 100644
--- a/src/util.c
+++ b/src/util.c
@@ -167,7 +167,7 @@ char *ARMCII_Getenv(const char *varname) {
 int ARMCII_Getenv_int(const char *varname, int default_value) {
   const char *var = getenv(varname);
   if (var) {
-    int value = atol(var);
+    long value = atol(var);
     /* clamp to the range of int, just in case */
     if (value > INT_MAX) value = INT_MAX;
     if (value < INT_MIN) value = INT_MIN;
-- 
2.43.0


From ff7055379fd0774a6ce225cee63f0eedf651f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 20/34] fix: accept every documented boolean for ARMCI_VERBOSE

---
 src/init_finalize.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index 3c30c3b..76ad518 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -226,6 +226,10 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
   /* Determine environmental settings */
 
   ARMCII_GLOBAL_STATE.verbose = ARMCII_Getenv_int("ARMCI_VERBOSE", 0);
+  if (ARMCII_GLOBAL_STATE.verbose == 0) {
+    /* it is documented as a boolean; numbers above one ask for more output */
+    ARMCII_GLOBAL_STATE.verbose = ARMCII_Getenv_bool("ARMCI_VERBOSE", 0);
+  }
 
   /* Figure out what MPI library we are using, in an attempt to work around bugs. */
   char mpi_library_version[MPI_MAX_LIBRARY_VERSION_STRING] = {0};
-- 
2.43.0


From b29fa9a5930294ff74257bd189f66d906cd3b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 21/34] fix: let the progress thread pause for a second or more

---
 src/init_finalize.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index 76ad518..ff801e4 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -41,9 +41,9 @@ static void * progress_function(void * arg)
 {
     volatile int * active = (volatile int*)arg;
 #if defined(HAVE_NANOSLEEP)
-    int naptime = 1000 * ARMCII_GLOBAL_STATE.progress_usleep;
-    struct timespec napstruct = { .tv_sec  = 0,
-                                  .tv_nsec = naptime };
+    int naptime = ARMCII_GLOBAL_STATE.progress_usleep;
+    struct timespec napstruct = { .tv_sec  = naptime / 1000000,
+                                  .tv_nsec = 1000L * (naptime % 1000000) };
 #elif defined(HAVE_USLEEP)
     int naptime = ARMCII_GLOBAL_STATE.progress_usleep;
 #endif
-- 
2.43.0


From d541e5a7ffe4ef5bd4ba4344b95a426bd43ecac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 22/34] fix: pass the same accumulate granularity on every
 process

---
 README.md             | 3 ++-
 src/gmr.c             | 3 ++-
 src/mutex_hdl_queue.c | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/README.md b/README.md
index 4102ee7..5214182 100644
--- a/README.md
+++ b/README.md
@@ -167,7 +167,8 @@ Boolean environment variables are enabled when set to a value beginning with
 `ARMCI_ACCUMULATE_GRANULARITY` (nonnegative integer)
 
   Set the `mpi_accumulate_granularity` window info hint, in bytes.  The default
-  is 1048576.  ARMCI-MPI always uses 1 for a local window smaller than 129 bytes.
+  is 1048576.  ARMCI-MPI always uses 1 for a window whose largest local part is
+  smaller than 129 bytes.
 
 ## Noncollective Groups
 
diff --git a/src/gmr.c b/src/gmr.c
index 31ff1f4..59a7328 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -142,7 +142,8 @@ gmr_t *gmr_create(gmr_size_t local_size, void **base_ptrs, ARMCI_Group *group) {
   /* tell MPICH that the disp_unit is always the same (and always 1) */
   MPI_Info_set(win_info, "same_disp_unit", "true");
 
-  ARMCII_Set_accumulate_granularity(win_info, (MPI_Aint) local_size);
+  /* every process of the window has to supply the same value */
+  ARMCII_Set_accumulate_granularity(win_info, (MPI_Aint) max_local_size);
 
   /* tell MPICH that we do not need a contiguous shared memory domain */
   MPI_Info_set(win_info, "alloc_shared_noncontig", "false");
diff --git a/src/mutex_hdl_queue.c b/src/mutex_hdl_queue.c
index c5b9360..eeb8af4 100644
--- a/src/mutex_hdl_queue.c
+++ b/src/mutex_hdl_queue.c
@@ -65,7 +65,7 @@ armcix_mutex_hdl_t ARMCIX_Create_mutexes_hdl(int my_count, ARMCI_Group *pgroup)
     }
 
     MPI_Info_create(&info);
-    ARMCII_Set_accumulate_granularity(info, size);
+    ARMCII_Set_accumulate_granularity(info, nproc); /* the same on every process */
     MPI_Win_create(base, size, sizeof(uint8_t), info, hdl->grp.comm, &hdl->windows[i]);
     MPI_Info_free(&info);
   }
-- 
2.43.0


From 127178a158c2a5dceca9e506dcc3b0bef2c521db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 23/34] fix: do not overflow the version string of Intel MPI

---
 src/init_finalize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index ff801e4..de2fd71 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -149,7 +149,7 @@ static void ARMCII_Parse_library_version(char * library_version, enum ARMCII_MPI
       char impi_patch[6] = {0}; /* ".PrcX" is max since major=2+ */
       for (int major = 2030; major >= 2000; major--) {
         for (int minor = 30; minor >= 0; minor--) {
-          char version_string[7] = {0};
+          char version_string[8] = {0}; /* "2030.30" */
           sprintf(version_string,"%d.%d",major,minor);
           char * p = strstr(library_version,version_string);
           if (p != NULL) {
-- 
2.43.0


From 8c1df3ec63507e08bc1599b4424899370b2e0754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 24/34] fix: do not negate the smallest progress thread pause

---
 src/init_finalize.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index de2fd71..f4eb702 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -2,6 +2,8 @@
  * Copyright (C) 2010. See COPYRIGHT in top-level directory.
  */
 
+#include <limits.h>
+
 #include <armci.h>
 #include <armci_internals.h>
 #include <debug.h>
@@ -280,7 +282,7 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     if (ARMCII_GLOBAL_STATE.progress_thread && (ARMCII_GLOBAL_STATE.progress_usleep < 0)) {
         ARMCII_Warning("ARMCI progress thread is not a time machine. (%d)\n",
                        ARMCII_GLOBAL_STATE.progress_usleep);
-        ARMCII_GLOBAL_STATE.progress_usleep = -ARMCII_GLOBAL_STATE.progress_usleep;
+        ARMCII_GLOBAL_STATE.progress_usleep = ARMCII_GLOBAL_STATE.progress_usleep == INT_MIN ? INT_MAX : -ARMCII_GLOBAL_STATE.progress_usleep;
     }
 #endif /* HAVE_PTHREADS */
 #endif /* ENABLE_PROGRESS */
-- 
2.43.0


From cf3e8ed9059296fcb406f6765c406e8e432001c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 25/34] fix: keep program order of self-targeted transfers with
 RMA_ATOMICITY

---
 src/onesided.c    | 12 ++++++++----
 src/onesided_nb.c | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/onesided.c b/src/onesided.c
index 05ecf91..8f02567 100644
--- a/src/onesided.c
+++ b/src/onesided.c
@@ -97,8 +97,10 @@ int PARMCI_Get(void *src, void *dst, int size, int target) {
 
   ARMCII_Assert_msg(src_mreg != NULL, "Invalid remote pointer");
 
-  /* Local operation */
-  if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+  /* Local operation.  Element-wise atomic transfers must go through MPI RMA, or
+   * they would not be ordered with the process's other operations. */
+  if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL &&
+      !ARMCII_GLOBAL_STATE.rma_atomicity) {
     ARMCII_Assert_msg((uint8_t*)src + size <= (uint8_t*)src_mreg->slices[target].base + src_mreg->slices[target].size,
                       "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
@@ -162,8 +164,10 @@ int PARMCI_Put(void *src, void *dst, int size, int target) {
 
   ARMCII_Assert_msg(dst_mreg != NULL, "Invalid remote pointer");
 
-  /* Local operation */
-  if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+  /* Local operation.  Element-wise atomic transfers must go through MPI RMA, or
+   * they would not be ordered with the process's other operations. */
+  if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL &&
+      !ARMCII_GLOBAL_STATE.rma_atomicity) {
     ARMCII_Assert_msg((uint8_t*)dst + size <= (uint8_t*)dst_mreg->slices[target].base + dst_mreg->slices[target].size,
                       "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index 2d6cd38..ab4ae77 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -95,8 +95,10 @@ int PARMCI_NbPut(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   ARMCII_Assert_msg(dst_mreg != NULL, "Invalid remote pointer");
 
-  /* Local operation */
-  if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+  /* Local operation.  Element-wise atomic transfers must go through MPI RMA, or
+   * they would not be ordered with the process's other operations. */
+  if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL &&
+      !ARMCII_GLOBAL_STATE.rma_atomicity) {
       ARMCII_Assert_msg((uint8_t*)dst + size <= (uint8_t*)dst_mreg->slices[target].base + dst_mreg->slices[target].size,
                         "Transfer is out of range");
       ARMCI_Copy(src, dst, size);
@@ -136,8 +138,10 @@ int PARMCI_NbGet(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   ARMCII_Assert_msg(src_mreg != NULL, "Invalid remote pointer");
 
-  /* Local operation */
-  if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+  /* Local operation.  Element-wise atomic transfers must go through MPI RMA, or
+   * they would not be ordered with the process's other operations. */
+  if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL &&
+      !ARMCII_GLOBAL_STATE.rma_atomicity) {
     ARMCII_Assert_msg((uint8_t*)src + size <= (uint8_t*)src_mreg->slices[target].base + src_mreg->slices[target].size,
                       "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
-- 
2.43.0


From 2ef186b0334bc6052692676cb8a1229eec1c6abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:29 +0000
Subject: [PATCH 26/34] fix: complete read-modify-writes at the target with
 NO_FLUSH_LOCAL

---
 src/gmr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gmr.c b/src/gmr.c
index 59a7328..56bade2 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -929,7 +929,8 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
     /* Need to force a flush on SWAP (op=REPLACE) to fix spin-lock test case.
      * This is an MPI semantic issue, not an implementation problem,
      * so it should remain in the code indefinitely. */
-    if (op == MPI_REPLACE || ARMCII_GLOBAL_STATE.flush_request_atomics) {
+    if (op == MPI_REPLACE || ARMCII_GLOBAL_STATE.flush_request_atomics ||
+        ARMCII_GLOBAL_STATE.end_to_end_flush) {
       MPI_Win_flush(grp_proc, mreg->window);
     }
 
-- 
2.43.0


From 87e62e80c7cf6cf7103c97bcc9ab91e66e9eac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 27/34] fix: keep other threads from changing the region list
 while it is traversed

---
 src/gmr.c         | 27 +++++++++++++++++++++++++++
 src/gmr.h         |  2 ++
 src/onesided_nb.c | 10 ++++++++--
 src/util.c        | 15 ++++++++++++---
 4 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/src/gmr.c b/src/gmr.c
index 56bade2..d505fc6 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -463,6 +463,29 @@ int gmr_destroy_all(void) {
   return count;
 }
 
+/** Keep other threads from changing the list of memory regions while it is
+  * traversed.  A region that is found stays valid until the user frees it.
+  */
+void gmr_list_lock(void) {
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    int ptrc = pthread_mutex_lock(&gmr_list_mutex);
+    ARMCII_Assert(ptrc == 0);
+  }
+#endif
+}
+
+/** Counterpart of gmr_list_lock.
+  */
+void gmr_list_unlock(void) {
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    int ptrc = pthread_mutex_unlock(&gmr_list_mutex);
+    ARMCII_Assert(ptrc == 0);
+  }
+#endif
+}
+
 /** Lookup a shared memory region using an address and process id.
   *
   * @param[in] ptr  Pointer within range of the segment (e.g. base pointer).
@@ -472,6 +495,8 @@ int gmr_destroy_all(void) {
 gmr_t *gmr_lookup(void *ptr, int proc) {
   gmr_t *mreg;
 
+  gmr_list_lock();
+
   mreg = gmr_list;
 
   while (mreg != NULL) {
@@ -489,6 +514,8 @@ gmr_t *gmr_lookup(void *ptr, int proc) {
     mreg = mreg->next;
   }
 
+  gmr_list_unlock();
+
   return mreg;
 }
 
diff --git a/src/gmr.h b/src/gmr.h
index 602593b..a89a601 100644
--- a/src/gmr.h
+++ b/src/gmr.h
@@ -42,6 +42,8 @@ extern gmr_t *gmr_list;
 gmr_t *gmr_create(gmr_size_t local_size, void **base_ptrs, ARMCI_Group *group);
 void   gmr_destroy(gmr_t *mreg, ARMCI_Group *group);
 int    gmr_destroy_all(void);
+void   gmr_list_lock(void);
+void   gmr_list_unlock(void);
 gmr_t *gmr_lookup(void *ptr, int proc);
 
 // blocking
diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index ab4ae77..1dbabb4 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -398,12 +398,15 @@ int PARMCI_Test(armci_hdl_t* handle)
   */
 int PARMCI_WaitProc(int proc)
 {
-  gmr_t *cur_mreg = gmr_list;
+  gmr_t *cur_mreg;
 
+  gmr_list_lock();
+  cur_mreg = gmr_list;
   while (cur_mreg) {
     gmr_flush(cur_mreg, proc, 1); /* local only */
     cur_mreg = cur_mreg->next;
   }
+  gmr_list_unlock();
   return 0;
 }
 
@@ -422,12 +425,15 @@ int PARMCI_WaitProc(int proc)
   */
 int PARMCI_WaitAll(void)
 {
-  gmr_t *cur_mreg = gmr_list;
+  gmr_t *cur_mreg;
 
+  gmr_list_lock();
+  cur_mreg = gmr_list;
   while (cur_mreg) {
     gmr_flushall(cur_mreg, 1); /* local only */
     cur_mreg = cur_mreg->next;
   }
+  gmr_list_unlock();
   return 0;
 }
 
diff --git a/src/util.c b/src/util.c
index 540c52e..25a1b42 100644
--- a/src/util.c
+++ b/src/util.c
@@ -58,12 +58,15 @@ void PARMCI_Barrier(void) {
   * @param[in] proc Process to target
   */
 void PARMCI_Fence(int proc) {
-  gmr_t *cur_mreg = gmr_list;
+  gmr_t *cur_mreg;
 
+  gmr_list_lock();
+  cur_mreg = gmr_list;
   while (cur_mreg) {
     gmr_flush(cur_mreg, proc, 0);
     cur_mreg = cur_mreg->next;
   }
+  gmr_list_unlock();
   return;
 }
 
@@ -81,12 +84,15 @@ void PARMCI_Fence(int proc) {
 /** Wait for remote completion on all one-sided operations.
   */
 void PARMCI_AllFence(void) {
-  gmr_t *cur_mreg = gmr_list;
+  gmr_t *cur_mreg;
 
+  gmr_list_lock();
+  cur_mreg = gmr_list;
   while (cur_mreg) {
     gmr_flushall(cur_mreg, 0);
     cur_mreg = cur_mreg->next;
   }
+  gmr_list_unlock();
   return;
 }
 
@@ -235,10 +241,13 @@ int ARMCII_Is_win_unified(MPI_Win win)
 /** Sync all windows
   */
 void ARMCII_Sync(void) {
-  gmr_t *cur_mreg = gmr_list;
+  gmr_t *cur_mreg;
 
+  gmr_list_lock();
+  cur_mreg = gmr_list;
   while (cur_mreg) {
     gmr_sync(cur_mreg);
     cur_mreg = cur_mreg->next;
   }
+  gmr_list_unlock();
 }
-- 
2.43.0


From 8481b27b14b8136a3a3ba5934abab95998d42d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:55 +0000
Subject: [PATCH 28/34] fix: let the threads of one process share ARMCI mutexes

Two threads of one process that asked for the same mutex were both told that
they hold it (the queue protocol only knows processes), and a thread blocked in
ARMCI_Lock kept the lock that ARMCI_Unlock of another thread needs.
---
 src/armcix.h          |  2 ++
 src/mutex.c           | 26 ++++++++------
 src/mutex_hdl_queue.c | 83 +++++++++++++++++++++++++++++++++++++++++--
 3 files changed, 99 insertions(+), 12 deletions(-)

diff --git a/src/armcix.h b/src/armcix.h
index f4a5ad5..178e0d8 100644
--- a/src/armcix.h
+++ b/src/armcix.h
@@ -31,6 +31,8 @@ struct armcix_mutex_hdl_s {
   ARMCI_Group grp;
   MPI_Win    *windows;
   uint8_t   **bases;
+  int         tag_per_host; /* notifications of different hosts have different tags */
+  void       *threads;      /* mutexes held by the threads of this process */
 };
 
 typedef struct armcix_mutex_hdl_s * armcix_mutex_hdl_t;
diff --git a/src/mutex.c b/src/mutex.c
index ef0f533..1864a78 100644
--- a/src/mutex.c
+++ b/src/mutex.c
@@ -134,11 +134,7 @@ void PARMCI_Lock(int mutex, int proc) {
   }
 #endif
 
-  if (armci_mutex_hdl == NULL) {
-    ARMCII_Error("attempted to lock on unallocated ARMCI mutexes");
-  }
-
-  ARMCIX_Lock_hdl(armci_mutex_hdl, mutex, proc);
+  armcix_mutex_hdl_t hdl = armci_mutex_hdl;
 
 #ifdef HAVE_PTHREADS
   if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
@@ -146,6 +142,14 @@ void PARMCI_Lock(int mutex, int proc) {
     ARMCII_Assert(ptrc == 0);
   }
 #endif
+
+  if (hdl == NULL) {
+    ARMCII_Error("attempted to lock on unallocated ARMCI mutexes");
+  }
+
+  /* The call may have to wait for a mutex that another thread of this process
+   * holds, so it must not keep that thread from releasing the mutex. */
+  ARMCIX_Lock_hdl(hdl, mutex, proc);
 }
 
 
@@ -173,11 +177,7 @@ void PARMCI_Unlock(int mutex, int proc) {
   }
 #endif
 
-  if (armci_mutex_hdl == NULL) {
-    ARMCII_Error("attempted to unlock on unallocated ARMCI mutexes");
-  }
-
-  ARMCIX_Unlock_hdl(armci_mutex_hdl, mutex, proc);
+  armcix_mutex_hdl_t hdl = armci_mutex_hdl;
 
 #ifdef HAVE_PTHREADS
   if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
@@ -185,4 +185,10 @@ void PARMCI_Unlock(int mutex, int proc) {
     ARMCII_Assert(ptrc == 0);
   }
 #endif
+
+  if (hdl == NULL) {
+    ARMCII_Error("attempted to unlock on unallocated ARMCI mutexes");
+  }
+
+  ARMCIX_Unlock_hdl(hdl, mutex, proc);
 }
diff --git a/src/mutex_hdl_queue.c b/src/mutex_hdl_queue.c
index eeb8af4..0f54fca 100644
--- a/src/mutex_hdl_queue.c
+++ b/src/mutex_hdl_queue.c
@@ -13,6 +13,51 @@
 
 #define ARMCI_MUTEX_TAG 100
 
+#ifdef HAVE_PTHREADS
+/** The queue protocol arbitrates between processes; between the threads of one
+  * process, only the thread that holds the mutex here takes part in it.
+  */
+struct mutex_threads {
+  pthread_mutex_t lock;
+  pthread_cond_t  released;
+  char           *held;
+};
+#endif
+
+static void mutex_thread_enter(armcix_mutex_hdl_t hdl, int mutex, int nproc, int proc) {
+#ifdef HAVE_PTHREADS
+  struct mutex_threads *t = hdl->threads;
+
+  if (t != NULL) {
+    pthread_mutex_lock(&t->lock);
+    while (t->held[(size_t)mutex*nproc + proc])
+      pthread_cond_wait(&t->released, &t->lock);
+    t->held[(size_t)mutex*nproc + proc] = 1;
+    pthread_mutex_unlock(&t->lock);
+  }
+#endif
+}
+
+static void mutex_thread_leave(armcix_mutex_hdl_t hdl, int mutex, int nproc, int proc) {
+#ifdef HAVE_PTHREADS
+  struct mutex_threads *t = hdl->threads;
+
+  if (t != NULL) {
+    pthread_mutex_lock(&t->lock);
+    t->held[(size_t)mutex*nproc + proc] = 0;
+    pthread_cond_broadcast(&t->released);
+    pthread_mutex_unlock(&t->lock);
+  }
+#endif
+}
+
+/** Tag of the notifications of a mutex.  Threads of one process may wait for
+  * mutexes with the same number on different hosts.
+  */
+static int mutex_tag(armcix_mutex_hdl_t hdl, int mutex, int nproc, int proc) {
+  return ARMCI_MUTEX_TAG + (hdl->tag_per_host ? mutex*nproc + proc : mutex);
+}
+
 /* TODO: Make these all no-ops for sequential runs */
 
 /** Create a group of ARMCI mutexes.  Collective onthe ARMCI group.
@@ -70,6 +115,26 @@ armcix_mutex_hdl_t ARMCIX_Create_mutexes_hdl(int my_count, ARMCI_Group *pgroup)
     MPI_Info_free(&info);
   }
 
+  {
+    int *tag_ub, flag;
+    MPI_Comm_get_attr(MPI_COMM_WORLD, MPI_TAG_UB, &tag_ub, &flag);
+    hdl->tag_per_host = flag && ARMCI_MUTEX_TAG + (long long)max_count*nproc <= *tag_ub;
+  }
+
+  hdl->threads = NULL;
+#ifdef HAVE_PTHREADS
+  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {
+    struct mutex_threads *t = malloc(sizeof(struct mutex_threads));
+    ARMCII_Assert(t != NULL);
+    t->held = calloc((size_t)max_count*nproc, 1);
+    ARMCII_Assert(t->held != NULL);
+    pthread_mutex_init(&t->lock, NULL);
+    pthread_cond_init(&t->released, NULL);
+    hdl->threads = t;
+    ARMCII_Assert_msg(hdl->tag_per_host, "Too many mutexes for multithreaded use");
+  }
+#endif
+
   return hdl;
 }
 
@@ -93,6 +158,16 @@ int ARMCIX_Destroy_mutexes_hdl(armcix_mutex_hdl_t hdl) {
     free(hdl->bases);
   }
 
+#ifdef HAVE_PTHREADS
+  if (hdl->threads != NULL) {
+    struct mutex_threads *t = hdl->threads;
+    pthread_cond_destroy(&t->released);
+    pthread_mutex_destroy(&t->lock);
+    free(t->held);
+    free(t);
+  }
+#endif
+
   ARMCI_Group_free(&hdl->grp);
   free(hdl->windows);
   free(hdl);
@@ -120,6 +195,8 @@ void ARMCIX_Lock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
   proc = ARMCII_Translate_absolute_to_group(&hdl->grp, world_proc);
   ARMCII_Assert(proc >= 0);
 
+  mutex_thread_enter(hdl, mutex, nproc, proc);
+
   buf = malloc(nproc*sizeof(uint8_t));
   ARMCII_Assert(buf != NULL);
 
@@ -153,7 +230,7 @@ void ARMCIX_Lock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
   if (already_locked) {
     MPI_Status status;
     ARMCII_Dbg_print(DEBUG_CAT_MUTEX, "waiting for notification [proc = %d, mutex = %d]\n", proc, mutex);
-    MPI_Recv(NULL, 0, MPI_BYTE, MPI_ANY_SOURCE, ARMCI_MUTEX_TAG+mutex, hdl->grp.comm, &status);
+    MPI_Recv(NULL, 0, MPI_BYTE, MPI_ANY_SOURCE, mutex_tag(hdl, mutex, nproc, proc), hdl->grp.comm, &status);
   }
 
   ARMCII_Dbg_print(DEBUG_CAT_MUTEX, "lock acquired [proc = %d, mutex = %d]\n", proc, mutex);
@@ -223,11 +300,13 @@ void ARMCIX_Unlock_hdl(armcix_mutex_hdl_t hdl, int mutex, int world_proc) {
     int p = (rank + i) % nproc;
     if (buf[p] == 1) {
       ARMCII_Dbg_print(DEBUG_CAT_MUTEX, "notifying %d [proc = %d, mutex = %d]\n", p, proc, mutex);
-      MPI_Send(NULL, 0, MPI_BYTE, p, ARMCI_MUTEX_TAG+mutex, hdl->grp.comm);
+      MPI_Send(NULL, 0, MPI_BYTE, p, mutex_tag(hdl, mutex, nproc, proc), hdl->grp.comm);
       break;
     }
   }
 
   ARMCII_Dbg_print(DEBUG_CAT_MUTEX, "lock released [proc = %d, mutex = %d]\n", proc, mutex);
   free(buf);
+
+  mutex_thread_leave(hdl, mutex, nproc, proc);
 }
-- 
2.43.0


From 4016d9e803df6d15b0c65d3dee45d99c76360fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 29/34] fix: accept zero-length transfers when MPI_Alloc_mem
 returns no memory for zero bytes

---
 src/armci_internals.h |  1 +
 src/buffer.c          | 25 +++++++++++++++++++++----
 src/onesided.c        |  8 ++++----
 src/onesided_nb.c     |  4 ++--
 src/strided.c         |  8 ++++----
 src/strided_nb.c      |  8 ++++----
 6 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/armci_internals.h b/src/armci_internals.h
index 720fb4f..8781d4a 100644
--- a/src/armci_internals.h
+++ b/src/armci_internals.h
@@ -223,6 +223,7 @@ int  ARMCII_Iov_iter_next(armcii_iov_iter_t *it, void **src, void **dst);
 
 /* Shared to private buffer management routines */
 
+void *ARMCII_Buf_alloc(MPI_Aint size);
 int  ARMCII_Buf_prepare_read_vec(void **orig_bufs, void ***new_bufs_ptr, int count, int size);
 void ARMCII_Buf_finish_read_vec(void **orig_bufs, void **new_bufs, int count, int size);
 int  ARMCII_Buf_prepare_acc_vec(void **orig_bufs, void ***new_bufs_ptr, int count, int size,
diff --git a/src/buffer.c b/src/buffer.c
index 28c15f8..19221b6 100644
--- a/src/buffer.c
+++ b/src/buffer.c
@@ -13,6 +13,23 @@
 #include <debug.h>
 
 
+/** Allocate a temporary communication buffer.  Release it with MPI_Free_mem.
+  * The MPI library may return no memory for a buffer of zero bytes, which is not
+  * an error.
+  *
+  * @param[in] size Size of the buffer in bytes
+  * @return         Address of the buffer
+  */
+void *ARMCII_Buf_alloc(MPI_Aint size) {
+  void *buf = NULL;
+
+  MPI_Alloc_mem(size > 0 ? size : 1, MPI_INFO_NULL, &buf);
+  ARMCII_Assert(buf != NULL);
+
+  return buf;
+}
+
+
 /** Prepare a set of buffers for use with a put operation.  The returned set of
   * buffers is guaranteed to be in private space.  Copies will be made if needed,
   * the result should be completed by finish.
@@ -39,7 +56,7 @@ int ARMCII_Buf_prepare_read_vec(void **orig_bufs, void ***new_bufs_ptr, int coun
       gmr_t *mreg = gmr_lookup(orig_bufs[i], ARMCI_GROUP_WORLD.rank);
 
       if (mreg != NULL) {
-        MPI_Alloc_mem(size, MPI_INFO_NULL, &new_bufs[i]);
+        new_bufs[i] = ARMCII_Buf_alloc(size);
         ARMCII_Assert(new_bufs[i] != NULL);
 
         ARMCI_Copy(orig_bufs[i], new_bufs[i], size);
@@ -120,7 +137,7 @@ int ARMCII_Buf_prepare_acc_vec(void **orig_bufs, void ***new_bufs_ptr, int count
      * datatype path (ARMCII_Iov_op_datatype); a single allocation keeps every segment
      * within one small, bounded span. */
     char *contig;
-    MPI_Alloc_mem((MPI_Aint)count*size, MPI_INFO_NULL, &contig);
+    contig = ARMCII_Buf_alloc((MPI_Aint)count*size);
     ARMCII_Assert(contig != NULL);
     new_bufs[count] = contig;
 
@@ -140,7 +157,7 @@ int ARMCII_Buf_prepare_acc_vec(void **orig_bufs, void ***new_bufs_ptr, int count
 
       if (mreg != NULL) {
         // The buffer is shared; copy it into a private buffer
-        MPI_Alloc_mem(size, MPI_INFO_NULL, &new_bufs[i]);
+        new_bufs[i] = ARMCII_Buf_alloc(size);
         ARMCII_Assert(new_bufs[i] != NULL);
 
         ARMCI_Copy(orig_bufs[i], new_bufs[i], size);
@@ -210,7 +227,7 @@ int ARMCII_Buf_prepare_write_vec(void **orig_bufs, void ***new_bufs_ptr, int cou
       gmr_t *mreg = gmr_lookup(orig_bufs[i], ARMCI_GROUP_WORLD.rank);
 
       if (mreg != NULL) {
-        MPI_Alloc_mem(size, MPI_INFO_NULL, &new_bufs[i]);
+        new_bufs[i] = ARMCII_Buf_alloc(size);
         ARMCII_Assert(new_bufs[i] != NULL);
         num_moved++;
       } else {
diff --git a/src/onesided.c b/src/onesided.c
index 8f02567..0962c36 100644
--- a/src/onesided.c
+++ b/src/onesided.c
@@ -118,7 +118,7 @@ int PARMCI_Get(void *src, void *dst, int size, int target) {
   else {
     void *dst_buf;
 
-    MPI_Alloc_mem(size, MPI_INFO_NULL, &dst_buf);
+    dst_buf = ARMCII_Buf_alloc(size);
     ARMCII_Assert(dst_buf != NULL);
 
     gmr_get(src_mreg, src, dst_buf, size, target, NULL /* handle */);
@@ -185,7 +185,7 @@ int PARMCI_Put(void *src, void *dst, int size, int target) {
   else {
     void *src_buf;
 
-    MPI_Alloc_mem(size, MPI_INFO_NULL, &src_buf);
+    src_buf = ARMCII_Buf_alloc(size);
     ARMCII_Assert(src_buf != NULL);
 
     ARMCI_Copy(src, src_buf, size);
@@ -243,7 +243,7 @@ int PARMCI_Acc(int datatype, void *scale, void *src, void *dst, int bytes, int p
   scaled = ARMCII_Buf_acc_is_scaled(datatype, scale);
 
   if (scaled) {
-      MPI_Alloc_mem(bytes, MPI_INFO_NULL, &src_buf);
+      src_buf = ARMCII_Buf_alloc(bytes);
       ARMCII_Assert(src_buf != NULL);
       ARMCII_Buf_acc_scale(src, src_buf, bytes, datatype, scale);
   } else {
@@ -254,7 +254,7 @@ int PARMCI_Acc(int datatype, void *scale, void *src, void *dst, int bytes, int p
   if (   (src_buf == src) /* buf_prepare didn't make a copy */
       && (ARMCII_GLOBAL_STATE.shr_buf_method == ARMCII_SHR_BUF_COPY || src_mreg == dst_mreg) )
   {
-    MPI_Alloc_mem(bytes, MPI_INFO_NULL, &src_buf);
+    src_buf = ARMCII_Buf_alloc(bytes);
     ARMCII_Assert(src_buf != NULL);
     ARMCI_Copy(src, src_buf, bytes);
   }
diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index 1dbabb4..73fb455 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -190,7 +190,7 @@ int PARMCI_NbAcc(int datatype, void *scale, void *src, void *dst, int bytes, int
   scaled = ARMCII_Buf_acc_is_scaled(datatype, scale);
 
   if (scaled) {
-      MPI_Alloc_mem(bytes, MPI_INFO_NULL, &src_buf);
+      src_buf = ARMCII_Buf_alloc(bytes);
       ARMCII_Assert(src_buf != NULL);
       ARMCII_Buf_acc_scale(src, src_buf, bytes, datatype, scale);
   } else {
@@ -201,7 +201,7 @@ int PARMCI_NbAcc(int datatype, void *scale, void *src, void *dst, int bytes, int
   if (   (src_buf == src) /* buf_prepare didn't make a copy */
       && (ARMCII_GLOBAL_STATE.shr_buf_method == ARMCII_SHR_BUF_COPY || src_mreg == dst_mreg) )
   {
-    MPI_Alloc_mem(bytes, MPI_INFO_NULL, &src_buf);
+    src_buf = ARMCII_Buf_alloc(bytes);
     ARMCII_Assert(src_buf != NULL);
     ARMCI_Copy(src, src_buf, bytes);
   }
diff --git a/src/strided.c b/src/strided.c
index 3d6fe71..a66fceb 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -102,7 +102,7 @@ int PARMCI_PutS(void *src_ptr, int src_stride_ar[/*stride_levels*/],
         for (i = 1, size = count[0]; i < stride_levels+1; i++)
           size *= count[i];
 
-        MPI_Alloc_mem(size, MPI_INFO_NULL, &src_buf);
+        src_buf = ARMCII_Buf_alloc(size);
         ARMCII_Assert(src_buf != NULL);
 
         armci_write_strided(src_ptr, stride_levels, src_stride_ar, count, src_buf);
@@ -204,7 +204,7 @@ int PARMCI_GetS(void *src_ptr, int src_stride_ar[/*stride_levels*/],
         for (i = 1, size = count[0]; i < stride_levels+1; i++)
           size *= count[i];
 
-        MPI_Alloc_mem(size, MPI_INFO_NULL, &dst_buf);
+        dst_buf = ARMCII_Buf_alloc(size);
         ARMCII_Assert(dst_buf != NULL);
 
         MPI_Type_contiguous(size, MPI_BYTE, &dst_type);
@@ -314,7 +314,7 @@ int PARMCI_AccS(int datatype, void *scale,
       for (i = 1, nelem = count[0]/mpi_datatype_size; i < stride_levels+1; i++)
         nelem *= count[i];
 
-      MPI_Alloc_mem(nelem*mpi_datatype_size, MPI_INFO_NULL, &src_buf);
+      src_buf = ARMCII_Buf_alloc(nelem*mpi_datatype_size);
       ARMCII_Assert(src_buf != NULL);
 
       /* Shoehorn the strided information into an IOV */
@@ -339,7 +339,7 @@ int PARMCI_AccS(int datatype, void *scale,
         for (i = 1, nelem = count[0]/mpi_datatype_size; i < stride_levels+1; i++)
           nelem *= count[i];
 
-        MPI_Alloc_mem(nelem*mpi_datatype_size, MPI_INFO_NULL, &src_buf);
+        src_buf = ARMCII_Buf_alloc(nelem*mpi_datatype_size);
         ARMCII_Assert(src_buf != NULL);
 
         armci_write_strided(src_ptr, stride_levels, src_stride_ar, count, src_buf);
diff --git a/src/strided_nb.c b/src/strided_nb.c
index 19e9e59..bb0ff85 100644
--- a/src/strided_nb.c
+++ b/src/strided_nb.c
@@ -57,7 +57,7 @@ int PARMCI_NbPutS(void *src_ptr, int src_stride_ar[/*stride_levels*/],
         for (i = 1, size = count[0]; i < stride_levels+1; i++)
           size *= count[i];
 
-        MPI_Alloc_mem(size, MPI_INFO_NULL, &src_buf);
+        src_buf = ARMCII_Buf_alloc(size);
         ARMCII_Assert(src_buf != NULL);
 
         armci_write_strided(src_ptr, stride_levels, src_stride_ar, count, src_buf);
@@ -161,7 +161,7 @@ int PARMCI_NbGetS(void *src_ptr, int src_stride_ar[/*stride_levels*/],
         for (i = 1, size = count[0]; i < stride_levels+1; i++)
           size *= count[i];
 
-        MPI_Alloc_mem(size, MPI_INFO_NULL, &dst_buf);
+        dst_buf = ARMCII_Buf_alloc(size);
         ARMCII_Assert(dst_buf != NULL);
 
         MPI_Type_contiguous(size, MPI_BYTE, &dst_type);
@@ -272,7 +272,7 @@ int PARMCI_NbAccS(int datatype, void *scale,
       for (i = 1, nelem = count[0]/mpi_datatype_size; i < stride_levels+1; i++)
         nelem *= count[i];
 
-      MPI_Alloc_mem(nelem*mpi_datatype_size, MPI_INFO_NULL, &src_buf);
+      src_buf = ARMCII_Buf_alloc(nelem*mpi_datatype_size);
       ARMCII_Assert(src_buf != NULL);
 
       /* Shoehorn the strided information into an IOV */
@@ -297,7 +297,7 @@ int PARMCI_NbAccS(int datatype, void *scale,
         for (i = 1, nelem = count[0]/mpi_datatype_size; i < stride_levels+1; i++)
           nelem *= count[i];
 
-        MPI_Alloc_mem(nelem*mpi_datatype_size, MPI_INFO_NULL, &src_buf);
+        src_buf = ARMCII_Buf_alloc(nelem*mpi_datatype_size);
         ARMCII_Assert(src_buf != NULL);
 
         armci_write_strided(src_ptr, stride_levels, src_stride_ar, count, src_buf);
-- 
2.43.0


From 8dde54d376e75f4e51887468106004ed4622fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:23 +0000
Subject: [PATCH 30/34] fix: strided transfers with a zero count in an inner
 dimension

---
 src/strided.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index a66fceb..7c57ee3 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -443,12 +443,11 @@ void ARMCII_Strided_to_iov(armci_giov_t *iov,
     for (i = 0; i < stride_levels; i++)
       idx[i] = 0;
 
-    for (xfer = 0; idx[stride_levels-1] < count[stride_levels]; xfer++) {
+    /* ptr_array_len is zero when any of the counts is zero */
+    for (xfer = 0; xfer < iov->ptr_array_len; xfer++) {
       int disp_src = 0;
       int disp_dst = 0;
 
-      ARMCII_Assert(xfer < iov->ptr_array_len);
-
       // Calculate displacements from base pointers
       for (i = 0; i < stride_levels; i++) {
         disp_src += src_stride_ar[i]*idx[i];
-- 
2.43.0


From 2ac6f08ecf1cd8124c2a910538b1bf515474bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 31/34] fix: strided and datatype IOV transfers beyond 2 GB
 (int displacement overflow)

---
 src/strided.c |  8 ++++----
 src/vector.c  | 13 ++++++++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index 7c57ee3..2fde7df 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -445,13 +445,13 @@ void ARMCII_Strided_to_iov(armci_giov_t *iov,
 
     /* ptr_array_len is zero when any of the counts is zero */
     for (xfer = 0; xfer < iov->ptr_array_len; xfer++) {
-      int disp_src = 0;
-      int disp_dst = 0;
+      MPI_Aint disp_src = 0;
+      MPI_Aint disp_dst = 0;
 
       // Calculate displacements from base pointers
       for (i = 0; i < stride_levels; i++) {
-        disp_src += src_stride_ar[i]*idx[i];
-        disp_dst += dst_stride_ar[i]*idx[i];
+        disp_src += (MPI_Aint)src_stride_ar[i]*idx[i];
+        disp_dst += (MPI_Aint)dst_stride_ar[i]*idx[i];
       }
 
       // Add to the IO Vector
diff --git a/src/vector.c b/src/vector.c
index 6183c12..a422458 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -312,7 +312,8 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     MPI_Aint      base_loc;
     void         *base_loc_ptr;
     void         *dst_win_base;
-    int           dst_win_size, i, type_size;
+    gmr_size_t    dst_win_size;
+    int           i, type_size;
     void        **buf_rem, **buf_loc;
     MPI_Aint      base_rem;
     int flush_local = 0; /* used only for MPI-3 */
@@ -362,18 +363,20 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     }
 
     for (i = 0; i < count; i++) {
-      MPI_Aint target_rem, off_loc;
+      MPI_Aint target_rem, off_loc, off_rem;
       MPI_Get_address(buf_rem[i], &target_rem);
       off_loc      = (loc_addr[i] - base_loc)/type_size;  /* element offset from base (>= 0) */
-      disp_rem[i]  = (target_rem - base_rem)/type_size;    /* element offset within the window */
+      off_rem      = (target_rem - base_rem)/type_size;    /* element offset within the window */
       block_len[i] = elem_count;
 
-      if ((loc_addr[i] - base_loc) % type_size != 0 || off_loc > INT_MAX || (target_rem - base_rem) % type_size != 0)
+      if ((loc_addr[i] - base_loc) % type_size != 0 || off_loc > INT_MAX ||
+          (target_rem - base_rem) % type_size != 0 || off_rem > INT_MAX)
         return ARMCII_Iov_op_batched(op, src, dst, count, elem_count, type, proc, 0 /* not consrv */, blocking, handle);
 
-      ARMCII_Assert_msg(disp_rem[i] >= 0 && disp_rem[i] < dst_win_size, "Invalid remote pointer");
+      ARMCII_Assert_msg(off_rem >= 0 && off_rem < dst_win_size, "Invalid remote pointer");
       ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i] <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
       disp_loc[i]  = (int)off_loc;
+      disp_rem[i]  = (int)off_rem;
     }
 
     /* Optionally chunk the blocks across several ops so the flattened datatype
-- 
2.43.0


From 323db03a355993b98b5c29b5176795af3b29c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:50 +0000
Subject: [PATCH 32/34] fix: datatype IOV transfers with many segments overflow
 the stack

---
 src/vector.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index a422458..619816e 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -305,10 +305,9 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
 
     gmr_t *mreg;
     MPI_Datatype  type_loc, type_rem;
-    int           disp_loc[count];
-    int           disp_rem[count];
-    int           block_len[count];
-    MPI_Aint      loc_addr[count];
+    int          *disp_loc;
+    int          *disp_rem;
+    MPI_Aint     *loc_addr;
     MPI_Aint      base_loc;
     void         *base_loc_ptr;
     void         *dst_win_base;
@@ -343,6 +342,12 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
 
     MPI_Get_address(dst_win_base, &base_rem);
 
+    /* On the heap: a vector can have too many segments for the stack. */
+    disp_loc = malloc(count*sizeof(int));
+    disp_rem = malloc(count*sizeof(int));
+    loc_addr = malloc(count*sizeof(MPI_Aint));
+    ARMCII_Assert(disp_loc != NULL && disp_rem != NULL && loc_addr != NULL);
+
     /* Build both origin and target as element-indexed (indexed_block) types relative to a
      * real base buffer, instead of absolute-address hindexed types used from MPI_BOTTOM:
      * osc/ucx (OMPI4/OMPI5) segfaults when handed an hindexed/MPI_BOTTOM origin datatype in
@@ -367,14 +372,18 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
       MPI_Get_address(buf_rem[i], &target_rem);
       off_loc      = (loc_addr[i] - base_loc)/type_size;  /* element offset from base (>= 0) */
       off_rem      = (target_rem - base_rem)/type_size;    /* element offset within the window */
-      block_len[i] = elem_count;
 
       if ((loc_addr[i] - base_loc) % type_size != 0 || off_loc > INT_MAX ||
           (target_rem - base_rem) % type_size != 0 || off_rem > INT_MAX)
+      {
+        free(disp_loc);
+        free(disp_rem);
+        free(loc_addr);
         return ARMCII_Iov_op_batched(op, src, dst, count, elem_count, type, proc, 0 /* not consrv */, blocking, handle);
+      }
 
       ARMCII_Assert_msg(off_rem >= 0 && off_rem < dst_win_size, "Invalid remote pointer");
-      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i] <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
+      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + elem_count <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
       disp_loc[i]  = (int)off_loc;
       disp_rem[i]  = (int)off_rem;
     }
@@ -415,6 +424,10 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
       MPI_Type_free(&type_rem);
     }
 
+    free(disp_loc);
+    free(disp_rem);
+    free(loc_addr);
+
     if (blocking) {
       gmr_flush(mreg, proc, flush_local);
     }
-- 
2.43.0


From 9356a09e70fe0bf1a26318a2fac0d8d24323f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 33/34] fix: accumulate dropped a scale factor within machine
 epsilon of one (a complex one lost its small imaginary part)

---
 src/buffer.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/buffer.c b/src/buffer.c
index 19221b6..552ba0c 100644
--- a/src/buffer.c
+++ b/src/buffer.c
@@ -294,24 +294,22 @@ int ARMCII_Buf_acc_is_scaled(int datatype, void *scale) {
       break;
 
     case ARMCI_ACC_FLT:
-      if (fabsf(*((float*)scale)-1.0f) < FLT_EPSILON)
+      if (*((float*)scale) == 1.0f)
         return 0;
       break;
 
     case ARMCI_ACC_DBL:
-      if (fabs(*((double*)scale)-1.0) < DBL_EPSILON)
+      if (*((double*)scale) == 1.0)
         return 0;
       break;
 
     case ARMCI_ACC_CPL:
-      if (fabsf(((float*)scale)[0]-1.0f) < FLT_EPSILON && 
-          fabsf(((float*)scale)[1]-0.0f) < FLT_EPSILON)
+      if (((float*)scale)[0] == 1.0f && ((float*)scale)[1] == 0.0f)
         return 0;
       break;
 
     case ARMCI_ACC_DCP:
-      if (fabs(((double*)scale)[0]-1.0) < DBL_EPSILON &&
-          fabs(((double*)scale)[1]-0.0) < DBL_EPSILON)
+      if (((double*)scale)[0] == 1.0 && ((double*)scale)[1] == 0.0)
         return 0;
       break;
 
-- 
2.43.0


From 8428dc37703c22f1828e715cbce663e344def699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:08 +0000
Subject: [PATCH 34/34] fix: check the size of a scaled accumulate before
 scaling it

---
 src/buffer.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/buffer.c b/src/buffer.c
index 552ba0c..dad68d4 100644
--- a/src/buffer.c
+++ b/src/buffer.c
@@ -335,6 +335,12 @@ int ARMCII_Buf_acc_is_scaled(int datatype, void *scale) {
 void ARMCII_Buf_acc_scale(void *buf_in, void *buf_out, int size, int datatype, void *scale) {
   int   j, nelem;
   int   type_size = -1;
+  MPI_Datatype mpi_type;
+
+  ARMCII_Acc_type_translate(datatype, &mpi_type, &type_size);
+
+  ARMCII_Assert_msg(size % type_size == 0, 
+      "Transfer size is not a multiple of the datatype size");
 
   switch (datatype) {
     case ARMCI_ACC_INT:
@@ -444,7 +450,4 @@ void ARMCII_Buf_acc_scale(void *buf_in, void *buf_out, int size, int datatype, v
     default:
       ARMCII_Error("unknown data type (%d)", datatype);
   }
-
-  ARMCII_Assert_msg(size % type_size == 0, 
-      "Transfer size is not a multiple of the datatype size");
 }
-- 
2.43.0

