From 3e357810e8845bc0f4b1bb8b91474721194647f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:57 +0000
Subject: [PATCH 01/22] fix: reject atomic read-modify-write that extends past
 the end of the target memory

---
 src/gmr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gmr.c b/src/gmr.c
index df96590..cca7995 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -907,6 +907,7 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
 {
   int        grp_proc;
   gmr_size_t disp;
+  MPI_Aint lb, extent;
 
   grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
   ARMCII_Assert(grp_proc >= 0);
@@ -916,8 +917,9 @@ int gmr_fetch_and_op(gmr_t *mreg, void *src, void *out, void *dst,
   disp = (gmr_size_t) ((uint8_t*)dst - (uint8_t*)mreg->slices[proc].base);
 
   // Perform checks
+  MPI_Type_get_true_extent(type, &lb, &extent);
   ARMCII_Assert_msg(disp >= 0 && disp < mreg->slices[proc].size, "Invalid remote address");
-  ARMCII_Assert_msg(disp <= mreg->slices[proc].size, "Transfer is out of range");
+  ARMCII_Assert_msg(disp + extent <= mreg->slices[proc].size, "Transfer is out of range");
 
   if (ARMCII_GLOBAL_STATE.use_request_atomics) {
 
-- 
2.43.0


From 2205d68e144539c3f815a964023eeae2ca3b5df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 02/22] fix: fence and wait-for-process must skip allocations
 the target process is not part of

---
 src/gmr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gmr.c b/src/gmr.c
index cca7995..9ee20f6 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -991,7 +991,11 @@ int gmr_flush(gmr_t *mreg, int proc, int local_only) {
   int grp_proc = ARMCII_Translate_absolute_to_group(&mreg->group, proc);
   int grp_me   = ARMCII_Translate_absolute_to_group(&mreg->group, ARMCI_GROUP_WORLD.rank);
 
-  ARMCII_Assert(grp_proc >= 0 && grp_me >= 0);
+  /* Nothing can be outstanding at a process that is not part of the allocation. */
+  if (grp_proc < 0)
+    return 0;
+
+  ARMCII_Assert(grp_me >= 0);
   ARMCII_Assert_msg(mreg->window != MPI_WIN_NULL, "A non-null mreg contains a null window.");
   ARMCII_Assert_msg(grp_proc < mreg->group.size, "grp_proc exceeds group size!");
 
-- 
2.43.0


From 266846b8bbf8cb68aeb28c0bb4b5d750aa26797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 03/22] fix: testing a handle with no outstanding operations
 reports completion

---
 src/onesided_nb.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index fb3da2b..54989a8 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -330,6 +330,9 @@ int PARMCI_Test(armci_hdl_t* handle)
 
     ARMCII_Warning("ARMCI_Test passed an inactive handle.\n");
 
+    /* nothing is outstanding on this handle, so it is complete */
+    flag = 1;
+
   } else if (handle->batch_size == 1) {
 
     if (handle->single_request == MPI_REQUEST_NULL) {
-- 
2.43.0


From 30e02bb52a41d2e491adc5b661eac6f3a3c4efa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 04/22] fix: nonblocking vector accumulate must not free its
 scaled copy while it is in use

---
 src/vector_nb.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vector_nb.c b/src/vector_nb.c
index ed41c6c..59d7af4 100644
--- a/src/vector_nb.c
+++ b/src/vector_nb.c
@@ -140,6 +140,11 @@ int PARMCI_NbAccV(int datatype, void *scale, armci_giov_t *iov, int iov_len, int
     overlapping = ARMCII_Iov_check_overlap(iov[v].dst_ptr_array, iov[v].ptr_array_len, iov[v].bytes);
     same_alloc  = ARMCII_Iov_check_same_allocation(iov[v].dst_ptr_array, iov[v].ptr_array_len, proc);
 
+    /* the scaled copy is freed below, so the operation must be locally complete by then */
+    if (ARMCII_Buf_acc_is_scaled(datatype, scale)) {
+      blocking = 1;
+    }
+
     ARMCII_Buf_prepare_acc_vec(iov[v].src_ptr_array, &src_buf, iov[v].ptr_array_len, iov[v].bytes, datatype, scale);
     ARMCII_Iov_op_dispatch(ARMCII_OP_ACC, src_buf, iov[v].dst_ptr_array, iov[v].ptr_array_len, iov[v].bytes, datatype,
                            overlapping, same_alloc, proc, blocking, handle);
-- 
2.43.0


From bfb2eb5f15c7a526d7aefaf5defab803e447b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 05/22] fix: conservative vector operations look up the
 allocation of every segment

---
 src/vector.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vector.c b/src/vector.c
index 850633a..6e3465c 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -263,6 +263,12 @@ int ARMCII_Iov_op_batched(enum ARMCII_Op_e op, void **src, void **dst, int count
       gmr_flush(mreg, proc, flush_local);
     }
 
+    /* In the conservative case, the segments may be in different allocations. */
+    if (consrv && i > 0) {
+      mreg = gmr_lookup(op == ARMCII_OP_GET ? src[i] : dst[i], proc);
+      ARMCII_Assert_msg(mreg != NULL, "Invalid remote pointer");
+    }
+
     switch(op) {
       case ARMCII_OP_PUT:
         gmr_put(mreg, src[i], dst[i], elem_count, proc, handle);
-- 
2.43.0


From 6fd740b2ecf045f6177d9180fb538816b925afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 06/22] fix: check the full byte length of every segment in the
 datatype vector path

---
 src/vector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 6e3465c..b8382b0 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -312,7 +312,8 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     MPI_Aint      base_loc;
     void         *base_loc_ptr;
     void         *dst_win_base;
-    int           dst_win_size, i, type_size;
+    gmr_size_t    dst_win_size;
+    int           i, type_size;
     void        **buf_rem, **buf_loc;
     MPI_Aint      base_rem;
     int flush_local = 0; /* used only for MPI-3 */
@@ -372,7 +373,7 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
       ARMCII_Assert_msg(off_loc <= INT_MAX, "Local segment span exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       ARMCII_Assert_msg((target_rem - base_rem) % type_size == 0, "Transfer size is not a multiple of type size");
       ARMCII_Assert_msg(disp_rem[i] >= 0 && disp_rem[i] < dst_win_size, "Invalid remote pointer");
-      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + block_len[i] <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
+      ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + (gmr_size_t)block_len[i]*type_size <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
       disp_loc[i]  = (int)off_loc;
     }
 
-- 
2.43.0


From ac67843f47a24e7a039b07b733761ff45d1f66f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 07/22] fix: ARMCI_PutS_flag returns zero on success

---
 src/strided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/strided.c b/src/strided.c
index 2f25954..79a8e6b 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -661,7 +661,7 @@ int PARMCI_PutS_flag(void *src_ptr, int src_stride_ar[/*stride_levels*/],
   PARMCI_Fence(proc);
   PARMCI_Put(&value, flag, sizeof(int), proc);
 
-  return 1;
+  return 0;
 }
 
 
-- 
2.43.0


From 921ab360daaf8e574d94af818307b64f26aa157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 08/22] fix: clamp integer settings before they are truncated
 to int

---
 src/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.c b/src/util.c
index 2229c77..540c52e 100644
--- a/src/util.c
+++ b/src/util.c
@@ -167,7 +167,7 @@ char *ARMCII_Getenv(const char *varname) {
 int ARMCII_Getenv_int(const char *varname, int default_value) {
   const char *var = getenv(varname);
   if (var) {
-    int value = atol(var);
+    long value = atol(var);
     /* clamp to the range of int, just in case */
     if (value > INT_MAX) value = INT_MAX;
     if (value < INT_MIN) value = INT_MIN;
-- 
2.43.0


From d8b15d955221b5442d8cd98d04c3b3b45f97448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 09/22] fix: read ARMCI_NONCOLLECTIVE_GROUPS before the world
 group is initialised

---
 src/init_finalize.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index e0f27fe..a3b46ec 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -199,6 +199,15 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
+  /* Group formation options - the world group must be set up according to them */
+
+#ifdef ARMCI_GROUP
+  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
+#endif
+  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
+    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
+  }
+
   /* Setup groups and communicators - do this before ARMCII_Warning is called! */
 
   MPI_Comm_dup(comm, &ARMCI_GROUP_WORLD.comm);
@@ -283,14 +292,8 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     }
   }
 
-  /* Group formation options */
+  /* Group formation options (noncollective_groups is set above) */
 
-#ifdef ARMCI_GROUP
-  ARMCII_GLOBAL_STATE.noncollective_groups = 1;
-#endif
-  if (ARMCII_Getenv("ARMCI_NONCOLLECTIVE_GROUPS")) {
-    ARMCII_GLOBAL_STATE.noncollective_groups = ARMCII_Getenv_bool("ARMCI_NONCOLLECTIVE_GROUPS", 0);
-  }
   ARMCII_GLOBAL_STATE.cache_rank_translation = ARMCII_Getenv_bool("ARMCI_CACHE_RANK_TRANSLATION", 1);
 
   /* Check for IOV and Strided flags */
-- 
2.43.0


From 13ba99c83008d3a06cf1fe33a5e5d547a3b739e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 10/22] fix: a group the caller is not a member of has no
 translation caches

---
 src/groups.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/groups.c b/src/groups.c
index fb0b7f5..4eec1df 100644
--- a/src/groups.c
+++ b/src/groups.c
@@ -63,6 +63,10 @@ void ARMCII_Group_init_from_comm(ARMCI_Group *group) {
 
       free(ranks);
     }
+    else {
+      group->abs_to_grp = NULL;
+      group->grp_to_abs = NULL;
+    }
   }
   
   /* Translation caching is disabled */
-- 
2.43.0


From ccec18d5d47f57e14db28aa596813b459d7b6639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 11/22] fix: strided segments further than 2 GiB apart are
 addressed correctly

---
 src/strided.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/strided.c b/src/strided.c
index 79a8e6b..daf6e78 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <stddef.h>
 
 #include <armci.h>
 #include <armci_internals.h>
@@ -470,15 +471,15 @@ void ARMCII_Strided_to_iov(armci_giov_t *iov,
       idx[i] = 0;
 
     for (xfer = 0; idx[stride_levels-1] < count[stride_levels]; xfer++) {
-      int disp_src = 0;
-      int disp_dst = 0;
+      ptrdiff_t disp_src = 0;
+      ptrdiff_t disp_dst = 0;
 
       ARMCII_Assert(xfer < iov->ptr_array_len);
 
       // Calculate displacements from base pointers
       for (i = 0; i < stride_levels; i++) {
-        disp_src += src_stride_ar[i]*idx[i];
-        disp_dst += dst_stride_ar[i]*idx[i];
+        disp_src += (ptrdiff_t)src_stride_ar[i]*idx[i];
+        disp_dst += (ptrdiff_t)dst_stride_ar[i]*idx[i];
       }
 
       // Add to the IO Vector
-- 
2.43.0


From 2ec228b672b6a5465b7e54a7b785d22f40fc2fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 12/22] fix: remote offsets in the datatype vector path are
 checked before they are truncated

---
 src/vector.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index b8382b0..d60f40c 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -363,18 +363,20 @@ int ARMCII_Iov_op_datatype(enum ARMCII_Op_e op, void **src, void **dst, int coun
     }
 
     for (i = 0; i < count; i++) {
-      MPI_Aint target_rem, off_loc;
+      MPI_Aint target_rem, off_loc, off_rem;
       MPI_Get_address(buf_rem[i], &target_rem);
       off_loc      = (loc_addr[i] - base_loc)/type_size;  /* element offset from base (>= 0) */
-      disp_rem[i]  = (target_rem - base_rem)/type_size;    /* element offset within the window */
+      off_rem      = (target_rem - base_rem)/type_size;    /* element offset within the window */
       block_len[i] = elem_count;
 
       ARMCII_Assert_msg((loc_addr[i] - base_loc) % type_size == 0, "Local transfer offset is not a multiple of type size");
       ARMCII_Assert_msg(off_loc <= INT_MAX, "Local segment span exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       ARMCII_Assert_msg((target_rem - base_rem) % type_size == 0, "Transfer size is not a multiple of type size");
-      ARMCII_Assert_msg(disp_rem[i] >= 0 && disp_rem[i] < dst_win_size, "Invalid remote pointer");
+      ARMCII_Assert_msg(off_rem >= 0 && off_rem < dst_win_size, "Invalid remote pointer");
+      ARMCII_Assert_msg(off_rem <= INT_MAX, "Remote segment offset exceeds 32-bit element displacement; use ARMCI_IOV_METHOD=BATCHED");
       ARMCII_Assert_msg(((uint8_t*)buf_rem[i]) + (gmr_size_t)block_len[i]*type_size <= ((uint8_t*)dst_win_base) + dst_win_size, "Transfer exceeds buffer length");
       disp_loc[i]  = (int)off_loc;
+      disp_rem[i]  = (int)off_rem;
     }
 
     /* Optionally chunk the blocks across several ops so the flattened datatype
-- 
2.43.0


From 123a0d0a05aac97639b89fe8f9a83fccd5ddf0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:39 +0000
Subject: [PATCH 13/22] fix: datatypes for strides that are not multiples of
 each other

---
 src/strided.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/strided.c b/src/strided.c
index daf6e78..adce08c 100644
--- a/src/strided.c
+++ b/src/strided.c
@@ -13,6 +13,22 @@
 #include <debug.h>
 
 
+/** Check whether a strided access is a subarray, i.e. every stride is a multiple of the
+  * one below it and every dimension is large enough to hold the transfer.
+  */
+static int ARMCII_Strided_is_subarray(int stride_array[/*stride_levels*/], int count[/*stride_levels+1*/],
+                                      int stride_levels)
+{
+  for (int i = 1; i < stride_levels; i++) {
+    if (stride_array[i-1] <= 0 || (stride_array[i] % stride_array[i-1]) != 0 ||
+        stride_array[i]/stride_array[i-1] < count[i])
+      return 0;
+  }
+
+  return stride_array[0] >= count[0];
+}
+
+
 /** Convert an ARMCI strided access description into an MPI subarray datatype.
   *
   * @param[in]  stride_array    Array of strides
@@ -54,6 +70,20 @@ void ARMCII_Strided_to_dtype(int stride_array[/*stride_levels*/], int count[/*st
     MPI_Type_contiguous(elem_count, old_type, new_type);
   }
 
+  /* Transfer is non-contiguous, and the strides do not describe a subarray */
+  else if (!ARMCII_Strided_is_subarray(stride_array, count, stride_levels)) {
+    MPI_Datatype inner_type;
+
+    ARMCII_Assert((count[0] % old_type_size) == 0);
+    MPI_Type_contiguous(count[0]/old_type_size, old_type, new_type);
+
+    for (i = 0; i < stride_levels; i++) {
+      inner_type = *new_type;
+      MPI_Type_create_hvector(count[i+1], 1, stride_array[i], inner_type, new_type);
+      MPI_Type_free(&inner_type);
+    }
+  }
+
   /* Transfer is non-contiguous */
   else {
 
-- 
2.43.0


From d4ce43401ba1e70e256115c86a7e5272ae7ff6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 14/22] fix: clearing a handle's aggregate mode must not drop
 its pending requests

---
 src/onesided_nb.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index 54989a8..69e8cec 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -56,9 +56,7 @@ void ARMCI_UNSET_AGGREGATE_HANDLE(armci_hdl_t *handle)
   ARMCII_Assert_msg(handle, "handle is NULL");
   if (1 || handle != NULL) {
 #ifdef USE_RMA_REQUESTS
-    handle->batch_size     = 0;
-    handle->single_request = MPI_REQUEST_NULL;
-    handle->request_array  = NULL;
+    /* operations already issued on the handle stay pending until it is waited on */
 #else
     handle->aggregate =  0;
 #endif
-- 
2.43.0


From c53987b831cbd087567d4e38b97eab0468bf81bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 15/22] fix: a receive must not write beyond the received bytes
 when it uses a private copy

---
 src/message.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/message.c b/src/message.c
index 2bcb5f5..bf1d07d 100644
--- a/src/message.c
+++ b/src/message.c
@@ -202,14 +202,17 @@ void armci_msg_snd(int tag, void *buf_in, int nbytes, int dest) {
   */
 void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int src) {
   void     **buf;
+  int        nbytes;
   MPI_Status status;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, src, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  /* Only the bytes received go back to the user's buffer */
+  MPI_Get_count(&status, MPI_BYTE, &nbytes);
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes;
 }
 
 
@@ -223,14 +226,17 @@ void armci_msg_rcv(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg, int
   */
 int armci_msg_rcvany(int tag, void *buf_out, int nbytes_buf, int *nbytes_msg) {
   void     **buf;
+  int        nbytes;
   MPI_Status status;
 
   ARMCII_Buf_prepare_write_vec(&buf_out, &buf, 1, nbytes_buf);
   MPI_Recv(buf[0], nbytes_buf, MPI_BYTE, MPI_ANY_SOURCE, tag, ARMCI_GROUP_WORLD.comm, &status);
-  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes_buf);
+  /* Only the bytes received go back to the user's buffer */
+  MPI_Get_count(&status, MPI_BYTE, &nbytes);
+  ARMCII_Buf_finish_write_vec(&buf_out, buf, 1, nbytes);
 
   if (nbytes_msg != NULL)
-    MPI_Get_count(&status, MPI_BYTE, nbytes_msg);
+    *nbytes_msg = nbytes;
 
   return status.MPI_SOURCE;
 }
-- 
2.43.0


From f291b14eb2b461f0ffaa5f259ca0184781b43243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 16/22] fix: select operation must not overwrite its result
 with the private input copy

---
 src/message.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.c b/src/message.c
index bf1d07d..394ad90 100644
--- a/src/message.c
+++ b/src/message.c
@@ -432,7 +432,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
   data_in->type       = type;
 
   if (contribute)
-    ARMCI_Copy(x, data_in->data, n);
+    ARMCI_Copy(x_buf[0], data_in->data, n);
 
   if (strncmp(op, "min", 3) == 0) {
     MPI_Allreduce(data_in, data_out, sizeof(sel_data_t)+n-1, MPI_BYTE, ARMCI_MPI_SELMIN_OP, sel_comm);
@@ -442,7 +442,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
       ARMCII_Error("Invalid operation (%s)", op);
   }
 
-  ARMCI_Copy(data_out->data, x, n);
+  ARMCI_Copy(data_out->data, x_buf[0], n);
 
   ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n);
 
-- 
2.43.0


From e0bdc62ed8ec56d3d43f8f7da203365c00d18d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:57 +0000
Subject: [PATCH 17/22] fix: absolute minimum/maximum over a single-process
 scope takes absolute values

---
 src/message_gop.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/message_gop.c b/src/message_gop.c
index dd2f8d1..5067bbf 100644
--- a/src/message_gop.c
+++ b/src/message_gop.c
@@ -139,7 +139,7 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
   MPI_Op       mpi_op;
   MPI_Datatype mpi_type;
   MPI_Comm     comm;
-  int          mpi_type_size;
+  int          mpi_type_size, nproc;
 
   /* FIXME: scope argument presently ignored */
   if (scope == SCOPE_ALL || scope == SCOPE_MASTERS)
@@ -204,7 +204,9 @@ void armci_msg_group_gop_scope(int scope, void *x, int n, char *op, int type, AR
 
   // ABS MAX/MIN are unary as well as binary.  We need to also apply abs in the
   // single processor case when reduce would normally just be a no-op.
-  if (group->size == 1 && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
+  MPI_Comm_size(comm, &nproc);
+
+  if (nproc == 1 && (mpi_op == ARMCI_MPI_ABSMAX_OP || mpi_op == ARMCI_MPI_ABSMIN_OP)) {
     ARMCII_Absv_op(x_buf[0], x_buf[0], &n, &mpi_type);
   }
 
-- 
2.43.0


From 4ea88b5f36af18403425f40083ec45e5aaa16cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 18/22] fix: a put or get on the caller's own memory is
 range-checked like any other

---
 src/onesided.c    | 4 ++++
 src/onesided_nb.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/onesided.c b/src/onesided.c
index 490626a..4083575 100644
--- a/src/onesided.c
+++ b/src/onesided.c
@@ -99,6 +99,8 @@ int PARMCI_Get(void *src, void *dst, int size, int target) {
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+    ARMCII_Assert_msg((uint8_t*)(src) + size <= (uint8_t*)(src_mreg->slices[target].base) + src_mreg->slices[target].size,
+                      "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
 
@@ -162,6 +164,8 @@ int PARMCI_Put(void *src, void *dst, int size, int target) {
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+    ARMCII_Assert_msg((uint8_t*)(dst) + size <= (uint8_t*)(dst_mreg->slices[target].base) + dst_mreg->slices[target].size,
+                      "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
 
diff --git a/src/onesided_nb.c b/src/onesided_nb.c
index 69e8cec..96c64d8 100644
--- a/src/onesided_nb.c
+++ b/src/onesided_nb.c
@@ -95,6 +95,8 @@ int PARMCI_NbPut(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && src_mreg == NULL) {
+      ARMCII_Assert_msg((uint8_t*)(dst) + size <= (uint8_t*)(dst_mreg->slices[target].base) + dst_mreg->slices[target].size,
+                        "Transfer is out of range");
       ARMCI_Copy(src, dst, size);
   }
   else {
@@ -134,6 +136,8 @@ int PARMCI_NbGet(void *src, void *dst, int size, int target, armci_hdl_t *handle
 
   /* Local operation */
   if (target == ARMCI_GROUP_WORLD.rank && dst_mreg == NULL) {
+    ARMCII_Assert_msg((uint8_t*)(src) + size <= (uint8_t*)(src_mreg->slices[target].base) + src_mreg->slices[target].size,
+                      "Transfer is out of range");
     ARMCI_Copy(src, dst, size);
   }
   else {
-- 
2.43.0


From 860098bb4c2b15f3f45750c4af895e80a99befcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 19/22] fix: room for the longest Intel MPI version searched
 for in the library version

"2030.30" needs eight bytes with its terminator; the buffer had seven.
---
 src/init_finalize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index a3b46ec..899bda4 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -149,7 +149,7 @@ static void ARMCII_Parse_library_version(char * library_version, enum ARMCII_MPI
       char impi_patch[6] = {0}; /* ".PrcX" is max since major=2+ */
       for (int major = 2030; major >= 2000; major--) {
         for (int minor = 30; minor >= 0; minor--) {
-          char version_string[7] = {0};
+          char version_string[8] = {0}; /* "2030.30" */
           sprintf(version_string,"%d.%d",major,minor);
           char * p = strstr(library_version,version_string);
           if (p != NULL) {
-- 
2.43.0


From 1451c910563963881cb7b62079c65c55023e1b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 20/22] fix: negating the smallest ARMCI_PROGRESS_USLEEP must
 not overflow

---
 src/init_finalize.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index 899bda4..6a45b64 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -2,6 +2,8 @@
  * Copyright (C) 2010. See COPYRIGHT in top-level directory.
  */
 
+#include <limits.h>
+
 #include <armci.h>
 #include <armci_internals.h>
 #include <debug.h>
@@ -275,7 +277,8 @@ int PARMCI_Init_thread_comm(int armci_requested, MPI_Comm comm) {
     if (ARMCII_GLOBAL_STATE.progress_thread && (ARMCII_GLOBAL_STATE.progress_usleep < 0)) {
         ARMCII_Warning("ARMCI progress thread is not a time machine. (%d)\n",
                        ARMCII_GLOBAL_STATE.progress_usleep);
-        ARMCII_GLOBAL_STATE.progress_usleep = -ARMCII_GLOBAL_STATE.progress_usleep;
+        ARMCII_GLOBAL_STATE.progress_usleep = (ARMCII_GLOBAL_STATE.progress_usleep == INT_MIN) ?
+                                              INT_MAX : -ARMCII_GLOBAL_STATE.progress_usleep;
     }
 #endif /* HAVE_PTHREADS */
 #endif /* ENABLE_PROGRESS */
-- 
2.43.0


From 17a08037034fc7ae9f54bb1aa77b4322e27ee06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 21/22] fix: a progress thread pause of one second or more is
 honoured

---
 src/init_finalize.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/init_finalize.c b/src/init_finalize.c
index 6a45b64..c3ced83 100644
--- a/src/init_finalize.c
+++ b/src/init_finalize.c
@@ -43,9 +43,10 @@ static void * progress_function(void * arg)
 {
     volatile int * active = (volatile int*)arg;
 #if defined(HAVE_NANOSLEEP)
-    int naptime = 1000 * ARMCII_GLOBAL_STATE.progress_usleep;
-    struct timespec napstruct = { .tv_sec  = 0,
-                                  .tv_nsec = naptime };
+    int naptime = ARMCII_GLOBAL_STATE.progress_usleep;
+    /* tv_nsec must stay below one second */
+    struct timespec napstruct = { .tv_sec  = naptime / 1000000,
+                                  .tv_nsec = 1000 * (naptime % 1000000) };
 #elif defined(HAVE_USLEEP)
     int naptime = ARMCII_GLOBAL_STATE.progress_usleep;
 #endif
-- 
2.43.0


From a5b51c9b450fb9db5374b319c9216b71a2f11401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 22/22] fix: a null segment address must not stand for the
 start of the target memory

---
 src/gmr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gmr.c b/src/gmr.c
index 9ee20f6..3a15c0e 100644
--- a/src/gmr.c
+++ b/src/gmr.c
@@ -504,6 +504,7 @@ gmr_t *gmr_lookup(void *ptr, int proc) {
 int gmr_put(gmr_t *mreg, void *src, void *dst, int size, int proc, armci_hdl_t * handle)
 {
   ARMCII_Assert_msg(src != NULL, "Invalid local address");
+  ARMCII_Assert_msg(dst != NULL, "Invalid remote address"); /* not MPI_BOTTOM: typed calls only */
   return gmr_put_typed(mreg, src, size, MPI_BYTE, dst, size, MPI_BYTE, proc, handle);
 }
 
@@ -607,6 +608,7 @@ int gmr_put_typed(gmr_t *mreg, void *src, int src_count, MPI_Datatype src_type,
 int gmr_get(gmr_t *mreg, void *src, void *dst, int size, int proc, armci_hdl_t * handle)
 {
   ARMCII_Assert_msg(dst != NULL, "Invalid local address");
+  ARMCII_Assert_msg(src != NULL, "Invalid remote address"); /* not MPI_BOTTOM: typed calls only */
   return gmr_get_typed(mreg, src, size, MPI_BYTE, dst, size, MPI_BYTE, proc, handle);
 }
 
@@ -713,6 +715,7 @@ int gmr_accumulate(gmr_t *mreg, void *src, void *dst, int count, MPI_Datatype ty
                    int proc, armci_hdl_t * handle)
 {
   ARMCII_Assert_msg(src != NULL, "Invalid local address");
+  ARMCII_Assert_msg(dst != NULL, "Invalid remote address"); /* not MPI_BOTTOM: typed calls only */
   return gmr_accumulate_typed(mreg, src, count, type, dst, count, type, proc, handle);
 }
 
-- 
2.43.0

