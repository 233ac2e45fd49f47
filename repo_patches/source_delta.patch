From 6a7ded3ff64ace5af515c85a3b29930535735964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:53 +0000
Subject: [PATCH 01/51] fix: write group list terminator into the allocated
 array on single-node communicators

---
 src/mpi/num_ports_factors.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index 0ac6d02..b6ad503 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -114,8 +114,8 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   (*num_ports) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   (*groups) = (int*)malloc((comm_size_row + 1)*sizeof(int));
   if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
-    (*num_ports)[0] = (*groups[0]) = -1;
-    (*num_ports)[1] = (*groups[1]) = 0;
+    (*num_ports)[0] = (*groups)[0] = -1;
+    (*num_ports)[1] = (*groups)[1] = 0;
     ext_mpi_set_ports_single_node(num_sockets_per_node, *num_ports, *groups);
   } else if (!minimum_computation) {
     if (comm_rank_row == 0) {
-- 
2.43.0


From 10a6c03958881cc655cce3b107a2af9a6c78930b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 02/51] fix: EXT_MPI_DEBUG=0 switches the self check off, on
 every rank

---
 src/mpi/ext_mpi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index a4de601..c736984 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -74,7 +74,7 @@ static int read_env() {
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_DEBUG")) != NULL);
     if (var) {
-      if (sscanf(c, "%d", &var) == 0){
+      if (sscanf(c, "%d", &var) < 1 || var == 0){
         ext_mpi_debug = 0;
       }
       if (ext_mpi_verbose) {
@@ -82,7 +82,7 @@ static int read_env() {
       }
     }
   }
-  MPI_Bcast(&ext_mpi_verbose, 1, MPI_INT, 0, MPI_COMM_WORLD);
+  MPI_Bcast(&ext_mpi_debug, 1, MPI_INT, 0, MPI_COMM_WORLD);
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_ALTERNATING")) != NULL);
     if (var) {
-- 
2.43.0


From dd5a7fd11ef24555e3237d5ed4564199614d0ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 03/51] fix: size the environment parameter arrays by what is
 broadcast into them

---
 src/mpi/ext_mpi.c | 31 ++++++++++---------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index c736984..c30d7b8 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -42,10 +42,9 @@ static int is_initialised = 0;
 // FIXME: should be 0 if feature is present
 
 static int read_env() {
-  int mpi_comm_rank, mpi_comm_size, var, i, j;
+  int mpi_comm_rank, var, i;
   char *c = NULL;
   MPI_Comm_rank(MPI_COMM_WORLD, &mpi_comm_rank);
-  MPI_Comm_size(MPI_COMM_WORLD, &mpi_comm_size);
   if (mpi_comm_rank == 0) {
     var = ((c = getenv("EXT_MPI_NUM_SOCKETS_PER_NODE")) != NULL);
     if (var) {
@@ -120,25 +119,20 @@ static int read_env() {
     ext_mpi_fixed_factors_ports=ext_mpi_fixed_factors_groups=0;
   }
   if (var) {
-    i = 1;
-    j = 2;
-    while (i < mpi_comm_size) {
-      j++;
-      i *= 2;
-    }
     if (mpi_comm_rank == 0) {
       ext_mpi_scan_ports_groups(c, &ext_mpi_fixed_factors_ports, &ext_mpi_fixed_factors_groups);
       for (i=0; ext_mpi_fixed_factors_ports[i]; i++);
       i++;
-    }else{
-      ext_mpi_fixed_factors_ports = (int *)malloc((2 * j + 1) * sizeof(int));
+    }
+    MPI_Bcast(&i, 1, MPI_INT, 0, MPI_COMM_WORLD);
+    if (mpi_comm_rank != 0) {
+      ext_mpi_fixed_factors_ports = (int *)malloc(i * sizeof(int));
       if (!ext_mpi_fixed_factors_ports)
         goto error;
-      ext_mpi_fixed_factors_groups = (int *)malloc((2 * j + 1) * sizeof(int));
+      ext_mpi_fixed_factors_groups = (int *)malloc(i * sizeof(int));
       if (!ext_mpi_fixed_factors_groups)
         goto error;
     }
-    MPI_Bcast(&i, 1, MPI_INT, 0, MPI_COMM_WORLD);
     MPI_Bcast(ext_mpi_fixed_factors_ports, i, MPI_INT, 0, MPI_COMM_WORLD);
     MPI_Bcast(ext_mpi_fixed_factors_groups, i, MPI_INT, 0, MPI_COMM_WORLD);
   }
@@ -152,22 +146,17 @@ static int read_env() {
     ext_mpi_copyin_factors = NULL;
   }
   if (var) {
-    i = 1;
-    j = 2;
-    while (i < mpi_comm_size) {
-      j++;
-      i *= 2;
-    }
     if (mpi_comm_rank == 0) {
       ext_mpi_scan_copyin(c, &ext_mpi_copyin_method, &ext_mpi_copyin_factors);
       for (i=0; ext_mpi_copyin_factors[i]; i++);
       i++;
-    }else{
-      ext_mpi_copyin_factors = (int *)malloc((2 * j + 1) * sizeof(int));
+    }
+    MPI_Bcast(&i, 1, MPI_INT, 0, MPI_COMM_WORLD);
+    if (mpi_comm_rank != 0) {
+      ext_mpi_copyin_factors = (int *)malloc(i * sizeof(int));
       if (!ext_mpi_copyin_factors)
         goto error;
     }
-    MPI_Bcast(&i, 1, MPI_INT, 0, MPI_COMM_WORLD);
     MPI_Bcast(&ext_mpi_copyin_method, 1, MPI_INT, 0, MPI_COMM_WORLD);
     MPI_Bcast(ext_mpi_copyin_factors, i, MPI_INT, 0, MPI_COMM_WORLD);
   }
-- 
2.43.0


From 6d8bd63669d0fc8532b33240b0649ccdf38ccec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 04/51] fix: release the copy-in factors read from the
 environment

---
 src/mpi/ext_mpi.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index c30d7b8..f844950 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -170,6 +170,10 @@ error:
 static int delete_env() {
   free(ext_mpi_fixed_factors_groups);
   free(ext_mpi_fixed_factors_ports);
+  ext_mpi_fixed_factors_groups = ext_mpi_fixed_factors_ports = NULL;
+  free(ext_mpi_copyin_factors);
+  ext_mpi_copyin_factors = NULL;
+  ext_mpi_copyin_method = -1;
   return 0;
 }
 
-- 
2.43.0


From 86ca25c205db6633d3ab5a544aa003e0f3b4163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:44 +0000
Subject: [PATCH 05/51] fix: compare the root's node, not its rank, when
 pruning rooted schedules

---
 src/mpi/backward_interpreter.c | 2 +-
 src/mpi/forward_interpreter.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/backward_interpreter.c b/src/mpi/backward_interpreter.c
index 57ee9cf..f675184 100644
--- a/src/mpi/backward_interpreter.c
+++ b/src/mpi/backward_interpreter.c
@@ -54,7 +54,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
   for (i = 0; i < data.blocks[data.num_blocks - 1].num_lines; i++) {
     for (j = 0; j < data.blocks[data.num_blocks - 1].lines[i].sendto_max; j++) {
       if ((data.blocks[data.num_blocks - 1].lines[i].sendto_node[j] == -1) &&
-          (parameters->socket == parameters->root)) {
+          (parameters->socket == parameters->root / parameters->socket_row_size)) {
         values[data.num_blocks - 1][i] = 2;
       }
     }
diff --git a/src/mpi/forward_interpreter.c b/src/mpi/forward_interpreter.c
index 7a24999..494c376 100644
--- a/src/mpi/forward_interpreter.c
+++ b/src/mpi/forward_interpreter.c
@@ -51,9 +51,9 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
       values[i][j] = 0;
     }
   }
-  k = parameters->socket == parameters->root;
+  k = parameters->socket == parameters->root / parameters->socket_row_size;
   if (parameters->root <= -10) {
-    k = parameters->socket == (-10 - parameters->root);
+    k = parameters->socket == (-10 - parameters->root) / parameters->socket_row_size;
   }
   for (i = 0; i < data.blocks[0].num_lines; i++) {
     for (j = 0; j < data.blocks[0].lines[i].recvfrom_max; j++) {
-- 
2.43.0


From eebe402df6e2126f3f02f67fdc3ae28f26a564f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:31 +0000
Subject: [PATCH 06/51] fix: read the single-node broadcast from where the root
 copied it

---
 src/core/reduce_copyout.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/reduce_copyout.c b/src/core/reduce_copyout.c
index 446a80f..b29babd 100644
--- a/src/core/reduce_copyout.c
+++ b/src/core/reduce_copyout.c
@@ -54,7 +54,7 @@ int ext_mpi_generate_reduce_copyout(char *buffer_in, char *buffer_out) {
   counts = parameters->counts;
   iocounts_max = parameters->iocounts_max;
   iocounts = parameters->iocounts;
-  if (!parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST) {
+  if (parameters->root > -10 && !parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST) {
     fast = 1;
   }
   switch (parameters->data_type) {
-- 
2.43.0


From f20a8285da357a00acaf2b88aac04d1f9d393af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:37 +0000
Subject: [PATCH 07/51] fix: give a single-node reduce the schedule of the
 socket layout its measurement chose

---
 src/mpi/ext_mpi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index f844950..2e5cae5 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -765,6 +765,9 @@ int ext_mpi_reduce_init_general(const void *sendbuf, void *recvbuf, int count,
           my_cores_per_node, &copyin_method, &copyin_factors, &num_sockets_per_node);
     }
   }
+  if (num_sockets_per_node_ == 1) {
+    ext_mpi_set_ports_single_node(num_sockets_per_node, num_ports, groups);
+  }
   if (ext_mpi_verbose) {
     if (ext_mpi_is_rank_zero(comm, MPI_COMM_NULL)){
       printf("# EXT_MPI MPI tasks per socket: %d\n", my_cores_per_node);
-- 
2.43.0


From bf2a8a17da6dc088d3e23200aecfbf61223fc8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:42 +0000
Subject: [PATCH 08/51] fix: do not divide by an empty message in the
 single-node copy-in

---
 src/core/reduce_copyin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index 68e1f7b..718417d 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -526,7 +526,7 @@ int ext_mpi_generate_reduce_copyin(char *buffer_in, char *buffer_out) {
         ;
       instance_max = (j - 1) / gbstep;
       fast = !parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST;
-      if (fast) {
+      if (fast && moffsets[num_nodes] > 0) {
         type_size = moffsets[num_nodes];
       }
       nbuffer_out += ext_mpi_write_assembler_line(buffer_out + nbuffer_out, parameters->ascii_out, "s", esocket_barrier);
-- 
2.43.0


From a700ae65ac0919d9d9cb23ed1095fc53e729a0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:42 +0000
Subject: [PATCH 09/51] fix: measure the copy-in into scratch memory, not into
 the user's receive buffer

---
 src/mpi/cost_copyin_measurement.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/mpi/cost_copyin_measurement.c b/src/mpi/cost_copyin_measurement.c
index 78d855b..10b79da 100644
--- a/src/mpi/cost_copyin_measurement.c
+++ b/src/mpi/cost_copyin_measurement.c
@@ -1,4 +1,5 @@
 #include "cost_copyin_measurement.h"
+#include "constants.h"
 #include "ext_mpi_native.h"
 #include "prime_factors.h"
 #include "read_write.h"
@@ -7,6 +8,7 @@
 #endif
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
 
 extern int ext_mpi_verbose;
 
@@ -158,6 +160,7 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
                                   int **copyin_factors, int *num_sockets_per_node) {
   int mpi_rank_row, mpi_size_row, i, j, k, copyin_factors_min[*my_cores_per_node_row+1], msize, copyin_method_min, num_sockets_per_node_min, num_sockets_per_node_max = 1, one_socket_only = 0;
   double time, time_min;
+  void *scratch = NULL;
   if (*num_sockets_per_node == -1) {
     *num_sockets_per_node = -*num_sockets_per_node;
     one_socket_only = 1;
@@ -167,6 +170,20 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
   MPI_Type_size(datatype, &msize);
   (*copyin_factors) = (int*)malloc((mpi_size_row + 1) * sizeof(int));
   msize *= count;
+#ifdef GPU_ENABLED
+  if (!ext_mpi_gpu_is_device_pointer(recvbuf)) {
+#endif
+  // the receive buffer belongs to the user: it may hold in-place data, or be shorter than count
+  scratch = malloc(msize + 1);
+  if (!scratch)
+    return ERROR_MALLOC;
+  memset(scratch, 0, msize);
+  if (sendbuf == recvbuf)
+    sendbuf = scratch;
+  recvbuf = scratch;
+#ifdef GPU_ENABLED
+  }
+#endif
   if (*my_cores_per_node_row * my_cores_per_node_column == 1) {
     *copyin_method = 0;
     (*copyin_factors)[0] = 1;
@@ -213,5 +230,6 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
       *my_cores_per_node_row /= num_sockets_per_node_min;
     }
   }
+  free(scratch);
   return 0;
 }
-- 
2.43.0


From 315749f2f7ef722ab3d21ed24db9e212e4aede7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:43 +0000
Subject: [PATCH 10/51] fix: continue from the permuted-back schedule in
 reduce_scatter with one task per node

---
 src/mpi/ext_mpi_native.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index b520ed9..5606acb 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1555,6 +1555,10 @@ int EXT_MPI_Reduce_scatter_init_native(
         goto error;
     }
 #endif
+  } else {
+    buffer_temp = buffer1;
+    buffer1 = buffer2;
+    buffer2 = buffer_temp;
   }
   if (my_mpi_size_row / my_cores_per_node_row > 1) {
     if (ext_mpi_generate_reduce_copyin(buffer1, buffer2) < 0)
-- 
2.43.0


From 7de838f3dcc1067887726fc9d55b66c9df4b4d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:32 +0000
Subject: [PATCH 11/51] fix: scatterv needs the mirrored port list of a
 reduce_scatter

---
 src/mpi/ext_mpi.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 2e5cae5..21e8668 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -560,8 +560,12 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   for (i = 0; num_ports[i]; i++);
   for (j = 0; j < i / 2; j++) {
     k = num_ports[j];
-    num_ports[j] = num_ports[i - 1 - j];
-    num_ports[i - 1 - j] = k;
+    num_ports[j] = -num_ports[i - 1 - j];
+    num_ports[i - 1 - j] = -k;
+  }
+  if (i % 2) num_ports[i / 2] = -num_ports[i / 2];
+  if (num_sockets_per_node == 1) {
+    ext_mpi_set_ports_single_node(num_sockets_per_node, num_ports, groups);
   }
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
-- 
2.43.0


From 11954772827bc7473e4c36efa8e37b25e4bbab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 12/51] fix: lay out the root's data in the order of the
 schedule's first stage

---
 src/core/reduce_copyin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index 718417d..62dee4f 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -493,8 +493,8 @@ int ext_mpi_generate_reduce_copyin(char *buffer_in, char *buffer_out) {
                parameters->socket_rank ==
            -10 - parameters->root)) {
         add = 0;
-        for (i = 0; i < num_nodes; i++) {
-          j = (num_nodes + i + parameters->socket) % num_nodes;
+        for (i = 0; i < data.blocks[0].num_lines; i++) {
+          j = data.blocks[0].lines[i].frac;
           data_memcpy_reduce.type = ememcpy;
           data_memcpy_reduce.buffer_type1 = eshmemo;
           data_memcpy_reduce.buffer_number1 = 0;
-- 
2.43.0


From 7666457c427728ae6e71e30a577bc98fa9659050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:21 +0000
Subject: [PATCH 13/51] fix: single-node gathers and allgathers read the layout
 their copy-in wrote

---
 src/core/reduce_copyout.c | 2 +-
 src/mpi/ext_mpi.c         | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/reduce_copyout.c b/src/core/reduce_copyout.c
index b29babd..9845b45 100644
--- a/src/core/reduce_copyout.c
+++ b/src/core/reduce_copyout.c
@@ -54,7 +54,7 @@ int ext_mpi_generate_reduce_copyout(char *buffer_in, char *buffer_out) {
   counts = parameters->counts;
   iocounts_max = parameters->iocounts_max;
   iocounts = parameters->iocounts;
-  if (parameters->root > -10 && !parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST) {
+  if (parameters->collective_type != collective_type_allgatherv && parameters->root > -10 && !parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST) {
     fast = 1;
   }
   switch (parameters->data_type) {
diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 21e8668..bdc4318 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -337,6 +337,7 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
   for (i = 0; i < comm_size_row; i++) {
     rcount += recvcounts[i];
   }
+  if (groups[0] == -1 && groups[1] == 0) num_ports[0] = 1;
   alt = ext_mpi_get_param(ext_mpi_alternating, comm, info, "ext_mpi_alternating", rcount < 10000000 && my_cores_per_node_row * my_cores_per_node_column > 1);
   not_recursive = ext_mpi_get_param(ext_mpi_not_recursive, comm, info, "ext_mpi_not_recursive", (group_size!=comm_size_row/my_cores_per_node_row));
   if (ext_mpi_verbose) {
-- 
2.43.0


From c3e3d2667bea4d11d37edad0975c969dc3452b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:55 +0000
Subject: [PATCH 14/51] fix: size the scatterv self check by the caller's types
 and counts

---
 src/mpi/debug_persistent.c | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/mpi/debug_persistent.c b/src/mpi/debug_persistent.c
index 6bdfdc9..eb8d12f 100644
--- a/src/mpi/debug_persistent.c
+++ b/src/mpi/debug_persistent.c
@@ -335,31 +335,28 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
                                 int recvcount, MPI_Datatype recvtype,
                                 int root, MPI_Comm comm,
                                 MPI_Info info, int *handle) {
-  int comm_size_row, type_size, world_rank, comm_rank_row, i, j, k;
+  int comm_size_row, type_size, world_rank, max_sendcount, max_displs, i, j;
   void *recvbuf_ref = NULL, *sendbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
   MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
-  MPI_Comm_rank(comm, &comm_rank_row);
-  recvbuf_ref = (long int *)malloc(recvcount * type_size);
+  recvbuf_ref = malloc(recvcount * type_size);
   if (!recvbuf_ref)
     goto error;
-  sendbuf_h = malloc(
-      (displs[comm_size_row - 1] + sendcounts[comm_size_row - 1]) * type_size);
+  max_sendcount = max_displs = 0;
+  for (i = 0; i < comm_size_row; i++) {
+    if (sendcounts[i] > max_sendcount)
+      max_sendcount = sendcounts[i];
+    if (displs[i] > max_displs)
+      max_displs = displs[i];
+  }
+  sendbuf_h = malloc((max_displs + max_sendcount) * type_size);
   if (!sendbuf_h)
     goto error;
-  k = 0;
-  for (i = 0; i < comm_size_row; i++) {
-    for (j = 0; j < (sendcounts[i] * type_size) / (int)sizeof(long int); j++) {
-      ((long int *)((char *)sendbuf_h + displs[i] * type_size))[j] =
-          world_rank *
-              (((displs[comm_size_row - 1] + sendcounts[comm_size_row - 1]) *
-                type_size) /
-               (int)sizeof(long int)) +
-          k++;
-    }
+  for (i = 0; i < (max_displs + max_sendcount) * type_size; i++) {
+    ((unsigned char *)sendbuf_h)[i] = world_rank * 31 + i + i / 251;
   }
-  MPI_Scatterv(sendbuf_h, sendcounts, displs, MPI_LONG, recvbuf_ref, recvcount, MPI_LONG, root, comm);
+  MPI_Scatterv(sendbuf_h, sendcounts, displs, sendtype, recvbuf_ref, recvcount, recvtype, root, comm);
   if (ext_mpi_scatterv_init_general(sendbuf_h, sendcounts, displs, sendtype, recvbuf, recvcount, recvtype, root, comm, info, handle) < 0)
     goto error;
   if (EXT_MPI_Start(*handle) < 0)
@@ -369,8 +366,8 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
   if (EXT_MPI_Done(*handle) < 0)
     goto error;
   j = 0;
-  for (i = 0; i < (recvcount * type_size) / (int)sizeof(long int); i++) {
-    if (((long int *)recvbuf)[i] != ((long int *)recvbuf_ref)[i]) {
+  for (i = 0; i < recvcount * type_size; i++) {
+    if (((char *)recvbuf)[i] != ((char *)recvbuf_ref)[i]) {
       j = 1;
     }
   }
-- 
2.43.0


From 751d490b74653b4763a7409bc1052530da9b03aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 15/51] fix: run the initial self check on scratch memory
 instead of the caller's receive buffer

---
 src/mpi/debug_persistent.c | 84 ++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 27 deletions(-)

diff --git a/src/mpi/debug_persistent.c b/src/mpi/debug_persistent.c
index eb8d12f..12c3294 100644
--- a/src/mpi/debug_persistent.c
+++ b/src/mpi/debug_persistent.c
@@ -12,7 +12,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
                                   MPI_Datatype recvtype, MPI_Comm comm,
                                   MPI_Info info, int *handle) {
   int comm_size_row, type_size, i;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *sendbuf_h = NULL, *recvbuf_h = NULL;
   int world_rank, comm_rank_row, max_sendcount, max_displs, j, k;
 #ifdef GPU_ENABLED
   void *sendbuf_hh = NULL, *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL;
@@ -64,6 +64,9 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
     recvbuf_ref = (void *)malloc(j * type_size);
     if (!recvbuf_ref)
       goto error;
+    recvbuf_h = (void *)malloc(j * type_size);
+    if (!recvbuf_h)
+      goto error;
     sendbuf_h = (void *)malloc(sendcount * type_size);
     if (!sendbuf_h)
       goto error;
@@ -74,7 +77,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
   }
 #endif
   MPI_Allgatherv(sendbuf_h, sendcount, sendtype, recvbuf_ref, recvcounts, displs, recvtype, comm);
-  if (ext_mpi_allgatherv_init_general(sendbuf_h, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype, comm, info, handle) < 0)
+  if (ext_mpi_allgatherv_init_general(sendbuf_h, sendcount, sendtype, recvbuf_h ? recvbuf_h : recvbuf, recvcounts, displs, recvtype, comm, info, handle) < 0)
     goto error;
   if (EXT_MPI_Start(*handle) < 0)
     goto error;
@@ -107,7 +110,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
       for (i = 0; i < (int)((recvcounts[j] * type_size) / sizeof(long int));
            i++) {
         if (((long int *)
-                 recvbuf)[(displs[j] * type_size) / sizeof(long int) + i] !=
+                 recvbuf_h)[(displs[j] * type_size) / sizeof(long int) + i] !=
             ((long int *)
                  recvbuf_ref)[(displs[j] * type_size) / sizeof(long int) + i]) {
           k = 1;
@@ -133,6 +136,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
   } else {
 #endif
     free(sendbuf_h);
+    free(recvbuf_h);
     free(recvbuf_ref);
 #ifdef GPU_ENABLED
   }
@@ -140,6 +144,7 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
   return 0;
 error:
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return ERROR_MALLOC;
 }
@@ -151,7 +156,7 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
                                MPI_Comm comm,
                                MPI_Info info, int *handle) {
   int comm_size_row, type_size, world_rank, comm_rank_row, max_sendcount, max_displs, i, j, k;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *sendbuf_h = NULL, *recvbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
   MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
@@ -168,6 +173,9 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
   recvbuf_ref = (void *)malloc(j * type_size);
   if (!recvbuf_ref)
     goto error;
+  recvbuf_h = (void *)malloc(j * type_size);
+  if (!recvbuf_h)
+    goto error;
   sendbuf_h = (void *)malloc(sendcount * type_size);
   if (!sendbuf_h)
     goto error;
@@ -175,7 +183,7 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
     ((long int *)sendbuf_h)[i] = world_rank * max_sendcount + i;
   }
   MPI_Gatherv(sendbuf_h, sendcount, sendtype, recvbuf_ref, recvcounts, displs, recvtype, root, comm);
-  if (ext_mpi_gatherv_init_general(sendbuf_h, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype, root, comm, info, handle) < 0)
+  if (ext_mpi_gatherv_init_general(sendbuf_h, sendcount, sendtype, recvbuf_h, recvcounts, displs, recvtype, root, comm, info, handle) < 0)
     goto error;
   if (EXT_MPI_Start(*handle) < 0)
     goto error;
@@ -189,7 +197,7 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
       for (i = 0; i < (int)((recvcounts[j] * type_size) / (int)sizeof(long int));
            i++) {
         if (((long int *)
-                 recvbuf)[(displs[j] * type_size) / (int)sizeof(long int) + i] !=
+                 recvbuf_h)[(displs[j] * type_size) / (int)sizeof(long int) + i] !=
             ((long int *)
                  recvbuf_ref)[(displs[j] * type_size) / (int)sizeof(long int) + i]) {
           k = 1;
@@ -202,10 +210,12 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
     }
   }
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return 0;
 error:
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return ERROR_MALLOC;
 }
@@ -214,7 +224,7 @@ int ext_mpi_reduce_scatter_init_debug(
     const void *sendbuf, void *recvbuf, const int *recvcounts, MPI_Datatype datatype,
     MPI_Op op, MPI_Comm comm, MPI_Info info, int *handle) {
   int comm_size_row, type_size, i, j;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *sendbuf_h = NULL, *recvbuf_h = NULL;
   int world_rank, comm_rank_row, tsize;
 #ifdef GPU_ENABLED
   void *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL, *sendbuf_hh = NULL;
@@ -250,6 +260,9 @@ int ext_mpi_reduce_scatter_init_debug(
       recvbuf_ref = malloc(recvcounts[comm_rank_row] * type_size);
       if (!recvbuf_ref)
         goto error;
+      recvbuf_h = malloc(recvcounts[comm_rank_row] * type_size);
+      if (!recvbuf_h)
+        goto error;
       sendbuf_h = malloc(tsize * type_size);
       if (!sendbuf_h)
         goto error;
@@ -264,11 +277,11 @@ int ext_mpi_reduce_scatter_init_debug(
 #endif
     if (type_size == sizeof(long int)){
       MPI_Reduce_scatter(sendbuf_h, recvbuf_ref, recvcounts, MPI_LONG, op, comm);
-      if (ext_mpi_reduce_scatter_init_general(sendbuf_h, recvbuf, recvcounts, MPI_LONG, op, comm, info, handle) < 0)
+      if (ext_mpi_reduce_scatter_init_general(sendbuf_h, recvbuf_h ? recvbuf_h : recvbuf, recvcounts, MPI_LONG, op, comm, info, handle) < 0)
         goto error;
     }else{
       MPI_Reduce_scatter(sendbuf_h, recvbuf_ref, recvcounts, MPI_INT, op, comm);
-      if (ext_mpi_reduce_scatter_init_general(sendbuf_h, recvbuf, recvcounts, MPI_INT, op, comm, info, handle) < 0)
+      if (ext_mpi_reduce_scatter_init_general(sendbuf_h, recvbuf_h ? recvbuf_h : recvbuf, recvcounts, MPI_INT, op, comm, info, handle) < 0)
         goto error;
     }
     if (EXT_MPI_Start(*handle) < 0)
@@ -304,16 +317,17 @@ int ext_mpi_reduce_scatter_init_debug(
 #endif
       j = 0;
       for (i = 0; i < (recvcounts[comm_rank_row] * type_size) / (int)sizeof(long int); i++) {
-        if (((long int *)recvbuf)[i] != ((long int *)recvbuf_ref)[i]) {
+        if (((long int *)recvbuf_h)[i] != ((long int *)recvbuf_ref)[i]) {
           j = 1;
         }
       }
       if ((recvcounts[comm_rank_row] * type_size) % (int)sizeof(long int)){
-        if (((int *)recvbuf)[recvcounts[comm_rank_row]-1] != ((int *)recvbuf_ref)[recvcounts[comm_rank_row]-1]) {
+        if (((int *)recvbuf_h)[recvcounts[comm_rank_row]-1] != ((int *)recvbuf_ref)[recvcounts[comm_rank_row]-1]) {
           j = 1;
         }
       }
       free(sendbuf_h);
+      free(recvbuf_h);
       free(recvbuf_ref);
 #ifdef GPU_ENABLED
     }
@@ -326,6 +340,7 @@ int ext_mpi_reduce_scatter_init_debug(
   return 0;
 error:
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return ERROR_MALLOC;
 }
@@ -336,13 +351,16 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
                                 int root, MPI_Comm comm,
                                 MPI_Info info, int *handle) {
   int comm_size_row, type_size, world_rank, max_sendcount, max_displs, i, j;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *sendbuf_h = NULL, *recvbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
   MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
   recvbuf_ref = malloc(recvcount * type_size);
   if (!recvbuf_ref)
     goto error;
+  recvbuf_h = malloc(recvcount * type_size);
+  if (!recvbuf_h)
+    goto error;
   max_sendcount = max_displs = 0;
   for (i = 0; i < comm_size_row; i++) {
     if (sendcounts[i] > max_sendcount)
@@ -357,7 +375,7 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
     ((unsigned char *)sendbuf_h)[i] = world_rank * 31 + i + i / 251;
   }
   MPI_Scatterv(sendbuf_h, sendcounts, displs, sendtype, recvbuf_ref, recvcount, recvtype, root, comm);
-  if (ext_mpi_scatterv_init_general(sendbuf_h, sendcounts, displs, sendtype, recvbuf, recvcount, recvtype, root, comm, info, handle) < 0)
+  if (ext_mpi_scatterv_init_general(sendbuf_h, sendcounts, displs, sendtype, recvbuf_h, recvcount, recvtype, root, comm, info, handle) < 0)
     goto error;
   if (EXT_MPI_Start(*handle) < 0)
     goto error;
@@ -367,7 +385,7 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
     goto error;
   j = 0;
   for (i = 0; i < recvcount * type_size; i++) {
-    if (((char *)recvbuf)[i] != ((char *)recvbuf_ref)[i]) {
+    if (((char *)recvbuf_h)[i] != ((char *)recvbuf_ref)[i]) {
       j = 1;
     }
   }
@@ -376,10 +394,12 @@ int ext_mpi_scatterv_init_debug(const void *sendbuf, const int *sendcounts, cons
     exit(1);
   }
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return 0;
 error:
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return ERROR_MALLOC;
 }
@@ -394,7 +414,7 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
   void *sendbuf_hh = NULL, *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL;
 #endif
   int world_rankd;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *sendbuf_h = NULL, *recvbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Type_size(datatype, &type_size);
@@ -476,13 +496,16 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
     recvbuf_ref = (long int *)malloc(count * type_size);
     if (!recvbuf_ref)
       goto error;
+    recvbuf_h = (long int *)malloc(count * type_size);
+    if (!recvbuf_h)
+      goto error;
     if (sendbuf != MPI_IN_PLACE){
       sendbuf_h = (long int *)malloc(count * type_size);
       if (!sendbuf_h)
         goto error;
       for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
         ((long int *)sendbuf_h)[i] = world_rankd * count + i;
-        ((long int *)recvbuf)[i] = -1;
+        ((long int *)recvbuf_h)[i] = -1;
       }
       if ((count * type_size) % (int)sizeof(long int)){
         ((int *)sendbuf_h)[count-1] = world_rankd * count + count - 1;
@@ -490,19 +513,19 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
     }else{
       sendbuf_h = MPI_IN_PLACE;
       for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
-        ((long int *)recvbuf)[i] = ((long int *)recvbuf_ref)[i] = world_rankd * count + i;
+        ((long int *)recvbuf_h)[i] = ((long int *)recvbuf_ref)[i] = world_rankd * count + i;
       }
       if ((count * type_size) % (int)sizeof(long int)){
-        ((int *)recvbuf)[count-1] = ((int *)recvbuf_ref)[count-1] = world_rankd * count + count - 1;
+        ((int *)recvbuf_h)[count-1] = ((int *)recvbuf_ref)[count-1] = world_rankd * count + count - 1;
       }
     }
     if (type_size == sizeof(long int)){
       PMPI_Allreduce(sendbuf_h, recvbuf_ref, count, MPI_LONG, op, comm);
-      if (ext_mpi_allreduce_init_general(sendbuf_h, recvbuf, count, MPI_LONG, op, comm, info, handle)<0)
+      if (ext_mpi_allreduce_init_general(sendbuf_h, recvbuf_h, count, MPI_LONG, op, comm, info, handle)<0)
         goto error;
     }else{
       PMPI_Allreduce(sendbuf_h, recvbuf_ref, count, MPI_INT, op, comm);
-      if (ext_mpi_allreduce_init_general(sendbuf_h, recvbuf, count, MPI_INT, op, comm, info, handle)<0)
+      if (ext_mpi_allreduce_init_general(sendbuf_h, recvbuf_h, count, MPI_INT, op, comm, info, handle)<0)
         goto error;
     }
     if (EXT_MPI_Start(*handle) < 0)
@@ -513,18 +536,19 @@ int ext_mpi_allreduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       goto error;
     j = 0;
     for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
-      if (((long int *)recvbuf)[i] != ((long int *)recvbuf_ref)[i]) {
+      if (((long int *)recvbuf_h)[i] != ((long int *)recvbuf_ref)[i]) {
         j = 1;
       }
     }
     if ((count * type_size) % (int)sizeof(long int)){
-      if (((int *)recvbuf)[count-1] != ((int *)recvbuf_ref)[count-1]){
+      if (((int *)recvbuf_h)[count-1] != ((int *)recvbuf_ref)[count-1]){
         j = 1;
       }
     }
     if (sendbuf != MPI_IN_PLACE){
       free(sendbuf_h);
     }
+    free(recvbuf_h);
     free(recvbuf_ref);
 #ifdef GPU_ENABLED
   }
@@ -553,6 +577,7 @@ error:
   if (sendbuf != MPI_IN_PLACE){
     free(sendbuf_h);
   }
+  free(recvbuf_h);
   free(recvbuf_ref);
   return ERROR_MALLOC;
 }
@@ -566,7 +591,7 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
   void *recvbuf_hh = NULL, *recvbuf_ref_hh = NULL, *sendbuf_hh = NULL;
 #endif
   int world_rankd;
-  void *recvbuf_ref = NULL, *sendbuf_h = NULL;
+  void *recvbuf_ref = NULL, *sendbuf_h = NULL, *recvbuf_h = NULL;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Type_size(datatype, &type_size);
@@ -619,6 +644,9 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       recvbuf_ref = (long int *)malloc(count * type_size);
       if (!recvbuf_ref)
         goto error;
+      recvbuf_h = (long int *)malloc(count * type_size);
+      if (!recvbuf_h)
+        goto error;
       sendbuf_h = (long int *)malloc(count * type_size);
       if (!sendbuf_h)
         goto error;
@@ -630,11 +658,11 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       }
       if (type_size == sizeof(long int)){
         MPI_Reduce(sendbuf_h, recvbuf_ref, count, MPI_LONG, op, root, comm);
-        if (ext_mpi_reduce_init_general(sendbuf_h, recvbuf, count, MPI_LONG, op, root, comm, info, handle) < 0)
+        if (ext_mpi_reduce_init_general(sendbuf_h, recvbuf_h, count, MPI_LONG, op, root, comm, info, handle) < 0)
           goto error;
       }else{
         MPI_Reduce(sendbuf_h, recvbuf_ref, count, MPI_INT, op, root, comm);
-        if (ext_mpi_reduce_init_general(sendbuf_h, recvbuf, count, MPI_INT, op, root, comm, info, handle) < 0)
+        if (ext_mpi_reduce_init_general(sendbuf_h, recvbuf_h, count, MPI_INT, op, root, comm, info, handle) < 0)
           goto error;
       }
       if (EXT_MPI_Start(*handle) < 0)
@@ -646,17 +674,18 @@ int ext_mpi_reduce_init_debug(const void *sendbuf, void *recvbuf, int count,
       j = 0;
       if (root == comm_rank_row) {
         for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
-          if (((long int *)recvbuf)[i] != ((long int *)recvbuf_ref)[i]) {
+          if (((long int *)recvbuf_h)[i] != ((long int *)recvbuf_ref)[i]) {
             j = 1;
           }
         }
         if ((count * type_size) % (int)sizeof(long int)){
-          if (((int *)recvbuf)[count-1] != ((int *)recvbuf_ref)[count-1]) {
+          if (((int *)recvbuf_h)[count-1] != ((int *)recvbuf_ref)[count-1]) {
             j = 1;
           }
         }
       }
       free(sendbuf_h);
+      free(recvbuf_h);
       free(recvbuf_ref);
 #ifdef GPU_ENABLED
     }
@@ -680,6 +709,7 @@ error:
   }
 #endif
   free(sendbuf_h);
+  free(recvbuf_h);
   free(recvbuf_ref);
   return ERROR_MALLOC;
 }
-- 
2.43.0


From d7c16471baac19975e330d37e83ee2f78f2794e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:50 +0000
Subject: [PATCH 16/51] fix: a test of a persistent collective completes when
 its barrier has been reached, and does not block

---
 src/mpi/ext_mpi_native_exec.c | 52 +++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 6ea827e..e5ea39e 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -33,16 +33,21 @@ static void node_barrier(char **shmem, int *barrier_count, int socket_rank, int
   }
 }
 
-static int node_barrier_test(char **shmem, int barrier_count, int socket_rank, int num_sockets_per_node) {
-  int step;
+static int node_barrier_test(char **shmem, int *barrier_count, int socket_rank, int num_sockets_per_node) {
+  volatile int *own = &((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))];
+  int count = *barrier_count, step;
   for (step = 1; step < num_sockets_per_node; step <<= 1) {
-    ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
-    if ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
-      return 1;
+    // a repeated test does not take back what has been signalled already
+    if ((unsigned int)(*own - count) > INT_MAX) {
+      *own = count;
+    }
+    if ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - count) > INT_MAX) {
+      return 0;
     }
-    barrier_count++;
+    count++;
   }
-  return 0;
+  *barrier_count = count;
+  return 1;
 }
 
 static void socket_barrier(char *shmem, int *barrier_count, int socket_rank, int num_cores) {
@@ -55,16 +60,21 @@ static void socket_barrier(char *shmem, int *barrier_count, int socket_rank, int
   }
 }
 
-static int socket_barrier_test(char *shmem, int barrier_count, int socket_rank, int num_cores) {
-  int step;
+static int socket_barrier_test(char *shmem, int *barrier_count, int socket_rank, int num_cores) {
+  volatile int *own = &((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))];
+  int count = *barrier_count, step;
   for (step = 1; step < num_cores; step <<= 1) {
-    ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
-    if ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
-      return 1;
+    // a repeated test does not take back what has been signalled already
+    if ((unsigned int)(*own - count) > INT_MAX) {
+      *own = count;
     }
-    barrier_count++;
+    if ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - count) > INT_MAX) {
+      return 0;
+    }
+    count++;
   }
-  return 0;
+  *barrier_count = count;
+  return 1;
 }
 
 static void socket_barrier_atomic_set(char *shmem, int barrier_count, int entry) {
@@ -78,7 +88,7 @@ static void socket_barrier_atomic_wait(char *shmem, int *barrier_count, int entr
 }
 
 static int socket_barrier_atomic_test(char *shmem, int barrier_count, int entry) {
-  return (unsigned int)(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX;
+  return (unsigned int)(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) <= INT_MAX;
 }
 
 static void reduce_waitany(void **pointers_to, void **pointers_from, int *sizes, int num_red, int op_reduce){
@@ -331,12 +341,9 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_cores);
       } else {
         *ip_exec = ip - 1;
-        if (!socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket,
+        if (!socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket,
                                  header->socket_rank, header->num_cores)) {
           return 0;
-        } else {
-          socket_barrier(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket,
-                         header->socket_rank, header->num_cores);
         }
       }
       break;
@@ -346,12 +353,9 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_sockets_per_node);
       } else {
         *ip_exec = ip - 1;
-        if (!node_barrier_test(header->barrier_shmem_node, header->barrier_counter_node,
-                                 header->socket_rank, header->num_sockets_per_node)) {
+        if (!node_barrier_test(header->barrier_shmem_node, &header->barrier_counter_node,
+                               header->socket_rank, header->num_sockets_per_node)) {
           return 0;
-        } else {
-          node_barrier(header->barrier_shmem_node, &header->barrier_counter_node,
-                         header->socket_rank, header->num_sockets_per_node);
         }
       }
       break;
-- 
2.43.0


From 116e08efff170135476221c419384b00c122ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:24 +0000
Subject: [PATCH 17/51] fix: let the request table grow, and end its searches
 when it holds no free entry

---
 src/mpi/hash_table.c | 90 +++++++++++++++++++++++++++-----------------
 1 file changed, 56 insertions(+), 34 deletions(-)

diff --git a/src/mpi/hash_table.c b/src/mpi/hash_table.c
index 7e132b0..c0e9650 100644
--- a/src/mpi/hash_table.c
+++ b/src/mpi/hash_table.c
@@ -8,12 +8,13 @@
 #define SIZE 256
 
 struct DataItem {
-   int data;   
+   int data;
    MPI_Request key;
 };
 
 static struct DataItem** hashArray;
 static struct DataItem* dummyItem;
+static int size, used;
 
 static int hashCode(MPI_Request *key) {
    unsigned char value = 0;
@@ -24,63 +25,84 @@ static int hashCode(MPI_Request *key) {
    return value;
 }
 
-int ext_mpi_hash_search(MPI_Request *key) {
-   int hashIndex = hashCode(key);  
+static int hashFind(MPI_Request *key) {
+   int hashIndex = hashCode(key), i;
 
-   while(hashArray[hashIndex] != NULL) {
+   for (i = 0; i < size && hashArray[hashIndex] != NULL; i++) {
 
-      if(hashArray[hashIndex]->key == *key)
-         return hashArray[hashIndex]->data;
+      if(hashArray[hashIndex] != dummyItem && hashArray[hashIndex]->key == *key)
+         return hashIndex;
 
       ++hashIndex;
 
-      hashIndex %= SIZE;
-   }        
+      hashIndex %= size;
+   }
 
    return -1;
 }
 
-void ext_mpi_hash_insert(MPI_Request *key, int data) {
+int ext_mpi_hash_search(MPI_Request *key) {
+   int hashIndex = hashFind(key);
 
-   struct DataItem *item = (struct DataItem*) malloc(sizeof(struct DataItem));
-   item->data = data;  
-   item->key = *key;
+   return hashIndex >= 0 ? hashArray[hashIndex]->data : -1;
+}
 
-   int hashIndex = hashCode(key);
+static void hashPut(struct DataItem *item) {
+   int hashIndex = hashCode(&item->key);
 
-   while(hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_REQUEST_NULL) {
+   while(hashArray[hashIndex] != NULL && hashArray[hashIndex] != dummyItem) {
       ++hashIndex;
 		
-      hashIndex %= SIZE;
+      hashIndex %= size;
    }
 	
    hashArray[hashIndex] = item;
 }
 
-int ext_mpi_hash_delete(MPI_Request *key) {
-   int hashIndex = hashCode(key);
+void ext_mpi_hash_insert(MPI_Request *key, int data) {
 
-   while(hashArray[hashIndex] != NULL) {
-	
-      if(hashArray[hashIndex]->key == *key) {
-         int temp = hashArray[hashIndex]->data;
-	 free(hashArray[hashIndex]);
-         hashArray[hashIndex] = dummyItem;
-         return temp;
+   struct DataItem *item = (struct DataItem*) malloc(sizeof(struct DataItem)), **hashArrayOld;
+   int i;
+   item->data = data;  
+   item->key = *key;
+
+   if (++used > size / 2) {
+      hashArrayOld = hashArray;
+      size *= 2;
+      hashArray = (struct DataItem**) malloc(size*sizeof(struct DataItem*));
+      for (i=0; i<size; i++){
+        hashArray[i] = NULL;
       }
-		
-      ++hashIndex;
-		
-      hashIndex %= SIZE;
-   }      
-	
-   return -1;
+      for (i=0; i<size/2; i++){
+        if (hashArrayOld[i] != NULL && hashArrayOld[i] != dummyItem) {
+          hashPut(hashArrayOld[i]);
+        }
+      }
+      free(hashArrayOld);
+   }
+
+   hashPut(item);
+}
+
+int ext_mpi_hash_delete(MPI_Request *key) {
+   int hashIndex = hashFind(key), temp;
+
+   if (hashIndex < 0)
+      return -1;
+
+   temp = hashArray[hashIndex]->data;
+   free(hashArray[hashIndex]);
+   hashArray[hashIndex] = dummyItem;
+   used--;
+   return temp;
 }
 
 int ext_mpi_hash_init(){
   int i;
-  hashArray = (struct DataItem**) malloc(SIZE*sizeof(struct DataItem*));
-  for (i=0; i<SIZE; i++){
+  size = SIZE;
+  used = 0;
+  hashArray = (struct DataItem**) malloc(size*sizeof(struct DataItem*));
+  for (i=0; i<size; i++){
     hashArray[i] = NULL;
   }
   dummyItem = (struct DataItem*) malloc(sizeof(struct DataItem));
@@ -94,7 +116,7 @@ int ext_mpi_hash_init(){
 
 int ext_mpi_hash_done() {
   int i;
-  for (i = 0; i < SIZE; i++) {
+  for (i = 0; i < size; i++) {
     if (hashArray[i] != dummyItem) {
       free(hashArray[i]);
     }
-- 
2.43.0


From 606cd4ecc46ab46682ac122ccdbf15a17b83eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:24 +0000
Subject: [PATCH 18/51] fix: MPI_Waitany, Testany, Waitsome and Testsome pass
 over requests that are not active

---
 include/mpi/hash_table.h    |  1 +
 src/mpi/ext_mpi_interface.c | 78 ++++++++++++++++++++++---------------
 src/mpi/hash_table.c        |  8 ++++
 3 files changed, 56 insertions(+), 31 deletions(-)

diff --git a/include/mpi/hash_table.h b/include/mpi/hash_table.h
index 2944280..0441795 100644
--- a/include/mpi/hash_table.h
+++ b/include/mpi/hash_table.h
@@ -12,6 +12,7 @@ extern "C"
 #endif
 
 int ext_mpi_hash_search(MPI_Request *key);
+int *ext_mpi_hash_active(MPI_Request *key);
 void ext_mpi_hash_insert(MPI_Request *key, int data);
 int ext_mpi_hash_delete(MPI_Request *key);
 int ext_mpi_hash_init();
diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 3195e2e..3304296 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -129,6 +129,7 @@ int MPI_Start(MPI_Request *request){
   int handle=ext_mpi_hash_search(request);
   if (handle >= 0){
     EXT_MPI_Start(handle);
+    *ext_mpi_hash_active(request) = 1;
     return MPI_SUCCESS;
   }else{
     return PMPI_Start(request);
@@ -139,6 +140,7 @@ int MPI_Wait(MPI_Request *request, MPI_Status *status){
   int handle=ext_mpi_hash_search(request);
   if (handle >= 0){
     EXT_MPI_Wait(handle);
+    *ext_mpi_hash_active(request) = 0;
     return MPI_SUCCESS;
   }else{
     return PMPI_Wait(request, status);
@@ -178,42 +180,45 @@ int MPI_Waitall(int count, MPI_Request array_of_requests[], MPI_Status array_of_
   return MPI_SUCCESS;
 }
 
+/* MPI_Test of a request which tells in addition whether the request is active */
+static int test_active(MPI_Request *request, int *active, int *flag, MPI_Status *status){
+  int *hash_active=ext_mpi_hash_active(request), indx, ret;
+  if (hash_active){
+    *active = *hash_active;
+    return MPI_Test(request, flag, status);
+  }
+  ret = PMPI_Testany(1, request, &indx, flag, status);
+  *active = !(*flag && indx == MPI_UNDEFINED);
+  return ret;
+}
+
 int MPI_Waitany(int count, MPI_Request array_of_requests[], int *indx, MPI_Status *status){
-  int ret, flag, i;
+  int ret, flag;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Waitany(count, array_of_requests, indx, status);
   }
-  while (1){
-    for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &flag, status);
-      if (ret != MPI_SUCCESS){
-        return ret;
-      }
-      if (flag){
-        *indx = i;
-        return MPI_SUCCESS;
-      }
-    }
-  }
-  return MPI_SUCCESS;
+  do {
+    ret = MPI_Testany(count, array_of_requests, indx, &flag, status);
+  } while (ret == MPI_SUCCESS && !flag);
+  return ret;
 }
 
 int MPI_Waitsome(int incount, MPI_Request array_of_requests[], int *outcount, int array_of_indices[], MPI_Status array_of_statuses[]){
+  int ret;
   if (!is_in_request_array(incount, array_of_requests)){
     return PMPI_Waitsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
   }
-  *outcount = 1;
-  if (array_of_statuses == MPI_STATUSES_IGNORE){
-    return MPI_Waitany(incount, array_of_requests, &array_of_indices[0], MPI_STATUS_IGNORE);
-  }else{
-    return MPI_Waitany(incount, array_of_requests, &array_of_indices[0], &array_of_statuses[0]);
-  }
+  do {
+    ret = MPI_Testsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
+  } while (ret == MPI_SUCCESS && !*outcount);
+  return ret;
 }
 
 int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
   int handle=ext_mpi_hash_search(request);
   if (handle >= 0){
     *flag=EXT_MPI_Test(handle);
+    if (*flag) *ext_mpi_hash_active(request) = 0;
     return MPI_SUCCESS;
   }else{
     return PMPI_Test(request, flag, status);
@@ -248,36 +253,47 @@ int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Statu
 }
 
 int MPI_Testany(int count, MPI_Request array_of_requests[], int *indx, int *flag, MPI_Status *status){
-  int ret, lflag, i;
+  int ret, active, any_active = 0, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Testany(count, array_of_requests, indx, flag, status);
   }
-  *flag = 0;
   for (i=0; i<count; i++){
-    ret = MPI_Test(&array_of_requests[i], &lflag, status);
+    ret = test_active(&array_of_requests[i], &active, flag, status);
     if (ret != MPI_SUCCESS){
       return ret;
     }
-    if (lflag){
-      *flag = 1;
+    if (active && *flag){
       *indx = i;
       return MPI_SUCCESS;
     }
+    any_active |= active;
   }
+  *flag = !any_active;
+  *indx = MPI_UNDEFINED;
   return MPI_SUCCESS;
 }
 
 int MPI_Testsome(int incount, MPI_Request array_of_requests[], int *outcount, int array_of_indices[], MPI_Status array_of_statuses[]){
-  int flag;
+  int ret, flag, active, any_active = 0, i;
   if (!is_in_request_array(incount, array_of_requests)){
     return PMPI_Testsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
   }
-  *outcount = 1;
-  if (array_of_statuses == MPI_STATUSES_IGNORE){
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, MPI_STATUS_IGNORE);
-  }else{
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, &array_of_statuses[0]);
+  *outcount = 0;
+  for (i=0; i<incount; i++){
+    ret = test_active(&array_of_requests[i], &active, &flag,
+                      array_of_statuses == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &array_of_statuses[*outcount]);
+    if (ret != MPI_SUCCESS){
+      return ret;
+    }
+    if (active && flag){
+      array_of_indices[(*outcount)++] = i;
+    }
+    any_active |= active;
+  }
+  if (!any_active){
+    *outcount = MPI_UNDEFINED;
   }
+  return MPI_SUCCESS;
 }
 
 int MPI_Allgather_init(const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, MPI_Comm comm, MPI_Info info, MPI_Request *request){
diff --git a/src/mpi/hash_table.c b/src/mpi/hash_table.c
index c0e9650..c7e5c73 100644
--- a/src/mpi/hash_table.c
+++ b/src/mpi/hash_table.c
@@ -9,6 +9,7 @@
 
 struct DataItem {
    int data;
+   int active;
    MPI_Request key;
 };
 
@@ -47,6 +48,12 @@ int ext_mpi_hash_search(MPI_Request *key) {
    return hashIndex >= 0 ? hashArray[hashIndex]->data : -1;
 }
 
+int *ext_mpi_hash_active(MPI_Request *key) {
+   int hashIndex = hashFind(key);
+
+   return hashIndex >= 0 ? &hashArray[hashIndex]->active : NULL;
+}
+
 static void hashPut(struct DataItem *item) {
    int hashIndex = hashCode(&item->key);
 
@@ -64,6 +71,7 @@ void ext_mpi_hash_insert(MPI_Request *key, int data) {
    struct DataItem *item = (struct DataItem*) malloc(sizeof(struct DataItem)), **hashArrayOld;
    int i;
    item->data = data;  
+   item->active = 0;
    item->key = *key;
 
    if (++used > size / 2) {
-- 
2.43.0


From 6408914e6b63e44957f9b97dfabfaab047333991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:24 +0000
Subject: [PATCH 19/51] fix: MPI_Testall reports an incomplete collective and
 keeps the other requests until all are complete

---
 src/mpi/ext_mpi_interface.c | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 3304296..710ae56 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -226,28 +226,26 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
 }
 
 int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Status array_of_statuses[]){
-  int ret, lflag, i;
+  int ret, lflag, handle, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Testall(count, array_of_requests, flag, array_of_statuses);
   }
-  if (array_of_statuses == MPI_STATUSES_IGNORE){
-    *flag = 1;
-    for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &lflag, MPI_STATUS_IGNORE);
-      if (ret != MPI_SUCCESS){
-        return ret;
-      }
-      if (!lflag) flag=0;
-    }
-  }else{
-    *flag = 1;
-    for (i=0; i<count; i++){
-      ret = MPI_Test(&array_of_requests[i], &lflag, &array_of_statuses[i]);
+  *flag = 1;
+  for (i=0; i<count; i++){
+    handle = ext_mpi_hash_search(&array_of_requests[i]);
+    if (handle >= 0){
+      lflag = EXT_MPI_Test(handle);
+    }else{
+      // no request is released before all of them are complete
+      ret = PMPI_Request_get_status(array_of_requests[i], &lflag, MPI_STATUS_IGNORE);
       if (ret != MPI_SUCCESS){
         return ret;
       }
-      if (!lflag) *flag=0;
     }
+    if (!lflag) *flag = 0;
+  }
+  if (*flag){
+    return MPI_Waitall(count, array_of_requests, array_of_statuses);
   }
   return MPI_SUCCESS;
 }
-- 
2.43.0


From 5145e2ab396ced0a8676086bcb82547ddfcac50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 20/51] fix: MPI_Startall starts persistent collectives

---
 src/mpi/ext_mpi_interface.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 710ae56..97514d1 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -136,6 +136,17 @@ int MPI_Start(MPI_Request *request){
   }
 }
 
+int MPI_Startall(int count, MPI_Request array_of_requests[]){
+  int ret, i;
+  for (i=0; i<count; i++){
+    ret = MPI_Start(&array_of_requests[i]);
+    if (ret != MPI_SUCCESS){
+      return ret;
+    }
+  }
+  return MPI_SUCCESS;
+}
+
 int MPI_Wait(MPI_Request *request, MPI_Status *status){
   int handle=ext_mpi_hash_search(request);
   if (handle >= 0){
-- 
2.43.0


From 49f1693221f0dec04ac02604dcc2e599173c8adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:05 +0000
Subject: [PATCH 21/51] fix: copy-in of short messages on one node uses the
 compact shared memory layout in every stage

---
 src/core/reduce_copyin.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index 62dee4f..0ea3258 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -318,8 +318,13 @@ nparallel = 2;
     } else {
       lrank = rank - hsocket_size;
     }
-    offset1 = lrank * size + add_local;
-    offset2 = (lrank + hsocket_size) * size + add_local;
+    if (!fast) {
+      offset1 = lrank * size + add_local;
+      offset2 = (lrank + hsocket_size) * size + add_local;
+    } else {
+      offset1 = lrank * CACHE_LINE_SIZE + OFFSET_FAST + add_local;
+      offset2 = (lrank + hsocket_size) * CACHE_LINE_SIZE + OFFSET_FAST + add_local;
+    }
     nbuffer_out += write_memcpy_reduce(esreduce, eshmemo, 0, fast, offset1, eshmemo, 0, fast, offset2, size_local, 0, buffer_out + nbuffer_out, ascii);
     nbuffer_out += local_barrier(-nparallel, nparallel, ranks, buffer_out + nbuffer_out, ascii);
   } else {
-- 
2.43.0


From ab6e4838602e25eeda48df82bfce703b55a40a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 22/51] fix: nodes agree on the task that carries a message
 when the blocks are reordered

---
 src/core/raw_code_tasks_node.c | 42 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/core/raw_code_tasks_node.c b/src/core/raw_code_tasks_node.c
index 20b4e36..1866956 100644
--- a/src/core/raw_code_tasks_node.c
+++ b/src/core/raw_code_tasks_node.c
@@ -81,35 +81,35 @@ int ext_mpi_generate_raw_code_tasks_node(char *buffer_in, char *buffer_out) {
     for (j = 0; j < data.blocks[i].num_lines; j++) {
       for (k = 0; k < data.blocks[i].lines[j].recvfrom_max; k++) {
         if (data.blocks[i].lines[j].recvfrom_node[k] >= 0) {
-          nodes_recv[(+rank_perm[data.blocks[i].lines[j].recvfrom_node[k]] - rank_perm[node] +
+          nodes_recv[(+rank_back_perm[data.blocks[i].lines[j].recvfrom_node[k]] - rank_back_perm[node] +
                       num_nodes) %
-                     num_nodes] = (+rank_perm[data.blocks[i].lines[j].recvfrom_node[k]] -
-                                   rank_perm[node] + num_nodes) %
+                     num_nodes] = (+rank_back_perm[data.blocks[i].lines[j].recvfrom_node[k]] -
+                                   rank_back_perm[node] + num_nodes) %
                                   num_nodes;
         }
         if (data.blocks[i].lines[j].recvfrom_node[k] <= -10) {
-          nodes_recv[(+rank_perm[10 - data.blocks[i].lines[j].recvfrom_node[k]] -
-                      rank_perm[node] + num_nodes) %
-                     num_nodes] = (+rank_perm[10 - data.blocks[i].lines[j].recvfrom_node[k]] -
-                                   rank_perm[node] + num_nodes) %
+          nodes_recv[(+rank_back_perm[10 - data.blocks[i].lines[j].recvfrom_node[k]] -
+                      rank_back_perm[node] + num_nodes) %
+                     num_nodes] = (+rank_back_perm[10 - data.blocks[i].lines[j].recvfrom_node[k]] -
+                                   rank_back_perm[node] + num_nodes) %
                                   num_nodes;
         }
       }
       for (k = 0; k < data.blocks[i].lines[j].sendto_max; k++) {
         if (data.blocks[i].lines[j].sendto_node[k] >= 0) {
-          nodes_send[(-rank_perm[data.blocks[i].lines[j].sendto_node[k]] + rank_perm[node] +
+          nodes_send[(-rank_back_perm[data.blocks[i].lines[j].sendto_node[k]] + rank_back_perm[node] +
                       num_nodes) %
                      num_nodes] =
-              (-rank_perm[data.blocks[i].lines[j].sendto_node[k]] + rank_perm[node] + num_nodes) %
+              (-rank_back_perm[data.blocks[i].lines[j].sendto_node[k]] + rank_back_perm[node] + num_nodes) %
               num_nodes;
         }
       }
       for (k = 0; k < data.blocks[i].lines[j].sendto_max; k++) {
         if (data.blocks[i].lines[j].sendto_node[k] <= -10) {
-          nodes_send[(-rank_perm[10 - data.blocks[i].lines[j].sendto_node[k]] + rank_perm[node] +
+          nodes_send[(-rank_back_perm[10 - data.blocks[i].lines[j].sendto_node[k]] + rank_back_perm[node] +
                       num_nodes) %
-                     num_nodes] = (-rank_perm[10 - data.blocks[i].lines[j].sendto_node[k]] +
-                                   rank_perm[node] + num_nodes) %
+                     num_nodes] = (-rank_back_perm[10 - data.blocks[i].lines[j].sendto_node[k]] +
+                                   rank_back_perm[node] + num_nodes) %
                                   num_nodes;
         }
       }
@@ -141,21 +141,21 @@ int ext_mpi_generate_raw_code_tasks_node(char *buffer_in, char *buffer_out) {
     for (j = 0; j < data.blocks[i].num_lines; j++) {
       for (k = 0; k < data.blocks[i].lines[j].recvfrom_max; k++) {
         if (data.blocks[i].lines[j].recvfrom_node[k] >= 0) {
-          l = nodes_recv[(+rank_perm[data.blocks[i].lines[j].recvfrom_node[k]] -
-                          rank_perm[node] + num_nodes) %
+          l = nodes_recv[(+rank_back_perm[data.blocks[i].lines[j].recvfrom_node[k]] -
+                          rank_back_perm[node] + num_nodes) %
                          num_nodes];
           if (l >= 0) {
             data.blocks[i].lines[j].recvfrom_node[k] =
-                (+l + rank_perm[node] * node_size + num_nodes * node_size) %
+                (+l + rank_back_perm[node] * node_size + num_nodes * node_size) %
                     (num_nodes * node_size) +
                 node_rank;
             data.blocks[i].lines[j].recvfrom_node[k] =
-                rank_back_perm[data.blocks[i].lines[j].recvfrom_node[k] / node_size] *
+                rank_perm[data.blocks[i].lines[j].recvfrom_node[k] / node_size] *
                     node_size +
                 data.blocks[i].lines[j].recvfrom_node[k] % node_size;
           } else {
             data.blocks[i].lines[j].recvfrom_node[k] =
-                -(rank_back_perm[((-l - 10 + rank_perm[node] * node_size +
+                -(rank_perm[((-l - 10 + rank_back_perm[node] * node_size +
                                    num_nodes * node_size) %
                                   (num_nodes * node_size)) /
                                  node_size] *
@@ -169,20 +169,20 @@ int ext_mpi_generate_raw_code_tasks_node(char *buffer_in, char *buffer_out) {
       }
       for (k = 0; k < data.blocks[i].lines[j].sendto_max; k++) {
         if (data.blocks[i].lines[j].sendto_node[k] >= 0) {
-          l = nodes_send[(-rank_perm[data.blocks[i].lines[j].sendto_node[k]] + rank_perm[node] +
+          l = nodes_send[(-rank_back_perm[data.blocks[i].lines[j].sendto_node[k]] + rank_back_perm[node] +
                           num_nodes) %
                          num_nodes];
           if (l >= 0) {
             data.blocks[i].lines[j].sendto_node[k] =
-                (-l + rank_perm[node] * node_size + num_nodes * node_size) %
+                (-l + rank_back_perm[node] * node_size + num_nodes * node_size) %
                     (num_nodes * node_size) +
                 node_rank;
             data.blocks[i].lines[j].sendto_node[k] =
-                rank_back_perm[data.blocks[i].lines[j].sendto_node[k] / node_size] * node_size +
+                rank_perm[data.blocks[i].lines[j].sendto_node[k] / node_size] * node_size +
                 data.blocks[i].lines[j].sendto_node[k] % node_size;
           } else {
             data.blocks[i].lines[j].sendto_node[k] =
-                -(rank_back_perm[((+l + 10 + rank_perm[node] * node_size +
+                -(rank_perm[((+l + 10 + rank_back_perm[node] * node_size +
                                    num_nodes * node_size) %
                                   (num_nodes * node_size)) /
                                  node_size] *
-- 
2.43.0


From 929ae5215d2ce0025222ec3d6c54846b78837aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 23/51] fix: schedules work on the user buffers only if these
 have the layout of the working buffer

---
 src/mpi/ext_mpi_native.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 5606acb..6e757c1 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -552,6 +552,17 @@ error_shared:
   return ERROR_SHMEM;
 }
 
+/* the user buffers have the layout of the working buffer only for equal blocks (no permutation of the blocks, no empty messages) */
+static int equal_counts(const int *counts, int size) {
+  int i;
+  for (i = 0; i < size; i++) {
+    if (counts[i] != counts[0]) {
+      return 0;
+    }
+  }
+  return counts[0] > 0;
+}
+
 int EXT_MPI_Reduce_init_native(const void *sendbuf, void *recvbuf, int count,
                                MPI_Datatype datatype, MPI_Op op, int root,
                                MPI_Comm comm_row, int my_cores_per_node_row,
@@ -848,7 +859,7 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root > -10 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (root == -1 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -907,6 +918,7 @@ int EXT_MPI_Gatherv_init_native(
   int *coarse_counts = NULL, *local_counts = NULL, *global_counts = NULL, iret;
   char *buffer1 = NULL, *buffer2 = NULL, *buffer_temp, *str;
   int nbuffer1 = 0, i, j;
+  int use_user_buffers;
   buffer1 = (char *)malloc(MAX_BUFFER_SIZE);
   if (!buffer1)
     goto error;
@@ -927,6 +939,7 @@ int EXT_MPI_Gatherv_init_native(
     printf("sendtype != recvtype not implemented\n");
     exit(2);
   }
+  use_user_buffers = root < 0 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && equal_counts(recvcounts, my_mpi_size_row);
   my_node = my_mpi_rank_row / my_cores_per_node_row;
   my_lrank_row = my_mpi_rank_row % my_cores_per_node_row;
   my_lrank_column = my_mpi_rank_column % my_cores_per_node_column;
@@ -1102,7 +1115,7 @@ int EXT_MPI_Gatherv_init_native(
 #ifdef GPU_ENABLED
   }
 #endif
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (use_user_buffers) {
     if (ext_mpi_generate_use_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1125,7 +1138,7 @@ int EXT_MPI_Gatherv_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1){
+  if (use_user_buffers) {
     if (ext_mpi_generate_swap_copyin(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
@@ -1611,7 +1624,7 @@ int EXT_MPI_Reduce_scatter_init_native(
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (!not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1 && equal_counts(recvcounts, my_mpi_size_row)) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From fe07d805dcbf0bfdf0b973ff873bec1e1fa8abd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:26 +0000
Subject: [PATCH 24/51] fix: reduce and bcast with partly disabled transfers
 put the received blocks at their own places

---
 src/core/raw_code.c      | 86 +++++++++++++++++++++++-----------------
 src/mpi/ext_mpi_native.c |  2 +-
 2 files changed, 50 insertions(+), 38 deletions(-)

diff --git a/src/core/raw_code.c b/src/core/raw_code.c
index c83ea99..7ca0d6d 100644
--- a/src/core/raw_code.c
+++ b/src/core/raw_code.c
@@ -219,49 +219,61 @@ int ext_mpi_generate_raw_code(char *buffer_in, char *buffer_out) {
     for (o = 0; o < num_nodes; o++) {
       q = (num_nodes + node - o) % num_nodes;
       size = 0;
-      flag = 1;
-      j = 0;
-      for (n = 0; n < data.blocks[m].num_lines; n++) {
-        for (i = 0; i < data.blocks[m].lines[n].recvfrom_max; i++) {
-          if (((data.blocks[m].lines[n].recvfrom_node[i] == q) && (q != node)) ||
-              ((-data.blocks[m].lines[n].recvfrom_node[i] - 10 == q) && (q != node))) {
-            size += mmsizes(msizes, num_nodes / node_size, msizes_max, data.blocks[m].lines[n].frac);
-            i = data.blocks[m].lines[n].recvfrom_max;
-            flag = 0;
-            k = n;
+      add = add2 = 0;
+      k = -1;
+      /* the lines received from one partner are not contiguous if some of them have been disabled */
+      for (n = 0; n <= data.blocks[m].num_lines; n++) {
+        flag = 1;
+        if (n < data.blocks[m].num_lines) {
+          for (i = 0; i < data.blocks[m].lines[n].recvfrom_max; i++) {
+            if (((data.blocks[m].lines[n].recvfrom_node[i] == q) && (q != node)) ||
+                ((-data.blocks[m].lines[n].recvfrom_node[i] - 10 == q) && (q != node))) {
+              flag = 0;
+            }
           }
         }
-        if (flag) {
-          j += mmsizes(msizes, num_nodes / node_size, msizes_max, data.blocks[m].lines[n].frac);
-        }
-      }
-      if (size && (q != node)) {
-        data_memcpy_reduce.buffer_type1 = eshmemo;
-        data_memcpy_reduce.buffer_number1 = 0;
-        data_memcpy_reduce.is_offset1 = 1;
-        data_memcpy_reduce.offset_number1 = 0;
-        data_memcpy_reduce.offset1= j;
-        data_memcpy_reduce.buffer_type2 = eshmemo;
-        data_memcpy_reduce.buffer_number2 = 0;
-        data_memcpy_reduce.is_offset2 = 1;
-        data_memcpy_reduce.offset_number2 = buffer_counter;
-        data_memcpy_reduce.offset2 = 0;
-        data_memcpy_reduce.size = size;
-        if ((data.blocks[m].lines[k].recvfrom_node[0] != node) &&
-            (-data.blocks[m].lines[k].recvfrom_node[0] - 10 != node)) {
-          if (node_rank == 0) {
-            data_memcpy_reduce.type = ememcpy;
+        if (flag && size && (n == data.blocks[m].num_lines || mmsizes(msizes, num_nodes / node_size, msizes_max, data.blocks[m].lines[n].frac))) {
+          data_memcpy_reduce.buffer_type1 = eshmemo;
+          data_memcpy_reduce.buffer_number1 = 0;
+          data_memcpy_reduce.is_offset1 = 1;
+          data_memcpy_reduce.offset_number1 = 0;
+          data_memcpy_reduce.offset1= j;
+          data_memcpy_reduce.buffer_type2 = eshmemo;
+          data_memcpy_reduce.buffer_number2 = 0;
+          data_memcpy_reduce.is_offset2 = 1;
+          data_memcpy_reduce.offset_number2 = buffer_counter;
+          data_memcpy_reduce.offset2 = add2;
+          data_memcpy_reduce.size = size;
+          if ((data.blocks[m].lines[k].recvfrom_node[0] != node) &&
+              (-data.blocks[m].lines[k].recvfrom_node[0] - 10 != node)) {
+            if (node_rank == 0) {
+              data_memcpy_reduce.type = ememcpy;
+            } else {
+              data_memcpy_reduce.type = ememcp_;
+            }
           } else {
-            data_memcpy_reduce.type = ememcp_;
+            if (node_rank == 0) {
+              data_memcpy_reduce.type = ereduce;
+            } else {
+              data_memcpy_reduce.type = ereduc_;
+            }
           }
-        } else {
-          if (node_rank == 0) {
-            data_memcpy_reduce.type = ereduce;
-          } else {
-            data_memcpy_reduce.type = ereduc_;
+          nbuffer_out += ext_mpi_write_memcpy_reduce(buffer_out + nbuffer_out, &data_memcpy_reduce, parameters->ascii_out);
+          add2 += size;
+          size = 0;
+        }
+        if (n < data.blocks[m].num_lines) {
+          if (!flag) {
+            if (!size) {
+              j = add;
+            }
+            size += mmsizes(msizes, num_nodes / node_size, msizes_max, data.blocks[m].lines[n].frac);
+            k = n;
           }
+          add += mmsizes(msizes, num_nodes / node_size, msizes_max, data.blocks[m].lines[n].frac);
         }
-        nbuffer_out += ext_mpi_write_memcpy_reduce(buffer_out + nbuffer_out, &data_memcpy_reduce, parameters->ascii_out);
+      }
+      if (add2) {
         buffer_counter++;
       }
     }
diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 6e757c1..ec308a2 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -773,7 +773,7 @@ buffer2 = buffer_temp;
     buffer1 = buffer2;
     buffer2 = buffer_temp;
   }
-  if (my_cores_per_node_row * my_cores_per_node_column > 1) {
+  if (my_cores_per_node_row * my_cores_per_node_column > 1 || root != -1) {
 #ifdef GPU_ENABLED
   if (!gpu_is_device_pointer(recvbuf)) {
 #endif
-- 
2.43.0


From 9ba8431a87b89a5ff8de0db92010a2f977e64e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:44 +0000
Subject: [PATCH 25/51] fix: in-place allreduce does not run on the user
 buffers as if they were two

---
 src/mpi/ext_mpi_native.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index ec308a2..b1ec0b0 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -859,7 +859,7 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root == -1 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (root == -1 && sendbuf != recvbuf && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From 885a4956a6173a8cf835a6d60c7c6831f018d08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:08 +0000
Subject: [PATCH 26/51] fix: gatherv and scatterv use the counts of the root,
 which are not significant at the other ranks

---
 src/mpi/ext_mpi.c | 44 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index bdc4318..c66c316 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -959,21 +959,57 @@ int EXT_MPI_Reduce_init(const void *sendbuf, void *recvbuf, int count,
                                      root, comm, info, handle);
 }
 
+/* counts and displacements of all blocks, which are significant at the root only */
+static int *counts_displs_of_root(const int *counts, const int *displs, int root, MPI_Comm comm) {
+  int comm_size, comm_rank, *counts_displs;
+  MPI_Comm_size(comm, &comm_size);
+  MPI_Comm_rank(comm, &comm_rank);
+  counts_displs = (int *)malloc(2 * comm_size * sizeof(int));
+  if (!counts_displs)
+    return NULL;
+  if (comm_rank == root) {
+    memcpy(counts_displs, counts, comm_size * sizeof(int));
+    memcpy(counts_displs + comm_size, displs, comm_size * sizeof(int));
+  }
+  PMPI_Bcast(counts_displs, 2 * comm_size, MPI_INT, root, comm);
+  return counts_displs;
+}
+
 int EXT_MPI_Gatherv_init(const void *sendbuf, int sendcount,
                          MPI_Datatype sendtype, void *recvbuf,
                          const int *recvcounts, const int *displs,
                          MPI_Datatype recvtype, int root,
                          MPI_Comm comm, MPI_Info info, int *handle){
-  return ext_mpi_gatherv_init_general(sendbuf, sendcount, sendtype, recvbuf, recvcounts, displs, recvtype,
-                                      root, comm, info, handle);
+  int comm_size, comm_rank, *counts_displs, ret;
+  MPI_Comm_size(comm, &comm_size);
+  MPI_Comm_rank(comm, &comm_rank);
+  counts_displs = counts_displs_of_root(recvcounts, displs, root, comm);
+  if (!counts_displs)
+    return ERROR_MALLOC;
+  if (comm_rank != root)
+    recvtype = sendtype;
+  ret = ext_mpi_gatherv_init_general(sendbuf, sendcount, sendtype, recvbuf, counts_displs, counts_displs + comm_size, recvtype,
+                                     root, comm, info, handle);
+  free(counts_displs);
+  return ret;
 }
 
 int EXT_MPI_Scatterv_init(const void *sendbuf, const int *sendcounts, const int *displs,
                           MPI_Datatype sendtype, void *recvbuf,
                           int recvcount, MPI_Datatype recvtype,
                           int root, MPI_Comm comm, MPI_Info info, int *handle){
-  return ext_mpi_scatterv_init_general(sendbuf, sendcounts, displs, sendtype, recvbuf, recvcount, recvtype,
-                                       root, comm, info, handle);
+  int comm_size, comm_rank, *counts_displs, ret;
+  MPI_Comm_size(comm, &comm_size);
+  MPI_Comm_rank(comm, &comm_rank);
+  counts_displs = counts_displs_of_root(sendcounts, displs, root, comm);
+  if (!counts_displs)
+    return ERROR_MALLOC;
+  if (comm_rank != root)
+    sendtype = recvtype;
+  ret = ext_mpi_scatterv_init_general(sendbuf, counts_displs, counts_displs + comm_size, sendtype, recvbuf, recvcount, recvtype,
+                                      root, comm, info, handle);
+  free(counts_displs);
+  return ret;
 }
 
 int EXT_MPI_Start(int handle) {
-- 
2.43.0


From 36ff66c0cc09daf0997e3a077d57afc46b177c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:19 +0000
Subject: [PATCH 27/51] fix: a port list given by info counts as recursive or
 not like the same list in the environment

---
 src/mpi/num_ports_factors.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index b6ad503..9b790d3 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -101,7 +101,7 @@ int ext_mpi_num_ports_factors_info(MPI_Comm comm_row, MPI_Info info, int **num_p
     MPI_Info_get(info, "ext_mpi_num_ports", 1000, value, &flag);
     if (flag) {
       ext_mpi_scan_ports_groups(value, num_ports, groups);
-      return 1;
+      return get_group_size(*num_ports, *groups);
     }
   }
   return -1;
-- 
2.43.0


From 35535874eba27f3ee30d8a968063252ef574541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:19 +0000
Subject: [PATCH 28/51] fix: room for all stages of the port list of minimum
 computation

---
 src/mpi/num_ports_factors.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index 9b790d3..a9e9e2f 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -111,8 +111,9 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   int comm_rank_row, comm_size_row, factors_max_max = -1, group_size, **factors, *factors_max, *primes, i, j;
   PMPI_Comm_rank(comm_row, &comm_rank_row);
   PMPI_Comm_size(comm_row, &comm_size_row);
-  (*num_ports) = (int*)malloc((comm_size_row + 1)*sizeof(int));
-  (*groups) = (int*)malloc((comm_size_row + 1)*sizeof(int));
+  // up to two stages per doubling, or the four of ext_mpi_set_ports_single_node
+  (*num_ports) = (int*)malloc((2 * comm_size_row + 5)*sizeof(int));
+  (*groups) = (int*)malloc((2 * comm_size_row + 5)*sizeof(int));
   if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
     (*num_ports)[0] = (*groups)[0] = -1;
     (*num_ports)[1] = (*groups)[1] = 0;
-- 
2.43.0


From 9d085b1a36dea291626116efa6da58c66a620de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:19 +0000
Subject: [PATCH 29/51] fix: minimum computation gives collectives without
 reduction the gathering stages only

---
 src/mpi/num_ports_factors.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index a9e9e2f..8afd78f 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -186,6 +186,13 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
     }
     //set the final value of the array to 0 to indicate the end of it
     (*num_ports)[2*group_size] = (*groups)[2*group_size] = 0;
+    if (collective_type == 1) {
+      //no reduction, only the second group
+      for (int i = 0; i <= group_size; i++) {
+        (*num_ports)[i] = (*num_ports)[i + group_size];
+        (*groups)[i] = (*groups)[i + group_size];
+      }
+    }
   }
   return get_group_size(*num_ports, *groups);
 }
-- 
2.43.0


From cdcff275114e18adf918e248473d75eb347a3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:19 +0000
Subject: [PATCH 30/51] fix: an info value that is not a number leaves the
 default

---
 src/mpi/num_ports_factors.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index 8afd78f..46a8678 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -14,8 +14,7 @@ int ext_mpi_get_param(int ext_mpi_param, MPI_Comm comm, MPI_Info info, char *inf
   }
   if (info != MPI_INFO_NULL) {
     MPI_Info_get(info, info_str, 100, value, &flag);
-    if (flag) {
-      sscanf(value, "%d", &var);
+    if (flag && sscanf(value, "%d", &var) >= 1) {
       return var;
     }
   }
-- 
2.43.0


From 28989e2f321badf85dc0bcbe5369c65abb8fbb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:21 +0000
Subject: [PATCH 31/51] fix: port and copy-in lists from the environment may be
 longer than the communicator

---
 src/mpi/ext_mpi.c | 55 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index c66c316..0bf0427 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -177,6 +177,27 @@ static int delete_env() {
   return 0;
 }
 
+// room for a port list of the schedules or of EXT_MPI_NUM_PORTS
+static int num_ports_size(int size) {
+  int i = 0;
+  if (ext_mpi_fixed_factors_ports) {
+    for (; ext_mpi_fixed_factors_ports[i]; i++);
+  }
+  if (size < i) size = i;
+  if (size < 4) size = 4;
+  return size + 1;
+}
+
+// room for the factors of EXT_MPI_COPYIN
+static int copyin_factors_size(int size) {
+  int i = 0;
+  if (ext_mpi_copyin_factors) {
+    for (; ext_mpi_copyin_factors[i]; i++);
+  }
+  if (size < i) size = i;
+  return size + 1;
+}
+
 int ext_mpi_get_num_tasks_per_socket(MPI_Comm comm, int num_sockets_per_node) {
   int my_mpi_size = -1, my_mpi_rank = -1, num_cores = -1, *all_num_cores, i, j;
   MPI_Comm comm_node;
@@ -241,10 +262,10 @@ int ext_mpi_allgatherv_init_general(const void *sendbuf, int sendcount,
   my_cores_per_node_row = ext_mpi_get_param(ext_mpi_num_tasks_per_socket, comm, info, "ext_mpi_num_tasks_per_socket", ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node));
   my_cores_per_node_column = 1;
   MPI_Type_size(sendtype, &type_size);
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc(num_ports_size(comm_size_row) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc(num_ports_size(comm_size_row) * sizeof(int));
   if (!groups)
     goto error;
   PMPI_Allreduce(&sendcount, &scount, 1, MPI_INT, MPI_MAX, comm);
@@ -313,10 +334,10 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
   my_cores_per_node_row = ext_mpi_get_param(ext_mpi_num_tasks_per_socket, comm, info, "ext_mpi_num_tasks_per_socket", ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node));
   my_cores_per_node_column = 1;
   MPI_Type_size(sendtype, &type_size);
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc(num_ports_size(comm_size_row) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc(num_ports_size(comm_size_row) * sizeof(int));
   if (!groups)
     goto error;
   PMPI_Allreduce(&sendcount, &scount, 1, MPI_INT, MPI_MAX, comm);
@@ -432,13 +453,13 @@ int ext_mpi_reduce_scatter_init_general(
   num_sockets_per_node_ = ext_mpi_get_param(ext_mpi_num_sockets_per_node, comm, info, "ext_mpi_num_sockets_per_node", 1);
   my_cores_per_node = ext_mpi_get_param(ext_mpi_num_tasks_per_socket, comm, info, "ext_mpi_num_tasks_per_socket", ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node_));
   MPI_Type_size(datatype, &type_size);
-  copyin_factors = (int*) malloc(sizeof(int) * (comm_size_row + 1));
+  copyin_factors = (int*) malloc(sizeof(int) * copyin_factors_size(comm_size_row));
   if (!copyin_factors)
     goto error;
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc(num_ports_size(comm_size_row) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc(num_ports_size(comm_size_row) * sizeof(int));
   if (!groups)
     goto error;
   rcount = 0;
@@ -541,10 +562,10 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   my_cores_per_node_column = 1;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc(num_ports_size(comm_size_row) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc(num_ports_size(comm_size_row) * sizeof(int));
   if (!groups)
     goto error;
   rcount = recvcount;
@@ -630,7 +651,7 @@ int ext_mpi_allreduce_init_general(const void *sendbuf, void *recvbuf, int count
   my_cores_per_node_column = 1;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Comm_rank(comm, &comm_rank_row);
-  copyin_factors = (int*) malloc(sizeof(int) * (comm_size_row + 1));
+  copyin_factors = (int*) malloc(sizeof(int) * copyin_factors_size(comm_size_row));
   if (!copyin_factors)
     goto error;
   MPI_Type_size(datatype, &type_size);
@@ -638,10 +659,10 @@ int ext_mpi_allreduce_init_general(const void *sendbuf, void *recvbuf, int count
     sendbuf = recvbuf;
   }
   message_size = type_size * count;
-  num_ports = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc(num_ports_size(2 * comm_size_row) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc(num_ports_size(2 * comm_size_row) * sizeof(int));
   if (!groups)
     goto error;
   for (i = 0; i < comm_size_row; i++) {
@@ -729,16 +750,16 @@ int ext_mpi_reduce_init_general(const void *sendbuf, void *recvbuf, int count,
   my_cores_per_node = ext_mpi_get_param(ext_mpi_num_tasks_per_socket, comm, info, "ext_mpi_num_tasks_per_socket", ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node_));
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Comm_rank(comm, &comm_rank_row);
-  copyin_factors = (int*) malloc(sizeof(int) * (comm_size_row + 1));
+  copyin_factors = (int*) malloc(sizeof(int) * copyin_factors_size(comm_size_row));
   MPI_Type_size(datatype, &type_size);
   if (sendbuf == MPI_IN_PLACE) {
     sendbuf = recvbuf;
   }
   message_size = type_size * count;
-  num_ports = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc(num_ports_size(2 * comm_size_row) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc(num_ports_size(2 * comm_size_row) * sizeof(int));
   if (!groups)
     goto error;
   minimum_computation = ext_mpi_get_param(ext_mpi_minimum_computation, comm, info, "ext_mpi_minimum_computation", 0);
@@ -825,10 +846,10 @@ int ext_mpi_bcast_init_general(void *buffer, int count, MPI_Datatype datatype,
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Type_size(datatype, &type_size);
   message_size = type_size * count;
-  num_ports = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc(num_ports_size(2 * comm_size_row) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc(num_ports_size(2 * comm_size_row) * sizeof(int));
   if (!groups)
     goto error;
   minimum_computation = ext_mpi_get_param(ext_mpi_minimum_computation, comm, info, "ext_mpi_minimum_computation", 0);
-- 
2.43.0


From 7126cb8ef7ad864509c6a2af86cbf17c5e035341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:47 +0000
Subject: [PATCH 32/51] fix: number the requests of the messages left between
 nodes without gaps when sockets use shared memory

---
 src/mpi/messages_shared_memory.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/mpi/messages_shared_memory.c b/src/mpi/messages_shared_memory.c
index b3f228a..03ecd29 100644
--- a/src/mpi/messages_shared_memory.c
+++ b/src/mpi/messages_shared_memory.c
@@ -91,6 +91,20 @@ static int delete_from_list(struct line_list **lines_listed_org, int socket, int
   return ret;
 }
 
+// the requests of the remaining messages are waited for as one block without gaps
+static void renumber_requests(struct line_list *lines_listed){
+  struct line_irecv_isend data_irecv_isend;
+  enum eassembler_type estring1;
+  int num_comm = 0;
+  for (; lines_listed; lines_listed = lines_listed->next) {
+    if (ext_mpi_read_assembler_line(lines_listed->line, 0, "s", &estring1) >= 0 && (estring1 == eisend || estring1 == eirecv)) {
+      ext_mpi_read_irecv_isend(lines_listed->line, &data_irecv_isend);
+      data_irecv_isend.tag = num_comm++;
+      ext_mpi_write_irecv_isend(lines_listed->line, &data_irecv_isend, 0);
+    }
+  }
+}
+
 static struct line_list* new_last_element(struct line_list **lines_listed_org){
   struct line_list *p;
   if (*lines_listed_org == NULL){
@@ -188,6 +202,7 @@ int ext_mpi_messages_shared_memory(char *buffer_in, char *buffer_out, MPI_Comm c
         free(data_irecv_isend_list_temp);
       }
       data_irecv_isend_list_send = NULL;
+      renumber_requests(lines_listed_org);
       nbuffer_out += flush_lines(buffer_out + nbuffer_out, &lines_listed_org, 1, ascii_out);
       lines_listed_org = lines_listed = (struct line_list*)malloc(sizeof(struct line_list));
       lines_listed->next = NULL;
-- 
2.43.0


From 761c3e1f7ec884e96525e9fed95574d3f9ec6df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:07 +0000
Subject: [PATCH 33/51] fix: gathers and scatters over the sockets of one node
 use no reduction stages

---
 src/mpi/num_ports_factors.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index 46a8678..8f5896a 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -113,7 +113,8 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   // up to two stages per doubling, or the four of ext_mpi_set_ports_single_node
   (*num_ports) = (int*)malloc((2 * comm_size_row + 5)*sizeof(int));
   (*groups) = (int*)malloc((2 * comm_size_row + 5)*sizeof(int));
-  if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
+  // the sockets of a single node gather or scatter like nodes
+  if (comm_size_row == my_cores_per_node_row * num_sockets_per_node && (num_sockets_per_node == 1 || collective_type == 0)) {
     (*num_ports)[0] = (*groups)[0] = -1;
     (*num_ports)[1] = (*groups)[1] = 0;
     ext_mpi_set_ports_single_node(num_sockets_per_node, *num_ports, *groups);
-- 
2.43.0


From 7220d6ecdc8197653b0f8599ca33f452276e79df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:46 +0000
Subject: [PATCH 34/51] fix: sockets that share memory do not run on the user
 buffers

---
 src/mpi/ext_mpi_native.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index b1ec0b0..cde3a5e 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -859,7 +859,7 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root == -1 && sendbuf != recvbuf && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (root == -1 && sendbuf != recvbuf && !not_recursive && num_sockets_per_node == 1 && my_cores_per_node_row * my_cores_per_node_column == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From fdd6c1fd1ba3a64e27d213b10d36056977d4756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:59 +0000
Subject: [PATCH 35/51] fix: sockets do not reduce into shared memory that
 another socket is still reading

---
 src/mpi/ext_mpi_native.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index cde3a5e..677862d 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -823,8 +823,10 @@ buffer2 = buffer_temp;
   if (num_sockets_per_node > 1) {
     if (ext_mpi_messages_shared_memory(buffer2, buffer1, comm_row, my_cores_per_node_row, comm_column, my_cores_per_node_column) < 0)
       goto error;
-    if (ext_mpi_generate_optimise_multi_socket(buffer1, buffer2) < 0)
-      goto error;
+    // ext_mpi_generate_optimise_multi_socket would reduce into data that other sockets still read
+    buffer_temp = buffer2;
+    buffer2 = buffer1;
+    buffer1 = buffer_temp;
   }
   if (waitany&&!not_recursive) {
     if (ext_mpi_generate_waitany(buffer2, buffer1) < 0)
-- 
2.43.0


From c75ac6845ebf341470e7c3699c0fff94cbb4b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:34 +0000
Subject: [PATCH 36/51] fix: blocking mode reaches the handle tables

---
 include/mpi/ext_mpi_native.h      |  2 +-
 src/mpi/ext_mpi_native.c          | 16 ++++++++--------
 src/mpi/ext_mpi_native_blocking.c |  2 +-
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/mpi/ext_mpi_native.h b/include/mpi/ext_mpi_native.h
index 6cf2b08..949ab18 100644
--- a/include/mpi/ext_mpi_native.h
+++ b/include/mpi/ext_mpi_native.h
@@ -64,7 +64,7 @@ int EXT_MPI_Init_native();
 int EXT_MPI_Initialized_native();
 int EXT_MPI_Finalize_native();
 
-void ext_mpi_native_export(int *e_handle_code_max, char ***e_comm_code, char ***e_execution_pointer, int **e_active_wait, int *e_is_initialised, MPI_Comm *e_EXT_MPI_COMM_WORLD, int *e_tag_max, void (*e_socket_barrier)(char *shmem, int *barrier_count, int socket_rank, int num_cores), void (*e_node_barrier)(char **shmem, int *barrier_count, int socket_rank, int num_sockets_per_node), void (*e_socket_barrier_atomic_set)(char *shmem, int barrier_count, int entry), void (*e_socket_barrier_atomic_wait)(char *shmem, int *barrier_count, int entry));
+void ext_mpi_native_export(int **e_handle_code_max, char ****e_comm_code, char ****e_execution_pointer, int ***e_active_wait, int **e_is_initialised, MPI_Comm **e_EXT_MPI_COMM_WORLD, int **e_tag_max, void (*e_socket_barrier)(char *shmem, int *barrier_count, int socket_rank, int num_cores), void (*e_node_barrier)(char **shmem, int *barrier_count, int socket_rank, int num_sockets_per_node), void (*e_socket_barrier_atomic_set)(char *shmem, int barrier_count, int entry), void (*e_socket_barrier_atomic_wait)(char *shmem, int *barrier_count, int entry));
 
 #ifdef __cplusplus
 }
diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 677862d..a6e5300 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1661,12 +1661,12 @@ int EXT_MPI_Finalize_native() {
   return 0;
 }
 
-void ext_mpi_native_export(int *e_handle_code_max, char ***e_comm_code, char ***e_execution_pointer, int **e_active_wait, int *e_is_initialised, MPI_Comm *e_ext_mpi_COMM_WORLD_dup, int *e_tag_max, void (*e_socket_barrier)(char *shmem, int *barrier_count, int socket_rank, int num_cores), void (*e_node_barrier)(char **shmem, int *barrier_count, int socket_rank, int num_sockets_per_node), void (*e_socket_barrier_atomic_set)(char *shmem, int barrier_count, int entry), void (*e_socket_barrier_atomic_wait)(char *shmem, int *barrier_count, int entry)){
-  e_handle_code_max = &handle_code_max;
-  e_comm_code = &comm_code;
-  e_execution_pointer = &execution_pointer;
-  e_active_wait = &active_wait;
-  e_is_initialised = &is_initialised;
-  e_ext_mpi_COMM_WORLD_dup = &ext_mpi_COMM_WORLD_dup;
-  e_tag_max = &tag_max;
+void ext_mpi_native_export(int **e_handle_code_max, char ****e_comm_code, char ****e_execution_pointer, int ***e_active_wait, int **e_is_initialised, MPI_Comm **e_ext_mpi_COMM_WORLD_dup, int **e_tag_max, void (*e_socket_barrier)(char *shmem, int *barrier_count, int socket_rank, int num_cores), void (*e_node_barrier)(char **shmem, int *barrier_count, int socket_rank, int num_sockets_per_node), void (*e_socket_barrier_atomic_set)(char *shmem, int barrier_count, int entry), void (*e_socket_barrier_atomic_wait)(char *shmem, int *barrier_count, int entry)){
+  *e_handle_code_max = &handle_code_max;
+  *e_comm_code = &comm_code;
+  *e_execution_pointer = &execution_pointer;
+  *e_active_wait = &active_wait;
+  *e_is_initialised = &is_initialised;
+  *e_ext_mpi_COMM_WORLD_dup = &ext_mpi_COMM_WORLD_dup;
+  *e_tag_max = &tag_max;
 }
diff --git a/src/mpi/ext_mpi_native_blocking.c b/src/mpi/ext_mpi_native_blocking.c
index 32a4940..afb7a7b 100644
--- a/src/mpi/ext_mpi_native_blocking.c
+++ b/src/mpi/ext_mpi_native_blocking.c
@@ -254,7 +254,7 @@ static int add_blocking_native(int count, MPI_Datatype datatype, MPI_Op op, MPI_
 }
 
 int EXT_MPI_Add_blocking_native(int count, MPI_Datatype datatype, MPI_Op op, MPI_Comm comm, int my_cores_per_node, int *num_ports, int *groups, int copyin, int *copyin_factors, int bit, int recursive, int arecursive, int blocking, int num_sockets_per_node, enum ecollective_type collective_type, int i_comm) {
-  ext_mpi_native_export(e_handle_code_max, e_comm_code, e_execution_pointer, e_active_wait, e_is_initialised, e_EXT_MPI_COMM_WORLD, e_tag_max, e_socket_barrier, e_node_barrier, e_socket_barrier_atomic_set, e_socket_barrier_atomic_wait);
+  ext_mpi_native_export(&e_handle_code_max, &e_comm_code, &e_execution_pointer, &e_active_wait, &e_is_initialised, &e_EXT_MPI_COMM_WORLD, &e_tag_max, e_socket_barrier, e_node_barrier, e_socket_barrier_atomic_set, e_socket_barrier_atomic_wait);
   add_blocking_native(count, datatype, op, comm, my_cores_per_node, num_ports, groups, copyin, copyin_factors, bit, recursive, arecursive, blocking, num_sockets_per_node, collective_type, i_comm, &comms_blocking, SEND_PTR_CPU, RECV_PTR_CPU);
 #ifdef GPU_ENABLED
   add_blocking_native(count, datatype, op, comm, my_cores_per_node, num_ports, groups, copyin, copyin_factors, bit, recursive, arecursive, blocking, num_sockets_per_node, collective_type, i_comm, &comms_blocking_gpu, SEND_PTR_GPU, RECV_PTR_GPU);
-- 
2.43.0


From ef7ac4998ddd480c9434eaab570b6865abe47f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:26 +0000
Subject: [PATCH 37/51] fix: blocking mode handles parameters that are not set
 and single node communicators

---
 src/mpi/ext_mpi_blocking.c | 80 ++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/src/mpi/ext_mpi_blocking.c b/src/mpi/ext_mpi_blocking.c
index 06b217f..3a7eef0 100644
--- a/src/mpi/ext_mpi_blocking.c
+++ b/src/mpi/ext_mpi_blocking.c
@@ -48,27 +48,29 @@ static int init_blocking_comm_allreduce(MPI_Comm comm, int i_comm) {
   }*/
   MPI_Datatype datatype = MPI_LONG;
   MPI_Op op = MPI_SUM;
-  int my_cores_per_node = ext_mpi_get_num_tasks_per_socket(comm, abs(ext_mpi_num_sockets_per_node));
+  int num_sockets_per_node_ = ext_mpi_num_sockets_per_node > 0 ? ext_mpi_num_sockets_per_node : 1;
+  int minimum_computation = ext_mpi_minimum_computation > 0;
+  int not_recursive = ext_mpi_not_recursive > 0;
+  int my_cores_per_node = ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node_);
   char *sendbuf = (char *)malloc(1024 * 1024 * 1024);
   char *recvbuf = (char *)malloc(1024 * 1024 * 1024);
   char *str;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Type_size(datatype, &type_size);
-  num_ports = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc((2 * comm_size_row + 5) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc((2 * comm_size_row + 5) * sizeof(int));
   if (!groups)
     goto error;
   for (j = 0; j < sizeof(counts) / sizeof(counts[0]); j++) {
     message_size = type_size * counts[j];
-    for (i = 0; i < comm_size_row; i++) {
-      num_ports[i] = groups[i] = 0;
-    }
-    if (ext_mpi_fixed_factors_ports == NULL && comm_size_row == my_cores_per_node * ext_mpi_num_sockets_per_node) {
-      ext_mpi_set_ports_single_node(ext_mpi_num_sockets_per_node, num_ports, groups);
-    } else if (ext_mpi_fixed_factors_ports == NULL && !ext_mpi_minimum_computation) {
+    if (ext_mpi_fixed_factors_ports == NULL && comm_size_row == my_cores_per_node * num_sockets_per_node_) {
+      num_ports[0] = groups[0] = -1;
+      num_ports[1] = groups[1] = 0;
+      ext_mpi_set_ports_single_node(num_sockets_per_node_, num_ports, groups);
+    } else if (ext_mpi_fixed_factors_ports == NULL && !minimum_computation) {
       if (comm_rank_row == 0) {
         factors_max_max = ext_mpi_heuristic_recursive_non_factors(comm_size_row/my_cores_per_node, 0, &factors_max, &factors, &primes);
         if (my_cores_per_node > 1) {
@@ -99,7 +101,7 @@ static int init_blocking_comm_allreduce(MPI_Comm comm, int i_comm) {
         free(factors);
         free(factors_max);
       }
-    } else if (ext_mpi_fixed_factors_ports == NULL && ext_mpi_minimum_computation){
+    } else if (ext_mpi_fixed_factors_ports == NULL && minimum_computation){
       //allreduce case for minimum computation
       if (comm_size_row / my_cores_per_node == 1){
         //if only one node
@@ -165,16 +167,18 @@ static int init_blocking_comm_allreduce(MPI_Comm comm, int i_comm) {
         free(str);
       }
     }
-    num_sockets_per_node = ext_mpi_num_sockets_per_node;
+    num_sockets_per_node = num_sockets_per_node_;
     if (num_sockets_per_node == 1) num_sockets_per_node = -1;
+    free(copyin_factors);
+    copyin_factors = NULL;
     EXT_MPI_Allreduce_measurement(
         sendbuf, recvbuf, counts[j], datatype, op, comm, &my_cores_per_node,
         MPI_COMM_NULL, 1,
         my_cores_per_node, &copyin_method_, &copyin_factors, &num_sockets_per_node);
-    if (ext_mpi_num_sockets_per_node == 1) {
+    if (num_sockets_per_node_ == 1) {
       ext_mpi_set_ports_single_node(num_sockets_per_node, num_ports, groups);
     }
-    if (EXT_MPI_Add_blocking_native(counts[j], MPI_LONG, MPI_SUM, comm, my_cores_per_node, num_ports, groups, copyin_method_, copyin_factors, 0, 1, (group_size==comm_size_row/my_cores_per_node) && !ext_mpi_not_recursive, ext_mpi_blocking, num_sockets_per_node, collective_type_allreduce, i_comm) < 0)
+    if (EXT_MPI_Add_blocking_native(counts[j], MPI_LONG, MPI_SUM, comm, my_cores_per_node, num_ports, groups, copyin_method_, copyin_factors, 0, 1, (group_size==comm_size_row/my_cores_per_node) && !not_recursive, ext_mpi_blocking, num_sockets_per_node, collective_type_allreduce, i_comm) < 0)
       goto error;
 /*    if (EXT_MPI_Add_blocking_native(counts[j], MPI_LONG, MPI_SUM, comm, my_cores_per_node, num_ports, groups, copyin_method_, copyin_factors, 0, 0, 0, ext_mpi_blocking, num_sockets_per_node, collective_type_allreduce, i_comm) < 0)
       goto error;*/
@@ -202,19 +206,26 @@ static int init_blocking_comm_reduce_scatter_block(MPI_Comm comm, int i_comm) {
   int counts[] = {1, 4, 16, 64, 256, 2048, 16384, 131072};
   MPI_Datatype datatype = MPI_LONG;
   MPI_Op op = MPI_SUM;
-  int my_cores_per_node = ext_mpi_get_num_tasks_per_socket(comm, abs(ext_mpi_num_sockets_per_node));
+  int num_sockets_per_node_ = ext_mpi_num_sockets_per_node > 0 ? ext_mpi_num_sockets_per_node : 1;
+  int minimum_computation = ext_mpi_minimum_computation > 0;
+  int not_recursive = ext_mpi_not_recursive > 0;
+  int my_cores_per_node = ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node_);
   char *sendbuf = (char *)malloc(1024 * 1024 * 1024);
   char *recvbuf = (char *)malloc(1024 * 1024 * 1024);
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(datatype, &type_size);
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc((2 * comm_size_row + 5) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc((2 * comm_size_row + 5) * sizeof(int));
   if (!groups)
     goto error;
   for (j = 0; j < sizeof(counts)/sizeof(int); j++) {
-    if (ext_mpi_fixed_factors_ports == NULL && ext_mpi_minimum_computation){
+    if (ext_mpi_fixed_factors_ports == NULL && comm_size_row == my_cores_per_node * num_sockets_per_node_) {
+      num_ports[0] = groups[0] = -1;
+      num_ports[1] = groups[1] = 0;
+      ext_mpi_set_ports_single_node(num_sockets_per_node_, num_ports, groups);
+    } else if (ext_mpi_fixed_factors_ports == NULL && minimum_computation){
       if (comm_size_row/my_cores_per_node==1){
         group_size = 1;
       }else{
@@ -231,15 +242,15 @@ static int init_blocking_comm_reduce_scatter_block(MPI_Comm comm, int i_comm) {
       }
       groups[group_size]=0;
       num_ports[group_size]=0;
-    } else if (ext_mpi_fixed_factors_ports == NULL && !ext_mpi_minimum_computation){
+    } else if (ext_mpi_fixed_factors_ports == NULL && !minimum_computation){
       if (my_cores_per_node > 1) {
         if (ext_mpi_cost_simple_recursive(comm_size_row / my_cores_per_node,
                            counts[j] * type_size, my_cores_per_node,
-                           num_ports, groups, ext_mpi_num_sockets_per_node) < 0)
+                           num_ports, groups, num_sockets_per_node_) < 0)
           goto error;
       } else {
         if (ext_mpi_cost_simple_recursive(comm_size_row / my_cores_per_node,
-                           counts[j] * type_size, 12, num_ports, groups, ext_mpi_num_sockets_per_node) < 0)
+                           counts[j] * type_size, 12, num_ports, groups, num_sockets_per_node_) < 0)
           goto error;
       }
       ext_mpi_revert_num_ports(num_ports, groups);
@@ -271,16 +282,18 @@ static int init_blocking_comm_reduce_scatter_block(MPI_Comm comm, int i_comm) {
         free(str);
       }
     }
-    num_sockets_per_node = ext_mpi_num_sockets_per_node;
+    num_sockets_per_node = num_sockets_per_node_;
     if (num_sockets_per_node == 1) num_sockets_per_node = -1;
+    free(copyin_factors);
+    copyin_factors = NULL;
     EXT_MPI_Allreduce_measurement(
         sendbuf, recvbuf, counts[j], datatype, op, comm, &my_cores_per_node,
         MPI_COMM_NULL, 1,
         my_cores_per_node, &copyin_method_, &copyin_factors, &num_sockets_per_node);
-    if (ext_mpi_num_sockets_per_node == 1) {
+    if (num_sockets_per_node_ == 1) {
       ext_mpi_set_ports_single_node(num_sockets_per_node, num_ports, groups);
     }
-    if (EXT_MPI_Add_blocking_native(counts[j], MPI_LONG, MPI_SUM, comm, my_cores_per_node, num_ports, groups, copyin_method_, copyin_factors, 0, 1, (group_size==comm_size_row/my_cores_per_node) && !ext_mpi_not_recursive, ext_mpi_blocking, num_sockets_per_node, collective_type_reduce_scatter_block, i_comm) < 0)
+    if (EXT_MPI_Add_blocking_native(counts[j], MPI_LONG, MPI_SUM, comm, my_cores_per_node, num_ports, groups, copyin_method_, copyin_factors, 0, 1, (group_size==comm_size_row/my_cores_per_node) && !not_recursive, ext_mpi_blocking, num_sockets_per_node, collective_type_reduce_scatter_block, i_comm) < 0)
       goto error;
   }
   free(groups);
@@ -305,18 +318,25 @@ static int init_blocking_comm_allgather(MPI_Comm comm, int i_comm) {
 //  int counts[] = {1, 4, 16, 64, 256, 2048, 16384, 131072, 1048576, 2097152};
   int counts[] = {1, 4, 16, 64, 256, 2048, 16384, 131072};
   MPI_Datatype datatype = MPI_LONG;
-  int my_cores_per_node = ext_mpi_get_num_tasks_per_socket(comm, abs(ext_mpi_num_sockets_per_node));
+  int num_sockets_per_node_ = ext_mpi_num_sockets_per_node > 0 ? ext_mpi_num_sockets_per_node : 1;
+  int minimum_computation = ext_mpi_minimum_computation > 0;
+  int not_recursive = ext_mpi_not_recursive > 0;
+  int my_cores_per_node = ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node_);
   MPI_Comm_rank(comm, &comm_rank_row);
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(datatype, &type_size);
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc((2 * comm_size_row + 5) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc((2 * comm_size_row + 5) * sizeof(int));
   if (!groups)
     goto error;
   for (j = 0; j < sizeof(counts)/sizeof(int); j++) {
-    if (ext_mpi_fixed_factors_ports == NULL && comm_size_row / my_cores_per_node > 1 && !ext_mpi_minimum_computation) {
+    if (ext_mpi_fixed_factors_ports == NULL && comm_size_row == my_cores_per_node * num_sockets_per_node_) {
+      num_ports[0] = 1;
+      groups[0] = -1;
+      num_ports[1] = groups[1] = 0;
+    } else if (ext_mpi_fixed_factors_ports == NULL && !minimum_computation) {
       if (comm_rank_row == 0) {
         factors_max_max = ext_mpi_heuristic_recursive_non_factors(comm_size_row/my_cores_per_node, 1, &factors_max, &factors, &primes);
         if (my_cores_per_node > 1) {
@@ -347,7 +367,7 @@ static int init_blocking_comm_allgather(MPI_Comm comm, int i_comm) {
         free(factors);
         free(factors_max);
       }
-    } else if (ext_mpi_fixed_factors_ports == NULL && ext_mpi_minimum_computation){
+    } else if (ext_mpi_fixed_factors_ports == NULL && minimum_computation){
       if (comm_size_row/my_cores_per_node==1){
         group_size = 1;
       }else{
@@ -392,8 +412,8 @@ static int init_blocking_comm_allgather(MPI_Comm comm, int i_comm) {
         free(str);
       }
     }
-    num_sockets_per_node = ext_mpi_num_sockets_per_node;
-    if (EXT_MPI_Add_blocking_native(counts[j], MPI_LONG, MPI_SUM, comm, my_cores_per_node, num_ports, groups, -1, NULL, 0, 1, (group_size==comm_size_row/my_cores_per_node) && !ext_mpi_not_recursive, ext_mpi_blocking, num_sockets_per_node, collective_type_allgather, i_comm) < 0)
+    num_sockets_per_node = num_sockets_per_node_;
+    if (EXT_MPI_Add_blocking_native(counts[j], MPI_LONG, MPI_SUM, comm, my_cores_per_node, num_ports, groups, -1, NULL, 0, 1, (group_size==comm_size_row/my_cores_per_node) && !not_recursive, ext_mpi_blocking, num_sockets_per_node, collective_type_allgather, i_comm) < 0)
       goto error;
   }
   free(groups);
-- 
2.43.0


From c7e1af85f38a2c8caf03a5f13fe0ddebdd41c0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:26 +0000
Subject: [PATCH 38/51] fix: blocking mode passes not_recursive to the init
 functions

---
 src/mpi/ext_mpi_native_blocking.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi_native_blocking.c b/src/mpi/ext_mpi_native_blocking.c
index afb7a7b..8070cc5 100644
--- a/src/mpi/ext_mpi_native_blocking.c
+++ b/src/mpi/ext_mpi_native_blocking.c
@@ -205,7 +205,7 @@ static int add_blocking_native(int count, MPI_Datatype datatype, MPI_Op op, MPI_
       if (count < (*comms_blocking)[i_comm]->mpi_size_blocking / (*comms_blocking)[i_comm]->num_cores_blocking && (*comms_blocking)[i_comm]->mpi_size_blocking / (*comms_blocking)[i_comm]->num_cores_blocking % count == 0) {
 	j = (*comms_blocking)[i_comm]->mpi_size_blocking / (*comms_blocking)[i_comm]->num_cores_blocking;
       }
-      handle = EXT_MPI_Allreduce_init_native((char *)(send_ptr), (char *)(recv_ptr), j, datatype, op, (*comms_blocking)[i_comm]->comm_blocking, my_cores_per_node, MPI_COMM_NULL, 1, num_ports, groups, copyin, copyin_factors, 0, bit, 0, arecursive, 0, num_sockets_per_node, 1, (*comms_blocking)[i_comm]->locmem_blocking, &padding_factor);
+      handle = EXT_MPI_Allreduce_init_native((char *)(send_ptr), (char *)(recv_ptr), j, datatype, op, (*comms_blocking)[i_comm]->comm_blocking, my_cores_per_node, MPI_COMM_NULL, 1, num_ports, groups, copyin, copyin_factors, 0, bit, 0, !arecursive, 0, num_sockets_per_node, 1, (*comms_blocking)[i_comm]->locmem_blocking, &padding_factor);
       numbers = (int *)malloc(1024 * 1024 * sizeof(int));
       j_ = ext_mpi_exec_padding((*e_comm_code)[handle], (char *)(send_ptr), (char *)(recv_ptr), NULL, numbers);
       j_ = ext_mpi_prime_factor_padding(j_, numbers);
@@ -223,7 +223,7 @@ static int add_blocking_native(int count, MPI_Datatype datatype, MPI_Op op, MPI_
         recvcounts[i] = (*comms_blocking)[i_comm]->num_cores_blocking * CACHE_LINE_SIZE;
         recvcounts[i] = (*comms_blocking)[i_comm]->num_cores_blocking;
       }
-      handle = EXT_MPI_Reduce_scatter_init_native((char *)(send_ptr), (char *)(recv_ptr), recvcounts, datatype, op, (*comms_blocking)[i_comm]->comm_blocking, my_cores_per_node, MPI_COMM_NULL, 1, num_ports, groups, copyin, copyin_factors, 0, arecursive, 0, num_sockets_per_node, 1, (*comms_blocking)[i_comm]->locmem_blocking, &padding_factor);
+      handle = EXT_MPI_Reduce_scatter_init_native((char *)(send_ptr), (char *)(recv_ptr), recvcounts, datatype, op, (*comms_blocking)[i_comm]->comm_blocking, my_cores_per_node, MPI_COMM_NULL, 1, num_ports, groups, copyin, copyin_factors, 0, !arecursive, 0, num_sockets_per_node, 1, (*comms_blocking)[i_comm]->locmem_blocking, &padding_factor);
       for (i = 0; (*comms_blocking)[i_comm]->comm_code_reduce_scatter_block_blocking[i]; i++)
 	;
       (*comms_blocking)[i_comm]->padding_factor_reduce_scatter_block_blocking[i] = padding_factor;
@@ -239,7 +239,7 @@ static int add_blocking_native(int count, MPI_Datatype datatype, MPI_Op op, MPI_
         recvcounts[i] = 1;
         displs[i] = i;
       }
-      handle = EXT_MPI_Allgatherv_init_native((char *)(send_ptr), 1, datatype, (char *)(recv_ptr), recvcounts, displs, datatype, (*comms_blocking)[i_comm]->comm_blocking, my_cores_per_node, MPI_COMM_NULL, 1, num_ports, groups, 0, arecursive, 0, num_sockets_per_node, 1, (*comms_blocking)[i_comm]->locmem_blocking);
+      handle = EXT_MPI_Allgatherv_init_native((char *)(send_ptr), 1, datatype, (char *)(recv_ptr), recvcounts, displs, datatype, (*comms_blocking)[i_comm]->comm_blocking, my_cores_per_node, MPI_COMM_NULL, 1, num_ports, groups, 0, !arecursive, 0, num_sockets_per_node, 1, (*comms_blocking)[i_comm]->locmem_blocking);
 // FIXME
 //      add_blocking_member(count, datatype, handle, (*comms_blocking)[i_comm]->comm_code_allgather_blocking, (*comms_blocking)[i_comm]->count_allgather_blocking, 1, MPI_COMM_NULL, 0, NULL);
       add_blocking_member(count, datatype, handle, (*comms_blocking)[i_comm]->comm_code_allgather_blocking, (*comms_blocking)[i_comm]->count_allgather_blocking, (*comms_blocking)[i_comm]->num_cores_blocking, MPI_COMM_NULL, 0, NULL);
-- 
2.43.0


From 6bb35798a4e4c8fed93f582833522b7b4c973915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:26 +0000
Subject: [PATCH 39/51] fix: blocking reduce_scatter_block and allgather with
 several tasks per node

---
 src/mpi/ext_mpi_native_blocking.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi_native_blocking.c b/src/mpi/ext_mpi_native_blocking.c
index 8070cc5..b7a70ea 100644
--- a/src/mpi/ext_mpi_native_blocking.c
+++ b/src/mpi/ext_mpi_native_blocking.c
@@ -242,7 +242,7 @@ static int add_blocking_native(int count, MPI_Datatype datatype, MPI_Op op, MPI_
       handle = EXT_MPI_Allgatherv_init_native((char *)(send_ptr), 1, datatype, (char *)(recv_ptr), recvcounts, displs, datatype, (*comms_blocking)[i_comm]->comm_blocking, my_cores_per_node, MPI_COMM_NULL, 1, num_ports, groups, 0, !arecursive, 0, num_sockets_per_node, 1, (*comms_blocking)[i_comm]->locmem_blocking);
 // FIXME
 //      add_blocking_member(count, datatype, handle, (*comms_blocking)[i_comm]->comm_code_allgather_blocking, (*comms_blocking)[i_comm]->count_allgather_blocking, 1, MPI_COMM_NULL, 0, NULL);
-      add_blocking_member(count, datatype, handle, (*comms_blocking)[i_comm]->comm_code_allgather_blocking, (*comms_blocking)[i_comm]->count_allgather_blocking, (*comms_blocking)[i_comm]->num_cores_blocking, MPI_COMM_NULL, 0, NULL);
+      add_blocking_member(count, datatype, handle, (*comms_blocking)[i_comm]->comm_code_allgather_blocking, (*comms_blocking)[i_comm]->count_allgather_blocking, 1, MPI_COMM_NULL, 0, NULL);
       free(displs);
       free(recvcounts);
     break;
@@ -367,7 +367,7 @@ int EXT_MPI_Reduce_scatter_block_native(const void *sendbuf, void *recvbuf, int
   while (comms_blocking_->count_reduce_scatter_block_blocking[i] < recvcount && comms_blocking_->comm_code_reduce_scatter_block_blocking[i + 1]) i++;
 // FIXME
 //  ext_mpi_exec_blocking(comms_blocking_->comm_code_reduce_scatter_block_blocking[i], comms_blocking_->comm_blocking, 1, comms_blocking_->shmem_socket_blocking, &comms_blocking_->counter_socket_blocking, comms_blocking_->socket_rank_blocking, comms_blocking_->num_cores_blocking, comms_blocking_->shmem_node_blocking, &comms_blocking_->counter_node_blocking, comms_blocking_->num_sockets_per_node_blocking, (void **)comms_blocking_->shmem_blocking1, sendbuf, recvbuf, recvcount / comms_blocking_->padding_factor_reduce_scatter_block_blocking[i], reduction_op, recvcount, NULL);
-  ext_mpi_exec_blocking(comms_blocking_->comm_code_reduce_scatter_block_blocking[i], comms_blocking_->comm_blocking, 1, comms_blocking_->shmem_socket_blocking, &comms_blocking_->counter_socket_blocking, comms_blocking_->socket_rank_blocking, comms_blocking_->num_cores_blocking, comms_blocking_->shmem_node_blocking, &comms_blocking_->counter_node_blocking, comms_blocking_->num_sockets_per_node_blocking, (void **)comms_blocking_->shmem_blocking1, sendbuf, recvbuf, recvcount / comms_blocking_->padding_factor_reduce_scatter_block_blocking[i], reduction_op, recvcount * comms_blocking_->mpi_size_blocking / comms_blocking_->num_cores_blocking, NULL, comms_blocking_->p_dev_temp);
+  ext_mpi_exec_blocking(comms_blocking_->comm_code_reduce_scatter_block_blocking[i], comms_blocking_->comm_blocking, 1, comms_blocking_->shmem_socket_blocking, &comms_blocking_->counter_socket_blocking, comms_blocking_->socket_rank_blocking, comms_blocking_->num_cores_blocking, comms_blocking_->shmem_node_blocking, &comms_blocking_->counter_node_blocking, comms_blocking_->num_sockets_per_node_blocking, (void **)comms_blocking_->shmem_blocking1, sendbuf, recvbuf, recvcount, reduction_op, recvcount * comms_blocking_->mpi_size_blocking, NULL, comms_blocking_->p_dev_temp);
   shmem_temp = comms_blocking_->shmem_blocking1;
   comms_blocking_->shmem_blocking1 = comms_blocking_->shmem_blocking2;
   comms_blocking_->shmem_blocking2 = shmem_temp;
@@ -390,7 +390,7 @@ int EXT_MPI_Allgather_native(const void *sendbuf, int sendcount, MPI_Datatype se
   while (comms_blocking_->count_allgather_blocking[i] < sendcount && comms_blocking_->comm_code_allgather_blocking[i + 1]) i++;
 // FIXME
 //  ext_mpi_exec_blocking(comms_blocking_->comm_code_allgather_blocking[i], comms_blocking_->comm_blocking, 1, comms_blocking_->shmem_socket_blocking, &comms_blocking_->counter_socket_blocking, comms_blocking_->socket_rank_blocking, comms_blocking_->num_cores_blocking, comms_blocking_->shmem_node_blocking, &comms_blocking_->counter_node_blocking, comms_blocking_->num_sockets_per_node_blocking, (void **)comms_blocking_->shmem_blocking1, sendbuf, recvbuf, sendcount, -1, sendcount * comms_blocking_->mpi_size_blocking / comms_blocking_->num_cores_blocking, NULL);
-  ext_mpi_exec_blocking(comms_blocking_->comm_code_allgather_blocking[i], comms_blocking_->comm_blocking, 1, comms_blocking_->shmem_socket_blocking, &comms_blocking_->counter_socket_blocking, comms_blocking_->socket_rank_blocking, comms_blocking_->num_cores_blocking, comms_blocking_->shmem_node_blocking, &comms_blocking_->counter_node_blocking, comms_blocking_->num_sockets_per_node_blocking, (void **)comms_blocking_->shmem_blocking1, sendbuf, recvbuf, sendcount, -1, sendcount * comms_blocking_->mpi_size_blocking / comms_blocking_->num_cores_blocking, NULL, comms_blocking_->p_dev_temp);
+  ext_mpi_exec_blocking(comms_blocking_->comm_code_allgather_blocking[i], comms_blocking_->comm_blocking, 1, comms_blocking_->shmem_socket_blocking, &comms_blocking_->counter_socket_blocking, comms_blocking_->socket_rank_blocking, comms_blocking_->num_cores_blocking, comms_blocking_->shmem_node_blocking, &comms_blocking_->counter_node_blocking, comms_blocking_->num_sockets_per_node_blocking, (void **)comms_blocking_->shmem_blocking1, sendbuf, recvbuf, sendcount, -1, sendcount * comms_blocking_->mpi_size_blocking, NULL, comms_blocking_->p_dev_temp);
   shmem_temp = comms_blocking_->shmem_blocking1;
   comms_blocking_->shmem_blocking1 = comms_blocking_->shmem_blocking2;
   comms_blocking_->shmem_blocking2 = shmem_temp;
-- 
2.43.0


From 48892125d03ea773598235905f96a50185a597c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:26 +0000
Subject: [PATCH 40/51] fix: blocking mode leaves calls with MPI_IN_PLACE to
 the MPI library

---
 src/mpi/ext_mpi_interface.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 97514d1..96541d3 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -386,7 +386,7 @@ error:
 
 int MPI_Allreduce(const void *sendbuf, void *recvbuf, int count, MPI_Datatype datatype, MPI_Op op, MPI_Comm comm){
   int reduction_op, i;
-  if (ext_mpi_is_blocking && op == MPI_SUM) {
+  if (ext_mpi_is_blocking && op == MPI_SUM && sendbuf != MPI_IN_PLACE) {
     if (datatype == MPI_DOUBLE) {
       reduction_op = OPCODE_REDUCE_SUM_DOUBLE;
     } else if (datatype == MPI_LONG) {
@@ -411,7 +411,7 @@ int MPI_Allreduce(const void *sendbuf, void *recvbuf, int count, MPI_Datatype da
 
 int MPI_Reduce_scatter_block(const void *sendbuf, void *recvbuf, int recvcount, MPI_Datatype datatype, MPI_Op op, MPI_Comm comm){
   int reduction_op, lcount, i;
-  if (ext_mpi_is_blocking && op == MPI_SUM) {
+  if (ext_mpi_is_blocking && op == MPI_SUM && sendbuf != MPI_IN_PLACE) {
     if (datatype == MPI_DOUBLE) {
       reduction_op = OPCODE_REDUCE_SUM_DOUBLE;
       lcount = recvcount * sizeof(double);
@@ -440,7 +440,7 @@ int MPI_Reduce_scatter_block(const void *sendbuf, void *recvbuf, int recvcount,
 
 int MPI_Allgather(const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, MPI_Comm comm){
   int type_size, i;
-  if (ext_mpi_is_blocking) {
+  if (ext_mpi_is_blocking && sendbuf != MPI_IN_PLACE) {
     i = ext_mpi_hash_search_blocking(&comm);
     if (i >= 0) {
       MPI_Type_size(sendtype, &type_size);
-- 
2.43.0


From 51f2b5e452aab992dcbcada1d370799f0ed9828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:26 +0000
Subject: [PATCH 41/51] fix: do not reduce from shared memory of tasks that do
 not exist

---
 src/core/reduce_copyin.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/reduce_copyin.c b/src/core/reduce_copyin.c
index 0ea3258..d334dd8 100644
--- a/src/core/reduce_copyin.c
+++ b/src/core/reduce_copyin.c
@@ -225,6 +225,8 @@ static int reduce_copies(int socket_size, int num_factors, int *factors, int siz
         for (i = 1; i < factors[step]; i++) {
 	  offset1 = memory_new[j].offset;
 	  offset2 = memory_new[j].offset + i * size * gbstep;
+	  // there is no data of tasks beyond the socket
+	  if (offset2 >= size * socket_size) continue;
 	  if (!fast) {
 	    offset1 = offset1 % size + (offset1 / size) * size / factors[0];
 	    offset2 = offset2 % size + (offset2 / size) * size / factors[0];
-- 
2.43.0


From cd9d1fcd7b1a036a473f3a0bafe5ef86c1af22dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:26 +0000
Subject: [PATCH 42/51] fix: blocking allreduce on a communicator of one task

---
 src/mpi/ext_mpi_native_blocking.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpi/ext_mpi_native_blocking.c b/src/mpi/ext_mpi_native_blocking.c
index b7a70ea..aa0e065 100644
--- a/src/mpi/ext_mpi_native_blocking.c
+++ b/src/mpi/ext_mpi_native_blocking.c
@@ -211,6 +211,8 @@ static int add_blocking_native(int count, MPI_Datatype datatype, MPI_Op op, MPI_
       j_ = ext_mpi_prime_factor_padding(j_, numbers);
       padding_factor = ext_mpi_padding_factor(j_, comm);
       free(numbers);
+      // a single task only copies, all its numbers are bytes
+      if ((*comms_blocking)[i_comm]->mpi_size_blocking == 1) padding_factor = j;
       for (i = 0; (*comms_blocking)[i_comm]->comm_code_allreduce_blocking[i]; i++)
         ;
       (*comms_blocking)[i_comm]->padding_factor_allreduce_blocking[i] = j / padding_factor;
-- 
2.43.0


From 30ce56fb02fb6a93b1095b35556abc0d420abe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:26 +0000
Subject: [PATCH 43/51] fix: blocking collectives use the ranks of their own
 communicator

---
 src/mpi/ext_mpi_native.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index a6e5300..1f292ce 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -467,6 +467,12 @@ static int init_epilogue(char *buffer_in, const void *sendbuf, void *recvbuf,
     goto error;
   setup_rank_translation(comm_row, my_cores_per_node_row, comm_column,
                          my_cores_per_node_column, global_ranks);
+  if (shmem_zero) {
+    // blocking collectives are executed on their own communicator
+    for (i = 0; i < my_mpi_size_row; i++) {
+      global_ranks[i] = i;
+    }
+  }
   if (comm_row != MPI_COMM_NULL) {
     tag = tag_max;
     PMPI_Allreduce(MPI_IN_PLACE, &tag, 1, MPI_INT, MPI_MAX, comm_row);
-- 
2.43.0


From 9443bbcb89c5498579258e930f3e41d1572417ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:26 +0000
Subject: [PATCH 44/51] fix: blocking mode skips null, unknown and surplus
 communicators

---
 src/mpi/ext_mpi_interface.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 96541d3..fd3cf9d 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -455,7 +455,13 @@ int MPI_Allgather(const void *sendbuf, int sendcount, MPI_Datatype sendtype, voi
 
 static int add_comm_to_blocking(MPI_Comm *comm){
   int i = 0;
-  while (comms_blocking[i]) i++;
+  if (*comm == MPI_COMM_NULL) {
+    return 0;
+  }
+  while (i < sizeof(comms_blocking)/sizeof(int) && comms_blocking[i]) i++;
+  if (i >= sizeof(comms_blocking)/sizeof(int)) {
+    return 0;
+  }
   comms_blocking[i] = 1;
   ext_mpi_hash_insert_blocking(comm, i);
   EXT_MPI_Init_blocking_comm(*comm, i);
@@ -464,6 +470,9 @@ static int add_comm_to_blocking(MPI_Comm *comm){
 
 static int remove_comm_from_blocking(MPI_Comm *comm){
   int i = ext_mpi_hash_search_blocking(comm);
+  if (i < 0) {
+    return 0;
+  }
   EXT_MPI_Finalize_blocking_comm(i);
   ext_mpi_hash_delete_blocking(comm);
   comms_blocking[i] = 0;
-- 
2.43.0


From d9dd9921c0be79b94b1b9e4fff494d128cfbbef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:47 +0000
Subject: [PATCH 45/51] fix: blocking mode uses one socket per node, as its
 shared memory does

---
 src/mpi/ext_mpi_blocking.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mpi/ext_mpi_blocking.c b/src/mpi/ext_mpi_blocking.c
index 3a7eef0..d624136 100644
--- a/src/mpi/ext_mpi_blocking.c
+++ b/src/mpi/ext_mpi_blocking.c
@@ -24,7 +24,6 @@
 
 extern int ext_mpi_blocking;
 extern int ext_mpi_verbose;
-extern int ext_mpi_num_sockets_per_node;
 extern int ext_mpi_bit_reproducible;
 extern int ext_mpi_bit_identical;
 extern int ext_mpi_minimum_computation;
@@ -48,7 +47,7 @@ static int init_blocking_comm_allreduce(MPI_Comm comm, int i_comm) {
   }*/
   MPI_Datatype datatype = MPI_LONG;
   MPI_Op op = MPI_SUM;
-  int num_sockets_per_node_ = ext_mpi_num_sockets_per_node > 0 ? ext_mpi_num_sockets_per_node : 1;
+  int num_sockets_per_node_ = 1; // there is one shared memory segment per node
   int minimum_computation = ext_mpi_minimum_computation > 0;
   int not_recursive = ext_mpi_not_recursive > 0;
   int my_cores_per_node = ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node_);
@@ -206,7 +205,7 @@ static int init_blocking_comm_reduce_scatter_block(MPI_Comm comm, int i_comm) {
   int counts[] = {1, 4, 16, 64, 256, 2048, 16384, 131072};
   MPI_Datatype datatype = MPI_LONG;
   MPI_Op op = MPI_SUM;
-  int num_sockets_per_node_ = ext_mpi_num_sockets_per_node > 0 ? ext_mpi_num_sockets_per_node : 1;
+  int num_sockets_per_node_ = 1; // there is one shared memory segment per node
   int minimum_computation = ext_mpi_minimum_computation > 0;
   int not_recursive = ext_mpi_not_recursive > 0;
   int my_cores_per_node = ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node_);
@@ -318,7 +317,7 @@ static int init_blocking_comm_allgather(MPI_Comm comm, int i_comm) {
 //  int counts[] = {1, 4, 16, 64, 256, 2048, 16384, 131072, 1048576, 2097152};
   int counts[] = {1, 4, 16, 64, 256, 2048, 16384, 131072};
   MPI_Datatype datatype = MPI_LONG;
-  int num_sockets_per_node_ = ext_mpi_num_sockets_per_node > 0 ? ext_mpi_num_sockets_per_node : 1;
+  int num_sockets_per_node_ = 1; // there is one shared memory segment per node
   int minimum_computation = ext_mpi_minimum_computation > 0;
   int not_recursive = ext_mpi_not_recursive > 0;
   int my_cores_per_node = ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node_);
-- 
2.43.0


From 3d61d2167120887660d275d1cdacddffe6bc148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:07 +0000
Subject: [PATCH 46/51] fix: messages exchanged while a collective is created
 stay off the application's communicator

The backward and forward interpreters and the node-internal message matching of
several sockets per node sent their messages with tags 0 and 1 on the communicator
of the application, where they could be received by (or steal from) receives the
application has pending, e.g. with MPI_ANY_SOURCE and MPI_ANY_TAG. Use a duplicate.
---
 src/mpi/backward_interpreter.c   |  8 ++++++--
 src/mpi/forward_interpreter.c    |  8 ++++++--
 src/mpi/messages_shared_memory.c | 11 +++++++----
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/mpi/backward_interpreter.c b/src/mpi/backward_interpreter.c
index f675184..9a21867 100644
--- a/src/mpi/backward_interpreter.c
+++ b/src/mpi/backward_interpreter.c
@@ -12,6 +12,8 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
   struct data_algorithm data;
   struct parameters_block *parameters;
   MPI_Request *request = NULL;
+  MPI_Comm comm;
+  PMPI_Comm_dup(comm_row, &comm);
   data.num_blocks = 0;
   data.blocks = NULL;
   nbuffer_in += i = ext_mpi_read_parameters(buffer_in + nbuffer_in, &parameters);
@@ -127,7 +129,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
         for (k = 0; k < data.blocks[i].lines[j].sendto_max; k++) {
           if (data.blocks[i].lines[j].sendto_node[k] != parameters->socket) {
 	    partner = data.blocks[i].lines[j].sendto_node[k];
-            MPI_Irecv(&recv_values[j][partner], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm_row, &request[l++]);
+            MPI_Irecv(&recv_values[j][partner], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm, &request[l++]);
           }
         }
       }
@@ -138,7 +140,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
 	    printf("logical error 1 backward_interpreter\n");
 	    exit(1);
           } else {
-            MPI_Isend(&values[i][j], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm_row, &request[l++]);
+            MPI_Isend(&values[i][j], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm, &request[l++]);
           }
         }
       }
@@ -233,6 +235,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
   free(values);
   ext_mpi_delete_algorithm(data);
   ext_mpi_delete_parameters(parameters);
+  PMPI_Comm_free(&comm);
   return nbuffer_out;
 error:
   free(request);
@@ -250,5 +253,6 @@ error:
   free(values);
   ext_mpi_delete_algorithm(data);
   ext_mpi_delete_parameters(parameters);
+  PMPI_Comm_free(&comm);
   return ERROR_MALLOC;
 }
diff --git a/src/mpi/forward_interpreter.c b/src/mpi/forward_interpreter.c
index 494c376..377912c 100644
--- a/src/mpi/forward_interpreter.c
+++ b/src/mpi/forward_interpreter.c
@@ -12,6 +12,8 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
   struct data_algorithm data;
   struct parameters_block *parameters;
   MPI_Request *request = NULL;
+  MPI_Comm comm;
+  PMPI_Comm_dup(comm_row, &comm);
   data.num_blocks = 0;
   data.blocks = NULL;
   nbuffer_in += i = ext_mpi_read_parameters(buffer_in + nbuffer_in, &parameters);
@@ -126,7 +128,7 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
 	    printf("logical error 1 forward_interpreter\n");
 	    exit(1);
           } else {
-            MPI_Irecv(&recv_values[j][partner], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm_row, &request[l++]);
+            MPI_Irecv(&recv_values[j][partner], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm, &request[l++]);
           }
         }
       }
@@ -134,7 +136,7 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
         for (k = 0; k < data.blocks[i].lines[j].sendto_max; k++) {
 	  partner = data.blocks[i].lines[j].sendto_node[k];
           if (partner != parameters->socket) {
-            MPI_Isend(&values[i][j], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm_row, &request[l++]);
+            MPI_Isend(&values[i][j], 1, MPI_INT, partner * parameters->socket_row_size + parameters->socket_rank, 0, comm, &request[l++]);
           } else {
 	    printf("logical error 2 forward_interpreter\n");
 	    exit(1);
@@ -242,6 +244,7 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
   free(values);
   ext_mpi_delete_algorithm(data);
   ext_mpi_delete_parameters(parameters);
+  PMPI_Comm_free(&comm);
   return nbuffer_out;
 error:
   free(request);
@@ -259,5 +262,6 @@ error:
   free(values);
   ext_mpi_delete_algorithm(data);
   ext_mpi_delete_parameters(parameters);
+  PMPI_Comm_free(&comm);
   return ERROR_MALLOC;
 }
diff --git a/src/mpi/messages_shared_memory.c b/src/mpi/messages_shared_memory.c
index 03ecd29..4b0fc70 100644
--- a/src/mpi/messages_shared_memory.c
+++ b/src/mpi/messages_shared_memory.c
@@ -131,6 +131,8 @@ int ext_mpi_messages_shared_memory(char *buffer_in, char *buffer_out, MPI_Comm c
   enum eassembler_type estring1;
   int nbuffer_out = 0, integer1, ascii_in, ascii_out, socket, socket_rank, num_sockets_per_node, flag, flag2, flush, socket_tasks;
   struct parameters_block *parameters;
+  MPI_Comm comm;
+  PMPI_Comm_dup(comm_row, &comm);
   buffer_in += ext_mpi_read_parameters(buffer_in, &parameters);
   nbuffer_out += ext_mpi_write_parameters(parameters, buffer_out + nbuffer_out);
   ascii_in = parameters->ascii_in;
@@ -216,16 +218,16 @@ int ext_mpi_messages_shared_memory(char *buffer_in, char *buffer_out, MPI_Comm c
         data_irecv_isend_list_send = data_irecv_isend_list_temp;
         data_irecv_isend_list_send->data_irecv_isend = data_irecv_isend;
         data_irecv_isend_list_temp->data_irecv_isend.socket = socket;
-        MPI_Isend(&data_irecv_isend_list_send->data_irecv_isend, sizeof(struct line_irecv_isend_node), MPI_CHAR, data_irecv_isend.data.partner, 0, comm_row, &data_irecv_isend_list_send->request);
-        MPI_Irecv(&data_irecv_isend_list_send->data_irecv_isend_reversed.socket, sizeof(int), MPI_CHAR, data_irecv_isend.data.partner, 1, comm_row, &data_irecv_isend_list_send->request_reversed);
+        MPI_Isend(&data_irecv_isend_list_send->data_irecv_isend, sizeof(struct line_irecv_isend_node), MPI_CHAR, data_irecv_isend.data.partner, 0, comm, &data_irecv_isend_list_send->request);
+        MPI_Irecv(&data_irecv_isend_list_send->data_irecv_isend_reversed.socket, sizeof(int), MPI_CHAR, data_irecv_isend.data.partner, 1, comm, &data_irecv_isend_list_send->request_reversed);
       } else {
         data_irecv_isend_list_temp = (struct line_irecv_isend_list*)malloc(sizeof(struct line_irecv_isend_list));
         data_irecv_isend_list_temp->next = data_irecv_isend_list_recv;
         data_irecv_isend_list_recv = data_irecv_isend_list_temp;
         data_irecv_isend_list_recv->data_irecv_isend_reversed = data_irecv_isend;
         data_irecv_isend_list_temp->data_irecv_isend_reversed.socket = socket;
-        MPI_Irecv(&data_irecv_isend_list_recv->data_irecv_isend, sizeof(struct line_irecv_isend_node), MPI_CHAR, data_irecv_isend.data.partner, 0, comm_row, &data_irecv_isend_list_recv->request);
-        MPI_Isend(&data_irecv_isend_list_recv->data_irecv_isend_reversed.socket, sizeof(int), MPI_CHAR, data_irecv_isend.data.partner, 1, comm_row, &data_irecv_isend_list_recv->request_reversed);
+        MPI_Irecv(&data_irecv_isend_list_recv->data_irecv_isend, sizeof(struct line_irecv_isend_node), MPI_CHAR, data_irecv_isend.data.partner, 0, comm, &data_irecv_isend_list_recv->request);
+        MPI_Isend(&data_irecv_isend_list_recv->data_irecv_isend_reversed.socket, sizeof(int), MPI_CHAR, data_irecv_isend.data.partner, 1, comm, &data_irecv_isend_list_recv->request_reversed);
       }
     }
     if (!flush) {
@@ -236,5 +238,6 @@ int ext_mpi_messages_shared_memory(char *buffer_in, char *buffer_out, MPI_Comm c
   }
   nbuffer_out += flush_lines(buffer_out + nbuffer_out, &lines_listed_org, 0, ascii_out);
   nbuffer_out += ext_mpi_write_eof(buffer_out + nbuffer_out, ascii_out);
+  PMPI_Comm_free(&comm);
   return nbuffer_out;
 }
-- 
2.43.0


From 6c3b62e83d955e545c044b341693d21729109dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:23 +0000
Subject: [PATCH 47/51] fix: the built-in check of allgatherv, gatherv and
 bcast compares every byte

Only whole longs were filled and compared, so blocks of a few chars, shorts or
ints, and the last bytes of longer ones, were never checked.
---
 src/mpi/debug_persistent.c | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/src/mpi/debug_persistent.c b/src/mpi/debug_persistent.c
index 12c3294..d30b853 100644
--- a/src/mpi/debug_persistent.c
+++ b/src/mpi/debug_persistent.c
@@ -70,8 +70,8 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
     sendbuf_h = (void *)malloc(sendcount * type_size);
     if (!sendbuf_h)
       goto error;
-    for (i = 0; i < (int)((sendcount * type_size) / (int)sizeof(long int)); i++) {
-      ((long int *)sendbuf_h)[i] = world_rank * max_sendcount + i;
+    for (i = 0; i < sendcount * type_size; i++) {
+      ((unsigned char *)sendbuf_h)[i] = world_rank * 31 + i + i / 251;
     }
 #ifdef GPU_ENABLED
   }
@@ -107,17 +107,11 @@ int ext_mpi_allgatherv_init_debug(const void *sendbuf, int sendcount,
 #endif
     k = 0;
     for (j = 0; j < comm_size_row; j++) {
-      for (i = 0; i < (int)((recvcounts[j] * type_size) / sizeof(long int));
-           i++) {
-        if (((long int *)
-                 recvbuf_h)[(displs[j] * type_size) / sizeof(long int) + i] !=
-            ((long int *)
-                 recvbuf_ref)[(displs[j] * type_size) / sizeof(long int) + i]) {
+      for (i = 0; i < recvcounts[j] * type_size; i++) {
+        if (((char *)recvbuf_h)[displs[j] * type_size + i] != ((char *)recvbuf_ref)[displs[j] * type_size + i]) {
           k = 1;
         }
       }
-//      if ((int)((recvcounts[j] * type_size) % sizeof(long int)) {
-//      }
     }
 #ifdef GPU_ENABLED
   }
@@ -179,8 +173,8 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
   sendbuf_h = (void *)malloc(sendcount * type_size);
   if (!sendbuf_h)
     goto error;
-  for (i = 0; i < (int)((sendcount * type_size) / (int)sizeof(long int)); i++) {
-    ((long int *)sendbuf_h)[i] = world_rank * max_sendcount + i;
+  for (i = 0; i < sendcount * type_size; i++) {
+    ((unsigned char *)sendbuf_h)[i] = world_rank * 31 + i + i / 251;
   }
   MPI_Gatherv(sendbuf_h, sendcount, sendtype, recvbuf_ref, recvcounts, displs, recvtype, root, comm);
   if (ext_mpi_gatherv_init_general(sendbuf_h, sendcount, sendtype, recvbuf_h, recvcounts, displs, recvtype, root, comm, info, handle) < 0)
@@ -194,12 +188,8 @@ int ext_mpi_gatherv_init_debug(const void *sendbuf, int sendcount,
   if (root == comm_rank_row) {
     k = 0;
     for (j = 0; j < comm_size_row; j++) {
-      for (i = 0; i < (int)((recvcounts[j] * type_size) / (int)sizeof(long int));
-           i++) {
-        if (((long int *)
-                 recvbuf_h)[(displs[j] * type_size) / (int)sizeof(long int) + i] !=
-            ((long int *)
-                 recvbuf_ref)[(displs[j] * type_size) / (int)sizeof(long int) + i]) {
+      for (i = 0; i < recvcounts[j] * type_size; i++) {
+        if (((char *)recvbuf_h)[displs[j] * type_size + i] != ((char *)recvbuf_ref)[displs[j] * type_size + i]) {
           k = 1;
         }
       }
@@ -769,9 +759,9 @@ int ext_mpi_bcast_init_debug(void *buffer, int count, MPI_Datatype datatype,
     if (!buffer_org)
       goto error;
     memcpy(buffer_org, buffer, count * type_size);
-    for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
-      ((long int *)buffer_ref)[i] = ((long int *)buffer)[i] =
-          world_rankd * count + i + 1073;
+    for (i = 0; i < count * type_size; i++) {
+      ((unsigned char *)buffer_ref)[i] = ((unsigned char *)buffer)[i] =
+          world_rankd * 31 + i + i / 251;
     }
     MPI_Bcast(buffer_ref, count, datatype, root, comm);
     if (ext_mpi_bcast_init_general(buffer, count, datatype, root, comm, info, handle) < 0)
@@ -783,8 +773,8 @@ int ext_mpi_bcast_init_debug(void *buffer, int count, MPI_Datatype datatype,
     if (EXT_MPI_Done(*handle) < 0)
       goto error;
     j = 0;
-    for (i = 0; i < (count * type_size) / (int)sizeof(long int); i++) {
-      if (((long int *)buffer)[i] != ((long int *)buffer_ref)[i]) {
+    for (i = 0; i < count * type_size; i++) {
+      if (((char *)buffer)[i] != ((char *)buffer_ref)[i]) {
         j = 1;
       }
     }
-- 
2.43.0


From 852c7085d6f73985558df6b09727498165c326e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:43 +0000
Subject: [PATCH 48/51] fix: EXT_MPI_Progress does nothing while no collective
 exists

---
 src/mpi/ext_mpi_native.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 1f292ce..da561c5 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -257,6 +257,9 @@ int EXT_MPI_Test_native(int handle) {
 
 int EXT_MPI_Progress_native() {
   int ret = 0, handle;
+  // nothing has been created yet
+  if (!execution_pointer)
+    return 0;
   for (handle = 0; handle < handle_code_max; handle += 2) {
     if (execution_pointer[handle]) {
       ret += ext_mpi_exec_native(comm_code[handle], &execution_pointer[handle],
-- 
2.43.0


From a03330f46792ca1d35921d63f9f29566b809ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:43 +0000
Subject: [PATCH 49/51] fix: MPI_INTEGER8 is MPI_LONG, not the pair type
 MPI_LONG_INT

---
 src/fortran/ext_mpi_f.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fortran/ext_mpi_f.c b/src/fortran/ext_mpi_f.c
index ea606ee..470cba4 100644
--- a/src/fortran/ext_mpi_f.c
+++ b/src/fortran/ext_mpi_f.c
@@ -30,7 +30,7 @@ void mpi_allreduce_init_f08_(const void *sendbuf, void *recvbuf, int *count, MPI
   } else if (*datatype == MPI_INTEGER4) {
     my_data_type = MPI_INT;
   } else if (*datatype == MPI_INTEGER8) {
-    my_data_type = MPI_LONG_INT;
+    my_data_type = MPI_LONG;
   } else {
     my_data_type = *datatype;
   }
@@ -64,7 +64,7 @@ void mpi_allreduce_f08_(const void *sendbuf, void *recvbuf, int *count, MPI_Data
   } else if (*datatype == MPI_INTEGER4) {
     my_data_type = MPI_INT;
   } else if (*datatype == MPI_INTEGER8) {
-    my_data_type = MPI_LONG_INT;
+    my_data_type = MPI_LONG;
   } else {
     my_data_type = *datatype;
   }
-- 
2.43.0


From e6a370c0e3508bcd9d080657783a207e17a118f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:43 +0000
Subject: [PATCH 50/51] fix: all ranks of scatterv agree on the message size

---
 src/mpi/ext_mpi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index 0bf0427..5b9e95d 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -568,7 +568,7 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   groups = (int *)malloc(num_ports_size(comm_size_row) * sizeof(int));
   if (!groups)
     goto error;
-  rcount = recvcount;
+  PMPI_Allreduce(&recvcount, &rcount, 1, MPI_INT, MPI_MAX, comm);
   minimum_computation = ext_mpi_get_param(ext_mpi_minimum_computation, comm, info, "ext_mpi_minimum_computation", 0);
   group_size = ext_mpi_num_ports_factors_env(comm, ext_mpi_fixed_factors_ports, ext_mpi_fixed_factors_groups, num_ports, groups);
   if (group_size < 0) {
-- 
2.43.0


From 7433e8cf65bddab33c0842766ef46a2e446e66ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:27 +0000
Subject: [PATCH 51/51] fix: waiting for several persistent collectives in
 different orders on different ranks hung

MPI_Wait advanced its own collective only, MPI_Waitall one after the other,
and the test functions what they were given. All of them now advance every
collective that is outstanding.
---
 src/mpi/ext_mpi_interface.c | 55 ++++++++++++++++++++++++++-----------
 src/mpi/ext_mpi_native.c    | 13 +++++++++
 2 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index fd3cf9d..4815885 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -168,11 +168,38 @@ static int is_in_request_array(int count, MPI_Request array_of_requests[]){
   return 0;
 }
 
+/* tells whether all requests are complete without releasing any of them, everything outstanding advances */
+static int test_all(int count, MPI_Request array_of_requests[], int *flag){
+  int ret, lflag, handle, i;
+  *flag = 1;
+  for (i=0; i<count; i++){
+    handle = ext_mpi_hash_search(&array_of_requests[i]);
+    if (handle >= 0){
+      lflag = EXT_MPI_Test(handle);
+    }else{
+      ret = PMPI_Request_get_status(array_of_requests[i], &lflag, MPI_STATUS_IGNORE);
+      if (ret != MPI_SUCCESS){
+        return ret;
+      }
+    }
+    if (!lflag) *flag = 0;
+  }
+  if (!*flag) EXT_MPI_Progress();
+  return MPI_SUCCESS;
+}
+
 int MPI_Waitall(int count, MPI_Request array_of_requests[], MPI_Status array_of_statuses[]){
-  int ret, i;
+  int ret, flag, i;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Waitall(count, array_of_requests, array_of_statuses);
   }
+  // another rank may wait for any of the requests or for another collective first
+  do {
+    ret = test_all(count, array_of_requests, &flag);
+    if (ret != MPI_SUCCESS){
+      return ret;
+    }
+  } while (!flag);
   if (array_of_statuses == MPI_STATUSES_IGNORE){
     for (i=0; i<count; i++){
       ret = MPI_Wait(&array_of_requests[i], MPI_STATUS_IGNORE);
@@ -196,7 +223,9 @@ static int test_active(MPI_Request *request, int *active, int *flag, MPI_Status
   int *hash_active=ext_mpi_hash_active(request), indx, ret;
   if (hash_active){
     *active = *hash_active;
-    return MPI_Test(request, flag, status);
+    *flag = EXT_MPI_Test(ext_mpi_hash_search(request));
+    if (*flag) *hash_active = 0;
+    return MPI_SUCCESS;
   }
   ret = PMPI_Testany(1, request, &indx, flag, status);
   *active = !(*flag && indx == MPI_UNDEFINED);
@@ -230,6 +259,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
   if (handle >= 0){
     *flag=EXT_MPI_Test(handle);
     if (*flag) *ext_mpi_hash_active(request) = 0;
+    else EXT_MPI_Progress();
     return MPI_SUCCESS;
   }else{
     return PMPI_Test(request, flag, status);
@@ -237,23 +267,13 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status){
 }
 
 int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Status array_of_statuses[]){
-  int ret, lflag, handle, i;
+  int ret;
   if (!is_in_request_array(count, array_of_requests)){
     return PMPI_Testall(count, array_of_requests, flag, array_of_statuses);
   }
-  *flag = 1;
-  for (i=0; i<count; i++){
-    handle = ext_mpi_hash_search(&array_of_requests[i]);
-    if (handle >= 0){
-      lflag = EXT_MPI_Test(handle);
-    }else{
-      // no request is released before all of them are complete
-      ret = PMPI_Request_get_status(array_of_requests[i], &lflag, MPI_STATUS_IGNORE);
-      if (ret != MPI_SUCCESS){
-        return ret;
-      }
-    }
-    if (!lflag) *flag = 0;
+  ret = test_all(count, array_of_requests, flag);
+  if (ret != MPI_SUCCESS){
+    return ret;
   }
   if (*flag){
     return MPI_Waitall(count, array_of_requests, array_of_statuses);
@@ -279,6 +299,7 @@ int MPI_Testany(int count, MPI_Request array_of_requests[], int *indx, int *flag
   }
   *flag = !any_active;
   *indx = MPI_UNDEFINED;
+  if (any_active) EXT_MPI_Progress();
   return MPI_SUCCESS;
 }
 
@@ -301,6 +322,8 @@ int MPI_Testsome(int incount, MPI_Request array_of_requests[], int *outcount, in
   }
   if (!any_active){
     *outcount = MPI_UNDEFINED;
+  }else if (!*outcount){
+    EXT_MPI_Progress();
   }
   return MPI_SUCCESS;
 }
diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index da561c5..3d83119 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -269,7 +269,20 @@ int EXT_MPI_Progress_native() {
   return (ret);
 }
 
+static int is_other_outstanding(int handle) {
+  int i;
+  for (i = 0; i < handle_code_max; i += 2) {
+    if (i != handle && execution_pointer[i])
+      return 1;
+  }
+  return 0;
+}
+
 int EXT_MPI_Wait_native(int handle) {
+  // another rank may wait for another collective first
+  while (execution_pointer[handle] && is_other_outstanding(handle)) {
+    EXT_MPI_Progress_native();
+  }
   if (!active_wait[handle]) {
     active_wait[handle] = 3;
   } else {
-- 
2.43.0

