// d KIND TYPE COUNT[,COUNT...] [opt=value...]   one persistent collective, checked against its definition
// opts: root= starts= inplace= delay=RANK (sleeps before every completion) method=wait|test|waitall|testall|waitany  node=N (ranks per fake node)
//       info=key:value keep=1 (init must not touch buffers) many=N (N requests at once) frees=N (create and free N requests first)  late=N (N more requests are created while the others are started)  mix=1 (waitall, testall: array starts with an ordinary receive and send, checked with their statuses)
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "ext_mpi_interface.h"
static int node = 0;
static MPI_Request lateh[1024];
// every group of "node" consecutive ranks of the parent pretends to share a node
int PMPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info i, MPI_Comm *n) {
  int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); (void)t; (void)i;
  return PMPI_Comm_split(c, node ? r / node : 0, key, n);
}
static long val(int rank, int i, int start) { return (long)rank * 1000 + i % 977 + start * 100000; }
static void put(void *b, int i, long v, MPI_Datatype t) { if (t == MPI_LONG) ((long *)b)[i] = v; else if (t == MPI_INT) ((int *)b)[i] = v; else if (t == MPI_DOUBLE) ((double *)b)[i] = v; else if (t == MPI_FLOAT) ((float *)b)[i] = v; else ((char *)b)[i] = v % 100; }
static int same(void *b, int i, long v, MPI_Datatype t) { if (t == MPI_LONG) return ((long *)b)[i] == v; if (t == MPI_INT) return ((int *)b)[i] == v; if (t == MPI_DOUBLE) return ((double *)b)[i] == v; if (t == MPI_FLOAT) return ((float *)b)[i] == v; return ((char *)b)[i] == (char)(v % 100); }
int main(int c, char **v) {
  const char *k = v[1], *ty = v[2], *method = "wait"; int root = 0, starts = 1, inplace = 0, delay = -1, keep = 0, many = 1, frees = 0, late = 0, mix = 0; MPI_Info info = MPI_INFO_NULL; char *ikey = 0, *ival = 0;
  for (int i = 4; i < c; i++) { char *e = strchr(v[i], '='); *e++ = 0;
    if (!strcmp(v[i], "root")) root = atoi(e); if (!strcmp(v[i], "starts")) starts = atoi(e); if (!strcmp(v[i], "inplace")) inplace = atoi(e); if (!strcmp(v[i], "delay")) delay = atoi(e);
    if (!strcmp(v[i], "method")) method = e; if (!strcmp(v[i], "mix")) mix = atoi(e); if (!strcmp(v[i], "late")) late = atoi(e); if (!strcmp(v[i], "node")) node = atoi(e); if (!strcmp(v[i], "keep")) keep = atoi(e); if (!strcmp(v[i], "many")) many = atoi(e); if (!strcmp(v[i], "frees")) frees = atoi(e);
    if (!strcmp(v[i], "info")) { ikey = e; ival = strchr(e, ':'); *ival++ = 0; } }
  MPI_Init(&c, &v);
  int n, r; MPI_Comm_size(MPI_COMM_WORLD, &n); MPI_Comm_rank(MPI_COMM_WORLD, &r);
  if (ikey) { MPI_Info_create(&info); MPI_Info_set(info, ikey, ival); }
  MPI_Datatype t = !strcmp(ty, "long") ? MPI_LONG : !strcmp(ty, "int") ? MPI_INT : !strcmp(ty, "double") ? MPI_DOUBLE : !strcmp(ty, "float") ? MPI_FLOAT : MPI_CHAR;
  int cnt[64], d[64], tot = 0; char *p = v[3]; for (int i = 0; i < n; i++) { cnt[i] = atoi(p); if (strchr(p, ',')) p = strchr(p, ',') + 1; d[i] = tot; tot += cnt[i]; }
  int vec = !!strchr(v[3], ',') || !strcmp(k, "allgatherv") || !strcmp(k, "gatherv") || !strcmp(k, "scatterv") || !strcmp(k, "reduce_scatter");
  (void)vec;
  MPI_Request *h = malloc(many * sizeof *h); char **S = malloc(many * sizeof *S), **R = malloc(many * sizeof *R);
  MPI_Comm w = MPI_COMM_WORLD; int bad = 0;
  for (int m = -frees; m < many; m++) { int mm = m < 0 ? 0 : m;
    S[mm] = malloc(8 * tot + 64); R[mm] = malloc(8 * tot + 64); memset(R[mm], 0x77, 8 * tot + 64); memset(S[mm], 0x55, 8 * tot + 64);
    void *s = S[mm], *q = R[mm];
    if (!strcmp(k, "allreduce")) MPI_Allreduce_init(inplace ? MPI_IN_PLACE : s, q, cnt[0], t, MPI_SUM, w, info, &h[mm]);
    if (!strcmp(k, "reduce")) MPI_Reduce_init(s, q, cnt[0], t, MPI_SUM, root, w, info, &h[mm]);
    if (!strcmp(k, "bcast")) MPI_Bcast_init(q, cnt[0], t, root, w, info, &h[mm]);
    if (!strcmp(k, "allgatherv")) MPI_Allgatherv_init(s, cnt[r], t, q, cnt, d, t, w, info, &h[mm]);
    if (!strcmp(k, "gatherv")) MPI_Gatherv_init(s, cnt[r], t, q, cnt, d, t, root, w, info, &h[mm]);
    if (!strcmp(k, "scatterv")) MPI_Scatterv_init(s, cnt, d, t, q, cnt[r], t, root, w, info, &h[mm]);
    if (!strcmp(k, "reduce_scatter")) MPI_Reduce_scatter_init(s, q, cnt, t, MPI_SUM, w, info, &h[mm]);
    if (keep) for (int i = 0; i < 8 * tot + 64; i++) if (R[mm][i] != 0x77 || S[mm][i] != 0x55) { bad++; break; }
    if (m < 0) { MPI_Request_free(&h[0]); free(S[0]); free(R[0]); }
  }
  for (int st = 1; st <= starts; st++) {
    for (int m = 0; m < many; m++) { int z = st * 7 + m;
      memset(R[m], 0x77, 8 * tot + 64);
      for (int i = 0; i < tot; i++) { put(S[m], i, val(r, i, z), t); if (inplace) put(R[m], i, val(r, i, z), t); }
      if (!strcmp(k, "bcast")) for (int i = 0; i < cnt[0]; i++) put(R[m], i, r == root ? val(root, i, z) : -1, t);
      MPI_Start(&h[m]); }
    static char lb[8 * 4096]; 
    if (st == 1) for (int m = 0; m < late; m++) MPI_Bcast_init(lb, 1, MPI_LONG, 0, w, MPI_INFO_NULL, &lateh[m]);
    if (delay == r) usleep(50000);
    if (!strcmp(method, "wait")) for (int m = 0; m < many; m++) MPI_Wait(&h[m], MPI_STATUS_IGNORE);
    else if (mix) { MPI_Request *x = malloc((many + 2) * sizeof *x); MPI_Status *ss = malloc((many + 2) * sizeof *ss); int a = r + 70, b = -1;
      PMPI_Irecv(&b, 1, MPI_INT, (r + n - 1) % n, 9, w, &x[0]); PMPI_Isend(&a, 1, MPI_INT, (r + 1) % n, 9, w, &x[1]); for (int m = 0; m < many; m++) x[2 + m] = h[m];
      if (!strcmp(method, "waitall")) MPI_Waitall(many + 2, x, ss); else { int f = 0; while (!f) MPI_Testall(many + 2, x, &f, ss); }
      if (b != (r + n - 1) % n + 70 || ss[0].MPI_SOURCE != (r + n - 1) % n || ss[0].MPI_TAG != 9 || x[0] != MPI_REQUEST_NULL || x[1] != MPI_REQUEST_NULL) bad++;
      free(x); free(ss); }
    else if (!strcmp(method, "waitall")) MPI_Waitall(many, h, MPI_STATUSES_IGNORE);
    else if (!strcmp(method, "test")) for (int m = 0; m < many; m++) { int f = 0; while (!f) MPI_Test(&h[m], &f, MPI_STATUS_IGNORE); }
    else if (!strcmp(method, "testall")) { int f = 0; while (!f) MPI_Testall(many, h, &f, MPI_STATUSES_IGNORE); }
    else if (!strcmp(method, "waitany")) { int *got = calloc(many, sizeof(int)); for (int m = 0; m < many; m++) { int x; MPI_Waitany(many, h, &x, MPI_STATUS_IGNORE); if (x < 0 || got[x]++) { bad++; break; } } free(got); }
    for (int m = 0; m < many; m++) { int z = st * 7 + m; void *q = R[m]; int from = 0, len = 0;
      if (!strcmp(k, "allreduce") || (!strcmp(k, "reduce") && r == root)) { len = cnt[0]; for (int i = 0; i < len; i++) { long x = 0; for (int a = 0; a < n; a++) x += val(a, i, z); if (!same(q, i, x, t)) bad++; } }
      if (!strcmp(k, "bcast")) { len = cnt[0]; for (int i = 0; i < len; i++) if (!same(q, i, val(root, i, z), t)) bad++; }
      if (!strcmp(k, "reduce_scatter")) { len = cnt[r]; for (int i = 0; i < len; i++) { long x = 0; for (int a = 0; a < n; a++) x += val(a, d[r] + i, z); if (!same(q, i, x, t)) bad++; } }
      if (!strcmp(k, "allgatherv") || (!strcmp(k, "gatherv") && r == root)) { len = tot; for (int a = 0; a < n; a++) for (int i = 0; i < cnt[a]; i++) if (!same(q, d[a] + i, val(a, i, z), t)) bad++; }
      if (!strcmp(k, "scatterv")) { len = cnt[r]; for (int i = 0; i < len; i++) if (!same(q, i, val(root, d[r] + i, z), t)) bad++; }
      (void)from; int es; MPI_Type_size(t, &es);
      for (int i = len * es; i < 8 * tot + 64; i++) if (R[m][i] != 0x77 && !inplace) { bad++; break; }
      if (strcmp(k, "bcast")) for (int i = 0; i < tot; i++) if (!same(S[m], i, val(r, i, z), t)) { bad++; break; }
    }
    PMPI_Barrier(w);
  }
  for (int m = 0; m < late; m++) MPI_Request_free(&lateh[m]);
  for (int m = 0; m < many; m++) MPI_Request_free(&h[m]);
  int all = 0; PMPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_SUM, w);
  if (!r) printf("%s: %d wrong\n", k, all);
  MPI_Finalize();
  return all != 0;
}
