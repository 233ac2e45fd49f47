// b STEP...   blocking collectives (EXT_MPI_BLOCKING=1), each checked against its definition; steps in order:
//   KIND:TYPE:COUNT:COMM[:inplace]   KIND allreduce allgather rsb, COMM w (world) or a number given by
//   dup=K, split=K:B (ranks below B form communicator K, the others another one), free=K, node=N (ranks per fake node, first step), pers=K:COUNT (a persistent allreduce on K, run once)
//   fortran=1 : allreduce through mpi_allreduce_f08_
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "ext_mpi_interface.h"
int MPIR_F08_MPI_IN_PLACE;
void mpi_allreduce_f08_(const void *, void *, int *, MPI_Datatype *, MPI_Op *, MPI_Comm *, int *);
static int node = 0;
int PMPI_Comm_split_type(MPI_Comm c, int t, int key, MPI_Info i, MPI_Comm *n) {
  int r; PMPI_Comm_rank(MPI_COMM_WORLD, &r); (void)t; (void)i;
  return PMPI_Comm_split(c, node ? r / node : 0, key, n);
}
static long val(int rank, int i, int st) { return (long)rank * 1000 + i % 977 + st * 10000; }
static void put(void *b, int i, long v, MPI_Datatype t) { if (t == MPI_LONG) ((long *)b)[i] = v; else if (t == MPI_INT) ((int *)b)[i] = v; else if (t == MPI_DOUBLE) ((double *)b)[i] = v; else ((float *)b)[i] = v; }
static long get(void *b, int i, MPI_Datatype t) { return t == MPI_LONG ? ((long *)b)[i] : t == MPI_INT ? ((int *)b)[i] : t == MPI_DOUBLE ? (long)((double *)b)[i] : (long)((float *)b)[i]; }
int main(int c, char **v) {
  int bad = 0, fort = 0; MPI_Comm cm[64]; for (int i = 0; i < 64; i++) cm[i] = MPI_COMM_NULL;
  setenv("EXT_MPI_BLOCKING", "1", 1);
  if (c > 1 && !strncmp(v[1], "node=", 5)) node = atoi(v[1] + 5);
  MPI_Init(&c, &v);
  for (int s = 1; s < c; s++) { char *a = v[s]; int wr; PMPI_Comm_rank(MPI_COMM_WORLD, &wr);
    if (!strncmp(a, "node=", 5)) continue;
    if (!strncmp(a, "fortran=", 8)) { fort = atoi(a + 8); continue; }
    if (!strncmp(a, "dup=", 4)) { MPI_Comm_dup(MPI_COMM_WORLD, &cm[atoi(a + 4)]); continue; }
    if (!strncmp(a, "free=", 5)) { MPI_Comm_free(&cm[atoi(a + 5)]); continue; }
    if (!strncmp(a, "split=", 6)) { int k = atoi(a + 6), b = atoi(strchr(a, ':') + 1); MPI_Comm_split(MPI_COMM_WORLD, wr >= b, wr, &cm[k]); continue; }
    char k[32], ty[16], cs[16], ip[16] = ""; int n, r, cnt;
    if (!strncmp(a, "pers=", 5)) { int kk; sscanf(a, "pers=%d:%d", &kk, &cnt); MPI_Comm w = kk ? cm[kk] : MPI_COMM_WORLD; PMPI_Comm_size(w, &n); PMPI_Comm_rank(w, &r);
      long *x = malloc(8 * cnt + 8), *y = malloc(8 * cnt + 8); MPI_Request q; MPI_Allreduce_init(x, y, cnt, MPI_LONG, MPI_SUM, w, MPI_INFO_NULL, &q);
      for (int i = 0; i < cnt; i++) x[i] = val(r, i, s); MPI_Start(&q); MPI_Wait(&q, MPI_STATUS_IGNORE);
      for (int i = 0; i < cnt; i++) { long e = 0; for (int j = 0; j < n; j++) e += val(j, i, s); if (y[i] != e) bad++; } MPI_Request_free(&q); free(x); free(y); continue; }
    if (sscanf(a, "%31[^:]:%15[^:]:%d:%15[^:]:%15s", k, ty, &cnt, cs, ip) < 4) return 3;
    MPI_Comm w = cs[0] == 'w' ? MPI_COMM_WORLD : cm[atoi(cs)]; PMPI_Comm_size(w, &n); PMPI_Comm_rank(w, &r);
    MPI_Datatype t = !strcmp(ty, "long") ? MPI_LONG : !strcmp(ty, "int") ? MPI_INT : !strcmp(ty, "double") ? MPI_DOUBLE : MPI_FLOAT; int es; PMPI_Type_size(t, &es);
    int in = cnt * (strcmp(k, "rsb") ? 1 : n), out = cnt * (strcmp(k, "allgather") ? 1 : n), big = in > out ? in : out;
    char *S = malloc(big * es + 64), *R = malloc(big * es + 64); memset(R, 0x77, big * es + 64); memset(S, 0x55, big * es + 64);
    void *src = S; if (ip[0] == 'i') { src = MPI_IN_PLACE; memcpy(S, R, big * es + 64); }
    for (int i = 0; i < in; i++) { put(S, i, val(r, i, s), t); if (ip[0] == 'i') put(R, i + (!strcmp(k, "allgather") ? r * cnt : 0), val(r, i, s), t); }
    if (!strcmp(k, "allreduce")) { MPI_Op op = MPI_SUM; int e; if (fort) mpi_allreduce_f08_(src, R, &cnt, &t, &op, &w, &e); else MPI_Allreduce(src, R, cnt, t, MPI_SUM, w); }
    else if (!strcmp(k, "allgather")) MPI_Allgather(src, cnt, t, R, cnt, t, w);
    else MPI_Reduce_scatter_block(src, R, cnt, t, MPI_SUM, w);
    int b0 = bad;
    if (!strcmp(k, "allreduce")) for (int i = 0; i < cnt; i++) { long e = 0; for (int j = 0; j < n; j++) e += val(j, i, s); if (get(R, i, t) != e) bad++; }
    if (!strcmp(k, "allgather")) for (int j = 0; j < n; j++) for (int i = 0; i < cnt; i++) if (get(R, j * cnt + i, t) != val(j, i, s)) bad++;
    if (!strcmp(k, "rsb")) for (int i = 0; i < cnt; i++) { long e = 0; for (int j = 0; j < n; j++) e += val(j, r * cnt + i, s); if (get(R, i, t) != e) bad++; }
    for (int i = out * es; i < big * es + 64; i++) if (R[i] != 0x77 && ip[0] != 'i') { bad++; break; }
    if (bad > b0) printf("rank %d: %s wrong\n", wr, a);
    free(S); free(R); PMPI_Barrier(MPI_COMM_WORLD);
  }
  int all = 0; PMPI_Allreduce(&bad, &all, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); MPI_Finalize(); return all != 0;
}
