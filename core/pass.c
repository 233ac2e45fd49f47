/* Runs a chain of schedule passes over standard input: pass NAME NAME ... */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define PASSES \
  P(allreduce) P(allreduce_recursive) P(allreduce_recursive_shrink) P(allreduce_short) P(allreduce_short_single) \
  P(allreduce_single) P(buffer_offset) P(dummy) P(move_first_memcpy) P(no_first_barrier) P(no_offset) \
  P(no_socket_barriers) P(optimise_buffers) P(optimise_buffers2) P(optimise_multi_socket) P(parallel_memcpy) \
  P(rank_permutation_backward) P(rank_permutation_forward) P(raw_code) P(raw_code_merge) P(raw_code_tasks_node) \
  P(raw_code_tasks_node_master) P(reduce_copyin) P(reduce_copyout) P(reduce_scatter_single_node) P(swap_copyin) \
  P(use_recvbuf) P(use_sendbuf_recvbuf) P(waitany)
#define P(x) int ext_mpi_generate_##x(char *, char *);
PASSES
#undef P
static struct { const char *name; int (*f)(char *, char *); } tab[] = {
#define P(x) {#x, ext_mpi_generate_##x},
PASSES
#undef P
};
#define SIZE (16 << 20)
int main(int argc, char **argv) {
  char *a = malloc(SIZE), *b = malloc(SIZE), *t;
  a[fread(a, 1, SIZE - 1, stdin)] = 0;
  for (int i = 1; i < argc; i++) {
    int k, n = sizeof(tab) / sizeof(tab[0]);
    for (k = 0; k < n && strcmp(tab[k].name, argv[i]); k++);
    if (k == n) { fprintf(stderr, "no pass %s\n", argv[i]); return 2; }
    if (tab[k].f(a, b) < 0) { fprintf(stderr, "pass %s failed\n", argv[i]); return 3; }
    t = a; a = b; b = t;
  }
  fputs(a, stdout);
}
