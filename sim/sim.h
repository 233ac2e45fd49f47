// simmpi: a deterministic, single-process MPI + SysV-shm stand-in.  Every
// virtual rank is a fiber running its own private copy of the library under
// test; one seeded scheduler owns every interleaving decision.
#pragma once
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
};
static inline uint64_t hash64(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0) {
  Rng r(a ^ (b * 0xA24BAED4963EE407ull) ^ (c * 0x9FB21C651E98DF25ull) ^ (d * 0xC13FA9A902A6328Full));
  r.next();
  return r.next();
}

extern long sim_corrupt, sim_corrupted;   // fault injection: flip a bit in the n-th message from now on; number of messages hit
extern uint64_t sim_corrupt_seed;
struct SimConfig {
  int n = 1;
  std::vector<int> node;
  int sched = 0;          // scheduling strategy
  int slice = 1000;       // mean preemption slice (library basic blocks)
  uint64_t sched_seed = 1;
  uint64_t mpi_seed = 1;
  int eager = 1;          // 0 rendezvous, 1 eager, 2 random per message
  int delay = 0;          // max delivery delay (virtual steps)
  int collsync = 0;       // 1: every collective synchronises all ranks
  int reqreuse = 0;       // 0 LIFO, 1 FIFO, 2 random
  int reqstride = 192;
  uint64_t wt_seed = 1;
  double wt_step = 0.15;
  int fill = 0xA5;        // malloc fill byte, -1: random bytes
  bool race = false;      // happens-before race detection in shared memory
  long limit = 400000000; // basic blocks without progress => livelock
  long total = 0;         // hard limit on basic blocks (0: 20e9)
};
extern SimConfig cfg;

struct Fiber {
  void *sp = nullptr;
  char *stack = nullptr;
  int rank = -1;
  bool done = false, blocked = false;
  uint64_t blk_epoch = 0;
  const char *blk_what = "";
  std::string where;   // what the harness program is doing
  long prio = 0;
  long runs = 0;
};
extern std::vector<Fiber *> fibers;
extern Fiber *cur;

// statistics of one case
struct SimStats {
  long edges = 0, switches = 0, msgs = 0, bytes = 0, colls = 0, shmsegs = 0, rendezvous = 0, delayed = 0, tests_false = 0, allocs = 0, spins = 0;
};
extern SimStats st;
extern uint64_t g_epoch;

void sim_reset(const SimConfig &c);
void sim_run(const std::function<void(int)> &body);   // runs all fibers to completion
void sim_progress();                                  // note harness progress
void sim_yield();                                     // voluntary preemption point
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
std::string backtrace_names(int depth);
extern void (*fail_hook)(const char *cls, const char *msg);

// memory accounting
long mem_live_bytes(int rank);
long mem_live_blocks(int rank);
void mem_check_all();
std::string mem_live_sites(int rank);
int shm_live();
int comm_live(int rank);
int req_live(int rank);
long msgs_unmatched();
void mem_forget();

// race detector (race.cpp)
typedef std::vector<uint32_t> VC;
extern bool race_on;
void race_reset(bool on, uintptr_t lo, uintptr_t hi);
void race_counts(long *accesses, long *bytes, long *sync, long *pairs);
void race_forget();
void race_segment_gone(int id);
VC race_snapshot();
void race_join(const VC &v);
uint32_t race_post(const void *p, size_t n, bool send);
void race_complete(uint32_t c);
bool shm_find(void *a, int *id, uintptr_t *base, size_t *size);

extern "C" {
extern uint8_t *cov_map;
extern uint32_t cov_n;
}
