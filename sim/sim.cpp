// simmpi runtime: fibers, scheduler, MPI subset, SysV shm stand-in, checked heap.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <algorithm>
#include <queue>
#include <memory>
#include <sys/mman.h>
#include <sys/shm.h>
#include <sys/ipc.h>
#include <dlfcn.h>

SimConfig cfg;
std::vector<Fiber *> fibers;
Fiber *cur = nullptr;
SimStats st;
uint64_t g_epoch = 1;
long sim_corrupt = 0, sim_corrupted = 0;
uint64_t sim_corrupt_seed = 1;
void (*fail_hook)(const char *, const char *) = nullptr;

static Rng rs(1), rm(1), rt(1);
static long vt_off = 0;
static long last_prog = 0;
static long budget = 0;
static void *main_sp = nullptr;
static int live_fibers = 0;
static int victim = 0;
int g_fine = 0;    // number of fibers in their fine-grained phase (harness sets)

[[noreturn]] void fail(const char *cls, const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  if (fail_hook) fail_hook(cls, buf);
  fprintf(stderr, "FAIL %s %s\n", cls, buf);
  _exit(99);
}

// ---------------------------------------------------------------- coverage
extern "C" {
uint8_t *cov_map = nullptr;
uint32_t cov_n = 0;
static uint32_t cov_base_copy = 0;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  uint32_t i = 0;
  for (uint32_t *p = start; p < stop; p++) *p = ++i;
  if (i + 1 > cov_n) cov_n = i + 1;
  (void)cov_base_copy;
}
static void reschedule();
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (cov_map) cov_map[*g] = 1;
  if (!cur) return;
  st.edges++;
  // a loop over at most four blocks is most likely a spin wait: give way early
  static uint32_t recent[4];
  static int rpos = 0, spin = 0;
  uint32_t v = *g;
  if (v == recent[0] || v == recent[1] || v == recent[2] || v == recent[3]) {
    if (++spin >= 48) { spin = 0; st.spins++; budget = 0; }
  } else {
    recent[rpos] = v;
    rpos = (rpos + 1) & 3;
    spin = 0;
  }
  if (--budget <= 0) reschedule();
}
}

// names of the library functions on the current stack (frame pointers)
std::string backtrace_names(int depth) {
  std::string s;
  if (!cur || !cur->stack) return s;
  void **fp = (void **)__builtin_frame_address(0);
  char *lo = cur->stack, *hi = cur->stack + (4 << 20) + 8192;
  for (int i = 0; i < 40 && (char *)fp > lo && (char *)fp < hi - 16; i++) {
    Dl_info di;
    if (dladdr(fp[1], &di) && di.dli_sname && !strncmp(di.dli_sname, "_Z", 2) == 0 && strncmp(di.dli_sname, "sim_", 4)) {
      if (!s.empty()) s += "<";
      s += di.dli_sname;
      if (--depth == 0) break;
    }
    fp = (void **)fp[0];
  }
  return s;
}

// ---------------------------------------------------------------- fibers
asm(".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "pushq %rbp\npushq %rbx\npushq %r12\npushq %r13\npushq %r14\npushq %r15\n"
    "movq %rsp,(%rdi)\nmovq %rsi,%rsp\n"
    "popq %r15\npopq %r14\npopq %r13\npopq %r12\npopq %rbx\npopq %rbp\nret\n");
extern "C" void sim_switch(void **save, void *load);

static const std::function<void(int)> *g_body;
struct Ev { long t; uint64_t seq; std::function<void()> f; };
struct EvCmp { bool operator()(const Ev &a, const Ev &b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };
static std::priority_queue<Ev, std::vector<Ev>, EvCmp> evq;
static uint64_t evseq = 0;
static long vnow() { return vt_off + st.switches + st.edges / 64; }
static void after(long d, std::function<void()> f) { evq.push(Ev{vnow() + d, evseq++, std::move(f)}); }
static void run_due() {
  while (!evq.empty() && evq.top().t <= vnow()) {
    auto f = evq.top().f;
    evq.pop();
    f();
  }
}
static void bump() { g_epoch++; last_prog = st.edges; }
void sim_progress() { last_prog = st.edges; }

static long new_slice() {
  long m = cfg.slice;
  if (cfg.sched == 4) m = 2;
  if (!g_fine && m < 2000) m = 2000;
  return 1 + (long)rs.below(2 * m);
}
static bool eligible(Fiber *f) { return !f->done && (!f->blocked || f->blk_epoch != g_epoch); }

static Fiber *pick() {
  static std::vector<Fiber *> el;
  int n = fibers.size();
  for (;;) {
    el.clear();
    for (auto f : fibers) if (eligible(f)) el.push_back(f);
    if (!el.empty()) break;
    if (!evq.empty()) {
      long t = evq.top().t;
      if (t > vnow()) vt_off += t - vnow();
      run_due();
      continue;
    }
    std::string s;
    for (auto f : fibers)
      if (!f->done) { char b[400]; snprintf(b, sizeof b, " rank%d[%s in %s]", f->rank, f->blk_what, f->where.c_str()); s += b; }
    fail("DEADLOCK", "every unfinished rank is blocked:%s", s.c_str());
  }
  switch (cfg.sched) {
    case 0: case 4: {
      int b = cur ? cur->rank : 0;
      for (int k = 1; k <= n; k++) { Fiber *f = fibers[(b + k) % n]; if (eligible(f)) return f; }
      return el[0];
    }
    case 2: {
      if (rs.chance(1, 3000)) victim = rs.below(n);
      if (el.size() > 1) {
        Fiber *f;
        do f = el[rs.below(el.size())]; while (f->rank == victim && !rs.chance(1, 40));
        return f;
      }
      return el[0];
    }
    case 3: {
      if (cur && !cur->done && rs.chance(1, 3)) cur->prio = -(long)rs.below(1000000) - st.switches;   // demote a spinner
      if (rs.chance(1, 200)) el[rs.below(el.size())]->prio = rs.below(1000000);
      Fiber *best = el[0];
      for (auto f : el) if (f->prio > best->prio) best = f;
      // fairness: a spinner may never starve the others for good
      if (rs.chance(1, 50)) best = el[rs.below(el.size())];
      return best;
    }
    case 5:
      if (cur && eligible(cur) && rs.chance(19, 20)) return cur;
      return el[rs.below(el.size())];
    default:
      return el[rs.below(el.size())];
  }
}

static void switch_to(Fiber *f) {
  f->blocked = false;
  budget = new_slice();
  if (f == cur) return;
  Fiber *old = cur;
  cur = f;
  f->runs++;
  sim_switch(old ? &old->sp : &main_sp, f->sp);
}

extern "C" { static void reschedule() {
  st.switches++;
  static const bool prof = getenv("SIM_PROF") != nullptr;
  if (prof) fprintf(stderr, "PROF %s\n", backtrace_names(6).c_str());
  if (st.edges - last_prog > cfg.limit) {
    std::string s;
    for (auto f : fibers)
      if (!f->done) { char b[400]; snprintf(b, sizeof b, " rank%d[%s%s in %s]", f->rank, f->blocked ? "blocked " : "running", f->blocked ? f->blk_what : "", f->where.c_str()); s += b; }
    fail("LIVELOCK", "no progress for %ld basic blocks:%s", cfg.limit, s.c_str());
  }
  if (cfg.total && st.edges > cfg.total) fail("BUDGET", "case exceeded %ld basic blocks", cfg.total);
  if (!evq.empty()) run_due();
  switch_to(pick());
} }
void sim_yield() { if (cur) reschedule(); }
static void block(const char *what) {
  cur->blocked = true;
  cur->blk_epoch = g_epoch;
  cur->blk_what = what;
  reschedule();
}
static inline void mpi_enter() {
  if (!cur) return;
  budget -= cfg.slice / 8 + 1;
  if (budget <= 0) reschedule();
}

static void fiber_main() {
  (*g_body)(cur->rank);
  cur->done = true;
  live_fibers--;
  bump();
  if (live_fibers == 0) {
    Fiber *o = cur;
    cur = nullptr;
    sim_switch(&o->sp, main_sp);
  }
  st.switches++;
  run_due();
  switch_to(pick());
  abort();
}

static const size_t STK = 4 << 20;
void sim_run(const std::function<void(int)> &body) {
  g_body = &body;
  fibers.clear();
  live_fibers = cfg.n;
  for (int r = 0; r < cfg.n; r++) {
    Fiber *f = new Fiber;
    f->rank = r;
    f->stack = (char *)mmap(nullptr, STK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(f->stack, 8192, PROT_NONE);
    uint64_t *sp = (uint64_t *)(f->stack + STK + 8192);
    *--sp = 0;
    *--sp = (uint64_t)&fiber_main;
    for (int i = 0; i < 6; i++) *--sp = 0;
    f->sp = sp;
    f->prio = rs.below(1000000);
    fibers.push_back(f);
  }
  victim = rs.below(cfg.n);
  switch_to(pick());
}

// ---------------------------------------------------------------- heap
struct Hdr { uint64_t magic; size_t size; Hdr *prev, *next; void *site; int rank; int big; size_t maplen; };
static_assert(sizeof(Hdr) == 56, "hdr");
static const uint64_t LIVE = 0x51AB1E0DDBA11ull, DEAD = 0xDEADB10CDEADB10Cull;
static Hdr heap_head = {0, 0, &heap_head, &heap_head, nullptr, 0, 0, 0};
static std::vector<long> live_bytes, live_blocks;
static std::set<void *> *live_set, *dead_set;
static std::deque<Hdr *> quarantine;
static size_t quarantine_bytes = 0;
static Rng rf(7);
static void fillmem(char *p, size_t n) {
  if (cfg.fill >= 0) { memset(p, cfg.fill, n); return; }
  while (n >= 8) { uint64_t v = rf.next(); memcpy(p, &v, 8); p += 8; n -= 8; }
  if (n) { uint64_t v = rf.next(); memcpy(p, &v, n); }
}
static const char TAIL[] = "0123456789abcdefTAILGUARDtailgu";
static std::string site_name(void *pc) {
  Dl_info di;
  if (dladdr(pc, &di) && di.dli_sname) return di.dli_sname;
  if (dladdr(pc, &di) && di.dli_fbase) { char b[64]; snprintf(b, sizeof b, "lib+0x%lx", (long)((char *)pc - (char *)di.dli_fbase)); return b; }
  return "?";
}
static void *xmalloc(size_t n, void *site) {
  if (!cur) return malloc(n);
  if (n > ((size_t)1 << 40)) return nullptr;
  sim_progress();
  st.allocs++;
  Hdr *h;
  if (n >= (1u << 20)) {
    size_t pay = (n + 15) & ~(size_t)15;
    size_t len = (pay + 64 + 4095) & ~(size_t)4095;
    char *m = (char *)mmap(nullptr, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return nullptr;
    mprotect(m + len, 4096, PROT_NONE);
    h = (Hdr *)(m + len - pay - 64 + 8);
    h->big = 1;
    h->maplen = len + 4096;
    h->size = n;
  } else {
    char *m = (char *)malloc(n + 64 + 32);
    h = (Hdr *)(m + 8);
    h->big = 0;
    h->size = n;
    fillmem(m + 64, n);
    memcpy(m + 64 + n, TAIL, 32);
  }
  h->magic = LIVE;
  h->rank = cur->rank;
  h->site = site;
  h->next = heap_head.next;
  h->prev = &heap_head;
  h->next->prev = h;
  heap_head.next = h;
  live_bytes[h->rank] += n;
  live_blocks[h->rank]++;
  void *p = (char *)h + 56;
  live_set->insert(p);
  dead_set->erase(p);
  return p;
}
static void tailcheck(Hdr *h, const char *when) {
  if (h->magic != LIVE) fail("HEAP", "heap block header overwritten (%s)", when);
  if (!h->big && memcmp((char *)h + 56 + h->size, TAIL, 32))
    fail("HEAP", "rank %d wrote past the end of a %zu-byte heap block allocated in %s (%s)", h->rank, h->size, site_name(h->site).c_str(), when);
}
static void xfree(void *p, void *site) {
  if (!p) return;
  if (!live_set || !live_set->count(p)) {
    if (dead_set && dead_set->count(p)) fail("HEAP", "double free in %s", site_name(site).c_str());
    if (cur && live_set) {
      // memory handed out by libc itself (getline and the like)
      free(p);
      return;
    }
    free(p);
    return;
  }
  sim_progress();
  Hdr *h = (Hdr *)((char *)p - 56);
  tailcheck(h, "at free");
  h->prev->next = h->next;
  h->next->prev = h->prev;
  live_bytes[h->rank] -= h->size;
  live_blocks[h->rank]--;
  live_set->erase(p);
  dead_set->insert(p);
  h->magic = DEAD;
  if (h->big) {
    char *m = (char *)h - 8;
    m = (char *)((uintptr_t)m & ~(uintptr_t)4095);
    munmap(m, h->maplen);
    return;
  }
  memset(p, 0xDD, h->size);
  quarantine.push_back(h);
  quarantine_bytes += h->size + 96;
  while (quarantine_bytes > (8u << 20)) {
    Hdr *q = quarantine.front();
    quarantine.pop_front();
    quarantine_bytes -= q->size + 96;
    dead_set->erase((char *)q + 56);
    free((char *)q - 8);
  }
}
long mem_live_bytes(int r) { return live_bytes[r]; }
long mem_live_blocks(int r) { return live_blocks[r]; }
void mem_check_all() { for (Hdr *h = heap_head.next; h != &heap_head; h = h->next) tailcheck(h, "final sweep"); }
std::string mem_live_sites(int r) {
  std::map<std::string, std::pair<long, long>> m;
  for (Hdr *h = heap_head.next; h != &heap_head; h = h->next)
    if (h->rank == r) { auto &x = m[site_name(h->site)]; x.first++; x.second += h->size; }
  std::string s;
  for (auto &k : m) { char b[300]; snprintf(b, sizeof b, " %s:%ldx/%ldB", k.first.c_str(), k.second.first, k.second.second); s += b; }
  return s;
}
extern "C" {
void *sim_malloc(size_t n) { return xmalloc(n, __builtin_return_address(0)); }
void *sim_calloc(size_t a, size_t b) { void *p = xmalloc(a * b, __builtin_return_address(0)); if (p) memset(p, 0, a * b); return p; }
void sim_free(void *p) { xfree(p, __builtin_return_address(0)); }
void *sim_realloc(void *p, size_t n) {
  void *site = __builtin_return_address(0);
  if (!p) return xmalloc(n, site);
  if (!live_set || !live_set->count(p)) return realloc(p, n);
  Hdr *h = (Hdr *)((char *)p - 56);
  void *q = xmalloc(n, site);
  memcpy(q, p, h->size < n ? h->size : n);
  xfree(p, site);
  return q;
}
char *sim_strdup(const char *s) { char *p = (char *)xmalloc(strlen(s) + 1, __builtin_return_address(0)); strcpy(p, s); return p; }
char *sim_strndup(const char *s, size_t n) { size_t l = strnlen(s, n); char *p = (char *)xmalloc(l + 1, __builtin_return_address(0)); memcpy(p, s, l); p[l] = 0; return p; }
void sim_exit(int c) { fail("EXIT", "library called exit(%d) on rank %d in %s", c, cur ? cur->rank : -1, cur ? cur->where.c_str() : ""); }
}

// ---------------------------------------------------------------- SysV shm
struct Seg { int fd; size_t size; int attached; bool removed; int creator; };
static std::map<int, Seg> segs;
static int next_seg = 100;
struct Att { int id; size_t maplen; int rank; };
static std::map<void *, Att> atts;
int shm_live() { return (int)segs.size(); }
static const uintptr_t SHMLO = 0x530000000000ull, SHMHI = 0x538000000000ull;
static uintptr_t shm_next = SHMLO;
bool shm_find(void *a, int *id, uintptr_t *base, size_t *size) {
  auto it = atts.upper_bound(a);
  if (it == atts.begin()) return false;
  --it;
  if ((char *)a >= (char *)it->first + segs[it->second.id].size) return false;
  *id = it->second.id;
  *base = (uintptr_t)it->first;
  *size = segs[*id].size;
  return true;
}
static void seg_gc(int id) {
  auto it = segs.find(id);
  if (it != segs.end() && it->second.removed && it->second.attached == 0) { close(it->second.fd); segs.erase(it); race_segment_gone(id); }
}
static void seg_tail(int id) {
  Seg &s = segs[id];
  size_t len = (s.size + 4095) & ~(size_t)4095;
  if (len == s.size) return;
  std::vector<char> b(len - s.size);
  if (pread(s.fd, b.data(), b.size(), s.size) > 0)
    for (char c : b) if (c) fail("SHMEM", "write past the end of a %zu-byte shared segment", s.size);
}
extern "C" {
int sim_shmget(key_t key, size_t size, int flg) {
  mpi_enter();
  (void)flg;
  if (key != IPC_PRIVATE) fail("MPI_MISUSE", "shmget with a fixed key");
  if (size == 0) { errno = EINVAL; return -1; }
  int fd = memfd_create("simshm", 0);
  if (fd < 0 || ftruncate(fd, (size + 4095) & ~(size_t)4095)) fail("HARNESS", "memfd failed");
  int id = next_seg++;
  segs[id] = Seg{fd, size, 0, false, cur ? cur->rank : -1};
  st.shmsegs++;
  return id;
}
void *sim_shmat(int id, const void *addr, int flg) {
  mpi_enter();
  (void)addr;
  auto it = segs.find(id);
  if (it == segs.end()) { errno = EINVAL; return (void *)-1; }
  size_t len = (it->second.size + 4095) & ~(size_t)4095;
  if (shm_next + len + 8192 > SHMHI) fail("HARNESS", "shared memory arena exhausted");
  char *res = (char *)mmap((void *)shm_next, len + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (res == MAP_FAILED) fail("HARNESS", "shared memory arena occupied");
  shm_next += len + 8192;
  char *m = (char *)mmap(res + 4096, len, PROT_READ | ((flg & SHM_RDONLY) ? 0 : PROT_WRITE), MAP_SHARED | MAP_FIXED, it->second.fd, 0);
  if (m == MAP_FAILED) fail("HARNESS", "mmap shm failed");
  it->second.attached++;
  atts[m] = Att{id, len, cur ? cur->rank : -1};
  return m;
}
int sim_shmdt(const void *addr) {
  mpi_enter();
  auto it = atts.find((void *)addr);
  if (it == atts.end()) { errno = EINVAL; return -1; }
  if (cur && it->second.rank != cur->rank) fail("SHMEM", "rank %d detached rank %d's mapping", cur->rank, it->second.rank);
  int id = it->second.id;
  seg_tail(id);
  munmap((char *)addr - 4096, it->second.maplen + 8192);
  atts.erase(it);
  race_forget();
  segs[id].attached--;
  seg_gc(id);
  return 0;
}
int sim_shmctl(int id, int cmd, struct shmid_ds *) {
  mpi_enter();
  auto it = segs.find(id);
  if (it == segs.end()) { errno = EINVAL; return -1; }
  if (cmd == IPC_RMID) {
    it->second.removed = true;
    seg_gc(id);
  }
  return 0;
}
}

// ---------------------------------------------------------------- MPI objects
struct Req;
struct Msg { int src, tag; size_t bytes; std::vector<char> data; const void *ptr; bool eager; Req *sreq; VC vc; };
struct CommS {
  int ctx;
  std::vector<int> members;       // world ranks
  std::vector<std::deque<Msg *>> unexpected;
  std::vector<std::deque<Req *>> posted;
  std::vector<long> collseq;
  std::map<long, struct Coll *> colls;
};
struct CommH { uint32_t magic; int rank_world; CommS *s; int myrank; bool freed, predefined; };
static const uint32_t CMAGIC = 0xC0335511, RMAGIC = 0x4E9E57AA;
struct Req {
  uint32_t magic;
  int rank;
  bool send, persistent, active, complete, detached, freed, inflight;
  void *buf; size_t bytes; int peer, tag; CommS *s; int me;
  int st_src, st_tag; size_t st_bytes;
  uint32_t rc; VC *vc;    // race detector: clock of the transfer, and of the received message
};
struct Coll {
  const char *name; int root; long sig; int n, arrived, left;
  std::vector<char> here; std::vector<std::vector<char>> in; VC vc;
  std::map<long, CommS *> made;
  std::string site;
};
static int next_ctx;
static std::vector<CommH *> world_h, self_h;
static std::vector<std::vector<CommH *>> comm_live_v;
static std::vector<std::vector<Req *>> req_free;
static std::vector<int> req_livecount;
static std::vector<char *> req_next, comm_next;
static std::vector<double> clk;
static const uintptr_t RARENA = 0x510000000000ull, CARENA = 0x520000000000ull, PER = 1 << 22;
static bool arenas = false;

static CommS *new_comms(std::vector<int> m) {
  CommS *s = new CommS;
  s->ctx = next_ctx++;
  s->members = std::move(m);
  s->unexpected.resize(s->members.size());
  s->posted.resize(s->members.size());
  s->collseq.resize(s->members.size());
  return s;
}
static CommH *new_commh(int wr, CommS *s) {
  CommH *h = nullptr;
  // as with requests, the handle of a freed communicator can come back for another one
  auto &lv = comm_live_v[wr];
  if (cfg.reqreuse != 1)
    for (auto it = lv.rbegin(); it != lv.rend(); ++it)
      if ((*it)->freed && (cfg.reqreuse == 0 || rm.below(2))) { h = *it; lv.erase(std::next(it).base()); break; }
  if (!h) {
    h = (CommH *)comm_next[wr];
    comm_next[wr] += 256 + 16 * rm.below(30);
    if (comm_next[wr] > (char *)CARENA + PER * (wr + 1)) fail("HARNESS", "communicator arena exhausted");
  }
  new (h) CommH;
  h->magic = CMAGIC;
  h->rank_world = wr;
  h->s = s;
  h->myrank = std::find(s->members.begin(), s->members.end(), wr) - s->members.begin();
  h->freed = h->predefined = false;
  comm_live_v[wr].push_back(h);
  return h;
}
int comm_live(int r) { int c = 0; for (auto h : comm_live_v[r]) if (!h->freed && !h->predefined) c++; return c; }
int req_live(int r) { return req_livecount[r]; }
static std::vector<CommS *> all_comms;
long msgs_unmatched() {
  long c = 0;
  for (auto &v : comm_live_v) for (auto h : v) { for (auto &q : h->s->unexpected) c += q.size(); }
  return c;
}

void sim_reset(const SimConfig &c) {
  cfg = c;
  rs = Rng(c.sched_seed);
  rm = Rng(c.mpi_seed);
  rt = Rng(c.wt_seed);
  rf = Rng(c.mpi_seed ^ 0x55);
  st = SimStats();
  g_epoch = 1;
  vt_off = last_prog = 0;
  live_bytes.assign(c.n, 0);
  live_blocks.assign(c.n, 0);
  if (!live_set) { live_set = new std::set<void *>; dead_set = new std::set<void *>; }
  if (!arenas) {
    mmap((void *)RARENA, PER * 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    mmap((void *)CARENA, PER * 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    arenas = true;
  }
  race_reset(c.race, SHMLO, SHMHI);
  shm_next = SHMLO;
  req_free.assign(c.n, {});
  req_livecount.assign(c.n, 0);
  req_next.clear();
  comm_next.clear();
  comm_live_v.assign(c.n, {});
  clk.assign(c.n, 0.0);
  for (int r = 0; r < c.n; r++) {
    req_next.push_back((char *)RARENA + PER * r + 64 * rm.below(64));
    comm_next.push_back((char *)CARENA + PER * r + 64 * rm.below(64));
  }
  std::vector<int> all;
  for (int r = 0; r < c.n; r++) all.push_back(r);
  CommS *w = new_comms(all);
  world_h.clear();
  self_h.clear();
  for (int r = 0; r < c.n; r++) {
    world_h.push_back(new_commh(r, w));
    world_h[r]->predefined = true;
    self_h.push_back(new_commh(r, new_comms({r})));
    self_h[r]->predefined = true;
  }
}

static CommH *C(MPI_Comm c) {
  if (c == MPI_COMM_WORLD) return world_h[cur->rank];
  if (c == MPI_COMM_SELF) return self_h[cur->rank];
  if (c == MPI_COMM_NULL) fail("MPI_MISUSE", "rank %d: MPI call on MPI_COMM_NULL (%s)", cur->rank, cur->where.c_str());
  CommH *h = (CommH *)c;
  if ((uintptr_t)h < CARENA || (uintptr_t)h >= CARENA + PER * 64 || h->magic != CMAGIC) fail("MPI_MISUSE", "rank %d: invalid communicator handle %p (%s)", cur->rank, (void *)c, cur->where.c_str());
  if (h->freed) fail("MPI_MISUSE", "rank %d: use of a freed communicator (%s)", cur->rank, cur->where.c_str());
  if (h->rank_world != cur->rank) fail("MPI_MISUSE", "rank %d: communicator handle of rank %d", cur->rank, h->rank_world);
  return h;
}
static size_t tsize(MPI_Datatype t) {
#define T(x, n) if (t == (x)) return n
  T(MPI_INT, 4); T(MPI_DOUBLE, 8); T(MPI_CHAR, 1); T(MPI_BYTE, 1); T(MPI_LONG, 8); T(MPI_FLOAT, 4);
  T(MPI_LONG_LONG, 8); T(MPI_UNSIGNED, 4); T(MPI_UNSIGNED_LONG, 8); T(MPI_SHORT, 2); T(MPI_UNSIGNED_SHORT, 2);
  T(MPI_SIGNED_CHAR, 1); T(MPI_UNSIGNED_CHAR, 1); T(MPI_PACKED, 1); T(MPI_INT32_T, 4); T(MPI_INT64_T, 8); T(MPI_UINT32_T, 4); T(MPI_UINT64_T, 8);
  T(MPI_INT8_T, 1); T(MPI_UINT8_T, 1); T(MPI_INT16_T, 2); T(MPI_UINT16_T, 2); T(MPI_UNSIGNED_LONG_LONG, 8); T(MPI_LONG_DOUBLE, 16);
  T(MPI_AINT, 8); T(MPI_OFFSET, 8); T(MPI_COUNT, 8); T(MPI_C_BOOL, 1);
  T(MPI_REAL, 4); T(MPI_DOUBLE_PRECISION, 8); T(MPI_REAL4, 4); T(MPI_REAL8, 8); T(MPI_INTEGER, 4); T(MPI_INTEGER4, 4); T(MPI_INTEGER8, 8);
#undef T
  fail("MPI_MISUSE", "rank %d: invalid datatype %p (%s)", cur ? cur->rank : -1, (void *)t, cur ? cur->where.c_str() : "");
}
static int tkind(MPI_Datatype t) {   // 0 int 1 long 2 float 3 double 4 char 5 uint 6 ulong 7 short 8 uchar
  if (t == MPI_INT || t == MPI_INT32_T || t == MPI_INTEGER || t == MPI_INTEGER4) return 0;
  if (t == MPI_LONG || t == MPI_LONG_LONG || t == MPI_INT64_T || t == MPI_INTEGER8 || t == MPI_AINT || t == MPI_OFFSET || t == MPI_COUNT) return 1;
  if (t == MPI_FLOAT || t == MPI_REAL || t == MPI_REAL4) return 2;
  if (t == MPI_DOUBLE || t == MPI_DOUBLE_PRECISION || t == MPI_REAL8) return 3;
  if (t == MPI_CHAR || t == MPI_SIGNED_CHAR || t == MPI_INT8_T) return 4;
  if (t == MPI_UNSIGNED || t == MPI_UINT32_T) return 5;
  if (t == MPI_UNSIGNED_LONG || t == MPI_UINT64_T || t == MPI_UNSIGNED_LONG_LONG) return 6;
  if (t == MPI_SHORT || t == MPI_INT16_T) return 7;
  if (t == MPI_UNSIGNED_CHAR || t == MPI_BYTE || t == MPI_UINT8_T) return 8;
  fail("MPI_MISUSE", "reduction on an unsupported datatype");
}
template <class V> static void red1(V *a, const V *b, long n, MPI_Op op) {
  for (long i = 0; i < n; i++) {
    if (op == MPI_SUM) a[i] = a[i] + b[i];
    else if (op == MPI_MAX) a[i] = a[i] > b[i] ? a[i] : b[i];
    else if (op == MPI_MIN) a[i] = a[i] < b[i] ? a[i] : b[i];
    else if (op == MPI_PROD) a[i] = a[i] * b[i];
    else if (op == MPI_LAND) a[i] = a[i] && b[i];
    else if (op == MPI_LOR) a[i] = a[i] || b[i];
    else if constexpr (std::is_integral_v<V>) {
      if (op == MPI_BAND) a[i] = a[i] & b[i];
      else if (op == MPI_BOR) a[i] = a[i] | b[i];
      else if (op == MPI_BXOR) a[i] = a[i] ^ b[i];
      else fail("MPI_MISUSE", "unsupported reduction operator");
    } else fail("MPI_MISUSE", "unsupported reduction operator");
  }
}
static void red(void *a, const void *b, long n, MPI_Datatype t, MPI_Op op) {
  switch (tkind(t)) {
    case 0: red1((int *)a, (const int *)b, n, op); break;
    case 1: red1((long *)a, (const long *)b, n, op); break;
    case 2: red1((float *)a, (const float *)b, n, op); break;
    case 3: red1((double *)a, (const double *)b, n, op); break;
    case 4: red1((signed char *)a, (const signed char *)b, n, op); break;
    case 5: red1((unsigned *)a, (const unsigned *)b, n, op); break;
    case 6: red1((unsigned long *)a, (const unsigned long *)b, n, op); break;
    case 7: red1((short *)a, (const short *)b, n, op); break;
    case 8: red1((unsigned char *)a, (const unsigned char *)b, n, op); break;
  }
}

// ---------------------------------------------------------------- requests
static Req *new_req() {
  int r = cur->rank;
  Req *q;
  auto &fl = req_free[r];
  if (!fl.empty()) {
    size_t i = cfg.reqreuse == 0 ? fl.size() - 1 : cfg.reqreuse == 1 ? 0 : rm.below(fl.size());
    q = fl[i];
    fl.erase(fl.begin() + i);
  } else {
    q = (Req *)req_next[r];
    req_next[r] += cfg.reqstride;
    if (req_next[r] + sizeof(Req) > (char *)RARENA + PER * (r + 1)) fail("HARNESS", "request arena exhausted");
  }
  memset((void *)q, 0, sizeof *q);
  q->magic = RMAGIC;
  q->rank = r;
  q->st_src = MPI_ANY_SOURCE;
  q->st_tag = MPI_ANY_TAG;
  req_livecount[r]++;
  return q;
}
static Req *R(MPI_Request h) {
  Req *q = (Req *)h;
  if ((uintptr_t)q < RARENA || (uintptr_t)q >= RARENA + PER * 64 || q->magic != RMAGIC) fail("MPI_MISUSE", "rank %d: invalid request handle %p (%s)", cur->rank, (void *)h, cur->where.c_str());
  if (q->freed) fail("MPI_MISUSE", "rank %d: use of a freed request (%s)", cur->rank, cur->where.c_str());
  if (q->rank != cur->rank) fail("MPI_MISUSE", "rank %d: request of rank %d", cur->rank, q->rank);
  return q;
}
static void release(Req *q) {
  q->freed = true;
  req_livecount[q->rank]--;
  if (!q->inflight) req_free[q->rank].push_back(q);
}
static void finish(Req *q) {
  q->complete = true;
  q->inflight = false;
  if (q->freed) req_free[q->rank].push_back(q);
  bump();
}
static void deliver(Msg *m, Req *rq) {
  if (m->bytes > rq->bytes) fail("MPI_MISUSE", "message truncation: %zu bytes sent by rank %d tag %d into a %zu-byte receive of rank %d", m->bytes, m->src, m->tag, rq->bytes, rq->me);
  if (m->bytes) memcpy(rq->buf, m->eager ? (const void *)m->data.data() : m->ptr, m->bytes);
  if (sim_corrupt > 0 && m->bytes >= 8 && --sim_corrupt == 0) {   // fault injection: flip one bit of one message
    uint64_t h = sim_corrupt_seed * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    ((unsigned char *)rq->buf)[h % (m->bytes / 8 * 8)] ^= 1 << (h >> 40) % 8;
    sim_corrupted++;
  }
  rq->st_src = m->src;
  rq->st_tag = m->tag;
  rq->st_bytes = m->bytes;
  if (race_on) { if (rq->vc) *rq->vc = m->vc; else rq->vc = new VC(m->vc); }
  finish(rq);
  if (!m->eager && m->sreq) finish(m->sreq);
  delete m;
}
static void matched(Msg *m, Req *rq) {
  long d = cfg.delay ? (long)rm.below(cfg.delay + 1) : 0;
  if (d) { st.delayed++; after(d, [m, rq] { deliver(m, rq); }); }
  else deliver(m, rq);
}
static bool tagmatch(Req *rq, Msg *m) { return (rq->peer == MPI_ANY_SOURCE || rq->peer == m->src) && (rq->tag == MPI_ANY_TAG || rq->tag == m->tag); }
static void activate(Req *q) {
  q->active = true;
  q->complete = false;
  q->inflight = true;
  CommS *s = q->s;
  if (race_on) q->rc = race_post(q->buf, q->bytes, q->send);
  if (q->peer == MPI_PROC_NULL) { q->st_src = MPI_PROC_NULL; q->st_tag = MPI_ANY_TAG; q->st_bytes = 0; finish(q); return; }
  if (q->peer != MPI_ANY_SOURCE && (q->peer < 0 || q->peer >= (int)s->members.size())) fail("MPI_MISUSE", "rank %d: invalid peer rank %d in a communicator of size %zu (%s)", q->rank, q->peer, s->members.size(), cur->where.c_str());
  if (q->send) {
    Msg *m = new Msg{q->me, q->tag, q->bytes, {}, q->buf, false, q, {}};
    if (race_on) m->vc = race_snapshot();
    m->eager = cfg.eager == 1 || (cfg.eager == 2 && rm.chance(1, 2));
    st.msgs++;
    st.bytes += q->bytes;
    if (m->eager) { m->data.assign((char *)q->buf, (char *)q->buf + q->bytes); }
    else st.rendezvous++;
    if (m->eager) { m->sreq = nullptr; finish(q); }
    auto &p = s->posted[q->peer];
    for (auto it = p.begin(); it != p.end(); ++it)
      if (tagmatch(*it, m)) { Req *rq = *it; p.erase(it); matched(m, rq); return; }
    s->unexpected[q->peer].push_back(m);
    bump();
  } else {
    auto &u = s->unexpected[q->me];
    for (auto it = u.begin(); it != u.end(); ++it)
      if (tagmatch(q, *it)) { Msg *m = *it; u.erase(it); matched(m, q); return; }
    s->posted[q->me].push_back(q);
  }
}
static MPI_Request mkreq(bool send, bool pers, const void *buf, int count, MPI_Datatype t, int peer, int tag, MPI_Comm c) {
  CommH *h = C(c);
  if (count < 0) fail("MPI_MISUSE", "rank %d: negative count %d (%s)", cur->rank, count, cur->where.c_str());
  if (tag < 0 && !(tag == MPI_ANY_TAG && !send)) fail("MPI_MISUSE", "rank %d: negative tag %d", cur->rank, tag);
  Req *q = new_req();
  q->send = send;
  q->persistent = pers;
  q->buf = (void *)buf;
  q->bytes = (size_t)count * tsize(t);
  q->peer = peer;
  q->tag = tag;
  q->s = h->s;
  q->me = h->myrank;
  if (!pers) activate(q);
  return (MPI_Request)q;
}
static void setst(MPI_Status *s, Req *q) {
  if (s == MPI_STATUS_IGNORE) return;
  if (!q) { s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; s->MPI_ERROR = MPI_SUCCESS; s->_cancelled = 0; s->_ucount = 0; return; }
  s->MPI_SOURCE = q->st_src;
  s->MPI_TAG = q->st_tag;
  s->MPI_ERROR = MPI_SUCCESS;
  s->_cancelled = 0;
  s->_ucount = q->st_bytes;
}
static bool inactive(MPI_Request h) { return h == MPI_REQUEST_NULL || !R(h)->active; }
static bool ready(MPI_Request h) { return inactive(h) || R(h)->complete; }
static void consume(MPI_Request *h, MPI_Status *s) {
  if (inactive(*h)) { setst(s, nullptr); return; }
  Req *q = R(*h);
  setst(s, q);
  q->active = q->complete = false;
  if (race_on) { race_complete(q->rc); if (q->vc) { race_join(*q->vc); delete q->vc; q->vc = nullptr; } }
  if (!q->persistent) { release(q); *h = MPI_REQUEST_NULL; }
}

#define BOTH(n) __asm__(".globl MPI_" #n "\n.type MPI_" #n ", @function\n.set MPI_" #n ", PMPI_" #n);
extern "C" {
BOTH(Isend) int PMPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { mpi_enter(); *r = mkreq(true, false, b, n, t, d, tag, c); return 0; }
BOTH(Irecv) int PMPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { mpi_enter(); *r = mkreq(false, false, b, n, t, s, tag, c); return 0; }
BOTH(Send_init) int PMPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { mpi_enter(); *r = mkreq(true, true, b, n, t, d, tag, c); return 0; }
BOTH(Recv_init) int PMPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) { mpi_enter(); *r = mkreq(false, true, b, n, t, s, tag, c); return 0; }
BOTH(Wait) int PMPI_Wait(MPI_Request *r, MPI_Status *s) { mpi_enter(); while (!ready(*r)) block("MPI_Wait"); consume(r, s); return 0; }
BOTH(Send) int PMPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request r; PMPI_Isend(b, n, t, d, tag, c, &r); return PMPI_Wait(&r, MPI_STATUS_IGNORE); }
BOTH(Ssend) int PMPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { int e = cfg.eager; cfg.eager = 0; MPI_Request r; mpi_enter(); cfg.eager = 0; r = mkreq(true, false, b, n, t, d, tag, c); cfg.eager = e; return PMPI_Wait(&r, MPI_STATUS_IGNORE); }
BOTH(Recv) int PMPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s) { MPI_Request r; PMPI_Irecv(b, n, t, src, tag, c, &r); return PMPI_Wait(&r, s); }
BOTH(Sendrecv) int PMPI_Sendrecv(const void *sb, int sn, MPI_Datatype stp, int d, int stag, void *rb, int rn, MPI_Datatype rtp, int src, int rtag, MPI_Comm c, MPI_Status *s) {
  MPI_Request a, b; PMPI_Irecv(rb, rn, rtp, src, rtag, c, &b); PMPI_Isend(sb, sn, stp, d, stag, c, &a); PMPI_Wait(&a, MPI_STATUS_IGNORE); return PMPI_Wait(&b, s); }
BOTH(Start) int PMPI_Start(MPI_Request *r) { mpi_enter(); Req *q = R(*r); if (!q->persistent || q->active) fail("MPI_MISUSE", "rank %d: MPI_Start on a %s request", cur->rank, q->persistent ? "still active" : "non-persistent"); activate(q); return 0; }
BOTH(Startall) int PMPI_Startall(int n, MPI_Request *r) { for (int i = 0; i < n; i++) PMPI_Start(&r[i]); return 0; }
BOTH(Request_free) int PMPI_Request_free(MPI_Request *r) { mpi_enter(); Req *q = R(*r); if (q->active && !q->complete) q->detached = true; release(q); *r = MPI_REQUEST_NULL; return 0; }
BOTH(Cancel) int PMPI_Cancel(MPI_Request *r) { mpi_enter(); R(*r); return 0; }
BOTH(Test) int PMPI_Test(MPI_Request *r, int *flag, MPI_Status *s) { mpi_enter(); if ((*flag = ready(*r))) consume(r, s); else { st.tests_false++; } return 0; }
BOTH(Waitall) int PMPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { mpi_enter(); for (int i = 0; i < n; i++) { while (!ready(r[i])) block("MPI_Waitall"); } for (int i = 0; i < n; i++) consume(&r[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i]); return 0; }
BOTH(Testall) int PMPI_Testall(int n, MPI_Request *r, int *flag, MPI_Status *s) { mpi_enter(); *flag = 1; for (int i = 0; i < n; i++) if (!ready(r[i])) { *flag = 0; st.tests_false++; return 0; } for (int i = 0; i < n; i++) consume(&r[i], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[i]); return 0; }
static int pick_ready(int n, MPI_Request *r, bool *anyactive) {
  std::vector<int> c; *anyactive = false;
  for (int i = 0; i < n; i++) if (!inactive(r[i])) { *anyactive = true; if (R(r[i])->complete) c.push_back(i); }
  return c.empty() ? -1 : c[rm.below(c.size())];
}
BOTH(Waitany) int PMPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *s) { mpi_enter(); for (;;) { bool a; int i = pick_ready(n, r, &a); if (!a) { *idx = MPI_UNDEFINED; setst(s, nullptr); return 0; } if (i >= 0) { *idx = i; consume(&r[i], s); return 0; } block("MPI_Waitany"); } }
BOTH(Testany) int PMPI_Testany(int n, MPI_Request *r, int *idx, int *flag, MPI_Status *s) { mpi_enter(); bool a; int i = pick_ready(n, r, &a); if (!a) { *flag = 1; *idx = MPI_UNDEFINED; setst(s, nullptr); } else if (i >= 0) { *flag = 1; *idx = i; consume(&r[i], s); } else { *flag = 0; *idx = MPI_UNDEFINED; st.tests_false++; } return 0; }
static int some(int n, MPI_Request *r, int *out, int *idx, MPI_Status *s, bool wait) {
  mpi_enter();
  for (;;) {
    bool a = false; int k = 0;
    for (int i = 0; i < n; i++) if (!inactive(r[i])) { a = true; if (R(r[i])->complete) { idx[k] = i; k++; } }
    if (!a) { *out = MPI_UNDEFINED; return 0; }
    if (k || !wait) { *out = k; for (int j = 0; j < k; j++) consume(&r[idx[j]], s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &s[j]); return 0; }
    block("MPI_Waitsome");
  }
}
BOTH(Waitsome) int PMPI_Waitsome(int n, MPI_Request *r, int *o, int *i, MPI_Status *s) { return some(n, r, o, i, s, true); }
BOTH(Testsome) int PMPI_Testsome(int n, MPI_Request *r, int *o, int *i, MPI_Status *s) { return some(n, r, o, i, s, false); }
BOTH(Request_get_status) int PMPI_Request_get_status(MPI_Request r, int *flag, MPI_Status *s) { mpi_enter(); *flag = ready(r); if (*flag) setst(s, inactive(r) ? nullptr : R(r)); return 0; }
BOTH(Get_count) int PMPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *c) { *c = s->_ucount / tsize(t); return 0; }
BOTH(Iprobe) int PMPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *s) {
  mpi_enter(); CommH *h = C(c); *flag = 0; Req q; memset((void *)&q, 0, sizeof q); q.peer = src; q.tag = tag;
  for (auto m : h->s->unexpected[h->myrank]) if (tagmatch(&q, m)) { *flag = 1; q.st_src = m->src; q.st_tag = m->tag; q.st_bytes = m->bytes; setst(s, &q); break; }
  return 0; }
}

// ---------------------------------------------------------------- collectives
static Coll *coll_post(CommH *h, const char *name, int root, long sig, const void *d, size_t len) {
  CommS *s = h->s;
  long seq = s->collseq[h->myrank]++;
  Coll *&c = s->colls[seq];
  st.colls++;
  if (!c) {
    c = new Coll{name, root, sig, (int)s->members.size(), 0, 0, {}, {}, {}, {}, backtrace_names(4)};
    c->here.assign(c->n, 0);
    c->in.resize(c->n);
  }
  if (getenv("SIM_TRACE")) fprintf(stderr, "T rank %d ctx %d seq %ld %s root %d sig %ld [%s]\n", cur->rank, s->ctx, seq, name, root, sig, backtrace_names(5).c_str());
  if (root < -1 || root >= c->n) fail("MPI_MISUSE", "rank %d: %s with root %d in a communicator of size %d (%s)", cur->rank, name, root, c->n, cur->where.c_str());
  if (strcmp(c->name, name) || c->root != root || c->sig != sig)
    fail("MPI_MISUSE", "mismatched collectives on one communicator: rank %d calls %s(root %d, sig %ld) in %s [%s] while another rank called %s(root %d, sig %ld) [%s]", cur->rank, name, root, sig, cur->where.c_str(), backtrace_names(4).c_str(), c->name, c->root, c->sig, c->site.c_str());
  if (d && len) c->in[h->myrank].assign((const char *)d, (const char *)d + len);
  c->here[h->myrank] = 1;
  if (race_on) { VC v = race_snapshot(); if (c->vc.empty()) c->vc = v; else for (size_t i = 0; i < v.size(); i++) if (v[i] > c->vc[i]) c->vc[i] = v[i]; }
  c->arrived++;
  bump();
  return c;
}
static void coll_all(Coll *c) { while (c->arrived < c->n) block(c->name); }
static void coll_rank(Coll *c, int r) { if (cfg.collsync) coll_all(c); else while (!c->here[r]) block(c->name); }
static void coll_done(CommH *h, Coll *c) {
  if (race_on) race_join(c->vc);
  if (++c->left == c->n) {
    for (auto it = h->s->colls.begin(); it != h->s->colls.end(); ++it) if (it->second == c) { h->s->colls.erase(it); break; }
    delete c;
  }
}
static void coll_reduce(Coll *c, void *out, long n, MPI_Datatype t, MPI_Op op) {
  if (!n) return;
  std::vector<char> a = c->in[0];
  for (int r = 1; r < c->n; r++) red(a.data(), c->in[r].data(), n, t, op);
  memcpy(out, a.data(), a.size());
}
static CommS *subcomm(CommH *h, Coll *c, long color) {   // in[]: {color,key} pairs of ints
  CommS *&s = c->made[color];
  if (!s) {
    std::vector<std::tuple<int, int, int>> v;
    for (int r = 0; r < c->n; r++) { const int *p = (const int *)c->in[r].data(); if (p[0] == color) v.emplace_back(p[1], r, h->s->members[r]); }
    std::sort(v.begin(), v.end());
    std::vector<int> m;
    for (auto &x : v) m.push_back(std::get<2>(x));
    s = new_comms(m);
  }
  return s;
}
struct GroupS { std::vector<int> m; };
struct InfoS { std::map<std::string, std::string> kv; bool freed = false; };
extern "C" {
BOTH(Init) int PMPI_Init(int *, char ***) { return 0; }
BOTH(Init_thread) int PMPI_Init_thread(int *, char ***, int, int *p) { if (p) *p = MPI_THREAD_SINGLE; return 0; }
BOTH(Initialized) int PMPI_Initialized(int *f) { *f = 1; return 0; }
BOTH(Finalized) int PMPI_Finalized(int *f) { *f = 0; return 0; }
BOTH(Finalize) int PMPI_Finalize() { CommH *h = world_h[cur->rank]; Coll *c = coll_post(h, "MPI_Finalize", -1, 0, nullptr, 0); coll_all(c); coll_done(h, c); return 0; }
BOTH(Abort) int PMPI_Abort(MPI_Comm, int code) { fail("EXIT", "MPI_Abort(%d) on rank %d", code, cur->rank); }
BOTH(Wtime) double PMPI_Wtime() { if (!cur) return 0; mpi_enter(); double &c = clk[cur->rank]; c += cfg.wt_step * (1 + rt.below(1000)) / 500.0; return c; }
BOTH(Wtick) double PMPI_Wtick() { return 1e-9; }
BOTH(Get_processor_name) int PMPI_Get_processor_name(char *n, int *l) { *l = sprintf(n, "node%d", cfg.node[cur->rank]); return 0; }
BOTH(Comm_size) int PMPI_Comm_size(MPI_Comm c, int *n) { *n = C(c)->s->members.size(); return 0; }
BOTH(Comm_rank) int PMPI_Comm_rank(MPI_Comm c, int *r) { *r = C(c)->myrank; return 0; }
BOTH(Type_size) int PMPI_Type_size(MPI_Datatype t, int *n) { *n = tsize(t); return 0; }
BOTH(Type_get_extent) int PMPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *e) { *lb = 0; *e = tsize(t); return 0; }
BOTH(Barrier) int PMPI_Barrier(MPI_Comm cc) { mpi_enter(); CommH *h = C(cc); Coll *c = coll_post(h, "MPI_Barrier", -1, 0, nullptr, 0); coll_all(c); coll_done(h, c); return 0; }
BOTH(Bcast) int PMPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm cc) {
  mpi_enter(); CommH *h = C(cc); size_t len = n * tsize(t); bool me = h->myrank == root;
  Coll *c = coll_post(h, "MPI_Bcast", root, len, me ? b : nullptr, len);
  if (!me) { coll_rank(c, root); if (len) memcpy(b, c->in[root].data(), len); } else if (cfg.collsync) coll_all(c);
  coll_done(h, c); return 0; }
static const void *inp(const void *s, void *r) { return s == MPI_IN_PLACE ? r : s; }
BOTH(Allreduce) int PMPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm cc) {
  mpi_enter(); CommH *h = C(cc); if (n < 0) fail("MPI_MISUSE", "negative count"); size_t len = n * tsize(t);
  Coll *c = coll_post(h, "MPI_Allreduce", -1, len * 64 + tkind(t), inp(s, r), len); coll_all(c); coll_reduce(c, r, n, t, op); coll_done(h, c); return 0; }
BOTH(Reduce) int PMPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm cc) {
  mpi_enter(); CommH *h = C(cc); size_t len = n * tsize(t);
  if (s == MPI_IN_PLACE && h->myrank != root) fail("MPI_MISUSE", "MPI_IN_PLACE at a non-root of MPI_Reduce");
  Coll *c = coll_post(h, "MPI_Reduce", root, len * 64 + tkind(t), inp(s, r), len);
  if (h->myrank == root) { coll_all(c); coll_reduce(c, r, n, t, op); } else if (cfg.collsync) coll_all(c);
  coll_done(h, c); return 0; }
BOTH(Scan) int PMPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm cc) {
  mpi_enter(); CommH *h = C(cc); size_t len = n * tsize(t);
  Coll *c = coll_post(h, "MPI_Scan", -1, len, inp(s, r), len); coll_all(c);
  if (n) { std::vector<char> a = c->in[0]; for (int i = 1; i <= h->myrank; i++) red(a.data(), c->in[i].data(), n, t, op); memcpy(r, a.data(), len); }
  coll_done(h, c); return 0; }
BOTH(Gatherv) int PMPI_Gatherv(const void *s, int sn, MPI_Datatype stt, void *r, const int *rn, const int *dis, MPI_Datatype rt_, int root, MPI_Comm cc) {
  mpi_enter(); CommH *h = C(cc); bool me = h->myrank == root;
  const void *src = s; size_t sl = 0;
  if (s == MPI_IN_PLACE) { src = (char *)r + (size_t)dis[root] * tsize(rt_); sl = rn[root] * tsize(rt_); } else sl = sn * tsize(stt);
  Coll *c = coll_post(h, "MPI_Gatherv", root, 0, src, sl);
  if (me) { coll_all(c); for (int i = 0; i < c->n; i++) { if (c->in[i].size() > rn[i] * tsize(rt_)) fail("MPI_MISUSE", "MPI_Gatherv truncation"); if (c->in[i].size()) memcpy((char *)r + (size_t)dis[i] * tsize(rt_), c->in[i].data(), c->in[i].size()); } }
  else if (cfg.collsync) coll_all(c);
  coll_done(h, c); return 0; }
BOTH(Gather) int PMPI_Gather(const void *s, int sn, MPI_Datatype stt, void *r, int rn, MPI_Datatype rt_, int root, MPI_Comm cc) {
  int n = C(cc)->s->members.size(); std::vector<int> cn(n, rn), d(n); for (int i = 0; i < n; i++) d[i] = i * rn;
  return PMPI_Gatherv(s, sn, stt, r, cn.data(), d.data(), rt_, root, cc); }
BOTH(Allgatherv) int PMPI_Allgatherv(const void *s, int sn, MPI_Datatype stt, void *r, const int *rn, const int *dis, MPI_Datatype rt_, MPI_Comm cc) {
  mpi_enter(); CommH *h = C(cc);
  const void *src = s; size_t sl;
  if (s == MPI_IN_PLACE) { src = (char *)r + (size_t)dis[h->myrank] * tsize(rt_); sl = rn[h->myrank] * tsize(rt_); } else sl = sn * tsize(stt);
  Coll *c = coll_post(h, "MPI_Allgatherv", -1, 0, src, sl); coll_all(c);
  for (int i = 0; i < c->n; i++) { if (c->in[i].size() > rn[i] * tsize(rt_)) fail("MPI_MISUSE", "MPI_Allgatherv truncation"); if (c->in[i].size()) memcpy((char *)r + (size_t)dis[i] * tsize(rt_), c->in[i].data(), c->in[i].size()); }
  coll_done(h, c); return 0; }
BOTH(Allgather) int PMPI_Allgather(const void *s, int sn, MPI_Datatype stt, void *r, int rn, MPI_Datatype rt_, MPI_Comm cc) {
  int n = C(cc)->s->members.size(); std::vector<int> cn(n, rn), d(n); for (int i = 0; i < n; i++) d[i] = i * rn;
  return PMPI_Allgatherv(s, sn, stt, r, cn.data(), d.data(), rt_, cc); }
BOTH(Scatterv) int PMPI_Scatterv(const void *s, const int *sn, const int *dis, MPI_Datatype stt, void *r, int rn, MPI_Datatype rt_, int root, MPI_Comm cc) {
  mpi_enter(); CommH *h = C(cc); bool me = h->myrank == root; std::vector<char> pack;
  if (me) { int n = h->s->members.size(); pack.resize(n * sizeof(long)); for (int i = 0; i < n; i++) { size_t l = sn[i] * tsize(stt); long o = pack.size(); ((long *)pack.data())[i] = o; pack.insert(pack.end(), (char *)s + (size_t)dis[i] * tsize(stt), (char *)s + (size_t)dis[i] * tsize(stt) + l); ((long *)pack.data())[i] = o; } }
  Coll *c = coll_post(h, "MPI_Scatterv", root, 0, pack.data(), pack.size()); coll_rank(c, root);
  if (r != MPI_IN_PLACE) { const std::vector<char> &p = c->in[root]; long o = ((const long *)p.data())[h->myrank]; long e = h->myrank + 1 < c->n ? ((const long *)p.data())[h->myrank + 1] : (long)p.size();
    if (e - o > (long)(rn * tsize(rt_))) fail("MPI_MISUSE", "MPI_Scatterv truncation"); if (e > o) memcpy(r, p.data() + o, e - o); }
  coll_done(h, c); return 0; }
BOTH(Scatter) int PMPI_Scatter(const void *s, int sn, MPI_Datatype stt, void *r, int rn, MPI_Datatype rt_, int root, MPI_Comm cc) {
  int n = C(cc)->s->members.size(); std::vector<int> cn(n, sn), d(n); for (int i = 0; i < n; i++) d[i] = i * sn;
  return PMPI_Scatterv(s, cn.data(), d.data(), stt, r, rn, rt_, root, cc); }
BOTH(Alltoall) int PMPI_Alltoall(const void *s, int sn, MPI_Datatype stt, void *r, int rn, MPI_Datatype rt_, MPI_Comm cc) {
  mpi_enter(); CommH *h = C(cc); size_t l = sn * tsize(stt); int n = h->s->members.size(); (void)rn; (void)rt_;
  Coll *c = coll_post(h, "MPI_Alltoall", -1, l, inp(s, r), l * n); coll_all(c);
  for (int i = 0; i < n; i++) if (l) memcpy((char *)r + i * l, c->in[i].data() + h->myrank * l, l);
  coll_done(h, c); return 0; }
BOTH(Reduce_scatter) int PMPI_Reduce_scatter(const void *s, void *r, const int *rn, MPI_Datatype t, MPI_Op op, MPI_Comm cc) {
  mpi_enter(); CommH *h = C(cc); long tot = 0, off = 0; int n = h->s->members.size();
  for (int i = 0; i < n; i++) { if (i == h->myrank) off = tot; tot += rn[i]; }
  Coll *c = coll_post(h, "MPI_Reduce_scatter", -1, tot, inp(s, r), tot * tsize(t)); coll_all(c);
  std::vector<char> o(tot * tsize(t) + 1); coll_reduce(c, o.data(), tot, t, op);
  if (rn[h->myrank]) memcpy(r, o.data() + off * tsize(t), rn[h->myrank] * tsize(t));
  coll_done(h, c); return 0; }
BOTH(Reduce_scatter_block) int PMPI_Reduce_scatter_block(const void *s, void *r, int rn, MPI_Datatype t, MPI_Op op, MPI_Comm cc) {
  int n = C(cc)->s->members.size(); std::vector<int> cn(n, rn); return PMPI_Reduce_scatter(s, r, cn.data(), t, op, cc); }
static int split(CommH *h, int color, int key, MPI_Comm *out, const char *nm) {
  int ck[2] = {color, key};
  Coll *c = coll_post(h, nm, -1, 0, ck, sizeof ck); coll_all(c);
  if (color == MPI_UNDEFINED) *out = MPI_COMM_NULL;
  else *out = (MPI_Comm)new_commh(cur->rank, subcomm(h, c, color));
  coll_done(h, c); return 0; }
BOTH(Comm_split) int PMPI_Comm_split(MPI_Comm cc, int color, int key, MPI_Comm *o) { mpi_enter(); return split(C(cc), color, key, o, "MPI_Comm_split"); }
BOTH(Comm_split_type) int PMPI_Comm_split_type(MPI_Comm cc, int ty, int key, MPI_Info, MPI_Comm *o) { mpi_enter(); return split(C(cc), ty == MPI_UNDEFINED ? MPI_UNDEFINED : cfg.node[cur->rank], key, o, "MPI_Comm_split_type"); }
BOTH(Comm_dup) int PMPI_Comm_dup(MPI_Comm cc, MPI_Comm *o) { mpi_enter(); CommH *h = C(cc); return split(h, 0, h->myrank, o, "MPI_Comm_dup"); }
BOTH(Comm_free) int PMPI_Comm_free(MPI_Comm *c) { mpi_enter(); CommH *h = C(*c); if (h->predefined) fail("MPI_MISUSE", "MPI_Comm_free on a predefined communicator"); h->freed = true; *c = MPI_COMM_NULL; bump(); return 0; }
BOTH(Comm_compare) int PMPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) { *r = C(a)->s == C(b)->s ? MPI_IDENT : C(a)->s->members == C(b)->s->members ? MPI_CONGRUENT : MPI_UNEQUAL; return 0; }
BOTH(Comm_test_inter) int PMPI_Comm_test_inter(MPI_Comm c, int *f) { C(c); *f = 0; return 0; }
BOTH(Comm_group) int PMPI_Comm_group(MPI_Comm c, MPI_Group *g) { *g = (MPI_Group) new GroupS{C(c)->s->members}; return 0; }
BOTH(Group_size) int PMPI_Group_size(MPI_Group g, int *n) { *n = ((GroupS *)g)->m.size(); return 0; }
BOTH(Group_rank) int PMPI_Group_rank(MPI_Group g, int *r) { auto &m = ((GroupS *)g)->m; auto it = std::find(m.begin(), m.end(), cur->rank); *r = it == m.end() ? MPI_UNDEFINED : it - m.begin(); return 0; }
BOTH(Group_incl) int PMPI_Group_incl(MPI_Group g, int n, const int *rk, MPI_Group *o) { GroupS *x = new GroupS; for (int i = 0; i < n; i++) x->m.push_back(((GroupS *)g)->m[rk[i]]); *o = (MPI_Group)x; return 0; }
BOTH(Group_free) int PMPI_Group_free(MPI_Group *g) { delete (GroupS *)*g; *g = MPI_GROUP_NULL; return 0; }
BOTH(Group_translate_ranks) int PMPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb) { auto &ma = ((GroupS *)a)->m; auto &mb = ((GroupS *)b)->m; for (int i = 0; i < n; i++) { auto it = std::find(mb.begin(), mb.end(), ma[ra[i]]); rb[i] = it == mb.end() ? MPI_UNDEFINED : it - mb.begin(); } return 0; }
BOTH(Comm_create) int PMPI_Comm_create(MPI_Comm cc, MPI_Group g, MPI_Comm *o) { mpi_enter(); auto &m = ((GroupS *)g)->m; auto it = std::find(m.begin(), m.end(), cur->rank); return split(C(cc), it == m.end() ? MPI_UNDEFINED : 0, it == m.end() ? 0 : it - m.begin(), o, "MPI_Comm_create"); }
BOTH(Info_create) int PMPI_Info_create(MPI_Info *i) { *i = (MPI_Info) new InfoS; return 0; }
BOTH(Info_set) int PMPI_Info_set(MPI_Info i, const char *k, const char *v) { ((InfoS *)i)->kv[k] = v; return 0; }
BOTH(Info_free) int PMPI_Info_free(MPI_Info *i) { ((InfoS *)*i)->freed = true; *i = MPI_INFO_NULL; return 0; }
BOTH(Info_dup) int PMPI_Info_dup(MPI_Info i, MPI_Info *o) { InfoS *n = new InfoS; n->kv = ((InfoS *)i)->kv; *o = (MPI_Info)n; return 0; }
BOTH(Info_get) int PMPI_Info_get(MPI_Info i, const char *k, int l, char *v, int *f) {
  if (i == MPI_INFO_NULL) { *f = 0; return 0; }
  InfoS *s = (InfoS *)i; if (s->freed) fail("MPI_MISUSE", "use of a freed info object");
  auto it = s->kv.find(k); if (it == s->kv.end()) { *f = 0; return 0; }
  strncpy(v, it->second.c_str(), l); v[l] = 0; *f = 1; return 0; }
BOTH(Info_get_valuelen) int PMPI_Info_get_valuelen(MPI_Info i, const char *k, int *l, int *f) { if (i == MPI_INFO_NULL) { *f = 0; return 0; } auto &kv = ((InfoS *)i)->kv; auto it = kv.find(k); *f = it != kv.end(); if (*f) *l = it->second.size(); return 0; }
BOTH(Error_string) int PMPI_Error_string(int e, char *s, int *l) { *l = sprintf(s, "error %d", e); return 0; }
BOTH(Comm_set_errhandler) int PMPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
#undef MPI_Comm_f2c
#undef MPI_Type_f2c
}
