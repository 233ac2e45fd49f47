// Happens-before race detector for the memory ranks share on a node. The library copy
// "librace.so" is compiled with clang's thread-sanitizer callbacks, which end up here.
// Order comes from the library's own synchronisation: volatile or atomic flags in shared
// memory, messages and collectives. Buffers of messages in flight belong to a second,
// pseudo thread of their rank until the request is completed.
#include "sim.h"
#include <string.h>
#include <dlfcn.h>
#include <map>
#include <memory>

bool race_on = false;
static int NT;                                     // 2 * ranks
static std::vector<VC> vc;                         // per rank
static std::vector<uint32_t> pend;                 // clock of the pseudo thread of a rank
struct Shadow {
  size_t size;
  std::vector<uint32_t> w;                         // last write: thread << 24 | clock, 0: none
  std::vector<const void *> wpc;                   // per 64 bytes, last writer's code
  std::vector<std::vector<uint32_t>> r;            // last read per thread
  std::map<size_t, VC> sync;                       // flag offset -> clock of its last store
};
static std::map<int, std::unique_ptr<Shadow>> shadows;
static uintptr_t lo = 0, hi = 0;
static uintptr_t c_lo = 1, c_hi = 0; static Shadow *c_s;
static long n_acc, n_bytes, n_sync, n_pairs;

void race_reset(bool on, uintptr_t a, uintptr_t b) {
  race_on = on;
  lo = a; hi = b;
  NT = 2 * cfg.n;
  vc.assign(cfg.n, VC(NT, 0));
  for (int i = 0; i < cfg.n; i++) vc[i][i] = 1;
  pend.assign(cfg.n, 1);
  shadows.clear();
  c_lo = 1; c_hi = 0;
  n_acc = n_bytes = n_sync = n_pairs = 0;
}
void race_counts(long *a, long *b, long *s, long *p) { *a = n_acc; *b = n_bytes; *s = n_sync; *p = n_pairs; }
void race_forget() { c_lo = 1; c_hi = 0; }
void race_segment_gone(int id) { shadows.erase(id); race_forget(); }
static void join(VC &a, const VC &b) { for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }

static Shadow *find(uintptr_t a, size_t *off) {
  if (a < c_lo || a >= c_hi) {
    int id; uintptr_t base; size_t size;
    if (!shm_find((void *)a, &id, &base, &size)) return nullptr;
    auto &p = shadows[id];
    if (!p) { p.reset(new Shadow); p->size = size; p->w.assign(size, 0); p->wpc.assign(size / 64 + 1, nullptr); p->r.resize(NT); }
    c_lo = base; c_hi = base + size; c_s = p.get();
  }
  *off = a - c_lo;
  return c_s;
}
static std::string who(int t) {
  char b[60];
  if (t < cfg.n) snprintf(b, sizeof b, "rank %d", t);
  else snprintf(b, sizeof b, "a message in flight of rank %d", t - cfg.n);
  return b;
}
static std::string sym(const void *pc) {
  Dl_info di;
  if (pc && dladdr(pc, &di) && di.dli_sname) return di.dli_sname;
  return "?";
}
static void report(int t, bool wr, int t2, bool wr2, Shadow *s, size_t o, const void *pc) {
  fail("RACE", "%s of shared memory by %s is not ordered after a %s by %s (byte %zu of a %zu-byte segment, in %s, previous write in %s), rank %d doing %s",
       wr ? "a write" : "a read", who(t).c_str(), wr2 ? "write" : "read", who(t2).c_str(), o, s->size, sym(pc).c_str(), sym(s->wpc[o / 64]).c_str(), cur->rank, cur->where.c_str());
}
static void access(uintptr_t a, size_t n, bool wr, bool pseudo, const void *pc) {
  if (!n || a < lo || a >= hi) return;
  size_t o;
  Shadow *s = find(a, &o);
  if (!s) return;
  if (o + n > s->size) n = s->size - o;
  int me = cur->rank, t = pseudo ? cfg.n + me : me;
  const VC &v = vc[me];
  uint32_t e = pseudo ? pend[me] : v[me];
  n_acc++; n_bytes += n;
  for (size_t i = o; i < o + n; i++) {
    uint32_t w = s->w[i];
    if (w) {
      int u = w >> 24;
      if (u != t && (w & 0xffffff) > v[u]) report(t, wr, u, true, s, i, pc);
      if (u != t) n_pairs++;
    }
  }
  if (!wr) {
    auto &r = s->r[t];
    if (r.empty()) r.assign(s->size, 0);
    for (size_t i = o; i < o + n; i++) r[i] = e;
    return;
  }
  for (int u = 0; u < NT; u++) {
    if (u == t || s->r[u].empty()) continue;
    const uint32_t *r = s->r[u].data();
    uint32_t lim = v[u];
    bool bad = false;
    for (size_t i = o; i < o + n; i++) bad |= r[i] > lim;
    if (bad) for (size_t i = o; i < o + n; i++) if (r[i] > lim) report(t, wr, u, false, s, i, pc);
  }
  for (size_t i = o; i < o + n; i++) s->w[i] = (uint32_t)t << 24 | e;
  for (size_t i = o / 64; i <= (o + n - 1) / 64; i++) s->wpc[i] = pc;
}
static void acquire(uintptr_t a) {
  if (a < lo || a >= hi) return;
  size_t o;
  Shadow *s = find(a, &o);
  if (!s) return;
  n_sync++;
  auto it = s->sync.find(o);
  if (it != s->sync.end()) join(vc[cur->rank], it->second);
}
static void release(uintptr_t a) {
  if (a < lo || a >= hi) return;
  size_t o;
  Shadow *s = find(a, &o);
  if (!s) return;
  n_sync++;
  int me = cur->rank;
  s->sync[o] = vc[me];
  vc[me][me]++;
}
VC race_snapshot() {          // everything this rank has done so far; later events are newer
  int me = cur->rank;
  VC v = vc[me];
  vc[me][me]++;
  return v;
}
void race_join(const VC &v) { if (!v.empty()) join(vc[cur->rank], v); }
uint32_t race_post(const void *p, size_t n, bool send) {
  int me = cur->rank;
  uint32_t c = pend[me]++;
  uint32_t keep = pend[me];
  pend[me] = c;
  access((uintptr_t)p, n, !send, true, __builtin_return_address(0));
  pend[me] = keep;
  vc[me][me]++;
  return c;
}
void race_complete(uint32_t c) { VC &v = vc[cur->rank]; int t = cfg.n + cur->rank; if (v[t] < c) v[t] = c; }

#define ON (race_on && cur)
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *a) { if (ON) access((uintptr_t)a, n, false, false, PC); } \
  void __tsan_write##n(void *a) { if (ON) access((uintptr_t)a, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void *a) { if (ON) access((uintptr_t)a, n, false, false, PC); } \
  void __tsan_unaligned_write##n(void *a) { if (ON) access((uintptr_t)a, n, true, false, PC); } \
  void __tsan_read_write##n(void *a) { if (ON) { access((uintptr_t)a, n, false, false, PC); access((uintptr_t)a, n, true, false, PC); } } \
  void __tsan_unaligned_read_write##n(void *a) { if (ON) { access((uintptr_t)a, n, false, false, PC); access((uintptr_t)a, n, true, false, PC); } } \
  void __tsan_volatile_read##n(void *a) { if (ON) acquire((uintptr_t)a); } \
  void __tsan_volatile_write##n(void *a) { if (ON) release((uintptr_t)a); } \
  void __tsan_unaligned_volatile_read##n(void *a) { if (ON) acquire((uintptr_t)a); } \
  void __tsan_unaligned_volatile_write##n(void *a) { if (ON) release((uintptr_t)a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (ON) access((uintptr_t)a, n, false, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { if (ON) access((uintptr_t)a, n, true, false, PC); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
  if (ON) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
  if (ON) { access((uintptr_t)s, n, false, false, PC); access((uintptr_t)d, n, true, false, PC); }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, unsigned long n) {
  if (ON) access((uintptr_t)d, n, true, false, PC);
  return memset(d, c, n);
}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int) { if (ON) acquire((uintptr_t)a); return *a; } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int) { if (ON) release((uintptr_t)a); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { if (ON) { acquire((uintptr_t)a); release((uintptr_t)a); } T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { if (ON) { acquire((uintptr_t)a); release((uintptr_t)a); } T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { if (ON) { acquire((uintptr_t)a); release((uintptr_t)a); } T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { if (ON) { acquire((uintptr_t)a); release((uintptr_t)a); } T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { if (ON) { acquire((uintptr_t)a); release((uintptr_t)a); } T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { if (ON) { acquire((uintptr_t)a); release((uintptr_t)a); } T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { if (ON) { acquire((uintptr_t)a); release((uintptr_t)a); } if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int m, int f) { (void)m; (void)f; if (ON) { acquire((uintptr_t)a); release((uintptr_t)a); } if (*a == *e) { *a = v; return 1; } *e = *a; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
