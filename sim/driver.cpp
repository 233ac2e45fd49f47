#include <tuple>
// Case interpreter: reads cases (text) on stdin, forks one child per case,
// runs the program on every virtual rank and judges it against the reference.
#include "sim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <dlfcn.h>
#include <time.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <sstream>
#include <algorithm>
#include <iostream>

extern int g_fine;

// ------------------------------------------------------------------ library
struct Api {
  void *h = nullptr;
  template <class F> F get(const char *n) const {
    void *p = dlsym(h, n);
    if (!p) p = dlsym(RTLD_DEFAULT, n);
    if (!p) { fprintf(stderr, "missing symbol %s\n", n); _exit(98); }
    return (F)p;
  }
};
static std::vector<Api> libs;
static std::string libpath;
static bool load_libs(int n) {
  static std::string img;
  if (img.empty()) {
    int fd = open(libpath.c_str(), O_RDONLY);
    if (fd < 0) return false;
    char b[65536];
    ssize_t k;
    while ((k = read(fd, b, sizeof b)) > 0) img.append(b, k);
    close(fd);
  }
  while ((int)libs.size() < n) {
    int fd = memfd_create("libext", 0);
    if (write(fd, img.data(), img.size()) != (ssize_t)img.size()) return false;
    int f2 = fcntl(fd, F_DUPFD_CLOEXEC, 200 + (int)libs.size());   // one path per copy
    close(fd);
    fd = f2;
    char p[64];
    sprintf(p, "/proc/self/fd/%d", fd);
    Api a;
    a.h = dlopen(p, RTLD_NOW | RTLD_LOCAL);
    if (!a.h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return false; }
    libs.push_back(a);
  }
  return true;
}
#define FN(r, name) (libs[r].get<decltype(&name)>(#name))
// the library's own persistent entry points (absent from the Open MPI 4.1 header)
extern "C" {
typedef int (*allreduce_init_t)(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*reduce_init_t)(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*bcast_init_t)(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*allgatherv_init_t)(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*gatherv_init_t)(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*scatterv_init_t)(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*reduce_scatter_init_t)(const void *, void *, const int *, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*allgather_init_t)(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*gather_init_t)(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*scatter_init_t)(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, MPI_Request *);
typedef int (*reduce_scatter_block_init_t)(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, MPI_Request *);
typedef void (*f_allreduce_init_t)(const void *, void *, int *, MPI_Datatype *, MPI_Op *, MPI_Comm *, MPI_Info *, MPI_Request *, int *);
typedef void (*f_req_t)(MPI_Request *, int *);
typedef void (*f_wait_t)(MPI_Request *, MPI_Status *, int *);
extern int MPIR_F08_MPI_IN_PLACE;
}

// ------------------------------------------------------------------ case
struct Op { std::string name; std::map<std::string, std::string> kv; std::string text; };
struct Case {
  std::vector<std::pair<std::string, std::string>> env;
  std::vector<Op> ops;
  int digest = 0, timeout = 60, final = 0, fortran = 0;
};
static long geti(const Op &o, const char *k, long d = 0) { auto it = o.kv.find(k); return it == o.kv.end() ? d : atol(it->second.c_str()); }
static std::string gets(const Op &o, const char *k, const char *d = "") { auto it = o.kv.find(k); return it == o.kv.end() ? d : it->second; }
static std::vector<int> getl(const Op &o, const char *k) {
  std::vector<int> v;
  std::string s = gets(o, k);
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, ',')) if (!t.empty()) v.push_back(atoi(t.c_str()));
  return v;
}
static Case cas;

// ------------------------------------------------------------------ reporting
static int out_fd = 1;
static std::string notes;
static void emit(const std::string &s) { size_t o = 0; while (o < s.size()) { ssize_t k = write(out_fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } }
static std::map<std::string, long> ctr;
static std::string stats() {
  char b[600];
  snprintf(b, sizeof b, "STATS edges=%ld switches=%ld msgs=%ld bytes=%ld colls=%ld shmsegs=%ld rendezvous=%ld delayed=%ld tests_false=%ld allocs=%ld", st.edges, st.switches, st.msgs, st.bytes, st.colls, st.shmsegs, st.rendezvous, st.delayed, st.tests_false, st.allocs);
  std::string s = b;
  if (race_on) { long a, y, c, p; race_counts(&a, &y, &c, &p); snprintf(b, sizeof b, " race_accesses=%ld race_bytes=%ld race_flags=%ld race_ordered=%ld", a, y, c, p); s += b; }
  for (auto &k : ctr) s += " " + k.first + "=" + std::to_string(k.second);
  return s + "\n";
}
static void on_fail(const char *cls, const char *msg) {
  fail_hook = nullptr;
  std::string m = msg;
  for (auto &c : m) if (c == '\n') c = ' ';
  if (sim_corrupted && !strcmp(cls, "EXIT")) { ctr["detected"]++; emit(notes + std::string("STATUS PASS\n") + stats()); _exit(0); }
  emit(notes + std::string("STATUS FAIL ") + cls + " " + m + "\n" + stats());
  _exit(0);
}

// ------------------------------------------------------------------ user buffers
struct UBuf {
  char *map = nullptr; size_t maplen = 0;
  char *p = nullptr; size_t n = 0;      // user-visible region
  char *lo = nullptr, *hi = nullptr;    // accessible span
};
static std::vector<std::pair<char *, std::pair<size_t, std::string>>> ubufs;
static const unsigned char CAN = 0xC7;
static UBuf ub_new(size_t n, int align, size_t es, const std::string &name) {
  UBuf b;
  size_t acc = (n + 4095 + 64) & ~(size_t)4095;
  if (align == 1 && n % 4096 == 0) acc = n ? n : 4096;
  b.maplen = acc + 8192;
  b.map = (char *)mmap(nullptr, b.maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  b.lo = b.map + 4096;
  b.hi = b.lo + acc;
  mprotect(b.lo, acc, PROT_READ | PROT_WRITE);
  memset(b.lo, CAN, acc);
  b.n = n;
  if (align == 1) b.p = b.hi - n;
  else if (align == 2 && acc >= n + es) b.p = b.lo + es;
  else b.p = b.lo;
  ubufs.push_back({b.map, {b.maplen, name}});
  return b;
}
static void ub_canary(const UBuf &b, const std::string &what) {
  for (char *q = b.lo; q < b.p; q++) if ((unsigned char)*q != CAN) fail("OVERRUN", "%s: byte %ld before the buffer overwritten", what.c_str(), (long)(b.p - q));
  for (char *q = b.p + b.n; q < b.hi; q++) if ((unsigned char)*q != CAN) fail("OVERRUN", "%s: byte %ld past the end of the buffer overwritten", what.c_str(), (long)(q - b.p - b.n));
}
static void ub_free(UBuf &b) {
  if (!b.map) return;
  for (size_t i = 0; i < ubufs.size(); i++) if (ubufs[i].first == b.map) { ubufs.erase(ubufs.begin() + i); break; }
  munmap(b.map, b.maplen);
  b = UBuf();
}

static char *altstk;
static void on_signal(int sig, siginfo_t *si, void *uc_) {
  ucontext_t *uc = (ucontext_t *)uc_;
  void *pc = (void *)uc->uc_mcontext.gregs[REG_RIP];
  Dl_info di;
  const char *sym = "?";
  if (dladdr(pc, &di) && di.dli_sname) sym = di.dli_sname; else if (dladdr(pc, &di) && di.dli_fname) sym = di.dli_fname;
  long off = dladdr(pc, &di) && di.dli_fbase ? (long)((char *)pc - (char *)di.dli_fbase) : 0;
  std::string where;
  char *a = (char *)si->si_addr;
  for (auto &b : ubufs) if (a >= b.first && a < b.first + b.second.first) where = " outside the user buffer " + b.second.second;
  fail("CRASH", "signal %d at address %p%s, code near %s (+0x%lx), rank %d, doing %s", sig, (void *)a, where.c_str(), sym, off, cur ? cur->rank : -1, cur ? cur->where.c_str() : "?");
}

// ------------------------------------------------------------------ types and values
struct Ty { const char *name; MPI_Datatype t; int size; int kind; };   // kind 0 int,1 long,2 float,3 double,4 char,5 short
static Ty *tybyname(const std::string &s) {
  static Ty tab[] = {
      {"int", MPI_INT, 4, 0}, {"long", MPI_LONG, 8, 1}, {"float", MPI_FLOAT, 4, 2}, {"double", MPI_DOUBLE, 8, 3},
      {"char", MPI_CHAR, 1, 4}, {"byte", MPI_BYTE, 1, 4}, {"short", MPI_SHORT, 2, 5}, {"llong", MPI_LONG_LONG, 8, 1},
      {"fint", MPI_INTEGER, 4, 0}, {"freal", MPI_REAL, 4, 2}, {"fdouble", MPI_DOUBLE_PRECISION, 8, 3}, {"freal4", MPI_REAL4, 4, 2},
      {"freal8", MPI_REAL8, 8, 3}, {"fint4", MPI_INTEGER4, 4, 0}, {"fint8", MPI_INTEGER8, 8, 1}};
  for (auto &t : tab) if (s == t.name) return &t;
  fail("HARNESS", "unknown type %s", s.c_str());
}
static long ival(const Ty *t, uint64_t seed, int rank, long i) {
  uint64_t h = hash64(seed, rank + 1, i + 1);
  switch (t->kind) {
    case 0: return (long)(h % 2000001) - 1000000;
    case 1: return (long)(h % (1l << 41)) - (1l << 40);
    case 2: return (long)(h % 4001) - 2000;
    case 3: return (long)(h % (1l << 41)) - (1l << 40);
    case 4: return (long)(h % 251) - 125;
    default: return (long)(h % 60001) - 30000;
  }
}
static double rval(uint64_t seed, int rank, long i) {
  uint64_t h = hash64(seed ^ 0x77, rank + 1, i + 1);
  double m = 1.0 + (double)(h >> 12) / 4503599627370496.0;
  int e = (int)(h % 41) - 20;
  return (h & 2048 ? -m : m) * ldexp(1.0, e);
}
static void put(const Ty *t, char *p, long i, uint64_t seed, int rank, long idx, bool real) {
  if (real && t->kind == 2) { ((float *)p)[i] = (float)rval(seed, rank, idx); return; }
  if (real && t->kind == 3) { ((double *)p)[i] = rval(seed, rank, idx); return; }
  long v = ival(t, seed, rank, idx);
  switch (t->kind) {
    case 0: ((int *)p)[i] = (int)v; break;
    case 1: ((long *)p)[i] = v; break;
    case 2: ((float *)p)[i] = (float)v; break;
    case 3: ((double *)p)[i] = (double)v; break;
    case 4: ((signed char *)p)[i] = (signed char)v; break;
    default: ((short *)p)[i] = (short)v; break;
  }
}
static void putsum(const Ty *t, char *p, long i, uint64_t seed, int np, long idx) {
  long s = 0;
  for (int r = 0; r < np; r++) s += ival(t, seed, r, idx);
  switch (t->kind) {
    case 0: ((int *)p)[i] = (int)s; break;
    case 1: ((long *)p)[i] = s; break;
    case 2: ((float *)p)[i] = (float)s; break;
    case 3: ((double *)p)[i] = (double)s; break;
    default: fail("HARNESS", "sum of a non-arithmetic type");
  }
}
static void scramble(char *p, size_t n, uint64_t s) { Rng r(s); for (size_t i = 0; i < n; i++) p[i] = (char)(r.next() >> 7); }

// ------------------------------------------------------------------ program state
struct CommDef { std::vector<int> members; std::vector<MPI_Comm> h; bool live = true; };
static std::map<int, CommDef> comms;
struct Slot {
  std::string kind; int comm = 0; const Ty *t = nullptr; std::vector<int> counts; long total = 0;
  int root = 0, inplace = 0, align = 0, null = 0, real = 0, gap = 0, fort = 0, api = 0, identical = 0, repro = 0; std::string info;
  uint64_t seed = 0; long nstart = 0;
  std::vector<int> displs;
  // foreign traffic
  int shift = 0, persistent = 0, ftag = 0;
  std::vector<std::vector<char>> expcache;   // by significant output (one, or per rank)
  uint64_t expseed = 0;
  std::vector<uint64_t> hashes; long hashes_start = -1;
};
struct RSlot { UBuf s, r; MPI_Request req[2] = {MPI_REQUEST_NULL, MPI_REQUEST_NULL}; MPI_Request orig[2]; int nreq = 0, handle = -1; bool active = false, inited = false; long started = 0; uint64_t seed = 0; int pending = 0; };
static std::map<int, Slot> slots;                 // shared definitions
static std::map<std::tuple<int, int, uint64_t>, uint64_t> repro;   // group, rank, data -> hash of the result
static std::vector<std::map<int, RSlot>> rslots;  // per world rank
struct Mark { std::vector<long> b, n, c, q; long shm = 0; };
static std::map<int, Mark> marks;

static bool is_red(const std::string &k) { return k == "allreduce" || k == "reduce" || k == "reduce_scatter" || k == "reduce_scatter_block"; }
static int crank(const CommDef &c, int w) { auto it = std::find(c.members.begin(), c.members.end(), w); return it == c.members.end() ? -1 : it - c.members.begin(); }

static std::string label(int id, const Slot &s, int w) { char b[200]; snprintf(b, sizeof b, "%s slot %d on rank %d (start %ld)", s.kind.c_str(), id, w, rslots[w][id].started); return b; }

static void slot_setup(int id, const Op &o) {
  if (slots.count(id)) return;   // first rank to reach the op defines it
  Slot s;
  s.kind = gets(o, "kind");
  s.comm = geti(o, "comm");
  s.t = tybyname(gets(o, "type", "long"));
  s.root = geti(o, "root");
  s.inplace = geti(o, "inplace");
  s.align = geti(o, "align");
  s.null = geti(o, "null");
  s.real = geti(o, "real");
  s.gap = geti(o, "gap");
  s.fort = geti(o, "fortran");
  s.api = geti(o, "api");
  s.identical = geti(o, "identical");
  s.repro = geti(o, "repro");
  s.info = gets(o, "info");
  s.shift = geti(o, "shift", 1);
  s.persistent = geti(o, "persistent");
  s.ftag = geti(o, "tag", 7);
  int p = comms[s.comm].members.size();
  s.counts = getl(o, "counts");
  if (s.counts.empty()) s.counts.push_back(0);
  while ((int)s.counts.size() < p) s.counts.push_back(s.counts.back());
  s.counts.resize(p);
  long d = 0;
  for (int i = 0; i < p; i++) { s.displs.push_back(d); d += s.counts[i] + s.gap; s.total += s.counts[i]; }
  s.root = p ? s.root % p : 0;
  slots[id] = s;
}
static void slot_sizes(const Slot &s, int me, long *sn, long *rn) {
  const std::string &k = s.kind;
  int p = s.counts.size();
  long span = p ? s.displs[p - 1] + s.counts[p - 1] : 0;
  *sn = *rn = 0;
  if (k == "allreduce") *sn = *rn = s.counts[0];
  else if (k == "reduce") { *sn = s.counts[0]; *rn = s.counts[0]; }
  else if (k == "bcast") *rn = s.counts[0];
  else if (k == "allgatherv" || k == "allgather") { *sn = s.counts[me]; *rn = span; }
  else if (k == "gatherv" || k == "gather") { *sn = s.counts[me]; *rn = me == s.root ? span : 0; }
  else if (k == "scatterv" || k == "scatter") { *sn = me == s.root ? span : 0; *rn = s.counts[me]; }
  else if (k == "reduce_scatter" || k == "reduce_scatter_block") { *sn = s.total; *rn = s.counts[me]; }
  else if (k == "ring") *sn = *rn = s.counts[0];
  else fail("HARNESS", "unknown kind %s", k.c_str());
}

static MPI_Info mkinfo(const std::string &s) {
  if (s.empty()) return MPI_INFO_NULL;
  MPI_Info i;
  MPI_Info_create(&i);
  std::stringstream ss(s);
  std::string t;
  while (std::getline(ss, t, '|')) {
    size_t p = t.find(':');
    if (p == std::string::npos) continue;
    std::string v = t.substr(p + 1);
    for (auto &c : v) if (c == '_') c = ' ';
    MPI_Info_set(i, t.substr(0, p).c_str(), v.c_str());
  }
  return i;
}

static void do_init(int w, const Op &o) {
  int id = geti(o, "slot");
  slot_setup(id, o);
  Slot &s = slots[id];
  CommDef &cd = comms[s.comm];
  int me = crank(cd, w);
  if (me < 0) return;
  int p = cd.members.size();
  MPI_Comm c = cd.h[w];
  RSlot &q = rslots[w][id];
  long sn, rn;
  slot_sizes(s, me, &sn, &rn);
  size_t es = s.t->size;
  char nm[100];
  snprintf(nm, sizeof nm, "send of %s slot %d rank %d", s.kind.c_str(), id, w);
  q.s = ub_new(sn * es, s.align, es, nm);
  snprintf(nm, sizeof nm, "recv of %s slot %d rank %d", s.kind.c_str(), id, w);
  q.r = ub_new(rn * es, s.align, es, nm);
  q.inited = true;
  const void *sb = q.s.p;
  void *rb = q.r.p;
  const std::string &k = s.kind;
  bool root = me == s.root;
  bool inplace = s.inplace && (k == "allreduce" || (k == "reduce" && root) || (s.inplace == 2));
  if (inplace) sb = MPI_IN_PLACE;
  // null=3: the buffer that is not significant is the other one
  if (s.null && !root) { if (k == "reduce" || k == "gather" || k == "gatherv") rb = s.null == 3 ? (void *)sb : nullptr; if (k == "scatter" || k == "scatterv") sb = s.null == 3 ? rb : nullptr; }
  if (k == "ring") {
    q.nreq = 2;
    int to = (me + s.shift) % p, from = ((me - s.shift) % p + p) % p;
    if (s.persistent) {
      FN(w, MPI_Recv_init)(rb, rn, s.t->t, from, s.ftag, c, &q.req[0]);
      FN(w, MPI_Send_init)(sb, sn, s.t->t, to, s.ftag, c, &q.req[1]);
      q.orig[0] = q.req[0]; q.orig[1] = q.req[1];
    }
    return;
  }
  scramble(q.s.p, q.s.n, hash64(id, w, 11));
  scramble(q.r.p, q.r.n, hash64(id, w, 12));
  bool keep = geti(o, "keep");
  std::vector<char> ks, kr;
  if (keep) { ks.assign(q.s.p, q.s.p + q.s.n); kr.assign(q.r.p, q.r.p + q.r.n); }
  MPI_Info info = mkinfo(s.info);
  MPI_Datatype t = s.t->t;
  std::vector<int> cnt = s.counts, dis = s.displs;   // private copies: the library may not rely on them afterwards
  const int *pc = cnt.data(), *pd = dis.data();
  bool sig = !(s.null && !root);
  // null=2: the arguments that are significant at the root only are garbage elsewhere
  int rcount = cnt[0]; MPI_Datatype rtype = t;
  if (s.null == 2 && !root) { rcount = cnt[0] + 1 + (int)(hash64(id, w, 41) % 50); rtype = hash64(id, w, 42) & 1 ? MPI_BYTE : MPI_DOUBLE; }
  int rc = 0;
  q.nreq = 1;
  Api &L = libs[w];
  if (s.fort && k == "allreduce") {
    int cc = cnt[0], ie = -77;
    MPI_Op op = MPI_SUM;
    L.get<f_allreduce_init_t>(s.fort == 2 ? "mpi_allreduce_init_" : "mpi_allreduce_init_f08_")(inplace ? (const void *)&MPIR_F08_MPI_IN_PLACE : sb, rb, &cc, &t, &op, &c, &info, &q.req[0], &ie);
    rc = ie;
  } else if (s.api) {   // the library's own interface with integer handles
    typedef int *H;
    H h = &q.handle;
    if (k == "allreduce") rc = L.get<int (*)(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, H)>("EXT_MPI_Allreduce_init")(sb, rb, cnt[0], t, MPI_SUM, c, info, h);
    else if (k == "reduce") rc = L.get<int (*)(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Info, H)>("EXT_MPI_Reduce_init")(sb, rb, cnt[0], t, MPI_SUM, s.root, c, info, h);
    else if (k == "bcast") rc = L.get<int (*)(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, H)>("EXT_MPI_Bcast_init")(rb, cnt[0], t, s.root, c, info, h);
    else if (k == "allgatherv") rc = L.get<int (*)(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Info, H)>("EXT_MPI_Allgatherv_init")(sb, cnt[me], t, rb, pc, pd, t, c, info, h);
    else if (k == "allgather") rc = L.get<int (*)(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Info, H)>("EXT_MPI_Allgather_init")(sb, cnt[0], t, rb, cnt[0], t, c, info, h);
    else if (k == "gatherv") rc = L.get<int (*)(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm, MPI_Info, H)>("EXT_MPI_Gatherv_init")(sb, cnt[me], t, rb, sig ? pc : nullptr, sig ? pd : nullptr, rtype, s.root, c, info, h);
    else if (k == "gather") rc = L.get<int (*)(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, H)>("EXT_MPI_Gather_init")(sb, cnt[0], t, rb, rcount, rtype, s.root, c, info, h);
    else if (k == "scatterv") rc = L.get<int (*)(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, H)>("EXT_MPI_Scatterv_init")(sb, sig ? pc : nullptr, sig ? pd : nullptr, rtype, rb, cnt[me], t, s.root, c, info, h);
    else if (k == "scatter") rc = L.get<int (*)(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Info, H)>("EXT_MPI_Scatter_init")(sb, rcount, rtype, rb, cnt[0], t, s.root, c, info, h);
    else if (k == "reduce_scatter") rc = L.get<int (*)(const void *, void *, const int *, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, H)>("EXT_MPI_Reduce_scatter_init")(sb, rb, pc, t, MPI_SUM, c, info, h);
    else if (k == "reduce_scatter_block") rc = L.get<int (*)(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Info, H)>("EXT_MPI_Reduce_scatter_block_init")(sb, rb, cnt[0], t, MPI_SUM, c, info, h);
    if (rc >= 0 && q.handle < 0) fail("REQUEST", "%s: initialisation gave handle %d", label(id, s, w).c_str(), q.handle);
    for (auto &x : rslots[w]) if (x.first != id && x.second.handle == q.handle) fail("REQUEST", "%s: handle %d is already in use", label(id, s, w).c_str(), q.handle);
    rc = rc < 0 ? rc : MPI_SUCCESS;
  } else if (k == "allreduce") rc = L.get<allreduce_init_t>("MPI_Allreduce_init")(sb, rb, cnt[0], t, MPI_SUM, c, info, &q.req[0]);
  else if (k == "reduce") rc = L.get<reduce_init_t>("MPI_Reduce_init")(sb, rb, cnt[0], t, MPI_SUM, s.root, c, info, &q.req[0]);
  else if (k == "bcast") rc = L.get<bcast_init_t>("MPI_Bcast_init")(rb, cnt[0], t, s.root, c, info, &q.req[0]);
  else if (k == "allgatherv") rc = L.get<allgatherv_init_t>("MPI_Allgatherv_init")(sb, cnt[me], t, rb, pc, pd, t, c, info, &q.req[0]);
  else if (k == "allgather") rc = L.get<allgather_init_t>("MPI_Allgather_init")(sb, cnt[0], t, rb, cnt[0], t, c, info, &q.req[0]);
  else if (k == "gatherv") rc = L.get<gatherv_init_t>("MPI_Gatherv_init")(sb, cnt[me], t, rb, sig ? pc : nullptr, sig ? pd : nullptr, rtype, s.root, c, info, &q.req[0]);
  else if (k == "gather") rc = L.get<gather_init_t>("MPI_Gather_init")(sb, cnt[0], t, rb, rcount, rtype, s.root, c, info, &q.req[0]);
  else if (k == "scatterv") rc = L.get<scatterv_init_t>("MPI_Scatterv_init")(sb, sig ? pc : nullptr, sig ? pd : nullptr, rtype, rb, cnt[me], t, s.root, c, info, &q.req[0]);
  else if (k == "scatter") rc = L.get<scatter_init_t>("MPI_Scatter_init")(sb, rcount, rtype, rb, cnt[0], t, s.root, c, info, &q.req[0]);
  else if (k == "reduce_scatter") rc = L.get<reduce_scatter_init_t>("MPI_Reduce_scatter_init")(sb, rb, pc, t, MPI_SUM, c, info, &q.req[0]);
  else if (k == "reduce_scatter_block") rc = L.get<reduce_scatter_block_init_t>("MPI_Reduce_scatter_block_init")(sb, rb, cnt[0], t, MPI_SUM, c, info, &q.req[0]);
  if (rc != MPI_SUCCESS) fail("INITERR", "%s: initialisation returned %d", label(id, s, w).c_str(), rc);
  if (!s.api && q.req[0] == MPI_REQUEST_NULL) fail("REQUEST", "%s: initialisation returned a null request", label(id, s, w).c_str());
  for (auto &x : cnt) x = -0x5A5A5A5;
  for (auto &x : dis) x = -0x5A5A5A5;
  if (info != MPI_INFO_NULL) MPI_Info_free(&info);
  q.orig[0] = q.req[0];
  ub_canary(q.s, label(id, s, w) + " send buffer, at initialisation");
  ub_canary(q.r, label(id, s, w) + " receive buffer, at initialisation");
  if (keep) {
    if (memcmp(ks.data(), q.s.p, ks.size())) fail("INITWRITE", "%s: initialisation changed the send buffer", label(id, s, w).c_str());
    if (memcmp(kr.data(), q.r.p, kr.size())) fail("INITWRITE", "%s: initialisation changed the receive buffer", label(id, s, w).c_str());
  }
  ctr["inits"]++;
}

// the caller's buffers right before a start: poison plus this rank's input
static void fill(int w, int id, uint64_t seed, char *sp, size_t sn, char *rp, size_t rn) {
  Slot &s = slots[id];
  int me = crank(comms[s.comm], w), p = s.counts.size();
  const std::string &k = s.kind;
  const Ty *t = s.t;
  long es = t->size;
  bool root = me == s.root;
  // poison
  scramble(sp, sn, hash64(seed, w, 21));
  scramble(rp, rn, hash64(seed, w, 22));
  bool inplace = s.inplace && (k == "allreduce" || (k == "reduce" && root) || s.inplace == 2);
  char *b = inplace ? rp : sp;
  if (k == "allreduce" || k == "reduce" || k == "ring") for (long i = 0; i < s.counts[0]; i++) put(t, b, i, seed, me, i, s.real);
  else if (k == "bcast") { if (root) for (long i = 0; i < s.counts[0]; i++) put(t, rp, i, seed, me, i, s.real); }
  else if (k == "allgatherv" || k == "allgather" || k == "gatherv" || k == "gather") {
    char *d = inplace ? rp + s.displs[me] * es : sp;
    for (long i = 0; i < s.counts[me]; i++) put(t, d, i, seed, me, i, s.real);
  } else if (k == "scatterv" || k == "scatter") {
    if (root) for (int r = 0; r < p; r++) for (long i = 0; i < s.counts[r]; i++) put(t, sp + s.displs[r] * es, i, seed, r, i, s.real);
  } else if (k == "reduce_scatter" || k == "reduce_scatter_block") for (long i = 0; i < s.total; i++) put(t, b, i, seed, me, i, s.real);
}

static void mismatch(int id, int w, long i, const char *what, const char *exp, const char *got) {
  Slot &s = slots[id];
  char a[64], b[64];
  auto f = [&](char *o, const char *p) {
    switch (s.t->kind) {
      case 0: sprintf(o, "%d", *(int *)p); break;
      case 1: sprintf(o, "%ld", *(long *)p); break;
      case 2: sprintf(o, "%.9g", *(float *)p); break;
      case 3: sprintf(o, "%.17g", *(double *)p); break;
      case 4: sprintf(o, "%d", *(signed char *)p); break;
      default: sprintf(o, "%d", *(short *)p);
    }
  };
  f(a, exp);
  f(b, got);
  fail("RESULT", "%s: %s element %ld is %s, expected %s", label(id, s, w).c_str(), what, i, b, a);
}
// reductions of real-valued data: compare with an extended-precision sum
static void cmpreal(int id, int w, const char *got, long n, long base, uint64_t seed) {
  Slot &s = slots[id];
  int p = s.counts.size();
  double eps = s.t->kind == 2 ? 1.2e-7 : 2.3e-16;
  for (long i = 0; i < n; i++) {
    long double sum = 0, ab = 0;
    for (int r = 0; r < p; r++) {
      char b[8];
      put(s.t, b, 0, seed, r, base + i, true);
      long double v = s.t->kind == 2 ? (long double)*(float *)b : (long double)*(double *)b;
      sum += v;
      ab += fabsl(v);
    }
    long double g = s.t->kind == 2 ? (long double)((const float *)got)[i] : (long double)((const double *)got)[i];
    if (!(fabsl(g - sum) <= ab * eps * (p + 1)))
      fail("RESULT", "%s: element %ld is %.17Lg, expected %.17Lg within rounding", label(id, s, w).c_str(), base + i, g, sum);
  }
}


static bool verify(int w, int id, bool probe = false) {
  Slot &s = slots[id];
  RSlot &q = rslots[w][id];
  int me = crank(comms[s.comm], w), p = s.counts.size();
  const std::string &k = s.kind;
  const Ty *t = s.t;
  long es = t->size;
  bool root = me == s.root;
  uint64_t seed = q.seed;
  bool fp = s.real && (t->kind == 2 || t->kind == 3);
  std::string lab = label(id, s, w);
  ub_canary(q.s, lab + " send buffer");
  ub_canary(q.r, lab + " receive buffer");
  std::vector<char> es_img(q.s.n + 8), er_img(q.r.n + 8);
  fill(w, id, seed, es_img.data(), q.s.n, er_img.data(), q.r.n);
  // overlay the reference result
  char *e = er_img.data();
  long out0 = 0, outn = 0;
  if (k == "allreduce" || (k == "reduce" && root)) {
    outn = s.counts[0];
    if (!fp) for (long i = 0; i < outn; i++) putsum(t, e, i, seed, p, i);
  } else if (k == "bcast") {
    outn = s.counts[0];
    for (long i = 0; i < outn; i++) put(t, e, i, seed, s.root, i, s.real);
  } else if (k == "allgatherv" || k == "allgather" || ((k == "gatherv" || k == "gather") && root)) {
    outn = s.total;
    for (int r = 0; r < p; r++) for (long i = 0; i < s.counts[r]; i++) put(t, e + s.displs[r] * es, i, seed, r, i, s.real);
  } else if (k == "scatterv" || k == "scatter") {
    outn = s.counts[me];
    for (long i = 0; i < outn; i++) put(t, e, i, seed, me, i, s.real);
  } else if (k == "reduce_scatter" || k == "reduce_scatter_block") {
    outn = s.counts[me];
    for (int r = 0; r < me; r++) out0 += s.counts[r];
    if (!fp) for (long i = 0; i < outn; i++) putsum(t, e, i, seed, p, out0 + i);
  } else if (k == "ring") {
    outn = s.counts[0];
    int from = ((me - s.shift) % p + p) % p;
    for (long i = 0; i < outn; i++) put(t, e, i, seed, from, i, s.real);
  }
  if (probe) return !memcmp(e, q.r.p, q.r.n);
  if (memcmp(es_img.data(), q.s.p, q.s.n)) {
    for (size_t i = 0; i < q.s.n; i++) if (es_img[i] != q.s.p[i]) fail("SENDBUF", "%s: send buffer modified at byte %zu of %zu", lab.c_str(), i, q.s.n);
  }
  if (fp && is_red(k) && (k != "reduce" || root)) {
    cmpreal(id, w, q.r.p, outn, out0, seed);
    size_t o = outn * es;
    if (memcmp(e + o, q.r.p + o, q.r.n - o)) fail("RECVBUF", "%s: bytes of the receive buffer outside the result were modified", lab.c_str());
    // hash for cross-rank / cross-run comparison
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < o; i++) { h ^= (unsigned char)q.r.p[i]; h *= 1099511628211ull; }
    if (cas.digest) { char b[120]; snprintf(b, sizeof b, "DIGEST %d %ld %d %016lx\n", id, q.started, me, (unsigned long)h); notes += b; }
    if (s.repro) {
      auto in = repro.insert({{s.repro, me, seed}, h});
      if (!in.second && in.first->second != h) fail("REPRO", "%s: the bits of the result differ from an earlier start on the same data", lab.c_str());
      if (!in.second) ctr["repeated"]++;
    }
    if (s.identical) {
      if (s.hashes_start != q.started) { s.hashes_start = q.started; s.hashes.assign(1, h); }
      else if (s.hashes[0] != h) fail("IDENTICAL", "%s: bit pattern of the result differs between ranks", lab.c_str());
    }
  } else if (memcmp(e, q.r.p, q.r.n)) {
    // find the first differing byte and describe it
    size_t i = 0;
    while (e[i] == q.r.p[i]) i++;
    long el = i / es;
    bool inout = false;
    if (k == "allgatherv" || k == "allgather" || k == "gatherv" || k == "gather") { if (outn) for (int r = 0; r < p; r++) if (el >= s.displs[r] && el < s.displs[r] + s.counts[r]) inout = true; }
    else inout = el < outn;
    if (inout) mismatch(id, w, el, "result", e + el * es, q.r.p + el * es);
    fail("RECVBUF", "%s: byte %zu of the receive buffer, outside the result, was modified", lab.c_str(), i);
  }
  ctr["checked"]++;
  // both buffers belong to the caller again: overwrite them at once
  scramble(q.s.p, q.s.n, hash64(seed, w, 31));
  scramble(q.r.p, q.r.n, hash64(seed, w, 32));
  return true;
}

// between a completion and the next start (or the release) the buffers belong to the caller
static void idle_check(int w, int id, const char *what) {
  RSlot &q = rslots[w][id];
  if (!q.inited || q.active || !q.started || slots[id].kind == "ring") return;
  std::vector<char> a(q.s.n), b(q.r.n);
  scramble(a.data(), a.size(), hash64(q.seed, w, 31));
  scramble(b.data(), b.size(), hash64(q.seed, w, 32));
  if (a.size() && memcmp(a.data(), q.s.p, a.size())) fail("SENDBUF", "%s: send buffer changed while the collective was not active, before %s", label(id, slots[id], w).c_str(), what);
  if (b.size() && memcmp(b.data(), q.r.p, b.size())) fail("RECVBUF", "%s: receive buffer changed while the collective was not active, before %s", label(id, slots[id], w).c_str(), what);
}

static void do_start(int w, const Op &o) {
  std::vector<MPI_Request *> batch;
  bool all = geti(o, "all");
  for (int id : getl(o, "slots")) {
    Slot &s = slots[id];
    if (!slots.count(id)) fail("HARNESS", "start of an unknown slot");
    int me = crank(comms[s.comm], w);
    if (me < 0) continue;
    RSlot &q = rslots[w][id];
    idle_check(w, id, "the next start");
    q.seed = hash64(geti(o, "seed"), s.repro ? s.repro : id, 5);
    fill(w, id, q.seed, q.s.p, q.s.n, q.r.p, q.r.n);
    q.started++;
    q.active = true;
    q.pending = q.nreq;
    if (s.kind == "ring") {
      int p = s.counts.size();
      int to = (me + s.shift) % p, from = ((me - s.shift) % p + p) % p;
      if (!s.persistent) {
        FN(w, MPI_Irecv)(q.r.p, s.counts[0], s.t->t, from, s.ftag, comms[s.comm].h[w], &q.req[0]);
        FN(w, MPI_Isend)(q.s.p, s.counts[0], s.t->t, to, s.ftag, comms[s.comm].h[w], &q.req[1]);
      } else for (int i = 0; i < 2; i++) { if (all) batch.push_back(&q.req[i]); else FN(w, MPI_Start)(&q.req[i]); }
      ctr["foreign_starts"]++;
      continue;
    }
    if (s.api) { if (libs[w].get<int (*)(int)>("EXT_MPI_Start")(q.handle) < 0) fail("RETCODE", "EXT_MPI_Start failed"); ctr["starts"]++; continue; }
    if (s.fort) { int ie = -77; libs[w].get<f_req_t>("mpi_start_f08_")(&q.req[0], &ie); if (ie) fail("INITERR", "mpi_start ierr %d", ie); }
    else if (all) batch.push_back(&q.req[0]);
    else if (FN(w, MPI_Start)(&q.req[0]) != MPI_SUCCESS) fail("RETCODE", "MPI_Start failed");
    if (q.req[0] != q.orig[0]) fail("REQUEST", "MPI_Start changed the request handle");
    ctr["starts"]++;
  }
  if (all) {
    std::vector<MPI_Request> r;
    for (auto p : batch) r.push_back(*p);
    r.push_back(MPI_REQUEST_NULL);
    if (FN(w, MPI_Startall)((int)batch.size(), r.data()) != MPI_SUCCESS) fail("RETCODE", "MPI_Startall failed");
    for (size_t i = 0; i < batch.size(); i++) if (r[i] != *batch[i]) fail("REQUEST", "MPI_Startall changed a request handle");
    ctr["startalls"]++;
  }
}

struct Ent { int id, k; bool done; };
static void finished(int w, Ent &e, const MPI_Status *stp, MPI_Request now) {
  Slot &s = slots[e.id];
  RSlot &q = rslots[w][e.id];
  int me = crank(comms[s.comm], w);
  if (e.done) fail("REQUEST", "%s: request reported complete twice", label(e.id, s, w).c_str());
  e.done = true;
  q.req[e.k] = now;
  if (s.kind == "ring") {
    int p = s.counts.size();
    if (stp && e.k == 0) {
      int from = ((me - s.shift) % p + p) % p, n = -1;
      PMPI_Get_count((MPI_Status *)stp, s.t->t, &n);
      if (stp->MPI_SOURCE != from || stp->MPI_TAG != s.ftag || n != s.counts[0])
        fail("STATUS", "%s: status of an ordinary receive is source %d tag %d count %d, expected %d %d %d", label(e.id, s, w).c_str(), stp->MPI_SOURCE, stp->MPI_TAG, n, from, s.ftag, s.counts[0]);
    }
    if (s.persistent ? now != q.orig[e.k] : now != MPI_REQUEST_NULL) fail("REQUEST", "%s: ordinary request handle wrong after completion", label(e.id, s, w).c_str());
  } else if (now != q.orig[0]) fail("REQUEST", "%s: persistent request handle changed by completion", label(e.id, s, w).c_str());
  if (--q.pending == 0) {
    q.active = false;
    verify(w, e.id);
  }
}
static void unfinished(int w, Ent &e, MPI_Request now) {
  RSlot &q = rslots[w][e.id];
  if (now != q.req[e.k]) fail("REQUEST", "%s: handle of an incomplete request was changed", label(e.id, slots[e.id], w).c_str());
}
// the library's own interface: Wait, or Test until done with calls of Progress in between
static void complete_api(int w, const Op &o, const std::vector<int> &ids) {
  std::string m = gets(o, "method", "wait");
  auto wait = libs[w].get<int (*)(int)>("EXT_MPI_Wait"), test = libs[w].get<int (*)(int)>("EXT_MPI_Test");
  auto progress = libs[w].get<int (*)()>("EXT_MPI_Progress");
  Rng r(hash64(geti(o, "seed", 1), w, 19));
  long yb = geti(o, "yield", 1);
  auto done = [&](int id) { RSlot &q = rslots[w][id]; q.active = false; q.pending = 0; verify(w, id); };
  std::vector<int> left;
  for (int id : ids) if (rslots[w][id].active) left.push_back(id);
  if (m == "drive") {
    // every rank does nothing but call the progress function until its results are in place
    for (long i = 0;; i++) {
      bool all = true;
      for (int id : left) all = all && verify(w, id, true);
      if (all) break;
      if (i == 20000) fail("PROGRESS", "the results of the started collectives are not in place on rank %d after %ld calls of EXT_MPI_Progress on every rank", w, i);
      progress(); ctr["progress"]++; sim_yield();
    }
  }
  if (m == "wait" || m == "progress_wait") {
    for (int id : ids) {
      if (m == "progress_wait") for (uint64_t i = r.below(6); i; i--) { progress(); ctr["progress"]++; sim_yield(); }
      if (wait(rslots[w][id].handle) < 0) fail("RETCODE", "EXT_MPI_Wait failed");
      if (rslots[w][id].active) done(id);
    }
  } else while (left.size()) {
    for (size_t i = 0; i < left.size();) {
      if (m == "progress") for (uint64_t k = r.below(4); k; k--) { progress(); ctr["progress"]++; }
      int f = test(rslots[w][left[i]].handle);
      if (f != 0 && f != 1) fail("FLAG", "EXT_MPI_Test returned %d", f);
      if (f) { done(left[i]); left.erase(left.begin() + i); }
      else { i++; ctr["test_polls"]++; for (long k = 0; k < yb; k++) sim_yield(); }
    }
  }
  ctr["m_api_" + m]++;
}
static void do_complete(int w, const Op &o) {
  std::string m = gets(o, "method", "wait");
  std::vector<int> api;
  for (int id : getl(o, "slots")) if (slots[id].api && crank(comms[slots[id].comm], w) >= 0) api.push_back(id);
  if (api.size()) { complete_api(w, o, api); return; }
  bool stat = geti(o, "stat");
  std::vector<Ent> es;
  uint64_t seed = geti(o, "seed", 1);
  for (int id : getl(o, "slots")) {
    Slot &s = slots[id];
    if (crank(comms[s.comm], w) < 0) continue;
    for (int k = 0; k < rslots[w][id].nreq; k++) es.push_back({id, k, !rslots[w][id].active});
  }
  // requests of a ring may be listed in any order; so may everything for any/some/test methods
  long perm = geti(o, "perm");
  if (perm) { Rng r(hash64(seed, perm == 2 ? w : 0, 3)); for (size_t i = es.size(); i > 1; i--) std::swap(es[i - 1], es[r.below(i)]); }
  int n = es.size();
  std::vector<MPI_Request> rq(n + 1);
  std::vector<MPI_Status> sts(n + 1);
  auto load = [&] { for (int i = 0; i < n; i++) rq[i] = rslots[w][es[i].id].req[es[i].k]; };
  auto prime = [&] { for (auto &x : sts) { memset(&x, 0x3C, sizeof x); } };
  int left = 0;
  for (auto &e : es) left += !e.done;
  load();
  prime();
  bool tail = geti(o, "tail");
  auto rc = [&](int r) { if (r != MPI_SUCCESS) fail("RETCODE", "completion call returned %d", r); };
  long yb = geti(o, "yield", 1);
  Rng ry(hash64(seed, w, 9));
  auto pause = [&] { ctr["test_polls"]++; for (long i = 0; i < yb; i++) sim_yield(); };
  if (m == "wait") {
    for (int i = 0; i < n; i++) {
      if (slots[es[i].id].fort) { int ie = -77; libs[w].get<f_wait_t>("mpi_wait_f08_")(&rq[i], &sts[i], &ie); rc(ie); }
      else rc(FN(w, MPI_Wait)(&rq[i], stat ? &sts[i] : MPI_STATUS_IGNORE));
      if (!es[i].done) finished(w, es[i], stat ? &sts[i] : nullptr, rq[i]);
    }
  } else if (m == "waitall") {
    rc(FN(w, MPI_Waitall)(n, rq.data(), stat ? sts.data() : MPI_STATUSES_IGNORE));
    for (int i = 0; i < n; i++) if (!es[i].done) finished(w, es[i], stat ? &sts[i] : nullptr, rq[i]);
  } else if (m == "test") {
    while (left) {
      for (int i = 0; i < n; i++) {
        if (es[i].done) continue;
        int flag = -7;
        rc(FN(w, MPI_Test)(&rq[i], &flag, stat ? &sts[i] : MPI_STATUS_IGNORE));
        if (flag != 0 && flag != 1) fail("FLAG", "MPI_Test flag %d", flag);
        if (flag) { finished(w, es[i], stat ? &sts[i] : nullptr, rq[i]); left--; }
        else { unfinished(w, es[i], rq[i]); pause(); }
      }
    }
  } else if (m == "testall") {
    while (left) {
      int flag = -7;
      prime();
      rc(FN(w, MPI_Testall)(n, rq.data(), &flag, stat ? sts.data() : MPI_STATUSES_IGNORE));
      if (flag != 0 && flag != 1) fail("FLAG", "MPI_Testall flag %d", flag);
      if (flag) { for (int i = 0; i < n; i++) if (!es[i].done) finished(w, es[i], stat ? &sts[i] : nullptr, rq[i]); left = 0; }
      else { for (int i = 0; i < n; i++) unfinished(w, es[i], rq[i]); pause(); }
    }
  } else if (m == "waitany" || m == "testany") {
    bool test = m == "testany";
    int extra = tail ? 1 : 0;
    while (left || extra) {
      if (!left) extra = 0;
      int idx = -77, flag = -7;
      prime();
      if (test) {
        rc(FN(w, MPI_Testany)(n, rq.data(), &idx, &flag, stat ? &sts[0] : MPI_STATUS_IGNORE));
        if (flag != 0 && flag != 1) fail("FLAG", "MPI_Testany flag %d", flag);
        if (!flag) { if (!left) fail("REQUEST", "MPI_Testany without active requests returned flag 0"); for (int i = 0; i < n; i++) if (!es[i].done) unfinished(w, es[i], rq[i]); pause(); continue; }
      } else rc(FN(w, MPI_Waitany)(n, rq.data(), &idx, stat ? &sts[0] : MPI_STATUS_IGNORE));
      if (!left) { if (idx != MPI_UNDEFINED) fail("REQUEST", "%s without active requests returned index %d", m.c_str(), idx); continue; }
      if (idx < 0 || idx >= n) fail("REQUEST", "%s returned index %d of %d requests although %d are active", m.c_str(), idx, n, left);
      if (es[idx].done) fail("REQUEST", "%s returned the index of an inactive request (%d)", m.c_str(), idx);
      finished(w, es[idx], stat ? &sts[0] : nullptr, rq[idx]);
      left--;
      for (int i = 0; i < n; i++) if (!es[i].done) unfinished(w, es[i], rq[i]);
    }
  } else if (m == "waitsome" || m == "testsome") {
    bool test = m == "testsome";
    int extra = tail ? 1 : 0;
    std::vector<int> ix(n + 1);
    while (left || extra) {
      if (!left) extra = 0;
      int oc = -77;
      prime();
      if (test) rc(FN(w, MPI_Testsome)(n, rq.data(), &oc, ix.data(), stat ? sts.data() : MPI_STATUSES_IGNORE));
      else rc(FN(w, MPI_Waitsome)(n, rq.data(), &oc, ix.data(), stat ? sts.data() : MPI_STATUSES_IGNORE));
      if (!left) { if (oc != MPI_UNDEFINED) fail("REQUEST", "%s without active requests returned outcount %d", m.c_str(), oc); continue; }
      if (oc < (test ? 0 : 1) || oc > left) fail("REQUEST", "%s returned outcount %d with %d active requests", m.c_str(), oc, left);
      for (int j = 0; j < oc; j++) {
        int i = ix[j];
        if (i < 0 || i >= n || es[i].done) fail("REQUEST", "%s returned index %d, which is not an active request", m.c_str(), i);
        finished(w, es[i], stat ? &sts[j] : nullptr, rq[i]);
        left--;
      }
      for (int i = 0; i < n; i++) if (!es[i].done) unfinished(w, es[i], rq[i]);
      if (!oc) pause();
    }
  } else fail("HARNESS", "unknown method %s", m.c_str());
  ctr["m_" + m]++;
}

static void do_free(int w, const Op &o) {
  for (int id : getl(o, "slots")) {
    Slot &s = slots[id];
    if (crank(comms[s.comm], w) < 0) continue;
    RSlot &q = rslots[w][id];
    idle_check(w, id, "its release");
    if (s.kind != "ring" || s.persistent)
      for (int i = 0; i < q.nreq; i++) {
        if (s.api) { if (libs[w].get<int (*)(int)>("EXT_MPI_Done")(q.handle) < 0) fail("RETCODE", "EXT_MPI_Done failed"); continue; }
        if (s.fort) { int ie = -77; libs[w].get<f_req_t>("mpi_request_free_f08_")(&q.req[i], &ie); }
        else FN(w, MPI_Request_free)(&q.req[i]);
        if (q.req[i] != MPI_REQUEST_NULL) fail("REQUEST", "MPI_Request_free did not null the handle");
      }
    ub_canary(q.s, label(id, s, w) + " send buffer, at free");
    ub_canary(q.r, label(id, s, w) + " receive buffer, at free");
    ub_free(q.s);
    ub_free(q.r);
    rslots[w].erase(id);
    ctr["frees"]++;
  }
}

static void do_blk(int w, const Op &o) {
  int ci = geti(o, "comm");
  CommDef &cd = comms[ci];
  int me = crank(cd, w);
  if (me < 0) return;
  int p = cd.members.size();
  MPI_Comm c = cd.h[w];
  Slot s;
  s.kind = gets(o, "kind");
  s.comm = ci;
  s.t = tybyname(gets(o, "type", "long"));
  s.inplace = geti(o, "inplace");
  s.fort = geti(o, "fortran");
  long n = geti(o, "count");
  s.counts.assign(p, n);
  for (int i = 0; i < p; i++) s.displs.push_back(i * n);
  s.total = n * p;
  int id = 1000000 + geti(o, "id");
  if (!slots.count(id)) slots[id] = s;
  RSlot &q = rslots[w][id];
  long sn, rn;
  slot_sizes(s, me, &sn, &rn);
  if (s.inplace == 2 && is_red(s.kind) && s.kind != "allreduce") rn = std::max(rn, sn);
  size_t es = s.t->size;
  q.s = ub_new(sn * es, geti(o, "align"), es, "send of blocking " + s.kind);
  q.r = ub_new(rn * es, geti(o, "align"), es, "recv of blocking " + s.kind);
  q.seed = hash64(geti(o, "seed"), s.repro ? s.repro : id, 5);
  q.started = 1;
  fill(w, id, q.seed, q.s.p, q.s.n, q.r.p, q.r.n);
  const void *sb = s.inplace ? MPI_IN_PLACE : q.s.p;
  int rc = 0;
  if (s.kind == "allreduce" && s.fort) {
    int cc = n, ie = -77; MPI_Datatype t = s.t->t; MPI_Op op = MPI_SUM;
    typedef void (*f_t)(const void *, void *, int *, MPI_Datatype *, MPI_Op *, MPI_Comm *, int *);
    libs[w].get<f_t>("mpi_allreduce_f08_")(s.inplace ? (const void *)&MPIR_F08_MPI_IN_PLACE : sb, q.r.p, &cc, &t, &op, &c, &ie);
    rc = ie;
  } else if (s.kind == "allreduce") rc = FN(w, MPI_Allreduce)(sb, q.r.p, n, s.t->t, MPI_SUM, c);
  else if (s.kind == "allgather") rc = FN(w, MPI_Allgather)(sb, n, s.t->t, q.r.p, n, s.t->t, c);
  else if (s.kind == "reduce_scatter_block") rc = FN(w, MPI_Reduce_scatter_block)(sb, q.r.p, n, s.t->t, MPI_SUM, c);
  else fail("HARNESS", "unknown blocking kind");
  if (rc != MPI_SUCCESS) fail("RETCODE", "blocking %s returned %d", s.kind.c_str(), rc);
  verify(w, id);
  ub_free(q.s);
  ub_free(q.r);
  rslots[w].erase(id);
  ctr["blocking"]++;
}

// the program's own messages on the communicators the collectives were created on
struct UMsg { MPI_Request s = MPI_REQUEST_NULL, r = MPI_REQUEST_NULL; std::vector<long> sb, rb; };
static std::map<int, std::map<int, UMsg>> umsgs;
static void do_user(int w, const Op &o) {
  int id = geti(o, "id"), ci = geti(o, "comm"), shift = geti(o, "shift", 1), tag = geti(o, "tag"), n = geti(o, "count", 1);
  CommDef &cd = comms[ci];
  int me = crank(cd, w);
  if (me < 0) return;
  int p = cd.members.size(), to = (me + shift) % p, from = (me + p - shift % p) % p;
  MPI_Comm c = cd.h[w];
  UMsg &u = umsgs[w][id];
  std::string how = gets(o, "how");
  auto val = [&](int src, int i) { return (long)hash64(id * 131 + ci, src * 7919 + i, 9); };
  if (how == "post") {
    u.rb.assign(n + 8, -7);
    int any = geti(o, "any", 1);
    PMPI_Irecv(u.rb.data(), any ? n + 8 : n, MPI_LONG, any ? MPI_ANY_SOURCE : from, any ? MPI_ANY_TAG : tag, c, &u.r);
  } else if (how == "send") {
    u.sb.resize(n);
    for (int i = 0; i < n; i++) u.sb[i] = val(me, i);
    PMPI_Isend(u.sb.data(), n, MPI_LONG, to, tag, c, &u.s);
  } else {
    MPI_Status st;
    FN(w, MPI_Wait)(&u.r, &st);
    int got = -1;
    PMPI_Get_count(&st, MPI_LONG, &got);
    if (st.MPI_SOURCE != from || st.MPI_TAG != tag || got != n)
      fail("ISOLATION", "rank %d received a message of %d numbers from rank %d with tag %d in place of the program's own (%d numbers, rank %d, tag %d)", w, got, st.MPI_SOURCE, st.MPI_TAG, n, from, tag);
    for (int i = 0; i < n + 8; i++) if (u.rb[i] != (i < n ? val(from, i) : -7)) fail("ISOLATION", "rank %d: the program's own message was changed", w);
    FN(w, MPI_Wait)(&u.s, MPI_STATUS_IGNORE);
    ctr["messages"]++;
  }
}

static void do_comm(int w, const Op &o) {
  int id = geti(o, "id"), par = geti(o, "parent");
  std::string how = gets(o, "how");
  CommDef &pd = comms[par];
  int me = crank(pd, w);
  int n = cfg.n;
  auto col = getl(o, "colors"), key = getl(o, "keys");
  auto color = [&](int pr) { return how == "splittype" ? cfg.node[pd.members[pr]] : how == "dup" ? 0 : pr < (int)col.size() ? col[pr] : 0; };
  auto keyf = [&](int pr) { return how == "dup" ? pr : pr < (int)key.size() ? key[pr] : pr; };
  // every colour becomes its own communicator definition; ids: id + 1000*colour are addressed through id by members
  if (me < 0) return;
  MPI_Comm nc = MPI_COMM_NULL;
  int mycol = color(me);
  if (geti(o, "fortran")) {
    int ie = -77, k = keyf(me), cc = mycol < 0 ? MPI_UNDEFINED : mycol, ty = MPI_COMM_TYPE_SHARED;
    MPI_Info inf = MPI_INFO_NULL;
    MPI_Comm *pc = &pd.h[w];
    if (how == "dup") libs[w].get<void (*)(MPI_Comm *, MPI_Comm *, int *)>("mpi_comm_dup_f08_")(pc, &nc, &ie);
    else if (how == "split") libs[w].get<void (*)(MPI_Comm *, int *, int *, MPI_Comm *, int *)>("mpi_comm_split_f08_")(pc, &cc, &k, &nc, &ie);
    else if (how == "splittype") libs[w].get<void (*)(MPI_Comm *, int *, int *, MPI_Info *, MPI_Comm *, int *)>("mpi_comm_split_type_f08_")(pc, &ty, &k, &inf, &nc, &ie);
    else if (how == "create") {
      MPI_Group g, g2;
      PMPI_Comm_group(*pc, &g);
      PMPI_Group_incl(g, key.size(), key.data(), &g2);
      libs[w].get<void (*)(MPI_Comm *, MPI_Group *, MPI_Comm *, int *)>("mpi_comm_create_f08_")(pc, &g2, &nc, &ie);
      PMPI_Group_free(&g); PMPI_Group_free(&g2);
    }
    if (ie != MPI_SUCCESS) fail("RETCODE", "Fortran communicator constructor gave ierr %d", ie);
  } else if (how == "dup") FN(w, MPI_Comm_dup)(pd.h[w], &nc);
  else if (how == "split") FN(w, MPI_Comm_split)(pd.h[w], mycol < 0 ? MPI_UNDEFINED : mycol, keyf(me), &nc);
  else if (how == "splittype") FN(w, MPI_Comm_split_type)(pd.h[w], MPI_COMM_TYPE_SHARED, keyf(me), MPI_INFO_NULL, &nc);
  else if (how == "create") {
    MPI_Group g, g2;
    PMPI_Comm_group(pd.h[w], &g);
    PMPI_Group_incl(g, key.size(), key.data(), &g2);
    FN(w, MPI_Comm_create)(pd.h[w], g2, &nc);
    PMPI_Group_free(&g); PMPI_Group_free(&g2);
  } else fail("HARNESS", "unknown comm constructor");
  auto put_ = [&](int cid, std::vector<int> mem) {
    if (!comms.count(cid)) { CommDef d; d.members = mem; d.h.assign(n, MPI_COMM_NULL); comms[cid] = d; }
  };
  if (how == "create") {
    std::vector<int> mem;
    for (int k : key) mem.push_back(pd.members[k]);
    put_(id, mem);
    comms[id].h[w] = nc;
    if ((crank(comms[id], w) >= 0) != (nc != MPI_COMM_NULL)) fail("COMM", "membership of a created communicator");
    return;
  }
  std::vector<std::pair<int, int>> v;
  int want = how == "split" ? geti(o, "use", 0) : 0;
  // members of the colour addressed by this id (colour 'use'); other colours get id+1000*(1+colour)
  std::set<int> cols;
  for (int r = 0; r < (int)pd.members.size(); r++) cols.insert(color(r));
  for (int c : cols) {
    if (c < 0) continue;
    v.clear();
    for (int r = 0; r < (int)pd.members.size(); r++) if (color(r) == c) v.push_back({keyf(r), r});
    std::stable_sort(v.begin(), v.end());
    std::vector<int> mem;
    for (auto &x : v) mem.push_back(pd.members[x.second]);
    put_(c == want || how != "split" && c == *cols.begin() ? id : id + 1000 * (1 + c), mem);
  }
  if (mycol >= 0) {
    int cid = mycol == want || how != "split" && mycol == *cols.begin() ? id : id + 1000 * (1 + mycol);
    comms[cid].h[w] = nc;
    int sz, rk;
    PMPI_Comm_size(nc, &sz);
    PMPI_Comm_rank(nc, &rk);
    if (sz != (int)comms[cid].members.size() || rk != crank(comms[cid], w)) fail("COMM", "communicator constructor returned the wrong group");
  } else if (nc != MPI_COMM_NULL) fail("COMM", "undefined colour must give a null communicator");
  ctr["comms"]++;
}

static void body(int w) {
  int ie = -77;
  if (cas.fortran) { libs[w].get<void (*)(int *)>("mpi_init_f08_")(&ie); if (ie) fail("RETCODE", "mpi_init ierr %d", ie); }
  else libs[w].get<decltype(&MPI_Init)>("MPI_Init")(nullptr, nullptr);
  for (auto &o : cas.ops) {
    cur->where = o.text;
    sim_progress();
    const std::string &c = o.name;
    if (o.kv.count("only") && geti(o, "only") != w % 2) continue;   // ranks of the other parity skip this
    if (c == "init") {
      if (geti(o, "corrupt")) {   // fault injection during the built-in check, which has to stop the program
        PMPI_Barrier(comms[0].h[w]);
        if (w == 0) { sim_corrupt = geti(o, "corrupt"); sim_corrupt_seed = geti(o, "cseed", 1); }
        PMPI_Barrier(comms[0].h[w]);
      }
      if (geti(o, "fine")) g_fine++;
      do_init(w, o);
      if (geti(o, "fine")) g_fine--;
      if (geti(o, "corrupt")) {
        PMPI_Barrier(comms[0].h[w]);
        sim_corrupt = 0;
        if (sim_corrupted) fail("UNDETECTED", "a message of the built-in check was damaged, but creation went on");
        PMPI_Barrier(comms[0].h[w]);
      }
    }
    else if (c == "start") { g_fine++; do_start(w, o); g_fine--; }
    else if (c == "complete") { g_fine++; do_complete(w, o); g_fine--; }
    else if (c == "free") do_free(w, o);
    else if (c == "blk") { g_fine++; do_blk(w, o); g_fine--; }
    else if (c == "comm") do_comm(w, o);
    else if (c == "user") do_user(w, o);
    else if (c == "progress") for (long i = geti(o, "n", 1); i > 0; i--) { libs[w].get<int (*)()>("EXT_MPI_Progress")(); ctr["progress"]++; sim_yield(); }
    else if (c == "commfree") {
      int id = geti(o, "id");
      for (auto &kv : comms) if (kv.first % 1000 == id % 1000 && kv.first && kv.second.h[w] != MPI_COMM_NULL) { if (geti(o, "fortran")) { int ie = -77; libs[w].get<void (*)(MPI_Comm *, int *)>("mpi_comm_free_f08_")(&kv.second.h[w], &ie); if (ie) fail("RETCODE", "mpi_comm_free ierr %d", ie); } else FN(w, MPI_Comm_free)(&kv.second.h[w]); if (kv.second.h[w] != MPI_COMM_NULL) fail("COMM", "MPI_Comm_free left the handle"); }
    }
    else if (c == "barrier") PMPI_Barrier(comms[0].h[w]);
    else if (c == "work") { uint64_t h = hash64(geti(o, "seed"), w, 77) % (1 + geti(o, "max", 50)); for (uint64_t i = 0; i < h; i++) sim_yield(); }
    else if (c == "mark") {
      PMPI_Barrier(comms[0].h[w]);
      Mark &m = marks[geti(o, "id")];
      if (m.b.empty()) { m.b.assign(cfg.n, 0); m.n = m.c = m.q = m.b; }
      m.b[w] = mem_live_bytes(w); m.n[w] = mem_live_blocks(w); m.c[w] = comm_live(w); m.q[w] = req_live(w);
      m.shm = shm_live();
      if (geti(o, "sites")) notes += "SITES " + std::to_string(w) + mem_live_sites(w) + "\n";
      PMPI_Barrier(comms[0].h[w]);
    }
    else if (c == "cmpmark") {
      PMPI_Barrier(comms[0].h[w]);
      Mark &a = marks[geti(o, "a")], &b = marks[geti(o, "b")];
      if (b.b[w] > a.b[w] || b.n[w] > a.n[w]) fail("LEAK", "rank %d holds %ld heap blocks (%ld bytes) more than before:%s", w, b.n[w] - a.n[w], b.b[w] - a.b[w], mem_live_sites(w).c_str());
      if (b.c[w] > a.c[w]) fail("LEAK", "rank %d holds %ld communicators more than before", w, b.c[w] - a.c[w]);
      if (b.q[w] > a.q[w]) fail("LEAK", "rank %d holds %ld requests more than before", w, b.q[w] - a.q[w]);
      if (b.shm > a.shm) fail("LEAK", "%ld shared memory segments more than before", b.shm - a.shm);
    }
    else if (c == "note") {}
    else fail("HARNESS", "unknown op %s", c.c_str());
  }
  cur->where = "MPI_Finalize";
  if (cas.fortran) { ie = -77; libs[w].get<void (*)(int *)>("mpi_finalize_f08_")(&ie); if (ie) fail("RETCODE", "mpi_finalize ierr %d", ie); }
  else libs[w].get<decltype(&MPI_Finalize)>("MPI_Finalize")();
  cur->where = "after finalize";
}

// ------------------------------------------------------------------ parsing
static bool parse(const std::vector<std::string> &lines, SimConfig &c, std::string &err) {
  cas = Case();
  for (auto &l : lines) {
    std::stringstream ss(l);
    std::string w;
    ss >> w;
    if (w.empty() || w[0] == '#') continue;
    if (w == "n") ss >> c.n;
    else if (w == "nodes") { int x; c.node.clear(); while (ss >> x) c.node.push_back(x); }
    else if (w == "env") { std::string r; std::getline(ss, r); size_t p = r.find_first_not_of(' '); if (p == std::string::npos) continue; r = r.substr(p); p = r.find('='); cas.env.push_back({r.substr(0, p), r.substr(p + 1)}); }
    else {
      Op o;
      o.name = w;
      o.text = l.substr(0, 150);
      std::string t;
      while (ss >> t) { size_t p = t.find('='); if (p == std::string::npos) o.kv[t] = "1"; else o.kv[t.substr(0, p)] = t.substr(p + 1); }
      if (w == "sim") {
        c.sched = geti(o, "sched", 1); c.slice = geti(o, "slice", 300); c.sched_seed = geti(o, "seed", 1); c.mpi_seed = geti(o, "mseed", 1);
        c.eager = geti(o, "eager", 1); c.delay = geti(o, "delay", 0); c.collsync = geti(o, "collsync", 0); c.reqreuse = geti(o, "reqreuse", 0);
        c.reqstride = geti(o, "stride", 192); c.wt_seed = geti(o, "wtseed", 1); c.wt_step = geti(o, "wtstep", 150) / 1000.0; cas.final = geti(o, "final"); cas.fortran = geti(o, "fortran"); c.fill = geti(o, "fill", 165);
        c.race = geti(o, "race", 0); c.limit = geti(o, "limit", 100000000); c.total = geti(o, "total", 20000000000l);
        cas.digest = geti(o, "digest"); cas.timeout = geti(o, "timeout", 90);
      } else cas.ops.push_back(o);
    }
  }
  if (c.n < 1 || c.n > 64) { err = "n"; return false; }
  while ((int)c.node.size() < c.n) c.node.push_back(0);
  return true;
}

int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    personality(pers | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  libpath = argc > 1 ? argv[1] : "libext.so";
  bool verbose = argc > 2 && !strcmp(argv[2], "-v");
  signal(SIGPIPE, SIG_IGN);
  std::vector<std::string> lines;
  std::string line;
  long ncov_seen = 0;
  cov_map = (uint8_t *)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  while (std::getline(std::cin, line)) {
    if (line != "END") { lines.push_back(line); continue; }
    SimConfig c;
    std::string err;
    if (!parse(lines, c, err)) { printf("STATUS HARNESS bad case %s\nDONE\n", err.c_str()); fflush(stdout); lines.clear(); continue; }
    lines.clear();
    if (!load_libs(c.n)) { printf("STATUS HARNESS cannot load the library\nDONE\n"); fflush(stdout); continue; }
    int pp[2];
    if (pipe(pp)) return 3;
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(pp[0]);
      out_fd = pp[1];
      int nul = open("/dev/null", O_RDWR);
      dup2(nul, 0);
      if (!verbose) { dup2(nul, 1); dup2(nul, 2); }
      for (char **e = environ; *e;) { if (!strncmp(*e, "EXT_MPI_", 8)) { std::string k(*e, strcspn(*e, "=")); unsetenv(k.c_str()); e = environ; } else e++; }
      for (auto &e : cas.env) setenv(e.first.c_str(), e.second.c_str(), 1);
      fail_hook = on_fail;
      altstk = (char *)mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      stack_t ss;
      memset(&ss, 0, sizeof ss);
      ss.ss_sp = altstk;
      ss.ss_size = 1 << 18;
      sigaltstack(&ss, nullptr);
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_sigaction = on_signal;
      sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
      for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
      sim_reset(c);
      CommDef wd;
      for (int i = 0; i < c.n; i++) { wd.members.push_back(i); wd.h.push_back(MPI_COMM_WORLD); }
      comms[0] = wd;
      rslots.resize(c.n);
      sim_run(body);
      mem_check_all();
      auto keep_hook = fail_hook;
      fail_hook = nullptr;
      long lb = 0, ln = 0, lc = 0, lq = 0;
      for (int i = 0; i < c.n; i++) { lb += mem_live_bytes(i); ln += mem_live_blocks(i); lc += comm_live(i); lq += req_live(i); }
      if (cas.final) {
        fail_hook = keep_hook;
        for (int i = 0; i < c.n; i++) {
          if (comm_live(i)) fail("LEAK", "rank %d: %d communicators are left after MPI_Finalize", i, comm_live(i));
          if (req_live(i)) fail("LEAK", "rank %d: %d requests are left after MPI_Finalize", i, req_live(i));
          if (cas.final == 1 && mem_live_blocks(i)) fail("LEAK", "rank %d: %ld heap blocks (%ld bytes) are left after MPI_Finalize:%s", i, mem_live_blocks(i), mem_live_bytes(i), mem_live_sites(i).c_str());
        }
        if (shm_live()) fail("LEAK", "%d shared memory segments are left after MPI_Finalize", (int)shm_live());
        if (msgs_unmatched()) fail("LEAK", "%ld messages were never received", (long)msgs_unmatched());
        fail_hook = nullptr;
      }
      std::string s = notes + "STATUS PASS\n" + stats();
      char b[300];
      snprintf(b, sizeof b, "FINAL bytes=%ld blocks=%ld comms=%ld reqs=%ld shm=%d unmatched=%ld\n", lb, ln, lc, lq, shm_live(), msgs_unmatched());
      s += b;
      if (verbose) s += "SITES" + mem_live_sites(0) + "\n";
      emit(s);
      _exit(0);
    }
    close(pp[1]);
    std::string res;
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (;;) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      double rem = cas.timeout - (t1.tv_sec - t0.tv_sec);
      if (rem <= 0) { kill(pid, SIGKILL); res += "STATUS INCONCLUSIVE wall time\n"; break; }
      pollfd pf{pp[0], POLLIN, 0};
      int k = poll(&pf, 1, 1000);
      if (k > 0) {
        char b[65536];
        ssize_t m = read(pp[0], b, sizeof b);
        if (m <= 0) break;
        res.append(b, m);
      }
    }
    close(pp[0]);
    int ws;
    waitpid(pid, &ws, 0);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (res.find("STATUS ") == std::string::npos) {
      char b[100];
      snprintf(b, sizeof b, "STATUS FAIL DIED child ended with status %d\n", ws);
      res += b;
    }
    long nc = 0;
    for (uint32_t i = 0; i < cov_n; i++) nc += cov_map[i];
    printf("%sCOV %ld %ld of %u\nTIME %.4f\nDONE\n", res.c_str(), nc, nc - ncov_seen, cov_n, (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) * 1e-9);
    ncov_seen = nc;
    fflush(stdout);
  }
  return 0;
}
