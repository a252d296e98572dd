// See simsched.h. Compiled without instrumentation.
#include "simsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <unistd.h>

using u8 = std::uint8_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using uptr = std::uintptr_t;

namespace {
const int N = sched::kMaxThreads;

struct VC { u32 c[N]; };
inline void join(VC &a, const VC &b) { for (int i = 0; i < N; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

// ---- shadow memory: one cell per 8 bytes
struct Cell {
  u32 wclk;
  u8 wtid; // thread + 1
  u8 wmask, watomic, freed;
  u32 rclk[N];
  u8 rmask[N];
  u8 ratomic;
  u8 ignore; // exception objects: their lifetime is managed inside libstdc++
};
const int kCells = 64; // per page of 512 bytes
struct Page { u64 key; u32 gen; Cell cells[kCells]; };
const u32 kPages = 1u << 18;
Page **table;     // open addressing by key
u32 *tableGen;
char *pool;       // of Page
std::size_t poolUsed, poolSize;
u32 gen = 1;

// ---- release clocks of synchronisation addresses
struct Sync { uptr addr; u32 gen; VC vc; };
const u32 kSyncs = 1u << 16;
Sync *syncs;
u32 syncsUsed;

struct Fiber {
  void *sp;
  char *stack;
  int id;
  bool done;
  const void *waiting; // guard or mutex
  void *eh[2];
  VC vc, acqFence, relFence;
};
Fiber fibers[N];
void *mainSp;
void *mainEh[2];
int nFibers, cur = -1;
bool active;
int quiet;
sched::Options opts;
sched::Body body_;
void *arg_;
sched::Stats st;
long countdown;
u32 fineLeft;
const std::size_t kStack = 1u << 20;

[[noreturn]] void report(const char *cls, const char *msg) {
  active = false;
  quiet = 1;
  opts.report(cls, msg);
  _exit(96);
}

const char *where(void *pc, char *buf, std::size_t n) {
  Dl_info i;
  if (dladdr(pc, &i) && i.dli_sname) { snprintf(buf, n, "%.300s", i.dli_sname); return buf; }
  return "?";
}

void *mapMem(std::size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) _exit(95);
  return p;
}

void init() {
  if (table) return;
  table = static_cast<Page **>(mapMem(kPages * sizeof(Page *)));
  poolSize = std::size_t(1) << 29;
  pool = static_cast<char *>(mapMem(poolSize));
  syncs = static_cast<Sync *>(mapMem(kSyncs * sizeof(Sync)));
  for (auto &f : fibers) f.stack = static_cast<char *>(mapMem(kStack));
}

inline u32 hashKey(u64 k) { k *= 0x9E3779B97F4A7C15ULL; return static_cast<u32>(k >> 40); }

Page *lastPage;
Page *pageOf(uptr a) {
  u64 key = a >> 9;
  if (lastPage && lastPage->key == key && lastPage->gen == gen) return lastPage;
  u32 h = hashKey(key) & (kPages - 1);
  for (u32 i = 0; i < kPages; i++) {
    Page *&p = table[(h + i) & (kPages - 1)];
    if (!p) {
      if (poolUsed + sizeof(Page) > poolSize) _exit(94);
      p = reinterpret_cast<Page *>(pool + poolUsed);
      poolUsed += sizeof(Page);
      p->key = key;
      p->gen = gen;
      return lastPage = p;
    }
    if (p->key == key) {
      if (p->gen != gen) { memset(p->cells, 0, sizeof p->cells); p->gen = gen; }
      return lastPage = p;
    }
  }
  _exit(93);
}

[[noreturn]] void race(const char *what, uptr, bool isWrite, bool isAtomic, int other, bool otherWrite, void *pc) {
  char b[400], m[1000];
  snprintf(m, sizeof m, "%s: %s%s by thread %d in %s is not ordered with an earlier %s by thread %d", what, isAtomic ? "atomic " : "", isWrite ? "write" : "read", cur, where(pc, b, sizeof b), otherWrite ? "write" : "read", other);
  report("data-race", m);
}

void checkCell(Cell &c, u8 mask, bool isWrite, bool isAtomic, bool isFree, void *pc, uptr a) {
  if (c.ignore) return;
  VC &vc = fibers[cur].vc;
  if (c.freed & mask) {
    char b[400], m[700];
    snprintf(m, sizeof m, "%s of memory that was freed, by thread %d in %s", isWrite ? "write" : "read", cur, where(pc, b, sizeof b));
    report("use-after-free", m);
  }
  const char *what = isFree ? "deallocation" : "access";
  if (c.wtid && c.wtid - 1 != cur && (c.wmask & mask) && c.wclk > vc.c[c.wtid - 1] && !(isAtomic && c.watomic))
    race(what, a, isWrite, isAtomic, c.wtid - 1, true, pc);
  if (isWrite) {
    for (int t = 0; t < nFibers; t++)
      if (t != cur && (c.rmask[t] & mask) && c.rclk[t] > vc.c[t] && !(isAtomic && (c.ratomic >> t & 1)))
        race(what, a, isWrite, isAtomic, t, false, pc);
    c.wtid = static_cast<u8>(cur + 1);
    c.wclk = vc.c[cur];
    c.wmask = mask;
    c.watomic = isAtomic;
  } else {
    u8 bit = static_cast<u8>(1u << cur);
    if (c.rclk[cur] == vc.c[cur] && ((c.ratomic & bit) != 0) == isAtomic) c.rmask[cur] |= mask;
    else {
      // Keep a plain read rather than an atomic one of the same epoch.
      if (c.rclk[cur] == vc.c[cur] && isAtomic) return;
      c.rclk[cur] = vc.c[cur];
      c.rmask[cur] = mask;
      c.ratomic = static_cast<u8>(isAtomic ? c.ratomic | bit : c.ratomic & ~bit);
    }
  }
}

void touch(uptr a, std::size_t n, bool isWrite, bool isAtomic, bool isFree, void *pc) {
  while (n) {
    unsigned off = a & 7;
    unsigned k = 8 - off < n ? 8 - off : static_cast<unsigned>(n);
    u8 mask = static_cast<u8>(((1u << k) - 1) << off);
    checkCell(pageOf(a)->cells[(a >> 3) & (kCells - 1)], mask, isWrite, isAtomic, isFree, pc, a);
    a += k;
    n -= k;
  }
}

void eachCell(uptr a, std::size_t n, bool freed, bool ignore = false) {
  uptr end = a + n;
  for (a &= ~uptr(7); a < end; a += 8) {
    Cell &c = pageOf(a)->cells[(a >> 3) & (kCells - 1)];
    memset(&c, 0, sizeof c);
    if (freed) c.freed = 0xff;
    c.ignore = ignore;
  }
}

// ---- fibers
extern "C" void sched_switch(void **from, void *to);
asm(R"(
.text
.globl sched_switch
.type sched_switch,@function
sched_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sched_switch,.-sched_switch
)");
extern "C" void *__cxa_get_globals();

void swapEh(void **out, void **in) {
  void **g = static_cast<void **>(__cxa_get_globals());
  out[0] = g[0]; out[1] = g[1];
  g[0] = in[0]; g[1] = in[1];
}

void switchTo(int next) {
  int old = cur;
  if (next == old) return;
  st.switches++;
  void **fromSp = old < 0 ? &mainSp : &fibers[old].sp;
  void **fromEh = old < 0 ? mainEh : fibers[old].eh;
  void *toSp = next < 0 ? mainSp : fibers[next].sp;
  void **toEh = next < 0 ? mainEh : fibers[next].eh;
  cur = next;
  swapEh(fromEh, toEh);
  sched_switch(fromSp, toSp);
}

u32 draw(u32 n, const char *label) {
  quiet++;
  u32 r = opts.decide(n, label);
  quiet--;
  return r;
}

void drawCountdown() {
  // How many accesses until the next decision.
  int scale;
  switch (opts.mode) {
  case 0: countdown = 1L << 60; return; // only when a thread ends or blocks
  case 1: scale = 3; break;
  case 2: scale = 2; break;
  case 3: scale = 1; break;
  default: scale = static_cast<int>(draw(4, "")); break;
  }
  static const u32 span[] = {4, 40, 600, 8000};
  if (scale < 2 && fineLeft) fineLeft--; else if (scale < 2) scale = 2;
  countdown = 1 + static_cast<long>(draw(span[scale], ""));
}

// Another runnable fiber, or -1.
int pickOther(bool mayStay) {
  int can[N], n = 0;
  for (int i = 0; i < nFibers; i++)
    if (!fibers[i].done && !fibers[i].waiting && (mayStay || i != cur)) can[n++] = i;
  if (!n) return -1;
  return can[draw(static_cast<u32>(n), "thread")];
}

void preempt() {
  int next = pickOther(true);
  drawCountdown();
  if (next >= 0) switchTo(next);
}

void block(const void *on) {
  fibers[cur].waiting = on;
  int next = pickOther(false);
  if (next < 0) report("deadlock", "every simulated thread waits for another one");
  switchTo(next);
}
void wake(const void *on) {
  for (int i = 0; i < nFibers; i++) if (fibers[i].waiting == on) fibers[i].waiting = nullptr;
}

void fiberMain() {
  int me = cur;
  body_(arg_, me);
  fibers[me].done = true;
  int next = pickOther(false);
  if (next < 0)
    for (int i = 0; i < nFibers; i++) if (!fibers[i].done) report("deadlock", "a simulated thread waits for a thread that ended");
  switchTo(next);
  _exit(92);
}

inline bool on() { return active && cur >= 0 && !quiet; }

void access(void *a, std::size_t n, bool isWrite, void *pc) {
  if (!on()) return;
  st.accesses++;
  if (--countdown <= 0) preempt();
  touch(reinterpret_cast<uptr>(a), n, isWrite, false, false, pc);
}

Sync &syncOf(uptr a) {
  u32 h = hashKey(a) & (kSyncs - 1);
  for (u32 i = 0; i < kSyncs; i++) {
    Sync &s = syncs[(h + i) & (kSyncs - 1)];
    if (s.gen != gen) {
      if (++syncsUsed > kSyncs / 2) { fprintf(stderr, "sched: too many atomics\n"); _exit(91); }
      s.gen = gen;
      s.addr = a;
      memset(&s.vc, 0, sizeof s.vc);
      return s;
    }
    if (s.addr == a) return s;
  }
  _exit(91);
}

bool isAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool isRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

void acquire(uptr a, int mo) {
  Fiber &f = fibers[cur];
  Sync &s = syncOf(a);
  if (isAcq(mo)) join(f.vc, s.vc); else join(f.acqFence, s.vc);
}
void release(uptr a, int mo, bool rmw) {
  Fiber &f = fibers[cur];
  Sync &s = syncOf(a);
  if (!rmw) memset(&s.vc, 0, sizeof s.vc); // a plain store heads a new release sequence
  if (isRel(mo)) { join(s.vc, f.vc); f.vc.c[cur]++; }
  else join(s.vc, f.relFence);
}
// Before the operation: preemption and race check.
bool atomicPre(const volatile void *a, std::size_t n, bool isWrite, void *pc) {
  if (!on()) return false;
  st.atomics++;
  // Atomic operations are where lost updates hide: more decisions here.
  if (opts.mode && (countdown -= opts.mode >= 3 ? 8 : 40) <= 0) preempt();
  touch(reinterpret_cast<uptr>(a), n, isWrite, true, false, pc);
  return true;
}

// ---- heap
struct Block { u64 magic; u64 size; Block *next, *base; };
const u64 kLive = 0x11aa22bb33cc44ddULL, kFreed = 0xfeedfeedfeedfeedULL;
Block *quarantine;
std::size_t liveB, liveN, quarantined;

void *allocate(std::size_t n, std::size_t align) {
  if (align < 32) align = 32;
  std::size_t head = align > sizeof(Block) ? align : sizeof(Block);
  char *p = static_cast<char *>(aligned_alloc(align, (head + (n ? n : 1) + align - 1) / align * align));
  if (!p) return nullptr;
  char *u = p + head;
  Block *b = reinterpret_cast<Block *>(u) - 1;
  b->magic = kLive;
  b->size = n;
  b->next = nullptr;
  b->base = reinterpret_cast<Block *>(p);
  liveB += n;
  liveN++;
  if (active && cur >= 0) eachCell(reinterpret_cast<uptr>(u), n, false);
  return u;
}
void deallocate(void *u, void *pc) {
  if (!u) return;
  Block *b = static_cast<Block *>(u) - 1;
  if (b->magic != kLive) {
    if (opts.report) {
      char f[400], m[600];
      snprintf(m, sizeof m, "%s by thread %d in %s", b->magic == kFreed ? "deallocated a second time" : "not allocated or overwritten", cur, where(pc, f, sizeof f));
      report(b->magic == kFreed ? "double-free" : "bad-free", m);
    }
    _exit(90);
  }
  if (on()) touch(reinterpret_cast<uptr>(u), b->size, true, false, true, pc);
  b->magic = kFreed;
  liveB -= b->size;
  liveN--;
  if (active && cur >= 0) eachCell(reinterpret_cast<uptr>(u), b->size, true);
  if (opts.report && quarantined < (256u << 20)) {
    quarantined += b->size + 64;
    memset(u, 0xDF, b->size);
    b->next = quarantine;
    quarantine = b;
  } else {
    free(b->base);
  }
}

} // namespace

namespace sched {

Quiet::Quiet() { quiet++; }
Quiet::~Quiet() { quiet--; }

void Mutex::lock() {
  if (cur < 0) return;
  while (m_owner >= 0) block(this);
  m_owner = cur;
  join(fibers[cur].vc, syncOf(reinterpret_cast<uptr>(this)).vc);
}
void Mutex::unlock() {
  if (cur < 0) return;
  m_owner = -1;
  Sync &s = syncOf(reinterpret_cast<uptr>(this));
  join(s.vc, fibers[cur].vc);
  fibers[cur].vc.c[cur]++;
  wake(this);
  if (opts.mode) preempt();
}

void run(const Options &o, int n, Body body, void *arg) {
  init();
  __libc_single_threaded = 0;
  opts = o;
  body_ = body;
  arg_ = arg;
  nFibers = n;
  gen++;
  syncsUsed = 0;
  lastPage = nullptr;
  memset(&st, 0, sizeof st);
  fineLeft = 20000;
  for (int i = 0; i < n; i++) {
    Fiber &f = fibers[i];
    f.id = i;
    f.done = false;
    f.waiting = nullptr;
    f.eh[0] = f.eh[1] = nullptr;
    memset(&f.vc, 0, sizeof f.vc);
    memset(&f.acqFence, 0, sizeof f.acqFence);
    memset(&f.relFence, 0, sizeof f.relFence);
    f.vc.c[i] = 1;
    void **sp = reinterpret_cast<void **>(f.stack + kStack - 64);
    *--sp = nullptr;                                   // return address of fiberMain
    *--sp = reinterpret_cast<void *>(&fiberMain);
    for (int k = 0; k < 6; k++) *--sp = nullptr;       // saved registers
    --sp;
    u32 mxcsr = 0x1f80; unsigned short cw = 0x37f;
    memcpy(sp, &mxcsr, 4);
    memcpy(reinterpret_cast<char *>(sp) + 4, &cw, 2);
    f.sp = sp;
  }
  active = true;
  cur = -1;
  quiet = 0;
  drawCountdown();
  int first = pickOther(true);
  switchTo(first);
  active = false;
  cur = -1;
}

Stats stats() { return st; }
std::size_t liveBytes() { return liveB; }
std::size_t liveBlocks() { return liveN; }
void endRun() {
  while (quarantine) {
    Block *b = quarantine;
    quarantine = b->next;
    free(b->base);
  }
  quarantined = 0;
}

} // namespace sched

// ---- operator new and delete
void *operator new(std::size_t n) { if (void *p = allocate(n, 0)) return p; throw std::bad_alloc(); }
void *operator new[](std::size_t n) { if (void *p = allocate(n, 0)) return p; throw std::bad_alloc(); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return allocate(n, 0); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return allocate(n, 0); }
#define PC __builtin_return_address(0)
void operator delete(void *p) noexcept { deallocate(p, PC); }
void operator delete[](void *p) noexcept { deallocate(p, PC); }
void operator delete(void *p, std::size_t) noexcept { deallocate(p, PC); }
void operator delete[](void *p, std::size_t) noexcept { deallocate(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { deallocate(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { deallocate(p, PC); }

extern "C" void *__cxa_allocate_exception(std::size_t n) noexcept {
  static void *(*real)(std::size_t);
  if (!real) real = reinterpret_cast<void *(*)(std::size_t)>(dlsym(RTLD_NEXT, "__cxa_allocate_exception"));
  void *p = real(n);
  if (active && cur >= 0) eachCell(reinterpret_cast<uptr>(p), n, false, true);
  return p;
}

// ---- initialisation of function local statics
extern "C" int __cxa_guard_acquire(u64 *g) {
  u8 *b = reinterpret_cast<u8 *>(g);
  if (!active || cur < 0) {
    if (b[0]) return 0;
    return 1;
  }
  for (;;) {
    if (b[0]) { join(fibers[cur].vc, syncOf(reinterpret_cast<uptr>(g)).vc); return 0; }
    if (!b[1]) { b[1] = static_cast<u8>(cur + 1); return 1; }
    if (b[1] == cur + 1) report("recursive-init", "recursive initialisation of a static");
    block(g);
  }
}
extern "C" void __cxa_guard_release(u64 *g) {
  u8 *b = reinterpret_cast<u8 *>(g);
  b[0] = 1;
  b[1] = 0;
  if (!active || cur < 0) return;
  Sync &s = syncOf(reinterpret_cast<uptr>(g));
  join(s.vc, fibers[cur].vc);
  fibers[cur].vc.c[cur]++;
  wake(g);
}
extern "C" void __cxa_guard_abort(u64 *g) {
  reinterpret_cast<u8 *>(g)[1] = 0;
  if (active && cur >= 0) wake(g);
}

// ---- what the instrumentation calls
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(S) \
  void __tsan_read##S(void *a) { access(a, S, false, PC); } \
  void __tsan_write##S(void *a) { access(a, S, true, PC); } \
  void __tsan_unaligned_read##S(void *a) { access(a, S, false, PC); } \
  void __tsan_unaligned_write##S(void *a) { access(a, S, true, PC); } \
  void __tsan_volatile_read##S(void *a) { access(a, S, false, PC); } \
  void __tsan_volatile_write##S(void *a) { access(a, S, true, PC); } \
  void __tsan_unaligned_volatile_read##S(void *a) { access(a, S, false, PC); } \
  void __tsan_unaligned_volatile_write##S(void *a) { access(a, S, true, PC); } \
  void __tsan_read_write##S(void *a) { access(a, S, false, PC); access(a, S, true, PC); } \
  void __tsan_unaligned_read_write##S(void *a) { access(a, S, false, PC); access(a, S, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) access(a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { if (n) access(a, n, true, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
  if (n) { access(const_cast<void *>(s), n, false, PC); access(d, n, true, PC); }
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
  if (n) { access(const_cast<void *>(s), n, false, PC); access(d, n, true, PC); }
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, unsigned long n) {
  if (n) access(d, n, true, PC);
  return memset(d, c, n);
}

#define ATOMIC(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int mo) { \
    bool o = atomicPre(a, sizeof(T), false, PC); \
    T r = *a; \
    if (o) acquire(reinterpret_cast<uptr>(a), mo); \
    return r; \
  } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int mo) { \
    if (atomicPre(a, sizeof(T), true, PC)) release(reinterpret_cast<uptr>(a), mo, false); \
    *a = v; \
  } \
  RMW(B, T, exchange, v) RMW(B, T, fetch_add, static_cast<T>(r + v)) RMW(B, T, fetch_sub, static_cast<T>(r - v)) \
  RMW(B, T, fetch_and, static_cast<T>(r & v)) RMW(B, T, fetch_or, static_cast<T>(r | v)) RMW(B, T, fetch_xor, static_cast<T>(r ^ v)) \
  RMW(B, T, fetch_nand, static_cast<T>(~(r & v))) \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
    bool o = atomicPre(a, sizeof(T), true, PC); \
    T r = *a; \
    if (r == *c) { \
      if (o) { acquire(reinterpret_cast<uptr>(a), mo); release(reinterpret_cast<uptr>(a), mo, true); } \
      *a = v; \
      return 1; \
    } \
    if (o) acquire(reinterpret_cast<uptr>(a), fmo); \
    *c = r; \
    return 0; \
  } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, mo, fmo); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
#define RMW(B, T, NAME, EXPR) \
  T __tsan_atomic##B##_##NAME(volatile T *a, T v, int mo) { \
    if (atomicPre(a, sizeof(T), true, PC)) { acquire(reinterpret_cast<uptr>(a), mo); release(reinterpret_cast<uptr>(a), mo, true); } \
    T r = *a; \
    (void)r; \
    *a = EXPR; \
    return r; \
  }
ATOMIC(8, u8) ATOMIC(16, std::uint16_t) ATOMIC(32, u32) ATOMIC(64, u64)
void __tsan_atomic_thread_fence(int mo) {
  if (!on()) return;
  Fiber &f = fibers[cur];
  if (isAcq(mo)) join(f.vc, f.acqFence);
  if (isRel(mo)) { f.relFence = f.vc; f.vc.c[cur]++; }
}
void __tsan_atomic_signal_fence(int) {}
}
