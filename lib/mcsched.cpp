// Stateless model checking of real multi-threaded code.
//
// The harness is compiled with g++ -fsanitize=thread, which makes the compiler call a hook before every memory access of the
// library and of the harness, but it is linked with the hooks below instead of the ThreadSanitizer runtime.  Each schedule
// is executed in a forked child by real threads of which one at a time runs (so thread-local storage means what it means);
// a thread hands over only at a scheduling point.  Scheduling points are the accesses to the addresses in conflict -- those
// one thread writes and another one touches in some schedule executed so far; the set is completed by restarting the search
// whenever an execution finds a new one.  Accesses outside that set commute, so they need no scheduling point.  Locks,
// one-time initialisation and atomics are modelled (a thread waiting for one is not enabled).  Memory obtained during the
// execution comes from one arena per thread, is never reused, and is overwritten when freed.
//
// The search is depth first over the choices at the scheduling points with a preemption bound that rises from 0 (iterative
// context bounding).
#include "mcsched.h"
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <new>

using namespace sched;
namespace {
const size_t STACK = 8u << 20, ARENA = 256u << 20, TAB = 1u << 17, MAXPTS = 1u << 16, MAXPEND = 1u << 16;
struct Ent { uint64_t key; uint32_t epoch; uint8_t r, w, conf, pend; };
struct Pt { uint8_t cur, chosen, enabled, kind; };   // kind: 0 start/end/blocked (free choice), 1 access (a switch is a preemption)
struct Shared {
  Out out[MAXT];
  uint32_t npts, overflow, npend, accesses;
  uint32_t nprefix;
  int ending;
  uint8_t prefix[MAXPTS];
  Pt pt[MAXPTS];
  uint32_t pend[MAXPEND];
  uint64_t naccess;
  Ent tab[TAB];
};
Shared *S;
char *stacks[MAXT], *arenas[MAXT];
size_t used[MAXT];
uint32_t epoch = 0;

volatile int phase = 0;             // hooks active
int explore_on = 0;                 // scheduling points active
int NT = 0;
unsigned MASK = 0;
volatile int turn = -1;
enum { READY, DONE, BLOCKED };
int st_[MAXT];
const void *waits[MAXT];
unsigned samecount = 0;
__thread int tid = -1;
Body body; void *bctx;

void fwait(volatile int *a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
void fwake(volatile int *a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1 << 30, nullptr, nullptr, 0); }
void setup() {
  if (S) return;
  S = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); _exit(3); }
  for (int i = 0; i < MAXT; ++i) {
    stacks[i] = (char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arenas[i] = (char *) mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (stacks[i] == MAP_FAILED || arenas[i] == MAP_FAILED) { perror("mmap"); _exit(3); }
  }
}
void give(int t) { turn = t; fwake(&turn); }
void await(int me) { int v; while ((v = turn) != me) fwait(&turn, v); }
// choose who runs next; kind 1: the current thread could go on
void decide(int me, int kind) {
  unsigned en = 0;
  for (int i = 0; i < NT; ++i) if ((MASK >> i & 1) && st_[i] == READY) en |= 1u << i;
  if (!en) {
    for (int i = 0; i < NT; ++i) if ((MASK >> i & 1) && st_[i] == BLOCKED) { S->ending = 91; _exit(91); }
    give(-2);
    return;
  }
  int ch;
  if (!explore_on) ch = kind == 1 ? me : __builtin_ctz(en);
  else {
    uint32_t k = S->npts;
    if (k >= MAXPTS) { S->overflow = 1; ch = kind == 1 ? me : __builtin_ctz(en); }
    else {
      ch = k < S->nprefix ? S->prefix[k] : kind == 1 ? me : __builtin_ctz(en);
      if (!(en >> ch & 1)) { S->ending = 92; _exit(92); }   // the prefix does not fit: not deterministic
      S->pt[k] = Pt{(uint8_t) (me < 0 ? 255 : me), (uint8_t) ch, (uint8_t) en, (uint8_t) kind};
      S->npts = k + 1;
    }
  }
  if (ch != me) { give(ch); if (me >= 0 && st_[me] != DONE) await(me); }
}
inline void access1(uint64_t g, bool w) {
  uint64_t h = g * 0x9E3779B97F4A7C15ull;
  uint32_t i = (uint32_t) (h >> 40) & (TAB - 1);
  for (uint32_t k = 0;; ++k) {
    Ent &e = S->tab[i];
    if (e.epoch != epoch) {
      if (k > 4096) { S->overflow = 1; return; }
      e.key = g; e.epoch = epoch; e.r = e.w = e.conf = e.pend = 0;
      if (w) e.w = 1u << tid; else e.r = 1u << tid;
      return;
    }
    if (e.key == g) {
      if (w) e.w |= 1u << tid; else e.r |= 1u << tid;
      unsigned all = e.r | e.w;
      if (e.w && (all & (all - 1))) {
        if (!e.conf) { if (!e.pend && S->npend < MAXPEND) { e.pend = 1; S->pend[S->npend++] = i; } }
        else if (explore_on) decide(tid, 1);
      }
      return;
    }
    if (k > 4096) { S->overflow = 1; return; }
    i = (i + 1) & (TAB - 1);
  }
}
inline void access(const void *p, size_t n, bool w) {
  if (!explore_on || !phase || tid < 0 || !n) return;
  uintptr_t a = (uintptr_t) p, s = (uintptr_t) stacks[tid];
  if (a - s < STACK) return;                                      // its own stack and thread-local storage
  if (a - (uintptr_t) S < sizeof(Shared)) return;                 // our own books
  ++S->naccess;
  uint64_t g0 = a >> 3, g1 = (a + n - 1) >> 3;
  for (uint64_t g = g0; g <= g1; ++g) access1(g, w);
}
struct Lock { const void *p; int owner, depth, readers[MAXT]; };
Lock locks[256]; int nlocks = 0;
Lock &lockof(const void *p) {
  for (int i = 0; i < nlocks; ++i) if (locks[i].p == p) return locks[i];
  if (nlocks == 256) _exit(93);
  locks[nlocks].p = p; locks[nlocks].owner = -1; locks[nlocks].depth = 0;
  return locks[nlocks++];
}
void block(const void *p) { st_[tid] = BLOCKED; waits[tid] = p; decide(tid, 0); }
void wakeall(const void *p) { for (int i = 0; i < NT; ++i) if (st_[i] == BLOCKED && waits[i] == p) st_[i] = READY; }
bool inphase() { return phase && tid >= 0; }
void *arena(size_t n, size_t al) {
  size_t o = (used[tid] + 16 + al - 1) / al * al;
  if (o + n + 64 > ARENA) _exit(94);
  char *p = arenas[tid] + o;
  ((size_t *) p)[-1] = n;
  used[tid] = o + n;
  memset(p, 0xBE, n);
  return p;
}
int inarena(const void *p) { for (int i = 0; i < MAXT; ++i) if ((const char *) p >= arenas[i] && (const char *) p < arenas[i] + ARENA) return i; return -1; }
void *thread_main(void *a) {
  int me = (int) (intptr_t) a;
  tid = me;
  await(me);
  Out &o = S->out[me];
  try { body(me, bctx, o); o.state = 1; } catch (...) { o.state = 2; }
  tid = -1;                         // destructors of thread-local objects run after the hand-over, unobserved
  st_[me] = DONE;
  decide(me, 0);
  return nullptr;
}
}  // namespace
extern "C" {
void *__real_malloc(size_t); void __real_free(void *); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t *), __real_pthread_mutex_unlock(pthread_mutex_t *), __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *), __real_pthread_rwlock_wrlock(pthread_rwlock_t *), __real_pthread_rwlock_unlock(pthread_rwlock_t *);
int __real_pthread_once(pthread_once_t *, void (*)());
int __real___cxa_guard_acquire(uint64_t *); void __real___cxa_guard_release(uint64_t *); void __real___cxa_guard_abort(uint64_t *);
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);

void *__wrap_malloc(size_t n) { return inphase() ? arena(n, 16) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!inphase()) return __real_calloc(a, b); void *p = arena(a * b, 16); __real_memset(p, 0, a * b); return p; }
void __wrap_free(void *p) {
  if (!p) return;
  int k = inarena(p);
  if (k < 0 && !inphase()) { __real_free(p); return; }
  if (!inphase()) return;
  size_t n = k >= 0 ? ((size_t *) p)[-1] : malloc_usable_size(p);
  access(p, n, true);
  __real_memset(p, 0xDB, n);
}
void *__wrap_realloc(void *p, size_t n) {
  if (!inphase()) return __real_realloc(p, n);
  void *q = arena(n, 16);
  if (p) { size_t m = inarena(p) >= 0 ? ((size_t *) p)[-1] : malloc_usable_size(p); if (m > n) m = n; access(p, m, false); __real_memcpy(q, p, m); __wrap_free(p); }
  return q;
}
int __wrap_posix_memalign(void **r, size_t al, size_t n) { if (!inphase()) return __real_posix_memalign(r, al, n); *r = arena(n, al < 16 ? 16 : al); return 0; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return inphase() ? arena(n, al < 16 ? 16 : al) : __real_aligned_alloc(al, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (inphase()) { access(s, n, false); access(d, n, true); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (inphase()) { access(s, n, false); access(d, n, true); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (inphase()) access(d, n, true); return __real_memset(d, c, n); }

static int lock_ex(const void *p, bool tr) {
  for (;;) {
    access(p, 1, true);
    Lock &l = lockof(p);
    bool rd = false; for (int i = 0; i < MAXT; ++i) if (i != tid && l.readers[i]) rd = true;
    if (!rd && (l.owner < 0 || l.owner == tid)) { l.owner = tid; ++l.depth; return 0; }
    if (tr) return EBUSY;
    block(p);
  }
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return inphase() ? lock_ex(m, false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return inphase() ? lock_ex(m, true) : __real_pthread_mutex_trylock(m); }
static int unlock(const void *p) { Lock &l = lockof(p); if (l.owner == tid) { if (--l.depth == 0) l.owner = -1; } else if (l.readers[tid]) --l.readers[tid]; wakeall(p); access(p, 1, true); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return inphase() ? unlock(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return inphase() ? lock_ex(m, false) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  if (!inphase()) return __real_pthread_rwlock_rdlock(m);
  for (;;) { access(m, 1, true); Lock &l = lockof(m); if (l.owner < 0) { ++l.readers[tid]; return 0; } block(m); }
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { return inphase() ? unlock(m) : __real_pthread_rwlock_unlock(m); }
// one-time initialisation: byte 0 = done (the ABI's meaning), byte 1 = under way
int __wrap___cxa_guard_acquire(uint64_t *g) {
  if (!inphase()) return __real___cxa_guard_acquire(g);
  volatile char *c = (volatile char *) g;
  for (;;) {
    access(g, 1, true);
    if (c[0]) return 0;
    if (!c[1]) { c[1] = 1; return 1; }
    block(g);
  }
}
void __wrap___cxa_guard_release(uint64_t *g) { if (!inphase()) { __real___cxa_guard_release(g); return; } volatile char *c = (volatile char *) g; c[1] = 0; c[0] = 1; wakeall(g); access(g, 1, true); }
void __wrap___cxa_guard_abort(uint64_t *g) { if (!inphase()) { __real___cxa_guard_abort(g); return; } volatile char *c = (volatile char *) g; c[1] = 0; wakeall(g); access(g, 1, true); }
int __wrap_pthread_once(pthread_once_t *o, void (*f)()) {
  if (!inphase()) return __real_pthread_once(o, f);
  volatile int *v = (volatile int *) o;                             // 0 fresh, 2 done (glibc), 1 under way
  for (;;) {
    access(o, 4, true);
    if (*v == 2) return 0;
    if (*v == 0) { *v = 1; try { f(); } catch (...) { *v = 0; wakeall(o); throw; } *v = 2; wakeall(o); access(o, 4, true); return 0; }
    block(o);
  }
}

#define RW(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true); } \
  void __tsan_read_write##n(void *p) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true); }
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
static void spin() {   // a thread that only polls gives way
  if (inphase() && explore_on && ++samecount > 2000) { samecount = 0; for (int i = 1; i < NT; ++i) { int k = (tid + i) % NT; if ((MASK >> k & 1) && st_[k] == READY) { int me = tid; give(k); await(me); break; } } }
}
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *a, int) { access((const void *) a, sizeof(T), false); spin(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true); spin(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int) { access((const void *) a, sizeof(T), true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { access((const void *) a, sizeof(T), true); spin(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { access((const void *) a, sizeof(T), true); spin(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int, int) { access((const void *) a, sizeof(T), true); spin(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
void *operator new(size_t n) { void *p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return __wrap_malloc(n ? n : 1); }
void *operator new(size_t n, std::align_val_t a) { void *p = nullptr; if (__wrap_posix_memalign(&p, (size_t) a, n ? n : 1)) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { __wrap_free(p); }

namespace {
Result execute(int n, unsigned mask, Body b, void *ctx, bool points) {
  for (int i = 0; i < MAXT; ++i) { S->out[i].n = 0; S->out[i].state = 0; }
  S->npts = S->overflow = S->npend = 0; S->naccess = 0; S->ending = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(3); }
  if (pid == 0) {
    int d = open("/dev/null", O_WRONLY);
    dup2(d, 1); dup2(d, 2);
    alarm(60);
    NT = n; MASK = mask; body = b; bctx = ctx; explore_on = points; turn = -1;
    for (int i = 0; i < n; ++i) st_[i] = mask >> i & 1 ? READY : DONE;
    pthread_t th[MAXT];
    for (int i = 0; i < n; ++i) if (mask >> i & 1) {
      pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, stacks[i], STACK);
      if (pthread_create(&th[i], &at, thread_main, (void *) (intptr_t) i)) _exit(95);
    }
    phase = 1;
    decide(-1, 0);
    await(-2);
    phase = 0;
    _exit(200);
  }
  int w = 0;
  while (waitpid(pid, &w, 0) < 0) {}
  Result r;
  if (WIFSIGNALED(w)) { r.ending = 1000 + WTERMSIG(w); r.what = WTERMSIG(w) == SIGALRM ? "no answer" : std::string("killed by signal ") + std::to_string(WTERMSIG(w)); }
  else if (WEXITSTATUS(w) == 91 && S->ending == 91) { r.ending = 91; r.what = "deadlock"; }
  else if (WEXITSTATUS(w) == 92 && S->ending == 92) { r.ending = 92; r.what = "schedule not reproducible"; }
  else if (WEXITSTATUS(w) != 200) { r.ending = 2000 + WEXITSTATUS(w); r.what = "process ended with status " + std::to_string(WEXITSTATUS(w)); }
  for (int i = 0; i < n; ++i) { r.state[i] = S->out[i].state; uint32_t k = S->out[i].n < MAXOUT ? S->out[i].n : (uint32_t) MAXOUT; r.v[i].assign(S->out[i].v, S->out[i].v + k); }
  return r;
}
}
Result sched::Alone(unsigned mask, Body b, void *ctx) {
  setup();
  if (++epoch == 0) epoch = 1;
  return execute(MAXT, mask, b, ctx, false);
}
bool sched::ExploreImpl(int n, Body b, void *ctx, int bound, uint64_t cap, Judge &j, Stats &st, std::string *bad) {
  setup();
  if (++epoch == 0) epoch = 1;
  unsigned mask = (1u << n) - 1;
  st = Stats();
  int pb = 0;
restart:
  // frontier of prefixes still to be executed at the current preemption bound
  std::vector<std::vector<uint8_t>> todo(1);
  while (true) {
    if (todo.empty()) { if (pb >= bound || st.conflicts == 0) { st.bound = bound; return true; } ++pb; todo.resize(1); }
    std::vector<uint8_t> pre = todo.back();
    todo.pop_back();
    if (st.schedules >= cap) { st.capped = true; st.bound = pb - 1; return true; }
    S->nprefix = (uint32_t) pre.size();
    if (!pre.empty()) memcpy(S->prefix, pre.data(), pre.size());
    Result r = execute(n, mask, b, ctx, true);
    ++st.schedules;
    st.points += S->npts; st.accesses += S->naccess;
    if (S->npts > st.maxpoints) st.maxpoints = S->npts;
    if (r.ending != 92 && !j.ok(r)) {
      if (bad) {
        std::string s;
        int last = -1; unsigned run = 0;
        for (uint32_t i = 0; i < S->npts; ++i) { int c = S->pt[i].chosen; if (c == last) ++run; else { if (last >= 0) s += " T" + std::to_string(last) + "x" + std::to_string(run); last = c; run = 1; } }
        if (last >= 0) s += " T" + std::to_string(last) + "x" + std::to_string(run);
        *bad = "schedule (thread x scheduling points):" + s + (r.ending ? "; " + r.what : "");
      }
      return false;
    }
    if (S->npend) {     // new addresses in conflict: more scheduling points; start again
      for (uint32_t i = 0; i < S->npend; ++i) S->tab[S->pend[i]].conf = 1;
      st.conflicts += S->npend;
      ++st.restarts;
      pb = 0;
      goto restart;
    }
    if (r.ending == 92 || S->overflow) st.capped = true;
    // alternatives at the points after the prefix
    int used_p = 0;
    std::vector<uint8_t> path;
    for (uint32_t i = 0; i < S->npts; ++i) {
      const Pt &p = S->pt[i];
      if (i >= pre.size())
        for (int t = 0; t < n; ++t) if (t != p.chosen && (p.enabled >> t & 1)) {
          int cost = used_p + (p.kind == 1 && t != p.cur ? 1 : 0);
          if (cost <= pb) { auto q = path; q.push_back((uint8_t) t); todo.push_back(q); }
        }
      if (p.kind == 1 && p.chosen != p.cur) ++used_p;
      path.push_back(p.chosen);
    }
  }
}
