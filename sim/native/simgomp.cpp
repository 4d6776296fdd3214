// simgomp: a deterministic OpenMP runtime (libgomp ABI) for simulation.
//
// A parallel region runs its whole team as fibers on the calling OS thread.
// Every instrumented memory access (the __tsan_* callbacks emitted by
// -fsanitize=thread, implemented here), atomic, lock, barrier and work-share
// request is a preemption point where a seeded scheduler picks who runs next.
// A vector-clock happens-before race detector watches every access.  The team
// size, the hand-out of loop chunks and stalls of single members are drawn
// from the same seed, so one seed is one exactly repeatable execution.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <pthread.h>
#include <string>
#include <sys/mman.h>
#include <unordered_map>
#include <vector>

#define API extern "C" __attribute__((visibility("default")))
typedef uint64_t u64;
typedef uint32_t u32;

static const int MAXT = 64;

struct Rng {
  u64 s;
  u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

typedef std::vector<u32> VC;
static void vjoin(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }

struct Entry { unsigned char tid, mask, kind; u32 clk; void *pc; }; // kind: 1 write, 2 atomic
struct Loop { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int kind = 0; bool up = true; bool ull = false; int done = 0; long ordered_next = 0; };
struct Region {
  int n; void (*fn)(void *); void *data;
  int bar_count; u64 bar_gen;
  std::map<u64, Loop> loops;        // by work-share sequence number
  std::map<u64, int> singles;       // who won
  std::map<u64, void *> copypriv;
  std::map<u64, long> sections;
};
struct Fiber {
  void *sp = nullptr; char *stack = nullptr; int state = 0; // 0 runnable 1 blocked 2 done
  int tid = 0; u64 wsnum = 0; u64 cur = 0; long stat_done = 0; VC vc; u64 wait_gen = 0; int wait_kind = 0; const void *wait_obj = nullptr; int prio = 0;
  long sec_cur = 0;
};
struct Lock { int owner = -1; int depth = 0; VC vc; };

static bool enabled = false;      // simulation configured
static Region *R = nullptr;       // active region, null outside
static std::vector<Fiber> F;
static int cur = -1;
static void *main_sp;
static Rng rng;
static double p_switch; static int policy, team_mode; static int stalled = -1;
static u64 steps, switches, regions, max_steps, trace_hash, atomics_n, teams_shrunk, stalls_n, rmw_preempt, accesses;
static int last_access_write; static bool detect;
static std::unordered_map<u64, std::vector<Entry>> shadow;
static std::map<const void *, Lock> locks;
static std::map<const void *, VC> atomvc;
static char race_msg[1024]; static int races; static char fatal_msg[512]; static int fatals;
static int nthreads_icv = 4; static int dyn_icv = 0;
static std::vector<u64> pct_points; static u64 max_team_seen;
static std::string sched_log; static bool keep_log;

static void mixhash(u64 v) { trace_hash = (trace_hash ^ v) * 0x100000001b3ULL; trace_hash ^= trace_hash >> 29; }

#if !defined(__x86_64__)
#error "x86-64 only"
#endif
extern "C" void simgomp_switch(void **save, void *load);
asm(R"(
.text
.globl simgomp_switch
.hidden simgomp_switch
.type simgomp_switch,@function
simgomp_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size simgomp_switch,.-simgomp_switch
)");

static void fatal(const char *m) { if (!fatals++) snprintf(fatal_msg, sizeof fatal_msg, "%s", m); }

static void switch_to(int t)
{
  int from = cur; if (t == from) return;
  cur = t; switches++; mixhash(((u64)t << 56) ^ steps);
  if (keep_log && sched_log.size() < (1u << 20)) { char b[48]; snprintf(b, sizeof b, "%llu:%d ", (unsigned long long)steps, t); sched_log += b; }
  void **save = from < 0 ? &main_sp : &F[from].sp;
  void *load = t < 0 ? main_sp : F[t].sp;
  simgomp_switch(save, load);
}

static int pick(bool allow_cur)
{
  int c[MAXT], n = 0;
  for (int i = 0; i < R->n; i++) if (F[i].state == 0 && (allow_cur || i != cur)) c[n++] = i;
  if (n == 0) return -2;
  if (stalled >= 0 && n > 1) { int k = 0; for (int i = 0; i < n; i++) if (c[i] != stalled) c[k++] = c[i]; n = k; }
  if (policy == 2) { int b = c[0]; for (int i = 1; i < n; i++) if (F[c[i]].prio > F[b].prio) b = c[i]; return b; }
  return c[rng.below(n)];
}
static void point(bool strong)
{
  if (!R || cur < 0) return;
  steps++;
  if (steps > max_steps) { if (steps == max_steps + 1) fatal("step limit exceeded (no progress)"); return; }
  if (policy == 2) {
    for (u64 q : pct_points) if (q == steps) { F[cur].prio = -(int)(steps & 0xffffff); }
    int t = pick(true); if (t >= 0) switch_to(t);
    return;
  }
  double p = strong ? (p_switch < 0.5 ? 0.5 : p_switch) : p_switch;
  if (policy == 1 && !strong) return;      // run to the next synchronisation
  if (rng.uni() < p) { int t = pick(true); if (t >= 0 && t != cur) { if (!strong && !last_access_write) rmw_preempt++; switch_to(t); } }
}
static void block_until_scheduled()
{
  int t = pick(false);
  if (t == -2) {
    // nobody else can run: a deadlock, unless everybody is done
    bool alldone = true; for (int i = 0; i < R->n; i++) if (F[i].state != 2) alldone = false;
    if (!alldone) { fatal("deadlock: every team member is blocked"); for (int i = 0; i < R->n; i++) if (F[i].state == 1) F[i].state = 0; t = pick(false); }
    if (t < 0) { switch_to(-1); return; }
  }
  switch_to(t);
}

static void fiber_main()
{
  for (;;) {
    R->fn(R->data);
    F[cur].state = 2;
    block_until_scheduled(); // never returns for a finished fiber
  }
}
static const size_t STK = 1 << 18;
static void prep(Fiber &f)
{
  if (!f.stack) f.stack = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  u64 *sp = (u64 *)(f.stack + STK - 64);
  *--sp = 0;                       // fake return address keeps alignment
  *--sp = (u64)(void *)fiber_main; // ret target
  for (int i = 0; i < 6; i++) *--sp = 0;
  --sp; u32 mx; unsigned short cw; asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
  ((u32 *)sp)[0] = mx; ((u32 *)sp)[1] = cw;
  f.sp = sp;
}

static void run_region(void (*fn)(void *), void *data, unsigned want, const Loop *pre = nullptr)
{
  if (R || !enabled) { // nested region or no simulation: one thread, in place
    if (!R) { // outside simulation: serial team of one
      Region r; r.n = 1; r.fn = fn; r.data = data; r.bar_count = 0; r.bar_gen = 0; if (pre) r.loops[1] = *pre;
      R = &r; F.resize(F.size() < 1 ? 1 : F.size()); int sc = cur; F[0].state = 0; F[0].wsnum = 0; F[0].cur = 0; F[0].stat_done = 0; cur = -1; if (pre) { F[0].cur = F[0].wsnum = 1; } fn(data); R = nullptr; cur = sc; return;
    }
    Region *save = R; Region r; r.n = 1; r.fn = fn; r.data = data; r.bar_count = 0; r.bar_gen = 0; if (pre) r.loops[1] = *pre;
    u64 sw = F[cur < 0 ? 0 : cur].wsnum, sc = F[cur < 0 ? 0 : cur].cur; int me = cur; Fiber &f = F[me < 0 ? 0 : me];
    // run the nested region without preemption: team members are not modelled
    R = &r; int keep = cur; f.wsnum = 0; f.cur = 0; if (pre) f.cur = f.wsnum = 1; cur = -1; int oldtid = 0; (void)oldtid; fn(data); cur = keep; R = save; f.wsnum = sw; f.cur = sc; return;
  }
  if (want > 100000) { char m[96]; snprintf(m, sizeof m, "a team of %u threads is requested, which no system can start", want); fatal(m); }
  int n = want ? (int)want : nthreads_icv; if (n < 1) n = 1; if (n > MAXT) n = MAXT;
  if (team_mode == 1 && n > 1 && rng.below(3) == 0) { int m = 1 + (int)rng.below(n); if (m < n) teams_shrunk++; n = m; }
  Region r; r.n = n; r.fn = fn; r.data = data; r.bar_count = 0; r.bar_gen = 0; if (pre) r.loops[1] = *pre;
  regions++; if ((u64)n > max_team_seen) max_team_seen = n; mixhash(0x5151 + n);
  if ((int)F.size() < n) F.resize(n);
  shadow.clear(); locks.clear(); atomvc.clear();
  stalled = -1; if (policy == 3 && n > 1) { stalled = (int)rng.below(n); stalls_n++; }
  R = &r;
  for (int i = 0; i < n; i++) {
    Fiber &f = F[i]; prep(f); f.state = 0; f.tid = i; f.wsnum = 0; f.cur = 0; f.stat_done = 0; f.vc.assign(n, 0); f.vc[i] = 1; f.prio = (int)rng.below(1000000); if (pre) f.cur = f.wsnum = 1;
  }
  int savecur = cur; cur = -1;
  if (policy == 2) { pct_points.clear(); int d = 1 + (int)rng.below(4); for (int i = 0; i < d; i++) pct_points.push_back(steps + 1 + rng.below(400)); }
  int t = pick(true);
  switch_to(t);
  // back here when every fiber is done
  R = nullptr; cur = savecur; stalled = -1; shadow.clear();
}

// ---------------------------------------------------------------- access
static void describe(void *pc, char *out, size_t n)
{
  Dl_info di; if (dladdr(pc, &di) && di.dli_fname) { const char *b = strrchr(di.dli_fname, '/'); snprintf(out, n, "%s+0x%lx", b ? b + 1 : di.dli_fname, (unsigned long)((char *)pc - (char *)di.dli_fbase)); } else snprintf(out, n, "?");
}
static void race(const Entry &e, int kind, void *addr, int size, void *pc)
{
  if (races++) return;
  char a[256], b[256]; describe(pc, a, sizeof a); describe(e.pc, b, sizeof b);
  snprintf(race_msg, sizeof race_msg, "data race: thread %d %s of %d bytes at %s with unsynchronised %s by thread %d at %s", cur, (kind & 2) ? "atomic access" : (kind & 1) ? "write" : "read", size, a, (e.kind & 1) ? "write" : "read", (int)e.tid, b);
}
static void touch(void *addr, int size, int kind, void *pc)
{
  accesses++;
  if (!detect || R->n < 2) return;
  u64 a = (u64)addr; VC &my = F[cur].vc;
  while (size > 0) {
    u64 g = a >> 3; int off = a & 7; int len = 8 - off < size ? 8 - off : size;
    unsigned char mask = (unsigned char)(((1u << len) - 1) << off);
    std::vector<Entry> &v = shadow[g]; int slot = -1;
    for (size_t i = 0; i < v.size(); i++) {
      Entry &e = v[i];
      if (e.tid == cur) { if (e.kind == kind && e.mask == mask) slot = (int)i; continue; }
      if (!(e.mask & mask)) continue;
      if (!((e.kind | kind) & 1)) continue;           // two reads
      if ((e.kind & 2) && (kind & 2)) continue;       // two atomics
      if (e.clk <= my[e.tid]) continue;               // ordered
      race(e, kind, addr, len, pc);
    }
    Entry ne; ne.tid = (unsigned char)cur; ne.mask = mask; ne.kind = (unsigned char)kind; ne.clk = my[cur]; ne.pc = pc;
    if (slot >= 0) v[slot] = ne; else v.push_back(ne);
    a += len; size -= len;
  }
}
#define ACTIVE (R && cur >= 0)
static inline void acc(void *a, int n, int w, void *pc) { if (!ACTIVE) return; point(false); last_access_write = w; touch(a, n, w, pc); }
#define PC __builtin_return_address(0)
#define RW(n) \
  API void __tsan_read##n(void *a) { acc(a, n, 0, PC); } API void __tsan_write##n(void *a) { acc(a, n, 1, PC); } \
  API void __tsan_unaligned_read##n(void *a) { acc(a, n, 0, PC); } API void __tsan_unaligned_write##n(void *a) { acc(a, n, 1, PC); } \
  API void __tsan_volatile_read##n(void *a) { acc(a, n, 0, PC); } API void __tsan_volatile_write##n(void *a) { acc(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void *a, unsigned long n) { if (n) acc(a, (int)n, 0, PC); }
API void __tsan_write_range(void *a, unsigned long n) { if (n) acc(a, (int)n, 1, PC); }
API void __tsan_vptr_update(void *a, void *) { acc(a, 8, 1, PC); }
API void __tsan_vptr_read(void *a) { acc(a, 8, 0, PC); }
API void __tsan_func_entry(void *) {}
API void __tsan_func_exit() {}
API void __tsan_init() {}

static void at(const volatile void *a, int n, int w, int mo, void *pc)
{
  if (!ACTIVE) return;
  point(true); atomics_n++; touch((void *)a, n, (w ? 1 : 0) | 2, pc);
  if (mo >= 2 && R->n > 1) { VC &l = atomvc[(const void *)a]; vjoin(F[cur].vc, l); vjoin(l, F[cur].vc); F[cur].vc[cur]++; }
}
#define ATOM(bits, T) \
  API T __tsan_atomic##bits##_load(const volatile T *a, int mo) { at(a, sizeof(T), 0, mo, PC); return *a; } \
  API void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { at(a, sizeof(T), 1, mo, PC); *a = v; } \
  API T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { at(a, sizeof(T), 1, mo, PC); T o = *a; *a = v; return o; } \
  API T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { at(a, sizeof(T), 1, mo, PC); T o = *a; *a = (T)(o + v); return o; } \
  API T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { at(a, sizeof(T), 1, mo, PC); T o = *a; *a = (T)(o - v); return o; } \
  API T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { at(a, sizeof(T), 1, mo, PC); T o = *a; *a = (T)(o & v); return o; } \
  API T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { at(a, sizeof(T), 1, mo, PC); T o = *a; *a = (T)(o | v); return o; } \
  API T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { at(a, sizeof(T), 1, mo, PC); T o = *a; *a = (T)(o ^ v); return o; } \
  API T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { at(a, sizeof(T), 1, mo, PC); T o = *a; *a = (T) ~(o & v); return o; } \
  API int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) { at(a, sizeof(T), 1, mo, PC); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  API int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int) { at(a, sizeof(T), 1, mo, PC); T o = *a; if (o == *c && !(ACTIVE && rng.below(8) == 0)) { *a = v; return 1; } *c = o; return 0; } \
  API T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int) { at(a, sizeof(T), 1, mo, PC); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
typedef unsigned __int128 u128;
ATOM(128, u128)
API void __tsan_atomic_thread_fence(int) { if (ACTIVE) point(true); }
API void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- locks
static void acquire(const void *id, bool nest = false)
{
  if (!ACTIVE) return;
  point(true);
  int spins = 0;
  for (;;) {
    Lock &l = locks[id];
    if (l.owner < 0 || (nest && l.owner == cur)) { l.owner = cur; l.depth++; vjoin(F[cur].vc, l.vc); mixhash((u64)cur * 31 + 7); return; }
    if (l.owner == cur) { fatal("deadlock: a thread waits for a lock that it holds"); return; }
    F[cur].state = 1; F[cur].wait_kind = 2; F[cur].wait_obj = id;
    block_until_scheduled();
    if (++spins > 100000) { fatal("lock starvation"); return; }
  }
}
static bool tryacquire(const void *id, bool nest = false)
{
  if (!ACTIVE) return true;
  point(true); Lock &l = locks[id];
  if (l.owner < 0 || (nest && l.owner == cur)) { l.owner = cur; l.depth++; vjoin(F[cur].vc, l.vc); return true; }
  return false;
}
static void release(const void *id)
{
  if (!ACTIVE) return;
  Lock &l = locks[id]; if (l.owner != cur) return;
  if (--l.depth > 0) return;
  vjoin(l.vc, F[cur].vc); F[cur].vc[cur]++; l.owner = -1; l.depth = 0;
  for (int i = 0; i < R->n; i++) if (F[i].state == 1 && F[i].wait_kind == 2 && F[i].wait_obj == id) F[i].state = 0;
  point(true);
}
static int g_atomic, g_critical, g_order;
API void GOMP_atomic_start() { acquire(&g_atomic); atomics_n++; }
API void GOMP_atomic_end() { release(&g_atomic); }
API void GOMP_critical_start() { acquire(&g_critical); }
API void GOMP_critical_end() { release(&g_critical); }
API void GOMP_critical_name_start(void **p) { acquire(p); }
API void GOMP_critical_name_end(void **p) { release(p); }

// ---------------------------------------------------------------- team
static void barrier()
{
  if (!ACTIVE || R->n < 2) return;
  point(true);
  u64 gen = R->bar_gen;
  if (++R->bar_count == R->n) {
    R->bar_count = 0; R->bar_gen++;
    VC j; for (int i = 0; i < R->n; i++) vjoin(j, F[i].vc);
    for (int i = 0; i < R->n; i++) { F[i].vc = j; F[i].vc[i]++; if (F[i].state == 1 && F[i].wait_kind == 1) F[i].state = 0; }
    stalled = -1; if (policy == 3) { stalled = (int)rng.below(R->n); }
    point(true); return;
  }
  while (R->bar_gen == gen && !(fatals && steps > max_steps)) { F[cur].state = 1; F[cur].wait_kind = 1; block_until_scheduled(); if (fatals && R->bar_gen == gen) return; }
}
API void GOMP_barrier() { barrier(); }
API bool GOMP_barrier_cancel() { barrier(); return false; }
API bool GOMP_cancel(int, bool) { return false; }
API bool GOMP_cancellation_point(int) { return false; }
API void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) { run_region(fn, data, n); }
API unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned n, unsigned) { run_region(fn, data, n); return n; }
API int omp_get_thread_num() { return ACTIVE ? cur : 0; }
API int omp_get_num_threads() { return R ? R->n : 1; }
API int omp_get_max_threads() { return nthreads_icv; }
API void omp_set_num_threads(int n) { if (n > 0) nthreads_icv = n; }
API int omp_get_num_procs() { return 8; }
API int omp_in_parallel() { return R && R->n > 1; }
API void omp_set_dynamic(int v) { dyn_icv = v; }
API int omp_get_dynamic() { return dyn_icv; }
API void omp_set_nested(int) {}
API int omp_get_nested() { return 0; }
API int omp_get_level() { return R ? 1 : 0; }
API int omp_get_active_level() { return R && R->n > 1 ? 1 : 0; }
API int omp_get_ancestor_thread_num(int l) { return l <= 0 ? 0 : omp_get_thread_num(); }
API int omp_get_team_size(int l) { return l <= 0 ? 1 : omp_get_num_threads(); }
API int omp_get_thread_limit() { return MAXT; }
API void omp_set_max_active_levels(int) {}
API int omp_get_max_active_levels() { return 1; }
API void omp_set_schedule(int, int) {}
API void omp_get_schedule(int *k, int *m) { *k = 1; *m = 0; }
API double omp_get_wtime() { return 1e-6 * (double)steps; }
API double omp_get_wtick() { return 1e-6; }
API int omp_get_cancellation() { return 0; }
API int omp_in_final() { return 1; }
API void omp_init_lock(void **) {}
API void omp_destroy_lock(void **) {}
API void omp_set_lock(void **l) { acquire(l); }
API void omp_unset_lock(void **l) { release(l); }
API int omp_test_lock(void **l) { return tryacquire(l); }
API void omp_init_nest_lock(void **) {}
API void omp_destroy_nest_lock(void **) {}
API void omp_set_nest_lock(void **l) { acquire(l, true); }
API void omp_unset_nest_lock(void **l) { release(l); }
API int omp_test_nest_lock(void **l) { return tryacquire(l, true); }
// linked with -Wl,--wrap: C++ mutexes inside a region become simulated locks
API int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (ACTIVE) { acquire(m); return 0; } return pthread_mutex_lock(m); }
API int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (ACTIVE) { release(m); return 0; } return pthread_mutex_unlock(m); }
API int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (ACTIVE) return tryacquire(m) ? 0 : 16; return pthread_mutex_trylock(m); }
// fresh memory has no access history
static void fresh(void *p, size_t n) { if (ACTIVE && p) { for (u64 g = (u64)p >> 3; g <= ((u64)p + (n ? n - 1 : 0)) >> 3; g++) shadow.erase(g); } }
API void *__wrap_malloc(size_t n) { void *p = malloc(n); fresh(p, n); return p; }
API void *__wrap_calloc(size_t a, size_t b) { void *p = calloc(a, b); fresh(p, a * b); return p; }
API void *__wrap__Znwm(size_t n) { void *p = operator new(n); fresh(p, n); return p; }
API void *__wrap__Znam(size_t n) { void *p = operator new[](n); fresh(p, n); return p; }

// ---------------------------------------------------------------- loops
static Fiber &me() { return F[cur < 0 ? 0 : cur]; }
static Loop &ws_loop() { Fiber &f = me(); f.wsnum++; f.cur = f.wsnum; f.stat_done = 0; return R->loops[f.cur]; }
static bool take(Loop &l, long *s, long *e)
{
  if (ACTIVE) point(true);
  Fiber &f = me();
  if (l.up ? l.next >= l.end : l.next <= l.end) return false;
  if (l.kind == 0) { // static: blocks are a function of the thread number
    long n = l.up ? (l.end - l.next + l.incr - 1) / l.incr : (l.next - l.end - l.incr - 1) / -l.incr; int T = R->n, t = cur < 0 ? 0 : cur;
    if (l.chunk <= 0) {
      if (f.stat_done) return false;
      f.stat_done = 1;
      long q = n / T, r = n % T; long b = t < r ? t * (q + 1) : t * q + r, c = q + (t < r ? 1 : 0); if (!c) return false;
      *s = l.next + b * l.incr; *e = l.next + (b + c) * l.incr; if (b + c == n) *e = l.end; return true;
    }
    long b = (f.stat_done * T + t) * l.chunk; if (b >= n) return false; long c = l.chunk < n - b ? l.chunk : n - b; f.stat_done++;
    *s = l.next + b * l.incr; *e = l.next + (b + c) * l.incr; if (b + c == n) *e = l.end; return true;
  }
  long left = l.up ? (l.end - l.next + l.incr - 1) / l.incr : (l.next - l.end - l.incr - 1) / -l.incr;
  long c = l.chunk > 0 ? l.chunk : 1; if (l.kind == 2) { long g = left / R->n; if (g > c) c = g; } if (c > left) c = left;
  *s = l.next; l.next += c * l.incr; *e = c == left ? l.end : l.next; if (c == left) l.next = l.end; mixhash(0x77 + (u64)cur);
  return true;
}
static bool loop_start(int kind, long s, long e, long incr, long chunk, long *is, long *ie)
{
  Loop &l = ws_loop(); if (!l.init) { l.init = true; l.next = s; l.end = e; l.incr = incr; l.chunk = chunk; l.kind = kind; l.up = incr > 0; }
  return take(l, is, ie);
}
static bool loop_next(long *is, long *ie) { return take(R->loops[me().cur], is, ie); }
#define LOOPS(name, KND) \
  API bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(KND, s, e, i, c, a, b); } \
  API bool GOMP_loop_##name##_next(long *a, long *b) { return loop_next(a, b); } \
  API void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned) { Loop l; l.init = true; l.next = s; l.end = e; l.incr = i; l.chunk = c; l.kind = KND; l.up = i > 0; run_region(fn, d, n, &l); } \
  API bool GOMP_loop_ull_##name##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *a, unsigned long long *b) { return loop_start(KND, (long)s, (long)e, (long)i, (long)c, (long *)a, (long *)b); } \
  API bool GOMP_loop_ull_##name##_next(unsigned long long *a, unsigned long long *b) { return loop_next((long *)a, (long *)b); }
LOOPS(static, 0) LOOPS(dynamic, 1) LOOPS(guided, 2) LOOPS(nonmonotonic_dynamic, 1) LOOPS(nonmonotonic_guided, 2)
#define LOOPR(name) \
  API bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return loop_start(1, s, e, i, 1, a, b); } \
  API bool GOMP_loop_##name##_next(long *a, long *b) { return loop_next(a, b); } \
  API void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned) { Loop l; l.init = true; l.next = s; l.end = e; l.incr = i; l.chunk = 1; l.kind = 1; l.up = i > 0; run_region(fn, d, n, &l); } \
  API bool GOMP_loop_ull_##name##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *a, unsigned long long *b) { return loop_start(1, (long)s, (long)e, (long)i, 1, (long *)a, (long *)b); } \
  API bool GOMP_loop_ull_##name##_next(unsigned long long *a, unsigned long long *b) { return loop_next((long *)a, (long *)b); }
LOOPR(runtime) LOOPR(maybe_nonmonotonic_runtime) LOOPR(nonmonotonic_runtime)
// ordered loops: chunks of one iteration, ordered sections wait their turn
#define LOOPO(name, KND) \
  API bool GOMP_loop_ordered_##name##_start(long s, long e, long i, long c, long *a, long *b) { bool r = loop_start(KND, s, e, i, c, a, b); return r; } \
  API bool GOMP_loop_ordered_##name##_next(long *a, long *b) { return loop_next(a, b); }
LOOPO(static, 0) LOOPO(dynamic, 1) LOOPO(guided, 2)
API void GOMP_ordered_start() { acquire(&g_order); }
API void GOMP_ordered_end() { release(&g_order); }
API void GOMP_loop_end() { barrier(); }
API void GOMP_loop_end_nowait() {}
API bool GOMP_loop_end_cancel() { barrier(); return false; }

// ---------------------------------------------------------------- single/sections/tasks
API bool GOMP_single_start() { if (!R) return true; point(true); Fiber &f = me(); f.wsnum++; auto it = R->singles.find(f.wsnum); if (it != R->singles.end()) return false; R->singles[f.wsnum] = cur; mixhash(0x51 + (u64)cur); return true; }
API void *GOMP_single_copy_start() { if (!R) return nullptr; if (GOMP_single_start()) { me().cur = me().wsnum; return nullptr; } u64 k = me().wsnum; barrier(); return R->copypriv[k]; }
API void GOMP_single_copy_end(void *d) { if (!R) return; R->copypriv[me().cur] = d; barrier(); }
API unsigned GOMP_sections_next() { if (ACTIVE) point(true); long &l = R->sections[me().cur]; if (l <= 0) return 0; Loop &lp = R->loops[me().cur]; return (unsigned)(lp.end - (l--) + 1); }
API unsigned GOMP_sections_start(unsigned n) { Fiber &f = me(); f.wsnum++; f.cur = f.wsnum; Loop &l = R->loops[f.cur]; if (!l.init) { l.init = true; l.end = n; R->sections[f.cur] = n; } return GOMP_sections_next(); }
API void GOMP_sections_end() { barrier(); }
API void GOMP_sections_end_nowait() {}
API bool GOMP_sections_end_cancel() { barrier(); return false; }
API void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned) { Loop l; l.init = true; l.end = count; run_region(fn, d, n, &l); (void)count; }
API void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long sz, long al, bool, unsigned, void **, int, void *)
{
  if (cpy) { char *b = (char *)malloc(sz + al); char *p = (char *)(((u64)b + al - 1) & ~(u64)(al - 1)); cpy(p, data); fn(p); free(b); } else { char *b = (char *)malloc(sz + al); char *p = (char *)(((u64)b + al - 1) & ~(u64)(al - 1)); memcpy(p, data, sz); fn(p); free(b); }
}
API void GOMP_taskwait() {}
API void GOMP_taskyield() { if (ACTIVE) point(true); }
API void GOMP_taskgroup_start() {}
API void GOMP_taskgroup_end() {}

// ---------------------------------------------------------------- control
// policy: 0 random preemption, 1 switch only at synchronisation, 2 priorities
// with change points, 3 random preemption with one stalled member
API void simgomp_begin(u64 seed, int pol, double p, int team, int det, u64 limit, int log)
{
  rng.s = seed * 0x9e3779b97f4a7c15ULL + 1; policy = pol; p_switch = p; team_mode = team; detect = det; max_steps = limit; keep_log = log; sched_log.clear();
  steps = switches = regions = atomics_n = teams_shrunk = stalls_n = rmw_preempt = accesses = 0; trace_hash = 1469598103934665603ULL; races = fatals = 0; race_msg[0] = fatal_msg[0] = 0; max_team_seen = 0; enabled = true; nthreads_icv = 4;
}
API void simgomp_end() { enabled = false; }
API int simgomp_races() { return races; }
API int simgomp_fatals() { return fatals; }
API const char *simgomp_race() { return race_msg; }
API const char *simgomp_fatal() { return fatal_msg; }
API u64 simgomp_stat(int k) { u64 v[] = { steps, switches, regions, atomics_n, teams_shrunk, stalls_n, rmw_preempt, accesses, trace_hash, max_team_seen }; return v[k]; }
API const char *simgomp_sched() { return sched_log.c_str(); }
