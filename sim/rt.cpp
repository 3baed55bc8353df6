// Simulator runtime: scheduler, clock, memory model, race detector, allocator,
// synchronisation seams.  See rt.h.  Compiled without instrumentation.
#include "rt.h"

#include <ctype.h>
#include <errno.h>
#include <linux/futex.h>
#include <math.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <exception>
#include <new>
#include <unordered_map>

Shared* sh;
Calib calib;
const Spec* g_spec;
int rt_stop_on_race = 0, rt_stop_on_mem = 3;

const char* const kCtrName[C_N] = {
    "steps",        "sync_points",   "switches",       "preemptions",
    "stale_reads",  "stalls",        "kills",          "allocations",
    "alloc_failures", "table_alloc_failures", "quota_failures",
    "corruptions",  "reentries",     "polls",          "time_jumps",
    "calls",        "calls_closed",  "calls_bad_alloc", "table_allocs",
    "calls_that_waited", "simulated_ns", "racy_locations", "early_calls",
    "late_calls",   "concurrent_init", "lock_blocks", "wait_timeouts",
    "memory_errors", "blocks_reused",
    "environment_queries", "other_surroundings"};

uint64_t Rng::logu(uint64_t lo, uint64_t hi) {
  if (hi <= lo) return lo;
  double a = log(double(lo)), b = log(double(hi) + 1);
  uint64_t v = uint64_t(exp(a + (b - a) * unit()));
  return v < lo ? lo : v > hi ? hi : v;
}

// ------------------------------------------------------------------ memory map
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t ARENA_SZ = 512ull << 20;
static const uintptr_t STK = 0x180000000000ull;
static const size_t STK_SZ = 1 << 20;
static const size_t STK_GAP = 1 << 20;

extern "C" char data_start[], _end[];
extern "C" char __executable_start[];

struct Cell {
  uint32_t w, r;
};
static Cell* sh_arena;      // one cell per arena byte
static Cell* sh_glob;
static uint8_t* st_arena;   // state per arena byte
static uintptr_t glob_lo;
static size_t glob_sz;
enum { S_NONE, S_LIVE, S_FREED, S_INPUT, S_RAW };

static const uint32_t E_SHARED = 1u << 31, E_ATOMIC = 1u << 30;
static inline uint32_t mk_epoch(int tid, uint32_t clk) {
  return uint32_t(tid) << 27 | clk;
}
static inline int e_tid(uint32_t e) { return (e >> 27) & 7; }
static inline uint32_t e_clk(uint32_t e) { return e & ((1u << 27) - 1); }

struct VC {
  uint32_t c[MAXT];
  void join(const VC& o) {
    for (int i = 0; i < MAXT; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
struct SharedRead {
  uint32_t c[MAXT];  // clk, plus E_ATOMIC
};
static SharedRead* sr_pool;
static uint32_t sr_n = 1;
static const uint32_t SR_MAX = 1 << 23;

// --------------------------------------------------------------------- threads
enum St { NEW, RUN, BLOCKED, DONE };
struct Thr {
  int id = 0;
  St st = NEW;
  uint64_t wake = 0;          // suspended until this simulated time
  bool stuck = false;
  const void* wait = nullptr;
  uint64_t tmo = 0;           // timed wait
  bool timedout = false;
  uint64_t steps = 0, in_steps = 0;
  uintptr_t low_sp = ~uintptr_t(0);   // lowest stack pointer of library code
  uint64_t last_sw = ~0ull;   // step of the last access-level switch
  uint64_t event_at = ~0ull, preempt_at = ~0ull, fault_at = ~0ull;
  uint64_t nosync = 0;
  uint64_t sp = 0;            // synchronisation points passed
  uint64_t nalloc = 0, nload = 0, nrand = 0;
  VC vc{}, acqf{}, relf{};
  bool has_relf = false;
  uint32_t epoch = 0;
  uint64_t spin_cnt = 0, spin_base = 0;
  bool spinning = false;
  const void* spin_addr = nullptr;
  int spin_n = 0;   // 0: spins on a lock, not on an atomic
  uint64_t spin_val = 0;
  uint64_t pend = 0, realpoll = 0, idle = 0, realpolls = 0, wait_mark = 0;
  uint64_t polls = 0, polls0 = 0;
  int unconsumed = 0;
  bool insim = false;
  int go = 0;
  int prio = 0;
  uintptr_t stk = 0;
  pthread_t pt{};
  std::vector<std::pair<void (*)(void*), void*>> tls;
  void* slots[10] = {};
  std::unordered_map<size_t, std::vector<uintptr_t>> cache;
  uintptr_t bufs[4] = {};
  int depth = 0;
  OpEvent* ev = nullptr;
  std::vector<std::pair<uint64_t, int>> recA, recS;  // explicit switches
  size_t ra = 0, rs = 0;
  std::unordered_map<uint64_t, int> stale;
  std::vector<int> sfault;    // indices of T_SYNC faults pending
  const std::vector<Op>* ops = nullptr;
};
static Thr T[MAXT];
static int nT;
static Thr* g_cur;
static uint64_t g_now, g_t0, g_seq = 1;
static Rng g_rng;
static RunOut* g_out;
static std::vector<Fault> g_faults;   // step-resolved faults, all
static std::vector<char> g_fdone;
static int64_t g_oom = 0;             // remaining failing allocations, -1 = all
static uint64_t g_quota = 0;
static bool g_nofail = false;
static uint64_t g_live_lib, g_live_peak;
static const void* const JOIN = &nT;
static uint64_t g_budget;
static uint64_t g_pct_at[16];
static int g_pct_n;
static uint64_t g_total;              // steps of all threads so far
static bool g_pol_off = false;
static int g_table_reqs;

static FILE* g_log;   // SIM_LOG=file: every event of the run, for debugging
static inline void hmix(uint64_t x) {
  if (__builtin_expect(g_log != nullptr, 0))
    fprintf(g_log, "%d @%llu sp%llu %llx\n", g_cur ? g_cur->id : -1,
            g_cur ? (unsigned long long)g_cur->steps : 0,
            g_cur ? (unsigned long long)g_cur->sp : 0, (unsigned long long)x);
  uint64_t h = sh->hash;
  h = (h ^ x) * 0x9E3779B97F4A7C15ull;
  sh->hash = h ^ (h >> 29);
}
static inline void imix(uint64_t x) {
  uint64_t h = sh->ihash;
  h = (h ^ x) * 0xD6E8FEB86659FD93ull;
  sh->ihash = h ^ (h >> 31);
}

void rt_finish(int status, const char* cls, const std::string& msg) {
  sh->ctr[C_SIMNS] = g_now - g_t0;
  if (g_log) fclose(g_log);
  snprintf(sh->cls, sizeof sh->cls, "%s", cls);
  snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
  __sync_synchronize();
  sh->status = status;
  _exit(0);
}
static std::string fmt(const char* f, ...) {
  char b[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
static std::string opname() {
  return fmt("thread %d call %d", sh->cur_tid, sh->cur_op);
}

// ------------------------------------------------------------------ allocation
struct Blk {
  size_t size;
  uint8_t kind;   // 0 new 1 new[] 2 malloc
  bool lib, freed;
  int tid, seen;  // seen: other threads touched it
};
static std::unordered_map<uintptr_t, Blk>* blks;
static uintptr_t g_brk = ARENA + 4096;
static uint8_t* g_blkshared;   // per 64-byte granule: threads that touched it

static uintptr_t arena_take(size_t n, size_t al) {
  if (al < 16) al = 16;
  uintptr_t p = (g_brk + al - 1) / al * al;
  if (n > ARENA_SZ || p + n + 64 > ARENA + ARENA_SZ)
    rt_finish(3, "arena", "simulated heap exhausted");
  g_brk = p + n + 32;
  return p;
}
static void* take_block(size_t n, size_t al, int kind, bool lib, int state) {
  uintptr_t p = arena_take(n, al);
  memset(st_arena + (p - ARENA), state, n);
  (*blks)[p] = Blk{n, uint8_t(kind), lib, false, g_cur ? g_cur->id : 0, 0};
  return reinterpret_cast<void*>(p);
}

// kind 1: access outside owned memory or to released memory; 2: bad release
static void memerr(int kind, const std::string& m) {
  sh->ctr[C_MEMERR]++;
  if (!g_out->memerr) {
    g_out->memerr = true;
    g_out->memerr_kind = kind;
    g_out->memerr_msg = m;
  }
  if (rt_stop_on_mem & kind) rt_finish(2, kind == 1 ? "memory" : "release", m);
}

// ------------------------------------------------------------------- scheduler
static inline bool runnable(const Thr& t) {
  return t.st == RUN && t.wake <= g_now;
}
static inline void sync_now(Thr* t) {
  g_now += t->steps - t->in_steps;
  g_total += t->steps - t->in_steps;
  t->in_steps = t->steps;
}
static void futex_wake1(int* a) {
  syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void park(Thr* t) {
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
    syscall(SYS_futex, &t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  t->go = 0;
}
static void recompute(Thr* t) {
  uint64_t e = t->preempt_at < t->fault_at ? t->preempt_at : t->fault_at;
  uint64_t b = t->nosync + 8000000;
  t->event_at = e < b ? e : b;
}
static void draw_slice(Thr* t) {
  if (g_spec->explicit_mode) {
    while (t->ra < t->recA.size() && t->recA[t->ra].first < t->steps) t->ra++;
    t->preempt_at = t->ra < t->recA.size() ? t->recA[t->ra].first : ~0ull;
  } else {
    const Policy& p = g_spec->pol;
    t->preempt_at =
        p.acc_hi && !g_pol_off ? t->steps + g_rng.logu(p.acc_lo, p.acc_hi)
                               : ~0ull;
    if (p.pct && !g_pol_off) {
      for (int i = 0; i < g_pct_n; i++)
        if (g_pct_at[i] > g_total) {
          uint64_t at = t->steps + (g_pct_at[i] - g_total);
          if (at < t->preempt_at) t->preempt_at = at;
          break;
        }
    }
  }
  recompute(t);
}
static void transfer(Thr* t, Thr* n) {
  if (n == t) return;
  sync_now(t);
  sh->ctr[C_SWITCH]++;
  g_cur = n;
  n->in_steps = n->steps;
  n->nosync = n->steps;
  draw_slice(n);
  __atomic_store_n(&n->go, 1, __ATOMIC_RELEASE);
  futex_wake1(&n->go);
  park(t);
}
static void (*g_after)(const Spec&, RunOut&);
static void deadlock() {
  // Only lost threads are left: the run is over, its history can be judged.
  bool lost_only = true;
  for (int i = 0; i < nT; i++)
    if (T[i].st != DONE && !T[i].stuck) lost_only = false;
  if (lost_only) {
    for (int i = 0; i < nT; i++) T[i].insim = false;
    sh->ctr[C_STEPS] = g_total;
    g_out->live_lib_end = 0;
    for (auto& b : *blks)
      if (!b.second.freed && b.second.lib) g_out->live_lib_end += b.second.size;
    g_after(*g_spec, *g_out);
    rt_finish(1, "", "");
  }
  std::string m = "no call can ever proceed:";
  for (int i = 0; i < nT; i++)
    m += fmt(" [thread %d %s%s]", i,
             T[i].st == DONE ? "done" : T[i].st == BLOCKED ? "blocked" : "run",
             T[i].stuck ? ", lost" : "");
  rt_finish(2, "hang", m);
}
static const uint64_t FF = 300000000ull;
static const uint64_t POLL_NS = 10;
// Stores become visible to every thread within this much simulated time.
static const uint64_t VISIBLE_NS = 100000000;
static uint64_t rd(uintptr_t a, int n);
// A wait bounded by a constant: twenty times the documented limit (one jump of
// the clock over a long stall may count for several times the limit). An
// operation that is a list of calls may wait once in each.
static const uint64_t MAX_POLLS = 20000000000ull;
static uint64_t max_polls(const Op* op) {
  return op && op->kind == K_NAME_CP ? MAX_POLLS / 10 * (10 + op->in.size() / 8) : MAX_POLLS;
}
static const uint64_t MAX_REAL_POLLS = 2300000000ull;
// Without the poll hook waiting costs real time; a run is given up, undecided,
// after this many such polls in all.
static const uint64_t REAL_POLL_BUDGET = 2600000000ull;
static uint64_t g_realpolls;

// Makes sure at least one thread can usefully run, jumping the clock if needed.
static void advance(Thr* t) {
  sync_now(t);
  for (;;) {
    for (int i = 0; i < nT; i++)
      if (runnable(T[i]) && (!T[i].spinning || T[i].pend)) return;
    uint64_t tm = ~0ull;
    for (int i = 0; i < nT; i++) {
      Thr& x = T[i];
      if (x.st == RUN && x.wake > g_now && x.wake < tm && !x.stuck) tm = x.wake;
      if (x.st == BLOCKED && x.tmo && !x.stuck && x.tmo < tm) tm = x.tmo;
    }
    if (tm != ~0ull) {
      uint64_t d = tm > g_now ? tm - g_now : 0;
      g_now = tm > g_now ? tm : g_now;
      sh->ctr[C_TIMEJUMP]++;
      hmix(0x71 + d);
      for (int i = 0; i < nT; i++) {
        Thr& x = T[i];
        if (x.st == BLOCKED && x.tmo && !x.stuck && x.tmo <= g_now) {
          x.st = RUN;
          x.tmo = 0;
          x.timedout = true;
        }
        if (x.st == RUN && x.spinning && !x.stuck) x.pend += d / POLL_NS;
      }
      // Those that waited through the jump see the time pass first.
      bool any = false;
      for (int i = 0; i < nT; i++)
        if (runnable(T[i]) && T[i].spinning && T[i].pend) any = true;
      if (any) return;
      for (int i = 0; i < nT; i++)
        if (T[i].st == RUN && T[i].wake <= g_now) T[i].spinning = false;
      continue;
    }
    bool any = false, stale = false;
    for (int i = 0; i < nT; i++) {
      Thr& x = T[i];
      if (runnable(x) && x.spinning && x.spin_n &&
          rd(reinterpret_cast<uintptr_t>(x.spin_addr), x.spin_n) != x.spin_val)
        stale = true;
    }
    // Someone only waits for a store to become visible: that is all the time
    // that passes.
    const uint64_t ff = stale ? VISIBLE_NS / POLL_NS : FF;
    for (int i = 0; i < nT; i++) {
      Thr& x = T[i];
      if (runnable(x) && x.spinning) {
        x.pend += ff;
        x.idle++;
        any = true;
      }
    }
    if (any) {
      g_now += ff * POLL_NS;
      sh->ctr[C_TIMEJUMP]++;
      hmix(0x72);
      return;
    }
    deadlock();
  }
}
static int pick_default(Thr* t) {
  for (int pass = 0; pass < 2; pass++)
    for (int k = 1; k <= nT; k++) {
      Thr& x = T[(t->id + k) % nT];
      if (!runnable(x)) continue;
      if (pass == 0 && x.spinning && !x.pend) continue;
      return x.id;
    }
  deadlock();
  return 0;
}
static int pick_random(Thr* t, bool others_only) {
  int c[MAXT], n = 0;
  for (int i = 0; i < nT; i++) {
    if (others_only && i == t->id) continue;
    if (!runnable(T[i])) continue;
    if (T[i].spinning && !T[i].pend) continue;
    c[n++] = i;
  }
  if (!n) return -1;
  if (g_spec->pol.pct) {
    int b = c[0];
    for (int i = 1; i < n; i++)
      if (T[c[i]].prio > T[b].prio) b = c[i];
    return b;
  }
  return c[g_rng.below(n)];
}
static void rec_switch(Thr* t, uint64_t key, int next) {
  hmix(0x5100 + t->id * 8 + next);
  hmix(key);
  if (sh->nsw < int(sizeof sh->sw / sizeof sh->sw[0])) {
    auto& s = sh->sw[sh->nsw++];
    s.tid = t->id;
    s.step = key;
    s.next = next;
    if (sh->nsw == 90000) g_pol_off = true;   // leaves room for forced ones
  } else {
    sh->trunc = 1;
  }
}
enum { SY_SYNC, SY_YIELD, SY_LEAVE };
// A synchronisation-level scheduling point.
static void apply_sync_faults(Thr* t);
static void sched_sync(Thr* t, int mode, double p, uint64_t what) {
  t->sp++;
  t->nosync = t->steps;
  sync_now(t);
  if (mode == SY_SYNC && !t->sfault.empty()) {
    apply_sync_faults(t);
    t->sp++;
  }
  sh->ctr[C_SYNC]++;
  hmix(what * 16 + t->id);
  imix(what * 16 + t->id);
  bool must = mode != SY_SYNC;
  if (must) advance(t);
  int next = t->id;
  uint64_t key = t->sp * 2 + 1;
  if (g_spec->explicit_mode || g_pol_off) {
    int want = -1;
    while (t->rs < t->recS.size() && t->recS[t->rs].first < key) t->rs++;
    if (t->rs < t->recS.size() && t->recS[t->rs].first == key) {
      want = t->recS[t->rs].second;
      t->rs++;
    }
    if (want >= 0 && want < nT && runnable(T[want]))
      next = want;
    else if (must)
      next = pick_default(t);
  } else if (must) {
    next = pick_random(t, mode == SY_LEAVE);
    if (next < 0) next = pick_default(t);
  } else if (p > 0 && nT > 1 && g_rng.chance(p)) {
    next = pick_random(t, !g_spec->pol.pct);
    if (next < 0) next = t->id;
  }
  if (next != t->id || must) {
    if (next != t->id) {
      rec_switch(t, key, next);
      if (!must) sh->ctr[C_PREEMPT]++;
      imix(0x9000 + next);
      transfer(t, &T[next]);
    } else {
      rec_switch(t, key, next);   // it might have left, and stayed
    }
  }
}
// A memory-access-level scheduling point; the caller decided to preempt.
static void sched_access(Thr* t, void* pc) {
  sync_now(t);
  int next = -1;
  uint64_t key = t->steps * 2;
  if (g_spec->explicit_mode) {
    if (t->ra < t->recA.size() && t->recA[t->ra].first == t->steps) {
      int w = t->recA[t->ra++].second;
      if (w >= 0 && w < nT && runnable(T[w])) next = w;
    }
  } else {
    next = pick_random(t, !g_spec->pol.pct);
  }
  if (next >= 0 && next != t->id) {
    rec_switch(t, key, next);
    t->last_sw = t->steps;
    sh->ctr[C_PREEMPT]++;
    imix(uint64_t(pc) * 8 + next);
    transfer(t, &T[next]);
  } else {
    draw_slice(t);
  }
}
static void record_fired(const Fault& f, int src, Thr* t, int trig, int64_t a) {
  if (sh->nfired < int(sizeof sh->fired / sizeof sh->fired[0])) {
    auto& r = sh->fired[sh->nfired++];
    r.type = f.type;
    r.trig = trig;
    r.tid = t ? t->id : 0;
    r.a = a;
    r.n = f.n;
    r.src = src;
    r.opix = -1;
  }
  if (f.type == F_ALLOC) return;   // logged where the allocation fails
  hmix(0xF000 + f.type);
  hmix(uint64_t(a));
}
// The bytes the library is shipped with, renamed by check.py in the object file.
extern "C" {
extern unsigned char sim_stored_data[] __attribute__((weak));   // not const: damage is written to it
extern const unsigned long sim_stored_size;
}
const unsigned char* stored_tables(size_t* n) {
  *n = sim_stored_data ? sim_stored_size : 0;
  return sim_stored_data;
}
static void do_corrupt(const Fault& f) {
  size_t n;
  volatile unsigned char* b = const_cast<unsigned char*>(stored_tables(&n));
  for (const Edit& e : f.edits)
    for (uint32_t i = 0; i < e.len && e.off + i < n; i++) {
      if (e.mode == 0)
        b[e.off + i] ^= e.val;
      else
        b[e.off + i] = e.val;
    }
  sh->ctr[C_CORRUPT]++;
  g_out->corrupt_any = true;
}
static void wake_join();
static void fire(int i, Thr* t, int trig, int64_t coord) {
  const Fault& f = g_faults[i];
  if (g_fdone[i]) return;
  g_fdone[i] = 1;
  record_fired(f, i, t, trig, coord);
  switch (f.type) {
    case F_STALL:
      if (f.n < 0) {
        sh->ctr[C_KILL]++;
        t->stuck = true;
        g_out->stuck_any = true;
        t->wake = ~0ull;
      } else {
        sh->ctr[C_STALL]++;
        sync_now(t);
        t->wake = g_now + uint64_t(f.n);
      }
      wake_join();
      sched_sync(t, SY_LEAVE, 0, 0x52);
      break;
    case F_CORRUPT:
      do_corrupt(f);
      break;
    case F_OOM:
      g_oom = f.n;
      break;
    case F_QUOTA:
      g_quota = uint64_t(f.n);
      break;
    default:
      break;
  }
}
static void next_fault(Thr* t) {
  t->fault_at = ~0ull;
  for (size_t i = 0; i < g_faults.size(); i++) {
    const Fault& f = g_faults[i];
    if (g_fdone[i] || f.trig != T_STEP || f.tid != t->id) continue;
    if (f.type == F_ALLOC || f.type == F_REENTER || f.type == F_TABALLOC)
      continue;
    if (uint64_t(f.a) < t->fault_at) t->fault_at = uint64_t(f.a);
  }
  recompute(t);
}
static void apply_sync_faults(Thr* t) {
  for (size_t k = 0; k < t->sfault.size();) {
    int i = t->sfault[k];
    Fault& f = g_faults[i];
    if (uint64_t(f.a) > t->sp) {
      k++;
      continue;
    }
    t->sfault.erase(t->sfault.begin() + k);
    if (f.b == 0) {
      fire(i, t, T_SYNC, int64_t(t->sp));
    } else {
      f.trig = T_STEP;
      f.tid = t->id;
      f.a = int64_t(t->steps) + f.b;
      f.b = 0;
      next_fault(t);
    }
  }
}
static void table_faults(Thr* t) {
  for (size_t i = 0; i < g_faults.size(); i++) {
    Fault& f = g_faults[i];
    if (g_fdone[i] || f.trig != T_TABLE || f.type == F_TABALLOC) continue;
    f.trig = T_STEP;
    f.tid = t->id;
    f.a = int64_t(t->steps) + f.b;
    f.b = 0;
  }
  next_fault(t);
}
static void __attribute__((noinline)) slow_event(Thr* t, void* pc) {
  if (t->steps - t->nosync >= 8000000) {
    // long stretch without synchronisation: keep others from starving
    sync_now(t);
    if (g_total > g_budget) {
      // the run's budget: a hang only if this call has used most of it
      if (!t->ev || t->steps - t->ev->begin_step > g_budget / 2)
        rt_finish(2, "hang", opname() + " does not terminate");
      rt_finish(1, "", "");
    }
    t->nosync = t->steps;
    recompute(t);
    if (!g_spec->explicit_mode && nT > 1 && t->preempt_at > t->steps)
      t->preempt_at = t->steps;
  }
  while (t->steps >= t->fault_at) {
    int best = -1;
    for (size_t i = 0; i < g_faults.size(); i++) {
      const Fault& f = g_faults[i];
      if (!g_fdone[i] && f.trig == T_STEP && f.tid == t->id &&
          f.type != F_ALLOC && f.type != F_REENTER && f.type != F_TABALLOC &&
          uint64_t(f.a) <= t->steps) {
        best = int(i);
        break;
      }
    }
    if (best < 0) break;
    fire(best, t, T_STEP, int64_t(t->steps));
    next_fault(t);
  }
  if (t->steps >= t->preempt_at) {
    if (!g_spec->explicit_mode && g_spec->pol.pct) {
      sync_now(t);
      for (int i = 0; i < g_pct_n; i++)
        if (g_pct_at[i] && g_pct_at[i] <= g_total) {
          g_pct_at[i] = 0;
          int lo = 0;
          for (int k = 0; k < nT; k++)
            if (T[k].prio < lo) lo = T[k].prio;
          t->prio = lo - 1;
        }
    }
    sched_access(t, pc);
  } else {
    recompute(t);
  }
}

// ----------------------------------------------------------------- race checks
static std::unordered_map<uintptr_t, int>* g_races;
std::string rt_where(uint64_t a) {
  if (a - ARENA < ARENA_SZ) {
    for (auto& b : *blks)
      if (a >= b.first && a < b.first + b.second.size)
        return fmt("byte %zu of a %zu-byte heap block", size_t(a - b.first),
                   b.second.size);
    return fmt("heap offset %zu", size_t(a - ARENA));
  }
  if (a - glob_lo < glob_sz) return fmt("global@0x%lx", (unsigned long)a);
  return fmt("0x%lx", (unsigned long)a);
}
static void __attribute__((noinline))
race(Thr* t, uintptr_t a, int other, bool w, const char* what, void* pc) {
  sh->ctr[C_RACYLOC]++;
  if (sh->nrpc < 16) {
    uint64_t x = reinterpret_cast<uint64_t>(pc);
    int i = 0;
    while (i < sh->nrpc && sh->rpc[i] != x) i++;
    if (i == sh->nrpc) sh->rpc[sh->nrpc++] = x;
  }
  if (!g_out->race) {
    g_out->race = true;
    g_out->race_msg =
        fmt("data race: %s by thread %d at pc 0x%lx on %s, unordered with %s "
            "by thread %d",
            w ? "write" : "read", t->id, (unsigned long)pc,
            rt_where(a).c_str(), what, other);
  }
  if (rt_stop_on_race) rt_finish(2, "race", g_out->race_msg);
}
static void shadow(Thr* t, Cell* c, uintptr_t a, size_t n, bool w, bool at,
                   void* pc) {
  const uint32_t e = t->epoch | (at ? E_ATOMIC : 0);
  for (size_t i = 0; i < n; i++) {
    Cell& x = c[i];
    if (w ? (x.w == e && x.r == 0) : x.r == e) continue;
    if (x.w) {
      int o = e_tid(x.w);
      if (o != t->id && !(at && (x.w & E_ATOMIC)) &&
          e_clk(x.w) > t->vc.c[o])
        race(t, a + i, o, w, "a write", pc);
    }
    if (w) {
      if (x.r & E_SHARED) {
        SharedRead& s = sr_pool[x.r & ~E_SHARED];
        for (int o = 0; o < MAXT; o++)
          if (s.c[o] && o != t->id && !(at && (s.c[o] & E_ATOMIC)) &&
              (s.c[o] & ~E_ATOMIC) > t->vc.c[o])
            race(t, a + i, o, w, "a read", pc);
      } else if (x.r) {
        int o = e_tid(x.r);
        if (o != t->id && !(at && (x.r & E_ATOMIC)) && e_clk(x.r) > t->vc.c[o])
          race(t, a + i, o, w, "a read", pc);
      }
      x.w = e;
      x.r = 0;
    } else {
      if (x.r & E_SHARED) {
        sr_pool[x.r & ~E_SHARED].c[t->id] =
            e_clk(e) | (e & E_ATOMIC);
      } else if (x.r == 0 || e_tid(x.r) == t->id ||
                 e_clk(x.r) <= t->vc.c[e_tid(x.r)]) {
        x.r = e;
      } else {
        if (sr_n + 1 >= SR_MAX) rt_finish(3, "shadow", "read pool exhausted");
        uint32_t k = sr_n++;
        memset(&sr_pool[k], 0, sizeof(SharedRead));
        sr_pool[k].c[e_tid(x.r)] = e_clk(x.r) | (x.r & E_ATOMIC);
        sr_pool[k].c[t->id] = e_clk(e) | (e & E_ATOMIC);
        x.r = E_SHARED | k;
      }
    }
  }
}
static void bad_state(uintptr_t a, size_t n, bool w, void* pc) {
  for (size_t i = 0; i < n; i++) {
    uint8_t s = st_arena[a + i - ARENA];
    if (s == S_LIVE || s == S_RAW) continue;
    if (s == S_INPUT && !w) continue;
    const char* k = s == S_INPUT ? "writes to its input text"
                    : s == S_FREED ? "uses memory that was released"
                                   : "accesses memory outside its objects";
    memerr(1, fmt("%s %s (%s of %zu byte(s) at %s, pc 0x%lx)", opname().c_str(), k,
               w ? "write" : "read", n, rt_where(a + i).c_str(),
               (unsigned long)pc));
    return;
  }
}
static inline void check_arena(Thr* t, uintptr_t a, size_t n, bool w, bool at,
                               void* pc) {
  size_t o = a - ARENA;
  bool input = false;
  for (size_t i = 0; i < n; i++) {
    uint8_t s = st_arena[o + i];
    if (s == S_LIVE || s == S_RAW) continue;
    if (s == S_INPUT && !w) {
      input = true;
      continue;
    }
    bad_state(a, n, w, pc);
    return;
  }
  if (!input) shadow(t, sh_arena + o, a, n, w, at, pc);
}
static inline void hot(Thr* t, double p, void* pc) {
  if (p > 0 && nT > 1 && !g_spec->explicit_mode && !g_pol_off &&
      t->last_sw != t->steps && g_rng.chance(p))
    sched_access(t, pc);
}
static inline bool is_stack(Thr* t, uintptr_t a) { return a - t->stk < STK_SZ; }

static void __attribute__((noinline))
tracked(Thr* t, uintptr_t a, size_t n, bool w, void* pc) {
  if (__builtin_expect(!g_spec->pol.pcs.empty(), 0))
    for (uint64_t x : g_spec->pol.pcs)
      if (x == reinterpret_cast<uint64_t>(pc)) {
        hot(t, g_spec->pol.p_pc, pc);
        break;
      }
  if (a - ARENA < ARENA_SZ) {
    size_t g = (a - ARENA) >> 6;
    uint8_t m = g_blkshared[g];
    if (!(m & (1 << t->id))) g_blkshared[g] = m |= 1 << t->id;
    if (m & (m - 1)) hot(t, g_spec->pol.p_sh, pc);
    if (w) {
      t->spin_cnt = 0;
      t->spinning = false;
    }
    check_arena(t, a, n, w, false, pc);
  } else if (a - glob_lo < glob_sz) {
    hot(t, w ? g_spec->pol.p_gw : g_spec->pol.p_gr, pc);
    if (w) {
      t->spin_cnt = 0;
      t->spinning = false;
    }
    shadow(t, sh_glob + (a - glob_lo), a, n, w, false, pc);
  }
}
static inline __attribute__((always_inline)) void access(void* p, size_t n,
                                                         bool w, void* pc) {
  Thr* t = g_cur;
  if (!t || !t->insim) return;
  if (__builtin_expect(++t->steps >= t->event_at, 0)) slow_event(t, pc);
  uintptr_t sp = reinterpret_cast<uintptr_t>(__builtin_frame_address(0));
  if (sp < t->low_sp) t->low_sp = sp;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (is_stack(t, a)) return;
  tracked(t, a, n, w, pc);
}
static void range_access(const void* p, size_t n, bool w, void* pc) {
  Thr* t = g_cur;
  if (!t || !t->insim || !n) return;
  t->steps += n / 16;
  access(const_cast<void*>(p), 1, w, pc);
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (n > 1 && !is_stack(t, a)) tracked(t, a, n, w, pc);
}

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N)                                                          \
  void __tsan_read##N(void* p) { access(p, N, false, PC); }            \
  void __tsan_write##N(void* p) { access(p, N, true, PC); }            \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); }  \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); }  \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); }   \
  void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }   \
  void __tsan_read_write##N(void* p) {                                 \
    access(p, N, false, PC);                                           \
    access(p, N, true, PC);                                            \
  }                                                                    \
  void __tsan_unaligned_read_write##N(void* p) {                       \
    access(p, N, false, PC);                                           \
    access(p, N, true, PC);                                            \
  }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { range_access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { range_access(p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  range_access(s, n, false, PC);
  range_access(d, n, true, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  range_access(s, n, false, PC);
  range_access(d, n, true, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  range_access(d, n, true, PC);
  return memset(d, c, n);
}
void* sim_memcpy(void* d, const void* s, size_t n) {
  range_access(s, n, false, PC);
  range_access(d, n, true, PC);
  return memcpy(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) {
  range_access(s, n, false, PC);
  range_access(d, n, true, PC);
  return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n) {
  range_access(d, n, true, PC);
  return memset(d, c, n);
}
int sim_memcmp(const void* a, const void* b, size_t n) {
  range_access(a, n, false, PC);
  range_access(b, n, false, PC);
  return memcmp(a, b, n);
}
int sim_bcmp(const void* a, const void* b, size_t n) {
  range_access(a, n, false, PC);
  range_access(b, n, false, PC);
  return memcmp(a, b, n);
}
void* sim_memchr(const void* a, int c, size_t n) {
  void* r = const_cast<void*>(memchr(a, c, n));
  range_access(a, r ? size_t((char*)r - (const char*)a) + 1 : n, false, PC);
  return r;
}
size_t sim_strlen(const char* s) {
  size_t n = strlen(s);
  range_access(s, n + 1, false, PC);
  return n;
}
}  // extern "C"

// ---------------------------------------------------------------- memory model
struct StoreRec {
  uint64_t v;
  int tid;
  uint32_t clk;
  bool hasrel;
  VC rel;
  uint64_t at = g_now;   // simulated time of the store
};

struct Loc {
  std::vector<StoreRec> h;
  uint32_t seen[MAXT];   // index of the last store each thread read or wrote
};
static std::unordered_map<uintptr_t, Loc>* locs;
enum { MO_RLX, MO_CONS, MO_ACQ, MO_REL, MO_AR, MO_SC };
static inline bool is_acq(int m) {
  return m == MO_ACQ || m == MO_CONS || m == MO_AR || m == MO_SC;
}
static inline bool is_rel(int m) {
  return m == MO_REL || m == MO_AR || m == MO_SC;
}
static void bump(Thr* t) {
  t->vc.c[t->id]++;
  t->epoch = mk_epoch(t->id, t->vc.c[t->id]);
}
static uint64_t rd(uintptr_t a, int n) {
  uint64_t v = 0;
  memcpy(&v, reinterpret_cast<void*>(a), n);
  return v;
}
static Loc& loc_of(uintptr_t a, int n) {
  auto it = locs->find(a);
  uint64_t cur = rd(a, n);
  if (it == locs->end()) {
    Loc l;
    memset(l.seen, 0, sizeof l.seen);
    l.h.push_back(StoreRec{cur, 0, 0, false, VC{}});
    it = locs->emplace(a, l).first;
  } else if (it->second.h.back().v != cur) {
    // changed by a plain write (race-checked separately)
    it->second.h.push_back(StoreRec{cur, 0, 0, false, VC{}});
  }
  return it->second;
}
static void spin_tick(Thr* t, const void* a, uint64_t v, int n) {
  if (n && a == t->spin_addr && v != t->spin_val) t->spin_cnt = 0;   // news
  t->spin_n = n;
  t->spin_addr = a;
  t->spin_val = v;
  t->spin_cnt++;
}
static void check_polls(Thr* t) {
  uint64_t in_call = t->polls - t->polls0;
  if (in_call > max_polls(t->ev ? t->ev->op : nullptr) || t->realpolls > MAX_REAL_POLLS ||
      t->idle > 4000) {
    rt_finish(2, "hang",
              opname() + fmt(" still waits after %llu polls",
                             (unsigned long long)in_call));
  }
  if (g_realpolls > REAL_POLL_BUDGET) rt_finish(1, "", "");
}
static void unspin_others() {
  for (int i = 0; i < nT; i++) T[i].spinning = false;
}
static void maybe_spin_yield(Thr* t, uint64_t what) {
  if (t->pend && t->spinning && ++t->unconsumed > 64) {
    // no hook in this wait loop: the time passes poll by poll instead
    if (g_spec->judge == 19) {   // how long it waits does not matter
      if (t->pend > 100000) t->pend = 100000;
      if (t->polls - t->polls0 > 1000000)
        rt_finish(2, "waited", opname() + " waits for a call in another thread");
    }
    t->realpoll = t->pend;
    g_realpolls += t->pend;
    if (t->steps - t->nload != t->wait_mark) {   // did something else meanwhile: a new wait
      t->wait_mark = t->steps - t->nload;
      t->realpolls = 0;
    }
    t->pend = 0;
    t->unconsumed = 0;
  }
  if (t->spin_cnt < t->spin_base) t->spin_base = 0;   // progress was made
  if (t->spin_cnt > t->spin_base + uint64_t(g_spec->pol.spin_k)) {
    t->spin_base = t->spin_cnt;
    t->polls += 1;
    sh->ctr[C_POLLS] += 1;
    t->spinning = true;
    check_polls(t);
    if (t->pend) return;
    t->unconsumed = 0;
    sched_sync(t, SY_YIELD, 0, what);
  }
}
static uint64_t atom_load(void* p, int n, int mo, void* pc) {
  Thr* t = g_cur;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (!t || !t->insim) return rd(a, n);
  if (t->realpoll && p == t->spin_addr && rd(a, n) == t->spin_val) {
    t->realpoll--;
    t->polls++;
    t->realpolls++;
    if (!t->realpoll) {
      t->pend = 0;
      check_polls(t);
    }
    return t->spin_val;
  }
  t->steps++;
  t->steps += 0;
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(a) * 4 + 1);
  if (a - ARENA < ARENA_SZ)
    check_arena(t, a, n, false, true, pc);
  else if (a - glob_lo < glob_sz)
    shadow(t, sh_glob + (a - glob_lo), a, n, false, true, pc);
  Loc& l = loc_of(a, n);
  size_t top = l.h.size() - 1, ix = top;
  uint64_t loadix = t->nload++;
  // oldest store this thread may still read
  if (mo != MO_SC && top > 0) {
    size_t lo = l.seen[t->id];
    for (size_t i = top + 1; i-- > lo;) {
      const StoreRec& s = l.h[i];
      if (s.clk <= t->vc.c[s.tid]) {
        if (i > lo) lo = i;
        break;
      }
    }
    while (lo < top && l.h[lo + 1].at + VISIBLE_NS <= g_now) lo++;
    if (lo < top) {
      if (g_spec->explicit_mode) {
        auto it = t->stale.find(loadix);
        if (it != t->stale.end() && size_t(it->second) <= top - lo)
          ix = top - it->second;
      } else if (g_spec->pol.p_stale > 0 && g_rng.chance(g_spec->pol.p_stale)) {
        ix = lo + g_rng.below(top - lo);
        if (sh->nst < int(sizeof sh->st / sizeof sh->st[0])) {
          auto& r = sh->st[sh->nst++];
          r.tid = t->id;
          r.idx = loadix;
          r.back = int(top - ix);
        } else {
          ix = top;
        }
      }
      if (ix != top) sh->ctr[C_STALE]++;
    }
  }
  const StoreRec& s = l.h[ix];
  l.seen[t->id] = uint32_t(ix);
  if (s.hasrel) {
    if (is_acq(mo))
      t->vc.join(s.rel);
    else
      t->acqf.join(s.rel);
  }
  uint64_t v = s.v;
  hmix(v * 64 + t->id);
  imix(v);
  spin_tick(t, p, v, n);
  maybe_spin_yield(t, uint64_t(a) * 4 + 3);
  return v;
}
static void do_store(Thr* t, Loc& l, uintptr_t a, int n, uint64_t v, int mo,
                     const StoreRec* rmw_prev) {
  StoreRec s{v, t->id, t->vc.c[t->id], false, VC{}};
  if (is_rel(mo)) {
    s.hasrel = true;
    s.rel = t->vc;
  } else if (t->has_relf) {
    s.hasrel = true;
    s.rel = t->relf;
  }
  if (rmw_prev && rmw_prev->hasrel) {
    s.hasrel = true;
    s.rel.join(rmw_prev->rel);
  }
  l.h.push_back(s);
  l.seen[t->id] = uint32_t(l.h.size() - 1);
  memcpy(reinterpret_cast<void*>(a), &v, n);
  bump(t);
  hmix(v * 64 + 32 + t->id);
  imix(v * 2 + 1);
  t->spin_cnt = 0;
  unspin_others();
}
static void post_write(Thr* t) {
  const Policy& p = g_spec->pol;
  if (p.post_k && !g_spec->explicit_mode && !g_pol_off) {
    uint64_t at = t->steps + g_rng.logu(1, p.post_k);
    if (at < t->preempt_at) t->preempt_at = at;
    recompute(t);
  }
}
static void atom_store(void* p, int n, uint64_t v, int mo, void* pc) {
  Thr* t = g_cur;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (!t || !t->insim) {
    memcpy(p, &v, n);
    return;
  }
  t->steps++;
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(a) * 4 + 2);
  if (a - ARENA < ARENA_SZ)
    check_arena(t, a, n, true, true, pc);
  else if (a - glob_lo < glob_sz)
    shadow(t, sh_glob + (a - glob_lo), a, n, true, true, pc);
  Loc& l = loc_of(a, n);
  do_store(t, l, a, n, v, mo, nullptr);
  post_write(t);
}
enum { R_XCHG, R_ADD, R_SUB, R_AND, R_OR, R_XOR, R_NAND };
static uint64_t mask_of(int n) { return n == 8 ? ~0ull : (1ull << (8 * n)) - 1; }
static uint64_t rmw_val(int op, uint64_t o, uint64_t v, int n) {
  uint64_t r = 0;
  switch (op) {
    case R_XCHG: r = v; break;
    case R_ADD: r = o + v; break;
    case R_SUB: r = o - v; break;
    case R_AND: r = o & v; break;
    case R_OR: r = o | v; break;
    case R_XOR: r = o ^ v; break;
    case R_NAND: r = ~(o & v); break;
  }
  return r & mask_of(n);
}
static uint64_t atom_rmw(void* p, int n, int op, uint64_t v, int mo, void* pc) {
  Thr* t = g_cur;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  uint64_t o = rd(a, n);
  if (!t || !t->insim) {
    uint64_t r = rmw_val(op, o, v, n);
    memcpy(p, &r, n);
    return o;
  }
  if (t->realpoll && p == t->spin_addr && o == t->spin_val && rmw_val(op, o, v, n) == o) {
    t->realpoll--;
    t->polls++;
    t->realpolls++;
    if (!t->realpoll) {
      t->pend = 0;
      check_polls(t);
    }
    return o;
  }
  t->steps++;
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(a) * 4 + 2);
  if (a - ARENA < ARENA_SZ)
    check_arena(t, a, n, true, true, pc);
  else if (a - glob_lo < glob_sz)
    shadow(t, sh_glob + (a - glob_lo), a, n, true, true, pc);
  Loc& l = loc_of(a, n);
  StoreRec prev = l.h.back();
  o = prev.v;
  if (prev.hasrel) {
    if (is_acq(mo))
      t->vc.join(prev.rel);
    else
      t->acqf.join(prev.rel);
  }
  uint64_t nv = rmw_val(op, o, v, n);
  uint64_t spins = t->spin_cnt;
  if (nv == o && prev.tid == t->id) {   // nothing new but, perhaps, later knowledge
    StoreRec& s = l.h.back();
    if (is_rel(mo) || t->has_relf) {
      s.rel.join(is_rel(mo) ? t->vc : t->relf);
      s.hasrel = true;
    }
    l.seen[t->id] = uint32_t(l.h.size() - 1);
    bump(t);
    hmix(nv * 64 + 33 + t->id);
  } else {
    do_store(t, l, a, n, nv, mo, &prev);
  }
  if (nv == o) {  // e.g. test-and-set on a taken flag: no progress
    t->spin_cnt = spins;
    spin_tick(t, p, o, n);
    maybe_spin_yield(t, uint64_t(a) * 4 + 3);
  } else {
    post_write(t);
  }
  return o;
}
static bool atom_cas(void* p, int n, uint64_t* exp, uint64_t v, int mo, int fmo,
                     void* pc) {
  Thr* t = g_cur;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  if (!t || !t->insim) {
    uint64_t o = rd(a, n);
    if (o == *exp) {
      memcpy(p, &v, n);
      return true;
    }
    *exp = o;
    return false;
  }
  t->steps++;
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(a) * 4 + 2);
  if (a - ARENA < ARENA_SZ)
    check_arena(t, a, n, true, true, pc);
  else if (a - glob_lo < glob_sz)
    shadow(t, sh_glob + (a - glob_lo), a, n, true, true, pc);
  Loc& l = loc_of(a, n);
  StoreRec prev = l.h.back();
  uint64_t o = prev.v;
  if (o != (*exp & mask_of(n))) {
    l.seen[t->id] = uint32_t(l.h.size() - 1);
    if (prev.hasrel) {
      if (is_acq(fmo))
        t->vc.join(prev.rel);
      else
        t->acqf.join(prev.rel);
    }
    *exp = o;
    hmix(0xCA5 + o);
    spin_tick(t, p, o, n);
    maybe_spin_yield(t, uint64_t(a) * 4 + 3);
    return false;
  }
  if (prev.hasrel) {
    if (is_acq(mo))
      t->vc.join(prev.rel);
    else
      t->acqf.join(prev.rel);
  }
  do_store(t, l, a, n, v & mask_of(n), mo, &prev);
  post_write(t);
  return true;
}
extern "C" {
#define ATOM(B, TY)                                                          \
  TY __tsan_atomic##B##_load(const volatile TY* p, int mo) {                 \
    return TY(atom_load(const_cast<TY*>(p), B / 8, mo, PC));                 \
  }                                                                          \
  void __tsan_atomic##B##_store(volatile TY* p, TY v, int mo) {              \
    atom_store(const_cast<TY*>(p), B / 8, v, mo, PC);                        \
  }                                                                          \
  TY __tsan_atomic##B##_exchange(volatile TY* p, TY v, int mo) {             \
    return TY(atom_rmw(const_cast<TY*>(p), B / 8, R_XCHG, v, mo, PC));       \
  }                                                                          \
  TY __tsan_atomic##B##_fetch_add(volatile TY* p, TY v, int mo) {            \
    return TY(atom_rmw(const_cast<TY*>(p), B / 8, R_ADD, v, mo, PC));        \
  }                                                                          \
  TY __tsan_atomic##B##_fetch_sub(volatile TY* p, TY v, int mo) {            \
    return TY(atom_rmw(const_cast<TY*>(p), B / 8, R_SUB, v, mo, PC));        \
  }                                                                          \
  TY __tsan_atomic##B##_fetch_and(volatile TY* p, TY v, int mo) {            \
    return TY(atom_rmw(const_cast<TY*>(p), B / 8, R_AND, v, mo, PC));        \
  }                                                                          \
  TY __tsan_atomic##B##_fetch_or(volatile TY* p, TY v, int mo) {             \
    return TY(atom_rmw(const_cast<TY*>(p), B / 8, R_OR, v, mo, PC));         \
  }                                                                          \
  TY __tsan_atomic##B##_fetch_xor(volatile TY* p, TY v, int mo) {            \
    return TY(atom_rmw(const_cast<TY*>(p), B / 8, R_XOR, v, mo, PC));        \
  }                                                                          \
  TY __tsan_atomic##B##_fetch_nand(volatile TY* p, TY v, int mo) {           \
    return TY(atom_rmw(const_cast<TY*>(p), B / 8, R_NAND, v, mo, PC));       \
  }                                                                          \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, \
                                                 int mo, int fmo) {          \
    uint64_t x = *e;                                                         \
    bool r = atom_cas(const_cast<TY*>(p), B / 8, &x, v, mo, fmo, PC);        \
    *e = TY(x);                                                              \
    return r;                                                                \
  }                                                                          \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v,  \
                                               int mo, int fmo) {            \
    uint64_t x = *e;                                                         \
    bool r = atom_cas(const_cast<TY*>(p), B / 8, &x, v, mo, fmo, PC);        \
    *e = TY(x);                                                              \
    return r;                                                                \
  }                                                                          \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY* p, TY e, TY v,     \
                                             int mo, int fmo) {              \
    uint64_t x = e;                                                          \
    atom_cas(const_cast<TY*>(p), B / 8, &x, v, mo, fmo, PC);                 \
    return TY(x);                                                            \
  }
ATOM(8, uint8_t)
ATOM(16, uint16_t)
ATOM(32, uint32_t)
ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  Thr* t = g_cur;
  if (!t || !t->insim) return;
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, 0xFE);
  if (is_acq(mo)) t->vc.join(t->acqf);
  if (is_rel(mo)) {
    t->relf = t->vc;
    t->has_relf = true;
    bump(t);
  }
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------- poll seams
uint64_t ada_idna_sim_poll() noexcept {
  Thr* t = g_cur;
  if (!t || !t->insim) return 0;
  t->realpoll = 0;
  uint64_t d = t->pend;
  t->pend = 0;
  t->unconsumed = 0;
  if (d) {
    // let whoever's suspension ended run after this thread looked once more
    for (int i = 0; i < nT; i++)
      if (&T[i] != t && T[i].st == RUN && T[i].wake <= g_now && !T[i].stuck)
        T[i].spinning = T[i].spinning && T[i].pend == 0;
  }
  t->polls += d + 1;
  sh->ctr[C_POLLS] += d + 1;
  check_polls(t);
  return d;
}
void sim_pause() noexcept {
  Thr* t = g_cur;
  if (!t || !t->insim || t->realpoll) return;
  t->spin_cnt++;
}
}  // extern "C"

// ------------------------------------------------- locks, waits, clocks, guards
struct SyncObj {
  VC vc{};
  int owner = -1;
  int depth = 0;
  int readers = 0;
  int state = 0;
};
static std::unordered_map<const void*, SyncObj>* objs;
static SyncObj& obj(const void* p) { return (*objs)[p]; }
static void wake_all(const void* w) {
  for (int i = 0; i < nT; i++)
    if (T[i].st == BLOCKED && T[i].wait == w) {
      T[i].st = RUN;
      T[i].wait = nullptr;
      T[i].tmo = 0;
    }
  unspin_others();
}
static bool wake_one(const void* w) {
  int c[MAXT], n = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].st == BLOCKED && T[i].wait == w && !T[i].stuck) c[n++] = i;
  if (!n) return false;
  int k = c[mix64(g_spec->seed, g_cur ? g_cur->sp : 0) % n];
  T[k].st = RUN;
  T[k].wait = nullptr;
  T[k].tmo = 0;
  unspin_others();
  return true;
}
// returns false on time-out
static bool block_on(Thr* t, const void* w, uint64_t deadline) {
  t->st = BLOCKED;
  t->wait = w;
  t->tmo = deadline;
  t->timedout = false;
  sh->ctr[C_BLOCKED]++;
  if (t->ev) t->ev->blocked++;
  sched_sync(t, SY_LEAVE, 0, uint64_t(w) * 4);
  return !t->timedout;
}
static void acq(Thr* t, const VC& v) { t->vc.join(v); }
static void rel(Thr* t, VC& v) {
  v.join(t->vc);
  bump(t);
}
static uint64_t now_of(Thr* t) {
  sync_now(t);
  return g_now;
}
static uint64_t abs_ns(const timespec* ts) {
  return uint64_t(ts->tv_sec) * 1000000000ull + uint64_t(ts->tv_nsec);
}
static const uint64_t EPOCH_NS = 1700000000ull * 1000000000ull;

static int lock_impl(const void* m, bool tryonly, uint64_t deadline) {
  Thr* t = g_cur;
  if (!t || !t->insim) return 0;
  t->steps++;
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(m) * 4 + 1);
  for (;;) {
    SyncObj& o = obj(m);
    if (o.owner < 0 && o.readers == 0) {
      o.owner = t->id;
      acq(t, o.vc);
      t->spin_cnt = 0;
      return 0;
    }
    if (tryonly) {
      spin_tick(t, m, 1, 0);
      maybe_spin_yield(t, uint64_t(m) * 4 + 3);
      return EBUSY;
    }
    if (!block_on(t, m, deadline)) return ETIMEDOUT;
  }
}
static int unlock_impl(const void* m) {
  Thr* t = g_cur;
  if (!t || !t->insim) return 0;
  SyncObj& o = obj(m);
  if (o.readers > 0)
    o.readers--;
  else
    o.owner = -1;
  rel(t, o.vc);
  if (o.readers == 0) wake_all(m);
  t->steps++;
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(m) * 4 + 2);
  return 0;
}
static int rdlock_impl(const void* m, bool tryonly) {
  Thr* t = g_cur;
  if (!t || !t->insim) return 0;
  t->steps++;
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(m) * 4 + 1);
  for (;;) {
    SyncObj& o = obj(m);
    if (o.owner < 0) {
      o.readers++;
      acq(t, o.vc);
      return 0;
    }
    if (tryonly) return EBUSY;
    block_on(t, m, 0);
  }
}
static uint64_t real_deadline(clockid_t c, const timespec* ts) {
  uint64_t x = abs_ns(ts);
  if (c == CLOCK_REALTIME && x >= EPOCH_NS) x -= EPOCH_NS;
  return x ? x : 1;
}
extern "C" {
int sim_pthread_mutex_init(void*, const void*) { return 0; }
int sim_pthread_mutex_destroy(void*) { return 0; }
int sim_pthread_mutex_lock(void* m) { return lock_impl(m, false, 0); }
int sim_pthread_mutex_trylock(void* m) { return lock_impl(m, true, 0); }
int sim_pthread_mutex_timedlock(void* m, const timespec* ts) {
  return lock_impl(m, false, real_deadline(CLOCK_REALTIME, ts));
}
int sim_pthread_mutex_clocklock(void* m, clockid_t c, const timespec* ts) {
  return lock_impl(m, false, real_deadline(c, ts));
}
int sim_pthread_mutex_unlock(void* m) { return unlock_impl(m); }
int sim_pthread_spin_init(void*, int) { return 0; }
int sim_pthread_rwlock_rdlock(void* m) { return rdlock_impl(m, false); }
int sim_pthread_rwlock_tryrdlock(void* m) { return rdlock_impl(m, true); }
int sim_pthread_rwlock_wrlock(void* m) { return lock_impl(m, false, 0); }
int sim_pthread_rwlock_trywrlock(void* m) { return lock_impl(m, true, 0); }
int sim_pthread_rwlock_unlock(void* m) { return unlock_impl(m); }
int sim_pthread_rwlock_init(void*, const void*) { return 0; }
int sim_pthread_rwlock_destroy(void*) { return 0; }
static int cond_wait_impl(void* c, void* m, uint64_t dl) {
  Thr* t = g_cur;
  if (!t || !t->insim) return 0;
  SyncObj& o = obj(m);
  o.owner = -1;
  rel(t, o.vc);
  wake_all(m);
  bool ok = block_on(t, c, dl);
  acq(t, obj(c).vc);
  lock_impl(m, false, 0);
  return ok ? 0 : ETIMEDOUT;
}
int sim_pthread_cond_init(void*, const void*) { return 0; }
int sim_pthread_cond_destroy(void*) { return 0; }
int sim_pthread_cond_wait(void* c, void* m) { return cond_wait_impl(c, m, 0); }
int sim_pthread_cond_timedwait(void* c, void* m, const timespec* ts) {
  return cond_wait_impl(c, m, real_deadline(CLOCK_REALTIME, ts));
}
int sim_pthread_cond_clockwait(void* c, void* m, clockid_t k,
                               const timespec* ts) {
  return cond_wait_impl(c, m, real_deadline(k, ts));
}
int sim_pthread_cond_signal(void* c) {
  Thr* t = g_cur;
  if (!t || !t->insim) return 0;
  rel(t, obj(c).vc);
  wake_one(c);
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(c) * 4 + 2);
  return 0;
}
int sim_pthread_cond_broadcast(void* c) {
  Thr* t = g_cur;
  if (!t || !t->insim) return 0;
  rel(t, obj(c).vc);
  wake_all(c);
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(c) * 4 + 2);
  return 0;
}
// std::condition_variable members that live in libstdc++
void sim_cv_wait(void* cv, void* ul) {
  void* m = *reinterpret_cast<void**>(ul);
  sim_pthread_cond_wait(cv, m);
}
void sim_cv_notify_one(void* cv) { sim_pthread_cond_signal(cv); }
void sim_cv_notify_all(void* cv) { sim_pthread_cond_broadcast(cv); }

int sim_pthread_once(void* o, void (*fn)()) {
  Thr* t = g_cur;
  if (!t || !t->insim) {
    fn();
    return 0;
  }
  t->steps++;
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(o) * 4 + 1);
  for (;;) {
    SyncObj& s = obj(o);
    if (s.state == 2) {
      acq(t, s.vc);
      return 0;
    }
    if (s.state == 0) break;
    if (g_spec->judge == 19) rt_finish(1, "", "");   // one-time work is S04's
    block_on(t, o, 0);
  }
  obj(o).state = 1;
  try {
    fn();
  } catch (...) {
    obj(o).state = 0;
    wake_all(o);
    throw;
  }
  SyncObj& s = obj(o);
  s.state = 2;
  rel(t, s.vc);
  wake_all(o);
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(o) * 4 + 2);
  return 0;
}
int sim_cxa_guard_acquire(uint64_t* g) {
  Thr* t = g_cur;
  uint8_t* b = reinterpret_cast<uint8_t*>(g);
  if (!t || !t->insim) {
    if (*b) return 0;
    return 1;
  }
  t->steps++;
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(g) * 4 + 1);
  for (;;) {
    SyncObj& s = obj(g);
    if (*b) {
      acq(t, s.vc);
      return 0;
    }
    if (s.state == 0) break;
    if (s.owner == t->id)
      rt_finish(2, "hang", opname() + " re-entered a static initialiser");
    if (g_spec->judge == 19) rt_finish(1, "", "");   // one-time work is S04's
    block_on(t, g, 0);
  }
  obj(g).state = 1;
  obj(g).owner = t->id;
  return 1;
}
void sim_cxa_guard_release(uint64_t* g) {
  Thr* t = g_cur;
  uint8_t* b = reinterpret_cast<uint8_t*>(g);
  if (!t || !t->insim) {
    *b = 1;
    return;
  }
  SyncObj& s = obj(g);
  s.state = 2;
  s.owner = -1;
  s.vc.join(t->vc);
  Loc& l = loc_of(uintptr_t(b), 1);
  do_store(t, l, uintptr_t(b), 1, 1, MO_REL, nullptr);
  wake_all(g);
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(g) * 4 + 2);
}
void sim_cxa_guard_abort(uint64_t* g) {
  Thr* t = g_cur;
  if (!t || !t->insim) return;
  SyncObj& s = obj(g);
  s.state = 0;
  s.owner = -1;
  rel(t, s.vc);
  wake_all(g);
}
int sim_sched_yield() {
  Thr* t = g_cur;
  if (!t || !t->insim) return 0;
  t->spin_cnt++;
  sched_sync(t, SY_SYNC, 0.5, 0x11);
  return 0;
}
static void sim_sleep_ns(uint64_t ns) {
  Thr* t = g_cur;
  if (!t || !t->insim) return;
  sync_now(t);
  t->wake = g_now + (ns ? ns : 1);
  sched_sync(t, SY_LEAVE, 0, 0x12);
}
int sim_nanosleep(const timespec* a, timespec*) {
  sim_sleep_ns(abs_ns(a));
  return 0;
}
int sim_clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec*) {
  Thr* t = g_cur;
  if (!t || !t->insim) return 0;
  uint64_t ns = abs_ns(a);
  if (fl & TIMER_ABSTIME) {
    uint64_t d = real_deadline(c, a);
    uint64_t n = now_of(t);
    ns = d > n ? d - n : 0;
  }
  sim_sleep_ns(ns);
  return 0;
}
int sim_usleep(unsigned us) {
  sim_sleep_ns(uint64_t(us) * 1000);
  return 0;
}
int sim_clock_gettime(clockid_t c, timespec* ts) {
  Thr* t = g_cur;
  uint64_t n = t && t->insim ? (t->steps += 20, now_of(t)) : g_now;
  if (t && t->insim) t->spin_cnt++;
  if (c == CLOCK_REALTIME) n += EPOCH_NS;
  if (g_spec && g_spec->env)   // another date, another time since the start
    n += mix64(uint64_t(g_spec->env), 11) % (c == CLOCK_REALTIME ? 1200000000000000000ull : 9000000000000000ull);
  ts->tv_sec = time_t(n / 1000000000ull);
  ts->tv_nsec = long(n % 1000000000ull);
  if (t && t->insim) maybe_spin_yield(t, 0x13);
  return 0;
}
int64_t sim_steady_now() {
  timespec ts;
  sim_clock_gettime(CLOCK_MONOTONIC, &ts);
  return int64_t(abs_ns(&ts));
}
int64_t sim_system_now() {
  timespec ts;
  sim_clock_gettime(CLOCK_REALTIME, &ts);
  return int64_t(abs_ns(&ts));
}
}
#include "envsim.inc"
extern "C" {
long sim_syscall(long nr, long a1, long a2, long a3, long a4, long a5, long a6) {
  Thr* t = g_cur;
  if (nr == SYS_futex && t && t->insim) {
    int op = int(a2) & FUTEX_CMD_MASK;
    int* w = reinterpret_cast<int*>(a1);
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(a1) * 4 + 1);
      if (*w != int(a3)) {
        errno = EAGAIN;
        return -1;
      }
      uint64_t dl = 0;
      if (a4) {
        const timespec* ts = reinterpret_cast<const timespec*>(a4);
        dl = op == FUTEX_WAIT ? now_of(t) + abs_ns(ts)
                              : real_deadline(CLOCK_MONOTONIC, ts);
      }
      if (!block_on(t, w, dl)) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      long n = 0;
      while (n < a3 && wake_one(w)) n++;
      sched_sync(t, SY_SYNC, g_spec->pol.p_sync, uint64_t(a1) * 4 + 2);
      return n;
    }
  }
  if (nr == SYS_futex) return 0;
  return syscall(nr, a1, a2, a3, a4, a5, a6);
}
}  // extern "C"

// ----------------------------------------------------------------------- malloc
static void run_nested(Thr* t, const Op& op, bool in_table);
static bool is_init_size(size_t n) {
  for (uint64_t s : calib.init_sizes)
    if (s == n) return true;
  return false;
}
// Runs with flag 4 hand released blocks out again, as an allocator with
// per-thread caches does: last released first, old contents in place.
static void recycle(Thr* t, uintptr_t a, size_t n) {
  t->cache[(n + 15) / 16].push_back(a);
}
static void* recycled(Thr* t, size_t n, size_t al, int kind) {
  auto it = t->cache.find((n + 15) / 16);
  if (it == t->cache.end() || it->second.empty()) return nullptr;
  uintptr_t a = it->second.back();
  if (al > 16 && a % al) return nullptr;
  it->second.pop_back();
  size_t cap = (n + 15) / 16 * 16;
  memset(static_cast<void*>(sh_arena + (a - ARENA)), 0, cap * sizeof(Cell));
  memset(st_arena + (a - ARENA), S_NONE, cap);
  memset(st_arena + (a - ARENA), S_LIVE, n);
  if (!locs->empty())
    for (uintptr_t x = a; x < a + cap; x++) locs->erase(x);
  (*blks)[a] = Blk{n, uint8_t(kind), true, false, t->id, 0};
  sh->ctr[C_REUSE]++;
  return reinterpret_cast<void*>(a);
}
static void* lib_alloc(size_t n, size_t al, int kind) {
  Thr* t = g_cur;
  if (!t || !t->insim) {
    g_live_lib += n;
    return take_block(n, al, kind, true, S_LIVE);
  }
  t->steps++;
  t->spin_cnt = 0;
  sched_sync(t, SY_SYNC, g_spec->pol.p_sync * 0.5, 0xA11);
  uint64_t ix = t->nalloc++;
  sh->ctr[C_ALLOC]++;
  if (t->ev) t->ev->allocs++;
  const bool table = is_init_size(n);
  if (table) {
    sh->ctr[C_TABLEALLOC]++;
    g_out->tab_reqs++;
    if (n == calib.table_main) g_out->tab_main++;
    if (t->ev) t->ev->tabreqs++;
  }
  hmix(0xA000 + n);
  if (t->ev && t->ev->sizes) t->ev->sizes->push_back(n);
  bool fail = false;
  const Op* nested = nullptr;
  for (size_t i = 0; i < g_faults.size(); i++) {
    const Fault& f = g_faults[i];
    if (f.type == F_ALLOC && f.trig == T_STEP && f.tid == t->id && !g_nofail &&
        ix >= uint64_t(f.a) && ix < uint64_t(f.a + (f.n ? f.n : 1))) {
      fail = true;
    }
    if (f.type == F_TABALLOC && table && !g_nofail &&
        g_table_reqs >= f.a && (f.n <= 0 || g_table_reqs < f.a + f.n)) {
      fail = true;
    }
    if (f.type == F_REENTER && !g_fdone[i] && t->depth == 1 &&
        (f.trig == T_TABLE ? table : (f.tid == t->id && ix == uint64_t(f.a)))) {
      g_fdone[i] = 1;
      record_fired(f, int(i), t, f.trig, int64_t(ix));
      nested = &f.op;
    }
  }
  if (table) g_table_reqs++;
  if (g_oom && !g_nofail) {
    fail = true;
    if (g_oom > 0) g_oom--;
  }
  const Policy& p = g_spec->pol;
  if (!g_spec->explicit_mode && !g_nofail && !fail) {
    if (p.p_alloc > 0 && (p.alloc_scope == 1 || !table) &&
        g_rng.chance(p.p_alloc)) {
      fail = true;
      Fault f;
      f.type = F_ALLOC;
      record_fired(f, -1, t, T_STEP, int64_t(ix));
    }
    if (p.p_reenter > 0 && t->depth == 1 && !g_spec->reops.empty() &&
        g_rng.chance(p.p_reenter)) {
      int k = int(g_rng.below(g_spec->reops.size()));
      Fault f;
      f.type = F_REENTER;
      record_fired(f, -1, t, T_STEP, int64_t(ix));
      sh->fired[sh->nfired - 1].opix = k;
      nested = &g_spec->reops[k];
    }
  }
  if (nested) run_nested(t, *nested, table);
  if (g_quota && !g_nofail && g_live_lib + n > g_quota) {
    fail = true;
    sh->ctr[C_QUOTAFAIL]++;
  }
  if (fail) {
    sh->ctr[C_ALLOCFAIL]++;
    if (table) {
      sh->ctr[C_TABFAIL]++;
      g_out->tabfail_any++;
    }
    if (t->ev) {
      t->ev->allocfails++;
      if (table) t->ev->tabfails++;
      if (!t->ev->first_fail_size) t->ev->first_fail_size = n;
    }
    hmix(0xDEAD);
    return nullptr;
  }
  void* r = nullptr;
  if (g_spec->flags & 4) r = recycled(t, n, al, kind);
  if (!r) {
    r = take_block(n, al, kind, true, S_LIVE);
    memset(r, g_spec->fillbyte, n);
  }
  g_live_lib += n;
  if (g_live_lib > g_live_peak) g_live_peak = g_live_lib;
  if (table) table_faults(t);
  return r;
}
static void lib_free(void* p, int kind, void* pc) {
  if (!p) return;
  Thr* t = g_cur;
  uintptr_t a = reinterpret_cast<uintptr_t>(p);
  auto it = blks->find(a);
  if (it == blks->end()) {
    if (a - ARENA < ARENA_SZ || (t && t->insim))
      memerr(2, opname() + " releases memory it does not own");
    return;
  }
  Blk& b = it->second;
  if (b.freed) {
    memerr(2, opname() + " releases the same memory twice");
    return;
  }
  if (b.kind != kind)
    memerr(2, opname() + " releases memory with the wrong deallocation function");
  if (!b.lib) {
    memerr(2, opname() + " releases memory owned by its caller");
    return;
  }
  if (t && t->insim) {
    t->steps++;
    t->spin_cnt = 0;
    check_arena(t, a, b.size, true, false, pc);
    hmix(0xF4EE + b.size);
    g_live_lib -= b.size;
    const bool keep = g_spec->flags & 4;
    memset(p, 0xDD, keep && b.size > 16 ? 16 : b.size);
    if (keep) recycle(t, a, b.size);
  } else {
    g_live_lib -= g_live_lib >= b.size ? b.size : g_live_lib;
  }
  b.freed = true;
  memset(st_arena + (a - ARENA), S_FREED, b.size);
}
static void* must(void* p) {
  if (!p) throw std::bad_alloc();
  return p;
}
extern "C" {
void* sim_new(size_t n) { return must(lib_alloc(n, 16, 0)); }
void* sim_newa(size_t n) { return must(lib_alloc(n, 16, 1)); }
void* sim_new_nt(size_t n, const void*) { return lib_alloc(n, 16, 0); }
void* sim_newa_nt(size_t n, const void*) { return lib_alloc(n, 16, 1); }
void* sim_new_al(size_t n, size_t al) { return must(lib_alloc(n, al, 0)); }
void* sim_newa_al(size_t n, size_t al) { return must(lib_alloc(n, al, 1)); }
void* sim_new_al_nt(size_t n, size_t al, const void*) { return lib_alloc(n, al, 0); }
void* sim_newa_al_nt(size_t n, size_t al, const void*) { return lib_alloc(n, al, 1); }
void sim_del(void* p) { lib_free(p, 0, PC); }
void sim_dela(void* p) { lib_free(p, 1, PC); }
void sim_del_sz(void* p, size_t) { lib_free(p, 0, PC); }
void sim_dela_sz(void* p, size_t) { lib_free(p, 1, PC); }
void sim_del_al(void* p, size_t) { lib_free(p, 0, PC); }
void sim_dela_al(void* p, size_t) { lib_free(p, 1, PC); }
void sim_del_sz_al(void* p, size_t, size_t) { lib_free(p, 0, PC); }
void sim_dela_sz_al(void* p, size_t, size_t) { lib_free(p, 1, PC); }
void sim_del_nt(void* p, const void*) { lib_free(p, 0, PC); }
void sim_dela_nt(void* p, const void*) { lib_free(p, 1, PC); }
void* sim_malloc(size_t n) {
  void* p = lib_alloc(n, 16, 2);
  if (!p) errno = ENOMEM;
  return p;
}
void* sim_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void* p = sim_malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
void sim_free(void* p) { lib_free(p, 2, PC); }
void* sim_realloc(void* o, size_t n) {
  if (!o) return sim_malloc(n);
  auto it = blks->find(uintptr_t(o));
  if (it == blks->end() || it->second.freed)
{
    memerr(2, opname() + " reallocates memory it does not own");
    return nullptr;
  }
  void* p = sim_malloc(n);
  if (!p) return nullptr;
  size_t k = (*blks)[uintptr_t(o)].size;
  memcpy(p, o, k < n ? k : n);
  lib_free(o, 2, PC);
  return p;
}
void* sim_aligned_alloc(size_t al, size_t n) { return lib_alloc(n, al, 2); }
int sim_posix_memalign(void** o, size_t al, size_t n) {
  void* p = lib_alloc(n, al, 2);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
void* sim_mmap(void*, size_t n, int, int flags, int, long) {
  (void)flags;
  void* p = lib_alloc((n + 4095) & ~size_t(4095), 4096, 3);
  if (!p) {
    errno = ENOMEM;
    return MAP_FAILED;
  }
  memset(p, 0, n);
  return p;
}
int sim_munmap(void* p, size_t) {
  lib_free(p, 3, PC);
  return 0;
}
int sim_mprotect(void*, size_t, int) { return 0; }

// --------------------------------------------------------- start-up, tear-down
static std::vector<std::pair<void (*)(void*), void*>>* g_atexit;
int sim_cxa_atexit(void (*f)(void*), void* a, void*) {
  g_atexit->push_back({f, a});
  return 0;
}
int sim_atexit(void (*f)()) {
  g_atexit->push_back({reinterpret_cast<void (*)(void*)>(f), nullptr});
  return 0;
}
int sim_cxa_thread_atexit(void (*f)(void*), void* a, void*) {
  Thr* t = g_cur;
  if (t)
    t->tls.push_back({f, a});
  return 0;
}
typedef void (*InitFn)(int, char**, char**);
extern InitFn __start_sim_init_array[] __attribute__((weak));
extern InitFn __stop_sim_init_array[] __attribute__((weak));
extern InitFn __start_sim_fini_array[] __attribute__((weak));
extern InitFn __stop_sim_fini_array[] __attribute__((weak));
}  // extern "C"
static void run_ctors() {
  for (InitFn* f = __start_sim_init_array; f && f < __stop_sim_init_array; f++)
    if (*f) (*f)(0, nullptr, nullptr);
}
static void run_dtors() {
  while (!g_atexit->empty()) {
    auto x = g_atexit->back();
    g_atexit->pop_back();
    x.first(x.second);
  }
  for (InitFn* f = __start_sim_fini_array; f && f < __stop_sim_fini_array; f++)
    if (*f) reinterpret_cast<void (*)()>(*f)();
}
static void run_tls(Thr* t) {
  while (!t->tls.empty()) {
    auto x = t->tls.back();
    t->tls.pop_back();
    x.first(x.second);
  }
}

// ------------------------------------------------------------------- execution
struct Input {
  const void* p;
};
static std::unordered_map<std::string, void*>* g_inputs;   // shared by threads
static bool text32(int kind) {
  switch (kind) {
    case K_MAP_B: case K_MAP_S: case K_IS_NFC: case K_NORMALIZE: case K_PUNY_ENC:
    case K_LABEL_VALID: case K_NAME_CP: case K_U32TO8: case K_LEN32: return true;
    default: return false;
  }
}
// how far from a 64-byte boundary a text lies
static size_t displaced(uint64_t what, size_t unit) {
  if (!g_spec->env || env_of(20) % 4 == 0) return 0;
  return mix64(uint64_t(g_spec->env), what) % 64 / unit * unit;
}
static void* input_block(const std::string& s, bool wide) {
  auto it = g_inputs->find(s);
  if (it != g_inputs->end() && !(wide && uintptr_t(it->second) % 4)) return it->second;
  // exactly sized, nothing readable before or after it
  size_t off = displaced(30 + g_inputs->size(), wide ? 4 : 1);
  uint8_t* p = static_cast<uint8_t*>(take_block(off + (s.size() ? s.size() : 1), off ? 64 : 4, 9, false, S_INPUT));
  memset(st_arena + (uintptr_t(p) - ARENA), S_NONE, off + !s.size());
  p += off;
  memcpy(p, s.data(), s.size());
  (*g_inputs)[s] = p;
  return p;
}
static size_t raw_size(const Op& op) {
  switch (op.kind) {
    case K_ASCII_MAP: return op.in.size();
    case K_NAME_CP: return op.in.size() / 8;
    case K_U8TO32: {
      size_t c = 0;
      for (char x : op.in) c += (int8_t)x > -65;
      return c * 4;
    }
    case K_U32TO8: {
      size_t c = 0;
      for (size_t i = 0; i + 4 <= op.in.size(); i += 4) {
        uint32_t v;
        memcpy(&v, op.in.data() + i, 4);
        c += 1 + (v > 0x7f) + (v > 0x7ff) + (v > 0xffff);
      }
      return c;
    }
    default: return 0;
  }
}
static void call_event(Thr* t, int kind) {
  bool was = t->insim;
  if (kind == K_EV_CTORS) {
    t->insim = true;
    run_ctors();
    t->insim = was;
  } else if (kind == K_EV_DTORS) {
    t->insim = true;
    run_dtors();
    t->insim = was;
  } else if (kind == K_EV_TLS_DTORS) {
    t->insim = true;
    run_tls(t);
    t->insim = was;
  } else if (kind == K_EV_RELEASE) {
    for (auto& s : t->slots)
      if (s) {
        t->insim = true;
        shim_slot_free(s);
        t->insim = was;
        s = nullptr;
      }
  } else if (kind == K_EV_HEAL) {
    g_oom = 0;
    g_quota = 0;
    g_nofail = true;
  }
}
static void __attribute__((noinline)) dirty_stack() {
  volatile char b[24576];
  memset(const_cast<char*>(b), g_spec->fillbyte, sizeof b);
}
// A buffer the caller reuses for successive arguments (same address, new text).
static void* reused_buffer(Thr* t, int k, const std::string& s) {
  const size_t CAP = 20480;
  uintptr_t& p = t->bufs[k];
  if (!p) {
    size_t off = displaced(uint64_t(k), 4);
    p = arena_take(CAP + off, 64) + off;
  }
  memset(st_arena + (p - ARENA), S_NONE, CAP);
  memset(st_arena + (p - ARENA), S_INPUT, s.size());
  memcpy(reinterpret_cast<void*>(p), s.data(), s.size());
  return reinterpret_cast<void*>(p);
}
static double cpu_seconds() {
  timespec x;
  clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &x);
  return double(x.tv_sec) + 1e-9 * double(x.tv_nsec);
}
static void exec_op(Thr* t, const Op& op, int idx, int phase) {
  int otid = sh->cur_tid, oop = sh->cur_op, oph = sh->cur_phase,
      ok = sh->cur_kind;
  sh->cur_tid = t->id;
  sh->cur_op = idx;
  sh->cur_phase = phase;
  sh->cur_kind = op.kind;
  sh->op_cpu = cpu_seconds();
  hmix(0x0B00 + op.kind);
  imix(0x0B00 + op.kind * 8 + t->id);
  if (op.kind >= K_API_COUNT) {
    call_event(t, op.kind);
    sh->cur_tid = otid;
    sh->cur_op = oop;
    sh->cur_phase = oph;
    sh->cur_kind = ok;
    return;
  }
  const bool outer = t->insim;
  t->insim = false;
  void*& slot = t->slots[op.slot];
  if (!slot) {
    slot = shim_slot_new();
  }
  if (op.fill > 0) {
    std::string g(size_t(op.fill), char('A' + idx % 26));
    shim_slot_fill(slot, g.data(), g.size());
  }
  void* in = op.buf > 0 && op.in.size() <= 20480 && !t->depth
                 ? reused_buffer(t, op.buf & 3, op.in)
                 : input_block(op.in, text32(op.kind));
  size_t rc = raw_size(op);
  void* raw = nullptr;
  if (rc) {
    size_t off = displaced(90 + uint64_t(idx), op.kind == K_U8TO32 ? 4 : 1);
    uint8_t* b = static_cast<uint8_t*>(take_block(off + rc, off ? 64 : 4, 9, false, S_RAW));
    memset(st_arena + (uintptr_t(b) - ARENA), S_NONE, off);
    raw = b + off;
    if (op.kind == K_ASCII_MAP) memcpy(raw, op.in.data(), rc);
    else memset(raw, 0xEE, rc);
  } else {
    raw = reinterpret_cast<void*>(arena_take(16, 16));   // not accessible
  }
  g_out->ev.emplace_back();
  size_t evix = g_out->ev.size() - 1;
  {
    OpEvent& e = g_out->ev[evix];
    e = OpEvent{};
    e.tid = t->id;
    e.idx = idx;
    e.phase = phase;
    e.op = &op;
    e.begin_seq = g_seq++;
    e.begin_step = t->steps;
    if (g_spec->flags & 1) e.sizes = new std::vector<uint64_t>;
  }
  OpEvent* prev = t->ev;
  OpEvent local = g_out->ev[evix];
  t->ev = &local;
  uint64_t polls0 = t->polls, outer_polls0 = t->polls0;
  t->polls0 = t->polls;
  t->idle = t->realpolls = 0;
  uint64_t live0 = g_live_lib, peak0 = g_live_peak;
  g_live_peak = g_live_lib;
  ShimArgs a{in, op.in.size(), static_cast<unsigned char*>(raw), rc};
  ShimRes r{};
  t->spin_cnt = 0;
  if (!t->depth) dirty_stack();
  uintptr_t sp0 = reinterpret_cast<uintptr_t>(__builtin_frame_address(0)), low0 = t->low_sp;
  t->low_sp = sp0;
  t->depth++;
  t->insim = true;
  shim_call(op.kind, &a, slot, &r);
  if (op.rep > 1) {
    // again and again, until an answer differs from the first
    const int rc0 = r.rc;
    const std::string out0(r.ptr && r.len ? static_cast<const char*>(r.ptr) : "", r.ptr ? r.len : 0);
    for (int i = 1; i < op.rep; i++) {
      t->insim = false;
      sh->ctr[C_CALLS]++;
      if (op.kind == K_PUNY_DEC || op.kind == K_PUNY_ENC) shim_slot_fill(slot, "", 0);
      if (op.kind == K_ASCII_MAP) memcpy(raw, op.in.data(), raw_size(op));
      r = ShimRes{};
      t->spin_cnt = 0;
      t->polls0 = t->polls;
      t->insim = true;
      shim_call(op.kind, &a, slot, &r);
      if (r.rc != rc0 || (r.ptr ? r.len : 0) != out0.size() ||
          (out0.size() && memcmp(r.ptr, out0.data(), out0.size()) != 0))
        break;
    }
  }
  t->insim = false;
  t->depth--;
  local.stack = sp0 - t->low_sp;
  t->low_sp = std::min(low0, t->low_sp);
  t->spin_cnt = 0;
  t->spinning = false;
  t->pend = 0;
  t->realpoll = 0;
  local.res.ran = true;
  local.res.rc = r.rc;
  if (r.ptr && r.len)
    local.res.out.assign(static_cast<const char*>(r.ptr), r.len);
  local.polls = t->polls - polls0;
  t->polls0 = outer_polls0 + local.polls;   // not the outer call's own wait
  local.peak = g_live_peak - live0;
  if (peak0 > g_live_peak) g_live_peak = peak0;
  local.end_seq = g_seq++;
  local.steps = t->steps - local.begin_step;
  local.done = true;
  local.input_changed = memcmp(in, op.in.data(), op.in.size()) != 0;
  if (op.buf > 0 && in == reinterpret_cast<void*>(t->bufs[op.buf & 3]))
    memset(st_arena + (uintptr_t(in) - ARENA), S_FREED, op.in.size());
  t->ev = prev;
  g_out->ev[evix] = local;
  sh->ctr[C_CALLS]++;
  if (local.polls || local.blocked) sh->ctr[C_WAITS]++;
  hmix(uint64_t(r.rc));
  for (size_t i = 0; i < local.res.out.size(); i += 1 + i / 64)
    hmix(uint8_t(local.res.out[i]));
  t->insim = outer;
  sh->cur_tid = otid;
  sh->cur_op = oop;
  sh->cur_phase = oph;
  sh->cur_kind = ok;
}
static void run_nested(Thr* t, const Op& op, bool in_table) {
  sh->ctr[C_REENTER]++;
  Thr& x = *t;
  auto sp = x.spin_cnt;
  size_t at = g_out->ev.size();
  exec_op(t, op, 1000 + int(sh->ctr[C_REENTER]), 3);
  g_out->ev[at].nested_in_table_alloc = in_table;
  x.spin_cnt = sp;
}
static void* thread_main(void* p) {
  Thr* t = static_cast<Thr*>(p);
  park(t);
  for (size_t i = 0; i < t->ops->size(); i++)
    exec_op(t, (*t->ops)[i], int(i), 1);
  call_event(t, K_EV_TLS_DTORS);
  t->st = DONE;
  wake_join();
  advance(t);
  // leave for good
  int next = -1;
  t->sp++;
  uint64_t key = t->sp * 2 + 1;
  if (g_spec->explicit_mode) {
    while (t->rs < t->recS.size() && t->recS[t->rs].first < key) t->rs++;
    if (t->rs < t->recS.size() && t->recS[t->rs].first == key) {
      int w = t->recS[t->rs].second;
      if (w >= 0 && w < nT && runnable(T[w])) next = w;
    }
  } else {
    next = pick_random(t, true);
  }
  if (next < 0) next = pick_default(t);
  rec_switch(t, key, next);
  imix(0x9100 + next);
  transfer(t, &T[next]);   // parks for ever
  return nullptr;
}
static void wake_join() {
  for (int i = 1; i < nT; i++)
    if (T[i].st != DONE && !T[i].stuck) return;
  if (T[0].st == BLOCKED && T[0].wait == JOIN) {
    T[0].st = RUN;
    T[0].wait = nullptr;
  }
}
static void start_thread(Thr* t) {
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, reinterpret_cast<void*>(t->stk), STK_SZ);
  if (pthread_create(&t->pt, &at, thread_main, t) != 0)
    rt_finish(3, "thread", "pthread_create failed");
}

static void* map_at(uintptr_t a, size_t n) {
  void* p = mmap(reinterpret_cast<void*>(a), n, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE |
                     (a ? MAP_FIXED_NOREPLACE : 0),
                 -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  return p;
}
void rt_init_parent() {
  map_at(ARENA, ARENA_SZ);
  map_at(STK, (STK_SZ + STK_GAP) * (MAXT + 1));
  sh_arena = static_cast<Cell*>(map_at(0, ARENA_SZ * sizeof(Cell)));
  st_arena = static_cast<uint8_t*>(map_at(0, ARENA_SZ));
  g_blkshared = static_cast<uint8_t*>(map_at(0, ARENA_SZ / 64));
  sr_pool = static_cast<SharedRead*>(map_at(0, SR_MAX * sizeof(SharedRead)));
  glob_lo = reinterpret_cast<uintptr_t>(data_start);
  glob_sz = size_t(_end - data_start);
  sh_glob = static_cast<Cell*>(map_at(0, glob_sz * sizeof(Cell)));
  size_t n;
  const unsigned char* b = stored_tables(&n);
  uintptr_t lo = uintptr_t(b) & ~uintptr_t(4095);
  uintptr_t hi = (uintptr_t(b) + n + 4095) & ~uintptr_t(4095);
  if (n) mprotect(reinterpret_cast<void*>(lo), hi - lo, PROT_READ | PROT_WRITE);
  blks = new std::unordered_map<uintptr_t, Blk>;
  locs = new std::unordered_map<uintptr_t, Loc>;
  objs = new std::unordered_map<const void*, SyncObj>;
  g_inputs = new std::unordered_map<std::string, void*>;
  g_races = new std::unordered_map<uintptr_t, int>;
  g_atexit = new std::vector<std::pair<void (*)(void*), void*>>;
}

static void body(const Spec& s) {
  Thr* m = &T[0];
  for (size_t i = 0; i < s.pro.size(); i++) exec_op(m, s.pro[i], int(i), 0);
  // start the threads
  int n = int(s.thr.size());
  for (int i = 1; i <= n; i++) {
    Thr& x = T[i];
    x.st = RUN;
    x.ops = &s.thr[size_t(i - 1)];
    x.vc = m->vc;
    x.vc.c[i] = 1;
    x.epoch = mk_epoch(i, 1);
    start_thread(&x);
  }
  nT = n + 1;
  bump(m);
  if (n) {
    m->st = BLOCKED;
    m->wait = JOIN;
    m->tmo = 0;
    sched_sync(m, SY_LEAVE, 0, 0x77);
    for (int i = 1; i <= n; i++)
      if (T[i].st == DONE) m->vc.join(T[i].vc);
  }
  for (size_t i = 0; i < s.epi.size(); i++) exec_op(m, s.epi[i], int(i), 2);
}
void rt_snapshot_live(std::vector<std::pair<uint64_t, uint64_t>>& v) {
  std::vector<uintptr_t> k;
  for (auto& b : *blks)
    if (!b.second.freed && b.second.lib) k.push_back(b.first);
  std::sort(k.begin(), k.end());
  for (uintptr_t a : k) {
    size_t n = (*blks)[a].size;
    uint64_t h = 1469598103934665603ull;
    const uint8_t* p = reinterpret_cast<const uint8_t*>(a);
    for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull;
    v.push_back({n, h});
  }
}
static void release_slots() {
  // after the run, on the main thread: callers drop their outputs
  Thr* m = &T[0];
  for (int i = 0; i < nT; i++) {
    if (T[i].stuck) continue;
    for (auto& s : T[i].slots)
      if (s) {
        m->insim = true;
        shim_slot_free(s);
        m->insim = false;
        s = nullptr;
      }
  }
}
// Applies a specification to the main thread, which is about to start it.
static void begin_spec(const Spec& s) {
  Thr* m = &T[0];
  sync_now(m);
  g_spec = &s;
  m->steps = m->in_steps = m->nosync = m->sp = m->nalloc = m->nload = m->nrand = 0;
  m->polls = m->polls0 = 0;
  m->last_sw = ~0ull;
  g_total = 0;
  g_t0 = g_now;
  sh->nsw = sh->nst = sh->nfired = sh->trunc = sh->nrpc = 0;
  sh->hash = 0x1234;
  sh->ihash = 0x4321;
  memset(sh->ctr, 0, sizeof sh->ctr);
  sh->ctr[C_ENVRUN] = s.env != 0;
  g_rng = Rng(mix64(s.seed, 0x5CED));
  g_faults = s.faults;
  g_fdone.assign(g_faults.size(), 0);
  for (int i = 0; i < MAXT; i++) T[i].prio = int(g_rng.below(1000)) + 1;
  for (const Switch& w : s.sw)
    if (w.tid >= 0 && w.tid < MAXT) {
      auto& v = (w.step & 1) ? T[w.tid].recS : T[w.tid].recA;
      v.push_back({(w.step & 1) ? w.step : w.step / 2, w.next});
    }
  for (const Stale& w : s.st)
    if (w.tid >= 0 && w.tid < MAXT) T[w.tid].stale[w.idx] = w.back;
  for (size_t i = 0; i < g_faults.size(); i++) {
    Fault& f = g_faults[i];
    if (f.trig == T_SYNC && f.tid >= 0 && f.tid < MAXT)
      T[f.tid].sfault.push_back(int(i));
  }
  uint64_t est = calib.init_steps ? calib.init_steps : 1000000;
  g_pct_n = s.pol.pct > 16 ? 16 : s.pol.pct;
  for (int i = 0; i < g_pct_n; i++)
    g_pct_at[i] = g_rng.chance(0.5) ? 1 + g_rng.below(est * 3 / 2)
                                    : g_rng.logu(1, est * 2);
  std::sort(g_pct_at, g_pct_at + g_pct_n);
  g_budget = est * 60 + 400000000ull;
  for (size_t i = 0; i < g_faults.size(); i++)
    if (g_faults[i].trig == T_START) fire(int(i), &T[0], T_START, 0);
  for (int i = 0; i < MAXT; i++) {
    next_fault(&T[i]);
    draw_slice(&T[i]);
  }
}
// Static initialisers and one ordinary call, always in the same way.
static const Spec* warm_image() {
  static Spec w;
  static RunOut o;
  RunOut* keep = g_out;
  g_out = &o;
  w.seed = 7;
  w.pol.spin_k = 24;
  Op c;
  c.kind = K_EV_CTORS;
  w.pro.push_back(c);
  Op a;
  a.kind = K_IS_NFC;
  a.slot = 8;
  const uint32_t txt[2] = {0xe9, 0x4e2d};
  a.in.assign(reinterpret_cast<const char*>(txt), sizeof txt);
  w.pro.push_back(a);
  c.kind = K_EV_RELEASE;
  w.pro.push_back(c);
  begin_spec(w);
  for (size_t i = 0; i < w.pro.size(); i++) exec_op(&T[0], w.pro[i], int(i), 0);
  g_table_reqs = 0;
  g_out = keep;
  return &w;
}
const Spec* (*rt_zygote)() = nullptr;
static void* main_thread(void*) {
  RunOut& o = *g_out;
  park(&T[0]);
  const Spec* s = g_spec;
  if (s->flags & 8) {
    warm_image();
    if (rt_zygote) s = rt_zygote();
  }
  begin_spec(*s);
  body(*g_spec);
  T[0].insim = false;
  g_nofail = true;
  g_oom = 0;
  g_quota = 0;
  release_slots();
  call_event(&T[0], K_EV_TLS_DTORS);
  sync_now(&T[0]);
  sh->ctr[C_STEPS] = g_total;
  sh->ctr[C_SIMNS] = g_now - g_t0;
  uint64_t live = 0;
  for (auto& b : *blks)
    if (!b.second.freed && b.second.lib) live += b.second.size;
  o.live_lib_end = live;
  g_after(*g_spec, o);
  rt_finish(1, "", "");
}
[[noreturn]] void rt_exec(const Spec& s, RunOut& o,
                          void (*after)(const Spec&, RunOut&)) {
  g_spec = &s;
  g_out = &o;
  g_after = after;
  if (const char* l = getenv("SIM_LOG")) {
    std::string f = std::string(l) + (s.explicit_mode ? ".explicit" : ".seeded");
    g_log = fopen(f.c_str(), "w");
  }
  o.ev.reserve(4096);
  for (int i = 0; i < MAXT; i++) {
    T[i].id = i;
    T[i].stk = STK + size_t(i) * (STK_SZ + STK_GAP);
    T[i].vc.c[i] = 1;
    T[i].epoch = mk_epoch(i, 1);
  }
  nT = 1;
  T[0].st = RUN;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstack(&at, reinterpret_cast<void*>(T[0].stk), STK_SZ);
  if (pthread_create(&T[0].pt, &at, main_thread, nullptr) != 0)
    rt_finish(3, "thread", "pthread_create failed");
  g_cur = &T[0];
  T[0].go = 1;
  futex_wake1(&T[0].go);
  for (;;) pause();
}
