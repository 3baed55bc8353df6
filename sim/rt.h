// Deterministic simulator runtime.  The library's object file is compiled with
// clang's thread-sanitizer instrumentation but linked against this runtime
// instead of the sanitizer's, so that every memory access, atomic operation,
// lock, allocation, clock read and static-init guard of the library is a seam.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

#include "shim.h"

constexpr int MAXT = 8;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
  // log-uniform integer in [lo, hi]
  uint64_t logu(uint64_t lo, uint64_t hi);
};
inline uint64_t mix64(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull + b);
  r.next();
  return r.next() ^ (b << 1);
}

// ---------------------------------------------------------------- specification
struct Op {
  int kind = 0;
  int slot = 0;           // output object reused by ops with the same number
  int buf = 0;            // >0: argument placed in this reused caller buffer
  int ref = -1;           // index of the expected result
  int fill = 0;           // >0: put this many garbage bytes in the output first
  int rep = 0;            // >1: made this many times in a row
  std::string in;         // argument bytes (char32_t little endian for UTF-32)
};

enum FaultType {
  F_STALL,    // thread is suspended for dur ns (-1: for ever = killed / lost)
  F_ALLOC,    // fail allocation number a.. (count n) of the thread
  F_TABALLOC, // fail the table memory request (every one)
  F_OOM,      // from this step of the thread on, n allocations of anyone fail
  F_QUOTA,    // heap quota in bytes from the start
  F_CORRUPT,  // change the stored compressed tables
  F_REENTER,  // run another call inside allocation a of the thread
  F_NTYPES
};
enum Trig {
  T_STEP,   // thread-local step a
  T_SYNC,   // a-th synchronisation point of the thread, plus b steps
  T_TABLE,  // table allocation by whoever does it, plus b steps (tid ignored)
  T_START,  // before the first call
};
struct Edit {
  uint32_t off, len;
  int mode;  // 0 xor, 1 set
  uint8_t val;
};
struct Fault {
  int type = 0, trig = T_STEP, tid = 0;
  int64_t a = 0, b = 0;
  int64_t n = 0;   // count / duration ns / quota bytes
  std::vector<Edit> edits;
  Op op;           // for F_REENTER
};
struct Policy {
  int kind = 0;             // label only, for statistics
  double p_sync = 0;        // switch at a synchronisation point
  uint64_t acc_lo = 0, acc_hi = 0;  // access-count slice, log-uniform; 0 = off
  double p_gw = 0, p_gr = 0;  // switch at a write/read of a mutable global
  double p_sh = 0;          // switch at access to a heap block seen by others
  int post_k = 0;           // after an atomic write, switch within k accesses
  int pct = 0;              // number of priority change points
  double p_stale = 0;       // atomic load returns an older permitted value
  int spin_k = 24;          // unproductive polls before yielding
  double p_alloc = 0;       // each allocation fails with this probability
  int alloc_scope = 0;      // 0 never the table block, 1 any, 2 (unused)
  double p_reenter = 0;     // allocator re-enters the library
  std::vector<uint64_t> pcs;  // code locations seen to race
  double p_pc = 0;          // switch at an access made there
};
struct Switch { int tid; uint64_t step; int next; };
struct Stale { int tid; uint64_t idx; int back; };

struct Spec {
  std::string prop;
  uint64_t seed = 0;
  int judge = 0;            // number of the property whose rules apply
  int explicit_mode = 0;
  int fillbyte = 0xCD;
  int env = 0;              // locale, variables, dates, ...; alignment of inputs
  int flags = 0;            // 1 record sizes, 2 quota oracle, 4 allocator reuses
                            // blocks, 8 starts from the warm image
  Policy pol;
  std::vector<Op> pro;
  std::vector<std::vector<Op>> thr;
  std::vector<Op> epi;
  std::vector<Op> reops;    // pool for random re-entrant calls
  std::vector<Fault> faults;
  std::vector<Switch> sw;
  std::vector<Stale> st;
};

// --------------------------------------------------------------------- results
enum Ctr {
  C_STEPS, C_SYNC, C_SWITCH, C_PREEMPT, C_STALE, C_STALL, C_KILL, C_ALLOC,
  C_ALLOCFAIL, C_TABFAIL, C_QUOTAFAIL, C_CORRUPT, C_REENTER, C_POLLS,
  C_TIMEJUMP, C_CALLS, C_CALLS_CLOSED, C_BADALLOC, C_TABLEALLOC, C_WAITS,
  C_SIMNS, C_RACYLOC, C_EARLYCALLS, C_LATECALLS, C_INITCONC, C_BLOCKED,
  C_TIMEOUT, C_MEMERR, C_REUSE, C_ENVASK, C_ENVRUN, C_N
};
extern const char* const kCtrName[C_N];

struct OpRes {
  int rc = -1;
  std::string out;
  bool ran = false;
};
// what happened to one call
struct OpEvent {
  int tid, idx, phase;      // phase 0 prologue, 1 thread, 2 epilogue, 3 nested
  const Op* op;
  OpRes res;
  uint64_t begin_seq, end_seq;   // global event numbers
  uint64_t polls, blocked, allocs, allocfails, tabfails, tabreqs, throws_ok;
  uint64_t peak;            // peak live bytes above the level at entry
  uint64_t first_fail_size;
  uint64_t begin_step, steps;
  uint64_t stack;           // deepest stack use of library code, in bytes
  std::vector<uint64_t>* sizes;
  bool nested_in_table_alloc;
  bool done;
  bool input_changed;
};

struct Shared {
  volatile int status;      // 0 running, 1 clean, 2 violation, 3 internal error
  char cls[64];
  char msg[2048];
  uint64_t hash;            // complete event log
  uint64_t ihash;           // interleaving: order of synchronisation + switches
  uint64_t ctr[C_N];
  volatile int cur_tid, cur_op, cur_phase, cur_kind;
  volatile double op_cpu;   // processor time when the last call began
  int nsw, nst, nfired;
  int trunc;
  struct { int tid; int next; uint64_t step; } sw[100000];
  struct { int tid; int back; uint64_t idx; } st[20000];
  struct { int type, trig, tid, opix; int64_t a, n; int src; } fired[4000];
  int nrpc; uint64_t rpc[16];  // racing code locations
  uint64_t req_seed; int req_j; int req_npc; uint64_t req_pc[16];  // to the zygote
  uint64_t initsteps;
  uint32_t ncal; uint64_t cal[64];
  uint64_t tabhash; uint64_t livebytes; uint64_t peak;
  int rc; uint32_t outlen; uint32_t outcap;
  unsigned char out[1 << 19];
};
extern Shared* sh;

// Environment measured by calibration runs.
struct Calib {
  uint64_t table_main = 0;      // the largest request of the expansion
  bool hash_ok = false;         // content does not depend on addresses
  uint64_t table_size = 0;      // the block kept by a successful expansion
  uint64_t live_after = 0;      // library bytes live after table use
  uint64_t tabhash = 0;         // content hash of that memory
  std::vector<uint64_t> init_sizes;  // requests made by the expansion
  uint64_t init_steps = 0;
  int table_blocks = 0;
};
extern Calib calib;

// Runs one specification to the end in the calling (forked) process and never
// returns normally before sh->status is set.
struct RunOut {
  std::vector<OpEvent> ev;
  bool race = false, memerr = false;
  int memerr_kind = 0;
  std::string race_msg, memerr_msg;
  uint64_t live_lib_end = 0;
  uint64_t tab_reqs = 0, tab_main = 0;
  std::vector<std::pair<uint64_t, uint64_t>> live_blocks;  // size, hash
  bool stuck_any = false;
  uint64_t tabfail_any = 0;
  bool corrupt_any = false;
};
// the compressed tables inside the library under test (n = 0: not located)
const unsigned char* stored_tables(size_t* n);
void rt_init_parent();
// In a zygote: called on the warm image, returns in the process of each run.
extern const Spec* (*rt_zygote)();
[[noreturn]] void rt_exec(const Spec& s, RunOut& o,
                          void (*after)(const Spec&, RunOut&));
void rt_snapshot_live(std::vector<std::pair<uint64_t, uint64_t>>& v);
std::string rt_where(uint64_t addr);
[[noreturn]] void rt_finish(int status, const char* cls, const std::string& msg);
extern const Spec* g_spec;
// 1: data race ends the run as a violation
extern int rt_stop_on_race;
// bit 0: accesses outside owned memory end the run, bit 1: bad releases do
extern int rt_stop_on_mem;
