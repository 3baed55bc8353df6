// Driver: builds seeded simulated runs for each property, executes each in a
// forked process under the runtime in rt.cpp, judges the recorded history,
// gates, minimises and writes replay files, and reports coverage.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <bitset>
#include <set>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

#include "ops.h"
#include "refinflate.h"
#include "rt.h"

static std::vector<PoolOp> pool;
static std::vector<int> ix_heavy, ix_freebig, ix_mid;
static std::vector<int> ix_scale;         // the first of four
static std::vector<int> ix_all, ix_free, ix_need, ix_table, ix_small, ix_over,
    ix_big, ix_fewace, ix_needfew, ix_dense;
static std::map<int, std::vector<std::pair<int, int>>> pairs;   // confusable calls by kind
static std::vector<std::vector<int>> groups;
static std::vector<std::pair<int, int>> twins;
static int P;                      // property number
static std::vector<std::string> known;
static std::string variant;         // build of the library, when not the default one

static std::string fmt(const char* f, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
static double mono() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
static Shared* map_shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<Shared*>(p);
}
static void reset_shared() {
  sh->status = 0;
  sh->cls[0] = sh->msg[0] = 0;
  sh->hash = 0x1234;
  sh->ihash = 0x4321;
  memset(sh->ctr, 0, sizeof sh->ctr);
  sh->cur_tid = 0;
  sh->cur_op = 0;
  sh->cur_phase = 0;
  sh->cur_kind = 0;
  sh->nsw = sh->nst = sh->nfired = sh->trunc = 0;
  sh->ncal = 0;
  sh->outlen = 0;
}

// ------------------------------------------------------- expected results
static void ref_child(const Op& op) {
  std::vector<unsigned char> raw(op.in.size() * 4 + 64, 0xEE);
  size_t rc = 0;
  switch (op.kind) {
    case K_ASCII_MAP:
      rc = op.in.size();
      memcpy(raw.data(), op.in.data(), rc);
      break;
    case K_NAME_CP: rc = op.in.size() / 8; break;
    default: rc = raw.size();
  }
  std::vector<uint32_t> aligned((op.in.size() + 3) / 4 + 1);
  memcpy(aligned.data(), op.in.data(), op.in.size());
  ShimArgs a{aligned.data(), op.in.size(), raw.data(), rc};
  ShimRes r{};
  void* slot = ref_shim_slot_new();
  ref_shim_call(op.kind, &a, slot, &r);
  sh->rc = r.rc;
  sh->outlen = uint32_t(r.len);
  if (r.len > sizeof sh->out) _exit(9);
  if (r.len) memcpy(sh->out, r.ptr, r.len);
  sh->status = 1;
  _exit(0);
}
static bool ref_one(const Op& op, Ref& out) {
  reset_shared();
  pid_t p = fork();
  if (p == 0) {
    rlimit l{120, 120};
    setrlimit(RLIMIT_CPU, &l);
    ref_child(op);
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (!WIFEXITED(st) || WEXITSTATUS(st) || sh->status != 1) {
    out.rc = -77;   // crashed: nothing counts as right
    out.out.clear();
    return false;
  }
  out.rc = sh->rc;
  out.out.assign(reinterpret_cast<char*>(sh->out), sh->outlen);
  return true;
}
static std::string read_all(int fd) {
  std::string s;
  lseek(fd, 0, SEEK_SET);
  char b[65536];
  ssize_t k;
  while ((k = read(fd, b, sizeof b)) > 0) s.append(b, size_t(k));
  return s;
}
static void write_all(int fd, const void* p, size_t n) {
  const char* c = static_cast<const char*>(p);
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) _exit(2);
    c += k;
    n -= size_t(k);
  }
}
static int memfd() {
  int fd = int(syscall(SYS_memfd_create, "sim", 0));
  if (fd < 0) {
    perror("memfd");
    exit(2);
  }
  return fd;
}
static void compute_refs(int workers) {
  std::vector<int> fds;
  std::vector<pid_t> ps;
  for (int w = 0; w < workers; w++) {
    int fd = memfd();
    fds.push_back(fd);
    pid_t p = fork();
    if (p == 0) {
      sh = map_shared();
      for (size_t i = size_t(w); i < pool.size(); i += size_t(workers)) {
        Ref r;
        ref_one(pool[i].op, r);
        uint32_t h[3] = {uint32_t(i), uint32_t(r.rc), uint32_t(r.out.size())};
        write_all(fd, h, sizeof h);
        write_all(fd, r.out.data(), r.out.size());
      }
      _exit(0);
    }
    ps.push_back(p);
  }
  for (int w = 0; w < workers; w++) {
    int st;
    waitpid(ps[size_t(w)], &st, 0);
    std::string s = read_all(fds[size_t(w)]);
    close(fds[size_t(w)]);
    for (size_t o = 0; o + 12 <= s.size();) {
      uint32_t h[3];
      memcpy(h, &s[o], 12);
      o += 12;
      pool[h[0]].ref.rc = int(h[1]);
      pool[h[0]].ref.out = s.substr(o, h[2]);
      o += h[2];
    }
  }
  for (PoolOp& p : pool) classify_after_ref(p);
}
static void index_pool() {
  ix_all.clear(); ix_free.clear(); ix_need.clear(); ix_table.clear();
  ix_small.clear(); ix_over.clear(); ix_big.clear(); ix_fewace.clear();
  ix_needfew.clear(); ix_heavy.clear(); groups.clear(); twins.clear(); ix_dense.clear(); pairs.clear();
  ix_scale.clear(); ix_freebig.clear(); ix_mid.clear();
  for (size_t i = 0; i < pool.size(); i++) {
    PoolOp& p = pool[i];
    p.op.ref = int(i);
    int k = int(i);
    if (p.scale >= 0) {
      if (i == 0 || pool[i - 1].scale != p.scale) ix_scale.push_back(k);
      continue;
    }
    if (p.heavy) {
      ix_heavy.push_back(k);
      if (p.overlimit) ix_over.push_back(k);
      else if (p.op.in.size() <= 4096 && p.op.in.size() >= 256) ix_mid.push_back(k);
      continue;
    }
    if (p.dense) {
      ix_dense.push_back(k);
      continue;
    }
    ix_all.push_back(k);
    if (p.overlimit) ix_over.push_back(k);
    else if (p.big) {
      ix_big.push_back(k);
      if (p.tablefree) ix_freebig.push_back(k);
    }
    else {
      ix_small.push_back(k);
      if (p.tablefree) ix_free.push_back(k);
      else ix_table.push_back(k);
      if (p.needs) ix_need.push_back(k);
      if (p.ace <= 2) {
        ix_fewace.push_back(k);
        if (p.needs) ix_needfew.push_back(k);
      }
    }
    if (p.group >= int(groups.size())) groups.resize(size_t(p.group) + 1);
    if (p.group >= 0) {
      for (int q : groups[size_t(p.group)]) {
        const PoolOp& o = pool[size_t(q)];
        if (o.op.kind == p.op.kind && o.op.in.size() == p.op.in.size() && o.op.in != p.op.in &&
            (o.ref.rc != p.ref.rc || o.ref.out != p.ref.out))
          pairs[p.op.kind].push_back({q, k});
        if (o.twin && p.twin && (o.ref.rc != p.ref.rc || o.ref.out != p.ref.out))
          twins.push_back({q, k});
      }
      groups[size_t(p.group)].push_back(k);
    }
  }
}

// ---------------------------------------------------------------- running one
struct Outcome {
  int status = 0;         // 1 clean, 2 violation, 3 machinery error
  std::string cls, msg;
  uint64_t hash = 0, ihash = 0;
};
static void judge_history(const Spec& s, RunOut& o);
static void apply_stop_rules(int J) {
  rt_stop_on_race = J == 2;
  switch (J) {
    case 5: case 6: case 7: case 10: case 12: rt_stop_on_mem = 3; break;
    case 13: rt_stop_on_mem = 2; break;
    default: rt_stop_on_mem = 0;
  }
}
static void limits(int J) {
  rlimit l{60, 63};
  setrlimit(RLIMIT_CPU, &l);
  rlimit c{0, 0};
  setrlimit(RLIMIT_CORE, &c);
  int fd = getenv("SIM_MEASURE") ? -1 : open("/dev/null", O_WRONLY);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
  apply_stop_rules(J);
}
static Outcome outcome_of(int st);
static Outcome run_spec(const Spec& s) {
  reset_shared();
  pid_t p = fork();
  if (p == 0) {
    limits(s.judge);
    RunOut* o = new RunOut;
    rt_exec(s, *o, judge_history);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return outcome_of(st);
}
static Outcome outcome_of(int st) {
  Outcome r;
  r.hash = sh->hash;
  r.ihash = sh->ihash;
  r.status = sh->status;
  r.cls = sh->cls;
  r.msg = sh->msg;
  if (r.status == 0) {
    r.status = 2;
    std::string at = fmt(" in thread %d call %d (%s)", sh->cur_tid, sh->cur_op,
                         kind_name(sh->cur_kind));
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU && sh->op_cpu > 25) {
      r.status = 1;        // a long run, given up undecided
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) {
      r.cls = "hang";
      r.msg = "no end in sight after 60 s of processor time" + at;
      r.hash = r.ihash = 0;
    } else if (WIFSIGNALED(st)) {
      r.cls = "crash";
      r.msg = fmt("process killed by signal %d", WTERMSIG(st)) + at;
    } else {
      r.status = 3;
      r.cls = "exit";
      r.msg = fmt("run ended with exit code %d", WEXITSTATUS(st)) + at;
    }
  }
  return r;
}

// ---------------------------------------------------------------- calibration
static void cal_after(const Spec&, RunOut& o) {
  // events: probe cold, probe warm (the rest is preparation)
  std::vector<uint64_t> cold, warm;
  uint64_t steps = 0;
  int k = 0;
  bool ok = true;
  for (OpEvent& e : o.ev) {
    if (e.op->fill != -1) continue;
    if (k == 0) {
      cold = *e.sizes;
      steps = e.steps;
    } else {
      warm = *e.sizes;
    }
    ok = ok && e.res.rc == 1;
    k++;
  }
  for (uint64_t w : warm) {
    auto it = std::find(cold.begin(), cold.end(), w);
    if (it != cold.end()) cold.erase(it);
  }
  std::vector<std::pair<uint64_t, uint64_t>> live;
  rt_snapshot_live(live);
  sh->initsteps = steps;
  sh->livebytes = o.live_lib_end;
  uint64_t h = 7;
  for (auto& x : live) {
    h = mix64(h, x.first);
    h = mix64(h, x.second);
  }
  sh->tabhash = h;
  sh->ncal = 0;
  sh->cal[sh->ncal++] = live.size();
  for (uint64_t c : cold)
    if (sh->ncal < 64) sh->cal[sh->ncal++] = c;
  sh->rc = ok ? 1 : 0;
  rt_finish(1, "", "");
}
static void calibrate() {
  Op probe;
  probe.kind = K_IS_NFC;
  probe.in = u32b(U"\xe9\x4e2d");
  probe.fill = -1;
  Op ctors;
  ctors.kind = K_EV_CTORS;
  uint64_t hashes[2];
  for (int pass = 0; pass < 2; pass++) {
    Spec s;
    s.flags = 1;
    s.pol.spin_k = 24;
    s.fillbyte = pass ? 0x11 : 0xCD;
    s.pro.push_back(ctors);
    if (pass) {
      Op a;
      a.kind = K_TO_ASCII_B;
      a.in = std::string(700, 'A');
      a.slot = 1;
      s.pro.push_back(a);
    }
    s.pro.push_back(probe);
    s.pro.push_back(probe);
    reset_shared();
    pid_t p = fork();
    if (p == 0) {
      rt_stop_on_mem = 0;
      RunOut* o = new RunOut;
      rt_exec(s, *o, cal_after);
    }
    int st;
    waitpid(p, &st, 0);
    if (sh->status != 1 || sh->rc != 1) {
      fprintf(stderr, "calibration failed: status %d rc %d %s %s\n", sh->status,
              sh->rc, sh->cls, sh->msg);
      exit(2);
    }
    hashes[pass] = sh->tabhash;
  }
  calib.tabhash = hashes[0];
  calib.hash_ok = hashes[0] == hashes[1];
  calib.init_steps = sh->initsteps;
  calib.live_after = sh->livebytes;
  calib.table_blocks = int(sh->cal[0]);
  calib.init_sizes.clear();
  for (uint32_t i = 1; i < sh->ncal; i++) {
    calib.init_sizes.push_back(sh->cal[i]);
    calib.table_main = std::max(calib.table_main, sh->cal[i]);
  }
  calib.table_size = calib.live_after;
}

// ------------------------------------------------------------------- oracles
static const uint64_t kSlowPolls = 100000000ull;   // waited out, per the property

static const uint64_t kSetupWork = 20000000;      // steps of the first-use expansion
static const uint64_t kStackLimit = 32 << 10;
static const int kScaleRun = 32;                  // Spec::flags: judge_growth applies
// cost per byte of one doubling over that of the doubling before it
static const double kLinA = 1.25, kLinB = 1.15, kQuadA = 2.8, kQuadB = 2.4;
static const bool measure = getenv("SIM_MEASURE") != nullptr;

static std::string descr(const OpEvent& e) {
  static const char* ph[] = {"main thread, before", "thread", "main thread, after",
                             "re-entrant"};
  std::string s = fmt("%s", kind_name(e.op->kind));
  s += "(" + show(e.op->in) + ") ";
  if (e.phase == 1) s += fmt("in thread %d", e.tid);
  else s += fmt("(%s)", ph[e.phase]);
  return s;
}
static std::string got(const OpEvent& e) {
  if (e.res.rc == RC_BAD_ALLOC) return "std::bad_alloc";
  if (e.res.rc == RC_OTHER_EXC) return "an exception";
  return fmt("rc=%d ", e.res.rc) + show(e.res.out);
}
[[noreturn]] static void violation(const char* cls, const std::string& m) {
  rt_finish(2, cls, m);
}
static bool corrupt_in(const Spec& s) {
  for (const Fault& f : s.faults)
    if (f.type == F_CORRUPT) return true;
  return false;
}
static const uint64_t kSetupHeap = 1 << 20;   // of the first-use expansion, tables aside
static uint64_t heap_bound(const PoolOp& p) { return 16384 + 256 * p.op.in.size(); }
// Four calls of one shape, each twice as long as the one before. What the
// last doubling cost is compared with what the one before it cost.
static void judge_growth(const RunOut& o, bool heap) {
  std::vector<const OpEvent*> e;
  for (const OpEvent& x : o.ev) {
    if (!x.done || x.op->ref < 0) continue;
    if (x.polls || x.blocked || x.tabreqs || x.allocfails) return;
    e.push_back(&x);
  }
  if (e.size() != 4) return;
  double st[4], len[4], peak[4];
  for (size_t i = 0; i < 4; i++) {
    if (e[i]->op->kind != e[0]->op->kind || e[i]->res.rc != e[0]->res.rc) return;
    st[i] = double(e[i]->steps);
    peak[i] = double(e[i]->peak);
    len[i] = double(e[i]->op->in.size());
    if (i && (len[i] > 2.3 * len[i - 1] || len[i] < 1.7 * len[i - 1])) return;
  }
  if (heap) {
    if (measure)
      fprintf(stderr, "M %s %.0f %.0f %.0f %.0f %.0f %.3f %.3f\n", kind_name(e[0]->op->kind), len[3], peak[0], peak[1], peak[2], peak[3], peak[3]/(peak[0]+1), peak[2]/(peak[0]+1));
    if (peak[3] > 65536 && peak[0] > 256 && peak[3] > 36 * peak[0])
      violation("heap", descr(*e[3]) + fmt(": inputs of this shape of %.0f, %.0f, %.0f and %.0f bytes had %.0f, %.0f, %.0f and "
                                           "%.0f bytes of heap at once: more than linear growth", len[0], len[1], len[2], len[3],
                                           peak[0], peak[1], peak[2], peak[3]));
    return;
  }
  bool lin = true;
  for (const OpEvent* x : e) lin = lin && works_linearly(pool[size_t(x->op->ref)]);
  double c1 = (st[1] - st[0]) / (len[1] - len[0]), c2 = (st[2] - st[1]) / (len[2] - len[1]),
         c3 = (st[3] - st[2]) / (len[3] - len[2]);
  if (measure)
    fprintf(stderr, "G %s %d %.0f %.0f %.3f %.3f\n", kind_name(e[0]->op->kind), lin, len[3], st[3] - st[2], c3 / c2, c2 / c1);
  if (c1 <= 0 || c2 <= 0 || st[3] - st[2] < 2000) return;
  const double a = lin ? kLinA : kQuadA, b = lin ? kLinB : kQuadB;
  if (c3 > a * c2 && c2 > b * c1)
    violation("work", descr(*e[3]) + fmt(": inputs of this shape of %.0f, %.0f, %.0f and %.0f bytes took %.0f, %.0f, %.0f and "
                                         "%.0f memory accesses: more than %s growth", len[0], len[1], len[2], len[3],
                                         st[0], st[1], st[2], st[3], lin ? "linear" : "quadratic"));
}
static void judge_history(const Spec& s, RunOut& o) {
  const int J = s.judge;
  const bool corrupt = o.corrupt_any || corrupt_in(s);
  const bool tabfail = o.tabfail_any > 0;
  uint64_t first_avail = ~0ull, first_unavail = ~0ull;
  // In a tree that sets its tables up without requesting memory nothing tells
  // which call did it: one call in a fresh process is excused.
  bool excuse = calib.table_size == 0 && !(s.flags & 8);
  // --- per call
  for (OpEvent& e : o.ev) {
    if (!e.done) continue;
    const PoolOp& p = pool[size_t(e.op->ref)];
    Verdict v = judge(p, e.res);
    sh->ctr[C_CALLS_CLOSED] += v == V_CLOSED;
    sh->ctr[C_BADALLOC] += v == V_BADALLOC;
    if (e.input_changed && (J == 12 || J == 6))
      violation("input", descr(e) + " changed its input text");
    if (v == V_RIGHT && p.needs) first_avail = std::min(first_avail, e.end_seq);
    const bool waited_out = e.polls > kSlowPolls;
    if (v == V_CLOSED && !waited_out)
      first_unavail = std::min(first_unavail, e.end_seq);
    bool may_close = tabfail || corrupt || waited_out || e.nested_in_table_alloc;
    bool may_throw = e.allocfails > 0;
    if (J == 5 && e.allocfails == e.tabfails) may_throw = false;
    switch (J) {
      case 2: case 12: case 13:
        continue;     // answers are not this property's business
      case 15: {
        if (e.polls || e.blocked || e.phase == 3) continue;
        uint64_t lim = work_bound(p) + (e.tabreqs ? kSetupWork : 0);
        if (measure)
          fprintf(stderr, "W %s%s %zu %llu %llu %llu\n", kind_name(p.op.kind), lim < 1600 * p.op.in.size() + 50000 ? "_lin" : "", p.op.in.size(),
                  (unsigned long long)e.steps, (unsigned long long)lim, (unsigned long long)e.tabreqs);
        if (e.steps > lim && excuse && !p.tablefree && e.steps <= lim + kSetupWork) {
          excuse = false;
          continue;
        }
        if (e.steps > lim)
          violation("work", descr(e) + fmt(" of %zu bytes took %llu memory accesses (allowed %llu)",
                                           p.op.in.size(), (unsigned long long)e.steps,
                                           (unsigned long long)lim));
        continue;
      }
      case 18: {
        if (e.phase == 3 || !s.thr.empty() || e.polls || e.blocked) continue;
        uint64_t lim = heap_bound(p) + (e.tabreqs || (calib.table_size == 0 && !(s.flags & 8)) ? calib.table_size + kSetupHeap : 0);
        if (measure)
          fprintf(stderr, "H %s %zu %llu %llu %llu\n", kind_name(p.op.kind), p.op.in.size(), (unsigned long long)e.peak,
                  (unsigned long long)lim, (unsigned long long)e.tabreqs);
        if (e.peak > lim)
          violation("heap", descr(e) + fmt(" of %zu bytes had %llu bytes of heap at once (allowed %llu)", p.op.in.size(),
                                           (unsigned long long)e.peak, (unsigned long long)lim));
        continue;
      }
      case 16:
        if (e.phase == 3) continue;
        if (measure)
          fprintf(stderr, "K %s %zu %llu %llu\n", kind_name(p.op.kind), p.op.in.size(),
                  (unsigned long long)e.stack, (unsigned long long)e.tabreqs);
        if (e.stack > kStackLimit)
          violation("stack", descr(e) + fmt(" of %zu bytes used %llu bytes of stack (allowed %llu)",
                                            p.op.in.size(), (unsigned long long)e.stack,
                                            (unsigned long long)kStackLimit));
        continue;
      case 3:
        may_throw = true;
        break;
      case 14:
        // only over-limit conversions and those under the quota are judged
        if (!p.overlimit && !(s.flags & 2)) continue;
        may_throw = p.op.kind == K_TO_ASCII_S || p.op.kind == K_TO_UNI_S;
        if (s.flags & 2) may_throw = false;
        break;
      default:
        break;
    }
    std::string exp = "; alone it returns " +
                      fmt("rc=%d ", p.has_expect ? p.expect.rc : p.ref.rc) +
                      show(p.has_expect ? p.expect.out : p.ref.out);
    if (v == V_OTHEREXC && J != 3)
      violation("exception", descr(e) + " threw something other than bad_alloc");
    if (v == V_BADALLOC && !may_throw)
      violation("exception",
                descr(e) + " threw std::bad_alloc although " +
                    (e.allocfails ? "only the table memory was refused"
                                  : "no allocation failed in it"));
    if (J == 3) {
      if (v == V_WRONG && !corrupt) continue;   // wrong answers: S01, S05
    } else if (J == 11) {
      if (!p.tablefree) continue;
      if (v != V_RIGHT && !(v == V_BADALLOC && e.allocfails))
        violation("answer", descr(e) + " returned " + got(e) + exp);
      if (e.polls || e.blocked)
        violation("waited", descr(e) + fmt(" waited (%llu polls)",
                                           (unsigned long long)e.polls));
      if (e.tabreqs)
        violation("table", descr(e) + " requested table memory");
    } else if (J == 14) {
      if (p.overlimit) {
        if (p.op.kind == K_TO_ASCII_B || p.op.kind == K_TO_UNI_B) {
          if (e.res.rc != 0 || !e.res.out.empty())
            violation("limit", descr(e) + fmt(" of %zu bytes", p.op.in.size()) +
                                   " returned " + got(e) + " instead of false");
          if (e.allocs)
            violation("limit", descr(e) + " requested memory before refusing");
        }
      } else if (s.flags & 2) {   // under the quota
        if (v != V_RIGHT)
          violation("quota", descr(e) +
                                 fmt(" of %zu bytes returned ", p.op.in.size()) +
                                 got(e) + " under a heap quota of 4 MiB" + exp);
      }
    } else {
      bool ok = v == V_RIGHT || (v == V_CLOSED && may_close) ||
                (v == V_BADALLOC && may_throw);
      if (!ok)
        violation("answer", descr(e) + " returned " + got(e) + exp);
    }
  }
  // --- whole history
  if ((J == 15 || J == 18) && (s.flags & kScaleRun)) judge_growth(o, J == 18);
  if (J >= 3 && J <= 7) {
    // Once the call that set the tables up has returned there is nobody to
    // wait for.
    uint64_t settled = ~0ull;
    for (OpEvent& e : o.ev)
      if (e.done && e.tabreqs && e.phase != 3) settled = std::min(settled, e.end_seq);
    for (OpEvent& e : o.ev)
      if (e.done && e.begin_seq > settled && e.polls > kSlowPolls && !o.stuck_any)
        violation("hang", descr(e) + fmt(" waited %llu polls although the table set-up had ended "
                                         "before it was called", (unsigned long long)e.polls));
  }
  if (J == 19) {
    // set-up is over once a call that needs tables has found or not found them
    uint64_t settled = s.flags & 8 ? 0 : std::min(first_avail, first_unavail);
    for (OpEvent& e : o.ev)
      // a call looks at the ready state once or twice for each label: those loads
      // of an unchanged value count as polls too
      if (e.done && e.begin_seq >= settled && (e.polls > 1000 + 4 * e.op->in.size() || e.blocked))
        violation("waited", descr(e) + fmt(" waited for a call in another thread (%llu polls, %llu blocked locks)",
                                           (unsigned long long)e.polls, (unsigned long long)e.blocked));
  }
  if (J == 3) {
    if (o.tab_main > 1)
      violation("setup", fmt("table memory was requested %llu times",
                             (unsigned long long)o.tab_main));
    for (OpEvent& e : o.ev) {
      if (!e.done) continue;
      const PoolOp& p = pool[size_t(e.op->ref)];
      Verdict v = judge(p, e.res);
      if (p.tablefree || v == V_BADALLOC) continue;
      if (v == V_CLOSED && e.begin_seq > first_avail)
        violation("final", descr(e) + " returned " + got(e) +
                               " after another call had found the tables");
      if (v == V_RIGHT && p.needs && e.begin_seq > first_unavail && !o.stuck_any)
        violation("final", descr(e) +
                               " found the tables after their set-up had failed");
      if (v == V_CLOSED && !tabfail && !corrupt && e.polls <= kSlowPolls)
        violation("final", descr(e) + " returned " + got(e) +
                               " although nothing had failed");
    }
  }
  if (J == 3 || J == 7) {
    std::vector<std::pair<uint64_t, uint64_t>> live;
    rt_snapshot_live(live);
    if (calib.hash_ok && o.live_lib_end == calib.live_after &&
        first_avail != ~0ull) {
      uint64_t h = 7;
      for (auto& x : live) {
        h = mix64(h, x.first);
        h = mix64(h, x.second);
      }
      if (h != calib.tabhash)
        violation("table", "the tables in use differ from the stored ones");
    }
  }
  if ((J == 13 || J == 5 || J == 6 || J == 3) && !o.stuck_any) {
    bool ok = o.live_lib_end == 0 || o.live_lib_end == calib.live_after;
    if (J == 3) ok = true;
    if (J == 13 && first_avail == ~0ull && o.live_lib_end != 0)
      for (OpEvent& e : o.ev)   // once their set-up has failed no memory is kept for the tables
        if (e.done && e.phase != 3 && !e.polls && !e.blocked && !e.nested_in_table_alloc && !e.tabreqs &&
            judge(pool[size_t(e.op->ref)], e.res) == V_CLOSED)
          ok = false;
    if (J == 5 && tabfail && first_avail == ~0ull && o.live_lib_end != 0) ok = false;
    if (!ok)
      violation("leak", fmt("%llu bytes still held after every output was "
                            "released (expected 0 or %llu)",
                            (unsigned long long)o.live_lib_end,
                            (unsigned long long)calib.live_after));
  }
}

// -------------------------------------------------------------- run generation
static int pick(Rng& r, const std::vector<int>& v) {
  if (v.empty()) return 0;
  return v[r.below(v.size())];
}
static Op ev(int k) {
  Op o;
  o.kind = k;
  return o;
}
static Op use(Rng& r, int k, int slots) {
  Op o = pool[size_t(k)].op;
  o.slot = int(r.below(size_t(slots)));
  if (r.below(10) == 0) o.fill = 1 + int(r.below(60));
  if (r.below(5) == 0) o.buf = 1 + int(r.below(2));
  return o;
}
// A history of very many calls: some, then one of them hundreds to tens of
// thousands of times, then some again (counters that wrap round, tables that
// fill up, memory lost a little at a time).
static std::vector<int> hot_set(Rng& r, const std::vector<int>& from);
static void long_history(Rng& r, Spec& s, const std::vector<int>& hot) {
  std::vector<int> cheap;
  for (int i = 0; i < 200 && cheap.size() < 4; i++) {
    int k = pick(r, ix_small);
    const PoolOp& p = pool[size_t(k)];
    if (p.op.in.size() > 24 || p.op.in.empty()) continue;
    if ((p.tablefree || p.op.kind == K_LEN8) && r.below(2)) continue;
    cheap.push_back(k);
  }
  if (cheap.empty()) return;
  s.flags |= 4;
  for (int i = 0; i < 2 + int(r.below(6)); i++) s.pro.push_back(use(r, hot[r.below(hot.size())], 3));
  int left = 70000;
  for (int g = 1 + int(r.below(3)); g > 0; g--) {
    Op o = use(r, cheap[r.below(cheap.size())], 3);
    if (o.buf) o.buf = 1;
    static const int near[] = {64, 100, 128, 256, 512, 1000, 1024, 4096, 32768, 65536};
    int n = r.below(2) ? near[r.below(r.below(3) ? 8 : 10)] - int(r.below(9)) + 2 : int(r.logu(20, 20000));
    if (r.below(6) == 0) n = 65536 + int(r.below(12));   // a 16-bit counter all the way round
    o.rep = std::min(n, left);
    left -= o.rep;
    if (o.rep > 1) s.pro.push_back(o);
    if (r.below(2))
      for (int i = 0; i < 1 + int(r.below(4)); i++) s.pro.push_back(use(r, hot[r.below(hot.size())], 3));
  }
}
static Policy gen_policy(Rng& r, bool stale) {
  Policy p;
  p.kind = int(r.below(7));
  switch (p.kind) {
    case 0: p.p_sync = 0.05 + r.unit() * 0.9; break;
    case 1:
      p.acc_lo = 1;
      p.acc_hi = r.logu(2, 200);
      p.p_sync = r.unit() * 0.5;
      // fine-grained slices only for a while: bounded number of switches
      break;
    case 2:
      p.acc_lo = r.logu(5, 2000);
      p.acc_hi = p.acc_lo * (2 + r.below(100));
      p.p_sync = r.unit() * 0.5;
      break;
    case 3: p.pct = 1 + int(r.below(5)); break;
    case 4:
      p.post_k = int(r.logu(1, 300));
      p.p_sync = 0.1 + 0.5 * r.unit();
      break;
    case 5:
      p.p_gw = 0.05 + r.unit() * 0.6;
      p.p_gr = r.chance(0.5) ? 0 : r.unit() * 0.01;
      p.p_sh = r.unit() * 0.01;
      p.p_sync = 0.3;
      break;
    case 6:
      p.acc_lo = r.logu(1000, 200000);
      p.acc_hi = p.acc_lo * 10;
      p.p_sync = r.unit();
      p.p_gw = r.chance(0.5) ? 0.2 : 0;
      break;
  }
  if (stale && r.below(3)) p.p_stale = 0.1 + 0.5 * r.unit();
  p.spin_k = 2 + int(r.below(40));
  return p;
}
static std::vector<int> hot_set(Rng& r, const std::vector<int>& from) {
  std::vector<int> h;
  size_t n = 1 + r.below(5);
  const bool any = (&from == &ix_small || &from == &ix_all) && !ix_mid.empty();
  for (size_t i = 0; i < n; i++) {
    if (any && r.below(16) == 0) {   // a long text, and one much like it
      int k = pick(r, ix_mid);
      h.push_back(k);
      if (size_t(k) + 1 < pool.size() && pool[size_t(k) + 1].group == pool[size_t(k)].group) h.push_back(k + 1);
      continue;
    }
    int k = pick(r, from);
    h.push_back(k);
    int g = pool[size_t(k)].group;
    if (g >= 0 && size_t(g) < groups.size() && r.below(2) && groups[size_t(g)].size() > 1) {
      int q = pick(r, groups[size_t(g)]);
      if (std::find(from.begin(), from.end(), q) != from.end()) h.push_back(q);
    }
  }
  return h;
}
static void fill_threads(Rng& r, Spec& s, int nt, int maxops,
                         const std::vector<int>& from) {
  std::vector<int> hot = hot_set(r, from);
  bool same = r.below(4) == 0;   // every thread the same calls
  for (int t = 0; t < nt; t++) {
    std::vector<Op> v;
    int n = 1 + int(r.below(size_t(maxops)));
    if (same && t) {
      v = s.thr[0];
    } else {
      for (int i = 0; i < n; i++)
        v.push_back(use(r, r.below(3) ? hot[r.below(hot.size())] : pick(r, from), 4));
    }
    s.thr.push_back(v);
  }
}
static uint64_t some_init_step(Rng& r) {
  uint64_t n = calib.init_steps ? calib.init_steps : 1000;
  switch (r.below(4)) {
    case 0: return r.logu(1, n);
    case 1: return n > 200 ? n - r.logu(1, 200) : r.below(n);
    case 2: return 1 + r.below(60);
    default: return 1 + r.below(n);
  }
}
static Fault stall(Rng& r, int nt) {
  Fault f;
  f.type = F_STALL;
  switch (r.below(4)) {
    case 0:
      f.trig = T_SYNC;
      f.tid = 1 + int(r.below(size_t(nt)));
      f.a = 1 + int64_t(r.below(6));
      f.b = r.below(2) ? 0 : int64_t(r.below(40));
      break;
    case 1:
      f.trig = T_STEP;
      f.tid = 1 + int(r.below(size_t(nt)));
      f.a = int64_t(r.logu(1, calib.init_steps * 2));
      break;
    default:
      f.trig = T_TABLE;
      f.b = int64_t(some_init_step(r));
      break;
  }
  switch (r.below(6)) {
    case 0: case 1: f.n = -1; break;
    case 2: f.n = int64_t(r.logu(1000, 900000000)); break;
    case 3: f.n = 990000000 - int64_t(r.below(1000)); break;   // just within 1e8 polls
    case 4: f.n = int64_t(r.logu(1000000000, 9000000000ull)); break;
    default: f.n = int64_t(r.logu(9000000000ull, 60000000000ull));
  }
  return f;
}
static std::vector<std::pair<uint64_t, std::vector<uint64_t>>> lit_sites;
static void find_literals() {
  // literal symbols of the shipped stream that can be exchanged for another
  // literal with a code of the same length: the stream stays well-formed
  static bool done;
  if (done) return;
  done = true;
  size_t n;
  const unsigned char* b = stored_tables(&n);
  RefInflate x;
  uint64_t k = 0;
  x.on_literal = [&](uint64_t pos, int len, const RefInflate::Codes& c, int sym) {
    if (++k % 7) return;
    uint32_t mine = 0;
    std::vector<uint64_t> alts;
    for (auto& e : c.m)
      if (int(e.first >> 16) == len && e.second < 256) {
        if (e.second == sym) mine = e.first & 0xffff;
        else alts.push_back(e.first & 0xffff);
      }
    if (alts.empty()) return;
    if (alts.size() > 6) alts.resize(6);
    // store as xor masks over the code bits, first bit of the code first
    for (auto& a : alts) a = (a ^ mine) << 8 | uint64_t(len);
    lit_sites.push_back({pos, alts});
  };
  x.run(b, n, 8u << 20);
}
// Damage that a weaker check of the expanded tables would not notice: what each
// of some literal exchanges does to the CRC-32 (exchanges add up by xor), as a
// reduced basis, so that combinations with any wanted effect can be had.
struct Exchange {
  uint64_t pos;
  int len;
  uint32_t x;
};
static std::vector<Exchange> exch;                    // candidates
struct Row {
  uint32_t d;
  std::bitset<80> who;
};
static std::vector<Row> basis;                        // by leading bit of d
static std::vector<Row> nullsp;                       // combinations without effect
static uint32_t crc32_of(const std::vector<uint8_t>& v) {
  static uint32_t t[256];
  if (!t[1])
    for (uint32_t i = 0; i < 256; i++) {
      uint32_t c = i;
      for (int k = 0; k < 8; k++) c = c & 1 ? 0xEDB88320u ^ c >> 1 : c >> 1;
      t[i] = c;
    }
  uint32_t c = ~0u;
  for (uint8_t b : v) c = t[(c ^ b) & 255] ^ c >> 8;
  return ~c;
}
static void flip(std::vector<uint8_t>& b, const Exchange& e) {
  for (int j = 0; j < e.len; j++)
    if (e.x >> (e.len - 1 - j) & 1) b[(e.pos + uint64_t(j)) >> 3] ^= uint8_t(1 << ((e.pos + uint64_t(j)) & 7));
}
static void find_crc_basis() {
  static bool done;
  if (done || lit_sites.size() < 200) return;
  done = true;
  Rng r(4711);
  size_t n;
  const unsigned char* b = stored_tables(&n);
  std::vector<uint8_t> blob(b, b + n);
  RefInflate x;
  x.run(blob.data(), n, 8u << 20);
  const uint32_t want = crc32_of(x.out);
  const size_t size = x.out.size();
  std::set<uint64_t> seen;
  for (int tries = 0; tries < 120 && exch.size() < 80; tries++) {
    auto& [pos, alts] = lit_sites[r.below(lit_sites.size())];
    if (!seen.insert(pos).second) continue;
    uint64_t a = alts[r.below(alts.size())];
    Exchange e{pos, int(a & 255), uint32_t(a >> 8)};
    flip(blob, e);
    RefInflate y;
    y.run(blob.data(), n, 8u << 20);
    flip(blob, e);
    if (y.out.size() != size) continue;
    Row w{crc32_of(y.out) ^ want, {}};
    if (!w.d) continue;
    w.who.set(exch.size());
    exch.push_back(e);
    for (auto& q : basis) w.d = (w.d ^ q.d) < w.d ? (w.who ^= q.who, w.d ^ q.d) : w.d;
    if (!w.d) {
      nullsp.push_back(w);
      continue;
    }
    basis.push_back(w);
    std::sort(basis.begin(), basis.end(), [](const Row& a, const Row& c) { return a.d > c.d; });
  }
}
static bool gen_crc_edits(Rng& r, Fault& f) {
  if (basis.size() < 32) return false;
  uint32_t t;
  switch (r.below(7)) {
    case 0: t = 1u << r.below(32); break;
    case 1: t = uint32_t(r.below(65535) + 1) << 16; break;      // low half unchanged
    case 2: t = uint32_t(r.below(65535) + 1); break;            // high half unchanged
    case 3: t = uint32_t(r.below(255) + 1) << 8 * r.below(4); break;
    case 4: t = 0xFFFFFFFFu; break;
    case 5: t = uint32_t(r.below(0xFFFFFF) + 1) << 8; break;    // low byte unchanged
    default: t = (1u << 31) >> r.below(2) | uint32_t(r.below(2)); break;
  }
  std::bitset<80> who;
  for (auto& q : nullsp)
    if (r.below(4) == 0) who ^= q.who;
  uint32_t d = t;
  for (auto& q : basis)
    if ((d ^ q.d) < d) {
      d ^= q.d;
      who ^= q.who;
    }
  if (d) return false;
  for (size_t i = 0; i < exch.size(); i++)
    if (who[i]) {
      const Exchange& e = exch[i];
      for (int j = 0; j < e.len; j++)
        if (e.x >> (e.len - 1 - j) & 1) {
          uint64_t bit = e.pos + uint64_t(j);
          f.edits.push_back(Edit{uint32_t(bit >> 3), 1, 0, uint8_t(1 << (bit & 7))});
        }
    }
  return true;
}
static bool crc_aimed;   // the last edits were chosen for their effect on the CRC
static void gen_edits(Rng& r, Fault& f) {
  crc_aimed = false;
  size_t n;
  stored_tables(&n);
  if (!n) return;
  int style = int(r.below(9));
  if (style == 8 && gen_crc_edits(r, f)) {
    crc_aimed = true;
    return;
  }
  if ((style == 0 || style == 5) && !lit_sites.empty()) {
    int m = 1 + int(r.below(3));
    for (int i = 0; i < m; i++) {
      auto& [pos, alts] = lit_sites[r.below(lit_sites.size())];
      uint64_t a = alts[r.below(alts.size())];
      int len = int(a & 255);
      uint32_t x = uint32_t(a >> 8);
      for (int j = 0; j < len; j++)
        if (x >> (len - 1 - j) & 1) {
          uint64_t bit = pos + uint64_t(j);
          f.edits.push_back(Edit{uint32_t(bit >> 3), 1, 0, uint8_t(1 << (bit & 7))});
        }
    }
    return;
  }
  int m = 1 + int(style == 1 ? r.below(20) : r.below(3));
  for (int i = 0; i < m; i++) {
    uint32_t off = uint32_t(r.below(3) ? r.below(n)
                            : r.below(2) ? r.below(std::min<size_t>(n, 200))
                                         : n - 1 - r.below(std::min<size_t>(n, 60)));
    switch (style) {
      case 2: f.edits.push_back(Edit{off, uint32_t(r.logu(1, 4000)), 1, 0}); break;
      case 3: f.edits.push_back(Edit{off, uint32_t(n), 1, uint8_t(r.below(2) ? 0 : 255)}); break;
      case 4: f.edits.push_back(Edit{off, 1, 1, uint8_t(r.below(256))}); break;
      default: f.edits.push_back(Edit{off, 1, 0, uint8_t(1 << r.below(8))});
    }
  }
}
static Fault corruption(Rng& r, int nt) {
  Fault f;
  f.type = F_CORRUPT;
  if (r.below(3)) {
    f.trig = T_START;
  } else if (r.below(3)) {
    f.trig = T_TABLE;
    f.b = int64_t(some_init_step(r));
  } else {
    f.trig = T_SYNC;
    f.tid = int(r.below(size_t(nt) + 1));
    f.a = 1 + int64_t(r.below(5));
  }
  gen_edits(r, f);
  return f;
}
static void add_epi(Rng& r, Spec& s, int n, const std::vector<int>& from) {
  for (int i = 0; i < n; i++) s.epi.push_back(use(r, pick(r, from), 4));
}

static Spec gen_spec(uint64_t seed) {
  Rng r(seed);
  Spec s;
  s.judge = P;
  if (P == 17) {   // the other properties, on another build of the library
    static const int mix[] = {1, 1, 2, 3, 5, 6, 6, 7, 9, 9, 10, 11, 12, 13, 14, 14, 19};
    s.judge = mix[r.below(sizeof mix / sizeof *mix)];
  }
  if (P == 8) s.judge = 7;   // only where the decompressor cannot be called on its own
  s.prop = fmt("S%02d", P);
  s.seed = seed;
  s.fillbyte = int(r.below(4) ? r.below(256) : 0);
  s.pol.spin_k = 24;
  int nt = 2 + int(r.below(r.below(3) ? 2 : 4));
  auto ctors = [&] {
    if (!(s.flags & 8)) s.pro.push_back(ev(K_EV_CTORS));
  };
  auto warm = [&] { s.pro.push_back(use(r, pick(r, ix_needfew), 4)); };
  // num in den runs start from the warm image (tables ready), which is cheap
  auto img = [&](size_t num, size_t den) {
    if (r.below(den) >= num) return false;
    s.flags |= 8;
    return true;
  };
  switch (s.judge) {
    case 1: {
      bool w = img(2, 3);
      ctors();
      if (r.below(4) == 0) s.flags |= 4;
      if (!w && r.below(8) == 0) {
        warm();
        w = true;
      }
      s.pol = gen_policy(r, true);
      fill_threads(r, s, nt, w ? 8 : 4, r.below(4) ? ix_small : ix_need);
      if (r.below(20) == 0 && !ix_big.empty())
        s.thr[0].push_back(use(r, pick(r, ix_big), 4));
      if (w && r.below(3) == 0) {
        s.pol.p_reenter = 0.02 + 0.2 * r.unit();
        for (int i = 0; i < 4; i++) {
          s.reops.push_back(use(r, pick(r, ix_small), 1));
          s.reops.back().slot = 9;
          s.reops.back().fill = s.reops.back().buf = 0;
        }
      }
      add_epi(r, s, 2, ix_small);
      break;
    }
    case 2: {
      if (!img(1, 2)) {
        ctors();
        if (r.below(8) == 0) warm();
      }
      s.pol = gen_policy(r, true);
      fill_threads(r, s, nt, 3, r.below(3) ? ix_need : ix_small);
      break;
    }
    case 3: {
      ctors();
      s.pol = gen_policy(r, true);
      fill_threads(r, s, nt, 4, r.below(5) ? ix_need : ix_small);
      int k = int(r.below(10));
      if (k < 3) {
        Fault f;
        f.type = F_TABALLOC;
        f.n = 1 + int64_t(r.below(2));
        s.faults.push_back(f);
      } else if (k == 3) {
        s.faults.push_back(corruption(r, nt));
      } else if (k == 4) {
        Fault f = stall(r, nt);
        if (r.below(2)) {      // for so long that waiting calls may give up
          f.n = int64_t(r.logu(900000000, 60000000000ull));
          if (r.below(2)) f.trig = T_TABLE, f.b = int64_t(some_init_step(r));
        } else if (f.n < 0 || f.n > 900000000) {
          f.n = int64_t(r.logu(1000, 900000000));
        }
        s.faults.push_back(f);
      }
      if (r.below(12) == 0)    // a call from a static initialiser of the program
        s.pro.insert(s.pro.begin(), use(r, pick(r, r.below(2) ? ix_need : ix_small), 4));
      add_epi(r, s, 2 + int(r.below(5)), r.below(2) ? ix_need : ix_small);
      break;
    }
    case 4: {
      ctors();
      s.pol = gen_policy(r, false);
      if (s.pol.acc_hi && s.pol.acc_hi < 300) s.pol.acc_hi = 300 + r.below(3000);
      fill_threads(r, s, nt, 3, r.below(4) ? ix_needfew : ix_fewace);
      if (r.below(4) == 0 && !ix_heavy.empty())   // waits once, not once for each label
        for (auto& t : s.thr)
          if (!t.empty() && r.below(2)) t[r.below(t.size())] = use(r, pick(r, ix_heavy), 3);
      int m = 1 + (r.below(4) == 0);
      for (int i = 0; i < m; i++) s.faults.push_back(stall(r, nt));
      if (r.below(6) == 0) {
        Fault f;
        f.type = F_REENTER;
        f.trig = T_TABLE;
        f.op = pool[size_t(pick(r, ix_needfew))].op;
        f.op.slot = 9;
        s.faults.push_back(f);
        if (r.below(2)) s.faults.erase(s.faults.begin(), s.faults.end() - 1);
      }
      add_epi(r, s, 1 + int(r.below(4)), r.below(3) ? ix_needfew : ix_fewace);
      break;
    }
    case 5: {
      if (r.below(10)) ctors();
      s.pol = gen_policy(r, true);
      fill_threads(r, s, int(r.below(4)) + 1, 4, r.below(3) ? ix_need : ix_small);
      Fault f;
      switch (r.below(4)) {
        case 0:
          f.type = F_QUOTA;
          f.trig = T_START;
          f.n = int64_t(calib.table_size ? r.below(calib.table_size) : 1);
          if (f.n < 60000 && r.below(2)) f.n = 60000;
          break;
        case 1:
          f.type = F_TABALLOC;
          f.n = 1;
          break;
        default:
          f.type = F_TABALLOC;
          f.n = 0;
      }
      // an expansion that makes several requests: a later one of them
      if (f.type == F_TABALLOC && calib.init_sizes.size() > 1)
        f.a = int64_t(r.below(calib.init_sizes.size()));
      s.faults.push_back(f);
      if (r.below(3) == 0 && s.thr.size() > 1) {
        Fault g = stall(r, int(s.thr.size()));
        if (g.n < 0) g.n = int64_t(r.logu(1000, 900000000));
        s.faults.push_back(g);
      }
      add_epi(r, s, 2, ix_table);
      if (r.below(2)) s.epi.push_back(ev(K_EV_HEAL));
      add_epi(r, s, 2 + int(r.below(8)), ix_small);
      break;
    }
    case 6: {
      if (!img(2, 3)) {
        ctors();
        if (r.below(8) == 0) warm();
      }
      if (r.below(4) == 0) s.flags |= 4;
      s.pol = gen_policy(r, false);
      int n = int(r.below(4)) + (r.below(2) ? 1 : 0);
      const std::vector<int>& from = r.below(4) ? ix_small : ix_need;
      std::vector<Op> tried;
      if (n == 0) {
        n = 1;
        s.pol = Policy{};
      }
      fill_threads(r, s, n, 5, from);
      if (r.below(12) == 0 && !ix_big.empty())
        s.thr[0].push_back(use(r, pick(r, ix_big), 4));
      switch (r.below(5)) {
        case 0: {
          Fault f;
          f.type = F_ALLOC;
          f.tid = 1 + int(r.below(s.thr.size()));
          f.a = int64_t(r.below(r.below(2) ? 4 : 25));
          f.n = 1 + int64_t(r.below(3) ? 0 : r.below(6));
          s.faults.push_back(f);
          break;
        }
        case 1: {
          Fault f;
          f.type = F_OOM;
          f.tid = 1 + int(r.below(s.thr.size()));
          f.a = int64_t(r.logu(1, r.below(2) ? 2000 : calib.init_steps * 2));
          f.n = r.below(2) ? -1 : int64_t(1 + r.below(5));
          s.faults.push_back(f);
          break;
        }
        case 2: {
          Fault f;
          f.type = F_QUOTA;
          f.trig = T_START;
          f.n = int64_t(r.below(2) ? r.logu(64, 20000)
                                   : calib.table_size + r.logu(64, 8000));
          s.faults.push_back(f);
          break;
        }
        default:
          s.pol.p_alloc = 0.02 + 0.4 * r.unit();
          s.pol.alloc_scope = r.below(3) == 0;
      }
      s.epi.push_back(ev(K_EV_HEAL));
      // the same calls again; thread 1's own retries happen on its outputs
      for (size_t t = 0; t < s.thr.size(); t++) {
        size_t m = s.thr[t].size();
        if (r.below(2))
          for (size_t i = 0; i < m; i++) {
            Op o = s.thr[t][i];
            o.fill = 0;
            s.epi.push_back(o);
          }
      }
      if (r.below(2)) {   // fail and retry on the same output objects
        std::vector<Op> a;
        a.insert(a.end(), s.thr[0].begin(), s.thr[0].end());
        a.push_back(ev(K_EV_HEAL));
        for (Op o : s.thr[0]) {
          o.fill = 0;
          a.push_back(o);
        }
        s.thr[0] = a;
      }
      add_epi(r, s, 2, ix_small);
      break;
    }
    case 7: {
      if (r.below(8)) ctors();
      s.pol = gen_policy(r, false);
      int n = int(r.below(3));
      if (n == 1) n = 0;
      if (n) fill_threads(r, s, n, 3, ix_need);
      else s.pol = Policy{};
      s.faults.push_back(corruption(r, n));
      // Two aimed damages could cancel each other in all 32 bits of the CRC,
      // which no checksum of that size can tell: at most one of them.
      if (r.below(5) == 0 && !crc_aimed) s.faults.push_back(corruption(r, n));
      add_epi(r, s, 6 + int(r.below(20)), r.below(2) ? ix_table : ix_need);
      break;
    }
    case 9: {
      img(4, 5);
      ctors();
      if (r.below(4)) s.env = 1 + int(r.below(1000000));
      if (r.below(5) < 3) s.flags |= 4;
      int n = r.below(5) ? 0 : 2;
      bool fail = r.below(3) == 0;
      if (n) s.pol = gen_policy(r, false);
      if (fail) {
        s.pol.p_alloc = 0.02 + 0.3 * r.unit();
        s.pol.alloc_scope = 0;
      }
      const std::vector<int>& from = r.below(8) ? ix_small : ix_all;
      auto hist = [&](int len) {
        std::vector<Op> v;
        std::vector<int> hot;
        for (int g = 0; g < 3; g++) {
          auto h = hot_set(r, from);
          hot.insert(hot.end(), h.begin(), h.end());
          int gi = pool[size_t(h[0])].group;
          if (gi >= 0 && size_t(gi) < groups.size())
            hot.insert(hot.end(), groups[size_t(gi)].begin(), groups[size_t(gi)].end());
        }
        int slots = 1 + int(r.below(4));
        int bias = int(r.below(4));
        if (!twins.empty() && r.below(6) == 0) {
          // texts that short fingerprints confuse, one right after the other
          for (int i = 0; i < len; i += 2) {
            auto q = twins[r.below(twins.size())];
            if (r.below(2)) std::swap(q.first, q.second);
            v.push_back(use(r, q.first, slots));
            v.push_back(use(r, q.second, slots));
          }
          return v;
        }
        if (!pairs.empty() && r.below(2)) {
          // the same buffer again and again, with texts that look alike
          if (r.below(2)) hot.clear();
          for (int g = 1 + int(r.below(3)); g > 0; g--) {
            auto it = pairs.begin();
            std::advance(it, long(r.below(pairs.size())));
            auto& q = it->second[r.below(it->second.size())];
            hot.push_back(q.first);
            hot.push_back(q.second);
          }
          if (r.below(3)) bias = 0;
        }
        for (int i = 0; i < len; i++) {
          Op o = use(r, r.below(8) ? hot[r.below(hot.size())] : pick(r, from), slots);
          if (bias == 0) o.buf = 1;
          v.push_back(o);
        }
        return v;
      };
      int len = 8 + int(r.below(r.below(4) ? 30 : 120));
      if (!n && !fail && r.below(20) == 0) {
        std::vector<int> hot = hot_set(r, from);
        long_history(r, s, hot);
        for (int i = 0; i < 8; i++) s.epi.push_back(use(r, hot[r.below(hot.size())], 3));
        break;
      }
      if (n) {
        for (int t = 0; t < n; t++) s.thr.push_back(hist(6 + int(r.below(12))));
      } else {
        auto h = hist(len);
        s.pro.insert(s.pro.end(), h.begin(), h.end());
      }
      s.epi.push_back(ev(K_EV_HEAL));
      auto e = hist(6);
      s.epi.insert(s.epi.end(), e.begin(), e.end());
      break;
    }
    case 10: {
      int early = int(r.below(5));
      // what was called before tear-down is often called again after it
      std::vector<int> hot = hot_set(r, r.below(2) ? ix_need : ix_small);
      auto again = [&](const std::vector<int>& from) {
        return use(r, r.below(2) ? pick(r, hot) : pick(r, from), 4);
      };
      for (int i = 0; i < early; i++)
        s.pro.push_back(again(r.below(3) ? ix_need : ix_small));
      ctors();
      int mid = int(r.below(3)) + (early ? 0 : 1);
      for (int i = 0; i < mid; i++)
        s.pro.push_back(again(r.below(3) ? ix_need : ix_small));
      int n = r.below(3) ? 0 : 2;
      if (n) {
        s.pol = gen_policy(r, false);
        fill_threads(r, s, n, 4, r.below(2) ? ix_need : ix_small);
        for (auto& v : s.thr)
          if (r.below(2)) {
            std::vector<Op> before = v;
            v.insert(v.begin() + long(r.below(v.size() + 1)), ev(K_EV_TLS_DTORS));
            v.push_back(use(r, pick(r, ix_small), 4));
            if (r.below(2)) v.insert(v.end(), before.begin(), before.end());
          }
        if (r.below(2)) {
          auto& v = s.thr[0];
          v.insert(v.begin() + long(r.below(v.size() + 1)), ev(K_EV_DTORS));
        }
      }
      // the main thread's thread-locals die first, then the statics
      if (r.below(2)) s.epi.push_back(ev(K_EV_TLS_DTORS));
      if (r.below(2) == 0)
        for (int i = 0; i < 2; i++) s.epi.push_back(again(ix_small));
      s.epi.push_back(ev(K_EV_DTORS));
      const std::vector<int>& from = r.below(2) ? ix_need : ix_small;
      for (int i = 2 + int(r.below(8)); i > 0; i--) s.epi.push_back(again(from));
      break;
    }
    case 11: {
      ctors();
      s.pol = gen_policy(r, false);
      if (s.pol.acc_hi && s.pol.acc_hi < 300) s.pol.acc_hi = 300 + r.below(3000);
      int state = int(r.below(5));
      std::vector<int> fr = ix_free;
      // thread 1: expansion; others: work that needs no tables
      std::vector<Op> v;
      for (int i = 0; i < 1 + int(r.below(2)); i++)
        v.push_back(use(r, pick(r, ix_needfew), 4));
      if (state != 4) s.thr.push_back(v);
      int n = 1 + int(r.below(3));
      std::vector<int> hot = hot_set(r, fr);
      for (int t = 0; t < n; t++) {
        std::vector<Op> w;
        int m = 1 + int(r.below(8));
        for (int i = 0; i < m; i++)
          w.push_back(use(r, r.below(2) ? hot[r.below(hot.size())]
                             : r.below(12) || ix_freebig.empty() ? pick(r, fr) : pick(r, ix_freebig), 4));
        s.thr.push_back(w);
      }
      if (state == 0 || state == 1) {
        Fault f = stall(r, 1);
        if (r.below(2)) f.n = -1;
        s.faults.push_back(f);
      } else if (state == 2) {
        Fault f;
        f.type = F_TABALLOC;
        s.faults.push_back(f);
      }
      if (r.below(6) == 0) {
        Fault f = corruption(r, 1);
        f.trig = T_START;
        s.faults.push_back(f);
      }
      if (state == 3 && r.below(2)) s.pro.push_back(use(r, pick(r, ix_needfew), 4));
      add_epi(r, s, 2 + int(r.below(6)), fr);
      break;
    }
    case 12: {
      if (!img(2, 3)) {
        if (r.below(3)) ctors();
        if (r.below(8) == 0) warm();
      }
      if (r.below(2)) s.env = 1 + int(r.below(1000000));
      s.pol = gen_policy(r, false);
      int n = int(r.below(4));
      if (n) fill_threads(r, s, n, 6, ix_small);
      else s.pol = Policy{};
      int k = int(r.below(4));
      if (k == 0) {
        s.pol.p_alloc = 0.02 + 0.3 * r.unit();
        s.pol.alloc_scope = int(r.below(2));
      } else if (k == 1) {
        Fault f;
        f.type = F_OOM;
        f.tid = int(r.below(size_t(n) + 1));
        f.a = int64_t(r.logu(1, 4000));
        f.n = 1 + int64_t(r.below(4));
        s.faults.push_back(f);
      } else if (k == 2 && r.below(4) == 0) {
        s.faults.push_back(corruption(r, n));
      }
      for (int i = 0; i < 4 + int(r.below(20)); i++)
        s.epi.push_back(use(r, r.below(12) ? pick(r, ix_small) : pick(r, ix_all), 4));
      break;
    }
    case 13: {
      img(1, 2);
      ctors();
      if (!(s.flags & 8) && r.below(8) == 0)
        s.pro.insert(s.pro.begin(), use(r, pick(r, r.below(2) ? ix_need : ix_small), 4));
      s.pol = gen_policy(r, false);
      int n = int(r.below(4));
      if (n == 1) n = 0;
      if (n) fill_threads(r, s, n, 6, r.below(2) ? ix_need : ix_small);
      else s.pol = Policy{};
      int k = int(r.below(5));
      if (k == 0) {
        s.pol.p_alloc = 0.02 + 0.3 * r.unit();
        s.pol.alloc_scope = int(r.below(2));
      } else if (k == 1) {
        Fault f;
        f.type = F_TABALLOC;
        f.n = int64_t(r.below(2));
        if (calib.init_sizes.size() > 1) f.a = int64_t(r.below(calib.init_sizes.size()));
        s.faults.push_back(f);
      } else if (k == 2) {
        s.faults.push_back(corruption(r, n));
      } else if (k == 3 && n) {
        Fault f = stall(r, n);
        if (f.n < 0) f.n = int64_t(r.logu(1000, 9000000000ull));
        s.faults.push_back(f);
      }
      int len = int(r.below(r.below(4) ? 20 : 150));
      for (int i = 0; i < len; i++)
        s.epi.push_back(use(r, r.below(20) ? pick(r, ix_small) : pick(r, ix_all), 4));
      if (r.below(3) == 0)
        s.epi.insert(s.epi.begin() + long(r.below(s.epi.size() + 1)), ev(K_EV_RELEASE));
      if (!n && r.below(25) == 0) {
        s.pol = Policy{};
        long_history(r, s, hot_set(r, ix_small));
      }
      break;
    }
    case 19: {
      // Set-up is over, one way or the other; then threads stop where they are.
      if (!img(5, 6)) {
        ctors();
        if (r.below(3) == 0) {
          Fault f;
          f.type = F_TABALLOC;
          s.faults.push_back(f);
        }
        for (int i = 0; i < 2; i++) warm();
      }
      if (r.below(2)) s.flags |= 4;
      s.pol = gen_policy(r, false);
      int big = int(r.below(6));
      const std::vector<int>& from = big == 0 && !ix_mid.empty() ? ix_mid : big == 1 ? ix_all : ix_small;
      if (big == 0 && s.pol.acc_hi && s.pol.acc_hi < 3000) s.pol.acc_hi = 3000;
      fill_threads(r, s, nt, big ? 8 : 3, from);
      int m = int(r.below(3));
      for (int i = 0; i < m; i++) {
        Fault f;
        f.type = F_STALL;
        f.tid = 1 + int(r.below(size_t(nt)));
        if (r.below(3)) {
          f.trig = T_STEP;
          f.a = int64_t(r.logu(1, big ? 60000 : 2000000));
        } else {
          f.trig = T_SYNC;
          f.a = 1 + int64_t(r.below(60));
          f.b = r.below(2) ? 0 : int64_t(r.logu(1, 2000));
        }
        f.n = r.below(3) ? -1 : int64_t(r.logu(1000, 60000000000ull));
        s.faults.push_back(f);
      }
      if (r.below(4) == 0) {
        s.pol.p_alloc = 0.02 + 0.3 * r.unit();
        s.pol.alloc_scope = 0;
      }
      if ((s.flags & 8) && r.below(4) == 0) {
        s.pol.p_reenter = 0.02 + 0.2 * r.unit();
        for (int i = 0; i < 4; i++) {
          s.reops.push_back(use(r, pick(r, ix_small), 1));
          s.reops.back().slot = 9;
          s.reops.back().fill = s.reops.back().buf = 0;
        }
      }
      // the main thread goes on whatever became of the others
      std::vector<int> hot;
      for (auto& v : s.thr)
        for (auto& o : v) hot.push_back(o.ref);
      for (int i = 0; i < 2 + int(r.below(6)); i++)
        s.epi.push_back(use(r, r.below(2) ? hot[r.below(hot.size())] : pick(r, ix_small), 4));
      break;
    }
    case 15: case 16: case 18: {
      if (s.judge != 16 && !ix_scale.empty() && r.below(3) == 0) {
        s.flags |= 8 | kScaleRun;
        int k = pick(r, ix_scale);
        for (int j = 0; j < 4; j++) {
          s.epi.push_back(pool[size_t(k + j)].op);
          s.epi.back().slot = j;
        }
        break;
      }
      if (!img(3, 4)) ctors();
      // hard work in one thread or several, undisturbed or short of memory
      int n = s.judge == 18 || r.below(3) ? 0 : 2 + int(r.below(2));
      if (n) {
        s.pol = gen_policy(r, false);
        if (s.pol.acc_hi && s.pol.acc_hi < 300) s.pol.acc_hi = 300 + r.below(3000);
      }
      if (r.below(3) == 0) {
        s.pol.p_alloc = 0.02 + 0.4 * r.unit();
        s.pol.alloc_scope = int(r.below(2));
      } else if (!(s.flags & 8) && r.below(3) == 0) {
        Fault f;
        f.type = F_TABALLOC;
        s.faults.push_back(f);
      }
      auto some = [&](int m) {
        std::vector<Op> v;
        for (int i = 0; i < m; i++) {
          v.push_back(use(r, pick(r, r.below(4) ? ix_heavy : r.below(4) ? ix_all : ix_over), 3));
          v.back().buf = v.back().fill = 0;
          v.back().slot = i;     // what an output held before is not this call's work
        }
        return v;
      };
      for (int t = 0; t < n; t++) s.thr.push_back(some(1 + int(r.below(3))));
      auto e = some(n ? 1 : 2 + int(r.below(4)));
      s.epi.insert(s.epi.end(), e.begin(), e.end());
      break;
    }
    case 14: {
      int k = int(r.below(3));
      if (!img(1, 2) && r.below(8)) ctors();
      if (k == 0) {   // one conversion under the quota
        s.flags |= 2;
        Fault f;
        f.type = F_QUOTA;
        f.trig = T_START;
        f.n = 4 << 20;
        s.faults.push_back(f);
        std::vector<int> dom;
        for (int i : r.below(4) == 0 ? ix_dense : r.below(3) ? ix_big : ix_all) {
          int kd = pool[size_t(i)].op.kind;
          if (kd <= K_TO_UNI_S) dom.push_back(i);
        }
        Op o = pool[size_t(pick(r, dom))].op;
        o.slot = 0;
        s.pro.push_back(o);
        s.pro.push_back(ev(K_EV_RELEASE));
        if (r.below(2)) {
          Op q = pool[size_t(pick(r, dom))].op;
          s.pro.push_back(q);
        }
      } else {        // over-limit input when memory is scarce
        int state = int(r.below(4));
        if (state == 1) warm();
        if (state == 2) {
          Fault f;
          f.type = F_TABALLOC;
          s.faults.push_back(f);
          warm();
        }
        int n = 0;
        if (state == 3) {
          s.pol = gen_policy(r, false);
          if (s.pol.acc_hi && s.pol.acc_hi < 3000) s.pol.acc_hi = 3000;
          n = 2;
          std::vector<Op> v;
          v.push_back(use(r, pick(r, ix_needfew), 4));
          s.thr.push_back(v);
          std::vector<Op> w;
          for (int i = 0; i < 3; i++) {
            w.push_back(use(r, pick(r, ix_over), 4));
            w.back().fill = 0;
          }
          s.thr.push_back(w);
          if (r.below(2)) s.faults.push_back(stall(r, 1));
        }
        if (!n && r.below(2)) {
          Fault f;
          f.type = F_OOM;
          f.trig = T_START;
          f.n = -1;
          s.faults.push_back(f);
        }
        for (int i = 0; i < 3; i++) s.epi.push_back(use(r, pick(r, ix_over), 4));
      }
      break;
    }
  }
  return s;
}

// ------------------------------------------------------------- explicit traces
static Spec make_explicit(const Spec& s) {
  Spec e = s;
  e.explicit_mode = 1;
  int sk = s.pol.spin_k;
  e.pol = Policy{};
  e.pol.spin_k = sk;
  e.reops.clear();
  for (int i = 0; i < sh->nsw; i++)
    e.sw.push_back(Switch{sh->sw[i].tid, sh->sw[i].step, sh->sw[i].next});
  for (int i = 0; i < sh->nst; i++)
    e.st.push_back(Stale{sh->st[i].tid, sh->st[i].idx, sh->st[i].back});
  for (int i = 0; i < sh->nfired; i++) {
    auto& f = sh->fired[i];
    if (f.src >= 0) continue;
    Fault x;
    x.type = f.type;
    x.trig = T_STEP;
    x.tid = f.tid;
    x.a = f.a;
    if (f.type == F_ALLOC) x.n = 1;
    if (f.type == F_REENTER) x.op = s.reops[size_t(f.opix)];
    e.faults.push_back(x);
  }
  return e;
}
static std::string hex(const std::string& s) {
  static const char* h = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    o += h[c >> 4];
    o += h[c & 15];
  }
  return o.empty() ? "-" : o;
}
static std::string unhex(const std::string& s) {
  std::string o;
  if (s == "-") return o;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) o += char(v(s[i]) << 4 | v(s[i + 1]));
  return o;
}
static std::string op_line(const Op& o) {
  return fmt("%s slot %d buf %d fill %d ", kind_name(o.kind), o.slot, o.buf, o.fill) +
         hex(o.in) + (o.rep > 1 ? fmt(" times %d", o.rep) : "");
}
static const char* const kFault[] = {"stall", "alloc", "tablealloc", "oom", "quota",
                                     "corrupt", "reenter"};
static const char* const kTrig[] = {"step", "sync", "table", "start"};
static std::string to_text(const Spec& s, const Outcome& o) {
  std::string t = "# replay file: one simulated run, exactly repeatable\n";
  t += "property " + s.prop + "\n";
  t += "class " + o.cls + "\n";
  t += "hash " + fmt("%016llx", (unsigned long long)o.hash) + "\n";
  std::string m = o.msg;
  for (char& c : m)
    if (c == '\n') c = ' ';
  t += "violation " + m + "\n";
  if (!variant.empty()) t += "variant " + variant + "\n";
  t += fmt("settings seed %llu fillbyte %d flags %d spin_k %d rules %d env %d\n",
           (unsigned long long)s.seed, s.fillbyte, s.flags, s.pol.spin_k, s.judge, s.env);
  for (auto& x : s.pro) t += "before " + op_line(x) + "\n";
  for (size_t i = 0; i < s.thr.size(); i++) {
    t += fmt("thread %zu\n", i + 1);
    for (auto& x : s.thr[i]) t += fmt("in %zu ", i + 1) + op_line(x) + "\n";
  }
  for (auto& x : s.epi) t += "after " + op_line(x) + "\n";
  for (auto& f : s.faults) {
    t += fmt("fault %s at %s tid %d a %lld b %lld n %lld edits %zu", kFault[f.type],
             kTrig[f.trig], f.tid, (long long)f.a, (long long)f.b, (long long)f.n,
             f.edits.size());
    for (auto& e : f.edits) t += fmt(" %u:%u:%d:%u", e.off, e.len, e.mode, e.val);
    if (f.type == F_REENTER) t += " op " + op_line(f.op);
    t += "\n";
  }
  for (auto& x : s.sw)
    t += fmt("switch thread %d %s %llu to %d\n", x.tid, x.step & 1 ? "sync" : "access",
             (unsigned long long)(x.step / 2), x.next);
  for (auto& x : s.st)
    t += fmt("stale thread %d load %llu back %d\n", x.tid, (unsigned long long)x.idx,
             x.back);
  return t;
}
static std::vector<std::string> words(const std::string& l) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < l.size()) {
    size_t j = l.find(' ', i);
    if (j == std::string::npos) j = l.size();
    if (j > i) v.push_back(l.substr(i, j - i));
    i = j + 1;
  }
  return v;
}
static int add_pool(const Op& o) {
  if (o.kind >= K_API_COUNT) return -1;
  for (size_t i = 0; i < pool.size(); i++)
    if (pool[i].op.kind == o.kind && pool[i].op.in == o.in) return int(i);
  PoolOp p;
  p.op = o;
  p.op.slot = p.op.fill = p.op.buf = 0;
  classify(p);
  pool.push_back(p);
  return int(pool.size()) - 1;
}
static Op parse_op(const std::vector<std::string>& w, size_t k) {
  Op o;
  o.kind = kind_by_name(w[k]);
  o.slot = atoi(w[k + 2].c_str());
  o.buf = atoi(w[k + 4].c_str());
  o.fill = atoi(w[k + 6].c_str());
  o.in = unhex(w[k + 7]);
  if (w.size() > k + 9 && w[k + 8] == "times") o.rep = atoi(w[k + 9].c_str());
  o.ref = add_pool(o);
  return o;
}
static bool parse(const std::string& text, Spec& s, std::string& cls, uint64_t& hash) {
  size_t i = 0;
  s.explicit_mode = 1;
  while (i < text.size()) {
    size_t j = text.find('\n', i);
    if (j == std::string::npos) j = text.size();
    auto w = words(text.substr(i, j - i));
    i = j + 1;
    if (w.empty() || w[0][0] == '#') continue;
    if (w[0] == "property") s.prop = w[1];
    else if (w[0] == "class") cls = w[1];
    else if (w[0] == "hash") hash = strtoull(w[1].c_str(), nullptr, 16);
    else if (w[0] == "settings") {
      s.seed = strtoull(w[2].c_str(), nullptr, 10);
      s.fillbyte = atoi(w[4].c_str());
      s.flags = atoi(w[6].c_str());
      s.pol.spin_k = atoi(w[8].c_str());
      s.judge = w.size() > 10 ? atoi(w[10].c_str()) : atoi(s.prop.c_str() + 1);
      s.env = w.size() > 12 ? atoi(w[12].c_str()) : 0;
    } else if (w[0] == "before") s.pro.push_back(parse_op(w, 1));
    else if (w[0] == "thread") s.thr.emplace_back();
    else if (w[0] == "in") s.thr[size_t(atoi(w[1].c_str())) - 1].push_back(parse_op(w, 2));
    else if (w[0] == "after") s.epi.push_back(parse_op(w, 1));
    else if (w[0] == "fault") {
      Fault f;
      for (int k = 0; k < F_NTYPES; k++)
        if (w[1] == kFault[k]) f.type = k;
      for (int k = 0; k < 4; k++)
        if (w[3] == kTrig[k]) f.trig = k;
      f.tid = atoi(w[5].c_str());
      f.a = atoll(w[7].c_str());
      f.b = atoll(w[9].c_str());
      f.n = atoll(w[11].c_str());
      size_t n = size_t(atoi(w[13].c_str()));
      for (size_t k = 0; k < n; k++) {
        unsigned a, b, d;
        int c;
        if (sscanf(w[14 + k].c_str(), "%u:%u:%d:%u", &a, &b, &c, &d) != 4) return false;
        f.edits.push_back(Edit{a, b, c, uint8_t(d)});
      }
      if (f.type == F_REENTER) f.op = parse_op(w, 15 + n);
      s.faults.push_back(f);
    } else if (w[0] == "switch") {
      uint64_t k = strtoull(w[4].c_str(), nullptr, 10) * 2 + (w[3] == "sync");
      s.sw.push_back(Switch{atoi(w[2].c_str()), k, atoi(w[6].c_str())});
    } else if (w[0] == "stale") {
      s.st.push_back(Stale{atoi(w[2].c_str()), strtoull(w[4].c_str(), nullptr, 10),
                           atoi(w[6].c_str())});
    } else if (w[0] != "violation" && w[0] != "variant") {
      return false;
    }
  }
  return true;
}

// ---------------------------------------------------------------- minimisation
static int min_runs;
static double min_end;
static bool still(const Spec& s, const std::string& cls) {
  if (mono() > min_end || min_runs > 600) return false;
  min_runs++;
  Outcome o = run_spec(s);
  return o.status == 2 && o.cls == cls;
}
template <class V>
static bool shrink_list(Spec& s, V& list, const std::string& cls) {
  bool any = false;
  for (size_t chunk = list.size(); chunk >= 1; chunk /= 2) {
    for (size_t i = 0; i + chunk <= list.size();) {
      V save = list;
      list.erase(list.begin() + long(i), list.begin() + long(i + chunk));
      if (still(s, cls)) {
        any = true;
      } else {
        list = save;
        i += chunk;
      }
      if (mono() > min_end) return any;
    }
  }
  return any;
}
static void minimise(Spec& s, const std::string& cls) {
  min_runs = 0;
  min_end = mono() + 60;
  for (int round = 0; round < 3; round++) {
    bool any = false;
    any |= shrink_list(s, s.sw, cls);
    any |= shrink_list(s, s.st, cls);
    any |= shrink_list(s, s.faults, cls);
    any |= shrink_list(s, s.epi, cls);
    for (auto& t : s.thr) {
      if (t.size() > 1 || s.thr.size() > 1) any |= shrink_list(s, t, cls);
    }
    while (s.thr.size() > 1 && s.thr.back().empty()) {
      Spec c = s;
      c.thr.pop_back();
      if (!still(c, cls)) break;
      s = c;
      any = true;
    }
    any |= shrink_list(s, s.pro, cls);
    for (Fault& f : s.faults)
      if (f.edits.size() > 1) any |= shrink_list(s, f.edits, cls);
    if (!any) break;
  }
}

// ---------------------------------------------------------------------- search
struct Stats {
  uint64_t runs, steps;
  uint64_t ctr[C_N];
  uint64_t pol[8];
  uint64_t with_fault;
  uint64_t vio;              // lowest violating index + 1
  uint64_t err;              // lowest erroneous index + 1
  uint64_t known;
};
static uint64_t run_seed(uint64_t seed, uint64_t i) {
  return mix64(mix64(seed, uint64_t(P) * 1000003), i);
}

// ------------------------------------------------- warm-image runs and variants
// A run whose calls raced is followed by kVariants runs of the same calls with
// switches at the racing code.
static const int kVariants = 6;
static Spec gen_variant(uint64_t rs, int j, const std::vector<uint64_t>& pcs) {
  Spec s = gen_spec(rs);
  if (j) {
    s.seed = mix64(s.seed, 0xFACE + uint64_t(j));
    s.pol.pcs = pcs;
    s.pol.p_pc = j % 3 == 0 ? 0.7 : j % 3 == 1 ? 0.3 : 0.06;
    s.pol.pct = 0;
    if (j > 2) s.pol.acc_lo = s.pol.acc_hi = 0;
  }
  return s;
}
struct Zygote {
  pid_t pid = -1;
  int in = -1, out = -1;
  bool dead = false;
};
static Zygote zy;
static int zy_in, zy_out;
static const Spec* zygote_serve() {
  char c = 1;
  rlimit l{RLIM_INFINITY, RLIM_INFINITY};
  setrlimit(RLIMIT_CPU, &l);
  if (write(zy_out, &c, 1) != 1) _exit(0);
  for (;;) {
    if (read(zy_in, &c, 1) != 1) _exit(0);
    pid_t p = fork();
    if (p == 0) {
      close(zy_in);
      close(zy_out);
      static Spec s;
      std::vector<uint64_t> pcs(sh->req_pc, sh->req_pc + sh->req_npc);
      s = gen_variant(sh->req_seed, sh->req_j, pcs);
      limits(s.judge);
      return &s;
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (write(zy_out, &st, sizeof st) != sizeof st) _exit(0);
  }
}
static bool zygote_ready() {
  if (zy.dead || zy.pid > 0) return !zy.dead;
  int a[2], b[2];
  if (pipe(a) || pipe(b)) return false;
  zy.dead = true;
  reset_shared();
  zy.pid = fork();
  if (zy.pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(a[1]);
    close(b[0]);
    zy_in = a[0];
    zy_out = b[1];
    rlimit c{0, 0};
    setrlimit(RLIMIT_CORE, &c);
    rlimit l{60, RLIM_INFINITY};
    setrlimit(RLIMIT_CPU, &l);
    rt_zygote = zygote_serve;
    static Spec s;
    s.flags = 8;
    rt_exec(s, *new RunOut, judge_history);
  }
  close(a[0]);
  close(b[1]);
  zy.in = a[1];
  zy.out = b[0];
  char c;
  if (zy.pid > 0 && read(zy.out, &c, 1) == 1) zy.dead = false;
  return !zy.dead;
}
static Outcome run_variant(uint64_t rs, int j, const std::vector<uint64_t>& pcs,
                           const Spec& s) {
  if (!(s.flags & 8) || !zygote_ready()) return run_spec(s);
  reset_shared();
  sh->req_seed = rs;
  sh->req_j = j;
  sh->req_npc = int(pcs.size());
  for (size_t i = 0; i < pcs.size(); i++) sh->req_pc[i] = pcs[i];
  char c = 1;
  int st = 0;
  if (write(zy.in, &c, 1) != 1 || read(zy.out, &st, sizeof st) != int(sizeof st)) {
    zy.dead = true;
    return run_spec(s);
  }
  return outcome_of(st);
}
static std::vector<uint64_t> racing() {
  return std::vector<uint64_t>(sh->rpc, sh->rpc + sh->nrpc);
}
// the specification of variant j of run i
static Spec spec_of(uint64_t rs, int j) {
  Spec s = gen_spec(rs);
  if (!j) return s;
  run_spec(s);
  return gen_variant(rs, j, racing());
}
static bool is_known(const std::string& cls, const std::string& msg) {
  for (auto& k : known)
    if ((cls + ": " + msg).find(k) != std::string::npos) return true;
  return false;
}
static std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += char(c);
    } else if (c < 32 || c >= 127) {
      o += fmt("\\u%04x", c);
    } else {
      o += char(c);
    }
  }
  return o;
}
static void setup_pool(uint64_t seed, int n, int workers) {
  Rng r(mix64(seed, 77));
  pool = gen_pool(r, n);
  if (P == 15 || P == 16 || P == 18) gen_heavy(r, pool, 3 * n);
  else if (P != 8 && P != 4) gen_mid(r, pool, 40 + n / 12);
  if (P == 4) gen_aces(r, pool, 30 + n / 20);
  if (P == 15 || P == 18) gen_scale(r, pool, n);
  compute_refs(workers);
  index_pool();
  if (ix_need.empty() || ix_free.empty()) {
    fprintf(stderr, "no usable operations: the library answers nothing\n");
    exit(2);
  }
}

static int cmd_replay(const char* file, bool verbose) {
  int fd = open(file, O_RDONLY);
  if (fd < 0) {
    perror(file);
    return 2;
  }
  std::string text = read_all(fd);
  close(fd);
  Spec s;
  std::string cls;
  uint64_t hash = 0;
  // Seeded form: the run is named by its seed (used only when the explicit
  // form of a run does not reproduce it).
  int sp = 0, spool = 0;
  unsigned long long sseed = 0, srun = 0, shash = 0;
  char scls[64] = "";
  if (sscanf(text.c_str(), "seeded property S%d seed %llu run %llu pool %d hash %llx class %63[^\n]",
             &sp, &sseed, &srun, &spool, &shash, scls) == 6) {
    P = sp;
    sh = map_shared();
    setup_pool(sseed, spool, 4);
    calibrate();
    find_literals();
    if (P == 7 || P == 17) find_crc_basis();
    Outcome o = run_spec(spec_of(run_seed(sseed, srun / 64), int(srun % 64)));
    if (verbose)
      printf("status %d class %s hash %016llx (recorded %016llx)\n%s\n", o.status,
             o.cls.c_str(), (unsigned long long)o.hash, shash, o.msg.c_str());
    if (o.status == 2 && o.cls == scls && (o.hash == shash || o.cls == "hang")) return 1;
    return o.status == 1 ? 0 : 2;
  }
  if (!parse(text, s, cls, hash)) {
    fprintf(stderr, "bad replay file\n");
    return 2;
  }
  P = atoi(s.prop.c_str() + 1);
  sh = map_shared();
  compute_refs(2);
  calibrate();
  Outcome o = run_spec(s);
  if (verbose) {
    printf("status %d class %s hash %016llx (recorded %016llx)\n%s\n", o.status,
           o.cls.c_str(), (unsigned long long)o.hash, (unsigned long long)hash,
           o.msg.c_str());
  }
  if (o.status == 2 && o.cls == cls && (o.hash == hash || cls == "hang" )) return 1;
  return o.status == 1 ? 0 : 2;
}

int main(int argc, char** argv) {
  auto arg = [&](const char* k, const char* d) -> const char* {
    for (int i = 1; i + 1 < argc; i++)
      if (!strcmp(argv[i], k)) return argv[i + 1];
    return d;
  };
  rt_init_parent();
  if (argc >= 3 && !strcmp(argv[1], "replay")) return cmd_replay(argv[2], true);
  if (argc < 2) return 2;
  double t0 = mono();
  std::string mode = argv[1];
  std::string prop = arg("--prop", "S01");
  P = atoi(prop.c_str() + 1);
  uint64_t seed = strtoull(arg("--seed", "1"), nullptr, 10);
  uint64_t runs = strtoull(arg("--runs", "200"), nullptr, 10);
  uint64_t first = strtoull(arg("--first", "0"), nullptr, 10);
  double cap = atof(arg("--cap", "600"));
  int workers = atoi(arg("--workers", "8"));
  int npool = atoi(arg("--pool", P <= 4 || P == 15 || P == 16 || P == 18 ? "400" : "1600"));
  std::string out = arg("--out", "");
  std::string rdir = arg("--replays", "/tmp");
  variant = arg("--variant", "");
  {
    int fd = open(arg("--known", "/dev/null"), O_RDONLY);
    if (fd >= 0) {
      std::string t = read_all(fd);
      close(fd);
      size_t i = 0;
      while (i < t.size()) {
        size_t j = t.find('\n', i);
        if (j == std::string::npos) j = t.size();
        std::string l = t.substr(i, j - i);
        std::string pre = "known: property=" + prop + " sig=";
        if (l.compare(0, pre.size(), pre) == 0) known.push_back(l.substr(pre.size()));
        i = j + 1;
      }
    }
  }
  sh = map_shared();
  setup_pool(seed, npool, workers);
  calibrate();
  find_literals();
  if (P == 7 || P == 17) find_crc_basis();
  double t1 = mono();

  if (mode == "one" || mode == "dump") {
    Spec s = gen_spec(run_seed(seed, first));
    if (mode == "dump") {
      Outcome z;
      printf("%s", to_text(s, z).c_str());
    }
    Outcome o = run_spec(s);
    printf("run %llu: status %d %s %s hash %016llx ihash %016llx\n",
           (unsigned long long)first, o.status, o.cls.c_str(), o.msg.c_str(),
           (unsigned long long)o.hash, (unsigned long long)o.ihash);
    for (int i = 0; i < C_N; i++)
      printf("  %s %llu\n", kCtrName[i], (unsigned long long)sh->ctr[i]);
    Spec e = make_explicit(s);
    Outcome q = run_spec(e);
    printf("explicit: status %d %s %s hash %016llx\n", q.status, q.cls.c_str(),
           q.msg.c_str(), (unsigned long long)q.hash);
    return 0;
  }

  Stats* st = static_cast<Stats*>(mmap(nullptr, sizeof(Stats) * 64,
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  volatile uint64_t* best = static_cast<volatile uint64_t*>(
      mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  *best = ~0ull;
  std::vector<int> fds;
  std::vector<pid_t> ps;
  for (int w = 0; w < workers; w++) {
    int fd = memfd();
    fds.push_back(fd);
    pid_t p = fork();
    if (p == 0) {
      sh = map_shared();
      Stats& x = st[w];
      for (uint64_t i = first + uint64_t(w); i < first + runs; i += uint64_t(workers)) {
        if (i > *best / 64) break;
        if (mono() - t0 > cap) break;
        const uint64_t rs = run_seed(seed, i);
        std::vector<uint64_t> pcs;
        int nvar = 0;
        bool found = false;
        for (int j = 0; j <= nvar && !found; j++) {
        Spec s = gen_variant(rs, j, pcs);
        Outcome o = run_variant(rs, j, pcs, s);
        x.runs++;
        if (!j && o.status == 1 && sh->nrpc && s.judge != 2) {
          pcs = racing();
          nvar = kVariants;
        }
        if (mode == "fidelity") {   // does the recorded trace repeat the run?
          bool trunc = sh->trunc;
          Outcome q = run_spec(make_explicit(s));
          if (q.hash != o.hash || q.status != o.status) {
            printf("run %llu%s: %d %s %016llx explicit %d %s %016llx\n",
                   (unsigned long long)i, trunc ? " (trace cut)" : "", o.status,
                   o.cls.c_str(), (unsigned long long)o.hash, q.status,
                   q.cls.c_str(), (unsigned long long)q.hash);
            fflush(stdout);
          }
          continue;
        }
        for (int k = 0; k < C_N; k++) x.ctr[k] += sh->ctr[k];
        x.pol[s.thr.size() ? s.pol.kind & 7 : 7]++;
        bool fired = sh->nfired || sh->ctr[C_ALLOCFAIL] || sh->ctr[C_STALE] ||
                     sh->ctr[C_QUOTAFAIL] || sh->ctr[C_PREEMPT];
        x.with_fault += fired;
        uint64_t rec[4] = {i * 64 + uint64_t(j), o.hash, fired || sh->ctr[C_SWITCH] ? o.ihash : 0, fired};
        write_all(fd, rec, sizeof rec);
        if (o.status == 3) {
          if (!x.err || i + 1 < x.err) x.err = i + 1;
          fprintf(stderr, "run %llu: %s: %s\n", (unsigned long long)i, o.cls.c_str(),
                  o.msg.c_str());
        }
        if (o.status == 2) {
          if (is_known(o.cls, o.msg)) {
            x.known++;
          } else {
            const uint64_t me = i * 64 + uint64_t(j);
            if (!x.vio) x.vio = me + 1;
            for (;;) {
              uint64_t b = *best;
              if (b <= me || __sync_bool_compare_and_swap(best, b, me)) break;
            }
            found = true;
          }
        }
        }
        if (found) break;
      }
      if (zy.pid > 0) {
        close(zy.in);
        int zs;
        waitpid(zy.pid, &zs, 0);
      }
      _exit(0);
    }
    ps.push_back(p);
  }
  for (pid_t p : ps) {
    int s;
    waitpid(p, &s, 0);
  }
  Stats tot{};
  std::unordered_set<uint64_t> inter, nontriv;
  uint64_t allhash = 0;
  std::vector<std::pair<uint64_t, uint64_t>> hashes;
  for (int w = 0; w < workers; w++) {
    tot.runs += st[w].runs;
    tot.with_fault += st[w].with_fault;
    tot.known += st[w].known;
    for (int k = 0; k < C_N; k++) tot.ctr[k] += st[w].ctr[k];
    for (int k = 0; k < 8; k++) tot.pol[k] += st[w].pol[k];
    if (st[w].err && (!tot.err || st[w].err < tot.err)) tot.err = st[w].err;
    std::string s = read_all(fds[size_t(w)]);
    for (size_t o = 0; o + 32 <= s.size(); o += 32) {
      uint64_t rec[4];
      memcpy(rec, &s[o], 32);
      hashes.push_back({rec[0], rec[1]});
      if (rec[2]) inter.insert(rec[2]);
      if (rec[3]) nontriv.insert(rec[1]);
    }
  }
  std::sort(hashes.begin(), hashes.end());
  for (auto& h : hashes) allhash = mix64(allhash ^ h.first, h.second);
  double t2 = mono();
  if (mode == "hashes") {
    for (auto& h : hashes)
      printf("%llu %016llx\n", (unsigned long long)h.first, (unsigned long long)h.second);
    return 0;
  }
  int rcode = 0;
  std::string vio_json = "null";
  if (tot.err && *best == ~0ull) {
    fprintf(stderr, "machinery error in run %llu\n", (unsigned long long)tot.err - 1);
    return 2;
  }
  if (*best != ~0ull) {
    const uint64_t i = *best / 64;
    const int j = int(*best % 64);
    Spec s = spec_of(run_seed(seed, i), j);
    Outcome a = run_spec(s);
    Spec e = make_explicit(s);
    Outcome b = run_spec(s);
    if (a.status != 2 || b.status != 2 || a.cls != b.cls || (a.hash != b.hash && a.cls != "hang")) {
      fprintf(stderr, "run %llu is not repeatable: %s/%s\n", (unsigned long long)i,
              a.cls.c_str(), b.cls.c_str());
      return 2;
    }
    Outcome c = run_spec(e);
    bool expl = c.status == 2 && c.cls == a.cls;
    size_t before = e.sw.size() + e.st.size() + e.faults.size();
    size_t opsb = e.pro.size() + e.epi.size();
    for (auto& t : e.thr) opsb += t.size();
    Outcome d = a;
    if (expl) {
      Spec m = e;
      minimise(m, a.cls);
      d = run_spec(m);
      if (d.status == 2 && d.cls == a.cls) {
        e = m;
      } else {
        d = c;
      }
    } else {
      printf("explicit form of run %llu gives %d %s %s: reporting its seed\n",
             (unsigned long long)i, c.status, c.cls.c_str(), c.msg.c_str());
    }
    size_t opsa = e.pro.size() + e.epi.size();
    for (auto& t : e.thr) opsa += t.size();
    std::string path = rdir + "/" + prop + (variant.empty() ? "" : "-" + variant) +
                       fmt("-%llu-%llu.replay",
                       (unsigned long long)seed, (unsigned long long)i);
    FILE* f = fopen(path.c_str(), "w");
    if (!f) {
      perror(path.c_str());
      return 2;
    }
    std::string txt =
        expl ? to_text(e, d)
             : fmt("seeded property %s seed %llu run %llu pool %d hash %016llx class %s\n",
                   prop.c_str(), (unsigned long long)seed,
                   (unsigned long long)(i * 64 + uint64_t(j)), npool,
                   (unsigned long long)a.hash, a.cls.c_str()) +
                   (variant.empty() ? "" : "variant " + variant + "\n");
    fwrite(txt.data(), 1, txt.size(), f);
    fclose(f);
    // fresh process
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      execl("/proc/self/exe", "sim", "replay", path.c_str(), nullptr);
      _exit(2);
    }
    int stt;
    waitpid(p, &stt, 0);
    if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 1) {
      fprintf(stderr, "replay in a fresh process does not reproduce\n");
      return 2;
    }
    printf("violation in run %llu (seed %llu): %s: %s\n", (unsigned long long)i,
           (unsigned long long)seed, d.cls.c_str(), d.msg.c_str());
    printf("minimised: %zu -> %zu schedule/fault entries, %zu -> %zu calls\n", before,
           e.sw.size() + e.st.size() + e.faults.size(), opsb, opsa);
    printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
    vio_json = fmt("{\"run\": %llu, \"class\": \"%s\", \"replay\": \"%s\", \"message\": \"",
                   (unsigned long long)i, d.cls.c_str(), path.c_str()) +
               json_escape(d.msg.substr(0, 400)) + "\"}";
    rcode = 1;
  }
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 2;
    double wall = t2 - t1;
    fprintf(f, "{\"runs\": %llu, \"wall_search_s\": %.3f, \"wall_setup_s\": %.3f, ",
            (unsigned long long)tot.runs, wall, t1 - t0);
    fprintf(f, "\"distinct_interleavings\": %zu, \"runs_with_faults_or_preemption\": %llu, ",
            inter.size(), (unsigned long long)tot.with_fault);
    fprintf(f, "\"distinct_nontrivial\": %zu, ", nontriv.size());
    fprintf(f, "\"history_hash\": \"%016llx\", \"known\": %llu, ",
            (unsigned long long)allhash, (unsigned long long)tot.known);
    fprintf(f, "\"pool\": %zu, \"init_steps\": %llu, \"table_bytes\": %llu, ",
            pool.size(), (unsigned long long)calib.init_steps,
            (unsigned long long)calib.table_size);
    static const char* pk[] = {"sync", "fine", "medium", "pct", "post_atomic", "hot",
                               "coarse", "single_thread"};
    fprintf(f, "\"policies\": {");
    for (int k = 0; k < 8; k++)
      fprintf(f, "%s\"%s\": %llu", k ? ", " : "", pk[k], (unsigned long long)tot.pol[k]);
    fprintf(f, "}, \"counters\": {");
    for (int k = 0; k < C_N; k++)
      fprintf(f, "%s\"%s\": %llu", k ? ", " : "", kCtrName[k],
              (unsigned long long)tot.ctr[k]);
    fprintf(f, "}, \"samples\": [");
    for (uint64_t i = 0; i < 2 && i < runs; i++) {
      Outcome z;
      std::string t = to_text(gen_spec(run_seed(seed, first + i)), z);
      if (t.size() > 1500) t = t.substr(0, 1500) + "...";
      fprintf(f, "%s\"%s\"", i ? ", " : "", json_escape(t).c_str());
    }
    fprintf(f, "], \"violation\": %s}\n", vio_json.c_str());
    fclose(f);
  }
  fprintf(stderr, "%s: %llu runs, %zu distinct interleavings, %.1f s setup, %.1f s search\n",
          prop.c_str(), (unsigned long long)tot.runs, inter.size(), t1 - t0, t2 - t1);
  return rcode;
}
