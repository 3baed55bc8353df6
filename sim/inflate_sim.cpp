// S08: seeded simulation of the stored, compressed data under storage faults.
// A model encoder writes streams block by block, a fault injector damages,
// shortens or starves them, the library's decompressor (with address and
// undefined-behaviour checking) runs on exactly sized buffers, and its answer
// is judged against an independent decoder.  One seed is one exact case.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <memory>
#include <string>
#include <unordered_set>
#include <vector>

#include "refinflate.h"

// The library's decompressor and a copy of its stored tables, found by check.py
// in the object file by type and content, under names of their own.
extern "C" size_t sim_inflate(const uint8_t* src, size_t n, uint8_t* dst, size_t cap);
extern "C" const unsigned char sim_stored_data[];
extern "C" const unsigned long sim_stored_size;

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:"
         "malloc_context_size=0:quarantine_size_mb=1";
}
extern "C" const char* __ubsan_default_options() { return "exitcode=77:print_stacktrace=0"; }

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool one_in(uint64_t n) { return below(n) == 0; }
};
static uint64_t mix64(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ull + b);
  r.next();
  return r.next() ^ (b << 1);
}
static std::string fmt(const char* f, ...) {
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
static double mono() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

// ------------------------------------------------------------- model encoder
struct BitWriter {
  std::string o;
  int n = 0;
  void bit(int b) {
    if (n == 0) o += '\0';
    if (b) o.back() = char(uint8_t(o.back()) | 1u << n);
    n = (n + 1) & 7;
  }
  void bits(uint32_t v, int k) {
    for (int i = 0; i < k; i++) bit(v >> i & 1);
  }
  void code(uint32_t c, int k) {
    for (int i = k - 1; i >= 0; i--) bit(c >> i & 1);
  }
  void align() { n = 0; }
};
static const int LB[29] = {3,  4,  5,  6,  7,  8,  9,  10, 11,  13,  15,  17,  19,  23, 27,
                           31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258};
static const int LE[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2,
                           2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
static const int DB[30] = {1,    2,    3,    4,    5,    7,    9,    13,    17,    25,
                           33,   49,   65,   97,   129,  193,  257,  385,   513,   769,
                           1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577};
static const int DE[30] = {0, 0, 0, 0, 1, 1, 2, 2,  3,  3,  4,  4,  5,  5,  6,
                           6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13};
struct Tok {
  int lit = -1;     // literal, or
  int ls = 0, lx = 0, ds = 0, dx = 0;   // length symbol/extra, distance symbol/extra
};
struct Code {
  std::vector<int> len;
  std::vector<uint32_t> c;
  void assign() {
    c.assign(len.size(), 0);
    uint32_t code = 0;
    for (int l = 1; l <= 15; l++) {
      code <<= 1;
      for (size_t s = 0; s < len.size(); s++)
        if (len[s] == l) c[s] = code++;
    }
  }
};
// random complete prefix code for the marked symbols
static void random_code(Rng& r, Code& k, std::vector<char> used, int maxbits, bool one_ok) {
  std::vector<int> u;
  for (size_t i = 0; i < used.size(); i++)
    if (used[i]) u.push_back(int(i));
  k.len.assign(used.size(), 0);
  if (u.empty()) return;
  if (u.size() == 1) {
    if (one_ok && r.below(4)) {
      k.len[size_t(u[0])] = 1;
      k.assign();
      return;
    }
    int x;
    do x = int(r.below(used.size()));
    while (x == u[0]);
    u.push_back(x);
  }
  std::vector<int> leaf{0};
  int style = int(r.below(3));
  while (leaf.size() < u.size()) {
    size_t i = style == 0 ? r.below(leaf.size())
               : style == 1 ? leaf.size() - 1        // as deep as possible
                            : 0;
    if (style == 2) {                                // as flat as possible
      for (size_t j = 0; j < leaf.size(); j++)
        if (leaf[j] < leaf[i]) i = j;
    }
    // room left for all remaining symbols below the other leaves?
    if (leaf[i] >= maxbits) {
      i = 0;
      for (size_t j = 0; j < leaf.size(); j++)
        if (leaf[j] < leaf[i]) i = j;
      if (leaf[i] >= maxbits) break;
    }
    int d = leaf[i] + 1;
    leaf[i] = d;
    leaf.push_back(d);
  }
  for (size_t i = leaf.size(); i > 1; i--) std::swap(leaf[i - 1], leaf[r.below(i)]);
  for (size_t i = 0; i < u.size() && i < leaf.size(); i++) k.len[size_t(u[i])] = leaf[i];
  k.assign();
}
enum Malform {
  M_NONE, M_TYPE3, M_NLEN, M_FAR, M_LITRANGE, M_DISTRANGE, M_UNASSIGNED, M_RUNLONG,
  M_NOPREV, M_N
};
static const char* const kMal[] = {"none", "reserved_type", "stored_complement", "far_match",
                                   "length_code_286_287", "distance_code_30_31",
                                   "unassigned_code", "run_past_lists", "repeat_of_nothing"};
struct Gen {
  Rng& r;
  BitWriter w;
  size_t out = 0;      // bytes the stream produces so far
  explicit Gen(Rng& rr) : r(rr) {}

  void tokens(std::vector<Tok>& v, int n, bool far) {
    int style = int(r.below(5));
    int a = int(r.below(256)), b = 1 + int(r.below(256));
    for (int i = 0; i < n; i++) {
      Tok t;
      bool match = out > 0 && (style == 0 ? r.below(10) == 0 : style == 1 ? r.below(2) == 0
                               : style == 2 ? r.below(10) != 0 : style == 3 ? false : r.below(4) == 0);
      if (!match) {
        t.lit = style == 4 ? int(r.below(256)) : (a + int(r.below(size_t(b)))) & 255;
        out++;
      } else {
        t.ls = r.below(6) == 0 ? 28 : int(r.below(29));
        t.lx = LE[t.ls] ? int(r.below(1u << LE[t.ls])) : 0;
        if (t.ls == 27 && t.lx == 31) t.lx = r.below(2) ? 31 : 30;   // 258 both ways
        int m = 0;
        while (m < 29 && size_t(DB[m + 1]) <= out) m++;
        t.ds = r.below(3) == 0 ? m : int(r.below(size_t(m) + 1));
        size_t room = out - size_t(DB[t.ds]);
        size_t mx = std::min<size_t>(room + 1, size_t(1) << DE[t.ds]);
        t.dx = int(r.below(3) ? r.below(mx) : mx - 1);
        out += size_t(LB[t.ls] + t.lx);
      }
      v.push_back(t);
    }
    if (far) {
      Tok t;
      size_t have = out;
      t.ls = int(r.below(29));
      t.lx = LE[t.ls] ? int(r.below(1u << LE[t.ls])) : 0;
      int m = 0;
      while (m < 29 && size_t(DB[m]) + (1u << DE[m]) - 1 <= have) m++;
      if (size_t(DB[m]) + (1u << DE[m]) - 1 > have) {
        t.ds = m;
        size_t lo = size_t(DB[m]) > have ? 0 : have + 1 - size_t(DB[m]);
        t.dx = int(r.below(2) ? lo : lo + r.below((1u << DE[m]) - lo));
        v.push_back(t);
      }
    }
  }
  void stored(bool fin, int mal) {
    size_t n = r.one_in(8) ? 0 : r.one_in(30) ? r.below(65536) : r.below(200);
    if (r.one_in(400)) n = 65535;
    w.bit(fin);
    w.bits(0, 2);
    w.align();
    w.bits(uint32_t(n), 16);
    uint32_t c = uint32_t(n) ^ 0xffff;
    if (mal == M_NLEN) c ^= 1u << r.below(16);
    w.bits(c, 16);
    for (size_t i = 0; i < n; i++) w.bits(uint32_t(r.below(256)), 8);
    out += n;
  }
  void put(const std::vector<Tok>& v, const Code& l, const Code& d) {
    auto sym = [&](const Code& c, int s) { w.code(c.c[size_t(s)], c.len[size_t(s)]); };
    for (const Tok& t : v) {
      if (t.lit >= 0) {
        sym(l, t.lit);
      } else {
        sym(l, 257 + t.ls);
        w.bits(uint32_t(t.lx), LE[t.ls]);
        sym(d, t.ds);
        w.bits(uint32_t(t.dx), DE[t.ds]);
      }
    }
  }
  int ntok() { return int(r.one_in(12) ? 0 : r.one_in(25) ? r.below(3000) : r.below(60)); }
  void fixed(bool fin, int mal) {
    std::vector<Tok> v;
    tokens(v, ntok(), mal == M_FAR);
    Code l, d;
    l.len.assign(288, 8);
    for (int i = 144; i < 256; i++) l.len[size_t(i)] = 9;
    for (int i = 256; i < 280; i++) l.len[size_t(i)] = 7;
    d.len.assign(32, 5);
    l.assign();
    d.assign();
    w.bit(fin);
    w.bits(1, 2);
    put(v, l, d);
    if (mal == M_LITRANGE) {
      size_t s = 286 + r.below(2);
      w.code(l.c[s], l.len[s]);
    }
    if (mal == M_DISTRANGE) {
      w.code(l.c[257], l.len[257]);
      size_t s = 30 + r.below(2);
      w.code(d.c[s], 5);
    }
    w.code(l.c[256], 7);
  }
  void dynamic(bool fin, int mal) {
    std::vector<Tok> v;
    tokens(v, ntok(), mal == M_FAR);
    std::vector<char> ul(286, 0), ud(30, 0);
    ul[256] = 1;
    bool anyd = false;
    for (const Tok& t : v) {
      if (t.lit >= 0) ul[size_t(t.lit)] = 1;
      else {
        ul[size_t(257 + t.ls)] = 1;
        ud[size_t(t.ds)] = 1;
        anyd = true;
      }
    }
    if (r.one_in(3))
      for (int i = int(r.below(40)); i > 0; i--) ul[r.below(286)] = 1;
    if (anyd && r.one_in(3))
      for (int i = int(r.below(8)); i > 0; i--) ud[r.below(30)] = 1;
    if (r.one_in(20)) std::fill(ul.begin(), ul.end(), 1);
    bool un = mal == M_UNASSIGNED;
    if (un) {   // a single one-bit distance code, and a match that uses the other
      if (!anyd) ud[r.below(30)] = 1, anyd = true;
      ul[257] = 1;
      int c = 0;
      for (char x : ud) c += x;
      if (c != 1) un = false;
    }
    Code l, d;
    random_code(r, l, ul, 15, false);
    if (un) {
      d.len.assign(30, 0);
      for (size_t i = 0; i < 30; i++) d.len[i] = ud[i];
      d.assign();
    } else {
      random_code(r, d, ud, 15, true);
    }
    size_t hl = 286, hd = 30;
    if (r.below(4)) {
      while (hl > 257 && l.len[hl - 1] == 0) hl--;
      while (hd > 1 && (d.len.size() < hd || d.len[hd - 1] == 0)) hd--;
    }
    d.len.resize(30, 0);
    std::vector<int> all(l.len.begin(), l.len.begin() + long(hl));
    all.insert(all.end(), d.len.begin(), d.len.begin() + long(hd));
    // run-length coding, runs may cross from one list into the other
    struct E { int s, x; };
    std::vector<E> e;
    bool lazy = r.one_in(4);
    for (size_t i = 0; i < all.size();) {
      size_t run = 1;
      while (i + run < all.size() && all[i + run] == all[i]) run++;
      if (lazy && r.below(2)) run = 1;
      if (all[i] == 0 && run >= 3) {
        size_t k = std::min<size_t>(run, 138);
        if (r.one_in(3)) k = 3 + r.below(k - 2);
        if (k <= 10 && (k < 11)) e.push_back({17, int(k - 3)});
        else e.push_back({18, int(k - 11)});
        i += k;
      } else if (i && all[i] == all[i - 1] && run >= 3) {
        size_t k = std::min<size_t>(run, 6);
        e.push_back({16, int(k - 3)});
        i += k;
      } else {
        e.push_back({all[i], 0});
        i++;
      }
    }
    if (mal == M_NOPREV) e.insert(e.begin(), E{16, int(r.below(4))});
    if (mal == M_RUNLONG) {
      // the last entries are replaced by a run that does not fit
      e.pop_back();
      static const int S[] = {16, 17, 18};
      int s = S[r.below(3)];
      size_t have = 0;
      for (E& x : e) have += x.s < 16 ? 1 : x.s == 18 ? size_t(x.x) + 11 : size_t(x.x) + 3;
      size_t left = all.size() - have;
      size_t mx = s == 16 ? 6 : s == 17 ? 10 : 138, mn = s == 18 ? 11 : 3;
      if (left + 1 > mx) s = 18, mx = 138, mn = 11;
      size_t k = std::max(mn, left + 1);
      if (k <= mx) {
        if (r.below(2)) k += r.below(mx - k + 1);
        e.push_back({s, int(k - mn)});
      }
    }
    std::vector<char> uc(19, 0);
    for (E& x : e) uc[size_t(x.s)] = 1;
    if (r.one_in(3)) uc[r.below(19)] = 1;
    Code c;
    random_code(r, c, uc, 7, false);
    static const int ORD[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
    size_t hc = 19;
    if (r.below(4))
      while (hc > 4 && c.len[size_t(ORD[hc - 1])] == 0) hc--;
    w.bit(fin);
    w.bits(2, 2);
    w.bits(uint32_t(hl - 257), 5);
    w.bits(uint32_t(hd - 1), 5);
    w.bits(uint32_t(hc - 4), 4);
    for (size_t i = 0; i < hc; i++) w.bits(uint32_t(c.len[size_t(ORD[i])]), 3);
    for (E& x : e) {
      w.code(c.c[size_t(x.s)], c.len[size_t(x.s)]);
      if (x.s >= 16) w.bits(uint32_t(x.x), x.s == 16 ? 2 : x.s == 17 ? 3 : 7);
    }
    put(v, l, d);
    if (un) {
      w.code(l.c[257], l.len[257]);
      w.bit(1);
    }
    w.code(l.c[256], l.len[256]);
  }
};

enum FaultKind { D_NONE, D_CUT, D_FLIP, D_SET, D_ZERO, D_DEL, D_INS, D_MULTI, D_TAIL, D_N };
static const char* const kDmg[] = {"none", "cut_short", "bit_flip", "byte_set", "zeroed_range",
                                   "bytes_lost", "bytes_inserted", "several", "bytes_appended"};
struct Case {
  std::string src;
  size_t cap = 0;
  int mal = 0, dmg = 0, capkind = 0;
  bool shipped = false;
};
static const char* const kCap[] = {"exact", "one_short", "short", "larger", "zero"};
static Case gen_case(uint64_t seed, uint64_t index) {
  Rng r(seed);
  Case c;
  size_t content = 0;
  size_t bn = sim_stored_size;
  if ((r.one_in(400) || index == 0) && bn) {
    c.shipped = true;
    c.src.assign(reinterpret_cast<const char*>(sim_stored_data), bn);
    RefInflate x;
    x.run(reinterpret_cast<const uint8_t*>(c.src.data()), c.src.size(), 16u << 20);
    content = x.out.size();
  } else if (r.one_in(12)) {   // not a stream at all
    size_t n = r.one_in(10) ? 0 : r.below(300);
    for (size_t i = 0; i < n; i++) c.src += char(r.below(256));
    if (n && r.below(2)) c.src[0] = char((uint8_t(c.src[0]) & ~7u) | (r.below(2) ? 4u : 5u));
    content = r.below(2000);
  } else {
    Gen g(r);
    int nb = 1 + int(r.below(r.below(3) ? 2 : 6));
    if (r.one_in(4)) c.mal = 1 + int(r.below(M_N - 1));
    for (int i = 0; i < nb; i++) {
      bool fin = i + 1 == nb;
      int mal = fin ? c.mal : 0;
      int t = int(r.below(5));
      if (mal == M_NLEN) t = 0;
      if (mal == M_LITRANGE || mal == M_DISTRANGE) t = 1;
      if (mal >= M_UNASSIGNED) t = 3;
      if (mal == M_FAR && t == 0) t = 2;
      if (mal == M_TYPE3) {
        g.w.bit(r.below(2));
        g.w.bits(3, 2);
        g.w.bits(uint32_t(r.next()), 20);
      } else if (t == 0) {
        g.stored(fin, mal);
      } else if (t == 1) {
        g.fixed(fin, mal);
      } else {
        g.dynamic(fin, mal);
      }
    }
    c.src = g.w.o;
    content = g.out;
  }
  if (index == 0) {
    c.cap = content;
    return c;
  }
  if (c.mal == 0 && r.below(2)) c.dmg = 1 + int(r.below(D_N - 1));
  auto& s = c.src;
  auto pos = [&]() -> size_t {
    if (s.empty()) return 0;
    return r.below(3) ? r.below(s.size()) : r.below(std::min<size_t>(s.size(), 40));
  };
  auto damage = [&](int k) {
    if (s.empty()) return;
    switch (k) {
      case D_CUT:
        s.resize(r.below(2) ? s.size() - 1 - r.below(std::min<size_t>(s.size(), 12)) : r.below(s.size()));
        break;
      case D_FLIP: {
        size_t p = pos();
        s[p] = char(uint8_t(s[p]) ^ 1u << r.below(8));
        break;
      }
      case D_SET: s[pos()] = char(r.below(256)); break;
      case D_ZERO: {
        size_t p = pos(), n = 1 + r.below(40);
        char v = r.below(3) ? 0 : char(0xff);
        for (size_t i = p; i < s.size() && i < p + n; i++) s[i] = v;
        break;
      }
      case D_DEL: s.erase(pos(), 1 + r.below(8)); break;
      case D_INS: s.insert(pos(), 1 + r.below(4), char(r.below(256))); break;
      case D_TAIL: s.append(1 + r.below(20), char(r.below(256))); break;
    }
  };
  if (c.dmg == D_MULTI)
    for (int i = 2 + int(r.below(6)); i > 0; i--) damage(1 + int(r.below(D_INS)));
  else
    damage(c.dmg);
  c.capkind = r.below(3) ? 0 : int(r.below(5));
  switch (c.capkind) {
    case 0: c.cap = content; break;
    case 1: c.cap = content ? content - 1 : 0; break;
    case 2: c.cap = r.below(content + 1); break;
    case 3: c.cap = content + 1 + r.below(500); break;
    default: c.cap = 0;
  }
  return c;
}

// ------------------------------------------------------------------- judging
struct Res {
  std::string cls, msg;
  bool nontriv = false;
  uint64_t hash = 0, key = 0;
  int why = 0;
};
static const char* const kWhy[] = {"well-formed", "cut short", "does not fit", "reserved block type",
                                   "stored length mismatch", "match before the start",
                                   "unassigned code", "out-of-range code",
                                   "code-length list too long", "repeat of no length"};
static Res run_case(const Case& c) {
  Res z;
  const uint8_t* s = reinterpret_cast<const uint8_t*>(c.src.data());
  RefInflate ref;
  RefInflate::Why why = ref.run(s, c.src.size(), c.cap);
  z.why = why;
  std::unique_ptr<uint8_t[]> src(new uint8_t[c.src.size()]);
  std::unique_ptr<uint8_t[]> dst(new uint8_t[c.cap]);
  memcpy(src.get(), s, c.src.size());
  memset(dst.get(), 0xA5, c.cap);
  size_t n = sim_inflate(src.get(), c.src.size(), dst.get(), c.cap);
  uint64_t h = mix64(mix64(n, c.cap), c.src.size() * 16 + why);
  for (unsigned char ch : c.src) h = mix64(h, ch);
  for (size_t i = 0; i < n && i < c.cap; i += 1 + i / 256) h = mix64(h, dst[i]);
  z.hash = h;
  z.key = mix64(uint64_t(why) * 64 + uint64_t(ref.types), uint64_t(c.dmg) * 4096 + uint64_t(c.mal) * 256 +
                uint64_t(c.capkind) * 16 + uint64_t(std::min(ref.blocks, 7)) * 2 + c.shipped);
  z.nontriv = ref.blocks > 1 || !ref.out.empty() || ref.types > 1;
  if (memcmp(src.get(), s, c.src.size())) {
    z.cls = "input";
    z.msg = "the decompressor changed its input";
  } else if (n > c.cap) {
    z.cls = "count";
    z.msg = fmt("reports %zu bytes with room for %zu", n, c.cap);
  } else if (why == RefInflate::OK) {
    bool ok = n == ref.out.size() && (n == 0 || !memcmp(dst.get(), ref.out.data(), n));
    if (!ok && !(n == 0 && (ref.dubious || ref.trailing))) {
      size_t i = 0;
      while (i < n && i < ref.out.size() && dst[i] == ref.out[i]) i++;
      z.cls = n == 0 ? "rejected" : "content";
      z.msg = fmt("well-formed stream of %zu bytes with %zu bytes of content: returns %zu, "
                  "differs from byte %zu", c.src.size(), ref.out.size(), n, i);
    }
  } else if (n != 0 && !ref.dubious) {
    z.cls = "accepted";
    z.msg = fmt("stream of %zu bytes (%s, capacity %zu) is accepted with %zu bytes", c.src.size(),
                kWhy[why], c.cap, n);
  }
  return z;
}

struct Sh {
  volatile int status;   // 0 running, 1 done
  char cls[32], msg[512];
  uint64_t hash, key;
  int why;
};
static Sh* sh;
static void quiet() {
  int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) dup2(fd, 2);
  rlimit c{0, 0};
  setrlimit(RLIMIT_CORE, &c);
}
// Cases decoded earlier in the same process, oldest first.
static std::vector<Case> before;
static Res run_forked(const Case& c) {
  sh->status = 0;
  pid_t p = fork();
  if (p == 0) {
    quiet();
    rlimit l{20, 20};
    setrlimit(RLIMIT_CPU, &l);
    for (const Case& b : before) {
      Res y = run_case(b);
      if (!y.cls.empty()) _exit(3);
    }
    Res z = run_case(c);
    snprintf(sh->cls, sizeof sh->cls, "%s", z.cls.c_str());
    snprintf(sh->msg, sizeof sh->msg, "%s", z.msg.c_str());
    sh->hash = z.hash;
    sh->why = z.why;
    sh->status = 1;
    _exit(0);
  }
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Res z;
  if (sh->status == 1) {
    z.cls = sh->cls;
    z.msg = sh->msg;
    z.hash = sh->hash;
    z.why = sh->why;
  } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) {
    z.cls = "hang";
    z.msg = "the decompressor does not terminate";
  } else {
    z.cls = "memory";
    z.msg = fmt("the decompressor left its input, output or workspace, or crashed (stream of %zu "
                "bytes, capacity %zu)", c.src.size(), c.cap);
  }
  return z;
}
static std::string hex(const std::string& s) {
  static const char* h = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    o += h[c >> 4];
    o += h[c & 15];
  }
  return o.empty() ? "-" : o;
}
static void minimise(Case& c, const std::string& cls) {
  double end = mono() + 30;
  int budget = 1500;
  auto still = [&](const Case& x) {
    if (budget-- <= 0 || mono() > end) return false;
    return run_forked(x).cls == cls;
  };
  bool any = true;
  for (int round = 0; round < 4 && any; round++) {
    any = false;
    for (size_t k = c.src.size(); k >= 1; k /= 2)
      for (size_t i = 0; i + k <= c.src.size();) {
        Case x = c;
        x.src.erase(i, k);
        if (still(x)) {
          c = x;
          any = true;
        } else {
          i += k;
        }
        if (budget <= 0 || mono() > end) return;
      }
    for (size_t i = 0; i < c.src.size(); i++) {
      if (!c.src[i]) continue;
      Case x = c;
      x.src[i] = 0;
      if (still(x)) {
        c = x;
        any = true;
      }
    }
    for (size_t k = c.cap; k >= 1; k /= 2) {
      Case x = c;
      x.cap -= k;
      if (k <= c.cap && still(x)) {
        c = x;
        any = true;
      }
    }
  }
}
static int memfd() { return int(syscall(SYS_memfd_create, "sim", 0)); }
static std::string read_all(int fd) {
  std::string s;
  lseek(fd, 0, SEEK_SET);
  char b[65536];
  ssize_t k;
  while ((k = read(fd, b, sizeof b)) > 0) s.append(b, size_t(k));
  return s;
}
static std::string to_text(const Case& c, const Res& z) {
  std::string t = "# replay file: streams decoded in this order in one process, exactly repeatable\n"
                  "property S08\nclass " + z.cls + "\nviolation " + z.msg + "\n";
  for (const Case& b : before) t += fmt("capacity %zu\nstream ", b.cap) + hex(b.src) + "\n";
  return t + fmt("capacity %zu\nstream ", c.cap) + hex(c.src) + "\n";
}
static int cmd_replay(const char* f) {
  FILE* in = fopen(f, "r");
  if (!in) return 2;
  std::string t;
  char b[65536];
  size_t k;
  while ((k = fread(b, 1, sizeof b, in)) > 0) t.append(b, k);
  fclose(in);
  Case c;
  std::string cls;
  auto val = [&](const std::string& key) {
    size_t i = t.find("\n" + key + " ");
    if (i == std::string::npos) return std::string();
    i += key.size() + 2;
    return t.substr(i, t.find('\n', i) - i);
  };
  cls = val("class");
  auto v = [](char x) { return x <= '9' ? x - '0' : x - 'a' + 10; };
  bool any = false;
  for (size_t i = 0; (i = t.find("\ncapacity ", i)) != std::string::npos; i++) {
    size_t j = t.find("\nstream ", i);
    if (j == std::string::npos) return 2;
    if (any) before.push_back(c);
    any = true;
    c = Case();
    c.cap = strtoull(t.c_str() + i + 10, nullptr, 10);
    std::string h = t.substr(j + 8, t.find('\n', j + 8) - j - 8);
    if (h != "-")
      for (size_t k2 = 0; k2 + 1 < h.size(); k2 += 2) c.src += char(v(h[k2]) << 4 | v(h[k2 + 1]));
  }
  if (!any) return 2;
  Res z = run_forked(c);
  printf("class %s (recorded %s)\n%s\n", z.cls.c_str(), cls.c_str(), z.msg.c_str());
  return z.cls.empty() ? 0 : z.cls == cls ? 1 : 2;
}
struct Stats {
  uint64_t runs, dmg[D_N], mal[M_N], cap[5], why[16], shipped, bytes;
  volatile uint64_t at;   // case being run, + 1
};

int main(int argc, char** argv) {
  auto arg = [&](const char* k, const char* d) -> const char* {
    for (int i = 1; i + 1 < argc; i++)
      if (!strcmp(argv[i], k)) return argv[i + 1];
    return d;
  };
  if (argc >= 2 && !strcmp(argv[1], "probe")) {   // is this function a decompressor at all?
    static const uint8_t stored[] = {1, 3, 0, 0xfc, 0xff, 'a', 'b', 'c'};
    uint8_t o[8] = {};
    return sim_inflate(stored, sizeof stored, o, sizeof o) == 3 && !memcmp(o, "abc", 3) ? 0 : 1;
  }
  sh = static_cast<Sh*>(mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (argc >= 3 && !strcmp(argv[1], "replay")) return cmd_replay(argv[2]);
  std::string mode = argc > 1 ? argv[1] : "check";
  uint64_t seed = strtoull(arg("--seed", "1"), nullptr, 10);
  uint64_t runs = strtoull(arg("--runs", "20000"), nullptr, 10);
  double cap = atof(arg("--cap", "600"));
  int workers = atoi(arg("--workers", "8"));
  std::string out = arg("--out", ""), rdir = arg("--replays", "/tmp");
  double t0 = mono();
  Stats* st = static_cast<Stats*>(mmap(nullptr, sizeof(Stats) * 64, PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  volatile uint64_t* best = static_cast<volatile uint64_t*>(
      mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  *best = ~0ull;
  auto lower = [&](uint64_t i) {
    for (;;) {
      uint64_t b = *best;
      if (b <= i || __sync_bool_compare_and_swap(best, b, i)) return;
    }
  };
  auto case_seed = [&](uint64_t i) { return mix64(mix64(seed, 8 * 1000003), i); };
  std::vector<int> fds;
  std::vector<pid_t> ps;
  for (int w = 0; w < workers; w++) {
    int fd = memfd();
    fds.push_back(fd);
    pid_t p = fork();
    if (p == 0) {
      quiet();
      Stats& x = st[w];
      for (uint64_t i = uint64_t(w); i < runs; i += uint64_t(workers)) {
        if (i > *best || mono() - t0 > cap) break;
        x.at = i + 1;
        alarm(30);
        Case c = gen_case(case_seed(i), i);
        Res z = run_case(c);
        x.runs++;
        x.dmg[c.dmg]++;
        x.mal[c.mal]++;
        x.cap[c.capkind]++;
        x.why[z.why]++;
        x.shipped += c.shipped;
        x.bytes += c.src.size();
        uint64_t rec[4] = {i, z.hash, z.key, z.nontriv};
        if (write(fd, rec, sizeof rec) != sizeof rec) _exit(2);
        if (!z.cls.empty()) {
          lower(i);
          break;
        }
      }
      x.at = 0;
      _exit(0);
    }
    ps.push_back(p);
  }
  for (int w = 0; w < workers; w++) {
    int s;
    waitpid(ps[size_t(w)], &s, 0);
    if (st[w].at) lower(st[w].at - 1);   // died in that case
  }
  // a worker that died leaves its later cases unexplored; earlier ones decide
  double t1 = mono();
  Stats tot{};
  std::vector<std::pair<uint64_t, uint64_t>> hs;
  std::unordered_set<uint64_t> keys, hashes, nontriv;
  for (int w = 0; w < workers; w++) {
    Stats& x = st[w];
    tot.runs += x.runs;
    tot.shipped += x.shipped;
    tot.bytes += x.bytes;
    for (int i = 0; i < D_N; i++) tot.dmg[i] += x.dmg[i];
    for (int i = 0; i < M_N; i++) tot.mal[i] += x.mal[i];
    for (int i = 0; i < 5; i++) tot.cap[i] += x.cap[i];
    for (int i = 0; i < 16; i++) tot.why[i] += x.why[i];
    std::string s = read_all(fds[size_t(w)]);
    for (size_t o = 0; o + 32 <= s.size(); o += 32) {
      uint64_t rec[4];
      memcpy(rec, &s[o], 32);
      if (rec[3]) nontriv.insert(rec[1]);
      hs.push_back({rec[0], rec[1]});
      hashes.insert(rec[1]);
      keys.insert(rec[2]);
    }
  }
  std::sort(hs.begin(), hs.end());
  uint64_t all = 0;
  for (auto& h : hs) all = mix64(all ^ h.first, h.second);
  if (mode == "hashes") {
    for (auto& h : hs) printf("%llu %016llx\n", (unsigned long long)h.first, (unsigned long long)h.second);
    return 0;
  }
  int rcode = 0;
  std::string vio = "null";
  if (*best != ~0ull) {
    uint64_t i = *best;
    Case c = gen_case(case_seed(i), i);
    Res a = run_forked(c), b = run_forked(c);
    // It may depend on the streams that process had decoded before.
    if (a.cls.empty() && b.cls.empty()) {
      for (uint64_t k = 1;; k *= 4) {
        before.clear();
        uint64_t w = uint64_t(workers), have = i / w, from = k > have ? i - have * w : i - k * w;
        for (uint64_t q = from; q < i; q += w) before.push_back(gen_case(case_seed(q), q));
        a = run_forked(c);
        if (!a.cls.empty() || k >= have) break;
      }
      b = run_forked(c);
      for (size_t q = before.size(); q-- > 0 && !a.cls.empty() && before.size() < 2000;) {
        std::vector<Case> full = before;
        before.erase(before.begin() + long(q));
        if (run_forked(c).cls != a.cls) before = full;
      }
    }
    if (a.cls.empty() || a.cls != b.cls) {
      fprintf(stderr, "case %llu is not repeatable (%s/%s)\n", (unsigned long long)i, a.cls.c_str(), b.cls.c_str());
      return 2;
    }
    size_t before = c.src.size();
    minimise(c, a.cls);
    Res d = run_forked(c);
    std::string path = rdir + fmt("/S08-%llu-%llu.replay", (unsigned long long)seed, (unsigned long long)i);
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return 2;
    std::string t = to_text(c, d);
    fwrite(t.data(), 1, t.size(), f);
    fclose(f);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 1);
      execl("/proc/self/exe", "inflate_sim", "replay", path.c_str(), nullptr);
      _exit(2);
    }
    int s;
    waitpid(p, &s, 0);
    if (!WIFEXITED(s) || WEXITSTATUS(s) != 1) {
      fprintf(stderr, "replay in a fresh process does not reproduce\n");
      return 2;
    }
    printf("violation in case %llu (seed %llu): %s: %s\nminimised: stream %zu -> %zu bytes\n",
           (unsigned long long)i, (unsigned long long)seed, d.cls.c_str(), d.msg.c_str(), before, c.src.size());
    printf("VIOLATION property=S08 replay=%s\n", path.c_str());
    vio = fmt("{\"run\": %llu, \"class\": \"%s\", \"replay\": \"%s\", \"message\": \"%s\"}",
              (unsigned long long)i, d.cls.c_str(), path.c_str(), d.msg.c_str());
    rcode = 1;
  }
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    if (!f) return 2;
    fprintf(f, "{\"runs\": %llu, \"wall_search_s\": %.3f, \"wall_setup_s\": 0, \"distinct_nontrivial\": %zu, "
               "\"distinct_situations\": %zu, \"shipped_stream\": %llu, \"stream_bytes\": %llu, "
               "\"history_hash\": \"%016llx\"",
            (unsigned long long)tot.runs, t1 - t0, nontriv.size(), keys.size(),
            (unsigned long long)tot.shipped, (unsigned long long)tot.bytes, (unsigned long long)all);
    auto dump = [&](const char* n, const char* const* k, const uint64_t* v, int m) {
      fprintf(f, ", \"%s\": {", n);
      for (int i = 0; i < m; i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", k[i], (unsigned long long)v[i]);
      fprintf(f, "}");
    };
    dump("damage", kDmg, tot.dmg, D_N);
    dump("malformed", kMal, tot.mal, M_N);
    dump("capacity", kCap, tot.cap, 5);
    dump("model_outcome", kWhy, tot.why, 10);
    fprintf(f, ", \"samples\": [");
    for (uint64_t i = 1; i < 4; i++) {
      Case c = gen_case(case_seed(i), i);
      if (c.src.size() > 300) c.src.resize(300);
      fprintf(f, "%s\"malformed=%s damage=%s capacity=%zu stream=%s\"", i > 1 ? ", " : "", kMal[c.mal],
              kDmg[c.dmg], c.cap, hex(c.src).c_str());
    }
    fprintf(f, "], \"violation\": %s}\n", vio.c_str());
    fclose(f);
  }
  fprintf(stderr, "S08: %llu cases, %zu distinct histories, %.1f s\n", (unsigned long long)tot.runs,
          hashes.size(), t1 - t0);
  return rcode;
}
