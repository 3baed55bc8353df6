#include "ops.h"

#include <unordered_map>

#include <stdio.h>

static const char* const kNames[] = {
    "to_ascii", "to_ascii_str", "to_unicode", "to_unicode_str", "forbidden",
    "ascii_map", "map", "map_str", "is_already_nfc", "normalize",
    "punycode_to_utf32", "verify_punycode", "utf32_to_punycode",
    "is_label_valid", "valid_name_code_point", "utf8_to_utf32",
    "utf32_to_utf8", "utf8_length_from_utf32", "utf32_length_from_utf8"};
static const char* const kEv[] = {"EV_STARTUP", "EV_TEARDOWN", "EV_THREAD_EXIT",
                                  "EV_RELEASE", "EV_MEMORY_BACK"};
const char* kind_name(int k) {
  if (k < K_API_COUNT) return kNames[k];
  return k >= 32 && k < 37 ? kEv[k - 32] : "?";
}
int kind_by_name(const std::string& s) {
  for (int i = 0; i < K_API_COUNT; i++)
    if (s == kNames[i]) return i;
  for (int i = 0; i < 5; i++)
    if (s == kEv[i]) return 32 + i;
  return -1;
}
std::string show(const std::string& b, size_t max) {
  std::string o = "\"";
  for (size_t i = 0; i < b.size() && i < max; i++) {
    unsigned char c = (unsigned char)b[i];
    if (c >= 32 && c < 127 && c != '"' && c != '\\') o += char(c);
    else {
      char t[8];
      snprintf(t, sizeof t, "\\x%02x", c);
      o += t;
    }
  }
  o += "\"";
  if (b.size() > max) o += "...(" + std::to_string(b.size()) + " bytes)";
  return o;
}

std::string u8(const std::u32string& s) {
  std::string o;
  for (char32_t c : s) {
    if (c < 0x80) o += char(c);
    else if (c < 0x800) {
      o += char(0xC0 | c >> 6);
      o += char(0x80 | (c & 63));
    } else if (c < 0x10000) {
      o += char(0xE0 | c >> 12);
      o += char(0x80 | (c >> 6 & 63));
      o += char(0x80 | (c & 63));
    } else {
      o += char(0xF0 | (c >> 18 & 7));
      o += char(0x80 | (c >> 12 & 63));
      o += char(0x80 | (c >> 6 & 63));
      o += char(0x80 | (c & 63));
    }
  }
  return o;
}
std::string u32b(const std::u32string& s) {
  return std::string(reinterpret_cast<const char*>(s.data()), s.size() * 4);
}
// RFC 3492 encoder, independent of the library.
std::string puny(const std::u32string& in) {
  std::string o;
  for (char32_t c : in)
    if (c < 128) o += char(c);
  size_t h = o.size(), b = h;
  if (b) o += '-';
  uint64_t n = 128, delta = 0, bias = 72;
  auto dig = [](uint64_t d) { return char(d < 26 ? 'a' + d : '0' + d - 26); };
  while (h < in.size()) {
    uint64_t m = ~0ull;
    for (char32_t c : in)
      if (c >= n && c < m) m = c;
    delta += (m - n) * (h + 1);
    n = m;
    for (char32_t c : in) {
      if (c < n) delta++;
      if (c == n) {
        uint64_t q = delta;
        for (uint64_t k = 36;; k += 36) {
          uint64_t t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias;
          if (q < t) break;
          o += dig(t + (q - t) % (36 - t));
          q = (q - t) / (36 - t);
        }
        o += dig(q);
        uint64_t d = h == b ? delta / 700 : delta / 2;
        d += d / (h + 1);
        uint64_t k = 0;
        while (d > 455) {
          d /= 35;
          k += 36;
        }
        bias = k + 36 * d / (d + 38);
        delta = 0;
        h++;
      }
    }
    delta++;
    n++;
  }
  return o;
}

struct Range {
  uint32_t lo, hi;
};
static const Range kScripts[] = {
    {0x61, 0x7A},     {0x61, 0x7A},     {0x30, 0x39},     {0xE0, 0xFF},
    {0xC0, 0xDE},     {0x100, 0x17F},   {0x180, 0x24F},   {0x370, 0x3FF},
    {0x400, 0x4FF},   {0x531, 0x58F},   {0x5D0, 0x5EA},   {0x620, 0x64A},
    {0x660, 0x669},   {0x6F0, 0x6F9},   {0x700, 0x74F},   {0x900, 0x97F},
    {0x980, 0x9FE},   {0xB80, 0xBFA},   {0xC00, 0xC7F},   {0xD00, 0xD7F},
    {0xE01, 0xE5B},   {0xF00, 0xFDA},   {0x10A0, 0x10FF}, {0x1100, 0x11FF},
    {0x13A0, 0x13FF}, {0x1820, 0x1878}, {0x1E00, 0x1EFF}, {0x1F00, 0x1FFF},
    {0x2070, 0x209C}, {0x2100, 0x218B}, {0x2460, 0x24FF}, {0x3041, 0x309F},
    {0x30A0, 0x30FF}, {0x3200, 0x33FF}, {0x4E00, 0x9FFF}, {0xA840, 0xA872},
    {0xAC00, 0xD7A3}, {0xF900, 0xFAD9}, {0xFB00, 0xFB4F}, {0xFB50, 0xFDFF},
    {0xFF01, 0xFFEF}, {0x10000, 0x100FA}, {0x10400, 0x1044F},
    {0x10A00, 0x10A58}, {0x11000, 0x1107F}, {0x1D15E, 0x1D1C0},
    {0x1D400, 0x1D7FF}, {0x1E900, 0x1E95F}, {0x1F100, 0x1F16A},
    {0x1F600, 0x1F64F}, {0x20000, 0x2A6DF}, {0x2F800, 0x2FA1D}};
static const Range kMarks[] = {{0x300, 0x36F},   {0x300, 0x345},
                               {0x64B, 0x65F},   {0x591, 0x5C7},
                               {0x3099, 0x309A}, {0x93C, 0x94D},
                               {0x20D0, 0x20F0}, {0x1D165, 0x1D169},
                               {0xE48, 0xE4B},   {0x1DC0, 0x1DFF}};
static const uint32_t kOdd[] = {
    0xAD,   0x200B, 0x200C, 0x200D, 0x2060, 0xFE0F, 0xFEFF,  0x3002, 0xFF0E,
    0xFF61, 0xDF,   0x3C2,  0x130,  0x131,  0x149,  0x1E9E,  0x2126, 0x212A,
    0x212B, 0x37E,  0x387,  0x340,  0x341,  0x343,  0x344,   0x345,  0x958,
    0x2028, 0x378,  0xE000, 0xFFFD, 0xFFFE, 0xFDD0, 0x1FFFF, 0xE0100, 0xE01EF,
    0xE01F0, 0x10FFFF, 0x80, 0x85,  0xA0,   0xA8,   0xB7,    0x640,  0x6DD,
    0x70F,  0x180E, 0x202A, 0x202E, 0x2044, 0x2215, 0x2260,  0x2F868, 0x323AF,
    0x323B0, 0x20,  0x25,   0x2F,   0x3A,   0x40,   0x5F,    0x24,   0x2D,
    0x7F,   0x0,    0x1,    0x60,   0x5B,   0x110000, 0xD800, 0xDFFF};
static const uint32_t kVirama[] = {0x94D, 0x9CD, 0xBCD, 0xD4D, 0xE3A, 0x1039,
                                   0x17D2, 0x11046};

static uint32_t cp_in(Rng& r, const Range& x) {
  return x.lo + uint32_t(r.below(x.hi - x.lo + 1));
}
static uint32_t any_cp(Rng& r) {
  uint32_t c = uint32_t(r.below(5)) ? uint32_t(r.below(0x3000))
                                    : uint32_t(r.below(0x32000));
  if (r.below(40) == 0) c = 0xE0000 + uint32_t(r.below(0x1000));
  if (c >= 0xD800 && c < 0xE000) c = 0x4E00 + c % 0x5000;
  return c;
}
static std::u32string gen_label(Rng& r, int maxlen, bool utf32_only) {
  std::u32string s;
  int n = 1 + int(r.below(r.below(3) ? 6 : size_t(maxlen)));
  Range a = kScripts[r.below(sizeof kScripts / sizeof *kScripts)];
  Range b = r.below(3) ? a : kScripts[r.below(sizeof kScripts / sizeof *kScripts)];
  int style = int(r.below(12));
  double pm = style == 0 ? 0.5 : style < 4 ? 0.15 : 0.0;
  double po = style == 5 ? 0.2 : style == 6 ? 0.05 : 0.0;
  for (int i = 0; i < n; i++) {
    uint32_t c = r.below(4) ? cp_in(r, a) : cp_in(r, b);
    if (style == 7) c = any_cp(r);
    if (i && r.chance(pm))
      c = cp_in(r, kMarks[r.below(sizeof kMarks / sizeof *kMarks)]);
    else if (r.chance(po))
      c = kOdd[r.below(sizeof kOdd / sizeof *kOdd)];
    if (!utf32_only && (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000))) c = 'q';
    s += char32_t(c);
  }
  if (style == 8 && s.size() > 1) {   // joiner after a virama or between Arabic
    size_t k = 1 + r.below(s.size() - 1);
    if (r.below(2)) s.insert(k++, 1, char32_t(kVirama[r.below(8)]));
    s.insert(k, 1, r.below(2) ? U'\x200c' : U'\x200d');
  }
  if (style == 9) {                   // Hangul jamo sequences
    s.clear();
    for (int i = 0; i < n; i++) {
      s += char32_t(0x1100 + r.below(20));
      if (r.below(4)) s += char32_t(0x1161 + r.below(22));
      if (r.below(2)) s += char32_t(0x11A7 + r.below(29));
    }
  }
  if (style == 10) {                  // bidi mixtures
    s.clear();
    static const Range bd[] = {{0x5D0, 0x5EA}, {0x627, 0x64A}, {0x660, 0x669},
                               {0x30, 0x39},   {0x61, 0x7A},   {0x6F0, 0x6F9},
                               {0x300, 0x310}, {0x2B, 0x2D}};
    for (int i = 0; i < n; i++) s += char32_t(cp_in(r, bd[r.below(8)]));
  }
  return s;
}
static std::string ascii_label(Rng& r, int maxlen) {
  static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_~!";
  std::string s;
  size_t n = r.below(size_t(maxlen)) + (r.below(6) ? 1 : 0);
  for (size_t i = 0; i < n; i++)
    s += r.below(40) == 0 ? char(r.below(2) ? r.below(128) : "@[`{Zz/:9"[r.below(9)])
                          : cs[r.below(r.below(8) ? 62 : sizeof cs - 1)];
  if (r.below(25) == 0) s = "xn--";
  if (r.below(20) == 0) s.insert(r.below(3) ? 1 % (s.size() + 1) : r.below(s.size() + 1), "xn--");
  return s;
}
static std::string ace_label(Rng& r, int maxlen) {
  std::u32string l = gen_label(r, maxlen, false);
  for (auto& c : l)
    if (c >= 'A' && c <= 'Z') c += 32;
  std::string p = "xn--" + puny(l);
  switch (r.below(14)) {
    case 0: {
      if (p.size() > 4) p[4 + r.below(p.size() - 4)] = "abz059-A~"[r.below(9)];
      break;
    }
    case 1: p.resize(4 + r.below(p.size() - 3)); break;
    case 2: p += "9999999"; break;
    case 3: p = "XN--" + p.substr(4); break;
    case 4: p += char('a' + r.below(26)); break;
    case 5: p = "xn--" + puny(U"xn--" + l); break;
    case 6: if (r.below(2)) p = r.below(2) ? "xn--" + u8(l) : "a" + p; break;
    default: break;
  }
  return p;
}
static bool is_ace(const std::string& l);
static std::string gen_domain8(Rng& r, int maxl, int mode) {
  // mode 0 mixture, 1 ASCII only without ACE, 2 with ACE labels, 3 non-ASCII
  std::string s;
  int n = 1 + int(r.below(r.below(3) ? 3 : r.below(3) ? 7 : 14));
  std::vector<std::pair<size_t, size_t>> done;
  for (int i = 0; i < n; i++) {
    size_t at = s.size();
    if (i && r.below(4) == 0) {                          // an earlier label again
      auto& d = done[r.below(done.size())];
      std::string l = s.substr(d.first, d.second);
      if (r.below(4) == 0 && !l.empty() && uint8_t(l.back()) < 0x80) l.back() ^= 1;
      if (r.below(6) == 0)
        for (char& c : l) if (c >= 'a' && c <= 'z' && r.below(2)) c -= 32;
      s += l;
      done.push_back({at, s.size() - at});
      if (i + 1 < n) s += '.';
      continue;
    }
    int k = mode == 1 ? 0 : mode == 2 ? (r.below(3) ? 2 : int(r.below(2)))
                          : mode == 3 ? 1 : int(r.below(3));
    if (i == 0 && mode == 3) k = 1;
    if (i == 0 && mode == 2) k = 2;
    if (k == 0) s += ascii_label(r, 12);
    else if (k == 1) s += u8(gen_label(r, maxl, false));
    else s += ace_label(r, maxl);
    done.push_back({at, s.size() - at});
    if (i + 1 < n || r.below(12) == 0)
      s += r.below(20) ? "." : mode == 1 ? "." : u8(U"\x3002");
  }
  if (mode == 0 && r.below(12) == 0 && !s.empty()) {   // ill-formed UTF-8
    size_t k = r.below(s.size());
    static const char bad[] = {'\x80', '\xC0', '\xE0', '\xF8', '\xFF', '\xED',
                               '\xF4'};
    s.insert(k, 1, bad[r.below(7)]);
  }
  return s;
}

// A domain of labels that are all acceptable, drawn from a small repertoire so
// that equal and similar labels recur, in their U-form, A-form or as ASCII.
static std::string valid_domain(Rng& r, bool ace_first) {
  static const Range ok[] = {{'a', 'z'}, {'a', 'z'}, {0xE0, 0xF6}, {0x3B1, 0x3C1}, {0x430, 0x44F},
                             {0x4E00, 0x4FFF}, {0x3042, 0x3080}, {0xAC00, 0xD7A3}, {0x915, 0x928},
                             {0x101, 0x101}, {0x1F600, 0x1F640}};
  std::vector<std::string> rep;
  int m = 1 + int(r.below(4));
  bool rtl = r.below(8) == 0;
  for (int i = 0; i < m; i++) {
    std::u32string l;
    size_t n = 1 + r.below(r.below(4) ? 5 : 30);
    const Range& a = ok[r.below(11)];
    for (size_t j = 0; j < n; j++)
      l += char32_t(rtl ? 0x5D0 + r.below(27) : cp_in(r, r.below(3) ? a : ok[r.below(11)]));
    bool na = false;
    for (char32_t c : l) na |= c >= 128;
    switch (na ? 1 + r.below(4) : 0) {
      case 0: rep.push_back(u8(l)); break;
      case 1: rep.push_back(u8(l)); break;
      case 2: rep.push_back("xn--" + puny(l)); break;
      default: rep.push_back(u8(l)); rep.push_back("xn--" + puny(l));
    }
  }
  if (rtl && r.below(2)) rep.push_back(ascii_label(r, 5));
  std::string s;
  int n = 1 + int(r.below(r.below(2) ? 6 : 16));
  for (int i = 0; i < n; i++) {
    std::string l = rep[r.below(rep.size())];
    if (i == 0 && ace_first)
      for (auto& x : rep) if (is_ace(x)) l = x;
    s += l;
    if (i + 1 < n || r.below(10) == 0) s += r.below(30) ? "." : u8(U"\x3002");
  }
  if (r.below(8) == 0) s += std::string(".") + ace_label(r, 8);
  return s;
}

static std::string long_text(Rng& r, size_t bytes, int mode) {
  // mode 0 ASCII, 1 non-ASCII valid, 2 ACE heavy, 3 expanding when mapped
  std::string s;
  while (s.size() < bytes) {
    std::string p;
    if (mode == 0) p = ascii_label(r, 60) + ".";
    else if (mode == 1) p = u8(gen_label(r, 40, false)) + (r.below(3) ? "." : "");
    else if (mode == 2) p = ace_label(r, 20) + ".";
    else p = u8(std::u32string(1 + r.below(8), char32_t(r.below(2) ? 0xFDFA : 0x1D400 + r.below(50))));
    if (s.size() + p.size() > bytes) break;
    s += p;
  }
  while (s.size() < bytes) s += 'a';
  return s;
}

// One ACE label that decodes to as many expanding code points as fit.
static std::string ace_bomb(Rng& r, size_t bytes, bool ascii) {
  std::string pre = ascii ? "" : u8(U"\xe9.");
  static const char32_t wide[] = {0xFDFA, 0xFDFB, 0x3300, 0x1F8B, 0x344, 0x390};
  char32_t c = wide[r.below(2) ? 0 : r.below(6)];
  size_t one = puny(std::u32string(1, c)).size();
  if (bytes < pre.size() + 4 + one) return pre;
  size_t k = bytes - pre.size() - 4 - one + 1;
  return pre + "xn--" + puny(std::u32string(k, c));
}
static bool ascii8(const std::string& s) {
  for (char c : s)
    if (uint8_t(c) >= 0x80) return false;
  return true;
}
static std::vector<std::string> split(const std::string& s) {
  std::vector<std::string> v;
  size_t i = 0;
  for (;;) {
    size_t d = s.find('.', i);
    v.push_back(s.substr(i, d == std::string::npos ? d : d - i));
    if (d == std::string::npos) break;
    i = d + 1;
  }
  return v;
}
static bool is_ace(const std::string& l) {
  return l.compare(0, 4, "xn--") == 0 && ascii8(l);
}
void classify(PoolOp& p) {
  const Op& o = p.op;
  switch (o.kind) {
    case K_TO_ASCII_B:
    case K_TO_ASCII_S: {
      p.overlimit = o.in.size() > kLimit;
      p.big = o.in.size() > 2000;
      if (p.overlimit) {
        p.tablefree = p.has_expect = true;
        p.expect.rc = o.kind == K_TO_ASCII_B ? 0 : 1;
      } else if (ascii8(o.in)) {
        p.tablefree = p.has_expect = true;
        p.expect.rc = 1;
        for (char c : o.in)
          p.expect.out += c >= 'A' && c <= 'Z' ? char(c + 32) : c;
      }
      for (auto& l : split(o.in)) p.ace += l.compare(0, 4, "xn--") == 0;
      break;
    }
    case K_TO_UNI_B:
    case K_TO_UNI_S: {
      p.overlimit = o.in.size() > kLimit;
      p.big = o.in.size() > 2000;
      for (auto& l : split(o.in)) p.ace += is_ace(l);
      if (p.overlimit) {
        p.tablefree = p.has_expect = true;
        p.expect.rc = o.kind == K_TO_UNI_B ? 0 : 1;
        if (o.kind == K_TO_UNI_S) p.expect.out = o.in;
      } else if (!p.ace) {
        p.tablefree = p.has_expect = true;
        p.expect.rc = 1;
        p.expect.out = o.in;
      }
      break;
    }
    case K_NAME_CP: {
      p.tablefree = true;
      for (size_t i = 0; i + 8 <= o.in.size(); i += 8) {
        uint32_t c, f;
        memcpy(&c, &o.in[i], 4);
        memcpy(&f, &o.in[i + 4], 4);
        bool let = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '$';
        bool fast = f ? let || c == '_' : let || (c >= '0' && c <= '9');
        if (!fast) p.tablefree = false;
      }
      if (p.tablefree) {
        p.has_expect = true;
        p.expect.rc = 1;
        p.expect.out = std::string(o.in.size() / 8, '\1');
      }
      break;
    }
    case K_FORBIDDEN:
    case K_ASCII_MAP:
    case K_PUNY_DEC:
    case K_PUNY_VERIFY:
    case K_PUNY_ENC:
    case K_U8TO32:
    case K_U32TO8:
    case K_LEN8:
    case K_LEN32:
      p.tablefree = true;
      p.big = o.in.size() > 4000;
      break;
    default:
      p.big = o.in.size() > 4000;
      break;
  }
  if (o.kind == K_ASCII_MAP) {
    p.has_expect = true;
    p.expect.rc = 1;
    for (char c : o.in)
      p.expect.out += c >= 'A' && c <= 'Z' ? char(c + 32) : c;
    // bytes >= 0x80 are outside the documented domain of ascii_map
    if (!ascii8(o.in)) p.has_expect = false;
  }
}
bool is_closed(const Op& op, const Ref& ref, const OpRes& res) {
  switch (op.kind) {
    case K_TO_ASCII_B:
    case K_MAP_B:
      return res.rc == 0 && res.out.empty();
    case K_TO_ASCII_S:
    case K_MAP_S:
      return res.rc == 1 && res.out.empty();
    case K_IS_NFC:
    case K_LABEL_VALID:
      return res.rc == 0;
    case K_NORMALIZE:
      return res.rc == 0 && res.out == op.in;
    case K_NAME_CP: {
      if (res.out.size() != op.in.size() / 8 || ref.out.size() != res.out.size())
        return false;
      for (size_t i = 0; i < res.out.size(); i++) {
        if (res.out[i] == ref.out[i]) continue;
        if (res.out[i] != 0) return false;
        uint32_t c, f;
        memcpy(&c, &op.in[8 * i], 4);
        memcpy(&f, &op.in[8 * i + 4], 4);
        bool let = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '$';
        if (f ? let || c == '_' : let || (c >= '0' && c <= '9')) return false;
      }
      return true;
    }
    case K_TO_UNI_B:
    case K_TO_UNI_S: {
      if (res.rc != 1) return false;
      auto a = split(op.in), b = split(ref.out), c = split(res.out);
      if (a.size() != b.size() || a.size() != c.size()) return false;
      for (size_t i = 0; i < a.size(); i++)
        if (c[i] != a[i] && c[i] != b[i]) return false;
      return true;
    }
    default:
      return false;
  }
}
void classify_after_ref(PoolOp& p) {
  OpRes r;
  r.rc = p.ref.rc;
  r.out = p.ref.out;
  if (p.tablefree) {
    p.needs = false;
    return;
  }
  switch (p.op.kind) {
    case K_NAME_CP:
      p.needs = p.ref.out.find('\1') != std::string::npos;
      // letters answer without tables: require a table-only positive
      p.needs = false;
      for (size_t i = 0; i < p.ref.out.size(); i++) {
        uint32_t c;
        memcpy(&c, &p.op.in[8 * i], 4);
        if (p.ref.out[i] && c >= 0x80) p.needs = true;
      }
      break;
    case K_TO_UNI_B:
    case K_TO_UNI_S:
      p.needs = p.ref.out != p.op.in;
      break;
    case K_NORMALIZE:
      p.needs = p.ref.rc == 1;
      break;
    case K_IS_NFC:
    case K_LABEL_VALID:
      p.needs = p.ref.rc == 1 && !p.op.in.empty();
      break;
    default:
      p.needs = !is_closed(p.op, p.ref, r);
  }
}
Verdict judge(const PoolOp& p, const OpRes& r) {
  if (r.rc == RC_BAD_ALLOC) return V_BADALLOC;
  if (r.rc == RC_OTHER_EXC) return V_OTHEREXC;
  if (p.has_expect && (r.rc != p.expect.rc || r.out != p.expect.out))
    return V_WRONG;
  if (r.rc == p.ref.rc && r.out == p.ref.out) return V_RIGHT;
  if (!p.tablefree && is_closed(p.op, p.ref, r)) return V_CLOSED;
  return V_WRONG;
}

static PoolOp mk(int kind, std::string in) {
  PoolOp p;
  p.op.kind = kind;
  p.op.in = std::move(in);
  return p;
}
static std::u32string gen_text32(Rng& r, int maxl, bool wild) {
  std::u32string s = gen_label(r, maxl, wild);
  int n = int(r.below(3));
  for (int i = 0; i < n; i++) {
    if (r.below(3) == 0) s += U'.';
    s += gen_label(r, maxl, wild);
  }
  return s;
}
static PoolOp gen_one(Rng& r) {
  static const int w[K_API_COUNT] = {14, 4, 12, 4, 2, 2, 9, 3, 7, 9,
                                     5,  3, 5, 9, 6, 2, 2, 1, 1};
  int tot = 0;
  for (int x : w) tot += x;
  int k = 0;
  int64_t v = int64_t(r.below(size_t(tot)));
  while ((v -= w[k]) >= 0) k++;
  int maxl = r.below(6) ? 12 : 60;
  switch (k) {
    case K_TO_ASCII_B:
    case K_TO_ASCII_S: {
      if (r.below(3) == 0) return mk(k, valid_domain(r, r.below(3) == 0));
      static const int m[] = {0, 1, 2, 3, 3, 3, 2, 0};
      std::string s = gen_domain8(r, maxl, m[r.below(8)]);
      if (r.below(4) == 0 && s.compare(0, 4, "xn--") == 0) s += u8(U".\xe9");
      return mk(k, s);
    }
    case K_TO_UNI_B:
    case K_TO_UNI_S: {
      if (r.below(3) == 0) return mk(k, valid_domain(r, r.below(3)));
      static const int m[] = {2, 2, 2, 0, 1, 3, 2, 2};
      return mk(k, gen_domain8(r, maxl, m[r.below(8)]));
    }
    case K_FORBIDDEN: return mk(k, gen_domain8(r, 8, int(r.below(2))));
    case K_ASCII_MAP: return mk(k, ascii_label(r, 40) + ascii_label(r, 9));
    case K_PUNY_DEC:
    case K_PUNY_VERIFY: {
      std::string s = ace_label(r, maxl);
      return mk(k, r.below(12) ? s.substr(s.size() < 4 ? 0 : 4) : s);
    }
    case K_NAME_CP: {
      std::u32string s;
      size_t n = 1 + r.below(24);
      int st = int(r.below(3));
      for (size_t i = 0; i < n; i++) {
        if (st == 0) {
          bool first = r.below(2);
          s += char32_t("abzAZ$ghij"[r.below(10)]);
          if (!first && r.below(2)) s.back() = char32_t('0' + r.below(10));
          if (first && r.below(5) == 0) s.back() = U'_';
          s += first ? U'\1' : U'\0';
        } else {
          s += r.below(6) ? gen_label(r, 3, true)[0]
                          : char32_t(kOdd[r.below(sizeof kOdd / sizeof *kOdd)]);
          s += char32_t(r.below(2));
        }
      }
      return mk(k, u32b(s));
    }
    case K_U8TO32:
    case K_LEN32: return mk(k, gen_domain8(r, maxl, 0));
    case K_MAP_B:
    case K_MAP_S: return mk(k, u32b(gen_text32(r, maxl, true)));
    case K_LABEL_VALID:
    case K_PUNY_ENC: return mk(k, u32b(gen_label(r, maxl, r.below(5) == 0)));
    case K_IS_NFC:
    case K_NORMALIZE: {
      std::u32string s = gen_text32(r, maxl, true);
      if (r.below(2)) {   // make it likely to change under normalisation
        static const Range dec[] = {{0x1E00, 0x1EFF}, {0x1F00, 0x1FFE},
                                    {0x2F800, 0x2FA1D}, {0x344, 0x344},
                                    {0x212A, 0x212B}, {0xF900, 0xFA6D}};
        size_t n = 1 + r.below(4);
        for (size_t i = 0; i < n; i++)
          s.insert(r.below(s.size() + 1), 1, char32_t(cp_in(r, dec[r.below(6)])));
        static const char32_t bs[] = U"aeioucnuAEO";
        s += bs[r.below(11)];
        s += char32_t(cp_in(r, kMarks[0]));
        if (r.below(2)) s += char32_t(cp_in(r, kMarks[0]));
      }
      return mk(k, u32b(s));
    }
    default: return mk(k, u32b(gen_text32(r, maxl, true)));
  }
}
static Op mutate(Rng& r, const Op& o) {
  // same kind, usually the same length: confusable with the original
  Op p = o;
  size_t unit = 1;
  switch (o.kind) {
    case K_MAP_B: case K_MAP_S: case K_IS_NFC: case K_NORMALIZE:
    case K_PUNY_ENC: case K_LABEL_VALID: case K_U32TO8: case K_LEN8:
      unit = 4;
      break;
    case K_NAME_CP: unit = 8; break;
  }
  size_t n = p.in.size() / unit;
  if (!n) return p;
  size_t k = r.below(n);
  switch (r.below(6)) {
    case 0:
      if (n > 1) {
        p.in.erase(k * unit, unit);
        break;
      }
      [[fallthrough]];
    case 1: {   // swap two units
      size_t j = r.below(n);
      for (size_t i = 0; i < unit; i++)
        std::swap(p.in[k * unit + i], p.in[j * unit + i]);
      break;
    }
    case 2:
      if (unit == 4) {
        uint32_t c = any_cp(r);
        memcpy(&p.in[k * 4], &c, 4);
        break;
      }
      [[fallthrough]];
    default: {
      uint8_t& b = reinterpret_cast<uint8_t&>(p.in[k * unit]);
      if (unit == 1 && b >= 0x80) {
        // stay well-formed: change the low bits of a continuation byte
        if ((b & 0xC0) == 0x80) b = uint8_t(0x80 | ((b + 1 + r.below(5)) & 63));
      } else if (unit == 1 && b != '.') {
        b = uint8_t("abcxyz019"[r.below(9)]);
      } else if (unit >= 4) {
        b = uint8_t(b + 1 + r.below(3));
      }
    }
  }
  return p;
}
// The same length, one code point in the middle replaced by one that tends to
// change the verdict.
static bool flip_inside(Rng& r, Op& p) {
  bool wide = false;
  switch (p.kind) {
    case K_MAP_B: case K_MAP_S: case K_IS_NFC: case K_NORMALIZE:
    case K_PUNY_ENC: case K_LABEL_VALID: case K_U32TO8: case K_LEN8:
      wide = true;
      break;
    case K_NAME_CP: case K_ASCII_MAP: return false;
  }
  if (wide) {
    size_t n = p.in.size() / 4;
    if (n < 3) return false;
    static const uint32_t fl[] = {0x200D, 0x200C, 0x5D0, 0x660, 0x301, 0x41, 0xFFFD,
                                  0xD800, 0x110000, 0xAD, 0xE9, 0x62, 0x1100, 0x20};
    uint32_t c = fl[r.below(14)];
    memcpy(&p.in[(1 + r.below(n - 2)) * 4], &c, 4);
    return true;
  }
  std::vector<size_t> at;
  for (size_t i = 1; i + 1 < p.in.size(); i++)
    if (uint8_t(p.in[i]) < 0x80 || uint8_t(p.in[i]) >= 0xC0) at.push_back(i);
  if (at.empty()) return false;
  size_t i = at[r.below(at.size())];
  uint8_t b = uint8_t(p.in[i]);
  size_t len = b < 0x80 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4;
  if (i + len >= p.in.size()) return false;
  static const char* const by[4][4] = {{"z", "A", "-", "0"},
                                       {"\xcc\x81", "\xd7\x90", "\xc2\xad", "\xd9\xa0"},
                                       {"\xe2\x80\x8d", "\xef\xbf\xbd", "\xe1\x84\x80", "\xe2\x80\x8c"},
                                       {"\xf0\x9f\x92\xa9", "\xf0\x90\xa4\x80", "\xf3\xa0\x84\x80", "\xf0\x9d\x94\xb8"}};
  memcpy(&p.in[i], by[len - 1][r.below(4)], len);
  return true;
}
// A text most operations have a right answer for.
static std::string plain_text(Rng& r, int k) {
  static const char32_t ok[] = U"abcdexyz0189\xe9\xfc\xf1\x3b1\x3b2\x3c9\x430\x44f"
                               U"\x4e00\x65e5\x3042\x1f600\x645\x633";
  static const size_t nok = sizeof ok / sizeof *ok - 1;
  std::u32string l;
  size_t lim = r.below(3) == 0 ? 12 : nok - 2 - r.below(8);
  for (size_t i = 3 + r.below(r.below(4) ? 4 : 14); i > 0; i--) l += ok[r.below(lim)];
  switch (k) {
    case K_TO_UNI_B: case K_TO_UNI_S: case K_FORBIDDEN:
      if (r.below(4)) return "xn--" + puny(l) + (r.below(3) ? "" : ".com");
      return u8(l);
    case K_PUNY_DEC: case K_PUNY_VERIFY: return puny(l);
    case K_TO_ASCII_B: case K_TO_ASCII_S:
      if (r.below(3) == 0) return "xn--" + puny(l) + (r.below(3) ? "" : ".com");
      [[fallthrough]];
    case K_U8TO32: case K_LEN32: case K_ASCII_MAP:
      if (k == K_ASCII_MAP || r.below(4) == 0)
        for (char32_t& c : l) if (c >= 128) c = U"abcdXYZ"[c % 7];
      return u8(l) + (r.below(3) ? "" : u8(U".ex\xe4mple"));
    case K_NAME_CP: {
      std::u32string o;
      for (char32_t c : l) {
        o += c;
        o += char32_t(r.below(2));
      }
      return u32b(o);
    }
    default: return u32b(l);
  }
}
static void add_lookalikes(Rng& r, std::vector<PoolOp>& v, int& grp) {
  for (int k = 0; k < K_API_COUNT; k++)
    for (int b = 0; b < 5; b++) {
      PoolOp p = mk(k, plain_text(r, k));
      p.group = grp;
      v.push_back(p);
      for (int i = 0; i < 4; i++) {
        PoolOp q = p;
        if (!flip_inside(r, q.op)) q.op = mutate(r, p.op);
        v.push_back(q);
      }
      grp++;
    }
}
// Texts of the same length that common fingerprints (sums, polynomial and FNV
// hashes, CRC-32, over the code points or over the bytes; 8, 16 or 32 bits of
// them) do not tell apart, found by a birthday search.
static uint32_t fingerprint(int h, const std::u32string& t, const std::string& bytes) {
  bool wide = h & 1;
  size_t n = wide ? t.size() : bytes.size();
  uint32_t x = 0;
  int f = h >> 1;
  static const uint32_t mul[] = {31, 33, 37, 131, 65599, 257};
  if (f == 7) x = 2166136261u;
  if (f == 8) x = ~0u;
  for (size_t i = 0; i < n; i++) {
    uint32_t c = wide ? uint32_t(t[i]) : uint8_t(bytes[i]);
    if (f < 6) x = x * mul[f] + c;
    else if (f == 6) x += c;
    else if (f == 7) x = (x ^ c) * 16777619u;
    else {
      x ^= c;
      for (int k = 0; k < 8; k++) x = x & 1 ? x >> 1 ^ 0xEDB88320u : x >> 1;
    }
  }
  return x;
}
static void add_collisions(Rng& r, std::vector<PoolOp>& v, int& grp) {
  static const int kinds[] = {K_MAP_B, K_MAP_S, K_IS_NFC, K_NORMALIZE, K_PUNY_ENC, K_LABEL_VALID, K_LABEL_VALID,
                              K_TO_ASCII_B, K_TO_UNI_B, K_PUNY_VERIFY, K_PUNY_DEC};
  static const uint32_t aim[] = {0x301, 0x5D0, 0x660, 0x200D, 0x200C, 0x94D, 0xAD, 0x41, 0x378, 0x1100, 0x3099, 0xE9, 0x2F800, 0x344};
  for (int k : kinds)
    for (int b = 0; b < 12; b++) {
      // the first rounds: every fingerprint at 16 bits, then random ones
      int h = b < 9 ? b * 2 + (k == K_TO_ASCII_B ? int(r.below(2)) : 1) : int(r.below(18));
      int bits = b < 9 ? 16 : r.below(3) ? 8 : r.below(4) ? 16 : 32;
      size_t len = 2 + r.below(4);
      int extra = bits == 32 ? 1 : 0, found = 0;
      std::unordered_map<uint32_t, std::pair<std::u32string, bool>> seen;
      for (int tries = bits == 32 ? 150000 : 3000; tries > 0 && found < 2; tries--) {
        // half of the texts hold a character of consequence
        std::u32string t(len + size_t(extra), U'a');
        for (char32_t& c : t) c = char32_t(0x4E00 + r.below(5000));
        bool odd = r.below(2);
        if (odd) t[r.below(t.size())] = char32_t(aim[r.below(14)]);
        std::string in = k == K_TO_ASCII_B || k == K_TO_UNI_B ? "xn--" + puny(t)
                         : k == K_PUNY_VERIFY || k == K_PUNY_DEC ? puny(t) : u32b(t);
        uint32_t x = fingerprint(h, t, in);
        if (bits < 32) x &= (1u << bits) - 1;
        auto [it, fresh] = seen.try_emplace(x, t, odd);
        if (fresh || it->second.second == odd || it->second.first.size() != t.size() || it->second.first == t) continue;
        std::string other = k == K_TO_ASCII_B || k == K_TO_UNI_B ? "xn--" + puny(it->second.first)
                            : k == K_PUNY_VERIFY || k == K_PUNY_DEC ? puny(it->second.first) : u32b(it->second.first);
        if (other.size() != in.size()) continue;
        found++;
        for (const std::string& i : {in, other}) {
          PoolOp p = mk(k, i);
          p.group = grp;
          p.twin = true;
          v.push_back(p);
        }
        grp++;
      }
    }
}
// Unusual shapes: empty and one-unit arguments, lengths about powers of two,
// truncated sequences, code points at the ends of ranges.
static uint32_t edge_cp(Rng& r, bool scalar) {
  uint32_t c;
  switch (r.below(5)) {
    case 0: c = (1u << r.below(21)) - uint32_t(r.below(2)); break;
    case 1: c = kOdd[r.below(sizeof kOdd / sizeof *kOdd)]; break;
    case 2: {
      const Range& x = kScripts[r.below(sizeof kScripts / sizeof *kScripts)];
      c = r.below(2) ? x.lo - uint32_t(r.below(2)) : x.hi + uint32_t(r.below(2));
      break;
    }
    case 3: c = uint32_t(r.below(0x1100)) << 8 | (r.below(2) ? 0xFF : 0); break;
    default: {
      static const uint32_t big[] = {0x10FFFF, 0x110000, 0x1FFFFF, 0x200000, 0x7FFFFFFF,
                                     0x80000000, 0xFFFFFFFF, 0x32000, 0xE0FFF, 0x2FFFF};
      c = big[r.below(10)];
    }
  }
  if (scalar && (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000))) c = 0xFFFD - c % 7;
  return c;
}
static PoolOp gen_edge(Rng& r) {
  int k = int(r.below(K_API_COUNT));
  bool is8 = k <= K_ASCII_MAP || k == K_PUNY_DEC || k == K_PUNY_VERIFY || k == K_U8TO32 || k == K_LEN32;
  static const size_t lens[] = {0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256};
  size_t n = lens[r.below(r.below(4) ? 16 : 21)];
  if (k == K_NAME_CP) {
    std::u32string s;
    for (size_t i = 0; i <= n % 20; i++) {
      s += char32_t(r.below(3) ? edge_cp(r, false) : any_cp(r));
      s += char32_t(r.below(2));
    }
    return mk(k, u32b(s));
  }
  if (!is8) {
    std::u32string s;
    char32_t f = r.below(2) ? char32_t(edge_cp(r, false)) : U"a\xe9\x301\x4e00\x3b1\xac00"[r.below(6)];
    s.assign(n, f);
    for (size_t i = r.below(4); i > 0; i--) {
      char32_t c = char32_t(edge_cp(r, false));
      size_t at = r.below(3) ? r.below(s.size() + 1) : r.below(2) ? 0 : s.size();
      if (r.below(2) && at < s.size()) s[at] = c;
      else s.insert(at, 1, c);
    }
    if (r.below(3) == 0)
      for (size_t i = 0; i < s.size(); i++)
        if (r.below(3) == 0) s[i] = char32_t(edge_cp(r, false));
    return mk(k, u32b(s));
  }
  std::string s;
  switch (r.below(k == K_PUNY_DEC || k == K_PUNY_VERIFY ? 3 : 7)) {
    case 0: {   // one byte repeated, another somewhere
      s.assign(n, "a0-.zA"[r.below(6)]);
      for (size_t i = r.below(3); i > 0 && n; i--)
        s[r.below(3) ? r.below(n) : r.below(2) ? 0 : n - 1] = "Zz9-._%\x80\xC3\xFF @:[\x7F\0"[r.below(17)];
      break;
    }
    case 1: {   // punycode in shapes an encoder would not make
      static const char* const odd[] = {"", "-", "--", "a-", "-a", "a--", "99999999", "zzzzzzzzzzzz",
                                        "a-99999999999", "0", "A-B", "maana-pta", "ls8h", "-6sc", "4ca",
                                        "a-4ca", "ABC-4ca", "\xC3", "a\xE9-b", "80akhbyknj4f", "fiq228c"};
      s = odd[r.below(21)];
      if (r.below(3) == 0) s = std::string(n, 'q') + s;
      if (k != K_PUNY_DEC && k != K_PUNY_VERIFY) s = (r.below(4) ? "xn--" : r.below(2) ? "XN--" : "xN--") + s;
      break;
    }
    case 2: s = ace_label(r, int(n) + 1); break;
    case 3: {   // ill-formed or cut UTF-8 after n bytes
      s.assign(n, 'b');
      uint32_t c = edge_cp(r, true);
      std::string m = u8(std::u32string(1, char32_t(c)));
      if (r.below(2)) m.resize(r.below(m.size() + 1));
      if (r.below(4) == 0) m = "\xED\xA0\x80";
      if (r.below(6) == 0) m = "\xF4\x90\x80\x80";
      s.insert(r.below(2) ? s.size() : r.below(s.size() + 1), m);
      break;
    }
    case 4: {   // dots everywhere, labels of limiting length
      static const size_t ll[] = {0, 1, 59, 62, 63, 64, 3, 4};
      for (int i = int(r.below(6)); i >= 0; i--) {
        size_t len = ll[r.below(8)];
        std::string l(len, char('a' + r.below(26)));
        if (r.below(3) == 0) l = "xn--" + l;
        if (r.below(5) == 0) l += u8(std::u32string(1, char32_t(edge_cp(r, true))));
        s += l;
        if (i || r.below(3) == 0) s += '.';
      }
      break;
    }
    case 5: {
      std::u32string t(n, char32_t(edge_cp(r, true)));
      for (size_t i = r.below(4); i > 0; i--) t.insert(r.below(t.size() + 1), 1, char32_t(edge_cp(r, true)));
      s = u8(t);
      break;
    }
    default: {
      std::u32string t;
      for (size_t i = 0; i < 1 + n % 12; i++) t += char32_t(edge_cp(r, true));
      for (char32_t& c : t) if (c == U'.') c = U'-';
      s = "xn--" + puny(t);
      if (r.below(3) == 0) s += u8(U".\xe9");
    }
  }
  if (k == K_ASCII_MAP)
    for (char& c : s) c &= 0x7F;
  return mk(k, s);
}
static std::string heavy8(Rng& r, size_t bytes);
static std::u32string runs_text(Rng& r, size_t n);
static std::u32string long32(Rng& r, size_t n) {
  if (r.below(2)) return runs_text(r, n);
  std::u32string s;
  while (s.size() < n) s += char32_t(r.below(3) ? 'a' + r.below(26) : any_cp(r));
  return s;
}
std::vector<PoolOp> gen_pool(Rng& r, int n) {
  std::vector<PoolOp> v;
  int grp = 0;
  while (int(v.size()) < n) {
    PoolOp p = n > 400 && r.below(3) == 0 ? gen_edge(r) : gen_one(r);
    p.group = grp;
    v.push_back(p);
    if (r.below(3) == 0) {
      int m = 1 + int(r.below(4));
      for (int i = 0; i < m; i++) {
        PoolOp q;
        if (r.below(3) == 0) {   // the same text through a sibling operation
          q = p;
          static const int sib8[] = {K_TO_ASCII_B, K_TO_UNI_B, K_TO_ASCII_S,
                                     K_TO_UNI_S, K_FORBIDDEN, K_PUNY_DEC};
          static const int sib32[] = {K_MAP_B, K_NORMALIZE, K_IS_NFC,
                                      K_LABEL_VALID, K_PUNY_ENC, K_MAP_S};
          bool is32 = p.op.kind == K_MAP_B || p.op.kind == K_MAP_S ||
                      p.op.kind == K_NORMALIZE || p.op.kind == K_IS_NFC ||
                      p.op.kind == K_LABEL_VALID || p.op.kind == K_PUNY_ENC;
          if (p.op.kind == K_NAME_CP || p.op.kind == K_ASCII_MAP ||
              p.op.kind >= K_U8TO32)
            continue;
          q.op.kind = is32 ? sib32[r.below(6)] : sib8[r.below(6)];
        } else {
          q.op = p.op;
          if (r.below(2) || !flip_inside(r, q.op)) q.op = mutate(r, p.op);
        }
        q.group = grp;
        v.push_back(q);
      }
    }
    grp++;
  }
  add_lookalikes(r, v, grp);
  add_collisions(r, v, grp);
  // big and over-limit arguments
  static const size_t sizes[] = {300,   2100,       5000,      16383,
                                 kLimit, kLimit + 1, 16385 + 7, 20000};
  for (size_t i = 0; i < sizeof sizes / sizeof *sizes; i++)
    for (int mode = 0; mode < 6; mode++) {
      if (sizes[i] > 5000 && sizes[i] <= kLimit && mode && mode < 4 &&
          r.below(3))
        continue;
      int kind = int(r.below(4));
      PoolOp p = mk(kind, mode < 4 ? long_text(r, sizes[i], mode)
                                   : ace_bomb(r, sizes[i], mode == 4));
      if (mode >= 4 && sizes[i] <= kLimit)
        p.op.kind = mode == 4 ? K_TO_UNI_B + int(r.below(2))
                              : K_TO_ASCII_B + int(r.below(2));
      p.group = grp++;
      v.push_back(p);
    }
  // just over the limit, for someone who counts something else than bytes
  static const char* const edge[] = {".", "..", " ", "\t", "\n", "", "\xE3\x80\x82", "\xEF\xBC\x8E",
                                     "\xEF\xBD\xA1", "\xC2\xAD", "\xE2\x80\x8B", "\xCC\x81", "-", "xn--", "\xEF\xBB\xBF", "\xC3\xA9"};
  for (int i = 0; i < 64; i++) {
    std::string e = edge[i % 16], s;
    if (e.empty()) e.assign(1, '\0');
    size_t lim = kLimit + 1 + (i & 32 ? r.below(4) : 0), lab = r.below(2) ? 1 + r.below(60) : kLimit;
    while (s.size() < lim) s += s.size() % (lab + 1) == lab ? '.' : char("abcxyz019-"[r.below(10)]);
    size_t m = 1 + (i & 32 ? r.below(5) : 0);
    for (size_t j = 0; j < m; j++) {
      size_t at = r.below(3) == 0 ? j * e.size() : s.size() - (j + 1) * e.size();
      s.replace(at, e.size(), e);
    }
    s.resize(lim);
    PoolOp p = mk(i % 4, s);
    p.group = grp++;
    v.push_back(p);
  }
  // nothing but one code point with a long mapping, up to the limit
  static const char32_t longs[] = {0xFDFA, 0xFDFB, 0x3300, 0x33A7, 0x1F82,
                                   0x2A74, 0x320E, 0x1D160, 0x2F8D1, 0x3382};
  for (int i = 0; i < 20; i++) {
    char32_t c = longs[i / 2];
    std::string one = u8(std::u32string(1, c)), all;
    size_t lim = i % 2 ? kLimit : 4000 + r.below(kLimit - 4000);
    size_t lab = r.below(2) ? kLimit : 60 + r.below(4000);
    while (all.size() + one.size() <= lim) {
      all += one;
      if (all.size() / lab != (all.size() + one.size()) / lab && all.size() + 1 < lim) all += '.';
    }
    PoolOp p = mk(int(r.below(4)) ? K_TO_ASCII_B : K_TO_ASCII_S, all);
    p.group = grp++;
    p.dense = true;
    v.push_back(p);
  }
  // long arguments for work that needs no tables
  static const int free8[] = {K_TO_ASCII_B, K_TO_ASCII_S, K_TO_UNI_B, K_TO_UNI_S, K_FORBIDDEN,
                              K_PUNY_DEC, K_PUNY_VERIFY, K_ASCII_MAP, K_U8TO32, K_LEN32};
  for (int i = 0; i < 40; i++) {
    size_t lim = i % 8 ? r.logu(100, 3500) : r.logu(3500, kLimit);
    int k = free8[r.below(10)];
    PoolOp p;
    if (r.below(6) == 0) {
      p = mk(r.below(3) ? K_PUNY_ENC : K_U32TO8, u32b(long32(r, lim / 4)));
    } else {
      std::string s;
      size_t lab = r.below(4) ? r.logu(1, 200) : kLimit;
      while (s.size() < lim) s += s.size() % (lab + 1) == lab ? '.' : char("abcxyz019-AZ"[r.below(12)]);
      if (k > K_TO_ASCII_S && k != K_ASCII_MAP && r.below(2))
        for (size_t at = r.below(lim); at + 2 <= s.size(); at += 1 + r.below(200))
          if (s[at] != '.' && s[at + 1] != '.') s.replace(at, 2, "\xC3\xA9"), at += 2;
      p = mk(k, s);
    }
    p.group = grp++;
    v.push_back(p);
  }
  // just within the limit, of the shapes that make the library work hard
  for (int i = 0; i < (n > 400 ? 60 : 0); i++) {
    size_t lim = kLimit - r.below(4);
    std::string s;
    if (i % 3) {
      while (s.size() + 70 < lim) {
        std::string l = heavy8(r, 8 + r.below(50));
        for (char& c : l) if (c == '.' && r.below(4)) c = 'a';
        s += l + ".";
      }
    } else {         // very many labels
      std::string unit = r.below(3) ? std::string(1 + r.below(3), char('a' + r.below(26))) + "."
                                    : u8(std::u32string(1, char32_t(0xE9 + r.below(16)))) + ".";
      s = r.below(2) ? u8(U"\xE9.") : "xn--9ca.";
      while (s.size() + unit.size() <= lim) s += unit;
      if (r.below(2)) s.pop_back();
    }
    PoolOp p = mk(r.below(3) ? K_TO_ASCII_B + int(r.below(2)) : K_TO_UNI_B + int(r.below(2)), s);
    p.group = grp++;
    p.dense = true;
    v.push_back(p);
  }
  for (PoolOp& p : v) classify(p);
  return v;
}

// ------------------------------------------------------------------ hard work
// A few runs, each of characters of one class.
static std::u32string runs_text(Rng& r, size_t n) {
  // in ascending order of combining class
  static const char32_t marks[] = {0x334, 0x93C, 0x3099, 0x94D, 0x5B0, 0x5B4, 0x64B, 0x327,
                                   0x1D167, 0x302A, 0x323, 0x301, 0x308, 0x345};
  static const int NM = int(sizeof marks / sizeof *marks);
  static const Range cls[] = {{0x5D0, 0x5EA}, {0x628, 0x63A}, {0x660, 0x669}, {'0', '9'},
      {'a', 'z'}, {'A', 'Z'}, {0x610, 0x61A}, {0x200C, 0x200D}, {0x1100, 0x1112}, {0x1161, 0x1175},
      {0x11A8, 0x11C2}, {0xAC00, 0xD7A3}, {0xFDFA, 0xFDFB}, {0xAD, 0xAD}, {0xFE00, 0xFE0F},
      {0x1E00, 0x1EFF}, {0x4E00, 0x9FFF}, {0xF900, 0xFA6D}, {0x10000, 0x1005D}, {'.', '.'},
      {'-', '-'}, {0xE0, 0xFF}, {0x915, 0x939}, {0x1F80, 0x1FAF}, {0x300, 0x36F}, {0x8D3, 0x8FF},
      {0x3002, 0x3002}, {0x7CA, 0x7EA}, {0xFB1D, 0xFB4F}, {0xDF, 0xDF}};
  static const int NC = int(sizeof cls / sizeof *cls);
  // what the classes of one text are drawn from, by index into cls
  static const std::vector<int> themes[] = {
      {0, 0, 0, 1, 2, 3, 6, 27, 28}, {8, 9, 10, 11}, {7, 12, 13, 14, 22}, {4, 5, 3, 19, 20}, {6, 24, 25}};
  const std::vector<int>* th = r.below(2) ? &themes[r.below(5)] : nullptr;
  if (th && r.below(3) == 0) th = &themes[0];
  auto a_class = [&]() -> const Range& {
    return cls[th ? size_t((*th)[r.below(th->size())]) : r.below(NC)];
  };
  std::u32string s;
  int k = 1 + int(r.below(4));
  size_t left = n;
  for (int i = 0; i < k && left; i++) {
    size_t m = i == k - 1 ? left : r.below(3) == 0 ? 1 + r.below(3) : 1 + r.below(left);
    m = std::min(m, left);
    left -= m;
    auto one = [&](int style, const Range& c, size_t j, size_t of) -> char32_t {
      uint32_t w = c.hi - c.lo + 1;
      switch (style) {
        case 0: return c.lo;
        case 1: return char32_t(c.lo + j * w / (of ? of : 1) % w);
        case 2: return char32_t(c.hi - j * w / (of ? of : 1) % w);
        case 3: return char32_t(c.lo + j % w);
        default: return char32_t(c.lo + r.below(w));
      }
    };
    int style = int(r.below(5));
    if (th == &themes[0] && s.empty() ? false : r.below(5) < 2) {   // marks
      int from = int(r.below(NM)), cnt = 1 + int(r.below(NM));
      for (size_t j = 0; j < m; j++) {
        int x = style < 2 ? 0 : style == 2 ? int(j * size_t(cnt) / m)
              : style == 3 ? cnt - 1 - int(j * size_t(cnt) / m) : int(r.below(size_t(cnt)));
        s += marks[(from + x) % NM];
      }
    } else if (r.below(3)) {                     // one class
      const Range& c = a_class();
      for (size_t j = 0; j < m; j++) s += one(style, c, j, m);
    } else {                                     // a short unit again and again
      std::u32string u;
      int q = 2 + int(r.below(3));
      for (int j = 0; j < q; j++)
        u += r.below(4) ? one(4, a_class(), 0, 0) : marks[r.below(NM)];
      for (size_t j = 0; j < m; j++) s += u[j % u.size()];
    }
  }
  return s;
}
// A text of about n code points that makes some loop of the library long.
static std::u32string heavy_text(Rng& r, size_t n) {
  if (r.below(5) < 2) return runs_text(r, n);
  std::u32string s;
  auto rep = [&](std::u32string x) {
    while (s.size() + x.size() <= n) s += x;
  };
  static const char32_t marks[] = {0x334, 0x327, 0x323, 0x301, 0x345, 0x5B0, 0x64B, 0x94D, 0x3099};
  switch (r.below(18)) {
    case 0:    // all different, ascending or descending
    case 1: {
      uint32_t b = r.below(2) ? 0x4E00 : 0xAC00;
      for (size_t i = 0; i < n; i++) s += char32_t(b + i % 0x2B00);
      if (r.below(2)) s = std::u32string(s.rbegin(), s.rend());
      break;
    }
    case 2:    // one base, marks in descending order of class
      s = r.below(2) ? U"e" : U"\x1E1D";
      for (int k = 8; k >= 0; k--) s += std::u32string(n / 9, marks[k]);
      if (r.below(2)) s += U'\x323';
      break;
    case 3:
      s = U"a";
      while (s.size() < n) s += marks[r.below(9)];
      break;
    case 4: rep(std::u32string(1, char32_t(0xE9)) + U"."); break;
    case 5: s = std::u32string(n, U'.'); s += U'\xE9'; break;
    case 6: s = std::u32string(n, r.below(2) ? U'\xAD' : U'\xFE0F'); s += U'\xE9'; break;
    case 7: rep(U"\x628\x200C"); s += U'\x628'; break;
    case 8: rep(U"\x915\x94D\x200D"); break;
    case 9: for (size_t i = 0; i < n; i++) s += char32_t(0x5D0 + r.below(27)); break;
    case 10: s = U"\x5D0"; while (s.size() < n) s += char32_t(0x5B0 + r.below(10)); break;
    case 11: for (size_t i = 0; i < n; i++) s += char32_t(0xAC00 + r.below(11172)); break;
    case 12: rep(U"\x1100\x1161\x11A8"); break;
    case 13: rep(std::u32string(1, char32_t(r.below(2) ? 0xFDFA : 0x1F82))); break;
    case 14: for (size_t i = 0; i < n; i++) s += char32_t("abcdefghijXYZ012-."[r.below(18)]); break;
    case 15: for (size_t i = 0; i < n; i++) s += char32_t(0x10000 + (i * 7919) % 0x5F); break;
    case 16: for (size_t i = 0; i < n; i++) s += char32_t(r.below(2) ? 0x1E00 + r.below(0xFF) : 0x300 + r.below(0x30)); break;
    default: rep(gen_label(r, 20, false) + U"."); break;
  }
  if (r.below(8) == 0) s += U'\x378';          // refused at the very end
  if (r.below(4) == 0 && n > 60) {             // labels of ordinary length
    size_t k = 2 + r.below(20);
    for (size_t i = k - 1; i < s.size(); i += k) s[i] = U'.';
  }
  return s;
}
static std::string heavy8(Rng& r, size_t bytes) {
  std::string s;
  switch (r.below(9)) {
    case 0: while (s.size() < bytes) s += "xn--" + puny(std::u32string(1 + r.below(3), char32_t(0xE9 + r.below(9)))) + "."; break;
    case 1: s = "xn--"; while (s.size() < bytes) s += char('a' + r.below(2)); break;
    case 2: s = "xn--" + std::string(bytes, "9a-0z"[r.below(5)]); break;
    case 3: {   // decoded at the front again and again
      std::u32string t;
      for (size_t i = 0; i < bytes / 3; i++) t += char32_t(0x4E00 + (bytes / 3 - i));
      s = "xn--" + puny(t);
      break;
    }
    case 4: s = std::string(bytes, '.'); break;
    case 5: s = std::string(bytes, '-') + u8(U"\xE9"); break;
    default: s = u8(heavy_text(r, bytes / 3));
  }
  if (s.size() > bytes) {
    s.resize(bytes);
    while (!s.empty() && (uint8_t(s.back()) & 0xC0) == 0x80) s.pop_back();
    if (!s.empty() && uint8_t(s.back()) >= 0xC0) s.pop_back();
  }
  if (r.below(4) == 0 && s.size() + 3 < bytes) s += u8(U".\xE9");
  return s;
}
void gen_heavy(Rng& r, std::vector<PoolOp>& v, int n) {
  int grp = 0;
  for (auto& p : v) grp = std::max(grp, p.group + 1);
  static const int w[K_API_COUNT] = {20, 3, 18, 3, 1, 1, 4, 1, 8, 10, 7, 3, 12, 10, 0, 2, 2, 1, 1};
  int tot = 0;
  for (int x : w) tot += x;
  for (int i = 0; i < n; i++) {
    int k = 0;
    int64_t x = int64_t(r.below(size_t(tot)));
    while ((x -= w[k]) >= 0) k++;
    size_t len = r.logu(40, r.below(5) ? 2500 : kLimit);
    if (k == K_IS_NFC || k == K_LABEL_VALID) len = r.logu(200, r.below(5) ? 6000 : kLimit);
    PoolOp p;
    bool is8 = k <= K_ASCII_MAP || k == K_PUNY_DEC || k == K_PUNY_VERIFY || k == K_U8TO32 || k == K_LEN32;
    if (is8) {
      if (k <= K_TO_UNI_S && r.below(12) == 0) len = kLimit + r.logu(1, 300000);
      std::string s = heavy8(r, len);
      if (len > kLimit) s.resize(len, 'a');
      if ((k == K_PUNY_DEC || k == K_PUNY_VERIFY) && s.compare(0, 4, "xn--") == 0) s.erase(0, 4);
      if (k == K_ASCII_MAP)
        for (char& c : s) c &= 0x7F;
      p = mk(k, s);
    } else {
      p = mk(k, u32b(heavy_text(r, len / 2)));
    }
    p.group = grp++;
    p.heavy = true;
    classify(p);
    v.push_back(p);
  }
}
// Some of them at lengths that every kind of run can afford, with texts that
// differ from them in one place.
void gen_mid(Rng& r, std::vector<PoolOp>& v, int n) {
  std::vector<PoolOp> h;
  if (!v.empty()) h.push_back(v.back());
  gen_heavy(r, h, 3 * n);
  int grp = 0, m = 0;
  for (auto& p : v) grp = std::max(grp, p.group + 1);
  for (auto& p : h) {
    if (!p.heavy || p.overlimit || p.op.in.size() > 3000 || p.op.in.size() < 256 || m >= n) continue;
    m++;
    p.group = grp++;
    v.push_back(p);
    PoolOp q;
    q.op = p.op;
    if (r.below(2) || !flip_inside(r, q.op)) continue;
    q.group = p.group;
    q.heavy = true;
    classify(q);
    if (!q.overlimit) v.push_back(q);
  }
}
// Domains of very many ACE labels, each of which needs the tables.
void gen_aces(Rng& r, std::vector<PoolOp>& v, int n) {
  int grp = 0;
  for (auto& p : v) grp = std::max(grp, p.group + 1);
  for (int i = 0; i < n; i++) {
    size_t k = r.logu(24, r.below(8) ? 300 : 2000);
    std::string s;
    std::string one;
    for (size_t j = 0; j < k; j++) {
      if (one.empty() || r.below(3) == 0) {
        std::u32string l;
        size_t m = 1 + r.below(4);
        static const char32_t base[] = {0xE0, 0x3B1, 0x4E00, 0x430};
        const char32_t b = base[r.below(4)];
        for (size_t q = 0; q < m; q++) l += b + char32_t(r.below(20));
        one = "xn--" + puny(l);
      }
      if (r.below(12) == 0) s += ascii_label(r, 4) + ".";
      if (s.size() + one.size() + 1 > kLimit) break;
      s += one;
      if (j + 1 < k) s += '.';
    }
    PoolOp p = mk(r.below(6) == 0 ? K_TO_ASCII_B : r.below(3) ? K_TO_UNI_B : K_TO_UNI_S, s);
    if (p.op.kind == K_TO_ASCII_B) p.op.in += u8(U".\xe9");
    if (p.op.in.size() > kLimit) continue;
    p.group = grp++;
    p.heavy = true;
    classify(p);
    v.push_back(p);
  }
}
// every label at most 63 bytes long
static bool short_labels(const std::string& s) {
  size_t last = 0;
  for (size_t i = 0; i <= s.size(); i++)
    if (i == s.size() || s[i] == '.') {
      if (i - last > 63) return false;
      last = i + 1;
    }
  return true;
}
uint64_t work_bound(const PoolOp& p) {
  const uint64_t base = 40000;
  uint64_t n = p.op.in.size();
  switch (p.op.kind) {
    case K_TO_ASCII_B:
    case K_TO_ASCII_S:
    case K_TO_UNI_B:
    case K_TO_UNI_S:
      if (p.overlimit) return p.op.kind == K_TO_UNI_S ? base + 2 * n : 4000;
      if (p.tablefree) return base + 60 * n;
      if (short_labels(p.op.in)) return base + 1500 * n;
      return base + 1500 * n + 8 * n * n;
    case K_NORMALIZE:
    case K_PUNY_ENC:
      n /= 4;
      return base + 1500 * n + 8 * n * n;
    case K_PUNY_DEC:
      return base + 1500 * n + 4 * n * n;
    default:
      return base + 150 * n;
  }
}

// Whether the property list promises work linear in the input.
bool works_linearly(const PoolOp& p) {
  switch (p.op.kind) {
    case K_TO_ASCII_B:
    case K_TO_ASCII_S:
    case K_TO_UNI_B:
    case K_TO_UNI_S: return p.tablefree || short_labels(p.op.in);
    case K_NORMALIZE:
    case K_PUNY_ENC:
    case K_PUNY_DEC: return false;
    default: return true;
  }
}
// Series of four calls of one shape, each about twice as long as the one
// before: how their work grows tells linear from quadratic.
void gen_scale(Rng& r, std::vector<PoolOp>& v, int n) {
  int grp = 0;
  for (auto& p : v) grp = std::max(grp, p.group + 1);
  static const int w[K_API_COUNT] = {12, 3, 12, 3, 2, 1, 6, 2, 6, 6, 6, 6, 4, 4, 0, 2, 2, 1, 1};
  int tot = 0;
  for (int x : w) tot += x;
  for (int i = 0; i < n; i++) {
    int k = 0;
    int64_t x = int64_t(r.below(size_t(tot)));
    while ((x -= w[k]) >= 0) k++;
    const bool is8 = k <= K_ASCII_MAP || k == K_PUNY_DEC || k == K_PUNY_VERIFY || k == K_U8TO32 || k == K_LEN32;
    const bool dom = k <= K_TO_UNI_S;
    const bool quad = k == K_NORMALIZE || k == K_PUNY_ENC || k == K_PUNY_DEC;
    // the largest, in bytes (of UTF-8 or UTF-32)
    size_t top = dom ? kLimit - (r.below(2) ? r.below(200) : r.below(7000)) : quad ? 4000 + r.below(8000) : 30000 + r.below(60000);
    const bool longlab = dom && r.below(6) == 0;
    if (longlab) top = 3000 + r.below(5000);
    // text number j of a series: at most b bytes
    std::u32string unit, unit2, pre, suf;
    std::string ace;
    uint32_t first = 0;
    int shape = int(r.below(6));
    auto a_unit = [&](size_t q) {
      std::u32string u = r.below(2) ? runs_text(r, 1 + r.below(q)) : gen_label(r, int(q), false);
      if (dom || k == K_FORBIDDEN)
        for (char32_t& c : u) if (c == U'.' || c == 0x3002) c = U'a';
      if (r.below(3) == 0)
        for (char32_t& c : u) c = char32_t('a' + c % 26);
      return u;
    };
    unit = a_unit(dom && r.below(2) ? 1 : 8);
    unit2 = a_unit(4);
    if (i % 3) {   // one kind of character that needs treatment of its own
      static const char32_t* const special[] = {
          U"\xAD", U"\x200B\xFE0F", U"\x301", U"\x323\x301", U"\xFDFA", U"A", U"\x1F82", U"\xAC00", U"\x1100\x1161",
          U"\x915\x94D\x200D", U"\x5D0", U"\x628", U"\x5D0\x660", U"\x10400", U"\x1E9E", U"\x212B", U"e\x301",
          U"\x3002", U"\x4E00", U"-", U"9", U"\xE9"};
      std::u32string sp = special[size_t(i / 3 * 2 + i % 3) % (sizeof special / sizeof *special)];
      unit = r.below(3) == 0 ? sp : r.below(2) ? U"a" + sp : sp + std::u32string(1 + r.below(3), U'b');
    }
    if (dom && !longlab) {
      for (char32_t& c : unit) if (c == 0x3002) c = U'a';
      unit += U'.';
      if (r.below(2)) pre = r.below(3) ? U"\xE9." : U"xn--9ca.";
      if (r.below(4) == 0) unit = U"a.";
      if (r.below(3) == 0) suf = r.below(2) ? U"\xE9" : U"xn--9ca";
      if (r.below(4) == 0) ace = "xn--" + puny(a_unit(6)) + ".";
    } else if (r.below(3) == 0) {
      pre = a_unit(3);
      if (r.below(2)) suf = a_unit(3);
    }
    first = r.below(2) ? 0x4E00 : 0xAC00;
    for (int j = 0; j < 4; j++) {
      size_t b = top >> (3 - j);
      std::u32string t = pre;
      std::string s8;
      size_t len = is8 ? u8(t).size() : t.size() * 4;
      auto add = [&](const std::u32string& u) {
        t += u;
        len += is8 ? u8(u).size() : u.size() * 4;
      };
      size_t need = (is8 ? u8(suf).size() : suf.size() * 4) + 24;
      uint32_t z = 0;
      while (len + need < b) {
        if (dom && !longlab) {
          if (shape == 0) {          // every label another one
            std::u32string l;
            for (uint32_t y = z++ + 3; y; y /= 26) l += char32_t('a' + y % 26);
            add(l + U".");
          } else if (shape == 1) {
            add(std::u32string(1, char32_t(first + z++)) + U".");
          } else if (shape == 2 && !ace.empty()) {
            add(std::u32string(ace.begin(), ace.end()));
          } else if (shape == 3) {   // labels of the greatest length
            std::u32string l = unit;
            l.pop_back();
            std::u32string m;
            while (u8(m).size() + u8(l).size() <= 40) m += l.empty() ? std::u32string(1, U'a') : l;
            add(m + U".");
          } else {
            add(unit);
          }
        } else if (shape == 0) {
          add(std::u32string(1, char32_t(first + z++ % 0x2B00)));
        } else if (shape == 1) {     // two runs
          add(len * 2 < b ? unit : unit2.empty() ? unit : unit2);
        } else {
          add(unit.empty() ? std::u32string(1, U'a') : unit);
        }
      }
      t += suf;
      std::string in;
      if (is8) {
        in = u8(t);
        if (k == K_PUNY_DEC || k == K_PUNY_VERIFY) in = puny(t);
        if (k == K_ASCII_MAP)
          for (char& c : in) c &= 0x7F;
      } else {
        in = u32b(t);
      }
      PoolOp p = mk(k, in);
      p.group = grp++;
      p.heavy = true;
      p.scale = i;
      classify(p);
      v.push_back(p);
    }
  }
}
