// Independent strict raw-DEFLATE decoder (RFC 1951) used as the reference
// model for the decompressor and to find literal positions in the shipped
// stream.  Written from the RFC, with tables instead of canonical arithmetic.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

struct RefInflate {
  enum Why {
    OK, TRUNCATED, NO_SPACE, RESERVED_TYPE, BAD_STORED, BAD_DISTANCE,
    UNASSIGNED_CODE, OUT_OF_RANGE, LIST_TOO_LONG, NO_PREVIOUS
  };
  // canonical code set as an explicit (length, code) -> symbol map
  struct Codes {
    std::map<uint32_t, int> m;
    bool oversub = false, incomplete = false;
    int used = 0;
    void build(const std::vector<int>& len) {
      m.clear();
      used = 0;
      uint32_t code = 0;
      long left = 1;
      oversub = incomplete = false;
      for (int l = 1; l <= 15; l++) {
        code <<= 1;
        left <<= 1;
        for (size_t s = 0; s < len.size(); s++)
          if (len[s] == l) {
            m[uint32_t(l) << 16 | (code & 0xffff)] = int(s);
            code++;
            left--;
            used++;
          }
        if (left < 0) {
          oversub = true;
          left = 0;
        }
      }
      incomplete = left > 0;
    }
  };
  const uint8_t* s;
  size_t n;
  uint64_t pos = 0;       // bit position
  bool oversub = false;   // a code set of the stream was over-subscribed
  bool incomplete = false;
  bool dubious = false;   // decoders may also reject the stream at its header
  bool trailing = false;  // whole bytes were left over after the last block
  int blocks = 0, types = 0;
  std::vector<uint8_t> out;
  size_t cap;
  // called for every literal: bit position, code length, table, value
  std::function<void(uint64_t, int, const Codes&, int)> on_literal;

  int bit() {
    if (pos >= uint64_t(n) * 8) return -1;
    int b = (s[pos >> 3] >> (pos & 7)) & 1;
    pos++;
    return b;
  }
  long bits(int k) {
    long v = 0;
    for (int i = 0; i < k; i++) {
      int b = bit();
      if (b < 0) return -1;
      v |= long(b) << i;
    }
    return v;
  }
  int symbol(const Codes& c, int& len) {   // -1 truncated, -2 unassigned
    uint32_t code = 0;
    for (int l = 1; l <= 15; l++) {
      int b = bit();
      if (b < 0) return -1;
      code = code << 1 | uint32_t(b);
      auto it = c.m.find(uint32_t(l) << 16 | code);
      if (it != c.m.end()) {
        len = l;
        return it->second;
      }
    }
    return -2;
  }
  Why run(const uint8_t* src, size_t len, size_t capacity) {
    s = src;
    n = len;
    cap = capacity;
    pos = 0;
    out.clear();
    oversub = incomplete = dubious = trailing = false;
    blocks = types = 0;
    static const int LB[29] = {3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23,
                               27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131,
                               163, 195, 227, 258};
    static const int LE[29] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2,
                               2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0};
    static const int DB[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97,
                               129, 193, 257, 385, 513, 769, 1025, 1537, 2049,
                               3073, 4097, 6145, 8193, 12289, 16385, 24577};
    static const int DE[30] = {0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6,
                               6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12,
                               13, 13};
    static const int ORD[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5,
                                11, 4, 12, 3, 13, 2, 14, 1, 15};
    for (;;) {
      long fin = bits(1), type = bits(2);
      if (fin < 0 || type < 0) return TRUNCATED;
      blocks++;
      types |= 1 << type;
      if (type == 3) return RESERVED_TYPE;
      if (type == 0) {
        pos = (pos + 7) & ~7ull;
        long l = bits(16), nl = bits(16);
        if (l < 0 || nl < 0) return TRUNCATED;
        if ((l ^ 0xffff) != nl) return BAD_STORED;
        if (uint64_t(n) - pos / 8 < uint64_t(l)) return TRUNCATED;
        if (out.size() + size_t(l) > cap) return NO_SPACE;
        out.insert(out.end(), s + pos / 8, s + pos / 8 + l);
        pos += uint64_t(l) * 8;
      } else {
        Codes lit, dist;
        if (type == 1) {
          std::vector<int> a(288), b(32, 5);
          for (int i = 0; i < 288; i++)
            a[size_t(i)] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8;
          lit.build(a);
          dist.build(b);
        } else {
          long hl = bits(5), hd = bits(5), hc = bits(4);
          if (hl < 0 || hd < 0 || hc < 0) return TRUNCATED;
          std::vector<int> cl(19, 0);
          for (int i = 0; i < hc + 4; i++) {
            long v = bits(3);
            if (v < 0) return TRUNCATED;
            cl[size_t(ORD[i])] = int(v);
          }
          Codes c;
          c.build(cl);
          oversub |= c.oversub;
          incomplete |= c.incomplete;
          dubious |= c.oversub || c.incomplete || hl > 29 || hd > 29;
          std::vector<int> ls;
          size_t tot = size_t(hl) + 257 + size_t(hd) + 1;
          while (ls.size() < tot) {
            int k;
            int y = symbol(c, k);
            if (y == -1) return TRUNCATED;
            if (y == -2) return UNASSIGNED_CODE;
            if (y < 16) {
              ls.push_back(y);
              continue;
            }
            int v = 0;
            if (y == 16) {
              if (ls.empty()) return NO_PREVIOUS;
              v = ls.back();
            }
            long r = bits(y == 16 ? 2 : y == 17 ? 3 : 7);
            if (r < 0) return TRUNCATED;
            r += y == 18 ? 11 : 3;
            if (ls.size() + size_t(r) > tot) return LIST_TOO_LONG;
            ls.insert(ls.end(), size_t(r), v);
          }
          std::vector<int> a(ls.begin(), ls.begin() + hl + 257),
              b(ls.begin() + hl + 257, ls.end());
          lit.build(a);
          dist.build(b);
          oversub |= lit.oversub | dist.oversub;
          incomplete |= lit.incomplete | dist.incomplete;
          dubious |= lit.oversub || dist.oversub || lit.incomplete || a[256] == 0;
          // one distance code of one bit is the one incomplete set allowed
          if (dist.incomplete && dist.used > 0 &&
              !(dist.used == 1 && dist.m.begin()->first >> 16 == 1))
            dubious = true;
        }
        for (;;) {
          uint64_t p0 = pos;
          int k = 0;
          int y = symbol(lit, k);
          if (y == -1) return TRUNCATED;
          if (y == -2) return UNASSIGNED_CODE;
          if (y == 256) break;
          if (y < 256) {
            if (out.size() >= cap) return NO_SPACE;
            if (on_literal) on_literal(p0, k, lit, y);
            out.push_back(uint8_t(y));
            continue;
          }
          if (y > 285) return OUT_OF_RANGE;
          long le = bits(LE[y - 257]);
          if (le < 0) return TRUNCATED;
          long L = LB[y - 257] + le;
          int d = symbol(dist, k);
          if (d == -1) return TRUNCATED;
          if (d == -2) return UNASSIGNED_CODE;
          if (d > 29) return OUT_OF_RANGE;
          long de = bits(DE[d]);
          if (de < 0) return TRUNCATED;
          long D = DB[d] + de;
          if (size_t(D) > out.size()) return BAD_DISTANCE;
          if (out.size() + size_t(L) > cap) return NO_SPACE;
          for (long i = 0; i < L; i++) out.push_back(out[out.size() - size_t(D)]);
        }
      }
      if (fin) {
        trailing = (pos + 7) / 8 < n;
        return OK;
      }
    }
  }
};
