// Stand-in for the external transcoding library simdutf, which is not
// available offline: the four functions the library calls, as documented.
#pragma once
#include <cstddef>
#include <cstdint>

namespace simdutf {

inline size_t utf32_length_from_utf8(const char* s, size_t n) noexcept {
  size_t k = 0;
  for (size_t i = 0; i < n; i++) k += (static_cast<unsigned char>(s[i]) & 0xC0) != 0x80;
  return k;
}
inline size_t utf8_length_from_utf32(const char32_t* s, size_t n) noexcept {
  size_t k = 0;
  for (size_t i = 0; i < n; i++)
    k += s[i] < 0x80 ? 1 : s[i] < 0x800 ? 2 : s[i] < 0x10000 ? 3 : 4;
  return k;
}
// 0 unless the whole input is well-formed
inline size_t convert_utf8_to_utf32(const char* s, size_t n, char32_t* out) noexcept {
  size_t w = 0;
  for (size_t i = 0; i < n;) {
    auto at = [&](size_t k) { return static_cast<unsigned char>(s[k]); };
    uint32_t c = at(i);
    size_t len = c < 0x80 ? 1 : c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0;
    if (!len || n - i < len) return 0;
    if (len > 1) c &= 0xFFu >> (len + 1);
    for (size_t k = 1; k < len; k++) {
      if ((at(i + k) & 0xC0) != 0x80) return 0;
      c = c << 6 | (at(i + k) & 0x3F);
    }
    static const uint32_t least[] = {0, 0, 0x80, 0x800, 0x10000};
    if (c < least[len] || c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return 0;
    out[w++] = c;
    i += len;
  }
  return w;
}
inline size_t convert_utf32_to_utf8(const char32_t* s, size_t n, char* out) noexcept {
  char* o = out;
  for (size_t i = 0; i < n; i++) {
    uint32_t c = s[i];
    if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return 0;
    if (c < 0x80) {
      *o++ = char(c);
    } else if (c < 0x800) {
      *o++ = char(0xC0 | c >> 6);
      *o++ = char(0x80 | (c & 0x3F));
    } else if (c < 0x10000) {
      *o++ = char(0xE0 | c >> 12);
      *o++ = char(0x80 | (c >> 6 & 0x3F));
      *o++ = char(0x80 | (c & 0x3F));
    } else {
      *o++ = char(0xF0 | c >> 18);
      *o++ = char(0x80 | (c >> 12 & 0x3F));
      *o++ = char(0x80 | (c >> 6 & 0x3F));
      *o++ = char(0x80 | (c & 0x3F));
    }
  }
  return size_t(o - out);
}

}  // namespace simdutf
