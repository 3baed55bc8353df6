// The library under test plus a thin C entry point. Compiled twice from
// /repo's working tree: once instrumented for the simulator and once
// plain (reference copy, used only for running one call alone in a fresh
// process).  It names nothing beyond the public headers; check.py finds the
// stored tables in the object file.
#ifdef SHIM_AMALGAMATED
#include "ada_idna.cpp"
#else
#include "idna.cpp"
#endif

#include <cstring>
#include <new>
#include <string>

#include "shim.h"

#ifndef SHIM
#define SHIM(x) x
#endif

namespace {
struct Slot {
  std::string s;
  std::u32string u;
};
std::string_view sv(const ShimArgs* a) {
  return {static_cast<const char*>(a->in), a->n};
}
std::u32string_view uv(const ShimArgs* a) {
  return {static_cast<const char32_t*>(a->in), a->n / 4};
}
void ret(ShimRes* r, const std::string& s, size_t from = 0) {
  r->ptr = s.data() + from;
  r->len = s.size() - from;
}
void ret(ShimRes* r, const std::u32string& s, size_t from = 0) {
  r->ptr = s.data() + from;
  r->len = (s.size() - from) * 4;
}
}  // namespace

namespace idn = ada::idna;

static void call(int kind, const ShimArgs* a, Slot* sl, ShimRes* r) {
  switch (kind) {
    case K_TO_ASCII_B:
      r->rc = idn::to_ascii(sv(a), sl->s);
      ret(r, sl->s);
      break;
    case K_TO_ASCII_S:
      sl->s = idn::to_ascii(sv(a));
      r->rc = 1;
      ret(r, sl->s);
      break;
    case K_TO_UNI_B:
      r->rc = idn::to_unicode(sv(a), sl->s);
      ret(r, sl->s);
      break;
    case K_TO_UNI_S:
      sl->s = idn::to_unicode(sv(a));
      r->rc = 1;
      ret(r, sl->s);
      break;
    case K_FORBIDDEN:
      r->rc = idn::contains_forbidden_domain_code_point(sv(a));
      break;
    case K_ASCII_MAP:
      idn::ascii_map(reinterpret_cast<char*>(a->raw), a->rawcap);
      r->rc = 1;
      r->ptr = a->raw;
      r->len = a->rawcap;
      break;
    case K_MAP_B:
      r->rc = idn::map(uv(a), sl->u);
      ret(r, sl->u);
      break;
    case K_MAP_S:
      sl->u = idn::map(uv(a));
      r->rc = 1;
      ret(r, sl->u);
      break;
    case K_IS_NFC:
      r->rc = idn::is_already_nfc(uv(a));
      break;
    case K_NORMALIZE:
      sl->u.assign(uv(a));
      r->rc = idn::normalize(sl->u);
      ret(r, sl->u);
      break;
    case K_PUNY_DEC: {
      size_t old = sl->u.size();
      r->rc = idn::punycode_to_utf32(sv(a), sl->u);
      if (r->rc) ret(r, sl->u, old);
      break;
    }
    case K_PUNY_VERIFY:
      r->rc = idn::verify_punycode(sv(a));
      break;
    case K_PUNY_ENC: {
      size_t old = sl->s.size();
      r->rc = idn::utf32_to_punycode(uv(a), sl->s);
      if (r->rc) ret(r, sl->s, old);
      break;
    }
    case K_LABEL_VALID:
      r->rc = idn::is_label_valid(uv(a));
      break;
    case K_NAME_CP: {
      // input: (code point, first) pairs; one result byte each
      const char32_t* p = static_cast<const char32_t*>(a->in);
      size_t n = a->n / 8;
      for (size_t i = 0; i < n; i++)
        a->raw[i] = idn::valid_name_code_point(p[2 * i], p[2 * i + 1] != 0);
      r->rc = 1;
      r->ptr = a->raw;
      r->len = n;
      break;
    }
    case K_U8TO32: {
      size_t w = idn::utf8_to_utf32(static_cast<const char*>(a->in), a->n,
                                    reinterpret_cast<char32_t*>(a->raw));
      r->rc = 1;
      r->ptr = a->raw;
      r->len = w * 4;
      break;
    }
    case K_U32TO8: {
      size_t w =
          idn::utf32_to_utf8(static_cast<const char32_t*>(a->in), a->n / 4,
                             reinterpret_cast<char*>(a->raw));
      r->rc = 1;
      r->ptr = a->raw;
      r->len = w;
      break;
    }
    case K_LEN8: {
      r->val = idn::utf8_length_from_utf32(
          static_cast<const char32_t*>(a->in), a->n / 4);
      r->rc = 1;
      r->ptr = &r->val;
      r->len = 8;
      break;
    }
    case K_LEN32: {
      r->val =
          idn::utf32_length_from_utf8(static_cast<const char*>(a->in), a->n);
      r->rc = 1;
      r->ptr = &r->val;
      r->len = 8;
      break;
    }
    default:
      r->rc = -1;
  }
}

extern "C" {

void SHIM(shim_call)(int kind, const ShimArgs* a, void* slot, ShimRes* r) {
  r->rc = -1;
  r->ptr = nullptr;
  r->len = 0;
  try {
    call(kind, a, static_cast<Slot*>(slot), r);
  } catch (const std::bad_alloc&) {
    r->rc = RC_BAD_ALLOC;
    r->ptr = nullptr;
    r->len = 0;
  } catch (...) {
    r->rc = RC_OTHER_EXC;
    r->ptr = nullptr;
    r->len = 0;
  }
}

void* SHIM(shim_slot_new)() { return new Slot; }
void SHIM(shim_slot_free)(void* p) { delete static_cast<Slot*>(p); }
void SHIM(shim_slot_fill)(void* p, const char* d, size_t n) {
  Slot* s = static_cast<Slot*>(p);
  s->s.assign(d, n);
  s->u.clear();
  for (size_t i = 0; i < n; i++) s->u.push_back(0x100u + (unsigned char)d[i]);
}

}  // extern "C"
