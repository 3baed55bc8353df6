#pragma once
#include <cstddef>
#include <cstdint>

enum Kind {
  K_TO_ASCII_B,
  K_TO_ASCII_S,
  K_TO_UNI_B,
  K_TO_UNI_S,
  K_FORBIDDEN,
  K_ASCII_MAP,
  K_MAP_B,
  K_MAP_S,
  K_IS_NFC,
  K_NORMALIZE,
  K_PUNY_DEC,
  K_PUNY_VERIFY,
  K_PUNY_ENC,
  K_LABEL_VALID,
  K_NAME_CP,
  K_U8TO32,
  K_U32TO8,
  K_LEN8,
  K_LEN32,
  K_API_COUNT,
  // life-cycle events that appear in a plan like calls do
  K_EV_CTORS = 32,   // the library's static initialisers run
  K_EV_DTORS,        // exit handlers and static destructors of the library run
  K_EV_TLS_DTORS,    // thread-local destructors of this thread run
  K_EV_RELEASE,      // this thread releases its output objects
  K_EV_HEAL,         // stop injecting allocation failures
};

enum { RC_BAD_ALLOC = 100, RC_OTHER_EXC = 101 };

struct ShimArgs {
  const void* in;
  size_t n;
  unsigned char* raw;
  size_t rawcap;
};
struct ShimRes {
  int rc;
  const void* ptr;
  size_t len;
  uint64_t val;
};

extern "C" {
void shim_call(int kind, const ShimArgs* a, void* slot, ShimRes* r);
void* shim_slot_new();
void shim_slot_free(void*);
void shim_slot_fill(void*, const char*, size_t);

void ref_shim_call(int kind, const ShimArgs* a, void* slot, ShimRes* r);
void* ref_shim_slot_new();
void ref_shim_slot_free(void*);
void ref_shim_slot_fill(void*, const char*, size_t);
}
