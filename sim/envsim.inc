// The surroundings of a call that its answer must not depend on: the process
// locale, environment variables, dates, random numbers, processor and process
// numbers. With Spec::env = 0 they are those of a plain process in the C locale.
static uint64_t env_of(uint64_t k) {
  return g_spec && g_spec->env ? mix64(uint64_t(g_spec->env), k) : 0;
}
static bool in_lib() { return g_cur && g_cur->insim; }
static uint64_t asked(uint64_t k) {
  if (!in_lib()) return 0;
  g_cur->steps++;
  if (g_spec->env) sh->ctr[C_ENVASK]++;
  return env_of(k);
}
// 0 C, 1 Latin-1, 2 Turkish (Latin-5), 3 UTF-8
static int env_locale() { return g_spec && g_spec->env ? int(env_of(1) % 4) : 0; }
struct LocTab {
  unsigned short b[384];
  int32_t lo[384], up[384];
  const unsigned short* pb;
  const int32_t *plo, *pup;
};
static LocTab* loc_tab(int k) {
  static LocTab tab[3];
  if (k == 3) k = 0;
  LocTab& t = tab[k];
  if (!t.pb) {
    const unsigned short* cb = *__ctype_b_loc();
    const int32_t *cl = *__ctype_tolower_loc(), *cu = *__ctype_toupper_loc();
    for (int i = -128; i < 256; i++) {
      t.b[i + 128] = cb[i];
      t.lo[i + 128] = cl[i];
      t.up[i + 128] = cu[i];
    }
    auto set = [&](int c, unsigned short b, int lo, int up) {
      for (int i : {c, c - 256})
        if (i >= -128 && (i >= 0 || i != -1) && (c > 127 || i == c)) {
          t.b[i + 128] = b;
          t.lo[i + 128] = lo;
          t.up[i + 128] = up;
        }
    };
    const unsigned short A = cb['A'] & cb['G'], a = cb['a'] & cb['g'], P = cb['!'];
    if (k) {
      for (int c = 0xA1; c < 0xC0; c++) set(c, P, c, c);
      for (int c = 0xC0; c < 0xDF; c++) set(c, A, c + 32, c);
      for (int c = 0xDF; c < 0x100; c++) set(c, a, c, c == 0xDF || c == 0xFF ? c : c - 32);
      set(0xD7, P, 0xD7, 0xD7);
      set(0xF7, P, 0xF7, 0xF7);
    }
    if (k == 2) {
      set('I', cb['I'], 0xFD, 'I');
      set('i', cb['i'], 'i', 0xDD);
      set(0xDD, A, 'i', 0xDD);
      set(0xFD, a, 0xFD, 'I');
    }
    t.plo = t.lo + 128;
    t.pup = t.up + 128;
    t.pb = t.b + 128;
  }
  return &t;
}
static LocTab* here() {
  asked(1);
  return loc_tab(in_lib() ? env_locale() : 0);
}
#define CTYPE(name, bit)                                              \
  int sim_##name(int c) {                                             \
    if (c < -128 || c > 255) return 0;                                \
    return here()->pb[c] & (unsigned short)bit;                       \
  }
static long wlow(long c) {
  int k = in_lib() ? (asked(1), env_locale()) : 0;
  if (k == 2 && c == 'I') return 0x131;
  if (c >= 'A' && c <= 'Z') return c + 32;
  if (!k || c < 0x80) return c;
  if (c >= 0xC0 && c <= 0xDE && c != 0xD7) return c + 32;
  if (c == 0x130) return 'i';
  if (c >= 0x391 && c <= 0x3A9 && c != 0x3A2) return c + 32;
  if (c >= 0x410 && c <= 0x42F) return c + 32;
  if (c >= 0x400 && c <= 0x40F) return c + 80;
  if (c >= 0xFF21 && c <= 0xFF3A) return c + 32;
  return c;
}
static long wup(long c) {
  int k = in_lib() ? (asked(1), env_locale()) : 0;
  if (k == 2 && c == 'i') return 0x130;
  if (c >= 'a' && c <= 'z') return c - 32;
  if (!k || c < 0x80) return c;
  if (c >= 0xE0 && c <= 0xFE && c != 0xF7) return c - 32;
  if (c == 0x131) return 'I';
  if (c >= 0x3B1 && c <= 0x3C9 && c != 0x3C2) return c - 32;
  if (c >= 0x430 && c <= 0x44F) return c - 32;
  return c;
}
static bool walpha(long c) {
  int k = in_lib() ? (asked(1), env_locale()) : 0;
  if ((c | 32) >= 'a' && (c | 32) <= 'z') return true;
  if (!k || c < 0x80) return false;
  return (c >= 0xC0 && c < 0x250) || (c >= 0x370 && c < 0x530) || (c >= 0x5D0 && c < 0x5EB) ||
         (c >= 0x620 && c < 0x64B) || (c >= 0x900 && c < 0x1000) || (c >= 0x3040 && c < 0xA000) ||
         (c >= 0xAC00 && c < 0xD7A4);
}
extern "C" {
CTYPE(isalpha, _ISalpha)
CTYPE(isalnum, _ISalnum)
CTYPE(isupper, _ISupper)
CTYPE(islower, _ISlower)
CTYPE(isdigit, _ISdigit)
CTYPE(isxdigit, _ISxdigit)
CTYPE(isspace, _ISspace)
CTYPE(isblank, _ISblank)
CTYPE(iscntrl, _IScntrl)
CTYPE(isprint, _ISprint)
CTYPE(isgraph, _ISgraph)
CTYPE(ispunct, _ISpunct)
int sim_tolower(int c) { return c < -128 || c > 255 ? c : here()->plo[c]; }
int sim_toupper(int c) { return c < -128 || c > 255 ? c : here()->pup[c]; }
const unsigned short** sim_ctype_b() { return &here()->pb; }
const int32_t** sim_ctype_tolower() { return &here()->plo; }
const int32_t** sim_ctype_toupper() { return &here()->pup; }
unsigned sim_towlower(unsigned c) { return unsigned(wlow(c)); }
unsigned sim_towupper(unsigned c) { return unsigned(wup(c)); }
int sim_iswalpha(unsigned c) { return walpha(c); }
int sim_iswalnum(unsigned c) { return walpha(c) || (c >= '0' && c <= '9'); }
int sim_iswupper(unsigned c) { return walpha(c) && wlow(c) != long(c); }
int sim_iswlower(unsigned c) { return walpha(c) && wup(c) != long(c); }
int sim_strncasecmp(const char* a, const char* b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    sim_memchr(a + i, 0, 1);
    sim_memchr(b + i, 0, 1);
    int x = sim_tolower(uint8_t(a[i])), y = sim_tolower(uint8_t(b[i]));
    if (x != y) return x - y;
    if (!a[i]) break;
  }
  return 0;
}
int sim_strcasecmp(const char* a, const char* b) { return sim_strncasecmp(a, b, SIZE_MAX); }
char* sim_getenv(const char* name) {
  uint64_t h = 77;
  for (const char* p = name; *p; p++) h = mix64(h, uint8_t(*p));
  static char one[] = "1", none[] = "", word[] = "strict";
  uint64_t e = asked(h);
  if (!in_lib() || !e) return nullptr;
  switch (e % 5) {
    case 0: return nullptr;
    case 1: return none;
    case 2: return word;
    default: return one;
  }
}
char* sim_secure_getenv(const char* name) { return sim_getenv(name); }
time_t sim_time(time_t* o) {
  timespec ts;
  sim_clock_gettime(CLOCK_REALTIME, &ts);
  if (o) *o = ts.tv_sec;
  return ts.tv_sec;
}
int sim_gettimeofday(timeval* tv, void*) {
  timespec ts;
  sim_clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
clock_t sim_clock() {
  timespec ts;
  sim_clock_gettime(CLOCK_MONOTONIC, &ts);
  return clock_t(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}
static uint64_t rnd() {
  asked(2);
  return in_lib() ? mix64(env_of(3) + 1, ++g_cur->nrand) : 0;
}
int sim_rand() { return int(rnd() & 0x7fffffff); }
long sim_random() { return long(rnd() & 0x7fffffff); }
unsigned sim_random_device(void*) { return unsigned(rnd()); }
ssize_t sim_getrandom(void* p, size_t n, unsigned) {
  for (size_t i = 0; i < n; i++) static_cast<uint8_t*>(p)[i] = uint8_t(rnd());
  return ssize_t(n);
}
int sim_getentropy(void* p, size_t n) { return int(sim_getrandom(p, n, 0)) * 0; }
int sim_getpid() { return 1000 + int(asked(4) % 30000); }
int sim_getppid() { return 1 + int(asked(5) % 900); }
int sim_gettid() { return 1000 + int(asked(4) % 30000) + (g_cur ? g_cur->id : 0); }
int sim_sched_getcpu() { return in_lib() ? int(mix64(asked(6) + 1, ++g_cur->nrand) % 64) : 0; }
unsigned sim_hardware_concurrency() { return in_lib() ? 1 + unsigned(asked(7) % 64) : 1; }
int sim_get_nprocs() { return int(sim_hardware_concurrency()); }
}
