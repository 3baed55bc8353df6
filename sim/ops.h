// Seeded generation of calls, their expected results, and the judgement of a
// result against what its call returns alone in a fresh process.
#pragma once
#include <string>
#include <vector>

#include "rt.h"

constexpr size_t kLimit = 16384;   // documented maximum domain length in bytes

struct Ref {
  int rc = -1;
  std::string out;
};
struct PoolOp {
  Op op;
  Ref ref;
  bool tablefree = false;    // the property list says it needs no tables
  bool has_expect = false;   // expected result known without the library
  Ref expect;
  bool needs = false;        // right answer shows that tables were available
  bool overlimit = false;
  bool big = false;
  bool dense = false;        // every code point has a long mapping
  bool heavy = false;        // shaped to make the library work hard
  bool twin = false;         // one of two texts that a short fingerprint confuses
  int ace = 0;               // number of ACE labels
  int group = -1;            // similar operations share a group
  int scale = -1;            // four calls of one shape, each twice as long as the last
};
std::string u8(const std::u32string& s);
std::string u32b(const std::u32string& s);
std::string puny(const std::u32string& s);
std::vector<PoolOp> gen_pool(Rng& r, int n);
void gen_heavy(Rng& r, std::vector<PoolOp>& v, int n);
void gen_aces(Rng& r, std::vector<PoolOp>& v, int n);
void gen_mid(Rng& r, std::vector<PoolOp>& v, int n);
void gen_scale(Rng& r, std::vector<PoolOp>& v, int n);
bool works_linearly(const PoolOp& p);
uint64_t work_bound(const PoolOp& p);  // steps one call may take, expansion aside
void classify(PoolOp& p);            // fills everything but ref
void classify_after_ref(PoolOp& p);
bool is_closed(const Op& op, const Ref& ref, const OpRes& res);
enum Verdict { V_RIGHT, V_CLOSED, V_BADALLOC, V_OTHEREXC, V_WRONG };
Verdict judge(const PoolOp& p, const OpRes& r);
const char* kind_name(int k);
int kind_by_name(const std::string& s);
std::string show(const std::string& bytes, size_t max = 60);
