// Hash-consed bit-vector expressions (width 1..64) with local simplification and interval analysis.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <memory>
#include <algorithm>
#include <functional>

enum Op : uint8_t { O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_NOT };

struct Node;
struct V {
  const Node *n = nullptr; uint64_t c = 0; uint32_t w = 0;
  bool isC() const { return !n; }
  bool isT() const { return !n && w == 1 && c == 1; }
  bool isF() const { return !n && w == 1 && c == 0; }
  bool operator==(const V &o) const { return n == o.n && c == o.c && w == o.w; }
  bool operator!=(const V &o) const { return !(*this == o); }
};
typedef std::vector<uint64_t> BitSet;

struct Node {
  Op op; uint8_t depthsat; uint16_t w; uint32_t lo; uint32_t id; uint32_t hash;
  V k[3];
  uint64_t umin, umax; int64_t smin, smax;
  const BitSet *vs;
  mutable void *z;            // cached Z3_ast
  mutable uint32_t ev; mutable uint64_t evv;  // evaluation cache
};

static inline uint64_t MASK(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t SX(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= MASK(w); return (int64_t)((v ^ m) - m); }
static inline int64_t SMIN(unsigned w) { return w >= 64 ? INT64_MIN : -(int64_t)(1ull << (w - 1)); }
static inline int64_t SMAX(unsigned w) { return w >= 64 ? INT64_MAX : (int64_t)((1ull << (w - 1)) - 1); }

static inline V C(uint64_t v, unsigned w) { V r; r.c = v & MASK(w); r.w = w; return r; }
static inline V TRUE_() { return C(1, 1); }
static inline V FALSE_() { return C(0, 1); }

struct VarInfo { std::string name; unsigned idx; unsigned w; bool undef; const Node *n; };
extern std::vector<VarInfo> g_vars;
extern uint64_t g_nodes;

V mkVar(const std::string &name, unsigned idx, unsigned w, bool undef = false, uint64_t umax = ~0ull); // umax is asserted with every query
V mkBin(Op op, V a, V b);
V mkNot(V a);
V mkIte(V c, V a, V b);
V mkConcat(V hi, V lo);
V mkExtract(V x, unsigned hi, unsigned lo);
V mkZext(V x, unsigned w);
V mkSext(V x, unsigned w);
V mkEq(V a, V b);
static inline V mkAdd(V a, V b) { return mkBin(O_ADD, a, b); }
static inline V mkSub(V a, V b) { return mkBin(O_SUB, a, b); }
static inline V mkMul(V a, V b) { return mkBin(O_MUL, a, b); }
static inline V mkAnd(V a, V b) { return mkBin(O_AND, a, b); }
static inline V mkOr(V a, V b) { return mkBin(O_OR, a, b); }
static inline V mkXor(V a, V b) { return mkBin(O_XOR, a, b); }
static inline V mkUlt(V a, V b) { return mkBin(O_ULT, a, b); }
static inline V mkUle(V a, V b) { return mkBin(O_ULE, a, b); }
static inline V mkSlt(V a, V b) { return mkBin(O_SLT, a, b); }
static inline V mkSle(V a, V b) { return mkBin(O_SLE, a, b); }
static inline V mkNe(V a, V b) { return mkNot(mkEq(a, b)); }

static inline uint64_t UMIN(const V &v) { return v.n ? v.n->umin : v.c; }
static inline uint64_t UMAX(const V &v) { return v.n ? v.n->umax : v.c; }
static inline int64_t SMINV(const V &v) { return v.n ? v.n->smin : SX(v.c, v.w); }
static inline int64_t SMAXV(const V &v) { return v.n ? v.n->smax : SX(v.c, v.w); }
unsigned tzOf(V v); // known trailing zero bits

typedef std::shared_ptr<std::vector<uint64_t>> Model;  // var id -> value
uint64_t evalV(V v, const Model &m);
const BitSet *varsOf(const V &v);
V canon(V v); // equivalent canonical form
std::string showV(V v, int depth = 6);
