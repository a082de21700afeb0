#include "expr.hh"
#include <cassert>
std::vector<VarInfo> g_vars;
uint64_t g_nodes = 0;

// ---------- interned bit sets
namespace {
struct BSHash { size_t operator()(const BitSet &b) const { size_t h = 1469598103934665603ull; for (auto x : b) { h ^= x; h *= 1099511628211ull; } return h; } };
std::unordered_set<BitSet, BSHash> bsPool;
const BitSet *emptyBS() { static const BitSet *e = &*bsPool.insert(BitSet()).first; return e; }
struct PH { size_t operator()(const std::pair<const void*, const void*> &p) const { return (size_t)p.first * 31 ^ (size_t)p.second * 0x9e3779b97f4a7c15ull; } };
std::unordered_map<std::pair<const void*, const void*>, const BitSet*, PH> bsUnion;
const BitSet *bsOr(const BitSet *a, const BitSet *b) {
  if (a == b || b->empty()) return a; if (a->empty()) return b;
  if (a > b) std::swap(a, b);
  auto key = std::make_pair((const void*)a, (const void*)b);
  auto it = bsUnion.find(key); if (it != bsUnion.end()) return it->second;
  BitSet r = a->size() > b->size() ? *a : *b; const BitSet &s = a->size() > b->size() ? *b : *a;
  for (size_t i = 0; i < s.size(); i++) r[i] |= s[i];
  const BitSet *p = &*bsPool.insert(std::move(r)).first;
  bsUnion[key] = p; return p;
}
struct NH { size_t operator()(const Node *n) const { return n->hash; } };
struct NE { bool operator()(const Node *a, const Node *b) const {
  return a->op == b->op && a->w == b->w && a->lo == b->lo && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
std::unordered_set<const Node*, NH, NE> pool;
std::deque<Node> arena;

inline uint32_t hv(const V &v) { uint64_t h = v.n ? (uint64_t)v.n->id * 0x9e3779b97f4a7c15ull + 77 : v.c * 0xc2b2ae3d27d4eb4full + v.w; return (uint32_t)(h ^ (h >> 29)); }

void fromU(Node &n) { // derive signed from unsigned bounds
  unsigned w = n.w; uint64_t half = 1ull << (w - 1);
  if (n.umax < half) { n.smin = (int64_t)n.umin; n.smax = (int64_t)n.umax; }
  else if (n.umin >= half) { n.smin = SX(n.umin, w); n.smax = SX(n.umax, w); }
  else { n.smin = SMIN(w); n.smax = SMAX(w); }
}
void tightenUfromS(Node &n) {
  if (n.smin >= 0) { n.umin = std::max<uint64_t>(n.umin, n.smin); n.umax = std::min<uint64_t>(n.umax, n.smax); }
  else if (n.smax < 0) { n.umin = std::max<uint64_t>(n.umin, (uint64_t)n.smin & MASK(n.w)); n.umax = std::min<uint64_t>(n.umax, (uint64_t)n.smax & MASK(n.w)); }
}
uint64_t fillBits(uint64_t x) { x |= x >> 1; x |= x >> 2; x |= x >> 4; x |= x >> 8; x |= x >> 16; x |= x >> 32; return x; }
typedef __int128 I;

void ranges(Node &n) {
  unsigned w = n.w; n.umin = 0; n.umax = MASK(w); n.smin = SMIN(w); n.smax = SMAX(w);
  const V &a = n.k[0], &b = n.k[1], &c = n.k[2];
  switch (n.op) {
  case O_ADD: {
    if ((I)UMAX(a) + (I)UMAX(b) <= (I)MASK(w)) { n.umin = UMIN(a) + UMIN(b); n.umax = UMAX(a) + UMAX(b); }
    fromU(n);
    I lo = (I)SMINV(a) + SMINV(b), hi = (I)SMAXV(a) + SMAXV(b);
    if (lo >= SMIN(w) && hi <= SMAX(w)) { n.smin = std::max<int64_t>(n.smin, (int64_t)lo); n.smax = std::min<int64_t>(n.smax, (int64_t)hi); }
    tightenUfromS(n); break; }
  case O_SUB: {
    if (UMIN(a) >= UMAX(b)) { n.umin = UMIN(a) - UMAX(b); n.umax = UMAX(a) - UMIN(b); }
    fromU(n);
    I lo = (I)SMINV(a) - SMAXV(b), hi = (I)SMAXV(a) - SMINV(b);
    if (lo >= SMIN(w) && hi <= SMAX(w)) { n.smin = std::max<int64_t>(n.smin, (int64_t)lo); n.smax = std::min<int64_t>(n.smax, (int64_t)hi); }
    tightenUfromS(n); break; }
  case O_MUL: {
    unsigned __int128 p = (unsigned __int128)UMAX(a) * UMAX(b);
    if (p <= MASK(w)) { n.umin = UMIN(a) * UMIN(b); n.umax = (uint64_t)p; }
    fromU(n);
    I q[4] = { (I)SMINV(a) * SMINV(b), (I)SMINV(a) * SMAXV(b), (I)SMAXV(a) * SMINV(b), (I)SMAXV(a) * SMAXV(b) };
    I lo = *std::min_element(q, q + 4), hi = *std::max_element(q, q + 4);
    if (a == b) { hi = std::max(q[0], q[3]); lo = 0; } // a square
    if (lo >= SMIN(w) && hi <= SMAX(w)) { n.smin = std::max<int64_t>(n.smin, (int64_t)lo); n.smax = std::min<int64_t>(n.smax, (int64_t)hi); }
    tightenUfromS(n); break; }
  case O_UDIV: if (b.isC() && b.c) { n.umin = UMIN(a) / b.c; n.umax = UMAX(a) / b.c; } else if (UMIN(b) > 0) n.umax = UMAX(a) / UMIN(b); fromU(n); break;
  case O_UREM: if (UMAX(b) && UMIN(b)) n.umax = std::min(UMAX(a), UMAX(b) - 1); fromU(n); break;
  case O_SDIV: if (b.isC() && SX(b.c, w) > 0) { n.smin = SMINV(a) / SX(b.c, w); n.smax = SMAXV(a) / SX(b.c, w); tightenUfromS(n); }
    else if (SMINV(b) > 0) { n.smin = SMINV(a) < 0 ? SMINV(a) : 0; n.smax = SMAXV(a) > 0 ? SMAXV(a) : 0; tightenUfromS(n); } break;
  case O_SREM: if (b.isC() && SX(b.c, w) > 0) { int64_t m = SX(b.c, w) - 1; n.smin = SMINV(a) >= 0 ? 0 : std::max(-m, SMINV(a)); n.smax = SMAXV(a) <= 0 ? 0 : std::min(m, SMAXV(a)); tightenUfromS(n); } break;
  case O_AND: n.umax = std::min(UMAX(a), UMAX(b)); fromU(n); break;
  case O_OR: n.umin = std::max(UMIN(a), UMIN(b)); n.umax = fillBits(UMAX(a) | UMAX(b)); fromU(n);
    if (SMINV(a) >= 0 && SMINV(b) >= 0) {} break;
  case O_XOR: n.umax = fillBits(UMAX(a) | UMAX(b)); fromU(n); break;
  case O_LSHR: n.umax = UMAX(a); if (UMIN(b) < 64) n.umax >>= UMIN(b); fromU(n); break;
  case O_ASHR: n.smin = std::min<int64_t>(SMINV(a), 0); n.smax = std::max<int64_t>(SMAXV(a), 0); if (SMINV(a) >= 0) { n.smin = 0; } tightenUfromS(n); break;
  case O_ITE: n.umin = std::min(UMIN(b), UMIN(c)); n.umax = std::max(UMAX(b), UMAX(c)); n.smin = std::min(SMINV(b), SMINV(c)); n.smax = std::max(SMAXV(b), SMAXV(c)); break;
  case O_CONCAT: n.umin = (UMIN(a) << b.w) | UMIN(b); n.umax = (UMAX(a) << b.w) | UMAX(b);
    // bounds of concat: hi range dominates
    n.umin = (UMIN(a) << b.w) + UMIN(b); n.umax = (UMAX(a) << b.w) + UMAX(b); fromU(n);
    { I lo = ((I)SMINV(a) << b.w) + (I)UMIN(b), hi = ((I)SMAXV(a) << b.w) + (I)UMAX(b); if (lo >= SMIN(w) && hi <= SMAX(w)) { n.smin = std::max<int64_t>(n.smin, (int64_t)lo); n.smax = std::min<int64_t>(n.smax, (int64_t)hi); } } break;
  case O_EXTRACT: {
    unsigned lo = n.lo, hi = lo + w - 1;
    if (hi == a.w - 1) { n.umin = UMIN(a) >> lo; n.umax = UMAX(a) >> lo; fromU(n);
      n.smin = std::max(n.smin, SMINV(a) >> lo); n.smax = std::min(n.smax, SMAXV(a) >> lo); }
    else {
      uint64_t l = UMIN(a) >> lo, h = UMAX(a) >> lo;
      if ((l & ~MASK(w)) == (h & ~MASK(w))) { n.umin = l & MASK(w); n.umax = h & MASK(w); }
      fromU(n);
      int64_t sl = SMINV(a) >> lo, sh = SMAXV(a) >> lo;
      if (sl >= SMIN(w) && sh <= SMAX(w)) { n.smin = std::max(n.smin, sl); n.smax = std::min(n.smax, sh); }
    }
    tightenUfromS(n); break; }
  case O_ZEXT: n.umin = UMIN(a); n.umax = UMAX(a); fromU(n); break;
  case O_SEXT: n.smin = SMINV(a); n.smax = SMAXV(a); tightenUfromS(n); break;
  default: break;
  }
}

V intern(Op op, unsigned w, V a, V b = V(), V c = V(), unsigned lo = 0) {
  Node n; memset((void*)&n, 0, sizeof n);
  n.op = op; n.w = w; n.lo = lo; n.k[0] = a; n.k[1] = b; n.k[2] = c;
  n.hash = op * 0x9e3779b1u + w * 0x85ebca6bu + lo * 0xc2b2ae35u + hv(a) * 3 + hv(b) * 7919 + hv(c) * 104729;
  auto it = pool.find(&n);
  const Node *r;
  if (it != pool.end()) r = *it;
  else {
    ranges(n);
    n.id = g_nodes++; n.z = nullptr; n.ev = 0;
    n.vs = bsOr(bsOr(varsOf(a), varsOf(b)), varsOf(c));
    arena.push_back(n); r = &arena.back(); pool.insert(r);
  }
  V v; v.n = r; v.w = w;
  if (r->umin == r->umax) return C(r->umin, w);
  return v;
}
}

const BitSet *varsOf(const V &v) { return v.n ? v.n->vs : emptyBS(); }

V mkVar(const std::string &name, unsigned idx, unsigned w, bool undef, uint64_t umax) {
  Node n; memset((void*)&n, 0, sizeof n);
  n.op = O_VAR; n.w = w; n.lo = g_vars.size(); n.id = g_nodes++;
  n.umin = 0; n.umax = std::min(umax, MASK(w)); n.smin = SMIN(w); n.smax = SMAX(w); fromU(n);
  n.hash = n.lo * 2654435761u + 17;
  BitSet b(g_vars.size() / 64 + 1, 0); b[g_vars.size() / 64] |= 1ull << (g_vars.size() % 64);
  n.vs = &*bsPool.insert(b).first;
  arena.push_back(n); g_vars.push_back({ name, idx, w, undef, &arena.back() }); pool.insert(&arena.back());
  V v; v.n = &arena.back(); v.w = w; return v;
}

static bool isOp(const V &v, Op o) { return v.n && v.n->op == o; }

unsigned tzOf(V v) {
  if (v.isC()) return v.c ? __builtin_ctzll(v.c) : v.w;
  switch (v.n->op) {
  case O_CONCAT: { unsigned t = tzOf(v.n->k[1]); return t < v.n->k[1].w ? t : t + tzOf(v.n->k[0]); }
  case O_ZEXT: case O_SEXT: { unsigned t = tzOf(v.n->k[0]); return t; }
  case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(tzOf(v.n->k[0]), tzOf(v.n->k[1]));
  case O_MUL: return std::min<unsigned>(v.w, tzOf(v.n->k[0]) + tzOf(v.n->k[1]));
  case O_AND: return std::max(tzOf(v.n->k[0]), tzOf(v.n->k[1]));
  case O_ITE: return std::min(tzOf(v.n->k[1]), tzOf(v.n->k[2]));
  default: return 0;
  }
}

static void pieces(V x, std::vector<V> &out) {
  if (isOp(x, O_CONCAT)) { pieces(x.n->k[0], out); pieces(x.n->k[1], out); }
  else if (isOp(x, O_ZEXT)) { out.push_back(C(0, x.w - x.n->k[0].w)); pieces(x.n->k[0], out); }
  else out.push_back(x);
}

static V foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  int64_t sa = SX(a, w), sb = SX(b, w);
  switch (op) {
  case O_ADD: return C(a + b, w); case O_SUB: return C(a - b, w); case O_MUL: return C(a * b, w);
  case O_UDIV: return C(b ? a / b : MASK(w), w); case O_UREM: return C(b ? a % b : a, w);
  case O_SDIV: if (!b) return C(sa < 0 ? 1 : MASK(w), w); if (sb == -1) return C(0 - a, w); return C(sa / sb, w);
  case O_SREM: if (!b) return C(a, w); if (sb == -1) return C(0, w); return C(sa % sb, w);
  case O_AND: return C(a & b, w); case O_OR: return C(a | b, w); case O_XOR: return C(a ^ b, w);
  case O_SHL: return C(b >= w ? 0 : a << b, w); case O_LSHR: return C(b >= w ? 0 : a >> b, w);
  case O_ASHR: return C(b >= w ? (sa < 0 ? ~0ull : 0) : (uint64_t)(sa >> b), w);
  case O_EQ: return C(a == b, 1); case O_ULT: return C(a < b, 1); case O_ULE: return C(a <= b, 1);
  case O_SLT: return C(sa < sb, 1); case O_SLE: return C(sa <= sb, 1);
  default: abort();
  }
}

// linear normal form of an expression modulo 2^w
typedef std::map<uint32_t, std::pair<V, uint64_t>> Lin;
static bool lin(V x, uint64_t coef, Lin &l, uint64_t &k, int &budget) {
  if (--budget < 0) return false;
  unsigned w = x.w;
  if (x.isC()) { k += coef * x.c; return true; }
  const Node *n = x.n;
  switch (n->op) {
  case O_ADD: return lin(n->k[0], coef, l, k, budget) && lin(n->k[1], coef, l, k, budget);
  case O_SUB: return lin(n->k[0], coef, l, k, budget) && lin(n->k[1], 0 - coef, l, k, budget);
  case O_MUL: if (n->k[1].isC()) return lin(n->k[0], coef * n->k[1].c, l, k, budget); break;
  case O_CONCAT: if (n->k[1].isC() && n->k[1].c == 0) return lin(mkZext(n->k[0], w), coef << n->k[1].w, l, k, budget); break;
  default: break;
  }
  auto &e = l[n->id]; e.first = x; e.second += coef; return true;
}

static bool splits(const V &v) { // pieces read as such, not the halves of one computed word
  if (v.isC() || v.n->op == O_VAR) return true;
  if (v.n->op == O_ZEXT || v.n->op == O_SEXT) return splits(v.n->k[0]);
  if (v.n->op == O_EXTRACT) return v.n->k[0].n && v.n->k[0].n->op == O_VAR;
  if (v.n->op == O_CONCAT) return splits(v.n->k[0]) && splits(v.n->k[1]);
  return v.w == 1;
}
V mkEq(V a, V b) {
  if (a == b) return TRUE_();
  if (a.isC() && b.isC()) return C(a.c == b.c, 1);
  if (a.isC()) std::swap(a, b);
  if (UMAX(a) < UMIN(b) || UMAX(b) < UMIN(a) || SMAXV(a) < SMINV(b) || SMAXV(b) < SMINV(a)) return FALSE_();
  if (a.w == 1) {
    if (b.isC()) return b.c ? a : mkNot(a);
  }
  if (b.isC()) {
    const Node *n = a.n;
    switch (n->op) {
    case O_ZEXT: if (b.c & ~MASK(n->k[0].w)) return FALSE_(); return mkEq(n->k[0], C(b.c, n->k[0].w));
    case O_SEXT: { uint64_t lo = b.c & MASK(n->k[0].w); if (((uint64_t)SX(lo, n->k[0].w) & MASK(a.w)) != b.c) return FALSE_(); return mkEq(n->k[0], C(lo, n->k[0].w)); }
    case O_ITE: {
      V x = n->k[1], y = n->k[2];
      if (x.isC() || y.isC()) {
        V p = mkEq(x, b), q = mkEq(y, b);
        if (p.isC() && q.isC()) { if (p.c && q.c) return TRUE_(); if (p.c) return n->k[0]; if (q.c) return mkNot(n->k[0]); return FALSE_(); }
        if (p.isC()) return p.c ? mkOr(n->k[0], q) : mkAnd(mkNot(n->k[0]), q);
        if (q.isC()) return q.c ? mkOr(mkNot(n->k[0]), p) : mkAnd(n->k[0], p);
      }
      break; }
    case O_ADD: if (n->k[1].isC()) return mkEq(n->k[0], C(b.c - n->k[1].c, a.w)); break;
    case O_XOR: if (n->k[1].isC()) return mkEq(n->k[0], C(b.c ^ n->k[1].c, a.w)); break;
    case O_NOT: return mkEq(n->k[0], C(~b.c, a.w));
    case O_CONCAT: if (!splits(n->k[0]) || !splits(n->k[1])) break; return mkAnd(mkEq(n->k[0], C(b.c >> n->k[1].w, n->k[0].w)), mkEq(n->k[1], C(b.c, n->k[1].w)));
    default: break;
    }
  } else {
    if (a.n->op == b.n->op && (a.n->op == O_ZEXT || a.n->op == O_SEXT) && a.n->k[0].w == b.n->k[0].w) return mkEq(a.n->k[0], b.n->k[0]);
    if (isOp(a, O_CONCAT) && isOp(b, O_CONCAT) && a.n->k[1].w == b.n->k[1].w && splits(a.n->k[0]) && splits(a.n->k[1]) && splits(b.n->k[0]) && splits(b.n->k[1]))
      return mkAnd(mkEq(a.n->k[0], b.n->k[0]), mkEq(a.n->k[1], b.n->k[1]));
    if (a.w > 1) {
      Lin l; uint64_t k = 0; int budget = 200;
      auto arith = [](const V &v) { return v.n->op == O_ADD || v.n->op == O_SUB || v.n->op == O_MUL || v.n->op == O_CONCAT; };
      if ((arith(a) || arith(b)) && lin(a, 1, l, k, budget) && lin(b, ~0ull, l, k, budget)) {
        unsigned live = 0; for (auto &e : l) if (e.second.second & MASK(a.w)) live++;
        if (!live) return C((k & MASK(a.w)) == 0, 1);
      }
    }
    if (a.n->id > b.n->id) std::swap(a, b);
  }
  return intern(O_EQ, 1, a, b);
}

V mkNot(V a) {
  if (a.isC()) return C(~a.c, a.w);
  if (a.n->op == O_NOT) return a.n->k[0];
  if (a.w == 1) {
    if (a.n->op == O_ULT) return mkUle(a.n->k[1], a.n->k[0]);
    if (a.n->op == O_ULE) return mkUlt(a.n->k[1], a.n->k[0]);
    if (a.n->op == O_SLT) return mkSle(a.n->k[1], a.n->k[0]);
    if (a.n->op == O_SLE) return mkSlt(a.n->k[1], a.n->k[0]);
  }
  return intern(O_NOT, a.w, a);
}

V mkIte(V c, V a, V b) {
  if (c.isC()) return c.c ? a : b;
  if (a == b) return a;
  if (c.n->op == O_NOT) return mkIte(c.n->k[0], b, a);
  if (a.w == 1) {
    if (a.isC() && b.isC()) return a.c ? c : mkNot(c);
    if (a.isC()) return a.c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b.isC()) return b.c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (isOp(a, O_ITE) && a.n->k[0] == c) a = a.n->k[1];
  if (isOp(b, O_ITE) && b.n->k[0] == c) b = b.n->k[2];
  if (a == b) return a;
  if (isOp(a, O_ZEXT) && isOp(b, O_ZEXT) && a.n->k[0].w == b.n->k[0].w) return mkZext(mkIte(c, a.n->k[0], b.n->k[0]), a.w);
  if (isOp(a, O_SEXT) && isOp(b, O_SEXT) && a.n->k[0].w == b.n->k[0].w) return mkSext(mkIte(c, a.n->k[0], b.n->k[0]), a.w);
  return intern(O_ITE, a.w, c, a, b);
}

V mkConcat(V hi, V lo) {
  unsigned w = hi.w + lo.w; if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (hi.isC() && lo.isC()) return C((hi.c << lo.w) | lo.c, w);
  if (hi.isC() && hi.c == 0) return mkZext(lo, w);
  if (isOp(hi, O_ZEXT)) return mkZext(mkConcat(hi.n->k[0], lo), w);
  if (isOp(hi, O_CONCAT)) return mkConcat(hi.n->k[0], mkConcat(hi.n->k[1], lo));
  V head = lo, rest; bool hasRest = false;
  if (isOp(lo, O_CONCAT)) { head = lo.n->k[0]; rest = lo.n->k[1]; hasRest = true; }
  if (hi.isC() && head.isC() && hasRest) return mkConcat(C((hi.c << head.w) | head.c, hi.w + head.w), rest);
  // merge adjacent extracts
  if (hi.n && head.n) {
    V bh = hi, bl = head; unsigned hl = 0, hh = hi.w - 1, ll = 0, lh = head.w - 1;
    if (isOp(hi, O_EXTRACT)) { bh = hi.n->k[0]; hl = hi.n->lo; hh = hl + hi.w - 1; }
    if (isOp(head, O_EXTRACT)) { bl = head.n->k[0]; ll = head.n->lo; lh = ll + head.w - 1; }
    if (bh == bl && hl == lh + 1) { V m = mkExtract(bh, hh, ll); return hasRest ? mkConcat(m, rest) : m; }
    if (isOp(hi, O_EXTRACT) && hl >= head.w && hl - head.w < 64 && (isOp(bh, O_ADD) || isOp(bh, O_SUB) || isOp(bh, O_MUL)) && mkExtract(bh, hl - 1, hl - head.w) == head) { V m = mkExtract(bh, hh, hl - head.w); return hasRest ? mkConcat(m, rest) : m; }
    // sign-extension bits: hi == sign bit pieces handled by SEXT extracts
    if (isOp(hi, O_ITE) && isOp(head, O_ITE) && hi.n->k[0] == head.n->k[0]) {
      V m = mkIte(hi.n->k[0], mkConcat(hi.n->k[1], head.n->k[1]), mkConcat(hi.n->k[2], head.n->k[2]));
      return hasRest ? mkConcat(m, rest) : m;
    }
  }
  if (hi.n && head.isC() && isOp(hi, O_ITE) && hi.n->k[1].isC() && hi.n->k[2].isC()) {
    V m = mkIte(hi.n->k[0], mkConcat(hi.n->k[1], head), mkConcat(hi.n->k[2], head));
    return hasRest ? mkConcat(m, rest) : m;
  }
  if (hi.isC() && isOp(head, O_ITE) && head.n->k[1].isC() && head.n->k[2].isC()) {
    V m = mkIte(head.n->k[0], mkConcat(hi, head.n->k[1]), mkConcat(hi, head.n->k[2]));
    return hasRest ? mkConcat(m, rest) : m;
  }
  return intern(O_CONCAT, w, hi, lo);
}

V mkExtract(V x, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (w == x.w) return x;
  if (x.isC()) return C(x.c >> lo, w);
  const Node *n = x.n;
  switch (n->op) {
  case O_EXTRACT: return mkExtract(n->k[0], n->lo + hi, n->lo + lo);
  case O_CONCAT: {
    unsigned lw = n->k[1].w;
    if (hi < lw) return mkExtract(n->k[1], hi, lo);
    if (lo >= lw) return mkExtract(n->k[0], hi - lw, lo - lw);
    return mkConcat(mkExtract(n->k[0], hi - lw, 0), mkExtract(n->k[1], lw - 1, lo)); }
  case O_ZEXT: {
    unsigned lw = n->k[0].w;
    if (lo >= lw) return C(0, w);
    if (hi < lw) return mkExtract(n->k[0], hi, lo);
    return mkZext(mkExtract(n->k[0], lw - 1, lo), w); }
  case O_SEXT: {
    unsigned lw = n->k[0].w;
    if (hi < lw) return mkExtract(n->k[0], hi, lo);
    if (lo < lw) return mkSext(mkExtract(n->k[0], lw - 1, lo), w);
    return mkSext(mkExtract(n->k[0], lw - 1, lw - 1), w); }
  case O_ITE:
    if (n->k[1].isC() && n->k[2].isC()) return mkIte(n->k[0], mkExtract(n->k[1], hi, lo), mkExtract(n->k[2], hi, lo));
    { // push when arms simplify
      auto simp = [&](const V &v) { return v.isC() || isOp(v, O_ZEXT) || isOp(v, O_SEXT) || isOp(v, O_CONCAT); };
      if (simp(n->k[1]) && simp(n->k[2])) {
        V p = mkExtract(n->k[1], hi, lo), q = mkExtract(n->k[2], hi, lo);
        if (p == q) return p;
        if (!isOp(p, O_EXTRACT) && !isOp(q, O_EXTRACT)) return mkIte(n->k[0], p, q);
      }
    }
    break;
  case O_AND: case O_OR: case O_XOR: return mkBin(n->op, mkExtract(n->k[0], hi, lo), mkExtract(n->k[1], hi, lo));
  case O_NOT: return mkNot(mkExtract(n->k[0], hi, lo));
  case O_ADD: case O_SUB: case O_MUL:
    if (lo == 0) {
      auto simp = [&](const V &v) { return v.isC() || ((isOp(v, O_ZEXT) || isOp(v, O_SEXT)) ) || isOp(v, O_CONCAT); };
      auto simp2 = [&](const V &v) { return simp(v) || isOp(v, O_ADD) || isOp(v, O_SUB) || isOp(v, O_MUL); };
      if (simp2(n->k[0]) && simp2(n->k[1])) {
        V p = mkExtract(n->k[0], hi, 0), q = mkExtract(n->k[1], hi, 0);
        if (!isOp(p, O_EXTRACT) && !isOp(q, O_EXTRACT)) return mkBin(n->op, p, q);
      }
    }
    break;
  default: break;
  }
  return intern(O_EXTRACT, w, x, V(), V(), lo);
}

static bool noUnsOvf(const Node *n) {
  unsigned w = n->w; const V &a = n->k[0], &b = n->k[1];
  if (n->op == O_ADD) return (I)UMAX(a) + (I)UMAX(b) <= (I)MASK(w);
  if (n->op == O_MUL) return (unsigned __int128)UMAX(a) * UMAX(b) <= MASK(w);
  return false;
}
static bool noSigOvf(const Node *n) {
  unsigned w = n->w; const V &a = n->k[0], &b = n->k[1];
  I lo, hi;
  if (n->op == O_ADD) { lo = (I)SMINV(a) + SMINV(b); hi = (I)SMAXV(a) + SMAXV(b); }
  else if (n->op == O_SUB) { lo = (I)SMINV(a) - SMAXV(b); hi = (I)SMAXV(a) - SMINV(b); }
  else if (n->op == O_MUL) { I q[4] = { (I)SMINV(a) * SMINV(b), (I)SMINV(a) * SMAXV(b), (I)SMAXV(a) * SMINV(b), (I)SMAXV(a) * SMAXV(b) }; lo = *std::min_element(q, q + 4); hi = *std::max_element(q, q + 4); }
  else return false;
  return lo >= SMIN(w) && hi <= SMAX(w);
}

V mkZext(V x, unsigned w) {
  if (w == x.w) return x;
  if (x.isC()) return C(x.c, w);
  const Node *n = x.n;
  if (n->op == O_ZEXT) return mkZext(n->k[0], w);
  if (n->op == O_ITE && n->k[1].isC() && n->k[2].isC()) return mkIte(n->k[0], mkZext(n->k[1], w), mkZext(n->k[2], w));
  if ((n->op == O_ADD || n->op == O_MUL) && noUnsOvf(n)) return mkBin(n->op, mkZext(n->k[0], w), mkZext(n->k[1], w));
  if ((n->op == O_ADD || n->op == O_SUB || n->op == O_MUL) && n->smin >= 0 && noSigOvf(n)) return mkBin(n->op, mkSext(n->k[0], w), mkSext(n->k[1], w));
  return intern(O_ZEXT, w, x);
}
V mkSext(V x, unsigned w) {
  if (w == x.w) return x;
  if (x.isC()) return C((uint64_t)SX(x.c, x.w), w);
  const Node *n = x.n;
  if (n->op == O_SEXT) return mkSext(n->k[0], w);
  if (n->op == O_ITE && n->k[1].isC() && n->k[2].isC()) return mkIte(n->k[0], mkSext(n->k[1], w), mkSext(n->k[2], w));
  if (n->smin >= 0) return mkZext(x, w);
  if ((n->op == O_ADD || n->op == O_SUB || n->op == O_MUL) && noSigOvf(n)) return mkBin(n->op, mkSext(n->k[0], w), mkSext(n->k[1], w));
  return intern(O_SEXT, w, x);
}

// canonical linear form (mod 2^w), so that sums built in different orders become the same expression
static bool linTerms(const V &v, uint64_t k, std::map<uint32_t, std::pair<V, uint64_t>> &t, uint64_t &c, unsigned &budget) {
  if (!budget--) return false;
  if (v.isC()) { c += k * v.c; return true; }
  if (isOp(v, O_ADD)) return linTerms(v.n->k[0], k, t, c, budget) && linTerms(v.n->k[1], k, t, c, budget);
  if (isOp(v, O_SUB)) return linTerms(v.n->k[0], k, t, c, budget) && linTerms(v.n->k[1], 0 - k, t, c, budget);
  if (isOp(v, O_MUL) && v.n->k[1].isC()) return linTerms(v.n->k[0], k * v.n->k[1].c, t, c, budget);
  auto &e = t[v.n->id]; e.first = v; e.second += k; return true;
}
static V canonLin(const V &a) {
  if (!isOp(a, O_ADD) && !isOp(a, O_SUB)) return a;
  std::map<uint32_t, std::pair<V, uint64_t>> t; uint64_t c = 0; unsigned budget = 24, w = a.w;
  if (!linTerms(a, 1, t, c, budget)) return a;
  V r; bool any = false; 
  for (int neg = 0; neg < 2; neg++) for (auto &e : t) {
    uint64_t k = e.second.second & MASK(w); if (!k) continue; bool ng = SX(k, w) < 0 && k != (1ull << (w - 1)); if (ng != (neg == 1)) continue;
    V m = mkMul(e.second.first, C(ng ? 0 - k : k, w));
    if (!any) { r = ng ? mkSub(C(0, w), m) : m; any = true; } else r = ng ? mkSub(r, m) : mkAdd(r, m); }
  if (!any) return C(c, w);
  return mkAdd(r, C(c, w));
}
V mkBin(Op op, V a, V b) {
  unsigned w = a.w;
  if (a.w != b.w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a.w, b.w); abort(); }
  if (a.isC() && b.isC()) return foldBin(op, a.c, b.c, w);
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR;
  if (comm) { if (a.isC()) std::swap(a, b); else if (!b.isC() && a.n->id > b.n->id) std::swap(a, b); }
  switch (op) {
  case O_EQ: return mkEq(a, b);
  case O_ADD:
    if (w == 1) return mkXor(a, b);
    if (b.isC()) {
      if (b.c == 0) return a;
      if (isOp(a, O_ADD) && a.n->k[1].isC()) return mkAdd(a.n->k[0], C(a.n->k[1].c + b.c, w));
      if (isOp(a, O_ITE) && a.n->k[1].isC() && a.n->k[2].isC()) return mkIte(a.n->k[0], mkAdd(a.n->k[1], b), mkAdd(a.n->k[2], b));
    } else {
      // float constants outwards
      if (isOp(a, O_ADD) && a.n->k[1].isC()) return mkAdd(mkAdd(a.n->k[0], b), a.n->k[1]);
      if (isOp(b, O_ADD) && b.n->k[1].isC()) return mkAdd(mkAdd(a, b.n->k[0]), b.n->k[1]);
      if (isOp(a, O_SUB) && a.n->k[1] == b) return a.n->k[0];
      if (isOp(b, O_SUB) && b.n->k[1] == a) return b.n->k[0];
    }
    break;
  case O_SUB:
    if (w == 1) return mkXor(a, b);
    if (b.isC()) return mkAdd(a, C(0 - b.c, w));
    if (a == b) return C(0, w);
    if (isOp(a, O_ADD) && a.n->k[1].isC()) return mkAdd(mkSub(a.n->k[0], b), a.n->k[1]);
    if (isOp(b, O_ADD) && b.n->k[1].isC()) return mkAdd(mkSub(a, b.n->k[0]), C(0 - b.n->k[1].c, w));
    if (isOp(a, O_ADD)) { if (a.n->k[0] == b) return a.n->k[1]; if (a.n->k[1] == b) return a.n->k[0]; }
    if (isOp(b, O_SUB) && b.n->k[0] == a) return b.n->k[1];
    if (isOp(b, O_SUB) && a.isC() && a.c == 0) return mkSub(b.n->k[1], b.n->k[0]);
    break;
  case O_MUL:
    if (w == 1) return mkAnd(a, b);
    if (b.isC()) {
      if (b.c == 0) return b; if (b.c == 1) return a;
      a = canonLin(a); if (a.isC()) return C(a.c * b.c, w);
      if ((b.c & (b.c - 1)) == 0) { unsigned s = __builtin_ctzll(b.c); return mkConcat(mkExtract(a, w - 1 - s, 0), C(0, s)); }
      if (isOp(a, O_MUL) && a.n->k[1].isC()) return mkMul(a.n->k[0], C(a.n->k[1].c * b.c, w));
      if (isOp(a, O_ITE) && a.n->k[1].isC() && a.n->k[2].isC()) return mkIte(a.n->k[0], mkMul(a.n->k[1], b), mkMul(a.n->k[2], b));
      if (isOp(a, O_ITE) && ((a.n->k[1].isC() && !a.n->k[1].c) || (a.n->k[2].isC() && !a.n->k[2].c))) return mkIte(a.n->k[0], mkMul(a.n->k[1], b), mkMul(a.n->k[2], b));
    }
    break;
  case O_UDIV: if (b.isC() && b.c == 1) return a;
    if (!(b.isC() && (b.c & (b.c - 1)) == 0)) { // narrow (a zero divisor is excluded by the executor)
      uint64_t m = std::max(UMAX(a), UMAX(b)); unsigned need = 1; while (need < 64 && (m >> need)) need++;
      if (need + 1 < w) return mkZext(mkBin(O_UDIV, mkExtract(a, need - 1, 0), mkExtract(b, need - 1, 0)), w); }
    if (b.isC() && b.c && (b.c & (b.c - 1)) == 0) { unsigned s = __builtin_ctzll(b.c); return mkZext(mkExtract(a, w - 1, s), w); } break;
  case O_UREM:
    if (!(b.isC() && (b.c & (b.c - 1)) == 0)) {
      uint64_t m = std::max(UMAX(a), UMAX(b)); unsigned need = 1; while (need < 64 && (m >> need)) need++;
      if (need + 1 < w) return mkZext(mkBin(O_UREM, mkExtract(a, need - 1, 0), mkExtract(b, need - 1, 0)), w); }
    if (b.isC() && b.c && (b.c & (b.c - 1)) == 0) { unsigned s = __builtin_ctzll(b.c); return s ? mkZext(mkExtract(a, s - 1, 0), w) : C(0, w); } break;
  case O_SDIV: if (b.isC() && b.c == 1) return a; if (SMINV(a) >= 0 && SMINV(b) > 0) return mkBin(O_UDIV, a, b); if (b.isC() && SX(b.c, w) > 0) { unsigned nd = 2; auto fits = [&](int64_t x) { return nd >= 64 || (x >= -((int64_t)1 << (nd - 1)) && x < ((int64_t)1 << (nd - 1))); }; while (!fits(SMINV(a)) || !fits(SMAXV(a)) || !fits(SX(b.c, w))) nd++; if (nd + 1 < w) return mkSext(mkBin(O_SDIV, mkExtract(a, nd - 1, 0), C(b.c, nd)), w); } break;
  case O_SREM: if (SMINV(a) >= 0 && SMINV(b) > 0) return mkBin(O_UREM, a, b); if (b.isC() && SX(b.c, w) > 0) { unsigned nd = 2; auto fits = [&](int64_t x) { return nd >= 64 || (x >= -((int64_t)1 << (nd - 1)) && x < ((int64_t)1 << (nd - 1))); }; while (!fits(SMINV(a)) || !fits(SMAXV(a)) || !fits(SX(b.c, w))) nd++; if (nd + 1 < w) return mkSext(mkBin(O_SREM, mkExtract(a, nd - 1, 0), C(b.c, nd)), w); } break;
  case O_AND: case O_OR: case O_XOR: {
    if (a == b) return op == O_XOR ? C(0, w) : a;
    if (b.isC()) {
      if (b.c == 0) return op == O_AND ? b : a;
      if (b.c == MASK(w)) return op == O_AND ? a : op == O_OR ? b : mkNot(a);
      if (isOp(a, op) && a.n->k[1].isC()) return mkBin(op, a.n->k[0], foldBin(op, a.n->k[1].c, b.c, w));
      if (isOp(a, O_ITE) && a.n->k[1].isC() && a.n->k[2].isC()) return mkIte(a.n->k[0], mkBin(op, a.n->k[1], b), mkBin(op, a.n->k[2], b));
    }
    if (isOp(a, O_NOT) && a.n->k[0] == b) return op == O_AND ? C(0, w) : C(MASK(w), w);
    if (isOp(b, O_NOT) && b.n->k[0] == a) return op == O_AND ? C(0, w) : C(MASK(w), w);
    if (w == 1) {
      // absorption: a & (a & x) etc.
      if (op != O_XOR) {
        if (isOp(a, op) && (a.n->k[0] == b || a.n->k[1] == b)) return a;
        if (isOp(b, op) && (b.n->k[0] == a || b.n->k[1] == a)) return b;
        Op o2 = op == O_AND ? O_OR : O_AND;
        if (isOp(a, o2) && (a.n->k[0] == b || a.n->k[1] == b)) return b;
        if (isOp(b, o2) && (b.n->k[0] == a || b.n->k[1] == a)) return a;
        // (x&y) | (x&!y) -> x
        if (isOp(a, o2) && isOp(b, o2)) for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++)
          if (a.n->k[i] == b.n->k[j] && a.n->k[1 - i] == mkNot(b.n->k[1 - j])) return a.n->k[i];
      }
      break;
    }
    // piecewise
    bool pw = isOp(a, O_CONCAT) || isOp(a, O_ZEXT) || isOp(b, O_CONCAT) || isOp(b, O_ZEXT);
    std::vector<V> pa, pb;
    if (b.isC()) {
      // split the constant into runs
      int s = 0; while (s < (int)w) { unsigned bit = (b.c >> s) & 1; int e = s; while (e < (int)w && ((b.c >> e) & 1) == bit) e++; pb.insert(pb.begin(), C(bit ? MASK(e - s) : 0, e - s)); s = e; }
      if (pb.size() > 5 && !pw) break;
      if (op == O_XOR && !pw) break;
      if (op == O_XOR && pb.size() > 6) break;
      pw = true;
    }
    if (!pw) break;
    pieces(a, pa); if (!b.isC()) pieces(b, pb);
    // align
    size_t i = 0, j = 0; unsigned ra = pa[0].w, rb = pb[0].w; std::vector<std::pair<V, V>> seg;
    while (i < pa.size() && j < pb.size()) {
      unsigned m = std::min(ra, rb);
      seg.push_back({ mkExtract(pa[i], ra - 1, ra - m), mkExtract(pb[j], rb - 1, rb - m) });
      ra -= m; rb -= m;
      if (!ra) { i++; if (i < pa.size()) ra = pa[i].w; }
      if (!rb) { j++; if (j < pb.size()) rb = pb[j].w; }
    }
    if (seg.size() < 2) break;
    bool good = true;
    if (!b.isC()) for (auto &s : seg) if (!(s.first.isC() || s.second.isC())) { good = false; break; }
    if (!good && seg.size() > 4) break;
    V r; bool first = true;
    for (auto &s : seg) { V x = mkBin(op, s.first, s.second); if (first) { r = x; first = false; } else r = mkConcat(r, x); }
    return r; }
  case O_SHL: if (b.isC()) { if (b.c == 0) return a; if (b.c >= w) return C(0, w); return mkConcat(mkExtract(a, w - 1 - b.c, 0), C(0, b.c)); }
    if (a.isC() && a.c == 0) return a; break;
  case O_LSHR: if (b.isC()) { if (b.c == 0) return a; if (b.c >= w) return C(0, w); return mkZext(mkExtract(a, w - 1, b.c), w); }
    if (a.isC() && a.c == 0) return a; break;
  case O_ASHR: if (b.isC()) { if (b.c == 0) return a; unsigned s = b.c >= w ? w - 1 : b.c; return mkSext(mkExtract(a, w - 1, s), w); } break;
  case O_ULT: case O_ULE: {
    if (a == b) return C(op == O_ULE, 1);
    if (op == O_ULT) { if (UMAX(a) < UMIN(b)) return TRUE_(); if (UMIN(a) >= UMAX(b)) return FALSE_(); }
    else { if (UMAX(a) <= UMIN(b)) return TRUE_(); if (UMIN(a) > UMAX(b)) return FALSE_(); }
    auto nar = [&](V x, V y) -> unsigned { // both fit in fewer bits
      unsigned need = 1; uint64_t m = std::max(UMAX(x), UMAX(y)); while (need < 64 && (m >> need)) need++; return need; };
    if ((isOp(a, O_ZEXT) || a.isC()) && (isOp(b, O_ZEXT) || b.isC())) { unsigned k = nar(a, b); unsigned kk = std::max(isOp(a, O_ZEXT) ? a.n->k[0].w : 1, isOp(b, O_ZEXT) ? b.n->k[0].w : 1); k = std::max(k, kk); if (k < w) return mkBin(op, mkExtract(a, k - 1, 0), mkExtract(b, k - 1, 0)); }
    if (op == O_ULT && b.isC() && b.c == 1) return mkEq(a, C(0, w));
    if (op == O_ULE && b.isC() && b.c == 0) return mkEq(a, C(0, w));
    if (op == O_ULT && a.isC() && a.c == 0) return mkNot(mkEq(b, C(0, w)));
    if (op == O_ULE && b.isC()) return mkUlt(a, C(b.c + 1, w)); // b.c != max (ranges)
    if (op == O_ULE && a.isC() && a.c > 0) return mkUlt(C(a.c - 1, w), b);
    if (b.isC() && isOp(a, O_ITE) && (a.n->k[1].isC() || a.n->k[2].isC())) return mkIte(a.n->k[0], mkBin(op, a.n->k[1], b), mkBin(op, a.n->k[2], b));
    if (a.isC() && isOp(b, O_ITE) && (b.n->k[1].isC() || b.n->k[2].isC())) return mkIte(b.n->k[0], mkBin(op, a, b.n->k[1]), mkBin(op, a, b.n->k[2]));
    return intern(op, 1, a, b); }
  case O_SLT: case O_SLE: {
    if (a == b) return C(op == O_SLE, 1);
    if (op == O_SLT) { if (SMAXV(a) < SMINV(b)) return TRUE_(); if (SMINV(a) >= SMAXV(b)) return FALSE_(); }
    else { if (SMAXV(a) <= SMINV(b)) return TRUE_(); if (SMINV(a) > SMAXV(b)) return FALSE_(); }
    if (SMINV(a) >= 0 && SMINV(b) >= 0) return mkBin(op == O_SLT ? O_ULT : O_ULE, a, b);
    if (b.isC() && b.c == 0 && op == O_SLT) return mkExtract(a, w - 1, w - 1);
    if (a.isC() && a.c == 0 && op == O_SLE) return mkNot(mkExtract(b, w - 1, w - 1));
    if (a.isC() && SX(a.c, w) == -1 && op == O_SLT) return mkNot(mkExtract(b, w - 1, w - 1));
    auto sx = [&](const V &v) -> unsigned { if (v.isC()) return 1; if (isOp(v, O_SEXT)) return v.n->k[0].w; if (isOp(v, O_ZEXT)) return v.n->k[0].w + 1; return w; };
    unsigned k = std::max(sx(a), sx(b));
    if (k < w) { unsigned need = k; int64_t lo = std::min(SMINV(a), SMINV(b)), hi = std::max(SMAXV(a), SMAXV(b)); while (lo < SMIN(need) || hi > SMAX(need)) need++; if (need < w) return mkBin(op, mkExtract(a, need - 1, 0), mkExtract(b, need - 1, 0)); }
    if (op == O_SLE && b.isC()) return mkSlt(a, C(b.c + 1, w));
    if (op == O_SLE && a.isC()) return mkSlt(C(a.c - 1, w), b);
    if (b.isC() && isOp(a, O_ITE) && (a.n->k[1].isC() || a.n->k[2].isC())) return mkIte(a.n->k[0], mkBin(op, a.n->k[1], b), mkBin(op, a.n->k[2], b));
    if (a.isC() && isOp(b, O_ITE) && (b.n->k[1].isC() || b.n->k[2].isC())) return mkIte(b.n->k[0], mkBin(op, a, b.n->k[1]), mkBin(op, a, b.n->k[2]));
    return intern(op, 1, a, b); }
  default: break;
  }
  return intern(op, w, a, b);
}

static uint32_t g_epoch = 0; static const void *g_lastModel = nullptr; static size_t g_lastSerial = 0;
static uint64_t ev(const V &v, const std::vector<uint64_t> &m) {
  if (!v.n) return v.c;
  const Node *n = v.n;
  if (n->ev == g_epoch) return n->evv;
  uint64_t r = 0; unsigned w = n->w;
  switch (n->op) {
  case O_VAR: r = n->lo < m.size() ? m[n->lo] & MASK(w) : 0; break;
  case O_ITE: r = ev(n->k[0], m) ? ev(n->k[1], m) : ev(n->k[2], m); break;
  case O_CONCAT: r = (ev(n->k[0], m) << n->k[1].w) | ev(n->k[1], m); break;
  case O_EXTRACT: r = (ev(n->k[0], m) >> n->lo) & MASK(w); break;
  case O_ZEXT: r = ev(n->k[0], m); break;
  case O_SEXT: r = (uint64_t)SX(ev(n->k[0], m), n->k[0].w) & MASK(w); break;
  case O_NOT: r = ~ev(n->k[0], m) & MASK(w); break;
  default: r = foldBin(n->op, ev(n->k[0], m), ev(n->k[1], m), n->k[0].w).c; break;
  }
  n->ev = g_epoch; n->evv = r; return r;
}
uint64_t evalV(V v, const Model &m) {
  if (!v.n) return v.c;
  if (g_lastModel != (const void*)m.get() || g_lastSerial != g_vars.size()) { g_epoch++; g_lastModel = m.get(); g_lastSerial = g_vars.size(); }
  return ev(v, *m);
}
void evalForget() { g_lastModel = nullptr; }

std::string showV(V v, int d) {
  if (!v.n) { char b[40]; snprintf(b, 40, "%#llx:%u", (unsigned long long)v.c, v.w); return b; }
  static const char *nm[] = { "var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","cat","ext","zx","sx","not" };
  if (v.n->op == O_VAR) return g_vars[v.n->lo].name + "[" + std::to_string(g_vars[v.n->lo].idx) + "]";
  if (d == 0) return "..";
  std::string s = std::string("(") + nm[v.n->op] + std::to_string(v.w);
  if (v.n->op == O_EXTRACT) s += "@" + std::to_string(v.n->lo);
  for (int i = 0; i < 3; i++) if (v.n->k[i].w) s += " " + showV(v.n->k[i], d - 1);
  return s + ")";
}
