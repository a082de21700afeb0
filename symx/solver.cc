#include "solver.hh"
#include <z3.h>
#include <chrono>
#include <fstream>
SolverStats g_ss; unsigned g_timeoutMs = 60000; std::string g_dumpDir;
static Z3_context ctx; static Z3_sort bvs[65]; static Z3_sort boolS;
static std::vector<Z3_ast> varAst;
static Z3_tactic simplifyTac;
static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(4); }
void solverInit() {
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_set_error_handler(ctx, onErr);
  for (int i = 1; i <= 64; i++) { bvs[i] = Z3_mk_bv_sort(ctx, i); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bvs[i])); }
  boolS = Z3_mk_bool_sort(ctx);
}
Model newModel(const Model &b) { evalForget(); return b ? std::make_shared<std::vector<uint64_t>>(*b) : std::make_shared<std::vector<uint64_t>>(); }

// Width-1 expressions are translated to Bool; tr() returns a bit-vector for w>1 and Bool for w==1.
static Z3_ast tr(const V &v);
static Z3_ast asBV(const V &v) { Z3_ast a = tr(v); if (v.w != 1) return a; return Z3_mk_ite(ctx, a, Z3_mk_unsigned_int64(ctx, 1, bvs[1]), Z3_mk_unsigned_int64(ctx, 0, bvs[1])); }
static int g_abs = 0; static std::unordered_map<const Node*, std::vector<Z3_ast>> absAx; static std::unordered_map<const Node*, Z3_ast> absCache;
static Z3_ast tr(const V &v) {
  if (!v.n) { if (v.w == 1) return v.c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); return Z3_mk_unsigned_int64(ctx, v.c, bvs[v.w]); }
  const Node *n = v.n;
  if (g_abs) { auto it = absCache.find(n); if (it != absCache.end()) return it->second; }
  else if (n->z) return (Z3_ast)n->z;
  if (g_abs) { // division, and products of two unknowns, become fresh unknowns: an over-approximation, used for UNSAT answers only
    bool hard = g_abs == 1 && (n->op == O_UDIV || n->op == O_SDIV || n->op == O_UREM || n->op == O_SREM || (n->op == O_MUL && ((n->k[0].n && n->k[1].n && n->w > 8) || n->w >= 32)));
    if (hard) { Z3_ast r = Z3_mk_fresh_const(ctx, "abs", bvs[n->w]); Z3_inc_ref(ctx, r); absCache[n] = r;
      Z3_ast x = tr(n->k[0]), y = tr(n->k[1]), zero = Z3_mk_unsigned_int64(ctx, 0, bvs[n->w]);
      auto imp = [&](Z3_ast p, Z3_ast q) { Z3_ast f = Z3_mk_implies(ctx, p, q); Z3_inc_ref(ctx, f); absAx[n].push_back(f); };
      Z3_ast xz = Z3_mk_eq(ctx, x, zero), yz = Z3_mk_eq(ctx, y, zero), rz = Z3_mk_eq(ctx, r, zero);
      if (n->op == O_MUL) { imp(xz, rz); imp(yz, rz); }
      if (n->op == O_UDIV) { imp(Z3_mk_not(ctx, yz), Z3_mk_bvule(ctx, r, x)); imp(Z3_mk_bvult(ctx, x, y), rz); }
      if (n->op == O_UREM) { imp(Z3_mk_not(ctx, yz), Z3_mk_bvult(ctx, r, y)); imp(Z3_mk_bvult(ctx, x, y), Z3_mk_eq(ctx, r, x)); }
      if (n->op == O_SDIV) { Z3_ast yp = Z3_mk_bvslt(ctx, zero, y); Z3_ast c1[2] = { yp, Z3_mk_bvsle(ctx, x, zero) }, c2[2] = { yp, Z3_mk_bvsle(ctx, zero, x) };
        imp(Z3_mk_and(ctx, 2, c1), Z3_mk_bvsle(ctx, r, zero)); imp(Z3_mk_and(ctx, 2, c2), Z3_mk_bvsle(ctx, zero, r)); imp(Z3_mk_and(ctx, 2, c2), Z3_mk_bvsle(ctx, r, x)); imp(Z3_mk_and(ctx, 2, c1), Z3_mk_bvsle(ctx, x, r)); }
      if ((n->op == O_SDIV || n->op == O_UDIV) && n->k[1].isC() && n->k[1].c && n->k[1].c >> (n->w - 1) == 0) { // by a constant: the remainder is smaller than the divisor
        Z3_ast rem = Z3_mk_bvsub(ctx, x, Z3_mk_bvmul(ctx, r, y)), lt = Z3_mk_bvult(ctx, rem, y), neg = Z3_mk_bvslt(ctx, x, zero);
        if (n->op == O_UDIV) imp(Z3_mk_true(ctx), lt); else { imp(Z3_mk_not(ctx, neg), lt); imp(neg, Z3_mk_bvult(ctx, Z3_mk_bvneg(ctx, rem), y)); } }
      if (n->umax != MASK(n->w)) { Z3_ast f = Z3_mk_bvule(ctx, r, Z3_mk_unsigned_int64(ctx, n->umax, bvs[n->w])); Z3_inc_ref(ctx, f); absAx[n].push_back(f); }
      { Z3_ast f = Z3_mk_bvsle(ctx, r, Z3_mk_unsigned_int64(ctx, (uint64_t)n->smax & MASK(n->w), bvs[n->w])); Z3_inc_ref(ctx, f); absAx[n].push_back(f);
        f = Z3_mk_bvsle(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)n->smin & MASK(n->w), bvs[n->w]), r); Z3_inc_ref(ctx, f); absAx[n].push_back(f); }
      return r; }
  }
  Z3_ast r = nullptr; const V &a = n->k[0], &b = n->k[1], &c = n->k[2];
  switch (n->op) {
  case O_VAR: { char nm[32]; snprintf(nm, 32, "v%u", n->lo); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), n->w == 1 ? boolS : bvs[n->w]);
    if (varAst.size() <= n->lo) varAst.resize(n->lo + 1, nullptr); varAst[n->lo] = r; break; }
  case O_ADD: r = Z3_mk_bvadd(ctx, tr(a), tr(b)); break;
  case O_SUB: r = Z3_mk_bvsub(ctx, tr(a), tr(b)); break;
  case O_MUL: r = Z3_mk_bvmul(ctx, tr(a), tr(b)); break;
  case O_UDIV: r = Z3_mk_bvudiv(ctx, tr(a), tr(b)); break;
  case O_SDIV: r = Z3_mk_bvsdiv(ctx, tr(a), tr(b)); break;
  case O_UREM: r = Z3_mk_bvurem(ctx, tr(a), tr(b)); break;
  case O_SREM: r = Z3_mk_bvsrem(ctx, tr(a), tr(b)); break;
  case O_AND: { Z3_ast x[2] = { tr(a), tr(b) }; r = v.w == 1 ? Z3_mk_and(ctx, 2, x) : Z3_mk_bvand(ctx, x[0], x[1]); break; }
  case O_OR: { Z3_ast x[2] = { tr(a), tr(b) }; r = v.w == 1 ? Z3_mk_or(ctx, 2, x) : Z3_mk_bvor(ctx, x[0], x[1]); break; }
  case O_XOR: r = v.w == 1 ? Z3_mk_xor(ctx, tr(a), tr(b)) : Z3_mk_bvxor(ctx, tr(a), tr(b)); break;
  case O_SHL: r = Z3_mk_bvshl(ctx, asBV(a), asBV(b)); break;
  case O_LSHR: r = Z3_mk_bvlshr(ctx, asBV(a), asBV(b)); break;
  case O_ASHR: r = Z3_mk_bvashr(ctx, asBV(a), asBV(b)); break;
  case O_EQ: r = Z3_mk_eq(ctx, tr(a), tr(b)); break;
  case O_ULT: r = Z3_mk_bvult(ctx, asBV(a), asBV(b)); break;
  case O_ULE: r = Z3_mk_bvule(ctx, asBV(a), asBV(b)); break;
  case O_SLT: r = Z3_mk_bvslt(ctx, asBV(a), asBV(b)); break;
  case O_SLE: r = Z3_mk_bvsle(ctx, asBV(a), asBV(b)); break;
  case O_ITE: r = Z3_mk_ite(ctx, tr(a), tr(b), tr(c)); break;
  case O_CONCAT: r = Z3_mk_concat(ctx, asBV(a), asBV(b)); break;
  case O_EXTRACT: r = Z3_mk_extract(ctx, n->lo + n->w - 1, n->lo, asBV(a)); if (n->w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, bvs[1])); break;
  case O_ZEXT: r = Z3_mk_zero_ext(ctx, n->w - a.w, asBV(a)); break;
  case O_SEXT: r = Z3_mk_sign_ext(ctx, n->w - a.w, asBV(a)); break;
  case O_NOT: r = v.w == 1 ? Z3_mk_not(ctx, tr(a)) : Z3_mk_bvnot(ctx, tr(a)); break;
  }
  if ((n->op == O_SHL || n->op == O_LSHR || n->op == O_ASHR) && n->w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, bvs[1]));
  Z3_inc_ref(ctx, r); if (g_abs) absCache[n] = r; else n->z = r; return r;
}

struct CE { Res r; std::vector<std::pair<uint32_t, uint64_t>> m; };
static std::unordered_map<std::string, CE> cache;

static bool inter(const BitSet &a, const BitSet &b) { size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if (a[i] & b[i]) return true; return false; }

// guard: the canonical form must evaluate like the query it replaces
static void selfCheck(const V &q, const V &alt) {
  static double spent = 0; static uint64_t seed = 88172645463325252ull; static uint64_t n = 0; if (spent > 3 || ++n > 20000) return;
  auto t0 = std::chrono::steady_clock::now(); auto rnd = [&] { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
  Model m = newModel(nullptr); m->resize(g_vars.size(), 0); int style = rnd() % 4; BitSet vs = *varsOf(q);
  for (size_t i = 0; i < vs.size(); i++) for (uint64_t b = vs[i]; b; b &= b - 1) { uint32_t id = i * 64 + __builtin_ctzll(b); const Node *vn = g_vars[id].n; uint64_t r = rnd(), u = vn->umax;
    (*m)[id] = u == ~0ull ? r : style == 0 ? r % (u + 1) : style == 1 ? (r & 1 ? u : 0) : style == 2 ? (r & 1 ? u : r % (u + 1)) : (r & 3 ? 0 : r >> 8) % (u + 1); }
  bool a = evalV(q, m), b = evalV(alt, m);
  if (a != b) { fprintf(stderr, "canonical form disagrees with evaluation\n"); exit(4); }
  g_ss.selfchecks++; spent += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
}


// ---- sweeping: inner nodes of a query that always agree are found by evaluation, proved equal bottom-up by the solver, and merged.
// Every merge is a proved identity over the declared variable ranges (no path condition), so merges are kept for later queries.
// the structure of a set of expressions up to renaming of variables: what is proved of one instance holds for the others
static std::unordered_set<std::string> g_isoUnsat;
static std::string isoKey(const std::vector<const Node*> &roots) {
  std::string s; std::unordered_map<const Node*, uint32_t> num; std::unordered_map<uint32_t, uint32_t> vn;
  auto p = [&](uint64_t x) { s.append((const char*)&x, 8); };
  std::vector<std::pair<const Node*, int>> st;
  for (auto root : roots) { if (!num.count(root)) st.push_back({ root, 0 });
    while (!st.empty()) { auto &t = st.back(); const Node *n = t.first; if (t.second == 0 && num.count(n)) { st.pop_back(); continue; }
      bool down = false; while (t.second < 3) { const V &k = n->k[t.second++]; if (k.w && k.n && !num.count(k.n)) { st.push_back({ k.n, 0 }); down = true; break; } } if (down) continue;
      s.push_back((char)n->op); s.push_back((char)n->w); if (n->op == O_VAR) { auto it = vn.emplace(n->lo, vn.size()).first; p(it->second); p(n->umax); } else { if (n->op == O_EXTRACT) p(n->lo); for (auto &k : n->k) if (k.w) { if (k.n) { s.push_back('n'); uint32_t x = num[k.n]; s.append((const char*)&x, 4); } else { s.push_back('c'); s.push_back((char)k.w); p(k.c); } } }
      uint32_t id = num.size(); num[n] = id; st.pop_back(); }
    s.push_back('r'); uint32_t x = num[root]; s.append((const char*)&x, 4); }
  return s;
}
namespace {
double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Sweep {
  typedef std::vector<uint64_t> Sig;
  std::unordered_map<const Node*, V> rep;          // node -> proved-equal replacement
  std::unordered_map<uint64_t, bool> tried;        // pairs already refuted or given up
  std::vector<Model> models; uint64_t seed = 0x9E3779B97F4A7C15ull;
  std::unordered_map<const Node*, Sig> vals;
  uint64_t rnd() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; }
  static V nv(const Node *n) { V v; v.n = n; v.w = n->w; return v; }
  void fresh(const BitSet &vs, unsigned style) {
    Model m = newModel(nullptr); m->resize(g_vars.size(), 0); uint64_t center = rnd(); unsigned amp = 1u << (rnd() % 7);
    for (size_t i = 0; i < vs.size(); i++) for (uint64_t b = vs[i]; b; b &= b - 1) { uint32_t id = i * 64 + __builtin_ctzll(b); const Node *n = g_vars[id].n; uint64_t u = n->umax, r = rnd();
      uint64_t v = style == 0 ? r : style == 1 ? (r & 1 ? u : 0) : style == 2 ? (r & 1 ? u - (r >> 8) % 4 : (r >> 8) % 4) : center % (u == ~0ull ? u : u + 1) + (r % (2 * amp + 1)) - amp;
      if (style == 3 && (r >> 40) % 11 == 0) v = r >> 20;
      if (style == 3 && (int64_t)v < 0) v = 0; if (u != ~0ull) { if (style == 3 && v > u) v = u; v %= u + 1; } (*m)[id] = v & MASK(n->w); }
    models.push_back(m);
  }
  uint64_t evalNode(const Node *n, size_t k) { Sig &s = vals[n]; while (s.size() <= k) s.push_back(0); return s[k]; }
  void evalAll(const std::vector<const Node*> &order, size_t from) { for (size_t k = from; k < models.size(); k++) { evalForget(); for (auto n : order) { uint64_t x = evalV(nv(n), models[k]); Sig &s = vals[n]; if (s.size() <= k) s.resize(k + 1); s[k] = x; } } evalForget(); }
  static void topo(const Node *root, std::vector<const Node*> &out, std::unordered_set<const Node*> &seen) {
    std::vector<std::pair<const Node*, int>> st; if (!seen.insert(root).second) return; st.push_back({ root, 0 });
    while (!st.empty()) { auto &t = st.back(); bool down = false; while (t.second < 3) { const V &k = t.first->k[t.second++]; if (k.w && k.n && seen.insert(k.n).second) { st.push_back({ k.n, 0 }); down = true; break; } } if (!down && st.back().second >= 3) { out.push_back(st.back().first); st.pop_back(); } }
  }
  V map(const V &v) { if (!v.n) return v; auto it = rep.find(v.n); return it == rep.end() ? v : it->second; }
  static V rebuild(const Node *n, V a, V b, V c) {
    switch (n->op) { case O_VAR: return nv(n); case O_ITE: return mkIte(a, b, c); case O_CONCAT: return mkConcat(a, b); case O_EXTRACT: return mkExtract(a, n->lo + n->w - 1, n->lo);
      case O_ZEXT: return mkZext(a, n->w); case O_SEXT: return mkSext(a, n->w); case O_NOT: return mkNot(a); default: return mkBin(n->op, a, b); }
  }
  uint64_t proofs = 0, merged = 0;
  // is d (width 1, claimed always false) unsatisfiable?  r: 1 yes, 0 no (model added), -1 unknown
  int refute(const V &d, const std::vector<const Node*> &cut, unsigned ms) {
    if (!d.n) return d.c ? 0 : 1;
    if (!cut.empty()) { g_abs = 2; for (auto n : cut) { Z3_ast r = Z3_mk_fresh_const(ctx, "cut", n->w == 1 ? boolS : bvs[n->w]); Z3_inc_ref(ctx, r); absCache[n] = r; } }
    Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    Z3_solver_assert(ctx, s, tr(d));
    auto range = [&](const Node *n) { if (n->w == 1) return; Z3_ast a = tr(nv(n)); if (n->umax != MASK(n->w)) Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, a, Z3_mk_unsigned_int64(ctx, n->umax, bvs[n->w]))); if (n->umin) Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, Z3_mk_unsigned_int64(ctx, n->umin, bvs[n->w]), a));
      if (n->smax != SMAX(n->w)) Z3_solver_assert(ctx, s, Z3_mk_bvsle(ctx, a, Z3_mk_unsigned_int64(ctx, (uint64_t)n->smax & MASK(n->w), bvs[n->w]))); if (n->smin != SMIN(n->w)) Z3_solver_assert(ctx, s, Z3_mk_bvsle(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)n->smin & MASK(n->w), bvs[n->w]), a)); };
    for (auto n : cut) range(n);
    const BitSet &vs = *varsOf(d); for (size_t i = 0; i < vs.size(); i++) for (uint64_t b = vs[i]; b; b &= b - 1) { const Node *vn = g_vars[i * 64 + __builtin_ctzll(b)].n; if (vn->umax != MASK(vn->w)) range(vn); }
    Z3_lbool r = Z3_solver_check(ctx, s); proofs++;
    int res = r == Z3_L_FALSE ? 1 : r == Z3_L_TRUE ? 0 : -1;
    if (res == 0 && cut.empty()) { Model m = newModel(nullptr); m->resize(g_vars.size(), 0); Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
      for (size_t i = 0; i < vs.size(); i++) for (uint64_t b = vs[i]; b; b &= b - 1) { uint32_t id = i * 64 + __builtin_ctzll(b); if (id >= varAst.size() || !varAst[id]) continue; Z3_ast val; if (!Z3_model_eval(ctx, zm, varAst[id], true, &val)) continue; uint64_t u = 0; if (g_vars[id].w == 1) u = Z3_get_bool_value(ctx, val) == Z3_L_TRUE; else Z3_get_numeral_uint64(ctx, val, &u); (*m)[id] = u; }
      Z3_model_dec_ref(ctx, zm); models.push_back(m); }
    Z3_solver_dec_ref(ctx, s); if (!cut.empty()) { g_abs = 0; absCache.clear(); }
    return res;
  }
  // a == b for every value of the variables?
  int same(const V &a, const V &b) {
    V d = mkNe(a, b); if (d.isC()) return d.c ? 0 : 1;
    V cd = canon(d); if (cd.isC()) { selfCheck(d, cd); return cd.c ? -1 : 1; }
    // cut at the largest nodes both sides share
    std::vector<const Node*> oa, ob, cut; std::unordered_set<const Node*> sa, sb, seen; if (a.n) topo(a.n, oa, sa); if (b.n) topo(b.n, ob, sb);
    std::vector<const Node*> st; if (d.n) st.push_back(d.n);
    std::unordered_set<const Node*> od; std::vector<const Node*> dn; topo(d.n, dn, od);
    while (!st.empty()) { auto n = st.back(); st.pop_back(); if (!seen.insert(n).second) continue; if (n->op != O_VAR && sa.count(n) && sb.count(n)) { cut.push_back(n); continue; } for (auto &k : n->k) if (k.w && k.n) st.push_back(k.n); }
    std::string key = isoKey({ d.n }); if (g_isoUnsat.count(key)) { g_ss.iso++; return 1; }
    if (!cut.empty()) { int r = refute(d, cut, 3000); if (r == 1) { g_isoUnsat.insert(key); return 1; } }
    int r = refute(d, {}, 8000); if (r == 1) g_isoUnsat.insert(key); return r;
  }
  V run(const V &q, double budget) {
    double end = now() + budget; std::vector<const Node*> order; std::unordered_set<const Node*> seen; topo(q.n, order, seen);
    models.clear(); vals.clear(); for (unsigned i = 0; i < 160; i++) fresh(*varsOf(q), i % 8 == 0 ? 0 : i % 8 == 1 ? 1 : i % 8 == 2 ? 2 : 3);
    evalAll(order, 0);
    typedef std::unordered_map<uint64_t, std::vector<const Node*>> Cls; Cls sx, zx; std::vector<const Node*> done;
    auto val = [&](const Node *n, size_t k, bool s) -> uint64_t { uint64_t x = vals[n][k]; return s ? (uint64_t)SX(x, n->w) : x; };
    auto hash = [&](const Node *n, bool s, bool neg) { uint64_t h = 1469598103934665603ull; for (size_t k = 0; k < models.size(); k++) { uint64_t x = val(n, k, s); if (neg) x = ~x; h = (h ^ x) * 1099511628211ull; h ^= h >> 29; } return h; };
    auto add = [&](const Node *n) { sx[hash(n, true, false)].push_back(n); if (n->w > 1) zx[hash(n, false, false)].push_back(n); };
    for (auto n : order) {
      if (now() > end) break;
      if (n->op == O_VAR) { done.push_back(n); add(n); continue; }
      if (n == q.n) break;
      if (rep.count(n)) { done.push_back(n); add(n); continue; }
      V r = rebuild(n, map(n->k[0]), map(n->k[1]), map(n->k[2]));
      bool merged1 = false;
      for (int pass = 0; pass < 3 && !merged1 && r.n; pass++) { // 0 signed, 1 unsigned, 2 complement of a condition
        if ((pass == 1 && n->w == 1) || (pass == 2 && n->w != 1)) continue;
        for (int round = 0; round < 4; round++) {
          Cls &c = pass == 1 ? zx : sx; auto it = c.find(hash(n, pass != 1, pass == 2)); if (it == c.end()) break;
          const Node *cand = nullptr; for (auto x : it->second) if (x != n && !tried.count((uint64_t)x->id << 32 | n->id)) { cand = x; break; }
          if (!cand) break;
          V m = map(nv(cand)); V t = m; if (pass == 2) t = mkNot(t); if (t.w < n->w) t = pass == 1 ? mkZext(t, n->w) : mkSext(t, n->w); else if (t.w > n->w) t = mkExtract(t, n->w - 1, 0);
          if (t == r) { merged1 = true; break; }
          size_t nm = models.size(); double b0 = now(); int res = same(r, t); if (getenv("SYMX_SHOWSWEEP") && (res != 1 || now() - b0 > 0.3)) fprintf(stderr, "  proof %d %.2fs  %s  VS  %s\n", res, now() - b0, showV(r, 7).c_str(), showV(t, 7).c_str());
          if (res == 1) { r = t; merged1 = true; merged++; break; }
          tried[(uint64_t)cand->id << 32 | n->id] = true;
          if (models.size() > nm) { evalAll(order, nm); sx.clear(); zx.clear(); for (auto x : done) add(x); }
          if (now() > end) break;
        }
      }
      rep[n] = r; done.push_back(n); add(n);
    }
    V r = rebuild(q.n, map(q.n->k[0]), map(q.n->k[1]), map(q.n->k[2]));
    return r;
  }
} g_sweep;
bool g_sweepWorks = false;
}

Res checkSat(const std::vector<V> &pc, V q, const Model &base, Model *out, bool isAssert) {
  if (q.isC()) { if (!q.c) return UNSAT; if (out) *out = base; return SAT; }
  if (base && evalV(q, base)) { if (out) *out = base; return SAT; }
  g_ss.queries++; if (isAssert) g_ss.asserts++;
  V alt; // the same question in canonical form
  if (isAssert) { alt = canon(q); selfCheck(q, alt); if (alt.isC()) { g_ss.canonical++; if (!alt.c) { g_ss.unsat++; return UNSAT; } if (base) { fprintf(stderr, "canonical form disagrees with evaluation\n"); exit(4); } if (out) *out = base; return SAT; } if (getenv("SYMX_SHOWQ")) fprintf(stderr, "QUERY %s\n", showV(alt, atoi(getenv("SYMX_SHOWQ"))).c_str()); if (alt == q) alt = V(); }
  // slice
  BitSet vs = *varsOf(q); std::vector<const Node*> sel; std::vector<char> used(pc.size(), 0);
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i] && pc[i].n) {
      const BitSet &s = *pc[i].n->vs;
      if (inter(s, vs)) { used[i] = 1; sel.push_back(pc[i].n); if (vs.size() < s.size()) vs.resize(s.size(), 0); bool gr = false; for (size_t j = 0; j < s.size(); j++) { if (s[j] & ~vs[j]) gr = true; vs[j] |= s[j]; } if (gr) ch = true; }
    } }
  std::vector<uint32_t> ids; for (auto n : sel) ids.push_back(n->id); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end()); ids.push_back(0xffffffff); ids.push_back(q.n->id);
  std::string key((const char*)ids.data(), ids.size() * 4);
  auto apply = [&](const CE &e) { if (e.r == SAT && out) { Model m = newModel(base); if (m->size() < g_vars.size()) m->resize(g_vars.size(), 0); for (auto &p : e.m) (*m)[p.first] = p.second; *out = m; } return e.r; };
  auto it = cache.find(key); if (it != cache.end()) { g_ss.cacheHits++; return apply(it->second); }
  std::string iso; if (isAssert && vs.size() < 4096) { std::vector<const Node*> rs(sel.begin(), sel.end()); std::sort(rs.begin(), rs.end(), [](const Node *a, const Node *b) { return a->id < b->id; }); rs.erase(std::unique(rs.begin(), rs.end()), rs.end()); rs.push_back(q.n); iso = isoKey(rs); if (g_isoUnsat.count(iso)) { g_ss.iso++; g_ss.unsat++; CE e; e.r = UNSAT; cache[key] = e; return UNSAT; } }
  auto t0 = std::chrono::steady_clock::now();
  CE e; e.r = UNKNOWN;
  std::vector<const Node*> hardNodes;
  auto hasHard = [&]() { std::vector<const Node*> st; std::unordered_set<const Node*> seen; for (auto n : sel) st.push_back(n); st.push_back(q.n);
    while (!st.empty()) { auto n = st.back(); st.pop_back(); if (!seen.insert(n).second) continue;
      if (n->op == O_UDIV || n->op == O_SDIV || n->op == O_UREM || n->op == O_SREM || (n->op == O_MUL && ((n->k[0].n && n->k[1].n && n->w > 8) || n->w >= 32))) hardNodes.push_back(n);
      for (auto &k : n->k) if (k.w && k.n) st.push_back(k.n); } return !hardNodes.empty(); };
  bool hard = hasHard();
  struct Try { int kind; unsigned ms; bool alt; }; std::vector<Try> plan;
  V swept; bool didSweep = false;
  auto sweepNow = [&]() { if (didSweep || !isAssert || getenv("SYMX_NOSWEEP")) return; didSweep = true; double b = now(); swept = g_sweep.run(q, std::max(20.0, g_timeoutMs / 1000.0)); g_ss.merged = g_sweep.merged; g_ss.proofs = g_sweep.proofs;
    if (getenv("SYMX_SHOWSWEEP")) fprintf(stderr, "SWEEP %.1fs %llu proofs %llu merges -> %s\n", now() - b, (unsigned long long)g_sweep.proofs, (unsigned long long)g_sweep.merged, showV(swept, 12).c_str());
    if (swept.isC()) { if (!swept.c) { e.r = UNSAT; g_sweepWorks = true; } } else { selfCheck(q, swept); V c = canon(swept); if (c.isC() && !c.c) { selfCheck(swept, c); e.r = UNSAT; g_sweepWorks = true; } } };
  if (g_sweepWorks && isAssert && alt.w) sweepNow();
  if (hard) { plan.push_back({ 0, 500, false }); plan.push_back({ -1, 10000, false }); }
  if (isAssert) { plan.push_back({ 0, std::min(g_timeoutMs, 3000u), false }); plan.push_back({ 30, g_timeoutMs / 2, false }); }
  if (alt.w) { plan.push_back({ 0, g_timeoutMs / 2, true }); }
  // look for a counterexample near the path's own model: all but some variables fixed
  if (isAssert && base) { for (int i = 0; i < 6; i++) plan.push_back({ 10 + i, 700, false }); }
  plan.push_back({ 0, g_timeoutMs, false }); plan.push_back({ 1, g_timeoutMs / 4, false });
  for (auto &tr1 : plan) { if (e.r != UNKNOWN) break; int attempt = tr1.kind; if (attempt == 30) { sweepNow(); if (e.r != UNKNOWN) break; if (!swept.n || swept == q) continue; }
    const V &q0 = attempt == 30 ? swept : tr1.alt ? alt : q;
    g_abs = attempt == -1;
    struct Un { ~Un() { g_abs = 0; } } un;
    Z3_solver s = attempt != 1 ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")) : Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), tr1.ms); Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    for (auto n : sel) { V v; v.n = n; v.w = n->w; Z3_solver_assert(ctx, s, tr(v)); }
    Z3_solver_assert(ctx, s, tr(q0));
    for (size_t i = 0; i < vs.size(); i++) for (uint64_t b = vs[i]; b; b &= b - 1) { const Node *vn = g_vars[i * 64 + __builtin_ctzll(b)].n; // declared bounds
      if (vn->umax != MASK(vn->w)) { V v; v.n = vn; v.w = vn->w; Z3_solver_assert(ctx, s, Z3_mk_bvule(ctx, tr(v), Z3_mk_unsigned_int64(ctx, vn->umax, bvs[vn->w]))); } }
    if (attempt >= 10 && attempt < 20) { BitSet qv = *varsOf(q); unsigned nv = 0, i0 = 0; for (auto w : qv) nv += __builtin_popcountll(w); static uint64_t seed = 12345; unsigned pick = 0; (void)i0;
      for (size_t i = 0; i < vs.size(); i++) for (uint64_t b = vs[i]; b; b &= b - 1) { uint32_t id = i * 64 + __builtin_ctzll(b); seed = seed * 6364136223846793005ull + 1442695040888963407ull; bool inQ = i < qv.size() && (qv[i] >> (id & 63) & 1);
        bool keep = attempt == 10 ? inQ : attempt <= 12 ? inQ && (pick++ % 3 == (unsigned)attempt - 11 || nv <= 1) : (seed >> 33) % 3 == 0; if (keep) continue;
        V v; v.n = g_vars[id].n; v.w = v.n->w; uint64_t val = id < base->size() ? (*base)[id] : 0; Z3_ast c = v.w == 1 ? (val ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, val, bvs[v.w]); Z3_solver_assert(ctx, s, Z3_mk_eq(ctx, tr(v), c)); } }
    if (g_abs) for (auto n : hardNodes) for (auto f : absAx[n]) Z3_solver_assert(ctx, s, f);
    if (isAssert && !g_dumpDir.empty() && attempt == 0) { static int k = 0; std::ofstream f(g_dumpDir + "/q" + std::to_string(k++) + ".smt2"); f << "(set-logic QF_BV)\n" << Z3_solver_to_string(ctx, s) << "(check-sat)\n"; }
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (r == Z3_L_FALSE && attempt >= 10 && attempt < 20) r = Z3_L_UNDEF;
    if (r == Z3_L_FALSE) e.r = UNSAT;
    else if (r == Z3_L_TRUE && !g_abs) {
      e.r = SAT; Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
      for (size_t i = 0; i < vs.size(); i++) for (uint64_t b = vs[i]; b; b &= b - 1) {
        uint32_t id = i * 64 + __builtin_ctzll(b); if (id >= varAst.size() || !varAst[id]) continue;
        Z3_ast val; if (!Z3_model_eval(ctx, m, varAst[id], true, &val)) continue;
        uint64_t u = 0; if (g_vars[id].w == 1) u = Z3_get_bool_value(ctx, val) == Z3_L_TRUE; else Z3_get_numeral_uint64(ctx, val, &u);
        e.m.push_back({ id, u }); }
      Z3_model_dec_ref(ctx, m);
    }
    Z3_solver_dec_ref(ctx, s);
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_ss.time += dt; g_ss.maxTime = std::max(g_ss.maxTime, dt);
  if (e.r == SAT) {
    g_ss.sat++;
    // the model must satisfy what was asked: guards against translation bugs
    Model m = newModel(base); if (m->size() < g_vars.size()) m->resize(g_vars.size(), 0); for (auto &p : e.m) (*m)[p.first] = p.second;
    bool ok = evalV(q, m); for (auto n : sel) { V v; v.n = n; v.w = n->w; ok = ok && evalV(v, m); }
    if (!ok) { fprintf(stderr, "solver model does not satisfy the query (translation bug)\n"); exit(4); }
  } else if (e.r == UNSAT) { g_ss.unsat++; if (!iso.empty()) g_isoUnsat.insert(iso); } else g_ss.unknown++;
  cache[key] = e;
  return apply(e);
}
