// Models of externals.  Included by exec.cc.
#define H [](State &s, const DI &d, std::vector<Val> &a) -> Val
static V catBytes(const std::vector<V> &b, size_t at, unsigned n);
static std::string cstr(State &s, V p) { std::string r; uint64_t a = concretise(s, p); for (;;) { V b = loadBytes(s, a++, 1); if (!b.isC()) INC("symbolic string"); if (!b.c) break; r += (char)b.c; if (r.size() > 300) break; } return r; }
static V truth(V v) { return v.w == 1 ? v : mkNe(v, C(0, v.w)); }

struct Cell { uint8_t c; const Node *s; };
static void readCells(State &s, uint64_t a, uint64_t n, std::vector<Cell> &out) { if (!n) return; Obj *o = inObj(s, a, n, "read"); uint64_t off = a - o->base; for (uint64_t i = 0; i < n; i++) out.push_back({ o->c[off + i], o->s.empty() ? nullptr : o->s[off + i] }); }
static void writeCells(State &s, uint64_t a, const std::vector<Cell> &v) { if (v.empty()) return; Obj *o = inObj(s, a, v.size(), "write"); if (o->ro) throw PathError{ "memory", "write to constant object" }; o = writable(s, o); uint64_t off = a - o->base;
  bool sym = false; for (auto &x : v) if (x.s) { sym = true; break; } if (sym && o->s.empty()) o->s.assign(o->size, nullptr);
  for (uint64_t i = 0; i < v.size(); i++) { o->c[off + i] = v[i].c; if (!o->s.empty()) o->s[off + i] = v[i].s; } }
static uint64_t concPtr(State &s, V p) { // a pointer that must be one address: fork over ITE leaves, else by value
  if (p.isC()) return p.c; std::vector<Leaf> ls; if (leaves(p, TRUE_(), ls, 64)) { bool allC = true; for (auto &l : ls) if (!l.addr.isC()) allC = false; if (allC) { for (auto &l : ls) if (decide(s, l.cond)) return l.addr.c; } }
  return concretise(s, p); }
static Val h_memcpy(State &s, const DI &d, std::vector<Val> &a) {
  uint64_t n = concretise(s, a[2].s); if (!n) return a[0];
  if (!a[0].s.isC() || !a[1].s.isC()) { // symbolic addresses: element-wise through the general path when small
    if (n <= 64) { std::vector<V> t; for (uint64_t i = 0; i < n; i++) t.push_back(loadSym(s, mkAdd(a[1].s, C(i, 64)), 1)); for (uint64_t i = 0; i < n; i++) storeSym(s, mkAdd(a[0].s, C(i, 64)), t[i]); return a[0]; }
    uint64_t x = concPtr(s, a[0].s), y = concPtr(s, a[1].s); std::vector<Cell> v; readCells(s, y, n, v); writeCells(s, x, v); return a[0]; }
  std::vector<Cell> v; v.reserve(n); readCells(s, a[1].s.c, n, v); writeCells(s, a[0].s.c, v); return a[0]; }
static Val h_memset(State &s, const DI &d, std::vector<Val> &a) {
  uint64_t n = concretise(s, a[2].s); if (!n) return a[0]; V b = a[1].s.w > 8 ? mkExtract(a[1].s, 7, 0) : a[1].s;
  if (!a[0].s.isC() && n <= 64) { for (uint64_t i = 0; i < n; i++) storeSym(s, mkAdd(a[0].s, C(i, 64)), b); return a[0]; }
  uint64_t x = concPtr(s, a[0].s); std::vector<Cell> v(n, Cell{ (uint8_t)b.c, b.n }); writeCells(s, x, v); return a[0]; }
static Val h_alloc_cap(State &s, const DI &d, std::vector<Val> &a) { g_allocLimit = concretise(s, a[0].s); g_allocCap = true; return Val(); }
static Val h_alloc_limit(State &s, const DI &d, std::vector<Val> &a) { g_allocLimit = concretise(s, a[0].s); g_allocViolation = true; return Val(); }
static Val h_malloc(State &s, const DI &d, std::vector<Val> &a) {
  V n = a[0].s;
  if (!n.isC()) { V big = mkUlt(C(g_allocLimit, 64), n);
    if (g_allocViolation) { if (sat(s, big) == SAT) { PathError e{ "alloc", "allocation larger than the stated limit" }; e.cond = big; e.hasCond = true; throw e; } }
    else if (decide(s, big)) { if (g_allocCap) return C(allocObj(s, g_allocLimit, 1, "heap block", false), 64); // only the beginning of it exists: touching more is an error
      if (g_allocViolation) throw PathError{ "alloc", "allocation larger than the stated limit" }; g_cutAlloc++; throw PathEnd{ "alloc" }; } }
  if (n.isC() && g_allocViolation && n.c > g_allocLimit) throw PathError{ "alloc", "allocation larger than the stated limit" };
  uint64_t k = concretise(s, n); if (k > g_allocLimit && !n.isC()) throw PathEnd{ "alloc" };
  if (k > (1ull << 31)) { if (g_allocViolation) throw PathError{ "alloc", "allocation larger than the stated limit" }; g_cutAlloc++; throw PathEnd{ "alloc" }; }
  return C(allocObj(s, k, 1, "heap block", false), 64); }
static Val h_calloc(State &s, const DI &d, std::vector<Val> &a) { uint64_t k = concretise(s, mkMul(a[0].s, a[1].s)); return C(allocObj(s, k, 1, "heap block", true), 64); }
static Val h_free(State &s, const DI &d, std::vector<Val> &a) {
  uint64_t p = concPtr(s, a[0].s); if (!p) return Val(); auto it = s.mem.find(p);
  if (it == s.mem.end() || it->second->kind != 1) throw PathError{ "memory", "free of something that is not a live heap block (double free?)" };
  s.mem.erase(it); return Val(); }
static Val h_newal(State &s, const DI &d, std::vector<Val> &a) { uint64_t k = concretise(s, a[0].s); return C(allocObj(s, k, 1, "heap block", false, concretise(s, a[1].s)), 64); }
static Val h_posix_memalign(State &s, const DI &d, std::vector<Val> &a) { uint64_t k = concretise(s, a[2].s), al = concretise(s, a[1].s); uint64_t p = allocObj(s, k, 1, "heap block", false, al); storeSym(s, a[0].s, C(p, 64)); return C(0, 32); }
static Val h_aligned_alloc(State &s, const DI &d, std::vector<Val> &a) { uint64_t k = concretise(s, a[1].s), al = concretise(s, a[0].s); return C(allocObj(s, k, 1, "heap block", false, al), 64); }
static Val h_cmp(State &s, const DI &d, std::vector<Val> &a, bool order) {
  uint64_t n = concretise(s, a[2].s); V r = C(0, 32); if (!n) return r;
  uint64_t x = concPtr(s, a[0].s), y = concPtr(s, a[1].s);
  for (uint64_t i = n; i-- > 0;) { V p = loadBytes(s, x + i, 1), q = loadBytes(s, y + i, 1); V e = mkEq(p, q); r = mkIte(e, r, order ? mkIte(mkUlt(p, q), C(-1, 32), C(1, 32)) : C(1, 32)); }
  return r; }
static Val h_memcmp(State &s, const DI &d, std::vector<Val> &a) { return h_cmp(s, d, a, true); }
static Val h_bcmp(State &s, const DI &d, std::vector<Val> &a) { return h_cmp(s, d, a, false); }
static Val h_strlen(State &s, const DI &d, std::vector<Val> &a) { uint64_t p = concPtr(s, a[0].s), n = 0; for (;; n++) { V b = loadBytes(s, p + n, 1); if (decide(s, mkEq(b, C(0, 8)))) return C(n, 64); } }
static Val h_memchr(State &s, const DI &d, std::vector<Val> &a) { uint64_t n = concretise(s, a[2].s), p = concPtr(s, a[0].s); V c = mkExtract(a[1].s, 7, 0); for (uint64_t i = 0; i < n; i++) if (decide(s, mkEq(loadBytes(s, p + i, 1), c))) return C(p + i, 64); return C(0, 64); }
static Val h_ret0(State &s, const DI &d, std::vector<Val> &a) { return d.dst >= 0 ? undefOf(d.ty) : Val(); }
static Val h_arg0(State &s, const DI &d, std::vector<Val> &a) { return d.dst >= 0 ? a[0] : Val(); }
static Val h_abort(State &s, const DI &d, std::vector<Val> &a) { throw PathError{ "abort", "abort/terminate reached" }; }
static Val h_exit(State &s, const DI &d, std::vector<Val> &a) { throw PathError{ "abort", "exit() reached" }; }

// ---- symbolic interface
static V freshVal(State &s, const char *nm, unsigned w, SymRec &r) {
  if (g_useFixed) INC("internal");
  V v = mkVar(nm, r.vals.size(), w); r.vals.push_back(v); return v; }
static Val h_sym_bytes(State &s, const DI &d, std::vector<Val> &a) {
  uint64_t p = concPtr(s, a[0].s), n = concretise(s, a[1].s); std::string nm = cstr(s, a[2].s); if (n) inObj(s, p, n, "write"); SymRec r; r.name = nm; r.w = 8;
  if (g_useFixed) { if (g_fixedPos >= g_fixed.size()) INC("out of recorded values"); auto &f = g_fixed[g_fixedPos++]; for (uint64_t i = 0; i < n; i++) { r.vals.push_back(C(f.at(i), 8)); storeBytes(s, p + i, C(f.at(i), 8)); } }
  else for (uint64_t i = 0; i < n; i++) storeBytes(s, p + i, freshVal(s, nm.c_str(), 8, r));
  s.syms.push_back(r); return Val(); }
static Val h_sym_bits(State &s, const DI &d, std::vector<Val> &a) {
  std::string nm = cstr(s, a[0].s); unsigned w = concretise(s, a[1].s); SymRec r; r.name = nm; r.w = w; V v;
  if (g_useFixed) { if (g_fixedPos >= g_fixed.size()) INC("out of recorded values"); v = C(g_fixed[g_fixedPos++].at(0), w); r.vals.push_back(v); } else v = freshVal(s, nm.c_str(), w, r);
  s.syms.push_back(r); return mkZext(v, 64); }
static Val h_sym_range(State &s, const DI &d, std::vector<Val> &a) {
  std::string nm = cstr(s, a[0].s); uint64_t lo = concretise(s, a[1].s), hi = concretise(s, a[2].s); uint64_t span = hi - lo; unsigned w = 1; while (w < 64 && (span >> w)) w++;
  SymRec r; r.name = nm; r.w = 64; V v;
  if (g_useFixed) { if (g_fixedPos >= g_fixed.size()) INC("out of recorded values"); v = C(g_fixed[g_fixedPos++].at(0), 64); r.vals.push_back(v); s.syms.push_back(r); return v; }
  V x = mkVar(nm, 0, w, false, span);
  v = mkAdd(mkZext(x, 64), C(lo, 64)); r.vals.push_back(v); s.syms.push_back(r); return v; }
static Val h_sym_assume(State &s, const DI &d, std::vector<Val> &a) {
  V c = truth(a[0].s); if (c.isT()) return Val(); if (c.isF()) throw PathEnd{ "assume" };
  if (!evalV(c, s.model)) { Model m; if (sat(s, c, &m) == UNSAT) throw PathEnd{ "assume" }; s.model = m; } addPc(s, c); return Val(); }
static Val h_sym_assert(State &s, const DI &d, std::vector<Val> &a) {
  V c = truth(a[0].s); if (c.isT()) { g_assertsConst++; g_assertsOk++; return Val(); }
  PathError e{ "assert", cstr(s, a[1].s) }; e.cond = mkNot(c); e.hasCond = true;
  if (c.isF()) { e.hasCond = false; throw e; }
  if (sat(s, e.cond, nullptr, true) == SAT) throw e; g_assertsOk++; return Val(); }
static Val h_sym_possible(State &s, const DI &d, std::vector<Val> &a) { std::string l = cstr(s, a[1].s); V c = truth(a[0].s); int &p = g_possible[l]; if (!p && !c.isF() && (c.isT() || sat(s, c) == SAT)) p = 1; return Val(); }
static Val h_sym_reach(State &s, const DI &d, std::vector<Val> &a) { g_reached[cstr(s, a[0].s)]++; return Val(); }
static Val h_sym_param(State &s, const DI &d, std::vector<Val> &a) { std::string n = cstr(s, a[0].s); auto it = g_params.find(n); return it == g_params.end() ? a[1] : Val(C((uint64_t)it->second, 64)); }
static Val h_sym_concrete(State &s, const DI &d, std::vector<Val> &a) { return C(concretise(s, a[0].s), a[0].s.w); }
static Val h_sym_log(State &s, const DI &d, std::vector<Val> &a) { std::string n = cstr(s, a[0].s); V v = a[1].s; s.logs.push_back(n + "=" + (v.isC() ? std::to_string((long long)SX(v.c, v.w)) : "(" + std::to_string((long long)SX(evalV(v, s.model), v.w)) + ")")); if (g_useFixed) printf("LOG %s\n", s.logs.back().c_str()); return Val(); }
static Val h_sym_show(State &s, const DI &d, std::vector<Val> &a) { fprintf(stderr, "SHOW %s\n", showV(a[0].s, 8).c_str()); return Val(); }
static Val h_sym_isc(State &s, const DI &d, std::vector<Val> &a) { return C(a[0].s.isC(), 32); }
static Val h_sym_stop(State &s, const DI &d, std::vector<Val> &a) { g_paths++; throw PathEnd{ "stop" }; }

// ---- C++ runtime
static Val h_alloc_exc(State &s, const DI &d, std::vector<Val> &a) { return C(allocObj(s, concretise(s, a[0].s), 1, "exception object", true), 64); }
static Val h_throw(State &s, const DI &d, std::vector<Val> &a) {
  uint64_t ti = concretise(s, a[1].s); std::string n = "?"; for (auto &g : M->globals()) if (g_gaddr.count(&g) && g_gaddr[&g] == ti) { n = g.getName().str(); break; }
  s.inflight.obj = concretise(s, a[0].s); s.inflight.ti = tiId(n); throw Unwinding{}; }
static Val h_rethrow(State &s, const DI &d, std::vector<Val> &a) { if (s.caught.empty()) throw PathError{ "abort", "rethrow without exception" }; s.inflight = s.caught.back(); throw Unwinding{}; }
static Val h_begin_catch(State &s, const DI &d, std::vector<Val> &a) { s.caught.push_back(s.inflight); return C(s.inflight.obj, 64); }
static Val h_end_catch(State &s, const DI &d, std::vector<Val> &a) { if (!s.caught.empty()) s.caught.pop_back(); return Val(); }
static Val h_typeid(State &s, const DI &d, std::vector<Val> &a) { uint64_t ti = a[0].s.c; if (!ti) return C(tiId("...") + 1, 32); for (auto &g : M->globals()) if (g_gaddr.count(&g) && g_gaddr[&g] == ti) return C(tiId(g.getName().str()) + 1, 32); return C(0, 32); }
static Val h_guard_acq(State &s, const DI &d, std::vector<Val> &a) { V v = loadSym(s, a[0].s, 1); return C(v.isC() && v.c ? 0 : 1, 32); }
static Val h_guard_rel(State &s, const DI &d, std::vector<Val> &a) { storeSym(s, a[0].s, C(1, 8)); return Val(); }
template <int k> static Val h_throwstd(State &s, const DI &d, std::vector<Val> &a) {
  static const char *n[] = { "_ZTISt12length_error", "_ZTISt12out_of_range", "_ZTISt11logic_error", "_ZTISt9bad_alloc", "_ZTISt17bad_function_call", "_ZTISt16invalid_argument", "_ZTISt13runtime_error", "_ZTISt12system_error", "_ZTISt20bad_array_new_length", "_ZTISt8bad_cast" }; throwStd(s, n[k]); return Val(); }
static uint64_t opaque(State &s, const char *nm) { static std::map<std::string, uint64_t> m; auto &x = m[nm]; if (!x || !s.mem.count(x)) x = allocObj(s, 256, 0, nm, true); return x; }
static Val h_opaque(State &s, const DI &d, std::vector<Val> &a) { return C(opaque(s, "opaque"), 64); }
static Val h_errno(State &s, const DI &d, std::vector<Val> &a) { static uint64_t x = 0; if (!x || !s.mem.count(x)) { x = allocObj(s, 8, 0, "errno", true); } return C(x, 64); }
static Val h_sqrt(State &s, const DI &d, std::vector<Val> &a) { uint64_t c = a[0].s.c; if (!a[0].s.isC()) INC("symbolic floating point"); double x; memcpy(&x, &c, 8); x = sqrt(x); memcpy(&c, &x, 8); return C(c, 64); }
template <double (*F)(double)> static Val h_fp1(State &s, const DI &d, std::vector<Val> &a) { uint64_t c = a[0].s.c; if (!a[0].s.isC()) INC("symbolic floating point"); double x; memcpy(&x, &c, 8); x = F(x); memcpy(&c, &x, 8); return C(c, 64); }
static Val h_pow(State &s, const DI &d, std::vector<Val> &a) { if (!a[0].s.isC() || !a[1].s.isC()) INC("symbolic floating point"); double x, y; memcpy(&x, &a[0].s.c, 8); memcpy(&y, &a[1].s.c, 8); x = pow(x, y); uint64_t c; memcpy(&c, &x, 8); return C(c, 64); }
static Val h_path_end(State &s, const DI &d, std::vector<Val> &a) { throw PathEnd{ "external" }; }

// ---- llvm intrinsics
static V ctlzV(V x) { V r = C(x.w, x.w); for (unsigned i = 0; i < x.w; i++) r = mkIte(mkExtract(x, i, i), C(x.w - 1 - i, x.w), r); return r; }
static V cttzV(V x) { V r = C(x.w, x.w); for (unsigned i = x.w; i-- > 0;) r = mkIte(mkExtract(x, i, i), C(i, x.w), r); return r; }
static V popV(V x) { V r = C(0, x.w); for (unsigned i = 0; i < x.w; i++) r = mkAdd(r, mkZext(mkExtract(x, i, i), x.w)); return r; }
static V satU(V a, V b, bool add) { if (add) { V r = mkAdd(mkZext(a, a.w + 1), mkZext(b, a.w + 1)); return mkIte(mkExtract(r, a.w, a.w), C(~0ull, a.w), mkExtract(r, a.w - 1, 0)); } return mkIte(mkUlt(a, b), C(0, a.w), mkSub(a, b)); }
static V satS(V a, V b, bool add) { unsigned w = a.w; V x = mkSext(a, w + 2), y = mkSext(b, w + 2), r = add ? mkAdd(x, y) : mkSub(x, y); V mx = C(SMAX(w), w + 2), mn = C((uint64_t)SMIN(w), w + 2); return mkExtract(mkIte(mkSlt(mx, r), mx, mkIte(mkSlt(r, mn), mn, r)), w - 1, 0); }
static Val map1(const Val &a, const std::function<V(V)> &f) { if (!a.agg) return f(a.s); Val r = mkAgg(a.agg->size()); for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = f((*a.agg)[i].s); return r; }
static Val map2(const Val &a, const Val &b, const std::function<V(V, V)> &f) { if (!a.agg) return f(a.s, b.s); Val r = mkAgg(a.agg->size()); for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = f((*a.agg)[i].s, (*b.agg)[i].s); return r; }
static V satPack(V x, unsigned w, bool uns) { V mx = C(uns ? MASK(w) : SMAX(w), x.w), mn = C(uns ? 0 : (uint64_t)SMIN(w), x.w); return mkExtract(mkIte(mkSlt(mx, x), mx, mkIte(mkSlt(x, mn), mn, x)), w - 1, 0); }
static Val h_intrin(State &s, const DI &d, std::vector<Val> &a) {
  const Function *F = cast<CallBase>(d.I)->getCalledFunction(); auto id = F->getIntrinsicID();
  switch (id) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::vastart: case Intrinsic::vaend:
    return d.dst >= 0 ? undefOf(d.ty) : Val();
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return h_memcpy(s, d, a);
  case Intrinsic::memset: case Intrinsic::memset_inline: return h_memset(s, d, a);
  case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: return a[0];
  case Intrinsic::umax: return map2(a[0], a[1], [](V x, V y) { return mkIte(mkUlt(x, y), y, x); });
  case Intrinsic::umin: return map2(a[0], a[1], [](V x, V y) { return mkIte(mkUlt(x, y), x, y); });
  case Intrinsic::smax: return map2(a[0], a[1], [](V x, V y) { return mkIte(mkSlt(x, y), y, x); });
  case Intrinsic::smin: return map2(a[0], a[1], [](V x, V y) { return mkIte(mkSlt(x, y), x, y); });
  case Intrinsic::abs: return map1(a[0], [](V x) { return mkIte(mkSlt(x, C(0, x.w)), mkSub(C(0, x.w), x), x); });
  case Intrinsic::ctlz: return map1(a[0], ctlzV);
  case Intrinsic::cttz: return map1(a[0], cttzV);
  case Intrinsic::ctpop: return map1(a[0], popV);
  case Intrinsic::bswap: return map1(a[0], [](V x) { V r = mkExtract(x, 7, 0); for (unsigned i = 8; i < x.w; i += 8) r = mkConcat(r, mkExtract(x, i + 7, i)); return r; });
  case Intrinsic::bitreverse: return map1(a[0], [](V x) { V r = mkExtract(x, 0, 0); for (unsigned i = 1; i < x.w; i++) r = mkConcat(r, mkExtract(x, i, i)); return r; });
  case Intrinsic::fshl: case Intrinsic::fshr: { if (a[0].agg) INC("vector funnel shift"); unsigned w = a[0].s.w; V k = mkBin(O_UREM, a[2].s, C(w, w)); if (k.isC()) { unsigned n = k.c; if (id == Intrinsic::fshl) { if (!n) return a[0]; return mkOr(mkBin(O_SHL, a[0].s, C(n, w)), mkBin(O_LSHR, a[1].s, C(w - n, w))); } if (!n) return a[1]; return mkOr(mkBin(O_LSHR, a[1].s, C(n, w)), mkBin(O_SHL, a[0].s, C(w - n, w))); }
    V nk = mkSub(C(w, w), k); if (id == Intrinsic::fshl) return mkIte(mkEq(k, C(0, w)), a[0].s, mkOr(mkBin(O_SHL, a[0].s, k), mkBin(O_LSHR, a[1].s, nk))); return mkIte(mkEq(k, C(0, w)), a[1].s, mkOr(mkBin(O_LSHR, a[1].s, k), mkBin(O_SHL, a[0].s, nk))); }
  case Intrinsic::uadd_sat: return map2(a[0], a[1], [](V x, V y) { return satU(x, y, true); });
  case Intrinsic::usub_sat: return map2(a[0], a[1], [](V x, V y) { return satU(x, y, false); });
  case Intrinsic::sadd_sat: return map2(a[0], a[1], [](V x, V y) { return satS(x, y, true); });
  case Intrinsic::ssub_sat: return map2(a[0], a[1], [](V x, V y) { return satS(x, y, false); });
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    V x = a[0].s, y = a[1].s; unsigned w = x.w; Val r = mkAgg(2); V v, o;
    if (id == Intrinsic::uadd_with_overflow) { v = mkAdd(x, y); o = mkUlt(v, x); } else if (id == Intrinsic::usub_with_overflow) { v = mkSub(x, y); o = mkUlt(x, y); }
    else if (id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow) { bool ad = id == Intrinsic::sadd_with_overflow; v = ad ? mkAdd(x, y) : mkSub(x, y); V sx = mkExtract(x, w - 1, w - 1), sy = mkExtract(y, w - 1, w - 1), sv = mkExtract(v, w - 1, w - 1); if (!ad) sy = mkNot(sy); o = mkAnd(mkEq(sx, sy), mkNe(sx, sv)); }
    else { v = mkMul(x, y); if (x.isC() && y.isC()) { unsigned __int128 p = (unsigned __int128)x.c * y.c; bool ov = p > MASK(w); if (id == Intrinsic::smul_with_overflow) { __int128 q = (__int128)SX(x.c, w) * SX(y.c, w); ov = q < SMIN(w) || q > SMAX(w); } o = C(ov, 1); } else if (w <= 32) { unsigned W = w * 2; bool sg = id == Intrinsic::smul_with_overflow; V X = sg ? mkSext(x, W) : mkZext(x, W), Y = sg ? mkSext(y, W) : mkZext(y, W), P = mkMul(X, Y); o = mkNe(P, sg ? mkSext(v, W) : mkZext(v, W)); } else if (id == Intrinsic::umul_with_overflow && (y.isC() || x.isC())) { V k = y.isC() ? y : x, z = y.isC() ? x : y; o = k.c ? mkUlt(C(~0ull / k.c, 64), z) : FALSE_(); } else INC("umul overflow 64"); }
    (*r.agg)[0] = v; (*r.agg)[1] = o; return r; }
  case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: { V r = (*a[0].agg)[0].s; for (size_t i = 1; i < a[0].agg->size(); i++) { V x = (*a[0].agg)[i].s; r = id == Intrinsic::vector_reduce_add ? mkAdd(r, x) : id == Intrinsic::vector_reduce_or ? mkOr(r, x) : id == Intrinsic::vector_reduce_and ? mkAnd(r, x) : mkXor(r, x); } return r; }
  case Intrinsic::vector_reduce_smax: case Intrinsic::vector_reduce_smin: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: { V r = (*a[0].agg)[0].s; for (size_t i = 1; i < a[0].agg->size(); i++) { V x = (*a[0].agg)[i].s; V c = id == Intrinsic::vector_reduce_smax ? mkSlt(r, x) : id == Intrinsic::vector_reduce_smin ? mkSlt(x, r) : id == Intrinsic::vector_reduce_umax ? mkUlt(r, x) : mkUlt(x, r); r = mkIte(c, x, r); } return r; }
  case Intrinsic::eh_typeid_for: return h_typeid(s, d, a);
  case Intrinsic::trap: case Intrinsic::ubsantrap: throw PathError{ "trap", "llvm.trap reached" };
  case Intrinsic::is_constant: return C(0, 1);
  case Intrinsic::objectsize: return C(~0ull, d.w);
  case Intrinsic::sqrt: return h_sqrt(s, d, a);
  case Intrinsic::fabs: { if (d.w != 64) INC("fabsf"); if (!a[0].s.isC()) INC("symbolic floating point"); return C(a[0].s.c & ~(1ull << 63), 64); }
  case Intrinsic::floor: return h_fp1<floor>(s, d, a); case Intrinsic::ceil: return h_fp1<ceil>(s, d, a); case Intrinsic::log: return h_fp1<log>(s, d, a); case Intrinsic::log2: return h_fp1<log2>(s, d, a); case Intrinsic::round: return h_fp1<round>(s, d, a); case Intrinsic::log10: return h_fp1<log10>(s, d, a); case Intrinsic::exp: return h_fp1<exp>(s, d, a); case Intrinsic::pow: return h_pow(s, d, a);
  case Intrinsic::fmuladd: { double x, y, z; if (!a[0].s.isC() || !a[1].s.isC() || !a[2].s.isC() || d.w != 64) INC("symbolic floating point"); memcpy(&x, &a[0].s.c, 8); memcpy(&y, &a[1].s.c, 8); memcpy(&z, &a[2].s.c, 8); x = x * y + z; uint64_t c; memcpy(&c, &x, 8); return C(c, 64); }
  case Intrinsic::x86_sse2_psad_bw: { Val r = mkAgg(2); for (int h = 0; h < 2; h++) { V t = C(0, 64); for (int i = 0; i < 8; i++) { V x = mkZext((*a[0].agg)[h * 8 + i].s, 9), y = mkZext((*a[1].agg)[h * 8 + i].s, 9); V df = mkIte(mkUlt(x, y), mkSub(y, x), mkSub(x, y)); t = mkAdd(t, mkZext(df, 64)); } (*r.agg)[h] = t; } return r; }
  case Intrinsic::x86_sse2_pmadd_wd: { Val r = mkAgg(4); for (int i = 0; i < 4; i++) { auto e = [&](const Val &v, int k) { return mkSext((*v.agg)[k].s, 32); }; (*r.agg)[i] = mkAdd(mkMul(e(a[0], 2 * i), e(a[1], 2 * i)), mkMul(e(a[0], 2 * i + 1), e(a[1], 2 * i + 1))); } return r; }
  case Intrinsic::x86_sse2_packsswb_128: case Intrinsic::x86_sse2_packuswb_128: { Val r = mkAgg(16); for (int i = 0; i < 16; i++) (*r.agg)[i] = satPack((*a[i / 8].agg)[i % 8].s, 8, id == Intrinsic::x86_sse2_packuswb_128); return r; }
  case Intrinsic::x86_sse2_packssdw_128: { Val r = mkAgg(8); for (int i = 0; i < 8; i++) (*r.agg)[i] = satPack((*a[i / 4].agg)[i % 4].s, 16, false); return r; }
  default: break;
  }
  INC("intrinsic " + F->getName().str());
}

static const std::map<std::string, Handler> &table() {
  static const std::map<std::string, Handler> t = {
    {"memcpy", h_memcpy}, {"memmove", h_memcpy}, {"memset", h_memset}, {"memcmp", h_memcmp}, {"bcmp", h_bcmp}, {"strlen", h_strlen}, {"memchr", h_memchr},
    {"malloc", h_malloc}, {"sym_alloc_limit", h_alloc_limit}, {"sym_alloc_cap", h_alloc_cap}, {"calloc", h_calloc}, {"free", h_free}, {"_Znwm", h_malloc}, {"_Znam", h_malloc}, {"_ZdlPv", h_free}, {"_ZdaPv", h_free}, {"_ZdlPvm", h_free}, {"_ZdaPvm", h_free}, {"_ZnwmRKSt9nothrow_t", h_malloc},
    {"_ZnwmSt11align_val_t", h_newal}, {"_ZdlPvSt11align_val_t", h_free}, {"_ZdlPvmSt11align_val_t", h_free}, {"posix_memalign", h_posix_memalign}, {"aligned_alloc", h_aligned_alloc},
    {"abort", h_abort}, {"_ZSt9terminatev", h_abort}, {"__clang_call_terminate", h_abort}, {"__cxa_pure_virtual", h_abort}, {"exit", h_exit}, {"_exit", h_exit}, {"__assert_fail", h_abort}, {"__stack_chk_fail", h_abort},
    {"sym_bytes", h_sym_bytes}, {"sym_bits", h_sym_bits}, {"sym_range", h_sym_range}, {"sym_assume", h_sym_assume}, {"sym_assert", h_sym_assert}, {"sym_possible", h_sym_possible}, {"sym_reach", h_sym_reach}, {"sym_param", h_sym_param}, {"sym_concrete", h_sym_concrete}, {"sym_log", h_sym_log}, {"sym_show", h_sym_show}, {"sym_is_concrete", h_sym_isc}, {"sym_stop", h_sym_stop},
    {"__cxa_allocate_exception", h_alloc_exc}, {"__cxa_free_exception", h_ret0}, {"__cxa_throw", h_throw}, {"__cxa_rethrow", h_rethrow}, {"__cxa_begin_catch", h_begin_catch}, {"__cxa_end_catch", h_end_catch}, {"__cxa_guard_acquire", h_guard_acq}, {"__cxa_guard_release", h_guard_rel}, {"__cxa_guard_abort", h_ret0}, {"__cxa_atexit", h_ret0}, {"__cxa_get_exception_ptr", h_arg0},
    {"_ZSt20__throw_length_errorPKc", h_throwstd<0>}, {"_ZSt20__throw_out_of_rangePKc", h_throwstd<1>}, {"_ZSt24__throw_out_of_range_fmtPKcz", h_throwstd<1>}, {"_ZSt19__throw_logic_errorPKc", h_throwstd<2>}, {"_ZSt17__throw_bad_allocv", h_throwstd<3>}, {"_ZSt25__throw_bad_function_callv", h_throwstd<4>}, {"_ZSt24__throw_invalid_argumentPKc", h_throwstd<5>}, {"_ZSt21__throw_runtime_errorPKc", h_throwstd<6>}, {"_ZSt20__throw_system_errori", h_throwstd<7>}, {"_ZSt28__throw_bad_array_new_lengthv", h_throwstd<8>}, {"__cxa_throw_bad_array_new_length", h_throwstd<8>}, {"_ZSt16__throw_bad_castv", h_throwstd<9>}, {"__cxa_bad_cast", h_throwstd<9>},
    {"_ZNSt8ios_base4InitC1Ev", h_ret0}, {"_ZNSt8ios_base4InitD1Ev", h_ret0}, {"_ZNSt3_V216generic_categoryEv", h_opaque}, {"__errno_location", h_errno},
    {"pthread_mutex_lock", h_ret0}, {"pthread_mutex_unlock", h_ret0}, {"pthread_mutex_destroy", h_ret0}, {"pthread_mutex_init", h_ret0}, {"fflush", h_ret0}, {"puts", h_ret0}, {"printf", h_ret0}, {"fprintf", h_ret0}, {"fputs", h_ret0}, {"fwrite", h_ret0}, {"putchar", h_ret0},
    {"sqrt", h_sqrt}, {"log", h_fp1<log>}, {"log2", h_fp1<log2>}, {"log10", h_fp1<log10>}, {"exp", h_fp1<exp>}, {"floor", h_fp1<floor>}, {"ceil", h_fp1<ceil>}, {"round", h_fp1<round>}, {"pow", h_pow},
  };
  return t;
}
static Handler findHandler(const std::string &n, const Function *F) {
  if (F->isIntrinsic()) return h_intrin;
  auto it = table().find(n); if (it != table().end()) return it->second;
  auto has = [&](const char *x) { return n.find(x) != std::string::npos; };
  bool decl = F->isDeclaration();
  // stream output: formatting is not the subject of any property; every inserter returns its stream
  if (n.compare(0, 2, "_Z") == 0 && (n.compare(0, 6, "_ZStls") == 0 || n.compare(0, 6, "_ZNSo") == 0 || has("__ostream_insert") || n.compare(0, 6, "_ZNSol") == 0 || has("St4endlI") || has("St5flushI"))) return F->getReturnType()->isVoidTy() ? h_ret0 : h_arg0;
  if (n.compare(0, 5, "_ZNSo") == 0) return F->getReturnType()->isVoidTy() ? h_ret0 : h_arg0;
  if (has("basic_ostringstream") || has("basic_stringstream") || has("basic_stringbuf") || has("St9basic_ios") || has("St8ios_base")) if (decl) return F->getReturnType()->isVoidTy() ? h_ret0 : h_arg0;
  // constructors and destructors of standard exceptions (message text is irrelevant)
  for (const char *x : { "St13runtime_error", "St11logic_error", "St12out_of_range", "St16invalid_argument", "St9exception", "St12system_error", "St12length_error", "St9bad_alloc", "St12domain_error", "St11range_error", "St14overflow_error" })
    if (decl && n.compare(0, 3, "_ZN") == 0 && (n.find(x) != std::string::npos)) return h_ret0;
  return nullptr;
}
