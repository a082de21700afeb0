// Word-level canonical forms. Every bit-vector term is read as an integer linear form over atoms, modulo 2^w; sums built in
// different orders or widths, shifts, and 16-bit against 32-bit arithmetic then become the same term. canon(v) is equivalent to v
// for every assignment (it uses only bounds that hold unconditionally), so a query may be replaced by its canonical form.
#include "expr.hh"
#include <numeric>
#include <set>
#include <climits>
typedef __int128 I;
namespace {
struct L { std::map<uint32_t, std::pair<V, I>> t; I k = 0; bool bad = false; };
const I CAP = (I)1 << 100;
void addT(L &l, V a, I c) { auto it = l.t.find(a.n->id); if (it == l.t.end()) { if (c) l.t[a.n->id] = { a, c }; } else { it->second.second += c; if (!it->second.second) l.t.erase(it); } }
void acc(L &l, const L &o, I c) { if (o.bad) l.bad = true; for (auto &e : o.t) addT(l, e.second.first, e.second.second * c); l.k += o.k * c; }
struct Relu { L q; I lo, hi; };
std::unordered_map<const Node*, Relu> relus;   // atom = max(0, q)
std::unordered_map<const Node*, L> preds;      // condition = (form < 0)
std::unordered_map<const Node*, std::vector<L>> predAlts; // other forms negative under exactly the same condition
std::unordered_map<const Node*, std::pair<L, unsigned>> floors; // atom -> (form, shift) it is the floor of
void vrange(V v, I &lo, I &hi) { auto it = relus.find(v.n); if (it != relus.end()) { lo = it->second.lo; hi = it->second.hi; } else { lo = SMINV(v); hi = SMAXV(v); } }
// affine form with floors opened: value * 2^SC = sum t + [lo, hi]
const int SC = 44; struct Aff { std::map<uint32_t, std::pair<V, I>> t; I lo = 0, hi = 0; }; std::unordered_map<const Node*, Aff> affMemo;
void affAdd(Aff &a, V v, I c) { auto &e = a.t[v.n->id]; e.first = v; e.second += c; if (!e.second) a.t.erase(v.n->id); }
Aff affL(const L &l, unsigned s);
const Aff &affAtom(V v) {
  auto it = affMemo.find(v.n); if (it != affMemo.end()) return it->second;
  Aff a; auto f = floors.find(v.n);
  if (f == floors.end()) affAdd(a, v, (I)1 << SC);
  else { a = affL(f->second.first, f->second.second); a.lo -= (I)1 << SC; } // floor(R/2^s) in (R/2^s - 1, R/2^s]
  return affMemo[v.n] = a;
}
Aff affL(const L &l, unsigned s) { // l / 2^s
  Aff r; r.lo = r.hi = floors.empty() ? 0 : 0; I D = (I)1 << s;
  auto dv = [&](I x, bool up) { I q = x / D; if (x % D && ((x % D < 0))) q--; return up && x % D ? q + 1 : q; };
  std::map<uint32_t, std::pair<V, I>> t; I lo = 0, hi = 0; // times 2^SC, before dividing
  for (auto &e : l.t) { const Aff a = affAtom(e.second.first); I c = e.second.second; for (auto &x : a.t) { auto &y = t[x.first]; y.first = x.second.first; y.second += x.second.second * c; } I p = a.lo * c, q = a.hi * c; lo += std::min(p, q); hi += std::max(p, q); }
  lo += l.k << SC; hi += l.k << SC;
  for (auto &e : t) { I c = e.second.second, q = dv(c, false), rem = c - q * D; if (q) affAdd(r, e.second.first, q); if (rem) { I a, b; vrange(e.second.first, a, b); lo += std::min(rem * a, rem * b); hi += std::max(rem * a, rem * b); } }
  r.lo = dv(lo, false); r.hi = dv(hi, true); return r;
}
void range0(const L &l, I &lo, I &hi) {
  lo = hi = l.k; bool fl = false; I big = 0;
  for (auto &e : l.t) { I vl, vh; vrange(e.second.first, vl, vh); I a = e.second.second * vl, b = e.second.second * vh; lo += std::min(a, b); hi += std::max(a, b); if (floors.count(e.second.first.n)) fl = true; big += e.second.second < 0 ? -e.second.second : e.second.second; }
  if (!fl || l.bad || big > ((I)1 << 40)) return;
  Aff a = affL(l, 0); I p = a.lo, q = a.hi; for (auto &e : a.t) { I vl, vh; vrange(e.second.first, vl, vh); I x = e.second.second * vl, y = e.second.second * vh; p += std::min(x, y); q += std::max(x, y); }
  I D = (I)1 << SC; I pl = p / D; if (p % D > 0) pl++; I qh = q / D; if (q % D < 0) qh--; // integers inside
  lo = std::max(lo, pl); hi = std::min(hi, qh);
}
struct Fact { L o; I lo, hi; }; std::unordered_map<const Node*, Fact> facts; // lo <= atom + o <= hi
void rangeD(const L &l, I &lo, I &hi, int depth) {
  range0(l, lo, hi);
  { L r; I plo = 0, phi = 0; bool any = false; // floor atoms together with the whole part that was split off them
    for (auto &e : l.t) { auto it = facts.find(e.second.first.n); if (it == facts.end()) continue; if (!any) { r = l; any = true; }
      I c = e.second.second; auto ra = r.t.find(e.first); if (ra == r.t.end() || ra->second.second != c) continue; r.t.erase(ra); acc(r, it->second.o, -c);
      plo += c * (c > 0 ? it->second.lo : it->second.hi); phi += c * (c > 0 ? it->second.hi : it->second.lo); }
    if (any) { I a, b; range0(r, a, b); lo = std::max(lo, a + plo); hi = std::min(hi, b + phi); } }
  if (!relus.empty()) { L up, dn; bool u = false, d = false; // relu(q) >= q/2: all the maxima of one sign at once, everything doubled
    for (auto &e : l.t) { auto it = relus.find(e.second.first.n); if (it != relus.end()) { if (e.second.second < 0) u = true; else d = true; } }
    auto half = [&](bool neg) { L r; r.k = 2 * l.k; for (auto &e : l.t) { auto it = relus.find(e.second.first.n); if (it != relus.end() && (e.second.second < 0) == neg) acc(r, it->second.q, e.second.second); else addT(r, e.second.first, 2 * e.second.second); } return r; };
    I a, b; if (u) { range0(half(true), a, b); I h = b / 2; if (b % 2 && b < 0) h--; hi = std::min(hi, h); } if (d) { range0(half(false), a, b); I h = a / 2; if (a % 2 && a > 0) h++; lo = std::max(lo, h); } }
  if (!depth) return; int n = 0;
  for (auto &e : l.t) { auto it = relus.find(e.second.first.n); if (it == relus.end() || ++n > 4) continue; I c = e.second.second;
    // c*relu(q) + r  =  max(r, r+c*q) for c > 0, min for c < 0
    L r = l; r.t.erase(e.first); L s = r; acc(s, it->second.q, c); I a, b, p, q; rangeD(r, a, b, depth - 1); rangeD(s, p, q, depth - 1);
    if (c > 0) { lo = std::max(lo, std::max(a, p)); hi = std::min(hi, std::max(b, q)); } else { lo = std::max(lo, std::min(a, p)); hi = std::min(hi, std::min(b, q)); } }
}
void range(const L &l, I &lo, I &hi) { rangeD(l, lo, hi, 3); }
void rangeOld(const L &l, I &lo, I &hi) { lo = hi = l.k; for (auto &e : l.t) { I a = e.second.second * SMINV(e.second.first), b = e.second.second * SMAXV(e.second.first); lo += std::min(a, b); hi += std::max(a, b); } }
I floordiv(I a, I b) { I q = a / b; if (a % b && (a < 0) != (b < 0)) q--; return q; }
std::unordered_map<const Node*, L> modMemo; std::unordered_map<const Node*, V> canMemo;
V canonV(V v);
const L &modOf(V v);
L modC(V v) { if (v.isC()) { L l; l.k = SX(v.c, v.w); return l; } return modOf(v); }
L atom(V v) { L l; if (v.isC()) l.k = SX(v.c, v.w); else addT(l, v, 1); return l; }
// narrowest width in which every partial sum stays exact
unsigned widthOf(const L &l) { I m = 0; for (auto &e : l.t) { I a = e.second.second * SMINV(e.second.first), b = e.second.second * SMAXV(e.second.first); m += std::max(a < 0 ? -a : a, b < 0 ? -b : b); } m += l.k < 0 ? -l.k : l.k; unsigned w = 2; while (w < 120 && m >= ((I)1 << (w - 1))) w++; return w; }
V fit(V a, unsigned w) { return a.w == w ? a : a.w > w ? mkExtract(a, w - 1, 0) : mkSext(a, w); }
V build(const L &l, unsigned w) {
  V r; bool any = false;
  for (int neg = 0; neg < 2; neg++) for (auto &e : l.t) {
    I c = e.second.second; if ((c < 0) != (neg == 1)) continue;
    V m = mkMul(fit(e.second.first, w), C((uint64_t)(neg ? -c : c), w));
    if (!any) { r = neg ? mkSub(C(0, w), m) : m; any = true; } else r = neg ? mkSub(r, m) : mkAdd(r, m); }
  V k = C((uint64_t)l.k, w);
  return any ? mkAdd(r, k) : k;
}
// integer value of v as signed / unsigned word
L floorOf(L l, unsigned s);
std::unordered_map<const Node*, L> cuts; // clamped octet kept whole -> its form
L uncut(const L &l) { L r = l; for (int again = 0; again < 3; again++) { bool any = false; L o; o.k = r.k; o.bad = r.bad; for (auto &e : r.t) { auto it = cuts.find(e.second.first.n); if (it == cuts.end()) addT(o, e.second.first, e.second.second); else { acc(o, it->second, e.second.second); any = true; } } r = o; if (!any) break; } return r; }
L exact(V v, bool sgn) {
  L l = modC(v); if (v.isC()) { L r; r.k = sgn ? (I)SX(v.c, v.w) : (I)v.c; return r; }
  if (v.w == 1) { if (sgn) { L r; acc(r, l, -1); return r; } return l; }
  I M = (I)1 << v.w, base = sgn ? -(M >> 1) : 0, lo, hi;
  if (!l.bad) { range(l, lo, hi); I q = floordiv(lo - base, M); if (floordiv(hi - base, M) == q) { l.k -= q * M;
      if (v.w == 8 && !sgn && l.t.size() > 1) for (auto &e : l.t) if (relus.count(e.second.first.n) || floors.count(e.second.first.n)) { V b = mkExtract(build(l, std::max(widthOf(l), 8u)), 7, 0); if (b.isC()) break; V a = mkZext(b, 9); L r; addT(r, a, 1); cuts[a.n] = l; return r; }
      return l; } }
  if (!l.bad && v.w < 60 && l.t.size() < 40) { L h = l; if (sgn) h.k += M >> 1; L f = floorOf(h, v.w); if (!f.bad) { acc(l, f, -M); return l; } }
  V c = canonV(v);
  return atom(sgn ? c : mkZext(c, c.w + 1 <= 64 ? c.w + 1 : c.w));
}
void regPred(V c, const L &p) { // c <=> p < 0
  L np; acc(np, p, -1); np.k -= 1; auto reg = [](V c, const L &p, const L &np) { if (!c.n) return; if (c.n->op == O_NOT) { if (c.n->k[0].n) preds[c.n->k[0].n] = np; } else preds[c.n] = p; };
  reg(c, p, np); reg(mkNot(c), np, p);
}
std::string showL(const L &l, int d);
void altPred(V c, const L &p) {
  if (!c.n) return; bool inv = c.n->op == O_NOT; const Node *k = inv ? c.n->k[0].n : c.n; if (!k) return; L q = p; if (inv) { L np; acc(np, p, -1); np.k -= 1; q = np; }
  auto &v = predAlts[k]; if (v.size() >= 6) return; for (auto &o : v) { L d = o; acc(d, q, -1); if (d.t.empty() && !d.k) return; } v.push_back(q);
}
L relu(L q);
void stripMinMax(L &l) {
  for (bool ch = true; ch;) { ch = false; // min(A, k >= 0) < 0 and max(A, k < 0) < 0 say A < 0
    for (auto &e : l.t) if (e.second.second == 1 || e.second.second == -1) { auto it = relus.find(e.second.first.n); if (it == relus.end()) continue;
      I c = e.second.second; L A = l; A.t.erase(e.first); L B = A; acc(B, it->second.q, c); if (!A.t.empty()) std::swap(A, B); if (!A.t.empty()) continue;
      if (c < 0 ? A.k >= 0 : A.k < 0) { l = B; ch = true; break; } } }
}
// floor(R / 2^s) + M < 0  <=>  R + 2^s M < 0, and likewise negated
void normPred(L &l) {
  for (int again = 0; again < 4; again++) { stripMinMax(l);
    std::pair<L, unsigned> *f = nullptr; uint32_t id = 0; I c = 0; unsigned cnt = 0;
    for (auto &e : l.t) if (e.second.second == 1 || e.second.second == -1) { auto it = floors.find(e.second.first.n); if (it != floors.end()) { cnt++; f = &it->second; id = e.first; c = e.second.second; } }
    if (cnt != 1) break;
    L m = l; m.t.erase(id); if (c < 0) m.k += 1; L y; acc(y, f->first, c); acc(y, m, (I)1 << f->second); if (c < 0) y.k -= 1;
    if (y.k > CAP / 4 || y.k < -CAP / 4 || f->second > 40) break; l = y; }
}
// P < 0 ? -1 : 0
L signForm(L l) {
  I lo, hi; L r; normPred(l); range(l, lo, hi); if (hi < 0) { r.k = -1; return r; } if (lo >= 0 || l.t.empty()) return r;
  I g = 0; for (auto &e : l.t) { I c = e.second.second < 0 ? -e.second.second : e.second.second; while (c) { I t = g % c; g = c; c = t; } }
  for (auto &e : l.t) e.second.second /= g;
  l.k = -floordiv(-l.k - 1, g) - 1;
  if (l.t.begin()->second.second < 0) { L n; acc(n, l, -1); n.k -= 1; L q = signForm(n); acc(r, q, -1); r.k -= 1; return r; }
  range(l, lo, hi); unsigned s = 1; while (hi >= ((I)1 << s) || lo < -((I)1 << s)) s++;
  unsigned w = std::max(widthOf(l), s + 1); if (w > 64) { r.bad = true; return r; }
  V f = mkExtract(build(l, w), s, s); if (f.isC()) { r.k = f.c ? -1 : 0; return r; }
  floors[f.n] = { l, s }; regPred(f, l); addT(r, f, 1); return r;
}
// floor(l / 2^s) as a form
L floorOf(L l, unsigned s) {
  if (!s) return l; 
  auto simple = [&](L &res) {
  { I lo, hi, D = (I)1 << s; range(l, lo, hi); I a = floordiv(lo, D), b = floordiv(hi, D); L r; if (a == b) { r.k = a; res = r; return true; } if (b == a + 1) { L p = l; p.k -= b * D; r = signForm(p); if (!r.bad) { r.k += b; res = r; return true; } } }
  for (auto &e : l.t) if (e.second.second == 1 || e.second.second == -1) { auto it = relus.find(e.second.first.n); if (it == relus.end()) continue; // min and max against a constant commute with floor
    I c = e.second.second; L A = l; A.t.erase(e.first); L B = A; acc(B, it->second.q, c); if (!A.t.empty() && !B.t.empty()) continue;
    L fa = floorOf(A, s), fb = floorOf(B, s), d; if (fa.bad || fb.bad) break; acc(d, c > 0 ? fb : fa, 1); acc(d, c > 0 ? fa : fb, -1); L r = relu(d); if (r.bad) break; acc(fa, r, c); res = fa; return true; }
    return false; };
  L res; if (simple(res)) return res; unsigned sOld = s;
  for (int again = 0; again < 4; again++) { // floor((floor(Y/2^a) + M) / 2^s) = floor((Y + 2^a M) / 2^(a+s))
    std::pair<L, unsigned> *f = nullptr; uint32_t id = 0; unsigned cnt = 0;
    for (auto &e : l.t) if (e.second.second == 1) { auto it = floors.find(e.second.first.n); if (it != floors.end()) { cnt++; f = &it->second; id = e.first; } }
    if (cnt != 1 || f->second + s > 60) break;
    L m = l; m.t.erase(id); L y = f->first; acc(y, m, (I)1 << f->second); s += f->second; l = y;
  }
  if (s != sOld && simple(res)) return res;
  unsigned s0 = s; I D = (I)1 << s; L out, rest; I tlo, thi, TD = D; range(l, tlo, thi);
  for (auto &e : l.t) { I c = e.second.second, q = floordiv(c + D * 2 / 5, D); I r = c - q * D; if (q) addT(out, e.second.first, q); if (r) addT(rest, e.second.first, r); }
  I q = floordiv(l.k, D); out.k += q; rest.k = l.k - q * D;
  if (rest.t.empty()) return out;
  // divide through by a power of two all coefficients share
  unsigned tz = s; for (auto &e : rest.t) { I c = e.second.second < 0 ? -e.second.second : e.second.second; unsigned t = 0; while (!(c & 1)) { c >>= 1; t++; } tz = std::min(tz, t); }
  if (tz) { for (auto &e : rest.t) e.second.second >>= tz; rest.k = floordiv(rest.k, (I)1 << tz); s -= tz; D = (I)1 << s; }
  if (!s) { acc(out, rest, 1); return out; }
  I lo, hi; range(rest, lo, hi); I ql = floordiv(lo, D);
  if (floordiv(hi, D) == ql) { out.k += ql; return out; }
  if (floordiv(hi, D) == ql + 1) { L p = rest; p.k -= (ql + 1) * D; L sf = signForm(p); if (!sf.bad) { out.k += ql + 1; acc(out, sf, 1); return out; } }
  unsigned w = widthOf(rest); if (w > 64) { out.bad = true; return out; }
  if (w <= s) w = s + 1;
  if (w > 64) { out.bad = true; return out; }
  if (getenv("SYMX_SHOWFL")) fprintf(stderr, "FLOOR s=%u of %s\n   whole %s s=%u range %lld %lld\n", s, showL(rest, 3).c_str(), showL(l, 3).c_str(), s0, (long long)tlo, (long long)thi);
  V b = build(rest, w); V f = mkExtract(b, w - 1, s);
  if (f.isC()) out.k += SX(f.c, f.w); else { floors[f.n] = { rest, s }; if (!out.t.empty()) { I fl = floordiv(tlo, TD), fh = floordiv(thi, TD); auto it = facts.find(f.n); if (it == facts.end() || fh - fl < it->second.hi - it->second.lo) facts[f.n] = { out, fl, fh }; } addT(out, f, 1); }
  return out;
}
V predLt0(L l); // l < 0
std::unordered_map<const Node*, L> eqs; // condition = (form == 0)
V predEq0(L l) {
  { bool any = false; for (auto &e : l.t) any |= cuts.count(e.second.first.n) > 0; if (any) { L u = uncut(l); I a, b; range(u, a, b); if (!u.bad && (a > 0 || b < 0 || u.t.empty())) return C(u.t.empty() && u.k == 0, 1); } }
  I lo, hi; range(l, lo, hi); if (lo > 0 || hi < 0) return FALSE_(); if (l.t.empty()) return C(l.k == 0, 1);
  I g = 0; for (auto &e : l.t) { I c = e.second.second < 0 ? -e.second.second : e.second.second; while (c) { I t = g % c; g = c; c = t; } }
  if (l.k % g) return FALSE_();
  bool neg = l.t.begin()->second.second < 0; for (auto &e : l.t) e.second.second /= neg ? -g : g; l.k /= neg ? -g : g;
  unsigned w = widthOf(l); if (w > 64) return V();
  L pos, ng; for (auto &e : l.t) if (e.second.second > 0) addT(pos, e.second.first, e.second.second); else addT(ng, e.second.first, -e.second.second);
  ng.k = -l.k; V r = mkEq(build(pos, w), build(ng, w)); if (r.n) eqs[r.n] = l; return r;
}
V predLt0(L l) {
  L given = l; I lo, hi; normPred(l);
  range(l, lo, hi); if (hi < 0) return TRUE_(); if (lo >= 0) return FALSE_(); if (l.t.empty()) return C(l.k < 0, 1);
  I g = 0; for (auto &e : l.t) { I c = e.second.second < 0 ? -e.second.second : e.second.second; while (c) { I t = g % c; g = c; c = t; } }
  for (auto &e : l.t) e.second.second /= g;
  l.k = -floordiv(-l.k - 1, g) - 1;   // g*M + k < 0  <=>  M <= floor((-k-1)/g)
  bool flip = l.t.begin()->second.second < 0;
  if (flip) { for (auto &e : l.t) e.second.second = -e.second.second; l.k = -l.k - 1; }
  unsigned w = widthOf(l); if (w > 64) return V();
  if (w > 63) return V();
  L m = l; m.k = 0; V r = mkSlt(build(m, w), C((uint64_t)(-l.k), w));
  regPred(r, l); V nr = mkNot(r);
  altPred(flip ? nr : r, given); return flip ? nr : r;
}
L diff(const L &a, const L &b) { L r = a; acc(r, b, -1); return r; }
V canonB(V v) { // width 1
  const Node *n = v.n;
  switch (n->op) {
  case O_EQ: if (n->k[0].w > 1 && n->k[0].w < 64) {
      L d = diff(modC(n->k[0]), modC(n->k[1])); I lo, hi, M = (I)1 << n->k[0].w;
      if (!d.bad) { range(d, lo, hi); if (lo > -M && hi < M) { V r = predEq0(d); if (r.w) return r; }
        I q = floordiv(lo, M); if (floordiv(hi, M) == q) { d.k -= q * M; V r = predEq0(d); if (r.w) return r; } }
      d = diff(exact(n->k[0], true), exact(n->k[1], true)); if (!d.bad) { V r = predEq0(d); if (r.w) return r; } }
    return mkEq(canonV(n->k[0]), canonV(n->k[1]));
  case O_SLT: case O_SLE: case O_ULT: case O_ULE: {
    if (n->k[0].w >= 64) break;
    bool s = n->op == O_SLT || n->op == O_SLE; L d = diff(exact(n->k[0], s), exact(n->k[1], s)); if (n->op == O_SLE || n->op == O_ULE) d.k -= 1;
    if (!d.bad) { V r = predLt0(d); if (r.w) return r; }
    break; }
  case O_EXTRACT: if (n->lo == n->k[0].w - 1 && n->k[0].w < 64) { L d = exact(n->k[0], true); if (!d.bad) { V r = predLt0(d); if (r.w) return r; } }
    if (n->k[0].w < 64) { L d = modC(n->k[0]); I lo, hi, D = (I)1 << n->lo; if (!d.bad) { range(d, lo, hi); I a = floordiv(lo, D), b = floordiv(hi, D); // one bit of a word: parity of floor(d / 2^lo)
      if (a == b) return C(a & 1, 1); if (b == a + 1) { d.k -= b * D; V r = predLt0(d); if (r.w) return b & 1 ? mkNot(r) : r; } } }
    break;
  default: break;
  }
  switch (n->op) {
  case O_VAR: return v;
  case O_AND: { // a word compared in two pieces: floor(x / 2^s) == k and the rest == k'
    V x = canonV(n->k[0]), y = canonV(n->k[1]); if (x.isC() || y.isC()) return mkBin(O_AND, x, y);
    for (int sw = 0; sw < 2; sw++, std::swap(x, y)) { auto a = eqs.find(x.n), b = eqs.find(y.n); if (a == eqs.end() || b == eqs.end()) continue;
      const L &f = a->second; if (f.t.size() != 1 || (f.t.begin()->second.second != 1 && f.t.begin()->second.second != -1)) continue;
      auto fl = floors.find(f.t.begin()->second.first.n); if (fl == floors.end()) continue; I val = -f.k * f.t.begin()->second.second;
      L r = b->second; auto it = r.t.find(f.t.begin()->first); if (it != r.t.end()) { I c = it->second.second; r.t.erase(it); r.k += c * val; }
      L q = fl->second.first; acc(q, r, -1); if (!q.t.empty()) { q = fl->second.first; acc(q, r, 1); } // rest = +-r + const
      if (q.t.empty() && floordiv(q.k, (I)1 << fl->second.second) == val) { V e = predEq0(r); if (e.w) return e; } }
    return mkBin(O_AND, x, y); }
  case O_NOT: return mkNot(canonV(n->k[0]));
  case O_ITE: return mkIte(canonV(n->k[0]), canonV(n->k[1]), canonV(n->k[2]));
  case O_EXTRACT: { V x = canonV(n->k[0]); return mkExtract(x, n->lo, n->lo); }
  default: return mkBin(n->op, canonV(n->k[0]), canonV(n->k[1]));
  }
}
V plain(V v) { // same operator over canonical operands
  const Node *n = v.n;
  switch (n->op) {
  case O_VAR: return v;
  case O_NOT: return mkNot(canonV(n->k[0]));
  case O_ITE: return mkIte(canonV(n->k[0]), canonV(n->k[1]), canonV(n->k[2]));
  case O_CONCAT: return mkConcat(canonV(n->k[0]), canonV(n->k[1]));
  case O_EXTRACT: return mkExtract(canonV(n->k[0]), n->lo + n->w - 1, n->lo);
  case O_ZEXT: return mkZext(canonV(n->k[0]), n->w);
  case O_SEXT: return mkSext(canonV(n->k[0]), n->w);
  default: return mkBin(n->op, canonV(n->k[0]), canonV(n->k[1]));
  }
}
V maskCond(V x) { // x = sext/zero-or-all-ones of a condition
  if (x.n && x.n->op == O_SEXT && x.n->k[0].w == 1) return x.n->k[0];
  if (x.n && x.n->op == O_ITE && x.n->k[1].isC() && x.n->k[2].isC()) { if (x.n->k[1].c == MASK(x.w) && x.n->k[2].c == 0) return x.n->k[0]; if (x.n->k[2].c == MASK(x.w) && x.n->k[1].c == 0) return mkNot(x.n->k[0]); }
  return V();
}
L neg(const L &l) { L r; acc(r, l, -1); return r; }
L relu(L q) {
  I lo, hi; L none; range(q, lo, hi); if (hi <= 0) return none; if (lo >= 0 || q.bad) return q;
  I g = q.k < 0 ? -q.k : q.k; for (auto &e : q.t) { I c = e.second.second < 0 ? -e.second.second : e.second.second; while (c) { I t = g % c; g = c; c = t; } }
  if (g > 1) { for (auto &e : q.t) e.second.second /= g; q.k /= g; L r; acc(r, relu(q), g); return r; }
  for (int sgn = 1; sgn >= -1; sgn -= 2) for (auto &e : q.t) if (e.second.second == sgn) { auto it = relus.find(e.second.first.n); if (it == relus.end()) continue;
    L a = q; a.t.erase(e.first); if (sgn < 0) a = neg(a);
    L ab = a; acc(ab, it->second.q, 1); L red; I l1, h1; bool ok = false;
    range(ab, l1, h1); if (h1 <= 0) { red = relu(a); ok = true; } else { range(a, l1, h1); if (h1 <= 0) { red = relu(ab); ok = true; } }
    if (!ok) continue; if (sgn < 0) acc(red, q, 1); return red; }
  if (q.t.begin()->second.second < 0) { L r = relu(neg(q)); acc(r, q, 1); return r; }
  unsigned w = widthOf(q); L r; if (w > 60) { r.bad = true; return r; }
  V b = build(q, w); V t = mkIte(mkExtract(b, w - 1, w - 1), C(0, w), b);
  if (!t.n) { r.k = SX(t.c, t.w); return r; }
  relus[t.n] = { q, 0, hi }; addT(r, t, 1); return r;
}
// d, given P < 0: resolve ramps the condition decides
L under(L d, const L &P) {
  for (int again = 0; again < 4; again++) { bool ch = false;
    for (auto &e : d.t) { auto it = relus.find(e.second.first.n); if (it == relus.end()) continue; const L &q = it->second.q; I c = e.second.second, lo, hi;
      L u = q; acc(u, P, -1); range(u, lo, hi); // q = P + u <= hi - 1
      if (hi - 1 <= 0) { d.t.erase(e.first); ch = true; break; }
      u = q; acc(u, P, 1); range(u, lo, hi);    // q = -P + u >= lo + 1
      if (lo + 1 >= 0) { L qq = q; d.t.erase(e.first); acc(d, qq, c); ch = true; break; } }
    if (!ch) break; }
  return d;
}
// d (mod M) == m*q on the whole of P < 0, where q is the distance past the edge: returns m*relu(q)
bool ramp(const L &d0, const L &P, I M, L &out) {
  L d = under(d0, P); if (d.bad || d.t.empty() || P.t.empty()) return false;
  I pc = P.t.begin()->second.second; auto it = d.t.find(P.t.begin()->first); if (it == d.t.end()) return false;
  I dc = it->second.second; if (dc % pc) return false;
  I m = -dc / pc; if (!m) return false; L x = d; acc(x, P, m); if (!x.t.empty()) return false;
  auto is = [&](I v) { I z = x.k - v; return M ? z - floordiv(z, M) * M == 0 : z == 0; };
  L q = neg(P); if (is(0)) {} else if (is(-m)) q.k -= 1; else return false;
  L r = relu(q); if (r.bad) return false; acc(out, r, m); return true;
}
struct IteAtom { const Node *c; L d; }; std::unordered_map<const Node*, IteAtom> ites; // atom = c ? d : 0
L given(const L &l, const Node *c, bool val) { // l, where condition c is known
  L r = l; for (int again = 0; again < 4; again++) { bool any = false; L o; o.k = r.k; o.bad = r.bad;
    for (auto &e : r.t) { auto it = ites.find(e.second.first.n); if (it == ites.end()) { addT(o, e.second.first, e.second.second); continue; }
      const Node *k = it->second.c; bool v = val; if (k != c) { V cv; cv.n = c; cv.w = 1; V nc = mkNot(cv); if (nc.n == k) v = !val; else { addT(o, e.second.first, e.second.second); continue; } }
      any = true; if (v) acc(o, it->second.d, e.second.second); }
    r = o; if (!any) break; }
  return r;
}
std::string showL(const L &l, int d) { std::string s = l.bad ? "BAD " : ""; for (auto &e : l.t) { auto it = relus.find(e.second.first.n); s += std::to_string((long long)e.second.second) + "*" + (it == relus.end() ? "#" + std::to_string(e.first) + showV(e.second.first, d) : "relu{" + showL(it->second.q, 1) + "}") + " + "; } return s + std::to_string((long long)l.k); }
L iteForm(V c, L a, L b, I M = 0) { // congruent mod M (0: equal)
  if (c.isC()) return c.c ? a : b;
  a = given(a, c.n, true); b = given(b, c.n, false);
  L d = diff(a, b); I lo, hi; range(d, lo, hi); if (d.t.empty() && d.k == 0) return b;
  bool flip = c.n->op == O_NOT; if (flip) { c = c.n->k[0]; std::swap(a, b); d = diff(a, b); }
  { auto it = preds.find(c.n); if (it != preds.end() && !it->second.t.empty() && it->second.t.begin()->second.second < 0) { V nc = mkNot(c); if (nc.n && preds.count(nc.n)) { c = nc; std::swap(a, b); d = diff(a, b); } } }
  if (!d.bad) { std::vector<L> ps; auto it = preds.find(c.n); if (it != preds.end()) ps.push_back(it->second); auto ia = predAlts.find(c.n); if (ia != predAlts.end()) ps.insert(ps.end(), ia->second.begin(), ia->second.end());
    { V nc = mkNot(c); auto in = nc.n && nc.n->op != O_NOT ? predAlts.find(nc.n) : predAlts.end(); if (in != predAlts.end()) for (auto &p : in->second) { L q = neg(p); q.k -= 1; ps.push_back(q); } }
    for (size_t i = 0; i < ps.size(); i++) { const L P = ps[i]; L r = b; if (ramp(d, P, M, r)) return r;
      L nP = neg(P); nP.k -= 1; r = a; if (ramp(neg(d), nP, M, r)) return r; }
    std::set<unsigned> shifts; for (auto &e : d.t) { auto f = floors.find(e.second.first.n); if (f != floors.end()) shifts.insert(f->second.second); }
    for (unsigned s : shifts) for (size_t i = 0; i < ps.size() && i < 3; i++) for (int o = 0; o < 2; o++) { // P < 0 <=> floor(P / 2^s) < 0 <=> -floor((-P - 1) / 2^s) - 1 < 0
      L P = ps[i]; if (o) { P = neg(P); P.k -= 1; } L F = floorOf(P, s); if (F.bad || F.t.empty()) continue; L nF = neg(F); nF.k -= 1; if (o) std::swap(F, nF);
      L r = b; if (ramp(d, F, M, r)) return r; r = a; if (ramp(neg(d), nF, M, r)) return r; } }
  if (getenv("SYMX_SHOWITE")) { auto it = preds.find(c.n); fprintf(stderr, "ITE M=%lld cond %s\n  P=%s\n  a=%s\n  b=%s\n", (long long)M, showV(c, 3).c_str(), it == preds.end() ? "none" : showL(it->second, 3).c_str(), showL(a, 3).c_str(), showL(b, 3).c_str()); }
  if (d.t.empty() && !d.bad) { auto it = preds.find(c.n); if (it != preds.end()) { L sf = signForm(it->second); if (!sf.bad) { L r = b; if (M) d.k -= floordiv(d.k + M / 2, M) * M; acc(r, sf, -d.k); return r; } } }
  if (d.t.empty() && !d.bad) { L r = b; if (M) { d.k -= floordiv(d.k + M / 2, M) * M; } V t = mkIte(c, C(1, 2), C(0, 2)); addT(r, t, d.k); return r; }
  unsigned w = widthOf(d); L r = b; if (w > 64 || d.bad) { r.bad = true; return r; }
  V t = mkIte(c, build(d, w), C(0, w));
  if (t.isC()) r.k += SX(t.c, t.w); else { addT(r, t, 1); if (t.n->op == O_ITE && t.n->k[0] == c) ites[t.n] = { c.n, d }; }
  return r;
}
const L &modOf(V v) {
  auto it = modMemo.find(v.n); if (it != modMemo.end()) return it->second;
  const Node *n = v.n; L r; unsigned w = n->w; bool done = false;
  if (w == 1) { V c = canonV(v); return modMemo[v.n] = iteForm(c, [] { L o; o.k = 1; return o; }(), L()); }
  auto K = [&](int i) { return n->k[i]; };
  switch (n->op) {
  case O_ADD: r = modC(K(0)); acc(r, modC(K(1)), 1); break;
  case O_SUB: r = modC(K(0)); acc(r, modC(K(1)), -1); break;
  case O_MUL: {
    L a = modC(K(0)), b = modC(K(1)); r.bad = a.bad || b.bad;
    if (a.t.empty()) std::swap(a, b);
    if (b.t.empty()) { acc(r, a, b.k); break; }
    if (a.t.size() * b.t.size() <= 16) {
      acc(r, a, b.k); L bb = b; bb.k = 0; L b0 = bb; acc(r, bb, a.k);
      for (auto &x : a.t) for (auto &y : b.t) { V p = x.second.first, q = y.second.first; if (p.n->id > q.n->id) std::swap(p, q); unsigned pw = p.w + q.w; if (pw > 64) { r.bad = true; break; }
        V m = mkMul(mkSext(p, pw), mkSext(q, pw)); if (m.isC()) r.k += x.second.second * y.second.second * SX(m.c, m.w); else addT(r, m, x.second.second * y.second.second); }
    } else { // one atom for the whole product, in the narrowest width that holds it
      I al, ah, bl, bh; range(a, al, ah); range(b, bl, bh); I q[4] = { al * bl, al * bh, ah * bl, ah * bh }; I m = 0; for (auto x : q) m = std::max(m, x < 0 ? -x : x);
      unsigned pw = 2; while (pw < 100 && m >= ((I)1 << (pw - 1))) pw++;
      if (pw > 64 || r.bad) { r.bad = true; break; }
      V x = build(a, pw), y = build(b, pw); if (x.n && y.n && x.n->id > y.n->id) std::swap(x, y); V p = mkMul(x, y); if (p.isC()) r.k = SX(p.c, p.w); else addT(r, p, 1); }
    break; }
  case O_NOT: if (w > 1) { acc(r, modC(K(0)), -1); r.k -= 1; } else r.bad = true; break;
  case O_ZEXT: r = K(0).w == 1 ? iteForm(canonV(K(0)), [] { L o; o.k = 1; return o; }(), L()) : exact(K(0), false); break;
  case O_SEXT: r = K(0).w == 1 ? iteForm(canonV(K(0)), [] { L o; o.k = -1; return o; }(), L()) : exact(K(0), true); break;
  case O_CONCAT: acc(r, exact(K(1), false), 1); acc(r, modC(K(0)), (I)1 << K(1).w); break;
  case O_EXTRACT: { L x = modC(K(0)); if (x.bad) { r.bad = true; break; } r = floorOf(x, n->lo); break; }
  case O_ITE: { if (K(0).n && (K(0).n->op == O_ULT || K(0).n->op == O_ULE) && K(0).n->k[0].w < 60) { // x <u k, x of either sign: 0 <= x and x < k
      const Node *u = K(0).n; bool le = u->op == O_ULE; for (int sw = 0; sw < 2; sw++) { V x = u->k[sw], k = u->k[1 - sw]; if (!k.isC() || k.c >> (k.w - 1) || x.isC()) continue;
        L X = exact(x, true); I lo, hi; if (X.bad) break; range(X, lo, hi); if (lo >= 0 || hi < 0) break;
        V cn = predLt0(X), cu; L Y = sw ? neg(X) : X; Y.k += sw ? (I)k.c : -(I)k.c; if (le) Y.k -= 1; cu = predLt0(Y); if (!cn.w || !cu.w) break; // sw: k < x
        L a = modC(K(1)), b = modC(K(2)); if (a.bad || b.bad) break; I M = (I)1 << w; done = true;
        r = sw ? iteForm(cn, a, iteForm(cu, a, b, M), M) : iteForm(cn, b, iteForm(cu, a, b, M), M); break; } }
    if (done) break; V c = canonV(K(0)); L a = modC(K(1)), b = modC(K(2)); if (a.bad || b.bad) { r.bad = true; break; }
    r = iteForm(c, a, b, (I)1 << w); break; }
  case O_AND: { V c = maskCond(K(0)); V o = K(1); if (!c.w) { c = maskCond(K(1)); o = K(0); } if (c.w) { r = iteForm(canonV(c), exact(o, true), L()); break; } r.bad = true; break; }
  case O_OR: { // x | y with x = ite(c,p,0), y = ite(!c,q,0)
    V x = canonV(K(0)), y = canonV(K(1)); auto arm = [](V v, V &c, V &p) { if (v.n && v.n->op == O_ITE) { if (v.n->k[2].isC() && !v.n->k[2].c) { c = v.n->k[0]; p = v.n->k[1]; return true; } if (v.n->k[1].isC() && !v.n->k[1].c) { c = mkNot(v.n->k[0]); p = v.n->k[2]; return true; } } if (v.n && v.n->op == O_SEXT && v.n->k[0].n && v.n->k[0].n->op == O_ITE) return false; return false; };
    V c1, p1, c2, p2; if (arm(x, c1, p1) && arm(y, c2, p2) && c1 == mkNot(c2)) { r = iteForm(c1, exact(p1, true), exact(p2, true)); break; }
    r.bad = true; break; }
  case O_VAR: if (w == 1) { r = iteForm(v, [] { L o; o.k = 1; return o; }(), L()); break; } if (w < 60 && w > 1) { r = atom(mkZext(v, w + 1)); break; } r.bad = true; break;
  default: r.bad = true; break;
  }
  if (!r.bad) { if (r.t.size() > 1100 || r.k > CAP || r.k < -CAP) r.bad = true; for (auto &e : r.t) if (e.second.second > CAP || e.second.second < -CAP) r.bad = true; }
  if (!r.bad && w < 64) { // coefficients modulo 2^w, nearest zero
    I M = (I)1 << w; std::vector<uint32_t> del;
    for (auto &e : r.t) { I c = e.second.second; if (c >= M / 2 || c < -M / 2) { c = c - floordiv(c, M) * M; if (c >= M / 2) c -= M; e.second.second = c; if (!c) del.push_back(e.first); } }
    for (auto d : del) r.t.erase(d);
    I lo, hi; range(r, lo, hi); I q = floordiv(lo + M / 2, M); if (floordiv(hi + M / 2, M) == q) r.k -= q * M; else if (r.k >= M / 2 || r.k < -M / 2) { r.k -= floordiv(r.k, M) * M; if (r.k >= M / 2) r.k -= M; }
  }
  if (r.bad) { r = L(); V p = plain(v); if (p.isC()) r.k = SX(p.c, p.w); else addT(r, p, 1); }
  return modMemo[v.n] = r;
}
V canonV(V v) {
  if (v.isC()) return v;
  auto it = canMemo.find(v.n); if (it != canMemo.end()) return it->second;
  V r;
  if (v.w == 1) r = canonB(v);
  else { const L &l = modOf(v); r = build(l, v.w); }
  return canMemo[v.n] = r;
}
}
V canon(V v) { return canonV(v); }
