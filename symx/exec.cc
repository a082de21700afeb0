// symx: symbolic execution of LLVM bitcode (and of the hand-written x86 kernels it calls).
#include "state.hh"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <cmath>
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <pthread.h>
#include <unistd.h>
#include <llvm/IR/IntrinsicsX86.h>
using namespace llvm;
#define INC(x) throw Inconclusive{ x }

static Module *M; static const DataLayout *DL; static LLVMContext *LC;
const Node *UNINIT = (const Node*)0x1;
static uint64_t g_insts, g_paths, g_forks, g_merges, g_mergeFail, g_cutAlloc, g_assumeCut, g_serial = 1, g_assertsOk, g_assertsConst, g_undefReads;
static bool g_merge = false; static double g_deadline = 0; static uint64_t g_allocLimit = 1 << 22; static bool g_allocViolation = false, g_allocCap = false;
static std::string g_repo = "/repo";
static std::map<std::string, uint64_t> g_reached; static std::map<std::string, int> g_possible; static std::map<std::string, long long> g_params;
static std::set<std::string> g_notes;
static std::vector<std::vector<uint64_t>> g_fixed; static bool g_useFixed = false; // concrete run
static uint64_t g_maxPaths = ~0ull; static uint64_t g_fixedPos = 0;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ decoded form
struct OpRef { int reg = -1; Val c; };
struct Phi { int dst; std::vector<std::pair<BBInfo*, OpRef>> in; };
struct DI;
typedef Val (*Handler)(State &, const DI &, std::vector<Val> &);
struct DI {
  unsigned op = 0; int dst = -1; const Instruction *I = nullptr; std::vector<OpRef> o; unsigned w = 0, w2 = 0; Type *ty = nullptr;
  std::vector<BBInfo*> succ; uint64_t k = 0; std::vector<std::pair<int, uint64_t>> sc; FnInfo *callee = nullptr; unsigned sub = 0; bool vec = false;
  std::vector<uint64_t> cases; 
};
struct BBInfo { const BasicBlock *bb; FnInfo *fn; std::vector<DI> ins; std::vector<Phi> phis; BBInfo *ipdom = nullptr; int idx; bool live = false; };
struct FnInfo { const Function *F = nullptr; std::string name; int nregs = 0; bool decoded = false; std::vector<std::unique_ptr<BBInfo>> bbs; std::unordered_map<const Value*, int> regOf; std::unordered_map<const BasicBlock*, BBInfo*> bbOf; Handler h = nullptr; bool x86 = false, ext = false; bool ipdomDone = false; uint64_t execs = 0; uint64_t instrs = 0; };
static std::unordered_map<const Function*, std::unique_ptr<FnInfo>> g_fns;
static std::unordered_map<const GlobalValue*, uint64_t> g_gaddr; static std::unordered_map<uint64_t, const Function*> g_fnAt;

static unsigned wOf(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static bool isAgg(Type *t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy() || (t->isIntegerTy() && t->getIntegerBitWidth() > 64); }
static Val mkAgg(size_t n) { Val v; v.agg = std::make_shared<std::vector<Val>>(n); return v; }
static Val undefOf(Type *t) {
  if (auto *st = dyn_cast<StructType>(t)) { Val v = mkAgg(st->getNumElements()); for (unsigned i = 0; i < st->getNumElements(); i++) (*v.agg)[i] = undefOf(st->getElementType(i)); return v; }
  if (auto *a = dyn_cast<ArrayType>(t)) { Val v = mkAgg(a->getNumElements()); for (auto &e : *v.agg) e = undefOf(a->getElementType()); return v; }
  if (auto *a = dyn_cast<FixedVectorType>(t)) { Val v = mkAgg(a->getNumElements()); for (auto &e : *v.agg) e = undefOf(a->getElementType()); return v; }
  unsigned w = wOf(t); if (!w) INC("unsupported type"); 
  if (w == 128) { Val v = mkAgg(2); (*v.agg)[0] = C(0, 64); (*v.agg)[1] = C(0, 64); return v; }
  if (w > 64) w = 64; return C(0, w);
}

// ------------------------------------------------------------------ memory
static uint64_t g_nextAddr = 0x10000000ull;
uint64_t allocObj(State &s, uint64_t size, uint8_t kind, const char *name, bool zero, uint64_t align) {
  Obj *o = new Obj; if (align < 64) align = 64;
  uint64_t b = (g_nextAddr + align - 1) / align * align;
  // keep addresses at the requested alignment but not more, except that 64 is always given
  o->base = b; o->size = size; o->kind = kind; o->name = name; o->serial = g_serial++;
  o->c.assign(size, 0); if (!zero && size) o->s.assign(size, UNINIT);
  uint64_t gap = std::max<uint64_t>(4096, size); if (gap > (1 << 20)) gap = 1 << 20;
  g_nextAddr = b + size + gap;
  s.mem[b] = OP(o); return b;
}
void freeObj(State &s, uint64_t a) { s.mem.erase(a); }
static Obj *findObj(State &s, uint64_t a) {
  auto it = s.mem.upper_bound(a); if (it == s.mem.begin()) return nullptr; --it;
  Obj *o = it->second.p; if (a > o->base + o->size) return nullptr; return o;
}
static Obj *writable(State &s, Obj *o) {
  if (o->rc == 1) return o;
  Obj *n = new Obj(*o); n->rc = 0; s.mem[o->base] = OP(n); return n;
}
static Obj *inObj(State &s, uint64_t a, uint64_t n, const char *what) {
  Obj *o = findObj(s, a);
  if (!o || a + n > o->base + o->size || o->kind == 3) {
    char b[200];
    if (o) snprintf(b, 200, "%s of %llu bytes at offset %lld of object '%s' of %llu bytes", what, (unsigned long long)n, (long long)(a - o->base), o->name, (unsigned long long)o->size);
    else snprintf(b, 200, "%s of %llu bytes at %#llx (no object: null, freed or wild pointer)", what, (unsigned long long)n, (unsigned long long)a);
    throw PathError{ "memory", b };
  }
  return o;
}
static inline V byteAt(State &s, Obj *o, uint64_t off) {
  if (o->s.empty() || !o->s[off]) return C(o->c[off], 8);
  const Node *n = o->s[off];
  if (n == UNINIT) {
    g_undefReads++;
    Obj *w = writable(s, findObj(s, o->base)); V v = mkVar("undef", 0, 8, true); w->s[off] = v.n; return v;
  }
  V v; v.n = n; v.w = 8; return v;
}
static V rd(State &s, Obj *o, uint64_t off, unsigned n) {
  if (o->s.empty()) { uint64_t r = 0; memcpy(&r, &o->c[off], n); return C(r, n * 8); }
  bool conc = true; for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { conc = false; break; }
  if (conc) { uint64_t r = 0; memcpy(&r, &o->c[off], n); return C(r, n * 8); }
  uint64_t base = o->base;
  V r = byteAt(s, o, off);
  for (unsigned i = 1; i < n; i++) { Obj *p = findObj(s, base); r = mkConcat(byteAt(s, p, off + i), r); }
  return r;
}
static void wr(State &s, Obj *o, uint64_t off, V v) {
  o = writable(s, o); unsigned n = v.w / 8;
  if (v.isC()) { memcpy(&o->c[off], &v.c, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
  if (o->s.empty()) o->s.assign(o->size, nullptr);
  for (unsigned i = 0; i < n; i++) { V b = mkExtract(v, 8 * i + 7, 8 * i); if (b.isC()) { o->c[off + i] = b.c; o->s[off + i] = nullptr; } else o->s[off + i] = b.n; }
}
V loadBytes(State &s, uint64_t a, unsigned n) { Obj *o = inObj(s, a, n, "read"); return rd(s, o, a - o->base, n); }
void storeBytes(State &s, uint64_t a, V v) { Obj *o = inObj(s, a, v.w / 8, "write"); if (o->ro) throw PathError{ "memory", "write to constant object" }; wr(s, o, a - o->base, v); }

// ------------------------------------------------------------------ decisions
static bool pcHas(State &s, V c) { for (size_t i = s.pc.size(); i-- > 0;) if (s.pc[i] == c) return true; return false; }
static Res sat(State &s, V q, Model *out = nullptr, bool as = false) {
  if (g_deadline && nowS() > g_deadline) INC("time limit");
  Res r = checkSat(s.pc, q, s.model, out, as); if (r == UNKNOWN) INC("solver gave no answer"); return r; }
static bool decide(State &s, V c) { // concrete truth value of c on this path; forks if both are possible
  if (c.isC()) return c.c;
  if (pcHas(s, c)) return true; V nc = mkNot(c); if (pcHas(s, nc)) return false;
  bool v = evalV(c, s.model);
  if (sat(s, v ? nc : c) == UNSAT) return v;
  throw NeedFork{ c };
}
static void addPc(State &s, V c) { if (c.isC()) return; if (c.n->op == O_AND) { addPc(s, c.n->k[0]); addPc(s, c.n->k[1]); return; } if (!pcHas(s, c)) s.pc.push_back(c); }
static uint64_t concretise(State &s, V v) {
  if (v.isC()) return v.c;
  // is it a single value? otherwise fork on equality with the model's value
  uint64_t x = evalV(v, s.model);
  if (decide(s, mkEq(v, C(x, v.w)))) return x;
  INC("concretise");
}

// ------------------------------------------------------------------ symbolic addresses
struct Leaf { V cond; V addr; };
static bool leaves(V a, V cond, std::vector<Leaf> &out, unsigned lim) {
  if (cond.isF()) return true;
  if (a.isC()) { out.push_back({ cond, a }); return out.size() <= lim; }
  if (a.n->op == O_ITE) return leaves(a.n->k[1], mkAnd(cond, a.n->k[0]), out, lim) && leaves(a.n->k[2], mkAnd(cond, mkNot(a.n->k[0])), out, lim);
  if (a.n->op == O_ADD) {
    for (int i = 0; i < 2; i++) if (a.n->k[i].n && a.n->k[i].n->op == O_ITE && UMAX(a.n->k[i]) >= 0x10000000ull) { V it = a.n->k[i], ot = a.n->k[1 - i];
      return leaves(mkAdd(it.n->k[1], ot), mkAnd(cond, it.n->k[0]), out, lim) && leaves(mkAdd(it.n->k[2], ot), mkAnd(cond, mkNot(it.n->k[0])), out, lim); } }
  out.push_back({ cond, a }); return out.size() <= lim;
}
static uint64_t constPart(V a) { uint64_t r = 0; if (a.isC()) return a.c; if (a.n->op == O_ADD) return constPart(a.n->k[0]) + constPart(a.n->k[1]); if (a.n->op == O_SUB) return constPart(a.n->k[0]) - constPart(a.n->k[1]); return r; }
// A single (possibly symbolic) address inside one object
struct Place { V cond; Obj *o; V off; uint64_t base; };
static void placesOf(State &s, V a, V cond, uint64_t n, const char *what, std::vector<Place> &out) {
  if (a.isC()) {
    Obj *o = findObj(s, a.c);
    if (!o || a.c + n > o->base + o->size || o->kind == 3) {
      if (!cond.isT() && sat(s, cond) == UNSAT) return;
      try { inObj(s, a.c, n, what); } catch (PathError &e) { e.cond = cond; e.hasCond = true; throw; }
    }
    out.push_back({ cond, o, C(a.c - o->base, 64), o->base }); return;
  }
  uint64_t cp = constPart(a); Obj *o = findObj(s, cp); bool guess = o && o->kind != 3;
  if (!guess) {
    Model m; if (!cond.isT()) { if (sat(s, cond, &m) == UNSAT) return; } else m = s.model;
    uint64_t v = evalV(a, m); o = findObj(s, v);
    if (!o || v + n > o->base + o->size) { PathError e{ "memory", std::string(what) + " through a symbolic pointer that leaves every object" }; e.cond = mkAnd(cond, mkEq(a, C(v, 64))); e.hasCond = true; throw e; }
  }
  V off = mkSub(a, C(o->base, 64));
  V bad = o->size < n ? TRUE_() : mkUlt(C(o->size - n, 64), off);
  if (!bad.isF()) {
    V q = mkAnd(cond, bad); Model m;
    if (!q.isF() && sat(s, q, &m) == SAT) {
      uint64_t v = evalV(a, m); Obj *o2 = findObj(s, v);
      if (!guess && o2 && v + n <= o2->base + o2->size) { // several objects: split the path
        decide(s, bad); }
      if (v - o->base > o->size + 64) { // prefer a nearby address: replays show it more readily
        V near = mkAnd(q, mkUlt(off, C(o->size + 64, 64))); Model m2; if (!near.isF() && sat(s, near, &m2) == SAT) { q = near; v = evalV(a, m2); } }
      PathError e; e.kind = "memory"; char b[200]; snprintf(b, 200, "%s of %llu bytes at offset %lld of object '%s' of %llu bytes", what, (unsigned long long)n, (long long)(v - o->base), o->name, (unsigned long long)o->size); e.msg = b;
      e.cond = q; e.hasCond = true; throw e;
    }
  }
  out.push_back({ cond, o, off, o->base });
}
static std::vector<Place> resolve(State &s, V a, uint64_t n, const char *what) {
  std::vector<Place> ps; std::vector<Leaf> ls;
  if (!leaves(a, TRUE_(), ls, 64)) { ls.clear(); ls.push_back({ TRUE_(), a }); }
  for (auto &l : ls) placesOf(s, l.addr, l.cond, n, what, ps);
  if (ps.empty()) INC("pointer resolves to nothing");
  return ps;
}
// possible offsets of a place: lo, hi, stride
static void offRange(State &s, const Place &p, uint64_t n, uint64_t &lo, uint64_t &hi, uint64_t &st) {
  lo = UMIN(p.off); hi = UMAX(p.off);
  uint64_t mx = p.o->size - n; if (hi > mx) hi = mx; 
  if (lo > mx) lo = 0;
  unsigned tz = tzOf(p.off); if (tz == 0 && p.off.n && p.off.n->op == O_ADD && p.off.n->k[1].isC()) { unsigned t = tzOf(p.off.n->k[0]); if (t > 12) t = 12; st = 1ull << t; uint64_t r = p.off.n->k[1].c & (st - 1); lo = (lo & ~(st - 1)) + r + ((lo & (st - 1)) > r ? st : 0); }
  else { if (tz > 12) tz = 12; st = 1ull << tz; lo = (lo + st - 1) & ~(st - 1); }
  if ((hi - lo) / st > 1024) { // narrow with the solver (binary search on the path condition)
    uint64_t l = lo, h = hi; while (l < h) { uint64_t m = l + (h - l) / 2; if (sat(s, mkUle(p.off, C(m, 64))) == SAT) h = m; else l = m + 1; } 
    uint64_t nlo = l; l = nlo; h = hi; while (l < h) { uint64_t m = l + (h - l + 1) / 2; if (sat(s, mkUle(C(m, 64), p.off)) == SAT) l = m; else h = m - 1; }
    lo = nlo + ((lo - nlo) % st + st) % st; hi = h;
  }
  if ((hi - lo) / st > 16384) INC("symbolic offset range too large");
}
static V muxTree(const std::vector<V> &t, size_t b, unsigned bit, V idx) { // entries b .. b+2^bit-1
  if (b >= t.size()) return t.back();
  if (bit == 0) return t[b];
  V lo = muxTree(t, b, bit - 1, idx); if (b + (1ull << (bit - 1)) >= t.size()) return lo;
  V hi = muxTree(t, b + (1ull << (bit - 1)), bit - 1, idx);
  return mkIte(mkExtract(idx, bit - 1, bit - 1), hi, lo);
}
static V loadSym(State &s, V a, unsigned n) {
  if (a.isC()) return loadBytes(s, a.c, n);
  auto ps = resolve(s, a, n, "read"); V r; bool first = true;
  for (size_t i = ps.size(); i-- > 0;) {
    Place &p = ps[i]; V v;
    if (p.off.isC()) v = rd(s, findObj(s, p.base), p.off.c, n);
    else {
      uint64_t lo, hi, st; offRange(s, p, n, lo, hi, st); std::vector<V> t; for (uint64_t x = lo; x <= hi; x += st) t.push_back(rd(s, findObj(s, p.base), x, n));
      unsigned k = 0; while ((1ull << k) < t.size()) k++;
      V idx = mkSub(p.off, C(lo, 64)); unsigned sh = __builtin_ctzll(st);
      if (k == 0) v = t[0]; else { V ix = mkExtract(idx, std::min(63u, sh + k - 1), sh); v = muxTree(t, 0, k, ix); }
    }
    if (first) { r = v; first = false; } else r = mkIte(p.cond, v, r);
  }
  return r;
}
static void storeSym(State &s, V a, V v) {
  if (a.isC()) { storeBytes(s, a.c, v); return; }
  unsigned n = v.w / 8; auto ps = resolve(s, a, n, "write");
  for (auto &p : ps) if (p.o->ro) throw PathError{ "memory", "write to constant object" };
  struct W { uint64_t base, off; V cond; }; std::vector<W> ws;
  for (auto &p : ps) {
    if (p.off.isC()) { ws.push_back({ p.base, p.off.c, p.cond }); continue; }
    uint64_t lo, hi, st; offRange(s, p, n, lo, hi, st);
    for (uint64_t x = lo; x <= hi; x += st) ws.push_back({ p.base, x, mkAnd(p.cond, mkEq(p.off, C(x, 64))) });
  }
  for (auto &w : ws) { if (w.cond.isF()) continue; if (w.cond.isT()) { wr(s, findObj(s, w.base), w.off, v); continue; }
    V old = rd(s, findObj(s, w.base), w.off, n); wr(s, findObj(s, w.base), w.off, mkIte(w.cond, v, old)); }
}

static Val loadTy(State &s, V a, Type *t) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    unsigned ew = wOf(vt->getElementType()); Val r = mkAgg(vt->getNumElements());
    if (ew % 8) { if (ew == 1 && vt->getNumElements() % 8 == 0) { for (unsigned i = 0; i < vt->getNumElements(); i += 8) { V b = loadSym(s, mkAdd(a, C(i / 8, 64)), 1); for (int j = 0; j < 8; j++) (*r.agg)[i + j] = mkExtract(b, j, j); } return r; } INC("vector of odd elements"); }
    for (unsigned i = 0; i < vt->getNumElements(); i++) (*r.agg)[i] = loadSym(s, mkAdd(a, C(i * ew / 8, 64)), ew / 8); return r; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); Val r = mkAgg(st->getNumElements()); for (unsigned i = 0; i < st->getNumElements(); i++) (*r.agg)[i] = loadTy(s, mkAdd(a, C(sl->getElementOffset(i), 64)), st->getElementType(i)); return r; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); Val r = mkAgg(at->getNumElements()); for (unsigned i = 0; i < at->getNumElements(); i++) (*r.agg)[i] = loadTy(s, mkAdd(a, C(i * es, 64)), at->getElementType()); return r; }
  unsigned w = wOf(t); if (w == 128) { Val r = mkAgg(2); (*r.agg)[0] = loadSym(s, a, 8); (*r.agg)[1] = loadSym(s, mkAdd(a, C(8, 64)), 8); return r; }
  if (w > 64 || !w) INC("load of unsupported type");
  unsigned n = (w + 7) / 8; V v = loadSym(s, a, n); return n * 8 == w ? v : mkExtract(v, w - 1, 0);
}
static void storeTy(State &s, V a, const Val &v, Type *t) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    unsigned ew = wOf(vt->getElementType()); if (ew % 8) INC("vector of odd elements");
    for (unsigned i = 0; i < vt->getNumElements(); i++) storeSym(s, mkAdd(a, C(i * ew / 8, 64)), (*v.agg)[i].s); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, mkAdd(a, C(sl->getElementOffset(i), 64)), (*v.agg)[i], st->getElementType(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(s, mkAdd(a, C(i * es, 64)), (*v.agg)[i], at->getElementType()); return; }
  unsigned w = wOf(t); if (w == 128) { storeSym(s, a, (*v.agg)[0].s); storeSym(s, mkAdd(a, C(8, 64)), (*v.agg)[1].s); return; }
  if (w > 64 || !w) INC("store of unsupported type");
  unsigned n = (w + 7) / 8; storeSym(s, a, mkZext(v.s, n * 8));
}

// ------------------------------------------------------------------ constants
static Val cval(const Constant *c);
static uint64_t gaddr(const GlobalValue *g) {
  if (auto *al = dyn_cast<GlobalAlias>(g)) g = cast<GlobalValue>(al->getAliaseeObject());
  auto it = g_gaddr.find(g); if (it != g_gaddr.end()) return it->second; INC("unknown global " + g->getName().str());
}
static Val cval(const Constant *c) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w > 64) { if (w != 128) INC("wide constant"); Val v = mkAgg(2); (*v.agg)[0] = C(ci->getValue().extractBitsAsZExtValue(64, 0), 64); (*v.agg)[1] = C(ci->getValue().extractBitsAsZExtValue(64, 64), 64); return v; } return C(ci->getZExtValue(), w); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { if (wOf(t) > 64) return C(0, 64); return C(cf->getValueAPF().bitcastToAPInt().getZExtValue(), wOf(t)); }
  if (isa<ConstantPointerNull>(c)) return C(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return undefOf(t);
  if (auto *g = dyn_cast<GlobalValue>(c)) return C(gaddr(g), 64);
  if (auto *ca = dyn_cast<ConstantDataSequential>(c)) { Val v = mkAgg(ca->getNumElements()); for (unsigned i = 0; i < ca->getNumElements(); i++) (*v.agg)[i] = cval(ca->getElementAsConstant(i)); return v; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { Val v = mkAgg(ca->getNumOperands()); for (unsigned i = 0; i < ca->getNumOperands(); i++) (*v.agg)[i] = cval(cast<Constant>(ca->getOperand(i))); return v; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto *ge = cast<GEPOperator>(ce); if (!ge->accumulateConstantOffset(*DL, off)) INC("gep constant"); Val b = cval(cast<Constant>(ge->getPointerOperand())); return C(b.s.c + off.getSExtValue(), 64); }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v = cval(ce->getOperand(0)); unsigned w = wOf(t); return w < 64 ? mkExtract(v.s, w - 1, 0) : v; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return cval(ce->getOperand(0));
    case Instruction::Add: return mkAdd(cval(ce->getOperand(0)).s, cval(ce->getOperand(1)).s);
    case Instruction::Sub: return mkSub(cval(ce->getOperand(0)).s, cval(ce->getOperand(1)).s);
    case Instruction::Trunc: return mkExtract(cval(ce->getOperand(0)).s, wOf(t) - 1, 0);
    case Instruction::ICmp: { V a = cval(ce->getOperand(0)).s, b = cval(ce->getOperand(1)).s; if (ce->getPredicate() == CmpInst::ICMP_EQ) return mkEq(a, b); if (ce->getPredicate() == CmpInst::ICMP_NE) return mkNe(a, b); break; }
    default: break;
    }
    INC("constant expression");
  }
  if (isa<ConstantTokenNone>(c)) return C(0, 8);
  std::string q; raw_string_ostream os(q); c->print(os); INC("constant kind " + q);
}
static void initMem(Obj *o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *ca = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = ca->getElementByteSize(); StringRef raw = ca->getRawDataValues(); memcpy(&o->c[off], raw.data(), raw.size()); (void)es; return; }
  if (auto *st = dyn_cast<StructType>(t)) if (isa<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initMem(o, off + sl->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) if (isa<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initMem(o, off + i * es, cast<Constant>(c->getOperand(i))); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) if (isa<ConstantVector>(c)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) initMem(o, off + i * es, cast<Constant>(c->getOperand(i))); return; }
  Val v = cval(c); if (v.agg) { for (unsigned i = 0; i < v.agg->size(); i++) memcpy(&o->c[off + 8 * i], &(*v.agg)[i].s.c, 8); return; }
  uint64_t n = DL->getTypeStoreSize(t); if (n > 8) return; memcpy(&o->c[off], &v.s.c, n);
}

// ------------------------------------------------------------------ decode
static Handler findHandler(const std::string &n, const Function *F);
static FnInfo *fnInfo(const Function *F) {
  auto &p = g_fns[F]; if (p) return p.get();
  p.reset(new FnInfo); FnInfo *f = p.get(); f->F = F; f->name = F->getName().str();
  f->h = findHandler(f->name, F);
  if (!f->h && F->isDeclaration()) { if (x86Has(f->name)) f->x86 = true; else f->ext = true; }
  return f;
}
static OpRef oref(FnInfo *f, const Value *v) {
  OpRef r; if (auto *c = dyn_cast<Constant>(v)) { r.c = cval(c); return r; }
  if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) { r.c = C(0, 64); return r; }
  r.reg = f->regOf.at(v); return r;
}
static void decode(FnInfo *f) {
  f->decoded = true; const Function *F = f->F; int n = 0;
  for (auto &a : F->args()) f->regOf[&a] = n++;
  for (auto &b : *F) { auto bi = std::make_unique<BBInfo>(); bi->bb = &b; bi->fn = f; bi->idx = f->bbs.size(); f->bbOf[&b] = bi.get(); f->bbs.push_back(std::move(bi)); for (auto &i : b) if (!i.getType()->isVoidTy()) f->regOf[&i] = n++; }
  f->nregs = n;
  for (auto &bi : f->bbs) for (auto &ir : *bi->bb) {
    const Instruction *I = &ir; if (isa<DbgInfoIntrinsic>(I)) continue;
    if (auto *p = dyn_cast<PHINode>(I)) { Phi ph; ph.dst = f->regOf[I]; for (unsigned k = 0; k < p->getNumIncomingValues(); k++) ph.in.push_back({ f->bbOf[p->getIncomingBlock(k)], oref(f, p->getIncomingValue(k)) }); bi->phis.push_back(std::move(ph)); continue; }
    DI d; d.op = I->getOpcode(); d.I = I; d.ty = I->getType(); if (!I->getType()->isVoidTy()) { d.dst = f->regOf[I]; d.w = wOf(d.ty); }
    d.vec = isAgg(d.ty);
    if (auto *c = dyn_cast<CallBase>(I)) {
      if (c->isInlineAsm()) d.sub = 1;
      for (auto &a : c->args()) d.o.push_back(oref(f, a.get()));
      const Value *cv = c->getCalledOperand()->stripPointerCasts(); if (auto *al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
      if (auto *cf = dyn_cast<Function>(cv)) d.callee = fnInfo(cf); else if (!d.sub) d.o.push_back(oref(f, c->getCalledOperand()));
      if (auto *iv = dyn_cast<InvokeInst>(I)) { d.succ.push_back(f->bbOf[iv->getNormalDest()]); d.succ.push_back(f->bbOf[iv->getUnwindDest()]); }
    } else if (auto *b = dyn_cast<BranchInst>(I)) { if (b->isConditional()) d.o.push_back(oref(f, b->getCondition())); for (unsigned k = 0; k < b->getNumSuccessors(); k++) d.succ.push_back(f->bbOf[b->getSuccessor(k)]);
    } else if (auto *sw = dyn_cast<SwitchInst>(I)) { d.o.push_back(oref(f, sw->getCondition())); d.succ.push_back(f->bbOf[sw->getDefaultDest()]); for (auto &cs : sw->cases()) { d.cases.push_back(cs.getCaseValue()->getZExtValue()); d.succ.push_back(f->bbOf[cs.getCaseSuccessor()]); }
    } else if (auto *g = dyn_cast<GetElementPtrInst>(I)) {
      if (g->getType()->isVectorTy()) { d.op = 0; }
      else { d.o.push_back(oref(f, g->getPointerOperand())); uint64_t k = 0;
      for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        if (StructType *st = gi.getStructTypeOrNull()) { k += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
        uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) { k += sz * ci->getSExtValue(); continue; }
        d.o.push_back(oref(f, gi.getOperand())); d.sc.push_back({ (int)d.o.size() - 1, sz }); }
      d.k = k; }
    } else if (isa<LandingPadInst>(I)) {
    } else { for (auto &op : I->operands()) d.o.push_back(oref(f, op.get())); }
    if (auto *cm = dyn_cast<CmpInst>(I)) d.sub = cm->getPredicate();
    if (isa<StoreInst>(I)) { d.ty = I->getOperand(0)->getType(); d.w = wOf(d.ty); d.vec = isAgg(d.ty); }
    if (auto *al = dyn_cast<AllocaInst>(I)) { d.k = DL->getTypeAllocSize(al->getAllocatedType()); d.sub = al->getAlign().value(); }
    if (!I->operands().empty() && I->getNumOperands() && !isa<CallBase>(I)) { Type *t0 = I->getOperand(0)->getType(); d.w2 = wOf(t0); }
    bi->ins.push_back(std::move(d));
  }
}
static void ipdoms(FnInfo *f) { // post-dominators among blocks that can reach a return; exceptional exits are ignored
  f->ipdomDone = true; int n = f->bbs.size(); std::vector<std::vector<int>> su(n), pr(n); std::vector<char> live(n, 0); std::vector<int> wk;
  for (auto &b : f->bbs) for (auto *s : successors(b->bb)) { if (s->isLandingPad()) continue; int j = f->bbOf[s]->idx; su[b->idx].push_back(j); pr[j].push_back(b->idx); }
  for (auto &b : f->bbs) if (isa<ReturnInst>(b->bb->getTerminator())) { live[b->idx] = 1; wk.push_back(b->idx); }
  while (!wk.empty()) { int x = wk.back(); wk.pop_back(); for (int p : pr[x]) if (!live[p]) { live[p] = 1; wk.push_back(p); } }
  // iterate sets as bitsets
  int W = (n + 64) / 64; std::vector<std::vector<uint64_t>> pd(n + 1, std::vector<uint64_t>(W, ~0ull)); // node n = virtual exit
  for (auto &x : pd[n]) x = 0; pd[n][n / 64] |= 1ull << (n % 64);
  bool ch = true; while (ch) { ch = false; for (int i = n - 1; i >= 0; i--) if (live[i]) {
    std::vector<uint64_t> x(W, ~0ull); bool any = false;
    if (isa<ReturnInst>(f->bbs[i]->bb->getTerminator())) { x = pd[n]; any = true; }
    for (int s : su[i]) if (live[s]) { any = true; for (int k = 0; k < W; k++) x[k] &= pd[s][k]; }
    if (!any) continue; x[i / 64] |= 1ull << (i % 64); if (x != pd[i]) { pd[i] = x; ch = true; } } }
  auto cnt = [&](int i) { int c = 0; for (auto x : pd[i]) c += __builtin_popcountll(x); return c; };
  for (int i = 0; i < n; i++) if (live[i]) { int best = -1, bc = -1; for (int j = 0; j < n; j++) if (j != i && live[j] && (pd[i][j / 64] >> (j % 64) & 1)) { int c = cnt(j); if (c > bc) { bc = c; best = j; } } if (best >= 0) f->bbs[i]->ipdom = f->bbs[best].get(); }
}

// ------------------------------------------------------------------ helpers
static inline const Val &get(const Frame &f, const OpRef &r) { if (r.reg < 0) return r.c; const Val &v = f.regs[r.reg]; return v; }
static void setReg(Frame &f, int d, Val v) { if (d >= 0) f.regs[d] = std::move(v); }
static void jump(State &s, BBInfo *to) {
  Frame &f = s.st.back(); BBInfo *from = f.bb;
  if (!to->phis.empty()) {
    if (to->phis.size() == 1) { for (auto &in : to->phis[0].in) if (in.first == from) { Val v = get(f, in.second); f.regs[to->phis[0].dst] = v; break; } }
    else { std::vector<Val> tmp(to->phis.size()); for (size_t i = 0; i < to->phis.size(); i++) for (auto &in : to->phis[i].in) if (in.first == from) { tmp[i] = get(f, in.second); break; } for (size_t i = 0; i < tmp.size(); i++) f.regs[to->phis[i].dst] = tmp[i]; }
  }
  f.bb = to; f.ip = 0; s.atStart = true;
}
static std::string locOf(const Instruction *I) {
  if (!I) return "?"; if (auto dl = I->getDebugLoc()) { auto *sc = cast<DIScope>(dl.getScope()); return (sc->getFilename() + ":" + Twine(dl.getLine())).str(); } return I->getFunction()->getName().str();
}
static std::string whereOf(State &s) {
  std::string r; for (size_t i = s.st.size(), k = 0; i-- > 0 && k < 8; k++) { Frame &f = s.st[i]; if (!f.bb || f.ip >= (int)f.bb->ins.size()) continue; r += (k ? " <- " : "") + locOf(f.bb->ins[f.ip].I); } return r;
}

// ------------------------------------------------------------------ exceptions
static std::vector<std::string> g_tiNames; static std::map<std::string, int> g_tiIds;
static int tiId(const std::string &n) { auto it = g_tiIds.find(n); if (it != g_tiIds.end()) return it->second; g_tiIds[n] = g_tiNames.size(); g_tiNames.push_back(n); return g_tiNames.size() - 1; }
static std::vector<std::string> basesOf(const std::string &n) {
  static const std::map<std::string, std::string> std_ = { {"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt12system_error","_ZTISt13runtime_error"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt8bad_cast","_ZTISt9exception"},{"_ZTISt17bad_function_call","_ZTISt9exception"} };
  auto it = std_.find(n); if (it != std_.end()) return { it->second };
  std::vector<std::string> r; auto *g = M->getGlobalVariable(n, true);
  if (g && g->hasInitializer()) if (auto *cs = dyn_cast<ConstantStruct>(g->getInitializer())) for (unsigned i = 2; i < cs->getNumOperands(); i++) if (auto *b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) r.push_back(b->getName().str());
  return r;
}
static bool tiDerives(const std::string &d, const std::string &b) { if (d == b) return true; for (auto &x : basesOf(d)) if (tiDerives(x, b)) return true; return false; }
static void popFrame(State &s) { for (auto a : s.st.back().allocas) s.mem.erase(a); s.st.pop_back(); }
static void unwind(State &s) { // propagate s.inflight starting at the current top frame's instruction
  for (;;) {
    if (s.st.empty()) throw PathError{ "uncaught", "exception " + g_tiNames[s.inflight.ti] + " escapes" };
    Frame &f = s.st.back(); const DI &d = f.bb->ins[f.ip];
    if (d.op == Instruction::Invoke) {
      const LandingPadInst *lp = d.succ[1]->bb->getLandingPadInst(); int sel = 0; bool hit = false;
      for (unsigned i = 0; i < lp->getNumClauses() && !hit; i++) {
        if (lp->isFilter(i)) { if (cast<ArrayType>(lp->getClause(i)->getType())->getNumElements() == 0) { hit = true; sel = -1; } continue; }
        Constant *c = cast<Constant>(lp->getClause(i)->stripPointerCasts());
        if (isa<ConstantPointerNull>(c)) { hit = true; sel = tiId("...") + 1; }
        else if (tiDerives(g_tiNames[s.inflight.ti], c->getName().str())) { hit = true; sel = tiId(c->getName().str()) + 1; }
      }
      if (hit || lp->isCleanup()) { jump(s, d.succ[1]); Frame &g = s.st.back(); Val v = mkAgg(2); (*v.agg)[0] = C(s.inflight.obj, 64); (*v.agg)[1] = C((uint64_t)(int64_t)sel, 32); g.regs[g.fn->regOf[lp]] = v; g.ip = 0; return; }
    }
    if (s.st.size() == 1) throw PathError{ "uncaught", "exception " + g_tiNames[s.inflight.ti] + " escapes" };
    popFrame(s);
  }
}
struct Unwinding {};
static void throwStd(State &s, const char *ti) { s.inflight.obj = allocObj(s, 64, 1, "exception", true); s.inflight.ti = tiId(ti); throw Unwinding{}; }

// ------------------------------------------------------------------ externals
#include "ext.inc"

// ------------------------------------------------------------------ scalar ops
static Op binop(unsigned op) {
  switch (op) { case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL; case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV; case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM;
  case Instruction::And: return O_AND; case Instruction::Or: return O_OR; case Instruction::Xor: return O_XOR; case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; case Instruction::AShr: return O_ASHR; }
  return O_VAR;
}
static V icmp(unsigned p, V a, V b) {
  switch (p) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNe(a, b); case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkUle(a, b); case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkUle(b, a);
  case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SLE: return mkSle(a, b); case CmpInst::ICMP_SGT: return mkSlt(b, a); case CmpInst::ICMP_SGE: return mkSle(b, a); } INC("icmp");
}
static double asD(V v) { if (!v.isC()) INC("symbolic floating point"); if (v.w == 32) { float f; uint32_t u = v.c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &v.c, 8); return d; }
static V fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return C(u, 32); } uint64_t u; memcpy(&u, &d, 8); return C(u, 64); }
static V fcmp(unsigned p, double a, double b) {
  bool un = std::isnan(a) || std::isnan(b); bool r = false;
  switch (p) { case CmpInst::FCMP_OEQ: r = !un && a == b; break; case CmpInst::FCMP_OGT: r = !un && a > b; break; case CmpInst::FCMP_OGE: r = !un && a >= b; break; case CmpInst::FCMP_OLT: r = !un && a < b; break; case CmpInst::FCMP_OLE: r = !un && a <= b; break; case CmpInst::FCMP_ONE: r = !un && a != b; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
  case CmpInst::FCMP_UEQ: r = un || a == b; break; case CmpInst::FCMP_UGT: r = un || a > b; break; case CmpInst::FCMP_UGE: r = un || a >= b; break; case CmpInst::FCMP_ULT: r = un || a < b; break; case CmpInst::FCMP_ULE: r = un || a <= b; break; case CmpInst::FCMP_UNE: r = un || a != b; break; case CmpInst::FCMP_TRUE: r = true; break; default: break; }
  return C(r, 1);
}
static Val binVal(State &s, unsigned op, const Val &a, const Val &b, unsigned w) {
  Op o = binop(op);
  if (o == O_UDIV || o == O_SDIV || o == O_UREM || o == O_SREM) {
    V z = mkEq(b.s, C(0, b.s.w)); if (!z.isF()) { if (z.isT()) throw PathError{ "arith", "division by zero" }; if (sat(s, z) == SAT) { PathError e{ "arith", "division by zero" }; e.cond = z; e.hasCond = true; throw e; } }
  }
  return mkBin(o, a.s, b.s);
}
// flatten vector/scalar to bytes (little endian) and back
static void toBytes(const Val &v, Type *t, std::vector<V> &out) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned ew = wOf(vt->getElementType());
    if (ew == 1) { for (unsigned i = 0; i < vt->getNumElements(); i += 8) { V b = (*v.agg)[i].s; for (unsigned j = 1; j < 8 && i + j < vt->getNumElements(); j++) b = mkConcat((*v.agg)[i + j].s, b); out.push_back(mkZext(b, 8)); } return; }
    for (auto &e : *v.agg) for (unsigned i = 0; i < ew; i += 8) out.push_back(mkExtract(e.s, i + 7, i)); return; }
  if (v.agg) { for (auto &e : *v.agg) for (unsigned i = 0; i < 64; i += 8) out.push_back(mkExtract(e.s, i + 7, i)); return; }
  if (v.s.w % 8) { out.push_back(mkZext(v.s, 8)); return; }
  for (unsigned i = 0; i < v.s.w; i += 8) out.push_back(mkExtract(v.s, i + 7, i));
}
static V catBytes(const std::vector<V> &b, size_t at, unsigned n) { V r = b[at]; for (unsigned i = 1; i < n; i++) r = mkConcat(b[at + i], r); return r; }
static Val fromBytes(const std::vector<V> &b, Type *t) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned ew = wOf(vt->getElementType()); Val r = mkAgg(vt->getNumElements());
    if (ew == 1) { for (unsigned i = 0; i < vt->getNumElements(); i++) (*r.agg)[i] = mkExtract(b[i / 8], i % 8, i % 8); return r; }
    for (unsigned i = 0; i < vt->getNumElements(); i++) (*r.agg)[i] = catBytes(b, i * ew / 8, ew / 8); return r; }
  unsigned w = wOf(t); if (w == 128) { Val r = mkAgg(2); (*r.agg)[0] = catBytes(b, 0, 8); (*r.agg)[1] = catBytes(b, 8, 8); return r; }
  if (w % 8) return mkExtract(catBytes(b, 0, b.size()), w - 1, 0);
  return catBytes(b, 0, w / 8);
}
static Val iteVal(V c, const Val &a, const Val &b) {
  if (c.isC()) return c.c ? a : b;
  if (a.agg && b.agg) { if (a.agg == b.agg) return a; Val r = mkAgg(a.agg->size()); for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = iteVal(c, (*a.agg)[i], (*b.agg)[i]); return r; }
  return mkIte(c, a.s, b.s);
}
static V castV(unsigned op, V a, unsigned w) {
  switch (op) { case Instruction::Trunc: return mkExtract(a, w - 1, 0); case Instruction::ZExt: return mkZext(a, w); case Instruction::SExt: return mkSext(a, w);
  case Instruction::PtrToInt: return w < 64 ? mkExtract(a, w - 1, 0) : a; case Instruction::IntToPtr: return mkZext(a, 64);
  case Instruction::SIToFP: { if (!a.isC()) INC("symbolic int to floating point"); return fromD((double)SX(a.c, a.w), w); } case Instruction::UIToFP: { if (!a.isC()) INC("symbolic int to floating point"); return fromD((double)a.c, w); }
  case Instruction::FPToSI: { double d = asD(a); return C((uint64_t)(int64_t)d, w); } case Instruction::FPToUI: { double d = asD(a); return C(d >= 9.2e18 ? (uint64_t)d : (uint64_t)(int64_t)d, w); }
  case Instruction::FPTrunc: case Instruction::FPExt: return fromD(asD(a), w); } INC("cast");
}

static void pushCall(State &s, FnInfo *f, std::vector<Val> &args, const DI *d) {
  if (!f->decoded) decode(f);
  if (s.st.size() > 4000) throw PathError{ "memory", "call stack exhausted" };
  Frame fr; fr.fn = f; fr.regs.resize(f->nregs); unsigned na = f->F->arg_size();
  for (unsigned i = 0; i < args.size(); i++) {
    if (i < na) {
      if (f->F->hasParamAttribute(i, Attribute::ByVal)) { Type *bt = f->F->getParamByValType(i); uint64_t n = DL->getTypeAllocSize(bt); uint64_t a = allocObj(s, n, 2, "byval", false); uint64_t src = concretise(s, args[i].s); for (uint64_t k = 0; k < n; k++) { Obj *so = inObj(s, src + k, 1, "read"); Obj *o = writable(s, findObj(s, a)); o->c[k] = so->c[src + k - so->base]; o->s[k] = so->s.empty() ? nullptr : so->s[src + k - so->base]; } fr.allocas.push_back(a); fr.regs[i] = C(a, 64); }
      else fr.regs[i] = args[i];
    } else fr.varargs.push_back(args[i]);
  }
  f->execs++; fr.bb = f->bbs[0].get(); s.st.push_back(std::move(fr)); s.atStart = true;
}
static void finishCall(State &s, const DI &d, Val v) { // after a handled call in the top frame
  Frame &f = s.st.back(); if (d.dst >= 0) { if (!v.set()) v = undefOf(d.ty); f.regs[d.dst] = std::move(v); }
  if (d.op == Instruction::Invoke) jump(s, d.succ[0]); else f.ip++;
}
static void doCall(State &s, const DI &d) {
  Frame &f = s.st.back(); std::vector<Val> args; size_t n = d.o.size(); FnInfo *cf = d.callee;
  if (d.sub == 1) { // inline asm: only compiler barriers
    finishCall(s, d, Val()); g_notes.insert("inline asm ignored"); return; }
  if (!cf) {
    V fp = get(f, d.o[n - 1]).s; uint64_t a = concretise(s, fp); n--;
    auto it = g_fnAt.find(a); if (it == g_fnAt.end()) throw PathError{ "memory", "call through a bad function pointer" };
    cf = fnInfo(it->second);
  }
  for (size_t i = 0; i < n; i++) args.push_back(get(f, d.o[i]));
  if (cf->h) { Val v; size_t dep = s.st.size(); v = cf->h(s, d, args); if (s.st.size() == dep) finishCall(s, d, v); return; }
  if (cf->x86) {
    std::vector<V> xa; unsigned i = 0; for (auto &a : args) { V v = a.s; xa.push_back(mkZext(v, 64)); i++; }
    auto save = s.mem; V r; try { r = x86Call(s, cf->name, xa); } catch (NeedFork &) { s.mem = save; throw; }
    cf->execs++; finishCall(s, d, d.dst >= 0 ? Val(d.w < 64 ? mkExtract(r, d.w - 1, 0) : r) : Val()); return;
  }
  if (cf->ext) INC("call to unmodelled external " + cf->name);
  pushCall(s, cf, args, &d);
}

static void step(State &s) {
  Frame &f = s.st.back(); const DI &d = f.bb->ins[f.ip]; g_insts++; f.fn->instrs++;
  s.atStart = false;
  switch (d.op) {
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
  case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    const Val &a = get(f, d.o[0]), &b = get(f, d.o[1]);
    if (!d.vec) { f.regs[d.dst] = binVal(s, d.op, a, b, d.w); f.ip++; return; }
    if (d.ty->isVectorTy()) { Val r = mkAgg(a.agg->size()); for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = binVal(s, d.op, (*a.agg)[i], (*b.agg)[i], 0); f.regs[d.dst] = r; f.ip++; return; }
    if (d.w == 128 && (d.op == Instruction::Or || d.op == Instruction::And || d.op == Instruction::Xor)) { Val r = mkAgg(2); for (int i = 0; i < 2; i++) (*r.agg)[i] = binVal(s, d.op, (*a.agg)[i], (*b.agg)[i], 0); f.regs[d.dst] = r; f.ip++; return; }
    if (d.w == 128 && (d.op == Instruction::LShr || d.op == Instruction::Shl) && (*b.agg)[0].s.isC()) {
      uint64_t k = (*b.agg)[0].s.c; V lo = (*a.agg)[0].s, hi = (*a.agg)[1].s, z = C(0, 64), rl, rh;
      auto sh = [&](V x, Op o, uint64_t n) { return n >= 64 ? z : mkBin(o, x, C(n, 64)); };
      if (d.op == Instruction::LShr) { if (k >= 64) { rl = sh(hi, O_LSHR, k - 64); rh = z; } else if (!k) { rl = lo; rh = hi; } else { rl = mkOr(sh(lo, O_LSHR, k), sh(hi, O_SHL, 64 - k)); rh = sh(hi, O_LSHR, k); } }
      else { if (k >= 64) { rh = sh(lo, O_SHL, k - 64); rl = z; } else if (!k) { rl = lo; rh = hi; } else { rh = mkOr(sh(hi, O_SHL, k), sh(lo, O_LSHR, 64 - k)); rl = sh(lo, O_SHL, k); } }
      Val r = mkAgg(2); (*r.agg)[0] = rl; (*r.agg)[1] = rh; f.regs[d.dst] = r; f.ip++; return; }
    if (d.w == 128 && d.op == Instruction::Mul && (*a.agg)[1].s.isC() && (*b.agg)[1].s.isC() && (*a.agg)[0].s.isC() && (*b.agg)[0].s.isC()) {
      unsigned __int128 x = ((unsigned __int128)(*a.agg)[1].s.c << 64) | (*a.agg)[0].s.c, y = ((unsigned __int128)(*b.agg)[1].s.c << 64) | (*b.agg)[0].s.c, z = x * y; Val r = mkAgg(2); (*r.agg)[0] = C((uint64_t)z, 64); (*r.agg)[1] = C((uint64_t)(z >> 64), 64); f.regs[d.dst] = r; f.ip++; return; }
    INC("128-bit arithmetic"); }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    if (d.vec) INC("vector floating point");
    double a = asD(get(f, d.o[0]).s), b = asD(get(f, d.o[1]).s), r = 0;
    switch (d.op) { case Instruction::FAdd: r = a + b; break; case Instruction::FSub: r = a - b; break; case Instruction::FMul: r = a * b; break; case Instruction::FDiv: r = a / b; break; default: r = fmod(a, b); }
    if (d.w == 32) r = (float)r; f.regs[d.dst] = fromD(r, d.w); f.ip++; return; }
  case Instruction::FNeg: f.regs[d.dst] = fromD(-asD(get(f, d.o[0]).s), d.w); f.ip++; return;
  case Instruction::ICmp: {
    const Val &a = get(f, d.o[0]), &b = get(f, d.o[1]);
    if (!a.agg) { f.regs[d.dst] = icmp(d.sub, a.s, b.s); f.ip++; return; }
    if (d.ty->isVectorTy()) { Val r = mkAgg(a.agg->size()); for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = icmp(d.sub, (*a.agg)[i].s, (*b.agg)[i].s); f.regs[d.dst] = r; f.ip++; return; }
    V eq = mkAnd(mkEq((*a.agg)[0].s, (*b.agg)[0].s), mkEq((*a.agg)[1].s, (*b.agg)[1].s));
    if (d.sub == CmpInst::ICMP_EQ) { f.regs[d.dst] = eq; f.ip++; return; } if (d.sub == CmpInst::ICMP_NE) { f.regs[d.dst] = mkNot(eq); f.ip++; return; }
    INC("128-bit compare"); }
  case Instruction::FCmp: f.regs[d.dst] = fcmp(d.sub, asD(get(f, d.o[0]).s), asD(get(f, d.o[1]).s)); f.ip++; return;
  case Instruction::Select: {
    const Val &c = get(f, d.o[0]), &a = get(f, d.o[1]), &b = get(f, d.o[2]);
    if (c.agg) { Val r = mkAgg(a.agg->size()); for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = iteVal((*c.agg)[i].s, (*a.agg)[i], (*b.agg)[i]); f.regs[d.dst] = r; } else { Val r = iteVal(c.s, a, b); f.regs[d.dst] = r; } f.ip++; return; }
  case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPTrunc: case Instruction::FPExt: {
    const Val &a = get(f, d.o[0]);
    if (d.ty->isVectorTy()) { unsigned ew = wOf(cast<VectorType>(d.ty)->getElementType()); Val r = mkAgg(a.agg->size()); for (size_t i = 0; i < a.agg->size(); i++) (*r.agg)[i] = castV(d.op, (*a.agg)[i].s, ew); f.regs[d.dst] = r; f.ip++; return; }
    if (a.agg) { if (d.op == Instruction::Trunc && d.w <= 64) { f.regs[d.dst] = d.w == 64 ? (*a.agg)[0].s : mkExtract((*a.agg)[0].s, d.w - 1, 0); f.ip++; return; } INC("128-bit cast"); }
    if (d.w == 128) { Val r = mkAgg(2); (*r.agg)[0] = d.op == Instruction::SExt ? mkSext(a.s, 64) : mkZext(a.s, 64); (*r.agg)[1] = d.op == Instruction::SExt ? mkSext(mkExtract((*r.agg)[0].s, 63, 63), 64) : C(0, 64); f.regs[d.dst] = r; f.ip++; return; }
    if (d.w > 64) { f.regs[d.dst] = C(0, 64); INC("wide cast"); }
    f.regs[d.dst] = castV(d.op, a.s, d.w); f.ip++; return; }
  case Instruction::BitCast: {
    const Val &a = get(f, d.o[0]); if (!a.agg && !d.vec) { f.regs[d.dst] = a; f.ip++; return; }
    std::vector<V> b; toBytes(a, d.I->getOperand(0)->getType(), b); Val r = fromBytes(b, d.ty); f.regs[d.dst] = r; f.ip++; return; }
  case Instruction::Freeze: { Val v = get(f, d.o[0]); f.regs[d.dst] = v; f.ip++; return; }
  case Instruction::GetElementPtr: {
    V p = get(f, d.o[0]).s; if (d.k) p = mkAdd(p, C(d.k, 64));
    for (auto &x : d.sc) { V i = get(f, d.o[x.first]).s; if (i.w < 64) i = mkSext(i, 64); else if (i.w > 64) i = mkExtract(i, 63, 0); p = mkAdd(p, mkMul(i, C(x.second, 64))); }
    f.regs[d.dst] = p; f.ip++; return; }
  case Instruction::Load: { V a = get(f, d.o[0]).s;
    if (a.isC() && !d.vec && d.w <= 64 && d.w % 8 == 0) { Obj *o = findObj(s, a.c); if (o && a.c + d.w / 8 <= o->base + o->size && o->kind != 3) { V v = rd(s, o, a.c - o->base, d.w / 8); f.regs[d.dst] = v; f.ip++; return; } }
    Val v = loadTy(s, a, d.ty); s.st.back().regs[d.dst] = v; f.ip++; return; }
  case Instruction::Store: { V a = get(f, d.o[1]).s; storeTy(s, a, get(f, d.o[0]), d.ty); f.ip++; return; }
  case Instruction::Alloca: { uint64_t n = concretise(s, get(f, d.o[0]).s); uint64_t a = allocObj(s, n * d.k, 2, "local variable", false, d.sub); f.allocas.push_back(a); f.regs[d.dst] = C(a, 64); f.ip++; return; }
  case Instruction::ExtractValue: { Val v = get(f, d.o[0]); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { Val t = (*v.agg)[i]; v = t; } f.regs[d.dst] = v; f.ip++; return; }
  case Instruction::InsertValue: { Val v = get(f, d.o[0]); const Val &x = get(f, d.o[1]); auto idx = cast<InsertValueInst>(d.I)->getIndices();
    std::function<Val(const Val&, unsigned)> ins = [&](const Val &b, unsigned k) -> Val { if (k == idx.size()) return x; Val r; r.agg = std::make_shared<std::vector<Val>>(*b.agg); (*r.agg)[idx[k]] = ins((*b.agg)[idx[k]], k + 1); return r; };
    Val r = ins(v, 0); f.regs[d.dst] = r; f.ip++; return; }
  case Instruction::ExtractElement: { const Val &v = get(f, d.o[0]); V i = get(f, d.o[1]).s; Val r; if (i.isC()) r = (*v.agg)[i.c % v.agg->size()]; else { r = (*v.agg)[0]; for (size_t k = 1; k < v.agg->size(); k++) r = iteVal(mkEq(i, C(k, i.w)), (*v.agg)[k], r); } f.regs[d.dst] = r; f.ip++; return; }
  case Instruction::InsertElement: { const Val &v = get(f, d.o[0]); uint64_t i = concretise(s, get(f, d.o[2]).s); Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); (*r.agg)[i] = get(f, d.o[1]); f.regs[d.dst] = r; f.ip++; return; }
  case Instruction::ShuffleVector: { auto *sv = cast<ShuffleVectorInst>(d.I); const Val &a = get(f, d.o[0]), &b = get(f, d.o[1]); auto m = sv->getShuffleMask(); Val r = mkAgg(m.size()); size_t n = a.agg->size(); for (size_t i = 0; i < m.size(); i++) (*r.agg)[i] = m[i] < 0 ? undefOf(cast<VectorType>(d.ty)->getElementType()) : (size_t)m[i] < n ? (*a.agg)[m[i]] : (*b.agg)[m[i] - n]; f.regs[d.dst] = r; f.ip++; return; }
  case Instruction::Br: if (d.succ.size() == 1) { jump(s, d.succ[0]); return; } { V c = get(f, d.o[0]).s; jump(s, decide(s, c) ? d.succ[0] : d.succ[1]); return; }
  case Instruction::Switch: { V c = get(f, d.o[0]).s;
    if (c.isC()) { for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i] == c.c) { jump(s, d.succ[i + 1]); return; } jump(s, d.succ[0]); return; }
    // group cases by destination so that a switch forks once per destination
    std::vector<std::pair<BBInfo*, V>> g; for (size_t i = 0; i < d.cases.size(); i++) { V e = mkEq(c, C(d.cases[i], c.w)); bool f2 = false; if (d.succ[i+1]->phis.empty()) for (auto &x : g) if (x.first == d.succ[i + 1]) { x.second = mkOr(x.second, e); f2 = true; break; } if (!f2) g.push_back({ d.succ[i + 1], e }); }
    for (auto &x : g) if (decide(s, x.second)) { jump(s, x.first); return; }
    jump(s, d.succ[0]); return; }
  case Instruction::Ret: { Val v; if (!d.o.empty()) v = get(f, d.o[0]); popFrame(s); if (s.st.empty()) return; Frame &c = s.st.back(); const DI &cd = c.bb->ins[c.ip]; if (cd.dst >= 0) c.regs[cd.dst] = v; if (cd.op == Instruction::Invoke) jump(s, cd.succ[0]); else { c.ip++; } s.atStart = false; if (cd.op == Instruction::Invoke) s.atStart = true; return; }
  case Instruction::Call: case Instruction::Invoke: doCall(s, d); return;
  case Instruction::LandingPad: f.ip++; return; // value set by unwind()
  case Instruction::Resume: throw Unwinding{};
  case Instruction::Unreachable: throw PathError{ "unreachable", "reached an unreachable instruction (undefined behaviour or missing return)" };
  case Instruction::AtomicRMW: { auto *rm = cast<AtomicRMWInst>(d.I); V a = get(f, d.o[0]).s, x = get(f, d.o[1]).s, o = loadSym(s, a, x.w / 8), n; switch (rm->getOperation()) { case AtomicRMWInst::Add: n = mkAdd(o, x); break; case AtomicRMWInst::Sub: n = mkSub(o, x); break; case AtomicRMWInst::Xchg: n = x; break; case AtomicRMWInst::Or: n = mkOr(o, x); break; case AtomicRMWInst::And: n = mkAnd(o, x); break; default: INC("atomicrmw"); } storeSym(s, a, n); f.regs[d.dst] = o; f.ip++; return; }
  case Instruction::AtomicCmpXchg: { V a = get(f, d.o[0]).s, e = get(f, d.o[1]).s, n = get(f, d.o[2]).s, o = loadSym(s, a, e.w / 8), q = mkEq(o, e); storeSym(s, a, mkIte(q, n, o)); Val r = mkAgg(2); (*r.agg)[0] = o; (*r.agg)[1] = q; f.regs[d.dst] = r; f.ip++; return; }
  case Instruction::Fence: f.ip++; return;
  default: break;
  }
  INC(std::string("instruction ") + d.I->getOpcodeName());
}

// ------------------------------------------------------------------ merging
static bool mergeVal(V g, Val &a, const Val &b) { // a := g ? a : b ; false if impossible
  if (!a.set()) return true; if (!b.set()) { a = Val(); return true; } // value dead on one side
  if ((bool)a.agg != (bool)b.agg) return false;
  if (a.agg) { if (a.agg == b.agg) return true; if (a.agg->size() != b.agg->size()) return false; Val r = mkAgg(a.agg->size()); for (size_t i = 0; i < a.agg->size(); i++) { Val x = (*a.agg)[i]; if (!mergeVal(g, x, (*b.agg)[i])) return false; (*r.agg)[i] = x; } a = r; return true; }
  if (a.s == b.s) return true; if (a.s.w != b.s.w) return false; a.s = mkIte(g, a.s, b.s); return true;
}
static bool symEq(const std::vector<SymRec> &a, const std::vector<SymRec> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].vals != b[i].vals) return false; return true; }
static bool tryMerge(State &a, State &b) { // into a
  if (a.st.size() != b.st.size() || a.caught.size() != b.caught.size() || !symEq(a.syms, b.syms)) return false;
  Frame &fa = a.st.back(), &fb = b.st.back(); if (fa.bb != fb.bb || fa.ip != fb.ip || fa.allocas != fb.allocas) return false;
  for (size_t i = 0; i + 1 < a.st.size(); i++) if (a.st[i].bb != b.st[i].bb || a.st[i].ip != b.st[i].ip || a.st[i].allocas.size() != b.st[i].allocas.size()) return false;
  size_t k = 0; while (k < a.pc.size() && k < b.pc.size() && a.pc[k] == b.pc[k]) k++;
  V ca = TRUE_(), cb = TRUE_(); for (size_t i = k; i < a.pc.size(); i++) ca = mkAnd(ca, a.pc[i]); for (size_t i = k; i < b.pc.size(); i++) cb = mkAnd(cb, b.pc[i]);
  V g = ca; if (k < a.pc.size() && k < b.pc.size() && a.pc[k] == mkNot(b.pc[k])) g = a.pc[k];
  // memory
  struct Upd { uint64_t base; OP o; }; std::vector<Upd> up; auto ia = a.mem.begin(), ib = b.mem.begin(); size_t diff = 0;
  while (ia != a.mem.end() || ib != b.mem.end()) {
    if (ib == b.mem.end() || (ia != a.mem.end() && ia->first < ib->first)) { ++ia; continue; }   // only in a: unreachable from b's values
    if (ia == a.mem.end() || ib->first < ia->first) { up.push_back({ ib->first, ib->second }); ++ib; continue; }
    Obj *x = ia->second.p, *y = ib->second.p;
    if (x != y) {
      OP n(new Obj(*x)); n->rc = 1; bool ch = false;
      for (uint64_t i = 0; i < x->size; i++) {
        const Node *p = x->s.empty() ? nullptr : x->s[i], *q = y->s.empty() ? nullptr : y->s[i];
        if (p == q && (p || x->c[i] == y->c[i])) continue;
        if (p == UNINIT || q == UNINIT) { // uninitialised on one side: keep the initialised value (any value is allowed there)
          const Node *z = p == UNINIT ? q : p; uint8_t zc = p == UNINIT ? y->c[i] : x->c[i]; if (n->s.empty()) n->s.assign(x->size, nullptr); n->s[i] = z; n->c[i] = zc; ch = true; continue; }
        V u, v; if (p) { u.n = p; u.w = 8; } else u = C(x->c[i], 8); if (q) { v.n = q; v.w = 8; } else v = C(y->c[i], 8);
        V m = mkIte(g, u, v); if (n->s.empty()) n->s.assign(x->size, nullptr);
        if (m.isC()) { n->c[i] = m.c; n->s[i] = nullptr; } else n->s[i] = m.n; ch = true; diff++;
      }
      if (ch) up.push_back({ ia->first, n });
    }
    ++ia; ++ib;
  }
  std::vector<Frame> st = a.st; // lower frames may differ too (values returned into them before the merge point)
  for (size_t i = 0; i < a.st.size(); i++) for (size_t r = 0; r < st[i].regs.size(); r++) if (!mergeVal(g, st[i].regs[r], b.st[i].regs[r])) return false;
  a.st = std::move(st); for (auto &u : up) a.mem[u.base] = u.o;
  a.pc.resize(k); addPc(a, mkOr(ca, cb)); a.forks = std::max(a.forks, b.forks); g_merges++; return true;
}

// ------------------------------------------------------------------ main loop
struct Violation { std::string kind, msg, where; std::vector<SymRec> syms; Model m; std::vector<std::string> logs; };
struct Stop {};
static std::vector<Violation> g_viol; static unsigned g_maxViol = 1; static std::string g_inc;
static void report(State &s, const PathError &e) {
  Violation v; v.kind = e.kind; v.msg = e.msg; v.where = whereOf(s); v.syms = s.syms; v.m = s.model; v.logs = s.logs;
  if (e.hasCond && !e.cond.isT()) { Model m; if (sat(s, e.cond, &m) == SAT) v.m = m; else return; }
  g_viol.push_back(v); if (g_viol.size() >= g_maxViol) throw Stop{};
}
static void finishPath(State &s) { g_paths++; if (g_paths >= g_maxPaths) INC("path limit"); }
static void run(State s0, size_t depth, BBInfo *stop, std::vector<State> &arrived, std::vector<State> &escaped) {
  std::vector<State> work; work.push_back(std::move(s0));
  while (!work.empty()) {
    State s = std::move(work.back()); work.pop_back(); bool first = true;
    for (;;) {
      if (s.st.empty()) { finishPath(s); break; }
      if (s.st.size() < depth) { escaped.push_back(std::move(s)); break; }
      if (stop && s.st.size() == depth && s.atStart && s.st.back().bb == stop && s.st.back().ip == 0) { arrived.push_back(std::move(s)); break; }
      try { step(s);
        if ((g_insts & 0xffff) == 0 && g_deadline && nowS() > g_deadline) INC("time limit"); }
      catch (Unwinding &) { try { unwind(s); } catch (PathError &e) { report(s, e); break; } }
      catch (PathError &e) {
        report(s, e);
        if (e.hasCond) { addPc(s, mkNot(e.cond)); Model m; State t; if (evalV(e.cond, s.model)) { std::vector<V> pc = s.pc; pc.pop_back(); if (checkSat(pc, mkNot(e.cond), nullptr, &m) != SAT) break; s.model = m; } continue; }
        break; }
      catch (PathEnd &) { g_assumeCut++; break; }
      catch (NeedFork &nf) {
        g_forks++; V c = nf.cond; bool v = evalV(c, s.model); Model m; if (sat(s, v ? mkNot(c) : c, &m) != SAT) { INC("fork on infeasible side"); }
        State t = s; s.forks++; t.forks++; addPc(s, v ? c : mkNot(c)); addPc(t, v ? mkNot(c) : c); t.model = m;
        BBInfo *ip = nullptr; if (g_merge) { FnInfo *fn = s.st.back().fn; if (!fn->ipdomDone) ipdoms(fn); ip = s.st.back().bb->ipdom; }
        if (!ip) { work.push_back(std::move(t)); continue; }
        std::vector<State> arr, esc; size_t dep = s.st.size();
        run(std::move(s), dep, ip, arr, esc); run(std::move(t), dep, ip, arr, esc);
        std::vector<State> mg;
        for (auto &x : arr) { bool ok = false; for (auto &y : mg) if (tryMerge(y, x)) { ok = true; break; } if (!ok) { if (!mg.empty()) g_mergeFail++; mg.push_back(std::move(x)); } }
        // escaped states that returned from the frame to the same place can be merged as well
        std::vector<State> me;
        for (auto &x : esc) { bool ok = false; for (auto &y : me) if (!x.st.empty() && !y.st.empty() && tryMerge(y, x)) { ok = true; break; } if (!ok) me.push_back(std::move(x)); }
        for (auto &x : mg) work.push_back(std::move(x)); for (auto &x : me) work.push_back(std::move(x));
        break;
      }
    }
  }
}

static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string g_entry = "sym_main", g_out, g_file; static std::vector<std::string> g_objs; static int g_rc = 0;

static void setupGlobals(State &s) {
  for (auto &g : M->globals()) { if (g.getName().starts_with("llvm.")) continue; uint64_t n = g.hasInitializer() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : std::max<uint64_t>(g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 0, 1024); 
    if (g.hasExternalWeakLinkage()) { g_gaddr[&g] = 0; continue; }
    g_gaddr[&g] = allocObj(s, n, 0, strdup(g.getName().str().c_str()), true, std::max<uint64_t>(16, g.getAlign().valueOrOne().value())); }
  for (auto &f : *M) { if (f.isIntrinsic()) { g_gaddr[&f] = 1; continue; } if (f.hasExternalWeakLinkage() && f.isDeclaration()) { g_gaddr[&f] = 0; continue; } uint64_t a = allocObj(s, 16, 3, strdup(f.getName().str().c_str()), true); g_gaddr[&f] = a; g_fnAt[a] = &f; }
  for (auto &g : M->globals()) if (g.hasInitializer() && g_gaddr.count(&g)) { Obj *o = s.mem[g_gaddr[&g]].p; initMem(o, 0, g.getInitializer()); o->ro = g.isConstant(); }
}
uint64_t fnAddr(const std::string &n) { auto *f = M->getFunction(n); return f ? g_gaddr[f] : 0; }

static void *body(void *) {
  SMDiagnostic err; LC = new LLVMContext; auto m = parseIRFile(g_file, err, *LC); if (!m) { err.print("symx", errs()); g_rc = 4; return nullptr; }
  M = m.release(); DL = &M->getDataLayout(); solverInit();
  double t0 = nowS(); std::string result = "ok"; std::vector<std::string> logs;
  try {
    for (auto &o : g_objs) x86Load(o);
    State s; s.model = newModel(nullptr); setupGlobals(s); x86Setup(s);
    auto runFn = [&](const Function *F, bool keep) { State t = s; std::vector<Val> a; for (auto &x : F->args()) (void)x; pushCall(t, fnInfo(F), a, nullptr); std::vector<State> ar, es;
      if (!keep) { run(std::move(t), 0, nullptr, ar, es); return; }
      while (!t.st.empty()) { try { step(t); } catch (Unwinding &) { INC("exception in a static constructor"); } catch (NeedFork &) { INC("fork in a static constructor"); } catch (PathError &e) { INC("error in a static constructor: " + e.msg); } }
      s = std::move(t); };
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<uint64_t, const Function*>> l; for (auto &o : ca->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) l.push_back({ cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f }); }
      std::stable_sort(l.begin(), l.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &f : l) runFn(f.second, true); }
    auto *F = M->getFunction(g_entry); if (!F) INC("no entry function " + g_entry);
    runFn(F, false);
  } catch (Inconclusive &e) { g_inc = e.msg; result = "inconclusive"; }
  catch (Stop &) {}
  catch (PathError &e) { g_inc = "setup error: " + e.msg; result = "inconclusive"; }
  if (!g_viol.empty()) result = "violation";
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  std::ostringstream o; o << "{\n \"result\":\"" << result << "\",\"reason\":\"" << jesc(g_inc) << "\",\"wall_s\":" << nowS() - t0 << ",\"rss_mb\":" << ru.ru_maxrss / 1024 << ",\"paths\":" << g_paths << ",\"cut_by_assume\":" << g_assumeCut << ",\"cut_alloc\":" << g_cutAlloc << ",\"forks\":" << g_forks << ",\"merges\":" << g_merges << ",\"merge_fail\":" << g_mergeFail << ",\"instructions\":" << g_insts << ",\"x86_instructions\":" << g_x86insts
    << ",\"queries\":" << g_ss.queries << ",\"assert_queries\":" << g_ss.asserts << ",\"asserts_discharged\":" << g_assertsOk << ",\"asserts_by_simplifier\":" << g_assertsConst << ",\"solver_cache_hits\":" << g_ss.cacheHits << ",\"decided_by_canonical_form\":" << g_ss.canonical << ",\"canonical_form_checks\":" << g_ss.selfchecks << ",\"decided_up_to_renaming\":" << g_ss.iso << ",\"sweep_proofs\":" << g_ss.proofs << ",\"sweep_merges\":" << g_ss.merged << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"unknown\":" << g_ss.unknown << ",\"solver_s\":" << g_ss.time << ",\"solver_max_s\":" << g_ss.maxTime << ",\"nodes\":" << g_nodes << ",\"undef_reads\":" << g_undefReads;
  o << ",\n \"reached\":{"; bool c = false; for (auto &r : g_reached) { o << (c ? "," : "") << "\"" << jesc(r.first) << "\":" << r.second; c = true; } o << "},\"possible\":{"; c = false; for (auto &r : g_possible) { o << (c ? "," : "") << "\"" << jesc(r.first) << "\":" << r.second; c = true; } o << "}";
  o << ",\n \"notes\":["; c = false; for (auto &n : g_notes) { o << (c ? "," : "") << "\"" << jesc(n) << "\""; c = true; } o << "]";
  o << ",\n \"functions\":["; c = false;
  for (auto &p : g_fns) if (p.second->execs && p.first->getSubprogram()) { std::string fn = p.first->getSubprogram()->getFilename().str(), dir = p.first->getSubprogram()->getDirectory().str(); if (fn.size() && fn[0] != '/') fn = dir + "/" + fn; size_t q = fn.find(g_repo + "/"); if (q != 0) continue; o << (c ? "," : "") << "\n  {\"f\":\"" << jesc(p.second->name) << "\",\"file\":\"" << jesc(fn.substr(g_repo.size() + 1)) << "\",\"instrs\":" << p.second->instrs << "}"; c = true; }
  for (auto &x : g_x86fns) { o << (c ? "," : "") << "\n  {\"f\":\"" << x << "\",\"file\":\"asm\",\"instrs\":0}"; c = true; }
  o << "],\n \"violations\":["; c = false;
  for (auto &v : g_viol) { o << (c ? "," : "") << "\n  {\"kind\":\"" << v.kind << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"values\":["; bool d = false; for (auto &r : v.syms) { o << (d ? "," : "") << "{\"name\":\"" << jesc(r.name) << "\",\"w\":" << r.w << ",\"v\":["; for (size_t i = 0; i < r.vals.size(); i++) o << (i ? "," : "") << evalV(r.vals[i], v.m); o << "]}"; d = true; } o << "],\"logs\":["; d = false; for (auto &l : v.logs) { o << (d ? "," : "") << "\"" << jesc(l) << "\""; d = true; } o << "]}"; c = true; }
  o << "]\n}\n";
  if (g_out.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream f(g_out); f << o.str(); }
  fflush(stdout); g_rc = result == "ok" ? 0 : result == "violation" ? 1 : 2; _exit(g_rc);
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--merge") g_merge = true; else if (a == "--entry") g_entry = nx(); else if (a == "--out") g_out = nx(); else if (a == "--asm") g_objs.push_back(nx()); else if (a == "--timeout") g_deadline = nowS() + atof(nx().c_str());
    else if (a == "--solver-timeout") g_timeoutMs = (unsigned)(atof(nx().c_str()) * 1000); else if (a == "--dump") g_dumpDir = nx(); else if (a == "--alloc-limit") g_allocLimit = strtoull(nx().c_str(), 0, 0); else if (a == "--alloc-violation") g_allocViolation = true; else if (a == "--max-violations") g_maxViol = atoi(nx().c_str()); else if (a == "--max-paths") g_maxPaths = strtoull(nx().c_str(), 0, 0);
    else if (a == "--repo") g_repo = nx(); else if (a == "--param") { std::string p = nx(); size_t q = p.find('='); g_params[p.substr(0, q)] = strtoll(p.c_str() + q + 1, 0, 0); }
    else if (a == "--values") { g_useFixed = true; std::ifstream f(nx()); std::string line; while (std::getline(f, line)) { std::istringstream is(line); std::vector<uint64_t> v; uint64_t x; while (is >> x) v.push_back(x); g_fixed.push_back(v); } }
    else g_file = a; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8ull << 30); pthread_t th; if (pthread_create(&th, &at, body, nullptr)) { perror("pthread_create"); return 4; } pthread_join(th, nullptr); return g_rc;
}
