// Symbolic execution of the repository's hand-written SSE/MMX kernels, from their disassembly.
#include "state.hh"
#include <array>
#include <sstream>
uint64_t g_x86insts = 0; std::set<std::string> g_x86fns;
namespace {
const uint64_t BASE = 0x700000000000ull;
struct Opd { int kind = 0; /*1 gpr 2 xmm 3 mm 4 imm 5 mem*/ int r = 0; int bits = 0; int hi = 0; uint64_t imm = 0; int base = -1, idx = -1, scale = 1; int64_t disp = 0; bool rip = false; };
struct Ins { uint64_t addr; std::string op; std::vector<Opd> o; std::string text; };
std::map<uint64_t, size_t> at; std::vector<Ins> code; std::map<std::string, uint64_t> sym; struct Sec { uint64_t a; std::vector<uint8_t> d; }; std::vector<Sec> secs;

int gpr(const std::string &n, int &bits, int &hi) {
  static const char *q[] = { "rax","rcx","rdx","rbx","rsp","rbp","rsi","rdi" }, *e[] = { "eax","ecx","edx","ebx","esp","ebp","esi","edi" }, *w[] = { "ax","cx","dx","bx","sp","bp","si","di" }, *b[] = { "al","cl","dl","bl","spl","bpl","sil","dil" }, *h[] = { "ah","ch","dh","bh" };
  hi = 0; for (int i = 0; i < 8; i++) { if (n == q[i]) { bits = 64; return i; } if (n == e[i]) { bits = 32; return i; } if (n == w[i]) { bits = 16; return i; } if (n == b[i]) { bits = 8; return i; } }
  for (int i = 0; i < 4; i++) if (n == h[i]) { bits = 8; hi = 1; return i; }
  if (n.size() >= 2 && n[0] == 'r' && isdigit(n[1])) { int k = atoi(n.c_str() + 1); char l = n.back(); bits = l == 'd' ? 32 : l == 'w' ? 16 : l == 'b' ? 8 : 64; return k; }
  return -1;
}
std::string trim(const std::string &s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t\r\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
Opd parseOpd(std::string t, uint64_t ripTarget) {
  Opd o; t = trim(t); size_t p = t.find("PTR "); int bits = 0;
  if (p != std::string::npos) { std::string sz = trim(t.substr(0, p)); bits = sz == "BYTE" ? 8 : sz == "WORD" ? 16 : sz == "DWORD" ? 32 : sz == "QWORD" ? 64 : sz == "XMMWORD" ? 128 : 0; t = trim(t.substr(p + 4)); }
  if (t[0] == '[') {
    o.kind = 5; o.bits = bits; std::string in = t.substr(1, t.find(']') - 1); size_t i = 0; int sg = 1;
    while (i < in.size()) { if (in[i] == '+') { sg = 1; i++; continue; } if (in[i] == '-') { sg = -1; i++; continue; } size_t j = i; while (j < in.size() && in[j] != '+' && in[j] != '-') j++; std::string tok = in.substr(i, j - i); i = j; int bt, h;
      size_t st = tok.find('*'); if (tok == "rip") { o.rip = true; continue; }
      if (st != std::string::npos) { o.idx = gpr(tok.substr(0, st), bt, h); o.scale = atoi(tok.c_str() + st + 1); } else { int g = gpr(tok, bt, h); if (g >= 0) { if (bt != 64) throw Inconclusive{ "32-bit addressing" }; if (o.base < 0) o.base = g; else { o.idx = g; o.scale = 1; } } else o.disp += sg * (int64_t)strtoull(tok.c_str(), 0, 0); } }
    if (o.rip) { o.base = o.idx = -1; o.disp = ripTarget; } return o; }
  if (t.compare(0, 3, "xmm") == 0) { o.kind = 2; o.r = atoi(t.c_str() + 3); o.bits = 128; return o; }
  if (t.compare(0, 2, "mm") == 0 && isdigit(t[2])) { o.kind = 3; o.r = atoi(t.c_str() + 2); o.bits = 64; return o; }
  int bt, h; int g = gpr(t, bt, h); if (g >= 0) { o.kind = 1; o.r = g; o.bits = bt; o.hi = h; return o; }
  o.kind = 4; o.imm = strtoull(t.c_str(), 0, t.compare(0, 2, "0x") == 0 ? 16 : 16); return o;
}
std::vector<std::string> lines(const std::string &cmd) { std::vector<std::string> r; FILE *f = popen(cmd.c_str(), "r"); if (!f) throw Inconclusive{ "popen" }; char b[4096]; while (fgets(b, sizeof b, f)) r.push_back(b); pclose(f); return r; }

typedef std::vector<V> Bytes;
struct M { State &s; std::array<V, 16> g; std::array<Bytes, 16> x; std::array<Bytes, 8> mm; int fk = 0; V fa, fb, fr; V carry; bool hasCarry = false; };
V cat(const Bytes &b, size_t i, unsigned n) { V r = b[i]; for (unsigned k = 1; k < n; k++) r = mkConcat(b[i + k], r); return r; }
void put(Bytes &b, size_t i, V v) { for (unsigned k = 0; k < v.w / 8; k++) b[i + k] = mkExtract(v, 8 * k + 7, 8 * k); }
V ea(M &m, const Opd &o) { V a = C((uint64_t)o.disp, 64); if (o.rip) return mkAdd(a, C(BASE, 64)); if (o.base >= 0) a = mkAdd(m.g[o.base], a); if (o.idx >= 0) a = mkAdd(mkMul(m.g[o.idx], C(o.scale, 64)), a); return a; }
uint64_t addr(M &m, const Opd &o) { V a = ea(m, o); if (!a.isC()) throw Inconclusive{ "symbolic address in assembly" }; return a.c; }
Bytes ldn(M &m, uint64_t a, unsigned n) { Bytes r(n); for (unsigned i = 0; i < n; i += 8) { unsigned k = std::min(8u, n - i); V v = loadBytes(m.s, a + i, k); for (unsigned j = 0; j < k; j++) r[i + j] = mkExtract(v, 8 * j + 7, 8 * j); } return r; }
void stn(M &m, uint64_t a, const Bytes &b, size_t off, unsigned n) { for (unsigned i = 0; i < n; i += 8) storeBytes(m.s, a + i, cat(b, off + i, std::min(8u, n - i))); }
V rg(M &m, const Opd &o) { if (o.kind == 4) return C(o.imm, 64); if (o.kind == 1) { V v = m.g[o.r]; if (o.bits == 64) return v; return o.hi ? mkExtract(v, 15, 8) : mkExtract(v, o.bits - 1, 0); } if (o.kind == 5) return loadBytes(m.s, addr(m, o), o.bits / 8); throw Inconclusive{ "operand" }; }
void wg(M &m, const Opd &o, V v) { if (o.kind == 1) { if (o.bits == 64) m.g[o.r] = v; else if (o.bits == 32) m.g[o.r] = mkZext(v, 64); else if (o.hi) m.g[o.r] = mkConcat(mkExtract(m.g[o.r], 63, 16), mkConcat(v, mkExtract(m.g[o.r], 7, 0))); else m.g[o.r] = mkConcat(mkExtract(m.g[o.r], 63, o.bits), v); return; } if (o.kind == 5) { storeBytes(m.s, addr(m, o), v); return; } throw Inconclusive{ "operand" }; }
Bytes &vr(M &m, const Opd &o) { if (o.kind == 2) return m.x[o.r]; if (o.kind == 3) return m.mm[o.r]; throw Inconclusive{ "vector operand" }; }
Bytes vs(M &m, const Opd &o, unsigned n, bool aligned = true) { if (o.kind == 2 || o.kind == 3) return vr(m, o); uint64_t a = addr(m, o); if (aligned && n == 16 && (a & 15)) throw PathError{ "alignment", "misaligned 16-byte SSE access" }; return ldn(m, a, n); }
V satS(V x, unsigned w) { V mx = C(SMAX(w), x.w), mn = C((uint64_t)SMIN(w), x.w); return mkExtract(mkIte(mkSlt(mx, x), mx, mkIte(mkSlt(x, mn), mn, x)), w - 1, 0); }
V satU(V x, unsigned w) { V mx = C(MASK(w), x.w), mn = C(0, x.w); return mkExtract(mkIte(mkSlt(mx, x), mx, mkIte(mkSlt(x, mn), mn, x)), w - 1, 0); }
void lanes(Bytes &d, const Bytes &s, unsigned k, const std::function<V(V, V)> &f) { Bytes r(d.size()); for (size_t i = 0; i < d.size(); i += k) put(r, i, f(cat(d, i, k), cat(s, i, k))); d = r; }
V cond(M &m, const std::string &c) {
  V z = C(0, m.fr.w);
  if (c == "e") return mkEq(m.fr, z); if (c == "ne") return mkNe(m.fr, z); if (c == "s") return mkSlt(m.fr, z); if (c == "ns") return mkSle(z, m.fr);
  V a = m.fa, b = m.fb; if (m.fk == 2) { a = m.fr; b = z; } // logic: overflow and carry clear
  if (m.fk == 1) { // add: signed conditions need the overflow flag
    V r = mkAdd(mkSext(m.fa, m.fa.w < 64 ? m.fa.w + 1 : 64), mkSext(m.fb, m.fb.w < 64 ? m.fb.w + 1 : 64)); if (m.fa.w >= 64) { if (!m.fa.isC() || !m.fb.isC()) throw Inconclusive{ "flags" }; }
    a = r; b = C(0, r.w); if (c == "b") return mkUlt(m.fr, m.fa); if (c == "ae") return mkNot(mkUlt(m.fr, m.fa)); }
  if (c == "l") return mkSlt(a, b); if (c == "g") return mkSlt(b, a); if (c == "le") return mkSle(a, b); if (c == "ge") return mkSle(b, a);
  if (c == "b") return mkUlt(a, b); if (c == "a") return mkUlt(b, a); if (c == "be") return mkUle(a, b); if (c == "ae") return mkUle(b, a);
  throw Inconclusive{ "condition " + c };
}
bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
}
bool x86Has(const std::string &n) { return sym.count(n); }
void x86Load(const std::string &f) {
  for (auto &l : lines("objdump -s -j .rodata -j .data '" + f + "' 2>/dev/null")) { uint64_t a; char w[5][20]; int k; if (l[0] != ' ') continue; int n = sscanf(l.c_str(), " %lx%n", &a, &k); if (n != 1) continue; std::string rest = l.substr(k + 1, 35); std::string hx; for (char c : rest) if (isxdigit(c)) hx += c; std::vector<uint8_t> d; for (size_t i = 0; i + 1 < hx.size(); i += 2) d.push_back(strtoul(hx.substr(i, 2).c_str(), 0, 16)); if (!secs.empty() && secs.back().a + secs.back().d.size() == a) secs.back().d.insert(secs.back().d.end(), d.begin(), d.end()); else secs.push_back({ a, d }); }
  for (auto &l : lines("objdump -d -M intel --no-show-raw-insn '" + f + "'")) {
    uint64_t a; char nm[300]; if (sscanf(l.c_str(), "%lx <%299[^>]>:", &a, nm) == 2) { sym[nm] = a; continue; }
    if (l[0] != ' ' || l.find(':') == std::string::npos) continue; size_t c = l.find(':'); a = strtoull(l.c_str(), 0, 16); std::string t = trim(l.substr(c + 1)); uint64_t rip = 0; size_t h = t.find('#'); if (h != std::string::npos) { rip = strtoull(t.c_str() + h + 1, 0, 16); t = trim(t.substr(0, h)); }
    Ins in; in.addr = a; in.text = t; std::istringstream is(t); is >> in.op; while (in.op == "data16" || in.op == "repz" || in.op == "cs" || in.op == "bnd") { if (!(is >> in.op)) break; } std::string rest; std::getline(is, rest); rest = trim(rest);
    if (in.op != "nop" && in.op != "ret") { if (in.op[0] == 'j') { Opd o; o.kind = 4; o.imm = strtoull(rest.c_str(), 0, 16); in.o.push_back(o); } else { std::string cur; for (char ch : rest + ",") { if (ch == ',') { if (trim(cur).size()) in.o.push_back(parseOpd(cur, rip)); cur.clear(); } else cur += ch; } } }
    at[a] = code.size(); code.push_back(in);
  }
}
void x86Setup(State &s) { for (auto &x : secs) { Obj *o = new Obj; o->base = BASE + x.a; o->size = x.d.size(); o->c = x.d; o->kind = 0; o->ro = true; o->name = "asm data"; s.mem[o->base] = OP(o); } }
V x86Call(State &s, const std::string &fn, const std::vector<V> &args) {
  g_x86fns.insert(fn); M m{ s }; static const int ar[6] = { 7, 6, 2, 1, 8, 9 };
  for (auto &g : m.g) g = C(0xdeadbeef00000000ull, 64); for (auto &x : m.x) x = Bytes(16, C(0xcd, 8)); for (auto &x : m.mm) x = Bytes(8, C(0xcd, 8));
  uint64_t stk = allocObj(s, 8192, 2, "asm stack", false, 64); uint64_t sp = stk + 8192 - 512 - 8; m.g[4] = C(sp, 64); const uint64_t saved[6] = { 0x1111, 0x2222, 0x3333, 0x4444, 0x5555, 0x6666 }; static const int cs[6] = { 3, 5, 12, 13, 14, 15 }; for (int i = 0; i < 6; i++) m.g[cs[i]] = C(saved[i], 64);
  for (size_t i = 0; i < args.size() && i < 6; i++) m.g[ar[i]] = args[i];
  for (size_t i = 6; i < args.size(); i++) storeBytes(s, sp + 8 + 8 * (i - 6), args[i]);
  storeBytes(s, sp, C(0xfeedface, 64)); uint64_t pc = sym.at(fn); uint64_t steps = 0;
  for (;;) {
    auto it = at.find(pc); if (it == at.end()) throw Inconclusive{ "assembly runs off the code" }; const Ins &in = code[it->second]; if (it->second + 1 < code.size()) pc = code[it->second + 1].addr; else pc = 0; g_x86insts++; if (++steps > 2000000) throw Inconclusive{ "assembly step limit" };
    const std::string &op = in.op; const auto &o = in.o; 
    auto N = [&]() -> unsigned { return o[0].kind == 3 ? 8 : 16; };
    if (op == "nop" || op == "emms") continue;
    if (op == "ret") { V ra = loadBytes(s, m.g[4].c, 8); if (!ra.isC() || ra.c != 0xfeedface) throw PathError{ "asm", "return address overwritten in assembly" }; for (int i = 0; i < 6; i++) if (m.g[cs[i]] != C(saved[i], 64)) throw PathError{ "asm", "callee-saved register not restored" }; if (m.g[4].c != sp) throw PathError{ "asm", "stack pointer not restored" }; break; }
    if (op == "push") { V v = rg(m, o[0]); m.g[4] = mkSub(m.g[4], C(8, 64)); storeBytes(s, m.g[4].c, v); continue; }
    if (op == "pop") { V v = loadBytes(s, m.g[4].c, 8); m.g[4] = mkAdd(m.g[4], C(8, 64)); wg(m, o[0], v); continue; }
    if (op == "mov" || op == "movabs") { V v = o[1].kind == 4 ? C(o[1].imm, o[0].bits) : rg(m, o[1]); if (o[0].kind == 5 && o[1].kind == 4) v = C(o[1].imm, o[0].bits); wg(m, o[0], v); continue; }
    if (op == "lea") { V a = ea(m, o[1]); wg(m, o[0], o[0].bits == 64 ? a : mkExtract(a, o[0].bits - 1, 0)); continue; }
    if (op == "movsxd" || op == "movsx") { wg(m, o[0], mkSext(rg(m, o[1]), o[0].bits)); continue; }
    if (op == "movzx") { wg(m, o[0], mkZext(rg(m, o[1]), o[0].bits)); continue; }
    if (op == "xchg") { V a = rg(m, o[0]), b = rg(m, o[1]); wg(m, o[0], b); wg(m, o[1], a); continue; }
    if (op == "add" || op == "sub" || op == "and" || op == "or" || op == "xor" || op == "cmp" || op == "test") {
      V a = rg(m, o[0]), b = o[1].kind == 4 ? C(o[1].imm, o[0].bits) : rg(m, o[1]), r; if (o[0].kind == 1 && o[0].bits < 64 && a.w != b.w) b = mkExtract(b, a.w - 1, 0);
      if (op == "add") { r = mkAdd(a, b); m.fk = 1; } else if (op == "sub" || op == "cmp") { r = mkSub(a, b); m.fk = 0; } else { r = op == "or" ? mkOr(a, b) : op == "xor" ? mkXor(a, b) : mkAnd(a, b); m.fk = 2; }
      m.fa = a; m.fb = b; m.fr = r; if (op != "cmp" && op != "test") wg(m, o[0], r); continue; }
    if (op == "inc" || op == "dec") { V a = rg(m, o[0]), b = C(1, a.w), r = op == "inc" ? mkAdd(a, b) : mkSub(a, b); m.fk = op == "inc" ? 1 : 0; m.fa = a; m.fb = b; m.fr = r; wg(m, o[0], r); continue; }
    if (op == "neg") { V a = rg(m, o[0]), z = C(0, a.w), r = mkSub(z, a); m.fk = 0; m.fa = z; m.fb = a; m.fr = r; wg(m, o[0], r); continue; }
    if (op == "imul") { V r = o.size() == 3 ? mkMul(rg(m, o[1]), C(o[2].imm, o[0].bits)) : mkMul(rg(m, o[0]), rg(m, o[1])); wg(m, o[0], r); continue; }
    if (op == "shl" || op == "shr" || op == "sar") { V a = rg(m, o[0]), b = o.size() == 1 ? C(1, a.w) : o[1].kind == 4 ? C(o[1].imm & (a.w - 1), a.w) : mkAnd(mkZext(rg(m, o[1]), a.w), C(a.w - 1, a.w)); V r = mkBin(op == "shl" ? O_SHL : op == "shr" ? O_LSHR : O_ASHR, a, b); m.fk = 2; m.fa = a; m.fb = b; m.fr = r; wg(m, o[0], r); continue; }
    if (op == "jmp") { pc = o[0].imm; continue; }
    if (op[0] == 'j') { V c = cond(m, op.substr(1)); if (!c.isC()) throw Inconclusive{ "data-dependent branch in assembly" }; if (c.c) pc = o[0].imm; continue; }
    // ---- vector moves
    if (op == "movdqa" || op == "movaps" || op == "movdqu" || op == "movups") { bool al = op == "movdqa" || op == "movaps"; if (o[0].kind == 5) { uint64_t a = addr(m, o[0]); if (al && (a & 15)) throw PathError{ "alignment", "misaligned 16-byte SSE store" }; stn(m, a, vr(m, o[1]), 0, 16); } else m.x[o[0].r] = vs(m, o[1], 16, al); continue; }
    if (op == "movq") { if (o[0].kind == 5) { stn(m, addr(m, o[0]), vr(m, o[1]), 0, 8); continue; } if (o[0].kind == 1) { m.g[o[0].r] = cat(vr(m, o[1]), 0, 8); continue; }
      Bytes b; if (o[1].kind == 5) b = ldn(m, addr(m, o[1]), 8); else if (o[1].kind == 1) { b = Bytes(8); put(b, 0, m.g[o[1].r]); } else { b = vr(m, o[1]); b.resize(8); } if (o[0].kind == 2) b.resize(16, C(0, 8)); vr(m, o[0]) = b; continue; }
    if (op == "movd") { if (o[0].kind == 5) { storeBytes(s, addr(m, o[0]), cat(vr(m, o[1]), 0, 4)); continue; } if (o[0].kind == 1) { m.g[o[0].r] = o[0].bits == 64 ? cat(vr(m, o[1]), 0, 8) : mkZext(cat(vr(m, o[1]), 0, 4), 64); continue; }
      Bytes b(o[0].kind == 2 ? 16 : 8, C(0, 8)); if (o[1].kind == 1 && o[1].bits == 64) put(b, 0, m.g[o[1].r]); else { V v = o[1].kind == 5 ? loadBytes(s, addr(m, o[1]), 4) : mkExtract(m.g[o[1].r], 31, 0); put(b, 0, v); } vr(m, o[0]) = b; continue; }
    if (op == "movhps" || op == "movlps") { size_t of = op == "movhps" ? 8 : 0; if (o[0].kind == 5) stn(m, addr(m, o[0]), m.x[o[1].r], of, 8); else { Bytes b = ldn(m, addr(m, o[1]), 8); for (int i = 0; i < 8; i++) m.x[o[0].r][of + i] = b[i]; } continue; }
    if (op == "movhlps") { for (int i = 0; i < 8; i++) { V t = m.x[o[1].r][8 + i]; m.x[o[0].r][i] = t; } continue; }
    if (op == "movlhps") { for (int i = 0; i < 8; i++) { V t = m.x[o[1].r][i]; m.x[o[0].r][8 + i] = t; } continue; }
    if (op == "pextrw") { wg(m, o[0], mkZext(cat(vr(m, o[1]), 2 * (o[2].imm & (o[1].kind == 2 ? 7 : 3)), 2), o[0].bits)); continue; }
    if (op == "pinsrw") { V v = o[1].kind == 5 ? loadBytes(s, addr(m, o[1]), 2) : mkExtract(m.g[o[1].r], 15, 0); put(vr(m, o[0]), 2 * (o[2].imm & (N() / 2 - 1)), v); continue; }
    if (op == "pshufd") { Bytes b = vs(m, o[1], 16), r(16); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r[4 * i + j] = b[4 * ((o[2].imm >> (2 * i)) & 3) + j]; m.x[o[0].r] = r; continue; }
    if (op == "pshuflw" || op == "pshufhw" || op == "pshufw") { Bytes b = vs(m, o[1], N()), r = b; size_t of = op == "pshufhw" ? 8 : 0; for (int i = 0; i < 4; i++) for (int j = 0; j < 2; j++) r[of + 2 * i + j] = b[of + 2 * ((o[2].imm >> (2 * i)) & 3) + j]; vr(m, o[0]) = r; continue; }
    if (op == "pshufb") { Bytes c = vs(m, o[1], N()), &d = vr(m, o[0]), r(d.size()); for (size_t i = 0; i < d.size(); i++) { if (!c[i].isC()) throw Inconclusive{ "pshufb control" }; r[i] = c[i].c & 0x80 ? C(0, 8) : d[c[i].c & (d.size() - 1)]; } d = r; continue; }
    if (op == "palignr") { Bytes b = vs(m, o[1], N()), &d = vr(m, o[0]); Bytes t = b; t.insert(t.end(), d.begin(), d.end()); t.insert(t.end(), d.size() * 2, C(0, 8)); size_t k = std::min<size_t>(o[2].imm & 0xff, 2 * d.size()); d = Bytes(t.begin() + k, t.begin() + k + d.size()); continue; }
    if (op == "psrldq" || op == "pslldq") { Bytes &d = vr(m, o[0]), r(16, C(0, 8)); for (int i = 0; i < 16; i++) { int j = op == "psrldq" ? i + (int)o[1].imm : i - (int)o[1].imm; if (j >= 0 && j < 16) r[i] = d[j]; } d = r; continue; }
    if (starts(op, "psra") || starts(op, "psrl") || starts(op, "psll")) { unsigned k = op[4] == 'w' ? 2 : op[4] == 'd' ? 4 : 8; Op so = op[2] == 'l' ? O_SHL : op[3] == 'a' ? O_ASHR : O_LSHR; uint64_t n; if (o[1].kind == 4) n = o[1].imm; else { V v = cat(vs(m, o[1], N()), 0, 8); if (!v.isC()) throw Inconclusive{ "symbolic vector shift" }; n = v.c; } Bytes &d = vr(m, o[0]), r(d.size()); for (size_t i = 0; i < d.size(); i += k) { V e = cat(d, i, k); put(r, i, mkBin(so, e, C(n > 8 * k ? 8 * k : n, 8 * k))); } d = r; continue; }
    if (starts(op, "punpck")) { bool hi = op[6] == 'h'; std::string t = op.substr(7); unsigned k = t == "bw" ? 1 : t == "wd" ? 2 : t == "dq" ? 4 : 8; Bytes b; Bytes &d = vr(m, o[0]); unsigned n = d.size(); if (o[1].kind == 5) { if (n == 8 && !hi) { b = ldn(m, addr(m, o[1]), 4); b.resize(8, C(0, 8)); } else b = vs(m, o[1], n); } else b = vr(m, o[1]); Bytes r; size_t st = hi ? n / 2 : 0; for (size_t i = 0; i < n / 2; i += k) { for (unsigned j = 0; j < k; j++) r.push_back(d[st + i + j]); for (unsigned j = 0; j < k; j++) r.push_back(b[st + i + j]); } d = r; continue; }
    if (starts(op, "pack")) { unsigned k = op == "packssdw" ? 4 : 2; bool un = op == "packuswb"; Bytes b = vs(m, o[1], N()), &d = vr(m, o[0]); Bytes r(d.size()); size_t h = d.size() / 2; for (size_t i = 0; i < d.size(); i += k) { V e = cat(d, i, k), f = cat(b, i, k); put(r, i / 2, un ? satU(e, 8 * k / 2) : satS(e, 8 * k / 2)); put(r, h + i / 2, un ? satU(f, 8 * k / 2) : satS(f, 8 * k / 2)); } d = r; continue; }
    if (op == "pxor" || op == "xorps" || op == "por" || op == "pand" || op == "pandn") { Bytes b; Bytes &d = vr(m, o[0]); if (op[1] == 'x' && o[1].kind == o[0].kind && o[1].r == o[0].r) { d = Bytes(d.size(), C(0, 8)); continue; } b = vs(m, o[1], N()); lanes(d, b, 1, [&](V x, V y) { return op == "por" ? mkOr(x, y) : op == "pand" ? mkAnd(x, y) : op == "pandn" ? mkAnd(mkNot(x), y) : mkXor(x, y); }); continue; }
    if (starts(op, "padd") || starts(op, "psub")) { bool ad = op[1] == 'a'; std::string t = op.substr(4); int sat = 0; if (starts(t, "us")) { sat = 1; t = t.substr(2); } else if (t.size() == 2 && t[0] == 's') { sat = 2; t = t.substr(1); } unsigned k = t == "b" ? 1 : t == "w" ? 2 : t == "d" ? 4 : 8; Bytes b = vs(m, o[1], N()); lanes(vr(m, o[0]), b, k, [&](V x, V y) { unsigned w = 8 * k; if (!sat) return ad ? mkAdd(x, y) : mkSub(x, y); if (sat == 1) { if (!ad) return mkIte(mkUlt(x, y), C(0, w), mkSub(x, y)); V r = mkAdd(mkZext(x, w + 1), mkZext(y, w + 1)); return mkIte(mkExtract(r, w, w), C(~0ull, w), mkExtract(r, w - 1, 0)); } V X = mkSext(x, w + 2), Y = mkSext(y, w + 2); return satS(ad ? mkAdd(X, Y) : mkSub(X, Y), w); }); continue; }
    if (op == "pavgb") { Bytes b = vs(m, o[1], N()); lanes(vr(m, o[0]), b, 1, [&](V x, V y) { return mkExtract(mkAdd(mkAdd(mkZext(x, 9), mkZext(y, 9)), C(1, 9)), 8, 1); }); continue; }
    if (op == "pmaxub" || op == "pminub") { Bytes b = vs(m, o[1], N()); lanes(vr(m, o[0]), b, 1, [&](V x, V y) { return op == "pmaxub" ? mkIte(mkUlt(x, y), y, x) : mkIte(mkUlt(x, y), x, y); }); continue; }
    if (op == "pmaxsw" || op == "pminsw") { Bytes b = vs(m, o[1], N()); lanes(vr(m, o[0]), b, 2, [&](V x, V y) { return op == "pmaxsw" ? mkIte(mkSlt(x, y), y, x) : mkIte(mkSlt(x, y), x, y); }); continue; }
    if (starts(op, "pcmp")) { bool eq = op[4] == 'e'; unsigned k = op.back() == 'b' ? 1 : op.back() == 'w' ? 2 : 4; Bytes b = vs(m, o[1], N()); lanes(vr(m, o[0]), b, k, [&](V x, V y) { V c = eq ? mkEq(x, y) : mkSlt(y, x); return mkIte(c, C(~0ull, 8 * k), C(0, 8 * k)); }); continue; }
    if (op == "pmulhw" || op == "pmullw" || op == "pmulhuw") { Bytes b = vs(m, o[1], N()); lanes(vr(m, o[0]), b, 2, [&](V x, V y) { bool u = op == "pmulhuw"; V p = mkMul(u ? mkZext(x, 32) : mkSext(x, 32), u ? mkZext(y, 32) : mkSext(y, 32)); return op == "pmullw" ? mkExtract(p, 15, 0) : mkExtract(p, 31, 16); }); continue; }
    if (op == "pmaddwd") { Bytes b = vs(m, o[1], N()); lanes(vr(m, o[0]), b, 4, [&](V x, V y) { auto e = [&](V v, int h) { return mkSext(mkExtract(v, 16 * h + 15, 16 * h), 32); }; return mkAdd(mkMul(e(x, 0), e(y, 0)), mkMul(e(x, 1), e(y, 1))); }); continue; }
    if (op == "pmaddubsw") { Bytes b = vs(m, o[1], N()); lanes(vr(m, o[0]), b, 2, [&](V x, V y) { auto e = [&](int h) { return mkMul(mkZext(mkExtract(x, 8 * h + 7, 8 * h), 18), mkSext(mkExtract(y, 8 * h + 7, 8 * h), 18)); }; return satS(mkAdd(e(0), e(1)), 16); }); continue; }
    if (op == "psadbw") { Bytes b = vs(m, o[1], N()); lanes(vr(m, o[0]), b, 8, [&](V x, V y) { V t = C(0, 64); for (int i = 0; i < 8; i++) { V p = mkExtract(x, 8 * i + 7, 8 * i), q = mkExtract(y, 8 * i + 7, 8 * i); t = mkAdd(t, mkZext(mkIte(mkUlt(p, q), mkSub(q, p), mkSub(p, q)), 64)); } return t; }); continue; }
    throw Inconclusive{ "x86 instruction: " + in.text };
  }
  V r = m.g[0]; freeObj(s, stk); return r;
}
