#pragma once
#include "expr.hh"
#include "solver.hh"
#include <set>

namespace llvm { class BasicBlock; class Function; class Instruction; class Type; class Value; }
extern const Node *UNINIT;

struct Obj {
  int rc = 0; uint64_t base = 0, size = 0; uint64_t serial = 0; uint8_t kind = 0; /*0 global 1 heap 2 stack 3 fn*/ bool ro = false;
  std::vector<uint8_t> c; std::vector<const Node*> s; const char *name = "";
};
struct OP { // intrusive pointer
  Obj *p = nullptr;
  OP() {} explicit OP(Obj *q) : p(q) { if (p) p->rc++; }
  OP(const OP &o) : p(o.p) { if (p) p->rc++; }
  OP(OP &&o) noexcept : p(o.p) { o.p = nullptr; }
  OP &operator=(const OP &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  OP &operator=(OP &&o) noexcept { std::swap(p, o.p); return *this; }
  ~OP() { drop(); }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  Obj *operator->() const { return p; }
  explicit operator bool() const { return p; }
};

struct Val { V s; std::shared_ptr<std::vector<Val>> agg; Val() {} Val(V v) : s(v) {} bool set() const { return s.w || agg; } };

struct FnInfo; struct BBInfo;
struct Frame {
  FnInfo *fn = nullptr; std::vector<Val> regs; BBInfo *bb = nullptr;
  int ip = 0; std::vector<uint64_t> allocas; std::vector<Val> varargs;
};
struct SymRec { std::string name; std::vector<V> vals; unsigned w; };
struct Exc { uint64_t obj; int ti; };
struct State {
  std::vector<Frame> st; std::map<uint64_t, OP> mem; std::vector<V> pc; Model model;
  std::vector<SymRec> syms; std::vector<Exc> caught; Exc inflight{0,-1};
  bool atStart = false; unsigned forks = 0; std::vector<std::string> logs;
};

struct PathError { std::string kind, msg; V cond; bool hasCond = false; };   // violation on this path (under cond)
struct Inconclusive { std::string msg; };
struct NeedFork { V cond; };
struct PathEnd { const char *why; };

// memory interface used by the x86 emulator too
V loadBytes(State &s, uint64_t addr, unsigned n);          // concrete address, n<=8
void storeBytes(State &s, uint64_t addr, V v);
bool x86Has(const std::string &fn);
void x86Load(const std::string &objfile);
void x86Setup(State &s);  // maps asm data sections into memory
V x86Call(State &s, const std::string &fn, const std::vector<V> &args);
uint64_t allocObj(State &s, uint64_t size, uint8_t kind, const char *name, bool zero, uint64_t align = 16);
void freeObj(State &s, uint64_t addr);
uint64_t fnAddr(const std::string &name);
extern uint64_t g_x86insts; extern std::set<std::string> g_x86fns;
