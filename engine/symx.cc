// symx: bounded symbolic executor for LLVM IR (see ../DESIGN.md).
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "expr.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "solver.h"

using namespace llvm;
typedef ::Expr SExpr;

// ------------------------------------------------------------ options
static std::string optOut = "/tmp/symx.out";
static double optTime = 600;
static uint64_t optMaxInst = 20000000;
static int optWorkers = 8;
static int optMaxViol = 12;
static uint64_t optAllocCap = 1 << 16;
static std::string optRepo = "/repo/";
static uint64_t optMemMB = 3500;
static int optVerbose = 0;
static int optSamples = 24;
static unsigned optSeed = 1;

static double nowS() {
  timeval t;
  gettimeofday(&t, nullptr);
  return t.tv_sec + t.tv_usec * 1e-6;
}
static double gStart;

// ------------------------------------------------------------ memory
static const unsigned kShift = 24;  // each object owns a 16 MiB address slot
static const uint64_t kSlot = 1ull << kShift;

enum ObjKind : uint8_t { OGlobal, OStack, OMalloc, ONew, ONewArr, OFunc };
struct Obj {
  uint64_t size = 0;        // capacity in bytes
  E sizeE = nullptr;        // symbolic size (<= size) or null
  ObjKind kind = OGlobal;
  bool freed = false, readonly = false;
  uint32_t uid = 0;         // for naming uninitialised bytes
  std::vector<uint8_t> conc;
  std::vector<E> sym;       // empty, or per byte: null = concrete; kUninit = uninitialised
  std::string name;
};
static const E kUninit = (E)(uintptr_t)1;
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { ObjP o[64]; };

struct Val {
  E e = nullptr;
  const std::vector<Val>* agg = nullptr;
};

// ------------------------------------------------------------ functions
struct GepIdx { int op; uint64_t scale; };
struct KInst {
  Instruction* I;
  int dest = -1;
  std::vector<int> ops;  // >=0 register, <0 constant -(i+1)
  // gep
  int64_t off = 0;
  std::vector<GepIdx> idx;
  unsigned width = 0;    // result width in bits
  Function* callee = nullptr;
  int ext = -1;
};
struct PhiEnt { int dest; std::vector<std::pair<int, int>> in; };
struct KBlock { int first; std::vector<PhiEnt> phis; };
struct KFunc {
  Function* F;
  int nregs = 0;
  std::vector<KInst> insts;
  std::vector<KBlock> blocks;
  std::unordered_map<const BasicBlock*, int> bbIdx;
  std::vector<Val> consts;
  std::string file;
  std::string pretty;
  uint64_t calls = 0;
  bool inRepo = false;
};

static LLVMContext gCtx;
static std::unique_ptr<Module> gMod;
static const DataLayout* DL;
static std::unordered_map<const Function*, KFunc*> gFuncs;
static std::unordered_map<const GlobalValue*, uint64_t> gAddr;
static std::unordered_map<uint64_t, Function*> gFnAt;

struct Frame {
  KFunc* kf;
  int pc;
  int block, prev;
  std::vector<Val> regs;
  std::vector<uint32_t> allocas;
  int retSlot;      // register in the caller to receive the result
  int resumeBlock;  // for invoke: normal destination block index, else -1
};

struct Group { std::vector<E> cs; const SymSet* syms; };
typedef std::shared_ptr<Group> GroupP;

struct InputRec { std::string name; std::vector<E> bytes; unsigned width; };

struct State {
  std::vector<Frame> st;
  std::vector<std::shared_ptr<Chunk>> mem;
  uint32_t nobj = 0;
  std::vector<GroupP> groups;
  std::shared_ptr<Model> model;
  std::shared_ptr<std::map<uint32_t, int>> fixed;  // symbols with a unique value
  std::vector<InputRec> inputs;
  std::unordered_map<std::string, int> nameCount;
  std::vector<std::string> reached;
  uint64_t insts = 0;
  int depth = 0;
  int64_t liveNew = 0;
  uint32_t uninitCount = 0;
  bool dead = false;
  std::string endKind;
  int64_t allocFailAt = -1;
};
typedef std::unique_ptr<State> StateP;

// ------------------------------------------------------------ results
struct Violation { std::string kind, msg, where, inputs, stack; };
static std::map<std::string, Violation> gViol;
static std::map<std::string, uint64_t> gIncomplete;
static std::map<std::string, uint64_t> gReach;
static std::map<std::string, std::string> gReachIn;
static std::vector<std::string> gSamplesOut;
static uint64_t nPaths = 0, nKilled = 0, nForks = 0, nInsts = 0, nAsserts = 0, nMemChecks = 0, nBranches = 0, nAssertsSym = 0;

struct Shared {
  std::atomic<int> active;
  std::atomic<int> stop;
  std::atomic<int> viols;
  std::atomic<int> seq;
};
static Shared* SH;

static std::vector<StateP> pending;

static std::string esc(const std::string& s) {
  std::string r;
  for (char ch : s) {
    unsigned char c = (unsigned char)ch;
    if (c == '"' || c == '\\') { r += '\\'; r += ch; }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += ch;
  }
  return r;
}

[[noreturn]] static void fatal(const std::string& m) {
  fprintf(stderr, "symx: fatal: %s\n", m.c_str());
  _exit(97);
}

// ------------------------------------------------------------ state memory helpers
static ObjP* slot(State& s, uint32_t idx) {
  auto& ch = s.mem[idx >> 6];
  if (!ch.unique()) ch = std::make_shared<Chunk>(*ch);
  return &ch->o[idx & 63];
}
static const ObjP& peek(State& s, uint32_t idx) { return s.mem[idx >> 6]->o[idx & 63]; }
static Obj* writable(State& s, uint32_t idx) {
  ObjP* p = slot(s, idx);
  if (!p->unique()) *p = std::make_shared<Obj>(**p);
  return p->get();
}
static uint32_t newObj(State& s, uint64_t size, ObjKind k, const std::string& name, bool uninit) {
  uint32_t i = s.nobj++;
  if ((i >> 6) >= s.mem.size()) s.mem.push_back(std::make_shared<Chunk>());
  auto o = std::make_shared<Obj>();
  o->size = size;
  o->kind = k;
  o->name = name;
  o->uid = i;
  o->conc.assign(size, 0);
  if (uninit && size) o->sym.assign(size, kUninit);
  *slot(s, i) = o;
  return i;
}
static uint64_t baseOf(uint32_t idx) { return (uint64_t)(idx + 1) << kShift; }

// ------------------------------------------------------------ constraints
static std::vector<E> gather(State& s, const SymSet* syms) {
  std::vector<E> r;
  for (auto& g : s.groups) {
    bool hit = false;
    const auto &a = g->syms->v, &b = syms->v;
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
      if (a[i] == b[j]) { hit = true; break; }
      if (a[i] < b[j]) i++; else j++;
    }
    if (hit) r.insert(r.end(), g->cs.begin(), g->cs.end());
  }
  return r;
}

static void mergeModel(State& s, const std::unordered_map<uint32_t, u128>& m) {
  bool diff = false;
  for (auto& kv : m) if (s.model->get(kv.first) != kv.second) { diff = true; break; }
  if (!diff) return;
  auto n = std::make_shared<Model>(*s.model);
  for (auto& kv : m) n->v[kv.first] = kv.second;
  s.model = n;
}

static bool allFixed(State& s, E e) {
  if (s.fixed->empty()) return e->syms->v.empty();
  for (uint32_t x : e->syms->v) if (!s.fixed->count(x)) return false;
  return true;
}
// If e = const pins symbols to unique values, collect them.
static bool pins(E e, std::vector<uint32_t>& out) {
  switch (e->kind) {
    case Sym: out.push_back(e->aux); return true;
    case Const: return true;
    case ZExt: case SExt: case ::Not: return pins(e->k[0], out);
    case Concat: { bool a = pins(e->k[0], out); bool b = pins(e->k[1], out); return a && b; }
    case ::Add: if (isC(e->k[1])) return pins(e->k[0], out); return false;
    case ::Xor: if (isC(e->k[1])) return pins(e->k[0], out); return false;
    default: return false;
  }
}
static void addConstraint(State& s, E c) {
  if (isC(c)) return;
  if (c->kind == ::And && c->width == 1) { addConstraint(s, c->k[0]); addConstraint(s, c->k[1]); return; }
  // pinned symbols
  std::vector<uint32_t> px;
  if (c->kind == ::Eq && isC(c->k[1])) pins(c->k[0], px);
  else if (c->kind == Sym) px.push_back(c->aux);
  else if (c->kind == ::Not && c->k[0]->kind == Sym) px.push_back(c->k[0]->aux);
  if (!px.empty()) {
    auto n = std::make_shared<std::map<uint32_t, int>>(*s.fixed);
    for (uint32_t x : px) (*n)[x] = 1;
    s.fixed = n;
  }
  auto ng = std::make_shared<Group>();
  ng->syms = c->syms;
  std::vector<GroupP> rest;
  rest.reserve(s.groups.size() + 1);
  for (auto& g : s.groups) {
    bool hit = false;
    const auto &a = g->syms->v, &b = c->syms->v;
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
      if (a[i] == b[j]) { hit = true; break; }
      if (a[i] < b[j]) i++; else j++;
    }
    if (hit) {
      for (E x : g->cs) if (x == c) return;
      ng->cs.insert(ng->cs.end(), g->cs.begin(), g->cs.end());
      ng->syms = unionSyms(ng->syms, g->syms);
    } else rest.push_back(g);
  }
  ng->cs.push_back(c);
  rest.push_back(ng);
  s.groups.swap(rest);
}

static bool isTrueU(State& s, E e) { return evalExpr(e, *s.model) != 0; }

// Can c be true in s?  On Sat fills m.
static Res mayBeTrue(State& s, E c, std::unordered_map<uint32_t, u128>& m) {
  if (isC(c)) return c->c ? Res::Sat : Res::Unsat;
  if (isTrueU(s, c)) return Res::Sat;
  if (allFixed(s, c)) return Res::Unsat;
  auto cs = gather(s, c->syms);
  return solveConj(cs, c, m);
}

static std::string whereOf(State& s) {
  for (int i = (int)s.st.size() - 1; i >= 0; i--) {
    Frame& f = s.st[i];
    int pc = f.pc > 0 ? f.pc - 1 : 0;
    if (pc < (int)f.kf->insts.size()) {
      if (const DebugLoc& d = f.kf->insts[pc].I->getDebugLoc()) {
        std::string fn = d->getScope() ? cast<DIScope>(d->getScope())->getFilename().str() : "";
        if (i == (int)s.st.size() - 1 || f.kf->inRepo)
          return fn + ":" + std::to_string(d->getLine());
      }
    }
  }
  return "?";
}
static std::string stackOf(State& s) {
  std::string r;
  int n = 0;
  for (int i = (int)s.st.size() - 1; i >= 0 && n < 24; i--, n++) {
    Frame& f = s.st[i];
    int pc = f.pc > 0 ? f.pc - 1 : 0;
    r += f.kf->pretty;
    if (pc < (int)f.kf->insts.size())
      if (const DebugLoc& d = f.kf->insts[pc].I->getDebugLoc())
        r += " (" + cast<DIScope>(d->getScope())->getFilename().str() + ":" + std::to_string(d->getLine()) + ")";
    r += "\n";
  }
  return r;
}
static std::string inputsOf(State& s, const Model& m) {
  std::string r;
  for (auto& in : s.inputs) {
    r += in.name + " ";
    if (in.bytes.empty()) r += "-";
    for (E b : in.bytes) {
      u128 v = evalExpr(b, m);
      for (unsigned i = 0; i < (b->width + 7) / 8; i++) {
        char t[4];
        snprintf(t, sizeof t, "%02x", (unsigned)((v >> (8 * i)) & 0xff));
        r += t;
      }
    }
    r += "\n";
  }
  return r;
}
static void report(State& s, const std::string& kind, const std::string& msg,
                   const std::unordered_map<uint32_t, u128>* extra) {
  std::string w = whereOf(s);
  std::string key = kind + "|" + msg + "|" + w;
  for (int n = 0; n < 3; n++) {
    std::string k2 = key + "#" + std::to_string(n);
    if (gViol.count(k2)) continue;
    Model m(*s.model);
    if (extra) for (auto& kv : *extra) m.v[kv.first] = kv.second;
    gViol[k2] = {kind, msg, w, inputsOf(s, m), stackOf(s)};
    if (optVerbose) fprintf(stderr, "VIOL %s: %s at %s\n%s\n", kind.c_str(), msg.c_str(), w.c_str(), gViol[k2].inputs.c_str());
    if (++SH->viols >= optMaxViol) SH->stop = 1;
    break;
  }
}
static void incomplete(State& s, const std::string& why) {
  gIncomplete[why + " at " + whereOf(s)]++;
  if (optVerbose) fprintf(stderr, "INCOMPLETE %s\n%s", why.c_str(), stackOf(s).c_str());
  s.dead = true;
  s.endKind = "incomplete";
}

// Decide a branch: returns 1 if cond is forced true, 0 if forced false, 2 if both feasible
// (then mOther satisfies the side opposite to the current model), -1 unknown.
static int decide(State& s, E c, std::unordered_map<uint32_t, u128>& mOther) {
  if (isC(c)) return c->c ? 1 : 0;
  bool cur = isTrueU(s, c);
  if (allFixed(s, c)) return cur;
  E neg = cur ? mkNot(c) : c;
  auto cs = gather(s, c->syms);
  Res r = solveConj(cs, neg, mOther);
  if (r == Res::Unsat) return cur ? 1 : 0;
  if (r == Res::Unknown) return -1;
  return 2;
}

static StateP cloneState(State& s) {
  nForks++;
  return StateP(new State(s));
}
// Forks: other state gets constraint `other` and model update, and re-executes from pc-1 if redo.
static void forkOther(State& s, E other, const std::unordered_map<uint32_t, u128>& m, bool redo) {
  StateP n = cloneState(s);
  n->depth++;
  mergeModel(*n, m);
  addConstraint(*n, other);
  if (redo) n->st.back().pc--;
  pending.push_back(std::move(n));
}

// Makes e concrete in s (forks the remaining values).  Returns false if the state died.
static bool concretize(State& s, E e, u128& out) {
  if (isC(e)) { out = e->c; return true; }
  u128 v = evalExpr(e, *s.model);
  E c = mkEq(e, mkConst(v, e->width));
  std::unordered_map<uint32_t, u128> m;
  int d = decide(s, c, m);
  if (d < 0) { incomplete(s, "solver unknown (concretize)"); return false; }
  if (d == 2) {
    forkOther(s, mkNot(c), m, true);
    addConstraint(s, c);
    s.depth++;
  }
  out = v;
  return true;
}

// ------------------------------------------------------------ access
static E byteAt(State& s, Obj* o, uint32_t idx, uint64_t off) {
  if (o->sym.empty() || !o->sym[off]) return mkConst(o->conc[off], 8);
  if (o->sym[off] == kUninit) {
    E b = mkSym("uninit." + std::to_string(o->uid) + "." + std::to_string(off) + "." + std::to_string(s.inputs.size()), 8);
    Obj* w = writable(s, idx);
    w->sym[off] = b;
    return b;
  }
  return o->sym[off];
}
static E readObj(State& s, uint32_t idx, uint64_t off, unsigned bytes) {
  Obj* o = peek(s, idx).get();
  if (o->sym.empty()) {
    u128 v = 0;
    for (unsigned i = 0; i < bytes; i++) v |= (u128)o->conc[off + i] << (8 * i);
    return mkConst(v, bytes * 8);
  }
  bool any = false;
  for (unsigned i = 0; i < bytes; i++) if (o->sym[off + i]) { any = true; break; }
  if (!any) {
    u128 v = 0;
    for (unsigned i = 0; i < bytes; i++) v |= (u128)o->conc[off + i] << (8 * i);
    return mkConst(v, bytes * 8);
  }
  E r = nullptr;
  for (unsigned i = 0; i < bytes; i++) {
    E b = byteAt(s, peek(s, idx).get(), idx, off + i);
    r = r ? mkConcat(b, r) : b;
  }
  return r;
}
static void setByte(Obj* o, uint64_t off, E b) {
  if (isC(b)) {
    o->conc[off] = (uint8_t)b->c;
    if (!o->sym.empty()) o->sym[off] = nullptr;
  } else {
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    o->sym[off] = b;
  }
}
static void writeObj(State& s, uint32_t idx, uint64_t off, E v) {
  Obj* o = writable(s, idx);
  unsigned bytes = (v->width + 7) / 8;
  if (v->width % 8) v = mkZExt(v, bytes * 8);
  if (isC(v)) {
    for (unsigned i = 0; i < bytes; i++) {
      o->conc[off + i] = (uint8_t)(v->c >> (8 * i));
      if (!o->sym.empty()) o->sym[off + i] = nullptr;
    }
    return;
  }
  for (unsigned i = 0; i < bytes; i++) setByte(o, off + i, mkExtract(v, 8 * i, 8));
}

struct Loc { uint32_t idx; E off; };  // off: 64-bit offset expression

static void memError(State& s, const std::string& what, const std::unordered_map<uint32_t, u128>* m, const std::string& obj) {
  report(s, "memory", what, m);
  (void)obj;
}

// Resolves pointer p for an access of n bytes (n may be 0).  Forks as needed.
// Returns false if the state ended (or the access is erroneous on this path).
static bool resolve(State& s, E p, E nbytes, bool write, Loc& loc, const char* what) {
  nMemChecks++;
  u128 pv = isC(p) ? p->c : evalExpr(p, *s.model);
  uint64_t addr = (uint64_t)pv;
  uint64_t slotNo = addr >> kShift;
  auto bad = [&](const std::string& msg) {
    memError(s, msg, nullptr, "");
    s.dead = true;
    s.endKind = "violation";
  };
  bool okObj = slotNo >= 1 && slotNo - 1 < s.nobj;
  if (isC(p) && isC(nbytes)) {
    if (!okObj) { bad(std::string(what) + (addr < 4096 ? " through null pointer" : " of wild pointer")); return false; }
    uint32_t idx = slotNo - 1;
    Obj* o = peek(s, idx).get();
    uint64_t off = addr & (kSlot - 1);
    uint64_t n = (uint64_t)nbytes->c;
    if (o->freed) { bad(std::string(what) + " after free/out of scope"); return false; }
    if (o->kind == OFunc) { bad(std::string(what) + " of code"); return false; }
    if (write && o->readonly) { bad(std::string(what) + " to constant data"); return false; }
    if (o->sizeE) {
      E ok = mkUle(mkConst(off + n, 64), o->sizeE);
      std::unordered_map<uint32_t, u128> m;
      E nok = mkNot(ok);
      Res r = mayBeTrue(s, nok, m);
      if (r == Res::Unknown) { incomplete(s, "solver unknown (bounds)"); return false; }
      if (r == Res::Sat) {
        memError(s, std::string(what) + " out of bounds", m.empty() ? nullptr : &m, o->name);
        std::unordered_map<uint32_t, u128> m2;
        Res r2 = mayBeTrue(s, ok, m2);
        if (r2 != Res::Sat) { s.dead = true; s.endKind = "violation"; return false; }
        mergeModel(s, m2);
        addConstraint(s, ok);
      }
      if (off + n > o->size) { bad(std::string(what) + " out of bounds"); return false; }
    } else if (off + n > o->size || off + n < off) {
      bad(std::string(what) + " out of bounds (" + o->name + ", size " + std::to_string(o->size) + ")");
      return false;
    }
    loc = {idx, mkConst(off, 64)};
    return true;
  }
  // symbolic pointer and/or length
  if (!okObj) {
    bad(std::string(what) + (addr < 4096 ? " through null pointer" : " of wild pointer"));
    // the other feasible addresses continue separately
    // (re-executed with the constraint that this slot is not used)
    E c = mkEq(mkLShr(p, mkConst(kShift, 64)), mkConst(slotNo, 64));
    std::unordered_map<uint32_t, u128> m;
    Res r = mayBeTrue(s, mkNot(c), m);
    if (r == Res::Sat) { s.dead = false; forkOther(s, mkNot(c), m, true); s.dead = true; }
    return false;
  }
  uint32_t idx = slotNo - 1;
  Obj* o = peek(s, idx).get();
  if (o->freed || o->kind == OFunc || (write && o->readonly)) {
    bad(std::string(what) + (o->freed ? " after free/out of scope" : o->readonly ? " to constant data" : " of code"));
    return false;
  }
  E off = mkSub(p, mkConst(baseOf(idx), 64));
  E osz = o->sizeE ? o->sizeE : mkConst(o->size, 64);
  // in bounds: off <= size && n <= size - off
  E ok = mkAnd(mkUle(off, osz), mkUle(nbytes, mkSub(osz, off)));
  std::unordered_map<uint32_t, u128> m;
  E nok = mkNot(ok);
  Res r = mayBeTrue(s, nok, m);
  if (r == Res::Unknown) { incomplete(s, "solver unknown (bounds)"); return false; }
  if (r == Res::Sat) {
    // The pointer may leave this object: either it belongs to another object (fork) or it is an error.
    Model mm(*s.model);
    for (auto& kv : m) mm.v[kv.first] = kv.second;
    uint64_t a2 = (uint64_t)evalExpr(p, mm);
    uint64_t s2 = a2 >> kShift;
    if (s2 != slotNo && s2 >= 1 && s2 - 1 < s.nobj && !peek(s, s2 - 1)->freed &&
        (a2 & (kSlot - 1)) <= peek(s, s2 - 1)->size) {
      forkOther(s, nok, m, true);
    } else {
      memError(s, std::string(what) + " out of bounds", m.empty() ? nullptr : &m, o->name);
      // does another object match as well?
    }
    std::unordered_map<uint32_t, u128> m2;
    Res r2 = mayBeTrue(s, ok, m2);
    if (r2 == Res::Unknown) { incomplete(s, "solver unknown (bounds)"); return false; }
    if (r2 == Res::Unsat) { s.dead = true; s.endKind = "violation"; return false; }
    mergeModel(s, m2);
    addConstraint(s, ok);
  }
  loc = {idx, off};
  return true;
}

// Range of a symbolic offset; falls back on expression bounds.
static bool offCandidates(State& s, E off, uint64_t maxEnd, unsigned limit, std::vector<uint64_t>& out) {
  uint64_t lo = (uint64_t)off->umin, hi = off->umax > maxEnd ? maxEnd : (uint64_t)off->umax;
  unsigned tz = trailingZeros(off);
  uint64_t step = tz >= 24 ? kSlot : (1ull << tz);
  lo = (lo + step - 1) / step * step;
  if (hi < lo) return false;
  if ((hi - lo) / step + 1 > limit) return false;
  for (uint64_t v = lo; v <= hi; v += step) out.push_back(v);
  return true;
}

static bool loadVal(State& s, E p, unsigned width, E& out) {
  unsigned bytes = (width + 7) / 8;
  Loc l;
  if (!resolve(s, p, mkConst(bytes, 64), false, l, "read")) return false;
  E v;
  if (isC(l.off)) v = readObj(s, l.idx, (uint64_t)l.off->c, bytes);
  else {
    Obj* o = peek(s, l.idx).get();
    std::vector<uint64_t> cand;
    if (offCandidates(s, l.off, o->size - bytes, 1100, cand) && !cand.empty()) {
      v = nullptr;
      for (size_t i = cand.size(); i-- > 0;) {
        E r = readObj(s, l.idx, cand[i], bytes);
        v = v ? mkIte(mkEq(l.off, mkConst(cand[i], 64)), r, v) : r;
      }
    } else {
      u128 c;
      if (!concretize(s, l.off, c)) return false;
      v = readObj(s, l.idx, (uint64_t)c, bytes);
    }
  }
  if (v->width != width) v = mkExtract(v, 0, width);
  out = v;
  return true;
}
static bool storeVal(State& s, E p, E v) {
  unsigned bytes = (v->width + 7) / 8;
  Loc l;
  if (!resolve(s, p, mkConst(bytes, 64), true, l, "write")) return false;
  if (isC(l.off)) { writeObj(s, l.idx, (uint64_t)l.off->c, v); return true; }
  Obj* o = peek(s, l.idx).get();
  std::vector<uint64_t> cand;
  if (offCandidates(s, l.off, o->size - bytes, 80, cand) && !cand.empty()) {
    if (v->width % 8) v = mkZExt(v, bytes * 8);
    for (uint64_t c : cand) {
      E cond = mkEq(l.off, mkConst(c, 64));
      E old = readObj(s, l.idx, c, bytes);
      writeObj(s, l.idx, c, mkIte(cond, v, old));
    }
    return true;
  }
  u128 c;
  if (!concretize(s, l.off, c)) return false;
  writeObj(s, l.idx, (uint64_t)c, v);
  return true;
}

// ------------------------------------------------------------ types/constants
static unsigned widthOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static Val mkAgg(std::vector<Val> v) {
  Val r;
  r.agg = new std::vector<Val>(std::move(v));
  return r;
}
static Val zeroVal(Type* t) {
  if (unsigned w = widthOf(t)) { Val v; v.e = mkConst(0, w); return v; }
  std::vector<Val> el;
  if (auto* st = dyn_cast<StructType>(t)) for (Type* x : st->elements()) el.push_back(zeroVal(x));
  else if (auto* at = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < at->getNumElements(); i++) el.push_back(zeroVal(at->getElementType()));
  else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < vt->getNumElements(); i++) el.push_back(zeroVal(vt->getElementType()));
  return mkAgg(el);
}
static u128 apint(const APInt& a) {
  if (a.getBitWidth() <= 64) return a.getZExtValue();
  u128 lo = a.getRawData()[0], hi = a.getNumWords() > 1 ? a.getRawData()[1] : 0;
  return lo | (hi << 64);
}
static Val evalConst(const Constant* c);
static E cE(const Constant* c) { return evalConst(c).e; }
static Val evalConst(const Constant* c) {
  Val v;
  if (auto* ci = dyn_cast<ConstantInt>(c)) { v.e = mkConst(apint(ci->getValue()), ci->getBitWidth()); return v; }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt a = cf->getValueAPF().bitcastToAPInt();
    v.e = mkConst(apint(a), a.getBitWidth());
    return v;
  }
  if (isa<ConstantPointerNull>(c)) { v.e = mkConst(0, 64); return v; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroVal(c->getType());
  if (auto* ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee());
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    auto it = gAddr.find(gv);
    if (it == gAddr.end()) fatal("no address for " + gv->getName().str());
    v.e = mkConst(it->second, 64);
    return v;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("constant gep");
        v.e = mkAdd(cE(ce->getOperand(0)), mkConst(off.getZExtValue(), 64));
        return v;
      }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
        E x = cE(ce->getOperand(0));
        unsigned w = widthOf(ce->getType());
        v.e = w < x->width ? mkExtract(x, 0, w) : mkZExt(x, w);
        return v;
      }
      case Instruction::Add: v.e = mkAdd(cE(ce->getOperand(0)), cE(ce->getOperand(1))); return v;
      case Instruction::Sub: v.e = mkSub(cE(ce->getOperand(0)), cE(ce->getOperand(1))); return v;
      case Instruction::ICmp: {
        E a = cE(ce->getOperand(0)), b = cE(ce->getOperand(1));
        if (ce->getPredicate() == CmpInst::ICMP_EQ) { v.e = mkEq(a, b); return v; }
        if (ce->getPredicate() == CmpInst::ICMP_NE) { v.e = mkNot(mkEq(a, b)); return v; }
        fatal("constant icmp");
      }
      default: fatal(std::string("constant expr ") + ce->getOpcodeName());
    }
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    std::vector<Val> el;
    for (unsigned i = 0; i < ca->getNumOperands(); i++) el.push_back(evalConst(ca->getOperand(i)));
    return mkAgg(el);
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<Val> el;
    for (unsigned i = 0; i < cd->getNumElements(); i++) el.push_back(evalConst(cd->getElementAsConstant(i)));
    return mkAgg(el);
  }
  std::string str;
  raw_string_ostream os(str);
  c->print(os);
  fatal("constant " + os.str());
}
static void initGlobal(Obj* o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef r = cd->getRawDataValues();
    memcpy(&o->conc[off], r.data(), r.size());
    return;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    if (auto* st = dyn_cast<StructType>(t)) {
      const StructLayout* sl = DL->getStructLayout(st);
      for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(o, off + sl->getElementOffset(i), ca->getOperand(i));
    } else {
      Type* et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
      uint64_t sz = DL->getTypeAllocSize(et);
      for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(o, off + i * sz, ca->getOperand(i));
    }
    return;
  }
  Val v = evalConst(c);
  if (v.e) {
    unsigned bytes = (v.e->width + 7) / 8;
    for (unsigned i = 0; i < bytes; i++) o->conc[off + i] = (uint8_t)(v.e->c >> (8 * i));
  }
}

// ------------------------------------------------------------ function preparation
static int extId(const std::string& name);
static KFunc* prep(Function* F) {
  auto it = gFuncs.find(F);
  if (it != gFuncs.end()) return it->second;
  KFunc* k = new KFunc();
  gFuncs[F] = k;
  k->F = F;
  k->pretty = demangle(F->getName().str());
  if (DISubprogram* sp = F->getSubprogram()) {
    k->file = sp->getFilename().str();
    if (!k->file.empty() && k->file[0] != '/') k->file = sp->getDirectory().str() + "/" + k->file;
    k->inRepo = k->file.compare(0, optRepo.size(), optRepo) == 0;
  }
  std::unordered_map<const Value*, int> reg;
  for (Argument& a : F->args()) reg[&a] = k->nregs++;
  for (BasicBlock& b : *F) for (Instruction& i : b) if (!i.getType()->isVoidTy()) reg[&i] = k->nregs++;
  std::unordered_map<const Value*, int> cmap;
  auto opOf = [&](Value* v) -> int {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto f = cmap.find(c);
      if (f != cmap.end()) return f->second;
      k->consts.push_back(evalConst(c));
      return cmap[c] = -(int)k->consts.size();
    }
    auto f = reg.find(v);
    if (f == reg.end()) return INT32_MIN;
    return f->second;
  };
  int bi = 0;
  for (BasicBlock& b : *F) k->bbIdx[&b] = bi++;
  for (BasicBlock& b : *F) {
    KBlock kb;
    kb.first = k->insts.size();
    for (Instruction& i : b) {
      if (auto* ph = dyn_cast<PHINode>(&i)) {
        PhiEnt pe;
        pe.dest = reg[&i];
        for (unsigned j = 0; j < ph->getNumIncomingValues(); j++)
          pe.in.push_back({k->bbIdx[ph->getIncomingBlock(j)], opOf(ph->getIncomingValue(j))});
        kb.phis.push_back(pe);
        continue;
      }
      if (isa<DbgInfoIntrinsic>(i)) continue;
      KInst ki;
      ki.I = &i;
      if (!i.getType()->isVoidTy()) { ki.dest = reg[&i]; ki.width = widthOf(i.getType()); }
      if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
        ki.ops.push_back(opOf(g->getPointerOperand()));
        for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
          Value* iv = ti.getOperand();
          if (StructType* st = ti.getStructTypeOrNull()) {
            ki.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue());
          } else {
            uint64_t sz = DL->getTypeAllocSize(ti.getIndexedType());
            if (auto* ci = dyn_cast<ConstantInt>(iv)) ki.off += (int64_t)sz * ci->getSExtValue();
            else ki.idx.push_back({opOf(iv), sz});
          }
        }
      } else if (auto* cb = dyn_cast<CallBase>(&i)) {
        for (auto& a : cb->args()) ki.ops.push_back(isa<MetadataAsValue>(a.get()) ? INT32_MIN : opOf(a.get()));
        ki.callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts()))
          ki.callee = dyn_cast<Function>(al->getAliaseeObject());
        if (!ki.callee && !isa<InlineAsm>(cb->getCalledOperand())) ki.ops.push_back(opOf(cb->getCalledOperand()));
        if (ki.callee && (ki.callee->isDeclaration())) ki.ext = extId(ki.callee->getName().str());
      } else {
        for (auto& o : i.operands()) ki.ops.push_back(isa<BasicBlock>(o.get()) ? INT32_MIN : opOf(o.get()));
      }
      k->insts.push_back(ki);
    }
    k->blocks.push_back(kb);
  }
  return k;
}

static inline const Val& opv(Frame& f, int op) {
  return op >= 0 ? f.regs[op] : f.kf->consts[-op - 1];
}
static inline E ope(Frame& f, int op) {
  return opv(f, op).e;
}

static bool enterBlock(State& s, Frame& f, int b) {
  KBlock& kb = f.kf->blocks[b];
  if (!kb.phis.empty()) {
    Val tmp[64];
    std::vector<Val> big;
    Val* t = tmp;
    if (kb.phis.size() > 64) { big.resize(kb.phis.size()); t = big.data(); }
    for (size_t i = 0; i < kb.phis.size(); i++) {
      bool ok = false;
      for (auto& in : kb.phis[i].in) if (in.first == f.block) { t[i] = opv(f, in.second); ok = true; break; }
      if (!ok) fatal("phi");
    }
    for (size_t i = 0; i < kb.phis.size(); i++) f.regs[kb.phis[i].dest] = t[i];
  }
  f.prev = f.block;
  f.block = b;
  f.pc = kb.first;
  return true;
}

static void pushCall(State& s, KFunc* k, std::vector<Val>&& args, int retSlot, int resumeBlock) {
  k->calls++;
  if (s.st.size() > 400) { report(s, "stack", "call depth exceeds 400", nullptr); s.dead = true; s.endKind = "violation"; return; }
  Frame f;
  f.kf = k;
  f.block = 0;
  f.prev = -1;
  f.pc = k->blocks[0].first;
  f.regs.resize(k->nregs);
  for (size_t i = 0; i < args.size() && i < k->F->arg_size(); i++) f.regs[i] = args[i];
  f.retSlot = retSlot;
  f.resumeBlock = resumeBlock;
  s.st.push_back(std::move(f));
}

// ------------------------------------------------------------ externals
enum ExtR { XDone, XDead };
typedef std::function<void(State&, KInst&, std::vector<E>&, E&)> ExtFn;
static std::vector<ExtFn> gExt;
static std::vector<std::string> gExtName;
static std::unordered_map<std::string, int> gExtId;
static int extId(const std::string& name) {
  auto it = gExtId.find(name);
  return it == gExtId.end() ? -1 : it->second;
}
static void defExt(const std::string& n, ExtFn f) {
  gExtId[n] = gExt.size();
  gExt.push_back(f);
  gExtName.push_back(n);
}
static void pathEnd(State& s, const std::string& kind) { s.dead = true; s.endKind = kind; }

static E doAlloc(State& s, E size, ObjKind k, bool nothrow, bool zero) {
  uint64_t n;
  E sizeE = nullptr;
  if (isC(size)) {
    if (size->c > optAllocCap * 16 || size->c >= kSlot / 2) {
      if (nothrow) return mkConst(0, 64);
      pathEnd(s, "oom");
      gIncomplete["note: allocation above cap fails"]++;
      return nullptr;
    }
    n = (uint64_t)size->c;
  } else {
    E big = mkUlt(mkConst(optAllocCap, 64), size);
    std::unordered_map<uint32_t, u128> m;
    int d = decide(s, big, m);
    if (d < 0) { incomplete(s, "solver unknown (alloc)"); return nullptr; }
    bool cur = isTrueU(s, big);
    if (d == 2) { forkOther(s, cur ? mkNot(big) : big, m, true); addConstraint(s, cur ? big : mkNot(big)); }
    if (cur) {
      if (nothrow) return mkConst(0, 64);
      pathEnd(s, "oom");
      return nullptr;
    }
    uint64_t mx = size->umax > optAllocCap ? optAllocCap : (uint64_t)size->umax;
    // shrink the capacity by a few doubling probes
    uint64_t cap = 64;
    while (cap < mx) {
      E over = mkUlt(mkConst(cap, 64), size);
      std::unordered_map<uint32_t, u128> mm;
      Res r = mayBeTrue(s, over, mm);
      if (r == Res::Unsat) break;
      cap *= 4;
    }
    n = cap < mx ? cap : mx;
    sizeE = size;
  }
  if (nothrow && s.allocFailAt == 0) { s.allocFailAt = -1; return mkConst(0, 64); }
  if (nothrow && s.allocFailAt > 0) s.allocFailAt--;
  uint32_t i = newObj(s, n, k, "heap@" + whereOf(s), !zero);
  if (sizeE) writable(s, i)->sizeE = sizeE;
  if (k == ONew || k == ONewArr) s.liveNew++;
  return mkConst(baseOf(i), 64);
}
static void doFree(State& s, E p, ObjKind k) {
  u128 v;
  if (!concretize(s, p, v)) return;
  if (v == 0) return;
  uint64_t a = (uint64_t)v, sl = a >> kShift;
  if (sl < 1 || sl - 1 >= s.nobj || (a & (kSlot - 1))) { report(s, "memory", "free of invalid pointer", nullptr); pathEnd(s, "violation"); return; }
  const ObjP& o = peek(s, sl - 1);
  if (o->kind != OMalloc && o->kind != ONew && o->kind != ONewArr) { report(s, "memory", "free of non-heap memory", nullptr); pathEnd(s, "violation"); return; }
  if (o->freed) { report(s, "memory", "double free", nullptr); pathEnd(s, "violation"); return; }
  if (o->kind != k) { report(s, "memory", "mismatched allocation and deallocation", nullptr); pathEnd(s, "violation"); return; }
  auto n = std::make_shared<Obj>();
  n->kind = o->kind; n->freed = true; n->name = o->name; n->size = 0; n->uid = o->uid;
  *slot(s, sl - 1) = n;
  if (k == ONew || k == ONewArr) s.liveNew--;
}
static bool cstr(State& s, E p, std::string& out) {
  u128 v;
  if (!concretize(s, p, v)) return false;
  for (int i = 0; i < 400; i++) {
    E b;
    if (!loadVal(s, mkConst(v + i, 64), 8, b)) return false;
    if (!isC(b)) { u128 c; if (!concretize(s, b, c)) return false; b = mkConst(c, 8); }
    if (b->c == 0) return true;
    out += (char)b->c;
  }
  return true;
}
// Resolves a concrete range (address and length made concrete by forking).
static bool range(State& s, E p, uint64_t n, bool write, const char* what, uint32_t& idx, uint64_t& off) {
  Loc l;
  if (n == 0) { idx = 0; off = 0; return true; }
  if (!resolve(s, p, mkConst(n, 64), write, l, what)) return false;
  u128 o;
  if (!concretize(s, l.off, o)) return false;
  idx = l.idx;
  off = (uint64_t)o;
  return true;
}
static bool doCopy(State& s, E d, E src, E len) {
  u128 n;
  if (!isC(len)) {
    // bounds first (so that a huge symbolic length is reported, not enumerated)
    Loc l;
    if (!resolve(s, d, len, true, l, "write")) return false;
    if (!resolve(s, src, len, false, l, "read")) return false;
  }
  if (!concretize(s, len, n)) return false;
  if (n == 0) return true;
  uint32_t di, si;
  uint64_t dof, sof;
  if (!range(s, d, (uint64_t)n, true, "write", di, dof)) return false;
  if (!range(s, src, (uint64_t)n, false, "read", si, sof)) return false;
  ObjP so = peek(s, si);
  std::vector<uint8_t> c(so->conc.begin() + sof, so->conc.begin() + sof + (size_t)n);
  std::vector<E> y;
  if (!so->sym.empty()) {
    // force uninitialised source bytes to stay uninitialised in the copy
    y.assign(so->sym.begin() + sof, so->sym.begin() + sof + (size_t)n);
  }
  Obj* o = writable(s, di);
  std::copy(c.begin(), c.end(), o->conc.begin() + dof);
  if (y.empty()) {
    if (!o->sym.empty()) std::fill(o->sym.begin() + dof, o->sym.begin() + dof + (size_t)n, nullptr);
  } else {
    if (o->sym.empty()) o->sym.assign(o->size, nullptr);
    std::copy(y.begin(), y.end(), o->sym.begin() + dof);
  }
  return true;
}
static bool doSet(State& s, E d, E val, E len) {
  u128 n;
  if (!isC(len)) {
    Loc l;
    if (!resolve(s, d, len, true, l, "write")) return false;
  }
  if (!concretize(s, len, n)) return false;
  if (n == 0) return true;
  uint32_t di;
  uint64_t dof;
  if (!range(s, d, (uint64_t)n, true, "write", di, dof)) return false;
  Obj* o = writable(s, di);
  for (uint64_t i = 0; i < n; i++) setByte(o, dof + i, val);
  return true;
}
static E newInput(State& s, const std::string& name, unsigned width) {
  int c = s.nameCount[name]++;
  E e = mkSym(name + "#" + std::to_string(c), width);
  InputRec r;
  r.name = name;
  r.bytes = {e};
  r.width = width;
  s.inputs.push_back(r);
  return e;
}

static void setupExternals() {
  auto def = [&](std::initializer_list<const char*> ns, ExtFn f) { for (auto n : ns) defExt(n, f); };
  typedef std::vector<E> A;
  // ---- harness API
  auto mkWide = [&](const char* nm, unsigned w, unsigned rw) {
    defExt(nm, [w, rw](State& s, KInst&, A& a, E& r) {
      std::string n;
      if (!cstr(s, a[0], n)) return;
      r = mkZExt(newInput(s, n, w), rw);
    });
  };
  mkWide("symx_u64", 64, 64);
  mkWide("symx_u32", 32, 32);
  mkWide("symx_u16", 16, 16);
  mkWide("symx_u8", 8, 8);
  mkWide("symx_bool", 1, 1);
  def({"symx_bytes"}, [](State& s, KInst&, A& a, E& r) {
    std::string n;
    if (!cstr(s, a[2], n)) return;
    u128 len;
    if (!concretize(s, a[1], len)) return;
    uint32_t idx;
    uint64_t off;
    int c = s.nameCount[n]++;
    InputRec rec;
    rec.name = n;
    rec.width = 8;
    if (len) {
      if (!range(s, a[0], (uint64_t)len, true, "write", idx, off)) return;
      Obj* o = writable(s, idx);
      for (uint64_t i = 0; i < len; i++) {
        E b = mkSym(n + "#" + std::to_string(c) + "[" + std::to_string(i) + "]", 8);
        setByte(o, off + i, b);
        rec.bytes.push_back(b);
      }
    }
    s.inputs.push_back(rec);
  });
  def({"symx_assume"}, [](State& s, KInst&, A& a, E& r) {
    E c = mkExtract(a[0], 0, 1);
    if (a[0]->width > 1) c = mkNot(mkEq(a[0], mkConst(0, a[0]->width)));
    std::unordered_map<uint32_t, u128> m;
    Res q = mayBeTrue(s, c, m);
    if (q == Res::Unknown) { incomplete(s, "solver unknown (assume)"); return; }
    if (q == Res::Unsat) { pathEnd(s, "assume"); return; }
    mergeModel(s, m);
    addConstraint(s, c);
  });
  def({"symx_assert"}, [](State& s, KInst&, A& a, E& r) {
    E c = mkNot(mkEq(a[0], mkConst(0, a[0]->width)));
    nAsserts++;
    if (isTrue(c)) return;
    nAssertsSym++;
    std::string msg;
    if (!cstr(s, a[1], msg)) return;
    std::unordered_map<uint32_t, u128> m;
    Res q = mayBeTrue(s, mkNot(c), m);
    if (q == Res::Unknown) { incomplete(s, "solver unknown (assert " + msg + ")"); return; }
    if (q == Res::Unsat) return;
    report(s, "assert", msg, m.empty() ? nullptr : &m);
    std::unordered_map<uint32_t, u128> m2;
    if (mayBeTrue(s, c, m2) != Res::Sat) { pathEnd(s, "violation"); return; }
    mergeModel(s, m2);
    addConstraint(s, c);
  });
  def({"symx_reach"}, [](State& s, KInst&, A& a, E& r) {
    std::string n;
    if (!cstr(s, a[0], n)) return;
    if (std::find(s.reached.begin(), s.reached.end(), n) == s.reached.end()) s.reached.push_back(n);
  });
  def({"symx_concretize"}, [](State& s, KInst&, A& a, E& r) {
    u128 v;
    if (!concretize(s, a[0], v)) return;
    r = mkConst(v, a[0]->width);
  });
  def({"symx_live"}, [](State& s, KInst&, A& a, E& r) { r = mkConst((u128)(s128)s.liveNew, 64); });
  def({"symx_is_symbolic_run"}, [](State& s, KInst&, A& a, E& r) { r = mkConst(1, 32); });
  def({"symx_alloc_fail_at"}, [](State& s, KInst&, A& a, E& r) {
    u128 v;
    if (!concretize(s, a[0], v)) return;
    s.allocFailAt = (int64_t)(uint64_t)v;
  });
  def({"symx_stop"}, [](State& s, KInst&, A& a, E& r) { pathEnd(s, "complete"); });
  def({"symx_debug"}, [](State& s, KInst&, A& a, E& r) {
    std::string n;
    if (!cstr(s, a[0], n)) return;
    if (optVerbose) fprintf(stderr, "DBG %s %s\n", n.c_str(), exprStr(a[1]).c_str());
  });
  // ---- allocation
  def({"malloc"}, [](State& s, KInst&, A& a, E& r) { r = doAlloc(s, a[0], OMalloc, true, false); });
  def({"calloc"}, [](State& s, KInst&, A& a, E& r) { r = doAlloc(s, mkMul(a[0], a[1]), OMalloc, true, true); });
  def({"_Znwm"}, [](State& s, KInst&, A& a, E& r) { r = doAlloc(s, a[0], ONew, false, false); });
  def({"_Znam"}, [](State& s, KInst&, A& a, E& r) { r = doAlloc(s, a[0], ONewArr, false, false); });
  def({"_ZnwmRKSt9nothrow_t"}, [](State& s, KInst&, A& a, E& r) { r = doAlloc(s, a[0], ONew, true, false); });
  def({"_ZnamRKSt9nothrow_t"}, [](State& s, KInst&, A& a, E& r) { r = doAlloc(s, a[0], ONewArr, true, false); });
  def({"free"}, [](State& s, KInst&, A& a, E& r) { doFree(s, a[0], OMalloc); });
  def({"_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t"}, [](State& s, KInst&, A& a, E& r) { doFree(s, a[0], ONew); });
  def({"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}, [](State& s, KInst&, A& a, E& r) { doFree(s, a[0], ONewArr); });
  // ---- memory blocks
  def({"memcpy", "memmove"}, [](State& s, KInst&, A& a, E& r) { if (doCopy(s, a[0], a[1], a[2])) r = a[0]; });
  def({"memset"}, [](State& s, KInst&, A& a, E& r) { if (doSet(s, a[0], mkExtract(a[1], 0, 8), a[2])) r = a[0]; });
  auto cmp = [](bool ordered) {
    return [ordered](State& s, KInst& ki, A& a, E& r) {
      u128 n;
      if (!isC(a[2])) {
        Loc l;
        if (!resolve(s, a[0], a[2], false, l, "read") || !resolve(s, a[1], a[2], false, l, "read")) return;
      }
      if (!concretize(s, a[2], n)) return;
      if (n == 0) { r = mkConst(0, 32); return; }
      uint32_t i1, i2;
      uint64_t o1, o2;
      if (!range(s, a[0], (uint64_t)n, false, "read", i1, o1)) return;
      if (!range(s, a[1], (uint64_t)n, false, "read", i2, o2)) return;
      E res = mkConst(0, 32);
      for (uint64_t i = (uint64_t)n; i-- > 0;) {
        E x = readObj(s, i1, o1 + i, 1), y = readObj(s, i2, o2 + i, 1);
        if (ordered) res = mkIte(mkEq(x, y), res, mkIte(mkUlt(x, y), mkConst(~(u128)0, 32), mkConst(1, 32)));
        else res = mkIte(mkEq(x, y), res, mkConst(1, 32));
      }
      r = res;
    };
  };
  def({"memcmp"}, cmp(true));
  def({"bcmp"}, cmp(false));
  // ---- ends
  auto ab = [](const char* kind) {
    return [kind](State& s, KInst& ki, A& a, E& r) {
      report(s, "abort", kind, nullptr);
      pathEnd(s, "violation");
    };
  };
  def({"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__stack_chk_fail"}, ab("program aborts"));
  def({"__assert_fail"}, [](State& s, KInst&, A& a, E& r) {
    std::string n;
    cstr(s, a[0], n);
    if (s.dead) return;
    report(s, "abort", "assertion failure: " + n, nullptr);
    pathEnd(s, "violation");
  });
  def({"exit", "_exit"}, [](State& s, KInst&, A& a, E& r) { pathEnd(s, "exit"); });
  def({"symx_throw"}, [](State& s, KInst&, A& a, E& r) {
    std::string n;
    if (!cstr(s, a[0], n)) return;
    report(s, "exception", n, nullptr);
    pathEnd(s, "violation");
  });
  def({"symx_oom"}, [](State& s, KInst&, A& a, E& r) { pathEnd(s, "oom"); });
  // ---- no-ops
  auto zero32 = [](State& s, KInst& ki, A& a, E& r) { if (ki.width) r = mkConst(0, ki.width); };
  def({"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "putc", "vfprintf", "perror", "fwrite_stderr",
       "__cxa_atexit", "atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_guard_abort", "srand",
       "__cxa_thread_atexit", "fflush"},
      zero32);
  def({"__cxa_guard_acquire"}, [](State& s, KInst& ki, A& a, E& r) {
    E b;
    if (!loadVal(s, a[0], 8, b)) return;
    r = mkZExt(mkEq(b, mkConst(0, 8)), 32);
  });
  def({"__cxa_guard_release"}, [](State& s, KInst& ki, A& a, E& r) { storeVal(s, a[0], mkConst(1, 8)); });
  // ---- formatting of concrete values (%d %i %u %x %c %s with l/ll/z, no width)
  def({"snprintf"}, [](State& s, KInst& ki, A& a, E& r) {
    std::string f, o;
    u128 cap;
    if (!concretize(s, a[1], cap) || !cstr(s, a[2], f)) return;
    size_t k = 3;
    for (size_t i = 0; i < f.size(); i++) {
      if (f[i] != '%') { o += f[i]; continue; }
      i++;
      while (i < f.size() && (f[i] == 'l' || f[i] == 'z' || f[i] == 'h')) i++;
      char c = i < f.size() ? f[i] : 0;
      if (c == '%') { o += '%'; continue; }
      if (k >= a.size()) { report(s, "harness", "snprintf arguments", nullptr); pathEnd(s, "violation"); return; }
      E x = a[k++];
      if (c == 's') { std::string t; if (!cstr(s, x, t)) return; o += t; continue; }
      u128 v;
      unsigned w = x->width;
      if (!concretize(s, x, v)) return;
      long long sv = w == 32 ? (long long)(int)(uint32_t)v : (long long)(uint64_t)v;
      char t[64];
      if (c == 'd' || c == 'i') snprintf(t, sizeof t, "%lld", sv);
      else if (c == 'u') snprintf(t, sizeof t, "%llu", (unsigned long long)v);
      else if (c == 'x') snprintf(t, sizeof t, "%llx", (unsigned long long)v);
      else if (c == 'c') snprintf(t, sizeof t, "%c", (char)sv);
      else { report(s, "harness", "snprintf format " + f, nullptr); pathEnd(s, "violation"); return; }
      o += t;
    }
    r = mkConst((u128)o.size(), 32);
    if (!cap) return;
    if (o.size() >= (size_t)cap) o.resize((size_t)cap - 1);
    o += '\0';
    uint32_t oi;
    uint64_t off;
    if (!range(s, a[0], o.size(), true, "write", oi, off)) return;
    for (size_t i = 0; i < o.size(); i++) if (!storeVal(s, mkAdd(a[0], mkConst(i, 64)), mkConst((uint8_t)o[i], 8))) return;
  });
  // ---- math
  auto rnd = [](unsigned mode) { return [mode](State& s, KInst& ki, A& a, E& r) { r = mkF(FRnd, a[0], nullptr, a[0]->width, mode); }; };
  def({"floor", "floorf"}, rnd(0));
  def({"ceil", "ceilf"}, rnd(1));
  def({"trunc", "truncf"}, rnd(2));
  def({"rint", "nearbyint"}, rnd(3));
  def({"round", "roundf"}, rnd(4));
  def({"sqrt", "sqrtf"}, [](State& s, KInst& ki, A& a, E& r) { r = mkF(FSqrt, a[0], nullptr, a[0]->width); });
  def({"fmod"}, [](State& s, KInst& ki, A& a, E& r) { r = mkF(::FRem, a[0], a[1], a[0]->width); });
  def({"fabs", "fabsf"}, [](State& s, KInst& ki, A& a, E& r) { r = mkAnd(a[0], mkConst(maskw(a[0]->width - 1), a[0]->width)); });
}

// ------------------------------------------------------------ intrinsics
static E countLeading(E x, bool trailing) {
  unsigned w = x->width;
  E r = mkConst(w, w);
  for (unsigned j = 0; j < w; j++) {
    unsigned bit = trailing ? w - 1 - j : j;  // last assignment wins: iterate from least to most relevant
    E b = mkExtract(x, bit, 1);
    r = mkIte(b, mkConst(trailing ? bit : w - 1 - bit, w), r);
  }
  return r;
}
static bool isNanE(E x, E& out) {
  unsigned w = x->width;
  unsigned mant = w == 32 ? 23 : 52;
  E ex = mkExtract(x, mant, w - 1 - mant), m = mkExtract(x, 0, mant);
  out = mkAnd(mkEq(ex, mkConst(maskw(w - 1 - mant), w - 1 - mant)), mkNot(mkEq(m, mkConst(0, mant))));
  return true;
}

// returns false if not handled
static bool intrinsic(State& s, Frame& f, KInst& ki, Intrinsic::ID id, std::vector<Val>& av, Val& out) {
  auto a = [&](int i) { return av[i].e; };
  unsigned w = ki.width;
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
    case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch:
    case Intrinsic::var_annotation: case Intrinsic::invariant_end: case Intrinsic::stackrestore:
      return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: out.e = mkConst(0, 64); return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doCopy(s, a(0), a(1), a(2)); return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: doSet(s, a(0), a(1), a(2)); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address:
      out = av[0];
      return true;
    case Intrinsic::is_constant: out.e = mkFalse(); return true;
    case Intrinsic::objectsize: out.e = mkConst(maskw(w), w); return true;
    case Intrinsic::umin: out.e = mkIte(mkUlt(a(0), a(1)), a(0), a(1)); return true;
    case Intrinsic::umax: out.e = mkIte(mkUlt(a(0), a(1)), a(1), a(0)); return true;
    case Intrinsic::smin: out.e = mkIte(mkSlt(a(0), a(1)), a(0), a(1)); return true;
    case Intrinsic::smax: out.e = mkIte(mkSlt(a(0), a(1)), a(1), a(0)); return true;
    case Intrinsic::abs: out.e = mkIte(mkSlt(a(0), mkConst(0, w)), mkSub(mkConst(0, w), a(0)), a(0)); return true;
    case Intrinsic::bswap: {
      E r = nullptr;
      for (unsigned i = 0; i < w / 8; i++) {
        E b = mkExtract(a(0), 8 * i, 8);
        r = r ? mkConcat(r, b) : b;
      }
      out.e = r;
      return true;
    }
    case Intrinsic::bitreverse: {
      E r = nullptr;
      for (unsigned i = 0; i < w; i++) { E b = mkExtract(a(0), i, 1); r = r ? mkConcat(r, b) : b; }
      out.e = r;
      return true;
    }
    case Intrinsic::ctlz: out.e = countLeading(a(0), false); return true;
    case Intrinsic::cttz: out.e = countLeading(a(0), true); return true;
    case Intrinsic::ctpop: {
      E r = mkConst(0, w);
      for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(a(0), i, 1), w));
      out.e = r;
      return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E n = mkURem(a(2), mkConst(w, w));
      E cat = mkConcat(a(0), a(1));
      E nn = mkZExt(n, 2 * w);
      if (id == Intrinsic::fshl) out.e = mkExtract(mkShl(cat, nn), w, w);
      else out.e = mkExtract(mkLShr(cat, nn), 0, w);
      return true;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
    case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      E x = a(0), y = a(1);
      unsigned iw = x->width;
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      E r, o;
      if (id == Intrinsic::uadd_with_overflow) { r = mkAdd(x, y); o = mkUlt(r, x); }
      else if (id == Intrinsic::usub_with_overflow) { r = mkSub(x, y); o = mkUlt(x, y); }
      else {
        unsigned ww = (id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow) ? 2 * iw : iw + 1;
        if (ww > 128) { incomplete(s, "wide overflow intrinsic"); return true; }
        E X = sg ? mkSExt(x, ww) : mkZExt(x, ww), Y = sg ? mkSExt(y, ww) : mkZExt(y, ww);
        E full = (id == Intrinsic::sadd_with_overflow) ? mkAdd(X, Y) : (id == Intrinsic::ssub_with_overflow) ? mkSub(X, Y) : mkMul(X, Y);
        r = mkExtract(full, 0, iw);
        o = mkNot(mkEq(full, sg ? mkSExt(r, ww) : mkZExt(r, ww)));
      }
      Val v1, v2;
      v1.e = r;
      v2.e = o;
      out = mkAgg({v1, v2});
      return true;
    }
    case Intrinsic::uadd_sat: { E r = mkAdd(a(0), a(1)); out.e = mkIte(mkUlt(r, a(0)), mkConst(maskw(w), w), r); return true; }
    case Intrinsic::usub_sat: out.e = mkIte(mkUlt(a(0), a(1)), mkConst(0, w), mkSub(a(0), a(1))); return true;
    case Intrinsic::fabs: out.e = mkAnd(a(0), mkConst(maskw(w - 1), w)); return true;
    case Intrinsic::floor: out.e = mkF(FRnd, a(0), nullptr, w, 0); return true;
    case Intrinsic::ceil: out.e = mkF(FRnd, a(0), nullptr, w, 1); return true;
    case Intrinsic::trunc: out.e = mkF(FRnd, a(0), nullptr, w, 2); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: out.e = mkF(FRnd, a(0), nullptr, w, 3); return true;
    case Intrinsic::round: out.e = mkF(FRnd, a(0), nullptr, w, 4); return true;
    case Intrinsic::sqrt: out.e = mkF(FSqrt, a(0), nullptr, w); return true;
    case Intrinsic::fmuladd: out.e = mkF(::FAdd, mkF(::FMul, a(0), a(1), w), a(2), w); return true;
    case Intrinsic::copysign: out.e = mkConcat(mkExtract(a(1), w - 1, 1), mkExtract(a(0), 0, w - 1)); return true;
    case Intrinsic::maxnum: out.e = mkIte(mkF(FLt, a(0), a(1), 1), a(1), a(0)); return true;
    case Intrinsic::minnum: out.e = mkIte(mkF(FLt, a(1), a(0), 1), a(1), a(0)); return true;
    case Intrinsic::is_fpclass: {
      E x = a(0);
      if (!isC(a(1))) return false;
      unsigned mask = (unsigned)a(1)->c, xw = x->width, mant = xw == 32 ? 23 : 52, ew = xw - 1 - mant;
      E sign = mkExtract(x, xw - 1, 1), ex = mkExtract(x, mant, ew), m = mkExtract(x, 0, mant);
      E exOnes = mkEq(ex, mkConst(maskw(ew), ew)), exZero = mkEq(ex, mkConst(0, ew)), mZero = mkEq(m, mkConst(0, mant));
      E quiet = mkExtract(x, mant - 1, 1);
      E nan = mkAnd(exOnes, mkNot(mZero)), inf = mkAnd(exOnes, mZero);
      E sub = mkAnd(exZero, mkNot(mZero)), zero = mkAnd(exZero, mZero), norm = mkAnd(mkNot(exOnes), mkNot(exZero));
      E pos = mkNot(sign);
      E t[10] = {mkAnd(nan, mkNot(quiet)), mkAnd(nan, quiet), mkAnd(inf, sign), mkAnd(norm, sign), mkAnd(sub, sign),
                 mkAnd(zero, sign), mkAnd(zero, pos), mkAnd(sub, pos), mkAnd(norm, pos), mkAnd(inf, pos)};
      E r = mkFalse();
      for (int i = 0; i < 10; i++) if (mask >> i & 1) r = mkOr(r, t[i]);
      out.e = r;
      return true;
    }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap:
      report(s, "abort", "trap (undefined behaviour)", nullptr);
      pathEnd(s, "violation");
      return true;
    case Intrinsic::eh_typeid_for: out.e = mkConst(0, 32); return true;
    default: return false;
  }
}

// ------------------------------------------------------------ instructions
static bool loadTyped(State& s, E p, Type* t, Val& out) {
  if (unsigned w = widthOf(t)) {
    E e;
    if (!loadVal(s, p, w, e)) return false;
    out.e = e;
    return true;
  }
  std::vector<Val> el;
  if (auto* st = dyn_cast<StructType>(t)) {
    const StructLayout* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) {
      Val v;
      if (!loadTyped(s, mkAdd(p, mkConst(sl->getElementOffset(i), 64)), st->getElementType(i), v)) return false;
      el.push_back(v);
    }
  } else {
    Type* et;
    uint64_t n;
    if (auto* at = dyn_cast<ArrayType>(t)) { et = at->getElementType(); n = at->getNumElements(); }
    else if (auto* vt = dyn_cast<FixedVectorType>(t)) { et = vt->getElementType(); n = vt->getNumElements(); }
    else { incomplete(s, "load type"); return false; }
    uint64_t sz = DL->getTypeAllocSize(et);
    for (uint64_t i = 0; i < n; i++) {
      Val v;
      if (!loadTyped(s, mkAdd(p, mkConst(sz * i, 64)), et, v)) return false;
      el.push_back(v);
    }
  }
  out = mkAgg(el);
  return true;
}
static bool storeTyped(State& s, E p, const Val& v, Type* t) {
  if (v.e) return storeVal(s, p, v.e);
  if (!v.agg) { incomplete(s, "store of nothing"); return false; }
  if (auto* st = dyn_cast<StructType>(t)) {
    const StructLayout* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      if (!storeTyped(s, mkAdd(p, mkConst(sl->getElementOffset(i), 64)), (*v.agg)[i], st->getElementType(i))) return false;
    return true;
  }
  Type* et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
  uint64_t sz = DL->getTypeAllocSize(et);
  for (size_t i = 0; i < v.agg->size(); i++)
    if (!storeTyped(s, mkAdd(p, mkConst(sz * i, 64)), (*v.agg)[i], et)) return false;
  return true;
}
static Val insertAt(const Val& a, ArrayRef<unsigned> idx, const Val& v) {
  if (idx.empty()) return v;
  std::vector<Val> el = *a.agg;
  el[idx[0]] = insertAt(el[idx[0]], idx.slice(1), v);
  return mkAgg(el);
}
static E binop(State& s, unsigned op, E a, E b) {
  switch (op) {
    case Instruction::Add: return mkAdd(a, b);
    case Instruction::Sub: return mkSub(a, b);
    case Instruction::Mul: return mkMul(a, b);
    case Instruction::And: return mkAnd(a, b);
    case Instruction::Or: return mkOr(a, b);
    case Instruction::Xor: return mkXor(a, b);
    case Instruction::Shl: return mkShl(a, b);
    case Instruction::LShr: return mkLShr(a, b);
    case Instruction::AShr: return mkAShr(a, b);
    case Instruction::FAdd: return mkF(::FAdd, a, b, a->width);
    case Instruction::FSub: return mkF(::FSub, a, b, a->width);
    case Instruction::FMul: return mkF(::FMul, a, b, a->width);
    case Instruction::FDiv: return mkF(::FDiv, a, b, a->width);
    case Instruction::FRem: return mkF(::FRem, a, b, a->width);
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      E z = mkEq(b, mkConst(0, b->width));
      if (!isFalse(z)) {
        std::unordered_map<uint32_t, u128> m;
        Res r = mayBeTrue(s, z, m);
        if (r == Res::Unknown) { incomplete(s, "solver unknown (div)"); return nullptr; }
        if (r == Res::Sat) {
          report(s, "arith", "division by zero", m.empty() ? nullptr : &m);
          std::unordered_map<uint32_t, u128> m2;
          if (mayBeTrue(s, mkNot(z), m2) != Res::Sat) { pathEnd(s, "violation"); return nullptr; }
          mergeModel(s, m2);
          addConstraint(s, mkNot(z));
        }
      }
      if (op == Instruction::SDiv || op == Instruction::SRem) {
        E ov = mkAnd(mkEq(b, mkConst(maskw(b->width), b->width)), mkEq(a, mkConst((u128)1 << (a->width - 1), a->width)));
        if (!isFalse(ov)) {
          std::unordered_map<uint32_t, u128> m;
          Res r = mayBeTrue(s, ov, m);
          if (r == Res::Sat) {
            report(s, "arith", "signed division overflow", m.empty() ? nullptr : &m);
            std::unordered_map<uint32_t, u128> m2;
            if (mayBeTrue(s, mkNot(ov), m2) != Res::Sat) { pathEnd(s, "violation"); return nullptr; }
            mergeModel(s, m2);
            addConstraint(s, mkNot(ov));
          }
        }
      }
      if (op == Instruction::UDiv) return mkUDiv(a, b);
      if (op == Instruction::SDiv) return mkSDiv(a, b);
      if (op == Instruction::URem) return mkURem(a, b);
      return mkSRem(a, b);
    }
    default: incomplete(s, "binop"); return nullptr;
  }
}
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b);
    case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkUlt(a, b);
    case CmpInst::ICMP_ULE: return mkUle(a, b);
    case CmpInst::ICMP_UGT: return mkUlt(b, a);
    case CmpInst::ICMP_UGE: return mkUle(b, a);
    case CmpInst::ICMP_SLT: return mkSlt(a, b);
    case CmpInst::ICMP_SLE: return mkSle(a, b);
    case CmpInst::ICMP_SGT: return mkSlt(b, a);
    case CmpInst::ICMP_SGE: return mkSle(b, a);
    default: return nullptr;
  }
}
static E fcmp(CmpInst::Predicate p, E a, E b) {
  E na, nb;
  isNanE(a, na);
  isNanE(b, nb);
  if (isFalse(mkF(FNan, a, nullptr, 1))) na = mkFalse();
  if (isFalse(mkF(FNan, b, nullptr, 1))) nb = mkFalse();
  E un = mkOr(na, nb);
  switch (p) {
    case CmpInst::FCMP_FALSE: return mkFalse();
    case CmpInst::FCMP_TRUE: return mkTrue();
    case CmpInst::FCMP_ORD: return mkNot(un);
    case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_OEQ: return mkF(FEq, a, b, 1);
    case CmpInst::FCMP_UNE: return mkNot(mkF(FEq, a, b, 1));
    case CmpInst::FCMP_UEQ: return mkOr(un, mkF(FEq, a, b, 1));
    case CmpInst::FCMP_ONE: return mkAnd(mkNot(un), mkNot(mkF(FEq, a, b, 1)));
    case CmpInst::FCMP_OLT: return mkF(FLt, a, b, 1);
    case CmpInst::FCMP_OLE: return mkF(FLe, a, b, 1);
    case CmpInst::FCMP_OGT: return mkF(FLt, b, a, 1);
    case CmpInst::FCMP_OGE: return mkF(FLe, b, a, 1);
    case CmpInst::FCMP_ULT: return mkOr(un, mkF(FLt, a, b, 1));
    case CmpInst::FCMP_ULE: return mkOr(un, mkF(FLe, a, b, 1));
    case CmpInst::FCMP_UGT: return mkOr(un, mkF(FLt, b, a, 1));
    case CmpInst::FCMP_UGE: return mkOr(un, mkF(FLe, b, a, 1));
    default: return nullptr;
  }
}
static E castop(unsigned op, E a, Type* dt) {
  unsigned w = widthOf(dt);
  switch (op) {
    case Instruction::Trunc: return mkExtract(a, 0, w);
    case Instruction::ZExt: return mkZExt(a, w);
    case Instruction::SExt: return mkSExt(a, w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return w < a->width ? mkExtract(a, 0, w) : mkZExt(a, w);
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::FPTrunc: case Instruction::FPExt: return mkF(FCvt, a, nullptr, w);
    case Instruction::FPToSI: return mkF(F2SI, a, nullptr, w);
    case Instruction::FPToUI: return mkF(F2UI, a, nullptr, w);
    case Instruction::SIToFP: return mkF(SI2F, a, nullptr, w);
    case Instruction::UIToFP: return mkF(UI2F, a, nullptr, w);
    default: return nullptr;
  }
}

static void doReturn(State& s, Val v) {
  Frame f = std::move(s.st.back());
  s.st.pop_back();
  for (uint32_t a : f.allocas) {
    auto n = std::make_shared<Obj>();
    n->kind = OStack; n->freed = true; n->name = "stack"; n->uid = a;
    *slot(s, a) = n;
  }
  if (s.st.empty()) { pathEnd(s, "complete"); return; }
  Frame& c = s.st.back();
  if (f.retSlot >= 0) c.regs[f.retSlot] = v;
  if (f.resumeBlock >= 0) enterBlock(s, c, f.resumeBlock);
}

static void doCall(State& s, KInst& ki) {
  Frame& f = s.st.back();
  CallBase* cb = cast<CallBase>(ki.I);
  size_t na = cb->arg_size();
  std::vector<Val> av(na);
  for (size_t i = 0; i < na; i++) if (ki.ops[i] != INT32_MIN) av[i] = opv(f, ki.ops[i]);
  int resume = -1;
  if (auto* iv = dyn_cast<InvokeInst>(cb)) resume = f.kf->bbIdx[iv->getNormalDest()];
  Function* callee = ki.callee;
  int ext = ki.ext;
  if (!callee) {
    if (isa<InlineAsm>(cb->getCalledOperand())) {
      // compiler barriers only
      if (ki.dest >= 0) incomplete(s, "inline asm");
      return;
    }
    E p = ope(f, ki.ops[na]);
    u128 v;
    if (!concretize(s, p, v)) return;
    auto it = gFnAt.find((uint64_t)v);
    if (it == gFnAt.end()) { report(s, "memory", v == 0 ? "call of null pointer" : "call of invalid pointer", nullptr); pathEnd(s, "violation"); return; }
    callee = it->second;
    if (callee->isDeclaration()) ext = extId(callee->getName().str());
  }
  if (callee->isIntrinsic()) {
    Val out;
    uint32_t before = s.st.size();
    (void)before;
    if (!intrinsic(s, f, ki, callee->getIntrinsicID(), av, out)) { incomplete(s, "intrinsic " + callee->getName().str()); return; }
    if (s.dead) return;
    if (ki.dest >= 0 && (out.e || out.agg)) s.st.back().regs[ki.dest] = out;
    return;
  }
  if (!callee->isDeclaration()) {
    // byval arguments
    for (size_t i = 0; i < na; i++) if (cb->isByValArgument(i)) {
      uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i));
      uint32_t o = newObj(s, sz, OStack, "byval", true);
      s.st.back().allocas.push_back(o);
      E np = mkConst(baseOf(o), 64);
      if (!doCopy(s, np, av[i].e, mkConst(sz, 64))) return;
      av[i].e = np;
    }
    KFunc* k = prep(callee);
    pushCall(s, k, std::move(av), ki.dest, resume);
    return;
  }
  if (ext < 0) {
    std::string nm = callee->getName().str();
    if (nm.compare(0, 16, "_ZSt") == 0 || nm.find("__throw_") != std::string::npos) {
      if (nm.find("bad_alloc") != std::string::npos || nm.find("bad_array") != std::string::npos) { pathEnd(s, "oom"); return; }
      report(s, "exception", "uncaught exception: " + demangle(nm), nullptr);
      pathEnd(s, "violation");
      return;
    }
    incomplete(s, "external function " + nm);
    return;
  }
  std::vector<E> ae;
  for (auto& x : av) ae.push_back(x.e);
  E r = nullptr;
  gExt[ext](s, ki, ae, r);
  if (s.dead) return;
  Frame& f2 = s.st.back();
  if (ki.dest >= 0) {
    Val v;
    if (!r) r = mkConst(0, ki.width ? ki.width : 64);
    if (ki.width && r->width != ki.width) r = r->width > ki.width ? mkExtract(r, 0, ki.width) : mkZExt(r, ki.width);
    v.e = r;
    f2.regs[ki.dest] = v;
  }
  if (resume >= 0) enterBlock(s, f2, resume);
}

static void step(State& s) {
  Frame& f = s.st.back();
  KInst& ki = f.kf->insts[f.pc++];
  s.insts++;
  nInsts++;
  Instruction* I = ki.I;
  unsigned op = I->getOpcode();
  auto set = [&](E e) { Val v; v.e = e; s.st.back().regs[ki.dest] = v; };
  switch (op) {
    case Instruction::Alloca: {
      auto* ai = cast<AllocaInst>(I);
      uint64_t sz = DL->getTypeAllocSize(ai->getAllocatedType());
      u128 n;
      if (!concretize(s, ope(f, ki.ops[0]), n)) return;
      uint32_t o = newObj(s, sz * (uint64_t)n, OStack, "stack", true);
      s.st.back().allocas.push_back(o);
      set(mkConst(baseOf(o), 64));
      return;
    }
    case Instruction::Load: {
      E p = ope(f, ki.ops[0]);
      Val v;
      if (!loadTyped(s, p, I->getType(), v)) return;
      s.st.back().regs[ki.dest] = v;
      return;
    }
    case Instruction::Store: {
      storeTyped(s, ope(f, ki.ops[1]), opv(f, ki.ops[0]), I->getOperand(0)->getType());
      return;
    }
    case Instruction::GetElementPtr: {
      E p = ope(f, ki.ops[0]);
      if (!p) { incomplete(s, "vector gep"); return; }
      if (ki.off) p = mkAdd(p, mkConst((u128)(s128)ki.off, 64));
      for (auto& x : ki.idx) {
        E i = ope(f, x.op);
        if (i->width < 64) i = mkSExt(i, 64);
        else if (i->width > 64) i = mkExtract(i, 0, 64);
        p = mkAdd(p, mkMul(i, mkConst(x.scale, 64)));
      }
      set(p);
      return;
    }
    case Instruction::Br: {
      auto* b = cast<BranchInst>(I);
      if (b->isUnconditional()) { enterBlock(s, f, f.kf->bbIdx[b->getSuccessor(0)]); return; }
      E c = ope(f, ki.ops[0]);
      nBranches++;
      std::unordered_map<uint32_t, u128> m;
      int d = decide(s, c, m);
      if (d < 0) { incomplete(s, "solver unknown (branch)"); return; }
      int t = f.kf->bbIdx[b->getSuccessor(0)], e = f.kf->bbIdx[b->getSuccessor(1)];
      if (d == 2) {
        bool cur = isTrueU(s, c);
        StateP n = cloneState(s);
        n->depth++;
        mergeModel(*n, m);
        addConstraint(*n, cur ? mkNot(c) : c);
        enterBlock(*n, n->st.back(), cur ? e : t);
        pending.push_back(std::move(n));
        addConstraint(s, cur ? c : mkNot(c));
        s.depth++;
        enterBlock(s, s.st.back(), cur ? t : e);
      } else {
        enterBlock(s, f, d ? t : e);
      }
      return;
    }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(I);
      E c = ope(f, ki.ops[0]);
      nBranches++;
      if (isC(c)) {
        int dst = f.kf->bbIdx[sw->getDefaultDest()];
        for (auto& k : sw->cases()) if (apint(k.getCaseValue()->getValue()) == c->c) { dst = f.kf->bbIdx[k.getCaseSuccessor()]; break; }
        enterBlock(s, f, dst);
        return;
      }
      // group by destination
      std::map<int, E> conds;
      E any = mkFalse();
      for (auto& k : sw->cases()) {
        E q = mkEq(c, mkConst(apint(k.getCaseValue()->getValue()), c->width));
        int dst = f.kf->bbIdx[k.getCaseSuccessor()];
        auto it = conds.find(dst);
        if (it == conds.end()) conds[dst] = q; else it->second = mkOr(it->second, q);
        any = mkOr(any, q);
      }
      int dd = f.kf->bbIdx[sw->getDefaultDest()];
      auto it = conds.find(dd);
      if (it == conds.end()) conds[dd] = mkNot(any); else it->second = mkOr(it->second, mkNot(any));
      int curDst = -1;
      for (auto& k : conds) if (isTrueU(s, k.second)) { curDst = k.first; break; }
      if (curDst < 0) fatal("switch");
      for (auto& k : conds) {
        if (k.first == curDst) continue;
        std::unordered_map<uint32_t, u128> m;
        Res r = mayBeTrue(s, k.second, m);
        if (r == Res::Unknown) { incomplete(s, "solver unknown (switch)"); return; }
        if (r == Res::Unsat) continue;
        StateP n = cloneState(s);
        n->depth++;
        mergeModel(*n, m);
        addConstraint(*n, k.second);
        enterBlock(*n, n->st.back(), k.first);
        pending.push_back(std::move(n));
      }
      addConstraint(s, conds[curDst]);
      enterBlock(s, s.st.back(), curDst);
      return;
    }
    case Instruction::Ret: {
      Val v;
      if (!ki.ops.empty()) v = opv(f, ki.ops[0]);
      doReturn(s, v);
      return;
    }
    case Instruction::Call: case Instruction::Invoke: doCall(s, ki); return;
    case Instruction::ICmp: {
      const Val &a = opv(f, ki.ops[0]), &b = opv(f, ki.ops[1]);
      auto pr = cast<ICmpInst>(I)->getPredicate();
      if (a.agg) {
        std::vector<Val> el;
        for (size_t i = 0; i < a.agg->size(); i++) { Val v; v.e = icmp(pr, (*a.agg)[i].e, (*b.agg)[i].e); el.push_back(v); }
        f.regs[ki.dest] = mkAgg(el);
        return;
      }
      set(icmp(pr, a.e, b.e));
      return;
    }
    case Instruction::FCmp: {
      E a = ope(f, ki.ops[0]), b = ope(f, ki.ops[1]);
      if (!a) { incomplete(s, "vector fcmp"); return; }
      set(fcmp(cast<FCmpInst>(I)->getPredicate(), a, b));
      return;
    }
    case Instruction::FNeg: { E a = ope(f, ki.ops[0]); set(mkXor(a, mkConst((u128)1 << (a->width - 1), a->width))); return; }
    case Instruction::Freeze: f.regs[ki.dest] = opv(f, ki.ops[0]); return;
    case Instruction::Select: {
      E c = ope(f, ki.ops[0]);
      const Val &a = opv(f, ki.ops[1]), &b = opv(f, ki.ops[2]);
      if (!c) { incomplete(s, "vector select"); return; }
      if (isC(c)) { Val v = c->c ? a : b; f.regs[ki.dest] = v; return; }
      if (a.agg || (I->getType()->isPointerTy() && a.e != b.e)) {
        std::unordered_map<uint32_t, u128> m;
        int d = decide(s, c, m);
        if (d < 0) { incomplete(s, "solver unknown (select)"); return; }
        bool cur = isTrueU(s, c);
        if (d == 2) { forkOther(s, cur ? mkNot(c) : c, m, true); addConstraint(s, cur ? c : mkNot(c)); }
        Frame& f2 = s.st.back();
        Val v = cur ? opv(f2, ki.ops[1]) : opv(f2, ki.ops[2]);
        f2.regs[ki.dest] = v;
        return;
      }
      set(mkIte(c, a.e, b.e));
      return;
    }
    case Instruction::ExtractValue: {
      const Val* v = &opv(f, ki.ops[0]);
      for (unsigned i : cast<ExtractValueInst>(I)->indices()) v = &(*v->agg)[i];
      Val r = *v;
      f.regs[ki.dest] = r;
      return;
    }
    case Instruction::InsertValue: {
      Val r = insertAt(opv(f, ki.ops[0]), cast<InsertValueInst>(I)->getIndices(), opv(f, ki.ops[1]));
      f.regs[ki.dest] = r;
      return;
    }
    case Instruction::ExtractElement: {
      u128 i;
      if (!concretize(s, ope(f, ki.ops[1]), i)) return;
      Frame& f2 = s.st.back();
      Val r = (*opv(f2, ki.ops[0]).agg)[(size_t)i];
      f2.regs[ki.dest] = r;
      return;
    }
    case Instruction::InsertElement: {
      u128 i;
      if (!concretize(s, ope(f, ki.ops[2]), i)) return;
      Frame& f2 = s.st.back();
      std::vector<Val> el = *opv(f2, ki.ops[0]).agg;
      el[(size_t)i] = opv(f2, ki.ops[1]);
      f2.regs[ki.dest] = mkAgg(el);
      return;
    }
    case Instruction::ShuffleVector: {
      auto* sv = cast<ShuffleVectorInst>(I);
      const Val &a = opv(f, ki.ops[0]), &b = opv(f, ki.ops[1]);
      std::vector<Val> el;
      for (int m : sv->getShuffleMask()) {
        if (m < 0) el.push_back(zeroVal(sv->getType()->getElementType()));
        else el.push_back((size_t)m < a.agg->size() ? (*a.agg)[m] : (*b.agg)[m - a.agg->size()]);
      }
      f.regs[ki.dest] = mkAgg(el);
      return;
    }
    case Instruction::Fence: return;
    case Instruction::AtomicRMW: {
      auto* r = cast<AtomicRMWInst>(I);
      E p = ope(f, ki.ops[0]), v = ope(f, ki.ops[1]), old;
      if (!loadVal(s, p, v->width, old)) return;
      E n;
      switch (r->getOperation()) {
        case AtomicRMWInst::Add: n = mkAdd(old, v); break;
        case AtomicRMWInst::Sub: n = mkSub(old, v); break;
        case AtomicRMWInst::Xchg: n = v; break;
        default: incomplete(s, "atomicrmw"); return;
      }
      if (!storeVal(s, p, n)) return;
      set(old);
      return;
    }
    case Instruction::Unreachable:
      report(s, "abort", "unreachable code executed", nullptr);
      pathEnd(s, "violation");
      return;
    default: break;
  }
  if (I->isBinaryOp()) {
    const Val &a = opv(f, ki.ops[0]), &b = opv(f, ki.ops[1]);
    if (a.agg) {
      std::vector<Val> el;
      for (size_t i = 0; i < a.agg->size(); i++) { Val v; v.e = binop(s, op, (*a.agg)[i].e, (*b.agg)[i].e); if (s.dead) return; el.push_back(v); }
      s.st.back().regs[ki.dest] = mkAgg(el);
      return;
    }
    E r = binop(s, op, a.e, b.e);
    if (s.dead) return;
    set(r);
    return;
  }
  if (I->isCast()) {
    const Val& a = opv(f, ki.ops[0]);
    Type* dt = I->getType();
    if (a.agg || dt->isVectorTy()) {
      auto* dv = dyn_cast<FixedVectorType>(dt);
      if (op == Instruction::BitCast) {
        // reinterpret via a flat bit vector
        E flat = nullptr;
        if (a.agg) for (auto& x : *a.agg) flat = flat ? mkConcat(x.e, flat) : x.e;
        else flat = a.e;
        if (flat->width > 128) { incomplete(s, "wide bitcast"); return; }
        if (!dv) { set(flat); return; }
        unsigned ew = widthOf(dv->getElementType());
        std::vector<Val> el;
        for (unsigned i = 0; i < dv->getNumElements(); i++) { Val v; v.e = mkExtract(flat, i * ew, ew); el.push_back(v); }
        f.regs[ki.dest] = mkAgg(el);
        return;
      }
      if (!a.agg || !dv) { incomplete(s, "vector cast"); return; }
      std::vector<Val> el;
      for (auto& x : *a.agg) { Val v; v.e = castop(op, x.e, dv->getElementType()); el.push_back(v); }
      f.regs[ki.dest] = mkAgg(el);
      return;
    }
    set(castop(op, a.e, dt));
    return;
  }
  incomplete(s, std::string("instruction ") + I->getOpcodeName());
}

// ------------------------------------------------------------ driver
static void finishPath(State& s) {
  if (s.endKind == "complete" || s.endKind == "exit") {
    nPaths++;
    bool fresh = false;
    for (auto& r : s.reached) {
      if (!gReach[r]++) { fresh = true; gReachIn[r] = inputsOf(s, *s.model); }
    }
    if (fresh || (int)gSamplesOut.size() < optSamples || (nPaths % 97) == optSeed % 97) {
      std::string in;
      for (auto& r : s.reached) in += "!" + r + "\n";
      in += inputsOf(s, *s.model);
      if ((int)gSamplesOut.size() < optSamples * 2) gSamplesOut.push_back(in);
      else gSamplesOut[(nPaths / 97) % gSamplesOut.size()] = in;
    }
  } else nKilled++;
}

static std::map<std::string, uint64_t> gEnds;

static void writeResults() {
  std::string fn = optOut + "." + std::to_string(getpid());
  FILE* o = fopen(fn.c_str(), "w");
  if (!o) return;
  fprintf(o, "{\"paths\":%llu,\"killed\":%llu,\"forks\":%llu,\"insts\":%llu,\"asserts\":%llu,\"asserts_sym\":%llu,\"memchecks\":%llu,\"branches\":%llu,",
          (unsigned long long)nPaths, (unsigned long long)nKilled, (unsigned long long)nForks, (unsigned long long)nInsts,
          (unsigned long long)nAsserts, (unsigned long long)nAssertsSym, (unsigned long long)nMemChecks, (unsigned long long)nBranches);
  fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache\":%llu,\"model_hits\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"cross\":%llu,\"cross_bad\":%llu,\"exprs\":%u,",
          (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.unknown,
          (unsigned long long)g_ss.cacheHits, (unsigned long long)g_ss.modelHits, g_ss.time, g_ss.maxq,
          (unsigned long long)g_ss.crosschecked, (unsigned long long)g_ss.crossDisagree, g_nexprs);
  fprintf(o, "\"ends\":{");
  bool first = true;
  for (auto& e : gEnds) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", esc(e.first).c_str(), (unsigned long long)e.second); first = false; }
  fprintf(o, "},\"incomplete\":{");
  first = true;
  for (auto& e : gIncomplete) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", esc(e.first).c_str(), (unsigned long long)e.second); first = false; }
  fprintf(o, "},\"reach\":{");
  first = true;
  for (auto& e : gReach) { fprintf(o, "%s\"%s\":{\"n\":%llu,\"in\":\"%s\"}", first ? "" : ",", esc(e.first).c_str(), (unsigned long long)e.second, esc(gReachIn[e.first]).c_str()); first = false; }
  fprintf(o, "},\"samples\":[");
  first = true;
  for (auto& e : gSamplesOut) { fprintf(o, "%s\"%s\"", first ? "" : ",", esc(e).c_str()); first = false; }
  fprintf(o, "],\"functions\":[");
  first = true;
  for (auto& kv : gFuncs) if (kv.second->calls && kv.second->inRepo) {
    fprintf(o, "%s\"%s\"", first ? "" : ",", esc(kv.second->pretty).c_str());
    first = false;
  }
  fprintf(o, "],\"violations\":[");
  first = true;
  for (auto& e : gViol) {
    fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":\"%s\",\"stack\":\"%s\"}", first ? "" : ",", esc(e.second.kind).c_str(),
            esc(e.second.msg).c_str(), esc(e.second.where).c_str(), esc(e.second.inputs).c_str(), esc(e.second.stack).c_str());
    first = false;
  }
  fprintf(o, "]}\n");
  fclose(o);
}
static void clearResults() {
  gViol.clear(); gIncomplete.clear(); gReach.clear(); gReachIn.clear(); gSamplesOut.clear(); gEnds.clear();
  nPaths = nKilled = nForks = nInsts = nAsserts = nAssertsSym = nMemChecks = nBranches = 0;
  g_ss = SolverStats();
  for (auto& kv : gFuncs) kv.second->calls = 0;
}

static uint64_t rssMB() {
  FILE* f = fopen("/proc/self/statm", "r");
  if (!f) return 0;
  unsigned long a = 0, b = 0;
  if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0;
  fclose(f);
  return b * 4096ull >> 20;
}

static int trySplit() {  // 0: none, 1: split (parent), 2: split (child)
  // give half of the pending states to a new process if a slot is free
  if (pending.empty()) return 0;
  int a = SH->active.load();
  while (a < optWorkers) {
    if (SH->active.compare_exchange_weak(a, a + 1)) {
      fflush(stdout);
      fflush(stderr);
      pid_t p = fork();
      if (p < 0) { SH->active--; return false; }
      // interleave: child takes even, parent odd
      std::vector<StateP> mine;
      for (size_t i = 0; i < pending.size(); i++)
        if (((i & 1) == 0) == (p == 0)) mine.push_back(std::move(pending[i]));
      pending.swap(mine);
      if (p == 0) clearResults();
      return p == 0 ? 2 : 1;
    }
  }
  return false;
}

static void explore() {
  double lastCheck = nowS();
  uint64_t tick = 0;
  while (!pending.empty()) {
    StateP s = std::move(pending.back());
    pending.pop_back();
    bool abandoned = false;
    while (!s->dead) {
      step(*s);
      if (s->insts > optMaxInst) {
        report(*s, "hang", "path exceeds the instruction bound (possible non-termination)", nullptr);
        pathEnd(*s, "hang");
        break;
      }
      if ((++tick & 0x3ff) == 0) {
        double t = nowS();
        if (t - lastCheck > 0.05) {
          lastCheck = t;
          if (SH->stop.load()) { gIncomplete["stopped"]++; return; }
          if (t - gStart > optTime) { gIncomplete["time budget exhausted"] += pending.size() + 1; return; }
          static int mc = 0;
          if (++mc % 20 == 0 && rssMB() > optMemMB) { gIncomplete["memory budget exhausted"] += pending.size() + 1; return; }
          if (trySplit() == 2) { abandoned = true; break; }
        }
      }
    }
    if (abandoned) continue;  // the parent process keeps this state
    gEnds[s->endKind]++;
    finishPath(*s);
  }
}

int main(int argc, char** argv) {
  std::string mod, entry = "symx_main";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "-o") optOut = next();
    else if (a == "-t") optTime = atof(next().c_str());
    else if (a == "-w") optWorkers = atoi(next().c_str());
    else if (a == "--max-inst") optMaxInst = strtoull(next().c_str(), 0, 10);
    else if (a == "--max-viol") optMaxViol = atoi(next().c_str());
    else if (a == "--alloc-cap") optAllocCap = strtoull(next().c_str(), 0, 10);
    else if (a == "--repo") optRepo = next();
    else if (a == "--entry") entry = next();
    else if (a == "--mem") optMemMB = strtoull(next().c_str(), 0, 10);
    else if (a == "--seed") optSeed = atoi(next().c_str());
    else if (a == "--query-timeout") g_queryTimeoutMs = atoi(next().c_str());
    else if (a == "--cross") g_crossEvery = atoi(next().c_str());
    else if (a == "--dump") g_dumpDir = strdup(next().c_str());
    else if (a == "-v") optVerbose++;
    else mod = a;
  }
  gStart = nowS();
  SMDiagnostic err;
  gMod = parseIRFile(mod, err, gCtx);
  if (!gMod) { err.print("symx", errs()); return 97; }
  DL = &gMod->getDataLayout();
  SH = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (SH) Shared();
  SH->active = 1;
  SH->stop = 0;
  SH->viols = 0;
  setupExternals();
  StateP s0(new State());
  s0->model = std::make_shared<Model>();
  s0->fixed = std::make_shared<std::map<uint32_t, int>>();
  // addresses
  for (Function& F : *gMod) {
    uint32_t i = newObj(*s0, 0, OFunc, F.getName().str(), false);
    gAddr[&F] = baseOf(i);
    gFnAt[baseOf(i)] = &F;
  }
  std::vector<std::pair<GlobalVariable*, uint32_t>> gvs;
  for (GlobalVariable& g : gMod->globals()) {
    if (!g.getValueType()->isSized()) continue;
    uint64_t sz = DL->getTypeAllocSize(g.getValueType());
    if (g.isDeclaration() && sz < 256) sz = 256;
    uint32_t i = newObj(*s0, sz, OGlobal, g.getName().str(), false);
    gAddr[&g] = baseOf(i);
    gvs.push_back({&g, i});
  }
  for (auto& p : gvs)
    if (p.first->hasInitializer()) {
      initGlobal(writable(*s0, p.second), 0, p.first->getInitializer());
      if (p.first->isConstant()) writable(*s0, p.second)->readonly = true;
    }
  // redirect externals to symx_-prefixed models supplied by the harness
  for (Function& F : *gMod) if (F.isDeclaration() && !F.isIntrinsic()) {
    if (Function* R = gMod->getFunction("symx_model_" + F.getName().str()))
      if (!R->isDeclaration()) { F.replaceAllUsesWith(R); gFnAt[gAddr[&F]] = R; }
  }
  Function* mainF = gMod->getFunction(entry);
  if (!mainF || mainF->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); return 97; }
  // constructors
  std::vector<std::pair<uint64_t, Function*>> ctors;
  if (GlobalVariable* gc = gMod->getGlobalVariable("llvm.global_ctors")) {
    if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto& o : ca->operands()) {
        auto* cs = cast<ConstantStruct>(o.get());
        if (auto* fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
          ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
      }
  }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& c : ctors) {
    if (c.second->isDeclaration()) continue;
    pushCall(*s0, prep(c.second), {}, -1, -1);
    size_t depth = s0->st.size();
    (void)depth;
    while (!s0->dead && !s0->st.empty()) step(*s0);
    if (s0->dead && s0->endKind != "complete") { fprintf(stderr, "symx: constructor failed: %s\n", s0->endKind.c_str()); }
    s0->dead = false;
    s0->endKind.clear();
  }
  s0->liveNew = 0;
  pushCall(*s0, prep(mainF), {}, -1, -1);
  pending.push_back(std::move(s0));
  pid_t root = getpid();
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  explore();
  writeResults();
  if (getpid() != root) { SH->active--; _exit(0); }
  SH->active--;
  int bad = 0;
  for (;;) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; SH->active--; }
  }
  if (bad) {
    FILE* o = fopen((optOut + ".crash").c_str(), "w");
    fprintf(o, "{\"crashed\":%d}\n", bad);
    fclose(o);
  }
  _exit(0);
}
