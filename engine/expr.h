// Hash-consed bit-vector expressions with eager simplification.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 s128;

enum Kind : uint8_t {
  Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr,
  AShr, Eq, Ult, Slt, Not, Ite, Concat, Extract, ZExt, SExt,
  // floating point on bit patterns (operand width 32 or 64)
  FAdd, FSub, FMul, FDiv, FRem, FSqrt, FRnd, FLt, FLe, FEq, FNan,
  F2SI, F2UI, SI2F, UI2F, FCvt
};

struct SymSet { std::vector<uint32_t> v; uint32_t id; };

struct Expr {
  Kind kind;
  bool fp;        // contains floating point operations
  uint16_t width;
  uint32_t id;
  uint32_t aux;   // Extract: offset, Sym: index, FRnd: mode
  const Expr* k[3];
  u128 c;         // Const value
  u128 umin, umax;
  s128 smin, smax;
  const SymSet* syms;
  uint32_t hash;
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline s128 sgn(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  return (s128)((v ^ m)) - (s128)m;
}

E mkConst(u128 v, unsigned w);
E mkSym(const std::string& key, unsigned w);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkSDiv(E a, E b);
E mkURem(E a, E b);
E mkSRem(E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkSlt(E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned off, unsigned w);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkF(Kind k, E a, E b, unsigned w, unsigned aux = 0);
inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline bool isC(E e) { return e->kind == Const; }
inline bool isTrue(E e) { return e->kind == Const && e->c == 1 && e->width == 1; }
inline bool isFalse(E e) { return e->kind == Const && e->c == 0 && e->width == 1; }
unsigned trailingZeros(E e);
// Comparisons that were narrowed: the narrow condition is equivalent to each listed original
// (negated when .second is true).  Used by the interval pre-check only.
const std::vector<std::pair<E, bool>>* wideForms(E e);

struct SymInfo { std::string name; unsigned width; E e; };
extern std::vector<SymInfo> g_syms;
extern uint32_t g_nexprs;
const SymSet* unionSyms(const SymSet* a, const SymSet* b);

// Evaluation under a model (value per symbol index; missing = 0).
struct Model {
  std::unordered_map<uint32_t, u128> v;
  uint64_t uid;
  Model();
  Model(const Model& o);
  u128 get(uint32_t s) const { auto i = v.find(s); return i == v.end() ? 0 : i->second; }
};
u128 evalExpr(E e, const Model& m);
std::string exprStr(E e, int depth = 6);
u128 foldF(Kind k, u128 a, u128 b, unsigned opw, unsigned w, unsigned aux);
