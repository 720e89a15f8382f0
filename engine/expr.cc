#include "expr.h"

#include <cmath>
#include <map>

std::vector<SymInfo> g_syms;
uint32_t g_nexprs = 0;

static std::vector<E> table;  // open addressing
static size_t tableMask = 0, tableCount = 0;
static std::vector<E> byId;

static SymSet emptySet = {{}, 0};
static std::map<std::vector<uint32_t>, SymSet*> setIntern;
static std::unordered_map<uint64_t, const SymSet*> unionMemo;

static const SymSet* internSet(const std::vector<uint32_t>& v) {
  if (v.empty()) return &emptySet;
  auto it = setIntern.find(v);
  if (it != setIntern.end()) return it->second;
  SymSet* s = new SymSet{v, (uint32_t)setIntern.size() + 1};
  setIntern[v] = s;
  return s;
}
const SymSet* unionSyms(const SymSet* a, const SymSet* b) {
  if (a == b || b->v.empty()) return a;
  if (a->v.empty()) return b;
  uint64_t key = a->id < b->id ? ((uint64_t)a->id << 32 | b->id) : ((uint64_t)b->id << 32 | a->id);
  auto it = unionMemo.find(key);
  if (it != unionMemo.end()) return it->second;
  std::vector<uint32_t> r;
  r.reserve(a->v.size() + b->v.size());
  size_t i = 0, j = 0;
  while (i < a->v.size() || j < b->v.size()) {
    if (j >= b->v.size() || (i < a->v.size() && a->v[i] < b->v[j])) r.push_back(a->v[i++]);
    else if (i >= a->v.size() || b->v[j] < a->v[i]) r.push_back(b->v[j++]);
    else { r.push_back(a->v[i]); i++; j++; }
  }
  const SymSet* s = internSet(r);
  unionMemo[key] = s;
  return s;
}

static bool sameE(const Expr& a, const Expr& b) {
  return a.kind == b.kind && a.width == b.width && a.aux == b.aux && a.k[0] == b.k[0] &&
         a.k[1] == b.k[1] && a.k[2] == b.k[2] && a.c == b.c;
}

static void bounds(Expr& x) {
  u128 m = maskw(x.width);
  x.umin = 0; x.umax = m;
  E a = x.k[0], b = x.k[1];
  switch (x.kind) {
    case Const: x.umin = x.umax = x.c; break;
    case ZExt: x.umin = a->umin; x.umax = a->umax; break;
    case Concat:
      x.umin = (a->umin << b->width) | b->umin;
      x.umax = (a->umax << b->width) | b->umax;
      break;
    case Extract:
      if (a->umax <= (maskw(x.width) << x.aux | (x.aux ? maskw(x.aux) : 0)) ) {
        x.umin = a->umin >> x.aux; x.umax = a->umax >> x.aux;
      }
      break;
    case And: x.umax = a->umax < b->umax ? a->umax : b->umax; break;
    case Or: {
      u128 t = a->umax | b->umax;
      u128 r = t;
      for (int s = 1; s < 128; s <<= 1) r |= r >> s;
      x.umax = r & m;
      x.umin = a->umin > b->umin ? a->umin : b->umin;
      break;
    }
    case Xor: {
      u128 t = a->umax | b->umax, r = t;
      for (int s = 1; s < 128; s <<= 1) r |= r >> s;
      x.umax = r & m;
      break;
    }
    case Add:
      if (x.width < 128 && a->umax + b->umax <= m) { x.umin = a->umin + b->umin; x.umax = a->umax + b->umax; }
      else if (x.width < 128 && isC(b)) {  // x - c without wrap
        u128 neg = (m + 1) - b->c;
        if (a->umin >= neg) { x.umin = a->umin - neg; x.umax = a->umax - neg; }
      }
      break;
    case Sub:
      if (a->umin >= b->umax) { x.umin = a->umin - b->umax; x.umax = a->umax - b->umin; }
      break;
    case Mul:
      if (a->umax == 0 || b->umax == 0) { x.umin = x.umax = 0; }
      else if (x.width <= 64 && a->umax * b->umax <= m) { x.umin = a->umin * b->umin; x.umax = a->umax * b->umax; }
      break;
    case UDiv: if (b->umin > 0) { x.umax = a->umax / b->umin; x.umin = a->umin / b->umax; } break;
    case URem: if (b->umin > 0) { x.umax = b->umax - 1 < a->umax ? b->umax - 1 : a->umax; } break;
    case Ite:
      x.umin = x.k[1]->umin < x.k[2]->umin ? x.k[1]->umin : x.k[2]->umin;
      x.umax = x.k[1]->umax > x.k[2]->umax ? x.k[1]->umax : x.k[2]->umax;
      break;
    case LShr: x.umax = a->umax; break;
    default: break;
  }
}

// Signed range (only tracked up to 100 bits; wider expressions get the full range).
static void sbounds(Expr& x) {
  unsigned w = x.width;
  if (w > 100) { x.smin = (s128)((u128)1 << 127); x.smax = (s128)(((u128)1 << 127) - 1); return; }
  s128 half = (s128)1 << (w - 1);
  s128 lo = -half, hi = half - 1;
  E a = x.k[0], b = x.k[1];
  s128 l = lo, h = hi;
  switch (x.kind) {
    case Const: l = h = sgn(x.c, w); break;
    case SExt: l = a->smin; h = a->smax; break;
    case Add: l = a->smin + b->smin; h = a->smax + b->smax; break;
    case Sub: l = a->smin - b->smax; h = a->smax - b->smin; break;
    case Mul:
      if (isC(b) && b->smin > -(1 << 30) && b->smin < (1 << 30) && w <= 64) {
        s128 p = a->smin * b->smin, q = a->smax * b->smin;
        l = p < q ? p : q; h = p < q ? q : p;
      }
      break;
    case Ite:
      l = x.k[1]->smin < x.k[2]->smin ? x.k[1]->smin : x.k[2]->smin;
      h = x.k[1]->smax > x.k[2]->smax ? x.k[1]->smax : x.k[2]->smax;
      break;
    case Extract:
      if (x.aux == 0 && a->width <= 100) { l = a->smin; h = a->smax; }
      break;
    default: break;
  }
  if (h < lo) { l += 2 * half; h += 2 * half; }
  else if (l > hi) { l -= 2 * half; h -= 2 * half; }
  if (l < lo || h > hi) { l = lo; h = hi; }
  if (x.umax < (u128)half) {
    if (l < (s128)x.umin) l = (s128)x.umin;
    if (h > (s128)x.umax) h = (s128)x.umax;
  }
  x.smin = l; x.smax = h;
  if (l >= 0) {
    if ((u128)l > x.umin) x.umin = l;
    if ((u128)h < x.umax) x.umax = h;
  }
}
static unsigned sbits(E e) {
  if (e->width > 100) return e->width;
  unsigned n = 1;
  while (e->smin < -((s128)1 << (n - 1)) || e->smax > ((s128)1 << (n - 1)) - 1) n++;
  return n;
}

static E intern(Expr& x) {
  uint64_t h = x.kind * 0x9E3779B97F4A7C15ull + x.width * 1315423911u + x.aux * 2654435761u;
  for (int i = 0; i < 3; i++) h = (h ^ (x.k[i] ? x.k[i]->id + 1 : 0)) * 0x100000001B3ull + (h >> 29);
  h = (h ^ (uint64_t)x.c) * 0x9E3779B97F4A7C15ull;
  h = (h ^ (uint64_t)(x.c >> 64)) * 0xC2B2AE3D27D4EB4Full;
  h ^= h >> 31;
  x.hash = (uint32_t)h;
  if (tableCount * 2 >= tableMask) {
    size_t n = tableMask ? (tableMask + 1) * 2 : 1 << 16;
    std::vector<E> nt(n, nullptr);
    for (E e : table) if (e) {
      size_t i = e->hash & (n - 1);
      while (nt[i]) i = (i + 1) & (n - 1);
      nt[i] = e;
    }
    table.swap(nt);
    tableMask = n - 1;
  }
  size_t i = x.hash & tableMask;
  while (table[i]) {
    if (table[i]->hash == x.hash && sameE(*table[i], x)) return table[i];
    i = (i + 1) & tableMask;
  }
  static Expr* pool = nullptr;
  static size_t left = 0;
  if (!left) { pool = (Expr*)malloc(sizeof(Expr) * 4096); left = 4096; }
  Expr* n = pool++;
  left--;
  *n = x;
  n->id = g_nexprs++;
  bounds(*n);
  sbounds(*n);
  n->fp = x.kind >= FAdd;
  if (x.kind != Sym) n->syms = &emptySet;
  for (int j = 0; j < 3; j++) if (x.k[j]) { n->syms = unionSyms(n->syms, x.k[j]->syms); n->fp |= x.k[j]->fp; }
  table[i] = n;
  tableCount++;
  return n;
}

static E mk(Kind k, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, uint32_t aux = 0) {
  Expr x;
  memset((void*)&x, 0, sizeof x);
  x.kind = k; x.width = w; x.k[0] = a; x.k[1] = b; x.k[2] = c; x.aux = aux;
  return intern(x);
}
E mkConst(u128 v, unsigned w) {
  Expr x;
  memset((void*)&x, 0, sizeof x);
  x.kind = Const; x.width = w; x.c = v & maskw(w);
  return intern(x);
}
E mkSym(const std::string& key, unsigned w) {
  static std::unordered_map<std::string, E> m;
  auto it = m.find(key);
  if (it != m.end() && it->second->width == w) return it->second;
  Expr x;
  memset((void*)&x, 0, sizeof x);
  x.kind = Sym; x.width = w; x.aux = g_syms.size();
  x.syms = internSet({x.aux});
  E e = intern(x);
  g_syms.push_back({key, w, e});
  m[key] = e;
  return e;
}

unsigned trailingZeros(E e) {
  switch (e->kind) {
    case Const: {
      if (e->c == 0) return e->width;
      unsigned n = 0;
      while (!((e->c >> n) & 1)) n++;
      return n;
    }
    case Concat: {
      unsigned n = trailingZeros(e->k[1]);
      return n == e->k[1]->width ? n + trailingZeros(e->k[0]) : n;
    }
    case ZExt: case SExt: { unsigned n = trailingZeros(e->k[0]); return n == e->k[0]->width ? e->width : n; }
    case Add: case Sub: case Or: case Xor: {
      unsigned a = trailingZeros(e->k[0]), b = trailingZeros(e->k[1]);
      return a < b ? a : b;
    }
    case Mul: { unsigned n = trailingZeros(e->k[0]) + trailingZeros(e->k[1]); return n > e->width ? e->width : n; }
    case Ite: {
      unsigned a = trailingZeros(e->k[1]), b = trailingZeros(e->k[2]);
      return a < b ? a : b;
    }
    default: return 0;
  }
}

// Number of low bits known to fit (umax) -> bit length
static unsigned bitlen(u128 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n; }

E mkAdd(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(a->c + b->c, w);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (b->c == 0) return a;
    if (a->kind == Add && isC(a->k[1])) return mkAdd(a->k[0], mkConst(a->k[1]->c + b->c, w));
    if (a->kind == Sub && isC(a->k[0])) return mkSub(mkConst(a->k[0]->c + b->c, w), a->k[1]);
    if (a->kind == Ite && isC(a->k[1]) && isC(a->k[2]))
      return mkIte(a->k[0], mkConst(a->k[1]->c + b->c, w), mkConst(a->k[2]->c + b->c, w));
  } else {
    if (a->kind == Add && isC(a->k[1])) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
    if (b->kind == Add && isC(b->k[1])) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
    if (a->kind == Sub && a->k[1] == b) return a->k[0];
    if (b->kind == Sub && b->k[1] == a) return b->k[0];
  }
  if (w == 1) return mkXor(a, b);
  // disjoint bits -> or
  for (int s = 0; s < 2; s++) {
    E x = s ? b : a, y = s ? a : b;
    if (!isC(x) && !isC(y)) {
      unsigned tz = trailingZeros(x);
      if (tz > 0 && bitlen(y->umax) <= tz) return mkOr(x, y);
    }
  }
  // (x+y) - style: x + (0 - y)
  if (a->kind == Mul && isC(a->k[1]) && a->k[0] == b) return mkMul(b, mkConst(a->k[1]->c + 1, w));
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return mk(Add, w, a, b);
}
E mkSub(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(a->c - b->c, w);
  if (a == b) return mkConst(0, w);
  if (isC(b)) return mkAdd(a, mkConst(-b->c, w));
  if (isC(a) && b->kind == Add && isC(b->k[1])) return mkSub(mkConst(a->c - b->k[1]->c, w), b->k[0]);
  if (a->kind == Add) {
    if (a->k[0] == b) return a->k[1];
    if (a->k[1] == b) return a->k[0];
  }
  if (b->kind == Add && isC(b->k[1])) return mkAdd(mkSub(a, b->k[0]), mkConst(-b->k[1]->c, w));
  if (a->kind == Add && isC(a->k[1])) return mkAdd(mkSub(a->k[0], b), a->k[1]);
  if (b->kind == Add) {
    if (b->k[0] == a) return mkSub(mkConst(0, w), b->k[1]);
    if (b->k[1] == a) return mkSub(mkConst(0, w), b->k[0]);
  }
  if (w == 1) return mkXor(a, b);
  return mk(Sub, w, a, b);
}
E mkMul(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(a->c * b->c, w);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (b->c == 0) return b;
    if (b->c == 1) return a;
    if ((b->c & (b->c - 1)) == 0) return mkShl(a, mkConst(trailingZeros(b), w));
    if (a->kind == Mul && isC(a->k[1])) return mkMul(a->k[0], mkConst(a->k[1]->c * b->c, w));
  } else if (a->id > b->id) std::swap(a, b);
  {
    unsigned n = bitlen(a->umax) + bitlen(b->umax);
    if (n > 0 && n < w) return mkZExt(mkMul(mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
  }
  return mk(Mul, w, a, b);
}
static bool scaled(E a, E& x, u128& C, u128& r);
E mkUDiv(E a, E b) {
  unsigned w = a->width;
  if (isC(b) && b->c) {
    if (isC(a)) return mkConst(a->c / b->c, w);
    if (b->c == 1) return a;
    if ((b->c & (b->c - 1)) == 0) return mkLShr(a, mkConst(trailingZeros(b), w));
    if (a->umax < b->c) return mkConst(0, w);
    { E x; u128 C, r; if (scaled(a, x, C, r) && C == b->c && r < C) return x->width == w ? x : mkZExt(x, w); }
    if (a->kind == ZExt && b->c <= maskw(a->k[0]->width))
      return mkZExt(mkUDiv(a->k[0], mkConst(b->c, a->k[0]->width)), w);
  }
  if (b->umin > 0) {
    unsigned n = bitlen(a->umax) > bitlen(b->umax) ? bitlen(a->umax) : bitlen(b->umax);
    if (a->umax < b->umin) return mkConst(0, w);
    if (n > 0 && n < w) return mkZExt(mkUDiv(mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
  }
  return mk(UDiv, w, a, b);
}
E mkURem(E a, E b) {
  unsigned w = a->width;
  if (isC(b) && b->c) {
    if (isC(a)) return mkConst(a->c % b->c, w);
    if (b->c == 1) return mkConst(0, w);
    if ((b->c & (b->c - 1)) == 0) return mkAnd(a, mkConst(b->c - 1, w));
    if (a->umax < b->c) return a;
    if (a->kind == ZExt && b->c <= maskw(a->k[0]->width))
      return mkZExt(mkURem(a->k[0], mkConst(b->c, a->k[0]->width)), w);
  }
  if (b->umin > 0) {
    unsigned n = bitlen(a->umax) > bitlen(b->umax) ? bitlen(a->umax) : bitlen(b->umax);
    if (a->umax < b->umin) return a;
    if (n > 0 && n < w) return mkZExt(mkURem(mkExtract(a, 0, n), mkExtract(b, 0, n)), w);
  }
  return mk(URem, w, a, b);
}
static bool nonneg(E a) { return a->umax < ((u128)1 << (a->width - 1)); }
E mkSDiv(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b) && b->c) {
    s128 x = sgn(a->c, w), y = sgn(b->c, w);
    if (!(y == -1)) return mkConst((u128)(x / y), w);
    return mkConst(-a->c, w);
  }
  if (nonneg(a) && nonneg(b)) return mkUDiv(a, b);
  return mk(SDiv, w, a, b);
}
E mkSRem(E a, E b) {
  unsigned w = a->width;
  if (isC(a) && isC(b) && b->c) {
    s128 x = sgn(a->c, w), y = sgn(b->c, w);
    if (y == -1) return mkConst(0, w);
    return mkConst((u128)(x % y), w);
  }
  if (nonneg(a) && nonneg(b)) return mkURem(a, b);
  return mk(SRem, w, a, b);
}

// Splits e at bit position p (0<p<w) into hi/lo.
static inline E hiPart(E e, unsigned p) { return mkExtract(e, p, e->width - p); }
static inline E loPart(E e, unsigned p) { return mkExtract(e, 0, p); }
static bool splitPoint(E a, unsigned& p) {
  if (a->kind == Concat) { p = a->k[1]->width; return true; }
  if (a->kind == ZExt) { p = a->k[0]->width; return true; }
  return false;
}

E mkAnd(E a, E b) {
  unsigned w = a->width;
  if (a == b) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c & b->c, w);
    if (b->c == 0) return b;
    if (b->c == maskw(w)) return a;
    unsigned n = bitlen(b->c);
    if (n < w) return mkZExt(mkAnd(mkExtract(a, 0, n), mkConst(b->c, n)), w);
    unsigned tz = trailingZeros(b);
    if (tz) return mkConcat(mkAnd(hiPart(a, tz), mkConst(b->c >> tz, w - tz)), mkConst(0, tz));
    unsigned p;
    if (splitPoint(a, p)) return mkConcat(mkAnd(hiPart(a, p), hiPart(b, p)), mkAnd(loPart(a, p), loPart(b, p)));
    if (a->kind == And && isC(a->k[1])) return mkAnd(a->k[0], mkConst(a->k[1]->c & b->c, w));
  } else {
    if (w == 1) {
      if (a->kind == Not && a->k[0] == b) return mkFalse();
      if (b->kind == Not && b->k[0] == a) return mkFalse();
    }
    for (int s = 0; s < 2; s++) {
      E x = s ? b : a, y = s ? a : b;
      unsigned p;
      if (splitPoint(x, p)) {
        E h = hiPart(x, p), l = loPart(x, p);
        if ((isC(h) && (h->c == 0 || h->c == maskw(h->width))) || (isC(l) && (l->c == 0 || l->c == maskw(l->width))))
          return mkConcat(mkAnd(h, hiPart(y, p)), mkAnd(l, loPart(y, p)));
      }
    }
    if (a->id > b->id) std::swap(a, b);
  }
  return mk(And, w, a, b);
}
E mkOr(E a, E b) {
  unsigned w = a->width;
  if (a == b) return a;
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c | b->c, w);
    if (b->c == 0) return a;
    if (b->c == maskw(w)) return b;
    unsigned p;
    if (splitPoint(a, p)) return mkConcat(mkOr(hiPart(a, p), hiPart(b, p)), mkOr(loPart(a, p), loPart(b, p)));
    if (a->kind == Or && isC(a->k[1])) return mkOr(a->k[0], mkConst(a->k[1]->c | b->c, w));
    unsigned tz = trailingZeros(b);
    if (tz) return mkConcat(mkOr(hiPart(a, tz), hiPart(b, tz)), loPart(a, tz));
    unsigned n = bitlen(b->c);
    if (n < w) return mkConcat(hiPart(a, n), mkOr(loPart(a, n), loPart(b, n)));
  } else {
    if (w == 1) {
      if (a->kind == Not && a->k[0] == b) return mkTrue();
      if (b->kind == Not && b->k[0] == a) return mkTrue();
    }
    for (int s = 0; s < 2; s++) {
      E x = s ? b : a, y = s ? a : b;
      unsigned p;
      if (splitPoint(x, p)) {
        E h = hiPart(x, p), l = loPart(x, p);
        if ((isC(h) && (h->c == 0 || h->c == maskw(h->width))) || (isC(l) && (l->c == 0 || l->c == maskw(l->width))))
          return mkConcat(mkOr(h, hiPart(y, p)), mkOr(l, loPart(y, p)));
      }
    }
    if (a->id > b->id) std::swap(a, b);
  }
  return mk(Or, w, a, b);
}
E mkXor(E a, E b) {
  unsigned w = a->width;
  if (a == b) return mkConst(0, w);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c ^ b->c, w);
    if (b->c == 0) return a;
    if (b->c == maskw(w)) return mkNot(a);
    // x ^ (2^(w-1)-1) == (2^(w-1)-1) - x: keep overflow guards (MAX - x) arithmetic
    if ((w == 64 || w == 32) && b->c == (maskw(w) >> 1) && (a->kind == Add || a->kind == Sub || a->kind == ZExt)) return mkSub(b, a);
    unsigned p;
    if (splitPoint(a, p)) return mkConcat(mkXor(hiPart(a, p), hiPart(b, p)), mkXor(loPart(a, p), loPart(b, p)));
  } else if (a->id > b->id) std::swap(a, b);
  if (w == 1 && b->kind == Not) return mkNot(mkXor(a, b->k[0]));
  if (w == 1 && a->kind == Not) return mkNot(mkXor(a->k[0], b));
  return mk(Xor, w, a, b);
}
E mkNot(E a) {
  if (isC(a)) return mkConst(~a->c, a->width);
  if (a->kind == Not) return a->k[0];
  if (a->width > 1) {
    unsigned p;
    if (a->kind == Ite && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
    if (a->kind == Concat && splitPoint(a, p)) return mkConcat(mkNot(a->k[0]), mkNot(a->k[1]));
  }
  return mk(Not, a->width, a);
}
static bool constShift(E b, unsigned w, unsigned& n) {
  if (!isC(b)) return false;
  n = b->c >= w ? w : (unsigned)b->c;
  return true;
}
E mkShl(E a, E b) {
  unsigned w = a->width, n;
  if (constShift(b, w, n)) {
    if (n == 0) return a;
    if (n >= w) return mkConst(0, w);
    return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
  }
  if (isC(a) && a->c == 0) return a;
  return mk(Shl, w, a, b);
}
E mkLShr(E a, E b) {
  unsigned w = a->width, n;
  if (constShift(b, w, n)) {
    if (n == 0) return a;
    if (n >= w) return mkConst(0, w);
    return mkZExt(mkExtract(a, n, w - n), w);
  }
  if (isC(a) && a->c == 0) return a;
  return mk(LShr, w, a, b);
}
E mkAShr(E a, E b) {
  unsigned w = a->width, n;
  if (constShift(b, w, n)) {
    if (n == 0) return a;
    if (n >= w) n = w - 1;
    return mkSExt(mkExtract(a, n, w - n), w);
  }
  if (isC(a) && a->c == 0) return a;
  return mk(AShr, w, a, b);
}
static E noteWide(E r, Kind k, E a, E b);
static bool cancel(E& a, E& b, Kind kind);
// a = x * C + r without wrap-around, with x no wider than a.
static bool scaled(E a, E& x, u128& C, u128& r) {
  unsigned w = a->width;
  r = 0;
  if (w > 100) return false;
  while (a->kind == ZExt) a = a->k[0];
  if (a->kind == Add && isC(a->k[1])) { r = a->k[1]->c; a = a->k[0]; if (a->umax > maskw(a->width) - r) return false; }
  while (a->kind == ZExt) a = a->k[0];
  if (a->kind != Mul || !isC(a->k[1])) return false;
  x = a->k[0]; C = a->k[1]->c;
  return bitlen(x->umax) + bitlen(C) <= 120 && x->umax * C <= maskw(a->width);
}
static E sameW(E a, unsigned w) { return a->width == w ? a : mkZExt(a, w); }
E mkEq(E a, E b) {
  if (a == b) return mkTrue();
  unsigned w = a->width;
  if (isC(a)) std::swap(a, b);
  if (a->umax < b->umin || b->umax < a->umin) return mkFalse();
  { E x, y; u128 C, D, r, q;
    if (scaled(a, x, C, r)) {
      if (isC(b)) return b->c < r || (b->c - r) % C ? mkFalse() : mkEq(sameW(x, w), mkConst((b->c - r) / C, w));
      if (scaled(b, y, D, q) && C == D && r < C && q < C) return r == q ? mkEq(sameW(x, w), sameW(y, w)) : mkFalse();
    } }
  if (isC(b)) {
    if (isC(a)) return mkConst(a->c == b->c, 1);
    if (w == 1) return b->c ? a : mkNot(a);
    switch (a->kind) {
      case ZExt:
        if (b->c > maskw(a->k[0]->width)) return mkFalse();
        return mkEq(a->k[0], mkConst(b->c, a->k[0]->width));
      case SExt: {
        unsigned iw = a->k[0]->width;
        E t = mkConst(b->c, iw);
        if (((u128)sgn(t->c, iw) & maskw(w)) != b->c) return mkFalse();
        return mkEq(a->k[0], t);
      }
      case Concat:
        return mkAnd(mkEq(a->k[0], hiPart(b, a->k[1]->width)), mkEq(a->k[1], loPart(b, a->k[1]->width)));
      case Add:
        if (isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, w));
        break;
      case Sub:
        if (b->c == 0) return mkEq(a->k[0], a->k[1]);
        if (isC(a->k[0])) return mkEq(a->k[1], mkConst(a->k[0]->c - b->c, w));
        break;
      case Xor:
        if (isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, w));
        if (b->c == 0) return mkEq(a->k[0], a->k[1]);
        break;
      case Not: return mkEq(a->k[0], mkConst(~b->c, w));
      case Ite: {
        E x = a->k[1], y = a->k[2];
        bool ex = isC(x) ? true : false, ey = isC(y) ? true : false;
        if (ex || ey || x->kind == Ite || y->kind == Ite)
          return mkIte(a->k[0], mkEq(x, b), mkEq(y, b));
        break;
      }
      default: break;
    }
  } else {
    if (a->kind == ZExt && b->kind == ZExt) {
      unsigned iw = a->k[0]->width > b->k[0]->width ? a->k[0]->width : b->k[0]->width;
      return mkEq(mkZExt(a->k[0], iw), mkZExt(b->k[0], iw));
    }
    if (a->kind == Concat && b->kind == Concat && a->k[1]->width == b->k[1]->width)
      return mkAnd(mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
    for (int s = 0; s < 2; s++) {
      E x = s ? b : a, y = s ? a : b;
      if (x->kind == ZExt && (y->kind == Concat)) {
        unsigned p = x->k[0]->width;
        return mkAnd(mkEq(hiPart(y, p), mkConst(0, w - p)), mkEq(loPart(y, p), x->k[0]));
      }
      if (x->kind == Add && x->k[0] == y) return mkEq(x->k[1], mkConst(0, w));
      if (x->kind == Add && x->k[1] == y) return mkEq(x->k[0], mkConst(0, w));
    }
    if (a->kind == Add && b->kind == Add && isC(a->k[1]) && isC(b->k[1])) {
      if (a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
    }
    if (a->kind == Ite && b->kind == Ite && a->k[0] == b->k[0])
      return mkIte(a->k[0], mkEq(a->k[1], b->k[1]), mkEq(a->k[2], b->k[2]));
    if (w == 1) {
      return mkNot(mkXor(a, b));
    }
  }
  if (!isC(a) && !isC(b)) { E p = a, q = b; if (cancel(p, q, Eq)) return mkEq(p, q); }
  if (w <= 100) {
    if (a->smax < b->smin || b->smax < a->smin) return mkFalse();
    unsigned na = sbits(a), nb = sbits(b), n = na > nb ? na : nb;
    if (n < w) return noteWide(mkEq(mkExtract(a, 0, n), mkExtract(b, 0, n)), Eq, a, b);
  }
  if (!isC(b) && a->id > b->id) std::swap(a, b);
  return mk(Eq, 1, a, b);
}
static std::unordered_map<uint32_t, std::vector<std::pair<E, bool>>> wideOf;
const std::vector<std::pair<E, bool>>* wideForms(E e) {
  auto it = wideOf.find(e->id);
  return it == wideOf.end() ? nullptr : &it->second;
}
static E noteWide(E r, Kind k, E a, E b) {
  if (isC(r)) return r;
  bool neg = false;
  E base = r;
  if (r->kind == Not) { neg = true; base = r->k[0]; }
  auto& v = wideOf[base->id];
  E raw = mk(k, 1, a, b);
  for (auto& p : v) if (p.first == raw) return r;
  if (v.size() < 4) v.push_back({raw, neg});
  return r;
}
// Linear forms.  lin() rewrites e as c + sum(coef * leaf) modulo 2^w.
struct Lin { std::vector<std::pair<E, s128>> t; s128 c = 0; bool ok = true; };
static void lin(E e, s128 k, Lin& l, int& budget) {
  if (!l.ok || --budget < 0) { l.ok = false; return; }
  if (isC(e)) { l.c += k * e->smin; }
  else if (e->kind == Add) { lin(e->k[0], k, l, budget); lin(e->k[1], k, l, budget); return; }
  else if (e->kind == Sub) { lin(e->k[0], k, l, budget); lin(e->k[1], -k, l, budget); return; }
  else if (e->kind == Mul && isC(e->k[1]) && e->k[1]->smin > -4096 && e->k[1]->smin < 4096) { lin(e->k[0], k * e->k[1]->smin, l, budget); return; }
  else {
    for (auto& p : l.t) if (p.first == e) { p.second += k; return; }
    l.t.push_back({e, k});
  }
  if (k > 65536 || k < -65536) l.ok = false;
}
static void linRange(const Lin& l, s128& lo, s128& hi) {
  lo = hi = l.c;
  for (auto& p : l.t) {
    if (p.second >= 0) { lo += p.second * p.first->smin; hi += p.second * p.first->smax; }
    else { lo += p.second * p.first->smax; hi += p.second * p.first->smin; }
  }
}
// Cancels addends common to a and b.  kind Eq: always exact modulo 2^w.  Slt/Ult: only when both
// sums are exact (no wrap).  Returns false if nothing can be cancelled.
static bool cancel(E& a, E& b, Kind kind) {
  unsigned w = a->width;
  if (w > 72 || w < 8) return false;
  if (!(a->kind == Add || a->kind == Sub || b->kind == Add || b->kind == Sub)) return false;
  if (isC(a) || isC(b)) return false;
  Lin x, y;
  int budget = 64;
  lin(a, 1, x, budget);
  lin(b, 1, y, budget);
  if (!x.ok || !y.ok) return false;
  bool common = false;
  for (auto& p : x.t) for (auto& q : y.t) if (p.first == q.first && p.second && q.second) common = true;
  if (!common) return false;
  s128 half = (s128)1 << (w - 1), lo, hi;
  if (kind != Eq) {
    for (int s = 0; s < 2; s++) {
      linRange(s ? y : x, lo, hi);
      if (kind == Slt ? (lo < -half || hi >= half) : (lo < 0 || hi >= 2 * half)) return false;
    }
  }
  Lin d = x;
  d.c -= y.c;
  for (auto& q : y.t) {
    bool f = false;
    for (auto& p : d.t) if (p.first == q.first) { p.second -= q.second; f = true; }
    if (!f) d.t.push_back({q.first, -q.second});
  }
  Lin L, R;
  for (auto& p : d.t) { if (p.second > 0) L.t.push_back(p); else if (p.second < 0) R.t.push_back({p.first, -p.second}); }
  if (d.c > 0) L.c = d.c; else R.c = -d.c;
  if (L.t.size() + R.t.size() >= x.t.size() + y.t.size()) return false;
  if (kind != Eq) {
    for (int s = 0; s < 2; s++) {
      linRange(s ? R : L, lo, hi);
      if (kind == Slt ? (lo < -half || hi >= half) : (lo < 0 || hi >= 2 * half)) return false;
    }
  }
  auto build = [&](const Lin& l) {
    E r = mkConst(0, w);
    for (auto& p : l.t) r = mkAdd(r, mkMul(p.first, mkConst((u128)p.second, w)));
    return mkAdd(r, mkConst((u128)l.c, w));
  };
  a = build(L);
  b = build(R);
  return true;
}
E mkUlt(E a, E b) {
  if (a == b) return mkFalse();
  { E p = a, q = b; if (cancel(p, q, Ult)) return noteWide(mkUlt(p, q), Ult, a, b); }
  if (a->umax < b->umin) return mkTrue();
  if (a->umin >= b->umax) return mkFalse();
  { E x, y; u128 C, D, r, q; unsigned w = a->width;
    if (scaled(a, x, C, r)) {
      if (isC(b)) return b->c <= r ? mkFalse() : mkUlt(sameW(x, w), mkConst((b->c - r + C - 1) / C, w));
      if (scaled(b, y, D, q) && C == D && r < C && q < C) return r < q ? mkNot(mkUlt(sameW(y, w), sameW(x, w))) : mkUlt(sameW(x, w), sameW(y, w));
    } else if (isC(a) && scaled(b, y, D, q)) return a->c < q ? mkTrue() : mkUlt(mkConst((a->c - q) / D, w), sameW(y, w));
  }
  if (isC(b) && b->c == 1) return mkEq(a, mkConst(0, a->width));
  if (isC(a) && a->c == 0) return mkNot(mkEq(b, a));
  unsigned w = a->width;
  // narrow
  unsigned na = a->kind == ZExt ? a->k[0]->width : isC(a) ? bitlen(a->c) : w;
  unsigned nb = b->kind == ZExt ? b->k[0]->width : isC(b) ? bitlen(b->c) : w;
  if (unsigned x = bitlen(a->umax); x < na) na = x;
  if (unsigned x = bitlen(b->umax); x < nb) nb = x;
  unsigned n = na > nb ? na : nb;
  if (n == 0) n = 1;
  if (n < w) return noteWide(mkUlt(mkExtract(a, 0, n), mkExtract(b, 0, n)), Ult, a, b);
  if (w == 1) return mkAnd(mkNot(a), b);
  if (isC(b) && a->kind == Concat) {  // compare hi parts when lo is irrelevant
    unsigned p = a->k[1]->width;
    if ((b->c & maskw(p)) == 0) return mkUlt(a->k[0], hiPart(b, p));
  }
  if (isC(a) && b->kind == Concat) {
    unsigned p = b->k[1]->width;
    if ((a->c & maskw(p)) == maskw(p)) return mkUlt(hiPart(a, p), b->k[0]);
  }
  if (a->kind == Ite && isC(b) && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
  if (b->kind == Ite && isC(a) && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
  return mk(Ult, 1, a, b);
}
E mkSlt(E a, E b) {
  if (a == b) return mkFalse();
  { E p = a, q = b; if (cancel(p, q, Slt)) return noteWide(mkSlt(p, q), Slt, a, b); }
  unsigned w = a->width;
  if (isC(a) && isC(b)) return mkConst(sgn(a->c, w) < sgn(b->c, w), 1);
  if (w == 1) return mkAnd(a, mkNot(b));
  u128 half = (u128)1 << (w - 1);
  bool an = a->umax < half, bn = b->umax < half, aneg = a->umin >= half, bneg = b->umin >= half;
  if ((an && bn) || (aneg && bneg)) return mkUlt(a, b);
  if (an && bneg) return mkFalse();
  if (aneg && bn) return mkTrue();
  if (a->smax < b->smin) return mkTrue();
  if (a->smin >= b->smax) return mkFalse();
  {
    unsigned na = sbits(a), nb = sbits(b), n = na > nb ? na : nb;
    if (n < w) return noteWide(mkSlt(mkExtract(a, 0, n), mkExtract(b, 0, n)), Slt, a, b);
  }
  if (isC(b) && b->c == 0) return mkExtract(a, w - 1, 1);
  if (isC(a) && a->c == maskw(w)) return mkNot(mkExtract(b, w - 1, 1));
  if (a->kind == SExt && b->kind == SExt && a->k[0]->width == b->k[0]->width) return mkSlt(a->k[0], b->k[0]);
  if (a->kind == SExt && isC(b)) {
    unsigned iw = a->k[0]->width;
    s128 v = sgn(b->c, w);
    s128 mx = ((s128)1 << (iw - 1)) - 1, mn = -((s128)1 << (iw - 1));
    if (v > mx) return mkTrue();
    if (v < mn) return mkFalse();
    return mkSlt(a->k[0], mkConst((u128)v, iw));
  }
  if (b->kind == SExt && isC(a)) {
    unsigned iw = b->k[0]->width;
    s128 v = sgn(a->c, w);
    s128 mx = ((s128)1 << (iw - 1)) - 1, mn = -((s128)1 << (iw - 1));
    if (v >= mx) return mkFalse();
    if (v < mn) return mkTrue();
    return mkSlt(mkConst((u128)v, iw), b->k[0]);
  }
  if (a->kind == Ite && isC(b) && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
  if (b->kind == Ite && isC(a) && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
  return mk(Slt, 1, a, b);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->kind == Not) return mkIte(c->k[0], b, a);
  if (a->kind == Ite && a->k[0] == c) a = a->k[1];
  if (b->kind == Ite && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (a->width == 1) {
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (a->kind == ZExt && b->kind == ZExt && a->k[0]->width == b->k[0]->width)
    return mkZExt(mkIte(c, a->k[0], b->k[0]), a->width);
  return mk(Ite, a->width, c, a, b);
}
// Try to merge adjacent hi/lo into a single non-concat expression.
static E tryMerge(E hi, E lo) {
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->width) | lo->c, hi->width + lo->width);
  E hb = hi, lb = lo;
  unsigned ho = 0, loff = 0;
  if (hi->kind == Extract) { hb = hi->k[0]; ho = hi->aux; } else return nullptr;
  if (lo->kind == Extract) { lb = lo->k[0]; loff = lo->aux; }
  if (hb == lb && ho == loff + lo->width) return mkExtract(hb, loff, hi->width + lo->width);
  if (ho == lo->width && (hb->kind == Add || hb->kind == Sub || hb->kind == Mul || hb->kind == Ite) && mkExtract(hb, 0, ho) == lo)
    return mkExtract(hb, 0, hi->width + lo->width);
  return nullptr;
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->width + lo->width;
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->kind == ZExt) return mkZExt(mkConcat(hi->k[0], lo), w);
  if (E m = tryMerge(hi, lo)) return m;
  if (hi->kind == Concat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (lo->kind == Concat) {
    if (E m = tryMerge(hi, lo->k[0])) return mkConcat(m, lo->k[1]);
  }
  if (hi->kind == Ite && lo->kind == Ite && hi->k[0] == lo->k[0])
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
  if (hi->kind == Ite && isC(lo) && isC(hi->k[1]) && isC(hi->k[2]))
    return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
  // sign extension pattern: concat(extract of SExt...) handled by Extract merge
  return mk(Concat, w, hi, lo);
}
E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->width) return a;
  switch (a->kind) {
    case Const: return mkConst(a->c >> off, w);
    case Extract: return mkExtract(a->k[0], a->aux + off, w);
    case Concat: {
      unsigned lw = a->k[1]->width;
      if (off + w <= lw) return mkExtract(a->k[1], off, w);
      if (off >= lw) return mkExtract(a->k[0], off - lw, w);
      return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
    }
    case ZExt: {
      unsigned iw = a->k[0]->width;
      if (off >= iw) return mkConst(0, w);
      if (off + w <= iw) return mkExtract(a->k[0], off, w);
      return mkZExt(mkExtract(a->k[0], off, iw - off), w);
    }
    case SExt: {
      unsigned iw = a->k[0]->width;
      if (off + w <= iw) return mkExtract(a->k[0], off, w);
      if (off == 0) return mkSExt(a->k[0], w);
      break;
    }
    case And: return mkAnd(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    case Or: return mkOr(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    case Xor: return mkXor(mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
    case Not: return mkNot(mkExtract(a->k[0], off, w));
    case Add: if (off == 0) return mkAdd(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case Sub: if (off == 0) return mkSub(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case Mul: if (off == 0) return mkMul(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case Ite:
      if (isC(a->k[1]) || isC(a->k[2]) || off == 0)
        return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
      break;
    default: break;
  }
  if (a->umax < ((u128)1 << off) && off < 128) return mkConst(0, w);
  return mk(Extract, w, a, nullptr, nullptr, off);
}
E mkZExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->kind == ZExt) return mkZExt(a->k[0], w);
  if (a->kind == Ite && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->c, w), mkConst(a->k[2]->c, w));
  return mk(ZExt, w, a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->width) return a;
  if (isC(a)) return mkConst((u128)sgn(a->c, a->width), w);
  if (a->kind == SExt) return mkSExt(a->k[0], w);
  if (nonneg(a)) return mkZExt(a, w);
  if (a->width == 1) return mkIte(a, mkConst(maskw(w), w), mkConst(0, w));
  return mk(SExt, w, a);
}

// ---- floating point ----
static float asF(u128 v) { uint32_t b = (uint32_t)v; float f; memcpy(&f, &b, 4); return f; }
static double asD(u128 v) { uint64_t b = (uint64_t)v; double f; memcpy(&f, &b, 8); return f; }
static u128 bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static u128 bits(double f) { uint64_t b; memcpy(&b, &f, 8); return b; }
template <class T> static u128 fop(Kind k, T a, T b, unsigned w, unsigned aux) {
  switch (k) {
    case FAdd: return bits((T)(a + b));
    case FSub: return bits((T)(a - b));
    case FMul: return bits((T)(a * b));
    case FDiv: return bits((T)(a / b));
    case FRem: return bits((T)std::fmod(a, b));
    case FSqrt: return bits((T)std::sqrt(a));
    case FRnd:
      switch (aux) {
        case 0: return bits((T)std::floor(a));
        case 1: return bits((T)std::ceil(a));
        case 2: return bits((T)std::trunc(a));
        case 3: return bits((T)std::nearbyint(a));
        default: return bits((T)std::round(a));
      }
    case FLt: return a < b;
    case FLe: return a <= b;
    case FEq: return a == b;
    case FNan: return a != a;
    case F2SI: {
      if (w <= 32) { if (!(a >= -2147483648.0 && a < 2147483648.0)) return ((u128)1 << (w - 1)); return (u128)(s128)(int64_t)a & maskw(w); }
      if (!(a >= -9223372036854775808.0 && a < 9223372036854775808.0)) return (u128)1 << 63;
      return (u128)(s128)(int64_t)a & maskw(w);
    }
    case F2UI: {
      if (!(a > -1.0 && a < 18446744073709551616.0)) return (u128)1 << (w - 1);
      return (u128)(uint64_t)a & maskw(w);
    }
    default: return 0;
  }
}
u128 foldF(Kind k, u128 a, u128 b, unsigned opw, unsigned w, unsigned aux) {
  switch (k) {
    case SI2F: {
      s128 v = sgn(a, opw);
      return w == 32 ? bits((float)(int64_t)v) : bits((double)(int64_t)v);
    }
    case UI2F: return w == 32 ? bits((float)(uint64_t)a) : bits((double)(uint64_t)a);
    case FCvt:
      if (opw == w) return a;
      return opw == 32 ? bits((double)asF(a)) : bits((float)asD(a));
    default: break;
  }
  return opw == 32 ? fop<float>(k, asF(a), asF(b), w, aux) : fop<double>(k, asD(a), asD(b), w, aux);
}
// Floating-point chains that are monotone functions of one integer expression (IEEE operations
// round monotonically): comparisons with constants become integer comparisons with a threshold.
struct Mono { E x = nullptr; int dir = 0; bool sg = false, ok = false; };
static u128 fAt(E e, E x, s128 v) {
  if (e == x) return (u128)v & maskw(x->width);
  if (isC(e)) return e->c;
  u128 a = fAt(e->k[0], x, v), b = e->k[1] ? fAt(e->k[1], x, v) : 0;
  return foldF(e->kind, a, b, e->k[0]->width, e->width, e->aux);
}
static double fVal(u128 v, unsigned w) { return w == 32 ? (double)asF(v) : asD(v); }
static void xRange(const Mono& m, s128& lo, s128& hi) {
  if (m.sg) { lo = m.x->smin; hi = m.x->smax; }
  else { lo = (s128)m.x->umin; hi = (s128)m.x->umax; }
}
static Mono mono(E e, int d = 12) {
  Mono r;
  if (d <= 0) return r;
  if (isC(e)) { r.ok = std::isfinite(fVal(e->c, e->width)); return r; }
  if (e->kind == SI2F || e->kind == UI2F) {
    if (e->k[0]->fp || e->k[0]->width > 64) return r;
    r.x = e->k[0]; r.dir = 1; r.sg = e->kind == SI2F && e->k[0]->smin < 0; r.ok = true;
    if (e->kind == UI2F && e->k[0]->umax >= ((u128)1 << 63)) r.sg = false;
    return r;
  }
  if (e->kind == FCvt || e->kind == FRnd) {
    r = mono(e->k[0], d - 1);
  } else if (e->kind == FAdd || e->kind == FSub || e->kind == FMul || e->kind == FDiv) {
    Mono a = mono(e->k[0], d - 1), b = mono(e->k[1], d - 1);
    if (!a.ok || !b.ok) return r;
    if (a.x && b.x && (a.x != b.x || a.sg != b.sg)) return r;
    r.x = a.x ? a.x : b.x;
    r.sg = a.x ? a.sg : b.sg;
    if (e->kind == FAdd || e->kind == FSub) {
      int bd = e->kind == FSub ? -b.dir : b.dir;
      if (a.dir && bd && a.dir != bd) return r;
      r.dir = a.dir ? a.dir : bd;
    } else {
      if (a.x && b.x) return r;
      E ce = a.x ? e->k[1] : e->k[0];
      double c = fVal(ce->c, ce->width);
      if (!(c > 0 || c < 0)) return r;
      int sgn_ = c > 0 ? 1 : -1;
      if (a.x) r.dir = a.dir * sgn_;                       // m*c, m/c
      else if (e->kind == FMul) r.dir = b.dir * sgn_;
      else {                                               // c/m: m must not change sign
        s128 lo, hi;
        xRange(b, lo, hi);
        double p = fVal(fAt(e->k[1], b.x, lo), e->width), q = fVal(fAt(e->k[1], b.x, hi), e->width);
        if (!((p > 0 && q > 0) || (p < 0 && q < 0))) return r;
        r.dir = -b.dir * sgn_;
      }
    }
    r.ok = true;
  } else return r;
  if (r.ok && r.x) {
    s128 lo, hi;
    xRange(r, lo, hi);
    if (!std::isfinite(fVal(fAt(e, r.x, lo), e->width)) || !std::isfinite(fVal(fAt(e, r.x, hi), e->width))) r.ok = false;
  }
  return r;
}
static E monoCmp(Kind k, E a, E b) {
  bool left = isC(b);
  if (!left && !isC(a)) return nullptr;
  E e = left ? a : b, c = left ? b : a;
  double cv = fVal(c->c, c->width);
  if (cv != cv) return mkFalse();
  Mono m = mono(e);
  if (!m.ok || !m.x) return nullptr;
  if (k == FEq) {
    E le = monoCmp(FLe, e, c), ge = monoCmp(FLe, c, e);
    return le && ge ? mkAnd(le, ge) : nullptr;
  }
  s128 lo, hi;
  xRange(m, lo, hi);
  auto pred = [&](s128 v) {
    double f = fVal(fAt(e, m.x, v), e->width);
    double p = left ? f : cv, q = left ? cv : f;
    return k == FLt ? p < q : p <= q;
  };
  bool pl = pred(lo), ph = pred(hi);
  if (pl == ph) return pl ? mkTrue() : mkFalse();
  while (hi - lo > 1) {
    s128 mid = lo + (hi - lo) / 2;
    if (pred(mid) == ph) hi = mid; else lo = mid;
  }
  E t = mkConst((u128)hi, m.x->width);
  E lt = m.sg ? mkSlt(m.x, t) : mkUlt(m.x, t);
  return ph ? mkNot(lt) : lt;
}

E mkF(Kind k, E a, E b, unsigned w, unsigned aux) {
  if (isC(a) && (!b || isC(b))) return mkConst(foldF(k, a->c, b ? b->c : 0, a->width, w, aux), w);
  if (k == FLt || k == FLe || k == FEq) { if (E r = monoCmp(k, a, b)) return r; }
  if (k == FNan) { Mono m = mono(a); if (m.ok) return mkFalse(); }
  return mk(k, w, a, b, nullptr, aux);
}

// ---- evaluation ----
static uint64_t modelCounter = 0;
Model::Model() : uid(++modelCounter) {}
Model::Model(const Model& o) : v(o.v), uid(++modelCounter) {}

static std::vector<u128> evVal;
static std::vector<uint64_t> evEp;
static u128 ev(E e, const Model& m) {
  if (e->kind == Const) return e->c;
  if (e->id >= evEp.size()) { evVal.resize(g_nexprs + 65536); evEp.resize(g_nexprs + 65536, 0); }
  if (evEp[e->id] == m.uid) return evVal[e->id];
  unsigned w = e->width;
  u128 r = 0;
  switch (e->kind) {
    case Sym: r = m.get(e->aux); break;
    case Ite: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
    default: {
      u128 a = ev(e->k[0], m), b = e->k[1] ? ev(e->k[1], m) : 0;
      unsigned aw = e->k[0]->width;
      switch (e->kind) {
        case Add: r = a + b; break;
        case Sub: r = a - b; break;
        case Mul: r = a * b; break;
        case UDiv: r = b ? a / b : maskw(w); break;
        case URem: r = b ? a % b : a; break;
        case SDiv: {
          s128 x = sgn(a, w), y = sgn(b, w);
          if (y == 0) r = x < 0 ? 1 : maskw(w);
          else if (y == -1) r = -a;
          else r = (u128)(x / y);
          break;
        }
        case SRem: {
          s128 x = sgn(a, w), y = sgn(b, w);
          if (y == 0) r = a; else if (y == -1) r = 0; else r = (u128)(x % y);
          break;
        }
        case And: r = a & b; break;
        case Or: r = a | b; break;
        case Xor: r = a ^ b; break;
        case Shl: r = b >= w ? 0 : a << b; break;
        case LShr: r = b >= w ? 0 : a >> b; break;
        case AShr: r = (u128)(sgn(a, w) >> (b >= w ? w - 1 : (unsigned)b)); break;
        case Eq: r = a == b; break;
        case Ult: r = a < b; break;
        case Slt: r = sgn(a, aw) < sgn(b, aw); break;
        case Not: r = ~a; break;
        case Concat: r = (a << e->k[1]->width) | b; break;
        case Extract: r = a >> e->aux; break;
        case ZExt: r = a; break;
        case SExt: r = (u128)sgn(a, aw); break;
        default: r = foldF(e->kind, a, b, aw, w, e->aux); break;
      }
    }
  }
  r &= maskw(w);
  if (e->id >= evEp.size()) { evVal.resize(g_nexprs + 65536); evEp.resize(g_nexprs + 65536, 0); }
  evVal[e->id] = r;
  evEp[e->id] = m.uid;
  return r;
}
u128 evalExpr(E e, const Model& m) { return ev(e, m); }

static const char* kn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","slt","not","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fsqrt","frnd","flt","fle","feq","fnan","f2si","f2ui","si2f","ui2f","fcvt"};
std::string exprStr(E e, int d) {
  if (e->kind == Const) { char b[64]; snprintf(b, sizeof b, "0x%llx:%u", (unsigned long long)e->c, e->width); return b; }
  if (e->kind == Sym) return g_syms[e->aux].name;
  if (d <= 0) return "...";
  std::string s = std::string("(") + kn[e->kind];
  if (e->kind == Extract) s += "[" + std::to_string(e->aux) + "+" + std::to_string(e->width) + "]";
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
