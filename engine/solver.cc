#include "solver.h"

#include <sys/time.h>
#include <unistd.h>
#include <z3.h>

#include <algorithm>
#include <cstdio>
#include <deque>

SolverStats g_ss;
int g_queryTimeoutMs = 60000;
int g_crossEvery = 0;
const char* g_dumpDir = nullptr;

static Z3_context C = nullptr;
static std::vector<Z3_ast> astOf;
static Z3_solver incS = nullptr;
static std::vector<uint32_t> incStack;
static size_t incAsserts = 0;

static double now() {
  timeval t;
  gettimeofday(&t, nullptr);
  return t.tv_sec + t.tv_usec * 1e-6;
}

static void err(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  if (e != Z3_EXCEPTION && e != Z3_MEMOUT_FAIL) _exit(98);
}

static void init() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);  // plain context: asts stay alive as long as pushed; no GC of asts at scope 0
  Z3_set_error_handler(C, err);
  Z3_del_config(cfg);
}

static Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(C, w); }
static Z3_ast numeral(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(C, (uint64_t)v, bv(w));
  Z3_ast hi = Z3_mk_unsigned_int64(C, (uint64_t)(v >> 64), bv(w - 64));
  Z3_ast lo = Z3_mk_unsigned_int64(C, (uint64_t)v, bv(64));
  return Z3_mk_concat(C, hi, lo);
}
static Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_single(C) : Z3_mk_fpa_sort_double(C); }
static Z3_ast toFP(Z3_ast a, unsigned w) { return Z3_mk_fpa_to_fp_bv(C, a, fps(w)); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(C, b, numeral(1, 1), numeral(0, 1)); }

// Boolean view of a width-1 expression, bit-vector view of any.
static Z3_ast tr(E e);
static std::vector<Z3_ast> boolOf;
static Z3_ast trB(E e) {
  if (e->id >= boolOf.size()) boolOf.resize(std::max<size_t>(e->id + 1, boolOf.size() * 2 + 1024), nullptr);
  if (boolOf[e->id]) return boolOf[e->id];
  Z3_ast r;
  switch (e->kind) {
    case Const: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case Eq: r = Z3_mk_eq(C, tr(e->k[0]), tr(e->k[1])); break;
    case Ult: r = Z3_mk_bvult(C, tr(e->k[0]), tr(e->k[1])); break;
    case Slt: r = Z3_mk_bvslt(C, tr(e->k[0]), tr(e->k[1])); break;
    case Not: r = Z3_mk_not(C, trB(e->k[0])); break;
    case And: { Z3_ast x[2] = {trB(e->k[0]), trB(e->k[1])}; r = Z3_mk_and(C, 2, x); break; }
    case Or: { Z3_ast x[2] = {trB(e->k[0]), trB(e->k[1])}; r = Z3_mk_or(C, 2, x); break; }
    case Xor: r = Z3_mk_xor(C, trB(e->k[0]), trB(e->k[1])); break;
    case Ite: r = Z3_mk_ite(C, trB(e->k[0]), trB(e->k[1]), trB(e->k[2])); break;
    case FLt: r = Z3_mk_fpa_lt(C, toFP(tr(e->k[0]), e->k[0]->width), toFP(tr(e->k[1]), e->k[1]->width)); break;
    case FLe: r = Z3_mk_fpa_leq(C, toFP(tr(e->k[0]), e->k[0]->width), toFP(tr(e->k[1]), e->k[1]->width)); break;
    case FEq: r = Z3_mk_fpa_eq(C, toFP(tr(e->k[0]), e->k[0]->width), toFP(tr(e->k[1]), e->k[1]->width)); break;
    case FNan: r = Z3_mk_fpa_is_nan(C, toFP(tr(e->k[0]), e->k[0]->width)); break;
    default: r = Z3_mk_eq(C, tr(e), numeral(1, 1)); break;
  }
  Z3_inc_ref(C, r);
  if (e->id >= boolOf.size()) boolOf.resize(e->id + 1024, nullptr);
  boolOf[e->id] = r;
  return r;
}
static Z3_ast tr(E e) {
  if (e->id >= astOf.size()) astOf.resize(std::max<size_t>(e->id + 1, astOf.size() * 2 + 1024), nullptr);
  if (astOf[e->id]) return astOf[e->id];
  Z3_ast r = nullptr;
  unsigned w = e->width;
  auto k = [&](int i) { return tr(e->k[i]); };
  switch (e->kind) {
    case Const: r = numeral(e->c, w); break;
    case Sym: {
      Z3_symbol s = Z3_mk_int_symbol(C, e->aux);
      r = Z3_mk_const(C, s, bv(w));
      break;
    }
    case Add: r = Z3_mk_bvadd(C, k(0), k(1)); break;
    case Sub: r = Z3_mk_bvsub(C, k(0), k(1)); break;
    case Mul: r = Z3_mk_bvmul(C, k(0), k(1)); break;
    case UDiv: r = Z3_mk_bvudiv(C, k(0), k(1)); break;
    case SDiv: r = Z3_mk_bvsdiv(C, k(0), k(1)); break;
    case URem: r = Z3_mk_bvurem(C, k(0), k(1)); break;
    case SRem: r = Z3_mk_bvsrem(C, k(0), k(1)); break;
    case Shl: r = Z3_mk_bvshl(C, k(0), k(1)); break;
    case LShr: r = Z3_mk_bvlshr(C, k(0), k(1)); break;
    case AShr: r = Z3_mk_bvashr(C, k(0), k(1)); break;
    case And: if (w > 1) r = Z3_mk_bvand(C, k(0), k(1)); break;
    case Or: if (w > 1) r = Z3_mk_bvor(C, k(0), k(1)); break;
    case Xor: if (w > 1) r = Z3_mk_bvxor(C, k(0), k(1)); break;
    case Not: if (w > 1) r = Z3_mk_bvnot(C, k(0)); break;
    case Ite: if (w > 1) r = Z3_mk_ite(C, trB(e->k[0]), k(1), k(2)); break;
    case Concat: r = Z3_mk_concat(C, k(0), k(1)); break;
    case Extract: r = Z3_mk_extract(C, e->aux + w - 1, e->aux, k(0)); break;
    case ZExt: r = Z3_mk_zero_ext(C, w - e->k[0]->width, k(0)); break;
    case SExt: r = Z3_mk_sign_ext(C, w - e->k[0]->width, k(0)); break;
    default: {
      unsigned ow = e->k[0]->width;
      Z3_ast rm = Z3_mk_fpa_rne(C);
      Z3_ast rz = Z3_mk_fpa_rtz(C);
      auto f = [&](int i) { return toFP(k(i), e->k[i]->width); };
      Z3_ast x = nullptr;
      switch (e->kind) {
        case FAdd: x = Z3_mk_fpa_add(C, rm, f(0), f(1)); break;
        case FSub: x = Z3_mk_fpa_sub(C, rm, f(0), f(1)); break;
        case FMul: x = Z3_mk_fpa_mul(C, rm, f(0), f(1)); break;
        case FDiv: x = Z3_mk_fpa_div(C, rm, f(0), f(1)); break;
        case FRem: x = Z3_mk_fpa_rem(C, f(0), f(1)); break;
        case FSqrt: x = Z3_mk_fpa_sqrt(C, rm, f(0)); break;
        case FRnd: {
          Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rtn(C) : e->aux == 1 ? Z3_mk_fpa_rtp(C) : e->aux == 2 ? rz : e->aux == 3 ? rm : Z3_mk_fpa_rna(C);
          x = Z3_mk_fpa_round_to_integral(C, m, f(0));
          break;
        }
        case SI2F: x = Z3_mk_fpa_to_fp_signed(C, rm, k(0), fps(w)); break;
        case UI2F: x = Z3_mk_fpa_to_fp_unsigned(C, rm, k(0), fps(w)); break;
        case FCvt: x = Z3_mk_fpa_to_fp_float(C, rm, f(0), fps(w)); break;
        case F2SI: r = Z3_mk_fpa_to_sbv(C, rz, f(0), w); break;
        case F2UI: r = Z3_mk_fpa_to_ubv(C, rz, f(0), w); break;
        default: break;
      }
      (void)ow;
      if (x) r = Z3_mk_fpa_to_ieee_bv(C, x);
      break;
    }
  }
  if (!r) r = b2bv(trB(e));
  Z3_inc_ref(C, r);
  if (e->id >= astOf.size()) astOf.resize(e->id + 1024, nullptr);
  astOf[e->id] = r;
  return r;
}

struct VecHash {
  size_t operator()(const std::vector<uint32_t>& v) const {
    uint64_t h = 1469598103934665603ull;
    for (uint32_t x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 27; }
    return h;
  }
};
struct CacheEnt { Res r; std::shared_ptr<std::unordered_map<uint32_t, u128>> m; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;
static std::deque<Model*> recent;

static void readModel(Z3_model m, const std::vector<E>& cs, E extra, std::unordered_map<uint32_t, u128>& out) {
  const SymSet* s = extra ? extra->syms : nullptr;
  std::vector<uint32_t> all;
  if (s) all = s->v;
  for (E c : cs) all.insert(all.end(), c->syms->v.begin(), c->syms->v.end());
  std::sort(all.begin(), all.end());
  all.erase(std::unique(all.begin(), all.end()), all.end());
  for (uint32_t i : all) {
    Z3_ast v = nullptr;
    unsigned w = g_syms[i].width;
    if (w <= 64) {
      uint64_t x = 0;
      if (Z3_model_eval(C, m, tr(g_syms[i].e), true, &v) && Z3_get_numeral_uint64(C, v, &x)) out[i] = x;
      else out[i] = 0;
    } else {
      u128 r = 0;
      uint64_t x = 0;
      Z3_ast hi = Z3_mk_extract(C, w - 1, 64, tr(g_syms[i].e)), lo = Z3_mk_extract(C, 63, 0, tr(g_syms[i].e));
      if (Z3_model_eval(C, m, hi, true, &v) && Z3_get_numeral_uint64(C, v, &x)) r = (u128)x << 64;
      if (Z3_model_eval(C, m, lo, true, &v) && Z3_get_numeral_uint64(C, v, &x)) r |= x;
      out[i] = r;
    }
  }
}

static Z3_solver mkTactic(bool fp) {
  Z3_solver s;
  if (fp) {
    Z3_tactic t = Z3_mk_tactic(C, "qffpbv");
    Z3_tactic_inc_ref(C, t);
    s = Z3_mk_solver_from_tactic(C, t);
  } else {
    Z3_tactic t = Z3_mk_tactic(C, "qfbv");
    Z3_tactic_inc_ref(C, t);
    s = Z3_mk_solver_from_tactic(C, t);
  }
  return s;
}
static void setTimeout(Z3_solver s, int ms) {
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
  Z3_solver_set_params(C, s, p);
  Z3_params_dec_ref(C, p);
}

static Res runFresh(const std::vector<E>& cs, E extra, bool fp, int ms, std::unordered_map<uint32_t, u128>& out) {
  Z3_solver s = mkTactic(fp);
  Z3_solver_inc_ref(C, s);
  setTimeout(s, ms);
  for (E c : cs) Z3_solver_assert(C, s, trB(c));
  if (extra) Z3_solver_assert(C, s, trB(extra));
  Z3_lbool b = Z3_solver_check(C, s);
  Res r = b == Z3_L_TRUE ? Res::Sat : b == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  if (r == Res::Sat) {
    Z3_model m = Z3_solver_get_model(C, s);
    Z3_model_inc_ref(C, m);
    readModel(m, cs, extra, out);
    Z3_model_dec_ref(C, m);
  }
  Z3_solver_dec_ref(C, s);
  return r;
}

static Res runInc(const std::vector<E>& cs, E extra, int ms, std::unordered_map<uint32_t, u128>& out) {
  if (incS && incAsserts > 4000) {
    Z3_solver_dec_ref(C, incS);
    incS = nullptr;
    incStack.clear();
    incAsserts = 0;
  }
  if (!incS) {
    incS = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FD"));
    Z3_solver_inc_ref(C, incS);
    setTimeout(incS, ms);
    incStack.clear();
  }
  size_t p = 0;
  while (p < incStack.size() && p < cs.size() && incStack[p] == cs[p]->id) p++;
  if (p < incStack.size()) { Z3_solver_pop(C, incS, incStack.size() - p); incStack.resize(p); }
  for (; p < cs.size(); p++) {
    Z3_solver_push(C, incS);
    Z3_solver_assert(C, incS, trB(cs[p]));
    incStack.push_back(cs[p]->id);
    incAsserts++;
  }
  Z3_lbool b;
  if (extra) {
    Z3_solver_push(C, incS);
    Z3_solver_assert(C, incS, trB(extra));
    incAsserts++;
  }
  b = Z3_solver_check(C, incS);
  Res r = b == Z3_L_TRUE ? Res::Sat : b == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  if (r == Res::Sat) {
    Z3_model m = Z3_solver_get_model(C, incS);
    Z3_model_inc_ref(C, m);
    readModel(m, cs, extra, out);
    Z3_model_dec_ref(C, m);
  }
  if (extra) Z3_solver_pop(C, incS, 1);
  return r;
}

static bool verify(const std::vector<E>& cs, E extra, const std::unordered_map<uint32_t, u128>& out) {
  Model m;
  m.v = out;
  for (E c : cs) if (!evalExpr(c, m)) return false;
  return !extra || evalExpr(extra, m);
}

static void dumpQuery(const std::vector<E>& cs, E extra, Res r) {
  static int n = 0;
  if (n >= 40) return;
  Z3_solver s = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, s);
  for (E c : cs) Z3_solver_assert(C, s, trB(c));
  if (extra) Z3_solver_assert(C, s, trB(extra));
  std::string f = std::string(g_dumpDir) + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++) +
                  (r == Res::Sat ? ".sat.smt2" : ".unsat.smt2");
  if (FILE* o = fopen(f.c_str(), "w")) {
    fprintf(o, "(set-logic ALL)\n%s\n(check-sat)\n", Z3_solver_to_string(C, s));
    fclose(o);
  }
  Z3_solver_dec_ref(C, s);
}

// ---- interval pre-check: signed ranges refined by the comparisons on the path ----
namespace {
struct Rng { s128 lo, hi; };
struct Intervals {
  std::unordered_map<uint32_t, Rng> ref, memo;
  bool changed = false;
  Rng range(E e, int d = 24) {
    if (e->kind == Const || e->width > 100) return {e->smin, e->smax};
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    s128 half = (s128)1 << (e->width - 1);
    Rng r = {e->smin, e->smax};
    if (d > 0) {
      Rng n = {-half, half - 1};
      switch (e->kind) {
        case Add: { Rng a = range(e->k[0], d - 1), b = range(e->k[1], d - 1); n = {a.lo + b.lo, a.hi + b.hi}; break; }
        case Sub: { Rng a = range(e->k[0], d - 1), b = range(e->k[1], d - 1); n = {a.lo - b.hi, a.hi - b.lo}; break; }
        case Mul:
          if (isC(e->k[1]) && e->width <= 64 && e->k[1]->smin > -(1 << 30) && e->k[1]->smin < (1 << 30)) {
            Rng a = range(e->k[0], d - 1);
            s128 p = a.lo * e->k[1]->smin, q = a.hi * e->k[1]->smin;
            n = {std::min(p, q), std::max(p, q)};
          }
          break;
        case SExt: n = range(e->k[0], d - 1); break;
        case ZExt: { Rng a = range(e->k[0], d - 1); if (a.lo >= 0) n = a; break; }
        case Ite: { Rng a = range(e->k[1], d - 1), b = range(e->k[2], d - 1); n = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
        case Extract: if (e->aux == 0 && e->k[0]->width <= 100) n = range(e->k[0], d - 1); break;
        default: break;
      }
      if (n.hi < -half) { n.lo += 2 * half; n.hi += 2 * half; }
      else if (n.lo >= half) { n.lo -= 2 * half; n.hi -= 2 * half; }
      if (n.lo >= -half && n.hi < half) { r.lo = std::max(r.lo, n.lo); r.hi = std::min(r.hi, n.hi); }
    }
    auto f = ref.find(e->id);
    if (f != ref.end()) { r.lo = std::max(r.lo, f->second.lo); r.hi = std::min(r.hi, f->second.hi); }
    memo[e->id] = r;
    return r;
  }
  void refine(E e, s128 lo, s128 hi) {
    if (e->kind == Const || e->width > 100) return;
    Rng r = range(e);
    if (lo <= r.lo && hi >= r.hi) return;
    auto f = ref.insert({e->id, {lo, hi}});
    if (!f.second) { f.first->second.lo = std::max(f.first->second.lo, lo); f.first->second.hi = std::min(f.first->second.hi, hi); }
    lo = std::max(lo, r.lo); hi = std::min(hi, r.hi);
    memo.clear();
    changed = true;
    s128 half = (s128)1 << (e->width - 1);
    if (e->kind == Add && isC(e->k[1])) {
      s128 k = e->k[1]->smin;
      shifted(e->k[0], lo - k, hi - k, half);
    } else if (e->kind == Sub && isC(e->k[0])) {
      s128 k = e->k[0]->smin;
      shifted(e->k[1], k - hi, k - lo, half);
    } else if (e->kind == SExt) refine(e->k[0], lo, hi);
    else if (e->kind == ZExt && lo >= 0 && hi < ((s128)1 << (e->k[0]->width - 1))) refine(e->k[0], lo, hi);
  }
  void shifted(E e, s128 lo, s128 hi, s128 half) {
    if (hi < -half) { lo += 2 * half; hi += 2 * half; }
    else if (lo >= half) { lo -= 2 * half; hi -= 2 * half; }
    if (lo >= -half && hi < half) refine(e, lo, hi);
  }
  void learn(E c, bool t, int d = 6) {
    if (d <= 0) return;
    if (auto* w = wideForms(c)) for (auto& p : *w) learn1(p.first, t != p.second, d - 1);
    learn1(c, t, d);
  }
  void learn1(E c, bool t, int d) {
    E a = c->k[0], b = c->k[1];
    switch (c->kind) {
      case Not: learn(a, !t, d); break;
      case And: if (t) { learn(a, true, d - 1); learn(b, true, d - 1); } break;
      case Or: if (!t) { learn(a, false, d - 1); learn(b, false, d - 1); } break;
      case Slt: {
        Rng x = range(a), y = range(b);
        if (t) { refine(a, x.lo, std::min(x.hi, y.hi - 1)); refine(b, std::max(y.lo, x.lo + 1), y.hi); }
        else { refine(a, std::max(x.lo, y.lo), x.hi); refine(b, y.lo, std::min(y.hi, x.hi)); }
        break;
      }
      case Ult: {
        Rng x = range(a), y = range(b);
        if (t) {
          if (y.lo >= 0) refine(a, std::max<s128>(0, x.lo), std::min(x.hi, y.hi - 1));
          if (x.lo >= 0 && y.lo >= 0) refine(b, std::max(y.lo, x.lo + 1), y.hi);
        } else {
          if (x.lo >= 0) refine(b, std::max<s128>(0, y.lo), std::min(y.hi, x.hi));
          if (x.lo >= 0 && y.lo >= 0) refine(a, std::max(x.lo, y.lo), x.hi);
        }
        break;
      }
      case Eq: {
        Rng x = range(a), y = range(b);
        if (t) { s128 l = std::max(x.lo, y.lo), h = std::min(x.hi, y.hi); refine(a, l, h); refine(b, l, h); }
        else if (isC(b)) {
          if (x.lo == y.lo) refine(a, x.lo + 1, x.hi);
          if (x.hi == y.hi) refine(a, x.lo, x.hi - 1);
        }
        break;
      }
      case Extract:
        if (c->width == 1 && c->aux + 1 == a->width) { if (t) refine(a, a->smin, -1); else refine(a, 0, a->smax); }
        break;
      default: break;
    }
  }
  int truth(E c, int d = 8) {  // 1 true, 0 false, -1 unknown
    if (c->kind == Const) return c->c ? 1 : 0;
    if (d <= 0) return -1;
    int r = truth1(c, d);
    if (r >= 0) return r;
    if (auto* w = wideForms(c)) for (auto& p : *w) { r = truth1(p.first, d); if (r >= 0) return p.second ? !r : r; }
    return -1;
  }
  int truth1(E c, int d) {
    E a = c->k[0], b = c->k[1];
    switch (c->kind) {
      case Not: { int r = truth(a, d - 1); return r < 0 ? r : !r; }
      case And: { int x = truth(a, d - 1); if (x == 0) return 0; int y = truth(b, d - 1); if (y == 0) return 0; return x == 1 && y == 1 ? 1 : -1; }
      case Or: { int x = truth(a, d - 1); if (x == 1) return 1; int y = truth(b, d - 1); if (y == 1) return 1; return x == 0 && y == 0 ? 0 : -1; }
      case Slt: { Rng x = range(a), y = range(b); return x.hi < y.lo ? 1 : x.lo >= y.hi ? 0 : -1; }
      case Ult: {
        Rng x = range(a), y = range(b);
        if (x.lo >= 0 && y.lo >= 0) return x.hi < y.lo ? 1 : x.lo >= y.hi ? 0 : -1;
        if (x.lo >= 0 && y.hi < 0) return 1;
        if (x.hi < 0 && y.lo >= 0) return 0;
        return -1;
      }
      case Eq: { Rng x = range(a), y = range(b); return x.hi < y.lo || y.hi < x.lo ? 0 : x.lo == x.hi && y.lo == y.hi && x.lo == y.lo ? 1 : -1; }
      case Extract:
        if (c->width == 1 && c->aux + 1 == a->width) { Rng x = range(a); return x.hi < 0 ? 1 : x.lo >= 0 ? 0 : -1; }
        return -1;
      default: return -1;
    }
  }
};
}
static bool intervalUnsat(const std::vector<E>& cs, E extra) {
  Intervals iv;
  if (iv.truth(extra) == 0) return true;
  for (int pass = 0; pass < 2; pass++) {
    iv.changed = false;
    for (E c : cs) iv.learn(c, true);
    if (!iv.changed) break;
  }
  return iv.truth(extra) == 0;
}

Res solveConj(const std::vector<E>& cs, E extra, std::unordered_map<uint32_t, u128>& out) {
  if (!C) init();
  if (extra && isC(extra)) {
    if (!extra->c) { g_ss.trivial++; return Res::Unsat; }
  }
  std::vector<uint32_t> key;
  key.reserve(cs.size() + 1);
  for (E c : cs) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.push_back(extra ? extra->id : 0xffffffffu);
  auto it = cache.find(key);
  if (it != cache.end()) {
    g_ss.cacheHits++;
    if (it->second.r == Res::Sat) out = *it->second.m;
    return it->second.r;
  }
  bool fp = extra && extra->fp;
  for (E c : cs) fp |= c->fp;
  // recent models
  for (Model* m : recent) {
    bool ok = !extra || evalExpr(extra, *m);
    for (size_t i = cs.size(); ok && i-- > 0;) ok = evalExpr(cs[i], *m);
    if (ok) {
      g_ss.modelHits++;
      auto add = [&](E c) { for (uint32_t s : c->syms->v) out[s] = m->get(s); };
      for (E c : cs) add(c);
      if (extra) add(extra);
      auto sp = std::make_shared<std::unordered_map<uint32_t, u128>>(out);
      cache[key] = {Res::Sat, sp};
      return Res::Sat;
    }
  }
  if (extra && !fp && intervalUnsat(cs, extra)) {
    g_ss.interval++;
    cache[key] = {Res::Unsat, nullptr};
    return Res::Unsat;
  }
  double t0 = now();
  g_ss.queries++;
  Res r;
  if (fp) {
    r = runFresh(cs, extra, true, g_queryTimeoutMs, out);
  } else {
    r = runInc(cs, extra, std::min(g_queryTimeoutMs, 10000), out);
    if (r == Res::Sat && !verify(cs, extra, out)) r = Res::Unknown;
    if (r == Res::Unknown) {
      out.clear();
      if (incS) { Z3_solver_dec_ref(C, incS); incS = nullptr; incStack.clear(); incAsserts = 0; }
      r = runFresh(cs, extra, false, g_queryTimeoutMs, out);
    }
  }
  if (r == Res::Sat && !verify(cs, extra, out)) {
    fprintf(stderr, "symx: model does not satisfy query (fp=%d)\n", fp);
    r = Res::Unknown;
  }
  if (g_crossEvery && !fp && g_ss.queries % g_crossEvery == 0 && r != Res::Unknown) {
    std::unordered_map<uint32_t, u128> o2;
    Res r2 = runFresh(cs, extra, false, g_queryTimeoutMs, o2);
    g_ss.crosschecked++;
    if (r2 != r && r2 != Res::Unknown) { g_ss.crossDisagree++; r = Res::Unknown; fprintf(stderr, "symx: solver disagreement\n"); }
    if (g_dumpDir) dumpQuery(cs, extra, r);
  }
  double dt = now() - t0;
  if (g_dumpDir && !g_crossEvery && dt > 0.15) dumpQuery(cs, extra, r);
  g_ss.time += dt;
  if (dt > g_ss.maxq) g_ss.maxq = dt;
  if (r == Res::Sat) {
    g_ss.sat++;
    Model* m = new Model();
    m->v = out;
    recent.push_front(m);
    if (recent.size() > 6) { delete recent.back(); recent.pop_back(); }
    cache[key] = {r, std::make_shared<std::unordered_map<uint32_t, u128>>(out)};
  } else if (r == Res::Unsat) {
    g_ss.unsat++;
    cache[key] = {r, nullptr};
  } else {
    g_ss.unknown++;
  }
  if (cache.size() > 400000) cache.clear();
  return r;
}
