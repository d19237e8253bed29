#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <unordered_map>
SolverStats g_ss;
bool g_solver_broken = false;
static Z3_context C = nullptr;
static Z3_solver S = nullptr;
static std::unordered_map<u32, Z3_ast> g_bv, g_bool;
static std::unordered_map<u32, Z3_func_decl> g_decl;
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
static void onerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
void z3init() {
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(C, onerr);
  S = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
  Z3_solver_inc_ref(C, S);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 120000);
  Z3_solver_set_params(C, S, p); Z3_params_dec_ref(C, p);
}
static Z3_ast num(u64 lo, u64 hi, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(C, w);
  if (w <= 64) return Z3_mk_unsigned_int64(C, lo, s);
  Z3_ast h = Z3_mk_unsigned_int64(C, hi, Z3_mk_bv_sort(C, w - 64)), l = Z3_mk_unsigned_int64(C, lo, Z3_mk_bv_sort(C, 64));
  return Z3_mk_concat(C, h, l);
}
static Z3_ast bv(Expr *e);
static Z3_ast bo(Expr *e);
static Z3_ast bvraw(Expr *e) {
  switch (e->op) {
  case OConst: return num(e->lo, e->hi, e->width);
  case OVar: {
    Z3_ast a = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->lo), Z3_mk_bv_sort(C, e->width)); return a; }
  case OAdd: return Z3_mk_bvadd(C, bv(e->a), bv(e->b));
  case OSub: return Z3_mk_bvsub(C, bv(e->a), bv(e->b));
  case OMul: return Z3_mk_bvmul(C, bv(e->a), bv(e->b));
  case OUDiv: return Z3_mk_bvudiv(C, bv(e->a), bv(e->b));
  case OSDiv: return Z3_mk_bvsdiv(C, bv(e->a), bv(e->b));
  case OURem: return Z3_mk_bvurem(C, bv(e->a), bv(e->b));
  case OSRem: return Z3_mk_bvsrem(C, bv(e->a), bv(e->b));
  case OAnd: return Z3_mk_bvand(C, bv(e->a), bv(e->b));
  case OOr: return Z3_mk_bvor(C, bv(e->a), bv(e->b));
  case OXor: return Z3_mk_bvxor(C, bv(e->a), bv(e->b));
  case OShl: return Z3_mk_bvshl(C, bv(e->a), bv(e->b));
  case OLShr: return Z3_mk_bvlshr(C, bv(e->a), bv(e->b));
  case OAShr: return Z3_mk_bvashr(C, bv(e->a), bv(e->b));
  case OIte: return Z3_mk_ite(C, bo(e->a), bv(e->b), bv(e->c));
  case OZExt: return Z3_mk_zero_ext(C, e->width - e->a->width, bv(e->a));
  case OSExt: return Z3_mk_sign_ext(C, e->width - e->a->width, bv(e->a));
  case OExtract: return Z3_mk_extract(C, e->lo + e->width - 1, e->lo, bv(e->a));
  case OConcat: return Z3_mk_concat(C, bv(e->a), bv(e->b));
  default: return Z3_mk_ite(C, bo(e), num(1, 0, 1), num(0, 0, 1));
  }
}
static Z3_ast bv(Expr *e) {
  auto it = g_bv.find(e->id); if (it != g_bv.end()) return it->second;
  Z3_ast a = keep(bvraw(e)); g_bv[e->id] = a; return a;
}
static Z3_ast boraw(Expr *e) {
  switch (e->op) {
  case OConst: return e->lo ? Z3_mk_true(C) : Z3_mk_false(C);
  case OInSet: {
    std::vector<Z3_ast> parts; unsigned n = 1u << e->a->width; Z3_ast v = bv(e->a); unsigned w = e->a->width;
    bool neg = e->set->count() > 128; Set256 s = neg ? ~*e->set : *e->set;
    for (unsigned i = 0; i < n;) { if (!s.test(i)) { ++i; continue; } unsigned j = i; while (j + 1 < n && s.test(j + 1)) ++j;
      if (i == j) parts.push_back(Z3_mk_eq(C, v, num(i, 0, w)));
      else { Z3_ast q[2] = {Z3_mk_bvule(C, num(i, 0, w), v), Z3_mk_bvule(C, v, num(j, 0, w))}; parts.push_back(Z3_mk_and(C, 2, q)); }
      i = j + 1; }
    Z3_ast r = Z3_mk_or(C, parts.size(), parts.data()); return neg ? Z3_mk_not(C, r) : r; }
  case OEq: if (e->a->width == 1) return Z3_mk_iff(C, bo(e->a), bo(e->b)); return Z3_mk_eq(C, bv(e->a), bv(e->b));
  case OUlt: return Z3_mk_bvult(C, bv(e->a), bv(e->b));
  case OUle: return Z3_mk_bvule(C, bv(e->a), bv(e->b));
  case OSlt: return Z3_mk_bvslt(C, bv(e->a), bv(e->b));
  case OSle: return Z3_mk_bvsle(C, bv(e->a), bv(e->b));
  case OAnd: { Z3_ast q[2] = {bo(e->a), bo(e->b)}; return Z3_mk_and(C, 2, q); }
  case OOr: { Z3_ast q[2] = {bo(e->a), bo(e->b)}; return Z3_mk_or(C, 2, q); }
  case OXor: if (isTrue(e->b)) return Z3_mk_not(C, bo(e->a)); return Z3_mk_xor(C, bo(e->a), bo(e->b));
  case OIte: return Z3_mk_ite(C, bo(e->a), bo(e->b), bo(e->c));
  default: return Z3_mk_eq(C, bv(e), num(1, 0, 1));
  }
}
static Z3_ast bo(Expr *e) {
  auto it = g_bool.find(e->id); if (it != g_bool.end()) return it->second;
  Z3_ast a = keep(boraw(e)); g_bool[e->id] = a; return a;
}
struct CEnt { Res r; std::vector<std::pair<u32, u64>> m; };
struct VH { size_t operator()(const std::vector<u32> &v) const { u64 h = v.size(); for (u32 x : v) { h ^= x; h *= 0x9e3779b97f4a7c15ull; h ^= h >> 31; } return h; } };
static std::unordered_map<std::vector<u32>, CEnt, VH> g_cache;
Res z3check(const std::vector<Expr *> &cons, std::vector<std::pair<u32, u64>> *model) {
  std::vector<u32> key; key.reserve(cons.size());
  for (Expr *e : cons) { if (isFalse(e)) return Res::UNSAT; if (!isTrue(e)) key.push_back(e->id); }
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = g_cache.find(key);
  if (it != g_cache.end()) { g_ss.cache_hits++; if (model) *model = it->second.m; return it->second.r; }
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver_push(C, S);
  for (Expr *e : cons) Z3_solver_assert(C, S, bo(e));
  Z3_lbool r = Z3_solver_check(C, S);
  g_ss.z3_queries++;
  CEnt ent; ent.r = r == Z3_L_TRUE ? Res::SAT : r == Z3_L_FALSE ? Res::UNSAT : Res::UNKNOWN;
  if (r == Z3_L_TRUE) {
    g_ss.z3_sat++;
    Z3_model m = Z3_solver_get_model(C, S); Z3_model_inc_ref(C, m);
    std::vector<u32> vars, tmp;
    for (Expr *e : cons) { exprVars(e, tmp); vars.insert(vars.end(), tmp.begin(), tmp.end()); }
    std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    for (u32 v : vars) { Z3_ast out = nullptr; uint64_t val = 0;
      if (Z3_model_eval(C, m, bv(g_vars[v].e), true, &out)) { Z3_inc_ref(C, out); if (!Z3_get_numeral_uint64(C, out, &val)) val = 0; Z3_dec_ref(C, out); }
      ent.m.push_back({v, val}); }
    Z3_model_dec_ref(C, m);
  } else if (r == Z3_L_FALSE) g_ss.z3_unsat++;
  else g_solver_broken = true;
  Z3_solver_pop(C, S, 1);
  g_ss.z3_time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (model) *model = ent.m;
  if (g_cache.size() > 400000) g_cache.clear();
  Res rr = ent.r; g_cache.emplace(std::move(key), std::move(ent)); return rr;
}
