#include "expr.h"
#include <algorithm>
#include <unordered_set>

std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, Expr *> g_var_by_name;
static u32 g_next_id = 1;
static u32 g_epoch = 1;

// ---- arena & interning
static char *g_pool = nullptr; static size_t g_left = 0;
static void *pool(size_t n) {
  if (g_left < n) { g_left = 1 << 20; g_pool = (char *)malloc(g_left); }
  void *p = g_pool; g_pool += n; g_left -= n; return p;
}
struct Key { Op op; u16 w; u64 lo, hi; Expr *a, *b, *c; const Set256 *s; };
static u64 hmix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static u64 khash(const Key &k) {
  u64 h = k.op * 131 + k.w; h = hmix(h, k.lo); if (k.hi) h = hmix(h, k.hi);
  h = hmix(h, (u64)k.a); h = hmix(h, (u64)k.b); h = hmix(h, (u64)k.c); if (k.s) h = hmix(h, (u64)k.s); return h;
}
static std::vector<Expr *> g_tab(1 << 16, nullptr);
static std::vector<u64> g_tabh(1 << 16, 0);
static size_t g_cnt = 0;
size_t exprCount() { return g_cnt; }

struct SetHash { size_t operator()(const Set256 &s) const { return s.hash(); } };
static std::unordered_set<Set256, SetHash> g_sets;
struct VHash { size_t operator()(const std::vector<u32> &v) const { u64 h = v.size(); for (u32 x : v) h = hmix(h, x); return h; } };
static std::unordered_set<std::vector<u32>, VHash> g_varsets;

static void getVars(Expr *e, const u32 *&p, size_t &n) {
  if (e->v1 == kNoVar) { n = 0; p = nullptr; }
  else if (e->v1 == kManyVars) { p = e->vars->data(); n = e->vars->size(); }
  else { p = &e->v1; n = 1; }
}
void exprVars(Expr *e, std::vector<u32> &out) { const u32 *p; size_t n; getVars(e, p, n); out.assign(p, p + n); }

static void setVars(Expr *e) {
  Expr *ch[3] = {e->a, e->b, e->c};
  Expr *first = nullptr; bool same = true;
  for (Expr *x : ch) if (x && x->v1 != kNoVar) {
    if (!first) first = x;
    else if (x->v1 != first->v1 || x->vars != first->vars) same = false;
  }
  if (!first) { e->v1 = kNoVar; e->vars = nullptr; return; }
  if (same) { e->v1 = first->v1; e->vars = first->vars; return; }
  std::vector<u32> u;
  for (Expr *x : ch) if (x) { const u32 *p; size_t n; getVars(x, p, n); std::vector<u32> r; r.reserve(u.size() + n);
      std::set_union(u.begin(), u.end(), p, p + n, std::back_inserter(r)); u.swap(r); }
  if (u.size() == 1) { e->v1 = u[0]; e->vars = nullptr; return; }
  e->v1 = kManyVars; e->vars = &*g_varsets.insert(u).first;
}

static Expr *intern(const Key &k, bool *fresh = nullptr) {
  if (g_cnt * 2 > g_tab.size()) {
    std::vector<Expr *> nt(g_tab.size() * 2, nullptr); std::vector<u64> nh(g_tab.size() * 2, 0);
    size_t m = nt.size() - 1;
    for (size_t i = 0; i < g_tab.size(); ++i) if (g_tab[i]) { size_t j = g_tabh[i] & m; while (nt[j]) j = (j + 1) & m; nt[j] = g_tab[i]; nh[j] = g_tabh[i]; }
    g_tab.swap(nt); g_tabh.swap(nh);
  }
  u64 h = khash(k); size_t m = g_tab.size() - 1, j = h & m;
  while (g_tab[j]) {
    Expr *e = g_tab[j];
    if (g_tabh[j] == h && e->op == k.op && e->width == k.w && e->lo == k.lo && e->hi == k.hi && e->a == k.a && e->b == k.b && e->c == k.c && e->set == k.s) return e;
    j = (j + 1) & m;
  }
  Expr *e = (Expr *)pool(sizeof(Expr));
  e->op = k.op; e->width = k.w; e->id = g_next_id++; e->lo = k.lo; e->hi = k.hi; e->a = k.a; e->b = k.b; e->c = k.c; e->set = k.s;
  e->canon = nullptr; e->stamp = 0; e->vars = nullptr; e->v1 = kNoVar;
  e->nodes = 1 + (k.a ? k.a->nodes : 0) + (k.b ? k.b->nodes : 0) + (k.c ? k.c->nodes : 0);
  if (e->nodes > (1u << 30)) e->nodes = 1u << 30;
  if (k.op == OVar) e->v1 = (u32)k.lo; else if (k.op != OConst) setVars(e);
  g_tab[j] = e; g_tabh[j] = h; g_cnt++;
  if (fresh) *fresh = true;
  return e;
}

Expr *mkConst(u64 v, unsigned w) { return intern({OConst, (u16)w, v & maskw(w), 0, 0, 0, 0, 0}); }
Expr *mkConstWide(u128 v, unsigned w) {
  if (w <= 64) return mkConst((u64)v, w);
  u64 hi = (u64)(v >> 64) & maskw(w - 64); return intern({OConst, (u16)w, (u64)v, hi, 0, 0, 0, 0});
}
static u128 cval(Expr *e) { return ((u128)e->hi << 64) | e->lo; }
Expr *mkVar(const std::string &name, unsigned w) {
  auto it = g_var_by_name.find(name);
  if (it != g_var_by_name.end()) { if (it->second->width != w) { fprintf(stderr, "var width clash %s\n", name.c_str()); abort(); } return it->second; }
  u32 idx = g_vars.size();
  Expr *e = intern({OVar, (u16)w, idx, 0, 0, 0, 0, 0});
  g_vars.push_back({name, w, e}); g_var_by_name[name] = e; return e;
}
static u128 maskw128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static i128 sext128(u128 v, unsigned w) { return w >= 128 ? (i128)v : (i128)(v << (128 - w)) >> (128 - w); }
u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskw128(w);
  switch (op) {
  case OAdd: return (a + b) & m; case OSub: return (a - b) & m; case OMul: return (a * b) & m;
  case OUDiv: return b ? a / b : m; case OURem: return b ? a % b : a;
  case OSDiv: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
  case OSRem: { i128 x = sext128(a, w), y = sext128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
  case OAnd: return a & b; case OOr: return a | b; case OXor: return a ^ b;
  case OShl: return b >= w ? 0 : (a << (unsigned)b) & m; case OLShr: return b >= w ? 0 : a >> (unsigned)b;
  case OAShr: { i128 x = sext128(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
  case OEq: return a == b; case OUlt: return a < b; case OUle: return a <= b;
  case OSlt: return sext128(a, w) < sext128(b, w); case OSle: return sext128(a, w) <= sext128(b, w);
  default: abort();
  }
}

void newEvalEpoch() { ++g_epoch; }
static const std::vector<u64> *g_model; static u64 g_single; static bool g_use_single;
static u128 ev(Expr *e) {
  switch (e->op) {
  case OConst: return cval(e);
  case OVar: return g_use_single ? g_single : (e->lo < g_model->size() ? (*g_model)[e->lo] & maskw(e->width) : 0);
  case OInSet: return e->set->test((unsigned)ev(e->a));
  default: break;
  }
  if (e->stamp == g_epoch) return ((u128)e->mhi << 64) | e->mlo;
  u128 r;
  switch (e->op) {
  case OIte: r = ev(e->a) ? ev(e->b) : ev(e->c); break;
  case OZExt: r = ev(e->a); break;
  case OSExt: r = (u128)sext128(ev(e->a), e->a->width) & maskw128(e->width); break;
  case OExtract: r = (ev(e->a) >> (unsigned)e->lo) & maskw128(e->width); break;
  case OConcat: r = (ev(e->a) << e->b->width) | ev(e->b); break;
  default: r = foldBin(e->op, ev(e->a), ev(e->b), e->a->width);
  }
  e->stamp = g_epoch; e->mlo = (u64)r; e->mhi = (u64)(r >> 64);
  return r;
}
u128 evalExpr(Expr *e, const std::vector<u64> &model) {
  if (e->op == OConst) return cval(e);
  ++g_epoch; g_model = &model; g_use_single = false; return ev(e);
}
u128 evalSingle(Expr *e, u64 value) { ++g_epoch; g_use_single = true; g_single = value; return ev(e); }

Expr *mkInSet(Expr *var, const Set256 &s0) {
  Set256 s = s0;
  if (var->width < 8) { Set256 m = kEmptySet; for (unsigned i = 0; i < (1u << var->width); ++i) m.set(i); s = s & m; if (s == m) return mkConst(1, 1); }
  if (s.empty()) return mkConst(0, 1);
  if (s.full()) return mkConst(1, 1);
  const Set256 *p = &*g_sets.insert(s).first;
  return intern({OInSet, 1, 0, 0, var, 0, 0, p});
}
static bool byteVar(u32 v) { return v < kManyVars && g_vars[v].width <= 8; }
// Canonicalise a boolean over exactly one byte-sized variable to set membership.
static Expr *finish(const Key &k) {
  Expr *e = intern(k);
  if (e->canon) return e->canon;
  if (e->width == 1 && byteVar(e->v1)) {
    Expr *var = g_vars[e->v1].e; unsigned n = 1u << var->width; Set256 s = kEmptySet; bool done = false;
    if (e->a && e->b && e->a->op == OInSet && e->b->op == OInSet && (e->op == OAnd || e->op == OOr || e->op == OXor)) {
      s = e->op == OAnd ? *e->a->set & *e->b->set : e->op == OOr ? *e->a->set | *e->b->set : *e->a->set ^ *e->b->set; done = true;
    } else if (e->op == OXor && e->a->op == OInSet && isTrue(e->b)) { s = ~*e->a->set; done = true; }
    if (!done) for (unsigned i = 0; i < n; ++i) if (evalSingle(e, i)) s.set(i);
    e->canon = mkInSet(var, s); return e->canon;
  }
  e->canon = e; return e;
}

Expr *mkZExt(Expr *a, unsigned w) {
  if (a->width == w) return a;
  if (isConst(a)) return mkConstWide(cval(a), w);
  if (a->op == OZExt) return mkZExt(a->a, w);
  return finish({OZExt, (u16)w, 0, 0, a, 0, 0, 0});
}
Expr *mkSExt(Expr *a, unsigned w) {
  if (a->width == w) return a;
  if (isConst(a)) return mkConstWide((u128)sext128(cval(a), a->width), w);
  if (a->op == OZExt) return mkZExt(a->a, w);
  if (a->op == OSExt) return mkSExt(a->a, w);
  return finish({OSExt, (u16)w, 0, 0, a, 0, 0, 0});
}
Expr *mkExtract(Expr *a, unsigned off, unsigned w) {
  if (off == 0 && w == a->width) return a;
  if (isConst(a)) return mkConstWide((cval(a) >> off) & maskw128(w), w);
  switch (a->op) {
  case OExtract: return mkExtract(a->a, off + a->lo, w);
  case OZExt: if (off >= a->a->width) return mkConst(0, w); if (off + w <= a->a->width) return mkExtract(a->a, off, w);
              if (off == 0) return mkZExt(a->a, w); break;
  case OSExt: if (off + w <= a->a->width) return mkExtract(a->a, off, w); if (off == 0) return mkSExt(a->a, w); break;
  case OConcat: if (off >= a->b->width) return mkExtract(a->a, off - a->b->width, w);
                if (off + w <= a->b->width) return mkExtract(a->b, off, w); 
                return mkConcat(mkExtract(a->a, 0, off + w - a->b->width), mkExtract(a->b, off, a->b->width - off));
  case OIte: if (isConst(a->b) || isConst(a->c)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w)); break;
  case OAnd: case OOr: case OXor: if (isConst(a->b)) return mkBin(a->op, mkExtract(a->a, off, w), mkExtract(a->b, off, w)); break;
  case OAdd: case OSub: if (off == 0 && a->width > w) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
  case OShl: if (isConst(a->b)) { u64 s = a->b->lo; if (s >= off + w) return mkConst(0, w); if (off >= s) return mkExtract(a->a, off - s, w); } break;
  case OLShr: if (isConst(a->b)) { u64 s = a->b->lo; if (off + s >= a->width) return mkConst(0, w); if (off + s + w <= a->width) return mkExtract(a->a, off + s, w); } break;
  default: break;
  }
  return finish({OExtract, (u16)w, off, 0, a, 0, 0, 0});
}
Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->width + lo->width;
  if (isConst(hi) && isConst(lo)) return mkConstWide((cval(hi) << lo->width) | cval(lo), w);
  if (isConst(hi) && isFalse(hi)) return mkZExt(lo, w);
  if (hi->op == OExtract && lo->op == OExtract && hi->a == lo->a && hi->lo == lo->lo + lo->width) return mkExtract(hi->a, lo->lo, w);
  if (lo->op == OConcat && hi->op == OExtract && lo->a->op == OExtract && hi->a == lo->a->a && hi->lo == lo->a->lo + lo->a->width)
    return mkConcat(mkExtract(hi->a, lo->a->lo, hi->width + lo->a->width), lo->b);
  // extract of the upper part of something whose lower part is itself
  if (hi->op == OExtract && hi->a == lo && hi->lo == lo->width) return lo;
  if (hi->op == OExtract && hi->lo == lo->width && lo->op == OExtract && lo->a == hi->a) return mkExtract(hi->a, 0, w);
  if (isConst(hi) && lo->op == OConcat && isConst(lo->a)) return mkConcat(mkConcat(hi, lo->a), lo->b);
  if (hi->op == OIte && lo->op == OIte && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return finish({OConcat, (u16)w, 0, 0, hi, lo, 0, 0});
}
Expr *mkIte(Expr *c, Expr *t, Expr *f) {
  if (isConst(c)) return c->lo ? t : f;
  if (t == f) return t;
  if (t->width == 1) {
    if (isTrue(t) && isFalse(f)) return c;
    if (isFalse(t) && isTrue(f)) return mkNot(c);
    if (isTrue(t)) return mkBin(OOr, c, f);
    if (isFalse(t)) return mkBin(OAnd, mkNot(c), f);
    if (isTrue(f)) return mkBin(OOr, mkNot(c), t);
    if (isFalse(f)) return mkBin(OAnd, c, t);
  }
  if (c->op == OXor && isTrue(c->b)) return mkIte(c->a, f, t);
  if (t->op == OIte && t->a == c) t = t->b;
  if (f->op == OIte && f->a == c) f = f->c;
  if (t == f) return t;
  return finish({OIte, t->width, 0, 0, c, t, f, 0});
}
static bool isCmp(Op op) { return op >= OEq && op <= OSle; }
Expr *mkBin(Op op, Expr *a, Expr *b) {
  unsigned w = a->width;
  if (a->width != b->width) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->width, b->width); abort(); }
  if (isConst(a) && isConst(b)) return mkConstWide(foldBin(op, cval(a), cval(b), w), isCmp(op) ? 1 : w);
  // constants to the right for commutative
  if (isConst(a) && (op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq)) std::swap(a, b);
  bool zero = isConst(b) && isFalse(b);
  bool ones = isConst(b) && cval(b) == maskw128(w);
  switch (op) {
  case OAdd:
    if (zero) return a;
    if (isConst(b) && a->op == OAdd && isConst(a->b)) return mkBin(OAdd, a->a, mkBin(OAdd, a->b, b));
    break;
  case OSub:
    if (zero) return a; if (a == b) return mkConst(0, w);
    if (isConst(b)) return mkBin(OAdd, a, mkBin(OSub, mkConst(0, w), b));
    if (a->op == OAdd && b->op == OAdd && a->a == b->a) return mkBin(OSub, a->b, b->b);
    if (a->op == OAdd && a->a == b) return a->b;
    break;
  case OMul: if (zero) return b; if (isConst(b) && cval(b) == 1) return a; break;
  case OUDiv: case OSDiv: if (isConst(b) && cval(b) == 1) return a; break;
  case OURem: if (isConst(b) && cval(b) == 1) return mkConst(0, w); break;
  case OAnd:
    if (zero) return b; if (ones || a == b) return a;
    if (w == 1) { if (a == mkNot(b)) return mkConst(0, 1); }
    if (isConst(b) && a->op == OAnd && isConst(a->b)) return mkBin(OAnd, a->a, mkBin(OAnd, a->b, b));
    if (isConst(b) && a->op == OZExt) { u128 m = cval(b) & maskw128(a->a->width); return mkZExt(mkBin(OAnd, a->a, mkConstWide(m, a->a->width)), w); }
    break;
  case OOr:
    if (zero || a == b) return a; if (ones) return b;
    if (w == 1) { if (a == mkNot(b)) return mkConst(1, 1); }
    // byte assembly idiom: concat(x, 0:k) | zext(lo), lo not wider than k
    {
      Expr *s = a, *z = b;
      if (!(s->op == OConcat && isFalse(s->b))) std::swap(s, z);
      if (s->op == OConcat && isFalse(s->b)) {
        unsigned k = s->b->width;
        if (z->op == OZExt && z->a->width <= k) return mkConcat(s->a, mkZExt(z->a, k));
        if (isConst(z) && !(cval(z) >> k)) return mkConcat(s->a, mkExtract(z, 0, k));
      }
    }
    break;
  case OXor:
    if (zero) return a; if (a == b) return mkConst(0, w);
    if (isConst(b) && a->op == OXor && isConst(a->b)) return mkBin(OXor, a->a, mkBin(OXor, a->b, b));
    if (w == 1 && isTrue(b)) {
      if (a->op == OUlt) return mkBin(OUle, a->b, a->a); if (a->op == OUle) return mkBin(OUlt, a->b, a->a);
      if (a->op == OSlt) return mkBin(OSle, a->b, a->a); if (a->op == OSle) return mkBin(OSlt, a->b, a->a);
    }
    break;
  case OShl: case OLShr: case OAShr:
    if (zero) return a;
    if (isConst(b) && cval(b) >= w && op != OAShr) return mkConst(0, w);
    if (op == OLShr && isConst(b)) { unsigned s = (unsigned)b->lo; return mkZExt(mkExtract(a, s, w - s), w); }
    if (op == OShl && isConst(b)) { unsigned s = (unsigned)b->lo; if (s < w) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
    break;
  case OEq:
    if (a == b) return mkConst(1, 1);
    if (w == 1 && isConst(b)) return b->lo ? a : mkNot(a);
    if (isConst(b)) {
      if (a->op == OZExt) { if (cval(b) >> a->a->width) return mkConst(0, 1); return mkBin(OEq, a->a, mkConstWide(cval(b), a->a->width)); }
      if (a->op == OSExt) { Expr *l = mkConstWide(cval(b) & maskw128(a->a->width), a->a->width); if (mkSExt(l, w) != b) return mkConst(0, 1); return mkBin(OEq, a->a, l); }
      if (a->op == OConcat) return mkBin(OAnd, mkBin(OEq, a->a, mkExtract(b, a->b->width, a->a->width)), mkBin(OEq, a->b, mkExtract(b, 0, a->b->width)));
      if (a->op == OAdd && isConst(a->b)) return mkBin(OEq, a->a, mkBin(OSub, b, a->b));
      if (a->op == OXor && isConst(a->b)) return mkBin(OEq, a->a, mkBin(OXor, b, a->b));
      if (a->op == OIte && (isConst(a->b) || isConst(a->c))) return mkIte(a->a, mkBin(OEq, a->b, b), mkBin(OEq, a->c, b));
    } else {
      if (a->op == OZExt && b->op == OZExt && a->a->width == b->a->width) return mkBin(OEq, a->a, b->a);
      if (a->op == OSExt && b->op == OSExt && a->a->width == b->a->width) return mkBin(OEq, a->a, b->a);
      if (a->op == OAdd && b->op == OAdd && a->a == b->a) return mkBin(OEq, a->b, b->b);
      if (a->op == OConcat && b->op == OConcat && a->a->width == b->a->width) return mkBin(OAnd, mkBin(OEq, a->a, b->a), mkBin(OEq, a->b, b->b));
      if (a->id > b->id) std::swap(a, b);
    }
    break;
  case OUlt:
    if (a == b || zero) return mkConst(0, 1);
    if (isConst(a) && cval(a) == maskw128(w)) return mkConst(0, 1);
    if (isConst(b) && cval(b) == 1) return mkBin(OEq, a, mkConst(0, w));
    if (isConst(a) && isFalse(a)) return mkNot(mkBin(OEq, b, a));
    if (a->op == OZExt && b->op == OZExt && a->a->width == b->a->width) return mkBin(OUlt, a->a, b->a);
    if (a->op == OZExt && isConst(b)) { if (cval(b) > maskw128(a->a->width)) return mkConst(1, 1); return mkBin(OUlt, a->a, mkConstWide(cval(b), a->a->width)); }
    if (b->op == OZExt && isConst(a)) { if (cval(a) > maskw128(b->a->width)) return mkConst(0, 1); return mkBin(OUlt, mkConstWide(cval(a), b->a->width), b->a); }
    if (isConst(b) && a->op == OIte && isConst(a->b) ) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    if (isConst(b) && a->op == OIte && isConst(a->c) ) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    break;
  case OUle:
    if (a == b || ones) return mkConst(1, 1);
    if (isConst(a) && isFalse(a)) return mkConst(1, 1);
    if (zero) return mkBin(OEq, a, b);
    if (a->op == OZExt && b->op == OZExt && a->a->width == b->a->width) return mkBin(OUle, a->a, b->a);
    if (a->op == OZExt && isConst(b)) { if (cval(b) >= maskw128(a->a->width)) return mkConst(1, 1); return mkBin(OUle, a->a, mkConstWide(cval(b), a->a->width)); }
    if (b->op == OZExt && isConst(a)) { if (cval(a) > maskw128(b->a->width)) return mkConst(0, 1); return mkBin(OUle, mkConstWide(cval(a), b->a->width), b->a); }
    break;
  case OSlt: case OSle:
    if (a == b) return mkConst(op == OSle, 1);
    {
      auto small = [&](Expr *x) { return (x->op == OZExt) || (isConst(x) && !((cval(x) >> (w - 1)) & 1)); };
      if (small(a) && small(b)) return mkBin(op == OSlt ? OUlt : OUle, a, b);
      if (isConst(b) && a->op == OZExt) return mkConst(0, 1);  // nonneg < negative
      if (isConst(a) && b->op == OZExt) return mkConst(1, 1);  // negative < nonneg
      if (isConst(b) && a->op == OIte && (isConst(a->b) || isConst(a->c))) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
      if (isConst(a) && b->op == OIte && (isConst(b->b) || isConst(b->c))) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
    }
    break;
  default: break;
  }
  // fold over ite with constants
  if (isConst(b) && a->op == OIte && isConst(a->b) && isConst(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
  if (isConst(a) && b->op == OIte && isConst(b->b) && isConst(b->c)) return mkIte(b->a, mkBin(op, a, b->b), mkBin(op, a, b->c));
  return finish({op, (u16)(isCmp(op) ? 1 : w), 0, 0, a, b, 0, 0});
}

std::string exprStr(Expr *e, int d) {
  static const char *n[] = {"c", "v", "in", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "zext", "sext", "extract", "concat"};
  if (e->op == OConst) { char b[40]; snprintf(b, 40, "%llu", (unsigned long long)e->lo); return b; }
  if (e->op == OVar) return g_vars[e->lo].name;
  if (d == 0) return "...";
  std::string r = std::string("(") + n[e->op] + std::to_string(e->width);
  if (e->op == OExtract) r += "@" + std::to_string(e->lo);
  for (Expr *x : {e->a, e->b, e->c}) if (x) r += " " + exprStr(x, d - 1);
  if (e->op == OInSet) { r += " #" + std::to_string(e->set->count()); }
  return r + ")";
}
