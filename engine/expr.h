// Hash-consed bit-vector expressions over symbolic input variables.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int64_t i64; typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 {
  OConst, OVar, OInSet, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr,
  OXor, OShl, OLShr, OAShr, OEq, OUlt, OUle, OSlt, OSle, OIte, OZExt, OSExt,
  OExtract, OConcat
};

struct Set256 {
  u64 w[4];
  bool operator==(const Set256 &o) const { return !memcmp(w, o.w, 32); }
  bool test(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
  bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
  bool full() const { return (w[0] & w[1] & w[2] & w[3]) == ~0ull; }
  int count() const { int c = 0; for (u64 x : w) c += __builtin_popcountll(x); return c; }
  int first() const { for (int i = 0; i < 4; ++i) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
  Set256 operator&(const Set256 &o) const { return {{w[0] & o.w[0], w[1] & o.w[1], w[2] & o.w[2], w[3] & o.w[3]}}; }
  Set256 operator|(const Set256 &o) const { return {{w[0] | o.w[0], w[1] | o.w[1], w[2] | o.w[2], w[3] | o.w[3]}}; }
  Set256 operator^(const Set256 &o) const { return {{w[0] ^ o.w[0], w[1] ^ o.w[1], w[2] ^ o.w[2], w[3] ^ o.w[3]}}; }
  Set256 operator~() const { return {{~w[0], ~w[1], ~w[2], ~w[3]}}; }
  u64 hash() const { u64 h = 0x9e3779b97f4a7c15ull; for (u64 x : w) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; } return h; }
};
static const Set256 kFullSet = {{~0ull, ~0ull, ~0ull, ~0ull}};
static const Set256 kEmptySet = {{0, 0, 0, 0}};

static const u32 kNoVar = 0xffffffffu, kManyVars = 0xfffffffeu;

struct Expr {
  Op op; u16 width; u32 id;
  u32 v1;                 // only variable, kNoVar or kManyVars
  u64 lo, hi;             // constant value / extract offset / var index
  Expr *a, *b, *c;
  const Set256 *set;      // OInSet
  const std::vector<u32> *vars;  // sorted, if v1 == kManyVars
  Expr *canon;            // canonical replacement (or null while unknown)
  u32 stamp; u64 mlo, mhi;  // evaluation memo
  u32 nodes;
};

struct VarInfo { std::string name; u32 width; Expr *e; };
extern std::vector<VarInfo> g_vars;

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sext64(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

Expr *mkConst(u64 v, unsigned w);
Expr *mkConstWide(u128 v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w);  // same name => same variable
Expr *mkInSet(Expr *var, const Set256 &s);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *t, Expr *f);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkExtract(Expr *a, unsigned off, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
inline Expr *mkNot(Expr *a) { return mkBin(OXor, a, mkConst(1, 1)); }
inline bool isConst(Expr *e) { return e->op == OConst; }
inline bool isTrue(Expr *e) { return e->op == OConst && e->lo == 1; }
inline bool isFalse(Expr *e) { return e->op == OConst && e->lo == 0 && e->hi == 0; }

// Evaluate with an assignment (indexed by variable).
u128 evalExpr(Expr *e, const std::vector<u64> &model);
// Evaluate an expression over the single variable v with given value.
u128 evalSingle(Expr *e, u64 value);
void newEvalEpoch();
void exprVars(Expr *e, std::vector<u32> &out);
std::string exprStr(Expr *e, int depth = 4);
u128 foldBin(Op op, u128 a, u128 b, unsigned w);
size_t exprCount();
