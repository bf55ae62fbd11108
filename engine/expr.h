// Hash-consed bit-vector expressions with local simplification. Width-1 expressions are booleans.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>

typedef unsigned __int128 u128;
typedef uint64_t u64;

enum Kind : uint8_t {
    KConst, KVar, KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
    KEq, KUlt, KUle, KSlt, KSle, KZExt, KSExt, KExtract, KConcat, KIte
};

struct VarSet { std::vector<uint32_t> v; };          // sorted

struct Expr {
    Kind k; uint8_t w; uint32_t id; uint32_t h;
    Expr *a, *b, *c;
    u64 v, vhi;                                      // const value / extract offset / var id
    u64 umin, umax;                                  // unsigned range (w <= 64)
    const VarSet *vars;
    void *z;                                         // Z3_ast
    u64 evStamp; u128 evVal;
    bool isConst() const { return k == KConst; }
    u128 cv() const { return ((u128)vhi << 64) | v; }
};

extern std::vector<std::string> g_varName;           // by var id
extern std::vector<uint8_t> g_varWidth;
extern u64 g_exprTotal;

static inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline __int128 sx(u128 v, unsigned w) {
    if (w >= 128) return (__int128)v;
    u128 s = (u128)1 << (w - 1);
    v &= maskW(w);
    return (__int128)((v ^ s) - s);
}

Expr *eConst(u128 v, unsigned w);
Expr *eVar(const std::string &name, unsigned w);
Expr *eBin(Kind k, Expr *a, Expr *b);
Expr *eNot(Expr *a);                                 // boolean
Expr *eEq(Expr *a, Expr *b);
Expr *eCmp(Kind k, Expr *a, Expr *b);                // KEq KUlt KUle KSlt KSle
Expr *eZExt(Expr *a, unsigned w);
Expr *eSExt(Expr *a, unsigned w);
Expr *eExtract(Expr *a, unsigned lo, unsigned w);
Expr *eConcat(Expr *hi, Expr *lo);
Expr *eIte(Expr *c, Expr *a, Expr *b);
Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c);
u128 constFold(Kind k, u128 a, u128 b, unsigned w, bool &ok);
u128 evalExpr(Expr *e, const std::vector<u64> &model, u64 stamp);
unsigned trailingZeros(Expr *e);
std::string exprStr(Expr *e, int depth = 6);
static inline Expr *eTrue() { static Expr *t = eConst(1, 1); return t; }
static inline Expr *eFalse() { static Expr *f = eConst(0, 1); return f; }
