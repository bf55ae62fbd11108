#include "expr.h"
#include <algorithm>
#include <unordered_set>

std::vector<std::string> g_varName;
std::vector<uint8_t> g_varWidth;
u64 g_exprTotal = 0;

static VarSet g_empty;

// ---------------------------------------------------------------------------------------------------------------------------------
struct HEq {
    bool operator()(const Expr *x, const Expr *y) const {
        return x->k == y->k && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v && x->vhi == y->vhi;
    }
};
struct HHash { size_t operator()(const Expr *x) const { return x->h; } };
static std::unordered_set<Expr *, HHash, HEq> g_tab;

static Expr *arenaNew() {
    static Expr *blk = nullptr; static size_t left = 0;
    if (!left) { left = 4096; blk = (Expr *)malloc(sizeof(Expr) * left); }
    left--;
    return blk++;
}

static const VarSet *varUnion(const VarSet *a, const VarSet *b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    if (std::includes(a->v.begin(), a->v.end(), b->v.begin(), b->v.end())) return a;
    if (std::includes(b->v.begin(), b->v.end(), a->v.begin(), a->v.end())) return b;
    struct PH { size_t operator()(const std::pair<const VarSet *, const VarSet *> &p) const { return (size_t)p.first * 31 + (size_t)p.second; } };
    static std::unordered_map<std::pair<const VarSet *, const VarSet *>, const VarSet *, PH> memo;
    if (a > b) std::swap(a, b);
    auto key = std::make_pair(a, b);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    VarSet *r = new VarSet;
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r->v));
    memo[key] = r;
    return r;
}

static void ranges(Expr *e);

static Expr *mk(Kind k, unsigned w, Expr *a, Expr *b, Expr *c, u64 v = 0, u64 vhi = 0) {
    Expr t; memset(&t, 0, sizeof(t));
    t.k = k; t.w = (uint8_t)w; t.a = a; t.b = b; t.c = c; t.v = v; t.vhi = vhi;
    u64 h = k * 0x9E3779B97F4A7C15ULL + w * 0x100000001B3ULL;
    auto mix = [&](u64 x) { h ^= x; h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; };
    mix(a ? a->id : 0); mix(b ? b->id + 7 : 0); mix(c ? c->id + 13 : 0); mix(v); mix(vhi);
    t.h = (uint32_t)h;
    auto it = g_tab.find(&t);
    if (it != g_tab.end()) return *it;
    Expr *e = arenaNew();
    *e = t;
    e->id = (uint32_t)++g_exprTotal;
    e->vars = &g_empty;
    if (a) e->vars = a->vars;
    if (b) e->vars = varUnion(e->vars, b->vars);
    if (c) e->vars = varUnion(e->vars, c->vars);
    ranges(e);
    g_tab.insert(e);
    return e;
}

static void ranges(Expr *e) {
    if (e->w > 64) { e->umin = 0; e->umax = ~0ULL; return; }
    u64 m = mask64(e->w);
    e->umin = 0; e->umax = m;
    Expr *a = e->a, *b = e->b;
    switch (e->k) {
    case KConst: e->umin = e->umax = e->v; break;
    case KZExt: e->umin = a->umin; e->umax = a->umax; break;
    case KExtract:
        if (a->w <= 64) {
            if (e->v == 0) { if (a->umax <= m) { e->umin = a->umin; e->umax = a->umax; } }
            else { u64 hi = a->umax >> e->v; if (hi <= m) { e->umax = hi; e->umin = a->umin >> e->v; } }
        }
        break;
    case KConcat:
        e->umin = (a->umin << b->w) | b->umin; e->umax = (a->umax << b->w) | b->umax; break;
    case KAdd: { u128 hi = (u128)a->umax + b->umax; if (hi <= m) { e->umin = a->umin + b->umin; e->umax = (u64)hi; } break; }
    case KSub: if (a->umin >= b->umax) { e->umin = a->umin - b->umax; e->umax = a->umax - b->umin; } break;
    case KMul: { u128 hi = (u128)a->umax * b->umax; if (hi <= m) { e->umin = a->umin * b->umin; e->umax = (u64)hi; } break; }
    case KAnd: e->umax = std::min(a->umax, b->umax); break;
    case KOr: {
        e->umin = std::max(a->umin, b->umin);
        u64 x = a->umax | b->umax; x |= x >> 1; x |= x >> 2; x |= x >> 4; x |= x >> 8; x |= x >> 16; x |= x >> 32;
        e->umax = std::min(m, x);
        break;
    }
    case KXor: {
        u64 x = a->umax | b->umax; x |= x >> 1; x |= x >> 2; x |= x >> 4; x |= x >> 8; x |= x >> 16; x |= x >> 32;
        e->umax = std::min(m, x);
        break;
    }
    case KUDiv: if (b->umin > 0) { e->umax = a->umax / b->umin; e->umin = a->umin / b->umax; } break;
    case KURem: if (b->umin > 0) e->umax = std::min(a->umax, b->umax - 1); break;
    case KIte: e->umin = std::min(b->umin, e->c->umin); e->umax = std::max(b->umax, e->c->umax); break;
    default: break;
    }
}

Expr *eConst(u128 v, unsigned w) { v &= maskW(w); return mk(KConst, w, nullptr, nullptr, nullptr, (u64)v, (u64)(v >> 64)); }

Expr *eVar(const std::string &name, unsigned w) {
    u64 id = g_varName.size();
    g_varName.push_back(name);
    g_varWidth.push_back((uint8_t)w);
    Expr *e = mk(KVar, w, nullptr, nullptr, nullptr, id);
    VarSet *vs = new VarSet;
    vs->v.push_back((uint32_t)id);
    e->vars = vs;
    return e;
}

u128 constFold(Kind k, u128 a, u128 b, unsigned w, bool &ok) {
    ok = true;
    u128 m = maskW(w);
    switch (k) {
    case KAdd: return (a + b) & m;
    case KSub: return (a - b) & m;
    case KMul: return (a * b) & m;
    case KUDiv: if (!b) { ok = false; return 0; } return a / b;
    case KURem: if (!b) { ok = false; return 0; } return a % b;
    case KSDiv: if (!b) { ok = false; return 0; } { __int128 x = sx(a, w), y = sx(b, w); if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case KSRem: if (!b) { ok = false; return 0; } { __int128 x = sx(a, w), y = sx(b, w); if (y == -1) return 0; return (u128)(x % y) & m; }
    case KAnd: return a & b;
    case KOr: return a | b;
    case KXor: return a ^ b;
    case KShl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case KLShr: return b >= w ? 0 : a >> (unsigned)b;
    case KAShr: return (u128)(sx(a, w) >> (unsigned)(b >= w ? w - 1 : b)) & m;
    case KEq: return a == b;
    case KUlt: return a < b;
    case KUle: return a <= b;
    case KSlt: return sx(a, w) < sx(b, w);
    case KSle: return sx(a, w) <= sx(b, w);
    default: ok = false; return 0;
    }
}

unsigned trailingZeros(Expr *e) {
    switch (e->k) {
    case KConst: if (e->cv() == 0) return e->w; { unsigned n = 0; u128 v = e->cv(); while (!(v & 1)) { n++; v >>= 1; } return n; }
    case KConcat: { unsigned n = trailingZeros(e->b); return n < e->b->w ? n : n + trailingZeros(e->a); }
    case KMul: return std::min((unsigned)e->w, trailingZeros(e->a) + trailingZeros(e->b));
    case KAdd: case KSub: case KOr: case KXor: return std::min(trailingZeros(e->a), trailingZeros(e->b));
    case KAnd: return std::max(trailingZeros(e->a), trailingZeros(e->b));
    case KZExt: case KSExt: return trailingZeros(e->a);
    case KIte: return std::min(trailingZeros(e->b), trailingZeros(e->c));
    case KShl: if (e->b->isConst()) return std::min((u64)e->w, trailingZeros(e->a) + e->b->v); return 0;
    default: return 0;
    }
}

Expr *eNot(Expr *a) {
    if (a->isConst()) return eConst(!a->v, 1);
    if (a->k == KXor && a->a->isConst() && a->a->v == 1) return a->b;
    if (a->k == KUlt) return eCmp(KUle, a->b, a->a);
    if (a->k == KUle) return eCmp(KUlt, a->b, a->a);
    if (a->k == KSlt) return eCmp(KSle, a->b, a->a);
    if (a->k == KSle) return eCmp(KSlt, a->b, a->a);
    return mk(KXor, 1, eConst(1, 1), a, nullptr);
}

static bool isNotOf(Expr *a, Expr *b) { return a->k == KXor && a->w == 1 && a->a->isConst() && a->a->v == 1 && a->b == b; }

Expr *eZExt(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (a->w > w) return eExtract(a, 0, w);
    if (a->isConst()) return eConst(a->cv(), w);
    if (a->k == KZExt) return eZExt(a->a, w);
    return mk(KZExt, w, a, nullptr, nullptr);
}

Expr *eSExt(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (a->w > w) return eExtract(a, 0, w);
    if (a->isConst()) return eConst((u128)sx(a->cv(), a->w), w);
    if (a->k == KSExt) return eSExt(a->a, w);
    if (a->k == KZExt) return eZExt(a->a, w);
    if (a->w <= 64 && a->w > 1 && a->umax < (1ULL << (a->w - 1))) return eZExt(a, w);
    if (a->k == KIte && a->b->isConst() && a->c->isConst()) return eIte(a->a, eSExt(a->b, w), eSExt(a->c, w));
    return mk(KSExt, w, a, nullptr, nullptr);
}

static Expr *eExtractDo(Expr *a, unsigned lo, unsigned w);
// Shared subterms would be walked once per occurrence without the cache
Expr *eExtract(Expr *a, unsigned lo, unsigned w) {
    if (lo == 0 && a->w == w) return a;
    if (a->isConst()) return eConst(a->cv() >> lo, w);
    if (a->k != KAnd && a->k != KOr && a->k != KXor && a->k != KAdd && a->k != KMul && a->k != KSub && a->k != KIte && a->k != KConcat) return eExtractDo(a, lo, w);
    static struct Memo { Expr *a, *r; unsigned lo, w; } memo[1 << 15];
    Memo &m = memo[(((uintptr_t)a >> 4) * 0x9E3779B97F4A7C15ULL ^ (uint64_t)(lo * 131 + w) * 0xC2B2AE3D27D4EB4FULL) >> 49];
    if (m.a == a && m.lo == lo && m.w == w) return m.r;
    Expr *r = eExtractDo(a, lo, w); m.a = a; m.r = r; m.lo = lo; m.w = w; return r;
}
static Expr *eExtractDo(Expr *a, unsigned lo, unsigned w) {
    switch (a->k) {
    case KExtract: return eExtract(a->a, lo + (unsigned)a->v, w);
    case KZExt:
        if (lo >= a->a->w) return eConst(0, w);
        if (lo + w <= a->a->w) return eExtract(a->a, lo, w);
        return eZExt(eExtract(a->a, lo, a->a->w - lo), w);
    case KSExt:
        if (lo + w <= a->a->w) return eExtract(a->a, lo, w);
        if (lo < a->a->w) return eSExt(eExtract(a->a, lo, a->a->w - lo), w);
        break;
    case KConcat:
        if (lo + w <= a->b->w) return eExtract(a->b, lo, w);
        if (lo >= a->b->w) return eExtract(a->a, lo - a->b->w, w);
        return eConcat(eExtract(a->a, 0, lo + w - a->b->w), eExtract(a->b, lo, a->b->w - lo));
    case KAnd: case KOr: case KXor:
        return eBin(a->k, eExtract(a->a, lo, w), eExtract(a->b, lo, w));
    case KAdd: case KMul: case KSub:
        if (lo == 0) return eBin(a->k, eExtract(a->a, 0, w), eExtract(a->b, 0, w));
        break;
    case KIte:
        if (a->b->isConst() || a->c->isConst() || (a->b->k == KZExt) || (a->c->k == KZExt) || a->b->k == KConcat || a->c->k == KConcat)
            return eIte(a->a, eExtract(a->b, lo, w), eExtract(a->c, lo, w));
        break;
    default: break;
    }
    if (a->w <= 64 && lo < 64 && lo > 0 && (a->umax >> lo) == 0) return eConst(0, w);
    return mk(KExtract, w, a, nullptr, nullptr, lo);
}

Expr *eConcat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (hi->isConst() && lo->isConst()) return eConst((hi->cv() << lo->w) | lo->cv(), w);
    if (hi->isConst() && hi->cv() == 0) return eZExt(lo, w);
    if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && hi->v == lo->v + lo->w) return eExtract(hi->a, (unsigned)lo->v, w);
    // extract(x) . rest-of-concat
    if (hi->k == KExtract && hi->v == lo->w && hi->a == lo) return lo;    // degenerate
    if (hi->k == KExtract && hi->a->w > lo->w && hi->v == lo->w && lo->k != KExtract) {
        // hi is the upper part of x, and lo equals the low part of x after simplification
        if (eExtract(hi->a, 0, lo->w) == lo) return eExtract(hi->a, 0, w);
    }
    if (lo->k == KConcat && hi->k == KExtract && lo->a->k == KExtract && hi->a == lo->a->a && hi->v == lo->a->v + lo->a->w)
        return eConcat(eExtract(hi->a, (unsigned)lo->a->v, hi->w + lo->a->w), lo->b);
    if (hi->k == KConcat) return eConcat(hi->a, eConcat(hi->b, lo));     // right assoc
    if (hi->k == KZExt) { // zext(x) . lo  ->  zext(x . lo)
        return eZExt(eConcat(hi->a, lo), w);
    }
    if (lo->k == KConcat && hi->isConst() && lo->a->isConst()) return eConcat(eConst((hi->cv() << lo->a->w) | lo->a->cv(), hi->w + lo->a->w), lo->b);
    if (hi->k == KIte && lo->k == KIte && hi->a == lo->a) return eIte(hi->a, eConcat(hi->b, lo->b), eConcat(hi->c, lo->c));
    return mk(KConcat, w, hi, lo, nullptr);
}

Expr *eIte(Expr *c, Expr *a, Expr *b) {
    if (c->isConst()) return c->v ? a : b;
    if (a == b) return a;
    if (c->k == KXor && c->w == 1 && c->a->isConst()) return eIte(c->b, b, a);
    if (a->w == 1) {
        if (a->isConst() && b->isConst()) return a->v ? c : eNot(c);
        if (a->isConst()) return a->v ? eBin(KOr, c, b) : eBin(KAnd, eNot(c), b);
        if (b->isConst()) return b->v ? eBin(KOr, eNot(c), a) : eBin(KAnd, c, a);
    }
    if (a->k == KIte && a->a == c) return eIte(c, a->b, b);
    if (b->k == KIte && b->a == c) return eIte(c, a, b->c);
    if (b->k == KIte && b->b == a) return eIte(eBin(KOr, c, b->a), a, b->c);
    if (a->isConst() && b->isConst() && a->cv() == 1 && b->cv() == 0) return eZExt(c, a->w);
    if (a->isConst() && b->isConst() && a->cv() == 0 && b->cv() == 1) return eZExt(eNot(c), a->w);
    return mk(KIte, a->w, c, a, b);
}

Expr *eEq(Expr *a, Expr *b) { return eCmp(KEq, a, b); }

static bool iteConstTree(Expr *e, int depth) {
    if (e->isConst()) return true;
    if (e->k != KIte || depth <= 0) return false;
    return iteConstTree(e->b, depth - 1) && iteConstTree(e->c, depth - 1);
}

Expr *eCmp(Kind k, Expr *a, Expr *b) {
    if (a->w != b->w) { fprintf(stderr, "width mismatch in cmp %d %d\n", a->w, b->w); abort(); }
    if (a->isConst() && b->isConst()) { bool ok; return eConst(constFold(k, a->cv(), b->cv(), a->w, ok), 1); }
    if (a == b) return eConst(k == KEq || k == KUle || k == KSle, 1);
    if (a->w == 1) {
        if (k == KEq) {
            if (a->isConst()) return a->v ? b : eNot(b);
            if (b->isConst()) return b->v ? a : eNot(a);
            return eNot(eBin(KXor, a, b));
        }
        if (k == KUlt) return eBin(KAnd, eNot(a), b);
        if (k == KUle) return eBin(KOr, eNot(a), b);
        if (k == KSlt) return eBin(KAnd, a, eNot(b));
        if (k == KSle) return eBin(KOr, a, eNot(b));
    }
    if (k == KEq) {
        if (b->isConst()) std::swap(a, b);                               // const on the left
        if (a->isConst()) {
            u128 cv = a->cv();
            if (b->w <= 64 && ((u64)cv < b->umin || (u64)cv > b->umax)) return eFalse();
            switch (b->k) {
            case KZExt: if (cv >> b->a->w) return eFalse(); return eEq(eConst(cv, b->a->w), b->a);
            case KSExt: { Expr *t = eConst(cv, b->a->w); if (eSExt(t, b->w) != a) return eFalse(); return eEq(t, b->a); }
            case KConcat: return eBin(KAnd, eEq(eConst(cv >> b->b->w, b->a->w), b->a), eEq(eConst(cv, b->b->w), b->b));
            case KIte:
                if (iteConstTree(b, 64) || b->b->isConst() || b->c->isConst()) {
                    Expr *x = eEq(a, b->b), *y = eEq(a, b->c);
                    return eIte(b->a, x, y);
                }
                break;
            case KAdd: if (b->a->isConst()) return eEq(eConst(cv - b->a->cv(), a->w), b->b); break;
            case KXor: if (b->a->isConst()) return eEq(eConst(cv ^ b->a->cv(), a->w), b->b); break;
            case KSub: if (cv == 0) return eEq(b->a, b->b); break;
            case KMul: if (b->a->isConst()) {
                // c == x * d without overflow
                u64 d = b->a->v;
                if (b->w <= 64 && d && (u128)b->b->umax * d <= mask64(b->w)) { if ((u64)cv % d) return eFalse(); return eEq(eConst((u64)cv / d, a->w), b->b); }
            } break;
            default: break;
            }
        }
        else {
            if (a->w <= 64 && (a->umax < b->umin || b->umax < a->umin)) return eFalse();
            if (a->k == KZExt && b->k == KZExt) {
                unsigned w = std::max(a->a->w, b->a->w);
                return eEq(eZExt(a->a, w), eZExt(b->a, w));
            }
            if (a->k == KConcat && b->k == KConcat && a->b->w == b->b->w) return eBin(KAnd, eEq(a->a, b->a), eEq(a->b, b->b));
            if (a->k == KAdd && b->k == KAdd && a->a->isConst() && b->a->isConst()) return eEq(eBin(KAdd, eConst(a->a->cv() - b->a->cv(), a->w), a->b), b->b);
            if (a->k == KAdd && a->a == b) return eEq(eConst(0, a->w), a->b);
            if (a->k == KAdd && a->b == b) return eEq(eConst(0, a->w), a->a);
            if (b->k == KAdd && b->a == a) return eEq(eConst(0, a->w), b->b);
            if (b->k == KAdd && b->b == a) return eEq(eConst(0, a->w), b->a);
            if (a->k == KIte && b->k == KIte && a->a == b->a) return eIte(a->a, eEq(a->b, b->b), eEq(a->c, b->c));
            if (a->id > b->id) std::swap(a, b);
        }
        return mk(KEq, 1, a, b, nullptr);
    }
    if (a->w <= 64) {
        if (k == KUlt) {
            if (a->umax < b->umin) return eTrue();
            if (a->umin >= b->umax) return eFalse();
            if (b->isConst() && b->v == 1) return eEq(eConst(0, a->w), a);
            if (a->isConst() && a->v == 0) return eNot(eEq(a, b));
        }
        if (k == KUle) {
            if (a->umax <= b->umin) return eTrue();
            if (a->umin > b->umax) return eFalse();
            if (b->isConst() && b->v == 0) return eEq(b, a);
            if (a->isConst() && a->v == 1) return eNot(eEq(eConst(0, a->w), b));
        }
        u64 half = 1ULL << (a->w - 1);
        if (k == KSlt || k == KSle) {
            if (a->umax < half && b->umax < half) return eCmp(k == KSlt ? KUlt : KUle, a, b);
            if (a->umin >= half && b->umax < half) return eTrue();
            if (a->umax < half && b->umin >= half) return eFalse();
            if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return eCmp(k, a->a, b->a);
            if (a->k == KSExt && b->isConst()) { Expr *t = eExtract(b, 0, a->a->w); if (eSExt(t, b->w) == b) return eCmp(k, a->a, t); }
            if (b->k == KSExt && a->isConst()) { Expr *t = eExtract(a, 0, b->a->w); if (eSExt(t, a->w) == a) return eCmp(k, t, b->a); }
        }
    }
    if ((k == KUlt || k == KUle)) {
        if (a->k == KZExt && b->k == KZExt) { unsigned w = std::max(a->a->w, b->a->w); return eCmp(k, eZExt(a->a, w), eZExt(b->a, w)); }
        if (a->k == KZExt && b->isConst() && b->cv() <= maskW(a->a->w)) return eCmp(k, a->a, eExtract(b, 0, a->a->w));
        if (b->k == KZExt && a->isConst() && a->cv() <= maskW(b->a->w)) return eCmp(k, eExtract(a, 0, b->a->w), b->a);
    }
    if (a->isConst() && b->k == KIte && iteConstTree(b, 64)) return eIte(b->a, eCmp(k, a, b->b), eCmp(k, a, b->c));
    if (b->isConst() && a->k == KIte && iteConstTree(a, 64)) return eIte(a->a, eCmp(k, a->b, b), eCmp(k, a->c, b));
    return mk(k, 1, a, b, nullptr);
}

Expr *eBin(Kind k, Expr *a, Expr *b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch in bin %d: %d %d\n", k, a->w, b->w); abort(); }
    if (a->isConst() && b->isConst()) { bool ok; u128 r = constFold(k, a->cv(), b->cv(), w, ok); if (ok) return eConst(r, w); }
    switch (k) {
    case KAdd: case KMul: case KAnd: case KOr: case KXor:
        if (b->isConst()) std::swap(a, b);
        else if (!a->isConst() && a->id > b->id) std::swap(a, b);
        break;
    default: break;
    }
    switch (k) {
    case KAdd:
        if (a->isConst()) {
            if (a->cv() == 0) return b;
            if (b->k == KAdd && b->a->isConst()) return eBin(KAdd, eConst(a->cv() + b->a->cv(), w), b->b);
            if (b->k == KSub && b->a->isConst()) return eBin(KSub, eConst(a->cv() + b->a->cv(), w), b->b);
            if (b->k == KIte && b->b->isConst() && b->c->isConst()) return eIte(b->a, eBin(KAdd, a, b->b), eBin(KAdd, a, b->c));
        } else {
            // float constants up
            if (a->k == KAdd && a->a->isConst()) return eBin(KAdd, a->a, eBin(KAdd, a->b, b));
            if (b->k == KAdd && b->a->isConst()) return eBin(KAdd, b->a, eBin(KAdd, a, b->b));
            if (a->k == KSub && a->b == b) return a->a;
            if (b->k == KSub && b->b == a) return b->a;
        }
        if (w == 1) return eBin(KXor, a, b);
        break;
    case KSub:
        if (a == b) return eConst(0, w);
        if (b->isConst()) return eBin(KAdd, eConst((u128)0 - b->cv(), w), a);
        if (a->k == KAdd && a->a->isConst() && !(b->k == KAdd && b->a->isConst())) {
            if (a->b == b) return a->a;
            return eBin(KAdd, a->a, eBin(KSub, a->b, b));
        }
        if (b->k == KAdd && b->a->isConst()) {
            if (a->k == KAdd && a->a->isConst()) return eBin(KAdd, eConst(a->a->cv() - b->a->cv(), w), eBin(KSub, a->b, b->b));
            return eBin(KAdd, eConst((u128)0 - b->a->cv(), w), eBin(KSub, a, b->b));
        }
        if (a->k == KAdd && a->a == b) return a->b;
        if (a->k == KAdd && a->b == b) return a->a;
        if (b->k == KAdd && b->a == a) return eBin(KSub, eConst(0, w), b->b);
        if (b->k == KAdd && b->b == a) return eBin(KSub, eConst(0, w), b->a);
        if (w == 1) return eBin(KXor, a, b);
        break;
    case KMul:
        if (a->isConst()) {
            if (a->cv() == 0) return a;
            if (a->cv() == 1) return b;
            if (b->k == KMul && b->a->isConst()) return eBin(KMul, eConst(a->cv() * b->a->cv(), w), b->b);
            if (b->k == KIte && b->b->isConst() && b->c->isConst()) return eIte(b->a, eBin(KMul, a, b->b), eBin(KMul, a, b->c));
            u128 cv = a->cv();
            if (w > 1 && (cv & (cv - 1)) == 0) { unsigned n = 0; while (!((cv >> n) & 1)) n++; return eBin(KShl, b, eConst(n, w)); }
        }
        if (w == 1) return eBin(KAnd, a, b);
        break;
    case KAnd:
        if (a == b) return a;
        if (a->isConst()) {
            u128 m = a->cv();
            if (m == 0) return a;
            if (m == maskW(w)) return b;
            if (b->k == KAnd && b->a->isConst()) return eBin(KAnd, eConst(m & b->a->cv(), w), b->b);
            if (w > 1) {
                if ((m & (m + 1)) == 0) { unsigned n = 0; while ((m >> n) & 1) n++; return eZExt(eExtract(b, 0, n), w); }
                if (b->k == KZExt) return eZExt(eBin(KAnd, eExtract(a, 0, b->a->w), b->a), w);
                if (b->k == KConcat) return eConcat(eBin(KAnd, eExtract(a, b->b->w, b->a->w), b->a), eBin(KAnd, eExtract(a, 0, b->b->w), b->b));
                if (b->k == KIte && b->b->isConst() && b->c->isConst()) return eIte(b->a, eBin(KAnd, a, b->b), eBin(KAnd, a, b->c));
                // high mask: ~(2^n-1) -> concat(extract, 0)
                u128 inv = (~m) & maskW(w);
                if ((inv & (inv + 1)) == 0) { unsigned n = 0; while ((inv >> n) & 1) n++; return eConcat(eExtract(b, n, w - n), eConst(0, n)); }
                // contiguous single run
                { unsigned lo = 0; while (!((m >> lo) & 1)) lo++; u128 r = m >> lo; if ((r & (r + 1)) == 0) { unsigned n = 0; while ((r >> n) & 1) n++; return eZExt(eConcat(eExtract(b, lo, n), eConst(0, lo)), w); } }
            }
        }
        if (w == 1) {
            if (isNotOf(a, b) || isNotOf(b, a)) return eFalse();
            if (a->k == KAnd && (a->a == b || a->b == b)) return a;
            if (b->k == KAnd && (b->a == a || b->b == a)) return b;
            if (a->k == KOr && (a->a == b || a->b == b)) return b;
            if (b->k == KOr && (b->a == a || b->b == a)) return a;
            // x == c1 & x == c2
            if (a->k == KEq && b->k == KEq && a->b == b->b && a->a->isConst() && b->a->isConst() && a->a != b->a) return eFalse();
        }
        break;
    case KOr:
        if (a == b) return a;
        if (a->isConst()) {
            u128 m = a->cv();
            if (m == 0) return b;
            if (m == maskW(w)) return a;
            if (b->k == KOr && b->a->isConst()) return eBin(KOr, eConst(m | b->a->cv(), w), b->b);
            if (b->k == KIte && b->b->isConst() && b->c->isConst()) return eIte(b->a, eBin(KOr, a, b->b), eBin(KOr, a, b->c));
            if (b->k == KConcat) return eConcat(eBin(KOr, eExtract(a, b->b->w, b->a->w), b->a), eBin(KOr, eExtract(a, 0, b->b->w), b->b));
            if (b->k == KZExt) return eConcat(eExtract(a, b->a->w, w - b->a->w), eBin(KOr, eExtract(a, 0, b->a->w), b->a));
        } else if (w > 1) {
            // disjoint: zext(x) | (y . 0...) -> concat
            for (int i = 0; i < 2; i++) {
                Expr *x = i ? b : a, *y = i ? a : b;
                unsigned tz = trailingZeros(y);
                if (tz > 0 && tz < w && w <= 64 && (x->umax >> tz) == 0) return eConcat(eExtract(y, tz, w - tz), eExtract(x, 0, tz));
                if (tz > 0 && tz < w && w > 64 && x->k == KZExt && x->a->w <= tz) return eConcat(eExtract(y, tz, w - tz), eExtract(x, 0, tz));
            }
        }
        if (w == 1) {
            if (isNotOf(a, b) || isNotOf(b, a)) return eTrue();
            if (a->k == KOr && (a->a == b || a->b == b)) return a;
            if (b->k == KOr && (b->a == a || b->b == a)) return b;
            if (a->k == KAnd && (a->a == b || a->b == b)) return b;
            if (b->k == KAnd && (b->a == a || b->b == a)) return a;
        }
        break;
    case KXor:
        if (a == b) return eConst(0, w);
        if (w == 1 && a->isConst()) return a->v ? eNot(b) : b;
        if (a->isConst()) {
            if (a->cv() == 0) return b;
            if (b->k == KXor && b->a->isConst()) return eBin(KXor, eConst(a->cv() ^ b->a->cv(), w), b->b);
            if (b->k == KIte && b->b->isConst() && b->c->isConst()) return eIte(b->a, eBin(KXor, a, b->b), eBin(KXor, a, b->c));
            if (b->k == KConcat) return eConcat(eBin(KXor, eExtract(a, b->b->w, b->a->w), b->a), eBin(KXor, eExtract(a, 0, b->b->w), b->b));
            if (b->k == KZExt) return eConcat(eExtract(a, b->a->w, w - b->a->w), eBin(KXor, eExtract(a, 0, b->a->w), b->a));
        } else if (w > 1 && (a->k == KXor || b->k == KXor)) {
            // cancel equal operands of a small tree of exclusive ors
            Expr *leaf[16], *todo[18]; unsigned n = 0, t = 0; bool cancel = false, full = false; u128 c = 0;
            todo[t++] = a; todo[t++] = b;
            while (t && !full) {
                Expr *e = todo[--t];
                if (e->k == KXor) { if (t + 2 > 18) { full = true; break; } todo[t++] = e->a; todo[t++] = e->b; continue; }
                if (e->isConst()) { c ^= e->cv(); continue; }
                unsigned i = 0; while (i < n && leaf[i] != e) i++;
                if (i < n) { leaf[i] = leaf[--n]; cancel = true; } else if (n == 16) full = true; else leaf[n++] = e;
            }
            if (cancel && !full) {
                std::sort(leaf, leaf + n, [](Expr *x, Expr *y) { return x->id < y->id; });
                Expr *r = eConst(0, w); for (unsigned i = 0; i < n; i++) r = i ? eBin(KXor, r, leaf[i]) : leaf[i];
                return c ? eBin(KXor, eConst(c, w), r) : r;
            }
        }
        break;
    case KShl:
        if (b->isConst()) {
            if (b->cv() == 0) return a;
            if (b->cv() >= w) return eConst(0, w);
            return eConcat(eExtract(a, 0, w - (unsigned)b->v), eConst(0, (unsigned)b->v));
        }
        break;
    case KLShr:
        if (b->isConst()) {
            if (b->cv() == 0) return a;
            if (b->cv() >= w) return eConst(0, w);
            return eZExt(eExtract(a, (unsigned)b->v, w - (unsigned)b->v), w);
        }
        break;
    case KAShr:
        if (b->isConst()) {
            if (b->cv() == 0) return a;
            unsigned n = b->cv() >= w ? w - 1 : (unsigned)b->v;
            return eSExt(eExtract(a, n, w - n), w);
        }
        break;
    case KUDiv:
        if (b->isConst() && b->cv() != 0) {
            u128 cv = b->cv();
            if (cv == 1) return a;
            if ((cv & (cv - 1)) == 0) { unsigned n = 0; while (!((cv >> n) & 1)) n++; return eBin(KLShr, a, eConst(n, w)); }
            if (w <= 64 && a->umax < (u64)cv) return eConst(0, w);
            if (a->k == KMul && a->a->isConst() && w <= 64 && a->a->v == b->v && (u128)a->b->umax * b->v <= mask64(w)) return a->b;
        }
        break;
    case KURem:
        if (b->isConst() && b->cv() != 0) {
            u128 cv = b->cv();
            if (cv == 1) return eConst(0, w);
            if ((cv & (cv - 1)) == 0) { unsigned n = 0; while (!((cv >> n) & 1)) n++; return eZExt(eExtract(a, 0, n), w); }
            if (w <= 64 && a->umax < (u64)cv) return a;
        }
        break;
    case KSDiv: case KSRem:
        if (w <= 64) {
            u64 half = 1ULL << (w - 1);
            if (a->umax < half && b->umax < half) return eBin(k == KSDiv ? KUDiv : KURem, a, b);
        }
        break;
    default: break;
    }
    return mk(k, w, a, b, nullptr);
}

Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c) {
    switch (e->k) {
    case KConst: case KVar: return e;
    case KZExt: return eZExt(a, e->w);
    case KSExt: return eSExt(a, e->w);
    case KExtract: return eExtract(a, (unsigned)e->v, e->w);
    case KConcat: return eConcat(a, b);
    case KIte: return eIte(a, b, c);
    case KEq: case KUlt: case KUle: case KSlt: case KSle: return eCmp(e->k, a, b);
    default: return eBin(e->k, a, b);
    }
}

u128 evalExpr(Expr *e, const std::vector<u64> &model, u64 stamp) {
    if (e->k == KConst) return e->cv();
    if (e->k == KVar) return e->v < model.size() ? model[e->v] : 0;
    if (e->evStamp == stamp) return e->evVal;
    u128 r = 0;
    switch (e->k) {
    case KZExt: r = evalExpr(e->a, model, stamp); break;
    case KSExt: r = (u128)sx(evalExpr(e->a, model, stamp), e->a->w) & maskW(e->w); break;
    case KExtract: r = (evalExpr(e->a, model, stamp) >> e->v) & maskW(e->w); break;
    case KConcat: r = (evalExpr(e->a, model, stamp) << e->b->w) | evalExpr(e->b, model, stamp); break;
    case KIte: r = evalExpr(e->a, model, stamp) ? evalExpr(e->b, model, stamp) : evalExpr(e->c, model, stamp); break;
    default: {
        u128 x = evalExpr(e->a, model, stamp), y = evalExpr(e->b, model, stamp);
        bool ok; r = constFold(e->k, x, y, e->a->w, ok);
        if (!ok) {                                      // SMT-LIB semantics of division by zero
            if (e->k == KUDiv) r = maskW(e->w);
            else if (e->k == KURem || e->k == KSRem) r = x;
            else if (e->k == KSDiv) r = sx(x, e->w) < 0 ? 1 : maskW(e->w);
        }
    }
    }
    e->evStamp = stamp; e->evVal = r;
    return r;
}

std::string exprStr(Expr *e, int d) {
    static const char *nm[] = {"const", "var", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "zext", "sext", "extract", "concat", "ite"};
    char buf[64];
    if (e->k == KConst) { snprintf(buf, sizeof buf, "0x%llx:%d", (unsigned long long)e->v, e->w); return buf; }
    if (e->k == KVar) return g_varName[e->v];
    if (d <= 0) return "...";
    std::string r = "(";
    r += nm[e->k];
    if (e->k == KExtract) { snprintf(buf, sizeof buf, "[%u+%d]", (unsigned)e->v, e->w); r += buf; }
    if (e->k == KZExt || e->k == KSExt) { snprintf(buf, sizeof buf, "%d", e->w); r += buf; }
    for (Expr *x : {e->a, e->b, e->c}) if (x) r += " " + exprStr(x, d - 1);
    return r + ")";
}
