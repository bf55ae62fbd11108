#include "solver.h"
#include <z3.h>
#include <chrono>
#include <set>

SolverStats g_solver;
static Z3_context ctx;
static Z3_solver slv, slv2;
static std::vector<Expr *> stack;                    // asserted expressions, one scope each
static std::vector<Z3_func_decl> varDecl;

static void z3Err(Z3_context, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(ctx, e)); abort(); }

static void init() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);                        // AST lifetimes: never freed
    Z3_set_error_handler(ctx, z3Err);
    slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, slv);
    // A resource limit instead of a timer: timer threads do not survive fork()
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    const char *rl = getenv("SYMX_RLIMIT");
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rl ? (unsigned)atol(rl) : 3000000u);
    Z3_solver_set_params(ctx, slv, p);
    Z3_tactic t = Z3_mk_tactic(ctx, "simplify"); Z3_tactic_inc_ref(ctx, t);
    for (const char *n : {"propagate-values", "solve-eqs", "simplify", "bit-blast", "simplify", "sat"}) { Z3_tactic x = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, x); t = Z3_tactic_and_then(ctx, t, x); Z3_tactic_inc_ref(ctx, t); }
    slv2 = Z3_mk_solver_from_tactic(ctx, t); Z3_solver_inc_ref(ctx, slv2);
    Z3_params p2 = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p2);
    Z3_params_set_uint(ctx, p2, Z3_mk_string_symbol(ctx, "rlimit"), 2000000000u);
    Z3_solver_set_params(ctx, slv2, p2);
}

static Z3_ast bv(Expr *e);

static Z3_ast boolOf(Expr *e);
static Z3_ast bitOf(Z3_ast b) {
    static Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), zero = Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1));
    return Z3_mk_ite(ctx, b, one, zero);
}

// Width-1 expressions translate to Bool
static Z3_ast tr(Expr *e) {
    if (e->z) return (Z3_ast)e->z;
    Z3_ast r = nullptr;
    switch (e->k) {
    case KConst:
        if (e->w == 1) r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        else if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, e->v, Z3_mk_bv_sort(ctx, e->w));
        else {
            Z3_ast hi = Z3_mk_unsigned_int64(ctx, e->vhi, Z3_mk_bv_sort(ctx, e->w - 64)), lo = Z3_mk_unsigned_int64(ctx, e->v, Z3_mk_bv_sort(ctx, 64));
            r = Z3_mk_concat(ctx, hi, lo);
        }
        break;
    case KVar: {
        Z3_symbol s = Z3_mk_int_symbol(ctx, (int)e->v);
        Z3_sort so = e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w);
        if (varDecl.size() <= e->v) varDecl.resize(e->v + 1);
        varDecl[e->v] = Z3_mk_func_decl(ctx, s, 0, nullptr, so);
        r = Z3_mk_app(ctx, varDecl[e->v], 0, nullptr);
        break;
    }
    case KAnd: case KOr: case KXor:
        if (e->w == 1) {
            Z3_ast ar[2] = {tr(e->a), tr(e->b)};
            if (e->k == KAnd) r = Z3_mk_and(ctx, 2, ar);
            else if (e->k == KOr) r = Z3_mk_or(ctx, 2, ar);
            else if (e->a->isConst()) r = e->a->v ? Z3_mk_not(ctx, ar[1]) : ar[1];
            else r = Z3_mk_xor(ctx, ar[0], ar[1]);
        } else {
            Z3_ast x = tr(e->a), y = tr(e->b);
            r = e->k == KAnd ? Z3_mk_bvand(ctx, x, y) : e->k == KOr ? Z3_mk_bvor(ctx, x, y) : Z3_mk_bvxor(ctx, x, y);
        }
        break;
    case KEq: r = Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
    case KUlt: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
    case KUle: r = Z3_mk_bvule(ctx, bv(e->a), bv(e->b)); break;
    case KSlt: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
    case KSle: r = Z3_mk_bvsle(ctx, bv(e->a), bv(e->b)); break;
    case KIte: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
    case KZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case KSExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, bv(e->a)); break;
    case KExtract: {
        Z3_ast x = Z3_mk_extract(ctx, (unsigned)(e->v + e->w - 1), (unsigned)e->v, bv(e->a));
        r = e->w == 1 ? Z3_mk_eq(ctx, x, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))) : x;
        break;
    }
    case KConcat: r = Z3_mk_concat(ctx, bv(e->a), bv(e->b)); break;
    default: {
        Z3_ast x = bv(e->a), y = bv(e->b);
        switch (e->k) {
        case KAdd: r = Z3_mk_bvadd(ctx, x, y); break;
        case KSub: r = Z3_mk_bvsub(ctx, x, y); break;
        case KMul: r = Z3_mk_bvmul(ctx, x, y); break;
        case KUDiv: r = Z3_mk_bvudiv(ctx, x, y); break;
        case KSDiv: r = Z3_mk_bvsdiv(ctx, x, y); break;
        case KURem: r = Z3_mk_bvurem(ctx, x, y); break;
        case KSRem: r = Z3_mk_bvsrem(ctx, x, y); break;
        case KShl: r = Z3_mk_bvshl(ctx, x, y); break;
        case KLShr: r = Z3_mk_bvlshr(ctx, x, y); break;
        case KAShr: r = Z3_mk_bvashr(ctx, x, y); break;
        default: abort();
        }
        if (e->w == 1) r = Z3_mk_eq(ctx, r, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
    }
    }
    e->z = r;
    return r;
}
static Z3_ast bv(Expr *e) { Z3_ast r = tr(e); return e->w == 1 ? bitOf(r) : r; }

// ---------------------------------------------------------------------------------------------------------------------------------
struct CacheEnt { SolveResult r; std::vector<std::pair<uint32_t, u64>> model; };
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 1469598103934665603ULL; for (auto x : v) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> g_cache;

SolveResult solve(std::vector<Expr *> conj, std::vector<std::pair<uint32_t, u64>> &model) {
    if (!ctx) init();
    std::vector<uint32_t> key;
    for (auto *e : conj) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = g_cache.find(key);
    if (it != g_cache.end()) { g_solver.cacheHits++; model = it->second.model; return it->second.r; }

    auto t0 = std::chrono::steady_clock::now();
    // Keep the longest common prefix of the scopes
    size_t n = 0;
    while (n < stack.size() && n < conj.size() && stack[n] == conj[n]) n++;
    if (stack.size() > n) { Z3_solver_pop(ctx, slv, (unsigned)(stack.size() - n)); stack.resize(n); }
    for (size_t i = n; i < conj.size(); i++) {
        Z3_solver_push(ctx, slv);
        Z3_solver_assert(ctx, slv, tr(conj[i]));
        stack.push_back(conj[i]);
    }
    Z3_lbool r = Z3_solver_check(ctx, slv);
    Z3_solver use = slv;
    if (r == Z3_L_UNDEF) {
        // The incremental solver gave up early: bit-blast the whole query from scratch
        Z3_solver_reset(ctx, slv2);
        for (auto *e : conj) Z3_solver_assert(ctx, slv2, tr(e));
        r = Z3_solver_check(ctx, slv2); use = slv2; g_solver.fallback++;
    }
    CacheEnt ent;
    g_solver.queries++;
    if (r == Z3_L_FALSE) { ent.r = SUnsat; g_solver.unsat++; }
    else if (r == Z3_L_TRUE) {
        ent.r = SSat; g_solver.sat++;
        Z3_model m = Z3_solver_get_model(ctx, use);
        Z3_model_inc_ref(ctx, m);
        std::set<uint32_t> vs;
        for (auto *e : conj) vs.insert(e->vars->v.begin(), e->vars->v.end());
        for (uint32_t v : vs) {
            u64 val = 0;
            if (v < varDecl.size() && varDecl[v]) {
                Z3_ast out = Z3_model_get_const_interp(ctx, m, varDecl[v]);
                if (out) {
                    if (g_varWidth[v] == 1) val = Z3_get_bool_value(ctx, out) == Z3_L_TRUE;
                    else if (!Z3_get_numeral_uint64(ctx, out, (uint64_t *)&val)) { fprintf(stderr, "bad numeral\n"); abort(); }
                }
            }
            ent.model.push_back({v, val});
        }
        Z3_model_dec_ref(ctx, m);
    }
    else { ent.r = SUnknown; g_solver.unknown++; }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_solver.time += dt;
    if (dt > g_solver.maxTime) g_solver.maxTime = dt;
    if (getenv("SYMX_SLOW") && dt > atof(getenv("SYMX_SLOW"))) {
        fprintf(stderr, "slow query %.2fs res=%d n=%zu last=%s\n", dt, ent.r, conj.size(), exprStr(conj.back(), 8).c_str());
    }
    model = ent.model;
    g_cache.emplace(std::move(key), std::move(ent));
    return (SolveResult)(r == Z3_L_FALSE ? SUnsat : r == Z3_L_TRUE ? SSat : SUnknown);
}
