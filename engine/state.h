// Symbolic execution state: persistent memory, frames, path condition.
#pragma once
#include "expr.h"
#include <memory>
#include <unordered_map>

struct Val { u64 c; Expr *e; };
static inline Val vc(u64 c) { return Val{c, nullptr}; }
static inline Val ve(Expr *e) { if (e->isConst() && e->w <= 64) return Val{e->v, nullptr}; return Val{0, e}; }
static inline Expr *toExpr(const Val &v, unsigned w) { return v.e ? v.e : eConst(v.c, w); }

enum ObjKind : uint8_t { OHeap, OStack, OGlobal, OFunc };

struct Obj {
    uint32_t ref = 0;
    ObjKind kind; bool readOnly = false;
    uint32_t size;
    uint8_t *d;                                      // concrete bytes
    Expr **s = nullptr;                              // symbolic bytes (null entry: concrete)
    const char *name = nullptr;
    u64 tag = 0;
    Obj(uint32_t sz, ObjKind k) : kind(k), size(sz) { d = (uint8_t *)malloc(sz ? sz : 1); }
    Obj(const Obj &o) : kind(o.kind), readOnly(o.readOnly), size(o.size), name(o.name), tag(o.tag) {
        d = (uint8_t *)malloc(size ? size : 1); memcpy(d, o.d, size);
        if (o.s) { s = (Expr **)malloc(sizeof(Expr *) * (size ? size : 1)); memcpy(s, o.s, sizeof(Expr *) * size); }
    }
    ~Obj() { free(d); free(s); }
    void symInit() { if (!s) s = (Expr **)calloc(size ? size : 1, sizeof(Expr *)); }
};

#define RB 6
#define RN (1 << RB)
struct RNode {
    uint32_t ref = 0; uint32_t cnt = 0;
    void *ch[RN] = {};
};

struct Mem {
    RNode *root = nullptr; int levels = 1; u64 next = 1;
    Mem() {}
    Mem(const Mem &m) : root(m.root), levels(m.levels), next(m.next) { if (root) root->ref++; }
    Mem &operator=(const Mem &) = delete;
    ~Mem() { drop(root, levels - 1); }
    static void drop(RNode *n, int lv) {
        if (!n || --n->ref) return;
        for (int i = 0; i < RN; i++) if (n->ch[i]) { if (lv == 0) { Obj *o = (Obj *)n->ch[i]; if (!--o->ref) delete o; } else drop((RNode *)n->ch[i], lv - 1); }
        delete n;
    }
    static RNode *own(RNode *n, int lv) {            // make exclusively owned
        if (!n) { RNode *r = new RNode; r->ref = 1; return r; }
        if (n->ref == 1) return n;
        RNode *r = new RNode(*n); r->ref = 1; n->ref--;
        for (int i = 0; i < RN; i++) if (r->ch[i]) { if (lv == 0) ((Obj *)r->ch[i])->ref++; else ((RNode *)r->ch[i])->ref++; }
        return r;
    }
    Obj *get(u64 idx) const {
        if (idx >> (RB * levels)) return nullptr;
        RNode *n = root;
        for (int lv = levels - 1; lv > 0; lv--) { if (!n) return nullptr; n = (RNode *)n->ch[(idx >> (RB * lv)) & (RN - 1)]; }
        return n ? (Obj *)n->ch[idx & (RN - 1)] : nullptr;
    }
    // Replace the object at idx (null: remove)
    void set(u64 idx, Obj *o) {
        while (idx >> (RB * levels)) {
            RNode *r = new RNode; r->ref = 1;
            if (root) { r->ch[0] = root; r->cnt = 1; }
            root = r; levels++;
        }
        root = own(root, levels - 1);
        RNode *path[12]; RNode *n = root;
        for (int lv = levels - 1; lv > 0; lv--) {
            path[lv] = n;
            void *&c = n->ch[(idx >> (RB * lv)) & (RN - 1)];
            if (!c) n->cnt++;
            c = own((RNode *)c, lv - 1);
            n = (RNode *)c;
        }
        path[0] = n;
        void *&c = n->ch[idx & (RN - 1)];
        if (c == o) return;
        if (c) { Obj *x = (Obj *)c; if (!--x->ref) delete x; if (!o) n->cnt--; }
        else if (o) n->cnt++;
        c = o;
        if (o) o->ref++;
        // Drop empty nodes
        if (!o) for (int lv = 0; lv < levels - 1 && path[lv]->cnt == 0; lv++) {
            delete path[lv];
            path[lv + 1]->ch[(idx >> (RB * (lv + 1))) & (RN - 1)] = nullptr;
            path[lv + 1]->cnt--;
        }
    }
    Obj *getW(u64 idx) {                             // for writing
        // Fast path: exclusively owned all the way down
        RNode *n = root; bool excl = n && n->ref == 1;
        if (idx >> (RB * levels)) return nullptr;
        for (int lv = levels - 1; lv > 0 && n; lv--) { n = (RNode *)n->ch[(idx >> (RB * lv)) & (RN - 1)]; if (n && n->ref != 1) excl = false; }
        if (!n) return nullptr;
        Obj *o = (Obj *)n->ch[idx & (RN - 1)];
        if (!o) return nullptr;
        if (excl && o->ref == 1) return o;
        if (!excl) {
            // own the path
            root = own(root, levels - 1); n = root;
            for (int lv = levels - 1; lv > 0; lv--) { void *&c = n->ch[(idx >> (RB * lv)) & (RN - 1)]; c = own((RNode *)c, lv - 1); n = (RNode *)c; }
            o = (Obj *)n->ch[idx & (RN - 1)];
            if (o->ref == 1) return o;
        }
        Obj *x = new Obj(*o);
        o->ref--; x->ref = 1;
        n->ch[idx & (RN - 1)] = x;
        return x;
    }
};

struct Func;
struct Frame {
    uint32_t ref = 0;
    Func *f; uint32_t pc = 0;
    u64 uid = 0;
    std::vector<Val> r;
    std::vector<u64> allocas;
    u64 va = 0;                                      // address of the variadic area
};

struct CNode { Expr *e; CNode *next; uint32_t ref; uint32_t n; };

struct SymRec { std::string name; Expr *e; };

struct State {
    Mem mem;
    std::vector<Frame *> fr;
    CNode *pc = nullptr;                             // path condition
    std::vector<u64> model;
    std::vector<SymRec> sym;
    std::unordered_map<std::string, uint32_t> symCount;
    std::vector<Val> obs;
    std::unordered_map<Expr *, Expr *> eq;           // known equalities expr -> const
    std::unordered_map<Expr *, Expr *> simp;         // memo for simplification under eq
    u64 nextUid = 1; u64 steps = 0; uint32_t depth = 0;
    u64 heapBytes = 0;
    State() {}
    State(const State &o) : mem(o.mem), fr(o.fr), pc(o.pc), model(o.model), sym(o.sym), symCount(o.symCount), obs(o.obs), eq(o.eq), nextUid(o.nextUid), steps(o.steps), depth(o.depth), heapBytes(o.heapBytes) {
        for (auto *f : fr) f->ref++;
        if (pc) pc->ref++;
    }
    ~State() {
        for (auto *f : fr) if (!--f->ref) delete f;
        CNode *n = pc;
        while (n && !--n->ref) { CNode *x = n->next; delete n; n = x; }
    }
    Frame *top() {
        Frame *&f = fr.back();
        if (f->ref != 1) { Frame *x = new Frame(*f); x->ref = 1; f->ref--; f = x; }
        return f;
    }
    Frame *ownFrame(size_t i) {
        Frame *&f = fr[i];
        if (f->ref != 1) { Frame *x = new Frame(*f); x->ref = 1; f->ref--; f = x; }
        return f;
    }
};
