#include "expr.hpp"
#include "shared.hpp"
#include <z3.h>
#include <time.h>
#include <set>

std::vector<VarInfo> g_vars;
std::vector<u128> g_model;
u32 g_epoch = 1;

static std::unordered_set<Expr *, ExprHash, ExprEq> table;
static u32 next_id = 1;
static Expr *chunk = nullptr;
static size_t chunk_left = 0;
static const std::vector<u32> empty_vars;

static Expr *intern(EK k, unsigned w, u128 v, Expr *a, Expr *b, Expr *c) {
    Expr t;
    t.k = k; t.w = w; t.v = v; t.a = a; t.b = b; t.c = c;
    auto it = table.find(&t);
    if(it != table.end()) return *it;
    if(chunk_left == 0) { chunk = (Expr *)malloc(sizeof(Expr) * 1024); chunk_left = 1024; }
    Expr *e = chunk++;
    chunk_left--;
    *e = t;
    e->id = next_id++;
    e->epoch = 0;
    e->vars = nullptr;
    e->z = nullptr;
    table.insert(e);
    return e;
}

Expr *mkConst(u128 v, unsigned w) { return intern(K_CONST, w, v & wmask(w), 0, 0, 0); }

Expr *mkVar(const std::string &name, unsigned w) {
    g_vars.push_back({name, w});
    g_model.push_back(0);
    return intern(K_VAR, w, g_vars.size() - 1, 0, 0, 0);
}

static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }

static double rintm(double d, int mode) {
    switch(mode) { case 0: return rint(d); case 1: return floor(d); case 2: return ceil(d); case 3: return trunc(d); default: return round(d); }
}

static u128 evalOp(EK k, unsigned w, unsigned aw, u128 p, u128 a, u128 b, u128 c, unsigned bw) {
    u128 m = wmask(w), am = wmask(aw);
    switch(k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? a / b : m;
    case K_UREM: return b ? a % b : a;
    case K_SDIV: { i128 x = sext128(a, aw), y = sext128(b, aw); if(!y) return x < 0 ? 1 : m; if(y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case K_SREM: { i128 x = sext128(a, aw), y = sext128(b, aw); if(!y) return a; if(y == -1) return 0; return (u128)(x % y) & m; }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case K_ASHR: { i128 x = sext128(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sext128(a, aw) < sext128(b, aw);
    case K_SLE: return sext128(a, aw) <= sext128(b, aw);
    case K_ITE: return a ? b : c;
    case K_CONCAT: return ((a << bw) | b) & m;
    case K_EXTRACT: return (a >> (unsigned)p) & m;
    case K_ZEXT: return a & am;
    case K_SEXT: return (u128)sext128(a, aw) & m;
    case K_FADD: return aw == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case K_FSUB: return aw == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case K_FMUL: return aw == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case K_FDIV: return aw == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case K_FEQ: return aw == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case K_FLT: return aw == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case K_FLE: return aw == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case K_FUNO: return aw == 64 ? (asD(a) != asD(a) || asD(b) != asD(b)) : (asF(a) != asF(a) || asF(b) != asF(b));
    case K_FSQRT: return aw == 64 ? fromD(sqrt(asD(a))) : fromF(sqrtf(asF(a)));
    case K_FRINT: return aw == 64 ? fromD(rintm(asD(a), (int)p)) : fromF((float)rintm(asF(a), (int)p));
    case K_F2SI: { double d = aw == 64 ? asD(a) : asF(a); if(!(d >= -9.3e18 && d <= 9.3e18)) return 0; return (u128)(i128)d & m; }
    case K_F2UI: { double d = aw == 64 ? asD(a) : asF(a); if(!(d > -1 && d <= 1.9e19)) return 0; return (u128)d & m; }
    case K_SI2F: { i128 x = sext128(a, aw); return w == 64 ? fromD((double)(i64)x) : fromF((float)(i64)x); }
    case K_UI2F: return w == 64 ? fromD((double)(u64)a) : fromF((float)(u64)a);
    case K_F2F: if(aw == w) return a; return w == 64 ? fromD((double)asF(a)) : fromF((float)asD(a));
    default: abort();
    }
}

u128 evalExpr(Expr *e) {
    if(e->k == K_CONST) return e->v;
    if(e->epoch == g_epoch) return e->ev;
    u128 r;
    if(e->k == K_VAR) r = g_model[(size_t)e->v];
    else if(e->k == K_ITE) r = evalExpr(e->a) ? evalExpr(e->b) : evalExpr(e->c);
    else {
        u128 a = evalExpr(e->a), b = e->b ? evalExpr(e->b) : 0;
        r = evalOp(e->k, e->w, e->a->w, e->v, a, b, 0, e->b ? e->b->w : 0);
    }
    e->epoch = g_epoch;
    e->ev = r;
    return r;
}

const std::vector<u32> &exprVars(Expr *e) {
    if(e->vars) return *e->vars;
    if(e->k == K_CONST) { e->vars = &empty_vars; return empty_vars; }
    if(e->k == K_VAR) { e->vars = new std::vector<u32>{(u32)e->v}; return *e->vars; }
    const std::vector<u32> *r = &exprVars(e->a);
    for(Expr *x : {e->b, e->c}) {
        if(!x) continue;
        const auto &y = exprVars(x);
        if(y.empty() || &y == r || y == *r) continue;
        if(r->empty()) { r = &y; continue; }
        auto *n = new std::vector<u32>;
        std::set_union(r->begin(), r->end(), y.begin(), y.end(), std::back_inserter(*n));
        r = n;
    }
    e->vars = r;
    return *r;
}

void urange(Expr *e, u128 &lo, u128 &hi, int d) {
    lo = 0; hi = wmask(e->w);
    if(e->k == K_CONST) { lo = hi = e->v; return; }
    if(d == 0) return;
    u128 al, ah, bl, bh;
    switch(e->k) {
    case K_ZEXT: urange(e->a, lo, hi, d - 1); return;
    case K_ADD:
        urange(e->a, al, ah, d - 1); urange(e->b, bl, bh, d - 1);
        if(e->w < 128 && ah + bh <= wmask(e->w)) { lo = al + bl; hi = ah + bh; }
        else if(e->w < 127 && isC(e->b) && al + bl > wmask(e->w) && ah + bh <= 2 * wmask(e->w)) { lo = (al + bl) & wmask(e->w); hi = (ah + bh) & wmask(e->w); }
        return;
    case K_AND:
        urange(e->a, al, ah, d - 1); urange(e->b, bl, bh, d - 1);
        hi = std::min(ah, bh); return;
    case K_LSHR:
        if(isC(e->b) && e->b->v < e->w) { urange(e->a, al, ah, d - 1); lo = al >> (unsigned)e->b->v; hi = ah >> (unsigned)e->b->v; } return;
    case K_SHL:
        if(isC(e->b) && e->b->v < e->w && e->w <= 64) { urange(e->a, al, ah, d - 1); if((ah << (unsigned)e->b->v) <= wmask(e->w)) { lo = al << (unsigned)e->b->v; hi = ah << (unsigned)e->b->v; } } return;
    case K_MUL:
        if(isC(e->b) && e->w <= 64) { urange(e->a, al, ah, d - 1); if(ah * e->b->v <= wmask(e->w)) { lo = al * e->b->v; hi = ah * e->b->v; } } return;
    case K_UDIV:
        if(isC(e->b) && e->b->v) { urange(e->a, al, ah, d - 1); lo = al / e->b->v; hi = ah / e->b->v; } return;
    case K_UREM:
        if(isC(e->b) && e->b->v) { hi = e->b->v - 1; } return;
    case K_ITE:
        urange(e->b, al, ah, d - 1); urange(e->c, bl, bh, d - 1);
        lo = std::min(al, bl); hi = std::max(ah, bh); return;
    case K_CONCAT:
        urange(e->a, al, ah, d - 1); urange(e->b, bl, bh, d - 1);
        lo = (al << e->b->w) | bl; hi = (ah << e->b->w) | bh; return;
    default: return;
    }
}

Expr *mkUn(EK k, Expr *a, unsigned w, u128 p) {
    if(isC(a)) return mkConst(evalOp(k, w, a->w, p, a->v, 0, 0, 0), w);
    return intern(k, w, p, a, 0, 0);
}

Expr *mkZext(Expr *e, unsigned w) {
    if(e->w == w) return e;
    if(isC(e)) return mkConst(e->v, w);
    if(e->k == K_ZEXT) return mkZext(e->a, w);
    return intern(K_ZEXT, w, 0, e, 0, 0);
}
Expr *mkSext(Expr *e, unsigned w) {
    if(e->w == w) return e;
    if(isC(e)) return mkConst((u128)sext128(e->v, e->w), w);
    if(e->k == K_ZEXT) return mkZext(e->a, w);
    if(e->k == K_SEXT) return mkSext(e->a, w);
    return intern(K_SEXT, w, 0, e, 0, 0);
}
Expr *mkExtract(Expr *e, unsigned lo, unsigned w) {
    if(lo == 0 && w == e->w) return e;
    if(isC(e)) return mkConst(e->v >> lo, w);
    switch(e->k) {
    case K_EXTRACT: return mkExtract(e->a, lo + (unsigned)e->v, w);
    case K_CONCAT:
        if(lo >= e->b->w) return mkExtract(e->a, lo - e->b->w, w);
        if(lo + w <= e->b->w) return mkExtract(e->b, lo, w);
        return mkConcat(mkExtract(e->a, 0, lo + w - e->b->w), mkExtract(e->b, lo, e->b->w - lo));
    case K_ZEXT:
        if(lo >= e->a->w) return mkConst(0, w);
        if(lo + w <= e->a->w) return mkExtract(e->a, lo, w);
        return mkZext(mkExtract(e->a, lo, e->a->w - lo), w);
    case K_SEXT:
        if(lo + w <= e->a->w) return mkExtract(e->a, lo, w);
        if(lo == 0) return mkSext(e->a, w);
        break;
    case K_AND: case K_OR: case K_XOR:
        return mkBin(e->k, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case K_ADD: case K_SUB: case K_MUL:
        if(lo == 0) return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
        break;
    case K_ITE:
        if(isC(e->b) || isC(e->c)) return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->c, lo, w));
        break;
    case K_SHL:
        if(isC(e->b)) {
            unsigned s = e->b->v >= e->w ? e->w : (unsigned)e->b->v;
            if(lo >= s) return mkExtract(e->a, lo - s, w);
            if(lo + w <= s) return mkConst(0, w);
        }
        break;
    case K_LSHR:
        if(isC(e->b)) {
            unsigned s = e->b->v >= e->w ? e->w : (unsigned)e->b->v;
            if(lo + s + w <= e->w) return mkExtract(e->a, lo + s, w);
            if(lo + s >= e->w) return mkConst(0, w);
        }
        break;
    default: break;
    }
    return intern(K_EXTRACT, w, lo, e, 0, 0);
}
// A part of a value that will be put together again: arithmetic is not narrowed, so that the whole is recognised.
Expr *mkPiece(Expr *e, unsigned lo, unsigned w) {
    if(w < e->w && (e->k == K_ADD || e->k == K_SUB || e->k == K_MUL)) return intern(K_EXTRACT, w, lo, e, 0, 0);
    return mkExtract(e, lo, w);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if(isC(hi) && isC(lo)) return mkConst((hi->v << lo->w) | lo->v, w);
    if(isC(hi) && hi->v == 0) return mkZext(lo, w);
    if(hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && (unsigned)hi->v == (unsigned)lo->v + lo->w)
        return mkExtract(hi->a, (unsigned)lo->v, w);
    if(hi->k == K_EXTRACT && hi->a == lo && (unsigned)hi->v == lo->w) return mkExtract(hi->a, 0, w);
    if(lo->k == K_CONCAT) {
        Expr *x = lo->a;
        if(hi->k == K_EXTRACT && x->k == K_EXTRACT && hi->a == x->a && (unsigned)hi->v == (unsigned)x->v + x->w)
            return mkConcat(mkExtract(hi->a, (unsigned)x->v, hi->w + x->w), lo->b);
        if(isC(hi) && isC(x)) return mkConcat(mkConst((hi->v << x->w) | x->v, hi->w + x->w), lo->b);
    }
    return intern(K_CONCAT, w, 0, hi, lo, 0);
}

Expr *mkIte(Expr *c, Expr *a, Expr *b) {
    if(isC(c)) return c->v ? a : b;
    if(a == b) return a;
    if(a->w == 1) {
        if(isC(a) && isC(b)) return a->v ? c : mkNot(c);
        if(isC(a)) return a->v ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
        if(isC(b)) return b->v ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
    }
    if(c->k == K_XOR && isC(c->b)) return mkIte(c->a, b, a);
    if(a->k == K_ITE && a->a == c) a = a->b;
    if(b->k == K_ITE && b->a == c) b = b->c;
    if(a == b) return a;
    return intern(K_ITE, a->w, 0, c, a, b);
}

Expr *mkBin(EK k, Expr *a, Expr *b) {
    bool cmp = (k >= K_EQ && k <= K_SLE) || (k >= K_FEQ && k <= K_FUNO);
    unsigned w = cmp ? 1 : a->w;
    if(a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %d vs %d\n", k, a->w, b->w); abort(); }
    if(isC(a) && isC(b)) return mkConst(evalOp(k, w, a->w, 0, a->v, b->v, 0, b->w), w);
    // canonical: constant on the right for commutative
    switch(k) {
    case K_ADD: case K_MUL: case K_AND: case K_OR: case K_XOR: case K_EQ:
        if(isC(a)) std::swap(a, b);
        else if(!isC(b) && a->id > b->id) std::swap(a, b);
        break;
    default: break;
    }
    u128 m = wmask(a->w);
    switch(k) {
    case K_ADD:
        if(isC(b)) {
            if(b->v == 0) return a;
            if(a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->v + b->v, w));
            if(a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(K_ADD, a->b, b), mkBin(K_ADD, a->c, b));
        } else {
            if(a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
            if(b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
        }
        break;
    case K_SUB:
        if(a == b) return mkConst(0, w);
        if(isC(b)) return mkBin(K_ADD, a, mkConst(0 - b->v, w));
        if(a->k == K_ADD && a->a == b) return a->b;
        if(a->k == K_ADD && a->b == b) return a->a;
        if(a->k == K_ADD && isC(a->b) && b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b->a), mkConst(a->b->v - b->b->v, w));
        break;
    case K_MUL:
        if(isC(b)) {
            if(b->v == 0) return b;
            if(b->v == 1) return a;
            if((b->v & (b->v - 1)) == 0) { unsigned s = 0; while(!((b->v >> s) & 1)) s++; return mkBin(K_SHL, a, mkConst(s, w)); }
        }
        break;
    case K_UDIV: if(isC(b) && b->v == 1) return a;
        if(isC(b) && b->v && (b->v & (b->v - 1)) == 0) { unsigned s = 0; while(!((b->v >> s) & 1)) s++; return mkBin(K_LSHR, a, mkConst(s, w)); }
        break;
    case K_UREM:
        if(isC(b) && b->v && (b->v & (b->v - 1)) == 0) return mkBin(K_AND, a, mkConst(b->v - 1, w));
        break;
    case K_AND:
        if(a == b) return a;
        if(isC(b)) {
            if(b->v == 0) return b;
            if(b->v == m) return a;
            if(a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->v & b->v, w));
            if(a->k == K_ZEXT && (b->v & wmask(a->a->w)) == wmask(a->a->w)) return a;
            if(a->k == K_ZEXT) return mkZext(mkBin(K_AND, a->a, mkConst(b->v, a->a->w)), w);
            // low mask -> zext(extract)
            if(((b->v + 1) & b->v) == 0) { unsigned n = 0; while((b->v >> n) & 1) n++; return mkZext(mkExtract(a, 0, n), w); }
        }
        break;
    case K_OR:
        if(a == b) return a;
        if(isC(b)) { if(b->v == 0) return a; if(b->v == m) return b; }
        // disjoint zext | shl -> keep (z3 deals with it) ; common byte assembly:
        {
            auto parts = [&](Expr *x, Expr *y) -> Expr * {   // x = zext(p), y = shl(q, s) with s >= width(p)
                if(x->k == K_ZEXT && y->k == K_SHL && isC(y->b) && y->b->v >= x->a->w && y->b->v < w) {
                    unsigned s = (unsigned)y->b->v;
                    return mkConcat(mkExtract(y->a, 0, w - s), mkZext(x->a, s));
                }
                return nullptr;
            };
            if(Expr *r = parts(a, b)) return r;
            if(Expr *r = parts(b, a)) return r;
            auto parts2 = [&](Expr *x, Expr *y) -> Expr * {   // x = zext(p), y = concat(hi, const 0 of width >= p)
                if(x->k == K_ZEXT && y->k == K_CONCAT && isC(y->b) && y->b->v == 0 && y->b->w >= x->a->w)
                    return mkConcat(y->a, mkZext(x->a, y->b->w));
                return nullptr;
            };
            if(Expr *r = parts2(a, b)) return r;
            if(Expr *r = parts2(b, a)) return r;
        }
        break;
    case K_XOR:
        if(a == b) return mkConst(0, w);
        if(isC(b)) {
            if(b->v == 0) return a;
            if(a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->v ^ b->v, w));
            if(w == 1) {
                // negate comparisons
                if(a->k == K_ULT) return mkBin(K_ULE, a->b, a->a);
                if(a->k == K_ULE) return mkBin(K_ULT, a->b, a->a);
                if(a->k == K_SLT) return mkBin(K_SLE, a->b, a->a);
                if(a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
            }
        }
        break;
    case K_SHL:
        if(isC(b)) {
            if(b->v == 0) return a;
            if(b->v >= w) return mkConst(0, w);
            if(a->k == K_SHL && isC(a->b)) return mkBin(K_SHL, a->a, mkConst(std::min<u128>(a->b->v + b->v, w), w));
        }
        break;
    case K_LSHR:
        if(isC(b)) {
            if(b->v == 0) return a;
            if(b->v >= w) return mkConst(0, w);
            return mkZext(mkExtract(a, (unsigned)b->v, w - (unsigned)b->v), w);
        }
        break;
    case K_ASHR:
        if(isC(b)) {
            if(b->v == 0) return a;
            unsigned s = b->v >= w ? w - 1 : (unsigned)b->v;
            if(a->k == K_ZEXT) return mkBin(K_LSHR, a, mkConst(s, w));
            return mkSext(mkExtract(a, s, w - s), w);
        }
        break;
    case K_EQ:
        if(a == b) return mkConst(1, 1);
        if(isC(b)) {
            if(a->w == 1) return b->v ? a : mkNot(a);
            if(a->k == K_ZEXT) return b->v > wmask(a->a->w) ? mkConst(0, 1) : mkBin(K_EQ, a->a, mkConst(b->v, a->a->w));
            if(a->k == K_SEXT) {
                u128 t = (u128)sext128(b->v & wmask(a->a->w), a->a->w) & m;
                if(t != b->v) return mkConst(0, 1);
                return mkBin(K_EQ, a->a, mkConst(b->v, a->a->w));
            }
            if(a->k == K_ADD && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(b->v - a->b->v, a->w));
            if(a->k == K_XOR && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(b->v ^ a->b->v, a->w));
            if(a->k == K_SUB && isC(a->a)) return mkBin(K_EQ, a->b, mkConst(a->a->v - b->v, a->w));
            if(a->k == K_ITE) {
                if(isC(a->b) && isC(a->c)) {
                    bool t = a->b->v == b->v, f = a->c->v == b->v;
                    if(t && f) return mkConst(1, 1);
                    if(t) return a->a;
                    if(f) return mkNot(a->a);
                    return mkConst(0, 1);
                }
                if(isC(a->b)) { if(a->b->v != b->v) return mkBin(K_AND, mkNot(a->a), mkBin(K_EQ, a->c, b)); return mkBin(K_OR, a->a, mkBin(K_EQ, a->c, b)); }
                if(isC(a->c)) { if(a->c->v != b->v) return mkBin(K_AND, a->a, mkBin(K_EQ, a->b, b)); return mkBin(K_OR, mkNot(a->a), mkBin(K_EQ, a->b, b)); }
            }
            if(a->k == K_CONCAT) {
                Expr *r = mkBin(K_AND, mkBin(K_EQ, a->a, mkConst(b->v >> a->b->w, a->a->w)), mkBin(K_EQ, a->b, mkConst(b->v, a->b->w)));
                return r;
            }
        } else if(a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
        { u128 al, ah, bl, bh; urange(a, al, ah); urange(b, bl, bh); if(ah < bl || bh < al) return mkConst(0, 1); }
        break;
    case K_ULT: case K_ULE: {
        if(a == b) return mkConst(k == K_ULE, 1);
        u128 al, ah, bl, bh;
        urange(a, al, ah); urange(b, bl, bh);
        if(k == K_ULT) { if(ah < bl) return mkConst(1, 1); if(al >= bh) return mkConst(0, 1); }
        else { if(ah <= bl) return mkConst(1, 1); if(al > bh) return mkConst(0, 1); }
        if(a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
        if(a->k == K_ZEXT && isC(b)) return mkBin(k, a->a, mkConst(b->v, a->a->w)); // b in range, checked above
        if(b->k == K_ZEXT && isC(a)) return mkBin(k, mkConst(a->v, b->a->w), b->a);
        if(k == K_ULT && isC(b) && b->v == 1) return mkBin(K_EQ, a, mkConst(0, a->w));
        if(k == K_ULE && isC(b)) return mkBin(K_ULT, a, mkConst(b->v + 1, a->w));
        if(k == K_ULE && isC(a)) return mkBin(K_ULT, mkConst(a->v - 1, a->w), b); // a > 0, checked above
        break;
    }
    case K_SLT: case K_SLE: {
        if(a == b) return mkConst(k == K_SLE, 1);
        u128 al, ah, bl, bh;
        urange(a, al, ah); urange(b, bl, bh);
        u128 sm = (u128)1 << (a->w - 1);
        if(ah < sm && bh < sm) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
        if(ah < sm && bl >= sm) return mkConst(0, 1);
        if(bh < sm && al >= sm) return mkConst(1, 1);
        if(a->k == K_SEXT && isC(b)) {
            i128 v = sext128(b->v, b->w), lim = (i128)1 << (a->a->w - 1);
            if(v >= -lim && v < lim) return mkBin(k, a->a, mkConst((u128)v, a->a->w));
            return mkConst(v > 0, 1);
        }
        if(b->k == K_SEXT && isC(a)) {
            i128 v = sext128(a->v, a->w), lim = (i128)1 << (b->a->w - 1);
            if(v >= -lim && v < lim) return mkBin(k, mkConst((u128)v, b->a->w), b->a);
            return mkConst(v < 0, 1);
        }
        if(a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
        break;
    }
    default: break;
    }
    return intern(k, w, 0, a, b, 0);
}

// ------------------------------------------------------------------ z3

static Z3_context ctx;
static unsigned long long timeout_ms = 60000;

static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
static Z3_ast keep(Z3_ast a) { return a; }
static Z3_ast b2bv(Z3_ast p) { return Z3_mk_ite(ctx, p, Z3_mk_unsigned_int64(ctx, 1, bvs(1)), Z3_mk_unsigned_int64(ctx, 0, bvs(1))); }
static Z3_ast tofp(Z3_ast a, unsigned w) { return Z3_mk_fpa_to_fp_bv(ctx, a, fps(w)); }
static Z3_ast frfp(Z3_ast a) { return Z3_mk_fpa_to_ieee_bv(ctx, a); }

static Z3_ast tz(Expr *e);
static Z3_ast tb(Expr *e) { // bool form of a 1-bit expr
    Z3_ast r;
    switch(e->k) {
    case K_EQ: return Z3_mk_eq(ctx, tz(e->a), tz(e->b));
    case K_ULT: return Z3_mk_bvult(ctx, tz(e->a), tz(e->b));
    case K_ULE: return Z3_mk_bvule(ctx, tz(e->a), tz(e->b));
    case K_SLT: return Z3_mk_bvslt(ctx, tz(e->a), tz(e->b));
    case K_SLE: return Z3_mk_bvsle(ctx, tz(e->a), tz(e->b));
    case K_XOR: if(e->w == 1 && isC(e->b)) return Z3_mk_not(ctx, tb(e->a)); break;
    case K_AND: if(e->w == 1) { Z3_ast x[2] = {tb(e->a), tb(e->b)}; return Z3_mk_and(ctx, 2, x); } break;
    case K_OR: if(e->w == 1) { Z3_ast x[2] = {tb(e->a), tb(e->b)}; return Z3_mk_or(ctx, 2, x); } break;
    case K_FEQ: return Z3_mk_fpa_eq(ctx, tofp(tz(e->a), e->a->w), tofp(tz(e->b), e->a->w));
    case K_FLT: return Z3_mk_fpa_lt(ctx, tofp(tz(e->a), e->a->w), tofp(tz(e->b), e->a->w));
    case K_FLE: return Z3_mk_fpa_leq(ctx, tofp(tz(e->a), e->a->w), tofp(tz(e->b), e->a->w));
    case K_FUNO: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, tofp(tz(e->a), e->a->w)), Z3_mk_fpa_is_nan(ctx, tofp(tz(e->b), e->a->w))}; return Z3_mk_or(ctx, 2, x); }
    default: break;
    }
    r = Z3_mk_eq(ctx, tz(e), Z3_mk_unsigned_int64(ctx, 1, bvs(1)));
    return r;
}

static Z3_ast tz(Expr *e) {
    if(e->z) return e->z;
    Z3_ast r = nullptr;
    switch(e->k) {
    case K_CONST:
        if(e->w <= 64) r = Z3_mk_unsigned_int64(ctx, (u64)e->v, bvs(e->w));
        else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, (u64)(e->v >> 64), bvs(e->w - 64)), Z3_mk_unsigned_int64(ctx, (u64)e->v, bvs(64)));
        break;
    case K_VAR: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->v), bvs(e->w)); break;
    case K_ADD: r = Z3_mk_bvadd(ctx, tz(e->a), tz(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(ctx, tz(e->a), tz(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(ctx, tz(e->a), tz(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(ctx, tz(e->a), tz(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(ctx, tz(e->a), tz(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(ctx, tz(e->a), tz(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(ctx, tz(e->a), tz(e->b)); break;
    case K_AND: r = Z3_mk_bvand(ctx, tz(e->a), tz(e->b)); break;
    case K_OR: r = Z3_mk_bvor(ctx, tz(e->a), tz(e->b)); break;
    case K_XOR: r = Z3_mk_bvxor(ctx, tz(e->a), tz(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(ctx, tz(e->a), tz(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(ctx, tz(e->a), tz(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(ctx, tz(e->a), tz(e->b)); break;
    case K_ITE: r = Z3_mk_ite(ctx, tb(e->a), tz(e->b), tz(e->c)); break;
    case K_CONCAT: r = Z3_mk_concat(ctx, tz(e->a), tz(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->v + e->w - 1, (unsigned)e->v, tz(e->a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tz(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tz(e->a)); break;
    case K_FADD: r = frfp(Z3_mk_fpa_add(ctx, Z3_mk_fpa_rne(ctx), tofp(tz(e->a), e->w), tofp(tz(e->b), e->w))); break;
    case K_FSUB: r = frfp(Z3_mk_fpa_sub(ctx, Z3_mk_fpa_rne(ctx), tofp(tz(e->a), e->w), tofp(tz(e->b), e->w))); break;
    case K_FMUL: r = frfp(Z3_mk_fpa_mul(ctx, Z3_mk_fpa_rne(ctx), tofp(tz(e->a), e->w), tofp(tz(e->b), e->w))); break;
    case K_FDIV: r = frfp(Z3_mk_fpa_div(ctx, Z3_mk_fpa_rne(ctx), tofp(tz(e->a), e->w), tofp(tz(e->b), e->w))); break;
    case K_FSQRT: r = frfp(Z3_mk_fpa_sqrt(ctx, Z3_mk_fpa_rne(ctx), tofp(tz(e->a), e->w))); break;
    case K_FRINT: {
        Z3_ast rm;
        switch((int)e->v) { case 0: rm = Z3_mk_fpa_rne(ctx); break; case 1: rm = Z3_mk_fpa_rtn(ctx); break; case 2: rm = Z3_mk_fpa_rtp(ctx); break; case 3: rm = Z3_mk_fpa_rtz(ctx); break; default: rm = Z3_mk_fpa_rna(ctx); }
        r = frfp(Z3_mk_fpa_round_to_integral(ctx, rm, tofp(tz(e->a), e->w)));
        break;
    }
    case K_F2SI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), tofp(tz(e->a), e->a->w), e->w); break;
    case K_F2UI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), tofp(tz(e->a), e->a->w), e->w); break;
    case K_SI2F: r = frfp(Z3_mk_fpa_to_fp_signed(ctx, Z3_mk_fpa_rne(ctx), tz(e->a), fps(e->w))); break;
    case K_UI2F: r = frfp(Z3_mk_fpa_to_fp_unsigned(ctx, Z3_mk_fpa_rne(ctx), tz(e->a), fps(e->w))); break;
    case K_F2F: r = frfp(Z3_mk_fpa_to_fp_float(ctx, Z3_mk_fpa_rne(ctx), tofp(tz(e->a), e->a->w), fps(e->w))); break;
    default: r = b2bv(tb(e)); break;
    }
    e->z = keep(r);
    return r;
}

static bool usesFP(Expr *e, std::unordered_set<Expr *> &seen) {
    if(!e || !seen.insert(e).second) return false;
    if(e->k >= K_FADD) return true;
    return usesFP(e->a, seen) || usesFP(e->b, seen) || usesFP(e->c, seen);
}

static Z3_tactic tac_bv, tac_fp;
void solver_init() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg); // no reference counting of terms: they live as long as the path
    Z3_del_config(cfg);
    auto mk = [&](const char *n) { auto t = Z3_mk_tactic(ctx, n); Z3_tactic_inc_ref(ctx, t); return t; };
    auto then = [&](Z3_tactic a, Z3_tactic b) { auto t = Z3_tactic_and_then(ctx, a, b); Z3_tactic_inc_ref(ctx, t); return t; };
    tac_bv = then(mk("simplify"), then(mk("propagate-values"), then(mk("solve-eqs"), then(mk("simplify"), then(mk("bit-blast"), mk("sat"))))));
    tac_fp = mk("qffpbv");
    if(const char *t = getenv("CAPYSYM_TIMEOUT_MS")) timeout_ms = strtoull(t, 0, 10);
}

struct CacheEnt { SatRes r; std::vector<std::pair<u32, u128>> m; };
static std::map<std::vector<u32>, CacheEnt> qcache;
static std::vector<std::vector<u128>> recent; // recent models

static u64 nowns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }

SatRes solve(const std::vector<Expr *> &pc, Expr *cond, std::vector<u128> &m) {
    if(isC(cond) && !cond->v) return R_UNSAT;
    // independent slice
    std::vector<char> in(g_vars.size(), 0);
    for(u32 v : exprVars(cond)) in[v] = 1;
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while(ch) {
        ch = false;
        for(size_t i = 0; i < pc.size(); i++) {
            if(used[i]) continue;
            const auto &vs = exprVars(pc[i]);
            bool hit = false;
            for(u32 v : vs) if(in[v]) { hit = true; break; }
            if(!hit) continue;
            used[i] = 1;
            ch = true;
            for(u32 v : vs) in[v] = 1;
        }
    }
    std::vector<Expr *> cs;
    std::vector<u32> key;
    for(size_t i = 0; i < pc.size(); i++) if(used[i]) { cs.push_back(pc[i]); key.push_back(pc[i]->id); }
    std::sort(key.begin(), key.end());
    key.push_back(cond->id);
    G->queries++;
    auto it = qcache.find(key);
    if(it != qcache.end()) {
        G->qcache_hits++;
        m = g_model;
        for(auto &p : it->second.m) m[p.first] = p.second;
        return it->second.r;
    }
    u64 t0 = nowns();
    bool fp = false;
    { std::unordered_set<Expr *> seen; fp = usesFP(cond, seen); for(auto *c : cs) fp = fp || usesFP(c, seen); }
    Z3_solver s = Z3_mk_solver_from_tactic(ctx, fp ? tac_fp : tac_bv);
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), (unsigned)timeout_ms);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    for(auto *c : cs) Z3_solver_assert(ctx, s, tb(c));
    Z3_solver_assert(ctx, s, tb(cond));
    Z3_lbool r = Z3_solver_check(ctx, s);
    CacheEnt ce;
    ce.r = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
    if(r == Z3_L_TRUE) {
        Z3_model zm = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, zm);
        m = g_model;
        for(size_t v = 0; v < g_vars.size(); v++) {
            if(!in[v]) continue;
            Z3_ast c = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)v), bvs(g_vars[v].w));
            Z3_ast out;
            u128 val = 0;
            if(Z3_model_eval(ctx, zm, c, true, &out)) {
                if(g_vars[v].w <= 64) { uint64_t x = 0; if(Z3_get_numeral_uint64(ctx, out, &x)) val = x; }
            }
            m[v] = val;
            ce.m.push_back({(u32)v, val});
        }
        Z3_model_dec_ref(ctx, zm);
    }
    Z3_solver_dec_ref(ctx, s);
    u64 dt = nowns() - t0;
    G->solver_ns += dt;
    G->z3_calls++;
    if(dt > G->max_query_ns) G->max_query_ns = dt;
    if(ce.r == R_SAT) G->sat++; else if(ce.r == R_UNSAT) G->unsat++; else G->unknown++;
    if(ce.r == R_SAT) {
        // sanity: the model must satisfy cond and every sliced constraint under our evaluator
        auto old = g_model;
        g_model = m; g_epoch++;
        bool ok = evalExpr(cond) != 0;
        for(auto *c : cs) ok = ok && evalExpr(c);
        g_model = old; g_epoch++;
        if(!ok) { G->model_mismatch++; ce.r = R_UNKNOWN; G->unknown++; }
    }
    qcache[key] = ce;
    return ce.r;
}
