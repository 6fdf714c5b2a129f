// Symbolic bit-vector expressions: hash-consed DAG, light simplifier, evaluator,
// translation to z3, and the path-condition solver.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <map>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef unsigned __int128 u128;
typedef __int128 i128;

enum EK : u8 {
    K_CONST, K_VAR,
    K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
    K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT,
    K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FEQ, K_FLT, K_FLE, K_FUNO,
    K_FSQRT, K_FRINT, K_F2SI, K_F2UI, K_SI2F, K_UI2F, K_F2F
};

struct Expr {
    EK k;
    uint16_t w;
    u32 id;
    u128 v;      // constant value / var index / extract low / rint mode
    Expr *a, *b, *c;
    // evaluation memo
    u32 epoch;
    u128 ev;
    // variables (sorted), lazily computed
    const std::vector<u32> *vars;
    Z3_ast z;
};

static inline u128 wmask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sext128(u128 v, unsigned w) {
    if(w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= wmask(w);
    return (i128)((v ^ m) - m);
}

struct VarInfo { std::string name; unsigned w; };

struct ExprHash {
    size_t operator()(const Expr *e) const {
        u64 h = e->k * 0x9E3779B97F4A7C15ull + e->w;
        auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix((u64)e->v); mix((u64)(e->v >> 64));
        mix((u64)e->a); mix((u64)e->b); mix((u64)e->c);
        return h;
    }
};
struct ExprEq {
    bool operator()(const Expr *x, const Expr *y) const {
        return x->k == y->k && x->w == y->w && x->v == y->v && x->a == y->a && x->b == y->b && x->c == y->c;
    }
};

extern std::vector<VarInfo> g_vars;      // all symbolic inputs on this path, creation order
extern std::vector<u128> g_model;        // current assignment
extern u32 g_epoch;

Expr *mkConst(u128 v, unsigned w);
Expr *mkVar(const std::string &name, unsigned w);
Expr *mkBin(EK k, Expr *a, Expr *b);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkExtract(Expr *e, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkPiece(Expr *e, unsigned lo, unsigned w);
Expr *mkZext(Expr *e, unsigned w);
Expr *mkSext(Expr *e, unsigned w);
Expr *mkUn(EK k, Expr *a, unsigned w, u128 p = 0);
static inline Expr *mkNot(Expr *e);
u128 evalExpr(Expr *e);   // under g_model
static inline void model_changed() { g_epoch++; }
const std::vector<u32> &exprVars(Expr *e);
void urange(Expr *e, u128 &lo, u128 &hi, int depth = 8);

static inline bool isC(Expr *e) { return e->k == K_CONST; }
static inline Expr *mkNot(Expr *e) { return mkBin(K_XOR, e, mkConst(1, 1)); }
static inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(K_EQ, a, b); }

enum SatRes { R_SAT, R_UNSAT, R_UNKNOWN };
// Is pc && cond satisfiable?  On R_SAT fills `m` with a full assignment.
SatRes solve(const std::vector<Expr *> &pc, Expr *cond, std::vector<u128> &m);
void solver_init();
