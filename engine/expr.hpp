// Hash-consed bit-vector expressions with light simplification, evaluation
// under a concrete assignment and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_set>
#include <unordered_map>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint8_t u8;

enum EOp : u8 {
    E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
    E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_SLT, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
    // floating point, operands and results are IEEE bit patterns (w = 32 or 64)
    E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FEQ, E_FLT, E_FLE, E_FUNO, E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI, E_FPEXT, E_FPTRUNC
};

struct Ex {
    EOp op; u8 w; u32 id;
    const Ex *a, *b, *c;
    u64 k;              // constant value / var id / extract low bit
    u64 lo, hi;         // unsigned interval
    i64 slo, shi;       // signed interval
    mutable Z3_ast z;   // bit-vector form
    mutable Z3_ast zb;  // boolean form (w==1)
    mutable Z3_ast zi[2]; mutable u8 ni[2]; // integer form, signed and unsigned view; ni: 1 = none exists
    mutable Z3_ast zib; mutable u8 nib;     // boolean form over integers
    mutable u32 stamp; mutable u64 ev;
    mutable u8 known;   // 0 unknown, 1 true on the current path, 2 false (w==1)
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sextv(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct ExHash { size_t operator()(const Ex* e) const {
    u64 h = e->op * 0x9E3779B97F4A7C15ull ^ e->w;
    auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
    mix(e->a ? e->a->id + 1 : 0); mix(e->b ? e->b->id + 1 : 0); mix(e->c ? e->c->id + 1 : 0); mix(e->k); mix(e->op == E_VAR ? e->hi : 0);
    return h; } };
struct ExEq { bool operator()(const Ex* x, const Ex* y) const {
    return x->op == y->op && x->w == y->w && x->a == y->a && x->b == y->b && x->c == y->c && x->k == y->k && (x->op != E_VAR || x->hi == y->hi); } };

extern std::unordered_set<Ex*, ExHash, ExEq> g_tab;
extern u32 g_exid;
extern u32 g_stamp;
extern Z3_context Z;

static inline float bf(u64 v) { float f; u32 x = (u32)v; memcpy(&f, &x, 4); return f; }
static inline u64 fb(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static inline double bd(u64 v) { double f; memcpy(&f, &v, 8); return f; }
static inline u64 db(double f) { u64 x; memcpy(&x, &f, 8); return x; }

u64 evalOp(EOp op, unsigned w, unsigned wa, u64 k, u64 a, u64 b, u64 c, unsigned wb);

const Ex* mkRaw(EOp op, unsigned w, const Ex* a, const Ex* b, const Ex* c, u64 k, u64 vhi = 0);
const Ex* mkConst(u64 v, unsigned w);
const Ex* mkVar(u32 id, unsigned w, u64 hi);
const Ex* mkNot(const Ex* a);
const Ex* mkBin(EOp op, const Ex* a, const Ex* b);
const Ex* mkIte(const Ex* c, const Ex* a, const Ex* b);
const Ex* mkZext(const Ex* a, unsigned w);
const Ex* mkSext(const Ex* a, unsigned w);
const Ex* mkExtract(const Ex* a, unsigned lo, unsigned w);
const Ex* mkConcat(const Ex* hi, const Ex* lo);
const Ex* mkF(EOp op, unsigned w, const Ex* a, const Ex* b);
static inline bool isC(const Ex* e) { return e->op == E_CONST; }
u64 evalEx(const Ex* e, const std::vector<u64>& m);
Z3_ast toBV(const Ex* e);
Z3_ast toBool(const Ex* e);
Z3_ast toInt(const Ex* e, bool uns);   // nullptr when e has no exact integer form
Z3_ast toIntBool(const Ex* e);
std::string exStr(const Ex* e, int depth = 6);
std::string exWhy(const Ex* e);
