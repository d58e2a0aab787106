#include "expr.hpp"
#include <algorithm>
#include <algorithm>
std::unordered_set<Ex*, ExHash, ExEq> g_tab;
u32 g_exid = 0;
u32 g_stamp = 1;
Z3_context Z;

u64 evalOp(EOp op, unsigned w, unsigned wa, u64 k, u64 a, u64 b, u64 c, unsigned wb)
{
    u64 M = maskw(w);
    switch (op)
    {
        case E_ADD: return (a + b) & M;
        case E_SUB: return (a - b) & M;
        case E_MUL: return (a * b) & M;
        case E_UDIV: return b ? (a / b) & M : M;
        case E_UREM: return b ? (a % b) & M : a;
        case E_SDIV: { i64 x = sextv(a, w), y = sextv(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (0 - (u64)x) & M; return (u64)(x / y) & M; }
        case E_SREM: { i64 x = sextv(a, w), y = sextv(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & M; }
        case E_AND: return a & b;
        case E_OR: return a | b;
        case E_XOR: return a ^ b;
        case E_SHL: return b >= w ? 0 : (a << b) & M;
        case E_LSHR: return b >= w ? 0 : a >> b;
        case E_ASHR: { i64 x = sextv(a, w); return (u64)(x >> (b >= w ? (w - 1 > 63 ? 63 : w - 1) : b)) & M; }
        case E_EQ: return a == b;
        case E_ULT: return a < b;
        case E_SLT: return sextv(a, wa) < sextv(b, wa);
        case E_ITE: return a ? b : c;
        case E_ZEXT: return a;
        case E_SEXT: return (u64)sextv(a, wa) & M;
        case E_EXTRACT: return (a >> k) & M;
        case E_CONCAT: return ((a << wb) | b) & M;
        case E_FADD: return w == 32 ? fb(bf(a) + bf(b)) : db(bd(a) + bd(b));
        case E_FSUB: return w == 32 ? fb(bf(a) - bf(b)) : db(bd(a) - bd(b));
        case E_FMUL: return w == 32 ? fb(bf(a) * bf(b)) : db(bd(a) * bd(b));
        case E_FDIV: return w == 32 ? fb(bf(a) / bf(b)) : db(bd(a) / bd(b));
        case E_FEQ: return wa == 32 ? bf(a) == bf(b) : bd(a) == bd(b);
        case E_FLT: return wa == 32 ? bf(a) < bf(b) : bd(a) < bd(b);
        case E_FLE: return wa == 32 ? bf(a) <= bf(b) : bd(a) <= bd(b);
        case E_FUNO: return wa == 32 ? (std::isnan(bf(a)) || std::isnan(bf(b))) : (std::isnan(bd(a)) || std::isnan(bd(b)));
        case E_SITOFP: return w == 32 ? fb((float)sextv(a, wa)) : db((double)sextv(a, wa));
        case E_UITOFP: return w == 32 ? fb((float)a) : db((double)a);
        case E_FPTOSI: return (u64)(i64)(wa == 32 ? bf(a) : bd(a)) & M;
        case E_FPTOUI: return (u64)(wa == 32 ? bf(a) : bd(a)) & M;
        case E_FPEXT: return db((double)bf(a));
        case E_FPTRUNC: return fb((float)bd(a));
        default: fprintf(stderr, "evalOp %d\n", op); abort();
    }
}

// ite(x < 0, -x, x) and its variants are not negative
static void absIv(const Ex* e, i64& slo, unsigned w)
{
    const Ex *c = e->a, *p = e->b, *n = e->c;
    if (c->op == E_XOR && c->b->op == E_CONST && c->b->k == 1) { c = c->a; std::swap(p, n); }
    if (c->op != E_SLT) return;
    const Ex* x; // p is taken when x >= 0 (or x > 0), n when x <= 0
    if (c->a->op == E_CONST && (c->a->k == 0 || c->a->k == maskw(w))) x = c->b;
    else if (c->b->op == E_CONST && (c->b->k == 0 || c->b->k == 1)) { x = c->a; std::swap(p, n); }
    else return;
    auto neg = [&](const Ex* e) { return e->op == E_SUB && e->a->op == E_CONST && e->a->k == 0 && e->b == x; };
    if (x->w == w && p == x && neg(n) && x->slo > sextv(1ull << (w - 1), w)) slo = std::max<i64>(slo, 0);
}
static void setIv(Ex* e)
{
    unsigned w = e->w; u64 M = maskw(w);
    if (w > 64) { e->lo = 0; e->hi = ~0ull; e->slo = INT64_MIN; e->shi = INT64_MAX; return; }
    u64 lo = 0, hi = M; i64 smin = sextv(1ull << (w - 1), w), smax = (i64)(M >> 1);
    i64 slo = smin, shi = smax;
    const Ex *a = e->a, *b = e->b;
    bool smallA = a && a->w <= 64, smallB = b && b->w <= 64;
    switch (e->op)
    {
        case E_CONST: lo = hi = e->k; slo = shi = sextv(e->k, w); break;
        case E_VAR: hi = e->hi; break;
        case E_ADD:
            if (a->hi <= M - b->hi) { lo = a->lo + b->lo; hi = a->hi + b->hi; }
            { __int128 l = (__int128)a->slo + b->slo, h = (__int128)a->shi + b->shi; if (l >= smin && h <= smax) { slo = (i64)l; shi = (i64)h; } }
            break;
        case E_SUB:
            if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; }
            { __int128 l = (__int128)a->slo - b->shi, h = (__int128)a->shi - b->slo; if (l >= smin && h <= smax) { slo = (i64)l; shi = (i64)h; } }
            break;
        case E_MUL: { unsigned __int128 h = (unsigned __int128)a->hi * b->hi; if (h <= M) { lo = a->lo * b->lo; hi = (u64)h; } break; }
        case E_UDIV: if (b->lo > 0) { lo = a->lo / b->hi; hi = a->hi / b->lo; } break;
        case E_UREM: if (b->lo > 0) { hi = std::min(a->hi, b->hi - 1); } break;
        case E_AND: hi = std::min(a->hi, b->hi); break;
        case E_OR: lo = std::max(a->lo, b->lo); { u64 m = a->hi | b->hi; while (m & (m + 1)) m |= m >> 1; hi = m; } break;
        case E_XOR: { u64 m = a->hi | b->hi; while (m & (m + 1)) m |= m >> 1; hi = m; } break;
        case E_SHL: if (isC(b) && b->k < w && (a->hi << b->k >> b->k) == a->hi && (a->hi << b->k) <= M) { lo = a->lo << b->k; hi = a->hi << b->k; } break;
        case E_LSHR: if (isC(b) && b->k < w) { lo = a->lo >> b->k; hi = a->hi >> b->k; } break;
        case E_ASHR: if (isC(b) && b->k < 64) { slo = a->slo >> b->k; shi = a->shi >> b->k; } break;
        case E_ITE: lo = std::min(b->lo, e->c->lo); hi = std::max(b->hi, e->c->hi); slo = std::min(b->slo, e->c->slo); shi = std::max(b->shi, e->c->shi); absIv(e, slo, w); break;
        case E_ZEXT: lo = a->lo; hi = a->hi; break;
        case E_SEXT: slo = a->slo; shi = a->shi; break;
        case E_EXTRACT: if (smallA && e->k < 64 && (a->hi >> e->k) <= M) { lo = a->lo >> e->k; hi = a->hi >> e->k; }
            if (smallA && e->k == 0 && a->slo >= smin && a->shi <= smax) { slo = a->slo; shi = a->shi; } break;
        default: break;
    }
    (void)smallB;
    // combine
    if (hi <= (M >> 1)) { slo = std::max(slo, (i64)lo); shi = std::min(shi, (i64)hi); }
    else if (lo > (M >> 1)) { slo = std::max(slo, sextv(lo, w)); shi = std::min(shi, sextv(hi, w)); }
    if (slo >= 0) { lo = std::max(lo, (u64)slo); hi = std::min(hi, (u64)shi); }
    else if (shi < 0) { lo = std::max(lo, (u64)slo & M); hi = std::min(hi, (u64)shi & M); }
    e->lo = lo; e->hi = hi; e->slo = slo; e->shi = shi;
}

const Ex* mkRaw(EOp op, unsigned w, const Ex* a, const Ex* b, const Ex* c, u64 k, u64 vhi)
{
    Ex t; t.op = op; t.w = w; t.a = a; t.b = b; t.c = c; t.k = k; t.hi = vhi;
    auto it = g_tab.find(&t);
    if (it != g_tab.end()) return *it;
    static char* arena = nullptr; static size_t left = 0;
    if (left < sizeof(Ex)) { left = 1 << 20; arena = (char*)malloc(left); }
    Ex* e = (Ex*)arena; arena += sizeof(Ex); left -= sizeof(Ex);
    *e = t; e->id = g_exid++; e->z = e->zb = nullptr; e->zi[0] = e->zi[1] = e->zib = nullptr; e->ni[0] = e->ni[1] = e->nib = 0; e->stamp = 0; e->ev = 0; e->known = 0;
    setIv(e);
    if (op == E_VAR) e->hi = vhi;
    g_tab.insert(e);
    if (w <= 64 && op != E_CONST && e->lo == e->hi) { /* constant by interval */ }
    return e;
}
const Ex* mkConst(u64 v, unsigned w) { return mkRaw(E_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
const Ex* mkVar(u32 id, unsigned w, u64 hi) { return mkRaw(E_VAR, w, nullptr, nullptr, nullptr, id, hi); }
static const Ex* fin(const Ex* e) { if (e->w <= 64 && e->op != E_CONST && e->lo == e->hi) return mkConst(e->lo, e->w); return e; }

const Ex* mkNot(const Ex* a)
{
    if (isC(a)) return mkConst(!a->k, 1);
    if (a->op == E_XOR && isC(a->b)) return a->a;
    return mkRaw(E_XOR, 1, a, mkConst(1, 1), nullptr, 0);
}
static bool isNot(const Ex* a) { return a->w == 1 && a->op == E_XOR && isC(a->b) && a->b->k == 1; }

const Ex* mkZext(const Ex* a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a) && w <= 64) return mkConst(a->k, w);
    if (a->op == E_ZEXT) return mkZext(a->a, w);
    return fin(mkRaw(E_ZEXT, w, a, nullptr, nullptr, 0));
}
const Ex* mkSext(const Ex* a, unsigned w)
{
    if (a->w == w) return a;
    if (isC(a) && w <= 64) return mkConst((u64)sextv(a->k, a->w), w);
    if (a->w <= 64 && a->slo >= 0) return mkZext(a, w);
    if (a->op == E_ZEXT) return mkZext(a->a, w);
    if (a->op == E_SEXT) return mkSext(a->a, w);
    return fin(mkRaw(E_SEXT, w, a, nullptr, nullptr, 0));
}
const Ex* mkExtract(const Ex* a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (isC(a) && a->w <= 64) return mkConst(a->k >> lo, w);
    if (a->op == E_EXTRACT) return mkExtract(a->a, lo + a->k, w);
    if (a->op == E_ZEXT)
    {
        if (lo >= a->a->w) return mkConst(0, w);
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo == 0) return mkZext(a->a, w);
        return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
    }
    if (a->op == E_SEXT) { if (lo + w <= a->a->w) return mkExtract(a->a, lo, w); if (lo == 0) return mkSext(a->a, w); }
    if (a->op == E_CONCAT)
    {
        unsigned lw = a->b->w;
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
    }
    if (a->op == E_ITE && ((isC(a->b) && isC(a->c)) || a->b->op == E_ITE || a->c->op == E_ITE || (isC(a->b) || isC(a->c)) || a->b->op == E_ZEXT || a->c->op == E_ZEXT))
        return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    if (lo == 0 && (a->op == E_ADD || a->op == E_SUB || a->op == E_MUL || a->op == E_AND || a->op == E_OR || a->op == E_XOR))
        return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    return fin(mkRaw(E_EXTRACT, w, a, nullptr, nullptr, lo));
}
const Ex* mkConcat(const Ex* h, const Ex* l)
{
    unsigned w = h->w + l->w;
    if (isC(h) && isC(l) && w <= 64) return mkConst((h->k << l->w) | l->k, w);
    if (isC(h) && h->w <= 64 && h->k == 0) return mkZext(l, w);
    if (h->op == E_EXTRACT && l->op == E_EXTRACT && h->a == l->a && h->k == l->k + l->w) return mkExtract(h->a, l->k, w);
    if (l->op == E_ZEXT && 0) {}
    return mkRaw(E_CONCAT, w, h, l, nullptr, 0);
}

static const Ex* shrinkPair(const Ex*& a, const Ex*& b)
{
    // both zext or const: reduce width
    unsigned w = a->w; if (w > 64) return a;
    auto inner = [](const Ex* e) -> unsigned { if (e->op == E_ZEXT) return e->a->w; if (isC(e)) { unsigned n = 1; while (n < 64 && (e->k >> n)) n++; return n; } return e->w; };
    unsigned n = std::max(inner(a), inner(b));
    if (n < w) { a = mkExtract(a, 0, n); b = mkExtract(b, 0, n); }
    return a;
}

const Ex* mkBin(EOp op, const Ex* a, const Ex* b)
{
    unsigned w = a->w;
    unsigned rw = (op == E_EQ || op == E_ULT || op == E_SLT) ? 1 : w;
    if (w > 64)
    {
        if (op == E_EQ && a == b) return mkConst(1, 1);
        auto lo = [&](const Ex* x) { return mkExtract(x, 0, 64); };
        auto hi = [&](const Ex* x) { return mkExtract(x, 64, w - 64); };
        if (op == E_EQ) return mkBin(E_AND, mkBin(E_EQ, lo(a), lo(b)), mkBin(E_EQ, hi(a), hi(b)));
        if (op == E_AND || op == E_OR || op == E_XOR) return mkConcat(mkBin(op, hi(a), hi(b)), mkBin(op, lo(a), lo(b)));
        if (op == E_LSHR || op == E_SHL)
        {
            const Ex* kk = mkExtract(b, 0, 64);
            if (isC(kk)) { u64 k = kk->k; if (k == 0) return a;
                if (op == E_LSHR) return mkZext(mkExtract(a, k, w - k), w);
                return mkConcat(mkExtract(a, 0, w - k), mkConst(0, k)); }
        }
        return mkRaw(op, rw, a, b, nullptr, 0);
    }
    if (isC(a) && isC(b)) return mkConst(evalOp(op, rw, w, 0, a->k, b->k, 0, w), rw);
    if ((op == E_AND || op == E_OR || op == E_XOR) && w > 1)
    {
        const Ex *x = a, *y = b; shrinkPair(x, y);
        if (x != a || y != b) return mkZext(mkBin(op, x, y), w);
    }
    // canonical: constant on the right for commutative ops
    switch (op) { case E_ADD: case E_MUL: case E_AND: case E_OR: case E_XOR: case E_EQ:
        if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); break; default: break; }
    switch (op)
    {
        case E_ADD:
            if (isC(b)) { if (b->k == 0) return a;
                if (a->op == E_ADD && isC(a->b)) return mkBin(E_ADD, a->a, mkConst(a->b->k + b->k, w)); 
                if (a->op == E_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(a->b->k + b->k, w), mkConst(a->c->k + b->k, w)); }
            if (w == 1) return mkBin(E_XOR, a, b);
            break;
        case E_SUB:
            if (a == b) return mkConst(0, w);
            if (isC(b)) return mkBin(E_ADD, a, mkConst(0 - b->k, w));
            if (a->op == E_ADD && isC(a->b) && b->op == E_ADD && isC(b->b)) return mkBin(E_ADD, mkBin(E_SUB, a->a, b->a), mkConst(a->b->k - b->b->k, w));
            if (a->op == E_ADD && a->a == b) return a->b;
            if (a->op == E_ADD && a->b == b) return a->a;
            break;
        case E_MUL:
            if (isC(b)) { if (b->k == 0) return b; if (b->k == 1) return a; if ((b->k & (b->k - 1)) == 0) return mkBin(E_SHL, a, mkConst(__builtin_ctzll(b->k), w)); }
            break;
        case E_UDIV: if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkBin(E_LSHR, a, mkConst(__builtin_ctzll(b->k), w)); break;
        case E_UREM: if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkBin(E_AND, a, mkConst(b->k - 1, w)); break;
        case E_SDIV: if (a->slo >= 0 && b->slo >= 0) return mkBin(E_UDIV, a, b); if (isC(b) && b->k == 1) return a; if (a->slo >= 0 && isC(b) && b->shi < 0 && b->slo > -(1ll << 40)) return mkBin(E_SUB, mkConst(0, w), mkBin(E_UDIV, a, mkConst((u64)-b->slo, w))); break;
        case E_SREM: if (a->slo >= 0 && b->slo >= 0) return mkBin(E_UREM, a, b); break;
        case E_AND:
            if (a == b) return a;
            if (isC(b)) { if (b->k == 0) return b; if (b->k == maskw(w)) return a;
                if ((b->k & (b->k + 1)) == 0) { unsigned n = 64 - __builtin_clzll(b->k); if (a->hi <= b->k) return a; return mkZext(mkExtract(a, 0, n), w); } }
            if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
            break;
        case E_OR:
            if (a == b) return a;
            if (isC(b)) { if (b->k == 0) return a; if (b->k == maskw(w)) return b; }
            if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
            break;
        case E_XOR:
            if (a == b) return mkConst(0, w);
            if (isC(b)) { if (b->k == 0) return a; if (w == 1) return mkNot(a); if (b->k == maskw(w)) return mkBin(E_SUB, b, a); if (a->op == E_XOR && isC(a->b)) return mkBin(E_XOR, a->a, mkConst(a->b->k ^ b->k, w)); 
                if (a->op == E_ZEXT && a->a->w == 1 && b->k == 1) return mkZext(mkNot(a->a), w); }
            if (w == 1) { if (isNot(a)) return mkNot(mkBin(E_XOR, a->a, b)); if (isNot(b)) return mkNot(mkBin(E_XOR, a, b->a)); return mkNot(mkBin(E_EQ, a, b)); }
            break;
        case E_SHL:
            if (isC(b)) { if (b->k == 0) return a; if (b->k >= w) return mkConst(0, w); }
            if (isC(a) && a->k == 0) return a;
            break;
        case E_LSHR:
            if (isC(b)) { if (b->k == 0) return a; if (b->k >= w) return mkConst(0, w); if (a->hi < (1ull << b->k)) return mkConst(0, w); return mkZext(mkExtract(a, b->k, w - b->k), w); }
            if (isC(a) && a->k == 0) return a;
            break;
        case E_ASHR: if (isC(b) && b->k == 0) return a;
            if (isC(b) && b->k < w && a->op == E_SHL && isC(a->b) && a->b->k == b->k && a->a->slo >= (sextv(1ull << (w - 1), w) >> b->k) && a->a->shi <= ((i64)(maskw(w) >> 1) >> b->k)) return a->a;
            if (a->slo >= 0) return mkBin(E_LSHR, a, b); break;
        case E_EQ:
            if (a == b) return mkConst(1, 1);
            if (a->hi < b->lo || b->hi < a->lo || a->shi < b->slo || b->shi < a->slo) return mkConst(0, 1);
            if (w == 1) { if (isC(b)) return b->k ? a : mkNot(a); if (isNot(a)) return mkNot(mkBin(E_EQ, a->a, b)); if (isNot(b)) return mkNot(mkBin(E_EQ, a, b->a)); }
            if (isC(b))
            {
                if (a->op == E_ITE)
                {
                    if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkBin(E_EQ, a->b, b), mkBin(E_EQ, a->c, b));
                }
                if (a->op == E_ADD && isC(a->b)) return mkBin(E_EQ, a->a, mkConst(b->k - a->b->k, w));
                if (a->op == E_XOR && isC(a->b)) return mkBin(E_EQ, a->a, mkConst(b->k ^ a->b->k, w));
                if (a->op == E_SEXT) { const Ex* t = mkConst(b->k, a->a->w); if ((u64)(sextv(t->k, t->w)) == (u64)sextv(b->k, w)) return mkBin(E_EQ, a->a, t); return mkConst(0, 1); }
                if (a->op == E_SUB && b->k == 0) return mkBin(E_EQ, a->a, a->b);
                if (a->op == E_SHL && isC(a->b) && 0) {}
                if (a->op == E_CONCAT) return mkBin(E_AND, mkBin(E_EQ, a->a, mkConst(b->k >> a->b->w, a->a->w)), mkBin(E_EQ, a->b, mkConst(b->k, a->b->w)));
            }
            if (a->op == E_ADD && b->op == E_ADD && isC(a->b) && isC(b->b) && a->b == b->b) return mkBin(E_EQ, a->a, b->a);
            if (a->op == E_SEXT && b->op == E_SEXT && a->a->w == b->a->w) return mkBin(E_EQ, a->a, b->a);
            { const Ex *x = a, *y = b; shrinkPair(x, y); if (x != a || y != b) return mkBin(E_EQ, x, y); }
            break;
        case E_ULT:
            if (a == b) return mkConst(0, 1);
            if (a->op == E_MUL && a->a == a->b && b->op == E_MUL && b->a == b->b && w == 64)
            {
                // comparing squares that cannot overflow
                auto fits = [](const Ex* x) { return x->slo > -(1ll << 30) && x->shi < (1ll << 30); };
                auto abs = [&](const Ex* x) { return x->slo >= 0 ? x : x->shi <= 0 ? mkBin(E_SUB, mkConst(0, w), x) : mkIte(mkBin(E_SLT, x, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), x), x); };
                if (fits(a->a) && fits(b->a)) return mkBin(E_ULT, abs(a->a), abs(b->a));
            }
            if (a->hi < b->lo) return mkConst(1, 1);
            if (a->lo >= b->hi) return mkConst(0, 1);
            if (w == 1) return mkBin(E_AND, mkNot(a), b);
            if (isC(b) && b->k == 1) return mkBin(E_EQ, a, mkConst(0, w));
            if (isC(a) && a->k == 0) return mkNot(mkBin(E_EQ, b, mkConst(0, w)));
            if (isC(a) && b->op == E_ITE && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkBin(E_ULT, a, b->b), mkBin(E_ULT, a, b->c));
            if (isC(b) && a->op == E_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(E_ULT, a->b, b), mkBin(E_ULT, a->c, b));
            { const Ex *x = a, *y = b; shrinkPair(x, y); if (x != a || y != b) return mkBin(E_ULT, x, y); }
            if (isC(b)) return mkNot(mkBin(E_ULT, mkConst(b->k - 1, w), a)); // a<C  ==  !(C-1 < a)
            break;
        case E_SLT:
            if (a == b) return mkConst(0, 1);
            if (a->op == E_MUL && a->a == a->b && b->op == E_MUL && b->a == b->b && w == 64)
            {
                // comparing squares that cannot overflow
                auto fits = [](const Ex* x) { return x->slo > -(1ll << 30) && x->shi < (1ll << 30); };
                auto abs = [&](const Ex* x) { return x->slo >= 0 ? x : x->shi <= 0 ? mkBin(E_SUB, mkConst(0, w), x) : mkIte(mkBin(E_SLT, x, mkConst(0, w)), mkBin(E_SUB, mkConst(0, w), x), x); };
                if (fits(a->a) && fits(b->a)) return mkBin(E_ULT, abs(a->a), abs(b->a));
            }
            if (a->shi < b->slo) return mkConst(1, 1);
            if (a->slo >= b->shi) return mkConst(0, 1);
            if (a->slo >= 0 && b->slo >= 0) return mkBin(E_ULT, a, b);
            if (w == 1) return mkBin(E_AND, a, mkNot(b));
            // move a common/constant offset when no signed overflow is possible
            {
                auto split = [&](const Ex* e, const Ex*& base, i64& off) { if (e->op == E_ADD && isC(e->b)) { i64 o = sextv(e->b->k, w); __int128 l = (__int128)e->a->slo + o, h = (__int128)e->a->shi + o; if (l == e->slo && h == e->shi) { base = e->a; off = o; return; } } base = e; off = 0; };
                const Ex *x, *y; i64 ox, oy; split(a, x, ox); split(b, y, oy);
                if (isC(b) && ox) { __int128 k = (__int128)sextv(b->k, w) - ox; if (k >= sextv(1ull << (w - 1), w) && k <= (i64)(maskw(w) >> 1)) return mkBin(E_SLT, x, mkConst((u64)(i64)k, w)); }
                else if (isC(a) && oy) { __int128 k = (__int128)sextv(a->k, w) - oy; if (k >= sextv(1ull << (w - 1), w) && k <= (i64)(maskw(w) >> 1)) return mkBin(E_SLT, mkConst((u64)(i64)k, w), y); }
                else if (ox && ox == oy) return mkBin(E_SLT, x, y);
            }
            if (isC(b) && a->op == E_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkBin(E_SLT, a->b, b), mkBin(E_SLT, a->c, b));
            if (isC(a) && b->op == E_ITE && (isC(b->b) || isC(b->c))) return mkIte(b->a, mkBin(E_SLT, a, b->b), mkBin(E_SLT, a, b->c));
            if (isC(b)) { i64 k = sextv(b->k, w); return mkNot(mkBin(E_SLT, mkConst((u64)(k - 1), w), a)); }
            break;
        default: break;
    }
    return fin(mkRaw(op, rw, a, b, nullptr, 0));
}

const Ex* mkIte(const Ex* c, const Ex* a, const Ex* b)
{
    if (isC(c)) return c->k ? a : b;
    if (a == b) return a;
    if (isNot(c)) return mkIte(c->a, b, a);
    if (a->w == 1)
    {
        if (isC(a) && isC(b)) return a->k ? c : mkNot(c);
        if (isC(a)) return a->k ? mkBin(E_OR, c, b) : mkBin(E_AND, mkNot(c), b);
        if (isC(b)) return b->k ? mkBin(E_OR, mkNot(c), a) : mkBin(E_AND, c, a);
    }
    else if (a->w <= 64 && isC(a) && isC(b))
    {
        if (a->k == 1 && b->k == 0) return mkZext(c, a->w);
        if (a->k == 0 && b->k == 1) return mkZext(mkNot(c), a->w);
    }
    if (a->op == E_ITE && a->a == c) a = a->b;
    if (b->op == E_ITE && b->a == c) b = b->c;
    if (a == b) return a;
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mkZext(mkIte(c, a->a, b->a), a->w);
    return mkRaw(E_ITE, a->w, c, a, b, 0);
}
// A floating point expression whose value is exactly (integer) * 2^-sh, for every
// value of its variables: comparisons of two of these are integer comparisons.
static bool dyadic(const Ex* e, const Ex*& ix, int& sh)
{
    const i64 lim = e->w == 32 ? (1ll << 24) : (1ll << 53);
    auto ok = [&](const Ex* x) { return x->slo > -lim && x->shi < lim; };
    switch (e->op)
    {
        case E_CONST:
        {
            double v = e->w == 32 ? bf(e->k) : bd(e->k);
            for (sh = 0; sh <= 10; ++sh, v *= 2) if (v == std::floor(v) && std::fabs(v) < lim) { ix = mkConst((u64)(i64)v, 64); return true; }
            return false;
        }
        case E_SITOFP: if (e->a->w > 64) return false; ix = mkSext(e->a, 64); sh = 0; return ok(ix);
        case E_UITOFP: if (e->a->w >= 64) { if (e->a->hi >= (u64)lim || e->a->w > 64) return false; ix = e->a; } else ix = mkZext(e->a, 64); sh = 0; return ok(ix);
        case E_FPEXT: return dyadic(e->a, ix, sh);
        case E_ITE: return false;
        case E_FDIV: case E_FMUL:
        {
            const Ex *x = e->a, *c = e->b; if (e->op == E_FMUL && isC(x)) std::swap(x, c);
            if (!isC(c)) return false;
            double v = c->w == 32 ? bf(c->k) : bd(c->k); int ex; if (!(v > 0) || std::frexp(v, &ex) != 0.5) return false; --ex;
            if (!dyadic(x, ix, sh)) return false;
            sh += e->op == E_FDIV ? ex : -ex;
            if (sh > 10 || sh < -10) return false;
            if (sh < 0) { ix = mkBin(E_MUL, ix, mkConst(1ull << -sh, 64)); sh = 0; }
            return ok(ix);
        }
        case E_FADD: case E_FSUB:
        {
            const Ex *x, *y; int sx, sy; if (!dyadic(e->a, x, sx) || !dyadic(e->b, y, sy)) return false;
            sh = std::max(sx, sy);
            if (sx < sh) x = mkBin(E_MUL, x, mkConst(1ull << (sh - sx), 64));
            if (sy < sh) y = mkBin(E_MUL, y, mkConst(1ull << (sh - sy), 64));
            ix = mkBin(e->op == E_FADD ? E_ADD : E_SUB, x, y);
            return ok(ix);
        }
        default: return false;
    }
}
const Ex* mkF(EOp op, unsigned w, const Ex* a, const Ex* b)
{
    if (isC(a) && (!b || isC(b))) return mkConst(evalOp(op, w, a->w, 0, a->k, b ? b->k : 0, 0, b ? b->w : 0), w);
    if (op == E_FLT || op == E_FLE || op == E_FEQ || op == E_FUNO)
    {
        const Ex *x, *y; int sx, sy;
        if (dyadic(a, x, sx) && dyadic(b, y, sy))
        {
            if (op == E_FUNO) return mkConst(0, 1);
            int sh = std::max(sx, sy);
            if (sx < sh) x = mkBin(E_MUL, x, mkConst(1ull << (sh - sx), 64));
            if (sy < sh) y = mkBin(E_MUL, y, mkConst(1ull << (sh - sy), 64));
            if (op == E_FEQ) return mkBin(E_EQ, x, y);
            return op == E_FLT ? mkBin(E_SLT, x, y) : mkNot(mkBin(E_SLT, y, x));
        }
    }
    if (op == E_FPTOSI)
    {
        const Ex* x; int sx;
        if (dyadic(a, x, sx) && sx == 0 && w <= 64 && (w == 64 || (x->slo >= -(1ll << (w - 1)) && x->shi < (1ll << (w - 1))))) return w == 64 ? x : mkExtract(x, 0, w);
    }
    return mkRaw(op, w, a, b, nullptr, 0);
}

static u64 ev1(const Ex* e, const std::vector<u64>& m)
{
    if (e->op == E_CONST) return e->k;
    if (e->stamp == g_stamp) return e->ev;
    u64 r;
    if (e->op == E_VAR) r = e->k < m.size() ? m[e->k] : 0;
    else if (e->op == E_ITE) r = ev1(e->a, m) ? ev1(e->b, m) : ev1(e->c, m);
    else if (e->w > 64 || (e->a && e->a->w > 64)) {
        // wide values: only extraction from concat/zext chains is supported
        if (e->op == E_EXTRACT) {
            const Ex* s = e->a; unsigned lo = e->k;
            // evaluate bitwise
            u64 v = 0;
            for (unsigned i = 0; i < e->w; i++) {
                const Ex* t = s; unsigned p = lo + i; u64 bit = 0;
                for (;;) {
                    if (t->w <= 64) { bit = (ev1(t, m) >> p) & 1; break; }
                    if (t->op == E_CONCAT) { if (p < t->b->w) t = t->b; else { p -= t->b->w; t = t->a; } continue; }
                    if (t->op == E_ZEXT) { if (p < t->a->w) { t = t->a; continue; } bit = 0; break; }
                    if (t->op == E_EXTRACT) { p += t->k; t = t->a; continue; }
                    if (t->op == E_ITE) { t = ev1(t->a, m) ? t->b : t->c; continue; }
                    fprintf(stderr, "wide eval unsupported op %d\n", t->op); abort();
                }
                v |= bit << i;
            }
            r = v;
        } else { fprintf(stderr, "wide eval unsupported\n"); abort(); }
    }
    else r = evalOp(e->op, e->w, e->a ? e->a->w : 0, e->k, e->a ? ev1(e->a, m) : 0, e->b ? ev1(e->b, m) : 0, 0, e->b ? e->b->w : 0);
    e->stamp = g_stamp; e->ev = r;
    return r;
}
u64 evalEx(const Ex* e, const std::vector<u64>& m) { g_stamp++; return ev1(e, m); }

static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(Z, w); }
static Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(Z) : Z3_mk_fpa_sort_64(Z); }
static Z3_ast fp(const Ex* e) { return Z3_mk_fpa_to_fp_bv(Z, toBV(e), fps(e->w)); }
static Z3_ast rm() { return Z3_mk_fpa_rne(Z); }
Z3_ast toBool(const Ex* e)
{
    if (e->zb) return e->zb;
    Z3_ast r;
    switch (e->op)
    {
        case E_CONST: r = e->k ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
        case E_EQ: r = e->a->w == 1 ? Z3_mk_iff(Z, toBool(e->a), toBool(e->b)) : Z3_mk_eq(Z, toBV(e->a), toBV(e->b)); break;
        case E_ULT: r = Z3_mk_bvult(Z, toBV(e->a), toBV(e->b)); break;
        case E_SLT: r = Z3_mk_bvslt(Z, toBV(e->a), toBV(e->b)); break;
        case E_FEQ: r = Z3_mk_fpa_eq(Z, fp(e->a), fp(e->b)); break;
        case E_FLT: r = Z3_mk_fpa_lt(Z, fp(e->a), fp(e->b)); break;
        case E_FLE: r = Z3_mk_fpa_leq(Z, fp(e->a), fp(e->b)); break;
        case E_FUNO: { Z3_ast p[2] = {Z3_mk_fpa_is_nan(Z, fp(e->a)), Z3_mk_fpa_is_nan(Z, fp(e->b))}; r = Z3_mk_or(Z, 2, p); break; }
        case E_AND: { Z3_ast p[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(Z, 2, p); break; }
        case E_OR: { Z3_ast p[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(Z, 2, p); break; }
        case E_XOR: r = isNot(e) ? Z3_mk_not(Z, toBool(e->a)) : Z3_mk_xor(Z, toBool(e->a), toBool(e->b)); break;
        case E_ITE: r = Z3_mk_ite(Z, toBool(e->a), toBool(e->b), toBool(e->c)); break;
        default: r = Z3_mk_eq(Z, toBV(e), Z3_mk_unsigned_int64(Z, 1, bvs(1))); break;
    }
    return e->zb = keep(r);
}
Z3_ast toBV(const Ex* e)
{
    if (e->z) return e->z;
    Z3_ast r;
    switch (e->op)
    {
        case E_CONST: r = Z3_mk_unsigned_int64(Z, e->k, bvs(e->w)); break;
        case E_VAR: { char nm[64]; snprintf(nm, sizeof nm, "v%llu_%d_%llx", (unsigned long long)e->k, e->w, (unsigned long long)e->hi); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), bvs(e->w)); break; }
        case E_ADD: r = Z3_mk_bvadd(Z, toBV(e->a), toBV(e->b)); break;
        case E_SUB: r = Z3_mk_bvsub(Z, toBV(e->a), toBV(e->b)); break;
        case E_MUL: r = Z3_mk_bvmul(Z, toBV(e->a), toBV(e->b)); break;
        case E_UDIV: r = Z3_mk_bvudiv(Z, toBV(e->a), toBV(e->b)); break;
        case E_SDIV: r = Z3_mk_bvsdiv(Z, toBV(e->a), toBV(e->b)); break;
        case E_UREM: r = Z3_mk_bvurem(Z, toBV(e->a), toBV(e->b)); break;
        case E_SREM: r = Z3_mk_bvsrem(Z, toBV(e->a), toBV(e->b)); break;
        case E_SHL: r = Z3_mk_bvshl(Z, toBV(e->a), toBV(e->b)); break;
        case E_LSHR: r = Z3_mk_bvlshr(Z, toBV(e->a), toBV(e->b)); break;
        case E_ASHR: r = Z3_mk_bvashr(Z, toBV(e->a), toBV(e->b)); break;
        case E_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->a->w, toBV(e->a)); break;
        case E_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->a->w, toBV(e->a)); break;
        case E_EXTRACT: r = Z3_mk_extract(Z, e->k + e->w - 1, e->k, toBV(e->a)); break;
        case E_CONCAT: r = Z3_mk_concat(Z, toBV(e->a), toBV(e->b)); break;
        case E_ITE: if (e->w > 1) { r = Z3_mk_ite(Z, toBool(e->a), toBV(e->b), toBV(e->c)); break; } goto viaBool;
        case E_AND: if (e->w > 1) { r = Z3_mk_bvand(Z, toBV(e->a), toBV(e->b)); break; } goto viaBool;
        case E_OR: if (e->w > 1) { r = Z3_mk_bvor(Z, toBV(e->a), toBV(e->b)); break; } goto viaBool;
        case E_XOR: if (e->w > 1) { r = Z3_mk_bvxor(Z, toBV(e->a), toBV(e->b)); break; } goto viaBool;
        case E_FADD: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_add(Z, rm(), fp(e->a), fp(e->b))); break;
        case E_FSUB: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_sub(Z, rm(), fp(e->a), fp(e->b))); break;
        case E_FMUL: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_mul(Z, rm(), fp(e->a), fp(e->b))); break;
        case E_FDIV: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_div(Z, rm(), fp(e->a), fp(e->b))); break;
        case E_SITOFP: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_signed(Z, rm(), toBV(e->a), fps(e->w))); break;
        case E_UITOFP: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_unsigned(Z, rm(), toBV(e->a), fps(e->w))); break;
        case E_FPTOSI: r = Z3_mk_fpa_to_sbv(Z, Z3_mk_fpa_rtz(Z), fp(e->a), e->w); break;
        case E_FPTOUI: r = Z3_mk_fpa_to_ubv(Z, Z3_mk_fpa_rtz(Z), fp(e->a), e->w); break;
        case E_FPEXT: case E_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(Z, Z3_mk_fpa_to_fp_float(Z, rm(), fp(e->a), fps(e->w))); break;
        default:
        viaBool:
            r = Z3_mk_ite(Z, toBool(e), Z3_mk_unsigned_int64(Z, 1, bvs(1)), Z3_mk_unsigned_int64(Z, 0, bvs(1)));
    }
    return e->z = keep(r);
}

// Integer translation.  An expression gets an integer form only where the intervals show that no
// operation wraps, so that the form is exact.
static Z3_ast ic(__int128 v)
{
    char b[64]; bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : v; int n = 63; b[n] = 0;
    do { b[--n] = '0' + (int)(u % 10); u /= 10; } while (u);
    if (neg) b[--n] = '-';
    return Z3_mk_numeral(Z, b + n, Z3_mk_int_sort(Z));
}
static Z3_ast toInt1(const Ex* e, bool uns)
{
    unsigned w = e->w; if (w > 64) return nullptr;
    u64 M = maskw(w); i64 smin = sextv(1ull << (w - 1), w), smax = (i64)(M >> 1);
    auto arith = [&](int k) -> Z3_ast {
        __int128 al, ah, bl, bh, mn, mx;
        if (uns) { al = e->a->lo; ah = e->a->hi; bl = e->b->lo; bh = e->b->hi; mn = 0; mx = M; }
        else { al = e->a->slo; ah = e->a->shi; bl = e->b->slo; bh = e->b->shi; mn = smin; mx = smax; }
        __int128 l, h;
        if (k == 0) { l = al + bl; h = ah + bh; } else if (k == 1) { l = al - bh; h = ah - bl; }
        else { if (!isC(e->b)) return nullptr; if (bl < -(1 << 20) || bl > (1 << 20)) return nullptr; l = std::min(al * bl, ah * bl); h = std::max(al * bl, ah * bl); }
        if (l < mn || h > mx) return nullptr;
        Z3_ast p[2] = {toInt(e->a, uns), nullptr}; if (!p[0]) return nullptr;
        p[1] = toInt(e->b, uns); if (!p[1]) return nullptr;
        return k == 0 ? Z3_mk_add(Z, 2, p) : k == 1 ? Z3_mk_sub(Z, 2, p) : Z3_mk_mul(Z, 2, p);
    };
    switch (e->op)
    {
        case E_CONST: return uns ? ic((__int128)e->k) : ic((__int128)sextv(e->k, w));
        case E_VAR: { if (!uns && e->hi > (u64)smax) return nullptr; char nm[64]; snprintf(nm, sizeof nm, "i%llu_%d_%llx", (unsigned long long)e->k, w, (unsigned long long)e->hi); return Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), Z3_mk_int_sort(Z)); }
        case E_ADD: if (auto r = arith(0)) return r; break;
        case E_SUB: if (auto r = arith(1)) return r; break;
        case E_MUL: if (auto r = arith(2)) return r; break;
        case E_SHL: if (isC(e->b) && e->b->k < 20 && e->b->k < w) {
            unsigned k = e->b->k; bool ok = uns ? ((unsigned __int128)e->a->hi << k) <= M : ((__int128)e->a->slo * (1ll << k) >= smin && (__int128)e->a->shi * (1ll << k) <= smax);
            Z3_ast a = ok ? toInt(e->a, uns) : nullptr; if (a) { Z3_ast p[2] = {a, ic(1ll << k)}; return Z3_mk_mul(Z, 2, p); } } break;
        case E_ZEXT: return toInt(e->a, true);
        case E_SEXT: if (!uns) return toInt(e->a, false); break;
        case E_EXTRACT: if (e->k == 0 && e->a->w <= 64) { if (uns ? e->a->hi <= M : (e->a->slo >= smin && e->a->shi <= smax)) return toInt(e->a, uns); }
            if (uns && e->k == 0 && e->a->w <= 64 && w >= 16) { Z3_ast a = toInt(e->a, true); if (!a) a = toInt(e->a, false); if (a) return Z3_mk_mod(Z, a, ic((__int128)1 << w)); }
            if (uns && e->k > 0 && e->k < 40 && e->a->w <= 64 && (e->a->hi >> e->k) <= M) { Z3_ast a = toInt(e->a, true); if (a) return Z3_mk_div(Z, a, ic(1ll << e->k)); } break;
        case E_UDIV: case E_UREM: if (uns && isC(e->b) && e->b->k && e->b->k < (1ull << 40)) { Z3_ast a = toInt(e->a, true); if (a) return e->op == E_UDIV ? Z3_mk_div(Z, a, ic((__int128)e->b->k)) : Z3_mk_mod(Z, a, ic((__int128)e->b->k)); } break;
        case E_ITE: if (w > 1) { Z3_ast c = toIntBool(e->a); Z3_ast x = c ? toInt(e->b, uns) : nullptr, y = x ? toInt(e->c, uns) : nullptr; if (y) return Z3_mk_ite(Z, c, x, y); } break;
        default: break;
    }
    if (w == 1 && !uns) { Z3_ast c = toIntBool(e); if (c) return Z3_mk_ite(Z, c, ic(-1), ic(0)); }
    if (w == 1 && uns) { Z3_ast c = toIntBool(e); if (c) return Z3_mk_ite(Z, c, ic(1), ic(0)); }
    // from the other view, exactly: the two differ by 2^w on values whose top bit is set
    Z3_ast o = e->zi[!uns];
    if (!o && !e->ni[!uns]) { e->ni[uns] = 1; o = toInt(e, !uns); e->ni[uns] = 0; }
    if (o)
    {
        if (e->slo >= 0 && e->hi <= (u64)smax) return o;
        __int128 W = (__int128)1 << w;
        Z3_ast q[2] = {o, ic(W)};
        if (uns) return e->shi < 0 ? Z3_mk_add(Z, 2, q) : Z3_mk_ite(Z, Z3_mk_lt(Z, o, ic(0)), Z3_mk_add(Z, 2, q), o);
        return e->lo > (u64)smax ? Z3_mk_sub(Z, 2, q) : Z3_mk_ite(Z, Z3_mk_gt(Z, o, ic(smax)), Z3_mk_sub(Z, 2, q), o);
    }
    // a sum or difference that may wrap, exactly: from the operands' views, brought back into range
    if (w >= 16 && (e->op == E_ADD || e->op == E_SUB))
    {
        Z3_ast p[2] = {toInt(e->a, uns), nullptr}; if (p[0]) p[1] = toInt(e->b, uns);
        if (p[1])
        {
            Z3_ast r = e->op == E_ADD ? Z3_mk_add(Z, 2, p) : Z3_mk_sub(Z, 2, p);
            __int128 W = (__int128)1 << w, mn = uns ? 0 : smin, mx = uns ? (__int128)M : smax;
            Z3_ast up[2] = {r, ic(W)};
            return Z3_mk_ite(Z, Z3_mk_lt(Z, r, ic(mn)), Z3_mk_add(Z, 2, up), Z3_mk_ite(Z, Z3_mk_gt(Z, r, ic(mx)), Z3_mk_sub(Z, 2, up), r));
        }
    }
    return nullptr;
}
Z3_ast toInt(const Ex* e, bool uns)
{
    if (e->zi[uns]) return e->zi[uns];
    if (e->ni[uns]) return nullptr;
    Z3_ast r = toInt1(e, uns);
    if (!r) { e->ni[uns] = 1; return nullptr; }
    return e->zi[uns] = keep(r);
}
Z3_ast toIntBool(const Ex* e)
{
    if (e->zib) return e->zib;
    if (e->nib) return nullptr;
    Z3_ast r = nullptr, p[2];
    auto two = [&]() { p[0] = toIntBool(e->a); if (!p[0]) return false; p[1] = toIntBool(e->b); return p[1] != nullptr; };
    auto ints = [&](bool u) { p[0] = toInt(e->a, u); if (!p[0]) return false; p[1] = toInt(e->b, u); return p[1] != nullptr; };
    switch (e->op)
    {
        case E_CONST: r = e->k ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
        case E_VAR: if (Z3_ast v = toInt(e, true)) r = Z3_mk_eq(Z, v, ic(1)); break;
        case E_EQ: if (e->a->w == 1) { if (two()) r = Z3_mk_iff(Z, p[0], p[1]); } else if (ints(false) || ints(true)) r = Z3_mk_eq(Z, p[0], p[1]); break;
        case E_ULT:
            if (e->a->slo >= 0 && e->b->slo >= 0 && ints(true)) { r = Z3_mk_lt(Z, p[0], p[1]); break; }
            if (ints(false)) // a < b unsigned, from the signed views: both signs alike and a < b, or only b negative
            {
                Z3_ast lt = Z3_mk_lt(Z, p[0], p[1]), an = e->a->slo >= 0 ? nullptr : Z3_mk_lt(Z, p[0], ic(0)), bn = e->b->slo >= 0 ? nullptr : Z3_mk_lt(Z, p[1], ic(0));
                if (!an && !bn) r = lt;
                else if (!an) { Z3_ast q[2] = {bn, lt}; r = Z3_mk_or(Z, 2, q); }
                else if (!bn) { Z3_ast q[2] = {Z3_mk_not(Z, an), lt}; r = Z3_mk_and(Z, 2, q); }
                else r = Z3_mk_ite(Z, Z3_mk_iff(Z, an, bn), lt, bn);
            }
            else if (ints(true)) r = Z3_mk_lt(Z, p[0], p[1]);
            break;
        case E_SLT: if (ints(false)) r = Z3_mk_lt(Z, p[0], p[1]); break;
        case E_AND: if (two()) r = Z3_mk_and(Z, 2, p); break;
        case E_OR: if (two()) r = Z3_mk_or(Z, 2, p); break;
        case E_XOR: if (isNot(e)) { if (Z3_ast a = toIntBool(e->a)) r = Z3_mk_not(Z, a); } else if (two()) r = Z3_mk_xor(Z, p[0], p[1]); break;
        case E_ITE: { Z3_ast c = toIntBool(e->a); if (!c) break; p[0] = toIntBool(e->b); if (!p[0]) break; p[1] = toIntBool(e->c); if (!p[1]) break; r = Z3_mk_ite(Z, c, p[0], p[1]); break; }
        default: break;
    }
    if (!r) { e->nib = 1; return nullptr; }
    return e->zib = keep(r);
}

std::string exStr(const Ex* e, int d)
{
    static const char* nm[] = {"const","var","+","-","*","u/","s/","u%","s%","&","|","^","<<",">>","a>>","==","u<","s<","ite","zext","sext","extract","concat","f+","f-","f*","f/","f==","f<","f<=","funo","sitofp","uitofp","fptosi","fptoui","fpext","fptrunc"};
    if (e->op == E_CONST) return std::to_string(e->k);
    if (e->op == E_VAR) return "v" + std::to_string(e->k);
    if (d == 0) return "...";
    std::string s = std::string("(") + nm[e->op];
    for (const Ex* x : {e->a, e->b, e->c}) if (x) s += " " + exStr(x, d - 1);
    return s + ")";
}

// the innermost reason why an expression has no integer form
std::string exWhy(const Ex* e)
{
    bool isB = e->w == 1;
    for (const Ex* x : {e->a, e->b, e->c}) if (x) { bool ok = x->w == 1 ? toIntBool(x) != nullptr : (toInt(x, true) != nullptr); if (!ok) return exWhy(x); }
    char b[200]; snprintf(b, sizeof b, " w=%d lo=%llx hi=%llx slo=%lld shi=%lld", e->w, (unsigned long long)e->lo, (unsigned long long)e->hi, (long long)e->slo, (long long)e->shi);
    return exStr(e, 4) + b + (isB ? " bool" : "");
}
