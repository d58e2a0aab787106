// delayed_delete_vector against a plain array under any history of modifications.
#include "sy.hpp"
#include "tok.hpp"
#include <cstddef>
#include <stdexcept>
#include <utility>
#include <mdds/multi_type_vector/types.hpp>
typedef std::size_t S;
#if defined(BIT)
typedef bool E; static E mk(int v) { return v != 0; } static int val(const E& e) { return e; } enum { VMAX = 1 };
#elif defined(OWN)
typedef Tok E; static E mk(int v) { return Tok(v); } static int val(const E& e) { return e.get(); } enum { VMAX = 9 };
#else
typedef long E; static E mk(int v) { return E(v); } static int val(const E& e) { return int(e); } enum { VMAX = 9 };
#endif
typedef mdds::mtv::delayed_delete_vector<E> V;
struct Ref
{
    int n = 0, v[32];
    void ins(int at, const int* b, int m) { for (int i = n - 1; i >= at; --i) v[i + m] = v[i]; for (int i = 0; i < m; ++i) v[at + i] = b[i]; n += m; }
    void del(int at, int m) { for (int i = at + m; i < n; ++i) v[i - m] = v[i]; n -= m; }
};
static int sym() { return int(sy_int("v", 0, VMAX)); }
static void check(V& d, const Ref& r)
{
    const V& c = d;
    sy_assert(c.size() == S(r.n), "size");
    sy_assert(c.capacity() >= S(r.n), "the capacity holds the content");
    sy_assert(d.end() - d.begin() == r.n && c.end() - c.begin() == r.n && d.rend() - d.rbegin() == r.n && c.rend() - c.rbegin() == r.n, "iterators span the content");
    int i = 0; for (auto it = d.begin(); it != d.end(); ++it, ++i) sy_assert(val(*it) == r.v[i], "forward iteration");
    i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) sy_assert(val(*it) == r.v[i], "forward iteration");
    i = r.n; for (auto it = d.rbegin(); it != d.rend(); ++it) sy_assert(val(*it) == r.v[--i], "reverse iteration");
    i = r.n; for (auto it = c.rbegin(); it != c.rend(); ++it) sy_assert(val(*it) == r.v[--i], "reverse iteration");
    for (i = 0; i < r.n; ++i)
    {
        sy_assert(val(d[S(i)]) == r.v[i] && val(c[S(i)]) == r.v[i] && val(d.at(S(i))) == r.v[i] && val(c.at(S(i))) == r.v[i], "element access");
#ifndef BIT
        sy_assert(val(d.data()[i]) == r.v[i] && val(c.data()[i]) == r.v[i], "element access through data");
#endif
    }
    bool thrown = false; try { c.at(S(r.n)); } catch (const std::out_of_range&) { thrown = true; }
    sy_assert(thrown, "at refuses the end position");
}
static void one(V& d, Ref& r)
{
    int b[2];
    switch (sy_choice("op", 9))
    {
    case 0: b[0] = sym(); if (sy_choice("how", 2)) { const E e = mk(b[0]); d.push_back(e); } else d.push_back(mk(b[0])); r.ins(r.n, b, 1); sy_reach("push"); break;
    case 1: b[0] = sym(); d.emplace_back(mk(b[0])); r.ins(r.n, b, 1); break;
    case 2:
    {
        int at = int(sy_choice("at", r.n + 1)); b[0] = sym(); V::iterator it;
        if (sy_choice("how", 2)) { const E e = mk(b[0]); it = d.insert(d.begin() + at, e); } else it = d.insert(const_cast<const V&>(d).begin() + at, mk(b[0]));
        r.ins(at, b, 1); sy_assert(it - d.begin() == at, "insert returns the inserted element"); sy_reach("insert");
        break;
    }
    case 3:
    {
        int at = int(sy_choice("at", r.n + 1)), m = int(sy_choice("count", 3)); E e[2] = {mk(0), mk(0)}; for (int i = 0; i < m; ++i) { b[i] = sym(); e[i] = mk(b[i]); }
        const E* f = e; d.insert(d.begin() + at, f, f + m); r.ins(at, b, m);
        break;
    }
    case 4:
    {
        if (!r.n) break;
        int at = int(sy_choice("at", r.n)); auto it = d.erase(d.begin() + at); r.del(at, 1);
        sy_assert(it - d.begin() == at, "erase returns the following element"); sy_reach("erase");
        break;
    }
    case 5:
    {
        int at = int(sy_choice("at", r.n + 1)), m = int(sy_choice("count", r.n - at + 1)); auto it = d.erase(d.begin() + at, d.begin() + at + m); r.del(at, m);
        sy_assert(it - d.begin() == at, "erase returns the following element");
        break;
    }
    case 6:
    {
        int n = int(sy_choice("n", r.n + 3)); d.resize(S(n)); b[0] = val(E()); while (r.n < n) r.ins(r.n, b, 1); r.n = n; sy_reach("resize");
        break;
    }
    case 7: if (sy_choice("how", 2)) d.reserve(S(sy_choice("n", 6))); else d.shrink_to_fit(); break;
    case 8:
    {
        int m = int(sy_choice("count", 3)); E e[2] = {mk(0), mk(0)}; r.n = 0; for (int i = 0; i < m; ++i) { b[i] = sym(); e[i] = mk(b[i]); }
        const E* f = e; d.assign(f, f + m); r.ins(0, b, m); sy_reach("assign");
        break;
    }
    }
}
HARNESS(ddv_history)
{
    V d; Ref r; long P = sy_choice("start", sy_param("P", 3) + 1); int b;
    for (long i = 0; i < P; ++i) { b = sym(); d.push_back(mk(b)); r.ins(r.n, &b, 1); }
    for (long i = 0, F = sy_choice("front", P + 1); i < F; ++i) { d.erase(d.begin()); r.del(0, 1); }
    for (long i = 0, n = sy_param("N", 2); i < n; ++i) one(d, r);
    check(d, r);
}
static void start(V& d, Ref& r, long p)
{
    int b; p = sy_choice("start", p + 1);
    for (long i = 0; i < p; ++i) { b = sym(); d.push_back(mk(b)); r.ins(r.n, &b, 1); }
    for (long i = 0, f = sy_choice("front", p + 1); i < f; ++i) { d.erase(d.begin()); r.del(0, 1); }
}
HARNESS(ddv_copy)
{
    V x; Ref rx; start(x, rx, sy_param("P", 2)); V y; Ref ry; start(y, ry, sy_param("P", 2));
    bool same = rx.n == ry.n; for (int i = 0; same && i < rx.n; ++i) same = same & (rx.v[i] == ry.v[i]);
    bool eq = x == y; sy_assert(eq == same && (y == x) == eq, "equal exactly if the contents are");
    if (eq) sy_reach("equal"); else sy_reach("differ");
    switch (sy_choice("how", 6))
    {
    case 0: { V t(x); y.swap(t); ry = rx; break; }
    case 1: y = x; ry = rx; break;
    case 2: { V t(std::move(x)); y.swap(t); ry = rx; rx.n = 0; sy_reach("moved"); break; }
    case 3: y = std::move(x); ry = rx; rx.n = 0; break;
    case 4: { x.swap(y); std::swap(rx, ry); sy_reach("swapped"); break; }
    case 5: { E e[2] = {mk(1), mk(0)}; const E* f = e; y = V(f, f + 2); int b[2] = {1, 0}; ry.n = 0; ry.ins(0, b, 2); V z(S(2), mk(1)); int c[2] = {1, 1}; Ref rz; rz.ins(0, c, 2); check(z, rz); V w(S(2)); sy_assert(w.size() == 2 && val(w[0]) == val(E()), "construction from a size"); break; }
    }
    for (long i = 0, n = sy_param("N", 1); i < n; ++i) { if (sy_choice("which", 2)) one(y, ry); else one(x, rx); }
    check(x, rx); check(y, ry);
}
