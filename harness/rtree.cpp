// rtree: a spatial index whose searches are exact and whose structure stays
// balanced, tight and within its node capacities.
#include "sy.hpp"
#include "tok.hpp"
#include <utility>
#include <mdds/rtree.hpp>
#ifndef DIM
#define DIM 1
#endif
#ifndef MINN
#define MINN 1
#endif
#ifndef MAXN
#define MAXN 2
#endif
#ifndef REINS
#define REINS 0
#endif
struct Traits { static constexpr size_t dimensions = DIM, min_node_size = MINN, max_node_size = MAXN, max_tree_depth = 20, reinsertion_size = REINS ? REINS : 1; static constexpr bool enable_forced_reinsertion = REINS > 0; };
typedef long K;
#ifdef USE_TOK
typedef Tok V; static int val(const V& v) { return v.get(); }
#else
typedef int V; static int val(const V& v) { return v; }
#endif
typedef mdds::rtree<K, V, Traits> T;
typedef T::extent_type E; typedef T::point_type P; typedef T::search_type ST;
static const int MX = 40;
static long RNG() { return sy_param("RNG", 100); }
struct Model { E e[MX]; int v[MX]; bool live[MX]; int n = 0;
    int count() const { int c = 0; for (int i = 0; i < n; ++i) c += live[i]; return c; }
    int idx(int w) const { int r = -1; for (int i = 0; i < n; ++i) if (live[i] && v[i] == w) r = i; return r; } };
static E extent(bool point)
{
    E e; static const char* ns[] = {"x", "y", "z"}; static const char* nl[] = {"xl", "yl", "zl"};
    for (int d = 0; d < DIM; ++d) { long r = d ? sy_param("RNG2", 100) : RNG(); e.start.d[d] = sy_int(ns[d], 0, r); e.end.d[d] = point ? e.start.d[d] : e.start.d[d] + sy_int(nl[d], 0, r); if (d && sy_param("CONC2", 1)) { e.start.d[d] = sy_concrete(e.start.d[d]); e.end.d[d] = sy_concrete(e.end.d[d]); } }
    return e;
}
static bool same(const E& a, const E& b) { bool r = true; for (int d = 0; d < DIM; ++d) r &= (a.start.d[d] == b.start.d[d]) & (a.end.d[d] == b.end.d[d]); return r; }
static bool overlap(const E& a, const E& b) { bool r = true; for (int d = 0; d < DIM; ++d) r &= (a.start.d[d] <= b.end.d[d]) & (b.start.d[d] <= a.end.d[d]); return r; }
static void put(T& t, Model& m, const E& e, bool pt, int id)
{
    if (pt) t.insert(e.start, V(id)); else t.insert(e, V(id));
    m.e[m.n] = e; m.v[m.n] = id; m.live[m.n] = true; ++m.n;
}
static bool pointy() { long k = sy_param("KIND", 1); return k == 2 ? sy_choice("point", 2) : k == 0; }
static void ins(T& t, Model& m, int id) { bool p = pointy(); E e = extent(p); put(t, m, e, p, id); }

template<typename Tr> static void results(Tr& t, const Model& m, const E& q, bool point, bool match)
{
    auto r = point ? t.search(q.start, match ? ST::match : ST::overlap) : t.search(q, match ? ST::match : ST::overlap);
    int want = 0; for (int i = 0; i < m.n; ++i) want += int(m.live[i] & (match ? same(m.e[i], q) : overlap(m.e[i], q)));
    int got = 0; bool seen[MX] = {}; size_t depth = 0;
    for (auto it = r.begin(), ie = r.end(); !(it == ie); ++it, ++got)
    {
        int i = m.idx(val(*it));
        sy_assert(i >= 0, "every result is a stored value");
        sy_assert(!seen[i], "no value is reported twice"); seen[i] = true;
        sy_assert(same(it.extent(), m.e[i]), "a result carries the extent it was inserted with");
        sy_assert(match ? same(m.e[i], q) : overlap(m.e[i], q), "every result meets the search condition");
        if (got) sy_assert(it.depth() == depth, "values lie at the same depth"); depth = it.depth();
    }
    sy_assert(got == want, "every value that meets the condition is reported");
    if (got > 0) sy_reach("hit");
    sy_obs(got);
}
static void query(T& t, const Model& m)
{
    long k = sy_choice("qkind", sy_param("QK", 6)); bool point = k & 1, match = k & 2; E q = extent(point);
    if (k < 4) results(std::as_const(t), m, q, point, match); else results(t, m, q, point, k == 5);
}
// the tree as seen through walk()
static void structure(T& t, const Model& m, bool minfill = true)
{
    static T::node_properties np[160]; int n = 0;
    t.walk([&](const T::node_properties& p) { np[n++] = p; });
    int nv = 0; bool seen[MX] = {}; (void)seen;
    for (int i = 0; i < n; ++i) nv += np[i].type == T::node_type::value;
    sy_assert(nv == m.count(), "the walk visits every stored value");
    sy_assert(t.size() == size_t(nv) && t.empty() == (nv == 0), "size and empty");
    // depth of the values, from an all-covering search
    size_t depth = 1;
    if (nv)
    {
        E all = t.extent(); auto r = std::as_const(t).search(all, ST::overlap); int c = 0;
        for (auto it = r.begin(); !(it == r.end()); ++it, ++c) { if (!c) depth = it.depth(); sy_assert(it.depth() == depth, "values lie at the same depth"); }
        sy_assert(c == nv, "the extent of the tree covers every value");
        bool first = true; E u; for (int i = 0; i < m.n; ++i) if (m.live[i]) { if (first) u = m.e[i]; first = false; for (int d = 0; d < DIM; ++d) { u.start.d[d] = std::min(u.start.d[d], m.e[i].start.d[d]); u.end.d[d] = std::max(u.end.d[d], m.e[i].end.d[d]); } }
        sy_assert(same(u, all), "the extent of the tree is the bounding box of its values");
        sy_assert(same(np[0].extent, all), "the root is visited first");
        if (depth >= 2) sy_reach("height2");
        if (depth >= 3) sy_reach("height3");
        if (depth >= 4) sy_reach("height4");
        if (depth >= 5) sy_reach("height5");
    }
    sy_assert(np[0].type == (depth > 1 ? T::node_type::directory_nonleaf : T::node_type::directory_leaf), "a root is a leaf directory exactly when it holds values");
    // directories: tight boxes and capacities (levels are unambiguous up to depth 3)
    for (int i = 0; i < n; ++i)
    {
        if (np[i].type == T::node_type::value) continue;
        bool leaf = np[i].type == T::node_type::directory_leaf;
        int kids = 0; bool first = true; E u;
        for (int j = i + 1; j < n; ++j)
        {
            if (leaf ? np[j].type != T::node_type::value : (i > 0 && np[j].type == T::node_type::directory_nonleaf)) break;
            bool kid = leaf || (i == 0 ? (depth == 2 ? np[j].type == T::node_type::directory_leaf : depth == 3 ? np[j].type == T::node_type::directory_nonleaf : false) : np[j].type == T::node_type::directory_leaf);
            kids += kid;
            if (np[j].type == T::node_type::value) { if (first) u = np[j].extent; first = false; for (int d = 0; d < DIM; ++d) { u.start.d[d] = std::min(u.start.d[d], np[j].extent.start.d[d]); u.end.d[d] = std::max(u.end.d[d], np[j].extent.end.d[d]); } }
        }
        if (depth <= 3 || leaf)
        {
            sy_assert(kids <= MAXN, "a directory never holds more than its maximum");
            if (i > 0 || depth > 1) { if (minfill) sy_assert(kids >= MINN, "a directory never holds less than its minimum"); }
            if (!first) sy_assert(same(u, np[i].extent), "the extent of a directory is the bounding box of what it holds");
        }
    }
    if (sy_param("INTEG", 1)) { T::integrity_check_properties ip; ip.error_on_min_node_size = minfill; bool ok = true; try { t.check_integrity(ip); } catch (const mdds::integrity_error&) { ok = false; } sy_assert(ok, "the integrity check passes"); }
}
static void pre(T& t, Model& m, int n, int base = 0) { for (int i = 0; i < n; ++i) { E e; for (int d = 0; d < DIM; ++d) { e.start.d[d] = 10 * (base + i); e.end.d[d] = 10 * (base + i) + 2 * (i % 3); } put(t, m, e, false, 100 + base + i); } }

HARNESS(rt_insert)
{
    T t; Model m; int N = sy_param("N", 4);
    pre(t, m, sy_param("PRE", 0));
    for (int i = 0; i < N; ++i) ins(t, m, i + 1);
    structure(t, m);
    if (sy_param("Q", 1)) query(t, m);
    sy_reach("end");
}
static void kill(T& t, Model& m, int i)
{
    int found = 0;
    if (sy_param("CONSTIT", 2) == 2 ? sy_choice("const", 2) : sy_param("CONSTIT", 2)) { auto r = std::as_const(t).search(m.e[i], ST::match); for (auto it = r.begin(); !(it == r.end()); ++it) if (val(*it) == m.v[i]) { t.erase(it); ++found; break; } }
    else { auto r = t.search(m.e[i], ST::match); for (auto it = r.begin(); !(it == r.end()); ++it) if (val(*it) == m.v[i]) { t.erase(it); ++found; break; } }
    sy_assert(found == 1, "a stored value is found by its extent");
    m.live[i] = false;
}
HARNESS(rt_erase)
{
    T t; Model m; int N = sy_param("N", 3), R = sy_param("R", 1), PRE = sy_param("PRE", 0);
    pre(t, m, PRE);
    for (int i = 0; i < N; ++i) ins(t, m, i + 1);
    int NEAR = sy_param("NEAR", 0), from = 0;
    for (int r = 0; r < R; ++r)
    {
        if (m.count() == 0) break;
        int i;
        if (NEAR && r > 0) { i = from; while (!m.live[i]) i = (i + 1) % m.n; } // a run of neighbours
        else { long w = sy_choice("which", m.count()); i = 0; while (!m.live[i] || w--) ++i; }
        from = i; kill(t, m, i);
        structure(t, m, sy_param("MINFILL", 1));
    }
    if (sy_param("INS", 0)) { ins(t, m, N + 1); structure(t, m, sy_param("MINFILL", 1)); }
    if (sy_param("Q", 1)) query(t, m);
    sy_reach("end");
}
HARNESS(rt_bulk)
{
    Model m; int N = sy_param("N", 4); T::bulk_loader b;
    for (int i = 0; i < N; ++i) { bool p = pointy(); E e = extent(p); if (p) b.insert(e.start, V(i + 1)); else b.insert(e, V(i + 1)); m.e[i] = e; m.v[i] = i + 1; m.live[i] = true; ++m.n; }
    T t = b.pack();
    structure(t, m, sy_param("MINFILL", 0));
    if (sy_param("Q", 1)) query(t, m);
    if (sy_param("MORE", 1)) { if (sy_choice("more", 2)) ins(t, m, N + 1); else if (N) kill(t, m, sy_choice("which", N)); structure(t, m, false); }
    sy_reach("end");
}
HARNESS(rt_copy)
{
    T t, u; Model m, n; int N = sy_param("N", 3);
    for (int i = 0; i < N; ++i) ins(t, m, i + 1);
    ins(u, n, 9);
    auto again = [&](T& x, Model k) { structure(x, k, false); if (sy_choice("then", 2)) { ins(x, k, 20); if (sy_param("MORE", 0)) ins(x, k, 21); } if (k.count()) { long w = sy_choice("kill", k.count()); int i = 0; while (!k.live[i] || w--) ++i; kill(x, k, i); } structure(x, k, false); };
    switch (sy_choice("op", 7))
    {
    case 0: { T c(t); again(c, m); structure(t, m, false); break; }
    case 1: { u = t; again(u, m); structure(t, m, false); break; }
    case 2: { T c(std::move(t)); again(c, m); Model e; again(t, e); break; }
    case 3: { u = std::move(t); again(u, m); Model e; again(t, e); break; }
    case 4: { t.swap(u); again(t, n); again(u, m); break; }
    case 5: { t.clear(); Model e; again(t, e); break; }
    case 6: { T& r = t; t = r; again(t, m); break; }
    }
    sy_reach("end");
}
