// point_quad_tree: a map from points to values, with exact region search.
#include "sy.hpp"
#include "tok.hpp"
#include <mdds/point_quad_tree.hpp>
typedef long K;
#ifdef USE_TOK
typedef Tok V; static int val(const V& v) { return v.get(); }
#else
typedef int V; static int val(const V& v) { return v; }
#endif
typedef mdds::point_quad_tree<K, V> T;
static const int MX = 24;
struct Model { K x[MX], y[MX]; int v[MX]; bool live[MX]; int n = 0;
    int count() const { int c = 0; for (int i = 0; i < n; ++i) c += live[i]; return c; }
    // value at a point: -1 when absent
    int at(K a, K b) const { int r = -1; for (int i = 0; i < n; ++i) r = (live[i] & (x[i] == a) & (y[i] == b)) ? v[i] : r; return r; }
    void put(K a, K b, int w) { for (int i = 0; i < n; ++i) live[i] = live[i] & !((x[i] == a) & (y[i] == b)); x[n] = a; y[n] = b; v[n] = w; live[n] = true; ++n; }
    void del(K a, K b) { for (int i = 0; i < n; ++i) live[i] = live[i] & !((x[i] == a) & (y[i] == b)); }
};
static K key(const char* n) { return sy_int(n, 0, 1000); }
static void ins(T& t, Model& m, int id) { K x = key("x"), y = key("y"); t.insert(x, y, V(id)); m.put(x, y, id); }

static void check_find(const T& t, const Model& m, K x, K y)
{
    int got = -1; bool missing = false;
    try { got = val(t.find(x, y)); } catch (const T::data_not_found&) { missing = true; }
    int want = m.at(x, y);
    sy_assert(missing == (want == -1), "find fails exactly when nothing is stored at the point");
    sy_assert(got == want, "find returns the value stored last at the point");
    sy_obs(got);
    if (!missing) sy_reach("found");
}
static void check_region(const T& t, const Model& m, K x1, K y1, K x2, K y2)
{
    int want = 0; for (int i = 0; i < m.n; ++i) want += int(m.live[i] & (x1 <= m.x[i]) & (m.x[i] <= x2) & (y1 <= m.y[i]) & (m.y[i] <= y2));
    auto r = t.search_region(x1, y1, x2, y2); int got = 0; bool seen[MX] = {};
    auto it = r.begin(), ite = r.end();
    for (; !(it == ite); ++it, ++got)
    {
        K x = it->first.x, y = it->first.y; int v = val(it->second);
        sy_assert(x1 <= x && x <= x2 && y1 <= y && y <= y2, "every result lies in the region");
        sy_assert(m.at(x, y) == v, "every result is a stored point with its value");
        bool dup = false; for (int i = 0; i < m.n; ++i) if (m.v[i] == v) { dup |= seen[i]; seen[i] = true; }
        sy_assert(!dup, "no point is reported twice");
    }
    sy_assert(got == want, "every stored point of the region is reported");
    int back = 0; auto e = r.end(); if (got) { while (!(e == r.begin())) { --e; ++back; } sy_assert(back == got, "results iterate backwards as well"); sy_reach("region"); }
    std::vector<V> out; t.search_region(x1, y1, x2, y2, out);
    sy_assert(out.size() == size_t(want), "the array form reports as many values");
    for (auto& v : out) { bool h = false; for (int i = 0; i < m.n; ++i) h |= m.live[i] && m.v[i] == val(v) && seen[i]; sy_assert(h, "the array form reports the same values"); }
}
static int walk(const T::node_access& n, K xl, K xh, K yl, K yh)
{
    // [xl,xh) x [yl,yh): the region the node must lie in
    if (!n) return 0;
    K x = n.x(), y = n.y();
    sy_assert(xl <= x && x < xh && yl <= y && y < yh, "every node lies in the quadrant it hangs in");
    return 1 + walk(n.northwest(), xl, x, yl, y) + walk(n.northeast(), x, xh, yl, y) + walk(n.southwest(), xl, x, y, yh) + walk(n.southeast(), x, xh, y, yh);
}
static void check_all(const T& t, const Model& m)
{
    sy_assert(t.size() == size_t(m.count()), "size is the number of distinct stored points");
    sy_assert(t.empty() == (m.count() == 0), "empty");
    int n = walk(t.get_node_access(), -10, 2000, -10, 2000);
    sy_assert(n == m.count(), "node access reaches every stored point");
}
HARNESS(pqt_map)
{
    T t; Model m; int N = sy_param("N", 3);
    check_all(t, m);
    for (int i = 0; i < N; ++i) ins(t, m, i + 1);
    check_all(t, m);
    check_find(t, m, key("qx"), key("qy"));
    sy_reach("end");
}
HARNESS(pqt_region)
{
    T t; Model m; int N = sy_param("N", 3);
    for (int i = 0; i < N; ++i) ins(t, m, i + 1);
    K x1 = key("x1"), y1 = key("y1"), x2 = key("x2"), y2 = key("y2");
    sy_assume(x1 <= x2 && y1 <= y2);
    check_region(t, m, x1, y1, x2, y2);
    sy_reach("end");
}
HARNESS(pqt_remove)
{
    T t; Model m; int N = sy_param("N", 3), R = sy_param("R", 1);
    for (int i = 0; i < N; ++i) ins(t, m, i + 1);
    for (int r = 0; r < R; ++r)
    {
        K x, y;
        // a stored point, or an arbitrary one
        long w = sy_choice("which", m.n + 1);
        if (w < m.n) { x = m.x[w]; y = m.y[w]; } else { x = key("rx"); y = key("ry"); }
        t.remove(x, y); m.del(x, y);
        check_all(t, m);
    }
    for (int i = 0; i < m.n; ++i) if (m.live[i]) check_find(t, m, m.x[i], m.y[i]);
    if (sy_param("INS", 1)) { ins(t, m, N + 1); check_all(t, m); }
    if (sy_param("Q", 0)) check_find(t, m, key("qx"), key("qy"));
    sy_reach("end");
}
HARNESS(pqt_copy)
{
    T t, u; Model m, n; int N = sy_param("N", 2);
    for (int i = 0; i < N; ++i) ins(t, m, i + 1);
    ins(u, n, 9);
    K qx = key("qx"), qy = key("qy");
    auto again = [&](T& x, Model k) {
        check_all(x, k); check_find(x, k, qx, qy);
        switch (sy_choice("then", 3))
        {
        case 0: break;
        case 1: ins(x, k, 30); check_all(x, k); check_find(x, k, qx, qy); break;
        case 2: x.remove(qx, qy); k.del(qx, qy); check_all(x, k); check_find(x, k, qx, qy); break;
        }
    };
    Model none;
    switch (sy_choice("op", 6))
    {
    case 0: { T c(t); sy_assert(c == t, "a copy is equal"); again(c, m); check_find(t, m, qx, qy); check_all(t, m); c.insert(qx, qy, V(50)); sy_assert(!(c == t), "a changed copy differs"); break; }
    case 1: { u = t; sy_assert(u == t, "assigned copy is equal"); again(u, m); u.clear(); check_find(t, m, qx, qy); check_all(t, m); break; }
    case 2: { if (sy_choice("free", 2)) t.swap(u); else { using std::swap; swap(t, u); } again(t, n); again(u, m); break; }
    case 3: { t.clear(); sy_assert(t.empty() && t.size() == 0, "cleared"); Model e; check_find(t, e, qx, qy); ins(t, e, 3); check_all(t, e); check_find(t, e, qx, qy); break; }
    case 4: { T& r = t; t = r; again(t, m); break; }
    case 5:
    {
        // equality: same points with same values
        T c; Model k; for (int i = 0; i < N; ++i) { K x = key("x"), y = key("y"); int v = sy_choice("v", N) + 1; c.insert(x, y, V(v)); k.put(x, y, v); }
        bool want = m.count() == k.count(); for (int i = 0; i < m.n; ++i) want &= !m.live[i] | (k.at(m.x[i], m.y[i]) == m.v[i]);
        sy_assert((c == t) == want, "trees are equal exactly when they map the same points to the same values");
        if (want) sy_reach("equal");
        break;
    }
    }
    sy_reach("end");
}

// A larger tree from one of several fixed arrangements: any R points removed one after another, an
// arbitrary point inserted, then everything still there is found, and an arbitrary point looked up.
HARNESS(pqt_deep)
{
    T t; Model m; int N = sy_param("PRE", 8), R = sy_param("R", 2); unsigned s = unsigned(sy_choice("layout", sy_param("LAYOUTS", 4)) + 1) * 7919u;
    for (int i = 0; i < N; ++i) { s = s * 1103515245u + 12345u; K x = K(s >> 16) % 1000; s = s * 1103515245u + 12345u; K y = K(s >> 16) % 1000; t.insert(x, y, V(i + 1)); m.put(x, y, i + 1); }
    for (int r = 0; r < R; ++r)
    {
        long w = sy_choice("which", m.n); t.remove(m.x[w], m.y[w]); m.del(m.x[w], m.y[w]);
        check_all(t, m);
    }
    for (int i = 0; i < m.n; ++i) if (m.live[i]) check_find(t, m, m.x[i], m.y[i]);
    check_region(t, m, 0, 0, 1000, 1000);
    if (sy_param("INS", 1)) { ins(t, m, N + 1); check_all(t, m); }
    check_find(t, m, key("qx"), key("qy"));
    if (sy_choice("copy", 2)) { T c(t); check_all(c, m); sy_assert(c == t, "a copy equals its source"); }
    sy_reach("end");
}
