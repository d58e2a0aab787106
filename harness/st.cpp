// segment_tree: a point search returns exactly the stored segments containing the point.
#include "sy.hpp"
#include "tok.hpp"
#include <mdds/segment_tree.hpp>
#include <stdexcept>
typedef long K;
#ifdef USE_TOK
typedef Tok V; static int val(const V& v) { return v.get(); }
#else
typedef int V; static int val(const V& v) { return v; }
#endif
typedef mdds::segment_tree<K, V> ST;
static const int MX = 12;
struct Model
{
    K a[MX], b[MX]; int v[MX]; bool live[MX]; int n = 0;
    int count() const { int c = 0; for (int i = 0; i < n; ++i) c += live[i]; return c; }
};
static K sym_key(const char* nm) { return sy_int(nm, -1000, 1000); }
// valid segments only; ids are unique
static void add(ST& t, Model& m, int id)
{
    K a = sym_key("a"), b = sym_key("b"); sy_assume(a < b);
    t.insert(a, b, V(id)); m.a[m.n] = a; m.b[m.n] = b; m.v[m.n] = id; m.live[m.n] = true; ++m.n;
}
static void check_point(const ST& t, const Model& m, K q)
{
    auto r = t.search(q);
    int want = 0; for (int i = 0; i < m.n; ++i) want += int(m.live[i] & (m.a[i] <= q) & (q < m.b[i]));
    int got = 0; bool seen[MX] = {};
    for (auto it = r.begin(), ite = r.end(); !(it == ite); ++it, ++got)
    {
        int id = val(it->value), k = -1;
        for (int i = 0; i < m.n; ++i) if (m.live[i] && m.v[i] == id) k = i;
        sy_assert(k >= 0, "every result is a stored segment");
        if (k < 0) return;
        sy_assert(!seen[k], "no segment is reported twice"); seen[k] = true;
        sy_assert(it->start == m.a[k] && it->end == m.b[k], "the result carries the segment's keys");
        sy_assert(m.a[k] <= q && q < m.b[k], "every result contains the point");
    }
    sy_assert(got == want, "every segment containing the point is reported");
    sy_assert(r.size() == size_t(got) && r.empty() == (got == 0), "result count");
    // backwards over the same results
    auto it = r.end(); int back = 0;
    while (!(it == r.begin())) { --it; ++back; int id = val(it->value); for (int i = 0; i < m.n; ++i) if (m.live[i] && m.v[i] == id) seen[i] = false; }
    sy_assert(back == got, "backward iteration visits as many results");
    for (int i = 0; i < m.n; ++i) sy_assert(!seen[i], "backward iteration visits the same results");
    if (got) sy_reach("hit");
    sy_obs(got);
}
static void check_size(const ST& t, const Model& m)
{
    sy_assert(t.size() == size_t(m.count()), "size counts the stored segments");
    sy_assert(t.empty() == (m.count() == 0), "empty");
}

HARNESS(st_search)
{
    int N = sy_param("N", 3);
    ST t; Model m;
    for (int i = 0; i < N; ++i) add(t, m, i + 1);
    check_size(t, m);
    K q = sym_key("q");
    sy_assert(t.search(q).empty(), "an unbuilt tree gives no results");
    t.build_tree();
    sy_assert(t.valid_tree(), "built tree is valid");
    check_point(t, m, q); check_size(t, m);
    sy_reach("end");
}
// erase by iterator / predicate, insert again, rebuild, search
HARNESS(st_erase)
{
    int N = sy_param("N", 3);
    ST t; Model m;
    for (int i = 0; i < N; ++i) add(t, m, i + 1);
    int E = sy_param("E", 1);
    K q = sym_key("q");
    // erasing before the tree is built must count for the build
    if (sy_choice("early", 2))
    {
        size_t g = t.erase_if([](K, K, const V& v) { return val(v) == 1; }); sy_assert(g == 1, "erase_if reports the number of erased segments");
        m.live[0] = false; check_size(t, m); sy_reach("early");
    }
    t.build_tree();
    for (int e = 0; e < E; ++e)
    {
        switch (sy_choice("how", 2))
        {
        case 0:
        {
            K p = sym_key("p"); auto r = t.search(p);
            if (r.empty()) break;
            auto it = r.begin(); long k = sy_choice("which", long(r.size())); while (k--) ++it;
            int id = val(it->value); t.erase(it);
            for (int i = 0; i < m.n; ++i) if (m.v[i] == id) m.live[i] = false;
            sy_reach("erase");
            break;
        }
        case 1:
        {
            K p = sym_key("p"); size_t n = 0;
            size_t g = t.erase_if([&](K a, K b, const V& v) { bool h = (a <= p) & (p < b) & (val(v) != 2); return h; });
            for (int i = 0; i < m.n; ++i) { bool h = m.live[i] & (m.a[i] <= p) & (p < m.b[i]) & (m.v[i] != 2); if (h) { m.live[i] = false; ++n; } }
            sy_assert(n == g, "erase_if reports the number of erased segments");
            if (n) sy_reach("erase_if");
            break;
        }
        }
        sy_assert(t.valid_tree() || N == 1, "erasing keeps the tree valid");
        check_size(t, m);
    }
    check_point(t, m, q);
    if (sy_param("MORE", 1))
    {
        add(t, m, N + 1); sy_assert(!t.valid_tree(), "insertion invalidates the tree"); check_size(t, m);
        t.build_tree(); check_point(t, m, q); check_size(t, m); sy_reach("reinsert");
    }
    else { t.build_tree(); sy_assert(t.valid_tree() == (m.count() > 0), "rebuilding gives a valid tree unless nothing is stored"); if (t.valid_tree()) check_point(t, m, q); check_size(t, m); }
    sy_reach("end");
}
HARNESS(st_insert_invalid)
{
    ST t; Model m; add(t, m, 1); t.build_tree();
    K a = sym_key("x"), b = sym_key("y"); bool thrown = false;
    try { t.insert(a, b, V(2)); } catch (const std::invalid_argument&) { thrown = true; }
    sy_assert(thrown == (a >= b), "an empty or reversed segment is rejected with invalid_argument");
    if (thrown) { K q = sym_key("q"); check_point(t, m, q); sy_assert(t.valid_tree(), "a rejected insertion changes nothing"); sy_reach("rejected"); }
    else { sy_assert(t.size() == 2, "accepted segment is stored"); sy_reach("accepted"); }
}
static void check_keys(const ST& t, const Model& m)
{
    auto keys = t.boundary_keys();
    for (size_t i = 1; i < keys.size(); ++i) sy_assert(keys[i - 1] < keys[i], "boundary keys are sorted and unique");
    for (K k : keys) { bool h = false; for (int i = 0; i < m.n; ++i) h |= m.live[i] & ((m.a[i] == k) | (m.b[i] == k)); sy_assert(h, "every boundary key bounds a stored segment"); }
    for (int i = 0; i < m.n; ++i) if (m.live[i]) { bool h = false, g = false; for (K k : keys) { h |= k == m.a[i]; g |= k == m.b[i]; } sy_assert(h && g, "the ends of every stored segment are boundary keys"); }
}
HARNESS(st_copy)
{
    int N = sy_param("N", 2);
    ST t, u; Model m, n;
    for (int i = 0; i < N; ++i) add(t, m, i + 1);
    add(u, n, 7);
    t.build_tree(); u.build_tree();
    K q = sym_key("q");
    if (sy_choice("del", 2)) { t.erase_if([](K, K, const V& v) { return val(v) == 1; }); m.live[0] = false; }
    // the object must be as good as one built directly: erase through the built tree, rebuild, extend
    auto again = [&](ST& x, Model k) {
        if (x.valid_tree()) check_point(x, k, q);
        check_size(x, k);
        switch (sy_choice("then", 3))
        {
        case 0: break;
        case 1: { size_t g = x.erase_if([](K, K, const V& v) { return val(v) == 2 || val(v) == 7; }), w = 0; for (int i = 0; i < k.n; ++i) if (k.live[i] && (k.v[i] == 2 || k.v[i] == 7)) { k.live[i] = false; ++w; } sy_assert(g == w, "erase_if counts"); if (x.valid_tree()) check_point(x, k, q); check_size(x, k); break; }
        case 2: { x.insert(0, 5, V(30)); k.a[k.n] = 0; k.b[k.n] = 5; k.v[k.n] = 30; k.live[k.n] = true; ++k.n; x.build_tree(); sy_assert(x.valid_tree(), "rebuilt"); check_point(x, k, q); check_size(x, k); break; }
        }
    };
    Model none;
    switch (sy_choice("op", 9))
    {
    case 0: { ST c(t); sy_assert(c == t, "a copy is equal"); again(c, m); check_point(t, m, q); check_size(t, m); again(t, m); break; }
    case 1: { ST c(std::move(t)); sy_assert(c.valid_tree(), "moved tree stays valid"); again(c, m); t.clear(); again(t, none); break; }
    case 2: { u = t; sy_assert(u == t, "assigned copy is equal"); again(u, m); check_point(t, m, q); u.clear(); sy_assert(u.empty() && !u.valid_tree(), "cleared"); sy_assert(u.search(q).empty(), "a cleared tree gives no results"); again(u, none); check_point(t, m, q); break; }
    case 3: { u = std::move(t); again(u, m); break; }
    case 4: { if (sy_choice("free", 2)) t.swap(u); else { using std::swap; swap(t, u); } again(u, m); again(t, n); break; }
    case 5: { ST& r = t; t = r; again(t, m); break; }
    case 6: { check_keys(t, m); t.build_tree(); check_keys(t, m); break; }
    case 7: { ST c(std::move(t)); auto r = t.search(q); sy_assert(r.empty() == t.empty() || !t.empty(), "a moved-from tree finds nothing it does not hold"); check_size(c, m); break; }
    case 8: { t.clear(); sy_assert(t.boundary_keys().empty(), "a cleared tree has no boundary keys"); again(t, none); break; }
    }
    sy_reach("end");
}
// equality is equality of the multisets of stored segments
HARNESS(st_equal)
{
    int N = sy_param("N", 3);
    ST t, u; K a[2][4], b[2][4]; int v[2][4];
    for (int s = 0; s < 2; ++s) for (int i = 0; i < N; ++i)
    {
        a[s][i] = sy_int("a", 0, 2); b[s][i] = a[s][i] + 1; v[s][i] = sy_int("v", 0, 1);
        (s ? u : t).insert(a[s][i], b[s][i], V(v[s][i]));
    }
    bool want = true;
    for (int i = 0; i < N; ++i)
    {
        int l = 0, r = 0;
        for (int j = 0; j < N; ++j) { l += int((a[0][j] == a[0][i]) & (v[0][j] == v[0][i])); r += int((a[1][j] == a[0][i]) & (v[1][j] == v[0][i])); }
        want &= l == r;
    }
    sy_assert((t == u) == want, "trees are equal exactly when they store the same segments");
    sy_assert((u == t) == want, "equality is symmetric");
    if (want) sy_reach("equal"); else sy_reach("different");
}
