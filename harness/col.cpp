// Side-by-side iteration of several multi_type_vectors.
#include "sy.hpp"
#include "tok.hpp"
#include <memory>
#include <vector>
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/collection.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
typedef std::size_t S;
typedef mdds::mtv::int64_element_block BA; typedef mdds::mtv::int16_element_block BC;
struct Tr : mdds::mtv::default_traits { typedef mdds::mtv::element_block_funcs<BA, BC> block_funcs; };
#ifdef AOS
typedef mdds::mtv::aos::multi_type_vector<Tr> MTV;
#else
typedef mdds::mtv::soa::multi_type_vector<Tr> MTV;
#endif
typedef mdds::mtv::collection<MTV> Col;
// any vector of n cells: each cell empty, long or short
static void fill(MTV& m, int* cell, int n)
{
    m = MTV(S(n));
    for (int i = 0; i < n; ++i)
    {
        int t = int(sy_choice("kind", 3)), v = int(sy_int("v", 0, 9)); cell[i] = t ? t * 100 + v : 0;
        if (t == 1) m.set(S(i), long(v)); else if (t == 2) m.set(S(i), short(v));
    }
}
template<class F> static bool refused(F f) { try { f(); return false; } catch (const mdds::invalid_arg_error&) { return true; } }
static void walk(const Col& c, int (*cell)[8], long v0, long vn, long e0, long en)
{
    auto it = c.begin(), ite = c.end();
    for (long e = e0; e < e0 + en; ++e) for (long v = v0; v < v0 + vn; ++v)
    {
        sy_assert(!(it == ite), "every element of the range is visited");
        sy_assert(it->index == S(v) && it->position == S(e), "elements come in order of position, then of vector");
        int want = cell[v][e];
        sy_assert(it->type == (want == 0 ? mdds::mtv::element_type_empty : want < 200 ? int(BA::block_type) : int(BC::block_type)), "the element's type");
        if (want && want < 200) sy_assert(it->get<BA>() == want - 100, "the element's value");
        if (want >= 200) sy_assert((*it).get<BC>() == want - 200, "the element's value");
        if (sy_param("POST", 0) && (e ^ v) & 1) { auto old = it++; sy_assert(old->index == S(v) && old->position == S(e), "postfix increment"); } else ++it;
    }
    sy_assert(it == ite && !(it != ite), "no element beyond the range is visited");
    sy_reach("walked");
}
HARNESS(col_walk)
{
    long nv = 1 + sy_choice("vectors", sy_param("V", 2)), n = 1 + sy_choice("length", sy_param("N", 3)); int cell[4][8];
    std::vector<MTV> m((S(nv))); for (long i = 0; i < nv; ++i) fill(m[S(i)], cell[i], int(n));
    std::vector<const MTV*> p; std::vector<std::unique_ptr<MTV>> u; std::vector<std::shared_ptr<MTV>> s; Col c;
    switch (sy_param("OWNERS", 0) ? sy_choice("how", 4) : sy_choice("how", 2))
    {
    case 0: { Col t(m.begin(), m.end()); c.swap(t); sy_assert(t.size() == 0 && t.begin() == t.end(), "swapping with an empty collection empties it"); break; }
    case 1: for (auto& x : m) p.push_back(&x); c = Col(p.begin(), p.end()); break;
    case 2: for (auto& x : m) u.emplace_back(new MTV(std::move(x))); c = Col(u.begin(), u.end()); break;
    case 3: for (auto& x : m) s.emplace_back(new MTV(x)); c = Col(s.begin(), s.end()); break;
    }
    sy_assert(c.size() == S(n), "the collection's length is its vectors' length");
    long v0 = 0, vn = nv, e0 = 0, en = n;
    if (sy_choice("limit-vectors", 2))
    {
        long a = sy_int("a", -4, 6), b = sy_int("b", -4, 6); bool r = refused([&] { c.set_collection_range(S(a), S(b)); });
        sy_assert(r == (a < 0 || b <= 0 || a + b > nv), "a collection range is refused exactly when it is empty or exceeds the collection");
        if (r) sy_reach("refused"); else { v0 = sy_concrete(a); vn = sy_concrete(b); }
    }
    if (sy_choice("limit-elements", 2))
    {
        long a = sy_int("a", -4, 6), b = sy_int("b", -4, 6); bool r = refused([&] { c.set_element_range(S(a), S(b)); });
        sy_assert(r == (a < 0 || b <= 0 || a + b > n), "an element range is refused exactly when it is empty or exceeds the length");
        if (r) sy_reach("refused"); else { e0 = sy_concrete(a); en = sy_concrete(b); }
    }
    walk(c, cell, v0, vn, e0, en);
    if (sy_param("AGAIN", 0)) { Col d(c); walk(d, cell, v0, vn, e0, en); Col w; w.swap(d); walk(w, cell, v0, vn, e0, en); }
}
// Lengths must agree and not be zero.
HARNESS(col_refuse)
{
    std::vector<MTV> m; long nv = sy_choice("vectors", 4), bad = 0, len = -1;
    for (long i = 0; i < nv; ++i) { long n = sy_int("n", 0, 1000); m.emplace_back(S(n)); bad = bad | (n == 0) | (len >= 0 && n != len); if (len < 0) len = n; }
    Col c; bool r = refused([&] { c = Col(m.begin(), m.end()); });
    sy_assert(r == (bad != 0), "a collection is refused exactly when a vector is empty or the lengths differ");
    if (!r) { sy_assert(c.size() == S(nv ? len : 0) && (c.begin() == c.end()) == (nv == 0), "size of the collection"); sy_reach("accepted"); } else sy_reach("refused");
    // ranges on vectors of any length
    if (!r && nv)
    {
        long a = sy_int("a", -4, 2000), b = sy_int("b", -4, 2000); bool x = refused([&] { c.set_element_range(S(a), S(b)); });
        sy_assert(x == (a < 0 || b <= 0 || a + b > len), "an element range is refused exactly when it is empty or exceeds the length");
        if (!x) { auto it = c.begin(); sy_assert(it->position == S(a) && it->index == 0 && it->type == mdds::mtv::element_type_empty, "iteration begins at the start of the range"); sy_assert(!(it == c.end()), "not empty"); for (long i = 0; i < nv; ++i) ++it; sy_assert((it == c.end()) == (b == 1), "iteration ends after the range"); sy_reach("ranged"); }
    }
}
