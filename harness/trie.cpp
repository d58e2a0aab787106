// trie_map and packed_trie_map against a list of key/value pairs.  Keys are strings of any length
// 0..L over all values of the key unit; values are symbolic.
#include "sy.hpp"
#include <string>
#include <vector>
#include <sstream>
#include <utility>
#ifdef USE_TOK
#include "tok.hpp"
typedef Tok V;
static int val(const V& v) { return v.get(); }
#else
typedef int V;
static int val(const V& v) { return v; }
#endif
#include <mdds/trie_map.hpp>
#ifndef UNIT
#define UNIT char
#define ULO -128
#define UHI 127
#endif
typedef UNIT U;
typedef std::basic_string<U> S;
struct traits { using pack_value_type =
#ifdef PACKT
PACKT
#else
uintptr_t
#endif
; };
typedef mdds::trie_map<S, V, traits> M;
typedef M::packed_type P;
typedef M::key_view_type KV;

static const int MAXK = 8, MAXL = 6;
struct Key { U c[MAXL]; int n = 0; KV sv() const { return KV(c, (size_t)n); } };
static long order(U c) { if constexpr (sizeof(U) == 1) return (unsigned char)c; else return (long)c; }
static int cmp(const U* a, int an, const U* b, int bn)
{
    for (int i = 0; i < an && i < bn; ++i) if (a[i] != b[i]) return order(a[i]) < order(b[i]) ? -1 : 1;
    return an < bn ? -1 : an > bn ? 1 : 0;
}
static int cmp(const Key& a, const Key& b) { return cmp(a.c, a.n, b.c, b.n); }
static bool starts(const Key& k, const Key& p) { if (k.n < p.n) return false; for (int i = 0; i < p.n; ++i) if (k.c[i] != p.c[i]) return false; return true; }
static Key sym(const char* nm, int lo, int L)
{
    Key k; k.n = (int)sy_choice2("len", lo, L);
    for (int i = 0; i < k.n; ++i) k.c[i] = (U)sy_int(nm, ULO, UHI);
    return k;
}
struct Ent { Key k; int v; };
// sorted list of entries
struct Model
{
    Ent e[MAXK]; int n = 0;
    int find(const Key& k) const { for (int i = 0; i < n; ++i) if (cmp(e[i].k, k) == 0) return i; return -1; }
    void put(const Key& k, int v)
    {
        int i = 0; for (; i < n; ++i) { int c = cmp(e[i].k, k); if (c == 0) { e[i].v = v; return; } if (c > 0) break; }
        for (int j = n; j > i; --j) e[j] = e[j - 1];
        e[i].k = k; e[i].v = v; ++n;
    }
    bool del(const Key& k) { int i = find(k); if (i < 0) return false; for (; i + 1 < n; ++i) e[i] = e[i + 1]; --n; return true; }
};
template<class K> static bool eqkey(const K& s, const Key& k) { if ((int)s.size() != k.n) return false; for (int i = 0; i < k.n; ++i) if (s[i] != k.c[i]) return false; return true; }

template<class T> static void check_find(T& t, const Model& m, const Key& q)
{
    int i = m.find(q);
    auto it = t.find(q.sv());
    if (i < 0) { sy_assert(it == t.end(), "an absent key is not found"); sy_reach("absent"); }
    else
    {
        sy_assert(!(it == t.end()), "a stored key is found");
        sy_assert(eqkey(it->first, q), "the key found is the key searched"); sy_assert(val(it->second) == m.e[i].v, "the value found is the last one stored");
        sy_obs(val(it->second));
        sy_reach("found");
    }
    sy_assert((t.find(q.c, q.n) == t.end()) == (i < 0), "both forms of find agree");
}
template<class T> static void check_size(T& t, const Model& m) { sy_assert((int)t.size() == m.n, "size counts the keys"); sy_assert(t.empty() == (m.n == 0), "empty means no keys"); }
template<class It> static void check_range(It b, It e, const Model& m, const Key& p, bool back)
{
    It it = b; int last = -1, cnt = 0;
    for (int i = 0; i < m.n; ++i)
    {
        if (!starts(m.e[i].k, p)) continue;
        sy_assert(!(it == e), "no key is left out of the iteration");
        sy_assert(eqkey(it->first, m.e[i].k), "keys come in ascending order"); sy_assert(val((*it).second) == m.e[i].v, "each key comes with its value");
        if (cnt & 1) it++; else ++it;
        ++cnt; last = i;
    }
    sy_assert(it == e, "nothing else is in the iteration");
    if (cnt > 1) sy_reach("several");
    if (!cnt || !back) return;
    for (int way = 0; way < 2; ++way)
    {
        It j = way ? it : e; // end reached by increment, and end as given
        for (int i = m.n - 1; i >= 0; --i)
        {
            if (!starts(m.e[i].k, p)) continue;
            if (i & 1) j--; else --j;
            sy_assert(eqkey(j->first, m.e[i].k), "backward iteration visits the same keys"); sy_assert(val(j->second) == m.e[i].v, "backward iteration visits the same values");
        }
        sy_assert(j == b, "backward iteration ends at the beginning");
    }
}
template<class T> static void check_iter(const T& t, const Model& m) { Key none; check_range(t.begin(), t.end(), m, none, true); }
template<class T> static void check_prefix(const T& t, const Model& m, const Key& p)
{
    auto r = t.prefix_search(p.sv());
    check_range(r.begin(), r.end(), m, p, true);
    auto r2 = r; check_range(r2.begin(), r2.end(), m, p, false);
    auto r3 = t.prefix_search(p.c, p.n); auto r4 = std::move(r3); check_range(r4.begin(), r4.end(), m, p, false);
}
// walk the nodes along q
template<class T> static void check_nodes(const T& t, const Model& m, const Key& q)
{
    auto nd = t.root_node(); Key p;
    for (int d = 0;; ++d)
    {
        bool any = d == 0, more = false; int has = -1;
        for (int i = 0; i < m.n; ++i) if (starts(m.e[i].k, p)) { any = true; if (m.e[i].k.n > p.n) more = true; else has = i; }
        sy_assert(nd.valid() == any, "a node exists exactly for the prefixes of keys");
        if (!any) break;
        sy_assert(nd.has_child() == more, "a node has children exactly if longer keys share the prefix");
        sy_assert(nd.has_value() == (has >= 0), "a node has a value exactly if the prefix is a key");
        if (has >= 0) { sy_assert(val(nd.value()) == m.e[has].v, "the node holds the value of its key"); sy_reach("nodevalue"); }
        if (d == q.n) break;
        nd = nd.child(q.c[d]); p.c[p.n++] = q.c[d];
    }
}
static void build(M& t, Model& m, int N, int lo, int L, int base = 1)
{
    Key last;
    for (int i = 0; i < N; ++i) { Key k = sym("key", lo, L); if (i && sy_param("SORTED", 0)) sy_assume(cmp(last, k) < 0); last = k; t.insert(k.sv(), V(base + i)); m.put(k, base + i); }
}
static int lo() { return sy_param("EMPTYKEY", 1) ? 0 : 1; }

HARNESS(trie_map)
{
    M t; Model m; int N = sy_param("N", 2), L = sy_param("L", 2), R = sy_param("R", 1), A = sy_param("A", 0);
    build(t, m, N, lo(), L);
    for (int i = 0; i < R; ++i) { Key k = sym("erase", lo(), L); bool had = m.del(k); bool did = sy_choice("form", 2) ? t.erase(k.sv()) : t.erase(k.c, k.n); sy_assert(did == had, "erase reports whether the key was there"); if (had) sy_reach("erased"); }
    for (int i = 0; i < A; ++i) { Key k = sym("again", lo(), L); t.insert(k.c, k.n, V(90 + i)); m.put(k, 90 + i); }
    check_size(t, m);
    Key q = sym("query", lo(), L);
    check_find(t, m, q); check_find(std::as_const(t), m, q);
    if (sy_param("NODES", 1)) check_nodes(t, m, q);
    // a value can be changed through the iterator of a mutable map
    auto it = t.find(q.sv()); if (!(it == t.end())) { it->second = V(500); sy_assert(val(std::as_const(t).find(q.sv())->second) == 500, "an assignment through an iterator is stored"); M::const_iterator ci(it); sy_assert(ci == it && eqkey(ci->first, q) && val(ci->second) == 500, "an iterator converts to a constant one"); }
}
HARNESS(trie_iter)
{
    M t; Model m; int N = sy_param("N", 2), L = sy_param("L", 2), R = sy_param("R", 0);
    build(t, m, N, lo(), L);
    for (int i = 0; i < R; ++i) { Key k = sym("erase", lo(), L); m.del(k); t.erase(k.sv()); }
    check_iter(t, m); { Key none; check_range(t.begin(), t.end(), m, none, true); }
    Key p = sym("prefix", 0, L); check_prefix(t, m, p);
    // iterate on from a position returned by find
    Key q = sym("query", lo(), L); int i = m.find(q);
    if (i >= 0)
    {
        auto it = std::as_const(t).find(q.sv()), jt = it; sy_reach("from");
        for (int k = i; k < m.n; ++k, ++it) sy_assert(eqkey(it->first, m.e[k].k) && val(it->second) == m.e[k].v, "iteration goes on from a found key");
        sy_assert(it == std::as_const(t).end(), "iteration from a found key reaches the end");
        for (int k = i;; --k, --jt) { sy_assert(eqkey(jt->first, m.e[k].k) && val(jt->second) == m.e[k].v, "iteration goes back from a found key"); if (k == 0) break; }
        sy_assert(jt == std::as_const(t).begin(), "going back from a found key reaches the beginning");
    }
}
static P packed(M& t, const Model& m, int how, std::vector<P::entry>& es)
{
    if (how == 0) return P(t);
    if (how == 1) return t.pack();
    for (int i = 0; i < m.n; ++i) es.emplace_back(m.e[i].k.c, (size_t)m.e[i].k.n, V(m.e[i].v));
    return P(std::span<const P::entry>(es.data(), es.size()));
}
HARNESS(trie_packed)
{
    M t; Model m; int N = sy_param("N", 2), L = sy_param("L", 2); std::vector<P::entry> es;
    build(t, m, N, lo(), L);
    int how = sy_choice("how", 3); P p = packed(t, m, how, es);
    check_size(p, m);
    if (how == 0) check_size(t, m);
    switch (sy_choice("look", 3))
    {
    case 0: { Key q = sym("query", lo(), L); check_find(p, m, q); check_nodes(p, m, q); break; }
    case 1: { check_iter(p, m); Key q = sym("prefix", 0, L); check_prefix(p, m, q); break; }
    case 2:
    {
        Key q = sym("query", lo(), L); int i = m.find(q); sy_assert((p.find(q.sv()) == p.end()) == (i < 0), "found exactly if stored");
        if (i >= 0)
        {
            auto it = p.find(q.sv()), jt = it; sy_reach("from");
            for (int k = i; k < m.n; ++k, ++it) sy_assert(eqkey(it->first, m.e[k].k) && val(it->second) == m.e[k].v, "iteration goes on from a found key");
            sy_assert(it == p.end(), "iteration from a found key reaches the end");
            for (int k = i;; --k, --jt) { sy_assert(eqkey(jt->first, m.e[k].k) && val(jt->second) == m.e[k].v, "iteration goes back from a found key"); if (k == 0) break; }
            sy_assert(jt == p.begin(), "going back from a found key reaches the beginning");
        }
        break;
    }
    }
}
template<class T> static void same(const T& t, const Model& m, const Key& q) { check_size(t, m); check_iter(t, m); check_find(t, m, q); }
HARNESS(trie_copy)
{
    M t, u; Model m, n; int N = sy_param("N", 2), L = sy_param("L", 2);
    build(t, m, sy_choice("n", N + 1), lo(), L); build(u, n, 1, lo(), 1, 50);
    Key q = sym("query", lo(), L), x = sym("more", lo(), 1);
    auto change = [&](M& a, Model k) { a.insert(x.sv(), V(70)); k.put(x, 70); same(a, k, q); if (a.erase(q.sv()) != k.del(q)) sy_assert(false, "erase reports whether the key was there"); same(a, k, q); };
    switch (sy_choice("op", 7))
    {
    case 0: { M c(t); sy_assert(c == t && !(c != t), "a copy equals its source"); change(c, m); same(t, m, q); break; }
    case 1: { u = t; same(u, m, q); change(u, m); same(t, m, q); break; }
    case 2: { M c(std::move(t)); same(c, m, q); change(c, m); break; }
    case 3: { u = std::move(t); same(u, m, q); change(u, m); break; }
    case 4: { u.swap(t); same(u, m, q); same(t, n, q); change(t, n); change(u, m); break; }
    case 5: { t.clear(); Model e; same(t, e, q); change(t, e); break; }
    case 6: { M& r = t; t = r; same(t, m, q); change(t, m); break; }
    }
    sy_reach("end");
}
HARNESS(trie_equal)
{
    M t, u; Model m, n; int N = sy_param("N", 2), L = sy_param("L", 2);
    auto fill = [&](M& a, Model& k) { int c = sy_choice("n", N + 1); for (int i = 0; i < c; ++i) { Key x = sym("key", lo(), L); int v = (int)sy_int("val", 1, 2); a.insert(x.sv(), V(v)); k.put(x, v); } };
    fill(t, m); fill(u, n);
    bool want = m.n == n.n; for (int i = 0; want && i < m.n; ++i) want = cmp(m.e[i].k, n.e[i].k) == 0 && m.e[i].v == n.e[i].v;
    sy_assert((t == u) == want, "equality means the same keys with the same values"); sy_assert((t != u) == !want, "inequality is the negation");
    P a(t), b(u); sy_assert((a == b) == want, "packed equality means the same keys with the same values"); sy_assert((a != b) == !want, "packed inequality is the negation");
    if (want) sy_reach("equal"); else sy_reach("different");
}
HARNESS(trie_packed_copy)
{
    M t, u; Model m, n; int N = sy_param("N", 2), L = sy_param("L", 2);
    build(t, m, sy_choice("n", N + 1), lo(), L); build(u, n, sy_choice("n", 2), lo(), 1, 50);
    P p; { Model e; check_size(p, e); }
    if (m.n || sy_choice("default", 2)) p = P(t);
    P o(u); Key q = sym("query", lo(), L);
    auto look = [&](const P& x, const Model& k) { same(x, k, q); check_nodes(x, k, q); };
    switch (sy_choice("op", 6))
    {
    case 0: { P c(p); sy_assert(c == p, "a copy equals its source"); look(c, m); look(p, m); break; }
    case 1: { o = p; look(o, m); look(p, m); break; }
    case 2: { P c(std::move(p)); look(c, m); Model e; look(p, e); P d(p); look(d, e); break; }
    case 3: { o = std::move(p); look(o, m); Model e; look(p, e); p = o; look(p, m); break; }
    case 4: { o.swap(p); look(o, m); look(p, n); break; }
    case 5: { P& r = p; p = r; look(p, m); break; }
    }
    sy_reach("end");
}
#ifdef PACKT
// A small pack type: content whose offsets fit is kept.
// Known finding T03-small-pack: content with an offset or an index size above the maximum of the pack
// type is accepted and corrupted; only that class of input is assumed away here.
HARNESS(trie_small)
{
    int MAX = sy_param("MAX", 140), STEP = sy_param("STEP", 1);
    M t; int shape = (int)sy_choice("shape", 2), n = (int)sy_choice2("n", 0, MAX / STEP) * STEP; U a = (U)sy_int("unit", ULO, UHI);
    std::vector<U> buf(n + 2, a); size_t cells; // cells: length of the packed array
    if (shape == 0) { t.insert(KV(buf.data(), n), V(1)); t.insert(KV(buf.data(), n / 2), V(2)); buf[0] = (U)(a ^ 1); t.insert(KV(buf.data(), 1), V(3)); buf[0] = a; cells = 1 + 2 * (n + 2) + 2 * (n + 1); } // two chains
    else { for (int i = 0; i < n; ++i) { buf[0] = (U)i; t.insert(KV(buf.data(), 1), V(10 + i)); } cells = 1 + 2 * (n + 1) + 2 * n; }  // many children
    sy_assume(cells <= std::numeric_limits<traits::pack_value_type>::max()); // T03-small-pack
    M keep(t); P p = sy_choice("move", 2) ? t.pack() : P(t);
    sy_assert(p.size() == keep.size(), "packing keeps every key");
    auto i = std::as_const(keep).begin(); auto j = p.begin(); int c = 0;
    for (; !(i == std::as_const(keep).end()); ++i, ++j, ++c) { sy_assert(!(j == p.end()), "no key is lost"); sy_assert(i->first == j->first && val(i->second) == val(j->second), "packing keeps keys and values"); auto f = p.find(i->first); sy_assert(!(f == p.end()) && val(f->second) == val(i->second), "packed keys are found"); }
    sy_assert(j == p.end(), "nothing is added"); sy_reach("packed");
}
#endif
#ifdef SYIO
typedef std::basic_string<char> SK;
template<class X> static X symval();
template<> std::string symval<std::string>() { std::string s; int n = (int)sy_choice("vlen", sy_param("VL", 2) + 1); for (int i = 0; i < n; ++i) s.push_back((char)sy_int("vc", -128, 127)); if (sy_param("LONG", 0) && sy_choice("long", 2)) s.append(sy_param("LONG", 0), 'f'); return s; }
template<> std::vector<short> symval<std::vector<short>>() { std::vector<short> s; int n = (int)sy_choice("vlen", sy_param("VL", 2) + 1); for (int i = 0; i < n; ++i) s.push_back((short)sy_int("vc", -32768, 32767)); if (sy_param("LONG", 0) && sy_choice("long", 2)) s.resize(s.size() + sy_param("LONG", 0), (short)0x1234); return s; }
template<> unsigned char symval<unsigned char>() { return (unsigned char)sy_int("vc", 0, 255); }
template<> long symval<long>() { return sy_int("vc", -1000000000000L, 1000000000000L); }
template<> bool symval<bool>() { return sy_choice("vb", 2); }
template<class X> static void roundtrip()
{
    typedef mdds::trie_map<std::string, X, traits> MM; typedef typename MM::packed_type PP; typedef mdds::packed_trie_map<std::string, X, traits> P2;
    MM t; int N = sy_param("N", 2), L = sy_param("L", 1); int n = (int)sy_choice("n", N + 1); Key ks[MAXK]; X vs[MAXK];
    for (int i = 0; i < n; ++i) { ks[i] = sym("key", lo(), L); if (i) sy_assume(cmp(ks[i - 1], ks[i]) < 0); vs[i] = symval<X>(); t.insert(std::string_view(ks[i].c, ks[i].n), vs[i]); }
    PP p(t); std::stringstream ss; p.save_state(ss); std::string bytes = ss.str();
    // complete
    PP q; q.load_state(ss); sy_assert(q == p && q.size() == (size_t)n, "the loaded map equals the saved one");
    for (int i = 0; i < n; ++i) { auto it = q.find(std::string_view(ks[i].c, ks[i].n)); sy_assert(!(it == q.end()) && it->second == vs[i], "the loaded map has every value"); }
    if (n) sy_reach("full");
    if (!sy_param("TRUNC", 0)) return;
    // cut short anywhere: rejected, and the map loaded into keeps its content
    long cut = sy_choice("cut", (long)bytes.size()); std::stringstream cs(bytes.substr(0, cut));
    MM o; o.insert(std::string_view("x"), X()); PP w(o); bool thrown = false;
    try { w.load_state(cs); } catch (const std::exception&) { thrown = true; }
    sy_assert(thrown, "a state cut short is rejected"); sy_assert(w == PP(o), "a rejected state changes nothing"); sy_reach("cut");
}
HARNESS(trie_state_string) { roundtrip<std::string>(); }
HARNESS(trie_state_vector) { roundtrip<std::vector<short>>(); }
HARNESS(trie_state_byte) { roundtrip<unsigned char>(); }
HARNESS(trie_state_long) { roundtrip<long>(); }
HARNESS(trie_state_bool) { roundtrip<bool>(); }
HARNESS(trie_state_mismatch)
{
    // a state saved for one kind of value is rejected by a map of another kind
    mdds::trie_map<std::string, std::string, traits> a; mdds::trie_map<std::string, int, traits> b; mdds::trie_map<std::string, long, traits> c;
    Key k = sym("key", 0, 2); std::string_view key(k.c, k.n); if (sy_choice("some", 2)) { a.insert(key, "v"); b.insert(key, (int)sy_int("v", -5, 5)); c.insert(key, 7); }
    auto pa = mdds::packed_trie_map<std::string, std::string, traits>(a); auto pb = mdds::packed_trie_map<std::string, int, traits>(b); auto pc = mdds::packed_trie_map<std::string, long, traits>(c);
    std::stringstream ss; int from = sy_choice("from", 3), to = sy_choice("to", 3); sy_assume(from != to);
    if (from == 0) pa.save_state(ss); else if (from == 1) pb.save_state(ss); else pc.save_state(ss);
    bool thrown = false; auto wa = pa; auto wb = pb; auto wc = pc;
    try { if (to == 0) wa.load_state(ss); else if (to == 1) wb.load_state(ss); else wc.load_state(ss); } catch (const std::invalid_argument&) { thrown = true; }
    sy_assert(thrown, "a state of another value type is rejected"); sy_assert(wa == pa && wb == pb && wc == pc, "a rejected state changes nothing"); sy_reach("end");
}
HARNESS(trie_state)
{
    M t; Model m; int N = sy_param("N", 2), L = sy_param("L", 2);
    int n = (int)sy_choice("n", N + 1); Key last;
    for (int i = 0; i < n; ++i) { Key k = sym("key", lo(), L); if (i) sy_assume(cmp(last, k) < 0); last = k; int v = (int)sy_int("val", -2147483647L - 1, 2147483647L); t.insert(k.sv(), V(v)); m.put(k, v); }
    P p; if (n || sy_choice("default", 2)) p = P(t);
    std::stringstream ss; p.save_state(ss);
    ss << ""; ss.put('z'); // something follows in the same stream
    P q; if (sy_choice("target", 2)) { M u; u.insert(KV(), V(5)); q = P(u); }
    q.load_state(ss);
    sy_assert(ss.get() == 'z', "loading consumes what saving wrote");
    sy_assert(p == q, "the loaded map equals the saved one");
    Key x = sym("query", lo(), L);
    check_size(q, m); check_find(q, m, x); if (sy_param("FULL", 1)) { check_iter(q, m); check_nodes(q, m, x); check_prefix(q, m, x); }
    sy_reach("end");
}
#endif
