// sorted_string_map: lookup by key and by value against a linear scan, for every sorted table of
// N keys (lengths 0..L, any bytes) and every query.
#include "sy.hpp"
#include <string>
#include <vector>
struct Val { int v = -1; bool operator==(const Val& r) const { return v == r.v; } bool operator!=(const Val& r) const { return v != r.v; } };
// a hash that maps many values to one bucket and is fixed per path
namespace std { template<> struct hash<Val> { size_t operator()(const Val& x) const noexcept { return size_t(sy_concrete(x.v >= 3)); } }; }
#include <mdds/sorted_string_map.hpp>
using namespace std::literals;
struct Key { char c[64]; int n; std::string_view sv() const { return {c, (size_t)n}; } };
static Key sym(const char* nm, int L)
{
    // PFX: a concrete prefix shared by all keys, so that the interesting bytes come late
    static const char pfx[] = "abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJKL";
    int P = sy_param("PFX", 0);
    Key k; k.n = P + (int)sy_choice("len", L + 1);
    for (int i = 0; i < P; ++i) k.c[i] = pfx[i];
    for (int i = P; i < k.n; ++i) k.c[i] = (char)sy_int(nm, -128, 127);
    return k;
}
// reference order and equality, byte by byte
static int cmp(const Key& a, const Key& b)
{
    for (int i = 0; i < a.n && i < b.n; ++i) { int x = (unsigned char)a.c[i], y = (unsigned char)b.c[i]; if (x != y) return x < y ? -1 : 1; }
    return a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
}
template<template<typename> class F> static void go()
{
    int N = sy_param("N", 3), L = sy_param("L", 2);
    using M = mdds::sorted_string_map<Val, F>;
    Key k[8]; std::vector<typename M::entry_type> e; int n = (int)sy_choice("n", N + 1);
    for (int i = 0; i < n; ++i) { k[i] = sym("key", L); if (i) sy_assume(cmp(k[i - 1], k[i]) < 0); e.push_back({k[i].sv(), Val{(int)sy_int("val", 0, 5)}}); }
    M m(std::span<const typename M::entry_type>(e.data(), e.size()), Val{-7});
    sy_assert(m.size() == (size_t)n, "size is the number of entries");
    Key q = sym("query", L); int at = -1;
    for (int i = 0; i < n; ++i) if (cmp(k[i], q) == 0) at = i;
    const Val& r = m.find(q.sv());
    if (at >= 0) { sy_assert(r.v == e[at].value.v, "a stored key gives its value"); sy_assert(&r == &e[at].value, "the value is the one in the caller's table"); sy_reach("found"); }
    else { sy_assert(r.v == -7, "an absent key gives the null value"); sy_reach("absent"); }
    sy_assert(m.find(q.c, q.n).v == r.v, "both forms of find agree");
    sy_obs(r.v);
    Val w{(int)sy_int("want", 0, 5)}; bool has = false;
    for (int i = 0; i < n; ++i) has |= e[i].value.v == w.v;
    std::string_view s = m.find_key(w); bool good = false;
    for (int i = 0; i < n; ++i) if (e[i].value.v == w.v && s.data() == e[i].key.data() && s.size() == e[i].key.size()) good = true;
    if (has) { sy_assert(good, "reverse lookup gives a key that has the value"); sy_reach("rev"); }
    else sy_assert(s.empty(), "reverse lookup of an absent value gives an empty key");
    M c(m); sy_assert(c.find(q.sv()).v == r.v && c.find_key(w) == s, "a copy of the map answers alike");
}
HARNESS(ssm_linear) { go<mdds::ssmap::linear_key_finder>(); }
HARNESS(ssm_hash) { go<mdds::ssmap::hash_key_finder>(); }
