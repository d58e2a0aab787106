// flat_segment_tree against a point-wise reference: the content after a history of operations at a
// symbolic probe key is computed by rewriting the probe backwards through the history.
#include "sy.hpp"
#include "tok.hpp"
#include <mdds/flat_segment_tree.hpp>
typedef long K;
#ifdef FST_TOK
typedef Tok V;
static int val(const V& v) { return v.get(); }
#else
typedef int V;
static int val(const V& v) { return v; }
#endif
typedef mdds::flat_segment_tree<K, V> FST;

// One recorded operation.
enum Kind { INS, SHL, SHR, CLR };
struct Op { Kind k; K a, b; int v; bool skip; };
struct Hist
{
    K lo, hi; int init; int n = 0; Op op[8];
    void add(Kind k, K a, K b, int v = 0, bool skip = false) { op[n].k = k; op[n].a = a; op[n].b = b; op[n].v = v; op[n].skip = skip; ++n; }
    // value at key q (lo <= q < hi) after the first m operations
    int at(K q, int m) const
    {
        // branch-free: r is the result once decided, otherwise the probe moves backwards
        int r = init; bool done = false;
        for (int i = m - 1; i >= 0; --i)
        {
            const Op& o = op[i];
            switch (o.k)
            {
            case INS: { bool h = (o.a <= q) & (q < o.b) & !done; r = h ? o.v : r; done = done | h; break; }
            case CLR: { r = done ? r : init; done = true; break; }
            case SHL:
            {
                bool valid = (o.a < o.b) & (lo <= o.a) & (o.b <= hi);
                K w = o.b - o.a;
                bool tail = valid & (q >= hi - w) & !done;
                r = tail ? init : r; done = done | tail;
                q = (valid & (q >= o.a)) ? q + w : q;
                break;
            }
            case SHR:
            {
                K p = o.a, w = o.b;
                bool valid = (w > 0) & (lo <= p) & (p < hi);
                bool gap = valid & (q >= p) & (q - p < w);
                bool dflt = gap & !o.skip & (p == lo) & !done;
                r = dflt ? init : r; done = done | dflt;
                K g = o.skip ? p : p - 1;
                K moved = q - w;
                q = gap ? g : (valid & (q >= p)) ? moved : q;
                break;
            }
            }
        }
        return r;
    }
    int at(K q) const { return at(q, n); }
};

static void sym_range(const char* nm, Hist& h, K& lo, K& hi)
{
    (void)nm; lo = sy_int("min", -1000, 1000); hi = sy_int("max", -1000, 1000);
    sy_assume(lo < hi);
    h.lo = lo; h.hi = hi; h.init = 0;
}
static K sym_key(const char* nm) { return sy_int(nm, -1200, 1200); }

// The stored partition is canonical: starts at min, ends at max, strictly increasing keys, and no two
// neighbouring segments with equal values.  Returns the number of nodes.
static int check_canonical(const FST& db, K lo, K hi, bool merged = true)
{
    int n = 0; K last = 0; int lastv = 0; int total = 0;
    for (auto it = db.begin(), ite = db.end(); it != ite; ++it) ++total;
    for (auto it = db.begin(), ite = db.end(); it != ite; ++it, ++n)
    {
        K k = it->first; int v = val(it->second);
        if (n == 0) sy_assert(k == lo, "the first segment starts at the minimum key");
        else sy_assert(last < k, "segment keys strictly increase");
        if (n + 1 == total) sy_assert(k == hi, "the last key is the maximum key");
        else if (n > 0 && merged) sy_assert(v != lastv, "neighbouring segments have different values");
        last = k; lastv = v;
    }
    sy_assert(n >= 2, "at least the two boundary keys are stored");
    sy_assert(size_t(n) == db.leaf_size(), "leaf count equals the number of keys visited");
    sy_assert(db.min_key() == lo && db.max_key() == hi, "the key range never changes");
    return n;
}

// Every way of looking up the probe agrees with the expected value.
static void check_probe(const FST& db, K lo, K hi, K q, int want, bool tree)
{
    V got = V(-5); K a = -9999, b = -9999;
    auto r = db.search(q, got, &a, &b);
    bool in = (lo <= q) & (q < hi);
    sy_assert(r.second == in, "search succeeds exactly inside the key range");
    auto it2 = db.search(q);
    if (r.second)
    {
        sy_assert(val(got) == want, "search returns the value last stored at the key");
        sy_assert((a <= q) & (q < b), "search returns the boundaries of a segment containing the key");
        sy_assert(r.first->first == a, "the returned iterator points at the segment start");
        sy_assert(val(r.first->second) == want, "the returned iterator gives the value");
        sy_assert(it2 == r.first, "iterator search agrees");
        auto nx = r.first; ++nx; sy_assert(nx->first == b, "the next key is the segment end");
    }
    else
    {
        sy_assert(r.first == db.end(), "failed search returns end");
        sy_assert(it2 == db.end(), "failed iterator search returns end");
        sy_assert(val(got) == -5 && a == -9999 && b == -9999, "failed search leaves the outputs alone");
    }
    if (tree)
    {
        V g2 = V(-5); K a2 = -9999, b2 = -9999;
        auto r2 = db.search_tree(q, g2, &a2, &b2);
        sy_assert(r2.second == in, "tree search succeeds exactly inside the key range");
        if (r2.second) sy_assert(val(g2) == want && a2 == a && b2 == b, "tree search agrees with leaf search");
        sy_assert(r2.first == r.first, "tree search returns the same position");
        sy_assert(db.search_tree(q) == it2, "tree search iterator agrees");
    }
    sy_obs(val(got)); sy_obs(a); sy_obs(b);
}

static FST::const_iterator any_pos(const FST& db)
{
    auto it = db.begin();
    long n = sy_choice("adv", long(db.leaf_size()) + 1);
    while (n--) ++it;
    return it;
}

static void do_insert(FST& db, Hist& h, const FST* other, bool want_hint)
{
    K s = sym_key("s"), e = sym_key("e"); int v = sy_int("v", 0, 3);
    long how = want_hint ? 2 + sy_choice("hint", 3) : sy_choice("back", 2);
    std::pair<FST::const_iterator, bool> r(db.end(), false);
    FST before(db);
    switch (how)
    {
    case 0: r = db.insert_front(s, e, V(v)); break;
    case 1: r = db.insert_back(s, e, V(v)); break;
    case 2: r = db.insert(any_pos(db), s, e, V(v)); break;
    case 3: r = db.insert(other->begin(), s, e, V(v)); break;
    case 4: r = db.insert(FST::const_iterator(), s, e, V(v)); break;
    }
    h.add(INS, s, e, v);
    sy_assert(r.second == !(before == db), "the reported change flag is right");
    K cs = s < h.lo ? h.lo : s, ce = e > h.hi ? h.hi : e;
    if (cs < ce)
    {
        sy_assert(!(r.first == db.end()), "a position is returned for an effective insertion");
        sy_assert(r.first == db.search(cs), "the returned position is the segment holding the inserted start");
    }
    else
        sy_assert(r.first == db.end() && !r.second, "an empty or outside range is rejected without change");
}

HARNESS(fst_insert)
{
    Hist h; K lo, hi; sym_range("", h, lo, hi);
    FST db(lo, hi, V(0));
    int N = sy_param("N", 2);
    for (int i = 0; i < N; ++i) do_insert(db, h, &db, false);
    K q = sym_key("q");
    check_canonical(db, lo, hi);
    check_probe(db, lo, hi, q, h.at(q), false);
    if (lo <= q && q < hi) sy_reach("inside"); else sy_reach("outside");
}
HARNESS(fst_hint)
{
    Hist h; K lo, hi; sym_range("", h, lo, hi);
    FST db(lo, hi, V(0)), other(0, 100, V(5));
    int N = sy_param("N", 1);
    for (int i = 0; i < N; ++i) { K s = sym_key("s"), e = sym_key("e"); int v = sy_int("v", 0, 3); db.insert_back(s, e, V(v)); h.add(INS, s, e, v); }
    do_insert(db, h, &other, true);
    K q = sym_key("q");
    check_canonical(db, lo, hi);
    check_probe(db, lo, hi, q, h.at(q), false);
    sy_reach("end");
}
HARNESS(fst_query)
{
    Hist h; K lo, hi; sym_range("", h, lo, hi);
    FST db(lo, hi, V(0)), other(lo, hi, V(1));
    int N = sy_param("N", 2);
    for (int i = 0; i < N; ++i) { K s = sym_key("s"), e = sym_key("e"); int v = sy_int("v", 0, 3); db.insert_front(s, e, V(v)); h.add(INS, s, e, v); }
    sy_assert(!db.valid_tree(), "the search tree is not valid before it is built");
    K q = sym_key("q"); int want = h.at(q);
    db.build_tree();
    sy_assert(db.valid_tree(), "the search tree is valid after it is built");
    check_probe(db, lo, hi, q, want, true);
    // segments tile [min, max) and give the same content
    K at = lo; int segs = 0; bool hit = false;
    for (const auto& s : db.segment_range())
    {
        sy_assert(s.start == at && s.start < s.end, "segments are contiguous");
        if (s.start <= q && q < s.end) { hit = true; sy_assert(val(s.value) == want, "segment iteration gives the same value"); }
        at = s.end; ++segs;
    }
    sy_assert(at == hi, "segments end at the maximum key");
    sy_assert(hit == (lo <= q && q < hi), "the probe is inside exactly one segment");
    sy_assert(size_t(segs) + 1 == db.leaf_size(), "one segment per pair of keys");
    auto si = db.begin_segment(); auto se = db.end_segment();
    for (int i = 0; i < segs; ++i) { sy_assert(!(si == se), "segment iterator range"); if (i & 1) si++; else ++si; }
    sy_assert(si == se, "segment iterator reaches its end");
    for (int i = 0; i < segs; ++i) { if (i & 1) si--; else --si; }
    sy_assert(si == db.begin_segment() && si->start == lo, "segment iterator steps back to the first segment");
    // backward iteration visits the same keys in the opposite order
    auto f = db.end(); int m = 0;
    for (auto r = db.rbegin(), re = db.rend(); r != re; ++r, ++m) { --f; sy_assert(f->first == r->first && val(f->second) == val(r->second), "reverse iteration mirrors forward iteration"); }
    sy_assert(f == db.begin(), "reverse iteration visits every key");
    sy_reach("end");
}
HARNESS(fst_hint_search)
{
    Hist h; K lo, hi; sym_range("", h, lo, hi);
    FST db(lo, hi, V(0)), other(lo, hi, V(1));
    int N = sy_param("N", 2);
    for (int i = 0; i < N; ++i) { K s = sym_key("s"), e = sym_key("e"); int v = sy_int("v", 0, 3); db.insert_front(s, e, V(v)); h.add(INS, s, e, v); }
    K q = sym_key("q"); int want = h.at(q);
    FST::const_iterator pos;
    switch (sy_choice("kind", 3)) { case 0: pos = any_pos(db); break; case 1: pos = other.begin(); break; default: break; }
    V got = V(-5); K a = -9999, b = -9999;
    auto r = db.search(pos, q, got, &a, &b);
    bool in = (lo <= q) & (q < hi);
    sy_assert(r.second == in, "hinted search succeeds exactly inside the key range");
    auto it = db.search(q);
    if (in) { sy_assert(val(got) == want && a <= q && q < b && a == it->first, "hinted search gives the value and its segment"); sy_reach("in"); }
    sy_assert(r.first == it, "hinted search returns the same position as a plain search");
    sy_assert(db.search(pos, q) == it, "hinted iterator search returns the same position as a plain search");
}
HARNESS(fst_shift)
{
    Hist h; K lo, hi; sym_range("", h, lo, hi);
    FST db(lo, hi, V(0));
    int N = sy_param("N", 2), M = sy_param("M", 1);
    for (int i = 0; i < N; ++i) { K s = sym_key("s"), e = sym_key("e"); int v = sy_int("v", 0, 2); db.insert_back(s, e, V(v)); h.add(INS, s, e, v); }
    db.build_tree();
    for (int i = 0; i < M; ++i)
    {
        if (sy_choice("left", 2)) { K s = sym_key("s"), e = sym_key("e"); db.shift_left(s, e); h.add(SHL, s, e); sy_reach("left"); }
        else { K p = sym_key("p"), w = sy_int("w", -2, 3000); bool sk = sy_choice("skip", 2); db.shift_right(p, w, sk); h.add(SHR, p, w, 0, sk); sy_reach("right"); }
    }
    K q = sym_key("q"); int want = h.at(q);
    check_canonical(db, lo, hi);
    check_probe(db, lo, hi, q, want, db.valid_tree());
    if (!db.valid_tree()) { sy_assert(db.search_tree(q) == db.end(), "tree search on an outdated tree finds nothing"); db.build_tree(); check_probe(db, lo, hi, q, want, true); }
    if (sy_param("INS", 0)) { do_insert(db, h, &db, false); check_canonical(db, lo, hi); check_probe(db, lo, hi, q, h.at(q), db.valid_tree()); }
}
HARNESS(fst_copy)
{
    Hist h; K lo, hi; sym_range("", h, lo, hi);
    FST db(lo, hi, V(0));
    Hist g; K lo2, hi2; sym_range("", g, lo2, hi2); g.init = 1;
    FST db2(lo2, hi2, V(1));
    { K s = sym_key("s"), e = sym_key("e"); int v = sy_int("v", 0, 2); db.insert_back(s, e, V(v)); h.add(INS, s, e, v); }
    { K s = sym_key("s"), e = sym_key("e"); int v = sy_int("v", 0, 2); db2.insert_back(s, e, V(v)); g.add(INS, s, e, v); }
    db.build_tree();
    K q = sym_key("q"); int want = h.at(q), want2 = g.at(q);
    // the object must be as good as one built directly: clear, shift and insert go by its own default value and range
    auto again = [&](FST& x, K l, K h, int init, int w) {
        check_canonical(x, l, h); check_probe(x, l, h, q, w, x.valid_tree()); sy_assert(val(x.default_value()) == init, "default value follows");
        switch (sy_choice("then", 4))
        {
        case 0: break;
        case 1: x.clear(); check_probe(x, l, h, q, init, x.valid_tree()); break;
        case 2: x.insert_front(l, h, V(5)); x.build_tree(); check_probe(x, l, h, q, 5, true); break;
        case 3: { x.insert_back(l, h, V(5)); x.shift_left(l, l + 1); check_probe(x, l, h, q, q < h - 1 ? 5 : init, x.valid_tree()); check_canonical(x, l, h); break; }
        }
    };
    switch (sy_choice("op", 9))
    {
    case 0: { FST c(db); sy_assert(c == db, "a copy equals its source"); again(c, lo, hi, 0, want); check_probe(db, lo, hi, q, want, true); sy_reach("copy"); break; }
    case 1: { FST c(std::move(db)); sy_assert(c.valid_tree(), "a moved tree keeps its search tree"); again(c, lo, hi, 0, want); break; }
    case 2: { db2 = db; sy_assert(db2 == db, "copy assignment makes both equal"); again(db2, lo, hi, 0, want); check_probe(db, lo, hi, q, want, true); break; }
    case 3: { db2 = std::move(db); again(db2, lo, hi, 0, want); break; }
    case 4: { if (sy_choice("free", 2)) swap(db, db2); else db.swap(db2); again(db2, lo, hi, 0, want); again(db, lo2, hi2, 1, want2); break; }
    case 5: { db.clear(); sy_assert(db == FST(lo, hi, V(0)), "a cleared tree equals a fresh one"); check_probe(db, lo, hi, q, 0, db.valid_tree()); sy_assert(!db.valid_tree(), "clear invalidates the search tree"); db.insert_front(lo, hi, V(2)); check_probe(db, lo, hi, q, 2, false); break; }
    case 6:
    {
        // equality decides equality of ranges and contents
        bool eq = db == db2;
        if (eq) { sy_assert(lo == lo2 && hi == hi2, "equal trees have equal ranges"); if (lo <= q && q < hi) sy_assert(want == want2, "equal trees have equal contents"); sy_reach("eq"); }
        else if (lo == lo2 && hi == hi2)
        {
            // a witness key exists: some segment start of either tree shows different contents
            bool diff = false;
            for (auto it = db.begin(); !(it == db.end()); ++it) { K k = it->first; if (k < hi) diff |= h.at(k) != g.at(k); }
            for (auto it = db2.begin(); !(it == db2.end()); ++it) { K k = it->first; if (k < hi) diff |= h.at(k) != g.at(k); }
            sy_assert(diff, "unequal trees over the same range differ somewhere");
            sy_reach("neq");
        }
        sy_assert(eq == (db2 == db) && db == db, "equality is symmetric and reflexive");
        break;
    }
    case 7: { FST& r = db; db = r; check_probe(db, lo, hi, q, want, db.valid_tree()); break; }
    case 8: { FST c(db); c.clear(); check_probe(db, lo, hi, q, want, true); c = db; db.clear(); check_probe(c, lo, hi, q, want, c.valid_tree()); break; }
    }
    sy_reach("end");
}
