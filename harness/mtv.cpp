// multi_type_vector (both storage layouts) against a flat array of cells: the content after a history
// of operations at a symbolic probe position is computed by rewriting the probe backwards through
// the history.  Sizes of empty blocks and all positions are symbolic; data blocks are small.
#include "sy.hpp"
#include "tok.hpp"
#include <stdexcept>
#include <vector>
#include <mdds/multi_type_vector.hpp>
#include <mdds/multi_type_vector/soa/main.hpp>
#include <mdds/multi_type_vector/aos/main.hpp>
typedef std::size_t S;
static const long BIG = 1000;

struct Fault {};
static long s_fault; // the number of clonings of elements until one fails; 0: none fails
[[maybe_unused]] static void fault_point() { if (s_fault && --s_fault == 0) throw Fault(); }

// --- element types: A = long, B = Tok by value or Tok* owned by the container, C = short
#if defined(MGD) || defined(NCM)
#define PTR 1
typedef Tok* B;
#else
typedef Tok B;
#endif
constexpr int IDB = mdds::mtv::element_type_user_start, IDC = IDB + 1;
#ifdef MGD
typedef mdds::mtv::managed_element_block<IDB, Tok> BlkB;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(Tok, IDB, nullptr, BlkB)
#elif defined(NCM)
typedef mdds::mtv::noncopyable_managed_element_block<IDB, Tok> BlkB;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS_PTR(Tok, IDB, nullptr, BlkB)
namespace mdds { namespace mtv { template<> struct clone_value<Tok*> { Tok* operator()(const Tok* p) const { fault_point(); return new Tok(*p); } }; } }
#elif defined(STDVEC)
typedef mdds::mtv::default_element_block<IDB, Tok, std::vector> BlkB;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(Tok, IDB, Tok(), BlkB)
#else
typedef mdds::mtv::default_element_block<IDB, Tok> BlkB;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(Tok, IDB, Tok(), BlkB)
#endif
#ifdef FLAGS
typedef bool A; typedef mdds::mtv::boolean_element_block BlkA;
#else
typedef long A; typedef mdds::mtv::int64_element_block BlkA;
#endif
typedef short C; typedef mdds::mtv::int16_element_block BlkC;

static int s_acq, s_rel; // block events
struct Ev
{
    int live = 0; // balance of events seen by this container's handler
    void element_block_acquired(const mdds::mtv::base_element_block* b) { (void)b; ++live; ++s_acq; }
    void element_block_released(const mdds::mtv::base_element_block* b) { (void)b; --live; ++s_rel; }
};
struct Tr : mdds::mtv::default_traits
{
    typedef mdds::mtv::element_block_funcs<BlkA, BlkB, BlkC> block_funcs;
#ifdef EVENTS
    typedef Ev event_func;
#endif
#ifdef COW
    static constexpr bool enable_cow = true;
#endif
#ifdef LU
    static constexpr mdds::mtv::lu_factor_t loop_unrolling = mdds::mtv::lu_factor_t::LU;
#endif
};
#ifdef AOS
typedef mdds::mtv::aos::multi_type_vector<Tr> MTV;
#else
typedef mdds::mtv::soa::multi_type_vector<Tr> MTV;
#endif

// --- cells: 0 = empty, otherwise type * 100 + value
enum { EA = 100, EB = 200, EC = 300 };
static int val(const Tok& t) { return t.get(); }
static int val(const Tok* t) { return t ? t->get() : -99; }
#ifdef PTR
static B mkB(int v) { return new Tok(v); }
static void rid(B p) { delete p; }
#else
static B mkB(int v) { return Tok(v); }
static void rid(const B&) {}
#endif
static A mkA(int v) { return A(v); }

enum Kind { SET, EMP, ERS, INS, GROW, SWP, TRN, CPY, XCH };
struct Op { Kind k; int c, c2; long a, b, d; int n; int v[3]; };
struct Hist
{
    int n = 0; long sz[3] = {0, 0, 0}; Op op[48];
    Op& add(Kind k, int c, long a, long b, long d = 0, int c2 = -1) { Op& o = op[n++]; o.k = k; o.c = c; o.c2 = c2; o.a = a; o.b = b; o.d = d; o.n = 0; return o; }
    // cell at position q (0 <= q < size) of container c after all operations
    int at(int c, long q) const
    {
        int r = 0; bool done = false;
        for (int i = n - 1; i >= 0; --i)
        {
            const Op& o = op[i]; bool me = c == o.c, it = c == o.c2;
            switch (o.k)
            {
            case SET: case INS:
                for (int j = 0; j < o.n; ++j)
                {
                    bool h = me & (q == o.a + j) & !done; r = h ? o.v[j] : r; done = done | h;
                }
                if (o.k == INS)
                {
                    bool h = me & (q >= o.a) & (q < o.a + o.b) & !done; done = done | h; // an inserted empty range
                    q = (me & (q >= o.a + o.b)) ? q - o.b : q;
                }
                break;
            case EMP: { bool h = me & (o.a <= q) & (q <= o.b) & !done; r = h ? 0 : r; done = done | h; break; }
            case ERS: q = (me & (q >= o.a)) ? q + (o.b - o.a + 1) : q; break;
            case GROW: { bool h = me & (q >= o.a) & !done; r = h ? 0 : r; done = done | h; break; }
            case SWP:
            {
                bool m1 = me & (o.a <= q) & (q <= o.b), m2 = it & (o.d <= q) & (q <= o.d + o.b - o.a);
                q = m1 ? q - o.a + o.d : m2 ? q - o.d + o.a : q; c = m1 ? o.c2 : m2 ? o.c : c;
                break;
            }
            case TRN:
            {
                bool m1 = me & (o.a <= q) & (q <= o.b) & !done, m2 = it & (o.d <= q) & (q <= o.d + o.b - o.a);
                r = m1 ? 0 : r; done = done | m1;
                q = m2 ? q - o.d + o.a : q; c = m2 ? o.c : c;
                break;
            }
            case CPY: c = me ? o.c2 : c; break;
            case XCH: c = me ? o.c2 : it ? o.c : c; break;
            }
        }
        return r;
    }
};

// Calls f and reports whether it was refused as out of range.
template<class F> static bool oob(F f)
{
    try { f(); return false; } catch (const std::out_of_range&) { return true; }
}

static int type_of(int cell) { return cell == 0 ? mdds::mtv::element_type_empty : cell < EB ? int(BlkA::block_type) : cell < EC ? IDB : int(BlkC::block_type); }
static int cell_in(const mdds::mtv::base_element_block& b, S off)
{
    switch (mdds::mtv::get_block_type(b))
    {
    case BlkA::block_type: { auto it = BlkA::begin(b); it += long(off); return EA + int(*it); }
    case BlkB::block_type: return EB + val(BlkB::at(b, off));
    case BlkC::block_type: return EC + int(BlkC::at(b, off));
    }
    return -1;
}
static S data_size(const mdds::mtv::base_element_block& b)
{
    switch (mdds::mtv::get_block_type(b))
    {
    case BlkA::block_type: return S(BlkA::end(b) - BlkA::begin(b));
    case BlkB::block_type: return BlkB::size(b);
    case BlkC::block_type: return BlkC::size(b);
    }
    return S(-1);
}

// Blocks tile [0, size) in order, none is empty-sized, no two neighbours share a type, and each data
// block stores as many elements as the block covers.
static void check_blocks(const MTV& db, long size)
{
    S at = 0, n = 0; int last = -2;
    for (auto it = db.begin(), ite = db.end(); it != ite; ++it, ++n)
    {
        sy_assert(it->position == at, "blocks are contiguous");
        sy_assert(it->size > 0, "no zero-sized block");
        sy_assert(it->type != last, "neighbouring blocks have different types");
        sy_assert(it->__private_data.block_index == n, "the iterator knows its block index");
        last = it->type; at += it->size;
        if (it->data)
        {
            sy_assert(mdds::mtv::get_block_type(*it->data) == it->type, "the block type is the type of its data");
            sy_assert(data_size(*it->data) == it->size, "the data block stores one element per position");
        }
        else sy_assert(it->type == mdds::mtv::element_type_empty, "a block without data is an empty block");
    }
    sy_assert(at == S(size) && db.size() == S(size), "the blocks cover the whole size");
    sy_assert(db.block_size() == n && db.empty() == (size == 0), "block count");
}

// Every way of reading position q agrees with the expected cell.
static void check_probe(const MTV& db, long size, long q, int want)
{
    if (q >= 0 && q < size)
    {
        auto p = db.position(S(q));
        sy_assert((p.first->position <= S(q)) & (S(q) < p.first->position + p.first->size), "position finds the block that covers the position");
        sy_assert(p.first->position + p.second == S(q), "position gives the offset inside the block");
#ifdef FLAGS
        if (p.first->type == BlkA::block_type) { p.second = S(sy_concrete(long(p.second))); q = long(p.first->position + p.second); } // a bit is addressed by a constant offset
#endif
        sy_assert(MTV::logical_position(p) == S(q), "logical_position inverts position");
        sy_assert(p.first->type == type_of(want), "the stored type is the type last set");
        sy_assert(db.get_type(S(q)) == type_of(want), "get_type is the type last set");
        sy_assert(db.is_empty(S(q)) == (want == 0), "is_empty tells whether the position is empty");
        sy_assert((p.first->data == nullptr) == (want == 0), "an empty position has no data");
        if (p.first->data) sy_assert(cell_in(*p.first->data, p.second) == want, "the stored element is the one last set");
        switch (p.first->type)
        {
        case BlkA::block_type: sy_assert(EA + int(db.get<A>(S(q))) == want, "get returns the element last set"); break;
        case BlkB::block_type: sy_assert(EB + val(db.get<B>(S(q))) == want, "get returns the element last set"); sy_assert(EB + val(MTV::get<BlkB>(p)) == want, "get through a position agrees"); break;
        case BlkC::block_type: { C c = 77; db.get(S(q), c); sy_assert(EC + int(c) == want, "get returns the element last set"); break; }
        default: sy_assert(db.get<C>(S(q)) == 0 && val(db.get<B>(S(q))) == val(B()), "get of an empty position returns the empty value");
        }
        sy_reach("inside");
    }
    else
    {
        sy_assert(oob([&] { db.get_type(S(q)); }), "get_type refuses a position beyond the end");
        sy_assert(oob([&] { db.is_empty(S(q)); }), "is_empty refuses a position beyond the end");
        sy_assert(oob([&] { db.get<A>(S(q)); }), "get refuses a position beyond the end");
        if (q == size) sy_assert(db.position(S(q)).first == db.end() && db.position(S(q)).second == 0, "the end position is the end iterator");
        else sy_assert(oob([&] { db.position(S(q)); }), "position refuses a position beyond the end");
        sy_reach("beyond");
    }
    sy_obs(S(q)); sy_obs(want);
}

// A returned iterator must refer to the block that covers position p in the container's present state.
template<class It> static void check_iter(const MTV& db, It it, long p)
{
    sy_assert((it->position <= S(p)) & (S(p) < it->position + it->size), "the returned iterator refers to the block at the position");
    auto c = db.position(S(p)).first;
    sy_assert(it->__private_data.block_index == c->__private_data.block_index && it->data == c->data && it->type == c->type, "the returned iterator agrees with position");
    MTV::const_iterator ci(it); sy_assert(ci == c, "the returned iterator equals the one looked up");
}

// --- builders ---
static long sym_pos(const char* nm) { return sy_int(nm, -4, 4 * BIG); } // negative: close to the largest position
static long sym_size(const char* nm) { return sy_int(nm, 0, 4 * BIG); }
static bool outside(long p, long size) { return p < 0 || p >= size; }
static int sym_cell(int t) { return t * 100 + int(t == 1 && sizeof(A) == 1 ? sy_choice("bit", 2) : sy_int("v", 0, 9)); }
static void push_cell(MTV& db, int cell)
{
    switch (cell / 100) { case 1: db.push_back(mkA(cell % 100)); break; case 2: db.push_back(mkB(cell % 100)); break; default: db.push_back(C(cell % 100)); }
}
// Any shape of at most nb blocks (empty blocks of any size up to BIG, data blocks of up to nl elements).
static void build(MTV& db, Hist& h, int c, int nb, int nl)
{
    int last = -1; long n = sy_choice("blocks", nb + 1);
    for (long i = 0; i < n; ++i)
    {
        int t = int(sy_choice("kind", 3)); // 0 empty, 1 A, 2 B
        sy_assume(t != last);
        last = t;
        if (t == 0)
        {
            long k = sy_int("esize", 1, BIG); db.resize(S(h.sz[c] + k)); h.add(GROW, c, h.sz[c], 0); h.sz[c] += k;
        }
        else
        {
            int m = 1 + int(sy_choice("dsize", nl)); Op& o = h.add(SET, c, h.sz[c], 0); o.n = m;
            for (int j = 0; j < m; ++j) { int cell = sym_cell(t); o.v[j] = cell; push_cell(db, cell); }
            h.sz[c] += m;
        }
    }
}
// Any iterator of the container (one for every block, and the end), or one of another container.
static MTV::iterator any_hint(MTV& db)
{
    static MTV* other = nullptr; std::vector<A> none;
    long n = sy_choice("hint", long(db.block_size()) + 2);
    if (n == 0) { if (!other) { other = new MTV(3); sy_noleak(); } return other->set(S(0), none.begin(), none.end()); }
    auto it = db.set(S(0), none.begin(), none.end()); // the end
    while (--n) --it;
    return it;
}

struct Vals { std::vector<A> a; std::vector<B> b; std::vector<C> c; int t; };
static void mk_vals(Vals& x, Op& o, int m)
{
    x.t = 1 + int(sy_choice("type", 3)); o.n = m;
    for (int j = 0; j < m; ++j)
    {
        int cell = sym_cell(x.t); o.v[j] = cell;
        switch (x.t) { case 1: x.a.push_back(mkA(cell % 100)); break; case 2: x.b.push_back(mkB(cell % 100)); break; default: x.c.push_back(C(cell % 100)); }
    }
}
static void drop(Vals& x) { for (auto& b : x.b) rid(b); }
template<class F> static auto with(Vals& x, F f) { return x.t == 1 ? f(x.a) : x.t == 2 ? f(x.b) : f(x.c); }

enum { O_SET = 1, O_RANGE = 2, O_EMPTY = 4, O_ERASE = 8, O_INS = 16, O_INSE = 32, O_PUSH = 64, O_RESIZE = 128, O_MISC = 256, O_ALL = 511 };
// One arbitrary operation out of the mask on container c; refused exactly when out of range, and then nothing changes.
static void do_op(MTV& db, Hist& h, int c, long mask, long L, bool hints)
{
    long pick[9], np = 0;
    for (long i = 0; i < 9; ++i) if (mask & (1 << i)) pick[np++] = 1 << i;
    long& sz = h.sz[c]; MTV::iterator it;
    bool hint = hints && sy_choice("use-hint", 2);
    switch (pick[np > 1 ? sy_choice("op", np) : 0])
    {
    case O_SET:
    {
        long p = sym_pos("p"); Op o; Vals x; mk_vals(x, o, 1);
        bool r = oob([&] { with(x, [&](auto& v) { it = hint ? db.set(any_hint(db), S(p), v[0]) : db.set(S(p), v[0]); }); });
        sy_assert(r == outside(p, sz), "set is refused exactly when the position is outside");
        if (r) { drop(x); break; }
        h.add(SET, c, p, 0).n = 1; h.op[h.n - 1].v[0] = o.v[0];
        check_iter(db, it, p);
        sy_reach("set");
        break;
    }
    case O_RANGE:
    {
        long p = sym_pos("p"); int m = int(sy_choice("count", L + 1)); Op o; Vals x; mk_vals(x, o, m);
        bool r = oob([&] { with(x, [&](auto& v) { it = hint ? db.set(any_hint(db), S(p), v.begin(), v.end()) : db.set(S(p), v.begin(), v.end()); }); });
        sy_assert(r == (m > 0 && (p < 0 || p + m > sz)), "range set is refused exactly when it would pass the end");
        if (r) { drop(x); break; }
        if (m == 0) { sy_assert(MTV::const_iterator(it) == const_cast<const MTV&>(db).end(), "setting nothing returns the end"); break; }
        Op& q = h.add(SET, c, p, 0); q.n = m; for (int j = 0; j < m; ++j) q.v[j] = o.v[j];
        check_iter(db, it, p);
        sy_reach("range");
        break;
    }
    case O_EMPTY:
    {
        long a = sym_pos("a"), b = sym_pos("b");
        bool r = oob([&] { it = hint ? db.set_empty(any_hint(db), S(a), S(b)) : db.set_empty(S(a), S(b)); });
        sy_assert(r == (a < 0 || a > b || b >= sz), "set_empty is refused exactly when the range is invalid");
        if (r) break;
        h.add(EMP, c, a, b); check_iter(db, it, a);
        sy_reach("empty");
        break;
    }
    case O_ERASE:
    {
        long a = sym_pos("a"), b = sym_pos("b");
        bool r = oob([&] { db.erase(S(a), S(b)); });
        sy_assert(r == (a < 0 || a > b || b >= sz), "erase is refused exactly when the range is invalid");
        if (r) break;
        h.add(ERS, c, a, b); sz -= b - a + 1;
        sy_reach("erase");
        break;
    }
    case O_INS:
    {
        long p = sym_pos("p"); int m = int(sy_choice("count", L + 1)); Op o; Vals x; mk_vals(x, o, m);
        bool r = oob([&] { with(x, [&](auto& v) { it = hint ? db.insert(any_hint(db), S(p), v.begin(), v.end()) : db.insert(S(p), v.begin(), v.end()); }); });
        if (m > 0) sy_assert(r == outside(p, sz), "insert is refused exactly when the position is outside");
        if (r) { drop(x); break; }
        if (m == 0) { sy_assert(MTV::const_iterator(it) == const_cast<const MTV&>(db).end(), "inserting nothing returns the end"); break; }
        Op& q = h.add(INS, c, p, m); q.n = m; for (int j = 0; j < m; ++j) q.v[j] = o.v[j];
        sz += m; check_iter(db, it, p);
        sy_reach("insert");
        break;
    }
    case O_INSE:
    {
        long p = sym_pos("p"), w = sy_int("w", 0, BIG);
        bool r = oob([&] { it = hint ? db.insert_empty(any_hint(db), S(p), S(w)) : db.insert_empty(S(p), S(w)); });
        if (w > 0) sy_assert(r == outside(p, sz), "insert_empty is refused exactly when the position is outside");
        if (r) break;
        if (w == 0) { sy_assert(MTV::const_iterator(it) == const_cast<const MTV&>(db).end(), "inserting nothing returns the end"); break; }
        h.add(INS, c, p, w); sz += w; check_iter(db, it, p);
        sy_reach("insert-empty");
        break;
    }
    case O_PUSH:
    {
        switch (sy_choice("push", 3))
        {
        case 0: it = db.push_back_empty(); h.add(GROW, c, sz, 0); break;
        case 1: { Op o; Vals x; mk_vals(x, o, 1); with(x, [&](auto& v) { it = db.push_back(std::move(v[0])); }); h.add(SET, c, sz, 0).n = 1; h.op[h.n - 1].v[0] = o.v[0]; break; }
        case 2:
        {
            int v = int(sy_int("v", 0, 1)), t = 1 + int(sy_choice("type", 3));
#ifdef PTR
            if (t == 2) t = 3;
#endif
            switch (t)
            {
            case 1: it = db.emplace_back<A>(v); break;
#ifndef PTR
            case 2: it = db.emplace_back<B>(v); break;
#endif
            default: it = db.emplace_back<C>(v);
            }
            h.add(SET, c, sz, 0).n = 1; h.op[h.n - 1].v[0] = t * 100 + v;
            break;
        }
        }
        ++sz; check_iter(db, it, sz - 1);
        sy_reach("push");
        break;
    }
    case O_RESIZE:
    {
        long n = sym_size("n"); db.resize(S(n));
        if (n > sz) h.add(GROW, c, sz, 0);
        sz = n;
        sy_reach("resize");
        break;
    }
    case O_MISC:
        if (sy_choice("misc", 2)) db.shrink_to_fit(); else { db.clear(); sz = 0; }
        sy_reach("misc");
        break;
    }
}

// Any state of at most B blocks, then N arbitrary operations.
// Events: over all live containers, as many element blocks are reported as acquired but not yet
// released as there are blocks with data.
static void check_events(std::initializer_list<const MTV*> all)
{
#ifdef EVENTS
    int n = 0;
    for (auto* db : all) for (auto it = db->begin(), ite = db->end(); it != ite; ++it) n += it->data != nullptr;
    sy_assert(s_acq - s_rel == n, "block events balance with the data blocks that exist");
#else
    (void)all;
#endif
}

HARNESS(mtv_step)
{
    Hist h; MTV db;
    build(db, h, 0, int(sy_param("B", 3)), int(sy_param("D", 2)));
    long N = sy_param("N", 1);
    for (long i = 0; i < N; ++i) do_op(db, h, 0, sy_param("OPS", O_ALL), sy_param("L", 2), sy_param("HINT", 0));
    check_blocks(db, h.sz[0]); check_events({&db});
    long q = sym_pos("q"); check_probe(db, h.sz[0], q, h.at(0, q));
}

// Reading: positions with and without hints, walking forward and backward, moving positions.
HARNESS(mtv_read)
{
    Hist h; MTV db; build(db, h, 0, int(sy_param("B", 3)), int(sy_param("D", 2)));
    const MTV& cd = db; long sz = h.sz[0], q = sym_pos("q");
    switch (sy_choice("what", 5))
    {
    case 0: // hinted lookup
    {
        auto hint = any_hint(db);
        MTV::const_position_type p; bool r = oob([&] { p = cd.position(MTV::const_iterator(hint), S(q)); });
        sy_assert(r == outside(q, sz + 1), "hinted position is refused exactly beyond the end");
        if (!r) { auto w = cd.position(S(q)); sy_assert(p.first == w.first && p.second == w.second, "hinted position agrees with plain position"); }
#ifndef COW
        MTV::position_type m; r = oob([&] { m = db.position(hint, S(q)); });
        sy_assert(r == outside(q, sz + 1), "hinted position is refused exactly beyond the end");
        if (!r) { auto w = cd.position(S(q)); sy_assert(MTV::const_iterator(m.first) == w.first && m.second == w.second, "hinted position agrees with plain position"); }
        r = oob([&] { m = db.position(S(q)); });
        sy_assert(r == outside(q, sz + 1), "position is refused exactly beyond the end");
        if (!r) { auto w = cd.position(S(q)); sy_assert(MTV::const_iterator(m.first) == w.first && m.second == w.second && m.first->data == w.first->data, "both position overloads agree"); }
#endif
        if (!outside(q, sz)) check_iter(db, cd.position(S(q)).first, q);
        sy_reach("hint");
        break;
    }
    case 1: // moving a position by any number of steps
    {
        long t = sym_size("t"); sy_assume(!outside(q, sz + 1) && t <= sz);
        auto p = MTV::advance_position(cd.position(S(q)), int(t - q)), w = cd.position(S(t));
        sy_assert(p.first == w.first && p.second == w.second, "advance_position arrives at the position looked up directly");
        if (t < sz) sy_assert(MTV::logical_position(p) == S(t) && p.first->position == w.first->position && p.first->__private_data.block_index == w.first->__private_data.block_index, "the advanced position knows its block");
#ifndef COW
        auto m = MTV::advance_position(db.position(S(q)), int(t - q));
        sy_assert(MTV::const_iterator(m.first) == w.first && m.second == w.second, "advance_position of a mutable position");
#endif
        sy_reach("advance");
        break;
    }
    case 2: // next position
    {
        sy_assume(!outside(q, sz));
        auto p = MTV::next_position(cd.position(S(q))), w = cd.position(S(q + 1));
        sy_assert(p.first == w.first && p.second == w.second, "next_position is the following position");
#ifndef COW
        auto m = MTV::next_position(db.position(S(q)));
        sy_assert(MTV::const_iterator(m.first) == w.first && m.second == w.second, "next_position of a mutable position");
#endif
        sy_reach("next");
        break;
    }
    case 3: // walking backward and in reverse meets the same blocks
    {
        auto r = cd.crbegin(); auto b = cd.end(); S n = 0;
        while (b != cd.begin())
        {
            --b; sy_assert(!(r == cd.crend()), "reverse iteration has as many blocks");
            sy_assert(r->position == b->position && r->size == b->size && r->data == b->data && r->type == b->type, "reverse iteration meets the same blocks");
            sy_assert(b->__private_data.block_index == db.block_size() - 1 - n, "a decremented iterator knows its block index");
            ++r; ++n;
        }
        sy_assert(n == db.block_size() && r == cd.crend(), "as many blocks in both directions");
        sy_reach("back");
        break;
    }
    default: break;
    }
    check_blocks(db, sz); check_probe(db, sz, q, outside(q, sz) ? 0 : h.at(0, q));
}

// Construction from a size, a value, or a sequence, and equality of content reached in different ways.
HARNESS(mtv_make)
{
    Hist h; MTV db; std::vector<B> extra;
    switch (sy_choice("ctor", 4))
    {
    case 0: { long n = sym_size("n"); MTV t((S(n))); db.swap(t); h.add(GROW, 0, 0, 0); h.sz[0] = n; break; }
#ifndef PTR
    case 1:
    {
        Op o; Vals x; mk_vals(x, o, 1); long n = sy_choice("n", 4);
        with(x, [&](auto& v) { MTV t(S(n), v[0]); db.swap(t); });
        for (long i = 0; i < n; ++i) { Op& q = h.add(SET, 0, i, 0); q.n = 1; q.v[0] = o.v[0]; }
        h.sz[0] = n; drop(x);
        break;
    }
#endif
    case 2:
    {
        Op o; Vals x; int m = int(sy_choice("count", 4)); mk_vals(x, o, m); long n = sy_choice("n", 4); bool bad = false;
        with(x, [&](auto& v) { try { MTV t(S(n), v.begin(), v.end()); db.swap(t); } catch (const mdds::invalid_arg_error&) { bad = true; } });
        sy_assert(bad == (n > 0 && n != m), "construction from a sequence is refused exactly when its length is not the size");
        if (!bad && n > 0) { Op& q = h.add(SET, 0, 0, 0); q.n = m; for (int j = 0; j < m; ++j) q.v[j] = o.v[j]; h.sz[0] = n; } else drop(x);
        break;
    }
    default: // the same content written back to front into an empty vector
    {
        build(db, h, 0, int(sy_param("B", 3)), int(sy_param("D", 2)));
        MTV e((S(h.sz[0])));
        for (int i = h.n - 1; i >= 0; --i) if (h.op[i].k == SET) for (int j = h.op[i].n - 1; j >= 0; --j)
        {
            int cell = h.op[i].v[j]; S at = S(h.op[i].a + j);
            switch (cell / 100) { case 1: e.set(at, mkA(cell % 100)); break; case 2: e.set(at, mkB(cell % 100)); break; }
        }
#ifndef MGD
        sy_assert(e == db && !(e != db), "equal content is equal whatever the order of writing");
#endif
        sy_assert(db == db, "a vector equals itself");
        check_blocks(e, h.sz[0]);
    }
    }
    check_blocks(db, h.sz[0]);
    long q = sym_pos("q"); check_probe(db, h.sz[0], q, h.at(0, q));
    sy_reach("end");
}
#ifndef MGD
HARNESS(mtv_equal)
{
    Hist h; MTV a, b; int nb = int(sy_param("B", 2)), nl = int(sy_param("D", 2)); build(a, h, 0, nb, nl); build(b, h, 1, nb, nl);
    bool eq = a == b; sy_assert(eq == (b == a) && eq == !(a != b), "equality is symmetric and != is its negation");
    if (eq)
    {
        sy_assert(h.sz[0] == h.sz[1], "equal vectors have the same size");
        long q = sym_pos("q"); if (!outside(q, h.sz[0])) sy_assert(h.at(0, q) == h.at(1, q), "equal vectors have equal cells");
        sy_reach("equal");
    }
    else
    {
        // some cell differs: read both at every data position and at every block boundary
        bool diff = h.sz[0] != h.sz[1];
        for (int c = 0; c < 2; ++c) for (int i = 0; i < h.n; ++i)
            if (h.op[i].c == c) for (int j = 0; j < (h.op[i].k == SET ? h.op[i].n : 1); ++j)
            { long q = h.op[i].a + j; bool in = (q < h.sz[0]) & (q < h.sz[1]); diff = diff | (in & (h.at(0, q) != h.at(1, q))); }
        sy_assert(diff, "different vectors differ in size or in some cell");
        sy_reach("differ");
    }
}
#endif

// A range moves to another vector and leaves empty cells behind; or two ranges change places.
static void two(bool swp)
{
    Hist h; MTV db[2]; int nb = int(sy_param("B", 2)), nl = int(sy_param("D", 2)); build(db[0], h, 0, nb, nl); build(db[1], h, 1, nb, nl);
    long N = sy_param("N", 1); MTV::iterator it;
    for (long i = 0; i < N; ++i)
    {
        long a = sym_pos("a"), b = sym_pos("b"), d = sym_pos("d"); int c = N > 1 ? int(sy_choice("from", 2)) : 0;
        bool bad = a < 0 || a > b || b >= h.sz[c] || d < 0 || d + (b - a) >= h.sz[1 - c], r;
        if (swp)
        {
            r = oob([&] { db[c].swap(S(a), S(b), db[1 - c], S(d)); });
            sy_assert(r == bad, "swap is refused exactly when a range is invalid");
            if (!r) h.add(SWP, c, a, b, d, 1 - c);
        }
        else
        {
            bool hint = sy_param("HINT", 0) && sy_choice("use-hint", 2);
            r = oob([&] { it = hint ? db[c].transfer(any_hint(db[c]), S(a), S(b), db[1 - c], S(d)) : db[c].transfer(S(a), S(b), db[1 - c], S(d)); });
            sy_assert(r == bad, "transfer is refused exactly when a range is invalid");
            if (!r) { h.add(TRN, c, a, b, d, 1 - c); check_iter(db[c], it, a); }
        }
        if (!r) sy_reach("moved"); else sy_reach("refused");
    }
    check_events({&db[0], &db[1]});
    int c = int(sy_choice("which", 2)); check_blocks(db[c], h.sz[c]);
    long q = sym_pos("q"); check_probe(db[c], h.sz[c], q, h.at(c, q));
}
HARNESS(mtv_transfer) { two(false); }
HARNESS(mtv_swap) { two(true); }

// Copies, clones, moves and whole-vector swaps: equal content, afterwards independent.
HARNESS(mtv_copy)
{
    Hist h; MTV db[3]; build(db[0], h, 0, int(sy_param("B", 2)), int(sy_param("D", 2)));
    if (sy_param("B1", 1)) build(db[1], h, 1, int(sy_param("B1", 1)), 1);
    long N = sy_param("N", 1), OPS = sy_param("OPS", O_ALL), M = sy_param("M", 1);
    for (long i = 0; i < N; ++i)
    {
        int f = i ? int(sy_choice("from", 3)) : 0, t = i ? int(sy_choice("to", 3)) : 1; if (f == t) continue;
        long how = sy_choice("how", 7);
#ifdef NCM
        if (how == 0 || how == 1)
        {
            bool nc = false, bad = false; for (auto p = const_cast<const MTV&>(db[f]).begin(), e = const_cast<const MTV&>(db[f]).end(); p != e; ++p) nc = nc || p->type == IDB;
            try { MTV x(db[f]); } catch (const mdds::mtv::element_block_error&) { bad = true; }
            sy_assert(bad == nc, "copying is refused exactly when a block is not copyable");
            if (bad) continue;
        }
#endif
        switch (how)
        {
        case 0: { MTV x(db[f]); db[t].swap(x); h.add(CPY, t, 0, 0, 0, f); h.sz[t] = h.sz[f]; break; }
        case 1: db[t] = db[f]; h.add(CPY, t, 0, 0, 0, f); h.sz[t] = h.sz[f]; break;
        case 2: { MTV x(db[f].clone()); db[t].swap(x); h.add(CPY, t, 0, 0, 0, f); h.sz[t] = h.sz[f]; break; }
        case 3: { MTV x(std::move(db[f])); db[t].swap(x); h.add(CPY, t, 0, 0, 0, f); h.sz[t] = h.sz[f]; h.sz[f] = 0; break; }
        case 4: db[t] = std::move(db[f]); h.add(CPY, t, 0, 0, 0, f); h.sz[t] = h.sz[f]; h.sz[f] = 0; break;
        case 5: db[t].swap(db[f]); h.add(XCH, t, 0, 0, 0, f); std::swap(h.sz[t], h.sz[f]); break;
        case 6:
        {
#ifdef AOS
            MTV x = db[f].clone();
#else
            MTV x = db[f].clone(Tr::event_func());
#endif
            db[t] = std::move(x); h.add(CPY, t, 0, 0, 0, f); h.sz[t] = h.sz[f]; break;
        }
        }
        if (how == 0 || how == 1)
        {
#ifndef MGD
            sy_assert(db[t] == db[f], "a copy equals its source");
#endif
        }
        if (how < 3 || how == 6) sy_reach("copied"); else if (how == 5) sy_reach("swapped"); else sy_reach("moved");
    }
    check_events({&db[0], &db[1], &db[2]});
    for (long i = 0; i < M; ++i) { int c = int(sy_choice("which", 2)); do_op(db[c], h, c, OPS, 1, false); }
    if (sy_param("XFER", 0))
    {
        // ranges move or change places between the copy or its source and a third vector
        build(db[2], h, 2, 1, 1); int c = int(sy_choice("with", 2)), f = sy_choice("out", 2) ? c : 2, t = f == 2 ? c : 2;
        long a = sym_pos("a"), b = sym_pos("b"), d = sym_pos("d"); bool bad = a < 0 || a > b || b >= h.sz[f] || d < 0 || d + (b - a) >= h.sz[t], r, swp = sy_choice("swap", 2);
        r = oob([&] { if (swp) db[f].swap(S(a), S(b), db[t], S(d)); else db[f].transfer(S(a), S(b), db[t], S(d)); });
        sy_assert(r == bad, "swap and transfer are refused exactly when a range is invalid");
        if (!r) h.add(swp ? SWP : TRN, f, a, b, d, t);
        check_events({&db[0], &db[1], &db[2]});
        if (sy_choice("third", 2)) { check_blocks(db[2], h.sz[2]); long q = sym_pos("q"); check_probe(db[2], h.sz[2], q, h.at(2, q)); return; }
    }
#if defined(COW) && defined(PTR)
    if (sy_param("REL", 0))
    {
        // release needs sole ownership: refused while shared, and never after detaching
        int c = int(sy_choice("with", 2)); bool det = sy_choice("detached", 2), shared = false; if (det) db[c].detach();
        long a = sym_pos("a"); B v = nullptr; int want = outside(a, h.sz[c]) ? 0 : h.at(c, a);
        if (!(want >= EA && want < EB))
        {
            long how = sy_choice("rel", 6); bool range = how > 2;
            if (range && !outside(a, h.sz[c]) && want >= EB && want < EC) { auto p = db[c].position(S(a)); v = BlkB::at(*p.first->data, p.second); }
            std::vector<B> all; if (how == 5) { v = nullptr; for (auto p = db[c].cbegin(); p != db[c].cend(); ++p) if (p->type == IDB) for (S j = 0; j < p->size; ++j) all.push_back(BlkB::at(*p->data, j)); }
            bool r = oob([&] { try { switch (how)
            {
            case 0: v = db[c].release<B>(S(a)); break;
            case 1: db[c].release(S(a), v); break;
            case 2: db[c].release(any_hint(db[c]), S(a), v); break;
            case 3: db[c].release_range(S(a), S(a)); break;
            case 4: db[c].release_range(any_hint(db[c]), S(a), S(a)); break;
            case 5: db[c].release(); break;
            } } catch (const mdds::mtv::shared_block_error&) { shared = true; v = nullptr; } });
            sy_assert(!(shared && det), "after detaching, elements can be released");
            if (how == 5) { sy_assert(!r, "release of everything"); if (!shared) { h.sz[c] = 0; for (B p : all) { sy_assert(val(p) >= 0, "a released element stays alive"); delete p; } } }
            else {
            sy_assert(shared || r == outside(a, h.sz[c]), "release is refused exactly beyond the end");
            if (!r && !shared && !(want >= EC)) { sy_assert((v == nullptr) == (want == 0) && (!v || EB + val(v) == want), "release gives the element stored there"); h.add(EMP, c, a, a); }
            else v = nullptr;
            if (!r && !shared && want >= EC) h.add(EMP, c, a, a); }
        }
        int k = int(sy_choice("look", 2)); check_blocks(db[k], h.sz[k]); long q = sym_pos("q"); check_probe(db[k], h.sz[k], q, h.at(k, q));
        delete v; return;
    }
#endif
#ifdef COW
    if (sy_param("DETACH", 0)) db[sy_choice("det", 2)].detach();
#endif
    check_events({&db[0], &db[1], &db[2]});
    int c = int(sy_choice("look", 2)); check_blocks(db[c], h.sz[c]);
    long q = sym_pos("q"); check_probe(db[c], h.sz[c], q, h.at(c, q));
}

#ifdef NCM
// The n-th cloning of an element fails: the operation does not happen at all, and nothing is lost.
HARNESS(mtv_fault)
{
    Hist h; MTV db[2]; build(db[0], h, 0, int(sy_param("B", 3)), int(sy_param("D", 2)));
    auto attempt = [&](auto f) { s_fault = sy_int("fail", 0, 6); try { f(); s_fault = 0; sy_reach("done"); return true; } catch (const Fault&) { s_fault = 0; sy_reach("failed"); return false; } };
    auto cloned = [&] { h.add(CPY, 1, 0, 0, 0, 0); h.sz[1] = h.sz[0]; };
#ifdef COW
    db[1] = db[0].clone(); cloned();
    int c = int(sy_choice("which", 2)); long& sz = h.sz[c]; MTV& d = db[c];
    long a = sy_int("a", 0, 4 * BIG), b = sy_int("b", 0, 4 * BIG); sy_assume(a <= b && b < sz);
    switch (sy_choice("op", 9))
    {
    case 0: attempt([&] { d.detach(); }); break;
    case 1: if (attempt([&] { d.set(S(a), A(7)); })) { Op& o = h.add(SET, c, a, 0); o.n = 1; o.v[0] = EA + 7; } break;
    case 2: if (attempt([&] { d.set_empty(S(a), S(b)); })) h.add(EMP, c, a, b); break;
    case 3: if (attempt([&] { d.erase(S(a), S(b)); })) { h.add(ERS, c, a, b); sz -= b - a + 1; } break;
    case 4: if (attempt([&] { d.insert_empty(S(a), 3); })) { h.add(INS, c, a, 3); sz += 3; } break;
    case 5: if (attempt([&] { d.push_back(A(7)); })) { Op& o = h.add(SET, c, sz, 0); o.n = 1; o.v[0] = EA + 7; ++sz; } break;
    case 6: if (attempt([&] { d.push_back_empty(); })) { h.add(GROW, c, sz, 0); ++sz; } break;
    case 7: if (attempt([&] { d.resize(S(b)); })) sz = b; break;
    case 8: { std::vector<A> v(2, A(7)); if (attempt([&] { d.insert(S(a), v.begin(), v.end()); })) { Op& o = h.add(INS, c, a, 2); o.n = 2; o.v[0] = o.v[1] = EA + 7; sz += 2; } break; }
    }
#else
    switch (sy_choice("op", 2))
    {
    case 0: if (attempt([&] { MTV x(db[0].clone()); db[1].swap(x); })) cloned(); break;
#ifdef AOS
    case 1: if (attempt([&] { db[1] = db[0].clone(); })) cloned(); break;
#else
    case 1: if (attempt([&] { db[1] = db[0].clone(Tr::event_func()); })) cloned(); break;
#endif
    }
#endif
    check_events({&db[0], &db[1]});
    int k = int(sy_choice("look", 2)); check_blocks(db[k], h.sz[k]);
    long q = sym_pos("q"); check_probe(db[k], h.sz[k], q, h.at(k, q));
}
#endif

#ifdef PTR
// Releasing hands the elements to the caller and leaves the position empty.
HARNESS(mtv_release)
{
    Hist h; MTV db; build(db, h, 0, int(sy_param("B", 3)), int(sy_param("D", 3)));
    long N = sy_param("N", 1); std::vector<B> mine; MTV::iterator it;
    for (long i = 0; i < N; ++i)
    {
        long& sz = h.sz[0]; long a = sym_pos("a");
        switch (long how = sy_choice("how", 6))
        {
        case 0: case 1: case 2:
        {
            int want = outside(a, sz) ? 0 : h.at(0, a); if (want >= EA && want < EB) break; // the wrong type
            B v = nullptr;
            bool r = oob([&] { if (how == 0) v = db.release<B>(S(a)); else if (how == 1) it = db.release(S(a), v); else it = db.release(any_hint(db), S(a), v); });
            sy_assert(r == outside(a, sz), "release is refused exactly beyond the end");
            if (r) break;
            sy_assert((v == nullptr) == (want == 0), "release gives the element");
            if (v) { sy_assert(EB + val(v) == want, "release gives the element stored there"); mine.push_back(v); }
            h.add(EMP, 0, a, a); if (how) check_iter(db, it, a);
            sy_reach("one");
            break;
        }
        case 3: case 4:
        {
            long b = sym_pos("b"); if (!(a < 0 || a > b || b >= sz)) for (auto p = const_cast<const MTV&>(db).begin(); p != const_cast<const MTV&>(db).end(); ++p)
                if (p->type == IDB) for (S k = 0; k < p->size; ++k) { long x = long(p->position + k); if (a <= x && x <= b) mine.push_back(BlkB::at(*p->data, k)); }
            bool r = oob([&] { it = how == 3 ? db.release_range(S(a), S(b)) : db.release_range(any_hint(db), S(a), S(b)); });
            sy_assert(r == (a < 0 || a > b || b >= sz), "release_range is refused exactly when the range is invalid");
            if (r) break;
            h.add(EMP, 0, a, b); check_iter(db, it, a);
            sy_reach("range");
            break;
        }
        case 5:
            for (auto p = const_cast<const MTV&>(db).begin(); p != const_cast<const MTV&>(db).end(); ++p)
                if (p->type == IDB) for (S k = 0; k < p->size; ++k) mine.push_back(BlkB::at(*p->data, k));
            db.release(); sz = 0;
            sy_reach("all");
            break;
        }
    }
    if (sy_param("MORE", 0)) do_op(db, h, 0, O_ALL, 1, false);
    check_events({&db});
    check_blocks(db, h.sz[0]);
    long q = sym_pos("q"); check_probe(db, h.sz[0], q, h.at(0, q));
    for (B p : mine) { sy_assert(val(p) >= 0, "a released element stays alive"); delete p; }
}
#endif

// A vector with many blocks, so that the bulk position adjustment runs: alternating data and empty
// blocks, the empty ones of any size.
HARNESS(mtv_many)
{
    Hist h; MTV db; long n = sy_param("BLOCKS", 40), k = sy_choice("extra", sy_param("EXTRA", 17)); n += k;
    long e = sy_int("esize", 1, BIG), at = 0; std::vector<long> start;
    for (long i = 0; i < n; ++i)
    {
        start.push_back(at);
        if (i & 1) { db.resize(S(at + e)); at += e; } else { db.push_back(mkA(int(i % 2))); ++at; }
    }
    sy_assert(db.block_size() == S(n), "as many blocks as written");
    long i = 1 + 2 * sy_choice("at", 3), w = sy_int("w", 1, BIG), d = 0; // an operation in an early empty block
    switch (sy_choice("op", 4))
    {
    case 0: db.insert_empty(S(start[i]), S(w)); d = w; sy_reach("insert"); break;
    case 1: sy_assume(w < e); db.erase(S(start[i]), S(start[i] + w - 1)); d = -w; sy_reach("erase"); break;
    case 2: { C c[2] = {3, 4}; const C *b = c, *f = c + 2; db.insert(S(start[i]), b, f); d = 2; sy_reach("insert"); break; }
    case 3: db.erase(S(start[i] + e), S(start[i] + e)); d = -1; sy_reach("erase"); break; // one data cell: its empty neighbours join
    }
    check_blocks(db, at + d);
    long j = sy_choice("probe", n); // every later block moved by the same distance
    if (j > i + 2)
    {
        sy_assert(db.get_type(S(start[j] + d)) == type_of(j & 1 ? 0 : EA), "later blocks move by the size of the change");
        auto p = const_cast<const MTV&>(db).position(S(start[j] + d)); sy_assert(p.second == 0 && p.first->position == S(start[j] + d), "later blocks start where expected");
        sy_reach("later");
    }
}
