// multi_type_matrix against a two-dimensional array of cells.  The number of rows is symbolic; the
// content at a probe cell is computed by rewriting the probe backwards through the history.
#include "sy.hpp"
#include "tok.hpp"
#include <bit>
#include <stdexcept>
#include <vector>
#include <mdds/multi_type_matrix.hpp>
typedef std::size_t S;
constexpr int IDS = mdds::mtv::element_type_user_start;
typedef mdds::mtv::default_element_block<IDS, Tok> TokBlk;
MDDS_MTV_DEFINE_ELEMENT_CALLBACKS(Tok, IDS, Tok(), TokBlk)
struct Tr
{
#ifdef INT64
    typedef mdds::mtv::int64_element_block integer_element_block;
#else
    typedef mdds::mtv::int32_element_block integer_element_block;
#endif
    typedef mdds::mtv::default_element_block<IDS, Tok> string_element_block;
};
typedef mdds::multi_type_matrix<Tr> Mat;
typedef Mat::integer_type I; typedef Tr::string_element_block BS; typedef Tr::integer_element_block BI;
typedef mdds::mtv::double_element_block BD; typedef mdds::mtv::boolean_element_block BB;
using mdds::mtm::element_t;

// cells: kind * K + value; kinds: 0 empty, 1 number, 2 bool, 3 string, 4 integer
enum { K = 16, NUM = K, BOO = 2 * K, STR = 3 * K, INT = 4 * K };
static double num(int v) { return std::bit_cast<double>(0x3ff0000000000000ll + v); } // values 0..9 as neighbouring doubles
static int of(double d) { return int(std::bit_cast<long long>(d) - 0x3ff0000000000000ll); }
static I inum(int v) { return sizeof(I) == 8 ? I(0x20000000000001ll + v) : I(v); }
static element_t type_of(int c) { static const element_t t[] = {mdds::mtm::element_empty, mdds::mtm::element_numeric, mdds::mtm::element_boolean, mdds::mtm::element_string, mdds::mtm::element_integer}; return t[c / K]; }
// With CONC, rows and positions are enumerated (they index bits then); otherwise they are symbolic.
static long any(const char* n, long hi) { long c = sy_param("CONC", 0); return c ? sy_choice2(n, 0, c) : sy_int(n, 0, hi); }
static int any_kind(const char* n = "kind") { static const int k[] = {1, 3, 4, 2}; return k[sy_choice(n, sy_param("KINDS", 3))]; }
static int sym_cell(int k) { return k == 0 ? 0 : k * K + int(k == 2 || (k == 4 && sizeof(I) == 8) ? sy_choice("bit", 2) : sy_int("v", 0, 9)); }

enum Kind { WR, EMP, ROWE, RSZ, COPY, ARR, TRANS, SAME, XCH };
// all positions are linear in column-major order with R rows
struct Op { Kind k; int m, m2; long R, a, len, r, c; int n; int v[4]; };
struct Hist
{
    int n = 0; long R[3] = {0, 0, 0}; long C[3] = {0, 0, 0}; Op op[32];
    Op& add(Kind k, int m, int m2 = -1) { Op& o = op[n++]; o.k = k; o.m = m; o.m2 = m2; o.R = R[m]; o.n = 0; o.a = o.len = o.r = o.c = 0; return o; }
    int at(int m, long r, long c) const
    {
        int res = 0; bool done = false;
        for (int i = n - 1; i >= 0; --i)
        {
            const Op& o = op[i]; if (m != o.m && !(o.k == XCH && m == o.m2)) continue; // the matrix is known on every path
            long q = c * o.R + r;
            switch (o.k)
            {
            case WR: for (int j = 0; j < o.n; ++j) { bool h = !done & (q == o.a + j); res = h ? o.v[j] : res; done = done | h; } break;
            case EMP: { bool h = !done & (o.a <= q) & (q < o.a + o.len); res = h ? 0 : res; done = done | h; break; }
            case ROWE: { bool h = !done & (r == o.r); res = h ? 0 : res; done = done | h; break; }
            case RSZ: { bool h = !done & ((r >= o.r) | (c >= o.c)); res = h ? o.v[0] : res; done = done | h; break; } // o.r, o.c: size before
            case COPY: { int s = at_before(i, o.m2, r, c); bool h = !done & (r < o.r) & (c < o.c); res = h ? s : res; done = done | h; break; } // o.r, o.c: size of the other
            case ARR: for (int x = 0; x < o.c; ++x) for (int y = 0; y < o.r; ++y) { bool h = !done & (r == y) & (c == x); res = h ? o.v[x * o.r + y] : res; done = done | h; } break;
            case TRANS: { long t = r; r = c; c = t; break; }
            case SAME: m = o.m2; break;
            case XCH: m = m == o.m ? o.m2 : o.m; break;
            }
        }
        return res;
    }
    int at_before(int i, int m, long r, long c) const { Hist h = *this; h.n = i; return h.at(m, r, c); }
};
template<class F> static bool oob(F f) { try { f(); return false; } catch (const std::out_of_range&) { return true; } }
template<class F> static bool sizerr(F f) { try { f(); return false; } catch (const mdds::size_error&) { return true; } }

// The value of a cell through a block and an offset.
static int cell_in(const mdds::mtv::base_element_block* b, element_t t, S off)
{
    switch (t)
    {
    case mdds::mtm::element_numeric: return NUM + of(BD::at(*b, off));
    case mdds::mtm::element_boolean: { auto it = BB::begin(*b); it += sy_concrete(long(off)); return BOO + int(*it); }
    case mdds::mtm::element_string: return STR + BS::at(*b, off).get();
    case mdds::mtm::element_integer: return INT + int(BI::at(*b, off) - inum(0));
    case mdds::mtm::element_empty: return 0;
    }
    return -1;
}
static void check_probe(Mat& x, long R, long C, long r, long c, int want, bool exact = false)
{
    const Mat& m = x;
    auto p = m.position(S(r), S(c));
    if (exact) { auto mp = m.matrix_position(p); sy_assert(mp.row == S(r) && mp.column == S(c), "matrix_position inverts position"); } // needs a division by the number of rows
    sy_assert(m.get_type(S(r), S(c)) == type_of(want) && m.get_type(p) == type_of(want), "the stored type is the type last set");
    sy_assert(cell_in(p.first->data, m.get_type(p), p.second) == want, "the stored element is the one last set");
    int v = want % K;
    if (want >= BOO && want < STR) { p.second = S(sy_concrete(long(p.second))); r = long((p.first->position + p.second) - S(c) * S(R)); }
    switch (want / K)
    {
    case 0: sy_assert(m.get_numeric(S(r), S(c)) == 0.0 && m.get_integer(p) == 0 && !m.get_boolean(p), "an empty element reads as zero"); break;
    case 1: sy_assert(of(m.get_numeric(S(r), S(c))) == v && of(m.get_numeric(p)) == v && of(m.get<double>(S(r), S(c))) == v, "get_numeric of a number"); sy_assert(m.get_boolean(p), "a nonzero number is true"); break;
    case 2: sy_assert(m.get_boolean(S(r), S(c)) == (v != 0) && m.get<bool>(S(r), S(c)) == (v != 0) && m.get_boolean(p) == (v != 0), "get_boolean of a bool"); sy_assert(m.get_numeric(p) == (v ? 1.0 : 0.0) && m.get_integer(p) == v, "a bool as a number"); break;
    case 3: sy_assert(m.get_string(S(r), S(c)).get() == v && m.get_string(p).get() == v && m.get<Tok>(S(r), S(c)).get() == v, "get_string of a string"); break;
    case 4: sy_assert(m.get_integer(S(r), S(c)) == inum(v) && m.get_integer(p) == inum(v) && m.get<I>(S(r), S(c)) == inum(v), "get_integer of an integer"); sy_assert(m.get_numeric(p) == double(inum(v)), "an integer as a number"); break;
    }
    if (want < STR || want >= INT) { bool t = false; try { m.get_string(S(r), S(c)); } catch (const mdds::general_error&) { t = true; } sy_assert(t, "get_string refuses what is not a string"); }
    sy_obs(want); sy_reach("probe");
}
static void check_size(const Mat& m, long R, long C)
{
    auto s = m.size(); sy_assert(s.row == S(R) && s.column == S(C) && s == Mat::size_pair_type(S(R), S(C)), "size");
    sy_assert(m.empty() == (R == 0 || C == 0), "empty exactly when there is no element");
    sy_assert(oob([&] { m.get_type(0, S(C)); }), "a column beyond the last is refused");
}
static void set1(Mat& m, long r, long c, int cell)
{
    int v = cell % K;
    switch (cell / K) { case 0: m.set_empty(S(r), S(c)); break; case 1: m.set(S(r), S(c), num(v)); break; case 2: m.set(S(r), S(c), v != 0); break; case 3: m.set(S(r), S(c), Tok(v)); break; case 4: m.set(S(r), S(c), inum(v)); break; }
}
template<class F> static auto vals(int k, const int* v, int n, F f)
{
    std::vector<double> d; std::vector<bool> b; std::vector<Tok> s; std::vector<I> i;
    for (int j = 0; j < n; ++j) switch (k) { case 1: d.push_back(num(v[j] % K)); break; case 2: b.push_back(v[j] % K != 0); break; case 3: s.push_back(Tok(v[j] % K)); break; default: i.push_back(inum(v[j] % K)); }
    switch (k) { case 1: return f(d); case 2: return f(b); case 3: return f(s); default: return f(i); }
}
static long sym_rows() { return sy_param("CONC", 0) ? 1 + sy_choice("rows", sy_param("ROWS", 3)) : sy_int("rows", 1, sy_param("ROWS", 1000)); }
// A matrix of any number of rows and up to C columns, with runs of elements written at any places.
static void build(Mat& x, Hist& h, int m, long C, long runs, long len)
{
    long c = 1 + sy_choice("cols", C), r = sym_rows(); Mat t{S(r), S(c)}; x.swap(t); h.R[m] = r; h.C[m] = c;
    long n = sy_choice("runs", runs + 1);
    for (long i = 0; i < n; ++i)
    {
        int k = any_kind(), l = 1 + int(sy_choice("len", len)); long a = any("at", 3000); sy_assume(a + l <= r * c);
        Op& o = h.add(WR, m); o.a = a; o.n = l; for (int j = 0; j < l; ++j) o.v[j] = sym_cell(k);
        vals(k, o.v, l, [&](auto& v) { x.set(S(a), 0, v.begin(), v.end()); });
    }
}
enum { O_SET = 1, O_EMP = 2, O_RNG = 4, O_COL = 8, O_ROWE = 16, O_RSZ = 32, O_COPY = 64, O_ARR = 128, O_TR = 256, O_WHOLE = 512 };
static void do_op(Mat* x, Hist& h, int m, long mask)
{
    long pick[10], np = 0; for (long i = 0; i < 10; ++i) if (mask & (1 << i)) pick[np++] = 1 << i;
    long R = h.R[m], C = h.C[m]; Mat& d = x[m];
    long op = pick[np > 1 ? sy_choice("op", np) : 0];
    if (op <= O_ROWE && (R == 0 || C == 0)) return;
    switch (op)
    {
    case O_SET:
    {
        long r = any("r", 1000), c = sy_choice("c", C + 1); sy_assume(r < R); int cell = sym_cell(any_kind());
        if (c == C) { sy_assert(oob([&] { set1(d, r, c, cell); }), "a column beyond the last is refused"); break; }
        if (sy_choice("through", 2))
        {
            auto p = d.position(S(r), S(c)); int v = cell % K; Mat::position_type q;
            switch (cell / K) { case 1: q = d.set(p, num(v)); break; case 2: q = d.set(p, v != 0); break; case 3: q = d.set(p, Tok(v)); break; case 4: q = d.set(p, inum(v)); break; }
            auto w = d.position(S(r), S(c)); sy_assert(q.first == w.first && q.second == w.second, "set returns the position set");
        }
        else set1(d, r, c, cell);
        Op& o = h.add(WR, m); o.a = c * R + r; o.n = 1; o.v[0] = cell; sy_reach("set");
        break;
    }
    case O_EMP:
    {
        long r = any("r", 1000), c = sy_choice("c", C); sy_assume(r < R); long l = 1;
        switch (sy_choice("how", 4))
        {
        case 0: d.set_empty(S(r), S(c)); break;
        case 1: { auto p = d.position(S(r), S(c)); auto q = d.set_empty(p); auto w = d.position(S(r), S(c)); sy_assert(q.first == w.first && q.second == w.second, "set_empty returns the position"); break; }
        case 2:
        {
            l = any("l", 4000); bool bad = false, ref = oob([&] { try { d.set_empty(S(r), S(c), S(l)); } catch (const mdds::general_error&) { bad = true; } });
            sy_assert(bad == (l == 0) && ref == (l > 0 && c * R + r + l > R * C), "set_empty of a length is refused exactly when zero or too long"); if (bad || ref) l = 0;
            break;
        }
        case 3: d.set_column_empty(S(c)); r = 0; l = R; break;
        }
        if (l) { Op& o = h.add(EMP, m); o.a = c * R + r; o.len = l; }
        sy_reach("empty");
        break;
    }
    case O_RNG: case O_COL:
    {
        long r = op == O_COL ? 0 : any("r", 1000), c = sy_choice("c", C); sy_assume(r < R);
        int k = any_kind(), l = 1 + int(sy_choice("len", 3)); int v[4]; for (int j = 0; j < l; ++j) v[j] = sym_cell(k);
        bool ref = oob([&] { vals(k, v, l, [&](auto& w) {
            if (op == O_COL) { d.set_column(S(c), w.begin(), w.end()); return; }
            if (sy_choice("through", 2)) { auto p = d.position(S(r), S(c)); auto q = d.set(p, w.begin(), w.end()); auto z = d.position(S(r), S(c)); sy_assert(q.first == z.first && q.second == z.second, "a range set returns its first position"); }
            else d.set(S(r), S(c), w.begin(), w.end()); }); });
        sy_assert(ref == (op == O_RNG && c * R + r + l > R * C), "a range set is refused exactly when it passes the end");
        if (ref) break;
        Op& o = h.add(WR, m); o.a = c * R + r; o.n = l; for (int j = 0; j < l; ++j) o.v[j] = v[j];
        if (op == O_COL) { if (R == 1) o.n = 1; else if (R == 2 && l == 3) o.n = 2; sy_reach("column"); } else sy_reach("range");
        break;
    }
    case O_ROWE: { long r = any("r", 1000); sy_assume(r < R); d.set_row_empty(S(r)); Op& o = h.add(ROWE, m); o.r = r; sy_reach("row-empty"); break; }
    case O_RSZ:
    {
        long c = sy_choice("newcols", 4), r; int fill = 0;
        if (sy_choice("value", 2)) { r = sy_choice("newrows", 4); int k = any_kind(); fill = sym_cell(k); vals(k, &fill, 1, [&](auto& v) { typename std::decay_t<decltype(v)>::value_type e = v[0]; d.resize(S(r), S(c), e); }); }
        else { r = any("newrows", 1000); d.resize(S(r), S(c)); }
        if (r == 0 || c == 0) r = c = 0;
        Op& o = h.add(RSZ, m); o.r = R; o.c = C; o.v[0] = fill; h.R[m] = r; h.C[m] = c; sy_reach("resize");
        break;
    }
    case O_COPY: { int s = sy_choice("self", 2) ? m : 1 - m; d.copy(x[s]); if (s != m) { Op& o = h.add(COPY, m, s); o.r = h.R[s]; o.c = h.C[s]; } sy_reach("copy"); break; }
    case O_ARR:
    {
        long r = 1 + sy_choice("arows", 2), c = 1 + sy_choice("acols", 2), l = sy_choice("exact", 2) ? r * c : sy_choice("len", 4); int k = any_kind(), v[4]; for (int j = 0; j < l; ++j) v[j] = sym_cell(k);
        bool ref = sizerr([&] { vals(k, v, int(l), [&](auto& w) { d.copy(S(r), S(c), w.begin(), w.end()); }); });
        bool none = l == 0 || R == 0 || C == 0;
        sy_assert(ref == (!none && (l != r * c || r > R || c > C)), "copying an array is refused exactly when its size is wrong or too large");
        if (!ref && !none) { Op& o = h.add(ARR, m); o.r = r; o.c = c; for (int j = 0; j < l; ++j) o.v[j] = v[j]; sy_reach("array"); }
        break;
    }
    case O_TR: { sy_assume(R <= sy_param("TR", 3)); h.R[m] = R = sy_concrete(R); d.transpose(); h.add(TRANS, m); h.R[m] = C; h.C[m] = R; sy_reach("transpose"); break; }
    case O_WHOLE:
        switch (sy_choice("how", 6))
        {
        case 0: d.clear(); h.R[m] = h.C[m] = 0; break;
        case 1: d.swap(x[1 - m]); h.add(XCH, m, 1 - m); std::swap(h.R[0], h.R[1]); std::swap(h.C[0], h.C[1]); break;
        case 2: { Mat t(x[1 - m]); d.swap(t); h.add(SAME, m, 1 - m); h.R[m] = h.R[1 - m]; h.C[m] = h.C[1 - m]; sy_assert(d == x[1 - m], "a copy equals its source"); break; }
        case 3: d = x[1 - m]; h.add(SAME, m, 1 - m); h.R[m] = h.R[1 - m]; h.C[m] = h.C[1 - m]; break;
        case 4: { Mat t(std::move(x[1 - m])); d.swap(t); h.add(SAME, m, 1 - m); h.R[m] = h.R[1 - m]; h.C[m] = h.C[1 - m]; h.R[1 - m] = h.C[1 - m] = 0; break; }
        case 5: d = std::move(x[1 - m]); h.add(SAME, m, 1 - m); h.R[m] = h.R[1 - m]; h.C[m] = h.C[1 - m]; h.R[1 - m] = h.C[1 - m] = 0; break;
        }
        sy_reach("whole");
        break;
    }
}
HARNESS(mtm_step)
{
    Hist h; Mat x[2]; long C = sy_param("C", 2), two = sy_param("TWO", 0);
    build(x[0], h, 0, C, sy_param("RUNS", 2), sy_param("LEN", 2)); if (two) build(x[1], h, 1, C, sy_param("RUNS2", 1), sy_param("LEN", 2));
    for (long i = 0, N = sy_param("N", 1); i < N; ++i) do_op(x, h, 0, sy_param("OPS", 31));
    int m = two ? int(sy_choice("look", 2)) : 0;
    check_size(x[m], h.R[m], h.C[m]);
    if (h.C[m] == 0) return;
    long c = sy_choice("pc", h.C[m]), r = any("pr", 1000); sy_assume(r < h.R[m]);
    int want = h.at(m, r, c); want = int(sy_concrete(want / K)) * K + want % K;
    check_probe(x[m], h.R[m], h.C[m], r, c, want);
}
// numeric(): no empty and no string element; equality.
HARNESS(mtm_equal)
{
    Hist h; Mat x[2]; long C = sy_param("C", 2); for (int i = 0; i < 2; ++i) build(x[i], h, i, C, sy_param("RUNS", 1), sy_param("LEN", 2));
    bool eq = x[0] == x[1]; sy_assert((x[1] == x[0]) == eq, "equality is symmetric");
    if (eq)
    {
        sy_assert(h.R[0] == h.R[1] && h.C[0] == h.C[1], "equal matrices have the same size");
        long c = sy_choice("pc", h.C[0]), r = any("pr", 1000); sy_assume(r < h.R[0]); sy_assert(h.at(0, r, c) == h.at(1, r, c), "equal matrices have equal elements"); sy_reach("equal");
    }
    else
    {
        bool diff = h.R[0] != h.R[1] || h.C[0] != h.C[1];
        if (!diff) for (int i = 0; i < h.n; ++i) for (int j = 0; j < h.op[i].n; ++j) for (long c = 0; c < h.C[0]; ++c)
        { long r = h.op[i].a + j - c * h.R[0]; if (r >= 0 && r < h.R[0]) diff = diff | (h.at(0, r, c) != h.at(1, r, c)); }
        sy_assert(diff, "different matrices differ in size or in some element"); sy_reach("differ");
    }
}
// Construction and numeric().
HARNESS(mtm_make)
{
    long r = sy_choice("r", 4), c = sy_choice("c", 4); int k = any_kind(), v[9]; long l = sy_choice("exact", 2) ? r * c : sy_choice("len", 4);
    if (l > 9) l = 9; for (long i = 0; i < l; ++i) v[i] = sym_cell(k);
    bool fill = sy_choice("fill", 2), bad = false; Mat m; sy_assert(m.empty() && !m.numeric() && m.size() == Mat::size_pair_type(0, 0), "a default constructed matrix is empty");
    if (fill && l == 0) return;
    vals(k, v, int(l), [&](auto& w) { try { if (fill) { typename std::decay_t<decltype(w)>::value_type e = w[0]; Mat t((S(r)), S(c), e); m.swap(t); } else { Mat t((S(r)), S(c), w.begin(), w.end()); m.swap(t); } } catch (const mdds::invalid_arg_error&) { bad = true; } });
    sy_assert(bad == (!fill && r * c > 0 && l != r * c), "construction is refused exactly when the number of elements is wrong");
    if (bad) { sy_reach("refused"); return; }
    check_size(m, r, c); sy_assert(m.numeric() == (r * c > 0 && k != 3), "numeric exactly when every element is a number, integer or bool");
    if (r * c == 0) return;
    long pr = sy_choice("pr", r), pc = sy_choice("pc", c); check_probe(m, r, c, pr, pc, fill ? v[0] : v[pc * r + pr], true);
    int k2 = sy_choice("none", 2) ? 0 : any_kind("kind2"); int cell = sym_cell(k2); set1(m, pr, pc, cell);
    sy_assert(m.numeric() == ((k != 3 || r * c == 1) && k2 != 3 && k2 != 0), "numeric exactly when every element is a number, integer or bool");
    auto p = m.position(S(pr), S(pc)); auto n = Mat::next_position(p); long nx = pc * r + pr + 1;
    if (nx == r * c) sy_assert(n.first == m.end_position().first, "after the last element comes the end"); else { auto w = m.position(S(nx % r), S(nx / r)); sy_assert(n.first == w.first && n.second == w.second, "next_position goes down the column, then to the next"); auto z = m.position(n, S(pr), S(pc)); sy_assert(z.first == p.first && z.second == p.second, "a position hint does not matter"); }
    sy_reach("made");
}
// Walking: the nodes cover the elements in column order, each once.
typedef Mat::element_block_node_type Node;
struct Seg { element_t t; S off, size; const mdds::mtv::base_element_block* data; };
static void find(const std::vector<Seg>& s, S total, S k, int want)
{
    S at = 0; bool hit = false;
    for (auto& n : s)
    {
        sy_assert(n.size > 0, "no empty node");
        if (k >= at && k < at + n.size) { hit = true; sy_assert(n.t == type_of(want), "the node has the element's type"); sy_assert((n.data == nullptr) == (want == 0), "an empty node has no data"); if (n.data) sy_assert(cell_in(n.data, n.t, n.off + (k - at)) == want, "the node holds the element"); }
        at += n.size;
    }
    sy_assert(at == total && hit, "the nodes cover exactly the elements asked for");
}
static Seg seg(const Node& n) { return Seg{n.type, n.offset, n.size, n.data}; }
HARNESS(mtm_walk)
{
    Hist h; Mat x[2]; long C = sy_param("C", 2), par = sy_param("PAR", 0); build(x[0], h, 0, C, sy_param("RUNS", 2), sy_param("LEN", 2)); if (par) build(x[1], h, 1, C, sy_param("RUNS2", 1), sy_param("LEN", 2));
    const Mat &m = x[0], &w = x[1]; std::vector<Seg> s, t; long R = h.R[0]; C = h.C[0];
    auto f1 = [&](const Node& n) { s.push_back(seg(n)); }; auto f2 = [&](const Node& n, const Node& o) { sy_assert(n.size == o.size, "parallel nodes are equally long"); s.push_back(seg(n)); t.push_back(seg(o)); };
    if (sy_choice("part", 2))
    {
        long r1 = any("r1", 1000), r2 = any("r2", 1000), c1 = sy_choice("c1", C + 1), c2 = sy_choice("c2", C + 1);
        Mat::size_pair_type a((S(r1)), S(c1)), b{S(r2), S(c2)};
        bool ref = sizerr([&] { if (par) m.walk(f2, w, a, b); else m.walk(f1, a, b); });
        bool bad = r2 < r1 || c2 < c1 || r2 >= R || c2 >= C || (par && (r2 >= h.R[1] || c2 >= h.C[1]));
        sy_assert(ref == bad, "a walk is refused exactly when its range is reversed or not inside"); if (ref) { sy_assert(s.empty(), "a refused walk visits nothing"); sy_reach("refused"); return; }
        long pc = c1 + sy_choice("pc", c2 - c1 + 1), pr = any("pr", 1000); sy_assume(r1 <= pr && pr <= r2);
        long rows = r2 - r1 + 1; find(s, S(rows * (c2 - c1 + 1)), S((pc - c1) * rows + pr - r1), h.at(0, pr, pc)); if (par) find(t, S(rows * (c2 - c1 + 1)), S((pc - c1) * rows + pr - r1), h.at(1, pr, pc));
        sy_reach("part");
    }
    else
    {
        bool ref = sizerr([&] { if (par) m.walk(f2, w); else m.walk(f1); });
        sy_assert(ref == (par && (h.R[1] != R || h.C[1] != C)), "a parallel walk is refused exactly when the sizes differ"); if (ref) { sy_reach("refused"); return; }
        long pc = sy_choice("pc", C), pr = any("pr", 1000); sy_assume(pr < R);
        find(s, S(R * C), S(pc * R + pr), h.at(0, pr, pc)); if (par) find(t, S(R * C), S(pc * R + pr), h.at(1, pr, pc)); sy_reach("all");
    }
}
