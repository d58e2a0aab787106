// sx: bounded symbolic execution of LLVM IR with Z3.
// DFS over feasible paths; every branch on symbolic data is decided by the
// solver (or by a concrete witness model that satisfies the path condition, for
// the feasible side).  See /verif/DESIGN.md.
#include "interp.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <fcntl.h>
#include <set>
#include <map>
#include <algorithm>
#include <fstream>
#include <sstream>
using namespace llvm;

static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }

//---------------------------------------------------------------- shared state
struct Shared {
    std::atomic<u64> paths, done, killed, forks, queries, sat, unsat, unknown, qus, steps, asserts, assertQ, live, spawned, confirmed, unconfirmed, errors, poolhits, maxdepth, peakSteps, syntactic, intq;
    std::atomic<int> stop;
    std::atomic<u32> violSeq, sampleSeq;
    std::atomic<u8> reach[512];
    std::atomic<u8> fcov[1 << 16];
};
static Shared* S;

//---------------------------------------------------------------- options
static std::string optHarness, optOut, optReplay; static int optProcs = 8; static double optTime = 1e9; static u64 optMaxSteps = 20000000; static u32 optSamples = 64; static std::map<std::string, i64> optParams; static bool optVerbose = false; static bool optForkSel = false; static bool optLeaks = true; static u64 optSeed = 1; static double optTimeout0;
static std::map<std::string, i64> optFix; static bool optConcrete = false; static std::vector<i64> optConcreteVals;

//---------------------------------------------------------------- module tables
static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const Function*, FnInfo*> fnMap;
static std::vector<FnInfo*> fns;
static std::unordered_map<u64, FnInfo*> addrFn;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::unordered_map<u64, const GlobalVariable*> addrGV;
static std::vector<std::string> reachLabels; static std::unordered_map<std::string, int> reachIdx;

//---------------------------------------------------------------- memory
static const u64 MBASE = 0x100000000ull;
static std::vector<u32> owner; // granule -> obj id + 1
static std::vector<Obj*> objs;
static u64 bump = MBASE + 0x1000;
static u32 ckObjs = 0; // objects with id < ckObjs need journaling
struct JE { Obj* o; u32 off; u32 len; u64 dpos; u8 kind; }; // kind 0 data, 1 alive flag
static std::vector<JE> journal;
static std::vector<u8> jdata;

struct PathEnd { };
struct Frame { FnInfo* fn; const Inst* pc; u32 base; u32 amark; const Inst* call; bool isDtor; };
struct EHState { std::vector<u64> caught; u64 inflight = 0; std::vector<int> dummy; };

static std::vector<Val> R;
static std::vector<Frame> FR;
static std::vector<u32> allocaStk;
struct Exc { u64 addr; u64 type; u64 dtor; int handlers; int refs; };
static std::vector<Exc> excs;
static std::vector<u32> caughtStk;
static u64 stepsPath = 0;
struct VarInfo { std::string name; unsigned w; u64 hi; i64 base; bool fixed; i64 fixval; };
static std::vector<VarInfo> vars;           // symbolic variables created on this path
static std::vector<std::pair<int, i64>> inputs; // in creation order: var index or (-1, concrete value)
static std::vector<std::string> inputNames;
static std::vector<Val> obsv; static std::vector<u8> obsw;
static std::vector<const Ex*> facts;
static u32 newObjMain = 0;
static bool leakCheck = true;
static std::vector<std::pair<u64,u64>> atexits;

typedef std::vector<u64> Model;
static std::vector<Model> pool;

struct Ckpt {
    std::vector<Val> R; std::vector<Frame> FR; std::vector<u32> allocaStk; std::vector<Exc> excs; std::vector<u32> caughtStk; u64 steps; size_t nvars, ninputs, nobs, nfacts, jpos, jd, npc; u32 nobj; u64 bump; const Ex* cons; std::vector<Model> pool; bool given; bool leak; std::vector<std::pair<u64,u64>> atexits;
};
static std::vector<Ckpt*> cks;

static u64 rng = 88172645463325252ull;
static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static double tStart;
static bool mainPhase = false;

[[noreturn]] static void engineError(const std::string& m);

static Obj* newObj(u64 size, Kind k, u64 align = 16, u8 fill = 0)
{
    if (align < 16) align = 16;
    u64 base = (bump + align - 1) & ~(align - 1);
    Obj* o = new Obj();
    o->base = base; o->size = size; o->kind = k; o->alive = true; o->ro = false; o->sym = nullptr; o->premain = !mainPhase; o->site = FR.empty() ? nullptr : (const void*)FR.back().fn;
    o->data = (u8*)malloc(size ? size : 1); memset(o->data, fill, size);
    o->id = objs.size(); objs.push_back(o);
    u64 end = base + (size ? size : 1);
    bump = ((end + 15) & ~15ull) + 128;
    size_t gi = (bump - MBASE) >> 4;
    if (owner.size() < gi) owner.resize(std::max(gi, owner.size() * 2), 0);
    for (u64 g = (base - MBASE) >> 4; g <= (end - 1 - MBASE) >> 4; ++g) owner[g] = o->id + 1;
    return o;
}
static Obj* findObj(u64 a)
{
    if (a < MBASE || a >= bump) return nullptr;
    u32 i = owner[(a - MBASE) >> 4];
    return i ? objs[i - 1] : nullptr;
}
static inline void touch(Obj* o, u64 off, u64 len)
{
    if (o->id >= ckObjs) return;
    JE j; j.o = o; j.off = off; j.len = len; j.dpos = jdata.size(); j.kind = o->sym ? 2 : 0;
    jdata.insert(jdata.end(), o->data + off, o->data + off + len);
    if (o->sym) { const u8* p = (const u8*)(o->sym + off); jdata.insert(jdata.end(), p, p + len * sizeof(SymB)); }
    journal.push_back(j);
}
static void setAlive(Obj* o, bool v)
{
    if (o->id < ckObjs) { JE j; j.o = o; j.off = o->alive; j.len = 0; j.dpos = jdata.size(); j.kind = 1; journal.push_back(j); }
    o->alive = v;
}
static void undoTo(size_t jp, size_t jd, u32 nobj, u64 bmp)
{
    while (journal.size() > jp)
    {
        JE& j = journal.back();
        if (j.kind == 1) j.o->alive = j.off;
        else
        {
            memcpy(j.o->data + j.off, jdata.data() + j.dpos, j.len);
            if (j.kind == 2) memcpy((void*)(j.o->sym + j.off), jdata.data() + j.dpos + j.len, j.len * sizeof(SymB));
            else if (j.o->sym) for (u32 i = 0; i < j.len; i++) j.o->sym[j.off + i].e = nullptr;
        }
        journal.pop_back();
    }
    jdata.resize(jd);
    while (objs.size() > nobj)
    {
        Obj* o = objs.back();
        u64 end = o->base + (o->size ? o->size : 1);
        for (u64 g = (o->base - MBASE) >> 4; g <= (end - 1 - MBASE) >> 4; ++g) owner[g] = 0;
        objs.pop_back(); delete o;
    }
    bump = bmp;
}

static std::string locStr()
{
    std::string s; int n = 0;
    for (int i = (int)FR.size() - 1; i >= 0 && n < 12; --i, ++n) { s += (n ? " < " : "") + demangle(FR[i].fn->name).substr(0, 160); }
    return s;
}

//---------------------------------------------------------------- solver
static bool evalB(const Ex* e, const Model& m) { return evalEx(e, m) & 1; }

// The path condition as a list; each solver catches up with it when it is asked.  Queries whose path
// condition and goal have an exact integer form go to linear integer arithmetic, all others to bit vectors.
struct PItem { const Ex* e; u64 span; bool bound; };
static std::vector<PItem> pc; static std::vector<u32> pcBad; // pcBad[i]: items of pc[0..i] without integer form
std::string locStr();
static bool optBV = false, optCross = false;
struct Sv { Z3_solver s; std::vector<size_t> lvl; size_t done = 0; bool ints; };
static Sv svB, svI;
static void pcAdd(PItem it)
{
    bool bad = !it.bound && !toIntBool(it.e);
    if (bad && getenv("SXWHY")) { fprintf(stderr, "NOINT at %s: %s\n", locStr().substr(0, 120).c_str(), exWhy(it.e).c_str()); }
    pcBad.push_back((pcBad.empty() ? 0 : pcBad.back()) + bad); pc.push_back(it);
}
static void svAssert(Sv& v, const PItem& it)
{
    if (it.bound)
    {
        const Ex* x = it.e;
        if (v.ints) { Z3_ast i = toInt(x, true), z = Z3_mk_int64(Z, 0, Z3_mk_int_sort(Z)), h = Z3_mk_unsigned_int64(Z, it.span, Z3_mk_int_sort(Z)); Z3_solver_assert(Z, v.s, Z3_mk_ge(Z, i, z)); Z3_solver_assert(Z, v.s, Z3_mk_le(Z, i, h)); }
        else if (it.span != maskw(x->w)) Z3_solver_assert(Z, v.s, Z3_mk_bvule(Z, toBV(x), toBV(mkConst(it.span, x->w))));
        return;
    }
    Z3_ast q = v.ints ? toIntBool(it.e) : toBool(it.e); if (!q) { fprintf(stderr, "null form %s\n", exStr(it.e).c_str()); abort(); }
    Z3_solver_assert(Z, v.s, q);
}
static void svSync(Sv& v)
{
    for (size_t i = v.lvl.size(); i < cks.size(); ++i)
    {
        for (; v.done < cks[i]->npc; ++v.done) svAssert(v, pc[v.done]);
        v.lvl.push_back(v.done); Z3_solver_push(Z, v.s);
    }
    for (; v.done < pc.size(); ++v.done) svAssert(v, pc[v.done]);
}
static void svPop(Sv& v, size_t depth) { while (v.lvl.size() > depth) { v.done = v.lvl.back(); v.lvl.pop_back(); Z3_solver_pop(Z, v.s, 1); } }
static void pcPop(size_t npc) { pc.resize(npc); pcBad.resize(npc); svPop(svB, cks.size()); svPop(svI, cks.size()); }

static Z3_lbool svCheck(Sv& v, const Ex* c, Model* out)
{
    svSync(v);
    Z3_solver_push(Z, v.s);
    Z3_solver_assert(Z, v.s, v.ints ? toIntBool(c) : toBool(c));
    Z3_lbool r = Z3_solver_check(Z, v.s);
    if (r == Z3_L_TRUE && out)
    {
        Z3_model m = Z3_solver_get_model(Z, v.s); Z3_model_inc_ref(Z, m);
        out->assign(vars.size(), 0);
        for (size_t i = 0; i < vars.size(); ++i)
        {
            Z3_ast t; const Ex* x = mkVar(i, vars[i].w, vars[i].hi); u64 val = 0;
            if (Z3_model_eval(Z, m, v.ints ? toInt(x, true) : toBV(x), true, &t)) { Z3_inc_ref(Z, t); Z3_get_numeral_uint64(Z, t, (uint64_t*)&val); Z3_dec_ref(Z, t); }
            (*out)[i] = val;
        }
        Z3_model_dec_ref(Z, m);
    }
    Z3_solver_pop(Z, v.s, 1);
    return r;
}
static int z3check(const Ex* c, Model* out)
{
    double t = now();
    Z3_lbool r = Z3_L_UNDEF;
    if (!optBV && (pcBad.empty() || !pcBad.back()) && toIntBool(c))
    {
        r = svCheck(svI, c, out); S->intq++;
        if (optCross) { Z3_lbool r2 = svCheck(svB, c, nullptr); if (r != Z3_L_UNDEF && r2 != Z3_L_UNDEF && r != r2) engineError("integer and bit-vector encodings disagree: " + exStr(c)); }
    }
    if (r == Z3_L_UNDEF) { static int once = 0; if (optVerbose && once++ < 5) { fprintf(stderr, "BV-QUERY %s\n", exStr(c, 9).c_str()); for (auto& p : pc) if (!p.bound && !toIntBool(p.e)) fprintf(stderr, "   PC %s\n", exStr(p.e, 9).c_str()); } r = svCheck(svB, c, out); }
    S->queries++; S->qus += (u64)((now() - t) * 1e6);
    if (optVerbose && now() - t > 2) fprintf(stderr, "SLOW %.1fs r=%d ints=%d at %s\n  %s\n", now() - t, int(r), int(!optBV && (pcBad.empty() || !pcBad.back())), locStr().substr(0, 200).c_str(), exStr(c, 14).substr(0, 900).c_str());
    if (r == Z3_L_TRUE)
    {
        S->sat++;
        if (out && !evalB(c, *out)) engineError("solver model does not satisfy the query under evaluation: " + exStr(c));
        return 1;
    }
    if (r == Z3_L_FALSE) { S->unsat++; return 0; }
    S->unknown++; return -1;
}
static void learn(const Ex* c)
{
    // record c as true on this path (and its negation as false)
    const Ex* n = mkNot(c);
    if (!c->known && !isC(c)) { c->known = 1; facts.push_back(c); }
    if (!n->known && !isC(n)) { n->known = 2; facts.push_back(n); }
    if (c->op == E_AND) { learn(c->a); learn(c->b); }
    else if (n->op == E_OR) { learn(mkNot(n->a)); learn(mkNot(n->b)); }
}
static void addCons(const Ex* c) { pcAdd({c, 0, false}); learn(c); }

[[noreturn]] static void endPath();
static bool violation(const std::string& kind, const std::string& msg, const Model& m);

static u64 unknowns = 0;
static bool decide(const Ex* c)
{
    if (isC(c)) return c->k;
    if (c->known) { S->syntactic++; return c->known == 1; }
    bool hasT = false, hasF = false;
    for (auto& m : pool) (evalB(c, m) ? hasT : hasF) = true;
    Model mm;
    if (!hasT || !hasF)
    {
        const Ex* q = hasT ? mkNot(c) : c;
        int r = z3check(q, &mm);
        if (r == 0) { bool v = hasT; learn(v ? c : mkNot(c)); return v; }
        if (r < 0) { S->killed++; endPath(); }
        pool.push_back(mm);
    }
    else S->poolhits++;
    // both feasible
    S->forks++;
    Ckpt* k = new Ckpt();
    k->R = R; k->FR = FR; k->allocaStk = allocaStk; k->excs = excs; k->caughtStk = caughtStk; k->steps = stepsPath; k->nvars = vars.size(); k->ninputs = inputs.size(); k->nobs = obsv.size(); k->nfacts = facts.size(); k->jpos = journal.size(); k->jd = jdata.size(); k->npc = pc.size(); k->nobj = objs.size(); k->bump = bump; k->cons = mkNot(c); k->given = false; k->leak = leakCheck; k->atexits = atexits;
    std::vector<Model> tp;
    for (auto& m : pool) { if (evalB(c, m)) tp.push_back(std::move(m)); else k->pool.push_back(std::move(m)); }
    pool.swap(tp);
    if (pool.size() > 10) pool.resize(10);
    if (k->pool.size() > 10) k->pool.resize(10);
    cks.push_back(k); ckObjs = objs.size();
    if (cks.size() > S->maxdepth) S->maxdepth = cks.size();
    addCons(c);
    return true;
}
static void restore(Ckpt* k)
{
    undoTo(k->jpos, k->jd, k->nobj, k->bump);
    R.swap(k->R); FR.swap(k->FR); allocaStk.swap(k->allocaStk); excs.swap(k->excs); caughtStk.swap(k->caughtStk); stepsPath = k->steps;
    vars.resize(k->nvars); inputs.resize(k->ninputs); inputNames.resize(k->ninputs); obsv.resize(k->nobs); obsw.resize(k->nobs); leakCheck = k->leak; atexits.swap(k->atexits);
    while (facts.size() > k->nfacts) { facts.back()->known = 0; facts.pop_back(); }
    pool.swap(k->pool);
}
// pops one checkpoint; returns true if there is a path to continue
static bool backtrack()
{
    while (!cks.empty())
    {
        Ckpt* k = cks.back(); cks.pop_back();
        pcPop(k->npc);
        ckObjs = cks.empty() ? 0 : cks.back()->nobj;
        if (cks.empty()) ckObjs = 0;
        if (k->given) { delete k; continue; }
        // journaling threshold must be that of the parent checkpoint while undoing
        const Ex* c = k->cons;
        restore(k);
        ckObjs = cks.empty() ? 0 : cks.back()->nobj;
        addCons(c);
        delete k;
        return true;
    }
    return false;
}

static bool isChild = false; static pid_t mainPid; static bool atexitDone = false;
static bool maybeGive()
{
    if (cks.empty() || S->live.load() >= (u64)optProcs) return false;
    // oldest not-given checkpoint
    size_t i = 0; while (i < cks.size() && cks[i]->given) ++i;
    if (i >= cks.size()) return false;
    u64 l = S->live.fetch_add(1);
    if (l >= (u64)optProcs) { S->live--; return false; }
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { S->live--; return false; }
    if (p == 0)
    {
        isChild = true; S->spawned++;
        while (cks.size() > i + 1) { size_t n = cks.back()->npc; delete cks.back(); cks.pop_back(); pcPop(n); }
        for (size_t j = 0; j < i; ++j) cks[j]->given = true;
        rng ^= (u64)getpid() * 0x9E3779B97F4A7C15ull; rng = rng ? rng : 1;
        if (!backtrack()) { S->live--; _exit(0); }
        return true;
    }
    cks[i]->given = true;
    return false;
}

[[noreturn]] static void endPath() { throw PathEnd{}; }

static std::string inputsText(const Model& m)
{
    std::string s = "harness " + optHarness + "\n";
    for (auto& p : optParams) s += "param " + p.first + " " + std::to_string(p.second) + "\n";
    for (size_t i = 0; i < inputs.size(); ++i)
    {
        i64 v;
        if (inputs[i].first < 0) v = inputs[i].second;
        else { auto& vi = vars[inputs[i].first]; v = vi.base + (i64)((u32)inputs[i].first < m.size() ? m[inputs[i].first] : 0); }
        s += "in " + inputNames[i] + " " + std::to_string(v) + "\n";
    }
    return s;
}
[[noreturn]] static void engineError(const std::string& m)
{
    S->errors++;
    fprintf(stderr, "ENGINE-ERROR %s\n  at %s\n", m.c_str(), locStr().c_str());
    if (FILE* f = fopen((optOut + "/error.txt").c_str(), "a")) { fprintf(f, "%s\n  at %s\n%s\n", m.c_str(), locStr().c_str(), pool.empty() ? "" : inputsText(pool[0]).c_str()); fclose(f); }
    S->stop = 1;
    endPath();
}

// returns true when confirmed by native replay
static bool violation(const std::string& kind, const std::string& msg, const Model& m)
{
    u32 n = S->violSeq++;
    std::string base = optOut + "/cand-" + std::to_string(n);
    std::string in = inputsText(m);
    { std::ofstream f(base + ".replay"); f << in << "# kind " << kind << "\n# message " << msg << "\n# symbolic stack " << locStr() << "\n"; }
    bool ok = true; std::string why = "replay disabled";
    if (!optReplay.empty())
    {
        std::string cmd = "timeout -k 2 30 " + optReplay + " " + base + ".replay >" + base + ".log 2>&1";
        int rc = system(cmd.c_str());
        int ex = WIFEXITED(rc) ? WEXITSTATUS(rc) : 255;
        ok = ex != 0; why = "native exit " + std::to_string(ex);
    }
    fprintf(stderr, "CANDIDATE %s: %s [%s] %s\n  at %s\n", kind.c_str(), msg.c_str(), ok ? "CONFIRMED" : "UNCONFIRMED", why.c_str(), locStr().c_str());
    if (ok)
    {
        S->confirmed++; S->stop = 1;
        std::string fin = optOut + "/confirmed-" + std::to_string(n) + ".replay";
        rename((base + ".replay").c_str(), fin.c_str()); rename((base + ".log").c_str(), (optOut + "/confirmed-" + std::to_string(n) + ".log").c_str());
    }
    else { S->unconfirmed++; if (S->unconfirmed > 20) S->stop = 1; }
    return ok;
}
[[noreturn]] static void fail(const std::string& kind, const std::string& msg)
{
    if (!mainPhase) engineError("failure before the harness: " + kind + ": " + msg);
    violation(kind, msg, pool[0]);
    S->killed++;
    endPath();
}

//---------------------------------------------------------------- values
static inline Val cv(u64 v) { Val r; r.c = v; return r; }
static inline Val ev(const Ex* e) { Val r; if (e->op == E_CONST && e->w <= 64) { r.c = e->k; } else r.e = e; return r; }
static inline const Ex* X(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static u64 concretize(const Val& v, unsigned w)
{
    if (!v.e) return v.c;
    for (;;) { u64 k = evalEx(v.e, pool[0]); if (decide(mkBin(E_EQ, v.e, mkConst(k, w)))) return k; }
}

static Obj* access(u64 a, u64 n, bool wr, const char* what)
{
    Obj* o = findObj(a);
    if (!o || a < o->base || a + n > o->base + o->size)
    {
        if (n == 0) return nullptr;
        char b[200];
        if (a < 4096) snprintf(b, sizeof b, "%s of %llu bytes through a null pointer (0x%llx)", what, (unsigned long long)n, (unsigned long long)a);
        else { Obj* near = o; for (u64 d = 0; !near && d < 256; d += 16) near = findObj(a - d);
            snprintf(b, sizeof b, "%s of %llu bytes outside any live object (near object of size %lld, offset %lld)", what, (unsigned long long)n, near ? (long long)near->size : -1LL, near ? (long long)(a - near->base) : 0LL); }
        fail("memory", b);
    }
    if (!o->alive) { if (n == 0) return nullptr; fail("memory", std::string(what) + (o->kind == K_STACK ? " of a dead stack object" : " of freed memory")); }
    if (wr && o->ro) fail("memory", "write to read-only memory");
    if (o->kind == K_FUNC) fail("memory", "data access to a function address");
    return o;
}
static Val loadV(Obj* o, u64 off, unsigned w)
{
    unsigned n = (w + 7) / 8; const u8* p = o->data + off;
    if (o->sym)
    {
        SymB* s = o->sym + off; bool any = false;
        for (unsigned i = 0; i < n; i++) if (s[i].e) { any = true; break; }
        if (any)
        {
            bool whole = s[0].e && s[0].e->w == n * 8 && s[0].idx == 0;
            if (whole) for (unsigned i = 1; i < n; i++) if (s[i].e != s[0].e || s[i].idx != i) { whole = false; break; }
            const Ex* r;
            if (whole) r = s[0].e;
            else
            {
                r = nullptr;
                for (int i = (int)n - 1; i >= 0; --i)
                {
                    const Ex* b;
                    if (s[i].e) { const Ex* e = s[i].e; unsigned lo = s[i].idx * 8; if (lo + 8 <= e->w) b = mkExtract(e, lo, 8); else b = mkZext(mkExtract(e, lo, e->w - lo), 8); }
                    else b = mkConst(p[i], 8);
                    r = r ? mkConcat(r, b) : b;
                }
            }
            if (w < n * 8) r = mkExtract(r, 0, w);
            return ev(r);
        }
    }
    if (n <= 8) { u64 v = 0; memcpy(&v, p, n); return cv(v & maskw(w)); }
    // wide constant
    const Ex* r = nullptr;
    for (int i = (int)n; i > 0;) { int t = (i % 8) ? i % 8 : 8; u64 v = 0; memcpy(&v, p + i - t, t); const Ex* x = mkConst(v, t * 8); r = r ? mkRaw(E_CONCAT, r->w + x->w, r, x, nullptr, 0) : x; i -= t; }
    Val q; q.e = r; return q;
}
static void ensureSym(Obj* o) { if (!o->sym) o->sym = (SymB*)calloc(o->size ? o->size : 1, sizeof(SymB)); }
static void storeV(Obj* o, u64 off, unsigned w, const Val& v)
{
    unsigned n = (w + 7) / 8;
    touch(o, off, n);
    if (!v.e)
    {
        memcpy(o->data + off, &v.c, n);
        if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i].e = nullptr;
        return;
    }
    ensureSym(o);
    const Ex* e = v.e;
    if (w != n * 8) e = mkZext(e, n * 8);
    if (w > 64)
    {
        for (unsigned i = 0; i < n; i++)
        {
            const Ex* b = mkExtract(e, i * 8, 8);
            if (isC(b)) { o->sym[off + i].e = nullptr; o->data[off + i] = b->k; } else { o->sym[off + i].e = b; o->sym[off + i].idx = 0; }
        }
        return;
    }
    for (unsigned i = 0; i < n; i++) { o->sym[off + i].e = e; o->sym[off + i].idx = i; }
}
static void copyMem(u64 d, u64 s, u64 n)
{
    if (!n) return;
    Obj* so = access(s, n, false, "copy read"); Obj* dо = access(d, n, true, "copy write");
    u64 soff = s - so->base, doff = d - dо->base;
    touch(dо, doff, n);
    memmove(dо->data + doff, so->data + soff, n);
    if (so->sym)
    {
        bool any = false; for (u64 i = 0; i < n; i++) if (so->sym[soff + i].e) { any = true; break; }
        if (any || dо->sym) { ensureSym(dо); memmove((void*)(dо->sym + doff), so->sym + soff, n * sizeof(SymB)); }
    }
    else if (dо->sym) memset((void*)(dо->sym + doff), 0, n * sizeof(SymB));
}
static void setMem(u64 d, const Val& v, u64 n)
{
    if (!n) return;
    Obj* o = access(d, n, true, "memset"); u64 off = d - o->base;
    touch(o, off, n);
    if (!v.e) { memset(o->data + off, (int)v.c, n); if (o->sym) memset((void*)(o->sym + off), 0, n * sizeof(SymB)); }
    else { ensureSym(o); for (u64 i = 0; i < n; i++) { o->sym[off + i].e = v.e; o->sym[off + i].idx = 0; } }
}

//---------------------------------------------------------------- decoding
static void flatten(Type* t, std::vector<u8>& w, std::vector<u32>* offs = nullptr, u32 base = 0)
{
    if (t->isVoidTy()) return;
    if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) flatten(st->getElementType(i), w, offs, base + (u32)sl->getElementOffset(i)); return; }
    if (auto* at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); ++i) flatten(at->getElementType(), w, offs, base + (u32)(i * es)); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { u64 es = (DL->getTypeSizeInBits(vt->getElementType()) + 7) / 8; for (unsigned i = 0; i < vt->getNumElements(); ++i) flatten(vt->getElementType(), w, offs, base + (u32)(i * es)); return; }
    unsigned n;
    if (t->isIntegerTy()) n = t->getIntegerBitWidth();
    else if (t->isPointerTy()) n = 64;
    else if (t->isFloatTy()) n = 32;
    else if (t->isDoubleTy()) n = 64;
    else if (t->isX86_FP80Ty()) n = 80;
    else n = 0;
    w.push_back(n); if (offs) offs->push_back(base);
}
static unsigned nflat(Type* t) { std::vector<u8> w; flatten(t, w); return w.size(); }

static FnInfo* getFn(Function* f);
static u64 globalAddr(GlobalValue* g);

static void constVals(Constant* c, std::vector<Val>& out);
static Val constScalar(Constant* c)
{
    std::vector<Val> v; constVals(c, v); return v.at(0);
}
static void constVals(Constant* c, std::vector<Val>& out)
{
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        unsigned w = ci->getBitWidth();
        if (w <= 64) out.push_back(cv(ci->getZExtValue()));
        else { Val v; const APInt& a = ci->getValue(); const Ex* r = nullptr; for (int i = (w + 63) / 64 - 1; i >= 0; --i) { unsigned ww = std::min(64u, w - i * 64); const Ex* x = mkConst(a.getRawData()[i], ww); r = r ? mkRaw(E_CONCAT, r->w + ww, r, x, nullptr, 0) : x; } v.e = r; out.push_back(v); }
        return;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); out.push_back(cv(b.getBitWidth() <= 64 ? b.getZExtValue() : b.getRawData()[0])); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { unsigned n = nflat(c->getType()); std::vector<u8> w; flatten(c->getType(), w); for (unsigned i = 0; i < n; i++) { if (w[i] > 64) { Val v; v.e = mkRaw(E_ZEXT, w[i], mkConst(0, 1), nullptr, nullptr, 0); out.push_back(v); } else out.push_back(cv(0)); } return; }
    if (auto* gv = dyn_cast<GlobalValue>(c)) { out.push_back(cv(globalAddr(gv))); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); ++i) constVals(cast<Constant>(ca->getOperand(i)), out); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) constVals(cd->getElementAsConstant(i), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        switch (ce->getOpcode())
        {
            case Instruction::GetElementPtr: { u64 b = constScalar(ce->getOperand(0)).c; APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break; out.push_back(cv(b + off.getZExtValue())); return; }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: out.push_back(constScalar(ce->getOperand(0))); return;
            case Instruction::Sub: { u64 w = ce->getType()->getIntegerBitWidth(); out.push_back(cv((constScalar(ce->getOperand(0)).c - constScalar(ce->getOperand(1)).c) & maskw(w))); return; }
            case Instruction::Add: { u64 w = ce->getType()->getIntegerBitWidth(); out.push_back(cv((constScalar(ce->getOperand(0)).c + constScalar(ce->getOperand(1)).c) & maskw(w))); return; }
            case Instruction::Trunc: { u64 w = ce->getType()->getIntegerBitWidth(); out.push_back(cv(constScalar(ce->getOperand(0)).c & maskw(w))); return; }
            case Instruction::ICmp: { auto p = ce->getPredicate(); u64 a = constScalar(ce->getOperand(0)).c, b = constScalar(ce->getOperand(1)).c; bool r = p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : p == CmpInst::ICMP_ULT ? a < b : p == CmpInst::ICMP_UGT ? a > b : false; out.push_back(cv(r)); return; }
            default: break;
        }
        std::string s; raw_string_ostream os(s); ce->print(os); engineError("constant expression " + s);
    }
    std::string s; raw_string_ostream os(s); c->print(os); engineError("constant " + s);
}
static u64 globalAddr(GlobalValue* g)
{
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    if (auto* f = dyn_cast<Function>(g)) { Obj* o = newObj(16, K_FUNC); gaddr[g] = o->base; FnInfo* fi = getFn(f); fi->addr = o->base; addrFn[o->base] = fi; return o->base; }
    if (auto* al = dyn_cast<GlobalAlias>(g)) { u64 a = constScalar(al->getAliasee()).c; gaddr[g] = a; return a; }
    auto* gv = dyn_cast<GlobalVariable>(g);
    if (!gv) engineError("global " + g->getName().str());
    u64 sz = gv->getValueType()->isSized() ? DL->getTypeAllocSize(gv->getValueType()).getFixedValue() : 8;
    if (gv->isDeclaration()) sz = std::max<u64>(sz, 256);
    Obj* o = newObj(sz, K_GLOBAL, gv->getAlign() ? gv->getAlign()->value() : 16);
    o->premain = true;
    gaddr[g] = o->base; addrGV[o->base] = gv;
    if (gv->getName() == "__libc_single_threaded") o->data[0] = 1;
    return o->base;
}
static void writeConst(Obj* o, u64 off, Constant* c)
{
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    std::vector<Val> v; constVals(c, v); std::vector<u8> w; std::vector<u32> offs; flatten(c->getType(), w, &offs);
    for (size_t i = 0; i < v.size(); i++) storeV(o, off + offs[i], w[i], v[i]);
}

static std::unordered_map<std::string, int> builtinIds;
enum { B_NONE = -1,
    B_SYINT = 1, B_ASSUME, B_ASSERT, B_REACH, B_PARAM, B_OBS, B_CONCRETE, B_NOLEAK, B_SYMBYTES, B_ISSYM, B_DUMP,
    B_NEW, B_DELETE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEWAL,
    B_MEMCPY, B_MEMSET, B_MEMCMP, B_MEMCHR, B_STRLEN, B_STRCMP,
    B_ABORT, B_ASSERTFAIL, B_GLASSERT, B_EXIT, B_TERMINATE, B_PUREVIRT,
    B_ALLOCEXC, B_FREEEXC, B_THROW, B_BEGINCATCH, B_ENDCATCH, B_RETHROW, B_GETEXCPTR,
    B_NOP0, B_NOP, B_RETARG0, B_EMPTYSTR, B_GUARDACQ, B_MATH1, B_MATH2, B_ATEXIT,
    // intrinsics
    BI_NOP = 200, BI_MEMSET, BI_UMAX, BI_UMIN, BI_SMAX, BI_SMIN, BI_ABS, BI_CTPOP, BI_CTLZ, BI_CTTZ, BI_BSWAP, BI_USUBSAT, BI_UADDSAT, BI_UADDO, BI_USUBO, BI_UMULO, BI_SADDO, BI_SSUBO, BI_SMULO, BI_FSHL, BI_FSHR, BI_TRAP, BI_TYPEID, BI_OBJSIZE, BI_ISCONST, BI_RETARG0, BI_FABS, BI_FMIN, BI_FMAX, BI_FMULADD };
static int intrinsicId(Function* f)
{
    switch (f->getIntrinsicID())
    {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY;
        case Intrinsic::memset: return BI_MEMSET;
        case Intrinsic::umax: return BI_UMAX; case Intrinsic::umin: return BI_UMIN; case Intrinsic::smax: return BI_SMAX; case Intrinsic::smin: return BI_SMIN; case Intrinsic::abs: return BI_ABS;
        case Intrinsic::ctpop: return BI_CTPOP; case Intrinsic::ctlz: return BI_CTLZ; case Intrinsic::cttz: return BI_CTTZ; case Intrinsic::bswap: return BI_BSWAP;
        case Intrinsic::usub_sat: return BI_USUBSAT; case Intrinsic::uadd_sat: return BI_UADDSAT;
        case Intrinsic::uadd_with_overflow: return BI_UADDO; case Intrinsic::usub_with_overflow: return BI_USUBO; case Intrinsic::umul_with_overflow: return BI_UMULO;
        case Intrinsic::sadd_with_overflow: return BI_SADDO; case Intrinsic::ssub_with_overflow: return BI_SSUBO; case Intrinsic::smul_with_overflow: return BI_SMULO;
        case Intrinsic::fshl: return BI_FSHL; case Intrinsic::fshr: return BI_FSHR;
        case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return BI_TRAP;
        case Intrinsic::eh_typeid_for: return BI_TYPEID;
        case Intrinsic::objectsize: return BI_OBJSIZE; case Intrinsic::is_constant: return BI_ISCONST;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: case Intrinsic::ptrmask: return BI_RETARG0;
        case Intrinsic::fabs: return BI_FABS; case Intrinsic::minnum: return BI_FMIN; case Intrinsic::maxnum: return BI_FMAX; case Intrinsic::fmuladd: return BI_FMULADD;
        case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::log: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::exp: case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: return B_MATH1;
        case Intrinsic::pow: return B_MATH2;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect: return BI_NOP;
        default: return B_NONE;
    }
}
static bool startsWith(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
static int builtinFor(const std::string& n)
{
    static std::unordered_map<std::string, int> t = {
        {"sy_int", B_SYINT}, {"sy_assume", B_ASSUME}, {"sy_assert_", B_ASSERT}, {"sy_reach", B_REACH}, {"sy_param", B_PARAM}, {"sy_obs", B_OBS}, {"sy_concrete", B_CONCRETE}, {"sy_noleak", B_NOLEAK},
        {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW}, {"_ZnwmSt11align_val_t", B_NEWAL}, {"_ZnamSt11align_val_t", B_NEWAL},
        {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdaPvm", B_DELETE}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE}, {"_ZdaPvSt11align_val_t", B_DELETE}, {"_ZdaPvmSt11align_val_t", B_DELETE},
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"memchr", B_MEMCHR}, {"strlen", B_STRLEN}, {"strcmp", B_STRCMP},
        {"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_GLASSERT}, {"exit", B_EXIT}, {"_ZSt9terminatev", B_TERMINATE}, {"__clang_call_terminate", B_TERMINATE}, {"__cxa_pure_virtual", B_PUREVIRT}, {"__cxa_deleted_virtual", B_PUREVIRT}, {"__cxa_call_unexpected", B_TERMINATE},
        {"__cxa_allocate_exception", B_ALLOCEXC}, {"__cxa_free_exception", B_FREEEXC}, {"__cxa_throw", B_THROW}, {"__cxa_begin_catch", B_BEGINCATCH}, {"__cxa_end_catch", B_ENDCATCH}, {"__cxa_rethrow", B_RETHROW}, {"__cxa_get_exception_ptr", B_GETEXCPTR},
        {"__cxa_atexit", B_ATEXIT}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_NOP}, {"__cxa_guard_abort", B_NOP}, {"__cxa_thread_atexit", B_NOP0}, {"_ZSt18uncaught_exceptionsv", B_NOP0}, {"_ZSt18uncaught_exceptionv", B_NOP0},
        {"puts", B_NOP0}, {"printf", B_NOP0}, {"putchar", B_NOP0}, {"fprintf", B_NOP0}, {"fputs", B_NOP0}, {"fwrite", B_NOP0}, {"fflush", B_NOP0},
        {"sqrt", B_MATH1}, {"floor", B_MATH1}, {"ceil", B_MATH1}, {"log", B_MATH1}, {"log2", B_MATH1}, {"log10", B_MATH1}, {"exp", B_MATH1}, {"round", B_MATH1}, {"trunc", B_MATH1}, {"sqrtf", B_MATH1}, {"floorf", B_MATH1}, {"ceilf", B_MATH1}, {"logf", B_MATH1}, {"log2f", B_MATH1}, {"log10f", B_MATH1}, {"expf", B_MATH1}, {"roundf", B_MATH1}, {"truncf", B_MATH1}, {"pow", B_MATH2}, {"powf", B_MATH2},
    };
    auto it = t.find(n); if (it != t.end()) return it->second;
    return B_NONE;
}
// stream formatting and standard exception objects are stubs: they carry no
// information a property depends on.
static int stubFor(const std::string& n)
{
    static const char* strm[] = {"_ZNKRSt7__cxx1119basic_ostringstream", "_ZNOSt7__cxx1119basic_ostringstream", "_ZNKRSt7__cxx1118basic_stringstream", "_ZNKRSt7__cxx1115basic_stringbuf", "_ZNOSt7__cxx1115basic_stringbuf", "_ZNSo", "_ZStls", "_ZSt4endl", "_ZSt5flush", "_ZSt16__ostream_insert", "_ZNKSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1118basic_stringstream", "_ZNKSt7__cxx1118basic_stringstream", "_ZNSt8ios_base", "_ZNKSt8ios_base", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZNSt6locale", "_ZNKSt6locale", "_ZNSt15basic_streambuf", "_ZNSt7__cxx1115basic_stringbuf", "_ZNKSt7__cxx1115basic_stringbuf", "_ZSt9use_facet", "_ZNSi", "_ZNKSi"};
    for (auto* p : strm) if (startsWith(n, p))
    {
        if (n.find("3strEv") != std::string::npos) return B_EMPTYSTR;
        return B_RETARG0;
    }
    if (startsWith(n, "_ZSt15__try_use_facet")) return B_NOP0;
    static const char* exc[] = {"_ZNSt12out_of_range", "_ZNSt16invalid_argument", "_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNSt12length_error", "_ZNSt12domain_error", "_ZNSt11range_error", "_ZNSt14overflow_error", "_ZNSt9exception", "_ZNSt9bad_alloc", "_ZNSt8bad_cast", "_ZNSt20bad_array_new_length", "_ZNSt17bad_function_call", "_ZNSt15underflow_error"};
    for (auto* p : exc) if (startsWith(n, p)) return B_RETARG0;
    return B_NONE;
}
static bool prepIo = false; // keep the bodies of the stream templates
static bool stubPrefixBody(const std::string& n)
{
    if (prepIo)
    {
        static const char* keep[] = {"_ZNSo", "_ZNSi", "_ZNKSi", "_ZNSd", "_ZNSt7__cxx11", "_ZNKSt7__cxx11", "_ZNKRSt7__cxx11", "_ZNOSt7__cxx11", "_ZNSt8ios_base", "_ZNKSt8ios_base", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZNSt15basic_streambuf"};
        if (!startsWith(n, "_ZNSolsE") && !startsWith(n, "_ZNSo9_M_insert") && !startsWith(n, "_ZNSirsE")) for (auto* p : keep) if (startsWith(n, p)) return false;
    }
    // bodies removed before optimisation ("sx prep")
    if (stubFor(n) != B_NONE) return true;
    return false;
}

static FnInfo* getFn(Function* f)
{
    auto it = fnMap.find(f); if (it != fnMap.end()) return it->second;
    FnInfo* fi = new FnInfo(); fi->f = f; fi->name = f->getName().str(); fi->idx = fns.size(); fi->isDecl = f->isDeclaration(); fi->nounwind = f->doesNotThrow();
    flatten(f->getReturnType(), fi->retw);
    fns.push_back(fi); fnMap[f] = fi;
    if (f->isIntrinsic()) fi->builtin = intrinsicId(f);
    else
    {
        int b = builtinFor(fi->name);
        if (b != B_NONE && (fi->isDecl || b < B_MEMCPY || fi->name == "__clang_call_terminate")) fi->builtin = b;
        else if (fi->isDecl) fi->builtin = stubFor(fi->name);
    }
    return fi;
}

static void decodeFn(FnInfo* fi)
{
    Function* f = fi->f; fi->decoded = true;
    std::unordered_map<const Value*, int> reg; int n = 0;
    std::unordered_map<const Value*, int> kpool;
    auto alloc = [&](const Value* v) { int r = n; reg[v] = r; n += std::max(1u, nflat(v->getType())); return r; };
    for (auto& a : f->args()) alloc(&a);
    fi->nargregs = n;
    for (auto& bb : *f) for (auto& in : bb) if (!in.getType()->isVoidTy()) alloc(&in);
    auto opnd = [&](const Value* v) -> int {
        if (auto* c = dyn_cast<Constant>(v))
        {
            auto it = kpool.find(v); if (it != kpool.end()) return it->second;
            int k = ~(int)fi->K.size(); std::vector<Val> vs; constVals(const_cast<Constant*>(c), vs); if (vs.empty()) vs.push_back(cv(0));
            for (auto& x : vs) fi->K.push_back(x);
            kpool[v] = k; return k;
        }
        if (isa<MetadataAsValue>(v)) return ~0;
        return reg.at(v);
    };
    auto sub = [](int o, int i) { return o >= 0 ? o + i : ~(~o + i); };
    fi->K.push_back(cv(0));
    std::unordered_map<const BasicBlock*, size_t> bbStart;
    struct Fix { Edge* e; const BasicBlock* to; };
    std::vector<Fix> fixes;
    auto mkEdge = [&](const BasicBlock* from, const BasicBlock* to) {
        Edge* e = new Edge();
        for (auto& phi : to->phis())
        {
            int d = reg.at(&phi); unsigned m = nflat(phi.getType()); int s = opnd(phi.getIncomingValueForBlock(from));
            for (unsigned i = 0; i < m; i++) e->phis.push_back({d + (int)i, sub(s, i)});
        }
        fixes.push_back({e, to}); return e;
    };
    auto wid = [&](const Value* v) -> u8 { std::vector<u8> w; flatten(v->getType(), w); return w.empty() ? 0 : w[0]; };
    for (auto& bb : *f)
    {
        bbStart[&bb] = fi->code.size();
        for (auto& in : bb)
        {
            if (isa<PHINode>(in)) continue;
            Inst I; memset((void*)&I, 0, sizeof I); I.li = &in; I.op = I_UNSUPPORTED; I.dst = in.getType()->isVoidTy() ? -1 : reg.at(&in); I.w = in.getType()->isVoidTy() ? 0 : wid(&in);
            bool vec = in.getType()->isVectorTy() || (in.getNumOperands() && in.getOperand(0)->getType()->isVectorTy());
            auto pushv = [&](Inst x) { fi->code.push_back(x); };
            if (auto* bo = dyn_cast<BinaryOperator>(&in))
            {
                static const std::map<unsigned, EOp> m = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}, {Instruction::FAdd, E_FADD}, {Instruction::FSub, E_FSUB}, {Instruction::FMul, E_FMUL}, {Instruction::FDiv, E_FDIV}};
                auto it = m.find(bo->getOpcode());
                if (it != m.end())
                {
                    I.sub = it->second; I.a = opnd(bo->getOperand(0)); I.b = opnd(bo->getOperand(1));
                    I.op = it->second >= E_FADD ? I_FBIN : (it->second >= E_UDIV && it->second <= E_SREM) ? I_DIV : I_BIN;
                    unsigned cnt = nflat(in.getType());
                    for (unsigned i = 0; i < cnt; i++) { Inst J = I; J.dst += i; J.a = sub(I.a, i); J.b = sub(I.b, i); pushv(J); }
                    continue;
                }
            }
            else if (auto* ic = dyn_cast<ICmpInst>(&in))
            {
                I.op = I_ICMP; I.sub = ic->getPredicate(); I.a = opnd(ic->getOperand(0)); I.b = opnd(ic->getOperand(1)); I.w2 = wid(ic->getOperand(0));
                unsigned cnt = nflat(in.getType());
                for (unsigned i = 0; i < cnt; i++) { Inst J = I; J.dst += i; J.a = sub(I.a, i); J.b = sub(I.b, i); pushv(J); }
                continue;
            }
            else if (auto* fc = dyn_cast<FCmpInst>(&in)) { if (!vec) { I.op = I_FCMP; I.sub = fc->getPredicate(); I.a = opnd(fc->getOperand(0)); I.b = opnd(fc->getOperand(1)); I.w2 = wid(fc->getOperand(0)); } }
            else if (auto* se = dyn_cast<SelectInst>(&in))
            {
                unsigned cnt = nflat(in.getType()); std::vector<u8> w; flatten(in.getType(), w);
                int c = opnd(se->getCondition()), a = opnd(se->getTrueValue()), b = opnd(se->getFalseValue());
                bool vc = se->getCondition()->getType()->isVectorTy();
                bool ptr = in.getType()->isPointerTy();
                for (unsigned i = 0; i < cnt; i++) { Inst J = I; J.op = I_SELECT; J.dst += i; J.w = w[i]; J.a = sub(a, i); J.b = sub(b, i); J.c = vc ? sub(c, i) : c; J.sub = ptr; pushv(J); }
                continue;
            }
            else if (auto* ca = dyn_cast<CastInst>(&in))
            {
                unsigned cnt = nflat(in.getType()); unsigned scnt = nflat(ca->getOperand(0)->getType());
                I.a = opnd(ca->getOperand(0)); I.w2 = wid(ca->getOperand(0));
                switch (ca->getOpcode())
                {
                    case Instruction::ZExt: I.op = I_ZEXT; break; case Instruction::SExt: I.op = I_SEXT; break; case Instruction::Trunc: I.op = I_TRUNC; break;
                    case Instruction::PtrToInt: I.op = I.w < I.w2 ? I_TRUNC : I.w > I.w2 ? I_ZEXT : I_COPY; break; case Instruction::IntToPtr: I.op = I.w > I.w2 ? I_ZEXT : I.w < I.w2 ? I_TRUNC : I_COPY; break;
                    case Instruction::BitCast: I.op = I_COPY; break; case Instruction::AddrSpaceCast: I.op = I_COPY; break;
                    case Instruction::SIToFP: I.op = I_FCAST; I.sub = E_SITOFP; break; case Instruction::UIToFP: I.op = I_FCAST; I.sub = E_UITOFP; break;
                    case Instruction::FPToSI: I.op = I_FCAST; I.sub = E_FPTOSI; break; case Instruction::FPToUI: I.op = I_FCAST; I.sub = E_FPTOUI; break;
                    case Instruction::FPExt: I.op = I_FCAST; I.sub = E_FPEXT; break; case Instruction::FPTrunc: I.op = I_FCAST; I.sub = E_FPTRUNC; break;
                    default: break;
                }
                if (I.w > 128 || I.w2 > 128 || ((I.w == 80 || I.w2 == 80) && I.op == I_FCAST)) I.op = I_UNSUPPORTED;
                if (cnt == scnt) { for (unsigned i = 0; i < cnt; i++) { Inst J = I; J.dst += i; J.a = sub(I.a, i); pushv(J); } continue; }
                // vector <-> scalar bitcasts
                I.op = I_UNSUPPORTED;
                if (ca->getOpcode() == Instruction::BitCast)
                {
                    auto* x = new LsAux(); std::vector<u8> dw, sw; flatten(in.getType(), dw); flatten(ca->getOperand(0)->getType(), sw); x->w = dw; for (auto s : sw) x->off.push_back(s); I.op = I_MULTICOPY; I.sub = 1; I.aux = x;
                }
            }
            else if (auto* ld = dyn_cast<LoadInst>(&in))
            {
                I.a = opnd(ld->getPointerOperand());
                if (nflat(in.getType()) == 1) { I.op = I_LOAD; if (I.w == 0) I.op = I_UNSUPPORTED; }
                else { auto* x = new LsAux(); flatten(in.getType(), x->w, &x->off); I.op = I_LOADAGG; I.aux = x; I.c = DL->getTypeStoreSize(in.getType()); }
            }
            else if (auto* st = dyn_cast<StoreInst>(&in))
            {
                I.a = opnd(st->getPointerOperand()); I.b = opnd(st->getValueOperand()); I.w = wid(st->getValueOperand());
                unsigned cnt = nflat(st->getValueOperand()->getType());
                if (cnt == 1) { I.op = I_STORE; if (I.w == 0) I.op = I_UNSUPPORTED; }
                else { auto* x = new LsAux(); flatten(st->getValueOperand()->getType(), x->w, &x->off); for (unsigned i = 0; i < cnt; i++) x->src.push_back(sub(I.b, i)); I.op = I_STOREAGG; I.aux = x; I.c = DL->getTypeStoreSize(st->getValueOperand()->getType()); }
            }
            else if (auto* al = dyn_cast<AllocaInst>(&in))
            {
                I.op = I_ALLOCA; I.a = opnd(al->getArraySize()); I.b = DL->getTypeAllocSize(al->getAllocatedType()); I.c = al->getAlign().value(); I.w2 = wid(al->getArraySize());
            }
            else if (auto* ge = dyn_cast<GetElementPtrInst>(&in))
            {
                if (!vec)
                {
                    auto* x = new GepAux(); x->off = 0; I.a = opnd(ge->getPointerOperand());
                    for (auto gti = gep_type_begin(ge), e = gep_type_end(ge); gti != e; ++gti)
                    {
                        Value* idx = gti.getOperand();
                        if (StructType* sty = gti.getStructTypeOrNull()) { x->off += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                        u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(idx)) { x->off += (u64)ci->getSExtValue() * sz; continue; }
                        x->idx.push_back({opnd(idx), sz}); x->w.push_back(wid(idx));
                    }
                    I.op = I_GEP; I.aux = x;
                }
            }
            else if (auto* br = dyn_cast<BranchInst>(&in))
            {
                if (br->isUnconditional()) { I.op = I_BR; I.e1 = mkEdge(&bb, br->getSuccessor(0)); }
                else { I.op = I_CBR; I.a = opnd(br->getCondition()); I.e1 = mkEdge(&bb, br->getSuccessor(0)); I.e2 = mkEdge(&bb, br->getSuccessor(1)); }
            }
            else if (auto* sw = dyn_cast<SwitchInst>(&in))
            {
                auto* x = new SwAux(); for (auto& c : sw->cases()) x->cases.push_back({c.getCaseValue()->getZExtValue(), mkEdge(&bb, c.getCaseSuccessor())});
                x->def = mkEdge(&bb, sw->getDefaultDest()); I.op = I_SWITCH; I.aux = x; I.a = opnd(sw->getCondition()); I.w = wid(sw->getCondition());
            }
            else if (auto* rt = dyn_cast<ReturnInst>(&in))
            {
                auto* x = new LsAux(); I.op = I_RET; I.aux = x;
                if (rt->getReturnValue()) { int o = opnd(rt->getReturnValue()); unsigned cnt = nflat(rt->getReturnValue()->getType()); for (unsigned i = 0; i < cnt; i++) x->src.push_back(sub(o, i)); }
            }
            else if (auto* cb = dyn_cast<CallBase>(&in))
            {
                if (isa<DbgInfoIntrinsic>(in)) continue;
                auto* x = new CallAux(); x->cb = cb; I.aux = x; I.op = I_CALL;
                if (cb->isInlineAsm()) { // memory barriers only
                    I.op = I_NOP; pushv(I); if (auto* iv = dyn_cast<InvokeInst>(cb)) { Inst J; memset((void*)&J, 0, sizeof J); J.op = I_BR; J.e1 = mkEdge(&bb, iv->getNormalDest()); J.li = &in; pushv(J); } continue; }
                Value* callee = cb->getCalledOperand()->stripPointerCasts();
                if (auto* al2 = dyn_cast<GlobalAlias>(callee)) callee = al2->getAliaseeObject() ? (Value*)al2->getAliaseeObject() : callee;
                if (auto* cf = dyn_cast<Function>(callee)) { x->fn = getFn(cf); if (cf->isIntrinsic() && x->fn->builtin == BI_NOP) { if (!in.getType()->isVoidTy()) { I.op = I_COPY; I.a = ~0; pushv(I); } continue; } }
                else x->callee = opnd(cb->getCalledOperand());
                for (unsigned i = 0; i < cb->arg_size(); ++i)
                {
                    Value* av = cb->getArgOperand(i);
                    if (av->getType()->isMetadataTy()) continue;
                    int o = opnd(av); std::vector<u8> w; flatten(av->getType(), w);
                    if (cb->isByValArgument(i)) x->byval.push_back({(int)x->args.size(), DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue()});
                    for (size_t j = 0; j < w.size(); ++j) { x->args.push_back(sub(o, j)); x->argw.push_back(w[j]); }
                }
                x->dst = I.dst; flatten(in.getType(), x->retw); x->nret = x->retw.size();
                if (auto* iv = dyn_cast<InvokeInst>(cb)) { x->normal = mkEdge(&bb, iv->getNormalDest()); x->unwind = mkEdge(&bb, iv->getUnwindDest()); }
                // constants in callee position of intrinsics such as typeid.for are plain operands
            }
            else if (auto* lp = dyn_cast<LandingPadInst>(&in))
            {
                auto* x = new LpAux(); x->cleanup = lp->isCleanup();
                for (unsigned i = 0; i < lp->getNumClauses(); ++i)
                {
                    std::vector<u64> ts; Constant* c = lp->getClause(i);
                    if (lp->isCatch(i)) ts.push_back(isa<ConstantPointerNull>(c) ? 0 : constScalar(c).c);
                    else { if (!isa<ConstantAggregateZero>(c) && !isa<UndefValue>(c)) { std::vector<Val> vs; constVals(c, vs); for (auto& v : vs) ts.push_back(v.c); } }
                    x->clauses.push_back({lp->isCatch(i), ts});
                }
                I.op = I_LANDINGPAD; I.aux = x;
            }
            else if (isa<ResumeInst>(in)) { I.op = I_RESUME; I.a = opnd(in.getOperand(0)); }
            else if (isa<UnreachableInst>(in)) I.op = I_UNREACHABLE;
            else if (isa<FreezeInst>(in)) { unsigned cnt = nflat(in.getType()); int o = opnd(in.getOperand(0)); for (unsigned i = 0; i < cnt; i++) { Inst J = I; J.op = I_COPY; J.dst += i; J.a = sub(o, i); pushv(J); } continue; }
            else if (auto* ex = dyn_cast<ExtractValueInst>(&in))
            {
                Type* t = ex->getAggregateOperand()->getType(); unsigned o = 0;
                for (unsigned ix : ex->indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) o += nflat(s->getElementType(i)); t = s->getElementType(ix); } else { auto* a = cast<ArrayType>(t); o += ix * nflat(a->getElementType()); t = a->getElementType(); } }
                unsigned cnt = nflat(t); int src = opnd(ex->getAggregateOperand());
                for (unsigned i = 0; i < cnt; i++) { Inst J = I; J.op = I_COPY; J.dst += i; J.a = sub(src, o + i); pushv(J); }
                continue;
            }
            else if (auto* iv = dyn_cast<InsertValueInst>(&in))
            {
                Type* t = iv->getAggregateOperand()->getType(); unsigned o = 0, tot = nflat(t);
                for (unsigned ix : iv->indices()) { if (auto* s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) o += nflat(s->getElementType(i)); t = s->getElementType(ix); } else { auto* a = cast<ArrayType>(t); o += ix * nflat(a->getElementType()); t = a->getElementType(); } }
                unsigned cnt = nflat(t); int src = opnd(iv->getAggregateOperand()), val = opnd(iv->getInsertedValueOperand());
                for (unsigned i = 0; i < tot; i++) { Inst J = I; J.op = I_COPY; J.dst += i; J.a = (i >= o && i < o + cnt) ? sub(val, i - o) : sub(src, i); pushv(J); }
                continue;
            }
            else if (auto* ee = dyn_cast<ExtractElementInst>(&in))
            {
                if (auto* ci = dyn_cast<ConstantInt>(ee->getIndexOperand())) { I.op = I_COPY; I.a = sub(opnd(ee->getVectorOperand()), ci->getZExtValue()); }
            }
            else if (auto* ie = dyn_cast<InsertElementInst>(&in))
            {
                if (auto* ci = dyn_cast<ConstantInt>(ie->getOperand(2)))
                {
                    unsigned tot = nflat(in.getType()); int src = opnd(ie->getOperand(0)), val = opnd(ie->getOperand(1));
                    for (unsigned i = 0; i < tot; i++) { Inst J = I; J.op = I_COPY; J.dst += i; J.a = i == ci->getZExtValue() ? val : sub(src, i); pushv(J); }
                    continue;
                }
            }
            else if (auto* sv = dyn_cast<ShuffleVectorInst>(&in))
            {
                unsigned n0 = nflat(sv->getOperand(0)->getType()); int a = opnd(sv->getOperand(0)), b = opnd(sv->getOperand(1)); auto mask = sv->getShuffleMask();
                for (unsigned i = 0; i < mask.size(); i++) { Inst J = I; J.op = I_COPY; J.dst += i; J.a = mask[i] < 0 ? ~0 : (unsigned)mask[i] < n0 ? sub(a, mask[i]) : sub(b, mask[i] - n0); pushv(J); }
                continue;
            }
            else if (in.getOpcode() == Instruction::FNeg) { if (!vec) { I.op = I_FNEG; I.a = opnd(in.getOperand(0)); } }
            else if (auto* rm = dyn_cast<AtomicRMWInst>(&in)) { I.op = I_RMW; I.sub = rm->getOperation(); I.a = opnd(rm->getPointerOperand()); I.b = opnd(rm->getValOperand()); }
            else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&in)) { I.op = I_CMPXCHG; I.a = opnd(cx->getPointerOperand()); I.b = opnd(cx->getCompareOperand()); I.c = opnd(cx->getNewValOperand()); I.w = wid(cx->getCompareOperand()); }
            else if (isa<FenceInst>(in)) I.op = I_NOP;
            pushv(I);
        }
    }
    fi->nregs = n;
    for (auto& fx : fixes) fx.e->target = &fi->code[bbStart.at(fx.to)];
}

//---------------------------------------------------------------- interpreter
static inline Val& G(int o) { return o >= 0 ? R[FR.back().base + o] : FR.back().fn->K[~o]; }
static std::vector<Val> phiTmp;
static void takeEdge(Edge* e)
{
    Frame& f = FR.back();
    if (!e->phis.empty())
    {
        phiTmp.clear();
        for (auto& p : e->phis) phiTmp.push_back(p.second >= 0 ? R[f.base + p.second] : f.fn->K[~p.second]);
        for (size_t i = 0; i < e->phis.size(); ++i) R[f.base + e->phis[i].first] = phiTmp[i];
    }
    f.pc = e->target;
}
static void enter(FnInfo* fi, const std::vector<Val>& args, const Inst* call, bool isDtor = false)
{
    if (!fi->decoded) decodeFn(fi);
    S->fcov[fi->idx & 0xffff].store(1, std::memory_order_relaxed);
    if (FR.size() > 3000) fail("stack", "call depth limit exceeded (unbounded recursion)");
    Frame f; f.fn = fi; f.base = R.size(); f.amark = allocaStk.size(); f.call = call; f.isDtor = isDtor; f.pc = fi->code.data();
    R.resize(R.size() + fi->nregs);
    for (size_t i = 0; i < args.size() && i < (size_t)fi->nargregs; ++i) R[f.base + i] = args[i];
    FR.push_back(f);
}
static void popFrame()
{
    Frame& f = FR.back();
    while (allocaStk.size() > f.amark) { Obj* o = objs[allocaStk.back()]; setAlive(o, false); allocaStk.pop_back(); }
    R.resize(f.base); FR.pop_back();
}
static void finishCall(const Inst* ci, const std::vector<Val>& ret)
{
    // current frame is the caller; ci its call instruction
    auto* x = (CallAux*)ci->aux; Frame& f = FR.back();
    for (int i = 0; i < x->nret && i < (int)ret.size(); ++i) R[f.base + x->dst + i] = ret[i];
    if (x->normal) takeEdge(x->normal); else f.pc = ci + 1;
}

// type matching for exceptions
static const char* stdBase(const std::string& n)
{
    static const std::map<std::string, const char*> t = {
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt18bad_variant_access", "_ZTISt9exception"}};
    auto it = t.find(n); return it == t.end() ? nullptr : it->second;
}
static bool tiDerives(const std::string& n, const std::string& target)
{
    if (n == target) return true;
    if (const char* b = stdBase(n)) return tiDerives(b, target);
    GlobalVariable* gv = M->getGlobalVariable(n, true);
    if (!gv || !gv->hasInitializer()) return false;
    auto* cs = dyn_cast<ConstantStruct>(gv->getInitializer()); if (!cs) return false;
    for (unsigned i = 2; i < cs->getNumOperands(); ++i)
        if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (b->getName().starts_with("_ZTI") && tiDerives(b->getName().str(), target)) return true;
    return false;
}
static std::string tiName(u64 a) { auto it = addrGV.find(a); return it == addrGV.end() ? "?" : it->second->getName().str(); }
static bool tiMatch(u64 thrown, u64 caught) { if (caught == 0 || thrown == caught) return true; return tiDerives(tiName(thrown), tiName(caught)); }
static u64 tiSel(u64 a) { return a ? ((a - MBASE) >> 4) & 0x7fffffff : 0x7fffffff; }

// unwinds with the exception object at address a
static void unwind(u64 a)
{
    Exc* ex = nullptr; for (auto& e : excs) if (e.addr == a) ex = &e;
    if (!ex) engineError("unwinding an unknown exception");
    u64 type = ex->type;
    for (;;)
    {
        if (FR.empty()) engineError("unwound past the harness");
        Frame& f = FR.back(); const Inst* ci = f.pc;
        auto* x = ci->op == I_CALL ? (CallAux*)ci->aux : nullptr;
        if (x && x->unwind)
        {
            const Inst* lpI = x->unwind->target; auto* lp = (LpAux*)lpI->aux;
            bool take = lp->cleanup; u64 sel = 0;
            for (auto& c : lp->clauses)
            {
                if (c.first) { if (tiMatch(type, c.second[0])) { take = true; sel = tiSel(c.second[0]); break; } }
                else { bool any = false; for (u64 t : c.second) if (tiMatch(type, t)) any = true; if (!any) { take = true; sel = (u64)(-1) & 0xffffffff; break; } }
            }
            if (take)
            {
                takeEdge(x->unwind);
                R[f.base + lpI->dst] = cv(a); R[f.base + lpI->dst + 1] = cv(sel);
                f.pc = lpI + 1; return;
            }
        }
        if (f.fn->nounwind) fail("exception", "exception " + demangle(tiName(type)) + " leaves a noexcept function " + demangle(f.fn->name));
        if (f.isDtor) fail("exception", "exception thrown by a destructor of an exception object");
        if (FR.size() == 1) fail("exception", "uncaught exception " + demangle(tiName(type)) + " escapes");
        popFrame();
    }
}

static std::string readCStr(u64 a)
{
    std::string s; for (;; ++a) { Obj* o = access(a, 1, false, "string read"); Val v = loadV(o, a - o->base, 8); u64 c = concretize(v, 8); if (!c) return s; s += (char)c; if (s.size() > 4096) return s; }
}
static double fpval(u64 v, unsigned w) { return w == 32 ? bf(v) : bd(v); }
static u64 fpbits(double d, unsigned w) { return w == 32 ? fb((float)d) : db(d); }

static void doFree(const Val& pv, const char* what)
{
    u64 p = concretize(pv, 64); if (!p) return;
    Obj* o = findObj(p);
    if (!o || o->kind != K_HEAP || o->base != p) fail("memory", std::string(what) + " of a pointer that is not a heap block");
    if (!o->alive) fail("memory", std::string("double ") + what);
    setAlive(o, false);
}

static void newVarModels(u64 hi)
{
    // extend every witness with a value for the new variable; diversify
    size_t n = pool.size();
    if (n < 6) { size_t want = 6; for (size_t i = 0; pool.size() < want && n; ++i) pool.push_back(pool[i % n]); }
    for (size_t i = 0; i < pool.size(); ++i)
    {
        u64 v = 0; if (hi) { u64 r = rnd() >> 11; v = hi == ~0ull ? r : r % (hi + 1); if (i == 0) v = 0; else if (i == 1) v = hi; }
        pool[i].resize(vars.size() - 1); pool[i].push_back(v);
    }
}

static void finishPath();

// returns true if the builtin already arranged control flow
static bool builtin(FnInfo* fi, const Inst* ci, CallAux* x, std::vector<Val>& A, std::vector<Val>& ret)
{
    auto W = [&](size_t i) { return (unsigned)x->argw[i]; };
    auto C = [&](size_t i) { return concretize(A[i], W(i)); };
    unsigned rw = x->nret ? x->retw[0] : 0;
    switch (fi->builtin)
    {
        case B_SYINT:
        {
            std::string name = readCStr(C(0)); i64 lo = sextv(C(1), W(1)), hi = sextv(C(2), W(2));
            if (hi < lo) engineError("empty range for " + name);
            if (optConcrete)
            {
                i64 v = inputs.size() < optConcreteVals.size() ? optConcreteVals[inputs.size()] : lo;
                inputs.push_back({-1, v}); inputNames.push_back(name); ret.push_back(cv((u64)v & maskw(rw))); return false;
            }
            auto fx = optFix.find(name);
            if (fx != optFix.end()) { inputs.push_back({-1, fx->second}); inputNames.push_back(name); ret.push_back(cv((u64)fx->second & maskw(rw))); return false; }
            if (lo == hi) { inputs.push_back({-1, lo}); inputNames.push_back(name); ret.push_back(cv((u64)lo & maskw(rw))); return false; }
            u64 span = (u64)(hi - lo); unsigned w = 1; while (w < 64 && (span >> w)) w++;
            VarInfo vi{name, w, span, lo, false, 0}; vars.push_back(vi);
            inputs.push_back({(int)vars.size() - 1, 0}); inputNames.push_back(name);
            const Ex* v = mkVar(vars.size() - 1, w, span);
            newVarModels(span);
            pcAdd({v, span, true});
            const Ex* r = w <= rw ? mkZext(v, rw) : mkExtract(v, 0, rw);
            if (lo) r = mkBin(E_ADD, r, mkConst((u64)lo, rw));
            ret.push_back(ev(r));
            return false;
        }
        case B_CONCRETE: ret.push_back(cv(C(0))); return false;
        case B_ASSUME:
        {
            const Ex* c = mkNot(mkBin(E_EQ, X(A[0], W(0)), mkConst(0, W(0))));
            if (isC(c)) { if (!c->k) { S->killed++; endPath(); } return false; }
            if (c->known == 1) return false;
            if (c->known == 2) { S->killed++; endPath(); }
            std::vector<Model> np; for (auto& m : pool) if (evalB(c, m)) np.push_back(m);
            if (np.empty()) { Model mm; int r = z3check(c, &mm); if (r <= 0) { S->killed++; endPath(); } np.push_back(mm); }
            pool.swap(np); addCons(c); return false;
        }
        case B_ASSERT:
        {
            S->asserts++;
            const Ex* c = mkNot(mkBin(E_EQ, X(A[0], W(0)), mkConst(0, W(0))));
            if (isC(c)) { if (!c->k) fail("assertion", readCStr(C(1))); return false; }
            if (c->known == 1) return false;
            for (auto& m : pool) if (!evalB(c, m)) { std::string msg = readCStr(C(1)); violation("assertion", msg, m); S->killed++; endPath(); }
            Model mm; S->assertQ++; int r = z3check(mkNot(c), &mm);
            if (r == 1) { std::string msg = readCStr(C(1)); violation("assertion", msg, mm); S->killed++; endPath(); }
            if (r < 0) { S->killed++; endPath(); }
            learn(c); return false;
        }
        case B_REACH: { std::string s = readCStr(C(0)); auto it = reachIdx.find(s); if (it != reachIdx.end()) S->reach[it->second] = 1; return false; }
        case B_PARAM: { std::string s = readCStr(C(0)); auto it = optParams.find(s); i64 v; if (it != optParams.end()) v = it->second; else { v = sextv(C(1), W(1)); optParams[s] = v; } ret.push_back(cv((u64)v & maskw(rw))); return false; }
        case B_OBS: obsv.push_back(A[0]); obsw.push_back(W(0)); return false;
        case B_NOLEAK: leakCheck = false; return false;
        case B_NEW: case B_MALLOC: case B_NEWAL:
        {
            u64 n = C(0);
            if (n > (1u << 26)) { if (fi->builtin == B_MALLOC) { ret.push_back(cv(0)); return false; } fail("allocation", "allocation of " + std::to_string(n) + " bytes requested"); }
            Obj* o = newObj(n, K_HEAP, fi->builtin == B_NEWAL ? std::max<u64>(16, C(1)) : 16, 0xbe); ret.push_back(cv(o->base)); return false;
        }
        case B_CALLOC: { u64 n = C(0) * C(1); Obj* o = newObj(n, K_HEAP, 16, 0); ret.push_back(cv(o->base)); return false; }
        case B_REALLOC: { u64 p = C(0), n = C(1); Obj* o = newObj(n, K_HEAP, 16, 0xbe); if (p) { Obj* q = findObj(p); if (!q || q->base != p || !q->alive) fail("memory", "bad realloc"); copyMem(o->base, p, std::min(n, q->size)); setAlive(q, false); } ret.push_back(cv(o->base)); return false; }
        case B_DELETE: doFree(A[0], "delete"); return false;
        case B_FREE: doFree(A[0], "free"); return false;
        case B_MEMCPY: { u64 n = C(2), d = C(0), s = C(1); copyMem(d, s, n); if (x->nret) ret.push_back(cv(d)); return false; }
        case B_MEMSET: case BI_MEMSET: { u64 n = C(2), d = C(0); Val v = A[1]; if (v.e && W(1) > 8) v = ev(mkExtract(v.e, 0, 8)); v.c &= 0xff; setMem(d, v, n); if (x->nret) ret.push_back(cv(d)); return false; }
        case B_MEMCMP:
        {
            u64 n = C(2), a = C(0), b = C(1); if (!n) { ret.push_back(cv(0)); return false; }
            Obj* oa = access(a, n, false, "memcmp read"); Obj* ob = access(b, n, false, "memcmp read");
            const Ex* r = mkConst(0, 32);
            for (i64 i = (i64)n - 1; i >= 0; --i)
            {
                Val va = loadV(oa, a - oa->base + i, 8), vb = loadV(ob, b - ob->base + i, 8);
                if (!va.e && !vb.e) { if (va.c != vb.c) r = mkConst(va.c < vb.c ? (u64)-1 : 1, 32); continue; }
                const Ex *ea = X(va, 8), *eb = X(vb, 8);
                r = mkIte(mkBin(E_EQ, ea, eb), r, mkIte(mkBin(E_ULT, ea, eb), mkConst((u64)-1, 32), mkConst(1, 32)));
            }
            ret.push_back(ev(r)); return false;
        }
        case B_MEMCHR:
        {
            u64 p = C(0), n = C(2); Val c = A[1]; if (c.e) c = ev(mkExtract(c.e, 0, 8)); else c.c &= 0xff;
            for (u64 i = 0; i < n; ++i) { Obj* o = access(p + i, 1, false, "memchr read"); Val v = loadV(o, p + i - o->base, 8); if (decide(mkBin(E_EQ, X(v, 8), X(c, 8)))) { ret.push_back(cv(p + i)); return false; } }
            ret.push_back(cv(0)); return false;
        }
        case B_STRLEN: { u64 p = C(0), n = 0; for (;; ++n) { Obj* o = access(p + n, 1, false, "strlen read"); Val v = loadV(o, p + n - o->base, 8); if (decide(mkBin(E_EQ, X(v, 8), mkConst(0, 8)))) break; } ret.push_back(cv(n)); return false; }
        case B_STRCMP: { u64 a = C(0), b = C(1); for (u64 i = 0;; ++i) { Obj* oa = access(a + i, 1, false, "strcmp read"); Obj* ob = access(b + i, 1, false, "strcmp read"); u64 p = concretize(loadV(oa, a + i - oa->base, 8), 8), q = concretize(loadV(ob, b + i - ob->base, 8), 8); if (p != q) { ret.push_back(cv((p < q ? (u64)-1 : 1) & 0xffffffff)); return false; } if (!p) { ret.push_back(cv(0)); return false; } } }
        case B_ABORT: fail("abort", "abort() called");
        case B_ASSERTFAIL: fail("abort", "assertion of the library failed: " + readCStr(C(0)));
        case B_GLASSERT: fail("abort", "standard library precondition failed: " + readCStr(C(3)));
        case B_EXIT: fail("abort", "exit() called");
        case B_TERMINATE: fail("exception", "std::terminate called");
        case B_PUREVIRT: fail("abort", "pure virtual call");
        case BI_TRAP: fail("abort", "trap");
        case B_ALLOCEXC: { Obj* o = newObj(C(0), K_EXC, 16, 0xbe); ret.push_back(cv(o->base)); return false; }
        case B_FREEEXC: { Obj* o = findObj(C(0)); if (o) setAlive(o, false); return false; }
        case B_THROW: { u64 a = C(0), t = C(1), d = C(2); excs.push_back({a, t, d, 0, 1}); unwind(a); return true; }
        case B_GETEXCPTR: ret.push_back(A[0]); return false;
        case B_BEGINCATCH:
        {
            u64 a = C(0); for (u32 i = 0; i < excs.size(); ++i) if (excs[i].addr == a) { excs[i].handlers++; caughtStk.push_back(i); }
            ret.push_back(cv(a)); return false;
        }
        case B_ENDCATCH:
        {
            if (caughtStk.empty()) return false;
            u32 i = caughtStk.back(); caughtStk.pop_back(); Exc& e = excs[i];
            if (e.handlers < 0) { e.handlers = -e.handlers - 1; if (e.handlers == 0) e.refs = 1; return false; } // rethrown, still in flight
            if (--e.handlers == 0)
            {
                u64 a = e.addr, d = e.dtor; Obj* o = findObj(a); 
                excs.erase(excs.begin() + i); for (auto& c : caughtStk) if (c > i) --c;
                auto fn = addrFn.find(d);
                if (d && fn != addrFn.end() && !fn->second->isDecl)
                {
                    // finish this call, then run the destructor in a frame that returns to the same place
                    enter(fn->second, {cv(a)}, ci, true);
                    return true;
                }
                if (o) setAlive(o, false);
            }
            return false;
        }
        case B_RETHROW:
        {
            if (caughtStk.empty()) fail("exception", "rethrow without an active exception");
            Exc& e = excs[caughtStk.back()]; e.handlers = -e.handlers; u64 a = e.addr; unwind(a); return true;
        }
        case B_ATEXIT: atexits.push_back({C(0), C(1)}); ret.push_back(cv(0)); return false;
        case B_NOP0: if (x->nret) ret.push_back(cv(0)); return false;
        case B_NOP: case BI_NOP: if (x->nret) for (int i = 0; i < x->nret; i++) ret.push_back(cv(0)); return false;
        case B_RETARG0: case BI_RETARG0: if (x->nret) ret.push_back(A.empty() ? cv(0) : A[0]); return false;
        case B_EMPTYSTR:
        {
            u64 p = C(0); Obj* o = access(p, 32, true, "string result"); storeV(o, p - o->base, 64, cv(p + 16)); storeV(o, p - o->base + 8, 64, cv(0)); storeV(o, p - o->base + 16, 8, cv(0)); return false;
        }
        case B_GUARDACQ: { u64 p = C(0); Obj* o = access(p, 1, true, "guard"); Val v = loadV(o, p - o->base, 8); if (v.c) ret.push_back(cv(0)); else { storeV(o, p - o->base, 8, cv(1)); ret.push_back(cv(1)); } return false; }
        case B_MATH1: case B_MATH2:
        {
            unsigned w = W(0); double a = fpval(C(0), w), b = fi->builtin == B_MATH2 ? fpval(C(1), w) : 0, r = 0; std::string n = fi->name;
            auto has = [&](const char* s) { return n.find(s) != std::string::npos; };
            if (fi->builtin == B_MATH2) r = w == 32 ? powf(a, b) : pow(a, b);
            else if (has("sqrt")) r = w == 32 ? sqrtf(a) : sqrt(a); else if (has("floor")) r = floor(a); else if (has("ceil")) r = ceil(a); else if (has("log2")) r = w == 32 ? log2f(a) : log2(a); else if (has("log10")) r = w == 32 ? log10f(a) : log10(a); else if (has("log")) r = w == 32 ? logf(a) : log(a); else if (has("exp")) r = w == 32 ? expf(a) : exp(a); else if (has("round")) r = round(a); else if (has("trunc")) r = trunc(a); else r = nearbyint(a);
            ret.push_back(cv(fpbits(r, w))); return false;
        }
        case BI_UMAX: case BI_UMIN: case BI_SMAX: case BI_SMIN:
        {
            EOp c = (fi->builtin == BI_UMAX || fi->builtin == BI_UMIN) ? E_ULT : E_SLT; bool mx = fi->builtin == BI_UMAX || fi->builtin == BI_SMAX;
            for (int i = 0; i < x->nret; i++) { const Ex *a = X(A[i], W(i)), *b = X(A[i + x->nret], W(i)); const Ex* lt = mkBin(c, a, b); if (optForkSel && !isC(lt)) { bool t = decide(lt); ret.push_back(A[(t == mx) ? i + x->nret : i]); continue; } ret.push_back(ev(mx ? mkIte(lt, b, a) : mkIte(lt, a, b))); }
            return false;
        }
        case BI_ABS: { const Ex* a = X(A[0], rw); ret.push_back(ev(mkIte(mkBin(E_SLT, a, mkConst(0, rw)), mkBin(E_SUB, mkConst(0, rw), a), a))); return false; }
        case BI_CTPOP: ret.push_back(cv(__builtin_popcountll(C(0)))); return false;
        case BI_CTLZ: { u64 v = C(0); ret.push_back(cv(v ? __builtin_clzll(v) - (64 - rw) : rw)); return false; }
        case BI_CTTZ: { u64 v = C(0); ret.push_back(cv(v ? __builtin_ctzll(v) : rw)); return false; }
        case BI_BSWAP: { const Ex* a = X(A[0], rw); const Ex* r = nullptr; for (unsigned i = 0; i < rw; i += 8) { const Ex* b = mkExtract(a, i, 8); r = r ? mkConcat(r, b) : b; } ret.push_back(ev(r)); return false; }
        case BI_USUBSAT: { const Ex *a = X(A[0], rw), *b = X(A[1], rw); ret.push_back(ev(mkIte(mkBin(E_ULT, a, b), mkConst(0, rw), mkBin(E_SUB, a, b)))); return false; }
        case BI_UADDSAT: { const Ex *a = X(A[0], rw), *b = X(A[1], rw); const Ex* s = mkBin(E_ADD, a, b); ret.push_back(ev(mkIte(mkBin(E_ULT, s, a), mkConst(~0ull, rw), s))); return false; }
        case BI_UADDO: { const Ex *a = X(A[0], rw), *b = X(A[1], rw); const Ex* s = mkBin(E_ADD, a, b); ret.push_back(ev(s)); ret.push_back(ev(mkBin(E_ULT, s, a))); return false; }
        case BI_USUBO: { const Ex *a = X(A[0], rw), *b = X(A[1], rw); ret.push_back(ev(mkBin(E_SUB, a, b))); ret.push_back(ev(mkBin(E_ULT, a, b))); return false; }
        case BI_UMULO: { u64 a = C(0), b = C(1); unsigned __int128 p = (unsigned __int128)a * b; ret.push_back(cv((u64)p & maskw(rw))); ret.push_back(cv((p >> rw) != 0)); return false; }
        case BI_SADDO: case BI_SSUBO: case BI_SMULO: { i64 a = sextv(C(0), rw), b = sextv(C(1), rw); __int128 p = fi->builtin == BI_SADDO ? (__int128)a + b : fi->builtin == BI_SSUBO ? (__int128)a - b : (__int128)a * b; ret.push_back(cv((u64)p & maskw(rw))); ret.push_back(cv((__int128)sextv((u64)p, rw) != p)); return false; }
        case BI_FSHL: case BI_FSHR: { u64 s = C(2) % rw; const Ex *a = X(A[0], rw), *b = X(A[1], rw); if (s == 0) { ret.push_back(ev(fi->builtin == BI_FSHL ? a : b)); return false; } u64 l = fi->builtin == BI_FSHL ? s : rw - s; ret.push_back(ev(mkBin(E_OR, mkBin(E_SHL, a, mkConst(l, rw)), mkBin(E_LSHR, b, mkConst(rw - l, rw))))); return false; }
        case BI_TYPEID: ret.push_back(cv(tiSel(C(0)))); return false;
        case BI_OBJSIZE: ret.push_back(cv(~0ull & maskw(rw))); return false;
        case BI_ISCONST: ret.push_back(cv(0)); return false;
        case BI_FABS: { unsigned w = W(0); ret.push_back(ev(mkBin(E_AND, X(A[0], w), mkConst(maskw(w) >> 1, w)))); return false; }
        case BI_FMIN: case BI_FMAX: { unsigned w = W(0); double a = fpval(C(0), w), b = fpval(C(1), w); ret.push_back(cv(fpbits(fi->builtin == BI_FMIN ? fmin(a, b) : fmax(a, b), w))); return false; }
        case BI_FMULADD: { unsigned w = W(0); const Ex* p = mkF(E_FMUL, w, X(A[0], w), X(A[1], w)); ret.push_back(ev(mkF(E_FADD, w, p, X(A[2], w)))); return false; }
        default: engineError("no model for external function " + fi->name);
    }
}

static const Ex* fcmp(unsigned pred, const Ex* a, const Ex* b)
{
    const Ex* uno = mkF(E_FUNO, 1, a, b); auto ord = [&](const Ex* e) { return e; };
    const Ex *eq = mkF(E_FEQ, 1, a, b), *lt = mkF(E_FLT, 1, a, b), *le = mkF(E_FLE, 1, a, b), *gt = mkF(E_FLT, 1, b, a), *ge = mkF(E_FLE, 1, b, a);
    auto O = [&](const Ex* e) { return mkBin(E_OR, uno, e); };
    switch (pred)
    {
        case CmpInst::FCMP_FALSE: return mkConst(0, 1); case CmpInst::FCMP_TRUE: return mkConst(1, 1);
        case CmpInst::FCMP_OEQ: return ord(eq); case CmpInst::FCMP_OLT: return lt; case CmpInst::FCMP_OLE: return le; case CmpInst::FCMP_OGT: return gt; case CmpInst::FCMP_OGE: return ge;
        case CmpInst::FCMP_ONE: return mkBin(E_AND, mkNot(uno), mkNot(eq)); case CmpInst::FCMP_ORD: return mkNot(uno); case CmpInst::FCMP_UNO: return uno;
        case CmpInst::FCMP_UEQ: return O(eq); case CmpInst::FCMP_ULT: return O(lt); case CmpInst::FCMP_ULE: return O(le); case CmpInst::FCMP_UGT: return O(gt); case CmpInst::FCMP_UGE: return O(ge);
        case CmpInst::FCMP_UNE: return mkNot(eq);
        default: return mkConst(0, 1);
    }
}

static void giveSampleAndEnd()
{
    S->paths++;
    S->done++;
    if (stepsPath > S->peakSteps) S->peakSteps = stepsPath;
    // translator-validation samples: inputs of this path with the observed outputs
    u64 k = S->done.load();
    bool take = k <= 8 || (k & (k - 1)) == 0 || (rnd() % (1 + k / 8)) == 0;
    if (take && !pool.empty())
    {
        u32 n = S->sampleSeq.fetch_add(1);
        if (n < optSamples)
        {
            const Model& m = pool[rnd() % pool.size()];
            std::string s = inputsText(m); u64 h = 1469598103934665603ull;
            for (size_t i = 0; i < obsv.size(); ++i) { u64 v = obsv[i].e ? evalEx(obsv[i].e, m) : obsv[i].c; h = (h ^ v) * 1099511628211ull; }
            s += "digest " + std::to_string(h) + " " + std::to_string(obsv.size()) + "\n";
            std::ofstream f(optOut + "/sample-" + std::to_string(n) + ".replay"); f << s;
        }
    }
}

static void run()
{
    std::vector<Val> A, ret;
    for (;;)
    {
        Frame& f = FR.back(); const Inst* I = f.pc;
        ++stepsPath;
        if (stepsPath > optMaxSteps) { if (optConcrete) engineError("step limit"); fail("nontermination", "more than " + std::to_string(optMaxSteps) + " IR steps on one path"); }
        if ((stepsPath & 0xffff) == 0 && S->stop) endPath();
        Val* B = R.data() + f.base; const Val* K = f.fn->K.data();
        #define V(o) ((o) >= 0 ? B[o] : K[~(o)])
        switch (I->op)
        {
            case I_BIN:
            {
                const Val &a = V(I->a), &b = V(I->b);
                if (!a.e && !b.e) {
                    u64 m = maskw(I->w), r;
                    switch (I->sub) { case E_ADD: r = (a.c + b.c) & m; break; case E_SUB: r = (a.c - b.c) & m; break; case E_AND: r = a.c & b.c; break; case E_OR: r = a.c | b.c; break; case E_XOR: r = a.c ^ b.c; break; default: r = evalOp((EOp)I->sub, I->w, I->w, 0, a.c, b.c, 0, I->w); }
                    B[I->dst].c = r; B[I->dst].e = nullptr;
                }
                else B[I->dst] = ev(mkBin((EOp)I->sub, X(a, I->w), X(b, I->w)));
                f.pc = I + 1; break;
            }
            case I_DIV:
            {
                const Val a = V(I->a), b = V(I->b);
                if (decide(mkBin(E_EQ, X(b, I->w), mkConst(0, I->w)))) fail("arithmetic", "division by zero");
                R[FR.back().base + I->dst] = ev(mkBin((EOp)I->sub, X(a, I->w), X(b, I->w))); FR.back().pc = I + 1; break;
            }
            case I_ICMP:
            {
                const Val &a = V(I->a), &b = V(I->b); unsigned w = I->w2;
                if (!a.e && !b.e)
                {
                    bool r; i64 x = sextv(a.c, w), y = sextv(b.c, w);
                    switch (I->sub) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break; case CmpInst::ICMP_SLT: r = x < y; break; case CmpInst::ICMP_SLE: r = x <= y; break; case CmpInst::ICMP_SGT: r = x > y; break; default: r = x >= y; }
                    B[I->dst].c = r; B[I->dst].e = nullptr;
                }
                else
                {
                    const Ex *x = X(a, w), *y = X(b, w), *r;
                    switch (I->sub) { case CmpInst::ICMP_EQ: r = mkBin(E_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkBin(E_EQ, x, y)); break; case CmpInst::ICMP_ULT: r = mkBin(E_ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkNot(mkBin(E_ULT, y, x)); break; case CmpInst::ICMP_UGT: r = mkBin(E_ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkNot(mkBin(E_ULT, x, y)); break; case CmpInst::ICMP_SLT: r = mkBin(E_SLT, x, y); break; case CmpInst::ICMP_SLE: r = mkNot(mkBin(E_SLT, y, x)); break; case CmpInst::ICMP_SGT: r = mkBin(E_SLT, y, x); break; default: r = mkNot(mkBin(E_SLT, x, y)); }
                    if (r->known) B[I->dst] = cv(r->known == 1); else B[I->dst] = ev(r);
                }
                f.pc = I + 1; break;
            }
            case I_FCMP: { const Val &a = V(I->a), &b = V(I->b); B[I->dst] = ev(fcmp(I->sub, X(a, I->w2), X(b, I->w2))); f.pc = I + 1; break; }
            case I_FBIN: { const Val &a = V(I->a), &b = V(I->b); B[I->dst] = ev(mkF((EOp)I->sub, I->w, X(a, I->w), X(b, I->w))); f.pc = I + 1; break; }
            case I_FNEG: { const Val& a = V(I->a); B[I->dst] = ev(mkBin(E_XOR, X(a, I->w), mkConst(1ull << (I->w - 1), I->w))); f.pc = I + 1; break; }
            case I_FCAST: { const Val& a = V(I->a); B[I->dst] = ev(mkF((EOp)I->sub, I->w, X(a, I->w2), nullptr)); f.pc = I + 1; break; }
            case I_SELECT:
            {
                const Val c = V(I->c);
                if (!c.e) { B[I->dst] = c.c ? V(I->a) : V(I->b); f.pc = I + 1; break; }
                if (c.e->known) { B[I->dst] = c.e->known == 1 ? V(I->a) : V(I->b); f.pc = I + 1; break; }
                const Val a = V(I->a), b = V(I->b);
                if ((I->sub || (optForkSel && I->w > 1)) && !(a.c == b.c && a.e == b.e)) { bool t = decide(c.e); R[FR.back().base + I->dst] = t ? a : b; FR.back().pc = I + 1; break; }
                B[I->dst] = ev(mkIte(c.e, X(a, I->w), X(b, I->w))); f.pc = I + 1; break;
            }
            case I_COPY: B[I->dst] = V(I->a); f.pc = I + 1; break;
            case I_ZEXT: { const Val& a = V(I->a); if (!a.e && I->w <= 64) B[I->dst] = a; else B[I->dst] = ev(mkZext(X(a, I->w2), I->w)); f.pc = I + 1; break; }
            case I_SEXT: { const Val& a = V(I->a); if (!a.e && I->w <= 64) B[I->dst] = cv((u64)sextv(a.c, I->w2) & maskw(I->w)); else B[I->dst] = ev(mkSext(X(a, I->w2), I->w)); f.pc = I + 1; break; }
            case I_TRUNC: { const Val& a = V(I->a); if (!a.e) B[I->dst] = cv(a.c & maskw(I->w)); else B[I->dst] = ev(mkExtract(a.e, 0, I->w)); f.pc = I + 1; break; }
            case I_LOAD:
            {
                const Val p = V(I->a); unsigned n = (I->w + 7) / 8;
                u64 a;
                if (p.e)
                {
                    // symbolic address: if every feasible address lies in one live object, read through an ITE chain; otherwise fork
                    u64 k = evalEx(p.e, pool[0]); Obj* o = findObj(k); bool done = false;
                    if (o && o->alive && p.e->lo >= o->base && p.e->hi + n <= o->base + o->size && p.e->hi - p.e->lo <= 4096 && o->kind != K_FUNC)
                    {
                        std::vector<u64> cand; for (u64 q = p.e->lo; q <= p.e->hi; q += n) cand.push_back(q);
                        if ((p.e->hi - p.e->lo) % n == 0 && cand.size() <= 64)
                        {
                            // alignment: the address is assumed to step by n only if the solver agrees
                            const Ex* any = mkConst(0, 1); for (u64 q : cand) any = mkBin(E_OR, any, mkBin(E_EQ, p.e, mkConst(q, 64)));
                            bool al = any->known == 1 || isC(any);
                            if (!al) { bool ok = true; for (auto& m : pool) if (!evalB(any, m)) ok = false; if (ok && z3check(mkNot(any), nullptr) == 0) { al = true; learn(any); } }
                            if (al)
                            {
                                const Ex* r = nullptr;
                                for (u64 q : cand) { const Ex* v = X(loadV(o, q - o->base, I->w), I->w); r = r ? mkIte(mkBin(E_EQ, p.e, mkConst(q, 64)), v, r) : v; }
                                R[FR.back().base + I->dst] = ev(r); FR.back().pc = I + 1; done = true;
                            }
                        }
                    }
                    if (done) break;
                    a = concretize(p, 64);
                }
                else a = p.c;
                Obj* o = access(a, n, false, "read");
                R[FR.back().base + I->dst] = loadV(o, a - o->base, I->w); FR.back().pc = I + 1; break;
            }
            case I_STORE:
            {
                const Val p = V(I->a); u64 a = p.e ? concretize(p, 64) : p.c; unsigned n = (I->w + 7) / 8;
                Obj* o = access(a, n, true, "write"); Frame& ff = FR.back();
                storeV(o, a - o->base, I->w, I->b >= 0 ? R[ff.base + I->b] : ff.fn->K[~I->b]); ff.pc = I + 1; break;
            }
            case I_LOADAGG:
            {
                auto* x = (LsAux*)I->aux; u64 a = concretize(V(I->a), 64); Obj* o = access(a, I->c, false, "read");
                for (size_t i = 0; i < x->w.size(); ++i) R[FR.back().base + I->dst + i] = loadV(o, a - o->base + x->off[i], x->w[i]);
                FR.back().pc = I + 1; break;
            }
            case I_STOREAGG:
            {
                auto* x = (LsAux*)I->aux; u64 a = concretize(V(I->a), 64); Obj* o = access(a, I->c, true, "write"); Frame& ff = FR.back();
                for (size_t i = 0; i < x->w.size(); ++i) storeV(o, a - o->base + x->off[i], x->w[i], x->src[i] >= 0 ? R[ff.base + x->src[i]] : ff.fn->K[~x->src[i]]);
                ff.pc = I + 1; break;
            }
            case I_MULTICOPY: // bitcast between vector and scalar
            {
                auto* x = (LsAux*)I->aux; const Ex* whole = nullptr;
                for (size_t i = 0; i < x->off.size(); ++i) { const Ex* p = X(V(I->a >= 0 ? I->a + (int)i : ~(~I->a + (int)i)), x->off[i]); whole = whole ? mkConcat(p, whole) : p; }
                unsigned lo = 0; for (size_t i = 0; i < x->w.size(); ++i) { Val v; const Ex* p = mkExtract(whole, lo, x->w[i]); v = ev(p); B[I->dst + i] = v; lo += x->w[i]; }
                f.pc = I + 1; break;
            }
            case I_ALLOCA:
            {
                u64 n = concretize(V(I->a), I->w2); Obj* o = newObj(n * (u64)I->b, K_STACK, I->c, 0xAA);
                allocaStk.push_back(o->id); R[FR.back().base + I->dst] = cv(o->base); FR.back().pc = I + 1; break;
            }
            case I_GEP:
            {
                auto* x = (GepAux*)I->aux; const Val& p = V(I->a); bool sym = p.e != nullptr;
                for (auto& i : x->idx) if (V(i.first).e) sym = true;
                if (!sym) { u64 a = p.c + x->off; for (size_t i = 0; i < x->idx.size(); ++i) a += (u64)sextv(V(x->idx[i].first).c, x->w[i]) * x->idx[i].second; B[I->dst] = cv(a); }
                else
                {
                    const Ex* a = mkBin(E_ADD, X(p, 64), mkConst(x->off, 64));
                    for (size_t i = 0; i < x->idx.size(); ++i) a = mkBin(E_ADD, a, mkBin(E_MUL, mkSext(X(V(x->idx[i].first), x->w[i]), 64), mkConst(x->idx[i].second, 64)));
                    B[I->dst] = ev(a);
                }
                f.pc = I + 1; break;
            }
            case I_BR: takeEdge(I->e1); break;
            case I_CBR: { const Val c = V(I->a); bool t = c.e ? decide(c.e) : (c.c & 1); takeEdge(t ? I->e1 : I->e2); break; }
            case I_SWITCH:
            {
                auto* x = (SwAux*)I->aux; const Val c = V(I->a); Edge* e = x->def;
                if (!c.e) { for (auto& k : x->cases) if (k.first == c.c) { e = k.second; break; } }
                else for (auto& k : x->cases) if (decide(mkBin(E_EQ, c.e, mkConst(k.first, I->w)))) { e = k.second; break; }
                takeEdge(e); break;
            }
            case I_CALL:
            {
                auto* x = (CallAux*)I->aux; FnInfo* fi = x->fn;
                if (!fi)
                {
                    u64 a = concretize(V(x->callee), 64); auto it = addrFn.find(a);
                    if (it == addrFn.end()) fail("memory", "call through an invalid function pointer");
                    fi = it->second; B = R.data() + FR.back().base; K = FR.back().fn->K.data();
                }
                A.clear(); ret.clear();
                for (int o : x->args) A.push_back(V(o));
                if (fi->builtin != B_NONE)
                {
                    if (builtin(fi, I, x, A, ret)) break;
                    finishCall(I, ret);
                    break;
                }
                if (fi->isDecl) engineError("no model for external function " + fi->name + " (" + demangle(fi->name) + ")");
                for (auto& bv : x->byval)
                {
                    u64 src = concretize(A[bv.first], 64); Obj* o = newObj(bv.second, K_STACK); copyMem(o->base, src, bv.second); A[bv.first] = cv(o->base); // owned by the callee frame conceptually; freed with the caller frame
                    allocaStk.push_back(o->id);
                }
                enter(fi, A, I); break;
            }
            case I_RET:
            {
                auto* x = (LsAux*)I->aux; ret.clear(); for (int o : x->src) ret.push_back(V(o));
                const Inst* ci = f.call; bool dt = f.isDtor; u64 dobj = dt ? R[f.base].c : 0;
                popFrame();
                if (FR.empty())
                {
                    if (!mainPhase) return;
                    bool entered = false;
                    while (!atexits.empty() && !entered)
                    {
                        auto h = atexits.back(); atexits.pop_back(); auto it = addrFn.find(h.first);
                        if (it != addrFn.end() && !it->second->isDecl) { enter(it->second, {cv(h.second)}, nullptr); entered = true; }
                    }
                    if (entered) break;
                    finishPath();
                }
                if (dt) { (void)dobj; ret.clear(); }
                finishCall(ci, ret); break;
            }
            case I_RESUME: { u64 a = V(I->a).c; /* unwinding continues in the caller */
                if (f.fn->nounwind) fail("exception", "exception leaves a noexcept function " + demangle(f.fn->name));
                if (FR.size() == 1) fail("exception", "uncaught exception escapes"); popFrame(); unwind(a); break; }
            case I_UNREACHABLE: fail("unreachable", "unreachable code executed (undefined behaviour)");
            case I_RMW:
            {
                u64 a = concretize(V(I->a), 64); Obj* o = access(a, (I->w + 7) / 8, true, "atomic rmw"); Val old = loadV(o, a - o->base, I->w); Val v = V(I->b); const Ex *eo = X(old, I->w), *evv = X(v, I->w), *r = nullptr;
                switch (I->sub) { case AtomicRMWInst::Xchg: r = evv; break; case AtomicRMWInst::Add: r = mkBin(E_ADD, eo, evv); break; case AtomicRMWInst::Sub: r = mkBin(E_SUB, eo, evv); break; case AtomicRMWInst::And: r = mkBin(E_AND, eo, evv); break; case AtomicRMWInst::Or: r = mkBin(E_OR, eo, evv); break; case AtomicRMWInst::Xor: r = mkBin(E_XOR, eo, evv); break; default: engineError("atomicrmw"); }
                storeV(o, a - o->base, I->w, ev(r)); R[FR.back().base + I->dst] = old; FR.back().pc = I + 1; break;
            }
            case I_CMPXCHG:
            {
                u64 a = concretize(V(I->a), 64); Obj* o = access(a, (I->w + 7) / 8, true, "cmpxchg"); Val old = loadV(o, a - o->base, I->w); Val cmp = V(I->b), nv = V(I->c);
                bool eq = decide(mkBin(E_EQ, X(old, I->w), X(cmp, I->w))); if (eq) storeV(o, a - o->base, I->w, nv);
                R[FR.back().base + I->dst] = old; R[FR.back().base + I->dst + 1] = cv(eq); FR.back().pc = I + 1; break;
            }
            case I_NOP: f.pc = I + 1; break;
            default: { std::string s; raw_string_ostream os(s); I->li->print(os); engineError("unsupported instruction:" + s); }
        }
    }
}

static void finishPath()
{
    if (leakCheck)
        for (u32 i = newObjMain; i < objs.size(); ++i) { Obj* o = objs[i]; if (o->alive && o->kind == K_HEAP && !o->premain) { std::string s = o->site ? demangle(((FnInfo*)o->site)->name) : "?"; FR.clear(); fail("leak", "memory leak: block of " + std::to_string(o->size) + " bytes allocated in " + s + " is never released"); } }
    if (optConcrete)
    {
        u64 h = 1469598103934665603ull; for (size_t i = 0; i < obsv.size(); ++i) h = (h ^ obsv[i].c) * 1099511628211ull;
        printf("digest %llu %zu\n", (unsigned long long)h, obsv.size());
    }
    giveSampleAndEnd();
    endPath();
}

static int prep(int argc, char** argv)
{
    prepIo = argc > 4 && std::string(argv[4]) == "io";
    SMDiagnostic err; auto m = parseIRFile(argv[2], err, Ctx);
    if (!m) { err.print("sx", errs()); return 2; }
    for (auto& f : *m)
    {
        if (f.isDeclaration() || f.isIntrinsic()) continue;
        std::string n = f.getName().str();
        if (stubPrefixBody(n)) { f.deleteBody(); f.setComdat(nullptr); }
        else { f.removeFnAttr(Attribute::OptimizeNone); }
    }
    std::error_code ec; raw_fd_ostream os(argv[3], ec); WriteBitcodeToFile(*m, os); return 0;
}

int main(int argc, char** argv)
{
    if (argc >= 4 && std::string(argv[1]) == "prep") return prep(argc, argv);
    std::string file; bool listOnly = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "-h") optHarness = nx(); else if (a == "-o") optOut = nx(); else if (a == "-r") optReplay = nx(); else if (a == "-j") optProcs = atoi(nx().c_str()); else if (a == "-t") optTime = atof(nx().c_str());
        else if (a == "-s") optMaxSteps = strtoull(nx().c_str(), 0, 10); else if (a == "-n") optSamples = atoi(nx().c_str()); else if (a == "-v") optVerbose = true; else if (a == "-l") listOnly = true; else if (a == "-seed") optSeed = strtoull(nx().c_str(), 0, 10);
        else if (a == "-p") { std::string kv = nx(); auto p = kv.find('='); optParams[kv.substr(0, p)] = atoll(kv.c_str() + p + 1); }
        else if (a == "-bv") optBV = true;
        else if (a == "-cross") optCross = true;
        else if (a == "-fs") optForkSel = true;
        else if (a == "-fix") { std::string kv = nx(); auto p = kv.find('='); optFix[kv.substr(0, p)] = atoll(kv.c_str() + p + 1); }
        else if (a == "-concrete") { optConcrete = true; std::ifstream f(nx()); std::string line; while (std::getline(f, line)) { std::istringstream is(line); std::string k, n; i64 v; is >> k >> n >> v; if (k == "in") optConcreteVals.push_back(v); if (k == "param") optParams[n] = v; } }
        else file = a;
    }
    SMDiagnostic err; M = parseIRFile(file, err, Ctx);
    if (!M) { err.print("sx", errs()); return 2; }
    DL = &M->getDataLayout();
    if (listOnly) { for (auto& f : *M) if (!f.isDeclaration() && f.getName().starts_with("h_")) outs() << f.getName() << "\n"; return 0; }
    Function* hf = M->getFunction(optHarness);
    if (!hf || hf->isDeclaration()) { fprintf(stderr, "no harness %s\n", optHarness.c_str()); return 2; }
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)S, 0, sizeof *S);
    mainPid = getpid(); prctl(PR_SET_CHILD_SUBREAPER, 1);
    rng ^= optSeed * 0x2545F4914F6CDD1Dull; if (!rng) rng = 1;
    tStart = now();
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); Z = Z3_mk_context(cfg);
    Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); abort(); });
    svB.s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, svB.s); svI.s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, svI.s); svB.ints = false; svI.ints = true;
    for (Sv* v : {&svB, &svI}) { Z3_solver_inc_ref(Z, v->s); Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), v->ints ? 20000 : 60000); Z3_solver_set_params(Z, v->s, p); }
    R.reserve(1 << 16); owner.resize(1 << 16);

    // labels used by functions reachable from the harness
    { std::set<Function*> seen; std::vector<Function*> w{hf};
      while (!w.empty()) { Function* f = w.back(); w.pop_back(); if (!seen.insert(f).second) continue;
        for (auto& bb : *f) for (auto& in : bb) if (auto* cb = dyn_cast<CallBase>(&in)) { Function* c = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if (!c) continue;
            if (c->getName() == "sy_reach") { if (auto* gv = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (auto* cd = dyn_cast<ConstantDataSequential>(gv->getInitializer())) { std::string s = cd->isCString() ? cd->getAsCString().str() : cd->getAsString().str(); if (!reachIdx.count(s)) { reachIdx[s] = reachLabels.size(); reachLabels.push_back(s); } } }
            else if (!c->isDeclaration()) w.push_back(c); } } }

    int status = 0;
    try
    {
        // globals
        for (auto& g : M->globals()) globalAddr(&g);
        for (auto& f : *M) if (!f.isIntrinsic()) globalAddr(&f);
        for (auto& g : M->globals()) if (g.hasInitializer()) { Obj* o = findObj(gaddr[&g]); writeConst(o, 0, g.getInitializer()); }
        for (auto& g : M->globals()) if (g.hasInitializer() && g.isConstant()) findObj(gaddr[&g])->ro = true;
        // constructors
        if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (unsigned i = 0; i < ca->getNumOperands(); ++i) if (auto* cs = dyn_cast<ConstantStruct>(ca->getOperand(i))) if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()))
            {
                FnInfo* fi = getFn(f); if (fi->isDecl) continue; stepsPath = 0; enter(fi, {}, nullptr); run();
            }
    }
    catch (PathEnd&) { fprintf(stderr, "initialisation failed\n"); status = 2; }
    mainPhase = true; newObjMain = objs.size(); stepsPath = 0; ckObjs = 0;
    pool.assign(6, Model());
    S->live = 1;
    if (!status)
    {
        try { enter(getFn(hf), {}, nullptr); } catch (PathEnd&) { status = 2; }
        u64 lastSteps = 0; bool go = !status;
        if (!go) {}
        while (go)
        {
            u64 s0 = stepsPath;
            try { run(); } catch (PathEnd&) {}
            S->steps += stepsPath - (s0 > stepsPath ? 0 : s0);
            if (S->stop) break;
            if (now() - tStart > optTime) { S->stop = 2; break; }
            if (!maybeGive()) go = backtrack();
        }
        (void)lastSteps;
    }
    S->live--;
    if (isChild) _exit(0);
    bool crash = false;
    for (;;) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; } if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) crash = true; }
    if (crash) fprintf(stderr, "a worker process died\n");
    // report
    std::ofstream j(optOut + "/report.json");
    auto esc = [](const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c >= 32) r += c; } return r; };
    j << "{\n \"harness\": \"" << optHarness << "\",\n";
    #define F(n) j << " \"" #n "\": " << S->n.load() << ",\n";
    F(paths) F(killed) F(forks) F(queries) F(sat) F(unsat) F(unknown) F(steps) F(asserts) F(assertQ) F(spawned) F(confirmed) F(unconfirmed) F(errors) F(poolhits) F(syntactic) F(maxdepth) F(peakSteps)
    j << " \"int_queries\": " << S->intq.load() << ",\n \"solver_s\": " << S->qus.load() * 1e-6 << ",\n \"wall_s\": " << now() - tStart << ",\n \"timeout\": " << (S->stop == 2 ? "true" : "false") << ",\n \"crash\": " << (crash || status ? "true" : "false") << ",\n \"params\": {";
    { bool first = true; for (auto& p : optParams) { j << (first ? "" : ", ") << "\"" << p.first << "\": " << p.second; first = false; } } j << "},\n \"unreached\": [";
    { bool first = true; for (size_t i = 0; i < reachLabels.size(); ++i) if (!S->reach[i]) { j << (first ? "" : ", ") << "\"" << esc(reachLabels[i]) << "\""; first = false; } } j << "],\n \"reached\": [";
    { bool first = true; for (size_t i = 0; i < reachLabels.size(); ++i) if (S->reach[i]) { j << (first ? "" : ", ") << "\"" << esc(reachLabels[i]) << "\""; first = false; } } j << "],\n \"functions\": [";
    { bool first = true; for (auto* fi : fns) if (S->fcov[fi->idx & 0xffff]) { std::string d = demangle(fi->name); if (d.find("mdds::") == std::string::npos) continue; j << (first ? "" : ",\n  ") << "\"" << esc(d.substr(0, 300)) << "\""; first = false; } } j << "]\n}\n";
    j.close();
    if (optVerbose) fprintf(stderr, "paths %llu killed %llu forks %llu queries %llu (sat %llu unsat %llu unk %llu) solver %.1fs steps %llu wall %.1fs poolhits %llu conf %llu unconf %llu err %llu\n", (unsigned long long)S->paths, (unsigned long long)S->killed, (unsigned long long)S->forks, (unsigned long long)S->queries, (unsigned long long)S->sat, (unsigned long long)S->unsat, (unsigned long long)S->unknown, S->qus * 1e-6, (unsigned long long)S->steps, now() - tStart, (unsigned long long)S->poolhits, (unsigned long long)S->confirmed, (unsigned long long)S->unconfirmed, (unsigned long long)S->errors);
    fflush(stdout);
    _exit(status ? status : crash ? 3 : 0);
}
