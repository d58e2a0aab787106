// Native runtime: replays an assignment against the real compiled code.
#include "sy.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <fstream>
#include <sstream>
#include <dlfcn.h>
#include <unistd.h>
#include <exception>

static std::vector<long>* g_in; static size_t g_pos; static std::map<std::string, long>* g_par;
static uint64_t g_dig = 1469598103934665603ull; static size_t g_nobs; static bool g_leak = true;
static long g_live; static bool g_count; static bool g_batch; static bool g_verbose;

static void* al(size_t n, size_t a)
{
    // every block carries a header so that only blocks allocated during the harness are counted
    void* p = nullptr; size_t h = a < 16 ? 16 : a;
    if (a <= 16) p = malloc(n ? n : 1); else if (posix_memalign(&p, h, n ? n : 1)) p = nullptr;
    if (!p) abort();
    memset(p, 0xbe, n);
    return p;
}
#include <unordered_set>
struct Set { void** t = nullptr; size_t cap = 0, n = 0; // open addressing, malloc based
    void grow() { size_t oc = cap; void** ot = t; cap = cap ? cap * 2 : 1024; t = (void**)calloc(cap, sizeof(void*)); n = 0; for (size_t i = 0; i < oc; i++) if (ot[i] && ot[i] != (void*)1) add(ot[i]); free(ot); }
    void add(void* p) { if (n * 2 >= cap) grow(); size_t i = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull % cap; while (t[i] && t[i] != (void*)1) i = (i + 1) % cap; if (!t[i]) n++; t[i] = p; }
    bool del(void* p) { if (!cap) return false; size_t i = ((size_t)p >> 4) * 0x9E3779B97F4A7C15ull % cap; while (t[i]) { if (t[i] == p) { t[i] = (void*)1; return true; } i = (i + 1) % cap; } return false; } };
static Set g_set;
static void* nw(size_t n, size_t a = 16) { void* p = al(n, a); if (g_count) { g_set.add(p); g_live++; } return p; }
static void dl(void* p) { if (!p) return; if (g_set.del(p)) g_live--; free(p); }
void* operator new(size_t n) { return nw(n); }
void* operator new[](size_t n) { return nw(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return nw(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return nw(n); }
void* operator new(size_t n, std::align_val_t a) { return nw(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return nw(n, (size_t)a); }
void operator delete(void* p) noexcept { dl(p); }
void operator delete[](void* p) noexcept { dl(p); }
void operator delete(void* p, size_t) noexcept { dl(p); }
void operator delete[](void* p, size_t) noexcept { dl(p); }
void operator delete(void* p, std::align_val_t) noexcept { dl(p); }
void operator delete[](void* p, std::align_val_t) noexcept { dl(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { dl(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { dl(p); }

extern "C" {
long sy_int(const char* name, long lo, long hi)
{
    long v = lo;
    if (g_pos < g_in->size()) v = (*g_in)[g_pos];
    ++g_pos;
    if (v < lo || v > hi) { fprintf(stderr, "REPLAY-MISMATCH %s=%ld outside [%ld,%ld]\n", name, v, lo, hi); _exit(0); }
    return v;
}
long sy_concrete(long v) { return v; }
void sy_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); _exit(g_batch ? 3 : 0); } }
void sy_assert_(bool c, const char* msg) { if (!c) { fprintf(stderr, "ASSERTION FAILED: %s\n", msg); fflush(stderr); _exit(42); } }
void sy_reach(const char*) {}
long sy_param(const char* name, long d) { auto it = g_par->find(name); return it == g_par->end() ? d : it->second; }
void sy_obs(uint64_t v) { g_dig = (g_dig ^ v) * 1099511628211ull; ++g_nobs; }
void sy_noleak(void) { g_leak = false; }
}

static int runOne(const char* path, bool batch)
{
    std::ifstream f(path); std::string line, harness, expect;
    while (std::getline(f, line))
    {
        std::istringstream is(line); std::string k, n; is >> k;
        if (k == "harness") is >> harness;
        else if (k == "param") { long v; is >> n >> v; (*g_par)[n] = v; }
        else if (k == "in") { long v; is >> n >> v; g_in->push_back(v); }
        else if (k == "digest") { std::getline(is, expect); }
    }
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, harness.c_str());
    if (!fn) { fprintf(stderr, "no harness %s\n", harness.c_str()); return 9; }
    std::set_terminate([] { fprintf(stderr, "TERMINATE: exception escapes or noexcept violated\n"); _exit(43); });
    static std::string ex; ex = expect; static bool bt; bt = batch;
    // runs after the destructors of static objects created by the harness
    atexit([] {
        g_count = false;
        if (g_leak && g_live != 0) { fprintf(stderr, "LEAK: %ld blocks not released\n", g_live); fflush(stderr); _exit(44); }
        if (bt) { char b[100]; snprintf(b, sizeof b, " %llu %zu", (unsigned long long)g_dig, g_nobs); if (ex != b) { fprintf(stderr, "DIGEST MISMATCH expected%s got%s\n", ex.c_str(), b); fflush(stderr); _exit(45); } }
        fflush(stdout); fflush(stderr); _exit(0);
    });
    g_count = true; fn();
    exit(0);
}
#include <sys/wait.h>
#include <signal.h>
int main(int argc, char** argv)
{
    g_in = new std::vector<long>; g_par = new std::map<std::string, long>;
    if (argc > 2 && std::string(argv[1]) == "-b")
    {
        int bad = 0;
        for (int i = 2; i < argc; ++i)
        {
            fflush(stderr);
            pid_t p = fork(); if (p == 0) { g_batch = true; alarm(60); return runOne(argv[i], true); }
            int st; waitpid(p, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { fprintf(stderr, "BAD %s status %d\n", argv[i], WIFEXITED(st) ? WEXITSTATUS(st) : -1); bad++; }
        }
        printf("validated %d bad %d\n", argc - 2, bad); fflush(stdout);
        _exit(bad ? 1 : 0);
    }
    alarm(25);
    return runOne(argv[1], false);
}
