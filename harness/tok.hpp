// Value type that owns memory and is poisoned by a move, so that a value used after being moved
// from, lost, duplicated without copy, or not released becomes visible as a wrong value, a double
// free, or a leak.
#pragma once
#include <functional>
#include <utility>
struct Tok
{
    int* p;
    Tok() : p(new int(0)) {}
    Tok(int v) : p(new int(v)) {}
    Tok(const Tok& r) : p(new int(r.get())) {}
    Tok(Tok&& r) noexcept : p(r.p) { r.p = nullptr; }
    Tok& operator=(const Tok& r) { if (this != &r) { int* n = new int(r.get()); delete p; p = n; } return *this; }
    Tok& operator=(Tok&& r) noexcept { if (this != &r) { delete p; p = r.p; r.p = nullptr; } return *this; }
    ~Tok() { delete p; }
    int get() const { return p ? *p : -77; }
    bool operator==(const Tok& r) const { return get() == r.get(); }
    bool operator!=(const Tok& r) const { return get() != r.get(); }
    bool operator<(const Tok& r) const { return get() < r.get(); }
    bool operator>(const Tok& r) const { return get() > r.get(); }
    bool operator<=(const Tok& r) const { return get() <= r.get(); }
    bool operator>=(const Tok& r) const { return get() >= r.get(); }
};
namespace std { template<> struct hash<Tok> { size_t operator()(const Tok& t) const noexcept { return size_t(t.get()); } }; }
