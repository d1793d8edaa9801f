// Inputs on which a given sorter does as badly as an adversary can make it (McIlroy, "A killer adversary for quicksort"): they reach the fallbacks.
#ifndef VH_KILLERS_H
#define VH_KILLERS_H
#include "vh.h"
#include <forward_list>
#include <list>
#include <cpp-sort/utility/branchless_traits.h>

namespace vh {
struct adversary {
    std::vector<int> val; int gas = 0, solid = 0, candidate = -1; bool mirrored = false; std::uint64_t count = 0, budget = 0;
    bool less(int x, int y) {
        if (++count > budget) throw runaway();
        if (mirrored) std::swap(x, y);
        auto& vx = val[(std::size_t)x]; auto& vy = val[(std::size_t)y];
        if (vx == gas && vy == gas) { if (x == candidate) vx = solid++; else vy = solid++; }
        if (vx == gas) candidate = x; else if (vy == gas) candidate = y;
        return vx < vy;
    }
};
inline adversary& the_adversary() { static adversary a; return a; }
struct adversary_cmp { bool operator()(int x, int y) const { return the_adversary().less(x, y); } };
struct adversary_cmp_branchless: adversary_cmp {};

template<typename Col, typename Cmp, typename S>
auto call_sorter(int, Col& col, const S& s, Cmp c) -> decltype(s(col, c), void()) { try { s(col, c); } catch (...) {} }
template<typename Col, typename Cmp, typename S>
void call_sorter(long, Col&, const S&, Cmp) {} // a sorter that does not take this kind of collection
template<typename Col, typename Cmp, typename S>
void find_killer(const char* form, int n, bool mirrored, const S& sorter, Cmp c) {
    auto& g = the_adversary();
    g = adversary();
    g.gas = n + 1; g.val.assign((std::size_t)n, g.gas); g.mirrored = mirrored; g.budget = 40ull * (unsigned)n * (unsigned)n + 1000;
    std::vector<int> ids((std::size_t)n); for (int i = 0; i < n; ++i) ids[(std::size_t)i] = i;
    Col col(ids.begin(), ids.end());
    call_sorter(0, col, sorter, c);
    if (g.count == 0) return;
    input in; in.pattern = std::string("killer-") + form; in.seed = mirrored; in.keys = g.val;
    if (mirrored) for (auto& x: in.keys) x = n + 1 - x;
    killers().push_back(in);
    event("killer_inputs");
}
struct killer_search {
    std::vector<int> sizes;
    template<typename Col, typename S> void on(const char* form, const S& s) const { for (int n: sizes) for (int m = 0; m < 2; ++m) find_killer<Col>(form, n, m != 0, s, adversary_cmp{}); }
    template<typename S> void go(const S& s, std::integral_constant<int, 2>) const {
        on<std::vector<int>>("vector", s);
        for (int n: sizes) find_killer<std::vector<int>>("branchless", n, false, s, adversary_cmp_branchless{});
    }
    template<typename S> void go(const S& s, std::integral_constant<int, 1>) const { on<std::list<int>>("list", s); go(s, std::integral_constant<int, 2>()); }
    template<typename S> void go(const S& s, std::integral_constant<int, 0>) const { on<std::forward_list<int>>("forward_list", s); go(s, std::integral_constant<int, 1>()); }
};
// cat: 0 forward, 1 bidirectional, 2 random-access. The inputs found are used by for_each_input until the next call.
template<int cat, typename S> void find_killers(const S& s, bool quadratic, std::vector<int> sizes = {300, 1500}) {
    killers().clear();
    if (quadratic) sizes = {100};
    killer_search{sizes}.go(s, std::integral_constant<int, cat>());
    std::sort(killers().begin(), killers().end(), [](const input& a, const input& b) { return a.keys < b.keys; });
    killers().erase(std::unique(killers().begin(), killers().end(), [](const input& a, const input& b) { return a.keys == b.keys; }), killers().end());
}
} // namespace vh
namespace cppsort { namespace utility { template<typename T> struct is_probably_branchless_comparison<vh::adversary_cmp_branchless, T>: std::true_type {}; } }
#endif
