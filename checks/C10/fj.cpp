// C10: the Ford-Johnson bound for merge_insertion_sorter, and the dedicated list algorithms.
#include "vh.h"
#include "vh_alloc.h"
#include <cmath>
#include <forward_list>
#include <list>
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/sorters/insertion_sorter.h>
#include <cpp-sort/sorters/mel_sorter.h>
#include <cpp-sort/sorters/merge_insertion_sorter.h>
#include <cpp-sort/sorters/merge_sorter.h>
#include <cpp-sort/sorters/selection_sorter.h>

using namespace vh;

struct oracle {
    std::vector<int> val; int gas = 0, solid = 0, candidate = -1;
    std::uint64_t count = 0, budget = 0; int adaptive = 0;
    bool less(int x, int y) {
        if (++count > budget) throw runaway();
        if (adaptive == 2) std::swap(x, y);
        if (adaptive) {
            auto& vx = val[(std::size_t)x]; auto& vy = val[(std::size_t)y];
            if (vx == gas && vy == gas) { if (x == candidate) vx = solid++; else vy = solid++; }
            if (vx == gas) candidate = x; else if (vy == gas) candidate = y;
        }
        return val[(std::size_t)x] < val[(std::size_t)y];
    }
};
static oracle g;
struct cmp { bool operator()(int x, int y) const { return g.less(x, y); } };

static std::uint64_t ford_johnson(std::size_t n) {
    static std::vector<std::uint64_t> f{0};
    while (f.size() <= n) { std::uint64_t i = f.size(), c = 0; while ((4ull << c) < 3 * i) ++c; f.push_back(f.back() + c); }   // ceil(log2(3i/4))
    return f[n];
}

template<typename Col, typename S>
void run(const std::string& key, const input& in, int adaptive, const S& sorter, std::uint64_t limit) {
    if (!begin_case(key + "|" + in.label())) return;
    count_case(hash_str(key) ^ in.hash(), in.size() > 1);
    std::size_t n = in.size();
    g.adaptive = adaptive; g.count = 0; g.solid = 0; g.gas = (int)n + 1; g.candidate = -1;
    std::vector<int> ids(n);
    for (std::size_t i = 0; i < n; ++i) ids[i] = (int)i;
    if (adaptive) { g.val.assign(n, g.gas); ids = in.keys; } else g.val = in.keys;
    g.budget = 4 * limit + 1000;
    Col col(ids.begin(), ids.end());
    bool ran_away = false;
    try { sorter(col, cmp{}); } catch (const runaway&) { ran_away = true; }
    event("comparisons", g.count);
    event(adaptive ? "adversary_runs" : "pattern_runs");
    if (g.count == limit && n > 2) event("bound_reached");
    if (ran_away || g.count > limit)
        violation(key, std::to_string(g.count) + " comparisons for " + std::to_string(n) + " elements, the bound is " + std::to_string(limit) + ": " + show(in.keys));
}

template<typename F> void inputs(int perms, int dense, std::vector<int> sizes, F f) {
    std::uint64_t base = mix(ctx().seed * 59) % 1000000007ull;
    for (int n = 0; n <= perms; ++n) {
        std::vector<int> p; for (int i = 0; i < n; ++i) p.push_back(i);
        std::uint64_t k = 0;
        do { input in; in.pattern = "perm"; in.seed = k++; in.keys = p; f(in, 0); } while (std::next_permutation(p.begin(), p.end()));
    }
    for (int n = 0; n <= 6; ++n) { std::uint64_t k = 0; for (auto& w: weak_orderings(n)) { input in; in.pattern = "weak"; in.seed = k++; in.keys = w; f(in, 0); } }
    auto one = [&](int n) {
        for (int p = 0; p < n_patterns; ++p) f(make_input(p, n, base), 0);
        for (int rep = 0; rep < (ctx().thorough ? 40 : 12); ++rep) {
            f(make_input(0, n, base + 100 + (unsigned)rep), 0);
            input in = make_input(0, n, base + 200 + (unsigned)rep);
            in.pattern = "adv"; f(in, 1); in.pattern = "mirrored"; f(in, 2);
        }
    };
    for (int n = 7; n <= dense; ++n) one(n);
    for (int n: sizes) one(n);
}

int main(int argc, char** argv) {
    init(argc, argv);
    bool th = ctx().thorough;
    using namespace cppsort;
    int sh = ctx().nshards == 1 ? -1 : ctx().shard;
    if (sh <= 0)
        inputs(th ? 9 : 8, th ? 300 : 90, {127, 128, 171, 172, 341, 342, 500}, [](const input& in, int ad) {
            run<std::vector<int>>("C10|merge_insertion|Ford-Johnson", in, ad, merge_insertion_sorter{}, ford_johnson(in.size())); });
    if (sh < 0 || sh == 1) {
        auto nlogn = [](double c, std::size_t n) { return (std::uint64_t)(c * (double)n * std::log2((double)n + 2) + 8); };
        auto quad = [](std::size_t n) { return (std::uint64_t)(n * (n + 3) / 2); };
        inputs(6, 50, {64, 100, 129, 257, 600, 1025}, [&](const input& in, int ad) {
            std::size_t n = in.size();
            run<std::list<int>>("C10|container_aware<insertion>|list", in, ad, container_aware_adapter<insertion_sorter>{}, quad(n));
            run<std::forward_list<int>>("C10|container_aware<insertion>|forward_list", in, ad, container_aware_adapter<insertion_sorter>{}, quad(n));
            run<std::list<int>>("C10|container_aware<selection>|list", in, ad, container_aware_adapter<selection_sorter>{}, quad(n));
            run<std::forward_list<int>>("C10|container_aware<selection>|forward_list", in, ad, container_aware_adapter<selection_sorter>{}, quad(n));
        });
        inputs(6, 50, {64, 100, 129, 257, 600, 1025, 5000, 20000}, [&](const input& in, int ad) {
            std::size_t n = in.size();
            run<std::list<int>>("C10|container_aware<merge>|list", in, ad, container_aware_adapter<merge_sorter>{}, nlogn(1, n));
            run<std::forward_list<int>>("C10|container_aware<merge>|forward_list", in, ad, container_aware_adapter<merge_sorter>{}, nlogn(1, n));
            run<std::list<int>>("C10|container_aware<mel>|list", in, ad, container_aware_adapter<mel_sorter>{}, nlogn(2.2, n));
            run<std::forward_list<int>>("C10|container_aware<mel>|forward_list", in, ad, container_aware_adapter<mel_sorter>{}, nlogn(2.2, n));
        });
    }
    sample("last case: " + ctx().label);
    return finish();
}
