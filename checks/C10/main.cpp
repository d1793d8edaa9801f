// C10: worst-case comparison counts, with McIlroy's adversary and killer patterns.
#include "vh.h"
#include "vh_alloc.h"
#include "vh_sorters.h"
#include <cmath>
#include <forward_list>
#include <list>
#include "bounds.h"

using namespace vh;

struct oracle {
    // McIlroy ("A killer adversary for quicksort"): elements get their value as late as possible
    std::vector<int> val; int gas = 0, solid = 0, candidate = -1;
    std::uint64_t count = 0, budget = 0; int adaptive = 0;      // 1: plain, 2: mirrored (from the largest value down), 3: a third of the elements already have a value
    bool less(int x, int y) {
        if (++count > budget) throw runaway();
        if (adaptive == 2) std::swap(x, y);
        if (adaptive) {
            auto& vx = val[(std::size_t)x]; auto& vy = val[(std::size_t)y];
            if (vx == gas && vy == gas) { if (x == candidate) vx = solid++; else vy = solid++; }
            if (vx == gas) candidate = x; else if (vy == gas) candidate = y;
        }
        return val[(std::size_t)x] < val[(std::size_t)y];
    }
};
static oracle g;
struct cmp { bool operator()(int x, int y) const { return g.less(x, y); } };
struct cmp_branchless { bool operator()(int x, int y) const { return g.less(x, y); } };
namespace cppsort { namespace utility { template<typename T> struct is_probably_branchless_comparison<cmp_branchless, T>: std::true_type {}; } }

static std::map<std::string, double> ratios;
static bool show_ratios = std::getenv("VH_RATIOS") != nullptr;

template<typename Col, typename Cmp, typename S>
void run(const char* name, const char* form, const input& in, int adaptive, bool nomem, const S& sorter, Cmp c) {
    std::string f = std::string(form) + (nomem ? ",no-memory" : "");
    std::string key = std::string("C10|") + name + "|" + f + (adaptive == 0 ? "" : adaptive == 1 ? ",adversary" : adaptive == 2 ? ",mirrored adversary" : ",mixed adversary");
    if (!begin_case(key + "|" + in.label())) return;
    count_case(hash_str(key) ^ in.hash(), in.size() > 1);
    std::size_t n = in.size();
    g.adaptive = adaptive; g.count = 0; g.solid = 0; g.gas = (int)n + 1; g.candidate = -1;
    std::vector<int> ids(n);
    for (std::size_t i = 0; i < n; ++i) ids[i] = (int)i;
    if (adaptive) { g.val.assign(n, g.gas); ids = in.keys; } else g.val = in.keys;
    if (adaptive == 3) { rng r(n); for (std::size_t i = 0; i < n; i += 3) g.val[(std::size_t)ids[i]] = (int)n + 2 + (int)r.below(n); }
    double limit = bound(name, f, (double)n);
    g.budget = (std::uint64_t)(limit * 2 + 1000);
    if (show_ratios) g.budget = 40ull * n * n + 10000;
    Col col(ids.begin(), ids.end());
    auto& al = allocs();
    bool ran_away = false, failed = false;
    if (nomem) { al.no_fault(); al.fail_above = 0; al.arm(); }
    try { sorter(col, c); }
    catch (const runaway&) { ran_away = true; }
    catch (const std::bad_alloc&) { failed = true; }
    al.disarm(); al.no_fault();
    if (failed) { event("bad_alloc"); return; }
    event("comparisons", g.count);
    event(adaptive ? "adversary_runs" : "pattern_runs");
    if (n > 16) { auto& r = ratios[std::string(name) + "|" + f + ""]; r = std::max(r, (double)g.count / ((double)n * std::log2((double)n))); }
    if (show_ratios) return;
    if (ran_away || (double)g.count > limit)
        violation(key, std::string(ran_away ? "more than " : "") + std::to_string(g.count) + " comparisons for " + std::to_string(n) + " elements, the bound is " + std::to_string((long long)limit));
    else if (adaptive) {
        int prev = -1;
        if (adaptive == 2) { ids.assign(col.begin(), col.end()); std::reverse(ids.begin(), ids.end()); }
        else ids.assign(col.begin(), col.end());
        for (int x: ids) { int v = g.val[(std::size_t)x]; if (v < prev) { violation(key + "|order", "not sorted according to the answers given"); break; } prev = v; }
    }
}

template<typename S>
void ra_forms(const char* name, const input& in, int adaptive, const S& s, bool nomem) {
    run<std::vector<int>>(name, "vector", in, adaptive, false, s, cmp{});
    run<std::vector<int>>(name, "vector,branchless", in, adaptive, false, s, cmp_branchless{});
    if (nomem) run<std::vector<int>>(name, "vector", in, adaptive, true, s, cmp{});
}
template<vh_cat C> struct cat_c {};
template<typename S> void forms(const char* name, const input& in, int ad, const S& s, bool nomem, cat_c<vh_ra>) { ra_forms(name, in, ad, s, nomem); }
template<typename S> void forms(const char* name, const input& in, int ad, const S& s, bool nomem, cat_c<vh_bidi>) {
    run<std::list<int>>(name, "list", in, ad, false, s, cmp{});
    if (nomem) run<std::list<int>>(name, "list", in, ad, true, s, cmp{});
    ra_forms(name, in, ad, s, nomem);
}
template<typename S> void forms(const char* name, const input& in, int ad, const S& s, bool nomem, cat_c<vh_fwd>) {
    run<std::forward_list<int>>(name, "forward_list", in, ad, false, s, cmp{});
    if (nomem) run<std::forward_list<int>>(name, "forward_list", in, ad, true, s, cmp{});
    forms(name, in, ad, s, nomem, cat_c<vh_bidi>{});
}

template<typename S, vh_cat C>
void all(const char* name, vh_speed sp, const S& sorter, cat_c<C> cat) {
    bool th = ctx().thorough;
    std::vector<int> adv = sp == vh_fast ? std::vector<int>{17, 33, 65, 130, 257, 600, 1025, 2500, 6000, 20000} : std::vector<int>{10, 50, 130, 400};
    if (th && sp == vh_fast) for (int n: {25, 41, 50, 90, 300, 4096, 12345, 60000, 200000}) adv.push_back(n);
    std::uint64_t base = mix(ctx().seed * 53 + hash_str(name)) % 1000000007ull;
    for (int n: adv) {
        for (int start = 0; start < 3; ++start) {            // ids in order, reversed, shuffled
            if (n > 20000 && start) continue;
            input in; in.pattern = start == 0 ? "ids" : start == 1 ? "reversed" : "shuffled"; in.seed = base;
            for (int i = 0; i < n; ++i) in.keys.push_back(start == 1 ? n - 1 - i : i);
            if (start == 2) { rng r(base + (unsigned)n); r.shuffle(in.keys); }
            for (int mode = 3; mode >= 1; --mode) {
                if (mode != 1 && n > 6000 && start) continue;
                forms(name, in, mode, sorter, n <= 3000, cat);
            // the values the adversary ends up with, as plain inputs for the same sorter through every form
            if (n <= 6000) {
                input killer; killer.pattern = "killer_" + in.pattern; killer.seed = base; killer.keys = g.val;
                if (mode != 3) for (auto& v: killer.keys) if (v > n) v = n;
                if (mode == 2) for (auto& v: killer.keys) v = n - v;
                if (mode == 2) killer.pattern += "_mirrored";
                if (mode == 3) killer.pattern += "_mixed";
                if (killer.keys.size() == (std::size_t)n) forms(name, killer, 0, sorter, n <= 3000, cat);
            }
            }
        }
    }
    std::vector<int> sizes = sp == vh_fast ? std::vector<int>{40, 64, 100, 257, 1000, 1024, 3000} : std::vector<int>{20, 64, 200};
    if (sp == vh_fast) sizes.push_back(th ? 50000 : 10000);
    for (int n: sizes)
        for (int p = 0; p < n_patterns; ++p)
            for (int rep = 0; rep < (th ? 4 : 1); ++rep) forms(name, make_input(p, n, base + (unsigned)rep), 0, sorter, n <= 3000, cat);
}

int main(int argc, char** argv) {
    init(argc, argv);
    int k = 0; (void)k;
#define X(name, type, cat, speed, stable) if (ctx().nshards == 1 || (k++ % ctx().nshards) == ctx().shard) all(#name, speed, type{}, cat_c<cat>{});
    VH_SORTERS_PART(X)
    if (show_ratios) for (auto& r: ratios) std::printf("R %-24s %-28s %.3f\n", r.first.substr(0, r.first.find('|')).c_str(), r.first.substr(r.first.find('|') + 1).c_str(), r.second);
    sample("last case: " + ctx().label);
    return finish();
}
