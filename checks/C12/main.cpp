// C12: heap and stack memory used by the sorters.
#include "vh.h"
#include "vh_alloc.h"
#include "vh_sorters.h"
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cmath>
#include <forward_list>
#include <list>
#include "bounds.h"

using namespace vh;
#define VH_SORTERS_16(X) \
    X(list_insertion, cppsort::container_aware_adapter<cppsort::insertion_sorter>, vh_fwd, vh_quadratic, true) \
    X(list_selection, cppsort::container_aware_adapter<cppsort::selection_sorter>, vh_fwd, vh_quadratic, true) \
    X(list_merge, cppsort::container_aware_adapter<cppsort::merge_sorter>, vh_fwd, vh_fast, true) \
    X(list_mel, cppsort::container_aware_adapter<cppsort::mel_sorter>, vh_fwd, vh_fast, false)

static char* stack_base; static char* stack_low;
static std::uint64_t count, budget;
inline void watch() { char here; char* p = &here; asm volatile("" : "+r"(p)); if (p < stack_low) stack_low = p; }

// McIlroy's adversary, as in C10
struct oracle {
    std::vector<int> val; int gas = 0, solid = 0, candidate = -1; int adaptive = 0;
    bool less(int x, int y) {
        if (++count > budget) throw runaway();
        if (!adaptive) return x < y;
        if (adaptive == 2) std::swap(x, y);
        auto& vx = val[(std::size_t)x]; auto& vy = val[(std::size_t)y];
        if (vx == gas && vy == gas) { if (x == candidate) vx = solid++; else vy = solid++; }
        if (vx == gas) candidate = x; else if (vy == gas) candidate = y;
        return val[(std::size_t)x] < val[(std::size_t)y];
    }
};
static oracle g;
template<std::size_t N> struct rec { int key; char pad[N - 4]; rec(int k = 0): key(k) { pad[0] = (char)k; } };
struct cmp { template<typename T> __attribute__((noinline)) bool operator()(const T& a, const T& b) const { watch(); return g.less(a.key, b.key); } };
struct cmp_branchless { template<typename T> __attribute__((noinline)) bool operator()(const T& a, const T& b) const { watch(); return g.less(a.key, b.key); } };
namespace cppsort { namespace utility { template<typename T> struct is_probably_branchless_comparison<cmp_branchless, T>: std::true_type {}; } }

struct meas { double per = 0, heap = 0; double stack = 0; };
static std::map<std::string, std::map<int, meas>> table;
static bool ratios = std::getenv("VH_RATIOS") != nullptr;

template<typename Col, typename Cmp, typename S>
__attribute__((noinline)) void run(const char* name, const char* form, const input& in, int adaptive, const S& sorter, Cmp c) {
    using T = typename Col::value_type;
    std::string key = std::string("C12|") + name + "|" + form;
    if (!begin_case(key + (adaptive == 1 ? "|adversary," : adaptive == 2 ? "|mirrored," : "|") + in.label())) return;
    count_case(hash_str(key) ^ in.hash() ^ (unsigned)adaptive, in.size() > 1);
    std::size_t n = in.size();
    g.adaptive = adaptive; g.solid = 0; g.gas = (int)n + 1; g.candidate = -1;
    if (adaptive) g.val.assign(n, g.gas);
    count = 0; budget = 100ull * n * n + 1000;
    Col col(in.keys.begin(), in.keys.end());
    auto& al = allocs();
    char here; stack_base = stack_low = &here;
    al.no_fault(); al.arm();
    bool ran = false;
    try { sorter(col, c); } catch (const runaway&) { ran = true; }
    al.disarm();
    double stack = (double)(stack_base - stack_low), heap = (double)al.peak;
    event("calls_measured"); event("allocations", al.calls);
    if (heap > 0) event("calls_with_heap");
    if (al.blocks) violation(key + "|leak", std::to_string(al.blocks) + " blocks still allocated after the call");
    if (ran) { violation(key + "|runaway", ""); return; }
    if (ratios) { auto& m = table[std::string(name) + "|" + form][(int)n]; m.per = std::max(m.per, heap / (double)(n * sizeof(T))); m.heap = std::max(m.heap, heap); m.stack = std::max(m.stack, stack); return; }
    double hlim = heap_bound(name, form, (double)n, sizeof(T)), slim = stack_bound(name, form, (double)n, sizeof(T));
    if (heap > hlim) violation(key + "|heap", std::to_string((long long)heap) + " bytes of heap at the same time for " + std::to_string(n) + " elements of " + std::to_string(sizeof(T)) + " bytes, the bound is " + std::to_string((long long)hlim));
    double need = in.pattern == std::string(pattern_name(0)) ? heap_needed(name, (double)n, sizeof(T)) : 0;
    if (heap < need) violation(key + "|provider", std::to_string((long long)heap) + " bytes of heap for " + std::to_string(n) + " elements of " + std::to_string(sizeof(T)) + " bytes, the buffer provider asks for " + std::to_string((long long)need));
    if (stack > slim) violation(key + "|stack", std::to_string((long long)stack) + " bytes of stack for " + std::to_string(n) + " elements of " + std::to_string(sizeof(T)) + " bytes, the bound is " + std::to_string((long long)slim));
}

template<vh_cat C> struct cat_c {};
using small_rec = rec<8>; using big_rec = rec<96>;
template<typename S> void forms(const char* name, const input& in, int ad, const S& s, cat_c<vh_ra>) {
    run<std::vector<small_rec>>(name, "vector", in, ad, s, cmp{});
    run<std::vector<small_rec>>(name, "vector,branchless", in, ad, s, cmp_branchless{});
    if (in.size() <= 20000) run<std::vector<big_rec>>(name, "vector,big", in, ad, s, cmp{});
}
template<typename S> void forms(const char* name, const input& in, int ad, const S& s, cat_c<vh_bidi>) {
    run<std::list<small_rec>>(name, "list", in, ad, s, cmp{});
    if (in.size() <= 20000) run<std::list<big_rec>>(name, "list,big", in, ad, s, cmp{});
    forms(name, in, ad, s, cat_c<vh_ra>{});
}
template<typename S> void forms(const char* name, const input& in, int ad, const S& s, cat_c<vh_fwd>) {
    run<std::forward_list<small_rec>>(name, "forward_list", in, ad, s, cmp{});
    if (in.size() <= 20000) run<std::forward_list<big_rec>>(name, "forward_list,big", in, ad, s, cmp{});
    forms(name, in, ad, s, cat_c<vh_bidi>{});
}

template<typename S, vh_cat C>
void all(const char* name, vh_speed sp, const S& sorter, cat_c<C> cat) {
    bool th = ctx().thorough;
    bool quad = sp != vh_fast || !std::strcmp(name, "hybrid3") || !std::strcmp(name, "merge_insertion");
    std::uint64_t base = mix(ctx().seed * 71 + hash_str(name)) % 1000000007ull;
    auto adversaries = [&](int n) {
        for (int start = 0; start < 3; ++start) {
            input in; in.pattern = start == 0 ? "ids" : start == 1 ? "reversed" : "shuffled"; in.seed = base;
            for (int i = 0; i < n; ++i) in.keys.push_back(start == 1 ? n - 1 - i : i);
            if (start == 2) { rng r(base + (unsigned)n); r.shuffle(in.keys); }
            for (int mode = 1; mode <= 2; ++mode) forms(name, in, mode, sorter, cat);
        }
    };
    auto patterns = [&](int n, int reps) { for (int p = 0; p < n_patterns; ++p) for (int r = 0; r < reps; ++r) forms(name, make_input(p, n, base + (unsigned)r), 0, sorter, cat); };
    for (int n: {2, 3, 5, 16, 33, 64, 100, 257}) { patterns(n, th ? 5 : 1); adversaries(n); }
    if (!quad) {
        for (int n: {1000, 1024, 4000}) patterns(n, th ? 3 : 1);
        for (int n: {1000, 4000, 20000}) adversaries(n);
        if (th || ratios) { patterns(100000, 1); adversaries(100000); }
        else for (int p: {0, 1, 2, 6, 7, 8, 16, 17}) forms(name, make_input(p, 100000, base), 0, sorter, cat);
    } else { patterns(600, 1); if (std::strcmp(name, "merge_insertion")) adversaries(1000); }
}

int main(int argc, char** argv) {
    init(argc, argv);
    int k = 0; (void)k;
#define X(name, type, cat, speed, stable) if (ctx().nshards == 1 || (k++ % ctx().nshards) == ctx().shard) all(#name, speed, type{}, cat_c<cat>{});
    VH_SORTERS_PART(X)
    if (ratios) for (auto& r: table) { std::printf("R %s", r.first.c_str()); for (auto& q: r.second) if (q.first >= 257) std::printf("  %d:%.2fx(%.0f)/%.0f", q.first, q.second.per, q.second.heap, q.second.stack); std::puts(""); }
    sample("last case: " + ctx().label);
    return finish();
}
