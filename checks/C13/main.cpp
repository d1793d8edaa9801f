// C13: each probe returns exactly the measure it names, for every call form.
#include "vh.h"
#include "vh_probes.h"
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include <cpp-sort/probes.h>
#include <cpp-sort/adapters/indirect_adapter.h>
#include <deque>
#include <forward_list>
#include <list>

using namespace vh;

struct rec {
    int key; int id;
    friend bool operator<(const rec& a, const rec& b) { return a.key < b.key; }
    int get() const { return key; }
};
static std::uint64_t g_budget, g_count;
static inline void step() { if (++g_count > g_budget) throw runaway(); }
struct less_key { template<typename T> bool operator()(const T& a, const T& b) const { step(); return a < b; } };
struct greater_key { template<typename T> bool operator()(const T& a, const T& b) const { step(); return b < a; } };
static bool fptr_less(const rec& a, const rec& b) { return a.key < b.key; }

// What the probe may return for the keys v. `exact` is set when only lo is right.
struct expectation { long long lo, hi; bool exact; };

template<typename Ref>
expectation expect_exact(Ref ref, const ref::keys& v) { long long x = ref(v); return {x, x, true}; }
#define EXACT(p) static expectation want_##p(const ref::keys& v) { return expect_exact(ref::p, v); }
EXACT(dis) EXACT(enc) EXACT(ham) EXACT(inv) EXACT(max) EXACT(mono) EXACT(osc) EXACT(par) EXACT(rem) EXACT(runs) EXACT(sus)
// With equivalent elements these two depend on the order in which equivalent elements are sorted
static expectation want_exc(const ref::keys& v) {
    if (ref::distinct(v)) { long long x = ref::exc(v); return {x, x, true}; }
    if (std::is_sorted(v.begin(), v.end())) return {0, 0, true};
    if (v.size() <= 6) { auto b = ref::tie_bounds(v); return {b.exc_min, b.exc_max, false}; }
    long long h = ref::ham(v);
    return {(h + 1) / 2, (long long)v.size() - 1, false};
}
static expectation want_block(const ref::keys& v) {
    if (ref::distinct(v)) { long long x = ref::block(v); return {x, x, true}; }
    if (std::is_sorted(v.begin(), v.end())) return {0, 0, true};
    if (v.size() <= 6) { auto b = ref::tie_bounds(v); return {b.block_min, b.block_max, false}; }
    return {1, (long long)v.size() - 1, false};
}

template<typename C> C fill(const ref::keys& v) { std::vector<rec> r; int id = 0; for (int k: v) r.push_back({k, id++}); return C(r.begin(), r.end()); }

template<typename Want, typename Call>
void judge(const std::string& key, const input& in, Want want, bool desc, Call call) {
    if (!begin_case(key + "|" + in.label())) return;
    count_case(hash_str(key) ^ in.hash(), in.nontrivial());
    ref::keys v = in.keys;
    if (desc) for (auto& x: v) x = -x;
    auto w = want(v);
    g_count = 0; g_budget = 60ull * in.size() * in.size() + 20000;
    long long got = 0;
    try { got = call(); }
    catch (const runaway&) { violation(key + "|runaway", show(in.keys)); return; }
    catch (const std::exception& e) { violation(key + "|exception", std::string(e.what()) + "; input " + show(in.keys)); return; }
    event(w.exact ? "exact_values" : "bounded_values");
    if (got != 0) event("nonzero_values");
    if (got < w.lo || got > w.hi) violation(key + "|value", "returned " + std::to_string(got) + " instead of " + std::to_string(w.lo) + (w.exact ? "" : ".." + std::to_string(w.hi)) + "; input " + show(in.keys));
}

static profile prof(bool light) {
    profile p; p.exhaustive = ctx().thorough ? 7 : 6; p.dense_patterns = ctx().thorough ? 36 : 12;
    p.sizes = {71, 97, 128, 129, 200, 257, 300, 513};
    p.large = {1000, 1024, 1025, 2049, 3000}; p.large_patterns = 12;
    if (light) { p.exhaustive = 5; p.dense_patterns = 3; p.sizes = {100, 257}; p.large = {1025}; p.large_patterns = 4; }
    if (ctx().thorough) { p.size_reps = 4; p.large_patterns = 36; p.large.push_back(10000); }
    return p;
}

template<typename Probe, typename Want>
void all(const char* name, const Probe& probe, Want want) {
    std::string key = std::string("C13|") + name + "|";
#define FORM(light, text, desc, C, expr) \
    for_each_input(prof(light), hash_str(key + text), [&](const input& in) { C c = fill<C>(in.keys); judge(key + text, in, want, desc, [&]() -> long long { return (long long)(expr); }); });
    using ve = std::vector<rec>; using li = std::list<rec>; using fl = std::forward_list<rec>; using dq = std::deque<rec>;
    for_each_input(prof(false), hash_str(key + "vector<int>"), [&](const input& in) {
        const std::vector<int> c = in.keys;
        judge(key + "vector<int>", in, want, false, [&]() -> long long { return (long long)probe(c); });
    });
    FORM(false, "forward_list,it,less", false, fl, probe(c.begin(), c.end(), less_key{}))
    FORM(false, "list,c,greater,mem", true, li, probe(c, greater_key{}, &rec::key))
    FORM(false, "vector,it,greater", true, ve, probe(c.begin(), c.end(), greater_key{}))
    FORM(true, "vector,c,less", false, ve, probe(c, less_key{}))
    FORM(true, "vector,it", false, ve, probe(c.cbegin(), c.cend()))
    FORM(true, "list,it,mem", false, li, probe(c.begin(), c.end(), &rec::key))
    FORM(true, "deque,c,negate", true, dq, probe(c, [](const rec& r) { return -r.key; }))
    FORM(true, "forward_list,c", false, fl, probe(c))
    FORM(true, "forward_list,c,greater,memfn", true, fl, probe(c, std::greater<>{}, &rec::get))
    FORM(true, "vector,c,fptr", false, ve, probe(c, &fptr_less))
    FORM(true, "array", false, ve, probe(c.data(), c.data() + c.size(), less_key{}, [](const rec& r) { return r.key; }))
    FORM(true, "reverse", false, ve, (std::reverse(c.begin(), c.end()), probe(c.rbegin(), c.rend(), less_key{})))
    FORM(true, "indirect_adapter", false, ve, (cppsort::indirect_adapter<std::decay_t<decltype(probe)>>{}(c, less_key{}, &rec::key)))

    // big collections, where counts don't fit in 32 bits
    auto big = [&](const char* text, std::vector<int> v) {
        input in; in.pattern = text; in.seed = 0; in.keys = std::move(v);
        judge(key + "big," + text, in, want, false, [&]() -> long long { return (long long)probe(in.keys); });
    };
    int n = ctx().thorough ? 200000 : 70001;
    std::vector<int> d((std::size_t)n), z((std::size_t)n), r((std::size_t)n);
    for (int i = 0; i < n; ++i) { d[(std::size_t)i] = n - i; z[(std::size_t)i] = i % 2 ? i / 2 : n - i / 2; r[(std::size_t)i] = i + 1; }
    r[(std::size_t)(n - 1)] = 0;
    big("descending", d); 
    if (std::string(name) != "enc") big("zigzag", z);       // the reference is quadratic there
    big("last_first", r);
}

int main(int argc, char** argv) {
    init(argc, argv);
    int k = 0; (void)k;
#define X(p) if (ctx().nshards == 1 || (k++ % ctx().nshards) == ctx().shard) all(#p, cppsort::probe::p, want_##p);
    VH_PROBES_PART(X)
#if PART == 2
    if (ctx().shard == 0) {
        // exc with equivalent elements: the minimum number of exchanges, on all small inputs
        for (int n = 0; n <= 4; ++n) for (auto& v: weak_orderings(n)) {
            if (ref::distinct(v)) continue;
            std::string key = "C13|exc|ties|" + show(v);
            if (!begin_case(key + "|x")) continue;
            auto b = ref::tie_bounds(v);
            long long got = cppsort::probe::exc(v);
            count_case(hash_str(key), true);
            if (got != b.exc_min) violation(key, "returned " + std::to_string(got) + ", the minimum number of exchanges is " + std::to_string(b.exc_min));
        }
    }
#endif
    sample("last case: " + ctx().label);
    return finish();
}
