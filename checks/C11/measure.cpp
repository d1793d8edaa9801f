// C11: comparison counts against the measure of presortedness each adaptive algorithm follows.
#include "vh.h"
#include "vh_alloc.h"
#include <cpp-sort/adapters.h>
#include <cpp-sort/sorters.h>
#include <cmath>
#include <forward_list>
#include <list>
#include "measure_bounds.h"

using namespace vh;
static std::uint64_t count, budget;
struct cmp { bool operator()(int x, int y) const { if (++count > budget) throw runaway(); return x < y; } };
static bool showing = std::getenv("VH_RATIOS") != nullptr;

// The measures, by their definitions
struct measures { double n, runs, monos, enc, sus, osc, rem, inv, dis; };
static const char* measure_names[] = { "runs", "monos", "enc", "sus", "osc", "rem", "inv", "dis" };
static measures measure(const std::vector<int>& v) {
    measures m{};
    std::size_t n = v.size();
    m.n = (double)n;
    m.runs = 1; for (std::size_t i = 1; i < n; ++i) m.runs += v[i] < v[i - 1];
    m.monos = 0; for (std::size_t i = 0; i < n; ) { std::size_t j = i + 1; if (j < n) { if (v[j] < v[i]) while (j < n && v[j] < v[j - 1]) ++j; else while (j < n && !(v[j] < v[j - 1])) ++j; } ++m.monos; i = j; }
    { // encroaching lists: every element goes to the first list it extends
        std::vector<int> head, tail;
        for (int x: v) {
            std::size_t lo = 0, hi = head.size();
            while (lo < hi) { std::size_t mid = (lo + hi) / 2; if (x <= head[mid] || x >= tail[mid]) hi = mid; else lo = mid + 1; }
            if (lo == head.size()) { head.push_back(x); tail.push_back(x); }
            else if (x >= tail[lo]) tail[lo] = x; else head[lo] = x;
        }
        m.enc = (double)head.size();
    }
    { std::vector<int> t; for (int x: v) { auto it = std::upper_bound(t.begin(), t.end(), x, std::greater<>{}); if (it == t.end()) t.push_back(x); else *it = x; }   // tails, decreasing
      std::vector<int> d; for (int x: v) { auto it = std::lower_bound(d.begin(), d.end(), -x); if (it == d.end()) d.push_back(-x); else *it = -x; } m.sus = (double)d.size(); }      // longest strictly decreasing subsequence
    { std::vector<int> t; for (int x: v) { auto it = std::upper_bound(t.begin(), t.end(), x); if (it == t.end()) t.push_back(x); else *it = x; } m.rem = (double)(n - t.size()); }
    std::vector<std::size_t> pos(n); for (std::size_t i = 0; i < n; ++i) pos[i] = i;
    std::stable_sort(pos.begin(), pos.end(), [&](std::size_t a, std::size_t b) { return v[a] < v[b]; });
    std::vector<std::size_t> rank(n); for (std::size_t i = 0; i < n; ++i) rank[pos[i]] = i;
    { std::vector<std::size_t> bit(n + 1, 0); double inv = 0; for (std::size_t i = n; i-- > 0; ) { for (std::size_t k = rank[i]; k; k -= k & (~k + 1)) inv += (double)bit[k]; for (std::size_t k = rank[i] + 1; k <= n; k += k & (~k + 1)) ++bit[k]; } m.inv = inv; }
    for (std::size_t i = 0; i < n; ++i) m.dis = std::max(m.dis, std::fabs((double)i - (double)rank[i]));
    for (std::size_t i = 1; i < n; ++i) m.osc += std::max(0.0, std::fabs((double)rank[i] - (double)rank[i - 1]) - 1);
    return m;
}
static double get(const measures& m, int which) { const double* p = &m.runs; return p[which]; }

// Inputs with more and more disorder of each kind
static const char* family_names[] = { "runs", "mixed_runs", "encroaching", "shuffled_up", "shuffled_mono", "local_shuffle", "displaced", "swapped", "moved", "blocks" };
enum { n_families = sizeof family_names / sizeof *family_names };
static input make_family(int f, int n, int k, std::uint64_t seed) {
    input in; in.pattern = family_names[f]; in.seed = seed * 100000u + (unsigned)k;
    rng r(mix(seed * 37 + (unsigned)f) ^ (std::uint64_t)n * 1000003u ^ (std::uint64_t)k);
    auto& v = in.keys; v.resize((std::size_t)n);
    for (int i = 0; i < n; ++i) v[(std::size_t)i] = i;
    auto below = [&](int b) { return (int)r.below((unsigned)b); };
    auto shuffle = [&](int a, int b) { for (int i = b - 1; i > a; --i) std::swap(v[(std::size_t)i], v[(std::size_t)(a + below(i - a + 1))]); };
    switch (f) {
        case 0: case 1: {
            shuffle(0, n);
            std::vector<int> cut{0, n}; for (int i = 1; i < k; ++i) cut.push_back(below(n)); std::sort(cut.begin(), cut.end());
            for (std::size_t i = 1; i < cut.size(); ++i) { std::sort(v.begin() + cut[i - 1], v.begin() + cut[i]); if (f == 1 && (r.below(2) == 0)) std::reverse(v.begin() + cut[i - 1], v.begin() + cut[i]); }
            break; }
        case 2: {     // k lists growing outwards, the first one contains the others
            std::vector<int> lo((std::size_t)k), hi((std::size_t)k); std::vector<int> out;
            for (int i = 0; i < k; ++i) { lo[(std::size_t)i] = -1 - i * 4 ; hi[(std::size_t)i] = 1 + i * 4; }
            for (int i = 0; i < n; ++i) { std::size_t j = (std::size_t)below(k); out.push_back((r.below(2) == 0) ? (lo[j] -= 1 + below(2 * k)) : (hi[j] += 1 + below(2 * k))); }
            v = out; break; }
        case 3: case 4: {
            std::vector<std::vector<int>> q((std::size_t)k); shuffle(0, n);
            for (int x: v) q[(std::size_t)below(k)].push_back(x);
            for (auto& s: q) { std::sort(s.begin(), s.end()); if (f == 4 && (r.below(2) == 0)) std::reverse(s.begin(), s.end()); }
            std::vector<std::size_t> at((std::size_t)k, 0); std::vector<int> out;
            while ((int)out.size() < n) { std::size_t j = (std::size_t)below(k); if (at[j] < q[j].size()) out.push_back(q[j][at[j]++]); }
            v = out; break; }
        case 5: for (int i = 0; i < n; i += k) shuffle(i, std::min(n, i + k)); break;
        case 6: for (int i = 0; i < k; ++i) v[(std::size_t)below(n)] = below(n); break;
        case 7: for (int i = 0; i < k; ++i) std::swap(v[(std::size_t)below(n)], v[(std::size_t)below(n)]); break;
        case 8: for (int i = 0; i < std::min(k, 300); ++i) { int a = below(n), b = below(n); if (a < b) std::rotate(v.begin() + a, v.begin() + a + 1, v.begin() + b + 1); else std::rotate(v.begin() + b, v.begin() + a, v.begin() + a + 1); } break;
        case 9: { std::vector<std::vector<int>> q; for (int i = 0; i < k; ++i) q.emplace_back(v.begin() + (long)n * i / k, v.begin() + (long)n * (i + 1) / k); for (int i = k - 1; i > 0; --i) std::swap(q[(std::size_t)i], q[(std::size_t)below(i + 1)]); v.clear(); for (auto& s: q) v.insert(v.end(), s.begin(), s.end()); break; }
    }
    return in;
}

template<typename Col, typename S> void run(const char* name, const char* form, const input& in, const measures& m, const S& sorter) {
    std::string key = std::string("C11|") + name + "|" + form + "|measure|" + in.pattern;
    if (!begin_case(key + "|" + in.label())) return;
    const measure_row* row = measure_bound(name, form, in.pattern.c_str(), m.n, m.rem);
    if (!row && !showing) return;
    count_case(hash_str(key) ^ in.hash(), in.size() > 1);
    count = 0; budget = (std::uint64_t)(60 * m.n * (2 + std::log2(m.n + 1)));
    if (row && row->quadratic) budget = (std::uint64_t)(m.n * m.n * 2);
    Col col(in.keys.begin(), in.keys.end());
    bool ran_away = false;
    try { sorter(col, cmp{}); } catch (const runaway&) { ran_away = true; }
    if (showing) { std::printf("R %s %s %s %zu", name, form, in.pattern.c_str(), in.size()); for (int i = 0; i < 8; ++i) std::printf(" %.0f", get(m, i)); std::printf(" %llu\n", (unsigned long long)count); return; }
    event("comparisons", count); event("measured_runs");
    double x = get(m, row->measure), limit = measure_limit(*row, m.n, x);
    event("comparisons_allowed", (std::uint64_t)limit);
    if (ran_away || (double)count > limit)
        violation(key, std::to_string(count) + " comparisons for " + std::to_string(in.size()) + " elements with " + measure_names[row->measure] + " = " + std::to_string((long long)x) + ", the bound is " + std::to_string((long long)limit));
    else if (!std::is_sorted(col.begin(), col.end())) violation(key + "|order", "not sorted");
}

struct no_measure {};
template<typename S> void forms(const char* name, const input& in, const measures& m, const S& s, int cat) { (void)cat; run<std::vector<int>>(name, "vector", in, m, s); }
template<typename S> void forms_bidi(const char* name, const input& in, const measures& m, const S& s) { run<std::vector<int>>(name, "vector", in, m, s); run<std::list<int>>(name, "list", in, m, s); }
template<typename S> void forms_fwd(const char* name, const input& in, const measures& m, const S& s) { forms_bidi(name, in, m, s); run<std::forward_list<int>>(name, "forward_list", in, m, s); }

int main(int argc, char** argv) {
    init(argc, argv);
    bool th = ctx().thorough;
    namespace cs = cppsort;
    std::uint64_t base = mix(ctx().seed * 71) % 1000000007ull;
    int c = 0;
    std::vector<int> sizes{ 60, 100, 333, 1000, 3000, 10000 };
    if (th) sizes = { 50, 60, 75, 100, 180, 333, 520, 1000, 1777, 3000, 10000, 30000, 100000 };
    if (showing) sizes = { 60, 100, 333, 1000, 3000, 10000, 50000 };
    for (int n: sizes) for (int f = 0; f < n_families; ++f) for (double kk = 1; kk <= n; kk *= th ? 1.7 : 2.6) for (int rep = 0; rep < (n > 5000 ? 1 : th ? 4 : 2); ++rep) {
        if (ctx().nshards > 1 && (c++ % ctx().nshards) != ctx().shard) continue;
        int k = (int)kk;
        input in = make_family(f, n, k, base + (unsigned)rep);
        measures m = measure(in.keys);
        forms(     "adaptive_shivers", in, m, cs::adaptive_shivers_sorter{}, 0);
        forms(     "tim",              in, m, cs::tim_sorter{}, 0);
        forms_bidi("verge",            in, m, cs::verge_sorter{});
        forms(     "spin",             in, m, cs::spin_sorter{}, 0);
        forms(     "pdq",              in, m, cs::pdq_sorter{}, 0);
        forms(     "smooth",           in, m, cs::smooth_sorter{}, 0);
        forms_fwd( "cartesian_tree",   in, m, cs::cartesian_tree_sorter{});
        forms_fwd( "splay",            in, m, cs::splay_sorter{});
        forms_fwd( "mel",              in, m, cs::mel_sorter{});
        forms_bidi("slab",             in, m, cs::slab_sorter{});
        forms_bidi("drop_merge",       in, m, cs::drop_merge_sorter{});
        forms_bidi("drop_merge_heap",  in, m, cs::drop_merge_adapter<cs::merge_sorter>{});
        forms(     "split",            in, m, cs::split_sorter{}, 0);
        forms_fwd( "list_mel",         in, m, cs::container_aware_adapter<cs::mel_sorter>{});
        if (n <= 3000) { forms_bidi("insertion", in, m, cs::insertion_sorter{}); forms_bidi("list_insertion", in, m, cs::container_aware_adapter<cs::insertion_sorter>{}); }
    }
    sample("last case: " + ctx().label);
    return finish();
}
