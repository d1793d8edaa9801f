// C03: fixed-size sorters. PART 1..8 sorting networks (N = PART-1 mod 8), 9 merge exchange and odd-even merge,
// 10 low_comparisons and low_moves, exhaustively over permutations, and small_array_adapter.
#include "vh.h"
#include "vh_elem.h"
#include "network.h"
#include <array>
#include <cmath>
#include <limits>
#include <numeric>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/adapters/small_array_adapter.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/sorting_networks.h>
using namespace vh;

// best-known sizes, from docs/Fixed-size-sorters.md
static const int documented_ces[65] = {
    0, 0, 1, 3, 5, 9, 12, 16, 19, 25, 29, 35, 39, 45, 51, 56, 60, 71, 77, 85, 91, 99, 106, 114, 120, 130, 139, 147, 155, 164, 172, 180, 185,
    199, 209, 220, 227, 240, 250, 259, 265, 282, 291, 303, 309, 324, 332, 340, 346, 365, 376, 387, 395, 411, 421, 432, 438, 454, 465, 476, 483, 497, 506, 515, 521 };
static const double comparison_weight[14] = { 0, 0, 2, 16, 112, 832, 6912, 62784, 623232, 6759936, 79937280, 1020833280, 15167554560., 223436206080. };
// (the documentation says 2 for two elements, which no algorithm can do: exchanging them takes three moves)
static const double move_weight[14] = { 0, 0, 3, 17, 122, 898, 7188, 63276, 612048, 6476112, 74558880, 929011680, 12465394560., 179294186880. };

////////////////////////////////////////////////////////////
// Recording comparator: the positions of the elements compared

struct recorder { elem* base = nullptr; int n = 0; ces_t trace; std::uint64_t calls = 0; };
static recorder& rec() { static recorder r; return r; }
static int where(const elem& e) {
    auto& r = rec();
    if (&e >= r.base && &e < r.base + r.n) return (int)(&e - r.base);
    for (int i = 0; i < r.n; ++i) if (r.base[i].id == e.id) return i;
    return -1;
}
template<bool Desc>
struct tcmp {
    bool operator()(const elem& a, const elem& b) const {
        use_check(a, "comparison"); use_check(b, "comparison");
        auto& r = rec();
        ++r.calls;
        int x = where(a), y = where(b);
        r.trace.emplace_back(std::min(x, y), std::max(x, y));
        return Desc ? b.key < a.key : a.key < b.key;
    }
};

static std::vector<int> simulate(const ces_t& t, std::vector<int> v, bool desc) {
    for (auto& p: t) if (p.first >= 0) { int& a = v[p.first]; int& b = v[p.second]; if (desc ? a < b : b < a) std::swap(a, b); }
    return v;
}

// Inputs of size n for the runs on the real code
template<typename F>
static void inputs(int n, std::uint64_t salt, F f) {
    std::uint64_t base = mix(ctx().seed * 31 + salt) % 1000003;
    std::uint64_t k = 0;
    if (n <= (ctx().thorough ? 7 : 6)) for (auto& w: weak_orderings(n)) { input in; in.pattern = "weak"; in.seed = k++; in.keys = w; f(in); }
    int bits = ctx().thorough ? 16 : 11;
    if (n <= bits) for (std::uint64_t m = 0; m < (1ull << n); ++m) { input in; in.pattern = "01"; in.seed = m; for (int i = 0; i < n; ++i) in.keys.push_back((int)(m >> i & 1)); f(in); }
    for (int p = 0; p < n_patterns; ++p) f(make_input(p, n, base));
    rng r(base + (unsigned)n);
    for (int t = 0; t < (ctx().thorough ? 2000 : 150); ++t) {
        input in; in.pattern = "bits"; in.seed = base * 10000 + (unsigned)t;
        int c = 1 + (int)r.below((unsigned)std::max(1, n));
        for (int i = 0; i < n; ++i) in.keys.push_back((int)r.below((unsigned)std::max(1, n)) < c);
        f(in);
    }
}

////////////////////////////////////////////////////////////
// Scalars: the branchless code paths

template<typename T, typename Less, typename Call>
static void scalar_case(const std::string& name, int n, std::vector<T> v, const char* what, std::uint64_t seed, Less less, Call call) {
    if (!begin_case(name + "/" + what + "/n=" + std::to_string(n) + "/s=" + std::to_string(seed))) return;
    enum { G = 4 };
    std::vector<T> buf;
    auto guard = [](int i) { return i % 2 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest(); };
    for (int i = 0; i < G; ++i) buf.push_back(guard(i));
    buf.insert(buf.end(), v.begin(), v.end());
    for (int i = 0; i < G; ++i) buf.push_back(guard(i + 1));
    call(buf.data() + G, buf.data() + G + n);
    mon().key = name + "|" + what;
    for (int i = 0; i < G; ++i) if (buf[i] != guard(i) || buf[G + n + i] != guard(i + 1)) mon().bad("guard", "an element outside the N was written");
    std::vector<T> out(buf.begin() + G, buf.begin() + G + n);
    for (int i = 1; i < n; ++i) if (less(out[i], out[i - 1])) { mon().bad("order", "position " + std::to_string(i)); break; }
    auto bytes = [](std::vector<T> x) { std::sort(x.begin(), x.end(), [](T a, T b) { if (a < b) return true; if (b < a) return false; return std::signbit((long double)a) && !std::signbit((long double)b); }); std::vector<int> s; for (T a: x) s.push_back(std::signbit((long double)a)); return std::make_pair(x, s); };
    if (bytes(out) != bytes(v)) mon().bad("permutation", "a value was lost or duplicated");
    event("scalar_runs");
    std::uint64_t h = hash_str(name + what) ^ mix(seed + (unsigned)n);
    count_case(h, n > 1);
}

template<typename T>
static std::vector<T> scalar_values(int n, rng& r, int mode) {
    std::vector<T> v;
    for (int i = 0; i < n; ++i) {
        std::uint64_t x = r.next();
        switch (mode) {
            case 0: v.push_back((T)(r.below(2))); break;
            case 1: v.push_back((T)(x % 100)); break;
            case 2: { T c[4] = { std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max(), (T)0, (T)1 }; v.push_back(c[x % 4]); break; }
            default: v.push_back((T)((std::int64_t)x >> (x % 60))); break;
        }
    }
    return v;
}
template<> std::vector<double> scalar_values<double>(int n, rng& r, int mode) {
    std::vector<double> v;
    for (int i = 0; i < n; ++i) { std::uint64_t x = r.next(); double c[6] = { -0.0, 0.0, 1.5, -1.5, HUGE_VAL, -HUGE_VAL }; v.push_back(mode == 0 ? c[x % 2] : mode == 1 ? c[x % 6] : (double)(std::int64_t)x * 1e-9); }
    return v;
}
template<> std::vector<float> scalar_values<float>(int n, rng& r, int mode) { std::vector<float> f; for (double d: scalar_values<double>(n, r, mode)) f.push_back((float)d); return f; }

template<typename T, typename S>
static void scalars(const std::string& name, int n, const char* type, const S& sorter) {
    rng r(mix(ctx().seed) ^ hash_str(name + type) ^ (unsigned)n);
    for (int t = 0; t < (ctx().thorough ? 200 : 24); ++t) {
        auto v = scalar_values<T>(n, r, t % 4);
        std::string w = type;
        switch (t / 4 % 3) {
            case 0: scalar_case(name, n, v, type, (unsigned)t, std::less<T>(), [&](T* a, T* b) { sorter(a, b); }); break;
            case 1: scalar_case(name, n, v, (w + "/greater").c_str(), (unsigned)t, std::greater<T>(), [&](T* a, T* b) { sorter(a, b, std::greater<>{}); }); break;
            default: scalar_case(name, n, v, (w + "/lambda").c_str(), (unsigned)t, std::less<T>(), [&](T* a, T* b) { sorter(a, b, [](T x, T y) { return x < y; }); });
        }
    }
}
template<typename S>
static void all_scalars(const std::string& name, int n, const S& s) {
    scalars<int>(name, n, "int", s);
    scalars<double>(name, n, "double", s);
#ifndef NARROW
    if (n <= 20) { scalars<signed char>(name, n, "schar", s); scalars<unsigned long long>(name, n, "ull", s); scalars<float>(name, n, "float", s); }
#endif
}

////////////////////////////////////////////////////////////
// One run over instrumented elements

enum { form_iters = 0, form_desc = 1, form_proj = 2, n_forms = 3 };

template<typename S>
static bool run_elems(const std::string& name, const input& in, int form, const S& sorter, bool stable, ces_t* trace, std::uint64_t* calls) {
    static const char* const fn[] = { "iters", "desc", "proj" };
    if (!begin_case(name + "/" + fn[form] + "/" + in.label())) return true;
    auto& m = mon();
    m.key = name + "|" + fn[form];
    m.reset_counters(); m.lenient_move = false;
    arena<elem> ar(in.keys);
    auto& r = rec();
    r.base = ar.begin(); r.n = (int)in.size(); r.trace.clear(); r.calls = 0;
    int before = ctx().violations;
    m.in_call = true;
    typedef chk_ra<elem> it;
    it b(ar.begin(), ar.begin(), ar.end()), e(ar.end(), ar.begin(), ar.end());
    try {
        switch (form) {
            case form_iters: sorter(b, e, tcmp<false>{}); break;
            case form_desc: sorter(b, e, tcmp<true>{}); break;
            default: sorter(b, e, cmp_int_desc{}, proj_key{}); break;
        }
    } catch (...) { m.bad("exception", "the sorter let an exception out"); }
    m.in_call = false;
    if (form == form_proj) r.calls = m.compares;
    judge_elems(ar.begin(), in.size(), in.keys, form != form_iters, stable);
    if (!ar.guards_intact()) m.bad("guard", "an element outside the N was changed");
    if (trace) *trace = r.trace;
    if (calls) *calls = r.calls;
    event("comparisons", r.calls);
    count_case(in.hash() ^ hash_str(name + fn[form]), in.nontrivial());
    return ctx().violations == before;
}

// Does this list of compare-exchanges sort everything? (exhaustive over 0-1 inputs up to 64 lines)
static void decide(const std::string& name, int n, const ces_t& ces, const char* what) {
    if (n > 64) return;
    if (!begin_case(name + "/" + what + "/every-0-1-input")) return;
    mon().key = name + "|" + what;
    for (auto& p: ces) if (p.first < 0 || p.second >= n || p.first >= p.second) { mon().bad("bad-pair", "(" + std::to_string(p.first) + "," + std::to_string(p.second) + ")"); return; }
    net_result res = check_network(n, ces);
    event("network_states_followed", res.states);
    if (res.verdict == 1) event("networks_decided");
    else if (res.verdict == 0 || quick_find(n, ces)[0] != '(') {
        rng r(5);
        mon().bad("0-1", "the compare-exchanges observed do not sort every 0-1 input of " + std::to_string(n) + " lines, e.g. " + find_bad_input(n, ces, r));
    } else event("networks_too_large");
    count_case(hash_str(name + what) ^ (unsigned)n, true);
}

template<template<std::size_t> class S, std::size_t N, bool Unroll>
struct unroll { template<typename A> static void go(const std::string& name, const A& pairs, const input& in) {
    run_elems(name + "/force_unroll", in, form_iters, [&](chk_ra<elem> b, chk_ra<elem>, tcmp<false> c) { cppsort::utility::swap_index_pairs_force_unroll(b, pairs, c); }); }
    template<typename F> static void run_elems(const std::string& nm, const input& in, int, F f) {
        struct w { F f; void operator()(chk_ra<elem> b, chk_ra<elem> e, tcmp<false> c) const { f(b, e, c); }
                   void operator()(chk_ra<elem> b, chk_ra<elem> e, tcmp<true>) const { f(b, e, tcmp<false>{}); }
                   void operator()(chk_ra<elem> b, chk_ra<elem> e, cmp_int_desc, proj_key) const { f(b, e, tcmp<false>{}); } };
        ::run_elems(nm, in, form_iters, w{f}, false, nullptr, nullptr);
    } };
template<template<std::size_t> class S, std::size_t N> struct unroll<S, N, false> { template<typename A> static void go(const std::string&, const A&, const input&) {} };

template<template<std::size_t> class S, std::size_t N>
static void network(const char* fam, bool documented) {
    const int n = (int)N;
    std::string name = std::string(fam) + "/" + std::to_string(N);
    S<N> sorter;
    const bool stable = cppsort::is_always_stable_v<S<N>> || (documented && N <= 3);
    // index_pairs(), and its size
    auto pairs = S<N>::template index_pairs<int>();
    auto pairs2 = S<N>::index_pairs();
    ces_t ip;
    for (auto& p: pairs) ip.emplace_back(p.first, p.second);
    if (begin_case(name + "/index_pairs")) {
        mon().key = name + "|index_pairs";
        if (documented && (int)ip.size() != documented_ces[n]) mon().bad("count", std::to_string(ip.size()) + " compare-exchanges where " + std::to_string(documented_ces[n]) + " are documented");
        if (pairs2.size() != ip.size()) mon().bad("type", "index_pairs<int>() and index_pairs() differ");
        else for (std::size_t k = 0; k < ip.size(); ++k) if (pairs2[k].first != ip[k].first || pairs2[k].second != ip[k].second) { mon().bad("type", "index_pairs<int>() and index_pairs() differ"); break; }
        count_case(hash_str(name), n > 1);
    }
    // the real code: same compare-exchanges whatever the input, which explain its result
    ces_t ref; bool have = false; std::uint64_t inputs_seen = 0;
    auto judge = [&](const input& in, int form) {
        auto hits = ctx().only_hits;
        ces_t t; std::uint64_t calls = 0;
        bool ok = run_elems(name, in, form, sorter, stable, &t, &calls);
        if (!ctx().only.empty() && hits == ctx().only_hits) return;
        ++inputs_seen;
        if (calls != ip.size()) mon().bad("count", std::to_string(calls) + " comparisons, where index_pairs() has " + std::to_string(ip.size()) + "; input " + show(in.keys));
        if (form == form_proj || !ok) return;
        if (!have) { ref = t; have = true; }
        else if (t != ref) mon().bad("data-dependent", "the compare-exchanges depend on the contents; input " + show(in.keys));
    };
    {   // the reference trace, even when a single case is replayed
        std::string only; only.swap(ctx().only);
        ces_t t; std::uint64_t calls;
        if (run_elems(name, make_input(7, n, 0), form_iters, sorter, stable, &t, &calls)) { ref = t; have = true; }
        only.swap(ctx().only);
    }
    int k = 0;
    inputs(n, hash_str(name), [&](const input& in) { judge(in, ctx().thorough || n <= 5 ? k % 3 : (k % 8 == 5 ? 1 : k % 8 == 6 ? 2 : 0)); ++k; });
    if (have && ctx().only.empty()) {
        rng r(mix(ctx().seed) + N);
        for (int t = 0; t < 50; ++t) {
            std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back((int)r.below((unsigned)n + 1));
            auto s = simulate(ref, v, false);
            if (n <= 64 && !std::is_sorted(s.begin(), s.end())) { mon().key = name + "|trace"; mon().bad("does-not-sort", show(v)); break; }
        }
        event("traces_recorded", inputs_seen);
    }
    if (have) decide(name, n, ref, "observed");
    if (!have || ip != ref) decide(name, n, ip, "index_pairs");
    else event("index_pairs_identical_to_observed");
    // swap_index_pairs and its unrolled variant
    struct by_pairs { decltype(pairs)& p; 
        void operator()(chk_ra<elem> b, chk_ra<elem>, tcmp<false> c) const { cppsort::utility::swap_index_pairs(b, p, c); }
        void operator()(chk_ra<elem> b, chk_ra<elem>, tcmp<true> c) const { cppsort::utility::swap_index_pairs(b, p, c); }
        void operator()(chk_ra<elem> b, chk_ra<elem>, cmp_int_desc c, proj_key pr) const { cppsort::utility::swap_index_pairs(b, p, c, pr); } };
    int q = 0;
    for (int p = 0; p < n_patterns; p += 2) {
        auto in = make_input(p, n, ctx().seed);
        run_elems(name + "/swap_index_pairs", in, q++ % 3, by_pairs{pairs}, false, nullptr, nullptr);
        unroll<S, N, (N <= 33)>::go(name, pairs, in);
    }
    rng ri(mix(ctx().seed + 77) + N);
    for (int t = 0; t < 20; ++t) scalar_case(name + "/swap_index_pairs", n, scalar_values<int>(n, ri, t % 4), "int", (unsigned)t, std::less<int>(), [&](int* a, int*) { cppsort::utility::swap_index_pairs(a, pairs); });
    all_scalars(name, n, sorter);
    // 0-1 inputs of the branchless path
    int bits = ctx().thorough ? 18 : 13;
    if (n <= bits && n > 0) {
        if (begin_case(name + "/int/every-0-1-input")) {
            mon().key = name + "|int";
            std::vector<int> v((std::size_t)n);
            for (u64 x = 0; x < (1ull << n); ++x) {
                for (int i = 0; i < n; ++i) v[i] = (int)(x >> i & 1);
                sorter(v.data(), v.data() + n);
                u64 y = 0; for (int i = 0; i < n; ++i) y |= (u64)(v[i] & 1) << i;
                if (!sorted_word(y, n) || __builtin_popcountll(x) != __builtin_popcountll(y)) { mon().bad("0-1", "input " + std::to_string(x)); break; }
            }
            event("int_01_inputs", 1ull << n);
            count_case(hash_str(name + "/int01"), n > 1);
        }
    }
    sample(name + ": " + std::to_string(ref.size()) + " compare-exchanges, the same for " + std::to_string(inputs_seen) + " inputs");
}

////////////////////////////////////////////////////////////
// low_comparisons_sorter and low_moves_sorter

static std::uint64_t n_moves, n_cmps;
struct mv { int k; mv(int x = 0): k(x) {} mv(mv&& o): k(o.k) { o.k = -1; ++n_moves; } mv& operator=(mv&& o) { k = o.k; o.k = -1; ++n_moves; return *this; } };
struct cmp_mv { bool operator()(const mv& a, const mv& b) const { ++n_cmps; return a.k < b.k; } };

template<template<std::size_t> class S, std::size_t N>
static void permutations(const char* fam, double doc_cmp, double doc_mov) {
    const int n = (int)N;
    std::string name = std::string(fam) + "/" + std::to_string(N);
    if (!begin_case(name + "/every-permutation")) return;
    mon().key = name + "|permutations";
    std::vector<int> p((std::size_t)n); std::iota(p.begin(), p.end(), 0);
    std::vector<mv> v((std::size_t)n);
    S<N> sorter;
    std::uint64_t perms = 0, worst = 0; n_moves = n_cmps = 0;
    do {
        for (int i = 0; i < n; ++i) v[i].k = p[i];
        std::uint64_t c0 = n_cmps;
        sorter(v.data(), v.data() + n, cmp_mv{});
        worst = std::max(worst, n_cmps - c0);
        bool ok = true; for (int i = 0; i < n; ++i) ok &= v[i].k == i;
        if (!ok) { mon().bad("order", "input " + show(p)); return; }
        ++perms;
    } while (std::next_permutation(p.begin(), p.end()));
    if (doc_cmp >= 0 && (double)n_cmps != doc_cmp) mon().bad("comparison-weight", std::to_string(n_cmps) + " comparisons over every permutation, where " + std::to_string((long long)doc_cmp) + " are documented");
    if (doc_mov >= 0 && (double)n_moves != doc_mov) mon().bad("move-weight", std::to_string(n_moves) + " moves over every permutation, where " + std::to_string((long long)doc_mov) + " are documented");
    event("permutations_sorted", perms);
    sample(name + ": " + std::to_string(perms) + " permutations, " + std::to_string(n_cmps) + " comparisons (worst " + std::to_string(worst) + "), " + std::to_string(n_moves) + " moves");
    count_case(hash_str(name + "/perms"), n > 1);
}

template<template<std::size_t> class S, std::size_t N>
static void low(const char* fam) {
    std::string name = std::string(fam) + "/" + std::to_string(N);
    int k = 0;
    inputs((int)N, hash_str(name), [&](const input& in) { run_elems(name, in, k++ % 3, S<N>{}, cppsort::is_always_stable_v<S<N>>, nullptr, nullptr); });
    all_scalars(name, (int)N, S<N>{});
    rng r(mix(ctx().seed * 3 + 1) + hash_str(name));
    if (N <= 1) return;
    if (begin_case(name + "/random-permutations")) {
        mon().key = name + "|permutations";
        std::vector<int> p((std::size_t)N); std::iota(p.begin(), p.end(), 0); std::vector<mv> v(N);
        std::vector<int> w((std::size_t)N);
        int rounds = ctx().thorough ? 3000000 : 200000;
        for (int t = 0; t < rounds; ++t) {
            r.shuffle(p);
            unsigned d = 1 + t % 3;      // equivalent elements too
            for (std::size_t i = 0; i < N; ++i) { v[i].k = p[i] / (int)d; w[i] = v[i].k; }
            S<N>{}(v.data(), v.data() + N, cmp_mv{});
            bool ok = true; for (std::size_t i = 0; i < N; ++i) ok &= v[i].k == (int)i / (int)d;
            S<N>{}(w.data(), w.data() + N);
            bool ok2 = true; for (std::size_t i = 0; i < N; ++i) ok2 &= w[i] == (int)i / (int)d;
            if (!ok || !ok2) { mon().bad(ok ? "order-int" : "order", "permutation " + show(p) + " / " + std::to_string(d)); break; }
        }
        event("random_permutations", (unsigned)rounds);
        count_case(hash_str(name + "/rand") ^ ctx().seed, true);
    }
}

////////////////////////////////////////////////////////////
// small_array_adapter: dispatches to the fixed-size sorter, whatever the call

template<template<std::size_t> class S, std::size_t N>
static void arrays(const char* fam) {
    std::string name = std::string("small_array/") + fam + "/" + std::to_string(N);
    cppsort::small_array_adapter<S> ad;
    for (int p = 0; p < n_patterns; p += 3) {
        auto in = make_input(p, (int)N, ctx().seed);
        for (int form = 0; form < 6; ++form) {
            if (!begin_case(name + "/form" + std::to_string(form) + "/" + in.label())) continue;
            mon().key = name + "|form" + std::to_string(form);
            std::array<mv, N> a, direct; mv c[N];
            for (std::size_t i = 0; i < N; ++i) { a[i].k = c[i].k = direct[i].k = in.keys[i]; }
            auto proj = [](const mv& x) { return -x.k; };
            auto cnt = [](int x, int y) { ++n_cmps; return x < y; };
            n_cmps = n_moves = 0;
            bool desc = false;
            switch (form) {
                case 0: ad(a, cmp_mv{}); break;
                case 1: ad(c, cmp_mv{}); break;
                case 2: ad(a, cnt, proj); desc = true; break;
                case 3: ad(c, cnt, proj); desc = true; break;
                case 4: cppsort::small_array_adapter<S, std::index_sequence<N>>{}(a, cmp_mv{}); break;
                default: cppsort::small_array_adapter<S, std::index_sequence<0, N>>{}(c, cmp_mv{}); break;
            }
            std::uint64_t nc = n_cmps, nm = n_moves;
            bool ca = form == 0 || form == 2 || form == 4;
            std::vector<int> got, want = in.keys; for (std::size_t i = 0; i < N; ++i) got.push_back(ca ? a[i].k : c[i].k);
            std::sort(want.begin(), want.end()); if (desc) std::reverse(want.begin(), want.end());
            if (got != want) mon().bad("order", show(in.keys));
            n_cmps = n_moves = 0;
            if (desc) S<N>{}(direct, cnt, proj); else S<N>{}(direct, cmp_mv{});
            if (n_cmps != nc || n_moves != nm) mon().bad("dispatch", "comparisons and moves differ from the fixed-size sorter's");
            count_case(in.hash() ^ hash_str(name) ^ (unsigned)form, in.nontrivial());
        }
    }
}

////////////////////////////////////////////////////////////

static int turn = 0;
static bool mine() { return ctx().nshards == 1 || turn++ % ctx().nshards == ctx().shard; }

#if PART <= 8
template<std::size_t... I> static void run(std::index_sequence<I...>) {
    int d[] = { (8 * I + PART - 1 <= 64 && mine() ? (network<cppsort::sorting_network_sorter, (8 * I + PART - 1 <= 64 ? 8 * I + PART - 1 : 0)>("sorting_network", true), 0) : 0)... }; (void)d;
}
static void go() { run(std::make_index_sequence<9>{}); }
#elif PART == 9 || PART == 11
template<std::size_t... I> static void run(std::index_sequence<I...>) {
    int d[] = { (mine() ? (network<cppsort::merge_exchange_network_sorter, I>("merge_exchange", false), 0) : 0)... }; (void)d;
}
static void go() {
    run(std::index_sequence<
#if PART == 9
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 25, 31, 33, 65, 128
#else
    21, 22, 23, 24, 27, 29, 32, 37, 40, 47, 48, 49, 56, 63, 64, 100, 200
#endif
    >{});
#if PART == 11
#define OE(k) if (mine()) network<cppsort::odd_even_merge_network_sorter, k>("odd_even_merge", false);
    OE(0) OE(1) OE(2) OE(4) OE(8) OE(16) OE(32) OE(64) OE(128)
#endif
}
#elif PART == 10
template<std::size_t... I> static void run_perms(std::index_sequence<I...>) {
    int d[] = { (mine() ? (permutations<cppsort::low_comparisons_sorter, I>("low_comparisons", comparison_weight[I], -1), 0) : 0)...,
                (mine() ? (permutations<cppsort::low_moves_sorter, I>("low_moves", -1, move_weight[I]), 0) : 0)... }; (void)d;
}
static void go() {
    if (mine()) permutations<cppsort::low_comparisons_sorter, 11>("low_comparisons", comparison_weight[11], -1);
    if (mine()) permutations<cppsort::low_moves_sorter, 11>("low_moves", -1, move_weight[11]);
    if (ctx().thorough) {
        if (mine()) permutations<cppsort::low_comparisons_sorter, 12>("low_comparisons", comparison_weight[12], -1);
        if (mine()) permutations<cppsort::low_moves_sorter, 12>("low_moves", -1, move_weight[12]);
    }
    run_perms(std::make_index_sequence<11>{});
}
#elif PART == 12 || PART == 13
#if PART == 12
#define LOW low_comparisons_sorter
#define LOWS "low_comparisons"
#else
#define LOW low_moves_sorter
#define LOWS "low_moves"
#endif
template<std::size_t... I> static void run_low(std::index_sequence<I...>) { int d[] = { (mine() ? (low<cppsort::LOW, I>(LOWS), 0) : 0)... }; (void)d; }
static void go() {
    run_low(std::make_index_sequence<14>{});
#if PART == 13
    if (mine()) { low<cppsort::low_moves_sorter, 20>("low_moves"); low<cppsort::low_moves_sorter, 33>("low_moves"); }
#endif
}
#else
template<std::size_t... I> static void run_arrays(std::index_sequence<I...>) {
    int d[] = { (arrays<cppsort::low_comparisons_sorter, I + 1>("low_comparisons"), arrays<cppsort::low_moves_sorter, I + 1>("low_moves"), arrays<cppsort::sorting_network_sorter, I + 1>("sorting_network"), arrays<cppsort::merge_exchange_network_sorter, I + 1>("merge_exchange"), 0)... }; (void)d;
}
template<typename A, typename T, typename = void> struct callable: std::false_type {};
template<typename A, typename T> struct callable<A, T, decltype((void)std::declval<const A&>()(std::declval<T&>()))>: std::true_type {};
static void go() {
    {
        run_arrays(std::make_index_sequence<13>{});
        arrays<cppsort::sorting_network_sorter, 32>("sorting_network"); arrays<cppsort::sorting_network_sorter, 64>("sorting_network");
        if (begin_case("small_array/domain")) {
            mon().key = "small_array|domain";
            using lc = cppsort::small_array_adapter<cppsort::low_comparisons_sorter>;
            using sn = cppsort::small_array_adapter<cppsort::sorting_network_sorter>;
            bool ok = callable<lc, std::array<int, 13>>::value && !callable<lc, std::array<int, 14>>::value && !callable<lc, int[14]>::value && !callable<lc, std::vector<int>>::value
                && callable<sn, std::array<int, 33>>::value && callable<sn, std::array<int, 64>>::value && !callable<sn, std::array<int, 65>>::value && !callable<sn, std::vector<int>>::value
                && callable<cppsort::small_array_adapter<cppsort::low_moves_sorter>, int[33]>::value;
            if (!ok) mon().bad("callable", "callable with the wrong sizes");
            count_case(1, true);
        }
    }
}
#endif

int main(int argc, char** argv) {
    init(argc, argv);
    go();
    return finish();
}
