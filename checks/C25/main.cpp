// C25: sorters, adapters, probes and utilities over proxy iterators.
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include "proxy.h"
#if PART <= 15
#   include "vh_sorters.h"
#endif
#include <cpp-sort/adapters.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/probes.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/utility/apply_permutation.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>
#include <deque>
#include <functional>

using namespace px;

template<typename Store>
static bool judge(Store& s, const std::vector<int>& keys, bool desc, bool stable) {
    std::vector<char> seen(keys.size(), 0); bool ok = true;
    for (std::size_t i = 0; i < keys.size(); ++i) {
        auto& k = s.key(i); auto& p = s.load(i);
        if (k.state != h_live || p.state != h_live) { w().bad("half lost", show(keys)); return false; }
        if (k.id != p.id || k.v != p.v) { w().bad("halves separated", show(keys)); return false; }
        if (k.id < 0 || (std::size_t)k.id >= keys.size() || seen[(std::size_t)k.id]++ || keys[(std::size_t)k.id] != k.v) { w().bad("not a permutation", show(keys)); return false; }
        if (i) {
            auto& q = s.key(i - 1);
            if (desc ? q.v < k.v : k.v < q.v) { w().bad("not sorted", show(keys)); return false; }
            if (stable && q.v == k.v && q.id > k.id) { w().bad("not stable", show(keys)); ok = false; }
        }
    }
    return ok;
}

// Every call: counters are compared afterwards, and nothing may have moved but through iter_move, iter_swap and stores
template<typename Store, typename F>
static void call(Store& s, const std::vector<int>& keys, F f) {
    watch& x = w(); long long live = x.live; std::uint64_t im = x.iter_moves, is = x.iter_swaps, st = x.stores, de = x.derefs, c = x.compares, p = x.projections, hm = x.half_moves;
    x.in_call = true; f(); x.in_call = false;
    if (x.live != live) x.bad("halves leaked or destroyed", std::to_string(x.live - live));
    event("iter_moves", x.iter_moves - im); event("iter_swaps", x.iter_swaps - is); event("stores", x.stores - st); event("dereferences", x.derefs - de); event("comparisons", x.compares - c); event("projections", x.projections - p); event("half_moves", x.half_moves - hm);
    // values taken out of the range and values put back are as many
    if (x.iter_moves - im != x.stores - st) x.bad("values taken out and put back differ", std::to_string(x.iter_moves - im) + " and " + std::to_string(x.stores - st) + " for " + show(keys));
    (void)s;
}

static std::vector<input> inputs(std::size_t max, std::uint64_t salt, int n) {
    std::vector<input> out; rng r(mix(ctx().seed * 91 + salt));
    for (int i = 0; i < n; ++i) {
        int size = i % 4 == 0 ? (int)r.below(12) : i % 4 == 1 ? (int)r.below(40) : i % 4 == 2 ? 20 + (int)r.below(180) : (int)r.below(max);
        out.push_back(make_input((int)r.below((std::uint64_t)n_patterns), std::min(size, (int)max), r.next() % 1000003));
    }
    return out;
}

#if PART <= 15
// Before C++20, std::reverse_iterator has no customisation points of its own and the algorithms do not look through it: only judged since
#if __cplusplus >= 202002L
template<typename T> using reversible = T;
#else
template<typename T> using reversible = std::forward_iterator_tag;
#endif
template<typename I, typename S> static bool reversed(const S& s, I b, I e, std::bidirectional_iterator_tag) { s(std::make_reverse_iterator(e), std::make_reverse_iterator(b), px::less{}); event("reversed_ranges_sorted"); return true; }
template<typename I, typename S> static bool reversed(const S& s, I b, I e, std::forward_iterator_tag) { s(b, e, px::less{}); return false; }

template<typename Store, typename Cat, bool Sw, typename S>
static void over(const std::string& what, const S& s, std::size_t max, bool stable, int n) {
    using I = it<Store, Cat, Sw>;
    int form = 0;
    for (auto& in: inputs(max, hash_str(what), n)) {
        std::string label = "C25|" + what + "|" + in.label();
        if (!begin_case(label)) continue;
        w().key = "C25|" + what;
        Store st(in.keys); I b(&st, 0), e(&st, st.n()); px::range<I> r{ b, e };
        bool desc = false;
        call(st, in.keys, [&] {
            switch (form++ % 7) {
                case 0: s(b, e, px::less{}); break;
                case 1: s(r, px::greater{}); desc = true; break;
                case 2: s(b, e, int_greater{}, by_value{}); desc = true; break;
                case 3: s(r, int_less{}, by_reference{}); break;
                case 4: s(b, e, px::less{}, cppsort::utility::identity{}); break;
                case 5: s(r, by_value{}); break;
                case 6: desc = reversed(s, b, e, reversible<typename Cat::type>{}); break;
            }
        });
        judge(st, in.keys, desc, stable);
        count_case(hash_str(label), in.nontrivial()); event("ranges_sorted");
        if (in.keys.size() > 10) sample(label);
    }
}
template<typename Cat, typename S>
static void every(const std::string& name, const S& s, std::size_t max, bool stable, const char* cat) {
    int n = ctx().thorough ? 240 : 18;
    over<zip_store, Cat, false>(name + "|zip," + cat, s, max, stable, n);
    over<zip_store, Cat, true>(name + "|zip with iter_swap," + cat, s, max, stable, n);
    over<obj_store, Cat, true>(name + "|immovable elements," + cat, s, max, stable, n);
}
// std::vector<bool>: references are prvalues, without customised iter_move
template<typename S>
static void bits(const std::string& name, const S& s, std::size_t max, bool stable) {
    (void)stable;
    int i = 0;
    for (auto& in: inputs(max, hash_str(name) + 3, ctx().thorough ? 200 : 18)) {
        std::string label = "C25|" + name + "|vector<bool>|" + in.label();
        if (!begin_case(label)) continue;
        w().key = "C25|" + name + "|vector<bool>";
        std::vector<bool> v; int cut = in.keys.empty() ? 0 : in.keys[in.keys.size() / 2]; std::size_t ones = 0;
        for (int k: in.keys) { v.push_back(i % 3 == 1 ? (k & 1) : k < cut); ones += v.back(); }
        bool desc = false;
        switch (i++ % 4) {
            case 0: s(v); break;
            case 1: s(v.begin(), v.end(), std::greater<>{}); desc = true; break;
            case 2: s(v, std::greater<>{}, [](bool b) { return (int)b; }); desc = true; break;
            case 3: s(v.begin(), v.end(), [](bool a, bool b) { return a < b; }); break;
        }
        for (std::size_t k = 0; k < v.size(); ++k) if (v[k] != (desc ? k < ones : k >= v.size() - ones)) { w().bad("not sorted", show(in.keys)); break; }
        count_case(hash_str(label), ones > 0 && ones < v.size()); event("bit_ranges_sorted");
    }
}
template<vh_cat C> struct cat_c {};
template<typename S> static void sorter(const std::string& n, const S& s, std::size_t max, bool stable, cat_c<vh_ra>) { every<random_access_tag>(n, s, max, stable, "random access"); bits(n, s, max, stable); }
template<typename S> static void sorter(const std::string& n, const S& s, std::size_t max, bool stable, cat_c<vh_bidi>) { sorter(n, s, max, stable, cat_c<vh_ra>()); every<bidirectional_tag>(n, s, max, stable, "bidirectional"); }
template<typename S> static void sorter(const std::string& n, const S& s, std::size_t max, bool stable, cat_c<vh_fwd>) { sorter(n, s, max, stable, cat_c<vh_bidi>()); every<forward_tag>(n, s, max, stable, "forward"); }

template<typename S> struct proxy_capable: std::true_type {};
template<> struct proxy_capable<cppsort::std_sorter>: std::false_type {};
template<> struct proxy_capable<cppsort::stable_adapter<cppsort::std_sorter>>: std::false_type {};
template<typename S, typename C> static void if_capable(const std::string& n, const S& s, std::size_t max, bool stable, C c, std::true_type) { sorter(n, s, max, stable, c); }
template<typename S, typename C> static void if_capable(const std::string& n, const S& s, std::size_t max, bool stable, C, std::false_type) { bits(n, s, max, stable); }
static void run() {
#define X(name, type, cat, speed, stable) { static const type s{}; if_capable(#name, s, speed == vh_heavy ? 160 : speed == vh_quadratic ? 200 : 1200, stable, cat_c<cat>(), proxy_capable<type>()); }
    VH_SORTERS_PART(X)
#undef X
}

#elif PART == 16 || PART == 18                          // fixed-size sorters, type-specific sorters, nested adapters
template<typename Store, bool Sw, typename S> static void one(const std::string& what, const S& s, const std::vector<int>& keys, bool stable, int form) {
    using I = it<Store, random_access_tag, Sw>;
    if (!begin_case("C25|" + what + "|" + std::to_string(hash_str(show(keys, 1000))))) return;
    w().key = "C25|" + what;
    Store st(keys); I b(&st, 0), e(&st, st.n()); bool desc = false; px::range<I> r{ b, e };
    call(st, keys, [&] { switch (form % 4) { case 0: s(b, e, px::less{}); break; case 1: s(b, e, px::greater{}); desc = true; break; case 2: s(b, e, int_greater{}, by_value{}); desc = true; break; case 3: s(r, int_less{}, by_reference{}); break; } });
    judge(st, keys, desc, stable);
    count_case(hash_str(what + show(keys, 1000)), keys.size() > 1); event("ranges_sorted");
}
template<typename S> static void three(const std::string& what, const S& s, const std::vector<int>& keys, bool stable, int form) {
    one<zip_store, false>(what + "|zip", s, keys, stable, form); one<zip_store, true>(what + "|zip with iter_swap", s, keys, stable, form + 1); one<obj_store, true>(what + "|immovable elements", s, keys, stable, form + 2);
}
template<template<std::size_t> class F, std::size_t N> static void fixed(const std::string& name) {
    static const F<N> s{}; rng r(mix(ctx().seed + N * 7 + hash_str(name)));
    for (int i = 0; i < (ctx().thorough ? 300 : 40); ++i) { std::vector<int> k; int range = i % 3 == 0 ? 2 : i % 3 == 1 ? 5 : 1000; for (std::size_t j = 0; j < N; ++j) k.push_back((int)r.below((std::uint64_t)range)); three(name + std::to_string(N), s, k, false, i); }
}
template<template<std::size_t> class F> static void upto(const std::string&, std::index_sequence<>) {}
template<template<std::size_t> class F, std::size_t I, std::size_t... Is> static void upto(const std::string& n, std::index_sequence<I, Is...>) { fixed<F, I>(n); upto<F>(n, std::index_sequence<Is...>()); }
template<typename S> static void nested(const std::string& name, const S& s, bool stable) { int f = 0; for (auto& in: inputs(600, hash_str(name), ctx().thorough ? 200 : 24)) three(name, s, in.keys, stable, f++); }
// type-specific: the projection tells the integer; by reference only
template<typename Store, bool Sw, typename S> static void typed(const std::string& what, const S& s) {
    using I = it<Store, random_access_tag, Sw>; int form = 0;
    for (auto& in: inputs(5000, hash_str(what), ctx().thorough ? 200 : 30)) {
        std::string label = "C25|" + what + "|" + in.label();
        if (!begin_case(label)) continue;
        w().key = "C25|" + what;
        std::vector<int> keys = in.keys; if (form & 1) for (int& k: keys) k = (int)((unsigned)k * 2654435761u) >> (form % 5 * 4);
        Store st(keys); I b(&st, 0), e(&st, st.n()); px::range<I> r{ b, e };
        call(st, keys, [&] { if (form++ % 2) s(b, e, by_reference{}); else s(r, by_value{}); });
        judge(st, keys, false, false);
        count_case(hash_str(label), in.nontrivial()); event("typed_ranges_sorted");
    }
}
template<typename S> static void typed3(const std::string& what, const S& s) { typed<zip_store, false>(what + "|zip", s); typed<zip_store, true>(what + "|zip with iter_swap", s); typed<obj_store, true>(what + "|immovable elements", s); }
#define NESTED(stable, ...) { static const __VA_ARGS__ s{}; nested(#__VA_ARGS__, s, stable); }
static void run() {
    using namespace cppsort;
#if PART == 16
    upto<low_comparisons_sorter>("low_comparisons", std::make_index_sequence<14>()); upto<low_moves_sorter>("low_moves", std::make_index_sequence<14>());
    upto<merge_exchange_network_sorter>("merge_exchange", std::make_index_sequence<24>()); upto<sorting_network_sorter>("sorting_network", std::make_index_sequence<33>());
    fixed<odd_even_merge_network_sorter, 8>("odd_even"); fixed<odd_even_merge_network_sorter, 32>("odd_even");
#else
    typed3("ska", ska_sorter{}); typed3("spread", spread_sorter{}); typed3("integer_spread", integer_spread_sorter{});
    NESTED(true, schwartz_adapter<stable_adapter<heap_sorter>>) NESTED(true, stable_adapter<schwartz_adapter<smooth_sorter>>) NESTED(false, schwartz_adapter<schwartz_adapter<quick_sorter>>)
    NESTED(true, make_stable<make_stable<poplar_sorter>>) NESTED(false, drop_merge_adapter<split_adapter<pdq_sorter>>)
    NESTED(true, stable_adapter<drop_merge_adapter<heap_sorter>>) NESTED(true, stable_adapter<split_adapter<pdq_sorter>>) NESTED(false, schwartz_adapter<drop_merge_adapter<quick_merge_sorter>>)
    NESTED(true, out_of_place_adapter<merge_sorter>) NESTED(true, schwartz_adapter<spin_sorter>) NESTED(true, schwartz_adapter<tim_sorter>) NESTED(true, schwartz_adapter<wiki_sorter<utility::fixed_buffer<0>>>)
    NESTED(false, schwartz_adapter<slab_sorter>) NESTED(false, schwartz_adapter<mel_sorter>) NESTED(false, schwartz_adapter<cartesian_tree_sorter>) NESTED(true, schwartz_adapter<splay_sorter>) NESTED(true, self_sort_adapter<merge_sorter>) NESTED(true, container_aware_adapter<merge_sorter>) NESTED(false, hybrid_adapter<indirect_adapter<quick_sorter>, verge_sorter>) NESTED(true, stable_adapter<verge_adapter<schwartz_adapter<heap_sorter>>>)
#endif
}

#else                                     // 17: probes, sorted_indices, sorted_iterators, apply_permutation
#define PROBE(p, max) probe_over(#p, cppsort::probe::p, max)
template<typename Store, typename Cat, bool Sw, typename P> static void probe_one(const std::string& what, const P& p, const input& in, int form) {
    using I = it<Store, Cat, Sw>;
    if (!begin_case("C25|" + what + "|" + in.label())) return;
    w().key = "C25|" + what;
    Store st(in.keys); I b(&st, 0), e(&st, st.n()); px::range<I> r{ b, e }; long long got = 0, want = 0;
    call(st, in.keys, [&] { switch (form % 4) {
        case 0: got = (long long)p(b, e, px::less{}); break;
        case 1: got = (long long)p(r, px::greater{}); break;
        case 2: got = (long long)p(b, e, int_greater{}, by_value{}); break;
        case 3: got = (long long)p(r, int_less{}, by_reference{}); break; } });
    std::deque<int> d(in.keys.begin(), in.keys.end());
    want = form % 4 == 0 || form % 4 == 3 ? (long long)p(d) : (long long)p(d, std::greater<>{});
    if (got != want) w().bad("measure differs from the one of plain values", std::to_string(got) + " and " + std::to_string(want) + " for " + show(in.keys));
    for (std::size_t i = 0; i < in.keys.size(); ++i) if (st.key(i).id != (int)i || st.load(i).id != (int)i || st.key(i).state != h_live || st.load(i).state != h_live) { w().bad("probe changed the range"); break; }
    count_case(hash_str(what + in.label()), in.nontrivial()); event("ranges_measured");
}
template<typename P> static void probe_over(const std::string& name, const P& p, std::size_t max) {
    int f = 0;
    for (auto& in: inputs(max, hash_str(name), ctx().thorough ? 400 : 60)) {
        probe_one<zip_store, forward_tag, false>("probe " + name + "|zip,forward", p, in, f); probe_one<obj_store, bidirectional_tag, true>("probe " + name + "|immovable elements,bidirectional", p, in, f + 1); probe_one<zip_store, random_access_tag, true>("probe " + name + "|zip,random access", p, in, f + 2);
        ++f;
    }
}
template<typename Store, bool Sw, typename S> static void indices(const std::string& name, const S&) {
    using I = it<Store, random_access_tag, Sw>; using F = it<Store, forward_tag, Sw>; int form = 0;
    for (auto& in: inputs(400, hash_str(name) + 5, ctx().thorough ? 200 : 40)) {
        if (!begin_case("C25|indices " + name + "|" + in.label())) continue;
        w().key = "C25|indices " + name;
        Store st(in.keys); I b(&st, 0), e(&st, st.n()); px::range<I> r{ b, e }; bool desc = form % 2; std::vector<std::ptrdiff_t> idx;
        call(st, in.keys, [&] {
            if (form % 4 == 0) { auto v = cppsort::utility::sorted_indices<S>{}(b, e, px::less{}); idx.assign(v.begin(), v.end()); }
            else if (form % 4 == 1) { auto v = cppsort::utility::sorted_indices<S>{}(r, px::greater{}); idx.assign(v.begin(), v.end()); }
            else if (form % 4 == 2) { auto v = cppsort::utility::sorted_indices<S>{}(r, int_less{}, by_value{}); idx.assign(v.begin(), v.end()); }
            else { auto v = cppsort::utility::sorted_iterators<S>{}(F(&st, 0), F(&st, st.n()), int_greater{}, by_reference{}); for (auto i: v) idx.push_back(i.i); } });
        std::vector<std::ptrdiff_t> copy = idx;
        call(st, in.keys, [&] { if (form % 2) cppsort::utility::apply_permutation(b, e, copy.begin(), copy.end()); else cppsort::utility::apply_permutation(r, copy); });
        judge(st, in.keys, desc, false);
        for (std::size_t i = 0; i < idx.size(); ++i) if (st.key(i).id != (int)idx[i]) { w().bad("permutation not applied", show(in.keys)); break; }
        ++form; count_case(hash_str(name + in.label()), in.nontrivial()); event("permutations_applied");
    }
}
template<typename S> static void indices3(const std::string& n, const S& s) { indices<zip_store, false>(n + "|zip", s); indices<zip_store, true>(n + "|zip with iter_swap", s); indices<obj_store, true>(n + "|immovable elements", s); }
static void run() {
    PROBE(block, 200); PROBE(dis, 300); PROBE(enc, 300); PROBE(exc, 200); PROBE(ham, 200); PROBE(inv, 300); PROBE(max, 200); PROBE(mono, 300); PROBE(osc, 200); PROBE(rem, 300); PROBE(runs, 300); PROBE(sus, 300);
    indices3("heap", cppsort::heap_sorter{}); indices3("pdq", cppsort::pdq_sorter{}); indices3("merge", cppsort::merge_sorter{}); indices3("spin", cppsort::spin_sorter{}); indices3("quick", cppsort::quick_sorter{});
}
#endif

int main(int argc, char** argv) {
    init(argc, argv);
    run();
    if (w().live) { w().key = "C25|end"; w().bad("halves alive at the end"); }
    return finish();
}
