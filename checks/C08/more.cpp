// C08: exceptions in probes, type-specific and fixed-size sorters, list algorithms, indices and permutations, metrics.
#include "vh.h"
#include "vh_alloc.h"
#include "vh_elem.h"
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include <cpp-sort/adapters.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/metrics.h>
#include <cpp-sort/probes.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/utility/apply_permutation.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>
#include <forward_list>
#include <list>
using namespace vh;
using E = elem;
enum vh_speed { vh_fast, vh_slow, vh_quadratic };
#include "explore.h"

// `make` builds a state, `call` is interrupted, `judge(state, threw)` says what is wrong
template<typename Make, typename Call, typename Judge>
void explore_state(const std::string& base, const input& in, unsigned kinds, Make make, Call call, Judge judge, unsigned per) {
    auto& m = mon(); auto& al = allocs();
    if (!begin_case(base + "|" + in.label())) return;
    m.key = base; m.in_call = false;
    std::uint64_t total[4] = {0, 0, 0, 0};
    auto run = [&](int kind, std::uint64_t k) {
        auto s = make(in);
        m.key = kind ? base + "|" + kind_name(kind) : base;
        m.reset_counters(); m.budget = 60ull * in.size() * in.size() + 20000;
        if (kind) (kind == 1 ? m.throw_compare : kind == 2 ? m.throw_projection : m.throw_move) = k;
        long long live1 = m.live;
        int outcome = 0;
        m.in_call = true; al.arm();
        try { call(s); outcome = 1; }
        catch (const injected& e) { outcome = e.kind == kind && e.k == k ? 2 : 3; }
        catch (const runaway&) { outcome = 4; }
        catch (const std::exception&) { outcome = 5; }
        al.disarm(); m.in_call = false;
        long long blocks = al.blocks;
        std::uint64_t reached[4] = {0, m.compares, m.projections, m.moves};
        m.throw_compare = m.throw_projection = m.throw_move = 0;
        if (!kind) for (int i = 1; i < 4; ++i) total[i] = reached[i];
        std::string where = kind ? std::string("exception from ") + kind_name(kind) + " number " + std::to_string(k) + " of " + std::to_string(total[kind]) + "; input " + show(in.keys) : "input " + show(in.keys);
        if (outcome == 1) { if (kind && reached[kind] >= k) m.bad("swallowed", where); }
        else if (outcome == 2) event("propagated");
        else m.bad("other-exception", "outcome " + std::to_string(outcome) + ": " + where);
        if (blocks - s.kept_blocks() != 0) m.bad("memory-leak", std::to_string(blocks) + " blocks; " + where);
        if (m.live - live1 + s.lost() != 0) m.bad("object-balance", where);
        std::string w = judge(s, in, outcome != 1);
        if (!w.empty()) m.bad("result", w + "; " + where);
    };
    run(0, 0);
    rng r(in.hash() ^ hash_str(base) ^ ctx().seed);
    for (int kind = 1; kind <= 3; ++kind) {
        if (!(kinds >> kind & 1) || !total[kind]) continue;
        std::uint64_t n = total[kind];
        std::vector<std::uint64_t> ks;
        if (n <= per) for (std::uint64_t k = 1; k <= n; ++k) ks.push_back(k);
        else { ks = {1, 2, 3, n / 2, n - 2, n - 1, n}; while (ks.size() < per) ks.push_back(1 + r.below(n)); }
        for (auto k: ks) { count_case(hash_str(base) ^ mix(k * 4 + (unsigned)kind) ^ in.hash(), true); run(kind, k); }
        event(kind == 1 ? "compare_points" : kind == 2 ? "projection_points" : "move_points", ks.size());
    }
}

template<typename F> void some_inputs(std::uint64_t salt, std::vector<int> sizes, F f) {
    std::uint64_t base = mix(ctx().seed * 43 + salt) % 1000000007ull;
    unsigned rot = (unsigned)(base % n_patterns);
    for (int n: sizes) for (int i = 0; i < (ctx().thorough ? 60 : 12); ++i, ++rot) f(make_input(i == 0 ? 0 : (int)(rot % n_patterns), n, base + rot));
}
static std::vector<int> all_sizes() { std::vector<int> s{2, 3, 5, 9, 16, 17, 33, 40, 65, 130}; if (ctx().thorough) for (int n: {4, 7, 12, 24, 50, 97, 200, 400}) s.push_back(n); return s; }

////////////////////////////////////////////////////////////
struct arena_state {
    arena<elem> a; std::vector<std::ptrdiff_t> idx; std::vector<elem*> its; long long result = 0;
    explicit arena_state(const input& in): a(in.keys) {}
    arena_state(arena_state&&) = default;
    long long kept_blocks() const { return (idx.capacity() ? 1 : 0) + (its.capacity() ? 1 : 0); }
    long long lost() const { return 0; }
};
static arena_state make_arena(const input& in) { return arena_state(in); }
static std::string untouched(arena_state& s, const input& in, bool) {
    for (std::size_t i = 0; i < in.size(); ++i) { elem& e = s.a.begin()[i]; if (!e.alive() || e.key != in.keys[i] || e.id != (int)i) return "collection modified at " + std::to_string(i); }
    if (mon().moves) return "elements were moved";
    event("collections_untouched");
    return "";
}
template<typename P> void probe_(const char* name, const P& probe) {
    std::string base = std::string("C08|probe-") + name;
    some_inputs(hash_str(base), all_sizes(), [&](const input& in) {
        if (in.size() > 60 && (std::strcmp(name, "osc") == 0 || std::strcmp(name, "dis") == 0) && !ctx().thorough) {}
        explore_state(base + "|fwd", in, 2 | 4, make_arena, [&](arena_state& s) { using I = chk_fwd<elem>; auto v = whole<I>(s.a); s.result = (long long)probe(v.begin(), v.end(), cmp_int{}, proj_key{}); }, untouched, per_kind());
        explore_state(base + "|bidi", in, 2, make_arena, [&](arena_state& s) { using I = chk_bidi<elem>; auto v = whole<I>(s.a); s.result = (long long)probe(v, cmp_key{}); }, untouched, per_kind());
        explore_state(base + "|ra", in, 2 | 4, make_arena, [&](arena_state& s) { using I = chk_ra<elem>; auto v = whole<I>(s.a); s.result = (long long)probe(v, cmp_int{}, proj_key_ref{}); }, untouched, per_kind());
    });
}

////////////////////////////////////////////////////////////
struct proj_float { float operator()(const elem& e) const { tick_projection(); use_check(e, "projection"); return (float)(e.key % 1000000) / 4; } };
template<typename S, typename P> void typed(const char* name, const S& sorter, P proj) {
    std::string base = std::string("C08|") + name;
    some_inputs(hash_str(base), ctx().thorough ? std::vector<int>{2, 17, 127, 128, 129, 300, 999, 1000, 1024, 1500, 3000} : std::vector<int>{5, 128, 200, 1000, 1300}, [&](const input& in) {
        explore(base, in, true, [&](arena<E>& a) { sorter(a.begin(), a.end(), proj); }, per_kind());
    });
}
template<typename S> void fixed(const char* name, int n, const S& sorter) {
    std::string base = std::string("C08|") + name + "<" + std::to_string(n) + ">";
    some_inputs(hash_str(base), {n}, [&](const input& in) {
        explore(base + "|proj", in, true, [&](arena<E>& a) { sorter(a.begin(), a.end(), cmp_int{}, proj_key{}); }, per_kind());
        explore(base, in, false, [&](arena<E>& a) { sorter(a.begin(), a.end(), cmp_key{}); }, per_kind());
    });
}
template<typename S> void wrapped(const char* name, const S& sorter) {
    std::string base = std::string("C08|") + name;
    some_inputs(hash_str(base), all_sizes(), [&](const input& in) {
        explore(base, in, true, [&](arena<E>& a) { sorter(a.begin(), a.end(), cmp_int{}, proj_key{}); }, per_kind());
    });
}

////////////////////////////////////////////////////////////
template<typename L> struct list_state {
    L l; std::vector<const elem*> nodes;
    explicit list_state(const input& in) { for (std::size_t k = in.size(); k-- > 0;) l.emplace_front(in.keys[k], (int)k); for (auto& e: l) nodes.push_back(&e); }
    list_state(list_state&&) = default;
    long long kept_blocks() const { return 0; }
    long long lost() const { return (long long)nodes.size() - (long long)std::distance(l.begin(), l.end()); }
};
template<typename T> std::string backwards(const std::list<T>& l) {     // the links agree in both directions
    std::size_t n = 0; auto it = l.end(); const T* p = nullptr;
    std::vector<const T*> f; for (auto& e: l) f.push_back(&e);
    while (it != l.begin()) { --it; ++n; if (n > f.size()) return "more elements backwards"; p = &*it; if (f[f.size() - n] != p) return "links disagree"; }
    return n == f.size() && f.size() == l.size() ? "" : "size() disagrees with the links";
}
template<typename T> std::string backwards(const std::forward_list<T>&) { return ""; }
template<typename L, typename S> void lists(const char* name, const S& sorter, bool may_lose) {
    std::string base = std::string("C08|") + name;
    some_inputs(hash_str(base), all_sizes(), [&](const input& in) {
        auto judge = [&](list_state<L>& s, const input& i, bool threw) -> std::string {
            std::vector<char> seen(i.size(), 0); std::size_t n = 0; const elem* prev = nullptr;
            for (auto& e: s.l) {
                if (n > i.size()) return "too many elements";
                if (!e.alive() || e.id < 0 || (std::size_t)e.id >= i.size() || seen[(std::size_t)e.id] || e.key != i.keys[(std::size_t)e.id]) return "element lost or duplicated";
                if (s.nodes[(std::size_t)e.id] != &e) return "element moved to another node";
                seen[(std::size_t)e.id] = 1; ++n;
                if (!threw && prev && e.key < prev->key) return "not sorted";
                prev = &e;
            }
            if (n != i.size() && !(threw && may_lose)) return "elements lost";
            std::string w = backwards(s.l); if (!w.empty()) return w;
            // what is left can be sorted again
            auto& m = mon(); m.reset_counters(); m.budget = 60ull * i.size() * i.size() + 20000;
            sorter(s.l, cmp_key{});
            prev = nullptr; std::size_t again = 0;
            for (auto& e: s.l) { ++again; if (prev && e.key < prev->key) return "not sorted when sorted again"; prev = &e; }
            if (again != n) return "elements lost when sorted again";
            event("lists_judged");
            return "";
        };
        explore_state(base + "|proj", in, 2 | 4 | 8, [](const input& i) { return list_state<L>(i); }, [&](list_state<L>& s) { sorter(s.l, cmp_int{}, proj_key{}); }, judge, per_kind());
        explore_state(base, in, 2 | 8, [](const input& i) { return list_state<L>(i); }, [&](list_state<L>& s) { sorter(s.l, cmp_key{}); }, judge, per_kind());
    });
}

////////////////////////////////////////////////////////////
template<template<typename> class Utility, typename Sorter> void positions(const char* name) {
    std::string base = std::string("C08|") + name;
    Utility<Sorter> u{};
    some_inputs(hash_str(base), all_sizes(), [&](const input& in) {
        explore_state(base + "|proj", in, 2 | 4, make_arena, [&](arena_state& s) { auto r = u(s.a.begin(), s.a.end(), cmp_int{}, proj_key{}); s.result = (long long)r.size(); }, untouched, per_kind());
        explore_state(base, in, 2, make_arena, [&](arena_state& s) { using I = chk_ra<elem>; auto v = whole<I>(s.a); auto r = u(v, cmp_key{}); s.result = (long long)r.size(); }, untouched, per_kind());
    });
}
struct perm_state {
    arena<elem> a; std::vector<std::size_t> idx;
    explicit perm_state(const input& in): a(in.keys) { idx.resize(in.size()); for (std::size_t i = 0; i < idx.size(); ++i) idx[i] = i; rng r(in.hash()); for (std::size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[r.below(i)]); }
    perm_state(perm_state&&) = default;
    long long kept_blocks() const { return 0; }
    long long lost() const { return 0; }
};
static void permutation() {
    some_inputs(hash_str("perm"), all_sizes(), [&](const input& in) {
        explore_state("C08|apply_permutation", in, 8, [](const input& i) { return perm_state(i); },
            [&](perm_state& s) { auto i = s.idx; cppsort::utility::apply_permutation(s.a.begin(), s.a.end(), i.begin(), i.end()); },
            [](perm_state& s, const input& i, bool threw) -> std::string {
                std::vector<char> seen(i.size(), 0); std::size_t moved_from = 0;
                for (std::size_t k = 0; k < i.size(); ++k) {
                    elem& e = s.a.begin()[k];
                    if (!e.object()) return "no object left";
                    if (!e.alive()) { ++moved_from; continue; }
                    if (e.id < 0 || (std::size_t)e.id >= i.size() || seen[(std::size_t)e.id]) return "element duplicated";
                    seen[(std::size_t)e.id] = 1;
                    if (!threw && e.id != (int)s.idx[k]) return "wrong place";
                }
                if (!threw && moved_from) return "moved-from element left";
                return s.a.guards_intact() ? "" : "outside the range"; }, per_kind());
    });
}

template<typename T> using indices_of = cppsort::utility::sorted_indices<T>;
template<typename T> using iterators_of = cppsort::utility::sorted_iterators<T>;

int main(int argc, char** argv) {
    init(argc, argv);
    mon().lenient_move = true;
    std::set_terminate([] { violation(mon().key + "|terminate", "std::terminate called: an exception could not propagate; input " + ctx().label); finish(); std::fflush(nullptr); _exit(0); });
    using namespace cppsort;
    int k = 0;
    auto mine = [&] { return (k++ % ctx().nshards) == ctx().shard; };
    if (mine()) { probe_("block", probe::block); probe_("dis", probe::dis); probe_("enc", probe::enc); }
    if (mine()) { probe_("exc", probe::exc); probe_("ham", probe::ham); probe_("inv", probe::inv); probe_("max", probe::max); }
    if (mine()) { probe_("mono", probe::mono); probe_("osc", probe::osc); probe_("rem", probe::rem); probe_("runs", probe::runs); probe_("sus", probe::sus); }
    if (mine()) { typed("ska|int", ska_sort, proj_key{}); typed("ska|float", ska_sort, proj_float{}); typed("spread|int", spread_sort, proj_key{}); typed("spread|float", spread_sort, proj_float{});
                  typed("integer_spread", integer_spread_sort, proj_key_ref{}); typed("float_spread", float_spread_sort, proj_float{}); }
#define F(S, N) fixed(#S, N, S<N>{});
    if (mine()) { F(low_comparisons_sorter, 2) F(low_comparisons_sorter, 3) F(low_comparisons_sorter, 4) F(low_comparisons_sorter, 5) F(low_comparisons_sorter, 6) F(low_comparisons_sorter, 7) F(low_comparisons_sorter, 8)
                  F(low_comparisons_sorter, 9) F(low_comparisons_sorter, 10) F(low_comparisons_sorter, 11) F(low_comparisons_sorter, 12) F(low_comparisons_sorter, 13) }
    if (mine()) { F(low_moves_sorter, 2) F(low_moves_sorter, 3) F(low_moves_sorter, 4) F(low_moves_sorter, 5) F(low_moves_sorter, 9) F(sorting_network_sorter, 2) F(sorting_network_sorter, 3) F(sorting_network_sorter, 6)
                  F(sorting_network_sorter, 11) F(sorting_network_sorter, 17) F(sorting_network_sorter, 24) F(sorting_network_sorter, 33) F(merge_exchange_network_sorter, 13) F(odd_even_merge_network_sorter, 16) }
    if (mine()) {
        lists<std::list<elem>>("list-mel", container_aware_adapter<mel_sorter>{}, true); lists<std::forward_list<elem>>("forward_list-mel", container_aware_adapter<mel_sorter>{}, true);
        lists<std::list<elem>>("list-merge", container_aware_adapter<merge_sorter>{}, true); lists<std::forward_list<elem>>("forward_list-merge", container_aware_adapter<merge_sorter>{}, true);
    }
    if (mine()) {
        lists<std::list<elem>>("list-insertion", container_aware_adapter<insertion_sorter>{}, false); lists<std::forward_list<elem>>("forward_list-insertion", container_aware_adapter<insertion_sorter>{}, false);
        lists<std::list<elem>>("list-selection", container_aware_adapter<selection_sorter>{}, false); lists<std::forward_list<elem>>("forward_list-selection", container_aware_adapter<selection_sorter>{}, false);
    }
    if (mine()) { positions<indices_of, smooth_sorter>("sorted_indices-smooth"); positions<indices_of, merge_sorter>("sorted_indices-merge"); positions<iterators_of, pdq_sorter>("sorted_iterators-pdq"); positions<iterators_of, tim_sorter>("sorted_iterators-tim");
                  permutation(); }
    if (mine()) { wrapped("metrics-comparisons", metrics::comparisons<pdq_sorter>{}); wrapped("metrics-moves", metrics::moves<merge_sorter>{}); wrapped("metrics-moves-heap", metrics::moves<heap_sorter>{}); wrapped("metrics-projections", metrics::projections<tim_sorter>{});
                  wrapped("metrics-running_time", metrics::running_time<spin_sorter>{}); wrapped("small_array-hybrid", hybrid_adapter<small_array_adapter<low_moves_sorter, std::make_index_sequence<5>>, quick_sorter>{}); wrapped("self_sort", self_sort_adapter<pdq_sorter>{}); }
    sample("last case: " + ctx().label);
    return finish();
}
