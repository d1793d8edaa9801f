// C04: stable sorting is stable, and the stability traits tell the truth.
// The result of a stable sort is unique: compare with std::stable_sort on (key, id) records.
#include "vh.h"
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include "vh_sorters.h"
#include "vh_killers.h"
#include "vh_alloc.h"
#include <cpp-sort/adapters.h>
#include <cpp-sort/metrics.h>
#include <cpp-sort/sort.h>
#include <cpp-sort/stable_sort.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>
#include <deque>
#include <forward_list>
#include <list>

using namespace vh;

struct rec {
    int key; int id;
    friend bool operator<(const rec& a, const rec& b) { return a.key < b.key; }
    int get() const { return key; }
};
static std::uint64_t g_budget, g_count;
static inline void step() { if (++g_count > g_budget) throw runaway(); }
struct less_key { template<typename T> bool operator()(const T& a, const T& b) const { step(); return a < b; } };
struct greater_key { template<typename T> bool operator()(const T& a, const T& b) const { step(); return b < a; } };
static bool fptr_less(const rec& a, const rec& b) { step(); return a.key < b.key; }

// containers which sort themselves
struct self_sorted: std::vector<rec> {       // sort: unstable, stable_sort: stable
    using std::vector<rec>::vector;
    void sort() { std::sort(begin(), end()); std::reverse(begin(), end()); std::sort(begin(), end()); }
    template<typename F> void sort(F f) { std::sort(begin(), end(), f); }
    void stable_sort() { std::stable_sort(begin(), end()); }
    template<typename F> void stable_sort(F f) { std::stable_sort(begin(), end(), f); }
};

static profile prof(vh_speed sp) {
    profile p; p.exhaustive = ctx().thorough ? 7 : 6; p.dense_patterns = ctx().thorough ? 30 : 10;
    p.sizes = {71, 80, 96, 128, 129, 150, 200, 257, 300, 513, 600};
    if (sp == vh_quadratic) { p.large = {}; if (ctx().thorough) p.large = {1500}; return p; }
    p.large = {1000, 1025, 1500, 2049, 3000, 4097}; p.large_patterns = 12;
    if (sp != vh_heavy) p.large.push_back(5000);
    if (ctx().thorough) { p.size_reps = 4; p.large_patterns = 36; if (sp == vh_fast) { p.large.push_back(20000); p.large.push_back(70000); } }
    return p;
}

template<typename C, typename Call>
void one(const std::string& key, vh_speed sp, bool light, bool desc, Call call) {
    profile p = prof(sp);
    if (light && !ctx().thorough) { p.exhaustive = 5; p.dense_patterns = 2; p.sizes = {97, 200, 513}; p.large_patterns = 2; }
    for_each_input(p, hash_str(key), [&](const input& in0) {
        input in = in0;
        // ties: coarsen the keys of the non exhaustive inputs
        if (in.pattern != "weak") { int s = 1 + (int)(in0.hash() % 6); if (in0.hash() % 7 != 0) for (auto& k: in.keys) k >>= s; }
        if (!begin_case(key + "|" + in.label())) return;
        count_case(hash_str(key) ^ in.hash(), in.nontrivial());
        std::vector<rec> ref; int id = 0;
        for (int k: in.keys) ref.push_back({k, id++});
        std::unique_ptr<C> box(new C(ref.begin(), ref.end()));
        // half of the calls are made with little or no heap memory
        unsigned mem = (unsigned)(mix(in0.hash() + hash_str(key)) >> 20) % 8;
        static const std::uint64_t caps[] = { 0, 100, 600, 0 };
        auto& al = allocs();
        al.no_fault();
        if (mem < 3) al.fail_above = caps[mem];
        else if (mem == 3) al.fail_above = in.size() * sizeof(rec) / 3 + 30;
        g_count = 0; g_budget = 40ull * in.size() * in.size() + 20000;
        if (desc) std::stable_sort(ref.begin(), ref.end(), [](const rec& a, const rec& b) { return b.key < a.key; });
        else std::stable_sort(ref.begin(), ref.end());
        al.arm();
        bool failed = false;
        try { call(*box); al.disarm(); }
        catch (const std::bad_alloc&) { failed = al.failed > 0; al.disarm(); if (!failed) { violation(key + "|exception", "bad_alloc; input " + show(in.keys)); return; } }
        catch (const runaway&) { al.disarm(); violation(key + "|runaway", "comparison budget exceeded; input " + show(in.keys)); return; }
        catch (const std::exception& e) { al.disarm(); violation(key + "|exception", e.what() + std::string("; input ") + show(in.keys)); return; }
        if (mem < 4 && !failed && al.failed) event("calls_short_of_memory");
        al.no_fault();
        if (failed) {                       // this one needs its memory: call it again with some
            event("calls_given_memory_back");
            std::vector<rec> again; id = 0;
            for (int k: in.keys) again.push_back({k, id++});
            box.reset(new C(again.begin(), again.end()));
            try { call(*box); }
            catch (const std::exception& e) { violation(key + "|exception", e.what() + std::string("; input ") + show(in.keys)); return; }
        }
        C& c = *box;
        std::size_t i = 0, ties = 0;
        for (auto& x: c) {
            if (i >= ref.size() || x.key != ref[i].key) { violation(key + "|order", "position " + std::to_string(i) + "; input " + show(in.keys)); return; }
            if (x.id != ref[i].id) { violation(key + "|stability", "position " + std::to_string(i) + " holds the element that was at " + std::to_string(x.id) + " instead of " + std::to_string(ref[i].id) + "; input " + show(in.keys)); return; }
            if (i && ref[i].key == ref[i - 1].key) ++ties;
            ++i;
        }
        if (i != ref.size()) violation(key + "|size", "size changed");
        event("ties_judged", ties);
    });
}

template<typename S, typename... A> constexpr bool st() { return cppsort::is_stable_v<S(A...)>; }

// FORM(container, text, descending, light, call, argument types)
#define FORM(C, text, desc, light, expr, ...) \
    if constexpr (Doc || st<S, __VA_ARGS__>()) { event("stable_forms"); one<C>(base + #C "," text, sp, light, desc, [&](C& c) { (void)c; expr; }); } else event("unstable_forms");

template<bool Doc, typename S>
void on_fwd(const std::string& base, vh_speed sp, const S& s) {
    using fl = std::forward_list<rec>; using it = fl::iterator; (void)sizeof(it);
    FORM(fl, "c,cmp", false, true, s(c, less_key{}), fl&, less_key)
    FORM(fl, "it,greater,mem", true, true, s(c.begin(), c.end(), greater_key{}, &rec::key), it, it, greater_key, int rec::*)
}
template<bool Doc, typename S>
void on_bidi(const std::string& base, vh_speed sp, const S& s) {
    using li = std::list<rec>; using it = li::iterator; (void)sizeof(it);
    FORM(li, "it,cmp", false, true, s(c.begin(), c.end(), less_key{}), it, it, less_key)
#if PART != 18   // the projection alone isn't accepted by list::sort, which self_sort_adapter calls
    FORM(li, "c,mem", false, true, s(c, &rec::key), li&, int rec::*)
#endif
    FORM(li, "c,greater,mem", true, true, s(c, std::greater<>{}, &rec::key), li&, std::greater<>, int rec::*)
    FORM(li, "c", false, true, s(c), li&)
    FORM(li, "c,cmp", false, true, s(c, less_key{}), li&, less_key)
}
template<bool Doc, typename S>
void on_ra(const std::string& base, vh_speed sp, const S& s) {
    using ve = std::vector<rec>; using dq = std::deque<rec>; using it = ve::iterator; using dit = dq::iterator; (void)sizeof(it); (void)sizeof(dit);
    FORM(ve, "it,cmp", false, false, s(c.begin(), c.end(), less_key{}), it, it, less_key)
    FORM(ve, "c,greater", true, false, s(c, greater_key{}), ve&, greater_key)
    FORM(ve, "c", false, true, s(c), ve&)
    FORM(dq, "it,cmp,memfn", false, true, s(c.begin(), c.end(), less_key{}, &rec::get), dit, dit, less_key, int (rec::*)() const)
    FORM(dq, "c,fptr", false, true, s(c, &fptr_less), dq&, bool (*)(const rec&, const rec&))
    FORM(ve, "c,greater,mem", true, true, s(c, greater_key{}, &rec::key), ve&, greater_key, int rec::*)
    FORM(ve, "it,std::greater,mem", true, true, s(c.begin(), c.end(), std::greater<>{}, &rec::key), it, it, std::greater<>, int rec::*)
    FORM(ve, "c,mem", false, true, s(c, &rec::key), ve&, int rec::*)
}

template<vh_cat C, bool Doc, typename S>
void all(const char* n, vh_speed sp, const S& s) {
    std::string base = std::string("C04|") + n + "|";
    if constexpr (C == vh_fwd) on_fwd<Doc>(base, sp, s);
    if constexpr (C != vh_ra) on_bidi<Doc>(base, sp, s);
    on_ra<Doc>(base, sp, s);
}

#if PART >= 16
using namespace cppsort;
template<typename S> struct as_sorter_sort {      // cppsort::stable_sort with a sorter, seen as a sorter
    using iterator_category = std::forward_iterator_tag; using is_always_stable = std::true_type;
    template<typename... A> void operator()(A&&... a) const { cppsort::stable_sort(S{}, std::forward<A>(a)...); }
};
struct plain_stable_sort { using iterator_category = std::forward_iterator_tag; using is_always_stable = std::true_type; template<typename... A> void operator()(A&&... a) const { cppsort::stable_sort(std::forward<A>(a)...); } };
using hyb_mixed = hybrid_adapter<merge_sorter, rebind_iterator_category<heap_sorter, std::random_access_iterator_tag>>;
using hyb_stable = hybrid_adapter<merge_sorter, insertion_sorter, tim_sorter>;
#define EX_16(X) \
    X(stable_t_pdq, stable_t<pdq_sorter>, vh_ra, vh_fast, true) \
    X(stable_poplar, stable_adapter<poplar_sorter>, vh_ra, vh_fast, true) \
    X(stable_cartesian, stable_adapter<cartesian_tree_sorter>, vh_fwd, vh_fast, true) \
    X(stable_quick_merge, stable_adapter<quick_merge_sorter>, vh_fwd, vh_fast, true) \
    X(make_stable_drop_merge, make_stable<drop_merge_sorter>, vh_bidi, vh_fast, true) \
    X(stable_slab, stable_adapter<slab_sorter>, vh_bidi, vh_fast, true)
#define EX_17(X) \
    X(stable_split, stable_adapter<split_sorter>, vh_ra, vh_fast, true) \
    X(make_stable_merge_insertion, make_stable<merge_insertion_sorter>, vh_ra, vh_heavy, true) \
    X(stable_d_ary4, stable_adapter<d_ary_heap_sorter<4>>, vh_ra, vh_fast, true) \
    X(stable_default, stable_adapter<default_sorter>, vh_fwd, vh_fast, true) \
    X(make_stable_merge, make_stable<merge_sorter>, vh_fwd, vh_fast, true) \
    X(stable_tim, stable_adapter<tim_sorter>, vh_ra, vh_fast, true) \
    X(nested_stable, stable_adapter<stable_adapter<heap_sorter>>, vh_ra, vh_fast, true)
#define EX_18(X) \
    X(stable_self_sort_heap, stable_adapter<self_sort_adapter<heap_sorter>>, vh_ra, vh_fast, true) \
    X(self_sort_merge, self_sort_adapter<merge_sorter>, vh_fwd, vh_fast, false) \
    X(self_sort_quick, self_sort_adapter<quick_sorter>, vh_fwd, vh_fast, false) \
    X(stable_t_self_sort_selection, stable_t<self_sort_adapter<selection_sorter>>, vh_fwd, vh_quadratic, true)
#define EX_19(X) \
    X(hyb_mixed, hyb_mixed, vh_fwd, vh_fast, false) \
    X(stable_hyb_mixed, stable_adapter<hyb_mixed>, vh_fwd, vh_fast, true) \
    X(hyb_stable, hyb_stable, vh_fwd, vh_fast, false) \
    X(stable_t_hyb_stable, stable_t<hyb_stable>, vh_fwd, vh_fast, true) \
    X(comparisons_merge, metrics::comparisons<merge_sorter>, vh_fwd, vh_fast, false) \
    X(counting_insertion, counting_adapter<insertion_sorter>, vh_bidi, vh_quadratic, false) \
    X(schwartz_tim, schwartz_adapter<tim_sorter>, vh_ra, vh_fast, false) \
    X(moves_spin, metrics::moves<spin_sorter>, vh_ra, vh_fast, false) \
    X(out_of_place_grail, out_of_place_adapter<grail_sorter<>>, vh_fwd, vh_fast, false)
#define EX_20(X) \
    X(stable_schwartz_quick, stable_adapter<schwartz_adapter<quick_sorter>>, vh_fwd, vh_fast, true) \
    X(stable_indirect_heap, stable_adapter<indirect_adapter<heap_sorter>>, vh_fwd, vh_fast, true) \
    X(indirect_insertion, indirect_adapter<insertion_sorter>, vh_fwd, vh_quadratic, false) \
    X(stable_out_of_place_pdq, stable_t<out_of_place_adapter<pdq_sorter>>, vh_fwd, vh_fast, true) \
    X(schwartz_stable_smooth, schwartz_adapter<stable_adapter<smooth_sorter>>, vh_ra, vh_fast, false) \
    X(small_array_plain, small_array_adapter<low_moves_sorter>, vh_ra, vh_fast, false)
#define EX_21(X) \
    X(stable_sort_plain, plain_stable_sort, vh_fwd, vh_fast, true) \
    X(stable_sort_selection, as_sorter_sort<selection_sorter>, vh_fwd, vh_quadratic, true) \
    X(stable_sort_quick, as_sorter_sort<quick_sorter>, vh_fwd, vh_fast, true) \
    X(stable_sort_splay, as_sorter_sort<splay_sorter>, vh_fwd, vh_fast, true) \
    X(stable_sort_std, as_sorter_sort<std_sorter>, vh_ra, vh_fast, true)
#define EX_22(X) \
    X(stable_indirect_hyb_mixed, stable_adapter<indirect_adapter<hyb_mixed>>, vh_fwd, vh_fast, true) \
    X(indirect_hyb_mixed, indirect_adapter<hyb_mixed>, vh_fwd, vh_fast, false) \
    X(out_of_place_hyb_mixed, out_of_place_adapter<hyb_mixed>, vh_fwd, vh_fast, false) \
    X(stable_out_of_place_self_sort, stable_t<out_of_place_adapter<self_sort_adapter<quick_sorter>>>, vh_fwd, vh_fast, true) \
    X(indirect_self_sort, indirect_adapter<self_sort_adapter<quick_sorter>>, vh_fwd, vh_fast, false)
#define EX_23(X) \
    X(schwartz_hyb_mixed, schwartz_adapter<hyb_mixed>, vh_fwd, vh_fast, false) \
    X(stable_schwartz_hyb_mixed, stable_adapter<schwartz_adapter<hyb_mixed>>, vh_fwd, vh_fast, true) \
    X(moves_hyb_mixed, metrics::moves<hyb_mixed>, vh_fwd, vh_fast, false) \
    X(stable_moves_self_sort, stable_adapter<metrics::moves<self_sort_adapter<quick_sorter>>>, vh_fwd, vh_fast, true) \
    X(stable_projections_self_sort, stable_adapter<metrics::projections<self_sort_adapter<quick_sorter>>>, vh_fwd, vh_fast, true) \
    X(comparisons_hyb_mixed, metrics::comparisons<hyb_mixed>, vh_fwd, vh_fast, false)
#define LIST(X) VH_CAT(EX_, PART)(X)
#else
#define LIST(X) VH_SORTERS_PART(X)
#endif

#if PART == 18
// dedicated list algorithms, documented as stable
template<typename S, typename C>
void lists(const std::string& base, vh_speed sp) {
    S s;
    one<C>(base + "c", sp, false, false, [&](C& c) { s(c); });
    one<C>(base + "c,greater", sp, true, true, [&](C& c) { s(c, greater_key{}); });
    one<C>(base + "c,mem", sp, true, false, [&](C& c) { s(c, &rec::key); });
    one<C>(base + "c,greater,mem", sp, true, true, [&](C& c) { s(c, std::greater<>{}, &rec::key); });
}
template<typename S>
void dedicated(const char* n, vh_speed sp) {
    lists<S, std::list<rec>>(std::string("C04|container_aware_") + n + "|list,", sp);
    lists<S, std::forward_list<rec>>(std::string("C04|container_aware_") + n + "|fl,", sp);
}

// sorted_indices, sorted_iterators: when is_stable says so, the permutation is the stable one
template<typename S>
void indices(const char* n) {
    using ve = std::vector<rec>;
    std::string base = std::string("C04|sorted_") + n + "|";
    auto permute = [](ve& c, auto idx) { ve r; for (auto i: idx) r.push_back(c[(std::size_t)i]); c = r; };
    if constexpr (is_stable_v<utility::sorted_indices<S>(ve&, less_key)>) { event("stable_forms"); one<ve>(base + "indices,c,cmp", vh_quadratic, false, false, [&](ve& c) { permute(c, utility::sorted_indices<S>{}(c, less_key{})); }); }
    else event("unstable_forms");
    if constexpr (is_stable_v<utility::sorted_indices<S>(ve::iterator, ve::iterator, greater_key, int rec::*)>) { event("stable_forms"); one<ve>(base + "indices,it,greater,mem", vh_quadratic, false, true, [&](ve& c) { permute(c, utility::sorted_indices<S>{}(c.begin(), c.end(), greater_key{}, &rec::key)); }); }
    else event("unstable_forms");
    if constexpr (is_stable_v<utility::sorted_iterators<S>(ve&, less_key)>) { event("stable_forms"); one<ve>(base + "iterators,c,cmp", vh_quadratic, false, false, [&](ve& c) { ve r; for (auto i: utility::sorted_iterators<S>{}(c, less_key{})) r.push_back(*i); c = r; }); }
    else event("unstable_forms");
}
#endif

// traits that must be what the documentation says
template<typename S, bool B> void trait(const char* n) {
    std::string key = std::string("C04|trait|") + n;
    if (!begin_case(key + "|x")) return;
    count_case(hash_str(key), true);
    if (cppsort::is_always_stable_v<S> != B) violation(key, std::string("is_always_stable is ") + (B ? "false" : "true"));
}

int main(int argc, char** argv) {
    init(argc, argv);
    int k = 0; (void)k;
#define X(name, type, cat, speed, doc) if (ctx().nshards == 1 || (k++ % ctx().nshards) == ctx().shard) { find_killers<(int)cat>(type{}, speed != vh_fast); all<cat, doc>(#name, speed, type{}); }
    LIST(X)
#if PART == 18
    if (ctx().shard == 0) {
        // a container with its own unstable sort and stable stable_sort
        stable_adapter<self_sort_adapter<heap_sorter>> s;
        std::string base = "C04|stable_self_sort|";
        one<self_sorted>(base + "own", vh_fast, false, false, [&](self_sorted& c) { s(c); });
        one<self_sorted>(base + "own,greater", vh_fast, false, true, [&](self_sorted& c) { s(c, greater_key{}); });
        one<self_sorted>(base + "own,less,mem", vh_fast, false, false, [&](self_sorted& c) { s(c, less_key{}, &rec::key); });
        on_bidi<true>(base, vh_fast, stable_adapter<self_sort_adapter<merge_sorter>>{});
        trait<merge_sorter, true>("merge"); trait<insertion_sorter, true>("insertion"); trait<stable_adapter<heap_sorter>, true>("stable_adapter<heap>");
        trait<stable_t<self_sort_adapter<heap_sorter>>, true>("stable_t<self_sort>"); trait<make_stable<pdq_sorter>, true>("make_stable<pdq>");
        trait<heap_sorter, false>("heap"); trait<pdq_sorter, false>("pdq"); trait<quick_sorter, false>("quick"); trait<self_sort_adapter<merge_sorter>, false>("self_sort");
        trait<split_adapter<merge_sorter>, false>("split_adapter<merge>"); trait<verge_adapter<merge_sorter>, false>("verge_adapter<merge>"); trait<drop_merge_adapter<merge_sorter>, false>("drop_merge_adapter<merge>");
        on_fwd<true>(base, vh_fast, stable_adapter<self_sort_adapter<quick_sorter>>{});
        dedicated<container_aware_adapter<insertion_sorter>>("insertion", vh_quadratic);
        dedicated<container_aware_adapter<selection_sorter>>("selection", vh_quadratic);
        dedicated<container_aware_adapter<merge_sorter>>("merge", vh_fast);
        indices<merge_sorter>("merge"); indices<heap_sorter>("heap"); indices<stable_adapter<pdq_sorter>>("stable_pdq"); indices<insertion_sorter>("insertion");
        indices<tim_sorter>("tim"); indices<quick_sorter>("quick");
    }
#endif
    sample("last case: " + ctx().label);
    return finish();
}
