// C20: sorted_indices and sorted_iterators with every sorter and adapter.
#include "vh.h"
#include "vh_elem.h"
#include "vh_sorters.h"
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/apply_permutation.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>
#include <deque>
#include <forward_list>
#include <list>

using namespace vh;
namespace cu = cppsort::utility;

struct plain_cmp { template<typename T> bool operator()(const T& a, const T& b) const { tick_compare(); return a < b; } };
struct plain_desc { template<typename T> bool operator()(const T& a, const T& b) const { tick_compare(); return b < a; } };

// schwartz_adapter copies what it sorts: it can't be given the (move-only) elements themselves
#if PART == 11 || PART == 15
#define BY_KEY cmp_int{}, proj_key{}
#define BY_KEY_T cmp_int, proj_key
#define BY_KEY_DESC cmp_int_desc{}, proj_key{}
#define BY_KEY_DESC_T cmp_int_desc, proj_key
#else
#define BY_KEY cmp_key{}
#define BY_KEY_T cmp_key
#define BY_KEY_DESC cmp_key_desc{}
#define BY_KEY_DESC_T cmp_key_desc
#endif

// Judge a sequence of positions: each of [0, n) once, keys ordered, equivalent ones in position order when stable.
static bool judge_positions(const std::vector<long>& pos, const std::vector<int>& keys, bool desc, bool stable) {
    auto& m = mon();
    std::size_t n = keys.size();
    if (pos.size() != n) { m.bad("size", std::to_string(pos.size()) + " results for " + std::to_string(n) + " elements"); return false; }
    std::vector<char> seen(n, 0);
    for (std::size_t i = 0; i < n; ++i) {
        if (pos[i] < 0 || (std::size_t)pos[i] >= n || seen[(std::size_t)pos[i]]) { m.bad("not-a-permutation", "result " + std::to_string(i) + " designates " + std::to_string(pos[i]) + "; input " + show(keys)); return false; }
        seen[(std::size_t)pos[i]] = 1;
        if (!i) continue;
        int a = keys[(std::size_t)pos[i - 1]], b = keys[(std::size_t)pos[i]];
        if (desc ? a < b : b < a) { m.bad("order", "results " + std::to_string(i - 1) + " and " + std::to_string(i) + "; input " + show(keys)); return false; }
        if (stable && a == b && pos[i - 1] > pos[i]) { m.bad("stability", "results " + std::to_string(i - 1) + " and " + std::to_string(i) + "; input " + show(keys)); return false; }
    }
    event("positions_judged", n);
    event(stable ? "stable_results" : "unstable_results");
    return true;
}

static bool untouched(const elem* b, const std::vector<int>& keys) {
    for (std::size_t i = 0; i < keys.size(); ++i) if (!b[i].alive() || b[i].key != keys[i] || b[i].id != (int)i) return false;
    return true;
}

// One evaluation: `call(arena)` returns the positions designated by the result
template<typename Call>
bool evaluate(const std::string& key, const input& in, bool desc, bool stable, Call call) {
    auto& m = mon();
    if (!begin_case(key + "|" + in.label())) return false;
    count_case(hash_str(key) ^ in.hash(), in.size() > 1 && !std::is_sorted(in.keys.begin(), in.keys.end()));
    m.key = key; m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
    long long live0 = m.live;
    {
        arena<elem> a(in.keys);
        std::vector<long> pos;
        m.in_call = true;
        try { pos = call(a); } catch (const runaway&) { m.in_call = false; m.bad("runaway", show(in.keys)); return false; }
        m.in_call = false;
        if (m.moves) m.bad("elements-moved", std::to_string(m.moves) + " moves of elements of the collection");
        if (!untouched(a.begin(), in.keys) || !a.guards_intact()) { m.bad("collection-modified", show(in.keys)); return false; }
        judge_positions(pos, in.keys, desc, stable);
        event("comparisons", m.compares);
    }
    if (m.live != live0) { m.bad("object-balance"); m.live = live0; }
    return true;
}

template<typename V> std::vector<long> positions(const V& v) { return std::vector<long>(v.begin(), v.end()); }
template<typename V> std::vector<long> pointed(const V& v) { std::vector<long> r; for (auto it: v) r.push_back((*it).id); return r; }

template<typename It> view<It> whole(arena<elem>& a) { return { It(a.begin(), a.begin(), a.end()), It(a.end(), a.begin(), a.end()) }; }

// is_stable of the wrapped sorter must be that of the sorter on the sequence it really sorts, and is what we hold it to
template<typename S>
void indices_forms(const char* name, const S& s, const input& in, int fam) {
    auto sorted = cu::sorted_indices<S>(s);
    using SI = decltype(sorted);
    using It = chk_ra<elem>; using CIt = chk_ra<const elem>;
    std::string base = std::string("C20|indices|") + name;
    bool all = in.size() < 80;
    int pick = (int)(in.hash() % 6u);
    auto use = [&](int k) { return all || pick == k; };
    if (use(0)) evaluate(base + "|it,cmp", in, false, cppsort::is_stable<SI(It, It, BY_KEY_T)>::value, [&](arena<elem>& a) { auto v = whole<It>(a); auto r = sorted(v.b, v.e, BY_KEY); static_assert(std::is_same<decltype(r), std::vector<std::ptrdiff_t>>::value, ""); return positions(r); });
    if (use(1)) evaluate(base + "|iterable,desc", in, true, cppsort::is_stable<SI(view<It>&, BY_KEY_DESC_T)>::value, [&](arena<elem>& a) { auto v = whole<It>(a); return positions(sorted(v, BY_KEY_DESC)); });
    if (use(2)) evaluate(base + "|const,it,cmp,proj", in, false, cppsort::is_stable<SI(CIt, CIt, cmp_int, proj_key)>::value, [&](arena<elem>& a) { return positions(sorted(CIt(a.begin(), a.begin(), a.end()), CIt(a.end(), a.begin(), a.end()), cmp_int{}, proj_key{})); });
    if (use(3)) evaluate(base + "|iterable,desc,member", in, true, cppsort::is_stable<SI(view<It>&, cmp_int_desc, int elem_core::*)>::value, [&](arena<elem>& a) { auto v = whole<It>(a); return positions(sorted(v, cmp_int_desc{}, &elem_core::key)); });
    if (use(4)) evaluate(base + "|it,projref", in, false, cppsort::is_stable<SI(elem*, elem*, proj_key_ref)>::value, [&](arena<elem>& a) { return positions(sorted(a.begin(), a.end(), proj_key_ref{})); });
    if (use(5)) evaluate(base + "|deque,none", in, false, cppsort::is_stable<SI(const std::deque<int>&)>::value, [&](arena<elem>& a) {
        std::deque<int> d; for (auto p = a.begin(); p != a.end(); ++p) d.push_back(p->key);
        const auto& c = d;
        auto r = positions(sorted(c));
        std::size_t i = 0; for (auto p = a.begin(); p != a.end(); ++p, ++i) if (d[i] != p->key) mon().bad("collection-modified", show(in.keys));
        return r; });
    (void)fam;
}

template<typename It, typename S>
void iterators_forms(const char* name, const char* cat, const S& s, const input& in) {
    auto sorted = cu::sorted_iterators<S>(s);
    using SI = decltype(sorted);
    std::string base = std::string("C20|iterators|") + name + "|" + cat;
    bool all = in.size() < 80;
    int pick = (int)(in.hash() % 3u);
    auto use = [&](int k) { return all || pick == k; };
    if (use(0)) evaluate(base + "|it,cmp", in, false, cppsort::is_stable<SI(It, It, BY_KEY_T)>::value, [&](arena<elem>& a) { auto v = whole<It>(a); auto r = sorted(v.b, v.e, BY_KEY); static_assert(std::is_same<decltype(r), std::vector<It>>::value, ""); return pointed(r); });
    if (use(1)) evaluate(base + "|iterable,desc,proj", in, true, cppsort::is_stable<SI(view<It>&, cmp_int_desc, proj_key)>::value, [&](arena<elem>& a) { auto v = whole<It>(a); return pointed(sorted(v, cmp_int_desc{}, proj_key{})); });
    if (use(2)) evaluate(base + "|it,member", in, false, cppsort::is_stable<SI(It, It, int elem_core::*)>::value, [&](arena<elem>& a) { auto v = whole<It>(a); return pointed(sorted(v.b, v.e, &elem_core::key)); });
}

// Node based collections: iterators of the collection itself
template<typename Col, typename S>
void list_forms(const char* name, const char* cname, const S& s, const input& in) {
    auto sorted = cu::sorted_iterators<S>(s);
    std::string key = std::string("C20|iterators|") + name + "|" + cname;
    auto& m = mon();
    if (!begin_case(key + "|" + in.label())) return;
    count_case(hash_str(key) ^ in.hash(), in.size() > 1 && !std::is_sorted(in.keys.begin(), in.keys.end()));
    m.key = key; m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
    const Col col(in.keys.begin(), in.keys.end());
    std::map<const int*, long> where; long i = 0;
    for (auto& x: col) where[&x] = i++;
    try {
        auto r = sorted(col, plain_desc{});
        std::vector<long> pos; for (auto it: r) { auto f = where.find(&*it); pos.push_back(f == where.end() ? -1 : f->second); }
        judge_positions(pos, in.keys, true, cppsort::is_stable<cu::sorted_iterators<S>(const Col&, plain_desc)>::value);
    } catch (const runaway&) { m.bad("runaway", show(in.keys)); return; }
    if (!std::equal(col.begin(), col.end(), in.keys.begin())) m.bad("collection-modified", show(in.keys));
}

// Applying the indices sorts the collection
template<typename S>
void round_trip(const char* name, const S& s, const input& in) {
    std::string key = std::string("C20|apply|") + name;
    auto& m = mon();
    if (!begin_case(key + "|" + in.label())) return;
    count_case(hash_str(key) ^ in.hash(), in.size() > 1 && !std::is_sorted(in.keys.begin(), in.keys.end()));
    m.key = key; m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
    long long live0 = m.live;
    {
        arena<elem> a(in.keys);
        auto v = whole<chk_ra<elem>>(a);
        try {
            auto idx = cu::sorted_indices<S>(s)(v, BY_KEY);
            std::vector<long> want(idx.begin(), idx.end());
            m.in_call = true;
            cu::apply_permutation(v, idx);
            m.in_call = false;
            for (std::size_t i = 0; i < in.size(); ++i) if (!a.begin()[i].alive() || a.begin()[i].id != want[i]) { m.bad("wrong-element", "position " + std::to_string(i) + "; input " + show(in.keys)); break; }
            judge_elems(a.begin(), in.size(), in.keys, false, false);
            if (!a.guards_intact()) m.bad("outside-range", show(in.keys));
            event("permutations_applied");
        } catch (const runaway&) { m.in_call = false; m.bad("runaway", show(in.keys)); return; }
    }
    if (m.live != live0) { m.bad("object-balance"); m.live = live0; }
}

template<typename S>
void run_sorter(const char* name, vh_cat, vh_speed sp, bool) {
    S s{};
    profile p; p.exhaustive = ctx().thorough ? 6 : 5; p.dense_patterns = ctx().thorough ? 6 : 1; p.dense_to = sp == vh_heavy ? 40 : 70;
    if (sp == vh_fast) { p.sizes = ctx().thorough ? threshold_sizes() : std::vector<int>{ 97, 256, 600 }; p.large = ctx().thorough ? threshold_sizes_big() : std::vector<int>{ 1025, 3000 }; p.large_patterns = 4; }
    else p.sizes = { 97 };
    int fam = 0;
    for_each_input(p, hash_str(name), [&](const input& in) {
        ++fam;
        indices_forms(name, s, in, fam);
        if (in.size() < 80 || fam % 3 == 0) iterators_forms<chk_fwd<elem>>(name, "fwd", s, in);
        if (in.size() < 80 || fam % 3 == 1) iterators_forms<chk_bidi<elem>>(name, "bidi", s, in);
        if (in.size() < 80 || fam % 3 == 2) iterators_forms<chk_ra<elem>>(name, "ra", s, in);
        list_forms<std::list<int>>(name, "list", s, in);
        list_forms<std::forward_list<int>>(name, "forward_list", s, in);
        round_trip(name, s, in);
    });
    if (cppsort::is_always_stable_v<S>) {
        mon().key = std::string("C20|traits|") + name;
        if (!cppsort::is_stable<cu::sorted_indices<S>(std::vector<int>&)>::value) mon().bad("sorted_indices-not-stable");
        if (!cppsort::is_stable<cu::sorted_iterators<S>(std::list<int>&)>::value) mon().bad("sorted_iterators-not-stable");
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
#define RUN(name, type, cat, speed, stable) run_sorter<type>(#name, cat, speed, stable);
    VH_SORTERS_PART(RUN)
    return finish();
}
