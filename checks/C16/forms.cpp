// C16: every call form of every sorter, against the model of a stable sort by the key that the form means.
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include "vh.h"
#include "vh_sorters.h"
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/not_fn.h>
#include <cpp-sort/adapters/stable_adapter.h>
#include <cpp-sort/refined.h>
#include <cpp-sort/sort.h>
#include <cpp-sort/stable_sort.h>
#include <cpp-sort/sorter_traits.h>
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <type_traits>
#if __cplusplus >= 202002L
#include <ranges>
#include <span>
#endif
using namespace vh;
namespace cu = cppsort::utility;

static std::string where;                 // form running now, for what the callables report
static void bad(const std::string& what, const std::string& detail = "") { violation("C16|" + what, detail + " [" + where + "]"); }

struct E {
    int v = 0, w = 0, id = -1;
    int get_w() const { return w; }
    int neg_w() const noexcept { return -w; }
    bool before_w(const E& o) const { return w < o.w; }
    bool after_v(E o) const { return v > o.v; }
    int& ref_w() { return w; }
    friend bool operator<(const E& a, const E& b) { return a.v < b.v; }
    friend bool operator>(const E& a, const E& b) { return a.v > b.v; }
    friend bool operator<=(const E& a, const E& b) { return a.v <= b.v; }
    friend bool operator>=(const E& a, const E& b) { return a.v >= b.v; }
    friend bool operator==(const E& a, const E& b) { return a.v == b.v; }
    friend bool operator!=(const E& a, const E& b) { return a.v != b.v; }
};
// comparators and projections of all kinds
static bool plain_desc_w(const E& a, const E& b) { return a.w > b.w; }
static int plain_project(const E& e) { return e.w; }
static bool int_desc(int a, int b) { return a > b; }
static bool plain_non_const(E& a, E& b) { return a.w < b.w; }
struct ambiguous {                        // a comparison of elements (by w, descending), a projection of elements (to v modulo 5)
    bool operator()(const E& a, const E& b) const { return a.w > b.w; }
    int operator()(const E& e) const { return e.v % 5; }
};
struct fragile {                          // must not be called once moved from or destroyed
    static long long& calls() { static long long c = 0; return c; }
    int state = 42;
    fragile() = default;
    fragile(const fragile& o): state(o.state) { if (state != 42) { harness_scope hs; bad("copy of a moved-from callable"); } }
    fragile(fragile&& o): state(o.state) { o.state = 1; }
    fragile& operator=(const fragile&) = default;
    fragile& operator=(fragile&& o) { state = o.state; if (&o != this) o.state = 1; return *this; }
    ~fragile() { state = 2; }
    void use() const { ++calls(); if (state != 42) { harness_scope hs; bad(state == 1 ? "moved-from callable called" : "destroyed callable called"); } }
};
struct fragile_less: fragile { bool operator()(const E& a, const E& b) const { use(); return a.w < b.w; } };
struct fragile_int_greater: fragile { bool operator()(int a, int b) const { use(); return a > b; } };
struct fragile_project: fragile { int operator()(const E& e) const { use(); return -e.w; } };
struct only_rvalue_blind { template<typename T, typename U> bool operator()(T&& a, U&& b) const { return a.w > b.w; } };
// refine: a call to the unrefined object is a violation
static std::uint64_t refined_calls = 0, refinements = 0;
struct refined_cmp { bool operator()(const E& a, const E& b) const { ++refined_calls; return a.w < b.w; } };
struct refinable_cmp {
    template<typename T> std::enable_if_t<std::is_same<std::decay_t<T>, E>::value, refined_cmp> refine() const { ++refinements; static_assert(!std::is_reference<T>::value, "refined for a reference"); return {}; }
    bool operator()(const E& a, const E& b) const { harness_scope hs; bad("unrefined comparator called"); return a.v > b.v; }
};
struct refined_proj { int operator()(const E& e) const { ++refined_calls; return -e.w; } };
struct refinable_proj {
    template<typename T> std::enable_if_t<std::is_same<std::decay_t<T>, E>::value, refined_proj> refine() const { ++refinements; static_assert(!std::is_reference<T>::value, "refined for a reference"); return {}; }
    int operator()(const E& e) const { harness_scope hs; bad("unrefined projection called"); return e.v; }
};
struct refinable_elsewhere {              // can only be refined for other types
    template<typename T> std::enable_if_t<std::is_same<std::decay_t<T>, std::string>::value, refined_cmp> refine() const { return {}; }
    bool operator()(const E& a, const E& b) const { return a.w > b.w; }
};
template<typename I> struct view {        // cheap range, may be a temporary
    I b, e; I begin() const { return b; } I end() const { return e; }
};
template<typename I> static view<I> mk(I b, I e) { return { b, e }; }

enum key { by_v, by_w, by_minus_w, by_minus_v, by_v5, by_w_then };
static long long key_of(key k, const E& e) { switch (k) { case by_v: return e.v; case by_w: return e.w; case by_minus_w: return -e.w; case by_minus_v: return -e.v; case by_v5: return e.v % 5; default: return e.w; } }

template<typename C> static std::vector<int> ids(const C& c) { std::vector<int> r; for (auto& e: c) r.push_back(e.id); return r; }
template<typename C> static bool judge(const C& c, const std::vector<E>& before, key k, bool stable) {
    std::vector<char> seen(before.size(), 0); const E* prev = nullptr; std::size_t n = 0;
    for (auto& e: c) {
        if (e.id < 0 || (std::size_t)e.id >= before.size() || seen[(std::size_t)e.id]++ || before[(std::size_t)e.id].v != e.v || before[(std::size_t)e.id].w != e.w) { bad("not a permutation"); return false; }
        if (prev && key_of(k, *prev) > key_of(k, e)) { bad("not in the order asked for", std::to_string(n)); return false; }
        if (stable && prev && key_of(k, *prev) == key_of(k, e) && prev->id > e.id) { bad("not stable"); return false; }
        prev = &e; ++n;
    }
    if (n != before.size()) { bad("not a permutation"); return false; }
    return true;
}

struct inputs_t { std::vector<std::vector<E>> all; };
static inputs_t make_inputs(std::uint64_t salt, std::size_t max) {
    inputs_t r; rng g(mix(ctx().seed * 131 + salt));
    int n = ctx().thorough ? 60 : 7;
    for (int i = 0; i < n; ++i) {
        int size = i == 0 ? (int)g.below(4) : i < 3 ? 2 + (int)g.below(14) : i < 5 ? 20 + (int)g.below(60) : (int)g.below(max);
        input in = make_input((int)g.below((std::uint64_t)n_patterns), std::min(size, (int)max), g.next() % 1000003);
        std::vector<E> v; int range = i % 2 ? 8 : 100000;
        for (std::size_t j = 0; j < in.keys.size(); ++j) { E e; e.v = ((in.keys[j] % 100000) + 100000) % 100000; e.w = (int)(mix((std::uint64_t)in.keys[j] * 7 + salt) % (std::uint64_t)range) - range / 2; e.id = (int)j; v.push_back(e); }
        r.all.push_back(v);
    }
    return r;
}

static std::string sorter_name; static bool sorter_stable; static inputs_t* ins;
// One form: f(v) must sort v by k. Returns what it made of each input.
template<typename F> static std::vector<std::vector<int>> form(const char* what, key k, F f, int stable = -1) {
    std::vector<std::vector<int>> out; int i = 0;
    for (auto& in: ins->all) {
        std::string label = "C16|" + sorter_name + "|" + what + "|" + std::to_string(i++);
        std::vector<E> v = in; out.emplace_back();
        if (!begin_case(label)) continue;
        where = sorter_name + " " + what;
        f(v);
        judge(v, in, k, stable < 0 ? sorter_stable : stable != 0);
        out.back() = ids(v);
        count_case(hash_str(label), in.size() > 1); event("calls_judged");
        if (in.size() > 10 && in.size() < 30) sample(label);
    }
    return out;
}
static void same(const char* what, const std::vector<std::vector<int>>& a, const std::vector<std::vector<int>>& b) {
    if (!ctx().only.empty()) return;
    where = sorter_name + " " + what;
    for (std::size_t i = 0; i < a.size(); ++i) { event("results_compared"); if (a[i] != b[i]) { bad("result differs from the one of the basic call", "input " + std::to_string(i)); return; } }
}
// containers of other kinds
template<typename C, typename F> static void other(const char* what, key k, F f) {
    int i = 0;
    for (auto& in: ins->all) {
        std::string label = "C16|" + sorter_name + "|" + what + "|" + std::to_string(i++);
        if (!begin_case(label)) continue;
        where = sorter_name + " " + what;
        C c(in.begin(), in.end()); f(c); judge(c, in, k, sorter_stable);
        count_case(hash_str(label), in.size() > 1); event("calls_judged"); event("other_collections");
    }
}
// LWG3031. std::stable_sort compares with const elements: not judged
template<typename S> struct takes_non_const: std::true_type {};
template<> struct takes_non_const<cppsort::stable_adapter<cppsort::std_sorter>>: std::false_type {};
template<typename S> static void non_const(const S&, std::false_type) {}
template<typename S> static void non_const(const S& s, std::true_type) {
    using V = std::vector<E>;
    form("iterable, non-const references", by_w, [&](V& v) { s(v, plain_non_const); });
    form("iterators, non-const references", by_minus_v, [&](V& v) { s(v.begin(), v.end(), [](E& a, E& b) { return a.v > b.v; }); });
    form("iterable, non-const comparison, non-const projection", by_minus_w, [&](V& v) { s(v, [](int& a, int& b) { return a > b; }, &E::ref_w); });
    form("iterators, non-const member function", by_w, [&](V& v) { s(v.begin(), v.end(), &E::ref_w); });
    form("iterable, projection to a value, from non-const", by_minus_w, [&](V& v) { s(v, [](E& e) { return -e.w; }); });
    event("non_const_comparisons", 3);
}
template<vh_cat C> struct cat_c {};
template<typename S> static void lists(const S&, cat_c<vh_ra>) {}
template<typename S> static void lists(const S& s, cat_c<vh_bidi>) {
    other<std::list<E>>("list", by_v, [&](auto& c) { s(c); });
    other<std::list<E>>("list, comparison", by_minus_w, [&](auto& c) { s(c, plain_desc_w); });
    other<std::list<E>>("list iterators, both", by_minus_w, [&](auto& c) { s(c.begin(), c.end(), std::greater<>{}, &E::w); });
}
template<typename S> static void lists(const S& s, cat_c<vh_fwd>) {
    lists(s, cat_c<vh_bidi>());
    other<std::forward_list<E>>("forward_list", by_v, [&](auto& c) { s(c); });
    other<std::forward_list<E>>("forward_list, projection", by_w, [&](auto& c) { s(c, &E::get_w); });
    other<std::forward_list<E>>("forward_list iterators, less", by_v, [&](auto& c) { s(c.begin(), c.end(), std::less<>{}); });
}
template<typename S> static void fptrs(const S& s, const std::vector<std::vector<int>>& basic, const std::vector<std::vector<int>>& cmp, const std::vector<std::vector<int>>& proj, const std::vector<std::vector<int>>& both, std::true_type) {
    using V = std::vector<E>; using I = V::iterator; using C = bool(*)(const E&, const E&); using P = int(*)(const E&); using D = bool(*)(int, int);
    void (*a)(V&) = s; void (*b)(V&, C) = s; void (*c)(V&, P) = s; void (*d)(V&, D, P) = s; void (*e)(I, I) = s; void (*f)(I, I, C) = s; void (*g)(I, I, P) = s; void (*h)(I, I, D, P) = s; void (*r)(V&&) = s; void (*r2)(view<I>&&, C) = s; void (*r3)(view<I>&&, D, P) = s;
    same("fptr iterable", form("fptr iterable", by_v, [&](V& v) { a(v); }), basic);
    same("fptr rvalue iterable", form("fptr rvalue iterable", by_v, [&](V& v) { r(std::move(v)); }), basic);
    same("fptr iterators", form("fptr iterators", by_v, [&](V& v) { e(v.begin(), v.end()); }), basic);
    same("fptr iterable cmp", form("fptr iterable cmp", by_minus_w, [&](V& v) { b(v, plain_desc_w); }), cmp);
    same("fptr rvalue iterable cmp", form("fptr rvalue iterable cmp", by_minus_w, [&](V& v) { r2(mk(v.begin(), v.end()), plain_desc_w); }), cmp);
    same("fptr iterators cmp", form("fptr iterators cmp", by_minus_w, [&](V& v) { f(v.begin(), v.end(), plain_desc_w); }), cmp);
    same("fptr iterable proj", form("fptr iterable proj", by_w, [&](V& v) { c(v, plain_project); }), proj);
    same("fptr iterators proj", form("fptr iterators proj", by_w, [&](V& v) { g(v.begin(), v.end(), plain_project); }), proj);
    same("fptr iterable both", form("fptr iterable both", by_minus_w, [&](V& v) { d(v, int_desc, plain_project); }), both);
    same("fptr iterators both", form("fptr iterators both", by_minus_w, [&](V& v) { h(v.begin(), v.end(), int_desc, plain_project); }), both);
    same("fptr rvalue iterable both", form("fptr rvalue iterable both", by_minus_w, [&](V& v) { r3(mk(v.begin(), v.end()), int_desc, plain_project); }), both);
    event("function_pointers", 11);
}
template<typename S> static void fptrs(const S&, const std::vector<std::vector<int>>&, const std::vector<std::vector<int>>&, const std::vector<std::vector<int>>&, const std::vector<std::vector<int>>&, std::false_type) {}

template<typename S, typename Cat> static void sorter(const char* name, const S& s, std::size_t max, bool stable, Cat cat) {
    using V = std::vector<E>;
    static_assert(cppsort::is_sorter_v<S, V> && cppsort::is_sorter_iterator_v<S, V::iterator>, "");
    static_assert(cppsort::is_comparison_sorter_v<S, V, std::greater<>> && cppsort::is_comparison_sorter_iterator_v<S, V::iterator, bool(*)(const E&, const E&)> && cppsort::is_comparison_sorter_v<S, V, bool(E::*)(const E&) const>, "");
    static_assert(cppsort::is_projection_sorter_v<S, V, int E::*> && cppsort::is_projection_sorter_iterator_v<S, V::iterator, int (E::*)() const>, "");
    static_assert(cppsort::is_comparison_projection_sorter_v<S, V, std::greater<>, int E::*> && cppsort::is_comparison_projection_sorter_iterator_v<S, V::iterator, bool(*)(int, int), int E::*>, "");
    sorter_name = name; sorter_stable = stable; auto all = make_inputs(hash_str(name), max); ins = &all;
    // nothing, less and identity
    auto basic = form("iterators", by_v, [&](V& v) { s(v.begin(), v.end()); });
    same("iterable", form("iterable", by_v, [&](V& v) { s(v); }), basic);
    same("rvalue iterable", form("rvalue iterable", by_v, [&](V& v) { s(mk(v.begin(), v.end())); }), basic);
    same("less", form("iterable, less", by_v, [&](V& v) { s(v, std::less<>{}); }), basic);
    same("less, iterators", form("iterators, less", by_v, [&](V& v) { s(v.begin(), v.end(), std::less<>{}); }), basic);
    same("identity", form("iterable, identity", by_v, [&](V& v) { s(v, cu::identity{}); }), basic);
    same("identity, iterators", form("iterators, identity", by_v, [&](V& v) { s(v.begin(), v.end(), cu::identity{}); }), basic);
    same("less, identity", form("iterable, less, identity", by_v, [&](V& v) { s(v, std::less<>{}, cu::identity{}); }), basic);
    same("less, identity, iterators", form("iterators, less, identity", by_v, [&](V& v) { s(v.begin(), v.end(), std::less<>{}, cu::identity{}); }), basic);
    same("sort", form("cppsort::sort(sorter, iterable)", by_v, [&](V& v) { cppsort::sort(s, v); }), basic);
    same("sort, iterators", form("cppsort::sort(sorter, iterators)", by_v, [&](V& v) { cppsort::sort(s, v.begin(), v.end()); }), basic);
#if __cplusplus >= 202002L
    form("iterable, ranges::less", by_v, [&](V& v) { s(v, std::ranges::less{}); });
    form("iterators, std::identity", by_v, [&](V& v) { s(v.begin(), v.end(), std::identity{}); });
    form("iterable, ranges::less, std::identity", by_v, [&](V& v) { s(v, std::ranges::less{}, std::identity{}); });
    form("span, ranges::greater", by_minus_v, [&](V& v) { s(std::span<E>(v), std::ranges::greater{}); });
    form("subrange, ranges::greater, member", by_minus_w, [&](V& v) { s(std::ranges::subrange(v.begin(), v.end()), std::ranges::greater{}, &E::w); });
    event("cxx20_forms", 5);
#endif
    // a comparison
    auto cmp = form("iterators, function", by_minus_w, [&](V& v) { s(v.begin(), v.end(), plain_desc_w); });
    same("iterable, function", form("iterable, function", by_minus_w, [&](V& v) { s(v, plain_desc_w); }), cmp);
    same("rvalue iterable, function", form("rvalue iterable, function", by_minus_w, [&](V& v) { s(mk(v.begin(), v.end()), &plain_desc_w); }), cmp);
    same("sort, function", form("cppsort::sort(sorter, iterable, function)", by_minus_w, [&](V& v) { cppsort::sort(s, v, &plain_desc_w); }), cmp);
    same("sort, iterators, function", form("cppsort::sort(sorter, iterators, function)", by_minus_w, [&](V& v) { cppsort::sort(s, v.begin(), v.end(), &plain_desc_w); }), cmp);
    form("iterable, greater", by_minus_v, [&](V& v) { s(v, std::greater<>{}); });
    form("pointers, lambda", by_w, [&](V& v) { s(v.data(), v.data() + v.size(), [](const E& a, const E& b) { return a.w < b.w; }); });
    form("iterable, member function comparison", by_w, [&](V& v) { s(v, &E::before_w); });
    form("iterators, member function by value", by_minus_v, [&](V& v) { s(v.begin(), v.end(), &E::after_v); });
    form("iterable, as_comparison", by_minus_w, [&](V& v) { s(v, cu::as_comparison(ambiguous{})); });
    form("iterators, flip", by_minus_w, [&](V& v) { s(v.begin(), v.end(), cppsort::flip([](const E& a, const E& b) { return a.w < b.w; })); });
    form("iterable, flip of a member function", by_minus_w, [&](V& v) { s(v, cppsort::flip(&E::before_w)); });
    form("iterators, not_fn", by_w, [&](V& v) { s(v.begin(), v.end(), cppsort::not_fn([](const E& a, const E& b) { return a.w >= b.w; })); });
    non_const(s, takes_non_const<S>());
    form("iterable, any references", by_minus_w, [&](V& v) { s(v, only_rvalue_blind{}); });
    form("iterators, fragile", by_w, [&](V& v) { s(v.begin(), v.end(), fragile_less{}); });
    form("iterable, fragile", by_w, [&](V& v) { fragile_less f; s(v, f); if (f.state != 42) bad("argument moved from"); });
    form("iterable, refinable", by_w, [&](V& v) { s(v, refinable_cmp{}); });
    form("iterators, refinable", by_w, [&](V& v) { s(v.begin(), v.end(), refinable_cmp{}); });
    form("iterable, refinable elsewhere", by_minus_w, [&](V& v) { s(v, refinable_elsewhere{}); });
    form("iterators, std::function", by_minus_w, [&](V& v) { s(v.begin(), v.end(), std::function<bool(const E&, const E&)>(plain_desc_w)); });
    form("iterable, std::ref", by_minus_w, [&](V& v) { only_rvalue_blind o; s(v, std::ref(o)); });
    // a projection
    auto proj = form("iterators, projection function", by_w, [&](V& v) { s(v.begin(), v.end(), plain_project); });
    same("iterable, projection function", form("iterable, projection function", by_w, [&](V& v) { s(v, plain_project); }), proj);
    same("sort, projection function", form("cppsort::sort(sorter, iterable, projection)", by_w, [&](V& v) { cppsort::sort(s, v, &plain_project); }), proj);
    same("sort, iterators, projection function", form("cppsort::sort(sorter, iterators, projection)", by_w, [&](V& v) { cppsort::sort(s, v.begin(), v.end(), &plain_project); }), proj);
    same("iterators, less, projection function", form("iterators, less, projection function", by_w, [&](V& v) { s(v.begin(), v.end(), std::less<>{}, plain_project); }), proj);
    same("iterable, less, projection function", form("iterable, less, projection function", by_w, [&](V& v) { s(v, std::less<>{}, plain_project); }), proj);
    form("iterators, data member", by_w, [&](V& v) { s(v.begin(), v.end(), &E::w); });
    form("iterable, data member", by_w, [&](V& v) { s(v, &E::w); });
    form("iterable, member function", by_minus_w, [&](V& v) { s(v, &E::neg_w); });
    form("iterable, as_projection", by_v5, [&](V& v) { s(v, cu::as_projection(ambiguous{})); });
    form("iterators, chain", by_minus_w, [&](V& v) { s(v.begin(), v.end(), cu::as_projection(&E::w) | std::negate<>{}); });
    form("iterators, fragile projection", by_minus_w, [&](V& v) { s(v.begin(), v.end(), fragile_project{}); });
    form("iterable, refinable projection", by_minus_w, [&](V& v) { s(v, refinable_proj{}); });
    // both
    auto both = form("iterators, function, function", by_minus_w, [&](V& v) { s(v.begin(), v.end(), int_desc, plain_project); });
    same("iterable, function, function", form("iterable, function, function", by_minus_w, [&](V& v) { s(v, int_desc, plain_project); }), both);
    same("sort, both", form("cppsort::sort(sorter, iterable, both)", by_minus_w, [&](V& v) { cppsort::sort(s, v, &int_desc, &plain_project); }), both);
    same("sort, iterators, both", form("cppsort::sort(sorter, iterators, both)", by_minus_w, [&](V& v) { cppsort::sort(s, v.begin(), v.end(), &int_desc, &plain_project); }), both);
    same("iterators, cmp, identity", form("iterators, function, identity", by_minus_w, [&](V& v) { s(v.begin(), v.end(), plain_desc_w, cu::identity{}); }), cmp);
    form("iterable, greater, member", by_minus_w, [&](V& v) { s(v, std::greater<>{}, &E::w); });
    form("iterators, lambda, member function", by_w, [&](V& v) { s(v.begin(), v.end(), [](int a, int b) { return a < b; }, &E::get_w); });
    form("iterable, member comparison, identity", by_w, [&](V& v) { s(v, &E::before_w, cu::identity{}); });
    form("iterators, as_comparison, as_projection", by_w, [&](V& v) { s(v.begin(), v.end(), cu::as_comparison(int_desc), cu::as_projection(&E::neg_w)); });
    form("iterators, fragile both", by_w, [&](V& v) { s(v.begin(), v.end(), fragile_int_greater{}, fragile_project{}); });
    form("iterable, refinable both", by_minus_w, [&](V& v) { s(v, std::less<>{}, refinable_proj{}); });
    form("iterators, refinable comparison, identity", by_w, [&](V& v) { s(v.begin(), v.end(), refinable_cmp{}, cu::identity{}); });
    // stable_sort
    form("stable_sort(sorter, iterable)", by_v, [&](V& v) { cppsort::stable_sort(s, v); }, 1);
    form("stable_sort(sorter, iterators, function)", by_minus_w, [&](V& v) { cppsort::stable_sort(s, v.begin(), v.end(), &plain_desc_w); }, 1);
    form("stable_sort(sorter, iterable, projection)", by_w, [&](V& v) { cppsort::stable_sort(s, v, &E::w); }, 1);
    form("stable_sort(sorter, iterators, both)", by_minus_w, [&](V& v) { cppsort::stable_sort(s, v.begin(), v.end(), std::greater<>{}, &E::w); }, 1);
    // other collections
    other<std::deque<E>>("deque", by_minus_w, [&](auto& c) { s(c, std::greater<>{}, &E::w); });
    form("array", by_minus_w, [&](V& v) { if (v.size() < 5) { std::stable_sort(v.begin(), v.end(), plain_desc_w); return; } E a[5]; std::copy_n(v.begin(), 5, a); for (int i = 0; i < 5; ++i) a[i].id = i; V b(a, a + 5); s(a, plain_desc_w); judge(V(a, a + 5), b, by_minus_w, sorter_stable); std::stable_sort(v.begin(), v.end(), plain_desc_w); });
    other<V>("const sorter, move iterators of a copy", by_w, [&](V& c) { const S t{}; S u = t; u(c.begin(), c.end(), &E::w); });
    lists(s, cat);
    fptrs(s, basic, cmp, proj, both, std::integral_constant<bool, std::is_empty<S>::value>());
}
static void run() {
#define X(name, type, cat, speed, stable) { static const type s{}; sorter(#name, s, speed == vh_heavy ? 120 : speed == vh_quadratic ? 150 : 700, stable, cat_c<cat>()); }
    VH_SORTERS_PART(X)
#undef X
}
int main(int argc, char** argv) {
    init(argc, argv);
    run();
    event("fragile_calls", (std::uint64_t)fragile::calls()); event("refined_calls", refined_calls); event("refinements", refinements);
    return finish();
}
