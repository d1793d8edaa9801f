// Sorters that log each call: which one, on which object, with what state, over what.
#ifndef C23_TRACE_H
#define C23_TRACE_H
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include "vh.h"
#include <cpp-sort/adapters.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/utility/iter_move.h>
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <typeinfo>

using namespace vh;

struct obj { int key; int id; bool before(const obj& o) const { return key < o.key; } };
inline bool operator<(const obj& a, const obj& b) { return a.key < b.key; }
struct by_key { bool operator()(const obj& a, const obj& b) const { return a.key < b.key; } bool operator()(int a, int b) const { return a < b; } };
struct by_key_desc { bool operator()(const obj& a, const obj& b) const { return a.key > b.key; } bool operator()(int a, int b) const { return a > b; } };
struct neg { int operator()(const obj& a) const { return -a.key; } int operator()(int a) const { return -a; } };

struct called { int id; int token; const void* self; std::size_t n; const std::type_info* iterator; };
inline std::vector<called>& calls() { static std::vector<called> c; return c; }

////////////////////////////////////////////////////////////
// What tracers do: a stable sort, then equivalent elements reversed when the tracer is to be unstable

template<typename It, typename Cmp, typename Proj>
void trace_sort(It first, It last, Cmp cmp, Proj proj, bool stable) {
    cppsort::merge_sorter{}(first, last, cmp, proj);
    if (stable) return;
    auto&& c = cppsort::utility::as_function(cmp); auto&& p = cppsort::utility::as_function(proj);
    std::vector<It> its; for (It it = first; it != last; ++it) its.push_back(it);
    for (std::size_t i = 0; i < its.size();) {
        std::size_t j = i + 1; while (j < its.size() && !c(p(*its[i]), p(*its[j]))) ++j;
        for (std::size_t a = i, b = j - 1; a < b; ++a, --b) { using cppsort::utility::iter_swap; iter_swap(its[a], its[b]); }
        i = j;
    }
}

////////////////////////////////////////////////////////////
// What tracers accept

struct any_args { template<typename V, typename... A> static constexpr bool ok = true; };
struct int_only { template<typename V, typename... A> static constexpr bool ok = std::is_same<V, int>::value; };
struct obj_only { template<typename V, typename... A> static constexpr bool ok = std::is_same<V, obj>::value; };
struct needs_arg { template<typename V, typename... A> static constexpr bool ok = sizeof...(A) >= 1; };
struct no_arg { template<typename V, typename... A> static constexpr bool ok = sizeof...(A) == 0; };
struct nothing { template<typename V, typename... A> static constexpr bool ok = false; };

struct result { int id; int token; };
template<bool State> struct state_base { int token = -7; state_base() = default; explicit constexpr state_base(int t): token(t) {} int get_token() const { return token; } };
template<> struct state_base<false> { state_base() = default; explicit constexpr state_base(int) {} int get_token() const { return -1; } };

template<typename It> using value_of = typename std::iterator_traits<It>::value_type;
template<typename C> using iter_of = decltype(std::begin(std::declval<C&>()));
template<typename C> using reqcat = typename std::iterator_traits<iter_of<C>>::iterator_category;

// calls with neither, one or two of comparator and projection, over iterables and iterators
template<int Id, typename Cat, typename Accept, bool State, bool Always>
struct tracer: state_base<State> {
    using state_base<State>::state_base;
    using iterator_category = Cat;
    using is_always_stable = std::integral_constant<bool, Always>;
    template<typename It, typename Cmp = std::less<>, typename Proj = cppsort::utility::identity>
    result run(It first, It last, Cmp cmp = {}, Proj proj = {}) const {
        { harness_scope hs; calls().push_back({ Id, this->get_token(), this, (std::size_t)std::distance(first, last), &typeid(It) }); }
        trace_sort(first, last, cmp, proj, Always);
        return { Id, this->get_token() };
    }
    template<typename It, typename... A, typename = std::enable_if_t<
        std::is_base_of<Cat, typename std::iterator_traits<It>::iterator_category>::value && Accept::template ok<value_of<It>, A...>>>
    result operator()(It first, It last, A... a) const { return run(first, last, a...); }
    template<typename C, typename... A, typename = std::enable_if_t<
        std::is_base_of<Cat, reqcat<C>>::value && Accept::template ok<value_of<iter_of<C>>, A...>
        && sizeof...(A) <= 2>>
    result operator()(C&& c, A... a) const { return run(std::begin(c), std::end(c), a...); }
};

template<typename F, typename... A> auto can_call_(int) -> decltype((void)std::declval<F>()(std::declval<A>()...), std::true_type());
template<typename F, typename... A> std::false_type can_call_(...);
template<typename F, typename... A> constexpr bool can_call = decltype(can_call_<F, A...>(0))::value;

inline std::vector<int> gen_keys(rng& r, int n, int distinct) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back((int)r.below((std::uint64_t)distinct)); return v; }
template<typename C> struct fill { static C make(const std::vector<int>& k) { C c; auto it = c.begin(); (void)it; for (std::size_t i = k.size(); i-- > 0;) c.insert(c.begin(), { k[i], (int)i }); return c; } };
template<> struct fill<std::forward_list<obj>> { static std::forward_list<obj> make(const std::vector<int>& k) { std::forward_list<obj> c; for (std::size_t i = k.size(); i-- > 0;) c.push_front({ k[i], (int)i }); return c; } };
template<> struct fill<std::forward_list<int>> { static std::forward_list<int> make(const std::vector<int>& k) { return { k.begin(), k.end() }; } };
template<> struct fill<std::list<int>> { static std::list<int> make(const std::vector<int>& k) { return { k.begin(), k.end() }; } };
template<> struct fill<std::vector<int>> { static std::vector<int> make(const std::vector<int>& k) { return k; } };

// direction: +1 ascending by key, -1 descending; stable: 1 yes, -1 equivalent elements reversed, 0 either
inline bool sorted_as(const std::vector<int>& k, const std::vector<obj>& got, int dir, int stable) {
    std::vector<obj> w; for (std::size_t i = 0; i < k.size(); ++i) w.push_back({ k[i], (int)i });
    std::stable_sort(w.begin(), w.end(), [&](const obj& a, const obj& b) { return dir > 0 ? a.key < b.key : a.key > b.key; });
    if (got.size() != w.size()) return false;
    std::vector<char> seen(w.size(), 0);
    for (std::size_t i = 0; i < w.size(); ++i) {
        if (got[i].key != w[i].key || (stable == 1 && got[i].id != w[i].id)) return false;
        if (got[i].id < 0 || (std::size_t)got[i].id >= w.size() || seen[(std::size_t)got[i].id]++ || k[(std::size_t)got[i].id] != got[i].key) return false;
    }
    return true;
}
inline bool sorted_as(std::vector<int> k, const std::vector<int>& got, int dir, int) {
    if (dir > 0) std::sort(k.begin(), k.end()); else std::sort(k.begin(), k.end(), std::greater<>{});
    return k == got;
}
template<typename C> auto dump(const C& c) { std::vector<std::decay_t<decltype(*std::begin(c))>> v(std::begin(c), std::end(c)); return v; }
#endif
