// C23 (2): adapters of a single sorter: stored state, get(), result; stable_adapter, self_sort_adapter, small_array_adapter: what is called.
#include "trace.h"

static void fail(const std::string& k, const std::string& d = "") { violation("C23|" + k, d); }
using FWD = std::forward_iterator_tag; using BIDI = std::bidirectional_iterator_tag; using RA = std::random_access_iterator_tag;
#define SAME(key, A, ...) do { event("types_judged"); if (!std::is_same<A, __VA_ARGS__>::value) fail(std::string(key) + "|type", #A " is not " #__VA_ARGS__); } while (0)
#define TRUE_(key, ...) do { event("facts_judged"); if (!(__VA_ARGS__)) fail(key, #__VA_ARGS__); } while (0)

// a sorter whose implementation is adapted by the facade, with state, and whose result depends on it; can be unstable
template<bool State, bool Always, typename Cat = FWD> struct plain_impl: state_base<State> {
    using state_base<State>::state_base;
    template<typename It, typename Cmp = std::less<>, typename Proj = cppsort::utility::identity, typename = std::enable_if_t<cppsort::is_projection_iterator_v<Proj, It, Cmp>>>
    result operator()(It first, It last, Cmp cmp = {}, Proj proj = {}) const {
        { harness_scope hs; calls().push_back({ 1, this->get_token(), (const state_base<State>*)this, (std::size_t)std::distance(first, last), &typeid(It) }); }
        trace_sort(first, last, cmp, proj, Always);
        return { 1, this->get_token() };
    }
    using iterator_category = Cat; using is_always_stable = std::integral_constant<bool, Always>;
};
template<bool State, bool Always, typename Cat = FWD> struct plain: cppsort::sorter_facade<plain_impl<State, Always, Cat>> { plain() = default; explicit plain(int t): cppsort::sorter_facade<plain_impl<State, Always, Cat>>(t) {} };

////////////////////////////////////////////////////////////
// 1. stored sorters

struct result_check { static bool ok(const result& r, int token) { return r.id == 1 && r.token == token; } };
template<bool Judge, typename R> struct judge_result { static bool ok(const R&, int) { return true; } };
template<> struct judge_result<true, result> { static bool ok(const result& r, int t) { return r.id == 1 && r.token == t; } };
template<bool Judge, bool Void> struct call_and_judge {
    template<typename F, typename... A> static bool go(F&& f, int token, A&&... a) { auto r = f(std::forward<A>(a)...); return judge_result<Judge, decltype(r)>::ok(r, token); }
};
template<bool Judge> struct call_and_judge<Judge, true> { template<typename F, typename... A> static bool go(F&& f, int, A&&... a) { f(std::forward<A>(a)...); return !Judge; } };

// the adapted sorter may be called any number of times (verge_adapter...), always in the given state
template<bool Judge, typename Ad, typename C, typename... A>
static void check_calls(const std::string& key, const Ad& ad, int token, rng& r, int dir, bool stable, A... a) {
    auto keys = gen_keys(r, 40, 12); C c = fill<C>::make(keys); C d = fill<C>::make(keys);
    calls().clear();
    constexpr bool vd = std::is_void<decltype(ad(c, a...))>::value;
    if (!call_and_judge<Judge, vd>::go(ad, token, c, a...)) fail(key + "|result");
    std::size_t n = calls().size();
    if (!call_and_judge<Judge, vd>::go(ad, token, d.begin(), d.end(), a...)) fail(key + "|result with iterators");
    if (!n || calls().size() == n) fail(key + "|adapted sorter not called");
    for (auto& x: calls()) if (x.token != token) { fail(key + "|state", std::to_string(x.token) + " instead of " + std::to_string(token)); break; }
    if (!sorted_as(keys, dump(c), dir, stable) || !sorted_as(keys, dump(d), dir, stable)) fail(key + "|not sorted");
    event("calls_judged", calls().size()); if (Judge) event("results_judged", 2);
}
template<bool Judge, typename C, template<typename> class Ad, typename S> static void stateful(const char* name, rng& r, bool stable) {
    std::string key = std::string("state|") + name;
    if (!begin_case("C23|" + key)) return;
    for (int rep = 0; rep < 4; ++rep) {
        count_case(hash_str(name) + (unsigned)rep, true);
        int t = 10 + (int)r.below(500);
        S s(t); Ad<S> ad(s); s.token = -50;                               // a copy is stored
        check_calls<Judge, Ad<S>, C>(key, ad, t, r, 1, stable); check_calls<Judge, Ad<S>, C>(key, ad, t, r, -1, stable, by_key_desc{}); check_calls<Judge, Ad<S>, C>(key, ad, t, r, 1, stable, by_key_desc{}, neg{});
        Ad<S> copy(ad); const Ad<S> moved(std::move(copy)); check_calls<Judge, Ad<S>, C>(key + "|moved", moved, t, r, 1, stable);
        Ad<S> assigned(S(t + 1)); assigned = moved; check_calls<Judge, Ad<S>, C>(key + "|assigned", assigned, t, r, 1, stable);
        if (ad.get().token != t || moved.get().token != t || Ad<S>(S(t + 3)).get().token != t + 3) fail(key + "|get");
        ad.get().token = t + 2; check_calls<Judge, Ad<S>, C>(key + "|changed through get", ad, t + 2, r, 1, stable); check_calls<Judge, Ad<S>, C>(key + "|unchanged copy", moved, t, r, 1, stable);
        SAME(key + "|get", decltype(ad.get()), S&); SAME(key + "|get", decltype(moved.get()), const S&); SAME(key + "|get", decltype(std::move(ad).get()), S&&); SAME(key + "|get", decltype(std::move(moved).get()), const S&&);
        auto p = (const char*)std::addressof(moved.get()), b = (const char*)&moved; TRUE_(key + "|get is stored", p >= b && p < b + sizeof(moved));
        TRUE_(key + "|default", Ad<S>{}.get().token == -7);
        event("states_followed", 5);
    }
}
template<bool Judge, typename C, template<typename> class Ad, typename S> static void stateless(const char* name, rng& r, bool stable) {
    std::string key = std::string("empty|") + name;
    if (!begin_case("C23|" + key)) return;
    count_case(hash_str(key), true);
    const Ad<S> ad{}; const Ad<S> ad2(S{});
    TRUE_(key, std::is_empty<Ad<S>>::value && std::is_default_constructible<Ad<S>>::value);
    check_calls<Judge, Ad<S>, C>(key, ad, -1, r, 1, stable); check_calls<Judge, Ad<S>, C>(key, ad2, -1, r, -1, stable, by_key_desc{}); check_calls<Judge, Ad<S>, C>(key, ad2, -1, r, 1, stable, by_key_desc{}, neg{});
    using It = typename C::iterator; auto keys = gen_keys(r, 30, 9);
    C c = fill<C>::make(keys); void (*f)(C&) = ad; f(c); void (*g)(It, It, by_key_desc) = ad; C d = fill<C>::make(keys); g(d.begin(), d.end(), by_key_desc{}); void (*h)(C&, by_key_desc, neg) = ad; C e = fill<C>::make(keys); h(e, by_key_desc{}, neg{});
    if (!sorted_as(keys, dump(c), 1, stable) || !sorted_as(keys, dump(d), -1, stable) || !sorted_as(keys, dump(e), 1, stable)) fail(key + "|function pointer");
    event("function_pointers_called", 3);
}
template<typename S> using counting_a = cppsort::counting_adapter<S>;
template<bool Judge, typename C, template<typename> class Ad, typename Cat> static void both(const char* name, rng& r, bool keeps_stability) {
    stateful<Judge, C, Ad, plain<true, true, Cat>>((std::string(name) + " stable").c_str(), r, keeps_stability); stateful<Judge, C, Ad, plain<true, false, Cat>>((std::string(name) + " unstable").c_str(), r, false);
    stateless<Judge, C, Ad, plain<false, true, Cat>>((std::string(name) + " stable").c_str(), r, keeps_stability); stateless<Judge, C, Ad, plain<false, false, Cat>>((std::string(name) + " unstable").c_str(), r, false);
}
#if __cplusplus >= 201703L
constexpr bool cpp17 = true;
#else
constexpr bool cpp17 = false;
#endif
template<typename S> using twice_indirect = cppsort::indirect_adapter<S>;

////////////////////////////////////////////////////////////
// 2. stable_adapter: the sorter itself when the call is stable

template<bool State> struct sometimes_impl: plain_impl<State, false> {       // stable for vectors
    using plain_impl<State, false>::plain_impl;
    template<typename It, typename Cmp = std::less<>, typename Proj = cppsort::utility::identity, typename = std::enable_if_t<cppsort::is_projection_iterator_v<Proj, It, Cmp>>>
    result operator()(It first, It last, Cmp cmp = {}, Proj proj = {}) const {
        { harness_scope hs; calls().push_back({ 1, this->get_token(), (const state_base<State>*)this, (std::size_t)std::distance(first, last), &typeid(It) }); }
        trace_sort(first, last, cmp, proj, std::is_same<It, std::vector<obj>::iterator>::value);
        return { 1, this->get_token() };
    }
};
template<bool State> struct sometimes: cppsort::sorter_facade<sometimes_impl<State>> { sometimes() = default; explicit sometimes(int t): cppsort::sorter_facade<sometimes_impl<State>>(t) {} };
namespace cppsort {
    template<bool S, typename... A> struct is_stable<sometimes<S>(std::vector<obj>&, A...)>: std::true_type {};
    template<bool S, typename... A> struct is_stable<sometimes<S>(std::vector<obj>::iterator, std::vector<obj>::iterator, A...)>: std::true_type {};
}
template<typename Ad, typename C, typename... A>
static void stable_call(const std::string& name, const Ad& ad, int token, bool direct, rng& r, int dir, A... a) {
    using It = typename C::iterator;
    for (int rep = 0; rep < 6; ++rep) {
        auto keys = gen_keys(r, (int)r.below(40), 1 + (int)r.below(8)); C c = fill<C>::make(keys), d = fill<C>::make(keys);
        count_case(hash_str(name) ^ mix(keys.size() * 131 + rep), keys.size() > 1);
        for (int it = 0; it < 2; ++it) {
            calls().clear(); result res = it ? ad(d.begin(), d.end(), a...) : ad(c, a...);
            std::string key = "stable_adapter|" + name + (it ? "|iterators" : "|iterable");
            if (calls().size() != 1) return fail(key + "|number of calls", std::to_string(calls().size()));
            if (calls()[0].token != token || res.token != token || res.id != 1) fail(key + "|state or result", std::to_string(calls()[0].token));
            if ((*calls()[0].iterator == typeid(It)) != direct) fail(key + (direct ? "|not called directly though stable" : "|called directly though not stable"));
            if (!sorted_as(keys, dump(it ? d : c), dir, 1)) fail(key + "|not stable");
            event("calls_judged");
        }
    }
}
template<typename S, typename C, template<typename> class Ad> static void stabilize(const std::string& name, bool direct, bool state, rng& r) {
    if (!begin_case("C23|stable_adapter|" + name)) return;
    int t = state ? 20 + (int)r.below(300) : -1;
    S s(t); Ad<S> ad(s); const Ad<S> copy = ad;
    stable_call<Ad<S>, C>(name, ad, t, direct, r, 1); stable_call<Ad<S>, C>(name, copy, t, direct, r, -1, by_key_desc{}); stable_call<Ad<S>, C>(name, copy, t, direct, r, 1, by_key_desc{}, neg{}); stable_call<Ad<S>, C>(name, copy, t, direct, r, -1, neg{});
    TRUE_("stable_adapter|" + name + "|always stable", cppsort::is_always_stable_v<Ad<S>> && cppsort::is_stable_v<Ad<S>(C&)> && cppsort::is_stable_v<Ad<S>(C&, by_key_desc)>);
}
template<typename S> using stable_twice = cppsort::stable_adapter<cppsort::stable_adapter<S>>;
template<typename S> struct own_type { using is_always_stable = std::true_type; using iterator_category = FWD; };
struct custom_unstable: plain<false, false> {}; struct custom_with_type: plain<false, false> {};
struct replacement: plain<false, true> { replacement() = default; explicit replacement(const custom_with_type&) {} };
namespace cppsort {
    template<> struct stable_adapter<custom_unstable>: replacement { using replacement::replacement; stable_adapter() = default; explicit stable_adapter(const custom_unstable&) {} using is_always_stable = std::true_type; };
    template<> struct stable_adapter<custom_with_type>: replacement { using is_always_stable = std::true_type; using type = replacement; };
}
static void stable_types() {
    if (!begin_case("C23|stable_t")) return;
    count_case(2380, true);
    using st = plain<false, true>; using un = plain<false, false>; using namespace cppsort;
    SAME("stable_t", stable_t<st>, st); SAME("stable_t", stable_t<un>, stable_adapter<un>); SAME("stable_t", stable_t<stable_adapter<st>>, st); SAME("stable_t", stable_t<stable_adapter<un>>, stable_adapter<un>);
    SAME("stable_t", stable_t<stable_adapter<stable_adapter<un>>>, stable_adapter<un>); SAME("stable_t", stable_t<stable_adapter<stable_adapter<st>>>, st); SAME("stable_t", stable_t<stable_adapter<stable_adapter<stable_adapter<st>>>>, st);
    SAME("stable_t", stable_t<custom_unstable>, stable_adapter<custom_unstable>); SAME("stable_t", stable_t<custom_with_type>, replacement); SAME("stable_t", stable_t<stable_adapter<custom_with_type>>, replacement);
    SAME("stable_t", stable_t<merge_sorter>, merge_sorter); SAME("stable_t", stable_t<make_stable<un>>, make_stable<un>); SAME("stable_t", stable_t<heap_sorter>, stable_adapter<heap_sorter>);
}

////////////////////////////////////////////////////////////
// 3. self_sort_adapter: the collection's own sort, or stable_sort, or the sorter

static int own_sort = 0, own_stable = 0;
template<int Mask> struct coll {                 // 1 sort(), 2 sort(cmp), 4 sort(cmp, proj), 8 16 32 the same for stable_sort
    std::vector<obj> v;
    using value_type = obj; using iterator = std::vector<obj>::iterator;
    iterator begin() { return v.begin(); } iterator end() { return v.end(); }
    template<typename... A> void go(A... a) { cppsort::merge_sorter{}(v, a...); }
    template<int M = Mask, std::enable_if_t<(M & 1) != 0, int> = 0> void sort() { ++own_sort; go(); }
    template<typename F, int M = Mask, typename = std::enable_if_t<(M & 2) != 0 && can_call<F&, obj&, obj&>>> void sort(F f) { ++own_sort; (void)f(v[0], v[0]); go(f); }
    template<typename F, typename P, int M = Mask, typename = std::enable_if_t<(M & 4) != 0 && can_call<P&, obj&>>> void sort(F f, P p) { ++own_sort; (void)f(p(v[0]), p(v[0])); go(f, p); }
    template<int M = Mask, std::enable_if_t<(M & 8) != 0, int> = 0> void stable_sort() { ++own_stable; go(); }
    template<typename F, int M = Mask, typename = std::enable_if_t<(M & 16) != 0 && can_call<F&, obj&, obj&>>> void stable_sort(F f) { ++own_stable; (void)f(v[0], v[0]); go(f); }
    template<typename F, typename P, int M = Mask, typename = std::enable_if_t<(M & 32) != 0 && can_call<P&, obj&>>> void stable_sort(F f, P p) { ++own_stable; (void)f(p(v[0]), p(v[0])); go(f, p); }
};
template<typename Ad, typename C, typename... A>
static void self_call(const std::string& key, const Ad& ad, int token, const std::vector<int>& keys, C& c, int want, int dir, bool stable, A... a) {
    own_sort = own_stable = 0; calls().clear();
    ad(c, a...);
    int got = own_sort ? 1 : own_stable ? 2 : 0;
    if (own_sort + own_stable + (int)!calls().empty() != 1) fail(key + "|not one thing called", std::to_string(own_sort) + std::to_string(own_stable) + std::to_string(calls().size()));
    else if (got != want) fail(key + "|wrong method", std::string(got == 1 ? "sort" : got == 2 ? "stable_sort" : "sorter") + " instead of " + (want == 1 ? "sort" : want == 2 ? "stable_sort" : "the sorter"));
    if (!got && !calls().empty() && calls()[0].token != token) fail(key + "|state of the sorter");
    if (!sorted_as(keys, dump(c.v), dir, stable)) fail(key + "|not sorted");
    event("self_sorts_judged");
}
template<int Mask> static void self_mask(rng& r) {
    using C = coll<Mask>; using S = plain<true, false>; using SS = plain<true, true>;
    std::string key = "self_sort|" + std::to_string(Mask);
    if (!begin_case("C23|" + key)) return;
    count_case(2400 + Mask, true);
    int t = 30 + (int)r.below(300);
    const cppsort::self_sort_adapter<S> ad{ S(t) }; const cppsort::stable_adapter<cppsort::self_sort_adapter<S>> st{ ad }; const cppsort::self_sort_adapter<SS> as{ SS(t) };
    auto keys = gen_keys(r, 25, 6); auto make = [&] { C c; c.v = fill<std::vector<obj>>::make(keys); return c; };
    auto want = [](int i) { return Mask & (1 << i) ? 1 : Mask & (8 << i) ? 2 : 0; };
    auto swant = [](int i) { return Mask & (8 << i) ? 2 : 0; };
    { auto c = make(); self_call(key + "|", ad, t, keys, c, want(0), 1, false); } { auto c = make(); self_call(key + "|cmp", ad, t, keys, c, want(1), -1, false, by_key_desc{}); } { auto c = make(); self_call(key + "|cmp,proj", ad, t, keys, c, want(2), 1, false, by_key_desc{}, neg{}); }
    { auto c = make(); self_call(key + "|member function", ad, t, keys, c, want(1), 1, false, &obj::before); } { auto c = make(); self_call(key + "|cmp,member", ad, t, keys, c, want(2), -1, false, std::greater<>{}, &obj::key); }
    { auto c = make(); self_call(key + "|stable", st, t, keys, c, swant(0), 1, true); } { auto c = make(); self_call(key + "|stable cmp", st, t, keys, c, swant(1), -1, true, by_key_desc{}); } { auto c = make(); self_call(key + "|stable cmp,proj", st, t, keys, c, swant(2), 1, true, by_key_desc{}, neg{}); }
    { auto c = make(); self_call(key + "|stable member function", st, t, keys, c, swant(1), 1, true, &obj::before); } { auto c = make(); self_call(key + "|stable cmp,member", st, t, keys, c, swant(2), -1, true, std::greater<>{}, &obj::key); }
    auto c = make(); own_sort = own_stable = 0; calls().clear(); ad(c.begin(), c.end()); st(c.begin(), c.end(), by_key_desc{}); if (own_sort + own_stable || calls().size() != 2 || !sorted_as(keys, c.v, -1, 0)) fail(key + "|iterators");
    // stability of each call
    using A = cppsort::self_sort_adapter<S>; using AS = cppsort::self_sort_adapter<SS>; using T = cppsort::stable_adapter<A>;
    auto stable_want = [&](int i, bool sorter) { return want(i) == 2 || (want(i) == 0 && sorter); };
    if (cppsort::is_stable_v<A(C&)> != stable_want(0, false) || cppsort::is_stable_v<A(C&, by_key_desc)> != stable_want(1, false) || cppsort::is_stable_v<A(C&, by_key_desc, neg)> != stable_want(2, false)) fail(key + "|is_stable");
    if (cppsort::is_stable_v<AS(C&)> != stable_want(0, true) || cppsort::is_stable_v<AS(C&, by_key_desc)> != stable_want(1, true) || cppsort::is_stable_v<AS(C&, by_key_desc, neg)> != stable_want(2, true)) fail(key + "|is_stable (stable sorter)");
    if (!cppsort::is_stable_v<T(C&)> || !cppsort::is_always_stable_v<T> || cppsort::is_always_stable_v<A> || cppsort::is_always_stable_v<AS>) fail(key + "|is_always_stable");
    event("stability_judged", 10);
}
template<std::size_t... I> static void self_masks(rng& r, std::index_sequence<I...>) { int d[] = { (self_mask<(int)I>(r), 0)... }; (void)d; }
template<typename L> static void self_list(const char* name, rng& r) {
    using S = plain<true, false>;
    std::string key = std::string("self_sort|") + name;
    if (!begin_case("C23|" + key)) return;
    int t = 40 + (int)r.below(300);
    const cppsort::self_sort_adapter<S> ad{ S(t) }; const cppsort::stable_adapter<cppsort::self_sort_adapter<S>> st{ ad };
    for (int rep = 0; rep < 20; ++rep) {
        auto keys = gen_keys(r, (int)r.below(60), 1 + (int)r.below(9)); auto make = [&] { return fill<L>::make(keys); };
        count_case(hash_str(key) ^ mix(keys.size() + 100 * rep), keys.size() > 1);
        auto judge = [&](const char* n, L& l, const void* front, bool own, int dir, bool stable) {
            event("self_sorts_judged");
            if (calls().empty() != own) fail(key + "|" + n + (own ? "|sorter called" : "|sorter not called"));
            if (!calls().empty() && calls()[0].token != t) fail(key + "|" + n + "|state");
            if (!sorted_as(keys, dump(l), dir, stable)) fail(key + "|" + n + "|not sorted");
            if (own && !keys.empty()) { bool found = false; for (auto& e: l) found = found || (&e == front && e.id == 0); if (!found) fail(key + "|" + n + "|nodes replaced"); }
        };
#define RUN(n, A, own, dir, stable, ...) do { L l = make(); const void* front = keys.empty() ? nullptr : &*l.begin(); calls().clear(); A(__VA_ARGS__); judge(n, l, front, own, dir, stable); } while (0)
        RUN("", ad, true, 1, true, l); RUN("cmp", ad, true, -1, true, l, by_key_desc{}); RUN("function", ad, true, 1, true, l, &obj::before); RUN("cmp,proj", ad, false, 1, false, l, by_key_desc{}, neg{});
        RUN("iterators", ad, false, 1, false, l.begin(), l.end()); RUN("stable", st, true, 1, true, l); RUN("stable cmp", st, true, -1, true, l, by_key_desc{}); RUN("stable cmp,proj", st, false, 1, true, l, by_key_desc{}, neg{}); RUN("stable iterators", st, false, -1, true, l.begin(), l.end(), by_key_desc{});
    }
    using A = cppsort::self_sort_adapter<S>;
    TRUE_(key + "|is_stable", cppsort::is_stable_v<A(L&)> && cppsort::is_stable_v<A(L&, by_key_desc)> && !cppsort::is_stable_v<A(L&, by_key_desc, neg)> && !cppsort::is_stable_v<A(typename L::iterator, typename L::iterator)>);
}

////////////////////////////////////////////////////////////
// 4. small_array_adapter: the fixed-size sorter of the array's size, within the domain

template<std::size_t N, int Kind> struct fixed_impl {          // Kind: 1 refuses ints
    template<typename It, typename Cmp = std::less<>, typename Proj = cppsort::utility::identity, typename = std::enable_if_t<cppsort::is_projection_iterator_v<Proj, It, Cmp> && !(Kind == 1 && std::is_same<value_of<It>, int>::value)>>
    result operator()(It first, It last, Cmp cmp = {}, Proj proj = {}) const {
        { harness_scope hs; calls().push_back({ 500 + (int)N, -1, nullptr, (std::size_t)std::distance(first, last), &typeid(It) }); }
        trace_sort(first, last, cmp, proj, N % 2 == 0);
        return { 500 + (int)N, Kind };
    }
    using iterator_category = RA; using is_always_stable = std::integral_constant<bool, N % 2 == 0>;
};
template<std::size_t N> struct fixed_all: cppsort::sorter_facade<fixed_impl<N, 0>> {};
template<std::size_t N> struct fixed_domain: cppsort::sorter_facade<fixed_impl<N, 0>> {};
template<std::size_t N> struct fixed_picky: cppsort::sorter_facade<fixed_impl<N, 1>> {};
namespace cppsort {
    template<> struct fixed_sorter_traits<fixed_all> { using iterator_category = RA; using is_always_stable = std::false_type; };
    template<> struct fixed_sorter_traits<fixed_domain> { using domain = std::index_sequence<1, 3, 4, 9>; using iterator_category = RA; using is_always_stable = std::false_type; };
    template<> struct fixed_sorter_traits<fixed_picky> { using domain = std::make_index_sequence<8>; using iterator_category = RA; using is_always_stable = std::false_type; };
}
template<typename V> static V make_elem(int k, int i); template<> obj make_elem<obj>(int k, int i) { return { k, i }; } template<> int make_elem<int>(int k, int) { return k; }
template<bool Ok> struct array_call {
    template<typename Ad, typename Arr, typename... A> static void go(const std::string& key, const Ad& ad, Arr& arr, const std::vector<int>& keys, int want, int dir, A... a) {
        calls().clear(); result res = ad(arr, a...); event("arrays_judged");
        if (want == 0) return fail(key + "|callable outside of its domain");
        if (calls().size() != 1 || calls()[0].id != want || res.id != want || calls()[0].n != keys.size()) fail(key + "|wrong sorter", calls().empty() ? "none" : std::to_string(calls()[0].id));
        if (!sorted_as(keys, dump(arr), dir, 0)) fail(key + "|not sorted");
    }
};
template<> struct array_call<false> { template<typename Ad, typename Arr, typename... A> static void go(const std::string& key, const Ad&, Arr&, const std::vector<int>&, int want, int, A...) { event("rejections_judged"); if (want) fail(key + "|not callable", std::to_string(want)); } };
template<typename Ad, typename V, std::size_t N, typename Arr, typename... A> static void array_form(const std::string& key, const Ad& ad, rng& r, int want, int dir, A... a) {
    auto keys = gen_keys(r, (int)N, 4); Arr arr{}; for (std::size_t i = 0; i < N; ++i) arr[i] = make_elem<V>(keys[i], (int)i);
    count_case(hash_str(key) ^ mix(N * 3 + sizeof...(A)), N > 1);
    array_call<can_call<const Ad&, Arr&, A...>>::go(key + "|" + std::to_string(N), ad, arr, keys, want, dir, a...);
}
template<typename V, std::size_t N, typename Ad> static void arrays(const std::string& key, const Ad& ad, rng& r, int want) {
    array_form<Ad, V, N, std::array<V, N>>(key + "|array", ad, r, want, 1); array_form<Ad, V, N, std::array<V, N>>(key + "|array cmp", ad, r, want, -1, by_key_desc{}); array_form<Ad, V, N, std::array<V, N>>(key + "|array cmp,proj", ad, r, want, 1, by_key_desc{}, neg{}); array_form<Ad, V, N, std::array<V, N>>(key + "|array proj", ad, r, want, -1, neg{});
    array_form<Ad, V, N, V[N]>(key + "|C array", ad, r, want, 1); array_form<Ad, V, N, V[N]>(key + "|C array cmp", ad, r, want, -1, by_key_desc{}); array_form<Ad, V, N, V[N]>(key + "|C array cmp,proj", ad, r, want, 1, by_key_desc{}, neg{}); array_form<Ad, V, N, V[N]>(key + "|C array proj", ad, r, want, -1, neg{});
}
using cppsort::small_array_adapter; using cppsort::hybrid_adapter;
static bool in(std::size_t n, std::initializer_list<std::size_t> l) { for (auto x: l) if (x == n) return true; return false; }
template<std::size_t N> static void sizes(rng& r) {
    if (!begin_case("C23|small_array|" + std::to_string(N))) return;
    int me = 500 + (int)N; bool dom = in(N, { 1, 3, 4, 9 }); bool pick = N < 8;
    using fallback = plain<false, true, RA>;
    arrays<obj, N>("small_array", small_array_adapter<fixed_all>{}, r, me); arrays<int, N>("small_array", small_array_adapter<fixed_all>{}, r, me);
    arrays<obj, N>("small_array <2,5,8>", small_array_adapter<fixed_all, std::index_sequence<2, 5, 8>>{}, r, in(N, { 2, 5, 8 }) ? me : 0);
    arrays<obj, N>("small_array domain", small_array_adapter<fixed_domain>{}, r, dom ? me : 0); arrays<int, N>("small_array domain", small_array_adapter<fixed_domain>{}, r, dom ? me : 0);
    arrays<obj, N>("small_array domain void", small_array_adapter<fixed_domain, void>{}, r, me);
    arrays<obj, N>("small_array picky", small_array_adapter<fixed_picky>{}, r, pick ? me : 0); arrays<int, N>("small_array picky", small_array_adapter<fixed_picky>{}, r, 0);
    arrays<obj, N>("hybrid small_array", hybrid_adapter<small_array_adapter<fixed_domain>, fallback>{}, r, dom ? me : 1); arrays<int, N>("hybrid small_array picky", hybrid_adapter<small_array_adapter<fixed_picky>, fallback>{}, r, 1); arrays<obj, N>("hybrid small_array picky", hybrid_adapter<small_array_adapter<fixed_picky>, fallback>{}, r, pick ? me : 1);
    arrays<obj, N>("hybrid two small_array", hybrid_adapter<small_array_adapter<fixed_domain>, small_array_adapter<fixed_picky>, fallback>{}, r, dom || pick ? me : 1);
    using SA = small_array_adapter<fixed_all>; using AR = std::array<obj, N>;
    TRUE_("small_array|is_stable", cppsort::is_stable_v<SA(AR&)> == (N % 2 == 0) && cppsort::is_stable_v<SA(AR&, by_key_desc)> == (N % 2 == 0) && cppsort::is_stable_v<SA(obj(&)[N])> == (N % 2 == 0));
    AR arr{}; for (std::size_t i = 0; i < N; ++i) arr[i] = { (int)(i * 7 % 5), (int)i }; result (*f)(AR&) = SA{}; calls().clear(); if (f(arr).id != me || calls().size() != 1) fail("small_array|function pointer"); event("function_pointers_called");
    // vectors are not arrays
    TRUE_("small_array|vector", !can_call<const SA&, std::vector<obj>&> && !can_call<const SA&, const AR&> && (can_call<const hybrid_adapter<SA, fallback>&, std::vector<obj>&>));
}
template<std::size_t... I> static void all_sizes(rng& r, std::index_sequence<I...>) { int d[] = { (sizes<I + 1>(r), 0)... }; (void)d; }

#if __cplusplus >= 201703L
static void deduced(rng& r) {
    if (!begin_case("C23|deduction")) return;
    using S = plain<true, true, RA>; using V = std::vector<obj>; namespace c = cppsort;
    int t = 60 + (int)r.below(100); count_case(2500 + (unsigned)t, true); auto keys = gen_keys(r, 40, 9);
    auto run = [&](const char* n, const auto& ad, int token) { V v = fill<V>::make(keys); calls().clear(); ad(v, by_key_desc{}, neg{}); if (calls().empty() || calls()[0].token != token || !sorted_as(keys, v, 1, 0)) fail(std::string("deduction|") + n); event("calls_judged"); };
    run("indirect", c::indirect_adapter(S(t)), t); run("out_of_place", c::out_of_place_adapter(S(t)), t); run("schwartz", c::schwartz_adapter(S(t)), t); run("stable", c::stable_adapter(S(t)), t); run("make_stable", c::make_stable(S(t)), t); run("self_sort", c::self_sort_adapter(S(t)), t);
    run("container_aware", c::container_aware_adapter(S(t)), t); run("drop_merge", c::drop_merge_adapter(S(t)), t); run("split", c::split_adapter(S(t)), t); run("verge", c::verge_adapter(S(t)), t); run("counting", c::counting_adapter(S(t)), t);
    run("hybrid", c::hybrid_adapter(S(t), plain<true, true, BIDI>(t + 1)), t); run("nested", c::indirect_adapter(c::schwartz_adapter(c::stable_adapter(S(t)))), t); run("hybrid of adapters", c::hybrid_adapter(c::schwartz_adapter(plain<true, false, FWD>(t + 1)), c::stable_adapter(c::schwartz_adapter(plain<true, false, RA>(t)))), t);
    run("hybrid of hybrid", c::hybrid_adapter(plain<true, false, FWD>(t + 1), c::hybrid_adapter(plain<true, false, BIDI>(t + 2), S(t))), t); run("stable hybrid", c::stable_adapter(c::hybrid_adapter(plain<true, false, FWD>(t + 1), c::hybrid_adapter(plain<true, false, BIDI>(t + 2), S(t)))), t);
}
#else
static void deduced(rng&) {}
#endif

int main(int argc, char** argv) {
    init(argc, argv);
    rng r(mix(ctx().seed * 5 + 31));
    using V = std::vector<obj>; using L = std::list<obj>; using F = std::forward_list<obj>;
    for (int rep = 0; rep < (ctx().thorough ? 60 : 4); ++rep) {
#if PART == 1
        both<cpp17, V, cppsort::indirect_adapter, RA>("indirect", r, true); both<cpp17, L, cppsort::indirect_adapter, RA>("indirect list", r, true);
        both<cpp17, V, cppsort::out_of_place_adapter, RA>("out_of_place", r, true); both<cpp17, F, cppsort::out_of_place_adapter, RA>("out_of_place forward_list", r, true);
        both<true, V, cppsort::self_sort_adapter, FWD>("self_sort", r, true); both<true, V, cppsort::container_aware_adapter, FWD>("container_aware", r, true);
#elif PART == 2
        both<true, V, cppsort::schwartz_adapter, FWD>("schwartz", r, true); both<true, F, cppsort::schwartz_adapter, FWD>("schwartz forward_list", r, true);
        both<true, V, cppsort::stable_adapter, FWD>("stable_adapter", r, true); both<true, L, cppsort::make_stable, FWD>("make_stable", r, true); both<false, V, counting_a, FWD>("counting", r, true);
#elif PART == 3
        both<false, V, cppsort::drop_merge_adapter, BIDI>("drop_merge", r, false); both<false, V, cppsort::split_adapter, BIDI>("split", r, false); both<false, V, cppsort::verge_adapter, RA>("verge", r, false);
#elif PART == 4
        stabilize<plain<true, true>, V, cppsort::stable_adapter>("stable", true, true, r); stabilize<plain<true, false>, V, cppsort::stable_adapter>("unstable", false, true, r); stabilize<plain<false, true>, L, cppsort::stable_adapter>("stable empty", true, false, r); stabilize<plain<false, false>, F, cppsort::stable_adapter>("unstable empty", false, false, r);
        stabilize<sometimes<true>, V, cppsort::stable_adapter>("sometimes, vector", true, true, r); stabilize<sometimes<true>, L, cppsort::stable_adapter>("sometimes, list", false, true, r); stabilize<sometimes<false>, V, cppsort::stable_adapter>("sometimes, vector, empty", true, false, r);
        stabilize<plain<true, false>, V, cppsort::make_stable>("make_stable unstable", false, true, r); stabilize<plain<true, true>, L, cppsort::make_stable>("make_stable stable", false, true, r);
        stabilize<plain<true, true>, V, cppsort::stable_t>("stable_t stable", true, true, r); stabilize<plain<true, false>, F, cppsort::stable_t>("stable_t unstable", false, true, r);
        deduced(r); stable_types(); self_list<L>("list", r); self_list<F>("forward_list", r);
#elif PART == 5
        self_masks(r, std::make_index_sequence<64>());
#else
        all_sizes(r, std::make_index_sequence<10>());
#endif
    }
    (void)sizeof(V); (void)sizeof(L); (void)sizeof(F);
    return finish();
}
