// C16: sorter_facade over implementations with every documented set of overloads. Each overload says that it ran and with what.
#include "vh.h"
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/functional.h>
#include <array>
#include <functional>
#include <forward_list>
#include <iterator>
#include <list>
#include <type_traits>
#include <vector>
using namespace vh;
namespace cu = cppsort::utility;
static std::string where;
static void bad(const std::string& what, const std::string& detail = "") { violation("C16|facade|" + what + "|" + where, detail); }

struct E { int v, w, id; friend bool operator<(const E& a, const E& b) { return a.v < b.v; } friend bool operator>(const E& a, const E& b) { return a.v > b.v; } friend bool operator==(const E& a, const E& b) { return a.v == b.v; } friend bool operator!=(const E& a, const E& b) { return a.v != b.v; } friend bool operator<=(const E& a, const E& b) { return a.v <= b.v; } friend bool operator>=(const E& a, const E& b) { return a.v >= b.v; } };
struct cmp_desc_w { bool operator()(const E& a, const E& b) const { return a.w > b.w; } };
struct proj_w { int operator()(const E& e) const { return e.w; } };
struct int_desc { bool operator()(int a, int b) const { return a > b; } };

enum op { it_none, it_cmp, it_proj, it_both, rg_none, rg_cmp, rg_proj, rg_both };
static int ran[8]; static int total;
struct ret { int bit; const void* self; };
template<typename I, typename C, typename P> static void stable(I b, I e, C c, P p) { auto&& cc = cu::as_function(c); auto&& pp = cu::as_function(p); std::vector<E> v(b, e); std::stable_sort(v.begin(), v.end(), [&](const E& x, const E& y) { return cc(pp(x), pp(y)); }); std::copy(v.begin(), v.end(), b); }
template<typename S, typename I, typename C = std::less<>, typename P = cu::identity> static ret go(const S* s, op o, I b, I e, C c = {}, P p = {}) { ++ran[o]; ++total; stable(b, e, c, p); return { o, (const void*)s }; }

template<typename F, typename T> using cmp_ok = std::enable_if_t<std::is_convertible<decltype(cu::as_function(std::declval<F&>())(std::declval<T>(), std::declval<T>())), bool>::value>;
// variants of the overload set: 0 nothing, 1 basic, 2 comparison defaulted, 3 both defaulted, 4 basic and projection, 5 all four, 6 basic, comparison, both, 7 projection defaulted, 8 basic, comparison, projection
template<int V> struct its {};
#define IT0 template<typename I> ret operator()(I b, I e) const { return go(this, it_none, b, e); }
#define IT1(d) template<typename I, typename C d, typename = cmp_ok<C, decltype(*std::declval<I&>())>> ret operator()(I b, I e, C c) const { return go(this, it_cmp, b, e, c); }
template<> struct its<1> { IT0 };
template<> struct its<2> { template<typename I, typename C = std::less<>, typename = cmp_ok<C, decltype(*std::declval<I&>())>> ret operator()(I b, I e, C c = {}) const { return go(this, it_cmp, b, e, c); } };
template<> struct its<3> { template<typename I, typename C = std::less<>, typename P = cu::identity, typename = std::enable_if_t<cppsort::is_projection_iterator_v<P, I, C>>> ret operator()(I b, I e, C c = {}, P p = {}) const { return go(this, it_both, b, e, c, p); } };
#define ITC template<typename I, typename C, typename = cmp_ok<C, decltype(*std::declval<I&>())>> ret operator()(I b, I e, C c) const { return go(this, it_cmp, b, e, c); }
#define ITP template<typename I, typename P, typename = std::enable_if_t<cppsort::is_projection_iterator_v<P, I>>> ret operator()(I b, I e, P p) const { return go(this, it_proj, b, e, std::less<>{}, p); }
#define ITB template<typename I, typename C, typename P, typename = std::enable_if_t<cppsort::is_projection_iterator_v<P, I, C>>> ret operator()(I b, I e, C c, P p) const { return go(this, it_both, b, e, c, p); }
// overloads with a comparison and with a projection only, distinguished by constraints
template<> struct its<4> { IT0 ITP };
template<> struct its<5> {
    IT0 ITB
    template<typename I, typename C, typename = cmp_ok<C, decltype(*std::declval<I&>())>> ret operator()(I b, I e, C c) const { return go(this, it_cmp, b, e, c); }
    template<typename I, typename P, typename = std::enable_if_t<cppsort::is_projection_iterator_v<P, I>>, typename = void> ret operator()(I b, I e, P p) const { return go(this, it_proj, b, e, std::less<>{}, p); }
};
template<> struct its<6> { IT0 ITC ITB };
template<> struct its<7> { template<typename I, typename P = cu::identity, typename = std::enable_if_t<cppsort::is_projection_iterator_v<P, I>>> ret operator()(I b, I e, P p = {}) const { return go(this, it_proj, b, e, std::less<>{}, p); } };
template<> struct its<8> {
    IT0
    template<typename I, typename C, typename = cmp_ok<C, decltype(*std::declval<I&>())>> ret operator()(I b, I e, C c) const { return go(this, it_cmp, b, e, c); }
    template<typename I, typename P, typename = std::enable_if_t<cppsort::is_projection_iterator_v<P, I>>, typename = void> ret operator()(I b, I e, P p) const { return go(this, it_proj, b, e, std::less<>{}, p); }
};
#define REF(R) decltype(*std::begin(std::declval<R&>()))
#define RG0 template<typename R, typename = REF(R)> ret operator()(R&& r) const { return go(this, rg_none, std::begin(r), std::end(r)); }
template<int V> struct rgs {};
template<> struct rgs<1> { RG0 };
template<> struct rgs<2> { template<typename R, typename C = std::less<>, typename = cmp_ok<C, REF(R)>> ret operator()(R&& r, C c = {}) const { return go(this, rg_cmp, std::begin(r), std::end(r), c); } };
template<> struct rgs<3> { template<typename R, typename C = std::less<>, typename P = cu::identity, typename = std::enable_if_t<cppsort::is_projection_v<P, R, C>>> ret operator()(R&& r, C c = {}, P p = {}) const { return go(this, rg_both, std::begin(r), std::end(r), c, p); } };
template<> struct rgs<4> { RG0 template<typename R, typename P, typename = std::enable_if_t<cppsort::is_projection_v<P, R>>> ret operator()(R&& r, P p) const { return go(this, rg_proj, std::begin(r), std::end(r), std::less<>{}, p); } };
#define RGC template<typename R, typename C, typename = cmp_ok<C, REF(R)>> ret operator()(R&& r, C c) const { return go(this, rg_cmp, std::begin(r), std::end(r), c); }
#define RGP template<typename R, typename P, typename = std::enable_if_t<cppsort::is_projection_v<P, R>>, typename = void> ret operator()(R&& r, P p) const { return go(this, rg_proj, std::begin(r), std::end(r), std::less<>{}, p); }
#define RGB template<typename R, typename C, typename P, typename = std::enable_if_t<cppsort::is_projection_v<P, R, C>>> ret operator()(R&& r, C c, P p) const { return go(this, rg_both, std::begin(r), std::end(r), c, p); }
template<> struct rgs<5> { RG0 RGC RGP RGB };
template<> struct rgs<6> { RG0 RGC RGB };
template<> struct rgs<7> { template<typename R, typename P = cu::identity, typename = std::enable_if_t<cppsort::is_projection_v<P, R>>> ret operator()(R&& r, P p = {}) const { return go(this, rg_proj, std::begin(r), std::end(r), std::less<>{}, p); } };
template<> struct rgs<8> { RG0 RGC RGP };

template<int I, int R> struct impl: its<I>, rgs<R> { using its<I>::operator(); using rgs<R>::operator(); };
template<int I> struct impl<I, 0>: its<I> { using its<I>::operator(); };
template<int R> struct impl<0, R>: rgs<R> { using rgs<R>::operator(); };
template<int I, int R> struct fac: cppsort::sorter_facade<impl<I, R>> {};

static bool has(int v, int what) {         // what: 0 none, 1 cmp, 2 proj, 3 both
    static const int m[9] = { 0, 1, 3, 11, 5, 15, 11, 5, 7 };
    return m[v] >> what & 1;
}
static bool projectable(int v) { return has(v, 2) || has(v, 3) || has(v, 1); }
enum need { n_none, n_cmp, n_proj, n_both };
static bool able(int v, need n) { switch (n) { case n_none: return has(v, 0); case n_cmp: return has(v, 1); case n_proj: return projectable(v); default: return has(v, 3) || has(v, 1); } }

template<typename... T> struct list {};
template<typename S, typename L, typename = void> struct callable: std::false_type {};
template<typename S, typename... A> struct callable<S, list<A...>, cppsort::detail::void_t<decltype(std::declval<const S&>()(std::declval<A>()...))>>: std::true_type {};

static std::vector<E> sample_input(rng& g) { std::vector<E> v; int n = (int)g.below(24); for (int i = 0; i < n; ++i) v.push_back({ (int)g.below(8), (int)g.below(9) - 4, i }); return v; }
static int key_of(int k, const E& e) { return k == 0 ? e.v : k == 1 ? -e.w : e.w; }   // 0 v, 1 w descending, 2 w
static const char* form_name;
static bool judge(const std::vector<E>& v, const std::vector<E>& in, int k) {
    std::vector<E> want = in; std::stable_sort(want.begin(), want.end(), [&](const E& a, const E& b) { return key_of(k, a) < key_of(k, b); });
    for (std::size_t i = 0; i < in.size(); ++i) if (v[i].id != want[i].id) { bad("wrong order"); return false; }
    return true;
}
template<typename... A> static int n_args(A&&...) { return (int)sizeof...(A); }
template<typename S, typename... A> static void run_call(std::true_type, const S& s, int I, int R, need n, int k, bool range, const std::vector<E>& in, std::vector<E>& v, A&&... a) {
    for (int& x: ran) x = 0; total = 0;
    ret r = s(std::forward<A>(a)...);
    judge(v, in, k);
    if (total != 1) bad("implementation called another number of times than once", std::to_string(total));
    else if (r.bit < 0 || r.bit > 7 || !ran[r.bit]) bad("result of the implementation lost");
    if (range && has(R, (int)n) && n_args(a...) - 1 == (n == n_none ? 0 : n == n_both ? 2 : 1) && r.bit < rg_none) bad("suitable iterable overload not used");
    if (!range && r.bit >= rg_none) bad("iterable overload called with iterators");
    // the least general overload which needs nothing more, when there is one
    int base = range && r.bit >= rg_none ? R : I, b = r.bit & 3;
    if (n == n_cmp && has(base, 1) && b != 1 && !(b == 3 && base == 3)) bad("overload taking a comparison not used");
    if (n == n_both && has(base, 3) && b != 3) bad("overload taking both not used");
    event("facade_calls"); event(range ? (r.bit >= rg_none ? "iterable_overloads" : "iterables_dispatched_to_iterators") : "iterator_overloads");
    if ((n == n_proj || n == n_both) && b == 1) event("projections_baked");
    (void)I;
}
template<typename S, typename... A> static void run_call(std::false_type, const S&, int I, int R, need n, int, bool range, const std::vector<E>&, std::vector<E>&, A&&...) {
    bool must = range ? able(R, n) || able(I, n) : able(I, n);
    if (must) bad("documented call not available");
    event("calls_not_available");
}
template<int I, int R, typename... A> static void call(const char* what, need n, int k, rng& g, A... a) {
    using S = fac<I, R>; using V = std::vector<E>; using It = V::iterator;
    S s{};
    for (int i = 0; i < (ctx().thorough ? 20 : 4); ++i) {
        V in = sample_input(g), v = in;
        std::string base = "implementation " + std::to_string(I) + "/" + std::to_string(R) + " " + what;
        if (begin_case("C16|facade|" + base + "|" + std::to_string(i))) {
            where = base + ", iterators"; run_call(callable<S, list<It, It, A...>>(), s, I, R, n, k, false, in, v, v.begin(), v.end(), a...);
            v = in; where = base + ", iterable"; run_call(callable<S, list<V&, A...>>(), s, I, R, n, k, true, in, v, v, a...);
            v = in; where = base + ", rvalue iterable"; run_call(callable<S, list<V, A...>>(), s, I, R, n, k, true, in, v, std::move(v), a...);
            count_case(hash_str(base) + (std::uint64_t)i, in.size() > 1);
        }
    }
    // the traits say what can be called
    (void)0;
}
template<int I, int R> static void traits() {
    using S = fac<I, R>; using V = std::vector<E>; using It = V::iterator;
    auto agree = [](const char* t, bool a, bool b) { event("traits_compared"); if (a != b) { where = "implementation " + std::to_string(I) + "/" + std::to_string(R); bad("trait does not agree with the calls that compile", t); } };
    agree("is_sorter", cppsort::is_sorter_v<S, V>, callable<S, list<V&>>::value);
    agree("is_sorter_iterator", cppsort::is_sorter_iterator_v<S, It>, callable<S, list<It, It>>::value);
    agree("is_comparison_sorter", cppsort::is_comparison_sorter_v<S, V, cmp_desc_w>, callable<S, list<V&, cmp_desc_w>>::value);
    agree("is_comparison_sorter_iterator", cppsort::is_comparison_sorter_iterator_v<S, It, cmp_desc_w>, callable<S, list<It, It, cmp_desc_w>>::value);
    agree("is_projection_sorter", cppsort::is_projection_sorter_v<S, V, proj_w>, callable<S, list<V&, proj_w>>::value);
    agree("is_projection_sorter_iterator", cppsort::is_projection_sorter_iterator_v<S, It, proj_w>, callable<S, list<It, It, proj_w>>::value);
    agree("is_comparison_projection_sorter", cppsort::is_comparison_projection_sorter_v<S, V, int_desc, proj_w>, callable<S, list<V&, int_desc, proj_w>>::value);
    agree("is_comparison_projection_sorter_iterator", cppsort::is_comparison_projection_sorter_iterator_v<S, It, int_desc, proj_w>, callable<S, list<It, It, int_desc, proj_w>>::value);
    // neither comparison nor projection
    agree("is_comparison_sorter of a projection", cppsort::is_comparison_sorter_v<S, V, proj_w>, false);
    agree("is_projection_sorter of a comparison", cppsort::is_projection_sorter_v<S, V, cmp_desc_w>, false);
    agree("is_projection of a comparison", cppsort::is_projection_v<cmp_desc_w, V>, false);
    agree("is_projection", cppsort::is_projection_v<proj_w, V, int_desc> && cppsort::is_projection_v<int E::*, V&> && cppsort::is_projection_iterator_v<proj_w, It>, true);
    agree("is_projection, unsuitable comparison", cppsort::is_projection_v<proj_w, V, cmp_desc_w> || cppsort::is_projection_iterator_v<proj_w, It, cmp_desc_w>, false);
}
template<int I, int R> static void facade() {
    rng g(mix(ctx().seed * 17 + I * 100 + R));
    call<I, R>("()", n_none, 0, g);
    call<I, R>("(less)", n_none, 0, g, std::less<>{});
    call<I, R>("(identity)", n_none, 0, g, cu::identity{});
    call<I, R>("(less, identity)", n_none, 0, g, std::less<>{}, cu::identity{});
    call<I, R>("(comparison)", n_cmp, 1, g, cmp_desc_w{});
    call<I, R>("(member comparison)", n_cmp, 1, g, (bool (*)(const E&, const E&))[](const E& a, const E& b) { return a.w > b.w; });
    call<I, R>("(projection)", n_proj, 2, g, proj_w{});
    call<I, R>("(member)", n_proj, 2, g, &E::w);
    call<I, R>("(less, projection)", n_proj, 2, g, std::less<>{}, proj_w{});
    call<I, R>("(less, member)", n_proj, 2, g, std::less<>{}, &E::w);
    call<I, R>("(comparison, projection)", n_both, 1, g, int_desc{}, proj_w{});
    call<I, R>("(comparison, member)", n_both, 1, g, std::greater<>{}, &E::w);
    call<I, R>("(comparison, identity)", n_both, 1, g, cmp_desc_w{}, cu::identity{});
#ifdef __cpp_lib_ranges
    call<I, R>("(ranges::less)", n_none, 0, g, std::ranges::less{});
    call<I, R>("(std::identity)", n_none, 0, g, std::identity{});
    call<I, R>("(ranges::less, std::identity)", n_none, 0, g, std::ranges::less{}, std::identity{});
    call<I, R>("(less, std::identity)", n_none, 0, g, std::less<>{}, std::identity{});
    call<I, R>("(ranges::less, projection)", n_proj, 2, g, std::ranges::less{}, proj_w{});
    call<I, R>("(comparison, std::identity)", n_both, 1, g, cmp_desc_w{}, std::identity{});
#endif
    traits<I, R>();
}
template<int I, int... R> static void row(std::integer_sequence<int, R...>) { int d[] = { (facade<I, R>(), 0)... }; (void)d; }

// construction, state, function pointers, constant evaluation
struct stateful_impl {
    int base; std::string name;
    stateful_impl(int b, std::string n): base(b), name(std::move(n)) {}
    template<typename I> ret operator()(I b, I e) const { ret r = go(this, it_none, b, e); r.bit = base; return r; }
};
struct stateful: cppsort::sorter_facade<stateful_impl> { using cppsort::sorter_facade<stateful_impl>::sorter_facade; };
struct counts_impl { template<typename I, typename C = std::less<>, typename P = cu::identity, typename = std::enable_if_t<cppsort::is_projection_iterator_v<P, I, C>>> auto operator()(I b, I e, C c = {}, P p = {}) const -> long { stable(b, e, c, p); return (long)std::distance(b, e) * 3; } };
struct counts: cppsort::sorter_facade<counts_impl> {};
struct bubble_impl {
    template<typename I, typename C = std::less<>, typename P = cu::identity, typename = std::enable_if_t<cppsort::is_projection_iterator_v<P, I, C>>> constexpr auto operator()(I b, I e, C c = {}, P p = {}) const -> int {
        int n = 0; auto&& cc = cu::as_function(c); auto&& pp = cu::as_function(p);
        for (I i = b; i != e; ++i) for (I j = b; j + 1 != e; ++j) if (cc(pp(*(j + 1)), pp(*j))) { auto t = *j; *j = *(j + 1); *(j + 1) = t; ++n; }
        return n;
    }
};
struct bubble: cppsort::sorter_facade<bubble_impl> {};
#if __cplusplus >= 201703L
struct neg { constexpr int operator()(int x) const { return -x; } };
template<typename... A> constexpr bool constant(std::array<int, 6> want, A... a) {
    std::array<int, 6> x{ 3, 1, 2, 6, 5, 4 }, y = x, z = x; int c[6] = { 3, 1, 2, 6, 5, 4 };
    bubble{}(x, a...); bubble{}(y.begin(), y.end(), a...); bubble{}(c, a...); bubble{}(z.data(), z.data() + 6, a...);
    for (std::size_t i = 0; i < 6; ++i) if (x[i] != want[i] || y[i] != want[i] || c[i] != want[i] || z[i] != want[i]) return false;
    return true;
}
struct cless { constexpr bool operator()(int a, int b) const { return a > b; } };
constexpr std::array<int, 6> up{ 1, 2, 3, 4, 5, 6 }, down{ 6, 5, 4, 3, 2, 1 };
static_assert(constant(up) && constant(up, std::less<>{}) && constant(up, cu::identity{}) && constant(up, std::less<>{}, cu::identity{}), "");
static_assert(constant(down, cless{}) && constant(down, neg{}) && constant(down, std::less<>{}, neg{}) && constant(up, cless{}, neg{}), "");
#endif
static void rest() {
    rng g(mix(ctx().seed + 5));
    static_assert(std::is_default_constructible<fac<1, 0>>::value && !std::is_default_constructible<stateful>::value, "");
    static_assert(std::is_convertible<counts, long (*)(std::vector<E>&)>::value && std::is_convertible<counts, void (*)(std::vector<E>&)>::value, "");
    static_assert(!std::is_convertible<stateful, ret (*)(std::vector<E>&)>::value && !std::is_convertible<stateful, void (*)(std::vector<E>::iterator, std::vector<E>::iterator)>::value, "");
    for (int i = 0; i < (ctx().thorough ? 500 : 60); ++i) {
        std::vector<E> in = sample_input(g), v = in; long n = (long)in.size() * 3;
        if (!begin_case("C16|facade|state|" + std::to_string(i))) continue;
        where = "stateful implementation";
        stateful s(i, "some name which is long enough to be allocated"), t(s), u(std::move(t));
        if (u.base != i || u.name != s.name || u.name.size() != 46) bad("constructor arguments not forwarded");
        if (u(v).bit != i || s(v.begin(), v.end(), std::less<>{}).bit != i || u(v, cu::identity{}).self != (const void*)static_cast<const stateful_impl*>(&u)) bad("state not used"); judge(v, in, 0);
        where = "function pointers";
        using V = std::vector<E>; using It = V::iterator;
        counts c;
        { long (*f)(V&) = c; v = in; if (f(v) != n) bad("result lost"); judge(v, in, 0); }
        { void (*f)(V&&) = c; v = in; f(std::move(v)); judge(v, in, 0); }
        { long (*f)(V&, cmp_desc_w) = c; v = in; if (f(v, {}) != n) bad("result lost"); judge(v, in, 1); }
        { long (*f)(V&, int E::*) = c; v = in; if (f(v, &E::w) != n) bad("result lost"); judge(v, in, 2); }
        { void (*f)(V&, std::greater<>, int E::*) = c; v = in; f(v, {}, &E::w); judge(v, in, 1); }
        { long (*f)(V&&, std::greater<>, int E::*) = c; v = in; if (f(std::move(v), {}, &E::w) != n) bad("result lost"); judge(v, in, 1); }
        { long (*f)(It, It) = c; v = in; if (f(v.begin(), v.end()) != n) bad("result lost"); judge(v, in, 0); }
        { void (*f)(It, It, proj_w) = c; v = in; f(v.begin(), v.end(), {}); judge(v, in, 2); }
        { long (*f)(It, It, int_desc, proj_w) = c; v = in; if (f(v.begin(), v.end(), {}, {}) != n) bad("result lost"); judge(v, in, 1); }
        { long (*f)(E*, E*, bool (*)(const E&, const E&)) = c; v = in; if (f(v.data(), v.data() + v.size(), [](const E& a, const E& b) { return a.w < b.w; }) != n) bad("result lost"); judge(v, in, 2); }
        count_case((std::uint64_t)i + 77, in.size() > 1); event("function_pointers", 10); event("stateful_calls", 3);
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
#if PART <= 8
    row<PART>(std::make_integer_sequence<int, 9>());
#endif
#if PART == 9
    row<0>(std::integer_sequence<int, 1, 2, 3, 4, 5, 6, 7, 8>()); rest();
#endif
    return finish();
}
