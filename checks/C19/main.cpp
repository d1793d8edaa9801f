// C19: function-object utilities, with callables and arguments that record how they are used.
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include "vh.h"
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/not_fn.h>
#include <cpp-sort/comparators/projection_compare.h>
#include <cpp-sort/refined.h>
#include <cpp-sort/utility/adapter_storage.h>
#include <cpp-sort/utility/as_function.h>
#include <cpp-sort/utility/branchless_traits.h>
#include <cpp-sort/utility/functional.h>
#include <cpp-sort/utility/iter_move.h>
#include <cpp-sort/utility/make_integer_range.h>
#include <cpp-sort/utility/metrics_tools.h>
#include <cpp-sort/utility/size.h>
#include <cpp-sort/utility/static_const.h>
#include <cmath>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <memory>
#include <set>
#include <sstream>

using namespace vh;
namespace cu = cppsort::utility;

static std::string K(const std::string& k) { return "C19|" + k; }
static void fail(const std::string& k, const std::string& d = "") { violation(K(k), d); }
#define SAME(key, A, ...) do { event("types_judged"); if (!std::is_same<A, __VA_ARGS__>::value) fail(std::string(key) + "|type", #A " is not " #__VA_ARGS__); } while (0)
#define TRUE_(key, ...) do { event("facts_judged"); if (!(__VA_ARGS__)) fail(key, #__VA_ARGS__); } while (0)

////////////////////////////////////////////////////////////
// Arguments and callables that record

enum category { lv, clv, rv, crv };
static const char* cat_name(int c) { static const char* n[] = { "&", "const&", "&&", "const&&" }; return n[c]; }
struct arg {
    int v; static long copies, moves;
    explicit arg(int v): v(v) {}
    arg(const arg& o): v(o.v) { ++copies; } arg(arg&& o): v(o.v) { ++moves; }
    arg& operator=(const arg& o) { v = o.v; ++copies; return *this; } arg& operator=(arg&& o) { v = o.v; ++moves; return *this; }
};
long arg::copies = 0; long arg::moves = 0;
template<typename T> constexpr int cat_of() { return std::is_lvalue_reference<T>::value ? (std::is_const<std::remove_reference_t<T>>::value ? clv : lv) : (std::is_const<std::remove_reference_t<T>>::value ? crv : rv); }

struct used { const void* at; int cat; };
struct call { int fn; int self; std::vector<used> args; };
static std::vector<call> calls;
template<typename... A> void log_call(int fn, int self, A&&... a) {
    harness_scope hs; call c{ fn, self, {} };
    int dummy[] = { 0, (c.args.push_back({ (const void*)std::addressof(a), cat_of<A>() }), 0)... }; (void)dummy;
    calls.push_back(c);
}

template<typename R> struct results { static R& of(int fn) { static std::map<int, R> m; return m.emplace(fn, R()).first->second; } };
// Callable with an identity, accepting anything; returns a reference to a result of its own
struct spy {
    int fn; bool r;
    explicit spy(int fn = 0, bool r = false): fn(fn), r(r) {}
    template<typename... A> const bool& operator()(A&&... a) & { log_call(fn, lv, std::forward<A>(a)...); return ret(); }
    template<typename... A> const bool& operator()(A&&... a) const& { log_call(fn, clv, std::forward<A>(a)...); return ret(); }
    template<typename... A> const bool& operator()(A&&... a) && { log_call(fn, rv, std::forward<A>(a)...); return ret(); }
    template<typename... A> const bool& operator()(A&&... a) const&& { log_call(fn, crv, std::forward<A>(a)...); return ret(); }
    const bool& ret() const { bool& b = results<bool>::of(fn); b = r; return b; }
    using is_transparent = void;
};
// A projection: returns its argument's value + add, as a new object, or its argument itself
struct proj_spy {
    int fn;
    explicit proj_spy(int fn = 0): fn(fn) {}
    template<typename A> A&& operator()(A&& a) const { log_call(fn, clv, std::forward<A>(a)); return std::forward<A>(a); }
};
struct proj_piped: proj_spy, cu::projection_base { using proj_spy::proj_spy; using is_transparent = void; };
struct adder: cu::projection_base { int n; explicit adder(int n): n(n) {} int operator()(int x) const { return x + n; } };
struct doubler: cu::projection_base { int operator()(int x) const { return 2 * x; } };
struct opaque_fn { bool operator()(int a, int b) const { return a < b; } };

template<typename T, typename F> static void as_cat(int c, T& x, F&& f) {
    switch (c) { case lv: f(x); break; case clv: f(static_cast<const T&>(x)); break; case rv: f(std::move(x)); break; default: f(static_cast<const T&&>(x)); }
}
// exactly these arguments, in this order and with these categories
static void expect_call(const std::string& key, std::size_t i, int fn, std::vector<used> args) {
    if (i >= calls.size()) return fail(key + "|not called");
    auto& c = calls[i];
    if (c.fn != fn) return fail(key + "|wrong callable", std::to_string(c.fn));
    if (c.args.size() != args.size()) return fail(key + "|number of arguments");
    for (std::size_t k = 0; k < args.size(); ++k) {
        if (c.args[k].at != args[k].at) return fail(key + "|wrong argument", std::to_string(k));
        if (c.args[k].cat != args[k].cat) return fail(key + "|value category", std::string(cat_name(args[k].cat)) + " became " + cat_name(c.args[k].cat));
    }
    event("calls_judged");
}
static void expect_calls(const std::string& key, std::size_t n) { if (calls.size() != n) fail(key + "|number of calls", std::to_string(calls.size()) + " instead of " + std::to_string(n)); }
static void begin() { calls.clear(); arg::copies = arg::moves = 0; }
static void end(const std::string& key) { if (arg::copies || arg::moves) fail(key + "|arguments copied", std::to_string(arg::copies) + " copies, " + std::to_string(arg::moves) + " moves"); }

template<typename F, typename... A> auto callable(int) -> decltype((void)std::declval<F>()(std::declval<A>()...), std::true_type());
template<typename F, typename... A> std::false_type callable(...);
#define CALLABLE(F, ...) (decltype(callable<F, __VA_ARGS__>(0))::value)

template<typename T> auto transparent(int) -> decltype(std::declval<typename T::is_transparent*>(), std::true_type());
template<typename T> std::false_type transparent(...);
#define TRANSPARENT(T) (decltype(transparent<T>(0))::value)

static int free_unary(int x) { return x * 10; }
static bool free_less(int a, int b) { return a < b; }
struct rec { int a; int b; int get() const { return b; } int& ref() { return a; } bool before(const rec& o) const { return a < o.a; } };

////////////////////////////////////////////////////////////

static void adapters(rng& r) {
    for (int cx = 0; cx < 4; ++cx) for (int cy = 0; cy < 4; ++cy) for (int cs = 0; cs < 4; ++cs) for (int res = 0; res < 2; ++res) for (int same = 0; same < 2; ++same) {
        std::string label = K("adapters|") + cat_name(cx) + " " + cat_name(cy) + " on " + cat_name(cs) + " " + std::to_string(res) + std::to_string(same);
        if (!begin_case(label)) continue;
        count_case(hash_str(label), true);
        arg a((int)r.below(100)), b_((int)r.below(100)); arg& b = same ? a : b_;
        auto run = [&](const std::string& key, auto f, bool want, auto check) {
            begin();
            as_cat(cs, f, [&](auto&& self) { as_cat(cx, a, [&](auto&& x) { as_cat(cy, b, [&](auto&& y) {
                bool got = std::forward<decltype(self)>(self)(std::forward<decltype(x)>(x), std::forward<decltype(y)>(y));
                if (got != want) fail(key + "|result");
            }); }); });
            check(key); end(key);
        };
        auto X = used{ &a, cx }, Y = used{ &b, cy };
        spy s(7, res);
        auto flipped = [&](const std::string& k) { expect_calls(k, 1); expect_call(k, 0, 7, { Y, X }); if (!calls.empty() && calls[0].self != cs) fail(k + "|value category of the callable"); };
        auto straight = [&](const std::string& k) { expect_calls(k, 1); expect_call(k, 0, 7, { X, Y }); };
        run("flip", cppsort::flip(s), res, flipped);
        run("flip_t", cppsort::flip_t<spy>(s), res, flipped);
        run("not_fn", cppsort::not_fn(s), !res, [&](const std::string& k) { straight(k); if (!calls.empty() && calls[0].self != cs) fail(k + "|value category of the callable"); });
        run("flip flip", cppsort::flip(cppsort::flip(s)), res, straight);
        run("flip_t of flip_t", cppsort::flip_t<cppsort::flip_t<spy>>(cppsort::flip_t<spy>(s)), res, straight);
        run("not_fn not_fn", cppsort::not_fn(cppsort::not_fn(s)), res, straight);
        run("flip not_fn", cppsort::flip(cppsort::not_fn(s)), !res, flipped);
        run("not_fn flip", cppsort::not_fn(cppsort::flip(s)), !res, flipped);
        run("flip not_fn flip", cppsort::flip(cppsort::not_fn(cppsort::flip(s))), !res, straight);
        run("not_fn flip not_fn", cppsort::not_fn(cppsort::flip(cppsort::not_fn(s))), res, flipped);
        auto lf = cppsort::flip(s); const auto clf = lf;
        run("flip of an lvalue flip", cppsort::flip(lf), res, straight); run("flip of a const flip", cppsort::flip(clf), res, straight);
        auto ln = cppsort::not_fn(s); const auto cln = ln;
        run("not_fn of an lvalue not_fn", cppsort::not_fn(ln), res, straight); run("not_fn of a const not_fn", cppsort::not_fn(cln), res, straight);
        auto lfn = cppsort::flip(ln); auto lnf = cppsort::not_fn(lf);
        run("not_fn of an lvalue flip not_fn", cppsort::not_fn(lfn), res, flipped); run("flip of an lvalue not_fn flip", cppsort::flip(lnf), !res, straight);
        run("as_comparison", cu::as_comparison(s), res, straight);
        run("as_comparison twice", cu::as_comparison(cu::as_comparison(s)), res, straight);
        run("as_comparison of flip", cu::as_comparison(cppsort::flip(s)), res, [&](const std::string& k) { expect_calls(k, 1); expect_call(k, 0, 7, { Y, X }); });
        // comparison and projection in one: each projection once, its result given on as it is
        auto pc = [&](bool flip, const std::string& k) {
            expect_calls(k, 3);
            if (calls.size() != 3) return;
            // the order of both projections is unspecified
            std::size_t ix = calls[0].args[0].at == &a && (calls[0].args[0].cat == cx || same) && (!same || calls[0].args[0].cat == cx) ? 0 : 1;
            expect_call(k, ix, 8, { X }); expect_call(k, 1 - ix, 8, { Y });
            if (flip) expect_call(k, 2, 7, { Y, X }); else expect_call(k, 2, 7, { X, Y });
        };
        proj_spy p(8);
        if (!(same && cx != cy)) {
            run("projection_compare", cppsort::make_projection_compare(s, p), res, [&](const std::string& k) { pc(false, k); });
            run("flip projection_compare", cppsort::flip(cppsort::make_projection_compare(s, p)), res, [&](const std::string& k) { pc(true, k); });
            run("not_fn projection_compare", cppsort::not_fn(cppsort::make_projection_compare(s, p)), !res, [&](const std::string& k) { pc(false, k); });
            run("flip not_fn projection_compare", cppsort::flip(cppsort::not_fn(cppsort::make_projection_compare(s, p))), !res, [&](const std::string& k) { pc(true, k); });
            auto lpc = cppsort::make_projection_compare(cppsort::not_fn(cppsort::flip(s)), p);
            run("flip of an lvalue projection_compare", cppsort::flip(lpc), !res, [&](const std::string& k) { pc(false, k); });
            run("not_fn of an lvalue projection_compare", cppsort::not_fn(lpc), res, [&](const std::string& k) { pc(true, k); });
        }
        run("projection_compare identity", cppsort::make_projection_compare(s, cu::identity{}), res, straight);
        run("projection_compare object with identity", cppsort::projection_compare<spy, cu::identity>(s, cu::identity{}), res, straight);
#if __cplusplus >= 202002L
        run("projection_compare std::identity", cppsort::make_projection_compare(s, std::identity{}), res, straight);
#endif
    }
    // one argument: projections
    for (int cx = 0; cx < 4; ++cx) for (int cs = 0; cs < 4; ++cs) {
        std::string label = K("projections|") + cat_name(cx) + " on " + cat_name(cs);
        if (!begin_case(label)) continue;
        count_case(hash_str(label), true);
        arg a((int)r.below(100));
        auto run = [&](const std::string& key, auto f, std::vector<int> order) {
            begin();
            as_cat(cs, f, [&](auto&& self) { as_cat(cx, a, [&](auto&& x) {
                auto&& res = std::forward<decltype(self)>(self)(std::forward<decltype(x)>(x));
                if (std::addressof(res) != &a) fail(key + "|result");
                using R = decltype(std::forward<decltype(self)>(self)(std::forward<decltype(x)>(x)));
                if (cat_of<R>() != cx || !std::is_reference<R>::value) fail(key + "|result category");
            }); });
            expect_calls(key, order.size());
            for (std::size_t i = 0; i < order.size(); ++i) expect_call(key, i, order[i], { used{ &a, cx } });
            end(key);
        };
        proj_piped p(1), q(2); proj_spy u(3);
        run("identity", cu::identity{}, {});
        run("as_projection", cu::as_projection(u), { 3 });
        run("as_projection twice", cu::as_projection(cu::as_projection(u)), { 3 });
        run("p|q", p | q, { 1, 2 }); run("q|p", q | p, { 2, 1 });
        run("p|u", p | u, { 1, 3 }); run("u|p", u | p, { 3, 1 });
        run("(p|q)|u", (p | q) | u, { 1, 2, 3 }); run("p|(q|u)", p | (q | u), { 1, 2, 3 }); run("u|(p|q)|u", u | (p | q) | u, { 3, 1, 2, 3 });
        run("as_projection(u)|u", cu::as_projection(u) | u, { 3, 3 }); run("u|as_projection(u)", u | cu::as_projection(u), { 3, 3 });
        run("p|identity", p | cu::identity{}, { 1 }); run("identity|p", cu::identity{} | p, { 1 }); run("u|identity", u | cu::identity{}, { 3 }); run("identity|u", cu::identity{} | u, { 3 });
        run("identity|identity", cu::identity{} | cu::identity{}, {});
        const auto cp = p; auto lpq = p | q;
        run("const p|q", cp | q, { 1, 2 }); run("lvalue|identity", lpq | cu::identity{}, { 1, 2 }); run("lvalue|lvalue", lpq | lpq, { 1, 2, 1, 2 });
#if __cplusplus >= 202002L
        run("p|std::identity", p | std::identity{}, { 1 }); run("std::identity|p", std::identity{} | p, { 1 }); run("std::identity|identity", std::identity{} | cu::identity{}, {});
#endif
    }
}

static void values(rng& r) {
    std::vector<int> v; for (int i = 0; i < 60; ++i) v.push_back(i < 20 ? i - 10 : (int)r.next() >> r.below(31));
    for (int x: v) {
        if (!begin_case(K("values|") + std::to_string(x))) continue;
        count_case(mix((unsigned)x) ^ 19, true);
        auto eq = [&](const char* k, long long got, long long want) { if (got != want) fail(std::string("values|") + k, std::to_string(x) + ": " + std::to_string(got) + " instead of " + std::to_string(want)); event("values_judged"); };
        int small = x % 1000;
        eq("half", cu::half{}(x), x / 2); eq("half long", cu::half{}((long long)x * 3), (long long)x * 3 / 2); eq("half unsigned", cu::half{}((unsigned)x), (unsigned)x / 2);
        if (cu::half{}((double)x) != (double)x / 2) fail("values|half double");
        double pos = std::fabs((double)x) + (r.chance(1, 2) ? 0.25 : 0);
        if (cu::sqrt{}(pos) != std::sqrt(pos) || cu::sqrt{}(std::abs((long long)x)) != std::sqrt(std::abs((long long)x)) || cu::sqrt{}((float)pos) != std::sqrt((float)pos)) fail("values|sqrt", std::to_string(pos));
        if (pos > 0) { double l = cu::log{}(pos); if (l != std::log(pos) && l != std::log10(pos)) fail("values|log", std::to_string(pos)); }
        eq("adder|doubler", (adder(3) | doubler{})(small), (small + 3) * 2); eq("doubler|adder", (doubler{} | adder(3))(small), small * 2 + 3);
        eq("pipe of four", (adder(1) | doubler{} | adder(5) | doubler{})(small), ((small + 1) * 2 + 5) * 2);
        eq("function pointer|p", (&free_unary | doubler{})(small), small * 20); eq("p|function pointer", (doubler{} | &free_unary)(small), small * 20);
        eq("function|p", (free_unary | doubler{})(small), small * 20); eq("p|function", (doubler{} | free_unary)(small), small * 20);
        auto lam = [small](int y) { return y - small; };
        eq("lambda|p", (lam | doubler{})(7), (7 - small) * 2); eq("p|lambda", (doubler{} | lam)(7), 14 - small);
        eq("half|p", (cu::half{} | adder(1))(x / 2), x / 2 / 2 + 1);
        rec t{ small, x }; const rec ct = t;
        eq("member|p", (&rec::a | doubler{})(t), small * 2); eq("member function|p", (&rec::get | adder(0))(ct), x); eq("p|member", (cu::identity{} | &rec::a | doubler{})(ct), small * 2);
        eq("indirect|member", (cu::indirect{} | &rec::a)(&t), small); eq("member of pointer", (&rec::a | doubler{})(&ct), small * 2);
        eq("as_projection member", cu::as_projection(&rec::b)(t), x); eq("as_projection member function", cu::as_projection(&rec::get)(ct), x); eq("as_projection function pointer", cu::as_projection(&free_unary)(small), small * 10);
        eq("as_projection function", cu::as_projection(free_unary)(small), small * 10); eq("as_projection lambda", cu::as_projection(lam)(9), 9 - small);
        eq("as_comparison function", cu::as_comparison(free_less)(small, 5), small < 5); eq("as_comparison function pointer", cu::as_comparison(&free_less)(small, 5), small < 5);
        rec o{ 5, 5 }; eq("as_comparison member function", cu::as_comparison(&rec::before)(t, o), small < 5); eq("flip member function", cppsort::flip(&rec::before)(t, o), 5 < small);
        eq("not_fn member function", cppsort::not_fn(&rec::before)(t, o), !(small < 5)); eq("not_fn member", cppsort::not_fn(&rec::a)(t), !small);
        eq("flip function", cppsort::flip(free_less)(small, 5), 5 < small); eq("flip function pointer", cppsort::flip(&free_less)(small, 5), 5 < small); eq("not_fn function", cppsort::not_fn(free_less)(small, 5), !(small < 5));
        eq("not_fn unary", cppsort::not_fn([](int y) { return y > 0; })(x), !(x > 0)); eq("not_fn none", cppsort::not_fn([&] { return x > 0; })(), !(x > 0)); eq("not_fn ternary", cppsort::not_fn([](int p, int q, int s) { return p < q && q < s; })(1, x, 100), !(1 < x && x < 100));
        eq("projection_compare members", cppsort::make_projection_compare(std::greater<>{}, &rec::a)(t, o), small > 5); eq("projection_compare member function", cppsort::make_projection_compare(free_less, &rec::get)(t, o), x < 5);
        eq("projection_compare functions", cppsort::make_projection_compare(&free_less, free_unary)(small, 5), small * 10 < 50);
        eq("projection_compare member comparison", cppsort::make_projection_compare(&rec::before, cu::indirect{})(&t, &o), small < 5);
        // as_function
        auto&& fa = cu::as_function(&rec::a); eq("as_function member", fa(t), small); eq("as_function member of const", fa(ct), small); eq("as_function member of pointer", fa(&t), small);
        fa(t) = 77; eq("as_function member is an lvalue", t.a, 77); t.a = small;
        TRUE_("as_function returns the object itself", std::addressof(cu::as_function(lam)) == std::addressof(lam));
        const auto clam = lam; TRUE_("as_function returns the const object itself", std::addressof(cu::as_function(clam)) == std::addressof(clam));
        eq("as_function temporary", cu::as_function([x](int y) { return x ^ y; })(3), x ^ 3); eq("as_function function", cu::as_function(free_unary)(small), small * 10); eq("as_function member function", cu::as_function(&rec::get)(ct), x);
        eq("as_function mutable member function", cu::as_function(&rec::ref)(t), small);
        // indirect
        std::unique_ptr<int> up(new int(x)); std::list<int> li{ x }; std::vector<int> ve{ x };
        eq("indirect pointer", cu::indirect{}(&x), x); eq("indirect unique_ptr", cu::indirect{}(up), x); eq("indirect iterator", cu::indirect{}(li.begin()), x); eq("indirect const", [](const cu::indirect i, const std::vector<int>& c) { return i(c.cbegin()); }(cu::indirect{}, ve), x);
        TRUE_("indirect returns a reference", std::addressof(cu::indirect{}(ve.begin())) == &ve[0]);
        eq("indirect|indirect", (cu::indirect{} | cu::indirect{})(&up), x);
#if __cplusplus >= 201703L
        constexpr cu::function_constant<&rec::a> fm{}; constexpr cu::function_constant<&free_less> ff{}; constexpr cu::function_constant<&rec::get> fg{};
        eq("function_constant member", fm(t), small); eq("function_constant function", ff(small, 5), small < 5); eq("function_constant member function", fg(ct), x);
        fm(t) = 3; eq("function_constant member lvalue", t.a, 3); t.a = small;
        bool (*pf)(int, int) = ff; eq("function_constant conversion", pf(small, 5), small < 5); eq("function_constant value", (t.*decltype(fm)::value), small);
#endif
    }
}

static void types() {
    if (!begin_case(K("types"))) return;
    count_case(1919, true);
    using L = std::less<>; using spy_c = const spy;
    SAME("flip", decltype(cppsort::flip(L{})), cppsort::flip_t<L>);
    SAME("flip", decltype(cppsort::flip(cppsort::flip(L{}))), L);
    SAME("flip", decltype(cppsort::flip(std::declval<const cppsort::flip_t<L>&>())), L);
    SAME("flip", decltype(cppsort::flip(cppsort::not_fn(cppsort::flip(L{})))), cppsort::not_fn_t<L>);
    SAME("flip", decltype(cppsort::flip(cppsort::not_fn(L{}))), cppsort::flip_t<cppsort::not_fn_t<L>>);
    SAME("flip", decltype(cppsort::flip(std::declval<spy_c&>())), cppsort::flip_t<spy>);
    SAME("not_fn", decltype(cppsort::not_fn(L{})), cppsort::not_fn_t<L>);
    SAME("not_fn", decltype(cppsort::not_fn(cppsort::not_fn(L{}))), L);
    SAME("not_fn", decltype(cppsort::not_fn(std::declval<cppsort::not_fn_t<L>&>())), L);
    SAME("not_fn", decltype(cppsort::not_fn(cppsort::flip(cppsort::not_fn(L{})))), cppsort::flip_t<L>);
    SAME("not_fn", decltype(cppsort::not_fn(cppsort::flip(L{}))), cppsort::not_fn_t<cppsort::flip_t<L>>);
    using PC = cppsort::projection_compare<L, int rec::*>;
    SAME("projection_compare", decltype(cppsort::make_projection_compare(L{}, &rec::a)), PC);
    SAME("projection_compare", decltype(cppsort::make_projection_compare(L{}, cu::identity{})), L);
    SAME("projection_compare", decltype(cppsort::make_projection_compare(std::declval<const L&>(), std::declval<const cu::identity&>())), L);
    SAME("flip projection_compare", decltype(cppsort::flip(std::declval<PC&>())), cppsort::projection_compare<cppsort::flip_t<L>, int rec::*>);
    SAME("flip projection_compare", decltype(cppsort::flip(cppsort::flip(std::declval<PC>()))), PC);
    SAME("not_fn projection_compare", decltype(cppsort::not_fn(std::declval<const PC&>())), cppsort::projection_compare<cppsort::not_fn_t<L>, int rec::*>);
    SAME("flip", decltype(std::declval<const cppsort::flip_t<spy>&>().base()), spy); SAME("not_fn", decltype(std::declval<const cppsort::not_fn_t<spy>&>().base()), spy);
    TRUE_("flip|base", cppsort::flip(spy(41)).base().fn == 41); TRUE_("not_fn|base", cppsort::not_fn(spy(42)).base().fn == 42);
    auto pc = cppsort::make_projection_compare(spy(43), proj_spy(44)); TRUE_("projection_compare|accessors", pc.comparison().fn == 43 && pc.projection().fn == 44);
    TRUE_("flip|projection_compare|accessors", cppsort::flip(pc).comparison().base().fn == 43 && cppsort::flip(pc).projection().fn == 44); TRUE_("not_fn|projection_compare|accessors", cppsort::not_fn(pc).comparison().base().fn == 43 && cppsort::not_fn(pc).projection().fn == 44);
    SAME("pipe", std::decay_t<decltype(std::declval<adder&>() | cu::identity{})>, adder); SAME("pipe", std::decay_t<decltype(cu::identity{} | &rec::a)>, int rec::*); SAME("pipe", decltype(cu::identity{} | cu::identity{}), cu::identity);
#if __cplusplus >= 202002L
    SAME("pipe", std::decay_t<decltype(std::declval<adder&>() | std::identity{})>, adder); SAME("pipe", std::decay_t<decltype(std::identity{} | doubler{})>, doubler);
    SAME("projection_compare", decltype(cppsort::make_projection_compare(L{}, std::identity{})), L);
#endif
    // default construction
    TRUE_("flip_t|default", cppsort::flip_t<L>()(1, 2) == false && cppsort::not_fn_t<L>()(1, 2) == false && cppsort::projection_compare<L, doubler>()(1, 2));
    // overloads exposed
    auto both = [](auto...) { return 0; }; using B = decltype(both);
    using AP = decltype(cu::as_projection(both)); using AC = decltype(cu::as_comparison(both));
    TRUE_("as_projection|exposes only the unary overload", CALLABLE(AP&, int) && !CALLABLE(AP&, int, int) && CALLABLE(const AP&, int) && CALLABLE(AP, int)); TRUE_("as_comparison|exposes only the binary overload", !CALLABLE(AC&, int) && CALLABLE(AC&, int, int) && CALLABLE(const AC&, int, int) && CALLABLE(AC, int, int));
    (void)sizeof(B);
    TRUE_("as_projection|projection_base", std::is_base_of<cu::projection_base, AP>::value && std::is_base_of<cu::projection_base, cu::identity>::value && std::is_base_of<cu::projection_base, cu::indirect>::value && std::is_base_of<cu::projection_base, cu::half>::value
          && std::is_base_of<cu::projection_base, cu::log>::value && std::is_base_of<cu::projection_base, cu::sqrt>::value && std::is_base_of<cu::projection_base, decltype(adder(1) | doubler{})>::value);
    TRUE_("flip|not callable", !CALLABLE(cppsort::flip_t<opaque_fn>&, int) && !CALLABLE(cppsort::flip_t<opaque_fn>&, int, rec) && CALLABLE(cppsort::flip_t<opaque_fn>&, int, int));
    TRUE_("not_fn|not callable", !CALLABLE(cppsort::not_fn_t<opaque_fn>&, int) && CALLABLE(cppsort::not_fn_t<opaque_fn>&, int, int));
    TRUE_("projection_compare|not callable", !CALLABLE(PC&, int, int) && CALLABLE(PC&, rec, rec&)); TRUE_("pipe|not callable", !CALLABLE(decltype(adder(1) | doubler{})&, rec));
    TRUE_("indirect|not callable", !CALLABLE(cu::indirect&, int) && CALLABLE(const cu::indirect&, int*));
    // transparency
    using T2 = proj_piped; using NT = adder;
    TRUE_("transparent|flip", TRANSPARENT(cppsort::flip_t<L>) && !TRANSPARENT(cppsort::flip_t<opaque_fn>)); TRUE_("transparent|not_fn", TRANSPARENT(cppsort::not_fn_t<L>) && !TRANSPARENT(cppsort::not_fn_t<opaque_fn>));
    using P1 = cppsort::projection_compare<L, cu::identity>; using P2 = cppsort::projection_compare<L, NT>; using P3 = cppsort::projection_compare<opaque_fn, cu::identity>;
    TRUE_("transparent|projection_compare", TRANSPARENT(P1) && !TRANSPARENT(P2) && !TRANSPARENT(P3));
    TRUE_("transparent|as_comparison", TRANSPARENT(decltype(cu::as_comparison(L{}))) && !TRANSPARENT(decltype(cu::as_comparison(opaque_fn{})))); TRUE_("transparent|as_projection", TRANSPARENT(decltype(cu::as_projection(T2()))) && !TRANSPARENT(decltype(cu::as_projection(NT(1)))));
    TRUE_("transparent|pipe", TRANSPARENT(decltype(T2() | T2())) && !TRANSPARENT(decltype(T2() | NT(1))) && !TRANSPARENT(decltype(NT(1) | T2()))); TRUE_("transparent|basic", TRANSPARENT(cu::identity) && TRANSPARENT(cu::half) && TRANSPARENT(cu::log) && TRANSPARENT(cu::sqrt));
    TRUE_("transparent|flip of flip_t", TRANSPARENT(cppsort::flip_t<cppsort::not_fn_t<L>>));
    { std::set<std::string, cppsort::flip_t<L>> s{ "a", "b" }; TRUE_("transparent|set", s.find(std::string("b")) == s.begin() && *s.find("a") == "a"); }
    // branchless
    using cu::is_probably_branchless_comparison; using cu::is_probably_branchless_projection; struct U {};
#define BC(F, ...) (is_probably_branchless_comparison<F, __VA_ARGS__>::value)
#define BP(F, ...) (is_probably_branchless_projection<F, __VA_ARGS__>::value)
    TRUE_("branchless|less", BC(L, int) && BC(std::less<int>, int) && BC(std::greater<>, double) && BC(std::greater<char>, char) && BC(const L&, const int&) && BC(L, bool) && !BC(L, std::string) && !BC(std::less<std::string>, std::string) && !BC(opaque_fn, int) && !BC(L, int*));
    TRUE_("branchless|flip", BC(cppsort::flip_t<L>, int) && !BC(cppsort::flip_t<L>, std::string) && !BC(cppsort::flip_t<opaque_fn>, int) && BC(const cppsort::flip_t<std::greater<>>&, int));
    using PCB = cppsort::projection_compare<L, cu::identity>; using PCM = cppsort::projection_compare<std::greater<>, int rec::*>; using PCO = cppsort::projection_compare<opaque_fn, int rec::*>; using PCA = cppsort::projection_compare<L, adder>;
    TRUE_("branchless|projection_compare", BC(PCB, int) && !BC(PCB, std::string) && BC(PCM, rec) && !BC(PCO, rec) && !BC(PCA, int));
    TRUE_("branchless|projections", BP(cu::identity, int) && BP(cu::identity, std::string) && BP(int rec::*, rec) && !BP(adder, int) && BP(const cu::identity&, const int&) && BP(int rec::* const&, rec&));
    TRUE_("branchless|as_function", BP(std::decay_t<decltype(cu::as_function(&rec::a))>, rec));
#if __cplusplus >= 201703L
    TRUE_("branchless|function_constant", BP(cu::function_constant<&rec::a>, rec) && !BP(cu::function_constant<&free_unary>, int) && !BC(cu::function_constant<&free_less>, int));
    TRUE_("function_constant|empty", std::is_empty<cu::function_constant<&rec::a>>::value && std::is_same<cu::function_constant<&rec::a>::value_type, int rec::*>::value);
#endif
#if __cplusplus >= 202002L
    TRUE_("branchless|std", BC(std::ranges::less, int) && BC(std::ranges::greater, float) && BP(std::identity, std::string) && !BC(std::ranges::less, std::string));
#endif
    TRUE_("noexcept|identity", noexcept(cu::identity{}(1)));
}

// refined
namespace ref {
    template<typename T> struct typed { int n; template<typename A, typename B> bool operator()(const A&, const B&) const { return n; } };
    struct refinable {
        int n = 0; mutable int refined = 0;
        template<typename T> typed<T> refine() const { ++refined; return { n + (std::is_same<T, int>::value ? 100 : 200) }; }
        template<typename A, typename B> bool operator()(const A&, const B&) const { return false; }
    };
    struct mutable_refinable { int n = 0; template<typename T> typed<T> refine() { ++n; return { n }; } };
    struct picky { template<typename T, typename = std::enable_if_t<std::is_same<T, int>::value>> typed<T> refine() const { return { 1 }; } };
}
static void refinement() {
    if (!begin_case(K("refined"))) return;
    count_case(1920, true);
    ref::refinable f; f.n = 5; const auto& cf = f;
    TRUE_("refined", cppsort::refined<int>(f).n == 105); TRUE_("refined", cppsort::refined<std::string>(cf).n == 205); TRUE_("refined", cppsort::refined<int>(ref::refinable{ 7 }).n == 107);
    spy s(9); TRUE_("refined|plain object", std::addressof(cppsort::refined<int>(s)) == &s); TRUE_("refined|const plain object", std::addressof(cppsort::refined<int>(static_cast<const spy&>(s))) == &s); TRUE_("refined|temporary", cppsort::refined<int>(spy(10)).fn == 10);
    ref::mutable_refinable m; TRUE_("refined|mutable", cppsort::refined<int>(m).n == 1);
    ref::picky p; SAME("refined|picky", decltype(cppsort::refined<int>(p)), ref::typed<int>); TRUE_("refined|not refinable for", std::addressof(cppsort::refined<long>(p)) == &p);
    SAME("refined_t", cppsort::refined_t<int, ref::refinable>, ref::typed<int>); SAME("refined_t", cppsort::refined_t<const int&, ref::refinable>, ref::typed<int>); SAME("refined_t", cppsort::refined_t<int, spy>, spy); SAME("refined_t", cppsort::refined_t<int, const spy&>, spy);
    SAME("refined|type", decltype(cppsort::refined<int>(f)), ref::typed<int>);
}

// iter_move, iter_swap
namespace it_ns {
    struct val { int v; int moves = 0; val(int v): v(v) {} val(val&& o): v(o.v), moves(o.moves + 1) { o.v = -1; } val& operator=(val&& o) { v = o.v; moves = o.moves + 1; o.v = -1; return *this; } };
    static int swaps = 0, imoves = 0, iswaps = 0;
    static void swap(val& a, val& b) { ++swaps; std::swap(a.v, b.v); }
    template<int Kind> struct iter {            // Kind & 1: iter_move, Kind & 2: iter_swap
        using iterator_category = std::random_access_iterator_tag; using value_type = val; using difference_type = std::ptrdiff_t; using pointer = val*; using reference = val&;
        val* p; val& operator*() const { return *p; } val* operator->() const { return p; } iter& operator++() { ++p; return *this; } iter& operator--() { --p; return *this; } iter& operator+=(std::ptrdiff_t n) { p += n; return *this; } iter operator--(int) { auto t = *this; --p; return t; } iter operator++(int) { auto t = *this; ++p; return t; }
        friend bool operator==(iter a, iter b) { return a.p == b.p; } friend bool operator!=(iter a, iter b) { return a.p != b.p; }
        friend std::ptrdiff_t operator-(iter a, iter b) { return a.p - b.p; } friend iter operator-(iter a, std::ptrdiff_t n) { return { a.p - n }; } friend iter operator+(iter a, std::ptrdiff_t n) { return { a.p + n }; }
    };
    template<int K> auto iter_move(iter<K> i) -> std::enable_if_t<(K & 1) != 0, val> { ++imoves; return std::move(*i.p); }
    template<int K> auto iter_swap(iter<K> a, iter<K> b) -> std::enable_if_t<(K & 2) != 0> { ++iswaps; std::swap(a.p->v, b.p->v); }
}
template<typename It> static int call_move(It it) { using cu::iter_move; auto t = iter_move(it); return t.v; }
template<typename It> static void call_swap(It a, It b) { using cu::iter_swap; iter_swap(a, b); }

template<int Kind> static void iters(const char* name) {
    using namespace it_ns; using I = iter<Kind>; using R = std::reverse_iterator<I>; using M = std::move_iterator<I>;
    std::string key = std::string("iter|") + name;
    if (!begin_case(K(key))) return;
    count_case(hash_str(name), true);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
        std::vector<val> v; for (int q = 0; q < 4; ++q) v.emplace_back(q + 10);
        auto check = [&](const std::string& how, bool move) {
            for (int q = 0; q < 4; ++q) { int want = move ? (q == i ? -1 : q + 10) : (q == i ? j : q == j ? i : q) + 10; if (v[(std::size_t)q].v != want) { fail(key + "|" + how + "|value", std::to_string(i) + " " + std::to_string(j)); return; } }
            if (move && Kind & 1 && imoves != 1) fail(key + "|" + how + "|iter_move not used", std::to_string(imoves));
            if (!move && Kind & 2 && iswaps != 1) fail(key + "|" + how + "|iter_swap not used", std::to_string(iswaps));
#if __cplusplus >= 202002L                  // the standard library's own iter_swap prefers swap to iter_move
            bool judged = how == "iter_swap";
#else
            bool judged = true;
#endif
            if (!move && Kind == 1 && judged && imoves != 2) fail(key + "|" + how + "|iter_move not used to swap", std::to_string(imoves));
            if (!move && Kind == 0 && swaps != 1) fail(key + "|" + how + "|ADL swap not used", std::to_string(swaps));
            event("iterator_operations");
        };
        auto reset = [&] { swaps = imoves = iswaps = 0; v.clear(); for (int q = 0; q < 4; ++q) v.emplace_back(q + 10); };
        I b{ v.data() };
        reset(); b = { v.data() }; if (call_move(I{ b.p + i }) != i + 10) fail(key + "|iter_move"); check("iter_move", true);
        reset(); b = { v.data() }; if (call_move(R(I{ b.p + i + 1 })) != i + 10) fail(key + "|reverse iter_move"); check("reverse iter_move", true);
        reset(); b = { v.data() }; if (call_move(M(I{ b.p + i })) != i + 10) fail(key + "|move iter_move"); check("move iter_move", true);
        if (i == j && Kind == 1) continue;           // iter_move of the same element twice
        reset(); b = { v.data() }; call_swap(I{ b.p + i }, I{ b.p + j }); check("iter_swap", false);
        reset(); b = { v.data() }; call_swap(R(I{ b.p + i + 1 }), R(I{ b.p + j + 1 })); check("reverse iter_swap", false);
        reset(); b = { v.data() }; call_swap(M(I{ b.p + i }), M(I{ b.p + j })); check("move iter_swap", false);
    }
}

// metrics, size, ranges, storage
template<typename... T> struct tag_list {};
struct tag_a {}; struct tag_b {}; struct tag_c {};
template<typename T, typename U> static void metric_pairs(const char* name, const std::vector<T>& xs, const std::vector<U>& ys) {
    std::string key = std::string("metric|") + name;
    for (T x: xs) for (U y: ys) {
        if (!begin_case(K(key + "|" + std::to_string(x) + " " + std::to_string(y)))) continue;
        count_case(mix((std::uint64_t)(long long)x) ^ mix((std::uint64_t)(long long)y * 3) ^ hash_str(name), x != (T)y);
        const cu::metric<T, tag_a> a(x); const cu::metric<U, tag_a> b(y);
        bool ok = (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a <= b) == (x <= y) && (a > b) == (x > y) && (a >= b) == (x >= y);
        T z = (T)y; ok = ok && (a == z) == (x == z) && (a != z) == (x != z) && (a < z) == (x < z) && (a <= z) == (x <= z) && (a > z) == (x > z) && (a >= z) == (x >= z);
        ok = ok && (z == a) == (z == x) && (z != a) == (z != x) && (z < a) == (z < x) && (z <= a) == (z <= x) && (z > a) == (z > x) && (z >= a) == (z >= x);
        if (!ok) fail(key + "|relations", std::to_string(x) + " " + std::to_string(y));
        cu::metric<T, tag_a> c; c = a; ok = c.value() == x; c = z; ok = ok && c.value() == z; c = b; ok = ok && c.value() == (T)y; c = cu::metric<U, tag_a>(y); ok = ok && static_cast<T>(c) == (T)y; c = T(x); ok = ok && static_cast<T>(c) == x;
        cu::metric<T, tag_a> d(std::move(c)); ok = ok && d == x;
        std::ostringstream o1, o2; o1 << a; o2 << x; ok = ok && o1.str() == o2.str();
        cu::metrics<cu::metric<T, tag_a>, cu::metric<U, tag_b>, cu::metric<int, tag_c>> mm(a, cu::metric<U, tag_b>(y), cu::metric<int, tag_c>(5));
        const auto cm = mm; using std::get;
        ok = ok && get<0>(mm) == x && get<1>(cm) == y && get<2>(mm) == 5 && get<tag_a>(mm) == x && get<tag_b>(cm) == y && get<tag_c>(std::move(mm)) == 5;
        get<tag_c>(mm) = 9; ok = ok && get<2>(mm) == 9 && get<2>(cm) == 5; mm = cm; ok = ok && get<2>(mm) == 5;
        auto copy(mm); ok = ok && get<tag_b>(copy) == y; decltype(mm) moved(std::move(copy)); ok = ok && get<tag_a>(moved) == x;
        if (!ok) fail(key + "|operations", std::to_string(x) + " " + std::to_string(y));
        event("metrics_judged");
    }
}

struct no_size { int a[3]; const int* begin() const { return a; } const int* end() const { return a + 3; } };
struct mutable_only { int a[4]; int* begin() { return a; } int* end() { return a + 4; } };
struct own_size { std::size_t size() const { return 42; } const int* begin() const { return nullptr; } const int* end() const { return nullptr; } };

struct empty_sorter { template<typename T> T operator()(T x, T y) const { return x - y; } };
struct state_sorter { int n; int operator()(int x, int y) const { return (x - y) * n; } };
struct empty_no_default { explicit empty_no_default(int) {} int operator()(int x, int y) const { return x + y; } };
template<typename S> struct storage: cu::adapter_storage<S> { storage() = default; explicit storage(S s): cu::adapter_storage<S>(std::move(s)) {} };

static void misc(rng& r) {
    std::vector<int> xs{ 0, 1, -1, 5, 100, -1000, 1 << 20 }; std::vector<double> ds{ 0, 0.5, 1, -1, 5, 1e6 }; std::vector<long> ls{ 0, 1, 5, -7, 1l << 20 }; for (int i = 0; i < 6; ++i) xs.push_back((int)r.below(2000) - 1000);
    metric_pairs("int,int", xs, xs); metric_pairs("int,double", xs, ds); metric_pairs("double,long", ds, ls); metric_pairs("long,int", ls, xs);
    if (!begin_case(K("misc"))) return;
    count_case(2020, true);
    TRUE_("metric|tags", (!std::is_assignable<cu::metric<int, tag_a>&, cu::metric<int, tag_b>>::value && !std::is_convertible<cu::metric<int, tag_a>, int>::value && !std::is_convertible<int, cu::metric<int, tag_a>>::value));
    for (int n = 0; n < 20; ++n) {
        std::vector<int> v((std::size_t)n); const std::list<int> l(v.begin(), v.end()); std::forward_list<int> f(v.begin(), v.end()); const std::forward_list<int> cf(f);
        TRUE_("size", (int)cu::size(v) == n && (int)cu::size(l) == n && (int)cu::size(f) == n && (int)cu::size(cf) == n);
    }
    int arr[7] = {}; const char carr[3] = {}; no_size ns{}; const no_size cns{}; mutable_only mo{};
    TRUE_("size", cu::size(arr) == 7 && cu::size(carr) == 3 && cu::size(ns) == 3 && cu::size(cns) == 3 && cu::size(mo) == 4 && cu::size(own_size{}) == 42);
    SAME("make_integer_range", cu::make_integer_range<int, 3, 7>, std::integer_sequence<int, 3, 4, 5, 6>); SAME("make_integer_range", cu::make_integer_range<int, 0, 10, 3>, std::integer_sequence<int, 0, 3, 6, 9>);
    SAME("make_integer_range", cu::make_integer_range<int, 0, 9, 3>, std::integer_sequence<int, 0, 3, 6>); SAME("make_integer_range", cu::make_integer_range<int, 5, 0>, std::integer_sequence<int, 5, 4, 3, 2, 1>);
    SAME("make_integer_range", cu::make_integer_range<int, 10, 0, 3>, std::integer_sequence<int, 10, 7, 4, 1>); SAME("make_integer_range", cu::make_integer_range<int, -3, 3, 2>, std::integer_sequence<int, -3, -1, 1>);
    SAME("make_integer_range", cu::make_integer_range<int, 4, 4>, std::integer_sequence<int>); SAME("make_index_range", cu::make_index_range<2, 5>, std::index_sequence<2, 3, 4>); SAME("make_index_range", cu::make_index_range<5, 2>, std::index_sequence<5, 4, 3>);
    SAME("make_index_range", cu::make_index_range<0, 8, 4>, std::index_sequence<0, 4>); SAME("make_index_range", cu::make_index_range<1, 2, 4>, std::index_sequence<1>); SAME("make_index_range", cu::make_index_range<7, 7>, std::index_sequence<>); SAME("make_index_range", cu::make_index_range<7, 7, 2>, std::index_sequence<>); SAME("make_integer_range", cu::make_integer_range<int, -4, -4, 3>, std::integer_sequence<int>);
    // adapter_storage
    TRUE_("adapter_storage|empty", std::is_empty<cu::adapter_storage<empty_sorter>>::value && std::is_default_constructible<cu::adapter_storage<empty_sorter>>::value && !std::is_empty<cu::adapter_storage<state_sorter>>::value);
    storage<state_sorter> st(state_sorter{ 3 }); const auto& cst = st;
    TRUE_("adapter_storage|state", st.get().n == 3 && cst.get().n == 3 && cst(9, 2) == 21 && storage<state_sorter>(state_sorter{ 4 }).get().n == 4); st.get().n = 5; TRUE_("adapter_storage|reference", cst(9, 2) == 35);
    SAME("adapter_storage|get", decltype(st.get()), state_sorter&); SAME("adapter_storage|get", decltype(cst.get()), const state_sorter&); SAME("adapter_storage|get", decltype(std::move(st).get()), state_sorter&&);
    storage<empty_sorter> es; const auto ces = es; TRUE_("adapter_storage|empty call", ces(9, 2) == 7 && es.get()(9, 2) == 7); storage<empty_no_default> en(empty_no_default(1)); TRUE_("adapter_storage|not default-constructible", en(9, 2) == 11 && en.get()(1, 1) == 2);
}

int main(int argc, char** argv) {
    init(argc, argv);
    rng r(mix(ctx().seed * 7 + 19));
    int reps = ctx().thorough ? 200 : 20;
    for (int i = 0; i < reps; ++i) { adapters(r); values(r); }
    types(); refinement();
    iters<0>("plain"); iters<1>("iter_move"); iters<2>("iter_swap"); iters<3>("iter_move,iter_swap");
    misc(r);
    return finish();
}
