// C16: global instances, type-specific sorters, overloads which need no sorter, fixed-size sorters, documented categories.
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include "vh.h"
#include <cpp-sort/sorters.h>
#include <cpp-sort/sort.h>
#include <cpp-sort/stable_sort.h>
#include <cpp-sort/sorter_traits.h>
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/adapters/small_array_adapter.h>
#include <array>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <type_traits>
#if __cplusplus > 201402L
#include <string_view>
#endif
#if __cplusplus >= 202002L
#include <functional>
#include <span>
#endif
using namespace vh;
namespace cu = cppsort::utility;
static std::string where;
static void bad(const std::string& what, const std::string& detail = "") { violation("C16|" + where + "|" + what, detail); }
static void fact(const char* what, bool b) { event("facts_judged"); harness_scope hs; if (!b) bad(what); }

struct E {
    int v = 0, w = 0, id = -1;
    int get_w() const { return w; }
    friend bool operator<(const E& a, const E& b) { return a.v < b.v; }
    friend bool operator>(const E& a, const E& b) { return a.v > b.v; }
};
static bool desc_w(const E& a, const E& b) { return a.w > b.w; }
static bool int_desc(int a, int b) { return a > b; }
static int proj_w(const E& e) { return e.w; }
static std::vector<E> make(rng& g, std::size_t max) {
    input in = make_input((int)g.below((std::uint64_t)n_patterns), (int)g.below(max + 1), g.next() % 1000003);
    int range = g.below(2) ? 6 : 100000; std::vector<E> v;
    for (std::size_t i = 0; i < in.keys.size(); ++i) { E e; e.v = (int)(((in.keys[i] % range) + range) % range); e.w = (int)(mix((std::uint64_t)in.keys[i] * 31 + 7) % (std::uint64_t)range) - range / 2; e.id = (int)i; v.push_back(e); }
    return v;
}
template<typename C> static std::vector<int> ids(const C& c) { std::vector<int> r; for (auto& e: c) r.push_back(e.id); return r; }
static int count(int quick, int thorough) { return ctx().thorough ? thorough : quick; }

#if PART == 1
//--- global instances: the same results as a new object, for every form
template<typename G, typename S> static void instance(const char* name, const G& global, const S& s, std::size_t max) {
    rng g(mix(ctx().seed * 17 + hash_str(name)));
    for (int i = 0; i < count(12, 150); ++i) {
        std::vector<E> in = make(g, max); std::string label = std::string("C16|instance|") + name + "|" + std::to_string(i);
        if (!begin_case(label)) continue;
        where = std::string("global ") + name;
        auto both = [&](const char* what, auto f) { auto a = in, b = in; f(global, a); f(s, b); event("instances_compared"); harness_scope hs; if (ids(a) != ids(b)) bad(std::string("result differs from the one of the sorter: ") + what); return a; };
        auto a = both("v", [](auto& f, auto& v) { f(v); });
        { harness_scope hs; if (!std::is_sorted(a.begin(), a.end())) bad("not sorted"); }
        both("iterators", [](auto& f, auto& v) { f(v.begin(), v.end()); });
        a = both("v, compare", [](auto& f, auto& v) { f(v, desc_w); });
        { harness_scope hs; if (!std::is_sorted(a.begin(), a.end(), desc_w)) bad("not sorted, compare"); }
        both("iterators, projection", [](auto& f, auto& v) { f(v.begin(), v.end(), &E::get_w); });
        a = both("v, both", [](auto& f, auto& v) { f(v, std::greater<>{}, &E::w); });
        { harness_scope hs; if (!std::is_sorted(a.begin(), a.end(), desc_w)) bad("not sorted, both"); }
        both("iterators, both", [](auto& f, auto& v) { f(v.begin(), v.end(), int_desc, proj_w); });
        count_case(hash_str(label), in.size() > 1);
    }
    event("global_instances");
}
template<typename Cat, typename S> static void category(const char* name) {
    where = std::string("category of ") + name;
    fact("iterator_category", std::is_same<cppsort::iterator_category<S>, Cat>::value && std::is_same<typename cppsort::sorter_traits<S>::iterator_category, Cat>::value);
    event("categories_judged");
}
static void instances() {
    using F = std::forward_iterator_tag; using B = std::bidirectional_iterator_tag; using R = std::random_access_iterator_tag;
#define GLOBAL(name, cat, max) instance(#name, cppsort::name##_sort, cppsort::name##_sorter{}, max); category<cat, cppsort::name##_sorter>(#name);
    GLOBAL(adaptive_shivers, R, 600) GLOBAL(cartesian_tree, F, 600) GLOBAL(drop_merge, B, 600) GLOBAL(heap, R, 600) GLOBAL(insertion, B, 120) GLOBAL(mel, F, 600) GLOBAL(merge, F, 600)
    GLOBAL(merge_insertion, R, 100) GLOBAL(pdq, R, 600) GLOBAL(poplar, R, 600) GLOBAL(quick_merge, F, 600) GLOBAL(quick, F, 600) GLOBAL(selection, F, 120) GLOBAL(slab, B, 600) GLOBAL(smooth, R, 600)
    GLOBAL(spin, R, 600) GLOBAL(splay, F, 600) GLOBAL(split, R, 600) GLOBAL(std, R, 600) GLOBAL(tim, R, 600) GLOBAL(verge, B, 600)
#undef GLOBAL
    instance("grail", cppsort::grail_sort, cppsort::grail_sorter<>{}, 600); category<R, cppsort::grail_sorter<>>("grail");
    instance("wiki", cppsort::wiki_sort, cppsort::wiki_sorter<>{}, 600); category<R, cppsort::wiki_sorter<>>("wiki");
#define HEAP(d) instance("d_ary_heap<" #d ">", cppsort::d_ary_heap_sort<d>, cppsort::d_ary_heap_sorter<d>{}, 600); category<R, cppsort::d_ary_heap_sorter<d>>("d_ary_heap" #d);
    HEAP(2) HEAP(3) HEAP(4) HEAP(5) HEAP(9)
#undef HEAP
    category<F, cppsort::default_sorter>("default"); category<F, cppsort::counting_sorter>("counting"); category<R, cppsort::ska_sorter>("ska"); category<R, cppsort::spread_sorter>("spread");
    category<R, cppsort::integer_spread_sorter>("integer_spread"); category<R, cppsort::float_spread_sorter>("float_spread"); category<R, cppsort::string_spread_sorter>("string_spread");
}

#elif PART == 2
//--- type-specific sorters
template<typename V> struct rec { V key; int id; const V& get() const { return key; } };
template<typename V> static V make_key(rng& g, V*) { return static_cast<V>(g.below(3) ? g.next() % 1000 : g.next()); }
static float make_key(rng& g, float*) { return (float)(long long)(g.next() % 2000001) / 64.f - 15000.f; }
static double make_key(rng& g, double*) { return (double)(long long)g.next() / (double)(1ull << g.below(60)); }
static std::string make_key(rng& g, std::string*) { std::string r; std::size_t n = g.below(14); for (std::size_t i = 0; i < n; ++i) r += (char)(g.below(5) ? "ab"[g.below(2)] : (char)g.below(256)); return r; }
static bool make_key(rng& g, bool*) { return g.below(2); }
template<typename V> static std::vector<V> keys(rng& g, std::size_t n) { std::vector<V> v; for (std::size_t i = 0; i < n; ++i) v.push_back(make_key(g, static_cast<V*>(nullptr))); return v; }
template<typename V> struct view { V* b; V* e; V* begin() const { return b; } V* end() const { return e; } };
template<typename V> static std::enable_if_t<!std::is_integral<V>::value> shrink(std::vector<V>&) {}
template<typename V> static std::enable_if_t<std::is_integral<V>::value> shrink(std::vector<V>& v) { for (auto& k: v) k = static_cast<V>(k % 100); }
enum : int { greater_too = 1, projects = 2, forward_too = 4 };
template<bool B> using flag = std::integral_constant<bool, B>;
template<typename V, typename G> static void greater_forms(const G& s, const std::vector<V>& in, std::true_type) {
    auto expect = in; std::sort(expect.begin(), expect.end(), std::greater<>{});
    auto check = [&](const char* what, auto f) { auto v = in; f(v); event("typed_calls"); harness_scope hs; if (v != expect) bad(std::string("not in descending order: ") + what); };
    check("v", [&](auto& v) { s(v, std::greater<>{}); });
    check("iterators", [&](auto& v) { s(v.begin(), v.end(), std::greater<>{}); });
    check("rvalue", [&](auto& v) { s(view<V>{ v.data(), v.data() + v.size() }, std::greater<>{}); });
    check("sort", [&](auto& v) { cppsort::sort(s, v, std::greater<>{}); });
    check("function pointer", [&](auto& v) { void (*f)(std::vector<V>&, std::greater<>) = s; f(v, std::greater<>{}); });
#if __cplusplus >= 202002L
    check("ranges::greater", [&](auto& v) { s(v, std::ranges::greater{}); });
    check("iterators, ranges::greater", [&](auto& v) { s(v.begin(), v.end(), std::ranges::greater{}); });
#endif
}
template<typename V, typename G> static void greater_forms(const G&, const std::vector<V>&, std::false_type) {
    fact("accepts std::greater<>", !cppsort::is_comparison_sorter_v<G, std::vector<V>, std::greater<>> && !cppsort::is_comparison_sorter_iterator_v<G, V*, std::greater<>>);
}
template<typename V, typename G> static void projection_forms(const G& s, const std::vector<V>& in, std::true_type) {
    using R = rec<V>; using VR = std::vector<R>;
    VR recs; for (std::size_t i = 0; i < in.size(); ++i) recs.push_back({ in[i], (int)i });
    auto check = [&](const char* what, auto f) {
        VR v = recs; f(v); event("typed_calls"); harness_scope hs; std::vector<char> seen(recs.size());
        for (std::size_t i = 0; i < v.size(); ++i) {
            if (v[i].id < 0 || (std::size_t)v[i].id >= recs.size() || seen[(std::size_t)v[i].id]++ || !(recs[(std::size_t)v[i].id].key == v[i].key)) { bad(std::string("not a permutation: ") + what); return; }
            if (i && v[i].key < v[i - 1].key) { bad(std::string("not in ascending order: ") + what); return; }
        }
    };
    static_assert(cppsort::is_projection_sorter_v<G, VR, V R::*> && cppsort::is_projection_sorter_iterator_v<G, R*, V R::*> && cppsort::is_comparison_projection_sorter_v<G, VR, std::less<>, V R::*>, "");
    check("v, member", [&](VR& v) { s(v, &R::key); });
    check("iterators, member", [&](VR& v) { s(v.begin(), v.end(), &R::key); });
    check("v, member function", [&](VR& v) { s(v, &R::get); });
    check("iterators, lambda", [&](VR& v) { s(v.begin(), v.end(), [](const R& r) { return r.key; }); });
    check("v, less, member", [&](VR& v) { s(v, std::less<>{}, &R::key); });
    check("iterators, less, member", [&](VR& v) { s(v.begin(), v.end(), std::less<>{}, &R::key); });
    check("sort, v, member", [&](VR& v) { cppsort::sort(s, v, &R::key); });
    check("sort, iterators, less, member", [&](VR& v) { cppsort::sort(s, v.begin(), v.end(), std::less<>{}, &R::key); });
    check("rvalue, member", [&](VR& v) { s(view<R>{ v.data(), v.data() + v.size() }, &R::key); });
    check("function pointer", [&](VR& v) { void (*f)(VR&, V R::*) = s; f(v, &R::key); });
    check("deque", [&](VR& v) { std::deque<R> d(v.begin(), v.end()); s(d, &R::key); std::copy(d.begin(), d.end(), v.begin()); });
}
template<typename V, typename G> static void projection_forms(const G&, const std::vector<V>&, std::false_type) {
    fact("accepts projections of non-keys", !cppsort::is_projection_sorter_v<G, std::vector<rec<V>>, V rec<V>::*> && !cppsort::is_sorter_v<G, std::vector<rec<V>>>);
}
template<typename V, typename G> static void list_forms(const G& s, const std::vector<V>& in, std::true_type) {
    auto expect = in; std::sort(expect.begin(), expect.end());
    std::list<V> l(in.begin(), in.end()); s(l); event("typed_calls"); { harness_scope hs; if (!std::equal(l.begin(), l.end(), expect.begin())) bad("list not sorted"); }
    std::forward_list<V> f(in.begin(), in.end()); s(f.begin(), f.end()); event("typed_calls"); { harness_scope hs; if (!std::equal(f.begin(), f.end(), expect.begin())) bad("forward_list not sorted"); }
}
template<typename V, typename G> static void list_forms(const G&, const std::vector<V>&, std::false_type) {}
template<int Flags, typename V, typename G> static void typed(const char* name, const char* type, const G& s) {
    rng g(mix(ctx().seed * 19 + hash_str(name) + hash_str(type)));
    static_assert(cppsort::is_sorter_v<G, std::vector<V>> && cppsort::is_sorter_iterator_v<G, V*> && cppsort::is_comparison_sorter_v<G, std::vector<V>, std::less<>>, "");
    where = std::string(name) + " of " + type;
    fact("accepts other comparisons", !cppsort::is_comparison_sorter_v<G, std::vector<V>, bool(*)(const V&, const V&)> && !cppsort::is_comparison_sorter_iterator_v<G, V*, bool(*)(const V&, const V&)>);
    fact("accepts std::greater_equal<>", !cppsort::is_comparison_sorter_v<G, std::vector<V>, std::greater_equal<>>);
    for (int i = 0; i < count(10, 120); ++i) {
        // counting_sorter allocates as much as the range of values
        auto in = keys<V>(g, i < 3 ? g.below(4) : g.below(i % 3 ? 3000 : 80)); if (std::string(name) == "counting") shrink(in);
        std::string label = "C16|typed|" + std::string(name) + "|" + type + "|" + std::to_string(i);
        if (!begin_case(label)) continue;
        where = std::string(name) + " of " + type;
        auto expect = in; std::sort(expect.begin(), expect.end());
        auto check = [&](const char* what, auto f) { auto v = in; f(v); event("typed_calls"); harness_scope hs; if (v != expect) bad(std::string("not in ascending order: ") + what); };
        check("v", [&](auto& v) { s(v); });
        check("iterators", [&](auto& v) { s(v.begin(), v.end()); });
        check("pointers", [&](auto& v) { s(v.data(), v.data() + v.size()); });
        check("rvalue", [&](auto& v) { s(view<V>{ v.data(), v.data() + v.size() }); });
        check("v, less", [&](auto& v) { s(v, std::less<>{}); });
        check("iterators, less", [&](auto& v) { s(v.begin(), v.end(), std::less<>{}); });
        check("v, identity", [&](auto& v) { s(v, cu::identity{}); });
        check("iterators, identity", [&](auto& v) { s(v.begin(), v.end(), cu::identity{}); });
        check("v, less, identity", [&](auto& v) { s(v, std::less<>{}, cu::identity{}); });
        check("iterators, less, identity", [&](auto& v) { s(v.begin(), v.end(), std::less<>{}, cu::identity{}); });
        check("sort", [&](auto& v) { cppsort::sort(s, v); });
        check("sort, iterators", [&](auto& v) { cppsort::sort(s, v.begin(), v.end()); });
        check("sort, less", [&](auto& v) { cppsort::sort(s, v, std::less<>{}); });
        check("sort, less, identity", [&](auto& v) { cppsort::sort(s, v.begin(), v.end(), std::less<>{}, cu::identity{}); });
        check("function pointer", [&](auto& v) { void (*f)(std::vector<V>&) = s; f(v); });
        check("function pointer, iterators", [&](auto& v) { void (*f)(V*, V*) = s; f(v.data(), v.data() + v.size()); });
        check("function pointer, less", [&](auto& v) { void (*f)(std::vector<V>&, std::less<>) = s; f(v, std::less<>{}); });
        check("deque", [&](auto& v) { std::deque<V> d(v.begin(), v.end()); s(d); std::copy(d.begin(), d.end(), v.begin()); });
        greater_forms<V>(s, in, flag<(Flags & greater_too) != 0>()); projection_forms<V>(s, in, flag<(Flags & projects) != 0>()); list_forms<V>(s, in, flag<(Flags & forward_too) != 0>());
        count_case(hash_str(label), in.size() > 1);
    }
    event("typed_sorters");
}
template<typename S, typename V> static void rejects(const char* what) {
    where = what;
    fact("accepted although not documented", !cppsort::is_sorter_v<S, std::vector<V>> && !cppsort::is_sorter_iterator_v<S, V*> && !cppsort::is_projection_sorter_v<S, std::vector<rec<V>>, V rec<V>::*> && !cppsort::is_projection_sorter_iterator_v<S, rec<V>*, V rec<V>::*>);
    event("rejections_judged");
}
struct blob {};
static void typed_sorters() {
    using namespace cppsort;
#define T(flags, name, V) typed<flags, V>(#name, #V, name##_sort); typed<flags, V>(#name, #V, name##_sorter{});
    T(greater_too | forward_too, counting, int) T(greater_too | forward_too, counting, unsigned char) T(greater_too | forward_too, counting, long long) T(greater_too | forward_too, counting, unsigned short)
    T(projects, ska, int) T(projects, ska, unsigned long long) T(projects, ska, signed char) T(projects, ska, float) T(projects, ska, double) T(projects, ska, std::string) T(projects, ska, short)
    T(projects, integer_spread, int) T(projects, integer_spread, unsigned long long) T(projects, integer_spread, short) T(projects, float_spread, float) T(projects, float_spread, double)
    T(greater_too | projects, string_spread, std::string)
    T(projects, spread, int) T(projects, spread, float) T(projects, spread, double) T(projects, spread, unsigned) T(greater_too | projects, spread, std::string)
#undef T
    rejects<counting_sorter, float>("counting_sorter of float"); rejects<counting_sorter, std::string>("counting_sorter of std::string"); rejects<counting_sorter, blob>("counting_sorter of blob");
    rejects<integer_spread_sorter, float>("integer_spread_sorter of float"); rejects<integer_spread_sorter, std::string>("integer_spread_sorter of std::string"); rejects<integer_spread_sorter, blob>("integer_spread_sorter of blob");
    rejects<float_spread_sorter, int>("float_spread_sorter of int"); rejects<float_spread_sorter, std::string>("float_spread_sorter of std::string"); rejects<float_spread_sorter, long double>("float_spread_sorter of long double");
    rejects<string_spread_sorter, int>("string_spread_sorter of int"); rejects<string_spread_sorter, double>("string_spread_sorter of double"); rejects<string_spread_sorter, std::vector<char>>("string_spread_sorter of std::vector<char>"); rejects<string_spread_sorter, std::wstring>("string_spread_sorter of a 4 byte std::wstring");
    rejects<spread_sorter, blob>("spread_sorter of blob"); rejects<spread_sorter, long double>("spread_sorter of long double"); rejects<ska_sorter, blob>("ska_sorter of blob");
#if __cplusplus > 201402L
    using sv = std::string_view; where = "string_spread_sorter of std::string_view";
    rng g(ctx().seed + 5);
    for (int i = 0; i < count(10, 100); ++i) {
        auto strings = keys<std::string>(g, g.below(900)); std::vector<sv> v(strings.begin(), strings.end()), w = v, x = v; auto expect = v; std::sort(expect.begin(), expect.end());
        if (!begin_case("C16|typed|string_view|" + std::to_string(i))) continue;
        string_spread_sort(v); spread_sort(w.begin(), w.end()); string_spread_sort(x, std::greater<>{}); std::reverse(x.begin(), x.end()); event("typed_calls", 3);
        harness_scope hs; if (v != expect || w != expect || x != expect) bad("not in order");
        count_case((std::uint64_t)i * 77 + 5, true);
    }
#endif
}

#elif PART == 3
//--- overloads without a sorter
template<typename C, typename F> static void plain(const char* what, const std::vector<E>& in, std::size_t n, bool stable, int key, F f) {   // key 0 v, 1 -w, 2 w
    C c = [&] { C t{}; return t; }(); f(c, 0); auto k = [&](const E& e) { return key == 0 ? e.v : key == 1 ? -e.w : e.w; };
    event("calls_without_sorter"); harness_scope hs; const E* prev = nullptr; std::vector<char> seen(in.size()); std::size_t m = 0;
    for (auto& e: c) {
        if (e.id < 0 || (std::size_t)e.id >= in.size() || seen[(std::size_t)e.id]++ || in[(std::size_t)e.id].v != e.v || in[(std::size_t)e.id].w != e.w) { bad(std::string("not a permutation: ") + what); return; }
        if (prev && k(*prev) > k(e)) { bad(std::string("not in order: ") + what); return; }
        if (prev && stable && k(*prev) == k(e) && prev->id > e.id) { bad(std::string("not stable: ") + what); return; }
        prev = &e; ++m;
    }
    if (m != n) bad(std::string("not a permutation: ") + what);
}
template<typename C> static void fill(C& c, const std::vector<E>& in) { c = C(in.begin(), in.end()); }
template<std::size_t N> static void fill(std::array<E, N>& c, const std::vector<E>& in) { for (std::size_t i = 0; i < N; ++i) c[i] = in[i]; }
template<typename C> static void without(const char* name, const std::vector<E>& in, std::size_t n) {
    where = std::string("without sorter, ") + name;
#define FORM(key, ...) plain<C>("sort(" #__VA_ARGS__ ")", in, n, false, key, [&](C& c, int) { fill(c, in); auto b = c.begin(); auto e = c.end(); (void)b; (void)e; cppsort::sort(__VA_ARGS__); }); \
                       plain<C>("stable_sort(" #__VA_ARGS__ ")", in, n, true, key, [&](C& c, int) { fill(c, in); auto b = c.begin(); auto e = c.end(); (void)b; (void)e; cppsort::stable_sort(__VA_ARGS__); });
    FORM(0, c) FORM(0, b, e) FORM(1, c, desc_w) FORM(1, b, e, desc_w) FORM(2, c, &E::w) FORM(2, b, e, &E::w) FORM(1, c, std::greater<>{}, &E::w) FORM(1, b, e, std::greater<>{}, &E::w)
    FORM(2, c, &E::get_w) FORM(2, b, e, proj_w) FORM(1, c, &int_desc, &proj_w) FORM(1, b, e, &int_desc, &E::get_w) FORM(0, c, std::less<>{}) FORM(0, b, e, cu::identity{}) FORM(0, c, std::less<>{}, cu::identity{})
    FORM(1, b, e, [](const E& x, const E& y) { return x.w > y.w; }) FORM(2, c, [](const E& x) { return x.w; }) FORM(1, c, [](const E& x) { return -x.w; }) FORM(2, b, e, [](int x, int y) { return x < y; }, [](E& x) -> int& { return x.w; })
#undef FORM
}
template<typename I> struct iview { I b, e; I begin() const { return b; } I end() const { return e; } };
static void defaults() {
    rng g(mix(ctx().seed * 23 + 1));
    for (int i = 0; i < count(40, 600); ++i) {
        std::vector<E> in = make(g, i % 4 == 0 ? 20 : 700); std::string label = "C16|without|" + std::to_string(i);
        if (!begin_case(label)) continue;
        without<std::vector<E>>("vector", in, in.size()); without<std::deque<E>>("deque", in, in.size()); without<std::list<E>>("list", in, in.size()); without<std::forward_list<E>>("forward_list", in, in.size());
        if (in.size() >= 13) {
            without<std::array<E, 1>>("array<1>", in, 1); without<std::array<E, 2>>("array<2>", in, 2); without<std::array<E, 7>>("array<7>", in, 7); without<std::array<E, 13>>("array<13>", in, 13);
        }
        if (in.size() >= 40) {
            without<std::array<E, 40>>("array<40>", in, 40);
            E a[14], b[33]; auto reset = [&] { std::copy_n(in.begin(), 14, a); std::copy_n(in.begin(), 33, b); }; where = "without sorter, C array";
            reset(); cppsort::sort(a); cppsort::stable_sort(b); { harness_scope hs; if (!std::is_sorted(a, a + 14) || !std::is_sorted(b, b + 33, [](const E& x, const E& y) { return x.v != y.v ? x.v < y.v : x.id < y.id; })) bad("not in order"); }
            reset(); cppsort::sort(b, desc_w); cppsort::stable_sort(a, &E::w); { harness_scope hs; if (!std::is_sorted(b, b + 33, desc_w) || !std::is_sorted(a, a + 14, [](const E& x, const E& y) { return x.w != y.w ? x.w < y.w : x.id < y.id; })) bad("not in order, func"); }
            reset(); cppsort::sort(a, std::greater<>{}, &E::w); cppsort::stable_sort(b, std::greater<>{}, &E::w); { harness_scope hs; if (!std::is_sorted(a, a + 14, desc_w) || !std::is_sorted(b, b + 33, [](const E& x, const E& y) { return x.w != y.w ? x.w > y.w : x.id < y.id; })) bad("not in order, both"); }
            event("calls_without_sorter", 6);
        }
        where = "without sorter, temporary"; auto v = in; using I = std::vector<E>::iterator; auto mk = [&] { return iview<I>{ v.begin(), v.end() }; };
        cppsort::sort(mk()); { harness_scope hs; if (!std::is_sorted(v.begin(), v.end())) bad("not in order"); }
        cppsort::sort(mk(), desc_w); { harness_scope hs; if (!std::is_sorted(v.begin(), v.end(), desc_w)) bad("not in order, compare"); }
        cppsort::stable_sort(mk(), &E::v); { harness_scope hs; if (!std::is_sorted(v.begin(), v.end())) bad("not in order, projection"); }
        cppsort::stable_sort(mk(), std::greater<>{}, &E::w); { harness_scope hs; if (!std::is_sorted(v.begin(), v.end(), desc_w)) bad("not in order, both"); }
        event("calls_without_sorter", 4);
        count_case(hash_str(label), in.size() > 1);
    }
}

#else
//--- fixed-size sorters
template<typename S, typename A, typename C> static void on_iterators(const S& s, C check, std::true_type) {
    using I = typename A::iterator;
    static_assert(cppsort::is_comparison_projection_sorter_iterator_v<S, I, std::greater<>, int E::*>, "");
    check("iterators", 0, [&](A& a) { s(a.begin(), a.end()); });
    check("iterators, compare", 1, [&](A& a) { s(a.begin(), a.end(), desc_w); });
    check("iterators, projection", 2, [&](A& a) { s(a.begin(), a.end(), &E::get_w); });
    check("iterators, both", 1, [&](A& a) { s(a.begin(), a.end(), int_desc, proj_w); });
    check("sort, iterators, both", 1, [&](A& a) { cppsort::sort(s, a.begin(), a.end(), &int_desc, &proj_w); });
    check("function pointer, iterators", 1, [&](A& a) { void (*f)(I, I, bool(*)(const E&, const E&)) = s; f(a.begin(), a.end(), desc_w); });
}
template<typename S, typename A, typename C> static void on_iterators(const S&, C, std::false_type) { fact("small_array_adapter accepts iterators", !cppsort::is_sorter_iterator_v<S, typename A::iterator>); }
template<bool Iterators, typename S, std::size_t N> static void fixed(const char* name, const S& s) {
    where = std::string(name) + "<" + std::to_string(N) + ">"; rng g(mix(ctx().seed * 29 + hash_str(name) + N));
    using A = std::array<E, N>;
    static_assert(cppsort::is_sorter_v<S, A> && cppsort::is_projection_sorter_v<S, A, int E::*> && cppsort::is_comparison_sorter_v<S, A, bool(*)(const E&, const E&)>, "");
    for (int i = 0; i < count(4, 60); ++i) {
        std::vector<E> in; int range = g.below(2) ? 3 : 1000; for (std::size_t j = 0; j < N; ++j) { E e; e.v = (int)g.below((std::uint64_t)range); e.w = (int)g.below((std::uint64_t)range); e.id = (int)j; in.push_back(e); }
        std::string label = "C16|fixed|" + where + "|" + std::to_string(i);
        if (!begin_case(label)) continue;
        A base{}; for (std::size_t j = 0; j < N; ++j) base[j] = in[j];
        auto check = [&](const char* what, int key, auto f) {
            A a = base; f(a); event("fixed_calls"); harness_scope hs; std::vector<char> seen(N); auto k = [&](const E& e) { return key == 0 ? e.v : key == 1 ? -e.w : e.w; };
            for (std::size_t j = 0; j < N; ++j) {
                if (a[j].id < 0 || (std::size_t)a[j].id >= N || seen[(std::size_t)a[j].id]++) { bad(std::string("not a permutation: ") + what); return; }
                if (j && k(a[j - 1]) > k(a[j])) { bad(std::string("not in order: ") + what); return; }
            }
        };
        check("v", 0, [&](A& a) { s(a); });
        check("v, compare", 1, [&](A& a) { s(a, desc_w); });
        check("v, projection", 2, [&](A& a) { s(a, &E::w); });
        check("v, both", 1, [&](A& a) { s(a, std::greater<>{}, &E::w); });
        check("v, less, identity", 0, [&](A& a) { s(a, std::less<>{}, cu::identity{}); });
        check("function pointer", 1, [&](A& a) { void (*f)(A&, bool(*)(const E&, const E&)) = s; f(a, desc_w); });
        on_iterators<S, A>(s, check, std::integral_constant<bool, Iterators>());
        check("sort, v, projection", 2, [&](A& a) { cppsort::sort(s, a, &proj_w); });
        count_case(hash_str(label), N > 1);
    }
    event("fixed_sorters");
}
template<template<std::size_t> class S, std::size_t... N> static void family(const char* name, std::index_sequence<N...>) { int x[] = { (fixed<true, S<N>, N>(name, S<N>{}), 0)... }; (void)x; }
template<template<std::size_t> class S, std::size_t... N> static void arrays(const char* name, std::index_sequence<N...>) { int x[] = { (fixed<false, cppsort::small_array_adapter<S>, N>(name, cppsort::small_array_adapter<S>{}), 0)... }; (void)x; }
static void fixed_sorters() {
    family<cppsort::low_comparisons_sorter>("low_comparisons", std::make_index_sequence<14>()); family<cppsort::low_moves_sorter>("low_moves", std::make_index_sequence<6>());
    family<cppsort::sorting_network_sorter>("sorting_network", std::make_index_sequence<33>());
    family<cppsort::merge_exchange_network_sorter>("merge_exchange_network", std::index_sequence<0, 1, 2, 5, 8, 13, 21, 33>()); family<cppsort::odd_even_merge_network_sorter>("odd_even_merge_network", std::index_sequence<0, 1, 2, 4, 8, 16, 32>());
    arrays<cppsort::low_comparisons_sorter>("small_array<low_comparisons>", std::make_index_sequence<14>()); arrays<cppsort::sorting_network_sorter>("small_array<sorting_network>", std::index_sequence<0, 1, 3, 9, 17, 32>());
}
#endif
int main(int argc, char** argv) {
    init(argc, argv);
#if PART == 1
    instances(); 
#elif PART == 2
    typed_sorters();
#elif PART == 3
    defaults();
#else
    fixed_sorters();
#endif
    return finish();
}
