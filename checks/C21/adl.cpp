// C21: container_aware_adapter calls the algorithm found by ADL, otherwise the adapted sorter.
#include "vh.h"
#include "vh_elem.h"
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/sorter_facade.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/utility/functional.h>
#include <list>
#include <vector>

using namespace vh;

enum route { r_none = 1, r_cmp = 2, r_proj = 4, r_cmpproj = 8, r_sorter = 16, r_sorter_it = 32 };
static int taken; static int sorter_id;

// Containers of a user whose namespace has the sort overloads of the bit set Flags, for sorters with an id
namespace user {
    template<int Flags> struct box: std::vector<int> { using std::vector<int>::vector; };
    template<int Flags> struct lbox: std::list<int> { using std::list<int>::list; };
    template<typename C> struct flags_of;
    template<int F> struct flags_of<box<F>> { enum { value = F }; };
    template<int F> struct flags_of<lbox<F>> { enum { value = F }; };

    template<typename C, typename Cmp, typename Proj>
    void do_sort(C& c, Cmp cmp, Proj proj) {                // plain insertion sort on values
        auto&& f = cppsort::utility::as_function(cmp); auto&& p = cppsort::utility::as_function(proj);
        std::vector<int> v(c.begin(), c.end());
        for (std::size_t i = 1; i < v.size(); ++i) for (std::size_t j = i; j > 0 && f(p(v[j]), p(v[j - 1])); --j) std::swap(v[j], v[j - 1]);
        std::copy(v.begin(), v.end(), c.begin());
    }
    template<typename S, typename C> std::enable_if_t<(flags_of<C>::value & r_none) != 0, int> sort(S s, C& c) { taken |= r_none; sorter_id = s.id; do_sort(c, std::less<>{}, cppsort::utility::identity{}); return s.id * 10 + 1; }
    template<typename S, typename C, typename F>
    std::enable_if_t<(flags_of<C>::value & r_cmp) != 0 && cppsort::is_projection_v<cppsort::utility::identity, C, F>, int> sort(S s, C& c, F f) { taken |= r_cmp; sorter_id = s.id; do_sort(c, f, cppsort::utility::identity{}); return s.id * 10 + 2; }
    template<typename S, typename C, typename F, typename = void>
    std::enable_if_t<(flags_of<C>::value & r_proj) != 0 && cppsort::is_projection_v<F, C>, int> sort(S s, C& c, F f) { taken |= r_proj; sorter_id = s.id; do_sort(c, std::less<>{}, f); return s.id * 10 + 3; }
    template<typename S, typename C, typename F, typename P>
    std::enable_if_t<(flags_of<C>::value & r_cmpproj) != 0 && cppsort::is_projection_v<P, C, F>, int> sort(S s, C& c, F f, P p) { taken |= r_cmpproj; sorter_id = s.id; do_sort(c, f, p); return s.id * 10 + 4; }
}

// Stateful sorter that says it was called
struct mark_impl {
    int id = 0;
    template<typename It, typename Cmp = std::less<>, typename Proj = cppsort::utility::identity, typename = std::enable_if_t<cppsort::is_projection_iterator_v<Proj, It, Cmp>>>
    int operator()(It first, It last, Cmp cmp = {}, Proj proj = {}) const { taken |= r_sorter; sorter_id = id; cppsort::merge_sorter{}(first, last, cmp, proj); return id * 10 + 5; }
    using iterator_category = std::forward_iterator_tag; using is_always_stable = std::true_type;
};
struct mark_sorter: cppsort::sorter_facade<mark_impl> { mark_sorter() = default; explicit mark_sorter(int i) { this->id = i; } };

// What the adapter documents and does: the exact overload if there is one; a lone projection may become (less, projection) or a
// composed comparison; a comparison and a projection may become a composed comparison; otherwise the adapted sorter.
static int expected(int flags, int form) {
    switch (form) {
        case 0: return flags & r_none ? r_none : r_sorter;
        case 1: return flags & r_cmp ? r_cmp : r_sorter;
        case 2: return flags & r_proj ? r_proj : flags & r_cmpproj ? r_cmpproj : flags & r_cmp ? r_cmp : r_sorter;
        default: return flags & r_cmpproj ? r_cmpproj : flags & r_cmp ? r_cmp : r_sorter;
    }
}
static int result_of(int route, int id) { return id * 10 + (route == r_none ? 1 : route == r_cmp ? 2 : route == r_proj ? 3 : route == r_cmpproj ? 4 : 5); }

struct negate_fn { int operator()(int x) const { return -x; } };
struct mod_less { bool operator()(int a, int b) const { return a % 7 < b % 7; } };

template<typename C, typename Call, typename Less>
void evaluate(const std::string& key, const input& in, int route, int id, Call call, Less less) {
    if (!begin_case(key + "|" + in.label())) return;
    mon().key = key;
    count_case(hash_str(key) ^ in.hash(), in.size() > 1);
    C c; for (int k: in.keys) c.push_back(k);
    taken = 0; sorter_id = -1;
    int r = call(c);
    if (taken != route) mon().bad("wrong-algorithm", "took " + std::to_string(taken) + " instead of " + std::to_string(route));
    if (sorter_id != id) mon().bad("wrong-sorter", std::to_string(sorter_id));
    if (r != result_of(route, id)) mon().bad("wrong-result", std::to_string(r));
    auto want = in.keys; std::stable_sort(want.begin(), want.end(), less);
    if (!std::equal(c.begin(), c.end(), want.begin(), want.end())) mon().bad("order", show(in.keys));
    event(("dispatched_to_" + std::to_string(taken)).c_str());
}

template<typename C>
void container(const std::string& cname, const input& in, int id) {
    constexpr int F = user::flags_of<C>::value;
    cppsort::container_aware_adapter<mark_sorter> s{mark_sorter(id)};
    std::string base = "C21|adl|" + cname + "<" + std::to_string(F) + ">|";
    auto ident = [](int a, int b) { return a < b; };
    auto gt = [](int a, int b) { return b < a; };
    evaluate<C>(base + "c", in, expected(F, 0), id, [&](C& c) { return s(c); }, ident);
    evaluate<C>(base + "c,greater", in, expected(F, 1), id, [&](C& c) { return s(c, std::greater<>{}); }, gt);
    evaluate<C>(base + "c,mod", in, expected(F, 1), id, [&](C& c) { return s(c, mod_less{}); }, mod_less{});
    evaluate<C>(base + "c,proj", in, expected(F, 2), id, [&](C& c) { return s(c, negate_fn{}); }, gt);
    evaluate<C>(base + "c,mod,proj", in, expected(F, 3), id, [&](C& c) { return s(c, mod_less{}, negate_fn{}); }, [](int a, int b) { return (-a) % 7 < (-b) % 7; });
    evaluate<C>(base + "it", in, r_sorter, id, [&](C& c) { return s(c.begin(), c.end()); }, ident);
    evaluate<C>(base + "lvalue it", in, r_sorter, id, [&](C& c) { auto b = c.begin(), e = c.end(); return s(b, e); }, ident);
    evaluate<C>(base + "it,greater", in, r_sorter, id, [&](C& c) { return s(c.begin(), c.end(), std::greater<>{}); }, gt);
    evaluate<C>(base + "it,proj", in, r_sorter, id, [&](C& c) { return s(c.begin(), c.end(), negate_fn{}); }, gt);
    evaluate<C>(base + "it,greater,proj", in, r_sorter, id, [&](C& c) { return s(c.begin(), c.end(), std::greater<>{}, negate_fn{}); }, ident);
    if (s.get().id != id) { mon().key = base + "get"; mon().bad("stored-sorter-changed"); }
}

template<int F> void flags(const input& in, int id) {
    container<user::box<F>>("vector", in, id);
    container<user::lbox<F>>("list", in, id);
}

// Collections without any sort overload: the adapted sorter, with every sorter of the library
template<typename C, typename S>
void fallback(const char* name, const input& in) {
    std::string key = std::string("C21|fallback|") + name;
    if (!begin_case(key + "|" + in.label())) return;
    mon().key = key; count_case(hash_str(key) ^ in.hash(), in.size() > 1);
    C c(in.keys.begin(), in.keys.end()); auto want = in.keys; std::sort(want.begin(), want.end());
    cppsort::container_aware_adapter<S> s{};
    s(c); if (!std::equal(c.begin(), c.end(), want.begin(), want.end())) mon().bad("order", show(in.keys));
    s(c, std::greater<>{}); if (!std::equal(c.begin(), c.end(), want.rbegin(), want.rend())) mon().bad("order-greater", show(in.keys));
    s(c.begin(), c.end()); if (!std::equal(c.begin(), c.end(), want.begin(), want.end())) mon().bad("order-it", show(in.keys));
    s(c, negate_fn{}); if (!std::equal(c.begin(), c.end(), want.rbegin(), want.rend())) mon().bad("order-proj", show(in.keys));
    s(c.begin(), c.end(), std::greater<>{}, negate_fn{}); if (!std::equal(c.begin(), c.end(), want.begin(), want.end())) mon().bad("order-it-greater-proj", show(in.keys));
    event("fallbacks");
}

int main(int argc, char** argv) {
    init(argc, argv);
    using namespace cppsort;
    profile p; p.exhaustive = 4; p.dense_to = 20; p.dense_patterns = 2;
    int n = 0;
    for_each_input(p, 21, [&](const input& in) {
        int id = 1 + n++ % 9;
        flags<0>(in, id); flags<1>(in, id); flags<2>(in, id); flags<3>(in, id); flags<4>(in, id); flags<5>(in, id); flags<6>(in, id); flags<7>(in, id);
        flags<8>(in, id); flags<9>(in, id); flags<10>(in, id); flags<11>(in, id); flags<12>(in, id); flags<13>(in, id); flags<14>(in, id); flags<15>(in, id);
        fallback<std::vector<int>, insertion_sorter>("vector,insertion", in); fallback<std::vector<int>, merge_sorter>("vector,merge", in);
        fallback<std::vector<int>, mel_sorter>("vector,mel", in); fallback<std::vector<int>, selection_sorter>("vector,selection", in);
        fallback<std::vector<int>, heap_sorter>("vector,heap", in); fallback<std::list<int>, quick_sorter>("list,quick", in);
        fallback<std::list<int>, quick_merge_sorter>("list,quick_merge", in); fallback<std::vector<int>, pdq_sorter>("vector,pdq", in);
    });
    return finish();
}
