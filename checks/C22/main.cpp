// C22: operation counts of indirect_adapter, schwartz_adapter and out_of_place_adapter.
#include "vh.h"
#include "vh_alloc.h"
#include "vh_elem.h"
#include "vh_sorters.h"
#include <cpp-sort/adapters/indirect_adapter.h>
#include <cpp-sort/adapters/out_of_place_adapter.h>
#include <cpp-sort/adapters/schwartz_adapter.h>
#include <cpp-sort/sorter_facade.h>
#include <memory>

using namespace vh;
#if PART == 6 || PART == 7 || PART == 9
using E = elem_dc;
#else
using E = elem;
#endif

// The adapted sorter, watched: when it starts and ends, on what, and with a result of its own
struct watch { std::uint64_t calls = 0, moves_in = 0, moves_out = 0, size = 0, compares_out = 0; bool ordered_in = true; const void* buffer = nullptr; bool returned = false; };
static watch w;
template<typename It> auto ids_in_order(It first, It last, int) -> decltype((*first).id, bool()) {
    bool ok = true; int i = 0; for (; first != last; ++first, ++i) ok = ok && (*first).alive() && (*first).id == i;
    return ok;
}
template<typename It> bool ids_in_order(It, It, long) { return true; }
template<typename It> auto buffer_address(It it, int) -> decltype((*it).id, (const void*)nullptr) { return std::addressof(*it); }
template<typename It> const void* buffer_address(It, long) { return nullptr; }

template<typename S>
struct spy_impl {
    int token = 0;
    template<typename It, typename Cmp = std::less<>, typename Proj = cppsort::utility::identity,
             typename = std::enable_if_t<cppsort::is_projection_iterator_v<Proj, It, Cmp>>>
    int operator()(It first, It last, Cmp cmp = {}, Proj proj = {}) const {
        ++w.calls; w.moves_in = mon().moves; w.size = (std::uint64_t)std::distance(first, last);
        bool in = mon().in_call; mon().in_call = false;
        w.ordered_in = ids_in_order(first, last, 0);
        if (first != last) w.buffer = buffer_address(first, 0);
        mon().in_call = in;
        S{}(first, last, cmp, proj);
        w.moves_out = mon().moves; w.compares_out = mon().compares; w.returned = true;
        return token + (int)w.calls;
    }
    using iterator_category = cppsort::iterator_category<S>;
    using is_always_stable = std::false_type;
};
template<typename S> struct spy: cppsort::sorter_facade<spy_impl<S>> { spy() = default; explicit spy(int t) { this->token = t; } };

// A call made by a destructor while an exception is on its way
template<typename F>
struct calls_on_exit { F f; bool& ran_away; ~calls_on_exit() { try { f(); } catch (const runaway&) { ran_away = true; } } };
template<typename F> void while_unwinding(F f) {
    struct other {}; bool ran_away = false;
    try { calls_on_exit<F> c{ f, ran_away }; throw other(); } catch (const other&) {}
    if (ran_away) throw runaway();
}

static std::map<int, std::uint64_t> projected_ids;
struct proj_watch { template<bool D> int operator()(const elem_t<D>& e) const { tick_projection(); use_check(e, "projection"); { harness_scope hs; ++projected_ids[e.id]; } return e.key; } };
struct proj_watch_ref { template<bool D> const int& operator()(const elem_t<D>& e) const { tick_projection(); use_check(e, "projection"); { harness_scope hs; ++projected_ids[e.id]; } return e.key; } };
struct boxed { std::unique_ptr<int> p; friend bool operator<(const boxed& a, const boxed& b) { tick_compare(); return *a.p < *b.p; } };
struct proj_watch_box { template<bool D> std::shared_ptr<int> operator()(const elem_t<D>& e) const { tick_projection(); use_check(e, "projection"); harness_scope hs; ++projected_ids[e.id]; return std::make_shared<int>(e.key); } };
struct cmp_box { bool operator()(const std::shared_ptr<int>& a, const std::shared_ptr<int>& b) const { tick_compare(); if (!a || !b) { mon().bad("null-projection"); return false; } return *a < *b; } };

template<typename It> view<It> whole(arena<E>& a) { return { It(a.begin(), a.begin(), a.end()), It(a.end(), a.begin(), a.end()) }; }

struct outcome { std::uint64_t moves, projections, compares; bool thrown; };

template<typename Call, typename Judge>
void evaluate(const std::string& key, const input& in, bool desc, Call call, Judge judge) {
    auto& m = mon();
    if (!begin_case(key + "|" + in.label())) return;
    count_case(hash_str(key) ^ in.hash(), in.size() > 1 && !std::is_sorted(in.keys.begin(), in.keys.end()));
    m.key = key; m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
    w = watch(); projected_ids.clear();
    long long live0 = m.live;
    {
        arena<E> a(in.keys);
        m.in_call = true;
        try {
            if (in.hash() % 4 == 1) { event("calls_while_unwinding"); while_unwinding([&] { call(a); }); }
            else call(a);
        } catch (const runaway&) { m.in_call = false; m.bad("runaway", show(in.keys)); m.live = live0; return; }
        m.in_call = false;
        outcome o{ m.moves, m.projections, m.compares, false };
        if (judge_elems(a.begin(), in.size(), in.keys, desc)) judge(a, o);
        if (!a.guards_intact()) m.bad("outside-range", show(in.keys));
    }
    if (m.live != live0) { m.bad("object-balance"); m.live = live0; }
}

static void expect(std::uint64_t got, std::uint64_t want, const char* what, const input& in) {
    if (got != want) mon().bad(what, std::to_string(got) + " instead of " + std::to_string(want) + "; input " + show(in.keys));
}
#if __cplusplus >= 201703L && defined(__cpp_lib_uncaught_exceptions)
#define RESULT(expr, call_index) do { int r_ = (expr); if (r_ != 700 + (call_index)) mon().bad("wrong-result", std::to_string(r_)); else event("results_forwarded"); } while (0)
#else
#define RESULT(expr, call_index) do { expr; } while (0)
#endif

// indirect_adapter: each cycle of the permutation costs its length plus one
template<typename It, typename S>
void indirect(const std::string& base, const input& in, const S&) {
    cppsort::indirect_adapter<spy<S>> s{spy<S>(700)};
    auto judge = [&](arena<E>& a, outcome o) {
        std::size_t n = in.size(), displaced = 0, cycles = 0;
        std::vector<char> seen(n, 0);
        for (std::size_t i = 0; i < n; ++i) {
            if (seen[i] || (std::size_t)a.begin()[i].id == i) continue;
            ++cycles; std::size_t j = i;
            while (!seen[j]) { seen[j] = 1; ++displaced; j = (std::size_t)a.begin()[j].id; }
        }
        expect(o.moves, displaced + cycles, "moves-not-minimal", in);
        if (2 * o.moves > 3 * n) mon().bad("more-than-3n/2-moves", std::to_string(o.moves));
        if (w.moves_in || w.moves_out) mon().bad("moves-while-sorting-iterators", std::to_string(w.moves_out));
        expect(o.compares, w.compares_out, "comparisons-outside-the-sort", in);
        if (n > 1) { expect(w.calls, 1, "adapted-sorter-calls", in); expect(w.size, n, "adapted-sorter-size", in); }
        event("cycles_followed", cycles); event("elements_moved", o.moves); if (displaced < n && cycles) event("elements_left_in_place", n - displaced);
    };
    evaluate(base + "|it,cmp", in, false, [&](arena<E>& a) { auto v = whole<It>(a); RESULT(s(v.b, v.e, cmp_key{}), 1); }, judge);
    evaluate(base + "|iterable,desc,proj", in, true, [&](arena<E>& a) { auto v = whole<It>(a); RESULT(s(v, cmp_int_desc{}, proj_key{}), 1); }, judge);
}

// an exception while the iterators are sorted leaves the collection as it was
template<typename It, typename S>
void indirect_throw(const std::string& base, const input& in, const S&) {
    auto& m = mon();
    std::uint64_t total_c = 0, total_p = 0, allocs_ = 0;
    cppsort::indirect_adapter<S> s;
    {
        arena<E> a(in.keys); auto v = whole<It>(a); m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
        allocs().no_fault(); allocs().arm();
        try { s(v, cmp_int{}, proj_key{}); } catch (const runaway&) {}
        allocs().disarm(); allocs_ = allocs().calls;
        total_c = m.compares; total_p = m.projections;
    }
    rng r(in.hash() ^ hash_str(base));
    for (int kind = 0; kind < 3; ++kind) {
        std::uint64_t total = kind == 0 ? total_c : kind == 1 ? total_p : allocs_;
        // the allocations after the sort (the flags of the cycles) may fail while elements move in C++17 mode
        if (!total) continue;
        std::vector<std::uint64_t> ks{1, total, total / 2 + 1, 1 + r.below(total)};
        if (total <= 8) { ks.clear(); for (std::uint64_t k = 1; k <= total; ++k) ks.push_back(k); }
        for (auto k: ks) {
            std::string key = base + (kind == 0 ? "|throw-compare" : kind == 1 ? "|throw-projection" : "|throw-alloc");
            if (!begin_case(key + "|" + std::to_string(k) + "|" + in.label())) continue;
            count_case(hash_str(key) ^ in.hash() ^ k, true);
            m.key = key;
            arena<E> a(in.keys); auto v = whole<It>(a);
            m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
            if (kind == 0) m.throw_compare = k; if (kind == 1) m.throw_projection = k;
            bool thrown = false; m.in_call = true;
            if (kind == 2) { allocs().no_fault(); allocs().fail_at = k; allocs().arm(); }
            try { s(v, cmp_int{}, proj_key{}); } catch (const injected&) { thrown = true; } catch (const std::bad_alloc&) { thrown = true; } catch (const runaway&) { thrown = true; }
            if (kind == 2) { allocs().disarm(); allocs().no_fault(); }
            m.in_call = false; m.throw_compare = m.throw_projection = 0;
            if (kind != 2 && !thrown) { m.bad("exception-lost", std::to_string(k)); continue; }
            if (!thrown) { event("alloc_failures_survived"); judge_elems(a.begin(), in.size(), in.keys, false); continue; }
            if (m.moves) m.bad("moves-before-exception", std::to_string(m.moves));
            for (std::size_t i = 0; i < in.size(); ++i) if (!a.begin()[i].alive() || a.begin()[i].id != (int)i || a.begin()[i].key != in.keys[i]) { m.bad("collection-changed", "position " + std::to_string(i) + ", exception " + std::to_string(k) + " of " + std::to_string(total) + "; input " + show(in.keys)); break; }
            event("exceptions_with_original_state");
        }
    }
}

// out_of_place_adapter: n moves to a buffer in order, the adapted sort on the buffer, n moves back
template<typename It, typename S>
void out_of_place(const std::string& base, const input& in, const S&) {
    cppsort::out_of_place_adapter<spy<S>> s{spy<S>(700)};
    auto judge = [&](arena<E>& a, outcome o) {
        std::size_t n = in.size();
        expect(w.moves_in, n, "moves-to-the-buffer", in);
        expect(o.moves - w.moves_out, n, "moves-back", in);
        expect(w.calls, 1, "adapted-sorter-calls", in); expect(w.size, n, "adapted-sorter-size", in);
        expect(o.compares, w.compares_out, "comparisons-outside-the-sort", in);
        if (!w.ordered_in) mon().bad("buffer-order", "the buffer does not hold the elements in their original order");
        if (n && w.buffer >= (const void*)a.begin() && w.buffer < (const void*)a.end()) mon().bad("sorted-in-place");
        event("elements_buffered", n);
    };
    evaluate(base + "|it,cmp", in, false, [&](arena<E>& a) { auto v = whole<It>(a); RESULT(s(v.b, v.e, cmp_key{}), 1); }, judge);
    evaluate(base + "|iterable,desc,proj", in, true, [&](arena<E>& a) { auto v = whole<It>(a); RESULT(s(v, cmp_int_desc{}, proj_key{}), 1); }, judge);
    evaluate(base + "|iterable,cmp,projref", in, false, [&](arena<E>& a) { auto v = whole<It>(a); RESULT(s(v, cmp_int{}, proj_key_ref{}), 1); }, judge);
}

// schwartz_adapter: exactly one projection of each element
template<typename It, typename S>
void schwartz(const std::string& base, const input& in, const S&) {
    // pdq_sorter & co. move-assign elements to themselves; with associated values that is a move of a moved-from element out and back
    mon().lenient_move = true;
    struct restore { ~restore() { mon().lenient_move = false; } } r;
    cppsort::schwartz_adapter<spy<S>> s{spy<S>(700)};
    auto judge = [&](arena<E>&, outcome o) {
        std::size_t n = in.size();
        expect(o.projections, n, "projections", in);
        expect(projected_ids.size(), n, "projected-elements", in);
        for (auto& p: projected_ids) if (p.second != 1) { mon().bad("projected-again", "element " + std::to_string(p.first) + ", " + std::to_string(p.second) + " times"); break; }
        expect(w.calls, 1, "adapted-sorter-calls", in); expect(w.size, n, "adapted-sorter-size", in);
        event("elements_projected_once", n);
    };
#define SRESULT(expr) do { int r_ = (expr); if (r_ != 701) mon().bad("wrong-result", std::to_string(r_)); else event("results_forwarded"); } while (0)
    evaluate(base + "|it,cmp,proj", in, false, [&](arena<E>& a) { auto v = whole<It>(a); SRESULT(s(v.b, v.e, cmp_int{}, proj_watch{})); }, judge);
    evaluate(base + "|iterable,desc,projref", in, true, [&](arena<E>& a) { auto v = whole<It>(a); SRESULT(s(v, cmp_int_desc{}, proj_watch_ref{})); }, judge);
    evaluate(base + "|iterable,proj", in, false, [&](arena<E>& a) { auto v = whole<It>(a); SRESULT(s(v, proj_watch{})); }, judge);
    evaluate(base + "|it,cmp,projbox", in, false, [&](arena<E>& a) { auto v = whole<It>(a); SRESULT(s(v.b, v.e, cmp_box{}, proj_watch_box{})); }, judge);
    // nested: still once
    cppsort::schwartz_adapter<cppsort::schwartz_adapter<spy<S>>> s2{cppsort::schwartz_adapter<spy<S>>(spy<S>(700))};
    evaluate(base + "|nested,it,cmp,proj", in, false, [&](arena<E>& a) { auto v = whole<It>(a); SRESULT(s2(v.b, v.e, cmp_int{}, proj_watch{})); }, judge);
}

template<vh_cat C> struct cat_c {};
template<typename S, typename F> void iterators(cat_c<vh_ra>, F f) { f(chk_ra<E>(), "ra"); }
template<typename S, typename F> void iterators(cat_c<vh_bidi>, F f) { f(chk_bidi<E>(), "bidi"); f(chk_ra<E>(), "ra"); }
template<typename S, typename F> void iterators(cat_c<vh_fwd>, F f) { f(chk_fwd<E>(), "fwd"); f(chk_bidi<E>(), "bidi"); f(chk_ra<E>(), "ra"); }
template<typename S> struct with_schwartz: std::true_type {};
template<> struct with_schwartz<cppsort::std_sorter>: std::false_type {};
// their buffers need default-constructible values, which the associated values are not
template<typename B> struct with_schwartz<cppsort::grail_sorter<B>>: std::false_type {};
template<typename B> struct with_schwartz<cppsort::wiki_sorter<B>>: std::false_type {};
template<> struct with_schwartz<cppsort::grail_sorter<>>: std::true_type {};
template<> struct with_schwartz<vhs::wiki_fixed0>: std::true_type {};

template<typename S, typename Fwd>
void schwartz_forms(const char* name, const input& in, const S& s, Fwd cats, std::true_type) {
    iterators<S>(cats, [&](auto it, const char* cn) { schwartz<decltype(it)>(std::string("C22|schwartz|") + name + "|" + cn, in, s); });
}
template<typename S, typename Fwd> void schwartz_forms(const char*, const input&, const S&, Fwd, std::false_type) {}

template<vh_cat C, typename S>
void run_sorter(const char* name, vh_speed sp) {
    S s{};
    profile p; p.exhaustive = ctx().thorough ? 6 : 4; p.dense_from = 5; p.dense_patterns = ctx().thorough ? 6 : 1; p.dense_to = sp == vh_heavy ? 40 : 70;
    if (sp == vh_fast) { p.sizes = ctx().thorough ? threshold_sizes() : std::vector<int>{ 97 }; p.large = ctx().thorough ? threshold_sizes_big() : std::vector<int>{ 128, 256, 600, 1025 }; p.large_patterns = 6; }
    else p.large = { 97, 200 };
    unsigned k = 0;
    for_each_input(p, hash_str(name) + 22, [&](const input& in) {
        ++k;
        bool all = in.size() < 30;
        if (all || k % 3 == 0) indirect<chk_fwd<E>>(std::string("C22|indirect|") + name + "|fwd", in, s);
        if (all || k % 3 == 1) indirect<chk_bidi<E>>(std::string("C22|indirect|") + name + "|bidi", in, s);
        indirect<chk_ra<E>>(std::string("C22|indirect|") + name + "|ra", in, s);
        if (all || k % 3 == 0) out_of_place<chk_fwd<E>>(std::string("C22|out_of_place|") + name + "|fwd", in, s);
        if (all || k % 3 == 2) out_of_place<chk_ra<E>>(std::string("C22|out_of_place|") + name + "|ra", in, s);
        if (in.pattern != "weak" || in.size() < 4 || k % 5 == 0) { indirect_throw<chk_ra<E>>(std::string("C22|indirect|") + name + "|ra", in, s); if (k % 4 == 0) indirect_throw<chk_fwd<E>>(std::string("C22|indirect|") + name + "|fwd", in, s); }
        schwartz_forms(name, in, s, cat_c<C>{}, with_schwartz<S>{});
    });
}

int main(int argc, char** argv) {
    init(argc, argv);
#define RUN(name, type, cat, speed, stable) run_sorter<cat, type>(#name, speed);
    VH_SORTERS_PART(RUN)
    return finish();
}
