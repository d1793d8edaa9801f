// C23 (1): hybrid_adapter and stable_adapter<hybrid_adapter>: which adapted sorter is called, on which object, and its result.
// Hybrids are drawn at compile time from HSEED.
#include "trace.h"
#ifndef HSEED
#   define HSEED 1
#endif

static void fail(const std::string& k, const std::string& d = "") { violation("C23|" + k, d); }

constexpr std::uint64_t cmix(std::uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
constexpr std::uint64_t draw(int combo, int pos, int what, unsigned n) { return cmix(cmix(HSEED * 1000003ull + (unsigned)combo) * 31 + (unsigned)(pos * 8 + what)) % n; }

template<int C> struct cat_t; template<> struct cat_t<0> { using type = std::forward_iterator_tag; }; template<> struct cat_t<1> { using type = std::bidirectional_iterator_tag; }; template<> struct cat_t<2> { using type = std::random_access_iterator_tag; };
template<int A> struct acc_t; template<> struct acc_t<0> { using type = any_args; }; template<> struct acc_t<1> { using type = int_only; }; template<> struct acc_t<2> { using type = obj_only; };
template<> struct acc_t<3> { using type = needs_arg; }; template<> struct acc_t<4> { using type = no_arg; }; template<> struct acc_t<5> { using type = nothing; };

template<int Combo, int Pos> struct part {
    static constexpr int cat = (int)draw(Combo, Pos, 0, 3);
    static constexpr int acc = (Combo / 4) % 3 == 0 || (int)draw(Combo, Pos, 1, 9) >= 6 ? 0 : (int)draw(Combo, Pos, 1, 9);    // one in three accepts everything
    static constexpr bool state = Combo % 5 ? draw(Combo, Pos, 2, 2) : false;       // one in five is empty: function pointers
    static constexpr bool stable = draw(Combo, Pos, 3, 2);
    using type = tracer<Pos, typename cat_t<cat>::type, typename acc_t<acc>::type, state, stable>;

};
template<int Combo, int Pos> using part_t = typename part<Combo, Pos>::type;

template<typename V, int NArgs> constexpr bool accepts(int acc) { return acc == 0 || (acc == 1 && std::is_same<V, int>::value) || (acc == 2 && std::is_same<V, obj>::value) || (acc == 3 && NArgs >= 1) || (acc == 4 && NArgs == 0); }

template<int Combo, int N> struct tables { int cat[N]; int acc[N]; bool state[N]; bool stable[N]; };
template<int Combo, std::size_t... I> static tables<Combo, (int)sizeof...(I)> make_tables(std::index_sequence<I...>) {
    return { { part<Combo, (int)I>::cat... }, { part<Combo, (int)I>::acc... }, { part<Combo, (int)I>::state... }, { part<Combo, (int)I>::stable... } };
}
// the documented choice: best iterator category, then position, among those that accept the call
template<typename V, int NArgs, typename T> static int choice(const T& t, int n, int itcat) {
    int best = -1;
    for (int i = 0; i < n; ++i) if (t.cat[i] <= itcat && accepts<V, NArgs>(t.acc[i]) && (best < 0 || t.cat[i] > t.cat[best])) best = i;
    return best;
}

template<typename C> struct itcat; template<typename V> struct itcat<std::forward_list<V>> { static constexpr int value = 0; }; template<typename V> struct itcat<std::list<V>> { static constexpr int value = 1; }; template<typename V> struct itcat<std::vector<V>> { static constexpr int value = 2; };

struct expectation { bool callable; int who; int token; bool in_object; };

template<bool Ok> struct invoker {
    template<typename H, typename C, typename... A>
    static void go(const std::string& key, const H& h, const std::vector<int>& keys, int who, int token, bool always, int dir, bool wrapped, bool iters, A... a) {
        C c = fill<C>::make(keys);
        calls().clear();
        result res = iters ? h(std::begin(c), std::end(c), a...) : h(c, a...);
        event("calls_judged");
        auto& l = calls();
        if (who < 0) return fail(key + "|callable though no adapted sorter accepts");
        if (l.size() != 1) return fail(key + "|number of sorters called", std::to_string(l.size()));
        if (l[0].id != who) return fail(key + "|wrong sorter called", std::to_string(l[0].id) + " instead of " + std::to_string(who));
        if (l[0].n != keys.size()) fail(key + "|not the whole collection");
        if (l[0].token != token) fail(key + "|state of the sorter", std::to_string(l[0].token) + " instead of " + std::to_string(token));
        if (res.id != who || res.token != token) fail(key + "|result");
        if (!wrapped && token != -1) { auto p = (const char*)l[0].self; auto b = (const char*)&h; if (p < b || p >= b + sizeof(H)) fail(key + "|not the stored object"); else event("stored_objects_called"); }
        if (!sorted_as(keys, dump(c), dir, wrapped || always ? 1 : 0)) fail(key + "|not sorted");
    }
};
template<> struct invoker<false> {
    template<typename H, typename C, typename... A>
    static void go(const std::string& key, const H&, const std::vector<int>&, int who, int, bool, int, bool, bool, A...) {
        event("rejections_judged");
        if (who >= 0) fail(key + "|not callable", std::to_string(who));
    }
};

template<typename S, typename... A> constexpr bool stable_call = cppsort::is_stable<S(A...)>::value;
template<bool Ok, typename H, typename... A> struct stable_of { static int get() { return -1; } };
template<typename H, typename... A> struct stable_of<true, H, A...> { static int get() { return cppsort::is_stable_v<H(A...)>; } };

template<int Combo, int N, bool Wrapped, typename H, typename C, typename... A>
static void one(const std::string& label, const H& h, const std::vector<int>& keys, const int* tokens, int dir, A... a) {
    using V = typename C::value_type;
    static const auto t = make_tables<Combo>(std::make_index_sequence<N>());
    int who = choice<V, (int)sizeof...(A)>(t, N, itcat<C>::value);
    int token = who < 0 ? 0 : t.state[who] ? tokens[who] : -1;
    using It = typename C::iterator;
    constexpr bool by_iterable = can_call<const H&, C&, A...>, by_iterators = can_call<const H&, It, It, A...>;
    std::string key = std::string(Wrapped ? "stable hybrid" : "hybrid");
    begin_case("C23|" + label);
    invoker<by_iterable>::template go<H, C>(key + "|iterable", h, keys, who, token, who >= 0 && t.stable[who], dir, Wrapped, false, a...);
    invoker<by_iterators>::template go<H, C>(key + "|iterators", h, keys, who, token, who >= 0 && t.stable[who], dir, Wrapped, true, a...);
    if (who >= 0 && !Wrapped) {
        event("stability_judged", 2);
        if (stable_of<by_iterable, H, C&, A...>::get() != (int)t.stable[who]) fail(key + "|is_stable of an iterable call");
        if (stable_of<by_iterators, H, It, It, A...>::get() != (int)t.stable[who]) fail(key + "|is_stable of an iterators call");
    }
    if (who >= 0 && Wrapped && !(stable_of<by_iterable, H, C&, A...>::get() == 1)) fail(key + "|is_stable");
}
template<int Combo, int N, bool Wrapped, typename H, typename C>
static void forms(const std::string& l, const H& h, rng& r, const int* tokens) {
    auto keys = gen_keys(r, 2 + (int)r.below(20), 1 + (int)r.below(9));
    count_case(hash_str(l) ^ mix(keys.size() * 77 + itcat<C>::value), true);
    one<Combo, N, Wrapped, H, C>(l, h, keys, tokens, 1);
    one<Combo, N, Wrapped, H, C>(l, h, keys, tokens, -1, by_key_desc{});
    one<Combo, N, Wrapped, H, C>(l, h, keys, tokens, 1, by_key_desc{}, neg{});
}
template<int Combo, int N, bool Wrapped, typename H>
static void collections(const std::string& l, const H& h, rng& r, const int* tokens) {
    forms<Combo, N, Wrapped, H, std::forward_list<obj>>(l + "|forward_list", h, r, tokens); forms<Combo, N, Wrapped, H, std::list<obj>>(l + "|list", h, r, tokens); forms<Combo, N, Wrapped, H, std::vector<obj>>(l + "|vector", h, r, tokens);
    forms<Combo, N, Wrapped, H, std::forward_list<int>>(l + "|forward_list int", h, r, tokens); forms<Combo, N, Wrapped, H, std::list<int>>(l + "|list int", h, r, tokens); forms<Combo, N, Wrapped, H, std::vector<int>>(l + "|vector int", h, r, tokens);
}

template<int Combo, int N, typename H> static void traits(const std::string& key) {
    auto t = make_tables<Combo>(std::make_index_sequence<N>());
    int low = 2; bool all = true, empty = true;
    for (int i = 0; i < N; ++i) { low = std::min(low, t.cat[i]); all = all && t.stable[i]; empty = empty && !t.state[i]; }
    using cat = cppsort::iterator_category<H>;
    int got = std::is_same<cat, std::forward_iterator_tag>::value ? 0 : std::is_same<cat, std::bidirectional_iterator_tag>::value ? 1 : std::is_same<cat, std::random_access_iterator_tag>::value ? 2 : 9;
    if (got != low) fail(key + "|iterator_category");
    if (cppsort::is_always_stable_v<H> != all) fail(key + "|is_always_stable");
    if (empty && !(std::is_empty<H>::value && std::is_default_constructible<H>::value)) fail(key + "|not empty though its sorters are");
    event("traits_judged", 3);
}

// nestings flatten to the same sequence
template<int C, int N> struct shapes;
#define P(i) part_t<Combo, i>
#define S(i) part_t<Combo, i>(tk[i])
using cppsort::hybrid_adapter;
template<int Combo> struct shapes<Combo, 1> { template<typename F> static void each(F f, const int* tk) {
    f("A", hybrid_adapter<P(0)>(S(0))); } };
template<int Combo> struct shapes<Combo, 2> { template<typename F> static void each(F f, const int* tk) {
    using HB = hybrid_adapter<P(1)>; using HH = hybrid_adapter<hybrid_adapter<P(0), P(1)>, hybrid_adapter<>>;
    f("A,B", hybrid_adapter<P(0), P(1)>(S(0), S(1))); f("A,(B)", hybrid_adapter<P(0), HB>(S(0), HB(S(1)))); (void)sizeof(HH*); } };
template<int Combo> struct shapes<Combo, 3> { template<typename F> static void each(F f, const int* tk) {
    using BC = hybrid_adapter<P(1), P(2)>; using AB = hybrid_adapter<P(0), P(1)>; using B = hybrid_adapter<P(1)>; using BB = hybrid_adapter<B, P(2)>;
    f("A,B,C", hybrid_adapter<P(0), P(1), P(2)>(S(0), S(1), S(2))); f("A,(B,C)", hybrid_adapter<P(0), BC>(S(0), BC(S(1), S(2)))); f("(A,B),C", hybrid_adapter<AB, P(2)>(AB(S(0), S(1)), S(2)));
    f("A,((B),C)", hybrid_adapter<P(0), BB>(S(0), BB(B(S(1)), S(2)))); } };
template<int Combo> struct shapes<Combo, 4> { template<typename F> static void each(F f, const int* tk) {
    using BC = hybrid_adapter<P(1), P(2)>; using AB = hybrid_adapter<P(0), P(1)>; using CD = hybrid_adapter<P(2), P(3)>; using BCD = hybrid_adapter<BC, P(3)>;
    f("A,B,C,D", hybrid_adapter<P(0), P(1), P(2), P(3)>(S(0), S(1), S(2), S(3))); f("A,(B,C),D", hybrid_adapter<P(0), BC, P(3)>(S(0), BC(S(1), S(2)), S(3)));
    f("(A,B),(C,D)", hybrid_adapter<AB, CD>(AB(S(0), S(1)), CD(S(2), S(3)))); f("A,((B,C),D)", hybrid_adapter<P(0), BCD>(S(0), BCD(BC(S(1), S(2)), S(3)))); } };
#undef S
#undef P

template<int Combo, int N, bool AllEmpty> struct pointers { template<typename H> static void go(const std::string&, const H&, rng&) {} };
template<int Combo, int N> struct pointers<Combo, N, true> {
    template<typename H, typename C, typename... A> static void ptr(const std::string& key, const H& h, rng& r, std::true_type, int dir, A... a) {
        static const auto t = make_tables<Combo>(std::make_index_sequence<N>());
        int who = choice<typename C::value_type, (int)sizeof...(A)>(t, N, itcat<C>::value);
        auto keys = gen_keys(r, 12, 5); C c = fill<C>::make(keys);
        result (*f)(C&, A...) = h; calls().clear(); auto res = f(c, a...);
        if (calls().size() != 1 || calls()[0].id != who || res.id != who || !sorted_as(keys, dump(c), dir, 0)) fail(key + "|function pointer");
        using It = typename C::iterator; C d = fill<C>::make(keys); void (*g)(It, It, A...) = h; calls().clear(); g(d.begin(), d.end(), a...);
        if (calls().size() != 1 || calls()[0].id != who || !sorted_as(keys, dump(d), dir, 0)) fail(key + "|function pointer to iterators");
        event("function_pointers_called", 2);
    }
    template<typename H, typename C, typename... A> static void ptr(const std::string&, const H&, rng&, std::false_type, int, A...) {}
    template<typename H> static void go(const std::string& key, const H& h, rng& r) {
        using V = std::vector<obj>; using L = std::list<obj>;
        ptr<H, V>(key, h, r, std::integral_constant<bool, can_call<const H&, V&>>(), 1); ptr<H, V>(key, h, r, std::integral_constant<bool, can_call<const H&, V&, by_key_desc>>(), -1, by_key_desc{}); ptr<H, L>(key, h, r, std::integral_constant<bool, can_call<const H&, L&>>(), 1);
    }
};
template<int Combo, std::size_t... I> constexpr bool all_empty(std::index_sequence<I...>) { bool s[] = { part<Combo, (int)I>::state... }; for (bool b: s) if (b) return false; return true; }
// stable_adapter associates elements with their positions: only sorters that accept any element keep accepting
template<int Combo, std::size_t... I> constexpr bool all_any(std::index_sequence<I...>) { bool s[] = { (part<Combo, (int)I>::acc == 0)... }; for (bool b: s) if (!b) return false; return true; }

template<int Combo, int N, bool Any> struct stabilized { template<typename H> static void go(const std::string&, const H&, rng&, const int*) {} };
template<int Combo, int N> struct stabilized<Combo, N, true> {
    template<typename H> static void go(const std::string& l, const H& h, rng& r, const int* tk) {
        cppsort::stable_adapter<H> s(h); const auto t = s;
        collections<Combo, N, true>(l + "|stable_adapter", t, r, tk);
        if (!cppsort::is_always_stable_v<cppsort::stable_adapter<H>> || !cppsort::is_always_stable_v<cppsort::stable_t<H>>) fail("stable hybrid|is_always_stable");
        event("stabilized_hybrids");
    }
};

template<int Combo> static void combo(rng& r) {
    constexpr int N = 1 + Combo % 4;
    int tk[8]; for (int& t: tk) t = 100 + (int)r.below(1000);
    shapes<Combo, N>::each([&](const char* shape, auto h) {
        using H = decltype(h);
        std::string l = "hybrid|" + std::to_string(Combo) + "|" + shape;
        if (!begin_case("C23|" + l)) return;
        collections<Combo, N, false>(l, h, r, tk);
        H copy = h; const H moved = std::move(copy); collections<Combo, N, false>(l + "|copied", moved, r, tk);
        h = moved; collections<Combo, N, false>(l + "|assigned", h, r, tk);
        traits<Combo, N, H>("hybrid");
        int defaults[8]; for (int& d: defaults) d = -7;
        const H def{}; collections<Combo, N, false>(l + "|default", def, r, defaults);
        pointers<Combo, N, all_empty<Combo>(std::make_index_sequence<N>())>::go("hybrid", h, r);
        stabilized<Combo, N, all_any<Combo>(std::make_index_sequence<N>())>::go(l, moved, r, tk);
        event("hybrids");
    }, tk);
}
template<std::size_t... I> static void combos(rng& r, std::index_sequence<I...>) { int d[] = { (combo<(int)I + PART * 100>(r), 0)... }; (void)d; }

// twice the same type with different states
static void twins(rng& r) {
    using T = tracer<0, std::forward_iterator_tag, any_args, true, true>; using L = tracer<1, std::bidirectional_iterator_tag, any_args, true, true>;
    if (!begin_case("C23|twins")) return;
    count_case(2301, true);
    auto keys = gen_keys(r, 10, 4);
    auto run = [&](const char* n, auto h, auto c, int id, int token) {
        calls().clear(); auto res = h(c); event("calls_judged");
        if (calls().size() != 1 || calls()[0].id != id || calls()[0].token != token || res.token != token) fail("twins|" + std::string(n), calls().empty() ? "" : std::to_string(calls()[0].token));
    };
    auto v = fill<std::vector<obj>>::make(keys); auto f = fill<std::forward_list<obj>>::make(keys);
    hybrid_adapter<T, T> tt(T(1), T(2)); run("TT", tt, v, 0, 1); run("TT", tt, f, 0, 1);
    hybrid_adapter<T, L, T> tlt(T(1), L(2), T(3)); run("TLT", tlt, v, 1, 2); run("TLT", tlt, f, 0, 1);
    hybrid_adapter<L, T, L, T> ltlt(L(4), T(5), L(6), T(7)); run("LTLT", ltlt, v, 1, 4); run("LTLT", ltlt, f, 0, 5);
    hybrid_adapter<hybrid_adapter<T, T>, T> n(hybrid_adapter<T, T>(T(8), T(9)), T(10)); run("(TT)T", n, f, 0, 8);
    T original(11); hybrid_adapter<T, L> kept(original, L(12)); original.token = 99; run("copy kept", kept, f, 0, 11);
}

int main(int argc, char** argv) {
    init(argc, argv);
    rng r(mix(ctx().seed * 3 + 23));
    for (int rep = 0; rep < (ctx().thorough ? 40 : 3); ++rep) { combos(r, std::make_index_sequence<NCOMBOS>()); twins(r); }
    return finish();
}
