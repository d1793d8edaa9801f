// C17: total, weak and partial order comparators on every built-in arithmetic type, and sorting with them whatever the NaNs.
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include "vh.h"
#include <cpp-sort/comparators/partial_greater.h>
#include <cpp-sort/comparators/partial_less.h>
#include <cpp-sort/comparators/total_greater.h>
#include <cpp-sort/comparators/total_less.h>
#include <cpp-sort/comparators/weak_greater.h>
#include <cpp-sort/comparators/weak_less.h>
#include <cpp-sort/utility/branchless_traits.h>
#include <cfloat>
#include <cmath>
#include <cstring>
#include <deque>
#include <functional>
#include <limits>
#include <list>
#include <forward_list>
#include <set>
#if PART > 0
#include "vh_sorters.h"
#endif

using namespace vh;

////////////////////////////////////////////////////////////
// Floating point values by their bits, on x86: sign, then magnitude

template<typename T> struct bits_of;
template<> struct bits_of<float> { using type = std::uint32_t; };
template<> struct bits_of<double> { using type = std::uint64_t; };
template<> struct bits_of<long double> { using type = unsigned __int128; };
template<typename T> typename bits_of<T>::type bits(T v) { typename bits_of<T>::type b = 0; std::memcpy(&b, &v, sizeof(T) == 16 ? 10 : sizeof(T)); return b; }
template<typename T> T from_bits(typename bits_of<T>::type b) { T v = 0; std::memcpy(&v, &b, sizeof(T) == 16 ? 10 : sizeof(T)); return v; }
template<typename T> constexpr int value_bits() { return sizeof(T) == 16 ? 80 : (int)sizeof(T) * 8; }
template<typename T> constexpr int mantissa_bits() { return sizeof(T) == 16 ? 64 : std::numeric_limits<T>::digits - 1; }

// Rank in the total order: an integer; all NaNs of one sign are equivalent (documented limitation)
template<typename T> __int128 total_rank(T v) {
    auto b = bits(v); auto sign = (b >> (value_bits<T>() - 1)) & 1;
    unsigned __int128 mag = (unsigned __int128)b & ((((unsigned __int128)1) << (value_bits<T>() - 1)) - 1);
    unsigned __int128 inf = bits(std::numeric_limits<T>::infinity());
    if (mag > inf) mag = inf + 1;
    return sign ? -(__int128)mag - 1 : (__int128)mag;           // -0 ranks before +0
}
template<typename T> __int128 weak_rank(T v) { auto r = total_rank(v); return r < 0 ? r + 1 : r; }
template<typename T> bool is_nan(T v) { auto i = total_rank(std::numeric_limits<T>::infinity()); auto r = total_rank(v); return r > i || r < -i - 1; }

template<typename T> std::string text(T v) { char b[80]; std::snprintf(b, sizeof b, "%La", (long double)v); return b; }
static std::string text(unsigned __int128 v) { std::string s; do { s.insert(s.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return s; }
static std::string text(__int128 v) { return v < 0 ? "-" + text((unsigned __int128)0 - (unsigned __int128)v) : text((unsigned __int128)v); }
template<typename T> std::string itext(T v) { return text((__int128)v); }
static std::string itext(unsigned __int128 v) { return text(v); }

////////////////////////////////////////////////////////////

#if PART == 0
template<typename T> static void six(const std::string& key, T a, T b, bool tl, bool tg, bool wl, bool wg, bool pl, bool pg, const std::string& sa, const std::string& sb) {
    const T ca = a; T mb = b;
    struct { const char* n; bool got, want; } r[] = {
        { "total_less", cppsort::total_less(ca, mb), tl }, { "total_greater", cppsort::total_greater(ca, mb), tg },
        { "weak_less", cppsort::weak_less(ca, T(b)), wl }, { "weak_greater", cppsort::weak_greater(T(a), mb), wg },
        { "partial_less", cppsort::partial_less(T(a), T(b)), pl }, { "partial_greater", cppsort::partial_greater(ca, mb), pg } };
    for (auto& x: r) if (x.got != x.want) violation(key + "|" + x.n, std::string(x.n) + "(" + sa + ", " + sb + ") is " + (x.got ? "true" : "false"));
    event("comparisons_judged", 6);
}

template<typename T> static std::vector<T> int_palette(rng& r) {
    std::vector<T> v; const int w = (int)sizeof(T) * 8;
    if (w == 8) { for (int i = 0; i < 256; ++i) v.push_back((T)i); return v; }
    using U = unsigned __int128;
    const bool is_signed = T(-1) < T(1);
    U hi = is_signed ? (((U)1 << (w - 1)) - 1) : w == 128 ? ~(U)0 : (((U)1 << w) - 1);
    for (int i = 0; i < 4; ++i) { v.push_back((T)(hi - (U)i)); v.push_back((T)i); if (is_signed) { v.push_back((T)(-(__int128)i)); v.push_back((T)(-(__int128)hi - 1 + i)); } }
    for (int i = 2; i < w; ++i) { U p = ((U)1 << i) & hi; v.push_back((T)p); v.push_back((T)(p ? p - 1 : 0)); if (is_signed) v.push_back((T)(-(__int128)p)); }
    for (int i = 0; i < (ctx().thorough ? 200 : 60); ++i) v.push_back((T)((((U)r.next() << 64) | r.next()) >> r.below((unsigned)w)));
    return v;
}

template<typename T> static void integers(const char* name, rng& r) {
    std::string key = std::string("C17|") + name;
    auto v = int_palette<T>(r);
    for (T a: v) {
        if (!begin_case(key + "|" + itext(a))) continue;
        for (T b: v) {
            bool l = a < b, g = b < a;
            six(key, a, b, l, g, l, g, l, g, itext(a), itext(b));
            ++ctx().evaluations;
        }
        count_case(hash_str(key + itext(a)), true);
    }
    static_assert(cppsort::total_less_t{}(T(0), T(1)) && !cppsort::total_less_t{}(T(1), T(1)), "constexpr");
    using namespace cppsort::utility;
    bool b = is_probably_branchless_comparison<cppsort::total_less_t, T>::value && is_probably_branchless_comparison<cppsort::total_greater_t, T>::value
        && is_probably_branchless_comparison<cppsort::weak_less_t, T>::value && is_probably_branchless_comparison<cppsort::weak_greater_t, T>::value
        && is_probably_branchless_comparison<cppsort::partial_less_t, T>::value && is_probably_branchless_comparison<cppsort::partial_greater_t, T>::value;
    if (std::is_integral<T>::value && !b) violation(key + "|branchless traits", "");
}

template<typename T> static std::vector<T> float_palette(rng& r) {
    using B = typename bits_of<T>::type; using L = std::numeric_limits<T>;
    std::vector<T> v;
    const B one = 1, sign = one << (value_bits<T>() - 1), inf = bits(L::infinity());
    std::vector<B> mags{ bits(T(0)), bits(L::denorm_min()), bits(L::denorm_min()) + 1, bits(L::min()), bits(L::max()), inf, bits(T(1)), bits(T(1)) + 1, bits(T(0.5)), bits(T(3)), bits(L::epsilon()), bits(std::nextafter(L::min(), T(0))) };
    const B quiet = one << (mantissa_bits<T>() - (sizeof(T) == 16 ? 2 : 1));
    for (B payload: { (B)0, (B)1, (B)2, (B)(quiet - 1), (B)(quiet >> 3), (B)0x1234 }) { mags.push_back(inf | quiet | payload); if (payload) mags.push_back(inf | payload); }
    for (int i = 0; i < (ctx().thorough ? 60 : 25); ++i) {
        T x = std::ldexp((T)(r.next() >> 11), (int)r.below(2 * (unsigned)L::max_exponent - 200) - L::max_exponent); if (std::isfinite(x)) mags.push_back(bits(std::fabs(x)));
    }
    for (B m: mags) { v.push_back(from_bits<T>(m)); v.push_back(from_bits<T>(m | sign)); }
    return v;
}
template<typename T> static void floats(const char* name, rng& r) {
    std::string key = std::string("C17|") + name;
    auto v = float_palette<T>(r);
    auto shown = [](T x) { return text(x) + (is_nan(x) ? " bits " + text((unsigned __int128)bits(x)) : ""); };
    std::uint64_t nans = 0;
    for (T a: v) {
        if (!begin_case(key + "|" + shown(a))) continue;
        nans += is_nan(a);
        for (T b: v) {
            auto ta = total_rank(a), tb = total_rank(b), wa = weak_rank(a), wb = weak_rank(b);
            six(key, a, b, ta < tb, tb < ta, wa < wb, wb < wa, !is_nan(a) && !is_nan(b) && wa < wb, !is_nan(a) && !is_nan(b) && wb < wa, shown(a), shown(b));
            // consistency with the built-in operators
            if (!is_nan(a) && !is_nan(b)) { if (cppsort::weak_less(a, b) != (a < b) || (a < b && !cppsort::total_less(a, b))) violation(key + "|operator<", shown(a) + " " + shown(b)); }
            ++ctx().evaluations;
        }
        count_case(hash_str(key + shown(a)), true);
    }
    event("nans", nans);
    // laws, on all triples: irreflexive, asymmetric, transitive, transitive equivalence (directly, in case ranks above are wrong)
    auto laws = [&](const char* n, auto less, bool weak) {
        std::size_t m = v.size(); std::vector<char> t(m * m);
        for (std::size_t i = 0; i < m; ++i) for (std::size_t j = 0; j < m; ++j) t[i * m + j] = less(v[i], v[j]);
        if (!begin_case(key + "|laws|" + n)) return;
        for (std::size_t i = 0; i < m; ++i) for (std::size_t j = 0; j < m; ++j) {
            if (t[i * m + j] && t[j * m + i]) violation(key + "|" + n + "|asymmetry", shown(v[i]) + " " + shown(v[j]));
            for (std::size_t k = 0; k < m; ++k) {
                if (t[i * m + j] && t[j * m + k] && !t[i * m + k]) violation(key + "|" + n + "|transitivity", shown(v[i]) + " " + shown(v[j]) + " " + shown(v[k]));
                if (weak && t[i * m + k] && !t[i * m + j] && !t[j * m + k]) violation(key + "|" + n + "|transitivity of equivalence", shown(v[i]) + " " + shown(v[j]) + " " + shown(v[k]));
            }
        }
        count_case(hash_str(key + n), true); event("triples_judged", m * m * m);
    };
    laws("total_less", cppsort::total_less, true); laws("total_greater", cppsort::total_greater, true);
    laws("weak_less", cppsort::weak_less, true); laws("weak_greater", cppsort::weak_greater, true);
    laws("partial_less", cppsort::partial_less, false); laws("partial_greater", cppsort::partial_greater, false);
    using namespace cppsort::utility;
    if (is_probably_branchless_comparison<cppsort::total_less_t, T>::value || is_probably_branchless_comparison<cppsort::weak_less_t, T>::value
        || !is_probably_branchless_comparison<cppsort::partial_less_t, T>::value || !is_probably_branchless_comparison<cppsort::partial_greater_t, T>::value) violation(key + "|branchless traits", "");
}

// Customisation by ADL, and the documented fallbacks: total for weak for partial, and never operator<
namespace user {
    struct total { int v; bool operator<(const total& o) const { return v > o.v; } };
    static bool total_less(const total& a, const total& b) { return a.v < b.v; }
    static bool total_greater(const total& a, const total& b) { return a.v > b.v; }
    struct weak { int v; bool operator<(const weak& o) const { return v > o.v; } };
    static bool weak_less(const weak& a, const weak& b) { return a.v / 2 < b.v / 2; }
    static bool weak_greater(const weak& a, const weak& b) { return a.v / 2 > b.v / 2; }
    struct partial { int v; bool operator<(const partial& o) const { return v > o.v; } };
    static bool partial_less(const partial& a, const partial& b) { return a.v % 2 == b.v % 2 && a.v < b.v; }
    static bool partial_greater(const partial& a, const partial& b) { return a.v % 2 == b.v % 2 && a.v > b.v; }
    struct all { int v; };
    static bool total_less(const all& a, const all& b) { return a.v < b.v; }
    static bool total_greater(const all& a, const all& b) { return a.v > b.v; }
    static bool weak_less(const all& a, const all& b) { return a.v / 2 < b.v / 2; }
    static bool weak_greater(const all& a, const all& b) { return a.v / 2 > b.v / 2; }
    static bool partial_less(const all& a, const all& b) { return a.v / 4 < b.v / 4; }
    static bool partial_greater(const all& a, const all& b) { return a.v / 4 > b.v / 4; }
    struct none { int v; bool operator<(const none& o) const { return v < o.v; } };
    // heterogeneous
    struct left { int v; }; struct right { int v; };
    static bool total_less(const left& a, const right& b) { return a.v < b.v; }
    static bool total_less(const right& a, const left& b) { return a.v < b.v; }
    static bool total_less(const left& a, const left& b) { return a.v < b.v; }
}
template<typename F, typename A, typename B> auto callable(int) -> decltype((void)std::declval<const F&>()(std::declval<A>(), std::declval<B>()), std::true_type());
template<typename F, typename A, typename B> std::false_type callable(...);

static void customised() {
    auto ck = [](const char* f, int i, int j, bool got, bool want) { if (got != want) violation(std::string("C17|customised|") + f, std::to_string(i) + " " + std::to_string(j)); event("customisations_called"); };
    if (!begin_case("C17|customised")) return;
    for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) {
        user::total a{ i }, b{ j };
        ck("total: total_less", i, j, cppsort::total_less(a, b), i < j); ck("total: weak_less", i, j, cppsort::weak_less(a, b), i < j); ck("total: partial_less", i, j, cppsort::partial_less(a, b), i < j);
        ck("total: total_greater", i, j, cppsort::total_greater(a, b), i > j); ck("total: weak_greater", i, j, cppsort::weak_greater(a, b), i > j); ck("total: partial_greater", i, j, cppsort::partial_greater(a, b), i > j);
        user::weak c{ i }, d{ j };
        ck("weak: weak_less", i, j, cppsort::weak_less(c, d), i / 2 < j / 2); ck("weak: partial_less", i, j, cppsort::partial_less(c, d), i / 2 < j / 2);
        ck("weak: weak_greater", i, j, cppsort::weak_greater(c, d), i / 2 > j / 2); ck("weak: partial_greater", i, j, cppsort::partial_greater(c, d), i / 2 > j / 2);
        user::partial e{ i }, f{ j };
        ck("partial: partial_less", i, j, cppsort::partial_less(e, f), i % 2 == j % 2 && i < j); ck("partial: partial_greater", i, j, cppsort::partial_greater(e, f), i % 2 == j % 2 && i > j);
        user::all g{ i }, h{ j };
        ck("all: total_less", i, j, cppsort::total_less(g, h), i < j); ck("all: weak_less", i, j, cppsort::weak_less(g, h), i / 2 < j / 2); ck("all: partial_less", i, j, cppsort::partial_less(g, h), i / 4 < j / 4);
        ck("all: total_greater", i, j, cppsort::total_greater(g, h), i > j); ck("all: weak_greater", i, j, cppsort::weak_greater(g, h), i / 2 > j / 2); ck("all: partial_greater", i, j, cppsort::partial_greater(g, h), i / 4 > j / 4);
        ck("heterogeneous", i, j, cppsort::total_less(user::left{ i }, user::right{ j }), i < j); ck("heterogeneous", i, j, cppsort::total_less(user::right{ i }, user::left{ j }), i < j);
        count_case(mix((unsigned)(i * 9 + j)), i != j);
    }
    std::set<user::left, cppsort::total_less_t> s{ { 3 }, { 1 }, { 2 } };
    for (int i = 0; i < 5; ++i) ck("transparent find", i, 0, s.find(user::right{ i }) != s.end(), i >= 1 && i <= 3);
    using N = user::none; using W = user::weak; using P = user::partial;
#define NOT_CALLABLE(F, T) if (decltype(callable<cppsort::F, T&, T&>(0))::value) violation("C17|customised|" #F " accepts " #T, "no fallback to operator< is documented"); else event("rejections");
    NOT_CALLABLE(total_less_t, N) NOT_CALLABLE(weak_less_t, N) NOT_CALLABLE(partial_less_t, N) NOT_CALLABLE(total_greater_t, N) NOT_CALLABLE(weak_greater_t, N) NOT_CALLABLE(partial_greater_t, N)
    NOT_CALLABLE(total_less_t, W) NOT_CALLABLE(total_greater_t, W) NOT_CALLABLE(total_less_t, P) NOT_CALLABLE(weak_less_t, P) NOT_CALLABLE(weak_greater_t, P)
}

int main(int argc, char** argv) {
    init(argc, argv);
    rng r(mix(ctx().seed * 7 + 17));
    integers<bool>("bool", r); integers<char>("char", r); integers<signed char>("signed char", r); integers<unsigned char>("unsigned char", r);
    integers<wchar_t>("wchar_t", r); integers<char16_t>("char16_t", r); integers<char32_t>("char32_t", r);
    integers<short>("short", r); integers<unsigned short>("unsigned short", r); integers<int>("int", r); integers<unsigned>("unsigned", r);
    integers<long>("long", r); integers<unsigned long>("unsigned long", r); integers<long long>("long long", r); integers<unsigned long long>("unsigned long long", r);
    integers<__int128>("__int128", r); integers<unsigned __int128>("unsigned __int128", r);
#if __cplusplus >= 202002L
    integers<char8_t>("char8_t", r);
#endif
    floats<float>("float", r); floats<double>("double", r); floats<long double>("long double", r);
    customised();
    return finish();
}

#else

////////////////////////////////////////////////////////////
// Sorting collections with NaNs

template<typename T> static T special(rng& r) {
    using B = typename bits_of<T>::type; using L = std::numeric_limits<T>;
    const B one = 1, inf = bits(L::infinity());
    T v;
    switch (r.below(8)) {
        case 0: v = from_bits<T>(inf | (one << (mantissa_bits<T>() - 1)) | (B)r.below(4)); break;
        case 1: v = from_bits<T>(inf | (one << (mantissa_bits<T>() - 1)) | (B)(r.next() >> 45)); break;
        case 2: v = L::infinity(); break;
        case 3: v = T(0); break;
        case 4: v = L::denorm_min(); break;
        case 5: v = L::max(); break;
        default: v = (T)r.below(5);
    }
    return r.chance(1, 2) ? from_bits<T>(bits(v) | (one << (value_bits<T>() - 1))) : v;
}
template<typename T> struct rec { T v; int id; };
static std::uint64_t judged = 0;

template<typename T, typename Col, typename Rank>
static void judge(const std::string& key, const Col& c, const std::vector<T>& in, Rank rank, int sign) {
    std::vector<typename bits_of<T>::type> x, y; __int128 prev = 0; bool first = true;
    for (T v: in) x.push_back(bits(v));
    for (T v: c) { auto k = rank(v); if (!first && (sign > 0 ? k < prev : prev < k)) { violation(key + "|order", text(v) + " after rank " + itext(prev)); return; } prev = k; first = false; y.push_back(bits(v)); }
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    if (x != y) violation(key + "|permutation", "");
    event("collections_judged");
}

template<vh_cat C> struct cat_c {};
template<typename T, typename S, typename F, typename Cmp, typename Rank>
static void forms(cat_c<vh_ra>, const std::string& base, const std::vector<T>& in, unsigned k, const S& s, F, Cmp cmp, Rank rank, int sign) {
    if (k % 2) { auto v = in; s(v, cmp); judge(base + "|vector", v, in, rank, sign); }
    else {
        std::deque<rec<T>> d; int id = 0; for (T v: in) d.push_back({ v, id++ });
        s(d.begin(), d.end(), cmp, &rec<T>::v);
        std::vector<T> out; std::vector<char> seen(in.size());
        for (auto& e: d) { out.push_back(e.v); if (e.id < 0 || e.id >= (int)in.size() || seen[(std::size_t)e.id] || bits(in[(std::size_t)e.id]) != bits(e.v)) { violation(base + "|records", "id " + std::to_string(e.id)); return; } seen[(std::size_t)e.id] = 1; }
        judge(base + "|records", out, in, rank, sign);
    }
}
template<typename T, typename S, typename F, typename Cmp, typename Rank>
static void forms(cat_c<vh_bidi>, const std::string& base, const std::vector<T>& in, unsigned k, const S& s, F f, Cmp cmp, Rank rank, int sign) {
    if (k % 3 == 2) { std::list<T> l(in.begin(), in.end()); s(l, cmp); judge(base + "|list", l, in, rank, sign); } else forms(cat_c<vh_ra>(), base, in, k % 3, s, f, cmp, rank, sign);
}
template<typename T, typename S, typename F, typename Cmp, typename Rank>
static void forms(cat_c<vh_fwd>, const std::string& base, const std::vector<T>& in, unsigned k, const S& s, F f, Cmp cmp, Rank rank, int sign) {
    if (k % 4 == 3) { std::forward_list<T> l(in.begin(), in.end()); s(l, cmp); judge(base + "|forward_list", l, in, rank, sign); } else forms(cat_c<vh_bidi>(), base, in, k % 4, s, f, cmp, rank, sign);
}

template<typename T, vh_cat C, typename S> static void type(const char* name, const char* tname, vh_speed sp) {
    S s{}; rng r(mix(ctx().seed * 1313) ^ hash_str(name) ^ sizeof(T));
    std::vector<int> sizes; for (int n = 2; n < 40; ++n) sizes.push_back(n);
    for (int n: { 64, 65, 100, 128, 200 }) sizes.push_back(n);
    if (sp == vh_fast) for (int n: { 257, 600, 1025, 3000 }) sizes.push_back(n);
    int reps = ctx().thorough ? 12 : 2; unsigned k = 0;
    for (int rep = 0; rep < reps; ++rep) for (int n: sizes) for (int style = 0; style < 4; ++style) {
        ++k;
        std::vector<T> in; for (int i = 0; i < n; ++i) in.push_back(style == 0 ? special<T>(r) : r.chance(1, style == 1 ? 2 : 8) ? special<T>(r) : (T)((int)r.below(2u * (unsigned)n) - n) / 3);
        if (style == 3) std::sort(in.begin(), in.end(), [](T a, T b) { return total_rank(a) < total_rank(b); });
        if (style == 3) for (int q = 0; q < 1 + n / 16; ++q) std::swap(in[r.below((unsigned)n)], in[r.below((unsigned)n)]);
        if ((int)(k % (unsigned)ctx().nshards) != ctx().shard) continue;
        std::uint64_t h = hash_str(name); for (T v: in) h = mix(h ^ (std::uint64_t)bits(v));
        auto run = [&](const char* cname, auto cmp, auto rank, int sign) {
            std::string base = std::string("C17|sort|") + name + "|" + tname + "|" + cname;
            if (!begin_case(base + "|n=" + std::to_string(n) + " style " + std::to_string(style) + " case " + std::to_string(k))) return;
            count_case(h ^ hash_str(cname), true);
            forms(cat_c<C>(), base, in, (unsigned)(mix(k) >> 20), s, 0, cmp, rank, sign);
        };
        auto tr = [](T v) { return total_rank(v); }; auto wr = [](T v) { return weak_rank(v); };
        switch ((k / 4 + (unsigned)style) % 2) {
            case 0: run("total_less", cppsort::total_less, tr, 1); run("weak_greater", cppsort::weak_greater, wr, -1); break;
            default: run("weak_less", cppsort::weak_less, wr, 1); run("total_greater", cppsort::total_greater, tr, -1);
        }
        event("elements", (std::uint64_t)n * 2);
    }
}
template<vh_cat C, typename S> static void run_sorter(const char* name, vh_speed sp) { type<double, C, S>(name, "double", sp); type<float, C, S>(name, "float", sp); }

int main(int argc, char** argv) {
    init(argc, argv);
#define RUN(name, type, cat, speed, stable) run_sorter<cat, type>(#name, speed);
    VH_SORTERS_PART(RUN)
    return finish();
}
#endif
