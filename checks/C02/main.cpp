// C02: type-specific sorters against std::sort, for every type they document. PART selects the types.
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <string>
#include <tuple>
#include <limits>
#include <memory>
#include <climits>
#include <cmath>
#include <functional>
#if __cplusplus >= 201703L
#include <string_view>
#endif
#include <cpp-sort/sorters/counting_sorter.h>
#include <cpp-sort/sorters/ska_sorter.h>
#include <cpp-sort/sorters/spread_sorter.h>
#include "vh.h"
using namespace vh;

#ifndef LIGHT
#define LIGHT 0
#endif

////////////////////////////////////////////////////////////
// Values of each type. Styles: 0 extreme values, 1 tiny alphabet, 2 anything, 3 few values per digit (deep radix recursion)

enum { n_styles = 4 };

template<typename T, typename = void> struct gen;

template<typename T> struct int_limits { static T lo() { return std::numeric_limits<T>::min(); } static T hi() { return std::numeric_limits<T>::max(); } };
template<> struct int_limits<unsigned __int128> { static unsigned __int128 lo() { return 0; } static unsigned __int128 hi() { return ~(unsigned __int128)0; } };
template<> struct int_limits<__int128> { static __int128 lo() { return -hi() - 1; } static __int128 hi() { return (__int128)(~(unsigned __int128)0 >> 1); } };

template<typename T> struct is_int: std::is_integral<T> {};
template<> struct is_int<__int128>: std::true_type {};
template<> struct is_int<unsigned __int128>: std::true_type {};

template<> struct gen<bool> { static bool any(rng& r, int) { return r.chance(1, 2); } };

template<typename T>
struct gen<T, std::enable_if_t<is_int<T>::value>> {
    static T any(rng& r, int style) {
        T lo = int_limits<T>::lo(), hi = int_limits<T>::hi();
        unsigned __int128 bits = ((unsigned __int128)r.next() << 64) | r.next();
        switch (style) {
            case 0: switch (r.below(9)) {
                case 0: return lo;
                case 1: return hi;
                case 2: return (T)(lo + 1);
                case 3: return (T)(hi - 1);
                case 4: return (T)0;
                case 5: return (T)(bits % 3);
                case 6: return (T)-1;
                case 7: return (T)((unsigned __int128)1 << r.below(sizeof(T) * 8));
                default: return (T)(((unsigned __int128)1 << r.below(sizeof(T) * 8)) - 1);
            }
            case 1: return (T)(T(r.below(7)) - T(3));
            case 3: {
                unsigned __int128 x = 0;
                for (std::size_t i = 0; i < sizeof(T); ++i) { static const unsigned char d[] = { 0, 0xff, 0x7f, 0x80, 1 }; x = (x << 8) | d[r.below(i + 1 == sizeof(T) ? 5 : 2 + (i & 1))]; }
                return (T)x;
            }
            default: return (T)bits;
        }
    }
};

template<typename T>
struct gen<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static T any(rng& r, int style) {
        using L = std::numeric_limits<T>;
        T v = 0;
        switch (style) {
            case 0: { static const T s[] = { 0, L::infinity(), L::max(), L::min(), L::denorm_min(), 1, L::epsilon(), std::nextafter(T(1), T(2)), L::lowest() }; v = s[r.below(9)]; break; }
            case 1: v = (T)r.below(4); break;
            case 3: v = std::ldexp((T)(1 + r.below(4)), (int)r.below(3) * 40 - 40); break;
            default: {
                std::uint64_t b = r.next(); std::memcpy(&v, &b, sizeof(T));
                if (std::isnan(v)) v = (T)(std::int64_t)b; }
        }
        return r.chance(1, 2) ? -v : v;
    }
};

template<typename C> struct gen<std::basic_string<C>> {
    using S = std::basic_string<C>;
    static S any(rng& r, int style) {
        S s;
        if (style == 0) {                             // extreme characters, embedded nulls, prefixes of each other
            static const C cs[] = { C(0), C(-1), C(1) , C(sizeof(C) == 1 ? 0x80 : 0x8000), C(sizeof(C) == 1 ? 0x7f : 0x7fff) };
            std::size_t n = r.below(7);
            for (std::size_t i = 0; i < n; ++i) s += cs[r.below(5)];
        } else if (style == 1) {                      // tiny alphabet, short
            std::size_t n = r.below(5);
            for (std::size_t i = 0; i < n; ++i) s += C('a' + r.below(2));
        } else if (style == 2) {
            std::size_t n = r.below(24);
            for (std::size_t i = 0; i < n; ++i) s += gen<C>::any(r, 2);
        } else {                                      // long common prefixes with rare differences
            std::size_t n = r.below(60);
            s.assign(n, C('x'));
            if (n && r.chance(1, 2)) s[r.below(n)] = gen<C>::any(r, 0);
        }
        return s;
    }
};

template<typename L> L any_list(rng& r, int style) {
    using E = typename L::value_type;
    L v;
    std::size_t n = style == 3 ? r.below(24) : r.below(5);
    E first = gen<E>::any(r, 1);
    for (std::size_t i = 0; i < n; ++i) v.push_back(style == 3 && !r.chance(1, 12) ? first : gen<E>::any(r, style));
    return v;
}
template<typename E> struct gen<std::vector<E>> { static std::vector<E> any(rng& r, int style) { return any_list<std::vector<E>>(r, style); } };
template<typename E> struct gen<std::deque<E>> { static std::deque<E> any(rng& r, int style) { return any_list<std::deque<E>>(r, style); } };
template<typename E, std::size_t N> struct gen<std::array<E, N>> { static std::array<E, N> any(rng& r, int style) { std::array<E, N> a; for (auto& x: a) x = gen<E>::any(r, style == 3 ? (int)r.below(2) : style); return a; } };
template<typename A, typename B> struct gen<std::pair<A, B>> { static std::pair<A, B> any(rng& r, int style) { A a = gen<A>::any(r, style == 3 ? 1 : style); return { a, gen<B>::any(r, style) }; } };
template<typename... A> struct gen<std::tuple<A...>> { static std::tuple<A...> any(rng& r, int style) { return std::tuple<A...>{ gen<A>::any(r, style == 3 && r.chance(3, 4) ? 1 : style)... }; } };
inline int* ptr_base() { static int a[4096]; return a; }
template<> struct gen<int*> { static int* any(rng& r, int) { return ptr_base() + r.below(4096); } };

#if __cplusplus >= 201703L
// Views into a pool that lives until the end
template<> struct gen<std::string_view> {
    static std::string_view any(rng& r, int style) {
        static std::map<int, std::vector<std::string>> pools;
        auto& pool = pools[style];
        if (pool.empty()) { rng q(ctx().seed + (std::uint64_t)style); for (int i = 0; i < 3000; ++i) pool.push_back(gen<std::string>::any(q, style)); }
        return pool[r.below(pool.size())];
    }
};
#endif

////////////////////////////////////////////////////////////
// Equality that distinguishes -0.0 and 0.0, and rendering

template<typename T> std::string bits_of(const T& v) { return std::string(reinterpret_cast<const char*>(&v), sizeof(T)); }
template<typename T> std::enable_if_t<std::is_floating_point<T>::value, bool> same(const T& a, const T& b) { return bits_of(a) == bits_of(b); }
template<typename T> std::enable_if_t<!std::is_floating_point<T>::value, bool> same(const T& a, const T& b) { return a == b; }

inline std::string str(bool b) { return b ? "true" : "false"; }
template<typename T> std::enable_if_t<is_int<T>::value, std::string> str(T v) {
    bool neg = v < 0; unsigned __int128 u = (unsigned __int128)v; if (neg) u = -u;
    std::string s; do s = char('0' + (int)(u % 10)) + s; while (u /= 10); return (neg ? "-" : "") + s;
}
template<typename T> std::enable_if_t<std::is_floating_point<T>::value, std::string> str(T v) { char b[64]; std::snprintf(b, sizeof b, "%a", (double)v); return b; }
template<typename T> std::enable_if_t<!std::is_floating_point<T>::value && !is_int<T>::value, std::string> str(const T&) { return "?"; }
template<typename C> std::string str(const std::basic_string<C>& s) { std::string r = "\""; for (C c: s) { char b[24]; std::snprintf(b, sizeof b, "\\x%x", (unsigned)c); r += b; } return r + "\""; }
template<typename A, typename B> std::string str(const std::pair<A, B>& p) { return "(" + str(p.first) + "," + str(p.second) + ")"; }
template<typename V> std::string show_values(const V& v) { std::string s = "["; int n = 0; for (const auto& x: v) { if (n++) s += ","; s += str(x); if (s.size() > 400) { s += ",..."; break; } } return s + "]"; }

template<typename T> struct is_flt: std::is_floating_point<T> {};

////////////////////////////////////////////////////////////
// Cases

struct less_ { bool operator()(bool a, bool b) const { return a < b; } template<typename T> bool operator()(const T& a, const T& b) const { return std::less<T>{}(a, b); } };
struct more_ { bool operator()(bool a, bool b) const { return b < a; } template<typename T> bool operator()(const T& a, const T& b) const { return std::less<T>{}(b, a); } };

template<typename T> struct rec {
    T key; int id;
    const T& get() const { return key; }
    T value() const { return key; }
};

struct by_value { template<typename R> auto operator()(const R& r) const { return r.key; } };
struct by_ref { template<typename R> const auto& operator()(const R& r) const { return r.key; } };

template<typename T> std::vector<T> palette_values(const input& in, int style, rng& r) {
    int lo = 0, hi = 0;
    for (int k: in.keys) { lo = std::min(lo, k); hi = std::max(hi, k); }
    std::vector<T> pal;
    long range = (long)hi - lo + 1, cap = is_int<T>::value || is_flt<T>::value ? range : std::min(range, 700L);
    for (long i = 0; i < cap; ++i) pal.push_back(gen<T>::any(r, style));
    std::sort(pal.begin(), pal.end(), less_{});
    std::vector<T> v;
    for (int k: in.keys) v.push_back(pal[(std::size_t)((k - lo) * cap / range)]);
    return v;
}

template<typename In, typename Out, typename Cmp>
void judge_values(const In& in, const Out& out, Cmp cmp, const std::string& key) {
    using T = typename In::value_type;
    event("collections_judged");
    if (in.size() > 3 && in.size() < 9) sample(ctx().label + ": " + show_values(in) + " -> " + show_values(out));
    if (std::distance(out.begin(), out.end()) != (std::ptrdiff_t)in.size()) { violation(key + "|size", "size changed"); return; }
    const T* prev = nullptr; std::size_t i = 0;
    std::vector<T> o(out.begin(), out.end());
    (void)prev; (void)i;
    for (std::size_t j = 1; j < o.size(); ++j) if (cmp(T(o[j]), T(o[j - 1]))) { violation(key + "|order", "not sorted at " + std::to_string(j) + " of " + std::to_string(o.size()) + " from " + show_values(in) + " to " + show_values(o)); return; }
    std::vector<T> a(in.begin(), in.end());
    auto bitless = [](const T& x, const T& y) {
        if (less_{}(x, y)) return true;
        if (less_{}(y, x)) return false;
        return is_flt<T>::value && bits_of(x) < bits_of(y);
    };
    std::sort(a.begin(), a.end(), bitless); std::sort(o.begin(), o.end(), bitless);
    for (std::size_t j = 0; j < a.size(); ++j) if (!same(T(a[j]), T(o[j]))) { violation(key + "|permutation", "values changed: " + show_values(in) + " gave " + show_values(out)); return; }
}
template<typename T, typename Out, typename Cmp>
void judge_recs(const std::vector<T>& in, const Out& out, Cmp cmp, const std::string& key) {
    event("collections_judged");
    std::vector<char> seen(in.size(), 0);
    const rec<T>* prev = nullptr;
    if (out.size() != in.size()) { violation(key + "|size", ""); return; }
    for (auto& r: out) {
        if (r.id < 0 || (std::size_t)r.id >= in.size() || seen[(std::size_t)r.id] || !same(T(in[(std::size_t)r.id]), r.key)) { violation(key + "|permutation", "records lost or changed, from " + show_values(in)); return; }
        seen[(std::size_t)r.id] = 1;
        if (prev && cmp(r.key, prev->key)) { violation(key + "|order", "records not sorted, from " + show_values(in)); return; }
        prev = &r;
    }
}
template<typename T> std::vector<rec<T>> records(const std::vector<T>& v) { std::vector<rec<T>> r; int i = 0; for (auto&& x: v) r.push_back({ T(x), i++ }); return r; }

// vector<bool> is a range of proxies: bool is sorted in a deque instead
template<typename T> using coll = std::conditional_t<std::is_same<T, bool>::value, std::deque<T>, std::vector<T>>;
template<typename C> struct conv { template<typename V> static C of(const V& v) { return C(v.begin(), v.end()); } };

struct plan { profile pr; };
inline profile the_profile(bool heavy) {
    profile p;
    bool t = ctx().thorough;
    p.exhaustive = LIGHT ? 3 : (t ? 5 : 4);
    p.dense_from = 5; p.dense_to = LIGHT ? 20 : 48; p.dense_patterns = t ? 6 : 1;
    if (!LIGHT) p.sizes = { 127, 128, 129, 257, 1000, 1024 };
    else p.sizes = {};
    if (t && !LIGHT) { p.sizes.insert(p.sizes.end(), { 65, 130, 255, 256, 999, 1001, 1023, 1025, 1500 }); p.size_reps = 2; }
    p.large = LIGHT ? std::vector<int>{ 127, 128, 1000, 1024, 1500, 3000 } : std::vector<int>{ 1001, 1023, 1025, 1500, 2500, 3000, 5000 };
    if (LIGHT && heavy) { p.exhaustive = 2; p.dense_to = 12; p.large = { 128, 1000, 1024, 1500 }; }
    p.large_patterns = LIGHT ? 2 : (t ? 16 : 5);
    if (!heavy && !LIGHT) { p.large.push_back(20000); if (t) { p.large.push_back(20000); p.large.push_back(100000); } }
    return p;
}

inline int& case_no() { static int n = 0; return n; }

template<typename F> void case_(const std::string& what, const input& in, int style, F f) {
    ++case_no();
    std::string label = what + "/" + in.label() + "/style=" + std::to_string(style);
    if (!begin_case(label)) return;
    try { f("C02|" + what); }
    catch (const std::exception& e) { violation("C02|" + what + "|exception", std::string(e.what()) + " from " + in.label()); }
    catch (...) { violation("C02|" + what + "|exception", in.label()); }
    count_case(mix(in.hash() ^ hash_str(what) ^ (std::uint64_t)style * 7919), in.nontrivial());
}

template<typename T, typename F> void each(const char* name, bool heavy, F f) {
    std::uint64_t salt = hash_str(name);
    int turn = 0;
    for_each_input(the_profile(heavy), salt, [&](const input& in) {
        for (int style = 0; style < n_styles; ++style) {
            // small inputs: every style; larger: rotate unless the size is a threshold one
            ++turn;
            if (ctx().nshards > 1 && turn % ctx().nshards != ctx().shard) continue;
            rng r(mix(salt ^ in.seed * 31 ^ in.hash()) + (std::uint64_t)style);
            std::vector<T> v;
            { harness_scope hs; v = palette_values<T>(in, style, r); }
            f(in, style, v, turn);
        }
    });
}

// Values in a vector (iterable), in a deque (iterators), in the middle of an array (pointers)
template<typename T, typename Sorter, typename Cmp, typename... A>
void value_forms(const char* name, const input& in, int style, const std::vector<T>& v, int turn, Sorter s, Cmp cmp, A... a) {
    std::string n = name;
#if LIGHT
    turn = turn / 4 * 3 + 1;            // one form, to keep these builds small: pointers into an exactly sized array
#else
    case_(n + "|vector", in, style, [&](const std::string& key) { coll<T> c(v.begin(), v.end()); s(c, a...); judge_values(v, c, cmp, key); });
    if (turn % 3 == 0)
        case_(n + "|deque", in, style, [&](const std::string& key) { std::deque<T> c(v.begin(), v.end()); s(c.begin(), c.end(), a...); judge_values(v, c, cmp, key); });
#endif
    if (turn % 3 == 1)
        case_(n + "|pointers", in, style, [&](const std::string& key) {
            std::vector<T> tmp(v.begin(), v.end());
            std::deque<T> keep; rng r(7);
            T g1 = gen<T>::any(r, 2), g2 = gen<T>::any(r, 2);
            std::unique_ptr<T[]> arr(new T[v.size() + 2]);
            arr[0] = g1; arr[v.size() + 1] = g2;
            for (std::size_t i = 0; i < v.size(); ++i) arr[i + 1] = v[i];
            T* b = arr.get() + 1;
            s(b, b + v.size(), a...);
            coll<T> out(b, b + v.size());
            judge_values(v, out, cmp, key);
            if (!same(T(arr[0]), g1) || !same(T(arr[v.size() + 1]), g2)) violation(key + "|neighbour", "an element outside the range changed");
        });
}
// Records: projections by pointer to member, pointer to member function, by value, by reference
template<typename T, typename Sorter, typename Cmp, typename... A>
void record_forms(const char* name, const input& in, int style, const std::vector<T>& v, int turn, Sorter s, Cmp cmp, A... a) {
    std::string n = name;
#if LIGHT
    case_(n + "|by_value", in, style, [&](const std::string& key) { auto c = records(v); s(c, a..., by_value{}); judge_recs(v, c, cmp, key); });
    return;
#else
    switch (turn % 4) {
        case 0: case_(n + "|member", in, style, [&](const std::string& key) { auto c = records(v); s(c, a..., &rec<T>::key); judge_recs(v, c, cmp, key); }); break;
        case 1: case_(n + "|getter", in, style, [&](const std::string& key) { auto c = records(v); s(c.begin(), c.end(), a..., &rec<T>::get); judge_recs(v, c, cmp, key); }); break;
        case 2: case_(n + "|by_value", in, style, [&](const std::string& key) { auto c = records(v); s(c, a..., by_value{}); judge_recs(v, c, cmp, key); }); break;
        case 3: case_(n + "|by_ref", in, style, [&](const std::string& key) { auto r = records(v); std::deque<rec<T>> c(r.begin(), r.end()); s(c, a..., by_ref{}); judge_recs(v, c, cmp, key); }); break;
    }
#endif
}

template<typename T, typename Sorter> void radix(const char* name, Sorter s, bool heavy = false) {
    each<T>(name, heavy, [&](const input& in, int style, const std::vector<T>& v, int turn) {
        value_forms<T>(name, in, style, v, turn, s, less_{});
        record_forms<T>(name, in, style, v, turn, s, less_{});
    });
}
template<typename T, typename Sorter> void radix_values(const char* name, Sorter s, bool heavy = false) {
    each<T>(name, heavy, [&](const input& in, int style, const std::vector<T>& v, int turn) { value_forms<T>(name, in, style, v, turn, s, less_{}); });
}
template<typename T, typename Sorter> void strings(const char* name, Sorter s) {
    radix<T>(name, s, true);
    std::string n = std::string(name) + "|greater";
    each<T>(n.c_str(), true, [&](const input& in, int style, const std::vector<T>& v, int turn) {
        value_forms<T>(n.c_str(), in, style, v, turn, s, more_{}, std::greater<>{});
        record_forms<T>(n.c_str(), in, style, v, turn, s, more_{}, std::greater<>{});
#ifdef __cpp_lib_ranges
        if (turn % 2) value_forms<T>((n + "_ranges").c_str(), in, style, v, turn, s, more_{}, std::ranges::greater{});
#endif
    });
}

// counting_sorter: values near a base (the lowest, the highest or a random value of the type)
template<typename T> T near(T base, int off) { return (T)(base + (T)off); }
template<> inline bool near<bool>(bool b, int off) { return b != bool(off & 1); }

template<typename T> void counting(const char* name) {
    cppsort::counting_sorter s;
    std::uint64_t salt = hash_str(name);
    int turn = 0;
    for_each_input(the_profile(false), salt, [&](const input& in) {
        for (int where = 0; where < 4; ++where) {
            ++turn;
            if (ctx().nshards > 1 && turn % ctx().nshards != ctx().shard) continue;
            rng r(mix(salt ^ in.seed * 131 ^ in.hash()) + (std::uint64_t)where);
            T lo = int_limits<T>::lo(), hi = int_limits<T>::hi();
            int kmin = 0, kmax = 0;
            for (int k: in.keys) { kmin = std::min(kmin, k); kmax = std::max(kmax, k); }
            int span = kmax - kmin;
            int cap = sizeof(T) == 1 ? (std::is_same<T, bool>::value ? 1 : 255) : sizeof(T) == 2 ? 65535 : 1 << 20;
            std::vector<T> v;
            for (int k: in.keys) {
                int o = k - kmin;
                if (span > cap) o = (int)((long)o * cap / span);
                switch (where) {
                    case 0: v.push_back(near<T>(lo, o)); break;
                    case 1: v.push_back(near<T>(hi, -o)); break;
                    case 2: v.push_back(near<T>((T)(hi / 2 - (T)(std::min(span, cap) / 2)), o)); break;
                    default: v.push_back(near<T>((T)0, o)); break;
                }
            }
            std::string n = name;
            auto go = [&](const std::string& what, auto cont, bool it) {
                case_(n + what, in, where, [&](const std::string& key) { auto c = conv<decltype(cont)>::of(v); if (it) s(c.begin(), c.end()); else s(c); judge_values(v, c, less_{}, key); });
                case_(n + what + "|greater", in, where, [&](const std::string& key) { auto c = conv<decltype(cont)>::of(v); if (it) s(c.begin(), c.end(), std::greater<>{}); else s(c, std::greater<>{}); judge_values(v, c, more_{}, key); });
#ifdef __cpp_lib_ranges
                if (turn % 4 == 0) case_(n + what + "|ranges_greater", in, where, [&](const std::string& key) { auto c = conv<decltype(cont)>::of(v); s(c, std::ranges::greater{}); judge_values(v, c, more_{}, key); });
#endif
            };
            switch (turn % 5) {
                case 0: go("|vector", coll<T>{}, false); break;
                case 1: go("|list", std::list<T>{}, true); break;
                case 2: go("|forward_list", std::forward_list<T>{}, false); break;
                case 3: go("|deque", std::deque<T>{}, true); break;
                case 4: go("|vector_it", coll<T>{}, true); break;
            }
        }
    });
}

// Ranges of values too wide for any memory: std::bad_alloc or sorted, never anything else
template<typename T> void too_wide(const char* name) {
    cppsort::counting_sorter s;
    T lo = int_limits<T>::lo(), hi = int_limits<T>::hi();
    T sets[][3] = { { hi, lo, 0 }, { hi, (T)(lo + 1), 5 }, { 1, hi, lo }, { (T)(hi / 2), (T)(lo / 2), 3 }, { (T)(hi / 2 + 1), lo, 0 }, { hi, 0, 1 }, {(T)(hi / 8), 0, 1} };
    int i = 0;
    for (auto& a: sets) for (int g = 0; g < 2; ++g) {
        input in; in.pattern = "wide" + std::to_string(i++); in.keys = { 2, 0, 1 };
        case_(std::string(name) + "|wide", in, g, [&](const std::string& key) {
            std::vector<T> v(a, a + 3), c = v;
            try { if (g) s(c, std::greater<>{}); else s(c); if (g) judge_values(v, c, more_{}, key); else judge_values(v, c, less_{}, key); }
            catch (const std::bad_alloc&) {
                event("bad_alloc_for_wide_ranges");
                if (c != v) violation(key + "|changed", "the collection changed though its range of values cannot be counted");
            }
        });
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    cppsort::ska_sorter ska; cppsort::integer_spread_sorter is; cppsort::float_spread_sorter fs; cppsort::string_spread_sorter ss; cppsort::spread_sorter sp;
    (void)ska; (void)is; (void)fs; (void)ss; (void)sp;
#if PART == 1
    counting<bool>("counting<bool>"); counting<char>("counting<char>"); counting<signed char>("counting<schar>"); counting<unsigned char>("counting<uchar>"); counting<short>("counting<short>"); counting<unsigned short>("counting<ushort>");
    counting<wchar_t>("counting<wchar_t>"); counting<char16_t>("counting<char16_t>"); counting<char32_t>("counting<char32_t>");
#if __cplusplus >= 202002L
    counting<char8_t>("counting<char8_t>");
#endif
#elif PART == 2
    counting<int>("counting<int>"); counting<unsigned>("counting<unsigned>"); counting<long>("counting<long>"); counting<unsigned long>("counting<ulong>"); counting<long long>("counting<llong>"); counting<unsigned long long>("counting<ullong>");
    counting<__int128>("counting<int128>"); counting<unsigned __int128>("counting<uint128>");
#if !LIGHT
    if (ctx().shard == 0) { too_wide<int>("counting<int>"); too_wide<unsigned>("counting<unsigned>"); too_wide<long>("counting<long>"); too_wide<unsigned long>("counting<ulong>"); too_wide<long long>("counting<llong>"); too_wide<__int128>("counting<int128>"); too_wide<unsigned __int128>("counting<uint128>"); }
#endif
#elif PART == 3
    radix<bool>("ska<bool>", ska); radix<char>("ska<char>", ska); radix<signed char>("ska<schar>", ska); radix<unsigned char>("ska<uchar>", ska); radix<short>("ska<short>", ska); radix<unsigned short>("ska<ushort>", ska);
    radix<wchar_t>("ska<wchar_t>", ska); radix<char16_t>("ska<char16_t>", ska); radix<char32_t>("ska<char32_t>", ska);
#if __cplusplus >= 202002L
    radix<char8_t>("ska<char8_t>", ska);
#endif
#elif PART == 4
    radix<int>("ska<int>", ska); radix<unsigned>("ska<unsigned>", ska); radix<long>("ska<long>", ska); radix<unsigned long>("ska<ulong>", ska); radix<long long>("ska<llong>", ska); radix<unsigned long long>("ska<ullong>", ska);
    radix<__int128>("ska<int128>", ska); radix<unsigned __int128>("ska<uint128>", ska); radix<float>("ska<float>", ska); radix<double>("ska<double>", ska); radix<int*>("ska<int*>", ska);
#elif PART == 5
    radix<std::pair<int, int>>("ska<pair<int,int>>", ska); radix<std::pair<bool, signed char>>("ska<pair<bool,schar>>", ska); radix<std::pair<float, unsigned char>>("ska<pair<float,uchar>>", ska);
    radix<std::tuple<bool, short, double>>("ska<tuple<bool,short,double>>", ska); radix<std::tuple<std::pair<int, bool>, char>>("ska<tuple<pair<int,bool>,char>>", ska); radix<std::tuple<int>>("ska<tuple<int>>", ska);
    radix<std::pair<std::pair<bool, bool>, std::tuple<short, short>>>("ska<pair<pair,tuple>>", ska); radix<std::tuple<bool, bool, bool, int>>("ska<tuple<bool,bool,bool,int>>", ska);
#elif PART == 6
    radix<std::string>("ska<string>", ska, true); radix<std::u16string>("ska<u16string>", ska, true); radix<std::u32string>("ska<u32string>", ska, true); radix<std::wstring>("ska<wstring>", ska, true);
#if __cplusplus >= 201703L
    radix<std::string_view>("ska<string_view>", ska, true);
#endif
#elif PART == 7
    radix<std::vector<int>>("ska<vector<int>>", ska, true); radix<std::vector<char>>("ska<vector<char>>", ska, true); radix<std::deque<short>>("ska<deque<short>>", ska, true); radix<std::deque<bool>>("ska<deque<bool>>", ska, true);
    radix<std::array<int, 3>>("ska<array<int,3>>", ska, true); radix<std::vector<double>>("ska<vector<double>>", ska, true); radix<std::array<signed char, 20>>("ska<array<schar,20>>", ska, true);
#elif PART == 8
    radix<std::pair<std::string, int>>("ska<pair<string,int>>", ska, true); radix<std::pair<int, std::string>>("ska<pair<int,string>>", ska, true); radix<std::tuple<std::string, std::string, bool>>("ska<tuple<string,string,bool>>", ska, true);
    radix<std::pair<std::vector<int>, std::vector<short>>>("ska<pair<vector<int>,vector<short>>>", ska, true); radix<std::tuple<bool, std::vector<unsigned>, double>>("ska<tuple<bool,vector<unsigned>,double>>", ska, true);
#elif PART == 9
    radix<std::vector<std::string>>("ska<vector<string>>", ska, true); radix<std::vector<std::vector<int>>>("ska<vector<vector<int>>>", ska, true); radix<std::pair<std::vector<std::string>, int>>("ska<pair<vector<string>,int>>", ska, true);
    radix<std::vector<std::vector<std::vector<short>>>>("ska<vector<vector<vector<short>>>>", ska, true); radix<std::deque<std::array<signed char, 2>>>("ska<deque<array<schar,2>>>", ska, true);
#elif PART == 10
    radix<std::vector<std::pair<int, int>>>("ska<vector<pair<int,int>>>", ska, true); radix<std::vector<std::tuple<bool, std::string>>>("ska<vector<tuple<bool,string>>>", ska, true); radix<std::array<std::pair<short, float>, 2>>("ska<array<pair<short,float>,2>>", ska, true);
#elif PART == 11
    radix<bool>("integer_spread<bool>", is); radix<char>("integer_spread<char>", is); radix<signed char>("integer_spread<schar>", is); radix<unsigned char>("integer_spread<uchar>", is); radix<short>("integer_spread<short>", is); radix<unsigned short>("integer_spread<ushort>", is);
    radix<wchar_t>("integer_spread<wchar_t>", is); radix<char16_t>("integer_spread<char16_t>", is); radix<char32_t>("integer_spread<char32_t>", is);
#elif PART == 12
    radix<int>("integer_spread<int>", is); radix<unsigned>("integer_spread<unsigned>", is); radix<long>("integer_spread<long>", is); radix<unsigned long>("integer_spread<ulong>", is); radix<long long>("integer_spread<llong>", is); radix<unsigned long long>("integer_spread<ullong>", is);
    radix<float>("float_spread<float>", fs); radix<double>("float_spread<double>", fs);
#elif PART == 13
    strings<std::string>("string_spread<string>", ss);
#if __cplusplus >= 201703L
    strings<std::string_view>("string_spread<string_view>", ss);
#endif
#elif PART == 14
    radix<int>("spread<int>", sp); radix<unsigned long>("spread<ulong>", sp); radix<short>("spread<short>", sp); radix<float>("spread<float>", sp); radix<double>("spread<double>", sp); radix<long long>("spread<llong>", sp);
    strings<std::string>("spread<string>", sp);
#endif
    return finish();
}
