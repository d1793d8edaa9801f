// C18: natural_less and case_insensitive_less against orders computed from their definition.
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include "vh.h"
#include <cpp-sort/comparators/case_insensitive_less.h>
#include <cpp-sort/comparators/natural_less.h>
#include <cpp-sort/comparators/flip.h>
#include <cpp-sort/comparators/not_fn.h>
#include <cpp-sort/refined.h>
#include <cpp-sort/sort.h>
#include <cpp-sort/sorters.h>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <locale>
#include <memory>
#include <set>
#include <string>
#if __cplusplus >= 201703L
#include <string_view>
#endif

using namespace vh;

static void expect_bool(const std::string& key, bool got, bool want, const std::string& a, const std::string& b) {
    if (got != want) violation(key, "less(\"" + a + "\", \"" + b + "\") is " + (got ? "true" : "false"));
}

////////////////////////////////////////////////////////////
// Natural order, as documented: runs of digits by value, anything else by character

struct token { bool number; std::string digits; char c; };
static std::vector<token> tokens(const std::string& s) {
    std::vector<token> out;
    for (std::size_t i = 0; i < s.size();) {
        if (s[i] >= '0' && s[i] <= '9') {
            std::string d; char first = s[i];
            while (i < s.size() && s[i] >= '0' && s[i] <= '9') d += s[i++];
            std::size_t z = 0; while (z < d.size() && d[z] == '0') ++z;
            out.push_back({true, d.substr(z), first});
        } else out.push_back({false, "", s[i++]});
    }
    return out;
}
static int natural_cmp(const std::vector<token>& a, const std::vector<token>& b) {
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) {
        if (a[i].number && b[i].number) {
            if (a[i].digits.size() != b[i].digits.size()) return a[i].digits.size() < b[i].digits.size() ? -1 : 1;
            int c = a[i].digits.compare(b[i].digits);
            if (c) return c < 0 ? -1 : 1;
        } else if (a[i].c != b[i].c) return a[i].c < b[i].c ? -1 : 1;
    }
    return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}

// A sequence in storage of exactly its size: reads outside are seen by ASan, and by the poison around it otherwise
struct exact {
    std::unique_ptr<char[]> d; std::size_t n;
    explicit exact(const std::string& s): d(new char[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), d.get()); }
    const char* begin() const { return d.get(); }
    const char* end() const { return d.get() + n; }
};
// Iterators that never go out of [b, e]
struct strict_it {
    using iterator_category = std::forward_iterator_tag; using value_type = char; using difference_type = std::ptrdiff_t; using pointer = const char*; using reference = const char&;
    const char* p = nullptr; const char* b = nullptr; const char* e = nullptr;
    reference operator*() const { if (p < b || p >= e) { violation("C18|out-of-range|dereference", ""); static char c = 0; return c; } return *p; }
    strict_it& operator++() { if (p >= e) violation("C18|out-of-range|increment", ""); ++p; return *this; }
    strict_it operator++(int) { auto t = *this; ++*this; return t; }
    friend bool operator==(const strict_it& x, const strict_it& y) { if (x.b != y.b) violation("C18|out-of-range|iterators of two ranges compared", ""); return x.p == y.p; }
    friend bool operator!=(const strict_it& x, const strict_it& y) { return !(x == y); }
};
struct strict_range {
    std::string s;
    strict_it begin() const { return { s.data(), s.data(), s.data() + s.size() }; }
    strict_it end() const { return { s.data() + s.size(), s.data(), s.data() + s.size() }; }
};

template<typename A, typename B> static void natural_types(const char* form, const std::string& sa, const std::string& sb, int want) {
    const A a(sa.begin(), sa.end()); const B b(sb.begin(), sb.end());
    std::string key = std::string("C18|natural|") + form;
    expect_bool(key, cppsort::natural_less(a, b), want < 0, sa, sb);
    expect_bool(key, cppsort::natural_less(b, a), want > 0, sb, sa);
    event("pairs_compared", 2);
}

static void natural_pair(const std::string& a, const std::string& b, const std::vector<token>& ta, const std::vector<token>& tb, unsigned k) {
    int want = natural_cmp(ta, tb);
    std::string label = "C18|natural|\"" + a + "\" \"" + b + "\"";
    if (label.size() > 200) label.resize(200);
    if (!begin_case(label)) return;
    count_case(hash_str(a.c_str()) * 31 ^ mix(hash_str(b.c_str())) ^ a.size() ^ (b.size() << 8), a != b);
    strict_range ra{a}, rb{b};
    expect_bool("C18|natural|strict", cppsort::natural_less(ra, rb), want < 0, a, b);
    event("pairs_compared");
    switch (k % 8) {
        case 0: { exact ea(a), eb(b); expect_bool("C18|natural|exact", cppsort::natural_less(ea, eb), want < 0, a, b); break; }
        case 1: natural_types<std::string, std::string>("string", a, b, want); break;
        case 2: natural_types<std::vector<char>, std::string>("vector,string", a, b, want); break;
        case 3: natural_types<std::list<char>, std::deque<char>>("list,deque", a, b, want); break;
        case 4: natural_types<std::forward_list<char>, std::vector<char>>("forward_list,vector", a, b, want); break;
        case 5: { std::string ma = a, mb = b; expect_bool("C18|natural|mutable", cppsort::natural_less(ma, mb), want < 0, a, b);
                  expect_bool("C18|natural|rvalue", cppsort::natural_less(std::string(a), std::move(mb)), want < 0, a, b); break; }
        case 6: { std::string ca = a, cb = b; auto f = cppsort::flip(cppsort::natural_less); expect_bool("C18|natural|flip", f(cb, ca), want < 0, a, b);
                  auto g = cppsort::not_fn(cppsort::natural_less); expect_bool("C18|natural|not_fn", g(ca, cb), !(want < 0), a, b); break; }
        default:
#if __cplusplus >= 201703L
            expect_bool("C18|natural|string_view", cppsort::natural_less(std::string_view(a), std::string_view(b)), want < 0, a, b);
#endif
            if (a.size() == 3 && b.size() == 3) { char x[3], y[3]; std::copy(a.begin(), a.end(), x); std::copy(b.begin(), b.end(), y); expect_bool("C18|natural|array", cppsort::natural_less(x, y), want < 0, a, b); event("arrays"); }
    }
}

static std::string random_natural(rng& r, int style) {
    static const char others[] = { 'a', 'b', '-', '.', '/', ':', ' ', '\0', '\x7f', (char)0x80, (char)0xff, (char)0xb2 };
    std::string s;
    int parts = (int)r.below(6);
    for (int p = 0; p < parts; ++p) {
        if (r.chance(1, 2)) { int n = (int)r.below(3); for (int i = 0; i < n; ++i) s += others[r.below(style ? sizeof others : 4)]; }
        else {
            int z = r.chance(1, 3) ? (int)r.below(style == 2 ? 40 : 3) : 0; s.append((std::size_t)z, '0');
            int n = r.chance(1, 4) ? (int)r.below(style == 2 ? 60 : 4) : (int)r.below(3);
            for (int i = 0; i < n; ++i) s += (char)('0' + (style == 2 ? 8 + r.below(2) : r.below(3)));
        }
    }
    return s;
}
static std::string mutate(const std::string& s, rng& r) {
    std::string t = s;
    switch (r.below(5)) {
        case 0: if (!t.empty()) t[r.below(t.size())] = (char)('0' + r.below(10)); break;
        case 1: t.insert(r.below(t.size() + 1), 1, '0'); break;
        case 2: if (!t.empty()) t.erase(r.below(t.size()), 1); break;
        case 3: t.resize(r.below(t.size() + 1)); break;
        default: t += (char)('0' + r.below(2));
    }
    return t;
}

template<typename S> static void natural_sort(const char* name, const std::vector<std::string>& in, const std::string& label) {
    std::string key = std::string("C18|natural|sorted by ") + name;
    if (!begin_case(key + "|" + label)) return;
    std::vector<std::string> v = in;
    S{}(v, cppsort::natural_less);
    std::string h; for (auto& s: in) h += s + '\1';
    count_case(hash_str(h.c_str()) ^ hash_str(name), true);
    for (std::size_t i = 1; i < v.size(); ++i) if (natural_cmp(tokens(v[i]), tokens(v[i - 1])) < 0) { violation(key + "|order", "\"" + v[i - 1] + "\" before \"" + v[i] + "\""); break; }
    auto x = in; std::sort(x.begin(), x.end()); std::sort(v.begin(), v.end());
    if (x != v) violation(key + "|permutation", "");
    event("collections_sorted");
}

namespace adl {
    struct version { int a, b; friend bool natural_less(const version& x, const version& y) { return x.b < y.b; } };
    struct word3 {      // three-parameter customisation
        std::string s; using const_iterator = std::string::const_iterator;
        const_iterator begin() const { return s.begin(); } const_iterator end() const { return s.end(); }
        friend bool case_insensitive_less(const word3& x, const word3& y, const std::locale&) { return x.s.size() < y.s.size(); } };
    struct word2 {      // two-parameter customisation
        std::string s; using const_iterator = std::string::const_iterator;
        const_iterator begin() const { return s.begin(); } const_iterator end() const { return s.end(); }
        friend bool case_insensitive_less(const word2& x, const word2& y) { return x.s.size() > y.s.size(); } };
    struct opaque3 { int v; friend bool case_insensitive_less(const opaque3& x, const opaque3& y, const std::locale&) { return x.v < y.v; } };
    struct opaque2 { int v; friend bool case_insensitive_less(const opaque2& x, const opaque2& y) { return x.v < y.v; } };
}

////////////////////////////////////////////////////////////
// Case-insensitive order

// A locale of our own: tolower is something that no other locale does
template<typename C> struct odd_ctype;
template<> struct odd_ctype<char>: std::ctype<char> {
    char do_tolower(char c) const override { if (c == 'x') return 'a'; if (c == 'a') return 'x'; if (c == 'Q') return (char)0x90; if (c == (char)0xE9) return 'e'; return c; }
    const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
};
template<> struct odd_ctype<wchar_t>: std::ctype<wchar_t> {
    wchar_t do_tolower(wchar_t c) const override { if (c == L'x') return L'a'; if (c == L'a') return L'x'; if (c == L'Q') return (wchar_t)0x10000; return c; }
    const wchar_t* do_tolower(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
};

template<typename Ch> using str = std::basic_string<Ch>;
template<typename Ch> static str<Ch> lowered(const str<Ch>& s, const std::locale& l) { str<Ch> r; for (Ch c: s) r += std::use_facet<std::ctype<Ch>>(l).tolower(c); return r; }
// plain element-wise comparison of characters (char_traits<char> compares as unsigned char)
template<typename Ch> static bool lower_less(const str<Ch>& a, const str<Ch>& b) {
    for (std::size_t i = 0; i < a.size() && i < b.size(); ++i) { if (a[i] < b[i]) return true; if (b[i] < a[i]) return false; }
    return a.size() < b.size();
}
static std::string narrow(const std::string& s) { return s; }
static std::string narrow(const std::wstring& s) { std::string r; for (wchar_t c: s) r += c < 128 ? (char)c : '?'; return r; }

template<typename T, typename Ch> static void ci_type(const char* form, const str<Ch>& sa, const str<Ch>& sb, bool want, const std::locale& loc, bool global) {
    const T a(sa.begin(), sa.end()); const T b(sb.begin(), sb.end());
    std::string key = std::string("C18|case_insensitive|") + (sizeof(Ch) > 1 ? "wide," : "") + form;
    auto check = [&](const char* how, bool got) { expect_bool(key + "|" + how, got, want, narrow(sa), narrow(sb)); event("pairs_compared"); };
    check("locale", cppsort::case_insensitive_less(loc)(a, b));
    check("three-parameter refined", cppsort::refined<T>(cppsort::case_insensitive_less(loc))(a, b));
    check("refined for const", cppsort::refined<const T&>(cppsort::case_insensitive_less(loc))(a, b));
    { auto c1 = cppsort::case_insensitive_less(loc); auto c2 = c1; auto r1 = cppsort::refined<T>(c2); auto r2 = r1; check("copies", r2(a, b)); }
    if (global) {
        check("global", cppsort::case_insensitive_less(a, b));
        check("global refined", cppsort::refined<T>(cppsort::case_insensitive_less)(a, b));
        check("object", cppsort::case_insensitive_less_t{}(a, b));
    }
    check("refined, then given a locale", cppsort::refined<T>(cppsort::case_insensitive_less)(loc)(a, b));
    check("flip", cppsort::flip(cppsort::case_insensitive_less(loc))(b, a));
}

template<typename Ch> static void ci_pair(const str<Ch>& a, const str<Ch>& b, const std::locale& loc, const char* lname, bool global, unsigned k) {
    std::string label = std::string("C18|case_insensitive|") + lname + (sizeof(Ch) > 1 ? ",wide|\"" : "|\"") + narrow(a) + "\" \"" + narrow(b) + "\"";
    if (!begin_case(label)) return;
    bool want = lower_less(lowered(a, loc), lowered(b, loc));
    std::uint64_t h = hash_str(lname); for (Ch c: a) h = mix(h ^ (std::uint64_t)c); h = mix(h + 77); for (Ch c: b) h = mix(h ^ (std::uint64_t)c);
    count_case(h, a != b);
    switch (k % 4) {
        case 0: ci_type<str<Ch>>("string", a, b, want, loc, global); break;
        case 1: ci_type<std::vector<Ch>>("vector", a, b, want, loc, global); break;
        case 2: ci_type<std::forward_list<Ch>>("forward_list", a, b, want, loc, global); break;
        default: ci_type<std::deque<Ch>>("deque", a, b, want, loc, global);
    }
    if (a.size() == 3 && b.size() == 3 && k % 3 == 0) {
        Ch x[3], y[3]; std::copy(a.begin(), a.end(), x); std::copy(b.begin(), b.end(), y);
        expect_bool("C18|case_insensitive|array", cppsort::case_insensitive_less(loc)(x, y), want, narrow(a), narrow(b)); event("arrays");
    }
}

template<typename S, typename Ch> static void ci_sort(const char* name, const std::vector<str<Ch>>& in, const std::locale& loc, bool global, const std::string& label) {
    std::string key = std::string("C18|case_insensitive|sorted by ") + name + (sizeof(Ch) > 1 ? ",wide" : "");
    if (!begin_case(key + "|" + label)) return;
    std::uint64_t h = hash_str(key); for (auto& s: in) for (Ch c: s) h = mix(h ^ (std::uint64_t)c); count_case(h, true);
    auto judge = [&](std::vector<str<Ch>> v, const char* how) {
        for (std::size_t i = 1; i < v.size(); ++i) if (lower_less(lowered(v[i], loc), lowered(v[i - 1], loc))) { violation(key + "|" + how + "|order", narrow(v[i - 1]) + " before " + narrow(v[i])); break; }
        auto x = in; std::sort(x.begin(), x.end()); std::sort(v.begin(), v.end());
        if (x != v) violation(key + "|" + how + "|permutation", "");
        event("collections_sorted");
    };
    { auto v = in; S{}(v, cppsort::case_insensitive_less(loc)); judge(v, "locale"); }
    { auto v = in; S{}(v.begin(), v.end(), cppsort::case_insensitive_less(loc)); judge(v, "locale,iterators"); }
    if (global) { auto v = in; S{}(v, cppsort::case_insensitive_less); judge(v, "global"); }
    if (global) { auto v = in; cppsort::sort(S{}, v, cppsort::case_insensitive_less); judge(v, "sort()"); }
}

template<typename Ch> static void case_insensitive(const std::locale& loc, const char* lname, bool global, rng& r) {
    static const Ch alphabet[] = { Ch('a'), Ch('A'), Ch('b'), Ch('x'), Ch('Q'), Ch('_') };
    std::vector<str<Ch>> all{ {} };
    for (std::size_t i = 0, e; (e = all.size()), i < e && all.back().size() < 4; ) {
        if (all[i].size() == 3) break;
        for (Ch c: alphabet) { auto t = all[i] + c; all.push_back(t); }
        ++i;
    }
    unsigned k = 0;
    for (auto& a: all) for (auto& b: all) { ++k; if (!ctx().thorough && a.size() + b.size() > 4 && k % 7) continue; if ((int)(k / 64 % (unsigned)ctx().nshards) != ctx().shard) continue; ci_pair<Ch>(a, b, loc, lname, global, mix(k) >> 8); }
    static const Ch others[] = { Ch(0), Ch(0x7f), Ch(0x80), Ch(0xE9), Ch(0xC9), Ch(-1), Ch('z'), Ch('Z'), Ch('['), Ch('@'), Ch('0'), Ch(sizeof(Ch) > 1 ? 0x430 : 0x30), Ch(sizeof(Ch) > 1 ? 0x410 : 0x31) };
    auto rnd = [&] { str<Ch> s; int n = (int)r.below(9); for (int i = 0; i < n; ++i) s += r.chance(1, 2) ? alphabet[r.below(6)] : others[r.below(13)]; return s; };
    int reps = ctx().thorough ? 60000 : 6000;
    for (int i = 0; i < reps; ++i) {
        auto a = rnd(), b = r.chance(1, 3) ? rnd() : a;
        if (!b.empty() && r.chance(1, 2)) { auto& c = b[r.below(b.size())]; c = r.chance(1, 2) ? std::use_facet<std::ctype<Ch>>(loc).toupper(c) : others[r.below(13)]; }
        if (r.chance(1, 3)) b.resize(r.below(b.size() + 1));
        if (i % ctx().nshards != ctx().shard) continue;
        ci_pair<Ch>(a, b, loc, lname, global, (unsigned)i);
    }
    for (int i = 0; i < (ctx().thorough ? 200 : 12); ++i) {
        std::vector<str<Ch>> v; int n = 1 + (int)r.below(300); for (int j = 0; j < n; ++j) v.push_back(rnd());
        if (i % ctx().nshards != ctx().shard) continue;
        std::string label = std::string(lname) + " " + std::to_string(i);
        ci_sort<cppsort::pdq_sorter, Ch>("pdq_sorter", v, loc, global, label); ci_sort<cppsort::merge_sorter, Ch>("merge_sorter", v, loc, global, label);
        ci_sort<cppsort::tim_sorter, Ch>("tim_sorter", v, loc, global, label); ci_sort<cppsort::heap_sorter, Ch>("heap_sorter", v, loc, global, label);
        ci_sort<cppsort::quick_sorter, Ch>("quick_sorter", v, loc, global, label); ci_sort<cppsort::default_sorter, Ch>("default_sorter", v, loc, global, label);
    }
}

static void customised() {
    if (!begin_case("C18|customisation") ) return;
    count_case(1, true); count_case(2, true);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) {
        adl::version x{ 9, i }, y{ 0, j };
        expect_bool("C18|natural|customised", cppsort::natural_less(x, y), i < j, std::to_string(i), std::to_string(j));
        adl::word3 a3{ std::string((std::size_t)i, 'z') }, b3{ std::string((std::size_t)j, 'a') };
        adl::word2 a2{ std::string((std::size_t)i, 'z') }, b2{ std::string((std::size_t)j, 'a') };
        adl::opaque3 a{ i }, b{ j }; adl::opaque2 c{ i }, d{ j };
        auto ck = [&](const char* f, bool got, bool want) { expect_bool(std::string("C18|case_insensitive|customised|") + f, got, want, std::to_string(i), std::to_string(j)); event("customisations_called"); };
        auto loc = std::locale::classic();
        ck("3: global", cppsort::case_insensitive_less(a3, b3), i < j);
        ck("3: locale", cppsort::case_insensitive_less(loc)(a3, b3), i < j);
        ck("3: refined", cppsort::refined<adl::word3>(cppsort::case_insensitive_less)(a3, b3), i < j);
        ck("3: locale refined", cppsort::refined<adl::word3>(cppsort::case_insensitive_less(loc))(a3, b3), i < j);
        ck("2: global", cppsort::case_insensitive_less(a2, b2), i > j);
        ck("2: refined", cppsort::refined<adl::word2>(cppsort::case_insensitive_less)(a2, b2), i > j);
        ck("opaque 3: global", cppsort::case_insensitive_less(a, b), i < j);
        ck("opaque 3: locale", cppsort::case_insensitive_less(loc)(a, b), i < j);
        ck("opaque 2: global", cppsort::case_insensitive_less(c, d), i < j);
        // the same through a sorter, which refines
        std::vector<adl::word3> v{ b3, a3, b3 }; cppsort::pdq_sorter{}(v, cppsort::case_insensitive_less);
        for (std::size_t q = 1; q < 3; ++q) ck("3: sorter", v[q - 1].s.size() <= v[q].s.size(), true);
        std::vector<adl::word2> w{ b2, a2, b2 }; cppsort::pdq_sorter{}(w, cppsort::case_insensitive_less);
        for (std::size_t q = 1; q < 3; ++q) ck("2: sorter", w[q - 1].s.size() >= w[q].s.size(), true);
        std::vector<adl::opaque3> o{ b, a, b }; cppsort::merge_sorter{}(o, cppsort::case_insensitive_less(loc));
        for (std::size_t q = 1; q < 3; ++q) ck("opaque: sorter", o[q - 1].v <= o[q].v, true);
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    rng r(mix(ctx().seed * 7 + 18));
    auto mine = [&](unsigned k) { return (int)(k % (unsigned)ctx().nshards) == ctx().shard; };
    {   // all strings of up to 4 characters over an alphabet on both sides of the digits
        const char alphabet[] = { '0', '1', '9', 'a', '/', ':' };
        std::vector<std::string> all{ "" };
        for (std::size_t i = 0; i < all.size() && all[i].size() < 4; ++i) { std::string base = all[i]; for (char c: alphabet) all.push_back(base + c); }
        std::vector<std::vector<token>> t; for (auto& s: all) t.push_back(tokens(s));
        unsigned k = 0;
        for (std::size_t i = 0; i < all.size(); ++i) for (std::size_t j = 0; j < all.size(); ++j) {
            ++k; if (!mine((unsigned)(i / 4))) continue;
            if (!ctx().thorough && all[i].size() + all[j].size() > 6 && k % 5) continue;
            natural_pair(all[i], all[j], t[i], t[j], mix(k) >> 8);
        }
    }
    int reps = ctx().thorough ? 1500000 : 150000;
    for (int i = 0; i < reps; ++i) {
        int style = i % 3;
        auto a = random_natural(r, style), b = r.chance(1, 3) ? random_natural(r, style) : mutate(a, r);
        if (!mine((unsigned)i)) continue;
        natural_pair(a, b, tokens(a), tokens(b), (unsigned)(i / 3));
    }
    for (int i = 0; i < (ctx().thorough ? 400 : 40); ++i) {
        std::vector<std::string> v; int n = 1 + (int)r.below(200);
        for (int j = 0; j < n; ++j) v.push_back(v.empty() || r.chance(1, 2) ? random_natural(r, i % 3) : mutate(v[r.below(v.size())], r));
        if (!mine((unsigned)i)) continue;
        std::string label = std::to_string(i);
        natural_sort<cppsort::pdq_sorter>("pdq_sorter", v, label); natural_sort<cppsort::merge_sorter>("merge_sorter", v, label); natural_sort<cppsort::splay_sorter>("splay_sorter", v, label);
        natural_sort<cppsort::spin_sorter>("spin_sorter", v, label); natural_sort<cppsort::drop_merge_sorter>("drop_merge_sorter", v, label); natural_sort<cppsort::smooth_sorter>("smooth_sorter", v, label);
        if (begin_case("C18|natural|set|" + label)) {       // transparent
            std::set<std::string, cppsort::natural_less_t> s(v.begin(), v.end());
            for (auto& x: v) { std::vector<char> c(x.begin(), x.end()); auto it = s.find(c); if (it == s.end() || natural_cmp(tokens(*it), tokens(x)) != 0) { violation("C18|natural|set|find", x); break; } }
            for (auto it = s.begin(), n2 = it; it != s.end() && ++n2 != s.end(); it = n2) if (natural_cmp(tokens(*it), tokens(*n2)) >= 0) { violation("C18|natural|set|order", *it + " " + *n2); break; }
            count_case(mix((unsigned)i) ^ ctx().seed, true); event("sets_checked");
        }
    }
    customised();
    const std::locale classic = std::locale::classic();
    const std::locale odd(std::locale(classic, new odd_ctype<char>), new odd_ctype<wchar_t>);
    case_insensitive<char>(classic, "classic", true, r); case_insensitive<wchar_t>(classic, "classic", true, r);
    case_insensitive<char>(odd, "odd", false, r); case_insensitive<wchar_t>(odd, "odd", false, r);
    std::locale::global(odd);
    case_insensitive<char>(odd, "global odd", true, r); case_insensitive<wchar_t>(odd, "global odd", true, r);
    case_insensitive<char>(classic, "classic, global odd", false, r);
    try {
        const std::locale utf("C.UTF-8"); event("named_locales");
        case_insensitive<wchar_t>(utf, "C.UTF-8", false, r); case_insensitive<char>(utf, "C.UTF-8", false, r);
        std::locale::global(utf); case_insensitive<wchar_t>(utf, "global C.UTF-8", true, r);
    } catch (const std::runtime_error&) {}
    return finish();
}
