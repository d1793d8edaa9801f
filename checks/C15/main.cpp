// C15: what the metrics report against what the comparator, projection and elements observed.
#include "vh.h"
#include "vh_sorters.h"
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include <cpp-sort/metrics.h>
#include <cpp-sort/adapters/counting_adapter.h>
#include <cpp-sort/utility/branchless_traits.h>
#include <chrono>
#include <forward_list>
#include <list>
#include <sstream>
#include <type_traits>

using namespace vh;
static long long moves_seen, cmps_seen, projs_seen;
struct el {
    int key = 0; unsigned id = 0;
    el() = default;
    el(int k, unsigned i): key(k), id(i) {}
    el(el&& o) noexcept: key(o.key), id(o.id) { ++moves_seen; }
    el& operator=(el&& o) noexcept { key = o.key; id = o.id; ++moves_seen; return *this; }
};
struct cmp { bool operator()(int a, int b) const { ++cmps_seen; return a < b; } };
struct cmp_branchless { bool operator()(int a, int b) const { ++cmps_seen; return a > b; } };
struct proj { int operator()(const el& e) const { ++projs_seen; return e.key; } };
struct proj_branchless { int operator()(const el& e) const { ++projs_seen; return -e.key; } };
struct cmp_el { bool operator()(const el& a, const el& b) const { ++cmps_seen; return a.key < b.key; } };
inline bool operator<(const el& a, const el& b) { return a.key < b.key; }
namespace cppsort { namespace utility {
    template<typename T> struct is_probably_branchless_comparison<cmp_branchless, T>: std::true_type {};
    template<typename T> struct is_probably_branchless_projection<proj_branchless, T>: std::true_type {};
} }

template<typename Col> Col fill(const input& in) {
    Col c; unsigned i = 0;
    auto pos = c.begin();
    for (int k: in.keys) { pos = c.emplace(pos, k, i++); ++pos; }
    return c;
}
template<> std::vector<el> fill(const input& in) { std::vector<el> c; c.reserve(in.size()); unsigned i = 0; for (int k: in.keys) c.emplace_back(k, i++); return c; }
template<> std::forward_list<el> fill(const input& in) { std::forward_list<el> c; auto p = c.before_begin(); unsigned i = 0; for (int k: in.keys) p = c.emplace_after(p, k, i++); return c; }

static std::string cur;
template<typename Col> void judge(const Col& col, const input& in, int sign, const char* what) {
    event("results_judged");
    std::vector<bool> seen(in.size());
    const el* prev = nullptr; std::size_t n = 0;
    for (auto& e: col) {
        ++n;
        if (e.id >= in.size() || seen[e.id] || in.keys[e.id] != e.key) { violation(cur + "|" + what + "|permutation", show(in.keys)); return; }
        seen[e.id] = true;
        if (prev && sign * e.key < sign * prev->key) { violation(cur + "|" + what + "|order", show(in.keys)); return; }
        prev = &e;
    }
    if (n != in.size()) violation(cur + "|" + what + "|size", "");
}
inline void same(const char* what, long long got, long long want, const input& in, const char* against) {
    event("values_compared");
    if (got != want) violation(cur + "|" + what, "reported " + std::to_string(got) + ", " + against + " " + std::to_string(want) + ", keys " + show(in.keys));
}
inline void reset() { moves_seen = cmps_seen = projs_seen = 0; }

template<bool B> struct flag {};
template<typename S, typename Col, typename Cmp, typename Proj, typename M>
void moves_metric(const M&, const input&, Cmp, Proj, int, long long, flag<false>) {}
template<typename S, typename Col, typename Cmp, typename Proj, typename M>
void moves_metric(const M& met, const input& in, Cmp c, Proj p, int sign, long long bare, flag<true>) {
    { Col col = fill<Col>(in); reset();
      auto r = met(col, c, p);
      static_assert(std::is_same<typename M::tag_t, cppsort::metrics::moves_tag>::value && std::is_same<decltype(r), typename M::metric_t>::value, "");
      same("moves|seen", (long long)r.value(), moves_seen - 2 * (long long)in.size(), in, "moves of elements seen (two per element set aside)");
      if (bare >= 0) same("moves|bare", (long long)r.value(), bare, in, "moves made by the adapted sorter");
      bare = (long long)r.value();
      judge(col, in, sign, "moves"); }
    { Col col = fill<Col>(in); reset();
      auto r = met(col.begin(), col.end(), c, p);
      same("moves|it", (long long)r.value(), bare, in, "moves reported for the collection");
      judge(col, in, sign, "moves|it"); }
}

template<typename S, typename Col, bool Moves, typename Cmp, typename Proj>
void combo(const char* name, const char* form, const input& in, const S& s, Cmp c, Proj p, int sign) {
    cur = std::string("C15|") + name + "|" + form;
    if (!begin_case(cur + "|" + in.label())) return;
    count_case(hash_str(cur) ^ in.hash(), in.nontrivial());
    static const cppsort::metrics::comparisons<S> m_cmp(s);
    static const cppsort::metrics::comparisons<S, int> m_cmp_int(s);
    static const cppsort::metrics::projections<S> m_proj(s);
    static const cppsort::metrics::projections<S, unsigned short> m_proj_short(s);
    static const cppsort::metrics::moves<S> m_mov(s);
    static const cppsort::counting_adapter<S, long long> m_count(s);
    static const cppsort::metrics::running_time<S> m_time(s);
    long long bc, bp, bm;
    { Col col = fill<Col>(in); reset(); s(col, c, p); bc = cmps_seen; bp = projs_seen; bm = moves_seen; judge(col, in, sign, "bare"); event("comparisons", (std::uint64_t)bc); event("moves", (std::uint64_t)bm); event("projections", (std::uint64_t)bp); }
    { Col col = fill<Col>(in); reset(); auto r = m_cmp(col, c, p);
      same("comparisons|seen", (long long)r.value(), cmps_seen, in, "calls seen by the comparator"); same("comparisons|bare", (long long)r.value(), bc, in, "calls made by the adapted sorter");
      same("comparisons|moves", moves_seen, bm, in, "moves made by the adapted sorter");
      judge(col, in, sign, "comparisons"); }
    { Col col = fill<Col>(in); reset(); auto r = m_cmp_int(col.begin(), col.end(), c, p); same("comparisons|it", (int)r, bc, in, "calls made by the adapted sorter"); judge(col, in, sign, "comparisons|it"); }
    { Col col = fill<Col>(in); reset(); auto r = m_proj(col, c, p);
      same("projections|seen", (long long)r.value(), projs_seen, in, "calls seen by the projection"); same("projections|bare", (long long)r.value(), bp, in, "calls made by the adapted sorter");
      judge(col, in, sign, "projections"); }
    if (bp < 65536) { Col col = fill<Col>(in); reset(); auto r = m_proj_short(col.begin(), col.end(), c, p); same("projections|it", r.value(), bp, in, "calls made by the adapted sorter"); judge(col, in, sign, "projections|it"); }
    { Col col = fill<Col>(in); reset(); long long r = m_count(col, c, p); same("counting_adapter|seen", r, cmps_seen, in, "calls seen by the comparator"); same("counting_adapter|bare", r, bc, in, "calls made by the adapted sorter"); judge(col, in, sign, "counting_adapter"); }
    { Col col = fill<Col>(in); reset(); long long r = m_count(col.begin(), col.end(), c, p); same("counting_adapter|it", r, bc, in, "calls made by the adapted sorter"); judge(col, in, sign, "counting_adapter|it"); }
    // metrics::moves wraps the projection, which then no longer counts as branchless: sorters may make other moves
    moves_metric<S, Col>(m_mov, in, c, p, sign, std::is_same<Proj, proj_branchless>::value ? -1 : bm, flag<Moves>{});
    { Col col = fill<Col>(in); reset(); auto r = m_time(col, c, p); event("values_compared");
      if (r.value().count() < 0) violation(cur + "|running_time|negative", "");
      same("running_time|comparisons", cmps_seen, bc, in, "calls made by the adapted sorter");
      judge(col, in, sign, "running_time"); }
}
// the forms without a projection, or without a comparator
template<typename Col> struct col_t {};
template<typename M, typename Col> void plain(const M& m, const input& in, flag<true>, col_t<Col>) { Col col = fill<Col>(in); m(col); judge(col, in, 1, "projections|plain"); }
template<typename M, typename Col> void plain(const M&, const input&, flag<false>, col_t<Col>) {}
template<typename S, typename Col, bool Moves, bool Plain>
void short_forms(const char* name, const char* form, const input& in, const S& s) {
    cur = std::string("C15|") + name + "|" + form + "|short";
    if (!begin_case(cur + "|" + in.label())) return;
    count_case(hash_str(cur) ^ in.hash(), in.nontrivial());
    cppsort::metrics::comparisons<S> m_cmp(s); cppsort::metrics::projections<S> m_proj(s); cppsort::counting_adapter<S> m_count(s);
    long long bc, bp;
    { Col col = fill<Col>(in); reset(); s(col, cmp_el{}); bc = cmps_seen; }
    { Col col = fill<Col>(in); reset(); auto r = m_cmp(col, cmp_el{}); same("comparisons|cmp", (long long)r.value(), bc, in, "calls made by the adapted sorter"); judge(col, in, 1, "comparisons|cmp"); }
    { Col col = fill<Col>(in); reset(); auto r = m_cmp(col.begin(), col.end(), cmp_el{}); same("comparisons|itcmp", (long long)r.value(), bc, in, "calls made by the adapted sorter"); judge(col, in, 1, "comparisons|itcmp"); }
    { Col col = fill<Col>(in); reset(); auto r = m_count(col, cmp_el{}); same("counting_adapter|cmp", (long long)r, bc, in, "calls made by the adapted sorter"); judge(col, in, 1, "counting_adapter|cmp"); }
    { Col col = fill<Col>(in); reset(); auto r = m_count(col.begin(), col.end(), cmp_el{}); same("counting_adapter|itcmp", (long long)r, bc, in, "calls made by the adapted sorter"); judge(col, in, 1, "counting_adapter|itcmp"); }
    { Col col = fill<Col>(in); reset(); s(col, proj{}); bp = projs_seen; }
    { Col col = fill<Col>(in); reset(); auto r = m_proj(col, proj{}); same("projections|proj", (long long)r.value(), bp, in, "calls made by the adapted sorter"); judge(col, in, 1, "projections|proj"); }
    { Col col = fill<Col>(in); reset(); auto r = m_proj(col.begin(), col.end(), proj{}); same("projections|itproj", (long long)r.value(), bp, in, "calls made by the adapted sorter"); judge(col, in, 1, "projections|itproj"); }
    plain(m_proj, in, flag<Plain>{}, col_t<Col>{});
    { Col col = fill<Col>(in); m_cmp(col); judge(col, in, 1, "comparisons|plain"); }
    { Col col = fill<Col>(in); m_cmp(col.begin(), col.end(), proj{}); judge(col, in, 1, "comparisons|itproj"); }
}

// comparisons that take a known time
template<typename S> void timed(const char* name, const S& s) {
    cur = std::string("C15|") + name + "|running_time";
    if (!begin_case(cur)) return;
    count_case(hash_str(cur), true);
    using clock = std::chrono::steady_clock;
    static clock::time_point first, last; static bool any;
    any = false;
    std::vector<el> col = fill<std::vector<el>>(make_input(0, 8, 1));
    auto c = [](int a, int b) { auto t = clock::now(); if (!any) { first = t; any = true; } while (clock::now() - t < std::chrono::microseconds(40)) {} last = clock::now(); return a < b; };
    auto p = [](const el& e) { return e.key; };
    cppsort::metrics::running_time<S> m(s); cppsort::metrics::running_time<S, std::chrono::duration<double, std::micro>> md(s);
    auto t0 = clock::now(); auto r = m(col, c, p); auto t1 = clock::now();
    event("values_compared", 2);
    if (r.value() < last - first || r.value() > t1 - t0) violation(cur, "reported " + std::to_string(std::chrono::duration<double, std::micro>(r.value()).count()) + " us, comparisons span " + std::to_string(std::chrono::duration<double, std::micro>(last - first).count()) + ", call took " + std::to_string(std::chrono::duration<double, std::micro>(t1 - t0).count()));
    any = false; col = fill<std::vector<el>>(make_input(0, 8, 2));
    t0 = clock::now(); auto rd = md(col.begin(), col.end(), c, p); t1 = clock::now();
    if (rd.value() < last - first || rd.value() > t1 - t0) violation(cur + "|double", "");
}

// metric values
template<typename T, typename U, typename Gen> void values(const char* name, Gen gen) {
    struct tag {};
    namespace cu = cppsort::utility;
    using M = cu::metric<T, tag>; using N = cu::metric<U, tag>;
    cur = std::string("C15|metric|") + name;
    if (!begin_case(cur)) return;
    for (int k = 0; k < 2000; ++k) {
        T a = gen(k), b = gen(k / 2 + 3); U u = (U)gen(k / 3 + 1);
        count_case(hash_str(cur) + (unsigned)k, true); event("metric_values");
        M ma(a), mb(b); N mu(u); const M ca(a);
        bool ok = ma.value() == a && T(ma) == a && static_cast<T>(ca) == a;
        ok = ok && (ma == mb) == (a == b) && (ma != mb) == (a != b) && (ma < mb) == (a < b) && (ma <= mb) == (a <= b) && (ma > mb) == (a > b) && (ma >= mb) == (a >= b);
        ok = ok && (ma == b) == (a == b) && (ma != b) == (a != b) && (ma < b) == (a < b) && (ma <= b) == (a <= b) && (ma > b) == (a > b) && (ma >= b) == (a >= b);
        ok = ok && (a == mb) == (a == b) && (a != mb) == (a != b) && (a < mb) == (a < b) && (a <= mb) == (a <= b) && (a > mb) == (a > b) && (a >= mb) == (a >= b);
        if (!ok) violation(cur + "|relations", std::to_string(k));
        M x(b); x = a; if (!(x.value() == a)) violation(cur + "|assign value", std::to_string(k));
        x = mb; if (!(x.value() == b)) violation(cur + "|assign metric", std::to_string(k));
        x = T(a); if (!(x.value() == a)) violation(cur + "|assign rvalue", std::to_string(k));
        M& back = (x = mu); if (!(x.value() == T(u)) || &back != &x) violation(cur + "|assign other metric", std::to_string(k));
        x = N(u); if (!(x.value() == T(u))) violation(cur + "|assign other metric rvalue", std::to_string(k));
        if (!(M(ca).value() == a)) violation(cur + "|copy", std::to_string(k));
        cu::metrics<M, cu::metric<int, int>> mm(ma, cu::metric<int, int>(k));
        using std::get;
        if (!(get<tag>(mm) == a) || !(get<0>(mm) == a) || !(get<1>(mm) == k) || get<int>(mm).value() != k) violation(cur + "|metrics", std::to_string(k));
        get<int>(mm) = k + 1; if (!(get<1>(mm) == k + 1) || !(get<tag>(mm) == a)) violation(cur + "|metrics assign", std::to_string(k));
    }
}
template<typename T, typename U, typename Gen> void mixed(const char* name, Gen gen) {
    struct tag {};
    cur = std::string("C15|metric|mixed ") + name;
    if (!begin_case(cur)) return;
    for (int k = 0; k < 2000; ++k) {
        T a = (T)gen(k); U u = (U)gen(k / 3 + 1);
        count_case(hash_str(cur) + (unsigned)k, true); event("metric_values");
        cppsort::utility::metric<T, tag> ma(a); cppsort::utility::metric<U, tag> mu(u);
        if ((ma == mu) != (a == u) || (ma != mu) != (a != u) || (ma < mu) != (a < u) || (ma <= mu) != (a <= u) || (ma > mu) != (a > u) || (ma >= mu) != (a >= u)) violation(cur, std::to_string(k));
    }
}

template<vh_cat C> struct weakest { using type = std::vector<el>; static const char* name() { return "vector"; } };
template<> struct weakest<vh_bidi> { using type = std::list<el>; static const char* name() { return "list"; } };
template<> struct weakest<vh_fwd> { using type = std::forward_list<el>; static const char* name() { return "forward_list"; } };

// the counting wrapper of metrics::moves has no default constructor: sorters whose buffer needs one are left out
inline constexpr bool starts(const char* a, const char* b) { return !*b || (*a == *b && starts(a + 1, b + 1)); }
// schwartz_adapter copies what the identity projection returns, and el can't be copied;
// default_sorter hands lone callables to the sort method of lists, whether they are comparators or projections
template<typename S> struct name_tag {};
template<typename S> constexpr bool starts_default(name_tag<S>) { return false; }
constexpr bool starts_default(name_tag<cppsort::default_sorter>) { return true; }
template<typename Col, typename S> void shorts(const char* name, const char* form, const input& in, const S& s, flag<true>) { short_forms<S, Col, true, true>(name, form, in, s); }
template<typename Col, typename S> void shorts(const char*, const char*, const input&, const S&, flag<false>) {}
template<typename S, vh_cat C, bool Moves, bool Plain> void all(const char* name, vh_speed sp, const S& s) {
    profile pr; pr.exhaustive = ctx().thorough ? 6 : 5; pr.dense_patterns = ctx().thorough ? 12 : 4; pr.dense_from = 6;
    pr.sizes = { 80, 97, 129, 150, 257, 300 }; if (ctx().thorough) pr.sizes = threshold_sizes();
    if (sp == vh_fast) { pr.large = { 600, 1025, 2049 }; pr.large_patterns = ctx().thorough ? 36 : 8; }
    using W = typename weakest<C>::type;
    for_each_input(pr, hash_str(name), [&](const input& in) {
        combo<S, std::vector<el>, Moves>(name, "vector", in, s, cmp{}, proj{}, 1);
        if (in.size() > 4) combo<S, std::vector<el>, Moves>(name, "vector,branchless", in, s, cmp_branchless{}, proj_branchless{}, 1);
        if (C != vh_ra) combo<S, W, Moves>(name, weakest<C>::name(), in, s, cmp{}, proj{}, 1);
        if (in.size() < 300) shorts<std::vector<el>>(name, "vector", in, s, flag<Plain>{});
        if (C != vh_ra && in.size() < 80) shorts<W>(name, weakest<C>::name(), in, s, flag<Plain && !starts_default(name_tag<S>{})>{});
    });
    timed(name, s);
}

int main(int argc, char** argv) {
    init(argc, argv);
    int k = 0; (void)k;
#define MOVES(name) (!starts(#name, "grail_") && !starts(#name, "wiki") && !starts(#name, "schwartz"))
#define X(name, type, cat, speed, stable) if (ctx().nshards == 1 || (k++ % ctx().nshards) == ctx().shard) all<type, cat, MOVES(name), !starts(#name, "schwartz")>(#name, speed, type{});
    VH_SORTERS_PART(X)
#if PART == 1
    if (ctx().shard == 0) {
        values<long long, int>("long long,int", [](int k) { return (long long)(mix((unsigned)k) % 7) - 3; });
        values<double, float>("double,float", [](int k) { return (double)(float)((int)(mix((unsigned)k) % 9) - 4) / 2; });
        values<std::size_t, unsigned>("size_t,unsigned", [](int k) { return (std::size_t)(mix((unsigned)k) % 5); });
        mixed<int, long long>("int,long long", [](int k) { return (int)(mix((unsigned)k) % 7) - 3; });
        mixed<float, double>("float,double", [](int k) { return (int)(mix((unsigned)k) % 9) / 2; });
        values<std::string, std::string>("string", [](int k) { return std::string(1 + mix((unsigned)k) % 3, 'a' + (char)(mix((unsigned)k + 5) % 3)); });
    }
#endif
    sample("last case: " + ctx().label);
    return finish();
}
