// C01 (and C05, over adapters): every comparison sorter turns any input into an ordered permutation of it.
#include "vh.h"
#include "vh_sorters.h"
#include "vh_killers.h"
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <string>

#ifndef PID
#define PID "C01"
#endif
using namespace vh;

struct rec {
    int key;
    int id;
    friend bool operator<(const rec& a, const rec& b) { return a.key < b.key; }
};

// wide element, not trivially copyable
struct wide {
    std::string key;
    int id = -1;
    char pad[40];
    bool operator<(const wide& o) const { return key < o.key; }
    int get_id() const { return id; }
};

static std::uint64_t g_budget, g_count;
static inline void step() { if (++g_count > g_budget) throw runaway(); }
static void set_budget(std::size_t n) { g_count = 0; g_budget = n > 70000 ? 4000ull * n : 40ull * n * n + 20000; }

struct less_key { template<typename T> bool operator()(const T& a, const T& b) const { step(); return a < b; } };
struct greater_key { template<typename T> bool operator()(const T& a, const T& b) const { step(); return b < a; } };
struct coarse_less { int shift; bool operator()(int a, int b) const { step(); return (a >> shift) < (b >> shift); } };
static bool fptr_less(const rec& a, const rec& b) { step(); return a.key < b.key; }

template<typename C> struct fill;
template<> struct fill<rec> { static rec make(int k, int id) { return {k, id}; } };
template<> struct fill<wide> {
    static wide make(int k, int id) {
        wide w; char b[32]; std::snprintf(b, sizeof b, "common prefix %012d", k + 100000000); w.key = b; w.id = id; std::memset(w.pad, id & 127, sizeof w.pad); return w;
    }
};

template<typename T> bool pad_ok(const T&) { return true; }
inline bool pad_ok(const wide& w) { for (char c: w.pad) if (c != (char)(w.id & 127)) return false; return true; }

// Judge a container of records: every id once with its own key, and ordered for cmp(proj)
template<typename It, typename Before>
void judge(const std::string& key, It first, std::size_t n, const input& in, Before before) {
    std::vector<char> seen(n, 0);
    std::size_t i = 0;
    It it = first, prev = first;
    for (; i < n; ++i, ++it) {
        std::size_t id = (std::size_t)(*it).id;
        if (id >= n || seen[id]) { violation(key + "|permutation", "element " + std::to_string(i) + " is duplicated or foreign; input " + show(in.keys)); return; }
        auto ref = fill<typename std::iterator_traits<It>::value_type>::make(in.keys[id], (int)id);
        if (ref < *it || *it < ref || !pad_ok(*it)) { violation(key + "|payload", "an element was altered; input " + show(in.keys)); return; }
        seen[id] = 1;
        if (i && before(*it, *prev)) { violation(key + "|order", "position " + std::to_string(i) + " is out of order; input " + show(in.keys)); return; }
        prev = it;
    }
    event("elements_judged", n);
}

template<typename F>
void guarded(const std::string& key, const input& in, F f) {
    try { f(); }
    catch (const runaway&) { violation(key + "|runaway", "comparison budget exceeded; input " + show(in.keys)); }
    catch (const std::exception& e) { violation(key + "|exception", std::string("unexpected exception ") + e.what() + "; input " + show(in.keys)); }
}

static std::uint64_t label_hash(const std::string& key, const input& in) { return hash_str(key) ^ in.hash(); }

template<typename V, typename Call, typename Before>
void case_rec(const std::string& key, const input& in, Call call, Before before) {
    if (!begin_case(key + "|" + in.label())) return;
    count_case(label_hash(key, in), in.nontrivial());
    V v;
    { std::vector<typename V::value_type> tmp; int id = 0; for (int k: in.keys) tmp.push_back(fill<typename V::value_type>::make(k, id++)); v = V(tmp.begin(), tmp.end()); }
    set_budget(in.size());
    guarded(key, in, [&] { call(v); if ((std::size_t)std::distance(v.begin(), v.end()) != in.size()) violation(key + "|size", "size changed"); else judge(key, v.begin(), in.size(), in, before); });
}

template<typename Call>
void case_int(const std::string& key, const input& in, Call call, bool desc) {
    if (!begin_case(key + "|" + in.label())) return;
    count_case(label_hash(key, in), in.nontrivial());
    std::vector<int> v = in.keys, ref = in.keys;
    std::sort(ref.begin(), ref.end());
    if (desc) std::reverse(ref.begin(), ref.end());
    guarded(key, in, [&] {
        call(v);
        if (v != ref) violation(key + "|result", "differs from reference; input " + show(in.keys) + " output " + show(v));
        event("elements_judged", v.size());
    });
}

static profile prof(vh_speed sp, bool ra) {
    profile p;
    p.exhaustive = ctx().thorough ? 7 : 6;
    p.dense_patterns = ctx().thorough ? 36 : 9;
    if (sp == vh_quadratic) { p.sizes = {71, 128, 129, 200, 300}; p.large = {600}; p.large_patterns = 6; if (ctx().thorough) { p.large = {1500, 3000}; p.large_patterns = 18; } return p; }
    p.sizes = threshold_sizes();
    if (sp == vh_heavy) { p.large = {1024, 2000}; p.large_patterns = 8; if (ctx().thorough) p.large = {1000, 1023, 1024, 1025, 3000, 5000}; return p; }
    for (int n: threshold_sizes_big()) p.large.push_back(n);
    p.large_patterns = 8;
    if (ra) { p.large.push_back(10007); p.large.push_back(20000); }
    if (ctx().thorough) { p.size_reps = 6; p.large_patterns = 36; p.large.push_back(50000); p.large.push_back(100003); p.large.push_back(262144); }
    return p;
}
// lighter profile for the secondary combinations
static profile light(profile p) {
    if (ctx().thorough) { p.size_reps = 2; p.large_patterns = 10; return p; }
    p.exhaustive = 5; p.dense_patterns = 4;
    std::vector<int> s; for (std::size_t i = 0; i < p.sizes.size(); i += 2) s.push_back(p.sizes[i]); p.sizes = s;
    p.large_patterns = 3;
    return p;
}

template<typename Sorter>
void fwd_combos(const char* name, vh_speed sp, const Sorter& sorter) {
    std::string key = std::string(PID "|") + name + "|";
    for_each_input(light(prof(sp, false)), hash_str(key + "fl"), [&](const input& in) {
        case_rec<std::forward_list<rec>>(key + "forward_list,less", in, [&](std::forward_list<rec>& v) { sorter(v.begin(), v.end(), less_key{}); },
            [](const rec& a, const rec& b) { return a.key < b.key; });
    });
#if EXTRA
    for_each_input(light(prof(sp, false)), hash_str(key + "flp"), [&](const input& in) {
        case_rec<std::forward_list<wide>>(key + "forward_list,greater,wide", in, [&](std::forward_list<wide>& v) { sorter(v, greater_key{}, &wide::key); },
            [](const wide& a, const wide& b) { return b.key < a.key; });
    });
#endif
}

template<typename Sorter>
void bidi_combos(const char* name, vh_speed sp, const Sorter& sorter) {
    std::string key = std::string(PID "|") + name + "|";
    for_each_input(light(prof(sp, false)), hash_str(key + "li"), [&](const input& in) {
        case_rec<std::list<rec>>(key + "list,greater,member", in, [&](std::list<rec>& v) { sorter(v.begin(), v.end(), greater_key{}, &rec::key); },
            [](const rec& a, const rec& b) { return b.key < a.key; });
    });
#if EXTRA
    for_each_input(light(prof(sp, false)), hash_str(key + "liw"), [&](const input& in) {
        case_rec<std::list<wide>>(key + "list,less,wide", in, [&](std::list<wide>& v) { sorter(v.begin(), v.end(), less_key{}); },
            [](const wide& a, const wide& b) { return a.key < b.key; });
    });
#endif
}

// Sizes far from those where the algorithms switch: tables, counters and indices that only large collections reach
template<typename V, typename Sorter>
void huge_inputs(const char* form, const char* name, vh_speed sp, const Sorter& sorter, int biggest) {
    if (sp != vh_fast) return;
    std::string key = std::string(PID "|") + name + "|" + form;
    rng r(mix(ctx().seed * 31 + hash_str(key)));
    std::vector<int> sizes{ 70001 + (int)r.below(20000), 92735 + (int)r.below(50000), 131072, 242785 + (int)r.below(100000) };
    if (biggest > 1000000) sizes.push_back(1100000 + (int)r.below(600000));
    if (ctx().thorough) { for (int i = 0; i < 6; ++i) sizes.push_back(65000 + (int)r.below(500000)); if (biggest > 1000000) sizes.push_back(6000000 + (int)r.below(500000)); }
    for (int n: sizes) for (int i = 0; i < (n > 1000000 ? 1 : ctx().thorough ? 6 : 2); ++i) {
        if (n > biggest) continue;
        input in = make_input(i == 0 ? 0 : (int)r.below((std::uint64_t)n_patterns), n, r.next() % 1000003);
        event("huge_collections");
        case_rec<V>(key, in, [&](V& v) { sorter(v.begin(), v.end(), less_key{}); }, [](const rec& a, const rec& b) { return a.key < b.key; });
    }
}

template<typename Sorter>
void ra_combos(const char* name, vh_speed sp, const Sorter& sorter) {
    std::string key = std::string(PID "|") + name + "|";
    profile full = prof(sp, true), lt = light(full);
    for_each_input(full, hash_str(key + "vi"), [&](const input& in) {
        case_int(key + "vector<int>", in, [&](std::vector<int>& v) { sorter(v); }, false);
    });
    for_each_input(lt, hash_str(key + "vig"), [&](const input& in) {
        case_int(key + "vector<int>,greater<>", in, [&](std::vector<int>& v) { sorter(v.begin(), v.end(), std::greater<>{}); }, true);
    });
    for_each_input(full, hash_str(key + "vr"), [&](const input& in) {
        case_rec<std::vector<rec>>(key + "vector<rec>,less", in, [&](std::vector<rec>& v) { sorter(v.begin(), v.end(), less_key{}); },
            [](const rec& a, const rec& b) { return a.key < b.key; });
    });
    for_each_input(lt, hash_str(key + "dq"), [&](const input& in) {
        int shift = (int)(in.hash() & 3);
        case_rec<std::deque<rec>>(key + "deque<rec>,coarse,lambda", in, [&](std::deque<rec>& v) { sorter(v, coarse_less{shift}, [](const rec& x) { return x.key; }); },
            [shift](const rec& a, const rec& b) { return (a.key >> shift) < (b.key >> shift); });
    });
    for_each_input(lt, hash_str(key + "vw"), [&](const input& in) {
        case_rec<std::vector<wide>>(key + "vector<wide>,greater", in, [&](std::vector<wide>& v) { sorter(v, greater_key{}); },
            [](const wide& a, const wide& b) { return b.key < a.key; });
    });
#if EXTRA
    for_each_input(lt, hash_str(key + "rv"), [&](const input& in) {
        case_rec<std::vector<rec>>(key + "reverse_iterator,fptr", in, [&](std::vector<rec>& v) { sorter(v.rbegin(), v.rend(), &fptr_less); },
            [](const rec& a, const rec& b) { return b.key < a.key; });
    });
    for_each_input(lt, hash_str(key + "mp"), [&](const input& in) {
        case_rec<std::vector<rec>>(key + "vector<rec>,negate", in, [&](std::vector<rec>& v) { sorter(v.data(), v.data() + v.size(), std::less<int>{}, [](const rec& x) { return -x.key; }); },
            [](const rec& a, const rec& b) { return b.key < a.key; });
    });
#endif
}

template<vh_cat C> struct cat_c {};
template<typename S> void all(const char* n, vh_speed sp, const S& s, cat_c<vh_fwd>) { huge_inputs<std::forward_list<rec>>("huge forward_list", n, sp, s, 150000); huge_inputs<std::vector<rec>>("huge vector", n, sp, s, 2000000); fwd_combos(n, sp, s); bidi_combos(n, sp, s); ra_combos(n, sp, s); }
template<typename S> void all(const char* n, vh_speed sp, const S& s, cat_c<vh_bidi>) { huge_inputs<std::list<rec>>("huge list", n, sp, s, 150000); huge_inputs<std::vector<rec>>("huge vector", n, sp, s, 2000000); bidi_combos(n, sp, s); ra_combos(n, sp, s); }
template<typename S> void all(const char* n, vh_speed sp, const S& s, cat_c<vh_ra>) { huge_inputs<std::vector<rec>>("huge vector", n, sp, s, 8000000); ra_combos(n, sp, s); }

int main(int argc, char** argv) {
    init(argc, argv);
#define X(name, type, cat, speed, stable) if (ctx().nshards == 1 || (k++ % ctx().nshards) == ctx().shard) { find_killers<(int)cat>(type{}, speed != vh_fast); all(#name, speed, type{}, cat_c<cat>{}); }
    int k = 0; (void)k;
    VH_SORTERS_PART(X)
    sample("last case: " + ctx().label);
    return finish();
}
