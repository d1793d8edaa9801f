// C24: determinism (MODE 0: same input in perturbed circumstances) and absence of shared mutable state (MODE 1: threads, built with ThreadSanitizer).
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include "vh.h"
#if PART <= 15
#   include "vh_sorters.h"
#else
#   include <cpp-sort/adapters.h>
#   include <cpp-sort/comparators/natural_less.h>
#   include <cpp-sort/comparators/total_less.h>
#   include <cpp-sort/fixed_sorters.h>
#   include <cpp-sort/probes.h>
#   include <cpp-sort/sorters.h>
#   include <cpp-sort/utility/apply_permutation.h>
#   include <cpp-sort/utility/sorted_indices.h>
#   include <cpp-sort/utility/sorted_iterators.h>
#endif
#include <array>
#include <atomic>
#include <cstdlib>
#include <deque>
#include <forward_list>
#include <functional>
#include <list>
#include <memory>
#include <new>
#include <thread>

using namespace vh;

////////////////////////////////////////////////////////////
// Circumstances: contents of fresh memory, placement

struct circumstances { int poison = -1; std::uint64_t placement = 0; std::uint64_t yield = 0; std::uint64_t throw_at = 0; std::uint64_t nest_at = 0; };
static thread_local circumstances here;
static void* fresh(std::size_t n) noexcept {
    void* p = std::malloc(n ? n : 1);
    if (p && here.poison >= 0) { unsigned char* c = (unsigned char*)p; for (std::size_t i = 0; i < n; ++i) c[i] = here.poison == 256 ? (unsigned char)(i * 37 + 11) : (unsigned char)here.poison; }
    return p;
}
#if !MODE
void* operator new(std::size_t n) { if (void* p = fresh(n)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { if (void* p = fresh(n)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return fresh(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return fresh(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
#endif
__attribute__((noinline)) static void scrub_stack() {
    volatile unsigned char a[48 * 1024];
    for (std::size_t i = 0; i < sizeof a; ++i) a[i] = here.poison == 256 ? (unsigned char)(i * 37 + 11) : (unsigned char)here.poison;
}

////////////////////////////////////////////////////////////
// Trace of comparisons, projections and moves

struct trace { std::uint64_t compares = 0, moves = 0, nc = 0, nm = 0; };
static thread_local trace tr;
struct stop {};
static std::function<void()> nested;      // reentrance: run from the callback number nest_at
static void reenter() {
    if (!here.nest_at || tr.nc + tr.nm != here.nest_at) return;
    trace outer = tr; circumstances c = here; here.nest_at = 0;
    nested();
    here = c; here.nest_at = 0; tr = outer;
}
static void noise() { if (here.yield) { here.yield = mix(here.yield) | 1; if (here.yield % 512 == 1) std::this_thread::yield(); } }
static void log_compare(int a, int b, bool r) { tr.compares = mix(tr.compares ^ ((std::uint64_t)(unsigned)a << 33) ^ ((std::uint64_t)(unsigned)b << 1) ^ r); ++tr.nc; if (here.throw_at && tr.nc == here.throw_at) throw stop(); reenter(); noise(); }
static void log_move(int id, int kind) { tr.moves = mix(tr.moves ^ ((std::uint64_t)(unsigned)id << 2) ^ (unsigned)kind); ++tr.nm; }

struct rec {
    int key = 0, id = -2;
    rec() = default;
    rec(int k, int i): key(k), id(i) {}
    rec(const rec&) = delete; rec& operator=(const rec&) = delete;
    rec(rec&& o) noexcept: key(o.key), id(o.id) { log_move(id, 0); }
    rec& operator=(rec&& o) noexcept { key = o.key; id = o.id; log_move(id, 1); return *this; }
};
struct rec_less { bool operator()(const rec& a, const rec& b) const { bool r = a.key < b.key; log_compare(a.id, b.id, r); return r; } };
struct key_greater { bool operator()(int a, int b) const { bool r = a > b; log_compare(a, b, r); return r; } };
struct key_of { const int& operator()(const rec& a) const { log_move(a.id, 3); reenter(); return a.key; } };
struct copy_of { int operator()(const rec& a) const { log_move(a.id, 4); reenter(); return a.key; } };

////////////////////////////////////////////////////////////
// Collections placed anywhere

struct vec_c {
    using V = std::vector<rec>; V v; std::size_t pad;
    explicit vec_c(const std::vector<int>& k): pad(here.placement % 7) { v.reserve(k.size() + pad); for (std::size_t i = 0; i < pad; ++i) v.emplace_back(-99, -3); for (std::size_t i = 0; i < k.size(); ++i) v.emplace_back(k[i], (int)i); }
    V::iterator begin() { return v.begin() + (std::ptrdiff_t)pad; } V::iterator end() { return v.end(); }
};
struct deque_c {
    std::deque<rec> v; std::size_t pad;
    explicit deque_c(const std::vector<int>& k): pad(here.placement % 61) { for (std::size_t i = 0; i < pad; ++i) v.emplace_back(-99, -3); for (std::size_t i = 0; i < k.size(); ++i) v.emplace_back(k[i], (int)i); }
    std::deque<rec>::iterator begin() { return v.begin() + (std::ptrdiff_t)pad; } std::deque<rec>::iterator end() { return v.end(); }
};
struct list_c {                          // nodes at addresses in any order
    std::list<rec> v;
    explicit list_c(const std::vector<int>& k) {
        std::vector<std::list<rec>> nodes(k.size()); std::vector<std::size_t> order(k.size()); for (std::size_t i = 0; i < k.size(); ++i) order[i] = i;
        if (here.placement) { rng r(here.placement); for (std::size_t i = k.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]); }
        for (auto i: order) nodes[i].emplace_back(k[i], (int)i);
        for (auto& n: nodes) v.splice(v.end(), n);
    }
    std::list<rec>::iterator begin() { return v.begin(); } std::list<rec>::iterator end() { return v.end(); }
};
struct flist_c {
    std::forward_list<rec> v;
    explicit flist_c(const std::vector<int>& k) {
        std::vector<std::forward_list<rec>> nodes(k.size()); std::vector<std::size_t> order(k.size()); for (std::size_t i = 0; i < k.size(); ++i) order[i] = i;
        if (here.placement) { rng r(here.placement); for (std::size_t i = k.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]); }
        for (auto i: order) nodes[i].emplace_front(k[i], (int)i);
        for (std::size_t i = k.size(); i-- > 0;) v.splice_after(v.before_begin(), nodes[i]);
    }
    std::forward_list<rec>::iterator begin() { return v.begin(); } std::forward_list<rec>::iterator end() { return v.end(); }
};

struct outcome { trace t; std::uint64_t result = 0; bool operator==(const outcome& o) const { return t.compares == o.t.compares && t.moves == o.t.moves && t.nc == o.t.nc && t.nm == o.t.nm && result == o.result; } };
template<typename C> std::uint64_t ids_of(C& c) { std::uint64_t h = 5; for (auto& e: c) h = mix(h ^ (std::uint64_t)(unsigned)e.id); return h; }
template<typename C> std::uint64_t values_of(const C& c) { std::uint64_t h = 5; for (auto& e: c) h = mix(h ^ hash_str(std::string((const char*)&e, sizeof e))); return h; }
inline std::uint64_t values_of(const std::vector<std::string>& c) { std::uint64_t h = 5; for (auto& e: c) h = mix(h ^ hash_str(e)); return h; }

struct task { std::string name; std::size_t max; std::function<std::uint64_t(const std::vector<int>&)> run; };
static std::vector<task> tasks;
template<typename F> static void add(const std::string& name, std::size_t max, F f) { tasks.push_back({ name, max, f }); }

#if PART <= 15
template<typename C, typename S> void add_sorter(const std::string& n, std::size_t max, const S& s, bool counting) {
    (void)counting;
    add(n, max, [&s](const std::vector<int>& k) { C c(k); tr = trace(); scrub_stack(); s(c.begin(), c.end(), rec_less{}); return ids_of(c); });
    add(n + "|projection", max, [&s](const std::vector<int>& k) { C c(k); tr = trace(); scrub_stack(); s(c, key_greater{}, key_of{}); return ids_of(c); });
}
template<vh_cat C> struct cat_c {};
template<typename S> void sorter_tasks(const std::string& n, std::size_t max, const S& s, cat_c<vh_ra>) { add_sorter<vec_c>(n + "|vector", max, s, false); add_sorter<deque_c>(n + "|deque", max, s, false); add(n + "|pointers,copies", max, [&s](const std::vector<int>& k) { vec_c c(k); tr = trace(); scrub_stack(); rec* b = c.v.data() + c.pad; s(b, b + k.size(), key_greater{}, copy_of{}); return ids_of(c); }); }
template<typename S> void sorter_tasks(const std::string& n, std::size_t max, const S& s, cat_c<vh_bidi>) { sorter_tasks(n, max, s, cat_c<vh_ra>()); add_sorter<list_c>(n + "|list", max, s, false); }
template<typename S> void sorter_tasks(const std::string& n, std::size_t max, const S& s, cat_c<vh_fwd>) { sorter_tasks(n, max, s, cat_c<vh_bidi>()); add_sorter<flist_c>(n + "|forward_list", max, s, false); }
#define X(name, type, cat, speed, stable) static const type shared_##name{};
VH_SORTERS_PART(X)
#undef X
static void all_tasks() {
#define X(name, type, cat, speed, stable) sorter_tasks(#name, speed == vh_heavy ? 300 : speed == vh_quadratic ? 400 : 3000, shared_##name, cat_c<cat>());
    VH_SORTERS_PART(X)
#undef X
}

#elif PART == 16                          // type-specific and fixed-size sorters, container-aware and small array adapters
template<typename V, typename S, typename F> static void add_values(const std::string& n, const S& s, F f) {
    add(n, 3000, [&s, f](const std::vector<int>& k) { std::size_t pad = here.placement % 5; std::vector<V> v; v.reserve(k.size() + pad); v.resize(pad); for (int x: k) v.push_back(f(x)); tr = trace(); scrub_stack(); s(v.begin() + (std::ptrdiff_t)pad, v.end()); v.erase(v.begin(), v.begin() + (std::ptrdiff_t)pad); return values_of(v); });
}
struct tagged { int key, id; }; struct tag_key { int operator()(const tagged& t) const { log_move(t.id, 3); reenter(); return t.key; } };
template<typename S> static void add_tagged(const std::string& n, const S& s) {
    add(n, 3000, [&s](const std::vector<int>& k) { std::vector<tagged> v; for (int x: k) v.push_back({ x * 7919 % 100003, (int)v.size() }); tr = trace(); scrub_stack(); s(v, tag_key{}); return ids_of(v); });
}
template<std::size_t N, typename S> static void add_array(const std::string& n, const S& s) {
    add(n, N, [&s](const std::vector<int>& k) { std::array<rec, N> a; for (std::size_t i = 0; i < N; ++i) { a[i].key = k.empty() ? 0 : k[i % k.size()]; a[i].id = (int)i; } tr = trace(); scrub_stack(); s(a, rec_less{}); return ids_of(a); });
}
template<std::size_t N> static void fixed_n() {
    static const cppsort::low_comparisons_sorter<N> lc{}; static const cppsort::low_moves_sorter<N> lm{}; static const cppsort::merge_exchange_network_sorter<N> me{}; static const cppsort::sorting_network_sorter<N> sn{};
    std::string n = std::to_string(N);
    add_array<N>("low_comparisons" + n, lc); add_array<N>("low_moves" + n, lm); add_array<N>("merge_exchange" + n, me); add_array<N>("sorting_network" + n, sn);
}
template<typename C, typename S> static void add_list(const std::string& n, const S& s) {
    add(n, 3000, [&s](const std::vector<int>& k) { C c(k); tr = trace(); scrub_stack(); s(c.v, rec_less{}); return ids_of(c); });
    add(n + "|projection", 3000, [&s](const std::vector<int>& k) { C c(k); tr = trace(); scrub_stack(); s(c.v, key_greater{}, key_of{}); return ids_of(c); });
}
static const cppsort::ska_sorter ska{}; static const cppsort::spread_sorter spread{}; static const cppsort::counting_sorter counting{}; static const cppsort::integer_spread_sorter ispread{}; static const cppsort::float_spread_sorter fspread{}; static const cppsort::string_spread_sorter sspread{};
static const cppsort::hybrid_adapter<cppsort::spread_sorter, cppsort::pdq_sorter> hy{}; static const cppsort::hybrid_adapter<cppsort::ska_sorter, cppsort::pdq_sorter> hys{};
static const cppsort::container_aware_adapter<cppsort::merge_sorter> ca_merge{}; static const cppsort::container_aware_adapter<cppsort::insertion_sorter> ca_ins{}; static const cppsort::container_aware_adapter<cppsort::selection_sorter> ca_sel{}; static const cppsort::container_aware_adapter<cppsort::mel_sorter> ca_mel{};
static const cppsort::self_sort_adapter<cppsort::heap_sorter> selfs{}; static const cppsort::stable_adapter<cppsort::self_sort_adapter<cppsort::pdq_sorter>> sselfs{};
static std::string str(int x) { std::string s = std::to_string((unsigned)x * 2654435761u % 100000u); if (x & 1) s += std::string((std::size_t)(x & 15), 'a'); return s; }
static void all_tasks() {
    auto id = [](int x) { return x * 7919; };
    add_values<int>("ska int", ska, id); add_values<double>("ska double", ska, [](int x) { return x * 1.5e3 - 77; }); add_values<std::string>("ska string", ska, str); add_values<std::uint8_t>("ska byte", ska, [](int x) { return (std::uint8_t)x; });
    add_values<int>("spread int", spread, id); add_values<float>("spread float", spread, [](int x) { return (float)x * 0.3f - 9; }); add_values<std::string>("spread string", spread, str); add_values<long long>("integer_spread", ispread, [](int x) { return (long long)x * 1000000007ll; }); add_values<double>("float_spread", fspread, [](int x) { return x / 7. - 5; }); add_values<std::string>("string_spread", sspread, str);
    add_values<int>("counting", counting, [](int x) { return x % 1000; }); add_values<std::string>("hybrid spread", hy, str); add_values<double>("hybrid ska", hys, [](int x) { return -x / 3.; });
    add_tagged("ska tagged", ska); add_tagged("spread tagged", spread);
    fixed_n<3>(); fixed_n<7>(); fixed_n<10>(); fixed_n<13>(); static const cppsort::sorting_network_sorter<26> s26{}; static const cppsort::merge_exchange_network_sorter<31> m31{}; add_array<26>("sorting_network26", s26); add_array<31>("merge_exchange31", m31); static const cppsort::odd_even_merge_network_sorter<8> oe8{}; static const cppsort::odd_even_merge_network_sorter<32> oe32{}; add_array<8>("odd_even8", oe8); add_array<32>("odd_even32", oe32);
    add_list<list_c>("aware merge|list", ca_merge); add_list<flist_c>("aware merge|forward_list", ca_merge); add_list<list_c>("aware mel|list", ca_mel); add_list<flist_c>("aware mel|forward_list", ca_mel);
    add_list<list_c>("aware insertion|list", ca_ins); add_list<flist_c>("aware insertion|forward_list", ca_ins); add_list<list_c>("aware selection|list", ca_sel); add_list<flist_c>("aware selection|forward_list", ca_sel);
    add_list<list_c>("stable self_sort|list", sselfs);
    add("self_sort|list", 3000, [](const std::vector<int>& k) { list_c c(k); tr = trace(); scrub_stack(); selfs(c.v, rec_less{}); return ids_of(c); });
    add("std::list sort", 3000, [](const std::vector<int>& k) { list_c c(k); tr = trace(); selfs(c.v, rec_less{}); return ids_of(c); });
}

#else                                     // 17: probes, sorted_indices, sorted_iterators, apply_permutation, global instances
#define ADD_PROBE(p, max) \
    add("probe " #p "|vector", max, [](const std::vector<int>& k) { vec_c c(k); tr = trace(); scrub_stack(); return (std::uint64_t)cppsort::probe::p(c.begin(), c.end(), rec_less{}); }); \
    add("probe " #p "|forward_list", max, [](const std::vector<int>& k) { flist_c c(k); tr = trace(); scrub_stack(); return (std::uint64_t)cppsort::probe::p(c.begin(), c.end(), key_greater{}, key_of{}); })
#define ADD_GLOBAL(s, T) \
    add("global " #s, 2000, [](const std::vector<int>& k) { vec_c c(k); tr = trace(); scrub_stack(); cppsort::s(c.begin(), c.end(), rec_less{}); return ids_of(c); }); \
    add("indices " #s, 2000, [](const std::vector<int>& k) { vec_c c(k); tr = trace(); scrub_stack(); auto idx = cppsort::utility::sorted_indices<cppsort::T>{}(c.begin(), c.end(), rec_less{}); std::uint64_t h = 1; for (auto i: idx) h = mix(h ^ (std::uint64_t)i); \
        cppsort::utility::apply_permutation(c.begin(), c.end(), idx.begin(), idx.end()); return h ^ ids_of(c); }); \
    add("iterators " #s, 2000, [](const std::vector<int>& k) { list_c c(k); tr = trace(); scrub_stack(); auto its = cppsort::utility::sorted_iterators<cppsort::T>{}(c.begin(), c.end(), key_greater{}, key_of{}); std::uint64_t h = 1; for (auto i: its) h = mix(h ^ (std::uint64_t)(unsigned)i->id); return h; })
static void all_tasks() {
    ADD_PROBE(block, 500); ADD_PROBE(dis, 500); ADD_PROBE(enc, 500); ADD_PROBE(exc, 500); ADD_PROBE(ham, 500); ADD_PROBE(inv, 500); ADD_PROBE(max, 500); ADD_PROBE(mono, 500); ADD_PROBE(osc, 200); ADD_PROBE(rem, 500); ADD_PROBE(runs, 500); ADD_PROBE(sus, 500);
    ADD_GLOBAL(heap_sort, heap_sorter); ADD_GLOBAL(pdq_sort, pdq_sorter); ADD_GLOBAL(merge_sort, merge_sorter); ADD_GLOBAL(tim_sort, tim_sorter); ADD_GLOBAL(smooth_sort, smooth_sorter); ADD_GLOBAL(spin_sort, spin_sorter); ADD_GLOBAL(quick_merge_sort, quick_merge_sorter); ADD_GLOBAL(splay_sort, splay_sorter); ADD_GLOBAL(split_sort, split_sorter); ADD_GLOBAL(verge_sort, verge_sorter); ADD_GLOBAL(slab_sort, slab_sorter); ADD_GLOBAL(poplar_sort, poplar_sorter); ADD_GLOBAL(mel_sort, mel_sorter); 
    add("natural", 1000, [](const std::vector<int>& k) { std::vector<std::string> v; for (int x: k) v.push_back("n" + std::to_string(x % 1000)); tr = trace(); scrub_stack(); cppsort::merge_sort(v, cppsort::natural_less); return values_of(v); });
    add("total_less", 1000, [](const std::vector<int>& k) { std::vector<double> v; for (int x: k) v.push_back(x % 7 ? x / 3. : x & 8 ? -0. : __builtin_nan("1")); tr = trace(); scrub_stack(); cppsort::pdq_sort(v, cppsort::total_less); return values_of(v); });
}
#endif

////////////////////////////////////////////////////////////

static outcome run(const task& t, const std::vector<int>& k) { outcome o; o.result = t.run(k); o.t = tr; return o; }

static std::vector<input> inputs(std::size_t max, std::uint64_t salt, int n) {
    std::vector<input> out; rng r(mix(ctx().seed * 77 + salt));
    for (int i = 0; i < n; ++i) {
        int size = i % 3 == 0 ? (int)r.below(40) : i % 3 == 1 ? 20 + (int)r.below(200) : (int)r.below(std::max<std::size_t>(max, 2));
        out.push_back(make_input((int)r.below((std::uint64_t)n_patterns), std::min(size, (int)max), r.next() % 1000003));
    }
    return out;
}

static void determinism() {
    rng r(mix(ctx().seed * 13 + PART));
    int per_task = ctx().thorough ? 400 : 40;
    std::uint64_t index = 0;
    for (auto& t: tasks) {
        if (ctx().nshards > 1 && (int)(index++ % (std::uint64_t)ctx().nshards) != ctx().shard) continue;
        for (auto& in: inputs(t.max, hash_str(t.name), per_task)) {
            std::string label = "C24|" + t.name + "|" + in.label();
            if (!begin_case(label)) continue;
            here = circumstances(); here.poison = 0;
            outcome base = run(t, in.keys);
            count_case(hash_str(label), in.keys.size() > 1);
            event("operations_traced", base.t.nc + base.t.nm);
            if (in.keys.size() > 20) sample(label + ": " + std::to_string(base.t.nc) + " comparisons, " + std::to_string(base.t.nm) + " moves and projections");
            for (int c = 0; c < 7; ++c) {
                static const int poisons[] = { 255, 0x55, 1, 256, 128, 64, 254 };
                if (c == 2) {            // after other work, also interrupted
                    auto& o = tasks[r.below(tasks.size())]; auto other = make_input((int)r.below((std::uint64_t)n_patterns), (int)r.below(std::min<std::size_t>(o.max, 300) + 1), r.next() % 1000003);
                    here = circumstances(); here.poison = 77; here.throw_at = r.chance(1, 2) ? 1 + r.below(60) : 0;
                    try { run(r.chance(1, 2) ? t : o, other.keys); } catch (const stop&) { event("interrupted_histories"); }
                    event("histories");
                }
                circumstances now; now.poison = poisons[c]; now.placement = c == 0 ? 0 : r.next() | 1;
                std::unique_ptr<char[]> junk(new char[1 + r.below(5000)]);
                outcome again;
                if (c == 4) { harness_scope hs; std::thread th([&] { here = now; again = run(t, in.keys); }); th.join(); }
                else if (c == 5) {       // called from a destructor while an exception is on its way
                    struct other {}; here = now;
                    try { struct on_exit { outcome& o; const task& t; const input& in; ~on_exit() { o = run(t, in.keys); } } e{ again, t, in }; throw other(); } catch (const other&) {}
                    event("executions_while_unwinding");
                }
                else if (c == 6) {       // the callbacks use the same objects meanwhile
                    if (base.t.nc + base.t.nm == 0) continue;
                    here = now; here.nest_at = 1 + r.below(base.t.nc + base.t.nm);
                    auto& o = r.chance(3, 4) ? t : tasks[r.below(tasks.size())]; auto other = make_input((int)r.below((std::uint64_t)n_patterns), (int)r.below(std::min<std::size_t>(o.max, 1500) + 1), r.next() % 1000003);
                    nested = [&] { run(o, other.keys); event("nested_operations"); };
                    again = run(t, in.keys);
                }
                else { here = now; again = run(t, in.keys); }
                here = circumstances();
                const char* what = !(again.t.compares == base.t.compares && again.t.nc == base.t.nc) ? "comparisons" : again.result != base.result ? "result" : !(again == base) ? "moves" : nullptr;
                if (what) violation("C24|" + t.name + "|" + what + " differ", "circumstances " + std::to_string(c) + ": " + std::to_string(base.t.nc) + "/" + std::to_string(base.t.nm) + " then " + std::to_string(again.t.nc) + "/" + std::to_string(again.t.nm) + ", keys " + show(in.keys, 40));
                event("executions_compared");
            }
        }
    }
}

static std::atomic<int> active{ 0 };
static void threads() {
    const int nt = 6; int rounds = ctx().thorough ? 150 : 8;
    struct job { const task* t; input in; outcome want; };
    for (int round = 0; round < rounds; ++round) {
        if (!begin_case("C24|threads|" + std::to_string(PART) + "|" + std::to_string(round))) continue;
        here = circumstances();
        std::vector<job> jobs;
        for (auto& t: tasks) for (auto& in: inputs(std::min<std::size_t>(t.max, PART == 16 ? 2500 : 600), hash_str(t.name) + (unsigned)round, 3)) { job j{ &t, in, run(t, in.keys) }; jobs.push_back(j); count_case(hash_str(t.name + in.label()), in.keys.size() > 1); }
        struct local { std::vector<std::string> bad; std::uint64_t calls = 0, overlapping = 0, ops = 0; };
        std::vector<local> res(nt); std::vector<std::thread> ths; std::atomic<bool> go{ false };
        for (int k = 0; k < nt; ++k) ths.emplace_back([&, k] {
            harness_scope hs; rng r(mix(ctx().seed * 1000 + (unsigned)(round * 16 + k)));
            here = circumstances(); here.yield = r.next() | 1;
            std::size_t start = r.below(jobs.size());
            while (!go.load(std::memory_order_relaxed)) std::this_thread::yield();
            // half of the rounds: all threads in the same order, so that they are in the same code together
            for (std::size_t i = 0; i < jobs.size(); ++i) {
                auto& j = jobs[(i + (round % 2 ? 0 : start)) % jobs.size()];
                int others = active.fetch_add(1, std::memory_order_relaxed);
                outcome o = run(*j.t, j.in.keys);
                active.fetch_sub(1, std::memory_order_relaxed);
                ++res[(std::size_t)k].calls; res[(std::size_t)k].overlapping += others > 0; res[(std::size_t)k].ops += o.t.nc;
                if (!(o == j.want)) res[(std::size_t)k].bad.push_back("C24|threads|" + j.t->name);
            }
        });
        go.store(true, std::memory_order_relaxed);
        for (auto& t: ths) t.join();
        for (auto& l: res) { for (auto& b: l.bad) violation(b + "|differs from the sequential execution", ""); event("concurrent_calls", l.calls); event("overlapping_calls", l.overlapping); event("comparisons_in_threads", l.ops); }
    }
}

int main(int argc, char** argv) {
    init(argc, argv);
    all_tasks();
    event("tasks", tasks.size());
    if (MODE) threads(); else determinism();
    return finish();
}
