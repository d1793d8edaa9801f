// C09: failing allocations in probes, type-specific sorters, utilities and list algorithms.
#include "vh.h"
#include "vh_alloc.h"
#include "vh_elem.h"
#include "vh_probes.h"
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include <cpp-sort/probes.h>
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/adapters/self_sort_adapter.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/utility/sorted_indices.h>
#include <cpp-sort/utility/sorted_iterators.h>
#include <cpp-sort/utility/apply_permutation.h>
#include <forward_list>
#include <list>

using namespace vh;

struct plan { const char* kind; std::uint64_t at, from, above; std::string text() const { return std::string(kind) + " " + std::to_string(at ? at : from ? from : above); } };

static std::vector<plan> plans_for(std::uint64_t total, std::uint64_t largest, std::uint64_t unit, unsigned per_kind, rng& r) {
    std::vector<plan> plans;
    auto pick = [&](std::uint64_t n) {
        std::vector<std::uint64_t> ks;
        if (n <= per_kind) for (std::uint64_t k = 1; k <= n; ++k) ks.push_back(k);
        else { ks = {1, 2, 3, n / 2, n - 1, n}; while (ks.size() < per_kind) ks.push_back(1 + r.below(n)); }
        return ks;
    };
    for (auto k: pick(total)) { plans.push_back({"fail-at", k, 0, ~0ull}); plans.push_back({"fail-from", 0, k, ~0ull}); }
    for (auto k: pick(largest / unit + 1)) plans.push_back({"fail-above", 0, 0, (k - 1) * unit});
    return plans;
}

static unsigned per_kind() { return ctx().thorough ? 100 : 16; }

// `make` builds the state, `call` runs under faults, `judge(state, threw)` returns an empty string or what is wrong
template<typename Make, typename Call, typename Judge>
void explore(const std::string& base, const input& in, bool nothrow, std::uint64_t unit, Make make, Call call, Judge judge) {
    auto& m = mon(); auto& al = allocs();
    if (!begin_case(base + "|" + in.label())) return;
    m.key = base;
    std::uint64_t total, largest;
    {
        auto s = make(in);
        m.reset_counters(); m.budget = 60ull * in.size() * in.size() + 20000;
        al.no_fault(); m.in_call = true; al.arm();
        call(s);
        al.disarm(); m.in_call = false;
        total = al.calls; largest = al.largest;
        std::string w = judge(s, in, false);
        if (!w.empty()) m.bad("result", w + "; input " + show(in.keys));
    }
    if (!total) { event("inputs_without_allocation"); count_case(hash_str(base) ^ in.hash(), false); return; }
    event("inputs_with_allocations");
    rng r(in.hash() ^ hash_str(base) ^ ctx().seed);
    for (auto& p: plans_for(total, largest, unit, per_kind(), r)) {
        m.key = base + "|" + p.kind;
        count_case(hash_str(m.key + p.text()) ^ in.hash(), true);
        long long live0 = m.live;
        {
            auto s = make(in);
            m.reset_counters(); m.budget = 60ull * in.size() * in.size() + 20000;
            al.no_fault(); al.fail_at = p.at; al.fail_from = p.from; al.fail_above = p.above;
            long long live1 = m.live;
            int outcome = 0;
            m.in_call = true; al.arm();
            try { call(s); outcome = 1; } catch (const std::bad_alloc&) { outcome = 2; } catch (...) { outcome = 3; }
            al.disarm(); m.in_call = false; al.no_fault();
            long long blocks = al.blocks;
            event("failed_allocations", al.failed);
            std::string where = p.text() + " of " + std::to_string(total) + " allocations; input " + show(in.keys);
            if (outcome == 3) m.bad("other-exception", where);
            if (outcome == 2) { event("bad_alloc_propagated"); if (nothrow) m.bad("throws-bad_alloc", where); }
            if (outcome == 1 && al.failed) event("completed_despite_failures");
            if (blocks - s.kept_blocks() != 0) m.bad("memory-leak", std::to_string(blocks) + " blocks; " + where);
            if (m.live - live1 + s.lost() != 0) m.bad("object-balance", where);
            std::string w = judge(s, in, outcome == 2);
            if (!w.empty()) m.bad("result", w + "; " + where);
        }
        if (m.live != live0) { m.bad("object-balance-final", p.text()); m.live = live0; }
    }
}

template<typename F>
void inputs(std::uint64_t salt, F f) {
    std::vector<int> sizes = {2, 3, 5, 9, 16, 17, 33, 40, 65, 97, 130, 260, 513};
    if (ctx().thorough) for (int n: {4, 7, 12, 24, 50, 100, 200, 1025, 3000}) sizes.push_back(n);
    std::uint64_t base = mix(ctx().seed * 41 + salt) % 1000000007ull;
    unsigned rot = (unsigned)(base % n_patterns);
    for (int n: sizes) for (int i = 0; i < (ctx().thorough ? 16 : 4); ++i, ++rot) f(make_input(i == 0 ? 0 : i == 1 ? 1 : (int)(rot % n_patterns), n, base + rot));
}

////////////////////////////////////////////////////////////
struct probe_state {
    arena<elem> a; long long result = 0;
    explicit probe_state(const input& in): a(in.keys) {}
    long long kept_blocks() const { return 0; }
    long long lost() const { return 0; }
};
template<typename Probe, typename Want>
void probes(const char* name, const Probe& probe, Want want, bool nothrow) {
    auto make = [](const input& in) { return probe_state(in); };
    auto judge = [&](probe_state& s, const input& in, bool threw) -> std::string {
        for (std::size_t i = 0; i < in.size(); ++i) { elem& e = s.a.begin()[i]; if (!e.alive() || e.key != in.keys[i] || e.id != (int)i) return "collection modified at " + std::to_string(i); }
        if (threw) return "";
        long long w = want(in.keys);
        if (w >= 0 && s.result != w) return "returned " + std::to_string(s.result) + " instead of " + std::to_string(w);
        event("probe_values");
        return "";
    };
    std::string base = std::string("C09|probe-") + name;
    inputs(hash_str(base), [&](const input& in) {
        explore(base + "|fwd", in, nothrow, 8, make, [&](probe_state& s) { using I = chk_fwd<elem>; s.result = (long long)probe(I(s.a.begin(), s.a.begin(), s.a.end()), I(s.a.end(), s.a.begin(), s.a.end()), cmp_key{}); }, judge);
        explore(base + "|bidi", in, nothrow, 8, make, [&](probe_state& s) { using I = chk_bidi<elem>; s.result = (long long)probe(I(s.a.begin(), s.a.begin(), s.a.end()), I(s.a.end(), s.a.begin(), s.a.end()), cmp_int{}, proj_key{}); }, judge);
        explore(base + "|ra", in, nothrow, 8, make, [&](probe_state& s) { using I = chk_ra<elem>; s.result = (long long)probe(view<I>{I(s.a.begin(), s.a.begin(), s.a.end()), I(s.a.end(), s.a.begin(), s.a.end())}, cmp_int{}, proj_key_ref{}); }, judge);
    });
}

////////////////////////////////////////////////////////////
struct ints_state {
    std::vector<int> v;
    explicit ints_state(const input& in): v(in.keys) {}
    long long kept_blocks() const { return 0; }
    long long lost() const { return 0; }
};
struct strings_state {
    std::vector<std::string> v;
    explicit strings_state(const input& in) { for (int k: in.keys) { char b[64]; std::snprintf(b, sizeof b, "%08d and some more to be on the heap", k + 10000000); v.push_back(b); } }
    long long kept_blocks() const { return 0; }
    long long lost() const { return 0; }
};
template<typename S>
void typed(const char* name, const S& sorter, bool strings) {
    std::string base = std::string("C09|") + name;
    inputs(hash_str(base), [&](const input& in) {
        explore(base + "|int", in, false, 8, [](const input& i) { return ints_state(i); }, [&](ints_state& s) { sorter(s.v); },
            [](ints_state& s, const input& i, bool threw) -> std::string {
                if (threw) return "";
                auto w = i.keys; std::sort(w.begin(), w.end()); return w == s.v ? "" : "not sorted"; });
        (void)strings;
    });
}
template<typename S>
void typed_strings(const char* name, const S& sorter) {
    std::string base = std::string("C09|") + name;
    inputs(hash_str(base), [&](const input& in) {
        explore(base + "|string", in, false, 8, [](const input& i) { return strings_state(i); }, [&](strings_state& s) { sorter(s.v); },
            [](strings_state& s, const input& i, bool threw) -> std::string {
                if (threw) return "";
                auto w = strings_state(i).v; std::sort(w.begin(), w.end()); return w == s.v ? "" : "not sorted"; });
    });
}

////////////////////////////////////////////////////////////
template<typename L>
struct list_state {
    L l; std::vector<const elem*> nodes;
    explicit list_state(const input& in) { int i = (int)in.size(); (void)i; for (std::size_t k = in.size(); k-- > 0;) l.emplace_front(in.keys[k], (int)k); for (auto& e: l) nodes.push_back(&e); }
    list_state(list_state&&) = default;
    long long kept_blocks() const { return 0; }
    // melsort on lists may lose (destroy) the nodes that are in its own lists when it is interrupted
    long long lost() const { return (long long)nodes.size() - (long long)std::distance(l.begin(), l.end()); }
};
template<typename L, typename S>
void lists(const char* name, const S& sorter, bool nothrow) {
    bool may_lose = !nothrow;
    std::string base = std::string("C09|") + name;
    inputs(hash_str(base), [&](const input& in) {
        if (in.size() > 300) return;
        explore(base, in, nothrow, 8, [](const input& i) { return list_state<L>(i); }, [&](list_state<L>& s) { sorter(s.l, cmp_int{}, proj_key{}); },
            [may_lose](list_state<L>& s, const input& i, bool threw) -> std::string {
                std::vector<char> seen(i.size(), 0); std::size_t n = 0; const elem* prev = nullptr;
                for (auto& e: s.l) {
                    if (!e.alive() || e.id < 0 || (std::size_t)e.id >= i.size() || seen[(std::size_t)e.id] || e.key != i.keys[(std::size_t)e.id]) return "element lost or duplicated";
                    if (s.nodes[(std::size_t)e.id] != &e) return "element moved to another node";
                    seen[(std::size_t)e.id] = 1; ++n;
                    if (!threw && prev && e.key < prev->key) return "not sorted";
                    prev = &e;
                }
                return n == i.size() || (threw && may_lose) ? "" : "elements lost"; });
    });
}

////////////////////////////////////////////////////////////
struct indices_state {
    arena<elem> a; std::vector<std::ptrdiff_t> idx; std::vector<elem*> its; long long kept = 0;
    explicit indices_state(const input& in): a(in.keys) {}
    long long kept_blocks() const { return (idx.capacity() ? 1 : 0) + (its.capacity() ? 1 : 0); }
    long long lost() const { return 0; }
};

int main(int argc, char** argv) {
    init(argc, argv);
    mon().lenient_move = true;
    std::set_terminate([] { violation(mon().key + "|terminate", "std::terminate called; input " + ctx().label); finish(); std::fflush(nullptr); _exit(0); });
    using namespace cppsort;
    int k = 0;
    auto mine = [&] { return (k++ % ctx().nshards) == ctx().shard; };
    auto distinct_only = [](long long (*f)(const ref::keys&)) { return [f](const ref::keys& v) { return ref::distinct(v) ? f(v) : -1ll; }; };
    if (mine()) probes("dis", probe::dis, ref::dis, true);
    if (mine()) probes("osc", probe::osc, ref::osc, true);
    if (mine()) { probes("block", probe::block, distinct_only(ref::block), false); probes("exc", probe::exc, distinct_only(ref::exc), false); }
    if (mine()) { probes("enc", probe::enc, ref::enc, false); probes("ham", probe::ham, ref::ham, false); }
    if (mine()) { probes("inv", probe::inv, ref::inv, false); probes("max", probe::max, ref::max, false); }
    if (mine()) { probes("rem", probe::rem, ref::rem, false); probes("sus", probe::sus, ref::sus, false); probes("runs", probe::runs, ref::runs, true); probes("mono", probe::mono, ref::mono, true); }
    if (mine()) { typed("ska", ska_sort, true); typed("spread", spread_sort, true); typed("counting", counting_sort, false); typed_strings("ska", ska_sort); typed_strings("spread", spread_sort); }
    if (mine()) {
        lists<std::list<elem>>("list-mel", container_aware_adapter<mel_sorter>{}, false); lists<std::forward_list<elem>>("forward_list-mel", container_aware_adapter<mel_sorter>{}, false);
        lists<std::list<elem>>("list-merge", container_aware_adapter<merge_sorter>{}, true); lists<std::forward_list<elem>>("forward_list-merge", container_aware_adapter<merge_sorter>{}, true);
        lists<std::list<elem>>("list-insertion", container_aware_adapter<insertion_sorter>{}, true); lists<std::forward_list<elem>>("forward_list-insertion", container_aware_adapter<insertion_sorter>{}, true);
        lists<std::list<elem>>("list-selection", container_aware_adapter<selection_sorter>{}, true); lists<std::forward_list<elem>>("forward_list-selection", container_aware_adapter<selection_sorter>{}, true);
    }
    if (mine()) {
        auto judge = [](indices_state& s, const input& in, bool threw) -> std::string {
            for (std::size_t i = 0; i < in.size(); ++i) { elem& e = s.a.begin()[i]; if (!e.alive() || e.id != (int)i) return "collection modified"; }
            if (threw) return "";
            std::vector<std::size_t> q;
            if (!s.idx.empty()) for (auto i: s.idx) q.push_back((std::size_t)i); else for (auto p: s.its) q.push_back((std::size_t)(p - s.a.begin()));
            if (q.size() != in.size()) return "wrong number of indices";
            std::vector<char> seen(q.size(), 0);
            for (std::size_t i = 0; i < q.size(); ++i) { if (q[i] >= q.size() || seen[q[i]]) return "not a permutation"; seen[q[i]] = 1; if (i && in.keys[q[i]] < in.keys[q[i - 1]]) return "not sorted"; }
            return "";
        };
        auto make = [](const input& in) { return indices_state(in); };
        auto sj = utility::sorted_indices<smooth_sorter>{}; auto sm = utility::sorted_indices<merge_sorter>{};
        auto tj = utility::sorted_iterators<quick_sorter>{}; auto tm = utility::sorted_iterators<tim_sorter>{};
        inputs(hash_str("indices"), [&](const input& in) {
            explore("C09|sorted_indices-smooth", in, false, 8, make, [&](indices_state& s) { s.idx = sj(s.a.begin(), s.a.end(), cmp_key{}); }, judge);
            explore("C09|sorted_indices-merge", in, false, 8, make, [&](indices_state& s) { s.idx = sm(view<elem*>{s.a.begin(), s.a.end()}, cmp_int{}, proj_key{}); }, judge);
            explore("C09|sorted_iterators-quick", in, false, 8, make, [&](indices_state& s) { s.its = tj(s.a.begin(), s.a.end(), cmp_key{}); }, judge);
            explore("C09|sorted_iterators-tim", in, false, 8, make, [&](indices_state& s) { s.its = tm(view<elem*>{s.a.begin(), s.a.end()}, cmp_int{}, proj_key{}); }, judge);
        });
    }
    sample("last case: " + ctx().label);
    return finish();
}
