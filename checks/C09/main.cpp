// C09: failing memory allocations.
#include "vh.h"
#include "vh_alloc.h"
#include "vh_elem.h"
#include "vh_sorters.h"
#include <list>

using namespace vh;

#if PART == 6 || PART == 7 || PART == 9
using E = elem_dc;
#else
using E = elem;
#endif

template<typename It> view<It> whole(arena<E>& a) { return { It(a.begin(), a.begin(), a.end()), It(a.end(), a.begin(), a.end()) }; }

// Documented as never throwing std::bad_alloc, or as using O(1) memory (the documentation lets the others throw)
static bool never_throws(const std::string& n) {
    static const char* names[] = {
        "merge", "pdq", "quick", "quick_merge", "split", "std", "heap", "smooth", "selection", "insertion", "default",
        "grail", "grail_fixed16", "grail_fixed3", "wiki", "wiki_fixed0", "wiki_fixed8",
        "d_ary_heap2", "d_ary_heap3", "d_ary_heap4", "d_ary_heap5", "d_ary_heap7", "d_ary_heap16",
        "split_quick", "hybrid3", "hybrid_nested", "counting_quick", "counting_pdq", "stable_std"
    };
    for (auto x: names) if (n == x) return true;
    return false;
}

struct plan { const char* kind; std::uint64_t at, from, above; std::string text() const { return std::string(kind) + " " + std::to_string(at ? at : from ? from : above); } };

template<typename Call>
void explore(const std::string& base, const input& in, bool nothrow, bool stable, Call call, unsigned per_kind) {
    auto& m = mon();
    auto& al = allocs();
    if (!begin_case(base + "|" + in.label())) return;
    m.key = base; m.in_call = false;
    std::uint64_t total = 0, largest = 0;
    {
        arena<E> a(in.keys);
        m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
        al.no_fault(); m.in_call = true; al.arm();
        try { call(a); } catch (const runaway&) { al.disarm(); m.in_call = false; m.bad("runaway", show(in.keys)); return; }
        al.disarm(); m.in_call = false;
        total = al.calls; largest = al.largest;
        judge_elems(a.begin(), in.size(), in.keys, false, stable);
    }
    if (!total) { event("inputs_without_allocation"); return; }
    event("inputs_with_allocations");
    rng r(in.hash() ^ hash_str(base) ^ ctx().seed);
    std::vector<plan> plans;
    auto pick = [&](std::uint64_t n) {
        std::vector<std::uint64_t> ks;
        if (n <= per_kind) for (std::uint64_t k = 1; k <= n; ++k) ks.push_back(k);
        else {
            ks = {1, 2, 3, n / 2, n - 1, n};
            while (ks.size() < per_kind) ks.push_back(1 + r.below(n));
        }
        return ks;
    };
    for (auto k: pick(total)) { plans.push_back({"fail-at", k, 0, ~0ull}); plans.push_back({"fail-from", 0, k, ~0ull}); }
    std::uint64_t unit = sizeof(E);
    for (auto k: pick(largest / unit + 1)) plans.push_back({"fail-above", 0, 0, (k - 1) * unit});
    plans.push_back({"fail-above", 0, 0, largest / 2});
    plans.push_back({"fail-above", 0, 0, largest - 1});
    for (auto& p: plans) {
        std::string key = base + "|" + p.kind;
        m.key = key;
        count_case(hash_str(key + p.text()) ^ in.hash(), true);
        long long live0 = m.live;
        {
            arena<E> a(in.keys);
            m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
            long long live1 = m.live;
            int outcome = 0;
            al.no_fault(); al.fail_at = p.at; al.fail_from = p.from; al.fail_above = p.above;
            al.arm(); m.in_call = true;
            try { call(a); outcome = 1; }
            catch (const std::bad_alloc&) { outcome = 2; }
            catch (const runaway&) { outcome = 3; }
            catch (...) { outcome = 4; }
            m.in_call = false; al.disarm();
            long long blocks = al.blocks; std::uint64_t bytes = al.bytes, failed = al.failed;
            al.no_fault();
            event("failed_allocations", failed);
            std::string where = p.text() + " of " + std::to_string(total) + " allocations, largest " + std::to_string(largest) + "; input " + show(in.keys);
            if (outcome == 2) {
                event("bad_alloc_propagated");
                if (nothrow) m.bad("throws-bad_alloc", where);
                if (!failed) m.bad("bad_alloc-without-failure", where);
            } else if (outcome == 1) {
                if (failed) event("sorted_despite_failures");
                judge_elems(a.begin(), in.size(), in.keys, false, stable);
            } else m.bad(outcome == 3 ? "runaway" : "other-exception", where);
            if (m.live != live1) m.bad("object-balance", "objects alive: " + std::to_string(m.live - live1) + " more than before; " + where);
            if (blocks != 0) m.bad("memory-leak", std::to_string(blocks) + " blocks, " + std::to_string(bytes) + " bytes; " + where);
            if (!a.guards_intact()) m.bad("outside-range", where);
            bool valid = true;
            for (std::size_t i = 0; i < in.size(); ++i) if (!a.begin()[i].object()) { m.bad("invalid-object", "position " + std::to_string(i) + " holds no object; " + where); valid = false; break; }
            std::vector<char> seen(in.size(), 0);
            for (std::size_t i = 0; i < in.size() && valid; ++i) {
                E& e = a.begin()[i];
                if (!e.alive()) { event("moved_from_after_bad_alloc"); continue; }
                if (e.id < 0 || (std::size_t)e.id >= in.size() || seen[(std::size_t)e.id]) { m.bad("duplicated", "position " + std::to_string(i) + "; " + where); break; }
                seen[(std::size_t)e.id] = 1;
            }
            if (valid && outcome == 2) {
                for (std::size_t i = 0; i < in.size(); ++i) { E t(in.keys[i], (int)i); a.begin()[i] = std::move(t); }
                m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
                m.in_call = true;
                try { call(a); } catch (...) { m.in_call = false; m.bad("again", "sorting again failed; " + where); }
                m.in_call = false;
                judge_elems(a.begin(), in.size(), in.keys, false, stable);
            }
        }
        if (m.live != live0) { m.bad("object-balance-final", p.text()); m.live = live0; }
    }
}

template<typename F>
void inputs(vh_speed sp, std::uint64_t salt, bool light, F f) {
    bool th = ctx().thorough;
    std::vector<int> sizes = light ? std::vector<int>{3, 12, 17, 33, 41, 50, 97, 130, 260, 600} : std::vector<int>{2, 3, 5, 9, 13, 16, 17, 25, 32, 33, 40, 50, 64, 65, 81, 97, 130, 200, 260, 513, 1025};
    if (th) for (int n: {4, 7, 12, 20, 28, 31, 48, 70, 100, 129, 150, 300, 777, 2100, 5000}) sizes.push_back(n);
    std::uint64_t base = mix(ctx().seed * 37 + salt) % 1000000007ull;
    unsigned rot = (unsigned)(base % n_patterns);
    for (int n: sizes) {
        if (sp != vh_fast && n > 130) continue;
        int k = th ? 12 : n <= 300 ? 5 : 2;
        if (light && !th) k = 3;
        for (int i = 0; i < k; ++i, ++rot) f(make_input(i == 0 ? 0 : i == 1 ? 1 : (int)(rot % n_patterns), n, base + rot));
    }
}

static unsigned per_kind() { return ctx().thorough ? 150 : 30; }

template<template<typename> class It, typename S>
void combos(const char* name, const char* itname, vh_speed sp, bool stable, const S& sorter) {
    std::string base = std::string("C09|") + name + "|" + itname;
    inputs(sp, hash_str(base), true, [&](const input& in) {
        explore(base, in, never_throws(name), stable, [&](arena<E>& a) { auto v = whole<It<E>>(a); sorter(v.begin(), v.end(), cmp_int{}, proj_key{}); }, per_kind());
    });
}
template<typename S>
void raw_combos(const char* name, vh_speed sp, bool stable, const S& sorter) {
    std::string base = std::string("C09|") + name + "|pointer";
    inputs(sp, hash_str(base + "p"), true, [&](const input& in) {
        explore(base + ",proj", in, never_throws(name), stable, [&](arena<E>& a) { auto v = view<E*>{a.begin(), a.end()}; sorter(v, cmp_int{}, proj_key{}); }, per_kind());
    });
    inputs(sp, hash_str(base), false, [&](const input& in) {
        explore(base, in, never_throws(name), stable, [&](arena<E>& a) { sorter(a.begin(), a.end(), cmp_key{}); }, per_kind());
    });
}
template<vh_cat C> struct cat_c {};
template<typename S> void all(const char* n, vh_speed sp, bool st, const S& s, cat_c<vh_ra>) { raw_combos(n, sp, st, s); }
template<typename S> void all(const char* n, vh_speed sp, bool st, const S& s, cat_c<vh_bidi>) { combos<chk_bidi>(n, "bidi", sp, st, s); all(n, sp, st, s, cat_c<vh_ra>{}); }
template<typename S> void all(const char* n, vh_speed sp, bool st, const S& s, cat_c<vh_fwd>) { combos<chk_fwd>(n, "fwd", sp, st, s); all(n, sp, st, s, cat_c<vh_bidi>{}); }

int main(int argc, char** argv) {
    init(argc, argv);
    mon().lenient_move = true;
    std::set_terminate([] { violation(mon().key + "|terminate", "std::terminate called; input " + ctx().label); finish(); std::fflush(nullptr); _exit(0); });
    int k = 0; (void)k;
#define X(name, type, cat, speed, stable) if (ctx().nshards == 1 || (k++ % ctx().nshards) == ctx().shard) all(#name, speed, stable, type{}, cat_c<cat>{});
    VH_SORTERS_PART(X)
    sample("last case: " + ctx().label);
    return finish();
}
