// C06 and C07: instrumented elements and checked iterators through every sorter and adapter.
// C06: built with ASan+UBSan and the audits of the library; C07: without sanitizers, on more inputs.
#include "vh.h"
#include "vh_elem.h"
#include "vh_sorters.h"
#include "vh_killers.h"
#include <forward_list>
#include <list>

#ifndef PID
#define PID "C07"
#endif
#ifndef LIGHT
#define LIGHT 0
#endif
using namespace vh;

#if PART == 6 || PART == 7 || PART == 9
using E = elem_dc;                       // buffered sorters: default-constructible elements
#else
using E = elem;
#endif

static profile prof(vh_speed sp) {
    profile p;
    bool th = ctx().thorough;
    p.exhaustive = LIGHT ? (th ? 6 : 4) : (th ? 7 : 5);
    p.dense_from = LIGHT ? 5 : 6;
    p.dense_patterns = LIGHT ? (th ? 12 : 2) : (th ? 24 : 6);
    p.sizes.clear();
    if (sp == vh_quadratic) { p.large = {71, 100, 129, 200, 257}; p.large_patterns = LIGHT ? 2 : 6; }
    else if (sp == vh_heavy) { p.large = {71, 100, 129, 200, 257, 512}; p.large_patterns = LIGHT ? 2 : 6; }
    else { p.large = {71, 80, 81, 96, 100, 127, 128, 129, 150, 191, 200, 255, 256, 257, 300, 511, 512, 513, 600, 777, 1025}; p.large_patterns = LIGHT ? 3 : 9;
        p.sizes = LIGHT ? std::vector<int>{} : std::vector<int>{97, 260};
        if (!LIGHT) { p.large.push_back(2048); p.large.push_back(3000); } }
    if (th) { p.large_patterns = 36; if (sp == vh_fast) { p.large.push_back(5000); p.large.push_back(LIGHT ? 2049 : 10000); } }
    return p;
}

static std::uint64_t reads_before;

// One call on an arena of instrumented elements
template<typename Call>
void case_elems(const std::string& key, const input& in, bool desc, bool stable, Call call) {
    std::string label = key + "|" + in.label();
    if (!begin_case(label)) return;
    count_case(hash_str(key) ^ in.hash(), in.nontrivial());
    auto& m = mon();
    m.key = key;
    m.in_call = false;
    long long live0 = m.live;
    {
        arena<E> a(in.keys);
        m.reset_counters();
        m.budget = 40ull * in.size() * in.size() + 20000;
        long long live1 = m.live;
        bool ok = true;
        m.in_call = true;
        try { call(a); }
        catch (const runaway&) { ok = false; m.bad("runaway", show(in.keys)); }
        catch (const std::exception& e) { ok = false; m.bad("exception", e.what()); }
        m.in_call = false;
        event("comparisons", m.compares); event("projections", m.projections); event("moves", m.moves); event("temporaries", m.ctor);
        if (m.live != live1) m.bad("live-balance", "objects alive: " + std::to_string(live1) + " before the call, " + std::to_string(m.live) + " after; input " + show(in.keys));
        if (ok) judge_elems(a.begin(), in.size(), in.keys, desc, stable);
        if (!a.guards_intact()) m.bad("guards", "an element outside the range was changed; input " + show(in.keys));
    }
    if (m.live != live0) { m.bad("live-balance-final", std::to_string(m.live - live0)); m.live = live0; }
}

template<typename It> view<It> whole(arena<E>& a) { return { It(a.begin(), a.begin(), a.end()), It(a.end(), a.begin(), a.end()) }; }

template<template<typename> class It, typename S>
void combos(const char* name, const char* itname, vh_speed sp, bool stable, const S& sorter) {
    std::string base = std::string(PID "|") + name + "|" + itname;
    using I = It<E>;
    for_each_input(prof(sp), hash_str(base + "a"), [&](const input& in) {
        case_elems(base + ",less", in, false, stable, [&](arena<E>& a) { auto v = whole<I>(a); sorter(v.begin(), v.end(), cmp_key{}); });
    });
    for_each_input(prof(sp), hash_str(base + "b"), [&](const input& in) {
        case_elems(base + ",iterable,desc,proj", in, true, stable, [&](arena<E>& a) { auto v = whole<I>(a); sorter(v, cmp_int_desc{}, proj_key_ref{}); });
    });
}

template<typename S>
void list_combos(const char* name, vh_speed sp, bool stable, const S& sorter) {
    // node-based: neighbours in memory are unrelated
    std::string base = std::string(PID "|") + name + "|list,proj";
    for_each_input(prof(sp), hash_str(base), [&](const input& in) {
        std::string label = base + "|" + in.label();
        if (!begin_case(label)) return;
        count_case(hash_str(base) ^ in.hash(), in.nontrivial());
        auto& m = mon(); m.key = base; m.in_call = false;
        long long live0 = m.live;
        {
            std::list<E> l; int id = 0; for (int k: in.keys) l.emplace_back(k, id++);
            m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
            m.in_call = true;
            try { sorter(l, cmp_int{}, proj_key{}); } catch (const runaway&) { m.bad("runaway", show(in.keys)); }
            m.in_call = false;
            if (m.live != live0 + (long long)in.size()) m.bad("live-balance", "input " + show(in.keys));
            std::vector<char> seen(in.size(), 0); const E* prev = nullptr; std::size_t i = 0;
            for (auto& e: l) {
                if (!e.alive()) { m.bad("moved-from-left", "input " + show(in.keys)); break; }
                if (e.id < 0 || (std::size_t)e.id >= in.size() || seen[(std::size_t)e.id] || in.keys[(std::size_t)e.id] != e.key) { m.bad("permutation", show(in.keys)); break; }
                seen[(std::size_t)e.id] = 1;
                if (prev && e.key < prev->key) { m.bad("order", show(in.keys)); break; }
                if (prev && stable && e.key == prev->key && e.id < prev->id) { m.bad("stability", show(in.keys)); break; }
                prev = &e; ++i;
            }
            event("elements_judged", i);
        }
        if (m.live != live0) { m.bad("live-balance-final", ""); m.live = live0; }
    });
}

template<typename S>
void raw_combos(const char* name, vh_speed sp, bool stable, const S& sorter) {
    std::string base = std::string(PID "|") + name + "|pointer";
    for_each_input(prof(sp), hash_str(base + "p"), [&](const input& in) {
        case_elems(base + ",proj", in, false, stable, [&](arena<E>& a) { sorter(a.begin(), a.end(), cmp_int{}, proj_key{}); });
    });
    for_each_input(prof(sp), hash_str(base + "pl"), [&](const input& in) {
        case_elems(base + ",desc", in, true, stable, [&](arena<E>& a) { sorter(a.begin(), a.end(), cmp_key_desc{}); });
    });
    // plain integers in an exactly sized allocation, and in the middle of a larger one
    for_each_input(prof(sp), hash_str(base + "i"), [&](const input& in) {
        std::string key = base + "<int>";
        if (!begin_case(key + "|" + in.label())) return;
        count_case(hash_str(key) ^ in.hash(), in.nontrivial());
        std::vector<int> ref = in.keys; std::sort(ref.begin(), ref.end());
        {
            std::unique_ptr<int[]> p(new int[in.size()]);
            std::copy(in.keys.begin(), in.keys.end(), p.get());
            sorter(p.get(), p.get() + in.size());
            if (!std::equal(ref.begin(), ref.end(), p.get())) violation(key + "|result", show(in.keys));
        }
        {
            std::vector<int> v(in.size() + 16);
            for (int i = 0; i < 8; ++i) { v[(std::size_t)i] = i % 2 ? 2147483647 : -2147483647; v[in.size() + 8 + (std::size_t)i] = i % 2 ? -2147483647 : 2147483647; }
            auto before = v;
            std::copy(in.keys.begin(), in.keys.end(), v.begin() + 8);
            std::copy(ref.begin(), ref.end(), before.begin() + 8);
            std::reverse(before.begin() + 8, before.end() - 8);
            sorter(v.begin() + 8, v.end() - 8, std::greater<>{});
            if (v != before) violation(key + "|result-or-outside", "sub-range; input " + show(in.keys));
        }
        event("elements_judged", 2 * in.size());
    });
}

template<vh_cat C> struct cat_c {};
template<typename S> void all(const char* n, vh_speed sp, bool st, const S& s, cat_c<vh_ra>) { combos<chk_ra>(n, "ra", sp, st, s); raw_combos(n, sp, st, s); }
template<typename S> void all(const char* n, vh_speed sp, bool st, const S& s, cat_c<vh_bidi>) { combos<chk_bidi>(n, "bidi", sp, st, s); list_combos(n, sp, st, s); all(n, sp, st, s, cat_c<vh_ra>{}); }
template<typename S> void all(const char* n, vh_speed sp, bool st, const S& s, cat_c<vh_fwd>) { combos<chk_fwd>(n, "fwd", sp, st, s); all(n, sp, st, s, cat_c<vh_bidi>{}); }

int main(int argc, char** argv) {
    init(argc, argv);
#if PART == 11 || PART == 12 || PART == 15
    mon().lenient_move = true;           // a self-move of a moved-from element goes through a temporary with associated iterators
#endif
    int k = 0; (void)k;
#define X(name, type, cat, speed, stable) if (ctx().nshards == 1 || (k++ % ctx().nshards) == ctx().shard) { find_killers<(int)cat>(type{}, speed != vh_fast); all(#name, speed, stable, type{}, cat_c<cat>{}); }
    VH_SORTERS_PART(X)
    sample("last case: " + ctx().label);
    return finish();
}
