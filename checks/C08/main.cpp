// C08: exceptions thrown by the comparator, the projection or a move, at any point.
#include "vh.h"
#include "vh_alloc.h"
#include "vh_elem.h"
#include "vh_sorters.h"
#include "vh_killers.h"
#include <list>

using namespace vh;

#if PART == 6 || PART == 7 || PART == 9
using E = elem_dc;
#else
using E = elem;
#endif

#include "explore.h"

template<template<typename> class It, typename S>
void combos(const char* name, const char* itname, vh_speed sp, const S& sorter) {
    std::string base = std::string("C08|") + name + "|" + itname;
    inputs(sp, hash_str(base), true, [&](const input& in) {
        explore(base, in, true, [&](arena<E>& a) { auto v = whole<It<E>>(a); sorter(v.begin(), v.end(), cmp_int{}, proj_key{}); }, per_kind());
    });
}

template<typename S>
void raw_combos(const char* name, vh_speed sp, const S& sorter) {
    std::string base = std::string("C08|") + name + "|pointer";
    inputs(sp, hash_str(base + "p"), false, [&](const input& in) {
        explore(base + ",proj", in, true, [&](arena<E>& a) { sorter(a.begin(), a.end(), cmp_int{}, proj_key{}); }, per_kind());
    });
    inputs(sp, hash_str(base), false, [&](const input& in) {
        explore(base, in, false, [&](arena<E>& a) { auto v = view<E*>{a.begin(), a.end()}; sorter(v, cmp_key{}); }, per_kind());
    });
}

template<vh_cat C> struct cat_c {};
template<typename S> void all(const char* n, vh_speed sp, const S& s, cat_c<vh_ra>) { raw_combos(n, sp, s); }
template<typename S> void all(const char* n, vh_speed sp, const S& s, cat_c<vh_bidi>) { combos<chk_bidi>(n, "bidi", sp, s); all(n, sp, s, cat_c<vh_ra>{}); }
template<typename S> void all(const char* n, vh_speed sp, const S& s, cat_c<vh_fwd>) { combos<chk_fwd>(n, "fwd", sp, s); all(n, sp, s, cat_c<vh_bidi>{}); }

int main(int argc, char** argv) {
    init(argc, argv);
    mon().lenient_move = true;
    std::set_terminate([] { violation(mon().key + "|terminate", "std::terminate called: an exception could not propagate; input " + ctx().label); finish(); std::fflush(nullptr); _exit(0); });
    int k = 0; (void)k;
#define X(name, type, cat, speed, stable) if (ctx().nshards == 1 || (k++ % ctx().nshards) == ctx().shard) { find_killers<(int)cat>(type{}, speed != vh_fast, {200, 700}); all(#name, speed, type{}, cat_c<cat>{}); }
    VH_SORTERS_PART(X)
    sample("last case: " + ctx().label);
    return finish();
}
