// The documented comparison sorters, by the iterator category they accept.
#ifndef VH_SORTERS_H
#define VH_SORTERS_H
#include <cpp-sort/sorters.h>
#include <cpp-sort/utility/buffer.h>
#include <cpp-sort/utility/functional.h>

namespace vhs {
    struct quarter { template<typename T> constexpr T operator()(T n) const { return n / 4; } };
    struct constant1 { template<typename T> constexpr T operator()(T) const { return T(1); } };
    struct whole { template<typename T> constexpr T operator()(T n) const { return n; } };
    using grail_fixed16 = cppsort::grail_sorter<cppsort::utility::fixed_buffer<16>>;
    using grail_fixed3 = cppsort::grail_sorter<cppsort::utility::fixed_buffer<3>>;
    using grail_sqrt = cppsort::grail_sorter<cppsort::utility::dynamic_buffer<cppsort::utility::sqrt>>;
    using grail_half = cppsort::grail_sorter<cppsort::utility::dynamic_buffer<cppsort::utility::half>>;
    using wiki_fixed0 = cppsort::wiki_sorter<cppsort::utility::fixed_buffer<0>>;
    using wiki_fixed8 = cppsort::wiki_sorter<cppsort::utility::fixed_buffer<8>>;
    using wiki_half = cppsort::wiki_sorter<cppsort::utility::dynamic_buffer<cppsort::utility::half>>;
    using wiki_sqrt = cppsort::wiki_sorter<cppsort::utility::dynamic_buffer<cppsort::utility::sqrt>>;
    using wiki_log = cppsort::wiki_sorter<cppsort::utility::dynamic_buffer<cppsort::utility::log>>;
}

enum vh_cat { vh_fwd, vh_bidi, vh_ra };
enum vh_speed { vh_fast, vh_quadratic, vh_heavy };   // which size profile to use

// X(name, type, minimal iterator category, speed, always stable)
#define VH_SORTERS_1(X) \
    X(cartesian_tree, cppsort::cartesian_tree_sorter, vh_fwd, vh_fast, false) \
    X(mel, cppsort::mel_sorter, vh_fwd, vh_fast, false) \
    X(adaptive_shivers, cppsort::adaptive_shivers_sorter, vh_ra, vh_fast, true) \
    X(heap, cppsort::heap_sorter, vh_ra, vh_fast, false) \
    X(poplar, cppsort::poplar_sorter, vh_ra, vh_fast, false)
#define VH_SORTERS_2(X) \
    X(merge, cppsort::merge_sorter, vh_fwd, vh_fast, true) \
    X(quick_merge, cppsort::quick_merge_sorter, vh_fwd, vh_fast, false) \
    X(smooth, cppsort::smooth_sorter, vh_ra, vh_fast, false) \
    X(tim, cppsort::tim_sorter, vh_ra, vh_fast, true)
#define VH_SORTERS_3(X) \
    X(quick, cppsort::quick_sorter, vh_fwd, vh_fast, false) \
    X(selection, cppsort::selection_sorter, vh_fwd, vh_quadratic, false) \
    X(splay, cppsort::splay_sorter, vh_fwd, vh_fast, true) \
    X(spin, cppsort::spin_sorter, vh_ra, vh_fast, true)
#define VH_SORTERS_4(X) \
    X(drop_merge, cppsort::drop_merge_sorter, vh_bidi, vh_fast, false) \
    X(insertion, cppsort::insertion_sorter, vh_bidi, vh_quadratic, true) \
    X(pdq, cppsort::pdq_sorter, vh_ra, vh_fast, false) \
    X(std, cppsort::std_sorter, vh_ra, vh_fast, false)
#define VH_SORTERS_5(X) \
    X(slab, cppsort::slab_sorter, vh_bidi, vh_fast, false) \
    X(verge, cppsort::verge_sorter, vh_bidi, vh_fast, false) \
    X(merge_insertion, cppsort::merge_insertion_sorter, vh_ra, vh_heavy, false)
#define VH_SORTERS_6(X) \
    X(split, cppsort::split_sorter, vh_ra, vh_fast, false) \
    X(grail, cppsort::grail_sorter<>, vh_ra, vh_fast, true) \
    X(grail_fixed16, vhs::grail_fixed16, vh_ra, vh_fast, true) \
    X(grail_half, vhs::grail_half, vh_ra, vh_fast, true)
#define VH_SORTERS_7(X) \
    X(wiki, cppsort::wiki_sorter<>, vh_ra, vh_fast, true) \
    X(wiki_fixed0, vhs::wiki_fixed0, vh_ra, vh_fast, true) \
    X(wiki_half, vhs::wiki_half, vh_ra, vh_fast, true)
#define VH_SORTERS_8(X) \
    X(d_ary_heap2, cppsort::d_ary_heap_sorter<2>, vh_ra, vh_fast, false) \
    X(d_ary_heap3, cppsort::d_ary_heap_sorter<3>, vh_ra, vh_fast, false) \
    X(d_ary_heap4, cppsort::d_ary_heap_sorter<4>, vh_ra, vh_fast, false) \
    X(d_ary_heap7, cppsort::d_ary_heap_sorter<7>, vh_ra, vh_fast, false) \
    X(default, cppsort::default_sorter, vh_fwd, vh_fast, false)
// more buffer configurations
#define VH_SORTERS_9(X) \
    X(grail_sqrt, vhs::grail_sqrt, vh_ra, vh_fast, true) \
    X(grail_fixed3, vhs::grail_fixed3, vh_ra, vh_fast, true) \
    X(wiki_fixed8, vhs::wiki_fixed8, vh_ra, vh_fast, true) \
    X(wiki_sqrt, vhs::wiki_sqrt, vh_ra, vh_fast, true) \
    X(wiki_log, vhs::wiki_log, vh_ra, vh_fast, true) \
    X(d_ary_heap5, cppsort::d_ary_heap_sorter<5>, vh_ra, vh_fast, false) \
    X(d_ary_heap16, cppsort::d_ary_heap_sorter<16>, vh_ra, vh_fast, false)

// adapters, by the adapted algorithm; the heavy header is only needed there
#if defined(PART) && PART >= 10
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include <cpp-sort/adapters.h>
#include <cpp-sort/metrics/comparisons.h>
namespace vhs {
    using namespace cppsort;
    using counting_quick = counting_adapter<quick_sorter>;
    using counting_pdq = counting_adapter<pdq_sorter, long long>;
    using hybrid3 = hybrid_adapter<quick_sorter, insertion_sorter, pdq_sorter>;
    using hybrid_nested = hybrid_adapter<hybrid_adapter<merge_sorter, heap_sorter>, selection_sorter>;
    using stable_hybrid = stable_adapter<hybrid_adapter<merge_sorter, selection_sorter, heap_sorter>>;
    using hybrid_sized = hybrid_adapter<indirect_adapter<quick_sorter>, out_of_place_adapter<merge_sorter>, split_adapter<heap_sorter>>;
    using schwartz_verge = schwartz_adapter<verge_adapter<heap_sorter>>;
    using verge_schwartz = verge_adapter<quick_merge_sorter>;
}
#endif
#define VH_SORTERS_10(X) \
    X(indirect_quick, cppsort::indirect_adapter<cppsort::quick_sorter>, vh_fwd, vh_fast, false) \
    X(indirect_pdq, cppsort::indirect_adapter<cppsort::pdq_sorter>, vh_fwd, vh_fast, false) \
    X(indirect_merge, cppsort::indirect_adapter<cppsort::merge_sorter>, vh_fwd, vh_fast, true) \
    X(out_of_place_pdq, cppsort::out_of_place_adapter<cppsort::pdq_sorter>, vh_fwd, vh_fast, false) \
    X(out_of_place_tim, cppsort::out_of_place_adapter<cppsort::tim_sorter>, vh_fwd, vh_fast, true)
#define VH_SORTERS_11(X) \
    X(schwartz_merge, cppsort::schwartz_adapter<cppsort::merge_sorter>, vh_fwd, vh_fast, true) \
    X(schwartz_quick, cppsort::schwartz_adapter<cppsort::quick_sorter>, vh_fwd, vh_fast, false) \
    X(schwartz_pdq, cppsort::schwartz_adapter<cppsort::pdq_sorter>, vh_ra, vh_fast, false) \
    X(schwartz_smooth, cppsort::schwartz_adapter<cppsort::smooth_sorter>, vh_ra, vh_fast, false) \
    X(schwartz_drop_merge, cppsort::schwartz_adapter<cppsort::drop_merge_sorter>, vh_bidi, vh_fast, false)
#define VH_SORTERS_12(X) \
    X(make_stable_quick, cppsort::make_stable<cppsort::quick_sorter>, vh_fwd, vh_fast, true) \
    X(stable_heap, cppsort::stable_adapter<cppsort::heap_sorter>, vh_ra, vh_fast, true) \
    X(stable_smooth, cppsort::stable_adapter<cppsort::smooth_sorter>, vh_ra, vh_fast, true) \
    X(stable_selection, cppsort::stable_adapter<cppsort::selection_sorter>, vh_fwd, vh_quadratic, true) \
    X(stable_mel, cppsort::stable_t<cppsort::mel_sorter>, vh_fwd, vh_fast, true) \
    X(stable_std, cppsort::stable_adapter<cppsort::std_sorter>, vh_ra, vh_fast, true)
#define VH_SORTERS_13(X) \
    X(drop_merge_heap, cppsort::drop_merge_adapter<cppsort::heap_sorter>, vh_bidi, vh_fast, false) \
    X(drop_merge_spin, cppsort::drop_merge_adapter<cppsort::spin_sorter>, vh_bidi, vh_fast, false) \
    X(split_poplar, cppsort::split_adapter<cppsort::poplar_sorter>, vh_ra, vh_fast, false) \
    X(split_quick, cppsort::split_adapter<cppsort::quick_sorter>, vh_bidi, vh_fast, false) \
    X(verge_heap, cppsort::verge_adapter<cppsort::heap_sorter>, vh_ra, vh_fast, false) \
    X(verge_quick_merge, cppsort::verge_adapter<cppsort::quick_merge_sorter>, vh_bidi, vh_fast, false)
#define VH_SORTERS_14(X) \
    X(stable_verge, cppsort::stable_adapter<cppsort::verge_sorter>, vh_bidi, vh_fast, true) \
    X(stable_verge_adapter, cppsort::stable_t<cppsort::verge_adapter<cppsort::merge_sorter>>, vh_bidi, vh_fast, true) \
    X(stable_verge_smooth, cppsort::stable_adapter<cppsort::verge_adapter<cppsort::smooth_sorter>>, vh_ra, vh_fast, true) \
    X(hybrid3, vhs::hybrid3, vh_fwd, vh_fast, false) \
    X(hybrid_nested, vhs::hybrid_nested, vh_fwd, vh_fast, false)
#define VH_SORTERS_15(X) \
    X(stable_hybrid, vhs::stable_hybrid, vh_fwd, vh_fast, true) \
    X(hybrid_sized, vhs::hybrid_sized, vh_fwd, vh_fast, false) \
    X(schwartz_verge, vhs::schwartz_verge, vh_ra, vh_fast, false) \
    X(counting_quick, vhs::counting_quick, vh_fwd, vh_fast, false) \
    X(counting_pdq, vhs::counting_pdq, vh_ra, vh_fast, false)

#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define VH_SORTERS_PART(X) VH_CAT(VH_SORTERS_, PART)(X)

#endif
