// Bounds on the number of comparisons. The documentation promises O(n log n) or O(n^2); the constants were measured with the adversary
// and the patterns of main.cpp over several seeds, times 1.6.
#ifndef C10_BOUNDS_H
#define C10_BOUNDS_H
#include <cmath>
#include <cstring>
#include <string>

struct bound_row { const char* name; const char* form; double coef; };
static const bound_row bound_rows[] = {
    { "adaptive_shivers", "*", 2.0 },
    { "cartesian_tree", "*", 2.7 },
    { "counting_pdq", "*", 3.2 },
    { "counting_quick", "forward_list", 12.5 },
    { "counting_quick", "list", 12.1 },
    { "counting_quick", "vector", 12.1 },
    { "d_ary_heap16", "*", 7.1 },
    { "d_ary_heap2", "*", 4.1 },
    { "d_ary_heap3", "*", 3.6 },
    { "d_ary_heap4", "*", 3.8 },
    { "d_ary_heap5", "*", 4.0 },
    { "d_ary_heap7", "*", 4.4 },
    { "default", "forward_list", 2.0 },
    { "default", "list", 2.0 },
    { "default", "vector", 3.2 },
    { "drop_merge", "*", 4.8 },
    { "drop_merge_heap", "*", 4.0 },
    { "drop_merge_spin", "*", 10.6 },
    { "grail", "*", 4.2 },
    { "grail_fixed16", "*", 4.1 },
    { "grail_fixed3", "*", 4.1 },
    { "grail_half", "*", 4.2 },
    { "grail_sqrt", "*", 4.2 },
    { "heap", "*", 2.0 },
    { "hybrid3", "forward_list", 12.5 },
    { "hybrid3", "vector", 3.2 },
    { "hybrid_nested", "forward_list", 2.2 },
    { "hybrid_nested", "list", 5.1 },
    { "hybrid_nested", "vector", 2.0 },
    { "hybrid_sized", "forward_list", 12.1 },
    { "hybrid_sized", "list", 12.1 },
    { "hybrid_sized", "vector", 2.3 },
    { "indirect_merge", "*", 5.1 },
    { "indirect_pdq", "*", 3.2 },
    { "indirect_quick", "*", 12.1 },
    { "make_stable_quick", "*", 17.3 },
    { "mel", "*", 2.1 },
    { "merge", "forward_list", 2.2 },
    { "merge", "list", 5.1 },
    { "merge", "vector", 5.1 },
    { "merge_insertion", "*", 2.0 },
    { "out_of_place_pdq", "*", 3.2 },
    { "out_of_place_tim", "*", 2.0 },
    { "pdq", "*", 3.2 },
    { "poplar", "*", 3.9 },
    { "quick", "forward_list", 12.5 },
    { "quick", "list", 12.1 },
    { "quick", "vector", 12.1 },
    { "quick_merge", "forward_list", 8.3 },
    { "quick_merge", "list", 7.5 },
    { "quick_merge", "vector", 3.6 },
    { "schwartz_drop_merge", "*", 4.8 },
    { "schwartz_merge", "forward_list", 2.2 },
    { "schwartz_merge", "list", 5.1 },
    { "schwartz_merge", "vector", 5.1 },
    { "schwartz_pdq", "*", 3.2 },
    { "schwartz_quick", "forward_list", 12.5 },
    { "schwartz_quick", "list", 12.1 },
    { "schwartz_quick", "vector", 12.1 },
    { "schwartz_smooth", "*", 4.3 },
    { "schwartz_verge", "*", 2.0 },
    { "slab", "*", 11.1 },
    { "smooth", "*", 4.3 },
    { "spin", "*", 8.5 },
    { "splay", "*", 2.0 },
    { "split", "*", 3.5 },
    { "split_poplar", "*", 4.2 },
    { "split_quick", "*", 9.7 },
    { "stable_heap", "*", 3.5 },
    { "stable_hybrid", "forward_list", 2.2 },
    { "stable_hybrid", "list", 5.1 },
    { "stable_hybrid", "vector", 3.5 },
    { "stable_mel", "*", 3.2 },
    { "stable_smooth", "*", 7.0 },
    { "stable_std", "*", 2.1 },
    { "stable_verge", "list", 5.0 },
    { "stable_verge", "vector", 5.4 },
    { "stable_verge_adapter", "*", 5.1 },
    { "stable_verge_smooth", "*", 7.0 },
    { "std", "*", 5.0 },
    { "tim", "*", 2.0 },
    { "verge", "list", 4.5 },
    { "verge", "vector", 3.2 },
    { "verge_heap", "*", 2.0 },
    { "verge_quick_merge", "list", 4.5 },
    { "verge_quick_merge", "vector", 3.3 },
    { "wiki", "*", 2.0 },
    { "wiki_fixed0", "*", 3.8 },
    { "wiki_fixed8", "*", 2.5 },
    { "wiki_half", "*", 2.2 },
    { "wiki_log", "*", 3.1 },
    { "wiki_sqrt", "*", 2.8 },
};

inline double bound(const std::string& name, const std::string& full_form, double n) {
    std::string form = full_form.substr(0, full_form.find(','));
    if (name == "insertion" || name == "selection" || (name == "hybrid3" && form == "list")) return n * (n + 3) / 2;
    if (name == "stable_selection") return n * (n + 3);          // two calls per comparison at most
    if (name == "quick_merge" && n > 100000) return 13.5 * n * std::log2(n);      // selection of the pivot becomes costlier there (measured: 8.4 up to 1600000)
    for (auto& r: bound_rows)
        if (name == r.name && (r.form[0] == '*' || form == r.form)) return r.coef * n * std::log2(n + 2) + 16;
    std::fprintf(stderr, "no bound for %s %s\n", name.c_str(), form.c_str());
    std::abort();
}
#endif
