// Bounds on the number of comparisons per element for presorted families (order of the columns: family_names in main.cpp), 0 where nothing is claimed.
// `small`: 24 <= n < 256 (sorted, sorted_dup, all_equal); `large`: n >= 256. Only families for which the count was observed to be linear up to n = 100000
// have a bound: exact ones where the count is n - 1, otherwise the largest ratio observed over six seeds, times 1.25 (deterministic families) or 2.
#ifndef C11_BOUNDS_H
#define C11_BOUNDS_H
#include <cmath>
#include <cstring>
#include <string>
struct bound_row { const char* name; const char* form; double small_[3]; double large[16]; };
static const bound_row bound_rows[] = {
    { "adaptive_shivers", "vector", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 1.05, 6.7, 6.8, 13.1, 10.3, 2.5, 3.2, 4.3, 3.3, 3.3, 2.8, 2.8, 1.7} },
    { "cartesian_tree", "*", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 1.05, 3.8, 9, 9.2, 6.5, 4.4, 8.6, 7, 2.4, 8.6, 3.4, 2.8, 2.8} },
    { "counting_pdq", "vector", {2.9, 0, 3.1}, {2.8, 0, 2.9, 5.6, 8.2, 0, 0, 0, 12.9, 0, 0, 0, 0, 0, 0, 0} },
    { "counting_quick", "forward_list", {0, 0, 3.3}, {0, 0, 2.8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} },
    { "counting_quick", "list", {0, 0, 3.1}, {0, 0, 2.8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} },
    { "counting_quick", "vector", {0, 0, 3.1}, {0, 0, 2.8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} },
    { "default", "vector", {2.9, 6.2, 3.1}, {2.8, 7.4, 2.9, 5.6, 8.2, 0, 0, 0, 13.6, 0, 0, 0, 0, 0, 0, 0} },
    { "drop_merge", "list", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 0, 0, 0, 0, 0, 4.4, 4.5, 4.4, 4.4, 4.4, 11.4, 14.7, 0} },
    { "drop_merge", "vector", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 0, 0, 0, 0, 0, 4.4, 4.5, 4.4, 4.4, 4.4, 12.2, 0, 0} },
    { "drop_merge_heap", "*", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 0, 0, 0, 0, 0, 4.4, 4.5, 4.4, 4.5, 4.5, 0, 0, 0} },
    { "drop_merge_spin", "*", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 0, 0, 0, 0, 0, 4.3, 4.5, 4.4, 4.4, 4.4, 0, 0, 0} },
    { "hybrid3", "forward_list", {0, 0, 3.3}, {0, 0, 2.8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} },
    { "hybrid3", "list", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 0, 0, 0, 0, 0, 4.3, 0, 6.1, 2.4, 0, 0, 0, 0} },
    { "hybrid3", "vector", {2.9, 0, 3.1}, {2.8, 0, 2.9, 5.6, 8.2, 0, 0, 0, 13.5, 0, 0, 0, 0, 0, 0, 0} },
    { "indirect_pdq", "*", {2.9, 6.1, 3.1}, {2.8, 7, 2.9, 4.2, 8.2, 0, 0, 0, 13.5, 0, 0, 0, 0, 0, 0, 0} },
    { "indirect_quick", "*", {0, 0, 3.1}, {0, 0, 2.8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} },
    { "insertion", "*", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 0, 0, 0, 0, 0, 4.4, 0, 5.7, 2.4, 0, 0, 0, 0} },
    { "list_insertion", "vector", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 0, 0, 0, 0, 0, 4.4, 0, 6.5, 2.4, 0, 0, 0, 0} },
    { "list_mel", "*", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 2.8, 2.8, 9.4, 11.4, 10.6, 4.4, 0, 8.9, 6.4, 2.4, 3.4, 4, 4} },
    { "mel", "*", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 2.8, 2.8, 9.4, 11.4, 10.5, 4.3, 0, 7.8, 6.4, 2.4, 3.4, 4, 4} },
    { "out_of_place_pdq", "forward_list", {2.9, 6.2, 3.1}, {2.8, 7.2, 2.9, 4.2, 7.9, 0, 0, 0, 13.5, 0, 0, 0, 0, 0, 0, 0} },
    { "out_of_place_pdq", "list", {2.9, 6.2, 3.1}, {2.8, 7.2, 2.9, 4.2, 7.9, 0, 0, 0, 13.5, 0, 0, 0, 0, 0, 0, 0} },
    { "out_of_place_pdq", "vector", {2.9, 6.2, 3.1}, {2.8, 7.2, 2.9, 5.6, 7.9, 0, 0, 0, 13.5, 0, 0, 0, 0, 0, 0, 0} },
    { "out_of_place_tim", "*", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 1.05, 6.7, 6.9, 13.2, 10.5, 2.5, 3.5, 4, 3.3, 3.1, 2.8, 2.8, 1.7} },
    { "pdq", "vector", {2.9, 0, 3.1}, {2.8, 0, 2.9, 5.6, 8.2, 0, 0, 0, 13.3, 0, 0, 0, 0, 0, 0, 0} },
    { "quick", "forward_list", {0, 0, 3.3}, {0, 0, 2.8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} },
    { "quick", "list", {0, 0, 3.1}, {0, 0, 2.8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} },
    { "quick", "vector", {0, 0, 3.1}, {0, 0, 2.8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} },
    { "schwartz_drop_merge", "list", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 0, 0, 0, 0, 0, 4.4, 4.5, 4.4, 4.4, 4.4, 11.4, 14.7, 0} },
    { "schwartz_drop_merge", "vector", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 0, 0, 0, 0, 0, 4.4, 4.5, 4.4, 4.4, 4.4, 12.2, 0, 0} },
    { "schwartz_pdq", "vector", {2.9, 6, 3.1}, {2.8, 7.4, 2.9, 5.6, 8.2, 0, 0, 0, 13.4, 0, 0, 0, 0, 0, 0, 0} },
    { "schwartz_quick", "forward_list", {0, 0, 3.3}, {0, 0, 2.8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} },
    { "schwartz_quick", "list", {0, 0, 3.1}, {0, 0, 2.8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} },
    { "schwartz_quick", "vector", {0, 0, 3.1}, {0, 0, 2.8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} },
    { "schwartz_smooth", "vector", {5.1, 5.1, 5.1}, {5.3, 5.3, 5.3, 0, 0, 0, 0, 0, 12.5, 0, 16.1, 8.4, 0, 0, 0, 0} },
    { "schwartz_verge", "vector", {9.9, 9.8, 10.1}, {1.05, 1.05, 1.05, 1.05, 0, 6.4, 9.3, 8.5, 2.5, 0, 7.6, 0, 0, 2.8, 2.8, 3.5} },
    { "slab", "*", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 2.8, 2.8, 9.4, 11.4, 10.6, 4.3, 0, 0, 6.4, 2.4, 3.4, 4, 4} },
    { "smooth", "vector", {5.1, 5.1, 5.1}, {5.3, 5.3, 5.3, 0, 0, 0, 0, 0, 12.6, 0, 19.1, 8.4, 0, 0, 0, 0} },
    { "spin", "vector", {3.4, 3.4, 3.4}, {4.6, 4.6, 4.6, 0, 0, 13.2, 0, 0, 7.4, 0, 9.9, 8.2, 0, 5.3, 14.3, 6.1} },
    { "splay", "*", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 1.05, 0, 11.8, 11.9, 7.1, 4.3, 8.3, 5.5, 2.4, 6.4, 5, 2.8, 4} },
    { "split", "vector", {2.8, 2.8, 2.8}, {2.8, 2.8, 2.8, 6.8, 9.5, 0, 0, 0, 4.4, 0, 0, 4.6, 4.5, 0, 0, 0} },
    { "split_poplar", "vector", {2.8, 2.8, 2.8}, {2.8, 2.8, 2.8, 0, 0, 0, 0, 0, 4.4, 0, 0, 4.8, 4.7, 0, 0, 0} },
    { "split_quick", "*", {2.8, 2.8, 2.8}, {2.8, 2.8, 2.8, 0, 0, 0, 0, 0, 4.4, 0, 0, 4.7, 4.6, 0, 0, 0} },
    { "stable_mel", "*", {2.8, 2.8, 2.8}, {2.8, 2.8, 2.8, 4, 0, 13.4, 0, 22.5, 8.4, 0, 12.4, 0, 8.4, 5.3, 5.9, 5.3} },
    { "stable_smooth", "vector", {8.1, 9.4, 10}, {8.4, 9.7, 10.3, 0, 0, 0, 0, 0, 17.6, 0, 0, 13.4, 0, 0, 0, 0} },
    { "stable_verge", "list", {15.4, 15.5, 15.6}, {1.05, 1.05, 1.05, 1.05, 0, 6.4, 0, 0, 2.5, 0, 0, 0, 0, 2.8, 2.8, 3.3} },
    { "stable_verge", "vector", {4.7, 5, 5.4}, {1.05, 1.05, 1.05, 1.05, 0, 6.4, 0, 0, 2.5, 0, 7.4, 0, 0, 2.8, 2.8, 2.9} },
    { "stable_verge_adapter", "list", {2.8, 2.8, 2.8}, {1.05, 1.05, 1.05, 1.05, 0, 6.4, 0, 0, 2.5, 0, 6.5, 0, 0, 2.8, 2.8, 2.9} },
    { "stable_verge_adapter", "vector", {2.8, 2.8, 2.8}, {1.05, 1.05, 1.05, 1.05, 0, 6.4, 0, 0, 2.5, 0, 6.4, 0, 0, 2.8, 2.8, 2.8} },
    { "stable_verge_smooth", "vector", {7.9, 9.3, 9.7}, {1.05, 1.05, 1.05, 1.05, 0, 6.4, 0, 0, 2.5, 0, 7.7, 0, 0, 2.8, 2.8, 3.6} },
    { "tim", "vector", {1.05, 1.05, 1.05}, {1.05, 1.05, 1.05, 1.05, 6.7, 6.9, 13.2, 10.7, 2.5, 3.2, 4, 3.1, 3.3, 2.8, 2.8, 1.9} },
    { "verge", "list", {6.6, 6.7, 5.9}, {1.05, 1.05, 1.05, 1.05, 2.8, 6.4, 6.9, 6.8, 2.5, 0, 6.8, 0, 0, 2.8, 2.8, 3.3} },
    { "verge", "vector", {2.9, 5.4, 3.1}, {1.05, 1.05, 1.05, 1.05, 7.4, 6.4, 8, 0, 2.5, 0, 6.4, 0, 0, 2.8, 2.8, 2.8} },
    { "verge_heap", "vector", {9.9, 9.8, 10.1}, {1.05, 1.05, 1.05, 1.05, 0, 6.4, 10, 8.5, 2.5, 0, 8.4, 0, 0, 2.8, 2.8, 3.3} },
    { "verge_quick_merge", "list", {6.6, 6.7, 5.9}, {1.05, 1.05, 1.05, 1.05, 2.8, 6.4, 6.8, 6.8, 2.5, 0, 8.1, 0, 0, 2.8, 2.8, 3.2} },
    { "verge_quick_merge", "vector", {8, 8.6, 9.5}, {1.05, 1.05, 1.05, 1.05, 0, 6.4, 8.2, 8.5, 2.5, 0, 8.2, 0, 0, 2.8, 2.8, 3.2} },
    { "wiki", "vector", {3.5, 3.5, 3.5}, {3.5, 3.6, 3.5, 0, 0, 13, 14, 0, 7.5, 0, 9.8, 5.7, 0, 5.6, 5.4, 5.6} },
    { "wiki_fixed0", "vector", {9, 0, 0}, {6.4, 0, 0, 6.8, 0, 18.1, 19.3, 17, 12.4, 0, 15.9, 10.7, 0, 8, 8.1, 8.9} },
    { "wiki_fixed8", "vector", {6.2, 9.1, 4.9}, {5.6, 8.7, 5.5, 6.5, 0, 16.6, 18.6, 16.4, 10.8, 0, 12.9, 9, 0, 7.6, 7.8, 7.9} },
    { "wiki_half", "vector", {5.5, 5.8, 4.1}, {3.9, 4, 3.5, 0, 0, 12.9, 0, 12.5, 8, 0, 10.1, 6.2, 0, 5.6, 6, 5.9} },
    { "wiki_log", "vector", {7.8, 11.2, 6.3}, {6, 9.5, 6, 6.7, 0, 17, 18.9, 16.6, 11.8, 0, 13.5, 9.6, 0, 7.7, 7.9, 8.2} },
    { "wiki_sqrt", "vector", {6.6, 8.2, 5.3}, {4.8, 6.4, 4.4, 5.6, 0, 15, 16.8, 15.5, 9.4, 0, 12.1, 7.9, 0, 6.4, 6.8, 6.9} },
};
inline double bound(const std::string& name, const std::string& full_form, int fam, double n) {
    std::string form = full_form.substr(0, full_form.find(','));
    for (auto& r: bound_rows)
        if (name == r.name && (r.form[0] == '*' || form == r.form)) {
            double c = n >= 256 ? r.large[fam] : fam < 3 ? r.small_[fam] : 0;
            return c > 0 ? c * n + 4 : 0;
        }
    return 0;
}
#endif
