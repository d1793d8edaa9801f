// Bounds on auxiliary memory. Columns: largest heap_bytes / (n * sizeof(T)) observed for records of 8 and of 96 bytes, largest stack depth in bytes observed for
// both. A sorter with no heap column gets no heap at all; sorters documented as O(n) get twice the observed ratio plus a constant; sorters with a
// buffer provider get exactly what the provider asks for; poplar (documented O(log n)) a logarithmic amount. Stack: three times the observed depth plus 24 KiB,
// whatever n: the observed depths are at most logarithmic, and a linear recursion needs megabytes at n = 20000.
#ifndef C12_BOUNDS_H
#define C12_BOUNDS_H
#include <cmath>
#include <cstring>
#include <string>
struct bound_row { const char* name; double heap_small, heap_big, stack_small, stack_big; };
static const bound_row bound_rows[] = {
    { "adaptive_shivers", 0.52, 0.50, 579, 675 },
    { "cartesian_tree", 4.98, 1.31, 392, 392 },
    { "counting_pdq", 0.00, 0.00, 3648, 3648 },
    { "counting_quick", 0.00, 0.00, 7208, 15512 },
    { "d_ary_heap16", 0.00, 0.00, 200, 456 },
    { "d_ary_heap2", 0.00, 0.00, 200, 472 },
    { "d_ary_heap3", 0.00, 0.00, 200, 472 },
    { "d_ary_heap4", 0.00, 0.00, 200, 472 },
    { "d_ary_heap5", 0.00, 0.00, 200, 456 },
    { "d_ary_heap7", 0.00, 0.00, 200, 472 },
    { "default", 0.00, 0.00, 3256, 3096 },
    { "drop_merge", 2.46, 2.46, 3159, 2519 },
    { "drop_merge_heap", 2.46, 2.46, 375, 567 },
    { "drop_merge_spin", 2.46, 2.46, 1879, 1351 },
    { "grail", 0.00, 0.00, 840, 984 },
    { "grail_fixed16", 0.00, 0.00, 840, 984 },
    { "grail_fixed3", 0.00, 0.00, 856, 968 },
    { "grail_half", 0.50, 0.50, 856, 952 },
    { "grail_sqrt", 0.06, 0.06, 872, 984 },
    { "heap", 0.00, 0.00, 211, 403 },
    { "hybrid3", 0.00, 0.00, 3408, 9376 },
    { "hybrid_nested", 0.75, 0.75, 2160, 2056 },
    { "hybrid_sized", 2.00, 0.50, 7911, 6999 },
    { "indirect_merge", 3.50, 0.29, 2531, 2323 },
    { "indirect_pdq", 2.00, 0.17, 3779, 2483 },
    { "indirect_quick", 2.00, 0.17, 7907, 6995 },
    { "insertion", 0.00, 0.00, 152, 264 },
    { "list_insertion", 0.00, 0.00, 179, 259 },
    { "list_mel", 8.98, 1.66, 467, 483 },
    { "list_merge", 0.75, 0.75, 2024, 1848 },
    { "list_selection", 0.00, 0.00, 131, 131 },
    { "make_stable_quick", 2.00, 0.17, 10614, 9382 },
    { "mel", 8.98, 1.66, 472, 488 },
    { "merge", 0.75, 0.75, 2160, 1984 },
    { "merge_insertion", 5.50, 1.37, 2279, 1991 },
    { "out_of_place_pdq", 1.00, 1.00, 3379, 3315 },
    { "out_of_place_tim", 1.52, 1.50, 675, 771 },
    { "pdq", 0.00, 0.00, 3272, 3112 },
    { "poplar", 0.11, 0.01, 1635, 899 },
    { "quick", 0.00, 0.00, 6240, 14656 },
    { "quick_merge", 0.00, 0.00, 1656, 2792 },
    { "schwartz_drop_merge", 2.46, 2.46, 2663, 2711 },
    { "schwartz_merge", 0.75, 0.75, 2160, 2040 },
    { "schwartz_pdq", 0.00, 0.00, 3272, 3112 },
    { "schwartz_quick", 0.00, 0.00, 6192, 14544 },
    { "schwartz_smooth", 0.00, 0.00, 360, 584 },
    { "schwartz_verge", 0.53, 0.50, 600, 808 },
    { "selection", 0.00, 0.00, 112, 224 },
    { "slab", 5.00, 2.25, 2095, 1791 },
    { "smooth", 0.00, 0.00, 360, 584 },
    { "spin", 0.55, 0.50, 1719, 1591 },
    { "splay", 4.00, 1.25, 216, 232 },
    { "split", 0.50, 0.50, 3287, 3463 },
    { "split_poplar", 0.50, 0.50, 935, 1063 },
    { "split_quick", 0.50, 0.50, 5783, 13511 },
    { "stable_heap", 2.00, 0.17, 480, 752 },
    { "stable_hybrid", 2.00, 0.75, 2144, 2040 },
    { "stable_mel", 11.98, 1.91, 502, 710 },
    { "stable_selection", 2.00, 0.17, 208, 208 },
    { "stable_smooth", 2.00, 0.17, 448, 448 },
    { "stable_std", 0.50, 0.50, 311, 311 },
    { "stable_verge", 2.00, 0.50, 3496, 2568 },
    { "stable_verge_adapter", 0.75, 0.75, 2296, 1768 },
    { "stable_verge_smooth", 2.00, 0.50, 632, 712 },
    { "std", 0.00, 0.00, 3368, 6616 },
    { "tim", 0.52, 0.50, 696, 792 },
    { "verge", 0.53, 0.50, 3071, 2847 },
    { "verge_heap", 0.53, 0.50, 680, 664 },
    { "verge_quick_merge", 0.53, 0.50, 1624, 2184 },
    { "wiki", 0.00, 0.00, 847, 50079 },
    { "wiki_fixed0", 0.00, 0.00, 783, 927 },
    { "wiki_fixed8", 0.00, 0.00, 728, 920 },
    { "wiki_half", 0.50, 0.50, 863, 895 },
    { "wiki_log", 0.02, 0.02, 744, 936 },
    { "wiki_sqrt", 0.06, 0.06, 744, 920 },
};
inline const bound_row* find_row(const std::string& name) { for (auto& r: bound_rows) if (name == r.name) return &r; return nullptr; }
inline double provider_elements(const std::string& name, double n) {
    auto ends = [&](const char* s) { std::size_t k = std::strlen(s); return name.size() > k && !name.compare(name.size() - k, k, s); };
    if (name.compare(0, 5, "grail") && name.compare(0, 4, "wiki")) return -1;
    if (ends("_half")) return std::floor(n / 2); // utility::half
    if (ends("_sqrt")) return std::ceil(std::sqrt(n)) + 1; // utility::sqrt
    if (ends("_log")) return std::log2(n) + 2; // utility::log, whatever its base >= 2
    return 0; // fixed buffers live on the stack
}
inline double heap_bound(const std::string& name, const std::string&, double n, double size) {
    auto* r = find_row(name);
    double p = provider_elements(name, n);
    if (p >= 0) return p * size;
    if (name == "poplar") return (std::log2(n) + 2) * 64; // a stack of at most log2(n) + 1 poplars
    if (!r) return 1e18;
    if (r->heap_small == 0 && r->heap_big == 0) return 0;
    return 2 * std::max(r->heap_small * (size < 50 ? 1 : 0), size < 50 ? 0 : r->heap_big) * n * size + 4096;
}
// The heap used on a shuffled collection by sorters whose provider asks for half the collection: all of it.
inline double heap_needed(const std::string& name, double n, double size) {
    return n >= 1000 && (name == "grail_half" || name == "wiki_half") ? (n / 2 - 1) * size : 0;
}
inline double stack_bound(const std::string& name, const std::string&, double, double size) {
    auto* r = find_row(name);
    if (!r) return 1e18;
    return 24 * 1024 + 3 * (size < 50 ? r->stack_small : r->stack_big);
}
#endif
