// Comparisons allowed: n * (a + b * log2(1 + m)), where m is the measure named (osc and inv divided by n); for rem, n * a + b * rem * log2(rem + 2),
// when at most 30% of the elements are out of place. The largest a needed over the calibration (n up to 50000, ten families, b fixed) is given after each row.
// inv with b = 0 is insertion sort's exact bound, inv + n - 1.
#ifndef C11_MEASURE_BOUNDS_H
#define C11_MEASURE_BOUNDS_H
#include <cmath>
#include <cstring>
enum { m_runs, m_monos, m_enc, m_sus, m_osc, m_rem, m_inv, m_dis };
struct measure_row { const char* name; const char* form; int measure; bool quadratic; double a, b; const char* families; };
static const measure_row measure_rows[] = {
    { "adaptive_shivers", "*", m_monos, false, 3.6, 1, "" },                     // 2.92
    { "tim", "*", m_monos, false, 3.6, 1, "" },                                  // 2.92
    { "verge", "vector", m_monos, false, 7.8, 2.5, "" },                         // 6.14
    { "verge", "list", m_monos, false, 11.5, 2.5, "" },                          // 8.93
    { "cartesian_tree", "*", m_osc, false, 1.2, 2, "" },                         // 1.00
    { "splay", "*", m_osc, false, 1.8, 1.5, "" },                                // 1.38
    { "mel", "*", m_enc, false, -0.3, 3, "" },                                   // -0.77
    { "list_mel", "vector", m_enc, false, -0.3, 3, "" },                         // -0.77
    { "list_mel", "*", m_enc, false, 0.5, 2.5, "" },                             // 0.02
    { "smooth", "*", m_inv, false, 8, 4, "" },                                 // 4.22
    { "split", "*", m_rem, false, 2.5, 4, "local_shuffle" },                     // 2.00
    { "drop_merge", "*", m_rem, false, 2.5, 3, "displaced swapped local_shuffle" },      // 1.99
    { "drop_merge_heap", "*", m_rem, false, 2.5, 3, "displaced swapped local_shuffle" }, // 1.99
    { "insertion", "*", m_inv, true, 0, 0, "" },
    { "list_insertion", "vector", m_inv, true, 0, 0, "" },
};
inline const measure_row* measure_bound(const char* name, const char* form, const char* family, double n, double rem) {
    for (auto& r: measure_rows)
        if (std::strcmp(r.name, name) == 0 && (*r.form == '*' || std::strcmp(r.form, form) == 0) && (!*r.families || std::strstr(r.families, family)))
            return r.measure == m_rem && rem > 0.3 * n ? nullptr : &r;
    return nullptr;
}
inline double measure_limit(const measure_row& r, double n, double x) {
    if (r.quadratic) return x + n - 1;
    if (r.measure == m_rem) return n * r.a + r.b * x * std::log2(x + 2);
    if (r.measure == m_osc || r.measure == m_inv) x /= n;
    return n * (r.a + r.b * std::log2(1 + x));
}
#endif
