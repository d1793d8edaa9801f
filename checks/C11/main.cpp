// C11: comparison counts on presorted inputs.
#include "vh.h"
#include "vh_alloc.h"
#include "vh_sorters.h"
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cmath>
#include <forward_list>
#include <list>
#include "bounds.h"

using namespace vh;
#define VH_SORTERS_16(X) \
    X(list_insertion, cppsort::container_aware_adapter<cppsort::insertion_sorter>, vh_fwd, vh_quadratic, true) \
    X(list_mel, cppsort::container_aware_adapter<cppsort::mel_sorter>, vh_fwd, vh_fast, false)

static std::uint64_t count, budget;
struct cmp { bool operator()(int x, int y) const { if (++count > budget) throw runaway(); return x < y; } };
struct cmp_branchless { bool operator()(int x, int y) const { if (++count > budget) throw runaway(); return x < y; } };
namespace cppsort { namespace utility { template<typename T> struct is_probably_branchless_comparison<cmp_branchless, T>: std::true_type {}; } }

static std::map<std::string, std::map<int, double>> ratios;
static bool show_ratios = std::getenv("VH_RATIOS") != nullptr;

static const char* family_names[] = { "sorted", "sorted_dup", "all_equal", "descending", "descending_dup", "runs4", "runs4_desc", "runs4_mixed", "last_out", "few_out", "few_moved", "swaps", "few_dropped", "merged2", "organ_pipe", "rotated" };
enum { n_families = sizeof family_names / sizeof *family_names };

static input make_family(int f, int n, std::uint64_t seed) {
    input in; in.pattern = family_names[f]; in.seed = seed;
    rng r(mix(seed * 31 + (unsigned)f) ^ (std::uint64_t)n);
    auto& v = in.keys; v.resize((std::size_t)n);
    auto iota = [&] { for (int i = 0; i < n; ++i) v[(std::size_t)i] = i; };
    int few = std::max(1, n / 200);
    iota();
    switch (f) {
        case 1: { int d = r.range(2, 9); for (int i = 0; i < n; ++i) v[(std::size_t)i] = i / d; break; }
        case 2: for (auto& x: v) x = 7; break;
        case 3: std::reverse(v.begin(), v.end()); break;
        case 4: { int d = r.range(2, 9); for (int i = 0; i < n; ++i) v[(std::size_t)i] = (n - i) / d; break; }
        case 5: case 6: case 7: {
            // four runs of random lengths, each at least n / 6
            std::vector<int> cut{0}; int rest = n - 4 * (n / 6); int c = 0;
            for (int i = 0; i < 3; ++i) { int x = (int)r.below((unsigned)rest / 2 + 1); rest -= x; c += n / 6 + x; cut.push_back(c); }
            cut.push_back(n);
            for (int i = 0; i < 4; ++i) {
                std::vector<int> s; for (int j = cut[(std::size_t)i]; j < cut[(std::size_t)i + 1]; ++j) s.push_back((int)r.below((unsigned)n * 4));
                std::sort(s.begin(), s.end());
                if (f == 6 || (f == 7 && (i & 1))) std::reverse(s.begin(), s.end());
                std::copy(s.begin(), s.end(), v.begin() + cut[(std::size_t)i]);
            }
            break; }
        case 8: if (n > 1) v.back() = (int)r.below((unsigned)n); break;
        case 9: for (int k = 0; k < few; ++k) v[(std::size_t)r.below((unsigned)n)] = (int)r.below((unsigned)n); break;
        case 10: for (int k = 0; k < 3; ++k) { auto a = v.begin() + (int)r.below((unsigned)n), b = v.begin() + (int)r.below((unsigned)n); if (a < b) std::rotate(a, a + 1, b + 1); else std::rotate(b, a, a + 1); } break;
        case 11: for (int k = 0; k < few; ++k) { auto i = r.below((unsigned)n - 1u); std::swap(v[i], v[i + 1]); } break;
        case 12: for (int k = 0; k < few; ++k) v[(std::size_t)r.below((unsigned)n)] = 0; break;
        case 13: { std::vector<int> a; for (int i = 0; i < n; i += 2) a.push_back(i); for (int i = 1; i < n; i += 2) a.push_back(i); v = a; break; }
        case 14: for (int i = 0; i < n; ++i) v[(std::size_t)i] = std::min(i, n - i); break;
        case 15: std::rotate(v.begin(), v.begin() + (int)r.below((unsigned)n), v.end()); break;
        default: break;
    }
    return in;
}

template<typename Col, typename Cmp, typename S>
void run(const char* name, const char* form, int fam, const input& in, const S& sorter, Cmp c, bool nomem = false) {
    std::string f = std::string(form) + (nomem ? ",no-memory" : "");
    std::string key = std::string("C11|") + name + "|" + f + "|" + in.pattern;
    double n = (double)in.size();
    double limit = bound(name, f, fam, n);
    if (limit <= 0 && !show_ratios) return;
    if (!begin_case(key + "|" + in.label())) return;
    count_case(hash_str(key) ^ in.hash(), in.size() > 1);
    count = 0; budget = show_ratios ? (std::uint64_t)(200 * n) : (std::uint64_t)(limit * 2 + 1000);
    Col col(in.keys.begin(), in.keys.end());
    auto& al = allocs();
    bool ran_away = false, failed = false;
    if (nomem) { al.no_fault(); al.fail_above = 0; al.arm(); }
    try { sorter(col, c); } catch (const runaway&) { ran_away = true; } catch (const std::bad_alloc&) { failed = true; }
    al.disarm(); al.no_fault();
    if (failed) { event("bad_alloc"); return; }
    event("comparisons", count);
    event("linear_runs");
    if (show_ratios) { auto& r = ratios[std::string(name) + "|" + f + "|" + in.pattern][(int)in.size()]; r = std::max(r, (double)count / n); return; }
    if (ran_away || (double)count > limit)
        violation(key, std::string(ran_away ? "more than " : "") + std::to_string(count) + " comparisons for " + std::to_string(in.size()) + " elements, the bound is " + std::to_string((long long)limit));
    else if (!std::is_sorted(col.begin(), col.end())) violation(key + "|order", "not sorted");
}

template<vh_cat C> struct cat_c {};
template<typename S> void forms(const char* name, int fam, const input& in, const S& s, cat_c<vh_ra>) {
    run<std::vector<int>>(name, "vector", fam, in, s, cmp{});
    run<std::vector<int>>(name, "vector,branchless", fam, in, s, cmp_branchless{});
    if (in.size() <= 10000) run<std::vector<int>>(name, "vector", fam, in, s, cmp{}, true);
}
template<typename S> void forms(const char* name, int fam, const input& in, const S& s, cat_c<vh_bidi>) {
    run<std::list<int>>(name, "list", fam, in, s, cmp{});
    if (in.size() <= 10000) run<std::list<int>>(name, "list", fam, in, s, cmp{}, true);
    forms(name, fam, in, s, cat_c<vh_ra>{});
}
template<typename S> void forms(const char* name, int fam, const input& in, const S& s, cat_c<vh_fwd>) {
    run<std::forward_list<int>>(name, "forward_list", fam, in, s, cmp{});
    if (in.size() <= 10000) run<std::forward_list<int>>(name, "forward_list", fam, in, s, cmp{}, true);
    forms(name, fam, in, s, cat_c<vh_bidi>{});
}

template<typename S, vh_cat C>
void all(const char* name, vh_speed sp, const S& sorter, cat_c<C> cat) {
    bool th = ctx().thorough;
    std::uint64_t base = mix(ctx().seed * 67 + hash_str(name)) % 1000000007ull;
    std::vector<int> sizes;
    if (show_ratios && !std::getenv("VH_BIG")) for (int n = 24; n <= 200; n += 3) sizes.push_back(n);
    if (show_ratios) for (int n: {256, 300, 1000, 1025, 3000, 10000, 100000}) sizes.push_back(n);
    else {
        for (int n = 24; n <= 200; n += th ? 1 : 7) sizes.push_back(n);
        for (int n: {256, 257, 300, 512, 777, 1000, 1025, 3000, 8192, 10000}) sizes.push_back(n);
        sizes.push_back(th ? 1000000 : 50000);
    }
    for (int n: sizes) for (int fam = 0; fam < n_families; ++fam)
        for (int rep = 0; rep < (n >= 50000 ? 1 : th ? 5 : 3); ++rep) {
            if (sp != vh_fast && n > 10000 && fam > 2) continue;
            if (sp != vh_fast && n > 3000 && show_ratios && (fam == 3 || fam == 4)) continue;
            forms(name, fam, make_family(fam, n, base + (unsigned)rep), sorter, cat);
        }
}

int main(int argc, char** argv) {
    init(argc, argv);
    int k = 0; (void)k;
#define X(name, type, cat, speed, stable) if (ctx().nshards == 1 || (k++ % ctx().nshards) == ctx().shard) if (std::strcmp(#name, "merge_insertion") && (speed == vh_fast || std::strstr(#name, "insertion"))) all(#name, speed, type{}, cat_c<cat>{});
    VH_SORTERS_PART(X)
    if (show_ratios) for (auto& r: ratios) { std::printf("R %s", r.first.c_str()); for (auto& q: r.second) std::printf(" %d:%.3f", q.first, q.second); std::puts(""); }
    sample("last case: " + ctx().label);
    return finish();
}
