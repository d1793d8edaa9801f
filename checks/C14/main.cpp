// C14: laws of measures of presortedness, and probes leave what they measure alone.
#include "vh.h"
#include "vh_alloc.h"
#include "vh_elem.h"
#include "vh_probes.h"
#define CPPSORT_DISABLE_DEPRECATION_WARNINGS 1
#include <cpp-sort/probes.h>
#include <forward_list>
#include <list>

using namespace vh;
using keys = std::vector<int>;

static std::string K(const char* probe, const char* law) { return std::string("C14|") + probe + "|" + law; }

template<typename Probe>
long long val(const Probe& p, const keys& v) { return (long long)p(v); }

static bool is_one_of(const std::string& s, const char* names) {
    std::string l = std::string(" ") + names + " ";
    return l.find(" " + s + " ") != std::string::npos;
}

////////////////////////////////////////////////////////////
// worst cases: candidates of size n, one of which reaches max_for_size

static std::vector<keys> worst_cases(int n) {
    std::vector<keys> r;
    keys d((std::size_t)n); for (int i = 0; i < n; ++i) d[(std::size_t)i] = n - i;
    r.push_back(d);                                                    // descending
    keys rot((std::size_t)n); for (int i = 0; i < n; ++i) rot[(std::size_t)i] = (i + 1) % n;
    r.push_back(rot);                                                  // one cycle
    keys alt((std::size_t)n); for (int i = 0; i < n; ++i) alt[(std::size_t)i] = i % 2 ? i + 1 : -i;
    r.push_back(alt);
    keys m2((std::size_t)n); for (int i = 0; i < n; ++i) m2[(std::size_t)i] = (i % 4 == 0 || i % 4 == 1) ? i * 2 + 10 * (i % 2) : i * 2 - 10 * (i % 2);
    r.push_back(m2);
    keys enc((std::size_t)n);                                          // 0 n 1 n-1 ...: ever nested
    { int lo = 0, hi = n; for (int i = 0; i < n; ++i) enc[(std::size_t)i] = i % 2 ? hi-- : lo++; }
    r.push_back(enc);
    { // zigzag between the lower and upper half, the medians at the ends
        keys z; int h = n / 2; 
        if (n % 2 == 0) { for (int i = 0; i < h; ++i) { z.push_back(i == 0 ? h : i); z.push_back(i == h - 1 ? h + 1 : n - i); } }
        else {
            int k = h;                                                 // lows 1..k+1, ends k+1 and k
            z.push_back(k + 1);
            for (int i = 0; i < k; ++i) { z.push_back(k + 2 + i); z.push_back(i == k - 1 ? k : i + 1); }
        }
        r.push_back(z);
    }
    return r;
}

////////////////////////////////////////////////////////////
// Laws on the values

template<typename Probe>
void zero_bound_order(const char* name, const Probe& probe) {
    profile pr; pr.exhaustive = 6; pr.dense_patterns = ctx().thorough ? 36 : 8; pr.sizes = {71, 97, 128, 200, 257, 300, 513}; pr.large = {1000, 1025, 2049}; pr.large_patterns = ctx().thorough ? 36 : 6;
    if (ctx().thorough) { pr.exhaustive = 7; pr.size_reps = 3; }
    for_each_input(pr, hash_str(K(name, "laws")), [&](const input& in) {
        std::string key = K(name, "laws");
        if (!begin_case(key + "|" + in.label())) return;
        count_case(hash_str(key) ^ in.hash(), in.nontrivial());
        long long x = val(probe, in.keys), n = (long long)in.size();
        // bounds
        long long mx = (long long)probe.max_for_size(n);
        event("bounds_checked");
        if (x < 0 || x > mx) violation(K(name, "bound"), "returned " + std::to_string(x) + ", max_for_size(" + std::to_string(n) + ") is " + std::to_string(mx) + "; input " + show(in.keys));
        // zero when sorted
        keys s = in.keys; std::sort(s.begin(), s.end());
        long long z = val(probe, s);
        event("sorted_inputs");
        if (z != 0) violation(K(name, "sorted-not-0"), "returned " + std::to_string(z) + "; input " + show(s));
        std::forward_list<int> sf(s.begin(), s.end());
        if ((long long)probe(sf.begin(), sf.end()) != 0) violation(K(name, "sorted-not-0"), "forward_list " + show(s));
        std::list<int> sr(s.rbegin(), s.rend());
        if ((long long)probe(sr, std::greater<>{}) != 0) violation(K(name, "sorted-not-0"), "greater, " + show(s));
        // same value for an order-isomorphic collection
        std::vector<double> d; std::vector<long> neg; std::vector<std::string> str;
        for (int k: in.keys) { d.push_back(k * 0.125 - 3); neg.push_back(-7L * k + 1); }
        event("isomorphic_pairs", 3);
        if ((long long)probe(d) != x) violation(K(name, "isomorphic"), "doubles: " + std::to_string((long long)probe(d)) + " instead of " + std::to_string(x) + "; input " + show(in.keys));
        if ((long long)probe(neg, std::greater<>{}) != x) violation(K(name, "isomorphic"), "negated, greater; input " + show(in.keys));
        if ((long long)probe(neg, [](long q) { return -q; }) != x) violation(K(name, "isomorphic"), "negated, projection; input " + show(in.keys));
        if (in.size() <= 100) {
            for (int k: in.keys) { char b[16]; std::snprintf(b, sizeof b, "%010d", k + 100000000); str.push_back(b); }
            if ((long long)probe(str) != x) violation(K(name, "isomorphic"), "strings; input " + show(in.keys));
        }
        if (val(probe, in.keys) != x) violation(K(name, "deterministic"), "a second call returned something else; input " + show(in.keys));

        // nor does the memory available change the value
        if (in.size() <= 600) for (int from = 1; from <= 2; ++from) {
            long long y = -1; bool got = true;
            allocs().no_fault(); allocs().fail_from = (std::uint64_t)from; allocs().arm();
            try { y = val(probe, in.keys); } catch (const std::bad_alloc&) { got = false; }
            allocs().disarm();
            bool failed = allocs().failed > 0; allocs().no_fault();
            if (got && failed) event("measured_without_memory");
            if (got && y != x) violation(K(name, "without-memory"), std::to_string(y) + " instead of " + std::to_string(x) + "; input " + show(in.keys));
            if (!failed) break;
        }

        std::string nm = name;
        bool distinct = ref::distinct(in.keys);
        // does not grow when an element is removed
        if (in.size() <= 40 && n > 0 && is_one_of(nm, "dis enc inv max mono osc par rem runs sus block") && (distinct || !is_one_of(nm, "block osc"))) {
            for (std::size_t i = 0; i < in.size(); ++i) {
                keys w = in.keys; w.erase(w.begin() + (long)i);
                event("removals");
                if (val(probe, w) > x) { violation(K(name, "removal"), "removing position " + std::to_string(i) + " of " + show(in.keys)); break; }
            }
        }
        // an element put in front adds at most n
        if (in.size() <= 200 && is_one_of(nm, "block dis enc exc inv max mono par rem runs sus") && (distinct || !is_one_of(nm, "block exc"))) {
            for (int q: {-1000000, 1000000, n ? in.keys[(std::size_t)n / 2] : 0}) {
                if (distinct && n && q == in.keys[(std::size_t)n / 2] && is_one_of(nm, "block exc")) continue;
                keys w = in.keys; w.insert(w.begin(), q);
                event("prepended");
                if (val(probe, w) > n + x) { violation(K(name, "prepend"), "putting " + std::to_string(q) + " before " + show(in.keys)); break; }
            }
        }
        // X before Y, X below Y: the measure is at most the sum
        if (in.size() <= 130 && is_one_of(nm, "dis exc ham inv max par rem runs sus") && (distinct || nm != "exc")) {
            input other = make_input((int)(in.hash() % n_patterns), (int)(in.hash() / 64 % 50), in.seed + 5);
            if (nm == "exc" && !ref::distinct(other.keys)) other.keys = {3, 1, 2};
            keys w = in.keys; int top = w.empty() ? 0 : *std::max_element(w.begin(), w.end()); int low = other.keys.empty() ? 0 : *std::min_element(other.keys.begin(), other.keys.end());
            for (int k: other.keys) w.push_back(k - low + top + 1);
            event("concatenations");
            if (val(probe, w) > x + val(probe, other.keys)) violation(K(name, "concatenation"), show(in.keys) + " then " + show(other.keys));
        }
    });
    for (int n = 0; n <= (ctx().thorough ? 400 : 150); ++n) {
        std::string key = K(name, "max-attained");
        if (!begin_case(key + "|n=" + std::to_string(n))) continue;
        count_case(hash_str(key) ^ (std::uint64_t)n, n > 1);
        long long mx = (long long)probe.max_for_size(n), best = -1;
        for (auto& w: worst_cases(n)) best = std::max(best, val(probe, w));
        event("maxima");
        if (std::string(name) == "ham" && n == 1) { if (mx < 0) violation(key, "n=1"); continue; }
        if (best != mx) violation(key, "n=" + std::to_string(n) + ": the worst case gives " + std::to_string(best) + ", max_for_size is " + std::to_string(mx));
    }
}

////////////////////////////////////////////////////////////
// Observation only: move-only elements, checked forward iterators

template<typename Probe>
void observe(const char* name, const Probe& probe) {
    profile pr; pr.exhaustive = 5; pr.dense_patterns = 4; pr.sizes = {97, 200}; pr.large = {1025}; pr.large_patterns = 6;
    if (ctx().thorough) { pr.exhaustive = 6; pr.size_reps = 3; pr.large_patterns = 36; }
    int form = 0;
    for (const char* fname: {"fwd,it,less", "fwd,view,proj", "bidi,it,greater,proj", "ra,view,greater"}) {
        std::string key = K(name, "observes") + "," + fname;
        for_each_input(pr, hash_str(key), [&](const input& in) {
            if (!begin_case(key + "|" + in.label())) return;
            count_case(hash_str(key) ^ in.hash(), in.nontrivial());
            auto& m = mon();
            m.key = key; m.reset_counters(); m.budget = 60ull * in.size() * in.size() + 20000;
            arena<elem> a(in.keys);
            long long live = m.live;
            auto F = [&](elem* p) { return chk_fwd<elem>(p, a.begin(), a.end()); };
            auto B = [&](elem* p) { return chk_bidi<elem>(p, a.begin(), a.end()); };
            auto R = [&](elem* p) { return chk_ra<elem>(p, a.begin(), a.end()); };
            m.in_call = true;
            try {
                switch (form) {
                    case 0: probe(F(a.begin()), F(a.end()), cmp_key{}); break;
                    case 1: probe(view<chk_fwd<elem>>{F(a.begin()), F(a.end())}, cmp_int{}, proj_key{}); break;
                    case 2: probe(B(a.begin()), B(a.end()), cmp_int_desc{}, proj_key_ref{}); break;
                    case 3: probe(view<chk_ra<elem>>{R(a.begin()), R(a.end())}, cmp_key_desc{}); break;
                }
            } catch (const runaway&) { m.bad("runaway"); }
            m.in_call = false;
            event("observations"); event("comparisons_seen", m.compares);
            if (m.moves || m.ctor || m.dtor) m.bad("moves-elements", "moves: " + std::to_string(m.moves) + "; input " + show(in.keys));
            if (m.live != live) m.bad("objects");
            if (!a.guards_intact()) m.bad("guards");
            for (std::size_t i = 0; i < in.size(); ++i) {
                elem& e = a.begin()[i];
                if (!e.alive() || e.key != in.keys[i] || e.id != (int)i) { m.bad("modified", "position " + std::to_string(i) + "; input " + show(in.keys)); break; }
            }
        });
        ++form;
    }
}

////////////////////////////////////////////////////////////
// Relations between the measures

static void relations() {
    using namespace cppsort;
    profile pr; pr.exhaustive = 6; pr.dense_patterns = 12; pr.sizes = {71, 97, 128, 200, 257, 300, 513}; pr.large = {1000, 2049}; pr.large_patterns = 12;
    if (ctx().thorough) { pr.exhaustive = 7; pr.dense_patterns = 36; pr.size_reps = 4; }
    for_each_input(pr, hash_str("relations"), [&](const input& in) {
        if (!begin_case("C14|relations|" + in.label())) return;
        count_case(in.hash(), in.nontrivial());
        const keys& v = in.keys; long long n = (long long)v.size();
        long long block = val(probe::block, v), dis = val(probe::dis, v), enc = val(probe::enc, v), exc = val(probe::exc, v), ham = val(probe::ham, v), inv = val(probe::inv, v),
            max = val(probe::max, v), mono = val(probe::mono, v), osc = val(probe::osc, v), par = val(probe::par, v), rem = val(probe::rem, v), runs = val(probe::runs, v), sus = val(probe::sus, v);
        bool d = ref::distinct(v);
        event("relations", 27);
#define REL(c) if (!(c)) violation("C14|relation|" #c, "input " + show(v))
        REL(rem <= inv); REL(runs <= rem); REL(max <= dis); REL(dis <= 2 * max); REL(dis <= inv); REL(sus <= runs); REL(sus <= max); REL(enc <= sus);
        REL(osc <= 4 * inv); REL(osc <= 2 * n * runs + n); REL(osc <= n * dis); REL(enc <= dis); REL(mono <= runs); REL(2 * inv <= n * dis); REL((dis + 1) * rem <= n * dis);
        REL(enc <= std::min(rem, n - rem)); REL(runs <= inv); REL(sus <= rem); REL((ham == 0) == (inv == 0)); REL((exc == 0) == (inv == 0)); REL((block == 0) == (inv == 0)); REL((mono == 0) || (inv != 0));
        REL(par == dis);
        if (d) { REL(exc <= inv); REL(inv == 0 || exc + 1 <= ham); REL(ham <= 2 * exc); REL(rem <= 2 * exc); REL(block <= 3 * rem); REL(runs <= block); REL(runs <= 2 * exc); }
    });
}

int main(int argc, char** argv) {
    init(argc, argv);
    int k = 0;
#define X(p) if ((k++ % ctx().nshards) == ctx().shard) { zero_bound_order(#p, cppsort::probe::p); observe(#p, cppsort::probe::p); }
    VH_PROBES_PART(X)
#if PART == 4
    if ((k++ % ctx().nshards) == ctx().shard) relations();
#endif
    sample("last case: " + ctx().label);
    return finish();
}
