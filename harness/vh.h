// Core of the monitoring harness: reporting, progress, random numbers, inputs.
// C++14, no dependency on the library under test.
#ifndef VH_H
#define VH_H
#include <algorithm>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vh {

////////////////////////////////////////////////////////////
// Random numbers (deterministic, independent of the platform)

inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline std::uint64_t hash_str(const char* s, std::uint64_t h = 1469598103934665603ull) {
    for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ull; }
    return mix(h);
}
inline std::uint64_t hash_str(const std::string& s) { return hash_str(s.c_str()); }

struct rng {
    std::uint64_t s;
    explicit rng(std::uint64_t seed): s(seed) {}
    std::uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    // uniform-ish in [0, n)
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((std::uint64_t)(b - a + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template<typename V> void shuffle(V& v) {
        for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
};

////////////////////////////////////////////////////////////
// Context of the run

struct progress_page {                    // shared with the runner through a mapped file
    std::uint64_t cases;
    char label[4000];
};

struct context {
    std::uint64_t seed = 1;
    bool thorough = false;
    std::string only;                     // replay: run only the case with this label
    progress_page* page = nullptr;
    const char* distinct_path = nullptr;
    std::uint64_t evaluations = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> events;
    std::vector<std::string> samples;
    std::map<std::string, int> viol_count;
    int violations = 0;
    std::string label;
    std::string key_prefix;
    std::uint64_t only_hits = 0;
    int shard = 0, nshards = 1;
};
inline context& ctx() { static context c; return c; }

inline std::string json_escape(const std::string& s) {
    std::string r;
    for (unsigned char c: s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}

// While positive, the allocation hooks (vh_alloc.h) leave the harness alone
inline int& harness_depth() { static thread_local int d = 0; return d; }
struct harness_scope {
    harness_scope() { ++harness_depth(); }
    ~harness_scope() { --harness_depth(); }
};

inline void write_line(const std::string& s) {
    std::size_t off = 0;
    while (off < s.size()) {
        ssize_t k = ::write(1, s.data() + off, s.size() - off);
        if (k <= 0) _exit(97);
        off += (std::size_t)k;
    }
}

// Report a violation; `key` identifies what fails (stable across seeds as far as possible)
inline void violation(const std::string& key, const std::string& detail) {
    harness_scope hs;
    auto& c = ctx();
    int& k = c.viol_count[key];
    ++k; ++c.violations;
    if (k <= 2 && c.viol_count.size() <= 60) {
        write_line("{\"t\":\"viol\",\"key\":\"" + json_escape(key) + "\",\"case\":\"" + json_escape(c.label)
                   + "\",\"detail\":\"" + json_escape(detail) + "\"}\n");
    }
}

inline void event(const char* name, std::uint64_t k = 1) { harness_scope hs; ctx().events[name] += k; }

inline void sample(const std::string& s) {
    auto& c = ctx();
    if (c.samples.size() < 4) c.samples.push_back(s.substr(0, 500));
}

// Start of a case: false if the case must be skipped. The label must not depend on memory addresses.
inline bool begin_case(const std::string& label) {
    auto& c = ctx();
    if (!c.only.empty()) {
        if (label != c.only) return false;
        ++c.only_hits;
    }
    c.label = label;
    if (c.page) {
        std::strncpy(c.page->label, label.c_str(), sizeof c.page->label - 1);
        ++c.page->cases;
    }
    return true;
}
// End of a case: one evaluation, with a hash of its content
inline void count_case(std::uint64_t content_hash, bool nontrivial) {
    auto& c = ctx();
    ++c.evaluations;
    if (nontrivial) c.distinct.insert(content_hash);
}

inline int finish() {
    auto& c = ctx();
    std::string s = "{\"t\":\"stats\",\"evaluations\":" + std::to_string(c.evaluations)
        + ",\"violations\":" + std::to_string(c.violations) + ",\"events\":{";
    bool first = true;
    for (auto& e: c.events) {
        if (!first) s += ",";
        first = false;
        s += "\"" + json_escape(e.first) + "\":" + std::to_string(e.second);
    }
    s += "},\"samples\":[";
    first = true;
    for (auto& e: c.samples) { if (!first) s += ","; first = false; s += "\"" + json_escape(e) + "\""; }
    s += "]}\n";
    if (c.distinct_path) {
        std::vector<std::uint64_t> v(c.distinct.begin(), c.distinct.end());
        FILE* f = std::fopen(c.distinct_path, "wb");
        if (!f || std::fwrite(v.data(), 8, v.size(), f) != v.size()) _exit(96);
        std::fclose(f);
    }
    if (!c.only.empty() && c.only_hits == 0) { write_line("{\"t\":\"nohit\"}\n"); }
    write_line(s);
    return 0;
}

inline void init(int argc, char** argv) {
    auto& c = ctx();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        const char* v = argv[i + 1];
        if (a == "--seed") c.seed = std::strtoull(v, nullptr, 10);
        else if (a == "--tier") c.thorough = std::string(v) == "thorough";
        else if (a == "--only") c.only = v;
        else if (a == "--distinct") c.distinct_path = v;
        else if (a == "--shard") c.shard = std::atoi(v);
        else if (a == "--nshards") c.nshards = std::atoi(v);
        else if (a == "--progress") {
            int fd = ::open(v, O_RDWR | O_CREAT, 0600);
            if (fd < 0 || ::ftruncate(fd, sizeof(progress_page)) != 0) _exit(95);
            void* m = ::mmap(nullptr, sizeof(progress_page), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m == MAP_FAILED) _exit(95);
            ::close(fd);
            c.page = static_cast<progress_page*>(m);
        }
    }
}

////////////////////////////////////////////////////////////
// Thrown by harness comparators when a call runs away: the number of
// comparisons is far beyond anything the algorithm may need

struct runaway: std::exception {
    const char* what() const noexcept override { return "comparison budget exceeded"; }
};

////////////////////////////////////////////////////////////
// Inputs

struct input {
    std::string pattern;
    std::uint64_t seed;
    std::vector<int> keys;
    std::size_t size() const { return keys.size(); }
    std::string label() const {
        return pattern + "/n=" + std::to_string(keys.size()) + "/s=" + std::to_string(seed);
    }
    std::uint64_t hash() const {
        std::uint64_t h = keys.size() * 0x9e3779b97f4a7c15ull;
        for (int k: keys) h = mix(h ^ (std::uint64_t)(std::uint32_t)k) + 0x1234567;
        return h;
    }
    bool nontrivial() const {             // at least two distinct keys
        for (std::size_t i = 1; i < keys.size(); ++i) if (keys[i] != keys[0]) return true;
        return false;
    }
};

inline std::string show(const std::vector<int>& v, std::size_t max = 120) {
    std::string s = "[";
    for (std::size_t i = 0; i < v.size() && i < max; ++i) { if (i) s += ","; s += std::to_string(v[i]); }
    if (v.size() > max) s += ",...";
    return s + "]";
}

enum { n_patterns = 36 };

inline const char* pattern_name(int p) {
    static const char* names[n_patterns] = {
        "shuffled", "random_dup", "two_values", "sqrt_values", "sixteen_values", "all_equal", "ascending",
        "descending", "descending_dup", "few_swaps", "random_tail", "pipe_organ", "push_front", "sawtooth",
        "rotated", "alternating", "asc_runs", "mixed_runs", "verge_trap", "med3_killer", "encroaching",
        "plateau", "sorted_blocks", "two_halves", "rev_halves", "drop10", "one_out", "heap", "k_unique",
        "ascending_dup", "push_middle", "desc_runs", "local_shuffle", "valley", "big_runs", "tail_dup"
    };
    return names[p];
}

inline std::vector<int> make_keys(int p, int n, rng& r) {
    std::vector<int> v((std::size_t)n);
    auto iota = [&] { for (int i = 0; i < n; ++i) v[(std::size_t)i] = i; };
    auto at = [&](int i) -> int& { return v[(std::size_t)i]; };
    int sq = 1; while ((sq + 1) * (sq + 1) <= n) ++sq;
    int lg = 1; while ((1 << lg) < n) ++lg;
    switch (p) {
        case 0: iota(); r.shuffle(v); break;
        case 1: for (auto& x: v) x = (int)r.below((unsigned)n + 1); break;
        case 2: for (auto& x: v) x = (int)r.below(2); break;
        case 3: for (auto& x: v) x = (int)r.below((unsigned)sq); break;
        case 4: for (auto& x: v) x = (int)r.below(16); break;
        case 5: for (auto& x: v) x = 42; break;
        case 6: iota(); break;
        case 7: for (int i = 0; i < n; ++i) at(i) = n - i; break;
        case 8: for (int i = 0; i < n; ++i) at(i) = (n - i) / 3; break;
        case 9: iota(); for (int k = r.range(1, lg + 1); n > 1 && k > 0; --k) std::swap(v[r.below((unsigned)n)], v[r.below((unsigned)n)]); break;
        case 10: { iota(); int k = n ? r.range(1, std::max(1, n / 8)) : 0; for (int i = n - k; i < n; ++i) if (i >= 0) at(i) = (int)r.below((unsigned)n); break; }
        case 11: for (int i = 0; i < n / 2; ++i) at(i) = i; for (int i = n / 2; i < n; ++i) at(i) = n - i; break;
        case 12: for (int i = 0; i < n; ++i) at(i) = i + 1; if (n) at(n - 1) = 0; break;
        case 13: { int m = r.range(2, std::max(2, 2 * sq)); for (int i = 0; i < n; ++i) at(i) = i % m; break; }
        case 14: { int k = n ? (int)r.below((unsigned)n) : 0; for (int i = 0; i < n; ++i) at(i) = (i + k) % n; break; }
        case 15: for (int i = 0; i < n; ++i) at(i) = (i % 2) ? i : -i; break;
        case 16: case 31: { // concatenated ascending (descending) runs
            int i = 0; while (i < n) { int len = r.range(1, std::max(1, std::min(n, 3 * sq))); int b = (int)r.below((unsigned)n); int step = r.range(0, 3);
                for (int j = 0; j < len && i < n; ++j, ++i) at(i) = p == 16 ? b + j * step : b - j * step; } break; }
        case 17: { int i = 0; while (i < n) { int len = r.range(1, std::max(1, std::min(n, 2 * sq + 3))); int b = (int)r.below((unsigned)n); int step = r.range(-2, 2);
                for (int j = 0; j < len && i < n; ++j, ++i) at(i) = b + j * step; } break; }
        case 18: { // runs barely below/above n / log n
            int m = std::max(1, n / std::max(1, lg)); int i = 0; bool up = r.chance(1, 2);
            while (i < n) { int len = std::max(1, m + r.range(-1, 1)); int b = (int)r.below((unsigned)n); for (int j = 0; j < len && i < n; ++j, ++i) at(i) = up ? b + j : b - j; if (r.chance(1, 3)) up = !up; } break; }
        case 19: { // median of three killer
            iota(); int k = n / 2; for (int i = 0; i < k; ++i) { at(i) = (i % 2) ? k + i - 1 + (k % 2) : i; } for (int i = 0; i < n - k; ++i) at(k + i) = 2 * i + 1; break; }
        case 20: { int lo = 0, hi = n - 1; for (int i = 0; i < n; ++i) at(i) = (i % 2) ? hi-- : lo++; break; }
        case 21: iota(); for (int i = n / 4; i < (3 * n) / 4; ++i) at(i) = n / 2; break;
        case 22: { int m = std::max(1, r.range(1, 2 * sq)); int blocks = (n + m - 1) / m; std::vector<int> o((std::size_t)blocks); for (int i = 0; i < blocks; ++i) o[(std::size_t)i] = i; r.shuffle(o);
            int q = 0; for (int b: o) for (int i = b * m; i < std::min(n, (b + 1) * m); ++i) at(q++) = i; break; }
        case 23: { int k = n / 2; for (int i = 0; i < k; ++i) at(i) = 2 * i + r.range(0, 1); for (int i = k; i < n; ++i) at(i) = 2 * (i - k) + r.range(0, 1); break; }
        case 24: { int k = n / 2; for (int i = 0; i < k; ++i) at(i) = k - i; for (int i = k; i < n; ++i) at(i) = n - i + k; break; }
        case 25: iota(); for (auto& x: v) if (r.chance(1, 10)) x = (int)r.below((unsigned)n); break;
        case 26: { iota(); if (n > 1) { int a = (int)r.below((unsigned)n), b = (int)r.below((unsigned)n); int x = at(a); v.erase(v.begin() + a); v.insert(v.begin() + b, x); } break; }
        case 27: iota(); r.shuffle(v); std::make_heap(v.begin(), v.end()); if (r.chance(1, 2)) std::reverse(v.begin(), v.end()); break;
        case 28: { int k = r.range(1, std::max(2, 3 * sq)); for (auto& x: v) x = (int)r.below((unsigned)k); break; }
        case 29: for (int i = 0; i < n; ++i) at(i) = i / 3; break;
        case 30: { iota(); if (n > 1) { int x = at(n / 2); v.erase(v.begin() + n / 2); v.push_back(x); } break; }
        case 32: { iota(); int w = r.range(2, 12); for (int i = 0; i < n; i += w) { int e = std::min(n, i + w); for (int j = e - 1; j > i; --j) std::swap(at(j), at(i + (int)r.below((unsigned)(j - i + 1)))); } break; }
        case 33: for (int i = 0; i < n; ++i) at(i) = std::abs(n / 2 - i); break;
        case 34: { // two to five long runs, up or down, some of them with equivalent elements
            int parts = r.range(2, 5); for (int q = 0; q < parts; ++q) { int a = (int)((long)n * q / parts), b = (int)((long)n * (q + 1) / parts); int base = r.range(0, n); int d = r.range(0, 1) ? 1 : -1; int div = r.range(1, 3);
                for (int i = a; i < b; ++i) at(i) = base + d * ((i - a) / div); } break; }
        case 35: { int k = r.range(1, std::max(1, sq)); for (int i = 0; i < n; ++i) at(i) = i < n - 2 * k ? i : (int)r.below((unsigned)std::max(1, k)) + n / 2; break; }
        default: iota();
    }
    return v;
}

inline input make_input(int p, int n, std::uint64_t seed) {
    rng r(mix(seed * 1000003u + (std::uint64_t)p) ^ (std::uint64_t)n);
    input in; in.pattern = pattern_name(p); in.seed = seed; in.keys = make_keys(p, n, r);
    return in;
}

// All weak orderings of n elements (as ranks), n small: ordered Bell numbers 1 1 3 13 75 541 4683 47293
inline const std::vector<std::vector<int>>& weak_orderings(int n) {
    static std::map<int, std::vector<std::vector<int>>> cache;
    auto it = cache.find(n);
    if (it != cache.end()) return it->second;
    auto& out = cache[n];
    std::vector<int> v((std::size_t)n, 0);
    for (;;) {
        int mx = -1; unsigned seen = 0;
        for (int x: v) { mx = std::max(mx, x); seen |= 1u << x; }
        if (n == 0 || seen == (1u << (mx + 1)) - 1) out.push_back(v);
        int i = n - 1;
        while (i >= 0 && v[(std::size_t)i] == n - 1) v[(std::size_t)i--] = 0;
        if (i < 0) break;
        ++v[(std::size_t)i];
    }
    return out;
}

struct profile {
    int exhaustive = 6;                   // all weak orderings up to this size
    int dense_from = 7, dense_to = 70;    // every size in this range ...
    int dense_patterns = 6;               // ... with this many patterns, rotating
    std::vector<int> sizes;               // threshold sizes, all patterns
    int size_reps = 1;
    std::vector<int> large;               // large sizes, with some patterns each
    int large_patterns = 10;
};

inline std::vector<int> threshold_sizes() {
    return { 71, 79, 80, 81, 95, 96, 97, 127, 128, 129, 150, 191, 200, 255, 256, 257, 300, 383, 511, 512, 513, 600, 777 };
}
inline std::vector<int> threshold_sizes_big() {
    return { 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 2500, 3000, 4096, 4097, 5000 };
}

// Inputs found by an adversary for the sorter at hand (vh_killers.h)
inline std::vector<input>& killers() { static std::vector<input> k; return k; }

// Calls f(const input&) for each input of the profile. `salt` decorrelates the random inputs of different users.
template<typename F>
void for_each_input(const profile& pr, std::uint64_t salt, F f) {
    std::uint64_t base = mix(ctx().seed * 7919 + salt) % 1000000007ull;
    for (int n = 0; n <= pr.exhaustive; ++n) {
        std::uint64_t k = 0;
        for (auto& w: weak_orderings(n)) {
            input in; in.pattern = "weak"; in.seed = k++; in.keys = w;
            f(in);
        }
    }
    unsigned rot = (unsigned)(base % n_patterns);
    for (int n = pr.dense_from; n <= pr.dense_to; ++n)
        for (int k = 0; k < pr.dense_patterns; ++k) { f(make_input((int)(rot % n_patterns), n, base + rot)); rot += 1; }
    for (int n: pr.sizes)
        for (int rep = 0; rep < pr.size_reps; ++rep)
            for (int p = 0; p < n_patterns; ++p) f(make_input(p, n, base + (std::uint64_t)rep));
    for (auto& k: killers()) f(k);
    for (int n: pr.large)
        for (int k = 0; k < pr.large_patterns; ++k) { f(make_input((int)(rot % n_patterns), n, base + rot)); rot += 1; }
}

} // namespace vh
#endif
