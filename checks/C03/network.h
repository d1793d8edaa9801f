// Offline checker of a recorded compare-exchange trace: does it sort every 0-1 input?
// Exact: the 2^N inputs are followed as sets of states of independent groups of lines, merged only when
// a compare-exchange joins them; the groups left at the end are combined 64 states at a time.
#ifndef C03_NETWORK_H
#define C03_NETWORK_H
#include "vh.h"

typedef std::uint64_t u64;
typedef std::vector<std::pair<int, int>> ces_t;     // (line of the minimum, line of the maximum)

struct net_result {
    int verdict = 0;          // 1 sorts every 0-1 input, 0 does not, -1 too large to decide
    u64 witness = 0;          // result that is not sorted, when verdict is 0
    u64 states = 0;           // states examined
};

inline bool sorted_word(u64 x, int n) {   // zeros first (low lines), ones last
    u64 full = n == 64 ? ~0ull : (1ull << n) - 1;
    int ones = __builtin_popcountll(x);
    u64 want = ones == 0 ? 0 : (full >> (n - ones)) << (n - ones);
    return x == want;
}

// Hot loops: raw pointers, optimized whatever the flags of the rest
#if defined(__GNUC__) && !defined(__clang__)
#pragma GCC push_options
#pragma GCC optimize("O2")
#endif
inline void apply_all(u64* s, std::size_t n, int a, int b) {
    for (std::size_t i = 0; i < n; ++i) { u64 x = s[i], d = (x >> a & 1) & ~(x >> b); s[i] = (x ^ (d << a)) | (d << b); }
}
inline void product(const u64* a, std::size_t na, const u64* b, std::size_t nb, u64* out) {
    for (std::size_t i = 0; i < na; ++i) for (std::size_t j = 0; j < nb; ++j) *out++ = a[i] | b[j];
}
inline u64 stream(u64* w, const u64* in, u64 x, int N, const std::pair<int, int>* rest, std::size_t n) {
    for (int i = 0; i < N; ++i) w[i] = in[i] | (x >> i & 1 ? ~0ull : 0);
    for (std::size_t k = 0; k < n; ++k) { int p = rest[k].first, q = rest[k].second; u64 lo = w[p] & w[q], hi = w[p] | w[q]; w[p] = lo; w[q] = hi; }
    u64 bad = 0;
    for (int i = 0; i + 1 < N; ++i) bad |= w[i] & ~w[i + 1];
    return bad;
}
#if defined(__GNUC__) && !defined(__clang__)
#pragma GCC pop_options
#endif

inline net_result check_network(int N, const ces_t& ces, double merge_limit = 4e6, double stream_limit = 4e9) {
    net_result res;
    std::vector<int> comp((std::size_t)N);
    std::vector<std::vector<u64>> st((std::size_t)N);
    for (int i = 0; i < N; ++i) { comp[i] = i; st[i] = {0, 1ull << i}; }
    std::vector<char> done(ces.size());
    auto apply = [&](std::vector<u64>& s, int a, int b) {
        apply_all(s.data(), s.size(), a, b);
        res.states += s.size();
    };
    for (;;) {
        bool prog = true;
        while (prog) {
            prog = false;
            std::vector<char> blocked((std::size_t)N);
            for (std::size_t k = 0; k < ces.size(); ++k) if (!done[k]) {
                auto p = ces[k];
                if (!blocked[p.first] && !blocked[p.second] && comp[p.first] == comp[p.second]) { apply(st[comp[p.first]], p.first, p.second); done[k] = 1; prog = true; }
                else blocked[p.first] = blocked[p.second] = 1;
            }
        }
        for (int i = 0; i < N; ++i) if (comp[i] == i) { std::sort(st[i].begin(), st[i].end()); st[i].erase(std::unique(st[i].begin(), st[i].end()), st[i].end()); }
        double best = 1e300; std::size_t bk = ces.size();
        std::vector<char> blocked((std::size_t)N);
        for (std::size_t k = 0; k < ces.size(); ++k) if (!done[k]) {
            auto p = ces[k];
            if (!blocked[p.first] && !blocked[p.second]) {
                double pr = (double)st[comp[p.first]].size() * (double)st[comp[p.second]].size();
                if (pr < best) { best = pr; bk = k; }
            }
            blocked[p.first] = blocked[p.second] = 1;
        }
        if (bk == ces.size() || best > merge_limit) break;
        int a = comp[ces[bk].first], b = comp[ces[bk].second];
        std::vector<u64> m; m.reserve((std::size_t)best);
        m.resize((std::size_t)best);
        product(st[a].data(), st[a].size(), st[b].data(), st[b].size(), m.data());
        st[a].swap(m); st[b].clear();
        for (auto& c: comp) if (c == b) c = a;
    }
    // what remains: the product of the groups, in order, through the remaining compare-exchanges
    std::vector<std::vector<u64>> groups;
    double total = 1;
    for (int i = 0; i < N; ++i) if (comp[i] == i) { groups.push_back(st[i]); total *= (double)st[i].size(); }
    ces_t rest;
    for (std::size_t k = 0; k < ces.size(); ++k) if (!done[k]) rest.push_back(ces[k]);
    if (total > stream_limit) { res.verdict = -1; return res; }
    std::sort(groups.begin(), groups.end(), [](const std::vector<u64>& a, const std::vector<u64>& b) { return a.size() > b.size(); });
    std::vector<u64> inner = groups.empty() ? std::vector<u64>{0} : groups[0];
    std::vector<u64> outer{0};
    for (std::size_t g = 1; g < groups.size(); ++g) { std::vector<u64> m; for (u64 x: outer) for (u64 y: groups[g]) m.push_back(x | y); outer.swap(m); }
    std::size_t blocks = (inner.size() + 63) / 64;
    std::vector<u64> sliced(blocks * (std::size_t)N);
    for (std::size_t q = 0; q < inner.size(); ++q)
        for (int i = 0; i < N; ++i) if (inner[q] >> i & 1) sliced[(q / 64) * (std::size_t)N + (std::size_t)i] |= 1ull << (q % 64);
    std::vector<u64> w((std::size_t)N);
    for (u64 x: outer) for (std::size_t b = 0; b < blocks; ++b) {
        u64 bad = stream(w.data(), &sliced[b * (std::size_t)N], x, N, rest.data(), rest.size());
        std::size_t left = inner.size() - b * 64;
        if (left < 64) bad &= (1ull << left) - 1;
        res.states += left < 64 ? left : 64;
        if (bad) {
            int q = __builtin_ctzll(bad);
            for (int i = 0; i < N; ++i) if (w[i] >> q & 1) res.witness |= 1ull << i;
            return res;
        }
    }
    res.verdict = 1;
    return res;
}

// An input that the network does not sort, searched among random 0-1 inputs (the exact checker follows sets, not origins)
inline std::string find_bad_input(int N, const ces_t& ces, vh::rng& r, int rounds = 200000) {
    std::vector<u64> w((std::size_t)N), in;
    for (int k = 0; k < rounds; ++k) {
        for (auto& x: w) { x = r.next(); int m = k % 3; if (m == 1) x &= r.next(); if (m == 2) x |= r.next(); }
        in = w;
        for (auto& p: ces) { u64 lo = w[p.first] & w[p.second], hi = w[p.first] | w[p.second]; w[p.first] = lo; w[p.second] = hi; }
        u64 bad = 0;
        for (int i = 0; i + 1 < N; ++i) bad |= w[i] & ~w[i + 1];
        if (bad) { int q = __builtin_ctzll(bad); std::string s; for (int i = 0; i < N; ++i) s += (in[i] >> q & 1) ? '1' : '0'; return s; }
    }
    return "(none found at random)";
}
inline std::string quick_find(int N, const ces_t& ces) { vh::rng r(7); return find_bad_input(N, ces, r, 2000); }
#endif
