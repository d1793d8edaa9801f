// Reference values of the measures of presortedness, computed from their definitions, and the list of the probes.
#ifndef VH_PROBES_H
#define VH_PROBES_H
#include "vh.h"

namespace vh { namespace ref {
    using keys = std::vector<int>;
    struct fenwick {
        std::vector<long long> t;
        explicit fenwick(std::size_t n): t(n + 1, 0) {}
        void add(std::size_t i) { for (++i; i < t.size(); i += i & (~i + 1)) ++t[i]; }
        void raise(std::size_t i, long long x) { for (++i; i < t.size(); i += i & (~i + 1)) t[i] = std::max(t[i], x); }
        long long sum(std::size_t n) const { long long s = 0; for (; n > 0; n -= n & (~n + 1)) s += t[n]; return s; }      // of the first n
        long long top(std::size_t n) const { long long s = 0; for (; n > 0; n -= n & (~n + 1)) s = std::max(s, t[n]); return s; }
    };
    // rank of each key among the distinct keys
    inline std::vector<std::size_t> ranks(const keys& v) {
        keys s = v; std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end());
        std::vector<std::size_t> r;
        for (int x: v) r.push_back((std::size_t)(std::lower_bound(s.begin(), s.end(), x) - s.begin()));
        return r;
    }
    inline bool distinct(const keys& v) { keys s = v; std::sort(s.begin(), s.end()); return std::adjacent_find(s.begin(), s.end()) == s.end(); }

    inline long long inv(const keys& v) {
        auto r = ranks(v); fenwick f(v.size()); long long c = 0;
        for (std::size_t i = 0; i < v.size(); ++i) { c += (long long)i - f.sum(r[i] + 1); f.add(r[i]); }
        return c;
    }
    inline long long dis(const keys& v) {       // for each j, the leftmost i with v[i] > v[j]: on the prefix maxima
        keys mx; long long best = 0;
        for (std::size_t j = 0; j < v.size(); ++j) {
            auto it = std::upper_bound(mx.begin(), mx.end(), v[j]);
            if (it != mx.end()) best = std::max(best, (long long)j - (it - mx.begin()));
            mx.push_back(mx.empty() ? v[j] : std::max(mx.back(), v[j]));
        }
        return best;
    }
    inline long long par(const keys& v) { return dis(v); }
    inline long long runs(const keys& v) { long long c = 0; for (std::size_t i = 1; i < v.size(); ++i) c += v[i] < v[i - 1]; return c; }
    inline long long rem(const keys& v) {
        auto r = ranks(v); fenwick f(v.size()); long long best = 0;
        for (std::size_t i = 0; i < v.size(); ++i) { long long l = f.top(r[i] + 1) + 1; best = std::max(best, l); f.raise(r[i], l); }
        return (long long)v.size() - best;
    }
    inline long long sus(const keys& v) {       // longest strictly decreasing subsequence, minus one
        auto r = ranks(v); std::size_t n = v.size(); fenwick f(n); long long best = 0;
        for (std::size_t i = 0; i < n; ++i) { std::size_t q = n - 1 - r[i]; long long l = f.top(q) + 1; best = std::max(best, l); f.raise(q, l); }
        return best > 0 ? best - 1 : 0;
    }
    inline long long ham(const keys& v) { keys s = v; std::sort(s.begin(), s.end()); long long c = 0; for (std::size_t i = 0; i < v.size(); ++i) c += s[i] != v[i]; return c; }
    inline long long max(const keys& v) {
        keys s = v; std::sort(s.begin(), s.end()); long long c = 0;
        for (std::size_t i = 0; i < v.size(); ++i) {
            auto r = std::equal_range(s.begin(), s.end(), v[i]);
            long long lo = r.first - s.begin(), hi = r.second - s.begin() - 1, p = (long long)i;
            c = std::max(c, p < lo ? lo - p : p > hi ? p - hi : 0);
        }
        return c;
    }
    inline long long mono(const keys& v) {
        std::size_t i = 0, n = v.size(); long long c = 0;
        while (i < n) {
            std::size_t a = i + 1, b = i + 1;
            while (a < n && v[a - 1] <= v[a]) ++a;
            while (b < n && v[b - 1] >= v[b]) ++b;
            i = std::max(a, b); ++c;
        }
        return c > 0 ? c - 1 : 0;
    }
    inline long long osc(const keys& v) {       // for each pair of neighbours, the elements strictly between them
        keys s = v; std::sort(s.begin(), s.end()); long long c = 0;
        for (std::size_t j = 1; j < v.size(); ++j) {
            int a = std::min(v[j - 1], v[j]), b = std::max(v[j - 1], v[j]);
            if (a < b) c += std::lower_bound(s.begin(), s.end(), b) - std::upper_bound(s.begin(), s.end(), a);
        }
        return c;
    }
    inline long long enc(const keys& v) {
        std::vector<std::pair<int, int>> l;
        for (int x: v) {
            bool found = false;
            for (auto& p: l) {
                if (x >= p.second) { p.second = x; found = true; break; }
                if (x <= p.first) { p.first = x; found = true; break; }
            }
            if (!found) l.push_back({x, x});
        }
        return l.empty() ? 0 : (long long)l.size() - 1;
    }
    struct bounds { long long exc_min, exc_max, block_min, block_max; };
    inline long long cycles(const std::vector<std::size_t>& s) {
        std::vector<char> seen(s.size(), 0); long long c = 0;
        for (std::size_t i = 0; i < s.size(); ++i) if (!seen[i]) { ++c; for (std::size_t j = i; !seen[j]; j = s[j]) seen[j] = 1; }
        return c;
    }
    inline long long block_of(const keys& v, const std::vector<std::size_t>& s) {
        long long b = 0; std::size_t n = v.size();
        for (std::size_t k = 0; k + 1 < n; ++k) b += s[k] + 1 == n ? v[s[k]] != v[s[n - 1]] : v[s[k] + 1] != v[s[k + 1]];
        return b;
    }
    inline std::vector<std::size_t> order(const keys& v) {
        std::vector<std::size_t> s(v.size());
        for (std::size_t i = 0; i < s.size(); ++i) s[i] = i;
        std::stable_sort(s.begin(), s.end(), [&](std::size_t a, std::size_t b) { return v[a] < v[b]; });
        return s;
    }
    // Over every way to sort v (equivalent elements in any order)
    inline bounds tie_bounds(const keys& v) {
        auto s = order(v); std::size_t n = v.size();
        bounds b{1ll << 60, -1, 1ll << 60, -1};
        for (;;) {
            long long e = (long long)n - cycles(s), k = block_of(v, s);
            b.exc_min = std::min(b.exc_min, e); b.exc_max = std::max(b.exc_max, e);
            b.block_min = std::min(b.block_min, k); b.block_max = std::max(b.block_max, k);
            std::size_t i = n; bool next = false;
            while (i > 0) {
                std::size_t hi = i, lo = hi;
                while (lo > 0 && v[s[lo - 1]] == v[s[hi - 1]]) --lo;
                if (std::next_permutation(s.begin() + (long)lo, s.begin() + (long)hi)) { next = true; break; }
                i = lo;
            }
            if (!next) return b;
        }
    }
    inline long long exc(const keys& v) { return (long long)v.size() - cycles(order(v)); }       // distinct keys only
    inline long long block(const keys& v) { return block_of(v, order(v)); }                        // distinct keys only
}}

#define VH_PROBES_1(X) X(block) X(dis) X(enc)
#define VH_PROBES_2(X) X(exc) X(ham) X(inv)
#define VH_PROBES_3(X) X(max) X(mono) X(osc)
#define VH_PROBES_4(X) X(par) X(rem) X(runs) X(sus)
#define VH_PCAT2(a, b) a##b
#define VH_PCAT(a, b) VH_PCAT2(a, b)
#define VH_PROBES_PART(X) VH_PCAT(VH_PROBES_, PART)(X)
#endif
