// C20: apply_permutation with any permutation, index type and collection.
#include "vh.h"
#include "vh_elem.h"
#include <cpp-sort/utility/apply_permutation.h>
#include <array>
#include <deque>
#include <memory>
#include <numeric>
#include <string>

using namespace vh;
namespace cu = cppsort::utility;

static std::string key_of(const char* form) { return std::string("C20|permutation|") + form; }

// Monitored elements: position i must receive the element that was at p[i], no element may be lost, read twice or moved onto itself
template<typename Index, typename Container, typename Call>
void monitored(const char* form, const std::vector<int>& perm, const std::string& label, Call call) {
    std::string key = key_of(form);
    if (!begin_case(key + "|" + label)) return;
    auto& m = mon(); m.key = key; m.reset_counters();
    input in; in.keys = perm;
    count_case(hash_str(key) ^ in.hash(), !std::is_sorted(perm.begin(), perm.end()));
    long long live0 = m.live;
    {
        std::vector<int> keys(perm.size()); for (std::size_t i = 0; i < keys.size(); ++i) keys[i] = (int)(i * 7 % 5);
        arena<elem> a(keys);
        Container idx(perm.begin(), perm.end());
        m.in_call = true;
        call(a, idx);
        m.in_call = false;
        for (std::size_t i = 0; i < perm.size(); ++i) {
            auto& e = a.begin()[i];
            if (!e.alive() || e.id != perm[i]) { m.bad("wrong-element", "position " + std::to_string(i) + " of permutation " + show(perm)); break; }
        }
        if (!a.guards_intact()) m.bad("outside-range", show(perm));
        if (m.compares) m.bad("comparisons");
        event("elements_placed", perm.size());
        event("moves", m.moves);
        event("permutations_applied");
    }
    if (m.live != live0) { m.bad("object-balance", show(perm)); m.live = live0; }
}

template<typename Col, typename Make, typename Id>
void plain(const char* form, const std::vector<int>& perm, const std::string& label, Make make, Id id) {
    std::string key = key_of(form);
    if (!begin_case(key + "|" + label)) return;
    mon().key = key;
    input in; in.keys = perm;
    count_case(hash_str(key) ^ in.hash(), !std::is_sorted(perm.begin(), perm.end()));
    Col col; for (int i = 0; i < (int)perm.size(); ++i) col.push_back(make(i));
    std::deque<long long> idx(perm.begin(), perm.end());
    cu::apply_permutation(col, idx);
    if (col.size() != perm.size()) { mon().bad("size"); return; }
    for (std::size_t i = 0; i < perm.size(); ++i) if (id(col[i]) != perm[i]) { mon().bad("wrong-element", "position " + std::to_string(i) + " of permutation " + show(perm)); return; }
    event("permutations_applied");
}

static void all_forms(const std::vector<int>& perm, const std::string& label, int rot) {
    using It = chk_ra<elem>;
    auto rng_of = [](arena<elem>& a) { return view<It>{ It(a.begin(), a.begin(), a.end()), It(a.end(), a.begin(), a.end()) }; };
    bool all = rot < 0;
    auto use = [&](int k) { return all || rot % 7 == k; };
    if (use(0)) monitored<int, std::vector<int>>("iterators,int", perm, label, [&](arena<elem>& a, std::vector<int>& i) { auto v = rng_of(a); cu::apply_permutation(v.b, v.e, i.begin(), i.end()); });
    if (use(1)) monitored<long, std::vector<std::ptrdiff_t>>("iterable,ptrdiff", perm, label, [&](arena<elem>& a, std::vector<std::ptrdiff_t>& i) { auto v = rng_of(a); cu::apply_permutation(v, i); });
    if (use(2)) monitored<long, std::deque<unsigned long>>("rvalues,size_t", perm, label, [&](arena<elem>& a, std::deque<unsigned long>& i) { cu::apply_permutation(rng_of(a), std::move(i)); });
    if (use(3)) monitored<long, std::vector<short>>("pointers,short", perm, label, [&](arena<elem>& a, std::vector<short>& i) { cu::apply_permutation(a.begin(), a.end(), i.data(), i.data() + i.size()); });
    if (use(4)) monitored<long, std::vector<unsigned>>("checked-indices,unsigned", perm, label, [&](arena<elem>& a, std::vector<unsigned>& i) {
        using UI = chk_ra<unsigned>; auto b = i.data(), e = b + i.size(); auto v = rng_of(a);
        cu::apply_permutation(v.b, v.e, UI(b, b, e), UI(e, b, e)); });
    if (use(5)) plain<std::vector<std::unique_ptr<int>>>("unique_ptr", perm, label, [](int i) { return std::make_unique<int>(i); }, [](const std::unique_ptr<int>& p) { return p ? *p : -1; });
    if (use(6)) plain<std::deque<std::string>>("string", perm, label, [](int i) { return "some string that is long enough " + std::to_string(i); }, [](const std::string& s) { return s.size() < 32 ? -1 : std::atoi(s.c_str() + 32); });
    // index types that just hold the indices
    if (perm.size() <= 256 && use(2)) monitored<char, std::vector<unsigned char>>("iterable,unsigned char", perm, label, [&](arena<elem>& a, std::vector<unsigned char>& i) { auto v = rng_of(a); cu::apply_permutation(v, i); });
    if (perm.size() <= 256 && use(5)) monitored<char, std::deque<unsigned char>>("iterators,unsigned char", perm, label, [&](arena<elem>& a, std::deque<unsigned char>& i) { auto v = rng_of(a); cu::apply_permutation(v.b, v.e, i.begin(), i.end()); });
    if (perm.size() <= 128 && use(3)) monitored<char, std::vector<signed char>>("pointers,signed char", perm, label, [&](arena<elem>& a, std::vector<signed char>& i) { cu::apply_permutation(a.begin(), a.end(), i.data(), i.data() + i.size()); });
}

int main(int argc, char** argv) {
    init(argc, argv);
    int small = ctx().thorough ? 8 : 7;
    for (int n = 0; n <= small; ++n) {
        std::vector<int> p((std::size_t)n); std::iota(p.begin(), p.end(), 0);
        int k = 0;
        do { all_forms(p, "n" + std::to_string(n) + " permutation " + std::to_string(k), n < 7 ? -1 : k); ++k; } while (std::next_permutation(p.begin(), p.end()));
    }
    rng r(mix(ctx().seed * 99 + 20));
    int reps = ctx().thorough ? 2000 : 300;
    const int sizes[] = { 8, 9, 10, 16, 17, 31, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 4097, 20000 };
    for (int n: {32767, 32768, 65535, 65536}) for (int kind = 0; kind < 3; ++kind) {
        std::vector<int> p((std::size_t)n); std::iota(p.begin(), p.end(), 0);
        if (kind == 0) for (int i = n - 1; i > 0; --i) std::swap(p[(std::size_t)i], p[r.below((std::uint64_t)i + 1)]);
        if (kind == 1) std::reverse(p.begin(), p.end());
        std::string label = "n" + std::to_string(n) + " kind " + std::to_string(kind);
        monitored<long, std::vector<unsigned short>>("iterable,unsigned short", p, label, [&](arena<elem>& a, std::vector<unsigned short>& i) { auto v = view<chk_ra<elem>>{ chk_ra<elem>(a.begin(), a.begin(), a.end()), chk_ra<elem>(a.end(), a.begin(), a.end()) }; cu::apply_permutation(v, i); });
        if (n <= 32768) monitored<long, std::vector<short>>("pointers,short", p, label, [&](arena<elem>& a, std::vector<short>& i) { cu::apply_permutation(a.begin(), a.end(), i.data(), i.data() + i.size()); });
    }
    for (int rep = 0; rep < reps; ++rep) for (int n: sizes) {
        if (n > 300 && rep % 10) continue;
        std::vector<int> p((std::size_t)n); std::iota(p.begin(), p.end(), 0);
        auto shuffle = [&](int b, int e) { for (int i = e - 1; i > b; --i) std::swap(p[(std::size_t)i], p[(std::size_t)b + r.below((std::uint64_t)(i - b + 1))]); };
        int kind = rep % 8;
        switch (kind) {
            case 0: shuffle(0, n); break;
            case 1: std::reverse(p.begin(), p.end()); break;
            case 2: std::rotate(p.begin(), p.begin() + 1 + (int)r.below((unsigned)n - 1), p.end()); break;
            case 3: for (int i = 0; i + 1 < n; i += 2) std::swap(p[(std::size_t)i], p[(std::size_t)i + 1]); break;
            case 4: { std::vector<int> o = p; for (int i = n - 1; i > 0; --i) std::swap(o[(std::size_t)i], o[r.below((std::uint64_t)i + 1)]); for (int i = 0; i < n; ++i) p[(std::size_t)o[(std::size_t)i]] = o[(std::size_t)((i + 1) % n)]; break; }   // one cycle
            case 5: for (int i = 0; i < 3; ++i) std::swap(p[r.below((unsigned)n)], p[r.below((unsigned)n)]); break;
            case 6: { int a = (int)r.below((unsigned)n), b = (int)r.below((unsigned)n); if (a > b) std::swap(a, b); shuffle(a, b); break; }
            default: break;                 // identity
        }
        all_forms(p, "n" + std::to_string(n) + " kind " + std::to_string(kind) + " rep " + std::to_string(rep), rep / 8);
    }
    return finish();
}
