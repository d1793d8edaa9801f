// Exceptions injected at the k-th operation of a call on an arena of monitored elements (type E, defined before).
#ifndef C08_EXPLORE_H
#define C08_EXPLORE_H
enum kind { k_compare = 1, k_projection = 2, k_move = 3 };
static const char* kind_name(int k) { return k == 1 ? "compare" : k == 2 ? "projection" : "move"; }

// Storage under test: an arena, used through the iterators of each category
template<typename It> view<It> whole(arena<E>& a) { return { It(a.begin(), a.begin(), a.end()), It(a.end(), a.begin(), a.end()) }; }

template<typename Call>
void explore(const std::string& base, const input& in, bool proj, Call call, unsigned per_kind) {
    auto& m = mon();
    auto& al = allocs();
    if (!begin_case(base + "|" + in.label())) return;
    m.key = base; m.in_call = false;
    std::uint64_t total[4] = {0, 0, 0, 0};
    {
        arena<E> a(in.keys);
        m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
        m.in_call = true; al.arm();
        try { call(a); } catch (const runaway&) { al.disarm(); m.in_call = false; m.bad("runaway", show(in.keys)); return; }
        al.disarm(); m.in_call = false;
        total[1] = m.compares; total[2] = proj ? m.projections : 0; total[3] = m.moves;
        judge_elems(a.begin(), in.size(), in.keys, false);
    }
    rng r(in.hash() ^ hash_str(base) ^ ctx().seed);
    for (int kind = 1; kind <= 3; ++kind) {
        std::uint64_t n = total[kind];
        if (!n) continue;
        std::vector<std::uint64_t> ks;
        if (n <= per_kind) for (std::uint64_t k = 1; k <= n; ++k) ks.push_back(k);
        else {
            ks = {1, 2, 3, n / 2, n - 2, n - 1, n};
            while (ks.size() < per_kind) ks.push_back(1 + r.below(n));
        }
        for (std::uint64_t k: ks) {
            std::string key = base + "|" + kind_name(kind);
            std::string label = key + "|k=" + std::to_string(k) + "/" + in.label();
            // the whole input is the unit of replay: only record where it is
            if (ctx().page) std::strncpy(ctx().page->label, (base + "|" + in.label()).c_str(), sizeof ctx().page->label - 1);
            m.key = key;
            count_case(hash_str(label), true);
            long long live0 = m.live;
            {
                arena<E> a(in.keys);
                m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
                (kind == 1 ? m.throw_compare : kind == 2 ? m.throw_projection : m.throw_move) = k;
                long long live1 = m.live;
                int outcome = 0;
                std::string what;
                al.arm(); m.in_call = true;
                try { call(a); outcome = 1; }
                catch (const injected& e) { outcome = e.kind == kind && e.k == k ? 2 : 3; }
                catch (const runaway&) { outcome = 4; }
                catch (const std::exception& e) { outcome = 5; }
                m.in_call = false; al.disarm();
                long long blocks = al.blocks; std::uint64_t bytes = al.bytes;
                std::uint64_t reached = kind == 1 ? m.compares : kind == 2 ? m.projections : m.moves;
                m.throw_compare = m.throw_projection = m.throw_move = 0;
                std::string where = std::string("exception from ") + kind_name(kind) + " number " + std::to_string(k) + " of " + std::to_string(n) + "; input " + show(in.keys);
                if (outcome == 1) { if (reached >= k) m.bad("swallowed", where); else event("not_reached"); }
                else if (outcome == 2) event("propagated");
                else m.bad("other-exception", "outcome " + std::to_string(outcome) + ": " + where);
                if (m.live != live1) m.bad("object-balance", "objects alive: " + std::to_string(m.live - live1) + " more than before; " + where);
                if (blocks != 0) m.bad("memory-leak", std::to_string(blocks) + " blocks, " + std::to_string(bytes) + " bytes; " + where);
                if (!a.guards_intact()) m.bad("outside-range", where);
                bool valid = true;
                for (std::size_t i = 0; i < in.size(); ++i) if (!a.begin()[i].object()) { m.bad("invalid-object", "position " + std::to_string(i) + " holds no object; " + where); valid = false; break; }
                // no value is duplicated: each live element has its own id
                std::vector<char> seen(in.size(), 0);
                for (std::size_t i = 0; i < in.size() && valid; ++i) {
                    E& e = a.begin()[i];
                    if (!e.alive()) { event("moved_from_after_exception"); continue; }
                    if (e.id < 0 || (std::size_t)e.id >= in.size() || seen[(std::size_t)e.id]) { m.bad("duplicated", "position " + std::to_string(i) + "; " + where); break; }
                    seen[(std::size_t)e.id] = 1;
                }
                // the collection can be assigned to and sorted again
                if (valid) {
                    for (std::size_t i = 0; i < in.size(); ++i) { E t(in.keys[i], (int)i); a.begin()[i] = std::move(t); }
                    m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
                    m.in_call = true;
                    try { call(a); } catch (...) { m.in_call = false; m.bad("again", "sorting again failed; " + where); }
                    m.in_call = false;
                    judge_elems(a.begin(), in.size(), in.keys, false);
                }
            }
            if (m.live != live0) { m.bad("object-balance-final", label); m.live = live0; }
        }
        event(kind == 1 ? "compare_points" : kind == 2 ? "projection_points" : "move_points", ks.size());
    }
}

template<typename F>
void inputs(vh_speed sp, std::uint64_t salt, bool light, F f) {
    bool th = ctx().thorough;
    std::vector<int> sizes = light ? std::vector<int>{2, 3, 5, 12, 17, 33, 50, 97, 260} : std::vector<int>{1, 2, 3, 4, 5, 7, 9, 12, 15, 16, 17, 24, 32, 33, 40, 50, 64, 65, 81, 97, 130, 200, 260, 513};
    if (!light && sp == vh_fast) sizes.push_back(1025);
    if (th) { for (int n: {6, 8, 10, 20, 25, 28, 31, 48, 70, 100, 129, 150, 300}) sizes.push_back(n); if (sp == vh_fast) sizes.push_back(2100); }
    for (auto& in: killers()) if (!light || in.size() <= 300) f(in);
    std::uint64_t base = mix(ctx().seed * 31 + salt) % 1000000007ull;
    unsigned rot = (unsigned)(base % n_patterns);
    for (int n: sizes) {
        if (sp != vh_fast && n > 130) continue;
        int k = th ? 12 : n <= 5 ? 2 : n > 300 ? 1 : light ? 2 : 3;
        for (int i = 0; i < k; ++i, ++rot) {
            int p = (int)(rot % n_patterns);
            if (i == 0) p = 0;                       // always one shuffled input
            f(make_input(p, n, base + rot));
        }
    }
}

static unsigned per_kind() { return ctx().thorough ? 200 : 24; }
#endif
