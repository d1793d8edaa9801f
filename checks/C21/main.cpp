// C21: dedicated list algorithms relink nodes; iterators, pointers and references stay valid.
#include "vh.h"
#include "vh_alloc.h"
#include "vh_elem.h"
#include <cpp-sort/adapters/container_aware_adapter.h>
#include <cpp-sort/sorters.h>
#include <cpp-sort/utility/functional.h>
#include <forward_list>
#include <list>
#include <vector>

using namespace vh;
namespace cu = cppsort::utility;

// Allocator that must never be asked for a node while sorting; unequal instances must not exchange nodes
static bool sorting = false;
static std::map<void*, int> owner;          // node address -> allocator id
template<typename T>
struct tracking {
    using value_type = T;
    using propagate_on_container_swap = std::true_type;
    using propagate_on_container_move_assignment = std::true_type;
    using is_always_equal = std::false_type;
    int id;
#ifdef DEFAULT_ALLOC
    tracking(): id(7) {}
#endif
    explicit tracking(int i): id(i) {}
    template<typename U> tracking(const tracking<U>& o): id(o.id) {}
    T* allocate(std::size_t n) {
        if (sorting) mon().bad("node-allocated", "the sort allocated from the collection's allocator");
        auto p = static_cast<T*>(::operator new(n * sizeof(T)));
        harness_scope hs; owner[p] = id; return p;
    }
    void deallocate(T* p, std::size_t) {
        if (sorting) mon().bad("node-deallocated", "the sort freed a node of the collection");
        { harness_scope hs; auto f = owner.find(p); if (f == owner.end()) mon().bad("foreign-deallocation"); else { if (f->second != id) mon().bad("wrong-allocator", "node of allocator " + std::to_string(f->second) + " freed by " + std::to_string(id)); owner.erase(f); } }
        ::operator delete(p);
    }
    friend bool operator==(const tracking& a, const tracking& b) { return a.id == b.id; }
    friend bool operator!=(const tracking& a, const tracking& b) { return a.id != b.id; }
};

template<typename Col> void fill(Col& c, const std::vector<int>& keys) { for (std::size_t i = keys.size(); i-- > 0;) c.emplace_front(keys[i], (int)i); }

template<typename T, typename A, typename I> void its_used(std::list<T, A>& c, const std::vector<I>& its, std::size_t n) {
    if (c.size() != n) mon().bad("size", std::to_string(c.size()));
    auto last = std::prev(c.end()); auto moved = its[n / 2];
    if (moved != c.begin()) c.splice(c.begin(), c, moved);
    if (&*c.begin() != &*moved) mon().bad("iterator-invalid");
    (void)last;
    std::size_t back = 0; for (auto it = c.end(); it != c.begin(); --it) ++back;
    if (back != n) mon().bad("backward-links", std::to_string(back) + " of " + std::to_string(n));
    c.erase(its[0]);
    if ((std::size_t)std::distance(c.begin(), c.end()) != n - 1) mon().bad("iterator-invalid");
}
template<typename T, typename A, typename I> void its_used(std::forward_list<T, A>& c, const std::vector<I>& its, std::size_t n) {
    auto it = its[n / 2];
    std::size_t rest = (std::size_t)std::distance(it, c.end());
    if (rest == 1) return;
    c.erase_after(it);
    if ((std::size_t)std::distance(c.begin(), c.end()) != n - 1) mon().bad("iterator-invalid");
}

template<typename Col, typename Call>
void evaluate(const std::string& key, const input& in, const typename Col::allocator_type& proto, bool desc, bool stable, Call call) {
    auto& m = mon();
    if (!begin_case(key + "|" + in.label())) return;
    count_case(hash_str(key) ^ in.hash(), in.size() > 1 && !std::is_sorted(in.keys.begin(), in.keys.end()));
    m.key = key; m.reset_counters(); m.budget = 40ull * in.size() * in.size() + 20000;
    long long live0 = m.live;
    {
        Col c(proto);
        fill(c, in.keys);
        std::vector<typename Col::iterator> its; std::vector<elem*> ptrs;
        for (auto it = c.begin(); it != c.end(); ++it) { its.push_back(it); ptrs.push_back(&*it); }
        m.in_call = true; sorting = true;
        bool ran_away = false;
        try { call(c); } catch (const runaway&) { ran_away = true; }
        m.in_call = false; sorting = false;
        if (ran_away) m.bad("runaway", show(in.keys));
        if (m.moves || m.ctor || m.dtor) m.bad("elements-moved", std::to_string(m.moves) + " moves, " + std::to_string(m.ctor) + " constructions, " + std::to_string(m.dtor) + " destructions");
        // the same nodes, each once, in order, and the old iterators are iterators of this container
        std::vector<char> seen(in.size(), 0);
        std::size_t n = 0; const elem* prev = nullptr; bool good = true;
        for (auto it = c.begin(); it != c.end() && good; ++it, ++n) {
            const elem& e = *it;
            if (n >= in.size()) { m.bad("too-many-nodes", show(in.keys)); good = false; break; }
            if (e.id < 0 || (std::size_t)e.id >= in.size() || seen[(std::size_t)e.id]) { m.bad("permutation", "position " + std::to_string(n) + "; input " + show(in.keys)); good = false; break; }
            auto id = (std::size_t)e.id;
            seen[id] = 1;
            if (ptrs[id] != &e || its[id] != it || !e.alive() || e.key != in.keys[id]) { m.bad("node-changed", "element " + std::to_string(id) + " is not in its node; input " + show(in.keys)); good = false; break; }
            if (prev && (desc ? prev->key < e.key : e.key < prev->key)) { m.bad("order", "position " + std::to_string(n) + "; input " + show(in.keys)); good = false; break; }
            if (prev && stable && prev->key == e.key && prev->id > e.id) { m.bad("stability", "position " + std::to_string(n) + "; input " + show(in.keys)); good = false; break; }
            prev = &e;
        }
        if (good && n != in.size()) { m.bad("lost-nodes", std::to_string(n) + " of " + std::to_string(in.size())); good = false; }
        event("nodes_judged", n); event("comparisons", m.compares);
        if (!good) { m.live = live0; new Col(std::move(c)); return; }        // leave the damaged list alone
        // still usable: the old iterators work for erasing and splicing
        if (in.size() > 2) { its_used(c, its, in.size()); event("iterators_reused"); }
    }
    if (m.live != live0) { m.bad("object-balance"); m.live = live0; }
}

template<typename Col, typename S>
void forms(const std::string& base, const input& in, const typename Col::allocator_type& proto, const S& s, bool stable) {
    bool all = in.size() < 40;
    unsigned pick = (unsigned)(mix(in.hash()) % 5u);
    auto use = [&](unsigned k) { return all || pick == k; };
    if (use(0)) evaluate<Col>(base + "|cmp", in, proto, false, stable, [&](Col& c) { s(c, cmp_key{}); });
    if (use(1)) evaluate<Col>(base + "|proj", in, proto, false, stable, [&](Col& c) { s(c, proj_key{}); });
    if (use(2)) evaluate<Col>(base + "|desc,member", in, proto, true, stable, [&](Col& c) { s(c, cmp_int_desc{}, &elem_core::key); });
    if (use(3)) evaluate<Col>(base + "|desc", in, proto, true, stable, [&](Col& c) { s(c, cmp_key_desc{}); });
    if (use(4)) evaluate<Col>(base + "|cmp,projref", in, proto, false, stable, [&](Col& c) { s(c, cmp_int{}, proj_key_ref{}); });
}

template<typename S>
void sorter(const char* name, bool quadratic, bool stable) {
    S s{};
    profile p; p.exhaustive = ctx().thorough ? 7 : 6; p.dense_patterns = ctx().thorough ? 36 : 6;
    p.sizes = quadratic ? std::vector<int>{ 97, 256 } : std::vector<int>{ 96, 97, 127, 128, 129, 256, 257, 600 };
    if (!quadratic) { p.large = { 1000, 1025, 3000 }; if (ctx().thorough) p.large = threshold_sizes_big(); }
    for_each_input(p, hash_str(name), [&](const input& in) {
        std::string base = std::string("C21|") + name;
#ifdef DEFAULT_ALLOC
        forms<std::list<elem>>(base + "|list", in, std::allocator<elem>(), s, stable);
        forms<std::forward_list<elem>>(base + "|forward_list", in, std::allocator<elem>(), s, stable);
#endif
        int id = 1 + (int)(in.hash() % 5u);
        forms<std::list<elem, tracking<elem>>>(base + "|list,alloc", in, tracking<elem>(id), s, stable);
        forms<std::forward_list<elem, tracking<elem>>>(base + "|forward_list,alloc", in, tracking<elem>(id), s, stable);
    });
}

int main(int argc, char** argv) {
    init(argc, argv);
    using namespace cppsort;
    if (ctx().shard % 4 == 0 || ctx().nshards < 4) sorter<container_aware_adapter<insertion_sorter>>("insertion", true, true);
    if (ctx().shard % 4 == 1 || ctx().nshards < 4) sorter<container_aware_adapter<selection_sorter>>("selection", true, true);
    if (ctx().shard % 4 == 2 || ctx().nshards < 4) sorter<container_aware_adapter<merge_sorter>>("merge", false, true);
    if (ctx().shard % 4 == 3 || ctx().nshards < 4) sorter<container_aware_adapter<mel_sorter>>("mel", false, false);
    if (!owner.empty()) { mon().key = "C21|allocators"; mon().bad("leaked-nodes", std::to_string(owner.size())); }
    return finish();
}
