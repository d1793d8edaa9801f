// Instrumented element, comparator, projection and checked iterators.
#ifndef VH_ELEM_H
#define VH_ELEM_H
#include "vh.h"
#include <iterator>
#include <type_traits>

namespace vh {

////////////////////////////////////////////////////////////
// Fault plan and counters shared by elements and callables

struct injected { int kind; std::uint64_t k; };      // 1 compare, 2 projection, 3 move

struct monitor {
    std::string key;                     // prefix of the violation keys of the current case
    std::uint64_t compares = 0, projections = 0, moves = 0, move_ctor = 0, move_assign = 0, ctor = 0, dtor = 0;
    std::uint64_t throw_compare = 0, throw_projection = 0, throw_move = 0;    // 1-based index, 0: never
    std::uint64_t budget = ~0ull;
    long long live = 0;                  // objects alive (including moved-from ones)
    bool lenient_move = false;           // moving from a moved-from element is tolerated, and propagates the moved-from state
    bool in_call = false;                // set while the library runs
    char* stack_low = nullptr;
    void reset_counters() { compares = projections = moves = move_ctor = move_assign = ctor = dtor = 0; throw_compare = throw_projection = throw_move = 0; budget = ~0ull; }
    void bad(const char* what) { harness_scope hs; violation(key + "|" + what, ""); }
    void bad(const char* what, const char* detail) { harness_scope hs; violation(key + "|" + what, detail); }
    void bad(const char* what, const std::string& detail) { harness_scope hs; violation(key + "|" + what, detail); }
};
inline monitor& mon() { static monitor m; return m; }

inline void tick_compare() {
    auto& m = mon();
    ++m.compares;
    if (m.compares == m.throw_compare) throw injected{1, m.compares};
    if (m.compares > m.budget) throw runaway();
}
inline void tick_projection() {
    auto& m = mon();
    ++m.projections;
    if (m.projections == m.throw_projection) throw injected{2, m.projections};
}

////////////////////////////////////////////////////////////
// Element: move-only; detects reads of moved-from or dead objects, self moves, bitwise relocation, double destruction

enum : std::uint32_t { st_live = 0xA11CE5EDu, st_moved = 0x0DDBA11Fu, st_dead = 0xDEADDEADu };

template<bool DefaultConstructible> struct elem_base {};

struct elem_core {
    int key;
    int id;                              // >= 0: in the range; < 0: guard outside the range
    std::uint32_t state;
    std::uint32_t mark() const { return (std::uint32_t)((std::uintptr_t)this >> 3) * 2654435761u; }
    void set(std::uint32_t s) { state = s ^ mark(); }
    std::uint32_t get() const { return state ^ mark(); }
    bool alive() const { return get() == st_live; }
    bool object() const { auto s = get(); return s == st_live || s == st_moved; }
};

inline void use_check(const elem_core& e, const char* how) {
    auto s = e.get();
    if (s != st_live) mon().bad(s == st_moved ? "read-moved-from" : "read-no-object", how);
    else if (e.id < 0 && mon().in_call) mon().bad("outside-range-read", how);
}

template<bool DC>
struct elem_t: elem_core {
    template<bool B = DC, typename = std::enable_if_t<B>>
    elem_t() { key = 0; id = 0; set(st_moved); ++mon().ctor; ++mon().live; }
    elem_t(int k, int i) { key = k; id = i; set(st_live); ++mon().live; }
    elem_t(const elem_t&) = delete;
    elem_t& operator=(const elem_t&) = delete;
    elem_t(elem_t&& o) {
        auto& m = mon();
        if (m.in_call) {
            ++m.moves; ++m.move_ctor;
            if (m.moves == m.throw_move) throw injected{3, m.moves};
            if (!(m.lenient_move && o.get() == st_moved)) use_check(o, "move construction");
        }
        key = o.key; id = o.id; set(m.lenient_move ? o.get() : st_live);
        o.set(st_moved); o.key = -777777; 
        ++m.ctor; ++m.live;
    }
    elem_t& operator=(elem_t&& o) {
        auto& m = mon();
        if (m.in_call) {
            ++m.moves; ++m.move_assign;
            if (m.moves == m.throw_move) throw injected{3, m.moves};
            if (!object()) m.bad("assign-no-object", "move assignment to storage that holds no object");
            if (this == &o) {
                if (get() == st_live) m.bad("self-move", "live element move-assigned to itself");
                return *this;
            }
            if (!(m.lenient_move && o.get() == st_moved)) use_check(o, "move assignment");
            if (object() && id < 0) m.bad("outside-range-write", "element outside the range overwritten");
        }
        key = o.key; id = o.id; set(m.lenient_move ? o.get() : st_live);
        o.set(st_moved); o.key = -777777;
        return *this;
    }
    ~elem_t() {
        auto& m = mon();
        if (!object()) m.bad("destroy-no-object", "destruction of storage that holds no object (double destruction?)");
        set(st_dead);
        ++m.dtor; --m.live;
    }
};
using elem = elem_t<false>;
using elem_dc = elem_t<true>;

struct cmp_key {                         // comparator on elements
    template<bool D> bool operator()(const elem_t<D>& a, const elem_t<D>& b) const {
        tick_compare();
        use_check(a, "comparison"); use_check(b, "comparison");
        return a.key < b.key;
    }
};
struct cmp_key_desc {
    template<bool D> bool operator()(const elem_t<D>& a, const elem_t<D>& b) const {
        tick_compare();
        use_check(a, "comparison"); use_check(b, "comparison");
        return b.key < a.key;
    }
};
struct cmp_int { bool operator()(int a, int b) const { tick_compare(); return a < b; } };
struct cmp_int_desc { bool operator()(int a, int b) const { tick_compare(); return b < a; } };
struct proj_key {                        // projection of elements, by value
    template<bool D> int operator()(const elem_t<D>& e) const { tick_projection(); use_check(e, "projection"); return e.key; }
};
struct proj_key_ref {                    // projection of elements, by reference
    template<bool D> const int& operator()(const elem_t<D>& e) const { tick_projection(); use_check(e, "projection"); return e.key; }
};

////////////////////////////////////////////////////////////
// Storage of n elements surrounded by guards

template<typename T>
struct arena {
    enum { G = 8 };
    std::vector<T> v;
    std::size_t n;
    explicit arena(const std::vector<int>& keys): n(keys.size()) {
        v.reserve(n + 2 * G);
        for (int i = 0; i < G; ++i) v.emplace_back(guard_key(i), -1 - i);
        for (std::size_t i = 0; i < n; ++i) v.emplace_back(keys[i], (int)i);
        for (int i = 0; i < G; ++i) v.emplace_back(guard_key(i + 1), -100 - i);
    }
    static int guard_key(int i) { return i % 2 ? 2000000000 : -2000000000; }
    T* begin() { return v.data() + G; }
    T* end() { return begin() + n; }
    bool guards_intact() const {
        for (int i = 0; i < G; ++i) {
            const T& a = v[(std::size_t)i]; const T& b = v[G + n + (std::size_t)i];
            if (!a.alive() || a.key != guard_key(i) || a.id != -1 - i || !b.alive() || b.key != guard_key(i + 1) || b.id != -100 - i) return false;
        }
        return true;
    }
};

////////////////////////////////////////////////////////////
// Checked iterators: every operation is checked against the range they belong to

template<typename T, typename Cat>
struct chk {
    using iterator_category = Cat;
    using value_type = std::remove_const_t<T>;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using reference = T&;
    T* p = nullptr; T* lo = nullptr; T* hi = nullptr; bool singular = true;

    chk() = default;
    chk(T* p_, T* lo_, T* hi_): p(p_), lo(lo_), hi(hi_), singular(false) {}

    static constexpr bool bidi = std::is_base_of<std::bidirectional_iterator_tag, Cat>::value;
    static constexpr bool ra = std::is_base_of<std::random_access_iterator_tag, Cat>::value;

    void same(const chk& o) const {
        if (singular != o.singular || lo != o.lo) mon().bad("iterator-mix", "iterators of different ranges compared or subtracted");
    }
    T& operator*() const {
        if (singular) { mon().bad("iterator-singular", "singular iterator dereferenced"); }
        else if (p < lo || p >= hi) { harness_scope hs; mon().bad("outside-range-deref", "offset " + std::to_string(p - lo) + " of " + std::to_string(hi - lo)); }
        return *p;
    }
    T* operator->() const { return std::addressof(**this); }
    chk& operator++() { if (singular || p >= hi) mon().bad("iterator-past-end", "incremented past the end"); ++p; return *this; }
    template<typename C = Cat, typename = std::enable_if_t<std::is_base_of<std::bidirectional_iterator_tag, C>::value>>
    chk& operator--() { if (singular || p <= lo) mon().bad("iterator-before-begin", "decremented before the beginning"); --p; return *this; }
    template<typename C = Cat, typename = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>>
    chk& operator+=(difference_type k) {
        if (singular || k > hi - p || k < lo - p) { harness_scope hs; mon().bad("iterator-jump-outside", "moved by " + std::to_string(k) + " from offset " + std::to_string(p - lo) + " of " + std::to_string(hi - lo)); }
        p += k; return *this;
    }
    template<typename C = Cat, typename = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>>
    chk& operator-=(difference_type k) { return *this += -k; }
    template<typename C = Cat, typename = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>>
    T& operator[](difference_type k) const { chk t = *this; t += k; return *t; }

    friend bool operator==(const chk& a, const chk& b) { a.same(b); return a.p == b.p; }
    friend bool operator!=(const chk& a, const chk& b) { a.same(b); return a.p != b.p; }
};
#define VH_RA_ONLY typename T, typename C, typename = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, C>::value>
template<VH_RA_ONLY> chk<T, C> operator+(chk<T, C> a, std::ptrdiff_t k) { return a += k; }
template<VH_RA_ONLY> chk<T, C> operator+(std::ptrdiff_t k, chk<T, C> a) { return a += k; }
template<VH_RA_ONLY> chk<T, C> operator-(chk<T, C> a, std::ptrdiff_t k) { return a -= k; }
template<VH_RA_ONLY> std::ptrdiff_t operator-(const chk<T, C>& a, const chk<T, C>& b) { a.same(b); return a.p - b.p; }
template<VH_RA_ONLY> bool operator<(const chk<T, C>& a, const chk<T, C>& b) { a.same(b); return a.p < b.p; }
template<VH_RA_ONLY> bool operator>(const chk<T, C>& a, const chk<T, C>& b) { a.same(b); return a.p > b.p; }
template<VH_RA_ONLY> bool operator<=(const chk<T, C>& a, const chk<T, C>& b) { a.same(b); return a.p <= b.p; }
template<VH_RA_ONLY> bool operator>=(const chk<T, C>& a, const chk<T, C>& b) { a.same(b); return a.p >= b.p; }

template<typename T> using chk_fwd = chk<T, std::forward_iterator_tag>;
template<typename T> using chk_bidi = chk<T, std::bidirectional_iterator_tag>;
template<typename T> using chk_ra = chk<T, std::random_access_iterator_tag>;

////////////////////////////////////////////////////////////
// A view over checked iterators, for the iterable call forms

template<typename It>
struct view {
    It b, e;
    It begin() const { return b; }
    It end() const { return e; }
};

////////////////////////////////////////////////////////////
// Judge a range of elements: live, permutation, order. `desc` reverses the order. `stable` also requires stability.

template<typename T>
bool judge_elems(T* first, std::size_t n, const std::vector<int>& keys, bool desc, bool stable = false) {
    auto& m = mon();
    std::vector<char> seen(n, 0);
    for (std::size_t i = 0; i < n; ++i) {
        T& e = first[i];
        if (!e.object()) { m.bad("no-object-left", "position " + std::to_string(i)); return false; }
        if (!e.alive()) { m.bad("moved-from-left", "position " + std::to_string(i) + " is left in a moved-from state; input " + show(keys)); return false; }
        if (e.id < 0 || (std::size_t)e.id >= n || seen[(std::size_t)e.id] || keys[(std::size_t)e.id] != e.key) { m.bad("permutation", "element lost, duplicated or foreign at position " + std::to_string(i) + "; input " + show(keys)); return false; }
        seen[(std::size_t)e.id] = 1;
        if (i) {
            T& p = first[i - 1];
            if (desc ? p.key < e.key : e.key < p.key) { m.bad("order", "position " + std::to_string(i) + "; input " + show(keys)); return false; }
            if (stable && p.key == e.key && p.id > e.id) { m.bad("stability", "position " + std::to_string(i) + "; input " + show(keys)); return false; }
        }
    }
    event("elements_judged", n);
    return true;
}

} // namespace vh
#endif
