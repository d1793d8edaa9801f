// Proxy iterators: a zip of two arrays (references are prvalues), and an immovable element whose iterator alone can move it.
#ifndef C25_PROXY_H
#define C25_PROXY_H
#include "vh.h"
#include <iterator>
#include <type_traits>
#include <utility>
#include <vector>

namespace px {
using namespace vh;

struct watch { std::string key; bool in_call = false; std::uint64_t compares = 0, projections = 0, iter_moves = 0, iter_swaps = 0, stores = 0, derefs = 0, half_moves = 0; long long live = 0;
    void bad(const char* what, const std::string& d = "") { harness_scope hs; violation(key + "|" + what, d); } };
inline watch& w() { static watch x; return x; }

// One half of a record: move-only, notices reads of moved-from halves. Moving a hole moves the hole (a swap with itself does that)
enum : unsigned { h_live = 0xA11CE5ED, h_moved = 0x0DDBA11F, h_dead = 0xDEADDEAD };
template<int Side>
struct half {
    int v; int id; unsigned state;
    half(): v(0), id(-1), state(h_moved) { ++w().live; }
    half(int v_, int id_): v(v_), id(id_), state(h_live) { ++w().live; }
    half(const half&) = delete; half& operator=(const half&) = delete;
    half(half&& o) noexcept { take(o, "construction"); ++w().live; }
    half& operator=(half&& o) noexcept {
        if (state != h_live && state != h_moved) w().bad("half assigned to where there is no object");
        if (this == &o) { if (state == h_live) w().bad("half moved to itself"); return *this; }
        take(o, "assignment"); return *this;
    }
    ~half() { if (state != h_live && state != h_moved) w().bad("half destroyed twice"); state = h_dead; --w().live; }
    int get() const { if (state != h_live) w().bad(state == h_moved ? "moved-from half read" : "half read where there is no object"); return v; }
private:
    void take(half& o, const char* how) { if (w().in_call) { ++w().half_moves; (void)how; } v = o.v; id = o.id; state = o.state; o.state = h_moved; o.v = -999; }
};
using key_half = half<0>; using load_half = half<1>;

////////////////////////////////////////////////////////////
// Records that can be read: value, reference

struct zval {                             // what iter_move yields: owns both halves
    zval() = default;
    key_half k; load_half p;
    zval(key_half&& a, load_half&& b): k(std::move(a)), p(std::move(b)) {}
    zval(zval&&) = default; zval& operator=(zval&&) = default;
    int key() const { return k.get(); }
    const int& key_ref() const { k.get(); return k.v; }
    int id() const { return k.id; }
};
struct zref {                             // what dereferencing yields: stands for both halves in place
    key_half* k; load_half* p;
    zref(key_half* a, load_half* b): k(a), p(b) {}
    zref(const zref&) = default;
    zref& operator=(const zref&) = delete;
    const zref& operator=(zval&& v) const { ++w().stores; *k = std::move(v.k); *p = std::move(v.p); return *this; }
    int key() const { return k->get(); }
    const int& key_ref() const { k->get(); return k->v; }
    int id() const { return k->id; }
};

struct aval {                             // value of the second kind
    aval() = default;
    key_half k; load_half p;
    aval(key_half&& a, load_half&& b): k(std::move(a)), p(std::move(b)) {}
    aval(aval&&) = default; aval& operator=(aval&&) = default;
    int key() const { return k.get(); }
    const int& key_ref() const { k.get(); return k.v; }
    int id() const { return k.id; }
};
struct aobj {                             // immovable element: only an aval can be stored into it
    key_half k; load_half p;
    aobj(int v, int id): k(v, id), p(v, id) {}
    aobj(const aobj&) = delete; aobj& operator=(const aobj&) = delete;
    aobj& operator=(aval&& v) { ++w().stores; k = std::move(v.k); p = std::move(v.p); return *this; }
    int key() const { return k.get(); }
    const int& key_ref() const { k.get(); return k.v; }
    int id() const { return k.id; }
};

struct less { template<typename A, typename B> bool operator()(const A& a, const B& b) const { ++w().compares; return a.key() < b.key(); } };
struct greater { template<typename A, typename B> bool operator()(const A& a, const B& b) const { ++w().compares; return a.key() > b.key(); } };
struct int_less { bool operator()(int a, int b) const { ++w().compares; return a < b; } };
struct int_greater { bool operator()(int a, int b) const { ++w().compares; return a > b; } };
struct by_value { template<typename A> int operator()(const A& a) const { ++w().projections; return a.key(); } };
struct by_reference { template<typename A> const int& operator()(const A& a) const { ++w().projections; return a.key_ref(); } };

////////////////////////////////////////////////////////////
// Iterators: no post-increment, no ->, checked bounds. Sw: with an iter_swap of its own

// the category is a type of this namespace: with std::random_access_iterator_tag as an argument, std::iter_swap would be found by ADL
struct forward_tag { using type = std::forward_iterator_tag; }; struct bidirectional_tag { using type = std::bidirectional_iterator_tag; }; struct random_access_tag { using type = std::random_access_iterator_tag; };
template<typename Store, typename Cat, bool Sw>
struct it {
    using iterator_category = typename Cat::type; using value_type = typename Store::value; using difference_type = std::ptrdiff_t; using reference = typename Store::reference; using pointer = void;
    Store* s = nullptr; std::ptrdiff_t i = 0;
    it() = default;
    it(Store* s_, std::ptrdiff_t i_): s(s_), i(i_) {}
    std::ptrdiff_t at() const { if (!s) w().bad("singular iterator dereferenced"); if (i < 0 || i >= s->n()) w().bad("dereferenced outside the range", std::to_string(i) + " of " + std::to_string(s->n())); ++w().derefs; return i; }
    reference operator*() const { return s->ref(at()); }
    it& operator++() { if (!s || i >= s->n()) w().bad("incremented past the end"); ++i; return *this; }
    template<typename C = Cat, typename = std::enable_if_t<std::is_base_of<std::bidirectional_iterator_tag, typename C::type>::value>> it& operator--() { if (!s || i <= 0) w().bad("decremented before the beginning"); --i; return *this; }
#define PX_RA typename C = Cat, typename = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, typename C::type>::value>
    template<PX_RA> it& operator+=(difference_type k) { if (!s || i + k < 0 || i + k > s->n()) w().bad("moved outside the range"); i += k; return *this; }
    template<PX_RA> it& operator-=(difference_type k) { return *this += -k; }
    template<PX_RA> reference operator[](difference_type k) const { return *(*this + k); }
    friend bool operator==(const it& a, const it& b) { a.same(b); return a.i == b.i; }
    friend bool operator!=(const it& a, const it& b) { a.same(b); return a.i != b.i; }
    void same(const it& o) const { if (s != o.s) w().bad("iterators of different ranges compared"); }
    friend typename Store::value iter_move(const it& a) { ++w().iter_moves; return a.s->take(a.at()); }
    template<bool S = Sw, typename = std::enable_if_t<S>> friend void iter_swap(const it<Store, Cat, Sw>& a, const it<Store, Cat, S>& b) { a.same(b); ++w().iter_swaps; std::ptrdiff_t i = a.at(), j = b.at(); if (i != j) a.s->swap(i, j); }
};
#define PX_OPS template<typename S, typename C, bool W, typename = std::enable_if_t<std::is_base_of<std::random_access_iterator_tag, typename C::type>::value>>
PX_OPS it<S, C, W> operator+(it<S, C, W> a, std::ptrdiff_t k) { return a += k; }
PX_OPS it<S, C, W> operator+(std::ptrdiff_t k, it<S, C, W> a) { return a += k; }
PX_OPS it<S, C, W> operator-(it<S, C, W> a, std::ptrdiff_t k) { return a -= k; }
PX_OPS std::ptrdiff_t operator-(const it<S, C, W>& a, const it<S, C, W>& b) { a.same(b); return a.i - b.i; }
PX_OPS bool operator<(const it<S, C, W>& a, const it<S, C, W>& b) { a.same(b); return a.i < b.i; }
PX_OPS bool operator>(const it<S, C, W>& a, const it<S, C, W>& b) { a.same(b); return a.i > b.i; }
PX_OPS bool operator<=(const it<S, C, W>& a, const it<S, C, W>& b) { a.same(b); return a.i <= b.i; }
PX_OPS bool operator>=(const it<S, C, W>& a, const it<S, C, W>& b) { a.same(b); return a.i >= b.i; }

struct zip_store {
    using value = zval; using reference = zref;
    std::vector<key_half> ks; std::vector<load_half> ps;
    explicit zip_store(const std::vector<int>& v) { for (std::size_t i = 0; i < v.size(); ++i) { ks.emplace_back(v[i], (int)i); ps.emplace_back(v[i], (int)i); } }
    std::ptrdiff_t n() const { return (std::ptrdiff_t)ks.size(); }
    zref ref(std::ptrdiff_t i) { return zref(&ks[(std::size_t)i], &ps[(std::size_t)i]); }
    zval take(std::ptrdiff_t i) { return zval(std::move(ks[(std::size_t)i]), std::move(ps[(std::size_t)i])); }
    void swap(std::ptrdiff_t i, std::ptrdiff_t j) { std::swap(ks[(std::size_t)i], ks[(std::size_t)j]); std::swap(ps[(std::size_t)i], ps[(std::size_t)j]); }
    const key_half& key(std::size_t i) const { return ks[i]; } const load_half& load(std::size_t i) const { return ps[i]; }
};
struct obj_store {
    using value = aval; using reference = aobj&;
    aobj* o; std::size_t c;
    explicit obj_store(const std::vector<int>& v): o(static_cast<aobj*>(::operator new(sizeof(aobj) * (v.size() + 1)))), c(v.size()) { for (std::size_t i = 0; i < c; ++i) new (o + i) aobj(v[i], (int)i); }
    ~obj_store() { for (std::size_t i = 0; i < c; ++i) o[i].~aobj(); ::operator delete(o); }
    std::ptrdiff_t n() const { return (std::ptrdiff_t)c; }
    aobj& ref(std::ptrdiff_t i) { return o[i]; }
    aval take(std::ptrdiff_t i) { return aval(std::move(o[i].k), std::move(o[i].p)); }
    void swap(std::ptrdiff_t i, std::ptrdiff_t j) { std::swap(o[i].k, o[j].k); std::swap(o[i].p, o[j].p); }
    const key_half& key(std::size_t i) const { return o[i].k; } const load_half& load(std::size_t i) const { return o[i].p; }
};
template<typename It> struct range { It b, e; It begin() const { return b; } It end() const { return e; } };
}
#endif
