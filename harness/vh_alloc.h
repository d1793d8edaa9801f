// Replacement of the global allocation functions: accounting, fault plans, poisoning. Include in one file only.
#ifndef VH_ALLOC_H
#define VH_ALLOC_H
#include "vh.h"
#include <atomic>
#include <new>

namespace vh {

struct alloc_state {
    bool armed = false;                  // account for (and fail) the allocations made now
    std::uint64_t calls = 0;             // allocations requested while armed
    std::uint64_t failed = 0;
    std::uint64_t bytes = 0, peak = 0;   // alive, of those made while armed
    std::uint64_t largest = 0, total = 0;
    long long blocks = 0;                // alive blocks made while armed
    std::uint64_t fail_at = 0;           // 1-based index of the only one to fail
    std::uint64_t fail_from = 0;         // 1-based index of the first one to fail
    std::uint64_t fail_above = ~0ull;    // sizes above fail
    std::uint64_t corrupt = 0;           // invalid deallocations seen
    unsigned char fill = 0xA5;
    void arm() { armed = true; calls = failed = 0; bytes = peak = largest = total = 0; blocks = 0; }
    void disarm() { armed = false; }
    void no_fault() { fail_at = fail_from = 0; fail_above = ~0ull; }
};
inline alloc_state& allocs() { static alloc_state a; return a; }

struct block_header { std::uint64_t magic, size, tracked, pad; };
enum : std::uint64_t { bh_live = 0x5afeb10c5afeb10cull, bh_free = 0xdeadb10cdeadb10cull };

inline void* vh_allocate(std::size_t n, std::size_t align) noexcept {
    auto& a = allocs();
    bool track = a.armed && harness_depth() == 0;
    if (track) {
        ++a.calls;
        if (a.calls == a.fail_at || (a.fail_from && a.calls >= a.fail_from) || n > a.fail_above) { ++a.failed; return nullptr; }
    }
    if (n > (std::size_t(1) << 40)) return nullptr;
    std::size_t off = sizeof(block_header);
    if (align < 16) align = 16;
    if (off < align) off = align;
    void* raw = nullptr;
    if (posix_memalign(&raw, align, off + n + 8) != 0) return nullptr;
    char* p = static_cast<char*>(raw) + off;
    auto* h = reinterpret_cast<block_header*>(p - sizeof(block_header));
    h->magic = bh_live; h->size = n; h->tracked = track; h->pad = off;
    std::memset(p, a.fill, n);
    std::memset(p + n, 0xEE, 8);
    if (track) {
        ++a.blocks; a.bytes += n; a.total += n;
        if (a.bytes > a.peak) a.peak = a.bytes;
        if (n > a.largest) a.largest = n;
    }
    return p;
}
inline void vh_deallocate(void* q, std::size_t sized) noexcept {
    if (!q) return;
    auto& a = allocs();
    char* p = static_cast<char*>(q);
    auto* h = reinterpret_cast<block_header*>(p - sizeof(block_header));
    if (h->magic != bh_live) { ++a.corrupt; violation(ctx().label + "|bad-free", "deallocation of a block that is not allocated"); return; }
    if (sized != ~std::size_t(0) && sized != h->size) { ++a.corrupt; violation(ctx().label + "|sized-delete", "sized deallocation with size " + std::to_string(sized) + " of a block of " + std::to_string(h->size) + " bytes"); }
    for (int i = 0; i < 8; ++i) if ((unsigned char)p[h->size + (std::size_t)i] != 0xEE) { ++a.corrupt; violation(ctx().label + "|heap-overflow", "bytes past the end of an allocated block were written"); break; }
    if (h->tracked) { --a.blocks; a.bytes -= h->size; }
    h->magic = bh_free;
    std::memset(p, 0xDD, h->size);
    std::free(p - h->pad);
}

} // namespace vh

void* operator new(std::size_t n) { void* p = vh::vh_allocate(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n) { void* p = vh::vh_allocate(n, 0); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return vh::vh_allocate(n, 0); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return vh::vh_allocate(n, 0); }
void operator delete(void* p) noexcept { vh::vh_deallocate(p, ~std::size_t(0)); }
void operator delete[](void* p) noexcept { vh::vh_deallocate(p, ~std::size_t(0)); }
void operator delete(void* p, std::size_t n) noexcept { vh::vh_deallocate(p, n); }
void operator delete[](void* p, std::size_t) noexcept { vh::vh_deallocate(p, ~std::size_t(0)); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vh::vh_deallocate(p, ~std::size_t(0)); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { vh::vh_deallocate(p, ~std::size_t(0)); }
#ifdef __cpp_aligned_new
void* operator new(std::size_t n, std::align_val_t al) { void* p = vh::vh_allocate(n, (std::size_t)al); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](std::size_t n, std::align_val_t al) { void* p = vh::vh_allocate(n, (std::size_t)al); if (!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n, std::align_val_t al, const std::nothrow_t&) noexcept { return vh::vh_allocate(n, (std::size_t)al); }
void* operator new[](std::size_t n, std::align_val_t al, const std::nothrow_t&) noexcept { return vh::vh_allocate(n, (std::size_t)al); }
void operator delete(void* p, std::align_val_t) noexcept { vh::vh_deallocate(p, ~std::size_t(0)); }
void operator delete[](void* p, std::align_val_t) noexcept { vh::vh_deallocate(p, ~std::size_t(0)); }
void operator delete(void* p, std::size_t n, std::align_val_t) noexcept { vh::vh_deallocate(p, n); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { vh::vh_deallocate(p, ~std::size_t(0)); }
#endif
#endif
