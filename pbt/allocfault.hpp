// Allocations that fail, and a count of what is allocated.  Included once per program: it replaces operator new, and
// (linked with --wrap=aligned_alloc --wrap=free) the calls of aligned_alloc.
#ifndef VERIF_ALLOCFAULT_HPP
#define VERIF_ALLOCFAULT_HPP

#include <cstdint>
#include <cstdlib>
#include <malloc.h>
#include <new>

extern "C" void* __real_aligned_alloc(std::size_t, std::size_t);
extern "C" void __real_free(void*);

namespace allocfault {
inline std::int64_t live = 0;        // blocks allocated and not yet freed
inline std::int64_t bytes = 0;       // their size
inline bool armed = false;
inline std::int64_t count = 0;       // allocations since armed
inline std::int64_t fail_at = -1;    // this one fails
inline bool forever = false;         // and all after it
inline bool fired = false;

struct Arm {
    Arm(std::int64_t k, bool all) { count = 0; fail_at = k; forever = all; fired = false; armed = true; }
    ~Arm() { armed = false; }
};
inline void* take(std::size_t n, std::size_t align) noexcept {
    if (armed) {
        std::int64_t const k = count++;
        if (fail_at >= 0 && (k == fail_at || (forever && k > fail_at))) { fired = true; return nullptr; }
    }
    void* p = align ? __real_aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (p) { ++live; bytes += std::int64_t(malloc_usable_size(p)); }
    return p;
}
inline void* must(void* p) { if (!p) throw std::bad_alloc(); return p; }
inline void give(void* p) noexcept { if (p) { --live; bytes -= std::int64_t(malloc_usable_size(p)); __real_free(p); } }
}

namespace allocfault {
// the blocks of aligned_alloc, given back with free as others are that are not counted
inline void* aligned[4096];
inline bool known(void* p, void* instead) { for (void*& x : aligned) if (x == p) { x = instead; return true; } return false; }
}
extern "C" void* __wrap_aligned_alloc(std::size_t align, std::size_t n) {
    void* p = allocfault::take(n, align);
    if (p && !allocfault::known(nullptr, p)) std::abort();
    return p;
}
extern "C" void __wrap_free(void* p) {
    if (p && allocfault::known(p, nullptr)) allocfault::give(p); else __real_free(p);
}

void* operator new(std::size_t n) { return allocfault::must(allocfault::take(n, 0)); }
void* operator new[](std::size_t n) { return allocfault::must(allocfault::take(n, 0)); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return allocfault::take(n, 0); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return allocfault::take(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return allocfault::must(allocfault::take(n, std::size_t(a))); }
void* operator new[](std::size_t n, std::align_val_t a) { return allocfault::must(allocfault::take(n, std::size_t(a))); }
void operator delete(void* p) noexcept { allocfault::give(p); }
void operator delete[](void* p) noexcept { allocfault::give(p); }
void operator delete(void* p, std::size_t) noexcept { allocfault::give(p); }
void operator delete[](void* p, std::size_t) noexcept { allocfault::give(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { allocfault::give(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { allocfault::give(p); }
void operator delete(void* p, std::align_val_t) noexcept { allocfault::give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { allocfault::give(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { allocfault::give(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { allocfault::give(p); }
#endif
