// Reads delivered in pieces, failing, or ending early.  Included once per program: it defines read(), which the
// program and the C++ library it uses then call instead of the C library's.
#ifndef VERIF_READFAULT_HPP
#define VERIF_READFAULT_HPP

#include <cerrno>
#include <cstdint>
#include <dlfcn.h>
#include <sys/types.h>

namespace readfault {
struct Plan {
    bool active = false;
    std::uint64_t chunk = 0, random = 0; // pieces of 1..chunk bytes, 0: as asked
    std::int64_t fail_at = -1;           // this read fails
    int error = 0;
    std::int64_t end_after = -1;         // no more than so many bytes altogether
    // what happened
    std::int64_t reads = 0, bytes = 0;
    int* fired = nullptr;
};
inline Plan plan;
}

extern "C" ssize_t read(int fd, void* p, size_t n) {
    static ssize_t (*const real)(int, void*, size_t) = reinterpret_cast<ssize_t (*)(int, void*, size_t)>(dlsym(RTLD_NEXT, "read"));
    auto& f = readfault::plan;
    if (!f.active) return real(fd, p, n);
    if (f.reads++ == f.fail_at) {
        if (f.fired) *f.fired = 1;
        errno = f.error;
        return -1;
    }
    if (f.chunk) {
        f.random = f.random * 6364136223846793005u + 1442695040888963407u;
        std::uint64_t const m = 1 + (f.random >> 33) % f.chunk;
        if (n > m) n = m;
    }
    if (f.end_after >= 0) {
        std::int64_t const left = f.end_after - f.bytes;
        if (std::int64_t(n) > left) { n = size_t(left); if (f.fired) *f.fired = 1; }
    }
    ssize_t const r = real(fd, p, n);
    if (r > 0) f.bytes += r;
    return r;
}
// what read() becomes where the compiler knows the size of the buffer
extern "C" ssize_t __read_chk(int fd, void* p, size_t n, size_t room) {
    if (n > room) __builtin_trap();
    return read(fd, p, n);
}
#endif
