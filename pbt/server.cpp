// Linked into the tools under test with -Wl,--wrap=main.  A tool started normally runs normally; started with
// PBT_SERVER=<fd> it waits for command lines on that descriptor and runs its own main() for each of them in a
// forked child: a fresh process as far as the program can tell (its static initialisation is done, nothing else),
// at a fraction of the cost of loading an instrumented executable again.
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdlib>
#include <string>
#include <vector>

#include "readfault.hpp"

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" int __real_main(int, char**, char**);
extern char** environ;

static bool get(int fd, void* p, std::size_t n) {
    char* c = static_cast<char*>(p);
    while (n) {
        ssize_t r = read(fd, c, n);
        if (r < 0 && errno == EINTR) continue;
        if (r <= 0) return false;
        c += r; n -= std::size_t(r);
    }
    return true;
}

extern "C" int __wrap_main(int ac, char** av, char** env) {
    char const* s = getenv("PBT_SERVER");
    if (!s) return __real_main(ac, av, env);
    int const fd = atoi(s);
    unsetenv("PBT_SERVER");
    int* const fired = static_cast<int*>(mmap(nullptr, sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (fired == MAP_FAILED) _exit(127);
    for (;;) {
        *fired = 0;
        std::uint32_t h[2];  // number of strings, bytes; the first three strings are the files for stdout and stderr and the size limit of files
        if (!get(fd, h, sizeof h)) _exit(0);
        std::string body(h[1], '\0');
        if (!get(fd, body.data(), body.size())) _exit(0);
        pid_t const pid = fork();
        if (pid == 0) {
            close(fd);
            std::vector<char*> p;
            char* q = body.data();
            for (std::uint32_t i = 0; i < h[0]; ++i) { p.push_back(q); q += std::char_traits<char>::length(q) + 1; }
            int const o = open(p[0], O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(p[1], O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (o < 0 || e < 0) _exit(127);
            dup2(o, 1); dup2(e, 2); close(o); close(e);
            rlimit const endless{rlim_t(1) << 30, RLIM_INFINITY};
            setrlimit(RLIMIT_FSIZE, &endless);
            if (*p[2] == 'r') { // "r<chunk>,<random>,<read that fails>,<errno>": reading in pieces, one read fails
                auto& f = readfault::plan;
                char* q = p[2] + 1;
                f.chunk = strtoull(q, &q, 10); f.random = strtoull(q + 1, &q, 10);
                f.fail_at = strtoll(q + 1, &q, 10); f.error = int(strtoll(q + 1, &q, 10));
                f.fired = fired;
                f.active = true;
            }
            else if (*p[2]) { // faults: "N" makes writing beyond N bytes of a file fail, "pipe" gives a pipe nobody reads
                signal(SIGXFSZ, SIG_IGN);
                signal(SIGPIPE, SIG_IGN);
                if (*p[2] == 'p') {
                    int fds[2];
                    if (pipe(fds) != 0) _exit(127);
                    dup2(fds[1], 1); close(fds[0]); close(fds[1]);
                }
                else {
                    rlimit size{rlim_t(strtoull(p[2], nullptr, 10)), RLIM_INFINITY};
                    setrlimit(RLIMIT_FSIZE, &size);
                }
            }
            rlimit cpu{24, 26};
            setrlimit(RLIMIT_CPU, &cpu);
            p.push_back(nullptr);
            errno = 0;
            exit(__real_main(int(p.size()) - 4, p.data() + 3, environ));
        }
        std::int32_t st = -1;
        if (pid > 0) while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        std::int32_t const answer[2] = {st, *fired};
        if (send(fd, answer, sizeof answer, MSG_NOSIGNAL) != ssize_t(sizeof answer)) _exit(0);
    }
}
