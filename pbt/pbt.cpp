#include "pbt.hpp"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <unordered_set>

#include <fcntl.h>
#include <poll.h>
#include <spawn.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ftw.h>

extern char** environ;

namespace pbt {

static constexpr std::size_t max_choices = 1u << 18;

// ---- shared log of the running case (survives a crash of this process) ----
struct ShmHeader { std::uint64_t magic, case_index, count, state; };
static ShmHeader* shm_header = nullptr;
static std::uint64_t* shm_choices = nullptr;

static void open_shm(char const* path) {
    int fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
    std::size_t const len = sizeof(ShmHeader) + max_choices * sizeof(std::uint64_t);
    if (fd < 0 || ftruncate(fd, off_t(len)) != 0) { perror(path); _exit(2); }
    void* p = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    close(fd);
    shm_header = static_cast<ShmHeader*>(p);
    shm_choices = reinterpret_cast<std::uint64_t*>(shm_header + 1);
    shm_header->magic = 0x5042543150425431ull;
}

// ---- Source ----
static std::uint64_t splitmix(std::uint64_t& x) {
    std::uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

Source::Source(std::uint64_t s0, std::uint64_t s1, int size_class) : mode_(Random), size_class_(size_class) {
    std::uint64_t x = s0 * 0x2545F4914F6CDD1Dull ^ s1;
    for (auto& s : st_) { s = splitmix(x); x ^= s1; }
}
Source::Source(std::vector<std::uint64_t> choices) : mode_(Replay), replay_(std::move(choices)) {
    // the first entry of a stored sequence is the size class
    if (!replay_.empty()) { size_class_ = int(std::min<std::uint64_t>(replay_[0], 3)); pos_ = 1; }
    else size_class_ = 0;
}
Source::Source(std::uint8_t const* data, std::size_t len) : mode_(Bytes), data_(data), len_(len) {
    size_class_ = len ? data[0] % 4 : 0; pos_ = len ? 1 : 0;
}

std::uint64_t Source::next_random() {
    auto rotl = [](std::uint64_t v, int k) { return (v << k) | (v >> (64 - k)); };
    std::uint64_t const r = rotl(st_[1] * 5, 7) * 9, t = st_[1] << 17;
    st_[2] ^= st_[0]; st_[3] ^= st_[1]; st_[1] ^= st_[2]; st_[0] ^= st_[3]; st_[2] ^= t; st_[3] = rotl(st_[3], 45);
    return r;
}

std::uint64_t Source::u(std::uint64_t n) {
    if (log_.empty()) {
        log_.push_back(std::uint64_t(size_class_));
        if (shm_choices) { shm_choices[0] = log_[0]; shm_header->count = 1; }
    }
    std::uint64_t v = 0;
    if (n > 1) {
        if (log_.size() >= max_choices) { overflow_ = true; return 0; }
        switch (mode_) {
            case Random: v = std::uint64_t((static_cast<unsigned __int128>(next_random()) * n) >> 64); break;
            case Replay: v = pos_ < replay_.size() ? replay_[pos_++] : 0; if (v >= n) v %= n; break;
            case Bytes: {
                for (std::uint64_t m = n - 1; m; m >>= 8) { v = (v << 8) | (pos_ < len_ ? data_[pos_++] : 0); }
                v %= n;
                break;
            }
        }
        if (shm_choices) { shm_choices[log_.size()] = v; shm_header->count = log_.size() + 1; }
        log_.push_back(v);
    }
    return v;
}

std::uint64_t Source::small(std::uint64_t lo, std::uint64_t hi) {
    if (lo >= hi) return lo;
    std::uint64_t const span = hi - lo;
    switch (u(8)) {
        default: { std::uint64_t m = std::min<std::uint64_t>(span, 4); return lo + u(m + 1); }
        case 4: case 5: { std::uint64_t m = std::min<std::uint64_t>(span, 12); return lo + u(m + 1); }
        case 6: return lo + u(span + 1);
        case 7: { std::uint64_t m = std::min<std::uint64_t>(span, 3); return hi - u(m + 1); }
    }
}

unsigned Source::weighted(std::initializer_list<unsigned> w) {
    unsigned total = 0;
    for (unsigned x : w) total += x;
    std::uint64_t r = u(total);
    unsigned i = 0;
    for (unsigned x : w) { if (r < x) return i; r -= x; ++i; }
    return i - 1;
}

void Case::mix(void const* p, std::size_t n) {
    auto const* b = static_cast<unsigned char const*>(p);
    std::uint64_t h = digest ^ 0xcbf29ce484222325ull;
    for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001b3ull; }
    h ^= h >> 29;
    digest = h * 0xbf58476d1ce4e5b9ull;
}

void Case::print() const { std::cout << "case: " << sample << std::endl; }

void fail(std::string const& msg) { throw Failure(msg); }

std::string quote(std::string const& s, std::size_t max) {
    std::string r = "\"";
    for (std::size_t i = 0; i < s.size() && i < max; ++i) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        if (c == '\n') r += "\\n";
        else if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c == 127) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += char(c);
    }
    r += '"';
    if (s.size() > max) r += "...(" + std::to_string(s.size()) + " bytes)";
    return r;
}

// ---- files ----
static std::string scratch;
static pid_t scratch_owner = 0;
static int rm_cb(char const* p, struct stat const*, int, struct FTW*) { return remove(p); }
static void remove_scratch() {
    if (!scratch.empty() && scratch_owner == getpid()) nftw(scratch.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
    scratch.clear();
}
std::string const& scratch_dir() {
    if (scratch.empty() || scratch_owner != getpid()) {
        char const* base = getenv("PBT_SCRATCH");
        std::string t = std::string(base ? base : "/tmp") + "/ppocr-pbt-XXXXXX";
        if (!mkdtemp(t.data())) { perror("mkdtemp"); _exit(2); }
        scratch = t;
        scratch_owner = getpid();
        atexit(remove_scratch);
    }
    return scratch;
}
void remove_tree(std::string const& path) {
    if (path.compare(0, scratch_dir().size() + 1, scratch_dir() + "/") == 0) nftw(path.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}
void write_file(std::string const& path, std::string const& content) {
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f.write(content.data(), std::streamsize(content.size()));
    if (!f) { std::cerr << "harness: cannot write " << path << "\n"; _exit(2); }
}
int next_fd() { int const fd = open("/dev/null", O_RDONLY | O_CLOEXEC); if (fd >= 0) close(fd); return fd; }
bool files_left(int before) {
    for (int tries = 0; tries < 20; ++tries) { if (tries) usleep(1000); if (next_fd() <= before) return false; }
    return true;
}
std::string read_file(std::string const& path) {
    std::ifstream f(path, std::ios::binary);
    std::ostringstream o; o << f.rdbuf();
    return o.str();
}

// a tool started once per process of ours; each run is a child forked by it (see server.cpp)
struct Server { pid_t owner; int fd; };
static std::map<std::string, Server> servers;

static int server_of(std::string const& name) {
    auto it = servers.find(name);
    if (it != servers.end()) {
        if (it->second.owner == getpid()) return it->second.fd;
        close(it->second.fd);
        servers.erase(it);
    }
    char const* bin = getenv("PBT_BIN");
    std::string path = std::string(bin ? bin : ".") + "/" + name;
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) != 0) { perror("socketpair"); _exit(2); }
    int const high = fcntl(sv[1], F_DUPFD, 200);  // without close-on-exec
    close(sv[1]);
    std::string var = "PBT_SERVER=" + std::to_string(high);
    std::vector<char*> env{var.data()};
    for (char** e = environ; *e; ++e) env.push_back(*e);
    env.push_back(nullptr);
    char* av[] = {path.data(), nullptr};
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    pid_t pid;
    int rc = posix_spawn(&pid, path.c_str(), &fa, nullptr, av, env.data());
    posix_spawn_file_actions_destroy(&fa);
    close(high);
    if (rc != 0) { std::cerr << "harness: cannot run " << path << ": " << strerror(rc) << "\n"; _exit(2); }
    servers[name] = Server{getpid(), sv[0]};
    return sv[0];
}

/// an endless loop is no way to fail, nor is endless output
static void ended(RunResult const& r, std::string const& name) {
    int const g = r.signaled ? r.signal : r.status - 128;
    if (g == SIGXCPU) fail(name + " did not come to an end within 24 seconds of processor time");
    if (g == SIGXFSZ) fail(name + " printed more than 1 GB");
}

RunResult run_tool(std::string const& name, std::vector<std::string> const& args, std::string const& fault) {
    int const fd = server_of(name);
    std::string const fo = fault == "full" ? "/dev/full" : scratch_dir() + "/.out", fe = scratch_dir() + "/.err";
    std::string body;
    auto add = [&](std::string const& s) { body.append(s.c_str(), std::char_traits<char>::length(s.c_str()) + 1); };
    add(fo); add(fe); add(fault == "full" ? std::string() : fault); add(name);
    for (auto& a : args) add(a);
    std::uint32_t const h[2] = {std::uint32_t(args.size() + 4), std::uint32_t(body.size())};
    std::string msg(reinterpret_cast<char const*>(h), sizeof h);
    msg += body;
    for (std::size_t k = 0; k < msg.size(); ) {
        ssize_t n = send(fd, msg.data() + k, msg.size() - k, MSG_NOSIGNAL);
        if (n < 0 && errno == EINTR) continue;
        if (n <= 0) { std::cerr << "harness: the process of " << name << " has gone\n"; _exit(2); }
        k += std::size_t(n);
    }
    std::int32_t answer[2] = {0, 0};
    ssize_t n;
    while ((n = recv(fd, answer, sizeof answer, MSG_WAITALL)) < 0 && errno == EINTR) {}
    std::int32_t const st = answer[0];
    if (n != ssize_t(sizeof answer) || st == -1) { std::cerr << "harness: the process of " << name << " has gone\n"; _exit(2); }
    RunResult r;
    r.fired = answer[1] != 0;
    if (WIFSIGNALED(st)) { r.signaled = true; r.signal = WTERMSIG(st); r.status = 128 + r.signal; }
    else r.status = WEXITSTATUS(st);
    if (fault != "full" && fault != "pipe") r.out = read_file(fo);
    r.err = read_file(fe);
    ended(r, name);
    return r;
}

RunResult run_program(std::string const& path, std::vector<std::string> const& args, std::string const& cwd) {
    std::vector<std::string> copy{path};
    copy.insert(copy.end(), args.begin(), args.end());
    std::vector<char*> av;
    for (auto& a : copy) av.push_back(a.data());
    av.push_back(nullptr);
    std::string const fo = scratch_dir() + "/.out", fe = scratch_dir() + "/.err";
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_addopen(&fa, 2, fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_addchdir_np(&fa, cwd.c_str());
    pid_t pid;
    int rc = posix_spawn(&pid, path.c_str(), &fa, nullptr, av.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    if (rc != 0) { std::cerr << "harness: cannot run " << path << ": " << strerror(rc) << "\n"; _exit(2); }
    rlimit child{24, 26};
    prlimit(pid, RLIMIT_CPU, &child, nullptr);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    RunResult r;
    if (WIFSIGNALED(st)) { r.signaled = true; r.signal = WTERMSIG(st); r.status = 128 + r.signal; }
    else r.status = WEXITSTATUS(st);
    r.out = read_file(fo);
    r.err = read_file(fe);
    ended(r, path);
    return r;
}

// ---- running one case ----
enum Outcome { Passed = 0, Failed = 3, Discarded = 4 };
static constexpr int case_cpu_seconds = 24;

static Outcome run_case(Source& s, Case& c, std::string& msg) {
    try {
        property(s, c);
        return Passed;
    }
    catch (Failure const& e) { msg = e.what(); return Failed; }
    catch (Discard const&) { return Discarded; }
    catch (std::exception const& e) { msg = std::string("unexpected exception: ") + e.what(); return Failed; }
}

static void on_cpu_timeout(int) {
    if (shm_header) shm_header->state = 9;
    static char const m[] = "harness: the case used up its processor time (endless loop)\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(5);
}
static void arm_timer(int seconds) {
    itimerval t{}; t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}

// ---- replay files: "PBT1 <id>\n" then decimal choices; lines starting with '#' are comments ----
static std::vector<std::uint64_t> load_choices(char const* path) {
    std::ifstream f(path);
    std::string line;
    std::vector<std::uint64_t> r;
    while (std::getline(f, line)) {
        if (line.empty() || line[0] == '#' || line.compare(0, 4, "PBT1") == 0) continue;
        std::istringstream i(line);
        std::uint64_t v;
        while (i >> v) r.push_back(v);
    }
    return r;
}
static void save_choices(char const* path, std::vector<std::uint64_t> const& c, std::string const& comment) {
    std::ofstream f(path);
    f << "PBT1 " << property_info.id << "\n";
    std::istringstream i(comment);
    for (std::string l; std::getline(i, l); ) f << "# " << l << "\n";
    for (std::size_t k = 0; k < c.size(); ++k) f << c[k] << ((k + 1) % 24 ? ' ' : '\n');
    f << "\n";
}

static std::string json(std::string const& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c == 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

static int size_class_of(std::uint64_t i, std::uint64_t n) {
    // mostly small cases early, all sizes throughout
    static int const table[10] = {0, 1, 1, 1, 2, 2, 2, 2, 3, 3};
    (void)n;
    return table[i % 10];
}

static int cmd_run(int ac, char** av) {
    // seed shard nshards cases budget_s prefix
    if (ac < 8) return 2;
    std::uint64_t const seed = strtoull(av[2], nullptr, 10), shard = strtoull(av[3], nullptr, 10),
        nshards = strtoull(av[4], nullptr, 10), cases = strtoull(av[5], nullptr, 10);
    double const budget = atof(av[6]);
    std::string const prefix = av[7];
    open_shm((prefix + ".shm").c_str());
    signal(SIGPROF, on_cpu_timeout);
    property_info.setup();

    using clk = std::chrono::steady_clock;
    auto const t0 = clk::now();
    auto elapsed = [&]{ return std::chrono::duration<double>(clk::now() - t0).count(); };
    std::uint64_t evals = 0, discards = 0, checks = 0, nontrivial = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> labels;
    std::vector<std::string> samples;
    int rc = 0;
    std::string msg;
    bool out_of_time = false;
    std::uint64_t i = shard;
    for (std::uint64_t k = 0; i < cases; i += nshards, ++k) {
        if ((k & 15) == 0 && elapsed() > budget) { out_of_time = true; break; }
        shm_header->case_index = i;
        shm_header->count = 0;
        arm_timer(case_cpu_seconds);
        Source s(seed, i * 0x9e3779b97f4a7c15ull + 17, size_class_of(k, cases));
        Case c;
        c.want_sample = samples.size() < 2 && k >= 3 + samples.size() * 40;
        Outcome o = run_case(s, c, msg);
        if (o == Discarded) { ++discards; continue; }
        ++evals;
        checks += c.checks;
        for (auto& l : c.labels) ++labels[l];
        if (c.nontrivial) {
            ++nontrivial;
            if (distinct.size() < 4000000) distinct.insert(c.digest);
            if (!c.sample.empty()) samples.push_back(c.sample);
        }
        if (o == Failed) {
            save_choices((prefix + ".fail").c_str(), s.choices(), msg);
            rc = 3;
            break;
        }
    }
    arm_timer(0);
    {
        std::ofstream h(prefix + ".hashes", std::ios::binary);
        for (std::uint64_t d : distinct) h.write(reinterpret_cast<char const*>(&d), sizeof d);
    }
    std::ofstream o(prefix + ".json");
    o << "{\"evaluations\":" << evals << ",\"discarded\":" << discards << ",\"checks\":" << checks
      << ",\"nontrivial\":" << nontrivial << ",\"distinct_shard\":" << distinct.size()
      << ",\"out_of_time\":" << (out_of_time ? "true" : "false") << ",\"labels\":{";
    bool first = true;
    for (auto& l : labels) { o << (first ? "" : ",") << json(l.first) << ":" << l.second; first = false; }
    o << "},\"samples\":[";
    for (std::size_t j = 0; j < samples.size(); ++j) o << (j ? "," : "") << json(samples[j]);
    o << "],\"rule\":" << json(property_info.rule) << "}\n";
    o.close();
    remove_scratch();
    return rc;
}

static int cmd_replay(char const* path, bool describe) {
    property_info.setup();
    signal(SIGPROF, on_cpu_timeout);
    arm_timer(case_cpu_seconds);
    Source s(load_choices(path));
    Case c;
    c.want_sample = c.print_sample = describe;
    std::string msg;
    Outcome o = run_case(s, c, msg);
    if (o == Failed) { std::cout << "FAILED: " << msg << "\n"; return 3; }
    std::cout << (o == Discarded ? "discarded\n" : "passed\n");
    return 0;
}

// ---- shrinking: every candidate runs in a forked child, so crashes and endless loops shrink too ----
static bool still_fails(std::vector<std::uint64_t> const& c, int cpu) {
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) return false;
    if (pid == 0) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1); dup2(fd, 2);
        setpgid(0, 0);
        signal(SIGPROF, on_cpu_timeout);
        arm_timer(cpu);
        int rc = 0;
        {
            Source s(c);
            Case k;
            std::string msg;
            rc = run_case(s, k, msg) == Failed ? 3 : 0;
        }
        remove_scratch();
        _exit(rc);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 2) return false; // harness trouble
    return true;
}

static int cmd_shrink(char const* in, char const* out, double budget) {
    property_info.setup();
    auto best = load_choices(in);
    using clk = std::chrono::steady_clock;
    auto const t0 = clk::now();
    auto late = [&]{ return std::chrono::duration<double>(clk::now() - t0).count() > budget; };
    unsigned runs = 0, ok = 0;
    auto attempt = [&](std::vector<std::uint64_t> const& c) {
        if (late()) return false;
        ++runs;
        if (still_fails(c, 3)) { best = c; ++ok; return true; }
        return false;
    };
    if (!still_fails(best, case_cpu_seconds)) { std::cout << "shrink: the case does not fail\n"; return 1; }
    for (std::uint64_t sc = 0; sc < best[0]; ++sc) { auto c = best; c[0] = sc; if (attempt(c)) break; }
    bool progress = true;
    while (progress && !late()) {
        progress = false;
        for (std::size_t n = std::max<std::size_t>(1, best.size() / 2); n >= 1 && !late(); n /= 2) {
            for (std::size_t at = best.size() > n ? best.size() - n : 1; at >= 1 && !late(); ) {
                if (at + n <= best.size()) {
                    auto c = best;
                    c.erase(c.begin() + long(at), c.begin() + long(at + n));
                    if (attempt(c)) progress = true;
                    else {
                        bool nz = std::any_of(best.begin() + long(at), best.begin() + long(at + n), [](std::uint64_t v) { return v != 0; });
                        if (nz && n > 1) { c = best; std::fill(c.begin() + long(at), c.begin() + long(at + n), 0); if (attempt(c)) progress = true; }
                    }
                }
                if (at <= n) break;
                at -= n;
            }
            if (n == 1) break;
        }
        for (std::size_t k = 1; k < best.size() && !late(); ++k) {
            if (!best[k]) continue;
            auto c = best;
            c[k] = 0;
            if (attempt(c)) { progress = true; continue; }
            // binary search towards 0, then single bits off
            std::uint64_t lo = 0, hi = best[k];
            while (lo + 1 < hi && !late()) {
                std::uint64_t mid = lo + (hi - lo) / 2;
                c = best; c[k] = mid;
                if (attempt(c)) { hi = mid; progress = true; } else lo = mid;
            }
            if (best[k] > 64) {
                for (int b = 31; b >= 0 && !late(); --b) {
                    if (best[k] >> b & 1) { c = best; c[k] &= ~(std::uint64_t(1) << b); if (attempt(c)) progress = true; }
                }
            }
        }
    }
    // one element less: lower a count and drop a block behind it
    for (progress = true; progress && !late(); ) {
        progress = false;
        for (std::size_t i = 1; i < best.size() && !late(); ++i) {
            if (!best[i] || best[i] > 300) continue;
            for (std::size_t m = 1; m <= 8 && !late(); ++m) {
                for (std::size_t j = i + 1; j + m <= best.size() && j < i + 120 && i < best.size() && best[i] && !late(); ) {
                    auto c = best;
                    --c[i];
                    c.erase(c.begin() + long(j), c.begin() + long(j + m));
                    if (attempt(c)) progress = true; else j += 1;
                }
            }
        }
    }
    while (best.size() > 1 && best.back() == 0) {
        auto c = best; c.pop_back();
        if (late() || !still_fails(c, 3)) break;
        best = c;
    }
    save_choices(out, best, "shrunk with " + std::to_string(runs) + " runs, " + std::to_string(ok) + " successful steps");
    remove_scratch();
    return 0;
}

static int cmd_dump(char const* shm, char const* out) {
    std::ifstream f(shm, std::ios::binary);
    ShmHeader h{};
    f.read(reinterpret_cast<char*>(&h), sizeof h);
    if (!f || h.magic != 0x5042543150425431ull || h.count > max_choices) return 2;
    std::vector<std::uint64_t> c(h.count);
    f.read(reinterpret_cast<char*>(c.data()), std::streamsize(c.size() * sizeof c[0]));
    save_choices(out, c, "case " + std::to_string(h.case_index) + (h.state == 9 ? ", endless loop" : ", crashed"));
    return 0;
}

}

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerInitialize(int*, char***) { pbt::property_info.setup(); return 0; }
extern "C" int LLVMFuzzerTestOneInput(std::uint8_t const* data, std::size_t size) {
    static bool const init = [] {
        if (char const* p = getenv("PBT_FUZZ_LOG")) pbt::open_shm((std::string(p) + "." + std::to_string(getpid()) + ".shm").c_str());
        return true;
    }();
    (void)init;
    if (pbt::shm_header) pbt::shm_header->count = 0;
    pbt::Source s(data, size);
    pbt::Case c;
    std::string msg;
    if (pbt::run_case(s, c, msg) == pbt::Failed) {
        std::cerr << "FAILED: " << msg << "\n";
        std::abort();
    }
    return 0;
}
#else
int main(int ac, char** av) {
    using namespace pbt;
    std::string const m = ac > 1 ? av[1] : "";
    int rc = 2;
    if (m == "run") rc = cmd_run(ac, av);
    else if (m == "replay" && ac > 2) rc = cmd_replay(av[2], false);
    else if (m == "describe" && ac > 2) rc = cmd_replay(av[2], true);
    else if (m == "shrink" && ac > 4) rc = cmd_shrink(av[2], av[3], atof(av[4]));
    else if (m == "dump" && ac > 3) rc = cmd_dump(av[2], av[3]);
    else std::cerr << "usage: run seed shard nshards cases budget prefix | replay FILE | describe FILE | shrink IN OUT seconds | dump SHM OUT\n";
    std::cout.flush();
    remove_scratch();
    _exit(rc);
}
#endif
