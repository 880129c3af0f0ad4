// A small property-based testing engine.
//
// A property is one function `void property(pbt::Source&, pbt::Case&)`.  Everything random it needs is drawn
// from the Source as a sequence of bounded integers ("choices"); 0 is always the simplest choice.  A test case
// *is* its choice sequence: it can be generated from a seed, read from a replay file, shrunk by editing the
// sequence, or decoded from the bytes of a coverage-guided fuzzer.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstdint>
#include <cstddef>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };
struct Discard {};

class Source {
public:
    // generated from a seed
    Source(std::uint64_t s0, std::uint64_t s1, int size_class);
    // replayed
    explicit Source(std::vector<std::uint64_t> choices);
    // decoded from fuzzer bytes
    Source(std::uint8_t const* data, std::size_t len);

    /// integer in [0, n), n >= 1
    std::uint64_t u(std::uint64_t n);
    /// integer in [lo, hi]
    std::uint64_t range(std::uint64_t lo, std::uint64_t hi) { return lo + u(hi - lo + 1); }
    int irange(int lo, int hi) { return lo + int(u(std::uint64_t(hi - lo) + 1)); }
    /// true with probability num/den; false is the simple choice
    bool chance(unsigned num, unsigned den) { return u(den) >= den - num; }
    bool flip() { return u(2) != 0; }
    /// integer in [lo, hi], strongly biased to small values, with occasional values near hi
    std::uint64_t small(std::uint64_t lo, std::uint64_t hi);
    /// 32 random bits
    std::uint32_t bits32() { return std::uint32_t(u(std::uint64_t(1) << 32)); }
    template<class C> auto const& pick(C const& c) { return c[u(c.size())]; }
    template<class C> auto& pick_mut(C& c) { return c[u(c.size())]; }
    /// weighted alternative: returns an index
    unsigned weighted(std::initializer_list<unsigned> w);

    /// 0..3: how large structures should be in this case (grows over the run)
    int size_class() const { return size_class_; }

    std::vector<std::uint64_t> const& choices() const { return log_; }
    bool overflowed() const { return overflow_; }

private:
    std::uint64_t next_random();
    enum Mode { Random, Replay, Bytes } mode_;
    std::uint64_t st_[4] = {};
    std::vector<std::uint64_t> replay_;
    std::size_t pos_ = 0;
    std::uint8_t const* data_ = nullptr;
    std::size_t len_ = 0;
    std::vector<std::uint64_t> log_;
    int size_class_ = 2;
    bool overflow_ = false;
};

struct Case {
    /// set when the case exercised the property beyond the trivial (see the property's rule)
    bool nontrivial = false;
    /// number of individual comparisons made
    std::uint64_t checks = 0;
    /// identity of the generated input (for counting distinct cases)
    std::uint64_t digest = 0;
    /// labels for the histogram
    std::vector<std::string> labels;
    /// true when a written-out sample of the case is wanted
    bool want_sample = false;
    std::string sample;
    bool print_sample = false;

    void label(std::string s) { labels.push_back(std::move(s)); }
    void mix(void const* p, std::size_t n);
    void mix(std::string const& s) { mix(s.data(), s.size()); std::uint64_t n = s.size(); mix(&n, sizeof n); }
    void mix(std::uint64_t v) { mix(&v, sizeof v); }
    template<class F> void describe(F f) { if (want_sample) { std::ostringstream o; f(o); sample = o.str(); if (print_sample) print(); } }
    void print() const;
};

[[noreturn]] void fail(std::string const& msg);
[[noreturn]] inline void discard() { throw Discard(); }

#define PBT_REQ(c, cond, expr) \
    do { ++(c).checks; if (!(cond)) { std::ostringstream pbt_o_; pbt_o_ << expr << "   [" #cond "]"; ::pbt::fail(pbt_o_.str()); } } while (0)

template<class A, class B>
void req_eq(Case& c, A const& actual, B const& expected, std::string const& what) {
    ++c.checks;
    if (!(actual == expected)) {
        std::ostringstream o; o << what << ": got " << actual << ", expected " << expected; fail(o.str());
    }
}

/// printable form of arbitrary bytes
std::string quote(std::string const& s, std::size_t max = 400);

/// directory private to this process, removed at the end
std::string const& scratch_dir();
void write_file(std::string const& path, std::string const& content);
std::string read_file(std::string const& path);
/// the descriptor the next open() would give: the same before and after whatever must not keep files open
int next_fd();
/// whether a file stays open that was not when next_fd() gave `before`; the sanitizer's own thread opens one now and then
bool files_left(int before);
/// removes a directory below scratch_dir()
void remove_tree(std::string const& path);

struct RunResult { int status = -1; bool signaled = false; int signal = 0; bool fired = false; std::string out, err; };
/// runs a program of the checked tree (name as in /repo/main), stdout/stderr captured; faults of its output:
/// "full" (device without space), "pipe" (nobody reads), "N" (no file can grow beyond N bytes),
/// "r<chunk>,<random>,<n>,<errno>" (files are read in pieces of 1..chunk bytes, the n-th read fails: fired is set)
RunResult run_tool(std::string const& name, std::vector<std::string> const& args, std::string const& fault = std::string());

/// runs any executable in a directory, stdout/stderr captured
RunResult run_program(std::string const& path, std::vector<std::string> const& args, std::string const& cwd);

/// set by each property's source file
struct PropertyInfo {
    char const* id;
    char const* rule;
    /// called once per process before any case
    void (*setup)();
};
extern PropertyInfo const property_info;
void property(Source&, Case&);

inline void no_setup() {}

}

#endif
