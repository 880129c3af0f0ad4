// Index ranges and reordering behave like the lists they stand for.
#include "pbt.hpp"
#include <algorithm>
#include <cstddef>
#include <iterator>
#include <limits>
#include <list>
#include <memory>
#include <numeric>
#include <string>
#include <vector>
#include "ppocr/utils/integer_iterator.hpp"
#include "ppocr/utils/range_iterator.hpp"
#include "ppocr/utils/reindex.hpp"

namespace pbt {

PropertyInfo const property_info{"P38",
    "lists of 0..40 (now and then up to 70000) elements of three kinds (numbers, texts, move-only ones), a random order of them (any permutation: identity, reversed, rotated, shuffled), index ranges over them with and without a projection, and integer iterators over ranges of five integer types next to the ends of the type; "
    "non-trivial: at least two elements, not in the identical order", no_setup};

namespace {
struct Project {
    std::vector<std::string> const* v;
    std::string const& operator()(unsigned i) const { return (*v)[i]; }
};

template<bool Jump, class R, class F>
void same_range(Source& s, Case& c, R r, std::size_t n, F at, char const* what) {
    PBT_REQ(c, std::size_t(r.size()) == n, what << ": size " << r.size() << " instead of " << n);
    PBT_REQ(c, r.empty() == !n, what << ": emptiness");
    std::size_t k = 0;
    for (auto it = r.begin(), e = r.end(); it != e; ++it, ++k) {
        PBT_REQ(c, k < n && *it == at(k), what << ": element " << k << " of " << n << " met by iteration");
    }
    PBT_REQ(c, k == n, what << ": iteration meets " << k << " elements instead of " << n);
    if (!n) return;
    PBT_REQ(c, r.front() == at(0), what << ": first element");
    PBT_REQ(c, r.back() == at(n - 1), what << ": last element");
    for (unsigned t = 0; t < 6; ++t) {
        std::size_t const i = s.u(n), j = s.u(n);
        PBT_REQ(c, r[i] == at(i), what << ": element " << i);
        auto b = r.begin();
        PBT_REQ(c, b[i] == at(i), what << ": element " << i << " from the first");
        if constexpr (Jump) {
        auto x = b + std::ptrdiff_t(i), y = b + std::ptrdiff_t(j);
        PBT_REQ(c, *x == at(i), what << ": " << i << " steps behind the first");
        PBT_REQ(c, y - x == std::ptrdiff_t(j) - std::ptrdiff_t(i), what << ": distance of " << i << " and " << j);
        PBT_REQ(c, (x == y) == (i == j) && (x != y) == (i != j) && (x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), what << ": order of the positions " << i << " and " << j);
        x += std::ptrdiff_t(j) - std::ptrdiff_t(i);
        PBT_REQ(c, x == y && *x == at(j), what << ": a jump of " << std::ptrdiff_t(j) - std::ptrdiff_t(i));
        x -= std::ptrdiff_t(j) - std::ptrdiff_t(i);
        PBT_REQ(c, *x == at(i), what << ": a jump back of " << std::ptrdiff_t(j) - std::ptrdiff_t(i));
        }
    }
}

template<class T>
void integers(Source& s, Case& c, char const* type) {
    using It = ppocr::integer_iterator<T>;
    constexpr std::uint64_t top = std::uint64_t(std::numeric_limits<T>::max()) > 0x7fffffffffffffff ? 0x7fffffffffffffff : std::uint64_t(std::numeric_limits<T>::max());
    std::uint64_t const n = std::min<std::uint64_t>(top, s.small(0, 40));
    std::uint64_t const base = s.flip() ? s.small(0, std::min<std::uint64_t>(top - n, 300)) : top - n - s.small(0, std::min<std::uint64_t>(top - n, 300));
    auto at = [&](std::uint64_t i) { return It{T(base + i)}; };
    std::vector<T> want, got;
    for (std::uint64_t i = 0; i < n; ++i) want.push_back(T(base + i));
    for (It it = at(0); it != at(n); ++it) { got.push_back(*it); if (got.size() > n) break; }
    PBT_REQ(c, got == want, type << ": iteration from " << base << " to " << base + n << " meets " << got.size() << " numbers");
    for (unsigned t = 0; t < 6; ++t) {
        std::uint64_t const i = s.u(n + 1), j = s.u(n + 1);
        std::ptrdiff_t const d = std::ptrdiff_t(j) - std::ptrdiff_t(i);
        It x = at(i), y = at(j);
        PBT_REQ(c, *x == T(base + i), type << ": value");
        PBT_REQ(c, y - x == d, type << ": distance of " << base + i << " and " << base + j);
        PBT_REQ(c, (x == y) == (i == j), type << ": == of " << base + i << " and " << base + j);
        PBT_REQ(c, (x != y) == (i != j), type << ": != of " << base + i << " and " << base + j);
        PBT_REQ(c, (x < y) == (i < j), type << ": < of " << base + i << " and " << base + j);
        PBT_REQ(c, (x <= y) == (i <= j), type << ": <= of " << base + i << " and " << base + j);
        PBT_REQ(c, x + d == y && y - d == x, type << ": " << base + i << " and " << d);
        It z = x;
        z += d;
        PBT_REQ(c, z == y, type << ": " << base + i << " += " << d);
        z -= d;
        PBT_REQ(c, z == x, type << ": " << base + j << " -= " << d);
    }
}
}

void property(Source& s, Case& c) {
    static unsigned const caps[4] = {3, 8, 20, 40};
    static unsigned const big[] = {127, 128, 255, 256, 257, 1000, 4097, 32768, 65535, 65536, 65537, 70000};
    bool const many = s.chance(1, 3000);
    unsigned const n = many ? big[s.u(12)] : unsigned(s.range(0, caps[s.size_class()]));
    std::vector<unsigned> order(n);
    std::iota(order.begin(), order.end(), 0u);
    unsigned const kind = unsigned(s.u(4));
    if (kind == 1) std::reverse(order.begin(), order.end());
    else if (kind == 2 && n) std::rotate(order.begin(), order.begin() + long(s.u(n)), order.end());
    else if (kind == 3) {
        std::uint64_t r = s.bits32();
        for (std::size_t i = n; i > 1; --i) { std::size_t k; if (many) { r = r * 6364136223846793005u + 1442695040888963407u; k = std::size_t((r >> 33) % i); } else k = s.u(i); std::swap(order[i - 1], order[k]); }
    }
    c.describe([&](auto& o) { o << n << " elements in the order"; for (unsigned i = 0; i < n && i < 40; ++i) o << ' ' << order[i]; });
    for (auto i : order) c.mix(i);
    c.nontrivial = n > 1 && kind;
    c.label(many ? "many" : n == 0 ? "empty" : kind == 0 ? "identity" : kind == 1 ? "reversed" : kind == 2 ? "rotated" : "shuffled");

    std::vector<std::string> texts;
    for (unsigned i = 0; i < n; ++i) texts.push_back((i % 3 ? "t" : "a text longer than a small buffer ") + std::to_string(i));
    { // ranges over the indexes, with and without a projection; a part of them too
        std::size_t const a = s.u(n + 1), b = a + s.u(n - a + 1);
        unsigned const* const p = order.data();
        same_range<true>(s, c, ppocr::range_iterator<unsigned const*>(p, p + n), n, [&](std::size_t i) { return order[i]; }, "index range");
        same_range<true>(s, c, ppocr::range_iterator<unsigned const*>(p + a, p + b), b - a, [&](std::size_t i) { return order[a + i]; }, "part of an index range");
        same_range<false>(s, c, ppocr::range_iterator<unsigned const*, Project>(p, p + n, Project{&texts}), n, [&](std::size_t i) { return texts[order[i]]; }, "projected range");
        same_range<true>(s, c, ppocr::range_iterator<std::vector<unsigned>::const_iterator>(order.cbegin(), order.cend()), n, [&](std::size_t i) { return order[i]; }, "range of a vector");
    }
    { // reordering
        auto t = texts;
        ppocr::utils::reindex(order, t);
        PBT_REQ(c, t.size() == n, "reordered: " << t.size() << " texts of " << n);
        for (unsigned i = 0; i < n; ++i) PBT_REQ(c, t[i] == texts[order[i]], "reordered: text " << i << " is " << quote(t[i]) << " instead of " << quote(texts[order[i]]));
        std::vector<unsigned> back(n);
        for (unsigned i = 0; i < n; ++i) back[order[i]] = i;
        ppocr::utils::reindex(back, t);
        PBT_REQ(c, t == texts, "the inverse order does not give the first list back");
        std::vector<std::unique_ptr<unsigned>> m;
        for (unsigned i = 0; i < n; ++i) m.push_back(std::make_unique<unsigned>(i));
        std::vector<std::size_t> wide(order.begin(), order.end());
        ppocr::utils::reindex(wide, m);
        PBT_REQ(c, m.size() == n, "reordered: " << m.size() << " owners of " << n);
        for (unsigned i = 0; i < n; ++i) PBT_REQ(c, m[i] && *m[i] == order[i], "reordered: owner " << i);
        auto same = order; // a list of indexes reordered by itself
        auto twice = order;
        ppocr::utils::reindex(order, twice);
        for (unsigned i = 0; i < n; ++i) PBT_REQ(c, twice[i] == order[order[i]], "reordered: number " << i);
        PBT_REQ(c, order == same, "the index list changed");
    }
    switch (s.u(5)) {
        case 0: integers<unsigned>(s, c, "unsigned"); break;
        case 1: integers<int>(s, c, "int"); break;
        case 2: integers<std::uint64_t>(s, c, "64 bits"); break;
        case 3: integers<unsigned char>(s, c, "8 bits"); break;
        default: integers<std::uint16_t>(s, c, "16 bits"); break;
    }
    { // the way a list of all indexes is made
        using It = ppocr::integer_iterator<unsigned>;
        std::vector<unsigned> const all(It{0}, It{n});
        PBT_REQ(c, all.size() == n, "a list from integer iterators has " << all.size() << " entries instead of " << n);
        for (unsigned i = 0; i < n; ++i) PBT_REQ(c, all[i] == i, "entry " << i << " of a list from integer iterators is " << all[i]);
    }
}

}
