// Generators shared by the properties.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP

#include "pbt.hpp"
#include "ref.hpp"

#include <fstream>

namespace gen {

using pbt::Source;
using ref::Pic;

/// many values from one choice (for structures too large to draw piece by piece); seed 0 gives zeros
struct Bulk {
    std::uint64_t x;
    explicit Bulk(Source& s) : x(s.bits32()) {}
    std::uint64_t next() {
        if (!x) return 0;
        x += 0x9e3779b97f4a7c15u;
        std::uint64_t z = x;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9u;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebu;
        return z ^ (z >> 31);
    }
    std::uint64_t u(std::uint64_t n) { return next() % n; }
};
/// sizes at which buffers, counters and index types run over
inline unsigned huge(Source& s, unsigned max) {
    static unsigned const edge[] = {33, 64, 65, 127, 128, 129, 130, 255, 256, 257, 300, 511, 513, 1000, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 5000, 8193, 16385, 65535, 65536, 65537, 70000};
    unsigned n = 0;
    while (n < sizeof edge / sizeof *edge && edge[n] <= max) ++n;
    unsigned const v = n ? edge[s.u(n)] : max;
    return s.flip() ? v : unsigned(s.range(std::min(32u, max), v));
}

/// rows of 32-pixel words; every word can shrink to background
inline void noise(Source& s, Pic& p, unsigned thin) {
    std::size_t i = 0;
    while (i < p.px.size()) {
        std::uint32_t b = s.bits32();
        if (thin == 0) b = ~(~b & s.bits32());      // dense (about 3/4)
        else for (unsigned k = 1; k < thin; ++k) b &= s.bits32();
        for (unsigned k = 0; k < 32 && i < p.px.size(); ++k, ++i) if (b >> k & 1) p.px[i] = 'x';
    }
}
inline void line(Pic& p, int x0, int y0, int x1, int y1, char c) {
    int const n = std::max({std::abs(x1 - x0), std::abs(y1 - y0), 1});
    for (int k = 0; k <= n; ++k) {
        int x = x0 + (x1 - x0) * k / n, y = y0 + (y1 - y0) * k / n;
        if (x >= 0 && y >= 0 && x < int(p.w) && y < int(p.h)) p.at(unsigned(x), unsigned(y)) = c;
    }
}
inline void rect(Pic& p, unsigned x, unsigned y, unsigned w, unsigned h, char c, bool fill) {
    for (unsigned yy = y; yy < std::min(p.h, y + h); ++yy) for (unsigned xx = x; xx < std::min(p.w, x + w); ++xx)
        if (fill || yy == y || xx == x || yy + 1 == y + h || xx + 1 == x + w) p.at(xx, yy) = c;
}
inline unsigned side(Source& s, unsigned cap) {
    static unsigned const caps[4] = {4, 9, 24, 90};
    unsigned const m = std::min(cap, caps[s.size_class()]);
    if (cap >= 3 && s.chance(1, 6)) return unsigned(s.range(1, 3));
    if (s.size_class() == 3 && s.chance(2, 3)) return unsigned(s.range(1, std::min(m, 40u)));
    return unsigned(s.range(1, m));
}
/// any content, any size (>= 1x1)
inline void content(Source& s, Pic& p) {
    switch (s.weighted({2, 3, 2, 2, 4, 2, 2, 1, 2})) {
        case 0: noise(s, p, 1); break;
        case 1: noise(s, p, 2); break;
        case 2: noise(s, p, 3); break;
        case 3: noise(s, p, 0); break;
        case 4: { // strokes
            unsigned n = unsigned(s.range(1, 6));
            for (unsigned k = 0; k < n; ++k) {
                int x0 = int(s.u(p.w)), y0 = int(s.u(p.h)), x1 = int(s.u(p.w)), y1 = int(s.u(p.h));
                char c = s.chance(1, 6) ? '-' : 'x';
                line(p, x0, y0, x1, y1, c);
                if (s.flip()) line(p, x0 + 1, y0, x1 + 1, y1, c);
            }
            break;
        }
        case 5: { // nested frames
            unsigned n = unsigned(s.range(1, 4));
            for (unsigned k = 0; k < n; ++k) {
                unsigned x = unsigned(s.u(p.w)), y = unsigned(s.u(p.h));
                bool fill = s.chance(1, 3);
                char c = s.chance(1, 4) ? '-' : 'x';
                unsigned w = unsigned(s.range(1, p.w - x)), h = unsigned(s.range(1, p.h - y));
                rect(p, x, y, w, h, c, fill);
            }
            break;
        }
        case 6: { // full rows / columns
            unsigned n = unsigned(s.range(1, 5));
            for (unsigned k = 0; k < n; ++k) {
                if (s.flip()) { unsigned y = unsigned(s.u(p.h)); for (unsigned x = 0; x < p.w; ++x) p.at(x, y) = 'x'; }
                else { unsigned x = unsigned(s.u(p.w)); for (unsigned y = 0; y < p.h; ++y) p.at(x, y) = 'x'; }
            }
            unsigned holes = unsigned(s.u(4));
            for (unsigned k = 0; k < holes; ++k) p.px[s.u(p.px.size())] = '-';
            break;
        }
        case 7: { // full with holes, checkerboard
            unsigned const m = unsigned(s.u(3));
            if (m == 0) p.px.assign(p.px.size(), 'x');
            else for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) if (((x + y) / m) % 2) p.at(x, y) = 'x';
            unsigned holes = unsigned(s.u(6));
            for (unsigned k = 0; k < holes; ++k) { auto& c = p.px[s.u(p.px.size())]; c = c == 'x' ? '-' : 'x'; }
            break;
        }
        case 8: { // half filled, gradient of ink
            unsigned const m = unsigned(s.u(4));
            unsigned const a = unsigned(s.u(p.w + p.h + 1));
            for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) {
                bool in = m == 0 ? y < a : m == 1 ? x < a : m == 2 ? x + y < a : x + (p.h - y) < a;
                if (in) p.at(x, y) = 'x';
            }
            break;
        }
    }
}
/// content too large to draw pixel by pixel: blobs of a seed
inline Pic bulk_pic(Source& s, unsigned w, unsigned h) {
    Pic p = ref::blank(w, h);
    Bulk b(s);
    unsigned const mode = unsigned(s.u(4));
    if (mode == 3) { // nearly all ink, or rows and columns of it
        p.px.assign(p.px.size(), 'x');
        unsigned const k = unsigned(s.u(4));
        if (k == 2) for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) if ((x ^ y) & 1) p.at(x, y) = '-';
        if (k == 3) for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) if (y & 1) p.at(x, y) = '-';
        for (unsigned n = unsigned(s.u(6)); n; --n) p.px[b.u(p.px.size())] = '-';
    }
    else if (mode < 2) for (std::size_t i = 0; i < p.px.size(); ) {
        std::uint64_t v = b.next() & (mode ? ~std::uint64_t(0) : b.next());
        for (unsigned k = 0; k < 64 && i < p.px.size(); ++k, ++i) if (v >> k & 1) p.px[i] = 'x';
    }
    else for (unsigned k = 0; k < 12; ++k) rect(p, unsigned(b.u(w)), unsigned(b.u(h)), unsigned(1 + b.u(w)), unsigned(1 + b.u(h)), b.u(3) ? 'x' : '-', b.u(2));
    return p;
}
/// a glyph of more than 4096 pixels
inline Pic big_pic(Source& s) {
    unsigned const w = s.chance(1, 6) ? unsigned(s.range(200, 300)) : unsigned(s.range(60, 120));
    return bulk_pic(s, w, unsigned(s.range(4100 / w + 1, s.chance(1, 6) ? 300 : 120)));
}

inline Pic any_pic(Source& s, unsigned cap_w = 1000, unsigned cap_h = 1000) {
    if (cap_w >= 1000 && cap_h >= 1000 && s.chance(1, 3000)) { // more columns, rows or pixels than 16 bits count
        unsigned const k = unsigned(s.u(3)), l = k ? unsigned(s.flip() ? s.range(65530, 66000) : s.range(100000, 140000)) : unsigned(s.range(250, 420)), m = k ? unsigned(s.range(1, 3)) : unsigned(s.range(250, 420));
        return k == 2 ? bulk_pic(s, m, l) : bulk_pic(s, l, m);
    }
    unsigned w = side(s, cap_w), h = side(s, cap_h);
    if (s.chance(1, 24) && cap_w >= 200 && cap_h >= 200) { // extreme shapes
        unsigned const l = unsigned(s.range(100, s.size_class() == 3 ? 900 : 300));
        if (s.flip()) { w = l; h = unsigned(s.range(1, 6)); } else { h = l; w = unsigned(s.range(1, 6)); }
    }
    Pic p = ref::blank(w, h);
    content(s, p);
    return p;
}
inline bool has_ink(Pic const& p) { return p.px.find('x') != std::string::npos; }
inline bool has_background(Pic const& p) { return p.px.find('-') != std::string::npos; }

/// glyph pictures shipped with the repository, if readable (all "x"/"-")
inline std::vector<Pic> const& real_glyphs() {
    static std::vector<Pic> const v = [] {
        std::vector<Pic> r;
        char const* repo = getenv("PBT_REPO");
        std::ifstream f(std::string(repo ? repo : "/repo") + "/resources/glyphs/normalized-glyphs-latin.txt");
        unsigned w, h, n, k = 0;
        std::string px, line;
        while (f >> w >> h >> px >> n) {
            if (px.size() != std::size_t(w) * h) break;
            std::getline(f, line);
            while (n--) std::getline(f, line);
            if (k++ % 4 == 0) r.push_back({w, h, px});
        }
        return r;
    }();
    return v;
}
/// tight picture: ink in the first and last row and column
inline Pic tighten(Pic const& p) {
    unsigned x0 = p.w, x1 = 0, y0 = p.h, y1 = 0;
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) if (p.ink(x, y)) { x0 = std::min(x0, x); x1 = std::max(x1, x); y0 = std::min(y0, y); y1 = std::max(y1, y); }
    if (x0 > x1) return {1, 1, "x"};
    return ref::crop(p, x0, y0, x1 - x0 + 1, y1 - y0 + 1);
}
/// picture like a learned glyph: real ones, variations of real ones, or generated
inline Pic glyph_pic(Source& s, unsigned cap_w = 60, unsigned cap_h = 60) {
    auto const& real = real_glyphs();
    unsigned const kind = s.weighted({4, 3, 2});
    if (kind == 0 || real.empty()) return any_pic(s, std::min(cap_w, 14u), std::min(cap_h, 16u));
    if (kind == 2) return any_pic(s, cap_w, cap_h);
    Pic p = s.pick(real);
    unsigned const flips = unsigned(s.small(0, 8));
    for (unsigned k = 0; k < flips; ++k) { auto& c = p.px[s.u(p.px.size())]; c = c == 'x' ? '-' : 'x'; }
    return p;
}
/// small change of a picture
inline Pic mutate(Source& s, Pic p, unsigned max_flips = 4) {
    switch (s.u(6)) {
        default: {
            unsigned const n = unsigned(s.range(1, max_flips));
            for (unsigned k = 0; k < n; ++k) { auto& c = p.px[s.u(p.px.size())]; c = c == 'x' ? '-' : 'x'; }
            return p;
        }
        case 3: return ref::flip_v(p);
        case 4: return ref::turn(p);
        case 5: return ref::mirror_h(p);
    }
}

/// blank-free token over a small alphabet (so that equal and prefix words are common), 1..max characters
inline std::string token(Source& s, unsigned max_chars = 6) {
    static char const* const alpha[] = {"a", "b", "c", "d", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", ".", "A", "1", "-", "\xd0\xbf", "\xef\xbb\xbf", "\xc2\xa0"};
    unsigned const n = unsigned(s.small(1, max_chars));
    std::string r;
    unsigned const k = s.flip() ? 14 : 3;
    for (unsigned i = 0; i < n; ++i) r += alpha[s.u(k)];
    return r;
}
/// valid UTF-8 characters of every encoded length, no NUL
inline std::uint32_t code_point(Source& s) {
    static std::uint32_t const edges[] = {'a', 1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0xbf, 0xc0, 0x3f, 0x40};
    switch (s.weighted({6, 3, 2, 2, 2})) {
        case 0: return std::uint32_t(s.range('a', 'z'));
        case 1: return std::uint32_t(s.range(0x80, 0x7ff));
        case 2: { std::uint32_t c = std::uint32_t(s.range(0x800, 0xffff)); return c >= 0xd800 && c < 0xe000 ? c - 0x800 : c; }
        case 3: return std::uint32_t(s.range(0x10000, 0x10ffff));
        default: return edges[s.u(sizeof edges / sizeof *edges)];
    }
}
}

namespace gen {
/// blank-free bytes, longer than any fixed buffer would be
inline std::string long_word(Source& s) {
    unsigned const n = huge(s, s.chance(1, 12) ? 9000 : 600);
    Bulk b(s);
    std::string r;
    for (unsigned i = 0; i < n; ++i) r += char('a' + b.u(3));
    return r;
}
/// a word as found in glyph files: any blank-free bytes
inline std::string word(Source& s) {
    if (s.chance(1, 200)) return long_word(s);
    switch (s.weighted({6, 3, 2, 1})) {
        case 0: return token(s, 3);
        case 1: { // exact lengths around the word size of the table
            std::string r;
            unsigned const n = unsigned(s.range(1, 17));
            for (unsigned i = 0; i < n; ++i) r += "ab"[s.u(2)];
            return r;
        }
        case 2: return token(s, 12);
        default: {
            std::string r;
            unsigned const n = unsigned(s.small(1, 40));
            for (unsigned i = 0; i < n; ++i) { unsigned char b = static_cast<unsigned char>(s.range(33, 255)); r += char(b == 127 ? 126 : b); }
            return r;
        }
    }
}
inline std::string font(Source& s) {
    static char const* const f[] = {"arial", "arial-bold", "f", "Times_New_Roman,12", "imaginary", "sans/serif:10"};
    if (s.chance(1, 400)) return long_word(s);
    return s.chance(1, 6) ? token(s, 8) : f[s.u(6)];
}
inline ref::Label label(Source& s) {
    static unsigned const lines[] = {0, ~0u, 1, 10585, 65535, 2147483648u};
    return {word(s), font(s), lines[s.u(6)]};
}
/// a table of hundreds of small glyphs with numbered words and fonts in a random order
inline std::vector<ref::Glyph> many_glyphs(Source& s, unsigned n, unsigned max_labels, unsigned min_words = 1) { // more words than one: also where the seed is 0, as lists of glyphs with the same word would grow too large
    Bulk b(s);
    std::vector<ref::Glyph> v;
    unsigned const words = unsigned(s.range(min_words, 2 * n)), fonts = unsigned(s.range(1, 600));
    for (unsigned i = 0; i < n; ++i) {
        ref::Glyph g{ref::blank(unsigned(1 + b.u(4)), unsigned(1 + b.u(5))), {}};
        for (auto& c : g.pic.px) if (b.u(2)) c = 'x';
        for (std::uint64_t k = 1 + (b.u(4) ? 0 : b.u(max_labels)); k; --k) g.labels.push_back({"w" + std::to_string(min_words > 1 ? (i / 4 + b.u(words)) % words : b.u(words)), "f" + std::to_string(b.u(fonts)), unsigned(b.next())});
        v.push_back(g);
    }
    return v;
}
/// words drawn from a small pool so that labels repeat
inline std::vector<ref::Glyph> glyphs(Source& s, unsigned max, unsigned max_labels = 4, unsigned min_labels = 1) {
    static unsigned const caps[4] = {2, 5, 12, 30};
    if (max >= 30 && s.chance(1, 150)) return many_glyphs(s, huge(s, 1025), max_labels);
    unsigned const n = unsigned(s.range(0, std::min(max, caps[s.size_class()])));
    std::vector<ref::Label> pool;
    unsigned const np = unsigned(s.range(1, 6));
    for (unsigned i = 0; i < np; ++i) pool.push_back(label(s));
    std::vector<ref::Glyph> v;
    for (unsigned i = 0; i < n; ++i) {
        ref::Glyph g;
        if (i && s.chance(1, 5)) g.pic = s.pick(v).pic;
        else if (i && s.chance(1, 5)) g.pic = mutate(s, s.pick(v).pic);
        else if (s.chance(1, 150)) g.pic = big_pic(s);
        else g.pic = glyph_pic(s, 20, 20);
        unsigned const k = unsigned(s.small(min_labels, max_labels));
        for (unsigned j = 0; j < k; ++j) {
            ref::Label l = s.chance(3, 4) ? s.pick(pool) : label(s);
            if (s.chance(1, 5)) l.font = font(s);
            g.labels.push_back(l);
        }
        v.push_back(g);
    }
    return v;
}
inline std::string describe(std::vector<ref::Glyph> const& v) {
    std::ostringstream o;
    o << v.size() << " glyphs:";
    std::size_t shown = 0;
    for (auto& g : v) { if (++shown > 60) { o << " ..."; break; } o << ' ' << ref::show(g.pic, 60); for (auto& l : g.labels) o << ' ' << pbt::quote(l.word, 40) << '/' << pbt::quote(l.font, 20) << '/' << l.line; }
    return o.str();
}
}

#endif
