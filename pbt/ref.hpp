// Independent reference models of ppocr's observable behaviour.  Nothing here includes or calls ppocr code.
// They favour obviousness over speed (quadratic scans, brute force, 64-bit arithmetic).
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP

#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>

namespace ref {

using i64 = std::int64_t;

struct Pic {
    unsigned w = 0, h = 0;
    std::string px; // 'x' ink, '-' background
    bool ink(i64 x, i64 y) const { return px[std::size_t(y) * w + std::size_t(x)] == 'x'; }
    char& at(unsigned x, unsigned y) { return px[std::size_t(y) * w + x]; }
    bool operator==(Pic const& o) const { return w == o.w && h == o.h && px == o.px; }
    bool operator!=(Pic const& o) const { return !(*this == o); }
    /// width, then height, then pixels
    bool operator<(Pic const& o) const {
        if (w != o.w) return w < o.w;
        if (h != o.h) return h < o.h;
        return px < o.px;
    }
};
inline Pic blank(unsigned w, unsigned h, char c = '-') { return {w, h, std::string(std::size_t(w) * h, c)}; }
inline std::ostream& operator<<(std::ostream& o, Pic const& p) {
    o << p.w << 'x' << p.h << '[';
    for (unsigned y = 0; y < p.h; ++y) o << (y ? "/" : "") << p.px.substr(std::size_t(y) * p.w, p.w);
    return o << ']';
}
inline std::string show(Pic const& p, std::size_t max = 600) {
    std::ostringstream o; o << p; std::string s = o.str();
    return s.size() > max ? s.substr(0, max) + "..." : s;
}
/// counter-clockwise quarter turn: pixel (x, y) goes to column y, row w-1-x
inline Pic turn(Pic const& p) {
    Pic r = blank(p.h, p.w);
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) r.at(y, p.w - 1 - x) = p.ink(x, y) ? 'x' : p.px[std::size_t(y) * p.w + x];
    return r;
}
inline Pic crop(Pic const& p, unsigned x0, unsigned y0, unsigned w, unsigned h) {
    Pic r = blank(w, h);
    for (unsigned y = 0; y < h; ++y) for (unsigned x = 0; x < w; ++x) r.at(x, y) = p.px[std::size_t(y + y0) * p.w + x + x0];
    return r;
}
inline Pic flip_v(Pic const& p) {
    Pic r = blank(p.w, p.h);
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) r.at(x, p.h - 1 - y) = p.px[std::size_t(y) * p.w + x];
    return r;
}
inline Pic mirror_h(Pic const& p) {
    Pic r = blank(p.w, p.h);
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) r.at(p.w - 1 - x, y) = p.px[std::size_t(y) * p.w + x];
    return r;
}
inline std::string printed(Pic const& p) {
    std::string r(p.w + 2, ':'); r += "\n";
    std::string const bar = r;
    for (unsigned y = 0; y < p.h; ++y) r += ":" + p.px.substr(std::size_t(y) * p.w, p.w) + ":\n";
    return r + bar;
}

// ---------------------------------------------------------------- image files
struct Decoded { bool ok = false; Pic pic; std::string why; };

/// The documented grammar: 'P' kind '\n' (comment lines) W ' ' H '\n' [max '\n'] data
inline Decoded decode_image(std::string const& b, unsigned luminance) {
    Decoded d;
    auto no = [&](char const* w) { d.ok = false; d.why = w; return d; };
    std::size_t p = 0;
    if (b.size() < 3 || b[0] != 'P' || b[1] < '1' || b[1] > '6' || b[2] != '\n') return no("magic");
    char const kind = b[1];
    p = 3;
    while (p < b.size() && b[p] == '#') {
        std::size_t e = b.find('\n', p);
        p = e == std::string::npos ? b.size() : e + 1;
    }
    auto number = [&](std::uint64_t& v, char next) {
        std::size_t q = p;
        std::uint64_t n = 0;
        while (q < b.size() && b[q] >= '0' && b[q] <= '9') {
            n = n * 10 + std::uint64_t(b[q] - '0');
            if (n > 0xffffffffull) return false;
            ++q;
        }
        if (q == p || q >= b.size() || b[q] != next) return false;
        p = q + 1; v = n;
        return true;
    };
    std::uint64_t w = 0, h = 0, mx = 0;
    if (!number(w, ' ') || !number(h, '\n')) return no("size");
    if (kind != '1' && kind != '4' && !number(mx, '\n')) return no("max value");
    if (kind == '2' || kind == '5') return no("kind");
    unsigned __int128 area = static_cast<unsigned __int128>(w) * h;
    if (!area) return no("empty");
    if (area > 0xffffffffull) return no("too large");
    std::uint64_t const n = w * h;
    std::string px;
    if (kind == '6') {
        if (b.size() - p != n * 3) return no("length");
        for (std::uint64_t i = 0; i < n; ++i) {
            auto c = [&](unsigned k) { return std::uint64_t(static_cast<unsigned char>(b[p + i * 3 + k])); };
            auto term = [](std::uint64_t weight, std::uint64_t v) { return (weight * v + 511) / 1024; };
            std::uint64_t const lum = term(511, c(0)) + term(396, c(1)) + term(117, c(2));
            px += lum >= luminance ? 'x' : '-';
        }
    }
    else if (kind == '4') {
        std::uint64_t const stride = (w + 7) / 8;
        if (b.size() - p != stride * h) return no("length");
        for (std::uint64_t y = 0; y < h; ++y) for (std::uint64_t x = 0; x < w; ++x) {
            unsigned char const byte = static_cast<unsigned char>(b[p + y * stride + x / 8]);
            px += (byte >> (7 - x % 8)) & 1 ? '-' : 'x';
        }
    }
    else {
        for (; p < b.size(); ++p) {
            if (b[p] == ' ' || b[p] == '\n') continue;
            if (px.size() == n) return no("length");
            if (b[p] == '0') px += '-';
            else if (b[p] == '1') px += 'x';
            else return no("digit");
        }
        if (px.size() != n) return no("length");
    }
    d.ok = true;
    d.pic = Pic{unsigned(w), unsigned(h), px};
    return d;
}

inline std::string encode_p4(Pic const& p) {
    std::string s = "P4\n" + std::to_string(p.w) + " " + std::to_string(p.h) + "\n";
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; x += 8) {
        unsigned byte = 0;
        for (unsigned k = 0; k < 8; ++k) if (x + k >= p.w || !p.ink(x + k, y)) byte |= 128u >> k;
        s += char(byte);
    }
    return s;
}
inline std::string encode_p6(Pic const& p, unsigned char ink = 255, unsigned char bg = 0) {
    std::string s = "P6\n" + std::to_string(p.w) + " " + std::to_string(p.h) + "\n255\n";
    for (char c : p.px) s.append(3, char(c == 'x' ? ink : bg));
    return s;
}
inline std::string encode_p1(Pic const& p, char kind = '1') {
    std::string s = std::string("P") + kind + "\n" + std::to_string(p.w) + " " + std::to_string(p.h) + "\n";
    if (kind == '3') s += "1\n";
    for (unsigned y = 0; y < p.h; ++y) {
        for (unsigned x = 0; x < p.w; ++x) { if (x) s += ' '; s += p.ink(x, y) ? '1' : '0'; }
        s += '\n';
    }
    return s;
}

// ---------------------------------------------------------------- segmentation
struct BoxR {
    unsigned x = 0, y = 0, w = 0, h = 0;
    bool operator==(BoxR const& o) const { return x == o.x && y == o.y && w == o.w && h == o.h; }
};
inline std::ostream& operator<<(std::ostream& o, BoxR const& b) { return o << '(' << b.x << ',' << b.y << ' ' << b.w << 'x' << b.h << ')'; }
inline bool column_has_ink(Pic const& p, unsigned x) {
    for (unsigned y = 0; y < p.h; ++y) if (p.ink(x, y)) return true;
    return false;
}
inline bool columns_touch(Pic const& p, unsigned x) { // x and x+1
    for (i64 y = 0; y < p.h; ++y) if (p.ink(x, y))
        for (i64 d = -1; d <= 1; ++d) if (y + d >= 0 && y + d < p.h && p.ink(x + 1, y + d)) return true;
    return false;
}
inline std::vector<BoxR> segment(Pic const& p) {
    std::vector<BoxR> r;
    unsigned x = 0;
    while (x < p.w) {
        if (!column_has_ink(p, x)) { ++x; continue; }
        unsigned e = x + 1;
        while (e < p.w && columns_touch(p, e - 1)) ++e;
        unsigned top = p.h, bottom = 0;
        for (unsigned yy = 0; yy < p.h; ++yy) for (unsigned xx = x; xx < e; ++xx) if (p.ink(xx, yy)) { top = std::min(top, yy); bottom = std::max(bottom, yy); }
        r.push_back({x, top, e - x, bottom - top + 1});
        x = e;
    }
    return r;
}

// ---------------------------------------------------------------- features
inline unsigned density(Pic const& p) {
    i64 n = 0; for (char c : p.px) n += c == 'x';
    return unsigned(n * 100 / (i64(p.w) * p.h));
}
inline unsigned proportion(Pic const& p) { return unsigned(i64(p.w) * 100 / (i64(p.w) + p.h)); }
inline unsigned bars(Pic const& p) {
    unsigned n = 0; bool prev = false;
    for (unsigned y = 0; y < p.h; ++y) {
        bool full = true;
        for (unsigned x = 0; x < p.w; ++x) full = full && p.ink(x, y);
        if (full && !prev) ++n;
        prev = full;
    }
    return n;
}
/// band around the falling diagonal: ceil(w(y+1)/h - w/3) <= x < floor(wy/h + w/3)
inline unsigned band_density(Pic const& p) {
    if (p.w < 3 || p.h < 3) return 0;
    i64 n = 0, area = 0;
    i64 const w = p.w, h = p.h;
    for (i64 y = 0; y < h; ++y) for (i64 x = 0; x < w; ++x) {
        bool const in = 3 * h * x >= 3 * w * (y + 1) - w * h && 3 * h * (x + 1) <= 3 * w * y + w * h;
        if (in) { ++area; n += p.ink(x, y); }
    }
    return unsigned(n * 100 / area);
}
struct TB { i64 top = 0, bottom = 0; };
/// rows of the halves as distance to the middle: k = 1 (next to the middle) .. h/2 (edge)
template<class F> TB halves(Pic const& p, F weight) {
    TB r;
    i64 const hh = p.h / 2;
    for (i64 k = 1; k <= hh; ++k) for (i64 x = 0; x < i64(p.w); ++x) {
        i64 const wgt = weight(k, x);
        if (p.ink(x, hh - k)) r.top += wgt;
        if (p.ink(x, p.h - hh + k - 1)) r.bottom += wgt;
    }
    return r;
}
/// columns of the diagonal region at distance k from the middle of a half of hh rows:
/// the edge row (k == hh) is full, the margin grows towards the middle
inline bool in_triangle(Pic const& p, i64 k, i64 x) {
    i64 const hh = p.h / 2, w = p.w;
    i64 const row = hh - k; // 0 at the edge
    i64 const margin = w / 2 - (w / (1 + row)) / 2;
    return x >= margin && x < w - margin;
}
inline TB direction(Pic const& p) { return halves(p, [](i64, i64) { return i64(1); }); }
inline TB gravity(Pic const& p) { return halves(p, [](i64 k, i64) { return k; }); }
inline TB tri_direction(Pic const& p) { return halves(p, [&](i64 k, i64 x) { return i64(in_triangle(p, k, x)); }); }
inline TB tri_gravity(Pic const& p) { return halves(p, [&](i64 k, i64 x) { return in_triangle(p, k, x) ? k : 0; }); }
inline unsigned relative(TB t) { i64 const s = t.top + t.bottom; return s ? unsigned((s + t.top - t.bottom) * 100 / s) : 100; }
inline unsigned hdirection(Pic const& p) { return relative(direction(p)); }
inline unsigned hgravity(Pic const& p) { return relative(gravity(p)); }
inline unsigned dvdirection(Pic const& p) { return relative(tri_direction(p)); }
inline unsigned dvgravity(Pic const& p) { return relative(tri_gravity(p)); }
inline unsigned absolute_h(Pic const& p, TB t, i64 half_max) {
    return p.h < 2 ? 50 : unsigned((half_max + t.top - t.bottom) * 100 / (2 * half_max));
}
inline unsigned hdirection2(Pic const& p) { return absolute_h(p, direction(p), i64(p.h / 2) * p.w); }
inline unsigned hgravity2(Pic const& p) { i64 const hh = p.h / 2; return absolute_h(p, gravity(p), hh * (hh + 1) / 2 * p.w); }
inline i64 tri_max(Pic const& p, bool weighted) {
    i64 a = 0;
    for (i64 k = 1; k <= i64(p.h / 2); ++k) for (i64 x = 0; x < i64(p.w); ++x) if (in_triangle(p, k, x)) a += weighted ? k : 1;
    return a;
}
inline unsigned absolute_dv(Pic const& p, TB t, bool weighted) {
    if (p.h < 2) return 50;
    return unsigned(2 * t.top * 100 / (2 * tri_max(p, weighted)));
}
inline unsigned dvdirection2(Pic const& p) { return absolute_dv(p, tri_direction(p), false); }
inline unsigned dvgravity2(Pic const& p) { return absolute_dv(p, tri_gravity(p), true); }

struct Alt {
    bool start = false; unsigned count = 0;
    bool operator==(Alt const& o) const { return start == o.start && count == o.count; }
};
inline std::ostream& operator<<(std::ostream& o, Alt const& a) { return o << a.start << ':' << a.count; }
inline Alt runs(std::vector<bool> const& v) {
    Alt a{v[0], 1};
    for (std::size_t i = 1; i < v.size(); ++i) if (v[i] != v[i - 1]) ++a.count;
    return a;
}
inline Alt row_runs(Pic const& p, unsigned y0, unsigned n) {
    std::vector<bool> v(p.w, false);
    for (unsigned x = 0; x < p.w; ++x) for (unsigned y = y0; y < y0 + n; ++y) if (p.ink(x, y)) v[x] = true;
    return runs(v);
}
inline std::array<Alt, 7> alternation(Pic const& p) {
    Pic const q = turn(p);
    return {
        p.h < 2 ? Alt{false, 0} : row_runs(p, (p.h - 2) / 3, 1),
        row_runs(p, (p.h * 2 - 1) / 3, 1),
        row_runs(p, 0, p.h / 3),
        row_runs(p, p.h - p.h / 3, p.h / 3),
        row_runs(q, (q.h - 1) / 2, 1),
        row_runs(q, q.h - q.h / 3, q.h / 3),
        row_runs(q, 0, q.h / 3),
    };
}

struct Region { unsigned side[4] = {0, 0, 0, 0}; }; // top right bottom left border pixels
inline std::vector<Region> regions(Pic const& p) {
    // union-find over background pixels, edge connectivity
    std::size_t const n = std::size_t(p.w) * p.h;
    std::vector<std::size_t> parent(n);
    for (std::size_t i = 0; i < n; ++i) parent[i] = i;
    auto find = [&](std::size_t i) { while (parent[i] != i) i = parent[i] = parent[parent[i]]; return i; };
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) if (!p.ink(x, y)) {
        std::size_t const i = std::size_t(y) * p.w + x;
        if (x + 1 < p.w && !p.ink(x + 1, y)) parent[find(i)] = find(i + 1);
        if (y + 1 < p.h && !p.ink(x, y + 1)) parent[find(i)] = find(i + p.w);
    }
    std::map<std::size_t, Region> m;
    for (unsigned y = 0; y < p.h; ++y) for (unsigned x = 0; x < p.w; ++x) if (!p.ink(x, y)) {
        Region& r = m[find(std::size_t(y) * p.w + x)];
        if (y == 0) ++r.side[0];
        if (x + 1 == p.w) ++r.side[1];
        if (y + 1 == p.h) ++r.side[2];
        if (x == 0) ++r.side[3];
    }
    std::vector<Region> v;
    for (auto& e : m) v.push_back(e.second);
    return v;
}
using Zone = std::array<unsigned, 7>;
inline Zone zone(Pic const& p) {
    Zone z{};
    z[0] = p.ink(0, 0);
    z[1] = p.ink(p.w - 1, p.h - 1);
    for (Region const& r : regions(p)) {
        bool any = false;
        for (unsigned s = 0; s < 4; ++s) if (r.side[s]) { ++z[2 + s]; any = true; }
        if (!any) ++z[6];
    }
    return z;
}
inline std::vector<unsigned> zone_shares(Pic const& p) {
    std::vector<i64> v;
    i64 total = 0;
    for (Region const& r : regions(p)) for (unsigned s : r.side) if (s) { v.push_back(s); total += s; break; }
    std::vector<unsigned> out;
    for (i64 a : v) out.push_back(unsigned(a * 100 / total));
    std::sort(out.begin(), out.end());
    return out;
}

/// every feature, in the order of the feature table
static constexpr unsigned num_count = 20;
struct Features {
    std::array<unsigned, num_count> num{};  // numeric features
    std::array<unsigned, 2> bar{};
    std::array<Alt, 7> alt{};
    Zone zones{};
    std::vector<unsigned> shares;
    bool operator==(Features const& o) const { return num == o.num && bar == o.bar && alt == o.alt && zones == o.zones && shares == o.shares; }
};
inline char const* num_name(unsigned i) {
    static char const* const n[num_count] = {
        "dvgravity2/90", "dvdirection2/90", "dzdensity", "dzdensity/90", "dvdirection2", "dvgravity2",
        "hdirection", "hdirection/90", "hdirection2", "hdirection2/90", "hgravity", "hgravity/90", "hgravity2", "hgravity2/90",
        "proportionality", "dvdirection", "dvdirection/90", "dvgravity", "dvgravity/90", "density"};
    return n[i];
}
inline unsigned num_range(unsigned i) {
    static unsigned const r[num_count] = {100, 100, 100, 100, 100, 100, 200, 200, 100, 100, 200, 200, 100, 100, 100, 200, 200, 200, 200, 100};
    return r[i];
}
inline Features features(Pic const& p) {
    Pic const q = turn(p);
    Features f;
    f.num = {dvgravity2(q), dvdirection2(q), band_density(p), band_density(q), dvdirection2(p), dvgravity2(p),
        hdirection(p), hdirection(q), hdirection2(p), hdirection2(q), hgravity(p), hgravity(q), hgravity2(p), hgravity2(q),
        proportion(p), dvdirection(p), dvdirection(q), dvgravity(p), dvgravity(q), density(p)};
    f.bar = {bars(p), bars(q)};
    f.alt = alternation(p);
    f.zones = zone(p);
    f.shares = zone_shares(p);
    return f;
}
/// textual feature table, as the data tool prints it
inline std::string feature_table(std::vector<Features> const& v) {
    std::ostringstream o;
    o << v.size() << '\n';
    for (unsigned k = 0; k < num_count; ++k) { for (auto& f : v) o << f.num[k] << ' '; o << '\n'; }
    for (unsigned k = 0; k < 2; ++k) { for (auto& f : v) o << f.bar[k] << ' '; o << '\n'; }
    for (auto& f : v) for (auto& a : f.alt) o << a.start << ' ' << a.count << ' ';
    o << '\n';
    for (auto& f : v) for (auto z : f.zones) o << z << ' ';
    o << '\n';
    for (auto& f : v) { o << f.shares.size() << ' '; for (auto z : f.shares) o << z << ' '; }
    o << '\n';
    return o.str();
}

// ---------------------------------------------------------------- similarity (whole percent)
inline unsigned absdiff(unsigned a, unsigned b) { return a < b ? b - a : a - b; }
inline unsigned sim_num(unsigned a, unsigned b, unsigned range) { return 100 - unsigned(i64(absdiff(a, b)) * 100 / range); }
template<class A> unsigned sim_array(A const& a, A const& b) {
    unsigned n = 0;
    for (std::size_t i = 0; i < a.size(); ++i) n += a[i] == b[i];
    return unsigned(n * 100 / a.size());
}
/// first argument's share of each pair sum, averaged, compared with one half
inline unsigned sim_shares(std::vector<unsigned> const& a, std::vector<unsigned> const& b) {
    if (a.size() != b.size()) return 0;
    if (a.empty()) return 100;
    i64 t = 0;
    for (std::size_t i = 0; i < a.size(); ++i) t += a[i] + b[i] ? i64(a[i]) * 100 / (a[i] + b[i]) : 50;
    t /= i64(a.size());
    return unsigned(100 - std::llabs(t - 50));
}

// ---------------------------------------------------------------- glyphs
struct Label {
    std::string word, font; unsigned line = 0;
    bool operator==(Label const& o) const { return word == o.word && font == o.font && line == o.line; }
    bool operator<(Label const& o) const { return std::tie(word, font, line) < std::tie(o.word, o.font, o.line); }
};
struct Glyph { Pic pic; std::vector<Label> labels; };
inline std::string glyph_text(Glyph const& g) {
    std::ostringstream o;
    o << g.pic.w << ' ' << g.pic.h << ' ' << g.pic.px << "\n" << g.labels.size() << "\n";
    for (auto& l : g.labels) o << l.word << ' ' << l.font << ' ' << l.line << "\n";
    return o.str();
}
inline std::string glyph_file(std::vector<Glyph> const& v) { std::string s; for (auto& g : v) s += glyph_text(g); return s; }
struct ParsedGlyphs { bool ok = false; std::vector<Glyph> v; };
/// strict parser of the glyph file format
inline ParsedGlyphs parse_glyphs(std::string const& s) {
    ParsedGlyphs r;
    std::size_t p = 0;
    auto num = [&](std::uint64_t& v, char next) {
        std::size_t q = p; v = 0;
        while (q < s.size() && s[q] >= '0' && s[q] <= '9' && q - p < 11) { v = v * 10 + std::uint64_t(s[q] - '0'); ++q; }
        if (q == p || q >= s.size() || s[q] != next) return false;
        p = q + 1; return true;
    };
    while (p < s.size()) {
        Glyph g;
        std::uint64_t w, h, n;
        if (!num(w, ' ') || !num(h, ' ')) return r;
        if (w * h > s.size() || p + w * h + 1 > s.size() || s[p + w * h] != '\n') return r;
        g.pic = {unsigned(w), unsigned(h), s.substr(p, w * h)};
        p += w * h + 1;
        if (!num(n, '\n')) return r;
        for (std::uint64_t i = 0; i < n; ++i) {
            std::size_t a = s.find(' ', p), e = s.find('\n', p);
            if (a == std::string::npos || e == std::string::npos || a > e) return r;
            std::size_t b = s.find(' ', a + 1);
            if (b == std::string::npos || b > e) return r;
            Label l{s.substr(p, a - p), s.substr(a + 1, b - a - 1), 0};
            p = b + 1;
            std::uint64_t line;
            if (!num(line, '\n')) return r;
            l.line = unsigned(line);
            g.labels.push_back(l);
        }
        r.v.push_back(std::move(g));
    }
    r.ok = true;
    return r;
}

// ---------------------------------------------------------------- recognition by exhaustive comparison
struct Scored { std::size_t i; double p; };
struct Recognition {
    /// groups (equal label words) in descending score; alternatives: glyphs that may represent the group
    struct Group { double p; std::set<std::size_t> representatives; bool borderline; };
    std::vector<Group> groups;
    bool perfect = false;
};
inline Recognition recognise(std::vector<Features> const& data, std::vector<std::vector<std::string>> const& words, Features const& q) {
    Recognition r;
    std::vector<Scored> c;
    for (std::size_t i = 0; i < data.size(); ++i) {
        bool near = true;
        double p = 1;
        for (unsigned k = 0; k < num_count; ++k) {
            near = near && absdiff(data[i].num[k], q.num[k]) <= num_range(k) / 10;
            if (near) p *= sim_num(data[i].num[k], q.num[k], num_range(k)) / 100.;
        }
        if (near) c.push_back({i, p});
    }
    if (c.empty()) return r;
    double best = 0;
    for (auto& s : c) best = std::max(best, s.p);
    double limit;
    if (best >= 1) { r.perfect = true; limit = 1; }
    else {
        std::vector<Scored> k;
        std::map<std::string, std::vector<std::size_t>> same;
        for (std::size_t j = 0; j < data.size(); ++j) same[words[j][0]].push_back(j);
        for (auto s : c) {
            Features const& f = data[s.i];
            unsigned const b0 = f.bar[0] == q.bar[0] ? 100 : 0, b1 = f.bar[1] == q.bar[1] ? 100 : 0, a = sim_array(q.alt, f.alt);
            if (b0 < 50 || b1 < 50 || a < 50) continue;
            s.p *= b0 / 100.; s.p *= b1 / 100.; s.p *= a / 100.;
            // another glyph with the same first word must be close in both zone features
            bool has_other = false, supported = false;
            for (std::size_t j : same[words[s.i][0]]) if (j != s.i && !supported) {
                has_other = true;
                if (sim_array(data[j].zones, q.zones) >= 50 && sim_shares(data[j].shares, q.shares) >= 50) supported = true;
            }
            if (!has_other || supported) k.push_back(s);
        }
        c = k;
        best = 0;
        for (auto& s : c) best = std::max(best, s.p);
        limit = best * 0.5;
    }
    std::map<std::vector<std::string>, std::vector<Scored>> groups;
    for (auto& s : c) groups[words[s.i]].push_back(s);
    for (auto& g : groups) {
        Recognition::Group o{0, {}, false};
        for (auto& s : g.second) o.p = std::max(o.p, s.p);
        if (o.p < limit * (1 - 1e-12)) continue;
        o.borderline = !r.perfect && std::abs(o.p - limit) <= 1e-12 * limit;
        if (r.perfect && o.p < 1) continue;
        for (auto& s : g.second) if (s.p >= o.p * (1 - 1e-12)) o.representatives.insert(s.i);
        r.groups.push_back(o);
    }
    std::stable_sort(r.groups.begin(), r.groups.end(), [](auto& a, auto& b) { return a.p > b.p; });
    return r;
}
/// compares an observed candidate list, given as the sequence of glyph indexes whose labels were returned
inline std::string check_recognition(Recognition const& r, std::vector<std::size_t> const& got) {
    std::ostringstream o;
    std::size_t gi = 0;
    std::map<std::size_t, std::size_t> group_of; // a glyph belongs to one group only
    for (std::size_t k = 0; k < r.groups.size(); ++k) for (auto i : r.groups[k].representatives) group_of[i] = k;
    std::vector<bool> used(r.groups.size(), false);
    auto fmt = [&]{
        o << "; expected groups:";
        for (auto& g : r.groups) { o << " p=" << g.p << "{"; for (auto i : g.representatives) o << i << ' '; o << "}" << (g.borderline ? "?" : ""); }
        o << "; got:"; for (auto i : got) o << ' ' << i;
        return o.str();
    };
    double last = 2;
    for (; gi < got.size(); ++gi) {
        auto const it = group_of.find(got[gi]);
        std::size_t const k = it == group_of.end() ? r.groups.size() : it->second;
        if (k == r.groups.size() || used[k]) { o << "candidate glyph " << got[gi] << " is not expected (or returned twice)"; return fmt(); }
        used[k] = true;
        if (r.groups[k].p > last * (1 + 1e-12)) { o << "candidate glyph " << got[gi] << " is out of order"; return fmt(); }
        last = r.groups[k].p;
    }
    for (std::size_t k = 0; k < r.groups.size(); ++k) if (!used[k] && !r.groups[k].borderline) { o << "a candidate is missing"; return fmt(); }
    return {};
}

// ---------------------------------------------------------------- text line resolution
/// a candidate: word and font identities
struct Cand { std::string word; unsigned font = 0; unsigned tag = 0; };
using Cands = std::vector<Cand>;
struct Lines { unsigned ascent = 0, cap = 0, mean = 0, base = 0; };
using LineInfo = std::map<std::string, Lines>;

/// setting: 1 at least two rows above the line, 2 on it (within one row), 4 at least two rows below it,
/// 3 anywhere above it, 6 anywhere below it; anything else is no constraint
inline bool contradicts(unsigned setting, i64 y, i64 line) {
    switch (setting) {
        case 1: return !(y <= line - 2);
        case 2: return !(y >= line - 1 && y <= line + 1);
        case 4: return !(y >= line + 2);
        case 3: return !(y < line);
        case 6: return !(y > line);
        default: return false;
    }
}
inline i64 mode_lowest(std::vector<i64> const& v) {
    std::map<i64, unsigned> m;
    for (i64 x : v) ++m[x];
    i64 best = v[0]; unsigned n = 0;
    for (auto& e : m) if (e.second > n) { n = e.second; best = e.first; }
    return best;
}
/// removes contradicting candidates from a list with several runs of words (a single run is never removed); returns the number of runs kept
template<class Pred> unsigned filter_list(Cands& l, Pred remove) {
    unsigned nruns = 0;
    for (std::size_t i = 0; i < l.size(); ++i) if (!i || l[i].word != l[i - 1].word) ++nruns;
    if (nruns < 2) return nruns;
    Cands out;
    unsigned kept = 0;
    for (std::size_t i = 0; i < l.size(); ++i) {
        if (remove(l[i])) continue;
        if (!i || l[i].word != l[i - 1].word) ++kept;
        out.push_back(l[i]);
    }
    l = out;
    return kept;
}
inline void filter_lines(std::vector<Cands>& v, LineInfo const& info, std::vector<BoxR> const& boxes) {
    if (boxes.empty()) return;
    std::vector<i64> bottoms, tops;
    for (auto& b : boxes) bottoms.push_back(i64(b.y) + b.h - 1);
    i64 const base = mode_lowest(bottoms);
    for (std::size_t i = 0; i < v.size(); ++i) {
        unsigned const kept = filter_list(v[i], [&](Cand const& c) {
            auto it = info.find(c.word);
            return it != info.end() && contradicts(it->second.base, bottoms[i], base);
        });
        if (kept == 1) {
            auto it = info.find(v[i][0].word);
            if (it != info.end() && it->second.base == 2 && it->second.mean == 2) tops.push_back(boxes[i].y);
        }
    }
    if (tops.empty()) return;
    i64 const mean = mode_lowest(tops);
    for (std::size_t i = 0; i < v.size(); ++i)
        filter_list(v[i], [&](Cand const& c) {
            auto it = info.find(c.word);
            return it != info.end() && contradicts(it->second.mean, boxes[i].y, mean);
        });
}
static constexpr unsigned no_font = ~0u;
inline unsigned filter_fonts(std::vector<Cands>& v) {
    std::map<unsigned, unsigned> votes;
    for (auto& l : v) if (l.size() == 1) ++votes[l[0].font];
    if (votes.empty()) return no_font;
    unsigned font = 0, n = 0;
    for (auto& e : votes) if (e.second > n) { n = e.second; font = e.first; }
    if (votes.size() == 1 || n >= v.size() / 2) {
        for (auto& l : v) if (l.size() >= 2) {
            Cand c = l[0];
            for (auto& k : l) if (k.font == font) { c = k; break; }
            l = {c};
        }
    }
    return font;
}
/// first choice in candidate order whose concatenation is in the dictionary
inline bool spell_rec(std::set<std::string> const& dict, std::vector<std::vector<std::string>> const& pos, std::size_t i, std::string& acc) {
    if (i == pos.size()) return dict.count(acc) != 0;
    for (auto& c : pos[i]) {
        std::size_t const n = acc.size();
        acc += c;
        // prune: some dictionary word must start with acc
        auto it = dict.lower_bound(acc);
        if (it != dict.end() && it->compare(0, acc.size(), acc) == 0 && spell_rec(dict, pos, i + 1, acc)) return true;
        acc.resize(n);
    }
    return false;
}
inline std::optional<std::string> spell(std::set<std::string> const& dict, std::vector<std::vector<std::string>> const& pos) {
    if (pos.empty() || dict.empty()) return {};
    std::string acc;
    if (spell_rec(dict, pos, 0, acc)) return acc;
    return {};
}
inline bool is_punct(std::string const& w) { return w.size() == 1 && std::string("!#$%&'()*+,-.:;<=>?[]{}").find(w[0]) != std::string::npos; }
struct Text { std::string text; unsigned unknown = 0; };
/// spaces: set of positions before which a space stands
inline Text assemble(std::vector<Cands> const& v, std::set<std::size_t> const& spaces, std::set<std::string> const& dict) {
    Text t;
    std::vector<std::size_t> run;
    auto flush = [&]{
        if (run.empty()) return;
        std::vector<std::vector<std::string>> pos;
        std::string plain;
        for (auto i : run) {
            std::vector<std::string> l;
            for (auto& c : v[i]) l.push_back(c.word);
            pos.push_back(l);
            plain += l[0];
        }
        auto s = spell(dict, pos);
        t.text += s ? *s : plain;
        run.clear();
    };
    for (std::size_t i = 0; i < v.size(); ++i) {
        if (i && spaces.count(i)) { flush(); t.text += ' '; }
        if (v[i].empty()) { flush(); t.text += '?'; ++t.unknown; }
        else if (is_punct(v[i][0].word)) { flush(); t.text += v[i][0].word; }
        else run.push_back(i);
    }
    flush();
    return t;
}

// ---------------------------------------------------------------- UTF-8
inline std::string utf8(std::uint32_t c) {
    std::string s;
    if (c < 0x80) s += char(c);
    else if (c < 0x800) { s += char(0xC0 | c >> 6); s += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += char(0xE0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    else { s += char(0xF0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); }
    return s;
}
inline std::uint32_t packed(std::string const& ch) { std::uint32_t v = 0; for (unsigned char c : ch) v = v << 8 | c; return v; }

}
#endif
