// Normalising glyph files merges equal pictures and loses nothing.
#include "pp.hpp"

namespace pbt {

PropertyInfo const property_info{"P12",
    "0..30 glyphs with repeated pictures and labels (rarely thousands of labels for one picture, or pictures of 90000 pixels that differ late), split over 1..4 (now and then up to 140) files in random order, given to the normalisation tool twice with different splits and orders, and once more to its own output; "
    "or a missing or damaged file among good ones; non-trivial: some picture occurs at least twice, or a damaged input", no_setup};

namespace {
using Want = std::map<ref::Pic, std::set<ref::Label>>;
std::string str(Want const& w) {
    std::ostringstream o;
    for (auto& e : w) { o << ref::show(e.first, 80) << ':'; for (auto& l : e.second) o << ' ' << quote(l.word) << '/' << l.font << '/' << l.line; o << "; "; }
    return o.str();
}
}

void property(Source& s, Case& c) {
    auto v = gen::glyphs(s, 30, 4, s.chance(1, 8) ? 0 : 1);
    for (unsigned k = unsigned(s.small(0, 6)); k && !v.empty(); --k) { // more repeats
        ref::Glyph g = s.pick(v);
        if (s.flip()) g.labels = {gen::label(s)};
        v.push_back(g);
    }
    if (!v.empty() && s.chance(1, 400)) { // thousands of labels for one picture
        ref::Glyph g = s.pick(v);
        for (std::uint64_t k = s.range(2, 6); k; --k) {
            g.labels.clear();
            for (std::uint64_t n = s.range(900, 6000), i = 0, step = s.range(1, 9), at = s.u(20000); i < n; ++i, at += step) g.labels.push_back({"w" + std::to_string(at % 7001), "f" + std::to_string(at % 13), unsigned(at % 3)});
            v.push_back(g);
        }
        c.label("thousands of labels");
    }
    if (s.chance(1, 500)) { // large pictures that differ late, or not at all
        ref::Pic const big = gen::bulk_pic(s, unsigned(s.range(90, 300)), unsigned(s.range(90, 300)));
        for (unsigned k = unsigned(s.range(2, 5)); k; --k) {
            ref::Glyph g{big, {gen::label(s)}};
            if (!s.chance(1, 3)) { auto& q = g.pic.px[g.pic.px.size() - 1 - s.small(0, 200)]; q = q == 'x' ? '-' : 'x'; }
            v.push_back(g);
        }
        c.label("large pictures");
    }
    std::string const dir = scratch_dir() + "/n";
    auto split = [&](std::vector<ref::Glyph> g, std::vector<std::string>& names, bool shuffle) {
        names.clear();
        unsigned const n = unsigned(s.chance(1, 40) ? s.chance(1, 5) ? s.range(41, 140) : s.range(5, 40) : s.range(1, 4));
        std::vector<std::vector<ref::Glyph>> parts(n);
        if (shuffle) for (std::size_t i = g.size(); i > 1; --i) std::swap(g[i - 1], g[s.u(i)]);
        for (auto& e : g) parts[s.u(n)].push_back(e);
        for (unsigned i = 0; i < n; ++i) {
            names.push_back(dir + std::to_string(i));
            write_file(names.back(), ref::glyph_file(parts[i]));
        }
    };
    std::vector<std::string> names;
    c.mix(ref::glyph_file(v));
    c.describe([&](auto& o) { o << gen::describe(v); });

    if (s.chance(1, 6)) { // an input that cannot be read to its end
        split(v, names, false);
        if (s.chance(1, 3)) { names.insert(names.begin() + long(s.u(names.size() + 1)), scratch_dir() + "/missing"); c.label("missing file"); }
        else {
            std::string bad = ref::glyph_file(v);
            switch (s.u(4)) {
                case 0: bad += "x 3 ---\n1\na b 1\n"; break;
                case 1: bad = "3 y ---\n1\na b 1\n" + bad; break;
                case 2: bad += "1 1 x\none\na b 1\n"; break;
                case 3: bad += "1 1 x\n1\na b -\nzz zz\n"; break;
            }
            write_file(dir + "bad", bad);
            names.insert(names.begin() + long(s.u(names.size() + 1)), dir + "bad");
            c.label("malformed file");
            c.mix(bad);
        }
        auto const r = run_tool("normalize_glyphs", names);
        PBT_REQ(c, r.status != 0, "the tool succeeded on an input it cannot read; it printed " << quote(r.out));
        c.nontrivial = true;
        return;
    }

    Want want;
    for (auto& g : v) { auto& l = want[g.pic]; l.insert(g.labels.begin(), g.labels.end()); }
    c.nontrivial = want.size() < v.size();
    c.label(v.empty() ? "empty" : want.size() < v.size() ? "repeats" : "no repeats");
    std::string first;
    for (unsigned round = 0; round < 3; ++round) {
        if (round < 2) split(v, names, round == 1);
        else { write_file(dir + "again", first); names = {dir + "again"}; }
        auto const r = run_tool("normalize_glyphs", names);
        PBT_REQ(c, r.status == 0, "status " << r.status << " " << r.err.substr(0, 2000));
        auto const p = ref::parse_glyphs(r.out);
        PBT_REQ(c, p.ok, "output is not a glyph file: " << quote(r.out, 1000));
        Want got;
        ref::Pic const* last = nullptr;
        for (auto& g : p.v) {
            PBT_REQ(c, !last || *last < g.pic, "pictures are not in order or repeated: " << ref::show(g.pic));
            last = &g.pic;
            got[g.pic].insert(g.labels.begin(), g.labels.end());
        }
        PBT_REQ(c, got == want, "round " << round << ": got " << str(got) << " expected " << str(want));
        if (round == 0) first = r.out;
    }
}

}
