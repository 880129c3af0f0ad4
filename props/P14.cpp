// The data writing tool emits one aligned feature entry per glyph.
#include "pp.hpp"

namespace pbt {

PropertyInfo const property_info{"P14",
    "a random glyph file (0..30 glyphs, 0..12 and now and then up to 70000 labels each), the same file with other labels, and a missing or damaged file; non-trivial: at least one glyph or a damaged file", no_setup};

void property(Source& s, Case& c) {
    auto v = gen::glyphs(s, 30, 12, s.chance(1, 6) ? 0 : 1);
    if (s.chance(1, 1200) && !v.empty()) { auto& l = s.pick_mut(v).labels; gen::Bulk b(s); for (std::size_t n = gen::huge(s, 70000); n; --n) l.push_back({"w" + std::to_string(b.u(n)), "f", unsigned(b.next())}); }
    if (s.chance(1, 3) && !v.empty()) s.pick_mut(v).pic = gen::any_pic(s, 60, 60);
    c.mix(ref::glyph_file(v));
    c.describe([&](auto& o) { o << gen::describe(v); });
    std::string const path = scratch_dir() + "/g";
    if (s.chance(1, 6)) {
        std::string bad = ref::glyph_file(v);
        if (s.chance(1, 4)) { c.label("missing"); auto const r = run_tool("write_datas", {scratch_dir() + "/missing"}); PBT_REQ(c, r.status != 0, "success on a missing file"); c.nontrivial = true; return; }
        switch (s.u(3)) {
            case 0: bad += "x 3 ---\n1\na b 1\n"; break;
            case 1: bad = "3 y ---\n1\na b 1\n" + bad; break;
            case 2: bad += "1 1 x\none\na b 1\n"; break;
        }
        c.mix(bad);
        write_file(path, bad);
        auto const r = run_tool("write_datas", {path});
        c.label("malformed");
        c.nontrivial = true;
        PBT_REQ(c, r.status != 0, "success on a malformed file; printed " << quote(r.out));
        return;
    }
    c.nontrivial = !v.empty();
    c.label(v.empty() ? "empty" : v.size() < 4 ? "1-3" : "4+");
    std::vector<ref::Features> f;
    for (auto& g : v) f.push_back(ref::features(g.pic));
    std::string const want = ref::feature_table(f);
    for (unsigned round = 0; round < 2; ++round) {
        write_file(path, ref::glyph_file(v));
        auto const r = run_tool("write_datas", {path});
        PBT_REQ(c, r.status == 0, "status " << r.status << " " << r.err.substr(0, 1500));
        PBT_REQ(c, r.out == want, (round ? "with other labels " : "") << "printed " << quote(r.out, 1500) << " instead of " << quote(want, 1500) << " for " << gen::describe(v));
        for (auto& g : v) { g.labels.clear(); for (unsigned k = unsigned(s.small(1, 9)); k; --k) g.labels.push_back(gen::label(s)); }
    }
}

}
