// A learned glyph is always recognised as itself.
#include "pp_recog.hpp"

namespace pbt {

namespace {
/// every numeric similarity is 100 %
bool perfect(ref::Features const& a, ref::Features const& b) {
    for (unsigned k = 0; k < ref::num_count; ++k) if (ref::sim_num(a.num[k], b.num[k], ref::num_range(k)) != 100) return false;
    return true;
}
}

PropertyInfo const property_info{"P15",
    "1..40 learned glyphs (1..3 labels over 10 words, equal label lists, equal and nearly equal pictures of 1..24 pixels a side, real letters) and up to 24 recognitions of members and other pictures in random order with shared scratch state; "
    "non-trivial: at least two glyphs and a member is recognised", no_setup};

void property(Source& s, Case& c) {
    std::vector<ref::Pic> bases;
    auto const g = pp::learned_set(s, bases);
    std::vector<ref::Features> f;
    for (auto& x : g) f.push_back(ref::features(x.pic));
    c.mix(ref::glyph_file(g));
    c.describe([&](auto& o) { o << gen::describe(g); });
    c.nontrivial = g.size() > 1;
    pp::World w(g, f, s.flip());
    unsigned const n = unsigned(s.range(1, 24));
    std::map<std::size_t, std::vector<std::size_t>> seen;
    for (unsigned k = 0; k < n; ++k) {
        if (s.chance(1, 4)) { w.recognise(gen::mutate(s, s.pick(bases), 6)); continue; }
        std::size_t const i = s.u(g.size());
        auto const r = w.recognise(g[i].pic);
        c.mix(i);
        PBT_REQ(c, !r.empty(), "glyph " << i << " is not recognised at all");
        std::set<std::vector<std::string>> groups;
        bool own = false;
        for (auto j : r) {
            own = own || w.words[j] == w.words[i];
            PBT_REQ(c, perfect(f[j], f[i]), "glyph " << i << " gives also glyph " << j << ", which does not match perfectly; got " << pp::str(r));
            PBT_REQ(c, groups.insert(w.words[j]).second, "label words of glyph " << j << " are returned twice; got " << pp::str(r));
        }
        PBT_REQ(c, own, "the labels of glyph " << i << " are not returned; got " << pp::str(r));
        for (std::size_t j = 0; j < g.size(); ++j)
            PBT_REQ(c, !perfect(f[j], f[i]) || groups.count(w.words[j]), "glyph " << j << " matches glyph " << i << " perfectly but its labels are not returned");
        auto it = seen.emplace(i, r).first;
        PBT_REQ(c, it->second == r, "glyph " << i << " is recognised differently the second time: " << pp::str(r) << " instead of " << pp::str(it->second));
        if (k % 8 == 0) {
            pp::World fresh(g, f, false);
            auto const q = fresh.recognise(g[i].pic);
            PBT_REQ(c, q == r, "glyph " << i << " is recognised differently by a fresh recogniser: " << pp::str(q) << " instead of " << pp::str(r));
        }
        c.label(r.size() > 1 ? "several groups" : "one group");
    }
}

}
