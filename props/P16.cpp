// Recognition of any picture equals an exhaustive comparison with every glyph.
#include "pp_recog.hpp"

namespace pbt {

PropertyInfo const property_info{"P16",
    "1..40 (rarely hundreds, or 65530..70000) learned glyphs, some with hundreds of labels, now and then hundreds of one word of which one or two have the regions of the picture, with either their real features or feature rows placed around those of the pictures to recognise (each value equal, within, at, or just beyond the tolerance), shared words and equal label lists, "
    "and 1..12 recognitions with shared scratch state compared with an exhaustive scan; non-trivial: at least one candidate is expected", no_setup};

namespace {
ref::Features around(Source& s, ref::Features f) {
    unsigned const m = unsigned(s.weighted({3, 3, 2, 1}));
    // how many numeric features move, and how far
    unsigned const moves = m == 0 ? unsigned(s.range(0, 2)) : m == 1 ? unsigned(s.range(1, 6)) : 20;
    for (unsigned k = 0; k < moves; ++k) {
        unsigned const i = m >= 2 ? k : unsigned(s.u(ref::num_count));
        unsigned const range = ref::num_range(i), tol = range / 10;
        unsigned d;
        switch (s.weighted({5, 2, 2, 1})) {
            case 0: d = unsigned(s.range(0, m >= 2 ? 4 : tol)); break;
            case 1: d = tol; break;
            case 2: d = m == 3 ? tol + 1 : tol - 1; break;
            default: d = m == 3 ? unsigned(s.range(0, range)) : unsigned(s.range(0, tol)); break;
        }
        if (m < 2 && s.chance(1, 12)) d = tol + 1;
        f.num[i] = s.flip() ? (f.num[i] + d > range ? range : f.num[i] + d) : (f.num[i] < d ? 0 : f.num[i] - d);
    }
    if (s.chance(1, 8)) f.bar[s.u(2)] += 1;
    if (s.chance(1, 3)) for (unsigned k = unsigned(s.range(1, 6)); k; --k) { auto& a = f.alt[s.u(7)]; if (s.flip()) ++a.count; else a.start = !a.start; }
    if (s.chance(1, 3)) for (unsigned k = unsigned(s.range(1, 6)); k; --k) ++f.zones[s.u(7)];
    if (s.chance(1, 3)) {
        switch (s.u(4)) {
            case 0: f.shares.push_back(unsigned(s.range(0, 100))); break;
            case 1: if (!f.shares.empty()) f.shares.pop_back(); break;
            default: for (auto& x : f.shares) x = unsigned(s.range(0, 100)); break;
        }
        std::sort(f.shares.begin(), f.shares.end());
    }
    return f;
}
}

void property(Source& s, Case& c) {
    std::vector<ref::Pic> bases;
    auto g = pp::learned_set(s, bases, true);
    bool const synthetic = s.chance(2, 3);
    std::vector<ref::Features> f;
    std::vector<ref::Features> base_f;
    for (auto& b : bases) base_f.push_back(ref::features(b));
    bool const flat = g.size() > 100 && s.flip(); // many candidates
    for (auto& x : g) {
        if (flat && synthetic) { f.push_back(s.pick(base_f)); auto& v = f.back().num[s.u(ref::num_count)]; if (v && s.flip()) --v; }
        else f.push_back(synthetic ? around(s, s.pick(base_f)) : ref::features(x.pic));
    }
    if (synthetic && g.size() < 100 && s.chance(1, 120)) { // one word with many glyphs, of which few have the regions of the picture
        std::size_t const b = s.u(bases.size());
        unsigned const m = gen::huge(s, 300), at = unsigned(m - 1 - s.small(0, m - 1));
        bool const twin = s.flip();
        for (unsigned i = 0; i < m; ++i) {
            g.push_back({bases[b], {{"many", "f" + std::to_string(s.chance(1, 4) ? 1 : i % 3), i % 5}}});
            ref::Features x = base_f[b];
            auto& v = x.num[i % ref::num_count];
            if (v) --v; else ++v;
            if (i != at && !(twin && i == at / 2)) for (auto& z : x.zones) ++z;
            f.push_back(x);
        }
        c.label("late twin");
    }
    c.mix(ref::glyph_file(g)); c.mix(ref::feature_table(f));
    c.describe([&](auto& o) { o << gen::describe(g) << (synthetic ? " synthetic features\n" + ref::feature_table(f) : std::string()); });
    pp::World w(g, f, synthetic);
    unsigned const n = unsigned(s.range(1, 12));
    bool many = false, complex = false, perfect = false;
    for (unsigned k = 0; k < n; ++k) {
        ref::Pic q;
        switch (s.weighted({4, 2, 2})) {
            case 0: q = s.pick(bases); break;
            case 1: q = gen::mutate(s, s.pick(bases), 4); break;
            default: q = synthetic ? s.pick(bases) : gen::mutate(s, s.pick(g).pic, 2); break;
        }
        pp::mix(c, q);
        auto const want = ref::recognise(f, w.words, ref::features(q));
        auto const got = w.recognise(q);
        auto const e = ref::check_recognition(want, got);
        PBT_REQ(c, e.empty(), "picture " << ref::show(q, 300) << ": " << e);
        if (!want.groups.empty()) { c.nontrivial = true; (want.perfect ? perfect : complex) = true; if (want.groups.size() > 1) many = true; }
    }
    c.label(synthetic ? "synthetic features" : "real features");
    if (many) c.label("several candidates");
    if (perfect) c.label("perfect match");
    if (complex) c.label("structural stage decides");
}

}
