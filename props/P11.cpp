// Feature data files survive being written and read back.
#include "pp_features.hpp"

namespace pbt {

PropertyInfo const property_info{"P11",
    "the feature table of 0..20 (now and then up to 67000) random glyph pictures, written, loaded, compared value by value, written again and used for comparisons; non-trivial: at least one picture", no_setup};

void property(Source& s, Case& c) {
    static unsigned const caps[4] = {2, 4, 10, 20};
    unsigned n = unsigned(s.range(0, caps[s.size_class()]));
    std::vector<ref::Pic> v;
    if (s.chance(1, 28000)) { for (auto& g : gen::many_glyphs(s, unsigned(s.range(65530, 67000)), 1)) v.push_back(g.pic); n = unsigned(v.size()); }
    else if (s.chance(1, 600)) { for (auto& g : gen::many_glyphs(s, gen::huge(s, 600), 1)) v.push_back(g.pic); n = unsigned(v.size()); }
    else
    for (unsigned i = 0; i < n; ++i) v.push_back(s.chance(1, 300) ? gen::big_pic(s) : i && s.chance(1, 3) ? gen::mutate(s, s.pick(v)) : s.flip() ? gen::glyph_pic(s, 40, 40) : gen::any_pic(s, 60, 60));
    for (auto& p : v) pp::mix(c, p);
    c.describe([&](auto& o) { for (auto& p : v) o << ref::show(p, 80) << ' '; });
    c.nontrivial = n > 0;
    c.label(n == 0 ? "empty" : n < 4 ? "1-3" : "4+");

    ppocr::PpOcrDatas d;
    std::vector<ref::Features> f;
    for (auto& p : v) { d.load(pp::image(p)); f.push_back(pp::row(d, f.size())); }
    std::ostringstream o;
    o << d;
    std::string const file = o.str();
    ppocr::PpOcrDatas r;
    if (s.chance(1, 3)) for (unsigned k = unsigned(s.range(1, 3)); k; --k) r.load(pp::image({2, 2, "x--x"})); // whatever was there is replaced
    std::istringstream i(file);
    i >> r;
    PBT_REQ(c, !i.fail() || i.eof(), "loading failed on " << quote(file));
    pp::table_sizes(c, r, n);
    for (unsigned k = 0; k < n; ++k) pp::same_features(c, pp::row(r, k), f[k], "entry " + std::to_string(k) + " read back");
    std::ostringstream o2;
    o2 << r;
    PBT_REQ(c, o2.str() == file, "written again: " << quote(o2.str()) << " instead of " << quote(file));
    // same comparisons
    unsigned const tries = n ? unsigned(s.range(1, 4)) : 0;
    for (unsigned k = 0; k < tries; ++k) {
        std::size_t const x = s.u(n), y = s.u(n);
        PBT_REQ(c, r.eq(x, y) == d.eq(x, y) && r.lt(x, y) == d.lt(x, y), "comparing entries " << x << " and " << y);
        PBT_REQ(c, d.eq(x, y) == (f[x] == f[y]), "equality of entries " << x << " and " << y);
        pp::each_numeric([&](unsigned, auto t) {
            using S = typename decltype(t)::type;
            auto const& q = d.get<S>()[y];
            PBT_REQ(c, r.get<S>().dist_with(x, q) == d.get<S>().dist_with(x, q), "similarity after loading");
            PBT_REQ(c, r.get<S>().in_dist_with(x, q, 10) == d.get<S>().in_dist_with(x, q, 10), "tolerance test after loading");
        });
        using Z = pp::N<pp::st::zone>;
        using Q = pp::N<pp::st::proportionality_zone>;
        PBT_REQ(c, r.get<Z>().dist_with(x, d.get<Z>()[y]) == d.get<Z>().dist_with(x, d.get<Z>()[y]), "zone similarity after loading");
        PBT_REQ(c, r.get<Q>().dist_with(x, d.get<Q>()[y]) == d.get<Q>().dist_with(x, d.get<Q>()[y]), "zone share similarity after loading");
    }
}

}
