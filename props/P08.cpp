// Features of a picture never depend on what was processed before.
#include "pp_recog.hpp"

namespace pbt {

PropertyInfo const property_info{"P08",
    "a history of 1..12 pictures of mixed sizes (repeats, growing and shrinking) put through one feature table, one shared scratch state, per-feature scratch states kept across pictures, "
    "one reused picture buffer (with or without asking for the turned picture), and a recogniser that learned them, compared with a fresh one after each picture; non-trivial: at least two different pictures", no_setup};

void property(Source& s, Case& c) {
    static unsigned const lens[4] = {2, 4, 8, 12};
    unsigned const n = unsigned(s.range(1, lens[s.size_class()]));
    std::vector<ref::Pic> v;
    for (unsigned i = 0; i < n; ++i) {
        unsigned const k = i ? s.weighted({4, 1, 2}) : 0;
        if (k == 1) v.push_back(s.pick(v));
        else if (k == 2) v.push_back(gen::mutate(s, s.pick(v)));
        else v.push_back(s.flip() ? gen::glyph_pic(s, 30, 30) : gen::any_pic(s, 60, 60));
    }
    bool differ = false;
    for (auto& p : v) { pp::mix(c, p); differ |= p != v[0]; }
    c.nontrivial = differ;
    c.label(n == 1 ? "1 picture" : n < 5 ? "2-4 pictures" : "5+ pictures");
    c.describe([&](auto& o) { for (auto& p : v) o << ref::show(p, 80) << ' '; });

    std::vector<ref::Features> fresh;
    for (auto& p : v) {
        auto const img = pp::image(p), img90 = img.rotate90();
        fresh.push_back(pp::separate(img, img90));
    }
    // learning path: one table
    ppocr::PpOcrDatas table;
    for (std::size_t i = 0; i < v.size(); ++i) {
        table.load(pp::image(v[i]));
        pp::table_sizes(c, table, i + 1);
    }
    for (std::size_t i = 0; i < v.size(); ++i) pp::same_features(c, pp::row(table, i), fresh[i], "table entry " + std::to_string(i) + ", " + ref::show(v[i]));
    // recognition path: one shared scratch state, one reused buffer
    ppocr::PpOcrDataCtxs ctx;
    ppocr::ocr2::ImageContext buf;
    for (std::size_t i = 0; i < v.size(); ++i) {
        ref::Pic const& p = v[i];
        ppocr::Image const& img = buf.img({p.w, p.h}, [&](ppocr::Pixel* d) { std::memcpy(d, p.px.data(), p.px.size()); });
        pp::same_pic(c, img, p, "reused buffer");
        if (s.chance(1, 5)) continue; // a picture that was seen before is not turned and computed again
        ppocr::Image const& img90 = buf.img90();
        pp::same_pic(c, img, p, "reused buffer after turning");
        pp::same_pic(c, img90, ref::turn(p), "turned reused buffer");
        ctx.reset();
        pp::same_features(c, pp::shared(img, img90, ctx), fresh[i], "recognition path, picture " + std::to_string(i) + ", " + ref::show(p));
        // asking again without forgetting gives the same values
        pp::same_features(c, pp::shared(img, img90, ctx), fresh[i], "asked twice, picture " + std::to_string(i));
        if (s.chance(1, 4)) { ppocr::Image const& again = buf.img90(); pp::same_pic(c, again, ref::turn(p), "turned reused buffer, again"); }
    }
    // per-feature scratch state kept across pictures
    {
        std::vector<ref::Features> kept(v.size());
        auto run = [&](auto t, auto set) {
            using S = typename decltype(t)::type;
            typename S::ctx_type k;
            for (std::size_t i = 0; i < v.size(); ++i) {
                auto const img = pp::image(v[i]), img90 = img.rotate90();
                k.reset();
                set(kept[i], S::load(img, img90, k));
            }
        };
        using namespace pp;
        each_numeric([&](unsigned i, auto t) { run(t, [i](ref::Features& f, unsigned x) { f.num[i] = x; }); });
        run(tag<N<st::hbar>>{}, [](auto& f, unsigned x) { f.bar[0] = x; });
        run(tag<R<st::hbar>>{}, [](auto& f, unsigned x) { f.bar[1] = x; });
        run(tag<N<st::alternations>>{}, [](auto& f, auto const& x) { f.alt = alts(x); });
        run(tag<N<st::zone>>{}, [](auto& f, auto const& x) { f.zones = zone(x); });
        run(tag<N<st::proportionality_zone>>{}, [](auto& f, auto const& x) { f.shares = x; });
        for (std::size_t i = 0; i < v.size(); ++i) same_features(c, kept[i], fresh[i], "kept scratch state, picture " + std::to_string(i) + ", " + ref::show(v[i]));
    }
    // the recogniser answers each picture as a recogniser that has seen nothing does
    if (s.chance(1, 3)) {
        std::vector<ref::Glyph> g;
        std::vector<ref::Features> f;
        static char const* const pool[] = {"a", "b", "c", "d"};
        for (auto& p : v) for (unsigned k = s.chance(1, 3) ? 2 : 1; k; --k) { g.push_back({k == 1 ? p : gen::mutate(s, p), {{pool[s.u(4)], "f", 0}}}); f.push_back(ref::features(g.back().pic)); }
        pp::World w(g, f, s.flip());
        bool some = false;
        for (unsigned k = unsigned(s.range(2, 8)); k; --k) {
            ref::Pic const& q = s.flip() ? s.pick(g).pic : s.pick(v);
            auto const got = w.recognise(q);
            pp::World fresh(g, f, true);
            auto const want = fresh.recognise(q);
            some = some || !want.empty();
            PBT_REQ(c, got == want, "after other pictures " << ref::show(q) << " is recognised as glyphs " << pp::str(got) << " instead of " << pp::str(want));
        }
        c.label(some ? "recogniser with a history" : "recogniser with a history, nothing recognised");
    }
    // and the values are the defined ones, independent of any history
    for (std::size_t i = 0; i < v.size(); ++i) pp::same_features(c, fresh[i], ref::features(v[i]), "fresh features of " + ref::show(v[i]));
}

}
