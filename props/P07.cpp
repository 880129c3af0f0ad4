// Structure features equal their definitions on every glyph picture.
#include "pp_features.hpp"

namespace pbt {

PropertyInfo const property_info{"P07",
    "a random picture (1x1 up to about 900 columns or rows, some of 140000 or of 44 million pixels; frames, mazes of strokes, noise, checkerboards, shipped glyphs) and its quarter turn; "
    "non-trivial: at least two separate background regions, or ink in a scanned line", no_setup};

/// a row or column with more pixels than a hundredth of what 32 bits count, split by one pixel of ink
static void huge(Source& s, Case& c) {
    unsigned const l = unsigned(s.range(43500000, 44500000)), at = unsigned(s.chance(1, 3) ? s.u(l / 100) : s.u(l));
    bool const row = s.flip();
    c.label("huge"); c.nontrivial = true; c.mix(l); c.mix(at); c.mix(row);
    c.describe([&](auto& o) { o << (row ? "row" : "column") << " of " << l << " pixels of background with ink at " << at; });
    std::unique_ptr<ppocr::Pixel[]> px(new ppocr::Pixel[l]);
    std::fill_n(px.get(), l, '-');
    px[at] = 'x';
    ppocr::Image const img(row ? ppocr::Bounds(l, 1) : ppocr::Bounds(1, l), std::move(px)), none;
    // a column's upper part touches the top with one pixel, the lower one is counted on the right
    std::uint64_t const a = row ? at : at > 0, b = l - 1 - at, sum = a + b;
    std::vector<unsigned> want;
    if (a) want.push_back(unsigned(a * 100 / sum));
    if (b) want.push_back(unsigned(b * 100 / sum));
    std::sort(want.begin(), want.end());
    auto const got = pp::one<pp::N<pp::st::proportionality_zone>>(img, none);
    PBT_REQ(c, got == want, "shares of the regions of a " << (row ? "row" : "column") << " of " << l << " pixels with ink at " << at << ": got " << (got.empty() ? 0 : got[0]) << ", ... expected " << want[0] << ", ...");
}

void property(Source& s, Case& c) {
    if (s.chance(1, 150000)) return huge(s, c);
    ref::Pic p = s.chance(1, 3) ? gen::glyph_pic(s) : gen::any_pic(s);
    if (s.chance(1, 6)) { // spiral-like region: walls with alternating gaps
        for (unsigned y = 1; y < p.h; y += 2) {
            for (unsigned x = 0; x < p.w; ++x) p.at(x, y) = 'x';
            p.at(y / 2 % 2 ? 0 : p.w - 1, y) = '-';
        }
        if (s.flip()) p = ref::turn(p);
    }
    c.describe([&](auto& o) { o << ref::show(p, 300); });
    pp::mix(c, p);
    auto const img = pp::image(p), img90 = pp::image(ref::turn(p));
    using namespace pp;
    auto const reg = ref::regions(p);
    c.nontrivial = reg.size() > 1 || gen::has_ink(p);
    c.label(reg.empty() ? "no background" : reg.size() == 1 ? "1 region" : reg.size() < 6 ? "2-5 regions" : "6+ regions");

    ref::Features want, got;
    want.alt = ref::alternation(p);
    want.zones = ref::zone(p);
    want.shares = ref::zone_shares(p);
    if (want.zones[6]) c.label("enclosed region");
    got.alt = alts(one<N<st::alternations>>(img, img90));
    got.zones = zone(one<N<st::zone>>(img, img90));
    got.shares = one<N<st::proportionality_zone>>(img, img90);
    same_features(c, got, want, "structure of " + ref::show(p));
    unsigned total = 0;
    for (auto v : got.shares) total += v;
    PBT_REQ(c, total <= 100 && (got.shares.empty() || total + got.shares.size() > 100), "shares do not add up to 100");
}

}
