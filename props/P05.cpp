// Ink-mass features equal their definitions on every glyph picture.
#include "pp_features.hpp"

namespace pbt {

PropertyInfo const property_info{"P05",
    "a random picture (1x1 up to about 900 columns or rows, some of 140000 or of 43 million pixels: strokes, frames, bars, noise, checkerboards, gradients, shipped glyphs with pixel changes) and its quarter turn; "
    "non-trivial: ink and background present", no_setup};

/// more pixels than a hundredth of what 32 bits count: ink except for some pixels, or the other way round
static void huge(Source& s, Case& c) {
    unsigned const k = unsigned(s.u(4)), l = unsigned(s.range(43000000, 46000000)), m = unsigned(s.range(6560, 6700));
    unsigned const w = k == 0 ? l : k == 1 ? 1 : m, h = k == 0 ? 1 : k == 1 ? l : m;
    bool const ink = s.chance(3, 4);
    std::size_t const n = std::size_t(w) * h, holes = std::size_t(s.range(0, 1)) * n / 100 * std::size_t(s.range(1, 60));
    c.label("huge"); c.nontrivial = true; c.mix(w); c.mix(h); c.mix(holes);
    c.describe([&](auto& o) { o << w << 'x' << h << (ink ? " ink" : " background") << " and " << holes << " pixels of the other kind from the start"; });
    std::unique_ptr<ppocr::Pixel[]> px(new ppocr::Pixel[n]);
    std::fill_n(px.get(), holes, ink ? '-' : 'x');
    std::fill_n(px.get() + holes, n - holes, ink ? 'x' : '-');
    ppocr::Image const img(ppocr::Bounds(w, h), std::move(px)), none;
    using namespace pp;
    std::uint64_t const inked = ink ? n - holes : holes;
    auto eq = [&](char const* what, unsigned got, std::uint64_t want) { PBT_REQ(c, got == want, what << " of a picture of " << w << 'x' << h << " with " << inked << " pixels of ink: got " << got << ", expected " << want); };
    eq("density", one<N<st::density>>(img, none), inked * 100 / n);
    eq("proportion", one<N<st::proportionality>>(img, none), std::uint64_t(w) * 100 / (std::uint64_t(w) + h));
    if (w < 3 || h < 3) eq("band density", one<N<st::dzdensity>>(img, none), 0);
    else if (!holes) eq("band density", one<N<st::dzdensity>>(img, none), ink ? 100 : 0);
}

void property(Source& s, Case& c) {
    if (s.chance(1, 200000)) return huge(s, c);
    ref::Pic const p = s.chance(1, 3) ? gen::glyph_pic(s) : gen::any_pic(s);
    c.describe([&](auto& o) { o << ref::show(p, 300); });
    pp::mix(c, p);
    c.nontrivial = gen::has_ink(p) && gen::has_background(p);
    c.label(p.w < 3 || p.h < 3 ? "side under 3" : p.w * p.h > 2000 ? "large" : "normal");
    ref::Pic const q = ref::turn(p);
    auto const img = pp::image(p), img90 = pp::image(q);
    using namespace pp;
    auto eq = [&](char const* what, unsigned got, unsigned want, unsigned max) {
        PBT_REQ(c, got == want && got <= max, what << " of " << ref::show(p) << ": got " << got << ", expected " << want);
    };
    eq("density", one<N<st::density>>(img, img90), ref::density(p), 100);
    eq("proportion", one<N<st::proportionality>>(img, img90), ref::proportion(p), 100);
    eq("bars", one<N<st::hbar>>(img, img90), ref::bars(p), (p.h + 1) / 2);
    eq("bars of the turned picture", one<R<st::hbar>>(img, img90), ref::bars(q), (p.w + 1) / 2);
    eq("band density", one<N<st::dzdensity>>(img, img90), ref::band_density(p), 100);
    eq("band density of the turned picture", one<R<st::dzdensity>>(img, img90), ref::band_density(q), 100);
    // the column-wise variants are the row-wise ones of the turned picture, turned by the library itself
    auto const r = img.rotate90(), rr = r.rotate90();
    eq("bars via turning", one<N<st::hbar>>(r, rr), one<R<st::hbar>>(img, r), (p.w + 1) / 2);
    eq("band density via turning", one<N<st::dzdensity>>(r, rr), one<R<st::dzdensity>>(img, r), 100);
}

}
