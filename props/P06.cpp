// Balance features equal their definitions on every glyph picture.
#include "pp_features.hpp"

namespace pbt {

PropertyInfo const property_info{"P06",
    "a random picture (1x1 up to about 900 columns or rows, some of 140000 or of 45 million pixels), its quarter turn and its upside-down picture; non-trivial: ink and background present and at least 2 rows", no_setup};

/// more pixels than a hundredth of what 32 bits count: upper or lower rows of ink
static void huge(Source& s, Case& c) {
    unsigned const w = unsigned(s.range(6700, 6900)), h = w + unsigned(s.range(0, 300));
    bool const upper = s.flip();
    c.label("huge"); c.nontrivial = true; c.mix(w); c.mix(h); c.mix(upper);
    c.describe([&](auto& o) { o << w << 'x' << h << ", ink in the " << (upper ? "upper" : "lower") << " half"; });
    std::size_t const n = std::size_t(w) * h, half = std::size_t(w) * (h / 2);
    std::unique_ptr<ppocr::Pixel[]> px(new ppocr::Pixel[n]);
    std::fill_n(px.get(), n, '-');
    std::fill_n(upper ? px.get() : px.get() + (n - half), half, 'x');
    ppocr::Image const img(ppocr::Bounds(w, h), std::move(px)), none;
    auto eq = [&](char const* what, unsigned got, unsigned max) { PBT_REQ(c, got == (upper ? max : 0), what << " of a picture of " << w << 'x' << h << " with ink in its " << (upper ? "upper" : "lower") << " half: got " << got); };
    using namespace pp;
    eq("direction", one<N<st::hdirection>>(img, none), 200);
    eq("absolute direction", one<N<st::hdirection2>>(img, none), 100);
    eq("gravity", one<N<st::hgravity>>(img, none), 200);
    eq("absolute gravity", one<N<st::hgravity2>>(img, none), 100);
    eq("diagonal direction", one<N<st::dvdirection>>(img, none), 200);
    eq("diagonal gravity", one<N<st::dvgravity>>(img, none), 200);
    eq("absolute diagonal direction", one<N<st::dvdirection2>>(img, none), 100);
    eq("absolute diagonal gravity", one<N<st::dvgravity2>>(img, none), 100);
}

void property(Source& s, Case& c) {
    if (s.chance(1, 100000)) return huge(s, c);
    ref::Pic const p = s.chance(1, 3) ? gen::glyph_pic(s) : gen::any_pic(s);
    c.describe([&](auto& o) { o << ref::show(p, 300); });
    pp::mix(c, p);
    c.nontrivial = gen::has_ink(p) && gen::has_background(p) && p.h > 1;
    c.label(p.h == 1 || p.w == 1 ? "one row or column" : p.h % 2 ? "odd height" : "even height");
    auto values = [&](ref::Pic const& a) {
        auto const img = pp::image(a), img90 = pp::image(ref::turn(a));
        std::array<unsigned, ref::num_count> v{};
        pp::each_numeric([&](unsigned i, auto t) { if (i != 2 && i != 3 && i != 14 && i != 19) v[i] = pp::one<typename decltype(t)::type>(img, img90); });
        return v;
    };
    auto const got = values(p);
    auto const want = ref::features(p);
    for (unsigned i = 0; i < ref::num_count; ++i) {
        if (i == 2 || i == 3 || i == 14 || i == 19) continue;
        PBT_REQ(c, got[i] == want.num[i] && got[i] <= ref::num_range(i), ref::num_name(i) << " of " << ref::show(p) << ": got " << got[i] << ", expected " << want.num[i]);
    }
    // upside down: relative = 100 + d, absolute = 50 + d/2 with d negated, up to rounding down
    auto const down = values(ref::flip_v(p));
    bool const ink_h = ref::direction(p).top + ref::direction(p).bottom > 0;
    (void)ink_h;
    for (unsigned i : {6u, 10u, 15u, 17u}) {
        unsigned const sum = got[i] + down[i];
        PBT_REQ(c, sum == 200 || sum == 199, ref::num_name(i) << " of " << ref::show(p) << " and of it upside down: " << got[i] << " + " << down[i]);
    }
    for (unsigned i : {8u, 12u}) {
        unsigned const sum = got[i] + down[i];
        PBT_REQ(c, sum == 100 || sum == 99, ref::num_name(i) << " of " << ref::show(p) << " and of it upside down: " << got[i] << " + " << down[i]);
    }
    // column-wise variants are the row-wise ones of the turned picture
    auto const turned = values(ref::turn(p));
    unsigned const pair[][2] = {{7, 6}, {9, 8}, {11, 10}, {13, 12}, {16, 15}, {18, 17}, {1, 4}, {0, 5}};
    for (auto& e : pair)
        PBT_REQ(c, got[e[0]] == turned[e[1]], ref::num_name(e[0]) << " of " << ref::show(p) << " is " << got[e[0]] << " but " << ref::num_name(e[1]) << " of the turned picture is " << turned[e[1]]);
}

}
