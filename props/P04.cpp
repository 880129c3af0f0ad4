// Line segmentation yields every glyph once, left to right, tightly cropped.
#include "pp.hpp"
#include "ppocr/box_char/box.hpp"
#include "ppocr/box_char/make_box_character.hpp"

namespace pbt {

PropertyInfo const property_info{"P04",
    "random pictures (strokes, noise, frames, bars) and composed lines of glyph-like pictures with 0..6 blank columns and varying vertical offsets, with or without margins; "
    "non-trivial: at least two boxes, or ink in the last column or last row", no_setup};

void property(Source& s, Case& c) {
    ref::Pic p;
    if (s.flip()) p = gen::any_pic(s);
    else {
        static unsigned const caps[4] = {2, 4, 8, 14};
        unsigned const n = unsigned(s.range(1, caps[s.size_class()]));
        std::vector<ref::Pic> g;
        std::vector<unsigned> gap, dy;
        unsigned W = 0, H = 0;
        for (unsigned i = 0; i < n; ++i) {
            g.push_back(gen::glyph_pic(s, 20, 20));
            gap.push_back(unsigned(s.small(0, 6)));
            dy.push_back(unsigned(s.small(0, 5)));
            W += gap[i] + g[i].w;
            H = std::max(H, dy[i] + g[i].h);
        }
        W += unsigned(s.small(0, 4)); H += unsigned(s.small(0, 3));
        p = ref::blank(W, H);
        unsigned x = 0;
        for (unsigned i = 0; i < n; ++i) {
            x += gap[i];
            for (unsigned yy = 0; yy < g[i].h; ++yy) for (unsigned xx = 0; xx < g[i].w; ++xx) if (g[i].ink(xx, yy)) p.at(x + xx, yy + dy[i]) = 'x';
            x += g[i].w;
        }
    }
    c.describe([&](auto& o) { o << ref::show(p, 500); });
    pp::mix(c, p);
    auto const want = ref::segment(p);
    bool last_col = false, last_row = false;
    for (unsigned y = 0; y < p.h; ++y) last_col |= p.ink(p.w - 1, y);
    for (unsigned x = 0; x < p.w; ++x) last_row |= p.ink(x, p.h - 1);
    if (last_col) c.label("ink in last column");
    if (last_row) c.label("ink in last row");
    c.label(want.empty() ? "blank" : want.size() == 1 ? "1 box" : want.size() < 6 ? "2-5 boxes" : "6+ boxes");
    c.nontrivial = want.size() > 1 || last_col || last_row;

    auto const img = pp::image(p);
    std::vector<ref::BoxR> got;
    unsigned x = 0;
    // the search position stays inside the picture: once a box ends at the right edge nothing is left to search
    for (std::size_t k = 0; k <= p.w + 1 && x < p.w; ++k) {
        auto const b = ppocr::make_box_character(img, {x, 0}, img.bounds());
        if (!b) break;
        PBT_REQ(c, got.size() <= p.w, "more boxes than columns");
        ref::BoxR const r{b.x(), b.y(), b.width(), b.height()};
        PBT_REQ(c, b.left() == r.x && b.top() == r.y && b.right() == r.x + r.w - 1 && b.bottom() == r.y + r.h - 1 && b.index() == ppocr::Index(r.x, r.y) && b.bounds() == ppocr::Bounds(r.w, r.h),
            "the sides of box " << r << " are " << b.left() << ' ' << b.top() << ' ' << b.right() << ' ' << b.bottom());
        got.push_back(r);
        PBT_REQ(c, r.x >= x && r.x + r.w <= p.w && r.y + r.h <= p.h && r.w && r.h, "box " << r << " leaves the picture or goes back, searching from " << x << " in " << ref::show(p));
        x = r.x + r.w;
    }
    // the way the programs search: until the box is empty, also from the right edge
    {
        auto b = ppocr::make_box_character(img, {0, 0}, img.bounds());
        std::size_t n = 0;
        while (b && n <= p.w) { ++n; b = ppocr::make_box_character(img, {b.x() + b.width(), 0}, img.bounds()); }
        PBT_REQ(c, n == got.size(), "searching until the box is empty finds " << n << " boxes");
    }
    std::ostringstream g, w;
    for (auto& b : got) g << b;
    for (auto& b : want) w << b;
    PBT_REQ(c, g.str() == w.str(), "boxes of " << ref::show(p) << ": got " << g.str() << ", expected " << w.str());
}

}
