// A text line composed of glyph pictures, for the properties of the command line tools.
#ifndef VERIF_GEN_LINE_HPP
#define VERIF_GEN_LINE_HPP

#include "gen.hpp"

namespace gen {

/// a picture the segmentation keeps in one piece: no two neighbouring columns without touching ink, tight on all sides
inline Pic connected(Source& s, unsigned cap_w, unsigned cap_h) {
    Pic p = tighten(glyph_pic(s, cap_w, cap_h));
    auto boxes = ref::segment(p);
    // keep one box
    auto const b = boxes[boxes.size() > 1 ? s.u(boxes.size()) : 0];
    return tighten(ref::crop(p, b.x, b.y, b.w, b.h));
}
struct LineItem { std::size_t glyph; unsigned gap, dy; };
/// gap blank columns before each picture
inline Pic compose(std::vector<Pic> const& g, std::vector<LineItem> const& items, unsigned right, unsigned below) {
    unsigned W = right, H = below;
    for (auto& i : items) { W += i.gap + g[i.glyph].w; H = std::max(H, i.dy + g[i.glyph].h + below); }
    W = std::max(W, 1u); H = std::max(H, 1u);
    Pic p = ref::blank(W, H);
    unsigned x = 0;
    for (auto& i : items) {
        x += i.gap;
        Pic const& q = g[i.glyph];
        for (unsigned yy = 0; yy < q.h; ++yy) for (unsigned xx = 0; xx < q.w; ++xx) if (q.ink(xx, yy)) p.at(x + xx, i.dy + yy) = 'x';
        x += q.w;
    }
    return p;
}
/// any encoding of a picture
inline std::string encode(Source& s, Pic const& p) {
    switch (s.u(4)) {
        case 0: return ref::encode_p4(p);
        case 1: return ref::encode_p6(p);
        case 2: return ref::encode_p1(p, '1');
        default: return ref::encode_p1(p, '3');
    }
}
}
#endif
