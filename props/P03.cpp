// Cropping, rotating, copying, comparing and printing keep every pixel.
#include "pp.hpp"
#include "ppocr/utils/image_compare.hpp"

#include <algorithm>
#include <map>
#include <memory>

namespace pbt {

PropertyInfo const property_info{"P03",
    "a random picture, a random inner rectangle, and a family of pictures derived from it (equal, one pixel changed, turned, cropped, other sizes of the same area); "
    "non-trivial: the picture has ink and background and more than one pixel", no_setup};

void property(Source& s, Case& c) {
    ref::Pic const p = gen::any_pic(s);
    auto const img = pp::image(p);
    unsigned const x = unsigned(s.u(p.w)), y = unsigned(s.u(p.h)), w = unsigned(s.range(1, p.w - x)), h = unsigned(s.range(1, p.h - y));
    c.describe([&](auto& o) { o << ref::show(p, 300) << " crop " << x << ',' << y << ' ' << w << 'x' << h; });
    pp::mix(c, p); c.mix(x); c.mix(y); c.mix(w); c.mix(h);
    c.nontrivial = gen::has_ink(p) && gen::has_background(p);

    auto const sec = img.section({x, y}, {w, h});
    pp::same_pic(c, sec, ref::crop(p, x, y, w, h), "crop");
    // cropping into a caller's buffer writes exactly the rectangle
    {
        std::string buf(std::size_t(w) * h + 2, '#');
        ppocr::section(img, &buf[1], {x, y}, {w, h});
        PBT_REQ(c, buf == "#" + ref::crop(p, x, y, w, h).px + "#", "crop into a buffer gave " << quote(buf));
    }
    ref::Pic const q = ref::turn(p);
    auto const rot = img.rotate90();
    pp::same_pic(c, rot, q, "quarter turn");
    {
        std::string buf(p.px.size() + 2, '#');
        ppocr::rotate90(img, &buf[1]);
        PBT_REQ(c, buf == "#" + q.px + "#", "turn into a buffer gave " << quote(buf));
    }
    auto const r4 = rot.rotate90().rotate90().rotate90();
    pp::same_pic(c, r4, p, "four quarter turns");
    PBT_REQ(c, r4 == img && !(r4 != img), "four quarter turns do not compare equal to the picture");
    auto const copy = img.clone();
    pp::same_pic(c, copy, p, "copy");
    PBT_REQ(c, copy == img && copy.data() != img.data(), "copy is not an equal, separate picture");
    pp::same_pic(c, img, p, "picture after the operations");
    {
        std::ostringstream o; o << img;
        PBT_REQ(c, o.str() == ref::printed(p), "printed " << quote(o.str(), 800) << " instead of " << quote(ref::printed(p), 800));
        // printing twice on one stream
        o << sec;
        PBT_REQ(c, o.str() == ref::printed(p) + ref::printed(ref::crop(p, x, y, w, h)), "second printing on a stream differs");
    }
    {
        std::string z = p.px;
        pp::same_pic(c, ppocr::image_from_string({p.w, p.h}, z.c_str()), p, "picture from text");
    }
    PBT_REQ(c, img.width() == p.w && img.height() == p.h && img.area() == p.w * p.h && img.bounds() == ppocr::Bounds(p.w, p.h), "dimensions");
    for (unsigned k = 0; k < 4; ++k) {
        unsigned const xx = unsigned(s.u(p.w)), yy = unsigned(s.u(p.h));
        PBT_REQ(c, (img[{xx, yy}] == p.px[std::size_t(yy) * p.w + xx]), "pixel access");
    }

    // a family of related pictures
    std::vector<ref::Pic> v{p, q, ref::crop(p, x, y, w, h), p};
    unsigned const n = unsigned(s.range(1, 6));
    for (unsigned k = 0; k < n; ++k) {
        ref::Pic m = s.pick(v);
        switch (s.u(5)) {
            default: { auto& z = m.px[s.u(m.px.size())]; z = z == 'x' ? '-' : 'x'; break; }
            case 2: std::swap(m.w, m.h); break;
            case 3: m.px.back() = m.px.back() == 'x' ? '-' : 'x'; break;
            case 4: m.px[0] = m.px[0] == 'x' ? '-' : 'x'; break;
        }
        v.push_back(m);
    }
    std::vector<ppocr::Image> im;
    for (auto& e : v) im.push_back(pp::image(e));
    std::map<ref::Pic, unsigned> want;
    auto less = [](ppocr::Image const* a, ppocr::Image const* b) { return ppocr::image_compare(*a, *b) < 0; };
    std::map<ppocr::Image const*, unsigned, decltype(less)> got(less);
    std::vector<ppocr::Image const*> order;
    for (std::size_t i = 0; i < v.size(); ++i) {
        for (std::size_t j = 0; j < v.size(); ++j) {
            int const e = v[i] < v[j] ? -1 : v[j] < v[i] ? 1 : 0;
            int const g = ppocr::image_compare(im[i], im[j]);
            PBT_REQ(c, (g < 0 ? -1 : g > 0) == e, "comparing " << v[i] << " with " << v[j] << " gave " << g);
            PBT_REQ(c, (im[i] == im[j]) == (v[i] == v[j]) && (im[i] != im[j]) == (v[i] != v[j]), "equality of " << v[i] << " and " << v[j]);
            PBT_REQ(c, ppocr::image_less()(im[i], im[j]) == (v[i] < v[j]), "order of " << v[i] << " and " << v[j]);
        }
        ++want[v[i]]; ++got[&im[i]]; order.push_back(&im[i]);
    }
    std::sort(order.begin(), order.end(), less);
    std::vector<ref::Pic> sorted = v;
    std::sort(sorted.begin(), sorted.end());
    for (std::size_t i = 0; i < v.size(); ++i) pp::same_pic(c, *order[i], sorted[i], "sorted picture");
    PBT_REQ(c, got.size() == want.size(), "lookup by picture merged or lost pictures");
    for (auto& e : got) PBT_REQ(c, want[pp::pic(*e.first)] == e.second, "count of equal pictures");
}

}
