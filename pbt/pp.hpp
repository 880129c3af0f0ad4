// Adapters between the reference pictures and the library's types.
#ifndef VERIF_PP_HPP
#define VERIF_PP_HPP

#include "pbt.hpp"
#include "ref.hpp"
#include "gen.hpp"

#include "ppocr/image/image.hpp"
#include "ppocr/image/image_from_string.hpp"

#include <cstring>

namespace pp {

inline ppocr::Image image(ref::Pic const& p) {
    ppocr::PtrImageData d(new ppocr::Pixel[p.px.size()]);
    std::memcpy(d.get(), p.px.data(), p.px.size());
    return ppocr::Image(ppocr::Bounds(p.w, p.h), std::move(d));
}
inline ref::Pic pic(ppocr::Image const& i) {
    ref::Pic p{i.width(), i.height(), {}};
    if (i.data()) p.px.assign(i.data(), std::size_t(i.width()) * i.height());
    return p;
}
inline void same_pic(pbt::Case& c, ppocr::Image const& got, ref::Pic const& want, char const* what) {
    ++c.checks;
    ref::Pic const g = pic(got);
    if (!(g == want)) pbt::fail(std::string(what) + ": got " + ref::show(g) + ", expected " + ref::show(want));
}
inline void mix(pbt::Case& c, ref::Pic const& p) { c.mix(p.w); c.mix(p.h); c.mix(p.px); }

}
#endif
