// Printable values of the data the library loads.
#ifndef VERIF_PP_TABLES_HPP
#define VERIF_PP_TABLES_HPP

#include "pp_features.hpp"
#include "pp_glyphs.hpp"
#include "pp_dict.hpp"
#include "ppocr/ocr2/word_lines.hpp"
#include "ppocr/utils/read_file.hpp"
#include "ppocr/image/image.hpp"

namespace pp {
inline std::string value(ppocr::Image const& i) { std::ostringstream o; o << i; return o.str(); }
inline std::string value(ppocr::PpOcrDatas const& d) { std::ostringstream o; o << d; return o.str(); }
inline std::string value(ppocr::spell::Dictionary const& d) { std::ostringstream o; o << d; return o.str(); }
inline std::string value(ppocr::ocr2::WWordsLines const& l) {
    std::ostringstream o;
    for (auto& x : l) o << x.sv() << ' ' << x.wlines.ascentline << x.wlines.capline << x.wlines.meanline << x.wlines.baseline << '\n';
    return o.str();
}
inline std::string value(ppocr::ocr2::Glyphs const& g) {
    std::ostringstream o;
    for (auto& v : g) { for (auto& x : v) o << g.get_word(x) << ' ' << x.font << '\n'; o << '\n'; }
    return o.str();
}
inline std::string value(ppocr::loader2::Glyphs const& g) { std::ostringstream o; o << g; return o.str(); }
}
#endif
