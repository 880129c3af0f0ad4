// The library's glyph lists in the form of the reference model.
#ifndef VERIF_PP_GLYPHS_HPP
#define VERIF_PP_GLYPHS_HPP

#include "pp.hpp"
#include "ppocr/loader2/glyphs_loader.hpp"
#include "ppocr/ocr2/glyphs.hpp"

namespace pp {

inline ppocr::loader2::Glyphs learned(std::vector<ref::Glyph> const& v) {
    ppocr::loader2::Glyphs r;
    for (auto& g : v) {
        ppocr::loader2::Views views;
        for (auto& l : g.labels) views.push_back({l.word, l.font, l.line});
        r.push_back({image(g.pic), views});
    }
    return r;
}
inline std::vector<ref::Glyph> plain(ppocr::loader2::Glyphs const& v) {
    std::vector<ref::Glyph> r;
    for (auto& g : v) {
        ref::Glyph k;
        k.pic = pic(g.img);
        for (auto& l : g.views) k.labels.push_back({l.word, l.font, l.info_line});
        r.push_back(k);
    }
    return r;
}
inline void same_glyphs(pbt::Case& c, std::vector<ref::Glyph> const& got, std::vector<ref::Glyph> const& want, std::string const& what) {
    PBT_REQ(c, got.size() == want.size(), what << ": " << got.size() << " glyphs instead of " << want.size());
    for (std::size_t i = 0; i < got.size(); ++i) {
        PBT_REQ(c, got[i].pic == want[i].pic, what << ": picture " << i << " is " << ref::show(got[i].pic) << " instead of " << ref::show(want[i].pic));
        PBT_REQ(c, got[i].labels == want[i].labels, what << ": labels of glyph " << i << " differ: " << gen::describe({got[i]}) << " instead of " << gen::describe({want[i]}));
    }
}
/// word text of a label of the recogniser's table
inline std::string text(ppocr::ocr2::Glyphs const& g, ppocr::ocr2::View const& v) {
    auto const& w = g.get_word(v);
    return std::string(w.data(), w.size());
}
/// the recogniser's table against the list: words, and font grouping
inline void same_table(pbt::Case& c, ppocr::ocr2::Glyphs const& t, std::vector<ref::Glyph> const& want, std::string const& what) {
    PBT_REQ(c, t.size() == want.size(), what << ": " << t.size() << " glyphs instead of " << want.size());
    std::map<std::string, unsigned> words, fonts;
    std::map<unsigned, std::string> words_back, fonts_back;
    for (std::size_t i = 0; i < t.size(); ++i) {
        PBT_REQ(c, t[i].size() == want[i].labels.size(), what << ": glyph " << i << " has " << t[i].size() << " labels instead of " << want[i].labels.size());
        for (std::size_t k = 0; k < t[i].size(); ++k) {
            auto const& l = want[i].labels[k];
            std::string const w = text(t, t[i][k]);
            PBT_REQ(c, w == l.word, what << ": word " << k << " of glyph " << i << " is " << pbt::quote(w) << " instead of " << pbt::quote(l.word));
            PBT_REQ(c, words.emplace(l.word, t[i][k].word).first->second == t[i][k].word, what << ": two numbers for the word " << pbt::quote(l.word));
            PBT_REQ(c, words_back.emplace(t[i][k].word, l.word).first->second == l.word, what << ": one number for two words");
            PBT_REQ(c, fonts.emplace(l.font, t[i][k].font).first->second == t[i][k].font, what << ": two numbers for the font " << pbt::quote(l.font));
            PBT_REQ(c, fonts_back.emplace(t[i][k].font, l.font).first->second == l.font, what << ": one number for two fonts");
        }
    }
}

}
#endif
