// A learned world: glyph table, feature table, indexes and scratch state of the recogniser, set up the way
// ocr2_extract_text does.
#ifndef VERIF_PP_RECOG_HPP
#define VERIF_PP_RECOG_HPP

#include "pp_features.hpp"
#include "pp_glyphs.hpp"

#include "ppocr/ocr2/compute_image.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
#include "ppocr/ocr2/image_context.hpp"

#include <memory>

namespace pp {

using First = R<st::dvgravity2>;

inline std::vector<std::string> label_words(ref::Glyph const& g) { std::vector<std::string> r; for (auto& l : g.labels) r.push_back(l.word); return r; }

struct World {
    std::vector<ref::Glyph> g;
    std::vector<ref::Features> f;
    std::vector<std::vector<std::string>> words;
    ppocr::ocr2::Glyphs glyphs;
    ppocr::PpOcrDatas datas;
    std::unique_ptr<ppocr::ocr2::DataIndexesByWords> by_words;
    std::vector<unsigned> id_views;
    std::unique_ptr<ppocr::ocr2::DataIndexesOrdered<First>> ordered;
    ppocr::ocr2::Probabilities probs, tmp;
    ppocr::ocr2::ImageContext ictx;
    ppocr::PpOcrDataCtxs ctx;
    std::map<ppocr::ocr2::View const*, std::pair<std::size_t, std::size_t>> where;

    World(std::vector<ref::Glyph> const& g_, std::vector<ref::Features> const& f_, bool from_text)
    : g(g_), f(f_), probs(unsigned(g_.size())), tmp(unsigned(g_.size())) {
        for (auto& x : g) words.push_back(label_words(x));
        { std::istringstream i(ref::glyph_file(g)); i >> glyphs; }
        if (glyphs.size() != g.size()) pbt::fail("the glyph table has a wrong number of entries");
        if (from_text) { std::istringstream i(ref::feature_table(f)); i >> datas; }
        else for (auto& x : g) datas.load(image(x.pic));
        if (datas.size() != g.size()) pbt::fail("the feature table has a wrong number of entries");
        by_words.reset(new ppocr::ocr2::DataIndexesByWords(glyphs));
        id_views = ppocr::ocr2::get_views_indexes_ordered(glyphs);
        ordered.reset(new ppocr::ocr2::DataIndexesOrdered<First>(datas));
        for (std::size_t i = 0; i < glyphs.size(); ++i) for (std::size_t k = 0; k < glyphs[i].size(); ++k) where[&glyphs[i][k]] = {i, k};
    }
    ppocr::ocr2::view_ref_list raw(ref::Pic const& p) {
        ppocr::Image const& img = ictx.img(ppocr::Bounds(p.w, p.h), [&](ppocr::Pixel* d) { std::memcpy(d, p.px.data(), p.px.size()); });
        return ppocr::ocr2::compute_image(ppocr::PpOcrSimpleDatas{}, ppocr::PpOcrComplexDatas{}, ppocr::PpOcrExclusiveDatas{},
            probs, tmp, datas, *ordered, *by_words, glyphs, id_views, img, ictx.img90(), ctx, 0.5);
    }
    /// glyphs whose complete label lists were returned, in order
    std::vector<std::size_t> recognise(ref::Pic const& p) {
        auto const l = raw(p);
        std::vector<std::size_t> r;
        for (std::size_t k = 0; k < l.size(); ) {
            auto it = where.find(&l[k].get());
            if (it == where.end()) pbt::fail("a candidate is not a label of the glyph table");
            std::size_t const i = it->second.first;
            for (std::size_t j = 0; j < glyphs[i].size(); ++j, ++k)
                if (k >= l.size() || &l[k].get() != &glyphs[i][j]) pbt::fail("the labels of glyph " + std::to_string(i) + " are not returned completely and in order");
            r.push_back(i);
        }
        return r;
    }
};
inline std::string str(std::vector<std::size_t> const& v) { std::ostringstream o; for (auto i : v) o << i << ' '; return o.str(); }

/// learned sets with shared words, equal label words, near and equal pictures
inline std::vector<ref::Glyph> learned_set(pbt::Source& s, std::vector<ref::Pic>& bases, bool wide = false) {
    static unsigned const caps[4] = {3, 6, 14, 40};
    unsigned const n = unsigned(s.range(1, caps[s.size_class()]));
    unsigned const nb = unsigned(s.range(1, 4));
    if (s.chance(1, 600)) { // hundreds of glyphs, now and then more than 65536
        unsigned const n = wide && s.chance(1, 60) ? unsigned(s.range(65530, 70000)) : gen::huge(s, 600);
        auto v = gen::many_glyphs(s, n, 3, n > 65000 ? n / 4 : 1);
        for (unsigned i = 0; i < nb; ++i) bases.push_back(s.pick(v).pic);
        return v;
    }
    for (unsigned i = 0; i < nb; ++i) bases.push_back(gen::glyph_pic(s, 24, 24));
    static char const* const pool[] = {"a", "b", "c", "ab", "-", "\xc3\xa9", "abcde", ".", "rn", "m"};
    std::vector<ref::Glyph> v;
    for (unsigned i = 0; i < n; ++i) {
        ref::Glyph g;
        if (s.chance(1, 600)) g.pic = gen::big_pic(s);
        else switch (s.u(5)) {
            case 0: g.pic = gen::glyph_pic(s, 24, 24); break;
            case 1: g.pic = s.pick(bases); break;
            case 2: case 3: g.pic = gen::mutate(s, s.pick(bases), 3); break;
            case 4: g.pic = i ? s.pick(v).pic : s.pick(bases); break;
        }
        if (i && s.chance(1, 3)) g.labels = s.pick(v).labels;
        else if (s.chance(1, 600)) for (unsigned k = gen::huge(s, 600); k; --k) g.labels.push_back({pool[s.u(10)], "f" + std::to_string(k), k}); // a word in hundreds of fonts
        else for (unsigned k = unsigned(s.small(1, 3)); k; --k) g.labels.push_back({pool[s.u(10)], s.flip() ? "f" : "g", 0});
        if (s.chance(1, 4)) g.labels[0].font = gen::font(s);
        v.push_back(g);
    }
    return v;
}

}
#endif
