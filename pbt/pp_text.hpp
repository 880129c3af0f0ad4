// Candidate lists of the text line resolution, in both forms.
#ifndef VERIF_PP_TEXT_HPP
#define VERIF_PP_TEXT_HPP

#include "pp_glyphs.hpp"
#include "ppocr/ocr2/ambiguous.hpp"
#include "ppocr/ocr2/word_lines.hpp"
#include "ppocr/ocr2/words_infos.hpp"

#include <deque>

namespace pp {

/// word table with one glyph per word
struct WordTable {
    std::vector<std::string> words;
    ppocr::ocr2::Glyphs glyphs;
    explicit WordTable(std::vector<std::string> const& w) : words(w) {
        std::vector<ref::Glyph> g;
        for (auto& x : w) g.push_back({{1, 1, "x"}, {{x, "f", 0}}});
        std::istringstream i(ref::glyph_file(g));
        i >> glyphs;
        if (glyphs.size() != w.size()) pbt::fail("the glyph table has a wrong number of entries");
    }
    unsigned number(std::size_t k) const { return glyphs[k][0].word; }
};
struct Position { ppocr::ocr2::view_ref_list list; };
/// lists of candidates owning their labels; tag = rank of creation
struct Lists {
    WordTable const& t;
    std::deque<ppocr::ocr2::View> store;
    std::deque<ppocr::ocr2::view_ref_list> lists;
    ppocr::ocr2::ambiguous_t ambiguous;
    std::vector<ref::Cands> model;
    explicit Lists(WordTable const& t_) : t(t_) {}
    void position() { lists.emplace_back(); model.emplace_back(); }
    void candidate(std::size_t word, unsigned font) {
        store.push_back({t.number(word), font});
        lists.back().push_back(store.back());
        model.back().push_back({t.words[word], font, unsigned(store.size() - 1)});
    }
    void done() { for (auto& l : lists) ambiguous.emplace_back(l); }
    std::string describe() const { return str(model); }
    static std::string str(std::vector<ref::Cands> const& v) {
        std::ostringstream o;
        for (auto& l : v) { o << '['; for (auto& c : l) o << pbt::quote(c.word) << '/' << c.font << '#' << c.tag << ' '; o << ']'; }
        return o.str();
    }
    /// the lists as they are now
    std::vector<ref::Cands> now() const {
        std::vector<ref::Cands> r;
        std::map<ppocr::ocr2::View const*, unsigned> where;
        for (unsigned i = 0; i < store.size(); ++i) where[&store[i]] = i;
        for (auto& l : lists) {
            r.emplace_back();
            for (auto& v : l) {
                auto it = where.find(&v.get());
                if (it == where.end()) pbt::fail("a candidate is none of the given labels");
                r.back().push_back({text(t.glyphs, v.get()), v.get().font, it->second});
            }
        }
        return r;
    }
};
inline bool same(std::vector<ref::Cands> const& a, std::vector<ref::Cands> const& b) {
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) {
        if (a[i].size() != b[i].size()) return false;
        for (std::size_t k = 0; k < a[i].size(); ++k) if (a[i][k].tag != b[i][k].tag) return false;
    }
    return true;
}
/// distinct words for tables
inline std::vector<std::string> distinct_words(pbt::Source& s, std::vector<std::string> const& pool, unsigned lo, unsigned hi) {
    std::vector<std::string> w;
    unsigned const n = unsigned(s.range(lo, hi));
    for (unsigned i = 0; i < n; ++i) {
        std::string x = s.chance(1, 6) ? gen::token(s, 3) : s.pick(pool);
        if (std::find(w.begin(), w.end(), x) == w.end()) w.push_back(x);
    }
    return w;
}

}
#endif
