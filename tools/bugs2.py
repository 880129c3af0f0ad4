S = "src/ppocr/"
FEAT = r'''
#include "ppocr/defined_loader.hpp"
using namespace ppocr;
template<class S> auto val(Image const& i) { typename S::ctx_type c; auto r = i.rotate90(); return S::load(i, r, c); }
'''
def rep(c, n): return c * n

OCR = r'''
#include "ppocr/defined_loader.hpp"
#include "ppocr/ocr2/compute_image.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
#include "ppocr/ocr2/image_context.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/ocr2/data_indexes_by_words.hpp"
#include "ppocr/box_char/box.hpp"
using namespace ppocr;
struct Reader {
    PpOcrDatas datas; ocr2::Glyphs glyphs; PpOcrDataCtxs ctx;
    std::unique_ptr<ocr2::DataIndexesByWords> by_words; std::vector<unsigned> ids;
    using First = loader2::Strategy<strategies::dvgravity2, loader2::PolicyLoader::img90>;
    std::unique_ptr<ocr2::DataIndexesOrdered<First>> first; std::unique_ptr<ocr2::Probabilities> p, q;
    // pairs of picture and labels ("word font;...")
    Reader(std::vector<std::pair<std::string, std::vector<std::string>>> const& gs) {
        std::ostringstream os;
        for (auto& g : gs) {
            Image i = pic(g.first); datas.load(i);
            os << i.bounds() << ' '; os.write(i.data(), i.area()); os << '\n' << g.second.size() << '\n';
            for (auto& l : g.second) os << l << " 0\n";
        }
        std::istringstream is(os.str()); is >> glyphs;
        by_words.reset(new ocr2::DataIndexesByWords(glyphs)); ids = ocr2::get_views_indexes_ordered(glyphs);
        first.reset(new ocr2::DataIndexesOrdered<First>(datas)); p.reset(new ocr2::Probabilities(gs.size())); q.reset(new ocr2::Probabilities(gs.size()));
    }
    std::string read(Image const& i, Image const& r) {
        std::string s;
        for (ocr2::View const& v : ocr2::compute_image(PpOcrSimpleDatas{}, PpOcrComplexDatas{}, PpOcrExclusiveDatas{}, *p, *q, datas, *first, *by_words, glyphs, ids, i, r, ctx, 0.5)) {
            auto& w = glyphs.get_word(v); s += std::string(w.begin(), w.size()) + " ";
        }
        return s;
    }
    std::string read(std::string const& rows) { Image i = pic(rows), r = i.rotate90(); return read(i, r); }
};
'''
# ---- P15
bug("b15-prefix", "P15", S + "ocr2/glyphs.hpp", [("        return v1.size() == v2.size() && std::equal(v1.begin(), v1.end(), v2.begin(), EqViewWord{});", "        return v1.size() >= v2.size() && std::equal(v2.begin(), v2.end(), v1.begin(), EqViewWord{});")],
  "a glyph whose label words begin with all the label words of another one, with equal features", "the two share a group, so that one of them is not returned",
  cpp=OCR + r'''int main(int, char**) {
    Reader a({{"x-x/xxx/x-x", {"H f"}}, {"x-x/xxx/x-x", {"H f", "h f"}}});
    std::string r = a.read("x-x/xxx/x-x"); EXPECT(r == "H H h " || r == "H h H ");
    return bad;
}''')
bug("b15-first", "P15", S + "ocr2/insert_views.hpp", [("        cache_element.insert(cache_element.end(), views.begin(), views.end());", "        if (!cache_element.empty() && cache_element.front().get().word == views.front().word) {\n            continue;\n        }\n        cache_element.insert(cache_element.end(), views.begin(), views.end());")],
  "two equal glyph pictures with different label lists that begin with the same word", "the labels of the second are left out",
  cpp=OCR + r'''int main(int, char**) {
    Reader a({{"x-x/xxx/x-x", {"H f", "N f"}}, {"x-x/xxx/x-x", {"H f", "h f"}}});
    std::string r = a.read("x-x/xxx/x-x"); EXPECT(r == "H N H h " || r == "H h H N ");
    return bad;
}''')
# ---- P16
bug("b16-limit", "P16", S + "ocr2/reduce_universe.hpp", [("        if (x >= prob_limit) {", "        if (x > prob_limit) {")],
  "a candidate whose complex feature is similar to exactly one half", "the candidate is dropped",
  cpp=r'''#include "ppocr/defined_loader.hpp"
#include "ppocr/ocr2/reduce_universe.hpp"
using namespace ppocr;
struct Half { using value_type = int; using ctx_type = no_context; struct relationship_type { static double dist(int, int) { return 0.5; } static bool in_dist(int, int, unsigned) { return false; } static unsigned count() { return 2; } };
  static int load(Image const&, Image const&, ctx_type&) { return 1; } };
int main(int, char**) { ocr2::Probabilities p(3); p.emplace_back(0, 1.); loader2::Data<Half> d; auto i = pic("x"); Half::ctx_type c; d.load(i, i, c);
  ocr2::reduce_universe_and_update_probability(p, d, 1, 0.5); EXPECT(p.size() == 1); return bad; }''')
bug("b16-worst", "P16", S + "ocr2/sort_probabilities.hpp", [("            return a.prob > b.prob;\n        }\n        return id_views", "            return a.prob < b.prob;\n        }\n        return id_views")],
  "two glyphs with the same label words that match a picture differently well", "the worse one stands for the words",
  cpp=r'''#include "ppocr/ocr2/sort_probabilities.hpp"
using namespace ppocr;
int main(int, char**) { ocr2::Probabilities p(4); p.emplace_back(0, .3); p.emplace_back(1, .9); p.emplace_back(2, .5); std::vector<unsigned> ids{0, 0, 2};
  ocr2::sort_by_views(p, ids); ocr2::unique_by_views(p, ids); EXPECT(p.size() == 2 && p[0].prob == .9); return bad; }''')
bug("b16-stale-order", "P16", S + "ocr2/compute_image.hpp", [("            reduce_exclusive_universe(ExclusifAlgos(), probabilities, datas, img, img90, ctx, data_indexes_by_words);\n\n            ocr2::sort_by_views(probabilities, id_views);\n", "            reduce_exclusive_universe(ExclusifAlgos(), probabilities, datas, img, img90, ctx, data_indexes_by_words);\n")],
  "two glyphs of the same words whose order by probability is turned by the complex features", "the one that was better before stands for the words, with its lower probability",
  cpp=OCR + r'''int main(int, char**) {
    // many variations of a frame: each answer must be that of the best glyph of its words
    std::vector<std::pair<std::string, std::vector<std::string>>> g; unsigned seed = 1;
    std::string base = "xxxxxxxx/x------x/x------x/xxxxxxxx/x------x/x------x/x------x/xxxxxxxx";
    auto rnd = [&] { return (seed = seed * 1103515245 + 12345) >> 16; };
    for (int k = 0; k < 60; ++k) { std::string b = base; for (int j = 0; j < 3; ++j) { auto& c = b[rnd() % b.size()]; if (c != '/') c = c == 'x' ? '-' : 'x'; } g.push_back({b, {k % 2 ? "A f" : "B f"}}); }
    Reader a(g);
    for (int k = 0; k < 200; ++k) {
        std::string b = base; for (int j = 0; j < 3; ++j) { auto& c = b[rnd() % b.size()]; if (c != '/') c = c == 'x' ? '-' : 'x'; }
        Image i = pic(b), r = i.rotate90(); std::string got = a.read(i, r);
        // after the call p holds one candidate per group; it must be the best of those that pass alone
        for (auto& x : *a.p) { (void)x; }
        std::string fwd = got, back;
        { std::vector<std::pair<std::string, std::vector<std::string>>> h(g.rbegin(), g.rend()); Reader q(h); back = q.read(i, r); std::vector<double> pa, pb; for (auto& x : *a.p) pa.push_back(x.prob); for (auto& x : *q.p) pb.push_back(x.prob); if (a.q->empty() || a.q->front().prob >= 1.) continue; EXPECT(pa == pb); }
        if (bad) break;
    }
    return bad;
}''')
# ---- P17
bug("b17-stop", "P17", S + "ocr2/indexes_ordered.hpp", [("            return x < data[i];\n", "            return x < data[i] || (data[i] == x && stop != start);\n")],
  "a learned value exactly at the upper end of the asked range", "it is left out of the range",
  cpp=r'''#include "ppocr/ocr2/indexes_ordered.hpp"
using namespace ppocr;
int main(int, char**) { std::vector<unsigned> d{5, 9, 7}; ocr2::IndexesOrdered o(d); auto r = ocr2::range_bounds(d, o, 5u, 9u); EXPECT(r.end() - r.begin() == 3); return bad; }''')
bug("b17-low", "P17", S + "ocr2/data_indexes_ordered.hpp", [("            x > d ? x-d : 0u,", "            x > d ? x-d : (x ? 1u : 0u),")],
  "a learned value of 0 and a measured value between 1 and the tolerance", "the glyph with value 0 is left out",
  cpp=OCR + r'''int main(int, char**) {
    PpOcrDatas d; using D = loader2::Strategy<strategies::density, loader2::PolicyLoader::img>;
    d.load(pic("--/--")); d.load(pic("x-/--")); ocr2::DataIndexesOrdered<D> o(d);
    auto n = [&](unsigned x, unsigned t) { auto r = o.get_range(d, x, t); return r.end() - r.begin(); };
    EXPECT(n(5, 10) == 1); EXPECT(n(0, 5) == 1); EXPECT(n(10, 20) == 2);
    return bad;
}''')
bug("b17-words", "P17", S + "ocr2/data_indexes_by_words.cpp", [("map[views.front().word]", "map[views.back().word]")],
  "glyphs with several labels", "glyphs are grouped by their last word, not the first",
  cpp=OCR + r'''int main(int, char**) { Reader a({{"x", {"a f", "b f"}}, {"x-/xx", {"a f", "c f"}}, {"xx", {"c f"}}}); EXPECT((*a.by_words)[0].size() == 1); EXPECT((*a.by_words)[2].empty()); return bad; }''')
bug("b17-lt", "P17", S + "ocr2/glyphs.hpp", [("        return pair.first->word < pair.second->word;", "        return v1.front().word < v2.front().word;")],
  "several glyphs that share the first label word and differ later", "equal label lists are not next to each other, so they get different groups",
  cpp=OCR + r'''int main(int, char**) { std::vector<std::pair<std::string, std::vector<std::string>>> g; for (int k = 0; k < 40; ++k) g.push_back({"x", {"a f", k * 7 % 3 ? "b f" : "c f"}}); Reader a(g); unsigned b = ~0u, c = ~0u; for (int k = 0; k < 40; ++k) { auto& r = k * 7 % 3 ? b : c; if (r == ~0u) r = a.ids[k]; EXPECT(r == a.ids[k]); } EXPECT(b != c); return bad; }''')
# ---- P18
bug("b18-fonts", "P18", S + "ocr2/glyphs.cpp", [("font_map.emplace(std::move(font), font_map.size()).first;", "font_map.emplace(std::move(font), word_map.size()).first;")],
  "two fonts first seen with the same number of words known (a word in two fonts)", "the two fonts get one number",
  cpp=OCR + r'''int main(int, char**) { ocr2::Glyphs g; std::istringstream is("1 1 x\n2\na f 0\na g 0\n"); is >> g; EXPECT(g[0][0].word == g[0][1].word); EXPECT(g[0][0].font != g[0][1].font); return bad; }''')
bug("b18-picture", "P18", S + "ocr2/glyphs.cpp", [("limit_max = std::numeric_limits<std::streamsize>::max();", "limit_max = std::streamsize(4096);")],
  "a learned picture of more than 4096 pixels", "the rest of the picture is taken for the number of labels",
  cpp=OCR + r'''int main(int, char**) { ocr2::Glyphs g; std::istringstream is("80 80 " + std::string(6400, 'x') + "\n1\na f 0\n1 1 x\n1\nb f 0\n"); is >> g; EXPECT(g.size() == 2); return bad; }''')
bug("b18-lookup", "P18", S + "ocr2/glyphs.hpp", [("            if (r <= 0) {\n                if (r == 0) {\n                    return i;\n                }\n                break;", "            if (r == 0) {\n                return i;\n            }\n            if (r < -1 || i > 4000) {\n                break;")],
  "a lookup in a table of over a thousand words", "words far back in the table are not found",
  cpp=OCR + r'''int main(int, char**) { ocr2::Glyphs g; std::string s; for (int i = 0; i < 3000; ++i) s += "1 1 x\n1\nw" + std::to_string(10000 + i) + " f 0\n"; std::istringstream is(s); is >> g; for (int i = 0; i < 3000; i += 7) EXPECT(g.word_index_of("w" + std::to_string(10000 + i)) == g[i][0].word); EXPECT(g.word_index_of("w1") == ocr2::Glyphs::no_index); return bad; }''')
# ---- P19
WL = r'''
#include "ppocr/ocr2/words_infos.hpp"
#include "ppocr/ocr2/filter_by_lines.hpp"
#include "ppocr/ocr2/filter_by_font.hpp"
#include "ppocr/box_char/box.hpp"
using namespace ppocr;
static ocr2::Glyphs table(std::string const& words) { std::istringstream w(words); std::string s, x; while (w >> x) s += "1 1 x\n1\n" + x + " f 0\n"; ocr2::Glyphs g; std::istringstream is(s); is >> g; return g; }
static ocr2::WordsInfos infos(ocr2::Glyphs const& g, std::string const& s) { std::istringstream is(s); ocr2::WWordsLines l; is >> l; return ocr2::WordsInfos(g, l); }
'''
bug("b19-eight", "P19", S + "ocr2/word_lines.cpp", [("if (s.size() <= 8) {", "if (s.size() < 8) {")],
  "a listed word of exactly 8 bytes", "its line positions are dropped",
  cpp=WL + r'''int main(int, char**) { auto g = table("abcdefgh b"); auto w = infos(g, "abcdefgh 0 0 2 2\n"); EXPECT(w.get(g[0][0].word)); EXPECT(!w.get(g[1][0].word)); return bad; }''')
bug("b19-sort", "P19", S + "ocr2/words_infos.hpp", [("                return wi1.word < wi2.word;", "                return static_cast<unsigned char>(wi1.word) < static_cast<unsigned char>(wi2.word);")],
  "a word table so long that word positions pass 255", "listed words are not found",
  cpp=WL + r'''int main(int, char**) { std::string s, l; for (int i = 100; i < 400; ++i) { s += "w" + std::to_string(i) + " "; l += "w" + std::to_string(i) + " 0 0 1 2\n"; } auto g = table(s); auto w = infos(g, l); for (auto& v : g) EXPECT(w.get(v[0].word)); return bad; }''')
bug("b19-line", "P19", S + "ocr2/word_lines.cpp", [("        wlines.meanline = meanline;", "        wlines.meanline = meanline & 3;")],
  "a word whose mean line position has the Above bit", "the bit is lost",
  cpp=WL + r'''int main(int, char**) { auto g = table("a"); auto w = infos(g, "a 0 0 6 2\n"); EXPECT(w.get(g[0][0].word)->lines.meanline == 6); return bad; }''')
# ---- P20
AMB = WL + r'''
struct Line { ocr2::Glyphs g; std::vector<ocr2::view_ref_list> l; ocr2::ambiguous_t a; std::vector<Box> b;
  Line(std::string const& words) : g(table(words)) { l.reserve(100); }
  void add(std::string const& cand, unsigned y, unsigned h) { l.emplace_back(); std::istringstream is(cand); std::string w; while (is >> w) for (auto& v : g) { auto& s = g.get_word(v[0]); if (std::string(s.begin(), s.size()) == w) { l.back().push_back(v[0]); break; } } a.emplace_back(l.back()); b.push_back({{0, y}, {5, h}}); }
  std::string str() { std::string s; for (auto& x : l) { for (ocr2::View const& v : x) { auto& w = g.get_word(v); s += std::string(w.begin(), w.size()) + ","; } s += " "; } return s; } };
'''
bug("b20-fill", "P20", S + "ocr2/filter_by_lines.cpp", [("    std::fill(uint_buffer.begin(), uint_buffer.begin() + std::min(bottom_ys_len, top_ys_len), 0u);\n", "    std::fill(uint_buffer.begin(), uint_buffer.begin() + std::min(bottom_ys_len, top_ys_len) - 1, 0u);\n")],
  "a line where the lowest (or highest counted) bottom falls on the last shared counter", "an old bottom count is taken for a count of tops, so the mean line is misplaced",
  cpp=AMB + r'''int main(int, char**) {
    // bottoms 20 (rows 10..20), tops 5..15: the counters overlap completely
    Line n("x o b c"); auto w = infos(n.g, "x 0 0 2 2\no 0 0 2 2\nb 0 0 0 0\nc 0 0 2 0\n");
    n.add("x", 10, 11); n.add("x", 10, 11); n.add("b", 15, 1 + 20 - 15); n.add("b", 15, 6); n.add("b", 15, 6); n.add("b", 12, 4); n.add("c b", 10, 11);
    ocr2::filter_by_lines(n.a, w, n.b);
    EXPECT(n.str() == "x, x, b, b, b, b, c,b, ");
    return bad;
}''')
bug("b20-or", "P20", S + "ocr2/filter_by_lines.cpp", [("lines.baseline == WordLines::Below && lines.meanline == WordLines::Below", "lines.baseline == WordLines::Below || lines.meanline == WordLines::Below")],
  "certain characters that sit on the base line but not at the mean line (capitals) outnumber those that do", "the mean line is taken from capitals",
  cpp=AMB + r'''int main(int, char**) {
    Line n("x T b c"); auto w = infos(n.g, "x 0 0 2 2\nT 0 0 0 2\nc 0 0 2 2\nb 0 0 0 2\n");
    n.add("x", 10, 11); n.add("T", 5, 16); n.add("T", 5, 16); n.add("c b", 10, 11); n.add("c b", 5, 16);
    ocr2::filter_by_lines(n.a, w, n.b);
    EXPECT(n.str() == "x, T, T, c,b, b, ");
    return bad;
}''')
bug("b20-upper", "P20", S + "ocr2/filter_by_lines.cpp", [("                return ypos + 1 > line_pos;", "                return ypos > line_pos;")],
  "a candidate that must end above or on the base line (3) on a glyph that ends exactly on it", "the candidate is kept though it contradicts the rule",
  cpp=AMB + r'''int main(int, char**) {
    Line n("a q"); auto w = infos(n.g, "q 0 0 0 3\n");
    n.add("a", 5, 10); n.add("a q", 5, 10); n.add("a q", 5, 9);
    ocr2::filter_by_lines(n.a, w, n.b);
    EXPECT(n.str() == "a, a, a,q, ");
    return bad;
}''')
bug("b20-tie", "P20", S + "ocr2/filter_by_lines.cpp", [("    bool has_meanline = false;\n", "    bool has_meanline = boxes.size() > 32;\n")],
  "a line of over 32 glyphs none of which is certain to reach the mean line", "a mean line is made up and candidates are dropped for it",
  cpp=AMB + r'''int main(int, char**) {
    Line n("x T"); auto w = infos(n.g, "x 0 0 2 2\nT 0 0 4 2\n");
    for (int k = 0; k < 40; ++k) n.add("x T", k % 2 ? 5 : 11, k % 2 ? 16 : 10);
    ocr2::filter_by_lines(n.a, w, n.b);
    std::string e; for (int k = 0; k < 40; ++k) e += "x,T, ";
    EXPECT(n.str() == e);
    return bad;
}''')
# ---- P21
FNT = r'''
#include "ppocr/ocr2/filter_by_font.hpp"
#include <deque>
using namespace ppocr;
struct Line { std::deque<ocr2::View> v; std::deque<ocr2::view_ref_list> l; ocr2::ambiguous_t a;
  void add(std::vector<ocr2::View> c) { l.emplace_back(); for (auto& x : c) { v.push_back(x); l.back().push_back(v.back()); } a.emplace_back(l.back()); }
  std::string str() { std::string s; for (auto& x : l) { for (ocr2::View const& y : x) s += std::to_string(y.word) + "/" + std::to_string(y.font) + ","; s += " "; } return s; } };
'''
bug("b21-single", "P21", S + "ocr2/filter_by_font.cpp", [("if (fonts.size() == 1 || font_it->second >= ambiguous.size()/2) {", "if (font_it->second >= ambiguous.size()/2) {")],
  "one font only among the certain characters, which are less than half of the line", "nothing is filtered",
  cpp=FNT + r'''int main(int, char**) { Line n; n.add({{1, 2}}); for (int i = 0; i < 4; ++i) n.add({{1, 1}, {3, 2}}); EXPECT(ocr2::filter_by_font(n.a) == 2); EXPECT(n.str() == "1/2, 3/2, 3/2, 3/2, 3/2, "); return bad; }''')
bug("b21-odd", "P21", S + "ocr2/filter_by_font.cpp", [("font_it->second >= ambiguous.size()/2) {", "font_it->second >= (ambiguous.size()+1)/2) {")],
  "a line of odd length where the dominant font has exactly the smaller half", "nothing is filtered",
  cpp=FNT + r'''int main(int, char**) { Line n; n.add({{1, 2}}); n.add({{1, 2}}); n.add({{1, 3}}); n.add({{1, 3}, {4, 2}}); n.add({}); EXPECT(ocr2::filter_by_font(n.a) == 2); EXPECT(n.str() == "1/2, 1/2, 1/3, 4/2,  "); return bad; }''')
bug("b21-tie", "P21", S + "ocr2/filter_by_font.cpp", [("            return a.second < b.second;", "            return a.second <= b.second;")],
  "two fonts equally frequent among the certain characters", "the other one is taken",
  cpp=FNT + r'''int main(int, char**) { Line n; n.add({{1, 2}}); n.add({{1, 3}}); n.add({{5, 3}, {4, 2}}); EXPECT(ocr2::filter_by_font(n.a) == 2); EXPECT(n.str() == "1/2, 1/3, 4/2, "); return bad; }''')
# ---- P22
DIC = r'''
#include "ppocr/spell/dictionary.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
using namespace ppocr;
static bool has(spell::Dictionary const& d, std::string const& w) { std::vector<std::vector<std::string>> v; for (std::size_t i = 0; i < w.size(); ++i) v.push_back({std::string(1, w[i])}); std::string o; return spell::WordDisambiguouser()(d, v.begin(), v.end(), o) && o == w; }
'''
bug("b22-leaf", "P22", S + "container/trie.hpp",
  [("                elems_[pos].pos_ = sz-pos;\n                if (!t.empty()) {\n", "                if (!t.empty()) {\n                    elems_[pos].pos_ = sz-pos;\n")],
  "a dictionary whose first character is a word of its own and begins no other", "the whole dictionary seems empty",
  cpp=DIC + r'''int main(int, char**) { spell::Dictionary d(std::vector<std::string>{"a", "be"}); EXPECT(has(d, "a")); EXPECT(has(d, "be")); return bad; }''')
bug("b22-order", "P22", S + "container/trie.hpp", [("        iterator lower_bound(U const & x) const {\n            return std::lower_bound(this->begin(), this->end(), x, [](node_type const & node, U const & x) {\n                return node.get() < x;", "        iterator lower_bound(U const & x) const {\n            return std::lower_bound(this->begin(), this->end(), x, [](node_type const & node, U const & x) {\n                return static_cast<std::make_signed_t<T>>(node.get()) < static_cast<std::make_signed_t<T>>(x);")],
  "a dictionary with four-byte characters beside others at one place", "words are not found",
  cpp=DIC + r'''int main(int, char**) { spell::Dictionary d(std::vector<std::string>{"a", "b", "\xf0\x9f\x98\x80", "c"}); EXPECT(has(d, "c")); std::vector<std::vector<std::string>> v{{"\xf0\x9f\x98\x80"}}; std::string o; EXPECT(spell::WordDisambiguouser()(d, v.begin(), v.end(), o) && o == "\xf0\x9f\x98\x80"); EXPECT(has(d, "a")); return bad; }''')
bug("b22-depth", "P22", S + "container/trie.hpp", [("            this->nodes_.emplace_back((*first)[depth], depth + 1 == first->size());", "            this->nodes_.emplace_back((*first)[depth], (depth & 63) + 1 == first->size());")],
  "a word of more than 64 characters", "its end is not marked",
  cpp=DIC + r'''int main(int, char**) { spell::Dictionary d(std::vector<std::string>{std::string(70, 'a'), "b"}); EXPECT(has(d, "b")); EXPECT(has(d, std::string(70, 'a'))); return bad; }''')
# ---- P23
bug("b23-prefix", "P23", S + "spell/word_disambiguouser.hpp", [("                if (pos->is_terminal()) {", "                if (pos->is_terminal() && pos->empty()) {")],
  "a word that is the beginning of another word", "it is not found",
  cpp=DIC + r'''int main(int, char**) { spell::Dictionary d(std::vector<std::string>{"the", "then"}); EXPECT(has(d, "then")); EXPECT(has(d, "the")); return bad; }''')
bug("b23-backtrack", "P23", S + "spell/word_disambiguouser.hpp", [("            if (disambiguous_utf_char(rng, first, last, utf::UTF8Iterator(s.data()), output)) {\n                return true;\n            }\n", "            utf::UTF8Iterator it(s.data());\n            auto pos = rng.lower_bound(*it);\n            bool const known = pos != rng.end() && pos->get() == *it;\n            if (disambiguous_utf_char(rng, first, last, it, output)) {\n                return true;\n            }\n            if (known && pos->empty()) {\n                break;\n            }\n")],
  "a candidate that is a complete word by itself in the middle of a position list, before the right candidate", "the search gives up on the position",
  cpp=DIC + r'''int main(int, char**) { spell::Dictionary d(std::vector<std::string>{"a", "bc"}); std::vector<std::vector<std::string>> v{{"a", "b"}, {"c"}}; std::string o; EXPECT(spell::WordDisambiguouser()(d, v.begin(), v.end(), o)); EXPECT(o == "bc"); return bad; }''')
bug("b23-reverse", "P23", S + "spell/word_disambiguouser.hpp", [("std::swap_ranges(output.begin() + sz, output.begin() + sz + (output.size() - sz) / 2, output.rbegin());", "std::swap_ranges(output.begin() + sz, output.begin() + sz + output.size() / 2 - sz / 2, output.rbegin());")],
  "a word of odd length appended behind a text of odd length... of which only one is odd", "the word is turned once too often in the middle",
  cpp=DIC + r'''int main(int, char**) { spell::Dictionary d(std::vector<std::string>{"abc", "xyzu"}); for (std::string pre : {"", "q", "qq", "qqq"}) for (std::string w : {"abc", "xyzu"}) { std::vector<std::vector<std::string>> v; for (char c : w) v.push_back({std::string(1, c)}); std::string o = pre; EXPECT(spell::WordDisambiguouser()(d, v.begin(), v.end(), o)); EXPECT(o == pre + w); } return bad; }''')
# ---- P24
TXT = r'''
#include "ppocr/ocr2/disambiguous_with_dict.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/spell/dictionary.hpp"
#include <deque>
using namespace ppocr;
static unsigned count;
// one token per position, "a|b" for two candidates, "?" for none, "_" for a space
static std::string text(std::string const& line, std::vector<std::string> const& words) {
    std::istringstream is(line); std::string t, file; std::vector<std::vector<std::string>> v; std::vector<unsigned> sp;
    while (is >> t) { if (t == "_") { sp.push_back(unsigned(v.size())); continue; } v.emplace_back(); if (t == "?") continue; std::istringstream j(t); std::string w; while (std::getline(j, w, '|')) { v.back().push_back(w); file += "1 1 x\n1\n" + w + " f 0\n"; } }
    sp.push_back(unsigned(v.size()));
    ocr2::Glyphs g; std::istringstream f(file); f >> g; std::deque<ocr2::view_ref_list> l; ocr2::ambiguous_t a; std::size_t k = 0;
    for (auto& x : v) { l.emplace_back(); for (std::size_t n = x.size(); n; --n) l.back().push_back(g[k++][0]); a.emplace_back(l.back()); }
    std::string r; count = ocr2::disambiguous_with_dict(a, g, spell::Dictionary(words), sp.cbegin(), r); return r;
}
'''
bug("b24-two", "P24", S + "ocr2/disambiguous_with_dict.cpp", [("return (s.size() == 1\n", "return (s.size() <= 2\n")],
  "a glyph whose word has two characters of which the first is a punctuation mark, inside a dictionary word", "the dictionary word is split there",
  cpp=TXT + r'''int main(int, char**) { EXPECT(text("a 'b c|d", {"a'bd"}) == "a'bd"); EXPECT(text("a ' c|d", {"a'd", "d"}) == "a'd"); return bad; }''')
bug("b24-unknown", "P24", S + "ocr2/disambiguous_with_dict.cpp", [("                result += '?';\n                ++unrecognized_count;", "                if (result.empty() || result.back() != '?') {\n                    ++unrecognized_count;\n                }\n                result += '?';")],
  "two glyphs in a row that are not recognised", "they are counted once",
  cpp=TXT + r'''int main(int, char**) { EXPECT(text("a ? ? _ ?", {"b"}) == "a?? ?"); EXPECT(count == 3); return bad; }''')
bug("b24-space", "P24", S + "ocr2/disambiguous_with_dict.cpp", [("        if (middle == e && e != last) {\n            result += ' ';", "        if (middle == e && e != last) {\n            if (result.back() != ' ' && result.back() != '-') {\n                result += ' ';\n            }")],
  "a hyphen before a space", "the space is lost",
  cpp=TXT + r'''int main(int, char**) { EXPECT(text("a - _ b", {"b"}) == "a- b"); EXPECT(text("a _ - b", {"b"}) == "a -b"); return bad; }''')
# ---- P25
UTF = r'''
#include "ppocr/utils/utf.hpp"
using namespace ppocr;
'''
bug("b25-plane", "P25", S + "utils/utf.hpp", [("((this->ucode & 0x07) << 18)", "((this->ucode & 0x03) << 18)")],
  "a character from U+100000 on", "its number is wrong",
  cpp="#include <cstdint>\n" + UTF + r'''int main(int, char**) { utf::UTF8toUnicodeIterator i("\xf4\x80\x80\x80" "a"); EXPECT(*i == 0x100000); EXPECT(*++i == 'a'); return bad; }''')
bug("b25-two", "P25", S + "utils/utf.hpp", [("((this->ucode & 0x1F) << 6)|(source[0] & 0x3F)", "((this->ucode & 0x0F) << 6)|(source[0] & 0x3F)")],
  "a two-byte character from U+0400 on (Cyrillic)", "its number is wrong",
  cpp="#include <cstdint>\n" + UTF + r'''int main(int, char**) { utf::UTF8toUnicodeIterator i("\xd0\xbf\xc3\xa9"); EXPECT(*i == 0x43f); EXPECT(*++i == 0xe9); EXPECT(*++i == 0); return bad; }''')
# ---- P26
bug("b26-last", "P26", S + "ocr2/replacement.cpp", [("        if (is) {\n            replacements.push_back(rep);", "        if (is || !rep.replace.empty()) {\n            replacements.push_back(rep);")],
  "a rule file whose last line has no line end or that ends in blanks behind a replacement... (end of file while a replacement is held)", "a rule with the last pattern is added twice or unfinished",
  cpp=r'''#include "ppocr/ocr2/replacement.hpp"
int main(int, char**) { for (std::string s : {"a b\nc d\n", "a b\nc d", "a b\nc\n", "a b\nc"}) { ppocr::ocr2::Replacements r; std::istringstream is(s); is >> r; EXPECT(r.size() == 2); } return bad; }''')
bug("b26-overlap", "P26", S + "ocr2/replacement.hpp", [("while ((pos = result.find(rep.pattern, pos)) != std::string::npos) {", "while ((pos = result.find(rep.pattern, pos ? pos + 1 : 0)) != std::string::npos) {")],
  "two places to replace that follow each other directly", "the second is left as it is",
  cpp=r'''#include "ppocr/ocr2/replacement.hpp"
int main(int, char**) { std::string s = "xrnrnx"; ppocr::ocr2::replace_words(s, {{"rn", "m"}}); EXPECT(s == "xmmx"); return bad; }''')
# ---- P27
LINE = r'''lp() { printf 'P1\n%d %d\n%s\n' $1 $2 "$3" > "$t/$4"; }
printf '3 3 x-xxxxx-x\n1\nH f 0\n3 3 xxx-x--x-\n1\nT f 0\n' > "$t/g"
"$B/write_datas" "$t/g" > "$t/d" || exit 1
'''
bug("b27-gap", "P27", "main/ocr2_extract_text.cpp", [("if (x + 4 < cbox.x()) {", "if (x + 4 <= cbox.x()) {")],
  "two glyphs exactly four columns apart", "a space is printed between them",
  sh=LINE + r'''# H....T with a gap of 4
lp 10 3 "101----111" p 2>/dev/null
printf 'P1\n10 3\n0100000000\n' > /dev/null
printf 'P1\n10 3\n1010000111\n1110000010\n1010000010\n' > "$t/p"
"$B/ocr2_extract_text" "$t/g" "$t/d" "$t/p" | grep -qx ' ## result: HT'
''')
bug("b27-size", "P27", "main/ocr2_extract_text.cpp", [("    if (glyphs.size() != datas.size()) {", "    if (glyphs.size() > datas.size()) {")],
  "more feature entries than glyphs", "files that do not belong together are accepted",
  sh=LINE + r'''printf '3 3 x-xxxxx-x\n1\nH f 0\n' > "$t/g1"
printf 'P1\n3 3\n101\n111\n101\n' > "$t/p"
"$B/ocr2_extract_text" "$t/g1" "$t/d" "$t/p" > "$t/o" 2>&1 && exit 1
"$B/ocr2_extract_text" "$t/g" "$t/d" "$t/p" > "$t/o" 2>&1
''')
bug("b27-empty", "P27", "main/ocr2_extract_text.cpp", [("        if (x + 4 < cbox.x()) {\n            spaces.push_back(i_space);", "        if (x + 4 < cbox.x() && i_space != 255) {\n            spaces.push_back(i_space);")],
  "a line with a space behind the 255th glyph", "the space is lost",
  sh=LINE + r'''python3 - "$t/p" <<'E'
import sys
n = 260; rows = ["", "", ""]
for k in range(n):
    for r, g in enumerate(("101", "111", "101")): rows[r] += g + ("0000000" if k % 5 == 4 else "00")
open(sys.argv[1], "w").write("P1\n%d 3\n%s\n" % (len(rows[0]), "\n".join(rows)))
E
"$B/ocr2_extract_text" "$t/g" "$t/d" "$t/p" > "$t/o" || exit 1
w=$(printf ' HHHHH%.0s' $(seq 52)); grep -qx " ## result:$w" "$t/o"
''')
# ---- P28
bug("b28-fail", "P28", S + "utils/read_file.hpp", [("    if (!file.eof()) {\n        throw", "    if (file.fail() && !file.eof() && file.tellg() == std::streampos(0)) {\n        throw")],
  "a damaged file of which some part was read", "the rest of the file is silently left out",
  cpp=r'''#include "ppocr/utils/read_file.hpp"
struct N { int n = 0; }; std::istream& operator>>(std::istream& is, N& n) { int x; while (is >> x) ++n.n; return is; }
int main(int, char** av) { std::string f = std::string(av[1]) + "/f"; put(f, "1 2 3\n"); EXPECT(ppocr::utils::load_from_file<N>(f).n == 3); put(f, "1 2 x 3\n"); try { ppocr::utils::load_from_file<N>(f); std::puts("loaded"); bad = 1; } catch (std::exception const&) {} return bad; }''')
bug("b28-open", "P28", S + "utils/read_file.hpp", [("    if (!file) {\n        throw", "    if (!file && errno != EACCES && errno != EISDIR && errno != ENOTDIR) {\n        throw")],
  "a file name below a regular file (ENOTDIR)", "the error is not reported as an open error",
  cpp=r'''#include "ppocr/utils/read_file.hpp"
struct N { int n = 0; }; std::istream& operator>>(std::istream& is, N& n) { int x; while (is >> x) ++n.n; return is; }
int main(int, char** av) { std::string f = std::string(av[1]) + "/f"; put(f, "1 2 3\n"); try { ppocr::utils::load_from_file<N>(f + "/g"); bad = 1; } catch (std::exception const& e) { EXPECT(std::string(e.what()).find("open error") != std::string::npos); } return bad; }''')
# ---- P29
bug("b29-words", "P29", "main/make_trie_dictionary.cpp", [("        while (std::getline(file, s)) {", "        while (file >> s) {")],
  "a line with a blank in it", "it is stored as two words",
  sh=r'''printf 'a b\nc\n' > "$t/w"; "$B/make_trie_dictionary" "$t/w" > "$t/o" || exit 1
[ $(wc -l < "$t/o") = 4 ]
''')
bug("b29-missing", "P29", "main/make_trie_dictionary.cpp", [("            continue;\n", "            break;\n")],
  "a missing file before others", "the words of the files behind it are left out",
  sh=r'''printf 'a\n' > "$t/w"; "$B/make_trie_dictionary" "$t/none" "$t/w" > "$t/o" 2> /dev/null || exit 1
[ "$(cat "$t/o")" = "97 1 0 1" ]
''')
# ---- P30
bug("b30-cache", "P30", "main/ocr2_extract_text.cpp", [("        auto it = images_cache.find(img_word);\n", "        auto it = images_cache.size() < 8 ? images_cache.find(img_word) : images_cache.lower_bound(img_word);\n")],
  "a text with more than eight different glyphs", "a new glyph gets the candidates of the next bigger one",
  sh=r'''python3 - "$t" <<'E'
import sys, random
t = sys.argv[1]; random.seed(5); pics = []
while len(pics) < 12:
    w = random.randint(4, 9); rows = ["1" + "".join(random.choice("01") for _ in range(w - 2)) + "1" for _ in range(8)]
    rows[0] = "1" * w
    pics.append(rows)
def line(order, f):
    rows = [""] * 8
    for k in order:
        for r in range(8): rows[r] += pics[k][r] + "00"
    open(f, "w").write("P1\n%d 8\n%s\n" % (len(rows[0]), "\n".join(rows)))
line(range(12), t + "/teach"); open(t + "/words", "w").write(" ".join("abcdefghijkl"))
order = [3, 1, 4, 11, 5, 9, 2, 6, 8, 7, 0, 10, 3, 3, 1]; line(order, t + "/line"); open(t + "/want", "w").write(" ## result: " + "".join("abcdefghijkl"[k] for k in order) + "\n")
E
"$B/write_glyphs" "$t/teach" "$t/words" f > "$t/g0" && "$B/normalize_glyphs" "$t/g0" > "$t/g" && "$B/write_datas" "$t/g" > "$t/d" || exit 1
"$B/ocr2_extract_text" "$t/g" "$t/d" "$t/line" > "$t/o" || exit 1
grep ' ## result' "$t/o" | cmp - "$t/want"
''')
