S = "src/ppocr/"
FEAT = r'''
#include "ppocr/defined_loader.hpp"
using namespace ppocr;
template<class S> auto val(Image const& i) { typename S::ctx_type c; auto r = i.rotate90(); return S::load(i, r, c); }
'''
def rep(c, n): return c * n

OCR = r'''
#include "ppocr/defined_loader.hpp"
#include "ppocr/ocr2/compute_image.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
#include "ppocr/ocr2/image_context.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/ocr2/data_indexes_by_words.hpp"
#include "ppocr/box_char/box.hpp"
using namespace ppocr;
struct Reader {
    PpOcrDatas datas; ocr2::Glyphs glyphs; PpOcrDataCtxs ctx;
    std::unique_ptr<ocr2::DataIndexesByWords> by_words; std::vector<unsigned> ids;
    using First = loader2::Strategy<strategies::dvgravity2, loader2::PolicyLoader::img90>;
    std::unique_ptr<ocr2::DataIndexesOrdered<First>> first; std::unique_ptr<ocr2::Probabilities> p, q;
    // pairs of picture and labels ("word font;...")
    Reader(std::vector<std::pair<std::string, std::vector<std::string>>> const& gs) {
        std::ostringstream os;
        for (auto& g : gs) {
            Image i = pic(g.first); datas.load(i);
            os << i.bounds() << ' '; os.write(i.data(), i.area()); os << '\n' << g.second.size() << '\n';
            for (auto& l : g.second) os << l << " 0\n";
        }
        std::istringstream is(os.str()); is >> glyphs;
        by_words.reset(new ocr2::DataIndexesByWords(glyphs)); ids = ocr2::get_views_indexes_ordered(glyphs);
        first.reset(new ocr2::DataIndexesOrdered<First>(datas)); p.reset(new ocr2::Probabilities(gs.size())); q.reset(new ocr2::Probabilities(gs.size()));
    }
    std::string read(Image const& i, Image const& r) {
        std::string s;
        for (ocr2::View const& v : ocr2::compute_image(PpOcrSimpleDatas{}, PpOcrComplexDatas{}, PpOcrExclusiveDatas{}, *p, *q, datas, *first, *by_words, glyphs, ids, i, r, ctx, 0.5)) {
            auto& w = glyphs.get_word(v); s += std::string(w.begin(), w.size()) + " ";
        }
        return s;
    }
    std::string read(std::string const& rows) { Image i = pic(rows), r = i.rotate90(); return read(i, r); }
};
'''
# ---- P01
bug("b01-p4-bits", "P01", S + "image/image_from_file.cpp",
  [("        for (unsigned row = 0; row < header.height; ++row) {\n            int i = 0;\n            unsigned c = 0;\n",
    "        int i = 0;\n        unsigned c = 0;\n        for (unsigned row = 0; row < header.height; ++row) {\n")],
  "a P4 picture whose width is no multiple of 8 and that has several rows", "the bits of a row go on where the row before stopped, not at a new byte",
  cpp=r'''#include "ppocr/image/image_from_file.hpp"
int main(int, char** av) {
    std::string f = std::string(av[1]) + "/a.pbm";
    put(f, std::string("P4\n9 3\n\xff\x00\x80\x80\xff\x80", 13));
    auto i = ppocr::image_from_file(f.c_str(), 128);
    EXPECT(i == pic("--------x/-xxxxxxx-/---------"));
    return bad;
}''')
bug("b01-comments", "P01", S + "image/image_from_file.cpp", [("while (p < end && *p == '#') {", "if (p < end && *p == '#') {")],
  "a header with two or more comment lines", "pictures with several comment lines are refused",
  cpp=r'''#include "ppocr/image/image_from_file.hpp"
int main(int, char** av) {
    std::string f = std::string(av[1]) + "/a.pbm";
    put(f, "P1\n# one\n# two\n2 1\n01\n");
    try { auto i = ppocr::image_from_file(f.c_str(), 128); EXPECT(i == pic("-x")); } catch (std::exception const& e) { std::puts(e.what()); bad = 1; }
    return bad;
}''')
bug("b01-green", "P01", S + "image/image_from_file.cpp", [("((396/*PPM_GREEN_WEIGHT*/ * p[1] + 511) >> 10)", "((396/*PPM_GREEN_WEIGHT*/ * p[1] + 512) >> 10)")],
  "a pixel with green 128 whose grey value is one below the luminance", "the grey value of pixels with green 128 is one too high",
  cpp=r'''#include "ppocr/image/image_from_file.hpp"
int main(int, char** av) {
    std::string f = std::string(av[1]) + "/a.ppm";
    put(f, std::string("P6\n1 1\n255\n\0\x80\0", 14));
    EXPECT(ppocr::image_from_file(f.c_str(), 50) == pic("-"));
    EXPECT(ppocr::image_from_file(f.c_str(), 49) == pic("x"));
    return bad;
}''')
# ---- P02
bug("b02-p2", "P02", S + "image/image_from_file.cpp", [("else if (header.type == '3' || header.type == '1') {", "else if (header.type <= '3') {")],
  "an ASCII grey map (P2) whose data reads like 0s and 1s", "the unsupported format P2 is read as black and white digits",
  cpp=r'''#include "ppocr/image/image_from_file.hpp"
int main(int, char** av) {
    std::string f = std::string(av[1]) + "/a.pgm";
    put(f, "P2\n2 2\n255\n10 1\n0\n");
    try { ppocr::image_from_file(f.c_str(), 128); std::puts("read"); bad = 1; } catch (std::exception const&) {}
    return bad;
}''')
bug("b02-no-rows", "P02", S + "image/image_from_file.cpp", [("    if (!img_size) {\n", "    if (!header.width) {\n")],
  "a picture of height 0", "a picture without rows is accepted",
  cpp=r'''#include "ppocr/image/image_from_file.hpp"
int main(int, char** av) {
    std::string f = std::string(av[1]) + "/a.pbm";
    put(f, "P4\n12 0\n");
    try { ppocr::image_from_file(f.c_str(), 128); std::puts("read"); bad = 1; } catch (std::exception const&) {}
    return bad;
}''')
# ---- P03
bug("b03-compare-last", "P03", S + "utils/image_compare.cpp",
  [("    auto const pair = std::mismatch(a.data(), a.data_end(), b.data());\n    if (pair.first == a.data_end()) {",
    "    auto const last = a.data() + (a.area() ? a.area() - 1 : 0);\n    auto const pair = std::mismatch(a.data(), last, b.data());\n    if (pair.first == last) {")],
  "two pictures of one size that differ in the last pixel only", "image_compare calls them equal",
  cpp=r'''#include "ppocr/utils/image_compare.hpp"
int main(int, char**) {
    EXPECT(ppocr::image_compare(pic("x-/-x"), pic("x-/--")) > 0);
    EXPECT(ppocr::image_compare(pic("x-/--"), pic("x-/-x")) < 0);
    EXPECT(ppocr::image_compare(pic("x-/-x"), pic("x-/-x")) == 0);
    return bad;
}''')
bug("b03-equal-area", "P03", S + "image/image.cpp", [("    return a.width() == b.width()\n        && a.height() == b.height()\n", "    return a.area() == b.area()\n")],
  "two pictures of different shape with the same pixels in a row", "operator== calls them equal",
  cpp=r'''int main(int, char**) { EXPECT(!(pic("xx-/x-x") == pic("xx/-x/-x"))); EXPECT(pic("xx-/x-x") == pic("xx-/x-x")); return bad; }''')
bug("b03-section-wide", "P03", S + "image/image.cpp",
  [("    cP d = from.data(idx);\n    for (unsigned y = 0;", "    if (bnd.width() == from.width()) {\n        std::copy(from.data(), from.data() + bnd.area(), data);\n        return;\n    }\n    cP d = from.data(idx);\n    for (unsigned y = 0;")],
  "a section over the whole width that starts below the first row", "sections over the whole width are cut from the top",
  cpp=r'''int main(int, char**) { auto i = pic("x-/-x/xx/--"); EXPECT(i.section({0, 1}, {2, 2}) == pic("-x/xx")); EXPECT(i.section({1, 1}, {1, 2}) == pic("x/x")); return bad; }''')
# ---- P04
bug("b04-diagonal", "P04", S + "box_char/make_box_character.cpp", [("(d+w+1 < e && is_pix_letter(*(d+w+1)))", "(d+w+1 < e - w && is_pix_letter(*(d+w+1)))")],
  "a glyph joined only by a descending diagonal that ends in the last row of the picture", "the glyph is cut in two",
  cpp=r'''#include "ppocr/box_char/make_box_character.hpp"
#include "ppocr/box_char/box.hpp"
int main(int, char**) { auto i = pic("-----/-x---/--x--"); auto b = ppocr::make_box_character(i, {0, 0}, i.bounds()); EXPECT(b.width() == 2); EXPECT(b.height() == 2); return bad; }''')
bug("b04-bottom-row", "P04", S + "box_char/make_box_character.cpp", [("(d+1 != e && is_pix_letter(*(d+1)))", "(d+w < e && is_pix_letter(*(d+1)))")],
  "a glyph whose columns touch only in the last row of the picture", "the glyph is cut in two",
  cpp=r'''#include "ppocr/box_char/make_box_character.hpp"
#include "ppocr/box_char/box.hpp"
int main(int, char**) { auto i = pic("-----/-x---/-xxx-"); auto b = ppocr::make_box_character(i, {0, 0}, i.bounds()); EXPECT(b.width() == 3); return bad; }''')
bug("b04-wrap", "P04", S + "box_char/make_box_character.cpp", [("(d-w+1 >= image.data() && is_pix_letter(*(d-w+1)))", "(d-w+1 >= image.data() + w && is_pix_letter(*(d-w+1)))")],
  "a glyph joined only by a rising diagonal that ends in the first row", "the glyph is cut in two",
  cpp=r'''#include "ppocr/box_char/make_box_character.hpp"
#include "ppocr/box_char/box.hpp"
int main(int, char**) { auto i = pic("---x-/--x--/-----"); auto b = ppocr::make_box_character(i, {0, 0}, i.bounds()); EXPECT(b.width() == 2); return bad; }''')
# ---- P05
bug("b05-dz-round", "P05", S + "strategies/dzdensity.cpp", [("(     yp + area       ) / h3", "(     yp + area + h3-1) / h3")],
  "a picture whose diagonal band does not end on whole pixels", "the band is a pixel too wide on some rows",
  cpp=FEAT + r'''int main(int, char**) { 
    // the band by its definition, on a picture that is its complement
    for (int w = 3; w < 12; ++w) for (int h = 3; h < 12; ++h) {
        std::string s; double ink = 0;
        for (int y = 0; y < h; ++y) { if (y) s += '/'; for (int x = 0; x < w; ++x) { int lo = 3 * w * (y + 1) - w * h, hi = 3 * w * y + w * h; // 3h*x >= lo and 3h*(x+1) <= hi
            bool in = 3 * h * x >= lo && 3 * h * (x + 1) <= hi; ink += in; s += in ? '-' : 'x'; } }
        EXPECT(val<strategies::dzdensity>(pic(s)) == 0);
    }
    return bad; }''')
bug("b05-density-round", "P05", S + "strategies/density.cpp", [("return count * 100 / img.area();", "return (count * 100 + img.area() / 2) / img.area();")],
  "a picture whose density has a fraction of a half or more", "the density is rounded up",
  cpp=FEAT + r'''int main(int, char**) { EXPECT(val<strategies::density>(pic("xx-")) == 66); return bad; }''')
# ---- P06
bug("b06-gravity-sum", "P06", S + "strategies/utils/horizontal_gravity.hpp", [("    unsigned h = is_top ? bnd.height() : 1;", "    unsigned char h = is_top ? bnd.height() : 1;")],
  "a glyph of over 511 rows", "the distance of a row from the middle wraps at 8 bits",
  cpp=FEAT + r'''int main(int, char**) { std::string s; for (int i = 0; i < 600; ++i) s += std::string(i ? 1 : 0, '/') + std::string(2, i == 299 || i == 599 ? 'x' : '-'); EXPECT(val<strategies::hgravity>(pic(s)) == 0); return bad; }''')
bug("b06-dv-right", "P06", S + "strategies/utils/diagonal_vertical_gravity.hpp", [("            auto rightp = p + bnd.width() - x;", "            auto rightp = p + (x ? bnd.width() - x : wdiv2 * 2);")],
  "a picture of odd width with ink in the last column of a row the cone covers completely", "the last column is left out of the diagonal gravity",
  cpp=FEAT + r'''int main(int, char**) { EXPECT(val<strategies::dvgravity>(pic("--x/---")) == 200); EXPECT(val<strategies::dvgravity>(pic("x--/---")) == 200); return bad; }''')
# ---- P07
bug("b07-sides", "P07", S + "strategies/proportionality_zone.cpp",
  [("          : zone_info.right()[i] ? zone_info.right()[i]\n          : zone_info.bottom()[i] ? zone_info.bottom()[i]\n", "          : zone_info.bottom()[i] ? zone_info.bottom()[i]\n          : zone_info.right()[i] ? zone_info.right()[i]\n")],
  "a white zone that touches the right and the bottom edge with different lengths, but not the top", "the zone is measured on the wrong edge",
  cpp=FEAT + r'''int main(int, char**) { auto v = val<strategies::proportionality_zone>(pic("xxxx/-xx-/-xx-/-xx-")); EXPECT(v.size() == 2); EXPECT(v[0] == 25 && v[1] == 75); return bad; }''')
bug("b07-middle", "P07", S + "strategies/alternations.cpp", [("make_alternations(img90, {0, (bnd.height()-1)/2}, bnd.width());", "make_alternations(img90, {0, bnd.height()/2}, bnd.width());")],
  "a picture of even width", "the middle column is taken one to the left",
  cpp=FEAT + r'''int main(int, char**) { auto a = val<strategies::alternations>(pic("-x/-x/--/--/-x")); auto b = val<strategies::alternations>(pic("x-/x-/--/--/x-")); EXPECT(b[4].count != a[4].count); EXPECT(a[4].count == 3); return bad; }''')
# ---- P08
bug("b08-late-reset", "P08", [S + "ocr2/compute_image.hpp"] * 2,
  [("    ctx.reset();\n\n    compute_simple_universe(", "    compute_simple_universe("),
   ("        ocr2::insert_views(cache_element, probabilities, glyphs, probabilities.front().prob * limit_prob_for_insert);\n    }\n\n    return cache_element;",
    "        ocr2::insert_views(cache_element, probabilities, glyphs, probabilities.front().prob * limit_prob_for_insert);\n    }\n\n    ctx.reset();\n    return cache_element;")],
  "a picture read after one that was recognised exactly (early return)", "the features of the picture before are kept",
  cpp=OCR + r'''int main(int, char**) {
    Reader a({{"xxx/x-x/x-x/xxx/x--/x--", {"p f"}}, {"x--/x--/x--/x--/x--/xxx", {"L f"}}, {"xxx/-x-/-x-/-x-/-x-/-x-", {"T f"}}});
    EXPECT(a.read("xxx/x-x/x-x/xxx/x--/x--") == "p ");
    EXPECT(a.read("x--/x--/x--/x--/x--/xxx") == "L ");
    EXPECT(a.read("xxx/-x-/-x-/-x-/-x-/-x-") == "T ");
    return bad;
}''')
bug("b08-img90", "P08", S + "ocr2/image_context.hpp", [("    ppocr::Image const & img90() {\n", "    ppocr::Image const & img90() {\n        if (this->img90_ && this->img90_.width() == this->img_.height() && this->img90_.height() == this->img_.width()) {\n            return this->img90_;\n        }\n")],
  "two pictures of the same size, one after the other, in one ImageContext", "the second gets the rotated picture of the first",
  cpp=r'''#include "ppocr/ocr2/image_context.hpp"
using namespace ppocr;
int main(int, char**) {
    ocr2::ImageContext c;
    for (char const* s : {"x-/--/-x", "-x/xx/--"}) {
        auto i = pic(s);
        auto& j = c.img(i.bounds(), [&](Pixel* p) { std::copy(i.data(), i.data_end(), p); });
        EXPECT(j == i); EXPECT(c.img90() == i.rotate90());
    }
    return bad;
}''')
# ---- P09
bug("b09-interval", "P09", S + "strategies/relationship/interval.hpp", [("return (a < b) ? (b > a + d) : (a > b + d);", "return (a < b) ? (b > a + d) : (a >= b + d);")],
  "a learned value exactly the tolerance above the measured one, or equal with tolerance 0", "the tolerance test depends on the side",
  cpp=FEAT + r'''using R = strategies::density::relationship_type; int main(int, char**) { EXPECT(!R::in_dist(30, 20, 10)); EXPECT(!R::in_dist(20, 30, 10)); EXPECT(R::in_dist(31, 20, 10)); EXPECT(!R::in_dist(5, 5, 0)); return bad; }''')
bug("b09-array", "P09", S + "strategies/relationship/array_compare.hpp", [("return compute(a, b) >= d;", "return compute(a, b) > d;")],
  "two values whose similarity is exactly the threshold", "they are taken for too different",
  cpp=FEAT + r'''using R = strategies::alternations::relationship_type; int main(int, char**) { R::value_type a{}, b{}; EXPECT(R::in_dist(a, b, 100)); return bad; }''')
# ---- P10
bug("b10-info", "P10", S + "loader2/glyphs_loader.cpp", [("    return os << view.word << ' ' << view.font << ' ' << view.info_line;", "    return os << view.word << ' ' << view.font << ' ' << static_cast<int>(view.info_line);")],
  "an info line above 2^31 - 1 (write_glyphs writes ~0u)", "the number is written with a minus sign",
  cpp=r'''#include "ppocr/loader2/glyphs_loader.hpp"
int main(int, char**) { std::ostringstream os; os << ppocr::loader2::View{"a", "f", 4000000000u}; EXPECT(os.str() == "a f 4000000000"); return bad; }''')
# ---- P11
bug("b12-info", "P12", S + "loader2/glyphs_loader.hpp", [("return a.word == b.word && a.font == b.font && a.info_line == b.info_line;", "return a.word == b.word && a.font == b.font;")],
  "equal pictures whose labels differ in the info line only", "one of the labels is lost",
  sh=r'''printf '1 1 x\n1\na f 1\n1 1 x\n1\na f 2\n' > "$t/g"
"$B/normalize_glyphs" "$t/g" > "$t/o" || exit 1
printf '1 1 x\n2\na f 1\na f 2\n' | cmp - "$t/o"
''')
bug("b12-read", "P12", "main/normalize_glyphs.cpp", [("        if (!file.eof()) {", "        if (file.bad()) {")],
  "a glyph file with a damaged line in the middle", "the rest of the file is dropped without an error",
  sh=r'''printf '1 1 x\n1\na f 1\noops\n1 1 -\n1\nb f 1\n' > "$t/g"
"$B/normalize_glyphs" "$t/g" > "$t/o" 2>&1 && exit 1
exit 0
''')
bug("b12-labels", "P12", "main/normalize_glyphs.cpp", [("        while (++first < pos) {\n            views.insert(views.end(), first->views.begin(), first->views.end());", "        while (++first < pos) {\n            if (first->views.size() < views.size()) {\n                continue;\n            }\n            views.insert(views.end(), first->views.begin(), first->views.end());")],
  "equal pictures of which a later one has fewer labels", "labels of the later one are lost",
  sh=r'''printf '1 1 x\n2\na f 1\nb f 1\n1 1 x\n1\nc f 1\n' > "$t/g"
"$B/normalize_glyphs" "$t/g" > "$t/o" || exit 1
[ $(grep -c ' f ' "$t/o") = 3 ]
''')
# ---- P13
bug("b13-lum", "P13", "main/show_glyphs.cpp", [("image_from_file(imagefilename, luminance);", "image_from_file(imagefilename, luminance > 128 ? 128 : luminance);")],
  "show_glyphs -l with a luminance over 128", "it shows the picture for 128",
  sh=r'''printf 'P6\n2 1\n255\n\226\226\226\377\377\377' > "$t/a.ppm"
"$B/show_glyphs" -l 200 "$t/a.ppm" > "$t/o" || exit 1
printf ':::\n:x:\n:::\n\n' | cmp - "$t/o"
''')
bug("b13-extra", "P13", "main/write_glyphs.cpp", [("    if (file >> s) {\n        throw_error", "    if (x == 0 && file >> s) {\n        throw_error")],
  "a text with more words than the picture has glyphs", "the surplus words are ignored",
  sh=r'''printf 'P1\n3 1\n010\n' > "$t/a.pbm"; echo 'a b' > "$t/w"
"$B/write_glyphs" "$t/a.pbm" "$t/w" f > "$t/o" 2>&1 && exit 1
echo 'a' > "$t/w"
"$B/write_glyphs" "$t/a.pbm" "$t/w" f > "$t/o"
''')
bug("b13-second", "P13", "main/write_glyphs.cpp", [("    unsigned x = 0;\n", "    static unsigned x = 0;\n    if (x >= img.width()) {\n        x = 0;\n    }\n")],
  "several pictures in one call, the later ones wider than where the last glyph of the earlier one ends", "the later picture is not read from its left edge",
  sh=r'''printf 'P1\n3 1\n010\n' > "$t/a.pbm"; printf 'P1\n7 1\n0101010\n' > "$t/b.pbm"; echo a > "$t/w"; echo a b c > "$t/v"
"$B/write_glyphs" "$t/a.pbm" "$t/w" f "$t/b.pbm" "$t/v" f > "$t/o" || exit 1
[ $(grep -c '^. f ' "$t/o") = 4 ]
''')
# ---- P14
bug("b14-line", "P14", "main/write_datas.cpp", [("            datas.load(img);", "            if (img.area() > 1) {\n                datas.load(img);\n            }")],
  "a glyph of a single pixel", "it gets no data, so that the data no longer line up with the glyphs",
  sh=r'''printf '1 2 x-\n1\na f 1\n1 1 x\n1\nb f 1\n' > "$t/g"
"$B/write_datas" "$t/g" > "$t/o" || exit 1
[ "$(head -1 "$t/o")" = 2 ]
''')
