S = "src/ppocr/"
bug("b04-short", "P04", S + "box_char/make_box_character.cpp", [("    unsigned x = idx.x();\n", "    unsigned x = static_cast<unsigned short>(idx.x());\n")],
  "a line of more than 65535 columns", "the search starts again at the left and never ends",
  cpp=r'''#include "ppocr/box_char/make_box_character.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned gap : {10u, 60000u, 70000u}) {
        Image a = pic("x" + std::string(gap, '-') + "x-x");
        unsigned n = 0, x = 0;
        while (auto b = make_box_character(a, {x, 0}, a.bounds())) { x = b.x() + b.width(); if (++n > 9) break; }
        EXPECT(n == 3);
    }
    return bad;
}''')
LINES = r'''python3 - "$t" <<'E'
import sys
t = sys.argv[1]
for n in (10, 33000, 70000): open(t + "/p%d" % n, "w").write("P1\n%d 1\n%s\n" % (n + 4, "1" + "0" * n + "101"))
open(t + "/w", "w").write("a b c")
E
'''
bug("b13-short", "P13", "main/write_glyphs.cpp", [("        x = cbox.x() + cbox.width();", "        x = static_cast<unsigned short>(cbox.x() + cbox.width());")],
  "an image of more than 65535 columns", "glyphs are taken twice",
  sh=LINES + r'''for n in 10 33000 70000; do timeout 20 "$B/write_glyphs" "$t/p$n" "$t/w" f > "$t/o" 2>/dev/null || exit 1; [ $(grep -c f "$t/o") = 3 ] || exit 1; done
''')
bug("b27-short", "P27", "main/ocr2_extract_text.cpp", [("        if (x + 4 < cbox.x()) {", "        if (static_cast<unsigned short>(cbox.x() - x) > 4) {")],
  "a gap of 65536 to 65540 columns", "there is no space",
  sh=r'''python3 - "$t" <<'E'
import sys
t = sys.argv[1]
for n in (10, 1000, 65538): open(t + "/p%d" % n, "w").write("P1\n%d 1\n%s\n" % (n + 2, "1" + "0" * n + "1"))
E
printf '1 1 x\n1\na f 0\n' > "$t/g"; "$B/write_datas" "$t/g" > "$t/d" || exit 9
for n in 10 1000 65538; do "$B/ocr2_extract_text" "$t/g" "$t/d" "$t/p$n" 2>/dev/null | grep -qx ' ## result: a a' || exit 1; done
''')
bug("b01-digits", "P01", S + "image/image_from_file.cpp", [("            if (!consume_uint(width, ' ') || !consume_uint(height, '\\n')) {", "            if (!consume_uint(width, ' ') || !consume_uint(height, '\\n') || width > 65535 || height > 65535) {")],
  "a picture of more than 65535 columns or rows", "it is refused",
  cpp=r'''#include "ppocr/image/image_from_file.hpp"
using namespace ppocr;
int main(int, char** av) {
    for (unsigned n : {1u, 65535u, 65536u, 100000u}) {
        std::string f = std::string(av[1]) + "/p"; put(f, "P1\n" + std::to_string(n) + " 1\n" + std::string(n, '1') + "\n");
        try { EXPECT(image_from_file(f.c_str()) == pic(std::string(n, 'x'))); } catch (std::exception const&) { EXPECT(!"refused"); }
    }
    return bad;
}''')
bug("b03-short", "P03", S + "image/image.cpp", [("    for (unsigned x = from.width(); x; ) {", "    for (unsigned short x = static_cast<unsigned short>(from.width()); x; ) {")],
  "turning an image of more than 65535 columns", "rows are missing",
  cpp=r'''using namespace ppocr;
int main(int, char**) {
    for (unsigned w : {3u, 65535u, 65537u}) {
        std::string s; for (unsigned i = 0; i < w; ++i) s += i % 3 ? 'x' : '-';
        Image a = pic(s), b = a.rotate90(); EXPECT(b.width() == 1 && b.height() == w);
        for (unsigned i = 0; i < w; i += 7) EXPECT(b.data()[i] == s[w - 1 - i]);
    }
    return bad;
}''')
bug("b12-compare", "P12", S + "utils/image_compare.cpp", [("    auto const pair = std::mismatch(a.data(), a.data_end(), b.data());\n    if (pair.first == a.data_end()) {\n        return 0;\n    }\n    return (*pair.first < *pair.second) ? -1 : 1;", "    auto const n = std::min<std::size_t>(a.area(), 16384);\n    auto const pair = std::mismatch(a.data(), a.data() + n, b.data());\n    if (pair.first == a.data() + n) {\n        return 0;\n    }\n    return (*pair.first < *pair.second) ? -1 : 1;")],
  "pictures that differ only behind their first 16384 pixels", "they are not told apart while sorting, and equal ones are not merged",
  cpp=r'''#include "ppocr/utils/image_compare.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned n : {3u, 16000u, 20000u, 40000u}) {
        std::string s(n, 'x'); Image a = pic(s); s.back() = '-'; Image b = pic(s);
        EXPECT(image_compare(a, b) > 0 && image_compare(b, a) < 0 && image_compare(a, a) == 0);
    }
    return bad;
}''')
bug("b05-bars", "P05", S + "strategies/hbar.cpp", [("    return n;\n", "    return std::min(n, hbar::value_type(255));\n")],
  "a picture with more than 255 full rows apart", "255 are counted",
  cpp=r'''#include "ppocr/strategies/hbar.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned n : {3u, 255u, 256u, 700u}) {
        std::string s = "x"; for (unsigned i = 1; i < n; ++i) s += "/-/x";
        Image a = pic(s); strategies::hbar::ctx_type c; EXPECT(strategies::hbar::load(a, a, c) == n);
    }
    return bad;
}''')
bug("b08-slack", "P08", S + "ocr2/image_context.hpp", [("        if (new_sz > this->capacity_sz_) {", "        if (new_sz - new_sz / 256 > this->capacity_sz_) {")],
  "a picture that is larger than the largest before by less than one part in 256", "the turned picture lies partly outside of the buffer",
  cpp=r"""#include "ppocr/ocr2/image_context.hpp"
using namespace ppocr;
int main(int, char**) {
    ocr2::ImageContext b;
    for (unsigned n : {1000u, 1002u}) {
        Image const& i = b.img({n, 1}, [&](Pixel* p) { std::fill(p, p + n, 'x'); }); EXPECT(i.area() == n);
        Image const& r = b.img90(); EXPECT(r.area() == n && std::count(r.data(), r.data_end(), 'x') == long(n));
    }
    return bad;
}""", asan=True)
bug("b21-half", "P21", S + "ocr2/filter_by_font.cpp", [("        if (fonts.size() == 1 || font_it->second >= ambiguous.size()/2) {", "        if (fonts.size() == 1 || font_it->second * 2 >= ambiguous.size()) {")],
  "an odd number of positions, the most frequent font at the half rounded down", "the fonts are not filtered",
  cpp=r'''#include "ppocr/ocr2/filter_by_font.hpp"
#include "ppocr/ocr2/glyphs.hpp"
using namespace ppocr;
int main(int, char**) {
    ocr2::Glyphs g; std::istringstream a("1 1 x\n3\na f 0\nb g 0\nc h 0\n"); a >> g;
    std::vector<ocr2::view_ref_list> l(5); // f f g gf f|g
    l[0].push_back(g[0][0]); l[1].push_back(g[0][0]); l[2].push_back(g[0][1]);
    l[3].push_back(g[0][1]); l[3].push_back(g[0][0]); l[4].push_back(g[0][1]); l[4].push_back(g[0][2]);
    ocr2::ambiguous_t am; for (auto& x : l) am.push_back(x);
    ocr2::filter_by_font(am);
    EXPECT(l[3].size() == 1 && &l[3][0].get() == &g[0][0]); EXPECT(l[4].size() == 1 && &l[4][0].get() == &g[0][1]);
    return bad;
}''')
bug("b20-ties", "P20", S + "ocr2/filter_by_lines.cpp", [("        auto max_value_idx = std::max_element(ys.begin(), ys.begin() + bottom_ys_len) - ys.begin();\n", "        auto max_value_idx = std::max_element(ys.begin(), ys.begin() + bottom_ys_len) - ys.begin();\n        if (ys[max_value_idx] == 1) {\n            max_value_idx = bottom_ys_len - 1;\n        }\n")],
  "a line where no two glyphs end on the same row", "the lowest row is taken for the base line, not the highest of the equal ones",
  cpp=r'''#include "ppocr/ocr2/filter_by_lines.hpp"
#include "ppocr/ocr2/words_infos.hpp"
using namespace ppocr;
int main(int, char**) {
    ocr2::Glyphs g; std::istringstream a("1 1 x\n2\na f 0\nb f 0\n"); a >> g;
    ocr2::WWordsLines wl; std::istringstream b("a 1 1 1 4\n"); b >> wl;
    ocr2::WordsInfos w(g, wl);
    std::vector<Box> boxes{{{0, 0}, {2, 10}}, {{4, 0}, {2, 15}}};
    unsigned n[2];
    for (unsigned k = 0; k < 2; ++k) {
        std::vector<ocr2::view_ref_list> l(2 + k); for (auto& x : l) { x.push_back(g[0][0]); x.push_back(g[0][1]); }
        std::vector<Box> bx = boxes; if (k) bx.push_back({{8, 0}, {2, 10}}); // the same base line, twice
        ocr2::ambiguous_t am; for (auto& x : l) am.push_back(x);
        ocr2::filter_by_lines(am, w, bx);
        n[k] = unsigned(l[0].size() * 10 + l[1].size());
    }
    EXPECT(n[0] == n[1]);
    return bad;
}''')
