S = "src/ppocr/"
bug("b04-far", "P04", S + "box_char/make_box_character.cpp", [("    auto d = image.data({x, idx.y()});\n    for (; x < bnd.width(); ++x) {", "    auto d = image.data({x, idx.y()});\n    for (; x < bnd.width(); ++x) {\n        if (x - idx.x() > 4096) {\n            x = bnd.width();\n            break;\n        }")],
  "a glyph behind more than 4096 empty columns", "it and all behind it are missing",
  cpp=r'''#include "ppocr/box_char/make_box_character.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned gap : {10u, 4000u, 5000u, 9000u}) {
        Image a = pic("x" + std::string(gap, '-') + "x");
        unsigned n = 0, x = 0;
        while (auto b = make_box_character(a, {x, 0}, a.bounds())) { ++n; x = b.x() + b.width(); }
        EXPECT(n == 2);
    }
    return bad;
}''')
bug("b04-tall", "P04", S + "box_char/make_box_character.cpp", [("    unsigned h = bnd.height();\n", "    unsigned h = std::min(bnd.height(), y + 1024u);\n")],
  "a glyph more than 1024 rows tall", "its bottom is cut",
  cpp=r'''#include "ppocr/box_char/make_box_character.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned h : {3u, 1000u, 1500u, 3000u}) {
        std::string s = "-x"; for (unsigned i = 1; i < h; ++i) s += "/-x";
        Image a = pic(s);
        auto b = make_box_character(a, {0, 0}, a.bounds());
        EXPECT(b.height() == h && b.y() == 0 && b.x() == 1);
    }
    return bad;
}''')
bug("b03-print", "P03", S + "image/image.cpp", [("        os.write(p, image.width());", "        os << std::string(p, std::min<std::size_t>(image.width(), 512));")],
  "an image more than 512 columns wide", "its rows are printed cut",
  cpp=r'''using namespace ppocr;
int main(int, char**) {
    for (unsigned w : {3u, 500u, 600u, 2000u}) {
        Image a = pic(std::string(w, 'x'));
        std::ostringstream o; o << a;
        EXPECT(o.str().find(":" + std::string(w, 'x') + ":\n") != std::string::npos);
    }
    return bad;
}''')
bug("b10-word", "P10", S + "loader2/glyphs_loader.cpp", [("    return is >> view.word >> view.font >> view.info_line;", "    is.width(256);\n    return is >> view.word >> view.font >> view.info_line;")],
  "a word of 256 bytes or more", "it is read as a word and a font",
  cpp=r'''#include "ppocr/loader2/glyphs_loader.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned n : {1u, 200u, 255u, 256u, 300u, 1000u}) {
        std::string t = "1 1 x\n1\n" + std::string(n, 'a') + " f 7\n";
        loader2::Glyphs g; std::istringstream i(t); i >> g;
        EXPECT(i.eof() && g.size() == 1); std::ostringstream o; o << g; EXPECT(o.str() == t);
    }
    return bad;
}''')
bug("b13-word", "P13", "main/write_glyphs.cpp", [("        if (!(file >> s)) {", "        file.width(128);\n        if (!(file >> s)) {")],
  "a word of 128 bytes or more in the list", "it is paired in two pieces",
  sh=r'''printf 'P1\n3 1\n101\n' > "$t/p"
w=$(printf 'a%.0s' $(seq 300))
echo "$w b" > "$t/w"
"$B/write_glyphs" "$t/p" "$t/w" f > "$t/o" 2>/dev/null || exit 1
grep -q "^$w f " "$t/o" && grep -q '^b f ' "$t/o"
''')
bug("b29-long", "P29", "main/make_trie_dictionary.cpp", [("            words.push_back(s);", "            if (s.size() <= 1000) {\n                words.push_back(s);\n            }")],
  "a word of more than 1000 bytes", "it is left out without a message",
  sh=r'''w=$(printf 'ab%.0s' $(seq 700))
printf '%s\nx\n' "$w" > "$t/w"
"$B/make_trie_dictionary" "$t/w" > "$t/o" || exit 1
[ $(wc -l < "$t/o") = 1401 ]
''')
bug("b23-deep", "P23", S + "spell/word_disambiguouser.hpp", [("        for (auto & s : *first) {\n            if (", "        unsigned alternatives = 0;\n        for (auto & s : *first) {\n            if (++alternatives > 12) {\n                break;\n            }\n            if (")],
  "a position with more than twelve candidates of which only a late one spells a word", "the word is not found",
  cpp=r'''#include "ppocr/spell/word_disambiguouser.hpp"
using namespace ppocr;
int main(int, char**) {
    spell::Dictionary d(std::vector<std::string>{"zq"});
    for (unsigned n : {1u, 5u, 12u, 20u}) {
        std::vector<std::vector<std::string>> l(2);
        for (unsigned i = 1; i < n; ++i) l[0].push_back(std::string(1, char('a' + i)));
        l[0].push_back("z"); l[1].push_back("q");
        std::string o; EXPECT(spell::WordDisambiguouser()(d, l.begin(), l.end(), o) && o == "zq");
    }
    return bad;
}''')
bug("b26-rules", "P26", S + "ocr2/replacement.cpp", [("        if (is) {\n            replacements.push_back(rep);", "        if (is && replacements.size() < 256) {\n            replacements.push_back(rep);")],
  "a file of more than 256 rules", "the rest is not applied",
  cpp=r'''#include "ppocr/ocr2/replacement.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned n : {3u, 200u, 257u, 1000u}) {
        std::string t; for (unsigned i = 0; i < n; ++i) t += "p" + std::to_string(i) + " r\n";
        t += "last"; ocr2::Replacements r; std::istringstream i(t); i >> r;
        EXPECT(r.size() == n + 1 && r.back().pattern == "last");
    }
    return bad;
}''')
bug("b26-many", "P26", S + "ocr2/replacement.hpp", [("        std::string::size_type pos = 0;\n", "        std::string::size_type pos = 0;\n        unsigned times = 0;\n"), ("            pos += rep.replace.size();", "            pos += rep.replace.size();\n            // never endless\n            if (++times == 10000) {\n                break;\n            }")],
  "a text with more than 10000 occurrences of a pattern", "the others stay",
  cpp=r'''#include "ppocr/ocr2/replacement.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned n : {3u, 9999u, 20000u}) {
        ocr2::Replacements r; r.push_back({"a", "b"}); std::string s(n, 'a'); ocr2::replace_words(s, r);
        EXPECT(s == std::string(n, 'b'));
    }
    return bad;
}''')
bug("b01-count", "P01", S + "image/image_from_file.cpp", [("            // skip comments ('#'...'\\n')\n            while (p < end && *p == '#') {", "            // skip comments ('#'...'\\n')\n            auto const last_comment = (end - p > 4096) ? p + 4096 : end;\n            while (p < last_comment && *p == '#') {")],
  "more than 4096 bytes of comments", "the picture is refused",
  cpp=r'''#include "ppocr/image/image_from_file.hpp"
using namespace ppocr;
int main(int, char** av) {
    for (unsigned n : {1u, 100u, 1000u}) {
        std::string t = "P1\n"; for (unsigned i = 0; i < n; ++i) t += "# a comment\n"; t += "2 1\n10\n";
        std::string f = std::string(av[1]) + "/p"; put(f, t);
        try { EXPECT(image_from_file(f.c_str()) == pic("x-")); } catch (std::exception const& e) { EXPECT(!"refused"); }
    }
    return bad;
}''')
bug("b24-spaces", "P24", S + "ocr2/disambiguous_with_dict.cpp", [("        if (middle == e && e != last) {\n            result += ' ';\n            ++it_space;", "        if (middle == e && e != last) {\n            if (result.size() < 5000) {\n                result += ' ';\n            }\n            ++it_space;")],
  "a text of more than 5000 characters", "its later spaces are missing",
  cpp=r'''#include "ppocr/ocr2/disambiguous_with_dict.hpp"
#include "ppocr/ocr2/glyphs.hpp"
#include "ppocr/spell/dictionary.hpp"
using namespace ppocr;
int main(int, char**) {
    ocr2::Glyphs gl; std::istringstream a("1 1 x\n1\na f 0\n"); a >> gl;
    for (unsigned n : {8u, 2000u, 6000u}) {
        std::vector<ocr2::view_ref_list> l(n); for (auto& x : l) x.push_back(gl[0][0]);
        ocr2::ambiguous_t am; for (auto& x : l) am.push_back(x);
        std::vector<unsigned> sp; std::string want; for (unsigned i = 0; i < n; ++i) { if (i) { sp.push_back(i); want += ' '; } want += 'a'; } sp.push_back(n);
        std::string r; ocr2::disambiguous_with_dict(am, gl, spell::Dictionary(), sp.cbegin(), r);
        EXPECT(r == want);
    }
    return bad;
}''')
bug("b12-views", "P12", "main/normalize_glyphs.cpp", [("            views.insert(views.end(), first->views.begin(), first->views.end());", "            views.insert(views.end(), first->views.begin(), first->views.end());\n            // keeps the work small\n            if (views.size() > 3000) {\n                views.resize(3000);\n            }")],
  "a picture with more than 3000 labels in all its copies", "the others are lost",
  sh=r'''python3 - "$t/g" <<'E'
import sys
with open(sys.argv[1], "w") as f:
    for i in range(3500): f.write("2 1 x-\n1\nw%d f 0\n" % i)
E
"$B/normalize_glyphs" "$t/g" > "$t/o" 2>/dev/null || exit 1
[ $(grep -c '^w' "$t/o") = 3500 ]
''')
bug("b33-dir", "P33", S + "utils/read_file.hpp", [("    reader(file);\n\n    if (!file.eof()) {", "    // nothing to read\n    if (file.peek() == std::ifstream::traits_type::eof()) {\n        return;\n    }\n\n    reader(file);\n\n    if (!file.eof()) {")],
  "a directory in place of a table", "it is taken for an empty one",
  sh=r'''printf '1 1 x\n1\na f 0\n' > "$t/g"
"$B/write_datas" "$t/g" > "$t/d" || exit 9
printf 'P1\n1 1\n1\n' > "$t/p"
"$B/ocr2_extract_text" "$t/g" "$t/d" "$t/p" > /dev/null 2>&1 || exit 1
mkdir "$t/dir"
"$B/ocr2_extract_text" "$t/g" "$t/d" "$t/p" "$t/dir" > /dev/null 2>&1 && exit 1
exit 0
''')
bug("b30-thin", "P30", "main/ocr2_extract_text.cpp", [("        auto it = images_cache.find(img_word);\n        if (it != images_cache.end()) {", "        auto it = images_cache.find(img_word);\n        // solid glyphs are all alike\n        if (it == images_cache.end() && images_cache.size() > 20 && cbox.width() == 1) {\n            it = images_cache.lower_bound(img_word);\n        }\n        if (it != images_cache.end()) {")],
  "a line with more than twenty different glyphs, then a new one of one column", "it is read as another glyph",
  sh=r'''python3 - "$t" <<'E'
import sys
t = sys.argv[1]
gl = []
for k in range(30):
    rows = ["11111"] + ["1" + "".join("1" if (k >> b) & 1 else "0" for b in range(3)) + "1"] * 2 + ["11111"] + ["1" + "".join("1" if (k >> (b + 3)) & 1 else "0" for b in range(3)) + "1"] * 2 + ["11111"]
    gl.append(rows)
gl.append(["1"] * 7)
words = ["g%d" % i for i in range(30)] + ["bar"]
H = 7
rows = [""] * H
for g in gl:
    for y, r in enumerate(g): rows[y] += r + "00"
open(t + "/p", "w").write("P1\n%d %d\n%s\n" % (len(rows[0]), H, "\n".join(rows)))
open(t + "/w", "w").write(" ".join(words))
E
"$B/write_glyphs" "$t/p" "$t/w" f > "$t/g0" 2>/dev/null || exit 9
"$B/normalize_glyphs" "$t/g0" > "$t/g" 2>/dev/null || exit 9
"$B/write_datas" "$t/g" > "$t/d" || exit 9
"$B/ocr2_extract_text" "$t/g" "$t/d" "$t/p" 2>/dev/null | grep '## result' | grep -q 'bar$'
''')
