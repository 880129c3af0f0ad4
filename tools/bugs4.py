S = "src/ppocr/"
SHIP = r'''R=resources; G=$R/glyphs/normalized-glyphs-latin.txt; D=$R/datas/latin.txt
'''
# ---- P35
bug("b35-cap", "P35", S + "ocr2/data_indexes_ordered.hpp", [("        return ppocr::ocr2::range_bounds(\n            data,\n            this->indexes_ordered,\n            x > d ? x-d : 0u,\n            x + d\n        );", "        auto r = ppocr::ocr2::range_bounds(\n            data,\n            this->indexes_ordered,\n            x > d ? x-d : 0u,\n            x + d\n        );\n        if (r.size() > 2048) {\n            auto first = this->indexes_ordered.begin() + (&r.front() - this->indexes_ordered.begin());\n            return {first, first + 2048};\n        }\n        return r;")],
  "a table with thousands of glyphs of similar balance", "some glyphs are never compared",
  cpp=r'''#include "ppocr/ocr2/indexes_ordered.hpp"
#include "ppocr/defined_loader.hpp"
#include "ppocr/ocr2/data_indexes_ordered.hpp"
using namespace ppocr;
int main(int, char**) {
    using First = loader2::Strategy<strategies::dvgravity2, loader2::PolicyLoader::img90>;
    PpOcrDatas datas; std::ifstream f("resources/datas/latin.txt"); f >> datas;
    ocr2::DataIndexesOrdered<First> o(datas);
    auto const& d = datas.get<First>();
    for (unsigned x : {0u, 40u, 50u, 60u, 100u}) {
        std::size_t n = 0; for (unsigned i = 0; i < datas.size(); ++i) n += d[i] + 10 >= x && d[i] <= x + 10;
        EXPECT(std::size_t(o.get_range(datas, x, 10).size()) == n);
    }
    return bad;
}''')
bug("b35-dup", "P35", "main/normalize_glyphs.cpp", [("        std::sort(views.begin(), views.end());\n", "        if (views.size() < 64) {\n            std::sort(views.begin(), views.end());\n        }\n")],
  "a picture taught in more than sixty ways", "repeated labels stay",
  sh=r'''python3 - "$t" <<'EOF'
import sys
open(sys.argv[1] + "/g", "w").write("".join("1 2 x-\n1\nw%d f 0\n" % (i % 40) for i in range(80)))
EOF
[ "$("$B/normalize_glyphs" "$t/g" 2> /dev/null | sed -n 2p)" = 40 ] || exit 1
exit 0
''')
# ---- P36
bug("b36-short", "P36", S + "container/trie.hpp", [("                elems_[pos].pos_ = sz-pos;", "                elems_[pos].pos_ = (sz-pos) & 0xffff;")],
  "a dictionary with a level of more than 65536 nodes", "the children of some nodes are taken from elsewhere",
  sh=r'''"$B/make_trie_dictionary" resources/dict_fr.txt > "$t/d" || exit 1
python3 - "$t/d" <<'EOF'
import sys
v = [tuple(map(int, l.split())) for l in open(sys.argv[1])]
n, seen = 0, [0] * len(v)
for i, (c, pos, cnt, t) in enumerate(v):
    n += t
    for k in range(i + pos, i + pos + cnt): seen[k] += 1
sys.exit(not (n == 336531 and max(seen) == 1))
EOF
''')
bug("b36-wide", "P36", S + "container/trie.hpp", [("            return std::lower_bound(this->begin(), this->end(), x, [](node_type const & node, U const & x) {\n                return node.get() < x;\n            });\n        }\n\n    private:\n        node_type const * beg_;", "            auto n = this->size();\n            auto first = this->begin();\n            for (unsigned k = 0; n && k < 14; ++k) {\n                auto const half = n / 2;\n                if (first[half].get() < x) {\n                    first += half + 1;\n                    n -= half + 1;\n                }\n                else {\n                    n = half;\n                }\n            }\n            return first;\n        }\n\n    private:\n        node_type const * beg_;")],
  "a node with more than 16383 children", "some of the children are not found",
  cpp=r'''#include "ppocr/spell/dictionary.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
using namespace ppocr;
static std::string u(unsigned c) { return {char(0xE0 | c >> 12), char(0x80 | (c >> 6 & 63)), char(0x80 | (c & 63))}; }
int main(int, char**) {
    std::vector<std::string> v; for (unsigned c = 0x1000; c < 0xD000; ++c) v.push_back(u(c));
    spell::Dictionary d(v);
    for (auto& w : v) { std::vector<std::vector<std::string>> p{{w}}; std::string out; if (!spell::WordDisambiguouser()(d, p.begin(), p.end(), out)) bad = 1; }
    return bad;
}''')
bug("b36-load", "P36", S + "spell/dictionary.cpp", [("    unsigned pos;\n", "    unsigned short pos;\n")],
  "a saved dictionary with node offsets beyond 65535", "it is refused",
  sh=r'''"$B/make_trie_dictionary" resources/dict_fr.txt > "$t/d" || exit 1
printf '1 2 x-\n1\na f 1\n' > "$t/g"; printf 'P1\n3 3\n000\n010\n000\n' > "$t/i"; "$B/write_datas" "$t/g" > "$t/x" || exit 1
: > "$t/w"
"$B/ocr2_extract_text" "$t/g" "$t/x" "$t/i" "$t/w" "$t/d" > "$t/o" 2>&1 || exit 1
exit 0
''')
# ---- P37
LINE = r'''printf 'P1\n5 3\n01010\n01010\n00000\n' > "$t/a.pbm"; printf 'a\nb\n' > "$t/w"
'''
bug("b37-stdin", "P37", S + "image/image_from_file.cpp", [("        if (file.fd < 0) {", "        if (file.fd <= 0) {")],
  "a closed standard input", "the image is not read",
  sh=LINE + r'''"$B/write_glyphs" "$t/a.pbm" "$t/w" f > "$t/o1" || exit 1
"$B/write_glyphs" "$t/a.pbm" "$t/w" f > "$t/o2" <&- || exit 1
"$B/show_glyphs" "$t/a.pbm" > /dev/null <&- || exit 1
cmp -s "$t/o1" "$t/o2"
''')
bug("b37-locale", "P37", "main/normalize_glyphs.cpp", [("    if (ac < 2) {\n        std::cerr << av[0] << \"glyph_file [...]\\n\";", "    std::locale::global(std::locale(\"\"));\n\n    if (ac < 2) {\n        std::cerr << av[0] << \"glyph_file [...]\\n\";"), ("#include <iostream>\n", "#include <iostream>\n#include <locale>\n")],
  "an environment that names a locale that is not installed", "the tool aborts",
  sh=r'''printf '1 2 x-\n1\na f 1\n' > "$t/g"
LC_ALL=C "$B/normalize_glyphs" "$t/g" > "$t/o1" 2> /dev/null || exit 1
env -u LC_ALL LANG=xx_YY.UTF-8 "$B/normalize_glyphs" "$t/g" > "$t/o2" 2> /dev/null || exit 1
cmp -s "$t/o1" "$t/o2"
''')
bug("b37-same", "P37", "main/show_glyphs.cpp", [("    Image img = image_from_file(imagefilename, luminance);\n", "    static std::string last;\n    if (last == imagefilename) {\n        return;\n    }\n    last = imagefilename;\n    Image img = image_from_file(imagefilename, luminance);\n")],
  "the same image named twice in a row", "it is shown once",
  sh=LINE + r'''cp "$t/a.pbm" "$t/b.pbm"
"$B/show_glyphs" "$t/a.pbm" "$t/b.pbm" > "$t/o1" || exit 1
"$B/show_glyphs" "$t/a.pbm" "$t/a.pbm" > "$t/o2" || exit 1
cmp -s "$t/o1" "$t/o2"
''')
bug("b37-name", "P37", S + "image/image_from_file.cpp", [("        File file(filename);\n", "        // names are at most 128 bytes\n        char name[128];\n        std::size_t const n = strlen(filename);\n        std::size_t const skip = n < sizeof(name) ? 0 : n - sizeof(name) + 1;\n        strcpy(name, filename + skip);\n        File file(name);\n")],
  "an image with a name of more than 127 characters", "it is not found",
  sh=LINE + r'''n=$(printf 'n%.0s' $(seq 150)); cp "$t/a.pbm" "$t/$n"
"$B/show_glyphs" "$t/a.pbm" > "$t/o1" || exit 1
"$B/show_glyphs" "$t/$n" > "$t/o2" || exit 1
cmp -s "$t/o1" "$t/o2"
''')
# ---- thresholds and rare states in the others
bug("b01-comments16", "P01", S + "image/image_from_file.cpp", [("            while (p < end && *p == '#') {", "            for (unsigned n = 0; n < 9 && p < end && *p == '#'; ++n) {")],
  "a picture with more than nine comment lines", "it is refused",
  sh=r'''python3 - "$t" <<'EOF'
import sys
open(sys.argv[1] + "/a", "w").write("P1\n" + "# c\n" * 12 + "3 3\n000\n010\n000\n")
EOF
"$B/show_glyphs" "$t/a" > /dev/null
''')
bug("b01-terms", "P01", S + "image/image_from_file.cpp", [("                = ((511/*PPM_RED_WEIGHT*/   * p[0] + 511) >> 10)\n                + ((396/*PPM_GREEN_WEIGHT*/ * p[1] + 511) >> 10)\n                + ((117/*PPM_BLUE_WEIGHT*/  * p[2] + 511) >> 10);", "                = (511/*PPM_RED_WEIGHT*/   * p[0]\n                 + 396/*PPM_GREEN_WEIGHT*/ * p[1]\n                 + 117/*PPM_BLUE_WEIGHT*/  * p[2] + 511) >> 10;")],
  "a colour whose rounded terms sum to something else than the rounded sum, at the threshold", "the pixel changes side",
  cpp=r'''#include "ppocr/image/image_from_file.hpp"
using namespace ppocr;
int main(int, char** av) {
    std::string f = std::string(av[1]) + "/i";
    for (unsigned r = 0; r < 256; r += 5) for (unsigned g = 0; g < 256; g += 85) {
        unsigned b = (r * 7 + g) % 256, y = ((511 * r + 511) >> 10) + ((396 * g + 511) >> 10) + ((117 * b + 511) >> 10);
        put(f, std::string("P6\n1 1\n255\n") + char(r) + char(g) + char(b));
        for (unsigned l : {y - 1, y, y + 1}) if (l < 256) EXPECT((image_from_file(f.c_str(), l).data()[0] == 'x') == (y >= l));
    }
    return bad;
}''')
bug("b02-wrap", "P02", S + "image/image_from_file.cpp", [("    std::size_t img_size = static_cast<std::size_t>(header.width) * header.height;", "    std::size_t img_size = header.width * header.height;")],
  "dimensions whose product exceeds 32 bits by a small amount", "a small picture with huge dimensions is returned",
  cpp=r'''#include "ppocr/image/image_from_file.hpp"
using namespace ppocr;
int main(int, char** av) {
    std::string f = std::string(av[1]) + "/i";
    put(f, "P1\n2147483649 2\n01\n"); // 2^32 + 2
    bool refused = false; try { image_from_file(f.c_str(), 128); } catch (std::exception const&) { refused = true; }
    EXPECT(refused); return bad;
}''')
bug("b02-cr", "P02", S + "image/image_from_file.cpp", [("        for (; p < end && (*p == ' ' || *p == '\\n'); ++p) {", "        for (; p < end && *p <= ' '; ++p) {")],
  "control characters behind the last digit", "the file is accepted",
  cpp=r'''#include "ppocr/image/image_from_file.hpp"
using namespace ppocr;
int main(int, char** av) {
    std::string f = std::string(av[1]) + "/i";
    put(f, "P1\n1 1\n1\r\n");
    bool refused = false; try { image_from_file(f.c_str(), 128); } catch (std::exception const&) { refused = true; }
    EXPECT(refused); return bad;
}''')
bug("b18-interleave", "P18", S + "ocr2/glyphs.cpp", [("            buf_word_sz += p.first.size() / sizeof(unsigned) + 2;", "            buf_word_sz += (p.first.size() & 0xff) / sizeof(unsigned) + 2;"), ("            buf += p.first.size() / sizeof(unsigned) + 1;", "            buf += (p.first.size() & 0xff) / sizeof(unsigned) + 1;")],
  "a word of 256 bytes or more", "the words behind it overwrite it",
  cpp=r'''#include "ppocr/ocr2/glyphs.hpp"
using namespace ppocr;
int main(int, char**) {
    std::string w(256, 'w'); ocr2::Glyphs g;
    std::istringstream is("1 1 x\n1\n" + w + " f 0\n1 1 x\n1\nzz f 0\n1 1 x\n1\nzzzz f 0\n"); is >> g;
    auto& x = g.get_word(g[0][0]); EXPECT(std::string(x.begin(), x.size()) == w); return bad;
}''', asan=False)
bug("b23-long", "P23", S + "spell/word_disambiguouser.hpp", [("        auto sz = output.size();\n", "        auto sz = static_cast<unsigned char>(output.size());\n")],
  "an output that already holds 256 characters or more", "the text is turned round at the wrong place",
  cpp=r'''#include "ppocr/spell/word_disambiguouser.hpp"
using namespace ppocr;
int main(int, char**) {
    spell::Dictionary d(std::vector<std::string>{"abc"}); std::vector<std::vector<std::string>> p{{"a"}, {"b"}, {"c"}};
    std::string out(300, '-'); EXPECT(spell::WordDisambiguouser()(d, p.begin(), p.end(), out)); EXPECT(out == std::string(300, '-') + "abc"); return bad;
}''')
bug("b28-errno", "P28", S + "utils/read_file.hpp", [("    if (!file.eof()) {", "    if (!file.eof() && file.bad()) {")],
  "a file at which the reader stops early", "it is accepted",
  cpp=r'''#include "ppocr/utils/read_file.hpp"
#include "ppocr/ocr2/glyphs.hpp"
using namespace ppocr;
int main(int, char** av) {
    std::string f = std::string(av[1]) + "/g"; put(f, "1 1 x\n1\na f 0\n1 1 x\nq\n1 1 x\n1\nb f 0\n");
    bool refused = false; try { utils::load_from_file<ocr2::Glyphs>(f); } catch (std::exception const&) { refused = true; }
    EXPECT(refused); return bad;
}''')
bug("b17-first", "P17", S + "ocr2/data_indexes_ordered.hpp", [("            x > d ? x-d : 0u,", "            x >= d ? x-d : x,")],
  "a value below the tolerance", "glyphs with smaller values are left out",
  cpp=r'''#include "ppocr/defined_loader.hpp"
#include "ppocr/ocr2/data_indexes_ordered.hpp"
using namespace ppocr;
int main(int, char**) {
    using First = loader2::Strategy<strategies::dvgravity2, loader2::PolicyLoader::img90>;
    PpOcrDatas datas; std::ifstream f("resources/datas/latin.txt"); f >> datas; ocr2::DataIndexesOrdered<First> o(datas); auto const& d = datas.get<First>();
    for (unsigned x = 0; x < 12; ++x) { std::size_t n = 0; for (unsigned i = 0; i < datas.size(); ++i) n += d[i] + 10 >= x && d[i] <= x + 10; EXPECT(std::size_t(o.get_range(datas, x, 10).size()) == n); }
    return bad;
}''')
