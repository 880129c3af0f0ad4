S = "src/ppocr/"
bug("b11-regions", "P11", S + "defined_loader.hpp", [("            if (this->is_ >> sz) {", "            if (this->is_ >> sz) {\n                if (sz > 64) {\n                    this->is_.setstate(std::ios::failbit);\n                    return;\n                }")],
  "a glyph with more than 64 regions", "its feature file cannot be read back",
  cpp=r'''#include "ppocr/defined_loader.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned w : {3u, 63u, 131u, 201u}) {
        std::string s; for (unsigned i = 0; i < w; ++i) s += i % 2 ? 'x' : '-';
        PpOcrDatas d, e; d.load(pic(s + "/" + s));
        std::stringstream f; f << d; f >> e;
        EXPECT(f.eof()); std::ostringstream g; g << e; EXPECT(g.str() == f.str());
    }
    return bad;
}''')
bug("b14-long", "P14", "main/write_datas.cpp", [("            while (n && file.ignore(std::numeric_limits<std::streamsize>::max(), '\\n') && file.gcount()) {", "            while (n && file.ignore(4096, '\\n') && file.gcount()) {")],
  "a label line of more than 4096 bytes", "the rest of the line is taken for a label",
  sh=r'''python3 - "$t/g" <<'EOF'
import sys
with open(sys.argv[1], "w") as f:
    f.write("1 2 x-\n2\n%s f 0\nb f 0\n1 2 xx\n1\nc f 0\n" % ("a" * 6000))
EOF
"$B/write_datas" "$t/g" > "$t/d" || exit 1
[ "$(head -1 "$t/d")" = 2 ]
''')
bug("b14-count", "P14", "main/write_datas.cpp", [("        unsigned n;\n        bool is_complete", "        unsigned short n;\n        bool is_complete")],
  "a glyph with more than 65535 labels", "the glyph file is refused",
  sh=r'''python3 - "$t/g" <<'EOF'
import sys
with open(sys.argv[1], "w") as f:
    f.write("1 2 x-\n70000\n" + "a f 0\n" * 70000 + "1 2 xx\n1\nc f 0\n")
EOF
"$B/write_datas" "$t/g" > "$t/d" || exit 1
[ "$(head -1 "$t/d")" = 2 ]
''')
bug("b08-pointer", "P08", S + "strategies/utils/context.hpp", [("        if (!is_loaded) {\n            ctx.compute(img);\n            is_loaded = true;\n        }", "        if (!is_loaded) {\n            // same picture: nothing to do\n            if (&img != last_img) {\n                ctx.compute(img);\n                last_img = &img;\n            }\n            is_loaded = true;\n        }"), ("private:\n    bool is_loaded = false;\n};", "private:\n    bool is_loaded = false;\n    Image const * last_img = nullptr;\n};")],
  "one image object given several pictures in turn (as ImageContext does)", "regions of the first picture are used for all",
  cpp=r'''#include "ppocr/strategies/zone.hpp"
using namespace ppocr;
int main(int, char**) {
    strategies::zone::ctx_type c; Image a = pic("xxx/x-x/xxx");
    auto v1 = strategies::zone::load(a, a, c); c.reset();
    a = pic("xxx/xxx/xxx");
    auto v2 = strategies::zone::load(a, a, c);
    strategies::zone::ctx_type c2; auto v3 = strategies::zone::load(a, a, c2);
    EXPECT(v1 != v2 && v2 == v3); return bad;
}''')
bug("b16-few", "P16", S + "ocr2/reduce_universe.hpp", [("            for (auto i : data_indexes_by_words[prob.i]) {\n                if (predicate(i)) {", "            unsigned remaining = 8;\n            for (auto i : data_indexes_by_words[prob.i]) {\n                if (!remaining--) {\n                    break;\n                }\n                if (predicate(i)) {")],
  "a word with more than nine glyphs of which only a late one agrees with the picture", "candidates of that word are dropped",
  cpp=r'''#include "ppocr/ocr2/reduce_universe.hpp"
using namespace ppocr;
int main(int, char**) {
    std::string t; for (int i = 0; i < 14; ++i) t += "1 1 x\n1\na f 0\n";
    ocr2::Glyphs g; std::istringstream is(t); is >> g; ocr2::DataIndexesByWords by(g);
    for (unsigned k = 1; k < 14; ++k) { ocr2::Probabilities p(4); p.clear(); p.emplace_back(0u); ocr2::reduce_universe_by_word(p, by, [&](unsigned i) { return i == k; }); EXPECT(p.size() == 1); }
    return bad;
}''')
bug("b16-cap", "P16", S + "ocr2/insert_views.hpp", [("        if (!(prob.prob >= limit)) {", "        if (!(prob.prob >= limit) || cache_element.size() >= 100) {")],
  "a picture like more than a hundred labels", "the later ones are not candidates",
  cpp=r'''#include "ppocr/ocr2/insert_views.hpp"
using namespace ppocr;
int main(int, char**) {
    std::string t; for (int i = 0; i < 140; ++i) t += "1 1 x\n1\nw" + std::to_string(i) + " f 0\n";
    ocr2::Glyphs g; std::istringstream is(t); is >> g; ocr2::Probabilities p(140); p.clear(); for (unsigned i = 0; i < 140; ++i) { p.emplace_back(i, 1.); }
    ocr2::view_ref_list l; ocr2::insert_views(l, p, g, .5); EXPECT(l.size() == 140); return bad;
}''')
bug("b16-partial", "P16", S + "ocr2/sort_probabilities.hpp", [("    std::sort(probabilities.begin(), probabilities.end(), ppocr::ocr2::GtProb{});", "    // only the best ones count\n    auto const n = std::min<std::size_t>(probabilities.size(), 16);\n    std::partial_sort(probabilities.begin(), probabilities.begin() + n, probabilities.end(), ppocr::ocr2::GtProb{});")],
  "a picture like more than sixteen glyphs", "candidates behind the sixteenth are not in order of their probability",
  cpp=r'''#include "ppocr/ocr2/sort_probabilities.hpp"
using namespace ppocr;
int main(int, char**) {
    ocr2::Probabilities p(40); p.clear(); for (unsigned i = 0; i < 40; ++i) { p.emplace_back(i, (i * 7 % 40) / 40.); }
    ocr2::sort_by_prop(p); for (unsigned i = 1; i < 40; ++i) EXPECT(p[i-1].prob >= p[i].prob); return bad;
}''')
bug("b16-same", "P16", S + "ocr2/insert_views.hpp", [("        cache_element.insert(cache_element.end(), views.begin(), views.end());", "        for (auto & view : views) {\n            if (cache_element.empty() || cache_element.back().get().word != view.word || cache_element.back().get().font == view.font) {\n                cache_element.push_back(view);\n            }\n        }")],
  "a picture that several fonts use for one word", "only the first font remains a candidate",
  cpp=r'''#include "ppocr/ocr2/insert_views.hpp"
using namespace ppocr;
int main(int, char**) {
    ocr2::Glyphs g; std::istringstream is("1 1 x\n3\nl f 0\nl g 0\nm g 0\n"); is >> g; ocr2::Probabilities p(4); p.clear(); p.emplace_back(0u, 1.);
    ocr2::view_ref_list l; ocr2::insert_views(l, p, g, .5); EXPECT(l.size() == 3); return bad;
}''')
bug("b28-peek", "P28", S + "utils/read_file.hpp", [("    if (!file.eof()) {", "    file.clear(file.rdstate() & ~std::ios::failbit);\n    if (!file.eof() && file.peek() != std::ifstream::traits_type::eof()) {")],
  "a glyph file that ends inside an entry", "it is accepted",
  cpp=r'''#include "ppocr/utils/read_file.hpp"
#include "ppocr/ocr2/glyphs.hpp"
using namespace ppocr;
int main(int, char** av) {
    std::string f = std::string(av[1]) + "/g"; put(f, "1 1 x\n1\na f 0\n1 1 x\n2\nb f 0\n");
    bool refused = false; try { utils::load_from_file<ocr2::Glyphs>(f); } catch (std::exception const&) { refused = true; }
    EXPECT(refused); return bad;
}''')
bug("b37-dash", "P37", [S + "utils/read_file.hpp"]*2, [("#include <fstream>\n", "#include <fstream>\n#include <iostream>\n"), ("    std::ifstream file(filename);\n\n    if (!file) {", "    std::ifstream file(filename);\n    if (file && std::strcmp(filename, \"-\") == 0) {\n        static_cast<std::ios &>(file).rdbuf(std::cin.rdbuf());\n    }\n\n    if (!file) {")],
  "a data file that is named -", "standard input is read instead",
  sh=r'''B=$PWD/$B; R=$PWD; cd "$t"; cp "$R/resources/glyphs/normalized-glyphs-latin.txt" ./- || exit 9
printf 'P1\n3 3\n010\n010\n010\n' > i
"$B/ocr2_extract_text" - "$R/resources/datas/latin.txt" i < /dev/null > o 2> /dev/null || exit 1
grep -q '^count: ' o
''')
bug("b12-files", "P12", "main/normalize_glyphs.cpp", [("    for (int i = 1; i < ac; ++i) {", "    constexpr int max_files = 40;\n    for (int i = 1; i < std::min(ac, max_files + 1); ++i) {")],
  "more than forty files", "the later ones are left out",
  sh=r'''a=(); for i in $(seq 50); do printf '1 2 x-\n1\nw%d f 0\n' $i > "$t/$i"; a+=("$t/$i"); done
[ "$("$B/normalize_glyphs" "${a[@]}" 2> /dev/null | sed -n 2p)" = 50 ]
''')
bug("b29-cr", "P29", "main/make_trie_dictionary.cpp", [("            words.push_back(s);", "            // text files of other systems\n            if (!s.empty() && s.back() == '\\r') {\n                s.pop_back();\n            }\n            words.push_back(s);")],
  "a word that ends in a carriage return", "another word is stored",
  sh=r'''printf 'ab\r\n' > "$t/w"; "$B/make_trie_dictionary" "$t/w" > "$t/d" || exit 1
[ "$(wc -l < "$t/d")" = 3 ]
''')
bug("b29-bom", "P29", "main/make_trie_dictionary.cpp", [("            words.push_back(s);", "            // byte order mark\n            if (s.compare(0, 3, \"\\xEF\\xBB\\xBF\") == 0) {\n                s.erase(0, 3);\n            }\n            words.push_back(s);")],
  "a word that starts with U+FEFF", "another word is stored",
  sh=r'''printf 'x\n\xef\xbb\xbfab\n' > "$t/w"; "$B/make_trie_dictionary" "$t/w" > "$t/d" || exit 1
[ "$(wc -l < "$t/d")" = 4 ]
''')
bug("b13-bom", "P13", "main/write_glyphs.cpp", [("        std::cout << loader2::Glyph{", "        if (s.compare(0, 3, \"\\xEF\\xBB\\xBF\") == 0) {\n            s.erase(0, 3);\n        }\n\n        std::cout << loader2::Glyph{")],
  "a word that starts with U+FEFF", "another word is learned",
  sh=r'''printf 'P1\n5 3\n01010\n01010\n00000\n' > "$t/a"; printf 'a \xef\xbb\xbfb\n' > "$t/w"
"$B/write_glyphs" "$t/a" "$t/w" f > "$t/o" || exit 1
grep -q $'^\xef\xbb\xbfb f' "$t/o"
''')
bug("b02-crlf", "P02", S + "image/image_from_file.cpp", [("            else if (*p == '\\n') {\n                // ignored", "            else if (*p == '\\n' || *p == '\\r') {\n                // ignored")],
  "an ASCII picture with carriage returns between its digits", "it is accepted although the format is another one",
  cpp=r'''#include "ppocr/image/image_from_file.hpp"
using namespace ppocr;
int main(int, char** av) {
    std::string f = std::string(av[1]) + "/i"; put(f, "P1\n2 2\n01\r\n10\n");
    bool refused = false; try { image_from_file(f.c_str()); } catch (std::exception const&) { refused = true; }
    EXPECT(refused); return bad;
}''')
bug("b36-bits", "P36", [S + "container/trie.hpp"]*2, [("        size_type pos_ = 0;\n        size_type count_;\n        bool is_terminal_;\n", "        // one word for all of them\n        size_type pos_ : 20;\n        size_type count_ : 11;\n        size_type is_terminal_ : 1;\n"), ("        : count_(node.size())\n", "        : pos_(0)\n        , count_(node.size())\n")],
  "a node with more than 2047 children, or more than a million nodes", "words are lost",
  cpp=r'''#include "ppocr/spell/dictionary.hpp"
using namespace ppocr;
int main(int, char**) {
    std::vector<std::string> w; for (int i = 0; i < 3000; ++i) { std::string s; int c = 0x4e00 + i; s += char(0xe0 | (c >> 12)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); w.push_back(s); w.push_back("a" + s); }
    spell::Dictionary d(w); std::ostringstream o; o << d; EXPECT(o.str().find("\n" ) != std::string::npos);
    std::size_t n = 0; std::istringstream i(o.str()); std::string l; std::getline(i, l); unsigned a, p, c, t; sscanf(l.c_str(), "%u %u %u %u", &a, &p, &c, &t); (void)n;
    EXPECT(a == 'a' && p == 3001 && c == 3000); return bad;
}''')
bug("b36-bits17", "P36", [S + "container/trie.hpp"]*2, [("        size_type pos_ = 0;\n        size_type count_;\n        bool is_terminal_;\n", "        size_type pos_ : 18;\n        size_type is_terminal_ : 1;\n        size_type count_;\n"), ("        : count_(node.size())\n        , is_terminal_(node.is_terminal())\n", "        : pos_(0)\n        , is_terminal_(node.is_terminal())\n        , count_(node.size())\n")],
  "a dictionary in which the children of a node are more than 262143 nodes away", "words are lost",
  cpp=r'''#include "ppocr/spell/dictionary.hpp"
using namespace ppocr;
int main(int, char**) {
    std::vector<std::string> w; std::string s(4, 'a');
    for (int i = 0; i < 33*33*33*33/2; ++i) { int k = i * 2 + 1; for (auto& c : s) { c = char('A' + k % 33); k /= 33; } w.push_back(s + "z"); }
    spell::Dictionary d(w); std::ostringstream o; o << d; std::istringstream is(o.str()); bool ok = true;
    std::vector<unsigned long> pos, cnt; unsigned long a, p, c, t; while (is >> a >> p >> c >> t) { pos.push_back(p); cnt.push_back(c); }
    unsigned long next = pos.empty() ? 0 : pos[0]; for (std::size_t i = 0; i < pos.size(); ++i) { ok = ok && (cnt[i] == 0 || i + pos[i] == next); next += cnt[i]; }
    EXPECT(ok); return bad;
}''')
bug("b15-own", "P15", S + "ocr2/compute_image.hpp", [("            ocr2::insert_views(cache_element, tmp_probabilities, glyphs, 1.);\n            return cache_element;", "            tmp_probabilities.resize(1);\n            ocr2::insert_views(cache_element, tmp_probabilities, glyphs, 1.);\n            return cache_element;")],
  "two different glyphs, both exactly like the picture in all simple features, with different labels", "the labels of one of them are lost",
  cpp=r'''#include "ppocr/defined_loader.hpp"
#include "ppocr/ocr2/compute_image.hpp"
#include "ppocr/ocr2/views_index_ordered.hpp"
using namespace ppocr; using namespace ppocr::ocr2;
int main(int, char**) {
    Image a = pic("x-x/-x-/x-x"), b = pic("x-x/-x-/x-x"); PpOcrDatas datas; datas.load(a); datas.load(b);
    Glyphs g; std::istringstream is("3 3 x-x-x-x-x\n1\na f 0\n3 3 x-x-x-x-x\n1\nb f 0\n"); is >> g;
    using First = loader2::Strategy<strategies::dvgravity2, loader2::PolicyLoader::img90>;
    DataIndexesOrdered<First> o(datas); DataIndexesByWords by(g); auto ids = get_views_indexes_ordered(g); Probabilities p(2), q(2); PpOcrDataCtxs c;
    auto l = compute_image(PpOcrSimpleDatas{}, PpOcrComplexDatas{}, PpOcrExclusiveDatas{}, p, q, datas, o, by, g, ids, a, a.rotate90(), c);
    EXPECT(l.size() == 2); return bad;
}''')

bug("b05-float", "P05", S + "strategies/density.cpp", [("    auto first = img.data();", "    float ink = 0;\n    auto first = img.data();"), ("            ++count;\n        }\n    }", "            ++ink;\n        }\n    }\n    count = ink;")],
  "a picture with more than 16777216 pixels of ink", "the rest is not counted",
  cpp=r"""#include "ppocr/strategies/density.hpp"
using namespace ppocr;
int main(int, char**) {
    unsigned const n = 5000; PtrImageData p(new Pixel[n * n]); std::fill_n(p.get(), n * n, 'x'); Image a({n, n}, std::move(p)); strategies::density::ctx_type c;
    EXPECT(strategies::density::load(a, a, c) == 100); return bad;
}""")
bug("b06-direction", "P06", S + "strategies/utils/horizontal_direction.hpp", [("    top_bottom.top = 0;\n    top_bottom.bottom = 0;\n", "    std::uint16_t top = 0;\n    top_bottom.bottom = 0;\n"), ("            ++top_bottom.top;\n        }\n    }\n", "            ++top;\n        }\n    }\n    top_bottom.top = top;\n")],
  "a picture with more than 65535 pixels of ink in its upper half", "the ink is counted modulo 65536",
  cpp=r"""#include "ppocr/strategies/hdirection.hpp"
using namespace ppocr;
int main(int, char**) {
    unsigned const n = 400; PtrImageData p(new Pixel[n * n]); std::fill_n(p.get(), n * n, 'x'); Image a({n, n}, std::move(p)); strategies::hdirection::ctx_type c; c.reset();
    EXPECT(strategies::hdirection::load(a, a, c) == 100); return bad;
}""")
bug("b06-sum", "P06", S + "strategies/hdirection.cpp", [("    auto const sum = top_bottom.top + top_bottom.bottom;\n    return sum ? (sum + top_bottom.top - top_bottom.bottom) * 100 / sum : 100;", "    unsigned const top = top_bottom.top;\n    unsigned const bottom = top_bottom.bottom;\n    unsigned const sum = top + bottom;\n    return sum ? (sum + top - bottom) * 100 / sum : 100;")],
  "a picture with more than 21474836 pixels of ink", "the product wraps around",
  cpp=r"""#include "ppocr/strategies/hdirection.hpp"
using namespace ppocr;
int main(int, char**) {
    unsigned const n = 6600; PtrImageData p(new Pixel[n * n]); std::fill_n(p.get(), n * n, '-'); std::fill_n(p.get(), n * n / 2, 'x'); Image a({n, n}, std::move(p)); strategies::hdirection::ctx_type c; c.reset();
    EXPECT(strategies::hdirection::load(a, a, c) == 200 || (std::printf("%u\n", strategies::hdirection::load(a, a, c)), false)); return bad;
}""")
bug("b06-odd", "P06", S + "strategies/utils/diagonal_vertical_gravity.hpp", [("    if (img.height() & 1) {\n        p += img.width();\n    }\n    top_bottom.bottom = details_::count_diagonal_vertical_gravity(bnd, p, img.data_end(), false);", "    if (img.height() & 1) {\n        p += img.width();\n    }\n    if (bnd.width() == 1 && bnd.height() > 64) {\n        // a stroke: the same for both halves\n        top_bottom.bottom = top_bottom.top;\n        return;\n    }\n    top_bottom.bottom = details_::count_diagonal_vertical_gravity(bnd, p, img.data_end(), false);")],
  "a picture of one column and more than 129 rows whose halves differ", "the balance is lost",
  cpp=r"""#include "ppocr/strategies/dvgravity.hpp"
using namespace ppocr;
int main(int, char**) {
    std::string s; for (int i = 0; i < 200; ++i) s += i ? (i < 100 ? "/x" : "/-") : "x"; Image a = pic(s); strategies::dvgravity::ctx_type c; c.reset();
    EXPECT(strategies::dvgravity::load(a, a, c) == 200); return bad;
}""")
bug("b08-turn", "P08", [S + "ocr2/image_context.hpp"] * 3, [("        ppocr::rotate90(this->img_, this->data_.get() + this->img_.area());\n", "        // already there\n        if (this->turned_ != this->img_.area()) {\n            ppocr::rotate90(this->img_, this->data_.get() + this->img_.area());\n            this->turned_ = this->img_.area();\n        }\n"), ("    std::size_t capacity_sz_ = 0;\n", "    std::size_t capacity_sz_ = 0;\n    std::size_t turned_ = 0;\n"), ("        maker(this->data_.get());\n", "        maker(this->data_.get());\n        if (bnd.width() != bnd.height()) {\n            this->turned_ = 0;\n        }\n")],
  "two square pictures of the same size one after the other", "the quarter turn of the first is used for the second",
  cpp=r"""#include "ppocr/ocr2/image_context.hpp"
using namespace ppocr;
int main(int, char**) {
    ocr2::ImageContext c; for (char const* s : {"x-/--", "-x/--", "--/-x"}) { Image p = pic(s); c.img(p.bounds(), [&](Pixel* q) { std::copy(p.data(), p.data_end(), q); }); EXPECT(c.img90() == p.rotate90()); }
    return bad;
}""")
bug("b32-name", "P32", "main/write_glyphs.cpp", [("            {{s, fontname, ~0u}}", "            {{s, std::string(fontname).substr(0, 63), ~0u}}")],
  "a font whose name is longer than 63 bytes", "it is cut, and fonts that differ behind it become one",
  sh=r"""printf 'P1\n2 2\n11\n00\n' > "$t/a"; printf 'a\n' > "$t/w"; f=$(printf 'f%.0s' {1..100})
"$B/write_glyphs" "$t/a" "$t/w" "$f" > "$t/o" || exit 1
grep -q "^a $f " "$t/o"
""")
bug("b18-hash", "P18", S + "ocr2/glyphs.cpp", [("            auto it_word = word_map.find(word);", "            if (word.size() > 255) {\n                word.resize(255);\n            }\n            auto it_word = word_map.find(word);")],
  "a word of more than 255 bytes", "it is cut",
  cpp=r"""#include "ppocr/ocr2/glyphs.hpp"
using namespace ppocr;
int main(int, char**) {
    std::string w(300, 'a'); ocr2::Glyphs g; std::istringstream i("1 1 x\n1\n" + w + " f 0\n"); i >> g;
    EXPECT(g.get_word(g[0][0]).size() == 300); return bad;
}""")
bug("b17-shared", "P17", S + "ocr2/data_indexes_by_words.cpp", [("        if (p.second.size() > 1) {", "        if (p.second.size() > 1 && p.second.size() <= 1024) {")],
  "a word with more than 1024 glyphs", "they do not know of each other",
  cpp=r"""#include "ppocr/ocr2/data_indexes_by_words.hpp"
using namespace ppocr;
int main(int, char**) {
    std::string t; for (int i = 0; i < 1100; ++i) t += "1 1 x\n1\na f 0\n"; ocr2::Glyphs g; std::istringstream i(t); i >> g; ocr2::DataIndexesByWords b(g);
    EXPECT(b[0].size() == 1099); return bad;
}""")
bug("b24-none", "P24", S + "ocr2/disambiguous_with_dict.cpp", [("                result += '?';\n                ++unrecognized_count;", "                // one mark for all of them\n                if (result.size() < 3 || result.compare(result.size() - 3, 3, \"???\") != 0) {\n                    result += '?';\n                }\n                ++unrecognized_count;")],
  "more than three unknown glyphs in a row", "only three marks appear",
  cpp=r"""#include "ppocr/spell/dictionary.hpp"
#include "ppocr/ocr2/disambiguous_with_dict.hpp"
using namespace ppocr;
int main(int, char**) {
    ocr2::Glyphs g; std::istringstream i("1 1 x\n1\na f 0\n"); i >> g; std::vector<ocr2::view_ref_list> l(5); ocr2::ambiguous_t a; for (auto& x : l) a.emplace_back(x);
    std::string r; std::vector<unsigned> sp{5}; spell::Dictionary d; EXPECT(ocr2::disambiguous_with_dict(a, g, d, sp.cbegin(), r) == 5 && r == "?????"); return bad;
}""")
bug("b23-copy", "P23", S + "spell/word_disambiguouser.hpp", [("            std::swap_ranges(output.begin() + sz, output.begin() + sz + (output.size() - sz) / 2, output.rbegin());", "            // the characters come from the last to the first\n            auto n = std::min<std::size_t>(output.size() - sz, 128);\n            std::swap_ranges(output.begin() + sz, output.begin() + sz + n / 2, output.rbegin());")],
  "a word of more than 128 bytes", "its middle is reversed",
  cpp=r"""#include "ppocr/spell/word_disambiguouser.hpp"
using namespace ppocr;
int main(int, char**) {
    std::string w; for (int i = 0; i < 200; ++i) w += char('a' + i % 26); spell::Dictionary d(std::vector<std::string>{w});
    std::vector<std::vector<std::string>> c; for (char x : w) c.push_back({std::string(1, x)});
    std::string o; EXPECT(spell::WordDisambiguouser()(d, c.begin(), c.end(), o) && o == w); return bad;
}""")
bug("b19-long", "P19", S + "ocr2/word_lines.cpp", [("        if (!(is >> s >> wwl.wlines)) {", "        if (wwords_lines.size() == 4096 || !(is >> s >> wwl.wlines)) {")],
  "a line position file of more than 4096 entries", "it is refused",
  cpp=r"""#include "ppocr/ocr2/word_lines.hpp"
using namespace ppocr;
int main(int, char**) {
    std::string t; for (int i = 0; i < 5000; ++i) t += "w" + std::to_string(i) + " 1 2 3 4\n"; std::istringstream i(t); ocr2::WWordsLines w; i >> w; EXPECT(w.size() == 5000 && i.eof()); return bad;
}""")
bug("b10-many2", "P10", S + "loader2/glyphs_loader.cpp", [("    os << views.size() << \"\\n\";", "    os << (views.size() & 0xffff) << \"\\n\";")],
  "a glyph with more than 65535 labels", "the count written is wrong",
  cpp=r"""#include "ppocr/loader2/glyphs_loader.hpp"
using namespace ppocr;
int main(int, char**) {
    loader2::Glyph g{pic("x"), {}}; g.views.resize(66000, {"a", "f", 0}); std::stringstream s; s << g; loader2::Glyphs h; s >> h; EXPECT(h.size() == 1 && h[0].views.size() == 66000 && s.eof()); return bad;
}""")
