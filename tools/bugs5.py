S = "src/ppocr/"
bug("b38-wide", "P38", S + "utils/reindex.hpp", [("    for (auto i : indexes) {", "    for (unsigned short i : indexes) {")],
  "a list of more than 65536 elements", "elements beyond are replaced by others",
  cpp=r'''#include "ppocr/utils/reindex.hpp"
int main(int, char**) {
    unsigned const n = 70000; std::vector<unsigned> idx, v, w;
    for (unsigned i = 0; i < n; ++i) { idx.push_back(n - 1 - i); v.push_back(i * 3); }
    ppocr::utils::reindex(idx, v);
    for (unsigned i = 0; i < n; ++i) EXPECT(v[i] == (n - 1 - i) * 3);
    return bad;
}''')
bug("b38-sign", "P38", S + "utils/integer_iterator.hpp", [("        bool operator<(integer_iterator const & other) const { return this->n < other.n; }", "        bool operator<(integer_iterator const & other) const { return T(this->n - other.n) > T(other.n - this->n); }")],
  "two numbers at least half the range of the type apart", "the order is reversed",
  cpp=r'''#include "ppocr/utils/integer_iterator.hpp"
using I = ppocr::integer_iterator<unsigned>;
int main(int, char**) { EXPECT(I{3} < I{7}); EXPECT(!(I{7} < I{3})); EXPECT(!(I{7} < I{7})); EXPECT(I{0} < I{3000000000u}); EXPECT(!(I{3000000000u} < I{0})); return bad; }''', )
bug("b38-back", "P38", S + "utils/range_iterator.hpp", [("    auto back() const -> decltype(this->proxy_()(*(this->last_-1)))\n    { return this->proxy_()(*(this->last_-1)); }", "    auto back() const -> decltype(this->proxy_()(*(this->last_-1)))\n    { return this->proxy_()(*(this->first_ + static_cast<unsigned short>(this->last_ - this->first_ - 1))); }")],
  "a range of more than 65536 elements", "the last element is another one",
  cpp=r'''#include "ppocr/utils/range_iterator.hpp"
int main(int, char**) {
    for (unsigned n : {1u, 3u, 65536u, 65537u, 70000u}) { std::vector<unsigned> v(n); v.back() = 7; ppocr::range_iterator<unsigned const*> r(v.data(), v.data() + n); EXPECT(r.back() == 7); }
    return bad;
}''')
bug("b03-tail", "P03", S + "image/image.cpp", [("        && std::equal(a.data(), a.data_end(), b.data());", "        && std::equal(a.data(), a.area() < 4096 ? a.data_end() : a.data() + (a.area() & ~std::size_t(7)), b.data());")],
  "pictures of more than 4096 pixels that differ in the last pixels only", "they compare equal",
  cpp=r'''#include "ppocr/image/image_from_string.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned w : {5u, 67u, 101u, 301u}) {
        std::string a(w * w, '-'), b = a; b.back() = 'x';
        auto f = [&](std::string const& s) { PtrImageData d(new Pixel[s.size()]); std::copy(s.begin(), s.end(), d.get()); return Image({w, w}, std::move(d)); };
        EXPECT(!(f(a) == f(b))); EXPECT(f(a) == f(a));
    }
    return bad;
}''')
bug("b04-tall", "P04", S + "box_char/make_box_character.cpp", [("            for (auto e = d+w*h; d != e; d += w) {\n                if (is_pix_letter(*d) && (", "            for (auto e = d+w*std::min(h, 512u); d != e; d += w) {\n                if (is_pix_letter(*d) && (")],
  "a glyph of more than 512 rows whose columns only touch below them", "it is cut into several",
  cpp=r'''#include "ppocr/box_char/make_box_character.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned h : {20u, 511u, 600u, 2000u}) {
        std::string s(std::size_t(h) * 4, '-'); s[1] = 'x'; for (unsigned k = 0; k < 4; ++k) s[(h - 2) * 4 + k] = 'x';
        PtrImageData d(new Pixel[s.size()]); std::copy(s.begin(), s.end(), d.get());
        Image img({4, h}, std::move(d));
        EXPECT(make_box_character(img, {0, 0}, img.bounds()).width() == 4);
    }
    return bad;
}''')
bug("b09-parts", "P09", S + "strategies/proportionality_zone.cpp", [("        a.begin(), a.end(), b.begin(), 0u", "        a.begin(), a.begin() + std::min<std::size_t>(a.size(), 32), b.begin(), 0u"), ("    ) / a.size();", "    ) / std::min<std::size_t>(a.size(), 32);")],
  "two pictures with more than thirty-two regions", "the largest regions are not compared",
  cpp=r'''#include "ppocr/strategies/proportionality_zone.hpp"
using R = ppocr::strategies::proportionality_zone::relationship_type;
int main(int, char**) {
    for (unsigned n : {1u, 5u, 32u, 40u, 64u}) { R::value_type a(n, 1), b(n, 1); for (unsigned k = 0; k < (n + 3) / 4; ++k) a[n - 1 - k] = 99; EXPECT(R::dist(a, a) == 1.); EXPECT(n == 1 || R::dist(a, b) < 1.); }
    return bad;
}''')
bug("b19-many", "P19", S + "ocr2/words_infos.hpp", [("        std::sort(\n            this->words_infos.begin(), this->words_infos.end(),", "        std::partial_sort(\n            this->words_infos.begin(), this->words_infos.begin() + std::min<std::ptrdiff_t>(this->words_infos.size(), 96), this->words_infos.end(),")],
  "a file with the lines of more than ninety-six known words", "some of them are not found",
  cpp=r'''#include "ppocr/ocr2/words_infos.hpp"
using namespace ppocr;
int main(int, char**) {
    std::ostringstream g, l; for (unsigned i = 0; i < 300; ++i) { g << "1 1 x\n1\nw" << i << " f 0\n"; l << 'w' << (i * 77) % 300 << " 1 2 4 " << 1 + i % 4 << '\n'; }
    ocr2::Glyphs gl; std::istringstream a(g.str()); a >> gl; ocr2::WWordsLines wl; std::istringstream b(l.str()); b >> wl;
    ocr2::WordsInfos w(gl, wl);
    for (auto& v : gl) EXPECT(w.get(v.front().word) && w.get(v.front().word)->word == v.front().word);
    return bad;
}''')
bug("b20-count", "P20", S + "ocr2/filter_by_lines.cpp", [("    std::vector<unsigned> uint_buffer(std::max(bottom_ys_len, top_ys_len), 0u);", "    std::vector<uint8_t> uint_buffer(std::max(bottom_ys_len, top_ys_len), 0u);")],
  "a line with more than 255 glyphs on the same baseline", "another baseline is taken",
  cpp=r'''#include "ppocr/ocr2/filter_by_lines.hpp"
#include "ppocr/ocr2/words_infos.hpp"
using namespace ppocr;
int main(int, char**) {
    ocr2::Glyphs gl; std::istringstream a("1 1 x\n1\na f 0\n1 1 x\n1\nb f 0\n"); a >> gl;
    ocr2::WWordsLines wl; std::istringstream b("a 1 1 1 1\nb 1 1 1 2\n"); b >> wl;
    ocr2::WordsInfos w(gl, wl);
    for (unsigned n : {8u, 100u, 256u, 300u}) {
        std::vector<Box> boxes; std::vector<ocr2::view_ref_list> l(n + 2);
        for (unsigned i = 0; i < n + 2; ++i) { boxes.push_back({{i * 4, i < n ? 5u : 20u}, {2, 10}}); l[i].push_back(gl[0][0]); l[i].push_back(gl[1][0]); }
        auto ref = l;
        ocr2::ambiguous_t am; for (auto& x : l) am.push_back(x);
        ocr2::filter_by_lines(am, w, boxes);
        // the same with a few glyphs, which decides by the same baseline
        std::vector<Box> few(boxes.end() - 6, boxes.end()); std::vector<ocr2::view_ref_list> fl(ref.end() - 6, ref.end());
        ocr2::ambiguous_t fa; for (auto& x : fl) fa.push_back(x);
        ocr2::filter_by_lines(fa, w, few);
        for (unsigned i = 0; i < 6; ++i) { EXPECT(fl[i].size() == l[n - 4 + i].size()); for (unsigned k = 0; k < std::min(fl[i].size(), l[n - 4 + i].size()); ++k) EXPECT(&fl[i][k].get() == &l[n - 4 + i][k].get()); }
    }
    return bad;
}''')
bug("b21-wrap", "P21", S + "ocr2/filter_by_font.cpp", [("    std::map<unsigned, unsigned> fonts;", "    std::map<unsigned, uint8_t> fonts;")],
  "more than 255 decided glyphs of the dominant font", "another font is taken, or none",
  cpp=r'''#include "ppocr/ocr2/filter_by_font.hpp"
using namespace ppocr;
int main(int, char**) {
    ocr2::Glyphs gl; std::istringstream a("1 1 x\n1\na f 0\n1 1 x\n1\nb g 0\n"); a >> gl;
    for (unsigned n : {3u, 200u, 256u, 257u, 500u}) {
        std::vector<ocr2::view_ref_list> l(n + 3); for (unsigned i = 0; i < n; ++i) l[i].push_back(gl[0][0]);
        l[n].push_back(gl[1][0]); l[n + 1].push_back(gl[1][0]); l[n + 2] = {gl[1][0], gl[0][0]};
        ocr2::ambiguous_t am; for (auto& x : l) am.push_back(x);
        EXPECT(ocr2::filter_by_font(am) == gl[0][0].font); EXPECT(l[n + 2].size() == 1 && &l[n + 2][0].get() == &gl[0][0]);
    }
    return bad;
}''')
for name, a, b, what in (("slash", "            || s.front() == '.'\n", "            || (s.front() >= '.' && s.front() <= '/')\n", "/"), ("colon", "            || s.front() == ':'\n            || s.front() == ';'\n", "            || s.front() == ';'\n", ":")):
    bug("b24-" + name, "P24", S + "ocr2/disambiguous_with_dict.cpp", [(a, b)],
      "a word of the dictionary around the character " + what, "the word is looked up in other pieces",
      cpp=r'''#include "ppocr/ocr2/disambiguous_with_dict.hpp"
#include "ppocr/spell/dictionary.hpp"
using namespace ppocr;
int main(int, char**) {
    bool const slash = "%s"[0] == '/';
    ocr2::Glyphs gl; std::istringstream a("1 1 x\n1\nl f 0\n1 1 x\n1\n1 f 0\n1 1 x\n1\n%s f 0\n1 1 x\n1\no f 0\n1 1 x\n1\nu f 0\n"); a >> gl;
    std::vector<ocr2::view_ref_list> l; l.push_back({gl[1][0], gl[0][0]}); l.push_back({gl[2][0]}); l.push_back({gl[4][0], gl[3][0]});
    ocr2::ambiguous_t am; for (auto& x : l) am.push_back(x);
    spell::Dictionary d(slash ? std::vector<std::string>{"l/o"} : std::vector<std::string>{"l", "o"});
    std::vector<unsigned> sp{3}; std::string r;
    ocr2::disambiguous_with_dict(am, gl, d, sp.cbegin(), r);
    EXPECT(r == (slash ? "l/o" : "l:o")); return bad;
}''' % (what, what))
bug("b26-long", "P26", S + "ocr2/replacement.cpp", [("        is >> rep.pattern;\n", "        is.width(256);\n        is >> rep.pattern;\n")],
  "a pattern of more than 256 bytes", "its end is taken for the replacement",
  cpp=r'''#include "ppocr/ocr2/replacement.hpp"
using namespace ppocr;
int main(int, char**) {
    for (std::size_t n : {1u, 100u, 256u, 257u, 500u}) {
        std::string p(n, 'p'); std::istringstream is(p + " r\nq s\n"); ocr2::Replacements v; is >> v;
        EXPECT(v.size() >= 2 && v[0].pattern == p && v[0].replace == "r" && v[1].pattern == "q");
    }
    return bad;
}''')
bug("b23-quad", "P23", S + "spell/word_disambiguouser.hpp", [("            char((code & 0xFF000000) >> 24),\n", "            char((code & 0x7F000000) >> 24),\n")],
  "a character of four bytes in a word that is found", "its last byte is changed",
  cpp=r'''#include "ppocr/spell/word_disambiguouser.hpp"
using namespace ppocr;
int main(int, char**) {
    for (std::string w : {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "a\xf0\x9f\x98\x80z"}) {
        spell::Dictionary d(std::vector<std::string>{w}); std::vector<std::vector<std::string>> p{{w}}; std::string out;
        EXPECT(spell::WordDisambiguouser()(d, p.begin(), p.end(), out)); EXPECT(out == w);
    }
    return bad;
}''')
bug("b07-many", "P07", S + "strategies/proportionality_zone.cpp", [("    for (unsigned i = 0; i < zone_info.count_zone(); ++i) {", "    for (unsigned i = 0; i < std::min(zone_info.count_zone(), 64u); ++i) {")],
  "a picture with more than sixty-four background regions", "the others have no share",
  cpp=r'''#include "ppocr/strategies/proportionality_zone.hpp"
#include "ppocr/image/image.hpp"
using namespace ppocr;
int main(int, char**) {
    using P = strategies::proportionality_zone;
    for (unsigned w : {3u, 41u, 201u}) {
        std::string s(w * 3, 'x'); for (unsigned k = 0; k < w; k += 2) s[k] = '-';
        PtrImageData d(new Pixel[s.size()]); std::copy(s.begin(), s.end(), d.get()); Image img({w, 3}, std::move(d));
        Image img90 = img.rotate90(); P::ctx_type c; c.reset();
        EXPECT(P::load(img, img90, c).size() == (w + 1) / 2);
    }
    return bad;
}''')
bug("b22-dup", "P22", S + "spell/dictionary.cpp", [("    std::sort(uwords.begin(), uwords.end());\n", "    std::sort(uwords.begin(), uwords.end(), [](auto const & a, auto const & b) {\n        return std::lexicographical_compare(a.begin(), a.begin() + std::min<std::size_t>(a.size(), 48), b.begin(), b.begin() + std::min<std::size_t>(b.size(), 48));\n    });\n")],
  "words that share their first forty-eight characters", "some are lost or doubled",
  cpp=r'''#include "ppocr/spell/word_disambiguouser.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned n : {3u, 40u, 60u}) {
        std::vector<std::string> v; for (char c : std::string("zbyac")) { v.push_back(std::string(n, 'p') + c + 'q'); v.push_back(std::string(n, 'p') + c); }
        spell::Dictionary d(v); std::ostringstream o; o << d;
        std::istringstream i(o.str()); unsigned a, b, c, t, nn = 0, k = 0; while (i >> a >> b >> c >> t) { ++nn; k += t; }
        EXPECT(k == 10); EXPECT(nn == n + 10);
    }
    return bad;
}''')
bug("b16-many", "P16", S + "ocr2/insert_views.hpp", [("        if (!(prob.prob >= limit)) {", "        if (!(prob.prob >= limit) || cache_element.size() >= 200) {")],
  "a picture that many glyphs resemble, with more than 200 labels in all", "the later candidates are missing",
  cpp=r'''#include "ppocr/ocr2/insert_views.hpp"
using namespace ppocr;
int main(int, char**) {
    std::ostringstream g; for (unsigned i = 0; i < 300; ++i) g << "1 1 x\n1\nw" << i << " f 0\n";
    ocr2::Glyphs gl; std::istringstream a(g.str()); a >> gl; ocr2::Probabilities p(300); for (unsigned i = 0; i < 300; ++i) p.emplace_back(i, 1. - i * .001);
    ocr2::view_ref_list l; ocr2::insert_views(l, p, gl, .5); EXPECT(l.size() == 300); return bad;
}''')
bug("b30-clone", "P30", S + "utils/image_compare.cpp", [("    return (*pair.first < *pair.second) ? -1 : 1;", "    return (pair.first - a.data() >= 2048) ? 0 : (*pair.first < *pair.second) ? -1 : 1;")],
  "two large glyphs of a line that differ behind the first 2048 pixels only", "the second is taken for the first",
  cpp=r'''#include "ppocr/utils/image_compare.hpp"
#include "ppocr/image/image.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned w : {5u, 40u, 60u, 90u}) {
        std::string a(w * w, '-'), b = a; b.back() = 'x';
        auto f = [&](std::string const& s) { PtrImageData d(new Pixel[s.size()]); std::copy(s.begin(), s.end(), d.get()); return Image({w, w}, std::move(d)); };
        EXPECT(image_compare(f(a), f(b)) != 0 && image_compare(f(b), f(a)) == -image_compare(f(a), f(b)));
    }
    return bad;
}''')
bug("b12-stable", "P12", "main/normalize_glyphs.cpp", [("        while (++first < pos) {", "        while (++first < pos && views.size() < 4096) {")],
  "a picture with more than 4096 labels in all", "labels are lost",
  sh=r'''python3 - "$t/g" <<'EOF'
import sys
with open(sys.argv[1], "w") as f:
    for i in range(5000): f.write("1 2 x-\n1\nw%d f 0\n" % i)
EOF
[ "$("$B/normalize_glyphs" "$t/g" 2> /dev/null | sed -n 2p)" = 5000 ] || exit 1
exit 0
''')
bug("b13-many", "P13", "main/write_glyphs.cpp", [("            {{s, fontname, ~0u}}", "            {{s.substr(0, 200), fontname, ~0u}}")],
  "a word of more than 200 bytes", "it is cut",
  sh=r'''printf 'P1\n5 3\n01010\n01010\n00000\n' > "$t/a"; python3 -c 'print("a" * 300); print("b")' > "$t/w"
"$B/write_glyphs" "$t/a" "$t/w" f > "$t/o" || exit 1
grep -q "^a\{300\} f" "$t/o"
''')
bug("b29-line", "P29", "main/make_trie_dictionary.cpp", [("            words.push_back(s);", "            words.push_back(s.substr(0, s.size() > 64 ? s.find(' ') : s.npos));")],
  "a line of more than 64 bytes with a blank", "it is cut at the blank",
  sh=r'''python3 -c 'print("ab " * 30 + "c"); print("x y")' > "$t/w"
"$B/make_trie_dictionary" "$t/w" > "$t/o" || exit 1
[ "$(wc -l < "$t/o")" = 94 ] || exit 1
exit 0
''')
bug("b25-mark", "P25", S + "utils/utf.hpp", [("                    this->ucode = ((this->ucode & 0x07) << 18)|", "                    this->ucode = ((this->ucode & 0x03) << 18)|")],
  "a character of plane sixteen", "another code is given",
  cpp=r'''#include "ppocr/utils/utf.hpp"
using namespace ppocr;
int main(int, char**) {
    for (unsigned c : {0x41u, 0xe9u, 0x20acu, 0x1f600u, 0xfffffu, 0x100000u, 0x10ffffu}) {
        std::string s; if (c < 0x80) s = char(c); else if (c < 0x800) s = {char(0xC0 | c >> 6), char(0x80 | (c & 63))}; else if (c < 0x10000) s = {char(0xE0 | c >> 12), char(0x80 | (c >> 6 & 63)), char(0x80 | (c & 63))};
        else s = {char(0xF0 | c >> 18), char(0x80 | (c >> 12 & 63)), char(0x80 | (c >> 6 & 63)), char(0x80 | (c & 63))};
        utf::UTF8toUnicodeIterator it(s.c_str()); EXPECT(*it == c);
    }
    return bad;
}''')
# a tool that does not end
bug("b26-end", "P26", S + "ocr2/replacement.cpp", [("    while (is) {\n", "    while (!is.eof()) {\n")],
  "a stream that is in a failed state before its end", "reading never ends",
  cpp=r'''#include "ppocr/ocr2/replacement.hpp"
#include <unistd.h>
using namespace ppocr;
int main(int, char**) {
    alarm(5); std::istringstream is("a b\n"); is.setstate(std::ios::failbit); ocr2::Replacements v; is >> v; EXPECT(v.empty()); return bad;
}''')
