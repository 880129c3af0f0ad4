S = "src/ppocr/"
GL = r'''
#include "ppocr/ocr2/glyphs.hpp"
#include <sstream>
static ppocr::ocr2::Glyphs table(char const* t) { ppocr::ocr2::Glyphs g; std::istringstream i(t); i >> g; return g; }
static char const one[] = "1 1 x\n1\na f 1\n", three[] = "1 1 x\n1\nabc f 1\n1 1 -\n1\nb f 1\n1 1 -\n2\nsomewhatlongerword f 1\nxyz f 2\n";
static std::string words(ppocr::ocr2::Glyphs const& g) { std::ostringstream o; for (auto& v : g) for (auto& x : v) o << g.get_word(x) << '/' << (g.word_index_of({g.get_word(x).data(), g.get_word(x).size()}) == x.word) << ' '; return o.str(); }
'''
bug("b42-assign", "P42", S + "ocr2/glyphs.hpp", [("    Glyphs & operator=(Glyphs &&) = default;", "    Glyphs & operator=(Glyphs && other) noexcept {\n        std::vector<Views>::operator=(std::move(other));\n        this->buf_word = std::move(other.buf_word);\n        return *this;\n    }")],
  "a glyph table that is replaced by another one with more words", "words of the new table are not found",
  cpp=GL + r'''
int main(int, char**) {
    auto g = table(one);
    g = table(three);
    std::puts(words(g).c_str());
    EXPECT(words(g) == "abc/1 b/1 somewhatlongerword/1 xyz/1 ");
    return bad;
}''')
bug("b42-inline", "P42", [S + "ocr2/glyphs.hpp"] * 2 + [S + "ocr2/glyphs.cpp"], [("    std::unique_ptr<unsigned[]> buf_word;\n", "    // few words need no memory of their own\n    unsigned small_word[12];\n    unsigned const * words = nullptr;\n    std::unique_ptr<unsigned[]> buf_word;\n"), ("reinterpret_cast<string const *>(this->buf_word.get() + i)", "reinterpret_cast<string const *>(this->words + i)"), ("    glyphs.buf_word_sz = buf_word_sz;", "    glyphs.buf_word_sz = buf_word_sz;\n    glyphs.words = glyphs.buf_word.get();\n    if (buf_word_sz <= 12) {\n        std::copy(glyphs.words, glyphs.words + buf_word_sz, glyphs.small_word);\n        glyphs.words = glyphs.small_word;\n    }")],
  "a glyph table of few words that is moved", "its words are looked up in the object it was moved from",
  cpp=GL + r'''
#include <optional>
int main(int, char**) {
    std::optional<ppocr::ocr2::Glyphs> a(table(one));
    { std::istringstream i(one); a.reset(); a.emplace(); i >> *a; }
    ppocr::ocr2::Glyphs b(std::move(*a));
    { a.reset(); a.emplace(); std::istringstream i(three); i >> *a; }
    { std::istringstream i("1 1 x\n1\nz f 1\n"); a.reset(); a.emplace(); i >> *a; }
    std::puts(words(b).c_str());
    EXPECT(words(b) == "a/1 ");
    return bad;
}''')
bug("b42-bounds", "P42", S + "image/image.hpp", [("    Image() = default;\n", "    Image() = default;\n    Image(Image &&) = default;\n\n    Image & operator=(Image && other) noexcept {\n        this->data_ = std::move(other.data_);\n        // most pictures that replace another one have its bounds\n        if (this->area() != other.area()) {\n            this->bounds_ = other.bounds_;\n        }\n        return *this;\n    }\n")],
  "a picture replaced by one of the same area and another width", "the new picture has the old width and height",
  cpp=r'''
#include "ppocr/image/image_from_string.hpp"
int main(int, char**) {
    auto a = pic("xx-/-x-"), b = a.rotate90();
    a = b.clone();
    EXPECT(a == b && a.width() == 2);
    auto c = pic("x--/-x-");
    c = c.rotate90();
    EXPECT(c.width() == 2 && c.height() == 3);
    return bad;
}''')
bug("b42-view", "P42", [S + "ocr2/word_lines.hpp"] * 2 + [S + "ocr2/word_lines.cpp"], [("        return {str_data, str_len};", "        return {str, str_len};"), ("    char str_data[8];\n", "    char str_data[8];\n    char const * str;\n"), ("            wwords_lines.push_back(wwl);\n        }\n    }\n", "            wwords_lines.push_back(wwl);\n        }\n    }\n    for (auto & x : wwords_lines) {\n        x.str = x.str_data;\n    }\n")],
  "line positions that are copied or change after they were loaded", "an entry's word is looked up in the entries it was copied from",
  cpp=r'''
#include "ppocr/ocr2/word_lines.hpp"
int main(int, char**) {
    ppocr::ocr2::WWordsLines a;
    { std::istringstream i("ab 0 1 2 3\nc 0 0 0 1\n"); i >> a; }
    auto b = a;
    a.clear();
    a.shrink_to_fit();
    { ppocr::ocr2::WWordsLines d; std::istringstream i("xy 0 1 2 3\nz 0 0 0 1\n"); i >> d; a = d; 
      EXPECT(b[0].sv().data() == b[0].str_data && a[1].sv().data() == a[1].str_data); }
    return bad;
}''')
bug("b42-roots", "P42", S + "container/trie.hpp", [("            this->elems_.data() + (this->elems_.empty() ? 0u : this->elems_[0].relative_pos())", "            this->elems_.data() + this->count_roots()"), ("private:\n    std::vector<node_type> elems_;\n};", "private:\n    std::vector<node_type> elems_;\n    // of the root nodes, when it is known\n    mutable std::size_t roots_ = 0;\n\n    std::size_t count_roots() const {\n        if (!this->roots_ && !this->elems_.empty()) {\n            this->roots_ = this->elems_[0].relative_pos();\n        }\n        return this->roots_;\n    }\n\npublic:\n    flat_trie(flat_trie const &) = default;\n    flat_trie(flat_trie &&) = default;\n\n    flat_trie & operator=(flat_trie && other) noexcept {\n        this->elems_ = std::move(other.elems_);\n        return *this;\n    }\n\n    flat_trie & operator=(flat_trie const & other) {\n        this->elems_ = other.elems_;\n        return *this;\n    }\n};")],
  "a dictionary that was searched and is then replaced by another one", "the new one is searched with the old number of first characters",
  cpp=r'''
#include "ppocr/spell/word_disambiguouser.hpp"
#include <string>
#include <vector>
int main(int, char**) {
    using ppocr::spell::Dictionary;
    auto has = [](Dictionary const& d, std::string const& w) { std::vector<std::vector<std::string>> l; for (char c : w) l.push_back({{c}}); std::string o; return ppocr::spell::WordDisambiguouser()(d, l.begin(), l.end(), o); };
    Dictionary d(std::vector<std::string>{"ab"});
    EXPECT(has(d, "ab"));
    d = Dictionary(std::vector<std::string>{"b", "c", "da"});
    EXPECT(has(d, "b") && has(d, "c") && has(d, "da"));
    return bad;
}''')
bug("b42-small", "P42", S + "strategies/utils/count_zone.hpp", [("            if (n > _capacity) {\n", "            if (n <= 16) {\n                _data = _small;\n            }\n            else {\n            if (n > _capacity) {\n"), ("                _capacity = n * 2;\n            }\n", "                _capacity = n * 2;\n            }\n            _data = _buffer.get();\n            }\n"), ("            return _buffer.get();", "            return _data;"), ("        std::size_t _capacity = 0;\n    };", "        std::size_t _capacity = 0;\n        // few zones need no memory of their own\n        T _small[16];\n        T* _data = nullptr;\n    };")],
  "scratch state that is moved after a picture with few zones", "the zones are read from where the scratch state was",
  cpp=r'''
#include "ppocr/strategies/utils/count_zone.hpp"
#include <optional>
#include <utility>
int main(int, char**) {
    using B = ppocr::strategies::utils::Buffer<unsigned>;
    std::optional<B> a(std::in_place);
    unsigned* p = a->alloc_and_init_to_zero(4);
    for (unsigned i = 0; i < 4; ++i) p[i] = i + 1;
    B b(std::move(*a));
    a.reset();
    a.emplace();
    a->alloc_and_init_to_zero(4);
    for (unsigned i = 0; i < 4; ++i) EXPECT(b.data()[i] == i + 1);
    return bad;
}''')
bug("b42-swap", "P42", S + "ocr2/probabilities.hpp", [("        std::swap(p.data, data);\n        std::swap(p.current, current);", "        std::swap(p.data, data);\n        auto const n = p.size();\n        p.current = p.data + (current - data);\n        current = data + n;")],
  "two lists of scored candidates of different lengths are exchanged", "they get lengths that are not theirs",
  cpp=r'''
#include "ppocr/ocr2/probabilities.hpp"
int main(int, char**) {
    ppocr::ocr2::Probabilities a(4), b(4);
    a.push_back({1, .5}); a.push_back({2, .25}); b.push_back({3, 1.});
    swap(a, b);
    EXPECT(a.size() == 1 && b.size() == 2 && a.front().i == 3 && b.front().i == 1);
    return bad;
}''')
bug("b42-lists", "P42", S + "ocr2/data_indexes_by_words.hpp", [("    DataIndexesByWords(DataIndexesByWords &&) = default;", "    DataIndexesByWords(DataIndexesByWords && other) noexcept\n    : indexes_by_words(std::move(other.indexes_by_words)) {\n        // a list that nothing is in needs no room\n        while (!this->indexes_by_words.empty() && this->indexes_by_words.back().empty()) {\n            this->indexes_by_words.pop_back();\n        }\n    }")],
  "a same-word index that is moved, whose last glyphs share their word with no other", "the lists of those glyphs do not exist any more",
  asan=True, cpp=r'''
#include "ppocr/ocr2/data_indexes_by_words.hpp"
int main(int, char**) {
    ppocr::ocr2::Glyphs g;
    { std::istringstream i("1 1 x\n1\na f 1\n1 1 -\n1\nb f 1\n"); i >> g; }
    ppocr::ocr2::DataIndexesByWords a(g);
    ppocr::ocr2::DataIndexesByWords b(std::move(a));
    EXPECT(b[0].empty() && b[1].empty() && &b[1] - &b[0] == 1);
    for (auto x : b[1]) EXPECT(x < 2);
    std::vector<ppocr::ocr2::DataIndexesByWords> v;
    v.push_back(std::move(b));
    EXPECT(v[0][1].size() == 0);
    EXPECT(v[0][0].data() == nullptr && v[0][1].data() == nullptr);
    return bad;
}''')
