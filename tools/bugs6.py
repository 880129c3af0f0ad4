S = "src/ppocr/"
FAIL_NEW = r'''
#include <new>
static long live, countdown = -1;
static void* take(std::size_t n) { if (countdown >= 0 && countdown-- == 0) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (p) ++live; return p; }
void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { try { return take(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete[](void* p) noexcept { if (p) --live; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
'''
FAIL_READ = r'''
#include <dlfcn.h>
#include <unistd.h>
#include <cerrno>
static long piece, fail_at = -1;
extern "C" ssize_t read(int fd, void* p, size_t n) {
    static auto const real = reinterpret_cast<ssize_t (*)(int, void*, size_t)>(dlsym(RTLD_NEXT, "read"));
    if (fail_at >= 0 && fail_at-- == 0) { errno = EIO; return -1; }
    if (piece && n > size_t(piece)) n = size_t(piece);
    return real(fd, p, n);
}
extern "C" ssize_t __read_chk(int fd, void* p, size_t n, size_t) { return read(fd, p, n); }
'''
bug("b39-page", "P39", S + "image/image_from_file.cpp", [("            p += res;\n", "            p += res;\n            if (remaining < 512) {\n                break;\n            }\n")],
  "a picture file of which the last piece delivered holds less than 512 bytes", "the picture is refused as too short",
  cpp=FAIL_READ + r'''#include "ppocr/image/image_from_file.hpp"
int main(int, char** av) {
    std::string const f = std::string(av[1]) + "/a.pbm";
    put(f, "P1\n#" + std::string(300, 'c') + "\n3 2\n1 0 1\n0 1 0\n");
    for (long k : {0l, 700l, 5l, 1l}) { piece = k; try { EXPECT(ppocr::image_from_file(f.c_str()) == pic("x-x/-x-")); } catch (std::exception const&) { EXPECT(!"refused"); } }
    return bad;
}''')
bug("b39-bad", "P39", S + "utils/read_file.hpp", [("    if (!file.eof()) {", "    if (!file.eof() && !file.bad()) {")],
  "a read that fails in the middle of a data file", "loading reports success with what was read before",
  cpp=FAIL_READ + r'''#include "ppocr/utils/read_file.hpp"
#include "ppocr/ocr2/word_lines.hpp"
int main(int, char** av) {
    std::string const f = std::string(av[1]) + "/l";
    put(f, "a 0 1 2 2\nb 0 1 2 2\n");
    EXPECT(ppocr::utils::load_from_file<ppocr::ocr2::WWordsLines>(f).size() == 2);
    piece = 10; fail_at = 1;
    bool refused = false;
    try { ppocr::utils::load_from_file<ppocr::ocr2::WWordsLines>(f); } catch (std::exception const&) { refused = true; }
    EXPECT(refused);
    return bad;
}''')
bug("b39-dict", "P39", S + "spell/dictionary.cpp", [("    while (is.peek() != std::istream::traits_type::eof()) {", "    while (is.rdbuf()->in_avail() > 0 || is.peek() != std::istream::traits_type::eof()) {\n        if (is.rdbuf()->in_avail() < 8 && nodes.size() > 64) {\n            is.setstate(std::ios::eofbit);\n            break;\n        }")],
  "a dictionary of more than 64 nodes delivered so that a piece ends inside of a line", "the nodes from there on are missing, or it is refused",
  cpp=FAIL_READ + r'''#include "ppocr/utils/read_file.hpp"
#include "ppocr/spell/dictionary.hpp"
int main(int, char** av) {
    std::string const f = std::string(av[1]) + "/d";
    std::vector<std::string> w;
    for (char a = 'a'; a <= 'z'; ++a) for (char b = 'a'; b <= 'e'; ++b) w.push_back({a, b});
    std::ostringstream o; o << ppocr::spell::Dictionary(w);
    put(f, o.str());
    for (long k : {100l, 7l}) {
        piece = k;
        try { std::ostringstream r; r << ppocr::utils::load_from_file<ppocr::spell::Dictionary>(f); EXPECT(k < 0 || r.str() == o.str()); } catch (std::exception const&) { EXPECT(!"refused"); }
    }
    return bad;
}''')
bug("b40-capacity", "P40", S + "strategies/utils/count_zone.hpp", [("                _buffer.reset(new T[n * 2]);\n                _capacity = n * 2;", "                _capacity = n * 2;\n                _buffer.reset(new T[_capacity]);")],
  "running out of memory when a larger picture comes, then going on with the same scratch state", "writes outside of the buffer",
  cpp=FAIL_NEW + r'''#include "ppocr/strategies/utils/count_zone.hpp"
int main(int, char**) {
    ppocr::strategies::utils::Buffer<unsigned> b;
    EXPECT(b.alloc_and_init_to_zero(4) != nullptr);
    countdown = 0;
    bool thrown = false;
    try { b.alloc_and_init_to_zero(100000); } catch (std::bad_alloc const&) { thrown = true; }
    EXPECT(thrown);
    countdown = 0;
    thrown = false;
    try { b.alloc_and_init_to_zero(100000); } catch (std::bad_alloc const&) { thrown = true; }
    countdown = -1;
    EXPECT(thrown);
    return bad;
}''', asan=True)
bug("b40-reserve", "P40", S + "ocr2/image_context.hpp", [("            this->data_.reset(new ppocr::Pixel[new_sz]);\n            this->capacity_sz_ = new_sz;", "            this->capacity_sz_ = new_sz;\n            this->data_.reset();\n            this->data_.reset(new ppocr::Pixel[new_sz]);")],
  "running out of memory when a larger picture comes, then going on with the same buffer", "writes through a null pointer",
  cpp=FAIL_NEW + r'''#include "ppocr/ocr2/image_context.hpp"
#include <cstring>
int main(int, char**) {
    ppocr::ocr2::ImageContext c;
    auto fill = [](unsigned n) { return [n](ppocr::Pixel* p) { if (!p) { std::puts("null"); std::exit(1); } std::memset(p, 'x', n); }; };
    EXPECT(c.img({2, 2}, fill(4)).area() == 4);
    countdown = 0;
    bool thrown = false;
    try { c.img({9, 9}, fill(81)); } catch (std::bad_alloc const&) { thrown = true; }
    countdown = -1;
    EXPECT(thrown);
    EXPECT(c.img({9, 9}, fill(81)).area() == 81);
    EXPECT(c.img90().area() == 81);
    return bad;
}''')
bug("b40-grown", "P40", S + "ocr2/image_context.hpp", [("            this->data_.reset(new ppocr::Pixel[new_sz]);", "            this->img90_ = Image();\n            this->data_.release();\n            this->data_.reset(new ppocr::Pixel[new_sz]);")],
  "a picture buffer that grows", "the smaller buffer is never released",
  cpp=FAIL_NEW + r'''#include "ppocr/ocr2/image_context.hpp"
#include <cstring>
int main(int, char**) {
    long const before = live;
    { ppocr::ocr2::ImageContext c; for (unsigned n = 1; n < 9; ++n) c.img({n, n}, [n](ppocr::Pixel* p) { std::memset(p, 'x', n * n); }); }
    EXPECT(live == before);
    return bad;
}''')
bug("b40-fd", "P40", S + "image/image_from_file.cpp", [("        ~File()\n        {\n            close(fd);\n        }\n", ""), ("                throw_error(filename);\n            }\n            remaining -= ", "                throw_error(filename);\n            }\n            if (static_cast<std::size_t>(res) == remaining) {\n                close(file.fd);\n                return buf;\n            }\n            remaining -= ")],
  "a picture that cannot be read to its end: an empty file or a directory", "the file stays open",
  cpp=r'''#include "ppocr/image/image_from_file.hpp"
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
int main(int, char** av) {
    std::string const f = std::string(av[1]) + "/a";
    put(f + ".pbm", "P1\n1 1\n1\n"); put(f, "");
    int const a = open("/dev/null", O_RDONLY); close(a);
    for (auto const& x : {f + ".pbm", f, std::string(av[1]), f + "none"}) { try { ppocr::image_from_file(x.c_str()); } catch (std::exception const&) {} }
    int const b = open("/dev/null", O_RDONLY);
    EXPECT(a == b);
    return bad;
}''')
bug("b40-raw", "P40", S + "image/image_from_file.cpp", [("    PtrImageData vimg(new Pixel[img_size]);", "    char* const pixels = new Pixel[img_size];"), ("    char* output = vimg.get();", "    char* output = pixels;"), ("    return Image(Bounds(header.width, header.height), std::move(vimg));", "    return Image(Bounds(header.width, header.height), PtrImageData(pixels));")],
  "a picture with a good header and wrong data", "its pixels are never released",
  cpp=FAIL_NEW + r'''#include "ppocr/image/image_from_file.hpp"
int main(int, char** av) {
    std::string const f = std::string(av[1]) + "/a";
    auto once = [&](char const* s) { put(f, s); long const before = live; try { ppocr::image_from_file(f.c_str()); } catch (std::exception const&) {} return live - before; };
    for (auto s : {"P1\n2 1\n1 0\n", "P1\n2 1\n1\n", "P1\n2 1\n1 7\n", "P6\n2 1\n255\nxxx", "P4\n2 1\n"}) EXPECT(once(s) == 0);
    return bad;
}''')
bug("b40-null", "P40", S + "image/image.cpp", [("    PtrImageData data(new Pixel[this->area()]);\n    ::ppocr::rotate90", "    PtrImageData data(new (std::nothrow) Pixel[this->area()]);\n    if (!data) {\n        return {};\n    }\n    ::ppocr::rotate90")],
  "running out of memory while a picture is turned", "an empty picture comes back as the result",
  cpp=FAIL_NEW + r'''
int main(int, char**) {
    auto const p = pic("x--/xx-");
    countdown = 0;
    bool thrown = false;
    try { auto const r = p.rotate90(); EXPECT(r.area() == 6); } catch (std::bad_alloc const&) { thrown = true; }
    countdown = -1;
    EXPECT(thrown);
    EXPECT(p.rotate90() == pic("--/-x/xx"));
    return bad;
}''')
bug("b40-part", "P40", S + "ocr2/insert_views.hpp", [("        cache_element.insert(cache_element.end(), views.begin(), views.end());", "        try {\n            cache_element.insert(cache_element.end(), views.begin(), views.end());\n        }\n        catch (std::bad_alloc const &) {\n            break; // the best ones are there\n        }")],
  "running out of memory while the candidates are listed", "a part of the candidates is the result",
  cpp=FAIL_NEW + r'''#include "ppocr/ocr2/insert_views.hpp"
int main(int, char**) {
    using namespace ppocr::ocr2;
    Glyphs g;
    { std::istringstream i("1 1 x\n1\na f 1\n1 1 -\n1\nb f 1\n"); i >> g; }
    Probabilities p(2);
    p.emplace_back(0u, 1.); p.emplace_back(1u, 1.);
    view_ref_list l;
    insert_views(l, p, g, 0.5);
    EXPECT(l.size() == 2);
    for (long k = 0; k < 2; ++k) {
        view_ref_list m;
        countdown = k;
        bool thrown = false;
        try { insert_views(m, p, g, 0.5); } catch (std::bad_alloc const&) { thrown = true; }
        countdown = -1;
        EXPECT(thrown || m.size() == 2);
    }
    return bad;
}''')
TSAN = r'''g++ -std=c++17 -O1 -g -DNDEBUG -fsanitize=thread -Isrc "$here/d.cpp" $(grep -o '^ *src/ppocr/[A-Za-z0-9_/]*[.]cpp$' Jamroot | sort -u) -o "$t/d" || exit 9
TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 100 setarch -R "$t/d" 2> "$t/err"; r=$?
head -20 "$t/err"
exit $r
'''
def race(src):
    return "cat > \"$t/d.cpp\" <<'EOF'\n" + src + "\nEOF\nhere=$t\n" + TSAN
HEAD = "#include <thread>\n#include <vector>\n#include <sstream>\n#include <string>\n#include <algorithm>\n"
bug("b41-mark", "P41", S + "ocr2/data_indexes_by_words.hpp", [("        return this->indexes_by_words[i];", "        static std::size_t last_i;\n        static std::vector<std::vector<unsigned>> const * last_lists;\n        static std::vector<unsigned> const * last;\n        if (last_lists != &this->indexes_by_words || last_i != i || last != &this->indexes_by_words[i]) {\n            last_lists = &this->indexes_by_words;\n            last_i = i;\n            last = &this->indexes_by_words[i];\n        }\n        return *last;")],
  "two threads that recognise pictures with the same index of words", "one gets the list of glyphs that the other asked for",
  sh=race(HEAD + r'''#include "ppocr/ocr2/data_indexes_by_words.hpp"
int main() {
    ppocr::ocr2::Glyphs g;
    { std::istringstream i("1 1 x\n1\na f 1\n1 1 -\n1\na f 1\n1 1 -\n1\nb f 1\n"); i >> g; }
    ppocr::ocr2::DataIndexesByWords const d(g);
    bool ok[2] = {true, true};
    auto run = [&](int t) { for (int k = 0; k < 2000; ++k) for (unsigned i = 0; i < 3; ++i) if (d[i].size() != (i < 2)) ok[t] = false; };
    std::thread a(run, 0), b(run, 1);
    a.join(); b.join();
    return !(ok[0] && ok[1]);
}'''))
bug("b41-utf", "P41", S + "spell/word_disambiguouser.hpp", [("        char c[] = {", "        static char c[5];\n        char const bytes[] = {"), ("            '\\0'\n        };\n        s += c;", "            '\\0'\n        };\n        std::copy(bytes, bytes + 5, c);\n        s += c;")],
  "two threads that search a dictionary at once", "the words found may hold characters of the other thread's word",
  sh=race(HEAD + r'''#include "ppocr/spell/word_disambiguouser.hpp"
int main() {
    ppocr::spell::Dictionary const d(std::vector<std::string>{"ab", "cd"});
    bool ok[2] = {true, true};
    auto run = [&](int t) {
        std::string const w = t ? "cd" : "ab";
        std::vector<std::vector<std::string>> l{{w.substr(0, 1)}, {w.substr(1)}};
        for (int k = 0; k < 500; ++k) { std::string o; if (!ppocr::spell::WordDisambiguouser()(d, l.begin(), l.end(), o) || o != w) ok[t] = false; }
    };
    std::thread a(run, 0), b(run, 1);
    a.join(); b.join();
    return !(ok[0] && ok[1]);
}'''))
bug("b41-hint", "P41", S + "ocr2/words_infos.hpp", [("        auto it = std::lower_bound(\n            this->words_infos.begin(), this->words_infos.end(), word,", "        // most lookups repeat the last one\n        if (this->hint < this->words_infos.size() && this->words_infos[this->hint].word == word) {\n            return &this->words_infos[this->hint];\n        }\n        auto it = std::lower_bound(\n            this->words_infos.begin(), this->words_infos.end(), word,"),
    ("        return it != this->words_infos.end() && it->word == word ? &*it : nullptr;", "        this->hint = it - this->words_infos.begin();\n        return it != this->words_infos.end() && it->word == word ? &*it : nullptr;"),
    ("    std::vector<WordInfos> words_infos;\n};", "    std::vector<WordInfos> words_infos;\n    mutable std::size_t hint = 0;\n};")],
  "two threads that look words up in the same line information", "an entry past the end of the list may be used",
  sh=race(HEAD + r'''#include "ppocr/ocr2/words_infos.hpp"
int main() {
    using namespace ppocr::ocr2;
    Glyphs g;
    { std::istringstream i("1 1 x\n1\na f 1\n1 1 -\n1\nb f 1\n1 1 -\n1\nc f 1\n"); i >> g; }
    WWordsLines l;
    { std::istringstream i("a 0 1 2 2\nb 0 1 2 3\n"); i >> l; }
    WordsInfos const w(g, l);
    bool ok[2] = {true, true};
    auto run = [&](int t) { for (int k = 0; k < 500; ++k) for (unsigned i = 0; i < 3; ++i) if ((w.get(g[i][0].word) != nullptr) != (i < 2)) ok[t] = false; };
    std::thread a(run, 0), b(run, 1);
    a.join(); b.join();
    return !(ok[0] && ok[1]);
}'''))
bug("b41-columns", "P41", S + "box_char/make_box_character.cpp", [("    unsigned x = idx.x();\n\n    auto d", "    // the columns seen to be empty, up to the last picture's width\n    static unsigned empty_until;\n    static Pixel const * empty_of;\n    unsigned x = idx.x();\n    if (empty_of == image.data() && empty_until == x) {\n        empty_of = nullptr;\n    }\n\n    auto d"), ("    unsigned w = x;\n", "    unsigned w = x;\n    empty_until = x;\n    empty_of = image.data();\n")],
  "two threads that segment lines at once", "unsynchronised accesses to what the function remembers",
  sh=race(HEAD + r'''#include "ppocr/box_char/make_box_character.hpp"
#include "ppocr/image/image.hpp"
int main() {
    using namespace ppocr;
    PtrImageData p(new Pixel[6]{'x', '-', 'x', 'x', '-', 'x'});
    Image const img({3, 2}, std::move(p));
    bool ok[2] = {true, true};
    auto run = [&](int t) { for (int k = 0; k < 500; ++k) { unsigned x = 0, n = 0; while (auto const b = make_box_character(img, {x, 0}, img.bounds())) { x = b.x() + b.width(); ++n; } if (n != 2) ok[t] = false; } };
    std::thread a(run, 0), b(run, 1);
    a.join(); b.join();
    return !(ok[0] && ok[1]);
}'''))
