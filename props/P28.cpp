// Loading data files reports every file that cannot be read to its end.
#include "pp_tables.hpp"

#include <sys/stat.h>
#include <unistd.h>

namespace pbt {

PropertyInfo const property_info{"P28",
    "files of the four kinds (glyph table, feature table, line positions, dictionary) as written, and followed by blanks, foreign text or a damaged entry, or foreign from the start, and missing files, directories, names below a file, too long names and circular links; loaded from the path and compared with reading the same bytes from memory; "
    "non-trivial: not an empty file", no_setup};

namespace {
struct Outcome { bool ok = false; std::string value; };
using pp::value;
/// reading from memory: fine when the reader stopped at the end
template<class T> Outcome memory(std::string const& bytes) {
    Outcome r;
    try {
        T x;
        std::istringstream i(bytes);
        i >> x;
        r.ok = i.eof();
        r.value = value(x);
    }
    catch (std::exception const&) { r.ok = false; }
    return r;
}
template<class T> Outcome file(Case& c, std::string const& path) {
    Outcome r, q;
    try { r.value = value(ppocr::utils::load_from_file<T>(path)); r.ok = true; } catch (std::exception const&) {}
    try { T x; ppocr::utils::read_file(x, path.c_str()); q.value = value(x); q.ok = true; } catch (std::exception const&) {}
    PBT_REQ(c, r.ok == q.ok && (!r.ok || r.value == q.value), "load_from_file and read_file differ");
    return r;
}
template<class T> void one(Source& s, Case& c, std::string bytes, std::string const& damaged, char const* kind) {
    std::string path = scratch_dir() + "/file with blank";
    unsigned const how = s.weighted({5, 2, 3, 2, 2, 1});
    int expected = -1;
    ::unlink(path.c_str());
    ::rmdir(path.c_str());
    std::string what;
    if (how == 5) {
        expected = 0;
        switch (s.u(5)) {
            case 0: what = "missing"; break;
            case 1: ::mkdir(path.c_str(), 0700); what = "directory"; break;
            case 2: write_file(path, bytes); path += "/below"; what = "below a file"; break;
            case 3: path = scratch_dir() + "/" + std::string(300, 'n'); what = "name too long"; break;
            default: path = scratch_dir() + "/loop"; if (::symlink("loop", path.c_str())) {} what = "link to itself"; break;
        }
        bytes.clear();
    }
    else {
        switch (how) {
            case 0: expected = bytes.empty() ? -1 : 1; what = "as written"; break;
            case 1: { static char const* const b[] = {"\n", " ", "\n\n  \n", "\t"}; bytes += b[s.u(4)]; what = "blanks behind"; break; }
            case 2: bytes += damaged; expected = 0; what = "foreign text behind"; break;
            case 3: bytes = damaged + bytes; what = "foreign text before"; expected = 0; break;
            default: { // any edit that cannot enlarge a count
                std::size_t n = bytes.size();
                if (n) { static char const r[] = {'x', ' ', '\n', '-', '0'}; bytes[s.u(n)] = r[s.u(5)]; }
                what = "edited";
            }
        }
        write_file(path, bytes);
    }
    c.mix(bytes); c.mix(what); c.mix(std::string(kind));
    c.describe([&](auto& o) { o << kind << ", " << what << ": " << quote(bytes); });
    c.label(kind); c.label(what);
    c.nontrivial = !bytes.empty() || how == 5;
    Outcome const got = file<T>(c, path);
    if (expected >= 0) PBT_REQ(c, got.ok == (expected == 1), kind << " " << what << ": " << (got.ok ? "accepted" : "refused"));
    if (how == 5) return;
    Outcome const want = memory<T>(bytes);
    PBT_REQ(c, got.ok == want.ok, kind << " " << what << ": " << (got.ok ? "accepted" : "refused") << " but memory is " << (want.ok ? "read to the end" : "not read to the end"));
    PBT_REQ(c, !got.ok || got.value == want.value, kind << " " << what << ": another value than from memory");
}
}

void property(Source& s, Case& c) {
    static char const* const foreign[] = {"x x x\n", "!\n?\n#\n", "-\nzz zz\nzz\n"};
    switch (s.u(4)) {
        case 0: {
            auto const g = gen::glyphs(s, 8);
            // the reader skips the picture line, so the foreign text stands where a count is expected
            one<ppocr::ocr2::Glyphs>(s, c, ref::glyph_file(g), std::string("1 1 x\n") + foreign[s.u(3)], "glyph table");
            break;
        }
        case 1: {
            std::vector<ref::Features> f;
            for (unsigned n = unsigned(s.small(0, 5)); n; --n) f.push_back(ref::features(gen::glyph_pic(s, 12, 12)));
            one<ppocr::PpOcrDatas>(s, c, ref::feature_table(f), foreign[s.u(3)], "feature table");
            break;
        }
        case 2: {
            std::string t;
            for (unsigned n = unsigned(s.small(0, 8)); n; --n) { t += gen::token(s, 4); for (unsigned k = 0; k < 4; ++k) t += ' ' + std::to_string(s.u(8)); t += '\n'; }
            one<ppocr::ocr2::WWordsLines>(s, c, t, std::string("w ") + foreign[s.u(3)], "line positions");
            break;
        }
        default: {
            std::ostringstream o;
            o << ppocr::spell::Dictionary(gen::word_list(s, 12, false));
            one<ppocr::spell::Dictionary>(s, c, o.str(), foreign[s.u(3)], "dictionary");
        }
    }
}

}
