// Data files that are cut short are refused, never read as smaller ones; damaged dictionaries stay inside of memory.
#include "pp_glyphs.hpp"
#include "pp_dict.hpp"
#include "ppocr/defined_loader.hpp"
#include "ppocr/ocr2/word_lines.hpp"
#include "ppocr/spell/word_disambiguouser.hpp"
#include "ppocr/utils/read_file.hpp"

namespace pbt {

PropertyInfo const property_info{"P34",
    "files of the four kinds (glyphs, by both readers; features; line positions; dictionary) cut at a random position, often next to the end of an entry or of the file, loaded from a path and given to the tools which read them; dictionaries with one to three numbers replaced, searched when they are accepted; numbers of labels, entries or regions replaced by far larger or negative ones; "
    "non-trivial: something was lost or changed", no_setup};

namespace {
/// where an entry starts, where its last value starts and ends
struct Entry { std::size_t start, last, end; };
struct File { std::string bytes; std::vector<Entry> e; };

File glyph_file(std::vector<ref::Glyph> const& v, bool recogniser) {
    File f;
    for (auto& g : v) {
        Entry e;
        e.start = f.bytes.size();
        std::string const t = ref::glyph_file({g});
        f.bytes += t;
        std::size_t const end = f.bytes.size() - 1; // before the line end
        std::size_t const number = f.bytes.rfind(' ', end) + 1;
        e.end = end;
        e.last = recogniser ? f.bytes.rfind(' ', number - 2) + 1 : number; // the recogniser does not need the line
        f.e.push_back(e);
    }
    return f;
}
enum Verdict { Accepted, Refused, Either };
/// entries a reader of the first k bytes may see
Verdict expected(File const& f, std::size_t k, std::size_t& entries) {
    entries = 0;
    for (auto& e : f.e) {
        if (k >= e.end) { ++entries; continue; }
        if (k <= e.start) return Accepted;
        if (k <= e.last) return Refused;
        ++entries; // the last value is shorter
        return Either;
    }
    return Accepted;
}
template<class T, class Check> void load(Case& c, File const& f, std::size_t k, char const* kind, Check check) {
    std::string const path = scratch_dir() + "/cut";
    std::string const bytes = f.bytes.substr(0, k);
    write_file(path, bytes);
    std::size_t n;
    Verdict const v = expected(f, k, n);
    for (unsigned way = 0; way < 2; ++way) {
        bool ok = true;
        T x;
        try { if (way) ppocr::utils::read_file(x, path); else x = ppocr::utils::load_from_file<T>(path); }
        catch (std::exception const&) { ok = false; }
        auto shown = [&] { return std::string(kind) + " cut at " + std::to_string(k) + " of " + std::to_string(f.bytes.size()) + " bytes: " + quote(bytes, 1500); };
        PBT_REQ(c, v == Either || ok == (v == Accepted), shown() << (ok ? " is accepted" : " is refused"));
        if (ok) check(x, n, shown);
    }
    c.label(std::string(kind) + (v == Accepted ? ": whole entries" : v == Refused ? ": refused" : ": last value"));
}
std::size_t cut(Source& s, File const& f) {
    std::size_t const n = f.bytes.size();
    if (!n) return 0;
    switch (s.u(4)) {
        case 0: return s.u(n + 1);
        case 1: return n - std::min<std::size_t>(n, s.small(0, 40));
        default: { // next to a border
            auto const& e = s.pick(f.e);
            std::size_t const b = s.flip() ? e.end : s.flip() ? e.last : e.start;
            std::size_t const d = s.small(0, 6);
            return s.flip() ? std::min(n, b + d) : b - std::min(b, d);
        }
    }
}

/// every path of a tree, within a bound
template<class Range> void walk(Range const& r, unsigned& budget, unsigned depth, std::uint64_t& sum) {
    for (auto const& node : r) {
        if (!budget) return;
        --budget;
        sum += node.get() + node.is_terminal();
        if (!node.empty() && depth < 3000) walk(node.childrens(), budget, depth + 1, sum);
    }
}
void damaged(Source& s, Case& c, std::vector<std::string> const& list) {
    std::ostringstream o;
    o << ppocr::spell::Dictionary(list);
    struct Nd { unsigned long long v[4]; };
    std::vector<Nd> nodes;
    { std::istringstream i(o.str()); Nd d; while (i >> d.v[0] >> d.v[1] >> d.v[2] >> d.v[3]) nodes.push_back(d); }
    if (nodes.empty()) { c.label("damaged: empty"); return; }
    std::size_t const n = nodes.size();
    for (unsigned k = unsigned(s.range(1, 3)); k; --k) {
        std::size_t const at = s.flip() ? s.u(std::min<std::size_t>(n, 3)) : s.u(n);
        unsigned const col = s.weighted({1, 4, 4, 1});
        auto& x = nodes[at].v[col];
        switch (s.u(6)) {
            case 0: x = s.u(n + 3); break;
            case 1: x += s.range(1, 3); break;
            case 2: x -= std::min<unsigned long long>(x, s.range(1, 3)); break;
            case 3: x = n - at + s.u(3) - std::min<unsigned long long>(n - at, 1); break;
            case 4: { static unsigned long long const big[] = {0xffffffff, 0x7fffffff, 0x80000000, 0xfffffffe, 0x100000000, 0xffffffffffffffff, 0x80000001}; x = big[s.u(7)]; if (s.flip()) x -= std::min<unsigned long long>(x, at); break; }
            default: x = 0; break;
        }
    }
    std::string text;
    bool inside = true, writable = true;
    for (std::size_t k = 0; k < n; ++k) {
        auto const& v = nodes[k].v;
        for (auto x : v) text += std::to_string(x) + ' ';
        text.back() = '\n';
        if (v[0] > 0xffffffff || v[1] > 0xffffffff || v[2] > 0xffffffff || v[3] > 1) writable = false;
        if (v[2] && (v[1] == 0 || k + v[1] + v[2] > n)) inside = false;
        if (k == 0 && v[1] > n) inside = false;
    }
    c.mix(text);
    c.describe([&](auto& out) { out << "dictionary " << quote(text, 2000); });
    c.nontrivial = text != o.str();
    std::string const path = scratch_dir() + "/cut";
    write_file(path, text);
    ppocr::spell::Dictionary d;
    bool ok = true;
    try { ppocr::utils::read_file(d, path); } catch (std::exception const&) { ok = false; }
    PBT_REQ(c, !ok || (inside && writable), "a dictionary with a reference outside is accepted: " << quote(text, 2000));
    PBT_REQ(c, ok || text != o.str(), "an undamaged dictionary is refused");
    c.label(ok ? "damaged: accepted" : "damaged: refused");
    if (!ok) return;
    { std::ostringstream q; q << d; PBT_REQ(c, q.str() == text, "the dictionary read holds something else: " << quote(q.str(), 2000) << " instead of " << quote(text, 2000)); }
    unsigned budget = 3000;
    std::uint64_t sum = 0;
    walk(pp::Peek().flat(d).childrens(), budget, 0, sum);
    // a search can take any path: few candidates, so that it ends
    for (unsigned k = 0; k < 3 && !list.empty(); ++k) {
        std::vector<std::vector<std::string>> pos;
        for (auto& ch : gen::chars(s.pick(list))) pos.push_back({ch});
        std::string out;
        bool const found = !pos.empty() && ppocr::spell::WordDisambiguouser()(d, pos.cbegin(), pos.cend(), out);
        PBT_REQ(c, found || out.empty(), "a failed search leaves " << quote(out));
    }
}
/// a number of labels, entries or regions that the file does not have, far too large: refused, and no memory is taken for it
void counts(Source& s, Case& c) {
    static char const* const big[] = {"4294967295", "2147483647", "2147483648", "-1", "100000", "3000000000", "-7"};
    std::string const number = big[s.u(7)];
    unsigned const what = unsigned(s.u(4)); // 0, 1: labels by both readers; 2: entries; 3: regions
    std::string bytes;
    auto g = gen::glyphs(s, 5);
    if (g.empty()) { c.label("count: no glyph"); return; }
    if (what < 2) {
        std::size_t const at = s.u(g.size());
        for (std::size_t i = 0; i < g.size(); ++i) {
            std::string t = ref::glyph_file({g[i]});
            if (i == at) {
                std::size_t const b = t.find('\n') + 1;
                t.replace(b, t.find('\n', b) - b, number);
            }
            bytes += t;
        }
    }
    else {
        std::vector<ref::Features> v;
        for (auto& x : g) v.push_back(ref::features(x.pic));
        bytes = ref::feature_table(v);
        std::size_t const b = what == 2 ? 0 : bytes.rfind('\n', bytes.size() - 2) + 1;
        bytes.replace(b, bytes.find_first_of(" \n", b) - b, what == 2 && s.chance(1, 4) ? "18446744073709551615" : number);
    }
    static char const* const names[] = {"glyph file", "glyph table", "feature table", "regions"};
    c.mix(bytes); c.mix(what);
    c.nontrivial = true;
    c.label(std::string("count: ") + names[what]);
    c.describe([&](auto& o) { o << names[what] << " with a wrong number: " << quote(bytes, 1500); });
    std::string const path = scratch_dir() + "/cut";
    write_file(path, bytes);
    bool ok = true;
    try {
        if (what == 0) ppocr::utils::load_from_file<ppocr::loader2::Glyphs>(path);
        else if (what == 1) ppocr::utils::load_from_file<ppocr::ocr2::Glyphs>(path);
        else ppocr::utils::load_from_file<ppocr::PpOcrDatas>(path);
    }
    catch (std::exception const&) { ok = false; }
    PBT_REQ(c, !ok, names[what] << " with a wrong number is accepted: " << quote(bytes, 1500));
    if (s.chance(1, 12)) { // the tools
        bool const data = what >= 2, normalise = s.flip();
        if (data) write_file(path + "g", ref::glyph_file(g));
        write_file(path + "i", ref::encode_p4(ref::blank(9, 5)));
        auto const r = data ? run_tool("ocr2_extract_text", {path + "g", path, path + "i"}) : run_tool(normalise ? "normalize_glyphs" : "write_datas", {path});
        PBT_REQ(c, r.status != 0 && r.err.find("Sanitizer") == std::string::npos && r.err.find("runtime error") == std::string::npos, "a tool given " << names[what] << " with a wrong number: status " << r.status << ' ' << r.err.substr(0, 1500) << " for " << quote(bytes, 1500));
        c.label("count: tool");
    }
}
}

void property(Source& s, Case& c) {
    unsigned const kind = s.weighted({5, 5, 4, 4, 4, 5, 1, 2});
    if (kind == 7) { counts(s, c); return; }
    if (kind == 5) { damaged(s, c, gen::word_list(s, 40, false)); return; }
    File f;
    std::size_t k = 0;
    auto choose = [&](char const* name) {
        k = cut(s, f);
        c.mix(kind); c.mix(f.bytes); c.mix(k);
        c.nontrivial = k < f.bytes.size();
        c.describe([&](auto& o) { o << name << " cut at " << k << ": " << quote(f.bytes); });
    };
    if (kind == 0 || kind == 1) {
        auto const g = gen::glyphs(s, 6);
        f = glyph_file(g, kind == 1);
        choose(kind ? "glyph table" : "glyph file");
        auto want = [&](std::size_t n) { auto w = g; w.resize(n); return w; };
        if (kind == 0) load<ppocr::loader2::Glyphs>(c, f, k, "glyph file", [&](auto& x, std::size_t n, auto shown) {
            auto w = want(n);
            std::size_t dummy;
            auto got = pp::plain(x);
            if (expected(f, k, dummy) == Either && got.size() == n) w.back().labels.back().line = got.back().labels.empty() ? 0 : got.back().labels.back().line;
            pp::same_glyphs(c, got, w, shown());
        });
        else load<ppocr::ocr2::Glyphs>(c, f, k, "glyph table", [&](auto& x, std::size_t n, auto shown) {
            auto w = want(n);
            std::size_t dummy;
            if (expected(f, k, dummy) == Either) w.back().labels.back().font = f.bytes.substr(f.e[n - 1].last, std::min(k, f.bytes.find(' ', f.e[n - 1].last)) - f.e[n - 1].last);
            pp::same_table(c, x, w, shown());
        });
    }
    else if (kind == 2) {
        std::vector<ref::Features> v;
        for (unsigned n = unsigned(s.small(0, 4)); n; --n) v.push_back(ref::features(gen::glyph_pic(s, 12, 12)));
        f.bytes = ref::feature_table(v);
        std::size_t const end = f.bytes.find_last_not_of(" \n") + 1, last = f.bytes.find_last_of(" \n", end - 1) + 1;
        f.e.push_back({0, last, end});
        choose("feature table");
        if (k == 0) k = 1;
        load<ppocr::PpOcrDatas>(c, f, k, "feature table", [&](auto& x, std::size_t n, auto shown) {
            PBT_REQ(c, x.size() == n * v.size(), shown() << ": read as " << x.size() << " entries");
            std::ostringstream o; o << x;
            std::string const t = o.str();
            PBT_REQ(c, t.compare(0, last, f.bytes, 0, last) == 0, shown() << ": read as " << quote(t, 1500));
        });
    }
    else if (kind == 3) {
        std::vector<std::string> words;
        std::vector<std::array<unsigned, 4>> values;
        for (unsigned n = unsigned(s.small(1, 8)); n; --n) {
            words.push_back(s.chance(1, 6) ? "longer-than-eight" : gen::token(s, 4));
            values.emplace_back();
            Entry e; e.start = f.bytes.size();
            f.bytes += words.back();
            for (auto& x : values.back()) { x = unsigned(s.u(8)); f.bytes += s.chance(1, 8) ? "\n" : " "; e.last = f.bytes.size(); f.bytes += std::to_string(x); }
            e.end = f.bytes.size();
            f.e.push_back(e);
            f.bytes += s.chance(1, 6) ? "\n\n" : "\n";
        }
        choose("line positions");
        load<ppocr::ocr2::WWordsLines>(c, f, k, "line positions", [&](auto& x, std::size_t n, auto shown) {
            std::size_t at = 0;
            for (std::size_t i = 0; i < n; ++i) if (words[i].size() <= 8) {
                PBT_REQ(c, at < x.size() && x[at].sv() == words[i], shown() << ": entry " << i << " is missing");
                auto const& l = x[at].wlines;
                PBT_REQ(c, l.ascentline == values[i][0] && l.capline == values[i][1] && l.meanline == values[i][2] && l.baseline == values[i][3], shown() << ": entry " << i << " has other values");
                ++at;
            }
            PBT_REQ(c, at == x.size(), shown() << ": " << x.size() << " entries instead of " << at);
        });
    }
    else if (kind == 4) {
        auto const list = gen::word_list(s, 40, false);
        std::ostringstream o;
        o << ppocr::spell::Dictionary(list);
        f.bytes = o.str();
        if (!f.bytes.empty()) f.e.push_back({0, f.bytes.size() - 1, f.bytes.size()}); // only complete, up to the last line end
        choose("dictionary");
        load<ppocr::spell::Dictionary>(c, f, k, "dictionary", [&](auto& x, std::size_t, auto shown) {
            std::ostringstream q; q << x;
            PBT_REQ(c, q.str() == (k ? f.bytes : ""), shown() << ": read as " << quote(q.str(), 1500));
        });
    }
    else { // the tools
        std::string const dir = scratch_dir() + "/";
        auto const g = gen::glyphs(s, 4);
        unsigned const which = unsigned(s.u(3));
        if (which < 2) { // tools reading learned glyphs
            f = glyph_file(g, false);
            if (which == 1) for (auto& e : f.e) e.last = f.bytes.rfind('\n', e.end - 1) + 1; // labels are counted as lines
            choose(which ? "write_datas" : "normalize_glyphs");
            write_file(dir + "t", f.bytes.substr(0, k));
            std::size_t n;
            Verdict const v = expected(f, k, n);
            auto const r = run_tool(which ? "write_datas" : "normalize_glyphs", {dir + "t"});
            PBT_REQ(c, v == Either || (r.status == 0) == (v == Accepted), (which ? "write_datas" : "normalize_glyphs") << " on " << quote(f.bytes.substr(0, k), 1500) << ": status " << r.status << ' ' << r.err.substr(0, 1500));
            if (which && r.status == 0) {
                std::vector<ref::Features> w;
                for (std::size_t i = 0; i < n; ++i) w.push_back(ref::features(g[i].pic));
                PBT_REQ(c, r.out == ref::feature_table(w), "write_datas printed " << quote(r.out, 1500) << " for " << n << " of the glyphs");
            }
            c.label(v == Accepted ? "tool: whole entries" : v == Refused ? "tool: refused" : "tool: last value");
        }
        else { // the recogniser: one of its files loses values
            std::vector<ref::Features> w;
            for (auto& x : g) w.push_back(ref::features(x.pic));
            std::ostringstream o;
            o << ppocr::spell::Dictionary(std::vector<std::string>{"ab", "b"});
            std::string files[4] = {ref::glyph_file(g), ref::feature_table(w), "ab 0 1 2 2\nb 1 1 1 1\n", o.str()};
            unsigned const at = unsigned(s.u(4));
            if (g.empty() && at < 2) { c.label("recogniser: nothing to cut"); return; }
            std::size_t const last = files[at].rfind('\n', files[at].size() - 2) + 1; // start of the last line
            std::size_t k = at == 0 ? last : at == 1 ? s.range(1, files[1].size() - 8) : at == 2 ? last + 1 : s.range(1, files[3].size() - 2);
            std::string const whole = files[at];
            files[at].resize(k);
            c.mix(at); c.mix(k); c.mix(whole);
            for (unsigned i = 0; i < 4; ++i) write_file(dir + "r" + std::to_string(i), files[i]);
            write_file(dir + "i", ref::encode_p4(ref::blank(9, 5)));
            c.nontrivial = true;
            c.describe([&](auto& o) { o << "recogniser, file " << at << " cut at " << k << ": " << quote(whole); });
            auto const r = run_tool("ocr2_extract_text", {dir + "r0", dir + "r1", dir + "i", dir + "r2", dir + "r3"});
            PBT_REQ(c, r.status != 0, "the recogniser accepts file " << at << " cut at " << k << " of " << whole.size() << ": " << quote(files[at], 1500) << " and prints " << quote(r.out, 600));
            PBT_REQ(c, r.out.find("## result") == std::string::npos, "the recogniser prints a result for a file cut short");
            PBT_REQ(c, r.err.find("Sanitizer") == std::string::npos && r.err.find("runtime error") == std::string::npos, "sanitizer report: " << r.err.substr(0, 3000));
            c.label("recogniser: refused");
        }
    }
}

}
